// title: state-history messages keep their layout
// needs: crypto fpconv
// bounds-quick: every message type and every table row type of the protocol; all contents of all fixed-size fields arbitrary; texts, payloads, vectors, optionals and variants all minimal, all present, or all of two elements, with any one place different (quick: lengths 0 to 2, variable-length integers of 1 to 3 bytes); failed transaction traces nested once; every cut of each message (quick: of the minimal one and the one with everything present)
// bounds-thorough: any two places different
// outside: longer vectors and payloads; JSON with other field values than two-digit numbers, one-letter names, chosen times and keys (the texts of the fields are decided by other properties); JSON of get_blocks_result_v1 (opaque fields have none) and of long double
// time-quick: 240
// time-thorough: 850
#include "ship.hpp"
namespace sp = eosio::ship_protocol;
static G make(Fn f, bool text, size_t left, size_t usuals = 3) {
   G g;
   g.text  = text;
   g.usual = vs_choice(usuals, "usual");
   g.left  = left;
   ship::depth = 0;
   f(g);
   return g;
}
static std::vector<char> bytes_of(const std::string& s) { return std::vector<char>(s.data(), s.data() + s.size()); }
template <typename T> static void binary(Fn f) {
   G g = make(f, false, VS_Q(1, 2));
   std::vector<char> b = bytes_of(g.bin), o;
   T x;
   bool rest = true, ok = completes([&] { eosio::input_stream s(b); from_bin(x, s); rest = s.pos != s.end; });
   vs_assert(ok && !rest, "read to its end");
   vs_assert(completes([&] { o = eosio::convert_to_bin(x); }), "written");
   vs_assert(same(o, b), "same bytes");
   vs_reach("binary");
}
template <typename T> static void cut(Fn f) {
   G g = make(f, false, 0, VS_Q(2, 3));
   size_t n = vs_choice(g.bin.size(), "cut");
   std::vector<char> b = bytes_of(g.bin.substr(0, n));
   T x;
   vs_assert(!completes([&] { eosio::input_stream s(b); from_bin(x, s); }), "a message cut short is refused");
   vs_reach("cut");
}
template <typename T> static void json(Fn f) {
   G g = make(f, true, VS_Q(1, 2));
   std::vector<char> b = bytes_of(g.bin);
   std::string j;
   bool ok = completes([&] { j = eosio::convert_to_json(eosio::convert_from_bin<T>(b)); });
   vs_assert(ok && same(j, g.json), "JSON");
   vs_reach("json");
}
template <typename T> static void some(Fn f) {
   switch (vs_choice(3, "mode")) { case 0: binary<T>(f); break; case 1: cut<T>(f); break; default: json<T>(f); }
}
template <typename T> static void some_bin(Fn f) { if (vs_choice(2, "mode")) binary<T>(f); else cut<T>(f); }
#define IT(T) some<sp::T>(ship::T)
extern "C" void h_request() { IT(request); }
extern "C" void h_status_result() { IT(get_status_result_v0); }
extern "C" void h_blocks_result_v0() { IT(get_blocks_result_v0); }
extern "C" void h_blocks_result_v1() { some_bin<sp::get_blocks_result_v1>(ship::get_blocks_result_v1); }
extern "C" void h_result() { binary<sp::result>(ship::result); }
extern "C" void h_table_delta() { IT(table_delta); }
extern "C" void h_action_trace() { IT(action_trace); }
extern "C" void h_partial_transaction() { IT(partial_transaction); }
extern "C" void h_transaction_trace() { IT(transaction_trace); }
extern "C" void h_signed_block() { IT(signed_block_variant); }
extern "C" void h_transaction() { IT(transaction); }
extern "C" void h_code() { switch (vs_choice(4, "row")) { case 0: IT(account); break; case 1: IT(account_metadata); break; case 2: IT(code); break; default: IT(contract_table); } }
extern "C" void h_contract_row() { switch (vs_choice(3, "row")) { case 0: IT(contract_row); break; case 1: IT(contract_index64); break; default: IT(contract_index128); } }
extern "C" void h_contract_index() { switch (vs_choice(4, "row")) { case 0: IT(contract_index256); break; case 1: IT(contract_index_double); break; case 2: some_bin<sp::contract_index_long_double>(ship::contract_index_long_double); break; default: IT(key_value); } }
extern "C" void h_global_property() { IT(global_property); }
extern "C" void h_permission() { IT(permission); }
extern "C" void h_other_rows() { switch (vs_choice(5, "row")) { case 0: IT(generated_transaction); break; case 1: IT(protocol_state); break; case 2: IT(permission_link); break; case 3: IT(activated_protocol_feature); break; default: IT(resource_limits); } }
extern "C" void h_resources() { switch (vs_choice(3, "row")) { case 0: IT(resource_usage); break; case 1: IT(resource_limits_state); break; default: IT(resource_limits_config); } }
// the status of transactions
extern "C" void h_status() {
   static const char* const names[] = { "executed", "soft_fail", "hard_fail", "delayed", "expired" };
   uint8_t     b = vs_u8("status");
   std::string s;
   bool        ok = completes([&] { s = sp::to_string((sp::transaction_status)b); });
   vs_assert(ok == (b < 5), "the five statuses have names, others are refused");
   if (ok) { vs_assert(s == names[b], "name"); vs_reach("status"); }
   size_t      k = vs_choice(5, "name");
   std::string t = names[k];
   bool        changed = vs_choice(2, "changed"), differs = false;
   if (changed) {
      switch (vs_choice(3, "how")) {
      case 0: { size_t p = vs_choice(t.size(), "pos"); char c = (char)vs_u8("c"); differs = c != t[p]; t[p] = c; break; }
      case 1: t.pop_back(); differs = true; break;
      default: t.push_back((char)vs_u8("c")); differs = true;
      }
   }
   sp::transaction_status r = (sp::transaction_status)0xff;
   ok = completes([&] { r = sp::get_transaction_status(t); });
   vs_assert(ok == !differs, "exactly the names are statuses");
   if (ok) { vs_assert((size_t)r == k, "status of a name"); vs_reach("status name"); } else vs_reach("no status");
}
