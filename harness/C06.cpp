// title: Decoding untrusted binary
// needs: abi crypto fpconv
// bounds-quick: every byte string of length 0..6 (0..40 for fixed-size and chain types, truncated at every length) for each decodable type and for ABI types of every kind
// bounds-thorough: every byte string of length 0..9 (0..70 for fixed-size types)
// outside: longer inputs
// assume: std::vector::max_size makes oversized resize requests throw std::length_error
#include "vsx.hpp"
#include "types.hpp"
#include <eosio/abi.hpp>
using namespace eosio;

// views into the input stay inside it
template <typename T> static bool inside(const T&, const char*, const char*) { return true; }
static bool inside(const std::string_view& v, const char* b, const char* e) { return v.data() >= b && v.data() <= e && v.size() <= size_t(e - v.data()); }
static bool inside(const input_stream& v, const char* b, const char* e) { return v.pos >= b && v.pos <= v.end && v.end <= e; }
// decode a T from every n-byte input; the input is an exactly sized heap block so any overrun is seen
template <typename T>
static void dec(size_t n) {
   auto  buf = sym_vec(n, "in");
   char* blk = new char[n ? n : 1];
   for (size_t i = 0; i < n; ++i) blk[i] = buf[i];
   input_stream s{ blk, n };
   // nothing may be requested that the bytes at hand cannot justify (growth factor of containers and node overhead included)
   vs_alloc_cap(4096 + 256 * n);
   bool ok;
   {
      T obj{};
      ok = completes([&] { from_bin(obj, s); });
      vs_assert(s.pos >= blk, "position moved before the input");
      vs_assert(s.pos <= blk + n, "position moved past the input");
      vs_assert(s.end == blk + n, "end of the input moved");
      vs_observe_u64(ok, "ok");
      if (ok) {
         vs_observe_u64((uint64_t)(s.pos - blk), "consumed");
         // decoding is a function of the bytes consumed: what was accepted is accepted again without the rest
         size_t used = s.pos - blk;
         vs_assert(inside(obj, blk, s.pos), "a view reaches outside the input");
         input_stream s2{ blk, used };
         T      o2{};
         bool   ok2 = completes([&] { from_bin(o2, s2); });
         vs_assert(ok2, "accepted with trailing bytes but rejected without them");
         vs_assert(s2.remaining() == 0, "consumption depends on bytes after the value");
      }
   }
   vs_alloc_cap(0);
   delete[] blk;
}
// every proper prefix of a valid encoding of a fixed-size type is rejected, the full length is accepted and consumed
template <typename T>
static void fixed(size_t sz, size_t slack) {
   size_t n   = vs_choice(sz + slack + 1, "len");
   auto   buf = sym_vec(n, "in");
   char*  blk = new char[n ? n : 1];
   for (size_t i = 0; i < n; ++i) blk[i] = buf[i];
   input_stream s{ blk, n };
   T    obj{};
   bool ok = completes([&] { from_bin(obj, s); });
   vs_assert(ok == (n >= sz), "fixed-size value accepted iff enough bytes are present");
   if (ok) vs_assert(s.remaining() == n - sz, "fixed-size value consumes exactly its size");
   vs_assert(s.pos >= blk && s.pos <= blk + n, "position outside the input");
   delete[] blk;
}
#define DEC(...) dec<__VA_ARGS__>(n)
extern "C" void h_fixed() {
   switch (vs_choice(17, "type")) {
   case 0: fixed<uint8_t>(1, 1); break;
   case 1: fixed<int16_t>(2, 1); break;
   case 2: fixed<uint32_t>(4, 1); break;
   case 3: fixed<int64_t>(8, 1); break;
   case 4: fixed<unsigned __int128>(16, 1); break;
   case 5: fixed<float>(4, 1); break;
   case 6: fixed<double>(8, 1); break;
   case 7: fixed<name>(8, 1); break;
   case 8: fixed<asset>(16, 1); break;
   case 9: fixed<extended_asset>(24, 1); break;
   case 10: fixed<time_point>(8, 1); break;
   case 11: fixed<block_timestamp>(4, 1); break;
   case 12: fixed<checksum256>(32, 1); break;
   case 13: fixed<vt::point>(14, 1); break;
   case 14: fixed<std::array<uint16_t, 3>>(6, 1); break;
   case 15: fixed<std::tuple<uint8_t, uint32_t, std::pair<uint16_t, bool>>>(8, 1); break;
   case 16: fixed<float128>(16, 1); break;
   }
   vs_reach("fixed");
}
extern "C" void h_bytes() {
   size_t n = vs_choice(VS_Q(7, 12), "n");
   switch (vs_choice(7, "type")) {
   case 0: DEC(std::string); break;
   case 1: DEC(bytes); break;
   case 2: DEC(std::vector<char>); break;
   case 3: DEC(std::vector<uint32_t>); break;
   case 4: DEC(std::vector<unsigned __int128>); break;
   case 5: DEC(std::string_view); break;
   case 6: DEC(input_stream); break;
   }
   vs_reach("bytes");
}
extern "C" void h_long_length() {   // 10-byte length prefixes
   size_t n = 9 + vs_choice(4, "n");
   switch (vs_choice(4, "type")) {
   case 0: DEC(bytes); break;
   case 1: DEC(std::vector<uint64_t>); break;
   case 2: DEC(input_stream); break;
   case 3: DEC(opaque<uint8_t>); break;
   }
   vs_reach("long length");
}
extern "C" void h_containers() {
   size_t n = vs_choice(VS_Q(6, 8), "n");
   switch (vs_choice(8, "type")) {
   case 0: DEC(std::vector<std::string>); break;
   case 1: DEC(std::vector<vt::rec>); break;
   case 2: DEC(std::list<uint16_t>); break;
   case 3: DEC(std::deque<uint8_t>); break;
   case 4: DEC(std::set<uint16_t>); break;
   case 5: DEC(std::map<uint8_t, uint16_t>); break;
   case 6: DEC(std::vector<std::vector<uint16_t>>); break;
   case 7: DEC(std::vector<std::optional<uint8_t>>); break;
   }
   vs_reach("containers");
}
extern "C" void h_wrappers() {
   size_t n = vs_choice(VS_Q(7, 9), "n");
   switch (vs_choice(8, "type")) {
   case 0: DEC(bool); break;
   case 1: DEC(std::optional<uint16_t>); break;
   case 2: DEC(std::variant<uint8_t, std::string, vt::point, uint16_t>); break;
   case 3: DEC(varuint32); break;
   case 4: DEC(varint32); break;
   case 5: DEC(vt::outer); break;
   case 6: DEC(std::array<std::string, 2>); break;
   case 7: DEC(opaque<std::vector<uint8_t>>); break;
   }
   vs_reach("wrappers");
}
struct c_arrays { uint16_t a[2]; std::string s[2]; bool f[2]; };
EOSIO_REFLECT(c_arrays, a, s, f)
extern "C" void h_c_arrays() {
   size_t n = vs_choice(VS_Q(12, 16), "n");
   DEC(c_arrays);
   vs_reach("c arrays");
}
extern "C" void h_keys() {
   static const size_t L[] = { 0, 1, 33, 34, 35, 36, 37, 38 };
   size_t n = L[vs_choice(8, "n")];
   switch (vs_choice(2, "type")) {
   case 0: DEC(public_key); break;
   case 1: DEC(private_key); break;
   }
   vs_reach("keys");
}
extern "C" void h_signature() {
   static const size_t L[] = { 0, 1, 65, 66, 67, 68, 70 };
   size_t n = L[vs_choice(7, "n")];
   DEC(signature);
   vs_reach("signature");
}
// decoding into a value that already holds something still yields exactly the encoded value
extern "C" void h_reuse() {
   size_t n = vs_choice(4, "n"), m = vs_choice(3, "m");
   switch (vs_choice(5, "type")) {
   case 0: { auto v = sym_str(n, "s"); std::string w = sym_str(m, "old"); auto b = convert_to_bin(v); input_stream s{ b }; from_bin(w, s); vs_assert(same(v, w), "string"); break; }
   case 1: { std::vector<uint16_t> v(n), w(m, 7); for (auto& x : v) x = vs_u16("v"); auto b = convert_to_bin(v); input_stream s{ b }; from_bin(w, s); vs_assert(w.size() == n && vs_eq(v.data(), w.data(), 2 * n), "vector"); break; }
   case 2: { std::optional<uint16_t> v, w; if (n & 1) v = vs_u16("v"); if (m & 1) w = 5; auto b = convert_to_bin(v); input_stream s{ b }; from_bin(w, s); vs_assert(v == w, "optional"); break; }
   case 3: { std::variant<uint8_t, std::string> v, w; if (n & 1) v = sym_str(n, "v"); else v = vs_u8("v"); if (m & 1) w = std::string("x"); auto b = convert_to_bin(v); input_stream s{ b }; from_bin(w, s); vs_assert(v == w, "variant"); break; }
   case 4: { std::vector<std::string> v, w(m, "zz"); for (size_t i = 0; i < n; ++i) v.push_back(sym_str(i, "v")); auto b = convert_to_bin(v); input_stream s{ b }; from_bin(w, s); vs_assert(v == w, "vector of strings"); break; }
   }
   vs_reach("reuse");
}
// a bad variant index or a wrong fixed array length is rejected
extern "C" void h_reject() {
   auto in = sym_vec(8, "in");
   if (vs_choice(2, "which")) {
      vs_assume((uint8_t)in[0] >= 3 && (uint8_t)in[0] < 0x80);
      std::variant<uint8_t, uint8_t, uint16_t> v;
      input_stream s{ in };
      vs_assert(!completes([&] { from_bin(v, s); }), "variant index out of range accepted");
   } else {
      vs_assume((uint8_t)in[0] != 3 && (uint8_t)in[0] < 0x80);
      uint16_t a[3];
      input_stream s{ in };
      vs_assert(!completes([&] { from_bin(a, s); }), "array of the wrong length accepted");
   }
   vs_reach("reject");
}
// decoding by an ABI: any bytes either convert or are refused, within the input and within bounds
static void by_abi(const char* type, size_t n, size_t cont = 0) {   // cont: that many bytes continue a length prefix
   abi_def d;
   d.version = "eosio::abi/1.0";
   d.types   = { { "alias", "bytes" } };
   d.structs = { { "base", "", { { "s", "string" }, { "o", "uint16?" } } }, { "rec", "base", { { "b", "alias" }, { "v", "var" }, { "e", "uint8[]$" } } },
                 { "tree", "", { { "kids", "tree[]" } } }, { "link", "", { { "next", "link?" } } } };
   d.variants.value = { { "var", { "uint8", "tree", "string[]" } } };
   abi a;
   convert(d, a);
   auto  t   = a.get_type(type);
   auto  buf = sym_vec(n, "in");
   for (size_t i = 0; i < cont; ++i) buf[i] = (char)vs_range(0x80, 0xff, "c");
   char* blk = new char[n ? n : 1];
   for (size_t i = 0; i < n; ++i) blk[i] = buf[i];
   input_stream s{ blk, n };
   vs_alloc_cap(65536 + 256 * n);
   std::string j;
   bool        ok = completes([&] { j = t->bin_to_json(s); });
   vs_alloc_cap(0);
   vs_assert(s.pos >= blk && s.pos <= blk + n && s.end == blk + n, "position outside the input");
   vs_observe_u64(ok, "ok");
   if (ok) {
      size_t       used = s.pos - blk;
      input_stream s2{ blk, used };
      std::string  j2;
      vs_assert(completes([&] { j2 = t->bin_to_json(s2); }) && s2.remaining() == 0, "consumption depends on bytes after the value");
   }
   delete[] blk;
}
extern "C" void h_abi() {
   static const char* const T[] = { "bytes", "string", "uint16[]", "string[]", "rec?", "var", "tree", "link", "public_key", "signature" };
   by_abi(T[vs_choice(10, "type")], vs_choice(VS_Q(5, 7), "n"));
   vs_reach("abi");
}
extern "C" void h_abi_long() {   // 10-byte length prefixes
   static const char* const T[] = { "bytes", "alias" };
   by_abi(T[vs_choice(2, "type")], 10 + vs_choice(3, "n"), 8);
   vs_reach("abi long");
}
extern "C" void h_abi_deep() {   // nesting deeper than the limit is refused
   size_t n = VS_Q(130, 130);
   abi_def d;
   d.version = "eosio::abi/1.0";
   d.structs = { { "tree", "", { { "kids", "tree[]" } } }, { "link", "", { { "next", "link?" } } } };
   abi a;
   convert(d, a);
   std::vector<char> v(n, 1);
   v.push_back(0);
   input_stream s{ v };
   vs_assert(!completes([&] { a.get_type(vs_choice(2, "t") ? "tree" : "link")->bin_to_json(s); }), "nesting deeper than the limit accepted");
   vs_reach("abi deep");
}
