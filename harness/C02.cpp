// title: Strict name parsing accepts exactly the valid names
// bounds-quick: strings of every length 0..15, every byte value; 40-byte strings
// bounds-thorough: strings of every length 0..24, every byte value; 40-byte strings
// bounds: strings of every length 0..15 (quick) / 0..24 (thorough), every byte value
// outside: longer strings; compile-time literals other than the listed samples
#include "vsx.hpp"
#include <eosio/from_json.hpp>
#include <eosio/name.hpp>
using namespace eosio;

static bool name_char(char c) { return either(either(both(c >= 'a', c <= 'z'), both(c >= '1', c <= '5')), c == '.'); }
static uint64_t digit(char c) {
   uint64_t d = 0;
   d = both(c >= '1', c <= '5') ? (uint64_t)(uint8_t)(c - '1') + 1 : d;
   d = both(c >= 'a', c <= 'z') ? (uint64_t)(uint8_t)(c - 'a') + 6 : d;
   return d;
}
// reference: positional value and validity
static bool ref(const std::string& s, uint64_t& v) {
   bool ok = s.size() <= 13;
   v       = 0;
   for (size_t i = 0; i < s.size(); ++i) {
      ok         = both(ok, name_char(s[i]));
      uint64_t d = digit(s[i]);
      if (i < 12) v += d << (59 - 5 * i);
      else if (i == 12) { ok = both(ok, d < 16); v += d; }
   }
   return ok;
}
static void check_len(size_t n) {
   std::string s = sym_str(n, "s");
   uint64_t    v;
   bool        ok = ref(s, v);
   auto        r  = try_string_to_name_strict(s);
   vs_observe_u64(bool(r), "accepted");
   vs_assert(bool(r) == ok, "accepted set differs from the valid names");
   if (bool(r)) {
      vs_assert(r.value() == v, "value differs from the positional value");
      vs_reach("accepted");
   } else
      vs_reach("rejected");
}
extern "C" void h_try() { check_len(vs_choice(VS_Q(16, 25), "len")); }
extern "C" void h_long() { check_len(40); }
// throwing entry points agree with the reference
static void throwing(size_t n, int which) {
   std::string s = sym_str(n, "s");
   uint64_t    v, got = 0;
   bool        ok = ref(s, v);
   bool c = completes([&] { got = which ? name(std::string_view(s)).value : string_to_name_strict(s); });
   vs_assert(c == ok, "throwing parser: accepted set differs");
   if (c) vs_assert(got == v, "throwing parser: value differs");
   if (c) vs_reach("throwing accepted"); else vs_reach("throwing rejected");
}
extern "C" void h_strict() { throwing(vs_choice(VS_Q(15, 20), "len"), 0); }
extern "C" void h_ctor() { throwing(vs_choice(VS_Q(15, 20), "len"), 1); }
// the lenient parser agrees with the strict one wherever the strict one accepts, for all overloads
extern "C" void h_lenient() {
   size_t      n = vs_choice(14, "len");
   std::string s = sym_str(n, "s");
   uint64_t    v;
   vs_assume(ref(s, v));
   vs_assert(string_to_name(s) == v, "lenient parser (std::string)");
   vs_assert(string_to_name(std::string_view(s)) == v, "lenient parser (string_view)");
   vs_assert(string_to_name(s.data(), (int)n) == v, "lenient parser (pointer, size)");
   vs_assert(string_to_name(s.c_str()) == v, "lenient parser (C string)");
   vs_assert(hash_name(s) == v, "hash_name of a valid name");
   vs_reach("lenient");
}
// single characters
extern "C" void h_char_to_value() {
   char    c = (char)vs_u8("c");
   uint8_t d = 255;
   bool    k = completes([&] { d = name::char_to_value(c); });
   vs_assert(k == name_char(c), "char_to_value accepts exactly the alphabet");
   if (k) { vs_assert(d == digit(c), "char_to_value value"); vs_reach("char"); }
}
// compile-time literals agree with run-time parsing
extern "C" void h_literals() {
   auto eq = [](name n, const char* s) { vs_assert(n.value == string_to_name_strict(s), "literal"); };
   eq(""_n, ""); eq("a"_n, "a"); eq("eosio"_n, "eosio"); eq("eosio.token"_n, "eosio.token"); eq("abcdefghijkl"_n, "abcdefghijkl");
   eq("mnopqrstuvwx"_n, "mnopqrstuvwx"); eq("yz12345....."_n, "yz12345....."); eq("zzzzzzzzzzzzj"_n, "zzzzzzzzzzzzj"); eq("1.2.3.4.5.a.b"_n, "1.2.3.4.5.a.b");
   eq("............1"_n, "............1"); eq("...........z"_n, "...........z"); eq(".z"_n, ".z");
   vs_reach("literals");
}
