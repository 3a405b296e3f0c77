// title: Name text round trip
// bounds: every 64-bit name value; strict parser input strings of every length 0..13, every byte value
// outside: strings longer than 13 characters (rejection is property C02)
#include "vsx.hpp"
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/name.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
using namespace eosio;

static bool name_char(char c) { return either(either(both(c >= 'a', c <= 'z'), both(c >= '1', c <= '5')), c == '.'); }

// value -> text -> value
extern "C" void h_value_text_value() {
   uint64_t    v = vs_u64("v");
   std::string s = name_to_string(v);
   observe(s, "text");
   vs_assert(s.size() <= 13, "text longer than 13 characters");
   bool ok = true;
   for (char c : s) ok = both(ok, name_char(c));
   vs_assert(ok, "character outside the name alphabet");
   if (!s.empty()) vs_assert(s.back() != '.', "text ends with a dot");
   vs_assert(string_to_name_strict(s) == v, "strict parse of the text gives a different value");
   vs_assert(string_to_name(s) == v, "lenient parse (std::string) of the text gives a different value");
   vs_assert(string_to_name(std::string_view(s)) == v, "lenient parse (string_view) of the text gives a different value");
   vs_assert(string_to_name(s.c_str()) == v, "lenient parse (C string) of the text gives a different value");
   auto t = try_string_to_name_strict(s);
   vs_assert(bool(t), "try_ parse rejects the text of a name");
   vs_assert(t.value() == v, "try_ parse gives a different value");
   name n{ v };
   vs_assert(same(n.to_string(), s), "name::to_string differs from name_to_string");
   vs_assert(same(std::string(n), s), "string conversion differs from name_to_string");
   vs_assert(name(std::string_view(s)) == n, "name constructed from its text differs");
   vs_assert(bool(n) == (v != 0), "explicit bool");
   vs_reach("value/text");
}
// value -> JSON -> value, value -> binary -> value
extern "C" void h_value_json_value() {
   name        n{ vs_u64("v") };
   std::string j = convert_to_json(n);
   observe(j, "json");
   vs_assert(same(j, "\"" + name_to_string(n.value) + "\""), "JSON of a name is not its quoted text");
   json_token_stream s(j.data());
   name              m{ 0 };
   from_json(m, s);
   vs_assert(m == n, "JSON round trip");
   vs_reach("json");
}
extern "C" void h_value_bin_value() {
   name n{ vs_u64("v") };
   auto b = convert_to_bin(n);
   vs_assert(b.size() == 8, "binary size");
   bool le = true;
   for (int i = 0; i < 8; ++i) le = both(le, (uint8_t)b[i] == (uint8_t)(n.value >> (8 * i)));
   vs_assert(le, "binary form is not the little-endian value");
   vs_assert(convert_from_bin<name>(b) == n, "binary round trip");
   vs_reach("bin");
}
// accepted text -> value -> text is the identity up to trailing dots
extern "C" void h_text_value_text() {
   size_t      n = vs_choice(14, "len");
   std::string s = sym_str(n, "s");
   auto        r = try_string_to_name_strict(s);
   if (!bool(r)) return;
   std::string t = name_to_string(r.value());
   observe(t, "text");
   bool ok = t.size() <= n;
   for (size_t i = 0; i < n; ++i) ok = both(ok, s[i] == (i < t.size() ? t[i] : '.'));
   vs_assert(ok, "accepted text does not come back (up to trailing dots)");
   vs_reach("text/value");
}
// distinct values have distinct texts
extern "C" void h_injective() {
   uint64_t a = vs_u64("a"), b = vs_u64("b");
   std::string s = name_to_string(a), t = name_to_string(b);
   if (s.size() != t.size()) { vs_assert(a != b, "same value, different length"); return; }
   vs_assert(vs_eq(s.data(), t.data(), s.size()) == (a == b), "text equality differs from value equality");
   vs_reach("injective");
}
