// title: ABI-driven conversion
// needs: abi crypto fpconv
// bounds-quick: every ABI type built from an integer and a string by structs (with and without base), variants, aliases, arrays and optionals nested up to 3 deep, with 0..2 elements, every alternative and presence and arbitrary leaf contents, complete and cut off after every byte; every one of the 31 built-in types and extended_asset with arbitrary bytes (numbers with more than 2 digits: one arbitrary byte), and with quoted texts of 0..2 arbitrary characters
// bounds-thorough: the same, nested up to 4 deep; arrays of up to 3 elements; texts of up to 3 characters
// outside: deeper nesting and longer arrays; finite fractional floats; ABI binary extensions (C22)
// samples: 6
// time-quick: 200
// time-thorough: 800
#include "abigen.hpp"
#include <eosio/asset.hpp>
#include <eosio/bytes.hpp>
#include <eosio/convert.hpp>
#include <eosio/crypto.hpp>
#include <eosio/fixed_bytes.hpp>
#include <eosio/float.hpp>
#include <eosio/time.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/varint.hpp>
using namespace eosio;
static const abi_type* build(abi_def& d, abi& a, const Ty& ty) {
   d.version = "eosio::abi/1.1";
   convert(d, a);
   return a.get_type(ty.name);
}
extern "C" void h_shapes() {
   abi_def     d;
   Ty          ty = make_type(d, VS_Q(3, 4));
   std::string bin, json, text;
   value(ty, bin, json);
   abi             a;
   const abi_type* t = build(d, a, ty);
   vs_assert(to_text(t, bin, text), "binary accepted and used up");
   vs_assert(same(text, json), "JSON of the value");
   std::vector<char> b, c;
   vs_assert(to_bin_ordered(t, json, b), "JSON accepted");
   vs_assert(same(b, vec(bin)), "binary of the value");
   vs_assert(to_bin_any(t, json, c), "JSON accepted (reorderable)");
   vs_assert(same(c, b), "binary of the value (reorderable)");
   vs_reach("shape");
}
extern "C" void h_cut() {
   abi_def     d;
   Ty          ty = make_type(d, 2);
   std::string bin, json, text;
   value(ty, bin, json, VS_Q(2, 3));
   abi             a;
   const abi_type* t = build(d, a, ty);
   vs_assert(!to_text(t, bin.substr(0, vs_choice(bin.size(), "cut")), text), "cut off binary refused");
   bin.push_back((char)vs_u8("more"));
   std::vector<char> b = vec(bin);
   size_t            left = 0;
   vs_assert(completes([&] { input_stream s(b); text = t->bin_to_json(s); left = s.end - s.pos; }) && left == 1 && same(text, json), "only the value is consumed");
   vs_reach("cut");
}
// ---- built-in types against the native conversions
template <typename T>
static void builtin(const char* name, const std::string& bin) {
   abi_def d;
   abi     a;
   Ty      ty;
   ty.name           = name;
   const abi_type*   t = build(d, a, ty);
   std::vector<char> b = vec(bin);
   T                 v;
   size_t            used = 0;
   bool              ok   = completes([&] { input_stream s(b); from_bin(v, s); used = s.pos - b.data(); });
   std::string       want, got;
   ok                     = ok && completes([&] { want = convert_to_json(v); });
   size_t aused = 0;
   bool   aok   = completes([&] { input_stream s(b); got = t->bin_to_json(s); aused = s.pos - b.data(); });
   vs_assert(aok == ok, "binary accepted alike");
   if (!ok) { vs_reach("refused"); return; }
   vs_assert(aused == used && same(got, want), "same JSON");
   T                 back;
   std::vector<char> w, x, y;
   if (parse_json(want, back)) {
      w = convert_to_bin(back);
      vs_assert(to_bin_ordered(t, want, x) && same(x, w), "same binary");
      vs_assert(to_bin_any(t, want, y) && same(y, w), "same binary (reorderable)");
      vs_reach("back");
   } else {
      vs_assert(!to_bin_ordered(t, want, x) && !to_bin_any(t, want, y), "JSON refused alike");
      vs_reach("not back");
   }
}
template <typename T>
static void text(const char* name, const std::string& json) {
   abi_def d;
   abi     a;
   Ty      ty;
   ty.name           = name;
   const abi_type*   t = build(d, a, ty);
   T                 v;
   bool              ok = parse_json(json, v);
   std::vector<char> w, x, y;
   if (ok) w = convert_to_bin(v);
   bool o = to_bin_ordered(t, json, x), r = to_bin_any(t, json, y);
   vs_assert(o == ok, "accepted alike");
   vs_assert(r == ok, "accepted alike (reorderable)");
   if (ok) { vs_assert(same(x, w) && same(y, w), "same binary"); vs_reach("accepted"); } else vs_reach("refused");
}
typedef unsigned __int128 u128;
template <typename F> struct Tag { typedef F type; };
template <typename F>
static void for_type(size_t i, F f) {   // f(Tag<T>, name, number of bytes, how many of them may be arbitrary at a time)
   switch (i) {
   case 0: return f(Tag<bool>{}, "bool", 1, 1);
   case 1: return f(Tag<int8_t>{}, "int8", 1, 1);
   case 2: return f(Tag<uint8_t>{}, "uint8", 1, 1);
   case 3: return f(Tag<int16_t>{}, "int16", 2, 1);
   case 4: return f(Tag<uint16_t>{}, "uint16", 2, 1);
   case 5: return f(Tag<int32_t>{}, "int32", 4, 1);
   case 6: return f(Tag<uint32_t>{}, "uint32", 4, 1);
   case 7: return f(Tag<int64_t>{}, "int64", 8, 1);
   case 8: return f(Tag<uint64_t>{}, "uint64", 8, 1);
   case 9: return f(Tag<__int128>{}, "int128", 16, 1);
   case 10: return f(Tag<u128>{}, "uint128", 16, 1);
   case 11: return f(Tag<varuint32>{}, "varuint32", 1, 1);
   case 12: return f(Tag<varint32>{}, "varint32", 1, 1);
   case 13: return f(Tag<float>{}, "float32", 4, 0);
   case 14: return f(Tag<double>{}, "float64", 8, 0);
   case 15: return f(Tag<float128>{}, "float128", 16, 16);
   case 16: return f(Tag<time_point>{}, "time_point", 8, 0);
   case 17: return f(Tag<time_point_sec>{}, "time_point_sec", 4, 0);
   case 18: return f(Tag<block_timestamp>{}, "block_timestamp_type", 4, 0);
   case 19: return f(Tag<name>{}, "name", 8, 1);
   case 20: return f(Tag<bytes>{}, "bytes", 4, 4);
   case 21: return f(Tag<std::string>{}, "string", 3, 3);
   case 22: return f(Tag<checksum160>{}, "checksum160", 20, 20);
   case 23: return f(Tag<checksum256>{}, "checksum256", 32, 32);
   case 24: return f(Tag<checksum512>{}, "checksum512", 64, 64);
   case 25: return f(Tag<public_key>{}, "public_key", 34, 0);
   case 26: return f(Tag<private_key>{}, "private_key", 33, 0);
   case 27: return f(Tag<signature>{}, "signature", 66, 0);
   case 28: return f(Tag<symbol>{}, "symbol", 8, 1);
   case 29: return f(Tag<symbol_code>{}, "symbol_code", 8, 1);
   case 30: return f(Tag<asset>{}, "asset", 16, 1);
   default: return f(Tag<extended_asset>{}, "extended_asset", 24, 1);
   }
}
extern "C" void h_builtin() {
   for_type(vs_choice(32, "type"), [](auto tag, const char* name, size_t n, size_t any) {
      typedef typename decltype(tag)::type T;
      static const uint8_t base[] = { 1, 2, 0, 3, 0, 0, 0, 0, 4, 'A', 'B', 'C', 0, 0, 0, 0, 0, 0xa6, 0x82, 0x34, 3, 0xea, 0x30, 0x55 };
      std::string b;
      if (any == n && n > 1 && n < 8) { n = vs_choice(n + 1, "n"); b = sym_str(n, "b"); }
      else if (any == n) { b = sym_str(n, "b"); if (vs_choice(2, "short")) b.pop_back(); }
      else {
         for (size_t i = 0; i < n; ++i) b.push_back(n == 8 && any && name[0] == 's' ? base[8 + i] : n < 24 && n != 16 ? base[i] : n == 16 || n == 24 ? base[n == 16 && name[0] != 'a' ? i % 4 : i] : (char)(i == 0 ? 0 : i == 1 ? 2 : i * 7));
         if (any) b[vs_choice(n, "p")] = (char)vs_u8("b");
         if (vs_choice(4, "short") == 3) b.pop_back();
      }
      builtin<T>(name, b);
   });
}
extern "C" void h_text() {
   for_type(vs_choice(31, "type"), [](auto tag, const char* name, size_t, size_t) {
      typedef typename decltype(tag)::type T;
      std::string s, q = vs_choice(2, "quoted") ? "\"" : "";
      bool fl = name[0] == 'f' && name[5] != '1';
      if (fl) { static const char* F[] = { "1", "-0", "nan", "Infinity", "-Infinity", "x", "1e400", "2 ", "" }; s = F[vs_choice(9, "f")]; }
      else if (q.size()) { for (size_t n = vs_choice(VS_Q(3, 4), "n"); n--;) s.push_back((char)vs_range(33, 126, "c")); }
      else { static const char* J[] = { "0", "1", "true", "false", "null", "-1", "300", "[]", "{}" }; s = J[vs_choice(9, "j")]; }
      for (char c : s) vs_assume(both(c != '"', c != '\\'));
      text<T>(name, q + s + q);
   });
}
