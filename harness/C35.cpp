// title: floating-point numbers read from JSON
// needs: fpconv
// bounds-quick: the JSON of doubles of 31 exponents over the whole range (subnormal ones included) with 4 mantissa bits arbitrary at three places, of floats of 22 exponents likewise, of every infinity and NaN; texts of numbers with an arbitrary byte in front, behind and inside; powers of ten around both limits; values and texts are concretised, one path each, before the C library reads them
// bounds-thorough: 6 bits at five places
// assume: strtod and strtof of the C library round correctly (they run on the concrete text of each path)
// outside: other mantissas and exponents; numbers too small for the type, other than subnormal ones
// time-quick: 200
// time-thorough: 700
#include "json.hpp"
#include <cmath>
#include <cstring>
#include <limits>
template <typename T, typename U> static T from_bits(U b) { T d; memcpy(&d, &b, sizeof(d)); return d; }
template <typename U, typename T> static U to_bits(T d) { U b; memcpy(&b, &d, sizeof(b)); return b; }
template <typename T, typename U> static void back(U b) {
   b             = (U)vs_fork(b);   // a path for each value: strtod needs a concrete text
   T           d = from_bits<T>(b), r = 7;
   std::string t = eosio::convert_to_json(d);
   vs_assert(parse_json(t, r), "its JSON is accepted");
   vs_assert(to_bits<U>(r) == b, "the same value");
   vs_reach("same");
}
template <typename U> static U mantissa(size_t bits) {
   size_t w = VS_Q(4, 6), pos[] = { 0, bits - w, bits / 2, bits / 4, bits / 4 * 3 }, p = pos[vs_choice(VS_Q(3, 5), "pos")];
   U      m = vs_choice(2, "pattern") ? (U)(0x5a3c96e1b27d4u >> (52 - bits)) : 0;
   m &= ~((((U)1 << w) - 1) << p);
   return m | (U)vs_range(0, (1 << w) - 1, "m") << p;
}
extern "C" void h_double() {
   static const uint64_t Es[] = { 0, 1, 2, 20, 55, 100, 300, 512, 691, 800, 957, 990, 1000, 1013, 1022, 1023, 1024, 1030, 1050, 1075, 1080, 1098, 1101, 1123, 1200, 1400, 1536, 1700, 1999, 2045, 2046 };
   uint64_t e = Es[vs_choice(sizeof(Es) / sizeof(*Es), "E")], neg = vs_choice(2, "neg");
   uint64_t m = e ? mantissa<uint64_t>(52) : (uint64_t)(16 | vs_range(0, 15, "m")) << vs_choice(12, "p") * 4;
   back<double>(neg << 63 | e << 52 | m);
}
extern "C" void h_float() {
   static const uint32_t Es[] = { 0, 1, 2, 5, 20, 50, 90, 110, 117, 126, 127, 128, 130, 140, 150, 152, 170, 200, 203, 230, 253, 254 };
   uint32_t e = Es[vs_choice(sizeof(Es) / sizeof(*Es), "E")], neg = vs_choice(2, "neg");
   uint32_t m = e ? mantissa<uint32_t>(23) : (uint32_t)(8 | vs_range(0, 7, "m")) << vs_choice(10, "p") * 2;
   back<float>(neg << 31 | e << 23 | m);
}
// the smallest and greatest of each class
extern "C" void h_ends() {
   static const uint64_t ds[] = { 0, 1, 2, 3, 0xfffffffffffffu, 0x10000000000000u, 0x10000000000001u, 0x7fefffffffffffffu, 0x7feffffffffffffeu, 0x3ff0000000000000u, 0x3ff0000000000001u, 0x3fefffffffffffffu };
   static const uint32_t fs[] = { 0, 1, 2, 3, 0x7fffffu, 0x800000u, 0x800001u, 0x7f7fffffu, 0x7f7ffffeu, 0x3f800000u, 0x3f800001u, 0x3f7fffffu };
   uint32_t k = vs_choice(12, "k");
   uint64_t neg = vs_choice(2, "neg");
   if (vs_choice(2, "width")) back<double>(neg << 63 | ds[k]); else back<float>((uint32_t)neg << 31 | fs[k]);
}
template <typename T, typename U> static void special(U b, U inf) {
   T           d = from_bits<T>(b), r = 7;
   std::string t = eosio::convert_to_json(d);
   vs_assert(parse_json(t, r), "its JSON is accepted");
   if ((b & (inf - 1) & ((inf & -inf) - 1)) != 0) vs_assert(to_bits<U>(r) << 1 > (U)(inf << 1), "a NaN");
   else vs_assert(to_bits<U>(r) == b, "the same infinity");
   vs_reach("special");
}
extern "C" void h_special() {
   if (vs_choice(2, "width")) {
      uint64_t b = vs_u64("bits");
      vs_assume((b & 0x7ff0000000000000u) == 0x7ff0000000000000u);
      special<double>(b, (uint64_t)0x7ff0000000000000u);
   } else {
      uint32_t b = vs_u32("bits");
      vs_assume((b & 0x7f800000u) == 0x7f800000u);
      special<float>(b, (uint32_t)0x7f800000u);
   }
}
template <typename T> static void reads(const std::string& text, bool ok, double v) {
   T    r  = 7;
   bool ac = parse_json("\"" + text + "\"", r);
   vs_assert(ac == ok, ok ? "a number is accepted" : "what is not a number is refused");
   if (ok) vs_assert(r == (T)v && std::signbit(r) == std::signbit(v), "its value");
   vs_reach(ok ? "accepted" : "refused");
}
template <typename T> static void texts() {
   static const double tenths[] = { 12.0, 12.1, 12.2, 12.3, 12.4, 12.5, 12.6, 12.7, 12.8, 12.9 };
   static const double powers[] = { 1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9 };
   // an arbitrary byte behind, inside and in front of a number
   char c = (char)vs_u8("c");
   vs_assume(c >= 32 && c < 127 && c != '"' && c != '\\');
   c = (char)vs_fork((uint8_t)c);
   bool digit = c >= '0' && c <= '9';
   int  x     = c - '0';
   switch (vs_choice(8, "form")) {
   case 0: reads<T>(std::string("12") + c, digit || c == '.', digit ? 120 + x : 12); break;
   case 1: reads<T>(std::string("12.") + c, digit, digit ? tenths[x] : 0); break;
   case 2: reads<T>(std::string("1e") + c, digit, digit ? powers[x] : 0); break;
   case 3: reads<T>(std::string("25e-") + c + "x", false, 0); break;
   case 4: if (c != ' ') reads<T>(std::string() + c + "5", digit || c == '-' || c == '+' || c == '.', c == '-' ? -5 : c == '+' ? 5 : c == '.' ? 0.5 : 10 * x + 5); break;
   case 5: reads<T>(std::string("-7") + c + "0", digit || c == '.' || c == 'e' || c == 'E', digit ? -700 - 10 * x : -7); break;
   case 6: reads<T>(std::string() + c, digit, x); break;
   case 7: reads<T>(std::string("Infinit") + c, c == 'y' || c == 'Y', std::numeric_limits<double>::infinity()); break;
   }
}
extern "C" void h_texts() {
   if (vs_choice(2, "width")) texts<double>(); else texts<float>();
}
// too large for the type; not a string or number at all
extern "C" void h_limits() {
   bool w = vs_choice(2, "width"), neg = vs_choice(2, "neg");
   int  d = (int)vs_choice(9, "d") + 1;
   std::string s = std::string(neg ? "-" : "") + (char)('0' + d);
   double r = 7;
   float  f = 7;
   auto   in = [&](const std::string& t) { return w ? parse_json(t, r) : parse_json(t, f); };
   switch (vs_choice(7, "k")) {
   case 0: vs_assert(in(s + (w ? "e308" : "e38")) == (d <= (w ? 1 : 3)), "too large"); break;
   case 1: vs_assert(!in(s + (w ? "e309" : "e39")), "too large"); break;
   case 2: vs_assert(!in(s + "e9999"), "too large"); break;
   case 3: vs_assert(in(s) && (w ? r : f) == (neg ? -d : d), "a plain number"); break;
   case 4: vs_assert(!in("\"\"") && !in("null") && !in("[]") && !in("{}") && !in("true"), "other JSON"); break;
   case 5: vs_assert(in(s + (w ? "e-308" : "e-38")), "near the smallest normal number"); break;
   case 6: vs_assert(in(s + (w ? "e-320" : "e-43")) && (w ? r != 0 : f != 0), "subnormal"); break;
   }
   vs_reach("limits");
}
