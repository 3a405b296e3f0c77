// title: floating-point numbers in JSON
// needs: fpconv
// bounds-quick: every infinity and NaN of both widths and both zeros; doubles from 2^-17 to 2^82 of every exponent with 8 neighbouring mantissa bits arbitrary at four places in two patterns, and of 65 further exponents over the whole range with 6 bits at two places; subnormal doubles with up to 6 significant bits at 12 places; floats from 2^-17 to 2^43 likewise at both ends
// bounds-thorough: 10 bits, six places; further exponents with 8 bits at four places; subnormals with up to 7 significant bits at 46 places
// outside: other mantissas and exponents; reading numbers (strtod of the C library)
// time-quick: 250
// time-thorough: 700
#include "json.hpp"
#include "dec.hpp"
#include <cstring>
static double from_bits(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static float  from_bits32(uint32_t b) { float d; memcpy(&d, &b, 4); return d; }
// ---- not finite
extern "C" void h_special() {
   std::string t;
   bool        neg;
   uint64_t    m;
   if (vs_choice(2, "width")) {
      uint64_t b = vs_u64("bits");
      vs_assume((b & 0x7ff0000000000000u) == 0x7ff0000000000000u);
      neg = b >> 63; m = b & 0xfffffffffffffu;
      t = eosio::convert_to_json(from_bits(b));
   } else {
      uint32_t b = vs_u32("bits");
      vs_assume((b & 0x7f800000u) == 0x7f800000u);
      neg = b >> 31; m = b & 0x7fffff;
      t = eosio::convert_to_json(from_bits32(b));
   }
   if (m) vs_assert(t == "\"NaN\"", "NaN");
   else if (neg) vs_assert(t == "\"-Infinity\"", "-Infinity");
   else vs_assert(t == "\"Infinity\"", "Infinity");
   vs_reach("special");
}
extern "C" void h_zero() {
   bool w = vs_choice(2, "width"), neg = vs_choice(2, "neg");
   std::string t = w ? eosio::convert_to_json(from_bits((uint64_t)neg << 63)) : eosio::convert_to_json(from_bits32((uint32_t)neg << 31));
   vs_assert(t == (neg ? "-0" : "0"), "zero");
   vs_reach("zero");
}
// ---- finite
using Big = std::vector<uint64_t>;   // limbs of 32 bits, least significant first
static Big big(u128 x) { Big r; for (int i = 0; i < 3; ++i, x >>= 32) r.push_back((uint32_t)x); return r; }
static Big mul(const Big& a, const Big& b) {
   Big r(a.size() + b.size(), 0);
   for (size_t i = 0; i < a.size(); ++i) {
      uint64_t c = 0;
      for (size_t j = 0; j < b.size(); ++j) { c += r[i + j] + a[i] * b[j]; r[i + j] = (uint32_t)c; c >>= 32; }
      r[i + b.size()] = c;
   }
   return r;
}
static Big shl(const Big& a, int n) {
   Big      r(n / 32, 0);
   uint64_t c = 0;
   n %= 32;
   for (uint64_t x : a) { c |= x << n; r.push_back((uint32_t)c); c >>= 32; }
   r.push_back(c);
   return r;
}
static Big add(const Big& a, const Big& b) {
   Big      r;
   uint64_t c = 0;
   for (size_t i = 0; i < a.size() || i < b.size(); ++i) { c += (i < a.size() ? a[i] : 0) + (i < b.size() ? b[i] : 0); r.push_back((uint32_t)c); c >>= 32; }
   r.push_back(c);
   return r;
}
static bool le(const Big& a, const Big& b) {
   bool r = true;
   for (size_t i = 0; i < a.size() || i < b.size(); ++i) {
      uint64_t x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0;
      r = either(x < y, both(x == y, r));
   }
   return r;
}
static Big pow5(int n) {
   Big r{ 1 };
   for (; n >= 13; n -= 13) { r = mul(r, Big{ 1220703125 }); if (!r.back()) r.pop_back(); }
   uint64_t f = 1;
   while (n-- > 0) f *= 5;
   return mul(r, Big{ f });
}
static void check(const std::string& t0, bool neg, uint64_t M, int e, bool smallest) {   // the value is M * 2^e
   std::string t = t0;
   vs_assert(t.size() >= 1 && t.size() <= 24, "length");
   vs_assert((t[0] == '-') == neg, "sign");
   if (neg) t = t.substr(1);
   // digits [. digits] [e sign digits]
   u128   D = 0;
   int    k = 0;
   size_t i = 0, n = 0, f = 0;
   bool   good = true;
   auto digit = [&](char c) { good = both(good, both(c >= '0', c <= '9')); return (u128)(uint8_t)(c - '0'); };
   for (; i < t.size() && t[i] != '.' && t[i] != 'e'; ++i, ++n) D = D * 10 + digit(t[i]);
   vs_assert(n >= 1, "digits before the point");
   vs_assert(n == 1 || t[0] != '0', "no leading zero");
   if (i < t.size() && t[i] == '.') {
      for (++i; i < t.size() && t[i] != 'e'; ++i, ++f) D = D * 10 + digit(t[i]);
      vs_assert(f >= 1, "digits after the point");
      k = -(int)f;
   }
   if (i < t.size()) {
      ++i;
      vs_assert(i + 2 <= t.size() && (t[i] == '+' || t[i] == '-'), "sign of the exponent");
      bool m = t[i++] == '-';
      int  x = 0;
      for (; i < t.size(); ++i) { digit(t[i]); x = x * 10 + (t[i] - '0'); }
      x = (int)vs_fork(x);
      k += m ? -x : x;
   }
   vs_assert(good, "digits");
   vs_assert(n + f <= 24 && k > -400 && k < 400, "number of digits");
   // A: the text, B: the value, U: the distance to the next double, all times the same number
   Big A = big(D), B = big(M), U = big(1), P = pow5(k < 0 ? -k : k);
   if (k > 0) A = mul(A, P);
   else if (k < 0) { B = mul(B, P); U = mul(U, P); }
   if (e < k) A = shl(A, k - e); else { B = shl(B, e - k); U = shl(U, e - k); }
   Big a2 = shl(A, 1), b2 = shl(B, 1);
   vs_assert(both(le(a2, add(b2, U)), le(b2, add(a2, U))), "the text is nearer to the value than to any other");
   if (smallest) vs_assert(le(shl(B, 2), add(shl(A, 2), U)), "nearer than to the value below");
   vs_reach("finite");
}
static void one(int E, uint64_t m, bool neg) {   // E: -1023 for subnormal numbers
   double d = from_bits((uint64_t)neg << 63 | (uint64_t)(E + 1023) << 52 | m);
   if (E == -1023) check(eosio::convert_to_json(d), neg, m, -1074, false);
   else check(eosio::convert_to_json(d), neg, m | (uint64_t)1 << 52, E - 52, both(m == 0, E > -1022));
}
static uint64_t mantissa(size_t w, size_t p, bool pat) {
   uint64_t m = pat ? 0x5a3c96e1b27d4u : 0;
   m &= ~((((uint64_t)1 << w) - 1) << p);
   return m | (uint64_t)vs_range(0, (1 << w) - 1, "m") << p;
}
extern "C" void h_double() {
   int    E = (int)vs_choice(99, "E") - 17;
   size_t w = VS_Q(8, 10), pos[] = { 0, 22, 44 - (size_t)(VS_Q(0, 2)), 36, 11, 30 }, p = pos[vs_choice(VS_Q(4, 6), "pos")];
   bool   pat = vs_choice(2, "pattern"), neg = E & 1;
   one(E, mantissa(w, p, pat), neg);
}
// plain numbers of the greatest length, of both signs
extern "C" void h_longest() {
   int  E = (int)vs_choice(8, "E") + 73;
   bool neg = vs_choice(2, "neg"), pat = vs_choice(2, "pattern");
   static const size_t pos[] = { 0, 22, 44 };
   one(E, mantissa(8, pos[vs_choice(3, "pos")], pat), neg);
}
// exponents over the whole range, where the number of digits of the decimal exponent changes and at both ends
extern "C" void h_exponents() {
   static const int Es[] = { -1022, -1021, -1000, -900, -700, -512, -400, -340, -336, -333, -332, -330, -329, -300, -200, -128, -100, -66, -50, -40, -37, -34, -33, -32, -31, -30, -29, -28, -27, -26, -25, -24, -23, -22, -21, -20, -19, -18,
                             82, 83, 84, 90, 100, 110, 127, 150, 200, 256, 300, 328, 329, 331, 332, 333, 334, 335, 336, 400, 500, 511, 512, 700, 900, 997, 1000, 1022, 1023 };
   size_t k   = vs_choice(sizeof(Es) / sizeof(*Es), "E");
   bool   pat = vs_choice(2, "pattern"), neg = vs_choice(2, "neg");
   static const size_t pos[] = { 0, 44, 22, 11 };
   one(Es[k], mantissa(VS_Q(6, 8), pos[vs_choice(VS_Q(2, 4), "pos")], pat), neg);
}
extern "C" void h_subnormal() {
   size_t   p = vs_choice(VS_Q(12, 46), "pos") * VS_Q(4, 1);
   size_t   b = vs_choice(VS_Q(6, 7), "bits");   // the highest bit is at b
   uint64_t m = ((uint64_t)1 << b | vs_range(0, ((uint64_t)1 << b) - 1, "m")) << p;
   one(-1023, m, vs_choice(2, "neg"));
}
extern "C" void h_float() {
   int    E = (int)vs_choice(60, "E") - 17;
   size_t w = VS_Q(8, 10), p = vs_choice(2, "pos") ? 0 : 23 - w;
   bool   pat = vs_choice(2, "pattern"), neg = E & 1;
   uint32_t m = pat ? 0x5a3c96u : 0;
   m &= ~((((uint32_t)1 << w) - 1) << p);
   m |= (uint32_t)vs_range(0, (1 << w) - 1, "m") << p;
   check(eosio::convert_to_json(from_bits32((uint32_t)neg << 31 | (uint32_t)(E + 127) << 23 | m)), neg, (uint64_t)(m | (uint32_t)1 << 23) << 29, E - 52, m == 0);
}
