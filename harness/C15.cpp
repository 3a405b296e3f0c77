// title: Asset arithmetic
// bounds: every pair of valid amounts (|a| <= 2^62-1), every 64-bit multiplier and divisor, every 64-bit amount for construction, multiplication, division and comparison, every pair of 64-bit symbols and contracts (products and quotients with both operands arbitrary, and again with one operand small or a boundary value, where a counterexample is easier to find)
// outside: sums of amounts beyond +/-(2^62-1), which no constructor produces
#include "vsx.hpp"
#include <eosio/asset.hpp>
using namespace eosio;
static const int64_t M = (1ll << 62) - 1;
static asset raw(int64_t a, uint64_t s) { asset r; r.amount = a; r.symbol.value = s; return r; }
static int64_t valid_amount(const char* n) { int64_t a = (int64_t)vs_u64(n); vs_assume(a >= -M && a <= M); return a; }
static bool eq(const asset& r, int64_t a, uint64_t s) { return both(r.amount == a, r.symbol.value == s); }
static const uint64_t SYS = 0x53595304;
extern "C" void h_construct() {
   int64_t  a = (int64_t)vs_u64("a");
   uint64_t s = vs_u64("s");
   bool     in = a >= -M && a <= M, sv = symbol(s).is_valid();
   asset    r;
   bool     ok = completes([&] { r = asset(a, symbol(s)); });
   vs_assert(ok == (in && sv), "constructed iff the amount is in range and the symbol valid");
   if (ok) vs_assert(eq(r, a, s) && r.is_valid() && r.is_amount_within_range(), "value");
   asset q = raw(a, s);
   vs_assert(q.is_amount_within_range() == in && q.is_valid() == (in && sv), "is_valid");
   asset t = raw(5, s);
   ok = completes([&] { t.set_amount(a); });
   vs_assert(ok == in, "set_amount accepts exactly the range");
   if (ok) vs_assert(eq(t, a, s), "set_amount");
   extended_asset e;
   name           c(vs_u64("c"));
   ok = completes([&] { e = extended_asset(a, extended_symbol(symbol(s), c)); });
   vs_assert(ok == (in && sv), "extended asset");
   if (ok) vs_assert(eq(e.quantity, a, s) && e.contract == c && e.get_extended_symbol() == extended_symbol(symbol(s), c), "extended value");
   extended_asset f(q, c);
   vs_assert(eq(f.quantity, a, s) && f.contract == c, "extended asset of an asset");
   vs_reach("construct");
}
extern "C" void h_add() {
   int64_t  a = valid_amount("a"), b = valid_amount("b");
   uint64_t s = vs_u64("s"), t = vs_u64("t");
   asset    x = raw(a, s), y = raw(b, t), r;
   bool     okp = s == t && a + b >= -M && a + b <= M, okm = s == t && a - b >= -M && a - b <= M;
   vs_assert(completes([&] { r = x + y; }) == okp, "a + b completes iff same symbol and in range");
   if (okp) vs_assert(eq(r, a + b, s), "a + b");
   vs_assert(completes([&] { r = x - y; }) == okm, "a - b completes iff same symbol and in range");
   if (okm) vs_assert(eq(r, a - b, s), "a - b");
   asset z = x;
   vs_assert(completes([&] { z += y; }) == okp, "+=");
   if (okp) vs_assert(eq(z, a + b, s), "+= value");
   z = x;
   vs_assert(completes([&] { z -= y; }) == okm, "-=");
   if (okm) vs_assert(eq(z, a - b, s), "-= value");
   vs_assert(eq(-x, -a, s), "unary minus");
   vs_assert(eq(x, a, s) && eq(y, b, t), "operands unchanged");
   vs_reach("add");
}
extern "C" void h_ext_add() {
   int64_t  a = valid_amount("a"), b = valid_amount("b");
   uint64_t s = vs_u64("s"), t = vs_u64("t"), c = vs_u64("c"), d = vs_u64("d");
   extended_asset x(raw(a, s), name(c)), y(raw(b, t), name(d)), r, z;
   bool m = s == t && c == d, okp = m && a + b >= -M && a + b <= M, okm = m && a - b >= -M && a - b <= M;
   vs_assert(completes([&] { r = x + y; }) == okp, "+");
   if (okp) vs_assert(eq(r.quantity, a + b, s) && r.contract.value == c, "+ value");
   vs_assert(completes([&] { r = x - y; }) == okm, "-");
   if (okm) vs_assert(eq(r.quantity, a - b, s) && r.contract.value == c, "- value");
   z = x;
   vs_assert(completes([&] { z += y; }) == okp, "+=");
   if (okp) vs_assert(eq(z.quantity, a + b, s) && z.contract.value == c, "+= value");
   z = x;
   vs_assert(completes([&] { z -= y; }) == okm, "-=");
   if (okm) vs_assert(eq(z.quantity, a - b, s) && z.contract.value == c, "-= value");
   r = -x;
   vs_assert(eq(r.quantity, -a, s) && r.contract.value == c, "unary minus");
   vs_reach("ext add");
}
extern "C" void h_compare() {
   int64_t  a = (int64_t)vs_u64("a"), b = (int64_t)vs_u64("b");
   uint64_t s = vs_u64("s"), t = vs_u64("t");
   asset    x = raw(a, s), y = raw(b, t);
   bool     r[6];
   bool     ok = s == t;
   switch (vs_choice(6, "op")) {
   case 0: vs_assert(completes([&] { r[0] = x < y; }) == ok, "< completes"); if (ok) vs_assert(r[0] == (a < b), "<"); break;
   case 1: vs_assert(completes([&] { r[0] = x <= y; }) == ok, "<= completes"); if (ok) vs_assert(r[0] == (a <= b), "<="); break;
   case 2: vs_assert(completes([&] { r[0] = x > y; }) == ok, "> completes"); if (ok) vs_assert(r[0] == (a > b), ">"); break;
   case 3: vs_assert(completes([&] { r[0] = x >= y; }) == ok, ">= completes"); if (ok) vs_assert(r[0] == (a >= b), ">="); break;
   case 4: vs_assert(completes([&] { r[0] = x == y; }) == ok, "== completes"); if (ok) vs_assert(r[0] == (a == b), "=="); break;
   case 5: vs_assert(completes([&] { r[0] = x != y; }) == ok, "!= completes"); if (ok) vs_assert(r[0] == (a != b), "!="); break;
   }
   vs_reach("compare");
}
extern "C" void h_ext_compare() {
   int64_t  a = (int64_t)vs_u64("a"), b = (int64_t)vs_u64("b");
   uint64_t s = vs_u64("s"), t = vs_u64("t"), c = vs_u64("c"), d = vs_u64("d");
   extended_asset x(raw(a, s), name(c)), y(raw(b, t), name(d));
   bool r = false, m = s == t && c == d;
   switch (vs_choice(5, "op")) {
   case 0: vs_assert(completes([&] { r = x < y; }) == m, "< completes"); if (m) vs_assert(r == (a < b), "<"); break;
   case 1: vs_assert(completes([&] { r = x <= y; }) == m, "<= completes"); if (m) vs_assert(r == (a <= b), "<="); break;
   case 2: vs_assert(completes([&] { r = x >= y; }) == m, ">= completes"); if (m) vs_assert(r == (a >= b), ">="); break;
   case 3: if (s != t) return; vs_assert((x == y) == (a == b && c == d), "=="); break;
   case 4: if (s != t) return; vs_assert((x != y) == !(a == b && c == d), "!="); break;
   }
   vs_reach("ext compare");
}
static const int64_t F[] = { 0, 1, -1, 2, -2, 3, 10, -10, 1000000007, 1ll << 31, -(1ll << 31), 1ll << 32, (1ll << 61) + 1, M, -M, M + 1, -M - 1, INT64_MAX, INT64_MIN };
static void mul(int64_t a, int64_t b) {
   asset    x = raw(a, SYS), r;
   __int128 p = (__int128)a * b;
   bool     in = p >= -M && p <= M;
   int      form = (int)vs_choice(3, "form");
   bool     ok = completes([&] { if (form == 0) r = x * b; else if (form == 1) r = b * x; else { r = x; r *= b; } });
   vs_assert(ok == in, "a * n completes iff the product is in range");
   if (ok) vs_assert(eq(r, (int64_t)p, SYS), "product");
   vs_reach("mul");
}
extern "C" void h_mul_amounts() { mul((int64_t)vs_u64("a"), F[vs_choice(sizeof F / sizeof *F, "f")]); }
extern "C" void h_mul_factors() { mul(F[vs_choice(sizeof F / sizeof *F, "f")], (int64_t)vs_u64("b")); }
extern "C" void h_mul_small() { mul((int64_t)vs_u64("a"), VS_THOROUGH ? (int64_t)(int16_t)vs_u16("b") : (int64_t)(int8_t)vs_u8("b")); }
static void quot(int64_t a, int64_t b) {
   asset x = raw(a, SYS), r;
   bool  of = a == INT64_MIN && b == -1, okd = b != 0 && !of;
   int   form = (int)vs_choice(3, "form");
   if (form < 2) {
      bool ok = completes([&] { if (form == 0) r = x / b; else { r = x; r /= b; } });
      vs_assert(ok == okd, "a / n completes iff defined");
      if (okd) vs_assert(eq(r, a / b, SYS), "quotient");
   } else if (!of) {
      uint64_t t = vs_u64("t");
      asset    y = raw(b, t);
      int64_t  q = 0;
      bool     ok = completes([&] { q = x / y; });
      vs_assert(ok == (b != 0 && t == SYS), "a / b completes iff defined and same symbol");
      if (ok) vs_assert(q == a / b, "ratio");
   }
   vs_reach("div");
}
extern "C" void h_div() { quot((int64_t)vs_u64("a"), F[vs_choice(sizeof F / sizeof *F, "f")]); }
extern "C" void h_div_by() { quot(F[vs_choice(sizeof F / sizeof *F, "f")], (int64_t)(int8_t)vs_u8("b")); }
extern "C" void h_mul_all() { mul((int64_t)vs_u64("a"), (int64_t)vs_u64("b")); }
extern "C" void h_div_all() { quot((int64_t)vs_u64("a"), (int64_t)vs_u64("b")); }
