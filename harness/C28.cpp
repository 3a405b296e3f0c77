// title: varint classes
// needs: fpconv
// bounds: all pairs of 32-bit values; arbitrary source values for the conversions
// outside: nothing further
// time-quick: 100
// time-thorough: 300
#include "types.hpp"
#include "json.hpp"
using namespace eosio;
template <typename V, typename T, typename A, typename B> static void ops(const A& a, const B& b, T x, T y) {
   vs_assert((a == b) == (x == y), "==");
   vs_assert((a != b) == (x != y), "!=");
   vs_assert((a < b) == (x < y), "<");
   vs_assert((a >= b) == (x >= y), ">=");
}
extern "C" void h_unsigned() {
   uint32_t     x = vs_u32("x"), y = vs_u32("y");
   unsigned_int a(x), b(y);
   ops<unsigned_int>(a, b, x, y);
   ops<unsigned_int>(a, y, x, y);
   ops<unsigned_int>(x, b, x, y);
   vs_assert((uint32_t)a == x && (uint64_t)a == x && (uint16_t)a == (uint16_t)x, "converts to its value");
   uint64_t z = vs_u64("z");
   vs_assert(unsigned_int(z).value == (uint32_t)z, "made from other integers");
   unsigned_int c;
   vs_assert(c.value == 0, "zero by default");
   c = y;
   vs_assert(c == b && c.value == y, "assigned");
   vs_reach("unsigned");
}
extern "C" void h_signed() {
   int32_t    x = (int32_t)vs_u32("x"), y = (int32_t)vs_u32("y");
   signed_int a(x), b(y);
   ops<signed_int>(a, b, x, y);
   ops<signed_int>(a, y, x, y);
   ops<signed_int>(x, b, x, y);
   vs_assert((int32_t)a == x, "converts to its value");
   signed_int c;
   vs_assert(c.value == 0, "zero by default");
   c = y;
   vs_assert(c == b && c.value == y, "assigned");
   vs_assume(x != INT32_MAX);
   signed_int d = a++;
   vs_assert(d.value == x && a.value == x + 1, "a++");
   signed_int& e = ++c;
   vs_assume(y != INT32_MAX);
   vs_assert(&e == &c && c.value == y + 1, "++a");
   vs_reach("signed");
}
// the JSON and the fields are those of the number
template <typename V, typename T> static void json(T x) {
   V v(x), w;
   std::string t = convert_to_json(v);
   vs_assert(same(t, convert_to_json(x)), "the JSON of the number");
   vs_assert(parse_json(t, w) && w.value == x, "read back");
   vs_reach("json");
}
extern "C" void h_json() {
   uint32_t d = vs_range(0, 999, "d"), base = vs_choice(3, "base");
   if (vs_choice(2, "signed")) json<signed_int, int32_t>(base == 0 ? (int32_t)d : base == 1 ? -(int32_t)d : INT32_MIN + (int32_t)d);
   else json<unsigned_int, uint32_t>(base == 0 ? d : base == 1 ? 0xffffffffu - d : 0x80000000u + d);
}
// out of range
extern "C" void h_range() {
   static const char* const bad[] = { "4294967296", "-1", "4294967300", "99999999999", "\"\"", "1.5", "true", "null", "[1]", "{\"value\":1}" };
   static const char* const sbad[] = { "2147483648", "-2147483649", "-99999999999", "\"-\"", "1.5", "true", "null", "[1]", "{\"value\":1}", "\"\"" };
   size_t k = vs_choice(10, "text");
   unsigned_int u; signed_int s;
   vs_assert(!parse_json(bad[k], u), "unsigned text refused");
   vs_assert(!parse_json(sbad[k], s), "signed text refused");
   vs_reach("refused");
}
