// title: JSON integers
// bounds: all values of every integer type (8 to 128 bits); decimal texts of 1 to one more digit than the type's maximum, every digit combination, with and without sign; arbitrary printable texts of up to 6 (quick) / 8 (thorough) characters
// outside: longer texts; JSON tokenisation (shim)
// time-quick: 200
#include "json.hpp"
#include "dec.hpp"
using namespace eosio;
template <typename T> constexpr bool is_sgn = T(-1) < T(0);
template <typename T> static u128 maxmag(bool neg) { u128 m = (((u128)1 << (sizeof(T) * 8 - 1)) - 1) + (u128)neg; return is_sgn<T> ? m : (m << 1 | 1); }
template <typename T>
static void one(bool canon) {
   bool        neg  = is_sgn<T> && vs_choice(2, "neg");
   std::string max  = dec(maxmag<T>(neg));
   size_t      len  = 1 + vs_choice(max.size() + (canon ? 0 : 1), "len");
   int         cls;
   bool        empty;
   std::string d = digits(len, max, !canon, cls, empty);
   if (empty || (canon && cls)) return;
   if (canon && neg && len == 1) vs_assume(d[0] != '0');
   std::string t = (neg ? "-" : "") + d;
   T    v  = 1;
   bool ok = parse_json("\"" + t + "\"", v);
   vs_assert(ok == (cls == 0), "a decimal text is accepted iff its value is in range");
   if (!ok) { vs_reach("out of range"); return; }
   u128 m = value(d);
   vs_assert(v == (T)(neg ? (u128)0 - m : m), "parsed value differs");
   if (!canon) { vs_reach("leading zeros"); return; }
   std::string q = sizeof(T) > 4 ? "\"" + t + "\"" : t;
   std::string j = convert_to_json(v);
   observe(j, "json");
   vs_assert(same(j, q), "the JSON of the value is not its canonical decimal text");
   if (sizeof(T) > 8) { vs_reach("canonical wide"); return; }   // rapidjson converts long raw numbers to double on the side
   T w = 1;
   vs_assert(parse_json(t, w), "unquoted number rejected");
   vs_assert(w == v, "unquoted number differs");
   vs_reach("canonical");
}
template <typename F8>
static void each(F8 f) {
   switch (vs_choice(10, "type")) {
   case 0: f((uint8_t)0); break;
   case 1: f((int8_t)0); break;
   case 2: f((uint16_t)0); break;
   case 3: f((int16_t)0); break;
   case 4: f((uint32_t)0); break;
   case 5: f((int32_t)0); break;
   case 6: f((uint64_t)0); break;
   case 7: f((int64_t)0); break;
   case 8: f((u128)0); break;
   case 9: f((__int128)0); break;
   }
}
extern "C" void h_roundtrip() { each([](auto t) { one<decltype(t)>(true); }); }
extern "C" void h_range() { each([](auto t) { one<decltype(t)>(false); }); }
// arbitrary short texts
template <typename T>
static void gram() {
   size_t      n = vs_choice(VS_Q(7, 9), "n");
   std::string s = sym_str(n, "s");
   bool        plain = true;
   for (char c : s) plain = both(plain, both(both((uint8_t)c >= 32, (uint8_t)c < 127), both(c != '"', c != '\\')));
   vs_assume(plain);
   size_t i   = 0;
   bool   neg = false;
   if (is_sgn<T> && n && s[0] == '-') { neg = true; i = 1; }
   bool     good = n > i;
   uint64_t m    = 0;
   for (; i < n; ++i) { good = both(good, both(s[i] >= '0', s[i] <= '9')); m = m * 10 + (uint8_t)(s[i] - '0'); }
   T    v  = 1;
   bool ok = parse_json("\"" + s + "\"", v);
   if (sizeof(T) < 4) good = both(good, m <= (uint64_t)maxmag<T>(neg));
   vs_assert(ok == good, "accepted texts are exactly the in-range decimal integers");
   if (ok) { vs_assert(v == (T)(neg ? (u128)0 - m : (u128)m), "value differs"); vs_reach("gram accepted"); }
   else vs_reach("gram rejected");
}
extern "C" void h_grammar() { each([](auto t) { gram<decltype(t)>(); }); }
// other JSON types are rejected
template <typename T>
static void other() {
   static const char* const J[] = { "null", "true", "false", "[]", "{}", "[1]", "1.5", "1e2", "\"1 \"", "\" 1\"", "\"+1\"", "\"0x1\"", "\"\"", "\"-\"", "1 1", "" };
   T v = 1;
   vs_assert(!parse_json(J[vs_choice(sizeof(J) / sizeof(*J), "j")], v), "not an integer");
   vs_reach("other");
}
extern "C" void h_other() { each([](auto t) { other<decltype(t)>(); }); }
