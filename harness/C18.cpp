// title: 128-bit integers without a native type
// needs: fpconv
// cflags: -DABIEOS_NO_INT128
// bounds-quick: decimal texts of every length up to one more digit than the maximum, every digit combination, for 8, 16 and 24 bits; for 64 and 128 bits five base texts (the maximum, its length, shorter, longer, with leading zeros) with any two neighbouring digits arbitrary at every place; texts of up to 5 arbitrary characters; every byte array of 1, 2, 4 and 8 bytes to text, 16 bytes with one arbitrary byte in four patterns; negation of every array of 1 to 16 bytes
// bounds-thorough: also every digit combination for 32 bits; three neighbouring digits; texts of up to 7 characters; two neighbouring bytes
// thorough-only: h_text32
// outside: longer texts; JSON tokenisation (shim)
// time-quick: 200
// time-thorough: 800
#include "json.hpp"
#include "dec.hpp"
#include "abieos.hpp"
using namespace abieos;
template <size_t N> struct arr { std::array<uint8_t, N> a; };
template <size_t N> static u128 val(const std::array<uint8_t, N>& a) { u128 v = 0; for (size_t i = N; i--;) v = v << 8 | a[i]; return v; }
template <size_t N> static u128 umax() { return N == 16 ? ~(u128)0 : (((u128)1 << (N * 8 % 128)) - 1); }
template <size_t N> static bool parse(std::string_view s, std::array<uint8_t, N>& a) { for (auto& b : a) b = 0x5a; return completes([&] { decimal_to_binary(a, s); }); }
static bool le_text(const std::string& a, const std::string& b) {   // same length
   bool lt = false, eq = true;
   for (size_t i = 0; i < a.size(); ++i) { lt = either(lt, both(eq, a[i] < b[i])); eq = both(eq, a[i] == b[i]); }
   return either(lt, eq);
}
// decimal text -> bytes -> decimal text
template <size_t N> static void text(bool canon) {
   std::string max = dec(umax<N>());
   size_t      len = 1 + vs_choice(max.size() + 1, "len");
   int         cls;
   bool        empty;
   std::string d = digits(len, max, !canon, cls, empty);
   if (empty) return;
   std::array<uint8_t, N> a;
   bool ok = parse<N>(d, a);
   vs_assert(ok == (cls == 0), "a decimal text is accepted iff its value fits");
   if (!ok) { vs_reach("too large"); return; }
   vs_assert(val<N>(a) == value(d), "the bytes are the value, least significant first");
   vs_assert(is_negative(a) == (val<N>(a) >> (N * 8 - 1) != 0), "sign bit");
   vs_reach(canon ? "canonical" : "leading zeros");
}
// bytes -> decimal text
template <size_t N> static void check_text(const std::array<uint8_t, N>& a) {
   std::string t = binary_to_decimal(a);
   vs_assert(t.size() >= 1 && t.size() <= dec(umax<N>()).size(), "length of the text");
   bool good = true;
   for (char c : t) good = both(good, both(c >= '0', c <= '9'));
   vs_assert(good, "the text consists of digits");
   vs_assert(t.size() == 1 || t[0] != '0', "no leading zero");
   vs_assert(value(t) == val<N>(a), "the text is the value of the bytes");
   vs_reach("bytes");
}
template <size_t N> static void to_text() {
   std::array<uint8_t, N> a;
   vs_bytes(a.data(), N, "a");
   check_text<N>(a);
}
extern "C" void h_bytes() { switch (vs_choice(3, "w")) { case 0: to_text<1>(); break; case 1: to_text<2>(); break; default: to_text<4>(); } }
extern "C" void h_bytes8() { to_text<8>(); }
extern "C" void h_bytes16() {   // a fixed pattern with one or two neighbouring bytes arbitrary
   std::array<uint8_t, 16> a;
   size_t pat = vs_choice(4, "pattern"), w = VS_Q(1, 2), p = vs_choice(16 - w + 1, "pos");
   for (size_t i = 0; i < 16; ++i) a[i] = pat == 0 ? 0 : pat == 1 ? 255 : pat == 2 ? (uint8_t)(17 * i + 3) : (i == 15 ? 0x80 : 0);
   for (size_t i = 0; i < w; ++i) a[p + i] = vs_u8("a");
   check_text<16>(a);
}
extern "C" void h_text8() { text<1>(true); }
extern "C" void h_text16() { text<2>(true); }
extern "C" void h_text24() { text<3>(true); }
extern "C" void h_text32() { text<4>(true); }
// long texts: a fixed one with some consecutive digits arbitrary
static std::string patched(const std::string& base, size_t w) {
   std::string t = base;
   size_t      p = vs_choice(t.size() - w + 1, "pos");
   for (size_t i = 0; i < w; ++i) t[p + i] = (char)vs_range('0', '9', "d");
   return t;
}
static std::string base_text(const std::string& max, size_t which) {   // the maximum, others of its length, one digit less, one more, leading zeros
   std::string r;
   switch (which) {
   case 0: return max;
   case 1: r = max; r[0] = '1'; for (size_t i = 1; i < r.size(); ++i) r[i] = '0'; return r;
   case 2: for (size_t i = 0; i + 1 < max.size(); ++i) r.push_back((char)('0' + (9 - i % 10))); return r;
   case 3: return max + "0";
   default: return "000" + max;
   }
}
template <size_t N> static void longer() {
   std::string max = dec(umax<N>());
   std::string d   = patched(base_text(max, vs_choice(5, "base")), VS_Q(2, 3));
   bool        fits = true;   // compared as text
   size_t      n = d.size();
   std::string m = n > max.size() ? std::string(n - max.size(), '0') + max : max;
   if (n == m.size()) fits = le_text(d, m);
   std::array<uint8_t, N> a;
   bool ok = parse<N>(d, a);
   vs_assert(ok == fits, "a long decimal text is accepted iff its value fits");
   if (!ok) { vs_reach("long too large"); return; }
   vs_assert(val<N>(a) == value(d), "the bytes are the value, least significant first");
   vs_reach("long");
}
extern "C" void h_long64() { longer<8>(); }
extern "C" void h_long128() { longer<16>(); }
extern "C" void h_zeros() { switch (vs_choice(3, "w")) { case 0: text<1>(false); break; case 1: text<2>(false); break; default: text<4>(false); } }
// any text
extern "C" void h_any() {
   size_t      n = vs_choice(VS_Q(6, 8), "n");
   std::string s = sym_str(n, "s");
   bool        good = true;
   uint64_t    m = 0;
   for (char c : s) { good = both(good, both(c >= '0', c <= '9')); m = m * 10 + (uint8_t)(c - '0'); }
   std::array<uint8_t, 2> a;
   bool ok = parse<2>(s, a);
   vs_assert(ok == both(good, m <= 0xffff), "accepted texts are exactly the decimal numbers that fit");
   if (ok) { vs_assert(val<2>(a) == m, "value"); vs_reach("any accepted"); } else vs_reach("any rejected");
}
// two's complement negation
template <size_t N> static void neg() {
   std::array<uint8_t, N> a;
   vs_bytes(a.data(), N, "a");
   u128 v = val<N>(a);
   bool top = is_negative(a);
   vs_assert(top == (bool)(v >> (N * 8 - 1) & 1), "sign");
   negate(a);
   vs_assert(val<N>(a) == (((u128)0 - v) & umax<N>()), "negation");
   vs_reach("negate");
}
extern "C" void h_negate() { switch (vs_choice(5, "w")) { case 0: neg<1>(); break; case 1: neg<2>(); break; case 2: neg<4>(); break; case 3: neg<8>(); break; default: neg<16>(); } }
// the JSON of the stand-in types
template <bool Signed, typename T> static void js() {
   bool        ng   = Signed && vs_choice(2, "neg");
   u128        mm   = Signed ? ((u128)1 << 127) - 1 + (u128)ng : ~(u128)0;
   std::string max = dec(mm), d = patched(base_text(max, vs_choice(4, "base")), VS_Q(1, 2));
   if (d.size() <= max.size()) vs_assume(d[0] != '0');
   bool fits = d.size() < max.size() || (d.size() == max.size() && le_text(d, max));
   if (d.size() > max.size()) { std::string z = "0" + max; fits = le_text(d, z); }
   bool canon = d.size() <= max.size();
   std::string t = (ng ? "-" : "") + d;
   T    v;
   bool ok = parse_json("\"" + t + "\"", v);
   vs_assert(ok == fits, "a quoted decimal text is accepted iff its value is in range");
   if (!ok) { vs_reach("json too large"); return; }
   u128 m = value(d);
   vs_assert(val<16>(v.data) == (ng ? (u128)0 - m : m), "parsed value differs");
   if (!canon) return;
   std::string j = eosio::convert_to_json(v);
   vs_assert(same(j, "\"" + t + "\""), "the JSON of the value is not its canonical decimal text");
   vs_reach("json");
}
extern "C" void h_json() { if (vs_choice(2, "signed")) js<true, int128>(); else js<false, uint128>(); }
