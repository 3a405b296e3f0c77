// title: Asset texts
// bounds-quick: every 64-bit amount with precisions 0, 1, 4, 10, 18, 19, 25 and 255 and codes of 1..7 letters; texts of up to 20 digits, every digit combination; arbitrary texts of 0..5 printable characters; a valid text with one arbitrary character at any place
// bounds-thorough: every precision 0..24 and 255; arbitrary texts of 0..6 characters
// outside: texts without digits, without a space before the code or with an empty fraction (accepted or not, unspecified); longer arbitrary texts
// time-quick: 120
#include "json.hpp"
#include "dec.hpp"
#include <eosio/asset.hpp>
#include <eosio/from_string.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/to_bin.hpp>
using namespace eosio;
static uint64_t pack(const std::string& s) { uint64_t v = 0; for (size_t i = s.size(); i--;) v = v << 8 | (uint8_t)s[i]; return v; }
static const unsigned PR[] = { 0, 1, 4, 10, 18, 19, 25, 255 };
static unsigned pick_precision() { if (!VS_THOROUGH) return PR[vs_choice(8, "precision")]; unsigned p = (unsigned)vs_choice(26, "precision"); return p == 25 ? 255 : p; }
static std::string code_text(size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s.push_back((char)vs_range('A', 'Z', "c")); return s; }
static std::string maxdigits(bool neg) { return neg ? "9223372036854775808" : "9223372036854775807"; }
static bool parse(const std::string& t, int64_t& a, uint64_t& s) { const char* p = t.data(); return string_to_asset(a, s, p, p + t.size()); }
// every amount
extern "C" void h_write() {
   bool        neg = vs_choice(2, "neg");
   size_t      len = 1 + vs_choice(19, "len");
   unsigned    pr  = pick_precision();
   int         cls;
   bool        empty;
   std::string d = digits(len, maxdigits(neg), false, cls, empty);
   if (empty || cls) return;
   if (neg && len == 1) vs_assume(d[0] != '0');
   std::string code = code_text(1 + (len + pr) % 7);
   int64_t     amount = (int64_t)(neg ? 0 - (uint64_t)value(d) : (uint64_t)value(d));
   std::string pad = d.size() <= pr ? std::string(pr + 1 - d.size(), '0') + d : d;
   std::string t = (neg ? "-" : "") + pad.substr(0, pad.size() - pr) + (pr ? "." + pad.substr(pad.size() - pr) : "") + " " + code;
   asset       a;
   a.amount       = amount;
   a.symbol.value = pack(code) << 8 | pr;
   std::string s  = a.to_string();
   observe(s, "text");
   vs_assert(same(s, t) && same(asset_to_string(amount, a.symbol.value), t), "text of the asset");
   std::string j = convert_to_json(a);
   vs_assert(same(j, "\"" + t + "\""), "JSON of the asset");
   asset b;
   b.amount = 77;
   vs_assert(parse_json(j, b) && b.amount == amount && b.symbol.value == a.symbol.value, "the JSON reads back");
   int64_t  am = 1;
   uint64_t sy = 1;
   vs_assert(parse(t, am, sy) && am == amount && sy == a.symbol.value, "the text reads back");
   bool in = amount >= -((1ll << 62) - 1) && amount <= (1ll << 62) - 1;
   bool ok = completes([&] { b = convert_from_string<asset>(t); });
   vs_assert(ok == in, "from_string accepts exactly the valid amounts");
   if (ok) vs_assert(b.amount == amount && b.symbol.value == a.symbol.value, "from_string value");
   vs_reach("write");
}
// digits with a point anywhere: accepted iff the amount fits
extern "C" void h_range() {
   bool        neg = vs_choice(2, "neg");
   size_t      len = 1 + vs_choice(20, "len");
   size_t      pt  = vs_choice(VS_Q(4, 21), "point");
   if (!VS_THOROUGH) { static const size_t P[] = { 0, 1, 10, 19 }; pt = P[pt]; }
   if (pt >= len) return;
   int         cls;
   bool        empty;
   std::string d = digits(len, maxdigits(neg), true, cls, empty);
   if (empty) return;
   std::string t = (neg ? "-" : "") + (pt ? d.substr(0, len - pt) + "." + d.substr(len - pt) : d) + " SYS";
   int64_t     am = 1;
   uint64_t    sy = 1;
   bool        ok = parse(t, am, sy);
   vs_assert(ok == (cls == 0), "accepted iff the amount fits 64 bits");
   if (!ok) { vs_reach("too big"); return; }
   vs_assert(am == (int64_t)(neg ? 0 - (uint64_t)value(d) : (uint64_t)value(d)) && sy == (pack("SYS") << 8 | pt), "value");
   vs_reach("fits");
}
// precision up to 255 and beyond
extern "C" void h_precision() {
   size_t      n = 253 + vs_choice(6, "n");
   std::string t = "0." + std::string(n - 3, '0');
   for (int i = 0; i < 3; ++i) t.push_back((char)vs_range('0', '9', "d"));
   unsigned v = (unsigned)value(t.substr(t.size() - 3));
   int64_t  am = 1;
   uint64_t sy = 1;
   bool     ok = parse(t + " A", am, sy);
   vs_assert(ok == (n <= 255), "at most 255 fraction digits");
   if (ok) vs_assert(am == (int64_t)v && sy == ('A' << 8 | n), "value");
   vs_reach("precision");
}
// 1 valid, 0 unspecified, -1 invalid
static int ref(const std::string& t, int64_t& a, uint64_t& s) {
   size_t i = 0, n = t.size(), k;
   auto   dig = [&](size_t p) { return p < n && t[p] >= '0' && t[p] <= '9'; };
   bool   odd = false, neg = false;
   int    pr = 0;
   while (i < n && t[i] == ' ') { ++i; odd = true; }
   if (i < n && t[i] == '-') { neg = true; ++i; }
   k = i;
   a = 0;
   while (dig(i)) a = a * 10 + (t[i++] - '0');
   odd |= k == i;
   if (i < n && t[i] == '.') {
      k = ++i;
      while (dig(i)) { a = a * 10 + (t[i++] - '0'); ++pr; }
      odd |= k == i;
   }
   if (neg) a = -a;
   k = i;
   while (i < n && t[i] == ' ') ++i;
   odd |= k == i;
   k = i;
   uint64_t c = 0;
   while (i < n && t[i] >= 'A' && t[i] <= 'Z') { if (i - k < 7) c |= (uint64_t)(uint8_t)t[i] << 8 * (i - k); ++i; }
   if (i != n || i == k || i - k > 7) return -1;
   s = c << 8 | (unsigned)pr;
   return odd ? 0 : 1;
}
static void reading(const std::string& t) {
   for (char c : t) vs_assume(both(both((uint8_t)c >= 32, (uint8_t)c < 127), both(c != '"', c != '\\')));
   int64_t  a = 0;
   uint64_t s = 0;
   int      w = ref(t, a, s);
   asset    v;
   v.amount = 77;
   bool ok = parse_json("\"" + t + "\"", v);
   if (w == 0) { vs_reach("unspecified"); return; }
   vs_assert(ok == (w == 1), "accepted exactly when it is [-]digits[.digits] CODE");
   if (ok) { vs_assert(v.amount == a && v.symbol.value == s, "value"); vs_reach("accepted"); } else vs_reach("rejected");
}
extern "C" void h_texts() { reading(sym_str(vs_choice(VS_Q(6, 7), "n"), "t")); }
extern "C" void h_corrupt() {
   static const char* const T[] = { "1.2345 SYS", "-10 ABCDEFG", "0.00  A", "12345 ABCDEFGH" };
   std::string t = T[vs_choice(4, "t")];
   t[vs_choice(t.size(), "pos")] = (char)vs_u8("c");
   reading(t);
}
extern "C" void h_binary() {
   asset a;
   a.amount       = (int64_t)vs_u64("amount");
   a.symbol.value = vs_u64("symbol");
   std::vector<char> b = convert_to_bin(a);
   std::string       w;
   for (int i = 0; i < 8; ++i) w.push_back((char)((uint64_t)a.amount >> 8 * i));
   for (int i = 0; i < 8; ++i) w.push_back((char)(a.symbol.value >> 8 * i));
   vs_assert(same(std::string_view(b.data(), b.size()), w), "binary: amount then symbol, little-endian");
   asset c;
   vs_assert(completes([&] { input_stream s(b); from_bin(c, s); }) && c.amount == a.amount && c.symbol.value == a.symbol.value, "decode");
   vs_reach("binary");
}
