// title: Symbols and symbol codes
// bounds: every code of 1..7 letters, every precision 0..255, every 64-bit raw value for validity of symbols, every 56-bit raw value for validity of codes; arbitrary texts of 0..5 (thorough 7) printable characters; a symbol text with one arbitrary character at any place; precisions of up to 13 (thorough 24) digits
// outside: longer arbitrary texts; raw codes with a non-zero eighth byte; symbol_code::suffix()
#include "json.hpp"
#include <eosio/symbol.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_key.hpp>
using namespace eosio;
static std::string code_text() {
   std::string s;
   size_t      n = 1 + vs_choice(7, "len");
   for (size_t i = 0; i < n; ++i) s.push_back((char)vs_range('A', 'Z', "c"));
   return s;
}
static uint64_t pack(const std::string& s) { uint64_t v = 0; for (size_t i = s.size(); i--;) v = v << 8 | (uint8_t)s[i]; return v; }
static std::string le(uint64_t v) { std::string s; for (int i = 0; i < 8; ++i) s.push_back((char)(v >> 8 * i)); return s; }
static bool is(const std::vector<char>& v, const std::string& s) { return same(std::string_view(v.data(), v.size()), s); }
extern "C" void h_code() {
   std::string t = code_text();
   uint64_t    raw = pack(t);
   symbol_code c(std::string_view{ t });
   vs_observe_u64(c.raw(), "raw");
   vs_assert(c.raw() == raw && c.value == raw, "packed little-endian");
   vs_assert(c.is_valid() && c.length() == t.size() && (bool)c, "valid, length");
   vs_assert(same(c.to_string(), t) && same(symbol_code_to_string(raw), t), "text");
   uint64_t    v = 1;
   const char* p = t.data();
   vs_assert(string_to_symbol_code(v, p, p + t.size()) && v == raw, "string_to_symbol_code");
   std::string j = convert_to_json(c);
   vs_assert(same(j, "\"" + t + "\""), "JSON");
   symbol_code d;
   vs_assert(parse_json(j, d) && d == c && d.raw() == raw, "JSON reads back");
   vs_assert(is(convert_to_bin(c), le(raw)), "binary");
   symbol_code e;
   vs_assert(completes([&] { auto b = convert_to_bin(c); input_stream s(b); from_bin(e, s); }) && e.raw() == raw, "decode");
   vs_reach("code");
}
extern "C" void h_symbol() {
   std::string t = code_text();
   uint8_t     pr = (uint8_t)vs_choice(256, "precision");
   if (!VS_THOROUGH && t.size() != 1 && t.size() != 7 && pr % 51 != 4) return;
   uint64_t    raw = pack(t) << 8 | pr;
   std::string text = std::to_string(pr) + "," + t;
   symbol      a(std::string_view{ t }, pr), b(symbol_code{ std::string_view{ t } }, pr), c(raw);
   vs_assert(a.raw() == raw && b.raw() == raw && c.raw() == raw && (bool)a, "packed");
   vs_assert(a.precision() == pr && a.code().raw() == pack(t) && a.is_valid(), "unpacked");
   vs_assert(same(a.to_string(), text) && same(symbol_to_string(raw), text), "text");
   uint64_t    v = 1;
   const char* p = text.data();
   vs_assert(string_to_symbol(v, p, p + text.size()) && v == raw, "string_to_symbol");
   std::string j = convert_to_json(a);
   observe(j, "json");
   vs_assert(same(j, "\"" + text + "\""), "JSON");
   symbol d;
   vs_assert(parse_json(j, d) && d == a && d.raw() == raw, "JSON reads back");
   vs_assert(is(convert_to_bin(a), le(raw)), "binary");
   vs_reach("symbol");
}
extern "C" void h_valid() {
   uint64_t v = vs_u64("v");
   bool     whole = vs_choice(2, "symbol");
   uint64_t c = whole ? v >> 8 : v & 0xffffffffffffffull;
   bool ok = true, ended = false;
   for (int i = 0; i < 7; ++i) {
      uint8_t b = (uint8_t)(c >> 8 * i);
      bool    l = both(b >= 'A', b <= 'Z');
      ok    = both(ok, either(both(l, !ended), both(b == 0, i > 0)));
      ended = either(ended, b == 0);
   }
   vs_assert((whole ? symbol(v).is_valid() : symbol_code(c).is_valid()) == ok, "is_valid is exactly 1 to 7 letters");
   vs_reach("valid");
}
extern "C" void h_order() {
   uint64_t x = vs_u64("x"), y = vs_u64("x"), p = vs_u64("c"), q = vs_u64("c");
   symbol_code a(x), b(y);
   symbol      s(x), t(y);
   vs_assert((a < b) == (x < y) && (a == b) == (x == y) && (a != b) == (x != y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "codes");
   vs_assert((s < t) == (x < y) && (s == t) == (x == y) && (s != t) == (x != y) && (s <= t) == (x <= y) && (s > t) == (x > y) && (s >= t) == (x >= y), "symbols");
   extended_symbol e(s, name(p)), f(t, name(q));
   bool lt = x < y || (x == y && p < q), eq = x == y && p == q;
   vs_assert((e < f) == lt && (e == f) == eq && (e != f) == !eq && (e <= f) == (lt || eq) && (e > f) == !(lt || eq) && (e >= f) == !lt, "extended symbols");
   vs_assert(e.get_symbol().raw() == x && e.get_contract().value == p, "parts");
   vs_assert(is(convert_to_bin(e), le(x) + le(p)), "binary of an extended symbol");
   vs_assert((bool)a == (x != 0) && (bool)s == (x != 0), "bool");
   vs_reach("order");
}
static void printable(const std::string& t) { for (char c : t) vs_assume(both(both((uint8_t)c >= 32, (uint8_t)c < 127), both(c != '"', c != '\\'))); }
static bool letters(const std::string& t, size_t i) {
   if (i >= t.size() || t.size() - i > 7) return false;
   bool ok = true;
   for (; i < t.size(); ++i) ok = both(ok, both(t[i] >= 'A', t[i] <= 'Z'));
   return ok;
}
static void code_texts(const std::string& t) {
   bool w = t.empty() ? true : letters(t, 0);
   if (!t.empty()) {
      symbol_code c;
      bool        ok = completes([&] { c = symbol_code(std::string_view{ t }); });
      vs_assert(ok == w, "constructor accepts exactly 1 to 7 letters");
      if (ok) vs_assert(c.raw() == pack(t), "constructed value");
   }
   size_t i = 0;
   while (i < t.size() && t[i] == ' ') ++i;   // spaces may precede the code
   w = letters(t, i);
   symbol_code d(7);
   bool        ok = parse_json("\"" + t + "\"", d);
   vs_assert(ok == w, "JSON accepts exactly 1 to 7 letters");
   if (ok) { vs_assert(d.raw() == pack(t.substr(i)), "value"); vs_reach("code accepted"); } else vs_reach("code rejected");
}
static void symbol_texts(const std::string& t) {
   size_t   i = 0;
   unsigned __int128 p = 0;
   while (i < t.size() && t[i] >= '0' && t[i] <= '9') p = p * 10 + (unsigned)(t[i++] - '0');
   bool w = i > 0 && p <= 255 && i < t.size() && t[i] == ',';
   if (w) {
      ++i;
      while (i < t.size() && t[i] == ' ') ++i;
      w = letters(t, i);
   }
   symbol d(7);
   bool   ok = parse_json("\"" + t + "\"", d);
   vs_assert(ok == w, "JSON accepts exactly precision, comma, code");
   if (ok) { vs_assert(d.raw() == (pack(t.substr(i)) << 8 | (uint64_t)p), "value"); vs_reach("symbol accepted"); } else vs_reach("symbol rejected");
}
extern "C" void h_code_texts() {
   std::string t = sym_str(vs_choice(VS_Q(6, 8), "n"), "t");
   printable(t);
   code_texts(t);
}
extern "C" void h_code_corrupt() {
   static const char* const T[] = { "ABCDEFG", "ABCDEFGH", "ZZZZZZZZZ", " EOS" };
   std::string t = T[vs_choice(4, "t")];
   t[vs_choice(t.size(), "pos")] = (char)vs_u8("c");
   printable(t);
   code_texts(t);
}
extern "C" void h_symbol_texts() {
   std::string t = sym_str(vs_choice(VS_Q(6, 7), "n"), "t");
   printable(t);
   symbol_texts(t);
}
extern "C" void h_symbol_corrupt() {
   static const char* const T[] = { "4,ABCDEFG", "0,A", "18,SYS", "255,ABCDEFGH", "10, EOS" };
   std::string t = T[vs_choice(5, "t")];
   t[vs_choice(t.size(), "pos")] = (char)vs_u8("c");
   printable(t);
   symbol_texts(t);
}
extern "C" void h_precision() {
   std::string t;
   for (size_t i = vs_choice(VS_Q(14, 25), "digits"); i--;) t.push_back((char)vs_range('0', '9', "d"));
   symbol_texts(t + ",SYM");
}
