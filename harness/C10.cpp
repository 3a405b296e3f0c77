// title: JSON strings
// bounds-quick: every byte string of 0..3 bytes (any byte values), and every one of 3 or 4 bytes that starts with 0xe0 or more, between other characters, written and read back; every quoted JSON text with 0..4 arbitrary bytes inside, every \uXXXX escape with arbitrary characters in place of XXXX, every surrogate pair of escapes
// bounds-thorough: strings of 0..4 bytes, texts of 0..5 bytes
// outside: longer strings; escapes naming a low surrogate that is not part of a pair (decided by the tokenizer, not specified)
// time-thorough: 800
#include "json.hpp"
using namespace eosio;
// length of the valid UTF-8 sequence at s[i] within s[i..n), 0 if none (RFC 3629)
static size_t utf8(const std::string& s, size_t i, size_t n) {
   auto at = [&](size_t k) { return (uint8_t)s[k]; };
   auto in = [&](size_t k, uint8_t lo, uint8_t hi) { return i + k < n && both(at(i + k) >= lo, at(i + k) <= hi); };
   uint8_t c = at(i);
   if (c < 0x80) return 1;
   if (c < 0xc2) return 0;
   if (c < 0xe0) return in(1, 0x80, 0xbf) ? 2 : 0;
   if (c < 0xf0) return in(1, c == 0xe0 ? 0xa0 : 0x80, c == 0xed ? 0x9f : 0xbf) && in(2, 0x80, 0xbf) ? 3 : 0;
   if (c < 0xf5) return in(1, c == 0xf0 ? 0x90 : 0x80, c == 0xf4 ? 0x8f : 0xbf) && in(2, 0x80, 0xbf) && in(3, 0x80, 0xbf) ? 4 : 0;
   return 0;
}
// expected JSON text, and the string it stands for
static void expect(const std::string& s, std::string& j, std::string& back) {
   j = "\"";
   for (size_t i = 0; i < s.size();) {
      uint8_t c = (uint8_t)s[i];
      if (c < 32 || c == 127 || c == '"' || c == '\\') {
         if (c == '"') j += "\\\"";
         else if (c == '\\') j += "\\\\";
         else {
            j += "\\u00";
            j.push_back((char)('0' + (c >> 4)));
            uint8_t l = c & 15;
            j.push_back((char)(l + '0' + (l > 9) * 7));
         }
         back.push_back(s[i++]);
         continue;
      }
      size_t k = utf8(s, i, s.size());
      if (k) { j.append(s, i, k); back.append(s, i, k); i += k; }
      else { j.push_back('?'); back.push_back('?'); ++i; }
   }
   j.push_back('"');
}
struct holder { std::string f; };
EOSIO_REFLECT(holder, f)
extern "C" void h_write() {
   std::string s = sym_str(vs_choice(VS_Q(4, 5), "n"), "s"), j, b;
   std::string got = convert_to_json(s);
   expect(s, j, b);
   observe(got, "json");
   vs_assert(same(got, j), "JSON text of the string");
   std::string back = "x";
   vs_assert(parse_json(got, back), "the JSON of a string does not parse");
   vs_assert(same(back, b), "parsing gives a different string");
   vs_reach("written");
   if (b.size() < s.size()) return;
   std::string_view sv(s);
   switch (vs_choice(3, "form")) {
   case 0: vs_assert(same(convert_to_json(sv), j), "string_view form"); break;
   case 1: { holder h; h.f = s; vs_assert(same(convert_to_json(h), "{\"f\":" + j + "}"), "string field"); break; }
   case 2: vs_assert(same(format_json(s), j), "formatted"); break;
   }
}
extern "C" void h_multibyte() {   // sequences of up to four bytes, after and before other text
   static const char* const PRE[] = { "", "a", "\xc3\xa4" };
   static const char* const SUF[] = { "", "\xf0\x9f\x98\x80" };
   std::string s = PRE[vs_choice(3, "pre")];
   s.push_back((char)vs_range(0xe0, 0xff, "lead"));
   s += sym_str(2 + vs_choice(2, "n"), "s");
   s += SUF[vs_choice(2, "suf")];
   std::string j, b, got = convert_to_json(s), back = "x";
   expect(s, j, b);
   vs_assert(same(got, j), "JSON text of the string");
   vs_assert(parse_json(got, back) && same(back, b), "parsing gives a different string");
   vs_reach("multibyte");
}
extern "C" void h_struct_back() {   // inside structs, vectors and optionals
   std::string s = sym_str(vs_choice(VS_Q(3, 4), "n"), "s"), j, b;
   expect(s, j, b);
   holder h;
   vs_assert(parse_json("{ \"f\" : " + j + " }", h) && same(h.f, b), "string field");
   std::vector<std::string> v;
   vs_assert(parse_json("[" + j + "," + j + "]", v) && v.size() == 2 && same(v[0], b) && same(v[1], b), "vector of strings");
   vs_reach("containers");
}
static int hexv(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void put_utf8(std::string& o, uint32_t c) {
   if (c < 0x80) o.push_back((char)c);
   else if (c < 0x800) { o.push_back((char)(0xc0 | c >> 6)); o.push_back((char)(0x80 | (c & 63))); }
   else if (c < 0x10000) { o.push_back((char)(0xe0 | c >> 12)); o.push_back((char)(0x80 | (c >> 6 & 63))); o.push_back((char)(0x80 | (c & 63))); }
   else { o.push_back((char)(0xf0 | c >> 18)); o.push_back((char)(0x80 | (c >> 12 & 63))); o.push_back((char)(0x80 | (c >> 6 & 63))); o.push_back((char)(0x80 | (c & 63))); }
}
// reference reader of the text after the opening quote; true and the string when it is exactly one JSON string
static bool ref(const std::string& t, std::string& out, bool& lone) {
   size_t i = 0, n = t.size();
   auto   u = [&](uint32_t& v) {
      v = 0;
      for (int k = 0; k < 4; ++k, ++i) {
         int h = i < n ? hexv((uint8_t)t[i]) : -1;
         if (h < 0) return false;
         v = v << 4 | (uint32_t)h;
      }
      return true;
   };
   while (true) {
      if (i >= n) return false;
      uint8_t c = (uint8_t)t[i];
      if (c == '"') {
         for (++i; i < n; ++i)
            if (t[i] != ' ' && t[i] != '\t' && t[i] != '\n' && t[i] != '\r') return false;
         return true;
      }
      if (c < 32) return false;
      if (c != '\\') {
         size_t k = utf8(t, i, n);
         if (!k) return false;
         out.append(t, i, k);
         i += k;
         continue;
      }
      if (++i >= n) return false;
      switch (t[i++]) {
      case '"': out.push_back('"'); break;
      case '\\': out.push_back('\\'); break;
      case '/': out.push_back('/'); break;
      case 'b': out.push_back('\b'); break;
      case 'f': out.push_back('\f'); break;
      case 'n': out.push_back('\n'); break;
      case 'r': out.push_back('\r'); break;
      case 't': out.push_back('\t'); break;
      case 'u': {
         uint32_t a, b;
         if (!u(a)) return false;
         if (a >= 0xdc00 && a < 0xe000) { lone = true; return false; }   // the tokenizer's treatment is not specified
         if (a >= 0xd800 && a < 0xdc00) {
            if (i + 1 >= n || t[i] != '\\' || t[i + 1] != 'u') return false;
            i += 2;
            if (!u(b) || b < 0xdc00 || b >= 0xe000) return false;
            a = 0x10000 + ((a & 0x3ff) << 10) + (b & 0x3ff);
         }
         put_utf8(out, a);
         break;
      }
      default: return false;
      }
   }
}
static void readback(const std::string& t) {   // t: the text after the opening quote
   std::string e, g = "x";
   bool ok = parse_json("\"" + t, g);
   bool lone = false, want = ref(t, e, lone);
   if (lone) return;
   if (!want && !ok) { vs_reach("text rejected"); return; }
   vs_assert(ok == want, "a JSON text is accepted iff it is one well-formed JSON string");
   observe(g, "value");
   vs_assert(same(g, e), "decoded string");
   vs_reach("text accepted");
}
extern "C" void h_read() {
   std::string s = sym_str(vs_choice(VS_Q(5, 6), "n"), "s");
   for (char c : s) vs_assume(c != 0);   // the text ends at a NUL
   readback(s + "\"");
}
extern "C" void h_escape() { std::string s = sym_str(4, "s"); for (char c : s) vs_assume(c != 0); readback("\\u" + s + "\""); }
static char hexd(const char* n) { uint8_t v = (uint8_t)vs_range(0, 15, n); return (char)(v + '0' + (v > 9) * (vs_choice(2, "case") ? 7 : 39)); }
extern "C" void h_surrogate() {
   std::string s = "\\ud8__\\ud___\"";
   s[3] = "89abCdEF7"[vs_choice(9, "x")];
   s[4] = hexd("a"); s[5] = (char)('0' + vs_range(0, 9, "b"));
   s[9] = "cDeb8"[vs_choice(5, "y")]; s[10] = hexd("c"); s[11] = (char)('0' + vs_range(0, 9, "d"));
   readback(s);
}
