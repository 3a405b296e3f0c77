// title: Bytes and checksums as hex text
// bounds-quick: every byte string of 0..8 bytes, every checksum and float128 value; quoted texts of 0..8 arbitrary printable characters for bytes; for fixed-size types one arbitrary printable character anywhere in a text of any length from 0 to 2 more digits than the size
// bounds-thorough: byte strings of 0..20 bytes, texts of 0..10 characters
// outside: longer byte strings and texts; non-ASCII texts (the tokenizer decides)
#include "json.hpp"
#include <eosio/bytes.hpp>
#include <eosio/fixed_bytes.hpp>
#include <eosio/float.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/from_bin.hpp>
#include "abieos.hpp"
using namespace eosio;
static char up(uint8_t n) { return (char)(n + '0' + (n > 9) * 7); }
static char lo(uint8_t n) { return (char)(n + '0' + (n > 9) * 39); }
static std::string upper(const std::string& b) { std::string s; for (char c : b) { s.push_back(up((uint8_t)c >> 4)); s.push_back(up((uint8_t)c & 15)); } return s; }
static std::string lower(const std::string& b) { std::string s; for (char c : b) { s.push_back(lo((uint8_t)c >> 4)); s.push_back(lo((uint8_t)c & 15)); } return s; }
static bool digit(char c, uint8_t& v) {
   bool d = both(c >= '0', c <= '9'), l = both(c >= 'a', c <= 'f'), u = both(c >= 'A', c <= 'F');
   v = (uint8_t)(d ? c - '0' : l ? c - 'a' + 10 : c - 'A' + 10);
   return either(d, either(l, u));
}
static bool ref(const std::string& t, std::string& b) {
   if (t.size() % 2) return false;
   bool ok = true;
   for (size_t i = 0; i < t.size(); i += 2) {
      uint8_t h, l;
      ok = both(ok, digit(t[i], h));
      ok = both(ok, digit(t[i + 1], l));
      b.push_back((char)(h * 16 + l));
   }
   return ok;
}
static std::string str(const bytes& b) { return std::string(b.data.begin(), b.data.end()); }
static void printable(const std::string& t) { for (char c : t) vs_assume(both(both((uint8_t)c >= 32, (uint8_t)c < 127), both(c != '"', c != '\\'))); }
extern "C" void h_bytes() {
   std::string s = sym_str(vs_choice(VS_Q(9, 21), "n"), "b");
   bytes       b{ { s.begin(), s.end() } };
   std::string j = convert_to_json(b);
   observe(j, "json");
   vs_assert(same(j, "\"" + upper(s) + "\""), "JSON of bytes");
   bytes r{ { 1, 2, 3 } };
   vs_assert(parse_json(j, r) && same(str(r), s), "upper case reads back");
   r = { { 1, 2, 3 } };
   vs_assert(parse_json("\"" + lower(s) + "\"", r) && same(str(r), s), "lower case reads back");
   vs_assert((r == b) && !(r != b), "comparison");
   std::vector<char> bin = convert_to_bin(b);
   vs_assert(bin.size() == s.size() + 1 && bin[0] == (char)s.size() && same(std::string(bin.begin() + 1, bin.end()), s), "binary form");
   vs_assert(same(abieos::hex(s.begin(), s.end()), upper(s)), "hex()");
   vs_reach("bytes");
}
extern "C" void h_texts() {
   std::string t = sym_str(vs_choice(VS_Q(9, 11), "n"), "t"), want;
   printable(t);
   bool  w = ref(t, want);
   bytes b{ { 9 } };
   bool  ok = parse_json("\"" + t + "\"", b);
   vs_assert(ok == w, "accepted exactly when it is pairs of hex digits");
   if (ok) { vs_assert(same(str(b), want), "value"); vs_reach("accepted"); } else vs_reach("rejected");
   std::string error, out;
   const char* p = t.c_str();
   ok = abieos::unhex(error, p, p + t.size(), std::back_inserter(out));
   vs_assert(ok == w, "unhex accepts the same texts");
   if (ok) vs_assert(same(out, want), "unhex value"); else vs_assert(!error.empty(), "unhex reports an error");
}
template <typename T, size_t N>
static void fixed() {
   std::array<uint8_t, N> a;
   std::string            s = sym_str(N, "b");
   for (size_t i = 0; i < N; ++i) a[i] = (uint8_t)s[i];
   T           v(a);
   std::string j = convert_to_json(v);
   observe(j, "json");
   vs_assert(same(j, "\"" + upper(s) + "\""), "JSON of a checksum");
   T r;
   vs_assert(parse_json(j, r) && r == v, "reads back");
   T q;
   vs_assert(parse_json("\"" + lower(s) + "\"", q) && q == v, "lower case reads back");
   vs_reach("fixed");
}
template <typename T, size_t N>
static void fixed_text() {
   size_t      n = vs_choice(4, "n");   // 2N-1, 2N, 2N+1, 2N+2 or few digits
   std::string t;
   if (vs_choice(2, "few")) n = n * 2; else n = 2 * N - 1 + n;
   for (size_t i = 0; i < n; ++i) t.push_back("0123456789abcdefABCDEF"[i * 7 % 22]);
   if (n) { t[vs_choice(n, "pos")] = (char)vs_u8("c"); printable(t); }
   std::string want;
   bool        w = ref(t, want) && t.size() == 2 * N;
   T           v;
   bool        ok = parse_json("\"" + t + "\"", v);
   vs_assert(ok == w, "accepted exactly when it is the right number of hex digits");
   if (!ok) { vs_reach("fixed text rejected"); return; }
   auto a = v.extract_as_byte_array();
   vs_assert(vs_eq(a.data(), want.data(), N), "value");
   vs_reach("fixed text accepted");
}
extern "C" void h_fixed() {
   switch (vs_choice(4, "type")) {
   case 0: fixed<checksum160, 20>(); break;
   case 1: fixed<checksum256, 32>(); break;
   case 2: fixed<checksum512, 64>(); break;
   case 3: fixed<float128, 16>(); break;
   }
}
extern "C" void h_fixed_text() {
   switch (vs_choice(4, "type")) {
   case 0: fixed_text<checksum160, 20>(); break;
   case 1: fixed_text<checksum256, 32>(); break;
   case 2: fixed_text<checksum512, 64>(); break;
   case 3: fixed_text<float128, 16>(); break;
   }
}
// not a string
extern "C" void h_tokens() {
   static const char* const T[] = { "null", "true", "[]", "{}", "[\"00\"]", "{\"a\":\"00\"}", "", "\"00", "\"00\" \"00\"" };
   std::string t = T[vs_choice(sizeof T / sizeof *T, "t")];
   bytes       b;
   checksum160 c;
   vs_assert(!parse_json(t, c), "checksum from something else");
   vs_assert(!parse_json(t, b), "bytes from something else");
   vs_reach("tokens");
}
