// title: Base58 and key texts
// needs: crypto
// bounds-quick: base58 of every byte string of 0..6 significant bytes after 0..2 zero bytes, and back from every text of 0..5 significant digits after 0..2 '1's; texts of up to 3 arbitrary characters; keys and signatures of every kind with one arbitrary byte (the last fixed one; for plain keys also the first and the middle one); their texts (and legacy texts) with one arbitrary character at such a position; texts of up to 5 arbitrary characters after each prefix
// bounds-thorough: byte strings of 0..9 significant bytes, texts of 0..8 significant digits; two arbitrary adjacent key bytes at every position; every position of the arbitrary character
// outside: other key material at the same time; binary data left over after the key inside a text with a valid checksum; the version byte and checksum of legacy private keys, which are not looked at
// time-quick: 200
// time-thorough: 800
#include "ripemd_ref.hpp"
#include "json.hpp"
#include <eosio/crypto.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/from_bin.hpp>
using namespace eosio;
typedef unsigned __int128 u128;
static constexpr char A[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
struct Inv { uint8_t v[256]; constexpr Inv() : v() { for (int i = 0; i < 256; ++i) v[i] = 255; for (int i = 0; i < 58; ++i) v[(uint8_t)A[i]] = i; } };
static constexpr Inv inv;
static std::string str(const std::vector<char>& v) { return std::string(v.data(), v.size()); }
extern "C" void h_encode() {
   size_t      n = vs_choice(VS_Q(7, 10), "n"), z = vs_choice(3, "z");
   std::string b(z, '\0');
   if (n) b.push_back((char)vs_range(1, 255, "b"));
   for (size_t i = 1; i < n; ++i) b.push_back((char)vs_u8("b"));
   std::string t = to_base58(b.data(), b.size());
   u128 v = 0, w = 0;
   for (char c : b) v = v * 256 + (uint8_t)c;
   vs_assert(t.size() >= z, "length");
   for (size_t i = 0; i < z; ++i) vs_assert(t[i] == '1', "leading zero");
   vs_assert(t.size() == z || t[z] != '1', "no other leading digit");
   for (char c : t) { uint8_t d = inv.v[(uint8_t)c]; vs_assert(d < 58, "digit"); w = w * 58 + d; }
   vs_assert(v == w, "value");
   vs_reach("encode");
}
extern "C" void h_decode() {
   size_t      n = vs_choice(VS_Q(6, 9), "n"), z = vs_choice(3, "z");
   std::string t(z, '1');
   u128 v = 0, w = 0;
   for (size_t i = 0; i < n; ++i) { uint64_t d = vs_range(i == 0, 57, "d"); v = v * 58 + d; t.push_back(A[d]); }
   std::vector<char> b;
   vs_assert(completes([&] { b = from_base58(t); }), "valid");
   vs_assert(b.size() >= z, "length");
   for (size_t i = 0; i < z; ++i) vs_assert(b[i] == 0, "leading zero");
   vs_assert(b.size() == z || b[z] != 0, "no other leading zero");
   for (char c : b) w = w * 256 + (uint8_t)c;
   vs_assert(v == w, "value");
   vs_reach("decode");
}
static bool valid(const std::string& t) { bool r = true; for (char c : t) r = both(r, inv.v[(uint8_t)c] < 58); return r; }
extern "C" void h_chars() {
   size_t      n = vs_choice(4, "n");
   std::string t = sym_str(n, "t");
   if (vs_choice(2, "long")) t = t.substr(0, 1) + "3Fz9" + t.substr(n ? 1 : 0);
   bool w = valid(t);
   vs_assert(completes([&] { from_base58(t); }) == w, "accepted iff every character is a base58 digit");
   vs_reach("chars");
}
// ---- keys
struct Kind { const char* prefix; const char* suffix; int what, index; size_t size; };   // what: 0 public, 1 private, 2 signature
static const Kind K[] = { { "PUB_K1_", "K1", 0, 0, 33 }, { "PUB_R1_", "R1", 0, 1, 33 }, { "PUB_WA_", "WA", 0, 2, 37 }, { "PVT_K1_", "K1", 1, 0, 32 },
                          { "PVT_R1_", "R1", 1, 1, 32 }, { "SIG_K1_", "K1", 2, 0, 65 }, { "SIG_R1_", "R1", 2, 1, 65 }, { "SIG_WA_", "WA", 2, 2, 71 },
                          { "EOS", "", 0, 0, 33 } };
// binary forms without the index byte; webauthn ones end in strings
static std::string sample(const Kind& k, int salt) {
   std::string b;
   size_t fixed = k.index < 2 ? k.size : k.what == 0 ? 34 : 65;
   for (size_t i = 0; i < fixed; ++i) b.push_back((char)(i == 0 ? 2 + (salt & 1) : (i * 37 + salt * 101 + 7) & 255));
   if (k.index == 2) b += k.what == 0 ? std::string("\x02io") : std::string("\x02\x41\xff\x02{}");
   if (k.index == 2 && k.what == 0) b[33] = 1;
   return b;
}
template <typename T>
static bool decode(const Kind& k, const std::string& b, T& out) {
   std::vector<char> v(1, (char)k.index);
   v.insert(v.end(), b.begin(), b.end());
   return completes([&] { input_stream s(v); from_bin(out, s); });
}
static std::string with_check(const Kind& k, const std::string& b) { return b + rmd_ref(b + k.suffix).substr(0, 4); }
template <typename T, typename F, typename G>
static void write(const Kind& k, const std::string& b, F to, G) {
   T key;
   vs_assert(decode(k, b, key), "binary form");
   std::string s = with_check(k, b), want = k.prefix + to_base58(s.data(), s.size());
   std::string t = to(key);
   vs_assert(same(t, want), "text: prefix and base58 of key and checksum");
   vs_assert(same(convert_to_json(key), "\"" + want + "\""), "JSON");
   vs_reach("write");
}
extern "C" void h_write() {
   const Kind& k = K[vs_choice(8, "kind")];
   std::string b = sample(k, k.index + k.what);
   size_t fixed = k.index < 2 ? k.size : k.what == 0 ? 33 : 65;
   size_t p;
   if (VS_THOROUGH) { p = vs_choice(fixed, "p"); if (p + 1 < fixed) b[p + 1] = (char)vs_u8("b"); }
   else { const size_t Q[] = { fixed - 1, 0, fixed / 2 }; p = Q[vs_choice(k.what == 2 ? 1 : k.index == 2 ? 1 : 3 - k.index, "p")]; }
   b[p] = (char)vs_u8("b");
   if (k.what == 0) write<public_key>(k, b, public_key_to_string, 0);
   else if (k.what == 1) write<private_key>(k, b, private_key_to_string, 0);
   else write<signature>(k, b, signature_to_string, 0);
}
template <typename T, typename F>
static void read(const Kind& k, const std::string& rest, F from) {
   std::string t = k.prefix + rest;
   bool        w = valid(rest);
   T           want, got, jgot;
   if (w) {
      std::vector<char> v = from_base58(rest);
      w = v.size() > 4;
      if (w) {
         std::string b = str(v).substr(0, v.size() - 4);
         w = same(with_check(k, b).substr(b.size()), str(v).substr(b.size())) && decode(k, b, want);
      }
   }
   bool ok = completes([&] { got = from(t); });
   vs_assert(ok == w, "accepted iff base58, checksum and content are right");
   if (ok) { vs_assert(got == want, "the key"); vs_reach("read"); } else vs_reach("rejected");
}
static void read_any(const Kind& k, const std::string& rest) {
   if (k.what == 0) read<public_key>(k, rest, public_key_from_string);
   else if (k.what == 1) read<private_key>(k, rest, private_key_from_string);
   else read<signature>(k, rest, signature_from_string);
}
extern "C" void h_read() {
   const Kind& k = K[vs_choice(9, "kind")];
   std::string s = with_check(k, sample(k, k.index + k.what)), t = to_base58(s.data(), s.size());
   size_t      p;
   if (VS_THOROUGH) p = vs_choice(t.size(), "p");
   else { const size_t Q[] = { t.size() - 1, t.size() / 2, 0 }; p = Q[vs_choice(k.what == 2 ? 1 : k.index == 2 ? 1 : 3 - k.index, "p")]; }
   t[p] = (char)vs_u8("c");
   read_any(k, t);
}
extern "C" void h_short() {
   const Kind& k = K[vs_choice(9, "kind")];
   read_any(k, sym_str(vs_choice(VS_Q(4, 6), "n"), "t"));
}
// legacy private keys: base58 of a version byte, the key and four more bytes
extern "C" void h_legacy_private() {
   Kind        k = K[3];
   std::string b = sample(k, 5), all = "\x80" + b + "\x11\x22\x33\x44", t = to_base58(all.data(), all.size());
   size_t      cut = vs_choice(3, "cut") * 20;      // whole, too short for a key, too short for anything
   t = t.substr(0, t.size() - cut);
   size_t p = vs_choice(2, "p") ? t.size() - 1 : t.size() / 2;
   t[p] = (char)vs_u8("c");
   private_key want, got;
   bool        w = valid(t);
   if (w) {
      std::string v = str(from_base58(t));
      w = v.size() >= 5 && decode(k, v.substr(1, v.size() - 5), want);
   }
   bool ok = completes([&] { got = private_key_from_string(t); });
   vs_assert(ok == w, "accepted iff base58 with room for a key");
   if (ok) { vs_assert(got == want, "the key"); vs_reach("legacy"); } else vs_reach("legacy rejected");
}
