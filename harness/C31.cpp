// title: hashes of texts that are not names
// needs: fpconv
// bounds-quick: texts of 0 to 18 characters of three patterns with one arbitrary byte at every place; arbitrary texts of up to 2 characters; nine longer texts of up to 300 characters with one arbitrary byte; three seeds
// bounds-thorough: texts of 0 to 34 characters; pairs of neighbouring bytes arbitrary
// outside: longer texts (the hash works on blocks of 8)
// time-quick: 150
// time-thorough: 800
#include "json.hpp"
#include <eosio/name.hpp>
using namespace eosio;
using namespace eosio::literals;
// 64-bit MurmurHash2 in blocks of 8 as eosio::murmur64 has always computed it: a full block is its last seven bytes, most significant first, above a zero byte, every byte sign-extended
static uint64_t ref(const std::string& s, uint64_t seed) {
   const uint64_t m = 0xc6a4a7935bd1e995u;
   uint64_t       h = seed ^ (s.size() * m);
   size_t         i = 0;
   for (; i + 8 <= s.size(); i += 8) {
      uint64_t k = 0;
      for (size_t j = 0; j < 8; ++j) k = (k | (uint64_t)(int64_t)(int8_t)s[i + j]) * 256;
      k *= m;
      k ^= k >> 47;
      k *= m;
      h = (h ^ k) * m;
   }
   if (i < s.size()) {
      uint64_t k = 0, f = 1;
      for (; i < s.size(); ++i) { k += f * (uint8_t)s[i]; f *= 256; }
      h = (h ^ k) * m;
   }
   h ^= h >> 47;
   h *= m;
   return h ^ (h >> 47);
}
static std::string make(size_t n) {
   size_t      pat = vs_choice(3, "pattern");
   std::string s;
   for (size_t i = 0; i < n; ++i) s.push_back(pat == 0 ? 'A' : pat == 1 ? (char)('a' + i % 26) : (char)(0x81 + 13 * i));
   return s;
}
static void patch(std::string& s, size_t w) {
   if (s.size() < w) w = s.size();
   if (!w) return;
   size_t p = vs_choice(s.size() - w + 1, "pos");
   for (size_t i = 0; i < w; ++i) s[p + i] = (char)vs_u8("c");
}
extern "C" void h_murmur() {
   uint32_t    n = vs_choice(VS_Q(19, 35) + 9, "n");
   static const size_t longer[] = { 31, 63, 64, 65, 72, 127, 129, 256, 300 };
   bool        lng = n >= VS_Q(19, 35);
   std::string s = make(lng ? longer[n - VS_Q(19, 35)] : n);
   if (lng) {   // one byte of each of some blocks
      static const size_t at[] = { 0, 7, 30 };
      size_t p = vs_choice(5, "at");
      s[p < 3 ? at[p] : p == 3 ? s.size() / 2 : s.size() - 1] = (char)vs_u8("c");
   } else
   patch(s, VS_Q(1, 2));
   static const uint64_t seeds[] = { 0xbadd00d00, 0, 0xfedcba9876543210u };
   size_t k = vs_choice(3, "seed");
   std::vector<char> b(s.data(), s.data() + s.size());
   vs_assert(murmur64(b.data(), b.size(), seeds[k]) == ref(s, seeds[k]), "hash");
   if (k == 0) vs_assert(murmur64(b.data(), b.size()) == ref(s, seeds[0]), "hash with the usual seed");
   vs_reach("murmur");
}
// the value of a text: a name, or its hash
static bool is_name(const std::string& s, uint64_t& v) {
   if (s.size() > 13) return false;
   v = 0;
   bool good = true;
   for (size_t i = 0; i < s.size(); ++i) {
      char     c = s[i];
      bool     l = both(c >= 'a', c <= 'z'), d = both(c >= '1', c <= '5');
      uint64_t x = l ? (uint64_t)(c - 'a') + 6 : d ? (uint64_t)(c - '1') + 1 : 0;
      good = both(good, either(either(l, d), c == '.'));
      if (i == 12) { good = both(good, x < 16); v |= x & 15; } else v |= x << (59 - 5 * i);
   }
   return good;
}
static void check(const std::string& s) {
   uint64_t v;
   bool     n = is_name(s, v);
   uint64_t h = hash_name(s);
   if (n) { vs_assert(h == v, "the value of a name"); vs_reach("name"); }
   else { vs_assert(h == ref(s, 0xbadd00d00), "the hash of another text"); vs_reach("hash"); }
   std::string::size_type i = 0;
   bool plain = true;
   for (; i < s.size(); ++i) plain = both(plain, both(both((uint8_t)s[i] >= 0x20, (uint8_t)s[i] < 0x80), both(s[i] != '"', s[i] != '\\')));
   if (!plain) return;
   vs_assert(operator""_h(s.c_str(), s.size()).value == h, "the same by _h");
   name x;
   vs_assert(parse_json("\"" + s + "\"", x) && x.value == h, "the same from JSON");
   vs_reach("json");
}
extern "C" void h_one() {
   std::string s = vs_choice(2, "kind") ? make(vs_choice(VS_Q(16, 20), "n")) : std::string(vs_choice(15, "n"), 'j');
   patch(s, 1);
   check(s);
}
extern "C" void h_any() { check(sym_str(vs_choice(VS_Q(3, 4), "n"), "s")); }
