// title: the C interface
// needs: abieos abi crypto fpconv
// bounds-quick: every function with a null context and null strings; two loaded contracts and one that is not, every 64-bit contract, action and table number; hex texts of up to 4 arbitrary characters; type names of up to 2 arbitrary characters; JSON of a struct with arbitrary digits, complete or cut off after every character; binary of 0..4 arbitrary bytes; every order of two conversions, failed or not; abi texts and binaries cut off after every byte or with one arbitrary byte
// bounds-thorough: the same, hex texts of up to 6 characters, binaries of up to 6 bytes
// outside: running out of memory; strings longer than the bounds; using the context from several threads
// samples: 6
// time-quick: 200
// time-thorough: 800
#include "json.hpp"
#include <eosio/abieos.h>
#include <eosio/abi.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/name.hpp>
#include <cstring>
using namespace eosio;
static const char* ABI1 = "{\"version\":\"eosio::abi/1.1\",\"types\":[{\"new_type_name\":\"al\",\"type\":\"s\"}],\"structs\":[{\"name\":\"s\",\"base\":\"\",\"fields\":[{\"name\":\"a\",\"type\":\"uint8\"},{\"name\":\"b\",\"type\":\"string\"}]}],"
                          "\"actions\":[{\"name\":\"act\",\"type\":\"s\",\"ricardian_contract\":\"\"},{\"name\":\"\",\"type\":\"al\",\"ricardian_contract\":\"\"}],\"tables\":[{\"name\":\"tab\",\"index_type\":\"i64\",\"key_names\":[],\"key_types\":[],\"type\":\"uint8\"}]}";
static const char* ABI2 = "{\"version\":\"eosio::abi/1.0\",\"types\":[{\"new_type_name\":\"s\",\"type\":\"uint16\"}],\"actions\":[{\"name\":\"act\",\"type\":\"string\",\"ricardian_contract\":\"\"}]}";
static const uint64_t C1 = 0x1234567890abcdef, C2 = 7;
struct Ctx {
   abieos_context* c = abieos_create();
   ~Ctx() { abieos_destroy(c); }
   operator abieos_context*() { return c; }
};
static std::string err(abieos_context* c) { return abieos_get_error(c); }
static std::string bin(abieos_context* c) { return std::string(abieos_get_bin_data(c), (size_t)abieos_get_bin_size(c)); }
static bool starts(const std::string& s, const std::string& a) { return s.size() >= a.size() && same(std::string_view(s).substr(0, a.size()), a); }
static bool ends(const std::string& s, const std::string& a) { return s.size() >= a.size() && same(std::string_view(s).substr(s.size() - a.size()), a); }
static bool not_loaded(const std::string& s, uint64_t k) { return same(s, "contract \"" + name_to_string(k) + "\" is not loaded"); }
static bool unknown(const std::string& s, uint64_t k, const char* what, uint64_t n) { return same(s, "contract \"" + name_to_string(k) + "\" does not have " + what + " \"" + name_to_string(n) + "\""); }
extern "C" void h_null() {
   size_t w = vs_choice(2, "which");
   if (w == 0) {
      abieos_context* n = nullptr;
      vs_assert(same(err(n), "context is null"), "error");
      vs_assert(abieos_get_bin_size(n) == 0 && !abieos_get_bin_data(n) && !abieos_get_bin_hex(n), "no result");
      vs_assert(!abieos_name_to_string(n, 5), "name");
      vs_assert(abieos_string_to_name(n, "eosio") == string_to_name("eosio"), "names need no context");
      vs_assert(!abieos_set_abi(n, 1, ABI2) && !abieos_set_abi_bin(n, 1, "abc", 3) && !abieos_set_abi_hex(n, 1, "00"), "abi");
      vs_assert(!abieos_get_type_for_action(n, 1, 1) && !abieos_get_type_for_table(n, 1, 1), "types");
      vs_assert(!abieos_json_to_bin(n, 1, "uint8", "1") && !abieos_json_to_bin_reorderable(n, 1, "uint8", "1"), "JSON");
      vs_assert(!abieos_bin_to_json(n, 1, "uint8", "1", 1) && !abieos_hex_to_json(n, 1, "uint8", "01"), "binary");
      abieos_destroy(n);
      vs_reach("no context");
      return;
   }
   Ctx c;
   vs_assert(c.c && same(err(c), "") && abieos_get_bin_size(c) == 0, "fresh context");
   vs_assert(same(abieos_get_bin_hex(c), ""), "no binary yet");
   vs_assert(abieos_string_to_name(c, nullptr) == 0, "no name");
   vs_assert(!abieos_set_abi(c, 1, nullptr) && err(c).size(), "no abi");
   vs_assert(!abieos_set_abi_bin(c, 1, nullptr, 7) && same(err(c), "no data"), "no abi");
   vs_assert(!abieos_set_abi_bin(c, 1, "x", 0) && same(err(c), "no data"), "no abi");
   vs_assert(!abieos_set_abi_hex(c, 1, nullptr) && same(err(c), "no data"), "no abi");
   vs_assert(abieos_set_abi(c, C2, ABI2), "abi");
   vs_assert(!abieos_json_to_bin(c, C2, nullptr, "1") && same(err(c), "Unknown type"), "no type");
   vs_assert(!abieos_json_to_bin_reorderable(c, C2, nullptr, "1") && same(err(c), "Unknown type"), "no type");
   vs_assert(!abieos_bin_to_json(c, C2, nullptr, "1", 1) && same(err(c), "Unknown type"), "no type");
   vs_assert(!abieos_hex_to_json(c, C2, nullptr, "01") && same(err(c), "Unknown type"), "no type");
   vs_assert(!abieos_json_to_bin(c, C2, "s", nullptr) && err(c).size() && !abieos_get_bin_size(c), "no JSON");
   vs_assert(!abieos_json_to_bin_reorderable(c, C2, "s", nullptr) && err(c).size() && !abieos_get_bin_size(c), "no JSON");
   vs_assert(!abieos_bin_to_json(c, C2, "s", nullptr, 100) && same(err(c), "Stream overrun"), "no data");
   vs_assert(!abieos_hex_to_json(c, C2, "s", nullptr) && same(err(c), "Stream overrun"), "no data");
   vs_reach("nulls");
}
extern "C" void h_lookup() {
   Ctx c;
   vs_assert(abieos_set_abi(c, C1, ABI1) && abieos_set_abi(c, C2, ABI2), "abis");
   uint64_t    k = vs_u64("contract"), n = vs_u64("name");
   bool        one = k == C1, two = k == C2, loaded = either(one, two), table = vs_choice(2, "table");
   uint64_t    act = string_to_name("act"), tab = string_to_name("tab");
   const char* t = table ? abieos_get_type_for_table(c, k, n) : abieos_get_type_for_action(c, k, n);
   std::string e = err(c);
   const char* want = nullptr;
   if (one) { if (table) { if (n == tab) want = "uint8"; } else if (n == act) want = "s"; else if (n == 0) want = "al"; }
   else if (two && !table && n == act) want = "string";
   vs_assert((t != nullptr) == (want != nullptr), "known iff in the abi");
   if (want) { vs_assert(same(t, want), "type"); vs_reach("known"); }
   else if (!loaded) { vs_assert(not_loaded(e, k), "error"); vs_reach("not loaded"); }
   else { vs_assert(unknown(e, k, table ? "table" : "action", n), "error"); vs_reach("unknown"); }
}
extern "C" void h_contract() {
   Ctx c;
   vs_assert(abieos_set_abi(c, C1, ABI1) && abieos_set_abi(c, C2, ABI2), "abis");
   uint64_t k = vs_u64("contract");
   bool     one = k == C1, two = k == C2, ok = either(one, two);
   size_t   w = vs_choice(4, "call");
   bool     done;
   if (w < 2) {
      std::string j = one ? "{\"a\":1,\"b\":\"x\"}" : "258";
      done = (w ? abieos_json_to_bin_reorderable : abieos_json_to_bin)(c, k, "s", j.c_str());
      if (done) vs_assert(same(bin(c), one ? std::string("\1\1x") : std::string("\2\1")), "binary");
      else vs_assert(abieos_get_bin_size(c) == 0, "no result");
   } else {
      const char* t = w == 2 ? abieos_bin_to_json(c, k, "s", one ? "\1\1x" : "\2\1", one ? 3 : 2) : abieos_hex_to_json(c, k, "s", one ? "010178" : "0201");
      done = t;
      if (t) vs_assert(same(t, one ? "{\"a\":1,\"b\":\"x\"}" : "258"), "JSON");
   }
   vs_assert(done == ok, "works iff loaded");
   if (!done) { vs_assert(not_loaded(err(c), k), "error"); vs_reach("not loaded"); } else vs_reach("loaded");
}
// abis of the same contract: the last one that was accepted counts
extern "C" void h_replace() {
   Ctx c;
   int  cur = 0;
   for (int i = 0; i < VS_Q(3, 4); ++i) {
      size_t w = vs_choice(5, "abi");
      bool   ok;
      switch (w) {
      case 0: ok = abieos_set_abi(c, C1, ABI1); break;
      case 1: ok = abieos_set_abi(c, C1, ABI2); break;
      case 2: ok = abieos_set_abi(c, C2, ABI1); break;
      case 3: ok = abieos_set_abi(c, C1, "{\"version\":\"eosio::abi/1.1\",\"types\":[{\"new_type_name\":\"s\",\"type\":\"nix\"}]}"); vs_assert(same(err(c), "Unknown type"), "error"); break;
      default: ok = abieos_set_abi(c, C1, "{\"version\":\"eosio::abi/2.0\"}"); vs_assert(same(err(c), "unsupported abi version"), "error"); break;
      }
      vs_assert(ok == (w < 3), "accepted iff valid");
      if (w < 2) cur = (int)w + 1;
      const char* t = abieos_get_type_for_action(c, C1, string_to_name("act"));
      vs_assert((t != nullptr) == (cur != 0), "loaded iff accepted");
      if (t) vs_assert(same(t, cur == 1 ? "s" : "string"), "the last accepted abi");
      const char* j = abieos_hex_to_json(c, C1, "s", cur == 1 ? "0500" : "0500");
      if (cur) vs_assert(j && same(j, cur == 1 ? "{\"a\":5,\"b\":\"\"}" : "5"), "the last accepted abi is used"); else vs_assert(!j, "not loaded");
   }
   vs_reach("replaced");
}
static int hexval(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
extern "C" void h_hex() {
   Ctx c;
   vs_assert(abieos_set_abi(c, C2, ABI2), "abi");
   std::string h;
   size_t      n = vs_choice(VS_Q(5, 7), "n");
   for (size_t i = 0; i < n; ++i) h.push_back((char)vs_range(1, 255, "h"));
   bool ok = n % 2 == 0;
   std::string raw;
   for (size_t i = 0; i < n; ++i) { int v = hexval(h[i]); if (v < 0) ok = false; if (i % 2) raw.back() = (char)(raw.back() * 16 + v); else raw.push_back((char)v); }
   const char* t = abieos_hex_to_json(c, C2, "uint8[]", h.c_str());
   std::string e = err(c), got = t ? t : "";
   if (!ok) { vs_assert(!t && same(e, "expected hex string"), "bad hex"); vs_reach("bad"); return; }
   const char* u = abieos_bin_to_json(c, C2, "uint8[]", raw.data(), raw.size());
   vs_assert((u != nullptr) == (t != nullptr), "like the binary");
   if (u) { vs_assert(same(u, got), "like the binary"); vs_reach("hex"); } else { vs_assert(same(err(c), e), "like the binary"); vs_reach("refused"); }
}
extern "C" void h_bin() {
   Ctx c;
   vs_assert(abieos_set_abi(c, C1, ABI1), "abi");
   size_t      n = vs_choice(VS_Q(5, 7), "n");
   std::string b = sym_str(n, "b");
   if (n > 1) vs_assume((uint8_t)b[1] < 128);
   const char* t = abieos_bin_to_json(c, C1, "al", b.data(), n);
   bool        room = n >= 2 && (uint8_t)b[1] < 128, ok = room && (uint8_t)b[1] == n - 2;
   vs_assert((t != nullptr) == ok, "accepted iff it is the type's binary form");
   if (!ok) {
      std::string e = err(c);
      if (room && (uint8_t)b[1] < n - 2) vs_assert(same(e, "Extra data"), "error"); else if (room || n < 2) vs_assert(same(e, "Stream overrun"), "error");
      vs_assert(e.size(), "error");
      vs_reach("refused");
      return;
   }
   std::string j = t;
   if (abieos_json_to_bin(c, C1, "s", j.c_str())) {   // invalid UTF-8 is replaced
      std::string x = bin(c);
      bool        ascii = true;
      for (size_t i = 2; i < n; ++i) ascii = both(ascii, (uint8_t)b[i] < 128);
      if (ascii) vs_assert(same(x, b), "there and back");
      const char* h = abieos_get_bin_hex(c);
      vs_assert(h && std::strlen(h) == 2 * x.size(), "hex");
      for (size_t i = 0; i < x.size(); ++i)
         vs_assert(hexval(h[2 * i]) * 16 + hexval(h[2 * i + 1]) == (uint8_t)x[i] && !(h[2 * i] >= 'a') && !(h[2 * i + 1] >= 'a'), "hex");
      vs_reach("back");
   } else vs_assert(false, "JSON written is read");
}
extern "C" void h_json() {
   Ctx c;
   vs_assert(abieos_set_abi(c, C1, ABI1), "abi");
   vs_assert(abieos_json_to_bin(c, C1, "uint8", "9") && same(bin(c), "\x09"), "first");
   std::string j = "{\"a\":";
   j.push_back((char)vs_range('1', '9', "d"));
   j.push_back((char)vs_range('0', '9', "d"));
   j += ",\"b\":\"";
   j.push_back((char)vs_range('a', 'z', "c"));
   j += "\"}";
   bool   any = vs_choice(2, "any");
   size_t n   = vs_choice(j.size() + 1, "cut");
   j.resize(n);
   bool ok = (any ? abieos_json_to_bin_reorderable : abieos_json_to_bin)(c, C1, vs_choice(2, "alias") ? "al" : "s", j.c_str());
   vs_assert(ok == (n == 16), "accepted iff complete");
   if (ok) {
      std::string x = bin(c);
      vs_assert(x.size() == 3 && (uint8_t)x[0] == (j[5] - '0') * 10 + (j[6] - '0') && x[1] == 1 && x[2] == j[13], "binary");
      vs_reach("json");
   } else { vs_assert(err(c).size() && abieos_get_bin_size(c) == 0, "error and no result"); vs_reach("refused"); }
}
extern "C" void h_type() {
   Ctx c;
   vs_assert(abieos_set_abi(c, C2, ABI2), "abi");
   std::string t;
   for (size_t n = vs_choice(3, "n"); n--;) t.push_back((char)vs_range(1, 255, "t"));
   if (vs_choice(2, "suffix")) t = "s" + t;
   bool ok = same(t, "s") || same(t, "s?") || same(t, "s$") || same(t, "s[]") || same(t, "s?$");
   std::string data = same(t, "s") || same(t, "s$") ? std::string("\5\0", 2) : std::string("\1\5\0", 3);
   const char* j = abieos_bin_to_json(c, C2, t.c_str(), data.data(), data.size());
   vs_assert((j != nullptr) == ok, "known iff built from a type");
   if (ok) { vs_assert(same(j, same(t, "s[]") ? "[5]" : "5"), "JSON"); vs_reach("known"); }
   else { vs_assert(same(err(c), "Unknown type") || same(err(c), "Invalid nesting"), "error"); vs_reach("unknown"); }
}
extern "C" void h_abi_text() {
   Ctx c;
   std::string a = "{\"version\":\"eosio::abi/1.1\",\"structs\":[{\"name\":\"s\",\"base\":\"\",\"fields\":[{\"name\":\"a\",\"type\":\"int8[]\"}]}]}";
   bool cut = vs_choice(2, "cut");
   size_t p = vs_choice(a.size(), "p");
   if (cut) a.resize(p);
   else if (!VS_THOROUGH && p % 4) return vs_end();
   else a[p] = (char)vs_range(1, 255, "c");
   bool ok = abieos_set_abi(c, C1, a.c_str());
   if (cut) vs_assert(!ok, "refused");
   if (!ok) { vs_assert(err(c).size() && !abieos_get_type_for_action(c, C1, 0) && not_loaded(err(c), C1), "error and nothing loaded"); vs_reach("refused"); }
   else { vs_assert(!abieos_get_type_for_action(c, C1, 0) && starts(err(c), "contract ") && !not_loaded(err(c), C1), "loaded"); vs_reach("loaded"); }
}
extern "C" void h_abi_bin() {
   Ctx c;
   abi_def d;
   d.version = "eosio::abi/1.1";
   d.types.push_back({ "t", "s[]" });
   d.structs.push_back({ "s", "", { { "a", "int8" } } });
   d.actions.push_back({ eosio::name{ string_to_name("act") }, "t", "" });
   std::vector<char> b = convert_to_bin(d);
   bool cut = vs_choice(2, "cut");
   size_t p = vs_choice(b.size() + cut, "p");
   if (cut) b.resize(p); else b[p] = (char)vs_u8("b");
   bool hexed = cut && vs_choice(2, "hex"), ok;
   std::string h;
   if (hexed) {
      for (char ch : b) { h.push_back("0123456789abcdef"[(uint8_t)ch >> 4]); h.push_back("0123456789ABCDEF"[ch & 15]); }
      ok = abieos_set_abi_hex(c, C1, h.c_str());
   } else ok = abieos_set_abi_bin(c, C1, b.data(), b.size());
   size_t full = convert_to_bin(d).size();
   if (cut) vs_assert(ok == (p + 1 >= full), "refused unless only the variants are missing");   // they came later
   const char* t = abieos_get_type_for_action(c, C1, string_to_name("act"));
   if (ok) { if (cut) vs_assert(t && same(t, "t"), "loaded"); else vs_assert(t || starts(err(c), "contract ") && !not_loaded(err(c), C1), "loaded"); vs_reach("loaded"); }
   else { vs_assert(!t && not_loaded(err(c), C1), "nothing loaded"); vs_reach("refused"); }
}
