// title: nesting is limited
// needs: abi crypto fpconv
// bounds-quick: values nested 1, 2, 20, 40, 100, 140 and 300 levels deep through arrays, optionals and variants of structs, and arrays in variants, with an arbitrary number innermost; the 40-level and 300-level binaries cut off at places all along; JSON values of 1, 40 and 300 levels under a key that is not a member; chains of 1 to 100 aliases, bases and suffixes and circular ones
// bounds-thorough: every depth from 1 to 160, and 300 and 1000
// outside: which of the depths between 40 and 140 are accepted (they give the right result or an error); recursive C++ types
// samples: 4
// time-quick: 200
// time-thorough: 800
#include "json.hpp"
#include <eosio/abi.hpp>
#include "abigen.hpp"
using namespace eosio;
struct Doc { std::string json, bin; };
static size_t depth() {
   if (VS_THOROUGH) { size_t i = vs_choice(162, "depth"); return i < 160 ? i + 1 : i == 160 ? 300 : 1000; }
   static const size_t d[] = { 1, 2, 20, 40, 100, 140, 300 };
   return d[vs_choice(7, "depth")];
}
static void leaf_value(Doc& d) {
   uint64_t a = vs_range(1, 9, "v"), b = vs_range(0, 9, "v");
   d.bin.push_back((char)(a * 10 + b));
   d.json.push_back((char)('0' + a));
   d.json.push_back((char)('0' + b));
}
static void define(abi_def& def) {
   def.version = "eosio::abi/1.1";
   def.structs.push_back({ "ar", "", { { "n", "uint8" }, { "k", "ar[]" } } });
   def.structs.push_back({ "op", "", { { "n", "uint8" }, { "k", "op?" } } });
   def.structs.push_back({ "vs", "", { { "k", "va" } } });
   def.variants.value.push_back({ "va", { "uint8", "vs", "va[]" } });
}
static const char* TYPES[] = { "ar", "op", "va", "va" };
static Doc document(size_t kind, size_t n) {
   Doc d;
   std::string tail;
   for (size_t i = 0; i < n; ++i) {
      bool last = i + 1 == n;
      if (kind < 2) {
         d.json += "{\"n\":";
         if (i == 0 || last) leaf_value(d); else { d.bin.push_back((char)i); d.json += std::to_string((unsigned char)i); }
         if (kind == 0) { d.json += last ? ",\"k\":[]}" : ",\"k\":["; d.bin.push_back(!last); if (!last) tail += "}]"; }
         else { d.json += last ? ",\"k\":null}" : ",\"k\":"; d.bin.push_back(!last); if (!last) tail += "}"; }
      } else if (last) {
         d.json += "[\"uint8\","; d.bin.push_back(0); leaf_value(d); d.json += "]";
      } else if (kind == 2) {
         d.json += "[\"vs\",{\"k\":"; d.bin.push_back(1); tail += "]}";
      } else {
         d.json += "[\"va[]\",["; d.bin += std::string("\2\1", 2); tail += "]]";
      }
   }
   d.json.append(tail.rbegin(), tail.rend());
   return d;
}
static size_t levels(size_t kind, size_t n) { return kind == 1 ? n : 2 * n - (kind >= 2); }   // how many objects and arrays are open innermost
extern "C" void h_values() {
   size_t kind = vs_choice(4, "kind"), n = depth();
   Doc d = document(kind, n);
   abi_def def;
   define(def);
   abi a;
   convert(def, a);
   const abi_type* t = a.get_type(TYPES[kind]);
   std::vector<char> o, r;
   std::string j;
   bool po = to_bin_ordered(t, d.json, o), pr = to_bin_any(t, d.json, r), pj = to_text(t, d.bin, j);
   if (levels(kind, n) <= 40) { vs_assert(both(both(po, pr), pj), "moderate nesting is converted"); vs_reach("converted"); }
   if (n >= 140) { vs_assert(!po, "deep nesting is refused from JSON"); vs_assert(!pr, "deep nesting is refused from reordered JSON"); vs_assert(!pj, "deep nesting is refused from binary"); vs_reach("refused"); }
   if (po) vs_assert(same(o, vec(d.bin)), "binary from JSON");
   if (pr) vs_assert(same(r, vec(d.bin)), "binary from reordered JSON");
   if (pj) vs_assert(same(j, d.json), "JSON from binary");
}
// cut off anywhere: refused, whatever the depth
extern "C" void h_cut() {
   size_t kind = vs_choice(4, "kind"), n = vs_choice(2, "deep") ? 300 : 20;
   Doc d = document(kind, n);
   abi_def def;
   define(def);
   abi a;
   convert(def, a);
   const abi_type* t = a.get_type(TYPES[kind]);
   size_t step = VS_Q(n > 100 ? 67 : 7, n > 100 ? 23 : 1), k = vs_choice(d.bin.size() / step, "cut") * step;
   std::string j;
   vs_assert(!to_text(t, d.bin.substr(0, k), j), "incomplete binary is refused");
   vs_reach("binary");
   std::vector<char> o;
   k = vs_choice(d.json.size() / (step * 5), "cut") * step * 5;
   vs_assert(!to_bin_ordered(t, d.json.substr(0, k), o), "incomplete JSON is refused");
   vs_assert(!to_bin_any(t, d.json.substr(0, k), o), "incomplete JSON is refused in any order");
   vs_reach("JSON");
}
// JSON under a key that is not a member is passed over, whatever its depth
struct Known { uint8_t a = 0, b = 0; };
EOSIO_REFLECT(Known, a, b)
extern "C" void h_skip() {
   static const size_t D[] = { 1, 40, 300 };
   size_t n = D[vs_choice(3, "depth")];
   bool cut = vs_choice(2, "unbalanced");
   Doc d, e;
   std::string s = "{\"a\":", tail;
   leaf_value(d);
   s += d.json + ",\"x\":";
   for (size_t i = 0; i < n; ++i) { s += i % 3 == 2 ? "{\"b\":" : "["; tail += i % 3 == 2 ? '}' : ']'; }
   s += "7";
   s.append(tail.rbegin() + cut, tail.rend());
   leaf_value(e);
   s += ",\"b\":" + e.json + "}";
   Known k;
   bool ok = parse_json(s, k);
   vs_assert(ok == !cut, "balanced unknown values are passed over");
   if (ok) { vs_assert(both(k.a == (uint8_t)d.bin[0], k.b == (uint8_t)e.bin[0]), "members around an unknown value"); vs_reach("passed over"); }
}
// type definitions that refer to each other in a chain
extern "C" void h_chain() {
   size_t kind = vs_choice(4, "kind");
   static const size_t N[] = { 1, 2, 10, 40, 100 };
   size_t n = N[vs_choice(5, "length")];
   bool up = vs_choice(2, "order"), circle = kind < 2 && vs_choice(2, "circle");
   auto nm = [&](size_t i) { size_t k = up ? i : n - i; std::string s = "t"; s.push_back((char)('a' + k / 26)); s.push_back((char)('a' + k % 26)); return s; };
   abi_def def;
   def.version = "eosio::abi/1.1";
   std::string top = nm(n);
   if (kind == 0) {   // aliases
      for (size_t i = 0; i <= n; ++i) def.types.push_back({ nm(i), i ? nm(i - 1) : circle ? nm(n) : "uint8" });
   } else if (kind == 1) {   // bases
      for (size_t i = 0; i <= n; ++i) def.structs.push_back({ nm(i), i ? nm(i - 1) : circle ? nm(n) : "", { { "f" + std::to_string(i), "uint8" } } });
   } else if (kind == 2) {   // members
      for (size_t i = 0; i <= n; ++i) def.structs.push_back({ nm(i), "", { { "f", i ? nm(i - 1) : "uint8" } } });
   } else {   // suffixes: extensions of extensions and arrays of arrays are no types
      top = "uint8";
      const char* sfx = vs_choice(2, "suffix") ? "[]" : "$";
      for (size_t i = 0; i < n; ++i) top += sfx;
      def.structs.push_back({ "s", "", { { "f", top } } });
   }
   abi  a;
   bool ok = completes([&] { convert(def, a); });
   if (circle) { vs_assert(!ok, "circular definitions are refused"); vs_reach("circular"); return; }
   if (kind == 3) {
      vs_assert(ok == (n == 1), "suffixes do not repeat");
      abi b;
      abi_def none;
      none.version = def.version;
      convert(none, b);
      vs_assert(completes([&] { b.get_type(top); }) == (n == 1), "suffixes do not repeat in a type asked for");
      vs_reach("suffixes");
      return;
   }
   if (n <= 10 || kind == 2) { vs_assert(ok, "chains of moderate length are accepted"); vs_reach("chain"); }
   if (!ok) return;
   const abi_type* t = a.get_type(top);
   if (kind == 0) {
      vs_assert(t->name == "uint8", "an alias of an alias is the type itself");
   } else if (kind == 1) {
      auto* s = t->as_struct();
      vs_assert(s && s->fields.size() == n + 1, "inherited members");
      for (size_t i = 0; i <= n; ++i) vs_assert(s->fields[i].name == "f" + std::to_string(i), "members in the order of inheritance");
   } else {
      std::string bin(1, '\7'), j;
      bool pj = to_text(t, bin, j);
      if (n <= 10) vs_assert(pj, "members of members");
      if (pj) {
         std::string w;
         for (size_t i = 0; i <= n; ++i) w += "{\"f\":";
         w += "7" + std::string(n + 1, '}');
         vs_assert(same(j, w), "JSON of members of members");
      }
   }
}
