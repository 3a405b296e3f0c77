// title: validity of ABIs
// needs: abi crypto fpconv
// bounds-quick: ABIs of an alias, two structs with an optional base, and a variant, with two of their type expressions chosen freely from 7 names with 0..2 suffixes each, or one with 3 suffixes; bases chosen freely; names chosen so that they collide or are empty; type expressions of two arbitrary characters added to a name
// bounds-thorough: 0..3 and 0..2 suffixes
// outside: chains of more than 12 aliases, bases or suffixes (a recursion limit of 32 steps applies)
// samples: 4
// time-quick: 200
// time-thorough: 800
#include "json.hpp"
#include <eosio/abi.hpp>
#include <map>
using namespace eosio;
// ---- the rules
enum Kind { BAD, BUILTIN, STRUCT, VARIANT, OPT, ARR, EXT };
struct Ref {
   const abi_def& d;
   static bool builtin(const std::string& n) { return n == "uint8" || n == "string" || n == "extended_asset" || n == "asset" || n == "name"; }
   static bool suffix(const std::string& e, const char* s) { size_t k = std::string_view(s).size(); return e.size() >= k && e.compare(e.size() - k, k, s) == 0; }
   Kind kind(const std::string& e, int fuel = 40) const {   // what a type expression is
      if (!fuel) return BAD;
      if (e == "extended_asset") return STRUCT;
      if (builtin(e)) return BUILTIN;
      for (auto& t : d.types) if (t.new_type_name == e) { Kind k = kind(t.type, fuel - 1); return k == EXT ? BAD : k; }
      for (auto& s : d.structs) if (s.name == e) return STRUCT;
      for (auto& v : d.variants.value) if (v.name == e) return VARIANT;
      if (suffix(e, "?")) { Kind k = kind(e.substr(0, e.size() - 1), fuel - 1); return k == BUILTIN || k == STRUCT || k == VARIANT ? OPT : BAD; }
      if (suffix(e, "[]")) { Kind k = kind(e.substr(0, e.size() - 2), fuel - 1); return k == BUILTIN || k == STRUCT || k == VARIANT ? ARR : BAD; }
      if (suffix(e, "$")) { Kind k = kind(e.substr(0, e.size() - 1), fuel - 1); return k != EXT && k != BAD ? EXT : BAD; }
      return BAD;
   }
   const std::string& target(const std::string& e) const { for (auto& t : d.types) if (t.new_type_name == e) return target(t.type); return e; }
   // fields with the inherited ones; false: not a struct, or its bases run in a circle
   bool fields(const std::string& e, std::vector<field_def>& out, int fuel = 40) const {
      if (!fuel) return false;
      const std::string& n = target(e);
      if (n == "extended_asset") { out.push_back({ "quantity", "asset" }); out.push_back({ "contract", "name" }); return true; }
      for (auto& s : d.structs)
         if (s.name == n) {
            if (s.base.size() && !(kind(s.base) == STRUCT && fields(s.base, out, fuel - 1))) return false;
            out.insert(out.end(), s.fields.begin(), s.fields.end());
            return true;
         }
      return false;
   }
   bool valid() const {
      std::map<std::string, int> names;
      names["uint8"] = names["string"] = names["extended_asset"] = 1;
      for (auto& t : d.types) if (t.new_type_name.empty() || names[t.new_type_name]++) return false;
      for (auto& s : d.structs) if (s.name.empty() || names[s.name]++) return false;
      for (auto& v : d.variants.value) if (v.name.empty() || names[v.name]++) return false;
      for (auto& t : d.types) if (kind(t.new_type_name) == BAD) return false;
      for (auto& s : d.structs) {
         std::vector<field_def> f;
         if (!fields(s.name, f)) return false;
         for (auto& x : s.fields) if (kind(x.type) == BAD) return false;
      }
      for (auto& v : d.variants.value) for (auto& x : v.types) if (kind(x) == BAD) return false;
      return true;
   }
};
static Kind kind_of(const abi_type* t) {
   if (t->optional_of()) return OPT;
   if (t->array_of()) return ARR;
   if (t->extension_of()) return EXT;
   if (t->as_struct()) return STRUCT;
   if (t->as_variant()) return VARIANT;
   return BUILTIN;
}
static std::string written(const Ref& r, const std::string& e) {   // the name of the type an expression stands for
   return r.target(e);
}
static void check_abi(const abi_def& d) {
   Ref  r{ d };
   bool want = r.valid();
   abi  a;
   bool got = completes([&] { convert(d, a); });
   vs_assert(got == want, "accepted iff valid");
   if (!got) { vs_reach("refused"); return; }
   auto see = [&](const std::string& e) {
      const abi_type* t = nullptr;
      vs_assert(completes([&] { t = a.get_type(e); }) && t && t->ser, "type known");
      vs_assert(kind_of(t) == r.kind(e), "kind of type");
      vs_assert(same(t->name, written(r, e)), "name of type");
      vs_assert(a.get_type(e) == t, "one type per name");
      return t;
   };
   for (auto& t : d.types) vs_assert(see(t.new_type_name) == see(t.type), "an alias is its type");
   for (auto& s : d.structs) {
      std::vector<field_def> f;
      r.fields(s.name, f);
      auto* x = see(s.name)->as_struct();
      vs_assert(x && x->fields.size() == f.size(), "number of fields");
      for (size_t i = 0; i < f.size(); ++i) {
         vs_assert(same(x->fields[i].name, f[i].name), "field name");
         vs_assert(x->fields[i].type == see(f[i].type), "field type");
      }
   }
   for (auto& v : d.variants.value) {
      auto* x = see(v.name)->as_variant();
      vs_assert(x && x->size() == v.types.size(), "number of alternatives");
      for (size_t i = 0; i < v.types.size(); ++i) vs_assert(same((*x)[i].name, v.types[i]) && (*x)[i].type == see(v.types[i]), "alternative");
   }
   vs_reach("accepted");
}
static std::string expr(size_t suffixes) {
   static const char* N[] = { "uint8", "al", "ba", "st", "va", "nix", "extended_asset" };
   static const char* S[] = { "?", "[]", "$" };
   std::string e = N[vs_choice(7, "name")];
   for (size_t n = vs_choice(suffixes + 1, "suffixes"); n--;) e += S[vs_choice(3, "suffix")];
   return e;
}
static abi_def start() {
   abi_def d;
   d.version = "eosio::abi/1.1";
   d.types.push_back({ "al", "uint8" });
   d.structs.push_back({ "ba", "", { { "p", "string" } } });
   d.structs.push_back({ "st", "", { { "x", "uint8" }, { "y", "string" } } });
   d.variants.value.push_back({ "va", { "uint8", "string" } });
   return d;
}
static std::string& slot(abi_def& d, size_t i) {
   switch (i) {
   case 0: return d.types[0].type;
   case 1: return d.structs[0].fields[0].type;
   case 2: return d.structs[1].fields[1].type;
   default: return d.variants.value[0].types[0];
   }
}
extern "C" void h_expressions() {
   abi_def d = start();
   size_t  i = vs_choice(4, "slot"), j = vs_choice(4, "slot");
   if (j > i) return vs_end();
   if (i != j) slot(d, j) = expr(VS_Q(1, 2));
   slot(d, i) = expr(i == j ? 3 : VS_Q(2, 3));
   if (vs_choice(2, "order")) std::swap(d.structs[0], d.structs[1]);
   check_abi(d);
}
extern "C" void h_bases() {
   abi_def d = start();
   static const char* B[] = { "", "al", "ba", "st", "va", "nix", "extended_asset", "uint8", "st?", "ba[]" };
   d.structs[0].base = B[vs_choice(10, "base")];
   d.structs[1].base = B[vs_choice(10, "base")];
   d.types[0].type = B[1 + vs_choice(9, "alias")];
   d.structs.push_back({ "top", vs_choice(2, "top") ? "st" : "", {} });
   check_abi(d);
}
extern "C" void h_names() {
   abi_def d = start();
   static const char* N[] = { "", "uint8", "extended_asset", "aa", "al", "ba", "st", "va", "st?" };
   std::string n = N[vs_choice(9, "name")];
   switch (vs_choice(3, "what")) {
   case 0: d.types.push_back({ n, "string" }); break;
   case 1: d.structs.push_back({ n, "", {} }); break;
   default: d.variants.value.push_back({ n, {} });
   }
   check_abi(d);
}
extern "C" void h_chains() {
   abi_def d = start();
   size_t  n = vs_choice(13, "n"), w = vs_choice(3, "what");
   bool    down = vs_choice(2, "order"), loop = vs_choice(2, "loop");
   auto    nm = [&](size_t i) { return std::string(1, (char)(down ? 'z' - i : 'a' + i)) + "x"; };
   std::string last = w == 0 ? (loop ? nm(0) : "uint8") : w == 1 ? (loop ? nm(0) : "ba") : "uint8";
   if (n == 0) return vs_end();
   for (size_t i = 0; i < n; ++i) {
      std::string to = i + 1 < n ? nm(i + 1) : last;
      if (w == 0) d.types.push_back({ nm(i), to });
      else if (w == 1) d.structs.push_back({ nm(i), to, { { "f" + nm(i), "string" } } });
      else d.structs.push_back({ nm(i), "", { { "f", to + (loop && i + 1 < n ? "[]" : "") } } });
   }
   check_abi(d);
}
extern "C" void h_text() {
   abi_def d = start();
   std::string e = vs_choice(2, "base") ? "va" : "";
   e.push_back((char)vs_u8("c"));
   e.push_back((char)vs_u8("c"));
   d.structs[1].fields[0].type = e;
   check_abi(d);
}
