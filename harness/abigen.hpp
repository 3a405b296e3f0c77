// every ABI type expression up to a depth, with a value of it: type name, binary form and JSON text written down independently
#pragma once
#include "json.hpp"
#include <eosio/abi.hpp>
struct Ty {
   enum K { NUM, STR, STRUCT, VARIANT, ALIAS, ARRAY, OPT, EXT } kind = NUM;
   std::string              name;
   std::vector<Ty>          sub;      // fields (with the inherited ones), alternatives, element
   std::vector<std::string> label;    // field names
   const Ty& base() const { return kind == ALIAS ? sub[0].base() : *this; }
   bool      container() const { K k = base().kind; return k == ARRAY || k == OPT; }
};
static size_t gen_n;
static bool   gen_ext;   // structs may have binary extensions
static Ty leaf(Ty::K k) { Ty t; t.kind = k; t.name = k == Ty::NUM ? "uint8" : "string"; return t; }
static std::string fresh(const char* p) { return p + std::to_string(gen_n++); }
static eosio::struct_def& new_struct(eosio::abi_def& d, Ty& t) {
   t.kind = Ty::STRUCT;
   t.name = fresh("s");
   d.structs.push_back({ t.name, "", {} });
   return d.structs.back();
}
static void add_field(eosio::struct_def& s, Ty& t, const char* label, const Ty& f) {
   s.fields.push_back({ label, f.name });
   t.sub.push_back(f);
   t.label.push_back(label);
}
static Ty make_type(eosio::abi_def& d, int depth, bool nested = false, bool full = true) {   // nested: directly inside an array or optional
   size_t k = vs_choice(depth == 0 ? 2 : nested ? 5 : 7, "type");
   if (k < 2) return leaf(k ? Ty::STR : Ty::NUM);
   Ty t;
   if (k == 2) {
      Ty   f    = make_type(d, depth - 1, false, full);
      bool base = full && vs_choice(2, "base");
      Ty   b;
      if (base) add_field(new_struct(d, b), b, "n", leaf(Ty::NUM));
      eosio::struct_def& s = new_struct(d, t);
      if (base) { s.base = b.name; t.sub = b.sub; t.label = b.label; }
      size_t e = gen_ext ? vs_choice(4, "extensions") : 0;
      auto   x = [](const Ty& f, bool e) { Ty t; if (!e) return f; t.kind = Ty::EXT; t.name = f.name + "$"; t.sub.push_back(f); return t; };
      add_field(s, t, "x", x(f, e >= 2));
      add_field(s, t, "y", x(leaf(Ty::STR), e == 1 || e == 2));
   } else if (k == 3) {
      Ty f     = make_type(d, depth - 1, false, full);
      Ty other = leaf(Ty::NUM);
      other.name = "int8";
      t.sub.push_back(f);
      t.sub.insert(vs_choice(2, "order") ? t.sub.end() : t.sub.begin(), other);
      t.kind = Ty::VARIANT;
      t.name = fresh("v");
      d.variants.value.push_back({ t.name, { t.sub[0].name, t.sub[1].name } });
   } else if (k == 4) {
      Ty f = make_type(d, depth - 1, nested, full);
      t.kind = Ty::ALIAS;
      t.name = fresh("a");
      t.sub.push_back(f);
      d.types.push_back({ t.name, f.name });
   } else {
      Ty f   = make_type(d, depth - 1, true, full);
      t.kind = k == 5 ? Ty::ARRAY : Ty::OPT;
      t.name = f.name + (k == 5 ? "[]" : "?");
      t.sub.push_back(f);
   }
   return t;
}
// one value: appends its binary form and its JSON text
static void value(const Ty& t, std::string& bin, std::string& json, size_t maxn = 2) {
   switch (t.kind) {
   case Ty::NUM: {
      uint64_t a = vs_range(1, 9, "v"), b = vs_range(0, 9, "v");
      bin.push_back((char)(a * 10 + b));
      json.push_back((char)('0' + a));
      json.push_back((char)('0' + b));
      break;
   }
   case Ty::STR: {
      size_t n = vs_choice(2, "len");
      bin.push_back((char)n);
      json.push_back('"');
      while (n--) { char c = (char)vs_range('a', 'z', "c"); bin.push_back(c); json.push_back(c); }
      json.push_back('"');
      break;
   }
   case Ty::STRUCT: {
      json.push_back('{');
      bool first = true;
      for (size_t i = 0; i < t.sub.size(); ++i) {
         if (!first) json.push_back(',');
         first = false;
         json += "\"" + t.label[i] + "\":";
         value(t.sub[i], bin, json, maxn);
      }
      json.push_back('}');
      break;
   }
   case Ty::VARIANT: {
      size_t i = vs_choice(2, "alternative");
      bin.push_back((char)i);
      json += "[\"" + t.sub[i].name + "\",";
      value(t.sub[i], bin, json, maxn);
      json.push_back(']');
      break;
   }
   case Ty::ARRAY: {
      size_t n = vs_choice(maxn + 1, "count");
      bin.push_back((char)n);
      json.push_back('[');
      for (size_t i = 0; i < n; ++i) { if (i) json.push_back(','); value(t.sub[0], bin, json, 1); }
      json.push_back(']');
      break;
   }
   case Ty::OPT: {
      size_t n = vs_choice(2, "present");
      bin.push_back((char)n);
      if (n) value(t.sub[0], bin, json, maxn); else json += "null";
      break;
   }
   default: value(t.sub[0], bin, json, maxn);
   }
}
static std::vector<char> vec(const std::string& s) { return std::vector<char>(s.data(), s.data() + s.size()); }
static bool to_bin_ordered(const eosio::abi_type* t, std::string json, std::vector<char>& out) {
   return completes([&] { out = t->json_to_bin(json); });
}
static bool to_bin_any(const eosio::abi_type* t, std::string json, std::vector<char>& out) {
   return completes([&] { out = t->json_to_bin_reorderable(json); });
}
// binary to JSON; false when refused or when bytes are left over
static bool to_text(const eosio::abi_type* t, const std::string& bin, std::string& out) {
   std::vector<char> b = vec(bin);   // exact size: reading beyond it is caught
   bool              rest = false;
   return completes([&] { eosio::input_stream s(b); out = t->bin_to_json(s); rest = s.pos != s.end; }) && !rest;
}
