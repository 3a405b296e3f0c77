// title: ABI documents and ABIs of C++ types
// needs: abi crypto fpconv
// bounds-quick: ABI definitions with 0..2 entries per section and texts of 0..1 arbitrary characters, names with one arbitrary character, error codes of 13 digits: binary, and JSON with and without every member; the definition made from an ABI for every type of C20/C22 nested up to 2 deep, compared on every value; C++ structs with vectors, optionals, variants, nesting, inheritance and extensions against their native conversions with arbitrary leaf contents
// bounds-thorough: texts of 0..2 characters, 3 deep
// outside: action and table names, clauses and messages, which a definition made from an ABI does not carry
// samples: 4
// time-quick: 200
// time-thorough: 800
#include "abiref.hpp"
#include <eosio/asset.hpp>
#include <eosio/convert.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/symbol.hpp>
#include <eosio/time.hpp>
using namespace eosio;
// ---- documents
static std::string txt() { std::string s; for (size_t n = vs_choice(VS_Q(2, 3), "n"); n--;) s.push_back((char)vs_range('a', 'z', "t")); return s; }
static std::string chr() { return std::string(1, (char)vs_range('a', 'z', "t")); }
struct Doc { std::string bin, json; };
static void str(Doc& o, const std::string& s) { o.bin.push_back((char)s.size()); o.bin += s; o.json += "\"" + s + "\""; }
static void key(Doc& o, const char* k) { if (o.json.back() != '{') o.json.push_back(','); o.json += "\"" + std::string(k) + "\":"; }
static void nam(Doc& o, name& n) {   // one character and "b"
   char c = (char)vs_range('a', 'z', "t");
   n.value = (uint64_t)(c - 'a' + 6) << 59 | (uint64_t)7 << 54;
   for (int i = 0; i < 8; ++i) o.bin.push_back((char)(n.value >> 8 * i));
   o.json += "\"" + std::string(1, c) + "b\"";
}
static void strs(Doc& o, std::vector<std::string>& v, size_t n) {
   o.bin.push_back((char)n);
   o.json.push_back('[');
   for (size_t i = 0; i < n; ++i) { if (i) o.json.push_back(','); v.push_back(chr()); str(o, v.back()); }
   o.json.push_back(']');
}
template <typename F>
static void list(Doc& o, size_t n, F f) {
   o.bin.push_back((char)n);
   o.json.push_back('[');
   for (size_t i = 0; i < n; ++i) { if (i) o.json.push_back(','); o.json.push_back('{'); f(); o.json.push_back('}'); }
   o.json.push_back(']');
}
static void document(Doc& o, abi_def& d, size_t sec, size_t n, size_t omit, size_t& front) {   // sec: the section with n entries; omit: JSON member left out
   auto mem = [&](size_t i, const char* k, auto f) {
      size_t at = o.json.size();
      std::string b = o.json;
      key(o, k);
      f(i == sec ? n : 0);
      if (omit == i) o.json = b;
   };
   o.json = "{";
   key(o, "version"); d.version = txt(); str(o, d.version);
   mem(1, "types", [&](size_t n) { list(o, n, [&] { type_def t; key(o, "new_type_name"); str(o, t.new_type_name = txt()); key(o, "type"); str(o, t.type = chr()); d.types.push_back(t); }); });
   mem(2, "structs", [&](size_t n) { list(o, n, [&] {
      struct_def t; key(o, "name"); str(o, t.name = chr()); key(o, "base"); str(o, t.base = txt()); key(o, "fields");
      list(o, vs_choice(3, "fields"), [&] { field_def f; key(o, "name"); str(o, f.name = chr()); key(o, "type"); str(o, f.type = chr()); t.fields.push_back(f); });
      d.structs.push_back(t); }); });
   mem(3, "actions", [&](size_t n) { list(o, n, [&] { action_def t; key(o, "name"); nam(o, t.name); key(o, "type"); str(o, t.type = chr()); key(o, "ricardian_contract"); str(o, t.ricardian_contract = txt()); d.actions.push_back(t); }); });
   mem(4, "tables", [&](size_t n) { list(o, n, [&] { table_def t; key(o, "name"); nam(o, t.name); key(o, "index_type"); str(o, t.index_type = txt());
      key(o, "key_names"); strs(o, t.key_names, vs_choice(3, "keys")); key(o, "key_types"); strs(o, t.key_types, 1); key(o, "type"); str(o, t.type = chr()); d.tables.push_back(t); }); });
   mem(5, "ricardian_clauses", [&](size_t n) { list(o, n, [&] { clause_pair t; key(o, "id"); str(o, t.id = chr()); key(o, "body"); str(o, t.body = txt()); d.ricardian_clauses.push_back(t); }); });
   mem(6, "error_messages", [&](size_t n) { list(o, n, [&] {
      error_message t; key(o, "error_code");
      std::string c;
      for (int i = 0; i < 3; ++i) { c.push_back((char)vs_range(i ? '0' : '1', '9', "code")); t.error_code = t.error_code * 10 + (uint64_t)(c[i] - '0'); }
      c += "0000000000";   // needs more than 32 bits
      t.error_code *= 10000000000;
      for (size_t i = 0; i < 8; ++i) o.bin.push_back((char)(t.error_code >> 8 * i));
      o.json += "\"" + c + "\"";
      key(o, "error_msg"); str(o, t.error_msg = txt()); d.error_messages.push_back(t); }); });
   mem(7, "abi_extensions", [&](size_t n) {
      o.bin.push_back((char)n); o.json.push_back('[');
      for (size_t i = 0; i < n; ++i) {
         if (i) o.json.push_back(',');
         uint8_t a = (uint8_t)vs_range(10, 99, "x"), b = vs_u8("x");
         d.abi_extensions.push_back({ a, { (char)b } });
         o.bin += { (char)a, 0, 1, (char)b };
         static const char H[] = "0123456789ABCDEF";
         o.json += "[" + std::string{ (char)('0' + a / 10), (char)('0' + a % 10) } + ",\"" + std::string{ H[b >> 4], H[b & 15] } + "\"]";
      }
      o.json.push_back(']'); });
   front = o.bin.size();
   mem(8, "variants", [&](size_t n) { list(o, n, [&] { variant_def t; key(o, "name"); str(o, t.name = chr()); key(o, "types"); strs(o, t.types, vs_choice(3, "types")); d.variants.value.push_back(t); }); });
   o.json.push_back('}');
}
template <typename T, typename F>
static bool all(const std::vector<T>& a, const std::vector<T>& b, F f) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) r = both(r, f(a[i], b[i])); return r; }
static bool eq(const std::vector<std::string>& a, const std::vector<std::string>& b) { return all(a, b, [](auto& x, auto& y) { return same(x, y); }); }
static bool equal(const abi_def& a, const abi_def& b) {
   return same(a.version, b.version) && all(a.types, b.types, [](auto& x, auto& y) { return both(same(x.new_type_name, y.new_type_name), same(x.type, y.type)); }) &&
          all(a.structs, b.structs, [](auto& x, auto& y) { return both(both(same(x.name, y.name), same(x.base, y.base)), all(x.fields, y.fields, [](auto& p, auto& q) { return both(same(p.name, q.name), same(p.type, q.type)); })); }) &&
          all(a.actions, b.actions, [](auto& x, auto& y) { return both(both(x.name.value == y.name.value, same(x.type, y.type)), same(x.ricardian_contract, y.ricardian_contract)); }) &&
          all(a.tables, b.tables, [](auto& x, auto& y) { return both(both(both(x.name.value == y.name.value, same(x.type, y.type)), both(same(x.index_type, y.index_type), eq(x.key_names, y.key_names))), eq(x.key_types, y.key_types)); }) &&
          all(a.ricardian_clauses, b.ricardian_clauses, [](auto& x, auto& y) { return both(same(x.id, y.id), same(x.body, y.body)); }) &&
          all(a.error_messages, b.error_messages, [](auto& x, auto& y) { return both(x.error_code == y.error_code, same(x.error_msg, y.error_msg)); }) &&
          all(a.abi_extensions, b.abi_extensions, [](auto& x, auto& y) { return both(x.first == y.first, same(x.second, y.second)); }) &&
          all(a.variants.value, b.variants.value, [](auto& x, auto& y) { return both(same(x.name, y.name), eq(x.types, y.types)); });
}
extern "C" void h_document() {
   Doc     o;
   abi_def d, e, f, g;
   size_t  sec = 1 + vs_choice(8, "section"), omit = vs_choice(9, "omit");
   size_t  front = 0;   // end of what comes before the variants
   document(o, d, sec, vs_choice(3, "count"), omit, front);
   std::vector<char> b = vec(o.bin);
   bool              all_used = false;
   vs_assert(completes([&] { input_stream s(b); from_bin(e, s); all_used = s.pos == s.end; }) && all_used && equal(e, d), "binary read");
   vs_assert(same(convert_to_bin(d), b), "binary written");
   bool readable = omit == 7 || d.abi_extensions.empty();   // extensions are pairs, which have no JSON form
   vs_assert(parse_json(o.json, f) == readable, "JSON read");
   if (!readable) return vs_reach("extensions in JSON");
   abi_def h = d;
   switch (omit) {
   case 1: h.types.clear(); break;
   case 2: h.structs.clear(); break;
   case 3: h.actions.clear(); break;
   case 4: h.tables.clear(); break;
   case 5: h.ricardian_clauses.clear(); break;
   case 6: h.error_messages.clear(); break;
   case 7: h.abi_extensions.clear(); break;
   case 8: h.variants.value.clear(); break;
   }
   vs_assert(equal(f, h), "JSON contents");
   b.resize(front);
   d.variants.value.clear();
   vs_assert(completes([&] { input_stream s(b); from_bin(g, s); }) && equal(g, d), "variants may be missing at the end");
   b = vec(o.bin);
   if (omit) return vs_reach("document");
   b.resize(vs_choice(b.size(), "cut"));
   abi_def x;
   bool    ok = completes([&] { input_stream s(b); from_bin(x, s); });
   vs_assert(ok == (b.size() == front), "cut off binary refused");
   vs_reach("document");
}
// ---- definition of an ABI
extern "C" void h_back() {
   gen_ext = true;
   abi_def d, e;
   d.version = "eosio::abi/1.1";
   Ty   ty   = make_type(d, VS_Q(2, 3), false, VS_THOROUGH);
   bool open = true;
   JV   v    = make_value(ty, true, open);
   std::string bin, json, x, y;
   vs_assume(ref_bin(ty, v, true, true, bin));
   print(v, json);
   abi a, b;
   convert(d, a);
   a.get_type(ty.name);
   vs_assert(completes([&] { convert(a, e); }), "definition made");
   vs_assert(completes([&] { convert(e, b); }), "definition valid");
   const abi_type *s = a.get_type(ty.name), *t = nullptr;
   vs_assert(completes([&] { t = b.get_type(ty.name); }), "type kept");
   vs_assert(to_text(s, bin, x) && to_text(t, bin, y) && same(x, y), "same JSON");
   std::vector<char> o;
   vs_assert(to_bin_ordered(t, x, o) && same(o, vec(bin)), "same binary");
   vs_reach("same");
}
// ---- ABIs of C++ types
struct inner { uint8_t a; std::string b; };
EOSIO_REFLECT(inner, a, b)
struct derived : inner { std::vector<std::string> c; std::optional<uint8_t> d; inner e; };
EOSIO_REFLECT(derived, base inner, c, d, e)
struct outer { std::variant<uint16_t, int8_t, std::string> v; std::vector<uint8_t> w; derived x; symbol y; might_not_exist<std::string> z; };
EOSIO_REFLECT(outer, v, w, x, y, z)
extern "C" void h_reflected() {
   abi     a;
   abi_def d;
   convert(d, a);
   const abi_type* t = a.add_type<derived>();
   vs_assert(t == a.get_type("derived") && a.add_type<derived>() == t, "one type");
   derived v;
   v.a = vs_u8("a");
   v.b = txt();
   for (size_t n = vs_choice(3, "c"); n--;) v.c.push_back(txt());
   v.e = { (uint8_t)vs_range(10, 99, "a"), chr() };
   if (vs_choice(2, "d")) v.d = (uint8_t)vs_range(100, 255, "d");
   std::string       want = convert_to_json(v), got;
   std::vector<char> bin = convert_to_bin(v), x, y;
   vs_assert(to_text(t, std::string(bin.data(), bin.size()), got) && same(got, want), "same JSON");
   vs_assert(to_bin_ordered(t, want, x) && same(x, bin), "same binary");
   vs_assert(to_bin_any(t, want, y) && same(y, bin), "same binary (reorderable)");
   vs_reach("reflected");
}
extern "C" void h_reflected_extension() {
   abi     a;
   abi_def d;
   convert(d, a);
   const abi_type* t = a.add_type<outer>();
   outer v;
   switch (vs_choice(3, "v")) {
   case 0: v.v = (uint16_t)vs_range(1000, 9999, "v"); break;
   case 1: v.v = (int8_t)vs_range(10, 99, "v"); break;
   default: v.v = txt();
   }
   for (size_t n = vs_choice(3, "w"); n--;) v.w.push_back((uint8_t)vs_range(10, 99, "w"));
   v.x.a = 1;
   v.x.b = "in";
   v.y = symbol{ (uint64_t)vs_range('A', 'Z', "y") << 8 | 4 };
   bool z = vs_choice(2, "z");
   if (z) v.z.value = chr();
   std::vector<char> bin = convert_to_bin(v);
   std::string       got, body = convert_to_json(v.v);
   if (!z) bin.pop_back();
   std::string want = "{\"v\":" + body + ",\"w\":" + convert_to_json(v.w) + ",\"x\":" + convert_to_json(v.x) + ",\"y\":" + convert_to_json(v.y) + (z ? ",\"z\":\"" + v.z.value + "\"" : "") + "}";
   std::vector<char> b2;
   bool ok = to_text(t, std::string(bin.data(), bin.size()), got);
   vs_assert(ok, "read");
   vs_assert(same(got, want), "same JSON");
   vs_assert(to_bin_ordered(t, want, b2) && same(b2, bin), "same binary");
   vs_reach("extension");
}
// types the ABI format cannot express are refused
template <typename T> static bool expressible() {
   abi     a;
   abi_def d;
   convert(d, a);
   return completes([&] { a.add_type<T>(); });
}
struct twice { uint8_t a; might_not_exist<might_not_exist<uint16_t>> b; };
EOSIO_REFLECT(twice, a, b)
struct once { uint8_t a; might_not_exist<std::vector<uint16_t>> b; might_not_exist<std::optional<uint8_t>> c; };
EOSIO_REFLECT(once, a, b, c)
extern "C" void h_reflected_invalid() {
   vs_assert(!expressible<might_not_exist<might_not_exist<uint16_t>>>(), "extension of an extension");
   vs_assert(!expressible<might_not_exist<might_not_exist<inner>>>(), "extension of an extension of a struct");
   vs_assert(!expressible<might_not_exist<might_not_exist<std::vector<uint8_t>>>>(), "extension of an extension of an array");
   vs_assert(!expressible<twice>(), "extension of an extension in a struct");
   vs_assert(expressible<might_not_exist<uint16_t>>(), "extension");
   vs_assert(expressible<might_not_exist<inner>>(), "extension of a struct");
   vs_assert(expressible<might_not_exist<std::vector<uint8_t>>>(), "extension of an array");
   vs_assert(expressible<might_not_exist<std::optional<uint8_t>>>(), "extension of an optional");
   vs_assert(expressible<once>(), "extensions in a struct");
   // an entry already there with the expression given is refused as an element too
   abi     a;
   abi_def d;
   convert(d, a);
   static const char* const forms[] = { "uint8$", "uint8[]$", "uint8?$", "inner$", "derived$" };
   const char* f = forms[vs_choice(5, "form")];
   const abi_type* t = nullptr;
   a.add_type<might_not_exist<uint8_t>>();
   a.add_type<might_not_exist<std::vector<uint8_t>>>();
   a.add_type<might_not_exist<std::optional<uint8_t>>>();
   a.add_type<might_not_exist<inner>>();
   a.add_type<might_not_exist<derived>>();
   vs_assert(completes([&] { t = a.get_type(f); }) && t && t->extension_of() && t->name == f, "found by its expression");
   vs_assert(!completes([&] { a.get_type(std::string(f) + "$"); }), "no extension of it");
   vs_assert(!completes([&] { a.get_type(std::string(f) + "[]"); }), "no array of it");
   vs_assert(!completes([&] { a.get_type(std::string(f) + "?"); }), "no optional of it");
   vs_reach("invalid");
}
