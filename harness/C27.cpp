// title: reflected structs: comparison, enumeration, conversion
// needs: crypto
// bounds-quick: all values of all numbers; texts and vectors of up to 2 elements (keys and signatures: two arbitrary bytes at chosen places); structs with inherited fields, nested structs, vectors and optionals of structs
// bounds-thorough: texts and vectors of up to 3 elements
// outside: longer texts and vectors
// time-quick: 200
// time-thorough: 800
#include "vsx.hpp"
#include <eosio/types.hpp>
#include "types.hpp"
#include <eosio/convert.hpp>
#include <eosio/operators.hpp>
#include <eosio/ship_protocol.hpp>
#include <eosio/types.hpp>
namespace cmp {
struct base { uint16_t a = 0; int8_t b = 0; };
EOSIO_REFLECT(base, a, b)
EOSIO_COMPARE(base);
struct mid : base { uint64_t c = 0; std::string d; };
EOSIO_REFLECT(mid, base base, c, d)
EOSIO_COMPARE(mid);
struct top { uint8_t a = 0; base b; std::vector<base> c; std::optional<uint16_t> d; int32_t e = 0; };
EOSIO_REFLECT(top, a, b, c, d, e)
EOSIO_COMPARE(top);
struct nothing {};
EOSIO_REFLECT(nothing)
EOSIO_COMPARE(nothing);
}
// the order of one field: -1, 0, 1
struct Ord { bool lt, eq; };
template <typename T> static Ord num(const T& a, const T& b) { return { a < b, a == b }; }
static Ord then(Ord x, Ord y) { return { either(x.lt, both(x.eq, y.lt)), both(x.eq, y.eq) }; }
template <typename C, typename F> static Ord seq(const C& a, const C& b, F f) {
   Ord    r{ false, true };
   size_t n = a.size() < b.size() ? a.size() : b.size();
   for (size_t i = 0; i < n; ++i) r = then(r, f(a[i], b[i]));
   return then(r, { a.size() < b.size(), a.size() == b.size() });
}
static Ord ord(const cmp::base& a, const cmp::base& b) { return then(num(a.a, b.a), num(a.b, b.b)); }
static Ord str(const std::string& a, const std::string& b) { return seq(a, b, [](char x, char y) { return num((uint8_t)x, (uint8_t)y); }); }
static Ord chars(char x, char y) { return num(x, y); }
template <typename T> static void check(const T& a, const T& b, Ord o) {
   vs_assert((a == b) == o.eq, "equal iff all fields are");
   vs_assert((a != b) == !o.eq, "!=");
   vs_assert((a < b) == o.lt, "the first field that differs decides");
   vs_assert((a > b) == !either(o.lt, o.eq), ">");
   vs_assert((a <= b) == either(o.lt, o.eq), "<=");
   vs_assert((a >= b) == !o.lt, ">=");
   vs_reach("compared");
}
static std::string txt() { return sym_str(vs_choice(VS_Q(3, 4), "len"), "c"); }
static cmp::base base() { cmp::base r; r.a = vs_u16("a"); r.b = (int8_t)vs_u8("b"); return r; }
extern "C" void h_base() { cmp::base a = base(), b = base(); check(a, b, ord(a, b)); }
extern "C" void h_mid() {
   cmp::mid a, b;
   (cmp::base&)a = base();
   (cmp::base&)b = base();
   a.c = vs_u64("c"); b.c = vs_u64("c");
   a.d = txt(); b.d = txt();
   check(a, b, then(ord((cmp::base&)a, (cmp::base&)b), then(num(a.c, b.c), str(a.d, b.d))));
}
extern "C" void h_nested() {
   cmp::top a, b;
   for (auto* t : { &a, &b }) {
      t->a = vs_u8("a");
      t->b = base();
      t->e = (int32_t)vs_u32("e");
      for (size_t n = vs_choice(VS_Q(2, 3), "n"); n--;) t->c.push_back(base());
      if (vs_choice(2, "d")) t->d = vs_u16("d");
   }
   Ord d = a.d && b.d ? num(*a.d, *b.d) : num((bool)a.d, (bool)b.d);
   check(a, b, then(num(a.a, b.a), then(ord(a.b, b.b), then(seq(a.c, b.c, [](auto& x, auto& y) { return ord(x, y); }), then(d, num(a.e, b.e))))));
   cmp::nothing x, y;
   check(x, y, { false, true });
}
extern "C" void h_chain() {
   using namespace eosio;
   switch (vs_choice(7, "type")) {
   case 0: { ship_protocol::account_delta a, b; a.account.value = vs_u64("n"); b.account.value = vs_u64("n"); a.delta = (int64_t)vs_u64("d"); b.delta = (int64_t)vs_u64("d"); check(a, b, then(num(a.account.value, b.account.value), num(a.delta, b.delta))); break; }
   case 1: { ship_protocol::account_auth_sequence a, b; a.account.value = vs_u64("n"); b.account.value = vs_u64("n"); a.sequence = vs_u64("d"); b.sequence = vs_u64("d"); check(a, b, then(num(a.account.value, b.account.value), num(a.sequence, b.sequence))); break; }
   case 2: { time_point a, b; a.elapsed._count = (int64_t)vs_u64("t"); b.elapsed._count = (int64_t)vs_u64("t"); check(a, b, num(a.elapsed._count, b.elapsed._count)); check(a.elapsed, b.elapsed, num(a.elapsed._count, b.elapsed._count)); break; }
   case 3: { time_point_sec a, b; a.utc_seconds = vs_u32("t"); b.utc_seconds = vs_u32("t"); check(a, b, num(a.utc_seconds, b.utc_seconds)); break; }
   case 4: { symbol_code a{ vs_u64("s") }, b{ vs_u64("s") }; check(a, b, num(a.raw(), b.raw())); symbol c{ vs_u64("s") }, d{ vs_u64("s") }; check(c, d, num(c.raw(), d.raw())); break; }
   case 5: { extended_symbol a{ symbol{ vs_u64("s") }, name{ vs_u64("n") } }, b{ symbol{ vs_u64("s") }, name{ vs_u64("n") } }; check(a, b, then(num(a.sym.raw(), b.sym.raw()), num(a.contract.value, b.contract.value))); break; }
   default: { bytes a, b; a.data = sym_vec(vs_choice(VS_Q(3, 4), "len"), "c"); b.data = sym_vec(vs_choice(VS_Q(3, 4), "len"), "c"); check(a, b, seq(a.data, b.data, chars)); }
   }
}
extern "C" void h_keys() {
   using namespace eosio;
   if (vs_choice(2, "kind")) {
      webauthn_public_key a, b;
      size_t p = vs_choice(3, "place") * 16;
      for (size_t i = 0; i < 33; ++i) a.key[i] = b.key[i] = (char)(3 * i);
      a.key[p] = (char)vs_u8("k"); b.key[p] = (char)vs_u8("k");
      a.user_presence = (decltype(a.user_presence))vs_u8("p"); b.user_presence = (decltype(a.user_presence))vs_u8("p");
      a.rpid = txt(); b.rpid = txt();
      check(a, b, then(num(a.key[p], b.key[p]), then(num((uint8_t)a.user_presence, (uint8_t)b.user_presence), str(a.rpid, b.rpid))));
   } else {
      webauthn_signature a, b;
      size_t p = vs_choice(3, "place") * 32;
      for (size_t i = 0; i < 65; ++i) a.compact_signature[i] = b.compact_signature[i] = (char)(3 * i);
      a.compact_signature[p] = (char)vs_u8("k"); b.compact_signature[p] = (char)vs_u8("k");
      for (size_t n = vs_choice(2, "len"); n--;) a.auth_data.push_back(vs_u8("c")); for (size_t n = vs_choice(2, "len"); n--;) b.auth_data.push_back(vs_u8("c"));
      a.client_json = txt(); b.client_json = txt();
      check(a, b, then(num(a.compact_signature[p], b.compact_signature[p]), then(seq(a.auth_data, b.auth_data, num<uint8_t>), str(a.client_json, b.client_json))));
   }
}
// ---- enumeration of the fields
struct counter {
   std::string names;
   uint64_t    sum = 0;
   template <typename T> void add(const T& v) { if constexpr (std::is_arithmetic_v<T>) sum = sum * 3 + (uint64_t)v; else sum = sum * 3 + 1; }
};
extern "C" void h_fields() {
   cmp::mid m;
   (cmp::base&)m = base();
   m.c = vs_u64("c");
   m.d = "x";
   counter c, d, e;
   eosio::for_each_field<cmp::mid>([&](const char* n, auto&& member) { c.names += n; c.names += ","; c.add(member(&m)); });
   vs_assert(c.names == "a,b,c,d,", "inherited fields first, all in order, each once");
   uint64_t want = (((uint64_t)m.a * 3 + (uint64_t)(int64_t)m.b) * 3 + m.c) * 3 + 1;
   vs_assert(c.sum == want, "the values of the fields");
   eosio::for_each_field(m, [&](auto& f) { d.add(f); });
   const cmp::mid& k = m;
   eosio::for_each_field(k, [&](auto& f) { e.add(f); });
   vs_assert(d.sum == want && e.sum == want, "the values of the fields of an object");
   uint16_t a = m.a; uint64_t cc = m.c;
   eosio::for_each_field(m, [&](auto& f) { if constexpr (std::is_integral_v<std::decay_t<decltype(f)>>) f ^= 1; else f += "y"; });
   vs_assert(both(both(m.a == (a ^ 1), m.c == (cc ^ 1)), m.d == "xy"), "fields can be changed");
   size_t n = 0;
   eosio::for_each_field<cmp::nothing>([&](const char*, auto&&) { ++n; });
   vs_assert(n == 0, "no fields");
   vs_reach("fields");
}
// ---- conversion between versions of a struct
namespace cnv {
struct in1 { uint8_t x = 0; uint16_t y = 0; };
EOSIO_REFLECT(in1, x, y)
struct in2 { uint16_t y = 0; uint32_t z = 0; uint8_t x = 0; };
EOSIO_REFLECT(in2, y, z, x)
struct old_t { uint8_t a = 0; in1 b; std::vector<in1> c; std::optional<in1> d; uint64_t gone = 0; eosio::varuint32 n; };
EOSIO_REFLECT(old_t, a, b, c, d, gone, n)
struct new_t { uint32_t added = 0; std::vector<in2> c; in2 b; std::optional<in2> d; uint32_t n = 0; uint8_t a = 0; };
EOSIO_REFLECT(new_t, added, c, b, d, n, a)
struct same1 { uint8_t a = 0; std::string s; };
EOSIO_REFLECT(same1, a, s)
struct same2 { std::string s; uint8_t a = 0; };
EOSIO_REFLECT(same2, s, a)
eosio::widening_conversion  conversion_kind(in1, in2);
eosio::narrowing_conversion conversion_kind(in2, in1);
eosio::narrowing_conversion conversion_kind(old_t, new_t);
eosio::strict_conversion    conversion_kind(same1, same2);
static_assert(std::is_same_v<eosio::conversion_kind_t<same2, same1>, eosio::strict_conversion>);
static_assert(std::is_same_v<eosio::conversion_kind_t<new_t, old_t>, eosio::widening_conversion>);
}
static cnv::in1 in1() { return { vs_u8("x"), vs_u16("y") }; }
static bool is(const cnv::in1& a, const cnv::in2& b) { return both(a.x == b.x, a.y == b.y); }
extern "C" void h_convert() {
   cnv::old_t o;
   o.a = vs_u8("a");
   o.b = in1();
   for (size_t n = vs_choice(VS_Q(3, 4), "n"); n--;) o.c.push_back(in1());
   if (vs_choice(2, "d")) o.d = in1();
   o.gone = vs_u64("g");
   o.n = vs_u32("n");
   cnv::new_t w;
   w.added = vs_u32("added");
   uint32_t added = w.added;
   w.b.z = 77;
   bool was = vs_choice(2, "was"); if (was) { w.d = cnv::in2{}; w.d->z = 5; w.c.resize(1); }
   eosio::convert(o, w, eosio::choose_first);
   vs_assert(w.a == o.a && is(o.b, w.b) && w.n == o.n.value, "fields keep their values by name");
   vs_assert(w.added == added && w.b.z == 77, "fields without a source stay as they were");
   vs_assert(w.c.size() == o.c.size() && (bool)w.d == (bool)o.d, "same elements");
   for (size_t i = 0; i < o.c.size(); ++i) vs_assert(is(o.c[i], w.c[i]) && w.c[i].z == 0, "elements converted in order");
   if (o.d) vs_assert(is(*o.d, *w.d) && w.d->z == 0, "optional converted");
   cnv::in2 x{ vs_u16("y"), vs_u32("z"), vs_u8("x") };
   cnv::in1 y;
   eosio::convert(x, y, eosio::choose_second);
   vs_assert(is(y, x), "narrowed");
   cnv::same1 s{ vs_u8("a"), txt() };
   cnv::same2 t;
   eosio::convert(s, t, eosio::choose_first);
   vs_assert(t.a == s.a && same(t.s, s.s), "reordered");
   std::variant<cnv::in1, cnv::in2> v;
   if (vs_choice(2, "v")) v = x; else v = in1();
   cnv::in2 r{ 1, 2, 3 };
   eosio::convert(v, r, eosio::choose_first);
   if (v.index()) vs_assert(r.x == x.x && r.y == x.y && r.z == x.z, "variant of the same type");
   else vs_assert(is(std::get<0>(v), r) && r.z == 2, "variant of another type");
   std::vector<char> raw = sym_vec(vs_choice(3, "raw"), "r"), out(2, 'q');
   eosio::input_stream in{ raw };
   eosio::convert(in, out, eosio::choose_first);
   vs_assert(same(out, raw), "stream contents");
   vs_reach("converted");
}
