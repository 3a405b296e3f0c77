// title: formatted JSON
// needs: crypto fpconv
// bounds-quick: structs in structs, vectors, optionals, variants, texts with every punctuation mark of JSON and arbitrary letters, numbers of one to three digits, up to four levels, up to 2 elements; the state-history messages in their minimal form, with everything present, and with any one place different
// bounds-thorough: up to 3 elements; any two places different
// outside: deeper nesting; texts of other characters (decided by another property for the same to_json)
// time-quick: 200
// time-thorough: 850
#include <eosio/types.hpp>
#include "types.hpp"
#include "ship.hpp"
// the layout: a line for every element and member, four spaces per level, a space after each colon; empty ones on one line
static std::string layout(const std::string& c) {
   std::string o;
   size_t      level = 0;
   bool        in_string = false;
   auto line = [&] { o.push_back('\n'); for (size_t i = 0; i < 4 * level; ++i) o.push_back(' '); };
   for (size_t i = 0; i < c.size(); ++i) {
      char x = c[i];
      if (in_string) {
         o.push_back(x);
         if (x == '\\') o.push_back(c[++i]);
         else if (x == '"') in_string = false;
         continue;
      }
      switch (x) {
      case '"': in_string = true; o.push_back(x); break;
      case '[': case '{':
         o.push_back(x);
         if (c[i + 1] == ']' || c[i + 1] == '}') { o.push_back(c[++i]); break; }
         ++level;
         line();
         break;
      case ']': case '}': --level; line(); o.push_back(x); break;
      case ',': o.push_back(x); line(); break;
      case ':': o.push_back(x); o.push_back(' '); break;
      default: o.push_back(x);
      }
   }
   return o;
}
template <typename T> static void check_layout(const T& v) {
   std::string c, f;
   vs_assert(completes([&] { c = eosio::convert_to_json(v); f = eosio::format_json(v); }), "written");
   vs_assert(same(f, layout(c)), "the formatted text is the compact one laid out in lines");
   vs_reach("layout");
}
template <typename T> static void check_read(const T& v) {
   std::string c = eosio::convert_to_json(v), f = eosio::format_json(v);
   T x, y;
   vs_assert(parse_json(c, x) && parse_json(f, y), "both texts are read");
   vs_assert(same(eosio::convert_to_json(x), c) && same(eosio::convert_to_json(y), c), "as the same value");
   vs_reach("read");
}
namespace vt {
struct item { std::string s; std::vector<std::string> v; std::optional<uint8_t> o; empty_t e; };
EOSIO_REFLECT(item, s, v, o, e)
struct bag { std::vector<uint8_t> l; };
EOSIO_REFLECT(bag, l)
struct tree { uint8_t a = 0; std::vector<item> b; std::variant<uint8_t, std::string, item, bag> c; std::optional<item> d; std::vector<std::vector<uint8_t>> e; };
EOSIO_REFLECT(tree, a, b, c, d, e)
}
static std::string piece() {
   static const char* const marks[] = { "", "{", "}", "[", "]", ",", ":", "\"", "\\", " ", "\n", "[]", "{\"", "\\\"", "//" };
   size_t k = vs_choice(16, "piece");
   return k == 15 ? std::string(1, (char)vs_range('a', 'z', "c")) : marks[k];
}
static std::string chr() { return std::string(1, (char)vs_range('a', 'z', "c")); }
static vt::item make_item(bool any_text) {
   vt::item i;
   i.s = any_text ? piece() : chr();
   for (size_t n = vs_choice(VS_Q(3, 4), "n"); n--;) i.v.push_back(chr());
   if (vs_choice(2, "o")) i.o = (uint8_t)vs_range(10, 99, "v");
   return i;
}
extern "C" void h_texts() {
   std::vector<std::string> v;
   for (size_t n = vs_choice(3, "n"); n--;) v.push_back(piece());
   check_layout(v);
   check_read(v);
}
extern "C" void h_item() {
   vt::item i = make_item(true);
   check_layout(i);
   check_read(i);
}
extern "C" void h_tree() {
   vt::tree t;
   t.a = (uint8_t)vs_range(0, 9, "v");
   for (size_t n = vs_choice(3, "n"); n--;) t.b.push_back(make_item(false));
   switch (vs_choice(4, "c")) {
   case 0: t.c = (uint8_t)vs_range(100, 255, "v"); break;
   case 1: t.c = chr(); break;
   case 2: t.c = make_item(false); break;
   default: t.c = vt::bag{ std::vector<uint8_t>(vs_choice(2, "n"), 7) };
   }
   if (vs_choice(2, "d")) t.d = vt::item{ chr(), {}, {}, {} };
   for (size_t n = vs_choice(VS_Q(2, 3), "n"); n--;) t.e.emplace_back(vs_choice(2, "m"), 5);
   check_layout(t);
}
extern "C" void h_tree_read() {
   vt::tree t;
   if (vs_choice(2, "b")) t.b.push_back(make_item(false));
   if (vs_choice(2, "c")) t.c = vt::bag{ std::vector<uint8_t>(vs_choice(3, "n"), 7) };
   if (vs_choice(2, "d")) t.d = vt::item{ chr(), {}, {}, {} };
   for (size_t n = vs_choice(3, "n"); n--;) t.e.emplace_back(vs_choice(2, "m"), 5);
   check_read(t);
}
// the state-history messages: their compact text is written down independently
template <typename T> static void message(Fn f) {
   G g;
   g.text  = true;
   g.usual = vs_choice(3, "usual");
   g.left  = VS_Q(1, 2);
   ship::depth = 0;
   f(g);
   std::vector<char> b(g.bin.data(), g.bin.data() + g.bin.size());
   std::string j;
   vs_assert(completes([&] { j = eosio::format_json(eosio::convert_from_bin<T>(b)); }) && same(j, layout(g.json)), "formatted message");
   vs_reach("message");
}
#define IT(T) message<eosio::ship_protocol::T>(ship::T)
extern "C" void h_messages() {
   switch (vs_choice(6, "type")) {
   case 0: IT(request); break;
   case 1: IT(action_trace); break;
   case 2: IT(table_delta); break;
   case 3: IT(transaction); break;
   case 4: IT(global_property); break;
   default: IT(resource_limits_config);
   }
}
