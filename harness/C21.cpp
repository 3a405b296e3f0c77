// title: ordered and reorderable JSON
// needs: abi crypto fpconv
// bounds-quick: every ABI type built from an integer and a string by structs, variants, aliases, arrays and optionals nested up to 2 deep, arbitrary leaf contents, 0..2 elements; every value as written, and with one change at every place: replaced by null, true, a number, a string, {}, [] or a pair; a field left out, added in front or behind, given twice, the fields reversed; an element dropped or repeated; a value of every kind of type followed by every text of up to 2 bytes
// bounds-thorough: the same, nested up to 3 deep
// outside: more than one change; whitespace inside a value; deeper nesting; binary extensions (C22)
// samples: 4
// time-quick: 200
// time-thorough: 800
#include "abiref.hpp"
using namespace eosio;
extern "C" void h_change() {
   abi_def d;
   d.version = "eosio::abi/1.1";
   Ty   ty   = make_type(d, VS_Q(2, 3));
   bool open = true;
   JV   v    = make_value(ty, true, open);
   if (vs_choice(2, "changed")) modify(v);
   abi a;
   convert(d, a);
   check_both(a.get_type(ty.name), ty, v, "accepted");
}

// the text is the value and nothing else, apart from white space
extern "C" void h_tail() {
   abi_def d;
   d.version = "eosio::abi/1.1";
   d.structs.push_back({ "s", "", { { "k", "uint8" } } });
   d.structs.push_back({ "e", "", {} });
   d.variants.value.push_back({ "v", { "uint8", "s" } });
   abi a;
   convert(d, a);
   static const struct { const char* type; const char* json; std::vector<char> bin; } cs[] = {
      { "uint8", "7", { 7 } },       { "string", "\"a\"", { 1, 'a' } }, { "bool", "true", { 1 } },    { "uint8[]", "[7]", { 1, 7 } }, { "uint8[]", "[]", { 0 } },
      { "uint8?", "null", { 0 } },   { "s", "{\"k\":7}", { 7 } },       { "e", "{}", {} },            { "v", "[\"s\",{\"k\":7}]", { 1, 7 } },
      { "s?", "{\"k\":7}", { 1, 7 } },
   };
   auto&       c = cs[vs_choice(sizeof(cs) / sizeof(cs[0]), "case")];
   std::string before = sym_str(vs_choice(2, "nb"), "b"), after = sym_str(vs_choice(VS_Q(3, 4), "na"), "a");
   bool        ok = true;
   auto        ws = [](unsigned char ch) { return bool(unsigned(ch == ' ') | unsigned(ch == 9) | unsigned(ch == 10) | unsigned(ch == 13)); };
   for (unsigned char ch : before) { vs_assume(ch != 0); ok &= ws(ch); }
   for (unsigned char ch : after) { vs_assume(ch != 0); ok &= ws(ch); }
   if (!before.empty()) vs_assume(before[0] != '"' && before[0] != '-' && !(before[0] >= '0' && before[0] <= '9'));
   if (!after.empty()) vs_assume(!(after[0] >= '0' && after[0] <= '9') && after[0] != '.' && after[0] != 'e' && after[0] != 'E');
   std::vector<char> x, y;
   auto              t    = a.get_type(c.type);
   std::string       json = before + c.json + after;
   bool              go = to_bin_ordered(t, json, x), gr = to_bin_any(t, json, y);
   vs_assert(go == ok, "text around the value is refused unless it is white space");
   vs_assert(gr == ok, "text around the value is refused unless it is white space (reorderable)");
   if (ok) {
      vs_assert(same(x, c.bin), "binary");
      vs_assert(same(y, c.bin), "binary (reorderable)");
      vs_reach("white space");
   } else
      vs_reach("other text");
}
