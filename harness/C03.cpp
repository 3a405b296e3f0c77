// title: Name length, prefix, suffix and ordering follow the text
// bounds: every 64-bit name value (pairs of values for the ordering)
// outside: nothing within the 64-bit name domain
#include "vsx.hpp"
#include <eosio/name.hpp>
using namespace eosio;

extern "C" void h_length() {
   name        n{ vs_u64("v") };
   std::string s = n.to_string();
   vs_observe_u64(n.length(), "length");
   vs_assert(n.length() == s.size(), "length differs from the length of the text");
   vs_reach("length");
}
// position of the last dot of the text; forks over the (at most 13) positions
static size_t last_dot(const std::string& s) {
   for (size_t i = s.size(); i-- > 0;)
      if (s[i] == '.') return i;
   return std::string::npos;
}
extern "C" void h_suffix() {
   name        n{ vs_u64("v") };
   std::string s   = n.to_string();
   size_t      dot = last_dot(s);
   std::string e   = dot == std::string::npos ? s : s.substr(dot + 1);
   observe(e, "suffix");
   vs_assert(same(n.suffix().to_string(), e), "suffix is not the text after the last dot");
   if (dot == std::string::npos) vs_reach("suffix without dot"); else vs_reach("suffix with dot");
}
extern "C" void h_prefix() {
   name        n{ vs_u64("v") };
   std::string s   = n.to_string();
   size_t      dot = last_dot(s);
   std::string e   = dot == std::string::npos ? s : s.substr(0, dot);
   while (!e.empty() && e.back() == '.') e.pop_back();
   observe(e, "prefix");
   vs_assert(same(n.prefix().to_string(), e), "prefix is not the text before the last dot");
   if (dot == std::string::npos) vs_reach("prefix without dot"); else vs_reach("prefix with dot");
}
// ordering of values is the lexicographic ordering of the dot-padded texts
extern "C" void h_order() {
   name        a{ vs_u64("a") }, b{ vs_u64("b") };
   std::string s = a.to_string(), t = b.to_string();
   s.resize(13, '.');
   t.resize(13, '.');
   bool lt = false, eq = true;
   for (int i = 0; i < 13; ++i) {
      lt = either(lt, both(eq, s[i] < t[i]));
      eq = both(eq, s[i] == t[i]);
   }
   vs_assert((a < b) == lt, "operator<");
   vs_assert((a == b) == eq, "operator==");
   vs_assert((a != b) == !eq, "operator!=");
   vs_assert((a > b) == !either(lt, eq), "operator>");
   vs_assert((a <= b) == either(lt, eq), "operator<=");
   vs_assert((a >= b) == !lt, "operator>=");
   vs_reach("order");
}
