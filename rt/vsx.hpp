// small helpers shared by the harnesses
#pragma once
#include "vs.h"
#include <exception>
#include <string>
#include <string_view>
#include <vector>

#ifndef VS_THOROUGH
#define VS_THOROUGH 0
#endif
#define VS_Q(quick, thorough) (VS_THOROUGH ? (thorough) : (quick))

// run f; true if it completed, false if it threw a std::exception (anything else escapes and is a violation)
template <typename F>
bool completes(F&& f) {
   try {
      f();
      return true;
   } catch (const std::exception&) { return false; }
}
// n symbolic bytes
inline std::vector<char> sym_vec(size_t n, const char* name) {
   std::vector<char> v(n);
   if (n) vs_bytes(v.data(), n, name);
   return v;
}
inline std::string sym_str(size_t n, const char* name) {
   std::string s(n, '\0');
   if (n) vs_bytes(s.data(), n, name);
   return s;
}
inline bool same(std::string_view a, std::string_view b) { return a.size() == b.size() && vs_eq(a.data(), b.data(), a.size()); }
inline bool same(const std::vector<char>& a, const std::vector<char>& b) { return a.size() == b.size() && vs_eq(a.data(), b.data(), a.size()); }
inline void observe(std::string_view s, const char* n) { vs_observe(s.data(), s.size(), n); }
inline void observe(const std::vector<char>& s, const char* n) { vs_observe(s.data(), s.size(), n); }
// non-short-circuit connectives: keep conditions as one expression
inline bool both(bool a, bool b) { return (int)a & (int)b; }
inline bool either(bool a, bool b) { return (int)a | (int)b; }
