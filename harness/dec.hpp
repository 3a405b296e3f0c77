// decimal texts by class, so that values and digits stay linked without search
#pragma once
#include "vsx.hpp"
typedef unsigned __int128 u128;
static std::string dec(u128 v) { std::string s; do { s.insert(s.begin(), (char)('0' + (unsigned)(v % 10))); v /= 10; } while (v); return s; }
// every digit string of length len, as a union over (position of the first difference from the padded maximum, direction)
// cls: 0 = below or equal the maximum, 1 = above
static std::string digits(size_t len, const std::string& max, bool lead0, int& cls, bool& empty) {
   std::string m = max.size() < len ? std::string(len - max.size(), '0') + max : max;
   std::string s;
   empty = false;
   if (m.size() > len) {   // fewer digits than the maximum: always below
      for (size_t i = 0; i < len; ++i) s.push_back((char)vs_range(i == 0 && len > 1 && !lead0 ? '1' : '0', '9', "d"));
      cls = 0;
      return s;
   }
   size_t k = vs_choice(len + 1, "k");
   bool   up = k < len && vs_choice(2, "up");
   cls = up;
   s   = m.substr(0, k);
   if (up && k == 0 && m[0] == '0' && len > 1) {   // one digit more than the maximum, not zero: classify the text without its last digit
      int c2;
      s = digits(len - 1, max, false, c2, empty);
      s.push_back((char)vs_range('0', '9', "d"));
      return s;
   }
   if (k < len) {
      int lo = up ? m[k] + 1 : '0', hi = up ? '9' : m[k] - 1;
      if (k == 0 && len > 1 && !lead0 && lo == '0') lo = '1';
      if (lo > hi) { empty = true; return s; }
      s.push_back((char)vs_range(lo, hi, "d"));
      while (s.size() < len) s.push_back((char)vs_range('0', '9', "d"));
   }
   if (!lead0 && len > 1 && s[0] == '0') empty = true;
   return s;
}
static u128 value(const std::string& s) { u128 v = 0; for (char c : s) v = v * 10 + (u128)(uint8_t)(c - '0'); return v; }
