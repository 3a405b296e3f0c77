// JSON values, one modification of them, and an independent conversion of JSON values to binary by the rules of the ABI
#pragma once
#include "abigen.hpp"
struct JV {
   enum K { NUL, BOOL, STR, NUMBER, OBJ, ARR } k = NUL;
   std::string              s;             // text of a string or number
   bool                     digits = false;  // the text is a number from 0 to 99 without superfluous zeros
   std::vector<JV>          sub;
   std::vector<std::string> key;
};
static JV jv(JV::K k, std::string s = "", bool digits = false) { JV v; v.k = k; v.s = s; v.digits = digits; return v; }
static void print(const JV& v, std::string& o) {
   switch (v.k) {
   case JV::NUL: o += "null"; break;
   case JV::BOOL: o += "true"; break;
   case JV::STR: o += "\"" + v.s + "\""; break;
   case JV::NUMBER: o += v.s; break;
   default:
      o.push_back(v.k == JV::OBJ ? '{' : '[');
      for (size_t i = 0; i < v.sub.size(); ++i) {
         if (i) o.push_back(',');
         if (v.k == JV::OBJ) o += "\"" + v.key[i] + "\":";
         print(v.sub[i], o);
      }
      o.push_back(v.k == JV::OBJ ? '}' : ']');
   }
}
// a value of the type; extensions may be left out where the rules allow it
static JV make_value(const Ty& t, bool allow, bool& open) {   // open: nothing was left out yet
   JV v;
   switch (t.kind) {
   case Ty::NUM: {
      std::string s;
      s.push_back((char)vs_range('1', '9', "v"));
      s.push_back((char)vs_range('0', '9', "v"));
      return jv(JV::NUMBER, s, true);
   }
   case Ty::STR: return jv(JV::STR, std::string(1, (char)vs_range('a', 'z', "c")));
   case Ty::STRUCT:
      v.k = JV::OBJ;
      for (size_t i = 0; i < t.sub.size(); ++i) {
         if (t.sub[i].kind == Ty::EXT && allow && vs_choice(2, "omit")) { open = false; break; }
         JV f = make_value(t.sub[i], allow && i + 1 == t.sub.size(), open);
         v.key.push_back(t.label[i]);
         v.sub.push_back(f);
      }
      return v;
   case Ty::VARIANT: {
      size_t i = vs_choice(2, "alternative");
      v.k = JV::ARR;
      v.sub.push_back(jv(JV::STR, t.sub[i].name));
      v.sub.push_back(make_value(t.sub[i], allow, open));
      return v;
   }
   case Ty::ARRAY:
      v.k = JV::ARR;
      for (size_t n = vs_choice(3, "count"); n--;) v.sub.push_back(make_value(t.sub[0], false, open));
      return v;
   case Ty::OPT: return vs_choice(2, "present") ? make_value(t.sub[0], allow, open) : v;
   default: return make_value(t.sub[0], allow, open);
   }
}
static size_t nodes(const JV& v) { size_t n = 1; for (auto& x : v.sub) n += nodes(x); return n; }
static JV* node(JV& v, size_t& i) {
   if (i == 0) return &v;
   --i;
   for (auto& x : v.sub) if (JV* r = node(x, i)) return r;
   return nullptr;
}
static JV other(size_t i) {
   JV v;
   switch (i) {
   case 0: return v;
   case 1: return jv(JV::BOOL);
   case 2: return jv(JV::NUMBER, "7", true);
   case 3: return jv(JV::STR, "ab");
   case 4: return jv(JV::OBJ);
   case 5: return jv(JV::ARR);
   default: v = jv(JV::ARR); v.sub = { jv(JV::STR, "int8"), jv(JV::NUMBER, "5", true) }; return v;
   }
}
static void modify(JV& v) {
   size_t i = vs_choice(nodes(v), "node");
   JV&    x = *node(v, i);
   size_t n = x.sub.size(), own = x.k == JV::OBJ && n ? n + 4 : x.k == JV::ARR && n ? 2 : 0, m = vs_choice(7 + own, "change");
   if (m >= own) { x = other(m - own); return; }
   if (x.k == JV::ARR) {
      if (m == 0) x.sub.pop_back(); else x.sub.push_back(JV(x.sub[0]));
   } else if (m < n) { x.sub.erase(x.sub.begin() + m); x.key.erase(x.key.begin() + m); }
   else if (m == n) { x.sub.push_back(jv(JV::NUMBER, "3", true)); x.key.push_back("z"); }
   else if (m == n + 1) { x.sub.insert(x.sub.begin(), jv(JV::STR, "q")); x.key.insert(x.key.begin(), "w"); }
   else if (m == n + 2) { x.sub.insert(x.sub.begin(), jv(JV::STR, "q")); x.key.insert(x.key.begin(), std::string(x.key[n - 1])); }
   else { std::reverse(x.sub.begin(), x.sub.end()); std::reverse(x.key.begin(), x.key.end()); }
}
// the rules
static bool ref_bin(const Ty& t, const JV& v, bool ordered, bool allow, std::string& bin) {
   switch (t.kind) {
   case Ty::NUM: {
      if ((v.k != JV::NUMBER && v.k != JV::STR) || !v.digits) return false;
      uint8_t n = 0;
      for (char c : v.s) n = (uint8_t)(n * 10 + (c - '0'));
      bin.push_back((char)n);
      return true;
   }
   case Ty::STR:
      if (v.k != JV::NUMBER && v.k != JV::STR) return false;
      bin.push_back((char)v.s.size());
      bin += v.s;
      return true;
   case Ty::STRUCT: {
      if (v.k != JV::OBJ) return false;
      size_t used = 0, n = t.sub.size(), left = n;   // left: first field left out
      for (size_t i = 0; i < n; ++i) {
         size_t at = v.sub.size();
         if (ordered) { if (i < v.sub.size() && v.key[i] == t.label[i]) at = i; }
         else for (size_t k = 0; k < v.sub.size(); ++k) if (v.key[k] == t.label[i]) at = k;   // the last one counts
         if (at == v.sub.size()) {
            if (!(t.sub[i].kind == Ty::EXT && allow)) return false;
            if (left == n) left = i;
            continue;
         }
         if (left != n) return false;   // nothing may follow a field left out
         ++used;
         if (!ref_bin(t.sub[i], v.sub[at], ordered, allow && i + 1 == n, bin)) return false;
      }
      return !ordered || used == v.sub.size();
   }
   case Ty::VARIANT:
      if (v.k != JV::ARR || v.sub.size() != 2 || v.sub[0].k != JV::STR) return false;
      for (size_t i = 0; i < t.sub.size(); ++i)
         if (v.sub[0].s == t.sub[i].name) { bin.push_back((char)i); return ref_bin(t.sub[i], v.sub[1], ordered, allow, bin); }
      return false;
   case Ty::ARRAY:
      if (v.k != JV::ARR) return false;
      bin.push_back((char)v.sub.size());
      for (auto& x : v.sub) if (!ref_bin(t.sub[0], x, ordered, false, bin)) return false;
      return true;
   case Ty::OPT:
      if (v.k == JV::NUL) { bin.push_back(0); return true; }
      bin.push_back(1);
      return ref_bin(t.sub[0], v, ordered, allow, bin);
   default: return ref_bin(t.sub[0], v, ordered, allow, bin);
   }
}
static void check_both(const eosio::abi_type* t, const Ty& ty, const JV& v, const char* reach) {
   std::string       json, ob, rb;
   std::vector<char> x, y;
   print(v, json);
   bool o = ref_bin(ty, v, true, true, ob), r = ref_bin(ty, v, false, true, rb);
   bool go = to_bin_ordered(t, json, x), gr = to_bin_any(t, json, y);
   vs_assert(go == o, "accepted in order iff right");
   vs_assert(gr == r, "accepted in any order iff right");
   if (o) vs_assert(same(x, vec(ob)), "binary");
   if (r) vs_assert(same(y, vec(rb)), "binary (reorderable)");
   if (o) vs_reach(reach);
}
