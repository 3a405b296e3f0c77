// title: binary extensions
// needs: abi crypto fpconv
// bounds-quick: every ABI type built from an integer and a string by structs, variants, aliases, arrays and optionals nested up to 2 deep, whose structs have no, one or two extension fields ($) at the end, or one in front of another field; every value with every choice of extensions left out, in both JSON forms and in binary; the same changes to the JSON as in C21; binary forms cut off after every byte
// bounds-thorough: the same, nested up to 3 deep
// outside: more than one change; extensions in base structs; deeper nesting
// samples: 4
// time-quick: 200
// time-thorough: 800
#include "abiref.hpp"
using namespace eosio;
extern "C" void h_change() {
   gen_ext = true;
   abi_def d;
   d.version = "eosio::abi/1.1";
   Ty   ty   = make_type(d, VS_Q(2, 3), false, VS_THOROUGH);
   bool open = true;
   JV   v    = make_value(ty, true, open);
   if (vs_choice(2, "changed")) modify(v);
   abi a;
   convert(d, a);
   check_both(a.get_type(ty.name), ty, v, "accepted");
}
// binary: reads back to JSON exactly when it ends with the value or where only extensions are missing
static bool ref_text(const Ty& t, const std::string& b, size_t& p, bool allow, std::string& j) {
   switch (t.kind) {
   case Ty::NUM:
      if (p == b.size()) return false;
      j.push_back((char)('0' + (uint8_t)b[p] / 10));
      j.push_back((char)('0' + (uint8_t)b[p++] % 10));
      return true;
   case Ty::STR: {
      if (p == b.size()) return false;
      size_t n = (uint8_t)b[p++];
      if (b.size() - p < n) return false;
      j += "\"" + b.substr(p, n) + "\"";
      p += n;
      return true;
   }
   case Ty::STRUCT: {
      j.push_back('{');
      bool first = true;
      for (size_t i = 0; i < t.sub.size(); ++i) {
         if (p == b.size() && t.sub[i].kind == Ty::EXT && allow) continue;
         if (!first) j.push_back(',');
         first = false;
         j += "\"" + t.label[i] + "\":";
         if (!ref_text(t.sub[i], b, p, allow && i + 1 == t.sub.size(), j)) return false;
      }
      j.push_back('}');
      return true;
   }
   case Ty::VARIANT: {
      if (p == b.size()) return false;
      size_t i = (uint8_t)b[p++];
      if (i >= t.sub.size()) return false;
      j += "[\"" + t.sub[i].name + "\",";
      if (!ref_text(t.sub[i], b, p, allow, j)) return false;
      j.push_back(']');
      return true;
   }
   case Ty::ARRAY: {
      if (p == b.size()) return false;
      size_t n = (uint8_t)b[p++];
      j.push_back('[');
      for (size_t i = 0; i < n; ++i) { if (i) j.push_back(','); if (!ref_text(t.sub[0], b, p, false, j)) return false; }
      j.push_back(']');
      return true;
   }
   case Ty::OPT:
      if (p == b.size()) return false;
      if (!b[p++]) { j += "null"; return true; }
      return ref_text(t.sub[0], b, p, allow, j);
   default: return ref_text(t.sub[0], b, p, allow, j);
   }
}
extern "C" void h_cut() {
   gen_ext = true;
   abi_def d;
   d.version = "eosio::abi/1.1";
   Ty   ty   = make_type(d, VS_Q(2, 3), false, VS_THOROUGH);
   bool open = true;
   JV   v    = make_value(ty, true, open);
   std::string bin, want, got, back;
   vs_assume(ref_bin(ty, v, true, true, bin));
   bin.resize(vs_choice(bin.size() + 1, "cut"));
   abi a;
   convert(d, a);
   const abi_type* t = a.get_type(ty.name);
   size_t p = 0;
   bool ok = ref_text(ty, bin, p, true, want) && p == bin.size();
   bool rok = to_text(t, bin, got);
   vs_assert(rok == ok, "accepted iff only extensions are missing");
   if (ok) {
      vs_assert(same(got, want), "JSON");
      std::vector<char> x, y;
      vs_assert(to_bin_ordered(t, got, x) && same(x, vec(bin)), "back");
      vs_assert(to_bin_any(t, got, y) && same(y, vec(bin)), "back (reorderable)");
      vs_reach("complete");
   } else vs_reach("incomplete");
}
