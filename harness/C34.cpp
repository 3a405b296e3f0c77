// title: checks and their messages
// needs: fpconv
// bounds-quick: every condition; messages of up to 6 arbitrary bytes other than NUL; codes of every number of digits with 4 free digits; every enumerator of both kinds of errors
// bounds-thorough: as quick, messages of up to 16 bytes, codes with 6 free digits
// outside: longer messages; which error a failing conversion reports (only that it fails)
// time-quick: 100
// time-thorough: 300
#include <eosio/types.hpp>
#include "types.hpp"
#include "json.hpp"
#include <cstring>
using namespace eosio;
static const size_t N = VS_Q(6, 16);
// the outcome of f: 0 completed, 1 a runtime_error with exactly this message
template <typename F> static void outcome(bool ok, std::string_view m, F f) {
   bool done = false;
   try {
      f();
      done = true;
   } catch (const std::runtime_error& e) {
      const char* w = e.what();
      vs_assert(vs_eq(w, m.data(), m.size()) && w[m.size()] == 0, "the message");
      vs_reach("failed");
   }
   if (done) vs_reach("passed");
   vs_assert(done == ok, "fails exactly when false");
}
extern "C" void h_texts() {
   bool        p = vs_u8("p") & 1;
   uint32_t    n = vs_choice(N + 1, "n"), form = vs_choice(6, "form");
   std::string s = sym_str(n, "s");
   size_t      k = vs_choice(n + 3, "k");
   for (char c : s) vs_assume(c != 0);   // what() is a C string
   std::string c = s;
   if (form == 0) outcome(p, s, [&] { check(p, std::string_view(s)); });
   else if (form == 1) outcome(p, s, [&] { check(p, s.c_str()); });
   else if (form == 2) outcome(p, s, [&] { const char* q = s.c_str(); check(p, q); });
   else if (form == 3) outcome(p, s, [&] { check(p, static_cast<const std::string&>(s)); });
   else if (form == 4) outcome(p, c, [&] { check(p, std::move(s)); });
   else if (k <= n) {
      if (vs_choice(2, "raw")) outcome(p, std::string_view(s).substr(0, k), [&] { check(p, s.c_str(), k); });
      else outcome(p, std::string_view(s).substr(0, k), [&] { check(p, static_cast<const std::string&>(s), k); });
   } else outcome(p, s, [&] { check(p, static_cast<const std::string&>(s), k); });   // more than there is: all of it
   vs_reach("texts");
}
extern "C" void h_codes() {
   bool     p   = vs_u8("p") & 1;
   uint32_t len = vs_choice(20, "len") + 1, lo = vs_choice(len, "lo"), free_ = VS_Q(4, 6);
   uint64_t v   = 0;
   std::string t;
   static const char fix[] = "18446744073709551615";   // the largest code
   for (uint32_t i = 0; i < len; ++i) {
      uint64_t d = i >= lo && i < lo + free_ && (len < 20 || lo > 15) ? vs_range(i == 0 && len > 1, len == 20 ? fix[i] - '0' : 9, "d") : fix[i] - '0';
      v = v * 10 + d;
      t += (char)('0' + d);
   }
   outcome(p, t, [&] { check(p, v); });
   vs_reach("codes");
}
// every kind of error has a text of its own, and everything else is unknown
template <typename E, typename F> static void kinds(int last, F text) {
   int a = (int)vs_u8("a"), b = (int)vs_u8("b");
   vs_assume(b < 80);
   std::string_view x = text((E)a), y = text((E)b);
   if (a > last) { vs_assert(x == "unknown", "others are unknown"); vs_reach("unknown"); return; }
   vs_assert(x != "unknown" && !x.empty(), "every kind has a text");
   if (b <= last) vs_assert((x == y) == (a == b), "different kinds have different texts");
   vs_reach("kinds");
}
extern "C" void h_json_kinds() { kinds<from_json_error>((int)from_json_error::unspecific_syntax_error, [](from_json_error e) { return convert_json_error(e); }); }
extern "C" void h_stream_kinds() { kinds<stream_error>((int)stream_error::json_writer_error, [](stream_error e) { return convert_stream_error(e); }); }
