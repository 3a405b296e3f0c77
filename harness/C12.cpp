// title: Times and the calendar
// bounds-quick: every day, hour, minute, second and millisecond of 14 years (1970-72, 1999-2001, 2004, 2023-24, 2096, 2099-2101, 2105-06 as far as representable); every slot of a block timestamp in those years; one arbitrary byte at any position of a time text and truncation anywhere; fractions of 0..7 arbitrary characters
// bounds-thorough: every year 1970..2106, fractions of 0..8 characters
// outside: times beyond 2106-02-07T06:28:15, before 1970; block timestamps before 2000
// time-quick: 120
#include "json.hpp"
#include <eosio/time.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/to_bin.hpp>
using namespace eosio;
static const unsigned ML[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
static bool     leap(unsigned y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static unsigned mlen(unsigned y, unsigned m) { return ML[m - 1] + (m == 2 && leap(y)); }
// days from 1970-01-01 to the first of the month, by counting
static uint64_t first(unsigned y, unsigned m) {
   uint64_t n = 0;
   for (unsigned k = 1970; k < y; ++k) n += leap(k) ? 366 : 365;
   for (unsigned k = 1; k < m; ++k) n += mlen(y, k);
   return n;
}
static const unsigned QY[] = { 1970, 1972, 1999, 2000, 2001, 2004, 2024, 2096, 2099, 2100, 2101, 2105, 2106, 1971 };
static unsigned pick_year() { return VS_THOROUGH ? 1970 + (unsigned)vs_choice(137, "year") : QY[vs_choice(sizeof QY / sizeof *QY, "year")]; }
static void two(std::string& s, uint64_t v) { s.push_back((char)('0' + v / 10)); s.push_back((char)('0' + v % 10)); }
struct cal { unsigned y, m; uint64_t d, h, mi, s, ms; };
// a two-digit field 0..max (or lo..max): the tens digit is enumerated, the units digit symbolic
static uint64_t digits2(unsigned lo, unsigned max, const char* n) {
   unsigned t = (unsigned)vs_choice(max / 10 + 1, n);
   unsigned l = t * 10 < lo ? lo : t * 10, u = t * 10 + 9 > max ? max : t * 10 + 9;
   return t * 10 + vs_range(l - t * 10, u - t * 10, n);
}
static cal pick() {
   cal c;
   c.y = pick_year();
   c.m = c.y == 2106 ? 1 : 1 + (unsigned)vs_choice(12, "month");
   c.d  = digits2(1, mlen(c.y, c.m), "day");
   if (c.m == 2 && c.d >= 20) c.d = vs_fork(c.d);   // (intermediate values of date algorithms differ from day to day here)
   c.h  = digits2(0, 23, "hour");
   c.mi = vs_range(0, 5, "min") * 10 + vs_range(0, 9, "min");
   c.s  = vs_range(0, 5, "sec") * 10 + vs_range(0, 9, "sec");
   c.ms = vs_range(0, 9, "ms") * 100 + vs_range(0, 9, "ms") * 10 + vs_range(0, 9, "ms");
   return c;
}
static uint64_t secs(const cal& c) { return (first(c.y, c.m) + c.d - 1) * 86400 + c.h * 3600 + c.mi * 60 + c.s; }
static std::string text(const cal& c) {
   std::string t = std::to_string(c.y) + "-";
   two(t, c.m); t += "-"; two(t, c.d); t += "T"; two(t, c.h); t += ":"; two(t, c.mi); t += ":"; two(t, c.s); t += ".";
   t.push_back((char)('0' + c.ms / 100)); two(t, c.ms % 100);
   return t;
}
extern "C" void h_time_point() {
   cal         c = pick();
   uint64_t    sub = vs_range(0, 999, "us");
   uint64_t    us = secs(c) * 1000000 + c.ms * 1000 + sub;
   time_point  t{ microseconds((int64_t)us) };
   std::string j = convert_to_json(t);
   observe(j, "json");
   vs_assert(same(j, "\"" + text(c) + "\""), "text of a time_point");
   time_point b{ microseconds(7) };
   vs_assert(parse_json(j, b), "the text of a time_point does not parse");
   vs_assert(b.elapsed.count() == (int64_t)(us - sub), "reading the text gives the time to the millisecond");
   vs_assert(time_point_sec(t).sec_since_epoch() == secs(c), "seconds of a time_point");
   vs_assert(t.sec_since_epoch() == secs(c), "sec_since_epoch");
   vs_reach("time_point");
}
extern "C" void h_time_point_sec() {
   cal            c = pick();
   time_point_sec t{ (uint32_t)secs(c) };
   cal            z = c;
   z.ms = 0;
   std::string j = convert_to_json(t);
   observe(j, "json");
   vs_assert(same(j, "\"" + text(z) + "\""), "text of a time_point_sec");
   time_point_sec b{ 7 };
   vs_assert(parse_json("\"" + text(c) + "\"", b) && b.utc_seconds == secs(c), "reading a time_point_sec");
   b = time_point_sec{ 7 };
   vs_assert(parse_json("\"" + text(c).substr(0, 19) + "\"", b) && b.utc_seconds == secs(c), "reading a time without fraction");
   vs_assert(time_point(t).elapsed.count() == (int64_t)(secs(c) * 1000000), "time_point of a time_point_sec");
   vs_reach("time_point_sec");
}
// the last representable second, and the one after it
extern "C" void h_end() {
   static const struct { const char* t; bool ok; } T[] = {
      { "2106-02-07T06:28:15", true }, { "2106-02-07T06:28:16", false }, { "2106-02-08T00:00:00", false }, { "2107-01-01T00:00:00", false }, { "2238-03-16T12:56:32", false },
      { "9999-12-31T23:59:59", false }, { "1969-12-31T23:59:59", false }, { "0000-01-01T00:00:00", false }, { "1833-11-24T17:31:44", false }, { "2106-02-07T00:00:00", true } };
   auto&          t = T[vs_choice(sizeof T / sizeof *T, "t")];
   time_point_sec a;
   time_point     b;
   vs_assert(parse_json("\"" + std::string(t.t) + "\"", a) == t.ok, "time_point_sec at the end of the range");
   vs_assert(parse_json("\"" + std::string(t.t) + "\"", b) == t.ok, "time_point at the end of the range");
   if (t.ok) vs_assert(b.elapsed.count() == (int64_t)a.utc_seconds * 1000000, "value");
   if (!vs_choice(2, "max")) return;
   vs_assert(same(convert_to_json(time_point_sec::maximum()), "\"2106-02-07T06:28:15.000\""), "last second");
   vs_reach("end");
}
extern "C" void h_slots() {
   cal c = pick();
   if (c.y < 2000) return;
   c.ms          = 500 * vs_choice(2, "half");
   uint64_t slot = (secs(c) - 946684800) * 2 + (c.ms == 500);
   vs_assume(slot <= 0xffffffffu);
   block_timestamp t{ (uint32_t)slot };
   std::string     j = convert_to_json(t);
   observe(j, "json");
   vs_assert(same(j, "\"" + text(c) + "\""), "text of a block timestamp");
   block_timestamp b{ 7 };
   vs_assert(parse_json(j, b) && b.slot == slot, "reading a block timestamp");
   vs_reach("slots");
}
extern "C" void h_slot_conversion() {
   uint32_t        s = vs_u32("slot");
   block_timestamp t{ s };
   int64_t         us = t.to_time_point().elapsed.count();
   vs_assert(us == 946684800000000ll + (int64_t)s * 500000, "time of a slot");
   uint64_t rest = vs_range(0, 499999, "rest");
   vs_assert(block_timestamp(time_point(microseconds(us + (int64_t)rest))).slot == s, "slot of a time");
   vs_assert(convert_to_bin(t).size() == 4, "binary size");
   block_timestamp n;
   bool            ok = completes([&] { n = t.next(); });
   vs_assert(ok == (s != 0xffffffffu), "next() is an error exactly at the last slot");
   if (ok) vs_assert(n.slot == s + 1, "next()");
   block_timestamp u{ vs_u32("slot") };
   vs_assert((t < u) == (t.to_time_point() < u.to_time_point()) && (t == u) == (t.to_time_point() == u.to_time_point()) && (t <= u) == !(u < t) && (t > u) == (u < t) && (t >= u) == !(t < u) && (t != u) == !(t == u), "slot order is time order");
   vs_reach("slot conversion");
}
extern "C" void h_sec_to_slot() {
   uint32_t s = vs_u32("s");
   vs_assume(s >= 946684800u);
   vs_assert(block_timestamp(time_point_sec(s)).slot == (s - 946684800u) * 2u, "slot of a second");
   vs_reach("sec to slot");
}
extern "C" void h_arith() {
   int64_t a = (int64_t)vs_u64("a"), b = (int64_t)vs_u64("b");
   vs_assume(a >= -(1ll << 61) && a <= 1ll << 61 && b >= -(1ll << 61) && b <= 1ll << 61);
   microseconds x(a), y(b), z(a);
   vs_assert((x + y).count() == a + b && (x - y).count() == a - b, "microseconds arithmetic");
   z += y;
   vs_assert(z.count() == a + b, "+=");
   z -= y;
   vs_assert(z.count() == a, "-=");
   vs_assert((x < y) == (a < b) && (x == y) == (a == b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b) && (x != y) == (a != b), "microseconds order");
   time_point t(x), u(y);
   vs_assert((t + y).elapsed.count() == a + b && (t - y).elapsed.count() == a - b && (t - u).count() == a - b && (t + u).elapsed.count() == a + b, "time_point arithmetic");
   t += y;
   vs_assert(t.elapsed.count() == a + b, "time_point +=");
   t -= y;
   vs_assert(t.elapsed.count() == a, "time_point -=");
   vs_assert((t < u) == (a < b) && (t == u) == (a == b) && (t <= u) == (a <= b) && (t > u) == (a > b) && (t >= u) == (a >= b) && (t != u) == (a != b), "time_point order");
   vs_assert(x.to_seconds() == a / 1000000, "to_seconds");
   int32_t n = (int32_t)vs_u32("n");
   vs_assert(seconds(n).count() == n * 1000000ll && milliseconds(n).count() == n * 1000ll && minutes(n).count() == n * 60000000ll && hours(n).count() == n * 3600000000ll, "units");
   vs_assert(eosio::days((int64_t)(int16_t)n).count() == (int16_t)n * 86400000000ll, "days");
   uint32_t s = vs_u32("s"), m = vs_u32("s");
   vs_assert((time_point_sec(s) + m).utc_seconds == s + m && (time_point_sec(s) - m).utc_seconds == s - m, "time_point_sec arithmetic");
   vs_assert((time_point_sec(s) - time_point_sec(m)).count() == ((int64_t)s - (int64_t)m) * 1000000, "difference of seconds");
   time_point_sec p(s);
   p += m; vs_assert(p.utc_seconds == s + m, "seconds +=");
   p -= m; vs_assert(p.utc_seconds == s, "seconds -=");
   p += time_point_sec(m); p -= time_point_sec(m); vs_assert(p.utc_seconds == s, "seconds += seconds");
   vs_reach("arith");
}
// reference reader
static bool ref(const std::string& t, int maxfrac, uint64_t& s, uint64_t& us) {
   auto num = [&](size_t p, size_t n, uint64_t& v) {
      v = 0;
      bool ok = true;
      for (size_t i = p; i < p + n; ++i) { ok = both(ok, both(t[i] >= '0', t[i] <= '9')); v = v * 10 + (uint8_t)(t[i] - '0'); }
      return ok;
   };
   if (t.size() < 19) return false;
   uint64_t y, m, d, h, mi, se;
   if (!(num(0, 4, y) && num(5, 2, m) && num(8, 2, d) && num(11, 2, h) && num(14, 2, mi) && num(17, 2, se))) return false;
   if (t[4] != '-' || t[7] != '-' || t[10] != 'T' || t[13] != ':' || t[16] != ':') return false;
   if (m < 1 || m > 12 || d < 1 || h > 23 || mi > 59 || se > 59) return false;
   if (y < 1970 || y > 2105) return false;   // (2106 is not among the texts tried here)
   y = vs_fork(y);
   m = vs_fork(m);
   if (d > mlen((unsigned)y, (unsigned)m)) return false;
   s  = (first((unsigned)y, (unsigned)m) + d - 1) * 86400 + h * 3600 + mi * 60 + se;
   us = s * 1000000;
   if (t.size() == 19) return true;
   if (t[19] != '.') return false;
   uint64_t sc = 100000;
   int      n = 0;
   for (size_t i = 20; i < t.size(); ++i, ++n) {
      if (t[i] < '0' || t[i] > '9') return false;
      us += (uint64_t)(t[i] - '0') * sc;
      sc /= 10;
   }
   return maxfrac < 0 || n <= maxfrac;
}
static void reading(const std::string& t) {
   for (char c : t) vs_assume(c != '"' && c != '\\' && (uint8_t)c >= 32 && (uint8_t)c < 127);
   uint64_t s = 0, us = 0;
   bool     w = ref(t, -1, s, us);
   time_point_sec a{ 5 };
   bool ok = parse_json("\"" + t + "\"", a);
   vs_assert(ok == w, "time_point_sec texts accepted");
   if (w) { vs_assert(a.utc_seconds == s, "time_point_sec value"); vs_reach("text accepted"); }
   else vs_reach("text rejected");
   w = ref(t, 6, s, us);
   time_point b{ microseconds(5) };
   ok = parse_json("\"" + t + "\"", b);
   vs_assert(ok == w, "time_point texts accepted");
   if (w) vs_assert(b.elapsed.count() == (int64_t)us, "time_point value");
}
static const char* const TT[] = { "2018-06-15T19:17:47.999", "2000-02-29T00:00:00", "1999-12-31T23:59:59.1", "2100-02-28T10:20:30.123456", "1970-01-01T00:00:00.000" };
extern "C" void h_corrupt() {
   std::string t = TT[vs_choice(VS_Q(3, 5), "t")];
   t[vs_choice(t.size(), "pos")] = (char)vs_u8("c");
   reading(t);
}
extern "C" void h_truncate() {
   std::string t = TT[vs_choice(VS_Q(3, 5), "t")];
   size_t      p = vs_choice(t.size() + 1, "pos");
   switch (vs_choice(3, "how")) {
   case 0: t.resize(p); break;
   case 1: t.erase(p, 1); break;
   case 2: t.insert(p, 1, (char)vs_u8("c")); break;
   }
   reading(t);
}
extern "C" void h_fraction() { reading(std::string("2018-06-15T19:17:47.") + sym_str(vs_choice(VS_Q(8, 9), "n"), "f")); }
extern "C" void h_fields() {   // every two-digit field value
   std::string t = TT[1];
   static const int P[] = { 5, 8, 11, 14, 17 };
   int p = P[vs_choice(5, "field")];
   t[p] = (char)vs_range('0', '9', "d");
   t[p + 1] = (char)vs_range('0', '9', "d");
   reading(t);
}
extern "C" void h_month_end() {   // 00..39 as the day of every month of a year
   std::string t = "1999-12-31T23:59:59";
   unsigned    y = pick_year();
   if (y == 2106) return;
   t.replace(0, 4, std::to_string(y));
   unsigned m = 1 + (unsigned)vs_choice(12, "month");
   t[5] = (char)('0' + m / 10); t[6] = (char)('0' + m % 10);
   t[8] = (char)vs_range('0', '3', "d");
   t[9] = (char)vs_range('0', '9', "d");
   reading(t);
}
