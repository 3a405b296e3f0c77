// title: Streams
// bounds: sequences of up to 4 writes of 0..4 arbitrary bytes each; every buffer capacity 0..9; inputs of 0..6 bytes with read/skip sizes over all 64-bit values
// outside: longer sequences
#include "vsx.hpp"
#include "types.hpp"
using namespace eosio;

template <typename S>
static void play(S& s, const std::vector<std::vector<char>>& ops, const std::vector<int>& kind) {
   for (size_t i = 0; i < ops.size(); ++i) {
      auto& o = ops[i];
      if (kind[i] == 0) s.write(o.data(), o.size());
      else if (kind[i] == 1) { for (char c : o) s.write(c); }
      else { uint16_t v; memcpy(&v, o.data(), 2); s.write_raw(v); }
   }
}
extern "C" void h_writers() {
   size_t k = vs_choice(VS_Q(4, 5), "ops");
   std::vector<std::vector<char>> ops;
   std::vector<int> kind;
   std::vector<char> want;
   for (size_t i = 0; i < k; ++i) {
      int kd = vs_choice(3, "kind");
      size_t n = kd == 2 ? 2 : vs_choice(3, "n");
      ops.push_back(sym_vec(n, "d"));
      kind.push_back(kd);
      want.insert(want.end(), ops.back().begin(), ops.back().end());
   }
   size_stream ss;
   play(ss, ops, kind);
   vs_assert(ss.size == want.size(), "size_stream counts the bytes written");
   std::vector<char> v{ 'a', 'b' };
   vector_stream vsr{ v };
   play(vsr, ops, kind);
   vs_assert(v.size() == 2 + want.size() && v[0] == 'a' && v[1] == 'b' && vs_eq(v.data() + 2, want.data(), want.size()), "vector_stream appends the bytes written");
   size_t cap = vs_choice(9, "cap");
   char*  blk = new char[cap + 2];
   for (size_t i = 0; i < cap + 2; ++i) blk[i] = '#';
   fixed_buf_stream fs{ blk, cap };
   bool ok = completes([&] { play(fs, ops, kind); });
   vs_assert(ok == (want.size() <= cap), "fixed_buf_stream accepts exactly what fits");
   vs_assert(fs.pos >= blk && fs.pos <= blk + cap && fs.end == blk + cap, "fixed_buf_stream position stays inside its buffer");
   vs_assert(blk[cap] == '#' && blk[cap + 1] == '#', "fixed_buf_stream never writes past its end");
   if (ok) {
      vs_assert(fs.pos == blk + want.size() && vs_eq(blk, want.data(), want.size()), "fixed_buf_stream holds the bytes written");
      vs_reach("fits");
   } else
      vs_reach("overrun");
   delete[] blk;
}
extern "C" void h_literals() {
   std::vector<char> v;
   size_stream ss;
   ss.write("abc");
   char buf[8] = {};
   fixed_buf_stream fs{ buf, 8 };
   fs.write("abc");
   vs_assert((size_t)(fs.pos - buf) == ss.size, "literal writes agree between size and buffer streams");
   vs_assert(buf[0] == 'a' && buf[2] == 'c', "literal bytes");
   vs_reach("literals");
}
extern "C" void h_reader() {
   size_t n   = vs_choice(6, "n");
   auto   src = sym_vec(n, "in");
   char*  blk = new char[n ? n : 1];
   for (size_t i = 0; i < n; ++i) blk[i] = src[i];
   input_stream s{ blk, n };
   size_t at = 0;
   for (int step = 0; step < 2; ++step) {
      uint64_t z = vs_u64("z");
      char     out[8] = { 1, 2, 3, 4, 5, 6, 7, 8 };
      bool     fits = z <= n - at;
      bool     ok;
      switch (vs_choice(4, "op")) {
      case 0:
         ok = completes([&] { s.read(out, z); });
         vs_assert(ok == fits, "read succeeds iff enough bytes remain");
         if (ok) { size_t c = vs_fork(z); vs_assert(vs_eq(out, blk + at, c), "read delivers the next bytes"); at += c; }
         break;
      case 1:
         ok = completes([&] { s.skip(z); });
         vs_assert(ok == fits, "skip succeeds iff enough bytes remain");
         if (ok) at += vs_fork(z);
         break;
      case 2:
         ok = completes([&] { s.check_available(z); });
         vs_assert(ok == fits, "check_available succeeds iff enough bytes remain");
         break;
      case 3: {
         const char* p = nullptr;
         ok = completes([&] { s.read_reuse_storage(p, z); });
         vs_assert(ok == fits, "read_reuse_storage succeeds iff enough bytes remain");
         if (ok) { vs_assert(p == blk + at, "read_reuse_storage returns the position"); at += vs_fork(z); }
         break;
      }
      }
      vs_assert(s.get_pos() == blk + at && s.remaining() == n - at, "a failed operation consumes nothing, a successful one exactly its size");
      vs_reach(ok ? "ok" : "throws");
   }
   uint16_t r = 0;
   bool     ok = completes([&] { s.read_raw(r); });
   vs_assert(ok == (n - at >= 2), "read_raw succeeds iff enough bytes remain");
   if (ok) vs_assert(vs_eq(&r, blk + at, 2), "read_raw delivers the next bytes");
   delete[] blk;
}
extern "C" void h_ctors() {
   auto v = sym_vec(vs_choice(4, "n"), "v");
   std::string_view sv{ v.data(), v.size() };
   input_stream a{ v }, b{ sv }, c{ v.data(), v.size() }, d{ v.data(), v.data() + v.size() }, e;
   vs_assert(a.remaining() == v.size() && b.remaining() == v.size() && c.remaining() == v.size() && d.remaining() == v.size() && e.remaining() == 0, "constructors agree on the size");
   vs_assert(a.get_pos() == v.data() && b.get_pos() == v.data() && c.get_pos() == v.data() && d.get_pos() == v.data(), "constructors agree on the position");
   vs_reach("ctors");
}
// the two-pass encoder (count, then fill) and the appending stream produce the same bytes for every serialization
template <typename T>
static void same_bytes(const T& t) {
   auto a = convert_to_bin(t);
   std::vector<char> b;
   vector_stream vsr{ b };
   to_bin(t, vsr);
   vs_assert(same(a, b), "two-pass and streaming encodings differ");
}
extern "C" void h_encoders() {
   switch (vs_choice(5, "type")) {
   case 0: same_bytes(varuint32{ vs_u32("v") }); break;
   case 1: same_bytes(std::vector<std::string>{ sym_str(vs_choice(3, "n"), "s"), sym_str(1, "s") }); break;
   case 2: { std::variant<uint8_t, std::string> v; if (vs_choice(2, "alt")) v = sym_str(2, "s"); else v = vs_u8("v"); same_bytes(v); break; }
   case 3: { std::optional<uint64_t> v; if (vs_choice(2, "has")) v = vs_u64("v"); same_bytes(v); break; }
   case 4: { vt::point p; p.x = vs_u32("x"); p.y = vs_u64("y"); same_bytes(p); break; }
   }
   vs_reach("encoders");
}
