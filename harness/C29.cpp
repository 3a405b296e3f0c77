// title: opaque<T> and nested streams
// bounds: payloads of 0..6 arbitrary bytes; element types uint8/uint16/string/struct
// outside: larger payloads
#include "vsx.hpp"
#include "types.hpp"
using namespace eosio;
// an opaque<T> field consumes a length and that many bytes, and later unpacks exactly T's encoding
template <typename T>
static void chk(const T& v) {
   auto payload = convert_to_bin(v);
   std::vector<char> b;
   vector_stream vsr{ b };
   varuint32_to_bin(payload.size(), vsr);
   b.insert(b.end(), payload.begin(), payload.end());
   uint8_t tail = vs_u8("tail");
   b.push_back((char)tail);
   input_stream s{ b };
   opaque<T> o;
   from_bin(o, s);
   vs_assert(s.remaining() == 1, "an opaque field consumes its length and payload only");
   auto copy = o;
   // re-encoding reproduces the bytes
   std::vector<char> out = convert_to_bin(o);
   vs_assert(out.size() == b.size() - 1 && vs_eq(out.data(), b.data(), out.size()), "re-encoding an opaque field");
   vs_assert(o.empty() == payload.empty(), "empty() before unpacking");
   T w = o.unpack();
   vs_assert(w == v, "unpacked value differs");
   vs_assert(o.empty(), "all bytes consumed by unpack");
   T w2{};
   copy.unpack(w2);
   vs_assert(w2 == v, "unpack into an object differs");
   opaque<T> o2{ payload };
   vs_assert(o2.unpack() == v, "constructed from payload bytes");
   opaque<T> o3{ input_stream{ b } };
   vs_assert(o3.unpack() == v, "constructed from a stream");
}
extern "C" void h_roundtrip() {
   switch (vs_choice(5, "type")) {
   case 0: chk<uint32_t>(vs_u32("v")); break;
   case 1: chk<std::string>(sym_str(vs_choice(4, "n"), "s")); break;
   case 2: { vt::point p; p.b0 = vs_u16("b"); p.x = vs_u32("x"); p.y = vs_u64("y"); chk<vt::point>(p); break; }
   case 3: { std::variant<uint8_t, std::string> v; if (vs_choice(2, "alt")) v = sym_str(2, "s"); else v = vs_u8("v"); chk<std::variant<uint8_t, std::string>>(v); break; }
   case 4: { std::optional<uint16_t> v; if (vs_choice(2, "has")) v = vs_u16("v"); chk<std::optional<uint16_t>>(v); break; }
   }
   vs_reach("roundtrip");
}
template <typename T, typename F>
static void vec(F mk) {
   size_t n = vs_choice(4, "n");
   std::vector<T> v;
   for (size_t i = 0; i < n; ++i) v.push_back(mk(i));
   auto payload = convert_to_bin(v);
   opaque<std::vector<T>> o{ payload };
   vs_assert(o.unpack_size() == n, "unpack_size is the element count");
   for (size_t i = 0; i < n; ++i) {
      if (i & 1) { T e{}; o.unpack_next(e); vs_assert(e == v[i], "unpack_next(obj) element"); }
      else vs_assert(o.unpack_next() == v[i], "unpack_next element");
   }
   vs_assert(o.empty(), "all elements consumed");
   opaque<std::vector<T>> all{ payload };
   vs_assert(all.unpack() == v, "unpacking all at once gives the same elements");
}
extern "C" void h_vector() {
   switch (vs_choice(3, "type")) {
   case 0: vec<uint8_t>([](size_t) { return vs_u8("v"); }); break;
   case 1: vec<uint64_t>([](size_t) { return vs_u64("v"); }); break;
   case 2: vec<std::string>([](size_t i) { return sym_str(i, "v"); }); break;
   }
   vs_reach("vector");
}
// arbitrary bytes: unpacking never leaves the payload
extern "C" void h_untrusted() {
   size_t n = vs_choice(6, "n");
   auto   buf = sym_vec(n, "in");
   char*  blk = new char[n ? n : 1];
   for (size_t i = 0; i < n; ++i) blk[i] = buf[i];
   input_stream s{ blk, n };
   opaque<std::vector<uint16_t>> o;
   if (!completes([&] { from_bin(o, s); })) { vs_reach("rejected"); delete[] blk; return; }
   vs_assert(s.pos <= blk + n, "payload within the input");
   size_t used = s.pos - blk;
   // bytes after the payload must not be readable through the opaque value
   for (size_t i = used; i < n; ++i) blk[i] = 0;
   uint64_t k = 0;
   bool ok = completes([&] {
      k = o.unpack_size();
      for (int i = 0; i < 4; ++i) o.unpack_next();
   });
   if (ok) vs_assert(used >= 1 + 1 + 8, "four elements need their bytes inside the payload");
   vs_reach("accepted");
   delete[] blk;
}
