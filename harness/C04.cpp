// title: Variable-length integers
// bounds: every 32-bit value (64-bit for the range check of the encoder); every byte string of up to 7 bytes (32-bit decoders) / 12 bytes (64-bit decoder)
// outside: nothing: decoders never look beyond the 5th / 10th byte
#include "vsx.hpp"
#include <eosio/from_bin.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/varint.hpp>
using namespace eosio;

static std::vector<char> ref_encode(uint32_t v) {   // minimal base-128, forks over the five lengths
   std::vector<char> r;
   while (v >= 0x80) { r.push_back((char)(v | 0x80)); v >>= 7; }
   r.push_back((char)v);
   return r;
}
static void check_enc(const std::vector<char>& b, uint32_t v) {
   observe(b, "bin");
   vs_assert(same(b, ref_encode(v)), "encoding is not the minimal base-128 encoding");
}
extern "C" void h_encode() {
   uint32_t          v = vs_u32("v");
   std::vector<char> b;
   push_varuint32(b, v);
   check_enc(b, v);
   vs_assert(same(convert_to_bin(varuint32{ v }), b), "varuint32 object encodes differently");
   input_stream s{ b };
   uint32_t     w = 0;
   varuint32_from_bin(w, s);
   vs_assert(w == v, "varuint32 round trip");
   vs_assert(s.remaining() == 0, "varuint32 decode must consume the encoding");
   input_stream s2{ b };
   varuint32    o;
   from_bin(o, s2);
   vs_assert(both(o.value == v, s2.remaining() == 0), "varuint32 object round trip");
   input_stream s3{ b };
   uint64_t     x = 0;
   varuint64_from_bin(x, s3);
   vs_assert(both(x == v, s3.remaining() == 0), "64-bit decoder reads 32-bit encodings");
   vs_reach("encode");
}
extern "C" void h_encode_signed() {
   uint32_t u = vs_u32("v");
   int32_t  v = (int32_t)u;
   auto     b = convert_to_bin(varint32{ v });
   uint32_t z = v < 0 ? ~(u << 1) : u << 1;   // zig-zag
   check_enc(b, z);
   input_stream s{ b };
   int32_t      w = 0;
   varint32_from_bin(w, s);
   vs_assert(both(w == v, s.remaining() == 0), "varint32 round trip");
   input_stream s2{ b };
   varint32     o;
   from_bin(o, s2);
   vs_assert(both(o.value == v, s2.remaining() == 0), "varint32 object round trip");
   vs_reach("signed");
}
// the encoder takes 64-bit sizes and must refuse what does not fit
extern "C" void h_encode_range() {
   uint64_t          v = vs_u64("v");
   std::vector<char> b;
   vector_stream     st{ b };
   bool              ok = completes([&] { varuint32_to_bin(v, st); });
   vs_assert(ok == (v <= 0xffffffffull), "encoder must accept exactly the 32-bit values");
   if (ok) { check_enc(b, (uint32_t)v); vs_reach("range ok"); } else vs_reach("range refused");
   if (ok) {
      char              buf[5];
      fixed_buf_stream  f{ buf, 5 };
      varuint32_to_bin(v, f);
      vs_assert((size_t)(f.pos - buf) == b.size(), "fixed buffer size");
      vs_assert(vs_eq(buf, b.data(), b.size()), "fixed buffer bytes");
      size_stream ss;
      varuint32_to_bin(v, ss);
      vs_assert(ss.size == b.size(), "size stream");
   }
}
// decoding arbitrary bytes: terminator position decides consumption; too long or truncated is an error
template <typename D>
static void decode(size_t maxlen, size_t limit, int bits, D&& dec) {
   size_t       n = vs_choice(maxlen + 1, "len");
   auto         b = sym_vec(n, "b");
   input_stream s{ b };
   uint64_t     got = 0;
   bool         ok  = completes([&] { got = dec(s); });
   // reference
   size_t   k = 0;
   uint64_t v = 0;
   bool     lost = false;
   while (k < n && k < limit && (b[k] & 0x80)) ++k;
   bool good = k < n && k < limit;
   vs_assert(ok == good, "accepted encodings are exactly the terminated ones of bounded length");
   if (!ok) { vs_reach("decode rejected"); return; }
   for (size_t i = 0; i <= k; ++i) {
      uint64_t g = (uint64_t)(b[i] & 0x7f);
      v |= g << (7 * i);
      if ((int)(7 * i + 7) > bits) lost = either(lost, (g >> (bits - 7 * i)) != 0);
   }
   vs_assert(n - s.remaining() == k + 1, "consumes exactly through the terminating byte");
   vs_assert(either(lost, got == v), "value is the little-endian sum of the 7-bit groups");
   vs_observe_u64(got, "value");
   vs_reach("decode accepted");
}
extern "C" void h_decode_u32() { decode(7, 5, 32, [](input_stream& s) { uint32_t v; varuint32_from_bin(v, s); return (uint64_t)v; }); }
extern "C" void h_decode_u64() { decode(12, 10, 64, [](input_stream& s) { uint64_t v; varuint64_from_bin(v, s); return v; }); }
extern "C" void h_decode_obj() { decode(7, 5, 32, [](input_stream& s) { varuint32 v; from_bin(v, s); return (uint64_t)v.value; }); }
extern "C" void h_decode_s32() {
   decode(7, 5, 32, [](input_stream& s) { int32_t v; varint32_from_bin(v, s); uint32_t u = (uint32_t)v; return (uint64_t)(uint32_t)((u << 1) ^ (v < 0 ? 0xffffffffu : 0)); });
}
extern "C" void h_decode_sobj() {
   decode(7, 5, 32, [](input_stream& s) { varint32 v; from_bin(v, s); uint32_t u = (uint32_t)v.value; return (uint64_t)(uint32_t)((u << 1) ^ (v.value < 0 ? 0xffffffffu : 0)); });
}
