// title: Fixed-size byte arrays
// bounds: all byte contents of checksum160, checksum256, checksum512, float128 and arrays of 1, 5, 8, 11 and 16 bytes over every word width (8 to 64 bits); all pairs for the comparisons
// outside: other sizes; contents written directly into the padding of the last word
#include "vsx.hpp"
#include <eosio/fixed_bytes.hpp>
#include <eosio/float.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_key.hpp>
using namespace eosio;
template <size_t N>
static std::array<uint8_t, N> arr(const char* n) { std::array<uint8_t, N> a; vs_bytes(a.data(), N, n); return a; }
// the big-endian words of the bytes, zero-filled
template <typename U, size_t N>
static std::array<U, (N + sizeof(U) - 1) / sizeof(U)> words(const std::array<uint8_t, N>& a) {
   std::array<U, (N + sizeof(U) - 1) / sizeof(U)> r{ 0 };
   for (size_t i = 0; i < N; ++i) r[i / sizeof(U)] = (U)(r[i / sizeof(U)] | (U)((U)a[i] << (8 * (sizeof(U) - 1 - i % sizeof(U)))));
   return r;
}
template <typename A> static bool eq(const A& a, const A& b) { return vs_eq(a.data(), b.data(), sizeof a); }
template <typename U, typename T, size_t N>
static void width(const T& v, const std::array<uint8_t, N>& a) {
   auto w = words<U>(a);
   auto x = v.template extract_as_word_array<U>();
   vs_assert(x.size() == w.size() && eq(x, w), "extract_as_word_array");
   T r(w);
   auto b = r.extract_as_byte_array();
   vs_assert(eq(b, a), "constructed from words");
   U c[(N + sizeof(U) - 1) / sizeof(U)];
   for (size_t i = 0; i < w.size(); ++i) c[i] = w[i];
   T s(c);
   b = s.extract_as_byte_array();
   vs_assert(eq(b, a), "constructed from a C array of words");
}
template <typename T, size_t N>
static void one() {
   auto a = arr<N>("a");
   T    v(a);
   auto b = v.extract_as_byte_array();
   vs_observe(b.data(), N, "bytes");
   vs_assert(b.size() == N && eq(b, a), "extract_as_byte_array");
   width<uint8_t>(v, a);
   width<uint16_t>(v, a);
   width<uint32_t>(v, a);
   width<uint64_t>(v, a);
   auto w = words<typename T::word_t>(a);
   vs_assert(T::num_words() == w.size() && v.size() == w.size() && T::padded_bytes() == w.size() * sizeof(w[0]) - N, "sizes");
   vs_assert(eq(v.get_array(), w) && vs_eq(v.data(), w.data(), sizeof w), "stored words");
   std::vector<char> bin = convert_to_bin(v), key = convert_to_key(v), want(a.begin(), a.end());
   vs_assert(same(bin, want) && same(key, want), "binary and key forms are the bytes");
   T            r;
   input_stream is(bin);
   from_bin(r, is);
   vs_assert(is.remaining() == 0 && eq(r.get_array(), w), "decoding");
   size_t cut = vs_choice(N, "cut");
   vs_assert(!completes([&] { T q; input_stream s(bin.data(), bin.data() + cut); from_bin(q, s); }), "truncated");
   vs_reach("one");
}
template <typename T, size_t N>
static void cmp() {
   auto a = arr<N>("a"), b = arr<N>("b");
   T    x(a), y(b);
   bool lt = false, e = true;
   for (size_t i = 0; i < N; ++i) {
      lt = either(lt, both(e, a[i] < b[i]));
      e  = both(e, a[i] == b[i]);
   }
   vs_assert((x < y) == lt, "<");
   vs_assert((x == y) == e, "==");
   vs_assert((x != y) == !e && (x <= y) == (lt || e) && (x > y) == (!lt && !e) && (x >= y) == !lt, "other operators");
   vs_reach("cmp");
}
// fewer elements than needed are followed by zeros
template <typename T, typename U, size_t N, size_t K>
static void few() {
   std::array<U, K>       w;
   std::array<uint8_t, N> a{ 0 };
   for (auto& x : w) x = (U)vs_u64("w");
   for (size_t i = 0; i < N && i < K * sizeof(U); ++i) a[i] = (uint8_t)(w[i / sizeof(U)] >> (8 * (sizeof(U) - 1 - i % sizeof(U))));
   T    v(w);
   auto b = v.extract_as_byte_array();
   vs_assert(eq(b, a), "partial array");
   vs_reach("few");
}
extern "C" void h_values() {
   switch (vs_choice(12, "type")) {
   case 0: one<checksum160, 20>(); break;
   case 1: one<checksum256, 32>(); break;
   case 2: one<checksum512, 64>(); break;
   case 3: one<float128, 16>(); break;
   case 4: one<fixed_bytes<1>, 1>(); break;
   case 5: one<fixed_bytes<5>, 5>(); break;
   case 6: one<fixed_bytes<5, uint8_t>, 5>(); break;
   case 7: one<fixed_bytes<5, uint16_t>, 5>(); break;
   case 8: one<fixed_bytes<5, uint32_t>, 5>(); break;
   case 9: one<fixed_bytes<11>, 11>(); break;
   case 10: one<fixed_bytes<8, uint32_t>, 8>(); break;
   case 11: one<fixed_bytes<16, uint8_t>, 16>(); break;
   }
}
extern "C" void h_compare() {
   switch (vs_choice(8, "type")) {
   case 0: cmp<checksum160, 20>(); break;
   case 1: cmp<checksum256, 32>(); break;
   case 2: cmp<checksum512, 64>(); break;
   case 3: cmp<float128, 16>(); break;
   case 4: cmp<fixed_bytes<1>, 1>(); break;
   case 5: cmp<fixed_bytes<5>, 5>(); break;
   case 6: cmp<fixed_bytes<11, uint8_t>, 11>(); break;
   case 7: cmp<fixed_bytes<11, uint32_t>, 11>(); break;
   }
}
extern "C" void h_few() {
   switch (vs_choice(8, "type")) {
   case 0: few<checksum160, uint32_t, 20, 2>(); break;
   case 1: few<checksum160, uint64_t, 20, 1>(); break;
   case 2: few<checksum256, uint8_t, 32, 31>(); break;
   case 3: few<checksum256, uint64_t, 32, 3>(); break;
   case 4: few<checksum512, uint16_t, 64, 5>(); break;
   case 5: few<fixed_bytes<5>, uint8_t, 5, 1>(); break;
   case 6: few<fixed_bytes<11, uint16_t>, uint32_t, 11, 2>(); break;
   case 7: few<fixed_bytes<11, uint32_t>, uint16_t, 11, 3>(); break;
   }
}
extern "C" void h_make() {
   uint64_t a = vs_u64("a"), b = vs_u64("b");
   uint32_t c = vs_u32("c"), d = vs_u32("d");
   auto     v = float128::make_from_word_sequence<uint64_t>(a, b);
   auto     w = fixed_bytes<8>::make_from_word_sequence<uint32_t>(c, d);
   auto     x = v.extract_as_word_array<uint64_t>();
   vs_assert(x[0] == a && x[1] == b, "make_from_word_sequence");
   vs_assert(w.get_array()[0] == ((uint64_t)c << 32 | d), "make_from_word_sequence of halves");
   uint8_t p = vs_u8("p"), q = vs_u8("p");
   fixed_bytes<5> il{ p, q, (uint8_t)3 };
   auto           y = il.extract_as_byte_array();
   vs_assert(y[0] == p && y[1] == q && y[2] == 3 && y[3] == 0 && y[4] == 0, "initializer list");
   fixed_bytes<11> z;
   for (auto k : z.extract_as_byte_array()) vs_assert(k == 0, "default is zero");
   vs_reach("make");
}
