// title: RIPEMD-160 checksums
// bounds-quick: every content of messages of 0..3, 20, 33, 34, 55, 56, 57, 63, 64, 65, 119, 120 and 128 bytes, fed in one, two or three parts split anywhere (one part may be empty)
// bounds-thorough: every content of messages of each length from 0 to 193 bytes, split in up to three parts
// outside: longer messages; states that were not initialised (an assertion)
#include "ripemd_ref.hpp"
#include <eosio/abieos_ripemd160.hpp>
using namespace abieos_ripemd160;
static std::string run(const std::string& m, size_t a, size_t b) {
   ripemd160_state s;
   ripemd160_init(&s);
   ripemd160_update(&s, m.data(), (int)a);
   ripemd160_update(&s, m.data() + a, (int)(b - a));
   ripemd160_update(&s, (const unsigned char*)m.data() + b, (int)(m.size() - b));
   unsigned char out[22] = {};
   out[0] = out[21] = 0x5a;
   vs_assert(ripemd160_digest(&s, out + 1) == 1, "a digest is produced");
   vs_assert(out[0] == 0x5a && out[21] == 0x5a, "nothing beside the digest is written");
   unsigned char again[20];
   vs_assert(ripemd160_digest(&s, again) == 1 && vs_eq(again, out + 1, 20), "the state can be asked again");
   return std::string((char*)out + 1, 20);
}
static const size_t L[] = { 0, 1, 2, 3, 20, 33, 34, 55, 56, 57, 63, 64, 65, 119, 120, 128 };
extern "C" void h_digest() {
   size_t      n = VS_THOROUGH ? vs_choice(194, "n") : L[vs_choice(sizeof L / sizeof *L, "n")];
   std::string m = sym_str(n, "m");
   vs_assert(same(run(m, n, n), rmd_ref(m)), "digest of the message");
   vs_reach("digest");
}
extern "C" void h_split() {
   static const size_t S[] = { 3, 57, 65, 128, 130 };
   size_t n = S[vs_choice(VS_Q(4, 5), "n")], a = vs_choice(n + 1, "a"), b = a;
   if (VS_THOROUGH || n < 60) { static const size_t D[] = { 0, 1, 7, 56, 64 }; b = a + D[vs_choice(5, "d")]; if (b > n) return; }
   std::string m = sym_str(n, "m");
   vs_assert(same(run(m, a, b), rmd_ref(m)), "digest of a message given in parts");
   vs_reach("split");
}
