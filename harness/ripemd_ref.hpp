// RIPEMD-160 written from its specification (Dobbertin, Bosselaers, Preneel 1996), independent of the code under test
#pragma once
#include "vsx.hpp"
static uint32_t rmd_rol(uint32_t x, unsigned s) { return x << s | x >> (32 - s); }
static uint32_t rmd_f(unsigned j, uint32_t x, uint32_t y, uint32_t z) {
   switch (j / 16) {
   case 0: return x ^ y ^ z;
   case 1: return (x & y) | (~x & z);
   case 2: return (x | ~y) ^ z;
   case 3: return (x & z) | (y & ~z);
   default: return x ^ (y | ~z);
   }
}
static void rmd_block(uint32_t h[5], const unsigned char* p) {
   static const unsigned rho[16] = { 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8 };
   // shifts by message word, one row per round
   static const unsigned sh[5][16] = { { 11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8 },
                                       { 12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7 },
                                       { 13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9 },
                                       { 14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6 },
                                       { 15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5 } };
   static const uint32_t kl[5] = { 0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E }, kr[5] = { 0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0 };
   uint32_t w[16], l[5], r[5];
   for (int i = 0; i < 16; ++i) w[i] = (uint32_t)p[4 * i] | (uint32_t)p[4 * i + 1] << 8 | (uint32_t)p[4 * i + 2] << 16 | (uint32_t)p[4 * i + 3] << 24;
   for (int i = 0; i < 5; ++i) l[i] = r[i] = h[i];
   for (unsigned j = 0; j < 80; ++j) {
      unsigned a = j % 16, b = (9 * (j % 16) + 5) % 16;
      for (unsigned k = 0; k < j / 16; ++k) { a = rho[a]; b = rho[b]; }
      uint32_t t = rmd_rol(l[0] + rmd_f(j, l[1], l[2], l[3]) + w[a] + kl[j / 16], sh[j / 16][a]) + l[4];
      l[0] = l[4]; l[4] = l[3]; l[3] = rmd_rol(l[2], 10); l[2] = l[1]; l[1] = t;
      t = rmd_rol(r[0] + rmd_f(79 - j, r[1], r[2], r[3]) + w[b] + kr[j / 16], sh[j / 16][b]) + r[4];
      r[0] = r[4]; r[4] = r[3]; r[3] = rmd_rol(r[2], 10); r[2] = r[1]; r[1] = t;
   }
   uint32_t t = h[1] + l[2] + r[3];
   h[1] = h[2] + l[3] + r[4]; h[2] = h[3] + l[4] + r[0]; h[3] = h[4] + l[0] + r[1]; h[4] = h[0] + l[1] + r[2]; h[0] = t;
}
static std::string rmd_ref(std::string m) {
   uint32_t h[5] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 };
   uint64_t bits = (uint64_t)m.size() * 8;
   m.push_back((char)0x80);
   while (m.size() % 64 != 56) m.push_back(0);
   for (int i = 0; i < 8; ++i) m.push_back((char)(bits >> 8 * i));
   for (size_t i = 0; i < m.size(); i += 64) rmd_block(h, (const unsigned char*)m.data() + i);
   std::string r;
   for (int i = 0; i < 20; ++i) r.push_back((char)(h[i / 4] >> 8 * (i % 4)));
   return r;
}
