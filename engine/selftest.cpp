// Randomised differential test of the expression simplifier, the interval bounds and the bit-blaster:
// every expression built is compared with a direct evaluation under several environments.
#include "solver.h"
#include <random>
static std::mt19937_64 R;
static u64 rnd(u64 n) { return R() % n; }
static u128 wide() { return (u128)R() << 64 | R(); }
const int NE = 24;
struct N { X e; std::vector<u128> v; };
static std::vector<Model> env(NE);
static std::vector<N> pool;
static N konst(u32 w) {
   static const u128 P[] = { 0, 1, 2, 3, 7, 8, 10, 100, 1000, 10000, 100000, 1000000, 60, 3600, 86400, 24, 31, 58, 255, 256, 65535 };
   u128 c;
   switch (rnd(6)) {
   case 0: c = P[rnd(21)]; break;
   case 1: c = (u128)0 - P[rnd(21)]; break;
   case 2: c = (u128)1 << rnd(w); break;
   case 3: c = maskw(w) >> rnd(w); break;
   case 4: { c = 1; for (u64 i = rnd(39); i; --i) c *= 10; break; }
   default: c = wide() >> rnd(128);
   }
   c &= maskw(w);
   return { mkConst(c, w), std::vector<u128>(NE, c) };
}
static N pick(u32 w) {
   if (rnd(4) == 0) return konst(w);
   for (int i = 0; i < 60; ++i) { N& n = pool[rnd(3) ? pool.size() - 1 - rnd(std::min<size_t>(pool.size(), 40)) : rnd(pool.size())]; if (n.e->w == w) return n; }
   N r = pool[rnd(pool.size())];
   N o = r;
   if (r.e->w < w) { o.e = mkZExt(r.e, w); }
   else if (r.e->w > w) { o.e = mkExtract(r.e, 0, w); for (auto& x : o.v) x &= maskw(w); }
   return o;
}
static int cost(X e, std::vector<X>& seen) {
   for (X x : seen) if (x == e) return 0;
   seen.push_back(e);
   if (seen.size() > 300) return 1000;
   int c = e->op == E_UDIV || e->op == E_UREM || e->op == E_SDIV || e->op == E_SREM || e->op == E_MUL ? 10 : 0;
   if (!e->is_const() && e->op != E_VAR) for (X k : e->k) if (k) { c += cost(k, seen); if (c > 40) return c; }
   return c;
}
static void check(const N& n, const char* op) {
   for (int i = 0; i < NE; ++i) {
      u128 g = evalExpr(n.e, env[i]);
      u32  w = n.e->w;
      bool ok = g == n.v[i] && n.e->mn <= g && g <= n.e->mx && n.e->sl <= sx(g, w) && sx(g, w) <= n.e->sh && (n.e->lz == 0 || n.e->lz >= w || (g >> (w - n.e->lz)) == 0);
      if (!ok) fatal("MISMATCH after %s: env %d width %u got %llx:%llx want %llx:%llx mn %llx mx %llx lz %d : %s", op, i, w, (u64)(g >> 64), (u64)g, (u64)(n.v[i] >> 64), (u64)n.v[i], (u64)n.e->mn, (u64)n.e->mx, n.e->lz, exprStr(n.e, 10).c_str());
   }
}
int main(int argc, char** argv) {
   u64 seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
   long rounds = argc > 2 ? atol(argv[2]) : 200;
   R.seed(seed);
   g_cross_every = 0;
   u64 total = 0, blasted = 0;
   for (long r = 0; r < rounds; ++r) {
      pool.clear();
      for (int k = 0; k < 6; ++k) {
         static const u32 W[] = { 1, 3, 4, 4, 8, 8, 16, 32, 64, 128 };
         u32  w = W[rnd(10)];
         u128 mx = rnd(2) ? maskw(w) : (w == 4 ? 9 : (maskw(w) >> rnd(w)));
         N    n;
         n.e = mkVar("t", w, mx);
         u32 vi = (u32)n.e->aux;
         for (int i = 0; i < NE; ++i) {
            u128 x = i == 0 ? 0 : i == 1 ? mx : wide() >> rnd(128);
            if (mx != ~(u128)0) x %= mx + 1;
            env[i].set(vi, x);
            n.v.push_back(x);
         }
         pool.push_back(n);
      }
      for (int s = 0; s < 120; ++s) {
         static const u32 W[] = { 1, 8, 8, 16, 32, 32, 64, 64, 64, 128, 128, 5, 44 };
         u32 w = W[rnd(13)];
         N   a = pick(w), b = pick(w), c, o;
         const char* nm = "";
         o.v.resize(NE);
         u128 m = maskw(w);
#define BIN(NAME, FN, EX) { nm = NAME; o.e = FN(a.e, b.e); for (int i = 0; i < NE; ++i) { u128 x = a.v[i], y = b.v[i]; o.v[i] = (EX) & m; } }
         switch (rnd(21)) {
         case 0: BIN("and", mkAnd, x & y) break;
         case 1: BIN("or", mkOr, x | y) break;
         case 2: BIN("xor", mkXor, x ^ y) break;
         case 3: BIN("add", mkAdd, x + y) break;
         case 4: BIN("sub", mkSub, x - y) break;
         case 5: b = konst(w); BIN("mulc", mkMul, x * y) break;
         case 6: BIN("mul", mkMul, x * y) break;
         case 7: b = konst(w); if (b.v[0] == 0) continue; BIN("udiv", mkUDiv, x / y) break;
         case 8: b = konst(w); if (b.v[0] == 0) continue; BIN("urem", mkURem, x % y) break;
         case 9: case 10: {
            b = konst(w);
            if (b.v[0] == 0 || w == 1) continue;
            bool rem = rnd(2);
            s128 y = sx(b.v[0], w);
            bool bad = false;
            for (int i = 0; i < NE; ++i) { s128 x = sx(a.v[i], w); if (y == -1) { o.v[i] = rem ? 0 : ((u128)0 - (u128)x) & m; continue; } o.v[i] = (u128)(rem ? x % y : x / y) & m; }
            nm = rem ? "srem" : "sdiv";
            o.e = rem ? mkSRem(a.e, b.e) : mkSDiv(a.e, b.e);
            break;
         }
         case 11: case 12: case 13: {
            int k = rnd(3);
            u32 sh = rnd(w);
            b = N{ mkConst(sh, w), {} };
            if (sh > m) continue;
            for (int i = 0; i < NE; ++i) { u128 x = a.v[i]; o.v[i] = (k == 0 ? x << sh : k == 1 ? x >> sh : (u128)(sx(x, w) >> sh)) & m; }
            nm = k == 0 ? "shl" : k == 1 ? "lshr" : "ashr";
            o.e = k == 0 ? mkShl(a.e, b.e) : k == 1 ? mkLShr(a.e, b.e) : mkAShr(a.e, b.e);
            break;
         }
         case 14: nm = "eq"; o.e = mkEq(a.e, b.e); for (int i = 0; i < NE; ++i) o.v[i] = a.v[i] == b.v[i]; break;
         case 15: nm = "ult"; o.e = mkUlt(a.e, b.e); for (int i = 0; i < NE; ++i) o.v[i] = a.v[i] < b.v[i]; break;
         case 16: nm = "slt"; o.e = mkSlt(a.e, b.e); for (int i = 0; i < NE; ++i) o.v[i] = sx(a.v[i], w) < sx(b.v[i], w); break;
         case 17: nm = "ite"; c = pick(1); o.e = mkIte(c.e, a.e, b.e); for (int i = 0; i < NE; ++i) o.v[i] = c.v[i] ? a.v[i] : b.v[i]; break;
         case 18: {
            if (w > 64) continue;
            nm = "concat"; o.e = mkConcat(a.e, b.e); for (int i = 0; i < NE; ++i) o.v[i] = a.v[i] << w | b.v[i];
            break;
         }
         case 19: {
            u32 off = rnd(w), ww = 1 + rnd(w - off);
            nm = "extract"; o.e = mkExtract(a.e, off, ww);
            for (int i = 0; i < NE; ++i) o.v[i] = (a.v[i] >> off) & maskw(ww);
            break;
         }
         case 20: {
            u32 nw = w + rnd(129 - w);
            if (nw == w) continue;
            bool sg = rnd(2);
            nm = sg ? "sext" : "zext";
            o.e = sg ? mkSExt(a.e, nw) : mkZExt(a.e, nw);
            for (int i = 0; i < NE; ++i) o.v[i] = sg ? (u128)sx(a.v[i], w) & maskw(nw) : a.v[i];
            break;
         }
         }
         check(o, nm);
         pool.push_back(o);
         ++total;
         std::vector<X> seen;
         if (rnd(40) == 0 && cost(o.e, seen) <= 40) {
            // the blaster and the solver agree with the evaluation
            int i = rnd(NE);
            std::vector<X> q;
            for (int k = 0; k < 6; ++k) q.push_back(mkEq(pool[k].e, mkConst(pool[k].v[i], pool[k].e->w)));
            X eq = mkEq(o.e, mkConst(o.v[i], o.e->w));
            Model md;
            q.push_back(mkNot(eq));
            bool f = false;
            for (X x : q) f |= x->is_const() && x->c == 0;
            if (!f) { SatRes s = solveConj(q, md); if (s == R_SAT) fatal("blaster: %s", exprStr(o.e, 10).c_str()); }
            q.back() = eq;
            SatRes s = solveConj(q, md);
            if (s == R_UNSAT) fatal("blaster unsat: %s", exprStr(o.e, 10).c_str());
            ++blasted;
         }
      }
   }
   printf("selftest ok: %llu expressions, %llu solver comparisons\n", (unsigned long long)total, (unsigned long long)blasted);
}
