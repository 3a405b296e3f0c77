#include <unistd.h>
#include "expr.h"
#include <algorithm>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>

const char* eop_name[] = { "const", "var", "and", "or", "xor", "add", "mul", "udiv", "sdiv", "urem", "srem",
                           "shl", "lshr", "ashr", "eq", "ult", "slt", "ite", "concat", "extract", "sext", "select" };
std::vector<VarInfo> g_vars;
u64                  g_nexprs = 0;
u64                  Model::next = 0;

void fatal(const char* fmt, ...) {
   va_list ap;
   va_start(ap, fmt);
   fprintf(stderr, "abisym: fatal: ");
   vfprintf(stderr, fmt, ap);
   fprintf(stderr, "\n");
   va_end(ap);
   fflush(stderr);
   _exit(70);
}

// ---------------------------------------------------------------- interning
static std::vector<X> g_tab(1 << 16, nullptr);
static char*          g_pool = nullptr;
static size_t         g_pool_left = 0;

static inline u64 mix(u64 h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; return h ^ (h >> 33); }
static u64 hashOf(const Expr& e) {
   u64 h = (u64)e.op * 0x9e3779b97f4a7c15ULL + e.w;
   if (e.op == E_CONST)
      h = mix(h ^ (u64)e.c) ^ mix((u64)(e.c >> 64) + 77);
   else {
      for (int i = 0; i < 3; ++i)
         h = mix(h + (e.k[i] ? e.k[i]->id + 1 : 0));
      h = mix(h ^ e.aux);
   }
   return h;
}
static bool same(const Expr& a, const Expr& b) {
   if (a.op != b.op || a.w != b.w) return false;
   if (a.op == E_CONST) return a.c == b.c;
   return a.k[0] == b.k[0] && a.k[1] == b.k[1] && a.k[2] == b.k[2] && a.aux == b.aux;
}
static X intern(const Expr& e) {
   u64 mask = g_tab.size() - 1;
   u64 h    = hashOf(e) & mask;
   while (g_tab[h]) {
      if (same(*g_tab[h], e)) return g_tab[h];
      h = (h + 1) & mask;
   }
   if (g_pool_left < sizeof(Expr)) {
      g_pool_left = sizeof(Expr) * 16384;
      g_pool      = (char*)aligned_alloc(64, (g_pool_left + 63) / 64 * 64);
   }
   Expr* n = new (g_pool) Expr(e);
   g_pool += sizeof(Expr);
   g_pool_left -= sizeof(Expr);
   n->id    = ++g_nexprs;
   g_tab[h] = n;
   if (g_nexprs * 2 > g_tab.size()) {
      std::vector<X> old;
      old.swap(g_tab);
      g_tab.assign(old.size() * 2, nullptr);
      u64 m2 = g_tab.size() - 1;
      for (X x : old)
         if (x) {
            u64 i = hashOf(*x) & m2;
            while (g_tab[i]) i = (i + 1) & m2;
            g_tab[i] = x;
         }
   }
   return n;
}
static inline u32 clz(u128 v, u32 w);
static bool sumBounds(X a, X b, u32 w, u128& lo, u128& hi);
static X mk(EOp op, u32 w, X a, X b = nullptr, X c = nullptr, u64 aux = 0, u32 lz = 0) {
   Expr e;
   memset((void*)&e, 0, sizeof e);
   e.op = op; e.w = w; e.k[0] = a; e.k[1] = b; e.k[2] = c; e.aux = aux;
   e.vars = nullptr;
   u128 ones = maskw(w), m = lz >= w ? 0 : ones >> lz, n = m, l = 0;
   s128 smax = (s128)(ones >> 1), smin = -smax - 1, sl = smin, sh = smax;
   switch (op) {
   case E_CONCAT: n = (a->mx << b->w) + b->mx; l = (a->mn << b->w) + b->mn; break;
   case E_ADD: {
      n = a->mx + b->mx;
      if (n < a->mx || n > ones) n = ones; else l = a->mn + b->mn;
      s128 x, y;
      if (!__builtin_add_overflow(a->sl, b->sl, &x) && !__builtin_add_overflow(a->sh, b->sh, &y) && x >= smin && y <= smax) sl = x, sh = y;
      // one operand signed, the other unsigned
      for (int i = 0; i < 2; ++i) {
         X p = i ? b : a, q = i ? a : b;
         if (p->sl < 0 && p->sh <= 0 && p->sl > smin && q->mn >= (u128)(-p->sl)) {
            l = std::max(l, q->mn - (u128)(-p->sl));
            n = std::min(n, q->mx - (u128)(-p->sh));
         }
      }
      u128 lo, hi;
      if (l == 0 && n == ones && w >= 16 && w <= 96 && sumBounds(a, b, w, lo, hi)) l = lo, n = hi;
      break;
   }
   case E_MUL:
      if (a->mx == 0 || b->mx == 0) n = 0;
      else if (a->mx <= ones / b->mx) n = a->mx * b->mx, l = a->mn * b->mn;
      if (b->op == E_CONST) {
         s128 x, y, c = b->sl;
         if (!__builtin_mul_overflow(a->sl, c, &x) && !__builtin_mul_overflow(a->sh, c, &y)) {
            if (x > y) std::swap(x, y);
            if (x >= smin && y <= smax) sl = x, sh = y;
         }
      }
      break;
   case E_UDIV: if (b->op == E_CONST && b->c) n = a->mx / b->c, l = a->mn / b->c; break;
   case E_UREM: n = a->mx; if (b->op == E_CONST && b->c && b->c - 1 < n) n = b->c - 1; break;
   case E_SDIV: if (b->op == E_CONST && b->sl > 0) sl = a->sl / b->sl, sh = a->sh / b->sl; break;
   case E_SREM: if (b->op == E_CONST && b->sl > 0) sl = a->sl < 0 ? -(b->sl - 1) : 0, sh = a->sh > 0 ? b->sl - 1 : 0; break;
   case E_SEXT: sl = a->sl, sh = a->sh; break;
   case E_AND: n = std::min(a->mx, b->mx); break;
   case E_LSHR: n = a->mx; break;
   case E_ITE: n = std::max(b->mx, c->mx); l = std::min(b->mn, c->mn); sl = std::min(b->sl, c->sl); sh = std::max(b->sh, c->sh); break;
   case E_EXTRACT: n = a->mx >> aux; if (n > ones) n = ones; else l = a->mn >> aux; break;
   case E_SELECT: n = ((const Table*)aux)->vmax; break;
   default: break;
   }
   e.mx = std::min(m, n);
   e.mn = l;
   if (e.mn > e.mx) e.mn = e.mx;
   if (w == 1) sl = -1, sh = 0;
   if (sl >= 0 || sh < 0) {
      e.mn = std::max(e.mn, (u128)sl & ones);
      e.mx = std::min(e.mx, (u128)sh & ones);
   }
   if (w > 1 && (e.mx <= (u128)smax || e.mn > (u128)smax)) {
      sl = std::max(sl, sx(e.mn, w));
      sh = std::min(sh, sx(e.mx, w));
   }
   e.sl = sl;
   e.sh = sh;
   if (e.mn == e.mx && op != E_VAR) return mkConst(e.mn, w);
   u32 z = clz(e.mx, w);
   e.lz = z > 255 ? 255 : z;
   return intern(e);
}
static inline u32 clz(u128 v, u32 w) {
   u32 n = 0;
   for (int i = (int)w - 1; i >= 0 && !((v >> i) & 1); --i) ++n;
   return n;
}
X mkConst(u128 v, u32 w) {
   Expr e;
   memset((void*)&e, 0, sizeof e);
   e.op = E_CONST; e.w = w; e.c = v & maskw(w); e.lz = clz(e.c, w); e.mn = e.mx = e.c; e.sl = e.sh = sx(e.c, w);
   e.vars = nullptr;
   return intern(e);
}
X mkVar(const std::string& name, u32 w, u128 mx) {   // the caller asserts var <= mx
   X e = mk(E_VAR, w, nullptr, nullptr, nullptr, g_vars.size());
   if (mx < e->mx) {
      const_cast<Expr*>(e)->mx = mx;
      if (!((mx >> (w - 1)) & 1)) const_cast<Expr*>(e)->sl = 0, const_cast<Expr*>(e)->sh = (s128)mx;
      const_cast<Expr*>(e)->lz = clz(mx, w);
   }
   g_vars.push_back({ name, w, e });
   return e;
}
static std::map<std::pair<u32, std::vector<u128>>, Table*> g_tables;
const Table* mkTable(const std::vector<u128>& v, u32 w) {
   auto& t = g_tables[{ w, v }];
   if (!t) {
      t = new Table{ (u32)g_tables.size(), w, v, 0 };
      for (auto x : v) if (x > t->vmax) t->vmax = x;
   }
   return t;
}

// ---------------------------------------------------------------- helpers
static inline bool isC(X e) { return e->op == E_CONST; }
static inline bool isC(X e, u128 v) { return e->op == E_CONST && e->c == v; }
static inline bool isOnes(X e) { return e->op == E_CONST && e->c == maskw(e->w); }
static inline X zero(u32 w) { return mkConst(0, w); }
static inline X ones(u32 w) { return mkConst(~(u128)0, w); }
static inline X truec() { static X t = mkConst(1, 1); return t; }
static inline X falsec() { static X t = mkConst(0, 1); return t; }
static bool isNot(X e) { return e->op == E_XOR && isOnes(e->k[1]); }

// pieces of a concat, from low to high
static void pieces(X e, std::vector<X>& out) {
   std::vector<X> hi;
   while (e->op == E_CONCAT) { hi.push_back(e->k[0]); e = e->k[1]; }
   out.push_back(e);
   for (size_t i = hi.size(); i--;) out.push_back(hi[i]);
}
static X fromPieces(const std::vector<X>& p) {  // low to high
   X r = p[0];
   for (size_t i = 1; i < p.size(); ++i) r = mkConcat(p[i], r);
   return r;
}

X mkConcat(X hi, X lo) {
   u32 w = hi->w + lo->w;
   if (w > 128) fatal("concat too wide (%u)", w);
   if (hi->op == E_CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
   if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
   X l0 = lo->op == E_CONCAT ? lo->k[0] : lo;   // top piece of lo
   X merged = nullptr;
   if (isC(hi) && isC(l0)) merged = mkConst((hi->c << l0->w) | l0->c, hi->w + l0->w);
   else if (hi->op == E_EXTRACT) {
      if (l0->op == E_EXTRACT && l0->k[0] == hi->k[0] && hi->aux == l0->aux + l0->w)
         merged = mkExtract(hi->k[0], l0->aux, hi->w + l0->w);
      else if (hi->aux >= l0->w && mkExtract(hi->k[0], hi->aux - l0->w, l0->w) == l0)   // low bits of a sum, product, ...
         merged = mkExtract(hi->k[0], hi->aux - l0->w, hi->w + l0->w);
      else if (lo->op == E_CONCAT && hi->aux >= lo->w && mkExtract(hi->k[0], hi->aux - lo->w, lo->w) == lo)
         return mkExtract(hi->k[0], hi->aux - lo->w, hi->w + lo->w);
   }
   if (merged) {
      if (lo->op == E_CONCAT) return mkConcat(merged, lo->k[1]);
      return merged;
   }
   u32 lz = isC(hi, 0) ? hi->w + lo->lz : hi->lz;
   return mk(E_CONCAT, w, hi, lo, nullptr, 0, lz);
}
X mkZExt(X a, u32 w) {
   if (w == a->w) return a;
   if (w < a->w) return mkExtract(a, 0, w);
   return mkConcat(zero(w - a->w), a);
}
X mkSExt(X a, u32 w) {
   if (w == a->w) return a;
   if (w < a->w) return mkExtract(a, 0, w);
   if (isC(a)) return mkConst((u128)sx(a->c, a->w), w);
   if (a->lz > 0) return mkZExt(a, w);
   if (a->op == E_SEXT) return mkSExt(a->k[0], w);
   if (a->op == E_ADD && a->sl > sx((u128)1 << (a->w - 1), a->w)) {   // sums that do not wrap
      s128 x, y, hi = (s128)(maskw(a->w) >> 1), lo = -hi - 1;
      if (!__builtin_add_overflow(a->k[0]->sl, a->k[1]->sl, &x) && !__builtin_add_overflow(a->k[0]->sh, a->k[1]->sh, &y) && x >= lo && y <= hi)
         return mkAdd(mkSExt(a->k[0], w), mkSExt(a->k[1], w));
   }
   if (a->op == E_MUL && isC(a->k[1])) {
      s128 x, y, hi = (s128)(maskw(a->w) >> 1), lo = -hi - 1, c = a->k[1]->sl;
      if (!__builtin_mul_overflow(a->k[0]->sl, c, &x) && !__builtin_mul_overflow(a->k[0]->sh, c, &y) && std::min(x, y) >= lo && std::max(x, y) <= hi)
         return mkMul(mkSExt(a->k[0], w), mkConst((u128)c, w));
   }
   if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
   return mk(E_SEXT, w, a);
}
// number of low bits known to be zero
static u32 lowZeros(X e, int depth = 8) {
   if (isC(e)) { u32 n = 0; while (n < e->w && !((e->c >> n) & 1)) ++n; return n; }
   if (depth == 0) return 0;
   if (e->op == E_CONCAT) return isC(e->k[1], 0) ? e->k[1]->w + lowZeros(e->k[0], depth - 1) : lowZeros(e->k[1], depth - 1);
   if (e->op == E_ADD) { u32 n = lowZeros(e->k[0], depth - 1); return n ? std::min(n, lowZeros(e->k[1], depth - 1)) : 0; }
   return 0;
}
X mkExtract(X a, u32 off, u32 w) {
   if (off + w > a->w) fatal("bad extract");
   if (off == 0 && w == a->w) return a;
   if (a->mn >> off == a->mx >> off) return mkConst(a->mn >> off, w);
   if (w == 1 && off == a->w - 1 && (a->op == E_ADD || a->op == E_MUL) && a->sh == 0) return mkNe(a, mkConst(0, a->w));   // sign of a value <= 0
   switch (a->op) {
   case E_CONST: return mkConst(a->c >> off, w);
   case E_EXTRACT: return mkExtract(a->k[0], off + a->aux, w);
   case E_CONCAT: {
      u32 lw = a->k[1]->w;
      if (off >= lw) return mkExtract(a->k[0], off - lw, w);
      if (off + w <= lw) return mkExtract(a->k[1], off, w);
      return mkConcat(mkExtract(a->k[0], 0, off + w - lw), mkExtract(a->k[1], off, lw - off));
   }
   case E_SEXT: {
      u32 iw = a->k[0]->w;
      if (off + w <= iw) return mkExtract(a->k[0], off, w);
      if (off >= iw - 1) { return mkSExt(mkExtract(a->k[0], iw - 1, 1), w); }
      return mkSExt(mkExtract(a->k[0], off, iw - off), w);
   }
   case E_ITE:
      if ((isC(a->k[1]) || isC(a->k[2])) || (a->k[1]->op == E_CONCAT && a->k[2]->op == E_CONCAT))
         return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w));
      break;
   case E_AND: return mkAnd(mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
   case E_OR: return mkOr(mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
   case E_XOR: return mkXor(mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
   case E_ADD:
      if (off == 0 || lowZeros(a->k[0]) >= off || lowZeros(a->k[1]) >= off) return mkAdd(mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
      break;
   case E_MUL:
      if (off == 0) return mkMul(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
      break;
   case E_SELECT: {
      const Table* t = (const Table*)a->aux;
      std::vector<u128> v(t->v);
      for (auto& x : v) x = (x >> off) & maskw(w);
      return mkSelect(mkTable(v, w), a->k[0]);
   }
   default: break;
   }
   if (a->lz >= a->w - off) return zero(w);
   u32 lz = a->lz > a->w - off - w ? a->lz - (a->w - off - w) : 0;
   return mk(E_EXTRACT, w, a, nullptr, nullptr, off, lz);
}

// does e (a concat or const) have at least one constant all-zero / all-one piece?
static bool hasConstPiece(X e) {
   while (e->op == E_CONCAT) {
      if (isC(e->k[0])) return true;
      e = e->k[1];
   }
   return isC(e);
}
template <class F>
static X piecewise(X a, X b, F f) {
   std::vector<X> pa, pb, out;
   pieces(a, pa);
   pieces(b, pb);
   std::set<u32> cuts;
   u32           p = 0;
   for (X x : pa) { p += x->w; cuts.insert(p); }
   p = 0;
   for (X x : pb) { p += x->w; cuts.insert(p); }
   u32 lo = 0;
   for (u32 c : cuts) {
      out.push_back(f(mkExtract(a, lo, c - lo), mkExtract(b, lo, c - lo)));
      lo = c;
   }
   return fromPieces(out);
}
static int runs(u128 c, u32 w) {
   int n = 1;
   for (u32 i = 1; i < w; ++i)
      if (((c >> i) & 1) != ((c >> (i - 1)) & 1)) ++n;
   return n;
}

X mkNot(X a) {
   if (isC(a)) return mkConst(~a->c, a->w);
   if (isNot(a)) return a->k[0];
   if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
   if (a->op == E_CONCAT && (a->w < 8 || hasConstPiece(a))) return mkConcat(mkNot(a->k[0]), mkNot(a->k[1]));
   if (a->op == E_XOR && isC(a->k[1])) return mkXor(a->k[0], mkConst(~a->k[1]->c, a->w));
   return mk(E_XOR, a->w, a, ones(a->w));
}
// ---- small truth-table canonicalisation for word-level bitwise functions
// A bitwise tree over <=3 distinct non-bitwise leaves is rebuilt from its truth table, so that
// e.g. (x&y)|(~x&z), ((y^z)&x)^z and Ite-style rewritings become the same node.
static bool leavesOf(X e, X* lv, int& n, int depth) {
   if (isC(e)) return e->c == 0 || isOnes(e);
   if ((e->op == E_AND || e->op == E_OR || e->op == E_XOR) && depth < 8)
      return leavesOf(e->k[0], lv, n, depth + 1) && leavesOf(e->k[1], lv, n, depth + 1);
   for (int i = 0; i < n; ++i)
      if (lv[i] == e) return true;
   if (n == 3) return false;
   lv[n++] = e;
   return true;
}
static unsigned ttOf(X e, X* lv, int n) {
   static const unsigned base[3] = { 0xAA, 0xCC, 0xF0 };
   if (isC(e)) return e->c ? 0xFF : 0;
   for (int i = 0; i < n; ++i)
      if (lv[i] == e) return base[i];
   unsigned a = ttOf(e->k[0], lv, n), b = ttOf(e->k[1], lv, n);
   return (e->op == E_AND ? a & b : e->op == E_OR ? a | b : a ^ b) & 0xFF;
}
static X rawBin(EOp op, X a, X b) {
   if (a->id > b->id) std::swap(a, b);
   if (isC(a)) std::swap(a, b);
   u32 lz = op == E_AND ? std::max(a->lz, b->lz) : std::min(a->lz, b->lz);
   return mk(op, a->w, a, b, nullptr, 0, lz);
}
static X rawNot(X a) {
   if (isC(a)) return mkConst(~a->c, a->w);
   if (isNot(a)) return a->k[0];
   return mk(E_XOR, a->w, a, ones(a->w));
}
// canonical rebuild: algebraic normal form (xor of ands) for 3-leaf functions
static X fromTT3(unsigned tt, X* lv, int n, u32 w) {
   unsigned anf[8];
   for (int i = 0; i < 8; ++i) anf[i] = (tt >> i) & 1;
   for (int b = 0; b < 3; ++b)
      for (int i = 0; i < 8; ++i)
         if (i >> b & 1) anf[i] ^= anf[i ^ (1 << b)];
   X r = nullptr;
   for (int i = 1; i < 8; ++i)
      if (anf[i]) {
         X t = nullptr;
         for (int b = 0; b < n; ++b)
            if (i >> b & 1) t = t ? rawBin(E_AND, t, lv[b]) : lv[b];
         r = r ? rawBin(E_XOR, r, t) : t;
      }
   if (!r) return anf[0] ? ones(w) : zero(w);
   return anf[0] ? rawNot(r) : r;
}
static X canonBitwise(EOp op, X a, X b) {
   // only for wide words (hash functions); single bits are handled better by the SAT level
   if (a->w < 8) return nullptr;
   auto bw = [](X e) { return e->op == E_AND || e->op == E_OR || e->op == E_XOR; };
   if (!bw(a) && !bw(b)) return nullptr;
   X   lv[3];
   int n = 0;
   if (!leavesOf(a, lv, n, 0) || !leavesOf(b, lv, n, 0)) return nullptr;
   std::sort(lv, lv + n, [](X p, X q) { return p->id < q->id; });
   unsigned ta = ttOf(a, lv, n), tb = ttOf(b, lv, n);
   unsigned t  = (op == E_AND ? ta & tb : op == E_OR ? ta | tb : ta ^ tb) & 0xFF;
   return fromTT3(t, lv, n, a->w);
}

X mkAnd(X a, X b) {
   if (a == b) return a;
   if (isC(a)) std::swap(a, b);
   u32 w = a->w;
   if (isC(b)) {
      if (isC(a)) return mkConst(a->c & b->c, w);
      if (b->c == 0) return b;
      if (isOnes(b)) return a;
      if (w > 1 && (a->op == E_CONCAT || runs(b->c, w) <= 4)) {
         std::vector<X> out;
         u32            i = 0;
         while (i < w) {
            u32 j   = i;
            int bit = (b->c >> i) & 1;
            while (j < w && (int)((b->c >> j) & 1) == bit) ++j;
            out.push_back(bit ? mkExtract(a, i, j - i) : zero(j - i));
            i = j;
         }
         return fromPieces(out);
      }
      if (a->op == E_AND && isC(a->k[1])) return mkAnd(a->k[0], mkConst(a->k[1]->c & b->c, w));
   } else {
      if ((a->op == E_CONCAT && hasConstPiece(a)) || (b->op == E_CONCAT && hasConstPiece(b)))
         return piecewise(a, b, mkAnd);
   }
   if (isNot(a) && a->k[0] == b) return zero(w);
   if (isNot(b) && b->k[0] == a) return zero(w);
   if (w == 1) {
      if (a->op == E_AND && (a->k[0] == b || a->k[1] == b)) return a;
      if (b->op == E_AND && (b->k[0] == a || b->k[1] == a)) return b;
      if (a->op == E_OR && (a->k[0] == b || a->k[1] == b)) return b;
      if (b->op == E_OR && (b->k[0] == a || b->k[1] == a)) return a;
   }
   if (X r = canonBitwise(E_AND, a, b)) return r;
   return rawBin(E_AND, a, b);
}
X mkOr(X a, X b) {
   if (a == b) return a;
   if (isC(a)) std::swap(a, b);
   u32 w = a->w;
   if (isC(b)) {
      if (isC(a)) return mkConst(a->c | b->c, w);
      if (b->c == 0) return a;
      if (isOnes(b)) return b;
      if (w > 1 && (a->op == E_CONCAT || runs(b->c, w) <= 4)) {
         std::vector<X> out;
         u32            i = 0;
         while (i < w) {
            u32 j   = i;
            int bit = (b->c >> i) & 1;
            while (j < w && (int)((b->c >> j) & 1) == bit) ++j;
            out.push_back(bit ? ones(j - i) : mkExtract(a, i, j - i));
            i = j;
         }
         return fromPieces(out);
      }
   } else {
      if ((a->op == E_CONCAT && hasConstPiece(a)) || (b->op == E_CONCAT && hasConstPiece(b)))
         return piecewise(a, b, mkOr);
   }
   if (isNot(a) && a->k[0] == b) return ones(w);
   if (isNot(b) && b->k[0] == a) return ones(w);
   if (w == 1) {
      if (a->op == E_OR && (a->k[0] == b || a->k[1] == b)) return a;
      if (b->op == E_OR && (b->k[0] == a || b->k[1] == a)) return b;
      if (a->op == E_AND && (a->k[0] == b || a->k[1] == b)) return b;
      if (b->op == E_AND && (b->k[0] == a || b->k[1] == a)) return a;
   }
   if (X r = canonBitwise(E_OR, a, b)) return r;
   return rawBin(E_OR, a, b);
}
X mkXor(X a, X b) {
   if (a == b) return zero(a->w);
   if (isC(a)) std::swap(a, b);
   u32 w = a->w;
   if (isC(b)) {
      if (isC(a)) return mkConst(a->c ^ b->c, w);
      if (b->c == 0) return a;
      if (isOnes(b)) return mkNot(a);
      if (a->op == E_XOR && isC(a->k[1])) return mkXor(a->k[0], mkConst(a->k[1]->c ^ b->c, w));
      if (a->op == E_CONCAT) return piecewise(a, b, mkXor);
      if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkXor(a->k[1], b), mkXor(a->k[2], b));
      return mk(E_XOR, w, a, b);
   }
   if ((a->op == E_CONCAT && hasConstPiece(a)) || (b->op == E_CONCAT && hasConstPiece(b)))
      return piecewise(a, b, mkXor);
   if (w == 1) {
      if (isNot(a)) return mkNot(mkXor(a->k[0], b));
      if (isNot(b)) return mkNot(mkXor(a, b->k[0]));
   }
   if (X r = canonBitwise(E_XOR, a, b)) return r;
   return rawBin(E_XOR, a, b);
}

// ---------------------------------------------------------------- linear sums
typedef std::vector<std::pair<X, u128>> Terms;
static bool collect(X e, u128 coef, Terms& t, u128& c, int& budget) {
   if (--budget < 0) return false;
   if (isC(e)) { c += coef * e->c; return true; }
   if (e->op == E_ADD) return collect(e->k[0], coef, t, c, budget) && collect(e->k[1], coef, t, c, budget);
   if (e->op == E_MUL && isC(e->k[1])) return collect(e->k[0], coef * e->k[1]->c, t, c, budget);
   if (e->op == E_CONCAT && isC(e->k[0]) && e->k[0]->c) {   // constant high part
      c += coef * (e->k[0]->c << e->k[1]->w);
      return collect(mkZExt(e->k[1], e->w), coef, t, c, budget);
   }
   if (e->op == E_CONCAT && isC(e->k[0], 0)) {   // zero-extended sums that cannot wrap in their own width
      X i = e->k[1];
      if (i->op == E_ADD && i->k[0]->mx <= maskw(i->w) - i->k[1]->mx)
         return collect(mkZExt(i->k[0], e->w), coef, t, c, budget) && collect(mkZExt(i->k[1], e->w), coef, t, c, budget);
      if (i->op == E_MUL && isC(i->k[1]) && i->k[0]->mx <= maskw(i->w) / i->k[1]->c)
         return collect(mkZExt(i->k[0], e->w), coef * i->k[1]->c, t, c, budget);
   }
   for (auto& p : t)
      if (p.first == e) { p.second += coef; return true; }
   t.push_back({ e, coef });
   return true;
}
static void cleanTerms(Terms& t, u32 w) {
   for (auto& p : t) p.second &= maskw(w);
   t.erase(std::remove_if(t.begin(), t.end(), [](auto& p) { return p.second == 0; }), t.end());
}
static X resize(X e, u32 w) { return e->w > w ? mkExtract(e, 0, w) : mkZExt(e, w); }
// exact decomposition of the signed value: sx(e) == sum coef*sx(atom) + c, coefficients and bounds far from overflow
struct SLin { std::vector<std::pair<X, s128>> t; s128 c = 0; int budget = 200; };
static bool addAtom(X e, s128 coef, SLin& l) {
   const s128 BIG = (s128)1 << 120;
   for (auto& p : l.t)
      if (p.first == e) return !__builtin_add_overflow(p.second, coef, &p.second) && p.second < BIG && p.second > -BIG;
   l.t.push_back({ e, coef });
   return true;
}
static bool addConst(s128 coef, s128 v, SLin& l) {
   const s128 BIG = (s128)1 << 120;
   s128       x;
   return !__builtin_mul_overflow(coef, v, &x) && !__builtin_add_overflow(l.c, x, &l.c) && l.c < BIG && l.c > -BIG;
}
static bool boundsOf(const SLin& l, s128& lo, s128& hi) {
   lo = hi = l.c;
   for (auto& p : l.t) {
      s128 x, y;
      bool sg = p.first->w == 128;
      if (!sg && p.first->mx >> 126) return false;
      if (__builtin_mul_overflow(p.second, sg ? p.first->sl : (s128)p.first->mn, &x) || __builtin_mul_overflow(p.second, sg ? p.first->sh : (s128)p.first->mx, &y)) return false;
      if (x > y) std::swap(x, y);
      if (__builtin_add_overflow(lo, x, &lo) || __builtin_add_overflow(hi, y, &hi)) return false;
   }
   return true;
}
// the unsigned value of e as an exact linear sum (sums that wrap by a known multiple of 2^w included)
static bool linU(X e, s128 coef, SLin& l);
// something congruent to coef * e modulo 2^n, coefficients reduced; coef is a multiple of 2^sh
static bool linM(X e, u32 n, s128 coef, SLin& l, u32 sh = 0) {
   if (--l.budget < 0) return false;
   if (n < 100) {
      coef &= ((s128)1 << n) - 1;
      if (coef >> (n - 1)) coef -= (s128)1 << n;
   }
   if (!isC(e) && e->w + sh >= n) {   // wrapping of e does not matter
      if (e->op == E_ADD) return linM(e->k[0], n, coef, l, sh) && linM(e->k[1], n, coef, l, sh);
      if (e->op == E_MUL && isC(e->k[1])) {
         s128 z, q = e->k[1]->sl;
         return !__builtin_mul_overflow(coef, q, &z) && linM(e->k[0], n, z, l, sh);
      }
      if (e->op == E_EXTRACT && e->aux == 0) return linM(e->k[0], n, coef, l, sh);
      if (e->op == E_SEXT && e->k[0]->w == 1) return linU(e->k[0], -coef, l);
      if (e->op == E_CONCAT && e->k[1]->w + sh >= n) return linM(e->k[1], n, coef, l, sh);
      if (e->op == E_CONCAT && isC(e->k[1])) {
         s128 z;
         u32  k = e->k[1]->w;
         return addConst(coef, (s128)e->k[1]->c, l) && !__builtin_mul_overflow(coef, (s128)1 << k, &z) && linM(e->k[0], n, z, l, std::min(sh + k, 96u));
      }
   }
   return linU(e, coef, l);
}
static bool linU(X e, s128 coef, SLin& l) {
   if (--l.budget < 0 || e->w > 96) return false;
   const s128 BIG = (s128)1 << 100;
   if (coef > BIG || coef < -BIG) return false;
   if (isC(e)) return addConst(coef, (s128)e->c, l);
   if (e->op == E_CONCAT && isC(e->k[0])) return addConst(coef, (s128)(e->k[0]->c << e->k[1]->w), l) && linU(e->k[1], coef, l);
   if (e->op == E_CONCAT && isC(e->k[1])) {
      s128 z;
      return addConst(coef, (s128)e->k[1]->c, l) && !__builtin_mul_overflow(coef, (s128)1 << e->k[1]->w, &z) && linU(e->k[0], z, l);
   }
   if (e->op == E_ADD || (e->op == E_MUL && isC(e->k[1]))) {
      SLin m;
      m.budget = l.budget;
      s128 lo, hi;
      if (linM(e, e->w, 1, m) && boundsOf(m, lo, hi) && (lo >> e->w) == (hi >> e->w)) {
         l.budget = m.budget;
         if (!addConst(coef, m.c, l) || !addConst(-coef, lo >> e->w << e->w, l)) return false;
         for (auto& p : m.t) {
            s128 z;
            if (__builtin_mul_overflow(coef, p.second, &z) || !addAtom(p.first, z, l)) return false;
         }
         return true;
      }
   }
   return addAtom(e, coef, l);
}
// bounds of a sum modulo 2^w, when its exact terms stay within one block of 2^w values
static bool sumBounds(X a, X b, u32 w, u128& lo, u128& hi) {
   SLin m;
   s128 x, y;
   m.budget = 80;
   if (!linM(a, w, 1, m) || !linM(b, w, 1, m) || !boundsOf(m, x, y) || (x >> w) != (y >> w)) return false;
   lo = (u128)x & maskw(w);
   hi = (u128)y & maskw(w);
   return true;
}
static bool linS(X e, s128 coef, SLin& l) {
   if (--l.budget < 0) return false;
   const s128 BIG = (s128)1 << 120;
   if (isC(e)) {
      s128 x;
      if (__builtin_mul_overflow(coef, e->sl, &x) || __builtin_add_overflow(l.c, x, &l.c)) return false;
      return l.c < BIG && l.c > -BIG;
   }
   if (e->w > 1) {
      s128 smax = (s128)(maskw(e->w) >> 1), smin = -smax - 1;
      if (e->op == E_ADD) {
         s128 x, y;
         if (!__builtin_add_overflow(e->k[0]->sl, e->k[1]->sl, &x) && !__builtin_add_overflow(e->k[0]->sh, e->k[1]->sh, &y) && x >= smin && y <= smax)
            return linS(e->k[0], coef, l) && linS(e->k[1], coef, l);
      }
      if (e->op == E_MUL && isC(e->k[1])) {
         s128 x, y, q = e->k[1]->sl, z;
         if (!__builtin_mul_overflow(e->k[0]->sl, q, &x) && !__builtin_mul_overflow(e->k[0]->sh, q, &y) && std::min(x, y) >= smin && std::max(x, y) <= smax &&
             !__builtin_mul_overflow(coef, q, &z) && z < BIG && z > -BIG)
            return linS(e->k[0], z, l);
      }
      if (e->op == E_CONCAT && isC(e->k[0], 0)) {   // zero extension
         X i = e->k[1];
         if (i->sl >= 0) return linS(i, coef, l);
         // the unsigned value of i: split sums that cannot wrap
         if (i->op == E_ADD && i->w < e->w && i->k[0]->mx <= maskw(i->w) - i->k[1]->mx)
            return linS(mkZExt(i->k[0], e->w), coef, l) && linS(mkZExt(i->k[1], e->w), coef, l);
         if (i->op == E_MUL && isC(i->k[1]) && i->k[1]->c < ((u128)1 << 80) && i->k[0]->mx <= maskw(i->w) / i->k[1]->c) {
            s128 z;
            if (!__builtin_mul_overflow(coef, (s128)i->k[1]->c, &z) && z < BIG && z > -BIG) return linS(mkZExt(i->k[0], e->w), z, l);
         }
      }
      if (e->op == E_CONCAT && isC(e->k[1]) && e->k[0]->sl >= 0 && e->sl >= 0 && e->k[1]->w < 64) {
         s128 z, x;
         if (!__builtin_mul_overflow(coef, (s128)1 << e->k[1]->w, &z) && z < BIG && z > -BIG && !__builtin_mul_overflow(coef, (s128)e->k[1]->c, &x) && !__builtin_add_overflow(l.c, x, &l.c))
            return linS(e->k[0], z, l);
      }
      if (e->op == E_SEXT) return linS(e->k[0], coef, l);
      if (e->op == E_EXTRACT && e->aux == 0 && e->k[0]->sl >= smin && e->k[0]->sh <= smax) return linS(e->k[0], coef, l);
   }
   // atoms: non-negative ones stand for their unsigned value, whatever the width
   if (e->sl >= 0) {
      while (e->op == E_CONCAT && isC(e->k[0], 0)) e = e->k[1];
      if (e->w <= 96) return linU(e, coef, l);
   } else if (e->w < 128) e = mkSExt(e, 128);   // (keeps it apart from the unsigned reading)
   return addAtom(e, coef, l);
}
// bounds of sx(b) - sx(a)
static bool diffBounds(X a, X b, s128& lo, s128& hi) {
   SLin l;
   if (!linS(b, 1, l) || !linS(a, -1, l)) return false;
   return boundsOf(l, lo, hi);
}
// exact decomposition over the integers: e == sum coef*atom + c without any wrapping
static bool lin(X e, u128 coef, Terms& t, u128& c, int& budget) {
   if (--budget < 0) return false;
   u128 ones = maskw(e->w);
   if (isC(e)) { c += coef * e->c; return true; }
   if (e->op == E_CONCAT)
      return lin(e->k[0], coef << e->k[1]->w, t, c, budget) && lin(e->k[1], coef, t, c, budget);
   if (e->op == E_ADD) {
      u128 s = e->k[0]->mx + e->k[1]->mx;
      if (s >= e->k[0]->mx && s <= ones) return lin(e->k[0], coef, t, c, budget) && lin(e->k[1], coef, t, c, budget);
   }
   if (e->op == E_MUL && isC(e->k[1]) && e->k[0]->mx <= ones / e->k[1]->c)
      return lin(e->k[0], coef * e->k[1]->c, t, c, budget);
   if (e->op == E_EXTRACT && e->aux == 0 && e->k[0]->mx <= ones) return lin(e->k[0], coef, t, c, budget);
   if ((e->op == E_ADD || e->op == E_MUL) && e->w <= 96 && coef < ((u128)1 << 64)) {
      SLin m;
      m.budget = std::min(budget, 200);
      if (linU(e, 1, m) && !(m.t.size() == 1 && m.t[0].first == e) && m.c >= 0 && std::all_of(m.t.begin(), m.t.end(), [](auto& p) { return p.second >= 0 && p.first->w < 128; })) {
         c += coef * (u128)m.c;
         for (auto& p : m.t) {
            auto i = std::find_if(t.begin(), t.end(), [&](auto& q) { return q.first == p.first; });
            if (i != t.end()) i->second += coef * (u128)p.second;
            else if (p.second) t.push_back({ p.first, coef * (u128)p.second });
         }
         return true;
      }
   }
   for (auto& p : t)
      if (p.first == e) { p.second += coef; return true; }
   t.push_back({ e, coef });
   return true;
}
static bool compound(X e) { return e->op == E_ADD || e->op == E_MUL || e->op == E_CONCAT || e->op == E_SEXT; }
static X fromLin(const Terms& t, u128 c, u32 w) {
   X r = mkConst(c, w);
   for (auto& p : t) r = mkAdd(r, mkMul(resize(p.first, w), mkConst(p.second, w)));
   return r;
}
// a == k * q + r with r < k decided by bounds (digits of a decimal number); q or r as wanted
static X splitDiv(X a, u128 k, bool rem) {
   Terms t, tq, tr;
   u128  c = 0;
   int   budget = 400;
   if (!lin(a, 1, t, c, budget)) return nullptr;
   u128 rmax = c % k;
   bool pure = true;
   for (auto& p : t) {
      u128 q = p.second / k, r = p.second % k;
      if (q) tq.push_back({ p.first, q });
      if (r) {
         tr.push_back({ p.first, r });
         if (q) pure = false;
         u128 m = p.first->mx;
         if (r > ((u128)1 << 100) || m > ((u128)1 << 27) * ((u128)1 << 100) / (r ? r : 1)) return nullptr;
         rmax += r * m;
         if (rmax >> 126) return nullptr;
      }
   }
   if (rmax < k) return rem ? fromLin(tr, c % k, a->w) : fromLin(tq, c / k, a->w);
   if (!pure || (tq.empty() && c < k)) return nullptr;
   X r = fromLin(tr, c % k, a->w), kk = mkConst(k, a->w);
   if (r == a) return nullptr;
   if (rem) return mkURem(r, kk);
   return mkAdd(fromLin(tq, c / k, a->w), mkUDiv(r, kk));
}
static X mulConst(X a, u128 c) {  // raw
   u32 w = a->w;
   c &= maskw(w);
   if (c == 0) return zero(w);
   if (c == 1) return a;
   if ((c & (c - 1)) == 0) {
      u32 s = 0;
      while (!((c >> s) & 1)) ++s;
      return mkConcat(mkExtract(a, 0, w - s), zero(s));
   }
   u32 lz = 0, need = (w - clz(c, w)) + (w - a->lz);
   if (need < w) lz = w - need;
   if (lz > 0) {
      X n = mkMul(mkExtract(a, 0, w - lz), mkConst(c, w - lz));
      return mkZExt(n, w);
   }
   return mk(E_MUL, w, a, mkConst(c, w));
}
static X addRaw(X a, X b) {
   u32 w  = a->w;
   u32 lz = std::min(a->lz, b->lz);
   if (lz >= 2 && a->op != E_ADD && b->op != E_ADD) {   // narrow
      u32 nw = w - lz + 1;
      return mkZExt(mk(E_ADD, nw, mkExtract(a, 0, nw), mkExtract(b, 0, nw)), w);
   }
   return mk(E_ADD, w, a, b);
}
static bool disjoint(X a, X b) {
   // every bit position known zero in one of them (by constant zero pieces)
   if (a->op != E_CONCAT && b->op != E_CONCAT) return false;
   std::vector<X> pa, pb;
   pieces(a, pa);
   pieces(b, pb);
   size_t i = 0, j = 0;
   u32    ra = pa[0]->w, rb = pb[0]->w;
   while (i < pa.size() && j < pb.size()) {
      if (!isC(pa[i], 0) && !isC(pb[j], 0)) {
         if (isC(pa[i]) || isC(pb[j])) return false;
         return false;
      }
      u32 s = std::min(ra, rb);
      ra -= s;
      rb -= s;
      if (!ra && ++i < pa.size()) ra = pa[i]->w;
      if (!rb && ++j < pb.size()) rb = pb[j]->w;
   }
   return true;
}
X mkAdd(X a, X b) {
   u32 w = a->w;
   if (isC(a)) std::swap(a, b);
   if (isC(b)) {
      if (isC(a)) return mkConst(a->c + b->c, w);
      if (b->c == 0) return a;
   }
   if (w == 1) return mkXor(a, b);
   if (disjoint(a, b)) return mkOr(a, b);
   if (isC(b) && a->op == E_ITE && isC(a->k[1]) && isC(a->k[2]))
      return mkIte(a->k[0], mkAdd(a->k[1], b), mkAdd(a->k[2], b));
   // zext'ed additions stay narrow: Concat(0, ADD) + const etc. are handled by the generic code
   Terms t;
   u128  c      = 0;
   int   budget = 400;
   if (!collect(a, 1, t, c, budget) || !collect(b, 1, t, c, budget)) {
      if (a->id > b->id) std::swap(a, b);
      if (isC(a)) std::swap(a, b);
      return addRaw(a, b);
   }
   c &= maskw(w);
   cleanTerms(t, w);
   std::sort(t.begin(), t.end(), [](auto& p, auto& q) { return p.first->id < q.first->id; });
   if (t.empty()) return mkConst(c, w);
   if (t.size() == 1 && t[0].second == maskw(w) && c == maskw(w)) return mkNot(t[0].first);  // -x-1
   if (c && t.size() == 1 && t[0].second == 1 && disjoint(t[0].first, mkConst(c, w))) return mkOr(t[0].first, mkConst(c, w));
   X r = nullptr;
   if (c) r = mkConst(c, w);
   for (size_t i = t.size(); i--;) {
      X m = mulConst(t[i].first, t[i].second);
      r   = r ? addRaw(m, r) : m;
   }
   return r;
}
X mkSub(X a, X b) {
   if (a == b) return zero(a->w);
   return mkAdd(a, mkMul(b, ones(b->w)));
}
X mkMul(X a, X b) {
   u32 w = a->w;
   if (isC(a)) std::swap(a, b);
   if (isC(b)) {
      if (isC(a)) return mkConst(a->c * b->c, w);
      if (b->c == 0) return b;
      if (b->c == 1) return a;
      if (w == 1) return mkAnd(a, b);
      if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkMul(a->k[1], b), mkMul(a->k[2], b));
      if (isNot(a)) {  // ~x * c = -c*x - c
         return mkAdd(mkMul(a->k[0], mkConst(-b->c, w)), mkConst(-b->c, w));
      }
      Terms t;
      u128  c      = 0;
      int   budget = 400;
      if ((a->op == E_ADD || a->op == E_MUL) && collect(a, b->c, t, c, budget)) {
         X r = mkConst(c, w);
         for (auto& p : t) r = mkAdd(r, mulConst(p.first, p.second));
         return r;
      }
      return mulConst(a, b->c);
   }
   if (w == 1) return mkAnd(a, b);
   u32 need = (w - a->lz) + (w - b->lz);
   if (need < w) return mkZExt(mkMul(mkExtract(a, 0, need), mkExtract(b, 0, need)), w);
   if (a->id > b->id) std::swap(a, b);
   return mk(E_MUL, w, a, b);
}
static u32 log2c(u128 c) { u32 s = 0; while (c >>= 1) ++s; return s; }
X mkUDiv(X a, X b) {
   u32 w = a->w;
   if (isC(b)) {
      if (b->c == 0) fatal("udiv by constant zero");
      if (isC(a)) return mkConst(a->c / b->c, w);
      if (b->c == 1) return a;
      if ((b->c & (b->c - 1)) == 0) return mkLShr(a, mkConst(log2c(b->c), w));
      if (a->mx < b->c) return zero(w);
      if (a->op == E_EXTRACT && a->aux == 0 && a->k[0]->op == E_UDIV && isC(a->k[0]->k[1]) && a->k[0]->w - a->k[0]->lz <= w) {
         X u = a->k[0];
         if (u->k[1]->c < ((u128)1 << 60) && b->c < ((u128)1 << 60) && u->k[1]->c * b->c <= maskw(u->w))
            return mkExtract(mkUDiv(u->k[0], mkConst(u->k[1]->c * b->c, u->w)), 0, w);
      }
      if (X r = splitDiv(a, b->c, false)) return r;
      if (a->mx / b->c - a->mn / b->c <= 2 && w > 1) {   // few possible quotients: count the thresholds passed
         X r = mkConst(a->mn / b->c, w);
         for (u128 q = a->mn / b->c + 1; q <= a->mx / b->c; ++q) r = mkAdd(r, mkZExt(mkNot(mkUlt(a, mkConst(q * b->c, w))), w));
         return r;
      }
      // (x / c1) / c2 = x / (c1*c2)
      if (a->op == E_UDIV && isC(a->k[1]) && a->k[1]->c < ((u128)1 << 60) && b->c < ((u128)1 << 60)) {
         u128 p = a->k[1]->c * b->c;
         if (p <= maskw(w)) return mkUDiv(a->k[0], mkConst(p, w));
      }
   }
   u32 lz = std::min(a->lz, b->lz);
   if (lz > 0 && lz < w) return mkZExt(mkUDiv(mkExtract(a, 0, w - lz), mkExtract(b, 0, w - lz)), w);
   u32 rz = a->lz;
   if (isC(b)) rz += log2c(b->c);
   return mk(E_UDIV, w, a, b, nullptr, 0, rz);
}
X mkURem(X a, X b) {
   u32 w = a->w;
   if (isC(b)) {
      if (b->c == 0) fatal("urem by constant zero");
      if (isC(a)) return mkConst(a->c % b->c, w);
      if ((b->c & (b->c - 1)) == 0) return mkAnd(a, mkConst(b->c - 1, w));
      if (a->mx < b->c) return a;
      if (X r = splitDiv(a, b->c, true)) return r;
   }
   u32 lz = std::min(a->lz, b->lz);
   if (lz > 0 && lz < w) return mkZExt(mkURem(mkExtract(a, 0, w - lz), mkExtract(b, 0, w - lz)), w);
   u32 rz = std::max((u32)a->lz, isC(b) ? clz(b->c - 1, w) : (u32)b->lz);
   return mk(E_UREM, w, a, b, nullptr, 0, rz);
}
X mkSDiv(X a, X b) {
   u32 w = a->w;
   if (a->lz > 0 && b->lz > 0) return mkUDiv(a, b);
   if (isC(a) && isC(b)) {
      s128 p = sx(a->c, w), q = sx(b->c, w);
      if (q == 0) fatal("sdiv by zero");
      if (q == -1) return mkConst((u128)0 - a->c, w);
      return mkConst((u128)(p / q), w);
   }
   if (isC(b, 1)) return a;
   if (isC(b) && b->sl > 0 && a->sh <= 0) return mkSub(zero(w), mkUDiv(mkSub(zero(w), a), b));
   if (a->op == E_SEXT && isC(b)) {
      u32 iw = a->k[0]->w;
      s128 q = sx(b->c, w);
      if (q > 1 && q < ((s128)1 << (iw - 1)))
         return mkSExt(mkSDiv(a->k[0], mkConst((u128)q, iw)), w);
   }
   return mk(E_SDIV, w, a, b);
}
X mkSRem(X a, X b) {
   u32 w = a->w;
   if (a->lz > 0 && b->lz > 0) return mkURem(a, b);
   if (isC(a) && isC(b)) {
      s128 p = sx(a->c, w), q = sx(b->c, w);
      if (q == 0) fatal("srem by zero");
      if (q == -1) return zero(w);
      return mkConst((u128)(p % q), w);
   }
   if (a->op == E_SEXT && isC(b)) {
      u32 iw = a->k[0]->w;
      s128 q = sx(b->c, w);
      if (q > 1 && q < ((s128)1 << (iw - 1)))
         return mkSExt(mkSRem(a->k[0], mkConst((u128)q, iw)), w);
   }
   return mk(E_SREM, w, a, b);
}
X mkShl(X a, X b) {
   u32 w = a->w;
   if (isC(b)) {
      if (b->c >= w) return zero(w);
      u32 s = (u32)b->c;
      if (!s) return a;
      return mkConcat(mkExtract(a, 0, w - s), zero(s));
   }
   if (isC(a, 0)) return a;
   return mk(E_SHL, w, a, b);
}
X mkLShr(X a, X b) {
   u32 w = a->w;
   if (isC(b)) {
      if (b->c >= w) return zero(w);
      u32 s = (u32)b->c;
      if (!s) return a;
      return mkConcat(zero(s), mkExtract(a, s, w - s));
   }
   if (isC(a, 0)) return a;
   return mk(E_LSHR, w, a, b, nullptr, 0, a->lz);
}
X mkAShr(X a, X b) {
   u32 w = a->w;
   if (a->lz > 0) return mkLShr(a, b);
   if (isC(b)) {
      u32 s = b->c >= w ? w - 1 : (u32)b->c;
      if (!s) return a;
      return mkSExt(mkExtract(a, s, w - s), w);
   }
   return mk(E_ASHR, w, a, b);
}

// ---------------------------------------------------------------- comparisons
// coef * e as a sum of atoms modulo 2^w, with x mod c written as x - c floor(x / c) throughout
static bool fullLin(X e, u128 coef, u32 w, std::map<X, u128>& t, u128& c, int& budget) {
   if (--budget < 0) return false;
   if (coef == 0) return true;
   if (isC(e)) { c += coef * e->c; return true; }
   auto sub = [&](X x, u128 k) { return fullLin(x, coef * k, w, t, c, budget); };
   switch (e->op) {
   case E_CONCAT: return (e->k[1]->w >= 128 || sub(e->k[0], (u128)1 << e->k[1]->w)) && sub(e->k[1], 1);
   case E_ADD:
      if (e->w >= w || e->k[0]->mx <= maskw(e->w) - e->k[1]->mx) return sub(e->k[0], 1) && sub(e->k[1], 1);
      break;
   case E_MUL:
      if (isC(e->k[1]) && (e->w >= w || !e->k[1]->c || e->k[0]->mx <= maskw(e->w) / e->k[1]->c)) return sub(e->k[0], e->k[1]->c);
      break;
   case E_UREM:
      if (isC(e->k[1]) && e->k[1]->c) {
         X q = mkUDiv(e->k[0], e->k[1]);
         if (q->op == E_UREM) break;
         return sub(e->k[0], 1) && sub(q, (u128)0 - e->k[1]->c);
      }
      break;
   case E_EXTRACT: {
      X x = e->k[0];
      if (e->aux == 0 && (e->w >= w || x->mx <= maskw(e->w))) return sub(x, 1);
      if (e->aux + e->w < x->w && x->mx >> (e->aux + e->w)) {
         X hi = mkExtract(x, (u32)e->aux + e->w, x->w - (u32)e->aux - e->w);
         X at = mkExtract(x, (u32)e->aux, x->w - (u32)e->aux);
         if (e->aux == 0 || (at != e && (at->op == E_EXTRACT || isC(at->k[0], 0))))
            return sub(at, 1) && (e->w >= 128 || sub(hi, (u128)0 - ((u128)1 << e->w)));
      }
      break;
   }
   default: break;
   }
   u128& r = t[e];
   r += coef;
   if (!(r & maskw(w))) t.erase(e);
   return true;
}
X mkEq(X a, X b) {
   if (a == b) return truec();
   if (a->w != b->w) fatal("eq width mismatch %u %u", a->w, b->w);
   if (a->mx < b->mn || b->mx < a->mn || (a->w > 1 && (a->sh < b->sl || b->sh < a->sl))) return falsec();
   if (isC(a)) std::swap(a, b);
   u32 w = a->w;
   if (isC(b)) {
      if (isC(a)) return a->c == b->c ? truec() : falsec();
      if (w == 1) return b->c ? a : mkNot(a);
      if (b->c > a->mx) return falsec();
      if (b->c == 0 && a->op == E_ADD && a->k[0]->mx <= maskw(w) - a->k[1]->mx) return mkAnd(mkEq(a->k[0], b), mkEq(a->k[1], b));
      if (b->c == 0 && a->op == E_MUL && isC(a->k[1]) && a->k[0]->mx <= maskw(w) / a->k[1]->c) return mkEq(a->k[0], b);
      switch (a->op) {
      case E_CONCAT: {
         u32 lw = a->k[1]->w;
         X h = mkEq(a->k[0], mkConst(b->c >> lw, w - lw));
         if (isC(h, 0)) return h;
         return mkAnd(h, mkEq(a->k[1], mkConst(b->c, lw)));
      }
      case E_ITE: {
         X t = a->k[1], f = a->k[2];
         if (isC(t) || isC(f)) {
            X et = mkEq(t, b), ef = mkEq(f, b);
            return mkIte(a->k[0], et, ef);
         }
         break;
      }
      case E_ADD:
         if (isC(a->k[1])) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c, w));
         if (a->k[1]->op == E_ADD) {  // const is innermost-last
            X p = a->k[1];
            std::vector<X> ts{ a->k[0] };
            while (p->op == E_ADD) { ts.push_back(p->k[0]); p = p->k[1]; }
            if (isC(p) && p->c) {
               X r = nullptr;
               for (X t : ts) r = r ? mkAdd(r, t) : t;
               return mkEq(r, mkConst(b->c - p->c, w));
            }
         }
         break;
      case E_XOR:
         if (isC(a->k[1])) return mkEq(a->k[0], mkConst(b->c ^ a->k[1]->c, w));
         break;
      case E_SEXT: {
         u32 iw = a->k[0]->w;
         u128 tr = b->c & maskw(iw);
         if (((u128)sx(tr, iw) & maskw(w)) != b->c) return falsec();
         return mkEq(a->k[0], mkConst(tr, iw));
      }
      case E_SELECT: {
         const Table* t = (const Table*)a->aux;
         size_t       n = 0, last = 0;
         for (size_t i = 0; i < t->v.size(); ++i)
            if (t->v[i] == b->c) { ++n; last = i; }
         if (n == 0 && t->v.size() == ((size_t)1 << a->k[0]->w)) return falsec();
         if (n == 1 && t->v.size() == ((size_t)1 << a->k[0]->w)) return mkEq(a->k[0], mkConst(last, a->k[0]->w));
         break;
      }
      case E_MUL:
         if (isC(a->k[1]) && (a->k[1]->c & 1)) {
            u128 c = a->k[1]->c, inv = c;
            for (int i = 0; i < 7; ++i) inv *= 2 - c * inv;
            return mkEq(a->k[0], mkConst(b->c * inv, w));
         }
         break;
      default: break;
      }
   } else {
      auto arith = [](X e) { return e->op == E_ADD || e->op == E_MUL || (e->op == E_CONCAT && (isC(e->k[0]) || isC(e->k[1]))); };
      auto core  = [](X e) { while (e->op == E_CONCAT && (isC(e->k[0]) || isC(e->k[1]))) e = e->k[isC(e->k[0])]; return e->op == E_ADD || e->op == E_MUL; };
      if (w > 8 && w <= 96 && arith(a) && arith(b) && (core(a) || core(b))) {
         SLin l;
         s128 lo, hi;
         if (linU(a, 1, l) && linU(b, -1, l) && boundsOf(l, lo, hi)) {
            if (lo > 0 || hi < 0) return falsec();
            if (lo == 0 && hi == 0) return truec();
         }
      }
      if (w >= 16 && (core(a) || core(b)) && (a->vars || varsOf(a)) && varsOf(a) == varsOf(b)) {
         std::map<X, u128> t;
         u128              c = 0;
         int               budget = 20000;
         bool ok = fullLin(a, 1, w, t, c, budget) && fullLin(b, ~(u128)0, w, t, c, budget);
         if (ok && t.empty()) return c & maskw(w) ? falsec() : truec();
         if (ok && t.size() <= 64 && !(c & maskw(w))) {   // a sum of terms of one sign is zero: all of them are
            bool pos = true, neg = true;
            u128 sp = 0, sn = 0, lim = maskw(w) >> 1;
            for (auto& p : t) {
               u128 k = p.second & maskw(w), n = (u128)0 - p.second & maskw(w), m = p.first->mx;
               pos = pos && m && k <= (lim - sp) / m;
               neg = neg && m && n <= (lim - sn) / m;
               if (pos) sp += k * m;
               if (neg) sn += n * m;
            }
            if (pos || neg) {
               X r = truec();
               for (auto& p : t) r = mkAnd(r, mkEq(p.first, zero(p.first->w)));
               return r;
            }
         }
      }
      if (a->op == E_CONCAT && b->op == E_CONCAT) {
         std::vector<X> pa, pb;
         pieces(a, pa);
         pieces(b, pb);
         std::set<u32> cuts;
         u32           p = 0;
         for (X x : pa) { p += x->w; cuts.insert(p); }
         p = 0;
         for (X x : pb) { p += x->w; cuts.insert(p); }
         if (cuts.size() <= 20) {
            X   r  = truec();
            u32 lo = 0;
            for (u32 c : cuts) {
               r = mkAnd(r, mkEq(mkExtract(a, lo, c - lo), mkExtract(b, lo, c - lo)));
               if (isC(r, 0)) return r;
               lo = c;
            }
            return r;
         }
      }
      if (w == 1) return mkNot(mkXor(a, b));
      if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
      u32 lz = std::min(a->lz, b->lz);
      if (lz > 0) return mkEq(mkExtract(a, 0, w - lz), mkExtract(b, 0, w - lz));
      if (a->op == E_ITE && b->op == E_ITE && a->k[0] == b->k[0])
         return mkIte(a->k[0], mkEq(a->k[1], b->k[1]), mkEq(a->k[2], b->k[2]));
      if (a->op == E_ADD || b->op == E_ADD) {
         X d = mkSub(a, b);
         if (isC(d)) return d->c == 0 ? truec() : falsec();
      }
   }
   if (!isC(b) && a->id > b->id) std::swap(a, b);
   return mk(E_EQ, 1, a, b);
}
X mkUlt(X a, X b) {
   if (a == b) return falsec();
   if (a->w != b->w) fatal("ult width mismatch");
   u32 w = a->w;
   if (a->mx < b->mn) return truec();
   if (a->mn >= b->mx) return falsec();
   if (isC(a) && isC(b)) return a->c < b->c ? truec() : falsec();
   if (isC(b)) {
      if (b->c == 0) return falsec();
      if (b->c == 1) return mkEq(a, zero(w));
      if (isOnes(b)) return mkNe(a, b);
      if (a->mx < b->c) return truec();
      if (a->op == E_ADD && isC(a->k[1]) && a->k[0]->mx <= maskw(w) - a->k[1]->c)   // x + c < d
         return b->c <= a->k[1]->c ? falsec() : mkUlt(a->k[0], mkConst(b->c - a->k[1]->c, w));
      {
         X q = a;   // the whole of x / c
         while ((q->op == E_CONCAT && isC(q->k[0], 0)) || (q->op == E_EXTRACT && q->aux == 0 && q->k[0]->mx <= maskw(q->w))) q = q->k[q->op == E_CONCAT];
         if (q->op == E_UDIV && isC(q->k[1]) && q->k[1]->c && b->c <= maskw(q->w) / q->k[1]->c) return mkUlt(q->k[0], mkConst(b->c * q->k[1]->c, q->w));   // x / c < d
      }
      // a < 2^k  (power of two): high bits zero
      if ((b->c & (b->c - 1)) == 0) {
         u32 k = log2c(b->c);
         return mkEq(mkExtract(a, k, w - k), zero(w - k));
      }
   }
   if (isC(a)) {
      if (isOnes(a)) return falsec();
      if (a->c == 0) return mkNe(b, zero(w));
      if (b->mx <= a->c) return falsec();
      u128 n = a->c + 1;
      if ((n & a->c) == 0) {  // 2^k-1 < b : some high bit set
         u32 k = log2c(n);
         return mkNe(mkExtract(b, k, w - k), zero(w - k));
      }
   }
   if (w == 1) return mkAnd(mkNot(a), b);
   if (w > 8 && a->sl >= 0 && b->sl >= 0 && compound(a) && compound(b)) {
      s128 lo, hi;
      if (diffBounds(a, b, lo, hi)) {
         if (lo > 0) return truec();
         if (hi <= 0) return falsec();
      }
   }
   u32 lz = std::min(a->lz, b->lz);
   if (lz > 0) return mkUlt(mkExtract(a, 0, w - lz), mkExtract(b, 0, w - lz));
   if (isC(b) && a->op == E_ITE && (isC(a->k[1]) || isC(a->k[2])))
      return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
   if (isC(a) && b->op == E_ITE && (isC(b->k[1]) || isC(b->k[2])))
      return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
   if (isC(b) && a->op == E_SELECT) {
      const Table* t = (const Table*)a->aux;
      if (t->vmax < b->c) return truec();
   }
   // common high part
   if (a->op == E_CONCAT && b->op == E_CONCAT && a->k[0] == b->k[0]) return mkUlt(a->k[1], b->k[1]);
   if (isC(b) && a->op == E_CONCAT && a->k[1]->w < w) {
      // low piece constant: compare high part only where possible
      std::vector<X> p;
      pieces(a, p);
      if (isC(p[0])) {
         u32  lw = p[0]->w;
         u128 bl = b->c & maskw(lw), bh = b->c >> lw;
         X    h  = mkExtract(a, lw, w - lw);
         if (p[0]->c < bl) return mkUle(h, mkConst(bh, w - lw));
         return mkUlt(h, mkConst(bh, w - lw));
      }
   }
   return mk(E_ULT, 1, a, b);
}
X mkBound(X v) { return v->mx >= maskw(v->w) ? truec() : mk(E_ULT, 1, v, mkConst(v->mx + 1, v->w)); }
X mkSlt(X a, X b) {
   if (a == b) return falsec();
   u32 w = a->w;
   if (isC(a) && isC(b)) return sx(a->c, w) < sx(b->c, w) ? truec() : falsec();
   if (w == 1) return mkAnd(a, mkNot(b));
   if (a->sh < b->sl) return truec();
   if (a->sl >= b->sh) return falsec();
   if (a->lz > 0 && b->lz > 0) return mkUlt(a, b);
   if (w > 8 && compound(a) && compound(b)) {
      s128 lo, hi;
      if (diffBounds(a, b, lo, hi)) {
         if (lo > 0) return truec();
         if (hi <= 0) return falsec();
      }
   }
   if (a->op == E_SEXT && b->op == E_SEXT) {
      u32 n = std::max(a->k[0]->w, b->k[0]->w);
      return mkSlt(mkSExt(a->k[0], n), mkSExt(b->k[0], n));
   }
   if (a->op == E_SEXT && isC(b)) {
      u32  iw = a->k[0]->w;
      s128 v  = sx(b->c, w);
      s128 lo = -((s128)1 << (iw - 1)), hi = ((s128)1 << (iw - 1)) - 1;
      if (v > hi) return truec();
      if (v <= lo) return falsec();
      return mkSlt(a->k[0], mkConst((u128)v, iw));
   }
   if (b->op == E_SEXT && isC(a)) {
      u32  iw = b->k[0]->w;
      s128 v  = sx(a->c, w);
      s128 lo = -((s128)1 << (iw - 1)), hi = ((s128)1 << (iw - 1)) - 1;
      if (v >= hi) return falsec();
      if (v < lo) return truec();
      return mkSlt(mkConst((u128)v, iw), b->k[0]);
   }
   if (isC(b)) {
      if (b->c == 0) return mkExtract(a, w - 1, 1);
      if (a->lz > 0) return (sx(b->c, w) < 0) ? falsec() : mkUlt(a, b);
      if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b));
   }
   if (isC(a)) {
      if (isOnes(a)) return mkNot(mkExtract(b, w - 1, 1));  // -1 < b
      if (b->lz > 0) return (sx(a->c, w) < 0) ? truec() : mkUlt(a, b);
      if (b->op == E_ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkSlt(a, b->k[1]), mkSlt(a, b->k[2]));
   }
   return mk(E_SLT, 1, a, b);
}
X mkIte(X c, X a, X b) {
   if (isC(c)) return c->c ? a : b;
   if (a == b) return a;
   if (a->w != b->w) fatal("ite width mismatch");
   if (isNot(c)) return mkIte(c->k[0], b, a);
   u32 w = a->w;
   if (w == 1) {
      if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
      if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
      if (a == c) return mkOr(c, b);
      if (b == c) return mkAnd(c, a);
   }
   if (a->op == E_ITE && a->k[0] == c) a = a->k[1];
   if (b->op == E_ITE && b->k[0] == c) b = b->k[2];
   if (a == b) return a;
   if (a->op == E_ITE && a->k[2] == b) return mkIte(mkAnd(c, a->k[0]), a->k[1], b);
   if (b->op == E_ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
   u32 lz = std::min(a->lz, b->lz);
   if (lz > 0 && lz < w && w > 1) return mkZExt(mkIte(c, mkExtract(a, 0, w - lz), mkExtract(b, 0, w - lz)), w);
   if (w > 1 && isC(a) && isC(b)) {
      if (a->c == 1 && b->c == 0) return mkZExt(c, w);
      if (a->c == 0 && b->c == 1) return mkZExt(mkNot(c), w);
   }
   return mk(E_ITE, w, c, a, b, 0, lz);
}
X mkSelect(const Table* t, X idx) {
   if (isC(idx)) {
      if (idx->c >= t->v.size()) return zero(t->w);
      return mkConst(t->v[(size_t)idx->c], t->w);
   }
   // entries that cannot be selected; selection from a selected value
   if (idx->mx < 5000 && idx->mx + 1 < t->v.size()) return mkSelect(mkTable(std::vector<u128>(t->v.begin(), t->v.begin() + (size_t)idx->mx + 1), t->w), idx);
   {
      X s = idx->op == E_CONCAT && isC(idx->k[0], 0) ? idx->k[1] : idx;
      if (s->op == E_SELECT && s->k[0]->mx < 5000) {
         const Table*      u = (const Table*)s->aux;
         std::vector<u128> v;
         for (size_t i = 0; i <= (size_t)s->k[0]->mx; ++i) {
            u128 j = i < u->v.size() ? u->v[i] : 0;
            v.push_back(j < t->v.size() ? t->v[(size_t)j] : 0);
         }
         return mkSelect(mkTable(v, t->w), s->k[0]);
      }
   }
   // constant table?
   size_t n = t->v.size();
   if (idx->mx < n) {
      bool id = true;
      for (size_t i = 0; i <= (size_t)idx->mx && id; ++i) id = t->v[i] == i;
      if (id) return resize(idx, t->w);
   }
   if (idx->w - idx->lz < 30 && idx->lz > 0) {
      size_t lim = (size_t)1 << (idx->w - idx->lz);
      if (lim < n) {
         std::vector<u128> v(t->v.begin(), t->v.begin() + lim);
         return mkSelect(mkTable(v, t->w), mkExtract(idx, 0, idx->w - idx->lz));
      }
   }
   bool all = true;
   for (size_t i = 1; i < n && all; ++i) all = t->v[i] == t->v[0];
   if (all && n && idx->w < 30 && n >= ((size_t)1 << idx->w)) return mkConst(t->v[0], t->w);
   u32 lz = clz(t->vmax, t->w);
   if (lz >= t->w) return zero(t->w);
   if (lz > 0) return mkZExt(mkSelect(mkTable(t->v, t->w - lz), idx), t->w);
   return mk(E_SELECT, t->w, idx, nullptr, nullptr, (u64)t, 0);
}

// ---------------------------------------------------------------- variables
static std::map<VarVec, const VarVec*> g_vv;
static const VarVec* internVV(const VarVec& v) {
   auto it = g_vv.find(v);
   if (it != g_vv.end()) return it->second;
   auto* p = new VarVec(v);
   g_vv[v] = p;
   return p;
}
static std::unordered_map<u64, const VarVec*> g_vvunion;
static std::unordered_map<const VarVec*, u32> g_vvid;
static const VarVec* unionVV(const VarVec* a, const VarVec* b) {
   if (a == b || b->empty()) return a;
   if (a->empty()) return b;
   auto idOf = [](const VarVec* p) { auto it = g_vvid.find(p); if (it != g_vvid.end()) return it->second; u32 i = g_vvid.size(); g_vvid[p] = i; return i; };
   u64 key = ((u64)idOf(a) << 32) | idOf(b);
   auto it = g_vvunion.find(key);
   if (it != g_vvunion.end()) return it->second;
   VarVec r;
   std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
   return g_vvunion[key] = internVV(r);
}
const VarVec* varsOf(X e) {
   if (e->vars) return e->vars;
   static const VarVec* empty = internVV({});
   const VarVec*        r     = empty;
   if (e->op == E_CONST) {
   } else if (e->op == E_VAR)
      r = internVV({ (u32)e->aux });
   else
      for (int i = 0; i < 3; ++i)
         if (e->k[i]) r = unionVV(r, varsOf(e->k[i]));
   const_cast<Expr*>(e)->vars = r;
   return r;
}

// ---------------------------------------------------------------- evaluation
static std::vector<u64>  ev_epoch;
static std::vector<u128> ev_val;
static u64               ev_model = 0;
static u64               ev_cur   = 0;
static u128 ev(X e, const Model& m) {
   if (e->op == E_CONST) return e->c;
   if (e->op == E_VAR) return m.get((u32)e->aux) & maskw(e->w);
   if (ev_epoch[e->id] == ev_cur) return ev_val[e->id];
   u32  w = e->w;
   u128 r = 0;
   switch (e->op) {
   case E_AND: r = ev(e->k[0], m) & ev(e->k[1], m); break;
   case E_OR: r = ev(e->k[0], m) | ev(e->k[1], m); break;
   case E_XOR: r = ev(e->k[0], m) ^ ev(e->k[1], m); break;
   case E_ADD: r = ev(e->k[0], m) + ev(e->k[1], m); break;
   case E_MUL: r = ev(e->k[0], m) * ev(e->k[1], m); break;
   case E_UDIV: { u128 b = ev(e->k[1], m); r = b ? ev(e->k[0], m) / b : ~(u128)0; break; }
   case E_UREM: { u128 b = ev(e->k[1], m); u128 a = ev(e->k[0], m); r = b ? a % b : a; break; }
   case E_SDIV: {
      s128 a = sx(ev(e->k[0], m), w), b = sx(ev(e->k[1], m), w);
      if (b == 0) r = a < 0 ? 1 : ~(u128)0; else if (b == -1) r = (u128)0 - (u128)a; else r = (u128)(a / b);
      break;
   }
   case E_SREM: {
      s128 a = sx(ev(e->k[0], m), w), b = sx(ev(e->k[1], m), w);
      if (b == 0) r = (u128)a; else if (b == -1) r = 0; else r = (u128)(a % b);
      break;
   }
   case E_SHL: { u128 b = ev(e->k[1], m); r = b >= w ? 0 : ev(e->k[0], m) << (u32)b; break; }
   case E_LSHR: { u128 b = ev(e->k[1], m); r = b >= w ? 0 : ev(e->k[0], m) >> (u32)b; break; }
   case E_ASHR: { u128 b = ev(e->k[1], m); s128 a = sx(ev(e->k[0], m), w); r = (u128)(a >> (b >= w ? w - 1 : (u32)b)); break; }
   case E_EQ: r = ev(e->k[0], m) == ev(e->k[1], m); break;
   case E_ULT: r = ev(e->k[0], m) < ev(e->k[1], m); break;
   case E_SLT: r = sx(ev(e->k[0], m), e->k[0]->w) < sx(ev(e->k[1], m), e->k[1]->w); break;
   case E_ITE: r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m); break;
   case E_CONCAT: r = (ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m); break;
   case E_EXTRACT: r = ev(e->k[0], m) >> e->aux; break;
   case E_SEXT: r = (u128)sx(ev(e->k[0], m), e->k[0]->w); break;
   case E_SELECT: {
      const Table* t = (const Table*)e->aux;
      u128         i = ev(e->k[0], m);
      r              = i < t->v.size() ? t->v[(size_t)i] : 0;
      break;
   }
   default: break;
   }
   r &= maskw(w);
   ev_epoch[e->id] = ev_cur;
   ev_val[e->id]   = r;
   return r;
}
u128 evalExpr(X e, const Model& m) {
   if (e->op == E_CONST) return e->c;
   if (ev_epoch.size() <= g_nexprs) { size_t n = (g_nexprs + 1024) * 2; ev_epoch.resize(n, 0); ev_val.resize(n); }
   if (ev_model != m.id) { ev_model = m.id; ++ev_cur; }
   return ev(e, m);
}

// ---------------------------------------------------------------- printing
static std::string hexs(u128 v) {
   char b[64];
   if (v >> 64) snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
   else snprintf(b, sizeof b, "0x%llx", (unsigned long long)v);
   return b;
}
std::string exprStr(X e, int d) {
   if (isC(e)) return hexs(e->c) + ":" + std::to_string(e->w);
   if (e->op == E_VAR) return g_vars[e->aux].name;
   if (d <= 0) return "...";
   std::string s = std::string("(") + eop_name[e->op];
   if (e->op == E_EXTRACT) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
   for (int i = 0; i < 3; ++i)
      if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
   return s + ")";
}
static std::string bvc(u128 v, u32 w) {
   std::string s = "#b";
   for (u32 i = w; i--;) s += ((v >> i) & 1) ? '1' : '0';
   return s;
}
void smtlibQuery(FILE* f, const std::vector<X>& conj, bool getModel, std::vector<u32>* varsOut) {
   fprintf(f, "(set-logic QF_BV)\n");
   std::vector<X>                  order;
   std::unordered_map<X, bool>     seen;
   std::vector<std::pair<X, int>>  st;
   std::vector<u32>                vars;
   for (X c : conj) {
      st.push_back({ c, 0 });
      while (!st.empty()) {
         auto& [e, i] = st.back();
         if (i == 0) {
            if (seen.count(e)) { st.pop_back(); continue; }
            seen[e] = true;
         }
         if (isC(e) || e->op == E_VAR) {
            if (e->op == E_VAR) { vars.push_back((u32)e->aux); fprintf(f, "(declare-const v%u (_ BitVec %u))\n", (u32)e->aux, e->w); }
            st.pop_back();
            continue;
         }
         if (i < 3 && e->k[i]) { X k = e->k[i]; ++i; st.push_back({ k, 0 }); continue; }
         order.push_back(e);
         st.pop_back();
      }
   }
   auto nm = [&](X e) -> std::string {
      if (isC(e)) return bvc(e->c, e->w);
      if (e->op == E_VAR) return "v" + std::to_string((u32)e->aux);
      return "e" + std::to_string(e->id);
   };
   auto asBool = [&](X e) { return "(= " + nm(e) + " #b1)"; };
   for (X e : order) {
      std::string d;
      auto        bin = [&](const char* op) { return std::string("(") + op + " " + nm(e->k[0]) + " " + nm(e->k[1]) + ")"; };
      switch (e->op) {
      case E_AND: d = bin("bvand"); break;
      case E_OR: d = bin("bvor"); break;
      case E_XOR: d = bin("bvxor"); break;
      case E_ADD: d = bin("bvadd"); break;
      case E_MUL: d = bin("bvmul"); break;
      case E_UDIV: d = bin("bvudiv"); break;
      case E_SDIV: d = bin("bvsdiv"); break;
      case E_UREM: d = bin("bvurem"); break;
      case E_SREM: d = bin("bvsrem"); break;
      case E_SHL: d = bin("bvshl"); break;
      case E_LSHR: d = bin("bvlshr"); break;
      case E_ASHR: d = bin("bvashr"); break;
      case E_EQ: d = "(ite " + bin("=") + " #b1 #b0)"; break;
      case E_ULT: d = "(ite " + bin("bvult") + " #b1 #b0)"; break;
      case E_SLT: d = "(ite " + bin("bvslt") + " #b1 #b0)"; break;
      case E_ITE: d = "(ite " + asBool(e->k[0]) + " " + nm(e->k[1]) + " " + nm(e->k[2]) + ")"; break;
      case E_CONCAT: d = bin("concat"); break;
      case E_EXTRACT: d = "((_ extract " + std::to_string(e->aux + e->w - 1) + " " + std::to_string(e->aux) + ") " + nm(e->k[0]) + ")"; break;
      case E_SEXT: d = "((_ sign_extend " + std::to_string(e->w - e->k[0]->w) + ") " + nm(e->k[0]) + ")"; break;
      case E_SELECT: {
         const Table* t = (const Table*)e->aux;
         std::string  tail;
         for (size_t i = 0; i < t->v.size(); ++i) {
            if (e->k[0]->w < 64 && i >= ((size_t)1 << e->k[0]->w)) break;
            d += "(ite (= " + nm(e->k[0]) + " " + bvc(i, e->k[0]->w) + ") " + bvc(t->v[i], t->w) + " ";
            tail += ")";
         }
         d += bvc(0, t->w) + tail;
         break;
      }
      default: break;
      }
      fprintf(f, "(define-fun e%u () (_ BitVec %u) %s)\n", e->id, e->w, d.c_str());
   }
   for (X c : conj) fprintf(f, "(assert %s)\n", asBool(c).c_str());
   fprintf(f, "(check-sat)\n");
   if (getModel) {
      fprintf(f, "(get-value (");
      for (u32 v : vars) fprintf(f, "v%u ", v);
      fprintf(f, "))\n");
   }
   if (varsOut) *varsOut = vars;
}

// ---------------------------------------------------------------- linear integer arithmetic
// The same conjunction over the mathematical integers.  Every operation is translated exactly (wrap-around becomes an explicit
// multiple of 2^w) except those marked inexact, which become unconstrained values of their range: "unsat" is always sound.
static std::string dec(s128 v) {
   bool neg = v < 0;
   u128 u   = neg ? (u128)0 - (u128)v : (u128)v;
   std::string r;
   do { r.insert(r.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while (u);
   return neg ? "(- " + r + ")" : r;
}
bool liaQuery(FILE* f, const std::vector<X>& conj, std::vector<u32>* varsOut, int* ndiv) {
   bool                                    exact = true;
   int                                     fresh = 0, divs = 0;
   std::string                             out;
   std::vector<u32>                        vars;
   std::unordered_map<X, std::string>      I, B;
   std::map<std::pair<X, u128>, std::string> Q;   // floor(a / c)
   auto var = [&](u128 lo, u128 hi) {
      std::string v = "x" + std::to_string(fresh++);
      out += "(declare-const " + v + " Int)(assert (<= " + dec((s128)lo) + " " + v + " " + dec((s128)hi) + "))\n";
      return v;
   };
   auto def = [&](const std::string& s) {
      std::string v = "d" + std::to_string(fresh++);
      out += "(define-fun " + v + " () Int " + s + ")\n";
      return v;
   };
   auto sum = [&](const std::string& a, const std::string& b) { return "(+ " + a + " " + b + ")"; };
   auto mul = [&](u128 c, const std::string& a) { return c == 1 ? a : "(* " + dec((s128)c) + " " + a + ")"; };
   const u128 BIG = (u128)1 << 120;
   // children first, iteratively
   std::vector<X>                 order;
   std::unordered_map<X, bool>    seen;
   std::vector<std::pair<X, int>> st;
   for (X c : conj) {
      st.push_back({ c, 0 });
      while (!st.empty()) {
         auto& [e, i] = st.back();
         if (i == 0) {
            if (seen.count(e)) { st.pop_back(); continue; }
            seen[e] = true;
         }
         if (isC(e) || e->op == E_VAR) { order.push_back(e); st.pop_back(); continue; }
         if (i < 3 && e->k[i]) { X k = e->k[i]; ++i; st.push_back({ k, 0 }); continue; }
         order.push_back(e);
         st.pop_back();
      }
   }
   // modular sums that are the low bits of something whose high bits are also used
   std::map<X, std::pair<X, u32>> low;
   for (X e : order)
      if (e->op == E_EXTRACT && e->aux > 0) {
         X l = mkExtract(e->k[0], 0, (u32)e->aux);
         if (l->op == E_ADD || l->op == E_MUL) low[l] = { e->k[0], (u32)e->aux };
      }
   std::set<X>            busy;
   std::function<void(X)> tr;
   bool                   bad = false;
   auto in = [&](X e) -> std::string {
      auto it = I.find(e);
      if (it == I.end()) { tr(e); it = I.find(e); }
      return it->second;
   };
   auto inB = [&](X e) -> std::string {
      auto it = B.find(e);
      if (it == B.end()) { tr(e); it = B.find(e); }
      return it->second;
   };
   auto viaLow = [&](X e, const std::function<std::string(X, u32)>& f) -> bool {
      auto it = low.find(e);
      if (it == low.end()) return false;
      // not if the wide form is being translated (it would refer to itself)
      std::vector<X> st2{ it->second.first };
      std::set<X>    seen2;
      while (!st2.empty()) {
         X x = st2.back();
         st2.pop_back();
         if (!seen2.insert(x).second) continue;
         if (busy.count(x)) return false;
         if (isC(x) || x->op == E_VAR || I.count(x)) continue;
         for (int i = 0; i < 3; ++i)
            if (x->k[i]) st2.push_back(x->k[i]);
      }
      I[e] = def(f(it->second.first, it->second.second));
      return true;
   };
   auto quot = [&](X a, u128 c) -> std::string {
      if (c == 1) return in(a);
      if (a->mx < c) return "0";
      auto k = std::make_pair(a, c);
      auto it = Q.find(k);
      if (it != Q.end()) return it->second;
      ++divs;
      std::string q = var(a->mn / c, a->mx / c);
      out += "(assert (<= 0 (- " + in(a) + " " + mul(c, q) + ") " + dec((s128)(c - 1)) + "))\n";
      return Q[k] = q;
   };
   auto setB = [&](X e, const std::string& b) {
      std::string v = "b" + std::to_string(fresh++);
      out += "(define-fun " + v + " () Bool " + b + ")\n";
      B[e] = v;
      I[e] = "(ite " + v + " 1 0)";
   };
   auto sgn = [&](X e) -> std::string {   // signed value
      if (e->sl >= 0) return in(e);
      if (e->sh < 0) return "(- " + in(e) + " " + dec((s128)((u128)1 << e->w)) + ")";
      return "(ite (< " + in(e) + " " + dec((s128)((u128)1 << (e->w - 1))) + ") " + in(e) + " (- " + in(e) + " " + dec((s128)((u128)1 << e->w)) + "))";
   };
   auto lowOf = [&](X x, u32 off) { return "(- " + in(x) + " " + mul((u128)1 << off, quot(x, (u128)1 << off)) + ")"; };
   tr = [&](X e) {
      if (I.count(e)) return;
      u32 w = e->w;
      if (w > 120) { bad = true; I[e] = var(0, 1); if (w == 1) B[e] = "true"; return; }
      busy.insert(e);
      struct Done { std::set<X>& s; X e; ~Done() { s.erase(e); } } dn{ busy, e };
      u128 M = (u128)1 << w;
      if (isC(e)) {
         I[e] = dec((s128)e->c);
         if (w == 1) B[e] = e->c ? "true" : "false";
         return;
      }
      auto opaque = [&] {
         exact = false;
         I[e]  = var(e->mn, e->mx);
         if (w == 1) B[e] = "(= " + I[e] + " 1)";
      };
      switch (e->op) {
      case E_VAR: {
         vars.push_back((u32)e->aux);
         std::string v = "v" + std::to_string((u32)e->aux);
         out += "(declare-const " + v + " Int)(assert (<= 0 " + v + " " + dec((s128)maskw(w)) + "))\n";
         I[e] = v;
         if (w == 1) B[e] = "(= " + v + " 1)";
         break;
      }
      case E_AND: case E_OR: case E_XOR:
         if (w == 1) { setB(e, std::string("(") + (e->op == E_AND ? "and " : e->op == E_OR ? "or " : "xor ") + inB(e->k[0]) + " " + inB(e->k[1]) + ")"); break; }
         if (e->op == E_XOR && isOnes(e->k[1])) { I[e] = def("(- " + dec((s128)maskw(w)) + " " + in(e->k[0]) + ")"); break; }
         opaque();
         break;
      case E_ADD: {
         X    a = e->k[0], b = e->k[1];
         if (w == 1) { setB(e, "(xor " + inB(a) + " " + inB(b) + ")"); break; }
         if (isC(b) && a->mn + b->c >= M) { I[e] = def("(- " + in(a) + " " + dec((s128)(M - b->c)) + ")"); break; }
         if (a->mx + b->mx < M) { I[e] = def(sum(in(a), in(b))); break; }
         if (viaLow(e, lowOf)) break;
         std::string k = var(0, 1), v = def("(- " + sum(in(a), in(b)) + " " + mul(M, k) + ")");
         out += "(assert (<= " + dec((s128)e->mn) + " " + v + " " + dec((s128)e->mx) + "))\n";
         I[e] = v;
         break;
      }
      case E_MUL: {
         X a = e->k[0], b = e->k[1];
         if (!isC(b) || w > 64) { opaque(); break; }
         if (b->c && a->mx <= maskw(w) / b->c) { I[e] = def(mul(b->c, in(a))); break; }
         if (viaLow(e, lowOf)) break;
         // c and c - 2^w are the same multiplier: take the smaller
         bool neg = b->c > M / 2;
         u128 c   = neg ? M - b->c : b->c;
         if (c > BIG / (a->mx + 1)) { opaque(); break; }
         u128 span = a->mx * c / M + 1;
         std::string k = var(0, span), v = def(neg ? "(- " + mul(M, k) + " " + mul(c, in(a)) + ")" : "(- " + mul(c, in(a)) + " " + mul(M, k) + ")");
         out += "(assert (<= 0 " + v + " " + dec((s128)maskw(w)) + "))\n";
         I[e] = v;
         break;
      }
      case E_UDIV: case E_UREM: case E_SDIV: case E_SREM: {
         X a = e->k[0], b = e->k[1];
         if (!isC(b) || b->c == 0 || ((e->op == E_SDIV || e->op == E_SREM) && (a->sl < 0 || (b->c >> (w - 1) & 1)))) { opaque(); break; }
         std::string q = quot(a, b->c);
         I[e] = e->op == E_UDIV || e->op == E_SDIV ? q : def("(- " + in(a) + " " + mul(b->c, q) + ")");
         break;
      }
      case E_EXTRACT: {
         X    a = e->k[0];
         u32  off = (u32)e->aux;
         std::string q = quot(a, (u128)1 << off);
         if (off + w < a->w && a->mx >> (off + w)) q = def("(- " + q + " " + mul(M, quot(a, (u128)1 << (off + w))) + ")");
         I[e] = q;
         if (w == 1) B[e] = "(= " + q + " 1)";
         break;
      }
      case E_CONCAT: I[e] = isC(e->k[0], 0) ? in(e->k[1]) : def(sum(mul((u128)1 << e->k[1]->w, in(e->k[0])), in(e->k[1]))); break;
      case E_SEXT: {
         X a = e->k[0];
         u128 h = M - ((u128)1 << a->w);
         I[e] = a->sl >= 0 ? in(a) : def("(ite (< " + in(a) + " " + dec((s128)((u128)1 << (a->w - 1))) + ") " + in(a) + " (+ " + in(a) + " " + dec((s128)h) + "))");
         break;
      }
      case E_EQ:
         if (e->k[0]->w == 1) setB(e, "(= " + inB(e->k[0]) + " " + inB(e->k[1]) + ")");
         else setB(e, "(= " + in(e->k[0]) + " " + in(e->k[1]) + ")");
         break;
      case E_ULT: setB(e, "(< " + in(e->k[0]) + " " + in(e->k[1]) + ")"); break;
      case E_SLT: setB(e, "(< " + sgn(e->k[0]) + " " + sgn(e->k[1]) + ")"); break;
      case E_ITE:
         if (w == 1) setB(e, "(ite " + inB(e->k[0]) + " " + inB(e->k[1]) + " " + inB(e->k[2]) + ")");
         else I[e] = def("(ite " + inB(e->k[0]) + " " + in(e->k[1]) + " " + in(e->k[2]) + ")");
         break;
      case E_SELECT: {
         const Table* t = (const Table*)e->aux;
         X            i = e->k[0];
         if (t->v.size() > 300) { opaque(); break; }
         std::string d, tail;
         for (size_t j = 0; j < t->v.size() && j <= i->mx; ++j) {
            if (j < i->mn) continue;
            d += "(ite (= " + in(i) + " " + std::to_string(j) + ") " + dec((s128)t->v[j]) + " ";
            tail += ")";
         }
         std::string v = var(e->mn, e->mx);
         out += "(assert (= " + v + " " + d + "0" + tail + "))\n";
         I[e] = v;
         if (w == 1) B[e] = "(= " + v + " 1)";
         break;
      }
      default: opaque(); break;
      }
   };
   for (X e : order) tr(e);
   if (bad) exact = false;
   for (auto i = Q.begin(); i != Q.end(); ++i)   // (a / c) / d = a / (c d)
      for (auto j = std::next(i); j != Q.end() && j->first.first == i->first.first; ++j)
         if (j->first.second % i->first.second == 0) {
            u128 d = j->first.second / i->first.second;
            out += "(assert (<= 0 (- " + i->second + " " + mul(d, j->second) + ") " + dec((s128)(d - 1)) + "))\n";
         }
   fprintf(f, "(set-logic QF_LIA)\n%s", out.c_str());
   for (X c : conj) fprintf(f, "(assert %s)\n", inB(c).c_str());
   fprintf(f, "(check-sat)\n");
   if (exact && !vars.empty()) {
      fprintf(f, "(get-value (");
      for (u32 v : vars) fprintf(f, "v%u ", v);
      fprintf(f, "))\n");
   }
   if (varsOut) *varsOut = vars;
   if (ndiv) *ndiv = divs;
   return exact;
}
