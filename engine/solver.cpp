// Bit-vector decision procedure: eager bit-blasting into an incremental CDCL solver (minisat),
// with an external SMT portfolio (z3, cvc5, kissat on the exported CNF) for queries it cannot decide quickly.
#include "solver.h"
#include <sys/prctl.h>
#include <algorithm>
#include <chrono>
#include <cstring>
#include <fcntl.h>
#include <minisat/core/Solver.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

SolverStats g_sst;
double      g_ext_timeout = 60;
double      g_deadline    = 0;      // absolute, same clock as now(); 0: none
long        g_conf_budget = 30000;
int         g_cross_every = 0;

using Minisat::lbool;
static double now() {
   using namespace std::chrono;
   return duration<double>(steady_clock::now().time_since_epoch()).count();
}

typedef int L;   // literal: 2*var+sign ; var 0 is the constant true
static const L LT = 0, LF = 1;
static inline L neg(L l) { return l ^ 1; }

struct Sink {
   virtual int  newVar() = 0;
   virtual void clause(const L* l, int n) = 0;
   virtual ~Sink() {}
};

struct Blaster {
   Sink&                             s;
   std::vector<std::vector<L>>       memo;   // by expr id
   std::vector<std::pair<int, int>>  range;  // sat var range created by this node
   int                               nv = 1;
   Blaster(Sink& s) : s(s) {}
   L nw() { ++nv; return 2 * s.newVar(); }
   void cl(std::initializer_list<L> ls) {
      L   b[8];
      int n = 0;
      for (L l : ls) {
         if (l == LT) return;
         if (l == LF) continue;
         b[n++] = l;
      }
      s.clause(b, n);
   }
   L And(L a, L b) {
      if (a == LF || b == LF || a == neg(b)) return LF;
      if (a == LT) return b;
      if (b == LT || a == b) return a;
      L o = nw();
      cl({ neg(o), a }); cl({ neg(o), b }); cl({ o, neg(a), neg(b) });
      return o;
   }
   L Or(L a, L b) { return neg(And(neg(a), neg(b))); }
   L Xor(L a, L b) {
      if (a == LF) return b;
      if (b == LF) return a;
      if (a == LT) return neg(b);
      if (b == LT) return neg(a);
      if (a == b) return LF;
      if (a == neg(b)) return LT;
      L o = nw();
      cl({ neg(o), a, b }); cl({ neg(o), neg(a), neg(b) }); cl({ o, neg(a), b }); cl({ o, a, neg(b) });
      return o;
   }
   L Mux(L c, L a, L b) {
      if (c == LT) return a;
      if (c == LF) return b;
      if (a == b) return a;
      if (a == LT) return Or(c, b);
      if (a == LF) return And(neg(c), b);
      if (b == LT) return Or(neg(c), a);
      if (b == LF) return And(c, a);
      if (a == neg(b)) return neg(Xor(c, a));
      if (c == a) return Or(c, b);
      if (c == b) return And(c, a);
      L o = nw();
      cl({ neg(c), neg(a), o }); cl({ neg(c), a, neg(o) }); cl({ c, neg(b), o }); cl({ c, b, neg(o) });
      cl({ neg(a), neg(b), o }); cl({ a, b, neg(o) });
      return o;
   }
   L Maj(L a, L b, L c) {
      if (a == LF) return And(b, c);
      if (b == LF) return And(a, c);
      if (c == LF) return And(a, b);
      if (a == LT) return Or(b, c);
      if (b == LT) return Or(a, c);
      if (c == LT) return Or(a, b);
      if (a == b) return a;
      if (a == c) return a;
      if (b == c) return b;
      if (a == neg(b)) return c;
      if (a == neg(c)) return b;
      if (b == neg(c)) return a;
      L o = nw();
      cl({ neg(a), neg(b), o }); cl({ neg(a), neg(c), o }); cl({ neg(b), neg(c), o });
      cl({ a, b, neg(o) }); cl({ a, c, neg(o) }); cl({ b, c, neg(o) });
      return o;
   }
   L Xor3(L a, L b, L c) {
      if (a <= 1 || b <= 1 || c <= 1 || (a | 1) == (b | 1) || (a | 1) == (c | 1) || (b | 1) == (c | 1)) return Xor(Xor(a, b), c);
      L o = nw();
      cl({ a, b, c, neg(o) }); cl({ a, neg(b), neg(c), neg(o) }); cl({ neg(a), b, neg(c), neg(o) }); cl({ neg(a), neg(b), c, neg(o) });
      cl({ neg(a), neg(b), neg(c), o }); cl({ neg(a), b, c, o }); cl({ a, neg(b), c, o }); cl({ a, b, neg(c), o });
      return o;
   }
   typedef std::vector<L> B;
   B addv(const B& a, const B& b, L cin, L* cout = nullptr) {
      B r(a.size());
      for (size_t i = 0; i < a.size(); ++i) {
         r[i] = Xor3(a[i], b[i], cin);
         if (i + 1 < a.size() || cout) cin = Maj(a[i], b[i], cin);
      }
      if (cout) *cout = cin;
      return r;
   }
   static B notv(const B& a) { B r(a); for (auto& l : r) l = neg(l); return r; }
   static B constv(u128 c, u32 w) { B r(w); for (u32 i = 0; i < w; ++i) r[i] = ((c >> i) & 1) ? LT : LF; return r; }
   L ult(const B& a, const B& b) {   // a < b
      L lt = LF;
      for (size_t i = 0; i < a.size(); ++i) lt = Maj(neg(a[i]), b[i], lt);
      return lt;
   }
   L andAll(const B& v) {   // n-ary and
      B x;
      for (L l : v) {
         if (l == LF) return LF;
         if (l == LT) continue;
         x.push_back(l);
      }
      std::sort(x.begin(), x.end());
      x.erase(std::unique(x.begin(), x.end()), x.end());
      for (size_t i = 1; i < x.size(); ++i)
         if ((x[i] ^ 1) == x[i - 1]) return LF;
      if (x.empty()) return LT;
      if (x.size() == 1) return x[0];
      if (x.size() == 2) return And(x[0], x[1]);
      L              o = nw();
      std::vector<L> c{ o };
      for (L l : x) { cl({ neg(o), l }); c.push_back(neg(l)); }
      s.clause(c.data(), (int)c.size());
      return o;
   }
   L eqv(const B& a, const B& b) {
      B x(a.size());
      for (size_t i = 0; i < a.size(); ++i) x[i] = neg(Xor(a[i], b[i]));
      return andAll(x);
   }
   B mulv(const B& a, const B& b, size_t w) {
      B acc(w, LF);
      for (size_t i = 0; i < b.size() && i < w; ++i) {
         if (b[i] == LF) continue;
         B p(w, LF);
         for (size_t j = 0; i + j < w && j < a.size(); ++j) p[i + j] = And(a[j], b[i]);
         acc = addv(acc, p, LF);
      }
      return acc;
   }
   B mulConst(const B& a, u128 c, size_t w) {   // canonical signed digit
      B    acc(w, LF);
      u128 m = w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
      c &= m;
      size_t i = 0;
      while (c && i < w) {
         if (c & 1) {
            bool minus = (c & 3) == 3;
            B    p(w, LF);
            for (size_t j = 0; i + j < w && j < a.size(); ++j) p[i + j] = a[j];
            if (minus) { acc = addv(acc, notv(p), LT); c += 1; }
            else { acc = addv(acc, p, LF); c -= 1; }
         }
         c >>= 1;
         ++i;
      }
      return acc;
   }
   // unsigned division, total (SMT-LIB semantics for zero)
   void divrem(const B& a, const B& b, bool bconst, u128 bc, B& q, B& r) {
      size_t w = a.size();
      q.assign(w, LF);
      r.assign(w, LF);
      if (bconst) {
         // q*b + r = a, r < b, no overflow: q has at most w - floor(log2 b) bits
         size_t lb = 0;
         while (lb < 127 && bc >> (lb + 1)) ++lb;
         if (lb + 1 >= w) {   // quotient 0 or 1
            B bb = constv(bc, w);
            q[0] = neg(ult(a, bb));
            for (auto& l : bb) if (l == LT) l = q[0];
            r = addv(a, notv(bb), LT);
            return;
         }
         size_t qb = w - lb;
         for (size_t i = 0; i < qb; ++i) q[i] = nw();
         for (size_t i = 0; i <= lb && i < w; ++i) r[i] = nw();
         B qq(q.begin(), q.begin() + qb);
         B p = mulConst(qq, bc, w + 1);
         B rr(r); rr.push_back(LF);
         B aa(a); aa.push_back(LF);
         B sum = addv(p, rr, LF);
         for (size_t i = 0; i <= w; ++i) { L x = Xor(sum[i], aa[i]); cl({ neg(x) }); }
         cl({ ult(r, constv(bc, w)) });
         return;
      }
      // restoring division
      B rem(w, LF);
      for (size_t i = w; i--;) {
         B sh(w + 1);
         sh[0] = a[i];
         for (size_t j = 0; j < w; ++j) sh[j + 1] = rem[j];
         B bb(b); bb.push_back(LF);
         L ge = neg(ult(sh, bb));
         q[i] = ge;
         B d  = addv(sh, notv(bb), LT);
         for (size_t j = 0; j < w; ++j) rem[j] = Mux(ge, d[j], sh[j]);
      }
      r = rem;   // for b == 0: ge always true => q = all ones, r = a   (matches SMT-LIB)
   }
   B shiftv(const B& a, const B& amt, int kind) {  // 0 shl 1 lshr 2 ashr
      size_t w    = a.size();
      L      fill = kind == 2 ? a[w - 1] : LF;
      B      r(a);
      size_t st = 0;
      while (((size_t)1 << st) < w) ++st;
      for (size_t i = 0; i < st && i < amt.size(); ++i) {
         size_t k = (size_t)1 << i;
         B      n(w);
         for (size_t j = 0; j < w; ++j) {
            L src = kind == 0 ? (j >= k ? r[j - k] : LF) : (j + k < w ? r[j + k] : fill);
            n[j]  = Mux(amt[i], src, r[j]);
         }
         r = n;
      }
      // overflow: amt >= w
      L ge = LF;
      if (amt.size() > st || ((size_t)1 << st) != w) {
         B wc = constv(w, (u32)amt.size());
         if (amt.size() >= 7 || ((size_t)1 << amt.size()) > w) ge = neg(ult(amt, wc));
      }
      if (ge != LF)
         for (auto& l : r) l = Mux(ge, fill, l);
      return r;
   }
   B selectv(const Table* t, const B& idx) {
      // Shannon expansion, shared over constant sub-vectors
      u32            w = t->w;
      B              out(w);
      for (u32 bit = 0; bit < w; ++bit) {
         std::vector<L> cur;
         size_t         n = (size_t)1 << idx.size();
         cur.resize(n);
         for (size_t i = 0; i < n; ++i) cur[i] = i < t->v.size() && ((t->v[i] >> bit) & 1) ? LT : LF;
         for (size_t lv = 0; lv < idx.size(); ++lv) {
            std::vector<L>         nx(cur.size() / 2);
            std::vector<std::pair<u64, L>> cache;
            std::unordered_map<u64, L> mm;
            for (size_t i = 0; i < nx.size(); ++i) {
               u64  key = ((u64)(u32)cur[2 * i] << 32) | (u32)cur[2 * i + 1];
               auto it  = mm.find(key);
               if (it != mm.end()) nx[i] = it->second;
               else mm[key] = nx[i] = Mux(idx[lv], cur[2 * i + 1], cur[2 * i]);
            }
            cur.swap(nx);
         }
         out[bit] = cur[0];
      }
      return out;
   }
   const B& get(X e) {
      if (memo.size() <= e->id) { size_t n = std::max<size_t>(e->id + 1, memo.size() * 2); memo.resize(n); range.resize(n, { 0, 0 }); }
      if (!memo[e->id].empty()) return memo[e->id];
      // blast children first
      if (e->op != E_CONST && e->op != E_VAR)
         for (int i = 0; i < 3; ++i)
            if (e->k[i]) get(e->k[i]);
      int v0 = nv;
      B   r;
      u32 w = e->w;
      auto K = [&](int i) -> const B& { return memo[e->k[i]->id]; };
      switch (e->op) {
      case E_CONST: r = constv(e->c, w); break;
      case E_VAR: r.resize(w); for (auto& l : r) l = nw(); break;
      case E_AND: r.resize(w); for (u32 i = 0; i < w; ++i) r[i] = And(K(0)[i], K(1)[i]); break;
      case E_OR: r.resize(w); for (u32 i = 0; i < w; ++i) r[i] = Or(K(0)[i], K(1)[i]); break;
      case E_XOR: r.resize(w); for (u32 i = 0; i < w; ++i) r[i] = Xor(K(0)[i], K(1)[i]); break;
      case E_ADD: {
         X a = e->k[0], b = e->k[1];
         if (a->op == E_MUL && a->k[1]->op == E_CONST && a->k[1]->c == maskw(w)) std::swap(a, b);
         if (b->op == E_MUL && b->k[1]->op == E_CONST && b->k[1]->c == maskw(w)) {
            B x = get(a), y = get(b->k[0]);
            r   = addv(x, notv(y), LT);
         } else { B x = get(a), y = get(b); r = addv(x, y, LF); }
         break;
      }
      case E_MUL:
         if (e->k[1]->op == E_CONST) r = mulConst(K(0), e->k[1]->c, w);
         else { B x = K(0), y = K(1); r = mulv(x, y, w); }
         break;
      case E_UDIV:
      case E_UREM: {
         B q, rm, x = K(0), y = K(1);
         divrem(x, y, e->k[1]->op == E_CONST, e->k[1]->op == E_CONST ? e->k[1]->c : 0, q, rm);
         r = e->op == E_UDIV ? q : rm;
         break;
      }
      case E_SDIV:
      case E_SREM: {
         B x = K(0), y = K(1);
         L sa = x[w - 1], sb = y[w - 1];
         auto absv = [&](const B& v, L s) { B t(w); for (u32 i = 0; i < w; ++i) t[i] = Xor(v[i], s); return addv(t, constv(0, w), s); };
         B ax = absv(x, sa), ay = absv(y, sb), q, rm;
         bool bc = e->k[1]->op == E_CONST;
         u128 bcv = 0;
         if (bc) { s128 v = sx(e->k[1]->c, w); bcv = (u128)(v < 0 ? -v : v) & maskw(w); }
         divrem(ax, ay, bc, bcv, q, rm);
         if (e->op == E_SDIV) r = absv(q, Xor(sa, sb));
         else r = absv(rm, sa);
         break;
      }
      case E_SHL: { B x = K(0), y = K(1); r = shiftv(x, y, 0); break; }
      case E_LSHR: { B x = K(0), y = K(1); r = shiftv(x, y, 1); break; }
      case E_ASHR: { B x = K(0), y = K(1); r = shiftv(x, y, 2); break; }
      case E_EQ: { B x = K(0), y = K(1); r = { eqv(x, y) }; break; }
      case E_ULT: { B x = K(0), y = K(1); r = { ult(x, y) }; break; }
      case E_SLT: {
         B x = K(0), y = K(1);
         x.back() = neg(x.back());
         y.back() = neg(y.back());
         r = { ult(x, y) };
         break;
      }
      case E_ITE: { L c = K(0)[0]; r.resize(w); for (u32 i = 0; i < w; ++i) r[i] = Mux(c, K(1)[i], K(2)[i]); break; }
      case E_CONCAT: r = K(1); r.insert(r.end(), K(0).begin(), K(0).end()); break;
      case E_EXTRACT: r.assign(K(0).begin() + e->aux, K(0).begin() + e->aux + w); break;
      case E_SEXT: { r = K(0); L sgn = r.back(); r.resize(w, sgn); break; }
      case E_SELECT: { B i = K(0); r = selectv((const Table*)e->aux, i); break; }
      }
      range[e->id] = { v0, nv };
      memo[e->id]  = r;
      return memo[e->id];
   }
};

struct MiniSink : Sink {
   Minisat::Solver s;
   bool            dead = false;
   MiniSink() {
      s.newVar(l_Undef, false);
      s.addClause(Minisat::mkLit(0, false));
   }
   int newVar() override { return s.newVar(l_Undef, false); }
   void clause(const L* l, int n) override {
      Minisat::vec<Minisat::Lit> c;
      for (int i = 0; i < n; ++i) c.push(Minisat::toLit(l[i]));
      if (!s.addClause(c)) dead = true;
   }
};
struct CnfSink : Sink {
   int                nvars = 1;
   std::vector<std::vector<L>> cls;
   int  newVar() override { return nvars++; }
   void clause(const L* l, int n) override { cls.emplace_back(l, l + n); }
};

static MiniSink* ms = nullptr;
static Blaster*  bl = nullptr;
static std::vector<u32> mark;   // by expr id
static u32              markCur = 0;

static void resetSolver() {
   delete bl;
   delete ms;
   ms = new MiniSink;
   bl = new Blaster(*ms);
}

static SatRes solveMini(const std::vector<X>& conj, Model& m, long budget) {
   if (!ms || ms->s.nVars() > 1500000 || ms->s.nClauses() > 6000000) resetSolver();
   Minisat::vec<Minisat::Lit> as;
   for (X c : conj) {
      L l = bl->get(c)[0];
      if (l == LT) continue;
      if (l == LF) return R_UNSAT;
      as.push(Minisat::toLit(l));
   }
   if (ms->dead) fatal("solver instance inconsistent");
   // cone
   if (mark.size() <= g_nexprs) mark.resize((g_nexprs + 1024) * 2, 0);
   ++markCur;
   std::vector<X>   st(conj.begin(), conj.end());
   std::vector<int> cone;
   std::vector<u32> vars;
   while (!st.empty()) {
      X e = st.back();
      st.pop_back();
      if (mark[e->id] == markCur) continue;
      mark[e->id] = markCur;
      auto r = bl->range[e->id];
      for (int v = r.first; v < r.second; ++v) cone.push_back(v);
      if (e->op == E_VAR) { vars.push_back((u32)e->aux); continue; }
      if (e->op == E_CONST) continue;
      for (int i = 0; i < 3; ++i)
         if (e->k[i] && mark[e->k[i]->id] != markCur) st.push_back(e->k[i]);
   }
   for (int v : cone) ms->s.setDecisionVar(v, true);
   ms->s.setConfBudget(budget);
   // conflicts can be arbitrarily slow: bound the time as well
   static bool installed = false;
   if (!installed) {
      struct sigaction sa;
      memset(&sa, 0, sizeof sa);
      sa.sa_handler = [](int) { if (ms) ms->s.interrupt(); };
      sa.sa_flags   = SA_RESTART;
      sigaction(SIGALRM, &sa, nullptr);
      installed = true;
   }
   itimerval tv;
   memset(&tv, 0, sizeof tv);
   tv.it_value.tv_sec = budget > 1000 ? 10 : 3;
   ms->s.clearInterrupt();
   setitimer(ITIMER_REAL, &tv, nullptr);
   Minisat::lbool r = ms->s.solveLimited(as);
   memset(&tv, 0, sizeof tv);
   setitimer(ITIMER_REAL, &tv, nullptr);
   for (int v : cone) ms->s.setDecisionVar(v, false);
   using namespace Minisat;
   if (r == l_Undef) return R_UNKNOWN;
   if (r == l_False) { if (!ms->s.okay()) fatal("solver instance became inconsistent"); return R_UNSAT; }
   for (u32 v : vars) {
      X        e = g_vars[v].e;
      auto&    b = bl->memo[e->id];
      u128     x = 0;
      for (u32 i = 0; i < e->w; ++i)
         if (ms->s.modelValue(Minisat::toLit(b[i])) == l_True) x |= (u128)1 << i;
      m.set(v, x);
   }
   return R_SAT;
}

// ---------------------------------------------------------------- external portfolio
static std::string tmpName(const char* ext) {
   static int n = 0;
   const char* d = getenv("ABISYM_TMP");
   return std::string(d ? d : "/tmp") + "/q" + std::to_string(getpid()) + "_" + std::to_string(n++) + ext;
}
struct Ext { pid_t pid; std::string out; int kind; };
static Ext launch(const std::vector<std::string>& argv, int kind) {
   Ext e;
   e.out  = tmpName(".out");
   e.kind = kind;
   e.pid  = fork();
   if (e.pid == 0) {
      setpgid(0, 0);
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      int fd = open(e.out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      dup2(fd, 1);
      int dn = open("/dev/null", O_RDWR);
      dup2(dn, 2);
      dup2(dn, 0);
      std::vector<char*> a;
      for (auto& s : argv) a.push_back(const_cast<char*>(s.c_str()));
      a.push_back(nullptr);
      execvp(a[0], a.data());
      _exit(127);
   }
   return e;
}
static std::string slurp(const std::string& p) {
   std::string s;
   FILE*       f = fopen(p.c_str(), "r");
   if (!f) return s;
   char b[65536];
   size_t n;
   while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
   fclose(f);
   return s;
}
static bool parseSmtModel(const std::string& s, Model& m) {
   // ((v12 #x00) (v13 #b0101) ...)
   size_t p = 0;
   while ((p = s.find("(v", p)) != std::string::npos) {
      p += 2;
      u32 v = (u32)strtoul(s.c_str() + p, nullptr, 10);
      size_t h = s.find('#', p);
      if (h == std::string::npos) return false;
      u128 x = 0;
      if (s[h + 1] == 'x') for (size_t i = h + 2; isxdigit((unsigned char)s[i]); ++i) x = x * 16 + (isdigit((unsigned char)s[i]) ? s[i] - '0' : (tolower(s[i]) - 'a' + 10));
      else for (size_t i = h + 2; s[i] == '0' || s[i] == '1'; ++i) x = x * 2 + (s[i] - '0');
      m.set(v, x);
      p = h;
   }
   return true;
}
// the answer of a linear integer arithmetic solver
static SatRes liaAnswer(const std::string& o, bool exact, const std::vector<X>& conj, Model& m) {
   if (o.compare(0, 5, "unsat") == 0) return R_UNSAT;
   if (!exact || o.compare(0, 3, "sat") != 0) return R_UNKNOWN;
   size_t p = 0;   // ((v12 17) (v13 0))
   while ((p = o.find("(v", p)) != std::string::npos) {
      p += 2;
      u32 v = (u32)strtoul(o.c_str() + p, nullptr, 10);
      size_t q = o.find(' ', p);
      u128   x = 0;
      for (++q; isdigit((unsigned char)o[q]); ++q) x = x * 10 + (unsigned)(o[q] - '0');
      m.set(v, x);
   }
   for (X c : conj)
      if (!evalExpr(c, m)) return R_UNKNOWN;
   return R_SAT;
}
SatRes solveExternal(const std::vector<X>& conj, Model& m, double timeout, bool lia) {
   double t0 = now();
   ++g_sst.external;
   std::string smt = tmpName(".smt2"), cnf = tmpName(".cnf");
   FILE*       f   = fopen(smt.c_str(), "w");
   if (!f) fatal("cannot write %s", smt.c_str());
   smtlibQuery(f, conj, true, nullptr);
   fclose(f);
   CnfSink cs;
   Blaster cb(cs);
   bool    triv = false;
   for (X c : conj) {
      L l = cb.get(c)[0];
      if (l == LT) continue;
      if (l == LF) triv = true;
      cs.cls.push_back({ l });
   }
   if (triv) { unlink(smt.c_str()); return R_UNSAT; }
   f = fopen(cnf.c_str(), "w");
   fprintf(f, "p cnf %d %zu\n1 0\n", cs.nvars, cs.cls.size() + 1);
   for (auto& c : cs.cls) {
      for (L l : c) fprintf(f, "%d ", (l & 1) ? -(l / 2 + 1) : (l / 2 + 1));
      fprintf(f, "0\n");
   }
   fclose(f);
   std::vector<Ext> ex;
   ex.push_back(launch({ "kissat", "-q", cnf }, 1));
   ex.push_back(launch({ "z3-new", smt }, 0));
   ex.push_back(launch({ "cvc5", "--produce-models", smt }, 0));
   std::string lf = tmpName(".lia.smt2");
   bool        exact = false;
   if (lia) {
      f = fopen(lf.c_str(), "w");
      if (!f) fatal("cannot write %s", lf.c_str());
      exact = liaQuery(f, conj, nullptr, nullptr);
      fclose(f);
      ex.push_back(launch({ "z3-new", lf }, 2));
      ex.push_back(launch({ "z3-new", "smt.arith.solver=2", lf }, 2));
   }
   SatRes res = R_UNKNOWN;
   while (res == R_UNKNOWN && now() - t0 < timeout && !ex.empty()) {
      int   st;
      bool  any = false;
      for (size_t i = 0; i < ex.size() && res == R_UNKNOWN; ++i) {
         if (waitpid(ex[i].pid, &st, WNOHANG) != ex[i].pid) continue;
         any          = true;
         std::string o = slurp(ex[i].out);
         unlink(ex[i].out.c_str());
         if (ex[i].kind == 2) res = liaAnswer(o, exact, conj, m);
         else if (ex[i].kind == 1) {
            if (o.find("s UNSATISFIABLE") != std::string::npos) res = R_UNSAT;
            else if (o.find("s SATISFIABLE") != std::string::npos) {
               std::vector<char> val(cs.nvars + 1, 0);
               size_t            p = 0;
               while (p < o.size()) {
                  size_t e = o.find('\n', p);
                  if (e == std::string::npos) e = o.size();
                  if (o[p] == 'v') {
                     const char* q = o.c_str() + p + 1;
                     char*       n;
                     while (true) {
                        long x = strtol(q, &n, 10);
                        if (n == q || n > o.c_str() + e) break;
                        if (x > 0 && x <= cs.nvars) val[x] = 1;
                        q = n;
                     }
                  }
                  p = e + 1;
               }
               for (auto& vi : g_vars) {
                  if (vi.e->id >= cb.memo.size() || cb.memo[vi.e->id].empty()) continue;
                  u128 x = 0;
                  auto& b = cb.memo[vi.e->id];
                  for (u32 i2 = 0; i2 < vi.w; ++i2)
                     if (val[b[i2] / 2 + 1] != (b[i2] & 1)) x |= (u128)1 << i2;
                  m.set((u32)vi.e->aux, x);
               }
               res = R_SAT;
            }
         } else {
            bool err = o.find("(error") != std::string::npos;
            if (o.compare(0, 5, "unsat") == 0) res = R_UNSAT;   // get-value afterwards errors by design
            else if (!err && o.compare(0, 3, "sat") == 0 && parseSmtModel(o, m)) res = R_SAT;
         }
         ex.erase(ex.begin() + i);
         --i;
      }
      if (!any) usleep(3000);
   }
   for (auto& e : ex) {
      kill(e.pid, SIGKILL);
      int st;
      waitpid(e.pid, &st, 0);
      unlink(e.out.c_str());
   }
   if (getenv("ABISYM_KEEP")) fprintf(stderr, "kept %s %s\n", smt.c_str(), cnf.c_str());
   else { unlink(smt.c_str()); unlink(cnf.c_str()); if (lia) unlink(lf.c_str()); }
   g_sst.extTime += now() - t0;
   return res;
}

// divisions by constants that are not powers of two: the arithmetic the bit-blaster is bad at
static bool arithmetic(const std::vector<X>& conj) {
   if (mark.size() <= g_nexprs) mark.resize((g_nexprs + 1024) * 2, 0);
   ++markCur;
   int            n = 0;
   std::vector<X> st(conj.begin(), conj.end());
   while (!st.empty()) {
      X e = st.back();
      st.pop_back();
      if (mark[e->id] == markCur || e->op == E_CONST || e->op == E_VAR) continue;
      mark[e->id] = markCur;
      if (e->op == E_UDIV || e->op == E_UREM) { if (e->k[1]->op != E_CONST) return false; ++n; }
      if (e->w > 120) return false;
      if (e->op == E_MUL) { if (e->k[1]->op != E_CONST) return false; ++n; }
      if (e->w > 1 && (e->op == E_AND || e->op == E_OR || e->op == E_SHL || e->op == E_LSHR || e->op == E_ASHR)) return false;
      for (int i = 0; i < 3; ++i)
         if (e->k[i] && mark[e->k[i]->id] != markCur) st.push_back(e->k[i]);
   }
   return n >= 4;
}
static SatRes solveLia(const std::vector<X>& conj, Model& m, double timeout) {
   std::string smt = tmpName(".lia.smt2");
   FILE*       f   = fopen(smt.c_str(), "w");
   if (!f) fatal("cannot write %s", smt.c_str());
   std::vector<u32> vars;
   bool             exact = liaQuery(f, conj, &vars, nullptr);
   fclose(f);
   ++g_sst.external;
   double t0  = now();
   std::vector<Ext> ex;
   ex.push_back(launch({ "z3-new", smt }, 0));
   ex.push_back(launch({ "z3-new", "smt.arith.solver=2", smt }, 0));
   ex.push_back(launch({ "cvc5", "--produce-models", smt }, 0));
   std::string o;
   bool        got = false;
   while (!got && now() - t0 < timeout && !ex.empty()) {
      int  st;
      bool any = false;
      for (size_t i = 0; i < ex.size() && !got; ++i) {
         if (waitpid(ex[i].pid, &st, WNOHANG) != ex[i].pid) continue;
         any = true;
         o   = slurp(ex[i].out);
         unlink(ex[i].out.c_str());
         got = o.compare(0, 5, "unsat") == 0 || o.compare(0, 3, "sat") == 0;
         ex.erase(ex.begin() + i);
         --i;
      }
      if (!any) usleep(2000);
   }
   for (auto& e : ex) {
      kill(e.pid, SIGKILL);
      int st;
      waitpid(e.pid, &st, 0);
      unlink(e.out.c_str());
   }
   if (getenv("ABISYM_KEEP")) fprintf(stderr, "kept %s\n", smt.c_str());
   else unlink(smt.c_str());
   g_sst.extTime += now() - t0;
   if (!got) return R_UNKNOWN;
   return liaAnswer(o, exact, conj, m);
}

// Truth table: a query over variables with few values altogether is decided by evaluating it for
// each of their assignments (hashes and long divisions of one byte, hopeless for clause learning).
static u64 assignments(const std::vector<X>& conj, std::vector<u32>& vars) {
   for (X c : conj) { const VarVec* v = varsOf(c); if (v) vars.insert(vars.end(), v->begin(), v->end()); }
   std::sort(vars.begin(), vars.end());
   vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
   u64 n = 1;
   for (u32 v : vars) {
      u128 mx = g_vars[v].e->mx;
      if (mx >= 4096 || (n *= (u64)mx + 1) > 4096) return 0;
   }
   return n;
}
static SatRes solveTable(const std::vector<X>& conj, const std::vector<u32>& vars, u64 n, Model& m) {
   Model t;
   for (u64 i = 0; i < n; ++i) {
      u64 k = i;
      for (u32 v : vars) { u64 d = (u64)g_vars[v].e->mx + 1; t.set(v, k % d); k /= d; }
      bool ok = true;
      for (X c : conj) if (!evalExpr(c, t)) { ok = false; break; }
      if (ok) { for (u32 v : vars) m.set(v, t.get(v)); return R_SAT; }
   }
   ++g_sst.tables;
   return R_UNSAT;
}

SatRes solveConj(const std::vector<X>& conj, Model& m) {
   double t0 = now();
   ++g_sst.queries;
   if (g_deadline > 0 && t0 > g_deadline + 5) return R_UNKNOWN;
   bool   ar = arithmetic(conj);
   std::vector<u32> vars;
   u64    table = assignments(conj, vars);
   SatRes r  = table && table <= 256 ? R_UNKNOWN : solveMini(conj, m, table ? std::min(g_conf_budget, 100L) : ar ? std::min(g_conf_budget, 300L) : g_conf_budget);
   bool   byTable = table && r == R_UNKNOWN;
   if (byTable) { r = solveTable(conj, vars, table, m); ar = false; }
   if (ar && r == R_UNKNOWN) {
      r = solveLia(conj, m, 3.0);
      if (r == R_UNKNOWN) r = solveMini(conj, m, g_conf_budget);
   }
   if (r == R_UNKNOWN) {
      double lim = g_ext_timeout;
      if (g_deadline > 0) lim = std::min(lim, std::max(3.0, g_deadline - now()));
      r = solveExternal(conj, m, lim, ar);
   } else if (r == R_UNSAT && !byTable && g_cross_every && (g_sst.unsat % g_cross_every) == 0) {
      // second opinion from an independent SMT solver
      Model  m2;
      std::string smt = tmpName(".smt2");
      FILE*       f   = fopen(smt.c_str(), "w");
      smtlibQuery(f, conj, false, nullptr);
      fclose(f);
      Ext    e = launch({ "z3-new", "-T:20", smt }, 0);
      int    st;
      waitpid(e.pid, &st, 0);
      std::string o = slurp(e.out);
      unlink(e.out.c_str());
      unlink(smt.c_str());
      if (o.compare(0, 5, "unsat") == 0) ++g_sst.cross;
      else if (o.compare(0, 3, "sat") == 0) { ++g_sst.crossBad; fatal("solver disagreement: bit-blaster says unsat, z3 says sat"); }
   }
   double dt = now() - t0;
   g_sst.time += dt;
   static const double slow = getenv("ABISYM_SLOW") ? atof(getenv("ABISYM_SLOW")) : 0;
   if (slow > 0 && dt > slow) {
      fprintf(stderr, "SLOW %.2fs result %d\n", dt, (int)r);
      for (X c : conj) fprintf(stderr, "   %.4000s\n", exprStr(c, 12).c_str());
   }
   if (dt > g_sst.maxq) g_sst.maxq = dt;
   if (r == R_SAT) ++g_sst.sat; else if (r == R_UNSAT) ++g_sst.unsat; else ++g_sst.unknown;
   // trust, but verify: a model must satisfy the conjunction
   if (r == R_SAT)
      for (X c : conj)
         if (!evalExpr(c, m)) fatal("solver model does not satisfy the query: %s", exprStr(c, 8).c_str());
   return r;
}
