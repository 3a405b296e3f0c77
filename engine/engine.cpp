// abisym: a small symbolic executor for LLVM-18 bitcode.
#include "mem.h"
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/MapVector.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <fcntl.h>
#include <map>
#include <random>
#include <set>
#include <signal.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace llvm;

static double nowS() {
   using namespace std::chrono;
   return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ decoded program
enum IOp : uint8_t {
   O_BIN, O_ICMP, O_FCMP, O_FBIN, O_FUN, O_SELECT, O_TRUNCI, O_ZEXT, O_SEXT, O_COPY, O_LOAD, O_STORE, O_ALLOCA, O_GEP,
   O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_UNREACHABLE, O_RESUME, O_LANDINGPAD, O_MOVES, O_RMW, O_CMPXCHG,
   O_FPCAST, O_NOP, O_UNSUPPORTED
};
struct Edge { int bb = -1; u32 pc = 0; std::vector<std::pair<int, int>> copies; };   // dst <- operand
struct MemPart { u64 off; u16 w; };
struct Ext {
   std::vector<int>                 ops;       // generic operand list
   std::vector<Edge>                edges;
   // gep
   u64                              cst = 0;
   std::vector<std::pair<int, std::pair<u64, u16>>> var;   // operand, (scale,width)
   // load/store
   std::vector<MemPart>             parts;
   // call
   Function*                        callee = nullptr;
   int                              ext = -1;  // intrinsic/external handler
   std::vector<u64>                 byval;     // per arg operand: byval size or 0
   int                              nret = 0;
   u16                              retw = 0;
   bool                             invoke = false;
   std::vector<u16>                 argw;
   // switch
   std::vector<u128>                cases;
   // landingpad
   std::vector<GlobalVariable*>     clauses;   // nullptr = catch all
   bool                             cleanup = false;
   // range metadata
   bool                             hasRange = false;
   u128                             rlo = 0, rhi = 0;
   std::string                      text;
};
struct Inst {
   IOp     op;
   uint8_t sub = 0;
   u16     w = 0, w2 = 0;
   int     dst = -1;
   int     a = 0, b = 0, c = 0;
   int     ext = -1;
   const Instruction* I = nullptr;
};
struct Fn {
   Function*                F;
   u32                      id;
   std::vector<Inst>        code;
   std::vector<Ext*>        exts;
   std::vector<Val>         consts;
   int                      nregs = 0;
   std::vector<std::pair<int, int>> args;   // slot, nslots
   bool                     decoded = false, executed = false;
   u64                      icount = 0;
   std::unordered_map<const BasicBlock*, u32> bbpc;
   std::unordered_map<const BasicBlock*, std::vector<std::pair<int, u32>>> phis;   // width 0: not mergeable
   std::unordered_map<const BasicBlock*, struct JoinInfo> joins;
   std::unordered_map<const BasicBlock*, const BasicBlock*> ipdom;
   bool                     pdDone = false;
   int                      cost = -1;
};
struct JoinInfo { int kind = 0; const BasicBlock* bb = nullptr; };   // 0 none, 1 block, 2 function return

struct Frame {
   Fn*              fn = nullptr;
   u32              pc = 0;
   std::vector<Val> r;
   std::vector<u32> allocas;
   u64              freeExc = 0;
   bool             isTop = false;
   std::vector<Val> va;      // variable arguments of a variadic function
};
struct ExcInfo { u64 obj; GlobalVariable* ti; u64 dtor; int handlers; };
struct Input { std::string name; std::vector<std::pair<Val, u16>> v; };
struct State {
   Mem                      mem;
   u32                      nextId = 1;
   std::vector<Frame>       fr;
   std::vector<X>           cons;
   std::unordered_set<u32>  known;
   std::shared_ptr<Model>   model;
   std::vector<ExcInfo>     excs;
   std::vector<u64>         caught;
   u64                      curExc = 0;
   int                      curSel = 0;
   std::vector<Input>       inputs;
   std::vector<std::pair<std::string, std::vector<std::pair<Val, u16>>>> observes;
   std::map<std::string, int> symCount;
   std::set<std::string>    known_findings;
   u64                      steps = 0, allocCap = 0, allocTotal = 0;
   u32                      forks = 0;
   bool                     unwinding = false, parkNow = false;
   std::vector<struct MG*>  mg;                // open merge groups, innermost last
};
// A merge group: states forked at one branch that are to be joined again at its immediate postdominator (or at the
// return of the function).  Members are explored to the join point first, then merged with if-then-else values.
struct MG {
   int                 refs = 0;               // live (running or pending) members
   u32                 depth;                  // number of frames at the branch
   bool                ret;                    // join when that frame has returned
   u32                 pc = 0;                 // otherwise: join at this pc
   const std::vector<std::pair<int, u32>>* phis = nullptr;   // registers to merge (slot, width)
   int                 rslot = -1; u32 rw = 0; // return kind: caller's register
   size_t              consBase;
   std::vector<State*> parked;
};

// ------------------------------------------------------------------ globals
static LLVMContext                       ctx;
static std::unique_ptr<Module>           M;
static const DataLayout*                 DL;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::vector<Function*>            fnById;       // object id -> function (sparse)
static std::unordered_map<u32, Function*> fnOfObj;
static std::unordered_map<Function*, Fn*> fns;
static std::vector<Fn*>                  fnList;
static std::vector<GlobalVariable*>      tiList;       // typeid index-1 -> typeinfo
static std::string                       g_entry;
static u64                               g_maxsteps = 200000000;
static int                               g_resfd = -1;
static int                               g_maxprocs = 1;
static bool                              g_verbose = false;
static int                               g_samples = 20;
static u64                               g_seed = 1;
static u64                               g_sampleMod = 1;
static int                               g_mylabel = 0;

struct Shared { std::atomic<int> active; };                          // running worker processes
struct EntryShared { std::atomic<int> stop; std::atomic<u64> paths; };   // per entry: violation found; completed paths
static Shared*      sh;
static EntryShared* es;
static bool         g_merge = true;

// per-process stats
struct Stats {
   u64 completed = 0, assumed = 0, violations = 0, inconclusive = 0, forks = 0, instrs = 0, asserts = 0, assertQueries = 0, assertConst = 0;
   std::map<std::string, u64> reach, assertSites;
   std::map<std::string, u64> inconcl;
   std::map<std::string, u64> kf;
} st;
static std::vector<State*> work;
struct PathEnd { int kind; };   // 0 completed, 1 assume-false, 2 violation, 3 inconclusive

static std::string jstr(const std::string& s) {
   std::string o = "\"";
   for (unsigned char c : s) {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += c;
   }
   return o + "\"";
}
static void emitLine(const std::string& s) {
   if (g_resfd < 0) { printf("%s\n", s.c_str()); fflush(stdout); return; }
   std::string t = s + "\n";
   flock(g_resfd, LOCK_EX);
   const char* p = t.data();
   size_t      n = t.size();
   while (n) {
      ssize_t k = write(g_resfd, p, n);
      if (k <= 0) break;
      p += k;
      n -= k;
   }
   flock(g_resfd, LOCK_UN);
}
static std::string hexOf(u128 v, u32 w) {   // little-endian bytes
   std::string o;
   for (u32 i = 0; i < (w + 7) / 8; ++i) {
      char b[4];
      snprintf(b, sizeof b, "%02x", (unsigned)((v >> (8 * i)) & 0xff));
      o += b;
   }
   return o;
}
static u128 valUnder(const Val& v, const Model& m) { return v.e ? evalExpr(v.e, m) : v.c; }
static std::string inputsJson(State& s, const Model& m) {
   std::string o = "[";
   bool        first = true;
   for (auto& in : s.inputs) {
      if (!first) o += ",";
      first = false;
      std::string h;
      for (auto& p : in.v) h += hexOf(valUnder(p.first, m), p.second);
      o += "[" + jstr(in.name) + "," + jstr(h) + "]";
   }
   return o + "]";
}
static std::string observesJson(State& s, const Model& m) {
   std::string o = "[";
   bool        first = true;
   for (auto& in : s.observes) {
      if (!first) o += ",";
      first = false;
      std::string h;
      for (auto& p : in.second) h += hexOf(valUnder(p.first, m), p.second);
      o += "[" + jstr(in.first) + "," + jstr(h) + "]";
   }
   return o + "]";
}
static std::string stackStr(State& s) {
   std::string o = "[";
   for (size_t i = s.fr.size(), n = 0; i-- && n < 14; ++n) {
      if (n) o += ",";
      o += jstr(s.fr[i].fn->F->getName().str());
   }
   return o + "]";
}
static std::set<std::string> seenViol;
static void recordViolation(State& s, const std::string& kind, const std::string& msg, const Model& m) {
   ++st.violations;
   std::string where = s.fr.empty() ? "" : s.fr.back().fn->F->getName().str();
   std::string key   = kind + "|" + msg + "|" + where;
   if (!seenViol.insert(key).second) return;
   emitLine("{\"type\":\"violation\",\"entry\":" + jstr(g_entry) + ",\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) +
            ",\"stack\":" + stackStr(s) + ",\"inputs\":" + inputsJson(s, m) + "}");
   if (g_verbose) fprintf(stderr, "[%s] VIOLATION %s: %s in %s\n", g_entry.c_str(), kind.c_str(), msg.c_str(), where.c_str());
   es->stop = 1;
}
[[noreturn]] static void violate(State& s, const std::string& kind, const std::string& msg) {
   recordViolation(s, kind, msg, *s.model);
   throw PathEnd{ 2 };
}
[[noreturn]] static void giveup(State& s, const std::string& why) {
   ++st.inconcl[why + (s.fr.empty() ? "" : " in " + s.fr.back().fn->F->getName().str())];
   throw PathEnd{ 3 };
}

// ------------------------------------------------------------------ constraints and queries
static void addKnown(State& s, X c) { s.known.insert(c->id); }
static void addCons(State& s, X c) {
   if (c->is_const()) return;
   if (c->op == E_AND && c->w == 1) { addCons(s, c->k[0]); addCons(s, c->k[1]); return; }
   if (!s.known.insert(c->id).second) return;
   s.cons.push_back(c);
}
static std::vector<u32> vmark;
static u32              vcur = 0;
static void relevant(State& s, X c, std::vector<X>& out) {
   if (vmark.size() < g_vars.size() + 64) vmark.resize(g_vars.size() * 2 + 64, 0);
   ++vcur;
   for (u32 v : *varsOf(c)) vmark[v] = vcur;
   std::vector<char> in(s.cons.size(), 0);
   bool              ch = true;
   while (ch) {
      ch = false;
      for (size_t i = 0; i < s.cons.size(); ++i) {
         if (in[i]) continue;
         auto* vv  = varsOf(s.cons[i]);
         bool  hit = false;
         for (u32 v : *vv)
            if (vmark[v] == vcur) { hit = true; break; }
         if (!hit) continue;
         in[i] = 1;
         ch    = true;
         for (u32 v : *vv) vmark[v] = vcur;
      }
   }
   for (size_t i = 0; i < s.cons.size(); ++i)
      if (in[i]) out.push_back(s.cons[i]);
}
struct CacheEnt { SatRes r; std::vector<std::pair<u32, u128>> m; };
static std::unordered_map<std::string, CacheEnt> qcache;
static std::vector<std::shared_ptr<Model>>       recent;
static std::mt19937_64                           rng(12345);

// is `c` satisfiable together with the path condition?  On SAT, m is a full model for the path.
static SatRes feasible(State& s, X c, Model& m) {
   if (c->is_const()) { if (c->c) { m = *s.model; return R_SAT; } return R_UNSAT; }
   std::vector<X> q;
   relevant(s, c, q);
   q.push_back(c);
   // other recent models
   for (auto& r : recent) {
      bool ok = true;
      for (size_t i = q.size(); i-- && ok;) ok = evalExpr(q[i], *r) != 0;
      if (ok) {
         ++g_sst.modelHits;
         m = *s.model;
         for (X e : q)
            for (u32 v : *varsOf(e)) m.set(v, r->get(v));
         return R_SAT;
      }
   }
   std::vector<u32> ids;
   for (X e : q) ids.push_back(e->id);
   std::sort(ids.begin(), ids.end());
   ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
   std::string key((char*)ids.data(), ids.size() * 4);
   auto        it = qcache.find(key);
   if (it != qcache.end()) {
      ++g_sst.cacheHits;
      if (it->second.r == R_SAT) {
         m = *s.model;
         for (auto& p : it->second.m) m.set(p.first, p.second);
      }
      return it->second.r;
   }
   // cheap random probing for wide single queries (finds counterexamples to hash-like equalities at once)
   if (q.size() <= 3 && varsOf(c)->size() >= 1) {
      for (int t = 0; t < 4; ++t) {
         Model r(*s.model);
         for (X e : q)
            for (u32 v : *varsOf(e)) r.set(v, t == 0 ? ~(u128)0 & maskw(g_vars[v].w) : (((u128)rng() << 64) | rng()) & maskw(g_vars[v].w));
         bool ok = true;
         for (size_t i = q.size(); i-- && ok;) ok = evalExpr(q[i], r) != 0;
         if (ok) { ++g_sst.modelHits; m = r; return R_SAT; }
      }
   }
   Model    mm;
   CacheEnt ce;
   ce.r = solveConj(q, mm);
   if (ce.r == R_SAT) {
      m = *s.model;
      std::set<u32> vs;
      for (X e : q)
         for (u32 v : *varsOf(e)) vs.insert(v);
      for (u32 v : vs) { m.set(v, mm.get(v)); ce.m.push_back({ v, mm.get(v) }); }
      recent.push_back(std::make_shared<Model>(m));
      if (recent.size() > 6) recent.erase(recent.begin());
   }
   if (qcache.size() > 400000) qcache.clear();
   qcache[key] = ce;
   return ce.r;
}
static State* cloneState(State& s) {
   ++st.forks;
   ++s.forks;
   for (MG* g : s.mg) ++g->refs;
   return new State(s);
}

// decide a width-1 condition, forking when both sides are feasible; sibling re-executes the instruction
static bool decide(State& s, X c) {
   if (c->is_const()) return c->c != 0;
   if (s.known.count(c->id)) return true;
   X n = mkNot(c);
   if (s.known.count(n->id)) return false;
   bool  b     = evalExpr(c, *s.model) != 0;
   X     mine  = b ? c : n;
   X     other = b ? n : c;
   Model m;
   SatRes r = feasible(s, other, m);
   if (r == R_UNKNOWN) {
      ++st.inconcl["solver timeout"];
      ++st.inconclusive;
      addCons(s, mine);
      return b;
   }
   if (r == R_SAT) {
      State* o = cloneState(s);
      addCons(*o, other);
      o->model = std::make_shared<Model>(m);
      work.push_back(o);
      addCons(s, mine);
   } else
      addKnown(s, mine);
   return b;
}
// split the remaining paths on the value of e; returns the value in this state
static u128 concretize(State& s, const Val& v, u32 w) {
   if (!v.e) return v.c;
   u128 x = evalExpr(v.e, *s.model);
   decide(s, mkEq(v.e, mkConst(x, w)));
   return x;
}

// ------------------------------------------------------------------ memory
static Obj* newObj(State& s, u64 size, ObjKind k, const char* name = "") {
   if (size > OBJ_MAX) giveup(s, "object too large");
   Obj* o  = new Obj;
   o->id   = s.nextId++;
   o->size = size;
   o->kind = k;
   o->name = name;
   o->data.assign(size, 0);
   o->st.assign(size, 0);
   s.mem.set(o->id, o);
   return o;
}
static X uninitVar(u32 n) {
   static std::vector<X> v;
   while (v.size() <= n) v.push_back(mkVar("uninit" + std::to_string(v.size()), 8));
   return v[n];
}
static const char* kindName(ObjKind k) {
   switch (k) { case K_GLOBAL: return "global"; case K_CONST: return "constant"; case K_STACK: return "stack"; case K_MALLOC: return "malloc"; case K_NEW: return "new"; case K_NEWARR: return "new[]"; case K_EXC: return "exception"; default: return "function"; }
}
static std::string hx(u64 v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
// concrete address check
static Obj* check(State& s, u64 addr, u64 n, bool write, u64& off) {
   u32  id = addr >> OBJ_SHIFT;
   Obj* o  = (addr >> OBJ_SHIFT) >> 24 ? nullptr : s.mem.get(id);
   if (!o) {
      if (addr < 4096) violate(s, write ? "null-write" : "null-read", "access through a null pointer (" + hx(addr) + ")");
      if (id && id < s.nextId) violate(s, write ? "use-after-free-write" : "use-after-free-read", "access to a dead object");
      violate(s, write ? "wild-write" : "wild-read", "access through a wild pointer " + hx(addr));
   }
   u64 b = o->base();
   off   = addr - b;
   if (addr < b || off > o->size || n > o->size - off)
      violate(s, write ? "oob-write" : "oob-read",
              std::string("out-of-bounds access of ") + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off) + " of a " + kindName(o->kind) + " object of " + std::to_string(o->size) + " bytes");
   if (write) {
      if (o->kind == K_CONST || o->kind == K_FUNC) violate(s, "const-write", "write to constant memory");
      o = s.mem.writable(id);
   }
   return o;
}
// fast variant: uninitialised bytes become fresh unconstrained variables
static u32 g_uninitCtr = 0;
static X byteX(Obj* o, u64 i) {
   switch (o->st[i]) {
   case 1: return mkConst(o->data[i], 8);
   case 2: return mkExtract(o->sym[i].e, o->sym[i].idx * 8, 8);
   default: return nullptr;
   }
}
static X byteXi(State& s, u32 id, u64 i) {
   Obj* o = s.mem.get(id);
   if (o->st[i]) return byteX(o, i);
   o = s.mem.writable(id);
   if (!o->hasSym) { o->hasSym = true; o->sym.resize(o->size); }
   X v       = uninitVar(s.symCount["#uninit"]++ % 4096);
   o->st[i]  = 2;
   o->sym[i] = { v, 0 };
   return v;
}
static Val loadAt(State& s, Obj* o, u64 off, u32 w) {
   u32 n = (w + 7) / 8;
   // all concrete?
   bool conc = true;
   for (u32 i = 0; i < n; ++i)
      if (o->st[off + i] != 1) { conc = false; break; }
   if (conc) {
      u128 v = 0;
      memcpy(&v, &o->data[off], n);
      return Val(v & maskw(w));
   }
   // one expression covering it?
   if (o->st[off] == 2 && o->sym[off].idx == 0 && o->sym[off].e->w == n * 8) {
      X    e  = o->sym[off].e;
      bool ok = true;
      for (u32 i = 1; i < n && ok; ++i) ok = o->st[off + i] == 2 && o->sym[off + i].e == e && o->sym[off + i].idx == i;
      if (ok) return Val::of(mkExtract(e, 0, w));
   }
   u32 id = o->id;
   X   r  = nullptr;
   for (u32 i = 0; i < n; ++i) {
      X b = byteXi(s, id, off + i);
      r   = r ? mkConcat(b, r) : b;
   }
   return Val::of(mkExtract(r, 0, w));
}
static void storeAt(Obj* o, u64 off, const Val& v, u32 w) {
   u32 n = (w + 7) / 8;
   if (!v.e) {
      u128 c = v.c & maskw(w);
      memcpy(&o->data[off], &c, n);
      for (u32 i = 0; i < n; ++i) o->st[off + i] = 1;
      return;
   }
   X e = w == n * 8 ? v.e : mkZExt(v.e, n * 8);
   if (e->is_const()) { storeAt(o, off, Val(e->c), n * 8); return; }
   if (!o->hasSym) { o->hasSym = true; o->sym.resize(o->size); }
   for (u32 i = 0; i < n; ++i) {
      // keep constant bytes concrete
      if (e->op == E_CONCAT) {
         X b = mkExtract(e, i * 8, 8);
         if (b->is_const()) { o->st[off + i] = 1; o->data[off + i] = (uint8_t)b->c; continue; }
      }
      o->st[off + i]  = 2;
      o->sym[off + i] = { e, i };
   }
}
static u32 trailingZeros(X e) {
   while (e->op == E_CONCAT) e = e->k[1];
   if (e->is_const()) {
      if (e->c == 0) return e->w;
      u32 n = 0;
      while (!((e->c >> n) & 1)) ++n;
      return n;
   }
   return 0;
}
static u32 log2up(u64 n) { u32 k = 0; while (((u64)1 << k) < n) ++k; return k; }
// resolve a symbolic pointer to one object (forking); returns object, offset expr (k bits)
static Obj* resolveSym(State& s, X a, u64 n, bool write, X& offx, u64& coff, bool& isc) {
   u64  mv = (u64)evalExpr(a, *s.model);
   u64  off;
   Obj* o  = check(s, mv, n, write, off);
   X    rel = mkSub(a, mkConst(o->base(), 64));
   X    inb = mkUle(rel, mkConst(o->size - n, 64));
   decide(s, inb);   // sibling handles everything outside this object
   if (o->size == n) { isc = true; coff = 0; return write ? s.mem.writable(o->id) : o; }
   u32 k = log2up(o->size - n + 1);
   offx  = mkExtract(rel, 0, k);
   isc   = false;
   if (offx->is_const()) { isc = true; coff = (u64)offx->c; }
   return write ? s.mem.writable(o->id) : o;
}
static X muxTree(const std::vector<X>& v, X idx, u32 bit, size_t lo) {
   // select v[lo + idx[0..bit)]
   if (bit == 0) return v[std::min(lo, v.size() - 1)];
   size_t half = (size_t)1 << (bit - 1);
   X      a    = muxTree(v, idx, bit - 1, lo);
   if (lo + half >= v.size()) return a;
   X b = muxTree(v, idx, bit - 1, lo + half);
   if (a == b) return a;
   return mkIte(mkExtract(idx, bit - 1, 1), b, a);
}
static bool ptrLike(State& s, u128 c);
// over-approximate set of values of an address expression built from few constants
static bool addrVals(X e, std::vector<u64>& out, int depth = 0) {
   if (depth > 12 || e->w > 64) return false;
   auto uniq = [&] { std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end()); return out.size() <= 12; };
   switch (e->op) {
   case E_CONST: out.push_back((u64)e->c); return true;
   case E_ITE: {
      std::vector<u64> b;
      if (!addrVals(e->k[1], out, depth + 1) || !addrVals(e->k[2], b, depth + 1)) return false;
      out.insert(out.end(), b.begin(), b.end());
      return uniq();
   }
   case E_CONCAT: {
      std::vector<u64> a, b;
      if (!addrVals(e->k[0], a, depth + 1) || !addrVals(e->k[1], b, depth + 1)) return false;
      for (u64 x : a) for (u64 y : b) out.push_back((x << e->k[1]->w) | y);
      return uniq();
   }
   case E_EXTRACT:
      if (!addrVals(e->k[0], out, depth + 1)) return false;
      for (auto& x : out) x = (x >> e->aux) & (u64)maskw(e->w);
      return uniq();
   case E_ADD: {
      if (!e->k[1]->is_const() && !e->k[0]->is_const()) return false;
      X c = e->k[0]->is_const() ? e->k[0] : e->k[1], o = c == e->k[0] ? e->k[1] : e->k[0];
      if (!addrVals(o, out, depth + 1)) return false;
      for (auto& x : out) x = (x + (u64)c->c) & (u64)maskw(e->w);
      return uniq();
   }
   default: return false;
   }
}
static Val loadMem(State& s, const Val& p, u32 w) {
   u32 n = (w + 7) / 8;
   if (!p.e) {
      u64  off;
      Obj* o = check(s, (u64)p.c, n, false, off);
      return loadAt(s, o, off, w);
   }
   X    ox;
   u64  co;
   bool isc;
   Obj* o = resolveSym(s, p.e, n, false, ox, co, isc);
   if (isc) return loadAt(s, o, co, w);
   if (o->size > 70000) { co = (u64)concretize(s, Val::of(ox), ox->w); return loadAt(s, s.mem.get(o->id), co, w); }
   {
      std::vector<u64> av;
      if (addrVals(ox, av)) {
         u32 oid = o->id;
         av.erase(std::remove_if(av.begin(), av.end(), [&](u64 a) { return a > o->size || n > o->size - a; }), av.end());
         std::vector<Val> lv;
         bool ptr = false, differ = false;
         for (u64 a : av) {
            lv.push_back(loadAt(s, s.mem.get(oid), a, w));
            if (w == 64 && !lv.back().e && ptrLike(s, lv.back().c)) ptr = true;
            if (lv.back().e != lv[0].e || (!lv[0].e && lv.back().c != lv[0].c)) differ = true;
         }
         if (!lv.empty() && !differ) return lv[0];
         if (!lv.empty() && !ptr) {
            X r = lv.back().x(w);
            for (size_t i = lv.size() - 1; i-- > 0;) r = mkIte(mkEq(ox, mkConst(av[i], ox->w)), lv[i].x(w), r);
            return Val::of(r);
         }
         if (!lv.empty()) { co = (u64)concretize(s, Val::of(ox), ox->w); return loadAt(s, s.mem.get(oid), co, w); }
      }
   }
   u32 step = 1, sh2 = 0;
   u32 tz   = trailingZeros(ox);
   while (sh2 < tz && (step << 1) <= n && n % (step << 1) == 0) { step <<= 1; ++sh2; }
   u32 id  = o->id;
   u64 cnt = (o->size - n) / step + 1;
   X   idx = sh2 ? mkExtract(ox, sh2, ox->w - sh2) : ox;
   u32 kb  = log2up(cnt);
   if (kb == 0) return loadAt(s, o, 0, w);
   if (idx->w > kb) idx = mkExtract(idx, 0, kb);
   bool conc = true;
   for (u64 i = 0; i < o->size && conc; ++i) conc = o->st[i] == 1;
   if (conc) {
      std::vector<u128> t(cnt);
      for (u64 i = 0; i < cnt; ++i) { u128 v = 0; memcpy(&v, &o->data[i * step], n); t[i] = v & maskw(w); }
      return Val::of(mkSelect(mkTable(t, w), idx));
   }
   if (w == 64)
      for (u64 i = 0; i + 8 <= o->size; i += 8) {
         u64 v = 0;
         bool cc = true;
         for (u32 j = 0; j < 8; ++j) cc = cc && o->st[i + j] == 1;
         if (!cc) continue;
         memcpy(&v, &o->data[i], 8);
         if (!ptrLike(s, v)) continue;
         co = (u64)concretize(s, Val::of(ox), ox->w);
         return loadAt(s, s.mem.get(id), co, w);
      }
   std::vector<X> leaves(cnt);
   for (u64 i = 0; i < cnt; ++i) {
      X r = nullptr;
      for (u32 j = 0; j < n; ++j) { X b = byteXi(s, id, i * step + j); r = r ? mkConcat(b, r) : b; }
      leaves[i] = mkExtract(r, 0, w);
   }
   return Val::of(muxTree(leaves, idx, idx->w, 0));
}
static void storeMem(State& s, const Val& p, const Val& v, u32 w) {
   u32 n = (w + 7) / 8;
   if (!p.e) {
      u64  off;
      Obj* o = check(s, (u64)p.c, n, true, off);
      storeAt(o, off, v, w);
      return;
   }
   X    ox;
   u64  co;
   bool isc;
   Obj* o = resolveSym(s, p.e, n, true, ox, co, isc);
   if (isc) { storeAt(o, co, v, w); return; }
   if (o->size > 600 || (w == 64 && !v.e && ptrLike(s, v.c))) { co = (u64)concretize(s, Val::of(ox), ox->w); storeAt(s.mem.writable(o->id), co, v, w); return; }
   u32 id  = o->id;
   X   val = mkZExt(v.x(w), n * 8);
   u32 tz  = trailingZeros(ox);
   u32 step = 1;
   while (tz && (step << 1) <= n) { step <<= 1; --tz; }
   std::vector<X> cond;
   for (u64 i = 0; i + n <= o->size; i += step) {
      X c = mkEq(ox, mkConst(i, ox->w));
      if (c->is_const() && !c->c) continue;
      for (u32 j = 0; j < n; ++j) {
         X old = byteXi(s, id, i + j);
         X nb  = mkIte(c, mkExtract(val, j * 8, 8), old);
         o     = s.mem.writable(id);
         storeAt(o, i + j, Val::of(nb), 8);
      }
   }
}

// ------------------------------------------------------------------ constants
static int slotsOf(Type* t) {
   if (auto* stt = dyn_cast<StructType>(t)) { int n = 0; for (auto* e : stt->elements()) n += slotsOf(e); return n; }
   if (auto* at = dyn_cast<ArrayType>(t)) return (int)at->getNumElements() * slotsOf(at->getElementType());
   if (auto* vt = dyn_cast<FixedVectorType>(t)) return (int)vt->getNumElements();
   if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return 0;
   return 1;
}
static u32 widthOf(Type* t) {
   if (t->isPointerTy()) return 64;
   if (t->isIntegerTy()) return t->getIntegerBitWidth();
   if (t->isFloatTy()) return 32;
   if (t->isDoubleTy()) return 64;
   if (t->isX86_FP80Ty()) return 80;
   if (t->isFP128Ty()) return 128;
   return 0;
}
static void flatWidths(Type* t, u64 off, std::vector<MemPart>& out) {
   if (auto* stt = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(stt);
      for (unsigned i = 0; i < stt->getNumElements(); ++i) flatWidths(stt->getElementType(i), off + sl->getElementOffset(i).getFixedValue(), out);
   } else if (auto* at = dyn_cast<ArrayType>(t)) {
      u64 es = DL->getTypeAllocSize(at->getElementType());
      for (u64 i = 0; i < at->getNumElements(); ++i) flatWidths(at->getElementType(), off + i * es, out);
   } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
      u64 es = DL->getTypeStoreSize(vt->getElementType());
      for (u64 i = 0; i < vt->getNumElements(); ++i) out.push_back({ off + i * es, (u16)widthOf(vt->getElementType()) });
   } else
      out.push_back({ off, (u16)widthOf(t) });
}
static u64 evalConstAddr(const Constant* c);
static void evalConst(const Constant* c, std::vector<Val>& out) {
   Type* t = c->getType();
   if (auto* ci = dyn_cast<ConstantInt>(c)) {
      const APInt& a = ci->getValue();
      u128 v = a.getRawData()[0];
      if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64;
      if (a.getBitWidth() > 128) fatal("integer constant wider than 128 bits");
      out.push_back(Val(v & maskw(a.getBitWidth())));
      return;
   }
   if (auto* cf = dyn_cast<ConstantFP>(c)) {
      APInt a = cf->getValueAPF().bitcastToAPInt();
      u128  v = a.getRawData()[0];
      if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64;
      out.push_back(Val(v));
      return;
   }
   if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) {
      int n = slotsOf(t);
      for (int i = 0; i < n; ++i) out.push_back(Val(0));
      return;
   }
   if (isa<ConstantPointerNull>(c)) { out.push_back(Val(0)); return; }
   if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
      for (unsigned i = 0; i < cds->getNumElements(); ++i) evalConst(cds->getElementAsConstant(i), out);
      return;
   }
   if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
      for (unsigned i = 0; i < ca->getNumOperands(); ++i) evalConst(ca->getOperand(i), out);
      return;
   }
   out.push_back(Val(evalConstAddr(c)));
}
static u64 evalConstAddr(const Constant* c) {
   if (auto* gv = dyn_cast<GlobalValue>(c)) {
      if (auto* ga = dyn_cast<GlobalAlias>(gv)) return evalConstAddr(ga->getAliasee());
      auto it = gaddr.find(gv);
      if (it == gaddr.end()) fatal("no address for global %s", gv->getName().str().c_str());
      return it->second;
   }
   if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
         APInt off(64, 0);
         if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("non-constant GEP expression");
         return evalConstAddr(ce->getOperand(0)) + (u64)off.getSExtValue();
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
         return evalConstAddr(ce->getOperand(0));
      case Instruction::Sub: return evalConstAddr(ce->getOperand(0)) - evalConstAddr(ce->getOperand(1));
      case Instruction::Add: return evalConstAddr(ce->getOperand(0)) + evalConstAddr(ce->getOperand(1));
      case Instruction::Trunc: return evalConstAddr(ce->getOperand(0)) & (u64)maskw(widthOf(ce->getType()));
      default: fatal("constant expression %s", ce->getOpcodeName());
      }
   }
   if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
   if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
   std::string str;
   raw_string_ostream os(str);
   c->print(os);
   fatal("cannot evaluate constant %s", str.c_str());
}
static void initGlobals(State& s) {
   for (auto& F : *M) {
      Obj* o   = newObj(s, 1, K_FUNC);
      gaddr[&F] = o->base();
      fnOfObj[o->id] = &F;
   }
   for (auto& G : M->globals()) {
      u64  sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 8;
      if (G.isDeclaration() && sz < 64) sz = 64;
      Obj* o  = newObj(s, sz, K_GLOBAL);
      gaddr[&G] = o->base();
   }
   for (auto& G : M->globals()) {
      u32  id = gaddr[&G] >> OBJ_SHIFT;
      Obj* o  = s.mem.get(id);
      o->st.assign(o->size, 1);
      if (!G.hasInitializer()) {
         if (G.getName() == "__libc_single_threaded") o->data[0] = 1;
         continue;
      }
      std::vector<Val>     v;
      std::vector<MemPart> p;
      evalConst(G.getInitializer(), v);
      flatWidths(G.getValueType(), 0, p);
      if (v.size() != p.size()) fatal("global init mismatch %s", G.getName().str().c_str());
      for (size_t i = 0; i < v.size(); ++i) memcpy(&o->data[p[i].off], &v[i].c, (p[i].w + 7) / 8);
      if (G.isConstant()) o->kind = K_CONST;
   }
}

// ------------------------------------------------------------------ decoding
enum ExtFn {
   X_NONE = -1,
   X_NOP, X_MEMCPY, X_MEMMOVE, X_MEMSET, X_MEMCMP, X_BCMP, X_STRLEN, X_NEW, X_NEWARR, X_DELETE, X_DELETEARR, X_MALLOC, X_CALLOC, X_REALLOC, X_FREE,
   X_CXA_ALLOC, X_CXA_FREE, X_CXA_THROW, X_CXA_BEGIN, X_CXA_END, X_CXA_RETHROW, X_CXA_GETPTR, X_TYPEID, X_GUARD_ACQ, X_GUARD_REL, X_ATEXIT,
   X_TERMINATE, X_ABORT, X_PUREVIRT, X_ASSERTFAIL, X_TRAP, X_ERRNO,
   X_UMIN, X_UMAX, X_SMIN, X_SMAX, X_ABS, X_CTLZ, X_CTTZ, X_CTPOP, X_BSWAP, X_BITREV, X_FSHL, X_FSHR,
   X_UADDO, X_USUBO, X_UMULO, X_SADDO, X_SSUBO, X_SMULO, X_UADDSAT, X_USUBSAT, X_FABS, X_ISFPCLASS, X_OBJSIZE, X_ISCONST, X_EXPECT, X_ASSUME, X_COPYSIGN, X_TLSADDR,
   X_VASTART, X_VACOPY, X_FMULADD, X_FLOOR, X_CEIL, X_STRTOD, X_STRTOF,
   X_VS_BYTES, X_VS_U8, X_VS_U16, X_VS_U32, X_VS_U64, X_VS_RANGE, X_VS_CHOICE, X_VS_ASSUME, X_VS_ASSERT, X_VS_REACH, X_VS_OBSERVE, X_VS_OBSERVE64, X_VS_ALLOCCAP, X_VS_ALLOCTOTAL, X_VS_EQ, X_VS_FORK, X_VS_FINDING, X_VS_SYMBOLIC, X_VS_LIVE, X_VS_END, X_VS_DEBUG, X_VS_ISSYM,
   X_UNKNOWN
};
static const std::map<std::string, int> extNames = {
   { "memcpy", X_MEMCPY }, { "memmove", X_MEMMOVE }, { "memset", X_MEMSET }, { "memcmp", X_MEMCMP }, { "bcmp", X_BCMP }, { "strlen", X_STRLEN },
   { "_Znwm", X_NEW }, { "_Znam", X_NEWARR }, { "_ZdlPv", X_DELETE }, { "_ZdlPvm", X_DELETE }, { "_ZdaPv", X_DELETEARR }, { "_ZdaPvm", X_DELETEARR },
   { "_ZnwmSt11align_val_t", X_NEW }, { "_ZdlPvmSt11align_val_t", X_DELETE }, { "_ZdlPvSt11align_val_t", X_DELETE }, { "_ZnwmRKSt9nothrow_t", X_NEW }, { "_ZnamRKSt9nothrow_t", X_NEWARR },
   { "_ZdlPvRKSt9nothrow_t", X_DELETE }, { "_ZdaPvRKSt9nothrow_t", X_DELETEARR },
   { "malloc", X_MALLOC }, { "calloc", X_CALLOC }, { "realloc", X_REALLOC }, { "free", X_FREE },
   { "__cxa_allocate_exception", X_CXA_ALLOC }, { "__cxa_free_exception", X_CXA_FREE }, { "__cxa_throw", X_CXA_THROW }, { "__cxa_begin_catch", X_CXA_BEGIN },
   { "__cxa_end_catch", X_CXA_END }, { "__cxa_rethrow", X_CXA_RETHROW }, { "__cxa_get_exception_ptr", X_CXA_GETPTR }, { "__cxa_guard_acquire", X_GUARD_ACQ },
   { "__cxa_guard_release", X_GUARD_REL }, { "__cxa_guard_abort", X_NOP }, { "__cxa_atexit", X_ATEXIT }, { "__cxa_thread_atexit", X_ATEXIT }, { "atexit", X_ATEXIT },
   { "_ZSt9terminatev", X_TERMINATE }, { "abort", X_ABORT }, { "exit", X_ABORT }, { "_exit", X_ABORT }, { "__cxa_pure_virtual", X_PUREVIRT }, { "__assert_fail", X_ASSERTFAIL }, { "__errno_location", X_ERRNO },
   { "strtod", X_STRTOD }, { "strtof", X_STRTOF },
   { "vs_bytes", X_VS_BYTES }, { "vs_u8", X_VS_U8 }, { "vs_u16", X_VS_U16 }, { "vs_u32", X_VS_U32 }, { "vs_u64", X_VS_U64 }, { "vs_range", X_VS_RANGE }, { "vs_choice", X_VS_CHOICE }, { "vs_assume", X_VS_ASSUME },
   { "vs_assert", X_VS_ASSERT }, { "vs_reach", X_VS_REACH }, { "vs_observe", X_VS_OBSERVE }, { "vs_observe_u64", X_VS_OBSERVE64 }, { "vs_alloc_cap", X_VS_ALLOCCAP }, { "vs_alloc_total", X_VS_ALLOCTOTAL },
   { "vs_eq", X_VS_EQ }, { "vs_fork", X_VS_FORK }, { "vs_finding", X_VS_FINDING }, { "vs_symbolic", X_VS_SYMBOLIC }, { "vs_live_bytes", X_VS_LIVE }, { "vs_end", X_VS_END }, { "vs_debug", X_VS_DEBUG },
};
static int intrinsicOf(Intrinsic::ID id) {
   switch (id) {
   case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
   case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
   case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::assume: case Intrinsic::var_annotation:
   case Intrinsic::stackrestore: case Intrinsic::sideeffect:
      return X_NOP;
   case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return X_MEMCPY;
   case Intrinsic::memmove: return X_MEMMOVE;
   case Intrinsic::memset: case Intrinsic::memset_inline: return X_MEMSET;
   case Intrinsic::umin: return X_UMIN;
   case Intrinsic::umax: return X_UMAX;
   case Intrinsic::smin: return X_SMIN;
   case Intrinsic::smax: return X_SMAX;
   case Intrinsic::abs: return X_ABS;
   case Intrinsic::ctlz: return X_CTLZ;
   case Intrinsic::cttz: return X_CTTZ;
   case Intrinsic::ctpop: return X_CTPOP;
   case Intrinsic::bswap: return X_BSWAP;
   case Intrinsic::bitreverse: return X_BITREV;
   case Intrinsic::fshl: return X_FSHL;
   case Intrinsic::fshr: return X_FSHR;
   case Intrinsic::uadd_with_overflow: return X_UADDO;
   case Intrinsic::usub_with_overflow: return X_USUBO;
   case Intrinsic::umul_with_overflow: return X_UMULO;
   case Intrinsic::sadd_with_overflow: return X_SADDO;
   case Intrinsic::ssub_with_overflow: return X_SSUBO;
   case Intrinsic::smul_with_overflow: return X_SMULO;
   case Intrinsic::uadd_sat: return X_UADDSAT;
   case Intrinsic::usub_sat: return X_USUBSAT;
   case Intrinsic::fabs: return X_FABS;
   case Intrinsic::copysign: return X_COPYSIGN;
   case Intrinsic::vastart: return X_VASTART;
   case Intrinsic::vacopy: return X_VACOPY;
   case Intrinsic::vaend: return X_NOP;
   case Intrinsic::fmuladd: return X_FMULADD;
   case Intrinsic::floor: return X_FLOOR;
   case Intrinsic::ceil: return X_CEIL;
   case Intrinsic::is_fpclass: return X_ISFPCLASS;
   case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return X_TRAP;
   case Intrinsic::eh_typeid_for: return X_TYPEID;
   case Intrinsic::objectsize: return X_OBJSIZE;
   case Intrinsic::is_constant: return X_ISCONST;
   case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: return X_EXPECT;
   case Intrinsic::threadlocal_address: return X_TLSADDR;
   default: return X_UNKNOWN;
   }
}
static int typeidIdx(GlobalVariable* g) {
   for (size_t i = 0; i < tiList.size(); ++i)
      if (tiList[i] == g) return (int)i + 1;
   tiList.push_back(g);
   return (int)tiList.size();
}
static Fn* getFn(Function* F) {
   auto it = fns.find(F);
   if (it != fns.end()) return it->second;
   Fn* f = new Fn;
   f->F  = F;
   f->id = (u32)fnList.size();
   fnList.push_back(f);
   fns[F] = f;
   return f;
}
struct Decoder {
   Fn*                                     f;
   std::unordered_map<const Value*, int>   slot;
   std::unordered_map<const Constant*, int> cslot;
   std::unordered_map<const BasicBlock*, u32> bbpc;
   int reg(const Value* v) { return slot.at(v); }
   // first operand index of value v (constants are laid out consecutively too)
   int opnd(const Value* v) {
      auto it = slot.find(v);
      if (it != slot.end()) return it->second;
      auto* c = dyn_cast<Constant>(v);
      if (!c) {
         std::string s;
         raw_string_ostream os(s);
         v->print(os);
         fatal("operand %s", s.c_str());
      }
      auto ci = cslot.find(c);
      if (ci != cslot.end()) return ci->second;
      std::vector<Val> vs;
      evalConst(c, vs);
      int base = -(int)f->consts.size() - 1;
      for (auto& x : vs) f->consts.push_back(x);
      cslot[c] = base;
      return base;
   }
   static int nth(int base, int i) { return base >= 0 ? base + i : base - i; }
   int addExt(Ext* e) { f->exts.push_back(e); return (int)f->exts.size() - 1; }
   int subIndex(Type* t, ArrayRef<unsigned> idx, Type** res) {
      int n = 0;
      for (unsigned i : idx) {
         if (auto* stt = dyn_cast<StructType>(t)) {
            for (unsigned j = 0; j < i; ++j) n += slotsOf(stt->getElementType(j));
            t = stt->getElementType(i);
         } else {
            auto* at = cast<ArrayType>(t);
            n += (int)i * slotsOf(at->getElementType());
            t = at->getElementType();
         }
      }
      *res = t;
      return n;
   }
   Edge edge(const BasicBlock* from, const BasicBlock* to) {
      Edge e;
      e.bb = 0;
      for (auto& phi : to->phis()) {
         int d = reg(&phi), o = opnd(phi.getIncomingValueForBlock(from)), n = slotsOf(phi.getType());
         for (int i = 0; i < n; ++i) e.copies.push_back({ d + i, nth(o, i) });
      }
      e.pc = 0;
      pend.push_back({ nullptr, to });
      return e;
   }
   std::vector<std::pair<Ext*, const BasicBlock*>> pend;
   std::vector<std::tuple<Ext*, size_t, const BasicBlock*>> fix;
   void addEdge(Ext* x, const BasicBlock* from, const BasicBlock* to) {
      Edge e;
      for (auto& phi : to->phis()) {
         int d = reg(&phi), o = opnd(phi.getIncomingValueForBlock(from)), n = slotsOf(phi.getType());
         for (int i = 0; i < n; ++i) e.copies.push_back({ d + i, nth(o, i) });
      }
      x->edges.push_back(e);
      fix.push_back({ x, x->edges.size() - 1, to });
   }
   void run() {
      Function* F = f->F;
      for (auto& a : F->args()) {
         int n     = slotsOf(a.getType());
         slot[&a]  = f->nregs;
         f->args.push_back({ f->nregs, n });
         f->nregs += n;
      }
      for (auto& bb : *F)
         for (auto& I : bb) {
            int n = slotsOf(I.getType());
            if (n) { slot[&I] = f->nregs; f->nregs += n; }
         }
      for (auto& bb : *F) {
         bbpc[&bb] = (u32)f->code.size();
         for (auto& I : bb) inst(&I);
      }
      for (auto& [x, i, b] : fix) x->edges[i].pc = bbpc.at(b);
      for (auto& bb : *F) {
         auto& v = f->phis[&bb];
         for (auto& phi : bb.phis()) {
            int n = slotsOf(phi.getType());
            Type* t = phi.getType();
            for (int i = 0; i < n; ++i) v.push_back({ reg(&phi) + i, n == 1 && !t->isPointerTy() ? widthOf(t) : 0 });
         }
      }
      f->bbpc = bbpc;
      f->decoded = true;
   }
   void push(Inst in) { f->code.push_back(in); }
   void unsupported(const Instruction* I) {
      Inst in{ O_UNSUPPORTED };
      auto* e = new Ext;
      raw_string_ostream os(e->text);
      I->print(os);
      in.ext = addExt(e);
      in.I   = I;
      push(in);
   }
   void inst(const Instruction* I) {
      Inst in{ O_NOP };
      in.I = I;
      Type* t = I->getType();
      if (slotsOf(t)) in.dst = reg(I);
      in.w = widthOf(t);
      bool vec = t->isVectorTy() || (I->getNumOperands() && I->getOperand(0)->getType()->isVectorTy());
      if (isa<PHINode>(I)) return;
      if (vec && !isa<LoadInst>(I) && !isa<StoreInst>(I) && !isa<InsertElementInst>(I) && !isa<ExtractElementInst>(I) && !isa<ShuffleVectorInst>(I) && !isa<CallBase>(I) && !isa<ReturnInst>(I) && !isa<SelectInst>(I)) {
         // lane-wise expansion of simple vector operations
         if (auto* bo = dyn_cast<BinaryOperator>(I)) {
            Type* et = cast<FixedVectorType>(t)->getElementType();
            int   n  = slotsOf(t), a = opnd(bo->getOperand(0)), b = opnd(bo->getOperand(1));
            if (et->isIntegerTy()) {
               for (int i = 0; i < n; ++i) { Inst k{ O_BIN }; k.I = I; k.sub = bo->getOpcode(); k.w = widthOf(et); k.dst = in.dst + i; k.a = nth(a, i); k.b = nth(b, i); push(k); }
               return;
            }
         }
         if (auto* ic = dyn_cast<ICmpInst>(I)) {
            Type* et = cast<FixedVectorType>(ic->getOperand(0)->getType())->getElementType();
            int   n  = slotsOf(t), a = opnd(ic->getOperand(0)), b = opnd(ic->getOperand(1));
            for (int i = 0; i < n; ++i) { Inst k{ O_ICMP }; k.I = I; k.sub = ic->getPredicate(); k.w = 1; k.w2 = widthOf(et); k.dst = in.dst + i; k.a = nth(a, i); k.b = nth(b, i); push(k); }
            return;
         }
         if (auto* ci = dyn_cast<CastInst>(I)) {
            if (t->isVectorTy() && ci->getSrcTy()->isVectorTy() && (isa<TruncInst>(I) || isa<ZExtInst>(I) || isa<SExtInst>(I))) {
               Type *de = cast<FixedVectorType>(t)->getElementType(), *se = cast<FixedVectorType>(ci->getSrcTy())->getElementType();
               int   n = slotsOf(t), a = opnd(ci->getOperand(0));
               for (int i = 0; i < n; ++i) { Inst k{ isa<TruncInst>(I) ? O_TRUNCI : isa<ZExtInst>(I) ? O_ZEXT : O_SEXT }; k.I = I; k.w = widthOf(de); k.w2 = widthOf(se); k.dst = in.dst + i; k.a = nth(a, i); push(k); }
               return;
            }
         }
         return unsupported(I);
      }
      if (auto* ie = dyn_cast<InsertElementInst>(I)) {
         auto* ci = dyn_cast<ConstantInt>(ie->getOperand(2));
         if (!ci) return unsupported(I);
         in.op = O_MOVES;
         auto* e = new Ext;
         int   a = opnd(ie->getOperand(0)), v = opnd(ie->getOperand(1)), n = slotsOf(t);
         for (int i = 0; i < n; ++i) e->ops.push_back(i == (int)ci->getZExtValue() ? v : nth(a, i));
         in.ext = addExt(e);
         return push(in);
      }
      if (auto* ee = dyn_cast<ExtractElementInst>(I)) {
         auto* ci = dyn_cast<ConstantInt>(ee->getOperand(1));
         if (!ci) return unsupported(I);
         in.op = O_MOVES;
         auto* e = new Ext;
         e->ops.push_back(nth(opnd(ee->getOperand(0)), (int)ci->getZExtValue()));
         in.ext = addExt(e);
         return push(in);
      }
      if (auto* sv = dyn_cast<ShuffleVectorInst>(I)) {
         in.op = O_MOVES;
         auto* e = new Ext;
         int   a = opnd(sv->getOperand(0)), b = opnd(sv->getOperand(1)), n = slotsOf(sv->getOperand(0)->getType());
         for (int m : sv->getShuffleMask()) e->ops.push_back(m < 0 ? nth(a, 0) : m < n ? nth(a, m) : nth(b, m - n));
         in.ext = addExt(e);
         return push(in);
      }
      switch (I->getOpcode()) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
         in.op  = O_BIN;
         in.sub = I->getOpcode();
         in.a   = opnd(I->getOperand(0));
         in.b   = opnd(I->getOperand(1));
         return push(in);
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
         in.op  = O_FBIN;
         in.sub = I->getOpcode();
         in.a   = opnd(I->getOperand(0));
         in.b   = opnd(I->getOperand(1));
         return push(in);
      case Instruction::FNeg:
         in.op = O_FUN;
         in.a  = opnd(I->getOperand(0));
         return push(in);
      case Instruction::ICmp:
         in.op  = O_ICMP;
         in.sub = cast<ICmpInst>(I)->getPredicate();
         in.w2  = widthOf(I->getOperand(0)->getType());
         in.a   = opnd(I->getOperand(0));
         in.b   = opnd(I->getOperand(1));
         return push(in);
      case Instruction::FCmp:
         in.op  = O_FCMP;
         in.sub = cast<FCmpInst>(I)->getPredicate();
         in.w2  = widthOf(I->getOperand(0)->getType());
         in.a   = opnd(I->getOperand(0));
         in.b   = opnd(I->getOperand(1));
         return push(in);
      case Instruction::Select: {
         int n = slotsOf(t), c = opnd(I->getOperand(0)), a = opnd(I->getOperand(1)), b = opnd(I->getOperand(2));
         bool vc = I->getOperand(0)->getType()->isVectorTy();
         std::vector<MemPart> p;
         flatWidths(t, 0, p);
         for (int i = 0; i < n; ++i) { Inst k{ O_SELECT }; k.I = I; k.w = p[i].w; k.dst = in.dst + i; k.a = nth(a, i); k.b = nth(b, i); k.c = vc ? nth(c, i) : c; push(k); }
         return;
      }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
         in.op = I->getOpcode() == Instruction::Trunc ? O_TRUNCI : I->getOpcode() == Instruction::ZExt ? O_ZEXT : O_SEXT;
         in.w2 = widthOf(I->getOperand(0)->getType());
         in.a  = opnd(I->getOperand(0));
         return push(in);
      case Instruction::PtrToInt: case Instruction::IntToPtr: {
         u32 sw = widthOf(I->getOperand(0)->getType());
         in.op  = in.w < sw ? O_TRUNCI : in.w > sw ? O_ZEXT : O_COPY;
         in.w2  = sw;
         in.a   = opnd(I->getOperand(0));
         return push(in);
      }
      case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
         int n = slotsOf(t);
         if (n != slotsOf(I->getOperand(0)->getType())) return unsupported(I);
         in.op = O_MOVES;
         auto* e = new Ext;
         int   a = opnd(I->getOperand(0));
         for (int i = 0; i < n; ++i) e->ops.push_back(nth(a, i));
         in.ext = addExt(e);
         return push(in);
      }
      case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
         in.op  = O_FPCAST;
         in.sub = I->getOpcode();
         in.w2  = widthOf(I->getOperand(0)->getType());
         in.a   = opnd(I->getOperand(0));
         return push(in);
      case Instruction::Load: {
         in.op = O_LOAD;
         in.a  = opnd(I->getOperand(0));
         auto* e = new Ext;
         flatWidths(t, 0, e->parts);
         if (auto* md = I->getMetadata(LLVMContext::MD_range); md && md->getNumOperands() == 2 && t->isIntegerTy()) {
            auto* lo = mdconst::extract<ConstantInt>(md->getOperand(0));
            auto* hi = mdconst::extract<ConstantInt>(md->getOperand(1));
            if (t->getIntegerBitWidth() <= 64) { e->hasRange = true; e->rlo = lo->getZExtValue(); e->rhi = hi->getZExtValue(); }
         }
         in.ext = addExt(e);
         return push(in);
      }
      case Instruction::Store: {
         in.op = O_STORE;
         in.a  = opnd(I->getOperand(1));
         in.b  = opnd(I->getOperand(0));
         auto* e = new Ext;
         flatWidths(I->getOperand(0)->getType(), 0, e->parts);
         in.ext = addExt(e);
         return push(in);
      }
      case Instruction::Alloca: {
         auto* ai = cast<AllocaInst>(I);
         in.op    = O_ALLOCA;
         auto* e  = new Ext;
         e->cst   = DL->getTypeAllocSize(ai->getAllocatedType()).getFixedValue();
         in.a     = opnd(ai->getArraySize());
         in.w2    = widthOf(ai->getArraySize()->getType());
         in.ext   = addExt(e);
         return push(in);
      }
      case Instruction::GetElementPtr: {
         auto* g = cast<GEPOperator>(I);
         in.op   = O_GEP;
         in.a    = opnd(g->getPointerOperand());
         auto* e = new Ext;
         MapVector<Value*, APInt> vo;
         APInt                    co(64, 0);
         if (!g->collectOffset(*DL, 64, vo, co)) return unsupported(I);
         e->cst = (u64)co.getSExtValue();
         for (auto& p : vo) e->var.push_back({ opnd(p.first), { (u64)p.second.getSExtValue(), (u16)widthOf(p.first->getType()) } });
         in.ext = addExt(e);
         return push(in);
      }
      case Instruction::Br: {
         auto* b = cast<BranchInst>(I);
         auto* e = new Ext;
         if (b->isConditional()) {
            in.op = O_CBR;
            in.a  = opnd(b->getCondition());
            addEdge(e, I->getParent(), b->getSuccessor(0));
            addEdge(e, I->getParent(), b->getSuccessor(1));
         } else {
            in.op = O_BR;
            addEdge(e, I->getParent(), b->getSuccessor(0));
         }
         in.ext = addExt(e);
         return push(in);
      }
      case Instruction::Switch: {
         auto* sw = cast<SwitchInst>(I);
         auto* e  = new Ext;
         in.op    = O_SWITCH;
         in.a     = opnd(sw->getCondition());
         in.w2    = widthOf(sw->getCondition()->getType());
         addEdge(e, I->getParent(), sw->getDefaultDest());
         for (auto& c : sw->cases()) {
            e->cases.push_back(c.getCaseValue()->getZExtValue());
            addEdge(e, I->getParent(), c.getCaseSuccessor());
         }
         in.ext = addExt(e);
         return push(in);
      }
      case Instruction::Ret: {
         in.op   = O_RET;
         auto* e = new Ext;
         if (I->getNumOperands()) {
            int n = slotsOf(I->getOperand(0)->getType()), a = opnd(I->getOperand(0));
            for (int i = 0; i < n; ++i) e->ops.push_back(nth(a, i));
         }
         in.ext = addExt(e);
         return push(in);
      }
      case Instruction::Unreachable: in.op = O_UNREACHABLE; return push(in);
      case Instruction::Resume: in.op = O_RESUME; in.a = opnd(I->getOperand(0)); return push(in);
      case Instruction::LandingPad: {
         auto* lp = cast<LandingPadInst>(I);
         in.op    = O_LANDINGPAD;
         auto* e  = new Ext;
         e->cleanup = lp->isCleanup();
         for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
            if (!lp->isCatch(i)) { e->clauses.push_back(nullptr); continue; }
            e->clauses.push_back(dyn_cast<GlobalVariable>(lp->getClause(i)->stripPointerCasts()));
         }
         in.ext = addExt(e);
         return push(in);
      }
      case Instruction::ExtractValue: {
         auto* ev = cast<ExtractValueInst>(I);
         Type* rt;
         int   k = subIndex(ev->getAggregateOperand()->getType(), ev->getIndices(), &rt), n = slotsOf(t), a = opnd(ev->getAggregateOperand());
         in.op   = O_MOVES;
         auto* e = new Ext;
         for (int i = 0; i < n; ++i) e->ops.push_back(nth(a, k + i));
         in.ext = addExt(e);
         return push(in);
      }
      case Instruction::InsertValue: {
         auto* iv = cast<InsertValueInst>(I);
         Type* rt;
         int   k = subIndex(t, iv->getIndices(), &rt), m = slotsOf(rt), n = slotsOf(t), a = opnd(iv->getAggregateOperand()), v = opnd(iv->getInsertedValueOperand());
         in.op   = O_MOVES;
         auto* e = new Ext;
         for (int i = 0; i < n; ++i) e->ops.push_back(i >= k && i < k + m ? nth(v, i - k) : nth(a, i));
         in.ext = addExt(e);
         return push(in);
      }
      case Instruction::AtomicRMW: {
         auto* r = cast<AtomicRMWInst>(I);
         in.op   = O_RMW;
         in.sub  = r->getOperation();
         in.a    = opnd(r->getPointerOperand());
         in.b    = opnd(r->getValOperand());
         return push(in);
      }
      case Instruction::AtomicCmpXchg: {
         in.op = O_CMPXCHG;
         in.w  = widthOf(I->getOperand(1)->getType());
         in.a  = opnd(I->getOperand(0));
         in.b  = opnd(I->getOperand(1));
         in.c  = opnd(I->getOperand(2));
         return push(in);
      }
      case Instruction::Fence: return;
      case Instruction::Call: case Instruction::Invoke: {
         auto* cb = cast<CallBase>(I);
         in.op    = O_CALL;
         auto* e  = new Ext;
         e->invoke = isa<InvokeInst>(I);
         Function* callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
         if (!callee)
            if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) callee = dyn_cast<Function>(ga->getAliaseeObject());
         e->nret = slotsOf(t);
         e->retw = in.w;
         if (cb->isInlineAsm()) {
            auto* ia = cast<InlineAsm>(cb->getCalledOperand());
            if (!ia->getAsmString().empty()) { delete e; return unsupported(I); }
            e->ext = X_NOP;
            if (e->nret) { delete e; return unsupported(I); }
         } else if (callee) {
            if (callee->isIntrinsic()) {
               e->ext = intrinsicOf(callee->getIntrinsicID());
               if (e->ext == X_UNKNOWN && callee->getIntrinsicID() == Intrinsic::stacksave) { in.op = O_ALLOCA; e->cst = 1; in.a = opnd(ConstantInt::get(Type::getInt64Ty(ctx), 1)); in.w2 = 64; in.ext = addExt(e); return push(in); }
               if (e->ext == X_UNKNOWN) { delete e; return unsupported(I); }
               if (e->ext == X_NOP && !e->nret) { delete e; return; }
               if (t->isVectorTy()) { delete e; return unsupported(I); }
            } else {
               auto it = extNames.find(callee->getName().str());
               if (it != extNames.end()) e->ext = it->second;
               else if (callee->isDeclaration()) { e->ext = X_UNKNOWN; e->text = callee->getName().str(); }
            }
            e->callee = callee;
         } else
            in.a = opnd(cb->getCalledOperand());
         unsigned k = 0;
         for (auto& arg : cb->args()) {
            Type* at = arg->getType();
            if (at->isMetadataTy()) { ++k; continue; }
            int  n  = slotsOf(at);
            int  o  = e->ext == X_TYPEID ? 0 : opnd(arg.get());
            std::vector<MemPart> p;
            flatWidths(at, 0, p);
            for (int i = 0; i < n; ++i) {
               e->ops.push_back(nth(o, i));
               e->byval.push_back(cb->isByValArgument(k) ? DL->getTypeAllocSize(cb->getParamByValType(k)).getFixedValue() : 0);
               e->argw.push_back(p[i].w);
            }
            ++k;
         }
         if (e->ext == X_TYPEID) {
            auto* g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts());
            e->cst  = typeidIdx(g);
         }
         if (e->invoke) {
            auto* inv = cast<InvokeInst>(I);
            addEdge(e, I->getParent(), inv->getNormalDest());
            addEdge(e, I->getParent(), inv->getUnwindDest());
         }
         in.ext = addExt(e);
         return push(in);
      }
      default: return unsupported(I);
      }
   }
};
static void decode(Fn* f) {
   Decoder d;
   d.f = f;
   d.run();
}

// ------------------------------------------------------------------ state merging
static void flushGroup(MG* g);
static void unrefGroup(MG* g) {
   if (--g->refs == 0) flushGroup(g);
}
static void leaveTop(State& s) {
   MG* g = s.mg.back();
   s.mg.pop_back();
   unrefGroup(g);
}
static void retire(State* s) {
   while (!s->mg.empty()) leaveTop(*s);
   delete s;
}
static void closeGroup(State& s, MG* g) {   // opened but nothing forked
   if (s.mg.empty() || s.mg.back() != g) return;
   s.mg.pop_back();
   delete g;
}
static void computePD(Fn* f) {
   f->pdDone = true;
   Function* F = f->F;
   // blocks from which a normal return is reachable without taking an unwind edge
   std::unordered_map<const BasicBlock*, std::vector<const BasicBlock*>> pred, succ;
   std::vector<const BasicBlock*> wl;
   std::set<const BasicBlock*>    good;
   for (auto& bb : *F) {
      auto* t = bb.getTerminator();
      if (auto* inv = dyn_cast<InvokeInst>(t)) { succ[&bb].push_back(inv->getNormalDest()); pred[inv->getNormalDest()].push_back(&bb); }
      else for (unsigned i = 0; i < t->getNumSuccessors(); ++i) { succ[&bb].push_back(t->getSuccessor(i)); pred[t->getSuccessor(i)].push_back(&bb); }
      if (isa<ReturnInst>(t)) { good.insert(&bb); wl.push_back(&bb); }
   }
   while (!wl.empty()) {
      auto* b = wl.back();
      wl.pop_back();
      for (auto* p : pred[b]) if (good.insert(p).second) wl.push_back(p);
   }
   // post-dominator sets by iterating intersections over a post order (functions are small)
   std::vector<const BasicBlock*> order;   // reverse graph DFS finishing order
   std::set<const BasicBlock*>    seen;
   std::vector<std::pair<const BasicBlock*, size_t>> stk;
   for (auto& bb : *F)
      if (isa<ReturnInst>(bb.getTerminator()) && seen.insert(&bb).second) {
         stk.push_back({ &bb, 0 });
         while (!stk.empty()) {
            auto& [b, i] = stk.back();
            auto& pv = pred[b];
            if (i < pv.size()) { auto* p = pv[i++]; if (seen.insert(p).second) stk.push_back({ p, 0 }); }
            else { order.push_back(b); stk.pop_back(); }
         }
      }
   std::unordered_map<const BasicBlock*, int> num;   // postorder number in the reverse graph
   for (size_t i = 0; i < order.size(); ++i) num[order[i]] = (int)i + 1;
   int VEXIT = (int)order.size() + 1;
   std::vector<int> idom(VEXIT + 1, 0);
   idom[VEXIT] = VEXIT;
   auto inter = [&](int a, int b) { while (a != b) { while (a < b) a = idom[a]; while (b < a) b = idom[b]; } return a; };
   for (bool ch = true; ch;) {
      ch = false;
      for (int i = (int)order.size(); i >= 1; --i) {
         auto* b = order[i - 1];
         int   d = 0;
         if (isa<ReturnInst>(b->getTerminator())) d = VEXIT;
         for (auto* q : succ[b]) {
            auto it = num.find(q);
            if (it == num.end() || !idom[it->second]) continue;
            d = d ? inter(d, it->second) : it->second;
         }
         if (d && idom[i] != d) { idom[i] = d; ch = true; }
      }
   }
   for (size_t i = 1; i <= order.size(); ++i) f->ipdom[order[i - 1]] = idom[i] == VEXIT || !idom[i] ? nullptr : order[idom[i] - 1];
}
static const int COST_CAP = 400;
static int fnCost(Function* F, int depth);
static int instCost(const Instruction& I, int depth) {
   auto* cb = dyn_cast<CallBase>(&I);
   if (!cb) return 1;
   auto* F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
   if (!F) return COST_CAP;
   if (F->isDeclaration()) return 2;
   return depth > 4 ? COST_CAP : 2 + fnCost(F, depth + 1);
}
static int fnCost(Function* F, int depth) {
   Fn* f = getFn(F);
   if (f->cost >= 0) return f->cost;
   if (depth > 5) return COST_CAP;
   f->cost = COST_CAP;   // recursion
   int c = 0;
   for (auto& bb : *F)
      for (auto& I : bb) {
         // code that only throws does not count
         if (c < COST_CAP) c += isa<UnreachableInst>(bb.getTerminator()) ? 1 : instCost(I, depth);
      }
   f->cost = std::min(c, COST_CAP);
   return f->cost;
}
static JoinInfo joinOf(Fn* f, const BasicBlock* B) {
   auto it = f->joins.find(B);
   if (it != f->joins.end()) return it->second;
   if (!f->pdDone) computePD(f);
   JoinInfo j;
   auto     ip = f->ipdom.find(B);
   if (ip != f->ipdom.end()) {
      const BasicBlock* P = ip->second;
      // region between B and P
      std::set<const BasicBlock*>    reg;
      std::vector<const BasicBlock*> wl;
      auto add = [&](const BasicBlock* b) { if (b != P && f->ipdom.count(b) && reg.insert(b).second) wl.push_back(b); };
      auto succs = [&](const BasicBlock* b) { auto* t = b->getTerminator(); if (auto* inv = dyn_cast<InvokeInst>(t)) add(inv->getNormalDest()); else for (unsigned i = 0; i < t->getNumSuccessors(); ++i) add(t->getSuccessor(i)); };
      succs(B);
      int cost = 0;
      while (!wl.empty()) {
         auto* b = wl.back();
         wl.pop_back();
         if (b != B) for (auto& I : *b) if (cost < COST_CAP) cost += instCost(I, 0);
         succs(b);
      }
      bool cyc = reg.count(B);
      Type* rt = f->F->getReturnType();
      if (P && !cyc && cost < COST_CAP) { j.kind = 1; j.bb = P; }
      else if ((!P || isa<ReturnInst>(P->getTerminator())) && fnCost(f->F, 0) < COST_CAP && rt->isIntegerTy() && (!cyc || rt->getIntegerBitWidth() <= 32)) j.kind = 2;
   }
   f->joins[B] = j;
   return j;
}
static MG* openGroup(State& s, Inst& in) {
   if (!g_merge) return nullptr;
   Frame& f = s.fr.back();
   auto*  B = in.I->getParent();
   JoinInfo j = joinOf(f.fn, B);
   if (!j.kind || f.isTop && j.kind == 2) return nullptr;
   u32 d = (u32)s.fr.size();
   if (!s.mg.empty()) {
      MG* t = s.mg.back();
      if (t->depth == d && (j.kind == 2 ? t->ret : !t->ret && t->pc == f.fn->bbpc.at(j.bb))) return nullptr;
   }
   if (j.kind == 1) {
      auto& ph = f.fn->phis.at(j.bb);
   }
   MG* g    = new MG;
   g->refs  = 1;
   g->depth = d;
   g->ret   = j.kind == 2;
   g->consBase = s.cons.size();
   if (j.kind == 1) { g->pc = f.fn->bbpc.at(j.bb); g->phis = &f.fn->phis.at(j.bb); }
   else {
      Frame& c  = s.fr[d - 2];
      Inst&  ci = c.fn->code[c.pc];
      g->rslot  = ci.dst;
      g->rw     = f.fn->F->getReturnType()->getIntegerBitWidth();
   }
   s.mg.push_back(g);
   return g;
}
static bool sameVal(const Val& a, const Val& b) { return a.e == b.e && (a.e || a.c == b.c); }
static bool ptrLike(State& s, u128 c) { u64 v = (u64)c; u64 id = v >> OBJ_SHIFT; return !(u64)(c >> 64) && id && id < s.nextId + 64; }
static bool mergeVal(State& s, const Val& a, const Val& b, u32 w, X c, Val& out) {
   if (sameVal(a, b)) { out = a; return true; }
   if (!w) return false;
   if (!a.e && !b.e && w > 32) return false;
   if (w == 64 && ((!a.e && ptrLike(s, a.c)) || (!b.e && ptrLike(s, b.c)))) return false;
   out = Val::of(mkIte(c, a.x(w), b.x(w)));
   return true;
}
struct ObjDiff { u32 id; };
static bool diffNodes(Node* a, Node* b, int lv, u32 base, std::vector<u32>& ids) {
   if (a == b) return true;
   for (int i = 0; i < 64; ++i) {
      void *x = a ? a->c[i] : nullptr, *y = b ? b->c[i] : nullptr;
      if (x == y) continue;
      if (lv == 3) { if (!x || !y) return false; ids.push_back(base * 64 + i); }
      else if (!diffNodes((Node*)x, (Node*)y, lv + 1, base * 64 + i, ids)) return false;
      if (ids.size() > 40) return false;
   }
   return true;
}
static bool sameBytes(const Obj* a, const Obj* b, u64 i) {
   if (a->st[i] != b->st[i]) return false;
   if (a->st[i] == 1) return a->data[i] == b->data[i];
   if (a->st[i] == 2) return a->sym[i].idx == b->sym[i].idx && a->sym[i].e == b->sym[i].e || byteX(const_cast<Obj*>(a), i) == byteX(const_cast<Obj*>(b), i);
   return true;
}
// merge b into a; false (a unchanged) when they cannot be merged
static bool mergeStates(MG* g, State& a, State& b) {
   if (a.fr.size() != b.fr.size() || a.fr.back().pc != b.fr.back().pc || a.mg != b.mg) return false;
   if (a.caught != b.caught || a.excs.size() != b.excs.size() || a.allocTotal != b.allocTotal || a.allocCap != b.allocCap || a.symCount != b.symCount || a.known_findings != b.known_findings) return false;
   if (a.inputs.size() != b.inputs.size() || a.observes.size() != b.observes.size()) return false;
   if (a.cons.size() < g->consBase || b.cons.size() < g->consBase) return false;
   for (size_t i = 0; i < g->consBase; ++i) if (a.cons[i] != b.cons[i]) return false;
   for (size_t i = 0; i < a.fr.size(); ++i)
      if (a.fr[i].fn != b.fr[i].fn || a.fr[i].allocas != b.fr[i].allocas || a.fr[i].freeExc != b.fr[i].freeExc) return false;
   // condition: the constraints a has and b does not share
   std::set<u32> bi;
   for (size_t i = g->consBase; i < b.cons.size(); ++i) bi.insert(b.cons[i]->id);
   std::vector<X> common, onlya, onlyb;
   std::set<u32>  ci;
   for (size_t i = g->consBase; i < a.cons.size(); ++i)
      if (bi.count(a.cons[i]->id)) { common.push_back(a.cons[i]); ci.insert(a.cons[i]->id); } else onlya.push_back(a.cons[i]);
   for (size_t i = g->consBase; i < b.cons.size(); ++i) if (!ci.count(b.cons[i]->id)) onlyb.push_back(b.cons[i]);
   X ca = mkConst(1, 1), cb = mkConst(1, 1);
   for (X x : onlya) ca = mkAnd(ca, x);
   for (X x : onlyb) cb = mkAnd(cb, x);
   if (ca->is_const()) return false;
   X c = ca;
   // memory
   std::vector<u32> ids;
   if (!diffNodes(a.mem.root, b.mem.root, 0, 0, ids)) return false;
   struct Upd { u32 id; u64 off; Val v; u32 w; };
   std::vector<Upd> upd;
   u64 nd = 0;
   for (u32 id : ids) {
      Obj *x = a.mem.get(id), *y = b.mem.get(id);
      if (x->size != y->size || x->kind != y->kind) return false;
      for (u64 i = 0; i < x->size;) {
         if (sameBytes(x, y, i)) { ++i; continue; }
         u64  lo = i & ~(u64)7, hi = std::min(lo + 8, x->size);
         bool ca1 = true, cb1 = true, un = false;
         u64  va = 0, vb = 0;
         for (u64 k = lo; k < hi; ++k) {
            if (x->st[k] != 1) ca1 = false;
            if (y->st[k] != 1) cb1 = false;
            va |= (u64)x->data[k] << (8 * (k - lo));
            vb |= (u64)y->data[k] << (8 * (k - lo));
         }
         if (ca1 && ptrLike(a, va) || cb1 && ptrLike(a, vb)) return false;
         if (ca1 && cb1 && va < 65536 && vb < 65536 && hi - lo == 8) return false;   // looks like a size or counter
         for (u64 k = lo; k < hi; ++k) {
            if (sameBytes(x, y, k)) continue;
            if (++nd > 300) return false;
            if (!x->st[k] || !y->st[k]) {
               // initialised on one side only: stays conditional on a fresh value
               X un1 = uninitVar(a.symCount["#uninit"]++ % 4096);
               X p = x->st[k] ? byteX(x, k) : un1, q = y->st[k] ? byteX(y, k) : un1;
               upd.push_back({ id, k, Val::of(mkIte(c, p, q)), 8 });
            } else
               upd.push_back({ id, k, Val::of(mkIte(c, byteX(x, k), byteX(y, k))), 8 });
         }
         i = hi;
      }
   }
   // registers
   std::vector<std::pair<int, Val>> regs;
   Frame &fa = a.fr.back(), &fb = b.fr.back();
   auto mreg = [&](int slot, u32 w) {
      Val o;
      if (!mergeVal(a, fa.r[slot], fb.r[slot], w, c, o)) return false;
      regs.push_back({ slot, o });
      return true;
   };
   if (g->ret) { if (g->rslot >= 0 && !mreg(g->rslot, g->rw)) return false; }
   else for (auto& p : *g->phis) if (!mreg(p.first, p.second)) return false;
   // inputs / observations
   std::vector<std::pair<Val*, Val>> misc;
   for (size_t i = 0; i < a.inputs.size(); ++i) {
      if (a.inputs[i].name != b.inputs[i].name || a.inputs[i].v.size() != b.inputs[i].v.size()) return false;
      for (size_t k = 0; k < a.inputs[i].v.size(); ++k) if (!sameVal(a.inputs[i].v[k].first, b.inputs[i].v[k].first)) return false;
   }
   for (size_t i = 0; i < a.observes.size(); ++i) {
      if (a.observes[i].first != b.observes[i].first || a.observes[i].second.size() != b.observes[i].second.size()) return false;
      for (size_t k = 0; k < a.observes[i].second.size(); ++k) if (!sameVal(a.observes[i].second[k].first, b.observes[i].second[k].first)) return false;
   }
   // commit
   for (auto& u : upd) storeAt(a.mem.writable(u.id), u.off, u.v, u.w);
   for (auto& r : regs) fa.r[r.first] = r.second;
   a.cons.resize(g->consBase);
   for (X x : common) a.cons.push_back(x);
   a.known.clear();
   for (X x : a.cons) a.known.insert(x->id);
   addCons(a, mkOr(ca, cb));
   a.nextId = std::max(a.nextId, b.nextId);
   a.steps  = std::max(a.steps, b.steps);
   return true;
}
static u64 g_merged = 0, g_unmerged = 0;
static void flushGroup(MG* g) {
   std::vector<State*> acc;
   for (State* p : g->parked) {
      bool m = false;
      for (size_t i = acc.size(); i-- && !m;) m = mergeStates(g, *acc[i], *p);
      if (m) {
         ++g_merged;
         for (MG* o : p->mg) unrefGroup(o);   // never the last reference: acc[i] is in the same groups
         p->mg.clear();
         delete p;
      } else
         acc.push_back(p);
   }
   g_unmerged += acc.size();
   for (State* p : acc) work.push_back(p);
   delete g;
}
// called after every step; true if the state was parked
static bool parkIfJoined(State* s) {
   MG* g = s->mg.back();
   if (s->parkNow) s->parkNow = false;
   else if (g->ret || s->fr.size() != g->depth || s->fr.back().pc != g->pc) return false;
   s->mg.pop_back();
   g->parked.push_back(s);
   unrefGroup(g);
   return true;
}

// ------------------------------------------------------------------ execution
static inline const Val& opv(Frame& f, int o) { return o >= 0 ? f.r[o] : f.fn->consts[-o - 1]; }
static void takeEdge(Frame& f, const Edge& e) {
   if (e.copies.size() == 1) f.r[e.copies[0].first] = opv(f, e.copies[0].second);
   else if (!e.copies.empty()) {
      Val  buf[16];
      std::vector<Val> big;
      Val* t = buf;
      if (e.copies.size() > 16) { big.resize(e.copies.size()); t = big.data(); }
      for (size_t i = 0; i < e.copies.size(); ++i) t[i] = opv(f, e.copies[i].second);
      for (size_t i = 0; i < e.copies.size(); ++i) f.r[e.copies[i].first] = t[i];
   }
   f.pc = e.pc;
}
static void advanceCall(Frame& f) {
   Inst& in = f.fn->code[f.pc];
   Ext*  e  = f.fn->exts[in.ext];
   if (e->invoke) takeEdge(f, e->edges[0]);
   else ++f.pc;
}
static void freeAllocas(State& s, Frame& f) {
   for (u32 id : f.allocas) s.mem.set(id, nullptr);
   f.allocas.clear();
}
static bool tiDerives(GlobalVariable* d, GlobalVariable* b, int depth = 0) {
   if (d == b || (d && b && d->getName() == b->getName())) return true;
   if (!d || depth > 8 || !d->hasInitializer()) return false;
   auto* ci = dyn_cast<ConstantStruct>(d->getInitializer());
   if (!ci) return false;
   for (unsigned i = 2; i < ci->getNumOperands(); ++i) {
      auto* g = dyn_cast<GlobalVariable>(ci->getOperand(i)->stripPointerCasts());
      if (g && tiDerives(g, b, depth + 1)) return true;
   }
   return false;
}
// continue unwinding from the top frame's current call instruction
static void unwind(State& s, u64 exc) {
   ExcInfo* ei = nullptr;
   for (auto& x : s.excs)
      if (x.obj == exc) ei = &x;
   if (!ei) fatal("unwind: unknown exception");
   s.curExc = exc;
   while (true) {
      if (s.fr.empty()) fatal("unwind: no frames");
      Frame& f  = s.fr.back();
      Inst&  in = f.fn->code[f.pc];
      if (in.op == O_CALL) {
         Ext* e = f.fn->exts[in.ext];
         if (e->invoke) {
            // landing pad
            u32   lpc = e->edges[1].pc;
            Inst& lp  = f.fn->code[lpc];
            if (lp.op != O_LANDINGPAD) fatal("unwind destination is not a landing pad");
            Ext* le = f.fn->exts[lp.ext];
            int  sel = -1;
            for (auto* c : le->clauses) {
               if (!c) { sel = 0x7fff; break; }
               if (tiDerives(ei->ti, c)) { sel = typeidIdx(c); break; }
            }
            if (sel >= 0 || le->cleanup) {
               s.curSel = sel < 0 ? 0 : sel;
               while (!s.mg.empty() && s.mg.back()->depth > s.fr.size()) leaveTop(s);
               takeEdge(f, e->edges[1]);
               return;
            }
         }
      }
      if (f.isTop || s.fr.size() == 1) {
         std::string tn = ei->ti ? ei->ti->getName().str() : "?";
         violate(s, "uncaught-exception", "exception of type " + tn + " escapes");
      }
      // nounwind function => terminate
      if (f.fn->F->doesNotThrow()) violate(s, "terminate", "exception escapes a noexcept function " + f.fn->F->getName().str());
      freeAllocas(s, f);
      s.fr.pop_back();
   }
}
static void pushCall(State& s, Fn* fn, const std::vector<Val>& args, const std::vector<u64>* byval) {
   if (s.fr.size() > 6000) violate(s, "stack-overflow", "call depth exceeds 6000 frames");
   if (!fn->decoded) decode(fn);
   fn->executed = true;
   s.fr.emplace_back();
   Frame& f = s.fr.back();
   f.fn     = fn;
   f.pc     = 0;
   f.r.resize(fn->nregs);
   size_t k = 0;
   for (auto& a : fn->args)
      for (int i = 0; i < a.second; ++i) {
         if (k >= args.size()) { f.r[a.first + i] = Val(0); continue; }
         if (byval && (*byval)[k]) {
            u64  n = (*byval)[k];
            u64  off;
            if (args[k].e) giveup(s, "symbolic byval pointer");
            Obj* src = check(s, (u64)args[k].c, n, false, off);
            Obj* d   = newObj(s, n, K_STACK, "byval");
            for (u64 j = 0; j < n; ++j) {
               d->st[j] = src->st[off + j];
               d->data[j] = src->data[off + j];
               if (d->st[j] == 2) { if (!d->hasSym) { d->hasSym = true; d->sym.resize(n); } d->sym[j] = src->sym[off + j]; }
            }
            f.allocas.push_back(d->id);
            f.r[a.first + i] = Val(d->base());
         } else
            f.r[a.first + i] = args[k];
         ++k;
      }
   if (fn->F->isVarArg()) f.va.assign(args.begin() + std::min(k, args.size()), args.end());
}
static void copyBytes(State& s, u64 dst, u64 src, u64 n) {
   if (!n) return;
   u64  so, d2;
   check(s, src, n, false, so);
   Obj* d = check(s, dst, n, true, d2);
   Obj* o = s.mem.get(src >> OBJ_SHIFT);
   if (o->hasSym) {
      std::vector<SymB> t(o->sym.begin() + so, o->sym.begin() + so + n);
      if (!d->hasSym) { d->hasSym = true; d->sym.resize(d->size); }
      std::copy(t.begin(), t.end(), d->sym.begin() + d2);
   }
   memmove(&d->data[d2], &o->data[so], n);
   memmove(&d->st[d2], &o->st[so], n);
}
static std::string cstr(State& s, u64 p) {
   std::string r;
   for (;; ++p) {
      u64  off;
      Obj* o = check(s, p, 1, false, off);
      if (o->st[off] != 1) giveup(s, "symbolic C string passed to the engine");
      if (!o->data[off]) return r;
      r += (char)o->data[off];
   }
}
static u64 f2u(double d) { u64 u; memcpy(&u, &d, 8); return u; }
static double u2f(u64 u) { double d; memcpy(&d, &u, 8); return d; }
static u32 g2u(float d) { u32 u; memcpy(&u, &d, 4); return u; }
static float u2g(u32 u) { float d; memcpy(&d, &u, 4); return d; }

static Val binop(State& s, unsigned opc, const Val& a, const Val& b, u32 w, const Instruction* I) {
   if (opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem) {
      if (!b.e) { if ((b.c & maskw(w)) == 0) violate(s, "div-by-zero", "division by zero"); }
      else if (decide(s, mkEq(b.e, mkConst(0, w)))) violate(s, "div-by-zero", "division by zero");
   }
   if (!a.e && !b.e) {
      u128 x = a.c, y = b.c, m = maskw(w);
      switch (opc) {
      case Instruction::Add: return Val((x + y) & m);
      case Instruction::Sub: return Val((x - y) & m);
      case Instruction::Mul: return Val((x * y) & m);
      case Instruction::UDiv: return Val(x / y);
      case Instruction::URem: return Val(x % y);
      case Instruction::SDiv: case Instruction::SRem: {
         s128 p = sx(x, w), q = sx(y, w);
         if (q == -1) return Val(opc == Instruction::SDiv ? ((u128)0 - (u128)p) & m : 0);
         return Val((u128)(opc == Instruction::SDiv ? p / q : p % q) & m);
      }
      case Instruction::Shl: return Val(y >= w ? 0 : (x << (u32)y) & m);
      case Instruction::LShr: return Val(y >= w ? 0 : x >> (u32)y);
      case Instruction::AShr: return Val((u128)(sx(x, w) >> (y >= w ? w - 1 : (u32)y)) & m);
      case Instruction::And: return Val(x & y);
      case Instruction::Or: return Val(x | y);
      case Instruction::Xor: return Val(x ^ y);
      }
   }
   X x = a.x(w), y = b.x(w);
   switch (opc) {
   case Instruction::Add: return Val::of(mkAdd(x, y));
   case Instruction::Sub: return Val::of(mkSub(x, y));
   case Instruction::Mul: return Val::of(mkMul(x, y));
   case Instruction::UDiv: return Val::of(mkUDiv(x, y));
   case Instruction::URem: return Val::of(mkURem(x, y));
   case Instruction::SDiv: return Val::of(mkSDiv(x, y));
   case Instruction::SRem: return Val::of(mkSRem(x, y));
   case Instruction::Shl: return Val::of(mkShl(x, y));
   case Instruction::LShr: return Val::of(mkLShr(x, y));
   case Instruction::AShr: return Val::of(mkAShr(x, y));
   case Instruction::And: return Val::of(mkAnd(x, y));
   case Instruction::Or: return Val::of(mkOr(x, y));
   case Instruction::Xor: return Val::of(mkXor(x, y));
   }
   fatal("binop");
}
static bool icmpC(unsigned p, u128 x, u128 y, u32 w) {
   switch (p) {
   case CmpInst::ICMP_EQ: return x == y;
   case CmpInst::ICMP_NE: return x != y;
   case CmpInst::ICMP_ULT: return x < y;
   case CmpInst::ICMP_ULE: return x <= y;
   case CmpInst::ICMP_UGT: return x > y;
   case CmpInst::ICMP_UGE: return x >= y;
   case CmpInst::ICMP_SLT: return sx(x, w) < sx(y, w);
   case CmpInst::ICMP_SLE: return sx(x, w) <= sx(y, w);
   case CmpInst::ICMP_SGT: return sx(x, w) > sx(y, w);
   case CmpInst::ICMP_SGE: return sx(x, w) >= sx(y, w);
   }
   fatal("icmp");
}
static X icmpX(unsigned p, X x, X y) {
   switch (p) {
   case CmpInst::ICMP_EQ: return mkEq(x, y);
   case CmpInst::ICMP_NE: return mkNe(x, y);
   case CmpInst::ICMP_ULT: return mkUlt(x, y);
   case CmpInst::ICMP_ULE: return mkUle(x, y);
   case CmpInst::ICMP_UGT: return mkUlt(y, x);
   case CmpInst::ICMP_UGE: return mkUle(y, x);
   case CmpInst::ICMP_SLT: return mkSlt(x, y);
   case CmpInst::ICMP_SLE: return mkSle(x, y);
   case CmpInst::ICMP_SGT: return mkSlt(y, x);
   case CmpInst::ICMP_SGE: return mkSle(y, x);
   }
   fatal("icmpX");
}
static X fIsNan(X x) {
   u32  w   = x->w;
   u128 inf = w == 64 ? (u128)0x7ff0000000000000ULL : (u128)0x7f800000U;
   return mkUlt(mkConst(inf, w), mkAnd(x, mkConst(maskw(w - 1), w)));
}
static X fcmpX(unsigned p, X x, X y) {
   u32 w   = x->w;
   X   nan = mkOr(fIsNan(x), fIsNan(y));
   X   mag = mkConst(maskw(w - 1), w);
   X   ax = mkAnd(x, mag), ay = mkAnd(y, mag);
   X   z  = mkConst(0, w);
   X   bothz = mkAnd(mkEq(ax, z), mkEq(ay, z));
   X   eq = mkOr(mkEq(x, y), bothz);
   X   sa = mkExtract(x, w - 1, 1), sb = mkExtract(y, w - 1, 1);
   X   lt = mkAnd(mkNot(bothz), mkIte(sa, mkOr(mkNot(sb), mkUlt(ay, ax)), mkAnd(mkNot(sb), mkUlt(ax, ay))));
   X   gt = mkAnd(mkNot(eq), mkNot(lt));
   X   ord = mkNot(nan);
   switch (p) {
   case CmpInst::FCMP_FALSE: return mkConst(0, 1);
   case CmpInst::FCMP_TRUE: return mkConst(1, 1);
   case CmpInst::FCMP_OEQ: return mkAnd(ord, eq);
   case CmpInst::FCMP_ONE: return mkAnd(ord, mkNot(eq));
   case CmpInst::FCMP_OLT: return mkAnd(ord, lt);
   case CmpInst::FCMP_OLE: return mkAnd(ord, mkOr(lt, eq));
   case CmpInst::FCMP_OGT: return mkAnd(ord, gt);
   case CmpInst::FCMP_OGE: return mkAnd(ord, mkOr(gt, eq));
   case CmpInst::FCMP_ORD: return ord;
   case CmpInst::FCMP_UNO: return nan;
   case CmpInst::FCMP_UEQ: return mkOr(nan, eq);
   case CmpInst::FCMP_UNE: return mkOr(nan, mkNot(eq));
   case CmpInst::FCMP_ULT: return mkOr(nan, lt);
   case CmpInst::FCMP_ULE: return mkOr(nan, mkOr(lt, eq));
   case CmpInst::FCMP_UGT: return mkOr(nan, gt);
   case CmpInst::FCMP_UGE: return mkOr(nan, mkOr(gt, eq));
   }
   fatal("fcmp");
}
static X fpextX(X f) {   // float bits -> double bits
   X sgn = mkExtract(f, 31, 1), ex = mkExtract(f, 23, 8), man = mkExtract(f, 0, 23);
   X man52 = mkConcat(man, mkConst(0, 29));
   X norm  = mkConcat(mkAdd(mkZExt(ex, 11), mkConst(896, 11)), man52);
   X infn  = mkConcat(mkConst(2047, 11), mkIte(mkEq(man, mkConst(0, 23)), mkConst(0, 52), mkOr(man52, mkConst((u128)1 << 51, 52))));
   X sub   = mkConst(0, 63);
   for (u32 i = 0; i < 23; ++i) {   // highest set bit i of man
      X top = mkConcat(mkConst(896 - (22 - i), 11), i ? mkConcat(mkExtract(man, 0, i), mkConst(0, 52 - i)) : mkConst(0, 52));
      sub   = mkIte(mkExtract(man, i, 1), top, sub);
   }
   X body = mkIte(mkEq(ex, mkConst(255, 8)), infn, mkIte(mkEq(ex, mkConst(0, 8)), sub, norm));
   return mkConcat(sgn, body);
}
static X ctlzX(X a) {
   u32 w = a->w;
   X   r = mkConst(w, w);
   for (u32 i = 0; i < w; ++i) r = mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), r);
   return r;
}
static X cttzX(X a) {
   u32 w = a->w;
   X   r = mkConst(w, w);
   for (u32 i = w; i--;) r = mkIte(mkExtract(a, i, 1), mkConst(i, w), r);
   return r;
}
static X ctpopX(X a) {
   u32 w = a->w;
   X   r = mkConst(0, w);
   for (u32 i = 0; i < w; ++i) r = mkAdd(r, mkZExt(mkExtract(a, i, 1), w));
   return r;
}
static X symVar(const std::string& name, int occ, u32 w, u128 mx = ~(u128)0) {
   static std::unordered_map<std::string, X> tab;
   std::string key = name + "#" + std::to_string(occ) + ":" + std::to_string(w) + (mx < maskw(w) ? "<" + std::to_string((u64)mx) : "");
   auto it = tab.find(key);
   if (it != tab.end()) return it->second;
   return tab[key] = mkVar(name + "#" + std::to_string(occ), w, mx);
}
static Function* rtFn(const char* n) {
   Function* F = M->getFunction(n);
   if (!F || F->isDeclaration()) fatal("runtime function %s missing", n);
   return F;
}
static const u64 HUGE_ALLOC = 16u << 20;
// allocation; returns false if the request must fail (bad_alloc / NULL)
static bool allocSize(State& s, const Val& v, u64& n) {
   if (s.allocCap) {
      X big = mkUlt(mkConst(s.allocCap, 64), v.x(64));
      if (decide(s, big)) violate(s, "alloc-cap", "allocation request of " + std::to_string((u64)valUnder(v, *s.model)) + " bytes exceeds the cap of " + std::to_string(s.allocCap));
   } else if (decide(s, mkUlt(mkConst(HUGE_ALLOC, 64), v.x(64))))
      return false;
   n = (u64)concretize(s, v, 64);
   return true;
}
static void doFree(State& s, const Val& pv, ObjKind k) {
   u64 p = (u64)concretize(s, pv, 64);
   if (!p) return;
   u32  id = p >> OBJ_SHIFT;
   Obj* o  = (p >> OBJ_SHIFT) >> 24 ? nullptr : s.mem.get(id);
   if (!o) violate(s, id && id < s.nextId ? "double-free" : "invalid-free", "free of a dead or wild pointer");
   if (p != o->base() || (o->kind != K_MALLOC && o->kind != K_NEW && o->kind != K_NEWARR)) violate(s, "invalid-free", "free of a pointer that is not a heap block");
   if (o->kind != k) violate(s, "alloc-dealloc-mismatch", std::string("block from ") + kindName(o->kind) + " released as " + kindName(k));
   s.mem.set(id, nullptr);
}
static Val memcmpVal(State& s, u64 p, u64 q, u64 n, bool eqOnly) {
   X r = mkConst(0, 32);
   if (!n) return Val(0);
   u64 o1, o2;
   check(s, p, n, false, o1);
   check(s, q, n, false, o2);
   X allEq = mkConst(1, 1);
   u32 i1 = p >> OBJ_SHIFT, i2 = q >> OBJ_SHIFT;
   for (u64 i = n; i--;) {
      X a = byteXi(s, i1, o1 + i), b = byteXi(s, i2, o2 + i);
      if (eqOnly) allEq = mkAnd(allEq, mkEq(a, b));
      else r = mkIte(mkEq(a, b), r, mkIte(mkUlt(a, b), mkConst(-1, 32), mkConst(1, 32)));
   }
   return Val::of(eqOnly ? allEq : r);
}
enum Act { A_NEXT, A_STAY };
static Act callExternal(State& s, Inst& in, Ext* e) {
   Frame& f = s.fr.back();
   auto   A = [&](int i) -> const Val& { return opv(f, e->ops[i]); };
   auto   R = [&](const Val& v) { if (in.dst >= 0) s.fr.back().r[in.dst] = v; };
   u32    w = e->retw;
   auto   conc = [&](int i) { return (u64)concretize(s, A(i), e->argw[i]); };
   auto   addInput = [&](const std::string& nm, std::vector<std::pair<Val, u16>> v) { s.inputs.push_back({ nm, std::move(v) }); };
   switch (e->ext) {
   case X_NOP: return A_NEXT;
   case X_MEMCPY: case X_MEMMOVE: {
      Val nv = A(2);
      if (nv.e) {   // bounds first: report overruns instead of enumerating sizes
         u64  d = conc(0), c = conc(1), o1, o2;
         if (decide(s, mkEq(nv.e, mkConst(0, nv.e->w)))) { if (in.dst >= 0) R(Val(d)); return A_NEXT; }
         Obj* od = check(s, d, 0, true, o1);
         Obj* os = check(s, c, 0, false, o2);
         u64  mx = std::min(od->size - o1, os->size - o2);
         if (decide(s, mkUlt(mkConst(mx, 64), mkZExt(nv.e, 64)))) violate(s, "oob-copy", "memcpy length may exceed the object");
      }
      u64 n = conc(2), d = conc(0), c = conc(1);
      if (n) {
         if (e->ext == X_MEMCPY && d != c && (d >> OBJ_SHIFT) == (c >> OBJ_SHIFT) && (d > c ? d - c : c - d) < n) violate(s, "memcpy-overlap", "memcpy with overlapping ranges");
         copyBytes(s, d, c, n);
      }
      if (in.dst >= 0) R(Val(d));
      return A_NEXT;
   }
   case X_MEMSET: {
      u64 n = conc(2), d = conc(0);
      if (n) {
         u64  off;
         Val  v = A(1);
         if (e->argw[1] > 8) v = v.e ? Val::of(mkExtract(v.e, 0, 8)) : Val(v.c & 255);
         Obj* o = check(s, d, n, true, off);
         for (u64 i = 0; i < n; ++i) storeAt(o, off + i, v, 8);
      }
      if (in.dst >= 0) R(Val(d));
      return A_NEXT;
   }
   case X_MEMCMP: { u64 n = conc(2), p = conc(0), q = conc(1); R(memcmpVal(s, p, q, n, false)); return A_NEXT; }
   case X_BCMP: { u64 n = conc(2), p = conc(0), q = conc(1); Val v = memcmpVal(s, p, q, n, true); R(n == 0 ? Val(0) : v.e ? Val::of(mkZExt(mkNot(v.e), 32)) : Val(v.c ? 0 : 1)); return A_NEXT; }
   case X_VS_EQ: { u64 n = conc(2), p = conc(0), q = conc(1); Val v = n ? memcmpVal(s, p, q, n, true) : Val(1); R(v.e ? Val::of(mkZExt(v.e, w)) : v); return A_NEXT; }
   case X_STRLEN: {
      u64 p = conc(0), n = 0;
      while (true) {
         u64  off;
         check(s, p + n, 1, false, off);
         X b = byteXi(s, (p + n) >> OBJ_SHIFT, off);
         if (decide(s, mkEq(b, mkConst(0, 8)))) break;
         ++n;
      }
      R(Val(n));
      return A_NEXT;
   }
   case X_NEW: case X_NEWARR: {
      u64 n;
      if (!allocSize(s, A(0), n)) {
         pushCall(s, getFn(rtFn("__vs_throw_bad_alloc")), {}, nullptr);
         return A_STAY;
      }
      s.allocTotal += n;
      Obj* o = newObj(s, n, e->ext == X_NEW ? K_NEW : K_NEWARR);
      R(Val(o->base()));
      return A_NEXT;
   }
   case X_MALLOC: case X_CALLOC: {
      u64 n;
      Val sz = A(0);
      if (e->ext == X_CALLOC) sz = binop(s, Instruction::Mul, A(0), A(1), 64, nullptr);
      if (!allocSize(s, sz, n)) { R(Val(0)); return A_NEXT; }
      s.allocTotal += n;
      Obj* o = newObj(s, n, K_MALLOC);
      if (e->ext == X_CALLOC) o->st.assign(n, 1);
      R(Val(o->base()));
      return A_NEXT;
   }
   case X_REALLOC: {
      u64 n, p = conc(0);
      if (!allocSize(s, A(1), n)) { R(Val(0)); return A_NEXT; }
      s.allocTotal += n;
      u64 old = 0;
      if (p) {
         u64  off;
         Obj* oo = check(s, p, 0, false, off);
         if (oo->kind != K_MALLOC || off) violate(s, "invalid-free", "realloc of a pointer that is not a malloc block");
         old = oo->size;
      }
      Obj* o = newObj(s, n, K_MALLOC);
      u64  nb = o->base();
      if (p) { copyBytes(s, nb, p, std::min(old, n)); doFree(s, Val(p), K_MALLOC); }
      R(Val(nb));
      return A_NEXT;
   }
   case X_FREE: doFree(s, A(0), K_MALLOC); return A_NEXT;
   case X_DELETE: doFree(s, A(0), K_NEW); return A_NEXT;
   case X_DELETEARR: doFree(s, A(0), K_NEWARR); return A_NEXT;
   case X_CXA_ALLOC: {
      u64  n = conc(0);
      Obj* o = newObj(s, n, K_EXC);
      R(Val(o->base()));
      return A_NEXT;
   }
   case X_CXA_FREE: s.mem.set(conc(0) >> OBJ_SHIFT, nullptr); return A_NEXT;
   case X_CXA_THROW: {
      u64             p = conc(0), ti = conc(1), d = conc(2);
      GlobalVariable* g = nullptr;
      for (auto& G : M->globals())
         if (gaddr[&G] == ti) { g = &G; break; }
      s.excs.push_back({ p, g, d, 0 });
      unwind(s, p);
      return A_STAY;
   }
   case X_CXA_GETPTR: R(A(0)); return A_NEXT;
   case X_CXA_BEGIN: {
      u64 p = conc(0);
      for (auto& x : s.excs)
         if (x.obj == p) x.handlers++;
      s.caught.push_back(p);
      R(Val(p));
      return A_NEXT;
   }
   case X_CXA_END: {
      if (s.caught.empty()) return A_NEXT;
      u64 p = s.caught.back();
      s.caught.pop_back();
      for (size_t i = 0; i < s.excs.size(); ++i)
         if (s.excs[i].obj == p && --s.excs[i].handlers == 0) {
            u64 d = s.excs[i].dtor;
            s.excs.erase(s.excs.begin() + i);
            if (d) {
               Function* F = fnOfObj[d >> OBJ_SHIFT];
               if (F && !F->isDeclaration()) {
                  pushCall(s, getFn(F), { Val(p) }, nullptr);
                  s.fr.back().freeExc = p;
                  return A_STAY;
               }
            }
            s.mem.set(p >> OBJ_SHIFT, nullptr);
            break;
         }
      return A_NEXT;
   }
   case X_CXA_RETHROW: {
      if (s.caught.empty()) violate(s, "terminate", "rethrow without exception");
      u64 p = s.caught.back();
      for (auto& x : s.excs)
         if (x.obj == p) x.handlers++;   // keep it alive over the implicit end_catch
      unwind(s, p);
      // rethrown: the pending end_catch drops one count, the new handler adds one
      for (auto& x : s.excs)
         if (x.obj == p) x.handlers--;
      s.excs.back();
      return A_STAY;
   }
   case X_TYPEID: R(Val(e->cst)); return A_NEXT;
   case X_GUARD_ACQ: {
      u64 p = conc(0);
      Val v = loadMem(s, Val(p), 8);
      R(Val(v.c ? 0 : 1));
      return A_NEXT;
   }
   case X_GUARD_REL: storeMem(s, A(0), Val(1), 8); return A_NEXT;
   case X_ATEXIT: R(Val(0)); return A_NEXT;
   case X_TERMINATE: violate(s, "terminate", "std::terminate called");
   case X_ABORT: violate(s, "abort", "abort/exit called");
   case X_PUREVIRT: violate(s, "abort", "pure virtual call");
   case X_ASSERTFAIL: violate(s, "assert-fail", "assert(" + cstr(s, conc(0)) + ") failed");
   case X_TRAP: violate(s, "ub-trap", "undefined behaviour trap");
   case X_ERRNO: {
      GlobalVariable* g = M->getGlobalVariable("__vs_errno", true);
      if (!g) fatal("__vs_errno missing");
      R(Val(gaddr[g]));
      return A_NEXT;
   }
   case X_UMIN: case X_UMAX: case X_SMIN: case X_SMAX: {
      bool sg = e->ext == X_SMIN || e->ext == X_SMAX, mn = e->ext == X_UMIN || e->ext == X_SMIN;
      X    a = A(0).x(w), b = A(1).x(w);
      X    lt = sg ? mkSlt(a, b) : mkUlt(a, b);
      R(Val::of(mn ? mkIte(lt, a, b) : mkIte(lt, b, a)));
      return A_NEXT;
   }
   case X_ABS: { X a = A(0).x(w); R(Val::of(mkIte(mkSlt(a, mkConst(0, w)), mkSub(mkConst(0, w), a), a))); return A_NEXT; }
   case X_CTLZ: R(Val::of(ctlzX(A(0).x(w)))); return A_NEXT;
   case X_CTTZ: R(Val::of(cttzX(A(0).x(w)))); return A_NEXT;
   case X_CTPOP: R(Val::of(ctpopX(A(0).x(w)))); return A_NEXT;
   case X_BSWAP: { X a = A(0).x(w), r = nullptr; for (u32 i = 0; i < w / 8; ++i) { X b = mkExtract(a, i * 8, 8); r = r ? mkConcat(r, b) : b; } R(Val::of(r)); return A_NEXT; }
   case X_BITREV: { X a = A(0).x(w), r = nullptr; for (u32 i = 0; i < w; ++i) { X b = mkExtract(a, i, 1); r = r ? mkConcat(r, b) : b; } R(Val::of(r)); return A_NEXT; }
   case X_FSHL: case X_FSHR: {
      X a = A(0).x(w), b = A(1).x(w), c = A(2).x(w);
      X m = mkURem(c, mkConst(w, w));
      if (m->is_const()) {
         u32 k = (u32)m->c;
         if (e->ext == X_FSHR) k = (w - k) % w, R(Val::of((u32)m->c == 0 ? b : mkConcat(mkExtract(a, 0, w - (w - (u32)m->c)), mkExtract(b, (u32)m->c, w - (u32)m->c))));
         else R(Val::of(k == 0 ? a : mkConcat(mkExtract(a, 0, w - k), mkExtract(b, w - k, k))));
      } else {
         X inv = mkSub(mkConst(w, w), m);
         X z   = mkEq(m, mkConst(0, w));
         if (e->ext == X_FSHL) R(Val::of(mkIte(z, a, mkOr(mkShl(a, m), mkLShr(b, inv)))));
         else R(Val::of(mkIte(z, b, mkOr(mkShl(a, inv), mkLShr(b, m)))));
      }
      return A_NEXT;
   }
   case X_UADDO: case X_USUBO: case X_UMULO: case X_SADDO: case X_SSUBO: case X_SMULO: {
      u32 aw = e->argw[0];
      X   a = A(0).x(aw), b = A(1).x(aw);
      u32 W = e->ext == X_UMULO || e->ext == X_SMULO ? aw * 2 : aw + 1;
      X   r, o;
      bool sg = e->ext >= X_SADDO;
      if (W <= 128) {
         X ea = sg ? mkSExt(a, W) : mkZExt(a, W), eb = sg ? mkSExt(b, W) : mkZExt(b, W);
         X full = (e->ext == X_UADDO || e->ext == X_SADDO) ? mkAdd(ea, eb) : (e->ext == X_USUBO || e->ext == X_SSUBO) ? mkSub(ea, eb) : mkMul(ea, eb);
         r = mkExtract(full, 0, aw);
         o = mkNe(full, sg ? mkSExt(r, W) : mkZExt(r, W));
      } else {
         X sa = mkExtract(a, aw - 1, 1), sb = mkExtract(b, aw - 1, 1);
         switch (e->ext) {
         case X_UADDO: r = mkAdd(a, b); o = mkUlt(r, a); break;
         case X_USUBO: r = mkSub(a, b); o = mkUlt(a, b); break;
         case X_SADDO: r = mkAdd(a, b); o = mkAnd(mkEq(sa, sb), mkNe(mkExtract(r, aw - 1, 1), sa)); break;
         case X_SSUBO: r = mkSub(a, b); o = mkAnd(mkNe(sa, sb), mkNe(mkExtract(r, aw - 1, 1), sa)); break;
         case X_UMULO:
            r = mkMul(a, b);
            // overflow iff a != 0 and r / a != b
            if (b->is_const() && b->c) { o = mkUlt(mkConst(maskw(aw) / b->c, aw), a); break; }
            if (a->is_const() && a->c) { o = mkUlt(mkConst(maskw(aw) / a->c, aw), b); break; }
            giveup(s, "128-bit umul overflow");
         default:
            if (b->is_const() && sx(b->c, aw) > 0) {
               s128 c = sx(b->c, aw), mx = (s128)maskw(aw - 1), mn = -mx - 1;
               r = mkMul(a, b);
               o = mkOr(mkSlt(mkConst((u128)(mx / c), aw), a), mkSlt(a, mkConst((u128)(mn / c), aw)));
               break;
            }
            giveup(s, "128-bit smul overflow");
         }
      }
      s.fr.back().r[in.dst] = Val::of(r);
      s.fr.back().r[in.dst + 1] = Val::of(o);
      return A_NEXT;
   }
   case X_UADDSAT: { X a = A(0).x(w), b = A(1).x(w), r = mkAdd(a, b); R(Val::of(mkIte(mkUlt(r, a), mkConst(maskw(w), w), r))); return A_NEXT; }
   case X_USUBSAT: { X a = A(0).x(w), b = A(1).x(w); R(Val::of(mkIte(mkUlt(a, b), mkConst(0, w), mkSub(a, b)))); return A_NEXT; }
   case X_FABS: R(Val::of(mkAnd(A(0).x(w), mkConst(maskw(w - 1), w)))); return A_NEXT;
   case X_COPYSIGN: { X a = A(0).x(w), b = A(1).x(w); R(Val::of(mkConcat(mkExtract(b, w - 1, 1), mkExtract(a, 0, w - 1)))); return A_NEXT; }
   case X_FMULADD: {   // x86-64 without FMA: two roundings
      if (A(0).e || A(1).e || A(2).e) giveup(s, "symbolic floating point");
      if (w == 64) { volatile double p = u2f((u64)A(0).c) * u2f((u64)A(1).c); R(Val(f2u(p + u2f((u64)A(2).c)))); }
      else { volatile float p = u2g((u32)A(0).c) * u2g((u32)A(1).c); R(Val(g2u(p + u2g((u32)A(2).c)))); }
      return A_NEXT;
   }
   case X_FLOOR: case X_CEIL: {
      if (A(0).e) giveup(s, "symbolic floating point");
      if (w == 64) R(Val(f2u(e->ext == X_FLOOR ? floor(u2f((u64)A(0).c)) : ceil(u2f((u64)A(0).c)))));
      else R(Val(g2u(e->ext == X_FLOOR ? floorf(u2g((u32)A(0).c)) : ceilf(u2g((u32)A(0).c)))));
      return A_NEXT;
   }
   case X_ISFPCLASS: {
      u32  aw = e->argw[0], k = (u32)A(1).c;
      X    x = A(0).x(aw), mag = mkAnd(x, mkConst(maskw(aw - 1), aw)), sgn = mkExtract(x, aw - 1, 1);
      u32  mb = aw == 64 ? 52 : 23;
      u128 inf = aw == 64 ? (u128)0x7ff0000000000000ULL : (u128)0x7f800000U;
      X    isnan = fIsNan(x), q = mkExtract(x, mb - 1, 1), isinf = mkEq(mag, mkConst(inf, aw)), isz = mkEq(mag, mkConst(0, aw));
      X    fin = mkUlt(mag, mkConst(inf, aw)), nrm = mkAnd(fin, mkUle(mkConst((u128)1 << mb, aw), mag)), sub = mkAnd(mkNot(isz), mkUlt(mag, mkConst((u128)1 << mb, aw)));
      X    r = mkConst(0, 1);
      X    np = mkNot(sgn);
      if (k & 1) r = mkOr(r, mkAnd(isnan, mkNot(q)));
      if (k & 2) r = mkOr(r, mkAnd(isnan, q));
      if (k & 4) r = mkOr(r, mkAnd(isinf, sgn));
      if (k & 8) r = mkOr(r, mkAnd(nrm, sgn));
      if (k & 16) r = mkOr(r, mkAnd(sub, sgn));
      if (k & 32) r = mkOr(r, mkAnd(isz, sgn));
      if (k & 64) r = mkOr(r, mkAnd(isz, np));
      if (k & 128) r = mkOr(r, mkAnd(sub, np));
      if (k & 256) r = mkOr(r, mkAnd(nrm, np));
      if (k & 512) r = mkOr(r, mkAnd(isinf, np));
      R(Val::of(r));
      return A_NEXT;
   }
   case X_VASTART: {   // x86-64 va_list with the register save area exhausted: every argument is in the overflow area
      u64    p = conc(0);
      Frame& fr = s.fr.back();
      u64    n = fr.va.size();
      Obj*   o = newObj(s, n ? 8 * n : 8, K_STACK, "varargs");
      u64    b = o->base();
      fr.allocas.push_back(o->id);
      for (u64 i = 0; i < n; ++i) {
         Val v = fr.va[i];
         if (v.e) v = Val::of(mkZExt(v.e, 64));
         storeMem(s, Val(b + 8 * i), v, 64);
      }
      storeMem(s, Val(p), Val(48), 32);
      storeMem(s, Val(p + 4), Val(176), 32);
      storeMem(s, Val(p + 8), Val(b), 64);
      storeMem(s, Val(p + 16), Val(b), 64);
      return A_NEXT;
   }
   case X_VACOPY: copyBytes(s, conc(0), conc(1), 24); return A_NEXT;
   case X_OBJSIZE: R(Val(A(1).c ? 0 : maskw(w))); return A_NEXT;
   case X_ISCONST: R(Val(0)); return A_NEXT;
   case X_EXPECT: case X_TLSADDR: R(A(0)); return A_NEXT;
   case X_STRTOD: case X_STRTOF: {
      u64         p = conc(0), ep = conc(1);
      std::string t;
      for (u64 q = p;; ++q) {
         u64  off;
         check(s, q, 1, false, off);
         Val b = loadMem(s, Val(q), 8);
         u64 c = (u64)concretize(s, b, 8);
         if (!c) break;
         t += (char)c;
      }
      char* end;
      errno = 0;
      u128  r;
      if (e->ext == X_STRTOD) r = f2u(strtod(t.c_str(), &end)); else r = g2u(strtof(t.c_str(), &end));
      int er = errno;
      if (ep) storeMem(s, Val(ep), Val(p + (end - t.c_str())), 64);
      if (er) storeMem(s, Val(gaddr[M->getGlobalVariable("__vs_errno", true)]), Val(er), 32);
      R(Val(r));
      return A_NEXT;
   }
   // ---------------------------------------------------------------- harness API
   case X_VS_BYTES: {
      u64         p = conc(0), n = conc(1);
      std::string nm = cstr(s, conc(2));
      std::vector<std::pair<Val, u16>> v;
      for (u64 i = 0; i < n; ++i) v.push_back({ Val::of(symVar(nm, s.symCount[nm]++, 8)), 8 });
      for (u64 i = 0; i < n; ++i) storeMem(s, Val(p + i), v[i].first, 8);
      addInput(nm, v);
      return A_NEXT;
   }
   case X_VS_U8: case X_VS_U16: case X_VS_U32: case X_VS_U64: {
      u32         ww = e->ext == X_VS_U8 ? 8 : e->ext == X_VS_U16 ? 16 : e->ext == X_VS_U32 ? 32 : 64;
      std::string nm = cstr(s, conc(0));
      X           v  = symVar(nm, s.symCount[nm]++, ww);
      addInput(nm, { { Val::of(v), (u16)ww } });
      R(Val::of(mkZExt(v, w)));
      return A_NEXT;
   }
   case X_VS_RANGE: {   // lo..hi, with the bound known to the simplifier
      u64         lo = conc(0), hi = conc(1), d = hi - lo;
      std::string nm = cstr(s, conc(2));
      X           v;
      if (!d) { v = mkConst(lo, 64); s.symCount[nm]++; }
      else {
         u32 bw = 64 - __builtin_clzll(d);
         X   x  = symVar(nm, s.symCount[nm]++, bw, d);
         X   b  = mkBound(x);
         if (!b->is_const() && !s.known.count(b->id)) {
            addCons(s, b);
            if (!evalExpr(b, *s.model)) { auto m = std::make_shared<Model>(*s.model); m->set((u32)x->aux, 0); s.model = m; }
         }
         v = mkAdd(mkZExt(x, 64), mkConst(lo, 64));
      }
      addInput(nm, { { Val::of(v), 64 } });
      R(Val::of(v));
      return A_NEXT;
   }
   case X_VS_CHOICE: {
      u64         n  = conc(0);
      std::string nm = cstr(s, conc(1));
      int         oc = s.symCount[nm];
      X           v  = symVar(nm, oc, 32);
      X           lim = mkUlt(v, mkConst(n, 32));
      if (!s.known.count(lim->id) && !lim->is_const()) {
         addCons(s, lim);
         if (!evalExpr(lim, *s.model)) { auto m = std::make_shared<Model>(*s.model); m->set((u32)v->aux, 0); s.model = m; }
      }
      u64 x = (u64)concretize(s, Val::of(v), 32);
      s.symCount[nm] = oc + 1;
      addInput(nm, { { Val::of(v), 32 } });
      R(Val(x));
      return A_NEXT;
   }
   case X_VS_FORK: { u64 x = (u64)concretize(s, A(0), e->argw[0]); R(Val(x)); return A_NEXT; }
   case X_VS_SYMBOLIC: R(Val(1)); return A_NEXT;
   case X_VS_ASSUME: {
      X c = A(0).x(e->argw[0]);
      if (c->w > 1) c = mkNe(c, mkConst(0, c->w));
      if (c->is_const()) { if (!c->c) throw PathEnd{ 1 }; return A_NEXT; }
      if (evalExpr(c, *s.model)) { addCons(s, c); return A_NEXT; }
      Model m;
      SatRes r = feasible(s, c, m);
      if (r == R_UNSAT) throw PathEnd{ 1 };
      if (r == R_UNKNOWN) giveup(s, "solver timeout in assume");
      s.model = std::make_shared<Model>(m);
      addCons(s, c);
      return A_NEXT;
   }
   case X_VS_ASSERT: {
      std::string msg = cstr(s, conc(1));
      X c = A(0).x(e->argw[0]);
      if (c->w > 1) c = mkNe(c, mkConst(0, c->w));
      ++st.asserts;
      ++st.assertSites[msg];
      if (c->is_const()) { ++st.assertConst; if (!c->c) violate(s, "assert", msg); return A_NEXT; }
      if (s.known.count(c->id)) { ++st.assertConst; return A_NEXT; }
      ++st.assertQueries;
      X      n = mkNot(c);
      Model  m;
      SatRes r;
      if (evalExpr(n, *s.model)) { m = *s.model; r = R_SAT; } else r = feasible(s, n, m);
      if (r == R_UNKNOWN) { ++st.inconclusive; ++st.inconcl["solver timeout in assertion: " + msg]; return A_NEXT; }
      if (r == R_SAT) {
         recordViolation(s, "assert", msg, m);
         throw PathEnd{ 2 };
      }
      addKnown(s, c);
      return A_NEXT;
   }
   case X_VS_REACH: ++st.reach[cstr(s, conc(0))]; return A_NEXT;
   case X_VS_FINDING: {   // (cond, id): the listed defect is still present if cond is satisfiable here
      std::string id = cstr(s, conc(1));
      X c = A(0).x(e->argw[0]);
      if (c->w > 1) c = mkNe(c, mkConst(0, c->w));
      Model m;
      if (st.kf[id] == 0 && feasible(s, c, m) == R_SAT) {
         st.kf[id]++;
         emitLine("{\"type\":\"finding\",\"entry\":" + jstr(g_entry) + ",\"id\":" + jstr(id) + ",\"inputs\":" + inputsJson(s, m) + "}");
      }
      return A_NEXT;
   }
   case X_VS_OBSERVE: {
      u64         p = conc(0), n = conc(1);
      std::string nm = cstr(s, conc(2));
      std::vector<std::pair<Val, u16>> v;
      for (u64 i = 0; i < n; ++i) v.push_back({ loadMem(s, Val(p + i), 8), 8 });
      s.observes.push_back({ nm, v });
      return A_NEXT;
   }
   case X_VS_OBSERVE64: s.observes.push_back({ cstr(s, conc(1)), { { A(0), 64 } } }); return A_NEXT;
   case X_VS_ALLOCCAP: s.allocCap = conc(0); return A_NEXT;
   case X_VS_ALLOCTOTAL: R(Val(s.allocTotal)); s.allocTotal = 0; return A_NEXT;
   case X_VS_END: throw PathEnd{ 0 };
   case X_VS_DEBUG: fprintf(stderr, "[debug] %s = %s\n", cstr(s, conc(0)).c_str(), exprStr(A(1).x(64), 10).c_str()); return A_NEXT;
   default: giveup(s, "call to unmodelled function " + e->text);
   }
}
static void doCall(State& s, Inst& in, Ext* e) {
   Frame& f = s.fr.back();
   if (e->ext == X_NONE && !e->callee) {
      u64       p = (u64)concretize(s, opv(f, in.a), 64);
      auto      it = fnOfObj.find(p >> OBJ_SHIFT);
      if (it == fnOfObj.end() || (p & (((u64)1 << OBJ_SHIFT) - 1)) != OBJ_BASEOFF) violate(s, "bad-call", "call through an invalid function pointer");
      Function* F = it->second;
      auto      en = extNames.find(F->getName().str());
      if (en != extNames.end() || F->isDeclaration()) {
         Ext t(*e);
         t.ext  = en != extNames.end() ? en->second : X_UNKNOWN;
         t.text = F->getName().str();
         if (callExternal(s, in, &t) == A_NEXT) advanceCall(s.fr.back());
         return;
      }
      std::vector<Val> args;
      for (int o : e->ops) args.push_back(opv(f, o));
      pushCall(s, getFn(F), args, &e->byval);
      return;
   }
   if (e->ext != X_NONE) {
      if (callExternal(s, in, e) == A_NEXT) advanceCall(s.fr.back());
      return;
   }
   std::vector<Val> args;
   args.reserve(e->ops.size());
   for (int o : e->ops) args.push_back(opv(f, o));
   pushCall(s, getFn(e->callee), args, &e->byval);
}
static void step(State& s) {
   Frame& f  = s.fr.back();
   Inst&  in = f.fn->code[f.pc];
   ++st.instrs;
   ++s.steps;
   ++f.fn->icount;
   switch (in.op) {
   case O_BIN: f.r[in.dst] = binop(s, in.sub, opv(f, in.a), opv(f, in.b), in.w, in.I); ++f.pc; return;
   case O_ICMP: {
      const Val &a = opv(f, in.a), &b = opv(f, in.b);
      if (!a.e && !b.e) f.r[in.dst] = Val(icmpC(in.sub, a.c, b.c, in.w2));
      else f.r[in.dst] = Val::of(icmpX(in.sub, a.x(in.w2), b.x(in.w2)));
      ++f.pc;
      return;
   }
   case O_SELECT: {
      const Val& c = opv(f, in.c);
      if (!c.e) f.r[in.dst] = c.c ? opv(f, in.a) : opv(f, in.b);
      else f.r[in.dst] = Val::of(mkIte(c.e, opv(f, in.a).x(in.w), opv(f, in.b).x(in.w)));
      ++f.pc;
      return;
   }
   case O_TRUNCI: { const Val& a = opv(f, in.a); f.r[in.dst] = a.e ? Val::of(mkExtract(a.e, 0, in.w)) : Val(a.c & maskw(in.w)); ++f.pc; return; }
   case O_ZEXT: { const Val& a = opv(f, in.a); f.r[in.dst] = a.e ? Val::of(mkZExt(a.e, in.w)) : a; ++f.pc; return; }
   case O_SEXT: { const Val& a = opv(f, in.a); f.r[in.dst] = a.e ? Val::of(mkSExt(a.e, in.w)) : Val((u128)sx(a.c, in.w2) & maskw(in.w)); ++f.pc; return; }
   case O_COPY: f.r[in.dst] = opv(f, in.a); ++f.pc; return;
   case O_MOVES: {
      Ext* e = f.fn->exts[in.ext];
      if (e->ops.size() == 1) f.r[in.dst] = opv(f, e->ops[0]);
      else for (size_t i = 0; i < e->ops.size(); ++i) f.r[in.dst + i] = opv(f, e->ops[i]);
      ++f.pc;
      return;
   }
   case O_LOAD: {
      Ext* e = f.fn->exts[in.ext];
      const Val p = opv(f, in.a);
      if (e->parts.size() == 1) {
         Val v = loadMem(s, p, e->parts[0].w);
         if (e->hasRange) {
            u32 w = e->parts[0].w;
            if (e->rlo <= e->rhi) {
               X ok = mkAnd(mkUle(mkConst(e->rlo, w), v.x(w)), mkUlt(v.x(w), mkConst(e->rhi, w)));
               // uninitialised bytes are not a value-range violation by themselves
               bool un = false;
               if (v.e) for (u32 q : *varsOf(v.e)) if (g_vars[q].name.compare(0, 6, "uninit") == 0) un = true;
               if (!un && !decide(s, ok)) violate(s, "invalid-value-load", "load of a value outside its type's valid range (bool/enum)");
            }
         }
         s.fr.back().r[in.dst] = v;
      } else {
         for (size_t i = 0; i < e->parts.size(); ++i) {
            Val q = p.e ? Val::of(mkAdd(p.e, mkConst(e->parts[i].off, 64))) : Val((u64)(p.c + e->parts[i].off));
            Val v = loadMem(s, q, e->parts[i].w);
            s.fr.back().r[in.dst + i] = v;
         }
      }
      ++s.fr.back().pc;
      return;
   }
   case O_STORE: {
      Ext* e = f.fn->exts[in.ext];
      const Val p = opv(f, in.a);
      if (e->parts.size() == 1) storeMem(s, p, opv(f, in.b), e->parts[0].w);
      else {
         if (p.e) giveup(s, "aggregate store through symbolic pointer");
         for (size_t i = 0; i < e->parts.size(); ++i) storeMem(s, Val((u64)(p.c + e->parts[i].off)), opv(f, Decoder::nth(in.b, (int)i)), e->parts[i].w);
      }
      ++f.pc;
      return;
   }
   case O_ALLOCA: {
      Ext* e = f.fn->exts[in.ext];
      u64  n = (u64)concretize(s, opv(f, in.a), in.w2);
      Obj* o = newObj(s, e->cst * n, K_STACK);
      f.allocas.push_back(o->id);
      f.r[in.dst] = Val(o->base());
      ++f.pc;
      return;
   }
   case O_GEP: {
      Ext*       e = f.fn->exts[in.ext];
      const Val& b = opv(f, in.a);
      bool       sym = b.e != nullptr;
      for (auto& v : e->var) sym |= opv(f, v.first).e != nullptr;
      if (!sym) {
         u64 a = (u64)b.c + e->cst;
         for (auto& v : e->var) a += (u64)sx(opv(f, v.first).c, v.second.second) * v.second.first;
         f.r[in.dst] = Val(a);
      } else {
         X a = mkAdd(b.x(64), mkConst(e->cst, 64));
         for (auto& v : e->var) {
            X i = opv(f, v.first).x(v.second.second);
            i   = v.second.second < 64 ? mkSExt(i, 64) : mkExtract(i, 0, 64);
            a   = mkAdd(a, mkMul(i, mkConst(v.second.first, 64)));
         }
         f.r[in.dst] = Val::of(a);
      }
      ++f.pc;
      return;
   }
   case O_BR: takeEdge(f, f.fn->exts[in.ext]->edges[0]); return;
   case O_CBR: {
      const Val& c = opv(f, in.a);
      bool       b;
      if (c.e && !s.known.count(c.e->id) && !s.known.count(mkNot(c.e)->id)) {
         MG* g = openGroup(s, in);
         u64 k = st.forks;
         b     = decide(s, c.e);
         if (g && st.forks == k) closeGroup(s, g);
      } else
         b = c.e ? decide(s, c.e) : c.c != 0;
      Frame& f2 = s.fr.back();
      takeEdge(f2, f2.fn->exts[in.ext]->edges[b ? 0 : 1]);
      return;
   }
   case O_SWITCH: {
      Ext*       e = f.fn->exts[in.ext];
      const Val& v = opv(f, in.a);
      if (!v.e) {
         for (size_t i = 0; i < e->cases.size(); ++i)
            if (e->cases[i] == v.c) { takeEdge(f, e->edges[i + 1]); return; }
         takeEdge(f, e->edges[0]);
         return;
      }
      // group the cases by target (and phi copies)
      u128 mv = evalExpr(v.e, *s.model);
      size_t hit = 0;
      for (size_t i = 0; i < e->cases.size(); ++i) if (e->cases[i] == mv) hit = i + 1;
      X cond = mkConst(0, 1), def = mkConst(1, 1);
      auto sameEdge = [&](const Edge& a, const Edge& b) { return a.pc == b.pc && a.copies == b.copies; };
      for (size_t i = 0; i < e->cases.size(); ++i) {
         X q = mkEq(v.e, mkConst(e->cases[i], in.w2));
         if (sameEdge(e->edges[i + 1], e->edges[hit])) cond = mkOr(cond, q);
         def = mkAnd(def, mkNot(q));
      }
      if (sameEdge(e->edges[0], e->edges[hit])) cond = mkOr(cond, def);
      if (!cond->is_const() && !s.known.count(cond->id)) {
         MG* g = openGroup(s, in);
         u64 k = st.forks;
         decide(s, cond);   // true under the current model
         if (g && st.forks == k) closeGroup(s, g);
      }
      takeEdge(s.fr.back(), e->edges[hit]);
      return;
   }
   case O_RET: {
      Ext*             e = f.fn->exts[in.ext];
      std::vector<Val> rv;
      for (int o : e->ops) rv.push_back(opv(f, o));
      freeAllocas(s, f);
      u64  fe = f.freeExc;
      bool top = f.isTop;
      if (!s.mg.empty()) {
         u32 d = (u32)s.fr.size();
         while (!s.mg.empty() && s.mg.back()->depth >= d && !s.mg.back()->ret) leaveTop(s);
         if (!s.mg.empty() && s.mg.back()->ret && s.mg.back()->depth == d) s.parkNow = true;
      }
      s.fr.pop_back();
      if (fe) s.mem.set(fe >> OBJ_SHIFT, nullptr);
      if (top || s.fr.empty()) throw PathEnd{ 0 };
      Frame& c  = s.fr.back();
      Inst&  ci = c.fn->code[c.pc];
      if (ci.dst >= 0 && !fe)
         for (size_t i = 0; i < rv.size(); ++i) c.r[ci.dst + i] = rv[i];
      advanceCall(c);
      return;
   }
   case O_CALL: doCall(s, in, f.fn->exts[in.ext]); return;
   case O_UNREACHABLE: violate(s, "unreachable", "control reaches an unreachable point (undefined behaviour)");
   case O_RESUME: {
      u64 p = (u64)opv(f, in.a).c;
      // leave this frame: find invoke in callers
      if (f.isTop || s.fr.size() == 1) violate(s, "uncaught-exception", "exception escapes");
      if (f.fn->F->doesNotThrow()) violate(s, "terminate", "exception escapes a noexcept function");
      freeAllocas(s, f);
      s.fr.pop_back();
      unwind(s, p);
      return;
   }
   case O_LANDINGPAD:
      f.r[in.dst]     = Val(s.curExc);
      f.r[in.dst + 1] = Val((u32)s.curSel);
      ++f.pc;
      return;
   case O_FCMP: {
      X r = fcmpX(in.sub, opv(f, in.a).x(in.w2), opv(f, in.b).x(in.w2));
      if (in.w2 != 32 && in.w2 != 64) giveup(s, "long double comparison");
      f.r[in.dst] = Val::of(r);
      ++f.pc;
      return;
   }
   case O_FUN: f.r[in.dst] = Val::of(mkXor(opv(f, in.a).x(in.w), mkConst((u128)1 << (in.w - 1), in.w))); ++f.pc; return;
   case O_FBIN: {
      const Val &a = opv(f, in.a), &b = opv(f, in.b);
      if (a.e || b.e || (in.w != 32 && in.w != 64)) giveup(s, "symbolic floating-point arithmetic");
      auto ap = [&](auto x, auto y) -> decltype(x) {
         switch (in.sub) {
         case Instruction::FAdd: return x + y;
         case Instruction::FSub: return x - y;
         case Instruction::FMul: return x * y;
         case Instruction::FDiv: return x / y;
         default: return std::fmod(x, y);
         }
      };
      f.r[in.dst] = in.w == 64 ? Val(f2u(ap(u2f((u64)a.c), u2f((u64)b.c)))) : Val(g2u(ap(u2g((u32)a.c), u2g((u32)b.c))));
      ++f.pc;
      return;
   }
   case O_FPCAST: {
      const Val& a = opv(f, in.a);
      if (a.e) {
         if (in.sub == Instruction::FPExt && in.w == 64 && in.w2 == 32) { f.r[in.dst] = Val::of(fpextX(a.e)); ++f.pc; return; }
         giveup(s, "symbolic floating-point conversion");
      }
      double d = in.w2 == 64 ? u2f((u64)a.c) : u2g((u32)a.c);
      switch (in.sub) {
      case Instruction::FPExt: f.r[in.dst] = Val(f2u((double)u2g((u32)a.c))); break;
      case Instruction::FPTrunc: f.r[in.dst] = Val(g2u((float)u2f((u64)a.c))); break;
      case Instruction::SIToFP: f.r[in.dst] = in.w == 64 ? Val(f2u((double)sx(a.c, in.w2))) : Val(g2u((float)sx(a.c, in.w2))); break;
      case Instruction::UIToFP: f.r[in.dst] = in.w == 64 ? Val(f2u((double)a.c)) : Val(g2u((float)a.c)); break;
      case Instruction::FPToSI: f.r[in.dst] = Val((u128)(s128)d & maskw(in.w)); break;
      case Instruction::FPToUI: f.r[in.dst] = Val((u128)d & maskw(in.w)); break;
      }
      ++f.pc;
      return;
   }
   case O_RMW: {
      Val p = opv(f, in.a), v = opv(f, in.b);
      Val o = loadMem(s, p, in.w);
      Val n;
      switch (in.sub) {
      case AtomicRMWInst::Xchg: n = v; break;
      case AtomicRMWInst::Add: n = binop(s, Instruction::Add, o, v, in.w, nullptr); break;
      case AtomicRMWInst::Sub: n = binop(s, Instruction::Sub, o, v, in.w, nullptr); break;
      case AtomicRMWInst::And: n = binop(s, Instruction::And, o, v, in.w, nullptr); break;
      case AtomicRMWInst::Or: n = binop(s, Instruction::Or, o, v, in.w, nullptr); break;
      default: giveup(s, "atomicrmw");
      }
      storeMem(s, p, n, in.w);
      s.fr.back().r[in.dst] = o;
      ++s.fr.back().pc;
      return;
   }
   case O_CMPXCHG: {
      Val p = opv(f, in.a), cmp = opv(f, in.b), nw = opv(f, in.c);
      Val o = loadMem(s, p, in.w);
      bool eq = decide(s, mkEq(o.x(in.w), cmp.x(in.w)));
      if (eq) storeMem(s, p, nw, in.w);
      s.fr.back().r[in.dst] = o;
      s.fr.back().r[in.dst + 1] = Val(eq ? 1 : 0);
      ++s.fr.back().pc;
      return;
   }
   case O_NOP: ++f.pc; return;
   case O_UNSUPPORTED: giveup(s, "unsupported instruction:" + f.fn->exts[in.ext]->text);
   default: fatal("step");
   }
}

// ------------------------------------------------------------------ exploration
static u64 g_sampled = 0, g_pathNo = 0;
static X renameUninit(X e, std::unordered_map<X, X>& memo) {
   if (e->is_const()) return e;
   auto it = memo.find(e);
   if (it != memo.end()) return it->second;
   X r = e;
   if (e->op == E_VAR) {
      if (g_vars[e->aux].name.compare(0, 6, "uninit") == 0) r = mkVar("other_" + g_vars[e->aux].name, e->w, e->mx);
   } else {
      X k[3] = { nullptr, nullptr, nullptr };
      for (int i = 0; i < 3; ++i) if (e->k[i]) k[i] = renameUninit(e->k[i], memo);
      switch (e->op) {
      case E_AND: r = mkAnd(k[0], k[1]); break;
      case E_OR: r = mkOr(k[0], k[1]); break;
      case E_XOR: r = mkXor(k[0], k[1]); break;
      case E_ADD: r = mkAdd(k[0], k[1]); break;
      case E_MUL: r = mkMul(k[0], k[1]); break;
      case E_UDIV: r = mkUDiv(k[0], k[1]); break;
      case E_SDIV: r = mkSDiv(k[0], k[1]); break;
      case E_UREM: r = mkURem(k[0], k[1]); break;
      case E_SREM: r = mkSRem(k[0], k[1]); break;
      case E_SHL: r = mkShl(k[0], k[1]); break;
      case E_LSHR: r = mkLShr(k[0], k[1]); break;
      case E_ASHR: r = mkAShr(k[0], k[1]); break;
      case E_EQ: r = mkEq(k[0], k[1]); break;
      case E_ULT: r = mkUlt(k[0], k[1]); break;
      case E_SLT: r = mkSlt(k[0], k[1]); break;
      case E_ITE: r = mkIte(k[0], k[1], k[2]); break;
      case E_CONCAT: r = mkConcat(k[0], k[1]); break;
      case E_EXTRACT: r = mkExtract(k[0], (u32)e->aux, e->w); break;
      case E_SEXT: r = mkSExt(k[0], e->w); break;
      case E_SELECT: r = mkSelect((const Table*)e->aux, k[0]); break;
      default: break;
      }
   }
   return memo[e] = r;
}
static void samplePath(State& s) {
   ++g_pathNo;
   u64 total = es->paths.fetch_add(1);
   // thin out geometrically; fresh seed-dependent choice
   bool take = total < 4 || g_sampled < 3;
   if (!take) { u64 h = (total * 0x9e3779b97f4a7c15ULL + g_seed * 0xbf58476d1ce4e5b9ULL) >> 32; take = h % (1 + total / (u64)std::max(1, g_samples / 4)) == 0; }
   if (!take || g_sampled >= (u64)g_samples) return;
   ++g_sampled;
   // uninitialised data must not show up in observations
   for (auto& o : s.observes)
      for (auto& p : o.second)
         if (p.first.e)
            for (u32 v : *varsOf(p.first.e))
               if (g_vars[v].name.compare(0, 6, "uninit") == 0) {
                  // merged paths leave uninitialised alternatives behind conditions: does the value really depend on them?
                  std::unordered_map<X, X> memo;
                  Model                    m;
                  if (feasible(s, mkNe(p.first.e, renameUninit(p.first.e, memo)), m) == R_SAT)
                     violate(s, "uninit-observed", "observable result depends on uninitialised memory: " + o.first);
                  break;
               }
   emitLine("{\"type\":\"path\",\"entry\":" + jstr(g_entry) + ",\"inputs\":" + inputsJson(s, *s.model) + ",\"observes\":" + observesJson(s, *s.model) + ",\"constraints\":" + std::to_string(s.cons.size()) + ",\"steps\":" + std::to_string(s.steps) + "}");
}
static std::vector<pid_t> kids;
static void finishProc(bool timeout) {
   std::string o = "{\"type\":\"stats\",\"entry\":" + jstr(g_entry);
   auto add = [&](const char* k, double v) { char b[64]; snprintf(b, sizeof b, ",\"%s\":%.6g", k, v); o += b; };
   auto addi = [&](const char* k, u64 v) { o += ",\"" + std::string(k) + "\":" + std::to_string(v); };
   addi("completed", st.completed); addi("assumed", st.assumed); addi("violations", st.violations); addi("inconclusive", st.inconclusive); addi("forks", st.forks);
   addi("instrs", st.instrs); addi("asserts", st.asserts); addi("assert_queries", st.assertQueries); addi("assert_const", st.assertConst);
   addi("queries", g_sst.queries); addi("sat", g_sst.sat); addi("unsat", g_sst.unsat); addi("unknown", g_sst.unknown); addi("cache", g_sst.cacheHits); addi("model_hits", g_sst.modelHits);
   addi("external", g_sst.external); addi("tables", g_sst.tables); addi("cross", g_sst.cross); add("solver_time", g_sst.time); add("ext_time", g_sst.extTime); add("maxq", g_sst.maxq);
   addi("exprs", g_nexprs); addi("merged", g_merged); addi("unmerged", g_unmerged); addi("timeout", timeout ? 1 : 0); addi("left", work.size());
   auto mp = [&](const char* k, std::map<std::string, u64>& m) {
      o += ",\"" + std::string(k) + "\":{";
      bool f1 = true;
      for (auto& p : m) { if (!f1) o += ","; f1 = false; o += jstr(p.first) + ":" + std::to_string(p.second); }
      o += "}";
   };
   mp("reach", st.reach);
   mp("assert_sites", st.assertSites);
   mp("inconcl", st.inconcl);
   o += ",\"functions\":[";
   bool f1 = true;
   std::set<std::string> need;
   for (Fn* f : fnList)
      if (f->executed) {
         if (!f1) o += ",";
         f1 = false;
         o += "[" + jstr(f->F->getName().str()) + "," + std::to_string(f->code.size()) + "," + std::to_string(f->icount) + "]";
      }
   o += "]}";
   emitLine(o);
}
static bool isChild = false;
static void runAll() {
   bool timeout = false;
   u32  tick = 0;
   while (!work.empty()) {
      if (es->stop.load() == 1) { timeout = false; break; }
      State* s = work.back();
      work.pop_back();
      int  end = -1;
      try {
         while (true) {
            step(*s);
            if (!s->mg.empty() && parkIfJoined(s)) { s = nullptr; break; }
            if ((++tick & 0x3ff) == 0) {
               if (nowS() > g_deadline) { timeout = true; break; }
               if (es->stop.load() == 1) break;
               if (s->steps > g_maxsteps) { giveup(*s, "step limit"); }
               // share work
               size_t nfree = 0;
               if (sh->active.load() < g_maxprocs) for (State* w : work) nfree += w->mg.empty();
               if (nfree) {
                  int a = sh->active.fetch_add(1);
                  if (a >= g_maxprocs) sh->active.fetch_sub(1);
                  else {
                     size_t half = (nfree + 1) / 2;
                     fflush(stdout);
                     fflush(stderr);
                     pid_t p = fork();
                     if (p == 0) {
                        isChild = true;
                        kids.clear();
                        st = Stats();
                        double keepmax = 0;
                        g_sst = SolverStats();
                        g_merged = g_unmerged = 0;
                        g_sst.maxq = keepmax;
                        for (Fn* fn : fnList) { fn->executed = false; fn->icount = 0; }
                        g_sampled = 0;
                        // the child takes the older half of the pending states
                        std::vector<State*> mine;
                        for (State* w : work) if (mine.size() < half && w->mg.empty()) mine.push_back(w);
                        work = mine;
                        s    = work.back();
                        work.pop_back();
                        tick = 0;
                        for (auto& fr : s->fr) fr.fn->executed = true;
                     } else if (p > 0) {
                        kids.push_back(p);
                        std::vector<State*> keep;
                        for (State* w : work) if (half && w->mg.empty()) { --half; delete w; } else keep.push_back(w);
                        work = keep;
                     } else
                        sh->active.fetch_sub(1);
                  }
               }
            }
         }
      } catch (PathEnd& pe) {
         end = pe.kind;
      }
      if (end == 0) {
         ++st.completed;
         try { samplePath(*s); } catch (PathEnd&) {}
      } else if (end == 1) ++st.assumed;
      else if (end == 3) ++st.inconclusive;
      if (s && !timeout) retire(s);
      if (timeout) break;
   }
   finishProc(timeout);
   fflush(stdout);
   fflush(stderr);
   sh->active.fetch_sub(1);
   int rc = 0;
   for (pid_t p : kids) {
      int w;
      if (waitpid(p, &w, 0) == p && (!WIFEXITED(w) || WEXITSTATUS(w))) {
         rc = 1;
         emitLine("{\"type\":\"crash\",\"entry\":" + jstr(g_entry) + ",\"status\":" + std::to_string(w) + "}");
         if (!WIFEXITED(w) || WEXITSTATUS(w) != 1) sh->active.fetch_sub(1);
      }
   }
   _exit(rc);
}

int main(int argc, char** argv) {
   // large stack for the recursive expression code
   struct rlimit rl;
   getrlimit(RLIMIT_STACK, &rl);
   if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < ((rlim_t)4 << 30) && !getenv("ABISYM_STK")) {
      rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? ((rlim_t)4 << 30) : rl.rlim_max;
      setrlimit(RLIMIT_STACK, &rl);
      setenv("ABISYM_STK", "1", 1);
      execv("/proc/self/exe", argv);
   }
   std::string              bc, out;
   std::vector<std::string> entries;
   double                   tl = 600, entryTl = 600;
   for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto        nx = [&] { return std::string(argv[++i]); };
      if (a == "-e") { std::string l = nx(); size_t p = 0; while (p <= l.size()) { size_t q = l.find(',', p); if (q == std::string::npos) q = l.size(); if (q > p) entries.push_back(l.substr(p, q - p)); p = q + 1; } }
      else if (a == "-o") out = nx();
      else if (a == "-j") g_maxprocs = atoi(nx().c_str());
      else if (a == "-t") tl = atof(nx().c_str());
      else if (a == "-v") g_verbose = true;
      else if (a == "-samples") g_samples = atoi(nx().c_str());
      else if (a == "-seed") g_seed = strtoull(nx().c_str(), nullptr, 10);
      else if (a == "-ext-timeout") g_ext_timeout = atof(nx().c_str());
      else if (a == "-budget") g_conf_budget = atol(nx().c_str());
      else if (a == "-cross") g_cross_every = atoi(nx().c_str());
      else if (a == "-nomerge") g_merge = false;
      else if (a == "-maxsteps") g_maxsteps = strtoull(nx().c_str(), nullptr, 10);
      else bc = a;
   }
   SMDiagnostic err;
   M = parseIRFile(bc, err, ctx);
   if (!M) { err.print("abisym", errs()); return 70; }
   DL = &M->getDataLayout();
   if (!out.empty()) g_resfd = open(out.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, 0644);
   sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   es = (EntryShared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   if (entries.empty())
      for (auto& F : *M)
         if (!F.isDeclaration() && F.getName().starts_with("h_")) entries.push_back(F.getName().str());
   double t0  = nowS();
   g_deadline = t0 + tl;
   // base state: globals + static constructors
   State base;
   base.model = std::make_shared<Model>();
   g_entry    = "<init>";
   initGlobals(base);
   if (auto* gc = M->getGlobalVariable("llvm.global_ctors"))
      if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
         std::vector<std::pair<u64, Function*>> cs;
         for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
            auto* c = cast<ConstantStruct>(ca->getOperand(i));
            if (auto* F = dyn_cast<Function>(c->getOperand(1))) cs.push_back({ cast<ConstantInt>(c->getOperand(0))->getZExtValue(), F });
         }
         std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
         for (auto& c : cs) {
            pushCall(base, getFn(c.second), {}, nullptr);
            base.fr.back().isTop = true;
            try { while (true) step(base); } catch (PathEnd& e) { if (e.kind) { fprintf(stderr, "abisym: static initialiser failed\n"); for (auto& p : st.inconcl) fprintf(stderr, "  %s\n", p.first.c_str()); return 70; } }
            base.fr.clear();
         }
      }
   base.steps = 0;
   base.known.clear();
   st = Stats();
   for (Fn* fn : fnList) { fn->executed = false; fn->icount = 0; }
   std::map<pid_t, std::string> running;
   size_t nexte = 0;
   int    rc = 0;
   sh->active = 0;
   // one process per entry, all sharing the process budget
   std::vector<Shared*> shs;
   while (nexte < entries.size() || !running.empty()) {
      while (nexte < entries.size() && sh->active.load() < g_maxprocs) {
         std::string en = entries[nexte++];
         Function*   F  = M->getFunction(en);
         if (!F || F->isDeclaration()) fatal("no entry %s", en.c_str());
         sh->active.fetch_add(1);
         fflush(stdout);
         pid_t p = fork();
         if (p == 0) {
            es = (EntryShared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            g_entry = en;
            State* s = new State(base);
            pushCall(*s, getFn(F), {}, nullptr);
            s->fr.back().isTop = true;
            work.push_back(s);
            runAll();
         }
         running[p] = en;
      }
      int   w;
      pid_t p = waitpid(-1, &w, WNOHANG);
      if (p > 0) {
         if (!WIFEXITED(w) || WEXITSTATUS(w)) {
            rc = 1;
            emitLine("{\"type\":\"crash\",\"entry\":" + jstr(running[p]) + ",\"status\":" + std::to_string(w) + "}");
            if (!WIFEXITED(w) || WEXITSTATUS(w) != 1) sh->active.fetch_sub(1);
         }
         running.erase(p);
      } else
         usleep(2000);
   }
   emitLine("{\"type\":\"done\",\"wall\":" + std::to_string(nowS() - t0) + "}");
   return rc;
}
