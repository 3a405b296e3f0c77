// Hash-consed bit-vector expressions with aggressive normalisation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <map>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128          s128;
typedef uint64_t          u64;
typedef uint16_t u16;
typedef uint32_t          u32;

[[noreturn]] void fatal(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

enum EOp : uint8_t {
   E_CONST, E_VAR, E_AND, E_OR, E_XOR, E_ADD, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
   E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_SLT, E_ITE, E_CONCAT, E_EXTRACT, E_SEXT, E_SELECT
};
extern const char* eop_name[];

struct Table {               // constant table, element width <= 128
   u32               id;
   u32               w;      // element width
   std::vector<u128> v;
   u128              vmax;
};

typedef std::vector<u32> VarVec;   // sorted, interned

struct Expr {
   EOp      op;
   uint8_t  lz;             // known leading zero bits (lower bound)
   uint16_t w;
   u32      id;
   union {
      struct { const Expr* k[3]; };
      u128 c;               // CONST
   };
   u64           aux = 0;   // VAR: var index, EXTRACT: low bit offset, SELECT: Table*
   const VarVec* vars = nullptr;
   u128          mn, mx;    // bounds of the unsigned value
   s128          sl, sh;    // bounds of the signed value
   bool is_const() const { return op == E_CONST; }
};
typedef const Expr* X;

struct VarInfo { std::string name; u32 w; X e; };
extern std::vector<VarInfo> g_vars;
extern u64 g_nexprs;

inline u128 maskw(u32 w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sx(u128 v, u32 w) { return w >= 128 ? (s128)v : (s128)(v << (128 - w)) >> (128 - w); }

X mkConst(u128 v, u32 w);
X mkVar(const std::string& name, u32 w, u128 mx = ~(u128)0);
X mkAnd(X a, X b);
X mkOr(X a, X b);
X mkXor(X a, X b);
X mkNot(X a);
X mkAdd(X a, X b);
X mkSub(X a, X b);
X mkMul(X a, X b);
X mkUDiv(X a, X b);
X mkSDiv(X a, X b);
X mkURem(X a, X b);
X mkSRem(X a, X b);
X mkShl(X a, X b);
X mkLShr(X a, X b);
X mkAShr(X a, X b);
X mkEq(X a, X b);
inline X mkNe(X a, X b) { return mkNot(mkEq(a, b)); }
X mkUlt(X a, X b);
X mkBound(X var);   // the constraint var <= var->mx, not simplified away
inline X mkUle(X a, X b) { return mkNot(mkUlt(b, a)); }
X mkSlt(X a, X b);
inline X mkSle(X a, X b) { return mkNot(mkSlt(b, a)); }
X mkIte(X c, X a, X b);
X mkConcat(X hi, X lo);
X mkExtract(X a, u32 off, u32 w);
X mkZExt(X a, u32 w);
X mkSExt(X a, u32 w);
X mkSelect(const Table* t, X idx);
const Table* mkTable(const std::vector<u128>& v, u32 w);

const VarVec* varsOf(X e);

struct Model {
   std::vector<u128> v;   // by var index; missing = 0
   u64               id;
   static u64        next;
   Model() : id(++next) {}
   Model(const Model& o) : v(o.v), id(++next) {}
   u128 get(u32 i) const { return i < v.size() ? v[i] : 0; }
   void set(u32 i, u128 x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; id = ++next; }
};
u128 evalExpr(X e, const Model& m);
std::string exprStr(X e, int depth = 6);
bool liaQuery(FILE* f, const std::vector<X>& conj, std::vector<u32>* varsOut, int* ndiv);   // true: exact
void smtlibQuery(FILE* f, const std::vector<X>& conj, bool getModel, std::vector<u32>* varsOut);
