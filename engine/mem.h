#pragma once
#include "expr.h"
#include <cstring>
#include <memory>

struct Val {
   X    e = nullptr;   // symbolic value, or null when concrete
   u128 c = 0;
   Val() {}
   Val(u128 c) : c(c) {}
   static Val of(X x) { Val v; if (x->is_const()) v.c = x->c; else v.e = x; return v; }
   X x(u32 w) const { return e ? e : mkConst(c, w); }
};

static const int OBJ_SHIFT = 26;
static const u64 OBJ_BASEOFF = 4096;
static const u64 OBJ_MAX = ((u64)1 << OBJ_SHIFT) - 2 * OBJ_BASEOFF;

enum ObjKind : uint8_t { K_GLOBAL, K_CONST, K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_EXC, K_FUNC };

struct SymB { X e; u32 idx; };
struct Obj {
   int                  rc = 0;
   u32                  id;
   u64                  size;
   ObjKind              kind;
   bool                 hasSym = false;
   const char*          name = "";
   std::vector<uint8_t> data;    // concrete bytes
   std::vector<uint8_t> st;      // 0 uninit 1 concrete 2 symbolic
   std::vector<SymB>    sym;     // empty unless hasSym
   u64 base() const { return ((u64)id << OBJ_SHIFT) + OBJ_BASEOFF; }
};

struct Node { int rc = 0; void* c[64]; Node() { memset(c, 0, sizeof c); } };

// persistent id -> Obj map (4 levels of 64)
struct Mem {
   Node* root = nullptr;
   Mem() {}
   Mem(const Mem& o) : root(o.root) { if (root) ++root->rc; }
   Mem& operator=(const Mem&) = delete;
   ~Mem() { drop(root, 0); }
   static void dropObj(Obj* o) { if (o && --o->rc == 0) delete o; }
   static void drop(Node* n, int lv) {
      if (!n || --n->rc > 0) return;
      for (int i = 0; i < 64; ++i)
         if (n->c[i]) { if (lv == 3) dropObj((Obj*)n->c[i]); else drop((Node*)n->c[i], lv + 1); }
      delete n;
   }
   static int ix(u32 id, int lv) { return (id >> (6 * (3 - lv))) & 63; }
   Obj* get(u32 id) const {
      Node* n = root;
      if (id >> 24) return nullptr;
      for (int lv = 0; n && lv < 3; ++lv) n = (Node*)n->c[ix(id, lv)];
      return n ? (Obj*)n->c[ix(id, 3)] : nullptr;
   }
   Node* leaf(u32 id) {   // unique path to leaf node
      if (id >> 24) fatal("too many objects");
      Node** p = &root;
      for (int lv = 0;; ++lv) {
         if (!*p) { *p = new Node; (*p)->rc = 1; }
         else if ((*p)->rc > 1) {
            Node* n = new Node(**p);
            n->rc   = 1;
            for (int i = 0; i < 64; ++i)
               if (n->c[i]) { if (lv == 3) ++((Obj*)n->c[i])->rc; else ++((Node*)n->c[i])->rc; }
            --(*p)->rc;
            *p = n;
         }
         if (lv == 3) return *p;
         p = (Node**)&(*p)->c[ix(id, lv)];
      }
   }
   void set(u32 id, Obj* o) {
      Node* n = leaf(id);
      void*& s = n->c[ix(id, 3)];
      if (o) ++o->rc;
      dropObj((Obj*)s);
      s = o;
   }
   Obj* writable(u32 id) {
      Node* n = leaf(id);
      Obj*  o = (Obj*)n->c[ix(id, 3)];
      if (o && o->rc > 1) {
         Obj* q = new Obj(*o);
         q->rc  = 1;
         --o->rc;
         n->c[ix(id, 3)] = q;
         return q;
      }
      return o;
   }
};
