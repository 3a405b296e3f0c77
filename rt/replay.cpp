// Native counterpart of the harness API: feeds recorded inputs to the same harness linked with the real code,
// prints observations and reports assertion failures.
#include "vs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <new>
#include <string>
#include <typeinfo>
#include <unistd.h>
#include <vector>

static std::map<std::string, std::vector<std::string>> g_in;   // name -> values (bytes)
static std::map<std::string, size_t>                   g_pos, g_boff;
static size_t                                          g_cap, g_total;
static bool                                            g_inside;

static void die(int rc) { fflush(stdout); fflush(stderr); _exit(rc); }

void* operator new(size_t n) {
   if (g_inside) {
      g_total += n;
      if (g_cap && n > g_cap) { g_inside = false; printf("ALLOC-CAP %zu\n", n); die(43); }
   }
   if (n > ((size_t)1 << 40)) throw std::bad_alloc();
   void* p = malloc(n ? n : 1);
   if (!p) throw std::bad_alloc();
   return p;
}
void* operator new[](size_t n) { return operator new(n); }
void  operator delete(void* p) noexcept { free(p); }
void  operator delete[](void* p) noexcept { free(p); }
void  operator delete(void* p, size_t) noexcept { free(p); }
void  operator delete[](void* p, size_t) noexcept { free(p); }

static std::string next(const char* name) {
   bool in = g_inside;
   g_inside = false;
   auto& v = g_in[name];
   auto& p = g_pos[name];
   std::string r = p < v.size() ? v[p] : std::string();
   ++p;
   g_inside = in;
   return r;
}
extern "C" {
void vs_bytes(void* p, size_t n, const char* name) {
   std::string s = next(name);
   memset(p, 0, n);
   memcpy(p, s.data(), s.size() < n ? s.size() : n);
}
#define SC(T, N) T N(const char* name) { T v = 0; vs_bytes(&v, sizeof v, name); return v; }
SC(uint8_t, vs_u8) SC(uint16_t, vs_u16) SC(uint32_t, vs_u32) SC(uint64_t, vs_u64)
uint64_t vs_range(uint64_t lo, uint64_t hi, const char* name) { uint64_t v = vs_u64(name); return v < lo ? lo : v > hi ? hi : v; }
uint64_t vs_choice(uint64_t n, const char* name) { uint32_t v = vs_u32(name); return v < n ? v : 0; }
void     vs_assume(bool c) { if (!c) { printf("ASSUME-FALSE\n"); die(77); } }
void     vs_assert(bool c, const char* msg) { if (!c) { printf("ASSERT-FAILED %s\n", msg); die(42); } }
void     vs_reach(const char* label) { printf("REACH %s\n", label); }
void     vs_observe(const void* p, size_t n, const char* name) {
   printf("OBS %s ", name);
   for (size_t i = 0; i < n; ++i) printf("%02x", ((const unsigned char*)p)[i]);
   printf("\n");
}
void     vs_observe_u64(uint64_t v, const char* name) { vs_observe(&v, 8, name); }
void     vs_alloc_cap(size_t n) { g_cap = n; }
size_t   vs_alloc_total() { size_t r = g_total; g_total = 0; return r; }
bool     vs_eq(const void* p, const void* q, size_t n) { return !n || !memcmp(p, q, n); }
uint64_t vs_fork(uint64_t v) { return v; }
void     vs_finding(bool c, const char* id) { if (c) { printf("FINDING %s\n", id); } }
bool     vs_symbolic() { return false; }
size_t   vs_live_bytes() { return 0; }
void     vs_end() { printf("END\n"); die(0); }
void     vs_debug(const char*, uint64_t) {}
}
static std::string unhex(const char* p) {
   std::string r;
   for (; p[0] && p[1] && p[0] != '\n'; p += 2) { unsigned v; sscanf(p, "%2x", &v); r.push_back((char)v); }
   return r;
}
int main(int argc, char** argv) {
   if (argc < 2) { fprintf(stderr, "usage: replay FILE\n"); return 64; }
   FILE* f = fopen(argv[1], "r");
   if (!f) { perror(argv[1]); return 64; }
   static char line[1 << 20], nm[4096];
   std::string entry;
   while (fgets(line, sizeof line, f)) {
      if (sscanf(line, "entry %4095s", nm) == 1) entry = nm;
      else if (sscanf(line, "in %4095s", nm) == 1) {
         const char* p = line + 3 + strlen(nm);
         while (*p == ' ') ++p;
         g_in[nm].push_back(unhex(p));
      }
   }
   fclose(f);
   auto fn = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
   if (!fn) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 64; }
   setvbuf(stdout, nullptr, _IOLBF, 0);
   std::set_terminate([] {
      g_inside = false;
      printf("TERMINATE\n");
      die(44);
   });
   g_inside = true;
   fn();
   g_inside = false;
   printf("END\n");
   die(0);
}
