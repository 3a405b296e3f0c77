// C string functions that only exist in libc.so, as IR for the symbolic executor.
#include <stddef.h>
#include <stdbool.h>
extern int __vs_errno;
int strcmp(const char* a, const char* b) {
   for (; *a && *a == *b; ++a, ++b) {}
   return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strncmp(const char* a, const char* b, size_t n) {
   for (; n; ++a, ++b, --n) {
      if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b;
      if (!*a) return 0;
   }
   return 0;
}
void* memchr(const void* p, int c, size_t n) {
   const unsigned char* s = (const unsigned char*)p;
   for (; n; ++s, --n)
      if (*s == (unsigned char)c) return (void*)s;
   return 0;
}
char* strchr(const char* s, int c) {
   for (;; ++s) {
      if (*s == (char)c) return (char*)s;
      if (!*s) return 0;
   }
}
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) ++i; return i; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }

static unsigned long long vs_strtoull_(const char* s, char** e, int base, bool* negp, bool* ovf) {
   const char* p = s;
   while (isspace((unsigned char)*p)) ++p;
   bool neg = false;
   if (*p == '+' || *p == '-') neg = *p++ == '-';
   if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
   else if (base == 0) base = *p == '0' ? 8 : 10;
   unsigned long long v = 0;
   bool any = false;
   *ovf = false;
   for (;; ++p) {
      int c = (unsigned char)*p, d;
      if (isdigit(c)) d = c - '0';
      else if (isalpha(c)) d = tolower(c) - 'a' + 10;
      else break;
      if (d >= base) break;
      any = true;
      unsigned __int128 t = (unsigned __int128)v * base + d;
      if (t >> 64) *ovf = true;
      v = (unsigned long long)t;
   }
   if (e) *e = (char*)(any ? p : s);
   *negp = neg;
   return v;
}
unsigned long long strtoull(const char* s, char** e, int base) {
   bool n, o;
   unsigned long long v = vs_strtoull_(s, e, base, &n, &o);
   if (o) { __vs_errno = 34; return ~0ull; }
   return n ? -v : v;
}
unsigned long strtoul(const char* s, char** e, int base) { return strtoull(s, e, base); }
long long strtoll(const char* s, char** e, int base) {
   bool n, o;
   unsigned long long v = vs_strtoull_(s, e, base, &n, &o);
   if (n ? (o || v > 0x8000000000000000ull) : (o || v > 0x7fffffffffffffffull)) { __vs_errno = 34; return n ? (long long)0x8000000000000000ull : 0x7fffffffffffffffll; }
   return n ? (long long)(0 - v) : (long long)v;
}
long strtol(const char* s, char** e, int base) { return strtoll(s, e, base); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtoll(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoull(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoull(s, e, b); }

#include <stdarg.h>
void vs_unmodelled_format(void);   // declared only: reaching it is reported as a call to an unmodelled function
int vsnprintf(char* d, size_t n, const char* f, va_list ap) {
   size_t len = 0;
#define VS_PUT(ch) do { if (len + 1 < n) d[len] = (ch); ++len; } while (0)
   for (; *f; ++f) {
      if (*f != '%') { VS_PUT(*f); continue; }
      ++f;
      if (*f == '%') { VS_PUT('%'); continue; }
      bool zero = false, left = false, plus = false;
      for (;; ++f) {
         if (*f == '0') zero = true;
         else if (*f == '-') left = true;
         else if (*f == '+') plus = true;
         else break;
      }
      long width = 0, prec = -1;
      if (*f == '*') { width = va_arg(ap, int); ++f; if (width < 0) { left = true; width = -width; } }
      else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
      if (*f == '.') {
         ++f; prec = 0;
         if (*f == '*') { prec = va_arg(ap, int); ++f; }
         else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0');
      }
      int lng = 0;
      for (;; ++f) {
         if (*f == 'l' || *f == 'j' || *f == 'z' || *f == 't') lng = 3;
         else if (*f == 'h') --lng;
         else break;
      }
      char tmp[72], sign = 0;
      const char* src = tmp;
      long cnt = 0;
      if (*f == 'c') { tmp[0] = (char)va_arg(ap, int); cnt = 1; zero = false; }
      else if (*f == 's') {
         src = va_arg(ap, const char*);
         while ((prec < 0 || cnt < prec) && src[cnt]) ++cnt;
         zero = false;
      } else if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'o') {
         unsigned long long v;
         bool sg = *f == 'd' || *f == 'i';
         if (lng > 0) v = va_arg(ap, unsigned long long);
         else if (sg) v = (long long)va_arg(ap, int);
         else v = va_arg(ap, unsigned);
         if (lng == -1) v = sg ? (unsigned long long)(short)v : (unsigned short)v;
         else if (lng < -1) v = sg ? (unsigned long long)(signed char)v : (unsigned char)v;
         if (sg && (long long)v < 0) { sign = '-'; v = 0 - v; } else if (sg && plus) sign = '+';
         unsigned base = *f == 'o' ? 8 : *f == 'x' || *f == 'X' ? 16 : 10;
         const char* dig = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
         // %0Wx with a value below base^W has exactly W digits: no branch on the number of digits
         bool fixed = zero && !left && !sign && prec < 0 && base == 16 && width > 0 && width < 16 && v < (1ull << (4 * width));
         if (fixed) { for (long i = width - 1; i >= 0; --i) { tmp[i] = dig[v & 15]; v >>= 4; } cnt = width; }
         else {
            char rev[72];
            while (v) { rev[cnt++] = dig[v % base]; v /= base; }
            while (cnt < (prec < 0 ? 1 : prec)) rev[cnt++] = '0';
            for (long i = 0; i < cnt; ++i) tmp[i] = rev[cnt - 1 - i];
            if (prec >= 0) zero = false;
         }
      } else { vs_unmodelled_format(); return -1; }
      long pad = width - cnt - (sign != 0);
      if (!left && !zero) for (; pad > 0; --pad) VS_PUT(' ');
      if (sign) VS_PUT(sign);
      if (!left) for (; pad > 0; --pad) VS_PUT('0');
      for (long i = 0; i < cnt; ++i) VS_PUT(src[i]);
      if (left) for (; pad > 0; --pad) VS_PUT(' ');
   }
   if (n) d[len < n ? len : n - 1] = 0;
   return (int)len;
}
int snprintf(char* d, size_t n, const char* f, ...) {
   va_list ap;
   va_start(ap, f);
   int r = vsnprintf(d, n, f, ap);
   va_end(ap);
   return r;
}
int sprintf(char* d, const char* f, ...) {
   va_list ap;
   va_start(ap, f);
   int r = vsnprintf(d, (size_t)1 << 40, f, ap);
   va_end(ap);
   return r;
}
