// libc functions for symbolic execution (compiled to bitcode with -fno-builtin).
#include <string.h>
#include <strings.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdbool.h>
#include <errno.h>
#include <ctype.h>
#include <time.h>
#include <sys/time.h>
#include <assert.h>
void __fs_violation(const char *id, const char *msg);
void fs_out_write(int fd, const char *p, size_t n);
void fs_stop(void) __attribute__((noreturn));
// ---------------------------------------------------------------- libc
char __libc_single_threaded = 1;
char *fs_getenv_(const char *);
char *getenv(const char *n) { return fs_getenv_(n); }
static int fs_errno_v;
int *__errno_location() { return &fs_errno_v; }
int isspace(int c) { return (c==' ') | ((unsigned)(c-9) < 5u); }
int isdigit(int c) { return (unsigned)(c-'0') < 10u; }
int isupper(int c) { return (unsigned)(c-'A') < 26u; }
int islower(int c) { return (unsigned)(c-'a') < 26u; }
int isalpha(int c) { return (unsigned)((c|32)-'a') < 26u; }
int isalnum(int c) { return (((unsigned)((c|32)-'a')) < 26u) | ((unsigned)(c-'0') < 10u); }
int ispunct(int c) { return ((unsigned)(c-33) < 94u) & !isalnum(c); }
int isprint(int c) { return (unsigned)(c-32) < 95u; }
int iscntrl(int c) { return ((unsigned)c < 32u) | (c==127); }
int isxdigit(int c) { return ((unsigned)(c-'0') < 10u) | ((unsigned)((c|32)-'a') < 6u); }
int isblank(int c) { return (c==' ') | (c=='\t'); }
int toupper(int c) { return (unsigned)(c-'a') < 26u ? c-32 : c; }
int tolower(int c) { return (unsigned)(c-'A') < 26u ? c+32 : c; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r=0; for (;; s++) { if (*s == (char)c) r=(char*)s; if (!*s) return r; } }
char *strstr(const char *h, const char *n) { size_t l=strlen(n); for (;; h++) { if (strncmp(h,n,l)==0) return (char*)h; if (!*h) return 0; } }
char *strcpy(char *d, const char *s) { memcpy(d,s,strlen(s)+1); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i=0; for (; i<n && s[i]; i++) d[i]=s[i]; for (; i<n; i++) d[i]=0; return d; }
char *strcat(char *d, const char *s) { strcpy(d+strlen(d), s); return d; }
char *strdup(const char *s) { size_t n=strlen(s)+1; char *p=(char*)malloc(n); memcpy(p,s,n); return p; }
int strcmp(const char *a, const char *b) { for (;; a++, b++) { unsigned char x=*a, y=*b; if (x!=y) return x<y?-1:1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (size_t i=0;i<n;i++) { unsigned char x=a[i], y=b[i]; if (x!=y) return x<y?-1:1; if (!x) return 0; } return 0; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x=tolower((unsigned char)*a), y=tolower((unsigned char)*b); if (x!=y) return x<y?-1:1; if (!x) return 0; } }
#define BR(c) fs_concretize((c)?1:0)
unsigned long fs_concretize(unsigned long);
long strtol(const char *s, char **end, int base) {
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  bool neg=false; if (BR(*p=='-')) { neg=true; p++; } else if (BR(*p=='+')) p++;
  if ((base==0||base==16) && p[0]=='0' && (p[1]|32)=='x' && isxdigit((unsigned char)p[2])) { p+=2; base=16; }
  else if (base==0) base = *p=='0' ? 8 : 10;
  const char *st = p; unsigned long v=0; bool ov=false; const unsigned long lim = neg ? 9223372036854775808ul : 9223372036854775807ul;
  int nd=0;
  for (;; p++) { int c=(unsigned char)*p, d; if ((unsigned)(c-'0')<10u) d=c-'0'; else if ((unsigned)((c|32)-'a')<26u) d=(c|32)-'a'+10; else break; if (d>=base) break;
    nd++;
    if (nd <= 15) v = v*base + d;   // cannot overflow: 16^15
    else if (!ov) { if (v > (lim-d)/base) ov=true; else v = v*base + d; } }
  if (end) *end = (char*)(p==st ? s : p);
  if (ov) { errno = ERANGE; return neg ? (long)(-9223372036854775807l-1) : 9223372036854775807l; }
  return neg ? (long)(0ul - v) : (long)v; }
long long strtoll(const char *s, char **e, int b) { return strtol(s,e,b); }
unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s,e,b); }
unsigned long long strtoull(const char *s, char **e, int b) { return (unsigned long)strtol(s,e,b); }
int atoi(const char *s) { return (int)strtol(s,0,10); }
long atol(const char *s) { return strtol(s,0,10); }
double __fs_strtod_dec(const char *digits, int nd, int exp10);  // engine: exact decimal -> double, concrete digits
double strtod(const char *s, char **end) {
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  bool neg=false; if (BR(*p=='-')) { neg=true; p++; } else if (BR(*p=='+')) p++;
  if ((p[0]|32)=='i' && (p[1]|32)=='n' && (p[2]|32)=='f') { p+=3; if (strncasecmp(p,"inity",5)==0) p+=5; if (end) *end=(char*)p; return neg ? -__builtin_inf() : __builtin_inf(); }
  if ((p[0]|32)=='n' && (p[1]|32)=='a' && (p[2]|32)=='n') { p+=3; if (end) *end=(char*)p; return __builtin_nan(""); }
  char buf[64]; int nd=0, scale=0; bool any=false, dot=false;
  if (p[0]=='0' && (p[1]|32)=='x' && isxdigit((unsigned char)p[2])) { // hexadecimal integers only (fractions are outside the model)
    double v=0; p+=2; for (; isxdigit((unsigned char)*p); p++) { int c=(unsigned char)*p; v=v*16+(c<='9'?c-'0':(c|32)-'a'+10); } if (*p=='.'||(*p|32)=='p') fs_stop(); if (end) *end=(char*)p; return neg?-v:v; }
  for (;; p++) { int c=(unsigned char)*p;
    if ((unsigned)(c-'0')<10u) { any=true; if (nd<60) buf[nd++]=(char)c; else scale++; if (dot) scale--; }
    else if (c=='.' && !dot) dot=true; else break; }
  if (!any) { if (end) *end=(char*)s; return 0; }
  if ((*p|32)=='e') { const char *q=p+1; bool en=false; if (BR(*q=='-')) { en=true; q++; } else if (BR(*q=='+')) q++; if (isdigit((unsigned char)*q)) { int e=0; for (; isdigit((unsigned char)*q); q++) if (e<100000) e=e*10+(*q-'0'); scale += en ? -e : e; p=q; } }
  if (end) *end=(char*)p;
  double r = __fs_strtod_dec(buf, nd, scale);
  if (scale+nd > 300 && __builtin_isinf(r)) errno = ERANGE;   // nd digits: 10^(scale-1) < r < 10^(scale+nd) unless zero
  else if (scale < -290 && __builtin_fabs(r) < 2.2250738585072014e-308) { bool nz=false; for (int i=0;i<nd;i++) if (buf[i]!='0') nz=true; if (nz) errno = ERANGE; }
  return neg ? -r : r; }
float strtof(const char *s, char **e) { return (float)strtod(s,e); }
double atof(const char *s) { return strtod(s,0); }
int strncasecmp(const char *a, const char *b, size_t n) { for (size_t i=0;i<n;i++) { int x=tolower((unsigned char)a[i]), y=tolower((unsigned char)b[i]); if (x!=y) return x<y?-1:1; if (!x) return 0; } return 0; }
int abs(int x) { return x<0 ? (int)(0u-(unsigned)x) : x; }
int puts(const char *s) { fs_out_write(1,s,strlen(s)); fs_out_write(1,"\n",1); return 0; }
int putchar(int c) { char ch=(char)c; fs_out_write(1,&ch,1); return c; }
int fflush(FILE *f) { return 0; }
// time stub
static long fs_now = 1700000000L;
time_t time(time_t *t) { if (t) *t = fs_now; return fs_now; }
struct fs_tm { struct tm t; };
struct tm *localtime(const time_t *tt) { static struct tm t; memset(&t,0,sizeof t); t.tm_year=123; t.tm_mon=10; t.tm_mday=14; t.tm_hour=22; t.tm_min=13; t.tm_sec=20; return &t; }
struct fs_tv { long s, us; };
int gettimeofday(struct timeval *tv, void *tz) { struct fs_tv *p=(struct fs_tv*)tv; p->s = fs_now; p->us = 0; return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { return 0; }
int usleep(unsigned u) { return 0; }
unsigned sleep(unsigned u) { return 0; }
int sysinfo(void *p) { return -1; }
void *dlopen(const char *n, int f) { return 0; }
void *dlsym(void *h, const char *n) { return 0; }
char *dlerror() { return 0; }
int dlclose(void *h) { return 0; }
void exit(int c) { __fs_violation("CRASH:exit", "exit() called"); __builtin_unreachable(); }
void abort() { __fs_violation("CRASH:abort", "abort() called"); __builtin_unreachable(); }
void __assert_fail(const char *a, const char *f, unsigned l, const char *fn) { __fs_violation("CRASH:assert", a); __builtin_unreachable(); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s,e,b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s,e,b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s,e,b); }
