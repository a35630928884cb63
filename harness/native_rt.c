/* Native replay runtime: values come from the counterexample file given in SYM_CEX. */
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <malloc.h>
#include <sanitizer/asan_interface.h>
static FILE *f; static int eof_warned;
static long long next(const char *name) {
  unsigned long long v = 0; int w = 0; char nm[128];
  if (!f) { const char *p = getenv("SYM_CEX"); f = fopen(p ? p : "/dev/null", "r"); if (!f) { perror("cex"); exit(99); } }
  if (fscanf(f, "%127s %d %llu", nm, &w, &v) != 3) { if (!eof_warned++) fprintf(stderr, "cex exhausted at %s\n", name); return 0; }
  if (strcmp(nm, name) != 0) { fprintf(stderr, "cex name mismatch: want %s have %s\n", name, nm); }
  return (long long)v | ((long long)w << 56);
}
static long long val(const char *name, int sgn) {
  long long x = next(name); int w = (int)(x >> 56) & 127; unsigned long long v = x & 0x00ffffffffffffffull;
  if (sgn && w > 0 && w < 56 && (v >> (w - 1) & 1)) v |= ~0ull << w;
  return (long long)v;
}
int sym_int(const char *n, int lo, int hi) { return (int)val(n, lo < 0); }
void sym_bytes(void *p, size_t n, const char *name) { char b[128]; for (size_t i = 0; i < n; i++) { snprintf(b, 128, "%s[%zu]", name, i); ((u8 *)p)[i] = (u8)val(b, 0); } }
void sym_bytes_range(void *p, size_t n, const char *name, int lo, int hi) { sym_bytes(p, n, name); }
void sym_shorts(void *p, size_t n, const char *name, int lo, int hi) { char b[128]; for (size_t i = 0; i < n; i++) { snprintf(b, 128, "%s[%zu]", name, i); s16 v = (s16)val(b, lo < 0); memcpy((char *)p + 2 * i, &v, 2); } }
void sym_assume(int c) { if (!c) { fprintf(stderr, "ASSUME-FALSE\n"); exit(98); } }
void sym_assert(int c, const char *msg) { if (!c) { fprintf(stderr, "ASSERT-FAIL %s\n", msg); exit(77); } }
void sym_known(int c, const char *id, const char *msg) { if (!c) { fprintf(stderr, "KNOWN-FAIL %s %s\n", id, msg); if (getenv("SYM_KNOWN")) exit(78); } }
int sym_concrete(int x) { return x; }
int sym_param(const char *name, int d) { char b[128]; snprintf(b, 128, "SYMP_%s", name); const char *p = getenv(b); return p ? (int)strtol(p, 0, 0) : d; }
/* page-granular blocks, so that sym_readonly can use mprotect; the slack is poisoned */
static struct { char *p; size_t n, tot; } blk[256]; static int nblk;
void *sym_alloc(size_t n, const char *name) {
  size_t tot = (n + 4095 + (n == 0)) & ~(size_t)4095; char *p = NULL;
  if (posix_memalign((void **)&p, 4096, tot)) exit(99);
  memset(p, 0xA5, tot); if (tot > n) ASAN_POISON_MEMORY_REGION(p + n, tot - n);
  if (nblk < 256) { blk[nblk].p = p; blk[nblk].n = n; blk[nblk++].tot = tot; }
  return p; }
void sym_readonly(const void *p, int on) { for (int i = 0; i < nblk; i++) if (blk[i].p == (char *)p) mprotect(blk[i].p, blk[i].tot, on ? PROT_READ : PROT_READ | PROT_WRITE); }
void sym_limit(void *p, size_t total, size_t cap) { ASAN_UNPOISON_MEMORY_REGION(p, cap); if (cap < total) ASAN_POISON_MEMORY_REGION((char *)p + cap, total - cap); }
long sym_high_water(const void *p) { return 0; }
void sym_reset_high_water(const void *p) {}
/* heap accounting */
extern void *__real_malloc(size_t); extern void *__real_calloc(size_t, size_t); extern void __real_free(void *);
static int live, mayfail;
/* the contents of a new block are arbitrary: SYM_FILL chooses them, different in every block */
static struct { void *p; size_t n; } old[256]; static int nold;   /* HEAPFILL 2: contents of freed blocks */
static unsigned nalloc; static void *fill(void *p, size_t n) { const char *e = getenv("SYM_FILL"); for (int i = nold - 1; p && i >= 0; i--) if (old[i].n == n) { memcpy(p, old[i].p, n); old[i].n = (size_t)-1; return p; } if (p) memset(p, (int)(e ? strtol(e, 0, 0) : 0xA5) + 37 * (int)nalloc++, n); return p; }
extern void *__real_aligned_alloc(size_t, size_t);
void *__wrap_malloc(size_t n) { if (mayfail && val("alloc_fails", 0)) return 0; live++; return fill(__real_malloc(n), n); }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (mayfail && val("alloc_fails", 0)) return 0; live++; return fill(__real_aligned_alloc(a, n), n); }
void *__wrap_calloc(size_t a, size_t b) { if (mayfail && val("alloc_fails", 0)) return 0; live++; return __real_calloc(a, b); }
void __wrap_free(void *p) { if (p) live--;
  if (p && sym_param("HEAPFILL", 0) == 2 && nold < 256) { old[nold].n = malloc_usable_size(p); old[nold].p = __real_malloc(old[nold].n); memcpy(old[nold].p, p, old[nold].n); nold++; }
  __real_free(p); }
/* the library's objects have their writable sections renamed so that they can be found */
extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak)), __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak));
static char *gcopy[2];
static __attribute__((no_sanitize("address"))) void rawcopy(char *d, const volatile char *p, const char *e) { while ((const char *)p < e) *d++ = *p++; }
static __attribute__((no_sanitize("address"))) int rawdiff(const char *d, const volatile char *p, const char *e) { int n = 0; while ((const char *)p < e) n += *d++ != *p++; return n; }
int sym_globals_mark(void) { size_t a = __stop_libdata - __start_libdata, b = __stop_libbss - __start_libbss; gcopy[0] = __real_malloc(a + 1); gcopy[1] = __real_malloc(b + 1); rawcopy(gcopy[0], __start_libdata, __stop_libdata); rawcopy(gcopy[1], __start_libbss, __stop_libbss); return 0; }
int sym_globals_changed(void) { return rawdiff(gcopy[0], __start_libdata, __stop_libdata) + rawdiff(gcopy[1], __start_libbss, __stop_libbss); }
int sym_live(void) { return live; }
void sym_alloc_may_fail(int on) { mayfail = on; }
void sym_equal(const void *a, const void *b, size_t n, size_t e, const char *msg) { for (size_t i = 0; i < n; i++) if (memcmp((const char *)a + i * e, (const char *)b + i * e, e)) { fprintf(stderr, "ASSERT-FAIL %s (element %zu)\n", msg, i); exit(77); } }
void sym_cover(const char *msg) {}
void sym_havoc(void *p, size_t n) { memset(p, 0x5A, n); }
int sym_native(void) { return 1; }
void sym_trace(const char *n, int v) { fprintf(stderr, "TRACE %s %d\n", n, v); }
void sym_done(void) { exit(0); }
void harness(void);
int main(void) { harness(); fprintf(stderr, "REPLAY-PASSED\n"); return 0; }
