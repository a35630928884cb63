/* Harness interface.  Under the symbolic engine these are intrinsics; under the
 * native replay they are implemented by native_rt.c from a counterexample file. */
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef short s16;
int  sym_int(const char *name, int lo, int hi);              /* arbitrary int in [lo,hi] */
void sym_bytes(void *p, size_t n, const char *name);         /* n arbitrary bytes */
void sym_bytes_range(void *p, size_t n, const char *name, int lo, int hi);
void sym_shorts(void *p, size_t n, const char *name, int lo, int hi);
void sym_assume(int c);
void sym_assert(int c, const char *msg);
void sym_known(int c, const char *finding, const char *msg); /* assertion whose failure is a recorded finding */
int  sym_concrete(int x);                                    /* fork on the value */
int  sym_param(const char *name, int dflt);
void *sym_alloc(size_t n, const char *name);                 /* uninitialised, exact size */
void sym_readonly(const void *p, int on);
void sym_limit(void *p, size_t total, size_t cap);           /* native: bytes from cap on must not be touched */
long sym_high_water(const void *p);                          /* engine: 1 + highest offset written */
void sym_reset_high_water(const void *p);
int  sym_live(void);                                         /* live heap blocks */
void sym_equal(const void *impl, const void *spec, size_t n, size_t esz, const char *msg);
void sym_cover(const char *msg);
void sym_alloc_may_fail(int on);
void sym_havoc(void *p, size_t n);                           /* arbitrary contents, not an input */
int  sym_globals_mark(void);                                 /* remember the library's mutable globals */
int  sym_globals_changed(void);                              /* bytes of them that differ from that */
int  sym_native(void);                                       /* 1 in the native replay (harness provides 0 in engine) */
void sym_trace(const char *n, int v);
void sym_done(void);
#endif
