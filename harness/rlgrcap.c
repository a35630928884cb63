/* Entropy coders and the space they are given: capacity symbolic, coefficients from fill()
 * patterns with a symbolic window. KIND selects the surroundings. */
#include "sym.h"
#include "rfxcodec_encode.h"
#include <string.h>
static short coef[4096], work[4096]; static u8 full[65536];
static int run(int mode, int impl, int diff, unsigned char *buf, int cap) {
  struct rfxcodec_encode_internals in; int r;
  rfxcodec_encode_get_internals(&in);
  memcpy(work, coef, sizeof coef);
  if (impl == 0) return mode == 1 ? in.rfxencode_rlgr1(work, buf, cap) : in.rfxencode_rlgr3(work, buf, cap);
  r = mode == 1 ? in.rfxencode_diff_rlgr1(work, buf, cap, diff) : in.rfxencode_diff_rlgr3(work, buf, cap, diff);
  return r;
}
void harness(void) {
  int i, mode = sym_param("MODE", 1), impl = sym_param("IMPL", 0), maxcap = sym_param("MAXCAP", 64), kind = sym_param("KIND", 0), w = sym_param("W", 0), pos = sym_param("POS", 0), n, m, cap;
  u8 *buf = sym_alloc((size_t)maxcap, "output");
  if (kind == 1) for (i = 0; i < 40; i++) coef[i * 100] = (short)(i & 1 ? -3 : 5);
  if (kind == 2) for (i = 0; i < 12; i++) coef[10 + i] = (short)(i * 37 - 200);
  if (kind == 3) { coef[0] = 300; coef[1] = -400; coef[4095] = 1; }          /* long unary codes */
  if (kind == 4) for (i = 4060; i < 4096; i++) coef[i] = (short)((i * 7) % 9 - 4);
  if (kind == 5) for (i = 0; i < 4096; i++) coef[i] = (short)((i * 7) % 13 - 6);  /* dense */
  if (kind == 6) { coef[4095] = 4000; }
  if (w) sym_shorts(coef + pos, (size_t)w, "coef", -sym_param("R", 40), sym_param("R", 40));
  n = run(mode, impl, 64, full, 65536);
  sym_assert(n > 0 && n <= 65536, "a sufficient buffer gives a positive length");
  cap = sym_int("capacity", sym_param("MINCAP", 0), maxcap);
  sym_limit(buf, (size_t)maxcap, (size_t)cap); sym_reset_high_water(buf);
  m = run(mode, impl, 64, buf, cap);
  sym_limit(buf, (size_t)maxcap, (size_t)maxcap);
  sym_assert(sym_high_water(buf) <= (long)cap, "nothing is written beyond the capacity");
  sym_assert(m <= cap && m >= (impl ? -1 : 0), "no length above the capacity is returned");
  if (sym_concrete(cap >= n)) {
    sym_cover("enough space");
    sym_assert(m == n, "with space for the whole stream the length is the same whatever more is offered");
    for (i = 0; i < n && i < maxcap; i++) sym_assert(buf[i] == full[i], "with space for the whole stream the output is the same whatever more is offered");
  } else {
    sym_cover("too little space");
    if (impl) sym_assert(m == -1, "a stream that does not fit is reported as a failure");
  }
}
