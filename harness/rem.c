/* Reduce-extrapolate transform and quantisation against the reference, all pixels and
 * all quantiser nibbles symbolic. WHAT 0: fused (used by progressive), 1: separate. */
#include "sym.h"
#include "rem_ref.h"
#include "window.h"
#include "rfxcommon.h"
#include "rfxencode_dwt_rem.h"
#include "rfxencode_dwt_shift_rem.h"
static short spec[4096];
void harness(void) {
  int i, what = sym_param("WHAT", 0), fixq = sym_param("FIXQ", 0), amp = sym_param("AMP", 113), corner = sym_param("CORNER", 0);
  unsigned char *pix = sym_alloc(4096, "pixels"), *q = sym_alloc(5, "quants");
  short *out = sym_alloc(8192, "coefficients"), *tmp = sym_alloc(8192, "scratch");
  /* the last sample of LL1 is extrapolated in both directions, 4a-2b-2c+d of the four corner pixels, and
     leaves 16 bits when they differ extremely (recorded finding): the main job bounds those four pixels,
     the corner job shows the finding with the last pixel symbolic */
  if (sym_param("WIN", 0)) window_plane(pix, sym_param("WIN", 0), 1);
  else for (i = 0; i < 4096; i++) {
    int c = (i & 63) >= 62 && (i >> 6) >= 62;
    if (corner) { if (i == 4095) sym_bytes(pix + i, 1, "corner"); else pix[i] = c && i != 4030 ? 0 : i == 4030 ? 255 : (unsigned char)corner; }
    else if (c && amp < 128) pix[i] = (unsigned char)sym_int("corner", 128 - amp, 127 + amp); else sym_bytes(pix + i, 1, "pix");
  }
  for (i = 0; i < 5; i++) { if (fixq) { q[i] = (unsigned char)fixq; continue; } int lo = sym_int("qlo", 6, 15), hi = sym_int("qhi", 6, 15); q[i] = (unsigned char)(lo | hi << 4); }
  sym_readonly(pix, 1); sym_readonly(q, 1);
  if (what == 0) sym_assert(rfx_rem_dwt_shift_encode(pix, out, tmp, (const char *)q) == 0, "transform reports success");
  else sym_assert(rfx_rem_dwt_encode(pix, out, tmp) == 0, "transform reports success");
  rem_ref(pix, spec, what == 0 ? q : 0);
  if (corner) {
    int a = pix[4095] - 128, b = pix[4094] - 128, c = pix[4031] - 128, d = pix[4030] - 128, v = 4 * a - 2 * b - 2 * c + d;
    if (sym_concrete(v < -1024 || v > 1023)) {
      int same = 1; for (i = 0; i < 4096; i++) same &= out[i] == spec[i];
      sym_known(same, "rem-corner-overflow", "the transform of the bottom-right corner fits 16 bits"); sym_cover("corner beyond 16 bits");
      return;
    }
  }
  sym_equal(out, spec, 4096, 2, "coefficient equals the reference");
  sym_cover("transform compared");
}
