/* Entropy coders: decode(encode(x)) == x with the reference decoder, for every
 * value of a symbolic window inside a concrete context; plus capacity handling.
 * params: MODE 1|3, IMPL 0 portable | 1 differential(fast), DIFF n,
 *         POS window position, W window length, R magnitude bound, SUF suffix value,
 *         LEAD leading non-zero count (moves the bit phase), J non-zero values just
 *         before the window (moves kp), VA their magnitude (moves krp), Z zeros before. */
#include "sym.h"
#include "rfxcodec_encode.h"
#include <string.h>
static int wpos, cov_phase = -1, cov_k = -1, cov_kr = -1;
#define RLGR_REF_OBSERVE(n, k, krp, bitpos) do { if ((n) == wpos) { cov_phase = (bitpos) & 7; cov_k = (k); cov_kr = (krp) >> 3; } } while (0)
#include "rlgr_ref.h"
static short coef[4096], spec[4096], out[4096];
static const char *ph[8] = {"bit phase 0","bit phase 1","bit phase 2","bit phase 3","bit phase 4","bit phase 5","bit phase 6","bit phase 7"};
static const char *kk[11] = {"k=0","k=1","k=2","k=3","k=4","k=5","k=6","k=7","k=8","k=9","k=10"};
static const char *kr[11] = {"kr=0","kr=1","kr=2","kr=3","kr=4","kr=5","kr=6","kr=7","kr=8","kr=9","kr=10"};
#ifndef CAP
#define CAP 65536
#endif
static int run(int mode, int impl, int diff, unsigned char *buf, int cap) {
  struct rfxcodec_encode_internals in;
  rfxcodec_encode_get_internals(&in);
  if (impl == 0) return mode == 1 ? in.rfxencode_rlgr1(coef, buf, cap) : in.rfxencode_rlgr3(coef, buf, cap);
  return mode == 1 ? in.rfxencode_diff_rlgr1(coef, buf, cap, diff) : in.rfxencode_diff_rlgr3(coef, buf, cap, diff);
}
static void fill(void) {
  int i, pos = sym_param("POS", 4090), w = sym_param("W", 2), r = sym_param("R", 40);
  int lead = sym_param("LEAD", 0), j = sym_param("J", 0), va = sym_param("VA", 1), z = sym_param("Z", 0), suf = sym_param("SUF", 0);
  int maxlead = sym_param("LEADS", 0), maxj = sym_param("JS", 0), sufw = sym_param("SUFN", 4096);
  if (maxlead) lead = sym_concrete(sym_int("lead", 0, maxlead));
  if (sym_param("ZS", 0)) z += sym_concrete(sym_int("z", 0, sym_param("ZS", 0)));
  if (maxj) j = sym_concrete(sym_int("j", 0, maxj));
  if (sym_param("NOISE", 0)) { /* concrete contents of every density and amplitude, one of NOISE chosen symbolically */
    unsigned sd = (unsigned)sym_param("SEED", 0) + (unsigned)sym_concrete(sym_int("noise", 0, sym_param("NOISE", 0) - 1)), s = sd * 2654435761u + 12345u; int amp = 1 << (sd % 12), den = 1 << ((sd / 12) % 5);
    for (i = 0; i < 4096; i++) { s = s * 1103515245u + 12345u; if ((s >> 16) % (unsigned)den == 0) { s = s * 1103515245u + 12345u; coef[i] = (short)((int)((s >> 13) % (unsigned)(2 * amp + 1)) - amp); } }
  }
  for (i = 0; i < lead && i < pos; i++) coef[i] = (short)(i & 1 ? -1 : 1);
  for (i = 0; i < j; i++) { int p = pos - z - 1 - i; if (p >= 0) coef[p] = (short)(i & 1 ? -va : va); }
  sym_shorts(coef + pos, (size_t)w, "coef", sym_param("LO", -r), sym_param("HI", r));
  if (!sym_param("NOISE", 0)) for (i = pos + w; i < 4096 && i < pos + w + sufw; i++) coef[i] = (short)suf;
  wpos = pos;
}
void harness(void) {
  int i, mode = sym_param("MODE", 1), impl = sym_param("IMPL", 0), diff = impl ? sym_param("DIFF", 64) : 0, n, got, over = 0;
  unsigned char *buf = sym_alloc(CAP, "output");
  fill();
  memcpy(spec, coef, sizeof coef);
  for (i = 4095; i > 4096 - diff; i--) spec[i] = (short)(spec[i] - spec[i - 1]);
  if (impl == 0) { sym_readonly(coef, 1); }
  n = run(mode, impl, diff, buf, CAP);
  if (impl == 0) { sym_readonly(coef, 0); }
  sym_assert(n > 0 && n <= CAP, "a sufficient buffer gives a positive length");
  got = rlgr_ref_decode(mode, buf, n, out, 4096, &over);
  sym_assert(got == 4096 && over == 0, "the stream decodes to exactly one tile without running out of bits");
  for (i = 0; i < 4096; i++) sym_assert(out[i] == spec[i], "decoded coefficient equals the encoded one");
  if (cov_phase >= 0) sym_cover(ph[cov_phase & 7]); if (cov_k >= 0 && cov_k <= 10) sym_cover(kk[cov_k]); if (cov_kr >= 0 && cov_kr <= 10) sym_cover(kr[cov_kr]);
}
