/* Accelerated transform+quantisation against the portable one: all pixels and all legal
 * quantiser nibbles symbolic.  The assembly is the lifted C (engine) or the object (native). */
#include "sym.h"
#include "rfxcodec_encode.h"
#include "window.h"
#ifndef NATIVE
extern int rfxcodec_encode_dwt_shift_amd64_sse2(); extern int rfxcodec_encode_dwt_shift_amd64_sse41();
#endif
static short *alloc16(const char *n) { return sym_alloc(8192, n); }
void harness(void) {
  struct rfxcodec_encode_internals in; int i, v = sym_param("V", 0), fixq = sym_param("FIXQ", 0), rot = sym_param("ROT", -1);
  int off = sym_param("OFF", 0); unsigned char *pix = (unsigned char *)sym_alloc(4096 + (size_t)off, "pixels") + off, *q = sym_alloc(5, "quants");
  short *o1 = alloc16("portable out"), *t1 = alloc16("portable scratch"), *o2 = alloc16("accelerated out"), *t2 = alloc16("accelerated scratch");
  window_plane(pix, sym_param("WIN", 0), 0);
  for (i = 0; i < 5; i++) { if (rot >= 0) { q[i] = (unsigned char)((6 + (2 * i + rot) % 10) | (6 + (2 * i + 1 + rot) % 10) << 4); continue; } if (fixq) { q[i] = (unsigned char)fixq; continue; } int lo = sym_int("qlo", 6, 15), hi = sym_int("qhi", 6, 15); q[i] = (unsigned char)(lo | hi << 4); }
  sym_readonly(pix, 1); sym_readonly(q, 1);
  rfxcodec_encode_get_internals(&in);
  sym_assert(in.rfxencode_dwt_2d(pix, o1, t1) == 0, "portable transform reports success");
  sym_assert(in.rfxencode_quantization(o1, (const char *)q) == 0, "portable quantisation reports success");
  if (v == 0) i = in.rfxencode_dwt_shift_amd64_sse2((const char *)q, pix, o2, t2); else i = in.rfxencode_dwt_shift_amd64_sse41((const char *)q, pix, o2, t2);
  sym_assert(i == 0, "accelerated transform reports success");
  sym_equal(o2, o1, 4096, 2, "accelerated coefficient equals the portable one");
  sym_cover("accelerated transform compared");
}
