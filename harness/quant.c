/* Quantisation: every coefficient, every legal quantisation value, every band. */
#include "sym.h"
#include "rfxcodec_encode.h"
#include "dwt_ref.h"
static short spec[4096];
void harness(void) {
  struct rfxcodec_encode_internals in; int i;
  short *c = sym_alloc(8192, "coefficients"); unsigned char *q = sym_alloc(5, "quants");
  for (i = 0; i < 5; i++) { int lo = sym_int("qlo", 6, 15), hi = sym_int("qhi", 6, 15); q[i] = (unsigned char)(lo | hi << 4); }
  sym_readonly(q, 1);
  sym_shorts(c, 4096, "c", -24576, 24575);
  for (i = 0; i < 4096; i++) spec[i] = (short)quant_ref(c[i], q_nibble(q, q_index_classic(i)));
  rfxcodec_encode_get_internals(&in);
  sym_assert(in.rfxencode_quantization(c, (const char *)q) == 0, "quantisation reports success");
  sym_equal(c, spec, 4096, 2, "quantised coefficient equals the reference");
  sym_cover("quantisation compared");
}
