/* Quantisation of reduce-extrapolate coefficients, every coefficient and legal quantiser. */
#include "sym.h"
#include "dwt_ref.h"
#include "rfxcommon.h"
#include "rfxencode_quantization.h"
static short spec[4096];
/* HL1 LH1 HH1 HL2 LH2 HH2 HL3 LH3 HH3 LL3: last position + 1 and nibble */
static const int band[10][2] = {{1023, 8}, {2046, 7}, {3007, 9}, {3279, 5}, {3551, 4}, {3807, 6}, {3879, 2}, {3951, 1}, {4015, 3}, {4096, 0}};
void harness(void) {
  int i, b = 0; short *c = sym_alloc(8192, "coefficients"); unsigned char *q = sym_alloc(5, "quants");
  for (i = 0; i < 5; i++) { int lo = sym_int("qlo", 6, 15), hi = sym_int("qhi", 6, 15); q[i] = (unsigned char)(lo | hi << 4); }
  sym_readonly(q, 1);
  sym_shorts(c, 4096, "c", -24576, 24575);
  for (i = 0; i < 4096; i++) { while (i >= band[b][0]) b++; spec[i] = (short)quant_ref(c[i], q_nibble(q, band[b][1])); }
  sym_assert(rfx_rem_quantization_encode(c, (const char *)q) == 0, "quantisation reports success");
  sym_equal(c, spec, 4096, 2, "quantised coefficient equals the reference");
  sym_cover("quantisation compared");
}
