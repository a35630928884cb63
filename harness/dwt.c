/* Classic transform against the reference, all 4096 pixels symbolic (WIN: a block of them). */
#include "sym.h"
#include "rfxcodec_encode.h"
#include "dwt_ref.h"
#include "window.h"
static short spec[4096];
void harness(void) {
  struct rfxcodec_encode_internals in;
  unsigned char *pix = sym_alloc(4096, "pixels");
  short *out = sym_alloc(8192, "coefficients"), *tmp = sym_alloc(8192, "scratch");
  window_plane(pix, sym_param("WIN", 0), 0);
  sym_readonly(pix, 1);
  rfxcodec_encode_get_internals(&in);
  sym_assert(in.rfxencode_dwt_2d(pix, out, tmp) == 0, "transform reports success");
  dwt_ref(pix, spec);
  sym_equal(out, spec, 4096, 2, "transform coefficient equals the reference");
  sym_cover("transform compared");
}
