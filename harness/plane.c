/* From the caller's picture to the planes that are coded: pixel format, tile address, partial
 * tiles, colour conversion, alpha.  Through the public interface with a picture that ends at
 * its last pixel, all pixels of the tile symbolic; the transform and the alpha coder are
 * replaced by observers that compare their input with the reference planes.
 * params: FMT 0..4, ALPHA, TX TY tile column/row, CX CY (0: symbolic LO..HI), PAD, CALLS */
#include "msg.h"
#include "rfxcommon.h"
#include "rfxencode.h"
#include "pixel_ref.h"
static u8 ref[4][4096]; static int seen, aseen, cur, nt, alpha;
int rfx_dwt_2d_encode(const uint8 *in, sint16 *o, sint16 *w) {
  static const char *m[3] = {"the Y plane is the conversion of the tile's pixels", "the Cb plane is the conversion of the tile's pixels", "the Cr plane is the conversion of the tile's pixels"};
  sym_assert(seen < 3, "three planes per tile");
  sym_equal(in, ref[seen], 4096, 1, m[seen]);
  memset(o, 0, 8192); seen++;
  return 0;
}
int rfx_encode_plane(struct rfxencode *enc, const uint8 *plane, int cx, int cy, STREAM *s) {
  sym_assert(cx == 64 && cy == 64, "the alpha plane is a whole tile");
  if (alpha && cur != 2 && cur != 3) sym_equal(plane, ref[3], 4096, 1, "the alpha plane is the alpha channel of the tile's pixels");
  aseen++; s->p[0] = 0x10; s->p[1] = 0; s->p += 2; return 1;
}
void harness(void) {
  static const u8 q[5] = {0x66, 0x66, 0x77, 0x88, 0x98}; struct rfx_tile *t = sym_alloc(sizeof *t, "tile"); struct rfx_rect *rg = sym_alloc(sizeof *rg, "rectangle"); u8 *qv = sym_alloc(5, "quantisers");
  int i, x, y, c, fmt = sym_param("FMT", 0), tx = sym_param("TX", 0), ty = sym_param("TY", 0), cx = sym_param("CX", 64), cy = sym_param("CY", 64), pad = sym_param("PAD", 0), calls = sym_param("CALLS", 1), bpp = px_bytes(fmt), r, n, w, h, one = sym_param("ONE", -1);
  long stride, sz; u8 *pic, *org, *out = sym_alloc(80000, "output"); void *hd = 0;
  alpha = sym_param("ALPHA", 0); cur = fmt;   /* three-byte formats have no alpha channel to compare with */
  r = rfxcodec_encode_create_ex(sym_param("W", 256), sym_param("H", 256), fmt, RFX_FLAGS_NOACCEL | (sym_param("RLGR1", 0) ? RFX_FLAGS_RLGR1 : 0), &hd); sym_assert(r == 0 && hd, "creation succeeds");
  for (c = 0; c < calls; c++) {
    if (c) { tx = sym_param("TX2", 0); ty = sym_param("TY2", 0); cx = sym_param("CX2", 64); cy = sym_param("CY2", 64); }
    if (cx == 0) cx = sym_concrete(sym_int("cx", sym_param("LO", 1), sym_param("HI", 64))); if (cy == 0) cy = sym_concrete(sym_int("cy", sym_param("LO", 1), sym_param("HI", 64)));
    if (fmt == 4) { int g = sym_param("GEO", 2); w = h = 64 * g; stride = 256 * g; sz = (ty * (long)g + tx) * 16384 + (alpha ? 16384 : 12288); }
    else { w = 64 * tx + cx; h = 64 * ty + cy; stride = (long)w * bpp + pad; sz = stride * (h - 1) + (long)w * bpp; }
    pic = sym_alloc((size_t)sz, "picture");
    memset(pic, 0x5a, (size_t)sz);
    if (fmt == 4) { org = pic + (ty * (long)(w / 64) + tx) * 16384; sym_bytes(org, alpha ? 16384 : 12288, "pix"); }
    else {
      org = pic + 64 * ty * stride + 64 * tx * bpp;
      if (one >= 0) { for (y = 0; y < cy; y++) for (x = 0; x < cx; x++) for (i = 0; i < bpp; i++) org[y * stride + x * bpp + i] = (u8)(x * 3 + y * 5 + i * 60); sym_bytes(org + ((one >> 6) % cy) * stride + ((one & 63) % cx) * bpp, (size_t)bpp, "pix"); }
      else for (y = 0; y < cy; y++) sym_bytes(org + y * stride, (size_t)cx * bpp, "pix");
    }
    planes_ref(fmt, alpha, org, stride, cx, cy, ref);
    t->x = 64 * tx; t->y = 64 * ty; t->cx = cx; t->cy = cy; t->quant_y = t->quant_cb = t->quant_cr = 0;
    rg->x = rg->y = 0; rg->cx = w; rg->cy = h; memcpy(qv, q, 5);
    sym_readonly(pic, 1); sym_readonly(t, 1); sym_readonly(rg, 1); sym_readonly(qv, 1);
    seen = aseen = 0; n = 80000;
    r = rfxcodec_encode_ex(hd, (char *)out, &n, (const char *)pic, w, h, (int)stride, rg, 1, t, 1, (const char *)qv, 1, alpha ? RFX_FLAGS_ALPHAV1 : 0);
    sym_assert(r == 1, "the tile is coded");
    sym_assume(seen);   /* not the case in a tree that transforms some other way: nothing observed, nothing claimed */
    sym_assert(seen == 3, "three planes per tile");
    sym_assert(alpha || !aseen, "no alpha plane unless asked for"); 
    if (alpha) { sym_assume(aseen); sym_cover("alpha plane compared"); }
    sym_readonly(pic, 0); sym_readonly(t, 0); sym_readonly(rg, 0); sym_readonly(qv, 0);
    sym_cover("planes compared");
  }
  rfxcodec_encode_destroy(hd);
}
