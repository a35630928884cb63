/* The alpha plane of a tile decodes to exactly the alpha values given.  Through the public
 * interface.  KIND: background; W symbolic bytes at ROW, COL (COL -1: symbolic). SHAPE: rows
 * made of literal and run segments of every length (1: literals, run, literals; 2, 3: run, literals, run), the picture chosen symbolically. */
#include "msg.h"
#include "alpha_ref.h"
static u8 dec[4096];
static void shape_rows(u8 *a, int idx, int runv, int tail) {
  int y, x; u8 d[64];
  for (y = 0; y < 64; y++) {
    int k = (idx * 64 + y) % 2145, lit = 0, run; /* pairs (lit, run) with lit+run <= 64 */
    while (k > 64 - lit) { k -= 65 - lit; lit++; }
    run = k;
    if (tail) for (x = 0; x < 64; x++) d[x] = (u8)(x < 64 - lit - run ? tail == 2 ? 3 : runv : x < 64 - run ? 2 * (x & 1) + 4 : runv);
    else for (x = 0; x < 64; x++) d[x] = (u8)(x < lit ? 2 * (x & 1) + 4 : x < lit + run ? runv : 10 + 2 * (x % 3));
    for (x = 0; x < 64; x++) a[64 * y + x] = y == 0 ? d[x] : (u8)(a[64 * y - 64 + x] + ((d[x] & 1) ? -((d[x] >> 1) + 1) : d[x] >> 1));
  }
}
void harness(void) {
  static const u8 q[5] = {0x66, 0x66, 0x77, 0x88, 0x98}; struct rfx_tile t; struct rfx_rect rg = {0, 0, 64, 64};
  int i, kind = sym_param("KIND", 0), w = sym_param("WIN", 3), row = sym_param("ROW", 1), col = sym_param("COL", 5), shape = sym_param("SHAPE", 0), n = 90000, r, alen, used, lo = sym_param("LO", 0), hi = sym_param("HI", 255);
  u8 *pic = sym_alloc(16384, "picture"), *out = sym_alloc(90000, "output"), *a = pic + 12288; const u8 *p, *td; void *h = 0;
  memset(pic, 128, 12288);
  if (shape) shape_rows(a, sym_concrete(sym_int("shape", 0, sym_param("NSHAPE", 33))), sym_param("RUNV", 0), shape - 1);
  else {
    for (i = 0; i < 4096; i++) { int x = i & 63, y = i >> 6;
      a[i] = (u8)(kind == 0 ? 255 : kind == 1 ? 0 : kind == 2 ? x * 3 : kind == 3 ? x + y * 3 : kind == 4 ? (x / 5) * 40 : kind == 5 ? (int)lcg() : kind == 6 ? (x * 7 + y * y) : kind == 7 ? 128 - y : (y & 1 ? x * 5 : 200)); }
    if (col < 0) col = sym_concrete(sym_int("col", 0, 64 - w));
    if (lo == 0 && hi == 255) sym_bytes(a + 64 * row + col, (size_t)w, "alpha"); else sym_bytes_range(a + 64 * row + col, (size_t)w, "alpha", lo, hi);
  }
  t.x = t.y = 0; t.cx = t.cy = 64; t.quant_y = t.quant_cb = t.quant_cr = 0;
  sym_readonly(pic, 1);
  r = rfxcodec_encode_create_ex(64, 64, RFX_FORMAT_YUV, RFX_FLAGS_NOACCEL, &h); sym_assert(r == 0 && h, "creation succeeds");
  r = rfxcodec_encode_ex(h, (char *)out, &n, (const char *)pic, 64, 64, 256, &rg, 1, &t, 1, (const char *)q, 1, RFX_FLAGS_ALPHAV1);
  sym_assert(r == 1 && n > 0 && n <= 90000, "the tile is coded");
  p = out + 47 + 14 + 23 + 27; /* first tile */
  sym_assert(rd16(p) == 0xCAC3, "tile type");
  alen = (int)rd16(p + 19); td = p + 21 + rd16(p + 13) + rd16(p + 15) + rd16(p + 17);
  sym_assert(td < out + n, "alpha data lies in the message");
  used = alpha_ref_decode(td, (int)(out + n - 8 - td), dec);
  sym_assert(used > 0, "the alpha plane decodes");
  sym_assert(td[0] ? used == alen + 1 : used + 1 == alen, "the alpha length delimits the plane");
  sym_assert(td + used + (td[0] ? 0 : 1) + 8 == out + n, "the message ends after the alpha plane and the frame end");
  for (i = 0; i < 4096; i++) sym_assert(dec[i] == a[i], "the decoded alpha value is the one given");
  sym_cover(td[0] ? "run-length coded plane" : "raw plane");
  rfxcodec_encode_destroy(h);
}
