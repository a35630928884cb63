/* Reference pixel handling: channel order of the five formats, replication of the last
 * column and row of a partial tile, and the protocol's colour matrix in 16-bit fixed point. */
#ifndef PIXEL_REF_H
#define PIXEL_REF_H
static int px_bytes(int fmt) { return fmt <= 1 || fmt == 4 ? 4 : 3; }
/* red, green, blue and alpha of the pixel at p */
static void px_rgba(int fmt, const unsigned char *p, int *r, int *g, int *b, int *a) {
  *g = p[1]; *a = fmt <= 1 ? p[3] : 0;
  if (fmt == 0 || fmt == 2) { *b = p[0]; *r = p[2]; } else { *r = p[0]; *b = p[2]; }
}
/* pic: first pixel of the tile */
static void planes_ref(int fmt, int alpha, const unsigned char *pic, long stride, int cx, int cy, unsigned char pl[4][4096]) {
  int x, y;
  for (y = 0; y < 64; y++) for (x = 0; x < 64; x++) {
    int i = 64 * y + x, r, g, b, a;
    if (fmt == 4) { int c; for (c = 0; c < 3 + alpha; c++) pl[c][i] = pic[4096 * c + i]; continue; }
    px_rgba(fmt, pic + (y < cy ? y : cy - 1) * stride + (long)(x < cx ? x : cx - 1) * px_bytes(fmt), &r, &g, &b, &a);
    pl[0][i] = (unsigned char)((19595 * r + 38470 * g + 7471 * b) >> 16);
    pl[1][i] = (unsigned char)(((-11071 * r - 21736 * g + 32807 * b) >> 16) + 128);
    pl[2][i] = (unsigned char)(((32756 * r - 27429 * g - 5327 * b) >> 16) + 128);
    pl[3][i] = (unsigned char)a;
  }
}
#endif
