/* Reference reduce-extrapolate transform ([MS-RDPEGFX] 3.2.8.1.2.2 / the RFX_DWT_REDUCE_EXTRAPOLATE
 * layout): 64 samples are extended to 65 by linear extrapolation, each level of n = 2m+1
 * samples gives m+1 low and m high samples, the level-1 high sample of the extrapolated
 * pair being identically zero and not stored. */
#ifndef REM_REF_H
#define REM_REF_H
#include "dwt_ref.h"
static int rr_a[65][65], rr_t[65][65];
/* n samples (64 -> extrapolated to 65); returns nothing; lo has n/2+1 entries, hi n/2 (31 for 64) */
static void rr_lift(const int *p, int st, int n, int *lo, int *hi, int ost) {
  int i, x[65], h[32], N = n == 64 ? 65 : n, m = N / 2, keep = n == 64 ? 31 : m;
  for (i = 0; i < n; i++) x[i] = p[i * st];
  if (n == 64) x[64] = 2 * x[63] - x[62];
  for (i = 0; i < m; i++) h[i] = (x[2 * i + 1] - ((x[2 * i] + x[2 * i + 2]) >> 1)) >> 1;
  for (i = 0; i <= m; i++) { int a = i ? h[i - 1] : h[0], b = i < m ? h[i] : h[m - 1]; lo[i * ost] = x[2 * i] + ((a + b) >> 1); }
  for (i = 0; i < keep; i++) hi[i * ost] = h[i];
}
static int rr_off[10], rr_cnt[10];  /* bands in nibble order */
static void rem_ref(const unsigned char *pix, short *out, const unsigned char *q /* or 0: no quantisation */) {
  static const int nin[3] = {64, 33, 17};
  static const int qh[3][3] = {{8, 7, 9}, {5, 4, 6}, {2, 1, 3}};  /* nibble of HL, LH, HH */
  int l, x, y, off = 0;
  for (y = 0; y < 64; y++) for (x = 0; x < 64; x++) rr_a[y][x] = (pix[y * 64 + x] - 128) * 32;
  for (l = 0; l < 3; l++) {
    int n = nin[l], L = n / 2 + 1, H = n == 64 ? 31 : n / 2, b;
    for (x = 0; x < n; x++) rr_lift(&rr_a[0][x], 65, n, &rr_t[0][x], &rr_t[L][x], 65);
    for (y = 0; y < L + H; y++) rr_lift(&rr_t[y][0], 1, n, &rr_a[y][0], &rr_a[y][L], 1);
    for (b = 0; b < 3; b++) {
      int y0 = b == 0 ? 0 : L, x0 = b == 1 ? 0 : L, rows = b == 0 ? L : H, cols = b == 1 ? L : H;
      for (y = 0; y < rows; y++) for (x = 0; x < cols; x++) {
        int v = rr_a[y0 + y][x0 + x];
        out[off + y * cols + x] = (short)(q ? quant_ref(v, q_nibble(q, qh[l][b])) : v);
      }
      rr_off[qh[l][b]] = off; rr_cnt[qh[l][b]] = rows * cols;
      off += rows * cols;
    }
  }
  for (y = 0; y < 9; y++) for (x = 0; x < 9; x++) { int v = rr_a[y][x]; out[off + y * 9 + x] = (short)(q ? quant_ref(v, q_nibble(q, 0)) : v); }
  rr_off[0] = off; rr_cnt[0] = 81;
}
#endif
