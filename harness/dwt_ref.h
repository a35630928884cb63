/* Reference classic RemoteFX transform, written from [MS-RDPRFX] 3.1.8.1.4 with the
 * library's 5 fractional bits: one 5/3 lifting analysis per level, columns then rows,
 * mirror extension, bands stored HL LH HH and then the next level in place of LL. */
#ifndef DWT_REF_H
#define DWT_REF_H
static int dr_a[64][64], dr_t[64][64];
/* analyse n samples at p with stride st into n/2 low (written at lo) and n/2 high (at hi) */
static void dr_lift(const int *p, int st, int n, int *lo, int *hi, int ost) {
  int i, m = n / 2;
  for (i = 0; i < m; i++) {
    int x0 = p[2 * i * st], x1 = p[(2 * i + 1) * st], x2 = 2 * i + 2 < n ? p[(2 * i + 2) * st] : p[2 * i * st];
    hi[i * ost] = (x1 - ((x0 + x2) >> 1)) >> 1;
  }
  for (i = 0; i < m; i++) {
    int hp = i ? hi[(i - 1) * ost] : hi[0];
    lo[i * ost] = p[2 * i * st] + ((hp + hi[i * ost]) >> 1);
  }
}
static void dwt_ref(const unsigned char *pix, short *out) {
  int n, x, y, off = 0;
  for (y = 0; y < 64; y++) for (x = 0; x < 64; x++) dr_a[y][x] = (pix[y * 64 + x] - 128) * 32;
  for (n = 64; n >= 16; n /= 2) {
    int m = n / 2;
    for (x = 0; x < n; x++) dr_lift(&dr_a[0][x], 64, n, &dr_t[0][x], &dr_t[m][x], 64);
    for (y = 0; y < n; y++) dr_lift(&dr_t[y][0], 1, n, &dr_a[y][0], &dr_a[y][m], 1);
    for (y = 0; y < m; y++) for (x = 0; x < m; x++) {
      out[off + y * m + x] = (short)dr_a[y][m + x];             /* HL: high horizontally, low vertically */
      out[off + m * m + y * m + x] = (short)dr_a[m + y][x];     /* LH */
      out[off + 2 * m * m + y * m + x] = (short)dr_a[m + y][m + x]; /* HH */
    }
    off += 3 * m * m;
  }
  for (y = 0; y < 8; y++) for (x = 0; x < 8; x++) out[off + y * 8 + x] = (short)dr_a[y][x];
}
/* rounding right shift by (value-6) with the 5 fractional bits */
static int quant_ref(int c, int q) { int f = q - 6 + 5; return (c + (1 << (f - 1))) >> f; }
/* quantisation nibble order of the public header: LL3 LH3 HL3 HH3 LH2 HL2 HH2 LH1 HL1 HH1 */
static int q_nibble(const unsigned char *q, int i) { return (q[i >> 1] >> (4 * (i & 1))) & 15; }
/* number of the nibble for classic coefficient position p */
static int q_index_classic(int p) {
  return p < 1024 ? 8 : p < 2048 ? 7 : p < 3072 ? 9 : p < 3328 ? 5 : p < 3584 ? 4 : p < 3840 ? 6 : p < 3904 ? 2 : p < 3968 ? 1 : p < 4032 ? 3 : 0;
}
#endif
