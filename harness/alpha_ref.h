/* Reference decoder of an alpha plane (planar run-length coding with line deltas,
 * [MS-RDPEGDI] 3.1.9.2).  Returns the bytes used, or -1. */
#ifndef ALPHA_REF_H
#define ALPHA_REF_H
static int alpha_ref_decode(const unsigned char *p, int avail, unsigned char *out) {
  int n = 0, y, x, i;
  if (avail < 1) return -1;
  if (p[0] == 0) { if (avail < 4097) return -1; for (i = 0; i < 4096; i++) out[i] = p[1 + i]; return 4097; }
  if (p[0] != 0x10) return -1;
  n = 1;
  for (y = 0; y < 64; y++) {
    unsigned char cur = 0;
    for (x = 0; x < 64; ) {
      int raw, run;
      if (n >= avail) return -1;
      raw = p[n] >> 4; run = p[n] & 15; n++;
      if (run == 1) { run = 16 + raw; raw = 0; } else if (run == 2) { run = 32 + raw; raw = 0; }
      if (raw + run == 0 || x + raw + run > 64 || n + raw > avail) return -1;
      for (i = 0; i < raw + run; i++) {
        if (i < raw) cur = p[n++];
        out[64 * y + x] = y == 0 ? cur : (unsigned char)(out[64 * (y - 1) + x] + ((cur & 1) ? -((cur >> 1) + 1) : cur >> 1));
        x++;
      }
    }
  }
  return n;
}
#endif
