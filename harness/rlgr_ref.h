/* Reference RLGR1/RLGR3 decoder, written from [MS-RDPRFX] 3.1.8.1.7.3 (and the
 * errata on the kp update direction).  Bits past the end of the stream read as 0;
 * 'over' counts how many were consumed. */
#ifndef RLGR_REF_H
#define RLGR_REF_H
#ifndef RLGR_REF_OBSERVE
#define RLGR_REF_OBSERVE(n, k, krp, bitpos)
#endif
struct rbits { const unsigned char *p; int n; int pos; int over; };
static int rb_bit(struct rbits *b) {
  int i = b->pos >> 3, v;
  if (i >= b->n) { b->over++; return 0; }
  v = (b->p[i] >> (7 - (b->pos & 7))) & 1;
  b->pos++;
  return v;
}
static unsigned rb_bits(struct rbits *b, int n) { unsigned v = 0; while (n-- > 0) v = (v << 1) | (unsigned)rb_bit(b); return v; }
static int ref_clamp(int v) { return v < 0 ? 0 : v > 80 ? 80 : v; }
static unsigned ref_gr(struct rbits *b, int *krp) {
  int kr = *krp >> 3; unsigned vk = 0, v;
  while (rb_bit(b)) vk++;
  v = (vk << kr) | rb_bits(b, kr);
  if (vk == 0) *krp = ref_clamp(*krp - 2);
  else if (vk > 1) *krp = ref_clamp(*krp + (int)vk);
  return v;
}
static int ref_unmag(unsigned v) { return (v & 1) ? -(int)((v + 1) >> 1) : (int)(v >> 1); }
/* mode 1 or 3; returns number of coefficients produced (<= max) */
static int rlgr_ref_decode(int mode, const unsigned char *data, int nbytes, short *out, int max, int *overrun) {
  struct rbits b; int k = 1, kp = 8, krp = 8, n = 0, i;
  b.p = data; b.n = nbytes; b.pos = 0; b.over = 0;
  while (n < max && b.over == 0) {
    RLGR_REF_OBSERVE(n, k, krp, b.pos);
    if (k) {
      /* run of zeros */
      while (rb_bit(&b) == 0) {
        if (b.over) break;
        for (i = 0; i < (1 << k) && n < max; i++) out[n++] = 0;
        kp = ref_clamp(kp + 4); k = kp >> 3;
        if (n >= max) break;
      }
      if (n >= max || b.over) break;
      { int run = (int)rb_bits(&b, k); for (i = 0; i < run && n < max; i++) out[n++] = 0; }
      if (n >= max) break;
      { int sign = rb_bit(&b); unsigned mag = ref_gr(&b, &krp) + 1; out[n++] = (short)(sign ? -(int)mag : (int)mag); }
      kp = ref_clamp(kp - 6); k = kp >> 3;
    } else if (mode == 1) {
      unsigned v = ref_gr(&b, &krp);
      if (v == 0) { kp = ref_clamp(kp + 3); k = kp >> 3; out[n++] = 0; }
      else { kp = ref_clamp(kp - 3); k = kp >> 3; out[n++] = (short)ref_unmag(v); }
    } else {
      unsigned sum = ref_gr(&b, &krp), v1, v2; int nb = 0; unsigned s = sum;
      while (s) { s >>= 1; nb++; }
      v1 = rb_bits(&b, nb); v2 = sum - v1;
      if (v1 && v2) { kp = ref_clamp(kp - 6); k = kp >> 3; }
      else if (!v1 && !v2) { kp = ref_clamp(kp + 6); k = kp >> 3; }
      out[n++] = (short)ref_unmag(v1);
      if (n < max) out[n++] = (short)ref_unmag(v2);
    }
  }
  *overrun = b.over;
  return n;
}
#endif
