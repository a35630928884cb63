/* Progressive sessions: containment, framing, session state, prefix property, and
 * agreement with a reference decoder that keeps its own history, over a sequence of
 * calls whose key flag, pictures, tile choices, quantisers and capacities are symbolic.
 * With -DSTUB=1 the transform is replaced by a stand-in that delivers coefficients
 * chosen by the harness (some of them symbolic), otherwise the real transform runs on
 * pictures chosen symbolically from a fixed set and the reference transform is the oracle. */
#include "msg.h"
#include "rfxcommon.h"
#include "rlgr_ref.h"
#include "rem_ref.h"
#if FRAME
#include "rfxencode.h"
#endif
#ifndef STUB
#define STUB 0
#endif
#define MAXT 640
#define NSLOT 8
#define VSLOT 6
static u8 *out; static const u8 *buf; static int cap, stride, geo, nq;
static struct rfx_tile *tl; static struct rfx_rect *rg; static u8 *qv; static int nt, nr;
static const u8 defq[5] = {0x66, 0x66, 0x77, 0x88, 0x98};
/* slots: the tile positions a session uses */
static const int slot_x[NSLOT] = {0, 1, 0, 63, 63, 0, 64, 0}, slot_y[NSLOT] = {0, 0, 1, 63, 0, 63, 0, 64};
static int slot_of[MAXT], badq[MAXT], slot_kind[NSLOT];
static short want[NSLOT][3][4096];          /* quantised coefficients of the slot's picture */
static short hist[NSLOT][3][4096];          /* reference decoder's history */
static short dec[4096];
static const u8 *qset(int i) { return nq ? qv + 5 * i : defq; }
static int stub_calls, probing, cur_done[MAXT];
#if STUB
int rfx_rem_dwt_shift_encode(const uint8 *in, sint16 *o, sint16 *w, const char *q) {
  int t, c; long off = (const u8 *)in - buf;
  stub_calls++; if (probing) { memset(o, 0, 8192); return 0; }
  for (t = 0; t < nt; t++) {
    long base = ((long)tl[t].y / 64) * 64 * 256 * (stride / 256) + ((long)tl[t].x / 64) * 16384;
    for (c = 0; c < 3; c++) if (off == base + 4096 * c && !(cur_done[t] & 1 << c)) {
      int i, qi = c == 0 ? tl[t].quant_y : c == 1 ? tl[t].quant_cb : tl[t].quant_cr;
      for (i = 0; i < 5; i++) sym_assert((u8)q[i] == qset(qi)[i], "the component is coded with the quantiser its tile names");
      cur_done[t] |= 1 << c;
      memcpy(o, want[slot_of[t]][c], 8192);
      return 0;
    }
  }
  sym_assert(0, "only planes of the tiles to send are transformed");
  return 0;
}
#endif
/* lengths of the message with its first k tiles, from an encoder that always has enough space */
static long prefix[MAXT + 1]; static int twin_ok;
static const u8 *p;
static void x8(unsigned v, const char *m) { sym_assert(p[0] == (u8)v, m); p += 1; }
static void x16(unsigned v, const char *m) { sym_assert(rd16(p) == (v & 0xffff), m); p += 2; }
static void x32(unsigned v, const char *m) { sym_assert(rd32(p) == v, m); p += 4; }
static int header_due = 1, decode, lossless; static unsigned frame;
static void component(int t, int c, const u8 *d, int len, int diff) {
  int i, over = 0, n; short *h = hist[slot_of[t]][c], *w = want[slot_of[t]][c];
  n = rlgr_ref_decode(1, d, len, dec, 4096, &over);
  sym_assert(n == 4096 && over == 0, "the component decodes to one tile");
  for (i = 4096 - 80; i < 4096; i++) dec[i] = (short)(dec[i] + dec[i - 1]);
  if (diff) for (i = 0; i < 4096; i++) dec[i] = (short)(dec[i] + h[i]);
  for (i = 0; i < 4096; i++) sym_assert(dec[i] == w[i], "the decoder reconstructs the coefficients of the picture");
  memcpy(h, dec, 8192);
}
static void expect(int ret, int n) {
  int i, k, c; const u8 *rs, *ts;
  p = out;
  if (header_due) {
    x16(0xCCC0, "sync type"); x32(12, "sync length"); x32(0xCACCACCA, "magic"); x16(0x0100, "version");
    x16(0xCCC3, "context type"); x32(10, "context length"); x8(0, "context id"); x16(64, "tile size"); x8(1, "context flags");
    memset(hist, 0, sizeof hist);
  }
  x16(0xCCC1, "frame begin type"); x32(12, "frame begin length"); x32(frame, "frame number"); x16(1, "number of regions");
  rs = p; k = nq ? nq : 1;
  x16(0xCCC4, "region type"); p += 4; x8(64, "tile size"); x16((unsigned)nr, "number of rectangles"); x8((unsigned)k, "number of quantisers"); x8(0, "number of progressive quantisers"); x8(1, "region flags"); x16((unsigned)ret, "number of tiles"); p += 4;
  for (i = 0; i < nr; i++) { x16((unsigned)rg[i].x, "rectangle x"); x16((unsigned)rg[i].y, "rectangle y"); x16((unsigned)rg[i].cx, "rectangle width"); x16((unsigned)rg[i].cy, "rectangle height"); }
  for (i = 0; i < 5 * k; i++) x8(nq ? qv[i] : defq[i], "quantiser bytes");
  ts = p;
  for (i = 0; i < ret; i++) {
    const u8 *s = p; int len[3], fl;
    x16(0xCCC5, "tile type"); p += 4; x8((unsigned)tl[i].quant_y, "tile quantiser Y"); x8((unsigned)tl[i].quant_cb, "tile quantiser Cb"); x8((unsigned)tl[i].quant_cr, "tile quantiser Cr");
    x16((unsigned)tl[i].x / 64, "tile x index"); x16((unsigned)tl[i].y / 64, "tile y index"); fl = *p++; sym_assert(fl == 0 || fl == 1, "tile flags");
    for (c = 0; c < 3; c++) { len[c] = (int)rd16(p); p += 2; sym_assert(len[c] > 0, "component length is positive"); } x16(0, "tail length");
    sym_assert(p - out + (long)len[0] + len[1] + len[2] <= n, "components lie in the message");
    for (c = 0; c < 3; c++) { if (decode) component(i, c, p, len[c], fl & 1); p += len[c]; }
    if (fl) sym_cover("difference tile"); else sym_cover("original tile");
    sym_assert(rd32(s + 2) == (unsigned)(p - s), "tile length");
  }
  sym_assert(rd32(rs + 14) == (unsigned)(p - ts), "tile data size"); sym_assert(rd32(rs + 2) == (unsigned)(p - rs), "region length");
  x16(0xCCC2, "frame end type"); x32(6, "frame end length");
  sym_assert(p - out == n, "the reported length is the length of the message");
}
/* coefficient patterns of the stand-in */
static void pattern(short *o, int kind, int c) {
  int i; memset(o, 0, 8192);
  if (kind == 1) for (i = c * 7; i < 4096; i += 97) o[i] = (short)(i & 1 ? 3 : -2);
  if (kind == 2) for (i = c * 5; i < 4096; i += 211) o[i] = (short)(i & 2 ? 1 : -1);
  if (kind == 3) for (i = 4015; i < 4096; i++) o[i] = (short)(100 + c);
  if (kind == 4 || kind == 6 || kind == 7) for (i = 0; i < 4096; i++) o[i] = (short)((i * 7 + c) % 5 - 2);
  if (kind == 6) { o[5 + c] = 9; o[4090] = -7; }                    /* kind 4 with few changes */
  if (kind == 7) { o[5 + c] = 9; o[2000] += 4; o[4000 + c] = 6; }
  if (kind == 9 || kind == 10) { o[100] = 3; o[4050 + c] = 5; if (kind == 10) o[200] = 1; }   /* very short components */
  if (kind == 8) { o[7 + c] = (short)(c == 1 ? -3000 : 2000); o[1500] = (short)(900 * (c - 1)); o[4090] = 700; }   /* few values, long codes */
  if (kind == 5) for (i = 0; i < 4096; i++) o[i] = (short)(i & 1 ? 900 + i % 37 : -1100 - i % 31);   /* long components */
}
static u8 *pic; static int bufsz;
static void paint(int slot, int kind) {
  int c, x, y; u8 *b = pic + ((long)slot_y[slot] * 64 * 256 * (stride / 256) + (long)slot_x[slot] * 16384);
  lcg_s = 77u + (unsigned)slot;
  for (c = 0; c < 3; c++) for (y = 0; y < 64; y++) for (x = 0; x < 64; x++) b[4096 * c + 64 * y + x] = img(kind, c, x, y);
}
static int kinds[6];
#if STUB
/* a tree that does not transform with the function replaced here is not judged with it */
static void probe(void) {
  struct rfx_tile t = {0, 0, 64, 64, 0, 0, 0}; struct rfx_rect r = {0, 0, 64, 64}; u8 *b = sym_alloc(16384, "probe picture"), *o = sym_alloc(90000, "probe output"); int n = 90000, k; void *h = 0;
  memset(b, 128, 16384); probing = 1;
  k = rfxcodec_encode_create_ex(64, 64, 4, RFX_FLAGS_PRO1, &h); sym_assume(k == 0);
  rfxcodec_encode_ex(h, (char *)o, &n, (const char *)b, 64, 64, 256, &r, 1, &t, 1, 0, 0, 0);
  rfxcodec_encode_destroy(h); probing = 0;
  sym_assume(stub_calls == 0 || stub_calls == 3);
}
#endif
void harness(void) {
  int i, j, c, calls = sym_param("CALLS", 1), maxcap = sym_param("MAXCAP", 60000), inv = sym_param("INV", 0), posm = sym_param("POSM", 0), nk = sym_param("NK", 1), fmt = sym_param("FMT", 4);
  int symcap = sym_param("SYMCAP", 0), keym = sym_param("KEY", 1), nsym = sym_param("NSYM", 0), r, n, key, avail, failcap = sym_param("FAILCAP", 0), af = sym_param("ALLOCFAIL", 0), cyc = sym_param("CYC", 0), keyat = 0, twin = sym_param("TWIN", 0), r2, n2; void *h = 0, *h2 = 0; u8 *out2 = 0;
#if STUB
  probe();
#endif
  decode = sym_param("DEC", 1); nt = sym_param("NT", 1); nr = sym_param("NR", 1); nq = sym_param("NQ", 1); geo = sym_param("GEO", 2);
  kinds[0] = sym_param("K0", 0); kinds[1] = sym_param("K1", 4); kinds[2] = sym_param("K2", 6); kinds[3] = sym_param("K3", 1);
  out = sym_alloc((size_t)maxcap, "output");
  tl = sym_alloc(sizeof *tl * (size_t)(nt ? nt : 1), "tiles"); rg = sym_alloc(sizeof *rg * (size_t)(nr ? nr : 1), "rectangles"); qv = sym_alloc((size_t)(nq ? nq * 5 : 1), "quantisers");
  stride = 256 * geo; bufsz = STUB && geo > 4 ? 64 : 16384 * geo * geo; pic = sym_alloc((size_t)bufsz, "picture"); buf = pic; if (STUB) memset(pic, 128, (size_t)bufsz);
  r = rfxcodec_encode_create_ex(64 * geo, 64 * geo, fmt, RFX_FLAGS_PRO1 | (sym_param("NOACCEL", 0) ? RFX_FLAGS_NOACCEL : 0), &h); sym_assert(r == 0 && h, "creation succeeds");
  if (twin) { r = rfxcodec_encode_create_ex(64 * geo, 64 * geo, fmt, RFX_FLAGS_PRO1, &h2); sym_assert(r == 0 && h2, "creation succeeds"); out2 = sym_alloc((size_t)sym_param("TWINCAP", 60000), "output of the twin"); twin_ok = 1; }
#if FRAME
  { int f = sym_int("frame", 1, 0x7ffffff0); ((struct rfxencode *)h)->frame_idx = f; ((struct rfxencode *)h)->header_processed = 1; frame = (unsigned)f; header_due = 0; }
#endif
  for (i = 0; i < nr; i++) if (i < 4) { rg[i].x = sym_int("rx", 0, 65535); rg[i].y = sym_int("ry", 0, 65535); rg[i].cx = sym_int("rw", 0, 65535); rg[i].cy = sym_int("rh", 0, 65535); } else { rg[i].x = i; rg[i].y = 2 * i; rg[i].cx = 3; rg[i].cy = i & 255; }
  for (i = 0; i < 5 * nq; i++) qv[i] = (u8)(STUB ? i * 3 + 1 + (i >> 8) * 7 : i < 5 ? defq[i] : i < 10 ? 0x66 : i < 15 ? 0x98 : 0xAA);
#if STUB
  if (nq && nq <= 4) sym_bytes(qv, (size_t)nq * 5, "quant");
#endif
  if (keym == 3) keyat = sym_concrete(sym_int("keyat", 0, calls));
  for (c = 0; c < calls; c++) {
    char nm[2]; nm[0] = (char)('0' + c); nm[1] = 0;
    sym_readonly(tl, 0); if (!STUB) sym_readonly(pic, 0);
    /* pictures of the slots in use */
    for (i = 0; i < VSLOT; i++) {
      int k, used = posm == 0 ? i < nt && i < 3 : posm == 2 ? i < nt : i < sym_param("SLOTS", 2); if (!used) continue;
      if (!STUB && (slot_x[i] >= geo || slot_y[i] >= geo)) continue;
      k = kinds[nk < 2 ? 0 : cyc ? (c * cyc / 2 + i) % nk : sym_concrete(sym_int("picture", 0, nk - 1))];
#if STUB
      { int m; for (m = 0; m < 3; m++) pattern(want[i][m], k, m);
        for (m = 0; m < nsym; m++) { static const char *pn[6] = {"P0", "P1", "P2", "P3", "P4", "P5"}; int ps = sym_param(pn[m], 0), comp = ps >> 12, at = ps & 4095; sym_shorts(&want[i][comp][at], 1, "coef", -sym_param("R", 1), sym_param("R", 1)); } }
#else
      paint(i, k); slot_kind[i] = k;
#endif
    }
    for (i = 0; i < nt; i++) {
      int sl = posm == 0 ? i % 3 : posm == 2 ? i % VSLOT : sym_concrete(sym_int("slot", 0, sym_param("SLOTS", 2) - 1)), qm = (nq ? nq : 1) - 1;
      if (inv && sym_concrete(sym_int("badpos", 0, 1))) sl = VSLOT + sym_concrete(sym_int("badaxis", 0, 1));
      slot_of[i] = sl; tl[i].x = 64 * slot_x[sl]; tl[i].y = 64 * slot_y[sl]; tl[i].cx = tl[i].cy = 64;
      if (sl >= VSLOT && inv > 1) { int v = sym_int("position", -2147483647 - 1, 2147483647); sym_assume(v < 0 || v >= 4096); if (sl == VSLOT) tl[i].x = v; else tl[i].y = v; }
      tl[i].quant_y = tl[i].quant_cb = tl[i].quant_cr = 0;
      if (qm > 7) { tl[i].quant_y = qm; tl[i].quant_cb = i % nq; tl[i].quant_cr = (i * 100 + 3) % nq; if (sym_param("QSYM", 0)) { int v = sym_concrete(sym_int("q", 0, qm)), w = sym_concrete(sym_int("which", 0, 2)); *(w == 0 ? &tl[i].quant_y : w == 1 ? &tl[i].quant_cb : &tl[i].quant_cr) = v; } }
      else if (qm > 0) { if (STUB) { tl[i].quant_y = sym_int("qy", 0, qm); tl[i].quant_cb = sym_int("qb", 0, qm); tl[i].quant_cr = sym_int("qr", 0, qm); } else { tl[i].quant_y = sym_concrete(sym_int("qy", 0, qm)); tl[i].quant_cb = (tl[i].quant_y + 1) % nq; tl[i].quant_cr = (tl[i].quant_y + 2) % nq; } }
      badq[i] = inv && sym_concrete(sym_int("badquant", 0, 1));
      if (badq[i]) { int w = sym_concrete(sym_int("which", 0, 2)), v = qm + 1; if (inv > 1) { v = sym_int("quantiser", -2147483647 - 1, 2147483647); sym_assume(v < 0 || v > qm); } if (w == 0) tl[i].quant_y = v; else if (w == 1) tl[i].quant_cb = v; else tl[i].quant_cr = v; }
#if !STUB
      if (sl < VSLOT && !badq[i]) for (j = 0; j < 3; j++) rem_ref(pic + (long)slot_y[sl] * 64 * 256 * (stride / 256) + (long)slot_x[sl] * 16384 + 4096 * j, want[sl][j], qset(j == 0 ? tl[i].quant_y : j == 1 ? tl[i].quant_cb : tl[i].quant_cr));
#endif
    }
    /* tiles before the first one that cannot be coded */
    avail = 0; while (avail < nt && slot_of[avail] < VSLOT && !badq[avail]) avail++;
    key = keym == 3 ? c == keyat : keym == 2 ? sym_concrete(sym_int("key", 0, 1)) : keym == 1 ? c == 0 : 0;
    if (key) { header_due = 1; frame = 0; }
    cap = symcap & (1 << c) ? sym_int("capacity", sym_param("CAPLO", 0), sym_param("CAPHI", maxcap)) : failcap & (1 << c) ? (sym_concrete(sym_int("small", 0, 1)) ? sym_param("SMALL", 90) : maxcap) : maxcap;
    n = cap; sym_reset_high_water(out); sym_limit(out, (size_t)maxcap, (size_t)cap);
    sym_readonly(tl, 1); sym_readonly(rg, 1); sym_readonly(qv, 1); if (!STUB) sym_readonly(pic, 1);
    if (twin && twin_ok) {
      const u8 *q = out2; n2 = sym_param("TWINCAP", 60000); for (i = 0; i < nt; i++) cur_done[i] = 0;
      r2 = rfxcodec_encode_ex(h2, (char *)out2, &n2, (const char *)pic, 64 * geo, 64 * geo, stride, rg, nr, tl, nt, nq ? (const char *)qv : 0, nq, key ? RFX_FLAGS_PRO_KEY : 0);
      sym_assert(r2 == (avail ? avail : -1), "with enough space every tile is written");
      if (r2 < 0) n2 = 0;
      while (n2 && rd16(q) != 0xCCC4) q += rd32(q + 2);
      if (n2) q += 18 + 8 * nr + 5 * (nq ? nq : 1);
      for (i = 0; i < avail; i++) { q += rd32(q + 2); prefix[i + 1] = (q - out2) + 6; }
    }
    if (c == 0 && sym_param("REUSE", 0)) { /* an encoder that is gone: its blocks' contents must not matter */
      void *g = 0; n2 = maxcap; rfxcodec_encode_create_ex(64 * geo, 64 * geo, fmt, RFX_FLAGS_PRO1, &g); rfxcodec_encode_ex(g, (char *)out, &n2, (const char *)pic, 64 * geo, 64 * geo, stride, rg, nr, tl, nt, nq ? (const char *)qv : 0, nq, 0); rfxcodec_encode_destroy(g); sym_reset_high_water(out);
      sym_limit(out, (size_t)maxcap, (size_t)cap); }
    for (i = 0; i < nt; i++) cur_done[i] = 0;
    if (af) sym_alloc_may_fail(1);
    r = rfxcodec_encode_ex(h, (char *)out, &n, (const char *)pic, 64 * geo, 64 * geo, stride, rg, nr, tl, nt, nq ? (const char *)qv : 0, nq, key ? RFX_FLAGS_PRO_KEY : 0);
    if (af) sym_alloc_may_fail(0);
    sym_limit(out, (size_t)maxcap, (size_t)maxcap);
    CHECK_HW(out, cap, "nothing is written beyond the given capacity");
    sym_assert(r == -1 || (r >= 1 && r <= avail), "the result is -1 or a positive number of tiles, none of them after one that cannot be coded");
    if (!af && (long)cap >= 22 + 12 + 18 + 8 * nr + 5 * (nq ? nq : 1) + 6 + (long)avail * (22 + 3 * 9000)) sym_assert(r == (avail ? avail : -1), "with enough space every tile is written");
    if (twin && twin_ok) {
      for (i = 1; i <= avail; i++) sym_assert((long)cap < prefix[i] || r >= i, "a tile is left out only if the message up to it does not fit");
      if (r != avail) twin_ok = 0;
    }
    if (r < 0) { sym_cover("call fails"); continue; }
    sym_assert(n > 0 && n <= cap, "the reported length is within the capacity");
    if (r < nt) sym_cover("some tiles left out");
#if STUB
    for (i = 0; i < r; i++) sym_assume(cur_done[i] == 7);   /* not the case in a tree that transforms some other way */
#endif
    expect(r, n);
    if (header_due) sym_cover("header sent"); else sym_cover("header not repeated");
    header_due = 0; frame++;
  }
  (void)slot_kind; (void)lossless; if (twin) rfxcodec_encode_destroy(h2);
  rfxcodec_encode_destroy(h);
  sym_assert(sym_live() == 0, "nothing stays allocated");
}
