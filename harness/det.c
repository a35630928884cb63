/* The message is a function of the request and of the earlier calls: two encoders of the same
 * kind, given the same sequence of requests, deliver the same bytes, whatever the output
 * buffers, the heap and the stack held before; and encode calls, once an encoder has been used,
 * leave the library's own global data as it was, so that encoders can be used concurrently.
 * params: PRO, ALPHA, FMT, W, H, NT, NQ, CALLS, KEY, SYMCAP, MAXCAP, K0, NK, ACC */
#include "msg.h"
#ifndef NATIVE
extern int rfxcodec_encode_dwt_shift_amd64_sse2(); extern int rfxcodec_encode_dwt_shift_amd64_sse41();
#endif
static int px(int fmt) { return fmt == 2 || fmt == 3 ? 3 : 4; }
void harness(void) {
  int pro = sym_param("PRO", 0), alpha = sym_param("ALPHA", 0), fmt = sym_param("FMT", 4), w = sym_param("W", 64), h = sym_param("H", 64), nt = sym_param("NT", 1), nq = sym_param("NQ", 1), nqmax = nq, ntmax = nt, calls = sym_param("CALLS", 2), maxcap = sym_param("MAXCAP", 90000), k0 = sym_param("K0", 0), nk = sym_param("NK", 2), acc = sym_param("ACC", 0), glob = sym_param("GLOBALS", 0);
  int i, j, c, x, y, call, across = (w + 63) / 64, tot = across * ((h + 63) / 64), bpp = px(fmt), r[2], n[2], cap, flags, ef; void *hd[2]; u8 *out[2], *pic; long stride, sz; struct rfx_tile *t; struct rfx_rect rg; u8 *qv;
  stride = fmt == 4 ? 256L * across : (long)w * bpp; sz = fmt == 4 ? 16384L * tot : stride * h;
  pic = sym_alloc((size_t)sz, "picture"); out[0] = sym_alloc((size_t)maxcap, "first output"); out[1] = sym_alloc((size_t)maxcap, "second output"); t = sym_alloc(sizeof *t * (size_t)nt, "tiles"); qv = sym_alloc((size_t)(5 * nq), "quantisers");
  for (i = 0; i < 5 * nq; i++) qv[i] = (u8)(0x66 + 0x11 * (i % 5) + (i / 5));
  if (acc) cpu_1_edx = 1 << 26; if (acc == 2) cpu_1_ecx = 1 << 19;
  flags = (pro ? RFX_FLAGS_PRO1 : 0) | (acc ? 0 : RFX_FLAGS_NOACCEL) | (sym_concrete(sym_int("rlgr1", 0, 1)) ? RFX_FLAGS_RLGR1 : 0);
  for (j = 0; j < 2; j++) { i = rfxcodec_encode_create_ex(w, h, fmt, flags, &hd[j]); sym_assert(i == 0 && hd[j], "creation succeeds"); }
  if (sym_param("REUSE", 0)) { /* an encoder that is gone: its blocks' contents must not matter */
    void *g = 0; lcg_s = 7u; for (c = 0; c < 4; c++) for (y = 0; y < 64; y++) for (x = 0; x < 64; x++) pic[c * 4096 + 64 * y + x] = (u8)img(k0, c, x, y);
    t[0].x = t[0].y = 0; t[0].cx = t[0].cy = 64; t[0].quant_y = 0; t[0].quant_cb = nq > 1; t[0].quant_cr = 0; rg.x = rg.y = 0; rg.cx = w; rg.cy = h; n[0] = maxcap;
    rfxcodec_encode_create_ex(w, h, fmt, flags, &g); rfxcodec_encode_ex(g, (char *)out[0], &n[0], (const char *)pic, w, h, (int)stride, &rg, 1, t, 1, nq ? (const char *)qv : 0, nq, alpha ? RFX_FLAGS_ALPHAV1 : 0); rfxcodec_encode_destroy(g);
    rfxcodec_encode_destroy(hd[1]); i = rfxcodec_encode_create_ex(w, h, fmt, flags, &hd[1]); sym_assert(i == 0 && hd[1], "creation succeeds");
  }
  for (call = 0; call < calls; call++) {
    int kind = k0 + (nk > 1 ? sym_concrete(sym_int("picture", 0, nk - 1)) : call); lcg_s = 7u;
    if (sym_param("ALPHA", 0) == 2) alpha = sym_concrete(sym_int("alpha", 0, 1));
    if (sym_param("QVAR", 0)) nq = sym_concrete(sym_int("quantisers", 0, 1)) ? nqmax : 0;
    if (sym_param("NVAR", 0)) nt = sym_concrete(sym_int("tiles", 1, ntmax));
    ef = (alpha ? RFX_FLAGS_ALPHAV1 : 0) | (pro && call && sym_param("KEY", 0) && sym_concrete(sym_int("key", 0, 1)) ? RFX_FLAGS_PRO_KEY : 0);
    if (fmt == 4) for (i = 0; i < tot; i++) for (c = 0; c < 4; c++) for (y = 0; y < 64; y++) for (x = 0; x < 64; x++) pic[i * 16384 + c * 4096 + 64 * y + x] = (u8)(img(kind, c, x, y) + 9 * i);
    else for (y = 0; y < h; y++) for (x = 0; x < w; x++) for (c = 0; c < bpp; c++) pic[y * stride + x * bpp + c] = (u8)(img(kind, c, x & 63, y & 63) + (x / 64) * 9);
    for (i = 0; i < nt; i++) { int s = i % tot; t[i].x = 64 * (s % across); t[i].y = 64 * (s / across); t[i].cx = t[i].x + 64 <= w ? 64 : w - t[i].x; t[i].cy = t[i].y + 64 <= h ? 64 : h - t[i].y; t[i].quant_y = nq ? i % nq : 0; t[i].quant_cb = nq ? (i + 1) % nq : 0; t[i].quant_cr = 0; }
    rg.x = rg.y = 0; rg.cx = w; rg.cy = h;
    cap = sym_param("SYMCAP", 0) && call == 0 ? sym_int("capacity", 0, maxcap) : maxcap;
    for (j = 0; j < 2; j++) {
      memset(out[j], j ? 0xFF : 0, (size_t)maxcap); n[j] = cap;
      if (glob && (call || j)) sym_globals_mark();
      r[j] = rfxcodec_encode_ex(hd[j], (char *)out[j], &n[j], (const char *)pic, w, h, (int)stride, &rg, 1, t, nt, nq ? (const char *)qv : 0, nq, ef);
      if (glob && (call || j)) sym_assert(sym_globals_changed() == 0, "an encode call leaves no trace in data shared by all encoders");
    }
    if (!glob) sym_assert(r[0] == r[1], "the result depends on the request only");
    if (glob) { sym_cover("calls compared"); continue; }
    if (r[0] < 0) { sym_cover("call fails"); continue; }
    sym_assert(n[0] == n[1], "the length depends on the request only"); sym_assert(n[0] > 0 && n[0] <= cap, "the reported length is within the capacity");
    sym_equal(out[0], out[1], (size_t)sym_concrete(n[0]), 1, "every byte of the message depends on the request only"); sym_cover("messages compared");
  }
  rfxcodec_encode_destroy(hd[0]); rfxcodec_encode_destroy(hd[1]);
}
