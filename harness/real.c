/* Whole classic messages, decoded: every tile's components decode (with the entropy coder the
 * message names) to the quantised transform of that tile's planes, for every processor, flag
 * combination and tile/quantiser choice, over pictures chosen symbolically.  Nothing of the
 * library is replaced, except that with -DKSTUB=1 the assembly kernels are stand-ins with
 * their contract (they record that they ran) and the processor's features are symbolic. */
#include "msg.h"
#include "rlgr_ref.h"
#include "dwt_ref.h"
#include "pixel_ref.h"
#include "alpha_ref.h"
#ifndef KSTUB
#define KSTUB 0
#endif
static int ran2, ran41;
static u8 ref[4][4096]; static short want[4096], dec[4096]; static u8 adec[4096];
static void reference(const u8 *plane, const u8 *q, short *o) { int i; dwt_ref(plane, o); for (i = 0; i < 4096; i++) o[i] = (short)quant_ref(o[i], q_nibble(q, q_index_classic(i))); }
#if KSTUB
int rfxcodec_encode_dwt_shift_amd64_sse2(const char *q, const u8 *d, short *o, short *w) { ran2++; reference(d, (const u8 *)q, o); return 0; }
int rfxcodec_encode_dwt_shift_amd64_sse41(const char *q, const u8 *d, short *o, short *w) { ran41++; reference(d, (const u8 *)q, o); return 0; }
#elif !defined(NATIVE)
extern int rfxcodec_encode_dwt_shift_amd64_sse2(); extern int rfxcodec_encode_dwt_shift_amd64_sse41();
#endif
#define MAXT 16
static const u8 defq[5] = {0x66, 0x66, 0x77, 0x88, 0x98};
static u8 *pic; static long stride, sz; static int fmt, w, h, bpp, across;
static void paint(int kind) {
  int x, y, c; lcg_s = 99;
  memset(pic, 0x77, (size_t)sz);
  if (fmt == 4) { int t; for (t = 0; t < (int)(sz / 16384) ; t++) for (c = 0; c < 4; c++) for (y = 0; y < 64; y++) for (x = 0; x < 64; x++) pic[t * 16384 + c * 4096 + 64 * y + x] = (u8)(img(kind, c, x, y) + t * 9); return; }
  for (y = 0; y < h; y++) for (x = 0; x < w; x++) for (c = 0; c < bpp; c++) pic[y * stride + x * bpp + c] = (u8)(img(kind, c, x & 63, y & 63) + (x / 64) * 9 + (y / 64) * 23);
}
void harness(void) {
  struct rfx_tile *t; struct rfx_rect *rg = sym_alloc(sizeof *rg, "rectangle"); u8 *qv, *out; const u8 *p, *ts; void *hd = 0;
  int i, j, c, call, calls = sym_param("CALLS", 1), nt = sym_param("NT", 1), nq = sym_param("NQ", 1), ntmax = nt, nqmax = nq, amode = sym_param("ALPHA", 0), alpha = amode, nk = sym_param("NK", 1), order = sym_param("ORDER", 0);
  int k0 = sym_param("K0", 1), pad = sym_param("PAD", 0), acc = sym_param("ACC", 0), flags = 0, r, n, rlgr1, noaccel, maxcap = sym_param("MAXCAP", 300000), cap, tot, header = 1, mode, tiles_down, encs = sym_param("ENCS", 1), rl0, hdr[2] = {1, 1}, frame[2] = {0, 0}; void *hds[2];
  fmt = sym_param("FMT", 0); w = sym_param("W", 64); h = sym_param("H", 64); bpp = px_bytes(fmt); across = (w + 63) / 64; tiles_down = (h + 63) / 64; tot = across * tiles_down;
  out = sym_alloc((size_t)maxcap, "output"); t = sym_alloc(sizeof *t * (size_t)nt, "tiles"); qv = sym_alloc((size_t)(nq ? 5 * nq : 1), "quantisers");
  if (fmt == 4) { stride = 256L * across; sz = 16384L * tot - (alpha ? 0 : 4096); } else { stride = (long)w * bpp + pad; sz = stride * (h - 1) + (long)w * bpp; }
  pic = sym_alloc((size_t)sz, "picture");
  if (fmt == 4 && !amode) sz -= 12288; /* paint() works in whole tiles */
  for (i = 0; i < 5 * nq; i++) qv[i] = (u8)(i < 5 ? 0x66 : i < 10 ? 0xA6 + (i & 3) * 0x11 : i < 15 ? 0xFF - (i & 7) : defq[i % 5]);
  if (sym_param("QSET", 0)) for (i = 0; i < 5 * nq; i++) qv[i] = i % 5 == i / 5 - 1 ? 0x6A : 0x88;   /* sets that differ from the first in one byte */
  /* processor and flags */
  rlgr1 = sym_concrete(sym_int("rlgr1", 0, 1)); noaccel = acc == 0 ? 1 : acc == 3 ? sym_concrete(sym_int("noaccel", 0, 1)) : 0;
#if KSTUB
  if (acc == 3) {  /* bits outside the mask are fixed, to 1 or to 0 */
    int m = sym_param("ECXMASK", -1), fix = sym_concrete(sym_int("others", 0, 1)) ? -1 : 0;
    cpu_1_ecx = sym_int("ecx", -2147483647 - 1, 2147483647); cpu_1_edx = sym_int("edx", -2147483647 - 1, 2147483647); cpu_ext_ecx = m == -1 ? sym_int("extecx", -2147483647 - 1, 2147483647) : fix;
    if (m != -1) { cpu_1_ecx = (cpu_1_ecx & m) | (fix & ~m); cpu_1_edx = (cpu_1_edx & 1 << 26) | (fix & ~(1 << 26)); }
  }
#endif
  if (acc == 1) cpu_1_edx = 1 << 26; if (acc == 2) { cpu_1_edx = 1 << 26; cpu_1_ecx = 1 << 19; }
  flags = (rlgr1 ? RFX_FLAGS_RLGR1 : 0) | (noaccel ? RFX_FLAGS_NOACCEL : 0);
  r = rfxcodec_encode_create_ex(w, h, fmt, flags, &hd); sym_assert(r == 0 && hd, "creation succeeds"); hds[0] = hds[1] = hd; rl0 = rlgr1;
  if (encs > 1) { r = rfxcodec_encode_create_ex(w, h, fmt, flags ^ RFX_FLAGS_RLGR1, &hds[1]); sym_assert(r == 0 && hds[1] && hds[1] != hd, "creation succeeds"); }
  for (call = 0; call < calls; call++) {
    int kind = k0 + (nk > 1 ? sym_concrete(sym_int("picture", 0, nk - 1)) : call), first = order == 2 ? sym_concrete(sym_int("first", 0, tot - 1)) : 0;
    if (amode == 2) alpha = sym_concrete(sym_int("alpha", 0, 1));
    if (sym_param("QVAR", 0)) nq = sym_concrete(sym_int("quantisers", 0, 1)) ? nqmax : 0;
    if (sym_param("NVAR", 0)) nt = sym_concrete(sym_int("tiles", 1, ntmax));
    int e = encs > 1 ? sym_concrete(sym_int("encoder", 0, 1)) : 0; hd = hds[e]; rlgr1 = rl0 ^ e; header = hdr[e];
    sym_readonly(pic, 0); sym_readonly(t, 0); sym_readonly(rg, 0); sym_readonly(qv, 0);
    if (fmt == 4 && !amode) { int keep = (int)sz; sz = 16384L * tot - 16384; paint(kind); for (c = 0; c < 3; c++) for (i = 0; i < 4096; i++) pic[sz + c * 4096 + i] = (u8)(img(kind, c, i & 63, i >> 6) + (tot - 1) * 9); sz = keep; } else paint(kind);
    for (i = 0; i < nt; i++) {
      int s = order == 1 ? tot - 1 - i % tot : (first + i) % tot; t[i].x = 64 * (s % across); t[i].y = 64 * (s / across);
      t[i].cx = t[i].x + 64 <= w ? 64 : w - t[i].x; t[i].cy = t[i].y + 64 <= h ? 64 : h - t[i].y;
      if (nq > 1) { t[i].quant_y = i == 0 ? sym_concrete(sym_int("qy", 0, nq - 1)) : (t[i - 1].quant_y + 1) % nq; t[i].quant_cb = (t[i].quant_y + 1 + call) % nq; t[i].quant_cr = (t[i].quant_y + 2) % nq; if (sym_param("QSET", 0)) { t[i].quant_cb = i ? (t[i - 1].quant_cb + 2) % nq : sym_concrete(sym_int("qb", 0, nq - 1)); t[i].quant_cr = t[i].quant_y; } } else t[i].quant_y = t[i].quant_cb = t[i].quant_cr = 0;
    }
    rg->x = rg->y = 0; rg->cx = w; rg->cy = h;
    sym_readonly(pic, 1); sym_readonly(t, 1); sym_readonly(rg, 1); sym_readonly(qv, 1);
    cap = sym_param("SYMCAP", 0) ? sym_int("capacity", sym_param("MINCAP", 0), maxcap) : maxcap; n = cap; ran2 = ran41 = 0;
    sym_reset_high_water(out); sym_limit(out, (size_t)maxcap, (size_t)cap);
    if (alpha) r = rfxcodec_encode_ex(hd, (char *)out, &n, (const char *)pic, w, h, (int)stride, rg, 1, t, nt, nq ? (const char *)qv : 0, nq, RFX_FLAGS_ALPHAV1);
    else r = rfxcodec_encode(hd, (char *)out, &n, (const char *)pic, w, h, (int)stride, rg, 1, t, nt, nq ? (const char *)qv : 0, nq);
    sym_limit(out, (size_t)maxcap, (size_t)maxcap);
    CHECK_HW(out, cap, "nothing is written beyond the given capacity");
    if (!sym_param("SYMCAP", 0)) sym_assert(r == nt, "every tile is coded");
    sym_assert(r >= -1 && r <= nt, "the result is -1 or a number of tiles");
    if (r < 0) { sym_cover("call fails"); sym_assert(cap < 47 + 14 + 23 + 22 + 5 * (nq ? nq : 1) + 8, "the call fails only when the message without tiles does not fit"); continue; }
    sym_assert(n > 0 && n <= cap, "the reported length is within the capacity");
    if (r < nt) { sym_cover("some tiles left out"); sym_assert((long)cap - n < 21 + 2 * 11000 + 25000, "tiles are left out only for lack of space"); } else sym_cover("all tiles coded");
#if KSTUB
    sym_assert(!(noaccel && (ran2 || ran41)), "no accelerated code runs when acceleration is disabled");
    sym_assert(!ran2 || (cpu_1_edx >> 26 & 1), "SSE2 code runs only on a processor with SSE2"); sym_assert(!ran41 || (cpu_1_ecx >> 19 & 1), "SSE4.1 code runs only on a processor with SSE4.1");
    sym_cover(ran2 ? "sse2 kernel" : ran41 ? "sse41 kernel" : "portable transform");
#endif
    /* the message: header once, entropy coder as asked */
    p = out;
    if (header) { sym_assert(rd16(p) == 0xCCC0 && rd16(p + 12) == 0xCCC3, "the first message starts with the header"); mode = (int)(rd16(p + 12 + 11) >> 9) & 15; sym_assert(mode == (rlgr1 ? 1 : 4), "the header names the entropy coder asked for"); sym_assert((rd16(p + 23) & ~(15u << 9)) == 0x2028, "the header's other properties"); p += 47; hdr[e] = 0; }
    sym_assert(rd16(p) == 0xCCC4, "frame begin type"); sym_assert((int)rd32(p + 8) == frame[e], "frame number"); frame[e]++; p += 14; sym_assert(rd16(p) == 0xCCC6, "region type"); p += rd32(p + 2);
    ts = p; sym_assert(rd16(ts) == (alpha ? 0xDDD7 : 0xCCC7), "tileset type"); mode = (int)(rd16(ts + 12) >> 10) & 15; sym_assert(mode == (rlgr1 ? 1 : 4), "the tileset names the entropy coder asked for"); sym_assert((rd16(ts + 12) & ~(15u << 10)) == 0x4051, "the tileset's other properties");
    sym_assert((int)rd16(ts + 16) == r, "number of tiles"); sym_assert(ts[14] == (nq ? nq : 1), "number of quantisers");
    p = ts + 22; for (i = 0; i < 5 * (nq ? nq : 1); i++) sym_assert(p[i] == (nq ? qv[i] : defq[i]), "quantiser bytes"); p += 5 * (nq ? nq : 1);
    for (i = 0; i < r; i++) {
      const u8 *d; const u8 *org = fmt == 4 ? pic + ((long)(t[i].y / 64) * across + t[i].x / 64) * 16384 : pic + t[i].y * stride + (long)t[i].x * bpp;
      sym_assert(p + 19 <= out + n && rd16(p) == 0xCAC3, "tile type"); sym_assert(p[6] == t[i].quant_y && p[7] == t[i].quant_cb && p[8] == t[i].quant_cr, "tile quantisers");
      sym_assert((int)rd16(p + 9) == t[i].x / 64 && (int)rd16(p + 11) == t[i].y / 64, "tile position");
      planes_ref(fmt, alpha, org, stride, t[i].cx, t[i].cy, ref);
      d = p + (alpha ? 21 : 19);
      for (j = 0; j < 3; j++) {
        int len = (int)rd16(p + 13 + 2 * j), qi = p[6 + j], over = 0, got;
        sym_assert(len > 0 && d + len <= out + n, "component lies in the message");
        got = rlgr_ref_decode(rlgr1 ? 1 : 3, d, len, dec, 4096, &over); sym_assert(got == 4096 && over == 0, "component decodes to one tile");
        for (c = 4033; c < 4096; c++) dec[c] = (short)(dec[c] + dec[c - 1]);
        reference(ref[j], nq ? qv + 5 * qi : defq, want);
        for (c = 0; c < 4096; c++) sym_assert(dec[c] == want[c], "the component is the quantised transform of the tile's plane");
        d += len;
      }
      if (alpha) {
        int used = alpha_ref_decode(d, (int)(out + n - d), adec); sym_assert(used > 0, "the alpha plane decodes");
        for (c = 0; c < 4096; c++) sym_assert(adec[c] == ref[3][c], "the alpha plane is that of the tile's pixels");
        d += used + (d[0] ? 0 : 1);
      }
      p = d;
    }
    sym_assert(rd32(ts + 2) == (unsigned)(p - ts), "tileset length"); sym_assert(rd16(p) == 0xCCC5 && p + 8 == out + n, "the message ends with the frame end");
  }
  rfxcodec_encode_destroy(hds[0]); if (encs > 1) rfxcodec_encode_destroy(hds[1]);
  sym_assert(sym_live() == 0, "nothing stays allocated");
}
