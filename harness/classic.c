/* Classic messages: containment, framing, session state and the prefix property.
 * The component coder is replaced by a stand-in that obeys its contract (writes at
 * most the length it reports, which is at most 11000), so that the framing code runs for
 * arbitrary component lengths; tile positions, quantiser choice, rectangles, quantiser
 * bytes, frame number, picture size and buffer capacity are symbolic. */
#include "msg.h"
#include "rfxcommon.h"
#include "rfxencode.h"
#define MAXOUT 200000
static u8 *out; static int cap; static const u8 *buf; static int bufsz;
static struct rfx_tile *tl; static struct rfx_rect *rg; static u8 *qv; static int nt, nr, nq, fmt, alpha, stride;
static const u8 defq[5] = {0x66, 0x66, 0x77, 0x88, 0x98};
static int probing, called, seq, lens[4096], posn[4096]; static int szmode;
static int pick_len(void) {
  static const int set[3] = {1, 700, 11000};
  if (szmode == 0) return 3;
  if (szmode == 1) return set[sym_concrete(sym_int("len", 0, 2))];
  return szmode;
}
static int stub(struct rfxencode *enc, const char *qt, const uint8 *data, uint8 *b, int bsize, int *size) {
  int t = seq / 3, c = seq % 3, n, i, qi;
  if (probing) { called++; b[0] = 1; *size = 1; return 0; }
  n = pick_len();
  sym_assert(t < nt, "no more components than requested");
  sym_assert(b >= out && (b - out) + (long)bsize <= (long)cap, "the component coder is given no more space than remains");
  qi = c == 0 ? tl[t].quant_y : c == 1 ? tl[t].quant_cb : tl[t].quant_cr;
  for (i = 0; i < 5; i++) sym_assert((u8)qt[i] == (nq ? qv[qi * 5 + i] : defq[i]), "the component is coded with the quantiser its tile names");
  if (fmt == RFX_FORMAT_YUV) {
    long want = ((long)tl[t].y / 64) * 64 * 256 * (stride / 256) + ((long)tl[t].x / 64) * 16384 + 4096 * c;
    sym_assert((const u8 *)data - buf == want, "the component is the named plane of the named tile");
  }
  if (n > bsize) { *size = -1; return 0; }
  b[0] = (u8)(seq * 7 + 1); b[n - 1] = (u8)(seq * 7 + (n > 1 ? 2 : 1));
  lens[seq] = n; posn[seq] = (int)(b - out); seq++;
  *size = n; return 0;
}
static const u8 *p;
static void x8(unsigned v, const char *m) { sym_assert(p[0] == (u8)v, m); p += 1; }
static void x16(unsigned v, const char *m) { sym_assert(rd16(p) == (v & 0xffff), m); p += 2; }
static void x32(unsigned v, const char *m) { sym_assert(rd32(p) == v, m); p += 4; }
static int header_due = 1, W, H, rlgr1; static unsigned frame;
static void expect(int ret, int n) {
  int i, k, et = rlgr1 ? 1 : 4; const u8 *ts; unsigned tdata = 0;
  p = out;
  if (header_due) {
    x16(0xCCC0, "sync type"); x32(12, "sync length"); x32(0xCACCACCA, "magic"); x16(0x0100, "version");
    x16(0xCCC3, "context type"); x32(13, "context length"); x8(1, "codec id"); x8(255, "channel id"); x8(0, "context id"); x16(64, "tile size"); x16(0 | 1 << 3 | 1 << 5 | et << 9 | 1 << 13, "context properties name the entropy coder");
    x16(0xCCC1, "codec versions type"); x32(10, "codec versions length"); x8(1, "number of codecs"); x8(1, "codec id"); x16(0x0100, "codec version");
    x16(0xCCC2, "channels type"); x32(12, "channels length"); x8(1, "number of channels"); x8(0, "channel id"); x16((unsigned)W, "channel width"); x16((unsigned)H, "channel height");
  }
  x16(0xCCC4, "frame begin type"); x32(14, "frame begin length"); x8(1, "codec id"); x8(0, "channel id"); x32(frame, "frame number"); x16(1, "number of regions");
  x16(0xCCC6, "region type"); x32(15u + 8u * (unsigned)nr, "region length"); x8(1, "codec id"); x8(0, "channel id"); x8(1, "region flags"); x16((unsigned)nr, "number of rectangles");
  for (i = 0; i < nr; i++) { x16((unsigned)rg[i].x, "rectangle x"); x16((unsigned)rg[i].y, "rectangle y"); x16((unsigned)rg[i].cx, "rectangle width"); x16((unsigned)rg[i].cy, "rectangle height"); }
  x16(0xCAC1, "region subtype"); x16(1, "number of tilesets");
  ts = p; k = nq ? nq : 1;
  x16(alpha ? 0xDDD7 : 0xCCC7, "tileset type"); p += 4; x8(1, "codec id"); x8(0, "channel id"); x16(0xCAC2, "tileset subtype"); x16(0, "tileset index");
  x16(1 | 1 << 4 | 1 << 6 | et << 10 | 1 << 14, "tileset properties name the entropy coder"); x8((unsigned)k, "number of quantisers"); x8(64, "tile size"); x16((unsigned)ret, "number of tiles"); p += 4;
  for (i = 0; i < 5 * k; i++) x8(nq ? qv[i] : defq[i], "quantiser bytes");
  for (i = 0; i < ret; i++) {
    const u8 *s = p; int y = lens[3 * i], cb = lens[3 * i + 1], cr = lens[3 * i + 2], a = 0, hdr = alpha ? 21 : 19, real;
    x16(0xCAC3, "tile type"); p += 4; x8((unsigned)tl[i].quant_y, "tile quantiser Y"); x8((unsigned)tl[i].quant_cb, "tile quantiser Cb"); x8((unsigned)tl[i].quant_cr, "tile quantiser Cr");
    x16((unsigned)tl[i].x / 64, "tile x index"); x16((unsigned)tl[i].y / 64, "tile y index"); x16((unsigned)y, "Y length"); x16((unsigned)cb, "Cb length"); x16((unsigned)cr, "Cr length");
    if (alpha) { a = (int)rd16(p); p += 2; }
    sym_assert(p - out == posn[3 * i], "Y data follows the tile header"); sym_assert(posn[3 * i + 1] == posn[3 * i] + y && posn[3 * i + 2] == posn[3 * i + 1] + cb, "component data is contiguous");
    for (k = 0; k < 3; k++) { int q = 3 * i + k; const u8 *d = out + posn[q]; sym_assert(d[lens[q] - 1] == (u8)(q * 7 + (lens[q] > 1 ? 2 : 1)) && (lens[q] == 1 || d[0] == (u8)(q * 7 + 1)), "component data is the coder's output"); }
    p += y + cb + cr;
    real = 0;
    if (alpha) { const u8 *ad = p; sym_assert(ad[0] == 0 || ad[0] == 0x10, "alpha plane format byte"); real = ad[0] == 0x10 ? a + 1 : 4098; sym_assert(ad[0] == 0x10 || a == 4098, "raw alpha length"); p += real; }
    if (alpha) {
      sym_assert(rd32(s + 2) == (unsigned)(hdr + y + cb + cr + real) || rd32(s + 2) == (unsigned)(19 + y + cb + cr + a), "tile length with alpha");
      sym_known(rd32(s + 2) == (unsigned)(hdr + y + cb + cr + real), "alpha-tile-length", "an ALPHAV1 tile's block length covers the whole tile");
    } else sym_assert(rd32(s + 2) == (unsigned)(hdr + y + cb + cr), "tile length");
    tdata += (unsigned)(p - s);
  }
  sym_assert(rd32(ts + 18) == tdata, "tile data size"); sym_assert(rd32(ts + 2) == (unsigned)(p - ts), "tileset length");
  x16(0xCCC5, "frame end type"); x32(8, "frame end length"); x8(1, "codec id"); x8(0, "channel id");
  sym_assert(p - out == n, "the reported length is the length of the message");
}
/* a tree that does not code components through the function replaced here is not judged with it */
static void probe(void) {
  struct rfx_tile t = {0, 0, 64, 64, 0, 0, 0}; struct rfx_rect r = {0, 0, 64, 64}; u8 *b = sym_alloc(16384, "probe picture"), *o = sym_alloc(90000, "probe output"); int n = 90000, k; void *h = 0;
  memset(b, 128, 16384); probing = 1;
  k = rfxcodec_encode_create_ex(64, 64, 4, RFX_FLAGS_NOACCEL, &h); sym_assume(k == 0); ((struct rfxencode *)h)->rfx_encode = stub;
  rfxcodec_encode(h, (char *)o, &n, (const char *)b, 64, 64, 256, &r, 1, &t, 1, 0, 0);
  rfxcodec_encode_destroy(h); probing = 0;
  sym_assume(called == 3);
}
void harness(void) {
  int i, c, calls = sym_param("CALLS", 1), maxcap = sym_param("MAXCAP", MAXOUT), flags, geo = sym_param("GEO", 4); struct rfxencode *e; void *h = 0;
  const char *cbuf; int symcap = sym_param("SYMCAP", 1), r, n, reveal, amode, nqmax, ntmax, nrmax; u8 *ib;
  probe();
  fmt = sym_param("FMT", 4); alpha = sym_param("ALPHA", 0); nt = sym_param("NT", 2); nr = sym_param("NR", 1); nq = sym_param("NQ", 2); szmode = sym_param("SZ", 1);
  amode = alpha; nqmax = nq; ntmax = nt; nrmax = nr;
  rlgr1 = sym_param("RLGR1", -1); if (rlgr1 < 0) rlgr1 = sym_concrete(sym_int("rlgr1", 0, 1));
  out = sym_alloc((size_t)maxcap, "output");
  tl = sym_alloc(sizeof *tl * (size_t)(nt ? nt : 1), "tiles"); rg = sym_alloc(sizeof *rg * (size_t)(nr ? nr : 1), "rectangles"); qv = sym_alloc((size_t)(nq ? nq * 5 : 1), "quantisers");
  W = sym_int("width", 1, 65535); H = sym_int("height", 1, 65535);
  flags = rlgr1 ? RFX_FLAGS_RLGR1 : 0; if (sym_concrete(sym_int("noaccel", 0, 1))) flags |= RFX_FLAGS_NOACCEL;
  r = rfxcodec_encode_create_ex(W, H, fmt, flags, &h); sym_assert(r == 0 && h, "creation succeeds");
  e = h; e->rfx_encode = stub;
  if (sym_param("SYMFRAME", 1)) { int f = sym_int("frame", 0, 0x7ffffff0); if (sym_concrete(f != 0)) { sym_assume(f > 0); e->frame_idx = f; e->header_processed = 1; e->properties = 1 | 1 << 4 | 1 << 6 | (rlgr1 ? 1 : 4) << 10 | 1 << 14; frame = (unsigned)f; header_due = 0; } }
  /* picture */
  if (fmt == RFX_FORMAT_YUV) { stride = 256 * geo; bufsz = alpha ? 16384 * geo * geo : 64; } else { int bpp = fmt <= 1 ? 4 : 3; stride = 64 * geo * bpp + 4; bufsz = stride * (64 * geo - 1) + 64 * geo * bpp; }
  ib = sym_alloc((size_t)bufsz, "picture"); buf = ib; { int ak = sym_param("AIMG", 0); for (i = 0; i < bufsz; i++) ib[i] = ak ? (u8)lcg() : (u8)0x55; }
  for (i = 0; i < nt; i++) {
    int qm = nq > 1 ? nq - 1 : 1; tl[i].cx = tl[i].cy = 64;
    if (fmt == RFX_FORMAT_YUV && !alpha) { tl[i].x = 64 * sym_int("tx", 0, 1023); tl[i].y = 64 * sym_int("ty", 0, 1023); }
    else { tl[i].x = 64 * (i % geo); tl[i].y = 64 * ((i / geo) % geo); }
    if (nq > 8) { tl[i].quant_y = i % nq; tl[i].quant_cb = (i * 7 + 3) % nq; tl[i].quant_cr = nq - 1 - i % nq; if (sym_param("QSYM", 0) && i == 0) { int v = sym_concrete(sym_int("q", 0, nq - 1)), w = sym_concrete(sym_int("which", 0, 2)); *(w == 0 ? &tl[i].quant_y : w == 1 ? &tl[i].quant_cb : &tl[i].quant_cr) = v; } }
    else if (nq > 1 && i < 8) { tl[i].quant_y = sym_int("qy", 0, qm); tl[i].quant_cb = sym_int("qb", 0, qm); tl[i].quant_cr = sym_int("qr", 0, qm); } else tl[i].quant_y = tl[i].quant_cb = tl[i].quant_cr = 0;
  }
  for (i = 0; i < nr; i++) if (i < 8) { rg[i].x = sym_int("rx", 0, 65535); rg[i].y = sym_int("ry", 0, 65535); rg[i].cx = sym_int("rw", 0, 65535); rg[i].cy = sym_int("rh", 0, 65535); } else { rg[i].x = i; rg[i].y = 2 * i; rg[i].cx = 3; rg[i].cy = i & 255; }
  if (nq) { if (nq <= 8) sym_bytes(qv, (size_t)nq * 5, "quant"); else for (i = 0; i < 5 * nq; i++) qv[i] = (u8)(i * 3 + (i >> 8) * 7); }
  sym_readonly(ib, 1); sym_readonly(tl, 1); sym_readonly(rg, 1); sym_readonly(qv, 1);
  cbuf = (const char *)ib; (void)cbuf; (void)reveal;
  for (c = 0; c < calls; c++) {
    int sufficient;
    if (amode == 2) alpha = sym_concrete(sym_int("alpha", 0, 1));
    if (sym_param("QVAR", 0)) nq = sym_concrete(sym_int("quantisers", 0, 1)) ? nqmax : 0;
    if (sym_param("NVAR", 0)) nt = sym_concrete(sym_int("tiles", 0, ntmax));
    if (sym_param("RVAR", 0)) nr = sym_concrete(sym_int("rectangles", 0, nrmax));
    sufficient = header_due * 47 + 14 + 15 + 8 * nr + 22 + 5 * (nq ? nq : 1) + 8;
    cap = symcap ? sym_int("capacity", 0, maxcap) : maxcap; n = cap; seq = 0; sym_reset_high_water(out);
    sym_limit(out, (size_t)maxcap, (size_t)cap);
    if (alpha) r = rfxcodec_encode_ex(h, (char *)out, &n, (const char *)ib, 64 * geo, 64 * geo, stride, rg, nr, tl, nt, nq ? (const char *)qv : 0, nq, RFX_FLAGS_ALPHAV1);
    else r = rfxcodec_encode(h, (char *)out, &n, (const char *)ib, 64 * geo, 64 * geo, stride, rg, nr, tl, nt, nq ? (const char *)qv : 0, nq);
    sym_limit(out, (size_t)maxcap, (size_t)maxcap);
    CHECK_HW(out, cap, "nothing is written beyond the given capacity");
    sym_assert(r >= -1 && r <= nt, "the result is -1 or a number of tiles");
    if (r < 0) { sym_cover("call fails"); sym_assert(cap < sufficient, "the call fails only when the message without tiles does not fit"); continue; }
    sym_assert(n > 0 && n <= cap, "the reported length is within the capacity");
    if (r < nt) { long left = (long)cap - (n - 8) - (alpha ? 21 : 19); int k; for (k = 3 * r; k < seq; k++) left -= lens[k]; sym_cover(r ? "some tiles fit" : "no tile fits"); sym_assert(left < 25000, "tiles are left out only for lack of space"); } else sym_cover("all tiles fit");
    expect(r, n);
    if (header_due) sym_cover("header sent"); else sym_cover("header not repeated");
    header_due = 0; frame++;
  }
  rfxcodec_encode_destroy(h);
}
