/* Creating and destroying encoders: arbitrary size, format and flags, allocation failing
 * or not; nothing leaks, a rejected request leaves nothing behind. */
#include "msg.h"
#ifndef NATIVE
extern int rfxcodec_encode_dwt_shift_amd64_sse2(); extern int rfxcodec_encode_dwt_shift_amd64_sse41();
#endif
static u8 pic[16384], out[200000];
void harness(void) {
  static const u8 q[5] = {0x66, 0x66, 0x77, 0x88, 0x98}; struct rfx_tile t = {0, 0, 64, 64, 0, 0, 0}; struct rfx_rect rg = {0, 0, 64, 64};
  int r, n, i, w = sym_int("width", -100000, 100000), h = sym_int("height", -100000, 100000), fmt = sym_int("format", -2147483647 - 1, 2147483647), flags = sym_int("flags", 0, 1023), what = sym_param("WHAT", 0);
  int valid = sym_concrete(fmt >= 0 && fmt <= 4), pro, before = sym_live(); void *hd = (void *)pic, *h2;
  cpu_1_edx = 1 << 26;
  pro = sym_concrete((flags & RFX_FLAGS_PRO1) != 0);
  if (what == 0) {           /* create_ex */
    sym_alloc_may_fail(1); r = rfxcodec_encode_create_ex(w, h, fmt, flags, &hd); sym_alloc_may_fail(0);
    if (r == 0) { sym_assert(valid, "an unknown pixel format is refused"); sym_assert(hd != 0 && hd != (void *)pic, "success delivers an encoder"); sym_cover("created"); }
    else { sym_cover(valid ? "out of memory" : "format refused"); sym_assert(sym_live() == before, "a failed creation leaves nothing allocated"); return; }
    rfxcodec_encode_destroy(hd); sym_assert(sym_live() == before, "destroying an encoder releases everything");
  } else if (what == 1) {    /* create, and two encoders are independent */
    hd = rfxcodec_encode_create(w, h, fmt, flags); sym_assert((hd != 0) == valid, "creation succeeds exactly for the known formats");
    if (!hd) { sym_assert(sym_live() == before, "a failed creation leaves nothing allocated"); sym_cover("format refused"); return; }
    h2 = rfxcodec_encode_create(w, h, fmt, flags); sym_assert(h2 != 0 && h2 != hd, "a second encoder is a different one");
    rfxcodec_encode_destroy(hd); rfxcodec_encode_destroy(0); rfxcodec_encode_destroy(h2); sym_assert(sym_live() == before, "destroying an encoder releases everything"); sym_cover("created");
  } else {                   /* use, with allocation failing anywhere, then destroy */
    int key, calls = sym_param("CALLS", 2); sym_assume(valid); sym_assume(fmt == RFX_FORMAT_YUV); sym_assume((flags & 63) <= 1);
    if (!pro) flags |= RFX_FLAGS_NOACCEL;
    for (i = 0; i < 16384; i++) pic[i] = (u8)(i * 3);
    sym_alloc_may_fail(1); r = rfxcodec_encode_create_ex(64, 64, fmt, flags, &hd);
    if (r) { sym_assert(sym_live() == before, "a failed creation leaves nothing allocated"); sym_cover("out of memory"); return; }
    for (i = 0; i < calls; i++) {
      key = i && pro ? sym_concrete(sym_int("key", 0, 1)) : 0; n = sizeof out;
      r = rfxcodec_encode_ex(hd, (char *)out, &n, (const char *)pic, 64, 64, 256, &rg, 1, &t, 1, (const char *)q, 1, key ? RFX_FLAGS_PRO_KEY : 0);
      sym_assert(r == 1 || r == -1, "the call succeeds or fails"); sym_assert(r == 1 || pro, "only progressive coding allocates while encoding"); sym_cover(r == 1 ? "encoded" : "encoding out of memory");
    }
    sym_alloc_may_fail(0);
    rfxcodec_encode_destroy(hd); sym_assert(sym_live() == before, "destroying an encoder releases everything");
  }
}
