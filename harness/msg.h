/* Shared by the message-level harnesses. */
#ifndef MSG_H
#define MSG_H
#include "sym.h"
#include "rfxcodec_encode.h"
#include "rfxcodec_common.h"
#include <string.h>
#include <stdint.h>
/* the processor: features are chosen by the harness */
static int cpu_1_ecx, cpu_1_edx, cpu_ext_ecx;
#ifndef CPUID_NAME
#define CPUID_NAME cpuid_amd64
#endif
int CPUID_NAME(int eax_in, int ecx_in, int *eax, int *ebx, int *ecx, int *edx) {
  *eax = 0; *ebx = 0; *ecx = eax_in == 1 ? cpu_1_ecx : cpu_ext_ecx; *edx = eax_in == 1 ? cpu_1_edx : 0; return 0;
}
static u32 lcg_s = 1;
static u32 lcg(void) { lcg_s = lcg_s * 1103515245u + 12345u; return (lcg_s >> 16) & 0x7fff; }
static unsigned rd16(const u8 *p) { return p[0] | p[1] << 8; }
static unsigned rd32(const u8 *p) { return p[0] | p[1] << 8 | (unsigned)p[2] << 16 | (unsigned)p[3] << 24; }
/* an output buffer of tot bytes of which the encoder is told about cap */
#define CHECK_HW(out, cap, msg) sym_assert(sym_high_water(out) <= (long)(cap), msg)
/* concrete test pictures: plane value at (x,y) */
static u8 img(int kind, int plane, int x, int y) {
  switch (kind) {
    case 0: return (u8)(90 + plane * 20);
    case 1: return (u8)(plane == 3 ? 255 - x * 2 - y : x * 2 + y + plane * 40);
    case 2: return (u8)lcg();
    case 3: return (u8)(((x ^ y) & 1) ? 255 : 0);
    case 4: return (u8)(x == 63 && y == 63 ? 255 : 90 + plane * 20);   /* kind 0 with one pixel changed */
    case 5: return (u8)((x / 16 + y / 8 + plane) & 1 ? 200 : 40);
    case 6: return (u8)(x < 8 ? 200 : 90 + plane * 20);                /* kind 0 with a stripe */
    case 7: return (u8)(y > 40 ? lcg() : 128);
    default: return 0;
  }
}
#endif
