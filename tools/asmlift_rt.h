/* run-time support of lifted assembly: eight 16-bit lanes per xmm register */
#include <stddef.h>
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64;
typedef signed char s8; typedef short s16; typedef int s32; typedef long long s64;
typedef struct { u16 w[8]; } V;
#ifndef LIFT_ASSERT
extern void sym_assert(int, const char *);
#define LIFT_ASSERT(c, m) sym_assert((c) ? 1 : 0, m)
#endif
#define CALL(l, id) do { rsp -= 8; *(u64 *)(size_t)rsp = id; goto l; } while (0)
#define RET do { rid = (int)*(u64 *)(size_t)rsp; rsp += 8; goto dispatch; } while (0)
#define LANES(d, s, e) do { int i_; for (i_ = 0; i_ < 8; i_++) { u16 a = d.w[i_], b = s.w[i_]; (void)a; d.w[i_] = (u16)(e); } } while (0)
#define D(v, i) ((u32)(v).w[2 * (i)] | (u32)(v).w[2 * (i) + 1] << 16)
#define SETD(v, i, x) do { u32 y_ = (x); (v).w[2 * (i)] = (u16)y_; (v).w[2 * (i) + 1] = (u16)(y_ >> 16); } while (0)
#define DLANES(d, s, e) do { int i_; for (i_ = 0; i_ < 4; i_++) { u32 a = D(d, i_), b = D(s, i_); SETD(d, i_, e); } } while (0)
static void ld128(V *out, u64 a, int al) {  V v; int i; if (al) LIFT_ASSERT((a & 15) == 0, "aligned vector access"); for (i = 0; i < 8; i++) v.w[i] = *(u16 *)(size_t)(a + 2 * i); *out = v; }
static void st128(u64 a, const V *p_v, int al) { V v = *p_v; int i; if (al) LIFT_ASSERT((a & 15) == 0, "aligned vector access"); for (i = 0; i < 8; i++) *(u16 *)(size_t)(a + 2 * i) = v.w[i]; }
static void setq(V *out, u64 q) {  V v; int i; for (i = 0; i < 8; i++) v.w[i] = i < 4 ? (u16)(q >> (16 * i)) : 0; *out = v; }
#define getq(v) ((u64)(v).w[0] | (u64)(v).w[1] << 16 | (u64)(v).w[2] << 32 | (u64)(v).w[3] << 48)
#define getd(v) ((u32)(v).w[0] | (u32)(v).w[1] << 16)
static void lowq(V *out, const V *p_v) { V v = *p_v;  v.w[4] = v.w[5] = v.w[6] = v.w[7] = 0; *out = v; }
static void vraw(V *out, const V *p_v, u64 c) { V v = *p_v;  int i; u32 n = c > 15 ? 15 : (u32)c; for (i = 0; i < 8; i++) v.w[i] = (u16)((s16)v.w[i] >> n); *out = v; }
static void vrlw(V *out, const V *p_v, u64 c) { V v = *p_v;  int i; for (i = 0; i < 8; i++) v.w[i] = c > 15 ? 0 : (u16)(v.w[i] >> (c & 15)); *out = v; }
static void vllw(V *out, const V *p_v, u64 c) { V v = *p_v;  int i; for (i = 0; i < 8; i++) v.w[i] = c > 15 ? 0 : (u16)(v.w[i] << (c & 15)); *out = v; }
static void vrad(V *out, const V *p_v, u64 c) { V v = *p_v;  int i; u32 n = c > 31 ? 31 : (u32)c; for (i = 0; i < 4; i++) SETD(v, i, (u32)((s32)D(v, i) >> n)); *out = v; }
static void vrld(V *out, const V *p_v, u64 c) { V v = *p_v;  int i; for (i = 0; i < 4; i++) SETD(v, i, c > 31 ? 0 : D(v, i) >> (c & 31)); *out = v; }
static void vlld(V *out, const V *p_v, u64 c) { V v = *p_v;  int i; for (i = 0; i < 4; i++) SETD(v, i, c > 31 ? 0 : D(v, i) << (c & 31)); *out = v; }
static u8 byte_(const V *v, int i) { return (u8)(i & 1 ? v->w[i >> 1] >> 8 : v->w[i >> 1] & 255); }
static void psrldq(V *out, const V *p_v, int n) { V v = *p_v;  V r; int i; for (i = 0; i < 8; i++) { u8 l = 2 * i + n < 16 ? byte_(&v, 2 * i + n) : 0, h = 2 * i + 1 + n < 16 ? byte_(&v, 2 * i + 1 + n) : 0; r.w[i] = n & 1 ? (u16)(l | h << 8) : 2 * i + n < 16 ? v.w[i + n / 2] : 0; } *out = r; }
static void pslldq(V *out, const V *p_v, int n) { V v = *p_v;  V r; int i; for (i = 0; i < 8; i++) { u8 l = 2 * i >= n ? byte_(&v, 2 * i - n) : 0, h = 2 * i + 1 >= n ? byte_(&v, 2 * i + 1 - n) : 0; r.w[i] = n & 1 ? (u16)(l | h << 8) : 2 * i >= n ? v.w[i - n / 2] : 0; } *out = r; }
static void punpcklbw(V *out, const V *p_a, const V *p_b) { V a = *p_a; V b = *p_b;  V r; int i; for (i = 0; i < 8; i++) r.w[i] = (u16)(byte_(&a, i) | (u16)byte_(&b, i) << 8); *out = r; }
static void punpckhbw(V *out, const V *p_a, const V *p_b) { V a = *p_a; V b = *p_b;  V r; int i; for (i = 0; i < 8; i++) r.w[i] = (u16)(byte_(&a, i + 8) | (u16)byte_(&b, i + 8) << 8); *out = r; }
static void punpcklwd(V *out, const V *p_a, const V *p_b) { V a = *p_a; V b = *p_b;  V r; int i; for (i = 0; i < 8; i++) r.w[i] = i & 1 ? b.w[i / 2] : a.w[i / 2]; *out = r; }
static void punpckhwd(V *out, const V *p_a, const V *p_b) { V a = *p_a; V b = *p_b;  V r; int i; for (i = 0; i < 8; i++) r.w[i] = i & 1 ? b.w[4 + i / 2] : a.w[4 + i / 2]; *out = r; }
static void punpckldq(V *out, const V *p_a, const V *p_b) { V a = *p_a; V b = *p_b;  V r; int i; for (i = 0; i < 8; i++) r.w[i] = i & 2 ? b.w[(i / 4) * 2 + (i & 1)] : a.w[(i / 4) * 2 + (i & 1)]; *out = r; }
static void punpckhdq(V *out, const V *p_a, const V *p_b) { V a = *p_a; V b = *p_b;  V r; int i; for (i = 0; i < 8; i++) r.w[i] = i & 2 ? b.w[4 + (i / 4) * 2 + (i & 1)] : a.w[4 + (i / 4) * 2 + (i & 1)]; *out = r; }
static void punpcklqdq(V *out, const V *p_a, const V *p_b) { V a = *p_a; V b = *p_b;  V r; int i; for (i = 0; i < 8; i++) r.w[i] = i < 4 ? a.w[i] : b.w[i - 4]; *out = r; }
static void punpckhqdq(V *out, const V *p_a, const V *p_b) { V a = *p_a; V b = *p_b;  V r; int i; for (i = 0; i < 8; i++) r.w[i] = i < 4 ? a.w[4 + i] : b.w[i]; *out = r; }
static u16 satss_(s32 x) { return (u16)(x > 32767 ? 32767 : x < -32768 ? -32768 : x); }
static u16 satus_(u16 lo, u16 hi) { return hi == 0 ? lo : hi & 0x8000 ? 0 : 65535; } /* of the signed value hi:lo */
static void packssdw(V *out, const V *p_a, const V *p_b) { V a = *p_a; V b = *p_b;  V r; int i; for (i = 0; i < 4; i++) { r.w[i] = satss_((s32)D(a, i)); r.w[4 + i] = satss_((s32)D(b, i)); } *out = r; }
static void packusdw(V *out, const V *p_a, const V *p_b) { V a = *p_a; V b = *p_b;  V r; int i; for (i = 0; i < 4; i++) { r.w[i] = satus_(a.w[2 * i], a.w[2 * i + 1]); r.w[4 + i] = satus_(b.w[2 * i], b.w[2 * i + 1]); } *out = r; }
static void packuswb(V *out, const V *p_a, const V *p_b) { V a = *p_a; V b = *p_b;  V r; int i; for (i = 0; i < 4; i++) { s16 p = (s16)a.w[2 * i], q = (s16)a.w[2 * i + 1], x = (s16)b.w[2 * i], y = (s16)b.w[2 * i + 1]; p = p < 0 ? 0 : p > 255 ? 255 : p; q = q < 0 ? 0 : q > 255 ? 255 : q; x = x < 0 ? 0 : x > 255 ? 255 : x; y = y < 0 ? 0 : y > 255 ? 255 : y; r.w[i] = (u16)(p | q << 8); r.w[4 + i] = (u16)(x | y << 8); } *out = r; }
#define C_(z) ((u16)(((z) < -128 ? -128 : (z) > 127 ? 127 : (z)) & 255))
static void packsswb(V *out, const V *p_a, const V *p_b) { V a = *p_a; V b = *p_b;  V r; int i; for (i = 0; i < 4; i++) { s16 p = (s16)a.w[2 * i], q = (s16)a.w[2 * i + 1], x = (s16)b.w[2 * i], y = (s16)b.w[2 * i + 1]; r.w[i] = (u16)(C_(p) | C_(q) << 8); r.w[4 + i] = (u16)(C_(x) | C_(y) << 8); } *out = r; }
static void pshufd(V *out, const V *p_a, int m) { V a = *p_a;  V r; int i; for (i = 0; i < 4; i++) { int k = (m >> (2 * i)) & 3; r.w[2 * i] = a.w[2 * k]; r.w[2 * i + 1] = a.w[2 * k + 1]; } *out = r; }
static void pshuflw(V *out, const V *p_a, int m) { V a = *p_a;  V r = a; int i; for (i = 0; i < 4; i++) r.w[i] = a.w[(m >> (2 * i)) & 3]; *out = r; }
static void pshufhw(V *out, const V *p_a, int m) { V a = *p_a;  V r = a; int i; for (i = 0; i < 4; i++) r.w[4 + i] = a.w[4 + ((m >> (2 * i)) & 3)]; *out = r; }
#define SAT16_(x) ((u16)((x) > 32767 ? 32767 : (x) < -32768 ? -32768 : (x)))
#define BLANES(d, s, e) do { int i_; for (i_ = 0; i_ < 8; i_++) { u16 r_; { u8 a = (u8)d.w[i_], b = (u8)s.w[i_]; r_ = (u8)(e); } { u8 a = (u8)(d.w[i_] >> 8), b = (u8)(s.w[i_] >> 8); r_ |= (u16)((u8)(e) << 8); } d.w[i_] = r_; } } while (0)
