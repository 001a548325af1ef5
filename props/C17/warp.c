/* C17: warp model derivation against the AV1 specification (7.11.3.6 setup shear, 7.11.3.7 resolve divisor, 7.11.3.8 warp estimation) */
#include "verif.h"
#include "config.h"
#if defined(U_SHEAR)
/* the division steps are used through their contracts (units 'divide', 'entry_*'): functions of their arguments, results in range */
#include <assert.h>
#ifdef YC /* one reciprocal per unit */
#define __CPROVER_uninterpreted_dsh(d) SC
#define __CPROVER_uninterpreted_div(d) YC
#elif defined(VF_NATIVE)
static int vf_h(uint64_t a, int b, int c, int lo, int n) { a = a * 0x9E3779B97F4A7C15ULL + (unsigned)b * 2654435761u + c * 40503u; return lo + (int)((a ^ a >> 32) % n); }
#define __CPROVER_uninterpreted_dsh(d) vf_h(d, 1, 1, 14, 62)
#define __CPROVER_uninterpreted_div(d) vf_h(d, 2, 3, 8192, 8193)
#define resolve_divisor_32 stub_div32
#else
int __CPROVER_uninterpreted_dsh(uint64_t d); int __CPROVER_uninterpreted_div(uint64_t d);
#endif
static int resolve_divisor_32 (const unsigned d, int *const shift) { *shift = __CPROVER_uninterpreted_dsh(d); const int r = __CPROVER_uninterpreted_div(d); ASSUME(*shift >= 14 && *shift < 14 + 32 && (uint64_t)d >> (*shift - 14) == 1 && r >= 8192 && r <= 16384); return r; }
#endif
#include "src/warpmv.c"
typedef struct { int a[6]; } M6; typedef struct { int8_t v; } S8; typedef struct { int p[2][2]; } P4;
#define LSB 32768
/* Div_Lut: the reciprocal table of the specification is 2^22 / (256 + i), rounded */
static int s_div(const int i) { return ((1 << 22) + (256 + i) / 2) / (256 + i); }
static int64_t s_round_signed(const int64_t v, const int n) { const int64_t q = (llabs(v) + (((int64_t)1 << n) >> 1)) >> n; return v < 0 ? -q : q; }
static int s_msb(const uint64_t d) { int n = -1; for (int i = 0; i < 64; i++) if (d >> i & 1) n = i; return n; }
static int64_t s_clip(const int64_t lo, const int64_t hi, const int64_t v) { return v < lo ? lo : v > hi ? hi : v; }
static void s_resolve(const uint64_t d, int *const shift, int *const factor) {
    const int n = s_msb(d); const uint64_t e = d - ((uint64_t)1 << n);
    const uint64_t f = n > 8 ? (e + ((uint64_t)1 << (n - 8 - 1))) >> (n - 8) : e << (8 - n);
    ENSURE("table index", f <= 256);
    *shift = n + 14; *factor = s_div((int)f);
}
#if defined(U_TAB)
void harness(void) { unsigned i; ND(unsigned, i); ASSUME(i <= 256); REACH("entry"); ENSURE("reciprocal table entry", div_lut[i] == s_div(i)); }
#elif defined(U_DIV)
/* the index into the table and the shift; the table itself is unit 'table' */
void harness(void) {
    unsigned d; uint64_t q; ND(unsigned, d); ND(uint64_t, q); ASSUME(d > 0 && d <= INT32_MAX && q > 0 && q < (uint64_t)1 << 62);
    int s32, s64, t, f;
    const int r32 = resolve_divisor_32(d, &s32); int n = s_msb(d);
    { const uint64_t e = d - ((uint64_t)1 << n), x = n > 8 ? (e + ((uint64_t)1 << (n - 9))) >> (n - 8) : e << (8 - n);
      ENSURE("32-bit divisor: shift and reciprocal", s32 == n + 14 && x <= 256 && r32 == div_lut[x]); }
    REACH("32-bit");
    const int r64 = resolve_divisor_64(q, &s64); n = s_msb(q);
    { const uint64_t e = q - ((uint64_t)1 << n), x = n > 8 ? (e + ((uint64_t)1 << (n - 9))) >> (n - 8) : e << (8 - n);
      ENSURE("64-bit divisor: shift and reciprocal", s64 == n + 14 && x <= 256 && r64 == div_lut[x]); }
    REACH("64-bit");
}
#elif defined(U_SHEAR)
/* ranges: every model the bitstream or the local estimation can produce (2.13 clamp) */
void harness(void) {
    Dav1dWarpedMotionParams wm; ND(M6, *(M6 *)wm.matrix);
#ifdef M3
    wm.matrix[3] = M3;
#endif
    const M6 m = *(M6 *)wm.matrix;
    ASSUME(m.a[2] >= -8192 + 65536 && m.a[2] <= 65536 + 8192 && m.a[5] >= -8192 + 65536 && m.a[5] <= 65536 + 8192 && m.a[3] >= -8192 && m.a[3] <= 8192 && m.a[4] >= -8192 && m.a[4] <= 8192);
    const int r = dav1d_get_shear_params(&wm);
    const uint64_t am = abs(m.a[2]); const int sh = __CPROVER_uninterpreted_dsh(am); int y = __CPROVER_uninterpreted_div(am); if (m.a[2] < 0) y = -y; /* resolveDivisor: unit 'divide' */
    const int64_t v = (int64_t)m.a[4] * 0x10000 * y, w = (int64_t)m.a[3] * m.a[4] * y;
    const int gq = (int)s_round_signed(v, sh), dq = (int)s_round_signed(w, sh); /* below 2^15 in magnitude: |v| <= 2^43, shift 29 or 30 */
#define CL(x) iclip(x, -32768, 32767)
#define RED(x) (apply_sign((abs(x) + 32) >> 6, x) * 64)
    const int al = RED(CL(m.a[2] - 65536)), be = RED(CL(m.a[3])), ga = RED(CL(gq)), de = RED(CL(m.a[5] - dq - 65536));
    REACH("shear");
#if PART == 0
    ENSURE("alpha", wm.u.p.alpha == al); ENSURE("beta", wm.u.p.beta == be);
#elif PART == 1
    ENSURE("gamma", wm.u.p.gamma == ga);
#elif PART == 2
    ENSURE("delta", wm.u.p.delta == de);
#else
    const int A = wm.u.p.alpha, B = wm.u.p.beta, G = wm.u.p.gamma, D = wm.u.p.delta;
    ENSURE("valid exactly when the shear is small enough", (r == 0) == !(4 * abs(A) + 7 * abs(B) >= 65536 || 4 * abs(G) + 4 * abs(D) >= 65536));
#endif
    ENSURE("matrix unchanged", wm.matrix[2] == m.a[2] && wm.matrix[3] == m.a[3] && wm.matrix[4] == m.a[4] && wm.matrix[5] == m.a[5]);
}
#elif defined(U_NEG)
void harness(void) {
    Dav1dWarpedMotionParams wm; ND(M6, *(M6 *)wm.matrix); ASSUME(wm.matrix[2] <= 0); REACH("negative");
    ENSURE("a model that mirrors or collapses the block is invalid", dav1d_get_shear_params(&wm) != 0);
}
#elif defined(U_SET)
void harness(void) {
    Dav1dWarpedMotionParams wm; ND(M6, *(M6 *)wm.matrix); const M6 m = *(M6 *)wm.matrix; mv v; ND(mv, v); int bw4, bh4, bx4, by4; ND(int, bw4); ND(int, bh4); ND(int, bx4); ND(int, by4);
    ASSUME(bw4 >= 1 && bw4 <= 32 && bh4 >= 1 && bh4 <= 32 && bx4 >= 0 && bx4 < 16384 && by4 >= 0 && by4 < 16384);
    dav1d_set_affine_mv2d(bw4, bh4, v, &wm, bx4, by4);
    const int midx = bx4 * 4 + (2 * bw4 - 1), midy = by4 * 4 + (2 * bh4 - 1);
    const int vx = v.x * 8192 - (midx * (m.a[2] - 65536) + midy * m.a[3]), vy = v.y * 8192 - (midx * m.a[4] + midy * (m.a[5] - 65536));
    REACH("set");
    ENSURE("horizontal translation", wm.matrix[0] == s_clip(-(1 << 23), (1 << 23) - 1, vx));
    ENSURE("vertical translation", wm.matrix[1] == s_clip(-(1 << 23), (1 << 23) - 1, vy));
    ENSURE("linear part unchanged", wm.matrix[2] == m.a[2] && wm.matrix[3] == m.a[3] && wm.matrix[4] == m.a[4] && wm.matrix[5] == m.a[5]);
}
#elif defined(U_MULT)
void harness(void) {
    int64_t px; int idet; ND(int64_t, px); ND(int, idet); const int shift = SHIFT;
    ASSUME(px > -((int64_t)1 << 46) && px < (int64_t)1 << 46 && idet >= -65536 && idet <= 65536);
    const int64_t q = s_round_signed(px * idet, shift);
    ASSUME(q > INT32_MIN && q <= INT32_MAX); /* the quotient fits in 32 bits */
    REACH("mult");
    ENSURE("diagonal entry", get_mult_shift_diag(px, idet, shift) == s_clip(65536 - 8191, 65536 + 8191, q));
    ENSURE("off-diagonal entry", get_mult_shift_ndiag(px, idet, shift) == s_clip(-8191, 8191, q));
}
#endif
