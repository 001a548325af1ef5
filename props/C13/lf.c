/* C13: deblocking levels, limits and edge masks. */
#include "verif.h"
#if defined(INTER) || defined(INTRA)
enum { VF_VS = VS };
#else
enum { VF_VS = 32 };
#endif
#include "config.h"
#include <assert.h>
#include "src/internal.h"
#include "src/tables.c"
static inline void vf_fill8(void *const p, const int v, const int n) { for (int i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)v; }
#define memset vf_fill8
#include "src/lf_mask.c"
#undef memset
static const uint8_t TW[N_RECT_TX_SIZES] = { 1, 2, 4, 8, 16, 1, 2, 2, 4, 4, 8, 8, 16, 1, 4, 2, 8, 4, 16 };
static const uint8_t TH[N_RECT_TX_SIZES] = { 1, 2, 4, 8, 16, 2, 1, 4, 2, 8, 4, 16, 8, 4, 1, 8, 2, 16, 4 };
static const uint8_t SUB[N_RECT_TX_SIZES] = { 0, TX_4X4, TX_8X8, TX_16X16, TX_32X32, TX_4X4, TX_4X4, TX_8X8, TX_8X8, TX_16X16, TX_16X16, TX_32X32, TX_32X32, RTX_4X8, RTX_8X4, RTX_8X16, RTX_16X8, RTX_16X32, RTX_32X16 };
static const uint8_t BW[N_BS_SIZES] = { 32, 32, 16, 16, 16, 16, 8, 8, 8, 8, 4, 4, 4, 4, 4, 2, 2, 2, 2, 1, 1, 1 };
static const uint8_t BH[N_BS_SIZES] = { 32, 16, 32, 16, 8, 4, 16, 8, 4, 2, 16, 8, 4, 2, 1, 8, 4, 2, 1, 4, 2, 1 };
typedef struct { int8_t d[4]; } Lfd; typedef struct { uint8_t v[40]; } __attribute__((aligned(8))) Ctx; typedef struct { uint16_t m[2]; } Masks;
static int lg(const int v) { return v >= 16 ? 4 : v >= 8 ? 3 : v >= 4 ? 2 : v >= 2 ? 1 : 0; }
static int min2(const int a, const int b) { return a < b ? a : b; }
static int clip63(const int v) { return v < 0 ? 0 : v > 63 ? 63 : v; }
#if defined(U_LEVELS)
typedef __typeof__(((Dav1dFrameHeader *)0)->loopfilter) Lf; typedef __typeof__(((Dav1dFrameHeader *)0)->delta) Dlf; typedef Dav1dSegmentationData Seg;
static Dav1dFrameHeader H; static uint8_t V[8][4][8][2];
void harness(void) {
    const int s = S, i = I; Lfd D; ND(Lfd, D); ND(Lf, H.loopfilter); ND(Dlf, H.delta); H.segmentation.enabled = EN; H.loopfilter.mode_ref_delta_enabled = MR;
    if (ZERO) H.loopfilter.level_y[0] = H.loopfilter.level_y[1] = 0; else ASSUME(H.loopfilter.level_y[0] || H.loopfilter.level_y[1]);
    if (UVZERO == 1) H.loopfilter.level_u = H.loopfilter.level_v = 0; else if (UVZERO == 2) { H.loopfilter.level_u = 0; ASSUME(H.loopfilter.level_v); } else if (UVZERO == 3) { H.loopfilter.level_v = 0; ASSUME(H.loopfilter.level_u); } else ASSUME(H.loopfilter.level_u && H.loopfilter.level_v);
    for (int k = 0; k < 8; k++) { H.segmentation.seg_data.d[k].delta_lf_y_v = 1; }
    { Seg t; ND(Seg, t); H.segmentation.seg_data.d[S] = t; }
    ASSUME(H.loopfilter.level_y[0] <= 63 && H.loopfilter.level_y[1] <= 63 && H.loopfilter.level_u <= 63 && H.loopfilter.level_v <= 63 && H.segmentation.enabled <= 1 && H.delta.lf.multi <= 1);
    for (int k = 0; k < 8; k++) ASSUME(H.loopfilter.mode_ref_deltas.ref_delta[k] >= -64 && H.loopfilter.mode_ref_deltas.ref_delta[k] <= 63);
    for (int k = 0; k < 2; k++) ASSUME(H.loopfilter.mode_ref_deltas.mode_delta[k] >= -64 && H.loopfilter.mode_ref_deltas.mode_delta[k] <= 63);
    for (int k = 0; k < 4; k++) ASSUME(D.d[k] >= -63 && D.d[k] <= 63);
    { const Dav1dSegmentationData *const d = &H.segmentation.seg_data.d[s]; ASSUME(d->delta_lf_y_v >= -63 && d->delta_lf_y_v <= 63 && d->delta_lf_y_h >= -63 && d->delta_lf_y_h <= 63 && d->delta_lf_u >= -63 && d->delta_lf_u <= 63 && d->delta_lf_v >= -63 && d->delta_lf_v <= 63); }
    if (!H.segmentation.enabled) ASSUME(s == 0);
    dav1d_calc_lf_values(V, &H, D.d);
    REACH("levels");
    /* 7.14.4: i = 0 vertical luma, 1 horizontal luma, 2 U, 3 V */
    const int lvl = i == 0 ? H.loopfilter.level_y[0] : i == 1 ? H.loopfilter.level_y[1] : i == 2 ? H.loopfilter.level_u : H.loopfilter.level_v;
    const Dav1dSegmentationData *const d = &H.segmentation.seg_data.d[s];
    for (int r = 0; r < 8; r++) for (int m = 0; m < 2; m++) {
    int v = clip63(D.d[H.delta.lf.multi ? i : 0] + lvl);
    if (H.segmentation.enabled) v = clip63(v + (i == 0 ? d->delta_lf_y_v : i == 1 ? d->delta_lf_y_h : i == 2 ? d->delta_lf_u : d->delta_lf_v));
    if (H.loopfilter.mode_ref_delta_enabled) {
        const int sh = v >> 5;
        /* both deltas are scaled by 1 << sh; there is no mode delta for intra */
        const int d = r ? H.loopfilter.mode_ref_deltas.mode_delta[m] + H.loopfilter.mode_ref_deltas.ref_delta[r] : H.loopfilter.mode_ref_deltas.ref_delta[0];
        v = clip63(v + (sh ? 2 * d : d));
    }
    if (!H.loopfilter.level_y[0] && !H.loopfilter.level_y[1]) v = 0; /* no deblocking of the frame */
    if (i >= 2 && !lvl) v = 0; /* nor of this chroma plane */
    ENSURE("deblocking level", V[s][i][r][m] == v);
    }
}
#elif defined(U_EIH)
static Av1FilterLUT T;
void harness(void) {
    int sh, l; ND(int, sh); ND(int, l); ASSUME(sh >= 0 && sh <= 7 && l >= 0 && l < 64);
    dav1d_calc_eih(&T, sh);
    REACH("limits");
    const int shift = sh > 4 ? 2 : sh > 0 ? 1 : 0;
    int lim = l >> shift; if (sh > 0 && lim > 9 - sh) lim = 9 - sh; if (lim < 1) lim = 1;
    ENSURE("limit", T.i[l] == lim);
    ENSURE("block limit", T.e[l] == 2 * (l + 2) + lim);
    ENSURE("sharpness parameters of the assembly filters", T.sharp[0] == shift && T.sharp[1] == (sh ? 9 - sh : 0xff));
}
#endif
