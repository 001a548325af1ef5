/* C22: syntax-element helpers of the block decoder (src/decode.c) against the AV1 functions of the same purpose */
#include "verif.h"
#include "config.h"
#include "src/internal.h"
#include "src/decode.c"
#if defined U_QUANT || defined U_QTAB
#include "src/dequant_tables.c"
#endif
#if defined U_QUANT
static Dav1dSequenceHeader SH; static Dav1dFrameHeader FH; static uint16_t DQ[8][3][2];
static int clip255(const int v) { return v < 0 ? 0 : v > 255 ? 255 : v; }
static int dcq(const int b) { return dav1d_dq_tbl[SH.hbd][clip255(b)][0]; } /* dc_q(b), with the table checked by unit quant_table */
static int acq(const int b) { return dav1d_dq_tbl[SH.hbd][clip255(b)][1]; }
typedef struct { int8_t v[5]; int16_t seg[8]; } in_t;
void harness(void) {
    in_t I; int q, hbd, en, s; ND(in_t, I); ND(int, q); ND(int, en); ND(int, s); ND(int, hbd);
    ASSUME(q >= 0 && q <= 255 && en >= 0 && en <= 1 && s >= 0 && s < 8 && hbd >= 0 && hbd <= 2);
    for (int i = 0; i < 5; i++) ASSUME(I.v[i] >= -64 && I.v[i] <= 63);
    for (int i = 0; i < 8; i++) { ASSUME(I.seg[i] >= -255 && I.seg[i] <= 255); FH.segmentation.seg_data.d[i].delta_q = I.seg[i]; }
    SH.hbd = hbd; FH.segmentation.enabled = en;
    FH.quant.ydc_delta = I.v[0]; FH.quant.udc_delta = I.v[1]; FH.quant.uac_delta = I.v[2]; FH.quant.vdc_delta = I.v[3]; FH.quant.vac_delta = I.v[4];
    for (int i = 0; i < 8; i++) for (int j = 0; j < 3; j++) DQ[i][j][0] = DQ[i][j][1] = 77;
    init_quant_tables(&SH, &FH, q, DQ);
    const int idx = en ? clip255(q + I.seg[s]) : q; /* get_qidx with the current base index */
    REACH("computed");
    ENSURE("factors of every segment", !en && s ? DQ[s][0][0] == 77 : DQ[s][0][0] == dcq(idx + I.v[0]) && DQ[s][0][1] == acq(idx) &&
        DQ[s][1][0] == dcq(idx + I.v[1]) && DQ[s][1][1] == acq(idx + I.v[2]) && DQ[s][2][0] == dcq(idx + I.v[3]) && DQ[s][2][1] == acq(idx + I.v[4]));
}
#elif defined U_QTAB
#include "qlookup.h"
void harness(void) {
    int h, i; ND(int, h); ND(int, i); ASSUME(h >= 0 && h <= 2 && i >= 0 && i < 256);
    REACH("table");
    ENSURE("Dc_Qlookup", dav1d_dq_tbl[h][i][0] == Qlookup[(h * 256 + i) * 2]);
    ENSURE("Ac_Qlookup", dav1d_dq_tbl[h][i][1] == Qlookup[(h * 256 + i) * 2 + 1]);
}
#elif defined U_NEG
static int spec(const int diff, const int ref, const int max) {
    if (!ref) return diff;
    if (ref >= max - 1) return max - diff - 1;
    const int near = 2 * ref < max ? 2 * ref : 2 * (max - ref - 1); /* differences that alternate around the reference */
    if (diff <= near) return diff & 1 ? ref + (diff + 1) / 2 : ref - diff / 2;
    return 2 * ref < max ? diff : max - (diff + 1);
}
void harness(void) {
    int d, e, ref, max; ND(int, d); ND(int, e); ND(int, ref); ND(int, max);
    ASSUME(max >= 1 && max <= 8 && ref >= 0 && ref < max && d >= 0 && d < 8 && e >= 0 && e < max);
    const int r = neg_deinterleave(d, ref, max);
    REACH("decoded");
    ENSURE("value", r == spec(d, ref, max));
    ENSURE("legal codes decode to legal, distinct segment ids", d >= max || (r >= 0 && r < max && (d == e || r != neg_deinterleave(e, ref, max))));
}
#elif defined U_MV
static uint16_t *SEQ[32]; static unsigned V[32], NSYM[32]; static int K;
static unsigned next(uint16_t *const cdf, const unsigned n) { ENSURE("number of symbols", K < 32); SEQ[K] = cdf; NSYM[K] = n; unsigned v; ND(unsigned, v); ASSUME(v <= n); V[K] = v; return V[K++]; }
unsigned (dav1d_msac_decode_bool_adapt_c)(MsacContext *const s, uint16_t *const cdf) { return next(cdf, 1); }
unsigned (dav1d_msac_decode_symbol_adapt_c)(MsacContext *const s, uint16_t *const cdf, const size_t n) { return next(cdf, n); }
static int k, ok;
static unsigned rd(uint16_t *const cdf, const unsigned n) { ok &= k < K && SEQ[k] == cdf && NSYM[k] == n; return V[k++]; }
static int comp(CdfMvComponent *const c, const int prec) { /* read_mv_component */
    const int sign = rd(c->sign, 1), cls = rd(c->classes, 10); int fr = 3, hp = 1, mag;
    if (cls == 0) {
        const int b = rd(c->class0, 1);
        if (prec >= 0) fr = rd(c->class0_fp[b], 3); /* not force_integer_mv */
        if (prec > 0) hp = rd(c->class0_hp, 1);
        mag = ((b << 3) | (fr << 1) | hp) + 1;
    } else {
        int d = 0; for (int i = 0; i < 10; i++) if (i < cls) d |= rd(c->classN[i], 1) << i;
        mag = 2 << (cls + 2);
        if (prec >= 0) fr = rd(c->classN_fp, 3);
        if (prec > 0) hp = rd(c->classN_hp, 1);
        mag += ((d << 3) | (fr << 1) | hp) + 1;
    }
    return sign ? -mag : mag;
}
#ifdef PREC
void harness(void) {
    static Dav1dTileState TS; CdfMvContext *const C = &TS.cdf.mv;
#ifdef COMP
    const int r = read_mv_component_diff(&TS.msac, &C->comp[0], PREC); ok = 1;
    const int e = comp(&C->comp[0], PREC);
    REACH("read"); ENSURE("magnitude and sign", r == e && e != 0 && e >= -16384 && e <= 16384); ENSURE("symbols and their contexts", ok && k == K);
#else
    mv m, o; ND(mv, m); ASSUME(m.x >= -16384 && m.x <= 16383 && m.y >= -16384 && m.y <= 16383); o = m;
    read_mv_residual(&TS, &m, PREC); ok = 1;
    const int j = rd(C->joint, 3); int dy = 0, dx = 0;
    if (j & 2) dy = comp(&C->comp[0], PREC); /* MV_JOINT_HZVNZ, HNZVNZ */
    if (j & 1) dx = comp(&C->comp[1], PREC);
    REACH("read"); ENSURE("difference added to the predicted vector", m.y == (int16_t)(o.y + dy) && m.x == (int16_t)(o.x + dx)); ENSURE("symbols and their contexts", ok && k == K);
#endif
}
#endif
#elif defined U_ORDER
#define W 4
typedef struct { uint8_t v[W * W]; } map_t;
void harness(void) {
    map_t M; int i, q; ND(map_t, M); ND(int, i); ND(int, q); uint8_t order[W][8], ctx[W];
    ASSUME(i >= 1 && i <= 2 * W - 2);
    for (int j = 0; j < W * W; j++) ASSUME(M.v[j] < 8);
    const int first = i < W - 1 ? i : W - 1, last = i - W + 1 > 0 ? i - W + 1 : 0;
    ASSUME(q >= 0 && q <= first - last);
    order_palette(M.v, W, i, first, last, order, ctx);
    /* get_palette_color_context for column first - q of anti-diagonal i */
    const int c = first - q, r = i - c; int score[8] = { 0 }, ord[8];
    for (int j = 0; j < 8; j++) ord[j] = j;
    if (c > 0) score[M.v[r * W + c - 1]] += 2;
    if (r > 0 && c > 0) score[M.v[(r - 1) * W + c - 1]] += 1;
    if (r > 0) score[M.v[(r - 1) * W + c]] += 2;
    for (int a = 0; a < 3; a++) {
        int ms = score[a], mi = a;
        for (int b = a + 1; b < 8; b++) if (score[b] > ms) { ms = score[b]; mi = b; }
        if (mi != a) {
            const int oc = ord[mi];
            for (int b = 7; b > 0; b--) if (b <= mi && b > a) { score[b] = score[b - 1]; ord[b] = ord[b - 1]; }
            score[a] = ms; ord[a] = oc;
        }
    }
    const int hash = score[0] + 2 * score[1] + 2 * score[2]; static const int8_t ctxs[9] = { -1, -1, 0, -1, -1, 4, 3, 2, 1 };
    REACH("ordered");
    ENSURE("colour context", hash >= 2 && hash <= 8 && ctx[q] == ctxs[hash]);
    int same = 1; for (int j = 0; j < 8; j++) same &= order[q][j] == ord[j];
    ENSURE("colour order", same);
}
#elif defined U_SEGID
#define S 6
typedef struct { uint8_t v[S * S]; } map_t;
void harness(void) {
    static Dav1dFrameContext F; static Dav1dFrameHeader FH; map_t M; int bx, by, w, h, id = 7; ND(map_t, M); ND(int, bx); ND(int, by); ND(int, w); ND(int, h);
    ASSUME(bx >= 0 && by >= 0 && w >= 1 && h >= 1 && w <= S && h <= S && bx <= S - w && by <= S - h);
    F.frame_hdr = &FH; FH.primary_ref_frame = 0;
    for (int i = 0; i < S * S; i++) { ASSUME(M.v[i] < 8); const int y = i / S, x = i % S; if (y >= by && y < by + h && x >= bx && x < bx + w && M.v[i] < id) id = M.v[i]; }
    const unsigned r = get_prev_frame_segid(&F, by, bx, w, h, M.v, S);
    REACH("predicted"); ENSURE("smallest segment id the block covers in the previous map", (int)r == id);
}
#endif
