/* C15: block-level contexts, order-hint distance, global motion vectors.
 * The specification side is written with the AV1 specification's own variables
 * (AvailU/AvailL, RefFrames in spec numbering, Single/Intra flags, count_refs). */
#include "verif.h"
#include "config.h"
#include <assert.h>
#include "dav1d/headers.h"
#include "src/internal.h"
#include "src/env.h"
enum { NONE = -1, INTRA_FRAME, LAST, LAST2, LAST3, GOLDEN, BWDREF, ALTREF2, ALTREF };
typedef struct { int avail, intra, ref[2], ctype, filter[2]; } NB; /* spec view of a neighbour */
static BlockContext A, L; static int XB, YB, HT, HL;
static NB U, LF;
typedef struct { uint16_t c[16]; } Cdf; typedef struct { int32_t m[6]; } M6;
static int legal_ref_pair(const int r0, const int r1) { /* spec numbering */
    if (r0 >= LAST && r0 <= GOLDEN && r1 >= BWDREF && r1 <= ALTREF) return 1;
    return (r0 == LAST && (r1 == LAST2 || r1 == LAST3 || r1 == GOLDEN)) || (r0 == BWDREF && r1 == ALTREF);
}
/* dav1d's encoding of neighbour state at one position; unavailable = reset values */
static void nb(NB *const n, BlockContext *const c, const int i, const int avail) {
    n->avail = avail;
    ASSUME(c->intra[i] <= 1 && c->comp_type[i] <= COMP_INTER_WEDGE);
    n->intra = c->intra[i]; n->ctype = c->comp_type[i];
    n->ref[0] = c->ref[0][i] + 1; n->ref[1] = c->ref[1][i] + 1;
    n->filter[0] = c->filter[0][i]; n->filter[1] = c->filter[1][i];
    ASSUME(n->filter[0] <= 3 && n->filter[1] <= 3);
    if (!avail) { ASSUME(n->ref[0] == 0 && n->ref[1] == 0 && n->ctype == 0 && n->filter[0] == 3 && n->filter[1] == 3); return; }
    if (n->intra) ASSUME(n->ref[0] == 0 && n->ref[1] == 0 && n->ctype == 0);
    else if (n->ctype == 0) ASSUME(n->ref[0] >= LAST && n->ref[0] <= ALTREF && n->ref[1] == 0);
    else ASSUME(legal_ref_pair(n->ref[0], n->ref[1]));
    if (n->ref[1] == 0) n->ref[1] = NONE;
}
static void setup(void) {
    ND(BlockContext, A); ND(BlockContext, L); ND(int, XB); ND(int, YB); ND(int, HT); ND(int, HL);
    ASSUME(XB >= 0 && XB < 32 && YB >= 0 && YB < 32 && (HT == 0 || HT == 1) && (HL == 0 || HL == 1));
    nb(&U, &A, XB, HT); nb(&LF, &L, YB, HL);
}
static int single(const NB *const n) { return n->ref[1] <= INTRA_FRAME; }
static int check_backward(const int r) { return r >= BWDREF && r <= ALTREF; }
static int count_refs(const int t) {
    int c = 0;
    if (U.avail) { if (U.ref[0] == t) c++; if (U.ref[1] == t) c++; }
    if (LF.avail) { if (LF.ref[0] == t) c++; if (LF.ref[1] == t) c++; }
    return c;
}
static int ref_count_ctx(const int c0, const int c1) { return c0 < c1 ? 0 : c0 == c1 ? 1 : 2; }
static int samedir(const int r0, const int r1) { return r0 > INTRA_FRAME && r1 > INTRA_FRAME && (r0 >= BWDREF) == (r1 >= BWDREF); }

#if defined(U_REFS)
static int spec_intra(void) {
    if (U.avail && LF.avail) return LF.intra && U.intra ? 3 : LF.intra || U.intra;
    if (U.avail || LF.avail) return 2 * (U.avail ? U.intra : LF.intra);
    return 0;
}
static int spec_comp(void) {
    if (U.avail && LF.avail) {
        if (single(&U) && single(&LF)) return check_backward(U.ref[0]) ^ check_backward(LF.ref[0]);
        if (single(&U)) return 2 + (check_backward(U.ref[0]) || U.intra);
        if (single(&LF)) return 2 + (check_backward(LF.ref[0]) || LF.intra);
        return 4;
    }
    if (U.avail) return single(&U) ? check_backward(U.ref[0]) : 3;
    if (LF.avail) return single(&LF) ? check_backward(LF.ref[0]) : 3;
    return 1;
}
static int spec_comp_dir(void) {
    const int aci = U.avail && !U.intra && !single(&U), lci = LF.avail && !LF.intra && !single(&LF);
    const int auni = aci && samedir(U.ref[0], U.ref[1]), luni = lci && samedir(LF.ref[0], LF.ref[1]);
    if (U.avail && !U.intra && LF.avail && !LF.intra) {
        const int sd = samedir(U.ref[0], LF.ref[0]);
        if (!aci && !lci) return 1 + 2 * sd;
        if (!aci) return !luni ? 1 : 3 + sd;
        if (!lci) return !auni ? 1 : 3 + sd;
        if (!auni && !luni) return 0;
        if (!auni || !luni) return 2;
        return 3 + ((U.ref[0] == BWDREF) == (LF.ref[0] == BWDREF));
    }
    if (U.avail && LF.avail) return aci ? 1 + 2 * auni : lci ? 1 + 2 * luni : 2;
    return aci ? 4 * auni : lci ? 4 * luni : 2;
}
void harness(void) {
    setup();
    REACH("contexts");
    const int n = count_refs(LAST) + count_refs(LAST2) + count_refs(LAST3) + count_refs(GOLDEN);
    const int b = count_refs(BWDREF) + count_refs(ALTREF2) + count_refs(ALTREF);
#define ARGS &A, &L, YB, XB, HT, HL
    ENSURE("is_inter context", get_intra_ctx(ARGS) == spec_intra());
    ENSURE("comp_mode context", get_comp_ctx(ARGS) == spec_comp());
    ENSURE("comp_ref_type context", get_comp_dir_ctx(ARGS) == spec_comp_dir());
    ENSURE("single_ref_p1 context", av1_get_ref_ctx(ARGS) == ref_count_ctx(n, b));
    ENSURE("single_ref_p2 / comp_bwdref context", av1_get_ref_2_ctx(ARGS) == ref_count_ctx(count_refs(BWDREF) + count_refs(ALTREF2), count_refs(ALTREF)));
    ENSURE("single_ref_p3 / comp_ref context", av1_get_ref_3_ctx(ARGS) == ref_count_ctx(count_refs(LAST) + count_refs(LAST2), count_refs(LAST3) + count_refs(GOLDEN)));
    ENSURE("single_ref_p4 / comp_ref_p1 context", av1_get_ref_4_ctx(ARGS) == ref_count_ctx(count_refs(LAST), count_refs(LAST2)));
    ENSURE("single_ref_p5 / comp_ref_p2 context", av1_get_ref_5_ctx(ARGS) == ref_count_ctx(count_refs(LAST3), count_refs(GOLDEN)));
    ENSURE("single_ref_p6 / comp_bwdref_p1 context", av1_get_ref_6_ctx(ARGS) == ref_count_ctx(count_refs(BWDREF), count_refs(ALTREF2)));
    ENSURE("uni_comp_ref context", av1_get_uni_p_ctx(ARGS) == ref_count_ctx(n, b));
    ENSURE("uni_comp_ref_p1 context", av1_get_uni_p1_ctx(ARGS) == ref_count_ctx(count_refs(LAST2), count_refs(LAST3) + count_refs(GOLDEN)));
    ENSURE("uni_comp_ref_p2 context", av1_get_uni_p2_ctx(ARGS) == ref_count_ctx(count_refs(LAST3), count_refs(GOLDEN)));
}
#elif defined(U_COMPOUND)
static int spec_dist(const int bits, const int a, const int b) { /* get_relative_dist */
    if (!bits) return 0;
    const int m = 1 << bits; int d = (a - b) % m; /* representative in [-m/2, m/2) */
    if (d < -m / 2) d += m; if (d >= m / 2) d -= m;
    return d;
}
void harness(void) {
    setup();
    int comp, dir, ref, bits; unsigned poc, p0, p1;
    ND(int, comp); ND(int, dir); ND(int, ref); ND(int, bits); ND(unsigned, poc); ND(unsigned, p0); ND(unsigned, p1);
    ASSUME((comp == 0 || comp == 1) && (dir == 0 || dir == 1) && ref >= 0 && ref <= 6 && bits >= 0 && bits <= 8 && poc < 256 && p0 < 256 && p1 < 256);
    ASSUME(bits == 0 || (poc >> bits == 0 && p0 >> bits == 0 && p1 >> bits == 0));
    REACH("compound contexts");
    { int lt = 3, at = 3;
      if (LF.avail && (LF.ref[0] == ref + 1 || LF.ref[1] == ref + 1)) lt = LF.filter[dir];
      if (U.avail && (U.ref[0] == ref + 1 || U.ref[1] == ref + 1)) at = U.filter[dir];
      const int c = comp * 4 + (lt == at ? lt : lt == 3 ? at : at == 3 ? lt : 3);
      ENSURE("interp_filter context", get_filter_ctx(&A, &L, comp, dir, ref, YB, XB) == c); }
    { int c = 0; /* comp_group_idx is 1 for wedge and difference-weighted blocks */
      if (U.avail) { if (!single(&U)) c += U.ctype >= COMP_INTER_SEG; else if (U.ref[0] == ALTREF) c += 3; }
      if (LF.avail) { if (!single(&LF)) c += LF.ctype >= COMP_INTER_SEG; else if (LF.ref[0] == ALTREF) c += 3; }
      ENSURE("comp_group_idx context", get_mask_comp_ctx(&A, &L, YB, XB) == (c > 5 ? 5 : c)); }
    { const int fd = spec_dist(bits, p0, poc), bd = spec_dist(bits, p1, poc);
      int c = (fd < 0 ? -fd : fd) == (bd < 0 ? -bd : bd) ? 3 : 0;
      /* compound_idx is 0 only for distance-weighted blocks */
      if (U.avail) { if (!single(&U)) c += U.ctype != COMP_INTER_WEIGHTED_AVG; else if (U.ref[0] == ALTREF) c++; }
      if (LF.avail) { if (!single(&LF)) c += LF.ctype != COMP_INTER_WEIGHTED_AVG; else if (LF.ref[0] == ALTREF) c++; }
      ENSURE("compound_idx context", get_jnt_comp_ctx(bits, poc, p0, p1, &A, &L, YB, XB) == c && c <= 5); }
    ENSURE("relative order-hint distance", get_poc_diff(bits, p0, p1) == spec_dist(bits, p0, p1));
}
#elif defined(U_PART)
#include "src/tables.c"
static int log2w(const int bl, const int bp) { /* width of the blocks along the bottom edge, log2 px */
    const int s = 7 - bl;
    switch (bp) { case PARTITION_V: case PARTITION_SPLIT: case PARTITION_T_BOTTOM_SPLIT: case PARTITION_T_LEFT_SPLIT: case PARTITION_T_RIGHT_SPLIT: return s - 1; case PARTITION_V4: return s - 2; default: return s; }
}
static int log2h(const int bl, const int bp) { /* height of the blocks along the right edge */
    const int s = 7 - bl;
    switch (bp) { case PARTITION_H: case PARTITION_SPLIT: case PARTITION_T_TOP_SPLIT: case PARTITION_T_BOTTOM_SPLIT: case PARTITION_T_RIGHT_SPLIT: return s - 1; case PARTITION_H4: return s - 2; default: return s; }
}
static int leaf(const int bl, const int bp) { /* partitions that write the context */
    if (bl < 0 || bl >= N_BL_LEVELS || bp < 0 || bp >= N_PARTITIONS) return 0;
    if (bl == BL_8X8) return bp <= PARTITION_SPLIT;
    if (bp == PARTITION_SPLIT) return 0;
    return bl != BL_128X128 || (bp != PARTITION_H4 && bp != PARTITION_V4);
}
static unsigned prob(const uint16_t *const c, const int n, const int s) { return (s ? c[s - 1] : 32768) - (s < n - 1 ? c[s] : 0); }
void harness(void) {
    int bl, abl, abp, lbl, lbp, x8, y8, at, lf;
    ND(BlockContext, A); ND(BlockContext, L); ND(int, bl); ND(int, abl); ND(int, abp); ND(int, lbl); ND(int, lbp); ND(int, x8); ND(int, y8); ND(int, at); ND(int, lf);
    ASSUME(bl >= 0 && bl < N_BL_LEVELS && x8 >= 0 && x8 < 16 && y8 >= 0 && y8 < 16 && leaf(abl, abp) && leaf(lbl, lbp));
    A.partition[x8] = at ? dav1d_al_part_ctx[0][abl][abp] : 0;
    L.partition[y8] = lf ? dav1d_al_part_ctx[1][lbl][lbp] : 0;
    REACH("partition context");
    const int above = at && log2w(abl, abp) < 7 - bl, left = lf && log2h(lbl, lbp) < 7 - bl;
    ENSURE("partition context", get_partition_ctx(&A, &L, bl, y8, x8) == left * 2 + above);
    Cdf C; ND(Cdf, C);
    ASSUME(bl != BL_8X8); /* frame edges never cut an 8x8 block */
    const int n = bl == BL_128X128 ? 8 : 10;
    for (int i = 0; i < n - 1; i++) ASSUME(C.c[i] <= (i ? C.c[i - 1] : 32768));
    REACH("partition gather");
    const unsigned vert = prob(C.c, n, PARTITION_V) + prob(C.c, n, PARTITION_SPLIT) + prob(C.c, n, PARTITION_T_TOP_SPLIT) + prob(C.c, n, PARTITION_T_LEFT_SPLIT) + prob(C.c, n, PARTITION_T_RIGHT_SPLIT) + (n == 10 ? prob(C.c, n, PARTITION_V4) : 0);
    const unsigned horz = prob(C.c, n, PARTITION_H) + prob(C.c, n, PARTITION_SPLIT) + prob(C.c, n, PARTITION_T_TOP_SPLIT) + prob(C.c, n, PARTITION_T_BOTTOM_SPLIT) + prob(C.c, n, PARTITION_T_LEFT_SPLIT) + (n == 10 ? prob(C.c, n, PARTITION_H4) : 0);
    ENSURE("split_or_horz probability", gather_top_partition_prob(C.c, bl) == vert);
    ENSURE("split_or_vert probability", gather_left_partition_prob(C.c, bl) == horz);
}
#elif defined(U_TX)
#include "src/tables.c"
static int spec_in_set(const int set, const int t) { /* is_tx_type_in_set for inter sets */
    if (set == 3) return t == IDTX || t == DCT_DCT;
    if (set == 2) return t != V_ADST && t != H_ADST && t != V_FLIPADST && t != H_FLIPADST;
    return 1;
}
void harness(void) {
    int tx, t, yt; ND(int, tx); ND(int, t); ND(int, yt);
    ND(BlockContext, A); ND(BlockContext, L); ND(int, XB); ND(int, YB);
    ASSUME(XB >= 0 && XB < 32 && YB >= 0 && YB < 32 && tx >= 0 && tx < N_RECT_TX_SIZES && yt >= 0 && yt < N_TX_TYPES);
    const TxfmInfo *const d = &dav1d_txfm_dimensions[tx];
    static const uint8_t W[N_RECT_TX_SIZES] = { 4, 8, 16, 32, 64, 4, 8, 8, 16, 16, 32, 32, 64, 4, 16, 8, 32, 16, 64 };
    static const uint8_t H[N_RECT_TX_SIZES] = { 4, 8, 16, 32, 64, 8, 4, 16, 8, 32, 16, 64, 32, 16, 4, 32, 8, 64, 16 };
    const int w = W[tx], h = H[tx], mx = w > h ? w : h, mn = w > h ? h : w;
    REACH("transform");
    ENSURE("transform dimension table", d->w * 4 == w && d->h * 4 == h && 4 << d->lw == w && 4 << d->lh == h && 4 << d->max == mx && 4 << d->min == mn);
    /* Split_Tx_Size: squares halve both sides, rectangles split along the long side */
    if (tx != TX_4X4) {
        const int sw = W[d->sub], sh = H[d->sub];
        ENSURE("transform split table", w == h ? (sw == w / 2 && sh == h / 2) : w > h ? (sh == h && sw == w / 2) : (sw == w && sh == h / 2));
    }
    ASSUME(A.tx_intra[XB] >= -1 && A.tx_intra[XB] <= 4 && L.tx_intra[YB] >= -1 && L.tx_intra[YB] <= 4);
    const int aw = A.tx_intra[XB] < 0 ? 0 : 4 << A.tx_intra[XB], lh = L.tx_intra[YB] < 0 ? 0 : 4 << L.tx_intra[YB];
    ENSURE("tx_depth context", get_tx_ctx(&A, &L, d, YB, XB) == (aw >= w) + (lh >= h));
    if (mx <= 32) {
        REACH("chroma transform type");
        const int set = mx == 32 ? 3 : mn == 16 ? 2 : 1;
        ENSURE("inter chroma transform type", (int) get_uv_inter_txtp(d, yt) == (spec_in_set(set, yt) ? yt : DCT_DCT));
    }
}
#elif defined(U_SEG)
#define N 64
typedef struct { uint8_t m[N]; } Map; typedef struct { refmvs_candidate c[8]; } Stack;
void harness(void) {
    Map M; int bx, by, st, ctx, idx; Stack S;
    ND(Map, M); ND(int, bx); ND(int, by); ND(int, st); ND(int, HT); ND(int, HL); ND(int, idx); ND(Stack, S);
    /* any position of a map; a map of N entries stands for any window around it */
    ASSUME(bx >= 0 && by >= 0 && st >= 1 && st <= 16 && bx < st && by < 4 && (!HT || by > 0) && (!HL || bx > 0) && (HT == 0 || HT == 1) && (HL == 0 || HL == 1));
    const int pos = by * st + bx; ASSUME(pos < N);
    ctx = -1;
    const unsigned r = get_cur_frame_segid(by, bx, HT, HL, &ctx, M.m, st);
    const int pu = HT ? M.m[pos - st] : -1, pl = HL ? M.m[pos - 1] : -1, pul = HT && HL ? M.m[pos - st - 1] : -1;
    REACH("segment prediction");
    ENSURE("predicted segment id", (int) r == (pu == -1 ? (pl == -1 ? 0 : pl) : pl == -1 ? pu : pul == pu ? pu : pl));
    ENSURE("segment id context", ctx == (pul < 0 ? 0 : pul == pu && pul == pl ? 2 : pul == pu || pul == pl || pu == pl ? 1 : 0));
    ASSUME(idx >= 0 && idx <= 6);
    const int w0 = S.c[idx].weight, w1 = S.c[idx + 1].weight;
    ASSUME(w0 >= w1 || (w0 >= 640) == (w1 >= 640)); /* near candidates sorted before far ones */
    ENSURE("drl_mode context", get_drl_context(S.c, idx) == (w0 >= 640 ? w1 < 640 : 2));
}
#elif defined(U_MVPREC)
static Dav1dFrameHeader HD;
static int spec_lower(const int v, const int hp, const int fi) {
    if (hp) return v;
    if (fi) { const int a = v < 0 ? -v : v, i = (a + 3) >> 3; return i > 0 ? (v > 0 ? i * 8 : -(i * 8)) : 0; }
    return v & 1 ? (v > 0 ? v - 1 : v + 1) : v;
}
void harness(void) {
    mv m; ND(mv, m); ND(int, HT); int hp, fi; ND(int, hp); ND(int, fi);
    ASSUME((hp == 0 || hp == 1) && (fi == 0 || fi == 1) && !(hp && fi) && m.y > -(1 << 14) && m.y < 1 << 14 && m.x > -(1 << 14) && m.x < 1 << 14);
    HD.hp = hp; HD.force_integer_mv = fi;
    const int y = m.y, x = m.x;
    fix_mv_precision(&HD, &m);
    REACH("motion vector precision");
    ENSURE("lower_mv_precision", m.y == spec_lower(y, hp, fi) && m.x == spec_lower(x, hp, fi));
}
#elif defined(U_GMV)
static Dav1dFrameHeader HD; static Dav1dWarpedMotionParams G;
static int spec_lower(const int v, const int hp, const int fi) {
    if (hp) return v;
    if (fi) { const int a = v < 0 ? -v : v, i = (a + 3) >> 3; return i > 0 ? (v > 0 ? i * 8 : -(i * 8)) : 0; }
    return v & 1 ? (v > 0 ? v - 1 : v + 1) : v;
}
static int round2s(const int v, const int n) { return v < 0 ? -((-v + (1 << n >> 1)) >> n) : (v + (1 << n >> 1)) >> n; }
void harness(void) {
    M6 p; int type, bx, by, bw, bh, hp, fi;
    ND(M6, p); ND(int, type); ND(int, bx); ND(int, by); ND(int, bw); ND(int, bh); ND(int, hp); ND(int, fi);
    ASSUME((hp == 0 || hp == 1) && (fi == 0 || fi == 1) && !(hp && fi) && type >= 0 && type <= 3 && (type >= DAV1D_WM_TYPE_ROT_ZOOM) == WARP);
#ifdef HP
    hp = HP; fi = FI;
#endif
    ASSUME(bx >= 0 && bx < 16384 && by >= 0 && by < 16384 && bw >= 1 && bw <= 32 && bh >= 1 && bh <= 32);
    /* ranges produced by read_global_param */
    for (int i = 0; i < 6; i++) {
        const int o = i == 2 || i == 5 ? 1 << 16 : 0;
        ASSUME(p.m[i] >= o - (i < 2 ? 1 << 22 : 1 << 13) && p.m[i] <= o + (i < 2 ? 1 << 22 : 1 << 13));
    }
    if (type == DAV1D_WM_TYPE_ROT_ZOOM) ASSUME(p.m[5] == p.m[2] && p.m[4] == -p.m[3]);
    if (type == DAV1D_WM_TYPE_TRANSLATION) ASSUME(((p.m[0] | p.m[1]) & (hp ? 0x1fff : 0x3fff)) == 0);
    HD.hp = hp; HD.force_integer_mv = fi;
    G.type = type; for (int i = 0; i < 6; i++) G.matrix[i] = p.m[i];
    int y = 0, x = 0;
    if (type == DAV1D_WM_TYPE_TRANSLATION) { y = p.m[0] >> 13; x = p.m[1] >> 13; }
    else if (type != DAV1D_WM_TYPE_IDENTITY) {
        const int px = bx * 4 + bw * 2 - 1, py = by * 4 + bh * 2 - 1;
        const int xc = (p.m[2] - (1 << 16)) * px + p.m[3] * py + p.m[0], yc = (p.m[5] - (1 << 16)) * py + p.m[4] * px + p.m[1];
        if (hp) { y = round2s(yc, 13); x = round2s(xc, 13); } else { y = round2s(yc, 14) * 2; x = round2s(xc, 14) * 2; }
    }
    /* conforming streams have vectors that fit 16 bits */
    const int16_t sy = spec_lower((int16_t) y, hp, fi), sx = spec_lower((int16_t) x, hp, fi);
    const mv r = get_gmv_2d(&G, bx, by, bw, bh, &HD);
    REACH("global motion vector");
    ENSURE("global motion vector row", r.y == sy);
    ENSURE("global motion vector column", r.x == sx);
}
#endif
