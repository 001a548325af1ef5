/* C22: palette colours (palette cache, new colours, V deltas) */
#include "verif.h"
#include "config.h"
struct MsacContext; static unsigned dav1d_msac_decode_bools (struct MsacContext *s, unsigned n);
#include "src/internal.h"
#include "src/recon_tmpl.c"
#include "src/tables.c"
#define MAXV 28
static unsigned V[MAXV]; static uint8_t NB[MAXV]; static int K, k, ok = 1; static unsigned SZ; static uint16_t *SZCDF;
static Dav1dTaskContext T; static Dav1dTileState TS; static Dav1dFrameContext F; static Av1Block B;
static unsigned lit(const unsigned n) { ENSURE("number of literals", K < MAXV && n <= 32); NB[K] = n; unsigned v; ND(unsigned, v); ASSUME(n ? v >> (n - 1) < 2 : !v); V[K] = v; return V[K++]; }
static unsigned dav1d_msac_decode_bools (MsacContext *const s, const unsigned n) { return n ? lit(n) : 0; }
unsigned (dav1d_msac_decode_bool_equi_c)(MsacContext *const s) { return lit(1); }
unsigned (dav1d_msac_decode_symbol_adapt_c)(MsacContext *const s, uint16_t *const cdf, const size_t n) { ENSURE("palette size symbol", n == 6 && !SZCDF); SZCDF = cdf; return SZ; }
static unsigned L(const int n) { if (!n) return 0; ok &= k < K && NB[k] == n; return V[k++]; }
static int ceil_log2(const int x) { int i = 0; while (1 << i < x) i++; return x < 2 ? 0 : i; }
typedef struct { uint16_t l[8], a[8]; } in_t;
#define BX 3
#ifdef U_UV
static int PLANE_N, PLANE_CALLS;
void bytefn(dav1d_read_pal_plane) (Dav1dTaskContext *const t, Av1Block *const b, const int pl, const int ctx, const int bx4, const int by4) { ENSURE("U plane", t == &T && b == &B && pl == 1 && ctx == 2 && bx4 == BX && by4 == 5 && !K); PLANE_CALLS++; b->pal_sz[1] = PLANE_N; }
#endif
#ifdef U_PLANE
void harness(void) {
    in_t I; const unsigned nl = NL, na = NA; ND(in_t, I); SZ = MAXN - 2;
    const int bpc = BITDEPTH == 8 ? 8 : BPC, max = (1 << bpc) - 1;
    static BlockContext A; T.ts = &TS; T.f = &F; T.a = &A; F.cur.p.bpc = bpc;
#ifdef FIX
    { static const uint8_t fl[2][4] = { { 10, 20, 20, 40 }, { 3, 200, 255, 255 } }, fa[2][4] = { { 10, 20, 30, 50 }, { 0, 3, 4, 90 } }; for (int i = 0; i < 4; i++) { I.l[i] = fl[FIX][i]; I.a[i] = fa[FIX][i]; } }
    for (int i = 0; i < 4; i++) { bytefn(T.al_pal)[1][BY][PL][i] = I.l[i]; bytefn(T.al_pal)[0][BX][PL][i] = I.a[i]; }
#else
    for (int i = 0; i < 8; i++) { ASSUME(I.l[i] <= max && I.a[i] <= max && (i == 0 || (I.l[i] >= I.l[i - 1] && I.a[i] >= I.a[i - 1]))); /* palettes are sorted */
        bytefn(T.al_pal)[1][BY][PL][i] = I.l[i]; bytefn(T.al_pal)[0][BX][PL][i] = I.a[i]; }
#endif
    if (PL) { T.pal_sz_uv[1][BY] = nl; T.pal_sz_uv[0][BX] = na; } else { T.l.pal_sz[BY] = nl; A.pal_sz[BX] = na; }
    bytefn(dav1d_read_pal_plane)(&T, &B, PL, 2, BX, BY);
    /* get_palette_cache */
    uint16_t cache[16], col[8]; int n = 0, ia = 0, il = 0; const int an = BY % 16 ? na : 0;
    for (int j = 0; j < NL + NA; j++) {
        int c, have = 1;
        if (ia < an && il < nl) { if (I.l[il] < I.a[ia]) c = I.l[il++]; else { c = I.a[ia]; if (I.l[il] == c) il++; ia++; } }
        else if (ia < an) c = I.a[ia++]; else if (il < (int)nl) c = I.l[il++]; else have = 0;
        if (have && (!n || c != cache[n - 1])) cache[n++] = c;
    }
    const int sz = SZ + 2; int idx = 0;
    for (int j = 0; j < NL + NA; j++) if (j < n && idx < sz) if (L(1)) col[idx++] = cache[j];
    if (idx < sz) {
        col[idx++] = L(bpc);
        int bits = 0; if (idx < sz) bits = bpc - 3 + L(2);
        for (int j = 0; j < MAXN; j++) if (idx < sz) {
            int d = L(bits); if (!PL) d++;
            col[idx] = col[idx - 1] + d > max ? max : col[idx - 1] + d;
            const int range = (1 << bpc) - col[idx] - (PL ? 0 : 1), cl = ceil_log2(range);
            if (cl < bits) bits = cl;
            idx++;
        }
    }
    for (int x = 0; x < MAXN; x++) for (int y = 0; y + 1 < MAXN; y++) if (y + 1 < sz && col[y] > col[y + 1]) { const uint16_t q = col[y]; col[y] = col[y + 1]; col[y + 1] = q; }
    int same = 1; for (int j = 0; j < MAXN; j++) if (j < sz) same &= bytefn(T.scratch.pal)[PL][j] == col[j];
    REACH("read");
    ENSURE("size and its context", B.pal_sz[PL] == sz && SZCDF == TS.cdf.m.pal_sz[PL][2]);
    ENSURE("literals read", ok && k == K);
    ENSURE("colours", same);
}
#else
void harness(void) {
    int n; ND(int, n); ASSUME(n >= 2 && n <= MAXN);
    const int bpc = BITDEPTH == 8 ? 8 : BPC, max = 1 << bpc;
    T.ts = &TS; T.f = &F; F.cur.p.bpc = bpc; B.pal_sz[1] = n;
    PLANE_N = n;
    bytefn(dav1d_read_pal_uv)(&T, &B, 2, BX, 5);
    int v[8];
    if (L(1)) {
        const int bits = bpc - 4 + L(2); v[0] = L(bpc);
        for (int i = 1; i < MAXN; i++) if (i < n) {
            int d = L(bits); if (d) if (L(1)) d = -d;
            int x = v[i - 1] + d; if (x < 0) x += max; if (x >= max) x -= max;
            v[i] = x < 0 ? 0 : x >= max ? max - 1 : x;
        }
    } else for (int i = 0; i < MAXN; i++) if (i < n) v[i] = L(bpc);
    int same = 1; for (int j = 0; j < MAXN; j++) if (j < n) same &= bytefn(T.scratch.pal)[2][j] == v[j];
    REACH("read");
    ENSURE("U plane read first", PLANE_CALLS == 1);
    ENSURE("literals read", ok && k == K);
    ENSURE("V colours", same);
}
#endif
