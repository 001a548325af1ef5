/* C14: coefficient contexts and Golomb codes (8-bit instantiation of the template; the
 * functions do not depend on the bit depth). Specification side: AV1 all_zero, dc_sign,
 * coeff_base and coeff_br context derivations and read_golomb. */
#include "verif.h"
#define BITDEPTH 8
#include "config.h"
#include "src/internal.h"
#ifdef U_GOLOMB
/* the bit source: bit n of the stream is B[n] */
static uint8_t B[80]; static int POS;
unsigned (dav1d_msac_decode_bool_equi_c)(MsacContext *const s) { ENSURE("golomb code reads at most 65 bits", POS < 65); return B[POS++] & 1; }
#endif
#include "src/recon_tmpl.c"
#include "src/tables.c"
static const uint8_t TW[N_RECT_TX_SIZES] = { 1, 2, 4, 8, 16, 1, 2, 2, 4, 4, 8, 8, 16, 1, 4, 2, 8, 4, 16 };
static const uint8_t TH[N_RECT_TX_SIZES] = { 1, 2, 4, 8, 16, 2, 1, 4, 2, 8, 4, 16, 8, 4, 1, 8, 2, 16, 4 };
typedef struct { uint8_t v[32]; } __attribute__((aligned(8))) Ctx32;
/* block sizes in 4-pixel units, in dav1d's enumeration order */
static const uint8_t BW[N_BS_SIZES] = { 32, 32, 16, 16, 16, 16, 8, 8, 8, 8, 4, 4, 4, 4, 4, 2, 2, 2, 2, 1, 1, 1 };
static const uint8_t BH[N_BS_SIZES] = { 32, 16, 32, 16, 8, 4, 16, 8, 4, 2, 16, 8, 4, 2, 1, 8, 4, 2, 1, 4, 2, 1 };
#if defined(U_SKIP)
void harness(void) {
    Ctx32 A, L; int tx, bs, chroma, layout;
    ND(Ctx32, A); ND(Ctx32, L); ND(int, bs); ND(int, layout);
    tx = TX; chroma = CHROMA;
    ASSUME(bs >= 0 && bs < N_BS_SIZES && layout >= 0 && layout <= 3);
    const int w = TW[tx], h = TH[tx];
    const int ao = 32 - w, lo = 32 - h; /* last position of the array: a longer read is out of bounds */
    int bw = BW[bs], bh = BH[bs];
    ENSURE("block dimension table", dav1d_block_dimensions[bs][0] == bw && dav1d_block_dimensions[bs][1] == bh && 1 << dav1d_block_dimensions[bs][2] == bw && 1 << dav1d_block_dimensions[bs][3] == bh);
    if (chroma) {
        ASSUME(layout != DAV1D_PIXEL_LAYOUT_I400 && w <= 8 && h <= 8);
        if (layout != DAV1D_PIXEL_LAYOUT_I444) bw = (bw + 1) >> 1;
        if (layout == DAV1D_PIXEL_LAYOUT_I420) bh = (bh + 1) >> 1;
    }
    ASSUME(w <= bw && h <= bh);
    /* entry: level in bits 0-5, dc category in bits 6-7 (0 negative, 1 zero, 2 positive) */
    unsigned top = 0, left = 0, aany = 0, lany = 0;
    for (int i = 0; i < 16; i++) {
        if (i < w) { const unsigned v = A.v[ao + i]; ASSUME(v >> 6 <= 2); if ((v & 63) > top) top = v & 63; aany |= (v & 63) || v >> 6 != 1; }
        if (i < h) { const unsigned v = L.v[lo + i]; ASSUME(v >> 6 <= 2); if ((v & 63) > left) left = v & 63; lany |= (v & 63) || v >> 6 != 1; }
    }
    unsigned ctx;
    if (chroma) { ctx = 7 + !!aany + !!lany; if (bw * bh > w * h) ctx += 3; }
    else if (bw == w && bh == h) ctx = 0;
    else if (!top && !left) ctx = 1;
    else if (!top || !left) ctx = 2 + ((top > left ? top : left) > 3);
    else if ((top > left ? top : left) <= 3) ctx = 4;
    else if ((top < left ? top : left) <= 3) ctx = 5;
    else ctx = 6;
    const unsigned r = get_skip_ctx(&dav1d_txfm_dimensions[tx], bs, A.v + ao, L.v + lo, chroma, layout);
    REACH("all_zero context");
    ENSURE("all_zero context", r == ctx);
    ENSURE("all_zero context inside its table", r < 13);
}
#elif defined(U_DC)
void harness(void) {
    Ctx32 A, L; ND(Ctx32, A); ND(Ctx32, L);
    const int tx = TX, w = TW[tx], h = TH[tx];
    const int ao = 32 - w, lo = 32 - h;
    unsigned sum = 0; /* categories are dcSign + 1 */
    for (int i = 0; i < 8; i++) {
        unsigned lane = 0;
        for (int k = i; k < 16; k += 8) if (k < w) { const unsigned c = A.v[ao + k] >> 6; ASSUME(c <= 2); lane += c; }
        for (int k = i; k < 16; k += 8) if (k < h) { const unsigned c = L.v[lo + k] >> 6; ASSUME(c <= 2); lane += c; }
        sum += lane;
    }
    const int s = (int) sum - w - h;
    const unsigned r = get_dc_sign_ctx(tx, A.v + ao, L.v + lo);
    REACH("dc sign context");
    ENSURE("dc_sign context", r == (s < 0 ? 1 : s > 0 ? 2 : 0));
}
#elif defined(U_LO)
typedef struct { uint8_t v[5][8]; } Lv;
/* Coeff_Base_Ctx_Offset: square, wide and tall transforms (dav1d stores coefficients
 * transposed, so the first index runs along the width) */
static const uint8_t OFF[3][5][5] = {
    { { 0, 1, 6, 6, 21 }, { 1, 6, 6, 21, 21 }, { 6, 6, 21, 21, 21 }, { 6, 21, 21, 21, 21 }, { 21, 21, 21, 21, 21 } },
    { { 0, 16, 6, 6, 21 }, { 16, 16, 6, 21, 21 }, { 16, 16, 21, 21, 21 }, { 16, 16, 21, 21, 21 }, { 16, 16, 21, 21, 21 } },
    { { 0, 11, 11, 11, 11 }, { 11, 11, 11, 11, 11 }, { 6, 6, 21, 21, 21 }, { 6, 21, 21, 21, 21 }, { 21, 21, 21, 21, 21 } } };
static unsigned enc(const unsigned l) { return (l < 3 ? l : 3) * 64 + (l < 15 ? l : 15); }
static unsigned m3(const unsigned l) { return l < 3 ? l : 3; }
void harness(void) {
    /* coefficient magnitudes around a position, saturated at 15 like the parser does */
    Lv Q; uint8_t lev[5 * 8]; unsigned hi = 0, x, y; int cls, sz; ND(Lv, Q); ND(unsigned, x); ND(unsigned, y); ND(int, cls); ND(int, sz);
    ASSUME(x < 32 && y < 32 && cls >= 0 && cls <= 2 && sz >= 0 && sz <= 2);
    for (int i = 0; i < 5; i++) for (int j = 0; j < 8; j++) { ASSUME(Q.v[i][j] <= 15); lev[i * 8 + j] = enc(Q.v[i][j]); }
    const unsigned r = get_lo_ctx(lev, cls, &hi, cls == TX_CLASS_2D ? dav1d_lo_ctx_offsets[sz] : NULL, x, y, 8);
    REACH("low-frequency context");
    unsigned mag, br, off;
#define QQ(r, c) Q.v[r][c]
    if (cls == TX_CLASS_2D) {
        mag = m3(QQ(0, 1)) + m3(QQ(1, 0)) + m3(QQ(1, 1)) + m3(QQ(0, 2)) + m3(QQ(2, 0));
        br = QQ(0, 1) + QQ(1, 0) + QQ(1, 1);
        /* Coeff_Base_Ctx_Offset for square, wide (w > h) and tall transforms; y runs along the width-ordered axis of the scan */
        const unsigned p = y < 4 ? y : 4, q = x < 4 ? x : 4;
        off = OFF[sz][p][q];
    } else {
        mag = m3(QQ(0, 1)) + m3(QQ(1, 0)) + m3(QQ(0, 2)) + m3(QQ(0, 3)) + m3(QQ(0, 4));
        br = QQ(0, 1) + QQ(1, 0) + QQ(0, 2);
        off = y == 0 ? 26 : y == 1 ? 31 : 36;
    }
    mag = (mag + 1) >> 1; if (mag > 4) mag = 4;
    ENSURE("coeff_base context", r == off + mag);
    ENSURE("coeff_base context inside its table", r < 41);
    ENSURE("coeff_br magnitude", (hi & 63) == br);
}
#elif defined(U_GOLOMB)
typedef struct { uint8_t b[80]; } Bits; static Bits BB;
void harness(void) {
    ND(Bits, BB); for (int i = 0; i < 80; i++) B[i] = BB.b[i] & 1;
    static MsacContext M; const unsigned r = read_golomb(&M);
    int z = 0; while (z < 32 && !B[z]) z++;
    REACH("golomb");
    ENSURE("golomb code length", POS == 2 * z + 1);
    if (z < 32) {
        uint64_t x = 1; for (int i = 0; i < 32; i++) if (i < z) x = 2 * x + B[z + 1 + i];
        REACH("golomb value");
        ENSURE("golomb value", r == x - 1 && POS == 2 * z + 1);
    }
}
#endif
