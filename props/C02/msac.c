/* C02: arithmetic decoder against the AV1 symbol decoding process (8.2) */
#include "verif.h"
#include "config.h"
#include "src/msac.h"
#ifdef U_STUB
unsigned dav1d_msac_decode_bool_equi_c (MsacContext *s); unsigned dav1d_msac_decode_symbol_adapt_c (MsacContext *s, uint16_t *c, size_t n);
static unsigned stub_equi(void); static unsigned stub_sym(MsacContext *, uint16_t *, size_t);
#endif
#ifdef CALLER
static void ctx_norm (MsacContext *s, ec_win dif, unsigned rng); /* by its contract, proved in the 'norm' units */
#endif
#include "src/msac.c"
typedef unsigned __int128 u128;
#define NB 10
#ifndef U_STUB
typedef struct { uint8_t b[NB]; } bytes_t;
static bytes_t Buf; static MsacContext S;
static const uint8_t *P0; static int CNT0, LEFT; static u128 X;
/* View of a state: SymbolValue in the top 16 bits, then the inverted data bits still to come: those already in the window,
 * then those of the buffer, then the padding (zero bits, inverted). */
static u128 view(const MsacContext *const s) {
    u128 x; const int c = s->cnt; const int left = (int)(s->buf_end - s->buf_pos);
    const int in = 16 + (c < 0 ? 0 : c); /* bits of the window that hold value and data */
    x = (u128)(s->dif >> (64 - in)) << (128 - in);
    u128 y = 0; for (int i = 0; i < 8; i++) y = y << 8 | (uint8_t)(i < left ? ~s->buf_pos[i] : 0xff);
    y = y << 64 | ~0ULL;
    return x | y >> in;
}
/* representation invariant: what is below the window is zero as long as bytes are left (they are or-ed in) */
static int wf(const MsacContext *const s) {
    const int left = (int)(s->buf_end - s->buf_pos), c = s->cnt;
    if (c > 48 || s->rng < 32768 || s->rng > 65535 || s->dif >> 48 >= s->rng) return 0;
    if (c < 0) return !left && (c < -48 || (((s->dif | ((1ULL << -c) - 1)) & 0xffffffffffffULL) == 0xffffffffffffULL));
    return !left || c == 48 || !(s->dif << (16 + c));
}
#ifdef CALLER
static ec_win X_DIF;
static void start(void) { ND(MsacContext, S); ASSUME(S.rng >= 32768 && S.rng <= 65535 && S.dif >> 48 < S.rng); X_DIF = S.dif; X = (u128)S.dif << 64; }
#else
static void start(void) {
    ND(bytes_t, Buf); ND(MsacContext, S);
    int o, left; ND(int, o); ND(int, left); ASSUME(o >= 0 && o <= NB && left == NB - o);
    S.buf_pos = Buf.b + o; S.buf_end = Buf.b + NB;
    ASSUME(S.cnt > -1000000000 && S.cnt <= 48 && wf(&S));
    X = view(&S); P0 = S.buf_pos; CNT0 = S.cnt; LEFT = left;
}
#endif
#ifdef CALLER
static ec_win n_dif; static unsigned n_rng; static int n_calls;
static void ctx_norm (MsacContext *const s, const ec_win dif, const unsigned rng) {
    ENSURE("renormalised once, with a value below a non-zero range", !n_calls++ && rng >= 1 && rng <= 65535 && dif >> 48 < rng);
    n_dif = dif; n_rng = rng; s->dif = dif; s->rng = rng;
}
static int after(const unsigned v, const unsigned r) { return n_calls == 1 && n_rng == r && n_dif == ((ec_win)v << 48 | (X_DIF & 0xffffffffffffULL)); }
#else
/* spec state after a decision: value v and range r before renormalisation */
static int after(const unsigned v, const unsigned r) {
    #ifdef D
    const int d = D;
#else
    int d = 0; while (r << d < 32768 && d < 16) d++;
#endif
    const u128 e = ((u128)v << 112 | X << 16 >> 16) << d;
    const int adv = (int)(S.buf_pos - P0);
    if (S.rng != r << d || !wf(&S)) return 0;
    if (adv < 0 || adv > LEFT || S.buf_end != Buf.b + NB || S.cnt != CNT0 - d + 8 * adv) return 0;
    if (S.cnt < -32) return 1; /* far behind the end: outside every conforming stream */
    const int n = S.cnt < 0 ? 48 + S.cnt : 48; /* value and at least the next 16 bits */
    return view(&S) >> (128 - 16 - n) == e >> (128 - 16 - n);
}
#endif
#ifdef U_LEMMA
void harness(void) {
    unsigned rng; uint16_t a, b; ND(unsigned, rng); ND(uint16_t, a); ND(uint16_t, b);
    ASSUME(rng >= 32768 && rng <= 65535 && a <= b && b <= 32767);
    REACH("any");
    ENSURE("monotonic", (rng >> 8) * (a >> 6) <= (rng >> 8) * (b >> 6));
    ENSURE("room for the minimum probabilities", ((rng >> 8) * (b >> 6) >> 1) + 60 <= rng);
}
#endif
#ifdef U_NORM
void harness(void) {
    start(); unsigned r; uint64_t dif; ND(unsigned, r); ND(uint64_t, dif);
    ASSUME(r >= (32768 >> D) && r <= (65535 >> D) && dif >> 48 < r);
    ASSUME(dif << 16 == S.dif << 16); const unsigned v = dif >> 48;
    ctx_norm(&S, dif, r);
    REACH("renormalised");
    ENSURE("value, range and the bits that follow", after(v, r));
}
#endif
#ifdef U_INIT
void harness(void) {
    ND(bytes_t, Buf); int sz, dis; ND(int, sz); ND(int, dis); ASSUME(sz >= 0 && sz <= NB);
    dav1d_msac_init(&S, Buf.b + NB - sz, sz, dis);
    u128 y = 0; for (int i = 0; i < NB; i++) y = y << 8 | (i < sz ? Buf.b[NB - sz + i] : 0);
    unsigned v = 32767 ^ (unsigned)(y >> (8 * NB - 15)); /* init_symbol: 15 bits, padded with zeros */
    REACH("initialised");
    ENSURE("first value, range and adaptation flag", S.dif >> 48 == v && S.rng == 32768 && S.allow_update_cdf == !dis);
    ENSURE("well-formed state", wf(&S) && S.buf_end == Buf.b + NB && S.buf_pos >= Buf.b + NB - sz && S.buf_pos <= S.buf_end && S.cnt == -15 + 8 * (int)(S.buf_pos - (Buf.b + NB - sz)));
    const u128 e = (u128)v << 112 | (~y << (128 - 8 * NB) | (((u128)1 << (128 - 8 * NB)) - 1)) << 15 >> 16;
    ENSURE("the bits after the first 15 follow", S.cnt < 0 ? 1 : view(&S) >> 64 == e >> 64);
}
#endif
#ifdef U_EQUI
void harness(void) {
    start(); const unsigned r = S.rng, val = X >> 112, cur = ((r >> 8) * 256 >> 1) + 4; /* symbol 0 of the cdf { 1 << 14, 1 << 15, 0 } */
    const unsigned b = dav1d_msac_decode_bool_equi_c(&S), one = val < cur;
    REACH("decoded");
    ENSURE("value", b == one);
    ENSURE("state", after(one ? val : val - cur, one ? cur : r - cur));
}
#endif
#ifdef U_BOOL
void harness(void) {
    start(); unsigned f; ND(unsigned, f); ASSUME(f <= 32768);
    const unsigned r = S.rng, val = X >> 112, cur = ((r >> 8) * (f >> 6) >> 1) + 4;
    const unsigned b = dav1d_msac_decode_bool_c(&S, f), one = val < cur;
    REACH("decoded");
    ENSURE("value", b == one);
    ENSURE("state", after(one ? val : val - cur, one ? cur : r - cur));
}
#endif
#ifdef N /* alphabet size of the specification; the stored cdf holds 32768 minus the cumulative frequencies, then the counter */
typedef struct { uint16_t v[N + 1]; } cdf_t;
void harness(void) {
    static cdf_t C, D; static unsigned cum[N + 1];
    start(); ND(cdf_t, C);
#ifdef RNG
    ASSUME(S.dif >> 48 < RNG); S.rng = RNG;
#endif
    for (int i = 0; i < N - 1; i++) ASSUME(C.v[i] <= (i ? C.v[i - 1] : 32767)); /* valid: cumulative */
    ASSUME(C.v[N - 1] <= 32);
    D = C;
    for (int i = 0; i < N; i++) cum[i] = i == N - 1 ? 32768 : 32768 - C.v[i];
    cum[N] = C.v[N - 1];
    /* 8.2.6 symbol decoding, 8.2.7 cdf update */
    const unsigned val = X >> 112; unsigned cur = S.rng, prev = cur; const unsigned range = S.rng; int sym = -1;
#if PART == 0
    for (int i = 0; i < N - 1; i++) { /* instances of the lemma proved in unit 'lemma' */
        ASSUME(((range >> 8) * (D.v[i] >> 6) >> 1) + 60 <= range);
        if (i) ASSUME((range >> 8) * (D.v[i] >> 6) <= (range >> 8) * (D.v[i - 1] >> 6));
    }
#endif
    do { sym++; prev = cur; cur = (range >> 8) * ((sym == N - 1 ? 0 : D.v[sym]) >> 6); cur >>= 1; cur += 4 * (N - sym - 1); } while (val < cur);
    const int upd = S.allow_update_cdf;
#ifdef U_BADAPT
    const unsigned got = dav1d_msac_decode_bool_adapt_c(&S, C.v);
#else
    const unsigned got = dav1d_msac_decode_symbol_adapt_c(&S, C.v, N - 1);
#endif
#if PART != 1
    REACH("decoded");
    ENSURE("symbol", (int)got == sym && got < N);
    ENSURE("state", after(val - cur, prev - cur));
#endif
#ifndef J0
#define J0 0
#define J1 (N - 1)
#endif
#if PART != 0
    sym = got;
    if (upd) {
        const int rate = 3 + (cum[N] > 15) + (cum[N] > 31) + (N >= 4 ? 2 : 1); unsigned tmp = 0;
        for (int i = 0; i < N - 1; i++) {
            if (i == sym) tmp = 32768;
            if (tmp < cum[i]) cum[i] -= (cum[i] - tmp) >> rate; else cum[i] += (tmp - cum[i]) >> rate;
        }
        cum[N] += cum[N] < 32;
    }
    int same = C.v[N] == D.v[N], valid = 1;
    for (int i = J0; i < J1; i++) { same &= C.v[i] == 32768 - cum[i]; valid &= C.v[i] <= (i ? C.v[i - 1] : 32767); }
    same &= C.v[N - 1] == cum[N];
    ENSURE("cdf adapted by the specified rule, or untouched when updates are disabled", same);
    ENSURE("cdf stays valid", valid && C.v[N - 1] <= 32);
#endif
}
#endif
#else
static MsacContext S; static uint64_t BITS; static int K; static unsigned SYM[4]; static int NS; static uint16_t cdf[5];
static unsigned stub_equi(void) { ENSURE("number of bits", K < 60); return BITS >> K++ & 1; }
static unsigned L(int n) { unsigned v = 0; while (n-- > 0) v = 2 * v + stub_equi(); return v; }
static unsigned nsym(const unsigned n) { int w = 0; unsigned x = n; while (x) { x >>= 1; w++; } const unsigned m = (1u << w) - n, v = L(w - 1); return v < m ? v : (v << 1) - m + L(1); }
static int inv_rec(const int r, const int v) { return v > 2 * r ? v : v & 1 ? r - ((v + 1) >> 1) : r + (v >> 1); }
unsigned dav1d_msac_decode_bool_equi_c (MsacContext *const s) { return stub_equi(); }
unsigned dav1d_msac_decode_symbol_adapt_c (MsacContext *const s, uint16_t *const c, const size_t n) { ENSURE("same context", s == &S && c == cdf && n == 3 && NS < 4); return SYM[NS++]; }
void harness(void) {
    ND(uint64_t, BITS);
#ifdef U_SUBEXP
    int ref; const int n = 8 << SK; const unsigned k = SK; ND(int, ref); ASSUME(ref >= 0 && ref < n);
    int i = 0, mk = 0, v;
    for (;;) {
        const int b2 = i ? k + i - 1 : k, a = 1 << b2;
        if (n <= mk + 3 * a) { v = nsym(n - mk) + mk; break; }
        if (L(1)) { i++; mk += a; } else { v = L(b2) + mk; break; }
    }
    const int e = 2 * ref <= n ? inv_rec(ref, v) : n - 1 - inv_rec(n - 1 - ref, v), used = K;
    K = 0; const int g = dav1d_msac_decode_subexp(&S, ref, n, k);
    REACH("decoded"); ENSURE("value", g == e && g >= 0 && g < n); ENSURE("bits", K == used);
#elif defined U_UNIF
    unsigned n; ND(unsigned, n); ASSUME(n >= 2 && n <= 4096);
    const unsigned e = nsym(n); const int used = K; K = 0;
    const int g = dav1d_msac_decode_uniform(&S, n);
    REACH("decoded"); ENSURE("value", g == (int)e && e < n); ENSURE("bits", K == used);
#else
    unsigned e = 3, i = 0; for (int j = 0; j < 4; j++) { ND(unsigned, SYM[j]); ASSUME(SYM[j] <= 3); }
    for (; i < 4; i++) { e += SYM[i]; if (SYM[i] < 3) { i++; break; } } /* coeff_br: up to four symbols of at most 3 */
    const unsigned g = dav1d_msac_decode_hi_tok_c(&S, cdf);
    REACH("decoded"); ENSURE("token", g == e && g <= 15); ENSURE("symbols read", NS == (int)i);
#endif
}
#endif
