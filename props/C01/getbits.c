/* C01: the bit reader returns exactly the next n bits of the buffer (zero-extended
 * past the end), advances by n, latches an error exactly when it runs past the end,
 * and never reads outside the buffer. */
#include "verif.h"
#include "config.h"
#include <limits.h>
#include "src/getbits.h"

/* ---- abstract view ---------------------------------------------------------
 * position P (in bits) of a reader, and the well-formedness invariant tying the
 * cached bits to the bytes of the buffer. */
#define PAST_MIN (INT_MIN + 1024)
static int gb_ok(const GetBits *const c) {
    if (!(c->ptr_start <= c->ptr && c->ptr <= c->ptr_end)) return 0;
    if (c->bits_left < 0) /* ran past the end: nothing cached, error latched */
        return c->ptr == c->ptr_end && c->state == 0 && c->error && c->bits_left > INT_MIN + 64;
    if (c->bits_left > 7) return 0;
    if (!c->bits_left) return c->state == 0;
    return c->ptr > c->ptr_start && c->state == (uint64_t) c->ptr[-1] << (64 - c->bits_left);
}
static int64_t gb_pos(const GetBits *const c) { return 8 * (int64_t) (c->ptr - c->ptr_start) - c->bits_left; }

/* the n bits (1..32) at offset off (0..80) of a window */
static unsigned wbits(const unsigned __int128 w, const int off, const int n) {
    return (unsigned) (((uint64_t) ((w << off) >> 64)) >> (64 - n));
}

#if defined(U_SUBEXP) && !defined(VF_NATIVE)
/* caller's view of the two leaf readers: the stream is a 64-bit window GW, GPOS the
 * number of bits consumed so far.  This is the contract proved for the leaves by the
 * units get_bits/get_bit, restated over the window instead of the buffer. */
static uint64_t GW; static int GPOS;
unsigned dav1d_get_bits(GetBits *const c, const int n)
REQUIRES(n > 0 && n <= 32 && GPOS >= 0 && GPOS + n <= 64)
ENSURES(RESULT == (unsigned) ((GW << OLD(GPOS)) >> (64 - n)) && GPOS == OLD(GPOS) + n)
ASSIGNS(GPOS);
unsigned dav1d_get_bit(GetBits *const c)
REQUIRES(GPOS >= 0 && GPOS + 1 <= 64)
ENSURES(RESULT == (unsigned) ((GW << OLD(GPOS)) >> 63) && GPOS == OLD(GPOS) + 1)
ASSIGNS(GPOS);
int dav1d_get_bits_subexp(GetBits *const c, const int ref, const unsigned n)
REQUIRES(n >= 3 && n <= 15 && ref >= -(1 << n) && ref <= 1 << n)
ASSIGNS(GPOS);
#elif !defined(VF_NATIVE)
unsigned dav1d_get_bits(GetBits *const c, const int n)
REQUIRES(__CPROVER_rw_ok(c, sizeof(*c)))
REQUIRES(gb_ok(c) && n > 0 && n <= 32)
ENSURES(gb_ok(c) && c->ptr_end == OLD(c->ptr_end) && c->ptr_start == OLD(c->ptr_start))
ASSIGNS(c->ptr, c->state, c->bits_left, c->error);

int dav1d_get_sbits(GetBits *const c, const int n)
REQUIRES(__CPROVER_rw_ok(c, sizeof(*c)))
REQUIRES(gb_ok(c) && n > 0 && n <= 32)
ENSURES(gb_ok(c) && c->ptr_end == OLD(c->ptr_end) && c->ptr_start == OLD(c->ptr_start))
ASSIGNS(c->ptr, c->state, c->bits_left, c->error);

unsigned dav1d_get_bit(GetBits *const c)
REQUIRES(__CPROVER_rw_ok(c, sizeof(*c)))
REQUIRES(gb_ok(c))
ENSURES(gb_ok(c) && RESULT <= 1 && c->ptr_end == OLD(c->ptr_end) && c->ptr_start == OLD(c->ptr_start))
ASSIGNS(c->ptr, c->state, c->bits_left, c->error);

unsigned dav1d_get_uleb128(GetBits *const c)
REQUIRES(__CPROVER_rw_ok(c, sizeof(*c)))
REQUIRES(gb_ok(c))
ENSURES(gb_ok(c) && c->ptr_end == OLD(c->ptr_end) && c->ptr_start == OLD(c->ptr_start))
ASSIGNS(c->ptr, c->state, c->bits_left, c->error);

unsigned dav1d_get_uniform(GetBits *const c, const unsigned max)
REQUIRES(__CPROVER_rw_ok(c, sizeof(*c)))
REQUIRES(gb_ok(c) && max > 1 && max <= 0x7fffffff)
ENSURES(gb_ok(c) && RESULT < max)
ASSIGNS(c->ptr, c->state, c->bits_left, c->error);

unsigned dav1d_get_vlc(GetBits *const c)
REQUIRES(__CPROVER_rw_ok(c, sizeof(*c)))
REQUIRES(gb_ok(c))
ENSURES(gb_ok(c) && c->ptr_end == OLD(c->ptr_end) && c->ptr_start == OLD(c->ptr_start))
ASSIGNS(c->ptr, c->state, c->bits_left, c->error);

#endif

#include "src/getbits.c"

/* The reader starts anywhere in a buffer with R bytes left, R any value up to 2^31-2
 * (bytes before the previous one are never looked at, so the object starts there). */
#define NB 24
static uint8_t BUF[NB];
static uint8_t *B; static int64_t R, P; static unsigned __int128 W; static int OLDERR;
static GetBits C, C0;
/* zero-extended 128-bit window of the buffer starting at bit position pos (0..16) */
static unsigned __int128 win(const int64_t pos) {
    unsigned __int128 w = 0;
    if (C.bits_left < 0) return 0;
    for (int k = 0; k < 17; k++) {
        const uint8_t v = BUF[k];
        if (k < 16) w = (w << 8) | v;
        else if (pos & 7) { w <<= pos & 7; w |= v >> (8 - (pos & 7)); }
    }
    if (pos >= 8) { /* bits_left == 0: nothing of byte 0 is left */
        w = 0;
        for (int k = 1; k < 17; k++) w = (w << 8) | (BUF[k]);
    }
    return w;
}
#define SZ (R + 1)
static void setup(void) {
    uint32_t rem; int bl, err;
    ND(uint32_t, rem); ND(int, bl); ND(int, err);
    ASSUME(rem <= 0x7ffffffe);
    R = rem;
    B = malloc((size_t) rem + 1); ASSUME(B);
    for (int k = 0; k < NB; k++) {
        uint8_t v = 0;
#ifdef VF_NATIVE
        ND(uint8_t, v); if (k <= R) B[k] = v; else v = 0;
#else
        if (k <= R) v = B[k];
        __CPROVER_input("vf:uint8_t", v);
#endif
        BUF[k] = v; /* zero past the end */
    }
    C.ptr_start = B; C.ptr = B + 1; C.ptr_end = B + 1 + rem; C.bits_left = bl; C.error = err;
    C.state = bl > 0 && bl < 8 ? (uint64_t) B[0] << (64 - bl) : 0;
    ASSUME(gb_ok(&C) && bl > PAST_MIN);
    P = gb_pos(&C); W = win(P); OLDERR = C.error; C0 = C;
}
/* result of any reader that consumed n bits from position P */
static void consumed(const int64_t n) {
    ENSURE("position advances by the number of bits read", gb_pos(&C) == P + n);
    ENSURE("error latched exactly when reading past the end", !!C.error == (OLDERR || P + n > 8 * SZ));
    NATIVE_ENSURE("reader state is well formed", gb_ok(&C));
    ENSURE("buffer bounds unchanged", C.ptr_end == C0.ptr_end && C.ptr_start == C0.ptr_start);
}

#if defined(U_BITS)
void harness(void) {
    int n; setup(); ND(int, n); ASSUME(n > 0 && n <= 32);
    const unsigned r = dav1d_get_bits(&C, n);
    REACH("get_bits returns");
    ENSURE("get_bits returns the next n bits", r == wbits(W, 0, n));
    consumed(n);
}
#elif defined(U_SBITS)
void harness(void) {
    int n; setup(); ND(int, n); ASSUME(n > 0 && n <= 32);
    const int r = dav1d_get_sbits(&C, n);
    REACH("get_sbits returns");
    ENSURE("get_sbits returns the next n bits sign-extended", r == (int) ((int64_t) ((uint64_t) wbits(W, 0, n) << (64 - n)) >> (64 - n)));
    consumed(n);
}
#elif defined(U_BIT)
void harness(void) {
    setup();
    const unsigned r = dav1d_get_bit(&C);
    REACH("get_bit returns");
    ENSURE("get_bit returns the next bit", r == wbits(W, 0, 1));
    consumed(1);
}
#elif defined(U_INIT)
void harness(void) {
    uint32_t sz; ND(uint32_t, sz); ASSUME(sz > 0 && sz < 0x7fffffff);
    B = malloc(sz); ASSUME(B);
    ND(GetBits, C);
    dav1d_init_get_bits(&C, B, sz);
    REACH("init returns");
    ENSURE("reader starts at bit 0 of the buffer with no error", gb_ok(&C) && gb_pos(&C) == 0 && !C.error && C.ptr_start == B && C.ptr_end == B + sz);
    C.error = 0;
}
#elif defined(U_ULEB)
void harness(void) {
    setup();
    const unsigned r = dav1d_get_uleb128(&C);
    REACH("uleb128 returns");
    uint64_t v = 0; int len = 0, more = 1;
    for (int i = 0; i < 8 && more; i++) {
        const unsigned b = wbits(W, 8 * i, 8);
        v |= (uint64_t) (b & 127) << (7 * i); len++;
        more = b >> 7;
    }
    const int bad = more || v > 0xffffffffu;
    ENSURE("uleb128 value", r == (bad ? 0 : (unsigned) v));
    ENSURE("position advances by whole coded length", gb_pos(&C) == P + 8 * len);
    ENSURE("error latched exactly on overlong, oversized or truncated values", !!C.error == (OLDERR || bad || P + 8 * len > 8 * SZ));
}
#elif defined(U_UNIFORM)
void harness(void) {
    unsigned max; setup(); ND(unsigned, max); ASSUME(max > 1 && max <= 0x7fffffff);
    const unsigned r = dav1d_get_uniform(&C, max);
    REACH("uniform returns");
    int w = 0; /* FloorLog2(max) + 1 */
    for (int i = 0; i < 32; i++) if (max >> i) w = i + 1;
    const unsigned m = (1U << w) - max;
    unsigned v = wbits(W, 0, w - 1); int n = w - 1;
    if (v >= m) { v = (v << 1) - m + wbits(W, w - 1, 1); n = w; }
    ENSURE("ns(n) value", r == v);
    ENSURE("ns(n) value in range", r < max);
    consumed(n);
}
#elif defined(U_VLC)
void harness(void) {
    setup();
    const unsigned r = dav1d_get_vlc(&C);
    REACH("vlc returns");
    int lz = 0, done = 0;
    for (int i = 0; i < 32 && !done; i++) { if (wbits(W, i, 1)) done = 1; else lz++; }
    if (lz >= 32) {
        ENSURE("uvlc saturates after 32 zero bits", r == 0xffffffffu);
        consumed(32);
    } else {
        ENSURE("uvlc value", r == (lz ? wbits(W, lz + 1, lz) + (1U << lz) - 1 : 0));
        consumed(2 * lz + 1);
    }
}
#elif defined(U_SUBEXP)
#ifdef VF_NATIVE
#define GPOS ((int) gb_pos(&C))
#endif
static unsigned wb(const uint64_t w, const int off, const int n) { return (unsigned) ((w << off) >> (64 - n)); }
static int inv_recenter_s(const int r, const int v) {
    return v > 2 * r ? v : v & 1 ? r - ((v + 1) >> 1) : r + (v >> 1);
}
void harness(void) {
    unsigned n; int ref; uint64_t w64; ND(uint64_t, w64); ND(int, ref); n = NSUB;
#ifdef VF_NATIVE
    B = malloc(16); for (int i = 0; i < 16; i++) B[i] = i < 8 ? (uint8_t) (w64 >> (56 - 8 * i)) : 0;
    dav1d_init_get_bits(&C, B, 16);
#else
    GW = w64; GPOS = 0;
#endif
    ASSUME(n >= 3 && n <= 15 && ref >= -(1 << n) && ref <= 1 << n);
    const int r = dav1d_get_bits_subexp(&C, ref, n);
    REACH("subexp returns");
    /* AV1 spec decode_signed_subexp_with_ref(-(1<<n), (1<<n)+1, ref) */
    const int mx = (2 << n) + 1, rr = ref + (1 << n);
    int i = 0, mk = 0, used = 0, v = 0, done = 0; const int k = 3;
    for (int it = 0; it < 13 && !done; it++) {
        const int b2 = i ? k + i - 1 : k, a = 1 << b2;
        if (mx <= mk + 3 * a) {
            const unsigned nn = mx - mk; int w = 0;
            for (int q = 0; q < 18; q++) if (nn >> q) w = q + 1;
            const unsigned m = (1U << w) - nn;
            unsigned x = w > 1 ? wb(w64, used, w - 1) : 0; used += w - 1;
            if (x >= m) { x = (x << 1) - m + wb(w64, used, 1); used++; }
            v = x + mk; done = 1;
        } else {
            const int more = wb(w64, used, 1); used++;
            if (more) { i++; mk += a; }
            else { v = wb(w64, used, b2) + mk; used += b2; done = 1; }
        }
    }
    const int x = (rr << 1) <= mx ? inv_recenter_s(rr, v) : mx - 1 - inv_recenter_s(mx - 1 - rr, v);
    ENSURE("signed subexp value", r == x - (1 << n));
    ENSURE("position advances by the bits of the code", GPOS == used);
}
#endif
