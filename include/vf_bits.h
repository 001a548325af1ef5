/* A bit string as an uninterpreted function of position and length. The bit readers (contracts proved under C01) are
 * stubs over it; a specification parser reads the same string through f(), so both see identical bits. */
#ifndef VF_BITS_H
#define VF_BITS_H
#ifndef VF_BITWISE
#define VF_BITWISE 5 /* reads up to this length are composed of single bits, so that splitting a read does not matter */
#endif
#ifdef VF_NATIVE
static unsigned vf_mem[1 << 16]; static char vf_known[1 << 16];
static unsigned vf_bits(const unsigned pos, const int n) { /* one value per position; both parsers must ask with the same length */
    if (n > 1 && n <= VF_BITWISE) { unsigned r = 0; for (int i = 0; i < n; i++) r = r * 2 + vf_bits(pos + i, 1); return r; }
    const unsigned k = (pos * 40 + n) & 65535; unsigned v; ND(unsigned, v);
    if (!vf_known[k]) { vf_known[k] = 1; vf_mem[k] = n >= 32 ? v : v & ((1u << n) - 1); }
    return vf_mem[k];
}
#else
unsigned __CPROVER_uninterpreted_bits(unsigned pos, int n);
static unsigned vf_bits(const unsigned pos, const int n) {
    #define VF_B(i) (__CPROVER_uninterpreted_bits(pos + i, 1) & 1)
#if VF_BITWISE
    if (n == 1) return VF_B(0);
    if (n == 2) return VF_B(0) << 1 | VF_B(1);
    if (n == 3) return VF_B(0) << 2 | VF_B(1) << 1 | VF_B(2);
    if (n == 4) return VF_B(0) << 3 | VF_B(1) << 2 | VF_B(2) << 1 | VF_B(3);
    if (n == 5) return VF_B(0) << 4 | VF_B(1) << 3 | VF_B(2) << 2 | VF_B(3) << 1 | VF_B(4);
#endif
    const unsigned u = __CPROVER_uninterpreted_bits(pos, n);
    return n >= 32 ? u : u & ((1u << n) - 1);
}
#endif
static unsigned POS, SPOS; /* positions of the code and of the specification */
static int GBERR;
unsigned dav1d_get_bits(GetBits *const c, const int n) { ENSURE("bit count", n > 0 && n <= 32); const unsigned v = vf_bits(POS, n); POS += n; return v; }
unsigned dav1d_get_bit(GetBits *const c) { const unsigned v = vf_bits(POS, 1); POS += 1; return v; }
int dav1d_get_sbits(GetBits *const c, const int n) { ENSURE("bit count", n > 0 && n <= 32); const unsigned v = vf_bits(POS, n); POS += n; return (int)(v << (32 - n)) >> (32 - n); }
static unsigned f(const int n) { const unsigned v = vf_bits(SPOS, n); SPOS += n; return v; }
static int su(const int n) { const unsigned v = f(n); return (int)(v << (32 - n)) >> (32 - n); }
/* variable-length codes: value and length are functions of the position (kinds 40.. of the same function) */
static unsigned vf_code(const unsigned pos, const int kind) { return vf_bits(pos, 40 + kind); }
static unsigned vf_len(const unsigned pos, const int kind) { return 1 + (vf_bits(pos, 60 + kind) & 63); }
unsigned dav1d_get_vlc(GetBits *const c) { const unsigned v = vf_code(POS, 0); POS += vf_len(POS, 0); return v; }
static unsigned uvlc(void) { const unsigned v = vf_code(SPOS, 0); SPOS += vf_len(SPOS, 0); return v; }
#endif
