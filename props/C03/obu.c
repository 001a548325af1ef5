/* C03: trailing bits, and the public dav1d_parse_sequence_header over a byte buffer */
#include "verif.h"
#include "config.h"
#ifndef MAXSZ
#define MAXSZ 8
#endif
#ifdef U_PUB
#include "common/attributes.h"
#include "dav1d/headers.h"
#include "src/getbits.h"
static NOINLINE int parse_seq_hdr (Dav1dSequenceHeader *hdr, GetBits *gb, int strict);
#endif
#include "src/obu.c"
#include "src/getbits.c"
typedef struct { uint8_t b[MAXSZ]; } buf_t; typedef struct { int v[MAXSZ + 1]; } ints_t;
static buf_t B;
#define buf (B.b)
#ifdef U_TRAIL
/* trailing_bits(): a one bit, then zero bits to the end of the OBU; only a missing first bit matters when not strict */
void harness(void) {
    ND(buf_t, B);
    int strict, sz, off; ND(int, strict); ND(int, sz); ND(int, off);
    ASSUME(sz >= 1 && sz <= MAXSZ && off >= 0 && off <= 31);
    uint8_t *const p = buf + MAXSZ - sz; /* the buffer ends where the object ends */
    GetBits gb; dav1d_init_get_bits(&gb, p, sz);
    if (off) dav1d_get_bits(&gb, off);
    const int r = check_trailing_bits(&gb, strict);
    int good = 8 * sz > off; 
    if (good && strict) for (int i = 0; i < 8 * MAXSZ; i++) if (i >= off && i < 8 * sz) good &= (p[i >> 3] >> (7 - (i & 7)) & 1) == (i == off);
    REACH("called");
    ENSURE("accepted exactly when the trailing bits are a one bit followed by zeros (strict) or one bit is left (lax)", r == (good ? 0 : DAV1D_ERR(EINVAL)));
}
#endif
#ifdef U_PUB
static const uint8_t *seen[MAXSZ + 1]; static ints_t RES, ADV;
#define res (RES.v)
#define adv (ADV.v)
static int n, bad;
static Dav1dSequenceHeader out;
/* parse_seq_hdr by its contract: any result, at most the rest of the buffer consumed */
static NOINLINE int parse_seq_hdr (Dav1dSequenceHeader *const hdr, GetBits *const gb, const int strict) {
    ENSURE("number of sequence headers", n <= MAXSZ);
    bad |= hdr != &out || strict;
    seen[n] = gb->ptr;
    const ptrdiff_t left = gb->ptr_end - gb->ptr;
    ENSURE("position inside the buffer", left >= 0 && left <= MAXSZ);
    if (adv[n] > left) { gb->ptr = gb->ptr_end; gb->error = 1; } else gb->ptr += adv[n];
    gb->state = 0; gb->bits_left = 0;
    return res[n++];
}
void harness(void) {
    ND(buf_t, B); ND(ints_t, RES); ND(ints_t, ADV);
    int sz; ND(int, sz); ASSUME(sz >= 1 && sz <= MAXSZ);
    for (int i = 0; i <= MAXSZ; i++) ASSUME(res[i] <= 0 && adv[i] >= 0 && adv[i] <= MAXSZ + 1);
    const uint8_t *const p = buf + MAXSZ - sz;
    const int r = dav1d_parse_sequence_header(&out, p, sz);
    int e = DAV1D_ERR(ENOENT), k = 0, pos = 0, same = 1;
    while (pos < sz) {
        const int h = p[pos], type = h >> 3 & 15;
        int len, fail = 0;
        pos += h & 4 ? 2 : 1;
        if (pos > sz) { e = -1; break; } /* truncated header: any error */
        if (h & 2) {
            uint64_t v = 0; int i = 0, more = 1;
            for (; i < 8 && more; i++, pos++) { if (pos >= sz) { fail = 1; break; } v |= (uint64_t)(p[pos] & 127) << 7 * i; more = p[pos] >> 7; }
            fail |= more || v > 0xffffffffu || v > (uint64_t)(sz - pos);
            len = (int)v;
        } else len = sz - pos;
        if (fail) { e = -1; break; }
        if (type == 1) {
            same &= k < n && seen[k] == p + pos;
            const int a = adv[k], q = res[k]; k++;
            if (q < 0) { e = q; break; }
            if (a > len) { e = -1; break; } /* runs over its end */
            e = 0;
        }
        pos += len;
    }
    REACH("scanned");
    ENSURE("success exactly when every OBU is well-formed and a sequence header is among them; its error is returned otherwise", e == 0 ? r == 0 : e == DAV1D_ERR(ENOENT) ? r == e : r < 0);
    ENSURE("exactly the sequence header OBUs are parsed, at their first payload byte, into the caller's object", r < 0 || (same && n == k && !bad));
}
#endif
