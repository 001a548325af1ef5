/* C09: layout produced by the built-in picture allocator. */
#include "verif.h"
#include "config.h"
#include "src/picture.c"
static size_t POPPED; static void *POOLARG; static Dav1dMemPoolBuffer BUF; static int FAIL, pushes; static Dav1dMemPoolBuffer *PUSHED;
/* contract of dav1d_mem_pool_pop (proved under C08): a 64-byte aligned block with
 * POPPED + sizeof(Dav1dMemPoolBuffer) bytes, or NULL */
Dav1dMemPoolBuffer *dav1d_mem_pool_pop(Dav1dMemPool *const pool, const size_t size) {
    ENSURE("pool request is a multiple of the pointer size", !(size & (sizeof(void *) - 1)));
    POPPED = size; POOLARG = pool;
    return FAIL ? NULL : &BUF;
}
void dav1d_mem_pool_push(Dav1dMemPool *const pool, Dav1dMemPoolBuffer *const b) { pushes++; PUSHED = b; POOLARG = pool; }
void dav1d_data_props_set_defaults(Dav1dDataProps *const p) {}
void dav1d_data_props_copy(Dav1dDataProps *d, const Dav1dDataProps *s) {}
void dav1d_ref_dec(Dav1dRef **r) {}
void dav1d_log(Dav1dContext *c, const char *f, ...) {}
void harness(void) {
    static Dav1dPicture p; int w, h, layout, bpc; uint64_t base; int cookie;
    ND(int, w); ND(int, h); ND(int, layout); ND(int, bpc); ND(int, FAIL);
    /* frame sizes are at most 65536 in AV1 */
    layout = LAYOUT; bpc = BPC;
    ASSUME(w >= 1 && w <= 65536 && h >= 1 && h <= 65536 && layout >= 0 && layout <= 3 && (bpc == 8 || bpc == 10 || bpc == 12));
    base = 1ull << 40; /* only offsets from it are used */
    p.p.w = w; p.p.h = h; p.p.layout = layout; p.p.bpc = bpc;
    BUF.data = (void *) base;
    const int r = dav1d_default_picture_alloc(&p, &cookie);
    if (FAIL) {
        REACH("allocation fails");
        ENSURE("failure reported", r == DAV1D_ERR(ENOMEM) && !p.data[0]);
        return;
    }
    REACH("allocation succeeds");
    const int chroma = layout != DAV1D_PIXEL_LAYOUT_I400, bps = bpc > 8 ? 2 : 1;
    const int ssh = layout != DAV1D_PIXEL_LAYOUT_I444, ssv = layout == DAV1D_PIXEL_LAYOUT_I420;
    const int aw = (w + 127) & ~127, ah = (h + 127) & ~127; /* rounded up to 128 */
    const uint64_t total = POPPED + sizeof(Dav1dMemPoolBuffer); /* bytes of the block */
    const uint64_t d0 = (uint64_t) p.data[0] - base;
    const ptrdiff_t s0 = p.stride[0], s1 = p.stride[1];
    ENSURE("success", r == 0 && p.allocator_data == &BUF && POOLARG == &cookie);
    ENSURE("geometry inputs unchanged", p.p.w == w && p.p.h == h && p.p.layout == layout && p.p.bpc == bpc);
    ENSURE("luma stride covers the width rounded up to 128 pixels", p.stride[0] > 0 && s0 >= aw * bps && s0 < (1u << 20));
    ENSURE("luma plane and stride aligned", !(s0 & 63) && !(d0 & 63));
    ENSURE("stride is not a multiple of 1024", s0 & 1023);
    const uint64_t e0 = d0 + s0 * ah;
    if (chroma) {
        const uint64_t d1 = (uint64_t) p.data[1] - base, d2 = (uint64_t) p.data[2] - base;
        ENSURE("chroma stride covers the subsampled width", p.stride[1] > 0 && s1 >= ((aw >> ssh) * bps) && s1 < (1u << 20));
        ENSURE("chroma planes and stride aligned", !(s1 & 63) && !(d1 & 63) && !(d2 & 63));
        ENSURE("chroma stride is not a multiple of 1024", s1 & 1023);
        const uint64_t n = s1 * (ah >> ssv);
        ENSURE("planes do not overlap", d1 >= e0 && d2 >= d1 + n);
        ENSURE("planes and end padding fit in the block", d2 + n + DAV1D_PICTURE_ALIGNMENT <= total);
    } else {
        ENSURE("monochrome has no chroma planes", !p.data[1] && !p.data[2] && p.stride[1] == 0);
        ENSURE("plane and end padding fit in the block", e0 + DAV1D_PICTURE_ALIGNMENT <= total);
    }
    dav1d_default_picture_release(&p, &cookie);
    ENSURE("release returns the same block to the pool", pushes == 1 && PUSHED == &BUF && POOLARG == &cookie);
}
