/* C08: buffer pools. */
#include "verif.h"
#include "vf_alloc.h"
#include "vf_lock.h"
#include "config.h"
#if !defined(U_REFPOOL) || defined(VF_NATIVE)
#include "src/mem.c"
#endif
#include "src/ref.c"
static Dav1dMemPool *POOL;
static Dav1dMemPoolBuffer *mkbuf(const size_t sz, Dav1dMemPoolBuffer *const next) {
    const int f = vf_never_fail; void *data; vf_never_fail = 1;
    vf_posix_memalign(&data, 64, sz + sizeof(Dav1dMemPoolBuffer)); vf_never_fail = f;
    Dav1dMemPoolBuffer *const b = (Dav1dMemPoolBuffer *) ((uint8_t *) data + sz);
    b->data = data; b->next = next;
    return b;
}
/* OUT buffers are held by users.  Pool invariant: ref_cnt == OUT + 1 while the owner is
 * there, == OUT afterwards; after the owner ended it nothing is cached. */
static int OUT;
static Dav1dMemPoolBuffer *H1, *H2; static size_t SZ1, SZ2;
static void mkpool(void) {
    int out, end, cached;
    ND(int, out); ND(int, end); ND(int, cached); ND(size_t, SZ1); ND(size_t, SZ2);
#if !defined(U_POP)
    SZ1 = 64; SZ2 = 128; /* sizes play no role here */
#endif
    ASSUME(out >= 0 && out < INT32_MAX - 2 && SZ1 <= (1u << 26) && SZ2 <= (1u << 26) && !(SZ1 & 7) && !(SZ2 & 7));
    end = !!end;
    ASSUME(!end || out > 0);
    OUT = out;
    vf_never_fail = 1; POOL = vf_malloc(sizeof(*POOL)); vf_never_fail = 0;
    POOL->end = end; POOL->ref_cnt = out + !end; POOL->buf = NULL; H1 = H2 = NULL;
    if (!end && cached > 0) {
        if (cached > 1) H2 = mkbuf(SZ2, NULL);
        H1 = mkbuf(SZ1, H2);
        POOL->buf = H1;
    }
}
#define BAL ENSURE("lock released on return", !vf_held)
#if defined(U_POP)
void harness(void) {
    size_t sz; ND(size_t, sz); ASSUME(sz <= (1u << 27) && !(sz & 7));
    mkpool(); ASSUME(!POOL->end); const int l = vf_live, fr = vf_frees, al = vf_allocs;
    void *const d1 = H1 ? H1->data : NULL;
    Dav1dMemPoolBuffer *const b = dav1d_mem_pool_pop(POOL, sz);
    BAL;
    ENSURE("only the head of the cache is taken", POOL->buf == (H1 ? H2 : NULL) && POOL->end == 0);
    if (b) {
        REACH("pop succeeds");
        ENSURE("one more user", POOL->ref_cnt == OUT + 2);
        ENSURE("capacity: exactly the requested bytes before the bookkeeping", (uint8_t *) b == (uint8_t *) b->data + sz);
        ENSURE("64-byte aligned", !((uintptr_t) b->data & 63));
                #ifndef VF_NATIVE
        ENSURE("the block really has that many bytes", __CPROVER_OBJECT_SIZE(b->data) == sz + sizeof(Dav1dMemPoolBuffer) && __CPROVER_POINTER_OFFSET(b->data) == 0);
#endif
        b->next = NULL;
        if (H1 && SZ1 == sz) ENSURE("cached buffer of the same size reused", b == H1 && vf_allocs == al && vf_frees == fr);
        else if (H1) { ENSURE("cached buffer of another size freed once and replaced", vf_frees == fr + 1 && vf_last_free == d1 && vf_allocs == al + 1 && vf_live == l); REACH("pop reallocates"); }
        else ENSURE("fresh allocation", vf_allocs == al + 1 && vf_frees == fr);
        ENSURE("not a buffer that is still cached", b != H2);
        vf_free(b->data);
    } else {
        REACH("pop fails");
        ENSURE("failure only when out of memory", vf_failed > 0);
        ENSURE("user count unchanged by failure", POOL->ref_cnt == OUT + 1 && !vf_destroyed);
        ENSURE("a cached buffer of another size is freed, nothing leaked", vf_live == l - !!H1);
    }
}
#elif defined(U_PUSH)
void harness(void) {
    size_t sz; ND(size_t, sz); ASSUME(sz <= (1u << 26) && !(sz & 7));
    mkpool(); ASSUME(OUT > 0);
    Dav1dMemPoolBuffer *const b = mkbuf(sz, NULL); const int l = vf_live; void *const d = b->data; const int end = POOL->end;
    Dav1dMemPool *const keep = POOL;
    dav1d_mem_pool_push(POOL, b);
    BAL;
    if (!end) {
        REACH("push caches");
        ENSURE("returned buffer cached in front of the others", keep->buf == b && b->next == H1 && b->data == d);
        ENSURE("others untouched", !H1 || H1->next == H2);
        ENSURE("one user less, nothing freed", keep->ref_cnt == OUT && vf_live == l && !vf_destroyed);
    } else if (OUT > 1) {
        REACH("push frees after end");
        ENSURE("buffer freed, pool kept for the remaining users", vf_live == l - 1 && keep->ref_cnt == OUT - 1 && !keep->buf && !vf_destroyed && vf_last_free == d);
    } else {
        REACH("push destroys");
        ENSURE("last buffer freed and pool destroyed", vf_live == l - 2 && vf_destroyed == 1 && vf_last_free == keep);
    }
}
#elif defined(U_END)
void harness(void) {
    mkpool(); ASSUME(!POOL->end);
    Dav1dMemPoolBuffer *h3 = NULL, *h4 = NULL; int more; ND(int, more);
    if (H2 && more) { h3 = mkbuf(SZ1, NULL); H2->next = h3; if (more > 1) { h4 = mkbuf(SZ2, NULL); h3->next = h4; } }
    const int cached = !!H1 + !!H2 + !!h3 + !!h4, l = vf_live;
    Dav1dMemPool *const keep = POOL;
    dav1d_mem_pool_end(POOL);
    BAL;
    ENSURE("every cached buffer freed exactly once, pool freed iff no buffer is out", vf_live == l - cached - !OUT);
    if (OUT) { REACH("end with users"); ENSURE("pool marked ended with only the users left", keep->end && keep->ref_cnt == OUT && !keep->buf && !vf_destroyed); }
    else { REACH("end without users"); ENSURE("pool destroyed once", vf_destroyed == 1 && vf_last_free == keep); }
    dav1d_mem_pool_end(NULL);
}
#elif defined(U_INIT)
void harness(void) {
    Dav1dMemPool *p = (void *) &OUT;
    const int r = dav1d_mem_pool_init(ALLOC_PIC, &p);
    if (!r) {
        REACH("init succeeds");
        ENSURE("empty pool owned by the caller", p && p->buf == NULL && p->ref_cnt == 1 && p->end == 0 && vf_live == 1 && vf_mutex_inits == 1);
        dav1d_mem_pool_end(p);
        ENSURE("fresh pool freed by its owner", vf_live == 0 && vf_destroyed == 1);
    } else {
        REACH("init fails");
        ENSURE("failure reported, nothing leaked", r == DAV1D_ERR(ENOMEM) && p == NULL && vf_live == 0 && (vf_failed || vf_init_fail));
    }
}
#elif defined(U_REFPOOL)
static size_t REQ; static int pushes, fails; static Dav1dMemPoolBuffer *pushed; static Dav1dMemPool PL;
#ifndef VF_NATIVE
/* contracts of pop (proved by unit pop) and push: a block whose last bytes are the
 * buffer header, preceded by exactly the requested bytes; only the tail is an object,
 * so a write into the data area is a failed bounds obligation */
static struct { Dav1dRef ref; Dav1dMemPoolBuffer buf; } BLK;
Dav1dMemPoolBuffer *dav1d_mem_pool_pop(Dav1dMemPool *const pool, const size_t size) {
    ENSURE("requested size is a multiple of the pointer size", !(size & (sizeof(void *) - 1)));
    ENSURE("pool passed through", pool == &PL);
    REQ = size;
    int f; ND(int, f); if (f) { fails++; return NULL; }
    BLK.buf.data = (uint8_t *) &BLK.buf - size;
    return &BLK.buf;
}
void dav1d_mem_pool_push(Dav1dMemPool *const pool, Dav1dMemPoolBuffer *const b) { pushes++; pushed = b; ENSURE("returned to the same pool", pool == &PL); }
void harness(void) {
    size_t sz; ND(size_t, sz); ASSUME(sz <= SIZE_MAX / 2);
    Dav1dRef *r = dav1d_ref_create_using_pool(&PL, sz);
    if (!r) { REACH("pool ref fails"); ENSURE("fails only when the pool fails", fails && !pushes); return; }
    REACH("pool ref created");
    ENSURE("count 1, bookkeeping owned by the block", r->ref_cnt == 1 && !r->free_ref && r->data == BLK.buf.data);
    ENSURE("writable", dav1d_ref_is_writable(r));
    ENSURE("room for the requested bytes before the reference", REQ >= sz + sizeof(Dav1dRef) && r == &BLK.ref);
    ENSURE("header untouched", BLK.buf.data == (uint8_t *) &BLK.buf - REQ);
    Dav1dRef *r2 = r; dav1d_ref_inc(r);
    dav1d_ref_dec(&r);
    ENSURE("kept while a reference remains", !pushes && !r && r2->ref_cnt == 1);
    dav1d_ref_dec(&r2);
    ENSURE("last unref returns the buffer to its pool once", !r2 && pushes == 1 && pushed == &BLK.buf);
}
#else
void harness(void) { exit(77); }
#endif
#endif
