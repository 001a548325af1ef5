/* C06: lifecycle of input data objects. */
#include "verif.h"
#include "config.h"
#if (defined(U_CREATE) || defined(U_REFCREATE)) && !defined(VF_NATIVE)
#define VF_TAIL_HDR "src/ref.h"
#define VF_TAIL Dav1dRef
#endif
#include "vf_alloc.h"
#include "src/ref.c"
#include "src/data.c"
#ifdef U_POOLREF
#include "src/mem.c"
#else
void dav1d_mem_pool_push(Dav1dMemPool *pool, Dav1dMemPoolBuffer *buf) { ENSURE("no pool buffers here", 0); }
Dav1dMemPoolBuffer *dav1d_mem_pool_pop(Dav1dMemPool *pool, size_t size) { ENSURE("no pool buffers here", 0); return NULL; }
#endif

#if defined(VF_TAIL) && !defined(VF_NATIVE)
#define AT_END(r) ((void *) (r) == (void *) &vf_tail) /* bookkeeping is the last thing in the block */
#else
#define AT_END(r) ((uint8_t *) (r) + sizeof(Dav1dRef) == (uint8_t *) vf_last_ptr + vf_last_size)
#endif
static int cb_n; static const uint8_t *cb_data; static void *cb_cookie;
static void cb(const uint8_t *const data, void *const cookie) { cb_n++; cb_data = data; cb_cookie = cookie; }
static int cb2_n; static const uint8_t *cb2_data; static void *cb2_cookie;
static void cb2(const uint8_t *const data, void *const cookie) { cb2_n++; cb2_data = data; cb2_cookie = cookie; }
static uint8_t BYTES[4], UBYTES[4]; static int COOKIE, UCOOKIE;

/* an existing reference object with any count; heap allocated when the library owns it */
static Dav1dRef *mkref(const uint8_t *const d, void (*const f)(const uint8_t *, void *), void *const ck, int *const cnt) {
    int n; ND(int, n); ASSUME(n > 0 && n < INT32_MAX);
    *cnt = n;
    vf_never_fail = 1; Dav1dRef *const r = vf_malloc(sizeof(*r)); vf_never_fail = 0;
    dav1d_ref_init(r, d, f, ck, 1);
    ENSURE("a new reference starts with count 1 and the given callback",
           r->ref_cnt == 1 && r->free_ref == 1 && r->free_callback == f && r->user_data == ck && r->const_data == d && r->data == NULL);
    r->ref_cnt = n;
    return r;
}
static int is_default_props(const Dav1dDataProps *const m) {
    return m->timestamp == INT64_MIN && m->duration == 0 && m->offset == -1 && m->size == 0 && !m->user_data.data && !m->user_data.ref;
}
static int is_empty(const Dav1dData *const d) { return !d->data && !d->sz && !d->ref && is_default_props(&d->m); }
static int same_props(const Dav1dDataProps *const a, const Dav1dDataProps *const b) {
    return a->timestamp == b->timestamp && a->duration == b->duration && a->offset == b->offset && a->size == b->size &&
           a->user_data.data == b->user_data.data && a->user_data.ref == b->user_data.ref;
}
static int same(const Dav1dData *const a, const Dav1dData *const b) {
    return a->data == b->data && a->sz == b->sz && a->ref == b->ref && same_props(&a->m, &b->m);
}
static Dav1dRef *RD, *RU; static int ND_, NU_;
/* a data object in any reachable state: with or without buffer, with or without user data */
static void mkdata(Dav1dData *const d) {
    int hb, hu; ND(int, hb); ND(int, hu);
    ND(size_t, d->sz); ND(int64_t, d->m.timestamp); ND(int64_t, d->m.duration); ND(int64_t, d->m.offset); ND(size_t, d->m.size);
    d->ref = NULL; d->data = NULL; d->m.user_data.ref = NULL; d->m.user_data.data = NULL; RD = RU = NULL;
    if (hb) { d->ref = RD = mkref(BYTES, cb, &COOKIE, &ND_); d->data = BYTES; }
    if (hu) { d->m.user_data.ref = RU = mkref(UBYTES, cb2, &UCOOKIE, &NU_); d->m.user_data.data = UBYTES; }
}
/* effect of giving one reference back */
static void released(const Dav1dRef *const r, const int n, const int calls, const uint8_t *const a, void *const b, const uint8_t *const d, void *const ck) {
    if (!r) { ENSURE("no callback without a reference", calls == 0); return; }
    if (n == 1) ENSURE("release callback runs exactly once with its data and cookie", calls == 1 && a == d && b == ck);
    else ENSURE("reference kept while others remain", calls == 0 && r->ref_cnt == n - 1);
}
#define RELEASED_D released(RD, ND_, cb_n, cb_data, cb_cookie, BYTES, &COOKIE)
#define RELEASED_U released(RU, NU_, cb2_n, cb2_data, cb2_cookie, UBYTES, &UCOOKIE)
static int live_after(const int before) { return before - (RD && ND_ == 1) - (RU && NU_ == 1); }

#if defined(U_UNREF)
void harness(void) {
    Dav1dData d; mkdata(&d); const int l = vf_live;
    dav1d_data_unref_internal(&d);
    REACH("unref returns");
    RELEASED_D; RELEASED_U;
    ENSURE("object reset to its default state", is_empty(&d));
    ENSURE("library-owned memory freed exactly with the last reference", vf_live == live_after(l));
    dav1d_data_unref_internal(&d); /* a second unref is a no-op */
    RELEASED_D; RELEASED_U;
    ENSURE("second unref changes nothing", is_empty(&d) && vf_live == live_after(l));
}
#elif defined(U_PROPS_UNREF)
void harness(void) {
    Dav1dData d; mkdata(&d); const Dav1dData o = d; const int l = vf_live;
    dav1d_data_props_unref_internal(&d.m);
    REACH("props unref returns");
    RELEASED_U;
    ENSURE("properties reset", is_default_props(&d.m));
    ENSURE("buffer untouched", cb_n == 0 && d.ref == o.ref && d.data == o.data && d.sz == o.sz && (!RD || RD->ref_cnt == ND_));
    ENSURE("memory freed exactly with the last reference", vf_live == l - (RU && NU_ == 1));
}
#elif defined(U_REF)
void harness(void) {
    Dav1dData d, e; ND(Dav1dData, e); e.data = NULL; e.ref = NULL; e.m.user_data.ref = NULL;
    mkdata(&d); const Dav1dData o = d; const int l = vf_live;
    dav1d_data_ref(&e, &d);
    REACH("ref returns");
    ENSURE("new object equals the source", same(&e, &o));
    ENSURE("source unchanged", same(&d, &o));
    ENSURE("each reference counted once", (!RD || RD->ref_cnt == ND_ + 1) && (!RU || RU->ref_cnt == NU_ + 1));
    ENSURE("nothing released or allocated", cb_n == 0 && cb2_n == 0 && vf_live == l);
    dav1d_data_unref_internal(&e);
    ENSURE("dropping the new object restores the counts", (!RD || RD->ref_cnt == ND_) && (!RU || RU->ref_cnt == NU_) && cb_n == 0 && cb2_n == 0);
}
#elif defined(U_PROPS_COPY)
void harness(void) {
    Dav1dData d; mkdata(&d); const Dav1dData o = d; const int l = vf_live;
    Dav1dDataProps p; ND(Dav1dDataProps, p); int hp, np = 0, hs; ND(int, hp); ND(int, hs);
    Dav1dRef *RP = NULL; p.user_data.data = NULL;
    if (hp && hs && RU && NU_ > 1) { p.user_data.ref = RU; p.user_data.data = UBYTES; } /* destination already shares it */
    else if (hp) { RP = p.user_data.ref = mkref(BYTES, cb, &UCOOKIE, &np); }
    else p.user_data.ref = NULL;
    const int shared = p.user_data.ref && p.user_data.ref == RU;
    const int l2 = vf_live;
    dav1d_data_props_copy(&p, &d.m);
    REACH("props copy returns");
    ENSURE("all properties copied", same_props(&p, &o.m));
    ENSURE("source unchanged", same(&d, &o));
    ENSURE("user data of the source gains one reference (none if already shared)", !RU || RU->ref_cnt == NU_ + 1 - shared);
    ENSURE("no release of the copied user data", cb2_n == 0);
    released(RP, np, cb_n, cb_data, cb_cookie, BYTES, &UCOOKIE);
    ENSURE("previous user data freed exactly with its last reference", vf_live == l2 - (RP && np == 1));
}
#elif defined(U_DEFAULTS)
void harness(void) {
    Dav1dDataProps p; ND(Dav1dDataProps, p);
    dav1d_data_props_set_defaults(&p);
    REACH("defaults");
    ENSURE("documented defaults", is_default_props(&p));
}
#elif defined(U_CREATE)
void harness(void) {
    Dav1dData d; ND(Dav1dData, d); d.ref = NULL; d.data = NULL; d.m.user_data.ref = NULL; const Dav1dData o = d;
    size_t sz; ND(size_t, sz);
#ifdef VF_NATIVE
    if (sz > (1u << 30) && sz <= SIZE_MAX / 2) ASSUME(0);
#endif
    uint8_t *const p = dav1d_data_create_internal(&d, sz);
    if (p) {
        REACH("create succeeds");
        ENSURE("object describes the new buffer", d.data == p && d.sz == sz && d.m.size == sz && d.ref && d.ref->ref_cnt == 1);
        Dav1dDataProps m = d.m; m.size = 0;
        ENSURE("properties at their defaults", is_default_props(&m));
        ENSURE("size accepted", sz <= SIZE_MAX / 2 && !vf_failed);
        #ifdef VF_NATIVE
        memset(p, 1, sz);
#endif
        ENSURE("the buffer is the start of a block with room for it and the bookkeeping", p == vf_last_ptr && vf_last_size >= sizeof(Dav1dRef) && sz <= vf_last_size - sizeof(Dav1dRef));
        ENSURE("reference bookkeeping does not overlap the buffer", d.ref->ref_cnt == 1 && d.ref->user_data == p && AT_END(d.ref));
        dav1d_data_unref_internal(&d);
        ENSURE("buffer freed by the last unref", vf_live == 0 && is_empty(&d));
    } else {
        REACH("create fails");
        ENSURE("failure only for absurd sizes or out of memory", vf_failed || sz > SIZE_MAX / 2);
        ENSURE("nothing leaked", vf_live == 0);
        ENSURE("object unchanged by failure", same(&d, &o));
    }
}
#elif defined(U_WRAP)
void harness(void) {
    Dav1dData d; ND(Dav1dData, d); d.ref = NULL; d.data = NULL; d.m.user_data.ref = NULL; const Dav1dData o = d;
    size_t sz; ND(size_t, sz);
    const int r = dav1d_data_wrap_internal(&d, BYTES, sz, cb, &COOKIE);
    ENSURE("callback not run by wrapping", cb_n == 0);
    if (!r) {
        REACH("wrap succeeds");
        ENSURE("object describes the wrapped buffer", d.data == BYTES && d.sz == sz && d.m.size == sz && d.ref && d.ref->ref_cnt == 1);
        Dav1dDataProps m = d.m; m.size = 0;
        ENSURE("properties at their defaults", is_default_props(&m) && sz <= SIZE_MAX / 2);
        Dav1dData e; memset(&e, 0, sizeof(e));
        dav1d_data_ref(&e, &d);
        dav1d_data_unref_internal(&d);
        ENSURE("callback not run while a reference remains", cb_n == 0);
        dav1d_data_unref_internal(&e);
        ENSURE("callback run exactly once by the last unref", cb_n == 1 && cb_data == BYTES && cb_cookie == &COOKIE);
        ENSURE("bookkeeping freed", vf_live == 0);
    } else {
        REACH("wrap fails");
        ENSURE("error code and cause", (r == DAV1D_ERR(ENOMEM) && vf_failed) || (r == DAV1D_ERR(EINVAL) && sz > SIZE_MAX / 2));
        ENSURE("object unchanged by failure", same(&d, &o) && vf_live == 0);
    }
}
#elif defined(U_WRAP_USER)
void harness(void) {
    Dav1dData d; mkdata(&d); ASSUME(!RU); const Dav1dData o = d; const int l = vf_live;
    int nul; ND(int, nul);
    const uint8_t *const ud = nul ? NULL : UBYTES;
    const int r = dav1d_data_wrap_user_data_internal(&d, ud, cb2, &UCOOKIE);
    ENSURE("callback not run by wrapping", cb2_n == 0 && cb_n == 0);
    Dav1dData x = d; x.m.user_data = o.m.user_data;
    ENSURE("everything but the user data unchanged", same(&x, &o) && (!RD || RD->ref_cnt == ND_));
    if (!r) {
        REACH("wrap user data succeeds");
        ENSURE("user data recorded with one reference", d.m.user_data.data == ud && d.m.user_data.ref && d.m.user_data.ref->ref_cnt == 1);
        Dav1dDataProps p; memset(&p, 0, sizeof(p));
        dav1d_data_props_copy(&p, &d.m);
        dav1d_data_unref_internal(&d);
        ENSURE("user data alive while a copy of the properties holds it", cb2_n == 0);
        dav1d_data_props_unref_internal(&p);
        ENSURE("user data released exactly once", cb2_n == 1 && cb2_data == ud && cb2_cookie == &UCOOKIE);
        ENSURE("bookkeeping freed", vf_live == l - (RD && ND_ == 1));
    } else {
        REACH("wrap user data fails");
        ENSURE("out of memory leaves the object unchanged", r == DAV1D_ERR(ENOMEM) && vf_failed && same(&d, &o) && vf_live == l);
    }
}
#elif defined(U_REFDEC)
void harness(void) {
    int n, fr, nul; ND(int, fr); ND(int, nul);
    Dav1dRef *r = mkref(BYTES, cb, &COOKIE, &n), *h = r; const int l = vf_live;
    r->free_ref = fr;
    if (nul) h = NULL;
    dav1d_ref_dec(&h);
    REACH("ref_dec returns");
    ENSURE("handle cleared", h == NULL);
    if (nul) ENSURE("no handle: nothing happens", cb_n == 0 && r->ref_cnt == n && vf_live == l);
    else if (n > 1) ENSURE("one of several references: only the count changes", cb_n == 0 && r->ref_cnt == n - 1 && vf_live == l);
    else ENSURE("last reference: callback once, bookkeeping freed iff owned", cb_n == 1 && cb_data == BYTES && cb_cookie == &COOKIE && vf_live == l - !!fr);
}
#elif defined(U_REFINC)
void harness(void) {
    int n, hd; ND(int, hd);
    Dav1dRef *r = mkref(BYTES, cb, &COOKIE, &n); if (hd) r->data = BYTES;
    ENSURE("writable exactly when unshared and writable memory", !!dav1d_ref_is_writable(r) == (n == 1 && hd));
    ENSURE("query does not change the count", r->ref_cnt == n);
    dav1d_ref_inc(r);
    REACH("ref_inc returns");
    ENSURE("count incremented", r->ref_cnt == n + 1 && cb_n == 0);
}
#elif defined(U_REFCREATE)
void harness(void) {
    size_t sz; ND(size_t, sz); ASSUME(sz <= SIZE_MAX / 2);
    Dav1dRef *r = dav1d_ref_create(ALLOC_OBU_HDR, sz);
    if (!r) { REACH("ref_create fails"); ENSURE("failure only when out of memory", vf_failed && vf_live == 0); return; }
    REACH("ref_create succeeds");
    ENSURE("count 1, data set, writable", r->ref_cnt == 1 && r->data && r->const_data == r->data && dav1d_ref_is_writable(r));
    ENSURE("data 64-byte aligned", r->data == vf_last_ptr && vf_last_align >= 64 && !(vf_last_align & 63));
        ENSURE("data does not overlap the bookkeeping", AT_END(r) && vf_last_size >= sz + sizeof(Dav1dRef) && r->ref_cnt == 1 && r->data == r->const_data);
    dav1d_ref_dec(&r);
    ENSURE("freed", vf_live == 0 && !r);
}
#endif
