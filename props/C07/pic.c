/* C07: picture handles and the objects they keep alive. */
#include "verif.h"
#include "vf_alloc.h"
#include "config.h"
#include "src/ref.c"
#include "src/data.c"
#include "src/picture.c"
#ifdef U_API
#include "src/lib.c"
#endif
void dav1d_log(Dav1dContext *c, const char *f, ...) {}

/* ---- attached objects: every reference has a symbolic count and its own callback record */
enum { PIX, SEQ, FRM, UD, CLL, MDV, T35, NREF };
static int CB[NREF]; static uint8_t OBJ[NREF][8];
static void cb(const uint8_t *const data, void *const cookie) {
    const int i = (int) (intptr_t) cookie;
    ENSURE("release callback gets its own object", i >= 0 && i < NREF && data == OBJ[i]);
    CB[i]++;
}
static Dav1dRef R[NREF]; static int N[NREF], HAS[NREF];
static Dav1dRef *mk(const int i) {
    ND(int, HAS[i]); ND(int, N[i]); ASSUME(N[i] > 0 && N[i] < INT32_MAX - 4);
    HAS[i] = !!HAS[i];
    dav1d_ref_init(&R[i], OBJ[i], cb, (void *) (intptr_t) i, 0);
    R[i].ref_cnt = N[i];
    return HAS[i] ? &R[i] : NULL;
}
static Dav1dRef *const *slot(const Dav1dPicture *const p, const int i) {
    return i == PIX ? &p->ref : i == SEQ ? &p->seq_hdr_ref : i == FRM ? &p->frame_hdr_ref : i == UD ? &p->m.user_data.ref :
           i == CLL ? &p->content_light_ref : i == MDV ? &p->mastering_display_ref : &p->itut_t35_ref;
}
static void mkpic(Dav1dPicture *const p) {
    ND(Dav1dPicture, *p);
    for (int i = 0; i < NREF; i++) *(Dav1dRef **) slot(p, i) = mk(i);
    p->data[0] = HAS[PIX] ? OBJ[PIX] : NULL;
}
#define F(x) if (a->x != b->x) return 0;
static int same(const Dav1dPicture *const a, const Dav1dPicture *const b) {
    F(seq_hdr) F(frame_hdr) F(data[0]) F(data[1]) F(data[2]) F(stride[0]) F(stride[1])
    F(p.w) F(p.h) F(p.layout) F(p.bpc) F(m.timestamp) F(m.duration) F(m.offset) F(m.size) F(m.user_data.data) F(m.user_data.ref)
    F(content_light) F(mastering_display) F(itut_t35) F(n_itut_t35) F(frame_hdr_ref) F(seq_hdr_ref) F(content_light_ref)
    F(mastering_display_ref) F(itut_t35_ref) F(ref) F(allocator_data)
    return 1;
}
static int cleared(const Dav1dPicture *const p) {
    for (int i = 0; i < NREF; i++) if (*slot(p, i)) return 0;
    return !p->data[0] && !p->data[1] && !p->data[2] && !p->seq_hdr && !p->frame_hdr && !p->content_light && !p->mastering_display && !p->itut_t35 && !p->n_itut_t35;
}
/* every reference count changed by delta (to the counts before), nothing released */
static void counts(const int delta) {
    for (int i = 0; i < NREF; i++)
        ENSURE("every attached object counted exactly once per handle", R[i].ref_cnt == N[i] + (HAS[i] ? delta : 0) && CB[i] == 0);
}
static void given_back(void) {
    for (int i = 0; i < NREF; i++) {
        if (!HAS[i]) ENSURE("unattached object untouched", CB[i] == 0 && R[i].ref_cnt == N[i]);
        else if (N[i] == 1) ENSURE("last reference: released exactly once", CB[i] == 1);
        else ENSURE("other references remain: only the count drops", CB[i] == 0 && R[i].ref_cnt == N[i] - 1);
    }
}
/* ---- pools by contract (C08) */
static struct { struct pic_ctx_context c; atomic_uint prog[2]; } CTXMEM;
static int pops, pushes, pop_fail; static Dav1dMemPoolBuffer HDR; static size_t popsz; static Dav1dMemPool PL;
Dav1dMemPoolBuffer *dav1d_mem_pool_pop(Dav1dMemPool *const pool, const size_t size) {
    ENSURE("picture context comes from the context pool", pool == &PL);
    ND(int, pop_fail); if (pop_fail) return NULL;
    popsz = size; pops++;
    HDR.data = &CTXMEM;
    ENSURE("room for the picture context", size >= sizeof(struct pic_ctx_context) && size <= sizeof(CTXMEM) + 64);
    return &HDR;
}
void dav1d_mem_pool_push(Dav1dMemPool *const pool, Dav1dMemPoolBuffer *const b) {
    ENSURE("picture context goes back to its pool, once", pool == &PL && b == &HDR && pushes == 0); pushes++;
}

#if defined(U_REF)
void harness(void) {
    Dav1dPicture s, d; mkpic(&s); ND(Dav1dPicture, d); d.data[0] = NULL;
    const Dav1dPicture o = s;
    dav1d_picture_ref(&d, &s);
    REACH("ref returns");
    ENSURE("new handle equals the source", same(&d, &o)); ENSURE("source unchanged", same(&s, &o));
    counts(1);
    dav1d_picture_unref_internal(&d);
    ENSURE("dropping the new handle", cleared(&d)); counts(0);
}
#elif defined(U_TREF)
void harness(void) {
    Dav1dThreadPicture s, d; ND(Dav1dThreadPicture, s); ND(Dav1dThreadPicture, d); mkpic(&s.p); d.p.data[0] = NULL;
    const Dav1dThreadPicture o = s; int mv; ND(int, mv);
    if (mv) dav1d_thread_picture_move_ref(&d, &s); else dav1d_thread_picture_ref(&d, &s);
    REACH("thread picture ref/move returns");
    ENSURE("new handle equals the source", same(&d.p, &o.p) && d.visible == o.visible && d.showable == o.showable && d.flags == o.flags && d.progress == o.progress);
    if (mv) { ENSURE("moved-from handle is empty", cleared(&s.p) && !s.progress && !s.visible && !s.showable && !s.flags); counts(0); }
    else { ENSURE("source unchanged", same(&s.p, &o.p) && s.visible == o.visible && s.showable == o.showable && s.flags == o.flags && s.progress == o.progress); counts(1); }
}
#elif defined(U_MOVE)
void harness(void) {
    Dav1dPicture s, d; mkpic(&s); ND(Dav1dPicture, d); d.data[0] = NULL;
    const Dav1dPicture o = s;
    dav1d_picture_move_ref(&d, &s);
    REACH("move returns");
    ENSURE("destination takes over the handle", same(&d, &o)); ENSURE("source is empty", cleared(&s)); counts(0);
}
#elif defined(U_UNREF)
void harness(void) {
    Dav1dThreadPicture t; ND(Dav1dThreadPicture, t); mkpic(&t.p); int th; ND(int, th);
#ifdef U_API
    dav1d_picture_unref(&t.p);
#else
    if (th) { dav1d_thread_picture_unref(&t); ENSURE("progress pointer dropped", !t.progress); }
    else dav1d_picture_unref_internal(&t.p);
#endif
    REACH("unref returns");
    given_back();
    ENSURE("handle reset", cleared(&t.p) && t.p.m.timestamp == INT64_MIN && t.p.m.offset == -1 && !t.p.m.size && !t.p.m.duration && !t.p.m.user_data.data);
    dav1d_picture_unref_internal(&t.p);
    given_back();
}
#elif defined(U_PROPS)
static Dav1dRef R2[NREF]; static int N2[NREF], H2[NREF];
void harness(void) {
    Dav1dPicture p; mkpic(&p); const Dav1dPicture o = p;
    Dav1dDataProps m; ND(Dav1dDataProps, m); size_t n; ND(size_t, n);
    static uint8_t M[NREF][4];
    for (int i = UD; i < NREF; i++) { ND(int, H2[i]); ND(int, N2[i]); ASSUME(N2[i] > 0 && N2[i] < INT32_MAX - 2); R2[i].ref_cnt = N2[i]; }
    m.user_data.ref = H2[UD] ? &R2[UD] : NULL;
    dav1d_picture_copy_props(&p, (void *) M[CLL], H2[CLL] ? &R2[CLL] : NULL, (void *) M[MDV], H2[MDV] ? &R2[MDV] : NULL,
                             (void *) M[T35], H2[T35] ? &R2[T35] : NULL, n, &m);
    REACH("copy_props returns");
    ENSURE("metadata replaced", (uint8_t *) p.content_light == M[CLL] && (uint8_t *) p.mastering_display == M[MDV] && (uint8_t *) p.itut_t35 == M[T35] && p.n_itut_t35 == n);
    ENSURE("references replaced", p.content_light_ref == (H2[CLL] ? &R2[CLL] : NULL) && p.mastering_display_ref == (H2[MDV] ? &R2[MDV] : NULL) && p.itut_t35_ref == (H2[T35] ? &R2[T35] : NULL) && p.m.user_data.ref == (H2[UD] ? &R2[UD] : NULL));
    ENSURE("input properties copied", p.m.timestamp == m.timestamp && p.m.duration == m.duration && p.m.offset == m.offset && p.m.size == m.size && p.m.user_data.data == m.user_data.data);
    for (int i = UD; i < NREF; i++) ENSURE("new metadata counted once", R2[i].ref_cnt == N2[i] + !!H2[i]);
    HAS[PIX] = HAS[SEQ] = HAS[FRM] = 0; /* untouched: */
    given_back();
    ENSURE("pixel data and headers untouched", p.ref == o.ref && p.data[0] == o.data[0] && p.data[1] == o.data[1] && p.data[2] == o.data[2] && p.seq_hdr == o.seq_hdr && p.frame_hdr == o.frame_hdr && p.seq_hdr_ref == o.seq_hdr_ref && p.frame_hdr_ref == o.frame_hdr_ref && p.p.w == o.p.w && p.p.h == o.p.h && p.p.bpc == o.p.bpc && p.p.layout == o.p.layout && p.stride[0] == o.stride[0] && p.stride[1] == o.stride[1] && p.allocator_data == o.allocator_data);
}
#elif defined(U_ALLOC) || defined(U_ALLOC_COPY)
static int a_calls, a_ret, r_calls; static int ck; static Dav1dPicture seen; static uint8_t PIXELS[64];
static int user_alloc(Dav1dPicture *const p, void *const cookie) {
    ENSURE("allocator called once with its cookie", cookie == &ck && a_calls == 0); a_calls++; seen = *p;
    ND(int, a_ret); if (a_ret < 0) return a_ret;
    p->data[0] = PIXELS; p->data[1] = PIXELS + 8; p->data[2] = PIXELS + 16; p->stride[0] = 8; p->stride[1] = 4; p->allocator_data = &a_calls;
    return a_ret;
}
static void user_release(Dav1dPicture *const p, void *const cookie) {
    r_calls++;
    ENSURE("release gets the picture as allocated", cookie == &ck && p->data[0] == PIXELS && p->data[1] == PIXELS + 8 && p->data[2] == PIXELS + 16 && p->stride[0] == 8 && p->stride[1] == 4 && p->allocator_data == &a_calls && p->p.w == seen.p.w && p->p.h == seen.p.h && p->p.bpc == seen.p.bpc && p->p.layout == seen.p.layout);
}
static Dav1dContext C; static Dav1dFrameContext FC; static Dav1dSequenceHeader SH; static Dav1dFrameHeader FH; static struct Dav1dTileGroup TG;
static void after_success(Dav1dPicture *const p, const int w, const int h, const int bpc) {
    ENSURE("size, layout, depth", p->p.w == w && p->p.h == h && p->p.bpc == bpc && p->p.layout == SH.layout);
    ENSURE("the allocator saw the same geometry and headers", seen.p.w == w && seen.p.h == h && seen.p.bpc == bpc && seen.p.layout == SH.layout && seen.seq_hdr == &SH && seen.frame_hdr == &FH);
    ENSURE("headers attached", p->seq_hdr == &SH && p->frame_hdr == &FH && p->seq_hdr_ref == (HAS[SEQ] ? &R[SEQ] : NULL) && p->frame_hdr_ref == (HAS[FRM] ? &R[FRM] : NULL));
    ENSURE("pixel buffer attached", p->data[0] == PIXELS && p->data[1] == PIXELS + 8 && p->data[2] == PIXELS + 16 && p->stride[0] == 8 && p->stride[1] == 4 && p->allocator_data == &a_calls && p->ref && p->ref->ref_cnt == 1);
    ENSURE("one context taken, nothing returned", pops == 1 && pushes == 0 && r_calls == 0);
}
static void after_failure(const Dav1dPicture *const p, const int r) {
    ENSURE("failure reported", r < 0 && (pop_fail || a_ret < 0) && (pop_fail || r == a_ret) && (!pop_fail || r == DAV1D_ERR(ENOMEM)));
    ENSURE("no reference left behind", !p->ref && !p->data[0] && !p->seq_hdr_ref && !p->frame_hdr_ref && !p->m.user_data.ref && !p->content_light_ref && !p->mastering_display_ref && !p->itut_t35_ref);
    ENSURE("context returned to its pool", pops == pushes && r_calls == 0);
    counts(0);
}
static void drop(Dav1dPicture *const p) {
    Dav1dPicture q; memset(&q, 0, sizeof(q));
    dav1d_picture_ref(&q, p);
    dav1d_picture_unref_internal(p);
    ENSURE("buffer alive while a handle remains", r_calls == 0 && pushes == 0);
    dav1d_picture_unref_internal(&q);
    ENSURE("release callback exactly once with the last handle, context back in the pool", r_calls == 1 && pushes == 1);
}
#ifdef U_ALLOC
void harness(void) {
    int bpc, nfc; ND(int, bpc); ASSUME(bpc == 8 || bpc == 10 || bpc == 12);
    ND(Dav1dSequenceHeader, SH); ND(Dav1dFrameHeader, FH);
    C.pic_ctx_pool = &PL; C.allocator.cookie = &ck; C.allocator.alloc_picture_callback = user_alloc; C.allocator.release_picture_callback = user_release;
    ND(unsigned, C.n_fc); ND(int, C.frame_flags); ND(int, C.output_invisible_frames); ND(int, C.max_spatial_id);
    FC.c = &C; FC.seq_hdr = &SH; FC.frame_hdr = &FH; FC.tile = (void *) &TG;
    FC.seq_hdr_ref = mk(SEQ); FC.frame_hdr_ref = mk(FRM);
    C.content_light_ref = mk(CLL); C.mastering_display_ref = mk(MDV); C.itut_t35_ref = mk(T35);
    C.content_light = (void *) OBJ[CLL]; C.mastering_display = (void *) OBJ[MDV]; C.itut_t35 = (void *) OBJ[T35]; ND(size_t, C.n_itut_t35);
    ND(Dav1dDataProps, TG.data.m); TG.data.m.user_data.ref = mk(UD);
    N[PIX] = 1; R[PIX].ref_cnt = 1; HAS[PIX] = 0;
    const int flags = C.frame_flags, n35 = (int) C.n_itut_t35; const Dav1dITUTT35 *const t35 = C.itut_t35;
    const int r = dav1d_thread_picture_alloc(&C, &FC, bpc);
    Dav1dThreadPicture *const p = &FC.sr_cur;
    if (r) {
        REACH("alloc fails");
        after_failure(&p->p, r);
        ENSURE("context state unchanged by failure", C.frame_flags == flags && C.itut_t35 == t35 && C.itut_t35_ref == (HAS[T35] ? &R[T35] : NULL));
        return;
    }
    REACH("alloc succeeds");
    after_success(&p->p, FH.width[1], FH.height, bpc);
    ENSURE("visibility from the frame header", p->visible == FH.show_frame && p->showable == FH.showable_frame);
    ENSURE("picture carries the pending event flags", p->flags == flags);
    const int out = (FH.show_frame || C.output_invisible_frames) && C.max_spatial_id == FH.spatial_id;
    ENSURE("event flags kept for the next picture unless this one is output", C.frame_flags == (out ? 0 : flags & (PICTURE_FLAG_NEW_SEQUENCE | PICTURE_FLAG_NEW_OP_PARAMS_INFO)));
    ENSURE("input properties copied", p->p.m.timestamp == TG.data.m.timestamp && p->p.m.duration == TG.data.m.duration && p->p.m.offset == TG.data.m.offset && p->p.m.size == TG.data.m.size && p->p.m.user_data.data == TG.data.m.user_data.data && p->p.m.user_data.ref == TG.data.m.user_data.ref);
    if (FH.show_frame) {
        REACH("visible");
        ENSURE("HDR metadata attached", p->p.content_light == C.content_light && p->p.mastering_display == C.mastering_display && p->p.itut_t35 == t35 && (int) p->p.n_itut_t35 == n35 && p->p.itut_t35_ref == (HAS[T35] ? &R[T35] : NULL) && p->p.content_light_ref == (HAS[CLL] ? &R[CLL] : NULL) && p->p.mastering_display_ref == (HAS[MDV] ? &R[MDV] : NULL));
        ENSURE("T.35 metadata handed over, not shared", !C.itut_t35 && !C.itut_t35_ref && !C.n_itut_t35 && R[T35].ref_cnt == N[T35]);
        HAS[T35] = 0; counts(1);
    } else {
        REACH("invisible");
        ENSURE("metadata stays pending", C.itut_t35 == t35 && (int) C.n_itut_t35 == n35 && !p->p.itut_t35_ref && !p->p.content_light_ref && !p->p.mastering_display_ref);
        HAS[T35] = HAS[CLL] = HAS[MDV] = 0; counts(1);
    }
    if (C.n_fc > 1) ENSURE("progress starts at zero", p->progress && p->progress[0] == 0 && p->progress[1] == 0 && (uint8_t *) (p->progress + 2) <= (uint8_t *) HDR.data + popsz && (uint8_t *) p->progress >= (uint8_t *) HDR.data + sizeof(struct pic_ctx_context));
    drop(&p->p);
}
#else
void harness(void) {
    Dav1dPicture s, d; memset(&d, 0, sizeof(d)); int w; ND(int, w);
    ND(Dav1dSequenceHeader, SH); ND(Dav1dFrameHeader, FH);
    static Dav1dMemPoolBuffer SB; static struct pic_ctx_context SC; SB.data = &SC;
    SC.allocator.cookie = &ck; SC.allocator.alloc_picture_callback = user_alloc; SC.allocator.release_picture_callback = user_release;
    C.pic_ctx_pool = &PL; ND(unsigned, C.n_fc);
    mkpic(&s); ASSUME(HAS[PIX]); R[PIX].const_data = &SB; s.seq_hdr = &SH; s.frame_hdr = &FH;
    ASSUME(s.p.bpc == 8 || s.p.bpc == 10 || s.p.bpc == 12); ASSUME(s.p.layout == SH.layout);
    const Dav1dPicture o = s;
    const int r = dav1d_picture_alloc_copy(&C, &d, w, &s);
    ENSURE("source unchanged", same(&s, &o));
    if (r) { REACH("alloc_copy fails"); after_failure(&d, r); return; }
    REACH("alloc_copy succeeds");
    after_success(&d, w, s.p.h, s.p.bpc);
    ENSURE("metadata identical to the source", d.content_light == s.content_light && d.mastering_display == s.mastering_display && d.itut_t35 == s.itut_t35 && d.n_itut_t35 == s.n_itut_t35 && d.content_light_ref == s.content_light_ref && d.mastering_display_ref == s.mastering_display_ref && d.itut_t35_ref == s.itut_t35_ref);
    ENSURE("input properties identical", d.m.timestamp == s.m.timestamp && d.m.duration == s.m.duration && d.m.offset == s.m.offset && d.m.size == s.m.size && d.m.user_data.data == s.m.user_data.data && d.m.user_data.ref == s.m.user_data.ref);
    HAS[PIX] = 0; counts(1);
    drop(&d);
}
#endif
#elif defined(U_T35FREE)
void harness(void) {
    vf_never_fail = 1;
    struct itut_t35_ctx_context *const x = vf_malloc(sizeof(*x)); int n; ND(int, n); ASSUME(n >= 0 && n <= 4);
    x->itut_t35 = vf_malloc(sizeof(*x->itut_t35) * 5); x->n_itut_t35 = n;
    for (int i = 0; i < 5; i++) { x->itut_t35[i].payload = NULL; if (i < n) x->itut_t35[i].payload = vf_malloc(4); }
    dav1d_ref_init(&x->ref, (uint8_t *) x->itut_t35, dav1d_picture_free_itut_t35, x, 0);
    Dav1dRef *r = &x->ref;
    dav1d_ref_inc(r); Dav1dRef *q = r;
    dav1d_ref_dec(&r);
    ENSURE("metadata alive while referenced", vf_live == n + 2);
    dav1d_ref_dec(&q);
    REACH("t35 freed");
    ENSURE("every payload, the array and the context freed once", vf_live == 0);
}
#elif defined(U_FLAGS)
void harness(void) {
    Dav1dThreadPicture t; ND(Dav1dThreadPicture, t);
    const int r = dav1d_picture_get_event_flags(&t);
    REACH("flags");
    ENSURE("event flags reflect picture flags", r == ((t.flags & PICTURE_FLAG_NEW_SEQUENCE ? DAV1D_EVENT_FLAG_NEW_SEQUENCE : 0) | (t.flags & PICTURE_FLAG_NEW_OP_PARAMS_INFO ? DAV1D_EVENT_FLAG_NEW_OP_PARAMS_INFO : 0)));
}
#endif
