/* C11/C12: send / get / flush protocol and spatial-layer output, over contracts of the picture and data reference
 * operations (C06, C07) and of OBU parsing. Pictures are tokens: data[0] identifies the picture, HELD[k] counts handles. */
#include "verif.h"
#include "config.h"
#include <pthread.h>
#include <dlfcn.h>
#include "src/internal.h"
#define pthread_mutex_lock(m) 0
#define pthread_mutex_unlock(m) 0
#define pthread_cond_wait(c, m) ENSURE("only waits while the frame has tiles in flight or tasks to flush", 0)
#include "src/lib.c"
#ifndef ALL
#define ALL 0
#endif
#ifndef MSI
#define MSI 0
#endif
#define NT 8
static uint8_t TOK[NT], INBUF[64], UD[4]; static Dav1dFrameHeader HDR[NT]; static int HELD[NT], GRAIN[NT]; static unsigned PROG[NT][2];
static int DREFS, UDREFS, ngrain, grain_of, grain_res;
static Dav1dRef DREF, UDREF, RF; static int nrel; /* references given back */
#define tok(p) ((p)->data[0] ? (int)(p)->stride[1] : -1) /* token number of a picture handle */
#define CLR(p) do { (p)->data[0] = NULL; (p)->frame_hdr = NULL; } while (0)
#define COPY(d, s) do { (d)->data[0] = (s)->data[0]; (d)->frame_hdr = (s)->frame_hdr; (d)->stride[1] = (s)->stride[1]; (d)->p = (s)->p; (d)->m.timestamp = (s)->m.timestamp; } while (0)
#define TCOPY(d, s) do { COPY(&(d)->p, &(s)->p); (d)->flags = (s)->flags; (d)->visible = (s)->visible; (d)->progress = (s)->progress; } while (0)
static void give(Dav1dThreadPicture *const p, const int k) { p->p.data[0] = &TOK[k]; p->p.stride[1] = k; p->p.frame_hdr = &HDR[k]; HELD[k]++; }
void dav1d_thread_picture_unref(Dav1dThreadPicture *const p) { if (p->p.data[0]) HELD[tok(&p->p)]--; CLR(&p->p); p->progress = NULL; }
void dav1d_picture_unref_internal(Dav1dPicture *const p) { if (p->data[0]) HELD[tok(p)]--; CLR(p); }
void dav1d_thread_picture_move_ref(Dav1dThreadPicture *const d, Dav1dThreadPicture *const s) { ENSURE("no picture handle is overwritten", !d->p.data[0]); TCOPY(d, s); CLR(&s->p); }
void dav1d_thread_picture_ref(Dav1dThreadPicture *const d, const Dav1dThreadPicture *const s) { ENSURE("no picture handle is overwritten", !d->p.data[0]); TCOPY(d, s); if (s->p.data[0]) HELD[tok(&s->p)]++; }
void dav1d_picture_move_ref(Dav1dPicture *const d, Dav1dPicture *const s) { ENSURE("no picture handle is overwritten", !d->data[0]); COPY(d, s); CLR(s); }
void dav1d_picture_ref(Dav1dPicture *const d, const Dav1dPicture *const s) { ENSURE("no picture handle is overwritten", !d->data[0]); COPY(d, s); if (s->data[0]) HELD[tok(s)]++; }
/* grain: the output is a new picture made from `in`; here it takes over the token */
int dav1d_picture_alloc_copy(Dav1dContext *const c, Dav1dPicture *const dst, const int w, const Dav1dPicture *const src) {
    ngrain++; grain_of = tok(src); ENSURE("grain is applied to a whole picture", w == src->p.w);
    ND(int, grain_res); ASSUME(grain_res <= 0);
    if (grain_res < 0) return grain_res;
    COPY(dst, src); HELD[tok(src)]++; return 0;
}
static int nfg8, nfg16; static const Dav1dPicture *fg_src;
void dav1d_apply_grain_8bpc(const Dav1dFilmGrainDSPContext *const dsp, Dav1dPicture *const out, const Dav1dPicture *const in) { nfg8++; ENSURE("8-bit grain only for 8-bit pictures", in->p.bpc == 8); }
void dav1d_apply_grain_16bpc(const Dav1dFilmGrainDSPContext *const dsp, Dav1dPicture *const out, const Dav1dPicture *const in) { nfg16++; ENSURE("high bit depth grain only for 10 and 12 bit pictures", in->p.bpc == 10 || in->p.bpc == 12); }
void dav1d_task_delayed_fg(Dav1dContext *const c, Dav1dPicture *const out, const Dav1dPicture *const in) { nfg8++; }
enum Dav1dEventFlags dav1d_picture_get_event_flags(const Dav1dThreadPicture *const p) { return p->flags & 3; } /* unit 'event_flags' */
void dav1d_data_ref(Dav1dData *const d, const Dav1dData *const s) { ENSURE("no input is overwritten", !d->data); *d = *s; if (s->data) DREFS++; }
void dav1d_data_unref_internal(Dav1dData *const d) { if (d->data) DREFS--; d->data = NULL; d->sz = 0; d->ref = NULL; }
void dav1d_data_props_copy(Dav1dDataProps *const d, const Dav1dDataProps *const s) { *d = *s; }
void dav1d_data_props_set_defaults(Dav1dDataProps *const p) { static const Dav1dDataProps z; *p = z; p->timestamp = INT64_MIN; p->offset = -1; }
static int nprops_unref;
void dav1d_data_props_unref_internal(Dav1dDataProps *const p) { nprops_unref++; if (p->user_data.ref) UDREFS--; dav1d_data_props_set_defaults(p); }
void dav1d_ref_dec(Dav1dRef **const r) { if (*r) nrel++; *r = NULL; }
static int ncdf; void dav1d_cdf_thread_unref(CdfThreadContext *const c) { ncdf++; dav1d_ref_dec(&c->ref); }
static int nexit[4]; static Dav1dFrameContext *FCB; void dav1d_decode_frame_exit(Dav1dFrameContext *const f, int r) { nexit[f == FCB ? 0 : 1]++; ENSURE("flushed frames are dropped as errors", r < 0); }
void dav1d_log(Dav1dContext *c, const char *f, ...) {}
static Dav1dContext C; static Dav1dFrameContext FC[2]; static Dav1dThreadPicture DELAYED[2]; static Dav1dTaskContext TCX[2]; static int FLUSHFLAG;

/* AV1 7.18: output process of a spatially layered stream, as an automaton fed with the shown pictures in order.
 * m_cache: the best picture of the current temporal unit so far */
static int m_cache, m_layered, m_deliver;
static void arrive(const int k, const unsigned flags) {
    m_deliver = -1;
    if (!m_layered) { m_deliver = k; return; }
    if (m_cache < 0) { m_cache = k; return; }
    if (HDR[m_cache].spatial_id == C.max_spatial_id || (flags & PICTURE_FLAG_NEW_TEMPORAL_UNIT)) m_deliver = m_cache; /* else: a lower layer replaced by a higher one */
    m_cache = k;
}
static int calls, last_res, new_tok, n_arrived; static unsigned new_flags; static int m_in_left, m_pending, m_error;
#ifndef MAXOBU
#define MAXOBU 2
#endif
ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
    ENSURE("parses the pending input", in == &c->in && in->sz > 0 && in->data && in->sz == (size_t)m_in_left && in->data == INBUF + 64 - m_in_left);
    ENSURE("no shown picture is overwritten by the next one", !c->out.p.data[0] && m_deliver < 0 && !c->cached_error);
    calls++;
    int res, shown; ND(int, res); ND(int, shown); ND(unsigned, new_flags);
    ASSUME(res <= m_in_left && res != 0 && (calls < MAXOBU || res < 0 || res == m_in_left));
    if (shown) {
        c->out.flags = new_flags; give(&c->out, NT - 1 - calls);
        arrive(NT - 1 - calls, new_flags);
    }
#ifdef MT
    if (!shown) { ND(int, c->cached_error); ASSUME(c->cached_error <= 0); m_error = c->cached_error; }
#endif
    last_res = res;
    if (res < 0) m_in_left = 0; else m_in_left -= res;
    return res;
}
/* arbitrary decoder state: pending output and cached picture may exist or not */
static void state(void) {
    int o, k; ND(int, o); ND(int, k);
    C.all_layers = ALL; C.max_spatial_id = MSI; /* the operating point is fixed per unit */
ND(int, C.apply_grain); ND(int, C.output_invisible_frames); ND(int, C.drain); ND(int, C.cached_error);
    ASSUME(C.cached_error <= 0);
    for (int i = 0; i < NT; i++) { ND(int, HDR[i].spatial_id); ASSUME(HDR[i].spatial_id >= 0 && HDR[i].spatial_id <= C.max_spatial_id); ND(int, GRAIN[i]); HDR[i].film_grain.data.num_y_points = GRAIN[i] != 0; }
    m_layered = !C.all_layers && C.max_spatial_id; m_cache = -1; m_deliver = -1;
    C.n_fc = C.n_tc = 1; C.flush = (atomic_int *)&FLUSHFLAG; C.fc = FC; C.tc = TCX;
    if (k && m_layered) { give(&C.cache, 0); ND(unsigned, C.cache.flags); m_cache = 0; }
    if (o) { give(&C.out, 1); ND(unsigned, C.out.flags); arrive(1, C.out.flags); }
}
typedef struct { uint8_t b[4]; } B4;
static int held_total(void) { int n = 0; for (int i = 0; i < NT; i++) { n += HELD[i]; ENSURE("no picture is released more often than held", HELD[i] >= 0); } return n; }
static int has(const Dav1dThreadPicture *const p) { return p->p.data[0] != NULL; }
static void input(const int must) {
    ND(int, m_in_left); ASSUME(m_in_left >= (must ? 1 : 0) && m_in_left <= 64);
}
static void check_delivered(const int r, Dav1dPicture *const out, const int want) {
    const int g = C.apply_grain && GRAIN[want];
    if (r == 0) ENSURE("the output is the picture due now, with a single handle on it", tok(out) == want && HELD[want] == 1 && out->frame_hdr == &HDR[want]);
    else { ENSURE("delivery only fails when applying grain fails", g && ngrain && r == grain_res); ENSURE("nothing is handed out on failure", !out->data[0]); ENSURE("the picture is released on failure", HELD[want] == 0); }
    ENSURE("film grain is applied exactly when requested and signalled", ngrain == g && (!g || grain_of == want) && nfg8 + nfg16 == (g && r == 0));
}
#if defined(U_GET)
void harness(void) {
    state(); static Dav1dPicture out;
    for (int i = 0; i < NT; i++) ;
    int bpc; ND(int, bpc); ASSUME(bpc == 8 || bpc == 10 || bpc == 12); C.out.p.p.bpc = C.cache.p.p.bpc = bpc;
#ifndef NOINPUT
    input(0);
    if (m_in_left) { C.in.data = INBUF + 64 - m_in_left; C.in.sz = m_in_left; DREFS = 1; }
#endif
    const int err0 = C.cached_error, o0 = tok(&C.out.p), c0 = tok(&C.cache.p), left0 = m_in_left;
    if (err0) m_deliver = -1;
    const int r = dav1d_get_picture(&C, &out);
    if (err0) {
        REACH("pending error");
        ENSURE("a pending error is reported once, before anything else happens", r == err0 && C.cached_error == 0 && calls == 0 && !out.data[0] && tok(&C.out.p) == o0 && tok(&C.cache.p) == c0 && (int)C.in.sz == left0);
        return;
    }
    ENSURE("input is released exactly when used up or rejected", DREFS == (C.in.data != NULL) && (C.in.data != NULL) == (m_in_left > 0) && (int)C.in.sz == m_in_left);
    if (C.in.data) ENSURE("unread input is kept in place", C.in.data == INBUF + 64 - m_in_left && m_in_left > 0);
    if (m_deliver >= 0) { /* a picture became due while parsing */
        REACH("picture due");
        check_delivered(r, &out, m_deliver);
        ENSURE("remaining pictures are kept", held_total() == (r == 0) + (m_layered && m_cache >= 0 ? 1 : 0));
        ENSURE("the newer picture becomes the candidate of its temporal unit", tok(&C.cache.p) == (m_layered ? m_cache : -1) && !has(&C.out));
    } else if (last_res < 0) {
#ifndef NOINPUT
        REACH("parse error");
#endif
        ENSURE("the error of the rejected data is reported", r == last_res && !out.data[0] && !C.in.data);
        ENSURE("pictures are unaffected by the error", tok(&C.cache.p) == m_cache && !has(&C.out) && held_total() == (m_cache >= 0));
    } else if (m_layered && m_cache >= 0) {
#if MSI && !ALL
        REACH("end of data: best lower layer");
#endif
        check_delivered(r, &out, m_cache);
        ENSURE("nothing is left", !has(&C.cache) && !has(&C.out) && held_total() == (r == 0));
    } else {
        REACH("again");
        ENSURE("try-again only when there is nothing to output and no input left", r == DAV1D_ERR(EAGAIN) && !out.data[0] && !C.in.data && held_total() == 0 && !has(&C.out) && !has(&C.cache));
    }
}
#elif defined(U_SEND)
void harness(void) {
    state(); static Dav1dData d;
    int busy, n; ND(int, busy); ND(int, n);
    Dav1dDataProps m; ND(Dav1dDataProps, m); m.user_data.ref = NULL; m.user_data.data = NULL;
    if (busy) { C.in.data = INBUF + 60; C.in.sz = 4; DREFS++; m_in_left = 4; }
    if (n) { d.data = INBUF + 32; d.sz = 32; d.ref = &DREF; d.m = m; DREFS++; if (!busy) m_in_left = 32; }
    const int cold = C.cached_error, o0 = tok(&C.out.p), drain0 = C.drain;
    if (cold) m_deliver = -1;
    const int r = dav1d_send_data(&C, &d);
    ENSURE("sending data restarts a drained decoder", C.drain == (n ? 0 : drain0));
    if (busy) {
        REACH("busy");
        ENSURE("pending input: try again, the new data stays with the caller", r == DAV1D_ERR(EAGAIN) && (n ? d.data == INBUF + 32 && d.sz == 32 && d.ref == &DREF : !d.data) && C.in.data == INBUF + 60 && C.in.sz == 4 && DREFS == 1 + (n != 0) && calls == 0 && tok(&C.out.p) == o0 && C.cached_error == cold);
        return;
    }
    if (r == 0) {
        REACH("taken");
        ENSURE("the decoder takes the whole input", !d.data && !d.sz && !d.ref && DREFS == (C.in.data != NULL));
        ENSURE("exactly the unparsed rest is kept", (C.in.data != NULL) == (m_in_left > 0) && (!C.in.data || C.in.data == INBUF + 64 - m_in_left && (int)C.in.sz == m_in_left));
        ENSURE("an error is only held back by a picture or an earlier error that is due first", last_res >= 0 || m_deliver >= 0 || m_error);
    } else {
        REACH("rejected");
        ENSURE("a parse error is reported and the data stays with the caller", r == last_res && r < 0 && n && d.data == INBUF + 32 && d.sz == 32 && d.ref == &DREF && DREFS == 1 && !C.in.data);
        ENSURE("a picture due is not lost", m_deliver < 0);
    }
    ENSURE("pictures are only added", held_total() == (m_deliver >= 0) + (m_layered ? m_cache >= 0 : 0) || cold);
    if (m_deliver >= 0 && !cold) ENSURE("the picture due is pending for output", m_layered ? tok(&C.cache.p) == m_deliver && tok(&C.out.p) == m_cache : tok(&C.out.p) == m_deliver);
}
#elif defined(U_DRAIN)
void harness(void) {
    state(); static Dav1dPicture out; static Dav1dRef du;
    C.n_fc = 2; C.frame_thread.out_delayed = DELAYED; unsigned first, cur; ND(unsigned, first); ND(unsigned, cur); ASSUME(first < 2 && cur <= 2); atomic_init(&C.task_thread.first, first); C.task_thread.cur = cur;
    const unsigned next = NEXT; C.frame_thread.next = NEXT; C.drain = 1; ASSUME(C.cached_error == 0);
    int pic[2], err[2], rv[2], vis[2], bad[2]; unsigned fl[2];
    for (int i = 0; i < 2; i++) {
        int a, b, c, v, p; unsigned f; ND(int, a); ND(int, b); ND(int, c); ND(int, v); ND(int, p); ND(unsigned, f);
        pic[i] = a != 0; err[i] = b; rv[i] = c; vis[i] = v != 0; bad[i] = p != 0; fl[i] = f;
        ASSUME(rv[i] <= 0);
        FC[i].n_tile_data = 0; FC[i].task_thread.ttd = &C.task_thread; FC[i].task_thread.retval = rv[i]; atomic_init(&FC[i].task_thread.error, err[i]);
        PROG[i][1] = bad[i] ? FRAME_ERROR : 7;
        if (pic[i]) { give(&DELAYED[i], 2 + i); DELAYED[i].progress = (void *)PROG[i]; DELAYED[i].visible = vis[i]; DELAYED[i].flags = fl[i]; DELAYED[i].p.m.timestamp = 100 + i; }
    }
    const int ev0 = C.event_flags;
    int wdel = m_deliver, werr = 0, done = wdel >= 0, drained = 0, nvisit = 0, ev = 0, wprops = -1;
    for (int k = 0; k < 2; k++) { const int i = (next + k) % 2;
        if (done) break;
        if (pic[i] || err[i]) drained = 1; else if (drained) break;
        nvisit++;
        if (rv[i]) { werr = rv[i]; done = 1; wprops = i; pic[i] = pic[i]; break; }
        if (pic[i] && (vis[i] || C.output_invisible_frames) && !bad[i]) { ev |= fl[i] & 3; arrive(2 + i, fl[i]); if (m_deliver >= 0) { wdel = m_deliver; done = 1; } }
    }
    const int r = dav1d_get_picture(&C, &out);
    for (int k = 0; k < 2; k++) { const int i = (next + k) % 2; if (k < nvisit) ENSURE("a finished frame context gives up its picture", !has(&DELAYED[i])); else ENSURE("frame contexts not yet due are left alone", has(&DELAYED[i]) == pic[i] && FC[i].task_thread.retval == rv[i]); }
    ENSURE("frame contexts are drained in order", C.frame_thread.next == (next + nvisit) % 2);
    ENSURE("event flags of every picture taken are accumulated", C.event_flags == (ev0 | ev));
    if (wdel >= 0) { REACH("drained picture"); check_delivered(r, &out, wdel); }
    else if (werr) {
        REACH("drained error");
        ENSURE("a frame error is reported once with its data properties", r == werr && FC[wprops].task_thread.retval == 0 && (!pic[wprops] || C.cached_error_props.timestamp == 100 + wprops) && !out.data[0]);
    } else if (m_layered && m_cache >= 0) {
#if MSI && !ALL
        REACH("drained lower layer");
#endif
        check_delivered(r, &out, m_cache); }
    else { REACH("drained nothing"); ENSURE("try again when all frame contexts are empty", r == DAV1D_ERR(EAGAIN) && !out.data[0]); }
}
#elif defined(U_FLUSH)
void harness(void) {
    state(); ND(int, C.cached_error); C.in.data = INBUF; C.in.sz = 5; DREFS = 1; C.n_fc = NFC; C.n_tc = NTC; FCB = FC; C.frame_thread.out_delayed = DELAYED;
    int nr = 0; /* references held */
#define R(p) do { int vf_x; ND(int, vf_x); if (vf_x) { (p) = &RF; nr++; } } while (0)
#if NFC == 1 /* the reference slots are covered by the other units */
    for (int i = 0; i < 8; i++) { int h; ND(int, h); C.refs[i].p.p.stride[1] = i; if (h) give(&C.refs[i].p, i); R(C.refs[i].segmap); R(C.refs[i].refmvs); R(C.cdf[i].ref); }
#endif
    R(C.seq_hdr_ref); R(C.mastering_display_ref); R(C.content_light_ref); R(C.itut_t35_ref);
    static Dav1dSequenceHeader sh; static Dav1dContentLightLevel cl; static Dav1dMasteringDisplay md; static Dav1dITUTT35 it;
    C.seq_hdr = &sh; C.frame_hdr = &HDR[0]; C.content_light = &cl; C.mastering_display = &md; C.itut_t35 = &it; C.n_itut_t35 = 1;
    C.cached_error_props.user_data.ref = &UDREF; UDREFS = 1;
    C.frame_thread.next = NFC - 1;
    for (int i = 0; i < NFC; i++) { ND(int, FC[i].n_tile_data); ND(int, FC[i].task_thread.retval); int h; ND(int, h); DELAYED[i].p.stride[1] = i; if (h && NFC > 1) give(&DELAYED[i], i); FC[i].task_thread.task_head = FC[i].task_thread.task_tail = FC[i].task_thread.task_cur_prev = (void *)&UDREF; FC[i].task_thread.pending_tasks.head = (void *)&UDREF; atomic_init(&FC[i].task_thread.error, 1); }
    for (int i = 0; i < NTC; i++) TCX[i].task_thread.flushed = 1;
    dav1d_flush(&C);
    REACH("flushed");
    ENSURE("no input left", !C.in.data && !C.in.sz && DREFS == 0);
    ENSURE("no output or cached picture left", !has(&C.out) && !has(&C.cache));
    for (int i = 0; i < 8; i++) ENSURE("all reference slots emptied", !has(&C.refs[i].p) && !C.refs[i].segmap && !C.refs[i].refmvs && !C.cdf[i].ref);
    ENSURE("every picture handle was released exactly once", held_total() == 0);
    ENSURE("every other reference was released exactly once", nrel == nr);
    ENSURE("headers and metadata dropped", !C.seq_hdr && !C.frame_hdr && !C.seq_hdr_ref && !C.mastering_display && !C.content_light && !C.itut_t35 && !C.n_itut_t35 && !C.mastering_display_ref && !C.content_light_ref && !C.itut_t35_ref);
    ENSURE("no pending error, not draining", !C.cached_error && !C.drain && UDREFS == 0 && !C.cached_error_props.user_data.ref);
    ENSURE("flush request withdrawn", FLUSHFLAG == 0);
#if NFC > 1
    for (int i = 0; i < NFC; i++) ENSURE("frame contexts idle", nexit[i] == 1 && !has(&DELAYED[i]) && FC[i].n_tile_data == 0 && FC[i].task_thread.retval == 0 && atomic_load(&FC[i].task_thread.error) == 0);
    ENSURE("output order restarts", C.frame_thread.next == 0);
#endif
#if NTC > 1
    for (int i = 0; i < NFC; i++) ENSURE("no task left", !FC[i].task_thread.task_head && !FC[i].task_thread.task_tail && !FC[i].task_thread.task_cur_prev && !FC[i].task_thread.pending_tasks.head && !FC[i].task_thread.pending_tasks.tail && !atomic_load(&FC[i].task_thread.pending_tasks.merge));
    ENSURE("task queue restarts", atomic_load(&C.task_thread.first) == 0 && C.task_thread.cur == NFC && atomic_load(&C.task_thread.reset_task_cur) == UINT_MAX && !atomic_load(&C.task_thread.cond_signaled));
#endif
}
#elif defined(U_QUERY)
void harness(void) {
    Dav1dDataProps p, o; ND(Dav1dDataProps, p); ND(Dav1dDataProps, o); p.user_data.ref = &UDREF; p.user_data.data = UD; int oref; ND(int, oref); o.user_data.ref = oref ? &DREF : NULL; UDREFS = 1 + (oref != 0);
    C.cached_error_props = p; int ev; ND(int, ev); C.event_flags = ev;
    enum Dav1dEventFlags f = 99;
    ENSURE("event flags returned", dav1d_get_event_flags(&C, &f) == 0 && f == ev);
    ENSURE("event flags are reported once", C.event_flags == 0);
    ENSURE("error properties returned", dav1d_get_decode_error_data_props(&C, &o) == 0 && o.timestamp == p.timestamp && o.duration == p.duration && o.offset == p.offset && o.size == p.size && o.user_data.ref == &UDREF && o.user_data.data == UD);
    REACH("queried");
    ENSURE("the reference moves to the caller and the old one is released", UDREFS == 1 && C.cached_error_props.user_data.ref == NULL && C.cached_error_props.timestamp == INT64_MIN && C.cached_error_props.size == 0 && C.cached_error_props.offset == -1);
    ENSURE("missing arguments are rejected", dav1d_get_event_flags(NULL, &f) < 0 && dav1d_get_event_flags(&C, NULL) < 0 && dav1d_get_decode_error_data_props(&C, NULL) < 0);
    static Dav1dPicture pic; Dav1dData d = { 0 };
    ENSURE("missing arguments are rejected", dav1d_get_picture(NULL, &pic) == DAV1D_ERR(EINVAL) && dav1d_get_picture(&C, NULL) == DAV1D_ERR(EINVAL) && dav1d_send_data(NULL, &d) == DAV1D_ERR(EINVAL) && dav1d_send_data(&C, NULL) == DAV1D_ERR(EINVAL));
    d.data = INBUF; ENSURE("empty data is rejected", dav1d_send_data(&C, &d) == DAV1D_ERR(EINVAL));
}
#endif
