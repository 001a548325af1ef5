/* C10: settings validation, automatic values, frame delay. Release semantics (NDEBUG):
 * an invalid argument is reported, not aborted on. */
#include "verif.h"
#include "config.h"
#include <pthread.h>
#include <dlfcn.h>
#include <limits.h>
static int vf_pm(void **pp, size_t align, size_t sz); static void *vf_m(size_t sz); static void vf_f(void *p);
#define posix_memalign(p, a, s) vf_pm(p, a, s)
#define malloc(s) vf_m(s)
#define free(p) vf_f(p)
#include "src/internal.h"

static int live, ever, fail_any; static int NCPU;
static int ndfail(void) { int f; ND(int, f); if (f) fail_any = 1; return f != 0; }
static Dav1dContext CTX;
#define NF 2
static Dav1dFrameContext FCS[NF]; static Dav1dTaskContext TCS[NF]; static Dav1dThreadPicture OD[NF];
static size_t fc_sz, tc_sz, od_sz; static int nalloc, ctx_live, fc_live, tc_live, od_live;
static int vf_pm(void **pp, const size_t align, const size_t sz) {
    const int k = nalloc++;
    if (k == 0) { ENSURE("context allocation", sz >= sizeof(Dav1dContext) && align == 64); }
    else if (k == 1) fc_sz = sz; else tc_sz = sz;
#ifdef U_NOMEM
    fail_any = 1; return 12;
#endif
#ifdef U_VALID
    if (k != 0) { fail_any = 1; return 12; } /* thread contexts are covered by the 'threads' units */
#endif
    if (k != 0 && ndfail()) return 12; /* k == 0: unit 'nomem' */
    if (k == 0) { *pp = &CTX; ctx_live++; }
    else if (k == 1) { ASSUME(sz <= sizeof(FCS)); *pp = FCS; fc_live++; }
    else { ASSUME(sz <= sizeof(TCS)); *pp = TCS; tc_live++; }
    return 0;
}
static void *vf_m(const size_t sz) { od_sz = sz; if (ndfail()) return NULL; ASSUME(sz <= sizeof(OD)); od_live++; return OD; }
static void vf_f(void *const p) {
    if (!p) return;
    if (p == &CTX) ctx_live--; else if (p == FCS) fc_live--; else if (p == TCS) tc_live--; else if (p == OD) od_live--;
    else ENSURE("only own allocations are freed", 0);
}
#ifndef VF_NATIVE
/* the objects handed out above are zero; that the code clears each of them is an obligation */
static int clr_ctx, clr_fc, clr_tc, clr_od;
static void vf_ms(void *const p, const int v, const size_t n) {
    ENSURE("cleared to zero", v == 0);
    if (p == &CTX) clr_ctx = n == sizeof(CTX); else if (p == FCS) clr_fc = n == fc_sz; else if (p == TCS) clr_tc = n == tc_sz; else if (p == OD) clr_od = n == od_sz;
}
#define memset(p, v, n) vf_ms(p, v, n)
#endif
static int mutexes, conds, threads, attrs;
#define pthread_once(o, f) 0
#define pthread_attr_init(a) (ndfail() ? 12 : (attrs++, 0))
#define pthread_attr_destroy(a) (attrs--, 0)
#define pthread_attr_setstacksize(a, s) 0
#define pthread_mutex_init(m, a) (ndfail() ? 12 : (mutexes++, 0))
#define pthread_mutex_destroy(m) (mutexes--, 0)
#define pthread_mutex_lock(m) 0
#define pthread_mutex_unlock(m) 0
#define pthread_cond_init(c, a) (ndfail() ? 12 : (conds++, 0))
#define pthread_cond_destroy(c) (conds--, 0)
#define pthread_cond_broadcast(c) 0
#define pthread_cond_wait(c, m) 0
#define pthread_create(t, a, f, x) (ndfail() ? 11 : (threads++, 0))
#define pthread_join(t, r) (threads--, 0)
#define dlsym(h, n) NULL
#include "src/lib.c"
int dav1d_num_logical_processors(Dav1dContext *const c) { return NCPU; }
static Dav1dMemPool POOLS[8]; static int npools;
int (dav1d_mem_pool_init)(Dav1dMemPool **const pp) { if (ndfail()) { *pp = NULL; return DAV1D_ERR(ENOMEM); } *pp = &POOLS[npools++ & 7]; live++; return 0; }
void dav1d_mem_pool_end(Dav1dMemPool *const p) { if (p) live--; }
void dav1d_data_props_set_defaults(Dav1dDataProps *const p) { p->timestamp = INT64_MIN; p->offset = -1; }
int dav1d_default_picture_alloc(Dav1dPicture *p, void *c) { return 0; }
void dav1d_default_picture_release(Dav1dPicture *p, void *c) {}
void dav1d_log(Dav1dContext *c, const char *f, ...) {}
void dav1d_log_default_callback(void *c, const char *f, va_list ap) {}
void dav1d_data_unref_internal(Dav1dData *d) {}
void dav1d_data_props_unref_internal(Dav1dDataProps *d) {}
void dav1d_thread_picture_unref(Dav1dThreadPicture *p) {}
void dav1d_ref_dec(Dav1dRef **r) { *r = NULL; }
void dav1d_cdf_thread_unref(CdfThreadContext *c) {}
void dav1d_decode_frame_exit(Dav1dFrameContext *f, int r) {}
void dav1d_pal_dsp_init(Dav1dPalDSPContext *c) {}
void dav1d_refmvs_dsp_init(Dav1dRefmvsDSPContext *c) {}
void *dav1d_worker_task(void *d) { return NULL; }

static int cust_alloc(Dav1dPicture *p, void *c) { return 0; }
static void cust_rel(Dav1dPicture *p, void *c) {}
static Dav1dSettings S; static int A, Rl, CK; static int cookie_obj;
static void settings(void) {
    ND(Dav1dSettings, S); ND(int, A); ND(int, Rl); ND(int, CK); ND(int, NCPU);
    ASSUME(A >= 0 && A <= 2 && Rl >= 0 && Rl <= 2);
    S.allocator.alloc_picture_callback = A == 0 ? NULL : A == 1 ? dav1d_default_picture_alloc : cust_alloc;
    S.allocator.release_picture_callback = Rl == 0 ? NULL : Rl == 1 ? dav1d_default_picture_release : cust_rel;
    S.allocator.cookie = CK ? &cookie_obj : NULL;
    S.logger.callback = NULL; S.logger.cookie = NULL;
}
static int ranges_ok(const Dav1dSettings *const s) {
    return s->n_threads >= 0 && s->n_threads <= 256 && s->max_frame_delay >= 0 && s->max_frame_delay <= 256;
}
static int valid(void) {
    return ranges_ok(&S) && A && Rl && S.operating_point >= 0 && S.operating_point <= 31 &&
           (int) S.decode_frame_type >= DAV1D_DECODEFRAMETYPE_ALL && (int) S.decode_frame_type <= DAV1D_DECODEFRAMETYPE_KEY;
}
static int consistent(void) { return (A == 1 && Rl == 1 && !CK) || (A == 2 && Rl == 2); }
/* documented: threads 0 = number of logical cores; delay 0 = ceil(sqrt(threads)), at most 8 */
static int spec_tc(void) { return S.n_threads ? S.n_threads : NCPU < 1 ? 1 : NCPU > 256 ? 256 : NCPU; }
static int spec_fc(const int tc) {
    if (S.max_frame_delay) return S.max_frame_delay < tc ? S.max_frame_delay : tc;
    return tc <= 1 ? 1 : tc <= 4 ? 2 : tc <= 9 ? 3 : tc <= 16 ? 4 : tc <= 25 ? 5 : tc <= 36 ? 6 : tc <= 49 ? 7 : 8;
}
static void released(Dav1dContext *const out) {
    ENSURE("no context handed out on failure", out == NULL);
    ENSURE("everything allocated is freed on failure", !ctx_live && !fc_live && !tc_live && !od_live && !live && !threads && !attrs);
}
static void captured(const Dav1dContext *const c) {
    ENSURE("settings used as given", c->apply_grain == S.apply_grain && c->operating_point == S.operating_point && c->all_layers == S.all_layers &&
           c->frame_size_limit == S.frame_size_limit && c->strict_std_compliance == S.strict_std_compliance &&
           c->output_invisible_frames == S.output_invisible_frames && c->inloop_filters == S.inloop_filters && c->decode_frame_type == S.decode_frame_type);
    ENSURE("allocator used as given", c->allocator.alloc_picture_callback == S.allocator.alloc_picture_callback && c->allocator.release_picture_callback == S.allocator.release_picture_callback &&
           (A == 2 ? c->allocator.cookie == S.allocator.cookie : c->allocator.cookie == c->picture_pool && c->picture_pool));
}
#if defined(U_VALID)
void harness(void) {
    Dav1dContext *out = NULL;
    settings();
    const int r = dav1d_open(&out, &S);
    ENSURE("opening fails in this unit (no memory for thread contexts)", r < 0);
    if (!valid()) {
        REACH("invalid settings");
        ENSURE("out-of-range settings are reported as invalid argument", r == DAV1D_ERR(EINVAL));
        ENSURE("nothing is allocated for invalid settings", nalloc == 0 && !out);
        return;
    }
    ENSURE("valid settings are never reported as invalid", r != DAV1D_ERR(EINVAL));
    if (nalloc) released(out);
    else ENSURE("only attribute set-up can fail before the context exists", fail_any && nalloc == 0);
    if (!consistent()) { REACH("inconsistent"); ENSURE("a half-default allocator is rejected before any thread context is made", nalloc <= 1); }
    if (nalloc >= 2) {
        REACH("contexts requested");
        ENSURE("reached only with a consistent allocator", consistent());
        const int tc = spec_tc(), fc = spec_fc(tc);
        ENSURE("one frame context per frame of delay", fc_sz == sizeof(Dav1dFrameContext) * (size_t) fc);
        ENSURE("thread and frame counts in range", (int) CTX.n_tc == tc && (int) CTX.n_fc == fc && fc >= 1 && fc <= tc && fc <= 256 && tc <= 256);
        captured(&CTX);
    }
}
#elif defined(U_NOMEM)
void harness(void) {
    Dav1dContext *out = NULL;
    settings();
    const int r = dav1d_open(&out, &S);
    REACH("no memory for the context");
    if (!valid()) ENSURE("invalid settings are reported before allocating", r == DAV1D_ERR(EINVAL) && nalloc == 0);
    else { ENSURE("out of memory is reported", r == DAV1D_ERR(ENOMEM)); if (nalloc) released(out); }
    ENSURE("missing arguments are reported", dav1d_open(NULL, &S) == DAV1D_ERR(EINVAL) && dav1d_open(&out, NULL) == DAV1D_ERR(EINVAL));
}
#elif defined(U_THREADS)
void harness(void) {
    Dav1dContext *out = NULL;
    settings(); ASSUME(valid());
    S.n_threads = TC; S.max_frame_delay = FC; /* resolution of automatic values: unit validate */
    const int r = dav1d_open(&out, &S);
    const int tc = spec_tc(), fc = spec_fc(tc);
    if (r) {
        REACH("open fails");
        ENSURE("failure has a cause", fail_any || !consistent());
        if (nalloc) released(out);
        return;
    }
    REACH("open succeeds");
    ENSURE("success only with a consistent allocator and no failed resource", consistent() && !fail_any && out == &CTX);
    captured(out);
#ifndef VF_NATIVE
    ENSURE("contexts start cleared", clr_ctx && clr_fc && clr_tc && (!od_sz || clr_od));
#endif
    ENSURE("counts", (int) out->n_tc == tc && (int) out->n_fc == fc && fc_sz == sizeof(Dav1dFrameContext) * fc && tc_sz == sizeof(Dav1dTaskContext) * tc);
    ENSURE("one worker per thread when threading", threads == (tc > 1 ? tc : 0) && attrs == 0);
    ENSURE("fresh decoder state", !out->in.data && !out->in.ref && !out->out.p.data[0] && !out->cache.p.data[0] && !out->cached_error && !out->drain && !out->seq_hdr && !out->frame_hdr && out->cached_error_props.timestamp == INT64_MIN && out->cached_error_props.offset == -1);
    for (int i = 0; i < fc; i++) ENSURE("frame contexts initialised", FCS[i].c == out && FCS[i].task_thread.ttd == &out->task_thread && FCS[i].lf.last_sharpness == -1);
    for (int i = 0; i < tc; i++) ENSURE("thread contexts initialised", TCS[i].c == out && TCS[i].f == &FCS[0] && TCS[i].task_thread.ttd == &out->task_thread);
    ENSURE("output delay line only with frame threads", fc > 1 ? out->frame_thread.out_delayed == OD && od_sz == sizeof(Dav1dThreadPicture) * fc : od_sz == 0);
    close_internal(&out, 0);
    ENSURE("closing releases everything", !ctx_live && !fc_live && !tc_live && !od_live && !live && !threads && !mutexes && !conds && !out);
}
#elif defined(U_DELAY)
void harness(void) {
    settings();
    const int d = dav1d_get_frame_delay(&S);
    if (!ranges_ok(&S)) { REACH("invalid"); ENSURE("out-of-range settings reported", d == DAV1D_ERR(EINVAL)); return; }
    REACH("delay");
    const int tc = spec_tc();
    ENSURE("delay is the number of frame contexts an opened decoder uses", d == spec_fc(tc));
    ENSURE("delay between 1 and the thread count", d >= 1 && d <= tc && d <= DAV1D_MAX_FRAME_DELAY);
    ENSURE("no settings pointer", dav1d_get_frame_delay(NULL) == DAV1D_ERR(EINVAL));
}
#elif defined(U_DEFAULTS)
void harness(void) {
    Dav1dSettings s; ND(Dav1dSettings, s); dav1d_default_settings(&s);
    REACH("defaults");
    ENSURE("documented defaults", s.n_threads == 0 && s.max_frame_delay == 0 && s.apply_grain == 1 && s.operating_point == 0 && s.all_layers == 1 && s.frame_size_limit == 0 &&
           s.strict_std_compliance == 0 && s.output_invisible_frames == 0 && s.inloop_filters == DAV1D_INLOOPFILTER_ALL && s.decode_frame_type == DAV1D_DECODEFRAMETYPE_ALL);
    ENSURE("default allocator and logger", s.allocator.cookie == NULL && s.allocator.alloc_picture_callback == dav1d_default_picture_alloc && s.allocator.release_picture_callback == dav1d_default_picture_release && s.logger.cookie == NULL && s.logger.callback == dav1d_log_default_callback);
    S = s; A = Rl = 1; CK = 0; NCPU = 4;
    ENSURE("defaults are valid settings", valid() && consistent());
    ENSURE("API version", dav1d_version_api() == ((DAV1D_API_VERSION_MAJOR << 16) | (DAV1D_API_VERSION_MINOR << 8) | DAV1D_API_VERSION_PATCH) && dav1d_version() != NULL);
}
#endif
