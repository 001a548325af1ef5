/* C06: the public data functions are exactly the internal operations. */
#include "verif.h"
#include "config.h"
#include "src/lib.c"
static int calls; static const void *A1, *A2; static size_t A3; static void *A5; static void *A4;
static uint8_t RET[1]; static int RI;
static uint8_t *S_create(Dav1dData *const b, const size_t sz) { calls++; A1 = b; A3 = sz; return RET; }
uint8_t *dav1d_data_create_internal(Dav1dData *const b, const size_t sz) { return S_create(b, sz); }
int dav1d_data_wrap_internal(Dav1dData *const b, const uint8_t *const p, const size_t sz, void (*const f)(const uint8_t *, void *), void *const u) { calls += 10; A1 = b; A2 = p; A3 = sz; A4 = (void *) f; A5 = u; return RI; }
int dav1d_data_wrap_user_data_internal(Dav1dData *const b, const uint8_t *const p, void (*const f)(const uint8_t *, void *), void *const u) { calls += 100; A1 = b; A2 = p; A4 = (void *) f; A5 = u; return RI; }
void dav1d_data_unref_internal(Dav1dData *const b) { calls += 1000; A1 = b; }
void dav1d_data_props_unref_internal(Dav1dDataProps *const b) { calls += 10000; A1 = b; }
static void cb(const uint8_t *d, void *c) {}
void harness(void) {
    static Dav1dData d; static uint8_t b[2]; size_t sz; ND(size_t, sz); ND(int, RI); static int ck; int which; ND(int, which);
    if (which == 0) { uint8_t *r = dav1d_data_create(&d, sz); ENSURE("create", calls == 1 && r == RET && A1 == &d && A3 == sz); }
    else if (which == 1) { int r = dav1d_data_wrap(&d, b, sz, cb, &ck); ENSURE("wrap", calls == 10 && r == RI && A1 == &d && A2 == b && A3 == sz && A4 == (void *) cb && A5 == &ck); }
    else if (which == 2) { int r = dav1d_data_wrap_user_data(&d, b, cb, &ck); ENSURE("wrap user data", calls == 100 && r == RI && A1 == &d && A2 == b && A4 == (void *) cb && A5 == &ck); }
    else if (which == 3) { dav1d_data_unref(&d); ENSURE("unref", calls == 1000 && A1 == &d); }
    else { dav1d_data_props_unref(&d.m); ENSURE("props unref", calls == 10000 && A1 == &d.m); }
    REACH("api returns");
}
