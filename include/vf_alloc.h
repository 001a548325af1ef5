/* Allocation model: every allocation may fail; every live block and every free is
 * counted, so "freed exactly once / nothing leaked" is a postcondition.  Include after
 * verif.h and before any source file. */
#ifndef VF_ALLOC_H
#define VF_ALLOC_H
#include <stdlib.h>
#include <malloc.h>
#ifdef VF_TAIL_HDR
static void *vf_malloc(size_t sz); static void vf_free(void *p); static int vf_posix_memalign(void **pp, size_t align, size_t sz);
#define malloc(s) vf_malloc(s)
#define free(p) vf_free(p)
#define posix_memalign(p, a, s) vf_posix_memalign(p, a, s)
#include VF_TAIL_HDR
#undef malloc
#undef free
#undef posix_memalign
#endif
static int vf_live, vf_allocs, vf_frees, vf_failed, vf_never_fail;
static size_t vf_last_size, vf_last_align; static void *vf_last_ptr, *vf_last_free;
static int vf_fail(void) { int f; if (vf_never_fail) return 0; ND(int, f); if (f) vf_failed++; return f != 0; }
#if defined(VF_TAIL) && !defined(VF_NATIVE)
static VF_TAIL vf_tail; static int vf_tail_freed;
#endif
static void *vf_malloc(const size_t sz) {
    if (vf_fail()) return NULL;
    void *const p = malloc(sz); ASSUME(p != NULL);
    vf_live++; vf_allocs++; vf_last_size = sz; vf_last_ptr = p;
    return p;
}
static void vf_free(void *const p) {
    if (p) { vf_live--; vf_frees++; vf_last_free = p; }
#if defined(VF_TAIL) && !defined(VF_NATIVE)
    if (p && (uint8_t *) p + (vf_last_size - sizeof(vf_tail)) == (uint8_t *) &vf_tail) {
        ENSURE("tail block freed once", !vf_tail_freed); vf_tail_freed = 1; return;
    }
#endif
    free(p);
}
static int vf_posix_memalign(void **const pp, const size_t align, const size_t sz) {
    if (vf_fail()) return 12;
#ifdef VF_NATIVE
    if (posix_memalign(pp, align, sz)) ASSUME(0);
#elif defined(VF_TAIL)
    /* block of sz bytes of which only the last sizeof(VF_TAIL) may be accessed: the
     * object is that tail, the block starts sz - sizeof(VF_TAIL) bytes before it */
    ASSUME(sz >= sizeof(vf_tail));
    *pp = (uint8_t *) &vf_tail - (sz - sizeof(vf_tail));
#else
    void *const p = malloc(sz); ASSUME(p != NULL);
    ASSUME(!((uintptr_t) p & 4095)); /* contract of posix_memalign */
    *pp = p;
#endif
    vf_live++; vf_allocs++; vf_last_size = sz; vf_last_align = align; vf_last_ptr = *pp;
    return 0;
}
#define malloc(s) vf_malloc(s)
#define free(p) vf_free(p)
#define posix_memalign(p, a, s) vf_posix_memalign(p, a, s)
#endif
