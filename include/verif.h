/* Verification vocabulary shared by every harness.
 * One harness text serves two back ends:
 *   - CBMC (default): contract clauses, nondeterministic inputs, proof obligations
 *   - native replay (-DVF_NATIVE): inputs come from the tape written out of the
 *     verifier's counterexample, obligations are evaluated on the compiled code */
#ifndef VERIF_H
#define VERIF_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#ifdef VF_SEARCH
#include <unistd.h>
#include <time.h>
#include <sys/wait.h>
/* random inputs: small values, extremes and random widths */
static uint64_t vf_s;
static uint64_t vf_r(void) { vf_s ^= vf_s << 13; vf_s ^= vf_s >> 7; vf_s ^= vf_s << 17; return vf_s * 0x2545F4914F6CDD1DULL; }
static void vf_fill(void *const p, const size_t n) {
    uint8_t *const b = p; const unsigned k = vf_r() >> 61;
    if (n <= 8) {
        uint64_t v = vf_r();
        if (k < 2) v &= 7; else if (k < 5) { v >>= vf_r() & 63; if (vf_r() & 1 << 20) v = -v; } else if (k == 5) { v = (1ULL << (vf_r() & 63)) - (v >> 62) + 1; }
        memcpy(p, &v, n);
    } else for (size_t i = 0; i < n; i++) { b[i] = k < 2 ? vf_r() & 3 : k == 2 ? vf_r() & 63 : vf_r() >> 56; if (k > 2 && vf_r() >> 63) b[i] = 0; }
}
#define ND(T, lv) do { vf_fill(&(lv), sizeof(T)); } while (0)
#define ASSUME(e) do { if (!(e)) _exit(77); } while (0)
#define ENSURE(tag, e) do { if (!(e)) { fprintf(stderr, "VF: OBLIGATION FAILED [%s]: %s (%s:%d)\n", tag, #e, __FILE__, __LINE__); _exit(66); } } while (0)
static int vf_search(const int c, char **const v, void (*const h)(void)) {
    const time_t end = time(NULL) + atoi(v[1]); long n = 0, live = 0;
    for (uint64_t seed = strtoull(v[2], 0, 0); time(NULL) < end; seed++, n++) {
        const pid_t p = fork(); int st = 0;
        if (p < 0) break;
        if (!p) { alarm(5); vf_s = seed * 0x9E3779B97F4A7C15ULL | 1; vf_r(); h(); _exit(0); }
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && !WEXITSTATUS(st)) live++;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 66) { fprintf(stderr, "VF: fails with seed %llu after %ld runs\n", (unsigned long long)seed, n); return 66; }
    }
    fprintf(stderr, "VF: %ld runs, %ld complete\n", n, live);
    return 0;
}
#elif defined(VF_NATIVE)
extern const void *const vf_tape[];
extern const char *const vf_tape_t[];
extern const int vf_tape_n;
static int vf_tape_i;
static const void *vf_next(const char *t) {
    if (vf_tape_i >= vf_tape_n) { fprintf(stderr, "VF: tape exhausted (wanted %s)\n", t); exit(77); }
    if (strcmp(t, vf_tape_t[vf_tape_i])) { fprintf(stderr, "VF: tape type mismatch %s vs %s\n", t, vf_tape_t[vf_tape_i]); exit(77); }
    return vf_tape[vf_tape_i++];
}
#define ND(T, lv) do { const T *vf_p_ = (const T *)vf_next(#T); memcpy(&(lv), vf_p_, sizeof(T)); } while (0)
#define ASSUME(e) do { if (!(e)) { fprintf(stderr, "VF: assumption not met: %s\n", #e); exit(77); } } while (0)
#define ENSURE(tag, e) do { if (!(e)) { fprintf(stderr, "VF: OBLIGATION FAILED [%s]: %s (%s:%d)\n", tag, #e, __FILE__, __LINE__); exit(66); } } while (0)
#endif
#ifdef VF_NATIVE
#define NATIVE_ENSURE(tag, e) ENSURE(tag, e)
#define REACH(tag) ((void)0)
#define REQUIRES(e)
#define ENSURES(e)
#define ASSIGNS(...)
#define CONTRACT(...)
#define LOOP_INV(...)
#else
#define ND(T, lv) do { T vf_nd_; (lv) = vf_nd_; __CPROVER_input("vf:" #T, vf_nd_); } while (0)
#define ASSUME(e) __CPROVER_assume(e)
#define ENSURE(tag, e) __CPROVER_assert((e), "ensures:" tag)
#define NATIVE_ENSURE(tag, e) ((void)0)
#ifdef VF_NOREACH
#define REACH(tag) ((void)0)
#else
#define REACH(tag) __CPROVER_assert(0, "reach:" tag)
#endif
#define REQUIRES(e) __CPROVER_requires(e)
#define ENSURES(e) __CPROVER_ensures(e)
#define ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define OLD(e) __CPROVER_old(e)
#define RESULT __CPROVER_return_value
#endif
#define IMPL(a, b) (!(a) || (b))
#endif
