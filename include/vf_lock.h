/* Mutex model (sequential): lock/unlock must alternate, destroy only when free. */
#ifndef VF_LOCK_H
#define VF_LOCK_H
#include <pthread.h>
static int vf_held, vf_destroyed, vf_mutex_inits, vf_init_fail;
static int vf_mlock(pthread_mutex_t *m) { ENSURE("mutex not taken twice or after destroy", !vf_held && !vf_destroyed); vf_held = 1; return 0; }
static int vf_munlock(pthread_mutex_t *m) { ENSURE("mutex released only when held", vf_held && !vf_destroyed); vf_held = 0; return 0; }
static int vf_mdestroy(pthread_mutex_t *m) { ENSURE("mutex destroyed once and not while held", !vf_held && !vf_destroyed); vf_destroyed++; return 0; }
static int vf_minit(pthread_mutex_t *m, const pthread_mutexattr_t *a) { int f; ND(int, f); if (f) { vf_init_fail++; return 11; } vf_mutex_inits++; return 0; }
#define pthread_mutex_lock vf_mlock
#define pthread_mutex_unlock vf_munlock
#define pthread_mutex_destroy vf_mdestroy
#define pthread_mutex_init vf_minit
#endif
