def U(name, d, funcs, **k): return dict(name=name, harness='open.c', funcs=funcs, **{**dict(defs=[d, 'NDEBUG'], unwind=9), **k})
UNITS = [
 U('validate', 'U_VALID', ['dav1d_open', 'get_num_threads', 'close_internal'], nobody=[]),
 U('nomem', 'U_NOMEM', ['dav1d_open', 'close_internal']),
 U('threads_1', 'U_THREADS', ['dav1d_open', 'close_internal'], bounded='1 thread', defs=['U_THREADS', 'NDEBUG', 'TC=1', 'FC=1'], checks='mem'),
 U('threads_2_1', 'U_THREADS', ['dav1d_open', 'close_internal'], bounded='2 threads, 1 frame context', defs=['U_THREADS', 'NDEBUG', 'TC=2', 'FC=1'], checks='mem'),
 U('threads_2_2', 'U_THREADS', ['dav1d_open', 'close_internal'], bounded='2 threads, 2 frame contexts', defs=['U_THREADS', 'NDEBUG', 'TC=2', 'FC=2'], checks='mem'),
 U('frame_delay', 'U_DELAY', ['dav1d_get_frame_delay', 'get_num_threads']),
 U('defaults', 'U_DEFAULTS', ['dav1d_default_settings', 'dav1d_version_api']),
]
ASSUMPTIONS = ['release build semantics (NDEBUG): validation failures return instead of aborting',
 'pthread, dlsym and allocation functions by their contracts, each may fail; one-time table initialisation (pthread_once) is not modelled',
 '64-bit size_t (the 32-bit frame size clamp is dead code here)']
