def U(name, d, funcs, **k): return dict(name=name, harness='pool.c', funcs=funcs, defs=[d], unwind=6, **k)
UNITS = [
 U('pop', 'U_POP', ['dav1d_mem_pool_pop', 'dav1d_alloc_aligned_internal']),
 U('push', 'U_PUSH', ['dav1d_mem_pool_push', 'mem_pool_destroy']),
 U('end', 'U_END', ['dav1d_mem_pool_end'], bounded='at most 4 cached buffers when the pool ends (the free loop visits each element once)'),
 U('init', 'U_INIT', ['dav1d_mem_pool_init']),
 U('ref_pool', 'U_REFPOOL', funcs=['dav1d_ref_create_using_pool', 'pool_free_callback']),
]
ASSUMPTIONS = ['mutex operations are modelled sequentially (lock/unlock pairing is checked, races are not)',
 'cached and requested sizes up to 2^26..2^27 bytes', 'posix_memalign/malloc/free by their C contracts; every allocation may fail']
