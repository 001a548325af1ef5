F = []
def U(name, d, funcs, **k): return dict(name=name, harness='data.c', funcs=funcs, defs=[d], **k)
UNITS = [
 U('unref', 'U_UNREF', ['dav1d_data_unref_internal', 'dav1d_ref_dec']),
 U('props_unref', 'U_PROPS_UNREF', ['dav1d_data_props_unref_internal']),
 U('ref', 'U_REF', ['dav1d_data_ref', 'dav1d_ref_inc']),
 U('props_copy', 'U_PROPS_COPY', ['dav1d_data_props_copy']),
 U('defaults', 'U_DEFAULTS', ['dav1d_data_props_set_defaults']),
 U('create', 'U_CREATE', flags=F, funcs=['dav1d_data_create_internal', 'dav1d_ref_create']),
 U('wrap', 'U_WRAP', ['dav1d_data_wrap_internal', 'dav1d_ref_init']),
 U('wrap_user', 'U_WRAP_USER', ['dav1d_data_wrap_user_data_internal']),
 U('ref_dec', 'U_REFDEC', ['dav1d_ref_dec']),
 U('ref_inc', 'U_REFINC', ['dav1d_ref_inc', 'dav1d_ref_is_writable']),
 U('ref_create', 'U_REFCREATE', flags=F, funcs=['dav1d_ref_create']),
 dict(name='api', harness='api.c', funcs=['dav1d_data_create', 'dav1d_data_wrap', 'dav1d_data_wrap_user_data', 'dav1d_data_unref', 'dav1d_data_props_unref'], gcc=['-DDAV1D_DLSYM_DUMMY']),
]
ASSUMPTIONS = ['atomic operations are the C11 sequential ones (no concurrent access in the proof)',
 'operations that overwrite a handle are given an empty handle (API contract of dav1d_data_wrap / _create / _wrap_user_data)',
 'reference counts below INT_MAX; buffers up to 2^40 bytes in the creation proof', 'malloc/posix_memalign/free by their C contracts; every allocation may fail']
