def U(name, d, funcs, **k): return dict(name=name, harness='pic.c', funcs=funcs, defs=d.split(), unwind=8, **k)
UNITS = [
 U('ref', 'U_REF', ['dav1d_picture_ref']),
 U('thread_ref', 'U_TREF', ['dav1d_thread_picture_ref', 'dav1d_thread_picture_move_ref']),
 U('move', 'U_MOVE', ['dav1d_picture_move_ref']),
 U('unref', 'U_UNREF', ['dav1d_picture_unref_internal', 'dav1d_thread_picture_unref']),
 U('api_unref', 'U_UNREF U_API', ['dav1d_picture_unref']),
 U('copy_props', 'U_PROPS', ['dav1d_picture_copy_props']),
 U('alloc', 'U_ALLOC', ['dav1d_thread_picture_alloc', 'picture_alloc', 'free_buffer']),
 U('alloc_copy', 'U_ALLOC_COPY', ['dav1d_picture_alloc_copy', 'picture_alloc', 'free_buffer']),
 U('t35_free', 'U_T35FREE', ['dav1d_picture_free_itut_t35'], bounded='at most 4 T.35 payloads'),
 U('event_flags', 'U_FLAGS', ['dav1d_picture_get_event_flags']),
]
ASSUMPTIONS = ['memory pools are used by their contracts (proved under C08)', 'atomic operations are sequential in the proof (no concurrent access)',
 'the objects attached to one picture are distinct reference objects']
