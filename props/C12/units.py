def U(name, defs, funcs, **k): return dict(name=name, harness='../C11/api.c', funcs=funcs, defs=['NDEBUG'] + defs, **{**dict(unwind=10, checks='mem', flags=['--no-array-field-sensitivity']), **k})
def P(name, d, funcs, **k): return dict(name=name, harness='../C07/pic.c', funcs=funcs, defs=d.split(), unwind=8, **k)
G = ['dav1d_get_picture', 'gen_picture', 'output_picture_ready', 'output_image', 'dav1d_apply_grain']
UNITS = []
for n, d in [('layered', ['MSI=2']), ('all', ['MSI=2', 'ALL=1'])]:
    UNITS += [
 U('get_picture_' + n, ['U_GET', 'NOINPUT'] + d, G),
 U('get_picture_input_' + n, ['U_GET'] + d, G, bounded='at most 2 OBUs per call'),
 U('send_data_' + n, ['U_SEND'] + d, ['dav1d_send_data', 'gen_picture', 'output_picture_ready'], bounded='at most 2 OBUs per call'),
 U('drain0_' + n, ['U_DRAIN', 'NEXT=0'] + d, ['drain_picture', 'dav1d_get_picture'], bounded='2 frame contexts'),
 U('drain1_' + n, ['U_DRAIN', 'NEXT=1'] + d, ['drain_picture', 'dav1d_get_picture'], bounded='2 frame contexts'),
    ]
UNITS += [
 U('get_picture_two_layers', ['U_GET', 'NOINPUT', 'MSI=1'], G),
 U('get_picture_four_layers', ['U_GET', 'NOINPUT', 'MSI=3'], G),
 U('get_picture_single', ['U_GET', 'NOINPUT', 'MSI=0'], G),
 P('picture_flags', 'U_FLAGS', ['dav1d_picture_get_event_flags']),
 P('frame_flags', 'U_ALLOC', ['dav1d_thread_picture_alloc']),
 U('query', ['U_QUERY'], ['dav1d_get_event_flags']),
]
ASSUMPTIONS = ['release build semantics (NDEBUG)', 'OBU parsing by its contract: consumes between one byte and all of the pending data or fails, and shows at most one picture per call', 'picture and data reference operations by their contracts (C06, C07)', 'worker threads have finished when the API function looks at their results']
