def U(name, defs, funcs, **k): return dict(name=name, harness='api.c', funcs=funcs, defs=['NDEBUG'] + defs, **{**dict(unwind=10, checks='mem', flags=['--no-array-field-sensitivity']), **k})
LAYERS = [('plain', []), ('layered', ['MSI=2']), ('all', ['MSI=2', 'ALL=1'])]
G = ['dav1d_get_picture', 'gen_picture', 'output_picture_ready', 'output_image', 'dav1d_apply_grain']
UNITS = []
for n, d in LAYERS:
    UNITS += [
 U('get_picture_' + n, ['U_GET', 'NOINPUT'] + d, G),
 U('get_picture_input_' + n, ['U_GET'] + d, G, bounded='at most 2 OBUs per call'),
 U('send_data_' + n, ['U_SEND'] + d, ['dav1d_send_data', 'gen_picture', 'output_picture_ready'], bounded='at most 2 OBUs per call'),
 U('drain0_' + n, ['U_DRAIN', 'NEXT=0'] + d, ['drain_picture', 'dav1d_get_picture'], bounded='2 frame contexts'),
 U('drain1_' + n, ['U_DRAIN', 'NEXT=1'] + d, ['drain_picture', 'dav1d_get_picture'], bounded='2 frame contexts'),
    ]
UNITS += [
 U('flush_single', ['U_FLUSH', 'NFC=1', 'NTC=1'], ['dav1d_flush'], flags=[]),
 U('flush_workers', ['U_FLUSH', 'NFC=1', 'NTC=2'], ['dav1d_flush'], flags=[], bounded='2 threads'),
 U('flush_threads', ['U_FLUSH', 'NFC=2', 'NTC=2'], ['dav1d_flush'], flags=[], bounded='2 frame contexts, 2 threads'),
 U('query', ['U_QUERY'], ['dav1d_get_event_flags', 'dav1d_get_decode_error_data_props']),
]
ASSUMPTIONS = ['release build semantics (NDEBUG)', 'OBU parsing by its contract: consumes between one byte and all of the pending data or fails, and shows at most one picture per call', 'picture and data reference operations by their contracts (C06, C07)', 'single-threaded view: worker threads have finished when the API function looks at their results']
