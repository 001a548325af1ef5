UNITS = [dict(name='alloc_%s_%d' % (n, b), harness='alloc.c', solver=SOLVER, funcs=['dav1d_default_picture_alloc', 'dav1d_default_picture_release'], checks='nosign',
  flags=['--no-pointer-check', '--no-pointer-primitive-check'], defs=['LAYOUT=%d' % l, 'BPC=%d' % b]) for SOLVER in ('cvc5',) for l, n in enumerate(('i400', 'i420', 'i422', 'i444')) for b in (8, 10, 12)]
ASSUMPTIONS = ['dav1d_mem_pool_pop is used by its contract (proved under C08)', 'picture dimensions 1..65536, bit depth 8, 10 or 12']
