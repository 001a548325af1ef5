REN = [(r'unsigned dav1d_msac_decode_(bool_equi|symbol_adapt)_c\((?=[^;{}]*\{)', r'unsigned real_\1(')]
NORM = [(r'void ctx_norm\(', 'void real_norm(')]
def U(name, d, funcs, **k): return dict(name=name, harness='msac.c', funcs=funcs, defs=d.split(), **{**dict(unwind=70), **k})
UNITS = [
 U('init', 'U_INIT', ['dav1d_msac_init', 'ctx_refill']),
 U('equi', 'U_EQUI CALLER', ['dav1d_msac_decode_bool_equi_c'], sed=NORM, solver='cvc5', checks='none'),
 U('bool', 'U_BOOL CALLER', ['dav1d_msac_decode_bool_c'], sed=NORM, solver='cvc5', checks='none'),
 U('bool_adapt', 'N=2 U_BADAPT CALLER PART=2', ['dav1d_msac_decode_bool_adapt_c'], sed=NORM, solver='cvc5', checks='none'),
 *[U('subexp%d' % k, 'U_STUB U_SUBEXP SK=%d' % k, ['dav1d_msac_decode_subexp', 'dav1d_msac_decode_bools', 'inv_recenter'], sed=REN) for k in (1, 2, 3, 4)],
 U('uniform', 'U_STUB U_UNIF', ['dav1d_msac_decode_uniform', 'dav1d_msac_decode_bools'], sed=REN),
 U('hi_tok', 'U_STUB U_TOK', ['dav1d_msac_decode_hi_tok_c'], sed=REN),
]
UNITS.append(U('lemma', 'U_LEMMA CALLER', ['(arithmetic lemma)'], sed=NORM))
for d in range(16): UNITS.append(U('norm%d' % d, 'U_NORM D=%d' % d, ['ctx_norm', 'ctx_refill']))
for n in range(2, 17):
    UNITS.append(U('symbol%d' % n, 'N=%d PART=0 CALLER' % n, ['dav1d_msac_decode_symbol_adapt_c'], sed=NORM, solver='cvc5', checks='mem'))
    for j in range(0, n - 1, 99 if n < 8 else 2):
        e = n - 1 if n < 8 else min(j + 2, n - 1)
        UNITS.append(U('adapt%d_%d' % (n, j), 'N=%d PART=1 CALLER VF_NOREACH J0=%d J1=%d' % (n, j, e) + (' RNG=32768' if n > 5 else ''),
            ['dav1d_msac_decode_symbol_adapt_c (cdf update)'], sed=NORM, noreach=True, checks='none', tier='thorough' if n in (9, 10, 12, 13, 14) else 'quick'))
ASSUMPTIONS = ['the C versions of the decoder functions (assembly off)', 'fewer than 10^9 bits are decoded past the end of a tile; beyond 32 bits past the end, which no conforming stream reaches, only memory safety and the range are claimed',
 'cdf frequencies are cumulative (monotonic, first symbol not impossible) on entry, with the counter at most 32', 'cdf adaptation for alphabets of more than five symbols is proved with the range at 32768 (the update does not read it)']
