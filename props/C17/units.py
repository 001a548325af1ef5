def U(name, d, funcs, **k): return dict(name=name, harness='warp.c', funcs=funcs, defs=d.split(), **{**dict(unwind=66, checks='std'), **k})
REN = [(r'int resolve_divisor_32\(', 'int real_div32(')]
UNITS = [
 U('table', 'U_TAB', ['div_lut (table)']),
 U('divide', 'U_DIV', ['resolve_divisor_32', 'resolve_divisor_64']),
 U('negative', 'U_NEG', ['dav1d_get_shear_params'], checks='none'),
 U('set_affine', 'U_SET', ['dav1d_set_affine_mv2d'], solver='cvc5', checks='none'),
]
for k, (y, sc) in enumerate([(16384, 30), (14564, 30), (9362, 29), (8192, 29)]):
    def S(n, i, d='', **kw): UNITS.append(U('shear_%s_%d' % (n, k), 'U_SHEAR PART=%d YC=%d SC=%d %s' % (i, y, sc, d), ['dav1d_get_shear_params', 'iclip_wmp'], checks='none', sed=REN, **kw))
    S('alpha_beta', 0); S('gamma', 1); S('valid', 3)
    for m3 in (8192, -5461, 77): S('delta_m%d' % abs(m3), 2, 'M3=%d' % m3)
for sh in (0, 1, 2, 7, 15, 24, 33, 44):
    UNITS.append(U('entry_%d' % sh, 'U_MULT SHIFT=%d' % sh, ['get_mult_shift_diag', 'get_mult_shift_ndiag'], solver='cvc5', checks='none'))
ASSUMPTIONS = ['warp matrices in the range the bitstream and the local estimation can produce (within 8192 of the identity)',
 'the least-squares quotient of get_mult_shift_* fits in 32 bits before clamping', 'shear gamma and delta: four reciprocals (both ends and two inner values of the range a valid model uses), and three values of the third matrix entry for delta', 'shift amounts 0, 1, 2, 7, 15, 24, 33 and 44 of the least-squares division are proved; others share the code']
