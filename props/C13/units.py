def U(name, defs, funcs, **k): return dict(name=name, harness='lf.c', funcs=funcs, defs=defs, **{**dict(unwind=34, checks='none'), **k})
UNITS = []
for s in range(8):
    for i, n in enumerate(('yv', 'yh', 'u', 'v')):
        for en in (0, 1):
            for mr in (0, 1):
                for z in (0, 1, 2, 3):
                    if en == 0 and s: continue
                    if z and (mr or i < 2): continue
                    if z > 1 and s not in (0, 7): continue
                    UNITS.append(U('levels_seg%d_%s%s%s%s' % (s, n, '_segmentation' if en else '', '_deltas' if mr else '', ['', '_level0', '_u0', '_v0'][z]), ['U_LEVELS', 'S=%d' % s, 'I=%d' % i, 'EN=%d' % en, 'MR=%d' % mr, 'ZERO=0', 'UVZERO=%d' % z], ['dav1d_calc_lf_values', 'calc_lf_value', 'calc_lf_value_chroma'], tier='quick' if s in (0, 3, 7) else 'thorough'))
UNITS += [U('no_deblocking', ['U_LEVELS', 'S=7', 'I=1', 'EN=1', 'MR=1', 'ZERO=1', 'UVZERO=0'], ['dav1d_calc_lf_values'], unwind=520), U('limits', ['U_EIH'], ['dav1d_calc_eih'], unwind=65)]
ASSUMPTIONS = ['loop filter header fields and deltas are in their coded ranges']
