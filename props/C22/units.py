D = r'(?=[^;{}]*\{)'
def Q(name, d, funcs, **k): return dict(name=name, harness='dec.c', funcs=funcs, defs=d.split(), **{**dict(unwind=26), **k})
UNITS = [
 Q('quant', 'U_QUANT', ['init_quant_tables']),
 Q('quant_table', 'U_QTAB', ['dav1d_dq_tbl (table)']),
 Q('segment_delta', 'U_NEG', ['neg_deinterleave']),
 Q('order', 'U_ORDER', ['order_palette'], bounded='4x4 index maps'),
 Q('segment_pred', 'U_SEGID', ['get_prev_frame_segid'], unwind=37, bounded='maps of at most 6x6 blocks'),
]
for p in (-1, 0, 1):
    n = 'mi'[p < 0] if p < 1 else 'h'
    UNITS += [Q('mv_comp_%s' % n, 'U_MV PREC=%d COMP' % p, ['read_mv_component_diff']), Q('mv_%s' % n, 'U_MV PREC=%d' % p, ['read_mv_residual', 'read_mv_component_diff'])]
BOOLS = [(r'unsigned dav1d_msac_decode_bools\(' + D, 'unsigned real_bools(')]
PLANE = [(r'void dav1d_read_pal_plane_(8|16)bpc\(' + D, r'void real_plane_\1bpc(')]
for bd, bpc in ((8, 8), (16, 10), (16, 12)):
    for pl, by, nl, na, n, fix in [(0, 5, 0, 0, 4, ''), (1, 5, 0, 0, 4, '')][:2 if bpc != 12 else 1]:
        UNITS.append(dict(name='pal%d_%s%s_%d_%d_%d' % (bpc, 'yu'[pl], '_sbtop' if by == 16 else '', nl, na, n), harness='pal.c', funcs=['dav1d_read_pal_plane'], defs=('U_PLANE BITDEPTH=%d BPC=%d PL=%d BY=%d MAXN=%d NL=%d NA=%d' % (bd, bpc, pl, by, n, nl, na) + fix).split(), sed=BOOLS, unwind=17, checks='none' if fix else 'std', bounded='palettes of at most 4 colours, neighbours without palettes'))
    UNITS.append(dict(name='pal%d_v' % bpc, harness='pal.c', funcs=['dav1d_read_pal_uv'], defs=('U_UV BITDEPTH=%d BPC=%d MAXN=%d' % (bd, bpc, 4)).split(), sed=BOOLS + PLANE, unwind=17))
ASSUMPTIONS = ['symbols and literals by the contracts of the arithmetic decoder (C02)', 'deltas are in the ranges the frame header syntax can code']
