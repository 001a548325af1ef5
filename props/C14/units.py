def U(name, defs, funcs, **k): return dict(name=name, harness='ctx.c', funcs=funcs, defs=defs, **{**dict(unwind=33), **k})
NB = ['dav1d_cdf_thread_copy']
TXN = ['4x4','8x8','16x16','32x32','64x64','4x8','8x4','8x16','16x8','16x32','32x16','32x64','64x32','4x16','16x4','8x32','32x8','16x64','64x16']
UNITS = [U('lo', ['U_LO'], ['get_lo_ctx', 'dav1d_lo_ctx_offsets (table)']), U('golomb', ['U_GOLOMB'], ['read_golomb'], unwind=81)]
for i, n in enumerate(TXN):
    UNITS.append(U('skip_y_' + n, ['U_SKIP', 'CHROMA=0', 'TX=%d' % i], ['get_skip_ctx (%s luma)' % n, 'dav1d_skip_ctx, dav1d_block_dimensions (tables)']))
    if '64' not in n:
        UNITS.append(U('skip_uv_' + n, ['U_SKIP', 'CHROMA=1', 'TX=%d' % i], ['get_skip_ctx (%s chroma)' % n]))
    UNITS.append(U('dc_' + n, ['U_DC', 'TX=%d' % i], ['get_dc_sign_ctx (%s)' % n]))
ASSUMPTIONS = ['context entries hold the values the coefficient reader writes (dc category 0..2); block and transform geometry is legal',
 'the x86-only empty asm statement in get_dc_sign_ctx (a compiler hint) is not part of the verified text']
