def U(name, d, funcs, **k): return dict(name=name, harness='env.c', funcs=funcs, **{**dict(defs=[d], unwind=33), **k})
UNITS = [
 U('refs', 'U_REFS', ['get_intra_ctx', 'get_comp_ctx', 'get_comp_dir_ctx', 'av1_get_ref_ctx', 'av1_get_fwd_ref_ctx', 'av1_get_fwd_ref_1_ctx', 'av1_get_fwd_ref_2_ctx', 'av1_get_bwd_ref_ctx', 'av1_get_bwd_ref_1_ctx', 'av1_get_uni_p1_ctx']),
 U('compound', 'U_COMPOUND', ['get_filter_ctx', 'get_mask_comp_ctx', 'get_jnt_comp_ctx', 'get_poc_diff']),
 U('partition', 'U_PART', ['get_partition_ctx', 'gather_top_partition_prob', 'gather_left_partition_prob', 'dav1d_al_part_ctx (table)']),
 U('transform', 'U_TX', ['get_tx_ctx', 'get_uv_inter_txtp', 'dav1d_txfm_dimensions (table)']),
 U('segment', 'U_SEG', ['get_cur_frame_segid', 'get_drl_context']),
 U('mv_precision', 'U_MVPREC', ['fix_mv_precision', 'fix_int_mv_precision']),
 *[U('global_mv_%d%d' % (hp, fi), 'U_GMV', ['get_gmv_2d'], solver='z3', defs=['U_GMV', 'WARP=1', 'HP=%d' % hp, 'FI=%d' % fi], checks='none') for hp, fi in ((0, 0), (1, 0), (0, 1))],
 U('global_mv_std', 'U_GMV', ['get_gmv_2d'], defs=['U_GMV', 'WARP=0']),
]
ASSUMPTIONS = ['neighbour entries hold the values the block parser writes (reset values when unavailable, legal reference pairs)',
 'global motion vectors within the range the specification requires of conforming streams']
