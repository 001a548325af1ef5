UT = 'The test suite only compares SIMD kernels with their C versions on random blocks; '
prop('C01', 'Bit reader is exact, bounded and latches errors',
 'For every header buffer and read position, each header-field reader (single bit, n-bit unsigned/signed, leb128, ns(n), uvlc, signed subexp) returns exactly the value the AV1 specification defines for the bits at that position, with the buffer treated as zero-extended past its end, and advances the position by exactly the bits of that code. The error flag becomes set exactly when a read runs past the end or a leb128 value is overlong or exceeds 32 bits, and is never cleared by a read. No byte outside the buffer is ever read.',
 ['inputs'], 'every buffer content, length, bit position and reader argument',
 UT + 'no test calls the bit reader at all, and the defects that matter sit at byte boundaries and at the last byte of the buffer.',
 ['src/getbits.c', 'src/getbits.h'], [('GetBits cached-bit window and refill', 'src/getbits.c'), ('error latch', 'src/getbits.c refill')],
 'Unbounded in buffer length and content; proved per function. Assumes <2^31 bits requested past the end, and subexp widths 8, 9, 12 (the only ones used).')
prop('C02', 'Symbol decoder matches the AV1 arithmetic decoder and never over-reads',
 'For every tile buffer, decoder state and valid CDF, decoding a symbol, a boolean, an equiprobable bit, a high coefficient token or a subexponential value returns what the AV1 symbol-decoding process defines, leaves range at least 32768, and adapts the CDF by exactly the specified rule while keeping it a valid CDF. Refilling consumes buffer bytes in order, supplies the specified padding past the end and never reads outside the tile buffer.',
 ['inputs'], 'every decoder state reachable under the range/window invariant, every valid CDF, alphabet size and buffer length',
 'checkasm runs a few random CDFs and compares C with SIMD; both could be wrong together, and the end-of-buffer refill is only reached by specific lengths.',
 ['src/msac.c', 'src/msac.h'], [('ctx_refill / ctx_norm window arithmetic', 'src/msac.c'), ('CDF adaptation with count-dependent rate', 'src/msac.c')])
prop('C03', 'Sequence header parse equals the AV1 syntax',
 'For every bit string, parsing a sequence header either fails or yields exactly the field values that the AV1 sequence_header_obu syntax assigns to those bits, with reserved and illegal combinations rejected, including operating points, timing, decoder model, colour configuration and film-grain flag. The public parse function applied to a byte buffer returns success exactly when the buffer holds a sequence header OBU, skipping other OBUs and never reading outside the buffer.',
 ['inputs'], 'every bit string and every OBU header in front of it',
 UT + 'no test parses a sequence header.',
 ['src/obu.c', 'include/dav1d/headers.h'], [('parse_seq_hdr', 'src/obu.c'), ('dav1d_parse_sequence_header', 'src/obu.c')])
prop('C04', 'Frame header parse equals the AV1 syntax',
 'For every sequence header, reference state and bit string, an accepted frame header carries exactly the values that the AV1 uncompressed_header syntax assigns: frame and render size with superres, reference lists and order hints, tile layout, quantizer, segmentation, delta q/lf, loop filter, CDEF, loop restoration, transform and skip mode, global motion and film grain. Values that the specification infers from a primary reference frame are copied from that frame, and illegal values are rejected.',
 ['inputs', 'histories'], 'every bit string, sequence header and reference-slot contents',
 UT + 'no test parses a frame header, and most branches depend on combinations of earlier flags.',
 ['src/obu.c'], [('parse_frame_hdr, read_frame_size, parse_film_grain_data', 'src/obu.c')])
prop('C05', 'OBU framing is bounded and order-enforcing',
 'For every input buffer, consuming one OBU uses between 1 and the available number of bytes on success, and an OBU whose declared size exceeds the buffer is rejected without touching bytes beyond it. OBUs outside the selected operating point are dropped without effect, tile groups are only accepted contiguously from tile zero after a valid frame header, and HDR content-light and mastering-display metadata is stored exactly as coded.',
 ['inputs', 'histories'], 'every byte string, operating point and decoder state',
 UT + 'no test feeds an OBU stream.',
 ['src/obu.c'], [('dav1d_parse_obus', 'src/obu.c'), ('parse_tile_hdr, check_trailing_bits', 'src/obu.c')])
prop('C06', 'Input buffers are released exactly once and properties travel with them',
 'For every sequence of create, wrap, reference, property-copy and unref operations on input data objects, the release callback of a wrapped buffer runs exactly once, when the last reference goes away, and never while a reference remains. A reference or copied property set refers to the same bytes, size, timestamp, duration, offset and user data, an unreferenced object is reset to its default state, and any failed operation leaves reference counts and the source object unchanged.',
 ['histories', 'fault_sequences'], 'every reference count, buffer size, property value and allocation outcome',
 UT + 'no test touches the data API; leaks and double releases need particular histories and failed allocations.',
 ['src/data.c', 'src/ref.c', 'src/ref.h'], [('Dav1dRef atomic count and free callback', 'src/ref.c'), ('dav1d_data_* operations', 'src/data.c')])
prop('C07', 'Picture references keep buffers and attached metadata alive, exactly once',
 'For every history of referencing, moving and unreferencing pictures, each picture handle holds one reference on its pixel buffer and on every attached header, metadata and user-data object, gives each of them back exactly once, and the allocator release callback runs exactly once when the last handle goes. A failed picture allocation leaves no reference behind and the output handle empty, and a new picture carries the size, layout, bit depth, headers and input properties of its frame.',
 ['histories', 'fault_sequences'], 'every combination of attached objects, reference counts and allocation outcome',
 UT + 'no test allocates a decoder picture.',
 ['src/picture.c', 'src/ref.c'], [('picture_alloc, dav1d_picture_ref/move/unref', 'src/picture.c')])
prop('C08', 'Buffer pools hand out each buffer once and free every one',
 'For every history of pops, returns, resizes and teardown, a buffer obtained from a memory pool is at least as large as requested, correctly aligned and not held by anyone else, returned buffers are reused only for requests of the same size, and each buffer is freed exactly once. After the pool owner has ended the pool, returned buffers are freed instead of cached and the pool itself goes with its last reference; a failed allocation changes nothing.',
 ['histories', 'fault_sequences'], 'every pool content, request size, allocation outcome and end state',
 UT + 'no test uses a pool; the interesting states need pool end while buffers are still out.',
 ['src/mem.c', 'src/mem.h', 'src/ref.c'], [('dav1d_mem_pool_push/pop/end/init', 'src/mem.c'), ('dav1d_ref_create_using_pool', 'src/ref.c')])
prop('C09', 'Default picture allocator lays out aligned, non-overlapping planes',
 'For every picture width, height, chroma layout and bit depth, the built-in allocator returns planes that are 64-byte aligned with strides covering the dimensions rounded up to 128 pixels plus the required padding, that do not overlap, and that fit in the allocation; monochrome pictures get no chroma planes. Chroma planes share one stride and the stride is never a multiple of 1024 bytes.',
 ['inputs'], 'every width, height, layout and bit depth',
 UT + 'the allocator is not tested and overlap only shows for particular size combinations.',
 ['src/picture.c'], [('dav1d_default_picture_alloc', 'src/picture.c')])
prop('C10', 'Settings are validated and resolved to a consistent thread/frame-delay pair',
 'For every settings structure, opening a decoder fails with an invalid-argument error exactly when a validated field is outside its documented range or a picture allocator callback is missing; it never succeeds with a half-default picture allocator, and on success it uses the settings as given, with automatic values resolved to the documented defaults. A failed open leaves nothing allocated and hands out no context. The reported frame delay equals the number of frame contexts an opened decoder uses, lies between 1 and the maximum, and never exceeds the thread count.',
 ['configurations'], 'every value of every settings field and every CPU count',
 UT + 'no test opens a decoder.',
 ['src/lib.c', 'include/dav1d/dav1d.h'], [('dav1d_open, get_num_threads, dav1d_get_frame_delay', 'src/lib.c')])
prop('C11', 'Send/get/flush protocol: no loss, no duplication, errors reported once',
 'For every decoder state, sending data takes ownership of the whole input, or returns try-again or an error leaving the input with the caller, and fetching a picture returns the pending output exactly once, reporting try-again only when none can be produced. A decoding error is reported once with the failing input properties and drops the offending data, and flush empties all pending input, output, cached pictures and references and any unreported error so that decoding restarts as from a new decoder.',
 ['histories'], 'every decoder state and result of parsing',
 UT + 'no test drives the decoding API.',
 ['src/lib.c'], [('dav1d_send_data, dav1d_get_picture, gen_picture, dav1d_flush', 'src/lib.c')])
prop('C12', 'Spatial-layer output picks the right picture',
 'For every operating point and sequence of decoded pictures, when all layers are requested each shown picture is output once, and otherwise only the highest spatial layer of each temporal unit is output, or the best available lower layer when the highest is missing at the end of the temporal unit. Event flags and picture flags reported to the caller are those accumulated since the previous output.',
 ['histories'], 'every picture, flag and operating-point combination',
 UT + 'no test outputs a picture.',
 ['src/lib.c', 'src/picture.c'], [('output_picture_ready, output_image', 'src/lib.c')])
prop('C13', 'Deblocking levels and limits follow the AV1 rules',
 'For every frame header, segment, reference, mode and delta combination, the deblocking level dav1d_calc_lf_values computes for each plane and direction equals the AV1 specification value (frame level plus block delta, segment delta, then reference and mode deltas scaled by the level, clamped to 0..63 at each stage, zero where deblocking is off for the frame or plane). For every sharpness the inner and outer limits per level equal the specification values.',
 ['inputs'], 'every header value, segment, reference, mode and delta',
 UT + 'level derivation is not exercised by any test.',
 ['src/lf_mask.c'], [('dav1d_calc_lf_values, calc_lf_value', 'src/lf_mask.c'), ('dav1d_calc_eih', 'src/lf_mask.c')])
prop('C14', 'Coefficient contexts and Golomb codes match the AV1 definitions',
 'For every neighbour state and block geometry, the contexts used to read coefficient skip flags, dc signs and low-frequency levels equal the AV1 specification values and lie within their CDF tables, and Golomb-coded magnitudes equal the specification value for codes of fewer than 32 leading zeros, and longer codes stop after a bounded number of bits.',
 ['inputs'], 'every neighbour context array, transform size, chroma layout and bit string',
 UT + 'coefficient decoding is not exercised by any test.',
 ['src/recon_tmpl.c'], [('get_skip_ctx, get_dc_sign_ctx, get_lo_ctx, read_golomb', 'src/recon_tmpl.c')])
prop('C15', 'Block-level context derivation matches the AV1 definitions',
 'For every availability and content of the above and left neighbours, the contexts for partition, transform size, intra/inter, compound, reference frame, interpolation filter, segment id and motion-vector index symbols equal the AV1 specification values and stay inside their CDF tables. Order-hint differences, per-frame global motion vectors and motion-vector precision reduction equal the specification functions.',
 ['inputs'], 'every neighbour state and argument in range',
 UT + 'block syntax decoding is not exercised by any test.',
 ['src/env.h'], [('get_*_ctx, av1_get_*_ctx, get_poc_diff, get_gmv_2d, fix_mv_precision', 'src/env.h')])
prop('C16', 'Motion-vector prediction and projection follow the AV1 process',
 'For every candidate list, neighbour and temporal motion vector, motion-vector projection, candidate weighting, clamping and context derivation yield the AV1 specification values, weights accumulate on an existing equal candidate instead of duplicating it, and no more than the specified number of candidates is stored.',
 ['inputs'], 'every candidate list, motion vector, order-hint distance and block position',
 'checkasm covers only the three SIMD helpers of this file, not candidate search or projection arithmetic.',
 ['src/refmvs.c', 'src/refmvs.h'], [('mv_projection, add_*_candidate, dav1d_refmvs_find', 'src/refmvs.c')])
prop('C17', 'Warp shear parameters and divisions follow the AV1 rules',
 'For every affine matrix the bitstream can produce, the shear parameters alpha, beta, gamma and delta equal the AV1 specification values (reciprocal table, signed rounding, clamping, reduced precision) and the model is reported valid exactly when the specification says so; a non-positive scale is always invalid. The translation that fits a block matrix to its motion vector, and the rounding and clamping of each entry of the local warp matrix, equal the specification values.',
 ['inputs'], 'every matrix, block position and motion vector in range',
 UT + 'warp model derivation is not exercised by any test.',
 ['src/warpmv.c'], [('dav1d_get_shear_params, dav1d_set_affine_mv2d', 'src/warpmv.c'), ('resolve_divisor_*, get_mult_shift_*', 'src/warpmv.c')])
prop('C18', 'Film grain is applied as signalled: scaling tables and plane dispatch',
 'For every film-grain parameter set, the scaling table used for a plane is the piecewise-linear interpolation the AV1 specification defines from the signalled points, grain is applied to exactly the planes that signal it (luma points, chroma points or chroma-from-luma), and other planes are copied unchanged. Every row and pixel of the picture is produced exactly once, reading only inside the source picture.',
 ['inputs'], 'every parameter set, picture size, layout and bit depth',
 'checkasm tests the per-block grain kernels, not the table generation or the per-plane dispatch.',
 ['src/fg_apply_tmpl.c'], [('generate_scaling, dav1d_prep_grain, dav1d_apply_grain_row', 'src/fg_apply_tmpl.c')])
prop('C19', 'CDF contexts are initialised, averaged and shared correctly',
 'For every quantizer index the default coefficient CDF set is the one the AV1 specification assigns to its range. After a frame, the saved context equals the decoded tile context with every adaptation counter cleared and nothing else changed, and referencing, copying and releasing shared contexts keeps each buffer alive until its last user is gone.',
 ['inputs', 'histories'], 'every quantizer index, every CDF content, every reference history',
 UT + 'CDF contexts are not exercised by any test.',
 ['src/cdf.c', 'src/cdf.h'], [('dav1d_cdf_thread_update, dav1d_cdf_thread_init_static, dav1d_cdf_thread_copy', 'src/cdf.c')])
prop('C20', 'Container readers return exactly the coded units and never over-read',
 'For every file content, the IVF, Annex B and Section 5 readers hand out the temporal units in order with exactly the coded bytes, size, timestamp and offset, fail cleanly on truncated or malformed input, and never read or write outside their buffers. Probing recognises a file only when it starts with the structure of that format.',
 ['inputs'], 'every file content and length',
 UT + 'the command-line readers are not tested.',
 ['tools/input/ivf.c', 'tools/input/annexb.c', 'tools/input/section5.c', 'tools/input/parse.h'], [('ivf_read, annexb_read, section5_read, leb128, parse_obu_header', 'tools/input')])
prop('C21', 'Intra edge preparation follows the AV1 availability rules',
 'For every block position, size, prediction mode and neighbour availability, the edge pixels passed to intra prediction are the reconstructed neighbours where available and the AV1 substitution values otherwise, extended by replicating the last available pixel, and the effective prediction mode is the specified fallback. No pixel outside the picture or not yet decoded is read, and top-right/bottom-left availability follows the AV1 decoding order.',
 ['inputs'], 'every geometry, availability combination, pixel value and bit depth',
 'checkasm tests the prediction kernels on ready-made edges, never the edge construction.',
 ['src/ipred_prepare_tmpl.c', 'src/intra_edge.c'], [('dav1d_prepare_intra_edges', 'src/ipred_prepare_tmpl.c'), ('dav1d_init_intra_edge_tree / node flags', 'src/intra_edge.c')])
prop('C22', 'Per-frame tables and block syntax helpers match the AV1 definitions',
 'For every frame header the per-segment dequantisation factors equal the AV1 specification values for the clamped segment quantizer index plus plane deltas. Delta-coded segment ids, segment ids predicted from the previous frame, motion-vector residuals at every precision, palette colours coded without neighbouring palettes (including chroma V deltas) and palette colour-index contexts and orders equal the specification functions and stay in range.',
 ['inputs'], 'every header value and every argument in range',
 UT + 'frame decoding is not exercised by any test.',
 ['src/decode.c'], [('init_quant_tables, neg_deinterleave, read_mv_residual, order_palette', 'src/decode.c')])
NA = 'a property over thread schedules of the whole decoder; CBMC code contracts are sequential, and no contract within reach expresses it.'
prop('C90', 'Output does not depend on thread count or schedule',
 'For every stream, thread count, frame delay and scheduling, the sequence of output pictures is identical.',
 ['schedules', 'configurations'], 'every interleaving', UT + 'no test decodes a stream.', ['src/thread_task.c', 'src/decode.c'], [('task scheduling', 'src/thread_task.c')], na=NA)
prop('C91', 'Decoding never deadlocks and teardown always completes',
 'For every stream, schedule and point at which the decoder is flushed or closed, all worker threads make progress and terminate.',
 ['schedules', 'histories'], 'every interleaving', UT + 'no test runs worker threads on a stream.', ['src/thread_task.c', 'src/lib.c'], [('condition variables and task queues', 'src/thread_task.c')], na='liveness over schedules; ' + NA)
prop('C92', 'SIMD kernels equal their C versions on every input',
 'For every input block, each assembly kernel writes exactly the pixels of its C version and nothing else.',
 ['inputs'], 'every block content', 'checkasm samples random blocks.', ['src/x86'], [('DSP tables', 'src/*dsp*')], na='the code is assembly; no deductive verifier for it is installed and CBMC does not read it.')
prop('C93', 'Decoded pictures are bit-exact to the AV1 specification',
 'For every conforming stream the decoded samples equal those of the AV1 decoding process.',
 ['inputs'], 'every conforming stream', UT + 'no stream is decoded.', ['src'], [('whole decoder', 'src')], na='needs a contract for the whole reconstruction pipeline (inverse transforms, prediction, filters over whole frames); parts that are within reach are claimed separately (C02-C05, C13-C22).')
prop('C94', 'Deblocking edge masks mark exactly the transform edges',
 'For every block position, size, transform partition and skip state, the edge masks mark exactly the transform and block edges inside the frame with the filter length given by the smaller adjoining transform.',
 ['inputs'], 'every block geometry and neighbour transform size', UT + 'mask building is not exercised by any test.', ['src/lf_mask.c'], [('mask_edges_inter/intra/chroma', 'src/lf_mask.c')], na='CBMC did not decide the mask builders in any formulation tried (constant geometry with symbolic neighbours included): the transform partition is stored through casts into a [2][2][32][32] byte array and the mask arrays are indexed by neighbour values; runs exceeded memory or time.')
