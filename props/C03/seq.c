/* C03: sequence header syntax (AV1 5.5), as a second parser over the same bit string */
#include "verif.h"
#include "config.h"
#include <stdarg.h>
#ifdef U_SEQ
#include "src/getbits.h"
#include "vf_bits.h"
static int check_trailing_bits (GetBits *gb, int strict);
#define memset(p, v, n) (*(p) = (__typeof__(*(p))){ 0 }) /* clearing by assignment */
#endif
#include "src/obu.c"
#ifdef U_SEQ
#undef memset
static int trail_pos, trail_res, trail_strict;
static int check_trailing_bits (GetBits *const gb, const int strict) { trail_pos = POS; trail_strict = strict; return trail_res; } /* unit 'trailing' */
static int spec(Dav1dSequenceHeader *const h, const int strict) {
    h->profile = f(3); if (h->profile > 2) return -1;
    h->still_picture = f(1); h->reduced_still_picture_header = f(1);
    if (h->reduced_still_picture_header && !h->still_picture) return -1;
    if (h->reduced_still_picture_header) {
        h->num_operating_points = 1;
        h->operating_points[0].major_level = 2 + f(3); h->operating_points[0].minor_level = f(2); /* seq_level_idx[0] */
        h->operating_points[0].initial_display_delay = 10;
    } else {
        h->timing_info_present = f(1);
        if (h->timing_info_present) {
            h->num_units_in_tick = f(32); h->time_scale = f(32);
            if (strict && (h->num_units_in_tick == 0 || h->time_scale == 0)) return -1;
            h->equal_picture_interval = f(1);
            if (h->equal_picture_interval) { const unsigned v = uvlc(); if (v == 0xffffffffu) return -1; h->num_ticks_per_picture = v + 1; }
            h->decoder_model_info_present = f(1);
            if (h->decoder_model_info_present) {
                h->encoder_decoder_buffer_delay_length = f(5) + 1; h->num_units_in_decoding_tick = f(32);
                if (strict && h->num_units_in_decoding_tick == 0) return -1;
                h->buffer_removal_delay_length = f(5) + 1; h->frame_presentation_delay_length = f(5) + 1;
            }
        }
        h->display_model_info_present = f(1);
        h->num_operating_points = f(5) + 1;
#ifdef NOPS
        ASSUME(h->num_operating_points <= NOPS);
#endif
        for (int i = 0; i < h->num_operating_points; i++) {
            const unsigned idc = f(12); h->operating_points[i].idc = idc;
            if (idc && (!(idc & 0xff) || !(idc >> 8))) return -1; /* neither temporal nor spatial layer */
            h->operating_points[i].major_level = 2 + f(3); h->operating_points[i].minor_level = f(2);
            if (h->operating_points[i].major_level > 3) h->operating_points[i].tier = f(1); /* seq_level_idx > 7 */
            if (h->decoder_model_info_present) {
                h->operating_points[i].decoder_model_param_present = f(1);
                if (h->operating_points[i].decoder_model_param_present) {
                    h->operating_parameter_info[i].decoder_buffer_delay = f(h->encoder_decoder_buffer_delay_length);
                    h->operating_parameter_info[i].encoder_buffer_delay = f(h->encoder_decoder_buffer_delay_length);
                    h->operating_parameter_info[i].low_delay_mode = f(1);
                }
            }
            if (h->display_model_info_present) h->operating_points[i].display_model_param_present = f(1);
            if (h->operating_points[i].display_model_param_present) h->operating_points[i].initial_display_delay = f(4) + 1;
            else h->operating_points[i].initial_display_delay = 10;
        }
    }
    h->width_n_bits = f(4) + 1; h->height_n_bits = f(4) + 1;
    h->max_width = f(h->width_n_bits) + 1; h->max_height = f(h->height_n_bits) + 1;
    if (!h->reduced_still_picture_header) {
        h->frame_id_numbers_present = f(1);
        if (h->frame_id_numbers_present) { h->delta_frame_id_n_bits = f(4) + 2; h->frame_id_n_bits = f(3) + 1 + h->delta_frame_id_n_bits; }
    }
    h->sb128 = f(1); h->filter_intra = f(1); h->intra_edge_filter = f(1);
    if (h->reduced_still_picture_header) { h->screen_content_tools = 2; h->force_integer_mv = 2; }
    else {
        h->inter_intra = f(1); h->masked_compound = f(1); h->warped_motion = f(1); h->dual_filter = f(1);
        h->order_hint = f(1);
        if (h->order_hint) { h->jnt_comp = f(1); h->ref_frame_mvs = f(1); }
        if (f(1)) h->screen_content_tools = 2; else h->screen_content_tools = f(1);
        if (h->screen_content_tools > 0) { if (f(1)) h->force_integer_mv = 2; else h->force_integer_mv = f(1); } else h->force_integer_mv = 2;
        if (h->order_hint) h->order_hint_n_bits = f(3) + 1;
    }
    h->super_res = f(1); h->cdef = f(1); h->restoration = f(1);
    /* color_config */
    h->hbd = f(1); if (h->profile == 2 && h->hbd) h->hbd += f(1);
    if (h->profile != 1) h->monochrome = f(1);
    h->color_description_present = f(1);
    if (h->color_description_present) { h->pri = f(8); h->trc = f(8); h->mtrx = f(8); } else { h->pri = 2; h->trc = 2; h->mtrx = 2; }
    if (h->monochrome) { h->color_range = f(1); h->ss_hor = h->ss_ver = 1; h->chr = 0; }
    else if (h->pri == 1 && h->trc == 13 && h->mtrx == 0) {
        h->color_range = 1; h->ss_hor = h->ss_ver = 0; h->chr = 0;
        if (!(h->profile == 1 || (h->profile == 2 && h->hbd == 2))) return -1; /* 4:4:4 not allowed in this profile */
    } else {
        h->color_range = f(1);
        if (h->profile == 0) h->ss_hor = h->ss_ver = 1;
        else if (h->profile == 1) h->ss_hor = h->ss_ver = 0;
        else if (h->hbd == 2) { h->ss_hor = f(1); if (h->ss_hor) h->ss_ver = f(1); }
        else h->ss_hor = 1;
        if (h->ss_hor && h->ss_ver) h->chr = f(2);
    }
    h->layout = h->monochrome ? 0 : h->ss_hor ? h->ss_ver ? 1 : 2 : 3;
    if (strict && h->mtrx == 0 && (h->ss_hor || h->ss_ver)) return -1;
    if (!h->monochrome) h->separate_uv_delta_q = f(1);
    h->film_grain_present = f(1);
    return 0;
}
#define E(x) & (A.x == B.x)
void harness(void) {
    static Dav1dSequenceHeader A, B; static GetBits gb;
    const int strict = STRICT;
    ND(int, trail_res); ASSUME(trail_res <= 0);
    const int s = spec(&B, strict);
    trail_pos = -1;
    const int r = parse_seq_hdr(&A, &gb, strict);
#if PART == 0
    REACH("parsed");
    ENSURE("illegal headers are rejected, legal ones accepted when their trailing bits are", s < 0 ? r == DAV1D_ERR(EINVAL) : r == trail_res && trail_strict == strict);
#elif PART == 1
    ENSURE("exactly the header bits are consumed", s < 0 || trail_pos == (int)SPOS);
#elif PART == 2
    ENSURE("profile, timing and decoder model information", s < 0 || (1 E(profile) E(still_picture) E(reduced_still_picture_header) E(timing_info_present) E(num_units_in_tick) E(time_scale) E(equal_picture_interval)
    E(num_ticks_per_picture) E(decoder_model_info_present) E(encoder_decoder_buffer_delay_length) E(num_units_in_decoding_tick) E(buffer_removal_delay_length)
    E(frame_presentation_delay_length) E(display_model_info_present) E(num_operating_points)));
#elif PART == 3
    ENSURE("frame size, frame ids and coding tools", s < 0 || (1 E(width_n_bits) E(height_n_bits) E(max_width) E(max_height) E(frame_id_numbers_present) E(delta_frame_id_n_bits) E(frame_id_n_bits)
    E(sb128) E(filter_intra) E(intra_edge_filter) E(inter_intra) E(masked_compound) E(warped_motion) E(dual_filter) E(order_hint) E(jnt_comp) E(ref_frame_mvs)
    E(screen_content_tools) E(force_integer_mv) E(order_hint_n_bits) E(super_res) E(cdef) E(restoration)));
#elif PART == 4
    ENSURE("colour configuration and film grain", s < 0 || (1 E(hbd) E(monochrome) E(color_description_present) E(pri) E(trc) E(mtrx) E(color_range) E(ss_hor) E(ss_ver) E(layout) E(chr) E(separate_uv_delta_q) E(film_grain_present)));
#else
    int same = 1;
    for (int i = 0; i < NOPS; i++) same &= 1 E(operating_points[i].idc) E(operating_points[i].major_level) E(operating_points[i].minor_level) E(operating_points[i].tier)
        E(operating_points[i].decoder_model_param_present) E(operating_points[i].display_model_param_present) E(operating_points[i].initial_display_delay)
        E(operating_parameter_info[i].decoder_buffer_delay) E(operating_parameter_info[i].encoder_buffer_delay) E(operating_parameter_info[i].low_delay_mode);
    ENSURE("operating points", s < 0 || same);
#endif
}
#endif
