mod esc;
mod filt;
mod entry;
mod long;
use esc::*; use filt::*; use entry::*; use long::*;
vf::harnesses!(
    esc_ascii, esc_utf8, esc_chunks, esc_filters, esc_tpl, esc_text_tpl, esc_safe_mix,
    f_truncate, f_truncate_chunks, f_indent, f_center, f_trim, f_wordcount, f_title, f_capital, f_case, f_linebreaks, f_pbreaks, f_urlencode, f_urlencode_chunks,
    f_json_str, f_json_struct, f_join, f_abs, f_isize,
    ent_same, ent_dyn, ent_err, ent_ioerr, ent_short, ent_custom_err, ent_filter_err, loop_vars, loop_tpl, loop_long, ent_long, ent_long_err, ent_io_kinds, ent_raise, ent_bad_value, ent_bad_format, f_limits, f_join_chunks, f_chunks, f_json_shapes,
    esc_long, esc_runs, f_long_layout, f_long_case, f_long_breaks, f_long_url, f_long_json, f_case_unicode,
);
