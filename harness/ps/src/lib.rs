mod ast;
mod expr;
mod lits;
mod syn;
mod text;
mod total;
use expr::*; use lits::*; use syn::*; use text::*; use total::*;
vf::harnesses!(ex_two, ex_three, ex_many, ex_group, ex_any, ex_macro,
    tot_any, tot_utf8, tot_expr, tot_block, tot_body, tot_nest, tot_long, tot_accept, tot_repeat,
    txt_plain, txt_edges, txt_between, txt_comment, txt_raw, txt_signs, txt_comment_nest, txt_comment_long, txt_long, txt_raw_long, txt_two_tags,
    lit_num, lit_num_suffix, lit_str, lit_str_utf8, lit_char,
    syn_symbolic, syn_list, err_short, err_long);
