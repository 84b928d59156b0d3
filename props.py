"""Which harnesses decide which property. budget: seconds of symbolic execution (quick); thorough: same, thorough tier."""
MODULES = {"rt": {}, "web": {}, "ps": {}, "det": {"rustflags": "--cfg askama_verif"}, "gen": {"rustflags": "--cfg askama_verif"}}
def H(mod, name, budget=10, bounds="", **k): return dict(mod=mod, name=name, budget=budget, bounds=bounds, **k)
BADV = "a value of 3 bytes failing at any of them in 29 places (every filter, macro, loop, block, filter block)"
LONG = "texts of 0..1025 filler characters (40 lengths, 3 fillers), at most 2 (breaks: 3; url, truncate, center: 1) symbolic bytes, 0..200 filler characters (7 lengths)"
CHECKS = {
 "P01": dict(harnesses=[
    H("rt", "esc_ascii", 15, "all ASCII strings of at most 5 (thorough: 7) bytes"),
    H("rt", "esc_utf8", 10, "all strings of at most 4 (5) characters of 1..4 UTF-8 bytes"),
    H("rt", "esc_chunks", 10, "all values written as 2 (3) pieces of at most 2 ASCII bytes in any of 3 ways"),
    H("rt", "esc_filters", 10, "all strings of at most 3 (4) characters of 1..3 bytes"),
    H("rt", "esc_long", 20, LONG),
    H("rt", "esc_runs", 60, "two special characters at any distance of 0..130 (254), 0..17 bytes behind"),
    H("rt", "esc_tpl", 10, "8 templates of different extensions; values of at most 2 characters"),
    H("rt", "esc_text_tpl", 10, "4 templates; values of at most 2 characters"),
    H("rt", "esc_safe_mix", 10, "one template with every kind of expression position; values of at most 2 (3) bytes out of <>&\"' aZ\\n"),
 ]),
 "P02": dict(harnesses=[
    H("rt", "ent_same", 15, "one template with branches, loops and nested values; its data are symbolic (strings of at most 2 bytes, 0..2 loop items)"),
    H("rt", "ent_dyn", 15, "the same through the dynamic interface"),
    H("rt", "ent_short", 15, "io writers taking 1..4 bytes at a time, interrupted at any of the first 2 calls, taking nothing after 0..11 bytes; 4 entry points", reach=["ok", "writer failed"]),
    H("rt", "ent_long", 60, "outputs of 27 lengths of 0..8193 characters (3 fillers and a symbolic byte), plain, escaped or written in pieces of 5 sizes; 7 kinds of targets, byte writers taking 1..5000 bytes at a time, slices that are too short"),
 ]),
 "P03": dict(harnesses=[
    H("rt", "ent_err", 20, "a writer failing after any number of bytes 0..24, 4 entry points", reach=["ok", "writer failed"]),
    H("rt", "ent_ioerr", 20, "an io writer failing after any number of bytes 0..24, 2 entry points", reach=["ok", "writer failed"]),
    H("rt", "ent_short", 15, "io writers taking 1..4 bytes at a time, interrupted at any of the first 2 calls, taking nothing after 0..11 bytes; 4 entry points", reach=["ok", "writer failed"]),
    H("rt", "ent_custom_err", 10, "any subset of 3 fallible expressions failing", reach=["ok", "error"]),
    H("rt", "ent_long_err", 20, "text and byte writers failing at 9 places of outputs of 27 lengths of 0..8193 bytes", reach=["ok", "writer failed"]),
    H("rt", "ent_io_kinds", 20, "14 kinds of errors at any of the first 12 calls of a byte writer, 3 entry points", reach=["ok", "writer failed"]),
    H("rt", "ent_raise", 10, "any subset of 3 expressions using ? failing, 8 entry points", reach=["ok", "error"]),
    H("rt", "ent_bad_value", 10, BADV, reach=["ok", "error"]),
    H("rt", "ent_bad_format", 10, "the same in the filters fmt and format", reach=["ok"]),
    H("rt", "ent_filter_err", 10, "any subset of 3 filter calls failing (plain, in a filter block, in a loop), failing Display value", reach=["ok", "error"]),
 ]),
 "P04": dict(harnesses=[
    H("rt", "f_truncate", 15, "strings of at most 4 (thorough: 5) characters of 1..4 bytes, limits 0..17", reach=["cut", "whole"]),
    H("rt", "f_truncate_chunks", 15, "1..3 pieces of at most 1 character of 1..2 (4) bytes, limits 0..6 (8)"),
    H("rt", "f_indent", 60, "strings of at most 7 (9) bytes out of a LF blank CR, widths 0..4; at most 3 characters of 1..3 bytes"),
    H("rt", "f_center", 10, "strings of at most 3 characters of 1..2 (3) bytes, widths 0..11"),
    H("rt", "f_trim", 10, "strings of at most 6 (8) bytes; 2 (3) pieces of at most 2 bytes"),
    H("rt", "f_join", 10, "0..5 (6) strings of at most 2 ASCII bytes, separators of at most 3"),
    H("rt", "f_join_chunks", 20, "0..3 values written in 2 pieces of at most 1 byte, separators of at most 2"),
    H("rt", "f_chunks", 20, "every filter on values written in 3 pieces of at most 1 ASCII byte"),
    H("rt", "f_limits", 20, "widths 9998..10001, 65536, 2^40; texts of 9998..10001 bytes"),
    H("rt", "f_long_layout", 40, LONG),
 ]),
 "P05": dict(harnesses=[
    H("rt", "f_linebreaks", 10, "strings of at most 8 (11) bytes out of a LF < CR"),
    H("rt", "f_chunks", 20, "every filter on values written in 3 pieces of at most 1 ASCII byte"),
    H("rt", "f_pbreaks", 10, "strings of at most 9 (12) bytes out of a LF < CR blank"),
    H("rt", "f_long_breaks", 20, LONG),
 ]),
 "P06": dict(harnesses=[
    H("rt", "f_title", 10, "ASCII strings of at most 6 (8) bytes"),
    H("rt", "f_capital", 10, "ASCII strings of at most 12 bytes"),
    H("rt", "f_case", 10, "ASCII strings of at most 12 bytes"),
    H("rt", "f_wordcount", 10, "ASCII strings of at most 7 (9) bytes"),
    H("rt", "f_chunks", 20, "every filter on values written in 3 pieces of at most 1 ASCII byte"),
    H("rt", "f_long_case", 20, LONG),
    H("rt", "f_case_unicode", 20, "at most 3 characters out of 18 chosen ones inside and outside of ASCII"),
 ]),
 "P07": dict(harnesses=[
    H("rt", "f_urlencode", 30, "ASCII strings of at most 2 bytes, single characters of 1..3 bytes"),
    H("rt", "f_urlencode_chunks", 10, "2 pieces of at most 1 byte"),
    H("rt", "f_long_url", 30, LONG),
 ]),
 "P08": dict(harnesses=[
    H("rt", "f_json_str", 20, "strings of at most 3 characters of 1..3 (4) bytes"),
    H("rt", "f_json_struct", 20, "a map of a key of at most 1 byte to a list of 2 strings of at most 2 bytes"),
    H("rt", "f_json_shapes", 20, "null, booleans, numbers, strings of at most 1 byte, lists and objects of 0..2 of them, nested once (twice)"),
    H("rt", "f_long_json", 20, LONG),
 ]),
 "P09": dict(harnesses=[
    H("rt", "f_abs", 10, "all values of all signed integer types but the minimum"),
    H("rt", "f_isize", 10, "all values of all 12 integer types", reach=["fits", "error"]),
 ]),
 "P10": dict(harnesses=[
    H("rt", "loop_vars", 10, "sequences of 0..4 symbolic bytes"),
    H("rt", "loop_tpl", 20, "two nested loops over 0..4 symbolic items, with condition, else, cycle, break and continue"),
    H("rt", "loop_long", 20, "loops over 10..65538 items (40 lengths), in templates up to 1002, with and without a condition"),
    H("gen", "loops", 60, "one loop: 7 sources, 5 conditions, 6 bodies using the loop variables, break and continue, with and without else; 0..2 symbolic items", reach=["rendered"]),
    H("gen", "loops_nested", 90, "a loop in a loop: 4 sources, shadowing, condition, else or 4 kinds of bodies (thorough: all combined) in a template, a macro, around an include, in a filter block; 0..2 by 0..2 symbolic items", reach=["rendered"]),
    H("gen", "loops_targets", 30, "4 patterns, 3 surroundings", reach=["rendered"]),
 ]),
 "P11": dict(harnesses=[
    H("ps", "tot_any", 60, "all ASCII texts of 6 (thorough: 7) bytes", reach=["ok", "err"]),
    H("ps", "tot_utf8", 20, "8 openings, at most 2 symbolic bytes or characters of 2..4 bytes, 4 endings", reach=["ok", "err"]),
    H("ps", "tot_expr", 20, "{{ }} around 4 (5) symbolic ASCII bytes", reach=["ok", "err"]),
    H("ps", "tot_block", 30, "{% %} around any keyword and 3 (4) symbolic ASCII bytes", reach=["ok", "err"]),
    H("ps", "tot_body", 20, "17 openings and endings around 3 (4) symbolic ASCII bytes", reach=["ok", "err"]),
    H("ps", "tot_nest", 15, "29 nesting constructs repeated 64, 127..129, 255..257, 1000 or 20000 times", reach=["err"]),
    H("ps", "tot_long", 15, "27 flat constructs repeated 129, 257 or 1000 times", reach=["ok"]),
    H("ps", "tot_accept", 15, "7 block constructs nested 1..40 deep", reach=["ok"]),
    H("ps", "tot_repeat", 15, "42 constructs repeated 150 times", reach=["accepted"]),
 ]),
 "P12": dict(harnesses=[
    H("ps", "txt_edges", 30, "up to 3 (thorough: 4) characters: any ASCII byte, any 2- or 3-byte character, 8 special ones; alone, behind or before a tag, between comments, in a branch", reach=["text"]),
    H("ps", "txt_plain", 15, "texts of at most 8 (9) bytes out of { % # } blank a LF TAB; at most 4 (5) characters of 1..3 bytes", reach=["text"]),
    H("ps", "txt_between", 15, "5 kinds of tags between texts of at most 3 (4) and 4 bytes", reach=["text after"]),
    H("ps", "txt_two_tags", 20, "any two of 17 tags with at most 4 (5) bytes between them", reach=["text"]),
    H("ps", "txt_long", 60, "texts of 33 lengths of 0..1025 characters (4 fillers), at most 2 symbolic bytes, one of 4 tags, at most 2 symbolic bytes, 0..300 characters", reach=["text after"]),
 ]),
 "P13": dict(harnesses=[
    H("ps", "txt_comment", 15, "comments of at most 7 (8) bytes out of { # } - + a blank, 5 endings", reach=["comment"]),
    H("ps", "txt_raw", 15, "raw blocks of at most 3 bytes, 9 tag-like texts, 2 bytes; all signs", reach=["raw"]),
    H("ps", "txt_comment_nest", 90, "comments of at most 6 (7) pieces out of 14 (delimiters, signs, tags), 3 endings", reach=["comment", "unclosed"]),
    H("ps", "txt_comment_long", 30, "9 kinds of contents, nesting included, repeated 1..1025 times (20 counts), signs at both ends", reach=["comment"]),
    H("ps", "txt_raw_long", 90, "10 tag-like contents repeated 0..1025 times (33 counts) and a symbolic byte; all signs", reach=["raw"]),
    H("ps", "txt_signs", 15, "all signs at every tag of 12 constructs"),
 ]),
 "P14": dict(harnesses=[
    H("ps", "ex_two", 15, "two operands with prefix and 8 kinds of suffix, 4 symbolic operator bytes", reach=["well-formed", "rejected"]),
    H("ps", "ex_three", 15, "three operands, operators of 2 symbolic bytes each", reach=["well-formed", "rejected"]),
    H("ps", "ex_many", 15, "4 (5) operands, operators of one symbolic byte", reach=["well-formed"]),
    H("ps", "ex_group", 15, "6 kinds of groups, 2 symbolic operators of 2 bytes", reach=["well-formed", "rejected"]),
    H("ps", "ex_any", 15, "all expressions of at most 5 (6) bytes out of ab1 .,()[]!-+|&=<?:", reach=["well-formed", "rejected"]),
    H("ps", "ex_macro", 40, "Rust macro calls, paths included: at most 7 (9) bytes out of ( ) \" ' \\ x , between the parentheses, followed by a text, quotes or other calls", reach=["macro"]),
 ]),
 "P15": dict(harnesses=[
    H("ps", "lit_num", 15, "at most 6 (8) bytes out of 0129_.eE+-xboafiu8364", reach=["number"]),
    H("ps", "lit_num_suffix", 15, "8 numbers with at most 4 suffix bytes", reach=["number"]),
    H("ps", "lit_str", 15, "strings of at most 7 (9) bytes out of \" \\ a blank { } % # ' LF", reach=["string"]),
    H("ps", "lit_str_utf8", 15, "strings of at most 4 (5) characters of 1..4 bytes"),
    H("ps", "lit_char", 15, "character literals of at most 3 ASCII bytes, 1 character of 2..4 bytes, \\x and \\u escapes of at most 7 digits", reach=["char", "rejected"]),
 ]),
 "P16": dict(harnesses=[
    H("ps", "syn_symbolic", 60, "six delimiters of 2..4 symbolic bytes, templates of 2 (3) pieces out of 14 and 2 text bytes", reach=["both parse"]),
    H("ps", "syn_list", 20, "6 sets of delimiters, templates of 2 (3) pieces out of 14 and 2 text bytes", reach=["both parse"]),
 ]),
 "P17": dict(harnesses=[
    H("ps", "err_short", 20, "at most 3 characters, 8 openings, 2 symbolic bytes, a second line", reach=["whole"]),
    H("ps", "err_long", 20, "5 errors behind at most 60 characters and 2 line breaks and before at most 100 characters", reach=["cut", "whole"]),
 ]),
 "P18": dict(harnesses=[
    H("gen", "ws_hole", 120, "17 templates with every kind of tag, any one text in them replaced by at most 2 (thorough: 4) bytes out of blank LF CR a (the first also TAB), any signs next to it, 3 defaults set by attribute", reach=["rendered"]),
    H("gen", "ws_pair", 120, "two neighbouring tags out of 5 kinds with at most 2 bytes out of blank LF CR between and before them, all signs, 2 defaults set by askama.toml", reach=["rendered"]),
 ]),
 "P19": dict(harnesses=[
    H("gen", "if_chain", 30, "chains of 1..2 (thorough: 3) conditions out of 11 kinds, with and without else; data: integers 0..3, booleans, options, a tuple, all symbolic", reach=["rendered"]),
    H("gen", "match_arms", 30, "8 matches over integers, options, tuples, booleans and an expression, last arm or else; symbolic data", reach=["rendered"]),
    H("gen", "select_nested", 60, "4 kinds of inner choices (chains, matches, a loop with a condition) in a chain, a match, a macro called twice, a block; symbolic data", reach=["rendered"]),
 ]),
 "P20": dict(harnesses=[
    H("gen", "let_sequences", 60, "sequences of 3 (thorough: 4) statements out of 15 kinds that set, shadow, declare and show two variables; symbolic conditions", reach=["rendered"]),
    H("gen", "let_scopes", 60, "any of 14 constructs that bind a variable with any of 12 of them in any of its parts or behind it, the variables called as either of two fields; symbolic conditions", reach=["rendered"]),
    H("gen", "let_names", 30, "two names out of 7 (fields, keywords, new ones) in 6 scopes; symbolic conditions", reach=["rendered"]),
 ]),
 "P21": dict(harnesses=[
    H("gen", "macro_args", 60, "6 pairs of parameter names, 9 arguments for each, 4 ways of naming them, 4 bodies", reach=["rendered"]),
    H("gen", "macro_bodies", 60, "6 pairs of parameter names, 11 bodies, 6 pairs of arguments, 8 places of the call", reach=["rendered"]),
    H("gen", "macro_effects", 60, "arguments with effects (parts of what has an effect included) or loop variables, 6 pairs of names, 5 bodies", reach=["rendered"]),
    H("gen", "macro_counts", 60, "0, 1 or 3 parameters of 5 names, 5 bodies setting variables of 4 names, 3 (thorough: 5 or 10) tuples of arguments, 2 ways of naming them, 4 places", reach=["rendered"]),
 ]),
 "P22": dict(harnesses=[
    H("gen", "inherit_chain", 30, "2 or 3 levels, 3 blocks (one nested) each overridden or not, super in 5 forms", reach=["rendered"]),
    H("gen", "inherit_deep", 60, "chains of 3 to 5 (thorough: 6) levels, a block overridden at each or not, in 4 forms with super, one of its own macro per level, a block that appears half-way, whole or as fragment", reach=["rendered"]),
    H("gen", "inherit_scopes", 30, "8 contents of the derived and 7 of the base block, 5 forms of super, 5 places in the base", reach=["rendered"]),
 ]),
 "P23": dict(harnesses=[
    H("gen", "include_places", 30, "10 included templates in 8 places", reach=["rendered"]),
    H("gen", "include_paths", 30, "4 layouts of directories, relative or absolute, 5 kinds of use, decoys of the same name", reach=["rendered"]),
    H("gen", "imports", 30, "6 macro bodies, 5 arrangements of imports", reach=["rendered"]),
 ]),
 "P24": dict(harnesses=[
    H("gen", "fragments", 30, "6 contents of the block, 8 surroundings, nested once, own, inherited or overridden block", reach=["rendered"]),
 ]),
 "P25": dict(harnesses=[
    H("gen", "filter_block", 30, "10 filter lists of at most 5 filters, 11 contents, 7 places; symbolic conditions", reach=["rendered"]),
    H("gen", "filter_nested", 60, "10 by 10 filter lists, 8 contents, 6 nestings", reach=["rendered"]),
 ]),
 "P26": dict(harnesses=[
    H("gen", "attr_output", 30, "28 file names, 8 values of the escape attribute, 4 configurations of escapers, path or source", reach=["rendered"]),
    H("gen", "delimiters", 30, "1 or 2 delimiters of 0..3 symbolic bytes out of <[%{# =|.&!>}~, used or not", reach=["rendered"]),
    H("gen", "syntaxes", 30, "3 syntaxes declared in 6 ways, 5 defaults, 5 attributes", reach=["rendered"]),
    H("gen", "config_dirs", 60, "7 lists of directories, configured or not, in askama.toml, in another or a missing file; 7 by 7 places of the files, 3 kinds of use", reach=["rendered"]),
    H("gen", "config_ws", 30, "no or any whitespace setting in file and attribute, any signs", reach=["rendered"]),
 ]),
 "P27": dict(harnesses=[
    H("gen", "dt_source", 60, "22 tags around at most 2 (thorough: 3) symbolic bytes out of 31 or one of 4 wide characters, block attribute or not", reach=["code", "error"]),
    H("gen", "dt_names", 30, "24 unusual names in 18 places", reach=["code", "error"]),
    H("gen", "dt_attrs", 60, "12 keys with 14 kinds of values, 8 further attributes, 9 kinds of items", reach=["code", "error"]),
    H("gen", "dt_toml", 30, "12 openings in askama.toml around at most 2 (3) symbolic bytes out of 14", reach=["code", "error"]),
    H("gen", "dt_graph", 90, "three files using each other in 7 ways (thorough: two uses in the first), cycles included, block attribute or not", reach=["code", "error"]),
    H("gen", "dt_filters", 90, "33 filters (all built-in ones and others) without arguments, with any of 24 kinds of argument (up to 3 arguments of 3 kinds; thorough: 2 of any kind), on 5 (22) kinds of values, in expressions, filter blocks, chains", reach=["code", "error"]),
    H("gen", "dt_calls", 30, "16 kinds of calls (functions, methods, paths, macros, super, loop.cycle, Rust macros, indexing) with up to 3 arguments as above", reach=["code", "error"]),
    H("gen", "dt_targets", 60, "17 patterns in 4 nestings, alone or with another behind `or`, in 9 places", reach=["code", "error"]),
    H("gen", "dt_tags", 60, "any sequence of up to 3 (thorough: 4) of 34 tags, what is open closed in the end", reach=["code", "error"]),
    H("gen", "dt_deep", 30, "10 constructs around short and long texts nested or repeated 1..400 times", reach=["code", "error"]),
 ]),
 "P28": dict(harnesses=[
    H("gen", "eval_output", 60, "16 by 16 expressions with and without effects in 7 arrangements of output, branches, loops, let, filter blocks, blocks", reach=["rendered"]),
    H("gen", "eval_tags", 30, "8 expressions with effects in 14 arrangements of tags", reach=["rendered"]),
 ]),
 "P29": dict(harnesses=[
    H("gen", "dependencies", 60, "13 places of a tag by 13 places of a tag in the file it names, include, import and extends, 4 layouts of directories, path or source", reach=["used"]),
    H("gen", "dependencies_fragment", 30, "10 places in the block, own, inherited, overridden block", reach=["used"]),
 ]),
 "P30": dict(harnesses=[
    H("gen", "names", 60, "67 names (all Rust keywords that can be identifiers, names the generated code uses) in 16 roles", reach=["rendered"]),
 ]),
 "P31": dict(harnesses=[
    H("gen", "int_chains", 60, "chains of 3 (thorough: 4) operators out of + - * / % << >> & ^ |", reach=["rendered"]),
    H("gen", "int_places", 60, "10 by 10 kinds of operands, 2 (4) operators, in 16 places", reach=["rendered"]),
    H("gen", "bool_chains", 90, "3 (4) operands out of 4..8, && and ||, in 8 (3) places; symbolic booleans and options", reach=["rendered"]),
    H("gen", "comparisons", 30, "5 by 6 by 5 operators in 4 forms", reach=["rendered"]),
    H("gen", "values", 30, "30 expressions in 6 places", reach=["rendered"]),
 ]),
 "P32": dict(harnesses=[
    H("web", "web_axum", 30, "6 templates of 5 MIME types (one with life time, type parameters and inheritance); values of at most 2 (thorough: 3) ASCII characters or 1 of up to 2 (3) bytes, a value or filter that fails, errors of at most 2 characters of up to 2 (3) bytes; long values and errors of 25 lengths up to 8193", reach=["page", "error"]),
    H("web", "web_warp", 30, "the same", reach=["page", "error"]),
    H("web", "web_actix", 30, "the same", reach=["page", "error"]),
    H("web", "web_rocket", 30, "the same", reach=["page", "error"]),
 ]),
 "P33": dict(harnesses=[
    H("gen", "items", 90, "6 kinds of types, 3 lists of life times, 4 of types (bounds, defaults), 3 of constants (default), 5 where clauses, 3 names, 3 visibilities, 3 lists of other attributes", reach=["rendered"], strict=True),
 ]),

 "P34": dict(harnesses=[
    H("gen", "mis_calls", 60, "20 calls of macros with and without a mistake at 11 places (thorough: two nested), in the template or one it includes", reach=["accepted", "rejected"]),
    H("gen", "mis_args", 60, "macros with at most 3 (thorough: 4) parameters, here or imported, called with at most one argument more: every sequence of positional, known, repeated and unknown named ones", reach=["accepted", "rejected"]),
    H("gen", "mis_tags", 60, "66 tags and expressions with and without a mistake at the same places", reach=["accepted", "rejected"]),
    H("gen", "mis_places", 60, "14 tags that belong somewhere, at up to two nested places", reach=["accepted", "rejected"]),
    H("gen", "mis_files", 60, "33 templates of up to two files", reach=["accepted", "rejected"]),
    H("gen", "mis_names", 60, "19 places where a name is expected; names with one letter that is any other (of either case), missing or too much (thorough: one replaced by any two)", reach=["accepted", "rejected"]),
    H("gen", "mis_attrs", 60, "37 template attributes", reach=["accepted", "rejected"]),
 ]),
 "P35": dict(harnesses=[
    H("gen", "hygiene", 60, "38 bodies with every tag, operator and built-in filter, in 4 surroundings, 4 roots (macros and imports, inherited block, fragment, attributes), 3 kinds of types", reach=["accepted"]),
    H("gen", "hygiene_head", 10, "the head of the implementation and the constant EXTENSION with and without an extension", reach=["accepted"]),
 ]),
 "P36": dict(harnesses=[
    H("det", "det_code", 60, "72 (thorough: 288) combinations of 2 roots and two of 12 parts out of up to 8 files, with and without askama.toml; any one map or set (thorough: two) iterated in another order: all orders of up to 4 entries, all rotations in both directions of more", reach=["accepted", "rejected", "hash maps were iterated"]),
    H("det", "det_errors", 60, "two files with one of 16 mistakes each, used in 3 ways, in the same orders", reach=["accepted", "rejected", "hash maps were iterated"]),
    H("det", "det_config", 30, "112 attributes, templates and configurations with syntaxes and escapers that overlap, in the same orders", reach=["accepted", "rejected"]),
    H("det", "det_history", 60, "the same templates as det_code derived again after 7 other uses: other types, mistakes, other contents of the files, another askama.toml", reach=["accepted", "rejected"]),
 ], assumptions=["the crates under test are compiled with std's HashMap, HashSet and RandomState replaced by wrappers that iterate in an order chosen symbolically; a map keeps its order while its size stays the same"]),
}
