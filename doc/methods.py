M = {
 'P01': ('the reference escaper of the property (a table over bytes), for the escaper itself, the filters, and 13 derived templates with every kind of expression position', 'values of every content up to the bound, written in symbolic pieces; the `*_long`/`*_runs` harnesses move special characters over all offsets of block-wise implementations'),
 'P02': ('the entry points compared with each other on the same symbolic template value; writers that accept symbolic numbers of bytes and are interrupted', 'all data and all chunkings of the writer, which tests with one String cannot show'),
 'P03': ('writers that fail after a symbolic number of bytes, filters, `?` expressions and Display values failing in any subset; the output must be the prefix the full rendering has, the error the right one', 'fault positions are symbolic, so every one of them is covered'),
 'P04': ('short reference functions over characters', 'all texts, limits and chunkings within the bounds'),
 'P05': ('short reference functions over bytes', 'all texts of newlines, returns and markup within the bounds'),
 'P06': ("std's case mapping per character, and words by Unicode white space", 'all ASCII texts, and triples of chosen characters outside of ASCII with special mappings'),
 'P07': ('a table over bytes, and decoding', 'every byte and character up to three bytes, in pieces'),
 'P08': ('an independent JSON reader in the harness, and the absence of the four characters', 'every string, key and list within the bounds'),
 'P09': ('integer arithmetic on wider types', 'all values of the types, symbolically: no enumeration'),
 'P10': ('TemplateLoop on symbolic sequences (rt), and the reference rendering (gen)', 'every sequence and outcome of conditions within the bounds'),
 'P11': ('ends with Ok or Err: panics, invalid accesses, stack overflow (native replay) and the step limit are violations; accepted constructs stay accepted when repeated or nested', 'all texts of the bounds: the parser is run on fully symbolic text'),
 'P12': ('the text and its two margins computed by the harness', 'all texts around tags'),
 'P13': ('comment ends by counting, raw ends by search, signs as printed', 'all contents and signs'),
 'P14': ('an independent precedence climbing parser over the same bytes; the trees are compared', 'all operator bytes, prefixes and suffixes within the bounds'),
 'P15': ("hand-written recognisers of Rust's literals", 'all literal texts within the bounds'),
 'P16': ('the tree of the same template with the default delimiters', 'delimiters are symbolic bytes'),
 'P17': ('row, column and excerpt computed from the offset of the error by the harness, without panicking and within the text', 'all rejected texts of the bounds, multi-byte characters and line ends included'),
 'P18': ('the reference rendering, with white space rules written down once for all tags', 'texts, signs, defaults and tags multiply to all combinations'),
 'P19': ('the reference rendering with symbolic data', 'every combination of conditions, patterns and data within the bounds'),
 'P20': ('the reference rendering, scopes as a stack of names', 'every sequence of statements within the bounds'),
 'P21': ('the reference rendering: arguments are values bound to parameters', 'every coincidence of names in parameters, arguments, bodies and callers'),
 'P22': ('the reference rendering over a chain of templates', 'every subset of overridden blocks, forms of super, and places'),
 'P23': ('the reference rendering, with the file lookup of the property', 'layouts of directories with decoys of the same name'),
 'P24': ('the reference rendering with the output muted outside of the block', 'contents by surroundings'),
 'P25': ('the reference rendering with a stack of buffers', 'contents by filters by places'),
 'P26': ('the rules of the statement over attributes and configuration; rejected or rendered', 'all combinations of settings, symbolic delimiters, places of the file'),
 'P27': ('panics, invalid accesses and the step limit are violations, and the code must consist of Rust tokens (own lexer)', 'symbolic bytes in templates, attributes and configuration; graphs of files'),
 'P28': ('the reference rendering with an evaluation counter, which each effectful expression shows', 'all pairs of expressions in all arrangements of the bounds'),
 'P29': ('the files the reference rendering reads', 'all places of the tags, kinds of use, layouts'),
 'P30': ('the reference rendering, in which names are just names', 'all roles of all names'),
 'P31': ("the reference evaluation with Rust's precedence (the native compile of the sampled templates is Rust itself)", 'all chains of operators within the bounds'),
 'P32': ('the output or the error of render on the same symbolic data; the response is taken apart through the framework: status, headers, body', 'all data, failing places and error texts within the bounds'),
 'P33': ('the declaration itself: heads of implementations are compared with the parameters, bounds and clauses the harness declared the type with', 'all combinations of kinds of types, parameters, defaults and clauses'),
 'P34': ('pairs of templates written down in the harness, one with a mistake and the same without it: the derive macro (parser, heritage, generator) is executed on both, the first must end in an error and the second not', 'names differ from the right one by any letter (symbolic) at any position; mistakes and the places around them are enumerated by the solver paths'),
 'P35': ('the identifiers of the template, its files and the type: every other path, macro, type or call in the code the derive macro generates must start with ::', 'all combinations of bodies, surroundings, roots and types'),
 'P36': ('the macro run twice on one path, the second time with maps and sets iterated in a symbolic order, or after other uses of it: code and errors are compared byte by byte', 'the order is a symbolic permutation, where tests see those of one seed; the crates are built with a crate named std that wraps HashMap, HashSet and RandomState'),
}
