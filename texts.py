prop("P01", "Interpolated values are HTML-escaped exactly, unless marked safe",
 """Whatever value an expression in an HTML-type template (html, htm, svg, xml, j2, jinja, jinja2, or one configured so) prints, the characters < > & " ' appear in the output only as &lt; &gt; &amp; &quot; &#x27; and every other character appears unchanged and in order; text-type templates print the value unchanged.
 Only the safe filter, or naming an escaper with the e/escape filter or in the template's attributes, changes this, and only for that expression or template.
 The result does not depend on how the value's Display implementation splits its output, nor on where in the template (loop, branch, macro, let, filter argument) the expression stands.""",
 ["inputs"], "every value (byte content and the way it is written), in every kind of expression position",
 "Tests escape a few fixed strings. The guarantee is about every byte sequence a user can send and every chunking of it; a single byte mishandled is an injection.",
 ["askama_escape/src/lib.rs", "askama/src/filters/mod.rs", "askama_derive/src/generator.rs"], "Html/Text escapers, MarkupDisplay, safe/escape filters and the code generated for expressions",
 "Every value within the bounds gives the reference escaping.")
prop("P02", "All ways of rendering a template give the same bytes",
 """For one template value, rendering to a string, appending to a string or any text writer, writing to any byte writer, formatting through Display, going through references or the dynamic interface, and embedding the template in another one all produce the same bytes; writing into a target appends to what is there.
 Rendering twice gives the same result, and the extension, MIME type and size estimate reported dynamically equal the static ones.""",
 ["inputs", "configurations"], "every template value (all field contents, branch and loop shapes within bounds) and every entry point",
 "Tests call one entry point per template on fixed data; agreement over all data and all entry points is a relation between runs.",
 ["askama/src/lib.rs", "askama_derive/src/generator.rs"], "Template, DynTemplate and the generated Display impl",
 "All entry points agree on every value within the bounds.")
prop("P03", "Failures while rendering are reported and stop the output",
 """If the writer, a filter, a value's Display implementation or an expression using ? fails at any point, every rendering entry point reports failure: a byte writer's own error is returned, an error raised by ? keeps its type and text and is the source of the error, and other failures are formatting errors.
 What was written before is a prefix of the complete rendering; after a writer failed nothing more is written to it, and success is only reported when everything was written.""",
 ["fault_sequences", "inputs"], "every position at which a writer can fail, every subset of fallible expressions and filters failing",
 "Tests do not inject writer failures; the number of failure points grows with the output.",
 ["askama/src/lib.rs", "askama/src/error.rs", "askama_derive/src/generator.rs"], "error propagation in render_into/write_into and in the generated code",
 "Every failure position within the bounds is reported and leaves a prefix.")
prop("P04", "truncate, indent, center, trim and join lay text out as documented",
 """truncate(n) keeps the shortest prefix of at least n bytes ending at a character boundary and appends ... exactly when something was cut; indent(n) inserts n spaces after every newline except a final one; center(n) pads with spaces to n characters, the odd space on the right; trim removes exactly the whitespace at both ends; join puts the separator between, and only between, the items.
 None of them changes any other character, whatever the text, its length and the way it is written piece by piece; widths of 10000 or more, and for indent texts of 10000 bytes or more, leave the text as it is.""",
 ["inputs"], "every text (UTF-8), every limit or width, every chunking",
 "Off-by-one and character-boundary errors only show at particular combinations of text and limit; tests try a handful.",
 ["askama/src/filters/mod.rs"], "truncate, indent, center, trim, join filters",
 "Output equals the reference for every text and parameter within the bounds.")
prop("P05", "linebreaks, linebreaksbr and paragraphbreaks convert newlines exactly",
 """linebreaksbr replaces every newline by <br/> and nothing else; linebreaks wraps the text in <p>..</p>, turns each pair of newlines into a paragraph break and each remaining newline into <br/>; paragraphbreaks wraps each non-empty stretch between pairs of newlines in <p>..</p> and drops the empty ones.
 No other character of the text is changed, added or lost.""",
 ["inputs"], "every text", "Runs of newlines at the ends, odd and even run lengths and markup inside of the text interact; tests try isolated cases.",
 ["askama/src/filters/mod.rs"], "linebreaks, linebreaksbr, paragraphbreaks filters", "Output equals the reference for every text within the bounds.")
prop("P06", "upper, lower, capitalize, title and wordcount follow characters and words",
 """upper and lower convert every character with Rust's case mapping; capitalize converts the first character to upper and all others to lower case; title does so for each whitespace-separated word and keeps the whitespace; wordcount is the number of maximal runs of non-whitespace.
 The aliases lowercase and uppercase behave the same.""",
 ["inputs"], "every text", "Word boundaries and multi-character case mappings at every position; tests use a few sentences.",
 ["askama/src/filters/mod.rs"], "case filters and wordcount", "Output equals the reference for every text within the bounds.")
prop("P07", "urlencode emits only unreserved characters and loses nothing",
 """urlencode percent-encodes (two upper-case hex digits per byte) every byte of the UTF-8 text except ASCII letters, digits and _ . - ~ /; urlencode_strict also encodes /.
 The output therefore decodes to exactly the original text, however it is written piece by piece.""",
 ["inputs"], "every text", "The encode set is a table over all byte values; tests sample about thirty characters.",
 ["askama/src/filters/mod.rs"], "urlencode filters", "Output equals the reference for every text within the bounds.")
prop("P08", "json output is valid JSON that is inert in HTML",
 """The json filter's output parses as JSON to exactly the serialized value, and never contains & < > or an apostrophe, so that it can stand in a script element or an attribute.""",
 ["inputs"], "every serializable value (strings, keys, lists within bounds)", "Escapes interact with the serializer's own and with the way it hands over pieces; tests use a few literals.",
 ["askama/src/filters/json.rs"], "json filter", "Holds for every value within the bounds.")
prop("P09", "abs and into_isize keep the numeric value or fail",
 """For integers, abs returns the magnitude and into_isize returns the same number as a machine-sized integer, or an error exactly when it does not fit; no value is silently changed.""",
 ["inputs"], "every integer of the types tried", "Boundary values; tests try small numbers.",
 ["askama/src/filters/mod.rs"], "abs, into_isize filters", "All values of i8/i64 (abs) and u8/i32/u64/u128 (into_isize); floating point is outside.")
prop("P10", "for loops visit each item once with the right loop variables",
 """A for loop renders its body once per item that passes the loop's condition, in order, and its else branch exactly when there was none; loop.index counts from 1, loop.index0 from 0 over the items that passed, loop.first and loop.last hold for exactly the first and last of them, and loop.cycle picks by position.
 break and continue affect the innermost loop only, and inner loops do not disturb the variables of outer ones.""",
 ["inputs"], "every sequence and every condition outcome within the bounds", "loop.last depends on looking ahead over filtered items; tests use a few fixed vectors.",
 ["askama/src/helpers.rs", "askama_derive/src/generator.rs"], "TemplateLoop and the code generated for loops", "Output equals the reference for every sequence within the bounds.")
prop("P11", "The template parser ends with a tree or an error for every text",
 """Parsing never panics, overflows the stack or hangs: any text yields a tree or a reported error, nesting deeper than the limit included.
 Whether a construct is accepted does not depend on how many other constructs came before it: long flat templates and moderately nested ones (up to 40 blocks) are accepted.""",
 ["inputs"], "every template source text", "A panic or an overflow takes the compiler down; the texts which cause one are those nobody thought of. Tests have one fuzz artefact or two.",
 ["askama_parser/src/lib.rs", "askama_parser/src/node.rs", "askama_parser/src/expr.rs", "askama_parser/src/target.rs"], "the whole parser and its nesting counters", "Every text within the bounds ends with Ok or Err.")
prop("P12", "Literal text reaches the syntax tree verbatim",
 """Text outside of tags, up to the next opening delimiter, becomes literal text with all of its characters, and its leading and trailing whitespace (blank, tab, CR, LF) is split off exactly, so that whitespace control applies to it alone.
 A single brace or other delimiter-like character is ordinary text.""",
 ["inputs"], "every text around every kind of tag", "Partial delimiters and whitespace at the edges; tests use plain words.",
 ["askama_parser/src/node.rs", "askama_parser/src/lib.rs"], "Lit::parse, split_ws_parts, skip_till", "Every text within the bounds is kept.")
prop("P13", "Comments vanish, raw blocks stay verbatim, signs are recorded as written",
 """A comment extends to the delimiter closing it, comments inside of it counted; an unclosed one is an error. The content of a raw block is kept verbatim up to the first endraw tag.
 A whitespace control sign (- + ~) of any tag is attached to exactly that side of exactly that tag.""",
 ["inputs"], "every comment and raw content, every combination of signs", "Nested and partial delimiters; the number of sign combinations. Tests try a few.",
 ["askama_parser/src/node.rs"], "Comment, Raw, Whitespace parsing", "Every case within the bounds.")
prop("P14", "Expressions are grouped by the documented operator precedence",
 """An expression is parsed as the documented grammar says: postfix operators (calls, fields, indexing, ?), then filters, unary ! and -, then * / %, + -, << >>, &, ^, |, comparisons, &&, ||, ranges, each level grouping from the left, parentheses, tuples and arrays as in Rust.
 Text which the grammar does not derive is rejected and never silently dropped or regrouped.
 A call of a Rust macro extends to the parenthesis closing it, those in string and character literals not counted, and passes on what is between verbatim.""",
 ["inputs"], "every expression text", "Pairs and triples of operators with prefixes and suffixes are too many to list; tests cover a few trees.",
 ["askama_parser/src/expr.rs"], "the expression grammar", "Every expression within the bounds is parsed like an independent reference parser does.")
prop("P15", "Literals are taken whole and only if Rust would take them",
 """Number, string and character literals of a template are passed on verbatim: every Rust number literal (with _, radix, exponent and type suffix) is accepted whole, a string ends at its first unescaped quote, and a character literal is accepted if and only if it is one in Rust (escapes, code point range).""",
 ["inputs"], "every literal text", "Boundaries of escapes and code points, suffix combinations; tests have a dozen.",
 ["askama_parser/src/lib.rs", "askama_parser/src/expr.rs"], "num_lit, str_lit, char_lit", "Every literal within the bounds.")
prop("P16", "Custom delimiters change the spelling of a template and nothing else",
 """With any set of delimiters that are not part of each other or of the expressions and text, the same template, spelled with these delimiters, is parsed to the same tree as with the default ones, and is rejected exactly if that one is.""",
 ["inputs", "configurations"], "every set of delimiters and every template", "Every tag, comment and raw block has to use the configured delimiters, of any length; tests use one set for a few tags.",
 ["askama_parser/src/lib.rs", "askama_parser/src/node.rs"], "Syntax and State::tag_* functions", "Every delimiter set and template within the bounds.")
prop("P17", "Syntax errors point at a place in the template",
 """The row and column of a parse error name a position of the template source, with columns counted in characters, and the excerpt shown is the text at exactly that position, shortened to 40 characters only when it is longer.""",
 ["inputs"], "every rejected template text", "Multi-byte characters, line ends and the cut at 40 characters interact; tests compare two messages.",
 ["askama_parser/src/lib.rs"], "Ast::from_str error reporting, strip_common", "Every rejected text within the bounds.")
prop("P18", "Whitespace control removes exactly the white space it asks for",
 """The run of white space (blank, tab, CR, LF) between the text and a tag, an expression or a comment is kept as it is with the sign +, dropped with -, and with ~ replaced by one newline if it contains a newline and else by one blank; without a sign, the whitespace setting of the template's attribute or, failing that, of askama.toml decides (preserve if neither is set).
 Where white space is all there is between two tags, the stronger of both requests (- before ~ before +) is followed; what happens if one of the tags has a sign that asks for less than the default and the other has none is left open.
 This holds at both ends of every kind of tag (expressions, comments, let, if/else if/else, for/else, match/when, macro, call, block, include, import, filter, raw, break, continue, and in fragments and inherited blocks), and no text other than this white space is changed.""",
 ["inputs", "configurations"], "every text between tags, every combination of signs, every default, every kind of tag",
 "Texts, two signs, defaults and kinds of tags multiply; each tag has its own piece of code for both of its ends, and tests sample a few of them.",
 ["askama_derive/src/generator.rs", "askama_parser/src/node.rs", "askama_derive/src/config.rs", "askama_derive/src/input.rs"], "handle_ws, prepare_ws, visit_lit, WhitespaceHandling, the Ws fields of the nodes",
 "The rendered text equals the reference for every template within the bounds.")
prop("P19", "Conditionals and matches render exactly the first branch that applies",
 """An if chain renders the body of its first branch whose condition holds (for if let: whose pattern matches, with its variables bound), else the else body, else nothing; a match renders its first arm whose pattern matches the value, else the else arm, and binds the variables of the pattern to the parts of the value.
 Conditions may be fields, comparisons, boolean operators, negations, method calls and patterns of literals, alternatives, tuples and enum variants; branches nest in each other and in loops, macros and blocks without affecting each other, and white space or text between match and its first arm is never rendered.""",
 ["inputs"], "every chain of branches and every value of the data it tests",
 "Which branch is taken depends on the data and on the order in which the generator writes branches; tests render a template or two with fixed data.",
 ["askama_derive/src/generator.rs", "askama_parser/src/node.rs", "askama_parser/src/target.rs"], "write_if, write_match, visit_target, CondTest, Match and their generated code",
 "The rendered branch equals the reference's for every template and data within the bounds.")
prop("P20", "A name means the innermost variable set before it, or else the field",
 """A variable is visible from the let, the loop, the pattern or the macro parameter that sets it to the end of the enclosing body (branch, loop, arm, block, macro, filter block), shadows fields and outer variables of the same name while it is visible, and leaves them unchanged afterwards; a name that no variable carries means the field of the template.
 let takes the value at the time it is executed, also from the variable it replaces; a variable declared without value gets it from the first assignment in any branch.
 What was written before a let or a declaration shows the value from before.
 None of this depends on how the variable is called, Rust keywords included.""",
 ["inputs", "histories"], "every sequence of assignments, scopes and uses",
 "The generator tracks names symbolically in several scopes; mistakes need a particular sequence of declaration, nested scope, reassignment and use.",
 ["askama_derive/src/generator.rs", "askama_derive/src/heritage.rs"], "MapChain, LocalMeta, write_let, write_let_decl, visit_var, scopes pushed by every construct",
 "The rendered values equal the reference's for every sequence within the bounds.")
prop("P21", "Macros render their body with the parameters bound to the arguments of the call",
 """A macro call renders the macro's body with each parameter standing for the value its argument has at the call, positional or named in any order, evaluated once where it has an effect; afterwards the variables of the caller are what they were before.
 Parameters may carry the names of fields, of variables around the call or of variables set in the macro, without being mixed up; arguments may use them, loop variables and other macros' parameters; macros may call macros, may be called from loops, branches, blocks, filter blocks, included templates and other macros any number of times, and may stand before or after the call or in an imported template.""",
 ["inputs", "histories"], "every combination of parameter names, arguments, bodies and places of the call",
 "Arguments are substituted into the generated code by name; captures need coinciding names at two or three places.",
 ["askama_derive/src/generator.rs", "askama_derive/src/heritage.rs"], "write_call, parameter binding in MapChain, Context.macros",
 "The rendered text equals the reference's for every combination within the bounds.")
prop("P22", "An inheriting template renders its base with the blocks it overrides",
 """A template that extends another renders the text of the outermost base, in which each block shows the definition of the most derived template that defines it; call super() inside of a block shows the definition next in line, at any depth; nothing outside of blocks in a derived template is rendered.
 Blocks defined in a derived template inside of other blocks can be overridden further down.
 A block sees fields, and the macros and imports of the template in which it stands, but no variables set outside of it, and leaves none behind, wherever the base shows it (loop, branch, filter block).""",
 ["inputs", "histories"], "every chain of templates, set of overridden blocks and use of super",
 "Which definition is shown depends on the whole chain, and super on the position in it; tests have a few two and three level chains.",
 ["askama_derive/src/heritage.rs", "askama_derive/src/generator.rs", "askama_derive/src/input.rs"], "Heritage, Context, write_block, super handling, find_used_templates",
 "The rendered text equals the reference's for every chain within the bounds.")
prop("P23", "Includes and imports use the file they name, in place",
 """include renders the named template in place: it sees the variables and macros visible there, and leaves none of its own behind; an included template may itself extend, include, import or define macros. import makes exactly the macros of the named template callable under the given name, rendering as in the template they come from.
 A path names the file relative to the directory of the template the tag is written in, if there is one, else relative to the template directories; this holds for include, import and extends, however deep and from wherever the containing template is itself used.""",
 ["inputs", "configurations"], "every place of the tag, content of the named template and layout of directories",
 "Path resolution and scopes combine with nesting: tests include one file from the top level.",
 ["askama_derive/src/config.rs", "askama_derive/src/input.rs", "askama_derive/src/generator.rs"], "find_template, get_template_source, handle_include, find_used_templates, import handling",
 "The rendered text equals the reference's for every arrangement within the bounds.")
prop("P24", "A block fragment renders what the block renders in the whole template",
 """A template with the attribute block = "name" renders exactly the text the named block contributes to the whole template, for its own blocks, overridden and inherited ones (super included), whatever stands around the block: nothing of the text, expressions, branches, filter blocks, includes, macro calls or other blocks around it appears, and all of its own content does.""",
 ["inputs", "configurations"], "every template around and inside of the block",
 "The generator discards what is outside of the block while it walks through it; every kind of tag needs to be discarded properly, and tests have six small templates.",
 ["askama_derive/src/generator.rs", "askama_derive/src/input.rs"], "buf_writable.discard, write_block with the block attribute",
 "The rendered text equals the reference's for every template within the bounds.")
prop("P25", "A filter block shows its whole content, filtered",
 """A filter block shows the result of applying its filters, first to last with their arguments, to the complete rendering of what is between its tags, whatever that consists of (text, expressions, branches, loops, matches, let, macro calls, includes, raw text, blocks and other filter blocks), at the place where it stands, and nothing before or after it is filtered or lost.
 Variables set inside end with it.""",
 ["inputs", "histories"], "every content, list of filters and place of the filter block",
 "The content is rendered to another buffer while text is batched by the generator; losses need a particular construct at the edge, tests have a handful.",
 ["askama_derive/src/generator.rs", "askama_parser/src/node.rs"], "write_filter_block, write_buf_writable, visit_filter with FILTER_SOURCE",
 "The rendered text equals the reference's for every arrangement within the bounds.")
prop("P26", "Attributes and askama.toml choose escaping, syntax, whitespace and files",
 """The escaper is the one configured for the extension given by the escape attribute, else for the extension of the file name (escapers of askama.toml before the built-in ones), and an extension without one is rejected; the reported extension ignores a j2, jinja or jinja2 suffix after another extension, and the reported MIME type is the one of that extension.
 The syntax is the one of the attribute, else of default_syntax, else the default; unknown and doubly defined ones are rejected, as are delimiters which are shorter than two characters, contain white space, are an operator of the language, or of which one start is a prefix of another; every other delimiter works like the default one.
 The whitespace attribute takes precedence over the configured default, and unknown values are rejected.
 A template is the first file of its name in the configured directories, of the configuration file named by the attribute or else askama.toml; a missing file is rejected.""",
 ["configurations", "inputs"], "every combination of attributes and configuration, and every delimiter within the bounds",
 "Settings come from four places and fall back to each other; tests check each of them once, with the others at their defaults.",
 ["askama_derive/src/config.rs", "askama_derive/src/input.rs"], "Config::new, SyntaxBuilder / TryInto, DEFAULT_ESCAPERS, TemplateInput::new, ext_default_to_path, extension_to_mime_type",
 "The rendered text, extension and MIME type (or the rejection) equal the reference's for every configuration within the bounds.")
prop("P27", "The derive macro ends with code or a reported error for every input",
 """Whatever the template source, the attributes, the item they stand on, the configuration file and the files the template refers to contain, deriving Template neither panics nor hangs nor overflows the stack: it reports an error, or generates code that consists of valid Rust tokens.
 Templates, macros and blocks that use themselves, directly or through any number of files, are included.""",
 ["inputs", "configurations"], "every template source, attribute list, item, configuration and graph of templates",
 "A panic of the macro is reported by the compiler without any hint at the template, a hang not at all; the inputs causing one are those nobody thought of.",
 ["askama_derive/src/lib.rs", "askama_derive/src/input.rs", "askama_derive/src/config.rs", "askama_derive/src/heritage.rs", "askama_derive/src/generator.rs"], "the whole derive macro behind derive_template",
 "Every input within the bounds ends with an error or code that lexes (invalid escapes in string literals, names out of other than ASCII characters, the name crate and the paths of escapers are left to rustc, which reports them).")
prop("P28", "Expressions are evaluated in order, those with effects exactly once",
 """The expressions of a template, its conditions, sources of loops, matched values and arguments of filters, macros and filter blocks are evaluated in the order in which they are written, when the rendering gets to them, and as often as it does: an expression that calls a method is evaluated once for every time it is reached, even if the same expression stands elsewhere, and one in a branch not taken is not evaluated.""",
 ["histories", "inputs"], "every sequence of expressions and tags",
 "Output is batched and equal expressions are merged by the generator; wrong merging or reordering shows only with particular neighbours and effects.",
 ["askama_derive/src/generator.rs"], "write_buf_writable, WritableBuffer, is_cacheable, visit_* for expressions",
 "The rendered text, which shows the value of a counter at every evaluation, equals the reference's for every sequence within the bounds.")
prop("P29", "The compiler is told of every template file the output depends on",
 """The generated code names (include_bytes!) the template's own file and every file that takes part in its rendering, through any chain of extends, include and import tags, wherever they stand (branches, loops, matches, blocks, filter blocks, macros), also if the template's own source is inline or only a block of it is rendered; so changing any of these files recompiles the template.""",
 ["configurations", "histories"], "every chain of files and place of the tags",
 "A forgotten dependency shows only when a file is changed after the first build; no test does that.",
 ["askama_derive/src/generator.rs", "askama_derive/src/input.rs"], "impl_template and handle_include, find_used_templates",
 "Every file is named in the generated code for every arrangement within the bounds.")
prop("P30", "What variables, parameters, macros, blocks and fields are called is irrelevant",
 """Any name the template language accepts can be used for a field, a variable set by let, for, match or if let, a macro or its parameters, or a block, and gives the same output as any other: Rust keywords that can be raw identifiers, and names that the generated code uses itself, included.
 Excepted are names that start with an underscore or a capital letter, which are Rust paths, and writer as the name of a variable.""",
 ["inputs"], "every role of a name and every name within the bounds",
 "Names are pasted into generated code that has names of its own; tests use a few keywords in a few roles.",
 ["askama_derive/src/generator.rs"], "normalize_identifier, names of generated variables, visit_var",
 "The output equals the reference's for every name and role within the bounds.")
prop("P31", "Expressions have the value Rust gives them, wherever they stand",
 """An expression made of literals, variables, fields, indexing, method calls, filters, tuples, arrays, groups, unary and binary operators has the value the same expression has in Rust, with Rust's precedence and associativity.
 This holds in output, let, conditions, loop sources and conditions, match, arguments of filters, methods, macros and filter blocks, ranges and loop.cycle alike.""",
 ["inputs"], "every expression within the bounds in every place, for all values of its symbolic operands",
 "The expression is parsed to a tree and printed again; a wrong grouping or a lost reference shows only for particular operators side by side in particular places.",
 ["askama_parser/src/expr.rs", "askama_derive/src/generator.rs"], "Expr::parse, visit_expr and its callers",
 "The output equals the reference's for every expression and place within the bounds.")
prop("P32", "Web frameworks get exactly the page, or an error response",
 """For axum, actix-web, warp and Rocket, a template that renders gives, through into_response, try_into_response, Rocket's respond and the derived trait implementation alike, a response of status 200 whose body is exactly what render returns (with its length announced for Rocket) and whose only header is the content type of Template::MIME_TYPE.
 A template that fails to render never gives a page or a part of one: try_into_response returns the error, Rocket's respond and derived Responder the status 500, and everything else a response of status 500 with the text of the error as text/plain; charset=utf-8.""",
 ["inputs", "fault_sequences"], "all data of templates of several MIME types, failing at any of their expressions with any error text, within the bounds",
 "The integrations are tested with one template each that does not fail.",
 ["askama_axum/src/lib.rs", "askama_actix/src/lib.rs", "askama_warp/src/lib.rs", "askama_rocket/src/lib.rs", "askama_derive/src/generator.rs"], "into_response, try_into_response, respond, impl_axum_into_response, impl_warp_reply, impl_actix_web_responder, impl_rocket_responder",
 "Responses are as stated for all data, errors and templates within the bounds. The frameworks' own code that builds a response and hands out its body is executed as well; HTTP itself is outside.")
prop("P33", "Every kind of type can be a template, with whatever it is generic over",
 """Deriving Template works for structs with named fields, tuple structs, unit structs and enums with variants of any of these kinds, with any visibility, name and other attributes.
 If the type is generic over lifetimes, types or constants, with bounds, defaults and where clauses, Template and Display are implemented for the type with exactly these parameters, bounds and clauses, and the template can use the type's fields and variants through self.""",
 ["programs"], "every declaration of a type within the bounds",
 "Declarations combine independently; tests contain a few of them.",
 ["askama_derive/src/generator.rs", "askama_derive/src/lib.rs", "askama_derive/src/input.rs"], "write_header, impl_template, impl_display",
 "The implementations generated are for the type as declared, for every declaration within the bounds; a selection is compiled and rendered.")
prop("P34", "A mistake in a template is a compile error, wherever it stands",
 """Deriving Template reports an error for a template, and for files it extends, includes or imports, with: calls of macros that do not exist, or with missing, surplus, doubled, misnamed or misordered arguments; names after endblock or endmacro other than those of the block or macro; unclosed, unopened, unknown or incomplete tags and expressions; break or continue outside of a loop; macro, import or extends below the top level; super outside of a block or without one to show; unknown members of loop; unusable arguments of built-in filters that take a fixed form; assignments to literals or reserved names; files that are missing or use themselves.
 So it does for unknown, doubled, contradictory or mistyped template attributes and for a block attribute naming no block of the template. The same template without the mistake is accepted, wherever both stand (branch, loop, match, block, filter block, macro, included template).""",
 ["programs"], "every mistake and place within the bounds, and all misspellings of names by one letter",
 "Mistakes and places combine; the tests show some of the mistakes, at one place each.",
 ["askama_derive/src/generator.rs", "askama_derive/src/heritage.rs", "askama_derive/src/input.rs", "askama_derive/src/lib.rs", "askama_parser/src/node.rs"], "write_call, write_block, Context::new, TemplateArgs::new, build_template, check_end_name, Macro::parse, parse_loop_content, filters' visitors",
 "Templates with a mistake are rejected and those without accepted, for all combinations within the bounds.")
prop("P35", "What else is in scope where a template type stands does not matter",
 """Types, traits, enum variants, functions, macros and modules which the code around a template type defines or imports never change what the derived implementations mean, whatever they are called (Result, Option, Ok, Err, Some, None, String, Sized, str, bool, write, include_bytes, std, core): every path, macro and type in the generated code that the template and the type themselves do not name is absolute.
 Excepted are methods, and the module filters, in which filters are looked up that askama does not have.""",
 ["programs"], "every construct of the template language within the bounds",
 "Tests derive in modules which import nothing that conflicts.",
 ["askama_derive/src/generator.rs"], "impl_template, impl_display, write_* and visit_*",
 "No identifier in the generated code is looked up in the surrounding scope but those written by the user.")
prop("P36", "Deriving the same template gives the same code or error every time",
 """What deriving Template for a type yields, code or error, is a function of the item, the template files, askama.toml and the environment.
 It depends neither on the order in which hash maps and sets happen to be iterated, which differs from process to process, nor on what the macro was used for before in the same process: other templates, templates with mistakes, or the same one with other contents of its files or of askama.toml.""",
 ["schedules", "histories", "programs"], "every iteration order and history within the bounds",
 "A test process sees one seed of the hash maps per map; the order changes from run to run, and with it reproducible builds and which error is shown.",
 ["askama_derive/src/lib.rs", "askama_derive/src/generator.rs", "askama_derive/src/heritage.rs", "askama_derive/src/config.rs", "askama_derive/src/input.rs"], "build_template, impl_template, Heritage::new, Config::new, find_used_templates",
 "The result is the same for every order and history within the bounds.")
