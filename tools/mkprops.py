import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
GEN="askama_derive/src/generator.rs"
p("C01","HTML escaping of interpolated values is complete, exact and chunk-independent",
 "In a template whose escaper is HTML, whatever text a value's Display produces, and however it splits that text over write_str/write_char/write_fmt calls, the interpolation emits exactly that text with each of & < > \" ' replaced by a character reference and every other character verbatim. Hence no value can introduce markup, leave an attribute, or be altered or truncated: decoding the references gives the value back.",
 ["inputs"],"All strings (Unicode, control characters, empty, long), all splittings of a string into formatter calls, all Display-producing types, used directly, in attribute/text position, in lists, through filters and through the public escape API.",
 "Tests escape a few short literals written by a single write_str; the defect classes (a byte missed after a multi-byte character, at a chunk border, at an odd offset, through write_char) need all strings and all chunkings.",
 ["askama_escape/src/lib.rs",GEN,"askama/src/filters/mod.rs"],[("EscapeWriter / Html::write_escaped","askama_escape/src/lib.rs"),("MarkupDisplay::new_unsafe wrapping of every unwrapped expression","askama_derive/src/generator.rs: named_expression")],["rendered output","askama::Html / MarkupDisplay formatting"])
p("C02","Values are escaped exactly once, by the escaper the template selects",
 "The escaper is chosen from the `escape` attribute or else the template file extension (html, htm, svg, xml, j2, jinja, jinja2 are HTML; md, none, txt, typ, yml and no extension are plain text; configured escapers come first), and applies to every expression however it is reached (macro, include, block, import, filter block, filter argument result). Only an expression whose outermost filter is `safe` (no escaping) or `escape`/`e` (the escaper it names, or the template's) deviates; everything else, results of these filters that are piped into other filters, bound by `let` or passed as arguments included, is escaped like any value, exactly once, and literal template text is never escaped.",
 ["inputs","programs","configurations"],"All templates and values, every extension and escape setting, all compositions of safe/escape/e with other filters and constructs.",
 "The tests fix a handful of template/extension pairs; the escaper must be right for every expression position and every filter composition.",
 ["askama_derive/src/input.rs","askama_derive/src/config.rs",GEN,"askama_escape/src/lib.rs"],[("escaper selection by extension","askama_derive/src/input.rs: TemplateInput::new"),("DisplayWrap::{Wrapped,Unwrapped}","askama_derive/src/generator.rs")],["rendered output"])
p("C03","Literal text is reproduced exactly, except whitespace the controls remove",
 "Text outside tags (and raw block content) appears in the output byte for byte in source order, and comments emit nothing. The only whitespace that may change is the run directly next to a tag: `-` removes it, `~` reduces it to a newline if it contains one and else one space, `+` keeps it, and with no sign the template's whitespace setting (attribute, else configuration, else preserve) decides; a file template loses at most one trailing newline.",
 ["inputs","programs","configurations"],"All literal texts (braces, quotes, backslashes, any Unicode, any whitespace mix), all tag kinds, every combination of whitespace signs at every tag edge, under all three default settings, nested and adjacent.",
 "Tests cover single constructs with chosen signs; the pending-whitespace state is carried across tags, so combinations over whole templates matter.",
 [GEN,"askama_parser/src/node.rs","askama_derive/src/config.rs"],[("next_ws / skip_ws state machine","askama_derive/src/generator.rs: flush_ws, prepare_ws, visit_lit"),("Lit::split_ws_parts","askama_parser/src/node.rs")],["rendered output"],
 [dict(name="next_ws, skip_ws",meaning="pending trailing whitespace and suppression of leading whitespace",where=GEN)])
p("C04","Template expressions mean what the same Rust expression means",
 "Every supported expression (literals of all kinds, fields, methods, paths, indexing, arithmetic, comparison, logic, ranges, tuples, arrays, groups, function and Rust-macro calls, filters, `?`) evaluates to what the documented Rust-like grammar and precedence give, each occurrence is evaluated independently of other occurrences, and expressions are evaluated in template order.",
 ["inputs","programs"],"All well-typed expressions over all values, at any nesting depth, with or without redundant parentheses, repeated any number of times in one template.",
 "Tests use a few fixed expressions; operator combinations, nested suffixes, filter/operator mixes, repeated occurrences and side-effecting calls form an unbounded space.",
 [GEN,"askama_parser/src/expr.rs"],[("precedence layers","askama_parser/src/expr.rs"),("visit_expr and the expression cache","askama_derive/src/generator.rs: prepare_format, named_expression, is_cacheable")],["rendered output"])
p("C05","Names resolve lexically and `let` takes effect exactly from its position on",
 "An identifier refers to the innermost template variable in scope at that point, else to the template struct's field; a `let`/`set` (plain, destructuring, or declared first and assigned later) affects only what follows it in its scope, never earlier output, sibling branches or code after the scope ends. This holds for every name, including names that are Rust keywords and names equal to fields or outer variables.",
 ["inputs","programs"],"All placements of let/set/loop/match/if-let bindings relative to uses and to other constructs, all shadowing patterns, all identifiers.",
 "Output is emitted lazily and variables are resolved when flushed, so a shadowing bug depends on which constructs sit between use and binding; tests try few.",
 [GEN],[("locals MapChain","askama_derive/src/generator.rs"),("write_let, is_shadowing_variable","askama_derive/src/generator.rs"),("normalize_identifier","askama_derive/src/generator.rs")],["rendered output"])
p("C06","Conditionals and match render exactly the first branch that applies",
 "`if`/`elif`/`else if`/`else` (with boolean or `let` conditions) and `match`/`when`/`else` render exactly the body of the first branch whose condition or pattern holds (alternatives with `or`, literals, paths, tuple and struct patterns and their bindings included), nothing when none does, and evaluate conditions in order, each at most once and none after the chosen one.",
 ["inputs","programs"],"All nestings and sequences of conditionals and matches, all patterns over all values, whatever text and expressions surround them.",
 "Tests instantiate a few fixed shapes with a few values.",
 [GEN,"askama_parser/src/node.rs"],[("write_if, write_match, visit_target","askama_derive/src/generator.rs")],["rendered output","side-effect counters"])
p("C07","Loops visit the selected items once, in order, with truthful loop state",
 "`for` renders its body once per item of the iterable that passes the optional `if` condition, in order, with `loop.index`, `loop.index0`, `loop.first`, `loop.last` and `loop.cycle` describing the sequence of items actually visited; `break` and `continue` act on the innermost loop, and `else` renders exactly when no item was visited. Nested and successive loops do not disturb each other.",
 ["inputs","programs"],"All iterables (ranges, arrays, slices, vectors, nested, method results, arbitrary iterators), all lengths, conditions, destructuring patterns, placements of break/continue and nestings.",
 "Tests use short fixed vectors; first/last with filtering, break/continue with pending output, loops in loops, macros or includes are combinatorial.",
 [GEN,"askama/src/helpers.rs"],[("TemplateLoop / LoopItem","askama/src/helpers.rs"),("write_loop","askama_derive/src/generator.rs")],["rendered output","askama::helpers::TemplateLoop"])
p("C08","Macro calls render the macro body with each parameter bound to its argument",
 "A call renders the body of the named macro (defined in the same file, or imported under a scope) in place, with every parameter standing for the value of its argument (positional, or by name in any order) as evaluated at the call site, each non-trivial argument evaluated once. Parameter names and locals of the body do not capture names of the argument expressions, names that are free in the body mean what they mean at the call site, and a wrong number or name of arguments is a compile error, never wrong output.",
 ["inputs","programs"],"All macro signatures, argument expressions, argument orders, name coincidences between parameters, fields and locals, nested calls, calls in loops/branches/includes.",
 "Tests call macros with distinct names and simple arguments.",
 [GEN,"askama_derive/src/heritage.rs"],[("write_call","askama_derive/src/generator.rs"),("Context::macros/imports","askama_derive/src/heritage.rs")],["rendered output","side-effect counters"])
p("C09","Template inheritance renders the most derived block in the base's skeleton",
 "A template that extends another renders the root base template with each block replaced by the most derived definition in the chain (blocks nested in blocks or in other constructs included), `super()` renders the next definition up the chain, macros and imports visible where a block is defined stay usable in it, and surrounding scopes' variables are not visible in a block. Deriving with `block = \"name\"` renders the (most derived) block by itself, and content outside blocks of an extending template is not rendered.",
 ["inputs","programs"],"All inheritance chains of any length, all subsets of blocks overridden at each level, nesting of blocks, super() at any level, fragments of any block.",
 "Tests cover chains of two or three files with fixed blocks.",
 ["askama_derive/src/heritage.rs",GEN],[("Heritage::new","askama_derive/src/heritage.rs"),("write_block, super_block, discard","askama_derive/src/generator.rs")],["rendered output"])
p("C10","Includes and template paths resolve to the documented file and its content",
 "`include`, `extends` and `import` find the file relative to the template that contains the tag first and then in the configured directories in order, and fail to compile when there is none. `include` renders the whole included template in place with the variables, macros and imports in scope there, and what the included file declares does not leak back.",
 ["inputs","programs","configurations"],"All directory layouts (nested directories, same-named files at several places, several configured directories), include chains at any depth, includes inside any construct.",
 "Tests include a few files from one directory at depth one or two.",
 ["askama_derive/src/config.rs","askama_derive/src/input.rs",GEN],[("Config::find_template","askama_derive/src/config.rs"),("handle_include","askama_derive/src/generator.rs"),("find_used_templates","askama_derive/src/input.rs")],["rendered output","compile errors"])
p("C11","Built-in filters compute their documented function of the piped text",
 "Each built-in filter (abs, capitalize, center, filesizeformat, fmt, format, indent, into_f64, into_isize, join, linebreaks, linebreaksbr, paragraphbreaks, lower/lowercase, upper/uppercase, title, trim, truncate, wordcount, as_ref, deref) returns exactly its documented function of the input value and arguments, for every input including empty, multi-byte, boundary and oversized ones. The result does not depend on how the piped value splits its Display output, and no input makes a filter panic (`abs` of the least integer excepted, as in Rust; `center` and `indent` may leave texts alone if the text or the width is 10000 or more).",
 ["inputs"],"All strings, numbers, widths, lengths and separators, all chunkings of the piped Display value, and compositions of filters.",
 "Unit tests check a few ASCII examples per filter; boundary widths, multi-byte truncation points, chunk borders and extreme arguments are an infinite input space.",
 ["askama/src/filters/mod.rs",GEN],[("filter functions","askama/src/filters/mod.rs"),("visit_filter and its special cases","askama_derive/src/generator.rs")],["filter results","rendered output"])
p("C12","The json filter's output is equivalent JSON and free of HTML-active characters",
 "For every serialisable value the json filter yields text that parses back to the same JSON value and contains none of & < > ', so it is inert inside a script element, in HTML text, and in an attribute once quotes are escaped. If the value cannot be serialised rendering reports an error.",
 ["inputs"],"All serialisable values: any nesting, any string content in values and keys, numbers, and all ways the serializer splits its writes.",
 "Tests serialise a few small values; the escaping works on write chunks of the serializer, and re-encoding must be right for every string and key.",
 ["askama/src/filters/json.rs"],[("JsonWriter","askama/src/filters/json.rs"),("from_utf8_unchecked on write chunks","askama/src/filters/json.rs")],["rendered output"])
p("C13","urlencode output is reversible and uses only unreserved characters",
 "For every input, `urlencode_strict` yields only ASCII letters, digits, `_`, `.`, `-`, `~` and %XX triplets, `urlencode` additionally keeps `/`, characters in these sets are never encoded, and percent-decoding the output gives the UTF-8 bytes of the input, however the value splits its Display output.",
 ["inputs"],"All strings and chunkings.",
 "Tests check a few fixed strings.",
 ["askama/src/filters/mod.rs"],[("UrlencodeFilter and its AsciiSets","askama/src/filters/mod.rs")],["filter results"])
p("C14","A filter block applies its filters to exactly the rendering of its body",
 "`{% filter f|g(..) %}body{% endfilter %}` emits, in its place, the filters applied once in order to the complete text the body renders, whatever constructs the body contains and even when it is empty. Output before and after the block is unaffected, and nothing of the body escapes the filter.",
 ["inputs","programs"],"All bodies (text, expressions, conditionals, loops, match, let, calls, includes, nested filter blocks, raw, comments), all built-in and user filters with arguments, all placements.",
 "Tests use literal or single-expression bodies.",
 [GEN],[("write_filter_block","askama_derive/src/generator.rs")],["rendered output"])
p("C15","All output channels deliver the same bytes and the same success or failure",
 "For any template value, render, render_into, write_into, Display/ToString, the DynTemplate methods and the same through references, produce identical text (or each report failure), independent of SIZE_HINT, of the kind of writer and of how it accepts partial writes. When a writer fails at any point the call returns an error, does not panic, and what was delivered is a prefix of the full output.",
 ["inputs","fault_sequences","programs"],"All templates and values, all writers including ones that accept few bytes at a time, interrupt, or fail at any write.",
 "Tests compare a channel or two on a few templates and never inject writer faults.",
 ["askama/src/lib.rs","askama/src/error.rs",GEN],[("Template / DynTemplate default methods","askama/src/lib.rs"),("impl_display","askama_derive/src/generator.rs")],["return values and delivered bytes"])
p("C16","Errors raised while rendering are returned, never swallowed and never a panic",
 "When a value's Display, a custom filter, a `?` operand or an empty `loop.cycle` fails during rendering, rendering stops and returns an error (carrying the user's error for `?` and filters) whatever construct, filter or block it is in; it never panics and never returns success with truncated output. When nothing fails rendering succeeds.",
 ["inputs","fault_sequences","programs"],"All templates and every point of the evaluation at which a user value or filter may fail.",
 "Tests check one `?` and one failing filter; failures at the k-th evaluation inside arbitrary constructs are untested.",
 [GEN,"askama/src/error.rs","askama/src/filters/mod.rs","askama/src/lib.rs"],[("visit_try, filter `?`, write!()?","askama_derive/src/generator.rs"),("Error conversions","askama/src/error.rs")],["return values"])
p("C17","The template parser is total: any text yields an AST or an error",
 "For every string and every valid delimiter configuration, parsing terminates promptly with either a syntax tree or a parse error, and so does dropping, printing and comparing the result: no panic, stack overflow, hang or runaway memory, however deep, long, malformed or truncated the input.",
 ["inputs","configurations"],"All strings (truncations and mutations of templates, deep nestings, long chains, huge literals, arbitrary Unicode) and all accepted syntax configurations.",
 "A few fuzz regressions exist as tests; totality is over all inputs.",
 ["askama_parser/src/lib.rs","askama_parser/src/node.rs","askama_parser/src/expr.rs"],[("Level::nest depth limit","askama_parser/src/lib.rs")],["askama_parser::Ast::from_str / Parsed::new"])
p("C18","A parse error reports where the input stopped making sense, truthfully",
 "When parsing fails the reported remaining source is a suffix of the input (its first 40 characters, marked when cut), and row and column are exactly the line and character position where that suffix begins; everything before that position is unmodified input and the message names the file given. Making a valid template invalid at a point never yields a silently accepted, different template.",
 ["inputs"],"All inputs that fail to parse, with any line structure and Unicode content.",
 "Tests look at a few messages on mostly single-line sources.",
 ["askama_parser/src/lib.rs"],[("Ast::from_str error construction","askama_parser/src/lib.rs"),("impl Display for ParseError","askama_parser/src/lib.rs")],["ParseError"])
p("C19","The syntax tree is a faithful reading of the source",
 "Parsing the text of a template yields the tree the grammar defines: node kinds, nesting, operator precedence and associativity, arguments, targets, whitespace signs and names are those written, regardless of insignificant spacing and line breaks inside tags. Every piece of text in the tree is a slice of the source, in source order.",
 ["inputs","programs"],"All trees of the template language and all spacing variants of their text, under the default and custom delimiters.",
 "Tests compare a few dozen hand-written expressions and nodes.",
 ["askama_parser/src/expr.rs","askama_parser/src/node.rs","askama_parser/src/lib.rs"],[("nom combinators per construct","askama_parser/src")],["Ast::nodes"])
p("C20","The safe API never exhibits undefined behaviour",
 "No use of the public safe API of the parser, the escaping crate or the runtime filters (parsing, moving, cloning out, comparing, printing and dropping parsed templates in any order; rendering any value with any filter) reads freed or uninitialised memory, races, or produces invalid UTF-8 strings.",
 ["inputs","histories"],"All inputs and all orders of constructing, moving, using and dropping parsed templates and filter values.",
 "The tests run without sanitizers, so use-after-free or invalid strings would pass unnoticed.",
 ["askama_parser/src/lib.rs","askama/src/filters/json.rs","askama_escape/src/lib.rs"],[("self-referential Parsed (lifetime transmute, field order)","askama_parser/src/lib.rs"),("from_utf8_unchecked","askama/src/filters/json.rs")],["Miri and AddressSanitizer reports"])
p("C21","Custom delimiters only change spelling, never meaning",
 "A template written with any accepted custom syntax (named in the configuration, chosen by the `syntax` attribute or `default_syntax`) parses and renders exactly like the same template written with the default delimiters, the default delimiters then being ordinary text. (Closing delimiters that can be read as a part of the content of a tag, and comment delimiters that equal or overlap each other, are left out.) Unacceptable syntax definitions are rejected at compile time.",
 ["inputs","programs","configurations"],"All accepted delimiter sets (two or more characters, any punctuation or Unicode, partly overridden) and all templates.",
 "Tests use two or three delimiter sets on tiny templates.",
 ["askama_parser/src/lib.rs","askama_parser/src/node.rs","askama_derive/src/config.rs"],[("State::tag_* and Lit/Comment scanning","askama_parser/src"),("Syntax validation","askama_derive/src/config.rs")],["AST","rendered output"])
p("C22","Deriving a template always ends in code or in a compile error",
 "For any template text, set of template files, attributes and configuration, `#[derive(Template)]` terminates with generated code or a compile error naming a problem: it never panics, never crashes or hangs the compiler (code that is expanded in place may grow as the template demands), in particular for cyclic extends, includes, imports and macro calls, misplaced tags, unknown names, bad attributes and malformed configuration. A template that is valid by the documentation is accepted and compiles.",
 ["programs","configurations"],"All template file graphs, all attribute combinations and configuration files.",
 "The UI tests cover a few dozen fixed mistakes.",
 ["askama_derive/src/lib.rs","askama_derive/src/input.rs","askama_derive/src/heritage.rs",GEN],[("find_used_templates cycle detection","askama_derive/src/input.rs"),("CompileError reporting","askama_derive/src/lib.rs")],["rustc diagnostics, exit status, time"])
p("C23","Web integrations answer with exactly the rendered page, or a server error",
 "With the actix-web, axum, rocket and warp integrations, returning a template gives status 200, the Content-Type of the template's extension and a body (and length) equal to render(); when rendering fails the response has a 5xx status and none of the partial page, and no panic.",
 ["inputs","programs"],"All templates, values, extensions and rendering failures, in each of the four integrations.",
 "Each integration has one to three tests with a fixed page; failure of rendering is never tested.",
 ["askama_actix/src/lib.rs","askama_axum/src/lib.rs","askama_rocket/src/lib.rs","askama_warp/src/lib.rs",GEN],[("into_response / respond","askama_*/src/lib.rs"),("impl_*_responder","askama_derive/src/generator.rs")],["HTTP responses"])
p("C24","Rendering is a pure function of the value: repeatable, reentrant and thread-safe",
 "Rendering the same value again, from several threads at once, re-entrantly from inside another rendering, or after an earlier failed rendering gives the same result each time, without any data race or cross-talk. Compiling the same template again gives code with the same behaviour.",
 ["schedules","histories","programs"],"All interleavings of concurrent renderings, all sequences of renderings including failed ones, repeated derivations.",
 "Tests render each value once on one thread.",
 ["askama/src/lib.rs",GEN,"askama/src/filters/mod.rs"],[("generated render_into over &self","askama_derive/src/generator.rs"),("one-shot Cell in join","askama/src/filters/mod.rs")],["rendered outputs per thread","ThreadSanitizer reports"])
p("C25","Template metadata matches the template",
 "EXTENSION is the `ext` attribute or else the file's extension (the inner one before .j2/.jinja/.jinja2), MIME_TYPE is the MIME type of that extension (plain text, HTML, CSS, CSV and TSV with charset utf-8; unknown ones application/octet-stream), the DynTemplate accessors and references agree with them, and neither they nor SIZE_HINT depend on anything but the template.",
 ["programs","configurations"],"All file names, ext attributes and source kinds.",
 "Tests check three or four extensions.",
 ["askama_derive/src/input.rs",GEN,"askama/src/lib.rs"],[("extension_to_mime_type, ext_default_to_path","askama_derive/src/input.rs")],["Template constants"])
p("C26","Every template file that affects the output triggers recompilation",
 "Each template file whose content can influence a derived template (the template itself, bases, imports and includes, at any depth) and no other template is registered with the compiler as a build dependency, so that editing any of them and rebuilding changes the program accordingly.",
 ["programs","histories"],"All graphs of extends, include and import over files in any directories, and all edit histories.",
 "No test observes build dependencies.",
 [GEN,"askama_derive/src/input.rs"],[("include_bytes! of every used template","askama_derive/src/generator.rs: impl_template, handle_include")],["rustc dep-info"])
p("C27","Optional cargo features only add what they are for",
 "The crates build with every combination of the optional features (config, humansize, num-traits, urlencode, serde-json); a template that needs none of them is accepted and renders the same with any combination. The filters of an enabled feature work; those of a disabled one, and a configuration without `config`, are compile errors, never silently something else.",
 ["configurations","programs"],"All subsets of the features, all templates.",
 "The tests are built with one set of features.",
 ["askama/src/filters/mod.rs","askama_derive/src/config.rs",GEN],[("features of askama and askama_derive","askama/Cargo.toml, askama_derive/Cargo.toml"),("cfg of filters and errors","askama/src/filters/mod.rs, askama/src/error.rs"),("from_toml_str without config","askama_derive/src/config.rs"),("json filter without serde-json","askama_derive/src/generator.rs: _visit_json_filter")],["rustc, cargo"])
p("C28","Generated code works wherever the template type is defined",
 "A template renders the same whatever surrounds its type: items in scope that have names of the prelude, of std, of askama or of macros (Result, Option, Some, String, write!, ..), imported or blanket traits, lifetime, type and const parameters with bounds and where clauses, any visibility, edition 2018, 2021 or 2024, forbidden unsafe code, and definitions inside of functions, constants, modules and macros.",
 ["programs"],"All contexts of a derived type, all templates.",
 "Tests define their types in plain modules of one edition.",
 [GEN,"askama_derive/src/lib.rs"],[("names in the generated code","askama_derive/src/generator.rs: impl_template, write_header, visit_try")],["rustc"])
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
