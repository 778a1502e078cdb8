import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from e1 import *

# items that take the names that generated code could rely on
SHADOWS = ["pub type Result<T> = ::std::result::Result<T, ()>;", "pub struct Option;", "pub struct String;", "pub struct Vec;", "pub struct Box;", "pub struct Formatter;", "pub struct Html;", "pub struct Text;", "pub struct MarkupDisplay;",
           "pub mod std {}", "pub mod core {}", "pub mod alloc {}", "pub mod askama {}", "pub mod fmt {}", "pub mod io {}", "pub mod helpers {}", "pub mod error {}", "pub mod result {}", "pub mod string {}",
           "pub trait Template {}", "pub trait Display {}", "pub trait Write {}", "pub trait DynTemplate {}", "pub trait Error {}", "pub trait Escaper {}",
           "pub enum Error2 { Fmt }", "pub fn drop() {}", "#[allow(non_snake_case)] pub fn Ok() {}", "#[allow(non_snake_case)] pub fn Err() {}", "pub fn writer() {}", "pub fn render_into() {}", "pub fn write() {}", "pub fn escape() {}", "pub static WRITER: u8 = 0;", "pub const SIZE_HINT: u8 = 0;", "pub const EXTENSION: u8 = 0;", "pub struct TemplateLoop;",
           "#[allow(unused_macros)] macro_rules! write { ($($t:tt)*) => { compile_error!(\"shadowed\") } }", "#[allow(unused_macros)] macro_rules! writeln { ($($t:tt)*) => { compile_error!(\"shadowed\") } }",
           "#[allow(unused_macros)] macro_rules! format_args { ($($t:tt)*) => { compile_error!(\"shadowed\") } }", "#[allow(unused_macros)] macro_rules! include_bytes { ($($t:tt)*) => { compile_error!(\"shadowed\") } }",
           "#[allow(unused_macros)] macro_rules! concat { ($($t:tt)*) => { compile_error!(\"shadowed\") } }", "#[allow(unused_macros)] macro_rules! panic { ($($t:tt)*) => { compile_error!(\"shadowed\") } }"]
MACROS = ["format", "vec", "print", "println", "assert", "assert_eq", "debug_assert", "matches", "unreachable", "unimplemented", "todo", "stringify", "include_str", "include", "env", "option_env", "line", "file", "column", "module_path", "cfg", "thread_local", "dbg", "eprintln"]
SHADOWS += ["#[allow(unused_macros)] macro_rules! %s { ($($t:tt)*) => { compile_error!(\"shadowed\") } }" % m for m in MACROS]
TRAITS = ["use ::std::io::Write as _;", "use ::std::fmt::Write as _;", "use ::std::borrow::Borrow as _;", "use ::std::ops::Deref as _;", "use ::std::iter::Iterator as _;", "use ::askama::Template as _;", "use ::std::any::Any as _;", "use ::std::error::Error as _;",
          "pub trait Ext { fn render_into(&self) {} fn write_fmt(&self) {} fn file_size(&self) {} fn dyn_render(&self) {} } impl<T: ?::std::marker::Sized> Ext for T {}"]
# parameters, arguments, bounds
GENERICS = [("'a", "'static", None), ("'b: 'a", "'static", "'a"), ("'askama", "'static", None), ("'writer", "'static", None), ("A", "u8", None), ("B: Clone", "::std::vec::Vec<u8>", None), ("T1: ?::std::marker::Sized", "str", None), ("W", "i64", None), ("F: Fn(u8) -> u8", "fn(u8) -> u8", None),
            ("E: 'static", "u16", None), ("r#type", "u8", None), ("Askama", "u8", None), ("Result", "u8", None), ("const N: usize", "3", None), ("const M: bool", "true", None), ("const C: char", "'x'", None)]
EDITIONS = ["2018", "2021", "2024"]


def context(rng, text, structs, body):
    """The module of a case, somewhere that is not like everywhere else"""
    notes = []
    items = []
    if rng.random() < .75:
        pick = rng.sample(SHADOWS, rng.choice([1, 3, 10, len(SHADOWS)]))
        # names that the template itself uses keep their meaning
        pick = [x for x in pick if not (re.search(r"fn (Some|None|Ok|Err)\(", x) and re.search(r"\b(Some|None|Ok|Err)\b", text))]
        pick = [x for x in pick if not (m := re.search(r"macro_rules! (\w+)", x)) or not re.search(r"\b%s\s*!" % m.group(1), text + structs + body)]
        items += pick
        notes.append("shadowed")
    if rng.random() < .5:
        items += rng.sample(TRAITS, rng.choice([1, 2, len(TRAITS)]))
        notes.append("traits")
    if rng.random() < .6:
        gs = sorted(rng.sample(GENERICS, rng.choice([1, 2, 3, 5])), key=lambda g: 0 if g[0][0] == "'" else 1)
        names = [g[0].split(":")[0].replace("const ", "") for g in gs]
        gs = [g for g in gs if "Sized" not in g[0] or "pub trait Sized {}" not in items]
        names = [g[0].split(":")[0].replace("const ", "") for g in gs]
        gs = [g for g in gs if g[2] is None or g[2] in names]
        names = [g[0].split(":")[0].replace("const ", "") for g in gs]
        if gs and not ("Result" in names and "pub type Result" in " ".join(items)):
            notes.append("generics")
            fields = ""
            for j, (g, n) in enumerate(zip(gs, names)):
                ty = f"&{n} ()" if n[0] == "'" else f"[u8; {n} as usize]" if g[0].startswith("const") else n
                if g[0].startswith("const"):
                    continue
                fields += f", pub(self) ph{j}: ::std::marker::PhantomData<{'*const ' + ty if 'Sized' in g[0] else ty}>"
            where = ""
            if rng.random() < .5 and "pub trait Sized {}" not in items:
                where = " where u8: Copy" + "".join(f", {n}: Sized" for g, n in zip(gs, names) if n[0] != "'" and not g[0].startswith("const") and "Sized" not in g[0]) + rng.choice(["", ","])
            default = ""
            decl = ", ".join(g[0] for g in gs)
            args = ", ".join(g[1] for g in gs)
            structs = re.sub(r"pub struct (\w+) \{(.*?) \}\n", lambda m: f"pub struct {m.group(1)}<{decl}>{where} {{{m.group(2)}{fields} }}\n", structs)
            structs = re.sub(r"impl (\w+) \{", lambda m: f"impl {m.group(1)}<{args}> {{", structs)
            init = "".join(f", ph{j}: ::std::marker::PhantomData" for j, g in enumerate(gs) if not g[0].startswith("const"))
            structs = re.sub(r"(let d = .*?; \w+ \{.*?) \} \} \}", lambda m: m.group(1) + init + " } } }", structs)
    vis = rng.choice(["pub ", "", "pub(crate) ", "pub(self) "])
    structs = structs.replace("pub struct", vis + "struct").replace("derive(askama::Template)", "derive(::askama::Template)")
    where = rng.choice(["module", "module", "function", "const", "macro", "nested"])
    notes.append(where)
    head = "#![allow(dead_code, unused_imports, non_camel_case_types)]\nuse crate::rt::{self, t, filters, En, Item, P2};\n"
    # fields have types of the prelude that may be shadowed: those of the struct are spelt out
    structs = re.sub(r"(?<![\w:'])(String|Vec|Option)\b(?!::)", lambda m: {"String": "::std::string::String", "Vec": "::std::vec::Vec", "Option": "::std::option::Option"}[m.group(1)], structs)
    structs = re.sub(r"(?<![\w:])Result<i64", "::std::result::Result<i64", structs)
    items = "\n".join(items) + "\n"
    inner = items + structs
    run = "pub fn run() {\n" + body + "}\n"
    if where == "module":
        rs = head + inner + run
    elif where == "function":
        rs = head + "pub fn run() {\n" + inner + body + "}\n"
    elif where == "const":
        rs = head + "pub fn run() { const F: fn() = { " + inner + " fn f() {\n" + body + "} f }; F() }\n"
    elif where == "macro":
        rs = head + items + "macro_rules! define { ($($t:tt)*) => { $($t)* } }\ndefine! { " + structs + " }\n" + run
    else:
        rs = head + "pub mod a { pub mod b { #![allow(unused_imports)] use crate::rt::{self, t, filters, En, Item, P2};\n" + inner + run + "} }\npub fn run() { a::b::run() }\n"
    return rs, notes


# every construct and filter that makes Rust code of its own
EVERYTHING = [("{% import \"@m.html\" as im %}", ""), ("{% include \"@i.html\" %}", "n3"), ("{% macro mm(a, b) %}{{ a }}{{ b }}{% endmacro %}", ""), ("{% call mm(x, 1) %}", "31"), ("{% call im::imp(x) %}", "i3"),
              ("{{ x }}", "3"), ("{{ x + 1 }}{{ -1 }}", "4-1"), ("{% if x == 3 %}a{% else if x > 5 %}b{% else %}c{% endif %}", "a"), ("{% if x == 4 %}a{% else %}c{% endif %}", "c"),
              ("{% for y in 0..x %}{{ y }}{% endfor %}", "012"), ("{% for y in [5, 6] %}{{ loop.index }}{{ loop.index0 }}{{ loop.first }}{{ loop.last }}{{ loop.cycle([8, 9]) }}{{ y }}{% else %}z{% endfor %}", "10truefalse8521falsetrue96"),
              ("{% for y in 0..x + 1 if y.count_ones() != 1 %}{% if y == 3 %}{% break %}{% endif %}{{ y }}{% continue %}{% endfor %}", "0"), ("{% for y in 0..0 %}{% else %}e{% endfor %}", "e"), ("{% let z = x + 2 %}{{ z }}", "5"), ("{% let w %}{% let w = 7 %}{{ w }}", "7"),
              ("{% match x %}{% when 3 %}m{% when _ %}o{% endmatch %}", "m"), ("{% filter upper %}a{{ x }}b{% endfilter %}", "A3B"), ("{% filter trim|lower %} Q {% endfilter %}", "q"), ("{% block bb %}k{{ x }}{% endblock %}", "k3"),
              ("{% raw %}{{ r }}{% endraw %}", "{{ r }}"), ("{# c #}", ""), ("{{ \"<\" }}{{ \"<\"|safe }}{{ \"<\"|escape }}{{ \"<\"|e }}{{ \"<\"|escape(\"none\") }}", "&lt;<&lt;&lt;<"),
              ("{{ x|fmt(\"{:03}\") }}", "003"), ("{{ \"{:02}-{}\"|format(x, x) }}", "03-3"), ("{{ [1, 2]|join(\"+\") }}", "1+2"), ("{{ \"ab c\"|title }}", "Ab C"), ("{{ \"ab\"|capitalize }}", "Ab"), ("{{ \"ab\"|upper|lower }}", "ab"),
              ("{{ \"abcdef\"|truncate(2) }}", "ab..."), ("{{ \"a\"|center(3) }}", " a "), ("{{ \"a\\nb\"|indent(1) }}", "a\n b"), ("{{ \"a b\"|wordcount }}", "2"), ("{{ \"a b\"|urlencode }}", "a%20b"), ("{{ \"a/b\"|urlencode_strict }}", "a%2Fb"),
              ("{{ \"a\"|linebreaks|safe }}{{ \"a\\nb\"|linebreaksbr|safe }}{{ \"a\"|paragraphbreaks|safe }}", "<p>a</p>a<br/>b<p>a</p>"), ("{{ x|as_ref|deref }}", "3"), ("{{ 1000|filesizeformat }}", "1 kB"), ("{{ x.clone()|into_f64 }}{{ x.clone()|into_isize }}{{ 4i32|abs }}", "334"),
              ("{{ (x, 1).0 }}{{ [x, 1][1] }}{{ self.x }}{{ x.clone() }}{{ x.max(4) }}", "31334"), ("{{ 'c' }}{{ \"s\" }}{{ 1.5 }}{{ true }}{{ !false }}", "cs1.5truetrue"), ("{{ x > 1 && x < 4 || x == 9 }}", "true"),
              ("{{ [1, 2]|join(\"-\") }}{{ crate::rt::t::n(3i64) }}", "1-23"), ("{{ crate::rt::t::ok(9, 5)? }}{{ (crate::rt::t::ok(9, 6)?) + 1 }}", "57"), ("{% let (u, v) = (x, 1) %}{{ v }}{{ u }}", "13"), ("{% if let (3, q) = (x, 8) %}{{ q }}{% endif %}", "8"),
              ("{% match (x, 1) %}{% when (5, _) %}l{% when (3, q) %}r{{ q }}{% when _ %}o{% endmatch %}", "r1"), ("{% for (i, y) in [(1, 2), (3, 4)] %}{{ i }}{{ y }}{% endfor %}", "1234"), ("{% for y in [1, 2, 3].iter() %}{{ y }}{% endfor %}", "123"),
              ("{{ x|wrap(1)|safe }}{{ \"<\"|tag }}", "[3:1]&lt;i&gt;&lt;&lt;/i&gt;"), ("{{ crate::tm!(9, 3i64) }}", "3"), ("{{ \"a\" }}{{ \"a\" }}{{ x }}{{ x }}", "aa33"), ("{% filter wrap(2)|safe %}{% for y in 0..2 %}{{ y }}{% endfor %}{% endfilter %}", "[01:2]")]

# methods that generated code could call by their names only
METHODS = ["into", "from", "try_into", "iter", "filter", "count", "take_while", "enumerate", "peekable", "next", "skip", "cycle", "write_str", "write_char", "write_fmt", "write", "clone", "to_string", "to_owned", "fmt", "as_ref", "as_str", "borrow", "deref", "is_empty", "push_str",
           "unwrap", "map", "map_err", "ok", "branch", "render", "render_into", "render_into_buf", "safe", "escape", "as_bytes", "not", "eq", "cmp", "index", "index0", "first", "last", "get", "by_ref", "try_for_each", "chain", "zip", "rev", "size_hint", "ok_or", "call", "file_size", "sum"]
assert len(METHODS) % 3, "each method is to have each kind of `self`"


def blanket(m):
    """A trait with such a method, that everything implements"""
    return [f"pub trait Ext_{m}{j} {{ fn {m}({s}) {{}} }}\nimpl<T: ?::std::marker::Sized> Ext_{m}{j} for T {{}}" if s != "self" else f"pub trait Ext_{m}{j}: ::std::marker::Sized {{ fn {m}(self) {{}} }}\nimpl<T> Ext_{m}{j} for T {{}}" for j, s in enumerate(["self", "&self", "&mut self"])]


def fixed():
    """Each name on its own"""
    cases = []
    for j, (item, ident) in enumerate([(x, None) for x in SHADOWS] + [("#[allow(non_snake_case)] pub fn Some() {}", "the-name-Some"), ("#[allow(non_snake_case)] pub fn None() {}", "the-name-None"), ("pub trait Sized {}", "the-name-Sized"),
                                                                              ("pub struct bool;", None)] + [("\n".join(blanket(METHODS[i % len(METHODS)])[i % 3] for i in range(k, k + 4)), None) for k in range(0, 3 * len(METHODS), 4)] + [(z, "the-method-" + m) for m in ("into_iter", "len") for z in blanket(m)] + [(f"pub struct {t};", None) for t in ("usize", "isize", "u8", "u32", "i32", "i64", "str", "char", "f64")]):
        n = f"n{j}"
        f = n if ident == "the-name-None" else f"{n}.html"
        parts = [(a, b) for a, b in EVERYTHING if "Ext_" not in item or not any("." + m + "(" in a for m in re.findall(r"Ext_([a-z0-9_]+?)\d ", item))]
        rs = f"{item}\nuse crate::rt::{{self, filters}};\n#[derive(::askama::Template)]\n#[template(path = \"{f}\")]\npub struct T {{ x: ::std::primitive::u8 }}\npub fn run() {{ rt::exec_as(\"{n}\", 0, \"render\", &T {{ x: 3 }}); }}\n"
        cases.append(Case(n, {f: "".join(a for a, _ in parts), f"{n}m.html": "{% macro imp(a) %}i{{ a }}{% endmacro %}", f"{n}i.html": "n{{ x }}"}, rs.replace("@", n), {(0, "render"): ("ok", "".join(b for _, b in parts), None)}, rs, ident=ident))
        cases[-1].files[f] = cases[-1].files[f].replace("@", n)
    return cases


def main(ctx):
    ctx.rules.append("random templates (all constructs, several files, inheritance) derived in varied contexts: modules that shadow names of the prelude, of std, of askama and of macros; imported and blanket traits; types with lifetimes, type and const parameters, "
                     "bounds and where clauses; inside functions, constants, macros; each visibility; editions 2018, 2021, 2024; unsafe code forbidden: accepted, and rendered as the reference interpreter says")
    insts = instances(ctx.rng("data"), 2)
    for e in EDITIONS:
        cases = []
        for i in range(ctx.scale(220, 2500)):
            def make(t):
                rng = ctx.rng(f"{e}/{i}/{t}")
                g = Multi(rng, f"c{i}", trace=.1, ws=.1, esc=.1, depth=3, edepth=2, max_nodes=40, width=4, space=.05, macros=2, includes=rng.random() < .4,
                          filters=["upper", "lower", "trim", "capitalize", "wrap", "tag", "len", "rev", "center", "wordcount", "linebreaks", "title", "indent", "truncate"])
                if rng.random() < .35:
                    f = g.hierarchy(rng.choice([1, 2]))
                else:
                    pre, call = g.preamble(g.cur_dir)
                    g.callable = call
                    f = g.new_file(pre + g.body(3, 3, 8, scope=False), g.cur_dir)
                files = g.texts()
                if g.ambiguous:
                    return None
                name = f"c{i}"
                rs, notes = context(ctx.rng(f"{e}/{i}/context"), "".join(files.values()), struct_rs("T", f'path = "{f.path}"'), run_rs(name, "T", len(insts)))
                for n in notes:
                    ctx.add("context_" + n)
                return Case(name, files, rs, interpret(f, insts), "\n".join(f"--- {p}\n{t}" for p, t in files.items()) + "\n" + rs)
            cases.append(retry(make))
        cases += fixed()
        if e == EDITIONS[0]:
            for c in cases[:2]:
                ctx.sample(show_case(c))
        run_cases(ctx, cases, data_rs(insts), tag=e + "-", edition=e, crate_attrs="#![forbid(unsafe_code)]", nontrivial=lambda c, i, e: bool(e[1]))
        ctx.add("edition_" + e, len(cases))


run_check("C28", main)
