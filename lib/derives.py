"""Items, attributes and configurations for the monitor of the derive macro (C22)."""
import re

GOOD = '''[general]
dirs = ["templates", "does/not/exist"]
whitespace = "minimize"
default_syntax = "default"

[[syntax]]
name = "foo"
block_start = "%{"
comment_start = "#{"
expr_end = "^^"

[[syntax]]
name = "bar"
block_start = "%%"
block_end = "%%"
comment_start = "%#"
expr_start = "%{"

[[escaper]]
path = "::askama::Html"
extensions = ["tex", ""]
'''
CONFIGS = {"good.toml": GOOD, "empty.toml": "", "bad.toml": "[general\n", "latin.toml": b"[general]\n# \xff\n", "sub/askama.toml": GOOD}

# (item, is it one that templates are documented for?)
ITEMS = [("pub struct T;", True), ("pub struct T { pub a: u8, r#type: String }", True), ("struct T(u8, u8);", True), ("pub(crate) struct T<'a, X: ::std::fmt::Display + 'a, const N: usize>(&'a [X; N]) where X: Clone;", True),
         ("struct T<X: ?Sized>(Box<X>);", True), ("struct T<X = u8>(X);", True), ("struct T<const N: usize = 3>;", True), ("/// Doc\n#[derive(Clone, Debug)]\n#[allow(dead_code)]\npub struct T { _a: () }", True), ("struct T<'a, 'b: 'a>(&'a &'b str);", True),
         ("struct T {}", True), ("struct T();", True), ("struct T<'askama>(&'askama str);", True), ("struct T<F>(F) where F: Fn(&str) -> String;", True), ("struct T where u8: Copy { a: u8 }", True),
         ("enum T { A, B(u8) }", None), ("enum T {}", None), ("#[derive(Clone, Copy)] union T { a: u8, b: i8 }", None)]
TEXTS = {"a": True, "": True, "{{ 1 }}": True, "{% block b %}x{% endblock %}": True, "{% if true %}y{% endif %}": True, "\\\"{}\u65e5\n": True, "{% for i in 0..3 %}{{ loop.index }}{% endfor %}": True,
         "{{": False, "{% if %}": False, "{% block b %}": False, "{{ \"a }}": False, "{% extends \"nope\" %}": False, "{{ 1|escape(\"q\") }}": False, "{% break %}": False, "{% call m() %}": False, "%{ if true %}x%{ endif %}": True}
ESC = {"html", "htm", "svg", "xml", "j2", "jinja", "jinja2", "md", "none", "txt", "typ", "yml", ""}


def lit(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


# values of attributes that are no strings, or that need a look
ODD = ["1", "true", "1.5", "'a'", "b\"x\"", "c\"x\"", "x", "x::y", "concat!(\"a\", \"b\")", "(\"a\")", "[\"a\"]", "-1", "\"a\" + \"b\"", "&\"a\"", "{ \"a\" }", "stringify!(a)", "|| 1", "1u8", "b'a'", "\"a\".len()", "async {}", "if true { \"a\" } else { \"b\" }"]


def attributes(rng, n):
    """[(name, files, source of the item, description, verdict)]"""
    res = []
    for i in range(n):
        name = f"at{i}"
        files = {f"{name}.html": "{% block b %}x{% endblock %}", f"{name}.txt": "{{ 1 }}", f"{name}plain": "a", f"{name}.odd": "a", f"{name}/c.html.j2": "a", f"{name}/broken.html": "{% if %}", f"{name}/latin.html": b"\xff\xfe", f"{name}/nul.txt": "a\0b",
                 f"{name}/a b.html": "a", f"{name}/\u65e5\u672c.html": "a"}
        args, want, ext_of, has_block, cfg = [], True, None, False, None
        broken = False  # the text, as read with the default delimiters
        bad = lambda: rng.random() < .12

        def fail():
            nonlocal want
            want = False

        def unknown():
            nonlocal want
            if want:
                want = None
        syntax = None
        src = rng.choice(["path", "path", "source", "source", "source", "both", "none"]) if bad() else rng.choice(["path", "source"])
        if src in ("none", "both"):
            fail()
        text = ""
        if src in ("path", "both"):
            p = rng.choice([f"{name}.html", f"{name}.txt", f"{name}plain", f"{name}/c.html.j2", f"./{name}.html", f"{name}/../{name}.html", f"{name}/a b.html", f"{name}/\u65e5\u672c.html", f"{name}/nul.txt"])
            ext_of = p.rsplit(".", 1)[1] if "." in p.rsplit("/", 1)[1 if "/" in p else 0] else ""
            has_block = p.endswith(name + ".html")
            if bad():
                p = rng.choice(["", ".", "..", "/", "nope.html", "a\0b", f"{name}.odd", f"{name}/broken.html", f"{name}/latin.html", "/dev/null", "x" * 5000, "\u202e", f"{name}.html/", f"{name}.html/x"])
                if p == f"{name}.odd":
                    ext_of = "odd"
                elif p == "/dev/null":
                    unknown()
                    ext_of, has_block = "", False
                elif p == f"{name}.html/":
                    unknown()
                elif p == f"{name}/broken.html":
                    broken = True
                else:
                    fail()
            args.append(("path", lit(p)))
        if src in ("source", "both"):
            text = rng.choice([t for t in TEXTS if TEXTS[t]]) if not bad() else rng.choice(sorted(TEXTS))
            broken |= not TEXTS[text]
            has_block = text == "{% block b %}x{% endblock %}"
            args.append(("source", rng.choice([lit(text), 'r###"' + text + '"###'])))
        ext = None
        if src == "source" and not bad() or rng.random() < .2:
            ext = rng.choice(["html", "txt", "", "md", "html.j2", "j2", "none", "typ"] + (["odd", "a/b", "..", "\u65e5", "a b", "\0", ".", "tex"] if bad() else []))
            args.append(("ext", lit(ext)))
            if src == "source":
                ext_of = ext.rsplit(".", 1)[1] if "." in ext else ext
                if ext in ("a/b", "..", ".", "\0"):
                    unknown()
        elif src == "source":
            fail()
        if rng.random() < .25:
            cfg = rng.choice(["good.toml", "good.toml", "empty.toml", "sub/askama.toml"] + (["bad.toml", "latin.toml", "nope.toml", "", ".", "sub", "a\0b"] if bad() else []))
            args.append(("config", lit(cfg)))
            if cfg in ("bad.toml", "latin.toml", "nope.toml", "a\0b"):
                fail()
            elif cfg in ("", ".", "sub"):
                unknown()
        good = cfg in ("good.toml", "sub/askama.toml")
        esc = None
        if rng.random() < .25:
            esc = rng.choice(sorted(ESC - {""}) + [""] + (["odd", "HTML", "tex", "\0"] if bad() else []))
            args.append(("escape", lit(esc)))
        if ext_of is not None or esc is not None:
            e = esc if esc is not None else ext_of
            if e not in ESC and not (good and e == "tex"):
                fail() if want is not None else unknown()
        if rng.random() < .2:
            syntax = rng.choice(["default"] + (["foo", "bar"] if good else []) + (["nope", "", "Default"] if bad() else []))
            args.append(("syntax", lit(syntax)))
            if syntax in ("nope", "", "Default"):
                fail()
            elif syntax != "default":
                # other delimiters: tags are text, or the other way round
                unknown()
        if rng.random() < .2:
            b = rng.choice(["b"] if not bad() else ["nope", "", "b ", "B"])
            args.append(("block", lit(b)))
            if b != "b" or not has_block:
                broken = True
        if rng.random() < .12:
            w = rng.choice(["preserve", "suppress", "minimize"] + (["", "Preserve", "x"] if bad() else []))
            args.append(("whitespace", lit(w)))
            if w in ("", "Preserve", "x"):
                fail()
        if rng.random() < .1:
            pr = rng.choice(["none", "all", "ast", "code"] + (["", "All", "x"] if bad() else []))
            args.append(("print", lit(pr)))
            if pr in ("", "All", "x"):
                fail()
        if broken:
            fail() if syntax in (None, "default") else unknown()
        rng.shuffle(args)
        out = [f"{k} = {v}" for k, v in args]
        if bad() and args:
            j = rng.randrange(len(args))
            how = rng.choice(["odd", "key", "pathkey", "list", "word", "twice", "macro", "extra", "commas"])
            k, v = args[j]
            if how == "odd":
                out[j] = f"{k} = {rng.choice(ODD)}"
                fail()
            elif how == "key":
                out.append(f'{rng.choice(["nope", "Path", "r#type", "_", "sources", "escaping", "template"])} = "x"')
                fail()
            elif how == "pathkey":
                out[j] = f"{rng.choice(['a::' + k, '::' + k, k + '::b', 'self::' + k])} = {v}"
                fail()
            elif how == "list":
                out[j] = f"{k}({v})"
                fail()
            elif how == "word":
                out[j] = k
                fail()
            elif how == "twice":
                out.append(f"{k} = {v}")
                if k in ("path", "source"):
                    fail()
                else:
                    unknown()
            elif how == "extra":
                out.append(rng.choice(["1", "\"x\"", "+", "()", "=", "= 1", "a = ", "#", ";", "a = b = c", "if"]))
                fail()
            elif how == "commas":
                out.append("")
                if rng.random() < .4:
                    out.append("")
                    fail()
        attr = f"#[template({', '.join(out)})]"
        if bad():
            how = rng.choice(["none", "empty", "two", "word", "value", "braces", "brackets", "cfg_attr", "path", "two-bad", "inner"])
            if how == "none":
                attr = ""
                fail()
            elif how == "empty":
                attr = "#[template()]"
                fail()
            elif how == "two":
                attr += "\n" + rng.choice([attr, '#[template(source = "x", ext = "txt")]', "#[template]"])
                fail()
            elif how == "word":
                attr = "#[template]"
                fail()
            elif how == "value":
                attr = '#[template = "x"]'
                fail()
            elif how == "braces":
                attr = f"#[template{{{', '.join(out)}}}]"
            elif how == "brackets":
                attr = f"#[template[{', '.join(out)}]]"
            elif how == "cfg_attr":
                attr = f"#[cfg_attr(all(), template({', '.join(out)}))]"
            elif how == "path":
                attr = f"#[askama::template({', '.join(out)})]"
                fail()
        item, known = rng.choice(ITEMS) if rng.random() < .4 else ITEMS[0]
        if not known:
            unknown()
        wrap = rng.random()
        rs = f"#[derive(askama::Template)]\n{attr}\n{item}\n"
        if wrap < .06:
            rs = f"pub fn inner() {{ {rs} }}\n"
        elif wrap < .12 and want is True and [k for k, v in args if k == "source"]:
            # values from a macro arrive in groups
            j = [k for k, v in args].index("source")
            k, v = args[j]
            out2 = list(out)
            if out2[j] == f"{k} = {v}":
                out2[j] = f"{k} = $l"
                rs = f"macro_rules! mk {{ ($l:literal) => {{ #[derive(askama::Template)]\n#[template({', '.join(out2)})]\n{item} }} }}\nmk!({v});\n"
        elif wrap < .15:
            rs = "use std::fmt::Write as _; use askama::Template as _;\npub type Result<T> = T; pub enum Option { Some }\n" + rs
        verdict = {True: "accept", False: "reject", None: None}[want]
        res.append((name, {k: v for k, v in files.items()}, rs, "", verdict))
    return res


def simple_item(case, name, files, rs, info, want):
    return case(name, files, rs, info + "\n" + rs + f"\nexpected: {want}", want)


# -- configurations ------------------------------------------------------------------------------


TABLE = [
    ("", "accept"), ("\n# nothing\n", "accept"), ("[general]\n", "accept"), ("[general]\r\nwhitespace = \"suppress\"\r\n", "accept"), (GOOD, "accept"), ("[general]\ndirs = [\"templates\", \"templates\", \"x\"]\n", "accept"),
    ("general = { whitespace = \"preserve\" }\n", "accept"), ("[[syntax]]\nname = \"a\"\n", "accept"), ("[[escaper]]\npath = \"askama::Text\"\nextensions = []\n", "accept"),
    ("syntax = []\nescaper = []\n", "accept"), ("[general]\ndefault_syntax = \"default\"\n", "accept"),
    ("[general]\nwhitespace = \"x\"\n", "reject"), ("[general]\nwhitespace = 1\n", "reject"), ("[general]\nwhitespace = \"Preserve\"\n", "reject"), ("[general]\ndirs = \"templates\"\n", "reject"), ("[general]\ndirs = [1]\n", "reject"),
    ("[general]\ndefault_syntax = \"x\"\n", "reject"), ("[general]\ndefault_syntax = 1\n", "reject"), ("[general]\n[general]\n", "reject"), ("[general]\ndirs = []\ndirs = []\n", "reject"), ("[[syntax]]\n", "reject"), ("[syntax]\nname = \"a\"\n", "reject"),
    ("[[syntax]]\nname = \"a\"\n[[syntax]]\nname = \"a\"\n", "reject"), ("[[syntax]]\nname = \"default\"\n", "reject"), ("[[syntax]]\nname = \"a\"\nblock_start = \"x\"\n", "reject"), ("[[syntax]]\nname = \"a\"\nblock_start = \"{{\"\n", "reject"),
    ("[[syntax]]\nname = \"a\"\nexpr_start = \"{%{\"\n", "reject"), ("[[syntax]]\nname = \"a\"\nblock_start = \"a b\"\n", "reject"), ("[[syntax]]\nname = \"a\"\nblock_start = \"\"\n", "reject"), ("[[escaper]]\npath = \"x\"\n", "reject"),
    ("[[escaper]]\nextensions = [\"x\"]\n", "reject"), ("[[escaper]]\npath = 1\nextensions = []\n", "reject"), ("[general\n", "reject"), ("general]\n", "reject"), ("=\n", "reject"), ("\x00", "reject"), ("[general]\nwhitespace = \"preserve\n", "reject"),
    ("general = 1\n", "reject"), ("syntax = 1\n", "reject"), ("a" * 100000, "reject"), ("[" * 20000, "reject"), ("x = " + "[" * 100, "reject"), ("x" + ".x" * 100 + " = 1\n", None), ("x = " + "{ a = " * 5000, "reject"),
    # escapers that are no paths
    ("[[escaper]]\npath = \"\"\nextensions = [\"html\"]\n", None), ("[[escaper]]\npath = \"(\"\nextensions = [\"html\"]\n", None), ("[[escaper]]\npath = \"a b\"\nextensions = [\"html\"]\n", None), ("[[escaper]]\npath = \"\\\"\"\nextensions = [\"html\"]\n", None),
    ("[[escaper]]\npath = \"/*\"\nextensions = [\"html\"]\n", None), ("[[escaper]]\npath = \"::no::Such\"\nextensions = [\"html\"]\n", "reject"), ("[[escaper]]\npath = \"}\"\nextensions = [\"html\"]\n", None), ("[[escaper]]\npath = \"\\u0000\"\nextensions = [\"html\"]\n", None),
    ("[[escaper]]\npath = \"\u65e5\"\nextensions = [\"html\"]\n", None), ("[[escaper]]\npath = \"\u201c\"\nextensions = [\"html\"]\n", None), ("[[escaper]]\npath = \"'\"\nextensions = [\"html\"]\n", None), ("[[escaper]]\npath = \"1e\"\nextensions = [\"html\"]\n", None),
    # directories
    ("[general]\ndirs = []\n", "reject"), ("[general]\ndirs = [\"\"]\n", "reject"), ("[general]\ndirs = [\"nope\"]\n", "reject"), ("[general]\ndirs = [\"/\"]\n", "reject"), ("[general]\ndirs = [\"a\\u0000b\"]\n", "reject"), ("[general]\ndirs = [\"..\", \"templates\"]\n", "accept"),
    ("[general]\ndirs = [\"templates/@.html\"]\n", "reject"), ("[general]\ndirs = [\"./templates/../templates/.\"]\n", "accept"),
]


def configurations(rng, n, simple):
    """(cases, {config file: text})"""
    cases, files = [], {}

    def add(text, want):
        k = len(cases)
        name = f"cf{k}"
        text = text.replace("@", name)
        files[f"{name}.toml"] = text
        syn = re.findall(r'name = "(\w+)"', text)
        extra = f', syntax = "{rng.choice(syn)}"' if syn and want is None and rng.random() < .4 else ""
        c = simple(name, {f"{name}.html": "a{{ 1 }}{# x #}{% if true %}b{% endif %}%{ c ^^"}, f'path = "{name}.html", config = "{name}.toml"' + extra, want, text[:1500] + f"\nexpected: {want}")
        cases.append(c)
    for text, want in TABLE:
        add(text, want)
    texts = [t for t, _ in TABLE if 5 < len(t) < 1000] + [GOOD] * 20
    while len(cases) < n:
        toks = re.findall(r"\w+|\s|[^\w\s]", rng.choice(texts))
        for _ in range(rng.choice([1, 1, 2, 5])):
            i, j = rng.randrange(len(toks)), rng.randrange(len(toks))
            how = rng.choice(["drop", "double", "swap", "odd"])
            if how == "drop" and len(toks) > 1:
                del toks[i]
            elif how == "double":
                toks.insert(i, toks[j])
            elif how == "swap":
                toks[i], toks[j] = toks[j], toks[i]
            else:
                toks[i] = rng.choice(["\"", "'", "[", "]", "[[", "{", "}", "=", ",", "\n", "\\", "\\u0000", "1", "true", "\u65e5", "{{", "{%", "#}", "\"\"\"", "'''", "1979-05-27", "nan", "\x7f", "\t", " "])
        add("".join(toks), None)
    return cases, files


# -- programs of the documentation -------------------------------------------------------------------


DOC = [
    ("{{ crate::data::inst(0).k }}{% set value = 4 %}{% if value > Self::MAX %}<p>{{ value }}</p>{% else %}<p>{{ value }}</p>{% endif %}", ""),
    ("{% let name = user.name %}\n{% let len = name.len() %}\n\n{% let val -%}\n{% if len == 0 -%}\n  {% let val = \"foo\" -%}\n{% else -%}\n  {% let val = name -%}\n{% endif -%}\n{{ val }}", ""),
    ("{% let foo = \"bar\" %}\n{{ foo }}\n\n{% let foo = \"baz\" %}\n{{ foo }}", ""),
    ("{% filter lower %}\n    {{ t }} / HELLO / {{ u }}\n{% endfilter %}", ""), ("{% filter lower|capitalize %}\n    {{ t }} / HELLO / {{ u }}\n{% endfilter %}", ""),
    ("{% if foo %}\n  {{- bar -}}\n{% else -%}\n  nothing\n{%- endif %}", ""), ("<a href=\"/\" {#+ #}\n   class=\"something\">text</a>", ""), ("{% if something ~%}\nHello\n{%~ endif %}", ""),
    ("{{ func(123) }}", ""), ("{{ self::foo(123) }}", ""), ("{{ Self::method(self, 123) }}", ""), ("{{ Self::greet(\"world\") }}", ""), ("{{ self.method(3) }}{{ method(self, 3) }}".replace("{{ method(self, 3) }}", ""), ""),
    ("<h1>Users</h1>\n<ul>\n{% for user in users %}\n  <li>{{ user.name|e }}</li>\n{% endfor %}\n</ul>", ""),
    ("{% for user in users %}\n   {% if loop.first %}\n   <li>First: {{user.name}}</li>\n   {% else %}\n   <li>User#{{loop.index}}: {{user.name}}</li>\n   {% endif %}\n{% endfor %}", ""),
    ("{% if users.len() == 0 %}\n  No users\n{% else if users.len() == 1 %}\n  1 user\n{% elif users.len() == 2 %}\n  2 users\n{% else %}\n  {{ users.len() }} users\n{% endif %}", ""),
    ("{% if let Some(user) = maybe %}\n  {{ user.name }}\n{% else %}\n  No user\n{% endif %}", ""),
    ("{% match item %}\n  {% when Some with (\"foo\") %}\n    Found literal foo\n  {% when Some with (val) %}\n    Found {{ val }}\n  {% when None %}\n{% endmatch %}", ""),
    ("{{ 3 * 4 / 2 }}{{ 26 / 2 % 7 }}{{ 3 % 2 * 6 }}{{ 1 * 2 + 4 }}{{ 11 - 15 / 3 }}{{ 4 + 5 % 3 }}{{ 4 | 2 + 5 & 2 }}", ""), ("Section 1: {{ inner }}", ""), ("{# A Comment #}", ""), ("{#\nA Comment\n{# A nested comment #}\n#}", ""),
    ("{% macro heading(arg) %}\n\n<h1>{{arg}}</h1>\n\n{% endmacro %}\n\n{% call heading(t) %}", ""), ("{% macro heading(arg) %}<p>{{arg}}</p>{% endmacro heading %}{% call heading(t) %}", ""),
    ("{% macro heading(arg, bold) %}\n\n<h1>{{arg}} <b>{{bold}}</b></h1>\n\n{% endmacro %}\n\n{% call heading(bold=\"something\", arg=\"title\") %}{% call heading(bold = \"something\", arg = \"title\") %}{% call heading(\"title\", bold=\"something\") %}", ""),
    ("{% macro heading(arg1, arg2, arg3, arg4) %}\n{% endmacro %}\n\n{% call heading(\"something\", \"b\", arg4=\"ah\", arg3=\"title\") %}", ""),
    ("{% let s = format!(\"{}\", 12) %}{{ s }}", ""), ("{% let entity = t %}{{ test_macro!(entity) }}", ""), ("{% set x = 12 %}", ""), ("{% set x = 12 %}\n{% let y = x + 1 %}{{ y }}", ""), ("{{ crate::rt::t::i(1, 2) }}{{ self::FOO }}{{ super::doc_marker() }}", ""),
    ("{% for user in users if user.name.len() > 2 %}\n    {{ user.name }}\n{% else %}\n    {{ t }}\n{% endfor %}", ""), ("{{ -2|abs }}", ""), ("{{ \"a\"|indent(4) }}{{ \"a\"|indent(4)|capitalize }}", ""),
    ("{{ \"HELLO\"|lower }}", ""), ("{{ self.t|as_ref }}", ""), ("-{{ \"a\"|center(5) }}-", ""), ("{% let s = String::from(\"a\")|as_ref %}\n{% if s|deref == String::from(\"b\") %}\n{% endif %}", ""), ("{{ \"Escape <>&\"|e }}{{ \"x\"|escape(\"html\") }}{{ \"x\"|e(\"none\") }}", ""),
    ("{{ 1000|filesizeformat }}", ""), ("{{ t|fmt(\"{:?}\") }}{{ t|capitalize|fmt(\"{:?}\") }}{{ \"{:?}\"|format(t) }}", ""), ("{{ array|join(\", \") }}", ""), ("{{ \"hello\\nworld\\n\\nfrom\\naskama\"|linebreaks }}{{ t|linebreaksbr }}{{ t|paragraphbreaks }}", ""),
    ("{{ \"<p>I'm Safe</p>\"|safe }}{{ t|title }}{{ \" hello \"|trim }}{{ \"hello\"|truncate(2) }}{{ t|upper }}{{ t|uppercase }}{{ t|lowercase }}{{ \"hello?world\"|urlencode }}{{ t|urlencode_strict }}{{ t|wordcount }}", ""),
    ("<li data-extra=\"{{array|json}}\">…</li><li data-extra='{{array|json|safe}}'>…</li>{{ 1|into_f64 }}{{ 1|into_isize }}", ""), ("{{ t|wrap }}{{ t|tag(\"b\") }}".replace("{{ t|tag(\"b\") }}", ""), ""),
    ("{% raw %}{{ no }}{% if %}{% endraw %}", ""), ("{%- let a = 1 -%}{%+ if a == 1 +%} x {%~ endif ~%}", ""), ("{% for (a, b) in pairs %}{{ a }}{{ b }}{% endfor %}{% for i in 0..3 %}{{ loop.cycle([1, 2]) }}{% if i == 1 %}{% break %}{% endif %}{% continue %}{% endfor %}", ""),
    ("{{ array[0] }}{{ array[1..].len() }}{{ (1, 2).0 }}{{ [1, 2].len() }}{{ !true && false || (1 < 2) }}{{ 'c' }}{{ 1.5 }}{{ 0x1f }}{{ 1_000u64 }}".replace("{{ 0x1f }}", ""), ""), ("{{ self.fallible()? }}", ""),
    ("{% match item %}{% when Some(\"a\") or Some(\"b\") %}1{% when Some(_) %}2{% else %}3{% endmatch %}".replace("Some(_)", "Some with (_x)"), ""),
    ("{% block title %}{{ t }} - My Site{% endblock %}{% block content %}<p>Placeholder content</p>{% endblock content %}", ', block = "content"'),
]
DOC_ITEM = '''
pub const FOO: u32 = 0;
pub fn foo(val: u32) -> String { format!("{}", val) }
#[derive(Clone)] pub struct User { pub name: String }
pub struct Named { pub name: &'static str }
#[derive(askama::Template)] #[template(source = "A={{ a }}\\nB={{ b }}", ext = "txt")] pub struct Inner<'a> { a: &'a str, b: &'a str }
#[derive(askama::Template)]
#[template(@)]
pub struct T<'a> { t: &'a str, u: String, user: Named, users: Vec<User>, maybe: Option<User>, item: Option<&'a str>, foo: bool, bar: u8, something: bool, func: fn(u32) -> String, inner: Inner<'a>, array: &'a [&'a str], pairs: Vec<(u8, String)>, count: u32 }
trait Hello { fn greet(name: &str) -> String; }
impl Hello for T<'_> { fn greet(name: &str) -> String { format!("Hello {}", name) } }
impl T<'_> { const MAX: usize = 2; fn method(&self, val: u32) -> String { format!("{} {}", self.count, val) } fn fallible(&self) -> Result<u8, std::fmt::Error> { Ok(1) } }
macro_rules! test_macro { ($entity:expr) => { format!("{:?}", &$entity) } }
pub(crate) use test_macro;
mod filters { pub fn wrap<T: std::fmt::Display>(s: T) -> ::askama::Result<String> { Ok(s.to_string()) } }
'''


def documented(case):
    res = []
    for i, (text, more) in enumerate(DOC):
        text = text.replace("{{ super::doc_marker() }}", "").replace("crate::data::inst(0).k", "crate::rt::t::i(1, 2)")
        for j, (attr, files) in enumerate([(f'path = "doc{i}.html"' + more, {f"doc{i}.html": text}), (f'source = {lit(text)}, ext = "txt"' + more, {})]):
            n = f"doc{i}x{j}"
            f = {k.replace(f"doc{i}", n): v for k, v in files.items()}
            res.append(case(n, f, DOC_ITEM.replace("@", attr.replace(f"doc{i}.", n + ".")), text, "accept"))
    sets = [({"d@/base.html": "<title>{% block title %}{{ title }}{% endblock %}</title>{% block head %}{% endblock %}{% block content %}<p>Placeholder</p>{% endblock %}",
              "d@/a.html": "{% extends \"base.html\" %}\n\n{% block title %}Index{% endblock %}\n\n{% block head %}\n  <style>\n  </style>\n{% endblock %}\n\n{% block content %}\n  <h1>Index</h1>\n  {% call super() %}\n{% endblock %}"}, ""),
            ({"d@/base.html": "{% block content %}{% endblock %}", "d@/a.html": "{%- extends \"base.html\" +%}\n{% block content %}x{% endblock %}"}, ', block = "content"'),
            ({"d@/item.html": "* Item: {{ i }}\n", "d@/a.html": "{% for i in 0..3 %}\n  {% include \"item.html\" %}\n{% endfor %}"}, ""),
            ({"d@/macro.html": "{% macro heading(arg) %}<h1>{{arg}}</h1>{% endmacro %}", "d@/a.html": "{%- import \"macro.html\" as scope -%}\n\n{% call scope::heading(title) %}"}, "")]
    for i, (files, more) in enumerate(sets):
        n = f"dset{i}"
        res.append(case(n, {k.replace("d@", n): v for k, v in files.items()}, f'#[derive(askama::Template)]\n#[template(path = "{n}/a.html"{more})]\npub struct T<\'a> {{ title: &\'a str }}\n', str(files), "reject" if "{%- extends" in str(files) else "accept"))
    return res
