import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from e1 import *
from reject import classify
from syntaxes import rand_syntax, toml
from derives import *


def case(name, files, items, info="", want=None, ident=None):
    c = Case(name, files, items + "\npub fn run() {}\n", {}, info, ident=ident)
    c.want = want
    return c


def simple(name, files, attrs, want=None, info="", body="pub struct T;"):
    text = "\n".join(f"--- {p}\n{t if len(t) < 1500 else t[:700] + ' ... ' + t[-700:]}" for p, t in files.items() if isinstance(t, str))
    return case(name, files, f"#[derive(askama::Template)]\n#[template({attrs})]\n{body}\n", info + "\n" + text + "\n" + attrs, want)


# -- graphs of files ---------------------------------------------------------------------------


# every place of a template that can have further tags in it
CONTAINERS = ["{% if true %}@{% else %}@{% endif %}", "{% if true %}@{% endif %}", "{% if false %}x{% else %}@{% endif %}", "{% if false %}x{% else if true %}@{% endif %}", "{% if false %}x{% else if false %}y{% else %}@{% endif %}",
              "{% if let Some(x) = Some(1) %}@{% endif %}", "{% for i in 0..2 %}@{% endfor %}", "{% for i in 0..2 %}x{% else %}@{% endfor %}", "{% for i in 0..2 if true %}{% for k in 0..1 %}{% else %}@{% endfor %}{% endfor %}",
              "{% match 1 %}{% when 1 %}@{% when _ %}x{% endmatch %}", "{% match 1 %}{% when 1 %}x{% else %}@{% endmatch %}", "{% filter upper %}@{% endfilter %}", "{% filter lower|trim %}{% if true %}x{% else %}@{% endif %}{% endfilter %}"]


def graph(rng, name):
    """A set of files that refer to each other at random: (files, attributes, verdict)"""
    n = rng.randint(1, 6)
    paths = [f"{name}/f{i}.html" for i in range(n)]
    missing = rng.random() < .15
    acyclic = rng.random() < .4
    files, edges, macro_edges = {}, {i: set() for i in range(n)}, {}
    gone = set()
    macros = {i: [f"m{i}{k}" for k in range(rng.randint(0, 2))] for i in range(n)}

    def target(i):
        if missing and rng.random() < .2:
            gone.add(i)
            return f"{name}/none.html", None
        j = rng.randint(i + 1, n - 1) if acyclic and i + 1 < n else rng.randrange(n) if not acyclic else None
        if j is None:
            return None, None
        edges[i].add(j)
        return rng.choice([paths[j], f"f{j}.html"]), j
    for i in range(n):
        out, scopes = [], {}
        ext = rng.random() < .4
        if ext:
            p, j = target(i)
            if p:
                out.append(f'{{% extends "{p}" %}}')
        for k in range(rng.choice([0, 0, 1, 2])):
            p, j = target(i)
            if p:
                out.append(f'{{% import "{p}" as s{k} %}}')
                scopes[f"s{k}"] = j
        for m in macros[i]:
            body = []
            for _ in range(rng.choice([0, 0, 1, 2])):
                s = rng.choice(sorted(scopes) + [None])
                j = i if s is None else scopes[s]
                if j is None or not macros[j]:
                    continue
                callee = rng.choice(macros[j])
                if acyclic and s is None and callee >= m:
                    continue
                macro_edges.setdefault((i, m), set()).add((j, callee))
                body.append(f"{{% call {s + '::' if s else ''}{callee}() %}}")
            if rng.random() < .2:
                p, j = target(i)
                if p:
                    body.append(rng.choice(CONTAINERS).replace("@", f'{{% include "{p}" %}}'))
            out.append(f"{{% macro {m}() %}}{i}{''.join(body)}{{% endmacro %}}")
        for k in range(rng.randint(0, 4)):
            what = rng.choice(["include", "include", "call", "block", "text", *CONTAINERS])
            inner = "x"
            if what not in ("call", "text") and rng.random() < .7:
                p, j = target(i)
                if p:
                    inner = f'{{% include "{p}" %}}'
            if what == "include":
                out.append(inner)
            elif what == "call":
                s = rng.choice(sorted(scopes) + [None])
                j = i if s is None else scopes[s]
                if j is not None and macros[j]:
                    out.append(f"{{% call {s + '::' if s else ''}{rng.choice(macros[j])}() %}}")
            elif what == "block":
                # (names are shared by the files)
                sup = "{% call super() %}" if rng.random() < .2 else ""
                b = f"b{rng.randint(0, 3)}" if rng.random() < .7 else f"b{i}{k}"
                out.append(f"{{% block {b} %}}{sup}{inner}{{% endblock %}}")
            elif what in CONTAINERS:
                out.append(what.replace("@", inner))
            else:
                out.append(rng.choice(["text", "{{ 1 }}", "\n", "{# c #}", "{% raw %}{{{% endraw %}"]))
        files[paths[i]] = "".join(out)
    reach, todo = set(), [0]
    while todo:
        i = todo.pop()
        if i not in reach:
            reach.add(i)
            todo += edges[i]
    want = None
    # super() and equal names of blocks have rules of their own
    if gone & reach:
        want = "reject"
    elif acyclic and not any("super()" in t for t in files.values()):
        want = "accept"
    else:
        # the first tag of the root decides where it is a chain of `extends` alone
        i, seen = 0, []
        while i not in seen:
            seen.append(i)
            m = re.match(r'\{% extends "(?:\w+/)?f(\d+)\.html" %\}', files[paths[i]])
            if not m:
                break
            i = int(m.group(1))
        else:
            want = "reject"
    return files, f'path = "{paths[0]}"', want


def chains(rng, ctx):
    """Long chains, deep nestings and wide templates: (name, files, attributes, verdict)"""
    res = []
    k = 0

    def add(files, attrs, want, info):
        nonlocal k
        res.append(simple(f"deep{k}", {p.replace("@", f"deep{k}"): t.replace("@", f"deep{k}") for p, t in files.items()}, attrs.replace("@", f"deep{k}"), want, info))
        k += 1
    for n in ctx.scale([2, 40], [2, 10, 40, 100, 300]):
        add({f"@/e{i}.html": f'{{% extends "@/e{i + 1}.html" %}}{{% block b %}}{i}{{% call super() %}}{{% endblock %}}' if i < n else "a{% block b %}base{% endblock %}" for i in range(n + 1)}, 'path = "@/e0.html"',
            "accept" if n <= 40 else None, f"extends, {n} levels")
        add({f"@/i{i}.html": f'{i}{{% include "@/i{i + 1}.html" %}}' if i < n else "end" for i in range(n + 1)}, 'path = "@/i0.html"', "accept" if n <= 40 else None, f"includes, {n} levels")
        add({f"@/m{i}.html": (f'{{% import "@/m{i + 1}.html" as s %}}' if i < n else "") + f"{{% macro m() %}}{i}" + ("{% call s::m() %}" if i < n else "") + "{% endmacro %}{% call m() %}" for i in range(n + 1)},
            'path = "@/m0.html"', "accept" if n <= 40 else None, f"imported macros, {n} levels")
        add({"@/m.html": "".join(f"{{% macro m{i}(a) %}}{{{{ a }}}}" + (f"{{% call m{i + 1}(a) %}}" if i < n else "") + "{% endmacro %}" for i in range(n + 1)) + "{% call m0(1) %}"}, 'path = "@/m.html"',
            "accept" if n <= 40 else None, f"macros, {n} levels")
    nests = [("{% if true %}", "{% endif %}"), ("{% if true %}{% else %}", "{% endif %}"), ("{% for i in 0..1 %}", "{% endfor %}"), ("{% for i in 0..0 %}{% else %}", "{% endfor %}"),
             ("{% match 1 %}{% when 1 %}a{% else %}", "{% endmatch %}"), ("{% filter upper %}", "{% endfilter %}"), ("{% block b# %}", "{% endblock %}"), ("{% if let Some(x) = Some(1) %}{{ x }}", "{% endif %}"),
             ("{# ", " #}"), ("{% for i in 0..1 %}{% if loop.first %}{{ loop.index }}", "{% endif %}{% endfor %}")]
    for a, b in nests:
        for n in ctx.scale([5, 24, 200], [5, 12, 24, 30, 62, 63, 64, 65, 200, 3000]):
            body = "".join(a.replace("#", str(i)) for i in range(n)) + "x" + b * n
            add({"@/a.html": body}, 'path = "@/a.html"', "accept" if n <= 5 or (n <= 24 and a[:4] != "{% f" + "" and a[:8] in ("{% if tr", "{# ")) else None, f"{a} nested {n} times")
    # depth that is made of several files
    for a, b in nests[:5]:
        n, m = ctx.scale((12, 12), (14, 25))
        add({f"@/i{i}.html": a * n + (f'{{% include "@/i{i + 1}.html" %}}' if i < m else "end") + b * n for i in range(m + 1)}, 'path = "@/i0.html"', None, f"{a} nested {n} times in each of {m} includes")
    exprs = [("(", ")"), ("[", "]"), ("!", ""), ("-", ""), ("(1, ", ")"), ("x[", "]"), ("f(", ")"), ("a|f(", ")"), ("vec!(", ")")]
    for a, b in exprs:
        for n in ctx.scale([5, 60], [5, 20, 30, 60, 100, 1000]):
            add({"@/a.html": "{{ " + a * n + "1" + b * n + " }}"}, 'path = "@/a.html"', None, f"{a}{b} nested {n} times")
    for op in ("+", "&&", "|", "<<", "|upper", ".a", "[0]", "()", "::a", "?"):
        for n in ctx.scale([5, 60], [5, 60, 300, 5000]):
            add({"@/a.html": "{{ a" + (f" {op} a" if op in ("+", "&&", "|", "<<") else op) * n + " }}"}, 'path = "@/a.html"', None, f"{op} repeated {n} times")
    for t, want in (("x{{ 1 }}", "accept"), ("{% let a = 1 %}{{ a }}", "accept"), ("{% if true %}a{% endif %}", "accept"), ("{% for i in 0..1 %}{{ i }}{% endfor %}", "accept"), ("{# c #}", "accept"),
                    ("{% raw %}a{% endraw %}", "accept"), ("{% filter upper %}a{% endfilter %}", "accept"), ("{% match 1 %}{% when 1 %}a{% else %}b{% endmatch %}", "accept"), ("\\\"{}\n", "accept"), ("日", "accept")):
        n = ctx.scale(150, 600)
        add({"@/a.html": t * n}, 'path = "@/a.html"', want, f"{t} repeated {n} times")
    add({"@/a.html": "x" * 400000}, 'path = "@/a.html"', "accept", "one long text")
    add({"@/a.html": '{{ "' + "x" * 200000 + '" }}'}, 'path = "@/a.html"', "accept", "one long string")
    add({"@/a.html": "{% let " + "a" * 20000 + " = 1 %}{{ " + "a" * 20000 + " }}"}, 'path = "@/a.html"', "accept", "a long name")
    add({"@/a.html": "{{ " + "9" * 5000 + " }}"}, 'path = "@/a.html"', None, "a long number")
    add({"@/a.html": "{% if false %}{% elif false %}" + "{% elif false %}a" * 300 + "{% else %}b{% endif %}"}, 'path = "@/a.html"', None, "many branches")
    add({"@/a.html": "{% macro m(" + ", ".join(f"a{i}" for i in range(300)) + ") %}{{ a299 }}{% endmacro %}{% call m(" + ", ".join(map(str, range(300))) + ") %}"}, 'path = "@/a.html"', "accept", "many arguments")
    return res


# -- templates with something wrong ------------------------------------------------------------


SNIPPETS = ["{% extends \"@\" %}", "{% include \"@\" %}", "{% import \"@\" as z %}", "{% import \"@\" as lib %}", "{% macro mm() %}a{% endmacro %}", "{% macro mm(a, a) %}{{ a }}{% endmacro %}", "{% macro mm(self) %}{{ self }}{% endmacro %}",
            "{% call mm() %}", "{% call mm(1, 2) %}", "{% call mm(a=1) %}", "{% call mm(1, a=2, b=3) %}", "{% call z::mm() %}", "{% call nope::mm() %}", "{% call super() %}", "{% call super(1) %}", "{% call super %}", "{% break %}", "{% continue %}",
            "{% block content1 %}dup{% endblock %}", "{% block content1 %}a{% block content1 %}b{% endblock %}{% endblock %}", "{% block q %}", "{% endblock %}", "{% endblock nope %}", "{% if p %}", "{% endif %}", "{% else %}", "{% elif p %}", "{% elif let Some(x) = o %}",
            "{% for x in v %}", "{% for (a, b) in v %}", "{% endfor %}", "{% match o %}", "{% when Some with (x) %}", "{% when _ %}", "{% endmatch %}", "{% filter upper %}", "{% filter nope %}", "{% filter upper(1, 2) %}", "{% filter e(\"zz\") %}", "{% filter truncate %}",
            "{% filter safe|escape(\"none\")|json %}", "{% endfilter %}", "{% raw %}", "{% endraw %}", "{% let x %}", "{% let x = 1 %}", "{% let self = 1 %}", "{% let (a, b) = 1 %}", "{% let Some(x) = o %}", "{% let _ = 1 %}", "{% let loop = 1 %}", "{% let crate = 1 %}",
            "{% let super = 1 %}", "{% let r#type = 1 %}", "{% set writer = 1 %}", "{{ loop.index }}", "{{ loop.cycle([1]) }}", "{{ loop.cycle([]) }}", "{{ loop.cycle() }}", "{{ loop.cycle(1, 2) }}", "{{ loop.nope }}", "{{ loop.nope() }}", "{{ loop }}", "{{ super() }}", "{{ caller() }}",
            "{{ self }}", "{{ crate::x }}", "{{ Self }}", "{{ _ }}", "{{ true.x }}", "{{ x|nope }}", "{{ x|join }}", "{{ x|join(1, 2) }}", "{{ x|fmt }}", "{{ x|fmt(1) }}", "{{ x|fmt(x) }}", "{{ x|format }}", "{{ 1|format }}", "{{ \"{\"|format(1) }}", "{{ \"{} {}\"|format(1) }}",
            "{{ x|fmt(\"{\") }}", "{{ x|escape(1) }}", "{{ x|escape(\"a\", \"b\") }}", "{{ x|escape(\"\") }}", "{{ x|e(x) }}", "{{ x|json(1) }}", "{{ x|json(1, 2, 3) }}", "{{ x|abs(1) }}", "{{ x|as_ref(1) }}", "{{ x|deref(1, 2) }}", "{{ x|as_ref }}", "{{ \"\\q\" }}", "{{ \"\\x\" }}", "{{ \"\\u{110000}\" }}",
            "{{ \"\\u{}\" }}", "{{ \"\\\n   a\" }}", "{{ 'ab' }}", "{{ '' }}", "{{ '\\u{0}' }}", "{{ '\\'' }}", "{{ '\\q' }}", "{{ '\\xff' }}", "{{ 1.2.3 }}", "{{ 1..2 }}", "{{ 1..=2 }}", "{{ .. }}", "{{ ..1 }}", "{{ 0x }}", "{{ 1_000 }}", "{{ 1__ }}", "{{ 1e }}", "{{ 1u9 }}", "{{ 99999999999999999999999 }}",
            "{{ 1.0e999 }}", "{{ 1.foo }}", "{{ x.0.1 }}", "{{ x.0x }}", "{{ x.await }}", "{{ x.type }}", "{{ x::<y> }}", "{{ x as u8 }}", "{{ |x| x }}", "{{ &x }}", "{{ *x }}", "{{ {} }}", "{{ x! }}", "{{ x!() }}", "{{ format!(\"{}\", 1) }}", "{{ format!(\"{}\", \"}\") }}", "{{ format!('a') }}", "{{ m!(()) }}",
            "{{ m!(]) }}", "{{ m!(\") }}", "{{ m!(/*) }}", "{{ m!(//) }}", "{{ m!(\\) }}", "{{ m!(`) }}", "{{ m!(#) }}", "{{ m!(\u0001) }}", "{{ m!(\u201c) }}", "{{ m!({) }}", "{{ m!({% if %}) }}", "{{ m!(r#\"\"#) }}", "{{ m!(0b9) }}", "{{ m!('\\) }}", "{{ m!('a) }}",
            "{{ include_str!(\"/nope\") }}", "{{ compile_error!(\"x\") }}", "{{ x? }}", "{{ x?? }}", "{{ x??.y?[0]? }}", "{{ (x,) }}", "{{ () }}", "{{ [] }}", "{{ (,) }}", "{{ [,] }}", "{{ x(,) }}", "{{ \u00e9 }}", "{{ \u65e5\u672c() }}", "{{ e\u0301 }}", "{{ a\u200db }}", "{{ \ud7ff }}", "{{ \U0001f600 }}", "{{", "}}", "{%", "%}", "{#", "#}",
            "{%%}", "{{}}", "{##}", "{%-+%}", "{{-}}", "{#-#}", "{# {# #}", "{% include \"\" %}", "{% include \".\" %}", "{% include \"..\" %}", "{% include \"/\" %}", "{% include \"/dev/null\" %}", "{% include \"a\\\"b\" %}", "{% include nope %}", "{% include \"nope\" %}", "{% import \"\" as z %}", "{% extends \"\" %}",
            "{% extends \".\" %}", "{% import \"nope\" as z %}", "{% call a::b::c() %}", "{% macro self() %}{% endmacro %}", "{% macro fn() %}{% endmacro %}{% call fn() %}", "{% macro super() %}s{% endmacro %}", "{% block self %}{% endblock %}", "{% block type %}{% endblock %}",
            "{% when Self %}", "{% for self in v %}{% endfor %}", "{% for x in x %}{{ x }}{% endfor %}", "{% for x in loop %}{% endfor %}", "{% for _ in v if loop.first %}{% endfor %}", "{% for x in v if x %}{% endfor %}", "{% if let x = x %}{{ x }}{% endif %}", "{% if let Some(x) = x && y %}{% endif %}",
            "{% match x %}{% endmatch %}", "{% match x %}text{% endmatch %}", "{% match x %}{% else %}{% endmatch %}", "{% match x %}{% else %}{% when 1 %}{% endmatch %}", "{% match x %}{% when 1 or 2 %}a{% endmatch %}", "{% match x %}{% when A { b, .. } %}a{% endmatch %}", "{% match x %}{% when a::B with (c, d) %}a{% endmatch %}",
            "{% match x %}{% when (a, (b, c)) or [d] %}{% endmatch %}", "{% match x %}{% when -1 %}{% when \"a\" %}{% when 'c' %}{% when true %}{% when 1.5 %}{% when x %}{% endmatch %}"]


def pieces(text):
    """The template, cut into tags and text"""
    return [p for p in re.split(r"(\{\{.*?\}\}|\{%.*?%\}|\{#.*?#\})", text, flags=re.S) if p]


def mutate(rng, text, others):
    ps = pieces(text)
    for _ in range(rng.choice([1, 1, 2, 4])):
        if not ps:
            break
        i = rng.randrange(len(ps))
        how = rng.choice(["snippet", "snippet", "snippet", "drop", "double", "swap", "foreign", "inner", "inner"])
        if how == "snippet":
            ps.insert(rng.randint(0, len(ps)), rng.choice(SNIPPETS))
        elif how == "drop":
            del ps[i]
        elif how == "double":
            ps.insert(rng.randint(0, len(ps)), ps[i])
        elif how == "swap":
            j = rng.randrange(len(ps))
            ps[i], ps[j] = ps[j], ps[i]
        elif how == "foreign":
            q = pieces(rng.choice(others))
            if q:
                ps.insert(rng.randint(0, len(ps)), rng.choice(q))
        else:
            # tokens within a tag
            toks = re.findall(r"\w+|\s+|[^\w\s]", ps[i])
            if len(toks) > 5:
                j = rng.randint(2, len(toks) - 3)
                k = rng.randint(2, len(toks) - 3)
                op = rng.choice(["drop", "swap", "double", "replace"])
                if op == "drop":
                    del toks[j]
                elif op == "swap":
                    toks[j], toks[k] = toks[k], toks[j]
                elif op == "double":
                    toks.insert(j, toks[k])
                else:
                    toks[j] = rng.choice(["(", ")", "|", "..", "self", "loop", "super", "1", "\"\\z\"", "'", "!", "?", "::", "=", "or", "_", "with", "::a", "r#fn", "-", "\\", "{", "}", ",", ".", "as", "in", "if", "let"])
                ps[i] = "".join(toks)
    return "".join(ps)


def mutants(ctx, n):
    """Sets of files one or two of which are broken in some way"""
    res, texts = [], ["{{ 1 }}"]
    insts = instances(ctx.rng("data"), 1)
    while len(res) < n:
        i = len(res)
        rng = ctx.rng(f"mut{i}/{ctx.extra.get('tries', 0)}")
        ctx.add("tries")
        name = f"mut{i}"
        g = Multi(rng, name, depth=rng.choice([1, 2]), edepth=1, max_nodes=15, width=4, space=.1, macros=2, imports=1, includes=True, floats=.4, lit="ws", ws=.2, esc=.1, trace=0,
                  nodes={"lit": 6, "expr": 5, "let": 2, "if": 2, "match": 1, "for": 2, "filter": 1, "raw": .5, "comment": .5, "call": 1, "include": 1.5, "break": .3})
        try:
            if rng.random() < .5:
                f = g.hierarchy(rng.choice([1, 2, 3]))
            else:
                pre, call = g.preamble(g.cur_dir)
                g.callable = call
                f = g.new_file(pre + g.body(2, 2, 6, scope=False), g.cur_dir)
            files = g.texts()
        except OverflowError:
            continue
        own = sorted({g.place_of(x.root, x.path) for x in g.files})
        for p in rng.sample(own, min(len(own), rng.choice([1, 1, 2]))):
            files[p] = mutate(rng, files[p], texts).replace("@", rng.choice([x.path for x in g.files]))
        texts = (texts + list(files.values()))[-40:]
        block = f', block = "{rng.choice(["content1", "title1", "main1", "a1", "x1"])}"' if rng.random() < .2 else ""
        info = "\n".join(f"--- {p}\n{t}" for p, t in files.items())
        res.append(case(name, files, module_rs([struct_rs("T", f'path = "{f.path}"' + block)], "").replace("pub fn run() {\n}\n", ""), info))
    return res, data_rs(insts)


def snippets(ctx):
    """Every piece of the list on its own, in several surroundings"""
    res = []
    around = ["@", "{% block b %}@{% endblock %}", "{% for i in 0..2 %}@{% endfor %}", "{% macro z0() %}@{% endmacro %}{% call z0() %}", "{% filter upper %}@{% endfilter %}", "{% if true %}@{% else %}@{% endif %}"]
    for i, s in enumerate(SNIPPETS):
        for j, a in enumerate(around if not ctx.quick() else [around[0], around[1 + i % (len(around) - 1)]]):
            name = f"snip{i}x{j}"
            files = {f"{name}/a.html": a.replace("@", s).replace("@", f"{name}/b.html"), f"{name}/b.html": "b{% block content1 %}{% endblock %}{% macro mm(a) %}{{ a }}{% endmacro %}"}
            res.append(simple(name, files, f'path = "{name}/a.html"', None, "", "pub struct T { x: i64, v: Vec<i64>, o: Option<i64>, p: bool }"))
    return res


def names(rng, ctx):
    """Files of unusual names, kinds and contents, referred to in every way there is"""
    res, k = [], 0
    bad = b"caf\xe9.html"
    plain = b"{% block b %}text{% endblock %}{% macro mm() %}m{% endmacro %}"
    files = [(n, {n: plain}, "accept") for n in ("a b.html", "'q'.html", "é日本.html", "{{x}}.html", "{}.html", "%s{0}.html", "#.html", "$HOME.html", "~.html", "-.html", "..html", "a..html", ".html", "html", "a.tar.gz.html", "&lt;.html", "n" * 200 + ".html", "d/" * 60 + "a.html",
                                                  "a\tb.html", "a\u200bb.html", "\u202ea.html", "e\u0301.html", "r#type.html", "a,b.html", "a;b.html", "a=b.html", "//x.html", "*.html", "!.html", "?.html", "a:b.html", "CON.html", "a.", "a.b/c")]
    files = [(n, f, w) for n, f, w in files if not n.startswith("/")]
    files += [("link.html", {"link.html": Link(b"t/" + bad), os.fsdecode(b"t/" + bad): plain}, "accept"), ("d/link.html", {"d": Link(b"\xff\xfe"), os.fsdecode(b"\xff\xfe/link.html"): plain}, "accept"), ("link.html", {"link.html": Link(b"other.html"), "other.html": plain}, "accept"),
              ("l1.html", {"l1.html": Link(b"l2.html"), "l2.html": Link(b"l3.html"), "l3.html": plain}, "accept"), ("gone.html", {"gone.html": Link(b"nothing")}, "reject"), ("loop.html", {"loop.html": Link(b"loop.html")}, "reject"),
              ("l1.html", {"l1.html": Link(b"l2.html"), "l2.html": Link(b"l1.html")}, "reject"), ("dir.html", {"dir.html/x": plain}, "reject"), ("dir.html", {"dir.html": Link(b"real"), "real/x": plain}, "reject"), ("null.html", {"null.html": Link(b"/dev/null")}, None),
              ("bin.html", {"bin.html": b"\xff\xfe{{ 1 }}"}, "reject"), ("bin.html", {"bin.html": b"a" * 5000 + b"\xc3"}, "reject"), ("bin.html", {"bin.html": b"\xed\xa0\x80"}, "reject"), ("bom.html", {"bom.html": b"\xef\xbb\xbf" + plain}, None), ("nul.html", {"nul.html": b"a\0b" + plain}, "accept"),
              ("ctl.html", {"ctl.html": bytes(range(32)) + plain}, "accept"), ("empty.html", {"empty.html": b""}, None), ("nl.html", {"nl.html": b"\n"}, None), ("u16.html", {"u16.html": plain.decode().encode("utf-16")}, "reject"),
              ("", {"x": b""}, "reject"), (".", {"x": b""}, "reject"), ("x/", {"x": plain}, "reject"), ("x/y", {"x": plain}, "reject"), ("n" * 300, {}, "reject"), ("../" * 40 + "nothing/at/all", {}, "reject"), ("a\0b", {}, "reject"), ("d/../x", {"d/y": b"", "x": plain}, "accept")]
    for n, fs, want in files:
        # the names of the file's blocks and macros are used where they are known to be there
        known = any(plain == v or (isinstance(v, bytes) and v.endswith(plain)) for v in fs.values())
        for how in ("path", "extends", "include", "import", "source"):
            name = f"name{k}"
            k += 1
            at = {f"{name}/{p}": t for p, t in fs.items()}
            path = f"{name}/{n}" if n else n
            text = {"extends": f'{{% extends "{path}" %}}{{% block b %}}x{{% endblock %}}', "include": f'a{{% include "{path}" %}}', "source": f'a{{% include "{path}" %}}',
                    "import": f'{{% import "{path}" as z %}}' + ("{% call z::mm() %}" if known else "")}.get(how)
            if text and how != "source":
                at[f"{name}/main/m.html"] = text
            attrs = f"path = {rs_str(path)}" if how == "path" else f"source = {rs_str(text)}, ext = \"html\"" if how == "source" else f'path = "{name}/main/m.html"'
            # names without an extension have none to choose the escaper by, which is no error
            res.append(simple(name, at, attrs, want if want != "accept" or known else None, f"{n!r} by {how}"))
    return res


def main(ctx):
    ctx.rules.append("random graphs of files that extend, include, import and call each other with and without cycles and missing files; attributes of all kinds on items of all kinds; mutated, misspelt and malformed configurations; "
                     "random valid sets of templates with misplaced, unknown, foreign or broken tags; deep, long and wide templates; files of unusual names, kinds and contents; documented programs: the compiler must neither crash nor hang, the macro must not panic, "
                     "and programs known to be valid (invalid) must be accepted (rejected with a message); a case is a program")
    configs = dict(CONFIGS)
    groups = {"graphs": []}
    for i in range(ctx.scale(700, 8000)):
        files, attrs, want = graph(ctx.rng(f"graph{i}"), f"g{i}")
        groups["graphs"].append(simple(f"g{i}", files, attrs, want))
    groups["snippets"] = snippets(ctx)
    groups["mutants"], data = mutants(ctx, ctx.scale(900, 12000))
    groups["attributes"] = [simple_item(case, *x) for x in attributes(ctx.rng("attrs"), ctx.scale(900, 8000))]
    groups["configurations"], more = configurations(ctx.rng("cfg"), ctx.scale(400, 4000), simple)
    configs.update(more)
    groups["documented"] = documented(case)
    groups["names"] = names(ctx.rng("names"), ctx)
    groups["large"] = chains(ctx.rng("chains"), ctx)
    limit = ctx.scale(60, 120)
    for k, cs in groups.items():
        ctx.rules.append(f"{k}: {len(cs)} programs")
        ctx.sample({k: cs[0].info[:600]}, 8)
        res = classify(ctx, cs, data, configs if k in ("configurations", "attributes", "documented") else CONFIGS, shard_size=40 if k != "large" else 8, timeout=limit)
        if os.environ.get("VERIF_TIMES"):
            print(k, len(cs), round(time.time() - ctx.t0, 1))
        for c in cs:
            v = res[c.name]
            ctx.count((k, c.key, c.info))
            bad = None
            if v.crash:
                bad = v.crash
            elif v.panics:
                bad = f"the derive macro panicked: {v.panics[0]}"
            elif c.want == "accept" and v.errors:
                bad = f"a valid program is rejected: {v.errors[:3]}"
            elif c.want == "reject" and not v.errors:
                bad = "an invalid program is accepted"
            elif any(not m.strip() for m, _ in v.errors):
                bad = "an error without a message"
            ctx.add(k + ("_rejected" if v.errors else "_accepted"))
            ctx.add("judged_" + (c.want or "totality_only"))
            if bad:
                ctx.violation(f"{c.name}: {bad}\n{c.info}", c.replay({"data.rs": data, **{n: t for n, t in configs.items() if n in c.rs}}), c.ident)


run_check("C22", main)
