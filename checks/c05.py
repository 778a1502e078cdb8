import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from e1 import *
import places

# few names, so that they collide; most are fields, keywords, or names used by the generated code
SMALL = ["x", "a", "s", "p", "type", "fn", "expr0", "expr1", "o", "v", "y", "match", "items", "_i"]


# what can be a name in Rust: by itself, or with `r#`
KEYWORDS = ("as async await break const continue dyn else enum extern fn for if impl in let loop match mod move mut pub ref return static struct trait type "
            "unsafe use where while abstract become box do final macro override priv try typeof unsized virtual yield gen union auto default safe raw writer2 r e "
            # letters without case, or of other scripts
            "名 列1 _名 é ß ñandú ა ª λ ж _ab __c ﬀ").split()


def keyword_case(rng, name, k):
    """A template that uses the name in every place of a name"""
    f, s, n = rng.randint(10, 99), rng.randint(-9, 9), rng.randint(0, 9)
    scoped = lambda t: "{% if b %}" + t + "{% endif %}"
    opts = [
        ("{{ self.K }}", f), ("{{ s.K }}", s), ("{{ self.s.K }}", s), ("{{ ss[0].K }}", s), ("{{ (s).K }}", s), ("{{ s.K.abs() }}", abs(s)), ("{{ t::n(self.K) }}", f), ("{{ t::n(s.K) + 1 }}", s + 1),
        (scoped("{% let S { K: z } = s %}{{ z }}"), s), ("{% for S { K: z } in ss %}{{ z }}{% endfor %}", s), ("{% match s %}{% when S { K: z } %}{{ z }}{% endmatch %}", s),
        ("{% if self.K == N %}=={% endif %}", "==" if f == n else ""), ("{% for z in ss %}{{ z.K }}{% endfor %}", s),
        # a call, a macro, a scope and a block of that name
        ("{% call K(s.K) %}", f"<{s}>"), ("{% call K(self.K) %}", f"<{f}>"), ("{% call lib::K(N) %}", f"[{n}]"), ("{% block K %}{{ self.K }}{% endblock K %}", f),
    ]
    if k != "loop":
        opts += [
            ("{{ K }}", f), ("{{ -K }}", -f), ("{{ (K) }}", f), ("{{ K + N }}", f + n), ("{{ N * K }}", f * n), ("{{ K == N }}", str(f == n).lower()), ("{{ K.abs() }}", f), ("{{ t::n(K) }}", f), ('{{ [K, N]|join("-") }}', f"{f}-{n}"),
            ("{{ K|safe }}{{ K|e }}{{ K|wordcount }}", f"{f}{f}1"), ("{{ t::dbl(K) }}", 2 * f), ("{% for z in 0..K %}{% if loop.last %}{{ z }}{% endif %}{% endfor %}", f - 1),
            (scoped("{% let K = N %}{{ K }},{{ self.K }}"), f"{n},{f}"), (scoped("{% set K %}{% set K = N %}{{ K }}"), n), (scoped("{% let K %}{% if b %}{% let K = N %}{% else %}{% let K = 0 %}{% endif %}{{ K }}"), n),
            (scoped("{% let (K, z) = (N, 1) %}{{ K }}{{ z }}"), f"{n}1"), (scoped("{% let S { K } = s %}{{ K }}"), s), (scoped("{% let K = K + 1 %}{{ K }}"), f + 1),
            ("{% for K in v %}{{ K }}{% endfor %}", "12"), ("{% for (K, z) in [(N, 2)] %}{{ K }}{{ z }}{% endfor %}", f"{n}2"), ("{% for S { K } in ss %}{{ K }}{% endfor %}", s), ("{% for K in v if *K > 1 %}{{ K }}{% endfor %}".replace("*K", "t::n(K)"), "2"),
            ("{% match o %}{% when Some(K) %}{{ K }}{% when None %}{% endmatch %}", 5), ("{% match s %}{% when S { K } %}{{ K }}{% endmatch %}", s), ("{% if let Some(K) = o %}{{ K }}{% endif %}", 5), ("{% if let S { K } = s %}{{ K }}{% endif %}", s),
            ("{% if K == N %}={% else %}!{% endif %}", "=" if f == n else "!"), ("{% match K %}{% when N %}={% else %}!{% endmatch %}", "=" if f == n else "!"),
            ("{% call K(K) %}", f"<{f}>"), ("{% call K(K=N) %}", f"<{n}>"), ("{% call lib::K(K=K) %}", f"[{f}]"), ("{% call K::K(K) %}", f"[{f}]"), ("{% call two(K=N, z=K) %}", f"{n}.{f}"), ("{% call two(K, 1) %}", f"{f}.1"),
            ("{% filter upper %}{{ K }}{% endfilter %}", f), ("{% call free() %}", f"({f})"), (scoped("{% let z = K %}{{ z }}"), f),
        ]
    rng.shuffle(opts)
    body, want = "", ""
    for t, w in opts:
        sep = rng.choice([" ", ";", "/"])
        body += t + sep
        want += f"{w}{sep}"
    pre = ('{% import "NAME/lib.txt" as lib %}{% import "NAME/lib.txt" as K %}{% macro K(K) %}<{{ K }}>{% endmacro %}{% macro two(K, z) %}{{ K }}.{{ z }}{% endmacro %}{% macro free() %}({{ self.K }}){% endmacro %}')
    sub = lambda t: re.sub(r"\b(NAME|K|N)\b", lambda m: {"NAME": name, "K": k, "N": str(n)}[m[0]], t)
    files = {f"{name}/main.txt": sub(pre + body) + ".", f"{name}/lib.txt": sub("{% macro K(K) %}[{{ K }}]{% endmacro %}"), f"{name}/fn.txt": sub("{{ K(self.n) }}{% call K(2) %}{% macro K(z) %}{{ K(z) }}{% endmacro %}" if k != "loop" else "{{ (self.K)(self.n) }}")}
    r = f"r#{k}"
    rs = ("use crate::rt::{self, t};\n"
          f'#[derive(askama::Template)]\n#[template(path = "{name}/main.txt")]\npub struct T {{ pub {r}: i64, s: S, ss: Vec<S>, v: Vec<i64>, o: Option<i64>, b: bool }}\n'
          f"#[derive(Clone)]\npub struct S {{ pub {r}: i64 }}\n"
          f'#[derive(askama::Template)]\n#[template(path = "{name}/fn.txt")]\npub struct F {{ pub {r}: fn(&i64) -> i64, n: i64 }}\n'
          f'pub fn run() {{\n rt::exec_as("{name}", 0, "render", &T {{ {r}: {f}, s: S {{ {r}: {s} }}, ss: vec![S {{ {r}: {s} }}], v: vec![1, 2], o: Some(5), b: true }});\n'
          f' rt::exec_as("{name}", 1, "render", &F {{ {r}: t::dbl, n: {n} }});\n}}\n')
    return Case(name, files, rs, {(0, "render"): ("ok", want + ".", None), (1, "render"): ("ok", f"{2 * n}4" if k != "loop" else str(2 * n), None)}, f"the name {k}\n" + files[f"{name}/main.txt"])


def main(ctx):
    ctx.rules.append("random templates with many bindings of few names (fields, Rust keywords, names of generated variables; let/set, tuple and struct "
                     "destructuring, declarations assigned later, pattern and loop variables, nested scopes, includes, blocks, macros), and every keyword in every place of a name; bindings in all pairs of places of other constructs, in files of all roles; "
                     "each is rendered for 3 values and compared with a reference interpreter with lexical scopes")
    insts = instances(ctx.rng("data"), 3)
    cases = []
    for i in range(ctx.scale(1800, 12000)):
        def make(t):
            rng = ctx.rng(f"{i}/{t}")
            g = Multi(rng, f"c{i}", trace=.05, ws=0, esc=.02, depth=3, edepth=1, max_nodes=50, width=5, space=.1,
                      locals=rng.choice([SMALL, SMALL[:6], SMALL[4:], None]), lit="plain", includes=rng.random() < .3,
                      nodes={"lit": 3, "expr": 9, "let": 7, "if": 2, "match": 1.5, "for": 1.5, "decl": 1.5, "filter": .3, "raw": 0, "comment": 0, "include": .8})
            if rng.random() < .3:
                g.prof["macros"] = 1
                f = g.hierarchy(rng.choice([1, 2]))
            else:
                pre, call = g.preamble(g.cur_dir, n_macros=rng.choice([0, 0, 1, 2]), n_imports=0)
                g.callable = call
                f = g.new_file(pre + g.body(3, 3, 8, scope=False), g.cur_dir)
            return multi_case(ctx, f"c{i}", g, f, insts)
        cases.append(retry(make))
    for i in range(ctx.scale(1, 6)):
        cases += places.probe_cases(ctx.rng(f"places{i}"), f"pl{i}", places.PROBES["lets"])
    ctx.add("pairs_of_places", len(places.PLACES) ** 2)
    for i in range(ctx.scale(2, 12)):
        cases += [keyword_case(ctx.rng(f"kw{i}/{k}"), f"kw{i}_{k if k.isascii() else ord(k[-1])}", k) for k in KEYWORDS]
    ctx.add("keywords", len(KEYWORDS))
    for c in cases[:3]:
        ctx.sample(show_case(c))
    run_cases(ctx, cases, data_rs(insts), nontrivial=lambda c, i, e: bool(e[1]))


run_check("C05", main)
