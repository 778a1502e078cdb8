import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from e1 import *


# Expressions with effects at every place of an expression: (template, what it shows from the result of the effects)
EFFECTS = [
    ("@", "{0}"), ("(@)", "{0}"), ("-@", "-{0}"), ("@ + 1", lambda a: a + 1), ("1 + @", lambda a: a + 1), ("@ * 2 - @", lambda a, b: a * 2 - b), ("2 * (@ + @)", lambda a, b: 2 * (a + b)), ("@ % 3 == 0", lambda a: str(a % 3 == 0).lower()),
    ("!(@ > 3)", lambda a: str(not a > 3).lower()), ("[@]|fmt(\"{:?}\")", "[{0}]"), ("[1, @]|fmt(\"{:?}\")", "[1, {0}]"), ("[@, @]|fmt(\"{:?}\")", "[{0}, {1}]"), ("(@, 1)|fmt(\"{:?}\")", "({0}, 1)"), ("(1, @,)|fmt(\"{:?}\")", "(1, {0})"),
    ("([@], (2, @))|fmt(\"{:?}\")", "([{0}], (2, {1}))"), ("(@..9)|fmt(\"{:?}\")", "{0}..9"), ("(0..@)|fmt(\"{:?}\")", "0..{0}"), ("(0..=@)|fmt(\"{:?}\")", "0..={0}"), ("(..@)|fmt(\"{:?}\")", "..{0}"), ("(@..)|fmt(\"{:?}\")", "{0}.."),
    ("[@, 5][0]", "{0}"), ("[[@]][0][0]", "{0}"), ("(@, 5).0", "{0}"), ("([@], 5).0[0]", "{0}"), ("[4, @]|join(\"-\")", "4-{0}"), ("@|fmt(\"<{}>\")|upper", "<{0}>"), ("\"{}+{}\"|format(@, @)", "{0}+{1}"), 
    ("format!(\"{}\\\\\", @)", "{0}\\"), ("format!(\"\\\\\\\"{}(\", @)", "\\\"{0}("), ("format!(\")\\\"({})\", @)", ")\"({0})"), ("format!(\"\\\\\\\\{}\\\\\\\\\", (@))", "\\\\{0}\\\\"), ("format!(\"{}{}{}\", \"\\\\\", @, \"\\\\)\")", "\\{0}\\)"),
    ("format!(\"({{{}\\n\\\")\", ((@)))", "({{{0}\n\")"), ("format!(\"{}\", @)", "{0}"), ("self.r()?", "{0}"), ("self.r()? + 1", lambda a: a + 1), ("self.p().x", "{0}"), ("self.p().get()", "{0}"), ("self.p().x.abs()", "{0}"), ("[self.p()][0].x", "{0}"), ("v[self.u()]", "{0}"), ("[v[self.u()]]|fmt(\"{:?}\")", "[{0}]"),
    ("ps[self.u()].x", "{0}"), ("ps[self.u()].x + 1", lambda a: a + 1), ("p.add(@)", lambda a: a + 100), ("p.add(1 + @)", lambda a: a + 101), ("[p.add(@)]|fmt(\"{:?}\")", lambda a: f"[{a + 100}]"), ("t::n(@)", "{0}"), ("-t::n(@)", "-{0}"), ("(self.c)()", "{0}"), ("self.h.c()", "{0}"),
    ("@|plus(1)", lambda a: a + 1), ("1|plus(@)", lambda a: a + 1), ("@|plus(@)", lambda a, b: a + b), ("1|plus(@)|plus(2)", lambda a: a + 3), ("[@]|count", "1"), ("[[@, 2], [3, 4]]|fmt(\"{:?}\")", "[[{0}, 2], [3, 4]]"), ("\"abcdef\"|truncate(self.u() % 3 + 1)", lambda a: "abcdef"[:a % 3 + 1] + "..."),
    ("\"a\"|center(self.u() % 4)", lambda a: {0: "a", 1: "a", 2: "a ", 3: " a "}[a % 4]), ("@|e", "{0}"), ("(@)|safe", "{0}"), ("[@]|fmt(\"{:?}\")|lower|trim", "[{0}]"),
]


def effect_case(rng, name):
    """Many expressions with effects in one write, with repetitions: every one is evaluated when it is its turn"""
    some = [rng.choice(EFFECTS) for _ in range(rng.randint(2, 12))]
    k, body, want = 0, "", ""
    for _ in range(rng.randint(8, 40)):
        t, w = rng.choice(some)
        n = sum(t.count(e) for e in ("@", "self.r()", "self.p()", "self.u()", "(self.c)()", "self.h.c()"))
        if k + n > 190:
            break
        while "@" in t:
            t = t.replace("@", rng.choice(["self.n()"] * 3 + ["self.h.c()" if "format!" in t else "h.c()", "super::id(self.n())", "(self.n())"]), 1)
        args = list(range(k + 1, k + 1 + n))
        k += n
        sep = rng.choice(["", " ", ";", "{# #}"])
        body += "{{ " + t + " }}" + sep
        want += str(w(*args) if callable(w) else w.format(*args)) + (sep if "#" not in sep else "")
    body = body.replace("super::id", f"crate::{name}::id")
    rs = ("use std::cell::Cell;\nuse crate::rt::{self, t};\n"
          "thread_local! { static NEXT: Cell<i64> = const { Cell::new(0) }; }\nfn next() -> i64 { NEXT.with(|c| { c.set(c.get() + 1); c.get() }) }\n"
          "use std::borrow::Borrow;\npub fn id(i: impl Borrow<i64>) -> i64 { *i.borrow() }\n"
          "pub mod filters { use std::borrow::Borrow; pub fn plus(a: impl Borrow<i64>, b: impl Borrow<i64>) -> askama::Result<i64> { Ok(a.borrow() + b.borrow()) } pub fn count(v: &[i64]) -> askama::Result<usize> { Ok(v.len()) } }\n"
          "pub struct P { pub x: i64 }\nimpl P { fn get(&self) -> i64 { self.x } fn add(&self, i: impl Borrow<i64>) -> i64 { self.x + i.borrow() } }\n"
          "pub struct H;\nimpl H { fn c(&self) -> i64 { next() } }\n"
          f'#[derive(askama::Template)]\n#[template(path = "{name}/main.txt")]\npub struct T {{ c: fn() -> i64, h: H, p: P, v: Vec<i64>, ps: Vec<P> }}\n'
          "impl T { fn n(&self) -> i64 { next() } fn r(&self) -> Result<i64, std::fmt::Error> { Ok(next()) } fn p(&self) -> P { P { x: next() } } fn u(&self) -> usize { next() as usize } }\n"
          f'pub fn run() {{ rt::exec_as("{name}", 0, "render", &T {{ c: next, h: H, p: P {{ x: 100 }}, v: (0..200).collect(), ps: (0..200).map(|x| P {{ x }}).collect() }}); }}\n')
    return Case(name, {f"{name}/main.txt": body + "."}, rs, {(0, "render"): ("ok", want + ".", None)}, body)


def main(ctx):
    ctx.rules.append("random well-typed expressions (all operators, literals, suffixes, calls, macros, filters, `?`, with random "
                     "redundant spacing and groups) rendered for 3 context values and compared with a reference evaluator, together with the order of traced calls; "
                     "a case is (template, value), non-trivial if it prints something")
    insts = instances(ctx.rng("data"), 3)
    cases = []
    for i in range(ctx.scale(2400, 9000)):
        def make(t):
            g = Gen(ctx.rng(f"{i}/{t}"), trace=.25, ws=0, esc=.03, edepth=ctx.rng(f"d{i}").choice([2, 3, 4, 5]), depth=1,
                    nodes={"lit": 3, "expr": 10, "let": 1, "if": .5, "match": .2, "for": .6, "raw": 0, "comment": 0, "filter": .1, "decl": .1},
                    filters=["upper", "lower", "trim", "capitalize", "wrap", "tag", "len", "rev", "join", "tf", "wordcount"], max_nodes=14)
            f = g.simple(f"c{i}/main.html")
            # the same expression once more must be evaluated once more
            dup = [n for n in f.nodes if isinstance(n, Expr)]
            # (except for filters, that are assumed to be pure functions of their arguments)
            if dup and g.chance(.4) and not f.trailing and "|tf(" not in dup[-1].x.src():
                j = f.nodes.index(dup[-1])
                # (names may mean something else after a `let`)
                end = any(not isinstance(n, (Lit, Expr, If, For, Match)) for n in f.nodes[j:])
                f.nodes.insert(j + 1 if end else len(f.nodes), Expr(g.ws(), dup[-1].x))
            files = {f.path: f.text(None, g.sp)}
            c = mkcase(ctx, f"c{i}", f, files, insts, features=g.features)
            return c
        cases.append(retry(make))
    # the same expression, three times in a row
    for i in range(ctx.scale(700, 3000)):
        def make(t):
            g = Gen(ctx.rng(f"same{i}/{t}"), trace=.45, ws=0, esc=.05, floats=.02, depth=1, filters=["upper", "trim", "wrap", "tag", "len", "join", "wrap"])
            x = g.shown(ctx.rng(f"ds{i}").choice([1, 2, 2, 3]))
            src = x.src()
            if not any(k in src for k in ("t::i(", "t::b(", "t::s(", "t::u(", "t::ok(", "tm!(", "tick(")):
                raise OverflowError
            between = [Lit(g.littext()) if g.chance(.5) else None for _ in range(2)]
            nodes = [n for n in [Expr(g.ws(), x), between[0], Expr(g.ws(), x), between[1], Expr(g.ws(), x)] if n]
            f = File(f"e{i}/main.html", nodes)
            return mkcase(ctx, f"e{i}", f, {f.path: f.text(None, g.sp)}, insts[:1], features=g.features)
        cases.append(retry(make))
    cases += [effect_case(ctx.rng(f"fx{i}"), f"fx{i}") for i in range(ctx.scale(60, 400))]
    ctx.rules.append("expressions with effects at every place of an expression, many of them in one write and with repetitions")
    ctx.sample(show_case(cases[-1]))
    for c in cases[:3]:
        ctx.sample(show_case(c))
    run_cases(ctx, cases, data_rs(insts), nontrivial=lambda c, i, e: bool(e[1]))


run_check("C04", main)
