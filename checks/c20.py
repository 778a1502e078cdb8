import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from corpus import *
from harness import *
from reject import *

# Uses of what is parsed after its source is gone, and what makes them right
USES = [
    ("nodes", "let n; { let p = parse(SRC); n = p.nodes(); } use_nodes(n);", "let n; let p = parse(SRC); { n = p.nodes(); } use_nodes(n);"),
    ("moved", "let p = parse(SRC); let n = p.nodes(); let q = p; use_nodes(n); drop(q);", "let p = parse(SRC); let n = p.nodes(); use_nodes(n); let q = p; drop(q);"),
    ("dropped", "let p = parse(SRC); let n = p.nodes(); drop(p); use_nodes(n);", "let p = parse(SRC); let n = p.nodes(); use_nodes(n); drop(p);"),
    ("replaced", "let mut p = parse(SRC); let n = p.nodes(); let q = std::mem::take(&mut p); use_nodes(n); drop(q);", "let mut p = parse(SRC); let q = std::mem::take(&mut p); let n = q.nodes(); use_nodes(n);"),
    ("static", "fn f(p: &Parsed) -> &'static [Node<'static>] { p.nodes() } use_nodes(f(&parse(SRC)));", "fn f(p: &Parsed) -> &[Node<'_>] { p.nodes() } use_nodes(f(&parse(SRC)));"),
    ("inner", "fn f(p: &Parsed) -> &[Node<'static>] { p.nodes() } let p = parse(SRC); use_nodes(f(&p));", "fn f<'a>(p: &'a Parsed) -> &'a [Node<'a>] { p.nodes() } let p = parse(SRC); use_nodes(f(&p));"),
    ("cloned", "let e; { let p = parse(SRC); e = expr(p.nodes()).clone(); } println!(\"{e:?}\");", "let p = parse(SRC); let e = { expr(p.nodes()).clone() }; println!(\"{e:?}\");"),
    ("name", "let s: &'static str = { let p = parse(SRC); name(expr(p.nodes())) }; println!(\"{s}\");", "let s: String = { let p = parse(SRC); name(expr(p.nodes())).to_string() }; println!(\"{s}\");"),
    ("ast", "let a; { let s = String::from(SRC); a = Ast::from_str(&s, None, &Syntax::default()).unwrap(); } println!(\"{a:?}\");", "let s = String::from(SRC); let a = { Ast::from_str(&s, None, &Syntax::default()).unwrap() }; println!(\"{a:?}\");"),
    ("astnodes", "let n; { let a = Ast::from_str(SRC, None, &Syntax::default()).unwrap(); n = a.nodes(); } use_nodes(n);", "let a = Ast::from_str(SRC, None, &Syntax::default()).unwrap(); let n; { n = a.nodes(); } use_nodes(n);"),
    ("asttext", "let mut s = String::from(SRC); let a = Ast::from_str(&s, None, &Syntax::default()).unwrap(); s.clear(); println!(\"{a:?}\");", "let mut s = String::from(SRC); let a = Ast::from_str(&s, None, &Syntax::default()).unwrap(); println!(\"{a:?}\"); s.clear();"),
    ("thread", "let p = parse(SRC); let n = p.nodes(); std::thread::spawn(move || use_nodes(n));", "let p = parse(SRC); let n = p.nodes(); std::thread::scope(|s| { s.spawn(move || use_nodes(n)); });"),
    ("escaped", "let e; { let s = String::from(SRC); e = askama_escape::escape(&s, askama_escape::Html); } println!(\"{e}\");", "let s = String::from(SRC); let e; { e = askama_escape::escape(&s, askama_escape::Html); } println!(\"{e}\");"),
    ("joined", "let e; { let s = vec![String::from(SRC)]; e = askama::filters::join(s.iter(), \",\").unwrap(); } println!(\"{e}\");", "let s = vec![String::from(SRC)]; let e; { e = askama::filters::join(s.iter(), \",\").unwrap(); } println!(\"{e}\");"),
]
HEAD = '''use askama_parser::*;
const SRC: &str = "a {{ some_name }} b";
fn parse(s: &str) -> Parsed { Parsed::new(s.to_string(), None, &Syntax::default()).unwrap() }
fn use_nodes(n: &[Node<'_>]) { println!("{n:?}") }
fn expr<'s, 'a>(n: &'s [Node<'a>]) -> &'s Expr<'a> { match &n[1] { Node::Expr(_, e) => e, _ => panic!() } }
fn name<'a>(e: &Expr<'a>) -> &'a str { match e { Expr::Var(s) => s, _ => panic!() } }
pub fn run() { %s }
'''


def lifetimes(ctx):
    bad = [Case("bad_" + n, {}, HEAD % b, {}, f"uses freed memory: {b}") for n, b, _ in USES]
    good = [Case("good_" + n, {}, HEAD % g, {}, g) for n, _, g in USES]
    reject_cases(ctx, bad, what="what outlives its source is accepted by the compiler")
    for n, v in classify(ctx, good).items():
        if v.errors or v.panics or v.crash:
            raise CheckError(f"{n}: {v.errors or v.crash}")


def main(ctx):
    ctx.rules.append("histories of operations on a pool of parsed templates (parsing, failing, moving, taking, replacing, comparing, printing, cloning parts, borrowing, dropping in any order, between allocations), all filters and escapers on "
                     "random texts and chunks with a sink that validates UTF-8, mutated templates through the parser: under AddressSanitizer and, smaller, under Miri; the workloads of C01, C11, C12 and C13 under AddressSanitizer; "
                     "programs that use parts of a template after its source is gone must not compile; a case is an operation or a text")
    p = corpus_file(ctx, ctx.scale(1500, 6000))
    small = os.path.join(ctx.work, "small.jsonl")
    with open(p) as f, open(small, "w") as g:
        g.writelines([l for l in f if len(l) < 900][:20])
    lifetimes(ctx)
    rt_bin("release")
    q = {"RT_SLOWER": "20"}
    run_rt(ctx, ctx.scale(900, 20000), kind="asan", args=[p], tag="asan_", env=q, stack_kb=65536)
    for prop, n in (("C01", 150), ("C11", 80), ("C12", 150), ("C13", 150)):
        run_rt(ctx, n * ctx.scale(1, 40), kind="asan", prop=prop, tag="asan_" + prop + "_", env=q, stack_kb=65536)
    rt_bin("miri")
    # (one run first, that builds)
    run_rt(ctx, 1, parts=1, kind="miri", args=[small, "parsed"], tag="miri_")
    n = ctx.scale(1, 24)
    jobs = [("parsed", 40 * n), ("strings", 4 * n), ("some", 4 * n)]

    def one(j):
        run_rt(ctx, j[1], parts=8 if j[0] == "parsed" else 4, kind="miri", args=[small, j[0]], tag="miri_", env={"RT_SLOWER": "200"}, timeout=840)
    pmap(one, jobs)


run_check("C20", main)
