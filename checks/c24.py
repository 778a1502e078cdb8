import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from e1 import *

PURITY = open(os.path.join(VERIF, "lib", "purity.rs")).read()


def compare(exp, got):
    if exp[0] == "ok":
        return default_compare((exp[0], exp[1], None), got)
    if got is None:
        return "nothing was reported"
    return None if got[0].startswith("err:") else f"rendering fails ({exp[0]}), but observed {got[0]} with {got[1]!r}"


def make_cases(ctx, tag, count, insts, rounds, copies):
    cases = []
    for i in range(count):
        def make(t):
            rng = ctx.rng(f"{tag}{i}/{t}")
            g = Multi(rng, f"{tag}{i}", trace=.05, ws=rng.choice([0, .2]), esc=.2, depth=rng.choice([1, 2, 3]), edepth=1, max_nodes=rng.choice([5, 15, 30]), width=4, macros=2,
                      includes=rng.random() < .4, fails=rng.choice([0, 0, 1]),
                      filters=["upper", "lower", "trim", "capitalize", "wrap", "tag", "len", "rev", "center", "wordcount", "linebreaks", "linebreaksbr", "title", "indent", "truncate", "join", "join"],
                      nodes={"lit": 4, "expr": 6, "let": 1, "if": 1.5, "match": .7, "for": 2, "filter": 1.5, "raw": .3, "comment": .2, "call": 1.5, "include": 1, "fail": .7, "hook": 2, "decl": .3})
            if rng.random() < .35:
                f = g.hierarchy(rng.choice([1, 2, 3]))
            else:
                pre, call = g.preamble(g.cur_dir, n_imports=rng.choice([0, 1, 2]))
                g.callable = call
                f = g.new_file(pre + g.body(g.prof["depth"], 2, 6, scope=False), g.cur_dir)
            c = multi_case(ctx, f"{tag}{i}", g, f, insts)
            if c is None:
                return None
            n = len(insts)
            c.expect = {(j, "first"): v for (j, _), v in c.expect.items()}
            c.expect[0, "pure"] = ("ok", "", None)
            structs = [struct_rs(f"T{k or ''}", f'path = "{f.path}"') for k in range(copies + 1)]
            cs = ", ".join(f"&T{k}::new({(k - 1) % n})" for k in range(1, copies + 1))
            c.rs = module_rs(structs, f'let vs: Vec<T> = (0..{n}).map(T::new).collect();\nrt::purity("{c.name}", &vs, &[{cs}], {rounds});\n')
            return c
        cases.append(retry(make))
    return cases


ALL = ("{{ s|json }}{{ v|json }}{{ w|json|safe }}{{ s|urlencode }}{{ u|urlencode_strict }}{{ s.len()|filesizeformat }}{{ (u.len() * 99999)|filesizeformat }}{{ s|fmt(\"{:?}\") }}{{ \"{}-{}\"|format(s, u) }}{{ s|paragraphbreaks }}{{ u|linebreaks }}"
       "{{ s|linebreaksbr }}{{ s|title }}{{ s|capitalize }}{{ u|upper }}{{ u|lower }}{{ s|center(20) }}{{ s|indent(3) }}{{ s|truncate(2) }}{{ s|wordcount }}{{ v|join(s) }}{{ w|join(\", \") }}{{ n.clone()|into_f64 }}{{ a.clone()|abs }}"
       "{% filter json %}{{ s }}{{ t::hook() }}{% endfilter %}{% filter urlencode|center(9) %}{{ u }}{{ t::hook() }}{% endfilter %}{{ [t::hook(), t::hook()]|join(t::hook()) }}{{ t::hook()|json_|safe }}{% for x in v %}{{ loop.cycle(v) }}"
       "{{ loop.index }}{{ loop.last }}{{ x|fmt(\"{:>5}\") }}{{ t::hook() }}{% endfor %}{{ s|safe }}{{ s|escape(\"none\") }}{{ s|e }}{{ t::hook()|truncate(1) }}{{ t::hook()|center(4) }}{{ t::hook()|urlencode }}{{ t::hook()|linebreaks }}"
       "{{ t::hook()|paragraphbreaks }}{{ t::hook()|wordcount }}{{ t::hook()|indent(2) }}{{ t::hook()|e }}").replace("{{ t::hook()|json_|safe }}", "")


def all_filters(tag, insts, rounds):
    res = []
    for ext in ("html", "txt"):
        n = f"{tag}{ext}"
        structs = [struct_rs(t, f'path = "{n}.{ext}"') for t in ("T", "T1")]
        rs = module_rs(structs, f'let vs: Vec<T> = (0..{len(insts)}).map(T::new).collect();\nrt::purity("{n}", &vs, &[&T1::new(0)], {rounds});\n')
        res.append(Case(n, {f"{n}.{ext}": ALL}, rs, {(0, "pure"): ("ok", "", None)}, ALL))
    return res


def tally(ctx, results, tag):
    for (c, i, ch), r in results.items():
        if ch == "seen":
            for k, v in zip(("renderings", "thread_switches", "renderings_inside_values"), r[1].decode().split()):
                ctx.add(tag + k, int(v))


def tsan(ctx, cases, data):
    """The same, all in one program that ThreadSanitizer watches (with an instrumented standard library)"""
    s = Shard(ctx, "tsan", cases, data, extra_rt=PURITY)
    s.setup()
    main = ["#[macro_use] mod rt;", "mod data;"] + [f"mod {c.name};" for c in cases] + ["fn main() { rt::quiet(); let only = std::env::args().nth(1);"]
    main += [f'if only.as_deref().map_or(true, |o| o == "{c.name}") {{ println!("B {c.name}"); {c.name}::run(); println!("E {c.name}"); }}' for c in cases] + ["}"]
    write(os.path.join(s.dir, "src", "main.rs"), "\n".join(main))
    toml = open(os.path.join(VERIF, "harness", "libs", "Cargo.toml")).read().replace('name = "libs"', 'name = "tsan"').replace("debug = 0", "debug = 1\nopt-level = 1")
    write(os.path.join(s.dir, "Cargo.toml"), toml)
    shutil.copy(os.path.join(VERIF, "harness", "libs", "Cargo.lock"), os.path.join(s.dir, "Cargo.lock"))
    host = "x86_64-unknown-linux-gnu"
    tgt = os.path.join(BUILD, "target-tsan-programs")
    cargo(["+nightly", "build", "--offline", "-Zbuild-std", "--target", host, "--target-dir", tgt], cwd=s.dir, env={"RUSTFLAGS": "-Zsanitizer=thread --cap-lints allow"})
    s.exe = os.path.join(tgt, host, "debug", "tsan")
    s.built = cases
    env = {"TSAN_OPTIONS": "halt_on_error=0:report_thread_leaks=0:exitcode=66:history_size=4"}
    rc, out, err = sh([s.exe], cwd=s.dir, timeout=600, env=env)
    done = s.parse(out)
    text = err.decode(errors="replace")
    races = text.count("WARNING: ThreadSanitizer")
    ctx.add("tsan_programs", len(done))
    ctx.add("tsan_reports", races)
    if races:
        for c in cases:
            rc1, _, e1 = sh([s.exe, c.name], cwd=s.dir, timeout=120, env=env)
            if "WARNING: ThreadSanitizer" in e1.decode(errors="replace"):
                ctx.violation(f"{c.name}: ThreadSanitizer reports\n{e1.decode(errors='replace')[:2500]}\n{c.info}", c.replay({"data.rs": data}))
                break
        else:
            ctx.violation("ThreadSanitizer reports\n" + text[:2500], {"stderr.txt": text})
    elif rc not in (0, 66) or len(done) != len(cases):
        raise CheckError(f"the program under ThreadSanitizer ended with {rc}: {text[-500:]}")
    for c in cases:
        judge(ctx, s, c, data, None, None, compare)
    tally(ctx, s.results, "tsan_")
    # does the sanitizer see races at all?
    probe = os.path.join(s.dir, "src", "main.rs")
    write(probe, "static mut X: u32 = 0; fn main() { let h = std::thread::spawn(|| unsafe { X += 1 }); unsafe { X += 1 }; h.join().unwrap(); }")
    cargo(["+nightly", "build", "--offline", "-Zbuild-std", "--target", host, "--target-dir", tgt], cwd=s.dir, env={"RUSTFLAGS": "-Zsanitizer=thread --cap-lints allow"})
    rc, out, err = sh([s.exe], timeout=60, env=env)
    if b"data race" not in err:
        raise CheckError(f"ThreadSanitizer does not report a race: {rc} {err[-300:]!r}")
    ctx.add("tsan_control_races_reported", 1)


def main(ctx):
    ctx.rules.append("random templates (also inheritance, includes, imports, macros, filter blocks, failing parts), 3 values each: rendered again in several orders and after renderings that failed at several points, "
                     "from inside of the target and of a displayed value while a rendering is going on, by the same template derived several times, and by 4 threads at once with random yields; "
                     "every outcome must be that of the first rendering, which must be that of the reference interpreter; a part of the programs runs under ThreadSanitizer; a case is a rendering of a value")
    insts = instances(ctx.rng("data"), 3)
    data = data_rs(insts)
    cases = make_cases(ctx, "c", ctx.scale(500, 4000), insts, ctx.scale(4, 12), 3) + all_filters("af", insts, 40)
    for c in cases[:3]:
        ctx.sample(show_case(c))
    for s in run_cases(ctx, cases, data, extra_rt=PURITY, compare=compare):
        tally(ctx, s.results, "")
    tsan(ctx, make_cases(ctx, "n", ctx.scale(60, 400), insts, ctx.scale(6, 20), 1) + all_filters("ag", insts, 40), data)
    ctx.evaluations += ctx.extra.get("renderings", 0) + ctx.extra.get("tsan_renderings", 0)


run_check("C24", main)
