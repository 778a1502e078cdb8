import os, sys, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from e1 import *

FEATURES = ["config", "humansize", "num-traits", "urlencode", "serde-json"]
LANES = 4  # target directories that are filled at the same time

# what each feature brings: template text, and what it renders
BRINGS = {
    "humansize": [("{{ 1234567|filesizeformat }}", "1.23 MB")],
    "num-traits": [("{{ t::n(-3)|abs }}", "3"), ("{{ 3|into_f64 }}", "3"), ("{{ 3.0|into_isize }}", "3")],
    "urlencode": [("{{ \"a b/c\"|urlencode }}", "a%20b/c"), ("{{ \"a b/c\"|urlencode_strict }}", "a%20b%2Fc")],
    "serde-json": [("{{ [1, 2]|json|safe }}", None), ("{{ [1, 2]|tojson|safe }}", None)],
}
ALWAYS = [("{{ \"ab\"|%s }}" % f, w) for f, w in (
    ("capitalize", "Ab"), ("center(4)", " ab "), ("e", "ab"), ("escape", "ab"), ("indent(2)", "ab"), ("linebreaks|safe", "<p>ab</p>"), ("linebreaksbr|safe", "ab"), ("paragraphbreaks|safe", "<p>ab</p>"), ("lower", "ab"), ("lowercase", "ab"),
    ("upper", "AB"), ("uppercase", "AB"), ("safe", "ab"), ("title", "Ab"), ("trim", "ab"), ("truncate(1)", "a..."), ("wordcount", "1"), ("fmt(\"{:?}\")|safe", "\"ab\""), ("as_ref", "ab"))] + [
    ("{{ \"{}-{}\"|format(1, 2) }}", "1-2"), ("{{ [1, 2]|join(\"+\") }}", "1+2")]

# attributes that need no feature, for the same text
ATTRIBUTED = "a \n{% if true %} {{ \"<\" }} {%~ endif +%} {% block b %}\n[{{ 1 }}]\n{% endblock %} {#- c +#}\n"
ATTRIBUTES = [
    ('path = "K.html"', "a \n &lt;\x20 \n[1]\n"), ('path = "K.html", whitespace = "preserve"', "a \n &lt;\x20 \n[1]\n"),
    ('path = "K.html", whitespace = "suppress"', "a&lt;[1]"), ('path = "K.html", whitespace = "minimize"', "a\n &lt;  \n[1]\n"),
    ('path = "K.html", escape = "none"', "a \n <\x20 \n[1]\n"), ('path = "K.html", block = "b"', "\n[1]\n"),
    ('path = "K.html", syntax = "default"', "a \n &lt;\x20 \n[1]\n"),
    ('source = "{{ \'<\' }} {{ 1 -}} ", ext = "txt"', "< 1"), ('source = "{{ \'<\' }}", ext = "txt", escape = "html"', "&lt;"),
]


def rng_of(name):
    return random.Random(name)


def project(lane, name, features):
    d = os.path.join(BUILD, "features", name)
    write(os.path.join(d, "src", "lib.rs"), "")
    fs = ", ".join(f'"{f}"' for f in features)
    write(os.path.join(d, "Cargo.toml"), '[package]\nname = "libs"\nversion = "0.0.0"\nedition = "2021"\npublish = false\n[workspace]\n[dependencies]\n'
          f'askama = {{ path = "{REPO}/askama", default-features = false, features = [{fs}] }}\naskama_escape = {{ path = "{REPO}/askama_escape" }}\naskama_parser = {{ path = "{REPO}/askama_parser" }}\n'
          'serde_json = "1"\nserde = { version = "1", features = ["derive"] }\n[profile.dev]\ndebug = 0\n')
    lock = os.path.join(VERIF, "harness", "libs", "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    return libs_of(d, os.path.join(BUILD, f"target-features-{lane}"))


def one(name, text, want, ext="html"):
    return Case(name, {f"{name}.{ext}": text}, module_rs([struct_rs("T", f'path = "{name}.{ext}"')], run_rs(name, "T", 1)), {(0, "render"): ("ok", want, [])}, text)


def main(ctx):
    ctx.rules.append("the crates are built with none, each, all and random sets of their optional features; random templates that need no feature must render as the reference interpreter says, "
                     "the filters of the enabled features must work, those of the others and configurations without `config` must be refused by the compiler")
    rng = ctx.rng("sets")
    if ctx.quick():
        sets = [[], FEATURES] + [[f] for f in FEATURES] + [sorted(rng.sample(FEATURES, k)) for k in (2, 3, 4)]
    else:
        sets = [[f for j, f in enumerate(FEATURES) if i >> j & 1] for i in range(32)]
    insts = instances(ctx.rng("data"), 2)
    random_cases = []
    for i in range(ctx.scale(120, 600)):
        def make(t):
            r = ctx.rng(f"{i}/{t}")
            g = Multi(r, f"c{i}", trace=.1, ws=.1, esc=.1, depth=3, edepth=2, max_nodes=40, width=4, macros=2, includes=True,
                      filters=["upper", "lower", "trim", "capitalize", "wrap", "tag", "len", "rev", "center", "wordcount", "linebreaks", "linebreaksbr", "title", "indent", "truncate"])
            if r.random() < .4:
                f = g.hierarchy(r.choice([1, 2]))
            else:
                pre, call = g.preamble(g.cur_dir)
                g.callable = call
                f = g.new_file(pre + g.body(3, 3, 8, scope=False), g.cur_dir)
            return multi_case(ctx, f"c{i}", g, f, insts)
        random_cases.append(retry(make))
    for c in random_cases[:2]:
        ctx.sample(show_case(c))
    per = ctx.scale(30, 100)

    def build(lane):
        out = []
        for j, fs in list(enumerate(sets))[lane::LANES]:
            name = "f" + "".join(str(FEATURES.index(f)) for f in fs)
            try:
                out.append((j, fs, name, project(lane, name, fs)))
            except CheckError as e:
                out.append((j, fs, name, str(e)))
        return out
    built = sorted((b for l in pmap(build, range(LANES), LANES) for b in l), key=lambda b: b[0])

    def run(b):
        j, fs, name, libs = b
        if isinstance(libs, str):
            ctx.violation(f"the crates do not build with the features {fs}: {libs[-1500:]}", {"features.txt": repr(fs)})
            return
        cases = [random_cases[(j * per + k) % len(random_cases)] for k in range(per)]
        cases = [Case(c.name, c.files, c.rs, c.expect, f"features {fs}\n{c.info}", key=(name, c.key)) for c in cases]
        n = 0
        for text, want in ALWAYS + [x for f in fs for x in BRINGS.get(f, [])]:
            cases.append(one(f"k{n}", text, want))
            n += 1
        for attrs, want in ATTRIBUTES:
            cases.append(Case(f"k{n}", {f"k{n}.html": ATTRIBUTED}, module_rs([struct_rs("T", attrs.replace("K.html", f"k{n}.html"))], run_rs(f"k{n}", "T", 1)), {(0, "render"): ("ok", want, [])}, attrs + "\n" + ATTRIBUTED))
            n += 1
        for c in cases[per:]:
            c.info, c.key = f"features {fs}\n{c.info}", (name, c.key)
        if "config" in fs:
            cfg = {"some.toml": '[general]\nwhitespace = "suppress"\ndefault_syntax = "s"\n[[syntax]]\nname = "s"\nexpr_start = "<<="\nexpr_end = "=>>"\n[[escaper]]\npath = "::askama::Text"\nextensions = ["html"]\n'}
            cases.append(Case("cfg", {"cfg.html": "<<= \"<\" =>> {%if true%} {{x}}{%endif%}"}, module_rs([struct_rs("T", 'path = "cfg.html", config = "some.toml"')], run_rs("cfg", "T", 1)), {(0, "render"): ("ok", "<{{x}}", [])}, "a configuration", key=(name, "cfg")))
        else:
            cfg = {}
        run_cases(ctx, cases, data_rs(insts), cfg, shard_size=1000, libs=libs, tag=name + "-")
        # what is not enabled is refused
        bad = [x for f in FEATURES if f not in fs for x in BRINGS.get(f, [])]
        refused = [one(f"n{k}", text, None) for k, (text, _) in enumerate(bad)]
        configs = {}
        if "config" not in fs:
            configs = {"some.toml": '[general]\nwhitespace = "suppress"\n'}
            refused.append(Case("ncfg", {"ncfg.html": "x"}, module_rs([struct_rs("T", 'path = "ncfg.html", config = "some.toml"')], run_rs("ncfg", "T", 1)), {}, "a configuration"))
        sets = [("refused", refused, configs)] if refused else []
        if "config" not in fs:
            # a configuration in the default place is refused as well, unless there is nothing in it
            sets.append(("default", [one("d0", "text", None), Case("d1", {}, module_rs([struct_rs("T", 'source = "x", ext = "txt"')], run_rs("d1", "T", 1)), {}, "a default configuration")],
                         {"askama.toml": rng_of(name).choice(['[general]\nwhitespace = "suppress"\n', '[general]\ndirs = ["templates"]\n', '[[syntax]]\nname = "s"\nexpr_start = "<<="\n', '[[escaper]]\npath = "x"\nextensions = ["y"]\n'])}))
            run_cases(ctx, [Case("empty", {"empty.html": "{{ \"<\" }}"}, module_rs([struct_rs("T", 'path = "empty.html"')], run_rs("empty", "T", 1)), {(0, "render"): ("ok", "&lt;", [])}, "an empty configuration", key=(name, "empty"))],
                      data_rs(insts), {"askama.toml": ""}, shard_size=1000, libs=libs, tag=name + "-empty-")
        for what, refused, configs in sets:
            s = Shard(ctx, name + "-" + what, refused, data_rs(insts), configs, libs=libs)
            s.build()
            for c in refused:
                ctx.count((name, c.key))
                if c.name not in s.rejected:
                    ctx.violation(f"accepted without the feature it needs: {c.info}\nfeatures {fs}", c.replay())
            shutil.rmtree(s.dir, ignore_errors=True)
        ctx.add("feature_sets")
    pmap(run, built, 8)


run_check("C27", main)
