import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from e1 import *

WEB = os.path.join(VERIF, "lib", "web")
U = "; charset=utf-8"
EXTS = {"html": ("html", "text/html" + U), "htm": ("html", "text/html" + U), "xml": ("html", "text/xml"), "svg": ("html", "image/svg+xml"), "txt": ("none", "text/plain" + U),
        "md": ("none", "text/markdown"), "html.j2": ("html", "text/html" + U), "txt.jinja": ("html", "text/plain" + U), "css": (None, "text/css" + U), "json": (None, "application/json"),
        "csv": (None, "text/csv" + U), "qqqx": (None, "application/octet-stream"), "": ("none", "text/plain" + U)}
FRAMEWORKS = {
    "actix": ('actix-web = { version = "4", default-features = false }\nactix-rt = { version = "2", default-features = false }\n', ["direct", "served"]),
    "axum": ('axum = { version = "0.7", default-features = false }\nhttp-body-util = "0.1"\ntokio = { version = "1.0", features = ["macros", "rt"] }\ntower = "0.5"\n', ["direct", "served", "into"]),
    "rocket": ('rocket = { version = "0.5", default-features = false }\ntokio = { version = "1.0", features = ["macros", "rt"] }\n', ["direct", "served"]),
    "warp": ('warp = { version = "0.3", default-features = false }\ntokio = { version = "1.0", features = ["macros", "rt", "time"] }\n', ["direct", "served"]),
}


def compare(exp, got):
    kind = exp[0]
    if got is None:
        return "nothing was reported"
    st, b, _ = got
    if kind == "ok":
        return default_compare((kind, exp[1], None), got)
    if kind == "fails":
        return None if st.startswith("err:") else f"rendering fails, but observed {st} with {b!r}"
    if kind == "page":
        if st != "200":
            return f"the response has status {st} although rendering succeeds"
        if b != exp[1].encode():
            return f"the body is {b!r} instead of {exp[1]!r}"
    elif kind == "page-head":
        if st != "ok":
            return st
        mime, types, length = b.decode().split("|")
        if types != mime or mime != exp[1]:
            return f"Content-Type is {types!r}, MIME_TYPE is {mime!r}, expected {exp[1]!r}"
        if length != str(exp[2]):
            return f"the length is announced as {length} instead of {exp[2]}"
    elif kind == "error":
        if not (st.isdigit() and 500 <= int(st) < 600):
            return f"rendering fails, but the response has status {st}"
        if exp[1].encode() in b:
            return f"the response to a failed rendering contains part of the page: {b!r}"
    elif kind == "error-head":
        if st != "ok":
            return st
        mime, types, length = b.decode().split("|")
        if "," in types:
            return f"more than one Content-Type: {types}"
    return None


def expectations(name, chans, out, mime, marker):
    exp = {}
    for j, (st, text, _) in enumerate(out):
        if st == "ok":
            exp[j, "render"] = ("ok", text, None)
            for c in chans:
                exp[j, c] = ("page", text, None)
                exp[j, c + "-head"] = ("page-head", mime, len(text.encode()))
        else:
            exp[j, "render"] = ("fails", None, None)
            for c in chans:
                exp[j, c] = ("error", marker, None)
                exp[j, c + "-head"] = ("error-head", None, None)
    return exp


def make_cases(ctx, fw, count, insts, chans):
    cases = []
    for i in range(count):
        def make(t):
            rng = ctx.rng(f"{fw}{i}/{t}")
            name = f"c{i}"
            ext = rng.choice(sorted(EXTS))
            esc, mime = EXTS[ext]
            attrs = ""
            if esc is None or rng.random() < .2:
                esc = rng.choice(["none", "html"])
                attrs = f', escape = "{esc}"'
            g = Multi(rng, name, trace=0, ws=rng.choice([0, .2]), esc=.2, depth=rng.choice([1, 2, 3]), edepth=1, max_nodes=rng.choice([5, 15, 30]), width=4, macros=2,
                      includes=rng.random() < .4, fails=rng.choice([0, 1, 1]), nodes={"lit": 4, "expr": 5, "let": 1, "if": 1.5, "match": .7, "for": 1.5, "filter": 1, "raw": .3, "call": 1, "include": 1, "fail": rng.choice([0, 2, 4])})
            marker = f"MARKER-{name}"
            if rng.random() < .35:
                f = g.hierarchy(rng.choice([1, 2, 3]))
            else:
                pre, call = g.preamble(g.cur_dir, n_imports=rng.choice([0, 1, 2]))
                g.callable = call
                f = g.new_file(pre + g.body(g.prof["depth"], 2, 6, scope=False), g.cur_dir)
            if rng.random() < .03:
                g.bulk(f.nodes)
            files = g.texts()
            if g.ambiguous:
                return None
            files = dict(files)
            root = f.path
            out = []
            for d in insts:
                I = Interp(d, {"none": "text"}.get(esc, esc))
                out.append(I.render(f, None))
            # the file under its extension, with a marker at the beginning if it has text of its own
            text = files[root]
            if not text.startswith("{% extends") and "extends" not in text:
                pre, files[root] = marker, marker + text
                out = [(st, None if x is None else marker + x, tr) for st, x, tr in out]
                if text[:1] in "\n\r \t" or text.startswith("{%-") or text.startswith("{{-") or text.startswith("{#-") or any(text.startswith(o + s) for o in ("{%", "{{", "{#") for s in "-~+"):
                    return None
            new = os.path.splitext(root)[0] + (f"_p.{ext}" if ext else "_p")
            files[new] = files[root]
            st = struct_rs("T", f'path = "{new}"' + attrs)
            info = f"{fw} {new}{attrs}\n" + "\n".join(f"--- {p}\n{x}" for p, x in files.items())
            return Case(name, files, module_rs([st], f'rt::answer::<T>("{name}", {len(insts)}, T::new);\n'), expectations(name, chans, out, mime, marker), info, key=(fw, name))
        cases.append(retry(make))
    return cases


GENERIC = '''use crate::rt::{{self, t}};
#[derive(askama::Template)]
#[template(source = {src}, ext = "{ext}"{attrs})]
pub struct T{params}{before} {{ pub a: {ty} }}
'''


def shapes(fw, chans):
    """Structs with lifetimes, type parameters and bounds, enums, unit structs"""
    res = []
    long = "<&>é\U0001f600" * 700
    vals = [("G", "", "&'static str", '"<b>&\'\\"é"', "<b>&'\"é"), ("G", "", "String", f'"<&>é\\u{{1f600}}".repeat(700)', long), ("L", "<'x>", "&'x str", '""', ""), ("G", "", "i64", "-5", "-5"), ("L", "<'x>", "std::borrow::Cow<'x, str>", '"a".into()', "a")]
    k = 0
    for kind, params, ty, val, shown in vals:
        for generic in ([False, True] if kind == "G" else [False]):
            for bound in ("inline", "where") if generic else ("",):
                for ext, mime in (("html", "text/html" + U), ("txt", "text/plain" + U), ("xml", "text/xml")):
                    n = f"g{k}"
                    k += 1
                    # a shape that works in all frameworks: every bound that a framework may need
                    need = "std::fmt::Display + Send + Sync + 'static"
                    p, before, fty = params, "", ty
                    tyname = "T"
                    if generic:
                        p = f"<X: {need}>" if bound == "inline" else "<X>"
                        before = f" where X: {need}" if bound == "where" else ""
                        fty = "X"
                        tyname = f"T::<{ty}>"
                    elif params:
                        tyname = "T::<'static>"
                    f = ESCAPERS["text" if ext == "txt" else "html"]
                    for fail in (False, True):
                        nn = n + ("f" if fail else "")
                        mk = "MARKER-" + nn
                        src = f"{mk}{{{{ a }}}}" + ("{{ t::fail(1) }}" if fail else "") + "z"
                        rs = GENERIC.format(src=rs_str(src), ext=ext, attrs="", params=p, before=before, ty=fty)
                        rs += f'pub fn run() {{ rt::answer("{nn}", 1, |_| {tyname} {{ a: {val} }}); }}\n'
                        out = [("err:fmt", None, None)] if fail else [("ok", f"{mk}{f(shown)}z", None)]
                        res.append(Case(nn, {}, rs, expectations(nn, chans, out, mime, mk), f"{fw}\n{rs}", key=(fw, nn)))
    return res


def main(ctx):
    ctx.rules.append("random templates (also inheritance, includes, macros; several extensions; parts that fail; structs with lifetimes, type parameters and bounds), served by the real integrations: returned by a handler of an application that is "
                     "asked over the framework's test client, turned into a response by the derived implementation, and by into_response; status, body, Content-Type and length are compared with the reference interpreter and with render; "
                     "a failing template must be answered with a 5xx status and without any text of the page; a case is a response")
    insts = instances(ctx.rng("data"), 3)
    data = data_rs(insts)

    def one(fw):
        deps, chans = FRAMEWORKS[fw]
        cases = make_cases(ctx, fw, ctx.scale(110, 600), insts, chans) + shapes(fw, chans)
        s = Shard(ctx, fw, cases, data, extra_rt=open(os.path.join(WEB, "common.rs")).read() + open(os.path.join(WEB, fw + ".rs")).read())
        s.setup()
        # crate-level paths `askama::` are the integration's
        main = [f"extern crate askama_{fw} as askama;", "#[macro_use] mod rt;", "mod data;"] + [f"mod {c.name};" for c in cases] + ["fn main() { rt::quiet();"]
        main += [f'println!("B {c.name}"); {c.name}::run(); println!("E {c.name}");' for c in cases] + ["}"]
        write(os.path.join(s.dir, "src", "main.rs"), "#![allow(unused)]\n" + "\n".join(main))
        write(os.path.join(s.dir, "Cargo.toml"), f'[package]\nname = "web-{fw}"\nversion = "0.0.0"\nedition = "2021"\npublish = false\n\n[workspace]\n\n[dependencies]\n'
              f'askama_{fw} = {{ path = "/repo/askama_{fw}", features = ["serde-json"] }}\naskama_escape = {{ path = "/repo/askama_escape" }}\n{deps}\n[profile.dev]\ndebug = 0\n')
        shutil.copy("/opt/vp/Cargo.lock", os.path.join(s.dir, "Cargo.lock"))
        tgt = os.path.join(BUILD, f"target-web-{fw}")
        rc, out, err = cargo(["build", "--offline", "--target-dir", tgt, "-j", "4"], cwd=s.dir, fatal=False)
        s.err = err.decode(errors="replace")
        s.built = cases
        if rc != 0:
            s.exe = None
            bad = {}
            for m in re.finditer(r"^error[^\n]*\n\s*--> src/(\w+)\.rs[^\n]*", s.err, re.M):
                bad.setdefault(m.group(1), m.group(0))
            s.rejected = {k: v for k, v in bad.items() if k in {c.name for c in cases}}
            if not s.rejected:
                raise CheckError(f"the program of {fw} does not compile: {s.err[-2500:]}")
            s.cases = [c for c in cases if c.name in s.rejected]
            return s
        s.exe = os.path.join(tgt, "debug", f"web-{fw}")
        rc, out, err = sh([s.exe], cwd=s.dir, timeout=300)
        done = s.parse(out)
        for c in cases:
            if c.name not in done:
                s.crashed[c.name] = f"the program ended with {rc}: {err[-300:]!r}"
                s.cases = cases[:cases.index(c) + 1]
                break
        return s
    for s in pmap(one, sorted(FRAMEWORKS)):
        ctx.add("programs_compiled", len(s.built))
        for st in [r[0] for k, r in s.results.items() if k[2] in FRAMEWORKS[s.idx][1]]:
            ctx.add(f"{s.idx}_answers_{st}")
        for c in s.cases[:1]:
            ctx.sample(show_case(c))
        for c in s.cases:
            judge(ctx, s, c, data, None, None, compare)
        shutil.rmtree(s.dir, ignore_errors=True)


run_check("C23", main)
