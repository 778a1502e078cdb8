import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from e1 import *

META = '''
pub fn meta<T: askama::Template>(case: &str, inst: usize, t: &T) -> usize {
    use askama::{DynTemplate, Template};
    fn of<T: Template + ?Sized>(_: &T) -> (Option<&'static str>, &'static str, usize) { (T::EXTENSION, T::MIME_TYPE, T::SIZE_HINT) }
    fn dy(t: &dyn DynTemplate) -> (Option<&'static str>, &'static str, usize) { (t.extension(), t.mime_type(), t.size_hint()) }
    let m = of(t);
    let all = [("reference", of(&t)), ("reference to a reference", of(&&t)), ("dyn", dy(t)), ("dyn of a reference", dy(&t)), ("DynTemplate", (t.extension(), t.mime_type(), t.size_hint()))];
    let st = match all.iter().find(|a| a.1 != m) { None => "ok".to_string(), Some((w, x)) => format!("differs:{}", hex(format!("{w}: {x:?} instead of {m:?}").as_bytes())) };
    println!("R {case} {inst} meta {st} {} t", hex(format!("{:?} {}", m.0, m.1).as_bytes()));
    m.2
}
pub fn same(case: &str, hints: &[usize]) {
    let st = if hints.windows(2).all(|w| w[0] == w[1]) { "ok" } else { "differ" };
    println!("R {case} 0 hints {st} {} t", hex(format!("{hints:?}").as_bytes()));
}
'''
U = "; charset=utf-8"
MIMES = {
    "html": "text/html" + U, "htm": "text/html" + U, "txt": "text/plain" + U, "text": "text/plain" + U, "css": "text/css" + U, "csv": "text/csv" + U, "tsv": "text/tab-separated-values" + U,
    "json": "application/json", "xml": "text/xml", "svg": "image/svg+xml", "png": "image/png", "jpg": "image/jpeg", "jpeg": "image/jpeg", "gif": "image/gif", "pdf": "application/pdf",
    "zip": "application/zip", "md": "text/markdown", "bin": "application/octet-stream", "mp3": "audio/mpeg", "mp4": "video/mp4", "tar": "application/x-tar", "rtf": "application/rtf", "webp": "image/webp",
    "wasm": "application/wasm", "ics": "text/calendar", "bmp": "image/bmp", "xhtml": "application/xhtml+xml", "epub": "application/epub+zip", "vcf": "text/x-vcard", "log": "text/plain" + U, "conf": "text/plain" + U,
    "HTML": "text/html" + U, "Txt": "text/plain" + U, "CSS": "text/css" + U, "Html": "text/html" + U, "JSON": "application/json", "SVG": "image/svg+xml",
    "zzz": "application/octet-stream", "qqqqx": "application/octet-stream", "html5x": "application/octet-stream", "é": "application/octet-stream", "h-t": "application/octet-stream", "typ": None, "yml": None, "js": None, "none": "application/octet-stream",
    "j2x": "application/octet-stream", "html~": "application/octet-stream", "askama_": "application/octet-stream", "ht": "application/octet-stream", "csvx": "application/octet-stream", "jinja3": "application/octet-stream",
}
JINJA = ["j2", "jinja", "jinja2"]
ESCAPERS_OF = [None, "html", "htm", "svg", "xml", "j2", "jinja", "jinja2", "md", "none", "txt", "typ", "yml"]
OCTETS = "application/octet-stream"
ODD = {"rtf": {"application/rtf", "text/rtf"}, "vcf": {"text/x-vcard", "text/vcard"}, "xml": {"text/xml", "application/xml"}, "js": {"text/javascript", "application/javascript", "application/javascript; charset=utf-8", "text/javascript; charset=utf-8"},
       "yml": {"text/x-yaml", "application/yaml", "text/yaml", "application/x-yaml"}, "typ": {OCTETS}}


def mimes(ext):
    if ext is None:
        return {"text/plain" + U}
    return ODD.get(ext) or {MIMES.get(ext, OCTETS)}


def file_name(rng):
    """(name, extension) of a template file"""
    base = rng.choice(["t", "a.b", "x.html.y", "a-b", "ü", "j2", "html", "a.j2.b", "x.txt.q"])
    r = rng.random()
    if r < .1:
        return (base, base.split(".")[-1] if "." in base else None)
    e = rng.choice(sorted(MIMES))
    if r < .55:
        return base + "." + e, e
    j = rng.choice(JINJA)
    if r < .9:
        return base + "." + e + "." + j, e
    base = rng.choice(["t", "a-b", "ü", "html"])
    if r < .95:
        return base + "." + j, j
    k = rng.choice(JINJA)
    return base + "." + k + "." + j, k


def debug(s):
    return "None" if s is None else 'Some("' + s + '")'


KINDS = {
    "plain": ("struct {N} {{ a: i64 }}", "{N} {{ a: 1 }}"),
    "more": ("struct {N} {{ a: i64, b: String, c: [u8; 400] }}", "{N} {{ a: 5, b: String::new(), c: [0; 400] }}"),
    "life": ("struct {N}<'x> {{ a: &'x str }}", "{N} {{ a: \"abc\" }}"),
    "generic": ("struct {N}<X: std::fmt::Display> {{ a: X }}", "{N} {{ a: 2.5 }}"),
    "generic2": ("struct {N}<X> where X: std::fmt::Display {{ a: X }}", "{N} {{ a: String::from(\"a long text, that is longer than anything in the template\") }}"),
}


def main(ctx):
    ctx.rules.append("random file names (nested extensions, .j2/.jinja/.jinja2, dots in directories, upper case, unknown and missing extensions), `ext` attributes and inline sources, also for templates that extend or include files of "
                     "other types and for block fragments: EXTENSION and MIME_TYPE of the type, of references and of trait objects are compared with a table and an independent reading of the name; SIZE_HINT must agree among types of different "
                     "shape with the same template; a case is a derived type")
    cases, want = [], {}
    for i in range(ctx.scale(900, 6000)):
        rng = ctx.rng(str(i))
        n = f"m{i}"
        files, structs, run, exp = {}, [], [], {}
        body = rng.choice(["x{{ a }}", "{{ a }}{% if true %}y{% endif %}", "é{{ a }}", "{% for i in 0..3 %}{{ i }}{{ a }}{% endfor %}", "", "{{ a }}" * rng.randint(1, 6), "text " * rng.randint(0, 50)])
        how = rng.choice(["path", "path", "path", "source", "pathext", "extends", "include", "block"])
        if how == "source":
            e = rng.choice(sorted(MIMES) + JINJA + ["html.j2", "a.b"])
            attrs = f'source = {rs_str(body)}, ext = {rs_str(e)}'
        else:
            d = rng.choice([n, n + "/d.html", n + "/x.j2", n + "/a/b.c.css"])
            name, e = file_name(rng)
            path = f"{d}/{name}"
            if how == "extends":
                bname, _ = file_name(rng)
                base = f"{n}/base/{bname}"
                files[base] = "<{% block x %}{% endblock %}>"
                body = '{% extends "' + base + '" %}{% block x %}' + body + "{% endblock %}"
            elif how == "include":
                bname, _ = file_name(rng)
                inc = f"{n}/inc/{bname}"
                files[inc] = "inc"
                body += '{% include "' + inc + '" %}'
            elif how == "block":
                body = "{% block x %}" + body + "{% endblock %}"
            files[path] = body
            attrs = f"path = {rs_str(path)}"
            if how == "block":
                attrs += ', block = "x"'
            if how == "pathext":
                e = rng.choice(sorted(MIMES) + ["html", "txt"])
                attrs += f", ext = {rs_str(e)}"
        if how == "pathext" or e not in ESCAPERS_OF or rng.random() < .2:
            # (the others have no escaper)
            attrs += ', escape = "none"'
        ks = rng.sample(sorted(KINDS), 2)
        for j, k in enumerate(ks):
            N = f"S{j}"
            structs.append(f"#[derive(askama::Template)]\n#[template({attrs})]\n{KINDS[k][0].format(N=N)}\n")
            run.append(f'rt::meta("{n}", {j}, &{KINDS[k][1].format(N=N)})')
            exp[j, "meta"] = ("ok", debug(e), sorted(mimes(e)))
        exp[0, "hints"] = ("ok", None, None)
        rs = "#![allow(dead_code)]\nuse crate::rt;\n" + "".join(structs) + f'pub fn run() {{ let h = [{", ".join(run)}]; rt::same("{n}", &h); }}\n'
        cases.append(Case(n, files, rs, exp, f"{attrs}\n" + "\n".join(f"--- {p}\n{t}" for p, t in files.items())))
        ctx.add("kind_" + how)

    def compare(exp, got):
        if got is None:
            return "nothing was reported"
        if got[0] != "ok":
            return f"{got[0]} {got[1]!r}" if not got[0].startswith("differs:") else "constants differ: " + bytes.fromhex(got[0][9:]).decode()
        if exp[1] is not None:
            e, m = got[1].decode().split(" ", 1)
            if e != exp[1]:
                return f"EXTENSION is {e} instead of {exp[1]}"
            if m not in exp[2]:
                return f"MIME_TYPE is {m!r} instead of {exp[2]} (EXTENSION {e})"
    for c in cases[:3]:
        ctx.sample(show_case(c))
    run_cases(ctx, cases, "", extra_rt=META, compare=compare)


run_check("C25", main)
