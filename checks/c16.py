import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from e1 import *

LAST = 99999

NOJSON = """
/// A value that has no representation in JSON, which turns out at some point
pub struct NoJson(pub u8);
impl serde::Serialize for NoJson {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeMap, SerializeSeq, SerializeStruct};
        match self.0 {
            0 => Err(S::Error::custom("no")),
            1 => { let mut q = s.serialize_seq(None)?; q.serialize_element("a")?; q.serialize_element(&NoJson(0))?; q.end() }
            2 => { let mut q = s.serialize_map(None)?; q.serialize_entry("a", &1)?; q.serialize_entry(&[1, 2], "b")?; q.end() }
            3 => { let mut q = s.serialize_struct("N", 2)?; q.serialize_field("a", "<")?; q.serialize_field("b", &NoJson(1))?; q.end() }
            4 => { let mut q = s.serialize_seq(Some(1))?; q.serialize_element(&1)?; Err(S::Error::custom("late")) }
            // (not `collect_str` with a failing `Display`: it panics in serde_json)
            5 => s.serialize_newtype_variant("E", 0, "V", &NoJson(4)),
            _ => s.serialize_some(&NoJson(2)),
        }
    }
}
pub fn nojson(k: u8) -> NoJson { NoJson(k) }
"""


def compare_with(kinds):
    def compare(exp, got):
        st, text, trace = exp
        if st == "ok":
            return default_compare(exp, got)
        if got is None:
            return "nothing was reported"
        if got[0] not in (["err:" + k for k in kinds] if len(kinds) > 1 else [st]):
            return f"expected outcome {st!r} but observed {got[0]!r} (text {got[1]!r})"
        if trace is not None and got[2][:len(trace)] != trace and len(kinds) == 1:
            return f"expected the evaluations {trace} and then an error, but observed {got[2]}"
        if LAST in got[2]:
            return f"rendering went on after the error: {got[2]}"
        return None
    return compare



def fixed(ctx):
    """All filters applied to values that cannot be displayed"""
    cases = []
    fl = ["capitalize", "center(0)", "center(5)", "center(50)", "e", "escape", 'escape("html")', 'escape("none")', "indent(0)", "indent(3)", "linebreaks", "linebreaksbr", "lower", "lowercase", "paragraphbreaks",
          "safe", "title", "trim", "truncate(0)", "truncate(1)", "truncate(4)", "truncate(5)", "truncate(100)", "upper", "uppercase", "urlencode", "urlencode_strict", "wordcount", "as_ref", "as_ref|deref"]
    srcs = [("{{ t::fail(1)|%s }}" % f, None) for f in fl]
    srcs += [("{{ t::fail(1)|%s|%s }}" % (f, h), None) for f in fl if "as_ref" not in f for h in ("upper", "safe", "center(9)", "truncate(1)", "escape", "trim", "wordcount", "capitalize", "indent(1)", "urlencode", "linebreaks", "title")]
    srcs += [("{%% filter %s %%}a{{ t::fail(1) }}b{%% endfilter %%}" % f, None) for f in fl if "as_ref" not in f]
    srcs += [("{{ [t::fail(1)]|join(\"\") }}", None), ("{{ [t::fail(1), t::fail(1)]|join(\", \")|upper }}", None), ("{{ [1, 2]|join(t::fail(1)) }}", None), ("{{ t::fail(1) }}", None),
             ("{{ format!(\"{}\", 1)|wrap(t::fail(1)) }}", None), ("{% let z = t::fail(1) %}{{ z }}", None), ("{% macro m(x) %}{{ x }}{% endmacro %}{% call m(t::fail(1)) %}", None),
             ("{% for z in [t::fail(1)] %}{{ z }}{% endfor %}", None), ("{{ (t::fail(1)) }}", None), ("{% match Some(t::fail(1)) %}{% when Some with (z) %}{{ z }}{% when None %}{% endmatch %}", None),
             ("{% for z in [1, 2] %}{{ loop.cycle(t::none()) }}{% endfor %}", None), ("{% for z in [1, 2] %}{% if loop.first %}{% else %}{{ loop.cycle(t::none())|upper }}{% endif %}{% endfor %}", None)]
    for at in range(4):
        arr = "[" + ", ".join(f"t::but({z}, {at})" for z in range(4)) + "]"
        srcs += [("{{ %s|join(%s) }}" % (arr, sep), None) for sep in ('""', '", "', "1")] + [("{{ %s|join(\"-\")|%s }}" % (arr, f), None) for f in ("upper", "truncate(1)", "truncate(99)", "safe", "wordcount", "title")]
        srcs += [("{%% for z in %s %%}{{ z }}{%% endfor %%}" % arr, None)]
    srcs += [("{{ [1, 2, 3]|join(t::fail(1)) }}", None)]
    srcs += [("{{ t::fail(1)|fmt(\"{}\") }}", "fmt-filter-of-failing-display"), ("{{ \"{}\"|format(t::fail(1)) }}", "format-filter-of-failing-display")]
    for k in range(7):
        v = f"crate::rt::nojson({k})"
        srcs += [("{{ %s|%s }}" % (v, f), None) for f in ("json", "tojson", "json|safe", "json|upper", "json|truncate(1)", "json|escape", "json|wordcount", "json|center(3)")]
        srcs += [("{%% let z = %s %%}{{ z|json }}" % v, None), ("{%% macro m(x) %%}{{ x|json }}{%% endmacro %%}{%% call m(%s) %%}" % v, None), ("{%% filter lower %%}{{ %s|json|safe }}{%% endfilter %%}" % v, None),
                 ("{%% for z in [%s] %%}{{ z|json }}{%% endfor %%}" % v, None), ("{{ [%s]|json }}" % v, None), ("{{ (1, %s)|json }}" % v, None)]
    for i, (src, ident) in enumerate(srcs):
        for ext in ("html", "txt"):
            n = f"x{i}{ext}"
            c = Case(n, {f"{n}.{ext}": "before " + src + " after"}, module_rs([struct_rs("T", f'path = "{n}.{ext}"')], run_rs(n, "T", 1)), {(0, "render"): ("err:fmt", None, None)}, src, ident=ident)
            c.kinds = ["fmt"]
            cases.append(c)
    return cases


def main(ctx):
    ctx.rules.append("random templates with up to two things that fail (values whose Display fails after some text, `?` on errors, custom filters, empty loop.cycle) in every kind of place, alone or "
                     "depending on the values: printed, filtered, joined, in let, conditions, scrutinees, iterables, arguments, filter blocks, macros, includes, blocks, loops; all filters on such values; 3 values each: "
                     "the outcome, the kind of the error, the evaluations before it and that nothing is evaluated behind it are compared with a reference interpreter; templates without failures must succeed")
    insts = instances(ctx.rng("data"), 3)
    cases = fixed(ctx)
    for i in range(ctx.scale(1500, 12000)):
        def make(t):
            rng = ctx.rng(f"{i}/{t}")
            g = Multi(rng, f"c{i}", trace=.1, ws=rng.choice([0, .2]), esc=.1, depth=rng.choice([2, 3, 4]), edepth=1, max_nodes=rng.choice([10, 30, 40]), width=4, macros=2,
                      includes=rng.random() < .4, fails=rng.choice([1, 1, 1, 2]),
                      filters=["upper", "lower", "trim", "capitalize", "wrap", "tag", "len", "rev", "center", "wordcount", "linebreaks", "linebreaksbr", "title", "indent", "tf", "truncate"],
                      nodes={"lit": 4, "expr": 4, "let": 1, "if": 2, "match": 1, "for": 2, "decl": .2, "filter": 2, "raw": .3, "comment": .2, "call": 1, "include": 1, "break": .5, "fail": rng.choice([2, 6])})
            if rng.random() < .4:
                f = g.hierarchy(rng.choice([1, 2]))
            else:
                pre, call = g.preamble(g.cur_dir, n_imports=0)
                g.callable = call
                f = g.new_file(pre + g.body(g.prof["depth"], 2, 6, scope=False), g.cur_dir)
            if not g.fail_kinds and rng.random() < .9:
                return None
            root = heritage(f)[0]
            root.nodes.append(If([(("", ""), X("fn", "t::b", [X("lit", str(LAST), LAST), X("lit", "true", True)], ty="bool"), [])], ("", ""), None))
            c = multi_case(ctx, f"c{i}", g, f, insts)
            if c:
                c.kinds = g.fail_kinds
            return c
        cases.append(retry(make))
    for c in cases[-3:]:
        ctx.sample(show_case(c))
    for c in cases:
        for v in c.expect.values():
            ctx.add("outcome_" + re.sub(r"\d+", "", v[0]))
    by = {id(e): c for c in cases for e in c.expect.values()}
    run_cases(ctx, cases, data_rs(insts), extra_rt=NOJSON, nontrivial=lambda c, i, e: e[0] != "ok", compare=lambda exp, got: compare_with(by[id(exp)].kinds)(exp, got))


run_check("C16", main)
