"""Every place in a template that can hold other constructs, for checks that put something into each of them.

The template has the fields `b: bool` (true), `c: bool` (false), `v: Vec<i64>` ([1, 2]), `e: Vec<i64>` (empty),
`o: Option<i64>` (Some(5)), `p: Option<i64>` (None) and `n: i64` (3). A place is a pair of a text with `X` and a
function from the text of X to the text of all of it.
"""
import os

from shards import Case

FIELDS = "b: bool, c: bool, v: Vec<i64>, e: Vec<i64>, o: Option<i64>, p: Option<i64>, n: i64"
VALUE = "b: true, c: false, v: vec![1, 2], e: Vec::new(), o: Some(5), p: None, n: 3"

PLACES = {
    "top": ("X", lambda x: x),
    "if": ("{% if self.b %}X{% endif %}", lambda x: x),
    "if-with-else": ("{% if self.b %}X{% else %}-{% endif %}", lambda x: x),
    "elif": ("{% if self.c %}-{% elif self.b %}X{% endif %}", lambda x: x),
    "second-elif": ("{% if self.c %}-{% elif self.c %}-{% else if self.b %}X{% else %}-{% endif %}", lambda x: x),
    "else": ("{% if self.c %}-{% else %}X{% endif %}", lambda x: x),
    "else-after-elif": ("{% if self.c %}-{% elif self.c %}-{% else %}X{% endif %}", lambda x: x),
    "if-let": ("{% if let Some(_i) = self.o %}X{% endif %}", lambda x: x),
    "elif-let": ("{% if self.c %}-{% else if let Some(_i) = self.o %}X{% endif %}", lambda x: x),
    "else-of-if-let": ("{% if let Some(_i) = self.p %}-{% else %}X{% endif %}", lambda x: x),
    "not-taken": ("{% if self.c %}X{% endif %}.", lambda x: "."),
    "when": ("{% match self.o %}{% when Some with (_i) %}X{% when None %}-{% endmatch %}", lambda x: x),
    "last-when": ("{% match self.p %}{% when Some with (_i) %}-{% when None %}X{% endmatch %}", lambda x: x),
    "match-else": ("{% match self.n %}{% when 1 %}-{% when 2 or 4 %}-{% else %}X{% endmatch %}", lambda x: x),
    "when-not-taken": ("{% match self.n %}{% when 1 %}X{% else %}.{% endmatch %}", lambda x: "."),
    "for": ("{% for _i in self.v %}X,{% endfor %}", lambda x: f"{x},{x},"),
    "for-if": ("{% for _i in self.v if self.b %}X,{% endfor %}", lambda x: f"{x},{x},"),
    "for-range": ("{% for _i in 0..2 %}X{% if loop.last %};{% endif %}{% endfor %}", lambda x: f"{x}{x};"),
    "for-with-else": ("{% for _i in self.v %}X,{% else %}-{% endfor %}", lambda x: f"{x},{x},"),
    "for-else": ("{% for _i in self.e %}-{% else %}X{% endfor %}", lambda x: x),
    "for-if-else": ("{% for _i in self.v if self.c %}-{% else %}X{% endfor %}", lambda x: x),
    "for-else-not-taken": ("{% for _i in self.v %}.{% else %}X{% endfor %}", lambda x: ".."),
    "before-break": ("{% for _i in self.v %}X{% break %}-{% endfor %}", lambda x: x),
    "before-continue": ("{% for _i in self.v %}X{% continue %}-{% endfor %}", lambda x: x + x),
    "filter": ("{% filter upper %}X{% endfilter %}", lambda x: x.upper()),
    "filters": ("{% filter lower|upper %}<X>{% endfilter %}", lambda x: f"<{x.upper()}>"),
}


def escape(t):
    for a, b in ("&", "&amp;"), ("<", "&lt;"), (">", "&gt;"), ('"', "&quot;"), ("'", "&#x27;"):
        t = t.replace(a, b)
    return t


def nested(*names, html=False):
    """The text with X, and the function, of places within each other"""
    text, f = "X", lambda x: x
    for n in reversed(names):
        t, g = PLACES[n]
        if html and n in ("filter", "filters"):  # what they yield is escaped like the value of an expression
            g = (lambda g: lambda x: escape(g(x)))(g)
        text = t.replace("X", text)
        f = (lambda g, f: lambda x: g(f(x)))(g, f)
    return text, f


def pairs(rng):
    """All pairs of places, in random order"""
    out = [(a, b) for a in PLACES for b in PLACES]
    rng.shuffle(out)
    return out


def include_set(rng, name, todo, marks={}):
    """Files in which others are included in pairs of places, of files of all roles. Returns all files, the path of the template,
    the paths of those that are used, and what the template renders. The
    texts in `marks` are in the files of these numbers."""
    roles = {"base": [], "override": [], "macro": [], "library": [], "included": []}
    files, used = {}, set()
    for k, (a, b) in enumerate(todo):
        t, f = nested(a, b)
        role = rng.choice(sorted(roles))
        here = {"base": "base", "override": "one/two", "macro": "one/two", "library": "one/libs/more", "included": "one/inner"}[role]
        how = rng.choice(["same", "dot", "up", "down", "root"])
        path, at = {"same": (f"i{k}.txt", f"{here}/i{k}.txt"), "dot": (f"./i{k}.txt", f"{here}/i{k}.txt"),
                    "up": (f"../i{k}.txt", os.path.normpath(f"{here}/../i{k}.txt")), "down": (f"sub/i{k}.txt", f"{here}/sub/i{k}.txt"),
                    "root": (f"{name}/roots/i{k}.txt", f"roots/i{k}.txt")}[how]
        files[f"{name}/{at}"] = f"i{k}{marks.get(k, '')}" + "{{ self.n }}"
        used.add(f"{name}/{at}")
        if how in ("same", "down") and rng.random() < .5:
            files.setdefault(path, "DECOY")
        roles[role].append((t.replace("X", '{% include "' + path + '" %}') + ";", f(f"i{k}{marks.get(k, '')}3") + ";"))
    text, want = {}, {}
    for role, parts in roles.items():
        text[role] = "".join(p for p, _ in parts)
        want[role] = "".join(w for _, w in parts)
    files[f"{name}/base/base.txt"] = "{% block first %}[" + text["base"] + "]{% endblock %}{% block second %}not this{% endblock %}"
    files[f"{name}/one/two/t.txt"] = ('{% extends "../../base/base.txt" %}{% import "../libs/more/lib.txt" as lib %}{% macro m() %}' + text["macro"] + "{% endmacro %}"
        + "{% block second %}" + text["override"] + '|{% call m() %}|{% call lib::m() %}|{% include "../inner/inc.txt" %}{% endblock %}')
    files[f"{name}/one/libs/more/lib.txt"] = "{% macro m() %}" + text["library"] + "{% endmacro %}"
    files[f"{name}/one/inner/inc.txt"] = text["included"]
    used |= {f"{name}/base/base.txt", f"{name}/one/two/t.txt", f"{name}/one/libs/more/lib.txt", f"{name}/one/inner/inc.txt"}
    return files, f"{name}/one/two/t.txt", used, "[" + want["base"] + "]" + "|".join(want[r] for r in ("override", "macro", "library", "included"))


LIB = ('{% macro m(x, y) %}({{ x }}{% if y == "a" %}!{% endif %}){% endmacro %}{% macro twice(x) %}{% for _t in 0..2 %}{{ x }}{% endfor %}{% endmacro %}'
       "{% macro none() %}{% endmacro %}{% macro rec(x) %}{% call m(x=x, y=\"a\") %}{% endmacro %}")


def probe_cases(rng, tag, probes, ext="txt", attrs="", tidy=None, text=lambda t: t):
    """Constructs in all pairs of places of files of all roles. A probe is a function of a number, which is unique, to a text, in which `lib` and `own` are scopes
    and files with the macros of LIB, and what it renders. `tidy` alters what is around X, `text` all texts."""
    cases, todo = [], pairs(rng)
    for q in range(0, len(todo), 24):
        name = f"{tag}_{q}"
        roles = {"base": ["", ""], "override": ["", ""], "macro": ["", ""], "library": ["", ""], "included": ["", ""]}
        for k, (a, b) in enumerate(todo[q:q + 24]):
            t, f = nested(a, b, html=ext == "html")
            role = roles[rng.choice(sorted(roles))]
            x, want = rng.choice(probes)(k)
            t = tidy(t) if tidy else t
            role[0] += t.replace("X", x) + ";"
            role[1] += f(str(want)) + ";"
        use = '{% import "NAME/lib.EXT" as lib %}' + LIB
        files = {"base.EXT": use + "{% block first %}[BASE]{% endblock %}{% block second %}not this{% endblock %}",
                 "t.EXT": '{% extends "NAME/base.EXT" %}' + use + '{% import "NAME/other.EXT" as other %}{% macro local() %}MACRO{% endmacro %}{% block second %}OVERRIDE|{% call local() %}|{% call other::remote() %}|{% include "NAME/inc.EXT" %}{% endblock %}',
                 "other.EXT": use + "{% macro remote() %}LIBRARY{% endmacro %}", "inc.EXT": use + "INCLUDED", "lib.EXT": LIB}
        def sub(t):
            for r, (x, _) in roles.items():
                t = t.replace(r.upper(), x)
            return t.replace("NAME", name).replace("EXT", ext)
        files = {f"{name}/{p}".replace("EXT", ext): text(sub(t)) for p, t in files.items()}
        want = "[" + roles["base"][1] + "]" + "|".join(roles[r][1] for r in ("override", "macro", "library", "included"))
        rs = ("use crate::rt;\n" + f'#[derive(askama::Template)]\n#[template(path = "{name}/t.{ext}"{attrs})]\npub struct T {{ {FIELDS}, h: String }}\n'
              f'pub fn run() {{ rt::exec_as("{name}", 0, "render", &T {{ {VALUE}, h: String::from("<a&\\"b\\"\'>") }}); }}\n')
        cases.append(Case(name, files, rs, {(0, "render"): ("ok", want, None)}, "\n".join(f"--- {p}\n{t}" for p, t in files.items())))
    return cases


# Constructs that mean the same everywhere, by what they are about
def const(text, want):
    return lambda k: (text.replace("K", str(k)), str(want).replace("K", str(k)))


PROBES = {
    "lets": [const(*p) for p in [
        ("{% let q = 5 %}{{ q }}", 5), ("{% let q = self.n + 1 %}{{ q }}{{ self.n }}", 43), ("{% let q = 1 %}{% let q = q + 1 %}{{ q }}", 2), ("{% if self.b %}{% let q = 1 %}{{ q }}{% let q = 2 %}{{ q }}{% endif %}", 12),
        ("{% let dK %}{% if self.b %}{% let dK = 4 %}{% else %}{% let dK = 5 %}{% endif %}{{ dK }}", 4), ("{% let dK %}{% match self.o %}{% when Some(z) %}{% let dK = z + 0 %}{% when None %}{% let dK = self.n + 0 %}{% endmatch %}{{ dK }}", 5),
        ("{% let (q, z) = (1, 2) %}{{ q }}{{ z }}", 12), ("{% let uK = 1 %}{% for uK in self.v %}{{ uK }}{% endfor %}{{ uK }}", 121), ("{% let uK = 1 %}{% if let Some(uK) = self.o %}{{ uK }}{% endif %}{{ uK }}", 51),
        ("{% let uK = 1 %}{% match self.o %}{% when Some(uK) %}{{ uK }}{% when None %}{% endmatch %}{{ uK }}", 51), ("{% let uK = 1 %}{% filter upper %}{% let uK = 2 %}{{ uK }}{% endfilter %}", 2), ("{% let uK = 1 %}{% for uK in self.v %}{% let uK = 7 %}{{ uK }}{% endfor %}{{ uK }}", 771),
        ("{% for n in self.v %}{{ n }}{{ self.n }}{% endfor %}{{ self.n }}", "13233"), ("{% set q = 1 -%} {%- set z = q + 1 %}{{ q + z }}", 3), ("{% let uK = 1 %}{% if uK == 1 %}{% let uK = 2 %}{% endif %}{{ uK }}", 1)]],
    "loops": [const(*p) for p in [
        ("{% for i in self.v %}{{ i }}{{ loop.index }}{{ loop.index0 }}{{ loop.first }}{{ loop.last }}{% endfor %}", "110truefalse221falsetrue"), ("{% for i in self.e %}{{ i }}{% else %}none{% endfor %}", "none"),
        ("{% for i in 0..3 %}{% if i == 1 %}{% continue %}{% endif %}{{ i }}{% endfor %}", "02"), ("{% for i in 0..9 %}{% if i == 2 %}{% break %}{% endif %}{{ i }}{% endfor %}", "01"), ("{% for i in 0..3 %}{{ loop.cycle([7, 8]) }}{% endfor %}", "787"),
        ("{% for i in self.v %}{% for j in 0..2 %}{{ i }}{{ j }}{% if loop.last %};{% endif %}{% endfor %}{{ loop.last }}{% endfor %}", "1011;false2021;true"), ("{% for i in self.v if crate::rt::t::n(i) > 1 %}{{ i }}{{ loop.index }}{% endfor %}", "21"),
        ("{% for i in self.v if crate::rt::t::n(i) > 9 %}{{ i }}{% else %}none{% endfor %}", "none"), ("{% for (i, j) in [(1, 2), (3, 4)] %}{{ i }}{{ j }}{% endfor %}", "1234"), ("{% for i in self.v %}{% for j in self.v %}{% if loop.last %}{% break %}{% endif %}{{ j }}{% endfor %}{{ i }}{% endfor %}", "1112"),
        ("{% for i in self.o %}{{ i }}{% else %}-{% endfor %}", "5"), ("{% for i in self.p %}{{ i }}{% else %}-{% endfor %}", "-"), ("{% for i in 0..3 %}{% match i %}{% when 1 %}{% continue %}{% else %}{{ i }}{% endmatch %},{% endfor %}", "0,2,")]],
    "calls": [const(*p) for p in [
        ("{% call m(self.n, \"a\") %}", "(3!)"), ("{% call m(y=\"a\", x=self.n) %}", "(3!)"), ("{% call m(K, y=\"b\") %}", "(K)"), ("{% call lib::m(K, \"a\") %}", "(K!)"), ("{% call lib::rec(K) %}", "(K!)"), ("{% call rec(K) %}", "(K!)"),
        ("{% call twice(K) %}", "KK"), ("{% call lib::twice(self.n + K) -%} {%- call none() %}{% call lib::none() %}".replace("self.n + K", "K"), "KK"), ("{% for i in self.v %}{% call lib::m(i, \"a\") %}{% call twice(loop.index) %}{% endfor %}", "(1!)11(2!)22"),
        ("{% let m = K %}{% call m(m, \"\") %}", "(K)"), ("{% if let Some(x) = self.o %}{% call m(y=\"a\", x=x) %}{{ x }}{% endif %}", "(5!)5"), ("{% match self.n %}{% when 3 %}{% call lib::m(1, \"b\") %}{% else %}{% call m(1, \"a\") %}{% endmatch %}", "(1)"),
        ("{% filter upper %}{% call m(\"c\", \"a\") %}{% endfilter %}{% call m(\"c\", \"a\")%}", "(C!)(c!)")]],
    "filters": [const(*p) for p in [
        ("{% filter upper %}aK{{ self.n }}{% endfilter %}", "AK3"), ("{% filter upper %}a{% filter lower %}B{% endfilter %}c{% endfilter %}", "ABC"), ("{% filter trim %}  a-{{ self.n }} {% endfilter %}", "a-3"), ("{% filter truncate(2) %}abc{% endfilter %}", "ab..."),
        ("{% filter lower|capitalize %}aBC{% endfilter %}", "Abc"), ("{% filter upper %}{% endfilter %}", ""), ("{% filter trim %} {% if self.b %} a {% endif %} {% endfilter %}", "a"), ("{% filter capitalize %}{% for i in self.v %}a{{ i }}{% endfor %}{% endfilter %}", "A1a2"),
        ("{% filter upper %}{% let q = \"a\" %}{{ q }}{% endfilter %}b", "Ab"), ("{% filter trim|upper %} {% call m(\"x\", \"a\") %} {% endfilter %}", "(X!)"), ("{% filter upper %}a{% endfilter %}b{% filter lower %}C{% endfilter %}", "Abc"), ("{% filter wordcount %}a{{ self.n }}-b c{% endfilter %}", "2"),
        ("{% filter lower %}{% filter upper %}{% filter capitalize %}{% filter trim %} a {% endfilter %}b{% endfilter %}c{% endfilter %}d{% endfilter %}", "abcd")]],
    "texts": [const(*p) for p in [
        ("{% raw %}{{ x }}{% endraw %}", "{{ x }}"), ("{% raw %}{% if %}{# a #}{% endraw %}", "{% if %}{# a #}"), ("{# a #}b{# {{ c }} #}", "b"), ("{# a {# b #} c #}d", "d"), ("a{% raw %}b{% endraw %}c", "abc"), ("{% raw %}{% endraw %}a", "a"), ("}} %} #}", "}} %} #}"), ("{ { ", "{ { "), ("{{ \"{{ }} %}\" }}", "{{ }} %}")]],
    # white space on both sides, which the signs remove
    "spaces": [const(f" {p[0]}\n", p[1]) for p in [
        ("{{- self.n -}}", 3), ("{%- if self.b -%} a {%- endif -%}", "a"), ("{%- if self.c -%} a {%- elif self.b -%} b {%- else -%} c {%- endif -%}", "b"), ("{%- let q = 4 -%} {{- q -}}", 4), ("{#- a -#}\t{{- self.n -}}", 3), ("{%- raw -%} a {%- endraw -%}", "a"),
        ("{%- for i in self.v -%} {{- i -}} ,\n{%- endfor -%}", "1,2,"), ("{%- for i in self.e -%} a {%- else -%} b {%- endfor -%}", "b"), ("{%- match self.o -%} {%- when Some(z) -%} {{- z -}} {%- when None -%} a {%- endmatch -%}", 5), ("{%- call m(1, \"b\") -%}", "(1)"),
        ("{%- filter upper -%} a {%- endfilter -%}", "A"), ("{%- include \"NAME/lib.EXT\" -%} b {{- self.n -}}", "b3"), ("{%- call lib::none() -%} {{- self.n -}}", 3), ("{%- let dK -%}\n{%- let dK = 1 -%} a {{- dK -}}", "a1")]],
    "escapes": [const(*p) for p in [
        ("{{ self.h }}", "&lt;a&amp;&quot;b&quot;&#x27;&gt;"), ("{{ self.h|safe }}", "<a&\"b\"'>"), ("{{ self.h|escape }}", "&lt;a&amp;&quot;b&quot;&#x27;&gt;"), ("{{ \"<\" }}", "&lt;"), ("<{{ self.n }}>", "<3>"), ("{{ self.h|e(\"none\") }}", "<a&\"b\"'>"),
        ("{% let q = \"<\" %}{{ q }}", "&lt;"), ("{% call m(\"<\", \"a\") %}", "(&lt;!)"), ("{% call lib::m(self.h, \"\") %}", "(&lt;a&amp;&quot;b&quot;&#x27;&gt;)"), ("{% for i in [\"<\", \"a\"] %}{{ i }}{% endfor %}", "&lt;a"), ("{% filter lower %}{{ self.h }}<B>{% endfilter %}", escape("&lt;a&amp;&quot;b&quot;&#x27;&gt;<b>")), ("{% filter lower|safe %}{{ self.h }}<B>{% endfilter %}", "&lt;a&amp;&quot;b&quot;&#x27;&gt;<b>")]],
}
