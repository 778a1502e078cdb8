"""Random models of templates, by profile, and the Rust source of their test programs."""
import itertools
from decimal import Decimal
from common import rs_str
from model import *

# --------------------------------------------------------------------------------------------
# context data: every generated struct has these fields

FIELDS = [
    ("a", "i64"), ("b", "i64"), ("n", "i64"), ("k", "usize"), ("p", "bool"), ("q", "bool"),
    ("s", "String"), ("u", "String"), ("v", "Vec<i64>"), ("w", "Vec<String>"), ("x0", "Vec<i64>"),
    ("items", "Vec<Item>"), ("o", "Option<i64>"), ("os", "Option<String>"), ("e", "En"),
    ("r", "Result<i64, String>"), ("t2", "(i64, String)"), ("it", "Item"), ("type", "i64"), ("_i", "i64"),
    ("fn", "fn(&i64) -> i64"), ("tw", "fn(&i64) -> i64"),
]
CHUNKS = ["<b>", "&", "\"", "'", "<", ">", "abc", "x", " ", "Zed", "é", "日本", "\n", "1", "&amp;", "{{ a }}", "}", "{", "/", "\\", "q w"]


def rand_str(rng, lo=0, hi=5):
    return "".join(rng.choice(CHUNKS) for _ in range(rng.randint(lo, hi)))


def rand_item(rng):
    return {"name": rand_str(rng), "qty": rng.randint(-9, 99), "on": rng.random() < .5,
            "tags": [rand_str(rng, 0, 2) for _ in range(rng.randint(0, 3))]}


def rand_inst(rng):
    e = rng.choice(["A", "B", "C"])
    return {
        "a": rng.randint(-20, 100), "b": rng.randint(1, 60), "n": rng.randint(0, 4), "k": rng.randint(0, 1),
        "p": rng.random() < .5, "q": rng.random() < .5, "s": rand_str(rng, 1, 5), "u": rand_str(rng, 0, 4),
        "v": [rng.randint(-9, 20) for _ in range(rng.randint(2, 5))],
        "w": [rand_str(rng, 0, 3) for _ in range(rng.randint(2, 4))],
        "x0": [rng.randint(0, 9) for _ in range(rng.choice([0, 0, 1, 2, 4]))],
        "items": [rand_item(rng) for _ in range(rng.choice([0, 1, 2, 3]))],
        "o": rng.choice([None, rng.randint(0, 3)]), "os": rng.choice([None, rand_str(rng)]),
        "e": ("A",) if e == "A" else ("B", rng.randint(0, 3)) if e == "B" else ("C", {"x": rng.randint(0, 3), "y": rand_str(rng)}),
        "r": rng.choice([("Ok", rng.randint(0, 3)), ("Err", rand_str(rng))]),
        "t2": (rng.randint(0, 9), rand_str(rng)), "it": rand_item(rng), "type": rng.randint(0, 50), "_i": rng.randint(0, 9),
        "fn": rng.choice(["dbl", "neg"]), "tw": rng.choice(["dbl", "neg"]),
    }


def instances(rng, n=3):
    res = [rand_inst(rng) for _ in range(n)]
    # the instances shall differ in what branches depend on
    if n >= 2:
        res[0]["p"], res[1]["p"] = True, False
        res[0]["o"], res[1]["o"] = None, 2
        res[0]["items"], res[1]["items"] = [], [rand_item(rng) for _ in range(3)]
        res[0]["x0"], res[1]["x0"] = [1, 2, 3], []
        res[0]["e"], res[1]["e"] = ("C", {"x": 1, "y": "<y>"}), ("A",)
    if n >= 3:
        res[2]["e"] = ("B", 1)
    return res


def rs_val(v, ty):
    if ty in ("i64", "usize"):
        return str(v)
    if ty == "bool":
        return "true" if v else "false"
    if ty.startswith("fn("):
        return f"t::{v}"
    if ty == "String":
        return rs_str(v) + ".to_string()"
    if ty.startswith("Vec<"):
        return "vec![" + ", ".join(rs_val(x, ty[4:-1]) for x in v) + "]"
    if ty.startswith("Option<"):
        return "None" if v is None else "Some(" + rs_val(v, ty[7:-1]) + ")"
    if ty == "Item":
        return (f'Item {{ name: {rs_val(v["name"], "String")}, qty: {v["qty"]}, on: {rs_val(v["on"], "bool")}, '
                f'tags: {rs_val(v["tags"], "Vec<String>")} }}')
    if ty == "En":
        return {"A": "En::A", "B": lambda: f"En::B({v[1]})", "C": lambda: f'En::C {{ x: {v[1]["x"]}, y: {rs_val(v[1]["y"], "String")} }}'}[v[0]]() if v[0] != "A" else "En::A"
    if ty.startswith("Result"):
        return f"Ok({v[1]})" if v[0] == "Ok" else f"Err({rs_val(v[1], 'String')})"
    if ty.startswith("("):
        return f"({v[0]}, {rs_val(v[1], 'String')})"
    raise AssertionError(ty)


def rs_name(n):
    return f"r#{n}" if n in ("type", "fn") else n


def data_rs(insts):
    out = ["use crate::rt::*;", "#[derive(Clone)] pub struct D {"]
    out += [f"pub {rs_name(n)}: {t}," for n, t in FIELDS]
    out += ["}", "pub fn inst(i: usize) -> D { match i {"]
    for i, d in enumerate(insts):
        arm = f"{i} => " if i + 1 < len(insts) else "_ => "
        out.append(arm + "D { " + ", ".join(f"{rs_name(n)}: {rs_val(d[n], t)}" for n, t in FIELDS) + " },")
    out.append("} }")
    return "\n".join(out) + "\n"


def struct_rs(name, attrs, derive="askama::Template"):
    fields = ", ".join(f"{rs_name(n)}: {t}" for n, t in FIELDS)
    conv = ", ".join(f"{rs_name(n)}: d.{rs_name(n)}" for n, t in FIELDS)
    return (f"#[derive({derive})]\n#[template({attrs})]\npub struct {name} {{ {fields} }}\n"
            f"impl {name} {{ pub fn new(i: usize) -> Self {{ let d = crate::data::inst(i); {name} {{ {conv} }} }} }}\n")


def module_rs(structs, body):
    return ("use crate::rt::{self, t, filters, En, Item, P2};\n" + "".join(structs) + "pub fn run() {\n" + body + "}\n")


def run_rs(case, struct, n_inst, chan="render"):
    return f'for i in 0..{n_inst} {{ rt::exec_as("{case}", i, "{chan}", &{struct}::new(i)); }}\n'


# --------------------------------------------------------------------------------------------
# generator

TY = {"i64": "int", "usize": "usz", "bool": "bool", "String": "str", "Vec<i64>": "vint", "Vec<String>": "vstr",
      "Vec<Item>": "vitem", "Option<i64>": "oint", "Option<String>": "ostr", "En": "en",
      "Result<i64, String>": "res", "(i64, String)": "tup", "Item": "item", "fn(&i64) -> i64": "fnp"}
FIELD_TY = {n: TY[t] for n, t in FIELDS}
BOUND = 1 << 30

# Names of local variables: some are names of fields, some are Rust keywords. `n`, `u`, `q`, `it`
# and `k` are never shadowed, so that macros can rely on them.
NAMES = ["x", "y", "z", "val", "a", "b", "s", "p", "o", "v", "w", "type", "fn", "match", "async", "dyn", "use", "where", "größe", "tmp1", "r", "e",
         "expr0", "writer2", "impl", "trait", "pub", "x_y", "items", "_i", "_x", "_größe", "__a_0"]
# names of variables that are declared first and assigned later
DECLS = ["d1", "d2", "d3", "final", "macro", "move", "static", "yield", "override", "const", "struct", "unsafe", "d4", "d5", "d6", "virtual", "_d7"]
PARAMS = ["m1", "m2", "m3", "a", "s", "x", "y", "type", "val", "p", "fn", "_i", "_x"]

INTLITS = [("0", 0), ("1", 1), ("2", 2), ("3", 3), ("7", 7), ("10", 10), ("0x1f", 31), ("1_0", 10), ("0b101", 5), ("0o17", 15), ("12i64", 12),
           ("0xFFi64", 255), ("00", 0), ("1__2_", 12)]
STRLITS = [("", ""), ("abc", "abc"), ("<i>", "<i>"), ("a&b", "a&b"), ("\\\"q\\\"", "\"q\""), ("it's", "it's"), ("x\\ny", "x\ny"), ("\\\\", "\\"),
           ("é日", "é日"), ("}}", "}}"), ("%}", "%}"), ("{{", "{{"), ("#}", "#}"), ("\\u{e9}\\t", "é\t"), ("\\x41", "A"), ("{a} {}", "{a} {}"), ("{% if %}", "{% if %}")]
CHARLITS = [("a", "a"), ("<", "<"), ("\\n", "\n"), ("\\'", "'"), ("\"", "\""), ("\\u{1F600}", "\U0001F600"), ("\\x26", "&"), ("é", "é"), ("\\\\", "\\"), ("}", "}")]
CHARS = "<>&\"'<>&aZ09 é日\n\t\\{}%#/=`\u00a0\u200b\U0001F600\x7f"
FLOATLITS = [("1.5", "1.5"), ("2.0", "2"), ("1e3", "1000"), ("1.5e-1", "0.15"), ("0.25f64", "0.25"), ("3f32", "3"), ("1_0.5", "10.5"), ("2.5E+1", "25"), ("12.0e1f64", "120")]


class V:
    """What is known of a variable: type, reference depth (None: unknown), bound of the value, and
    whether its integer type may still be undetermined."""

    def __init__(self, ty, dep=0, bound=200, amb=False, place=True):
        self.ty, self.dep, self.bound, self.amb, self.place = ty, dep, bound, amb, place


class Gen:
    def __init__(self, rng, **prof):
        self.rng = rng
        self.prof = dict(nodes={}, depth=3, width=5, edepth=2, trace=0.0, ws=0.0, lit="plain", space=0.3, macros=0,
                         filters=["upper", "lower", "trim", "capitalize", "wrap", "tag", "len", "rev"], esc=0.1, max_nodes=60,
                         floats=0.2, kwpct=0.5, locals=None, safe_only_direct=True, shadow=0.5)
        self.prof.update(prof)
        self.scopes = [{}]
        self.loops = 0          # loops of the current body
        self.no_field = set()   # fields that may be shadowed by the caller
        self.in_macro = False
        self.in_filter = 0
        self.can_break = False
        self.traces = itertools.count(1)
        self.callable = []      # (scope or None, Macro)
        self.left = self.prof["max_nodes"]
        self.fail_kinds = []    # kinds of the errors of the places that may fail
        self.delims = ("{{", "{%", "{#", "}}", "%}", "#}")
        self.in_cond = False
        self.block_ctx = False
        self.names = self.prof["locals"] or NAMES
        self.features = set()
        self.decls = list(DECLS)
        self.uniq = itertools.count(1)

    # -- helpers -------------------------------------------------------------------------

    def chance(self, p):
        return self.rng.random() < p

    def many(self, lo, hi, most):
        """A number of things; once in a while there are many"""
        if self.chance(self.prof.get("many", .03)):
            return self.rng.randint(hi, most)
        return self.rng.randint(lo, hi)

    def pick(self, weighted):
        ks = [k for k, w in weighted.items() if w > 0]
        return self.rng.choices(ks, [weighted[k] for k in ks])[0]

    def sp(self, d=""):
        """Insignificant white space."""
        if self.chance(self.prof["space"]):
            return self.rng.choice([" ", "  ", "\n", "\t", " \r\n ", " "])
        return d

    def ws(self):
        return (self.sign(), self.sign())

    def sign(self):
        if self.chance(self.prof["ws"]):
            return self.rng.choice(["-", "~", "+"])
        return ""

    def lookup_all(self, pred):
        """Names that resolve to something with the property."""
        res = []
        seen = set()
        for sc in reversed(self.scopes):
            for n, v in sc.items():
                if n in seen:
                    continue
                seen.add(n)
                if v is not None and pred(v):
                    res.append((n, v))
        for n, ty in FIELD_TY.items():
            if n not in seen and not (self.in_macro and (n in self.names or n in PARAMS)):
                v = V(ty, 0, 200)
                if pred(v):
                    res.append((n, v))
        return res

    def locals_first(self, cands):
        loc = [c for c in cands if any(c[0] in sc for sc in self.scopes)]
        if loc and self.chance(.65):
            return self.rng.choice(loc)
        return self.rng.choice(cands) if cands else None

    # -- expressions ---------------------------------------------------------------------

    def var(self, ty, known=False):
        c = self.lookup_all(lambda v: v.ty == ty and (not known or v.dep is not None))
        c = self.locals_first(c)
        if c is None:
            return None
        n, v = c
        x = X("var", n, ty=ty, dep=v.dep, bound=v.bound)
        x.amb, x.place = v.amb, True
        return x

    def selfed(self, ty):
        fs = [n for n, t in FIELD_TY.items() if t == ty]
        if not fs:
            return None
        n = self.rng.choice(fs)
        x = X("attr", X("var", "self"), n, ty=ty, dep=0, bound=200)
        x.amb, x.place = False, True
        return x

    def place(self, ty):
        """A variable, field or element of the type."""
        rng = self.rng
        opts = ["var"] * 5 + ["self"]
        if ty == "int":
            opts += ["index", "it", "t2"]
        elif ty == "str":
            opts += ["index", "it", "t2"]
        elif ty == "bool":
            opts += ["it"]
        elif ty == "vstr":
            opts += ["it"]
        for _ in range(6):
            how = rng.choice(opts)
            x = None
            if how == "var":
                x = self.var(ty)
            elif how == "self":
                x = self.selfed(ty)
            elif how == "index":
                # only these are known to have two elements
                base = self.field("v" if ty == "int" else "w")
                if self.in_macro:
                    base = X("attr", X("var", "self"), "v" if ty == "int" else "w")
                key = rng.choice([X("lit", "0", 0), X("lit", "1", 1), self.field("k"), X("group", X("bin", "-", X("lit", "2", 2), X("lit", "1", 1)))])
                if self.prof["trace"] and self.chance(self.prof["trace"]) and not self.in_cond:
                    i = next(self.traces)
                    key = X("fn", "t::u", [X("lit", str(i), i), key])
                x = X("index", base, key, ty=ty, dep=1, bound=200)
                x.amb = False
            elif how == "it":
                base = self.var("item") or self.selfed("item")
                f = {"int": "qty", "str": "name", "bool": "on", "vstr": "tags"}[ty]
                if base.dep is None:
                    continue
                x = X("attr", base, f, ty=ty, dep=0, bound=200)
                x.amb = False
            elif how == "t2":
                base = self.var("tup") or self.selfed("tup")
                if base.dep is None:
                    continue
                x = X("attr", base, 0 if ty == "int" else 1, ty=ty, dep=0, bound=200)
                x.amb = False
            if x is not None:
                # `(self.it).name`, `(v)[0]`
                if x.k in ("attr", "index") and x.a[0].k != "group" and not (x.a[0].k == "var" and x.a[0].a[0] == "self") and self.chance(.15):
                    x.a = (self.grp(x.a[0]),) + tuple(x.a[1:])
                return x
        x = self.selfed(ty)
        if x is None:
            raise AssertionError(ty)
        return x

    def solid(self, d):
        """An integer that is known to be an i64, with an operator or a literal on top"""
        f = self.field(self.rng.choice(["n", "a", "b"]))
        y = self.val0(self.int_(d - 1))
        if y.bound > 1 << 11:
            y = f
        neg = lambda x: self.mk("un", self.rng.choice(["-", "-", "!"]), x, ty="int", bound=201, amb=False)
        x = self.rng.choice([
            lambda: neg(f), lambda: neg(self.grp(neg(f))), lambda: f, lambda: self.mk("lit", "12i64", 12, ty="int", bound=12),
            lambda: self.mk("bin", self.rng.choice(["+", "-", "^", "|"]), f, y, ty="int", bound=1 << 12), lambda: self.mk("bin", "*", f, self.mk("lit", "3", 3), ty="int", bound=600),
            lambda: self.mk("fn", "t::n", [y], ty="int", bound=y.bound),
        ])()
        return self.grp(x)

    def field(self, n):
        x = X("var", n, ty=FIELD_TY[n], dep=0, bound=200)
        if any(n in sc for sc in self.scopes) or (self.in_macro and (n in self.names or n in PARAMS)):
            x = X("attr", X("var", "self"), n, ty=FIELD_TY[n], dep=0, bound=200)
        x.amb = False
        return x

    def grp(self, x):
        g = X("group", x, ty=x.ty, dep=x.dep, bound=x.bound)
        g.amb = getattr(x, "amb", False)
        return g

    def mk(self, *a, amb=True, **kw):
        x = X(*a, **kw)
        x.amb = amb
        return x

    def val0(self, x):
        """The value itself, behind no reference."""
        if x.dep == 0:
            return x
        fn = {"int": "t::n", "usz": "t::n", "bool": "t::bb", "str": "t::ss"}[x.ty]
        if x.dep == 1 and x.ty != "str" and self.chance(.5):
            return self.mk("filt", x, "deref", [], ty=x.ty, dep=0, bound=x.bound, amb=x.amb)
        return self.mk("fn", fn, [x], ty="int" if x.ty == "usz" else x.ty, dep=0, bound=x.bound, amb=False)

    def tr(self, x):
        """Possibly with a trace of its evaluation."""
        if self.prof["trace"] and self.chance(self.prof["trace"]) and not self.in_cond:
            fn = {"int": "t::i", "bool": "t::b", "str": "t::s"}.get(x.ty)
            if fn:
                i = next(self.traces)
                return self.mk("fn", fn, [X("lit", str(i), i), x], ty=x.ty, dep=0, bound=x.bound, amb=False)
        return x

    def digits(self, v, radix=10, lead=True):
        """A spelling of the number"""
        rng = self.rng
        pre, f = {10: ("", "d"), 2: ("0b", "b"), 8: ("0o", "o"), 16: ("0x", "x")}[radix]
        s = format(v, f)
        if radix == 16:
            s = "".join(c.upper() if rng.random() < .5 else c for c in s)
        if lead and self.chance(.15):
            s = "0" * rng.randint(1, 9) + s
        if self.chance(.25):
            s = s[0] + "".join(c if rng.random() < .7 else "_" * rng.randint(1, 2) + c for c in s[1:]) + rng.choice(["", "", "_"])
        if radix != 10 and self.chance(.15):
            s = "_" + s
        return pre + s

    def number(self):
        """A number of any type, in any spelling: (source, what is displayed)"""
        rng = self.rng
        if self.chance(.3):
            a, b = rng.choice([str(rng.randint(0, 10 ** rng.randint(1, 12))), "0", "1"]), "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 8)))
            s = a + "." + b
            if self.chance(.3):
                s = rng.choice([a, s]) + rng.choice("eE") + rng.choice(["", "+", "-"]) + str(rng.randint(0, 12))
            v = format(Decimal(repr(float(s))), "f")
            v = v[:-2] if v.endswith(".0") else v
            if "." in v:
                v = v.rstrip("0").rstrip(".")
            if self.chance(.2):
                s = s[0] + s[1:].replace("0", "0_")
            return s + rng.choice(["", "", "f64"]), v
        t = rng.choice(["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize", ""])
        bits = {"size": 64, "": 32}.get(t[1:], 0) or int(t[1:])
        top = (1 << (bits - (t[:1] != "u"))) - 1
        v = rng.choice([top, rng.randint(0, top), rng.randint(0, 1 << rng.randint(1, bits - 1)) - 1, 0])
        v = max(v, 0)
        return self.digits(v, rng.choice([10, 10, 10, 2, 8, 16])) + t, str(v)

    def int_(self, d):
        rng = self.rng
        if d <= 0 or self.chance(.25):
            if self.chance(.35):
                s, v = rng.choice(INTLITS)
                if self.chance(.3):
                    v = rng.randint(0, 99)
                    s = self.digits(v, rng.choice([10, 10, 10, 2, 8, 16])) + rng.choice(["", "", "", "i64"])
                x = self.mk("lit", s, v, ty="int", dep=0, bound=max(v, 1))
            else:
                x = self.place("int")
                if getattr(x, "amb", False) and x.dep != 0:
                    x = self.val0(self.mk("fn", "t::n", [x], ty="int", dep=0, bound=x.bound, amb=False))
            return self.tr(x)
        how = rng.choice(["bin"] * 8 + ["un", "meth", "group", "tn", "len", "filt", "paths"] + (["tick"] if self.prof["trace"] and not self.in_cond else []) + (["try"] if not self.in_cond else []))
        if how == "bin":
            op = rng.choice(["+", "-", "*", "/", "%", "+", "-", "*", "&", "|", "^", "<<", ">>"])
            l = self.int_(d - 1)
            if op in ("<<", ">>"):
                n = rng.randint(0, 3)
                r = self.mk("lit", str(n), n, ty="int", dep=0, bound=n)
            elif op in ("/", "%"):
                n = rng.choice([1, 2, 3, 5, 7])
                r = self.mk("lit", str(n), n, ty="int", dep=0, bound=n)
                if self.chance(.3):
                    r = self.field("b")
            else:
                r = self.int_(d - 1)
            l, r = (self.val0(z) if z.dep is None or z.dep > 1 else z for z in (l, r))
            # `&x << 1` and the like need the types to be known
            if op in ("<<", ">>"):
                l = self.val0(l)
            lb, rb = l.bound, r.bound
            b = {"+": lb + rb, "-": lb + rb, "*": lb * rb, "/": lb, "%": max(lb, rb), "<<": lb << 3, ">>": lb + 1}.get(op)
            if b is None:
                b = (1 << max(lb, rb, 1).bit_length())
            if b >= BOUND:
                return l
            return self.tr(self.mk("bin", op, l, r, ty="int", dep=0, bound=b, amb=getattr(l, "amb", True) and getattr(r, "amb", True)))
        if how == "un":
            x = self.int_(d - 1)
            if x.dep is None or x.dep > 1:
                x = self.val0(x)
            op = rng.choice(["-", "-", "!"])
            return self.mk("un", op, x, ty="int", dep=0, bound=x.bound + 1, amb=getattr(x, "amb", True))
        if how == "meth" and self.chance(.3):
            # methods of what is in parentheses
            x = self.solid(d)
            m, args = rng.choice([("abs", []), ("pow", [2]), ("min", [3]), ("max", [5]), ("signum", []), ("clone", [])])
            return self.tr(self.mk("meth", x, m, [X("lit", str(v), v) for v in args], ty="int", dep=0, bound=x.bound ** 2 if m == "pow" else x.bound + 5, amb=False))
        if how == "meth":
            x = self.place("int")
            if x.dep is None or getattr(x, "amb", False) or (x.k == "var" and any(x.a[0] in sc for sc in self.scopes)):
                x = self.field(rng.choice(["n", "a", "b"]))
            m, args = rng.choice([("abs", []), ("pow", [2]), ("min", [3]), ("max", [5]), ("signum", []), ("clone", [])])
            y = self.mk("meth", x, m, [X("lit", str(v), v) for v in args], ty="int", dep=1 if x.k == "index" else 0, bound=x.bound ** 2 if m == "pow" else x.bound + 5, amb=False)
            return self.tr(y)
        if how == "group":
            return self.grp(self.int_(d - 1))
        if how == "tn" and self.prof["trace"] and not self.in_cond and self.chance(.5):
            # a Rust macro with an effect
            i, f = next(self.traces), rng.choice(["a", "b", "n"])
            return self.mk("macro", rng.choice(["tm", "crate::tm"]), f"{i}{self.sp()},{self.sp(' ')}self.{f}",
                           lambda I: (I.trace.append(i), I.fields[f])[1], ty="int", dep=0, bound=200, amb=False)
        if how == "tick":
            return self.tick()
        if how == "tn":
            x = self.int_(d - 1)
            return self.mk("fn", "t::n", [x], ty="int", dep=0, bound=x.bound, amb=False)
        if how == "len":
            x = self.place(rng.choice(["str", "vint", "vstr", "vitem"]))
            m = self.mk("meth", x, "len", [], ty="usz", dep=0, bound=200, amb=False)
            return self.mk("fn", "t::n", [m], ty="int", dep=0, bound=200, amb=False)
        if how == "filt":
            x = self.int_(d - 1)
            if x.dep == 1 and x.k in ("var", "index"):
                return self.mk("filt", x, "deref", [], ty="int", dep=0, bound=x.bound, amb=getattr(x, "amb", True))
            if x.k == "var" and x.dep == 0:
                y = self.mk("filt", x, "as_ref", [], ty="int", dep=1, bound=x.bound, amb=getattr(x, "amb", True))
                return y
            return x
        if how == "paths":
            h = rng.randint(0, 4)
            if h == 0:
                return self.mk("fn", "::std::clone::Clone::clone", [X("attr", X("var", "self"), rng.choice(["a", "b", "n"]))], ty="int", dep=0, bound=200, amb=False)
            if h == 1:
                n = rng.randint(0, 5)
                r = X("range", rng.choice(["..", "..="]), self.mk("lit", "0", 0), rng.choice([self.mk("lit", str(n), n), self.field("n")]))
                return self.mk("fn", "t::count", [r], ty="int", dep=0, bound=200, amb=False)
            g = self.lookup_all(lambda v: v.ty == "fnp")
            if g and self.chance(.7):
                return self.mk("fn", self.locals_first(g)[0], [X("attr", X("var", "self"), rng.choice(["a", "b", "n"]))], ty="int", dep=0, bound=400, amb=False)
            x = self.int_(d - 1)
            return self.mk("fn", rng.choice(["crate::rt::t::n", "rt::t::n", "t :: n"]), [x], ty="int", dep=0, bound=x.bound, amb=False)
        if how == "try":
            i = next(self.traces)
            x = self.mk("bin", "+", self.field("b"), self.mk("lit", str(rng.randint(1, 9)), 0), ty="int")
            x.a[2].a = (x.a[2].a[0], int(x.a[2].a[0]))
            f = self.mk("fn", "t::ok", [X("lit", str(i), i), x], ty="res")
            return self.mk("try", f, ty="int", dep=0, bound=200, amb=False)
        raise AssertionError(how)

    def tick(self):
        """A call without arguments that has an effect"""
        if self.chance(.4):
            return self.mk("fn", self.rng.choice(["t::tick", "crate::rt::t::tick"]), [], ty="int", dep=0, bound=7, amb=False)
        x = self.var("item")
        if x is None or self.chance(.5):
            x = self.field("it") if self.chance(.5) else X("attr", X("var", "self"), "it")
        return self.mk("meth", x, "tick", [], ty="int", dep=0, bound=200, amb=False)

    def bool_(self, d):
        rng = self.rng
        if d <= 0 or self.chance(.2):
            if self.chance(.15):
                v = rng.choice([True, False])
                x = self.mk("lit", "true" if v else "false", v, ty="bool", dep=0)
            else:
                x = self.place("bool")
            return self.tr(x)
        how = rng.choice(["cmp"] * 4 + ["bin"] * 4 + ["not", "meth", "meth", "streq", "group"])
        if how == "cmp":
            l, r = self.int_(d - 1), self.int_(d - 1)
            l, r = self.val0(l), self.val0(r)
            return self.tr(self.mk("bin", rng.choice(["==", "!=", "<", ">", "<=", ">="]), l, r, ty="bool", dep=0))
        if how == "bin":
            l, r = self.val0(self.bool_(d - 1)), self.val0(self.bool_(d - 1))
            op = rng.choice(["&&", "||", "&&", "||", "==", "!=", "^", "&", "|"])
            return self.tr(self.mk("bin", op, l, r, ty="bool", dep=0))
        if how == "not":
            x = self.val0(self.bool_(d - 1))
            return self.mk("un", "!", x, ty="bool", dep=0)
        if how == "meth":
            m = rng.choice(["is_empty", "contains", "starts_with", "is_some", "is_none", "is_positive", "vempty", "clone"])
            if m == "clone":
                x = self.grp(rng.choice([lambda: self.mk("un", "!", self.val0(self.bool_(d - 1)), ty="bool"), lambda: self.mk("bin", rng.choice(["&&", "||", "=="]), self.val0(self.bool_(d - 1)), self.val0(self.bool_(d - 1)), ty="bool"),
                                         lambda: self.field("p"), lambda: self.mk("lit", "true", True, ty="bool")])())
                return self.tr(self.mk("meth", x, "clone", [], ty="bool", dep=0))
            if m in ("is_some", "is_none"):
                x, args = self.place(rng.choice(["oint", "ostr"])), []
            elif m == "is_positive":
                x, args = self.field(rng.choice(["a", "n"])), []
            elif m == "vempty":
                m, x, args = "is_empty", self.place(rng.choice(["vint", "vitem", "vstr"])), []
            else:
                x = self.place("str")
                args = [] if m == "is_empty" else [self.relit(rng.choice(["a", "<", "abc", "", "Z"]))]
            return self.tr(self.mk("meth", x, m, args, ty="bool", dep=1 if x.k == "index" else 0))
        if how == "streq":
            x = self.place("str")
            l = x if (x.dep == 0 and x.k != "var") else self.mk("fn", "t::ss", [x], ty="str", dep=0)
            return self.mk("bin", rng.choice(["==", "!="]), l, self.relit(rng.choice(["abc", "x", "<b>", ""])), ty="bool", dep=0)
        if how == "group":
            return self.grp(self.bool_(d - 1))
        raise AssertionError(how)

    def spell(self, c, char=False):
        """A spelling of a character in a literal, and the character"""
        ways = ["plain"] * 3 + ["u", "u"] + (["x", "x"] if ord(c) < 128 else [])
        k = self.rng.choice(ways)
        if k == "x":
            return self.rng.choice([f"\\x{ord(c):02x}", f"\\x{ord(c):02X}"]), c
        if k == "u":
            return self.rng.choice([f"\\u{{{ord(c):x}}}", f"\\u{{{ord(c):X}}}", f"\\u{{{ord(c):06x}}}"]), c
        if c in "\n\t\r\\":
            return {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\\": "\\\\"}[c], c
        if c == ("'" if char else '"'):
            return "\\" + c, c
        if c in "\"'" and self.chance(.3):
            return "\\" + c, c
        return c, c

    def respell(self, s):
        """A spelling of a string that has no escapes"""
        if not self.chance(.3):
            assert "\\" not in s and '"' not in s
            return s
        return "".join(self.spell(c)[0] if self.chance(.5) or c in '\\"' else c for c in s)

    def respell2(self, s):
        return "".join(self.spell(c)[0] if self.chance(.15) or c in '\\"' else c for c in s)

    def relit(self, s):
        return self.mk("lit", '"' + self.respell(s) + '"', s, ty="str", dep=1)

    def strlit(self, s=None):
        if s is None:
            a, b = self.rng.choice(STRLITS)
            if self.chance(.4):
                b = "".join(self.rng.choice(CHARS) for _ in range(self.many(1, 5, 60)))
                a = "".join(self.spell(c)[0] for c in b)
        else:
            a, b = s, s
        return self.mk("lit", '"' + a + '"', b, ty="str", dep=1)

    def str_(self, d):
        rng = self.rng
        if d <= 0 or self.chance(.3):
            x = self.strlit() if self.chance(.25) else self.place("str")
            return self.tr(x)
        how = rng.choice(["ts", "meth", "filt", "filt", "macro", "ss"])
        if how == "ts":
            return self.tr(self.str_(d - 1))
        if how == "ss":
            return self.mk("fn", "t::ss", [self.any_(d - 1)], ty="str", dep=0)
        if how == "meth":
            x = self.place("str")
            if self.chance(.2):
                x = self.grp(rng.choice([lambda: self.mk("un", "-", self.field("n"), ty="int"), lambda: self.mk("un", "!", self.field("p"), ty="bool"), lambda: self.strlit(), lambda: self.field("s"),
                                         lambda: self.mk("bin", "+", self.field("a"), self.mk("lit", "1", 1)), lambda: self.mk("lit", "7", 7)])())
                return self.mk("meth", x, "to_string", [], ty="str", dep=1)
            m = rng.choice(["clone", "trim", "to_string", "to_owned", "as_str"])
            if m == "as_str" and (x.k == "var" and any(x.a[0] in sc for sc in self.scopes)):
                m = "trim"
            return self.mk("meth", x, m, [], ty="str", dep=0 if m in ("clone", "to_string", "to_owned") and False else 1)
        if how == "macro":
            fs = rng.sample(["a", "n", "s", "u", "b", "p"], self.many(1, 3, 6))
            txt = rng.choice(["", "-", "{{}}", "\\\"", "<(", ")"])
            fmt = txt.join("{}" for _ in fs)
            real = {"{{}}": "{}", "\\\"": "\""}.get(txt, txt)
            src = '"' + fmt + '", ' + ", ".join("self." + f for f in fs)
            return self.mk("macro", "format", src, lambda I: real.join(disp(I.fields[f]) for f in fs), ty="str", dep=0)
        if how == "filt":
            x = self.any_(d - 1)
            return self.filt(x, d)
        raise AssertionError(how)

    def filter_args(self, f, d):
        rng = self.rng
        if f == "wrap":
            return [self.any_(d - 1)]
        if f in ("center", "indent", "truncate"):
            n = rng.randint(0, 12)
            return [X("lit", str(n), n)]
        if f == "tf":
            i = next(self.traces)
            return [X("lit", str(i), i)]
        return []

    def filt(self, x, d, direct=False):
        rng = self.rng
        f = rng.choice(self.prof["filters"])
        args = self.filter_args(f, d)
        if f == "join":
            x = self.place(rng.choice(["vint", "vstr"]))
            args = [self.strlit()]
        return self.mk("filt", x, f, args, ty="usz" if f in ("len", "wordcount") else "str", dep=0, bound=1000)

    def any_(self, d):
        """Anything that can be displayed."""
        rng = self.rng
        k = self.pick({"int": 4, "bool": 2, "str": 5, "loop": 3 if self.loops else 0, "float": self.prof["floats"], "char": .5,
                       "usz": .5, "un": .3})
        c = self.var("chr")
        if c is not None and self.chance(.4):
            return c
        if k == "int":
            return self.int_(d)
        if k == "bool":
            return self.bool_(d)
        if k == "str":
            return self.str_(d)
        if k == "float":
            s, v = rng.choice(FLOATLITS) if self.chance(.5) else self.number()
            return self.mk("lit", s, v, ty="float", dep=0)
        if k == "char":
            s, v = rng.choice(CHARLITS) if self.chance(.6) else self.spell(rng.choice(CHARS), True)
            return self.mk("lit", "'" + s + "'", v, ty="char", dep=0)
        if k == "usz":
            return self.mk("meth", self.place(rng.choice(["str", "vint", "vitem"])), "len", [], ty="usz", dep=None, amb=False)
        if k == "un":
            i = self.int_(d)
            return i
        if k == "loop":
            return self.loop_x()
        raise AssertionError(k)

    def loop_x(self):
        rng = self.rng
        lv = X("var", "loop")
        a = rng.choice(["index", "index0", "first", "last", "cycle"])
        if a == "cycle":
            arr = rng.choice([
                lambda: X("array", [X("lit", str(i), i) for i in range(self.many(1, 3, 12))]),
                lambda: X("array", [self.strlit(z) for z in rng.choice([["odd", "even"], ["<a>"], ["r", "g", "b"]])]),
                lambda: self.field("v"),
            ])()
            return self.mk("meth", lv, "cycle", [arr], ty="cyc", dep=0)
        return self.mk("attr", lv, a, ty="bool" if a in ("first", "last") else "usz", dep=0, amb=False, bound=50)

    def shown(self, d):
        """An expression to print, with filters on top."""
        x = self.any_(d)
        if self.chance(self.prof["esc"]):
            k = self.rng.choice(["safe", "escape", "e", "escape_html", "escape_none", "twice"])
            if k in ("safe", "escape", "e"):
                x = self.mk("filt", x, k, [], ty="str")
                return self.grp(x) if self.chance(.12) else x
            if k == "twice":
                y = self.mk("filt", x, self.rng.choice(["safe", "escape"]), [], ty="str")
                return self.mk("filt", y, self.rng.choice(["upper", "safe", "escape", "tag", "trim"]), [], ty="str")
            n = {"escape_html": self.rng.choice(["html", "htm", "xml"]), "escape_none": self.rng.choice(["none", "txt"])}[k]
            if self.prof.get("escnames"):
                n = self.rng.choice(self.prof["escnames"])
            x = self.mk("filt", x, "escape", [self.strlit(n)], ty="str")
            # what is in parentheses is a value like any other
            return self.grp(x) if self.chance(.12) else x
        return x

    # -- literal text --------------------------------------------------------------------

    PLAIN = ["a", "b ", " c", "\n", "text ", "<p>", "</p>", "x=", ", ", ";", "1", " ", "é", "日本 ", "{ ", "}", "\"q\"", "\\n", "&amp;", "%", "#", "{:?}", "{0}", "'", "$x", "}} ", "% }", "\t"]
    WSX = [" ", "\n", "  ", "\t", "\r\n", " \n ", "\n\n", " \t"]
    ODD = ["\u00a0", "\u2003", "\x0b", "\x0c", "\u200b", "\x00", "\x7f", "\u0085", "\U0001F600", "e\u0301", "\ufeff", "\\", "\"#", "r#\"", "{{"[0] + " {", "${", "\r", "\\u{41}", "\x1b", "/*", "//", "\u2028", "{}"]

    def littext(self):
        rng = self.rng
        mode = self.prof["lit"]
        for _ in range(30):
            if mode == "plain":
                t = "".join(rng.choice(self.PLAIN) for _ in range(self.many(1, 3, 400)))
            elif mode == "ws":
                t = "".join(rng.choice(self.WSX if rng.random() < .6 else self.PLAIN) for _ in range(self.many(1, 4, 60)))
            else:
                t = "".join(rng.choice(rng.choice([self.WSX, self.PLAIN, self.ODD])) for _ in range(self.many(1, 6, 60)))
            if self.lit_ok(t):
                return t
        return "ok"

    def bulk(self, nodes):
        """Very much text, between other nodes"""
        if not nodes or any(isinstance(n, Extends) for n in nodes):
            return
        n, t = self.rng.choice([4_096, 32_768, 65_536, 70_000]), []
        while n > 0:
            t.append(self.littext())
            n -= max(1, len(t[-1]))
        t = "".join(t)
        if not self.lit_ok(t):
            return
        i = self.rng.randint(0, len(nodes))
        nodes[i:i] = [Expr(self.ws(), self.field("n")), Lit(t), Expr(self.ws(), self.field("s"))]
        self.features.add("bulk")

    def lit_ok(self, t):
        for d in self.delims:
            if d in t:
                return False
            for i in range(1, len(d)):
                if t.endswith(d[:i]):
                    return False
        return True

    # -- nodes ---------------------------------------------------------------------------

    DEFAULT = {"lit": 6, "expr": 6, "let": 1.5, "if": 2, "match": 1.2, "for": 1.5, "comment": .4, "raw": .4, "filter": .5, "call": 1,
               "decl": .5}

    def body(self, d, lo=0, hi=None, scope=True):
        """Nodes of one body, in a scope of its own."""
        if scope:
            self.scopes.append({})
        hi = hi or self.prof["width"]
        res = []
        if self.tower:
            # one more level of constructs within each other
            k = self.tower.pop()
            if self.chance(.4):
                res.append(Lit(self.littext()))
            elif self.chance(.3) and not self.in_filter:
                res += self.n_let(0)
            res += getattr(self, "n_" + k)(max(d, 1))
            if self.chance(.6):
                res += self.n_expr(0)
            if scope:
                self.scopes.pop()
            return res
        for _ in range(self.rng.randint(lo, hi)):
            if self.left <= 0 and len(res) >= lo:
                break
            new = self.node(d)
            for n in new:
                if isinstance(n, Lit) and res and isinstance(res[-1], Lit):
                    continue
                res.append(n)
        if self.chance(self.prof.get("many", .03) / 4):
            # a long run of expressions and texts
            for _ in range(self.rng.randint(10, 70)):
                res.append(Expr(self.ws(), self.any_(1)))
                if self.chance(.5):
                    res.append(Lit(self.littext()))
        if scope:
            self.scopes.pop()
        return res

    tower = ()

    def node(self, d):
        self.left -= 1
        if d > 0 and not self.in_macro and self.chance(self.prof.get("tower", .004)):
            kinds = self.rng.choice([["filter"], ["if"], ["match"], ["for"], ["filter", "if", "match"], ["filter", "if", "match", "for"]])
            self.tower = [self.rng.choice(kinds) for _ in range(self.rng.randint(3, 4 if kinds == ["for"] else 9))]
            self.features.add("tower")
            k = self.tower.pop()
            res = getattr(self, "n_" + k)(d)
            self.tower = []
            return res
        w = {**self.DEFAULT, **self.prof["nodes"]}
        if d <= 0:
            for k in ("if", "match", "for", "filter", "decl", "blockdef"):
                w[k] = 0
        if not self.callable:
            w["call"] = 0
        if self.in_filter:
            w["let"] = w["decl"] = 0
        w["break"] = w.get("break", 0) if self.can_break else 0
        w["include"] = w.get("include", 0) if self.prof.get("includes") else 0
        k = self.pick(w)
        self.features.add(k)
        return getattr(self, "n_" + k)(d)

    def n_lit(self, d):
        return [Lit(self.littext())]

    def n_expr(self, d):
        return [Expr(self.ws(), self.shown(self.prof["edepth"]))]

    def n_comment(self, d):
        t = self.rng.choice(["c", "note", "{{ a }}", "if x", "{% if %}", "a {# b #} c", "é", "\n", "\"", "}} %}", "{{", "x - y", "", "nested {# {# x #} #} "])
        if any(dl in t for dl in self.delims) and tuple(self.delims) != ("{{", "{%", "{#", "}}", "%}", "#}"):
            t = "note"
        return [Comment(self.ws(), t)]

    def n_raw(self, d):
        t = self.rng.choice(["{{ a }}", " {% if x %} ", "raw", " ", "", "{# c #}", "\n {{ \n", "%}", " }} ", "{%", "{{", "\t{% endblock %}", " {% macro x() %}\n"])
        return [Raw(self.ws(), Lit(t), self.ws())]

    def new_name(self, avoid=()):
        cands = [n for n in self.names if n not in avoid]
        return self.rng.choice(cands)

    def let_value(self):
        """(X, V) of something a variable can be bound to without moving out of a field"""
        rng = self.rng
        d = self.prof["edepth"]
        k = rng.choice(["int", "int", "bool", "str", "strlit", "vec", "opt"])
        if k == "int":
            x = self.int_(d)
            return x, V("int", x.dep, x.bound, amb=getattr(x, "amb", True))
        if k == "bool":
            x = self.bool_(d)
            return x, V("bool", x.dep)
        if k == "str":
            x = self.mk("fn", "t::ss", [self.any_(d - 1)], ty="str", dep=0)
            x = self.tr(x)
            if self.chance(.3):
                x = self.mk("meth", self.place("str"), "trim", [], ty="str", dep=1)
            return x, V("str", None)
        if k == "strlit":
            return self.strlit(), V("str", None)
        if k == "vec":
            f = self.field(rng.choice(["v", "x0"]))
            return self.mk("meth", f, "clone", [], ty="vint", dep=0), V("vint", None)
        f = self.field(rng.choice(["o"]))
        return self.mk("meth", f, "clone", [], ty="oint", dep=0), V("oint", 0)

    def n_let(self, d):
        rng = self.rng
        kw = rng.choice(["let", "let", "set"])
        h = rng.random()
        if h < .1:
            n1 = self.new_name()
            n2 = self.new_name(avoid=(n1,))
            a, b = self.int_(1), self.bool_(1)
            x = X("tuple", [a, b])
            node = Let(self.ws(), [n1, n2], x, kw)
            self.scopes[-1][n1] = V("int", a.dep, a.bound, amb=getattr(a, "amb", True))
            self.scopes[-1][n2] = V("bool", b.dep)
            return [node]
        if h < .15:
            n1 = self.new_name()
            n2 = self.new_name(avoid=(n1,))
            node = Let(self.ws(), [n1, n2], self.mk("meth", self.field("t2"), "clone", []), kw)
            self.scopes[-1][n1] = V("int", 0)
            self.scopes[-1][n2] = V("str", None)
            return [node]
        if h < .2:
            fs = [("x", "x"), ("y", "y")]
            if self.chance(.5):
                n1 = self.new_name()
                fs = [("x", n1), ("y", self.new_name(avoid=(n1,)))]
            a = self.int_(1)
            node = Let(self.ws(), ("struct", "P2", fs), self.mk("fn", "t::p2", [a, self.any_(1)]), kw)
            self.scopes[-1][fs[0][1]] = V("int", 0, a.bound)
            self.scopes[-1][fs[1][1]] = V("str", None)
            return [node]
        if h < .24:
            n = self.new_name()
            self.scopes[-1][n] = V("fnp", None)
            return [Let(self.ws(), n, X("path", ["t", "dbl"], dbl), kw)]
        if h < .32:
            # a pattern that always applies
            new = {}

            def part(d):
                k = rng.random()
                if d and k < .45:
                    ps = [part(d - 1) for _ in range(self.many(1, 3, 9))]
                    return Pat("tuple", [p for p, _ in ps]), X("tuple", [x for _, x in ps])
                if d and k < .55:
                    if len(new) >= len(self.names):
                        return Pat("wild"), self.int_(1)
                    a = self.int_(1)
                    n = self.new_name(avoid=new)
                    new[n] = V("int", 0, a.bound)
                    fs = [("x", Pat("name", n)), ("y", Pat("wild"))]
                    rng.shuffle(fs)
                    return Pat("st", "P2", fs), self.mk("fn", "t::p2", [a, self.any_(1)])
                if k < .65:
                    return Pat("wild"), rng.choice([self.int_, self.bool_])(1)
                n = self.new_name(avoid=new) if len(new) < len(self.names) else None
                x, v = (self.int_(1), "int") if self.chance(.6) else (self.bool_(1), "bool")
                if n is None:
                    return Pat("wild"), x
                new[n] = V("int", x.dep, x.bound, amb=getattr(x, "amb", True)) if v == "int" else V("bool", x.dep)
                return Pat("name", n), x
            p, x = part(2)
            self.scopes[-1].update(new)
            return [Let(self.ws(), p.a[0] if p.k == "name" else p, x, kw)]
        x, v = self.let_value()
        n = self.new_name()
        node = Let(self.ws(), n, x, kw)
        self.scopes[-1][n] = v
        return [node]

    def n_decl(self, d):
        """A variable that is declared first, and then assigned in all branches."""
        if not self.decls:
            return [Lit(self.littext())]
        n = self.decls.pop(self.rng.randrange(len(self.decls)))
        ty = self.rng.choice(["int", "bool"])
        self.scopes[-1][n] = None
        res = [Let(self.ws(), n, None, self.rng.choice(["let", "set"]))]
        if self.chance(.4):
            res += [Lit(self.littext())]
        vmax = V(ty, 0, 0, amb=False)

        def assign(depth):
            x = self.val0(self.int_(1) if ty == "int" else self.bool_(1))
            vmax.bound = max(vmax.bound, x.bound)
            vmax.amb = True
            nodes = []
            if self.chance(.5):
                nodes.append(Lit(self.littext()))
            if self.chance(.3):
                nodes.append(Expr(self.ws(), self.any_(1)))
            if depth and self.chance(.3):
                nodes += branch(depth - 1)
            else:
                nodes.append(Let(self.ws(), n, x, "let"))
                old = self.scopes[-1].get(n)
                if self.chance(.5):
                    nodes.append(Expr(self.ws(), self.mk("var", n, ty=ty, dep=0)))
            return nodes

        def branch(depth):
            self.scopes.append({})
            if self.chance(.3):
                # match
                arms = [(self.ws(), Pat("none"), assign(depth)), (self.ws(), Pat("some", Pat("wild")), assign(depth))]
                node = Match(self.ws(), self.place("oint"), arms, self.ws())
            else:
                brs = [(self.ws(), self.bool_(1), assign(depth))]
                if self.chance(.3):
                    brs.append((self.ws(), self.bool_(1), assign(depth)))
                brs.append((self.ws(), None, assign(depth)))
                node = If(brs, self.ws(), self.elif_kw)
            self.scopes.pop()
            return [node]

        if self.chance(.75):
            res += branch(1)
        else:
            x = self.val0(self.int_(1) if ty == "int" else self.bool_(1))
            vmax.bound = x.bound
            vmax.amb = True
            res.append(Let(self.ws(), n, x, "let"))
        self.scopes[-1][n] = vmax
        return res

    def elif_kw(self):
        return self.rng.choice(["else if", "elif"])

    def body_in(self, d, binds, lo=0):
        self.scopes.append(dict(binds))
        r = self.body(d, lo, scope=False)
        self.scopes.pop()
        return r

    def n_if(self, d):
        rng = self.rng
        brs = []
        for i in range(self.many(1, 4, 9) if self.chance(.5) else rng.choice([1, 2])):
            if self.chance(.25):
                pat, x, binds = self.opt_pattern(refutable=True)
                brs.append((self.ws(), ("let", pat, x), self.body_in(d - 1, binds)))
            else:
                brs.append((self.ws(), self.bool_(self.prof["edepth"]), self.body_in(d - 1, {})))
        if self.chance(.5):
            brs.append((self.ws(), None, self.body_in(d - 1, {})))
        kws = [self.elif_kw() for _ in brs]
        it = iter(kws * 3)
        return [If(brs, self.ws(), lambda it=it: next(it, "else if"))]

    def opt_pattern(self, refutable):
        """(pattern, scrutinee, bindings) for `if let`"""
        rng = self.rng
        k = rng.choice(["oint", "ostr", "res", "en", "lit", "pair"])
        if k == "lit":
            x = self.scrut_int()
            v = rng.randint(0, 4)
            return Pat("lit", str(v), v), x, {}
        if k == "pair":
            x, pat = self.scrut_pair()
            return self.if_let_pair(x, pat)
        p, b = self.pattern(k, first=True)
        return p, self.scrut(k), b

    def scrut(self, k):
        if k in ("oint", "ostr", "res", "en", "tup"):
            x = self.place(k)
            if x.dep is None:
                x = self.field({"oint": "o", "ostr": "os", "res": "r", "en": "e", "tup": "t2"}[k])
            if x.dep and x.dep > 0:
                x = self.mk("filt", x, "deref", [], ty=k, dep=0) if x.dep == 1 else self.field({"oint": "o", "ostr": "os", "res": "r", "en": "e", "tup": "t2"}[k])
            return x
        raise AssertionError(k)

    def if_let_pair(self, x, pat):
        p, b = pat()
        return p, x, b

    def scrut_int(self):
        """An integer to compare with literals; operators need no parentheses"""
        rng = self.rng
        f = lambda: self.field(rng.choice(["n", "a", "b"]))
        return rng.choice([f, lambda: self.mk("fn", "t::i", [X("lit", (s := str(next(self.traces))), int(s)), self.field("n")], ty="int", dep=0),
                           lambda: self.grp(self.mk("bin", "+", self.field("n"), X("lit", "1", 1), ty="int", dep=0)),
                           lambda: self.mk("bin", rng.choice(["+", "-", "%", "&", "^", "/"]), f(), self.mk("lit", (k := str(rng.randint(1, 3))), int(k)), ty="int", dep=0),
                           lambda: self.mk("bin", rng.choice(["*", "|"]), self.mk("lit", "2", 2), f(), ty="int", dep=0),
                           lambda: self.solid(1), lambda: self.mk("meth", f(), "abs", [], ty="int", dep=0),
                           (lambda: self.mk("attr", X("var", "loop"), rng.choice(["index", "index0"]), ty="usz", dep=0)) if self.loops else f])()

    def scrut_bool(self):
        rng = self.rng
        f = lambda: self.field(rng.choice(["p", "q"]))
        return rng.choice([f, lambda: self.mk("un", "!", f(), ty="bool"), lambda: self.mk("bin", rng.choice(["&&", "||", "==", "^"]), f(), f(), ty="bool"),
                           lambda: self.mk("bin", rng.choice(["==", "<", ">=", "!="]), self.field("n"), self.mk("lit", "2", 2), ty="bool"),
                           lambda: self.mk("meth", self.field(rng.choice(["s", "u"])), "is_empty", [], ty="bool"),
                           (lambda: self.mk("attr", X("var", "loop"), rng.choice(["first", "last"]), ty="bool", dep=0)) if self.loops else f])()

    def scrut_pair(self):
        """A tuple of values, and what makes patterns for it"""
        rng = self.rng
        kinds = [rng.choice(["oint", "int", "bool", "int", "bool", "unit", "tup"]) for _ in range(self.many(1, 3, 7))]
        xs = [{"unit": lambda: self.mk("fn", "t::unit", []), "tup": lambda: X("tuple", [self.field("n"), self.scrut_bool()]), "oint": lambda: self.field("o"), "int": lambda: self.field(rng.choice(["n", "a"])), "bool": lambda: self.scrut_bool()}[k]() for k in kinds]

        def leaf(k, b, used):
            h = rng.random()
            if k == "oint":
                if h < .25:
                    return Pat("none")
                if h < .35:
                    return Pat("wild")
                if h < .6:
                    return Pat("some", Pat("or", [Pat("lit", str(v), v) for v in rng.sample(range(9), self.many(2, 2, 7))]))
                return Pat("some", self.leaf_pat("int", b, used))
            if k == "int":
                if h < .3:
                    return Pat("or", [Pat("lit", str(v), v) for v in rng.sample(range(9), self.many(2, 3, 8))])
                return self.leaf_pat("int", b, used)
            if k == "unit":
                return Pat("wild") if h < .2 else Pat("unit")
            if k == "tup":
                return Pat("wild") if h < .2 else Pat("tuple", [leaf("int", b, used), leaf("bool", b, used)])
            return Pat("wild") if h < .3 else Pat("lit", "true", True) if h < .65 else Pat("lit", "false", False)

        def pat():
            b, used = {}, set()
            return Pat("tuple", [leaf(k, b, used) for k in kinds]), b
        return X("tuple", xs), pat

    def leaf_pat(self, ty, binds, used):
        p = self.leaf_pat1(ty, binds, used)
        return Pat("paren", p) if self.chance(.06) else p

    def leaf_pat1(self, ty, binds, used):
        rng = self.rng
        h = rng.random()
        if h < .5:
            n = self.new_name(avoid=used)
            used.add(n)
            binds[n] = V(ty, 1, 200)
            return Pat("name", n)
        if h < .65 or ty != "int":
            return Pat("wild")
        v = rng.randint(0, 3)
        return Pat("lit", str(v), v)

    def pattern(self, k, first=True):
        p, b = self.pattern1(k, first)
        if self.chance(.2):
            p.pre = {"oint": self.rng.choice(["::std::option::Option::", "::core::option::Option::"]), "ostr": "::std::option::Option::", "res": ":: core :: result::Result::", "en": self.rng.choice(["rt::", "crate::rt::", "crate :: rt :: "])}[k]
        if self.chance(.06):
            p = Pat("paren", p)
        return p, b

    def pattern1(self, k, first=True):
        """A pattern that may match values of the type, and its bindings"""
        rng = self.rng
        b, used = {}, set()
        w = rng.random() < .2
        if k == "oint":
            return (Pat("none") if self.chance(.2) else Pat("some", self.leaf_pat("int", b, used), w)), b
        if k == "ostr":
            return (Pat("none") if self.chance(.2) else Pat("some", self.leaf_pat("str", b, used), w)), b
        if k == "res":
            return (Pat("ok", self.leaf_pat("int", b, used), w) if self.chance(.5) else Pat("err", self.leaf_pat("str", b, used), w)), b
        if k == "en":
            h = rng.choice("ABC")
            if h == "A":
                return Pat("enA"), b
            if h == "B":
                return Pat("enB", self.leaf_pat("int", b, used), w), b
            fs = [("x", "int"), ("y", "str")]
            ps = []
            for f, ty in fs:
                if self.chance(.4) and f not in used:
                    used.add(f)
                    b[f] = V(ty, 1, 200)
                    ps.append((f, Pat("name", f)))
                else:
                    ps.append((f, self.leaf_pat(ty, b, used)))
            if self.chance(.3):
                ps.reverse()
            return Pat("enC", ps, w), b
        raise AssertionError(k)

    def n_match(self, d):
        rng = self.rng
        k = rng.choice(["oint", "ostr", "res", "en", "int", "int", "str", "bool", "tup", "char", "pair"])
        arms = []

        def arm(p, b):
            arms.append((self.ws(), p, self.body_in(d - 1, b)))
        has_else = True
        if k in ("oint", "ostr", "res", "en"):
            x = self.scrut(k)
            for _ in range(rng.randint(1, 3)):
                p, b = self.pattern(k)
                if not b and self.chance(.4):
                    p2, b2 = self.pattern(k)
                    if not b2:
                        p = Pat("or", [p, p2])
                elif k == "en" and self.chance(.2):
                    # both alternatives have the same variable
                    n = self.new_name()
                    alts = [Pat("enB", Pat("name", n)), Pat("enC", [("x", Pat("name", n)), ("y", Pat("wild"))])]
                    rng.shuffle(alts)
                    p, b = Pat("or", alts), {n: V("int", 1)}
                arm(p, b)
            if self.chance(.4):
                has_else = False
                fin = {"oint": [("none",), ("some",)], "ostr": [("some",), ("none",)], "res": [("err",), ("ok",)], "en": [("enB",), ("enA",), ("enC",)]}[k]
                for (f,) in fin:
                    if f in ("none", "enA"):
                        arm(Pat(f), {})
                    elif f == "enC":
                        arm(Pat("enC", [("x", Pat("name", "x")), ("y", Pat("name", "y"))]), {"x": V("int", 1), "y": V("str", 1)})
                    else:
                        ty = {"oint": "int", "ostr": "str", "res": "int" if f == "ok" else "str", "en": "int"}[k]
                        n = self.new_name()
                        arm(Pat(f, Pat("name", n)), {n: V(ty, 1)})
        elif k == "int":
            x = self.scrut_int()
            for _ in range(self.many(1, 3, 9)):
                top = rng.choice([9, 9, 20, 40])
                vs = rng.sample(range(0, top), rng.choice([1, 1, 2, 3, self.many(3, 4, top)]))
                ps = [Pat("lit", rng.choice([str(v), self.digits(v, rng.choice([10, 16, 8, 2]))]), v) for v in vs]
                arm(ps[0] if len(ps) == 1 else Pat("or", ps), {})
        elif k == "str":
            x = self.mk("meth", self.field(rng.choice(["s", "u"])), "as_str", [], ty="str", dep=1)
            for _ in range(self.many(1, 3, 9)):
                vs = rng.sample(["", "abc", "x", "<b>", "&", "Zed", "1", "é", "日本", "q w", "{", "}", "/", "abcabc", "\"", "'"], self.many(1, 2, 16))
                ps = [Pat("lit", '"' + self.respell2(v) + '"', v) for v in vs]
                arm(ps[0] if len(ps) == 1 else Pat("or", ps), {})
        elif k == "bool":
            x = self.scrut_bool()
            v = rng.choice([True, False])
            arm(Pat("lit", "true" if v else "false", v), {})
            if self.chance(.6):
                arm(Pat("lit", "false" if v else "true", not v), {})
                has_else = False
        elif k == "char":
            v = rng.choice(["a", "<", "é", "x", "'"])
            x = self.mk("lit", "'" + self.spell(v, True)[0] + "'", v, ty="char")
            vs = rng.sample(["a", "<", "é", "'", "\"", "\n", "z", "日"], self.many(1, 2, 8))
            ps = [Pat("lit", "'" + self.spell(v, True)[0] + "'", v) for v in vs]
            arm(ps[0] if len(ps) == 1 else Pat("or", ps), {})
        elif k == "pair":
            x, pat = self.scrut_pair()
            for _ in range(rng.randint(1, 3)):
                p, b = pat()
                if not b and self.chance(.3):
                    p2, b2 = pat()
                    if not b2:
                        p = Pat("or", [p, p2])
                arm(p, b)
        elif k == "tup":
            x = self.scrut("tup")
            used, b = set(), {}
            ps = [self.leaf_pat("int", b, used), self.leaf_pat("str", b, used)]
            arm(Pat("tuple", ps), b)
            if all(p.k in ("name", "wild") for p in ps):
                has_else = False
        if has_else:
            arms.append((self.ws(), None if self.chance(.7) else Pat("wild"), self.body_in(d - 1, {})))
        between = rng.choice(["", "", " ", "\n"])
        if self.chance(.1):
            between += "".join("{# " + rng.choice(["c", "b", "endmatch", "x \n"]) + " #}" + rng.choice(["", " ", "\n\n"]) for _ in range(rng.choice([1, 1, 2, 3])))
        return [Match(self.ws(), x, arms, self.ws(), between)]

    def iterable(self):
        """(target, X, bindings for the condition, bindings for the body)"""
        rng = self.rng
        if self.var("item") is not None and self.var("item").dep is not None and self.chance(.2):
            k = "tags"
        elif self.chance(.3):
            k = rng.choice(["vloc", "p2s", "nested", "unused", "oks", "each", "grprange", "slice", "chars", "paren"])
        else:
            k = None
        k = k or rng.choice(["vint", "vint", "x0", "vstr", "vitem", "range", "rangei", "array", "iter", "enum", "rev", "tags", "strarr", "call", "opt", "index", "exprs", "tmp", "tmprev", "again", "again", "hints"])
        n = self.new_name()

        def one(x, ty, dep, amb=False, bound=200):
            c = None if dep is None else dep + 1
            return n, x, {n: V(ty, c, bound, amb)}, {n: V(ty, dep, bound, amb)}
        if k == "vint":
            x = self.var("vint")
            if x is None or x.dep is None:
                x = self.field("v")
            return one(x, "int", 1)
        if k == "vloc":
            x = self.var("vloc")
            return one(x if x is not None else self.field("v"), "int", 1)
        if k == "p2s":
            x = self.mk("fn", "t::p2s", [self.field(rng.choice(["v", "x0"]))])
            f = [("x", n), ("y", self.new_name(avoid=(n,)))]
            if self.chance(.3):
                f = [("x", "x"), ("y", "y")]
            if self.chance(.3):
                f.reverse()
            ps = Pat("st", "P2", [(a, Pat("wild") if self.chance(.2) else Pat("paren", Pat("name", b)) if self.chance(.1) else Pat("name", b)) for a, b in f])
            ps.pre = rng.choice(["", "", "rt::", "crate::rt::"])
            used = {a: b for (a, b), (_, q) in zip(f, ps.a[1]) if q.k != "wild"}
            bind = lambda c: {b: V("int", c) if a == "x" else V("str", c or None) for a, b in used.items()}
            return ps, x, bind(1), bind(0)
        if k == "nested":
            n2 = self.new_name(avoid=(n,))
            n3 = self.new_name(avoid=(n, n2))
            x = self.mk("meth", self.mk("meth", self.mk("meth", self.field("v"), "iter", []), "enumerate", []), "enumerate", [])
            a, b, c = [Pat("name", z) if not self.chance(.15) else Pat("wild") for z in (n, n2, n3)]
            bind = lambda d: {p.a[0]: V(ty, e + d) for p, ty, e in ((a, "usz", 0), (b, "usz", 0), (c, "int", 1)) if p.k == "name"}
            return Pat("tuple", [a, Pat("tuple", [b, c])]), x, bind(1), bind(0)
        if k == "unused":
            return Pat("wild"), self.field(rng.choice(["v", "w", "items"])), {}, {}
        if k == "paren":
            return Pat("paren", Pat("name", n)), self.field("v"), {n: V("int", 2)}, {n: V("int", 1)}
        if k == "oks":
            return one(self.mk("try", self.mk("fn", "t::oks", [self.field(rng.choice(["v", "x0"]))])), "int", 0)
        if k == "each":
            return one(self.mk("filt", self.field(rng.choice(["v", "x0"])), "each", []), "int", 0)
        if k == "grprange":
            x = X("group", X("range", "..", X("lit", "0", 0), self.field("n")))
            return one(x if self.chance(.5) else self.mk("meth", x, "rev", []), "int", 0, bound=10)
        if k == "slice":
            i = self.mk("lit", rng.choice(["0", "1", "2"]))
            i.a = (i.a[0], int(i.a[0]))
            lo, hi = rng.choice([(i, None), (None, i), (X("lit", "1", 1), X("lit", "2", 2)), (None, None), (i, self.mk("meth", X("attr", X("var", "self"), "v"), "len", []))])
            return one(X("slice", self.field("v"), X("range", "..", lo, hi)), "int", 1)
        if k == "chars":
            return one(self.mk("meth", self.field(rng.choice(["s", "u"])), "chars", []), "chr", None)
        if k == "x0":
            return one(self.field("x0"), "int", 1)
        if k == "vstr":
            return one(self.field("w"), "str", 1)
        if k == "vitem":
            return one(self.field("items"), "item", 1)
        if k == "range":
            a = rng.randint(0, 2)
            hi = X("lit", str(self.many(0, 4, 300) if not self.loops and not self.in_macro and not self.block_ctx else rng.randint(0, 4)), 0)
            hi.a = (hi.a[0], int(hi.a[0]))
            return one(X("range", rng.choice(["..", "..="]), X("lit", str(a), a), hi), "int", 0, amb=True, bound=400)
        if k == "rangei":
            hi = self.field("n")
            if self.chance(.4):
                hi = self.mk("bin", "+", hi, X("lit", "1", 1))
            return one(X("range", rng.choice(["..", "..="]), X("lit", "0", 0), hi), "int", 0, bound=10)
        if k == "array":
            vs = [rng.randint(0, 9) for _ in range(self.many(1, 4, 30))]
            return one(X("array", [X("lit", str(v), v) for v in vs]), "int", 1, amb=True, bound=10)
        if k == "exprs":
            # (the elements are temporaries)
            return one(X("array", [self.mk("fn", "t::n", [self.int_(1)], ty="int", dep=0, amb=False) for _ in range(self.many(1, 3, 9))]), "int", 1, bound=1 << 24)
        if k in ("tmp", "tmprev"):
            x = self.mk("meth", self.mk("meth", self.field(rng.choice(["v", "x0"])), "clone", []), "iter", [])
            return one(x if k == "tmp" else self.mk("meth", x, "rev", []), "int", 1)
        if k == "strarr":
            vs = [rng.choice(["a", "<b>", "c&"]) for _ in range(self.many(1, 3, 20))]
            return one(X("array", [self.strlit(v) for v in vs]), "str", None)
        if k == "iter":
            return one(self.mk("meth", self.field(rng.choice(["v", "x0"])), "iter", []), "int", 1)
        if k == "rev":
            return one(self.mk("meth", self.mk("meth", self.field("v"), "iter", []), "rev", []), "int", 1)
        if k == "tags":
            x = self.var("item")
            if x is None or x.dep is None:
                x = self.field("it")
            return one(self.mk("attr", x, "tags"), "str", 1)
        if k == "call":
            return one(self.mk("fn", "t::none", []), "int", 0)
        if k == "again":
            return one(self.mk("fn", "t::again", [self.field("n")]), "int", 0, bound=10)
        if k == "hints":
            return one(self.mk("fn", "t::hints", [self.field(rng.choice(["v", "x0"]))]), "int", 0)
        if k == "opt":
            f = self.field("o")
            f.ty = "opt"
            return one(f, "int", 1)
        if k == "index":
            arr = X("index", X("group", X("array", [X("array", [X("lit", str(v), v) for v in (4, 5)]), X("array", [X("lit", str(v), v) for v in (6, 7)])])), self.field("k"))
            return one(arr, "int", None, bound=10)
        if k == "enum":
            n2 = self.new_name(avoid=(n,))
            x = self.mk("meth", self.mk("meth", self.field("v"), "iter", []), "enumerate", [])
            return [n, n2], x, {n: V("usz", 1), n2: V("int", 2)}, {n: V("usz", 0), n2: V("int", 1)}
        raise AssertionError(k)

    def n_grid(self, d):
        """Rows of a table; what a row is used for moves it"""
        row = self.new_name()
        bb = {row: None}
        ob, self.can_break = self.can_break, False
        of, self.in_filter = self.in_filter, 0
        self.loops += 1
        self.scopes.append(bb)
        n = self.new_name(avoid=(row,))
        inner = self.for_of(d, n, X("var", row), {n: V("int", 1)}, {n: V("int", 0)})
        body = [Lit(self.rng.choice(["-", " ", "\n"]))] + inner
        self.scopes.pop()
        self.loops -= 1
        self.can_break, self.in_filter = ob, of
        return [For(self.ws(), row, self.mk("fn", "t::grid", [self.field("v")]), None, body, self.ws(), None, self.ws())]

    def n_for(self, d):
        if d > 1 and self.chance(.06):
            return self.n_grid(d)
        if self.chance(.12) and not self.in_filter:
            # a variable for what is iterated over
            rng = self.rng
            x, dep, again = rng.choice([
                lambda: (X("array", [self.mk("fn", "t::n", [self.int_(1)], ty="int", dep=0, amb=False) for _ in range(rng.randint(1, 3))]), 0, False),
                lambda: (self.mk("meth", self.field("v"), "clone", []), 0, False),
                lambda: (self.mk("meth", self.field("v"), "iter", []), 1, False),
                lambda: (self.mk("filt", self.field("v"), "as_ref", []), 1, True),
            ])()
            l = self.new_name()
            pre = [Let(self.ws(), l, x, rng.choice(["let", "set"]))]
            self.scopes[-1][l] = V("vloc", None) if again else None
            n = self.new_name(avoid=(l,))
            return pre + self.for_of(d, n, X("var", l), {n: V("int", dep + 1, 1 << 24)}, {n: V("int", dep, 1 << 24)})
        return self.for_of(d, *self.iterable())

    def for_of(self, d, target, x, cb, bb):
        cond = None
        if self.chance(.35):
            old = self.loops, self.in_cond
            self.loops, self.in_cond = 0, True
            self.scopes.append(cb)
            cond = self.loopcond(cb)
            self.scopes.pop()
            self.loops, self.in_cond = old
        ob, self.can_break = self.can_break, True
        of, self.in_filter = self.in_filter, 0
        self.loops += 1
        body = self.body_in(d - 1, bb, 1)
        self.loops -= 1
        self.can_break, self.in_filter = ob, of
        els = None
        if self.chance(.4):
            # `loop` and `break` are not available in `else`
            ol, self.loops = self.loops, 0
            self.can_break = False
            els = self.body_in(d - 1, {})
            self.loops, self.can_break = ol, ob
            if not els:
                els = None
        return [For(self.ws(), target, x, cond, body, self.ws(), els, self.ws())]

    def loopcond(self, cb):
        rng = self.rng
        names = list(cb)
        if not names:
            return self.field("p")
        n = names[-1]
        v = cb[n]
        x = self.mk("var", n, ty=v.ty, dep=v.dep, bound=v.bound, amb=v.amb)
        if v.ty == "int":
            y = self.mk("fn", "t::n", [x], ty="int", dep=0)
            return rng.choice([
                lambda: self.mk("bin", rng.choice([">", "<", "!=", "=="]), y, X("lit", str(z := rng.randint(0, 6)), z)),
                lambda: self.mk("bin", "==", self.mk("bin", "%", y, X("lit", "2", 2)), X("lit", "0", 0)),
                lambda: self.mk("bin", "&&", self.field("q"), self.mk("bin", ">", y, X("lit", "1", 1))),
            ])()
        if v.ty == "str":
            return rng.choice([lambda: self.mk("un", "!", self.mk("meth", x, "is_empty", [])), lambda: self.mk("meth", x, "contains", [self.strlit("a")])])()
        if v.ty == "item":
            return rng.choice([lambda: self.mk("attr", x, "on"), lambda: self.mk("bin", ">", self.mk("attr", x, "qty"), X("lit", "5", 5))])()
        return self.field("p")

    FAIL_FILTERS = [("upper",), ("lower",), ("uppercase",), ("lowercase",), ("trim",), ("capitalize",), ("title",), ("wordcount",), ("linebreaks",), ("linebreaksbr",), ("paragraphbreaks",),
                    ("indent", 2), ("center", 9), ("truncate", 2), ("truncate", 90), ("urlencode",), ("urlencode_strict",), ("safe",), ("escape",), ("e",), ("escape", "none"), ("tag",), ("len",), ("rev",), ("as_ref",)]

    def n_fail(self, d):
        """Something that always fails, or that fails with some values."""
        rng = self.rng
        if len(self.fail_kinds) >= self.prof.get("fails", 0):
            return [Lit(self.littext())]
        i = next(self.traces)
        lit = lambda v: X("lit", str(v), v)
        fail = X("fn", "t::fail", [lit(i)])
        good = lambda: self.any_(1)

        def ok():
            """`t::ok(..)?` that fails always, or sometimes"""
            v = X("un", "-", lit(1)) if self.chance(.6) else self.field(rng.choice(["n", "a"]))
            return self.mk("try", X("fn", "t::ok", [lit(i), v], ty="res"), ty="int", dep=0, amb=False)

        def filt(x, f):
            return X("filt", x, f[0], [self.strlit(f[1]) if isinstance(f[1], str) else lit(f[1])] if len(f) > 1 else [], ty="str")
        pos = lambda: self.mk("bin", rng.choice([">", "==", "<"]), ok(), lit(1), ty="bool", dep=0)
        ways = {
            "show": lambda: ("fmt", [Expr(self.ws(), fail)]),
            "filter": lambda: ("fmt", [Expr(self.ws(), filt(fail, rng.choice(self.FAIL_FILTERS)))]),
            "filters": lambda: ("fmt", [Expr(self.ws(), filt(filt(fail, rng.choice(self.FAIL_FILTERS)), rng.choice([("upper",), ("tag",), ("rev",), ("center", 4), ("safe",), ("trim",), ("truncate", 1)])))]),
            "join": lambda: ("fmt", [Expr(self.ws(), X("filt", X("array", [fail, X("fn", "t::fail", [lit(i)])]), "join", [self.strlit()]))]),
            "joinone": lambda: ("fmt", [Expr(self.ws(), X("filt", X("array", [X("fn", "t::but", [lit(z), lit(at)]) for at in [rng.randint(0, 3)] for z in range(4)]), "join", [self.strlit()]))]),
            "joinsep": lambda: ("fmt", [Expr(self.ws(), X("filt", X("array", [lit(1), lit(2), lit(3)]), "join", [fail]))]),
            "arg": lambda: ("fmt", [Expr(self.ws(), X("filt", good(), "wrap", [fail]))]),
            "var": lambda: ("fmt", [Let(self.ws(), f"fl{i}", fail), Lit(self.littext()), Expr(self.ws(), X("var", f"fl{i}"))]),
            "letfilter": lambda: ("fmt", [Let(self.ws(), f"fl{i}", filt(fail, rng.choice([("upper",), ("trim",), ("center", 3), ("truncate", 1), ("title",)]))), Expr(self.ws(), X("var", f"fl{i}"))]),
            "try": lambda: (f"custom{i}", [Expr(self.ws(), ok())]),
            "tryin": lambda: (f"custom{i}", [Expr(self.ws(), rng.choice([lambda: X("group", X("bin", "+", self.field("a"), ok())), lambda: X("filt", good(), "wrap", [ok()]),
                              lambda: X("filt", ok(), "wrap", [lit(3)]), lambda: X("fn", "t::ss", [ok()]), lambda: X("filt", X("array", [ok(), lit(5)]), "join", [self.strlit()])])())]),
            "trylet": lambda: (f"custom{i}", [Let(self.ws(), f"fl{i}", ok())]),
            "tryif": lambda: (f"custom{i}", [If([(self.ws(), pos(), self.body_in(d - 1, {})), (self.ws(), None, self.body_in(d - 1, {}))], self.ws(), self.elif_kw)]),
            "tryelif": lambda: (f"custom{i}", [If([(self.ws(), self.bool_(1), self.body_in(d - 1, {})), (self.ws(), pos(), self.body_in(d - 1, {}))], self.ws(), self.elif_kw)]),
            "tryfor": lambda: (f"custom{i}", [For(self.ws(), f"fl{i}", X("range", "..", lit(0), ok()), None, [Lit("x")], self.ws(), None, self.ws())]),
            "trymatch": lambda: (f"custom{i}", [Match(self.ws(), ok(), [(self.ws(), Pat("lit", "1", 1), self.body_in(d - 1, {})), (self.ws(), None, [])], self.ws(), "")]),
            "bad": lambda: (f"custom{i}", [Expr(self.ws(), X("filt", good(), "bad", [lit(i)]))]),
            "badin": lambda: (f"custom{i}", [Expr(self.ws(), filt(X("filt", good(), "bad", [lit(i)]), rng.choice(self.FAIL_FILTERS)))]),
            "badlet": lambda: (f"custom{i}", [Let(self.ws(), f"fl{i}", X("filt", good(), "bad", [lit(i)]))]),
            "badblock": lambda: (f"custom{i}", [FilterBlock(self.ws(), rng.choice([[("bad", [lit(i)])], [("upper", []), ("bad", [lit(i)])], [("bad", [lit(i)]), ("trim", [])]]), [Lit("x")], self.ws())]),
            "cycle": lambda: ("fmt", [Expr(self.ws(), X("meth", X("var", "loop"), "cycle", [X("fn", "t::none", [])]))]),
        }
        names = [w for w in ways if (w != "cycle" or self.loops) and (d > 0 or w not in ("tryif", "tryelif", "trymatch"))
                 and not (self.in_filter and ("let" in w or w == "var"))]
        if self.loops and self.chance(.2):
            names = ["cycle"]
        how = rng.choice(names)
        # (reserved before its parts are made)
        self.fail_kinds.append(None)
        k = len(self.fail_kinds) - 1
        kind, nodes = ways[how]()
        self.fail_kinds[k] = kind
        self.features.add("fail_" + how)
        return nodes

    def n_hook(self, d):
        """A value that calls back while it is displayed"""
        x = X("fn", "t::hook", [])
        for f in self.rng.sample(["upper", "lower", "trim", "capitalize", "tag", "rev", "title"], self.many(0, 2, 6)):
            x = X("filt", x, f, [], ty="str")
        return [Expr(self.ws(), x)]

    def n_break(self, d):
        # Something may follow it, but never runs.
        b = (Break if self.chance(.5) else Continue)(self.ws())
        if self.chance(.85):
            return [If([(self.ws(), self.bool_(1), [Lit(self.littext()), b] if self.chance(.5) else [b])], self.ws(), lambda: "elif")]
        return [b]

    def n_filter(self, d):
        rng = self.rng
        fs = []
        for i in range(rng.choice([1, 1, 2, 3])):
            f = rng.choice([f for f in self.prof["filters"] if f != "join"])
            args = self.filter_args(f, 2)
            fs.append((f, args))
        if self.chance(.25):
            fs.append((rng.choice(["safe", "escape", "e"]), []))
        ob, self.can_break = self.can_break, False
        self.in_filter += 1
        body = self.body_in(d - 1, {})
        self.in_filter -= 1
        self.can_break = ob
        return [FilterBlock(self.ws(), fs, body, self.ws())]

    def n_call(self, d):
        scope, m = self.rng.choice(self.callable)
        return [self.call_of(scope, m)]

    def call_of(self, scope, m):
        rng = self.rng
        args = []
        named_from = len(m.params)
        if m.params and self.chance(.35):
            named_from = rng.randint(0, len(m.params))
        traced = False
        for i, p in enumerate(m.params):
            old = self.prof["trace"]
            if i >= named_from or traced:
                self.prof["trace"] = 0
            ty = m.ptypes[i]
            x = {"int": lambda: self.int_(2), "bool": lambda: self.bool_(2), "str": lambda: self.str_(2)}[ty]()
            if self.loops and self.chance(.3) and ty != "str":
                x = self.mk("attr", X("var", "loop"), rng.choice(["index", "index0"] if ty == "int" else ["first", "last"]), ty="usz" if ty == "int" else ty, dep=0)
            if ty == "str" and (x.k not in ("lit", "var", "attr", "fn", "macro") or (i >= named_from and x.k not in ("lit", "fn"))):
                # results of filters borrow their input, and named arguments are moved
                x = self.mk("fn", "t::ss", [x], ty="str", dep=0)
            self.prof["trace"] = old
            args.append((p if i >= named_from else None, x))
        # traced evaluations within several arguments have no specified order
        tail = args[named_from:]
        rng.shuffle(tail)
        args[named_from:] = tail
        return Call(self.ws(), scope, m.name, args, noparen=self.chance(.3))

    def macro(self, name, d, callable_=()):
        """A macro definition that only relies on its parameters and fields that are never shadowed."""
        rng = self.rng
        params = rng.sample(PARAMS, self.many(0, 3, 8))
        saved = (self.scopes, self.loops, self.in_macro, self.in_filter, self.can_break, self.callable)
        ptypes = [rng.choice(["int", "int", "bool", "str"]) for _ in params]
        self.scopes = [{p: V(t, None, 1 << 16 if t == "int" else 0) for p, t in zip(params, ptypes)}]
        self.loops, self.in_macro, self.in_filter, self.can_break, self.callable = 0, True, 0, False, list(callable_)
        orig = dict(self.scopes[0])
        self.scopes.append({})
        body = self.body(d, 1, scope=False)
        # use the parameters
        for p, t in zip(params, ptypes):
            if p not in self.scopes[-1] and self.chance(.6):
                body.append(Expr(self.ws(), self.mk("var", p, ty=t, dep=None)))
        self.scopes, self.loops, self.in_macro, self.in_filter, self.can_break, self.callable = saved
        m = Macro(self.ws(), name, params, body, self.ws(), self.chance(.3))
        m.ptypes = ptypes
        return m

    # -- whole templates -----------------------------------------------------------------

    def simple(self, path, n_macros=0):
        """A template without other files."""
        nodes = []
        for i in range(n_macros):
            m = self.macro(f"mac{i}", 2, self.callable)
            self.callable = self.callable + [(None, m)]
            nodes.append(m)
            if self.chance(.5):
                nodes.append(Lit(self.littext()))
        body = self.body(self.prof["depth"], 2, self.prof["width"] + 2, scope=False)
        # macros may be defined anywhere at the top level
        if nodes and self.chance(.3):
            nodes = body + nodes
        else:
            nodes = nodes + body
        nodes = merge_lits(nodes)
        return File(path, nodes, self.trailing(nodes))

    def trailing(self, nodes):
        last = nodes[-1] if nodes else None
        if isinstance(last, Lit) and last.text.endswith("\n"):
            return "\n"
        return self.rng.choice(["", "\n"])


def merge_lits(nodes):
    res = []
    for n in nodes:
        if isinstance(n, Lit) and res and isinstance(res[-1], Lit):
            continue
        res.append(n)
    return res


def fix_trailing(f):
    """File-based templates lose one line break at the end."""
    if f.nodes and isinstance(f.nodes[-1], Lit) and f.nodes[-1].text.endswith("\n"):
        f.trailing = "\n"
    return f
