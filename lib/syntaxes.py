"""Random custom delimiters."""
import re
from multi import *

KEYS = ["block_start", "block_end", "expr_start", "expr_end", "comment_start", "comment_end"]
SHORT = dict(zip(KEYS, ["bs", "be", "es", "ee", "cs", "ce"]))
DEFAULT = dict(zip(KEYS, ["{%", "%}", "{{", "}}", "{#", "#}"]))
OPS = ["||", "&&", "==", "!=", ">=", "<=", "<<", ">>", "..", "..="]
PUNCT = "{}<>[]()%#@$!?*&^=:;/\\|,'`\"._"
START2 = PUNCT + "-+~aZ\u00ab\u00e9"
# A closing delimiter must not look like more of the tag's content
END1 = "}])@$;\\`#"
END2 = "{}<>[]()%#@$!?*&^=:;/\\|,`._aZ\u00ab\u00e9"


def rand_delim(rng, end):
    while True:
        if rng.random() < .1:
            return rng.choice(["begin", "do", "@code", "\u00ab", "\u3010\u3010", "<?php", "{{{{", "//", "$$", "<!--#"] if not end else ["}}}}", "@end", "#-->", "%}", "%>", "%]", "%)", ")))", "]]", ";)"])
        s = rng.choice(END1 if end else PUNCT) + "".join(rng.choice(END2 if end else START2) for _ in range(rng.choice([1, 1, 1, 2, 3])))
        if s not in OPS and len(s.encode()) >= 2:
            return s


def rand_syntax(rng):
    while True:
        s = {k: rand_delim(rng, k.endswith("end")) for k in KEYS}
        for k in KEYS:
            if rng.random() < .2:
                s[k] = DEFAULT[k]
        if why_bad(s):
            continue
        # comments nest, so that their delimiters must differ; quotes in closing delimiters would open literals
        if s["comment_start"] in s["comment_end"] or s["comment_end"] in s["comment_start"]:
            continue
        return s


def why_bad(s):
    for k, d in s.items():
        if len(d.encode()) < 2 or any(c.isspace() for c in d) or d in OPS:
            return True
    st = [s["block_start"], s["expr_start"], s["comment_start"]]
    return any(i != j and st[i].startswith(st[j]) for i in range(3) for j in range(3))


def toml(syntaxes, default=None):
    # (single quoted strings of TOML have no escape sequences)
    q = lambda s: "'" + s + "'" if "'" not in s else "'''" + s + "'''"
    out = [f'[general]\ndefault_syntax = "{default}"\n'] if default else []
    for n, s in syntaxes.items():
        out.append(f'[[syntax]]\nname = "{n}"\n' + "".join(f"{k} = {q(v)}\n" for k, v in s.items() if v != DEFAULT[k]))
    return "\n".join(out)


class SynGen(Multi):
    def set_syntax(self, s):
        self.delims = tuple(s[k] for k in KEYS)
        self.PLAIN = self.PLAIN + ["{{ a }}", "{% if p %}", "{# c #}", "{{", "%}", "{%- else -%}"] * 2 + [d[:1] for d in self.delims] + [s["block_end"], s["expr_end"]] + ["{% endraw %}", "{% endraw", "{% raw %}", "{% endfor %}", "{% endblock %}", "#}"]
        self.s = s

    def n_raw(self, d):
        """The text of raw blocks: anything but their end, with tags of this syntax and of the default one"""
        s, rng = self.s, self.rng
        end = "endraw"
        parts = ["{{ a }}", " {% if x %} ", "raw", " ", "{# c #}", "{%", "{% endraw %}", "{%- endraw -%}", "{% endraw", "{% raw %}", "endraw", " %}", "\n",
                 s["expr_start"] + " a " + s["expr_end"], s["block_start"] + " if p " + s["block_end"], s["block_start"] + " endfor " + s["block_end"], s["block_start"] + "raw" + s["block_end"], s["comment_start"] + " c", s["comment_end"],
                 s["block_start"][:-1], s["expr_start"][:1]]
        for _ in range(30):
            t = "".join(rng.choice(parts) for _ in range(rng.randint(0, 4)))
            # where a start of a block tag is followed by `endraw`, or one could arise at the end
            b = s["block_start"]
            if re.search(re.escape(b) + r"[-+~]?\s*" + end, t) or any(t.endswith(b[:k]) for k in range(1, len(b) + 1)) or re.search(re.escape(b) + r"[-+~]?\s*$", t):
                continue
            if any((t + b).find(b, i) not in (-1, len(t)) and (t + b).find(b, i) + len(b) > len(t) for i in range(len(t))):
                continue
            return [Raw(self.ws(), Lit(t), self.ws())]
        return [Raw(self.ws(), Lit("raw"), self.ws())]
