"""Mutation analysis of the checks: mutate.py DIR SEED [COUNT] [FILE..]

Works on copies (DIR/repo, DIR/verif, made by `mutate.py DIR setup`), never on /repo. Each mutant is one small change of a
line of the original sources outside of test modules; mutants that build and pass the tests are given to the quick checks,
most closely related ones first, until one of them reports it. The outcome goes to DIR/log-SEED.jsonl.
"""
import json, os, random, re, shutil, subprocess, sys, time

FILES = {
    "askama_derive/src/generator.rs": "05 04 08 09 06 07 03 14 10 16 02 22 28 18 15 01 11 25",
    "askama_derive/src/heritage.rs": "09 10 08 22",
    "askama_derive/src/input.rs": "25 22 02 10 09 21 26 03",
    "askama_derive/src/config.rs": "22 02 10 21 03 26",
    "askama_derive/src/lib.rs": "22 18 26",
    "askama_parser/src/lib.rs": "19 17 18 20 21 03",
    "askama_parser/src/node.rs": "19 18 17 03 21 06 05 22",
    "askama_parser/src/expr.rs": "19 18 17 04 22",
    "askama_escape/src/lib.rs": "01 02 12 20 15",
    "askama/src/filters/mod.rs": "11 13 16 20 15",
    "askama/src/filters/json.rs": "12 20 11",
    "askama/src/helpers.rs": "07 24 16",
    "askama/src/lib.rs": "15 25 16 24 26",
    "askama/src/error.rs": "16 15 22",
}
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="", CARGO_INCREMENTAL="1", NO_COLOR="1")


def sh(cmd, cwd, t=900, env=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env=env or ENV, errors="replace")
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return "timeout", ""


def setup(d):
    os.makedirs(d, exist_ok=True)
    sh(f"git clone -q /repo {d}/repo; cp /repo/Cargo.lock {d}/repo/", d)
    os.makedirs(f"{d}/verif/harness", exist_ok=True)
    sh(f"cp -r /verif/lib /verif/checks /verif/tools /verif/known_findings.jsonl {d}/verif/; for x in libs rt; do mkdir -p {d}/verif/harness/$x; cd /verif/harness/$x; cp -r Cargo.toml Cargo.lock src {d}/verif/harness/$x/; done", d)
    sh(f"""grep -rlE '["/]/?repo[/"]' verif/lib verif/checks verif/harness | xargs sed -i -E 's#"/repo(["/])#"{d}/repo\\1#g'""", d)


def passed(d):
    rc, o = sh("timeout 300 cargo test --offline --no-fail-fast --tests -- --test-threads 8", f"{d}/repo")
    out, cur = set(), ""
    for l in o.split("\n"):
        m = re.match(r"\s+Running (\S+ ?\S*)", l)
        if m:
            cur = m.group(1)
        m = re.match(r"test (\S+)( - should panic)? \.\.\. ok", l)
        if m:
            out.add((re.sub("-[0-9a-f]+\\)", "", cur), m.group(1)))
    return out


def candidates(text):
    """(line number, new line, kind)"""
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("#[cfg(test)]") and i + 1 < len(lines) and lines[i + 1].startswith("mod ") and lines[i + 1].endswith("{"):
            break
        if not s or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("pub use"):
            continue
        def sub(pat, rep, kind):
            for m in re.finditer(pat, l):
                # not within a string
                if l[:m.start()].count('"') % 2 == 0 or kind == "string":
                    out.append((i, l[:m.start()] + m.expand(rep) + l[m.end():], kind))
        for a, b in ((" == ", " != "), (" != ", " == "), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), (" && ", " || "), (" \\|\\| ", " && "), (" \\+ 1\\b", ""), (" - 1\\b", ""), (" \\+ ", " - "),
                     (" \\+= ", " = "), ("\\btrue\\b", "false"), ("\\bfalse\\b", "true"), ("\\.rev\\(\\)", ""), ("\\.first\\(\\)", ".last()"), ("\\.last\\(\\)", ".first()"), ("\\.min\\(", ".max("), ("\\.max\\(", ".min("),
                     ("\\.is_some\\(\\)", ".is_none()"), ("\\.is_none\\(\\)", ".is_some()"), ("\\.is_empty\\(\\)", ".is_empty() == false"), ("\\bbreak;", "continue;"), ("\\bcontinue;", "break;"), ("\\.\\.=", ".."),
                     ("\\bif !", "if "), ("\\bif (?!let|!)", "if !"), ("\\bstarts_with\\b", "ends_with"), ("\\btrim_start", "trim_end"), ("\\btrim_end", "trim_start"), ("\\bmany0\\b", "many1"), ("\\bmany1\\b", "many0"),
                     ("\\bopt\\(", "cut("), ("\\bcut\\(", "("), ("\\bws\\(", "("), ("\\.or_else\\(.*?\\)\\)?", ""), ("\\bAstLevel::Nested\\b", "AstLevel::Top"), ("\\bAstLevel::Block\\b", "AstLevel::Nested"), ("\\bDisplayWrap::Wrapped\\b", "DisplayWrap::Unwrapped"),
                     ("\\bDisplayWrap::Unwrapped\\b", "DisplayWrap::Wrapped"), ("\\.find\\(", ".rfind("), ("\\.insert\\(0, ", ".push("), ("\\.saturating_sub\\(", ".wrapping_sub("), ("\\btake_until\\b", "take_till"), ("\\bws1\\b", "ws2"), ("\\bws2\\b", "ws1"),
                     ("\\bws1\\b", "ws3"), ("\\bSuppress\\b", "Preserve"), ("\\bMinimize\\b", "Suppress"), ("\\bPreserve\\b", "Minimize"), ("\\.0\\b", ".1"), ("\\.1\\b", ".0"), ("\\blocal\\b", "global"), (" if (?!let)[^=]*=> ", " => ")):
            sub(a, b, "op")
        sub(r"\b(\d+)\b", r"\g<1>1", "num")
        if not s.startswith(("const", "static")):
            sub(r"\b([1-9]\d*)\b", "0", "num")
        # strings lose or gain a character
        for m in re.finditer(r'"((?:[^"\\]|\\.)+)"', l):
            v = m.group(1)
            if len(v) > 1 and "\\" not in v:
                out.append((i, l[:m.start(1)] + v[:-1] + l[m.end(1):], "string"))
        # a statement or an element of a list is dropped
        if re.fullmatch(r"[a-z_][\w.]*(\(.*\))?(\..*)?\??;", s) and not s.startswith(("let", "return", "break", "continue")):
            out.append((i, "", "drop"))
        if re.fullmatch(r"(\(.*\)|\"[^\"]*\"|'.*'|Self::\w+|map\(.*\)|[a-z_]\w*\(.*\)|\|.*\)),", s):
            out.append((i, "", "drop"))
        if re.fullmatch(r".* => .*,", s):
            out.append((i, "", "drop"))
        if re.fullmatch(r"return .*;", s):
            out.append((i, "", "drop"))
    return lines, out


def original(d, f):
    """Lines of the original repository that are still there"""
    rc, o = sh(f"git blame -s -l HEAD -- {f}", f"{d}/repo")
    rc, base = sh("git rev-parse 6ea54fb", f"{d}/repo")
    added = set(sh("git rev-list 6ea54fb..HEAD", f"{d}/repo")[1].split())
    return {i for i, l in enumerate(o.split("\n")) if l.split(" ")[0].lstrip("^") not in added}


def main():
    d = os.path.abspath(sys.argv[1])
    if sys.argv[2] == "setup":
        return setup(d)
    seed, count = sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 100
    rng = random.Random(seed)
    files = sys.argv[4:] or list(FILES)
    todo = []
    for f in files:
        lines, c = candidates(open(f"{d}/repo/{f}").read())
        keep = original(d, f)
        todo += [(f, *x) for x in c if x[0] in keep]
    rng.shuffle(todo)
    # as many of each file as its size suggests, but small files are not left out
    log = open(f"{d}/log-{seed}.jsonl", "a")
    stats = {}
    base = passed(d)
    print(len(base), "tests", flush=True)
    for f, i, new, kind in todo[:count]:
        path = f"{d}/repo/{f}"
        text = open(path).read()
        lines = text.split("\n")
        old = lines[i]
        lines[i] = new
        t0 = time.time()
        open(path, "w").write("\n".join(lines))
        res = None
        try:
            rc, o = sh("cargo test --offline --no-run -q", f"{d}/repo")
            if rc != 0:
                # test templates that no longer compile are a failure of the tests
                rc2, o2 = sh("cargo build --offline -q -p askama", f"{d}/repo")
                res = "build" if rc2 != 0 else "tests"
            else:
                if base - passed(d):
                    res = "tests"
            t1 = time.time()
            if res is None:
                order = FILES[f].split()
                order += [f"{k:02d}" for k in range(1, 29) if f"{k:02d}" not in order and k not in (12, 13, 20, 23, 24)]
                for c in order:
                    rc, o = sh(f"timeout 900 python3 checks/c{c}.py", f"{d}/verif", 950, dict(ENV, VERIF_SEED="1"))
                    if rc != 0:
                        res = f"C{c}" if rc == 1 else f"C{c}?{rc}"
                        break
                else:
                    res = "SURVIVED"
        finally:
            open(path, "w").write(text)
        stats[res] = stats.get(res, 0) + 1
        log.write(json.dumps({"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "kind": kind, "result": res, "t": [round(t1 - t0), round(time.time() - t0)]}) + "\n")
        log.flush()
    print(stats)


main()
