"""Shared plumbing of the checks: tiers, evidence, violations, known findings, building and running."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
JOBS = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    """The check itself could not do its work (exit 2, no verdict)."""


class Ctx:
    """State of one run of one check."""

    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.rules = []
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known_hit = {}
        self.known = load_known(prop)
        self.work = os.path.join(BUILD, "work", prop)
        self.replays = os.path.join(BUILD, "replay", prop)
        for d in (self.work, self.replays):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)

    def rng(self, tag=""):
        return random.Random(f"{self.seed}/{self.prop}/{tag}")

    def quick(self):
        return self.tier == "quick"

    def scale(self, quick, thorough):
        return quick if self.quick() else thorough

    def count(self, key, nontrivial=True, n=1):
        """One evaluation; `key` identifies the case, counted as distinct if non-trivial."""
        self.evaluations += n
        if nontrivial:
            self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def add(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def violation(self, what, replay_files, ident=None):
        """Records a violation unless it is listed as a known finding by its exact identifier."""
        if ident is not None and ident in self.known:
            self.known_hit[ident] = self.known[ident]
            return
        n = len(self.violations)
        if n < 20:
            d = os.path.join(self.replays, f"{n:03d}")
            os.makedirs(d, exist_ok=True)
            for name, content in replay_files.items():
                p = os.path.join(d, name)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                mode = "wb" if isinstance(content, bytes) else "w"
                with open(p, mode, **({} if mode == "wb" else {"encoding": "utf-8", "errors": "surrogateescape", "newline": ""})) as f:
                    f.write(content)
            with open(os.path.join(d, "what.txt"), "w", encoding="utf-8", errors="backslashreplace") as f:
                f.write(what + "\n")
        else:
            d = os.path.join(self.replays, "019")
        self.violations.append((what, d))

    def finish(self):
        """Writes the evidence and ends the process with the verdict."""
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.distinct),
            "rule": " | ".join(self.rules),
            "samples": self.samples or ["(none)"],
        }
        cov.update(self.extra)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for ident, what in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        print(f"{self.prop} {self.tier} seed={self.seed}: {self.evaluations} evaluations, "
              f"{len(self.distinct)} distinct non-trivial, {ev['wall_s']} s")
        for what, d in self.violations[:10]:
            print("  " + what.replace("\n", "\n    ")[:1500])
        for what, d in self.violations[:10]:
            print(f"VIOLATION property={self.prop} replay={d}")
        sys.stdout.flush()
        sys.exit(1 if self.violations else 0)


def load_known(prop):
    """known_findings.jsonl: {"property", "id", "what"} are open findings; {"fixed": ...} suppress nothing."""
    res = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if not line:
                continue
            k = json.loads(line)
            if k.get("property") == prop and "id" in k:
                res[k["id"]] = k["what"]
    return res


def run_check(prop, fn, level="exploration"):
    ctx = Ctx(prop, level)
    try:
        fn(ctx)
    except CheckError as e:
        print(f"ERROR: {prop}: {e}")
        sys.exit(2)
    ctx.finish()


def sh(cmd, timeout=600, cwd=None, env=None, input=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, input=input, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as t:
        return -999, t.stdout or b"", t.stderr or b""


def cargo_env():
    e = {"CARGO_TERM_COLOR": "never", "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "", "NO_COLOR": "1",
         "CARGO_INCREMENTAL": "0", "RUST_BACKTRACE": "0"}
    return e


def cargo(args, cwd, timeout=800, env=None, fatal=True):
    e = cargo_env()
    e.update(env or {})
    rc, out, err = sh(["cargo"] + args, cwd=cwd, timeout=timeout, env=e)
    if rc != 0 and fatal:
        tail = err.decode(errors="replace")[-3000:]
        raise CheckError(f"cargo {' '.join(args)} in {cwd} failed ({rc}):\n{tail}")
    return rc, out, err


_libs = None


def build_libs():
    """Builds /repo's askama and returns what rustc needs to use it."""
    global _libs
    if _libs:
        return _libs
    _libs = libs_of(os.path.join(VERIF, "harness", "libs"), os.path.join(BUILD, "target-libs"))
    return _libs


def libs_of(d, tgt):
    rc, out, err = cargo(["build", "--offline", "--message-format=json", "--target-dir", tgt], cwd=d)
    arts = {}
    for line in out.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            name = m["target"]["name"].replace("-", "_")
            for f in m["filenames"]:
                if f.endswith((".rlib", ".so")):
                    arts[name] = f
    for need in ("askama", "askama_escape", "askama_parser", "serde_json", "serde"):
        if need not in arts:
            raise CheckError(f"no artifact for {need}")
    return {"deps": os.path.join(tgt, "debug", "deps"), "arts": arts}


def rustc_cmd(libs, src, out, extra=(), toolchain=None, edition="2021"):
    cmd = ["rustc"] + ([toolchain] if toolchain else []) + [
        "--edition", edition, "--cap-lints", "allow", "-Cdebuginfo=0", "-Ccodegen-units=4",
        "-L", "dependency=" + libs["deps"], "--error-format=short", "--color=never"]
    for n in ("askama", "askama_escape", "askama_parser", "serde_json", "serde"):
        cmd += ["--extern", f"{n}={libs['arts'][n]}"]
    cmd += list(extra)
    return cmd + [src, "-o", out]


def pmap(fn, items, jobs=JOBS):
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        return list(ex.map(fn, items))


def rs_str(s):
    """A Rust string literal for any text."""
    out = ['"']
    for ch in s:
        o = ord(ch)
        if ch in '"\\':
            out.append("\\" + ch)
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\r":
            out.append("\\r")
        elif ch == "\t":
            out.append("\\t")
        elif 32 <= o < 127:
            out.append(ch)
        else:
            out.append("\\u{%x}" % o)
    out.append('"')
    return "".join(out)


class Link(bytes):
    """In place of the content of a file: a symbolic link to this path"""


def write(path, content):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if isinstance(content, Link):
        os.symlink(bytes(content), path)
        return
    with open(path, "wb") as f:
        f.write(content if isinstance(content, bytes) else content.encode("utf-8"))
