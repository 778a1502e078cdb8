"""Compiles generated template programs with the real derive macro, runs them, and collects what they report."""
import os, re, shutil, subprocess
from common import *

RT = open(os.path.join(VERIF, "lib", "rt.rs")).read()


class Case:
    """One generated template: its files, its Rust module, and what is expected of it.

    name   module name, also the directory of its templates
    files  {path relative to templates/: text}
    rs     source of the module; must have `pub fn run()`
    expect {(instance, channel): (status, text or None, trace or None)}
    info   free-form description for reports
    """

    def __init__(self, name, files, rs, expect, info="", key=None, ident=None):
        self.name, self.files, self.rs, self.expect, self.info = name, files, rs, expect, info
        self.key = key or (tuple(sorted(files.items())), rs)
        self.ident = ident

    def replay(self, extra=None):
        r = {"templates/" + k: v for k, v in self.files.items()}
        r[self.name + ".rs"] = self.rs
        r["info.txt"] = self.info
        r.update(extra or {})
        return r


class Shard:
    def __init__(self, ctx, idx, cases, data_rs="", configs=None, extra_rt="", rustc_extra=(), toolchain=None, libs=None, edition="2021", crate_attrs=""):
        self.ctx, self.idx, self.cases = ctx, idx, cases
        self.data_rs, self.configs, self.extra_rt = data_rs, configs or {}, extra_rt
        self.rustc_extra, self.toolchain = rustc_extra, toolchain
        self.libs, self.edition, self.crate_attrs = libs, edition, crate_attrs
        self.dir = os.path.join(ctx.work, f"s{idx}")
        self.rejected = {}   # case name -> compiler message
        self.results = {}    # (case, inst, channel) -> (status, bytes, trace)
        self.crashed = {}    # case name -> why

    def setup(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(os.path.join(self.dir, "src"))
        os.makedirs(os.path.join(self.dir, "templates"))
        write(os.path.join(self.dir, "src", "rt.rs"), RT + self.extra_rt)
        write(os.path.join(self.dir, "src", "data.rs"), self.data_rs)
        for name, text in self.configs.items():
            write(os.path.join(self.dir, name), text)
        for c in self.cases:
            for p, t in c.files.items():
                write(os.path.join(self.dir, "templates", p), t)
            write(os.path.join(self.dir, "src", c.name + ".rs"), c.rs)

    def compile(self, cases, tag="main"):
        main = [self.crate_attrs, "#[macro_use] mod rt;", "mod data;"] + [f"mod {c.name};" for c in cases]
        main += ["fn main() {", "let only = std::env::args().nth(1);", "rt::quiet();"]
        for c in cases:
            main.append(f'if only.as_deref().map_or(true, |o| o == "{c.name}") {{ println!("B {c.name}"); {c.name}::run(); println!("E {c.name}"); }}')
        main.append("}")
        src = os.path.join(self.dir, "src", tag + ".rs")
        write(src, "\n".join(main))
        exe = os.path.join(self.dir, tag)
        cmd = rustc_cmd(self.libs or build_libs(), src, exe, self.rustc_extra, self.toolchain, self.edition)
        rc, out, err = sh(["bash", "-c", "ulimit -v 12000000; exec \"$@\"", "bash"] + cmd, cwd=self.dir, timeout=240,
                          env={"CARGO_MANIFEST_DIR": self.dir, "CARGO_PKG_NAME": "shard", "RUST_BACKTRACE": "0"})
        return rc, err.decode(errors="replace"), exe

    def build(self):
        """Compiles all cases; those the compiler rejects end up in `rejected`."""
        self.setup()
        cases = list(self.cases)
        for _ in range(4):
            rc, err, exe = self.compile(cases)
            if rc == 0:
                self.exe = exe
                self.built = cases
                return
            bad = {}
            for line in err.splitlines():
                m = re.match(r"(?:.*/)?(\w+)\.rs:\d+:\d+: error", line)
                if m:
                    bad.setdefault(m.group(1), line)
            names = {c.name for c in cases}
            bad = {k: v for k, v in bad.items() if k in names}
            if not bad:
                break
            self.rejected.update(bad)
            cases = [c for c in cases if c.name not in bad]
        # No usable location: the compiler crashed, hung, or ran out of something.
        if not cases:
            self.exe, self.built = None, []
            return
        self.bisect(cases, err)

    def bisect(self, cases, err):
        good = []
        def rec(cs):
            rc, e, _ = self.compile(cs, tag="bis")
            if rc == 0:
                good.extend(cs)
            elif len(cs) == 1:
                self.rejected[cs[0].name] = f"rustc ended with {rc}: {e[-600:]}"
            else:
                rec(cs[:len(cs) // 2])
                rec(cs[len(cs) // 2:])
        rec(cases)
        self.built = good
        if not good:
            self.exe = None
            return
        rc, e, self.exe = self.compile(good)
        if rc != 0:
            raise CheckError("cannot compile a shard whose parts compile: " + e[-800:])

    def run(self, timeout=120):
        if not self.exe:
            return
        todo = [c.name for c in self.built]
        rc, out, err = sh([self.exe], cwd=self.dir, timeout=timeout)
        done = self.parse(out)
        if rc == 0 and done == set(todo):
            return
        for name in todo:
            if name not in done:
                rc, out, err = sh([self.exe, name], cwd=self.dir, timeout=20)
                d = self.parse(out)
                if rc != 0 or name not in d:
                    self.crashed[name] = f"program ended with {rc} (signal or timeout): {err[-300:]!r}"

    def parse(self, out):
        done = set()
        for line in out.decode(errors="replace").splitlines():
            f = line.split(" ")
            if f[0] == "E":
                done.add(f[1])
            elif f[0] == "R" and len(f) == 7:
                tr = [int(x) for x in f[6][1:].split(",") if x]
                self.results[(f[1], int(f[2]), f[3])] = (f[4], bytes.fromhex(f[5][1:]), tr)
        return done


def run_cases(ctx, cases, data_rs="", configs=None, shard_size=40, extra_rt="", keep=False, nontrivial=None, compare=None, timeout=120, libs=None, tag="", **shard_args):
    """Builds and runs all cases, compares every observation with its expectation, records violations."""
    if libs is None:
        build_libs()
    n = max(1, (len(cases) + shard_size - 1) // shard_size)
    if len(cases) > JOBS and n < JOBS:
        n = JOBS
    shards = [Shard(ctx, f"{tag}{i}", cases[i::n], data_rs, configs, extra_rt, libs=libs, **shard_args) for i in range(n)]

    def one(s):
        s.build()
        s.run(timeout)
        if not keep:
            shutil.rmtree(s.dir, ignore_errors=True)
        return s
    shards = pmap(one, shards)
    ctx.add("programs_compiled", sum(len(s.built) for s in shards))
    for s in shards:
        for c in s.cases:
            judge(ctx, s, c, data_rs, configs, nontrivial, compare)
    return shards


def judge(ctx, s, c, data_rs, configs, nontrivial, compare):
    extra = {"data.rs": data_rs}
    extra.update(configs or {})
    if c.name in s.rejected:
        ctx.count(c.key)
        ctx.violation(f"valid template is not accepted: {s.rejected[c.name]}\n{c.info}", c.replay(extra), c.ident)
        return
    if c.name in s.crashed:
        ctx.count(c.key)
        ctx.violation(f"rendering crashed: {s.crashed[c.name]}\n{c.info}", c.replay(extra), c.ident)
        return
    reported = False
    for (inst, chan), exp in c.expect.items():
        got = s.results.get((c.name, inst, chan))
        ctx.count((c.key, inst, chan), nontrivial(c, inst, exp) if nontrivial else True)
        if reported:
            continue
        why = (compare or default_compare)(exp, got)
        if why:
            reported = True
            ctx.violation(f"{c.name} instance {inst} {chan}: {why}\n{c.info}",
                          c.replay({**extra, "expected.txt": repr(exp), "observed.txt": repr(got)}), c.ident)


def default_compare(exp, got):
    if got is None:
        return "nothing was reported"
    st, text, trace = exp
    if got[0] != st:
        return f"expected outcome {st!r} but observed {got[0]!r} (expected text {text!r}, observed {got[1]!r})"
    if text is not None and got[1] != text.encode("utf-8", "surrogatepass"):
        return f"expected {text!r}\n    observed {got[1].decode(errors='replace')!r}"
    if trace is not None and got[2] != trace:
        return f"expected evaluations {trace} but observed {got[2]} (text {text!r})"
    return None
