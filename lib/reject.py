"""Programs that must not compile, and what the compiler says about them."""
import json, os, re, shutil, time
from common import *
from shards import *


class Verdict:
    """What the compiler said of one module: errors [(message, notes)], panics, or why it crashed"""

    def __init__(self):
        self.errors, self.panics, self.crash = [], [], None
        self.dir = self.cwd = None  # of the shard, and where the compiler ran


def compile_json(shard, cases, tag="rej", timeout=60, mem_kb=6000000, cwd="."):
    """(exit code, {module: Verdict}, leftover messages, stderr)"""
    main = ["#[macro_use] mod rt;", "mod data;"] + [f"mod {c.name};" for c in cases] + ["fn main() {}"]
    src = os.path.join(shard.dir, "src", tag + ".rs")
    write(src, "\n".join(main))
    cmd = rustc_cmd(shard.libs or build_libs(), src, os.path.join(shard.dir, tag), ["--emit=metadata"], shard.toolchain)
    cmd = [("--error-format=json" if a == "--error-format=short" else a) for a in cmd]
    cwd = os.path.normpath(os.path.join(shard.dir, cwd))
    os.makedirs(cwd, exist_ok=True)
    t0 = time.time()
    rc, out, err = sh(["bash", "-c", f"ulimit -v {mem_kb}; ulimit -c 0; exec \"$@\"", "bash"] + cmd, cwd=cwd, timeout=timeout,
                      env={"CARGO_MANIFEST_DIR": shard.dir, "CARGO_PKG_NAME": "shard", "RUST_BACKTRACE": "0"})
    took = time.time() - t0
    res = {c.name: Verdict() for c in cases}
    for v in res.values():
        v.dir, v.cwd = shard.dir, cwd
    rest = []
    for line in err.decode(errors="replace").splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            rest.append(line)
            continue
        if not isinstance(m, dict):
            continue  # (what `print` writes)
        if m.get("level") != "error":
            continue
        mods = set()
        for sp in m.get("spans", []):
            while sp:
                mm = re.match(r"(?:.*/)?(\w+)\.rs$", sp["file_name"])
                if mm and mm.group(1) in res:
                    mods.add(mm.group(1))
                sp = (sp.get("expansion") or {}).get("span")
        notes = [c["message"] for c in m.get("children", [])]
        if not mods:
            rest.append(m["message"])
        for n in mods:
            if "panicked" in m["message"]:
                res[n].panics.append((m["message"], notes))
            else:
                res[n].errors.append((m["message"], notes))
    return rc, res, rest, took


def classify(ctx, cases, data_rs="", configs=None, extra_rt="", shard_size=60, timeout=60, libs=None, cwds=(".",)):
    """{case name: Verdict} of compiling all the cases; crashes and hangs are attributed to single cases"""
    build_libs()
    n = max(1, (len(cases) + shard_size - 1) // shard_size)
    if len(cases) >= JOBS and n < JOBS:
        n = JOBS
    shards = [Shard(ctx, f"r{i}", cases[i::n], data_rs, configs, extra_rt, libs=libs) for i in range(n)]

    def one(s):
        s.setup()
        res = {}
        cwd = cwds[int(s.idx[1:]) % len(cwds)]

        def rec(cs):
            rc, r, rest, took = compile_json(s, cs, timeout=timeout if len(cs) > 1 else 20, cwd=cwd)
            crashed = rc not in (0, 1)
            if not crashed and rc == 1 and not any(v.errors or v.panics for v in r.values()):
                crashed = True
            if not crashed:
                # errors of one stage of the compiler (of the syntax, of names) keep the later ones from looking at the others
                quiet = [c for c in cs if not (r[c.name].errors or r[c.name].panics)]
                res.update((n, v) for n, v in r.items() if v.errors or v.panics)
                if rc == 0:
                    res.update(r)
                elif quiet:
                    rec(quiet)
            elif len(cs) == 1:
                v = Verdict()
                v.crash = f"the compiler ended with {rc} after {took:.1f} s: " + " ".join(rest)[-500:]
                res[cs[0].name] = v
            else:
                rec(cs[:len(cs) // 2])
                rec(cs[len(cs) // 2:])
        if s.cases:
            rec(list(s.cases))
        shutil.rmtree(s.dir, ignore_errors=True)
        return res
    out = {}
    for r in pmap(one, shards):
        out.update(r)
    return out


def reject_cases(ctx, cases, data_rs="", configs=None, extra_rt="", what="is not rejected"):
    """Every case must lead to a compile error, and neither to a panic nor to a crash."""
    res = classify(ctx, cases, data_rs, configs, extra_rt)
    for c in cases:
        v = res[c.name]
        ctx.count(("reject", c.key, c.info))
        ctx.add("rejected_programs")
        bad = None
        if v.crash:
            bad = v.crash
        elif v.panics:
            bad = f"the derive macro panicked: {v.panics[0]}"
        elif not v.errors:
            bad = what
        elif getattr(c, "message", None) and not any(re.search(c.message, m) for m, _ in v.errors):
            bad = f"error does not name the problem ({c.message}): {v.errors[:3]}"
        if bad:
            extra = dict(configs or {})
            extra["data.rs"] = data_rs
            ctx.violation(f"{c.name}: {bad}\n{c.info}", c.replay(extra), c.ident)
    return res
