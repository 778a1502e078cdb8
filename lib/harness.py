"""Driver of the monitors written in Rust (harness/rt)."""
import os, shutil
from common import *

RT = os.path.join(VERIF, "harness", "rt")
_bins = {}
MIRI = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--manifest-path", os.path.join(RT, "Cargo.toml"), "--target-dir", os.path.join(BUILD, "target-miri"), "--"]


def rt_bin(kind="release"):
    """Builds harness/rt against /repo; kinds: release, asan, tsan (nightly)"""
    if kind in _bins:
        return _bins[kind]
    tgt = os.path.join(BUILD, "target-rt" if kind == "release" else f"target-{kind}")
    if kind == "miri":
        # (builds Miri's standard library where it is missing)
        cargo(["+nightly", "miri", "setup"], cwd=RT)
        p = None
    elif kind == "release":
        cargo(["build", "--offline", "--release", "--target-dir", tgt], cwd=RT)
        p = os.path.join(tgt, "release", "rt")
    else:
        san = {"asan": "address", "tsan": "thread"}[kind]
        host = "x86_64-unknown-linux-gnu"
        flags = f"-Zsanitizer={san} -Cdebuginfo=1 --cap-lints allow"
        args = ["+nightly", "build", "--offline", "--release", "--target", host, "--target-dir", tgt]
        if kind == "tsan":
            args += ["-Zbuild-std"]
        cargo(args, cwd=RT, env={"RUSTFLAGS": flags})
        p = os.path.join(tgt, host, "release", "rt")
    _bins[kind] = p
    return p


def unhex(s):
    return bytes.fromhex(s[1:]).decode("utf-8", "replace")


def run_rt(ctx, n, parts=JOBS, kind="release", args=(), timeout=600, prop=None, mem_kb=None, tag="", env=None, stack_kb=None):
    """Runs `n` rounds of the monitor of the property in each of `parts` processes; records what they saw.
    A crash is a violation, replayed by the command in its files."""
    exe = rt_bin(kind)
    prop = prop or ctx.prop

    def one(part):
        cmd = MIRI if kind == "miri" else [exe]
        cmd = cmd + [prop, str(ctx.seed), str(part), str(parts), str(n), ctx.tier] + [str(a) for a in args]
        e = {"RUST_BACKTRACE": "0", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1", "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1"}
        if kind == "miri":
            e.update(cargo_env())
            e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
        e.update(env or {})
        full = cmd
        lim = ["ulimit -c 0"]
        if mem_kb and kind == "release":
            lim.append(f"ulimit -v {mem_kb}")
        if stack_kb:
            lim.append(f"ulimit -s {stack_kb}")
        full = ["bash", "-c", "; ".join(lim) + '; exec "$@"', "bash"] + cmd
        rc, out, err = sh(full, timeout=timeout, env=e)
        text = out.decode("utf-8", "replace")
        crash = None
        if rc != 0 or not text.rstrip().endswith("END"):
            # once more, to know where
            e["RT_TRACE"] = "1"
            rc2, _, err2 = sh(full, timeout=timeout, env=e)
            at = [l for l in err2.decode("utf-8", "replace").splitlines() if l.startswith("AT ")]
            crash = (rc, err.decode("utf-8", "replace")[-3000:], at[-1][:20000] if at else "(before any case)", cmd)
        return text, crash, cmd
    for text, crash, cmd in pmap(one, range(parts)):
        # the command, for replays
        sh_cmd = "# build: cargo build --offline --release --target-dir /verif/build/target-rt in /verif/harness/rt\n" + " ".join(cmd) + "\n"
        for line in text.splitlines():
            f = line.split(" ", 2)
            if f[0] == "STAT":
                if f[1] == "evaluations":
                    ctx.evaluations += int(f[2])
                else:
                    ctx.add(tag + f[1], int(f[2]))
            elif f[0] == "D":
                ctx.distinct.add(bytes.fromhex(f[1].zfill(16)))
            elif f[0] == "SAMPLE":
                ctx.sample(unhex(f[1])[:2000])
            elif f[0] == "VIOL":
                ctx.violation(unhex(f[2]), {"what_full.txt": unhex(f[2]), "run.sh": sh_cmd}, unhex(f[1]))
        if crash:
            rc, err, at, cmd = crash
            how = "took too long" if rc == -999 else f"ended with {rc}"
            ctx.violation(f"{prop}: the process {how} at {at[:600]}\n{err}", {"at.txt": at, "stderr.txt": err, "run.sh": sh_cmd}, "crash " + at[:200])
    ctx.add(tag + "processes_" + kind, parts)
