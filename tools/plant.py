"""Confirms a planted bug: plant.py SPEC [--check CNN]...

SPEC is a Python file with ID, PROP, NEEDS, WHAT, EDITS = [(file, old, new)], FILES = {name: text} (beside demo.sh), optionally DEMO.
Writes /verif/seeded/ID, applies it to /repo, builds, runs the stable tests, the demonstration and the property's check, and undoes it.
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# (in a copy: the repository, and the machinery with its paths)
R, C = os.environ.get("PLANT_REPO", "/repo"), os.environ.get("PLANT_CHECKS", V)
DEMO = '''#!/bin/bash
# Builds a small program with the crates in the current directory, and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
for x in templates templates_a templates_b askama.toml; do [ -e "$here/$x" ] && cp -r "$here/$x" "$d/"; done
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
publish = false
[workspace]
[dependencies]
askama = {{ path = "$repo/askama", features = ["serde-json"] }}
{deps}
[profile.dev]
debug = 0
END
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" && RUSTFLAGS= timeout 280 cargo run --quiet --offline {tail}
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def main():
    ns = {"DEPS": "", "TAIL": ""}
    exec(open(sys.argv[1]).read(), ns)
    ID, out = ns["ID"], os.path.join(V, "seeded", ns["ID"])
    os.makedirs(out, exist_ok=True)
    assert not sh(f"git -C {R} status --porcelain").stdout, "dirty"
    try:
        for f, old, new in ns["EDITS"]:
            p = R + "/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(out + "/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
        # only lines of the original repository
        base = sh(f"git -C {R} rev-parse 6ea54fb").stdout.strip()
        for f, old, new in ns["EDITS"]:
            orig = sh(f"git -C {R} show {base}:{f}").stdout
            lost = [l for l in sh(f"git -C {R} diff -U0 -- {f}").stdout.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in orig.splitlines()]
            if lost:
                print("NOT ORIGINAL:", lost)
        demo = ns.get("DEMO") or DEMO.format(deps=ns["DEPS"], tail=ns["TAIL"])
        open(out + "/demo.sh", "w").write(demo)
        os.chmod(out + "/demo.sh", 0o755)
        for n, t in ns.get("FILES", {}).items():
            os.makedirs(os.path.dirname(os.path.join(out, n)), exist_ok=True)
            open(os.path.join(out, n), "w").write(t)
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["WHAT"]}, open(out + "/meta.json", "w"), indent=1)
        if "--only-check" not in sys.argv:
            print(ID, "tests:", sh(["bash", V + "/tools/stable.sh", R]).stdout.strip()[-400:])
            r = sh(["bash", out + "/demo.sh"], cwd=R)
            print(ID, "demo with the change:", r.returncode, (r.stdout + r.stderr).strip()[-300:])
        checks = [a for i, a in enumerate(sys.argv) if sys.argv[i - 1] == "--check"] or [ns["PROP"]]
        for c in checks:
            r = sh([sys.executable, f"{C}/checks/{c.lower()}.py"], env={**os.environ, "VERIF_SEED": "1"})
            n = r.stdout.count(f"VIOLATION property={c}")
            print(ID, c, "CAUGHT" if r.returncode == 1 and n else f"MISSED ({r.returncode})", n, "|", (r.stdout + r.stderr).strip()[:500].replace("\n", "\n      "))
    finally:
        sh(f"git -C {R} checkout -- .")
    if "--only-check" not in sys.argv:
        r = sh(["bash", out + "/demo.sh"], cwd=R)
        print(ID, "demo without:", r.returncode, (r.stdout + r.stderr).strip()[-300:])


main()
