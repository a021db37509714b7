"""Creates /verif/seeded/<id> from an edit of /repo and a demonstration; confirms it in /repo and undoes the edit.
Every demonstration is a small crate that depends on /repo's crates by path (working directory) and is built offline in
a scratch directory of its own."""
import json, os, subprocess, shutil, sys
V = "/verif"
DEMO = '''#!/bin/bash
# builds main.rs against the crates of the current directory in a scratch directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$here/Cargo.lock.base" "$tmp/Cargo.lock"
%(prep)scat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%(deps)s
%(extra)s
T
cd "$tmp" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" cargo run --offline -q 2>&1 | tail -20
exit ${PIPESTATUS[0]}
'''
DEPS = {
 "core": 'pasture-core = { path = "$repo/pasture-core" }\npasture-derive = { path = "$repo/pasture-derive" }\nbytemuck = { version = "1.5.1", features = ["derive"] }\nnalgebra = "0.32"',
}
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def seed(sid, prop, edits, main, needs, breaks, deps="core", extra="", prep="", check=True, tests=True):
    d = os.path.join(V, "seeded", sid)
    assert sh("git -C /repo status --porcelain -uno").stdout.strip() == "", "repo dirty"
    for f, old, new in edits:
        p = os.path.join("/repo", f)
        s = open(p).read()
        assert s.count(old) == 1, "%s: %d matches of %r" % (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    try:
        os.makedirs(d, exist_ok=True)
        diff = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/main.rs", "w").write(main)
        open(d + "/demo.sh", "w").write(DEMO % {"deps": DEPS.get(deps, deps), "extra": extra, "prep": prep})
        os.chmod(d + "/demo.sh", 0o755)
        shutil.copy("/opt/vp/ws/Cargo.lock.base", d + "/Cargo.lock.base")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        bad = r.returncode
        print(sid, "demo with patch:", bad, r.stdout[-300:].strip().replace("\n", " | "))
        if tests:
            b = sh("bash /opt/vp/build.sh")
            t = sh("bash /opt/vp/test.sh /tmp/seed_t.json")
            print(sid, "build", b.returncode, "tests", t.stdout.strip().splitlines()[-1:])
        if check:
            c = sh("VERIF_NO_REPLAY=1 python3 check.py %s" % prop, cwd=V)
            print(sid, "check exit", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l or l.startswith("fail") or l.startswith("und")][:6])
    finally:
        sh("git -C /repo checkout -- .")
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    print(sid, "demo without patch:", r.returncode, r.stdout[-300:] if r.returncode else "")
    sys.stdout.flush()
