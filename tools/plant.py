#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from descriptions (development helper; used by no check).

A description: dict(id, property, needs, breaks, edits=[(file, old, new)], demo=rust source,
std=True, flags=[rustc flags], cargo=None or a Cargo.toml text)."""
import os, subprocess, sys, json, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, "..", "seeded")

RUSTC = '''#!/bin/bash
# exit 0 when the property holds for the case in demo.rs, nonzero otherwise; run with cwd /repo
set -e
export PATH=/root/.cargo/bin:$PATH
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
rustc --edition 2021 --cap-lints allow --crate-type rlib --crate-name arraystring %(std)s %(flags)s src/lib.rs -o "$d/libarraystring.rlib"
rustc --edition 2021 --cap-lints allow %(flags)s --extern arraystring="$d/libarraystring.rlib" "$here/demo.rs" -o "$d/demo"
timeout 60 "$d/demo"
'''
CARGO = '''#!/bin/bash
# exit 0 when the property holds for the case in demo.rs, nonzero otherwise; run with cwd /repo
set -e
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
sed "s#@REPO@#$PWD#" "$here/Cargo.toml.in" > "$d/Cargo.toml"
cp "$here/Cargo.lock.in" "$d/Cargo.lock"
cp "$here/demo.rs" "$d/src/main.rs"
cd "$d"
CARGO_TARGET_DIR="$d/target" cargo build -q --offline
timeout 60 "$d/target/debug/demo"
'''


def plant(b):
    d = os.path.join(SEEDED, b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call("git -C /repo archive HEAD src | tar x -C " + w, shell=True)
    subprocess.check_call("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % w, shell=True)
    for f, old, new in b["edits"]:
        p = os.path.join(w, f)
        s = open(p).read()
        n = b.get("nth", {}).get(old)
        assert s.count(old) >= 1, (b["id"], "not found", old)
        assert s.count(old) == 1 or n is not None, (b["id"], s.count(old), old)
        if s.count(old) == 1:
            s = s.replace(old, new)
        else:
            parts = s.split(old)
            s = old.join(parts[: n + 1]) + new + old.join(parts[n + 1 :])
        open(p, "w").write(s)
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(w)
    open(os.path.join(d, "demo.rs"), "w").write(b["demo"])
    if b.get("cargo"):
        open(os.path.join(d, "Cargo.toml.in"), "w").write(b["cargo"])
        # resolve offline
        t = tempfile.mkdtemp(prefix="plant", dir="/tmp")
        os.makedirs(t + "/src")
        open(t + "/Cargo.toml", "w").write(b["cargo"].replace("@REPO@", "/repo"))
        open(t + "/src/main.rs", "w").write("fn main(){}")
        lock = b.get("lock")
        if lock:
            shutil.copy(lock, t + "/Cargo.lock")
        subprocess.check_call(["cargo", "generate-lockfile", "--offline", "-q"] if not lock else ["cargo", "metadata", "--offline", "-q", "--format-version=1"], cwd=t, stdout=subprocess.DEVNULL)
        shutil.copy(t + "/Cargo.lock", os.path.join(d, "Cargo.lock.in"))
        shutil.rmtree(t)
        sh = CARGO
    else:
        sh = RUSTC % dict(std="--cfg 'feature=\"std\"'" if b.get("std", True) else "", flags=b.get("flags", ""))
    if b.get("sh"):
        sh = b["sh"]
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(sh)
    os.chmod(p, 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


if __name__ == "__main__":
    ns = {}
    for f in sys.argv[1:2]:
        exec(open(f).read(), ns)
    only = sys.argv[2:]
    for b in ns["BUGS"]:
        if not only or b["id"] in only:
            plant(b)
            print("planted", b["id"])
