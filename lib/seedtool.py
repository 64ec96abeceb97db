#!/usr/bin/env python3
"""seedtool.py new SPEC.py | try ID...   -- write and try planted changes (never used by a check)

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo=rust text of fn main body and items, needs, breaks)]
"""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
DEMO = """#!/bin/bash
# run with cwd /repo: builds a small program against the tree and runs it; nonzero when the property is broken
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/demo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "replay"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
redscript = { path = "$repo/core" }
redscript-decompiler = { path = "$repo/decompiler" }
T
export RUSTUP_TOOLCHAIN=1.77.2 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTC_WRAPPER= RUSTFLAGS="--cap-lints warn"
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
cd "$d" || exit 2
cargo build --offline -q 2>"$d/log" || { cat "$d/log"; exit 3; }
timeout 120 "$d/target/debug/replay"
"""


# the compiler's modules behind the parser, with stand-ins for the crates that are not installed
DEMO_ASM = DEMO.replace('cp "$here/main.rs" "$d/src/main.rs"', """cat "$here/modules.txt" "$here/main.rs" > "$d/src/main.rs"
sed -i "s#/repo/#$repo/#" "$d/src/main.rs"
sed "s#/repo/#$repo/#" "$here/build.txt" > "$d/build.rs"
for s in hamt-sync peg sequence_trie; do
  mkdir -p "$d/stubs/$s/src"
  cp "$here/$s.txt" "$d/stubs/$s/src/lib.rs"
  printf '[package]\\nname = "%s"\\nversion = "0.1.0"\\nedition = "2021"\\n' "$s" > "$d/stubs/$s/Cargo.toml"
done""").replace('name = "replay"', 'name = "asm"\nbuild = "build.rs"').replace("target/debug/replay", "target/debug/asm").replace(
    'path = "$repo/decompiler" }\n', """path = "$repo/decompiler" }
log = "0.4"
thiserror = "1"
hashbrown = "0.14"
itertools = "0.12"
strum = { version = "0.26", features = ["derive"] }
enum-as-inner = "0.6"
flexstr = "0.9"
walkdir = "2"
peg = { path = "stubs/peg" }
hamt-sync = { path = "stubs/hamt-sync" }
sequence_trie = { path = "stubs/sequence_trie" }
""")


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def new(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        assert not sh("git", "-C", "/repo", "status", "--short").stdout.strip(), "dirty /repo"
        try:
            for f, o, n in b["edits"]:
                p = os.path.join("/repo", f)
                s = open(p).read()
                assert s.count(o) == 1, (b["id"], f, o, s.count(o))
                open(p, "w").write(s.replace(o, n))
            diff = sh("git", "-C", "/repo", "diff").stdout
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")
        d = os.path.join(SEED, b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        if "demo_sh" in b:
            open(os.path.join(d, "demo.sh"), "w").write(b["demo_sh"])
        else:
            asm = b.get("asm")
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_ASM if asm else DEMO)
            open(os.path.join(d, "main.rs"), "w").write(b["demo"])
            shutil.copyfile(os.path.join(HERE, "asm" if asm else "replay", "Cargo.lock"), os.path.join(d, "demo.lock"))
            if asm:
                text = open(os.path.join(HERE, "asm", "src", "main.rs")).read()
                text = text[text.index("#!["):text.index("mod gen;")]
                open(os.path.join(d, "modules.txt"), "w").write(text)
                shutil.copyfile(os.path.join(HERE, "asm", "build.rs"), os.path.join(d, "build.txt"))
                for s in ("hamt-sync", "peg", "sequence_trie"):
                    shutil.copyfile(os.path.join(HERE, "asm", "stubs", s, "src", "lib.rs"), os.path.join(d, s + ".txt"))
        for n, t in b.get("files", {}).items():
            open(os.path.join(d, n), "w").write(t)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("wrote", b["id"])


def tests():
    out = "/tmp/seed_tests.json"
    sh("bash", "/opt/vp/test.sh", out)
    try:
        return json.load(open(out))
    except Exception:  # noqa: BLE001
        return None


def try_(ids, with_tests=True):
    base = json.load(open("/opt/vp/BASELINE.json"))
    for i in ids:
        d = os.path.join(SEED, i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        t0 = time.time()
        clean = sh("bash", os.path.join(d, "demo.sh"), cwd="/repo") if with_tests else None
        a = sh("git", "-C", "/repo", "apply", os.path.join(d, "patch.diff"))
        if a.returncode:
            print(i, "DOES NOT APPLY", a.stderr)
            continue
        try:
            msg = ""
            if with_tests:
                broken = sh("bash", os.path.join(d, "demo.sh"), cwd="/repo")
                msg += " demo %d/%d" % (clean.returncode, broken.returncode)
                if clean.returncode or not broken.returncode:
                    msg += " BAD-DEMO " + (clean.stdout + clean.stderr)[-600:] + (broken.stdout + broken.stderr)[-300:]
                r = tests()
                want = set(base.get("stable") or base.get("passed") or base.get("pass") or [])
                got = set((r or {}).get("passed") or (r or {}).get("pass") or [])
                msg += " tests missing %d" % len(want - got)
                if want - got:
                    msg += " " + str(sorted(want - got)[:3])
            c = sh("python3", os.path.join(HERE, "check.py"), prop, cwd=HERE)
            v = [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "obligation not", "failing input"))]
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")
        print(i, prop, "CAUGHT" if c.returncode == 1 else "MISSED(%d)" % c.returncode, msg, "%.0fs" % (time.time() - t0))
        for l in v:
            print("    ", l[:220])
        if c.returncode != 1:
            print("    ", c.stdout[-500:], c.stderr[-300:])


if __name__ == "__main__":
    if sys.argv[1] == "new":
        new(sys.argv[2])
    elif sys.argv[1] == "quick":
        try_(sys.argv[2:], with_tests=False)
    else:
        try_(sys.argv[2:])
