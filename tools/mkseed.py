#!/usr/bin/env python3
"""Development only: mkseed.py SPEC.py [ID..]  writes seeded/<id>/ from a spec, and (with --try) confirms it in /repo:
the patch builds and passes the stable tests, the demonstration fails with it and passes without it.
SPEC.py defines SEEDS: id, property, edits [(file, old, new)], features, main (Rust), needs, breaks."""
import json, os, subprocess, sys, tempfile, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory, in a scratch directory, and runs it.
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
S=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf -- "$S"' EXIT
mkdir -p "$S/ws" "$S/demo/src"
for n in src build.rs README.md guide; do ln -s "$REPO/$n" "$S/ws/$n"; done
python3 - "$REPO" "$S" <<'P'
import re, sys
repo, s = sys.argv[1:]
t = open(f"{repo}/Cargo.toml").read()
t = re.sub(r"(?ms)^\\[dependencies\\.napi\\]\\n.*?(?=^\\[)", "", t)
t = re.sub(r"(?ms)^js = \\[.*?^\\]\\n", "", t)
t = re.sub(r"(?ms)^\\[workspace\\]\\n.*?(?=^\\[|\\Z)", "", t)
open(f"{s}/ws/Cargo.toml", "w").write(t)
P
cp "$HERE/main.rs" "$S/demo/src/main.rs"
cp "$HERE/demo.lock" "$S/demo/Cargo.lock"
cat > "$S/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[features]
headers = ["safer-ffi/headers"]
[dependencies]
safer-ffi = { path = "../ws", default-features = false, features = [@F@] }
T
cd "$S/demo" && RUSTC_BOOTSTRAP=1 RUSTUP_TOOLCHAIN=1.72.1 timeout 280 cargo run -q --offline @A@ 2>&1
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    seeds = runpy.run_path(args[0])["SEEDS"]
    lock = open(os.environ.get("DEMO_LOCK", "/tmp/demo.lock")).read()
    for s in seeds:
        if args[1:] and s["id"] not in args[1:]:
            continue
        d = f"{HERE}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        for f, old, new in s["edits"]:
            t = open(f"/repo/{f}").read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(f"/repo/{f}", "w").write(t.replace(old, new))
        try:
            diff = sh("git -C /repo diff").stdout
            open(f"{d}/patch.diff", "w").write(diff)
            open(f"{d}/main.rs", "w").write(s["main"])
            open(f"{d}/demo.lock", "w").write(lock)
            feats = s.get("features", ["std"])
            demo = DEMO.replace("@F@", ", ".join(f'"{f}"' for f in feats)).replace("@A@", "--features headers" if "headers" in feats else "")
            open(f"{d}/demo.sh", "w").write(demo)
            os.chmod(f"{d}/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
            if "--try" in sys.argv:
                p = sh(f"bash {d}/demo.sh", cwd="/repo")
                print(s["id"], "patched demo rc", p.returncode, "|", [l for l in p.stdout.splitlines() if l.strip()][-3:])
                b = sh("bash /opt/vp/build.sh", cwd="/repo")
                t = sh("bash /opt/vp/test.sh /tmp/seed_out.json", cwd="/repo")
                base = json.load(open("/opt/vp/BASELINE.json"))
                o = json.load(open("/tmp/seed_out.json"))
                print(s["id"], "build rc", b.returncode, "tests", {k: (len(v) if hasattr(v, "__len__") else v) for k, v in o.items()})
                bad = o.get("failed") or o.get("fail")
                if bad: print("   failed:", bad)
        finally:
            sh("git -C /repo checkout -- .")
        if "--try" in sys.argv:
            p = sh(f"bash {d}/demo.sh", cwd="/repo")
            print(s["id"], "clean demo rc", p.returncode, "" if p.returncode == 0 else p.stdout[-1500:])


main()
