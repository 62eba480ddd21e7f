#!/usr/bin/env python3
"""Lays out <build>/ws: safer-ffi as cargo must see it, made of symlinks into /repo, so that the verifier
compiles /repo's own source files.  Only Cargo.toml is derived: the unreachable git dependency `napi`
(and the `js` feature that needs it) and the workspace table are dropped -- no .rs file is touched.
Also lays out <build>/vendor: a cargo directory source with the exact crate versions of /repo/Cargo.lock,
unpacked from ~/.cargo/registry/cache (the toolchain of Kani looks under another index name)."""
import glob, json, os, re, shutil, sys, tarfile

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def write(path, text):
    if os.path.islink(path):
        os.unlink(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def link(src, dst):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    if os.path.lexists(dst):
        shutil.rmtree(dst) if os.path.isdir(dst) and not os.path.islink(dst) else os.unlink(dst)
    os.symlink(src, dst)


def manifest(text):
    text = re.sub(r"(?ms)^\[dependencies\.napi\]\n.*?(?=^\[)", "", text)
    text = re.sub(r"(?ms)^js = \[.*?^\]\n", "", text)
    text = re.sub(r"(?ms)^\[workspace\]\n.*?(?=^\[|\Z)", "[workspace]\n", text)
    return text


def lock(text):
    blocks = re.split(r"(?m)^(?=\[\[)", text)
    gone = ('source = "git+', 'name = "cratesio-placeholder-package"', 'name = "napi-dispatcher')
    blocks = [b for b in blocks if not any(g in b for g in gone)]
    text = "".join(blocks)
    text = re.sub(r' "cratesio-placeholder-package",\n', "", text)
    return re.sub(r'"napi-build 1\.0\.1 \([^)]*\)"', '"napi-build"', text)


def vendor(lock_text, dst):
    os.makedirs(dst, exist_ok=True)
    caches = glob.glob(os.path.expanduser("~/.cargo/registry/cache/*"))
    for b in re.split(r"(?m)^(?=\[\[package\]\])", lock_text):
        m = re.search(r'name = "(.*?)"\nversion = "(.*?)"', b)
        c = re.search(r'checksum = "(.*?)"', b)
        if not m or not c:
            continue
        nv = f"{m[1]}-{m[2]}"
        d = f"{dst}/{nv}"
        if os.path.exists(f"{d}/.cargo-checksum.json"):
            continue
        for cache in caches:
            f = f"{cache}/{nv}.crate"
            if os.path.exists(f):
                with tarfile.open(f) as t:
                    t.extractall(dst, filter="data")
                write(f"{d}/.cargo-checksum.json", json.dumps({"files": {}, "package": c[1]}))
                break


def main(build):
    ws = f"{build}/ws"
    os.makedirs(ws, exist_ok=True)
    for n in ("src", "build.rs", "README.md", "guide"):
        if os.path.exists(f"{REPO}/{n}"):
            link(f"{REPO}/{n}", f"{ws}/{n}")
    write(f"{ws}/Cargo.toml", manifest(open(f"{REPO}/Cargo.toml").read()))
    lk = open(f"{HERE}/kani/Cargo.lock").read()
    vendor(lk, f"{build}/vendor")
    return lk


if __name__ == "__main__":
    main(sys.argv[1] if len(sys.argv) > 1 else f"{HERE}/build")
