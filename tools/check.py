#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current tree with the Kani contracts in /verif/kani.

exit 0: every obligation of every harness was discharged (KNOWN-FINDING lines for listed findings);
exit 1: an obligation failed -> "VIOLATION property=<id> replay=<file>";
        an obligation that is neither discharged nor refuted (time-out, unwinding bound, unsupported construct, harness does
        not compile) -> the same line, ending in no-failing-input-found, with a replay file that says so;
exit 2: the machinery itself does not work.
See DESIGN.md for the naming rules of the harnesses and for what is trusted."""
import json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props                                                                    # noqa: E402
import stage                                                                    # noqa: E402

BUILD = f"{HERE}/build"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTUP_TOOLCHAIN", "RUSTC_BOOTSTRAP", "RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)

def kani_home():
    """A view of the Kani installation in which `cbmc` is tools/cbmc_wrap.py."""
    home = os.environ.get("KANI_HOME") or os.path.expanduser("~/.kani")
    vers = sorted(d for d in os.listdir(home) if d.startswith("kani-"))
    mine = f"{BUILD}/kani_home"
    for v in vers:
        os.makedirs(f"{mine}/{v}/bin", exist_ok=True)
        links = {f: f"{home}/{v}/{f}" for f in os.listdir(f"{home}/{v}") if f != "bin"}
        links.update({f"bin/{f}": f"{home}/{v}/bin/{f}" for f in os.listdir(f"{home}/{v}/bin")})
        links["bin/cbmc"] = f"{HERE}/tools/cbmc_wrap.py"
        for f, to in links.items():
            at = f"{mine}/{v}/{f}"
            if not os.path.islink(at) or os.readlink(at) != to:
                if os.path.lexists(at):
                    os.unlink(at)
                os.symlink(to, at)
        ENV["VERIF_CBMC"] = f"{home}/{v}/bin/cbmc"
    ENV["KANI_HOME"] = mine


START = time.time()
DEADLINE = {"quick": 840, "thorough": 3 * 3600}


def kani(prop, conf, run, tier, harnesses=(), extra=(), out="out", timeout=None, json_out=None):
    """Runs cargo kani; returns (return code or None on time-out, output text)."""
    cmd = ["cargo", "kani", "-Z", "stubbing", "-Z", "function-contracts", "-Z", "mem-predicates", "-Z", "unstable-options",
           "--features", run["module"], "--target-dir", f"{BUILD}/kt_{prop}",
           "--harness-timeout", str(conf.get("harness_timeout", {}).get(tier, 240 if tier == "quick" else 1500)),
           "--output-format", "terse"]
    if "--concrete-playback=print" not in extra:
        cmd += ["-j", str(os.cpu_count() or 4)]
    if json_out:
        cmd += ["--export-json", json_out]
    for h in harnesses:
        cmd += ["--exact", "--harness", h]
    cmd += list(extra)
    if run.get("leak"):
        cmd += ["--cbmc-args", "--memory-leak-check"]
    with open(f"{BUILD}/{prop}.{out}.log", "w") as f:
        p = subprocess.Popen(cmd, cwd=f"{HERE}/kani", env=dict(ENV, VERIF_TRACES="1") if "--concrete-playback=print" in extra else ENV, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = None
    return rc, open(f"{BUILD}/{prop}.{out}.log", errors="replace").read(), " ".join(cmd)


# ---------------------------------------------------------------------------------------------
# How one check (obligation) of one harness is read.
UNDECIDED = ("unwind", "unsupported_construct", "unsupported", "missing_definition")


def described(c):
    return re.sub(r"^file \S+ line \d+ ", "", str(c.get("description"))).strip('"')


def classify(h, r, err):
    """-> (verdict, failures, counts) where verdict in ok / violated / undecided"""
    short = h.split("::")[-1]
    checks = r.get("checks") or []
    counts = {"obligations": 0, "discharged": 0, "unreachable": 0, "covers": 0, "repo_obligations": 0}
    bad, unk = [], []
    panics = bool(err.get("should_panic"))
    panicked = False
    for c in checks:
        st, cat, desc = str(c.get("status")).lower(), str(c.get("category")), described(c)
        if cat == "cover" or st in ("satisfied", "unsatisfiable"):
            counts["covers"] += 1
            if desc.startswith("NEVER"):
                counts["obligations"] += 1
                if st == "satisfied":
                    bad.append(c)
                else:
                    counts["discharged"] += 1
            elif st != "satisfied":
                unk.append(dict(c, why="vacuity: this situation must be reachable"))
            continue
        counts["obligations"] += 1
        f = str((c.get("location") or {}).get("file", ""))
        if "/ws/src/" in f or f.startswith("/repo/"):
            counts["repo_obligations"] += 1
        if st == "unreachable":
            counts["unreachable"] += 1
            counts["discharged"] += 1
        elif st == "success":
            counts["discharged"] += 1
        elif any(u in cat for u in UNDECIDED) or "unwinding assertion" in desc or "not currently supported" in desc:
            unk.append(c)
        elif st == "failure":
            overflow = desc.startswith("attempt to ") and "overflow" in desc     # wraps in a release build
            if panics and cat in ("assertion", "arithmetic_overflow", "unwrap") and not overflow \
                    and not desc.startswith("PRE:"):
                panicked = True         # a panic: what this harness is to reach
                counts["discharged"] += 1
            else:
                bad.append(c)
        else:
            unk.append(c)
    if not checks:
        unk.append({"description": f"no result ({err.get('exit_status') or 'no obligations'})"})
    if checks and not any(described(c).startswith(("END", "NEVER")) for c in checks):
        unk.append({"description": "incomplete result: the final cover of the harness is missing"})
    if panics and checks and not panicked and not bad and not unk:
        bad.append({"description": "no panic is reachable at all", "category": "assertion", "function": short})
    # an unwinding bound that is too small makes other results unreliable only in the direction of missing bugs
    verdict = "violated" if bad else "undecided" if unk else "ok"
    return verdict, bad, unk, counts


def replay(prop, conf, run, tier, h, bad, log):
    """Writes the replay file; tries to reproduce the verifier's counterexample on the real code, natively."""
    d = f"{BUILD}/replay"
    os.makedirs(d, exist_ok=True)
    path = f"{d}/{prop}-{h.split('::')[-1]}.txt"
    text = [f"property {prop}, harness {h}: failed obligations"]
    text += [json.dumps(c) for c in bad]
    reproduced = False
    try:
        left = DEADLINE[tier] - (time.time() - START)
        if left > 60 and not conf.get("no_playback"):          # playback compiles without the stubs
            rc, out, cmd = kani(prop, conf, run, tier, [h], ["-Z", "concrete-playback", "--concrete-playback=print"], out="playback",
                                timeout=min(left - 40, 240))
            m = re.findall(r"```\n(.*?)```", out, re.S)
            text.append(f"\n$ (cd {HERE}/kani && {cmd})\n" + out[-4000:])
            tests = [t for t in m if "#[test]" in t and ("Check for `cover`" not in t or "NEVER" in t)]
            named = {re.search(r"fn (\w+)", t).group(1): t for t in tests}      # two obligations may share one counterexample
            tests = list(named.values())
            if any("NEVER" in t for t in tests):    # the call returned where it has to panic
                tests = [t for t in tests if "NEVER" in t]
            if tests:
                crate = f"{BUILD}/replay_{prop}"
                shutil.rmtree(crate, ignore_errors=True)
                shutil.copytree(f"{HERE}/kani", crate)
                toml = open(f"{crate}/Cargo.toml").read().replace("../build/ws", "../ws")
                open(f"{crate}/Cargo.toml", "w").write(toml)
                cfg = open(f"{crate}/.cargo/config.toml").read().replace("../build/vendor", "../vendor")
                open(f"{crate}/.cargo/config.toml", "w").write(cfg)
                mod = f"{crate}/src/{h.split('::')[0]}.rs"
                open(mod, "a").write("\n#[cfg(test)] mod playback_ { use super::*;\n" + "\n".join(tests) + "\n}\n")
                left = DEADLINE[tier] - (time.time() - START)
                p = subprocess.run(["cargo", "kani", "playback", "-Z", "concrete-playback", "--features", run["module"], "--", "playback_"],
                                   cwd=crate, env=dict(ENV, CARGO_TARGET_DIR=f"{BUILD}/kt_playback"), capture_output=True, text=True, timeout=max(20, min(left - 15, 200)))
                res = p.stdout + p.stderr
                text.append("\n# concrete playback against the real code:\n" + "\n".join(tests) + "\n" + res[-6000:] + "\n" + p.stdout[-6000:])
                if re.search(r"(?m)^running [1-9]", p.stdout) \
                        and re.search(r"test result: FAILED|process didn't exit successfully|signal:", res) \
                        and not re.search(r"cannot allocate|memory allocation of|capacity overflow|concrete val", res):
                    reproduced = True
    except Exception as e:                                                      # best effort only
        text.append(f"(playback not available: {e!r})")
    open(path, "w").write("\n".join(text) + "\n\n# full verifier output\n" + log[-20000:])
    return path, reproduced


def native(prop, feature):
    """Bounded stand-in for what the verifier does not model (unwinding): cases run on the real code, as compiled by the
    toolchain the project pins.  Returns (per-harness entries, failed cases, undecided or None, command, output)."""
    cmd = ["cargo", "run", "-q", "--offline", "--features", feature]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=f"{HERE}/native", capture_output=True, text=True, timeout=max(30, min(300, DEADLINE["quick"] - (time.time() - START) - 20)),
                           env=dict(ENV, RUSTUP_TOOLCHAIN="1.72.1", RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=f"{BUILD}/kt_native_{prop}"))
        out, se = p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        out, se = str(e.stdout or ""), "timed out"
    cases = re.findall(r"(?m)^case (\w+) (ok|FAILED)(.*)$", out)
    took = round((time.time() - t) / max(len(cases), 1), 1)
    per = [{"harness": f"native_{n}", "kind": "bounded", "verdict": "ok" if v == "ok" else "violated", "contract_of": None,
            "obligations": 1, "in_repo_source": 0, "time_s": took} for n, v, _ in cases]
    unk = None if cases else [{"why": "the native cases did not build or run", "description": se[-1500:], "function": "native", "location": {}}]
    return per, [(n, w.strip()) for n, v, w in cases if v != "ok"], unk, f"(cd native && {' '.join(cmd)})", out + se[-3000:]


def scan_trusted(mods):
    """Mechanical scan: every assumption written in the harnesses and hooks."""
    found = {"kani::assume": 0, "kani::stub": 0, "stub_verified": 0}
    files = [f"{HERE}/kani/src/{m}.rs" for m in mods] + [f"{HERE}/kani/src/common.rs"]
    for f in files:
        t = open(f).read()
        for k in found:
            found[k] += t.count(k)
    return found


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    conf = props.PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    stage.main(BUILD)
    kani_home()
    # The tier is in the name of each harness: <p|b><q|t>_name.
    runs, log, names, results, cmds = conf["runs"], "", set(), [], []
    err, meta, stats, tools, trusted_scan = {}, {}, {}, {}, {}
    for run in runs:
        mod = run["module"]
        src = open(f"{HERE}/kani/src/{mod}.rs").read()
        kinds = ["pq_", "bq_"] + (["pt_", "bt_"] if tier == "thorough" else [])
        here = {f"{mod}::{n}" for n in re.findall(r"\b((?:" + "|".join(kinds) + r")\w+)", src)}
        names |= here
        harn = []
        for k in kinds:
            if any(f"::{k}" in n for n in here):
                harn += ["--harness", f"{mod}::{k}"]
        jout = f"{BUILD}/{prop}.{mod}.json"
        if os.path.exists(jout):
            os.unlink(jout)
        left = DEADLINE[tier] - (time.time() - START) - 20
        rc, out, cmd = kani(prop, conf, run, tier, extra=harn, json_out=jout, timeout=max(left, 1), out=mod)
        log += out
        cmds.append(cmd)
        if not os.path.exists(jout):
            print(out[-6000:])
            print(f"ERROR: property {prop}: the verifier gave no result for {mod} (exit {rc}); see {BUILD}/{prop}.{mod}.log")
            continue
        data = json.load(open(jout))

        def take(data):
            err.update({e["harness_id"]: e for e in data["error_details"]})
            for m in data["harness_metadata"]:
                if m["attributes"].get("should_panic"):
                    err.setdefault(m["pretty_name"], {})["should_panic"] = True
            meta.update({m["pretty_name"]: m for m in data["harness_metadata"]})
            stats.update({c["harness_id"]: c.get("cbmc_stats") or {} for c in data["cbmc"]})
            return data["verification_results"]["results"]
        got = take(data)
        # A loop that now needs more iterations than a harness allows for: once more, with more.
        for i, r in enumerate(got):
            verdict, _, unk, _ = classify(r["harness_id"], r, err.get(r["harness_id"], {}))
            left = DEADLINE[tier] - (time.time() - START) - 30
            if verdict == "undecided" and left > 60 and any("unwind" in str(c.get("category")) + str(c.get("description")) for c in unk):
                print(f"  retry with more unwinding: {r['harness_id']}")
                rout = f"{BUILD}/{prop}.retry.json"
                if os.path.exists(rout):
                    os.unlink(rout)
                kani(prop, conf, run, tier, [r["harness_id"]], ["--unwind", "34"], json_out=rout, timeout=min(left, 240), out="retry")
                if os.path.exists(rout):
                    more = take(json.load(open(rout)))
                    if more:
                        got[i] = more[0]
        tools = data.get("tools") or tools
        results += got
    run_of = {r["module"]: r for r in runs}
    known = [l.split(None, 2) for l in open(f"{HERE}/known_findings.txt") if l.startswith("known:")] \
        if os.path.exists(f"{HERE}/known_findings.txt") else []

    tot = {"obligations": 0, "discharged": 0, "unreachable": 0, "covers": 0, "repo_obligations": 0}
    per, violated, undecided, solver, fns = [], [], [], 0.0, set()
    for r in results:
        h = r["harness_id"]
        verdict, bad, unk, cnt = classify(h, r, err.get(h, {}))
        short = h.split("::")[-1]
        per.append({"harness": short, "kind": "proof" if short[0] == "p" else "bounded", "verdict": verdict,
                    "contract_of": (meta.get(h, {}).get("contract") or {}).get("contracted_function_name"),
                    "obligations": cnt["obligations"], "in_repo_source": cnt["repo_obligations"],
                    "time_s": round(r["duration_ms"] / 1000, 1)})
        if short[0] == "p":
            for k in tot:
                tot[k] += cnt[k]
        solver += float(stats.get(h, {}).get("runtime_solver_s") or 0)
        for c in r.get("checks") or []:
            f = str((c.get("location") or {}).get("file", ""))
            if "/ws/src/" in f or f.startswith("/repo/"):
                fns.add(str(c.get("function")))
        if verdict == "violated":
            violated.append((h, bad))
        elif verdict == "undecided":
            undecided.append((h, unk))
    missing = sorted(names - {r["harness_id"] for r in results})
    native_failed = []
    if conf.get("native"):
        nper, native_failed, unk, cmd, nout = native(prop, conf["native"])
        per += nper
        cmds.append(cmd)
        log += nout
        if unk:
            undecided.append(("native", unk))
    print(f"{prop} [{tier}]: {len(per)} harnesses, {tot['obligations']} obligations, {tot['discharged']} discharged, solver {solver:.1f} s")
    for p in sorted(per, key=lambda p: -p["time_s"]):
        print(f"  {p['verdict']:9} {p['kind']:7} {p['harness']:42} {p['obligations']:5} obligations {p['time_s']:7.1f} s")

    code, nviol, fresh, first = 0, 0, [], None
    for h, bad in violated:
        short = h.split("::")[-1]
        if any(k[1] == f"property={prop}" and short in k[2] for k in known):
            k = next(k for k in known if k[1] == f"property={prop}" and short in k[2])
            print(f"KNOWN-FINDING: property={prop} {k[2].strip()}")
            continue
        nviol += 1
        fresh.append((h, bad, next(p["time_s"] for p in per if p["harness"] == short)))
        for c in bad[:8]:
            print(f"  failed in {short}: {c.get('description')} [{c.get('function')} {(c.get('location') or {}).get('file')}:{(c.get('location') or {}).get('line')}]")
    fresh.sort(key=lambda v: v[2])
    for h, bad, _ in fresh[:3]:             # the first one whose counterexample is reproduced natively, if any
        path, rep = replay(prop, conf, run_of[h.split("::")[0]], tier, h, bad, log)
        first = first or (path, rep)
        if rep:
            first = (path, rep)
            break
    if native_failed and not (first and first[1]):
        nviol += len(native_failed)
        path = f"{BUILD}/replay/{prop}-native.txt"
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(f"property {prop}: cases that fail on the real code (inputs in native/src/{conf['native']}.rs)\n" + "\n".join(f"{n}: {w}" for n, w in native_failed)
                    + f"\n\n$ {cmds[-1]}\n{nout}")
        for n, w in native_failed[:5]:
            print(f"  failed natively: {n}: {w[:300]}")
        first = (path, True)
    if first:
        print(f"VIOLATION property={prop} replay={first[0]}" + ("" if first[1] else " no-failing-input-found"))
        code = 1
    if code == 0 and (undecided or not per or missing):
        for h, unk in undecided:
            for c in unk[:5]:
                print(f"  undecided in {h.split('::')[-1]}: {c.get('why', '')} {c.get('description')} [{c.get('function')} {(c.get('location') or {}).get('file')}:{(c.get('location') or {}).get('line')}]")
        if missing:
            print("  harnesses that did not run:", missing)
        # The proof could not be redone from the current source: that is reported, with no failing input.
        path = f"{BUILD}/replay/{prop}-undecided.txt"
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(f"property {prop}: obligations that were not discharged, and not refuted either\n")
            for h, unk in undecided:
                f.write(h + "\n" + "".join("  " + json.dumps(c) + "\n" for c in unk))
            f.write("harnesses that did not run: " + ", ".join(missing) + "\n\n# full verifier output\n" + log[-20000:])
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        code, nviol = 1, 1
    if code == 0 and tot["obligations"] == 0:
        print("ERROR: no obligations")
        code = 2

    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "proof",
          "coverage": {
              "obligations": tot["obligations"], "discharged": tot["discharged"],
              "discharged_because_unreachable": tot["unreachable"],
              "obligations_located_in_repo_source": tot["repo_obligations"],
              "checker_cmd": " && ".join(cmds), "back_end": f"Kani {tools.get('kani')} / CBMC {tools.get('cbmc')} / "
                                              + ",".join(s["name"] for s in tools.get("solvers") or []),
              "solver_time_s": round(solver, 1),
              "functions_under_contract": conf["functions"],
              "repo_functions_with_obligations": sorted(fns)[:400],
              "harnesses": per,
              "bounded_stand_ins": conf.get("bounded", []),
              "bounded_obligations_not_counted": sum(p["obligations"] for p in per if p["kind"] == "bounded"),
              "reachability_covers": tot["covers"],
              "assumption_scan": scan_trusted([r["module"] for r in runs]),
              "trusted_base": props.TRUSTED + conf.get("trusted", [])},
          "assumptions": props.ASSUMPTIONS + conf.get("assumptions", []),
          "wall_s": round(time.time() - START, 1), "violations": nviol}
    with open(f"{HERE}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    return code


if __name__ == "__main__":
    sys.exit(main())
