#!/usr/bin/env python3
"""check.py PROPERTY  --  decide one property on /repo's current tree (see DESIGN.md)"""
import concurrent.futures
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "units")]
sys.dont_write_bytecode = True
import props  # noqa: E402
import vrun  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(HERE, "out")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = os.environ.get("VERIF_SEED", "1")


def log(*a):
    print(*a, flush=True)


def build_replay(work, crate):
    """build a concrete harness from /repo's current tree -> (binary, error); suites named asm:... run in the crate
    that takes in the compiler's modules behind the parser, the others in the one over core and decompiler"""
    env = dict(os.environ)
    target = os.path.join(OUT, "target" if crate == "replay" else "target-" + crate)
    env.update(RUSTUP_TOOLCHAIN="1.77.2", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, RUSTC_WRAPPER="", CARGO_TERM_COLOR="never")
    env["PATH"] = env.get("PATH", "") + ":/usr/local/bin:/root/.cargo/bin"
    env["RUSTFLAGS"] = "--cap-lints warn"
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(HERE, crate, "Cargo.toml")],
                       capture_output=True, text=True, env=env, timeout=700)
    if p.returncode != 0:
        return None, p.stderr[-3000:]
    b = os.path.join(work, crate)
    shutil.copyfile(os.path.join(target, "debug", crate), b)
    os.chmod(b, 0o755)
    return b, None


def crate_of(suite):
    return suite.split(":")[0] if ":" in suite else "replay"


def run_suite(binary, suite, seed, tier, work, limit):
    def cap():
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if limit < 5:
        return 0, [], {"distinct": 0, "samples": []}
    try:
        p = subprocess.run([binary, suite, str(seed), tier], capture_output=True, text=True, errors="replace", timeout=limit, cwd=work, preexec_fn=cap)
    except subprocess.TimeoutExpired:
        if limit < 60:
            return 0, [], {"distinct": 0, "samples": []}
        return 0, [("%s/hang" % suite, "the suite did not finish within %d s" % limit)], {"distinct": 0, "samples": []}
    cases, fails, notes = 0, [], {"distinct": 0, "samples": []}
    for l in p.stdout.splitlines():
        if l.startswith("CASES "):
            cases = int(l.split()[1])
        elif l.startswith("FAIL "):
            k, _, w = l[5:].partition(" :: ")
            fails.append((k, w))
        elif l.startswith("DISTINCT "):
            notes["distinct"] = int(l.split()[1])
        elif l.startswith("SAMPLE "):
            notes["samples"].append(l[7:])
    if p.returncode not in (0, 1):
        fails.append(("%s/abort" % suite, "the real code ended the process (status %s): %s" % (p.returncode, p.stderr[-400:])))
    return cases, fails, notes


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def main():
    prop = sys.argv[1]
    cfg = props.PROPS[prop]
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    work = os.path.join(OUT, "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rep_dir = os.path.join(OUT, "replay")
    os.makedirs(rep_dir, exist_ok=True)
    units = cfg["units"]
    thr = max(2, 8 // max(1, len(units)))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        hb = {k: ex.submit(build_replay, work, k) for k in {crate_of(s) for s in cfg.get("suites", [])}}
        # one process per unit: the extraction keeps per-process state
        fu = {u: ex.submit(unit_process, u, work, thr, False) for u in units}
        fv = {u: ex.submit(unit_process, u, os.path.join(work, "vac"), thr, True) for u in units} if TIER == "thorough" else {}
        results = {u: f.result() for u, f in fu.items()}
        vac = {u: f.result() for u, f in fv.items()}
        binary, berr = {}, None
        for k, f in hb.items():
            try:
                binary[k], err = f.result()
            except Exception as e:  # noqa: BLE001
                binary[k], err = None, repr(e)
            berr = berr or err
    # ---------------------------------------------------------------- concrete search
    cases, found, distinct, samples = 0, [], 0, []
    if any(binary.values()):
        seeds = [int(SEED)] if TIER == "quick" else [int(SEED) + i for i in range(5)]
        for s in cfg["suites"]:
            for sd in seeds if binary.get(crate_of(s)) else []:
                n, f, nt = run_suite(binary[crate_of(s)], s.split(":")[-1], sd, TIER, work, min(300, 860 - (time.time() - t0)))
                cases += n
                found += [(k, w, s, sd) for k, w in f]
                distinct += nt["distinct"]
                samples += nt["samples"]
    # ---------------------------------------------------------------- obligations
    failed, unproved, owned, other = {}, {}, [], {}
    for u, r in results.items():
        pats = units[u]
        rx = [re.compile(p) for p in pats if p != "lemma"]

        def mine(w):
            if w.startswith("lemma") or w == "?":
                return "lemma" in pats
            return any(x.match(w) for x in rx)
        if r["status"] == "tool":
            unproved["unit " + u] = r["tool"]
            continue
        owned += [w for w in r["proved"] if mine(w)]
        for w, why in r["unproved"].items():
            if mine(w):
                unproved[w] = why
        for w, es in r["failed"].items():
            (failed if mine(w) else other)[w] = es
    vacuous = {u: v["vac_bad"] for u, v in vac.items() if v.get("vac_bad")}
    # ---------------------------------------------------------------- verdict
    kf = known(prop)
    viol, shown = [], set()
    for k, w, s, sd in found:
        hit = next((d for d in kf if re.fullmatch(d["match"], k)), None)
        if hit:
            if hit["what"] not in shown:
                shown.add(hit["what"])
                log("KNOWN-FINDING: property=%s %s" % (prop, hit["what"]))
        else:
            viol.append((k, w, s, sd))
    # a known finding is printed on every run, found again or not
    for d in kf:
        if d["what"] not in shown:
            shown.add(d["what"])
            log("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    code = 0
    lines = []
    if viol or failed:
        code = 1
        path = os.path.join(rep_dir, "%s.txt" % prop)
        with open(path, "w") as f:
            for k, w, s, sd in viol:
                f.write("failing input [%s] (replay %s %s %s)\n  %s\n\n" % (k, s, sd, TIER, w))
            for w, es in failed.items():
                f.write("failed obligation in %s\n" % w)
                for e in es:
                    f.write("  " + e["rendered"].replace("\n", "\n  ") + "\n")
            if failed and not viol:
                f.write("no failing input was found by the concrete search (%d cases)\n" % cases)
        for w in failed:
            log("obligation not discharged: %s: %s" % (w, failed[w][0]["message"]))
        for k, w, s, sd in viol[:5]:
            log("failing input: %s: %s" % (k, w[:600]))
        log("VIOLATION property=%s replay=%s%s" % (prop, path, "" if viol else " no-failing-input-found"))
    # ---------------------------------------------------------------- evidence
    proof_complete = not unproved and not failed and all(r["status"] in ("ok", "failed") for r in results.values())
    trusted = sorted({t for r in results.values() for t in r.get("trusted", [])})
    rewrites = {}
    for r in results.values():
        rewrites.update(r.get("rewrites", {}))
    n_ok = sum(r.get("verified", 0) for r in results.values())
    n_bad = sum(max(0, r.get("errors", 0) - 1) for r in results.values())     # the canary's error is not one
    cov = {
        "obligations": n_ok + n_bad + len(unproved),
        "discharged": n_ok,
        "checker_cmd": "verus <unit>.rs --rlimit 60 (units: %s), each unit regenerated from %s on this run" % (", ".join(units), REPO),
        "trusted_base": ["Verus 0.2026.09.13 and its bundled Z3", "the extraction of /verif/lib/rsx.py and vgen.py (drops D1, D2 and the registered rewrites, see DESIGN.md)"]
        + ["assumed contract: " + t for t in trusted] + ["registered rewrite: " + k for k in rewrites] + cfg.get("assume", []),
        "verdict": "violated" if code else "held",
        "proof_established_on_this_tree": proof_complete,
        "functions_under_contract": sorted(owned),
        "obligations_failed": {w: [e["message"] for e in es] for w, es in failed.items()},
        "failed_obligations_of_other_properties_in_these_units": sorted(other),
        "not_proved_on_this_tree_bounded_only": unproved,
        "solver_ms": sum(r.get("smt_ms", 0) for r in results.values()),
        "units": {u: {"status": r["status"], "verified": r.get("verified"), "wall_s": round(r.get("wall", 0), 1), "tool": r["tool"],
                      "contracts_assumed_here_proved_in_another_unit": len(r.get("assumed", []))} for u, r in results.items()},
        "canary": "an unprovable obligation placed in every unit was rejected, as it must be",
        "vacuity": {u: ("every function under contract rejects assert(false) at entry" if not v.get("vac_bad") and v["status"] == "failed" else (v.get("vac_bad") or v["tool"])) for u, v in vac.items()},
        "evaluations": cases,
        "distinct_nontrivial": distinct,
        "rule": "concrete search (bounded, never counted as proof): seeded generator per suite %s against oracles written in the harness; a case is distinct when its key and written-out input differ from every earlier one and the input is not empty" % cfg.get("suites", []),
        "samples": samples[:8],
        "harness_build_error": berr,
    }
    ev = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": int(SEED),
        "level": "proof" if proof_complete and units else "exploration",
        "coverage": cov,
        "assumptions": ["contract assumed, not checked: " + t for t in trusted] + cfg.get("assume", []),
        "violations": len(viol) + len(failed),
        "wall_s": round(time.time() - t0, 2),
    }
    if vacuous:
        ev["coverage"]["vacuous"] = vacuous
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    log("%s: %s; %d functions under contract, %d obligations discharged, %d concrete cases, %.0f s%s" % (
        prop, "VIOLATED" if code else "held", len(owned), n_ok, cases, time.time() - t0,
        "" if proof_complete else "; proof not re-established for: " + ", ".join(list(unproved) + list(failed)) if not proof_complete else ""))
    if berr:
        log("note: concrete harness not available: " + berr[-500:])
    sys.exit(code)


def unit_process(u, work, thr, vacuity):
    os.makedirs(work, exist_ok=True)
    out = os.path.join(work, u + ("-vac" if vacuity else "") + ".result.json")
    p = subprocess.run([sys.executable, os.path.abspath(__file__), "--unit", u, work, str(thr), "1" if vacuity else "0", out], capture_output=True, text=True)
    try:
        return json.load(open(out))
    except Exception:  # noqa: BLE001
        return {"status": "tool", "tool": "unit runner failed: " + p.stderr[-600:], "proved": [], "failed": {}, "unproved": {}}


def unit_main():
    _, _, u, work, thr, vac, out = sys.argv
    r = vrun.run_unit(u, REPO, work, threads=int(thr), vacuity=vac == "1")
    d = {k: v for k, v in vars(r).items() if k not in ("breakdown",)}
    with open(out, "w") as f:
        json.dump(d, f)


if __name__ == "__main__":
    if sys.argv[1] == "--unit":
        unit_main()
    else:
        main()
