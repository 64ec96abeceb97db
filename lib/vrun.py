"""run Verus on a unit and read back which obligations were discharged"""
import importlib
import json
import os
import re
import subprocess
import time

from rsx import LostAnchor, Src

OBLIGATION = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed|assertion failure|invariant not satisfied|arithmetic underflow/overflow|"
    r"division by zero|decreases not satisfied|could not prove termination|loop ensures|ensures clause|shift underflow/overflow|unable to prove|"
    r"type invariant|index out of bounds|unreachable|cannot show|requires not satisfied|possible panic|not all errors|bitvector|"
    r"precondition of|postcondition of|failed this", re.I)
RLIMIT = re.compile(r"resource limit|rlimit|timed out|spinning|took too long", re.I)
NOISE = re.compile(r"aborting due to|could not compile|For more information", re.I)

TRUST = re.compile(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+)?(?:fn|struct|enum)\s+(\w+)|assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]*?)\s*\]|"
                   r"axiom\s+fn\s+(\w+)|uninterp\s+spec\s+fn\s+(\w+)|external_type_specification\]\s*(?:#\[[^\]]*\]\s*)*pub struct (\w+)")

CANARY = "\nproof fn canary_must_fail()\n    ensures false,\n{ }\n"


class Result:
    pass


def trusted_in(text):
    out = []
    text = re.sub(r"(?ms)^//@fn .*?^//@end$", "", text)
    for m in TRUST.finditer(text):
        out.append(next(g for g in m.groups() if g))
    return sorted(set(out))


def run_once(mod, repo, work, force, rlimit, threads, vacuity=False, tag="", limit=560):
    u = mod.build_with(repo, force, vacuity) if hasattr(mod, "build_with") else _build(mod, repo, force, vacuity)
    text = u.render().replace("\n} // verus!", CANARY + "\n} // verus!")
    path = os.path.join(work, "%s%s.rs" % (u.name, tag))
    with open(path, "w") as f:
        f.write(text)
    t = time.time()
    p = subprocess.run(["verus", path, "--output-json", "--time-expanded", "--error-format=json", "--rlimit", str(rlimit),
                        "--num-threads", str(threads), "--multiple-errors", "2", "--triggers-mode", "silent", "--no-report-long-running"],
                       capture_output=True, text=True, timeout=max(1, limit), cwd=work)
    wall = time.time() - t
    try:
        js = json.loads(p.stdout)
    except Exception:
        js = None
    diags = []
    for line in p.stderr.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except Exception:
                continue
            if d.get("level") == "error" and not NOISE.search(d.get("message", "")):
                diags.append(d)
    # line -> function
    owner = {}
    cur = None
    canary = set()
    for i, l in enumerate(text.splitlines(), 1):
        if l.startswith("//@fn "):
            cur = l[6:]
        elif l.startswith("//@end"):
            cur = None
        elif cur:
            owner[i] = cur
        if "canary_must_fail" in l:
            canary.update(range(i - 1, i + 4))
    return u, path, text, js, diags, owner, canary, wall, p


def _build(mod, repo, force, vacuity):
    import vgen
    real = vgen.Unit.__init__

    def init(self, name, repo=repo):
        real(self, name, repo)
        self.force_assume = dict(force)
        self.vacuity = vacuity
    vgen.Unit.__init__ = init
    try:
        return mod.build(repo)
    finally:
        vgen.Unit.__init__ = real


def attribute(d, path, owner, canary, lines):
    base = os.path.basename(path)
    spans = [s for s in d["spans"] if os.path.basename(s["file_name"]) == base]

    def own(s):
        for ln in range(s["line_start"], s["line_end"] + 1):
            if ln in owner:
                return owner[ln]
        return None
    for s in spans:
        if any(ln in canary for ln in range(s["line_start"], s["line_end"] + 1)):
            return "canary", s["line_start"]
    order = sorted(spans, key=lambda s: (0 if (s.get("label") or "").startswith("at ") else 1, 0 if s["is_primary"] else 1))
    for s in order:
        o = own(s)
        if o:
            return o, s["line_start"]
    if spans:
        ln = order[0]["line_start"]
        for i in range(ln - 1, -1, -1):
            m = re.match(r"\s*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+)?fn\s+(\w+)", lines[i])
            if m:
                return "lemma " + m.group(1), ln
    return None, 0


def run_unit(name, repo, work, rlimit=60, threads=4, vacuity=False):
    """-> Result(status ok|failed|tool, ...)"""
    os.makedirs(work, exist_ok=True)
    r = Result()
    r.unit, r.failed, r.unproved, r.tool, r.proved = name, [], {}, None, []
    r.verified = r.errors = 0
    r.smt_ms = r.wall = 0
    r.trusted, r.rewrites, r.assumed, r.path, r.fns, r.vac_bad = [], {}, [], None, [], []
    force = {}
    Src.cache.clear() if hasattr(Src, "cache") else None
    try:
        mod = importlib.import_module(name)
    except LostAnchor as e:
        r.status, r.tool = "tool", str(e)
        return r
    end = time.time() + 560
    for attempt in range(7):
        try:
            u, path, text, js, diags, owner, canary, wall, p = run_once(mod, repo, work, force, rlimit, threads, vacuity, limit=end - time.time())
        except LostAnchor as e:
            r.status, r.tool = "tool", "extraction: %s" % e
            return r
        except subprocess.TimeoutExpired:
            r.status, r.tool = "tool", "verifier time limit"
            return r
        r.path, r.wall = path, r.wall + wall
        r.trusted, r.rewrites, r.assumed = trusted_in(text), u.rewrites_used, u.assumed
        r.fns = list(u.fns)
        lines = text.splitlines()
        at = [(attribute(d, path, owner, canary, lines), d) for d in diags]
        vr = (js or {}).get("verification-results", {})
        compiled = js is not None and not vr.get("encountered-vir-error") and "verified" in vr and (vr["verified"] + vr["errors"]) > 0
        if not compiled:
            new = {}
            for (w, ln), d in at:
                if w and w in u.fns and w not in force:
                    new[w] = "not accepted by the verifier: " + d["message"][:200]
            if not new:
                r.status = "tool"
                r.tool = "unit not accepted by the verifier: " + "; ".join(d["message"][:200] for _, d in at[:3]) if at else "verifier error: " + (p.stderr[-400:] or "?")
                return r
            force.update(new)
            continue
        lim = {}
        for (w, ln), d in at:
            if RLIMIT.search(d["message"]) and w and w not in force and w in u.fns:
                lim[w] = "verifier resource limit"
        if lim and not vacuity:
            force.update(lim)
            continue
        break
    else:
        r.status, r.tool = "tool", "did not converge"
        return r
    r.unproved = dict(u.fell_back)
    r.verified, r.errors = vr["verified"], vr["errors"]
    tm = js.get("times-ms", {}).get("smt", {})
    r.smt_ms = tm.get("total", 0)
    r.breakdown = [f for m in tm.get("smt-run-module-times", []) for f in m.get("function-breakdown", [])]
    saw_canary = any(w == "canary" for (w, _), _ in at)
    bad = {}
    for (w, ln), d in at:
        if w == "canary":
            continue
        if RLIMIT.search(d["message"]):
            r.unproved[w or "?"] = "verifier resource limit"
            continue
        bad.setdefault(w or "?", []).append({"line": ln, "message": d["message"], "rendered": d.get("rendered", "")})
    r.failed = bad
    r.proved = [f for f in u.fns if f not in bad and f not in r.unproved]
    if not saw_canary:
        r.status, r.tool = "tool", "canary obligation was accepted: the unit is vacuous"
        return r
    r.status = "failed" if bad else "ok"
    if vacuity:
        r.vac_bad = [f for f in u.fns if f not in bad]
    return r
