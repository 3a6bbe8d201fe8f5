#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decides one property against /repo's current tree
   check.py --build              builds the extractor and the falsifier"""
import sys, os, json, subprocess, time, re, shutil, hashlib
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from units import UNITS, ASSUMPTIONS, TRUSTED, SCOPE  # noqa: E402
TARGET = os.environ.get("VERIF_TARGET", os.path.join(VERIF, "target"))
VERUS = shutil.which("verus") or "/opt/veriftools/verus/verus"
RLIMIT = 60
START = time.time()
LIMIT = 840 if (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")) != "thorough" else 3600  # seconds for a whole run
def left(): return max(5.0, START + LIMIT - time.time())
OBLIGATIONS = ("postcondition not satisfied", "precondition not satisfied", "failed precondition", "invariant not satisfied", "assertion failed", "possible arithmetic underflow/overflow",
               "possible division by zero", "decreases not satisfied", "could not prove termination", "unable to prove", "possible bit shift", "type invariant", "cannot show", "recommendation", "requires not satisfied", "ensures not satisfied", "array index", "index out of bounds", "may be out of bounds", "assert_", "bit_vector", "nonlinear")

def log(*a): print(*a, file=sys.stderr, flush=True)

def sh(cmd, timeout, cwd=None, env=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, errors="replace")
        return p.returncode, p.stdout, p.stderr, time.time() - t
    except subprocess.TimeoutExpired as e:
        d = lambda x: (x or b"").decode(errors="replace") if isinstance(x, (bytes, type(None))) else x
        return None, d(e.stdout), d(e.stderr), time.time() - t

def popen(cmd, cwd=None, env=None): return subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")

def start_build_vx():
    return popen(["cargo", "build", "--release", "--offline", "--target-dir", TARGET], cwd=os.path.join(VERIF, "vx"))

def harness_dir():
    """the falsifier's crate; its dependency path follows VERIF_REPO"""
    if REPO == "/repo": return os.path.join(VERIF, "harness")
    d = os.path.join(TARGET, "harness-src")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, "harness"), d, ignore=shutil.ignore_patterns("target"))
    f = os.path.join(d, "Cargo.toml")
    s = open(f).read().replace('"/repo"', '"%s"' % REPO)
    open(f, "w").write(s)
    return d

def start_build_harness(hooks=True):
    env = dict(os.environ)
    env["RUSTFLAGS"] = ("--cfg granne_verif " if hooks else "") + "--cap-lints allow"
    td = os.path.join(TARGET, "h" if hooks else "n")
    return popen(["cargo", "build", "--offline", "--target-dir", td], cwd=harness_dir(), env=env), os.path.join(td, "debug", "granne-check")

# ---------- the deductive part ----------
class Unit:
    def __init__(s, name):
        s.name = name; s.status = "undecided"; s.why = ""; s.failed = []; s.verified = 0; s.errors = 0; s.functions = []; s.lost = []; s.solver_ms = 0; s.vacuous = []; s.reached = 0; s.raw = ""; s.wall = 0; s.breakdown = []
        s.work = os.path.join(TARGET, "units"); os.makedirs(s.work, exist_ok=True)
        s.rs = os.path.join(s.work, "%s_%d.rs" % (name, os.getpid())); s.must = os.path.join(s.work, "%s_%d_must_fail.rs" % (name, os.getpid()))
    def clean(s):
        for f in (s.rs, s.must, s.rs + ".json"):
            try: os.unlink(f)
            except OSError: pass

def run_verus(path, rlimit=RLIMIT, many=6):
    rc, out, err, w = sh([VERUS, path, "--output-json", "--time-expanded", "--triggers-mode", "silent", "--rlimit", str(rlimit), "--multiple-errors", str(many), "--error-format=json", "--num-threads", "4"], min(400, left() - 300), cwd=os.path.dirname(path))
    d = None
    i = out.find("{")
    try: d = json.loads(out[i:])
    except Exception: pass
    diags = []
    for l in err.splitlines():
        if l.startswith('{"$message_type"'):
            try: diags.append(json.loads(l))
            except Exception: pass
    return rc, d, diags, err, w

def classify(diags):
    """failed obligations, and reasons why nothing was decided"""
    obl, other = [], []
    for x in diags:
        if x.get("level") != "error": continue
        m = x["message"]
        if m.startswith("aborting due to"): continue
        ml = m.lower()
        if "rlimit" in ml or "resource limit" in ml or "timed out" in ml: other.append(("rlimit", x))
        elif x.get("code"): other.append(("compile", x))
        elif any(o in ml for o in OBLIGATIONS): obl.append(x)
        else: other.append(("unsupported", x))
    return obl, other

def in_fn(fns, line):
    for f in fns:
        if f["out_lines"][0] <= line <= f["out_lines"][1]: return f
    return None

def verify_unit(u, vx):
    t0 = time.time()
    tpl = os.path.join(VERIF, "units", u.name + ".rs")
    rc, out, err, _ = sh([vx, REPO, tpl, u.rs, u.rs + ".json"], 120)
    try:
        j = json.load(open(u.rs + ".json"))
    except Exception:
        u.why = "extraction failed: " + err[-400:]; return u
    u.functions = j["functions"]; u.lost = j["lost"]
    if u.lost:
        u.why = "the annotations do not fit the source any more: " + "; ".join(u.lost)[:600]; return u
    text = open(u.rs).read()
    # every function's entry must be reachable under its preconditions: each added `assert(false)` has to fail
    entries = text.count("/*VXENTRY*/")
    open(u.must, "w").write(text.replace("/*VXENTRY*/", " proof { assert(false); }"))
    must = popen([VERUS, u.must, "--output-json", "--triggers-mode", "silent", "--rlimit", "20", "--multiple-errors", "1", "--error-format=json", "--num-threads", "4"], cwd=u.work)
    rc, d, diags, raw, w = run_verus(u.rs)
    u.raw = raw
    obl, other = classify(diags)
    if other and all(k == "rlimit" for k, _ in other) and not obl and left() > 450:
        rc, d, diags, raw, w = run_verus(u.rs, rlimit=RLIMIT * 5)
        u.raw = raw
        obl, other = classify(diags)
    vr = (d or {}).get("verification-results", {})
    u.verified, u.errors = vr.get("verified", 0), vr.get("errors", 0)
    try:
        smt = d["times-ms"]["smt"]
        u.solver_ms = smt["smt-run"]
        for m in smt["smt-run-module-times"]: u.breakdown += [f for f in m["function-breakdown"] if f["mode:"] != "spec"]
    except Exception: pass
    try: mout, merr = must.communicate(timeout=max(5, min(300, left() - 250)))
    except subprocess.TimeoutExpired: must.kill(); mout, merr = must.communicate()
    lines = text.replace("/*VXENTRY*/", "\0").split("\n")
    entry_lines = [i + 1 for i, l in enumerate(lines) if "\0" in l]
    hit = set()
    for l in merr.splitlines():
        if l.startswith('{"$message_type"') and '"assertion failed"' in l:
            try:
                for sp in json.loads(l)["spans"]: hit.add(sp["line_start"])
            except Exception: pass
    u.reached = len([l for l in entry_lines if l in hit])
    u.vacuous = [(in_fn(u.functions, l) or {}).get("item", "line %d" % l) for l in entry_lines if l not in hit]
    real, weak = [], []
    for x in obl:
        ls = [sp["line_start"] for sp in sorted(x["spans"], key=lambda sp: not sp.get("is_primary")) if sp.get("file_name", "").endswith(os.path.basename(u.rs))]
        f = next((in_fn(u.functions, l) for l in ls if in_fn(u.functions, l)), None)
        r = {"obligation": x["message"], "function": f["item"] if f else None, "file": f["file"] if f else None, "text": x["rendered"][:1500]}
        # a function that lost a proof hint and fails is not decided
        if f and f["soft"]: weak.append("%s in %s, which lost: %s" % (x["message"], f["item"], "; ".join(f["soft"])[:300]))
        else: real.append(r)
    if real and any(r["function"] for r in real):
        u.status = "failed"; u.failed = [r for r in real if r["function"]]
    elif weak:
        u.status = "undecided"; u.why = "; ".join(weak)[:900]
    elif real or other or not vr or vr.get("encountered-vir-error") or rc != 0:
        u.status = "undecided"
        m = [x["message"] for _, x in other] + [r["obligation"] + " in a lemma" for r in real]
        u.why = "; ".join(m)[:800] or ("verus ended with %s: %s" % (rc, raw[-300:]))
    elif vr.get("success") and u.verified > 0 and u.errors == 0:
        u.status = "proved"
        if u.vacuous: u.status = "undecided"; u.why = "preconditions that cannot be met: " + ", ".join(u.vacuous)
    u.wall = time.time() - t0
    return u

# ---------- the falsifier ----------
def falsify(bin_, prop, seed, tier, budget, scale, serial=False):
    out = os.path.join(TARGET, "f-%s-%d.json" % (prop, os.getpid()))
    try: os.unlink(out)
    except OSError: pass
    env = dict(os.environ)
    tmp = os.path.join(TARGET, "tmp-%d" % os.getpid()); os.makedirs(tmp, exist_ok=True); env["TMPDIR"] = tmp
    rc, o, e, w = sh([bin_, "--property", prop, "--seed", str(seed), "--tier", tier, "--budget", str(int(budget)), "--scale", str(scale), "--out", out] + (["--serial"] if serial else []), budget + 150, env=env)
    shutil.rmtree(tmp, ignore_errors=True)
    j = None
    try: j = json.load(open(out)); os.unlink(out)
    except Exception: pass
    if rc in (0, 1) and j is not None: return j, None
    if not serial:
        j2, c = falsify(bin_, prop, seed, tier, budget, scale, True)
        return j2 if j2 else j, c
    case = [l for l in e.splitlines() if l.startswith("CASE ")]
    if case:
        _, s, n = case[-1].split()
        return None, {"property": prop, "section": s, "seed": seed, "case": int(n), "tier": tier, "what": "the process ended with %s: %s" % (rc, "\n".join([l for l in e.splitlines() if not l.startswith("CASE ")])[-800:]), "input": "see section and case"}
    return None, None

def main():
    if sys.argv[1] == "--build":
        a = start_build_vx(); b, _ = start_build_harness()
        for p in (a, b):
            o, e = p.communicate()
            if p.returncode != 0: print(e[-3000:]); sys.exit(2)
        return
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    rep_path = os.path.join(VERIF, "evidence", "replay-%s.json" % prop)
    for f in (ev_path, rep_path):
        try: os.unlink(f)
        except OSError: pass
    bvx = start_build_vx(); bh, hbin = start_build_harness()
    o, e = bvx.communicate()
    if bvx.returncode != 0: log(e[-3000:]); print("ERROR the extractor does not build"); sys.exit(2)
    vx = os.path.join(TARGET, "release", "vx")
    from concurrent.futures import ThreadPoolExecutor
    units = [Unit(n) for n in UNITS.get(prop, [])]
    with ThreadPoolExecutor(4) as ex: list(ex.map(lambda u: verify_unit(u, vx), units))
    hooks = True
    o, e = bh.communicate()
    if bh.returncode != 0:
        log("harness does not build with hooks:", e[-1500:])
        hooks = False
        bh, hbin = start_build_harness(False)
        o, e = bh.communicate()
        if bh.returncode != 0: log(e[-3000:]); print("ERROR the harness does not build against the current tree"); sys.exit(2)
    tv = time.time()
    budget, scale = (25, 20) if tier == "quick" else (240, 20)
    j, crash = falsify(hbin, prop, seed, tier, budget, scale)
    fail = crash or (j or {}).get("failure")
    if j is None and crash is None: log("the falsifier gave no result"); print("ERROR no result from the falsifier"); sys.exit(2)
    scope = SCOPE.get(prop)
    own = lambda f: scope is None or any(re.search(x[1:], f["file"] + "::" + f["function"]) if x[0] == "~" else (f["file"] + "::" + f["function"]).startswith(x) for x in scope)
    failed = [(u, f) for u in units for f in u.failed if own(f)]
    for u in units:
        if u.status == "failed" and not any(own(f) for f in u.failed):
            u.status = "undecided"; u.why = "a contract this property's argument relies on is not kept: " + "; ".join("%s in %s" % (f["obligation"], f["function"]) for f in u.failed)[:600]
    undecided = [u for u in units if u.status == "undecided"]
    deep = None
    if not fail and (failed or undecided):
        # look harder for a failing input
        deep, c2 = falsify(hbin, prop, seed + 1000, "thorough", min(150 if tier == "quick" else 300, left() * 0.5), 20)
        fail = c2 or (deep or {}).get("failure")
    for u in units: log("unit %s: %s, %d verified, %d errors, %.1f s %s" % (u.name, u.status, u.verified, u.errors, u.wall, u.why))
    violation = bool(fail) or bool(failed)
    runs = [x for x in (j, deep) if x]
    evals = sum(x.get("evaluations", 0) for x in runs)
    obligations = sum(u.verified + u.errors for u in units)
    discharged = sum(u.verified for u in units)
    proved = all(u.status == "proved" for u in units) and units
    tb = list(TRUSTED)
    for u in units:
        if os.path.exists(u.rs):
            txt = open(u.rs).read()
            n = {k: len(re.findall(k, txt)) for k in ("external_body", "assume_specification", r"\baxiom fn\b", r"\bassume\(", r"\badmit\(")}
            tb.append("unit %s: %d external_body shims, %d assumed specifications of std, %d axioms, %d assume, %d admit" % (u.name, n["external_body"], n["assume_specification"], n[r"\baxiom fn\b"], n[r"\bassume\("], n[r"\badmit\("]))
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "verus <unit>.rs --rlimit %d (units %s, regenerated from %s by /verif/vx on this run)" % (RLIMIT, ", ".join(u.name for u in units), REPO),
        "trusted_base": tb,
        "units": [{"unit": u.name, "status": u.status, "why": u.why, "queries_verified": u.verified, "queries_failed": u.errors, "back_end": "Verus/Z3", "solver_ms": u.solver_ms, "wall_s": round(u.wall, 2),
                   "functions_under_contract": [{"file": f["file"], "item": f["item"], "hash": f["hash"], "source_lines": f["src_lines"], "extraction": f["rewrites"], "hints_lost": f["soft"]} for f in u.functions],
                   "entry_reachability_checked": u.reached, "unreachable_entries": u.vacuous,
                   "failed_obligations": u.failed} for u in units],
        "deciding": "proof" if proved else ("failed obligation" if failed else "bounded: some unit could not be decided on this run, only the falsifier's cases were checked"),
        "evaluations": evals, "distinct_nontrivial": sum(x.get("distinct_nontrivial", 0) for x in runs),
        "rule": "bounded falsifier (never counted as proved): " + "; ".join("%s: %s" % (s["name"], s["rule"]) for s in (j or {}).get("sections", [])),
        "samples": (j or {}).get("samples", [])[:6],
        "sections": (j or {}).get("sections", []), "hooks": hooks,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "wall_s": round(time.time() - t0, 2), "assumptions": ASSUMPTIONS.get(prop, []), "violations": 1 if violation else 0}
    json.dump(ev, open(ev_path, "w"), indent=1)
    rc = 0
    if violation:
        rep = {"property": prop, "seed": seed, "failed_obligations": [dict(f, unit=u.name) for u, f in failed], "verifier_output": "\n".join(u.raw[-6000:] for u, _ in failed[:1])}
        if fail:
            rep["failing_input"] = fail
            rep["replay_cmd"] = "cd %s && RUSTFLAGS='--cfg granne_verif --cap-lints allow' cargo run --offline --target-dir %s -- --property %s --section %s --case %s --seed %s --tier %s" % (os.path.join(VERIF, "harness"), os.path.join(TARGET, "h"), prop, fail["section"], fail["case"], fail.get("seed", seed), fail.get("tier", tier))
            log("failing input:", json.dumps(fail)[:1500])
        for u, f in failed: log("failed obligation in %s: %s\n%s" % (f["function"], f["obligation"], f["text"]))
        json.dump(rep, open(rep_path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s%s" % (prop, rep_path, "" if fail else " no-failing-input-found"))
        rc = 1
    else:
        print("OK property=%s %s: %d/%d queries discharged, %d falsifier cases" % (prop, cov["deciding"], discharged, obligations, evals))
    for u in units: u.clean()
    sys.exit(rc)

main()
