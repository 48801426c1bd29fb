#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]

Decides one property: extract the contracted functions from /repo's current source (vx), let Verus
discharge every obligation, and run the executable form of the same contract over a bounded input
space in parallel (to turn a failed obligation into a failing input, and as the labelled bounded
stand-in for code that is outside the verifier's reach).  See DESIGN.md."""
import json, os, re, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, ".build")
import glob
CFG = json.load(open(os.path.join(V, "checks.json")))
t0 = time.time()

def log(*a):
    print("[%6.1fs]" % (time.time() - t0), *a, flush=True)

def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        d = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return -999, d(x.stdout), d(x.stderr)

# ---------------------------------------------------------------- build
def build_vx():
    rc, o, e = sh(["cargo", "build", "--offline", "-q", "--manifest-path", V + "/vx/Cargo.toml"], env={"CARGO_TARGET_DIR": B + "/vx"})
    if rc != 0:
        raise SystemExit("cannot build vx:\n" + e)
    return B + "/vx/debug/vx"

def build_harness(kind):
    feat = [] if kind == "lrp" else ["--no-default-features", "--features", kind]
    d = B + "/h-" + kind
    rc, o, e = sh(["cargo", "build", "--offline", "-q", "--manifest-path", V + "/harness/Cargo.toml"] + feat, env={"CARGO_TARGET_DIR": d, "RUSTFLAGS": "-Awarnings"}, timeout=600)
    return (d + "/debug/vh", None) if rc == 0 else (None, e[-3000:])

# ---------------------------------------------------------------- proof
VERR = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic underflow/overflow", "possible division by zero",
        "loop invariant", "decreases not satisfied", "unable to prove", "requires not satisfied", "assertion not satisfied", "possible bit shift underflow/overflow", "unwrap", "could not prove")
def is_verr(m):
    return any(m.startswith(x) or x in m for x in VERR)

UNITOPTS = {"lexer": ["--smt-option", "smt.case_split=1", "--triggers-mode", "silent"]}
# a query that one solver configuration does not answer may be answered by another: an obligation counts as failed only if none of them discharges it
ALT = [[], ["--smt-option", "smt.relevancy=0"], ["--smt-option", "smt.case_split=1", "--rlimit", "400"], ["--smt-option", "smt.random_seed=7", "--smt-option", "smt.case_split=1"]]
sem = threading.Semaphore(8)

def module_of(text, line):
    mod = None
    for l in text.split("\n")[:line]:
        mm = re.match(r"(?:pub )?mod (m_\w+) \{", l)
        if mm:
            mod = mm.group(1)
    return mod

def confirm(r, budget):
    """second opinion on the functions of r that failed or ran out of resources; removes those that another solver configuration proves"""
    if r["unit"] not in UNITOPTS or r["status"] == "lost":
        return
    keys = sorted(set(f["fn"] for f in r["fails"]) | set(r.get("rlimit", [])))
    if len(keys) > 6:
        return
    fm = {f["key"]: f for f in r["map"]["fns"]}
    proved, th = set(), []
    procs = {}
    def one(k, alt):
        mod = module_of(r["text"], fm[k]["start"])
        cmd = ["verus", os.path.basename(r["rs"]), "--output-json", "--triggers-mode", "silent"] + (["--rlimit", "100"] if "--rlimit" not in alt else []) + alt
        cmd += (["--verify-only-module", mod] if mod else ["--verify-root"]) + ["--verify-function", "*" + k.split("::")[-1].split("#")[0]]
        with sem:
            if k in proved:
                return
            p = subprocess.Popen(cmd, cwd=B + "/gen", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True, text=True, errors="replace")
            procs.setdefault(k, []).append(p)
            try:
                o = p.communicate(timeout=budget)[0]
                vr = json.loads(o[o.index("{"):]).get("verification-results", {})
                if vr.get("success") and vr.get("verified", 0) > 0 and vr.get("errors") == 0:
                    proved.add(k)
                    for q in procs[k]:
                        kill(q)
            except subprocess.TimeoutExpired:
                kill(p)
            except Exception:
                pass
    for k in keys:
        if k in fm:
            for a in ALT:
                t = threading.Thread(target=one, args=(k, a))
                t.start()
                th.append(t)
    for t in th:
        t.join()
    if proved:
        log("proof: unit %s: discharged with another solver configuration: %s" % (r["unit"], ", ".join(sorted(proved))))
    r["fails"] = [f for f in r["fails"] if f["fn"] not in proved]
    r["rlimit"] = [k for k in r["rlimit"] if k not in proved]
    r["verified"] += len(proved)
    r["errors"] -= min(r["errors"], len(proved))
    r["confirmed"] = sorted(proved)
    r["status"] = "failed" if r["fails"] else ("rlimit" if r["rlimit"] else "ok")

def kill(p):
    try:
        os.killpg(p.pid, 9)
    except Exception:
        pass

def run_unit(unit, vx, prop, tier, probe=False):
    """returns dict(status=ok|failed|lost, fails=[...], fns=[...], ...)"""
    os.makedirs(B + "/gen", exist_ok=True)
    rs, mp = B + "/gen/%s-%s%s.rs" % (prop, unit, "-probe" if probe else ""), B + "/gen/%s-%s.json" % (prop, unit)
    ast = glob.glob(os.path.expanduser("~/.cargo/registry/src/*/lib-ruby-parser-ast-0.55.0")) or glob.glob("/root/.cargo/registry/src/*/lib-ruby-parser-ast-0.55.0")
    forced, res = [], {"unit": unit}
    rlimit = 30
    for attempt in range(12):
        rc, o, e = sh([vx, V + "/specs/%s.vspec" % unit, REPO, rs, mp], env={"VX_AST": ast[0] if ast else "", "VX_EXTERNAL": ",".join(forced), "VX_PROBE": "1" if probe else ""}, timeout=120)
        if rc != 0:
            return {"unit": unit, "status": "lost", "why": "extraction failed: " + (e or o)[-1500:], "fails": [], "fns": [], "map": {"drops": [], "fns": []}, "forced": forced, "verified": 0, "smt_ms": 0}
        m = json.load(open(mp))
        text = open(rs).read()
        lines = text.split("\n")
        cmd = ["verus", os.path.basename(rs), "--output-json", "--time-expanded", "--multiple-errors", "12", "--rlimit", str(rlimit), "--num-threads", "8"] + UNITOPTS.get(unit, []) + ["--", "--error-format=json"]
        rc, o, e = sh(cmd, timeout=(800 if tier == "quick" else 3000), cwd=B + "/gen")
        try:
            j = json.loads(o[o.index("{"):])
        except Exception:
            j = {}
        errs = []
        for l in e.split("\n"):
            try:
                d = json.loads(l)
            except Exception:
                continue
            if d.get("level") == "error" and d.get("spans"):
                errs.append(d)
        vr = j.get("verification-results", {})
        bad_fns, outside, fails, rl = [], [], [], []
        def fn_at(line):
            for f in m["fns"]:
                if f["start"] <= line <= f["end"]:
                    return f
        for d in errs:
            sp = [s for s in d["spans"] if s["file_name"].endswith(os.path.basename(rs))]
            cand = [(fn_at(s["line_start"]), s) for s in sp]
            body = [(f, s) for f, s in cand if f and s["line_start"] >= f["sigend"]]
            anyf = [(f, s) for f, s in cand if f]
            f = (body or anyf or [(None, sp[0] if sp else None)])[0][0]
            msg = d["message"]
            if is_verr(msg):
                tags = set()
                for s in sp:
                    for n in range(s["line_start"], s["line_end"] + 1):
                        tags |= set(re.findall(r"@(C\d\d)", lines[n - 1] if n <= len(lines) else ""))
                fails.append({"fn": f["key"] if f else "(lemma)", "file": f["file"] if f else None, "what": msg, "line": sp[0]["line_start"] if sp else None,
                              "tags": sorted(tags), "props": (f["props"] if f else m["props"]).split(","), "rendered": d.get("rendered", "")[:3000]})
            elif "rlimit" in msg or "Resource limit" in msg or "timed out" in msg.lower():
                rl.append(f["key"] if f else "?")
            else:
                (bad_fns.append((f["key"], msg, d.get("rendered", "")[:800])) if f else outside.append((msg, d.get("rendered", "")[:800])))
        res.update(map=m, cmd=" ".join(cmd), forced=[x for x in forced], rlimit=rl, text=text, rs=rs)
        if vr and not vr.get("encountered-vir-error") and not bad_fns and not outside and ("verified" in vr):
            bd = []
            for md in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
                bd += md.get("function-breakdown", [])
            res["verified"], res["errors"] = vr["verified"], vr["errors"]
            res["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0)
            res["breakdown"] = bd
            if rl and rlimit < 100 and not probe and unit not in UNITOPTS:
                rlimit = 200
                continue
            res["fails"] = fails
            res["status"] = "failed" if fails else ("rlimit" if rl else "ok")
            if probe:
                res["probe_errs"] = [f["fn"] for f in fails]
            return res
        new = [k for k, _, _ in bad_fns if k not in forced]
        if not new:
            why = "; ".join("%s" % x[1] for x in outside[:3]) or "; ".join(x[2] for x in bad_fns[:3]) or (e[-1500:] + o[-300:])
            res.update(status="lost", why=why, fails=[], verified=0, smt_ms=0)
            return res
        log("unit %s: outside the verifier's dialect, contract assumed: %s" % (unit, ", ".join("%s (%s)" % (k, w) for k, w, _ in bad_fns if k in new)))
        forced += sorted(set(new))
    res.update(status="lost", why="too many functions outside of the dialect", fails=[], verified=0, smt_ms=0)
    return res

def load_baseline(unit):
    p = V + "/specs/baseline/%s.json" % unit
    return json.load(open(p)) if os.path.exists(p) else {}

def reach(fns, prop):
    """functions whose contracts the functions of a property rely on (by name, transitively, over all units)"""
    roots = [f for f in fns if prop in f["props"].split(",")]
    by = {}
    for f in fns:
        by.setdefault(f["key"].split("::")[-1].split("#")[0], []).append(f)
    seen, todo = set(), list(roots)
    while todo:
        f = todo.pop()
        if f["key"] in seen:
            continue
        seen.add(f["key"])
        for c in f["calls"]:
            todo += by.get(c, [])
    return seen

# ---------------------------------------------------------------- search
def search(vh, prop, secs, seed, depth, known, res, journal=None):
    out = B + "/s-%s.json" % prop
    if os.path.exists(out):
        os.remove(out)
    cmd = [vh, prop, "--secs", str(secs), "--seed", str(seed), "--depth", str(depth), "--out", out, "--threads", "8", "--repo", REPO, "--known", ",".join(known)]
    if journal:
        cmd += ["--journal", journal]
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=secs * 4 + 300, errors="replace")
        rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired:
        rc, err = -999, ""
    try:
        res.update(json.load(open(out)))
        res["ok"] = True
    except Exception:
        res.update(ok=False, rc=rc, err=err[-500:])

def crash_input(vh, prop, secs, seed, depth, known):
    jd = B + "/journal-%s" % prop
    r = {}
    search(vh, prop, secs, seed, depth, known, r, journal=jd)
    for p in sorted(glob.glob(jd + ".*")):
        rc, o, e = sh([vh, "replay", prop, p], timeout=60)
        if rc < 0 or rc > 1:
            hx = open(p).read().strip()
            return {"hex": hx, "text": bytes.fromhex(hx).decode("utf8", "replace"), "what": "the process dies (exit status %d)" % rc}
    return None

# ---------------------------------------------------------------- main
def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CFG[prop]
    os.makedirs(B, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    known = {}
    kf = V + "/known-findings.txt"
    for l in (open(kf).read().split("\n") if os.path.exists(kf) else []):
        mm = re.match(r"known: property=(C\d\d) class=(\S+) (.*)", l)
        if mm and mm.group(1) == prop:
            known[mm.group(2)] = mm.group(3)
    hres = {}
    def hthread():
        hres["vh"], hres["err"] = build_harness(c["bin"])
    th = threading.Thread(target=hthread)
    th.start()
    vx = build_vx()
    sres = {"ok": False}
    secs = c["secs"][0 if tier == "quick" else 1]
    depth = 0 if tier == "quick" else c.get("thorough_depth", 1)
    def sthread():
        th.join()
        if hres.get("vh"):
            log("search: %s for %ds" % (prop, secs))
            search(hres["vh"], prop, secs, seed, depth, known, sres)
    ts = threading.Thread(target=sthread)
    ts.start()
    units = []
    if c.get("after_build"):
        th.join()  # src/parser/parse.rs and src/reserved_words/list.rs are generated by the crate's own build script
    ures = {}
    def uthread(u):
        log("proof: unit %s" % u)
        try:
            r = run_unit(u, vx, prop, tier)
        except Exception as x:
            r = {"unit": u, "status": "lost", "why": repr(x), "fails": [], "map": {"drops": [], "fns": []}, "forced": [], "verified": 0, "smt_ms": 0}
        log("proof: unit %s: %s, %s verified, %d failed, forced %s, resource limit %s" % (u, r["status"], r.get("verified"), len(r["fails"]), r.get("forced"), r.get("rlimit")))
        ures[u] = r
    uts = [threading.Thread(target=uthread, args=(u,)) for u in c["units"]]
    for t in uts:
        t.start()
    for t in uts:
        t.join()
    units = [ures[u] for u in c["units"]]
    ts.join()
    if not (sres.get("ok") and sres.get("failure")):
        for r in units:
            if r["fails"] or r.get("rlimit"):
                confirm(r, 240 if tier == "quick" else 1200)
    vh = hres.get("vh")
    if not vh:
        log("search: the harness does not build against this tree:\n" + (hres.get("err") or "")[-1500:])
    elif sres.get("ok"):
        log("search: %d evaluations, failure: %s" % (sres["evals"], (sres.get("failure") or {}).get("what")))
    else:
        log("search died:", sres)
        if sres.get("rc", 0) != 0:
            f = crash_input(vh, prop, secs, seed, depth, known)
            if f and c.get("crash_counts", False):
                sres.update(ok=True, failure=f, evals=0, exhaustive=0, bound="", seconds=0, known=[])
    # classify proof outcome
    mine, relied, undec = [], [], []
    rel = reach([f for r in units for f in r["map"]["fns"]], prop)
    for r in units:
        if r["status"] == "lost":
            undec.append("unit %s: %s" % (r["unit"], r["why"][:600]))
            continue
        base = load_baseline(r["unit"])
        bf = base.get("fns", {})
        m = r["map"]
        names_new = set(f["key"].split("::")[-1] for f in m["fns"] if f["key"] not in bf) if bf else set()
        lostfns = {x["fn"]: x["why"] for x in m["lost"]}
        for k in r.get("forced", []):
            undec.append("%s: outside the verifier's dialect, contract assumed" % k)
        for k in [k for k in r.get("rlimit", []) if k in rel or k not in bf]:
            undec.append("%s: solver resource limit" % k)
        if m.get("errors"):
            undec.append("unit %s: items gone: %s" % (r["unit"], m["errors"][:4]))
        missing = [k for k in bf if bf[k].get("contract") and not any(f["key"] == k for f in m["fns"])]
        for k in missing:
            if prop in bf[k]["props"].split(","):
                undec.append("%s: contracted function is gone" % k)
        for f in r["fails"]:
            fm = next((x for x in m["fns"] if x["key"] == f["fn"]), None)
            want = f["tags"] or f["props"]
            why = None
            if fm:
                if f["fn"] in lostfns:
                    why = "scaffold lost: %s" % lostfns[f["fn"]]
                elif bf and f["fn"] not in bf:
                    why = "function has no contract yet"
                elif bf and bf[f["fn"]]["kinds"] != fm["kinds"]:
                    why = "loops were rewritten"
                elif set(fm["calls"]) & names_new:
                    why = "calls a function without a contract: %s" % sorted(set(fm["calls"]) & names_new)
            if prop in want or f["fn"] == "(lemma)":
                if why:
                    undec.append("%s: %s (%s)" % (f["fn"], f["what"], why))
                else:
                    mine.append(f)
            elif f["fn"] in rel:
                relied.append(f)
    for f in relied:
        undec.append("relied-upon obligation failed in %s: %s" % (f["fn"], f["what"]))
    if missing_vacuity(units, prop):
        undec.append("no obligation of this property was generated")
    fail = sres.get("failure") if sres.get("ok") else None
    if not fail and (mine or undec) and vh and not os.environ.get("VERIF_NODEEP"):
        deep = c.get("deep", 90)
        log("proof not complete (%d failed obligations, %d undecided): deeper search for %ds" % (len(mine), len(undec), deep))
        s2 = {"ok": False}
        search(vh, prop, deep, seed + 7, depth + 1, known, s2)
        if s2.get("ok"):
            fail = s2.get("failure")
            for k in ("evals", "exhaustive"):
                sres[k] = sres.get(k, 0) + s2.get(k, 0)
            sres["bound"] = s2["bound"]
    for k in (sres.get("known") or []):
        print("KNOWN-FINDING: property=%s %s" % (prop, known.get(k, k)))
    probe = None
    if tier == "thorough" and not mine and not fail:
        probe = []
        for r in units:
            if r["status"] == "ok":
                p = run_unit(r["unit"], vx, prop, tier, probe=True)
                if p["status"] == "failed":
                    got = set(p["probe_errs"])
                    want = set(f["key"] for f in p["map"]["fns"] if not f["external"] and f.get("probed"))
                    probe.append({"unit": r["unit"], "functions": len(want), "not_vacuous": len(want & got), "vacuous": sorted(want - got)})
                else:
                    probe.append({"unit": r["unit"], "status": p["status"]})
    evidence(prop, tier, seed, c, units, sres, vh, mine, undec, fail, known, probe)
    if fail or mine:
        os.makedirs(B + "/replay", exist_ok=True)
        rp = B + "/replay/%s-%d.json" % (prop, os.getpid())
        d = {"property": prop, "failing_input": fail, "failed_obligations": mine, "undecided": undec}
        if fail:
            hp = rp[:-5] + ".hex"
            open(hp, "w").write(fail["hex"] + "\n")
            d["replay_command"] = "%s replay %s %s" % (vh, prop, hp)
        json.dump(d, open(rp, "w"), indent=1)
        for f in mine[:5]:
            print("failed obligation: %s: %s\n%s" % (f["fn"], f["what"], f["rendered"]))
        if fail:
            print("failing input: %s\n  %s" % (json.dumps(fail["text"]), fail["what"]))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if fail else " no-failing-input-found"))
        sys.exit(1)
    if undec:
        print("not completely proved on this tree (bounded evidence only):")
        for u in undec:
            print("  -", u)
    print("%s holds: %s" % (prop, "every obligation discharged" if not undec else "bounded"))
    sys.exit(0)

def missing_vacuity(units, prop):
    for r in units:
        if r["status"] == "lost":
            continue
        if any(prop in f["props"].split(",") and not f["external"] and f["contract"] for f in r["map"]["fns"]) and r.get("verified", 0) > 0:
            return False
    return True

def evidence(prop, tier, seed, c, units, sres, vh, mine, undec, fail, known, probe):
    under, trusted, drops, obl, dis, smt, details = [], [], [], 0, 0, 0, []
    cmds = []
    rel = reach([f for r in units for f in r["map"]["fns"]], prop)
    proved_elsewhere = set(f["key"] for r in units if r["status"] != "lost" for f in r["map"]["fns"] if not f["external"])
    for r in units:
        m = r["map"]
        if r["status"] == "lost":
            trusted.append("unit %s not decided: %s" % (r["unit"], r.get("why", "")[:300]))
            continue
        bad = set(f["fn"] for f in r["fails"]) | set(r.get("rlimit", []))
        for f in m["fns"]:
            if f["key"] in rel:
                if f.get("imported") and f["key"] in proved_elsewhere:
                    pass  # its contract is imported here and discharged in the unit that owns it
                elif f["external"]:
                    trusted.append("assumed contract (body not verified): %s (%s)" % (f["key"], f["file"]))
                elif f["contract"]:
                    under.append(f["key"])
        # one obligation = one query group Verus sent to Z3 (a function body, a loop-free lemma, a spec termination check)
        obl += r["verified"] + r["errors"]
        dis += r["verified"]
        smt += r["smt_ms"]
        top = sorted(r.get("breakdown", []), key=lambda x: -x.get("time-micros", 0))[:8]
        details.append({"unit": r["unit"], "verified": r["verified"], "errors": r["errors"], "smt_ms": r["smt_ms"], "slowest": [[t["function"], round(t["time-micros"] / 1000)] for t in top], "forced_external": r.get("forced", [])})
        drops += m["drops"]
        for mm in re.finditer(r"assume_specification(?:<[^>]*>)?\s*\[\s*([^\]]+?)\s*\]", r["text"]):
            trusted.append("assumed specification of %s" % mm.group(1))
        for mm in re.finditer(r"#\[verifier::external_body\]\s*(?:pub\s+)?(?:proof\s+|exec\s+)?(?:fn|struct)\s+(\w+)", r["text"]):
            trusted.append("trusted: %s" % mm.group(1))
        for mm in re.finditer(r"\badmit\(\)|\bassume\(", r["text"]):
            trusted.append("assume/admit in generated text at offset %d" % mm.start())
        for mm in re.finditer(r"axiom fn (\w+)", r["text"]):
            trusted.append("axiom %s" % mm.group(1))
        cmds.append("vx specs/%s.vspec /repo && %s" % (r["unit"], r.get("cmd", "verus")))
    proof_ok = not mine and not undec
    cov = {"obligations": obl, "discharged": dis, "checker_cmd": " ; ".join(cmds) or "verus", "trusted_base": sorted(set(trusted)) + ["Verus 0.2026.09.13 + Z3, vstd", "the vx extractor (drops listed under extraction_drops)", "rustc"],
           "back_end": "Verus / Z3", "solver_ms": smt, "functions_under_contract": sorted(set(under)), "units": details, "extraction_drops": sorted(set(drops)),
           "failed_obligations": [[f["fn"], f["what"]] for f in mine], "undecided": undec,
           "search": {"label": "bounded stand-in / counterexample search, not counted as proved", "evaluations": sres.get("evals", 0), "exhaustive_cases": sres.get("exhaustive", 0), "bound": sres.get("bound", ""), "built": bool(vh)}}
    if probe is not None:
        cov["vacuity_probe"] = probe
    level = c.get("level", "proof")
    if not proof_ok:
        level = "exploration"
        cov.update(evaluations=sres.get("evals", 0), distinct_nontrivial=sres.get("exhaustive", 0), rule=sres.get("bound", "") or "none", samples=[(fail or {}).get("text", "see harness/src/props.rs")])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 1), "assumptions": c.get("assumptions", []), "violations": 1 if (fail or mine) else 0}
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)

if __name__ == "__main__":
    main()
