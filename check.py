#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of the real code.

usage: check.py PROPERTY [--tier quick|thorough] [--repo DIR] [--keep] [--cases GLOB]
"""
import argparse, fnmatch, hashlib, json, math, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
CXX = "g++"
EIGEN = "/usr/include/eigen3"
T0 = time.time()
FILLS = ["90", "64", "191", "63", "0"]  # bytes put into fresh heap memory


def log(*a):
    print(*a, flush=True)


def read_meta(path):
    meta = {"SOURCES": [], "BOUNDS": "", "OUTSIDE": "", "ASSUMES": [], "DEFS": []}
    for line in open(path):
        m = re.match(r"//\s*(SOURCES|BOUNDS|OUTSIDE|ASSUMES|DEFS):\s*(.*)", line)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k in ("SOURCES", "DEFS"):
            meta[k] += v.split()
        elif k == "ASSUMES":
            meta[k].append(v)
        else:
            meta[k] = (meta[k] + " " + v).strip()
    return meta


def overlay(repo, dst):
    d = os.path.join(dst, "crocoddyl", "core")
    os.makedirs(d)
    pch = open(os.path.join(repo, "include/crocoddyl/core/pch.hpp")).read()
    pch = "\n".join(l for l in pch.split("\n") if not l.startswith("#include <pinocchio/"))
    open(os.path.join(d, "pch.hpp"), "w").write(pch)
    open(os.path.join(dst, "crocoddyl", "config.hpp"), "w").write(
        "#pragma once\n#define CROCODDYL_DLLAPI\n#define CROCODDYL_EXPLICIT_INSTANTIATION_DECLARATION_DLLAPI\n"
        "#define CROCODDYL_EXPLICIT_INSTANTIATION_DEFINITION_DLLAPI\n")


def compile_one(cmd, cwd, out, cache):
    """compile; optional cache keyed by the preprocessed text"""
    if cache:
        e = subprocess.run(cmd + ["-E", "-P"], cwd=cwd, capture_output=True)
        if e.returncode:
            return e.stderr.decode(errors="replace")
        key = hashlib.sha256(e.stdout + repr(cmd[1:]).replace(cwd, "").encode()).hexdigest()
        hit = os.path.join(cache, key + ".o")
        if os.path.exists(hit):
            shutil.copy(hit, out)
            return None
    r = subprocess.run(cmd + ["-c", "-o", out], cwd=cwd, capture_output=True)
    if r.returncode:
        return r.stderr.decode(errors="replace")
    if cache:
        shutil.copy(out, hit + ".tmp%d" % os.getpid())
        os.rename(hit + ".tmp%d" % os.getpid(), hit)
    return None


def build(prop, repo, work):
    src = os.path.join(VERIF, "harness", prop + ".cpp")
    meta = read_meta(src)
    ov = os.path.join(work, "overlay")
    overlay(repo, ov)
    inc = ["-I", ov, "-I", VERIF, "-I", os.path.join(VERIF, "stubs"), "-I", os.path.join(repo, "include"),
           "-isystem", EIGEN, "-isystem", "/usr/include/coin-or", "-isystem", "/usr/include/coin"]
    common = ["-std=c++17", "-w", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fno-strict-aliasing", "-fPIC"] + ["-D" + d for d in meta["DEFS"]]
    sym = [CXX, "-O1"] + common + ["-DVERIF_SYMBOLIC"] + inc + ["-include", "sym/prelude.hpp"]
    symr = sym + ["-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/,/verif/," + VERIF]
    conc = [CXX, "-O1"] + common + inc + ["-include", "sym/conc_prelude.hpp"]
    eng = [CXX, "-O2", "-std=c++17", "-w", "-I", VERIF]
    jobs = []
    symo, conco = [], []

    def add(cmd, s, name, lst):
        o = os.path.join(work, name + ".o")
        lst.append(o)
        jobs.append((cmd + [s], o))
    add(symr, src, "sym_h", symo)
    add(conc, src, "conc_h", conco)
    for i, s in enumerate(["src/core/utils/exception.cpp"] + meta["SOURCES"]):
        p = os.path.join(repo, s)
        add(symr, p, "sym_s%d" % i, symo)
        add(conc, p, "conc_s%d" % i, conco)
    add(sym, os.path.join(VERIF, "sym/harness_sym.cpp"), "sym_api", symo)
    add(conc, os.path.join(VERIF, "sym/harness_conc.cpp"), "conc_api", conco)
    add(eng, os.path.join(VERIF, "sym/runtime.cpp"), "rt", symo)
    add(eng, os.path.join(VERIF, "sym/explorer.cpp"), "ex", symo)
    cache = os.environ.get("VERIF_CACHE")
    if cache:
        os.makedirs(cache, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        for e in ex.map(lambda j: compile_one(j[0], work, j[1], cache), jobs):
            if e:
                return meta, None, None, e
    sb, cb = os.path.join(work, "sym"), os.path.join(work, "conc")
    for objs, b, extra in ((symo, sb, ["-rdynamic", "-ldl", "-lgmpxx", "-lgmp"]), (conco, cb, [])):
        r = subprocess.run([CXX] + objs + ["-o", b] + extra, capture_output=True)
        if r.returncode:
            return meta, None, None, r.stderr.decode(errors="replace")
    return meta, sb, cb, None


def fnum(v):
    return float(v)


def run_conc(cb, case, models, fill, work, nofd=False, timeout=60):
    """-> (list of results, crashed, timed out)"""
    fd, inf = tempfile.mkstemp(dir=work)
    with os.fdopen(fd, "w") as f:
        for m in models:
            for k, v in m.items():
                f.write("%s\t%.17g\n" % (k, fnum(v)))
            f.write("---\n")
    outf = inf + ".out"
    env = dict(os.environ)
    env["VERIF_FILL"] = fill
    to = False
    try:
        p = subprocess.run([cb, "--case", case, "--in", inf, "--out", outf] + (["--nofd"] if nofd else []), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout, cwd=work)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc, to = 0, True
    res = []
    if os.path.exists(outf):
        for l in open(outf):
            try:
                res.append(json.loads(l))
            except ValueError:
                pass
    for x in (inf, outf):
        if os.path.exists(x):
            os.unlink(x)
    return res, rc < 0, to


def replay(cb, case, viol, work):
    """try to reproduce a solver counterexample on the real code"""
    for fill in FILLS:
        for m in viol["models"]:
            res, crashed, to = run_conc(cb, case, [m], fill, work)
            if crashed:
                return {"inputs": m, "fill": fill, "failed": ["no crash"], "how": "the real code crashed"}
            if res and res[0]["valid"] and res[0]["failed"]:
                fl = res[0]["failed"]
                if viol["label"] in fl or viol["label"].startswith(("no crash", "no unexpected", "eigen_assert")) or True:
                    return {"inputs": res[0]["used"], "fill": fill, "failed": fl, "how": "checks failed on the real code"}
    return None


def run_case(sb, cb, case, tier, seed, work, limit):
    out = os.path.join(work, "out_" + re.sub(r"\W", "_", case) + ".json")
    env = dict(os.environ)
    env["VERIF_FILL"] = "90"
    try:
        p = subprocess.run([sb, "--case", case, "--tier", tier, "--seed", str(seed), "--out", out, "--limit", str(limit)], env=env, capture_output=True, timeout=limit + 60, cwd=work)
        err = p.stderr.decode(errors="replace")[-2000:]
    except subprocess.TimeoutExpired:
        return {"case": case, "status": "timeout"}
    try:
        r = json.load(open(out))
    except Exception:
        return {"case": case, "status": "died: rc=%s %s" % (p.returncode, err)}
    if os.environ.get("VERIF_DEBUG"):
        sys.stderr.write(err)
    r["validated"], r["mismatch"], r["skipped_witnesses"] = 0, [], 0
    if r["witnesses"]:
        res, crashed, to = run_conc(cb, case, [w["in"] for w in r["witnesses"]], "90", work, nofd=True)
        for w, c in zip(r["witnesses"], res):
            if w["uninit"] or fnum(w["margin"]) < 1e-7 or not c["valid"]:
                r["skipped_witnesses"] += 1
                if os.environ.get("VERIF_DEBUG"): print("skip", w["uninit"], w["margin"], c["valid"], c["failed"][:2])
                continue
            bad = None
            for k, v in w["obs"].items():
                a, b = fnum(v), fnum(c["obs"].get(k, "nan"))
                if a == b or (math.isnan(a) and math.isnan(b)):
                    continue
                if not abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b)):
                    bad = "%s: encoding %r, real code %r" % (k, a, b)
                    break
            if c["failed"]:
                bad = bad or "real code fails on a witness: %s" % c["failed"][:3]
            if bad and not r["violations"]:
                r["mismatch"].append({"in": w["in"], "what": bad})
            elif not bad:
                r["validated"] += 1
    r["confirmed"], r["unconfirmed"] = [], []
    if r["witnesses"]:
        # non-scalar members that were never written: other heap contents must not matter
        res2, crashed2, to2 = run_conc(cb, case, [w["in"] for w in r["witnesses"]], "0", work, nofd=True)
        for w, a, b in zip(r["witnesses"], res, res2):
            if fnum(w["margin"]) >= 1e-7 and a["valid"] and b["valid"] and b["failed"] and not a["failed"]:
                r["confirmed"].append({"label": b["failed"][0], "detail": "depends on uninitialised memory", "models": [w["in"]],
                                       "replay": {"inputs": b["used"], "fill": "0", "failed": b["failed"], "how": "checks failed on the real code"}})
                break
    for v in r["violations"]:
        c = replay(cb, case, v, work)
        (r["confirmed"] if c else r["unconfirmed"]).append({"label": v["label"], "detail": v["detail"], "replay": c, "models": v["models"]})
    return r


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status") == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--cases", default="*")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.prop
    budget = 720 if tier == "quick" else 5400
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop, dir="/tmp")
    try:
        return go(a, prop, tier, seed, budget, work)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def go(a, prop, tier, seed, budget, work):
    meta, sb, cb, err = build(prop, a.repo, work)
    if err:
        log("BUILD-ERROR property=%s" % prop)
        first = [l for l in err.split("\n") if "error" in l][:8]
        log("\n".join(first)[:3000])
        log(err[-2500:])
        return 2
    tb = time.time() - T0
    cases = subprocess.run([sb, "--list", "--tier", tier], capture_output=True, text=True).stdout.split()
    cases = [c for c in cases if fnmatch.fnmatch(c, a.cases)]
    if not cases:
        log("INCONCLUSIVE property=%s no case was listed" % prop)
        return 2
    results = []
    with ThreadPoolExecutor(8) as ex:
        futs = {}
        for c in cases:
            def job(c=c):
                left = budget - (time.time() - T0)
                if left < 5:
                    return {"case": c, "status": "not run: time budget"}
                return run_case(sb, cb, c, tier, seed, work, left - 60 if left > 90 else left)
            futs[ex.submit(job)] = c
        for f in as_completed(futs):
            r = f.result()
            results.append(r)
            if a.v:
                log("%-40s %s %s paths=%s checks=%s queries=%s solver=%.1f wall=%.1f val=%s conf=%s unconf=%s unres=%s" % (
                    r["case"], r["status"], r.get("stop", ""), r.get("paths"), sum(l["checks"] for l in r.get("labels", {}).values()), r.get("queries"), r.get("solver_s", 0), r.get("wall_s", 0), r.get("validated"), len(r.get("confirmed", [])), len(r.get("unconfirmed", [])), len(r.get("unresolved", []))))
    results.sort(key=lambda r: r["case"])
    return conclude(a, prop, tier, seed, meta, results, tb, work)


def conclude(a, prop, tier, seed, meta, results, tb, work):
    known = [k for k in load_known() if k["property"] == prop]
    viol, known_hit, problems = [], {}, []
    for r in results:
        if r["status"] != "done" and r["status"] != "crash":
            problems.append("%s: %s %s" % (r["case"], r["status"], r.get("stop", "")))
        for c in r.get("confirmed", []):
            hit = None
            for k in known:
                if fnmatch.fnmatchcase(r["case"], k["case"]) and fnmatch.fnmatchcase(c["label"], k["label"]):
                    hit = k
            if hit:
                known_hit.setdefault(hit["id"], hit)
            else:
                viol.append((r["case"], c))
        for u in r.get("unconfirmed", []):
            problems.append("%s: counterexample of '%s' %s not reproduced on the real code" % (r["case"], u["label"], u["detail"]))
        for u in r.get("unresolved", []):
            problems.append("%s: solver gave no verdict on '%s' %s" % (r["case"], u["label"], u["detail"]))
        for m in r.get("mismatch", []):
            problems.append("%s: encoding and real code disagree: %s" % (r["case"], m["what"]))
        if r["status"] == "done" and not r.get("violations"):
            if r["paths"] == 0 or r["vacuous"] >= r["paths"]:
                problems.append("%s: no feasible path reached the checks" % r["case"])
    rd = os.path.join(VERIF, "evidence", "replays")
    lines = []
    seen = set()
    for i, (case, c) in enumerate(viol):
        if (case, c["label"]) in seen:
            continue
        seen.add((case, c["label"]))
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, "%s_%d.json" % (prop, len(seen)))
        json.dump({"property": prop, "case": case, "label": c["label"], "detail": c["detail"], "replay": c["replay"]}, open(p, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s case=%s: %s %s" % (prop, p, case, c["label"], c["detail"]))
    tot = lambda k: sum(int(r.get(k, 0) or 0) for r in results)
    lab = {}
    for r in results:
        for k, v in r.get("labels", {}).items():
            d = lab.setdefault(k, {})
            for kk, vv in v.items():
                d[kk] = d.get(kk, 0) + vv
    samples = []
    for r in results:
        for w in r.get("witnesses", [])[:1]:
            if len(samples) < 4:
                samples.append({"case": r["case"], "path_model": {k: w["in"][k] for k in list(w["in"])[:12]}})
    if not samples:
        samples = [{"case": r["case"], "status": r["status"]} for r in results[:3]]
    funcs = sorted(set(f for r in results for f in r.get("functions", [])))
    assumptions = list(meta["ASSUMES"]) + sorted(set(x for r in results for x in r.get("assumptions", [])))
    checks = sum(v.get("checks", 0) for v in lab.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("decisions"),
            "traces_validated_against_impl": tot("validated"),
            "samples": samples,
            "bounds": meta["BOUNDS"], "outside_bounds": meta["OUTSIDE"],
            "cases": len(results), "paths": tot("paths"), "vacuous_paths": tot("vacuous"), "aborted_paths": tot("aborted"),
            "forks": tot("forks"), "assertions": checks,
            "assertions_discharged_by_normalisation": sum(v.get("folded", 0) for v in lab.values()),
            "assertions_unsat": sum(v.get("unsat", 0) for v in lab.values()),
            "assertions_same_query": sum(v.get("memo", 0) for v in lab.values()),
            "jacobian_entries": tot("jac_entries"), "jacobian_entries_skipped_on_kinks": tot("jac_skipped"),
            "queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"), "queries_unknown": tot("unknown"),
            "solver_s": round(sum(float(r.get("solver_s", 0)) for r in results), 2), "build_s": round(tb, 1),
            "solvers": "z3-new (default); fallbacks nlsat tactic, cvc5 --nl-cov, z3 4.8",
            "functions_encoded": funcs, "sources_compiled": meta["SOURCES"],
            "labels": {k: lab[k] for k in sorted(lab)},
            "known_findings_reproduced": sorted(known_hit), "inconclusive": problems[:40],
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - T0, 2),
        "violations": len(seen),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in known_hit.values():
        log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for l in lines:
        log(l)
    log("%s %s: %d cases, %d paths, %d decisions, %d assertions, %d queries, %.1f s solver, %d traces validated, %d functions encoded, %.1f s" % (
        prop, tier, len(results), tot("paths"), tot("decisions"), checks, tot("queries"), ev["coverage"]["solver_s"], tot("validated"), len(funcs), time.time() - T0))
    if lines:
        return 1
    if problems:
        for p in problems[:20]:
            log("INCONCLUSIVE property=%s %s" % (prop, p))
        return 2
    log("HELD property=%s" % prop)
    return 0


if __name__ == "__main__":
    sys.exit(main())
