#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.

A property is claimed iff harness/<id>.cpp exists; otherwise it needs a reason in NA."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "include/crocoddyl/core/"
S = "src/core/"
P = []
NA = {}


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


exec(open(os.path.join(V, "tools", "props.py")).read())

NOTE = ("Every path of the real code within the stated bounds, executed on symbolic reals; each assertion is discharged by an SMT solver for all "
        "values of the inputs, and counterexamples are replayed on the real double build before they are reported. Trusted: the scalar "
        "substitution (cross-validated against the double build on solver-chosen inputs in every run), exact-real arithmetic instead of "
        "floating-point rounding, g++ and Eigen's generic code paths, the solvers (z3, cvc5).")


def header(i):
    import re
    h = {}
    for l in open(os.path.join(V, "harness", i + ".cpp")):
        m = re.match(r"//\s*(SOURCES|BOUNDS|OUTSIDE|ASSUMES|DEFS):\s*(.*)", l)
        if m:
            h[m.group(1)] = (h.get(m.group(1), "") + " " + m.group(2)).strip()
    return h


def design(claimed):
    known = json.load(open(os.path.join(V, "known_findings.json")))
    seeded = json.load(open(os.path.join(V, "tools", "planted.json")))
    o = open(os.path.join(V, "tools", "design_head.md")).read()
    o += "## Properties\n\nGenerated from `tools/props.py` and the harness headers (`tools/gen_meta.py`).\n"
    for p in P:
        i = p["id"]
        o += "\n### %s %s\n\n%s\n\n" % (i, p["title"], p["statement"])
        if i in NA:
            o += "Not applicable: %s\n" % NA[i]
            continue
        if i not in claimed:
            continue
        h = header(i)
        o += "* Real code executed: %s\n" % ", ".join("`%s`" % f for f in p["anchors"]["files"])
        o += "* Bounds: %s\n* Outside: %s\n" % (h.get("BOUNDS", ""), h.get("OUTSIDE", "nothing further"))
        if h.get("ASSUMES"):
            o += "* Assumed: %s\n" % h["ASSUMES"]
        c = [k for k in seeded if seeded[k]["property"] == i]
        if c:
            o += "* Planted bugs: %s\n" % "; ".join("%s %s (%s)" % (k, seeded[k]["what"], seeded[k]["result"]) for k in sorted(c))
    o += "\n## Defects of /repo found\n\n"
    for k in known:
        o += "* %s, %s%s: %s\n" % (k["property"], k["status"], " in " + k["commit"] if "commit" in k else "", k["what"])
    open(os.path.join(V, "DESIGN.md"), "w").write(o)


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        for f in p["anchors"]["files"]:
            assert os.path.exists(os.path.join("/repo", f)), f
    claimed = [i for i in ids if os.path.exists(os.path.join(V, "harness", i + ".cpp")) and i not in NA]
    for i in os.listdir(os.path.join(V, "harness")):
        assert not i.endswith(".cpp") or i[:-4] in ids, i
    missing = [i for i in ids if i not in claimed and i not in NA]
    if missing:
        print("not yet built (left out):", missing)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            if p["id"] not in missing:
                f.write(json.dumps(p) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 tools/selftest.py",
        "hooks": {"guard": "VERIF_SYMBOLIC", "enable": "no source hooks were needed in /repo: the checks compile /repo's unmodified sources with the scalar type substituted through a forced include (sym/prelude.hpp)", "source_commits": []},
        "checks": [{
            "property": i,
            "quick_cmd": "./check.py %s --tier quick" % i,
            "thorough_cmd": "./check.py %s --tier thorough" % i,
            "technique": "symbolic execution of the compiled real code (all paths, symbolic reals) + SMT (z3/cvc5) per assertion, counterexample replay",
            "level": "model_checking",
            "level_note": NOTE,
        } for i in claimed],
        "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
    }
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    design(claimed)
    print("claimed %d, not applicable %d" % (len(claimed), len(m["not_applicable"])))


main()
