#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run it after editing; both files are committed)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

I = "include/fiction/"
P = []


def prop(id, title, statement, over, text, why, files, mech, note="", observe=None, technique=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe, technique=technique))


exec(open(os.path.join(HERE, "meta_props.py")).read())

TECH = "symbolic execution of the real code (LLVM IR regenerated from /repo on every run) with SAT/SMT-decided branches and assertions"
BASE_NOTE = ("Every path within the stated bounds is explored and every assertion decided for all inputs of that path by SAT (MiniSat bit-blasting, confirmed by Z3 within a budget) or Z3; "
             "counterexamples and a sample of paths are replayed on a native g++/ASan build. Trusts clang's IR, the executor and its libstdc++ models.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier={"over": p["over"], "text": p["text"]}, why_tests_cant=p["why"],
                     anchors={"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"] or ["public API return values"], "hook_needed": None})
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    ids = set()
    for p in P:
        ids.add(p["id"])
        if p["id"] in NOT_APPLICABLE:
            na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
            continue
        pr = PROPS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"] or TECH, "level": "model_checking",
                       "level_note": BASE_NOTE + " Bounds: " + pr["bounds"] + "." + ((" " + p["note"]) if p["note"] else "")})
    missing = set(PROPS) - ids
    assert not missing, missing
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
                   "notes": "No hooks in /repo are needed: harnesses include /repo's headers directly. See DESIGN.md."}, f, indent=1)
        f.write("\n")
    design(na)
    print(len(checks), "checks,", len(na), "not applicable")



def design(na):
    import glob
    d = open(os.path.join(HERE, "design_src.md")).read()
    d = d.replace("@@NA@@", "\n".join("* **%s**: %s" % (x["property"], x["reason"]) for x in na) or "No listed property is not applicable; the areas below were left out of the list of properties.")
    out = []
    for k in json.load(open(os.path.join(HERE, "known_findings.json"))):
        if k["status"] == "fixed":
            out.append("* fixed: %s, commit `%s`: %s" % (k["property"], k["commit"], k["what"]))
        else:
            out.append("* **known finding** (not repaired): %s, entry `%s`, label \"%s\": %s" % (k["property"], k["entry"], k["label"], k["what"]))
    d = d.replace("@@FINDINGS@@", "\n".join(out))
    out = ["| bug | property | what it breaks | needs | result |", "|---|---|---|---|---|"]
    for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        j = json.load(open(m))
        out.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["what_it_breaks"].replace("|", "/").replace("\n", " "), str(j["needs"]).replace("|", "/").replace("\n", " "), j.get("result", "caught")))
    d = d.replace("@@BUGS@@", "\n".join(out))
    out = []
    for p in P:
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append(p["statement"] + "\n")
        if p["id"] in NOT_APPLICABLE:
            out.append("* *Not applicable*: %s\n" % NOT_APPLICABLE[p["id"]])
            continue
        pr = PROPS[p["id"]]
        hs = sorted(set(e["harness"] for e in pr["entries"]))
        out.append("* *Quantified over*: %s." % p["text"])
        out.append("* *Decided by*: symbolic execution of %s, harness %s, entries %s." % ("; ".join("%s (`%s`)" % (n, w) for n, w in p["mech"]), ", ".join("`harness/%s.cpp`" % h for h in hs), ", ".join(e["name"] for e in pr["entries"])))
        out.append("* *Oracle*: %s." % (pr.get("oracle") or "the definition in the statement, written out independently in the harness"))
        out.append("* *Bounds*: %s." % pr["bounds"])
        if pr.get("assumptions"):
            out.append("* *Assumptions*: %s." % "; ".join(pr["assumptions"]))
        if p["note"]:
            out.append("* *Outside*: %s" % p["note"])
        if pr.get("seconds"):
            out.append("* *Cost*: about %s s." % pr["seconds"])
        out.append("* *Beyond tests*: %s\n" % p["why"])
    d = d.replace("@@PROPERTIES@@", "\n".join(out))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(d)


main()
