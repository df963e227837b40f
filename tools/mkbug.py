#!/usr/bin/env python3
"""Creates and validates a planted bug: mkbug.py FILE  where FILE defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (C++ source), FLAGS.
Works in a scratch copy of /repo; writes /verif/seeded/<ID>/ once build, stable tests and demo (both ways) are confirmed."""
import json, os, re, shutil, subprocess, sys
WT = "/tmp/wt"
def sh(c, cwd=WT, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def main():
    skip = "--notest" in sys.argv
    for f in [a for a in sys.argv[1:] if a[0] != "-"]:
        d = {"FLAGS": ""}
        exec(open(f).read(), d)
        one(d, skip)
def one(d, skip):
    if not os.path.isdir(WT):
        sh("git clone -q /repo /tmp/wt", "/")
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    out = (os.environ.get("SEEDED") or "/verif/seeded") + "/" + d["ID"]
    os.makedirs(out, exist_ok=True)
    open(out + "/demo.cpp", "w").write(d["DEMO"].lstrip())
    sh_ = """#!/bin/bash
# cwd: the repository.  Compiles the demonstration beside this script against the current tree and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
g++ -std=c++20 -O1 -w -DFMT_HEADER_ONLY -I"$PWD/include" -I"$PWD/vendors" -I"$PWD/vendors/combinations" -I"$PWD/vendors/graph-coloring/Header" %s "$here/demo.cpp" %s -o "$tmp/demo" -lpthread || { rm -r "$tmp"; exit 2; }
timeout 120 "$tmp/demo"
rc=$?
rm -r "$tmp"
exit $rc
""" % (d.get("INC", '-isystem "$here/shim"' if d.get("SHIM") else ""), d["FLAGS"])
    open(out + "/demo.sh", "w").write(sh_)
    os.chmod(out + "/demo.sh", 0o755)
    if d.get("SHIM"):  # ships the stand-ins of missing dependencies that the demonstration includes
        shutil.rmtree(out + "/shim", ignore_errors=True)
        m = sh('g++ -std=c++20 -DFMT_HEADER_ONLY -Iinclude -Ivendors -Ivendors/combinations -Ivendors/graph-coloring/Header -isystem /verif/shim -M %s/demo.cpp' % out).stdout
        need = set()
        for f in m.replace("\\\n", " ").split():
            if f.startswith(("/verif/shim/", "include/", out)):
                need |= {h for h in re.findall(r'#include [<"]([^>"]+)[>"]', open(os.path.join(WT, f)).read()) if os.path.isfile("/verif/shim/" + h)}
            if f.startswith("/verif/shim/"):
                need.add(f[len("/verif/shim/"):])
        for h in need:
            t = out + "/shim/" + h
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copy("/verif/shim/" + h, t)
    r = sh("bash %s/demo.sh" % out)
    print(d["ID"], "clean demo", r.returncode, r.stdout[-300:] if r.returncode else "")
    ok = r.returncode == 0
    for fn, old, new in d["EDITS"]:
        p = os.path.join(WT, fn)
        s = open(p).read()
        if s.count(old) != 1:
            print("  edit matches", s.count(old), "times in", fn, repr(old[:60])); ok = False
        open(p, "w").write(s.replace(old, new, 1))
    diff = sh("git diff").stdout
    open(out + "/patch.diff", "w").write(diff)
    r = sh("bash %s/demo.sh" % out)
    print("  bug demo", r.returncode, r.stdout[-200:])
    ok = ok and r.returncode == 1 or (r.returncode > 1 and d.get("CRASH"))
    # stable tests: patch /repo itself briefly (build.sh works on /repo)
    if ok and not skip:
        r = sh("git -C /repo apply %s/patch.diff && (bash /opt/vp/build.sh; bash /opt/vp/test.sh /tmp/mk.json) 2>&1 | tail -3; git -C /repo checkout -q -- ." % out)
        good = "36 passed, 0 failed" in r.stdout
        print("  tests", "ok" if good else r.stdout)
        ok = ok and good
    json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    print("  =>", "KEPT" if ok else "REJECTED")
main()
