#!/usr/bin/env python3
"""Decides one property of cda-tum/fiction by symbolic execution of its real code.

usage: check.py <property-id> [--tier quick|thorough] [--entry NAME] [--keep]

Compiles the property's harnesses together with /repo's current headers to LLVM IR, explores every path of every entry with
the symbolic executor in engine/ (branch feasibility and property assertions decided by SAT/SMT), replays every
counterexample and a sample of explored paths on a native g++ build of the same code, and writes evidence/<id>.json.
"""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
CLANG = "/usr/bin/clang++-18"
LINK = "/usr/bin/llvm-link-18"
GXX = "/usr/bin/g++"
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

CFLAGS = ("-std=c++20 -O1 -fwrapv -fno-pic -fno-pie -fno-strict-aliasing -fno-delete-null-pointer-checks -fno-vectorize -fno-slp-vectorize "
          "-fno-unroll-loops -ffp-contract=off -gline-tables-only -D_GLIBCXX_EXTERN_TEMPLATE=0 -w").split()
WRAP = ["-Wl,--wrap=" + s for s in ("rand", "srand", "time")]  # modelled in rt/
NFLAGS = "-std=c++20 -O0 -fwrapv -ffp-contract=off -fsanitize=address -g1 -w".split()
DEFS = ["-D_GLIBCXX_ASSERTIONS", "-DFMT_HEADER_ONLY", "-DFICTION_VX"]


def includes():
    r = ["-I" + os.path.join(HERE, "rt"), "-I" + os.path.join(HERE, "harness"), "-I" + REPO + "/include"]
    v = REPO + "/vendors"
    for d in ("combinations", "undirected_graph/source", "graph-coloring/Header", "graph-coloring/Source"):
        if os.path.isdir(os.path.join(v, d)):
            r.append("-I" + os.path.join(v, d))
    r.append("-I" + v)
    r.append("-isystem" + os.path.join(HERE, "shim"))
    return r


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)


class Fail(Exception):
    pass


def ensure_engine():
    exe = os.path.join(HERE, "build", "symx")
    r = run(["make", "-s", "-C", os.path.join(HERE, "engine"), "-j8", "OUT=../build"])
    if r.returncode != 0 or not os.path.exists(exe):
        raise Fail("engine build failed:\n" + r.stderr[-3000:])
    return exe


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    keep = "--keep" in args
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--entry" in args:
        only = args[args.index("--entry") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = PROPS[pid]
    budget = float(os.environ.get("VX_BUDGET", 780 if tier == "quick" else 10000))
    work = tempfile.mkdtemp(prefix="vx-" + pid + "-")
    rc = 2
    try:
        if "--replay" in args:
            rc = replay(P, args[args.index("--replay") + 1], work)
            return
        rc = decide(pid, P, tier, only, seed, t0, budget, work)
    except Fail as e:
        print("ERROR property=%s %s" % (pid, e))
        rc = 2
    finally:
        if keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
        sys.stdout.flush()
        sys.exit(rc)


def replay(P, path, work):
    """Runs the recorded inputs of one counterexample on a native build of the current tree."""
    head = open(path).readline()
    harness, entry = head.split("harness ")[1].split(",")[0], head.split("entry h_")[1].strip()
    e = [e for e in P["entries"] if e["name"] == entry and e["harness"] == harness][0]
    out = os.path.join(work, "native")
    wl = ["-Wl,--wrap=" + s for x in P["entries"] if x["harness"] == harness for s in x.get("stub", [])] + WRAP
    r = run([GXX, *NFLAGS, *DEFS, "-DVX_THOROUGH=0", *includes(), os.path.join(HERE, "harness", harness + ".cpp"), os.path.join(HERE, "rt", "native.cpp"),
             *[os.path.join(REPO, x) for x in e.get("extra", [])], "-o", out, "-rdynamic", "-ldl", "-lpthread", *sorted(set(wl))])
    if r.returncode:
        raise Fail(r.stderr[:2000])
    r = run([out, "h_" + entry, os.path.abspath(path)], timeout=60, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77"))
    print(r.stdout + r.stderr)
    print("native exit", r.returncode)
    return 0 if r.returncode == 0 else 1


def decide(pid, P, tier, only, seed, t0, budget, work):
    exe = ensure_engine()
    thorough = 1 if tier == "thorough" else 0
    entries = []
    for e in P["entries"]:
        if only and e["name"] != only:
            continue
        if e.get("tier") == "thorough" and not thorough:
            continue
        entries.append(e)
    units = {}
    for e in entries:
        units.setdefault(e["harness"], []).append(e)

    inc = includes()
    sym = ["-isystem" + os.path.join(HERE, "shim", "symstd")]
    tdef = ["-DVX_THOROUGH=%d" % thorough]
    jobs = {}
    pool = cf.ThreadPoolExecutor(max_workers=8)

    def compile_rt():
        out = os.path.join(work, "rt.bc")
        r = run([CLANG, *CFLAGS, "-D_GLIBCXX_ASSERTIONS", "-emit-llvm", "-c", os.path.join(HERE, "rt", "rt.cpp"), "-o", out])
        if r.returncode:
            raise Fail("rt.cpp does not compile: " + r.stderr[-2000:])
        return out

    def compile_bc(h):
        src = os.path.join(HERE, "harness", h + ".cpp")
        out = os.path.join(work, h + ".bc")
        r = run([CLANG, *CFLAGS, *DEFS, *tdef, *sym, *inc, "-emit-llvm", "-c", src, "-o", out])
        if r.returncode:
            raise Fail("harness %s does not compile against the current tree:\n%s" % (h, r.stderr[:3000]))
        outs = [out]
        for x in units[h][0].get("extra", []):
            xo = os.path.join(work, h + "." + os.path.basename(x) + ".bc")
            r = run([CLANG, *CFLAGS, *DEFS, *tdef, *sym, *inc, "-emit-llvm", "-c", os.path.join(REPO, x), "-o", xo])
            if r.returncode:
                raise Fail("%s does not compile:\n%s" % (x, r.stderr[:2000]))
            outs.append(xo)
        return outs

    def compile_native(h):
        src = os.path.join(HERE, "harness", h + ".cpp")
        out = os.path.join(work, h + ".native")
        wraps = sorted({s for e in units[h] for s in e.get("stub", [])})
        wl = ["-Wl,--wrap=" + s for s in wraps] + WRAP
        xs = [os.path.join(REPO, x) for x in units[h][0].get("extra", [])]
        r = run([GXX, *NFLAGS, *DEFS, *tdef, *inc, src, os.path.join(HERE, "rt", "native.cpp"), *xs, "-o", out, "-rdynamic", "-ldl",
                 "-lpthread", *wl])
        if r.returncode:
            raise Fail("native build of harness %s failed:\n%s" % (h, r.stderr[:3000]))
        return out

    rt = pool.submit(compile_rt)
    bcs = {h: pool.submit(compile_bc, h) for h in units}
    nat = {h: pool.submit(compile_native, h) for h in units}

    linked = {}
    for h in units:
        outs = bcs[h].result()
        l = os.path.join(work, h + ".linked.bc")
        r = run([LINK, *outs, rt.result(), "-o", l])
        if r.returncode:
            raise Fail("llvm-link failed: " + r.stderr[-2000:])
        linked[h] = l

    def explore(e, part):
        h = e["harness"]
        out = os.path.join(work, "%s.%s.%d.json" % (h, e["name"], part))
        left = budget - (time.time() - t0)
        cmd = [exe, linked[h], "--entry=h_" + e["name"], "--out=" + out, "--part=%d" % part, "--seed=%d" % seed,
               "--max-time=%d" % max(5, left), "--max-steps=%d" % e.get("max_steps", 20000000), "--max-samples=%d" % e.get("samples", 30)]
        if e.get("stub"):
            cmd.append("--stub=" + ",".join(e["stub"]))
        try:
            r = run(cmd, timeout=max(20, left + 120))
        except subprocess.TimeoutExpired:
            raise Fail("entry %s part %d: hard timeout" % (e["name"], part))
        if r.returncode or not os.path.exists(out):
            raise Fail("executor failed on entry %s (rc %d): %s" % (e["name"], r.returncode, r.stderr[-2000:]))
        res = json.load(open(out))
        res["stderr"] = r.stderr[-500:]
        return res

    futs = []
    for e in sorted(entries, key=lambda e: -e.get("cost", 1)):
        np_ = e.get("parts", 1)
        if isinstance(np_, (tuple, list)):
            np_ = np_[thorough]
        for p in range(np_):
            futs.append((e, p, pool.submit(explore, e, p)))
    results = [(e, p, f.result()) for e, p, f in futs]

    # ------------------------------------------------------------------ judge
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77")
    problems, violations, viol_unconf = [], [], []
    labels, reach = {}, {}
    for e, p, r in results:
        nm = e["name"]
        if r["timed_out"]:
            problems.append("entry %s part %d: time budget exhausted with %d paths done" % (nm, p, r["paths"]))
        for m in r["errors"]:
            problems.append("entry %s: %s" % (nm, m))
        if r.get("disagreement"):
            problems.append("entry %s: solver disagreement" % nm)
        for k, v in r["labels"].items():
            labels[(nm, k)] = labels.get((nm, k), 0) + v
        for k, v in r["reach"].items():
            reach[(nm, k)] = reach.get((nm, k), 0) + v
    def tsan(e):
        """Real threads under ThreadSanitizer, to confirm a data race found by the executor."""
        out = os.path.join(work, e["harness"] + ".tsan")
        if not os.path.exists(out):
            fl = [x.replace("address", "thread") for x in NFLAGS] + ["-DVX_REAL_THREADS"]
            r = run([GXX, *fl, *DEFS, *tdef, *inc, os.path.join(HERE, "harness", e["harness"] + ".cpp"), os.path.join(HERE, "rt", "native.cpp"),
                     *[os.path.join(REPO, x) for x in e.get("extra", [])], "-o", out, "-rdynamic", "-ldl", "-lpthread", *WRAP])
            if r.returncode:
                raise Fail("ThreadSanitizer build failed: " + r.stderr[:2000])
        return out

    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    nrep = 0
    seen = {}
    for e, p, r in results:
        for v in r["violations"]:
            key = (e["name"], v["kind"], v["label"])
            if seen.get(key, 0) >= 2:
                continue
            seen[key] = seen.get(key, 0) + 1
            nrep += 1
            path = os.path.join(rdir, "%s-%s-%d.txt" % (pid, e["name"], nrep))
            with open(path, "w") as f:
                f.write("# property %s, harness %s, entry h_%s\n# %s: %s\n# at %s\n" % (pid, e["harness"], e["name"], v["kind"], v["label"], v["where"]))
                f.write("# replay natively: python3 check.py %s --replay %s\n" % (pid, path))
                for n, k, x in v["inputs"]:
                    f.write("%s %s %s\n" % (k, x, n))
            try:
                if v["kind"] == "race":
                    exe_n = tsan(e)
                else:
                    exe_n = nat[e["harness"]].result()
                rr = run([exe_n, "h_" + e["name"], path], timeout=60, env=env)
                code, txt = rr.returncode, (rr.stdout + rr.stderr)
                if v["kind"] == "race":
                    ok = "data race" in txt
                elif v["kind"] == "check":
                    ok = code == 1 or (code not in (0, 3, 4))
                else:
                    ok = code not in (0, 3, 4)
            except subprocess.TimeoutExpired:
                code, txt = "timeout", ""
                ok = v["kind"] == "nontermination"
            with open(path, "a") as f:
                f.write("# native replay: exit %s\n" % code)
                for line in txt.splitlines()[:12]:
                    f.write("# | %s\n" % line)
            (violations if ok else viol_unconf).append((e, v, path, code))

    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("property") == pid and k.get("status") == "finding"]
    real = []
    matched = set()
    for e, v, path, code in violations:
        hit = None
        for i, k in enumerate(known):
            if k["entry"] == e["name"] and k["label"] == v["label"] and k["kind"] == v["kind"]:
                want = k.get("inputs")
                have = [[a, c] for a, b, c in v["inputs"]]
                if want is None or want == have:
                    hit = i
        if hit is None:
            real.append((e, v, path, code))
        else:
            matched.add(hit)
    violations = real

    # expected-reachable behaviour that no input reaches
    explored_all = not problems
    for (nm, k), c in sorted(reach.items()):
        if c == 0 and explored_all and not violations:
            path = os.path.join(rdir, "%s-%s-unreachable.txt" % (pid, nm))
            with open(path, "w") as f:
                f.write("# property %s entry h_%s: exhaustive exploration of all inputs within the bounds found no execution reaching '%s'\n" % (pid, nm, k))
            violations.append(({"name": nm, "harness": ""}, {"kind": "unreachable", "label": k, "where": "", "inputs": []}, path, "-"))
    for (nm, k), c in sorted(labels.items()):
        if c == 0 and not violations:
            problems.append("entry %s: check '%s' is never reached (vacuous)" % (nm, k))

    # ------------------------------------------------------------------ validate the encoding against the native build
    validated, mismatches, samples_out = 0, [], []
    def validate(e, p, r):
        exe_n = nat[e["harness"]].result()
        ss = r["samples"]
        if not ss:
            return 0, []
        fn = os.path.join(work, "batch.%s.%d.txt" % (e["name"], p))
        with open(fn, "w") as f:
            for s in ss:
                for n, k, x in s["inputs"]:
                    f.write("%s %s %s\n" % (k, x, n))
                f.write("--\n")
        try:
            rr = run([exe_n, "--batch", "h_" + e["name"], fn], timeout=600, env=env)
        except subprocess.TimeoutExpired:
            return 0, ["native validation timed out on entry " + e["name"]]
        lines = [l for l in rr.stdout.splitlines() if l.startswith("BLOCK ")]
        n, mm = 0, []
        for s, l in zip(ss, lines):
            want = "BLOCK 0" + "".join(" " + o for o in s["obs"])
            if l.strip() == want.strip():
                n += 1
            else:
                mm.append("entry %s inputs %s: symbolic %s native %s" % (e["name"], s["inputs"][:20], want[:300], l[:300]))
        if len(lines) != len(ss):
            mm.append("entry %s: native batch produced %d of %d results" % (e["name"], len(lines), len(ss)))
        return n, mm
    if not violations and not viol_unconf:
        vf = [pool.submit(validate, e, p, r) for e, p, r in results]
        for f in vf:
            n, mm = f.result()
            validated += n
            mismatches += mm
    for e, p, r in results:
        for s in r["samples"][:2]:
            if len(samples_out) < 40:
                samples_out.append({"entry": e["name"], "part": p, "inputs": [[a, c] for a, b, c in s["inputs"]][:24], "observed": s["obs"][:16],
                                    "path_constraints": s["constraints"], "instructions": s["steps"]})
    if mismatches:
        problems.append("symbolic and native executions differ: " + "; ".join(mismatches[:5]))

    tot = lambda k: sum(r[k] for _, _, r in results)
    fns = sorted({f.replace(REPO + "/", "") for _, _, r in results for f in r["functions"]})
    cov = {
        "states": tot("paths"), "transitions": tot("branches"), "traces_validated_against_impl": validated, "samples": samples_out or [{"note": "no completed path"}],
        "exhaustive": not problems, "instructions_executed": tot("instructions"), "symbolic_branch_decisions": tot("sym_branches"),
        "assertions_evaluated": tot("checks"), "assertions_decided_by_solver": tot("sym_checks"),
        "queries": {"solved": tot("queries"), "sat": tot("q_sat"), "unsat": tot("q_unsat"), "unknown": tot("q_unknown"), "cache_hits": tot("q_cache"),
                    "reused_models": tot("q_model"), "property_obligations_decided": tot("q_obligation"), "property_obligations_confirmed_by_z3": tot("q_obligation_z3"), "branch_queries_crosschecked_by_z3": tot("q_crosschecked"),
                    "oneshot_fallbacks": tot("q_fallback")},
        "solver_seconds": round(tot("solver_s"), 3), "max_query_seconds": max([r["max_query_s"] for _, _, r in results] or [0]),
        "entries": [{"entry": e["name"], "part": p, "paths": r["paths"], "pruned_by_assumption": r["infeasible"], "wall_s": r["wall_s"], "complete": r["complete"]} for e, p, r in results],
        "checks_reached": {"%s: %s" % k: v for k, v in sorted(labels.items())},
        "functions_encoded": fns[:600], "functions_encoded_count": len(fns), "bounds": P["bounds"],
    }
    for i in sorted(matched):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[i]["what"]))

    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": P.get("assumptions", []) + COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s [%s]: %d paths, %d instructions, %d queries (%.1f s solver), %d traces validated natively, %.1f s" % (
        pid, tier, tot("paths"), tot("instructions"), tot("queries"), tot("solver_s"), validated, time.time() - t0))
    for e, p, r in results:
        print("   %-28s part %d: %7d paths %10d instr %8.1f s%s" % (e["name"], p, r["paths"], r["instructions"], r["wall_s"], "" if r["complete"] else "  INCOMPLETE"))
    if violations:
        for e, v, path, code in violations[:12]:
            print("  violated: entry %s, %s: %s" % (e["name"], v["kind"], v["label"]))
            print("     inputs: " + ", ".join("%s=%s" % (a, c) for a, b, c in v["inputs"][:24]))
            print("     at " + v["where"][:400])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for e, v, path, code in viol_unconf:
        problems.append("counterexample not reproduced natively: entry %s %s '%s' (native exit %s) at %s, see %s" % (e["name"], v["kind"], v["label"], code, v["where"][:300], path))
    if problems:
        for m in problems[:20]:
            print("INCONCLUSIVE: " + m)
        # Unfinished entries (time budget, a library function without a model, checks such an entry did not get to) leave the
        # property held on everything explored; the evidence says "exhaustive": false.  Anything else means that the verdict
        # itself cannot be relied on.
        soft = all("time budget exhausted" in m or "unmodelled external function" in m or "is never reached (vacuous)" in m for m in problems)
        if not (soft and any(r["complete"] and r["paths"] for _, _, r in results)):
            return 2
    return 0


COMMON_ASSUMPTIONS = [
    "clang-18 -O1 -fwrapv code generation, the symbolic executor in engine/, its model of libstdc++.so internals (rt/rt.cpp) and Z3/MiniSat are trusted; sampled paths are re-run natively (g++ -O0, AddressSanitizer) and must agree",
    "memory allocation never fails; single-threaded execution; floating point is IEEE-754 binary64 round-to-nearest",
]

if __name__ == "__main__":
    main()
