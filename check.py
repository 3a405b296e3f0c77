#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of the real code (engine/abisym + SAT/SMT).

usage: check.py PROPERTY [quick|thorough]

exit 0: property held on everything explored; exit 1 + VIOLATION line: a counterexample which was replayed against the
natively compiled real code; other exit codes: the check itself could not do its work.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ABIEOS_REPO", "/repo")
PID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = min(8, os.cpu_count() or 8)
T0 = time.time()
OUT = os.path.join(HERE, "out", PID)

INC = ["-I" + HERE + "/rt", "-I" + HERE + "/shim", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + HERE + "/harness"]
CXX = ["-std=gnu++17", "-include", "cstdint", "-include", "limits", "-w"]
BC = ["-O1", "-fno-pic", "-fno-pie", "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-emit-llvm", "-c"]
# only what the symbolic run decides too (out-of-bounds, dead objects, invalid bool loads); harness cflags add more to both
SAN = ["-O1", "-g1", "-fsanitize=address,bool,bounds,return,unreachable", "-fno-sanitize-recover=all", "-c"]


def fail(msg, code=2):
    print("CHECK-ERROR property=%s %s" % (PID, msg))
    sys.exit(code)


def build_engine():
    os.makedirs(HERE + "/engine/build", exist_ok=True)
    with open(HERE + "/engine/build/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["make", "-s", "-j4", "-C", HERE + "/engine"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            fail("engine build failed:\n" + r.stdout[-3000:])


def read_harness():
    src = open(os.path.join(HERE, "harness", PID + ".cpp")).read()
    d = {}
    for m in re.finditer(r"^// ([a-z-]+): (.*)$", src, re.M):
        d[m.group(1)] = (d[m.group(1)] + " " + m.group(2)) if m.group(1) in d else m.group(2)
    return src, d


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_one(args):
    cmd, out = args
    r = run(cmd + ["-o", out])
    if r.returncode:
        return (out, " ".join(cmd), r.stdout)
    return None


def main():
    src, hd = read_harness()
    tdef = ["-DVS_THOROUGH=%d" % (1 if TIER == "thorough" else 0)]
    hcf = hd.get("cflags", "").split()
    needs = hd.get("needs", "").split()
    work = tempfile.mkdtemp(prefix="vs_%s_" % PID)
    shutil.rmtree(OUT, ignore_errors=True)
    os.makedirs(OUT, exist_ok=True)
    try:
        return main2(src, hd, tdef, hcf, needs, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main2(src, hd, tdef, hcf, needs, work):
    pool = concurrent.futures.ThreadPoolExecutor(NCPU + 1)
    eng = pool.submit(build_engine)
    units = [(os.path.join(HERE, "harness", PID + ".cpp"), "h", hcf)]
    for n in needs:
        if n == "fpconv":
            units.append((REPO + "/include/eosio/fpconv.c", n, []))
        else:
            units.append((REPO + "/src/" + n + ".cpp", n, hd.get("srcflags", "").split()))
    bjobs, njobs = [], []
    for f, n, fl in units:
        cc = ["clang"] if f.endswith(".c") else ["clang++"] + CXX
        bjobs.append((cc + BC + ["-w"] + INC + tdef + fl + [f], work + "/" + n + ".bc"))
        njobs.append((cc + SAN + ["-w"] + INC + tdef + [x for x in fl if not x.startswith("-fsanitize-trap")] + [f], work + "/" + n + ".o"))
    bjobs.append((["clang++"] + CXX + BC + INC + [HERE + "/rt/rt.cpp"], work + "/rt.bc"))
    bjobs.append((["clang", "-fno-builtin"] + BC + INC + [HERE + "/rt/rt_c.c"], work + "/rtc.bc"))
    njobs.append((["clang++"] + CXX + ["-O1", "-g1", "-c"] + INC + [HERE + "/rt/replay.cpp"], work + "/replay.o"))
    bf = [pool.submit(compile_one, j) for j in bjobs]
    nf = [pool.submit(compile_one, j) for j in njobs]
    for f in bf:
        e = f.result()
        if e:
            fail("compilation to bitcode failed: %s\n%s" % (e[1], e[2][-4000:]))
    r = run(["llvm-link-18" if shutil.which("llvm-link-18") else "/usr/lib/llvm-18/bin/llvm-link", "-o", work + "/all.bc"] + [j[1] for j in bjobs])
    if r.returncode:
        fail("llvm-link failed: " + r.stdout[-2000:])
    eng.result()
    entries = re.findall(r'extern "C" void (h_\w+)\s*\(', src)
    tonly = set(hd.get("thorough-only", "").split())
    if TIER != "thorough":
        entries = [e for e in entries if e not in tonly]
    if os.environ.get("VS_ENTRIES"):
        entries = os.environ["VS_ENTRIES"].split(",")
    tlim = float(hd.get("time-" + TIER, "300" if TIER == "quick" else "3000"))
    if os.environ.get("VS_TIME"):
        tlim = float(os.environ["VS_TIME"])
    resf = work + "/res.jsonl"
    cmd = [HERE + "/engine/build/abisym", work + "/all.bc", "-o", resf, "-j", str(NCPU), "-t", str(tlim), "-seed", str(SEED), "-e", ",".join(entries)]
    cmd += ["-samples", hd.get("samples", "12"), "-cross", "400" if TIER == "quick" else "60"]
    cmd += hd.get("engine", "").split()
    if os.environ.get("VS_KEEP"):
        shutil.copy(work + "/all.bc", OUT + "/all.bc")
    t1 = time.time()
    r = run(cmd)
    tsym = time.time() - t1
    if os.environ.get("VS_KEEP"):
        shutil.copy(resf, OUT + "/res.jsonl")
    viol, paths, finds, stats, crashes, done = [], [], [], [], [], False
    if os.path.exists(resf):
        for line in open(resf, errors="replace"):
            try:
                o = json.loads(line)
            except ValueError:
                crashes.append("unparsable result line " + line[:100])
                continue
            t = o["type"]
            if t == "violation": viol.append(o)
            elif t == "path": paths.append(o)
            elif t == "finding": finds.append(o)
            elif t == "stats": stats.append(o)
            elif t == "crash": crashes.append("%s status %s" % (o.get("entry"), o.get("status")))
            elif t == "done": done = True
    if not done:
        crashes.append("engine did not finish: exit %s %s" % (r.returncode, r.stdout[-1500:]))
    # ---- native build of the same harness with the same sources
    for f in nf:
        e = f.result()
        if e:
            fail("native compilation failed: %s\n%s" % (e[1], e[2][-4000:]))
    rb = OUT + "/replay"
    r = run(["clang++", "-rdynamic", "-fsanitize=address,undefined", "-o", rb] + [j[1] for j in njobs] + ["-ldl"])
    if r.returncode:
        fail("native link failed: " + r.stdout[-3000:])

    def write_inputs(o, path):
        with open(path, "w") as f:
            f.write("entry %s\n" % o["entry"])
            for n, h in o["inputs"]:
                f.write("in %s %s\n" % (n, h))

    def replay(path):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4096", UBSAN_OPTIONS="print_stacktrace=1")
        try:
            p = subprocess.run([rb, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=env, errors="replace", text=True)
        except subprocess.TimeoutExpired:
            return 124, "", "timeout"
        return p.returncode, p.stdout, p.stderr

    # ---- validate sampled paths: the native run must make the same observations
    validated, mism = 0, []
    jobs = []
    for i, p in enumerate(paths):
        fn = work + "/p%d.in" % i
        write_inputs(p, fn)
        jobs.append((p, pool.submit(replay, fn)))
    natviol = []
    for p, fu in jobs:
        rc, so, se = fu.result()
        obs = [l[4:] for l in so.splitlines() if l.startswith("OBS ")]
        want = [("%s %s" % (n, h)) for n, h in p["observes"]]
        if rc == 0 and [x.rstrip() for x in obs] == [x.rstrip() for x in want]:
            validated += 1
        elif rc != 0 and rc != 77:
            natviol.append((p, rc, so, se))
        else:
            mism.append((p, rc, obs, want, se[-500:]))
    # ---- violations
    confirmed, unconfirmed = [], []
    for i, v in enumerate(viol):
        fn = OUT + "/violation%d.in" % i
        write_inputs(v, fn)
        rc, so, se = replay(fn)
        if rc not in (0, 77, 64, 124) or (rc == 124 and v["kind"] in ("steps", "hang")):
            with open(fn, "a") as f:
                f.write("# %s: %s\n# stack: %s\n# native exit %d\n" % (v["kind"], v["msg"], " < ".join(v["stack"][:8]), rc))
                for l in (so + se).splitlines()[:60]:
                    f.write("# " + l + "\n")
            confirmed.append((v, fn))
        else:
            unconfirmed.append((v, rc, so[-500:], se[-500:]))
    for p, rc, so, se in natviol:
        # the symbolic run completed this path, the real code fails on it: replayed, so it is a violation of the check's assertion/memory safety
        fn = OUT + "/violation_native%d.in" % len(confirmed)
        write_inputs(p, fn)
        with open(fn, "a") as f:
            f.write("# native failure on a sampled path, exit %d\n" % rc)
            for l in (so + se).splitlines()[:60]:
                f.write("# " + l + "\n")
        confirmed.append((dict(kind="native", msg=(so + se)[-300:].replace("\n", " "), entry=p["entry"], stack=[]), fn))
    # ---- vacuity
    reach, asites, inconcl, fcts = {}, {}, {}, {}
    tot = {}
    for s in stats:
        for k, v in s["reach"].items(): reach[k] = reach.get(k, 0) + v
        for k, v in s["assert_sites"].items(): asites[k] = asites.get(k, 0) + v
        for k, v in s["inconcl"].items(): inconcl[k] = inconcl.get(k, 0) + v
        for n, sz, ic in s["functions"]:
            a = fcts.setdefault(n, [sz, 0]); a[1] += ic
        for k, v in s.items():
            if isinstance(v, (int, float)) and k != "maxq": tot[k] = tot.get(k, 0) + v
    maxq = max([s["maxq"] for s in stats] + [0])
    active = "\n".join(m for m in entry_bodies(src, entries))
    labels = set(re.findall(r'vs_reach\("([^"]+)"\)', active))
    if TIER != "thorough":
        labels = {l for l in labels if not l.endswith("/T")}
    missing = sorted(labels - set(reach))
    # ---- known findings
    kf = json.load(open(HERE + "/known_findings.json"))
    listed = {k["id"]: k for k in kf["findings"] if k["property"] == PID}
    newfind = []
    seenf = set()
    for f in finds:
        if f["id"] in seenf: continue
        seenf.add(f["id"])
        if f["id"] in listed:
            print("KNOWN-FINDING: property=%s %s" % (PID, listed[f["id"]]["what"]))
        else:
            fn = OUT + "/finding_%s.in" % re.sub(r"\W", "_", f["id"])
            write_inputs(f, fn)
            newfind.append((f, fn))
    demang = demangle(list(fcts))
    mine = sorted(((demang[n], v[0], v[1]) for n, v in fcts.items() if "eosio" in n or "abieos" in n or "fpconv" in n), key=lambda x: -x[2])
    incomplete = bool(tot.get("timeout") or inconcl or tot.get("left"))
    ev = {
        "property": PID, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": int(tot.get("completed", 0) + tot.get("assumed", 0)),
            "transitions": int(tot.get("instrs", 0)),
            "traces_validated_against_impl": validated,
            "samples": [{"entry": p["entry"], "inputs": p["inputs"][:12], "observes": p["observes"][:6]} for p in paths[:6]] or ["no completed path sampled"],
            "exhaustive": (not incomplete) and not crashes,
            "explanation": "states = symbolic paths (each covers every input satisfying its path condition) decided by the solver; transitions = IR instructions executed symbolically",
            "entries": entries,
            "bounds": hd.get("bounds-" + TIER, hd.get("bounds", "")),
            "outside_bounds": hd.get("outside", ""),
            "functions_encoded": [{"name": n[:200], "ir_instructions": sz, "executed": ic} for n, sz, ic in mine[:80]],
            "functions_encoded_total": len(mine),
            "assertions_checked": int(tot.get("asserts", 0)), "assertions_by_query": int(tot.get("assert_queries", 0)),
            "assertions_by_simplification": int(tot.get("assert_const", 0)),
            "queries": int(tot.get("queries", 0)), "queries_unsat": int(tot.get("unsat", 0)), "queries_sat": int(tot.get("sat", 0)), "queries_unknown": int(tot.get("unknown", 0)),
            "external_solver_calls": int(tot.get("external", 0)), "decided_by_truth_table": int(tot.get("tables", 0)), "unsat_cross_checked_with_z3": int(tot.get("cross", 0)),
            "solver_time_s": round(tot.get("solver_time", 0) + tot.get("ext_time", 0), 3), "max_query_s": maxq,
            "symbolic_wall_s": round(tsym, 2),
            "forks": int(tot.get("forks", 0)), "merged_states": int(tot.get("merged", 0)),
            "reach": reach, "assert_sites": asites, "inconclusive": inconcl,
        },
        "assumptions": [
            "clang 18 -O1 LLVM IR of the current /repo sources (plus shim/rapidjson for the missing submodule) is what is executed; engine/abisym's semantics, cross-checked by native ASan/UBSan replays of sampled paths",
            "libstdc++.so internals modelled in rt/ (exceptions, red-black tree); memory allocation succeeds within the engine's limits",
        ] + ([hd["assume"]] if "assume" in hd else []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(confirmed) + len(newfind),
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    tmp = HERE + "/evidence/.%s.tmp" % PID
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, HERE + "/evidence/%s.json" % PID)
    print("%s %s: %d paths (%d assumed away), %d asserts (%d by query), %d queries, solver %.1fs, sym %.1fs, merged %d, validated %d/%d, wall %.1fs" % (
        PID, TIER, tot.get("completed", 0), tot.get("assumed", 0), tot.get("asserts", 0), tot.get("assert_queries", 0), tot.get("queries", 0),
        tot.get("solver_time", 0) + tot.get("ext_time", 0), tsym, tot.get("merged", 0), validated, len(paths), time.time() - T0))
    rc = 0
    for v, fn in confirmed:
        print("  counterexample in %s: %s: %s" % (v["entry"], v["kind"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (PID, fn))
        rc = 1
    for f, fn in newfind:
        print("  unlisted finding %s in %s" % (f["id"], f["entry"]))
        print("VIOLATION property=%s replay=%s" % (PID, fn))
        rc = 1
    for k, n in inconcl.items():
        print("INCOMPLETE property=%s %s (x%d)" % (PID, k, n))
    if tot.get("timeout"):
        print("INCOMPLETE property=%s time budget of %.0f s exhausted with %d states pending" % (PID, tlim, tot.get("left", 0)))
    for v, c, so, se in unconfirmed:
        print("UNCONFIRMED property=%s %s: %s: %s (native exit %s) inputs %s stack %s" % (PID, v["entry"], v["kind"], v["msg"], c, json.dumps(v["inputs"])[:600], v["stack"][:6]))
    for m in mism[:5]:
        print("TRACE-MISMATCH property=%s %s rc=%s native=%s symbolic=%s inputs=%s %s" % (PID, m[0]["entry"], m[1], m[2][:6], m[3][:6], json.dumps(m[0]["inputs"])[:400], m[4]))
    if rc:
        return rc
    if crashes:
        fail("engine failure: %s" % "; ".join(crashes[:4]), 3)
    if unconfirmed or mism:
        fail("symbolic result not confirmed by the real code", 4)
    if missing:
        fail("never reached: %s" % ", ".join(missing), 5)
    if not asites:
        fail("no assertion was reached", 5)
    return 0


def entry_bodies(src, entries):
    parts = re.split(r'(?=extern "C" void h_\w+\s*\()', src)
    yield parts[0]
    for p in parts[1:]:
        n = re.match(r'extern "C" void (h_\w+)', p).group(1)
        if n in entries:
            yield p


def demangle(names):
    p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    o = p.stdout.split("\n")
    return {n: (o[i] if i < len(o) else n) for i, n in enumerate(names)}


if __name__ == "__main__":
    sys.exit(main())
