#!/usr/bin/env python3
"""Plant bugs: seed.py SPEC.py [id...].  SPEC.py calls seed(id, property, edits, demo, needs, breaks[, shim=True][, src=[...]]).
For each: applies the edits in /repo, writes patch.diff, builds, runs the stable tests, runs demo.sh with and without, runs the
property's check, and always restores /repo.  Only used while developing; no check reads it."""
import json, os, shutil, subprocess, sys
V = "/verif"
R = "/repo"
only = set(sys.argv[2:])


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def seed(id, property, edits, demo, needs, breaks, shim=False, src=(), check=True, flags=""):
    if only and id not in only:
        return
    d = f"{V}/seeded/{id}"
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(demo)
    inc = "-I include -I src"
    if shim:
        os.makedirs(d + "/rapidjson", exist_ok=True)
        shutil.copy(V + "/shim/rapidjson/reader.h", d + "/rapidjson/reader.h")
        inc += ' -I "$D"'
    objs, pre = "", ""
    for s in src:
        if s == "fpconv":
            pre += 'gcc -O1 -w -c include/eosio/fpconv.c -o "$T/fpconv.o"\n'
            objs += ' "$T/fpconv.o"'
        else:
            objs += " src/%s.cpp" % s
    open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# run in /repo: exit 0 when the property holds on the demonstrated input
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
set -e
{pre}g++ -std=gnu++17 -O1 -g -w {flags} -include cstdint -include limits {inc} "$D/demo.cpp"{objs} -o "$T/demo"
timeout 120 "$T/demo"
''')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    res = {}
    r0 = sh(f"bash {d}/demo.sh", cwd=R)
    try:
        for f, a, b in edits:
            p = R + "/" + f
            t = open(p).read()
            assert t.count(a) == 1, (id, f, t.count(a), a)
            open(p, "w").write(t.replace(a, b))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        res = json.load(open("/tmp/seedtest.json"))
        r1 = sh(f"bash {d}/demo.sh", cwd=R)
        c = sh(f"python3 {V}/check.py {property} quick", cwd=V) if check else None
    finally:
        sh("git -C /repo checkout -- .")
    out = c.stdout if c else ""
    nv = [l for l in out.splitlines() if l.startswith("VIOLATION")]
    ok = r0.returncode == 0 and r1.returncode != 0
    print(f"{id} [{property}] demo {r0.returncode}/{r1.returncode} {'OK' if ok else 'BAD-DEMO'} tests {json.dumps(res)[:120]} check rc={c.returncode if c else '-'} {'CAUGHT' if c and c.returncode == 1 and nv else 'MISSED'}")
    if not ok:
        print(r0.stdout[-1500:], r1.stdout[-1500:])
    for l in out.splitlines()[:4]:
        print("     " + l[:220])
    sys.stdout.flush()


exec(open(sys.argv[1]).read())
