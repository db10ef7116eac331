#!/usr/bin/python3
"""Plant a bug: build /verif/seeded/<id> and confirm it.

usage (from Python): plant(id, property, needs, breaks, edits, demo)
where edits is a list of (file, old, new) and demo is C++ source.
The patch must apply, build, pass the stable tests, and make the demo fail."""
import json, os, subprocess, sys, shutil

DEMO = """#!/bin/bash
# Run with cwd /repo, after the build: 0 if the property holds, 1 if not
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export TZ=UTC GDAL_DRIVER_PATH=disable CPL_LOG=/dev/null LD_LIBRARY_PATH=$PWD/_build/out/msat
g++ -std=c++17 -g -w @CXX@ -I. -I_build/out/msat -I_build/out $(pkg-config --cflags gdal 2>/dev/null) "$here/demo.cpp" \\
    @LINK@ -o "$tmp/demo" || exit 3
cd "$tmp" || exit 3
timeout 120 ./demo
"""
LINK_MSAT = "-L_build/out/msat -lmsat -Wl,-z,lazy -Wl,--allow-shlib-undefined -Wl,--unresolved-symbols=ignore-all"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def stable():
    sh("bash /opt/vp/test.sh /tmp/plant.json > /tmp/plant.log 2>&1")
    ok = set(json.load(open("/tmp/plant.json"))["passed"])
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]

def plant(id, prop, needs, breaks, edits, demo, link=LINK_MSAT, cxx=""):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
    open(f"{d}/demo.cpp", "w").write(demo)
    open(f"{d}/demo.sh", "w").write(DEMO.replace("@LINK@", link).replace("@CXX@", cxx))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    try:
        r = sh("bash /opt/vp/build.sh"); assert r.returncode == 0
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        if r.returncode != 0:
            print(id, "DEMO FAILS ON CLEAN TREE", r.returncode, r.stdout[-1500:]); return False
        for f, old, new in edits:
            s = open("/repo/" + f).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open("/repo/" + f, "w").write(s.replace(old, new))
        open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        # only original lines may be changed
        for l in changed_lines(): print("  NOT ORIGINAL:", l)
        r = sh("bash /opt/vp/build.sh")
        if r.returncode != 0: print(id, "BUILD FAILS", r.stdout[-1500:]); return False
        bad = stable()
        if bad: print(id, "TESTS FAIL", bad); return False
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        if r.returncode in (0, 3): print(id, "DEMO DOES NOT FAIL", r.returncode, r.stdout[-800:]); return False
        print(id, "ok: demo", r.returncode, r.stdout[-200:].strip())
        return True
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")

def changed_lines():
    import re
    out = sh("git -C /repo diff -U0").stdout
    f = None; res = []
    for l in out.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("-") and not l.startswith("---"):
            orig = sh(f"git -C /repo show a81b16f:{f}").stdout.splitlines()
            if l[1:] not in orig: res.append(l[1:])
    return res
