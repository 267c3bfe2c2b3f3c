#!/usr/bin/env python3
"""Development: confirm planted bugs in a scratch copy and write them to /verif/seeded.

usage: plant.py FILE.py [ID...]     FILE.py defines B = [dict(id, property, needs, what, edits=[(file, old, new)], demo=C++ source, flags="")]
The scratch copy /tmp/plant/repo has its own build directory _b.
"""
import json, os, runpy, shutil, stat, subprocess, sys
R = "/tmp/plant/repo"
bugs = runpy.run_path(sys.argv[1])["B"]
names = sys.argv[2:]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '''#!/bin/bash
# run with the repository as current directory: 0 = the property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
CXX=clang++-18; command -v $CXX >/dev/null || CXX=g++
$CXX -std=c++20 -O1 -g -w -mavx2 %s -I"$PWD" "$D/demo.cc" arena/*.cc -lfmt -lxxhash -lpthread -o "$T/demo" || exit 2
ulimit -c 0
timeout 120 "$T/demo"
rc=$?
rm -f "$T/demo"
rmdir "$T"
exit $rc
'''
def sh(cmd, cwd=R, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=t)
for b in bugs:
    if names and b["id"] not in names: continue
    sh("git checkout -q -- .; git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD")
    d = "/verif/seeded/" + b["id"]
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.cc", "w").write(b["demo"])
    open(d + "/demo.sh", "w").write(DEMO % b.get("flags", ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]), open(d + "/meta.json", "w"), indent=1)
    clean = sh("bash %s/demo.sh" % d)
    ok = True
    for f, old, new in b["edits"]:
        s = open(R + "/" + f).read()
        if s.count(old) != 1:
            print(b["id"], "EDIT matches", s.count(old), repr(old[:70])); ok = False; break
        open(R + "/" + f, "w").write(s.replace(old, new))
    if not ok: continue
    diff = sh("git diff").stdout
    open(d + "/patch.diff", "w").write(diff)
    build = sh("ninja -C %s/_b memory_test vb" % R)
    if build.returncode:
        print(b["id"], "BUILD FAILED", build.stdout[-1500:]); continue
    sh("python3 /opt/vp/run_doctest.py %s/_b/test/memory_test %s/_b/lines" % (R, R))
    passed = {l[5:].strip().replace("../tmp/plant/repo/", "") for l in open(R + "/_b/lines") if l.startswith("PASS ")}
    missing = sorted(stable - passed)
    dirty = sh("bash %s/demo.sh" % d)
    good = clean.returncode == 0 and dirty.returncode != 0 and not missing
    print("%-28s %s clean=%d bug=%d missing=%s %s" % (b["id"], "OK" if good else "REJECTED", clean.returncode, dirty.returncode, missing[:4],
          (clean.stdout + clean.stderr)[-600:] if clean.returncode else (dirty.stdout + dirty.stderr)[-200:].replace("\n", " | ")), flush=True)
    if not good and "-k" not in sys.argv:
        shutil.rmtree(d)
sh("git checkout -q -- .")
