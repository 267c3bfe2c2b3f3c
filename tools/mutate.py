#!/usr/bin/env python3
"""Development: run the checks against mutants of a scratch copy of /repo.

usage: mutate.py FILE.py [SECONDS] [NAME...]     FILE.py defines M = [(name, "C08 C09", [(file, old, new)...]), ...]
       mutate.py --seeded [SECONDS] [ID...]   the planted bugs
Prints for every mutant, property and variant the violation found, or "quiet".
"""
import json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
if sys.argv[1] == "--seeded":  # the planted bugs
    sd = os.path.join(os.path.dirname(HERE), "seeded")
    ms = [(n, json.load(open(os.path.join(sd, n, "meta.json")))["property"], os.path.join(sd, n, "patch.diff")) for n in sorted(os.listdir(sd))]
else:
    ms = runpy.run_path(sys.argv[1])["M"]
secs = sys.argv[2] if len(sys.argv) > 2 else "8"
names = sys.argv[3:]
for name, props, edits in ms:
    if names and name not in names:
        continue
    d = "/tmp/mut/" + name
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("_build", ".git"))
    bad = False
    if isinstance(edits, str):
        bad = subprocess.run(["patch", "-s", "-p1", "-i", edits], cwd=d).returncode != 0
        edits = []
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            print(name, "EDIT: %d matches in %s: %r" % (n, f, old[:60])); bad = True; continue
        open(p, "w").write(s.replace(old, new))
    if not bad:
        code = r'''
import sys, os, shutil
sys.path.insert(0, %r)
import run
dirs = set()
for p in %r.split():
    conf = run.PROPS[p]
    for v in run.WORLDS[conf["world"]]["variants"]:
        exe = run.build(conf["world"], v); dirs.add(os.path.dirname(exe))
        out = "/tmp/mut/out-%s-" + p; os.makedirs(out, exist_ok=True)
        j = run.explore(exe, p, v, 1, float(%r), 0, out)
        x = j["violation"]
        print(%r, p, v, ("%%s ops %%d -> %%d after %%d runs %%.1f s %%s" %% (x["kind"], x["orig_ops"], x["min_ops"], j["runs"], j["wall"], x["replay"])) if x else "quiet (%%d runs)%%s" %% (j["runs"], " UNREPRODUCIBLE "+j["unreproducible_kind"] if j["unreproducible"] else ""), flush=True)
for k in dirs:
    shutil.rmtree(k, ignore_errors=True)
''' % (os.path.dirname(HERE), props, name, secs, name)
        env = dict(os.environ, SIM_REPO=d)
        r = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True)
        sys.stdout.write(r.stdout)
        if r.returncode:
            sys.stdout.write("%s ERR %s %s\n" % (name, r.stdout[-800:], r.stderr[-1500:]))
    shutil.rmtree(d, ignore_errors=True)
    sys.stdout.flush()
