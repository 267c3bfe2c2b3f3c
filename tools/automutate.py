#!/usr/bin/env python3
"""Development: mechanical mutants of the library, the ones neither the checks nor the tests notice are listed.

usage: automutate.py FILE N SEED OUT [SECS]   FILE relative to the repository, e.g. arena/arena.hpp
Every mutant is one token-level change. Order: simulate (all properties of the file's worlds, debug then ndebug); if quiet,
run the stable tests; a mutant that compiles and that nothing notices is printed with SURVIVED.
"""
import json, os, random, re, shutil, subprocess, sys
AM = os.environ.get("AM_DIR", "/tmp/am")
R = AM + "/repo"
os.environ["SIM_REPO"] = R
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run
run.BUILD = AM + "/build"
FILE, N, SEED, OUT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
SECS = float(sys.argv[5]) if len(sys.argv) > 5 else 4
WORLD = {"arena/arena.hpp": ["arena"], "arena/arena.cc": ["arena"], "arena/metrics.hpp": ["arena", "thread"], "arena/metrics.cc": ["arena", "thread"],
         "arena/arenahelper.hpp": ["arena"], "align/align.hpp": ["arena"],
         "string/string.hpp": ["string", "astring"], "string/arena_string.hpp": ["astring"], "container/stdb_vector.hpp": ["vector"],
         "optparse/optparse.hpp": ["opt"], "optparse/optparse.cc": ["opt"]}[FILE]
def sh(cmd, cwd=R, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=t)
if not os.path.exists(R):
    os.makedirs(AM, exist_ok=True)
    sh("git clone -q /repo " + R, AM)
    sh("sed -n '1,400p' /opt/vp/env.sh", "/tmp")
sh("git checkout -q -- .; git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
path = os.path.join(R, FILE)
src = open(path).read()
lines = src.split("\n")
OPS = [(r"(?<=[\w\)\]]) < (?=[\w\(])", " <= "), (r" <= ", " < "), (r"(?<=[\w\)\]]) > (?=[\w\(])", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" \+ 1\b(?!\.)", ""), (r" - 1\b(?!\.)", ""), (r"(?<=[\w\)]) \+ (?=[\w\(])", " - "), (r"(?<=[\w\)]) - (?=[\w\(])", " + "), (r" && | and ", " || "), (r" \|\| | or ", " && "),
       (r"\bif \((?!constexpr)(.*)\) (\[\[\w+\]\] )?\{", r"if (true) \2{"), (r"\bif \((?!constexpr)(.*)\) (\[\[\w+\]\] )?\{", r"if (false) \2{"),
       (r"\breturn true;", "return false;"), (r"\breturn false;", "return true;"), (r" \+= ", " -= "), (r" -= ", " += "), (r"\b0\b", "1"), (r"(?<![\w.])1\b(?![.\w])", "2"), (r"if \(not ", "if ("), (r"\(!(?=\w)", "("),
       (r"std::min", "std::max"), (r"std::max", "std::min"),
       ("STMT", ";")]
cand = []
incomment = False
for i, l in enumerate(lines):
    t = l.strip()
    if "/*" in t and "*/" not in t: incomment = True
    if incomment:
        if "*/" in t: incomment = False
        continue
    if not t or t.startswith(("//", "#", "*", "static_assert", "template", "using", "assert", "Assert", "requires", "typedef", "explicit", "friend", "namespace", "class", "struct", "public", "private")): continue
    if "assert(" in t or "static constexpr" in t or "concept" in t: continue
    code = l.split("//")[0]
    for pat, rep in OPS:
        if pat == "STMT":
            if re.match(r"^\s+[\w:\->\.\[\]\*\(]+.*\);$|^\s+[\w\.\->\[\]]+ [\+\-\|&]?= .*;$|^\s+(\+\+|--)[\w\.\->]+;$", code) and not t.startswith(("return", "throw", "case", "auto", "const ", "if", "for", "while")) and code.count("(") == code.count(")"):
                prev = lines[i - 1].strip()
                if prev and not prev.endswith((";", "{", "}", ":")): continue
                cand.append((i, l, re.match(r"^\s*", l).group(0) + ";"))
            continue
        for m in re.finditer(pat, code):
            new = code[:m.start()] + m.expand(rep) + code[m.end():]
            if "<" in m.group(0) and ("template" in code or "operator" in code): continue
            cand.append((i, l, new))
random.Random(SEED).shuffle(cand)
done = 0
out = open(OUT, "a")
def log(*a):
    print(*a, file=out, flush=True)
log("==", FILE, "candidates", len(cand), "seed", SEED)
skip = int(os.environ.get("AM_SKIP", "0"))
for i, old, new in cand[skip:skip + N]:
    ls = list(lines); ls[i] = new
    open(path, "w").write("\n".join(ls))
    what = "%s:%d  %s  ->  %s" % (FILE, i + 1, old.strip()[:110], new.strip()[:110])
    found = None
    try:
        for variant_i in (0, 1):
            for w in WORLD:
                v = run.WORLDS[w]["variants"][variant_i]
                exe = run.build(w, v)
                for p in [p for p in run.PROPS if run.PROPS[p]["world"] == w]:
                    o = AM + "/out"; os.makedirs(o, exist_ok=True)
                    j = run.explore(exe, p, v, 1, SECS, 0, o)
                    if j["violation"] or j["unreproducible"]:
                        found = (p, v, (j["violation"] or {}).get("kind", j.get("unreproducible_kind"))); break
                if found: break
            if found: break
    except SystemExit:
        log("NOBUILD ", what); continue
    except subprocess.TimeoutExpired:
        found = ("?", "?", "timeout of explore")
    finally:
        shutil.rmtree(AM + "/build", ignore_errors=True)
    if found:
        log("FOUND   ", "%s %s %s" % found, "|", what); continue
    b = sh("ninja -C %s/_b memory_test vb" % R)
    if b.returncode:
        log("TNOBUILD", what); continue
    try:
        sh("timeout 300 python3 /opt/vp/run_doctest.py %s/_b/test/memory_test %s/_b/lines" % (R, R), t=400)
        passed = {l[5:].strip().replace(".." + R + "/", "") for l in open(R + "/_b/lines") if l.startswith("PASS ")}
    except Exception as e:
        passed = set()
    missing = sorted(stable - passed)
    log("TESTS   " if missing else "SURVIVED", what, missing[:2])
sh("git checkout -q -- .")
