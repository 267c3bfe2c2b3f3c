#!/usr/bin/env python3
"""Entry point of every check.

  run.py setup                 build every simulator from /repo's current tree
  run.py check ID              run the check of property ID (VERIF_SEED, VERIF_TIER)
  run.py replay FILE           replay one trace in a fresh process (exit 1 when it fails)
  run.py explore ID SECONDS    development: explore only, print a summary

Everything a check needs is compiled from /repo's working tree into /verif/build (content addressed).
Exit codes: 0 held on everything explored, 1 violation (a VIOLATION line was printed), 3 error of the check.
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SIM = os.path.join(HERE, "sim")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
EXIT_ERROR = 3

COMMON = ["-std=c++20", "-g1", "-fno-omit-frame-pointer", "-Wno-everything", "-mavx2", "-I" + SIM]
ASAN = ["-fsanitize=address", "-DSIM_CLOCK"]
WRAP = ["-Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=calloc,--wrap=malloc_usable_size,--wrap=clock_gettime"]
VARIANTS = {
    # assertions on, as in the repository's default build
    "debug": dict(flags=["-O1"] + ASAN, link=["-fsanitize=address"] + WRAP),
    # release semantics: NDEBUG changes the string layout (SSO) and the fast paths
    "ndebug": dict(flags=["-O2", "-DNDEBUG"] + ASAN, link=["-fsanitize=address"] + WRAP),
}
# wide characters: several bytes per character; char16_t has no streams
for _b in ("debug", "ndebug"):
    for _n, _d in (("w", ["-DSIM_CHAR=wchar_t"]), ("u", ["-DSIM_CHAR=char16_t", "-DSIM_NO_STREAMS"])):
        VARIANTS[_n + _b] = dict(VARIANTS[_b], flags=VARIANTS[_b]["flags"] + _d)
_TSYM = ("pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_tryrdlock pthread_rwlock_wrlock "
         "pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_spin_lock pthread_spin_trylock pthread_spin_unlock pthread_once sched_yield "
         "nanosleep __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort memcmp bcmp strlen memchr").split()
TWRAP = WRAP + ["-Wl," + ",".join("--wrap=" + s for s in _TSYM)]
_T = ["-DSIM_CLOCK", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-builtin-memcmp"]
# the thread simulator: instrumented by the compiler, but linked with the simulator's own runtime (sim/thread_rt.cc)
VARIANTS["tdebug"] = dict(flags=["-O1"] + _T, cut_flags=["-fsanitize=thread"], link=TWRAP)
VARIANTS["tndebug"] = dict(flags=["-O2", "-DNDEBUG"] + _T, cut_flags=["-fsanitize=thread"], link=TWRAP)
# the library's own owner checks of strings on top
VARIANTS["txcheck"] = dict(flags=["-O1", "-DCROSS_THREAD_CHECKING"] + _T, cut_flags=["-fsanitize=thread"], link=TWRAP)
WORLDS = {
    "arena": dict(sources=["core.cc", "blockheap.cc", "arena_world.cc"], variants=["debug", "ndebug"]),
    "string": dict(sources=["core.cc", "blockheap.cc", "string_world.cc"], variants=["debug", "ndebug"]),
    "astring": dict(sources=["core.cc", "blockheap.cc", "astring_world.cc"], variants=["debug", "ndebug"]),
    # one translation unit per element type
    "vector": dict(sources=["vector_elem.cc -DELEM=%d" % k for k in (10, 8, 7, 4, 9, 5, 6, 0, 1, 2, 3, 11, 12, 13, 14)] + ["core.cc", "vector_world.cc"], variants=["debug", "ndebug"]),
}
WORLDS["thread"] = dict(sources=["thread_world.cc", "thread_rt.cc", "core.cc"], instrumented=["thread_world.cc"], variants=["tdebug", "tndebug", "txcheck"])
# -ftrivial-auto-var-init: a value that was never assigned does not happen to be zero
WORLDS["opt"] = dict(sources=["core.cc", "opt_world.cc"], repo=["arena", "optparse"], flags=["-ftrivial-auto-var-init=pattern"], variants=["debug", "ndebug"])
PROPS = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07"):
    PROPS[_p] = dict(world="arena", quick=20, thorough=300)
for _p in ("C10", "C11", "C12", "C19"):
    PROPS[_p] = dict(world="string", quick=20, thorough=300)
for _p in ("C14", "C15", "C16", "C17"):
    PROPS[_p] = dict(world="vector", quick=20, thorough=300)
for _p in ("C08", "C09"):
    PROPS[_p] = dict(world="thread", quick=15, thorough=300)
PROPS["C20"] = dict(world="opt", quick=20, thorough=300)
PROPS["C13"] = dict(world="astring", quick=20, thorough=300)
# strings of wide characters: searched as well, for a part of the time
for _p in ("C10", "C11", "C13", "C19"):
    PROPS[_p]["more"] = ["wndebug", "undebug"]
PROPS["C12"]["more"] = ["wdebug", "wndebug"]
MORE_SHARE = 0.3


def variants_of(prop):
    return WORLDS[PROPS[prop]["world"]]["variants"] + PROPS[prop].get("more", [])


def all_builds():
    return sorted({(PROPS[p]["world"], v) for p in PROPS for v in variants_of(p)})

RULES = {
    "arena": "a run is one seeded history of operations and faults over up to 4 arenas (sizes, block options, alignment, placement of "
             "blocks, faults, clock jumps drawn from the seed); non-trivial = the condition the property is about really occurred in it "
             "(see interesting() in the world), distinct = different event-log hash",
    "string": "a run is one seeded history of operations over up to 6 strings (lengths around every representation boundary, copies, moves, "
              "self references, all constructor/assign/append/insert/replace overloads, streams) with allocation failures, impossible sizes "
              "and failing or throwing stream buffers; non-trivial = the condition the property is about really occurred in it (see "
              "interesting() in sim/string_impl.hpp), distinct = different event-log hash",
}
RULES["vector"] = ("a run is one seeded history of operations over up to 4 vectors of one of 15 element types (trivial of several sizes, with a default that is not all zero bytes, relocatable, "
                   "move-only, copy-only, ordinary, legacy, owning handle, memory::string, giant) with allocation failures, impossible sizes or "
                   "throwing constructors; non-trivial = the condition the property is about really occurred in it (elements were shifted or "
                   "regrown, an injected failure fired, a constructor threw), distinct = different event-log hash")
RULES["thread"] = ("a run is one seeded history of 2 to 4 threads with one seeded schedule (explicit preemptions at memory accesses) and failing "
                   "allocations; non-trivial = two threads were inside an operation at the same time (C08: inside a report), distinct = different "
                   "event-log and schedule hash")
RULES["opt"] = ("a run is one seeded history over up to 3 option parsers (declarations, parses of generated argument vectors, copies, moves) with a "
                "changing environment and failing allocations; non-trivial = an injected failure fired, the environment decided a value, or a "
                "copied or moved parser parsed; distinct = different event-log hash")
RULES["astring"] = RULES["string"].replace("up to 6 strings", "up to 6 strings on 3 arenas")


def die(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(EXIT_ERROR)


def repo_sources(dirs):
    """library translation units of the repository that the simulators link"""
    return sorted(os.path.join(REPO, d, f) for d in dirs for f in os.listdir(os.path.join(REPO, d)) if f.endswith((".cc", ".cpp", ".cxx")))


def digest(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def all_inputs():
    out = []
    for d in ("align", "arena", "container", "string", "optparse"):
        for base, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            out += [os.path.join(base, f) for f in sorted(files) if f.endswith((".cc", ".cpp", ".cxx", ".hpp", ".h", ".inl", ".ipp", ".hh"))]
    out += [os.path.join(REPO, f) for f in sorted(os.listdir(REPO)) if f.endswith((".hpp", ".h"))]
    return out


def sim_inputs():
    return sorted(os.path.join(SIM, f) for f in os.listdir(SIM) if f.endswith((".cc", ".hpp")))


def build(world, variant):
    """compiles one simulator and returns the path of its executable"""
    w, v = WORLDS[world], VARIANTS[variant]
    key = digest(all_inputs() + sim_inputs(), json.dumps([world, variant, w, v, COMMON, CXX, REPO]))
    out = os.path.join(BUILD, "%s-%s-%s" % (world, variant, key))
    exe = os.path.join(out, "sim")
    if os.path.exists(exe):
        return exe
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    cut = v.get("cut_flags", [])
    jobs = []
    for s in w["sources"]:
        name, *defs = s.split()
        src = os.path.join(SIM, name)
        extra = cut if s in w.get("instrumented", []) else []
        jobs.append((src, os.path.join(tmp, re.sub(r"\W", "_", s) + ".o"), v["flags"] + defs + extra + w.get("flags", [])))
    for s in repo_sources(w.get("repo", ["arena"])):
        jobs.append((s, os.path.join(tmp, "repo_" + re.sub(r"\W", "_", os.path.basename(s)) + ".o"), v["flags"] + cut + w.get("flags", [])))

    def one(job):
        src, obj, fl = job
        p = subprocess.run([CXX] + COMMON + fl + ["-I" + REPO, "-c", src, "-o", obj], capture_output=True, text=True)
        return src, p.returncode, p.stderr

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for src, rc, err in ex.map(one, jobs):
            if rc:
                sys.stdout.write(err[:4000])
                die("cannot compile %s (%s %s)" % (src, world, variant))
    p = subprocess.run([CXX] + v["link"] + [j[1] for j in jobs] + ["-lfmt", "-lxxhash", "-lpthread", "-o", os.path.join(tmp, "sim")],
                       capture_output=True, text=True)
    if p.returncode:
        sys.stdout.write(p.stderr[:4000])
        die("cannot link the simulator %s %s" % (world, variant))
    try:
        os.rename(tmp, out)
    except OSError:  # somebody else built the same thing meanwhile
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def build_all(pairs):
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fut = {p: ex.submit(build, *p) for p in pairs}
        return {p: f.result() for p, f in fut.items()}


ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ""
for _k in ("MALLOC_PERTURB_", "LD_PRELOAD"):
    ENV.pop(_k, None)


def replay(exe, path, quiet=True):
    """one fresh process: (failed, kind, hash, text)"""
    env = dict(ENV)
    if quiet:
        env["SIM_QUIET"] = "1"
    p = subprocess.run([exe, "replay", path], capture_output=True, text=True, errors="replace", env=env, timeout=300)
    m = re.search(r"^RESULT failed=(\d) hash=(\w+) events=(\d+) step=(\d+) kind=(.*)$", p.stdout, re.M)
    if not m:
        return None
    return m.group(1) == "1", m.group(5).strip(), m.group(2), p.stdout


def trace_head(path):
    d = {}
    for line in open(path):
        w = line.split()
        if len(w) == 2 and w[0] in ("property", "world", "variant", "expect"):
            d[w[0]] = w[1]
    return d


def load_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def confirmed(exe, path):
    """a violation counts only when two fresh processes fail in exactly the same way"""
    a, b = replay(exe, path), replay(exe, path)
    return a and b and a[0] and b[0] and a[1] == b[1] and a[2] == b[2], a


def explore(exe, prop, variant, seed, secs, start, outdir, isolated=False, maxruns=0):
    res = os.path.join(outdir, "explore-%s.json" % variant)
    if os.path.exists(res):
        os.remove(res)
    cmd = [exe, "explore", "--prop", prop, "--variant", variant, "--seed", str(seed), "--time", str(secs), "--workers",
           str(os.cpu_count() or 4), "--start", str(start), "--out", outdir]
    if maxruns:
        cmd += ["--max", str(maxruns)]
    if isolated:
        cmd.append("--isolated")
    with open(os.path.join(outdir, "log-%s.txt" % variant), "wb") as log:
        p = subprocess.run(cmd, stdout=log, stderr=log, env=ENV, timeout=secs + 240)
    if p.returncode or not os.path.exists(res):
        die("the simulator %s ended with status %d" % (variant, p.returncode))
    return json.load(open(res))


def check(prop):
    t0 = time.time()
    conf = PROPS[prop]
    world = conf["world"]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs = conf["thorough"] if tier == "thorough" else conf["quick"]
    secs = float(os.environ.get("SIM_SECONDS", secs))
    outdir = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(BUILD, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    variants = variants_of(prop)
    exes = build_all([(world, v) for v in variants])
    violations, known, notes = [], [], []
    replays = 0

    # 1. recorded findings and regression traces of this property
    findings = {}
    for f in load_findings():
        if f["property"] == prop and f["status"] == "known":
            findings[os.path.join(HERE, f["replay"])] = f
    corpus = []
    cdir = os.path.join(HERE, "corpus")
    for f in sorted(os.listdir(cdir)) if os.path.isdir(cdir) else []:
        if f.startswith(prop + "-") and f.endswith(".trace"):
            corpus.append(os.path.join(cdir, f))
    for path in list(findings) + corpus:
        for v in variants:
            f = findings.get(path)
            if f and v not in f.get("variants", WORLDS[world]["variants"]):
                continue
            r = replay(exes[(world, v)], path)
            replays += 1
            if r is None:
                die("cannot replay " + path)
            if not r[0]:
                if f:
                    notes.append("the known finding %s no longer fails (%s)" % (f["id"], v))
                continue
            if f and r[1] in f["kinds"]:
                line = "KNOWN-FINDING: property=%s %s" % (prop, f["what"])
                if line not in known:
                    known.append(line)
                continue
            ok, r = confirmed(exes[(world, v)], path)
            if ok:
                violations.append(dict(kind=r[1], replay=path, variant=v, msg=r[3][:1500]))

    # 2. seeded search
    results = []
    for v in variants:
        if violations:
            break
        exe = exes[(world, v)]
        j = explore(exe, prop, v, seed, secs * (MORE_SHARE if v in conf.get("more", []) else 1), 0, outdir)
        results.append((v, j))
        if j["violation"] is None and j["unreproducible"]:
            # a failure that depends on what earlier runs left in the process: one process per run
            notes.append("failure %s needed one process per run (%s)" % (j["unreproducible_kind"], v))
            j2 = explore(exe, prop, v, seed, max(20.0, secs), 0, outdir, isolated=True)
            results.append((v + "-isolated", j2))
            if j2["violation"] is None:
                die("a failure (%s) was seen but does not reproduce in a fresh process" % j["unreproducible_kind"])
            j = j2
        if j["violation"]:
            vio = j["violation"]
            dst = os.path.join(BUILD, "replays", os.path.basename(vio["replay"]))
            shutil.copy(vio["replay"], dst)
            ok, r = confirmed(exe, dst)
            if not ok:
                die("the violation %s does not replay: %s" % (vio["kind"], dst))
            violations.append(dict(kind=r[1], replay=dst, variant=v, msg=vio["msg"], orig_ops=vio["orig_ops"], min_ops=vio["min_ops"],
                                   seed=vio["seed"]))

    # 3. evidence
    tot = lambda k: sum(j[k] for _, j in results)
    counters = {}
    for _, j in results:
        for k, n in j["counters"].items():
            counters[k] = counters.get(k, 0) + n
    wall_explore = sum(j["wall"] for _, j in results)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=int(tot("runs")) + replays,
            distinct_nontrivial=int(max([j["distinct_runs"] for _, j in results], default=0)),
            rule=RULES[world],
            samples=(results[0][1]["samples"] if results else []),
            simulated_steps=int(tot("ops")),
            simulated_seconds=tot("sim_ns") / 1e9,
            runs_per_hour=int(tot("runs") / wall_explore * 3600) if wall_explore else 0,
            seeds_per_hour=int(tot("runs") / wall_explore * 3600) if wall_explore else 0,
            nontrivial_runs=int(tot("interesting")),
            distinct_states=int(max([j["distinct_states"] for _, j in results], default=0)),
            distinct_states_measure="hash of the abstract state of the reference model after each step (per variant, the larger one)",
            faults={k: n for k, n in sorted(counters.items()) if k.startswith("fault.")},
            probes={k: n for k, n in sorted(counters.items()) if not k.startswith("fault.")},
            per_variant={v: dict(runs=j["runs"], steps=j["ops"], distinct_runs=j["distinct_runs"], distinct_states=j["distinct_states"],
                                 seconds=j["wall"]) for v, j in results},
            determinism=dict(reruns_in_process=counters.get("determinism.rerun_in_process", 0), mismatches_in_process=tot("nondeterministic"),
                             reruns_fresh_process=tot("det_fresh"), mismatches_fresh_process=tot("det_fresh_bad")),
            regression_replays=replays,
            components=(results[0][1]["components"] if results else ""),
            known_findings=known, notes=notes,
        ),
        assumptions=["the compiler, libstdc++, fmt and xxHash behave as specified", "AddressSanitizer reports the memory errors it is designed to report"],
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    if violations:
        evidence["coverage"]["violation"] = violations[0]
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    shutil.rmtree(outdir, ignore_errors=True)
    for line in known:
        print(line)
    for n in notes:
        print("note: " + n)
    print("%s: %d runs, %d steps, %d distinct non-trivial, %d states, %.0f s" %
          (prop, tot("runs"), tot("ops"), evidence["coverage"]["distinct_nontrivial"], evidence["coverage"]["distinct_states"], time.time() - t0))
    det = evidence["coverage"]["determinism"]
    if not violations and (det["mismatches_in_process"] or det["mismatches_fresh_process"]):
        print("note: determinism self-check found mismatches: %s" % det)
    if violations:
        v = violations[0]
        print("%s (%s): %s" % (v["kind"], v["variant"], v["msg"].replace("\n", " ")[:400]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        return 1
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    os.makedirs(BUILD, exist_ok=True)
    if a[0] == "setup":
        build_all(all_builds())
        return 0
    if a[0] == "check":
        return check(a[1])
    if a[0] == "replay":
        h = trace_head(a[1])
        v = h.get("variant", "debug")
        if v not in VARIANTS:
            v = "debug"
        exe = build(h["world"], v)
        r = replay(exe, a[1], quiet="-v" not in a)
        if r is None:
            die("cannot replay " + a[1])
        print(r[3][:6000])
        return 1 if r[0] else 0
    if a[0] == "explore":
        conf = PROPS[a[1]]
        out = os.path.join(BUILD, "dev-" + a[1])
        os.makedirs(out, exist_ok=True)
        for v in variants_of(a[1]):
            if len(a) > 3 and a[3][0] != "-" and v != a[3]:
                continue
            j = explore(build(conf["world"], v), a[1], v, int(os.environ.get("VERIF_SEED", "1")), float(a[2]), 0, out, "-i" in a)
            print(v, {k: j[k] for k in ("runs", "interesting", "distinct_runs", "distinct_states", "unreproducible", "unreproducible_kind",
                                        "nondeterministic", "det_fresh", "det_fresh_bad")})
            if "-c" in a:
                print(j["counters"])
            if j["violation"]:
                x = j["violation"]
                print("VIOLATION", x["kind"], x["orig_ops"], "->", x["min_ops"], x["msg"][:600])
                print("\n".join(l for l in open(x["replay"]).read().split("\n") if not l.startswith("#")))
        return 0
    die("unknown command " + a[0])


if __name__ == "__main__":
    sys.exit(main())
