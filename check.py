#!/usr/bin/env python3
"""Builds one property's harness against /repo's working tree, runs it in every
build variant, merges the evidence, and reports.

  check.py C07                    run the check (tier from --tier or VERIF_TIER)
  check.py C07 --replay FILE      run one saved case again
  check.py --build-all            setup: build every harness once
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shlex
import shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CORES = 8

sys.path.insert(0, HERE)

QUIET = ["-w"]
LENIENT = ["-Wno-error=implicit-function-declaration", "-Wno-error=implicit-int",
           "-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types"]
UB = "-fsanitize=address,signed-integer-overflow,shift,bounds,integer-divide-by-zero,vla-bound,unreachable,bool,alignment"
VARIANTS = {
    # name: (cc, lib flags, cxx, harness flags, link flags)
    "asan": ("clang", ["-O1", "-g1", "-fno-omit-frame-pointer", UB, "-fno-sanitize-recover=all",
                       "-ftrivial-auto-var-init=pattern",
                       "-fsanitize-coverage=inline-8bit-counters,trace-cmp"] + LENIENT,
             "clang++", ["-O1", "-fsanitize=address"], [UB]),
    "dbg": ("gcc", ["-O0", "-g1"], "g++", ["-O1"], []),
    "rel": ("gcc", ["-O3", "-DNDEBUG", "-ftrivial-auto-var-init=pattern"], "g++", ["-O1"], []),
    # arithmetic of a narrow counter wraps as on the machine, whatever the optimiser assumes
    "wrap": ("gcc", ["-O2", "-fwrapv"], "g++", ["-O2"], []),
    "tsan": ("clang", ["-O0", "-g1", "-fsanitize=thread"] + LENIENT, "clang++",
             ["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),
}


def die(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def lib_sources():
    r = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        r += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".c")]
    return r


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def all_files(*roots):
    r = []
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds.sort()
            r += [os.path.join(d, f) for f in sorted(fs)]
    return r


def harness_conf(prop):
    """Lines '// @key: value' at the top of the harness."""
    conf = {"variants": "asan dbg rel", "workers": "asan=4 dbg=2 rel=2 tsan=2",
            "extra_src": "", "extra_flags": "", "link": "", "level": "exploration"}
    with open(os.path.join(HERE, "props", prop + ".cpp")) as f:
        for line in f:
            m = re.match(r"// @(\w+): *(.*)", line)
            if m:
                conf[m.group(1)] = m.group(2).strip()
    return conf


def build(prop, variants, conf):
    """Returns {variant: binary}. Objects are cached by the content they are made from."""
    srcs = lib_sources()
    if not srcs:
        die("no sources under %s/src" % REPO)
    # an object depends on its own source and on everything that can be included
    everything = all_files(os.path.join(REPO, "src"), os.path.join(REPO, "auto_test"),
                           os.path.join(HERE, "engine"))
    own = (".c", ".cpp", ".cc")
    if any(re.search(rb'#\s*include\s*["<][^">]*\.(c|cc|cpp)[">]', open(f, "rb").read())
           for f in everything + glob.glob(os.path.join(HERE, "props", "*.cpp"))):
        own = ()
    src_key = tree_hash([f for f in everything if not (own and f.endswith(own))])
    jobs, objs = [], {v: [] for v in variants}
    out = os.path.join(BUILD, "obj")
    os.makedirs(out, exist_ok=True)

    def job(cmd, obj):
        jobs.append((cmd, obj))

    def key(*parts):
        return hashlib.sha256("\0".join(parts).encode()).hexdigest()[:24]

    planned = {}

    def compile_one(v, src, flags, cc, what):
        h = key(src_key, tree_hash([src]), cc, " ".join(flags), what)
        obj = os.path.join(out, h + ".o")
        objs[v].append(obj)
        if obj in planned or os.path.exists(obj):
            return
        planned[obj] = 1
        job([cc] + flags + ["-c", src], obj)

    inc = ["-I" + REPO, "-I" + os.path.join(HERE, "engine")]
    for v in variants:
        cc, lf, cxx, hf, _ = VARIANTS[v]
        for s in srcs:
            compile_one(v, s, ["-std=gnu99"] + lf + QUIET + ["-I" + REPO], cc, "lib")
        cxxf = ["-std=gnu++17"] + hf + QUIET + inc
        for s in ("pbt.cpp", "alloc.cpp"):
            compile_one(v, os.path.join(HERE, "engine", s), cxxf, cxx, "engine")
        compile_one(v, os.path.join(HERE, "props", prop + ".cpp"),
                    cxxf + shlex.split(conf["extra_flags"]), cxx, "harness")
        for s in conf["extra_src"].split():
            s = s.replace("REPO/", REPO + "/")
            compile_one(v, s, cxxf + shlex.split(conf["extra_flags"]), cxx, "extra")

    def run(j):
        cmd, obj = j
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh(cmd + ["-o", tmp])
        if r.returncode != 0:
            return (cmd, r.stdout)
        os.replace(tmp, obj)
        return None

    # the slow ones first
    jobs.sort(key=lambda j: ("props" not in j[0][-1], "engine" not in j[0][-1]))
    with cf.ThreadPoolExecutor(CORES) as ex:
        bad = [x for x in ex.map(run, jobs) if x]
    if bad:
        die("does not compile: %s\n%s" % (" ".join(bad[0][0]), bad[0][1][-3000:]))
    bins = {}

    def link(v):
        cc, lf, cxx, hf, xf = VARIANTS[v]
        b = os.path.join(BUILD, "bin", prop + "-" + v)
        os.makedirs(os.path.dirname(b), exist_ok=True)
        r = sh([cxx] + objs[v] + xf + ["-o", b, "-lm", "-lpthread"] + shlex.split(conf["link"]))
        if r.returncode != 0:
            die("does not link (%s): %s" % (v, r.stdout[-3000:]))
        return v, b

    with cf.ThreadPoolExecutor(CORES) as ex:
        for v, b in ex.map(link, variants):
            bins[v] = b
    return bins


def env_for(v):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:"
                         "handle_abort=1:detect_stack_use_after_return=1:quarantine_size_mb=16:"
                         "max_malloc_fill_size=0:symbolize=0:detect_odr_violation=0:handle_sigfpe=0:"
                         "allocation_size_too_big=0")
    e["UBSAN_OPTIONS"] = "print_stacktrace=0"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_bugs=1:die_after_fork=0"
    return e


def known_findings(prop):
    r = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) target=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3), m.group(4)))
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--variant")
    ap.add_argument("--target")
    ap.add_argument("--build-all", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    if a.build_all:
        for f in sorted(glob.glob(os.path.join(HERE, "props", "*.cpp"))):
            p = os.path.basename(f)[:-4]
            conf = harness_conf(p)
            build(p, conf["variants"].split(), conf)
        print("built")
        return 0
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    seed &= 0xFFFFFFFF
    t0 = time.time()
    conf = harness_conf(prop)
    variants = conf["variants"].split()
    if a.variant:
        variants = [a.variant]
    if a.replay:
        m = re.search(r"^variant: (\w+)", open(a.replay).read(), re.M)
        variants = [a.variant or m.group(1)]
    bins = build(prop, variants, conf)
    t_build = time.time() - t0
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work)
    try:
        if a.replay:
            v = variants[0]
            r = subprocess.run([bins[v], "--variant", v, "--replay", a.replay,
                                "--out", os.path.join(work, v)], env=env_for(v))
            return r.returncode
        return run_check(a, prop, tier, seed, conf, variants, bins, work, t0, t_build)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_check(a, prop, tier, seed, conf, variants, bins, work, t0, t_build):
    replay_dir = os.path.join(HERE, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    wk = dict(x.split("=") for x in conf["workers"].split())
    cap = float(conf.get("cap_" + tier, "150" if tier == "quick" else "600"))
    procs = {}
    for v in variants:
        cmd = [bins[v], "--variant", v, "--seed", str(seed), "--tier", tier,
               "--workers", wk.get(v, "2"), "--cap", str(cap), "--scale", str(a.scale),
               "--out", os.path.join(work, v), "--replay-dir", replay_dir]
        if a.target:
            cmd += ["--target", a.target]
        e = env_for(v)
        if a.verbose:
            e["PBT_VERBOSE"] = "1"
        procs[v] = subprocess.Popen(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                    text=True)
    fails, errors, outs = [], [], {}
    for v, p in procs.items():
        so, se = p.communicate()
        outs[v] = p.returncode
        if a.verbose or p.returncode not in (0, 1):
            sys.stderr.write(so + se)
        elif se:
            sys.stderr.write(se[-2000:])
        if p.returncode == 1:
            try:
                with open(os.path.join(work, v + ".fail")) as f:
                    path = f.readline().strip()
                    fails.append((v, path, f.readline().strip()))
            except OSError:
                errors.append("%s failed without a replay file" % v)
        elif p.returncode != 0:
            errors.append("%s ended with %s" % (v, p.returncode))
    # evidence
    evals = nontriv = 0
    targets, classes, samples, hashes = {}, {}, [], set()
    for f in sorted(glob.glob(os.path.join(work, "*.*.*"))):
        base = os.path.basename(f)
        v = base.split(".")[0]
        if base.endswith(".h"):
            data = open(f, "rb").read()
            hashes.update((base.split(".")[1] + ":").encode() + data[k:k + 8]
                          for k in range(0, len(data), 8))
            continue
        if not re.match(r"\w+\.\d+\.\d+$", base):
            continue
        try:
            d = json.load(open(f))
        except ValueError:
            continue
        evals += d["evals"]
        nontriv += d["nontrivial"]
        t = targets.setdefault(d["target"], {"evaluations": {}, "library_edges_reached": 0})
        t["evaluations"][v] = t["evaluations"].get(v, 0) + d["evals"]
        if d["cov_total"]:
            t["library_edges_reached"] = max(t["library_edges_reached"], d["cov"])
        for k, n in d["classes"].items():
            classes[k] = classes.get(k, 0) + n
        if v == variants[0]:
            for s in d["samples"]:
                if sum(x.startswith("[" + d["target"] + "]") for x in samples) < 2:
                    samples.append("[%s] %s" % (d["target"], s))
    rule = sh([bins[variants[0]], "--rule"]).stdout.strip()
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": conf["level"],
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(hashes),
            "rule": rule,
            "samples": samples[:12],
            "targets": targets,
            "classes": dict(sorted(classes.items())),
            "variants": variants,
            "workers": conf["workers"],
        },
        "assumptions": [x.strip() for x in conf.get("assume", "").split(";") if x.strip()],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    for target, key, what in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s" %
          (prop, tier, seed, evals, len(hashes), t_build, time.time() - t0))
    if fails:
        for v, path, msg in fails:
            print("  %s: %s" % (v, msg))
        print("VIOLATION property=%s replay=%s" % (prop, fails[0][1]))
        return 1
    if errors:
        print("ERROR: " + "; ".join(errors))
        return 2
    if evals == 0:
        print("ERROR: no case was run")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
