#!/usr/bin/env python3
"""Builds /repo's working tree with one harness and lets it explore its state space exhaustively.

usage: run.py <property id>           (tier taken from VERIF_TIER, default quick)
       run.py <property id> --replay <file>
       run.py --build-all             (setup: compile every harness once, to see that the framework builds)
"""
import concurrent.futures, glob, hashlib, json, os, resource, subprocess, sys, sysconfig, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED") or 1)
CXX = "/usr/bin/g++"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def numpy_include():
    for c in ["/usr/lib/python3/dist-packages/numpy/core/include", "/usr/lib/python3/dist-packages/numpy/_core/include"]:
        if os.path.isdir(c):
            return c
    return None


def digest(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fd:
            h.update(fd.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def sources():
    src = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True) + glob.glob(REPO + "/src/**/*.cc", recursive=True))
    inc = sorted(p for e in ("hpp", "h", "hh", "tpp", "ipp", "inl") for d in ("include", "src") for p in glob.glob(f"{REPO}/{d}/**/*.{e}", recursive=True))
    return src, inc


def build(cid, sanitize):
    """compile the library sources of the working tree and the harness into one program"""
    meta = json.load(open(f"{VERIF}/checks/checks.json"))[cid]
    shadow = meta.get("shadow_plot", False)
    harness = f"{VERIF}/checks/{meta['harness']}"
    src, inc = sources()
    py_inc = sysconfig.get_paths()["include"]
    inc_flags = (["-include", VERIF + "/shadow/numpy_once.hpp"] if shadow else []) + ["-I" + REPO + "/include", "-isystem", "/usr/include/eigen3", "-isystem", py_inc]
    if numpy_include():
        inc_flags += ["-isystem", numpy_include()]
    base = ["-O2", "-w", "-pthread", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-fno-fast-math", "-ffp-contract=off"]
    if sanitize:
        base += ["-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    base += meta.get("cflags", [])
    mine = sorted(glob.glob(VERIF + "/mc/*.hpp") + glob.glob(VERIF + "/checks/*.hpp") + glob.glob(VERIF + "/shadow/**/*.hpp", recursive=True))
    os.makedirs(BUILD, exist_ok=True)
    jobs, objs = [], []
    for f in [harness] + src:
        std = "-std=gnu++17" if f == harness else "-std=gnu++14"
        flags = [std] + base + inc_flags + (["-I" + VERIF + "/mc", "-DVERIF_HARNESS"] if f == harness else [])
        key = digest([f] + inc + (mine if f == harness or shadow else []), " ".join(flags))
        obj = f"{BUILD}/{os.path.basename(f)}.{key}.o"
        objs.append(obj)
        if not os.path.exists(obj):
            jobs.append((flags, f, obj))

    def compile_(job):
        flags, f, obj = job
        tmp = f"{obj}.{os.getpid()}.tmp"
        r = sh([CXX] + flags + ["-c", f, "-o", tmp])
        if r.returncode:
            return f"{f}:\n{r.stdout}"
        os.rename(tmp, obj)
        return None

    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        errs = [e for e in ex.map(compile_, jobs) if e]
    if errs:
        print("cannot compile:\n" + "\n".join(errs)[-6000:])
        sys.exit(3)
    exe = f"{BUILD}/{cid}.{hashlib.sha256(' '.join(objs + meta.get("ldflags", [])).encode()).hexdigest()[:16]}" + (".san" if sanitize else "")
    if not os.path.exists(exe):
        ver = sysconfig.get_config_var("LDVERSION") or "3.12"
        libdir = sysconfig.get_config_var("LIBDIR") or "/usr/lib"
        tmp = f"{exe}.{os.getpid()}.tmp"
        r = sh([CXX] + [x for x in base if x != "-fsanitize=thread"] + objs + ["-o", tmp] + ["-L" + libdir, f"-lpython{ver}", "-ldl", "-lm"] + meta.get("ldflags", []))
        if r.returncode:
            print("cannot link:\n" + r.stdout[-6000:])
            sys.exit(3)
        os.rename(tmp, exe)
    return exe


def findings(cid):
    """known findings and fixed defects; returns the keys of the findings recorded (not repaired) for this property"""
    keys = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("known: property=" + cid + " "):
                continue
            rest = line.split(" ", 2)[2]
            k, _, text = rest.partition(" ")
            keys[k.partition("=")[2]] = text
    return keys


def environment():
    env = dict(os.environ)
    env.update(LC_ALL="C.UTF-8", MPLBACKEND="Agg", VERIF_TIER=TIER)
    env.update(PYTHONPATH=VERIF + "/shadow/py", PYTHONDONTWRITEBYTECODE="1")
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:abort_on_error=1"
    return env


def explore(cid, exe, tier, keys):
    """run the harness over its whole bounded space"""
    out = f"{BUILD}/{cid}.{os.getpid()}.out.json"
    kf = f"{BUILD}/{cid}.{os.getpid()}.known"
    with open(kf, "w") as f:
        f.write("\n".join(keys) + "\n")
    env = environment()
    env["VERIF_TIER"] = tier
    r = subprocess.run([exe, out, kf], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    os.remove(kf)
    if not os.path.exists(out):
        print("the harness gave no result:\n" + r.stdout[-3000:])
        sys.exit(3)
    res = json.load(open(out))
    os.remove(out)
    return res


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--build-all":
        for cid in sorted(json.load(open(f"{VERIF}/checks/checks.json"))):
            build(cid, False)
        print("framework built")
        return 0
    cid = sys.argv[1]
    meta = json.load(open(f"{VERIF}/checks/checks.json"))[cid]
    t0 = time.time()
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        v = json.load(open(sys.argv[3]))
        os.environ["VERIF_TIER"] = v["tier"]
        exe = build(cid, v["sanitized"])
        env = environment()
        env["VERIF_TIER"] = v["tier"]
        if v["confirmed"] == "shard":
            kf = f"{BUILD}/none"
            open(kf, "w").close()
            cmd = [exe, "--shard", str(v["shard"]), str(v["shards"]), kf]
        else:
            cmd = [exe, "--replay", v["scenario"], ",".join(map(str, v["choices"]))]
        return subprocess.run(cmd, env=env).returncode
    keys = findings(cid)
    exe = build(cid, False)
    # thorough: the deep bounds, and the quick bounds once more with the sanitizers on
    exe_san = build(cid, True) if TIER == "thorough" and not meta.get("no_sanitize") else None
    t1 = time.time()
    # checks whose deep bounds are cheap use them on every change
    bounds = "thorough" if TIER == "thorough" or meta.get("deep") else "quick"
    res = explore(cid, exe, bounds, keys)
    phase, v = "plain", res["violation"]
    san = None
    if exe_san and v is None and not res["error"]:
        san = explore(cid, exe_san, "quick", keys)
        if san["violation"] is not None or san["error"]:
            phase, v = "sanitized", san["violation"]
            res["error"] = san["error"]
    ev = {
        "property": cid,
        "tier": TIER,
        "bounds": bounds,
        "seed": SEED,
        "level": "model_checking",
        "coverage": {
            "states": res["states"],
            "transitions": res["transitions"],
            "traces_validated_against_impl": res["executions"],
            "oracle_comparisons": res["checks"],
            "distinct_outcomes": res["outcomes"],
            "executions_per_scenario": res["scenarios"],
            "exhaustive": v is None and not res["error"],
            "rule": meta["rule"],
            "samples": res["samples"][:12],
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(t1 - t0, 2),
        "sanitizers": f"address,undefined on {san['executions']} executions (quick bounds); glibcxx and Eigen assertions everywhere" if san else "none (glibcxx and Eigen assertions on)",
        "violations": 0 if v is None else 1,
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{cid}.json", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in res["known_hit"]:
        print(f"KNOWN-FINDING: property={cid} {k} {keys.get(k, '')}")
    if res["error"]:
        print("error of the check: " + res["error"])
        return 3
    if v is not None:
        os.makedirs(REPLAYS, exist_ok=True)
        v["tier"] = "quick" if phase == "sanitized" else bounds
        v["sanitized"] = phase == "sanitized"
        v["property"] = cid
        path = f"{REPLAYS}/{cid}.json"
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
            f.write("\n")
        print(f"scenario {v['scenario']} choices {v['choices']}\n  {v['what']}\n  trace: {v['trace'][:1500]}")
        print(f"VIOLATION property={cid} replay={path}")
        return 1
    print(f"{cid} {TIER}: held on {res['executions']} executions, {res['states']} states, {res['transitions']} transitions, {res['checks']} comparisons ({ev['wall_s']} s, build {ev['build_s']} s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
