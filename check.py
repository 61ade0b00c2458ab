#!/usr/bin/env python3
"""Runtime-monitoring checks of eProsima/xtypes.

  check.py <property> [quick|thorough]      decide one property on /repo's working tree
  check.py replay <file.json>               execute a recorded violation again
  check.py build <unit>...                  only compile (setup)
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, "work")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plans import PLANS, PROPS_META  # noqa: E402

COMMON = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-DXTYPES_EXCEPTIONS", "-D_GLIBCXX_ASSERTIONS", "-w"]
FLAVORS = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread", "-DMON_TSAN", "-DMON_NO_HOOKS"],
    "memcheck": ["-g", "-DMON_PLAIN"],
}
LINK = {"asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread", "-lpthread"], "memcheck": ["-lpthread"]}
# a report of memcheck ends the process, so that it belongs to the case being executed
PREFIX = {"memcheck": ["valgrind", "-q", "--tool=memcheck", "--leak-check=no", "--undef-value-errors=yes", "--error-exitcode=67",
                       "--exit-on-first-error=yes", "--child-silent-after-fork=no", "--num-callers=16"]}
CXX = "clang++"
SHARDS = 8


def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        files = [base] if os.path.isfile(base) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(base) for f in fs)
        for f in files:
            h.update(f.encode()); h.update(b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\1")
    return h.hexdigest()[:20]


def compile_unit(unit, flavor, key):
    out_dir = os.path.join(WORK, "obj")
    os.makedirs(out_dir, exist_ok=True)
    obj = os.path.join(out_dir, "%s-%s-%s.o" % (unit, flavor, key))
    if os.path.exists(obj):
        return obj
    for old in glob.glob(os.path.join(out_dir, "%s-%s-*" % (unit, flavor))):
        try:
            os.remove(old)
        except OSError:
            pass
    tmp = obj + ".tmp%d" % os.getpid()
    cmd = [CXX] + COMMON + FLAVORS[flavor] + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "harness", "peg"),
                                              "-c", os.path.join(VERIF, "harness", unit + ".cpp"), "-o", tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        print("BUILD-ERROR unit=%s" % unit)
        print(p.stdout.decode(errors="replace")[:6000])
        return None
    os.replace(tmp, obj)
    return obj


def build(units, flavor):
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        key0 = tree_hash([os.path.join(REPO, "include")])
        hdr = tree_hash(sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp")) + [os.path.join(VERIF, "harness", "peg", "peglib.h")]))
        jobs = {}
        for u in units:
            src = tree_hash([os.path.join(VERIF, "harness", u + ".cpp")])
            jobs[u] = hashlib.sha256((key0 + hdr + src + repr(COMMON) + repr(FLAVORS[flavor])).encode()).hexdigest()[:20]
        # longest first
        order = sorted(jobs, key=lambda u: -os.path.getsize(os.path.join(VERIF, "harness", u + ".cpp")))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda u: compile_unit(u, flavor, jobs[u]), order))
        if any(o is None for o in objs):
            return None
        exe_key = hashlib.sha256("".join(sorted(objs)).encode()).hexdigest()[:20]
        exe = os.path.join(WORK, "bin", "mon-" + exe_key)
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        if not os.path.exists(exe):
            bins = sorted(glob.glob(os.path.join(WORK, "bin", "mon-*")), key=os.path.getmtime)
            for old in bins[:-6]:
                os.remove(old)
            p = subprocess.run([CXX] + LINK[flavor] + objs + ["-o", exe + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                print("LINK-ERROR"); print(p.stdout.decode(errors="replace")[:4000])
                return None
            os.replace(exe + ".tmp", exe)
        return exe
    finally:
        lock.close()


def san_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=2048"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
    e["LC_ALL"] = "C.UTF-8"
    return e


def run_plan(exe, plan, seed, tag, limit=780, flavor="asan"):
    run_dir = os.path.join(WORK, "run", "%s-%d" % (tag, os.getpid()))
    shutil.rmtree(run_dir, ignore_errors=True)
    os.makedirs(run_dir)
    spec = ",".join("%s=%d" % kv for kv in plan.items())
    procs = []
    for s in range(SHARDS):
        procs.append(subprocess.Popen(PREFIX.get(flavor, []) + [exe, "--plan", spec, "--seed", str(seed), "--out", os.path.join(run_dir, "s%d" % s),
                                       "--shard", str(s), "--shards", str(SHARDS)],
                                      env=san_env(), cwd=run_dir, stdout=subprocess.DEVNULL, stderr=open(os.path.join(run_dir, "s%d.log" % s), "wb")))
    end = time.time() + limit
    bad = []
    for s, p in enumerate(procs):
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            rc = "timeout"
        if rc != 0:
            bad.append((s, rc, open(os.path.join(run_dir, "s%d.log" % s), errors="replace").read()[-500:]))
    viol, sums, sigs, counts = [], {"scheduled": 0, "done": 0, "nontrivial": 0, "crashes": 0, "hangs": 0}, set(), {}
    for s in range(SHARDS):
        base = os.path.join(run_dir, "s%d" % s)
        try:
            for line in open(base + ".viol", errors="replace"):
                try:
                    viol.append(json.loads(line))
                except ValueError:
                    pass
        except OSError:
            pass
        try:
            for k, v in json.load(open(base + ".sum")).items():
                sums[k] += v
        except (OSError, ValueError):
            pass
        try:
            raw = open(base + ".sig", "rb").read()
            sigs.update(struct.unpack("<%dQ" % (len(raw) // 8), raw[:len(raw) // 8 * 8]))
        except OSError:
            pass
        try:
            for line in open(base + ".cnt"):
                k, v = line.rsplit(None, 1)
                counts[k] = counts.get(k, 0) + int(v)
        except OSError:
            pass
    shutil.rmtree(run_dir, ignore_errors=True)
    return viol, sums, sigs, counts, bad


def known(prop):
    out = []
    for f in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]:
        if f["property"] == prop:
            out.append(f)
    return out


def listed_as_known(prop, v):
    return any(f["workload"] == v["workload"] and re.fullmatch(f["key"], v["key"]) for f in known(prop))


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = PLANS[prop]
    stages = [{"flavor": cfg.get("flavor", "asan"), "units": cfg["units"], "plan": cfg["plan"]}] + cfg.get("extra", [])
    rounds = 1 if tier == "quick" else cfg.get("rounds", 6)
    factor = 1 if tier == "quick" else cfg.get("factor", 4)
    viol, sums, sigs, counts, bad = [], {}, set(), {}, []
    exes, probes = {}, []
    for st in stages:
        fl, units = st["flavor"], ["runner"] + st.get("units", cfg["units"])
        exe = build(units, fl)
        if exe is None:
            print("ERROR property=%s the harness does not build against the tree" % prop)
            return 2
        exes[fl] = exe
        if st is stages[0]:
            listed = subprocess.run([exe, "--list"], env=san_env(), stdout=subprocess.PIPE).stdout.decode().split()
            probes = [w for w in listed if any(w.startswith("probe_" + p) for p in cfg.get("probes", [prop.lower() + "_"]))]
    for rnd in range(rounds):
        for st in stages:
            plan = {}
            if rnd == 0 and st is stages[0]:
                for p in probes:
                    plan[p] = 1
            for w, n in st["plan"].items():
                plan[w] = n * factor
            v, s, g, c, b = run_plan(exes[st["flavor"]], plan, seed if rnd == 0 else seed * 1000003 + rnd, prop, 780 if tier == "quick" else 3000, st["flavor"])
            for x in v:
                x["flavor"] = st["flavor"]
            if st is not stages[0]:
                s = {st["flavor"] + "." + k: x for k, x in s.items()} | {"scheduled": s.get("scheduled", 0), "done": s.get("done", 0), "crashes": s.get("crashes", 0), "hangs": s.get("hangs", 0)}
                c = {st["flavor"] + "." + k: x for k, x in c.items()}
            viol += v; sigs |= g; bad += b
            for k, x in s.items():
                sums[k] = sums.get(k, 0) + x
            for k, x in c.items():
                counts[k] = counts.get(k, 0) + x
        if [x for x in viol if x["kind"] != "note" and not listed_as_known(prop, x)]:
            break
    executed = sums["done"]
    exe, flavor = exes[stages[0]["flavor"]], stages[0]["flavor"]
    kinds = cfg.get("kinds")
    notes = [v for v in viol if v["kind"] == "note"]
    viol = [v for v in viol if v["kind"] != "note" and (kinds is None or v["kind"] in kinds or v["workload"].startswith("probe_"))]
    kn = known(prop)
    fresh, seen, expected = [], {}, 0
    for v in viol:
        hit = None
        for f in kn:
            if f["workload"] == v["workload"] and re.fullmatch(f["key"], v["key"]):
                hit = f
                break
        if hit:
            seen[hit["id"]] = hit
            expected += v["kind"] in ("crash", "hang")      # these end before their case does
        else:
            fresh.append(v)
    # one report per distinct key and workload
    rep, uniq = [], {}
    for v in fresh:
        k = (v["kind"], v["workload"], v["key"])
        uniq[k] = uniq.get(k, 0) + 1
        if uniq[k] == 1:
            rep.append(v)
    for f in sorted(seen.values(), key=lambda f: f["id"]):
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    rdir = os.path.join(WORK, "replay")
    if rep:
        os.makedirs(rdir, exist_ok=True)
    for i, v in enumerate(rep[:20]):
        path = os.path.join(rdir, "%s-%s-%d.json" % (prop, v["workload"], int(v["index"])))
        json.dump({"property": prop, "tier": tier, "flavor": v["flavor"], "units": cfg["units"], "base_seed": seed,
                   "violation": v, "occurrences": uniq[(v["kind"], v["workload"], v["key"])],
                   "replay": "python3 %s/check.py replay %s" % (VERIF, path)}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   [%s] %s case %s: %s" % (v["kind"], v["workload"], v["index"], v["key"]))
        print("   " + v["detail"].replace("\n", "\n   ")[:1200])
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": executed,
            "distinct_nontrivial": len(sigs),
            "rule": cfg["rule"] + " Distinct: 64-bit signatures of the generated structure (types and operations) of the cases whose monitors made at least one non-trivial observation.",
            "samples": samples(exe, cfg, seed),
            "observed_events": counts,
            "cases_scheduled": sums.get("scheduled", 0),
            "cases_nontrivial": sums.get("nontrivial", 0),
            "probes": len(probes),
            "crashes": sums.get("crashes", 0), "hangs": sums.get("hangs", 0),
            "known_findings_observed": sorted(seen),
            "executions": {k: v for k, v in sums.items() if "." in k},
            "build": {st["flavor"]: FLAVORS[st["flavor"]] for st in stages},
        },
        "assumptions": cfg.get("assumptions", ["held on the executions observed; says nothing about inputs the workloads do not generate"]),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("property=%s tier=%s cases=%d distinct=%d violations=%d wall=%.1fs" % (prop, tier, executed, len(sigs), len(fresh), wall))
    if fresh:
        return 1
    if bad or notes:
        print("ERROR shards ended abnormally: %s %s" % (bad[:3], notes[:2]))
        return 2
    # a crash or hang of a kind this property does not judge leaves its case unexecuted, which is not an error by itself
    lost = sums.get("crashes", 0) + sums.get("hangs", 0) - expected
    if lost <= 0:
        if executed + expected < sums.get("scheduled", 0) or len(sigs) < cfg.get("min_distinct", 50):
            print("ERROR too little was observed: executed %d of %d, distinct %d" % (executed, sums.get("scheduled", 0), len(sigs)))
            return 2
        missing = [m for m in cfg.get("must_see", []) if not counts.get(m)]
        if missing:
            print("ERROR events never observed: %s" % missing)
            return 2
    for f in kn:
        if f["id"] not in seen:
            print("NOTE known finding %s was not observed in this run" % f["id"])
    return 0


def samples(exe, cfg, seed):
    out = []
    for w in list(cfg["plan"])[:3]:
        try:
            p = subprocess.run([exe, "--replay", w + ":1", "--seed", str(seed)], env=san_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            out.append({"case": w + ":1", "trace": p.stdout.decode(errors="replace")[:900]})
        except subprocess.TimeoutExpired:
            out.append({"case": w + ":1", "trace": "(timeout)"})
    return out


def replay(path):
    r = json.load(open(path))
    exe = build(["runner"] + r["units"], r["flavor"])
    if exe is None:
        return 2
    v = r["violation"]
    # the case seed depends on the base seed of its round
    cfg = PLANS[r["property"]]
    seeds = [r["base_seed"]] + [r["base_seed"] * 1000003 + i for i in range(1, cfg.get("rounds", 6))]
    if r["flavor"] == "tsan":
        seeds = seeds * 40      # the schedule is not recorded: the case is executed again and again
    for s in seeds:
        p = subprocess.run(PREFIX.get(r["flavor"], []) + [exe, "--replay", "%s:%s" % (v["workload"], v["index"]), "--seed", str(s)], env=san_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        text = p.stdout.decode(errors="replace")
        if p.returncode != 0:
            print(text[-6000:])
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            return 1
    print("the recorded case holds on this tree")
    return 0


def main(argv):
    if len(argv) < 2:
        print(__doc__); return 2
    if argv[1] == "replay":
        return replay(argv[2])
    if argv[1] == "build":
        return 0 if build(argv[2:], "asan") else 2
    if argv[1] == "setup":
        os.makedirs(WORK, exist_ok=True)
        return 0 if compile_unit("runner", "asan", "setup") else 2
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return check(argv[1], tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
