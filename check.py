#!/usr/bin/env python3
"""Runs the check of one property: builds its harness against the current /repo tree in several configurations,
runs the seeded search in each, replays any failure three times, and writes evidence/<id>.json.

usage: check.py ID [--only SUBSTR] [--configs a,b | --use a,b] [--scale X]
exit:  0 held on everything explored; 1 VIOLATION (line printed); 2 the check itself could not run
"""
import argparse, fcntl, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from configs import PROPERTIES, CONFIGS  # noqa: E402

ASSUMPTIONS = [
    "g++ 13 and clang 18, libstdc++, xsimd and Eigen are trusted",
    "floating-point oracles allow the rounding bound stated in the harness; deviations below it are not seen",
    "sampled inputs: absence of violations outside the explored cases is not established",
]


def cpu_has(flag):
    try:
        with open("/proc/cpuinfo") as f:
            for line in f:
                if line.startswith("flags"):
                    return flag in line.split()
    except OSError:
        pass
    return False


def compile_all(pid, src, names, bdir, parts):
    """Compiles every (configuration, part) translation unit in parallel, then links."""
    procs = []
    for name in names:
        cfg = CONFIGS[name]
        for part in range(parts):
            obj = os.path.join(bdir, f"{name}.{part}.o")
            cmd = [cfg["cxx"], "-std=c++20", "-w", f"-DPBT_PART={part}", f"-DPBT_PARTS={parts}"] + cfg["flags"] + [
                "-I", os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3",
                "-I", os.path.join(HERE, "harness"), "-c", src, "-o", obj]
            log = open(obj + ".log", "w")
            procs.append((name, obj, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT), log))
    bad = set()

    def report(name, path):
        print(f"BUILD-ERROR property={pid} config={name} (see below)")
        with open(path, errors="replace") as f:
            print(f.read()[:4000])

    for name, obj, p, log in procs:
        rc = p.wait()
        log.close()
        if rc != 0:
            bad.add(name)
            report(name, obj + ".log")
    for name in names:
        if name in bad:
            continue
        cfg = CONFIGS[name]
        exe = os.path.join(bdir, name)
        objs = [o for n, o, _, _ in procs if n == name]
        with open(exe + ".log", "w") as log:
            rc = subprocess.call([cfg["cxx"]] + cfg["flags"] + objs + ["-o", exe] + cfg.get("libs", []), stdout=log, stderr=subprocess.STDOUT)
        for o in objs:
            os.unlink(o)
        if rc != 0:
            bad.add(name)
            report(name, exe + ".log")
    return bad


def fuzz(exe, adopters, bdir, replay, seed, seconds, kflag, env):
    """Coverage-guided search of every sub-check. Returns (statistics, failing configuration or None, notes)."""
    subs = []
    for line in subprocess.run([adopters[0][1], "--list"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        subs.append(line.rsplit(" ", 1)[0])
    share = max(5, min(60, int(seconds * 8 / max(1, len(subs)))))
    todo = list(range(len(subs)))
    running, stats, notes, failed = {}, [], [], None

    def start(i):
        corpus = os.path.join(bdir, f"corpus{i}")
        os.makedirs(corpus, exist_ok=True)
        e = dict(env, PBT_FUZZ_SHARED=os.path.join(bdir, f"fuzz{i}.shared"), PBT_FUZZ_SUB=str(i))
        log = open(os.path.join(bdir, f"fuzz{i}.log"), "w")
        running[i] = (subprocess.Popen([exe, f"-max_total_time={share}", f"-seed={seed * 131 + i + 1}", "-max_len=1024", "-timeout=60", "-rss_limit_mb=3000",
                                        "-use_value_profile=1", f"-artifact_prefix={bdir}/", corpus], env=e, stdout=log, stderr=subprocess.STDOUT, cwd=bdir), log)

    while todo or running:
        while todo and len(running) < 8:
            start(todo.pop(0))
        time.sleep(0.1)
        for i, (p, log) in list(running.items()):
            if p.poll() is None:
                continue
            del running[i]
            log.close()
            shared = os.path.join(bdir, f"fuzz{i}.shared")
            raw = open(shared, "rb").read(32) if os.path.exists(shared) else bytes(32)
            runs, nontrivial = int.from_bytes(raw[8:16], "little"), int.from_bytes(raw[20:24], "little")
            cov = ""
            for line in open(os.path.join(bdir, f"fuzz{i}.log"), errors="replace"):
                if " cov: " in line:
                    cov = line.split(" cov: ")[1].split()[0]
            stats.append({"sub": subs[i], "executions": runs, "nontrivial": nontrivial, "edges_covered": cov, "seconds": share})
            print(f"[fuzz] {subs[i]}: {runs} cases, {nontrivial} nontrivial, {cov} edges covered")
            if p.returncode != 0 and failed is None:
                for name, aexe in adopters:
                    r = subprocess.run([aexe, "--adopt", shared, "--replay-out", replay, "--known", kflag, "--case-cpu", str(CONFIGS[name]["case_cpu"])], env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                    if r.returncode == 1:
                        print(f"[fuzz] adopted by {name}: " + r.stdout.rstrip())
                        failed = name
                        break
                else:
                    tail = open(os.path.join(bdir, f"fuzz{i}.log"), errors="replace").read()[-600:]
                    notes.append(f"fuzz {subs[i]}: exit {p.returncode} that no other build reproduces: {tail}")
                if failed:
                    todo.clear()
                    for q, _ in running.values():
                        q.terminate()
            shutil.rmtree(os.path.join(bdir, f"corpus{i}"), ignore_errors=True)
    return stats, failed, notes


def known_for(pid):
    path = os.path.join(HERE, "known_findings.json")
    try:
        with open(path) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == pid]
    except FileNotFoundError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--only", default="")
    ap.add_argument("--configs", default="")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--use", default="", help="configurations to use instead of the registered ones")
    args = ap.parse_args()
    pid = args.id
    prop = PROPERTIES[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()

    bdir = os.path.join(HERE, "build", pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    src = os.path.join(HERE, "harness", prop["src"])
    names = [c for c in prop[tier] if not args.configs or c in args.configs.split(",")]
    names = args.use.split(",") if args.use else names
    names = [c for c in names if "needs_cpu" not in CONFIGS[c] or cpu_has(CONFIGS[c]["needs_cpu"])]
    bad = compile_all(pid, src, names, bdir, prop.get('parts', 1))
    if names[0] in bad:
        sys.exit(2)
    names = [c for c in names if c not in bad]
    t_build = time.time() - t0

    known = known_for(pid)
    open_known = [k for k in known if k["status"] == "open"]
    kflag = ",".join(k["id"] for k in open_known)

    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:max_allocation_size_mb=2048:malloc_fill_byte=190:max_malloc_fill_size=65536:allocator_may_return_null=0:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=0:exitcode=98"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:report_signal_unsafe=0:die_after_fork=0:suppressions=" + os.path.join(HERE, "tsan.supp")
    violation = None
    replays_needed = prop.get("replays_needed", 3)
    fuzz_stats = []
    results = []
    inconclusive = [f"{name}: this configuration did not build" for name in sorted(bad)]
    for ci, name in enumerate(names):
        cfg = CONFIGS[name]
        exe = os.path.join(bdir, name)
        if "fuzz_seconds" in cfg:
            replay = os.path.join(rdir, f"{pid}-fuzz-{tier}-{seed}.replay")
            adopters = [(n, os.path.join(bdir, n)) for n in ("asan", "plain", "clang") if n in names]
            fuzz_stats, failed, notes = fuzz(exe, adopters, bdir, replay, seed, cfg["fuzz_seconds"], kflag, env)
            inconclusive += notes
            if failed:
                aexe = os.path.join(bdir, failed)
                fails = sum(subprocess.run([aexe, "--replay", replay, "--known", kflag, "--case-cpu", str(CONFIGS[failed]["case_cpu"])], env=env,
                                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 1 for _ in range(3))
                if fails >= replays_needed:
                    violation = (failed, replay)
                    break
                inconclusive.append(f"fuzz: failure replayed only {fails}/3 times")
            continue
        out = os.path.join(bdir, name + ".json")
        replay = os.path.join(rdir, f"{pid}-{name}-{tier}-{seed}.replay")
        if os.path.exists(replay):
            os.unlink(replay)
        scale = cfg["scale"] * args.scale * prop.get("quick_scale", 1.0) * (prop.get("thorough_scale", 12.0) if tier == "thorough" else 1.0)
        limit = (prop.get("thorough_seconds", 420) if tier == "thorough" else prop.get("quick_seconds", 240)) * cfg["time_share"]
        cmd = [exe, "--seed", str((seed * 16 + ci) % 2**63), "--scale", repr(scale), "--max-seconds", repr(limit), "--case-cpu",
               str(cfg["case_cpu"]), "--out", out, "--replay-out", replay, "--known", kflag]
        if args.only:
            cmd += ["--only", args.only]
        attempts = 0
        while True:
            attempts += 1
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            print(f"[{name}] " + p.stdout.rstrip().replace("\n", f"\n[{name}] "))
            if p.returncode == 3 and attempts < 2:
                continue
            break
        if p.returncode in (0, 1, 3) and os.path.exists(out):
            with open(out) as f:
                results.append((name, json.load(f)))
        if p.returncode == 1:
            fails = 0
            for _ in range(3):
                r = subprocess.run([exe, "--replay", replay, "--known", kflag, "--case-cpu", str(cfg["case_cpu"])], env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                fails += r.returncode == 1
                if results and results[-1][1].get("failure") and "hang" in results[-1][1]["failure"]["kind"] and fails:
                    fails = 3
                    break
            if fails >= replays_needed:
                violation = (name, replay)
                break
            inconclusive.append(f"{name}: failure replayed only {fails}/3 times")
        elif p.returncode == 3:
            inconclusive.append(f"{name}: a worker died in a way that did not reproduce")
        elif p.returncode != 0:
            print(f"HARNESS-ERROR property={pid} config={name} rc={p.returncode}")
            sys.exit(2)

    # Probes of recorded findings: still failing?
    found_lines = []
    if open_known and names and not violation:
        for k in open_known:
            exe = os.path.join(bdir, names[0] if k.get("config") not in names else k["config"])
            r = subprocess.run([exe, "--replay", os.path.join(HERE, "findings", k["probe"])], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode == 1:
                found_lines.append(f"KNOWN-FINDING: property={pid} {k['id']} {k['what']}")

    # Evidence.
    ev = nt = checks = discarded = excluded = truncated = 0
    rules, samples, per, labels = [], [], [], {}
    for name, r in results:
        for s in r["subs"]:
            ev += s["evaluations"]
            nt += s["distinct_nontrivial"] if name == results[0][0] else 0
            checks += s["oracle_checks"]
            discarded += s["discarded"]
            excluded += s["excluded_known"]
            truncated += s["truncated"]
            per.append({"config": name, "sub": s["name"], "evaluations": s["evaluations"], "distinct_nontrivial": s["distinct_nontrivial"],
                        "discarded": s["discarded"], "oracle_checks": s["oracle_checks"], "not_run_for_time": s["truncated"], "classes": s["labels"]})
            if name == results[0][0]:
                rules.append(f"{s['name']}: {s['rule']}")
                samples += [f"{s['name']}: {x}" for x in s["samples"][:1]]
    ev += sum(f["executions"] for f in fuzz_stats)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": nt,
            "rule": "Seeded random choice sequences decoded into cases; distinct_nontrivial counts different choice sequences of the first configuration that satisfy the sub-check's rule. " + " | ".join(rules),
            "samples": samples, "oracle_comparisons": checks, "discarded_by_generator": discarded, "excluded_known_findings": excluded,
            "not_run_for_time": truncated, "configurations": [{"name": n, "flags": CONFIGS[n]["cxx"] + " " + " ".join(CONFIGS[n]["flags"])} for n in names],
            "per_subcheck": per, "coverage_guided": fuzz_stats, "build_s": round(t_build, 1),
        },
        "assumptions": ASSUMPTIONS + prop.get("assumptions", []) + inconclusive,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for line in found_lines:
        print(line)
    for line in inconclusive:
        print("INCONCLUSIVE " + line)
    print(f"property {pid} tier {tier} seed {seed}: {ev} cases, {checks} oracle comparisons, build {t_build:.1f}s, total {time.time() - t0:.1f}s")
    for name in names:
        try:
            os.unlink(os.path.join(bdir, name))
        except OSError:
            pass
    if violation:
        name, replay = violation
        with open(replay, "a") as f:
            f.write(f"# config {name}\n")
        print(f"VIOLATION property={pid} replay={replay}")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
