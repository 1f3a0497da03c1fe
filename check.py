#!/usr/bin/env python3
"""Driver of every check: builds the simulators from /repo's current tree, runs the seeded search, gates and reports.

usage: check.py C01 [quick|thorough]      (VERIF_SEED, VERIF_TIER from the environment)
exit 0: the property held on everything explored; exit 1 + VIOLATION line: broken; anything else: error of the check
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")
JOBS = 8

from engines import ENGINES, CHECKS  # noqa: E402


class CheckError(Exception):
    pass


def sh(cmd, timeout=800):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for root in sorted(paths):
        if os.path.isfile(root):
            fs = [root]
        else:
            fs = sorted(os.path.join(d, f) for d, _, ff in os.walk(root) for f in ff)
        for f in fs:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h


def include_dirs(roots):
    out = []
    for r in roots:
        for d, _, _ in sorted(os.walk(r)):
            if "/CUDA/src" not in d:
                out.append("-I" + d)
    return out


def compile_one(cmd, out, key):
    """compile unless an object made from exactly the same inputs is there"""
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return
    tmp = out + ".tmp%d" % os.getpid()
    rc, log = sh(cmd + ["-o", tmp])
    if rc != 0:
        raise CheckError("compilation failed: " + " ".join(cmd[-3:]) + "\n" + log[-6000:])
    os.replace(tmp, out)
    with open(stamp, "w") as f:
        f.write(key)


def build(targets):
    """targets: set of (engine, config) -> dict to binaries"""
    os.makedirs(BUILD, exist_ok=True)
    repo_key = tree_hash([REPO + "/include", REPO + "/src", REPO + "/example"]).hexdigest()
    sim_key = tree_hash([SIM, os.path.join(VERIF, "engines.py")]).hexdigest()
    jobs, links = [], []
    seen = set()
    # objects of the long harness compilations first
    for prio in (0, 1):
        for eng, cfg in sorted(targets):
            e = ENGINES[eng]
            flags = e["flags"](cfg)
            first = [f.replace("@SIM", SIM) for f in e.get("inc_first", [])]
            lib_inc = first + ["-I/usr/include/eigen3"] + include_dirs([REPO + "/include"])
            own_inc = first + ["-I/usr/include/eigen3", "-I" + SIM] + include_dirs([REPO + "/include"] + [REPO + "/" + x for x in e.get("incroots", [])])
            objs = []
            for src, kind, *more in e["sources"](REPO, SIM):
                cc = "g++"
                inc = lib_inc if kind == "lib" else own_inc
                fl = list(flags) + list(e.get(kind + "_flags", [])) + more
                if kind == "core":
                    fl = ["-std=c++17", "-O1", "-w"]
                    key = sim_key
                else:
                    key = repo_key + sim_key if kind != "lib" or e.get("inc_first") else repo_key
                key = hashlib.sha256((key + src + " ".join(fl) + " ".join(inc)).encode()).hexdigest()
                name = hashlib.sha256((src + " ".join(fl)).encode()).hexdigest()[:12] + "_" + os.path.basename(src) + ".o"
                out = os.path.join(BUILD, name)
                objs.append(out)
                if out in seen:
                    continue
                big = kind == "harness"
                if big != (prio == 0):
                    continue
                seen.add(out)
                jobs.append(([cc] + fl + inc + ["-c", src], out, key))
            if prio == 1:
                links.append((eng, cfg, objs, e))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(compile_one, *j) for j in jobs]:
            f.result()
    bins = {}

    def link(eng, cfg, objs, e):
        key = hashlib.sha256((repo_key + sim_key + eng + cfg).encode()).hexdigest()
        out = os.path.join(BUILD, "%s_%s" % (eng, cfg))
        wrap = ["-Wl,--wrap=malloc,--wrap=free,--wrap=realloc"] + e.get("link", [])
        compile_one(["g++"] + objs + wrap + ["-lpthread"], out, key)
        return (eng, cfg), out

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(link, *l) for l in links]:
            k, v = f.result()
            bins[k] = v
    return bins


def run_worker(cmd, timeout):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return {"error": "worker timed out: " + " ".join(cmd)}
    for line in reversed(p.stdout.strip().split("\n")):
        if line.startswith("{"):
            try:
                return json.loads(line)
            except ValueError:
                break
    return {"error": "worker gave no result (exit %s): %s %s" % (p.returncode, p.stdout[-500:], p.stderr[-1500:])}


def replay(binary, path):
    return run_worker([binary, "--replay", path], 300)


def known_findings(prop, bins):
    """each listed finding is a fixed history; it is reported while it still fails"""
    path = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return
    for line in open(path):
        m = re.match(r"known: property=(\S+) engine=(\S+) config=(\S+) plan=(\S+) class=(\S+) (.*)", line.strip())
        if not m or m.group(1) != prop:
            continue
        b = bins.get((m.group(2), m.group(3)))
        if not b:
            continue
        r = replay(b, os.path.join(VERIF, m.group(4)))
        if r.get("status") == 2 and r.get("class") in m.group(5).split(","):
            print("KNOWN-FINDING: property=%s %s" % (prop, m.group(6)))
        elif r.get("status") == 2:
            return (b, os.path.join(VERIF, m.group(4)), r)
    return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = CHECKS[prop]
    legs = spec["legs"]
    bins = build({(l["engine"], l["config"]) for l in legs})
    t_build = time.time() - t0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for f in os.listdir(os.path.join(VERIF, "replays")):
        if f.startswith(prop + "_"):
            os.remove(os.path.join(VERIF, "replays", f))
    viol = None
    kf = known_findings(prop, bins)
    if kf:
        b, path, r = kf
        viol = {"violation": r["class"], "msg": r["msg"], "replay": path, "bin": b, "leg": {"engine": "known", "config": ""}}
    thorough = tier == "thorough"
    results = []
    if not viol:
        work = []
        for li, l in enumerate(legs):
            count, secs = (l["thorough"] if thorough else l["quick"])
            w = l.get("workers", max(1, JOBS // len(legs)))
            for k in range(w):
                rp = os.path.join(VERIF, "replays", "%s_%s_%s_%d.txt" % (prop, l["engine"], l["config"], k))
                cmd = [bins[(l["engine"], l["config"])], "--prop", l.get("prop", prop), "--seed", str(seed), "--first", str(k), "--stride", str(w),
                       "--count", str((count + w - 1) // w), "--max-seconds", str(secs), "--thorough", "1" if thorough else "0",
                       "--cpu", str(len(work)), "--config", l["config"], "--replay-out", rp, "--min-seconds", "40"] + l.get("args", [])
                work.append((l, cmd, secs + 300))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [(l, ex.submit(run_worker, cmd, to)) for l, cmd, to in work]
            for l, f in futs:
                results.append((l, f.result()))
        errors = []
        for l, r in results:
            if "violation" in r and (viol is None or r["min_ops"] < viol["min_ops"]):
                r["bin"] = bins[(l["engine"], l["config"])]
                r["leg"] = l
                # gate: the minimised file must fail the same way in a fresh process
                rr = replay(r["bin"], r["replay"])
                for _ in range(4):
                    if rr.get("status") == 2:
                        break
                    rr = replay(r["bin"], r["replay"])
                if rr.get("status") == 2 and rr.get("class") == r["violation"]:
                    r["exact"] = rr.get("hash") == rr.get("expect_hash")
                    viol = r
                elif rr.get("status") == 2 and viol is None:
                    r["violation"] = rr.get("class")
                    r["exact"] = False
                    viol = r
                else:
                    errors.append("replay of %s did not reproduce (%s)" % (r["replay"], rr))
            elif "error" in r:
                errors.append(r["error"])
        if errors and not viol:
            raise CheckError("; ".join(errors)[:3000])
    ev = evidence(prop, tier, seed, spec, results, viol, t0, t_build)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        print("%s: %s" % (viol["violation"], viol["msg"]))
        if "ops" in viol:
            print("found in run %s after %s runs of that worker; minimised from %s to %s operations in %s executions; fresh-process replay %s"
                  % (viol["run"], viol["runs"], viol["ops"], viol["min_ops"], viol["min_execs"], "identical" if viol.get("exact") else "fails again"))
        print("replay with: %s --replay %s --verbose 1" % (viol["bin"], viol["replay"]))
        print("VIOLATION property=%s replay=%s" % (prop, viol["replay"]))
        return 1
    c = ev["coverage"]
    print("%s %s: held on %d runs (%d distinct non-trivial), %d faults injected, %.0f s" % (prop, tier, c["evaluations"], c["distinct_nontrivial"], c["faults_injected_total"], ev["wall_s"]))
    return 0


def evidence(prop, tier, seed, spec, results, viol, t0, t_build):
    ctr, legs_out, sigs = {}, {}, set()
    runs = nontriv = simtime = det = 0
    samples = []
    for l, r in results:
        if "runs" not in r or "violation" in r:
            runs += r.get("runs", 0)
            continue
        runs += r["runs"]
        simtime += r["simtime"]
        det += r["detruns"]
        for s in r["sigs"]:
            sigs.add(l["engine"] + l["config"] + s)
        for k, v in r["ctr"].items():
            ctr[k] = max(ctr.get(k, 0), v) if k.startswith("max:") else ctr.get(k, 0) + v
        lk = l["engine"] + "/" + l["config"]
        lo = legs_out.setdefault(lk, {"runs": 0})
        lo["runs"] += r["runs"]
        if r.get("sample") and len(samples) < 2:
            samples.append({"leg": lk, "plan": r["sample"].split("\n")[:60]})
    search = max(1e-9, time.time() - t0 - t_build)
    faults = {k: v for k, v in ctr.items() if k.startswith("fault:")}
    return {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": len(sigs),
            "rule": spec["rule"], "samples": samples or [{"violation": viol and viol.get("msg")}],
            "legs": legs_out, "simulated_runs": runs, "seeds_per_hour": int(runs / search * 3600),
            "simulated_time_steps": simtime, "fault_kinds_injected": faults, "faults_injected_total": sum(faults.values()),
            "operations_and_probes": {k: v for k, v in sorted(ctr.items()) if not k.startswith("fault:")},
            "distinct_measure": spec.get("distinct", "distinct hashes of the sequence (operation kind, target, client) of a run, merged over workers"),
            "determinism_gate_reruns": det,
            "real_components": spec["real"], "stub_components": spec["stub"],
            "build_s": round(t_build, 1),
        },
        "assumptions": spec["assumptions"],
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if viol else 0,
    }


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("ERROR of the check: %s" % e)
        rc = 2
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
