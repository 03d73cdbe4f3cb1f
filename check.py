#!/usr/bin/env python3
"""Runs the checks. See DESIGN.md.

  check.py ID                 the check of one property (tier and seed from VERIF_TIER / VERIF_SEED)
  check.py ID --determinism   the same seeds twice, with different numbers of worker processes; diffs every run's hash
  check.py ID --replay FILE   replays a replay file in a fresh process
"""
import concurrent.futures, hashlib, json, os, re, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sim"))
import build  # noqa: E402
from catalog import CHECKS  # noqa: E402

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings(pid):
    """known: property=ID class=CLASS match=REGEX :: what fails   (the regex is searched in the violation's message)"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.+?) :: (.+)$", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def cpus():
    return sorted(os.sched_getaffinity(0))


def worker(exe, core, seed, start, stride, count, tmax, maxviol, tmp, tag):
    out, hashes = os.path.join(tmp, tag + ".json"), os.path.join(tmp, tag + ".hash")
    r = subprocess.run([exe, "explore", "--seed", str(seed), "--from", str(start), "--stride", str(stride), "--count", str(count),
                        "--tmax", str(tmax), "--max-violations", str(maxviol), "--out", out, "--hashes", hashes, "--core", str(core)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmax + 120)
    if r.returncode:
        raise RuntimeError("worker failed: exit %d %s" % (r.returncode, r.stdout[-800:]))
    d = json.load(open(out))
    raw = open(hashes, "rb").read()
    d["hashes"] = [struct.unpack_from("<QQQ", raw, i) for i in range(0, len(raw), 24)]
    return d


def explore(exe, seed, count, tmax, workers, maxviol, tmp, tag="w"):
    cs = cpus()
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(worker, exe, cs[k % len(cs)], seed, k, workers, count, tmax, maxviol, tmp, "%s%d" % (tag, k)) for k in range(workers)]
        return [f.result() for f in futs]


def symbolise(exe, text):
    addrs = sorted(set(re.findall(r"0x[0-9a-f]{6,7}\b", text)))[:60]
    if not addrs:
        return ""
    r = subprocess.run(["addr2line", "-Cfe", exe] + addrs, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    lines = r.stdout.splitlines()
    out = []
    for i, a in enumerate(addrs):
        if 2 * i + 1 < len(lines):
            out.append("# %s %s at %s" % (a, lines[2 * i][:160], lines[2 * i + 1]))
    return "\n".join(out)


def confirm(exe, pid, seed, v, tmin):
    """Re-runs, minimises and replays a violation; returns the replay file or raises."""
    r = subprocess.run([exe, "run", "--seed", str(seed), "--index", str(v["index"])], stdout=subprocess.PIPE, text=True, timeout=300)
    m = re.search(r"--- finished=2 class=(.*) hash=([0-9a-f]+) steps", r.stdout)
    if not m or m.group(1) != v["class"]:
        raise RuntimeError("run %d does not repeat: expected %s %s, got %s" % (v["index"], v["class"], v["hash"], m.groups() if m else r.stdout[-300:]))
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_%s_%d.replay" % (pid, seed, v["index"]))
    for extra in ([], ["--no-min", "1"]):
        r = subprocess.run([exe, "minimise", "--seed", str(seed), "--index", str(v["index"]), "--tmax", str(tmin), "--out", path] + extra,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmin + 300)
        if r.returncode:
            note = r.stdout
            continue
        replay = lambda: subprocess.run([exe, "replay", "--file", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        p = replay()
        m = re.search(r"--- class=(.*) hash=([0-9a-f]+) steps=\d+ expected class=(.*) hash=([0-9a-f]+) DIFFERENT", p.stdout)
        if m and m.group(1) == m.group(3) == v["class"]:
            # Same violation by another history (e.g. the changed code reads memory it has not written): the replay's own
            # history is what the file stands for, if that one repeats.
            text = open(path).read().replace("hash " + m.group(4), "hash " + m.group(2), 1)
            open(path, "w").write(text)
            p = replay()
        if p.returncode == 0 and "REPRODUCED" in p.stdout:
            with open(path, "a") as f:
                f.write("# replay with: /verif/check.py %s --replay %s\n" % (pid, path))
                f.write(symbolise(exe, open(path).read()) + "\n")
            return path, r.stdout.strip()
        note = "replay differs: " + p.stdout[-400:]
    raise RuntimeError("violation at run %d could not be replayed: %s" % (v["index"], note))


def main():
    if len(sys.argv) < 2 or sys.argv[1] == "--version":
        print("deterministic simulator, %d checks" % len(CHECKS))
        return 0
    pid = sys.argv[1]
    c = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    exe = build.build(pid, c["workload"], c["modules"])
    t_build = time.time() - t0
    if "--replay" in sys.argv:
        p = subprocess.run([exe, "replay", "--file", sys.argv[sys.argv.index("--replay") + 1]])
        return p.returncode
    tmp = tempfile.mkdtemp(prefix="sim_" + pid + "_")
    nw = len(cpus())
    try:
        if "--determinism" in sys.argv:
            n = int(os.environ.get("SIM_COUNT", "2000"))
            a = explore(exe, seed, n, 600, nw, 1 << 20, tmp, "a")
            b = explore(exe, seed, n, 900, max(1, nw // 2 - 1), 1 << 20, tmp, "b")
            ha = {i: h for d in a for i, h, _ in d["hashes"]}
            hb = {i: h for d in b for i, h, _ in d["hashes"]}
            diff = [i for i in ha if ha[i] != hb.get(i)]
            print("%s: %d runs twice (%d and %d processes): %d differ" % (pid, len(ha), nw, max(1, nw // 2 - 1), len(diff)), diff[:10])
            return 1 if diff or len(ha) != len(hb) else 0
        count, tmax = c[tier]
        known = known_findings(pid)
        print("%s: %s (built in %.1f s); seed %d, up to %d runs or %d s on %d workers" % (pid, tier, t_build, seed, count, tmax, nw), flush=True)
        res = explore(exe, seed, count, tmax, nw, 60 if known else 2, tmp)
        vs = sorted((v for d in res for v in d["violations"]), key=lambda v: v["index"])
        internal = [v for v in vs if v["class"].startswith("internal:")]
        vs = [v for v in vs if not v["class"].startswith("internal:")]
        if internal and not vs:
            raise RuntimeError("simulator error in run %d: %s" % (internal[0]["index"], internal[0]["class"]))
        seen_known, real = {}, []
        for v in vs:
            for cls, rx, what in known:
                if v["class"] == cls and rx.search(v["message"] + "\n" + symbolise(exe, v["message"])):
                    seen_known[what] = v["index"]
                    break
            else:
                real.append(v)
        runs = sum(d["runs"] for d in res)
        truncated = sum(d["truncated"] for d in res)
        if truncated * 20 > runs and not real:
            raise RuntimeError("%d of %d runs were too long to be recorded" % (truncated, runs))
        distinct = len({h for d in res for _, _, h in d["hashes"] if h})
        wall_explore = max(d["wall"] for d in res)
        faults = {}
        for d in res:
            for k, f in d["faults"].items():
                if f["sites"] or f["fired"]:
                    e = faults.setdefault(k, {"sites": 0, "fired": 0, "runs": 0})
                    for x in e:
                        e[x] += f[x]
        probes = {}
        for d in res:
            for k, n in d["probes"].items():
                probes[k] = probes.get(k, 0) + n
        # determinism, on a sample of this very exploration
        again = explore(exe, seed, min(runs, c.get("repeat", 160)), 60, max(1, nw // 2), 60 if known else 2, tmp, "r")
        first = {i: h for d in res for i, h, _ in d["hashes"]}
        differ = [i for d in again for i, h, _ in d["hashes"] if i in first and first[i] != h]
        if differ and not real:
            raise RuntimeError("run %d gave a different history when it was repeated" % differ[0])
        replay = None
        if real:
            errs = []
            for v in real[:4]:
                try:
                    replay = (v,) + confirm(exe, pid, seed, v, 40 if tier == "quick" else 120)
                    break
                except RuntimeError as e:
                    errs.append(str(e))
            if not replay:
                raise RuntimeError("; ".join(errs))
        wall = time.time() - t0
        samples = [s for d in res for s in d["samples"]][:3] or [{"run": 0, "trace": "(no non-trivial run)"}]
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": len(real),
            "coverage": {
                "evaluations": runs, "distinct_nontrivial": distinct,
                "rule": "One evaluation is one simulated run: a fresh process image in which a seed decides the workload's operations, every "
                        "thread interleaving, the clock and every fault. " + c["rule"] + " Distinct: different sequence of thread switches, "
                        "synchronisation operations, fault placements and states mixed in by the workload.",
                "samples": samples,
                "runs_per_hour": int(runs / max(wall_explore, 0.001) * 3600), "seeds_per_hour": int(runs / max(wall_explore, 0.001) * 3600),
                "simulated_time_s": sum(d["simtime_ns"] for d in res) / 1e9,
                "steps": sum(d["steps"] for d in res), "sync_operations": sum(d["sync_ops"] for d in res),
                "task_switches": sum(d["switches"] for d in res), "preemptions": sum(d["preemptions"] for d in res),
                "runs_with_several_tasks": sum(d["multi_task_runs"] for d in res), "runs_given_up_as_too_long": truncated, "simulated_system_calls": sum(d["fs_calls"] for d in res),
                "allocations_in_reach_of_faults": sum(d["allocs"] for d in res), "longest_run_steps": max(d["longest_run_steps"] for d in res), "allocations_served_from_freed_blocks": sum(d["reused"] for d in res),
                "faults": faults, "rare_conditions_reached": probes, "runs_repeated_with_equal_hash": sum(len(d["hashes"]) for d in again),
                "real_code": c["real"], "stubs": c["stubs"],
                "known_findings_seen": sorted(seen_known), "build_s": round(t_build, 1), "explore_s": round(wall_explore, 2), "workers": nw,
            },
            "assumptions": c["assume"],
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what in sorted(seen_known):
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
        print("%s: %d runs, %d distinct non-trivial, %.1f s exploring; faults fired: %s" %
              (pid, runs, distinct, wall_explore, ", ".join("%s %d" % (k, f["fired"]) for k, f in faults.items() if f["fired"]) or "none"))
        if replay:
            v, path, note = replay
            print("run %d: %s: %s" % (v["index"], v["class"], v["message"][:1500]))
            print(symbolise(exe, v["message"]))
            print("minimised: " + note)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 0
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (RuntimeError, build.BuildError, subprocess.SubprocessError, KeyError, OSError, ValueError) as e:
        print("ERROR: %s: %s" % (type(e).__name__, e))
        sys.exit(2)
