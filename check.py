#!/usr/bin/env python3
"""Decides one property: builds the simulator from the working tree of /repo, runs a seeded search over
schedules, workloads and faults on all cores, gates and minimises what it finds, writes the evidence."""
import sys, os, json, subprocess, time, shutil, argparse, tempfile, re
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/tools")
import props_cfg as P

def build(cfg):
    """the command that runs the simulator of this property, built from the working tree"""
    py = cfg.get("engine") == "python"
    r = subprocess.run([sys.executable, VERIF + ("/tools/build_py.py" if py else "/tools/build.py")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:]); print("check: build failed"); sys.exit(2)
    out = r.stdout.strip().splitlines()[-1]
    return [sys.executable, VERIF + "/pysim/pysim.py", out] if py else [out]

def known(pid):
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: out.append(m.group(2))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int); ap.add_argument("--time", type=int); ap.add_argument("--workers", type=int, default=P.WORKERS)
    a = ap.parse_args()
    pid = a.id; cfg = P.CFG[pid]; tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time(); exe = build(cfg); tb = time.time() - t0
    runs = a.runs or cfg["runs"][tier]; limit = a.time or P.TIME[tier]
    work = tempfile.mkdtemp(prefix="simtrax-%s-" % pid)
    try:
        rc = decide(a, pid, cfg, tier, seed, exe, runs, limit, work, t0, tb)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def decide(a, pid, cfg, tier, seed, exe, runs, limit, work, t0, tb):
    kf = work + "/known"; kn = known(pid); open(kf, "w").write("".join(k + "\n" for k in kn))
    procs = []
    for w in range(a.workers):
        sc = work + "/s%d" % w; os.mkdir(sc)
        cmd = exe + ["search", pid, "--seed", str(seed), "--runs", str(runs), "--first", str(w), "--stride", str(a.workers), "--time", str(limit),
               "--known", kf, "--out", work + "/o%d.json" % w, "--tier", tier, "--scratch", sc, "--maxviol", "2"]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(work + "/e%d" % w, "w")))
    ts = time.time()
    for p in procs: p.wait()
    wall_search = time.time() - ts
    res = []; trouble = []
    for w, p in enumerate(procs):
        try: d = json.load(open(work + "/o%d.json" % w)); res.append(d)
        except Exception as e: trouble.append("worker %d ended with %s: %s" % (w, p.returncode, open(work + "/e%d" % w).read()[-500:])); continue
        if d["harness"]: trouble.append(d["harness"])
    viol = {}
    for d in res:
        for v in d["violations"]: viol.setdefault(v["signature"], v)
    knc = {}
    for d in res:
        for k, n in d["known"].items(): knc[k] = knc.get(k, 0) + n
    for k in kn: print("KNOWN-FINDING: property=%s %s (seen in %d of the runs)" % (pid, k, knc.get(k, 0)))
    os.makedirs(VERIF + "/build/replays", exist_ok=True)
    reported = 0
    for sig, v in sorted(viol.items())[:4]:
        out = VERIF + "/build/replays/%s-%d.replay" % (pid, v["seed"])
        m = subprocess.run(exe + ["minimize", v["file"], "--budget", str(P.MINIMIZE[tier]), "--out", out, "--tier", tier, "--scratch", work], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if m.returncode != 0: shutil.copy(v["file"], out)
        # a fresh process has to reproduce it exactly; the trace goes into the file
        r = subprocess.run(exe + ["replay", out, "--tier", tier, "--scratch", work, "--trace", "1"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if r.returncode != 1:
            shutil.copy(v["file"], out)
            r = subprocess.run(exe + ["replay", out, "--tier", tier, "--scratch", work, "--trace", "1"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if r.returncode != 1:
            trouble.append("violation %r (seed %d) is not reproduced by its replay file" % (v["message"], v["seed"])); continue
        with open(out, "a", errors="replace") as f: f.write("trace\n" + r.stderr[-400000:])
        print("property %s, seed %d (%d runs like it): %s" % (pid, v["seed"], v["count"], v["message"][:1500]))
        print("  replay: %s replay %s --trace 1   %s" % (" ".join(exe), out, (m.stdout or "").strip().splitlines()[-1:] or ""))
        print("VIOLATION property=%s replay=%s" % (pid, out)); reported += 1
    n = sum(d["runs"] for d in res)
    def uni(k): 
        s = set()
        for d in res: s.update(d[k])
        return s
    def add(k):
        o = {}
        for d in res:
            for x, y in d[k].items(): o[x] = o.get(x, 0) + y
        return dict(sorted(o.items()))
    cov = set()
    for d in res: cov.update(d["cov"])
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": reported,
          "coverage": {
              "evaluations": n, "distinct_nontrivial": len(uni("nontrivial_traces")),
              "rule": cfg["rule"] + " Every run draws its workload, its schedule and its faults from three seeded streams; a run counts as non-trivial when it reached the checks at its end, and as distinct by the hash of its whole event trace.",
              "samples": [s for d in res for s in d["samples"]][:8],
              "simulated_runs_per_hour": int(n / max(wall_search, 0.01) * 3600), "seeds_per_hour": int(n / max(wall_search, 0.01) * 3600),
              "simulated_seconds": round(sum(d["sim_ns"] for d in res) / 1e9, 1), "simulated_calls": sum(d["steps"] for d in res),
              "scheduling_switches": sum(d["switches"] for d in res), "preemptions_at_memory_accesses": sum(d["mem_preempts"] for d in res),
              "faults_injected": add("faults"), "conditions_reached_in_runs": add("probes"),
              "distinct_interleavings": len(uni("scheds")), "distinct_interleavings_measure": "hash of the sequence of scheduling decisions (which task runs at which call or memory access)",
              "distinct_traces": len(uni("traces")), "distinct_states": len(uni("states")), "distinct_states_measure": cfg.get("state_measure", "hash of (objects tracked, step, outcome)"),
              ("lines_of_code_under_test_reached" if cfg.get("engine") == "python" else "edges_of_code_under_test_reached"): len(cov), "runs_repeated_for_determinism": sum(d["repeat_checked"] for d in res),
              "choices_drawn": {k: sum(d["choices"][i] for d in res) for i, k in enumerate(("workload", "schedule", "fault"))},
              "components_real": cfg["real"], "components_simulated": cfg["stub"], "known_findings_seen": knc,
              "seeds": "VERIF_SEED*1000003 + 0..%d" % (runs - 1), "wall_build_s": round(tb, 2), "wall_search_s": round(wall_search, 2), "trouble": trouble},
          "assumptions": P.ASSUMPTIONS + cfg.get("assumptions", [])}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % pid, "w"), indent=1)
    print("%s: %d runs (%d distinct) in %.1f s, %.0f simulated s, faults %s" % (pid, n, len(uni("traces")), wall, ev["coverage"]["simulated_seconds"], ev["coverage"]["faults_injected"]))
    for t in trouble: print("check: " + t)
    if reported: return 1
    return 2 if trouble or n == 0 else 0

main()
