#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
import props_cfg as P
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {"N01": "pure function of its arguments: no schedule, time, I/O, fault or second party for a simulation to decide (conversion is only exercised where a session needs it, in C11)"}
LN = "Seeded exploration, not exhaustive: each run is one exactly repeatable execution of the real code under a simulated kernel and scheduler; a pass means no violation on the runs made (about %s per quick check). Trusts the simulated system calls and the harness's reference codec and model."
checks = []; na = []
for p in props:
    i = p["id"]
    if i in P.CFG:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "deterministic simulation with fault injection (seeded schedule, workload and fault search)", "level": "exploration", "level_note": LN % P.CFG[i]["runs"]["quick"]})
    else: na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/build.py && python3 tools/build_py.py", "hooks": {"guard": "none", "enable": "no hooks in /repo: the seams are the libc calls, redirected in the object files when the simulator is linked", "source_commits": []},
    "checks": checks, "not_applicable": na, "notes": "Fix commits in /repo are listed in known_findings.txt."}, open(V + "/MANIFEST.json", "w"), indent=1)
