#!/usr/bin/env python3
"""Deterministic simulation of the Python package: search / replay / minimize / one. The interface is that of simtrax.
   pysim.py DIR search ID --seed N --runs N --first K --stride K --time S --known FILE --out FILE --tier T --scratch DIR --maxviol N
   DIR holds the package under test with its library linked against pysim.c."""
import shutil, sys, os, json, time, mmap, ctypes, argparse, signal, re
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYSIM_ENV") != "1":
    e = dict(os.environ, PYSIM_ENV="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", LD_PRELOAD=open(sys.argv[1] + "/asan").read().strip(),
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:allocator_release_to_os_interval_ms=-1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    for k in ("TRAX_SOCKET", "TRAX_IN", "TRAX_OUT", "PYTHONPATH"): e.pop(k, None)
    os.execve(sys.executable, [sys.executable] + sys.argv, e)
PKG = os.path.abspath(sys.argv[1]); sys.path[:0] = [PKG, HERE]
MAXREC = 60000; u64 = ctypes.c_uint64; u32 = ctypes.c_uint32
class Shared(ctypes.Structure):
    _fields_ = [("status", ctypes.c_int), ("msg", ctypes.c_char * 4096), ("label", ctypes.c_char * 256), ("nrec", u32 * 3), ("rec", u32 * (MAXREC * 2) * 3),
                ("thash", u64), ("shash", u64), ("steps", u64), ("sim_ns", u64), ("switches", u64), ("faults", u64 * 16), ("nstates", u32), ("states", u64 * 256),
                ("cov", ctypes.c_ubyte * 8192), ("probe", ctypes.c_ubyte * 128)]
FAULTS = ["short_read", "short_write", "eintr", "stall", "peer_killed", "peer_died_in_a_write", "connection_refused", "blocked", "malformed_message", "noise_line", "log_callback_interrupted", "refused_call", "connect_timeout", "peer_quit", "", ""]

import numpy, six, traceback, threading, gc, io          # noqa: before the runs fork
import trax, trax.client, trax.server, trax.image, trax.region
import pyscen
lib = ctypes.CDLL(PKG + "/trax/libtrax.so"); plib = ctypes.PyDLL(PKG + "/trax/libtrax.so")
mm = mmap.mmap(-1, ctypes.sizeof(Shared)); sh = Shared.from_buffer(mm)
ZERO = [(n, getattr(Shared, n).offset, getattr(Shared, n).size) for n, _ in Shared._fields_ if n != "rec"]
base = ctypes.addressof(sh)

# line coverage of the package
LINES = {}
def line_cb(code, line):
    k = LINES.get((code.co_filename, line))
    if k is not None: sh.cov[k] = 1
    return sys.monitoring.DISABLE
def cov_setup():
    n = 0
    for f in ("__init__", "client", "server", "image", "region"):
        p = PKG + "/trax/%s.py" % f
        for l in range(1, len(open(p).read().split("\n")) + 1):
            LINES[p, l] = n; n += 1
    m = sys.monitoring; m.use_tool_id(3, "pysim"); m.register_callback(3, m.events.LINE, line_cb); m.set_events(3, m.events.LINE)
COV_NAMES = lambda: {v: "%s:%d" % (os.path.basename(k[0]), k[1]) for k, v in LINES.items()}

class Result: pass
def run_one(prop, seed, tier, scratch, streams=None, trace=False):
    for _, o, n in ZERO: ctypes.memset(base + o, 0, n)
    sys.stdout.flush(); sys.stderr.flush()
    errf = scratch + "/stderr"; shutil.rmtree(scratch + "/run", True)
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 60 if trace else 20); signal.signal(signal.SIGALRM, signal.SIG_DFL)
            fd = os.open(errf, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            if not trace: os.dup2(fd, 2)
            os.close(fd)
            plib.ps_init(ctypes.byref(sh), u64(seed), int(trace))
            if streams:
                a = [(u32 * max(1, len(s)))(*s) for s in streams]; run_one.keep = a
                plib.ps_replay(*[x for s, v in zip(a, streams) for x in (s, len(v))])
            gc.disable()
            pyscen.run(prop, tier, lib, plib, sh, scratch)
            if not sh.status: sh.status = 3; sh.msg = b"the scenario returned without a verdict"
        except BaseException:
            if not sh.status: sh.status = 3; sh.msg = traceback.format_exc().encode()[-4000:]
        finally:
            os._exit(0)
    _, st = os.waitpid(pid, 0); shutil.rmtree(scratch + "/run", True)
    r = Result(); r.pid = pid; r.seed = seed
    if sh.status == 0:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM: m = "hang: the run does not end (last operation %s)" % sh.label.decode(errors="replace")
        else:
            t = open(errf, errors="replace").read(); a = re.search(r"SUMMARY: AddressSanitizer: (\S+).*?( in \S+)?$", t, re.M)
            if a:
                fr = re.findall(r"#\d+ \S+ in (\S+) .*?(?:libtrax|/src/)", t)
                m = "crash (%s): in %s, last operation %s\n%s" % (a.group(1), fr[0] if fr else "?", sh.label.decode(errors="replace"), t[:1500])
            else: m = "crash: the process ended with status %d, last operation %s %s" % (st, sh.label.decode(errors="replace"), t[-800:])
        sh.status = 2; r.msg = m
    else: r.msg = sh.msg.decode(errors="replace")
    r.status = sh.status
    if r.status == 2: r.msg = r.msg.replace(str(pid), "PID").replace(scratch, "SCRATCH")
    r.rec = [[sh.rec[s][2 * i + 1] for i in range(sh.nrec[s])] for s in range(3)] if r.status != 1 or streams is not None else None
    r.nrec = list(sh.nrec); r.thash = sh.thash; r.shash = sh.shash; r.steps = sh.steps; r.sim_ns = sh.sim_ns; r.switches = sh.switches
    return r
def recs(): return [[sh.rec[s][2 * i + 1] for i in range(sh.nrec[s])] for s in range(3)]
def signature(m): return m.split(": ")[0]

def save(path, prop, r):
    with open(path, "w") as f:
        f.write("property %s\nseed %d\nhash %d\nmessage %s\n" % (prop, r.seed, r.thash, r.msg.replace("\n", "\\n")))
        for i, s in enumerate(r.rec): f.write("stream %d %d %s\n" % (i, len(s), " ".join(map(str, s))))
def load(path):
    d = {"streams": [[], [], []]}
    for l in open(path, errors="replace"):
        p = l.rstrip("\n").split(" ")
        if p[0] == "trace": break
        if p[0] == "property": d["prop"] = p[1]
        elif p[0] in ("seed", "hash"): d[p[0]] = int(p[1])
        elif p[0] == "message": d["msg"] = l[8:].rstrip("\n")
        elif p[0] == "stream": d["streams"][int(p[1])] = [int(x) for x in p[3:] if x]
    return d

def search(a):
    cov_setup(); names = COV_NAMES()
    known = [l.strip() for l in open(a.known)] if a.known else []
    o = dict(runs=0, steps=0, sim_ns=0, switches=0, mem_preempts=0, nontrivial=0, repeat_checked=0, choices=[0, 0, 0], faults={}, probes={}, known={}, samples=[], harness="", violations=[])
    states, scheds, traces, cov = set(), set(), set(), set(); viol = {}; t0 = time.time()
    for i in range(a.first, a.runs, a.stride):
        if time.time() - t0 > a.time: break
        seed = a.seed * 1000003 + i
        r = run_one(a.id, seed, a.tier, a.scratch)
        o["runs"] += 1; o["steps"] += r.steps; o["sim_ns"] += r.sim_ns; o["switches"] += r.switches
        for k in range(3): o["choices"][k] += r.nrec[k]
        for k, n in enumerate(FAULTS):
            if n and sh.faults[k]: o["faults"][n] = o["faults"].get(n, 0) + sh.faults[k]
        for k, n in enumerate(pyscen.PROBES):
            if sh.probe[k]: o["probes"][n] = o["probes"].get(n, 0) + 1
        for k in range(sh.nstates): states.add(sh.states[k])
        cov.update(names[k] for k in range(len(names)) if sh.cov[k])
        scheds.add(r.shash); traces.add(r.thash)
        if r.status == 1: o["nontrivial"] += 1
        if r.status == 3: o["harness"] = "seed %d: %s" % (seed, r.msg); break
        if len(o["samples"]) < 2 and r.status == 1: o["samples"].append("seed %d: %s" % (seed, r.msg[:300]))
        if r.status == 2:
            s = signature(r.msg)
            if s in known: o["known"][s] = o["known"].get(s, 0) + 1; continue
            if s in viol: viol[s]["count"] += 1; continue
            if len(viol) >= a.maxviol: continue
            q = run_one(a.id, seed, a.tier, a.scratch, r.rec)      # reported only if it happens again
            if q.status != 2 or signature(q.msg) != s: o["harness"] = "seed %d: %r is not repeatable: %r" % (seed, r.msg[:300], q.msg[:300]); break
            f = a.scratch + "/viol-%d.replay" % seed; q.seed = seed; save(f, a.id, q)
            viol[s] = dict(message=q.msg, signature=s, seed=seed, file=f, count=1)
        elif o["runs"] % 40 == 1:
            st, h, m = r.status, r.thash, r.msg; rec = recs()
            q = run_one(a.id, seed, a.tier, a.scratch, rec); o["repeat_checked"] += 1
            if (q.status, q.thash, q.msg) != (st, h, m): o["harness"] = "seed %d: not deterministic (%d %x %s / %d %x %s)" % (seed, st, h, m[:200], q.status, q.thash, q.msg[:200]); break
    o["violations"] = list(viol.values()); o["wall"] = time.time() - t0
    hx = lambda s: ["%016x" % x for x in s]
    o.update(states=hx(states), scheds=hx(scheds), traces=hx(traces), nontrivial_traces=hx(traces), cov=sorted(cov))
    json.dump(o, open(a.out, "w"))

def minimize(a):
    d = load(a.id); t0 = time.time(); prop = d["prop"]
    best = run_one(prop, d["seed"], a.tier, a.scratch, d["streams"])
    if best.status != 2: print("not reproduced"); return 2
    sig = signature(best.msg); n = 0
    def attempt(st):
        nonlocal best, n
        if time.time() - t0 > a.budget: return False
        n += 1
        r = run_one(prop, d["seed"], a.tier, a.scratch, st)
        size = lambda z: (sum(1 for s in z for v in s if v), sum(map(len, z)), sum(map(sum, z)))
        if r.status == 2 and signature(r.msg) == sig and size(r.rec) < size(best.rec): best = r; return True
        return False
    for rounds in range(4):
        before = best.rec
        for s in (2, 1, 0):
            cur = lambda: [list(x) for x in best.rec]
            c = cur(); c[s] = []; attempt(c)
            k = max(1, len(best.rec[s]) // 2)
            while k and time.time() - t0 < a.budget:
                i = 0
                while i < len(best.rec[s]) and time.time() - t0 < a.budget:
                    if any(best.rec[s][i:i + k]):
                        c = cur(); c[s][i:i + k] = [0] * len(c[s][i:i + k])
                        if not attempt(c) and s == 0: c = cur(); del c[s][i:i + k]; attempt(c)
                    i += k
                k //= 2
            for i in range(len(best.rec[s])):
                while i < len(best.rec[s]) and best.rec[s][i] > 1 and time.time() - t0 < a.budget:
                    c = cur(); c[s][i] //= 2
                    if not attempt(c): break
        if best.rec == before or time.time() - t0 > a.budget: break
    best.seed = d["seed"]; save(a.out, prop, best)
    print("minimised to %d non-zero choices in %d attempts: %s" % (sum(1 for s in best.rec for v in s if v), n, best.msg[:300])); return 0

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("dir"); ap.add_argument("mode"); ap.add_argument("id")
    for k, t, v in (("seed", int, 1), ("runs", int, 100), ("first", int, 0), ("stride", int, 1), ("time", float, 1e9), ("known", str, None), ("out", str, None), ("tier", str, "quick"), ("scratch", str, "/tmp"), ("maxviol", int, 2), ("budget", float, 30), ("trace", int, 0)):
        ap.add_argument("--" + k, type=t, default=v)
    a = ap.parse_args()
    if a.mode == "search": search(a); return 0
    if a.mode == "minimize": return minimize(a)
    if a.mode == "one":
        cov_setup(); r = run_one(a.id, a.seed, a.tier, a.scratch, None, bool(a.trace)); print("status %d steps %d hash %x: %s" % (r.status, r.steps, r.thash, r.msg)); return 0 if r.status == 1 else 1
    if a.mode == "replay":
        d = load(a.id); r = run_one(d["prop"], d["seed"], a.tier, a.scratch, d["streams"], bool(a.trace))
        if r.status == 2:
            same = r.thash == d["hash"] and signature(r.msg) == signature(d["msg"])
            print("%s: %s" % ("REPRODUCED exactly" if same else "another execution", r.msg)); return 1 if same else 3
        print("not reproduced: status %d %s" % (r.status, r.msg)); return 0
sys.exit(main())
