#!/usr/bin/env python3
"""Mutation campaign over the code under test: how strong are the checks? Not a check itself.
usage: mutate.py OUT.jsonl --files a.c,b.cpp [--workers N] [--runs N] [--sample P] [--props C01,C02]
Works on copies of /repo below a scratch directory; every mutant is built into the simulator and searched with every check until one
reports a violation. Mutants nobody reports are the ones to look at."""
import sys, os, re, json, random, shutil, subprocess, argparse, hashlib, multiprocessing, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/tools")
import props_cfg as P

REL = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), (" < ", " <= "), (" > ", " >= "), ("&&", "||"), ("||", "&&")]

def mutants(path):
    src = open(path, errors="surrogateescape").read().split("\n"); out = []
    stack = []; incom = False; pre = False
    for i, l in enumerate(src):
        s = l.strip()
        if incom:
            if "*/" in l: incom = False
            continue
        if s.startswith("/*"):
            incom = "*/" not in l; continue
        if s.startswith("#"):
            win = re.search("WIN32|__WINDOWS__|_MSC_VER|__OS2__|__APPLE__", s); neg = re.search(r"ifndef|!\s*defined", s)
            if re.match(r"#\s*if", s): stack.append("win" if win and not neg else "unwin" if win else "")
            elif re.match(r"#\s*(else|elif)", s) and stack: stack[-1] = "win" if stack[-1] == "unwin" else ""
            elif re.match(r"#\s*endif", s) and stack: stack.pop()
        if "win" in stack: continue
        cont = pre
        pre = s.endswith("\\") and (s.startswith("#") or cont)
        if not s or s.startswith("//") or s.startswith("#"): continue
        code = re.sub(r"//.*$", "", l)
        if "DEBUGMSG" in code or "assert(" in code or "print_debug" in code: continue
        inside = cont or l[:1] in " \t"
        if not inside: continue
        def add(new, what): 
            if new != l: out.append((i, l, new, what))
        body = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\x01" * len(m.group(0)), code)
        body = re.sub(r"'(\\.|[^'\\])+'", lambda m: "\x01" * len(m.group(0)), body)
        for a, b in REL:
            for m in re.finditer(re.escape(a), body):
                k = m.start()
                if a in ("==", "!=", "<=", ">=") and k and body[k - 1] in "<>=!": continue
                if a in ("<=", ">=") and body[k + 2:k + 3] == "=": continue
                if a == "<=" and body[k - 1] == "<": continue
                add(l[:k] + b + l[k + len(a):], "%s -> %s" % (a.strip(), b.strip()))
        for m in re.finditer(r"(?<![\w.\x01])(\d+)(?![\w.])", body):
            n = int(m.group(1)); k, e = m.span()
            add(l[:k] + str(n + 1) + l[e:], "%d -> %d" % (n, n + 1))
            if n > 0: add(l[:k] + str(n - 1) + l[e:], "%d -> %d" % (n, n - 1))
        for m in re.finditer(r" ([+\-]) ", body):
            k = m.start(1); add(l[:k] + ("-" if m.group(1) == "+" else "+") + l[k + 1:], "swap " + m.group(1))
        m = re.match(r"^(\s*(?:\}\s*)?(?:else\s+)?(?:if|while) \()(.*)(\)\s*\{?\s*(?:[\w\->.()*& ,]+;|goto \w+;|return.*;|break;|continue;)?\s*\\?)$", code)
        if m and body.count("(") == body.count(")"):
            # the condition ends where its parenthesis closes
            k = len(m.group(1)); d = 1; e = k
            while e < len(body) and d:
                d += body[e] == "("; d -= body[e] == ")"; e += 1
            c = l[k:e - 1]
            add(l[:k] + "0 && (" + c + ")" + l[e - 1:], "never")
            if "while" not in m.group(1): add(l[:k] + "1 || (" + c + ")" + l[e - 1:], "always")
        t = body.strip().rstrip("\\").strip()
        if t.endswith(";") and not re.match(r"^(return|goto|case|default|else|if|for|while|do|\}|using|typedef|extern|static|struct|const|unsigned|int|char|float|double|bool|size_t|string|std::|vector|map|trax_\w+\*? +\w+( =|;)|[A-Z]\w+ +\w+|auto|public|private|friend|virtual)\b", t) and t.count("(") == t.count(")"):
            ind = re.match(r"\s*", l).group(0)
            add(ind + ";" + (" \\" if l.rstrip().endswith("\\") else ""), "delete")
        m = re.match(r"^(\s*)return (.+);(\s*\\?)$", l)
        if m and m.group(2) not in ("0", "1"):
            pass
        for a, b in (("TRAX_OK", "TRAX_ERROR"), ("TRAX_ERROR", "TRAX_OK"), ("true", "false"), ("false", "true"), ("NULL", "NULL")):
            for m in re.finditer(r"\b%s\b" % a, body):
                if a != b: add(l[:m.start()] + b + l[m.end():], "%s -> %s" % (a, b))
        for m in re.finditer(r"(?<!\w)!(?=[\w(])", body):
            add(l[:m.start()] + l[m.end():], "drop !")
        for m in re.finditer(r"\+\+|--", body):
            add(l[:m.start()] + ("--" if m.group(0) == "++" else "++") + l[m.end():], "swap " + m.group(0))
    return src, out

W = {}
def init(base):
    k = multiprocessing.current_process()._identity[0]
    W["repo"] = "%s/w%d" % (base, k); W["build"] = "%s/b%d" % (base, k); W["scratch"] = "%s/s%d" % (base, k)
    os.makedirs(W["repo"], exist_ok=True); os.makedirs(W["scratch"], exist_ok=True)
    for d in ("src", "include", "support"): shutil.copytree("%s/%s" % (SRC, d), "%s/%s" % (W["repo"], d), dirs_exist_ok=True)
    shutil.copy(SRC + "/CMakeLists.txt", W["repo"])
    W["env"] = dict(os.environ, VERIF_REPO=W["repo"], VERIF_BUILD=W["build"])

SRC = os.environ.get("VERIF_REPO", "/repo")
def one(job):
    f, line, old, new, what, order, runs, allp = job
    path = W["repo"] + "/" + f
    src = open(SRCCOPY + "/" + f, errors="surrogateescape").read().split("\n")
    src[line] = new
    open(path, "w", errors="surrogateescape").write("\n".join(src))
    r = {"file": f, "line": line + 1, "what": what, "old": old.strip(), "new": new.strip()}
    try:
        t0 = time.time()
        b = subprocess.run([sys.executable, VERIF + "/tools/build.py"], env=W["env"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if b.returncode: r["result"] = "nobuild"; return r
        exe = b.stdout.strip().splitlines()[-1]
        for o in os.listdir(W["build"] + "/obj"):  # keep the objects of the unchanged files only
            p = W["build"] + "/obj/" + o
            if o.startswith(os.path.basename(f) + "."): os.unlink(p)
        killers = []
        for p in order:
            out = W["scratch"] + "/o.json"
            try: os.unlink(out)
            except OSError: pass
            try:
                q = subprocess.run([exe, "search", p, "--seed", "7", "--runs", str(runs), "--first", "0", "--stride", "1", "--time", "60", "--known", "/dev/null",
                                "--out", out, "--tier", "quick", "--scratch", W["scratch"], "--maxviol", "1"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=200)
                d = json.load(open(out))
            except Exception as e:
                killers.append(p + "?"); r["note"] = str(e)[:200]; 
                if not allp: break
                continue
            if d["violations"]:
                killers.append(p); r["msg"] = d["violations"][0]["message"][:160]
                if not allp: break
            elif d["harness"]: r["harness"] = d["harness"][:200]
        r["result"] = "killed" if killers else "survived"; r["by"] = killers; r["t"] = round(time.time() - t0, 1)
        return r
    finally:
        shutil.copy(SRCCOPY + "/" + f, path)

ORDER = {"src/trax.c": "C28 C09 C06 C08 C10 C20 C02 C11 C05 C07 C12 C01 C03",
         "src/message.c": "C01 C06 C05 C07 C12 C04 C20 C02 C16 C17 C19",
         "src/strmap.c": "C28 C20 C01 C06 C11 C03 C10 C09 C05 C07", "src/base64.c": "C02 C06 C20 C01 C05", "src/debug.c": "C17 C01",
         "src/region.c": "C28 C03 C06 C20 C11 C09 C05 C08 C02 C21", "src/buffer.h": "C01 C03 C06 C20 C17",
         "src/traxpp.cpp": "C20 C28 C01 C03 C08 C10 C02 C11 C09 C05 C15 C16 C19",
         "support/client/client.cpp": "C15 C14 C13 C18 C16 C17 C19 C21", "support/client/process.cpp": "C16 C13 C14 C15 C17 C18 C19 C21",
         "support/client/threads.cpp": "C15 C16 C18 C13 C19 C17 C14 C21", "support/client/timer.cpp": "C15 C13 C21", "support/client/cli.cpp": "C21"}
def main():
    global SRCCOPY
    ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--files", required=True); ap.add_argument("--workers", type=int, default=6)
    ap.add_argument("--runs", type=int, default=300); ap.add_argument("--sample", type=float, default=1.0); ap.add_argument("--props"); ap.add_argument("--all", action="store_true")
    ap.add_argument("--base", default="/tmp/mut/work"); ap.add_argument("--lines"); ap.add_argument("--only", help="results of an earlier campaign: only the mutants that survived it")
    a = ap.parse_args(); base = a.base; os.makedirs(base, exist_ok=True); SRCCOPY = base + "/orig"
    shutil.rmtree(SRCCOPY, ignore_errors=True)
    for d in ("src", "include", "support"): shutil.copytree("%s/%s" % (SRC, d), "%s/%s" % (SRCCOPY, d), dirs_exist_ok=True)
    rnd = random.Random(5); jobs = []; only = None
    if a.only: only = {(d["file"], d["old"], d["new"], d["what"]) for d in map(json.loads, open(a.only)) if d["result"] == "survived"}
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out): d = json.loads(l); done.add((d["file"], d["line"], d["new"], d["what"]))
    for f in a.files.split(","):
        src, ms = mutants(SRCCOPY + "/" + f)
        for (i, old, new, what) in ms:
            if a.lines:
                x, y = map(int, a.lines.split("-"))
                if not x <= i + 1 <= y: continue
            if only is not None and (f, old.strip(), new.strip(), what) not in only: continue
            if (only is not None or rnd.random() < a.sample) and (f, i + 1, new.strip(), what) not in done:
                jobs.append((f, i, old, new, what, a.props.split(",") if a.props else ORDER[f].split(), a.runs, a.all))
    rnd.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    n = {}
    with multiprocessing.Pool(a.workers, init, (base,)) as pool, open(a.out, "a") as out:
        for r in pool.imap_unordered(one, jobs):
            n[r["result"]] = n.get(r["result"], 0) + 1
            out.write(json.dumps(r, ensure_ascii=True) + "\n"); out.flush()
    print(n)
    shutil.rmtree(base, ignore_errors=True)
main()
