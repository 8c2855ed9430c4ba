#!/usr/bin/env python3
"""Builds the Python package of /repo's working tree, its library linked against the simulated calls of pysim/pysim.c, into
BUILD/py-KEY (cached by content). Prints that directory."""
import fcntl, glob, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from build import VERIF, REPO, BUILD, CC, digest, content, run, sources

CALLS = """accept close connect fcntl fileno fflush fputs fputc fwrite fprintf printf puts putchar perror getenv listen read recv select send setsockopt getsockopt
shutdown sleep usleep nanosleep socket write clock time clock_gettime gettimeofday malloc calloc realloc free strdup abort exit"""
MAP = {n: "ps_" + n for n in CALLS.split()}
MAP.update({"fcntl64": "ps_fcntl", "__strdup": "ps_strdup", "__assert_fail": "ps_assert_fail", "_exit": "ps_exit"})

def main():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(BUILD + "/.lock-py", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    core = [s for s in sources()[0] if s.endswith(".c")]
    hdr = [p for d in ("/include", "/src") for p in glob.glob(REPO + d + "/**/*", recursive=True) if os.path.isfile(p) and p.endswith((".h", ".in"))]
    py = sorted(glob.glob(REPO + "/support/python/trax/*.py"))
    key = digest(content(core + hdr + py + [VERIF + "/pysim/pysim.c", os.path.abspath(__file__)]), REPO)
    out = "%s/py-%s" % (BUILD, key)
    if not os.path.exists(out + "/asan"):
        for old in glob.glob(BUILD + "/py-*"): shutil.rmtree(old, ignore_errors=True)
        tmp = out + ".tmp"; os.makedirs(tmp + "/trax")
        fl = ["-O1", "-g", "-fPIC", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-U_FORTIFY_SOURCE", "-w"]
        inc = ['-DTRAX_BUILD_VERSION="sim"', '-DTRAX_BUILD_DATE="sim"', "-DTRAX_EXPORTS", "-I%s/include" % REPO, "-I%s/src" % REPO]
        objs = []
        mf = tmp + "/map"
        for s in core:
            o = "%s/%s.o" % (tmp, os.path.basename(s)); run([CC] + fl + ["-fsanitize=address"] + inc + ["-c", s, "-o", o])
            names = {l.split()[-1] for l in run(["nm", o]).splitlines()}; open(mf, "w").write("".join("%s %s\n" % kv for kv in MAP.items() if kv[0] in names)); run(["objcopy", "--redefine-syms=" + mf, o]); objs.append(o)
        o = tmp + "/pysim.o"; run([CC] + fl + ["-c", VERIF + "/pysim/pysim.c", "-o", o]); objs.append(o)
        run([CC, "-shared", "-fsanitize=address", "-shared-libasan", "-g", "-o", tmp + "/trax/libtrax.so"] + objs + ["-lm", "-lpthread", "-ldl"])
        for p in py: shutil.copy(p, tmp + "/trax/")
        for o in objs + [mf]: os.unlink(o)
        open(tmp + "/asan", "w").write(run([CC, "-print-file-name=libclang_rt.asan-x86_64.so"]).strip() + "\n")
        os.rename(tmp, out)
    print(out)

if __name__ == "__main__":
    main()
