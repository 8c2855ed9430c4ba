#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree into /verif/build (cached by content). Prints the path of the program."""
import concurrent.futures, fcntl, hashlib, os, re, subprocess, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CC, CXX = "clang", "clang++"

# calls of the code under test that are replaced by simulated ones
RENAME = """read __read_chk write readv writev send sendto sendmsg recv recvfrom recvmsg close poll ppoll __poll_chk select pselect
__fdelt_chk dup dup2 dup3 fcntl ioctl pipe pipe2 isatty fsync socket socketpair bind listen accept accept4 connect setsockopt getsockopt
getsockname getpeername shutdown posix_spawn posix_spawnp posix_spawn_file_actions_init posix_spawn_file_actions_destroy
posix_spawn_file_actions_addclose posix_spawn_file_actions_adddup2 posix_spawn_file_actions_addchdir_np posix_spawn_file_actions_addopen
posix_spawn_file_actions_addclosefrom_np posix_spawnattr_init posix_spawnattr_destroy posix_spawnattr_setflags posix_spawnattr_setsigmask
posix_spawnattr_setsigdefault posix_spawnattr_setpgroup wait wait4 waitpid kill killpg raise getpid getppid sigaction signal
pthread_sigmask sigprocmask sigpending sigtimedwait sigwaitinfo sigwait exit _exit abort __assert_fail clock_gettime gettimeofday time
clock usleep sleep nanosleep clock_nanosleep sched_yield pthread_yield pthread_create pthread_join pthread_tryjoin_np pthread_detach
pthread_self pthread_equal pthread_exit pthread_kill pthread_cancel pthread_setname_np pthread_once pthread_mutex_init
pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_clocklock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal
pthread_cond_broadcast getenv secure_getenv setenv unsetenv putenv chdir getcwd access fileno fdopen vfprintf fprintf printf vprintf
puts putchar fputs fputc fwrite fflush fclose perror setbuf setvbuf strtok strerror rand srand random malloc calloc realloc free strdup
strndup vasprintf asprintf"""
MAP = {n: "sim_" + n for n in RENAME.split()}
MAP.update({
    "fcntl64": "sim_fcntl", "__strdup": "sim_strdup", "_Exit": "sim__exit", "quick_exit": "sim_exit", "putc": "sim_fputc",
    "environ": "sim_environ", "_environ": "sim_environ", "__environ": "sim_environ", "__isoc99_assert": "sim_abort",
    "_ZSt9terminatev": "sim_terminate_cxx",
    "_Znwm": "sim_new", "_Znam": "sim_new_arr", "_ZnwmRKSt9nothrow_t": "sim_new_nt", "_ZnamRKSt9nothrow_t": "sim_new_arr_nt",
    "_ZdlPv": "sim_delete", "_ZdaPv": "sim_delete_arr", "_ZdlPvm": "sim_delete_sz", "_ZdaPvm": "sim_delete_arr_sz",
    "_ZNSt18condition_variableC1Ev": "sim_cv_ctor", "_ZNSt18condition_variableD1Ev": "sim_cv_dtor",
    "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE": "sim_cv_wait",
    "_ZNSt18condition_variable10notify_oneEv": "sim_cv_notify_one", "_ZNSt18condition_variable10notify_allEv": "sim_cv_notify_all",
    "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE": "sim_thread_start",
    "_ZNSt6thread4joinEv": "sim_thread_join", "_ZNSt6thread6detachEv": "sim_thread_detach",
    "_ZNSt11this_thread11__sleep_forENSt6chrono8durationIlSt5ratioILl1ELl1EEEENS1_IlS2_ILl1ELl1000000000EEEE": "sim_this_thread_sleep",
    "_ZNSt6chrono3_V212steady_clock3nowEv": "sim_steady_now", "_ZNSt6chrono3_V212system_clock3nowEv": "sim_system_now",
})
SUT_FLAGS = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores",
             "-ftrivial-auto-var-init=pattern", "-U_FORTIFY_SOURCE", "-w", "-fno-pie", "-DTRAX_STATIC_DEFINE",
             '-DTRAX_BUILD_VERSION="sim"', '-DTRAX_BUILD_DATE="sim"', "-I%s/include" % REPO, "-I%s/src" % REPO, "-I%s/support/client/include" % REPO]
OCTAVE = [os.path.dirname(x) if e else x for x in sorted(glob.glob("/usr/include/octave-*/octave")) for e in (1, 0)]
OPENCV = sorted(glob.glob("/usr/include/opencv4"))
HAR_FLAGS = ["-O1", "-g", "-std=c++17", "-fno-omit-frame-pointer", "-fsanitize=address", "-w", "-fno-pie", "-DTRAX_STATIC_DEFINE",
             "-I%s/include" % REPO, "-I%s/src" % REPO, "-I%s/support/client/include" % REPO, "-I%s/sim" % VERIF, "-I%s/scen" % VERIF] + ["-isystem" + x for x in OCTAVE + OPENCV] + ["-I%s/support/opencv/include" % REPO]


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]


def content(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("build failed: %s\n%s\n" % (" ".join(cmd), r.stdout)); raise SystemExit(3)
    return r.stdout


def sources():
    """The library and client sources as listed by the repository's own build."""
    cm = open(REPO + "/CMakeLists.txt").read()
    core = [REPO + "/src/" + x for x in re.findall(r"\$\{CMAKE_CURRENT_SOURCE_DIR\}/src/([\w.]+\.c(?:pp)?)\b", cm)]
    cl = open(REPO + "/support/client/CMakeLists.txt").read()
    m = re.search(r"ADD_LIBRARY\(trax_client_static STATIC ([^)]*)\)", cl)
    client = [REPO + "/support/client/" + x for x in m.group(1).split()]
    m = re.search(r"ADD_EXECUTABLE\(traxclient ([^)]*)\)", cl)
    cli = [REPO + "/support/client/" + x for x in m.group(1).split()]
    m = re.search(r"ADD_EXECUTABLE\(traxtest ([^)]*)\)", cl)
    test = [REPO + "/support/client/" + x for x in m.group(1).split()]
    m = re.search(r"ADD_EXECUTABLE\(traxplayer ([^)]*)\)", cl)
    player = [REPO + "/support/client/" + x for x in m.group(1).split()]
    return core, client, cli, [x for x in test if x not in cli], [x for x in player if x not in cli]


def mex_sources():
    """The sources of the two Octave extension functions, as listed by the repository's own build."""
    d = REPO + "/support/matlab/"; cm = open(d + "CMakeLists.txt").read(); out = {}
    for name in ("traxserver", "traxclient"):
        m = re.search(r"OUTPUT[^\n]*%s\.mex COMMAND(.*?)MAIN_DEPENDENCY" % name, cm, re.S)
        out[name] = [d + x for x in re.findall(r"\$\{CMAKE_CURRENT_SOURCE_DIR\}/([\w.]+\.cpp)", m.group(1))]
    return out


def opencv_sources():
    """The sources of the OpenCV conversion library, as listed by the repository's own build."""
    d = REPO + "/support/opencv/"
    return [d + x for x in re.search(r"ADD_LIBRARY\(trax_opencv SHARED ([^)]*)\)", open(d + "CMakeLists.txt").read()).group(1).split()]


def main():
    os.makedirs(BUILD + "/obj", exist_ok=True)
    lock = open(BUILD + "/.lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    core, client, cli, test, player = sources()
    mex = mex_sources()
    hdr = [p for d in ("/include", "/src", "/support/client", "/support/matlab", "/support/opencv") for p in glob.glob(REPO + d + "/**/*", recursive=True) if os.path.isfile(p) and p.endswith((".h", ".hpp", ".in"))]
    rh = content(hdr)
    pub = content([p for p in hdr if not p.endswith("/process.h") and not p.endswith("/threads.h")])
    hh = content(glob.glob(VERIF + "/sim/*.h") + glob.glob(VERIF + "/scen/*.h"))
    jobs = []
    for s in core + client + cli + test + player:
        fl = list(SUT_FLAGS)
        if s in cli: fl += ["-Dmain=traxclient_main", "-DTRAX_BUILD_OPENCV", "-I%s/support/opencv/include" % REPO] + ["-isystem" + x for x in OPENCV]
        if s in test: fl += ["-Dmain=traxtest_main", "-include", VERIF + "/sim/marker.h"]
        if s in player: fl += ["-Dmain=traxplayer_main", "-DPROGRAM_MARKER=traxplayer_marker", "-include", VERIF + "/sim/marker.h", "-I%s/support/opencv/include" % REPO] + ["-isystem" + x for x in OPENCV]
        k = digest(s, content([s]), rh, fl)
        comp = CC if s.endswith(".c") else CXX
        jobs.append(("sut", s, "%s/obj/%s.%s.o" % (BUILD, os.path.basename(s), k), [comp] + fl + ["-c", s, "-o"]))
    for name, files in mex.items():
        for s in files:
            fl = SUT_FLAGS + ["-std=c++17", "-DOCTAVE", "-DmexFunction=%s_mex" % name] + ["-isystem" + x for x in OCTAVE]
            k = digest(s, content([s]), rh, fl)
            jobs.append(("sut", s, "%s/obj/%s-%s.%s.o" % (BUILD, name, os.path.basename(s), k), [CXX] + fl + ["-c", s, "-o"]))
    for s in opencv_sources():
        fl = SUT_FLAGS + ["-I%s/support/opencv/include" % REPO] + ["-isystem" + x for x in OPENCV]
        k = digest(s, content([s]), rh, fl)
        jobs.append(("sut", s, "%s/obj/%s.%s.o" % (BUILD, os.path.basename(s), k), [CXX] + fl + ["-c", s, "-o"]))
    for s in sorted(glob.glob(VERIF + "/sim/*.cpp") + glob.glob(VERIF + "/scen/*.cpp")):
        k = digest(s, content([s]), hh, pub, HAR_FLAGS)
        jobs.append(("har", s, "%s/obj/%s.%s.o" % (BUILD, os.path.basename(s), k), [CXX] + HAR_FLAGS + ["-c", s, "-o"]))

    def do(j):
        if not os.path.exists(j[2]):
            run(j[3] + [j[2] + ".tmp"]); os.rename(j[2] + ".tmp", j[2])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(do, jobs))
    key = digest(*[os.path.basename(j[2]) for j in jobs], content([os.path.abspath(__file__)]))
    exe = "%s/simtrax-%s" % (BUILD, key)
    if not os.path.exists(exe) or not os.path.exists(exe + ".sym"):
        for old in glob.glob(BUILD + "/simtrax-*") + glob.glob(BUILD + "/*.tmp"):
            try: os.unlink(old)
            except OSError: pass
        sut = [j[2] for j in jobs if j[0] == "sut"]
        # C++ library template instances of the code under test get names of their own, so that they are not merged with the harness's
        weak = set(); defined = set(); undef = set(); names = {}
        for o in sut:
            for l in run(["nm", o]).splitlines():
                p = l.split(); ty, n = p[-2], p[-1]; names.setdefault(o, set()).add(n)
                if ty in "Ww" and len(p) == 3 and re.match(r"_ZN?K?S[tabsiod]|_ZN?K?9__gnu_cxx|_ZStl|_ZSt", n): weak.add(n)
                if len(p) == 3: defined.add(n)
                if ty == "U": undef.add(n)
        m = dict(MAP)
        for n in weak: m.setdefault(n, "sut_" + n)
        # programs and extensions have functions and variables of the same names: those of each get a prefix
        prefix = {}
        for j in jobs:
            if j[1] in test: prefix[j[2]] = "test_"
            if j[1] in player: prefix[j[2]] = "player_"
            for name in mex:
                if os.path.basename(j[2]).startswith(name + "-"): prefix[j[2]] = name + "_"
        pdef = {}
        for o, pf in prefix.items():
            for l in run(["nm", o]).splitlines():
                p = l.split()
                if len(p) == 3 and p[1] in "TBDRVW" and "traxtest_main" not in p[2] and "traxplayer_main" not in p[2] and not p[2].endswith("_mex") and not re.match(r"_ZT[ISV]N?K?S|_ZN?K?4trax|_ZT[ISV]N?4trax|_ZN?K?2cv|_ZT[ISV]N?2cv", p[2]): pdef.setdefault(pf, set()).add(p[2])
        def ren(o):
            r = o[:-2] + ".%s.r" % key; mf = r + ".map"; pf = prefix.get(o)
            open(mf, "w").write("".join("%s %s\n" % (k, m[k]) for k in sorted(names[o]) if k in m) + "".join("%s %s%s\n" % (k, pf, k) for k in sorted(names[o]) if pf and k in pdef[pf] and k not in m))
            run(["objcopy", "--redefine-syms=" + mf, o, r]); os.unlink(mf); return r
        with concurrent.futures.ThreadPoolExecutor(8) as ex: out = list(ex.map(ren, sut))
        try:
            run([CXX, "-fsanitize=address", "-no-pie", "-g", "-o", exe + ".tmp"] + out + [j[2] for j in jobs if j[0] == "har"] + ["-lopencv_imgproc", "-lopencv_core", "-lm", "-lpthread"])
        finally:
            for r in out:
                if os.path.exists(r): os.unlink(r)
        sym = run(["nm", "-n", "-C", "--defined-only", exe + ".tmp"])
        open(exe + ".sym", "w").write(sym)
        ext = sorted(n for n in undef - defined - set(MAP) if not n.startswith(("__asan", "__sanitizer", "_ZNSt", "_ZNKSt", "_ZSt", "_ZTV", "_ZTI", "_ZTT", "__cxa", "_ZNS", "_ZNKS")))
        open(exe + ".ext", "w").write("\n".join(ext) + "\n")
        os.rename(exe + ".tmp", exe)
    # drop stale objects
    keep = {j[2] for j in jobs}
    for o in glob.glob(BUILD + "/obj/*"):
        if o not in keep and os.path.getmtime(o) < os.path.getmtime(exe) - 86400: os.unlink(o)
    print(exe)


if __name__ == "__main__":
    main()
