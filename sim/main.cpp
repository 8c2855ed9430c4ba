// Driver of the simulator: search, replay, minimise. Every run is one forked child.
#include "sim.h"
#include "shm.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <signal.h>
#include <sstream>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <sanitizer/asan_interface.h>

using namespace sim;
namespace sim {
std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
// symbol table written by the build (nm -n -C), used instead of a symbolizer process
static std::vector<std::pair<uintptr_t, std::string>> symtab;
static void load_symbols(const std::string& path) {
    std::ifstream f(path); std::string line;
    while (std::getline(f, line)) {
        size_t a = line.find(' '); if (a == std::string::npos || line.size() < a + 3) continue;
        char ty = line[a + 1]; if (ty != 't' && ty != 'T' && ty != 'W' && ty != 'w') continue;
        symtab.push_back({(uintptr_t)strtoull(line.c_str(), nullptr, 16), line.substr(a + 3)});
    }
}
std::string symname(uintptr_t pc) {
    auto it = std::upper_bound(symtab.begin(), symtab.end(), std::make_pair(pc, std::string("\xff")));
    if (it == symtab.begin()) return "?";
    --it; std::string s = it->second; if (pc - it->first > 200000) return "?";
    size_t p = s.find('('); if (p != std::string::npos && p > 0) s.resize(p);
    return s;
}
}

static bool uninteresting(const std::string& f) {
    return f == "?" || f.compare(0, 4, "sim_") == 0 || f.compare(0, 5, "sim::") == 0 || f.compare(0, 2, "__") == 0 || f.compare(0, 5, "std::") == 0 || f.compare(0, 8, "(anonymo") == 0 ||
           f.find("operator new") != std::string::npos || f.find("operator delete") != std::string::npos || f.find("asan") != std::string::npos || f.find("interceptor") != std::string::npos ||
           f == "memcpy" || f == "memset" || f == "strlen" || f == "free" || f == "malloc" || f == "memmove" || f == "strcmp" || f == "strdup" || f == "realloc" || f == "vsnprintf" || f == "printf_common";
}
static void asan_report(const char* text) {
    std::string t(text), kind = "error";
    size_t p = t.find("AddressSanitizer: ");
    if (p != std::string::npos) { size_t e = t.find_first_of(" \n", p + 18); kind = t.substr(p + 18, e - p - 18); }
    std::string fn, frames; size_t pos = 0; int k = 0;
    while ((pos = t.find("    #", pos)) != std::string::npos && k < 8) {
        size_t x = t.find("0x", pos), nl = t.find('\n', pos);
        if (x == std::string::npos || (nl != std::string::npos && x > nl)) break;
        if (k && t.compare(pos, 7, "    #0 ") == 0) break;   // second stack of the report
        std::string f = symname((uintptr_t)strtoull(t.c_str() + x, nullptr, 16) - 1);
        if (!uninteresting(f)) { if (fn.empty()) fn = f; frames += (frames.empty() ? "" : " < ") + f; }
        pos = nl; k++;
    }
    if (kind == "attempting") kind = "double-free";
    if (shm->msg[0] == 0) snprintf(shm->msg, sizeof shm->msg, "memory-error %s in %s: %s (process %s, task %s)", kind.c_str(), fn.empty() ? "?" : fn.c_str(), frames.c_str(), cur ? cur->proc->name.c_str() : "-", cur ? cur->name.c_str() : "-");
    if (tracing()) fprintf(stderr, "%s\n", text);
    shm->simtime = now();
    _exit(RC_VIOLATION);
}
extern "C" const char* __asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=0:symbolize=0:abort_on_error=0:exitcode=41:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=190:handle_segv=1:handle_abort=1:print_summary=0:allocator_release_to_os_interval_ms=-1:quarantine_size_mb=8:detect_odr_violation=0:alloc_dealloc_mismatch=1:malloc_context_size=12"; }

static void reset_shm() {
    Shm* s = shm;
    s->msg[0] = 0; s->sample[0] = 0; for (int i = 0; i < 3; i++) s->nchoice[i] = 0;
    s->trace_hash = 0xcbf29ce484222325ull; s->sched_hash = 0; s->steps = s->switches = s->mem_preempts = s->simtime = s->edges = 0;
    s->edge_limit = 400000000ull; s->nstates = 0; s->nontrivial = 0;
    memset(s->faults, 0, sizeof s->faults); memset(s->probes, 0, sizeof s->probes);
}
static const Scenario* find(const std::string& id) { for (auto& s : scenarios()) if (id == s.id) return &s; fprintf(stderr, "no scenario %s\n", id.c_str()); exit(2); }
static std::string g_tier = "quick";
namespace sim { std::string tier() { return g_tier; } std::string scratch_dir; }

// returns RC_*, message in shm
static int one_run(const Scenario* sc, bool replay, uint64_t seed, const std::vector<uint32_t>* lists, bool trace) {
    reset_shm();
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        if (!trace) { int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 2); close(n); }
        else { int n = open("/dev/null", O_RDWR); dup2(n, 1); close(n); }
        alarm(60);
        set_trace(trace);
        __asan_set_error_report_callback(asan_report);
        heap_hooks();
        if (replay) for (int i = 0; i < 3; i++) set_replay(i, lists[i]); else seed_streams(seed);
        sc->fn();
        shm->simtime = now();
        fflush(stderr);
        _exit(RC_OK);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && (WEXITSTATUS(st) == RC_OK || WEXITSTATUS(st) == RC_VIOLATION || WEXITSTATUS(st) == RC_HARNESS)) return WEXITSTATUS(st);
    if (!shm->msg[0]) {
        if (WIFSIGNALED(st)) snprintf(shm->msg, sizeof shm->msg, WTERMSIG(st) == SIGALRM ? "hang: no end after 60 s of real time" : "crash: run ended by signal %d", WTERMSIG(st));
        else snprintf(shm->msg, sizeof shm->msg, "crash: run ended with status %d", WEXITSTATUS(st));
    }
    return RC_VIOLATION;
}
static std::string signature(const std::string& m) { size_t p = m.find(": "); return p == std::string::npos ? m : m.substr(0, p); }
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static std::string jstr(const std::string& s) {
    std::string o = "\""; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}
struct Replay { std::string prop, msg; uint64_t seed = 0, hash = 0; std::vector<uint32_t> c[3]; };
static void grab(Replay& r) { for (int i = 0; i < 3; i++) { uint32_t n = std::min(shm->nchoice[i], MAXCHOICE); r.c[i].assign(shm->choices[i], shm->choices[i] + n); } r.msg = shm->msg; r.hash = shm->trace_hash; }
static void save(const Replay& r, const std::string& path) {
    std::ofstream f(path);
    std::string m = r.msg; for (auto& c : m) if (c == '\n') c = ' ';
    f << "property " << r.prop << "\nseed " << r.seed << "\nhash " << r.hash << "\nmessage " << m << "\n";
    for (int i = 0; i < 3; i++) { f << "stream " << i << " " << r.c[i].size(); for (auto v : r.c[i]) f << " " << v; f << "\n"; }
}
static Replay load(const std::string& path) {
    Replay r; std::ifstream f(path); std::string line;
    while (std::getline(f, line)) {
        std::istringstream s(line); std::string k; s >> k;
        if (k == "property") s >> r.prop; else if (k == "seed") s >> r.seed; else if (k == "hash") s >> r.hash;
        else if (k == "message") { r.msg = line.size() > 8 ? line.substr(8) : ""; }
        else if (k == "stream") { int i; size_t n; s >> i >> n; r.c[i].resize(n); for (auto& v : r.c[i]) s >> v; }
        else if (k == "trace") break;
    }
    return r;
}
static void strip(std::vector<uint32_t>& v) { while (!v.empty() && v.back() == 0) v.pop_back(); }
static int minimize(Replay& r, double budget, int maxruns) {
    const Scenario* sc = find(r.prop); std::string sig = signature(r.msg); double t0 = wall(); int runs = 0;
    auto fails = [&](Replay& c) { runs++; int rc = one_run(sc, true, 0, c.c, false); if (rc == RC_OK || rc == RC_HARNESS) return false; if (signature(shm->msg) != sig) return false;
        Replay n; n.prop = r.prop; n.seed = r.seed; grab(n); for (int i = 0; i < 3; i++) strip(n.c[i]); c = n; return true; };
    auto cost = [](const Replay& x) { size_t s = 0; uint64_t v = 0; for (int i = 0; i < 3; i++) { s += x.c[i].size(); for (auto k : x.c[i]) v += k != 0; } return std::make_pair(v, s); };
    { Replay c = r; if (!fails(c)) return -1; r = c; }
    bool progress = true;
    auto over = [&]() { return wall() - t0 > budget || runs > maxruns; };
    while (progress && !over()) {
        progress = false;
        for (int s : {2, 1, 0}) {
            // zero chunks, then delete chunks
            for (int mode = 0; mode < 2; mode++)
                for (size_t len = std::max<size_t>(1, r.c[s].size() / 2); len >= 1 && !over(); len = len == 1 ? 0 : len / 2)
                    for (size_t i = 0; i < r.c[s].size() && !over();) {
                        Replay c = r; size_t e = std::min(c.c[s].size(), i + len);
                        if (mode == 0) { bool any = false; for (size_t k = i; k < e; k++) { any |= c.c[s][k] != 0; c.c[s][k] = 0; } if (!any) { i += len; continue; } }
                        else c.c[s].erase(c.c[s].begin() + i, c.c[s].begin() + e);
                        if (fails(c) && cost(c) < cost(r)) { r = c; progress = true; } else i += len;
                    }
            // lower single values
            for (size_t i = 0; i < r.c[s].size() && !over(); i++) {
                if (r.c[s][i] <= 1) continue;
                for (uint32_t v : {1u, r.c[s][i] / 2, r.c[s][i] - 1}) { if (v == 0 || i >= r.c[s].size() || v >= r.c[s][i]) continue; Replay c = r; c.c[s][i] = v; auto before = cost(r); if (fails(c) && cost(c) <= before) { r = c; break; } }
            }
        }
    }
    return runs;
}

int main(int argc, char** argv) {
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); personality(pers | ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
    if (argc < 3) { fprintf(stderr, "usage: simtrax search|replay|minimize ...\n"); return 2; }
    std::string mode = argv[1];
    std::map<std::string, std::string> o;
    for (int i = 3; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, uint64_t d) { return o.count(k) ? strtoull(o[k].c_str(), nullptr, 10) : d; };
    if (o.count("--tier")) g_tier = o["--tier"];
    scratch_dir = o.count("--scratch") ? o["--scratch"] : "/tmp";
    { char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0; load_symbols(std::string(self) + ".sym"); }
    shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    heap_init();
    if (mode == "replay") {
        Replay r = load(argv[2]);
        int rc = one_run(find(r.prop), true, 0, r.c, num("--trace", 0));
        printf("rc=%d hash=%llu message=%s\n", rc, (unsigned long long)shm->trace_hash, shm->msg);
        if (rc == RC_VIOLATION) { bool same = shm->trace_hash == r.hash && signature(shm->msg) == signature(r.msg); printf("%s\n", same ? "REPRODUCED exactly" : "reproduced differently"); return same ? 1 : 3; }
        return rc == RC_OK ? 0 : 2;
    }
    if (mode == "one") {   // one <ID> --seed N --trace 1
        int rc = one_run(find(argv[2]), false, num("--seed", 1), nullptr, num("--trace", 0));
        printf("rc=%d hash=%llx steps=%llu simtime=%.3f choices=%u/%u/%u message=%s\nsample=%s\n", rc, (unsigned long long)shm->trace_hash, (unsigned long long)shm->steps, shm->simtime / 1e9, shm->nchoice[0], shm->nchoice[1], shm->nchoice[2], shm->msg, shm->sample);
        if (o.count("--save")) { Replay r; r.prop = argv[2]; r.seed = num("--seed", 1); grab(r); save(r, o["--save"]); }
        return rc;
    }
    if (mode == "minimize") {
        Replay r = load(argv[2]);
        int n = minimize(r, (double)num("--budget", 20), (int)num("--maxruns", 4000));
        if (n < 0) { printf("not reproduced\n"); return 2; }
        save(r, o.count("--out") ? o["--out"] : argv[2]);
        printf("minimised with %d runs: %zu/%zu/%zu choices\n", n, r.c[0].size(), r.c[1].size(), r.c[2].size());
        return 0;
    }
    if (mode != "search") return 2;
    std::string id = argv[2]; const Scenario* sc = find(id);
    uint64_t base = num("--seed", 1), runs = num("--runs", 100); double limit = (double)num("--time", 600); uint64_t stride = num("--stride", 1), first = num("--first", 0), twice = num("--twice", 200);
    std::vector<std::string> known; if (o.count("--known")) { std::ifstream f(o["--known"]); std::string l; while (std::getline(f, l)) if (!l.empty()) known.push_back(l); }
    std::unordered_set<uint64_t> states, scheds, traces; std::map<std::string, uint64_t> faults, probes, kn; std::vector<Replay> viol; std::map<std::string, int> vsig;
    uint64_t done = 0, steps = 0, simns = 0, switches = 0, preempts = 0, nontriv = 0, choices[3] = {0, 0, 0}, checked2 = 0; std::unordered_set<uint64_t> ntset; std::vector<std::string> samples; std::string harness;
    double t0 = wall();
    for (uint64_t i = first; i < runs && harness.empty(); i += stride) {
        if (wall() - t0 > limit) break;
        uint64_t seed = base * 1000003ull + i;
        int rc = one_run(sc, false, seed, nullptr, false);
        done++; steps += shm->steps; simns += shm->simtime; switches += shm->switches; preempts += shm->mem_preempts;
        for (uint32_t k = 0; k < shm->nstates; k++) states.insert(shm->states[k]);
        scheds.insert(shm->sched_hash); traces.insert(shm->trace_hash);
        if (shm->nontrivial && rc == RC_OK) { nontriv++; ntset.insert(shm->trace_hash); }
        for (int k = 0; k < NCOUNTER && shm->faults[k].name[0]; k++) faults[shm->faults[k].name] += shm->faults[k].n;
        for (int k = 0; k < NCOUNTER && shm->probes[k].name[0]; k++) probes[shm->probes[k].name]++;
        for (int k = 0; k < 3; k++) choices[k] += shm->nchoice[k];
        if (shm->sample[0] && samples.size() < 6 && (done % 7 == 1 || samples.empty())) samples.push_back("seed " + std::to_string(seed) + ": " + shm->sample);
        bool again = twice && (i % twice) == 7;
        if (rc != RC_OK || again) {
            Replay r; r.prop = id; r.seed = seed; grab(r);
            for (int k = 0; k < 3; k++) if (shm->nchoice[k] > MAXCHOICE && rc == RC_VIOLATION) r.msg += " [choice list truncated]";
            bool isk = false;
            if (rc == RC_VIOLATION) { std::string sg = signature(r.msg); for (auto& q : known) if (sg == q) { kn[q]++; isk = true; } if (!isk && vsig[sg]++ >= 1) { isk = true; } }
            if (!isk || again) {
                int rc2 = one_run(sc, false, seed, nullptr, false); checked2++;
                if (rc2 != rc || shm->trace_hash != r.hash) { harness = "seed " + std::to_string(seed) + " is not repeatable: rc " + std::to_string(rc) + "/" + std::to_string(rc2) + " " + r.msg + " / " + shm->msg; break; }
            }
            if (rc == RC_HARNESS) { harness = "seed " + std::to_string(seed) + ": " + r.msg; break; }
            if (rc == RC_VIOLATION && !isk) { viol.push_back(r); if (viol.size() >= num("--maxviol", 3)) break; }
        }
    }
    std::ofstream f(o["--out"]);
    f << "{\"runs\":" << done << ",\"steps\":" << steps << ",\"sim_ns\":" << simns << ",\"switches\":" << switches << ",\"mem_preempts\":" << preempts << ",\"nontrivial\":" << nontriv << ",\"repeat_checked\":" << checked2 << ",\"wall\":" << wall() - t0;
    f << ",\"choices\":[" << choices[0] << "," << choices[1] << "," << choices[2] << "]";
    auto dumpset = [&](const char* n, std::unordered_set<uint64_t>& s) { f << ",\"" << n << "\":["; bool c = false; for (auto v : s) { f << (c ? "," : "") << "\"" << std::hex << v << std::dec << "\""; c = true; } f << "]"; };
    dumpset("states", states); dumpset("scheds", scheds); dumpset("traces", traces); dumpset("nontrivial_traces", ntset);
    auto dumpmap = [&](const char* n, std::map<std::string, uint64_t>& m) { f << ",\"" << n << "\":{"; bool c = false; for (auto& v : m) { f << (c ? "," : "") << jstr(v.first) << ":" << v.second; c = true; } f << "}"; };
    dumpmap("faults", faults); dumpmap("probes", probes); dumpmap("known", kn);
    f << ",\"cov\":["; { bool c = false; for (int i = 0; i < COVSIZE; i++) if (shm->cov[i]) { f << (c ? "," : "") << i; c = true; } } f << "]";
    f << ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) f << (i ? "," : "") << jstr(samples[i]); f << "]";
    f << ",\"harness\":" << jstr(harness) << ",\"violations\":[";
    for (size_t i = 0; i < viol.size(); i++) { std::string p = o["--out"] + ".v" + std::to_string(i); save(viol[i], p); f << (i ? "," : "") << "{\"message\":" << jstr(viol[i].msg) << ",\"signature\":" << jstr(signature(viol[i].msg)) << ",\"seed\":" << viol[i].seed << ",\"file\":" << jstr(p) << ",\"count\":" << vsig[signature(viol[i].msg)] << "}"; }
    f << "]}\n";
    return 0;
}
