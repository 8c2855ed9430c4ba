// Core of the simulator: choice streams, coroutines, scheduler, virtual time, processes, descriptors, pipes, sockets.
#include "sim.h"
#include "shm.h"
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>

extern "C" { struct __cxa_eh_globals { void* a; unsigned int b; }; __cxa_eh_globals* __cxa_get_globals(); }
extern "C" { char** sim_environ = nullptr; }

namespace sim {

Shm* shm = nullptr;
Cfg cfg;
Task* cur = nullptr;
std::vector<Task*> tasks;
std::vector<Proc*> procs;
std::map<std::string, Program> programs;
std::set<std::string> dirs;
std::set<int> busy_ports;
std::function<int(const char*, Proc*, int)> fault_hook;
std::function<void()> step_hook;
std::function<void(Proc*)> death_hook;
bool replaying = false;
static std::vector<uint32_t> replay_list[NSTREAM];
static bool trace_on = false;
static uint64_t T = 0;
static uint64_t stall_used = 0;
static int next_pid = 100;
static std::map<int, File*> ports;       // listening sockets
static unsigned slice_steps = 0;         // 0: no limit

void set_replay(int s, std::vector<uint32_t> v) { replaying = true; replay_list[s] = std::move(v); }
void set_trace(bool t) { trace_on = t; }
bool tracing() { return trace_on; }

// ------------------------------------------------------------------ choices
static uint64_t rs[NSTREAM][2];
static uint64_t sm(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
void seed_streams(uint64_t seed) {
    for (int s = 0; s < NSTREAM; s++) { uint64_t x = seed * 0x2545F4914F6CDD1Dull + s * 0x1234567ull + 77; sm(x); rs[s][0] = sm(x); rs[s][1] = sm(x) | 1; }
}
static int gen_stream = 0;
static uint64_t rnd() {   // xorshift128+
    uint64_t* r = rs[gen_stream]; uint64_t a = r[0], b = r[1]; r[0] = b; a ^= a << 23; r[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return r[1] + b;
}
static uint32_t record(Stream s, uint32_t v) {
    uint32_t i = shm->nchoice[s];
    if (i < MAXCHOICE) shm->choices[s][i] = v;
    shm->nchoice[s] = i + 1;
    return v;
}
uint32_t draw(Stream s, const std::function<uint32_t(uint64_t (*)())>& gen) {
    uint32_t v;
    if (replaying) { uint32_t i = shm->nchoice[s]; v = i < replay_list[s].size() ? replay_list[s][i] : 0; }
    else { gen_stream = s; v = gen(rnd); }
    return record(s, v);
}
uint32_t choose(Stream s, uint32_t n) {
    if (n <= 1) return 0;
    uint32_t v;
    if (replaying) { uint32_t i = shm->nchoice[s]; v = i < replay_list[s].size() ? replay_list[s][i] : 0; if (v >= n) v = n - 1; }
    else { gen_stream = s; v = (uint32_t)(rnd() % n); }
    return record(s, v);
}
bool chance(Stream s, uint32_t num, uint32_t den) {
    if (num == 0) return false;
    uint32_t v;
    if (replaying) { uint32_t i = shm->nchoice[s]; v = i < replay_list[s].size() ? (replay_list[s][i] != 0) : 0; }
    else { gen_stream = s; v = (rnd() % den) < num; }
    return record(s, v) != 0;
}
int64_t between(Stream s, int64_t lo, int64_t hi) { return lo + (int64_t)choose(s, (uint32_t)(hi - lo + 1)); }

// ------------------------------------------------------------------ results
static void hash_bytes(const void* p, size_t n) {
    uint64_t h = shm->trace_hash; const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
    shm->trace_hash = h;
}
void evh(uint64_t a, uint64_t b, uint64_t c) {
    uint64_t v[5] = {a, b, c, T, (uint64_t)(cur ? cur->id : -1)};
    hash_bytes(v, sizeof v);
}
void ev(const char* fmt, ...) {
    char buf[2048]; va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
    hash_bytes(buf, n);
    if (trace_on) { fprintf(stderr, "%12.6f %-18s %s\n", T / 1e9, cur ? cur->name.c_str() : "-", buf); }
}
static void tr(const char* what, const std::string& x) { if (trace_on) fprintf(stderr, "%12.6f %-18s %s %s\n", T / 1e9, cur ? cur->name.c_str() : "-", what, x.c_str()); }   // printed only
static void bump(Counter* tab, const char* name) {
    for (int i = 0; i < NCOUNTER; i++) {
        if (!tab[i].name[0]) { strncpy(tab[i].name, name, sizeof tab[i].name - 1); tab[i].n = 1; return; }
        if (!strcmp(tab[i].name, name)) { tab[i].n++; return; }
    }
}
void fault(const char* kind) { bump(shm->faults, kind); evh(0xFA, (uint64_t)kind[0], (uint64_t)strlen(kind)); tr("FAULT", kind); }
void probe(const char* what) { static const char* want = getenv("PROBE_STOP"); if (want && !strcmp(want, what)) violation("probe: %s", what);  bump(shm->probes, what); }
void state(uint64_t h) { if (shm->nstates < NSTATES) shm->states[shm->nstates++] = h; }
void sample(const char* fmt, ...) {
    size_t l = strlen(shm->sample); va_list ap; va_start(ap, fmt);
    vsnprintf(shm->sample + l, sizeof shm->sample - l, fmt, ap); va_end(ap);
}
void set_nontrivial() { shm->nontrivial = 1; }
static void finish(int code) {
    shm->simtime = T; fflush(stderr); _exit(code);
}
void violation(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(shm->msg, sizeof shm->msg, fmt, ap); va_end(ap);
    if (trace_on) fprintf(stderr, "%12.6f VIOLATION %s\n", T / 1e9, shm->msg);
    finish(RC_VIOLATION);
}
void harness_error(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(shm->msg, sizeof shm->msg, fmt, ap); va_end(ap);
    if (trace_on) fprintf(stderr, "%12.6f HARNESS ERROR %s\n", T / 1e9, shm->msg);
    finish(RC_HARNESS);
}

// ------------------------------------------------------------------ coroutines
extern "C" void sim_switch(void** save, void* load);
__asm__(
    ".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n"
    ".size sim_switch,.-sim_switch\n");
extern "C" void sim_entry_asm();
__asm__(
    ".text\n.globl sim_entry_asm\n.type sim_entry_asm,@function\nsim_entry_asm:\n"
    ".cfi_startproc\n.cfi_undefined rip\n"
    "xorl %ebp,%ebp\ncall sim_entry\nud2\n.cfi_endproc\n"
    ".size sim_entry_asm,.-sim_entry_asm\n");

static void* sched_sp = nullptr;
static void* sched_fake = nullptr;
static const void* sched_bottom = nullptr;
static size_t sched_size = 0;

static void to_sched() {   // leave the current task
    Task* t = cur;
    t->err = errno;
    __cxa_eh_globals* g = __cxa_get_globals(); t->eh.a = g->a; t->eh.b = g->b;
    __sanitizer_start_switch_fiber(&t->fake, sched_bottom, sched_size);
    sim_switch(&t->sp, sched_sp);
    __sanitizer_finish_switch_fiber(t->fake, nullptr, nullptr);
    g = __cxa_get_globals(); g->a = t->eh.a; g->b = t->eh.b;
    errno = t->err;
}
extern "C" void sim_entry() {
    __sanitizer_finish_switch_fiber(nullptr, &sched_bottom, &sched_size);
    __cxa_eh_globals* g = __cxa_get_globals(); g->a = nullptr; g->b = 0;
    errno = 0;
    Task* t = cur;
    try { t->fn(); }
    catch (...) { violation("uncaught-exception: exception escaped thread %s of process %s", t->name.c_str(), t->proc->name.c_str()); }
    t->done = true;
    t->inflight.clear();
    t->proc->threads_alive--;
    evh(0xDD, t->id);
    to_sched();
    abort();
}
Task* new_task(Proc* p, const std::string& name, std::function<void()> fn, bool daemon) {
    Task* t = new Task; t->id = (int)tasks.size(); t->name = name; t->proc = p; t->fn = std::move(fn); t->daemon = daemon;
    t->stack_size = 512 * 1024;
    char* m = (char*)mmap(nullptr, t->stack_size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) harness_error("mmap stack");
    mprotect(m, 4096, PROT_NONE);
    t->stack = m + 4096;
    void** sp = (void**)((char*)t->stack + t->stack_size - 64);
    *--sp = nullptr;
    *--sp = (void*)sim_entry_asm;
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    t->sp = sp;
    tasks.push_back(t);
    p->threads_alive++;
    return t;
}
static void resume(Task* t) {
    cur = t; t->started = true;
    sim_environ = t->proc->env.data();
    // new time slice
    slice_steps = draw(S, [](uint64_t (*r)()) -> uint32_t {
        if (cfg.switch_num <= 0) return 0;
        if (cfg.switch_num >= 256) return 1;
        uint32_t k = 1; while (k < 4000 && (int)(r() & 255) >= cfg.switch_num) k++; return k; });
    t->mem_countdown = cfg.mem_switch_num ? draw(S, [](uint64_t (*r)()) -> uint32_t {
        if ((int)(r() & 255) >= cfg.mem_switch_num) return 0; return 1 + r() % cfg.mem_range; }) : 0;
    shm->sched_hash = mix(shm->sched_hash, t->id + 1);
    shm->switches++;
    __cxa_eh_globals* g = __cxa_get_globals(); void* ea = g->a; unsigned eb = g->b;
    __sanitizer_start_switch_fiber(&sched_fake, t->stack, t->stack_size);
    sim_switch(&sched_sp, t->sp);
    __sanitizer_finish_switch_fiber(sched_fake, nullptr, nullptr);
    g = __cxa_get_globals(); g->a = ea; g->b = eb;
    cur = nullptr;
}

// ------------------------------------------------------------------ scheduler
uint64_t now() { return T; }
void advance(uint64_t ns) { T += ns; }

static bool has_signal(Task* t) {
    return !t->in_handler && (((t->proc->sigpending | t->sigpending) & ~t->sigmask) != 0);
}
static bool ready(Task* t) {
    if (t->done || t->dead || !t->proc->alive || t->proc->frozen) return false;
    if (t->hold_until > T) return false;
    if (!t->blocked) return true;
    if (t->pred && (*t->pred)()) { t->timed_out = false; return true; }
    if (t->deadline <= T) { t->timed_out = true; return true; }
    if (has_signal(t)) { t->interrupted = true; return true; }
    return false;
}
std::string describe_tasks() {
    std::string s; char b[256];
    for (Task* t : tasks) if (!t->done && !t->dead && t->proc->alive) {
        snprintf(b, sizeof b, "[%s/%s %s%s]", t->proc->name.c_str(), t->name.c_str(), t->blocked ? "blocked in " : "runnable", t->blocked ? t->why : "");
        s += b;
    }
    return s;
}
void run() {
    Task* last = nullptr;
    for (;;) {
        bool need = false;
        for (Task* t : tasks) if (!t->done && !t->dead && t->proc->alive && !t->daemon) { need = true; break; }
        if (!need) break;
        static std::vector<Task*> r; r.clear();
        // the task that ran last comes first, so that choice 0 is "go on"
        if (last && ready(last)) r.push_back(last);
        for (Task* t : tasks) if (t != last && ready(t)) r.push_back(t);
        if (r.empty()) {
            uint64_t next = UINT64_MAX;
            for (Task* t : tasks) {
                if (t->done || t->dead || !t->proc->alive || t->proc->frozen) continue;
                if (t->hold_until > T) next = std::min(next, t->hold_until);
                else if (t->blocked) next = std::min(next, t->deadline);
            }
            if (next == UINT64_MAX) violation("deadlock: nothing can run any more: %s", describe_tasks().c_str());
            T = std::max(T, next);
            if (T > cfg.max_time) violation("no-progress: virtual time limit of %llu s exceeded: %s", (unsigned long long)(cfg.max_time / SEC), describe_tasks().c_str());
            continue;
        }
        if (shm->steps++ > cfg.max_steps) violation("no-progress: step limit exceeded at t=%.3fs: %s", T / 1e9, describe_tasks().c_str());
        Task* t = r[choose(S, (uint32_t)r.size())];
        if (trace_on && t != last) tr("--", t->proc->name + "/" + t->name + " runs");
        evh(0x5C, t->id);
        last = t;
        resume(t);
        if (T > cfg.max_time) violation("no-progress: virtual time limit of %llu s exceeded: %s", (unsigned long long)(cfg.max_time / SEC), describe_tasks().c_str());
    }
    shm->simtime = T;
}
static void run_signals() {
    Task* t = cur;
    while (has_signal(t)) {
        uint64_t p = (t->proc->sigpending | t->sigpending) & ~t->sigmask;
        int sig = __builtin_ctzll(p);
        t->proc->sigpending &= ~(1ull << sig); t->sigpending &= ~(1ull << sig);
        SigAct a = t->proc->sig[sig];
        if (a.kind == 1) continue;
        if (a.kind == 0) {
            if (sig == SIGCHLD || sig == SIGCONT || sig == SIGURG || sig == SIGWINCH) continue;
            kill_proc(t->proc, sig);   // does not return for the current task
        }
        t->in_handler++; ev("signal handler %d", sig); a.handler(sig); t->in_handler--;
    }
}
void yield() {
    if (!cur) return;
    to_sched();
    run_signals();
}
static bool in_hook = false;
void step(const char* call) {
    if (!cur) return;
    T += cfg.call_cost;
    cur->steps++;
    if (++shm->steps > cfg.max_steps) violation("no-progress: step limit exceeded at t=%.3fs: %s", T / 1e9, describe_tasks().c_str());
    if (step_hook && !in_hook) { in_hook = true; step_hook(); in_hook = false; }
    if (!cur->proc->alive) { to_sched(); }
    if (cfg.stall_num && stall_used < cfg.stall_budget && chance(F, cfg.stall_num, 4096)) {
        uint64_t d = 1 + (uint64_t)choose(F, 1024) * cfg.stall_max / 1024;
        stall_used += d; fault("stall");
        cur->hold_until = T + d; to_sched();
    } else if (slice_steps && --slice_steps == 0) to_sched();
    run_signals();
}
bool block(const char* why, const std::function<bool()>& pred, uint64_t deadline) {
    Task* t = cur;
    if (!t) harness_error("block outside a task: %s", why);
    t->interrupted = false; t->timed_out = false;
    if (pred && pred()) return true;
    t->blocked = true; t->pred = pred ? &pred : nullptr; t->deadline = deadline; t->why = why;
    to_sched();
    t->blocked = false; t->pred = nullptr; t->deadline = UINT64_MAX; t->why = "";
    bool to = t->timed_out, in = t->interrupted;
    if (in) run_signals();
    t->interrupted = in; t->timed_out = to;
    return !to && !in;
}
void sleep_for(uint64_t ns) {
    uint64_t d = T + ns; static const std::function<bool()> never;
    while (T < d) block("sleep", never, d);
}
// called from instrumented memory accesses of the code under test
void mem_access() {
    Task* t = cur;
    if (t && t->mem_countdown && --t->mem_countdown == 0) { shm->mem_preempts++; evh(0x33); T += 100; if (!t->proc->alive) {} to_sched(); }
}

// ------------------------------------------------------------------ processes
Proc* new_proc(const std::string& name, Proc* parent) {
    Proc* p = new Proc; p->pid = next_pid++; p->name = name; p->parent = parent; p->born_at = T;
    if (parent) { p->env_store = parent->env_store; p->cwd = parent->cwd; for (int i = 0; i < 65; i++) if (parent->sig[i].kind == 1) p->sig[i] = parent->sig[i]; }
    p->env.clear(); for (auto& e : p->env_store) p->env.push_back(&e[0]); p->env.push_back(nullptr);
    procs.push_back(p);
    return p;
}
void set_env(Proc* p, const std::string& k, const std::string& v) {
    std::string pre = k + "=";
    for (auto it = p->env_store.begin(); it != p->env_store.end();) if (it->compare(0, pre.size(), pre) == 0) it = p->env_store.erase(it); else ++it;
    p->env_store.push_back(pre + v);
    p->env.clear(); for (auto& e : p->env_store) p->env.push_back(&e[0]); p->env.push_back(nullptr);
    if (cur && cur->proc == p) sim_environ = p->env.data();
}
static void end_proc(Proc* p, int wstatus) {
    if (!p->alive) return;
    p->alive = false; p->zombie = true; p->wstatus = wstatus; p->died_at = T;
    for (Task* t : tasks) if (t->proc == p) { t->dead = true; t->inflight.clear(); }
    p->threads_alive = 0;
    std::map<int, FdEnt> f; f.swap(p->fds); f.clear();
    for (Proc* c : procs) if (c->parent == p) { c->parent = nullptr; if (c->zombie) c->reaped = true; }
    if (!p->parent || !p->parent->alive) { p->reaped = true; p->zombie = false; }
    if (p->parent && p->parent->alive && p->parent->sig[SIGCHLD].kind == 2) p->parent->sigpending |= 1ull << SIGCHLD;
    if (p->parent && p->parent->alive && p->parent->sig[SIGCHLD].kind == 1) { p->reaped = true; p->zombie = false; }
    if (death_hook) death_hook(p);
    if (cur && cur->proc == p) to_sched();   // never returns
}
void kill_proc(Proc* p, int sig) { ev("process %s killed by signal %d", p->name.c_str(), sig); end_proc(p, sig & 0x7f); }
void exit_proc(Proc* p, int code) { ev("process %s exits with %d", p->name.c_str(), code); p->exit_code = code & 255; end_proc(p, (code & 255) << 8); }
void deliver(Proc* p, int sig) {
    if (!p->alive || sig == 0) return;
    p->sig_received[sig]++;
    ev("signal %d sent to %s", sig, p->name.c_str());
    if (sig == SIGKILL) { kill_proc(p, sig); return; }
    if (sig == SIGSTOP) { p->frozen = true; return; }
    if (sig == SIGCONT) { p->frozen = false; return; }
    if (p->sig[sig].kind == 1) return;
    if (p->sig[sig].kind == 0) {
        if (sig == SIGCHLD || sig == SIGURG || sig == SIGWINCH) return;
        bool allmasked = true;
        for (Task* t : tasks) if (t->proc == p && !t->done && !t->dead && !(t->sigmask & (1ull << sig))) allmasked = false;
        if (!allmasked) { kill_proc(p, sig); return; }
    }
    p->sigpending |= 1ull << sig;
}
static void sigpipe() {
    Proc* p = cur->proc; ev("SIGPIPE raised in %s", p->name.c_str()); p->sig_received[SIGPIPE]++;
    if (p->sig[SIGPIPE].kind == 1) return;
    if (cur->sigmask & (1ull << SIGPIPE)) { cur->sigpending |= 1ull << SIGPIPE; return; }
    if (p->sig[SIGPIPE].kind == 0) { kill_proc(p, SIGPIPE); return; }
    cur->sigpending |= 1ull << SIGPIPE;
}

// ------------------------------------------------------------------ descriptors
File::~File() {
    if (kind == FK_PIPE_R && rx) rx->readers--;
    if (kind == FK_PIPE_W && tx) tx->writers--;
    if (kind == FK_SOCK) {
        if (rx) { rx->readers--; }
        if (tx) { tx->writers--; if (rx && !rx->data.empty()) tx->reset = true; }   // unread data: reset
        if (st == SS_LISTEN) { auto it = ports.find(port); if (it != ports.end() && it->second == this) ports.erase(it);
            for (auto& q : queue) if (q->tx) q->tx->reset = true; }
    }
}
int install(Proc* p, FileP f, int fd, bool cloexec) {
    if (fd < 0) { fd = 0; while (p->fds.count(fd)) fd++; }
    p->fds[fd] = FdEnt{f, cloexec};
    if (fd > p->max_fd) p->max_fd = fd;
    p->fds_opened++;
    return fd;
}
int live_fds(Proc* p) { return (int)p->fds.size(); }
void close_all(Proc* p) { std::map<int, FdEnt> f; f.swap(p->fds); }
void make_pipe(FileP& r, FileP& w, size_t cap) {
    auto pi = std::make_shared<Pipe>(); pi->cap = cap; pi->readers = pi->writers = 1;
    r = std::make_shared<File>(); r->kind = FK_PIPE_R; r->rx = pi;
    w = std::make_shared<File>(); w->kind = FK_PIPE_W; w->tx = pi;
}
static FileP getf(int fd) {
    auto it = cur->proc->fds.find(fd);
    if (it == cur->proc->fds.end()) return nullptr;
    return it->second.f;
}
int k_close(int fd) {
    step("close");
    auto it = cur->proc->fds.find(fd);
    if (it == cur->proc->fds.end()) { probe("close-bad-fd"); ev("close(%d) = EBADF", fd); errno = EBADF; return -1; }
    ev("close(%d)", fd);
    FileP f = it->second.f; cur->proc->fds.erase(it); f.reset();
    return 0;
}
struct Hold {   // keeps a file alive while a call uses it, released if the process dies meanwhile
    Task* t; size_t n;
    Hold(FileP f) : t(cur), n(cur->inflight.size()) { t->inflight.push_back(f); }
    ~Hold() { if (t->inflight.size() > n) t->inflight.resize(n); }
};
static bool eintr_here() {
    if (cfg.eintr && chance(F, cfg.eintr, 256)) { fault("EINTR"); return true; }
    return false;
}
long k_read(int fd, void* buf, size_t n, bool sock, int flags) {
    step(sock ? "recv" : "read");
    FileP fp = getf(fd); File* f = fp.get();
    if (!f) { ev("read(%d) = EBADF", fd); probe("read-bad-fd"); errno = EBADF; return -1; }
    Hold h(fp); fp.reset();
    if (fault_hook) { int e = fault_hook("read", cur->proc, fd); if (e) { errno = e; ev("read(%d) = errno %d (injected)", fd, e); return -1; } }
    if (f->kind == FK_NULL) return 0;
    if (f->kind == FK_SOCK && f->st != SS_CONNECTED) { errno = ENOTCONN; return -1; }
    if (!f->rx) { errno = EBADF; return -1; }
    Pipe* p = f->rx.get();
    bool nb = f->nonblock || (sock && (flags & 0x40));
    if (n == 0) return 0;
    while (p->data.empty()) {
        if (f->kind == FK_SOCK && (f->rd_shut || p->writers == 0)) {
            if (p->reset) { p->reset = false; ev("read(%d) = ECONNRESET", fd); errno = ECONNRESET; return -1; }
            ev("read(%d) = 0", fd); return 0;
        }
        if (f->kind == FK_PIPE_R && p->writers == 0) { ev("read(%d) = 0 (end)", fd); return 0; }
        if (nb) { errno = EAGAIN; return -1; }
        if (eintr_here()) { yield(); errno = EINTR; return -1; }
        std::function<bool()> pr = [p, f]() { return !p->data.empty() || p->writers == 0 || (f->kind == FK_SOCK && f->rd_shut); };
        if (!block("read", pr)) { if (cur->interrupted) { errno = EINTR; return -1; } }
    }
    size_t k = std::min(n, p->data.size());
    if (k > 1 && cfg.short_read) {
        uint32_t c = draw(F, [k](uint64_t (*r)()) -> uint32_t {
            if ((int)(r() & 255) >= cfg.short_read) return 0;
            uint32_t m = (r() & 3) ? (uint32_t)std::min<size_t>(k, 1 + r() % 16) : (uint32_t)k;
            return 1 + r() % m; });
        if (c && c < k) { k = c; fault("short-read"); }
    }
    for (size_t i = 0; i < k; i++) ((char*)buf)[i] = p->data[i];
    if (!(sock && (flags & 0x2))) { p->data.erase(p->data.begin(), p->data.begin() + k); p->total_out += k; }
    hash_bytes(buf, k); ev("read(%d) = %zu", fd, k);
    return (long)k;
}
long k_write(int fd, const void* buf, size_t n, bool sock, int flags) {
    step(sock ? "send" : "write");
    FileP fp = getf(fd); File* f = fp.get();
    if (!f) { ev("write(%d) = EBADF", fd); probe("write-bad-fd"); errno = EBADF; return -1; }
    Hold h(fp); fp.reset();
    if (fault_hook) {
        int e = fault_hook("write", cur->proc, fd);
        if (e) { ev("write(%d) = errno %d (injected)", fd, e); if (e == EPIPE && !(sock && (flags & 0x4000))) sigpipe(); errno = e; return -1; }
    }
    if (f->kind == FK_NULL) return (long)n;
    if (f->kind == FK_CAPTURE) { if (f->capture) f->capture->append((const char*)buf, n); return (long)n; }
    if (f->kind == FK_SOCK && f->st != SS_CONNECTED) { if (!(sock && (flags & 0x4000))) sigpipe(); errno = f->st == SS_CLOSED ? EPIPE : ENOTCONN; return -1; }
    if (!f->tx) { errno = EBADF; return -1; }
    Pipe* p = f->tx.get();
    bool nb = f->nonblock || (sock && (flags & 0x40));
    size_t done = 0;
    int64_t intr_at = -1;      // a signal interrupts this write after so many bytes
    if (n > 1 && cfg.short_write) {
        uint32_t c = draw(F, [n](uint64_t (*r)()) -> uint32_t { if ((int)(r() & 255) >= cfg.short_write) return 0; return 1 + r() % n; });
        if (c && c < n) intr_at = c;
    }
    while (done < n) {
        if (p->readers == 0 || f->wr_shut) {
            ev("write(%d) after %zu: broken pipe", fd, done);
            if (f->kind == FK_SOCK && f->rx && f->rx->reset) { f->rx->reset = false; errno = ECONNRESET; return done ? (long)done : -1; }
            if (!(sock && (flags & 0x4000))) sigpipe();
            if (done) return (long)done;
            errno = EPIPE; return -1;
        }
        size_t space = p->cap > p->data.size() ? p->cap - p->data.size() : 0;
        if (space == 0) {
            if (nb) { if (done) break; errno = EAGAIN; return -1; }
            if (eintr_here()) { yield(); if (done) { fault("short-write"); break; } errno = EINTR; return -1; }
            std::function<bool()> pr = [p, f]() { return p->data.size() < p->cap || p->readers == 0 || f->wr_shut; };
            probe("write-blocked");
            if (!block("write", pr) && cur->interrupted) { if (done) break; errno = EINTR; return -1; }
            continue;
        }
        size_t k = std::min(space, n - done);
        if (intr_at >= 0 && done + k > (size_t)intr_at) k = (size_t)intr_at - done;
        p->data.insert(p->data.end(), (const char*)buf + done, (const char*)buf + done + k);
        p->total_in += k; done += k;
        if (p->tap) p->tap->append((const char*)buf + done - k, k);
        if (intr_at >= 0 && done == (size_t)intr_at && done < n) { fault("short-write"); break; }
    }
    hash_bytes(buf, done); ev("write(%d, %zu) = %zu", fd, n, done);
    return (long)done;
}
int k_socket() {
    FileP f = std::make_shared<File>(); f->kind = FK_SOCK;
    return install(cur->proc, f);
}
std::function<void(File*, File*)> connect_hook;
static void connect_now(File* a, File* l) {
    FileP b = std::make_shared<File>(); b->kind = FK_SOCK;
    auto p1 = std::make_shared<Pipe>(), p2 = std::make_shared<Pipe>();
    p1->cap = p2->cap = cfg.pipe_cap; p1->readers = p1->writers = p2->readers = p2->writers = 1;
    a->tx = p1; b->rx = p1; a->rx = p2; b->tx = p2; a->st = b->st = SS_CONNECTED; b->port = l->port;
    l->queue.push_back(b);
    if (connect_hook) connect_hook(a, b.get());
}
static File* find_listener(int port) { auto it = ports.find(port); return it == ports.end() ? nullptr : it->second; }
int k_connect(int fd, int port) {
    step("connect");
    if (fault_hook) { int e = fault_hook("connect", cur->proc, fd); if (e) { ev("connect(%d) = errno %d (injected)", fd, e); errno = e; return -1; } }
    File* f; { FileP fp = getf(fd); f = fp.get(); if (!f) { errno = EBADF; return -1; } cur->inflight.push_back(fp); }
    struct Pop { Task* t = cur; size_t n = cur->inflight.size() - 1; ~Pop() { if (t->inflight.size() > n) t->inflight.resize(n); } } pop;
    if (f->kind != FK_SOCK) { errno = ENOTSOCK; return -1; }
    if (f->st == SS_CONNECTED) { errno = EISCONN; return -1; }
    File* l = find_listener(port);
    if (!l) { ev("connect(%d, port %d) refused", fd, port); probe("connect-refused"); errno = ECONNREFUSED; return -1; }
    if (eintr_here()) { connect_now(f, l); ev("connect(%d) interrupted", fd); yield(); errno = EINTR; return -1; }
    // a full accept queue delays the connection
    while ((int)l->queue.size() > l->backlog) {
        std::function<bool()> pr = [port]() { File* i = find_listener(port); return !i || (int)i->queue.size() <= i->backlog; };
        if (!block("connect", pr, T + 120 * SEC)) { errno = cur->interrupted ? EINTR : ETIMEDOUT; return -1; }
        l = find_listener(port);
        if (!l) { errno = ECONNREFUSED; return -1; }
    }
    connect_now(f, l);
    ev("connect(%d, port %d) ok", fd, port);
    return 0;
}
bool port_listen(FileP f, int backlog) {
    if (f->st == SS_LISTEN) { f->backlog = backlog; return true; }
    auto it = ports.find(f->port);
    if (it != ports.end() && it->second != f.get()) return false;
    ports[f->port] = f.get(); f->st = SS_LISTEN; f->backlog = backlog; return true;
}
bool port_busy(int port) { return busy_ports.count(port) || ports.count(port); }


}  // namespace sim

extern "C" {
// Instrumentation callbacks of the code under test
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) { static uint32_t n = 0; if (start == stop || *start) return; for (uint32_t* x = start; x < stop; x++) *x = ++n; }
void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    using namespace sim;
    if (!shm) return;
    uint32_t i = *g; if (i < COVSIZE) shm->cov[i] = 1;
    if (++shm->edges > shm->edge_limit) { shm->edge_limit = UINT64_MAX; violation("endless-loop: the code under test computes without end in %s/%s", cur ? cur->proc->name.c_str() : "-", cur ? cur->name.c_str() : "-"); }
}
}
namespace sim { void mem_access_fwd() { mem_access(); } }
extern "C" {
void __sanitizer_cov_load1(uint8_t*) { sim::mem_access_fwd(); }
void __sanitizer_cov_load2(uint16_t*) { sim::mem_access_fwd(); }
void __sanitizer_cov_load4(uint32_t*) { sim::mem_access_fwd(); }
void __sanitizer_cov_load8(uint64_t*) { sim::mem_access_fwd(); }
void __sanitizer_cov_load16(void*) { sim::mem_access_fwd(); }
void __sanitizer_cov_store1(uint8_t*) { sim::mem_access_fwd(); }
void __sanitizer_cov_store2(uint16_t*) { sim::mem_access_fwd(); }
void __sanitizer_cov_store4(uint32_t*) { sim::mem_access_fwd(); }
void __sanitizer_cov_store8(uint64_t*) { sim::mem_access_fwd(); }
void __sanitizer_cov_store16(void*) { sim::mem_access_fwd(); }
}
