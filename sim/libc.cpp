// Simulated libc/pthread/C++ runtime calls. The object files of the code under test have every reference to <name>
// replaced by sim_<name> (tools/build.py), so that nothing they do reaches the real machine.
#include "sim.h"
#include "shm.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <new>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <spawn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <system_error>
#include <mutex>
#include <thread>
#include <condition_variable>
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>

using namespace sim;

extern "C" char** sim_environ;

namespace sim {
int64_t clock_offset = 0;
static const int64_t EPOCH = 1700000000ll * 1000000000ll;

// ------------------------------------------------------------------ heap accounting
struct Slot { void* p; Proc* owner; size_t size; uint64_t id; };
static const size_t NSLOT = 1 << 20;
static Slot* slots;
static uint64_t alloc_seq = 0;
static size_t used_slots = 0;
static inline size_t slot_of(void* p) { return (((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull) >> 44; }
void heap_init() { slots = (Slot*)calloc(NSLOT, sizeof(Slot)); }
static void track(void* p, size_t n) {
    if (!p || !cur || !slots) return;
    size_t i = slot_of(p) % NSLOT;
    while (slots[i].p) i = (i + 1) % NSLOT;
    slots[i] = {p, cur->proc, n, ++alloc_seq};
    if (++used_slots > NSLOT * 3 / 4) harness_error("allocation table full");
    cur->proc->live_allocs++;
}
static void untrack(void* p) {
    if (!p || !slots) return;
    size_t i = slot_of(p) % NSLOT;
    while (slots[i].p && slots[i].p != p) i = (i + 1) % NSLOT;
    if (!slots[i].p) return;
    slots[i].owner->live_allocs--; used_slots--;
    // backward-shift deletion
    size_t j = i;
    for (;;) {
        slots[i].p = nullptr;
        for (;;) {
            j = (j + 1) % NSLOT;
            if (!slots[j].p) return;
            size_t k = slot_of(slots[j].p) % NSLOT;
            if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
            break;
        }
        slots[i] = slots[j]; i = j;
    }
}
static void hook_free(const volatile void* p) { untrack((void*)p); }
static void hook_malloc(const volatile void*, size_t) {}
void heap_hooks() { __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free); }
size_t live_allocs(Proc* p) { return p->live_allocs; }
uint64_t alloc_mark() { return alloc_seq; }
std::string describe_allocs(Proc* p, uint64_t after) {
    std::map<std::string, std::pair<size_t, uint64_t>> by;
    for (size_t i = 0; i < NSLOT; i++) if (slots[i].p && slots[i].owner == p && slots[i].id > after) {
        void* st[24]; int tid; size_t n = __asan_get_alloc_stack(slots[i].p, st, 24, &tid);
        std::string where; int used = 0;
        for (size_t k = 0; k < n && used < 3; k++) {
            std::string f = symname((uintptr_t)st[k]);
            if (f.compare(0, 4, "sim_") == 0 || f.find("std::") == 0 || f.find("__") == 0 || f.find("operator new") != std::string::npos || f.find("malloc") != std::string::npos || f.find("interceptor") != std::string::npos) continue;
            if (f.find("scen_") != std::string::npos) break;
            if (!where.empty()) where += "<"; where += f.substr(0, 60); used++;
        }
        auto& e = by[where]; e.first++; e.second += slots[i].size;
    }
    std::string out; char b[400];
    for (auto& e : by) { snprintf(b, sizeof b, "%s%zu x %s (%llu bytes)", out.empty() ? "" : ", ", e.second.first, e.first.c_str(), (unsigned long long)e.second.second); out += b; }
    return out;
}
std::string first_alloc_site(Proc* p, uint64_t after) {
    std::string d = describe_allocs(p, after); size_t a = d.find(" x "), b = d.find(" (");
    if (a == std::string::npos) return "?";
    std::string s = d.substr(a + 3, b - a - 3);
    return s;
}

// ------------------------------------------------------------------ mutexes, conditions
struct Mutex { int kind = 0; Task* owner = nullptr; int depth = 0; int waiters = 0; bool dead = false; };
struct Waiter { Task* t; bool woken; };
struct Cond { std::deque<Waiter*> q; int clock = CLOCK_REALTIME; };
struct Tag { uint32_t magic, idx; };
static std::vector<Mutex*> mutexes;
static std::vector<Cond*> conds;
static const uint32_t MMAGIC = 0x4d555458, CMAGIC = 0x434f4e44;
static Mutex* mget(pthread_mutex_t* m) {
    Tag* t = (Tag*)m;
    if (t->magic != MMAGIC || t->idx >= mutexes.size()) {
        Mutex* x = new Mutex; x->kind = m->__data.__kind & 3;
        mutexes.push_back(x); t->magic = MMAGIC; t->idx = (uint32_t)mutexes.size() - 1;
    }
    return mutexes[t->idx];
}
static Cond* cget(void* c) {
    Tag* t = (Tag*)c;
    if (t->magic != CMAGIC || t->idx >= conds.size()) { conds.push_back(new Cond); t->magic = CMAGIC; t->idx = (uint32_t)conds.size() - 1; }
    return conds[t->idx];
}
static uint64_t abs_deadline(int clock, const struct timespec* ts) {
    int64_t v = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
    int64_t base = clock == CLOCK_REALTIME ? EPOCH + clock_offset : 0;
    v -= base;
    return v < 0 ? 0 : (uint64_t)v;
}
static int mlock(Mutex* m, uint64_t deadline = UINT64_MAX, bool tryit = false) {
    if (!cur) return 0;
    step("mutex_lock");
    if (m->owner == cur) {
        if (m->kind == PTHREAD_MUTEX_RECURSIVE) { m->depth++; return 0; }
        if (m->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    if (m->owner) {
        if (tryit) return EBUSY;
        probe("mutex-contended");
        m->waiters++;
        std::function<bool()> pr = [m]() { return !m->owner; };
        while (m->owner) {
            if (!block("mutex_lock", pr, deadline) && !cur->interrupted) { m->waiters--; return ETIMEDOUT; }
        }
        m->waiters--;
    }
    m->owner = cur; m->depth = 1;
    return 0;
}
static int munlock(Mutex* m) {
    if (!cur) return 0;
    if (m->owner != cur && (m->kind == PTHREAD_MUTEX_RECURSIVE || m->kind == PTHREAD_MUTEX_ERRORCHECK)) { probe("unlock-not-owner"); return EPERM; }
    if (--m->depth > 0) return 0;
    m->owner = nullptr; m->depth = 0;
    step("mutex_unlock");
    return 0;
}
static int cwait(Cond* c, Mutex* m, uint64_t deadline) {
    step("cond_wait");
    Waiter w{cur, false};
    c->q.push_back(&w);
    int depth = m->depth; m->owner = nullptr; m->depth = 0;
    std::function<bool()> pr = [&w]() { return w.woken; };
    int r = 0;
    if (cfg.spurious && chance(F, cfg.spurious, 256)) { fault("spurious-wakeup"); yield(); }
    else while (!w.woken) {
        if (block("cond_wait", pr, deadline)) break;
        if (!cur->interrupted) { r = w.woken ? 0 : ETIMEDOUT; break; }
    }
    for (auto it = c->q.begin(); it != c->q.end(); ++it) if (*it == &w) { c->q.erase(it); break; }
    std::function<bool()> pm = [m]() { return !m->owner; };
    while (m->owner) block("cond_wait relock", pm);
    m->owner = cur; m->depth = depth;
    return r;
}
static void cnotify(Cond* c, bool all) {
    if (!cur) return;
    step("cond_signal");
    // waiters of dead processes never leave the queue by themselves
    for (auto it = c->q.begin(); it != c->q.end();) if ((*it)->t->dead) it = c->q.erase(it); else ++it;
    std::vector<Waiter*> w; for (auto x : c->q) if (!x->woken) w.push_back(x);
    if (w.empty()) { probe("notify-without-waiter"); return; }
    if (all) for (auto x : w) x->woken = true;
    else w[choose(S, (uint32_t)w.size())]->woken = true;
}

// ------------------------------------------------------------------ readiness
static bool rd_ready(File* f) {
    if (f->kind == FK_NULL || f->kind == FK_CAPTURE) return true;
    if (f->kind == FK_SOCK && f->st == SS_LISTEN) return !f->queue.empty();
    if (f->kind == FK_SOCK && f->st != SS_CONNECTED) return true;
    if (!f->rx) return true;
    return !f->rx->data.empty() || f->rx->writers == 0 || f->rd_shut;
}
static bool wr_ready(File* f) {
    if (!f->tx) return f->kind != FK_SOCK || f->st != SS_LISTEN;
    return f->tx->data.size() < f->tx->cap || f->tx->readers == 0 || f->wr_shut;
}
static File* fget(int fd) { auto it = cur->proc->fds.find(fd); return it == cur->proc->fds.end() ? nullptr : it->second.f.get(); }
static int inject(const char* call, int fd = -1) {
    if (!fault_hook) return 0;
    int e = fault_hook(call, cur->proc, fd);
    if (e) ev("%s(%d) fails with errno %d (injected)", call, fd, e);
    return e;
}
#define INJECT(call, fd, ret) do { int e_ = inject(call, fd); if (e_) { errno = e_; return ret; } } while (0)
#define NEED(f, fd) File* f = fget(fd); if (!f) { probe("bad-fd"); ev("%s(%d) = EBADF", __func__ + 4, fd); errno = EBADF; return -1; }

struct SpawnAct { int op; int a, b; std::string path; };
static std::map<const void*, std::vector<SpawnAct>> spawn_acts; static std::map<const void*, void*> spawn_mem;   // the memory that the list holds
static std::vector<SpawnAct>& acts_of(const void* f, const char* what) { auto it = spawn_acts.find(f); if (it == spawn_acts.end()) { violation("spawn-actions: %s of a list of file actions that is not initialized", what); } return it->second; }
static void add_act(const void* f, const SpawnAct& a) { auto& v = acts_of(f, "use"); if (v.empty()) { void* m = malloc(8 * 80); track(m, 8 * 80); spawn_mem[f] = m; } v.push_back(a); }
struct SpawnAttr { short flags = 0; uint64_t mask = 0, def = 0; };
static std::map<const void*, SpawnAttr> spawn_attrs;

static int poll_common(std::vector<std::pair<int, int>>& want, std::vector<int>& got, uint64_t deadline, const char* name) {
    // want: fd, events (1 read, 2 write); got: result bits (4 invalid, 8 hangup)
    std::vector<File*> fs; size_t n0 = cur->inflight.size();
    for (auto& w : want) { auto it = cur->proc->fds.find(w.first); if (w.first >= 0 && it != cur->proc->fds.end()) { fs.push_back(it->second.f.get()); cur->inflight.push_back(it->second.f); } else fs.push_back(nullptr); }
    auto scan = [&]() { int n = 0; got.assign(want.size(), 0);
        for (size_t i = 0; i < want.size(); i++) {
            if (want[i].first < 0) continue;
            if (!fs[i]) { got[i] = 4; n++; continue; }
            if ((want[i].second & 1) && rd_ready(fs[i])) got[i] |= 1;
            if ((want[i].second & 2) && wr_ready(fs[i])) got[i] |= 2;
            if (fs[i]->rx && fs[i]->rx->writers == 0) got[i] |= 8;
            if (got[i]) n++;
        } return n; };
    std::function<bool()> pr = [&]() { return scan() > 0; };
    int r = scan();
    if (!r && deadline > now()) {
        if (cfg.eintr && chance(F, cfg.eintr, 256)) { fault("EINTR"); sim::yield(); cur->inflight.resize(n0); errno = EINTR; return -1; }
        bool ok = block(name, pr, deadline);
        if (!ok && cur->interrupted) { cur->inflight.resize(n0); errno = EINTR; return -1; }
        r = scan();
    }
    cur->inflight.resize(n0);
    return r;
}
static std::string prog_name(const std::string& s) { return s; }
static int do_spawn(pid_t* pid, const char* file, const posix_spawn_file_actions_t* fa, const posix_spawnattr_t* at, char* const argv[], char* const envp[]) {
    step("posix_spawn");
    int e = inject("posix_spawn"); if (e) return e;
    auto it = programs.find(prog_name(file));
    if (it == programs.end()) { ev("posix_spawn(%s): no such program", file); return ENOENT; }
    Proc* c = new_proc(file, cur->proc);
    c->fds = cur->proc->fds;
    if (envp) { c->env_store.clear(); for (char* const* e = envp; *e; e++) c->env_store.push_back(*e); c->env.clear(); for (auto& s : c->env_store) c->env.push_back(&s[0]); c->env.push_back(nullptr); }
    for (char* const* a = argv; a && *a; a++) c->argv.push_back(*a);
    int bad = 0;
    if (fa) for (auto& x : acts_of(fa, "use")) {
        if (x.op == 0) { if (c->fds.count(x.a)) c->fds.erase(x.a); /* glibc ignores EBADF here */ }
        else if (x.op == 1) {
            auto f = c->fds.find(x.a);
            if (f == c->fds.end()) { bad = EBADF; break; }
            if (x.a == x.b) f->second.cloexec = false; else { FdEnt n; n.f = f->second.f; c->fds[x.b] = n; }
        } else if (x.op == 2) { if (!dirs.count(x.path)) { bad = ENOENT; break; } c->cwd = x.path; }
        else if (x.op == 3) { auto f = std::make_shared<File>(); c->fds[x.a] = FdEnt{f, false}; }
        else if (x.op == 4) { for (auto i = c->fds.begin(); i != c->fds.end();) if (i->first >= x.a) i = c->fds.erase(i); else ++i; }
    }
    if (bad) { c->alive = false; c->reaped = true; c->fds.clear(); return bad; }
    for (auto i = c->fds.begin(); i != c->fds.end();) if (i->second.cloexec) i = c->fds.erase(i); else ++i;
    Program prog = it->second;
    Task* t = new_task(c, std::string(file) + "#" + std::to_string(c->pid), [c, prog]() { int rc = prog(c); exit_proc(c, rc); }, true);
    t->sigmask = cur->sigmask;
    if (at) { SpawnAttr& a = spawn_attrs[at]; if (a.flags & POSIX_SPAWN_SETSIGMASK) t->sigmask = a.mask; if (a.flags & POSIX_SPAWN_SETSIGDEF) for (int s = 1; s < 64; s++) if (a.def & (1ull << s)) c->sig[s] = SigAct(); }
    if (cur->proc->sig[SIGCHLD].kind == 1) {}
    if (pid) *pid = c->pid;
    ev("spawn %s = pid %d", file, c->pid);
    probe("spawned");
    return 0;
}
static uint64_t setbits(const sigset_t* s) { uint64_t m = 0; for (int i = 1; i < 64; i++) if (sigismember(s, i) == 1) m |= 1ull << i; return m; }
static void bitset(uint64_t m, sigset_t* s) { sigemptyset(s); for (int i = 1; i < 64; i++) if (m & (1ull << i)) sigaddset(s, i); }
static int thread_start(std::function<void()> fn, unsigned long* id, bool detached) {
    step("pthread_create");
    int e = inject("pthread_create"); if (e) return e;
    Task* t = new_task(cur->proc, cur->proc->name + "-t" + std::to_string(tasks.size()), fn, cur->daemon);
    t->sigmask = cur->sigmask; t->detached = detached;
    *id = (unsigned long)t->id + 0x1000;
    ev("thread %d created", t->id);
    return 0;
}
static Task* tget(unsigned long id) { return id >= 0x1000 && id - 0x1000 < tasks.size() ? tasks[id - 0x1000] : nullptr; }
static int thread_join(unsigned long id, void** res) {
    step("pthread_join");
    Task* t = tget(id);
    if (!t) return ESRCH;
    if (t->joined || t->detached) { probe("join-twice"); violation("bad-join: thread joined twice or detached (undefined behaviour)"); }
    if (t == cur) return EDEADLK;
    std::function<bool()> pr = [t]() { return t->done; };
    while (!t->done) block("pthread_join", pr);
    t->joined = true;
    if (res) *res = t->result;
    return 0;
}
struct ThreadExit {};
int unjoined_threads(Proc* p) { int n = 0; for (Task* t : tasks) if (t->proc == p && !t->joined && !t->detached && t->is_thread) n++; return n; }
}  // namespace sim

extern "C" {
// ------------------------------------------------------------------ descriptors
ssize_t sim_read(int fd, void* b, size_t n) { return k_read(fd, b, n); }
ssize_t sim___read_chk(int fd, void* b, size_t n, size_t) { return k_read(fd, b, n); }
ssize_t sim_write(int fd, const void* b, size_t n) { return k_write(fd, b, n); }
ssize_t sim_readv(int fd, const struct iovec* v, int c) {
    size_t tot = 0; for (int i = 0; i < c; i++) tot += v[i].iov_len;
    std::vector<char> b(tot); ssize_t r = k_read(fd, b.data(), tot); size_t o = 0;
    for (int i = 0; i < c && r > 0 && o < (size_t)r; i++) { size_t k = std::min(v[i].iov_len, (size_t)r - o); memcpy(v[i].iov_base, b.data() + o, k); o += k; }
    return r;
}
ssize_t sim_writev(int fd, const struct iovec* v, int c) {
    std::string b; for (int i = 0; i < c; i++) b.append((const char*)v[i].iov_base, v[i].iov_len);
    return k_write(fd, b.data(), b.size());
}
ssize_t sim_send(int fd, const void* b, size_t n, int fl) { NEED(f, fd); if (f->kind != FK_SOCK) { errno = ENOTSOCK; return -1; } return k_write(fd, b, n, true, fl); }
ssize_t sim_sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr*, socklen_t) { return sim_send(fd, b, n, fl); }
ssize_t sim_sendmsg(int fd, const struct msghdr* m, int fl) {
    NEED(f, fd); if (f->kind != FK_SOCK) { errno = ENOTSOCK; return -1; }
    std::string b; for (size_t i = 0; i < m->msg_iovlen; i++) b.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    return k_write(fd, b.data(), b.size(), true, fl);
}
ssize_t sim_recv(int fd, void* b, size_t n, int fl) {
    NEED(f, fd); if (f->kind != FK_SOCK) { errno = ENOTSOCK; return -1; }
    if (fl & MSG_WAITALL) {
        size_t o = 0;
        while (o < n) { ssize_t r = k_read(fd, (char*)b + o, n - o, true, fl & ~MSG_WAITALL); if (r <= 0) return o ? (ssize_t)o : r; o += r; }
        return (ssize_t)o;
    }
    return k_read(fd, b, n, true, fl);
}
ssize_t sim_recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr*, socklen_t*) { return sim_recv(fd, b, n, fl); }
ssize_t sim_recvmsg(int fd, struct msghdr* m, int fl) {
    if (!m->msg_iovlen) return 0;
    return sim_recv(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl);
}
int sim_close(int fd) { return k_close(fd); }
int sim_poll(struct pollfd* p, nfds_t n, int timeout) {
    step("poll"); INJECT("poll", -1, -1);
    std::vector<std::pair<int, int>> w; std::vector<int> g;
    for (nfds_t i = 0; i < n; i++) w.push_back({p[i].fd, ((p[i].events & (POLLIN | POLLRDNORM)) ? 1 : 0) | ((p[i].events & POLLOUT) ? 2 : 0)});
    int r = poll_common(w, g, timeout < 0 ? UINT64_MAX : now() + (uint64_t)timeout * MS, "poll");
    if (r < 0) return r;
    for (nfds_t i = 0; i < n; i++) p[i].revents = (g[i] & 4) ? POLLNVAL : (((g[i] & 1) && !((g[i] & 8) && fget(p[i].fd) && fget(p[i].fd)->rx->data.empty()) ? POLLIN : 0) | ((g[i] & 2) ? POLLOUT : 0) | ((g[i] & 8) ? POLLHUP : 0));
    return r;
}
int sim_ppoll(struct pollfd* p, nfds_t n, const struct timespec* ts, const sigset_t*) { return sim_poll(p, n, ts ? (int)(ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000) : -1); }
int sim___poll_chk(struct pollfd* p, nfds_t n, int t, size_t) { return sim_poll(p, n, t); }
static int select_common(int n, fd_set* r, fd_set* w, fd_set* e, uint64_t deadline) {
    step("select"); INJECT("select", -1, -1);
    std::vector<std::pair<int, int>> want; std::vector<int> got;
    if (n < 0 || n > 1024) { errno = EINVAL; return -1; }
    for (int i = 0; i < n; i++) {
        int m = ((r && FD_ISSET(i, r)) ? 1 : 0) | ((w && FD_ISSET(i, w)) ? 2 : 0);
        if (m || (e && FD_ISSET(i, e))) { want.push_back({i, m}); if (!fget(i)) { ev("select: bad fd %d", i); probe("bad-fd"); errno = EBADF; return -1; } }
    }
    // hangup alone does not wake select
    std::vector<std::pair<int, int>> w2 = want;
    int k;
    for (;;) {
        k = poll_common(w2, got, deadline, "select");
        if (k < 0) return -1;
        int c = 0; for (size_t i = 0; i < got.size(); i++) c += (got[i] & 3 & want[i].second) != 0;
        if (c || now() >= deadline || k == 0) break;
        if (deadline == UINT64_MAX || true) { if (!block("select", std::function<bool()>([&]() { for (auto& x : want) { File* f = fget(x.first); if (f && (((x.second & 1) && rd_ready(f)) || ((x.second & 2) && wr_ready(f)))) return true; } return false; }), deadline)) { if (cur->interrupted) { errno = EINTR; return -1; } } }
    }
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e);
    int c = 0;
    for (size_t i = 0; i < want.size(); i++) {
        if ((got[i] & 1) && (want[i].second & 1)) { FD_SET(want[i].first, r); c++; }
        if ((got[i] & 2) && (want[i].second & 2)) { FD_SET(want[i].first, w); c++; }
    }
    ev("select = %d", c);
    return c;
}
int sim_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
    uint64_t dl = UINT64_MAX;
    if (tv) { if (tv->tv_sec < 0 || tv->tv_usec < 0) { errno = EINVAL; return -1; } dl = now() + (uint64_t)tv->tv_sec * SEC + (uint64_t)tv->tv_usec * US; }
    int k = select_common(n, r, w, e, dl);
    if (tv) { uint64_t left = dl > now() ? dl - now() : 0; tv->tv_sec = left / SEC; tv->tv_usec = (left % SEC) / US; }
    return k;
}
int sim_pselect(int n, fd_set* r, fd_set* w, fd_set* e, const struct timespec* ts, const sigset_t*) { return select_common(n, r, w, e, ts ? now() + (uint64_t)ts->tv_sec * SEC + ts->tv_nsec : UINT64_MAX); }
long sim___fdelt_chk(long d) { if (d < 0 || d >= FD_SETSIZE) violation("fd-set-overflow: descriptor %ld put into an fd_set", d); return d / 64; }
int sim_dup(int fd) { step("dup"); NEED(f, fd); INJECT("dup", fd, -1); (void)f; return install(cur->proc, cur->proc->fds[fd].f); }
int sim_dup3(int a, int b, int fl) { step("dup"); NEED(f, a); (void)f; FileP keep = cur->proc->fds[a].f; cur->proc->fds[b] = FdEnt{keep, (fl & O_CLOEXEC) != 0}; return b; }
int sim_dup2(int a, int b) { step("dup"); NEED(f, a); (void)f; if (a == b) return b; return sim_dup3(a, b, 0); }
int sim_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    step("fcntl"); NEED(f, fd); INJECT("fcntl", fd, -1);
    switch (cmd) {
    case F_GETFD: return cur->proc->fds[fd].cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: cur->proc->fds[fd].cloexec = arg & FD_CLOEXEC; return 0;
    case F_GETFL: return (f->nonblock ? O_NONBLOCK : 0) | (f->kind == FK_PIPE_W ? O_WRONLY : f->kind == FK_SOCK ? O_RDWR : O_RDONLY);
    case F_SETFL: f->nonblock = arg & O_NONBLOCK; return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: { int n = (int)arg; while (cur->proc->fds.count(n)) n++; return install(cur->proc, cur->proc->fds[fd].f, n, cmd == F_DUPFD_CLOEXEC); }
    case F_SETPIPE_SZ: if (f->tx) f->tx->cap = std::max<size_t>(4096, arg); return (int)arg;
    case F_GETPIPE_SZ: return f->tx ? (int)f->tx->cap : 65536;
    }
    errno = EINVAL; return -1;
}
int sim_ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void* arg = va_arg(ap, void*); va_end(ap);
    step("ioctl"); NEED(f, fd);
    if (req == FIONREAD) { *(int*)arg = f->rx ? (int)f->rx->data.size() : 0; return 0; }
    if (req == FIONBIO) { f->nonblock = *(int*)arg; return 0; }
    errno = ENOTTY; return -1;
}
int sim_pipe2(int p[2], int fl) {
    step("pipe"); INJECT("pipe", -1, -1);
    FileP r, w; make_pipe(r, w, cfg.pipe_cap);
    r->nonblock = w->nonblock = fl & O_NONBLOCK;
    p[0] = install(cur->proc, r, -1, fl & O_CLOEXEC); p[1] = install(cur->proc, w, -1, fl & O_CLOEXEC);
    ev("pipe = %d %d", p[0], p[1]);
    return 0;
}
int sim_pipe(int p[2]) { return sim_pipe2(p, 0); }
int sim_isatty(int) { errno = ENOTTY; return 0; }
int sim_fsync(int) { return 0; }

// ------------------------------------------------------------------ sockets
int sim_socket(int, int type, int) { step("socket"); INJECT("socket", -1, -1); int fd = k_socket(); File* f = fget(fd); f->nonblock = type & SOCK_NONBLOCK; cur->proc->fds[fd].cloexec = type & SOCK_CLOEXEC; ev("socket = %d", fd); return fd; }
int sim_socketpair(int, int type, int, int sv[2]) {
    step("socketpair"); INJECT("socketpair", -1, -1);
    auto a = std::make_shared<File>(), b = std::make_shared<File>(); a->kind = b->kind = FK_SOCK;
    auto p1 = std::make_shared<Pipe>(), p2 = std::make_shared<Pipe>();
    p1->cap = p2->cap = cfg.pipe_cap; p1->readers = p1->writers = p2->readers = p2->writers = 1;
    a->tx = p1; b->rx = p1; a->rx = p2; b->tx = p2; a->st = b->st = SS_CONNECTED;
    sv[0] = install(cur->proc, a, -1, type & SOCK_CLOEXEC); sv[1] = install(cur->proc, b, -1, type & SOCK_CLOEXEC);
    return 0;
}
int sim_bind(int fd, const struct sockaddr* sa, socklen_t) {
    step("bind"); NEED(f, fd); INJECT("bind", fd, -1);
    int port = ntohs(((const struct sockaddr_in*)sa)->sin_port);
    if (f->st != SS_NEW) { errno = EINVAL; return -1; }
    if (port == 0) { port = 40000; while (port_busy(port)) port++; }
    if (port_busy(port)) { ev("bind(port %d) = EADDRINUSE", port); probe("bind-in-use"); errno = EADDRINUSE; return -1; }
    f->port = port; f->st = SS_BOUND; ev("bind(%d, port %d)", fd, port);
    return 0;
}
int sim_listen(int fd, int backlog) {
    step("listen"); NEED(f, fd); INJECT("listen", fd, -1);
    if (f->st == SS_NEW) { errno = EDESTADDRREQ; return -1; }
    if (!port_listen(cur->proc->fds[fd].f, std::max(1, backlog))) { errno = EADDRINUSE; return -1; }
    ev("listen(%d)", fd);
    return 0;
}
int sim_accept4(int fd, struct sockaddr* sa, socklen_t* sl, int fl) {
    step("accept"); NEED(f, fd); INJECT("accept", fd, -1);
    if (f->kind != FK_SOCK) { errno = ENOTSOCK; return -1; }
    if (f->st != SS_LISTEN) { errno = EINVAL; return -1; }
    if (f->queue.empty()) {
        if (f->nonblock) { errno = EAGAIN; return -1; }
        if (cfg.eintr && chance(F, cfg.eintr, 256)) { fault("EINTR"); sim::yield(); errno = EINTR; return -1; }
        size_t n0 = cur->inflight.size(); cur->inflight.push_back(cur->proc->fds[fd].f);
        std::function<bool()> pr = [f]() { return !f->queue.empty(); };
        bool ok = block("accept", pr);
        cur->inflight.resize(n0);
        if (!ok) { errno = EINTR; return -1; }
    }
    FileP c = f->queue.front(); f->queue.pop_front();
    int n = install(cur->proc, c, -1, fl & SOCK_CLOEXEC); c->nonblock = fl & SOCK_NONBLOCK;
    if (sa && sl && *sl >= sizeof(struct sockaddr_in)) { struct sockaddr_in* s = (struct sockaddr_in*)sa; memset(s, 0, sizeof *s); s->sin_family = AF_INET; s->sin_addr.s_addr = htonl(0x7f000001); s->sin_port = htons(50000); *sl = sizeof *s; }
    ev("accept(%d) = %d", fd, n);
    return n;
}
int sim_accept(int fd, struct sockaddr* sa, socklen_t* sl) { return sim_accept4(fd, sa, sl, 0); }
int sim_connect(int fd, const struct sockaddr* sa, socklen_t) { return k_connect(fd, ntohs(((const struct sockaddr_in*)sa)->sin_port)); }
int sim_setsockopt(int fd, int l, int o, const void*, socklen_t) { step("setsockopt"); NEED(f, fd); INJECT("setsockopt", fd, -1); if (f->kind != FK_SOCK) { errno = ENOTSOCK; return -1; } f->opts.push_back({l, o}); return 0; }
int sim_getsockopt(int fd, int l, int o, void* v, socklen_t* n) { step("getsockopt"); NEED(f, fd); if (f->kind != FK_SOCK) { errno = ENOTSOCK; return -1; } if (l == SOL_SOCKET && o == SO_TYPE) *(int*)v = SOCK_STREAM; else *(int*)v = 0; *n = 4; return 0; }
int sim_getsockname(int fd, struct sockaddr* sa, socklen_t* sl) { NEED(f, fd); if (f->kind != FK_SOCK) { errno = ENOTSOCK; return -1; } struct sockaddr_in* s = (struct sockaddr_in*)sa; memset(s, 0, sizeof *s); s->sin_family = AF_INET; s->sin_port = htons(f->port); *sl = sizeof *s; return 0; }
int sim_getpeername(int fd, struct sockaddr* sa, socklen_t* sl) { NEED(f, fd); if (f->kind != FK_SOCK) { errno = ENOTSOCK; return -1; } if (f->st != SS_CONNECTED) { errno = ENOTCONN; return -1; } return sim_getsockname(fd, sa, sl); }
int sim_shutdown(int fd, int how) {
    step("shutdown"); NEED(f, fd);
    if (f->kind != FK_SOCK) { errno = ENOTSOCK; return -1; }
    if (f->st != SS_CONNECTED) { errno = ENOTCONN; return -1; }
    if (how == SHUT_RD || how == SHUT_RDWR) f->rd_shut = true;
    if ((how == SHUT_WR || how == SHUT_RDWR) && !f->wr_shut) { f->wr_shut = true; f->tx->writers = 0; }
    ev("shutdown(%d)", fd);
    return 0;
}

// ------------------------------------------------------------------ processes and signals
int sim_posix_spawn(pid_t* pid, const char* p, const posix_spawn_file_actions_t* fa, const posix_spawnattr_t* at, char* const a[], char* const e[]) { return do_spawn(pid, p, fa, at, a, e); }
int sim_posix_spawnp(pid_t* pid, const char* p, const posix_spawn_file_actions_t* fa, const posix_spawnattr_t* at, char* const a[], char* const e[]) { return do_spawn(pid, p, fa, at, a, e); }
int sim_posix_spawn_file_actions_init(posix_spawn_file_actions_t* f) { memset(f, 0, sizeof *f); spawn_acts[f].clear(); spawn_mem.erase(f); return 0; }
int sim_posix_spawn_file_actions_destroy(posix_spawn_file_actions_t* f) { acts_of(f, "release"); if (spawn_mem.count(f)) { untrack(spawn_mem[f]); free(spawn_mem[f]); spawn_mem.erase(f); } spawn_acts.erase(f); return 0; }
int sim_posix_spawn_file_actions_addclose(posix_spawn_file_actions_t* f, int fd) { if (fd < 0) return EBADF; add_act(f, {0, fd, 0, ""}); return 0; }
int sim_posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t* f, int a, int b) { if (a < 0 || b < 0) return EBADF; add_act(f, {1, a, b, ""}); return 0; }
int sim_posix_spawn_file_actions_addchdir_np(posix_spawn_file_actions_t* f, const char* d) { add_act(f, {2, 0, 0, d}); return 0; }
int sim_posix_spawn_file_actions_addopen(posix_spawn_file_actions_t* f, int fd, const char* p, int, mode_t) { add_act(f, {3, fd, 0, p}); return 0; }
int sim_posix_spawn_file_actions_addclosefrom_np(posix_spawn_file_actions_t* f, int fd) { add_act(f, {4, fd, 0, ""}); return 0; }
int sim_posix_spawnattr_init(posix_spawnattr_t* a) { memset(a, 0, sizeof *a); spawn_attrs[a] = SpawnAttr(); return 0; }
int sim_posix_spawnattr_destroy(posix_spawnattr_t* a) { spawn_attrs.erase(a); return 0; }
int sim_posix_spawnattr_setflags(posix_spawnattr_t* a, short f) { spawn_attrs[a].flags = f; return 0; }
int sim_posix_spawnattr_setsigmask(posix_spawnattr_t* a, const sigset_t* s) { spawn_attrs[a].mask = setbits(s); return 0; }
int sim_posix_spawnattr_setsigdefault(posix_spawnattr_t* a, const sigset_t* s) { spawn_attrs[a].def = setbits(s); return 0; }
int sim_posix_spawnattr_setpgroup(posix_spawnattr_t*, pid_t) { return 0; }
pid_t sim_wait4(pid_t pid, int* st, int opt, void*) {
    step("waitpid"); INJECT("waitpid", -1, -1);
    Proc* self = cur->proc;
    auto find = [self, pid](bool z) -> Proc* { for (Proc* c : procs) if (c->parent == self && !c->reaped && (pid <= 0 ? (pid == -1 || pid == 0) : c->pid == pid) && (!z || c->zombie)) return c; return nullptr; };
    for (;;) {
        if (!find(false)) { ev("waitpid(%d) = ECHILD", pid); errno = ECHILD; return -1; }
        Proc* c = find(true);
        if (c) { c->reaped = true; c->zombie = false; if (st) *st = c->wstatus; ev("waitpid(%d) = %d status %x", pid, c->pid, c->wstatus); return c->pid; }
        if (opt & WNOHANG) return 0;
        if (cfg.eintr && chance(F, cfg.eintr, 256)) { fault("EINTR"); sim::yield(); errno = EINTR; return -1; }
        std::function<bool()> pr = [&]() { return find(true) || !find(false); };
        if (!block("waitpid", pr)) { errno = EINTR; return -1; }
    }
}
pid_t sim_waitpid(pid_t pid, int* st, int opt) { return sim_wait4(pid, st, opt, nullptr); }
pid_t sim_wait(int* st) { return sim_wait4(-1, st, 0, nullptr); }
int sim_kill(pid_t pid, int sig) {
    step("kill");
    if (pid <= 0) { if (sig) violation("stray-signal: kill(%d, %d) signals a whole group of processes", pid, sig); return 0; }
    for (Proc* p : procs) if (p->pid == pid && !p->reaped) { deliver(p, sig); if (!cur->proc->alive) sim::yield(); return 0; }
    if (sig) { probe("kill-gone-pid"); ev("kill(%d, %d): no such process", pid, sig); for (Proc* p : procs) if (p->pid == pid && p->reaped) p->stale_kills++; }
    errno = ESRCH; return -1;
}
int sim_killpg(pid_t pid, int sig) { return sim_kill(pid, sig); }
int sim_raise(int sig) { deliver(cur->proc, sig); sim::yield(); return 0; }
pid_t sim_getpid() { return cur ? cur->proc->pid : 1; }
pid_t sim_getppid() { return cur->proc->parent ? cur->proc->parent->pid : 1; }
int sim_sigaction(int sig, const struct sigaction* a, struct sigaction* o) {
    step("sigaction");
    if (sig <= 0 || sig > 64) { errno = EINVAL; return -1; }
    SigAct& s = cur->proc->sig[sig];
    if (o) { memset(o, 0, sizeof *o); o->sa_handler = s.kind == 0 ? SIG_DFL : s.kind == 1 ? SIG_IGN : s.handler; }
    if (a) { s.kind = a->sa_handler == SIG_DFL ? 0 : a->sa_handler == SIG_IGN ? 1 : 2; s.handler = a->sa_handler; s.restart = a->sa_flags & SA_RESTART; }
    return 0;
}
typedef void (*sighandler)(int);
sighandler sim_signal(int sig, sighandler h) { struct sigaction a, o; memset(&a, 0, sizeof a); a.sa_handler = h; a.sa_flags = SA_RESTART; if (sim_sigaction(sig, &a, &o)) return SIG_ERR; return o.sa_handler; }
int sim_pthread_sigmask(int how, const sigset_t* s, sigset_t* o) {
    step("sigmask");
    if (o) bitset(cur->sigmask, o);
    if (s) { uint64_t m = setbits(s) & ~((1ull << SIGKILL) | (1ull << SIGSTOP)); if (how == SIG_BLOCK) cur->sigmask |= m; else if (how == SIG_UNBLOCK) cur->sigmask &= ~m; else cur->sigmask = m; }
    if ((cur->proc->sigpending | cur->sigpending) & ~cur->sigmask) sim::yield();
    return 0;
}
int sim_sigprocmask(int how, const sigset_t* s, sigset_t* o) { return sim_pthread_sigmask(how, s, o); }
int sim_sigpending(sigset_t* s) { bitset((cur->proc->sigpending | cur->sigpending) & cur->sigmask, s); return 0; }
int sim_sigtimedwait(const sigset_t* s, siginfo_t* i, const struct timespec* ts) {
    step("sigtimedwait"); uint64_t m = setbits(s);
    Task* t = cur;
    std::function<bool()> pr = [t, m]() { return ((t->proc->sigpending | t->sigpending) & m) != 0; };
    if (!pr() && !block("sigtimedwait", pr, ts ? now() + (uint64_t)ts->tv_sec * SEC + ts->tv_nsec : UINT64_MAX)) { errno = EAGAIN; return -1; }
    int sig = __builtin_ctzll((t->proc->sigpending | t->sigpending) & m);
    t->proc->sigpending &= ~(1ull << sig); t->sigpending &= ~(1ull << sig);
    if (i) { memset(i, 0, sizeof *i); i->si_signo = sig; }
    return sig;
}
int sim_sigwaitinfo(const sigset_t* s, siginfo_t* i) { return sim_sigtimedwait(s, i, nullptr); }
int sim_sigwait(const sigset_t* s, int* sig) { *sig = sim_sigtimedwait(s, nullptr, nullptr); return 0; }
[[noreturn]] void sim_exit(int c) { exit_proc(cur->proc, c); __builtin_unreachable(); }
[[noreturn]] void sim__exit(int c) { exit_proc(cur->proc, c); __builtin_unreachable(); }
[[noreturn]] void sim_abort() { violation("abort: abort() called in process %s", cur ? cur->proc->name.c_str() : "-"); }
[[noreturn]] void sim___assert_fail(const char* e, const char*, unsigned, const char* f) {
    std::string fn = f ? f : "?"; size_t q = fn.find('('); if (q != std::string::npos) fn.resize(q); size_t sp = fn.rfind(' '); if (sp != std::string::npos) fn = fn.substr(sp + 1);
    violation("assert in %s: %s (process %s)", fn.c_str(), e, cur ? cur->proc->name.c_str() : "-");
}
[[noreturn]] void sim_terminate_cxx() { violation("terminate: std::terminate in process %s", cur ? cur->proc->name.c_str() : "-"); }

// ------------------------------------------------------------------ time
int sim_clock_gettime(clockid_t c, struct timespec* ts) {
    if (cur) advance(200); // a clock read never goes back and usually advances
    int64_t v = (int64_t)now(); if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) v += EPOCH + clock_offset; else v += 5000000000ll;
    ts->tv_sec = v / 1000000000ll; ts->tv_nsec = v % 1000000000ll; return 0;
}
int sim_gettimeofday(struct timeval* tv, void*) { struct timespec ts; sim_clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t sim_time(time_t* t) { struct timespec ts; sim_clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
clock_t sim_clock() { return (clock_t)(now() / 1000); }
static int do_sleep(uint64_t ns, uint64_t* left) {
    step("sleep"); uint64_t d = now() + ns; static const std::function<bool()> never;
    if (cfg.eintr && ns > MS && chance(F, cfg.eintr, 1024)) { fault("EINTR"); sleep_for(choose(F, 1000) * ns / 1000); if (left) *left = d > now() ? d - now() : 0; return -1; }
    if (ns == 0) ns = 500 * US, d = now() + ns;   // other runnable threads get their turn, time goes on
    while (now() < d) { if (!block("sleep", never, d) && cur->interrupted) { if (left) *left = d > now() ? d - now() : 0; return -1; } }
    return 0;
}
int sim_usleep(useconds_t us) { if (do_sleep((uint64_t)us * US, nullptr)) { errno = EINTR; return -1; } return 0; }
unsigned sim_sleep(unsigned s) { uint64_t l = 0; do_sleep((uint64_t)s * SEC, &l); return (unsigned)((l + SEC - 1) / SEC); }
int sim_nanosleep(const struct timespec* ts, struct timespec* rem) {
    if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000 || ts->tv_sec < 0) { errno = EINVAL; return -1; }
    uint64_t l = 0; if (do_sleep((uint64_t)ts->tv_sec * SEC + ts->tv_nsec, &l)) { if (rem) { rem->tv_sec = l / SEC; rem->tv_nsec = l % SEC; } errno = EINTR; return -1; } return 0;
}
int sim_clock_nanosleep(clockid_t c, int fl, const struct timespec* ts, struct timespec* rem) {
    if (fl & TIMER_ABSTIME) { uint64_t d = abs_deadline(c, ts); if (d > now()) { if (do_sleep(d - now(), nullptr)) return EINTR; } return 0; }
    return sim_nanosleep(ts, rem) ? errno : 0;
}
int sim_sched_yield() { step("yield"); do_sleep(0, nullptr); return 0; }
int sim_pthread_yield() { return sim_sched_yield(); }

// ------------------------------------------------------------------ threads
int sim_pthread_create(pthread_t* id, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    unsigned long* out = new unsigned long(0);
    int ds = 0; if (at) pthread_attr_getdetachstate(at, &ds);
    int e = thread_start([fn, arg]() { Task* me = cur; try { me->result = fn(arg); } catch (ThreadExit&) {} }, out, ds == PTHREAD_CREATE_DETACHED);
    if (!e) { *id = *out; tasks[*out - 0x1000]->is_thread = true; }
    delete out;
    return e;
}
int sim_pthread_join(pthread_t id, void** r) { return thread_join(id, r); }
int sim_pthread_tryjoin_np(pthread_t id, void** r) { Task* t = tget(id); if (!t) return ESRCH; if (!t->done) return EBUSY; return thread_join(id, r); }
int sim_pthread_detach(pthread_t id) { Task* t = tget(id); if (!t) return ESRCH; t->detached = true; return 0; }
pthread_t sim_pthread_self() { return cur ? (pthread_t)cur->id + 0x1000 : 0x0fff; }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
[[noreturn]] void sim_pthread_exit(void* r) { cur->result = r; throw ThreadExit(); }
int sim_pthread_kill(pthread_t id, int sig) { Task* t = tget(id); if (!t || t->done) return ESRCH; if (sig == 0) return 0; if (t->proc->sig[sig].kind == 0) deliver(t->proc, sig); else if (t->proc->sig[sig].kind == 2) t->sigpending |= 1ull << sig; return 0; }
int sim_pthread_cancel(pthread_t) { harness_error("pthread_cancel is not simulated"); }
int sim_pthread_setname_np(pthread_t, const char*) { return 0; }
int sim_pthread_once(pthread_once_t* o, void (*f)()) { if (*o == 0) { *o = 1; f(); } return 0; }
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); int k = 0; if (a) pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; mget(m); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t* m) { Mutex* x = mget(m); if (x->owner || x->waiters) { probe("destroy-locked-mutex"); return EBUSY; } memset(m, 0, sizeof *m); return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t* m) { return mlock(mget(m)); }
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { return mlock(mget(m), UINT64_MAX, true); }
int sim_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return mlock(mget(m), abs_deadline(CLOCK_REALTIME, ts)); }
int sim_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { return mlock(mget(m), abs_deadline(c, ts)); }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) { return munlock(mget(m)); }
int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { memset(c, 0, sizeof *c); Cond* x = cget(c); clockid_t k = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &k); x->clock = k; return 0; }
int sim_pthread_cond_destroy(pthread_cond_t* c) { Cond* x = cget(c); for (auto w : x->q) if (!w->t->dead && !w->woken) { probe("destroy-waited-cond"); std::function<bool()> pr = [x]() { return x->q.empty(); }; block("cond_destroy", pr); break; } memset(c, 0, sizeof *c); return 0; }
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(cget(c), mget(m), UINT64_MAX); }
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) { probe("cond-timedwait-einval"); return EINVAL; }
    return cwait(cget(c), mget(m), abs_deadline(cget(c)->clock, ts));
}
int sim_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL; return cwait(cget(c), mget(m), abs_deadline(k, ts)); }
int sim_pthread_cond_signal(pthread_cond_t* c) { cnotify(cget(c), false); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t* c) { cnotify(cget(c), true); return 0; }
// C++ runtime parts that live in libstdc++
void sim_cv_ctor(void* c) { memset(c, 0, sizeof(pthread_cond_t)); cget(c); }
void sim_cv_dtor(void*) {}
void sim_cv_wait(void* c, std::unique_lock<std::mutex>& l) { cwait(cget(c), mget((pthread_mutex_t*)l.mutex()->native_handle()), UINT64_MAX); }
void sim_cv_notify_one(void* c) { cnotify(cget(c), false); }
void sim_cv_notify_all(void* c) { cnotify(cget(c), true); }
struct ThreadState { virtual ~ThreadState(); virtual void run() = 0; };   // layout of std::thread::_State
void sim_thread_start(unsigned long* self, ThreadState** st, void (*)()) {   // the unique_ptr comes by reference
    ThreadState* s = *st; *st = nullptr;
    int e = thread_start([s]() { try { s->run(); } catch (ThreadExit&) {} delete s; }, self, false);
    if (e) { delete s; throw std::system_error(e, std::generic_category()); }
    tasks[*self - 0x1000]->is_thread = true;
}
void sim_thread_join(unsigned long* self) { int e = *self ? thread_join(*self, nullptr) : EINVAL; if (e) throw std::system_error(e, std::generic_category()); *self = 0; }
void sim_thread_detach(unsigned long* self) { if (*self) sim_pthread_detach(*self); *self = 0; }
void sim_this_thread_sleep(int64_t s, int64_t ns) { do_sleep((uint64_t)s * SEC + ns, nullptr); }
int64_t sim_steady_now() { struct timespec ts; sim_clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec * 1000000000ll + ts.tv_nsec; }
int64_t sim_system_now() { struct timespec ts; sim_clock_gettime(CLOCK_REALTIME, &ts); return ts.tv_sec * 1000000000ll + ts.tv_nsec; }

// ------------------------------------------------------------------ environment, directories
char* sim_getenv(const char* k) {
    size_t n = strlen(k);
    if (!sim_environ) return nullptr;
    for (char** e = sim_environ; *e; e++) if (!strncmp(*e, k, n) && (*e)[n] == '=') return *e + n + 1;
    return nullptr;
}
char* sim_secure_getenv(const char* k) { return sim_getenv(k); }
int sim_setenv(const char* k, const char* v, int over) { if (!over && sim_getenv(k)) return 0; set_env(cur->proc, k, v); return 0; }
int sim_unsetenv(const char* k) { std::string pre = std::string(k) + "="; Proc* p = cur->proc; for (auto it = p->env_store.begin(); it != p->env_store.end();) if (it->compare(0, pre.size(), pre) == 0) it = p->env_store.erase(it); else ++it; p->env.clear(); for (auto& e : p->env_store) p->env.push_back(&e[0]); p->env.push_back(nullptr); sim_environ = p->env.data(); return 0; }
int sim_putenv(char* s) { std::string v(s); size_t e = v.find('='); set_env(cur->proc, v.substr(0, e), v.substr(e + 1)); return 0; }
int sim_chdir(const char* d) { step("chdir"); INJECT("chdir", -1, -1); if (!dirs.count(d)) { errno = ENOENT; return -1; } cur->proc->cwd = d; return 0; }
char* sim_getcwd(char* b, size_t n) { step("getcwd"); const std::string& c = cur->proc->cwd; if (!b) return strdup(c.c_str()); if (c.size() + 1 > n) { errno = ERANGE; return nullptr; } strcpy(b, c.c_str()); return b; }
int sim_access(const char*, int) { errno = ENOENT; return -1; }

// ------------------------------------------------------------------ stdio on the standard streams
static int std_fd(FILE* f) { return f == stdin ? 0 : f == stdout ? 1 : f == stderr ? 2 : -1; }
static int emit(FILE* f, const char* s, size_t n) { int fd = std_fd(f); if (fd < 0 || !cur) return (int)fwrite(s, 1, n, f); size_t o = 0; while (o < n) { long r = k_write(fd, s + o, n - o); if (r <= 0) return -1; o += r; } return (int)n; }
int sim_fileno(FILE* f) { int k = std_fd(f); return k >= 0 ? k : fileno(f); }
FILE* sim_fdopen(int, const char*) { harness_error("fdopen is not simulated"); }
int sim_vfprintf(FILE* f, const char* fmt, va_list ap) { char* s = nullptr; int n = vasprintf(&s, fmt, ap); if (n < 0) return n; n = emit(f, s, n); free(s); return n; }
int sim_fprintf(FILE* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(f, fmt, ap); va_end(ap); return n; }
int sim_printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(stdout, fmt, ap); va_end(ap); return n; }
int sim_vprintf(const char* fmt, va_list ap) { return sim_vfprintf(stdout, fmt, ap); }
int sim_puts(const char* s) { emit(stdout, s, strlen(s)); return emit(stdout, "\n", 1); }
int sim_putchar(int c) { char b = (char)c; emit(stdout, &b, 1); return c; }
int sim_fputs(const char* s, FILE* f) { return emit(f, s, strlen(s)); }
int sim_fputc(int c, FILE* f) { char b = (char)c; emit(f, &b, 1); return c; }
size_t sim_fwrite(const void* p, size_t a, size_t b, FILE* f) { if (std_fd(f) < 0 || !cur) return fwrite(p, a, b, f); return emit(f, (const char*)p, a * b) < 0 ? 0 : b; }
int sim_fflush(FILE* f) { if (f && std_fd(f) < 0) return fflush(f); return 0; }
int sim_fclose(FILE* f) { int fd = std_fd(f); if (fd < 0) return fclose(f); return k_close(fd); }
void sim_perror(const char* s) { ev("perror(%s): errno %d", s ? s : "", errno); }
void sim_setbuf(FILE*, char*) {}
int sim_setvbuf(FILE*, char*, int, size_t) { return 0; }

// ------------------------------------------------------------------ process-wide libc state
char* sim_strtok(char* s, const char* d) { step("strtok"); return strtok_r(s, d, &cur->proc->strtok_pos); }
char* sim_strerror(int e) { return strerror(e); }
int sim_rand() { return (int)choose(W, 0x7fffffff); }
void sim_srand(unsigned) {}
long sim_random() { return (long)choose(W, 0x7fffffff); }

// ------------------------------------------------------------------ memory
static const size_t MEMLIMIT = 1ull << 30;   // larger requests fail, as under a memory limit
static bool toobig(size_t n) { if (n > MEMLIMIT) { probe("huge-allocation"); errno = ENOMEM; return true; } return false; }
void* sim_malloc(size_t n) { if (toobig(n)) return nullptr; void* p = malloc(n); track(p, n); return p; }
void* sim_calloc(size_t a, size_t b) { if ((a && b > SIZE_MAX / a) || toobig(a * b)) return nullptr; void* p = calloc(a, b); track(p, a * b); return p; }
void* sim_realloc(void* o, size_t n) { if (toobig(n)) return nullptr; if (o) untrack(o); void* p = realloc(o, n); if (n || !o) track(p, n); return p; }
void sim_free(void* p) { if (p) untrack(p); free(p); }
char* sim_strdup(const char* s) { char* p = strdup(s); track(p, strlen(s) + 1); return p; }
char* sim_strndup(const char* s, size_t n) { char* p = strndup(s, n); track(p, n); return p; }
int sim_vasprintf(char** o, const char* f, va_list ap) { int n = vasprintf(o, f, ap); if (n >= 0) track(*o, n + 1); return n; }
int sim_asprintf(char** o, const char* f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(o, f, ap); va_end(ap); return n; }
void* sim_new(size_t n) { if (toobig(n)) throw std::bad_alloc(); void* p = ::operator new(n); track(p, n); return p; }
void* sim_new_arr(size_t n) { if (toobig(n)) throw std::bad_alloc(); void* p = ::operator new[](n); track(p, n); return p; }
void* sim_new_nt(size_t n, const std::nothrow_t& t) { void* p = ::operator new(n, t); track(p, n); return p; }
void* sim_new_arr_nt(size_t n, const std::nothrow_t& t) { void* p = ::operator new[](n, t); track(p, n); return p; }
void sim_delete(void* p) { if (p) untrack(p); ::operator delete(p); }
void sim_delete_arr(void* p) { if (p) untrack(p); ::operator delete[](p); }
void sim_delete_sz(void* p, size_t n) { if (p) untrack(p); ::operator delete(p); }
void sim_delete_arr_sz(void* p, size_t n) { if (p) untrack(p); ::operator delete[](p); }
}
