// A small deterministic operating system for the Python package: parties are Python threads that pass a baton, descriptors,
// pipes, sockets, the environment, time and the scheduler are simulated; the library's C code is linked against these calls.
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64;
#define MAXREC 60000
typedef struct Shared {
    int status;                     // 0 not finished, 1 finished, 2 violation, 3 harness error, 4 skipped
    char msg[4096], label[256];
    u32 nrec[3]; u32 rec[3][MAXREC][2];
    u64 thash, shash, steps, sim_ns, switches;
    u64 faults[16]; u32 nstates; u64 states[256];
    unsigned char cov[8192];
    unsigned char probe[128];
} Shared;
enum { FT_SHORT_READ, FT_SHORT_WRITE, FT_EINTR, FT_STALL, FT_KILLED, FT_CUT, FT_REFUSED, FT_BLOCKED };

static Shared* sh; static int trace_on;
static u64 rng[3]; static u32 rpos[3]; static const u32* rep[3]; static u32 nrep[3]; static int replaying;
static u64 now_ns; static char errbuf[3000];
static int c_switch, c_short_r, c_short_w, c_eintr, c_stall, c_cost = 2000; static u64 c_stall_max = 5000000; static u64 c_max_time = 3600ull * 1000000000ull; static u64 c_max_steps = 3000000;
static size_t c_cap = 65536;

static void tr(const char* f, ...) { if (!trace_on) return; va_list a; va_start(a, f); fprintf(stderr, "[%10.6f] ", now_ns / 1e9); vfprintf(stderr, f, a); fputc('\n', stderr); va_end(a); }
static void mix(u64* h, u64 v) { *h ^= v + 0x9e3779b97f4a7c15ull + (*h << 6) + (*h >> 2); *h *= 0xff51afd7ed558ccdull; *h ^= *h >> 33; }
void ps_fail(int status, const char* m) { if (!sh->status) { sh->status = status; strncpy(sh->msg, m, sizeof(sh->msg) - 1); } tr("END status %d: %s", status, m); _exit(0); }
static void failf(int st, const char* f, ...) { char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof(b), f, a); va_end(a); ps_fail(st, b); }

// ------------------------------------------------------------------ choices
static u64 next64(u64* s) { u64 z = (*s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
u32 ps_choose(int s, u32 n) {
    u32 v;
    if (n < 2 || (s && sh->nrec[s] >= MAXREC - 100)) return 0;      // a very long run goes on without faults
    if (replaying) { v = rpos[s] < nrep[s] ? rep[s][rpos[s]] : 0; if (v >= n) v = n - 1; rpos[s]++; }
    else v = (u32)(next64(&rng[s]) % n);
    u32 k = sh->nrec[s];
    if (k >= MAXREC) ps_fail(3, "too many choices");
    sh->rec[s][k][0] = n; sh->rec[s][k][1] = v; sh->nrec[s] = k + 1;
    return v;
}
// true with probability num/256; recorded as 0 (no) or 1 (yes)
int ps_chance(int s, u32 num, u32 den) {
    if (!num || (s && sh->nrec[s] >= MAXREC - 100)) return 0;
    u32 v;
    if (replaying) { v = rpos[s] < nrep[s] ? rep[s][rpos[s]] : 0; if (v > 1) v = 1; rpos[s]++; }
    else v = next64(&rng[s]) % den < num;
    u32 k = sh->nrec[s];
    if (k >= MAXREC) ps_fail(3, "too many choices");
    sh->rec[s][k][0] = 2; sh->rec[s][k][1] = v; sh->nrec[s] = k + 1;
    return v;
}
void ps_event(u64 v) { mix(&sh->thash, v); }
void ps_event_s(const char* s) { u64 h = 1469598103934665603ull; for (const char* p = s; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull; mix(&sh->thash, h); tr("%s", s); }
void ps_state(u64 v) { if (sh->nstates < 256) sh->states[sh->nstates++] = v; }
void ps_probe(int i) { if (i >= 0 && i < 128) sh->probe[i] = 1; }
void ps_fault_count(int k) { sh->faults[k]++; }
void ps_label(const char* s) { strncpy(sh->label, s, sizeof(sh->label) - 1); sh->label[sizeof(sh->label) - 1] = 0; }

// ------------------------------------------------------------------ objects
typedef struct Buf { unsigned char* d; size_t head, len, alloc, cap; int readers, writers; u64 total; i64 cut; int owner; unsigned char* tap; size_t ntap, atap; int id; } Buf;
enum { K_FREE, K_R, K_W, K_SOCK, K_NULL };
typedef struct File { int kind, refs; Buf *rx, *tx; int port, listening, connected; struct File* q[16]; int nq, backlog; int rd_shut, wr_shut; } File;
typedef struct Proc { File* fd[64]; char env[8][2][128]; int nenv; int dead, killed; int opened; i64 cut_later; } Proc;
typedef int (*Pred)(void*);
typedef struct Task { int used, done, proc, blocked, timed_out; Pred pred; void* arg; u64 deadline, hold; const char* why; char name[32]; } Task;
#define NT 6
static Proc proc[NT]; static Task task[NT]; static int ntask; static int cur = -1; static int finished;
static Buf* bufs[64]; static int nbuf;
static File* ports[64]; static int nports;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv[NT + 1];
static __thread int me = -1;

static Buf* new_buf(int owner) { Buf* b = calloc(1, sizeof(Buf)); b->cap = c_cap; b->cut = -1; b->owner = owner; b->id = nbuf; bufs[nbuf++] = b; return b; }
static int put(int p, File* f) { for (int i = 0; i < 64; i++) if (!proc[p].fd[i] && (i > 2)) { proc[p].fd[i] = f; f->refs++; proc[p].opened++; return i; } return -1; }
static void drop(File* f) {
    if (--f->refs) return;
    if (f->kind == K_R) f->rx->readers--;
    if (f->kind == K_W) f->tx->writers--;
    if (f->kind == K_SOCK) {
        if (f->connected) { if (!f->rd_shut) f->rx->readers--; if (!f->wr_shut) f->tx->writers--; }
        for (int i = 0; i < f->nq; i++) drop(f->q[i]);
        for (int i = 0; i < nports; i++) if (ports[i] == f) ports[i] = ports[--nports];
    }
    free(f);
}
static void close_fds(int p) { for (int i = 0; i < 64; i++) if (proc[p].fd[i]) { drop(proc[p].fd[i]); proc[p].fd[i] = 0; } }

// ------------------------------------------------------------------ scheduling
static int ready(Task* t) { return t->used && !t->done && !proc[t->proc].dead && t->hold <= now_ns && (!t->blocked || t->deadline <= now_ns || t->pred(t->arg)); }
static void pass_to(int n) {     // the baton goes to task n (-1: the main thread)
    cur = n; pthread_cond_signal(&cv[n < 0 ? NT : n]);
}
static void pick_next(int stay) {
    for (;;) {
        int c[NT], n = 0;
        if (me >= 0 && !task[me].done && ready(&task[me])) c[n++] = me;
        for (int i = 0; i < ntask; i++) if (i != me && ready(&task[i])) c[n++] = i;
        if (n) {
            int k = (stay && c[0] == me && n > 1) ? (int)(1 + ps_choose(1, n - 1)) : (int)ps_choose(1, n);
            int t = c[k];
            mix(&sh->shash, t + 1); sh->switches += t != me;
            if (t != cur) tr("switch to %s", task[t].name);
            pass_to(t); return;
        }
        u64 best = ~0ull; int live = 0;
        for (int i = 0; i < ntask; i++) { Task* t = &task[i]; if (!t->used || t->done || proc[t->proc].dead) continue; live = 1;
            u64 w = t->blocked ? t->deadline : 0; if (t->hold > now_ns && (!t->blocked || t->pred(t->arg) || t->hold > w)) w = t->hold; if (w < best) best = w; }
        if (!live) { finished = 1; pass_to(-1); return; }
        if (best == ~0ull) {
            char b[1500]; int o = 0; for (int i = 0; i < ntask; i++) if (!task[i].done && !proc[task[i].proc].dead) o += snprintf(b + o, sizeof(b) - o, " %s waits for %s;", task[i].name, task[i].why);
            failf(2, "deadlock: no party can go on:%s last operation %s", b, sh->label);
        }
        if (best <= now_ns) best = now_ns + 1;
        now_ns = best;
        if (now_ns > c_max_time) failf(2, "hang: not finished after %llu simulated s", (unsigned long long)(now_ns / 1000000000ull));
    }
}
static void give_way(int stay) {
    int m = me;
    pthread_mutex_lock(&mu);
    pick_next(stay);
    while (cur != m) pthread_cond_wait(&cv[m], &mu);
    pthread_mutex_unlock(&mu);
}
static void enter(const char* call) {
    if (me < 0) return;
    now_ns += c_cost; sh->steps++;
    if (now_ns > c_max_time || sh->steps > c_max_steps) failf(2, "hang: not finished after %llu simulated s and %llu calls, last operation %s", (unsigned long long)(now_ns / 1000000000ull), (unsigned long long)sh->steps, sh->label);
    if (c_stall && ps_chance(1, c_stall, 4096)) { task[me].hold = now_ns + 1000 * (1 + ps_choose(1, (u32)(c_stall_max / 1000))); sh->faults[FT_STALL]++; tr("%s stalled in %s", task[me].name, call); give_way(0); }
    else if (c_switch && ntask > 1 && ps_chance(1, c_switch, 256)) give_way(1);
}
static int wait_for(const char* why, Pred p, void* a, u64 deadline) {
    if (me < 0) failf(3, "blocking call outside a party");
    Task* t = &task[me];
    if (p(a)) return 1;
    sh->faults[FT_BLOCKED]++;
    t->blocked = 1; t->pred = p; t->arg = a; t->deadline = deadline; t->why = why;
    tr("%s waits: %s", t->name, why);
    give_way(0);
    t->blocked = 0;
    return p(a);
}
static int never(void* a) { return 0; }
static void die_now(int p) { proc[p].dead = 1; close_fds(p); tr("process %d ends", p); }
static void stop_if_dead(void) { if (me >= 0 && proc[task[me].proc].dead) { task[me].done = 1; give_way(0); for (;;) pause(); } }

// ------------------------------------------------------------------ interface for the driver
void ps_init(Shared* s, u64 seed, int tron) { sh = s; trace_on = tron; for (int i = 0; i < 3; i++) { rng[i] = seed * 3 + i; next64(&rng[i]); } for (int i = 0; i <= NT; i++) pthread_cond_init(&cv[i], 0); sh->thash = sh->shash = 7; }
void ps_replay(const u32* w, u32 nw, const u32* s, u32 ns, const u32* f, u32 nf) { replaying = 1; rep[0] = w; nrep[0] = nw; rep[1] = s; nrep[1] = ns; rep[2] = f; nrep[2] = nf; }
void ps_cfg(int sw, int sr, int swr, int eintr, int stall, u64 stall_max_us, u32 cap) { c_switch = sw; c_short_r = sr; c_short_w = swr; c_eintr = eintr; c_stall = stall; c_stall_max = stall_max_us * 1000; c_cap = cap; }
int ps_party(const char* name) { int i = ntask++; task[i].used = 1; task[i].proc = i; task[i].why = "start"; strncpy(task[i].name, name, 31); return i; }
void ps_setenv(int p, const char* k, const char* v) { int n = proc[p].nenv++; strncpy(proc[p].env[n][0], k, 127); strncpy(proc[p].env[n][1], v, 127); }
// a pipe: write end in process p at wfd, read end in q; -1 picks a descriptor. Returns wfd | rfd << 8 | buf << 16
int ps_pipe(int p, int wfd, int q, int rfd) {
    Buf* b = new_buf(p); File* w = calloc(1, sizeof(File)); File* r = calloc(1, sizeof(File));
    w->kind = K_W; w->tx = b; b->writers = 1; r->kind = K_R; r->rx = b; b->readers = 1;
    if (wfd < 0) wfd = put(p, w); else { proc[p].fd[wfd] = w; w->refs++; }
    if (rfd < 0) rfd = put(q, r); else { proc[q].fd[rfd] = r; r->refs++; }
    return wfd | rfd << 8 | b->id << 16;
}
int ps_listener(int p, int port, int listening) { File* f = calloc(1, sizeof(File)); f->kind = K_SOCK; f->port = port; f->listening = listening; f->backlog = 4; ports[nports++] = f; return put(p, f); }
void ps_begin(int t) { me = t; pthread_mutex_lock(&mu); while (cur != t) pthread_cond_wait(&cv[t], &mu); pthread_mutex_unlock(&mu); }
void ps_end(void) { pthread_mutex_lock(&mu); task[me].done = 1; if (!proc[task[me].proc].dead) die_now(task[me].proc); pick_next(0); pthread_mutex_unlock(&mu); }
void ps_run(void) { pthread_mutex_lock(&mu); me = -1; pick_next(0); while (!finished) pthread_cond_wait(&cv[NT], &mu); pthread_mutex_unlock(&mu); }
void ps_cut_later(int p, i64 after) { proc[p].cut_later = after + 1; }   // like ps_cut, for the first connection the process makes
int ps_was_killed(int p) { return proc[p].killed; }
long ps_write(int fd, const void* b, size_t n); long ps_read(int fd, void* b, size_t n);
long ps_sread(int fd, void* b, size_t n) { long k; do k = ps_read(fd, b, n); while (k < 0 && errno == EINTR); return k; }
int ps_swrite(int fd, const char* b, size_t n) { while (n) { long k = ps_write(fd, b, n); if (k < 0) { if (errno == EINTR) continue; return -1; } b += k; n -= k; } return 0; }
int ps_connect(int fd, const struct sockaddr* sa, socklen_t n);
int ps_connect_port(int fd, int port) { struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_port = htons(port); return ps_connect(fd, (struct sockaddr*)&a, sizeof a); }
void ps_cut(int b, i64 after) { bufs[b]->cut = after; }          // the writing process dies after so many bytes
i64 ps_total(int b) { return bufs[b]->total; }
int ps_nbufs(void) { return nbuf; }
int ps_buf_owner(int b) { return bufs[b]->owner; }
size_t ps_tap(int b, char* out, size_t n) { if (out) memcpy(out, bufs[b]->tap, n < bufs[b]->ntap ? n : bufs[b]->ntap); return bufs[b]->ntap; }
int ps_open_fds(int p) { int n = 0; for (int i = 0; i < 64; i++) n += proc[p].fd[i] != 0; return n; }
int ps_is_open(int p, int fd) { return fd >= 0 && fd < 64 && proc[p].fd[fd] != 0; }
int ps_dead(int p) { return proc[p].dead; }
u64 ps_now(void) { return now_ns; }
void ps_pause(u64 us) { enter("pause"); wait_for("a pause", never, 0, now_ns + us * 1000); }
void ps_die(void) { die_now(task[me].proc); sh->faults[FT_KILLED]++; task[me].done = 1; give_way(0); for (;;) pause(); }
void ps_set_max_time(u64 s) { c_max_time = s * 1000000000ull; }
void ps_read_faults_off(void) { c_short_r = c_short_w = c_eintr = c_stall = 0; }

// ------------------------------------------------------------------ memory of the library
#define NA 65536
static struct { void* p; void* site; } al[NA]; static long live, total_allocs;
static void a_add(void* p, void* site) { if (!p) return; live++; total_allocs++; u64 i = ((u64)p >> 4) * 0x9e3779b97f4a7c15ull >> 48; for (u32 k = 0; k < NA; k++, i = (i + 1) & (NA - 1)) if (!al[i].p || al[i].p == (void*)1) { al[i].p = p; al[i].site = site; return; } }
static void a_del(void* p) { if (!p) return; u64 i = ((u64)p >> 4) * 0x9e3779b97f4a7c15ull >> 48; for (u32 k = 0; k < NA && al[i].p; k++, i = (i + 1) & (NA - 1)) if (al[i].p == p) { al[i].p = (void*)1; live--; return; } }
void* ps_malloc(size_t n) { void* p = malloc(n); if (p && n < 1u << 20) memset(p, 0xa5, n); a_add(p, __builtin_return_address(0)); return p; }
void* ps_calloc(size_t n, size_t m) { void* p = calloc(n, m); a_add(p, __builtin_return_address(0)); return p; }
void* ps_realloc(void* q, size_t n) { a_del(q); void* p = realloc(q, n); a_add(p, __builtin_return_address(0)); return p; }
void ps_free(void* p) { a_del(p); free(p); }
char* ps_strdup(const char* s) { char* p = strdup(s); a_add(p, __builtin_return_address(0)); return p; }
long ps_live(void) { return live; }
// who allocated what is still live
int ps_describe(char* out, int n) {
    int o = 0; out[0] = 0;
    struct { const char* s; int c; } seen[32]; int k = 0;
    for (int i = 0; i < NA; i++) if (al[i].p && al[i].p != (void*)1) {
        Dl_info d; const char* s = dladdr(al[i].site, &d) && d.dli_sname ? d.dli_sname : "static function"; int j;
        for (j = 0; j < k; j++) if (!strcmp(seen[j].s, s)) { seen[j].c++; break; }
        if (j == k && k < 32) { seen[k].s = s; seen[k++].c = 1; }
    }
    for (int pass = 0; pass < k; pass++) { int b = -1; for (int j = 0; j < k; j++) if (seen[j].c && (b < 0 || strcmp(seen[j].s, seen[b].s) < 0)) b = j; o += snprintf(out + o, n - o > 0 ? n - o : 0, " %s x%d", seen[b].s, seen[b].c); seen[b].c = 0; if (o >= n) break; }
    return o;
}

// ------------------------------------------------------------------ calls of the library
static File* file(int fd) { if (me < 0) failf(3, "descriptor call outside a party"); return fd >= 0 && fd < 64 ? proc[task[me].proc].fd[fd] : 0; }
static void ev(const char* c, i64 a, i64 r) { mix(&sh->thash, (u64)(me + 1) * 1000003 + c[0] * 257 + c[1]); mix(&sh->thash, a * 31 + r); tr("%s: %s(%lld) = %lld", me >= 0 ? task[me].name : "main", c, (long long)a, (long long)r); }
static int can_read(void* a) { Buf* b = a; return b->len > 0 || b->writers == 0; }
static int can_write(void* a) { Buf* b = a; return b->len < b->cap || b->readers == 0; }
static int eintr(const char* c) { if (c_eintr && ps_chance(2, c_eintr, 256)) { sh->faults[FT_EINTR]++; errno = EINTR; ev(c, -4, -1); return 1; } return 0; }

static long do_read(const char* c, int fd, void* out, size_t n) {
    enter(c); File* f = file(fd);
    if (!f || (f->kind != K_R && f->kind != K_SOCK)) { errno = EBADF; ev(c, fd, -1); return -1; }
    if (f->kind == K_SOCK && !f->connected) { errno = ENOTCONN; return -1; }
    if (f->rd_shut) return 0;
    Buf* b = f->rx;
    if (!can_read(b)) { if (eintr(c)) return -1; f->refs++; wait_for("data", can_read, b, ~0ull); drop(f); stop_if_dead(); }
    size_t k = b->len < n ? b->len : n;
    if (k > 1 && c_short_r && ps_chance(2, c_short_r, 256)) { k = 1 + ps_choose(2, k - 1); sh->faults[FT_SHORT_READ]++; }
    memcpy(out, b->d + b->head, k); b->head += k; b->len -= k;
    ev(c, fd, k); return k;
}
static long do_write(const char* c, int fd, const void* in, size_t n) {
    enter(c); File* f = file(fd);
    if (!f || (f->kind != K_W && f->kind != K_SOCK)) { errno = EBADF; ev(c, fd, -1); return -1; }
    if (f->kind == K_SOCK && !f->connected) { errno = ENOTCONN; return -1; }
    if (f->wr_shut) { errno = EPIPE; return -1; }
    Buf* b = f->tx;
    if (!n) return 0;
    if (!can_write(b)) { if (eintr(c)) return -1; f->refs++; wait_for("room", can_write, b, ~0ull); drop(f); stop_if_dead(); }
    if (!b->readers) { errno = EPIPE; ev(c, fd, -1); return -1; }      // Python ignores SIGPIPE
    size_t k = b->cap - b->len < n ? b->cap - b->len : n;
    if (k > 1 && c_short_w && ps_chance(2, c_short_w, 256)) { k = 1 + ps_choose(2, k - 1); sh->faults[FT_SHORT_WRITE]++; }
    int dies = 0;
    if (b->cut >= 0 && (i64)(b->total + k) >= b->cut) { k = b->cut > (i64)b->total ? b->cut - b->total : 0; dies = 1; }
    if (b->head + b->len + k > b->alloc) { if (b->head) { memmove(b->d, b->d + b->head, b->len); b->head = 0; } if (b->len + k > b->alloc) b->d = realloc(b->d, b->alloc = 2 * (b->len + k)); }
    memcpy(b->d + b->head + b->len, in, k); b->len += k; b->total += k;
    if (b->ntap + k > b->atap) b->tap = realloc(b->tap, b->atap = 2 * (b->ntap + k));
    memcpy(b->tap + b->ntap, in, k); b->ntap += k;
    ev(c, fd, k);
    if (dies) { sh->faults[FT_CUT]++; proc[task[me].proc].killed = 1; die_now(task[me].proc); stop_if_dead(); }
    return k;
}
long ps_read(int fd, void* b, size_t n) { return do_read("read", fd, b, n); }
long ps_write(int fd, const void* b, size_t n) { return do_write("write", fd, b, n); }
long ps_recv(int fd, void* b, size_t n, int fl) { return do_read("recv", fd, b, n); }
long ps_send(int fd, const void* b, size_t n, int fl) { return do_write("send", fd, b, n); }
int ps_close(int fd) { enter("close"); File* f = file(fd); if (!f) { errno = EBADF; failf(2, "closed a descriptor that is not open: %d, last operation %s", fd, sh->label); } proc[task[me].proc].fd[fd] = 0; drop(f); ev("close", fd, 0); return 0; }
int ps_socket(int a, int b, int c) { enter("socket"); File* f = calloc(1, sizeof(File)); f->kind = K_SOCK; int fd = put(task[me].proc, f); ev("socket", 0, fd); return fd; }
int ps_setsockopt(int fd, int l, int o, const void* v, socklen_t n) { enter("setsockopt"); if (!file(fd)) { errno = EBADF; return -1; } return 0; }
int ps_getsockopt(int fd, int l, int o, void* v, socklen_t* n) { if (!file(fd)) { errno = EBADF; return -1; } memset(v, 0, *n); return 0; }
int ps_listen(int fd, int n) { enter("listen"); File* f = file(fd); if (!f || f->kind != K_SOCK || f->connected || !f->port) { errno = f ? EINVAL : EBADF; ev("listen", fd, -1); return -1; } f->listening = 1; ev("listen", fd, 0); return 0; }
static int has_conn(void* a) { return ((File*)a)->nq > 0; }
int ps_accept(int fd, struct sockaddr* sa, socklen_t* n) {
    enter("accept"); File* f = file(fd); if (!f || !f->listening) { errno = EINVAL; return -1; }
    if (!f->nq) { if (eintr("accept")) return -1; wait_for("a connection", has_conn, f, ~0ull); stop_if_dead(); }
    File* s = f->q[0]; memmove(f->q, f->q + 1, --f->nq * sizeof(File*)); int r = put(task[me].proc, s); s->refs--;
    s->tx->owner = task[me].proc; if (proc[task[me].proc].cut_later) s->tx->cut = proc[task[me].proc].cut_later - 1; ev("accept", fd, r); return r;
}
int ps_connect(int fd, const struct sockaddr* sa, socklen_t n) {
    enter("connect"); File* f = file(fd); if (!f || f->kind != K_SOCK) { errno = EBADF; return -1; }
    if (f->connected) { errno = EISCONN; return -1; }
    int port = ntohs(((struct sockaddr_in*)sa)->sin_port);
    for (int i = 0; i < nports; i++) if (ports[i]->port == port && ports[i]->listening && ports[i]->nq < 16) {
        File* s = calloc(1, sizeof(File)); s->kind = K_SOCK; s->connected = f->connected = 1; s->refs = 1;
        Buf* a = new_buf(task[me].proc); Buf* b = new_buf(-1); if (proc[task[me].proc].cut_later) a->cut = proc[task[me].proc].cut_later - 1; a->readers = a->writers = b->readers = b->writers = 1;
        f->tx = a; s->rx = a; f->rx = b; s->tx = b; ports[i]->q[ports[i]->nq++] = s; ev("connect", port, 0); return 0;
    }
    sh->faults[FT_REFUSED]++; errno = ECONNREFUSED; ev("connect", port, -1); return -1;
}
int ps_shutdown(int fd, int how) {
    enter("shutdown"); File* f = file(fd); if (!f || !f->connected) { errno = f ? ENOTCONN : EBADF; return -1; }
    if (how != SHUT_WR && !f->rd_shut) { f->rd_shut = 1; f->rx->readers--; } if (how != SHUT_RD && !f->wr_shut) { f->wr_shut = 1; f->tx->writers--; }
    ev("shutdown", fd, 0); return 0;
}
struct sel { fd_set *r, *w; int n; };
static int sel_ready(File* f, int wr) { if (!f) return 1; if (f->kind == K_SOCK && !f->connected) return wr ? 0 : f->nq > 0; Buf* b = wr ? f->tx : f->rx; return b && (wr ? can_write(b) : f->rd_shut || can_read(b)); }
static int sel_pred(void* a) { struct sel* s = a; for (int i = 0; i < s->n; i++) if ((s->r && FD_ISSET(i, s->r) && sel_ready(file(i), 0)) || (s->w && FD_ISSET(i, s->w) && sel_ready(file(i), 1))) return 1; return 0; }
static __thread int sel_proc;
static int sel_pred2(void* a) { struct sel* s = a; return s->n < 0; }
int ps_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
    enter("select"); struct sel s = {r, w, n}; u64 start = now_ns, dl = tv ? now_ns + tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull : ~0ull;
    (void)sel_pred2; (void)sel_proc;
    while (!sel_pred(&s)) {
        if (now_ns >= dl) { if (tv) tv->tv_sec = tv->tv_usec = 0; FD_ZERO(r ? r : w); if (w) FD_ZERO(w); if (e) FD_ZERO(e); ev("select", n, 0); return 0; }
        if (c_eintr && ps_chance(2, c_eintr, 256)) { now_ns += 1000 * ps_choose(2, 1000); if (tv) { u64 left = dl > now_ns ? dl - now_ns : 0; tv->tv_sec = left / 1000000000ull; tv->tv_usec = left / 1000 % 1000000; } sh->faults[FT_EINTR]++; errno = EINTR; ev("select", -4, -1); return -1; }
        // the predicate looks at this process's descriptors: poll it in steps of simulated time
        Task* t = &task[me]; (void)t; wait_for("select", never, 0, dl < now_ns + 1000000 ? dl : now_ns + 1000000); stop_if_dead();
        if (now_ns - start > 4000ull * 1000000000ull) failf(2, "hang: select waits for ever, last operation %s", sh->label);
    }
    int c = 0; for (int i = 0; i < n; i++) { if (r && FD_ISSET(i, r)) { if (sel_ready(file(i), 0)) c++; else FD_CLR(i, r); } if (w && FD_ISSET(i, w)) { if (sel_ready(file(i), 1)) c++; else FD_CLR(i, w); } }
    if (e) FD_ZERO(e);
    if (tv) { u64 left = dl > now_ns ? dl - now_ns : 0; tv->tv_sec = left / 1000000000ull; tv->tv_usec = left / 1000 % 1000000; }
    ev("select", n, c); return c;
}
int ps_fcntl(int fd, int cmd, ...) { if (!file(fd)) { errno = EBADF; return -1; } return 0; }
int ps_fileno(FILE* f) { return f == stdin ? 0 : f == stdout ? 1 : 2; }
char* ps_getenv(const char* k) { if (me < 0) return 0; Proc* p = &proc[task[me].proc]; for (int i = 0; i < p->nenv; i++) if (!strcmp(p->env[i][0], k)) return p->env[i][1]; return 0; }
unsigned ps_sleep(unsigned s) { enter("sleep"); wait_for("sleep", never, 0, now_ns + s * 1000000000ull); ev("sleep", s, 0); return 0; }
int ps_usleep(unsigned us) { enter("usleep"); wait_for("usleep", never, 0, now_ns + us * 1000ull); return 0; }
int ps_nanosleep(const struct timespec* a, struct timespec* b) { enter("nanosleep"); wait_for("nanosleep", never, 0, now_ns + a->tv_sec * 1000000000ull + a->tv_nsec); return 0; }
long ps_clock(void) { return now_ns / 1000; }
time_t ps_time(time_t* t) { time_t r = 1700000000 + now_ns / 1000000000ull; if (t) *t = r; return r; }
int ps_clock_gettime(int id, struct timespec* t) { u64 n = now_ns + 1700000000ull * 1000000000ull; t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull; return 0; }
int ps_gettimeofday(struct timeval* t, void* z) { u64 n = now_ns + 1700000000ull * 1000000000ull; t->tv_sec = n / 1000000000ull; t->tv_usec = n / 1000 % 1000000; return 0; }
void ps_perror(const char* s) { tr("perror %s: %s", s, strerror(errno)); }
int ps_fputs(const char* s, FILE* f) { return 0; }
int ps_printf(const char* f, ...) { return 0; }
int ps_fprintf(FILE* o, const char* f, ...) { return 0; }
int ps_putchar(int c) { return c; }
int ps_puts(const char* c) { return 0; }
int ps_fputc(int c, FILE* f) { return c; }
size_t ps_fwrite(const void* p, size_t a, size_t b, FILE* f) { return b; }
int ps_fflush(FILE* f) { return 0; }
void ps_assert_fail(const char* e, const char* file, unsigned line, const char* fn) { const char* s = strrchr(file, '/'); failf(2, "crash: assertion `%s' failed in %s (%s), last operation %s", e, fn, s ? s + 1 : file, sh->label); }
void ps_abort(void) { failf(2, "crash: abort called, last operation %s", sh->label); }
void ps_exit(int c) { failf(2, "crash: exit(%d) called, last operation %s", c, sh->label); }
