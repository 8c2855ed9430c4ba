// Engine C: setting up socket sessions: any order of listening, connecting and accepting, interrupted and failing calls.
#include "session.h"
#include "shm.h"
#include <signal.h>
#include <sys/socket.h>
#include <netinet/in.h>
int create_server_socket(int port);
void destroy_server_socket(int server);
namespace h {
static void on_signal(int) {}
struct SetUp {
    int id = 0, port = 0; bool has_tracker = true; int timeout = 5; uint64_t d_listen = 0, d_accept = 0, d_tracker = 0; string name; Proc *cp = nullptr, *sp = nullptr;
    bool stray = false; uint64_t d_stray = 0; bool talk = true;
    uint64_t t_listen = 0, t_unlisten = UINT64_MAX, t_tracker = 0, t_conn = UINT64_MAX; int refusals = 0; bool hard_c = false, hard_s = false; bool c_ok = false, s_ok = false, s_back = false, c_back = false; File* stray_file = nullptr; int aborted = 0;
};
static string mname(trax_handle* h) { return h->metadata && h->metadata->tracker_name ? h->metadata->tracker_name : ""; }
static void client_side(SetUp& s, bool alone) {
    Proc* p = s.cp; int fds0 = live_fds(p); size_t mem0 = live_allocs(p); uint64_t mark = alloc_mark();
    if (s.d_listen) sleep_for(s.d_listen);
    int l = create_server_socket(s.port);
    if (l < 0) { CHECK(s.hard_c, "listen-failed: no server socket although no call failed"); if (alone) SCHECK("C12", live_fds(p) == fds0, "descriptor-leak: %d descriptors left open by a failed server socket", live_fds(p) - fds0); s.c_back = true; return; }
    CHECK(!s.hard_c, "listen-failure-ignored: a call failed while the server socket was set up, but it was reported as working");
    s.t_listen = now(); int fds1 = live_fds(p);
    if (s.d_accept) sleep_for(s.d_accept);
    uint64_t t0 = now(); trax_handle* h = trax_client_setup_socket(l, s.timeout, trax_no_log); uint64_t t = now() - t0;
    uint64_t lim = s.timeout < 0 ? UINT64_MAX : (uint64_t)s.timeout * SEC; bool in_time = s.t_conn != UINT64_MAX && (lim == UINT64_MAX || s.t_conn + 100 * MS < t0 + lim);
    ev("client setup %s after %llu ms", h ? "succeeded" : "failed", (unsigned long long)(t / MS));
    if (!h) {
        if (lim != UINT64_MAX && !in_time) CHECK(t <= lim + 1 * SEC, "late-failure: setup without a tracker failed after %.2f s, the limit is %d s", t / 1e9, s.timeout);
        if (!s.hard_c) {
            CHECK(!in_time || s.hard_s, "setup-failed: the tracker connected %.2f s after the client began to wait for %d s, but setup failed after %.2f s", s.t_conn > t0 ? (s.t_conn - t0) / 1e9 : 0.0, s.timeout, t / 1e9);
            if (!in_time) CHECK(lim != UINT64_MAX && t + 20 * MS >= lim, "early-failure: setup failed after %.2f s without a failing call, the limit is %d s", t / 1e9, s.timeout);
        }
        probe("client setup failed");
        if (alone) { CHECK(live_fds(p) == fds1, "descriptor-leak: %d descriptors left open by a failed setup", live_fds(p) - fds1); }
    } else {
        s.c_ok = true; probe("client setup succeeded");
        CHECK(!s.hard_c, "failure-ignored: a call failed while the connection was set up, but setup was reported as successful");
        CHECK(s.has_tracker, "ghost-tracker: setup succeeded although no tracker was started");
        CHECK(mname(h) == s.name, "wrong-tracker: client %d is connected to tracker '%s' instead of '%s'", s.id, mname(h).c_str(), s.name.c_str());
        if (s.talk) {
            Imgs im; im.ch[0].type = TRAX_IMAGE_PATH; im.ch[0].data = "/" + s.name; trax_image_list* il = make_imgs(im, 1); vector<Obj> o(1); o[0].reg.type = TRAX_REGION_RECTANGLE; o[0].reg.r[0] = s.id; o[0].reg.r[1] = 2; o[0].reg.r[2] = 3; o[0].reg.r[3] = 4;
            trax_object_list* ol = make_objs(o); int r = trax_client_initialize(h, il, ol, nullptr); CHECK(r == TRAX_OK, "first-message: initialize failed on a fresh connection");
            trax_object_list_release(&ol); free_imgs(&il); ol = nullptr; trax_properties* pr = trax_properties_create(); r = trax_client_wait(h, &ol, pr);
            CHECK(r == TRAX_STATE, "first-answer: wait failed on a fresh connection (%d)", r); vector<Obj> back = read_objs(ol); CHECK(back.size() == 1 && same(back[0].reg, o[0].reg), "first-answer: wrong state");
            trax_object_list_release(&ol); trax_properties_release(&pr);
        }
        trax_cleanup(&h);
        if (alone) CHECK(live_fds(p) == fds1, "descriptor-leak: %d descriptors left open by a session that was released", live_fds(p) - fds1);
    }
    s.t_unlisten = now(); destroy_server_socket(l);
    if (alone) { CHECK(live_fds(p) == fds0, "descriptor-leak: %d descriptors left open after the server socket was destroyed", live_fds(p) - fds0); SCHECK("C12,C20", live_allocs(p) == mem0, "memory-leak: allocated in %s", first_alloc_site(p, mark).c_str()); }
    s.c_back = true;
}
static void server_side(SetUp& s) {
    Proc* p = s.sp; if (s.d_tracker) sleep_for(s.d_tracker);
    s.t_tracker = now(); int fds0 = live_fds(p);
    trax_metadata* m = trax_metadata_create(TRAX_REGION_RECTANGLE, TRAX_IMAGE_PATH, TRAX_CHANNEL_COLOR, s.name.c_str(), "d", "f", 0);
    trax_handle* h = trax_server_setup_v(m, trax_no_log, TRAX_VERSION); trax_metadata_release(&m);
    s.s_back = true;
    if (!h) { CHECK(s.hard_s, "tracker-gave-up: the tracker's setup failed although no call failed for good"); CHECK(live_fds(p) == fds0, "descriptor-leak: %d descriptors left open by the tracker's failed setup", live_fds(p) - fds0); return; }
    s.s_ok = true; CHECK(!s.hard_s, "failure-ignored: a call failed, but the tracker's setup was reported as successful");
    CHECK(s.t_conn != UINT64_MAX, "ghost-connection: the tracker's setup succeeded without a connection");
    uint64_t from = std::max(s.t_tracker, s.t_listen), lim = (1200 + (uint64_t)s.refusals * 1000) * MS + 300 * MS;
    CHECK(s.t_conn <= from + lim, "slow-connection: the tracker connected %.2f s after both sides were there (%d refused or failed attempts since)", (s.t_conn - from) / 1e9, s.refusals);
    trax_image_list* il = nullptr; trax_object_list* r = nullptr; trax_properties* pr = trax_properties_create();
    int c = trax_server_wait_mot(h, &il, &r, pr);
    if (c == TRAX_INITIALIZE) { Imgs im = read_imgs(il); CHECK(im.ch[0].data == "/" + s.name, "wrong-client: tracker '%s' got the image of another session: %s", s.name.c_str(), im.ch[0].data.c_str()); trax_server_reply_mot(h, r); }
    else if (s.c_ok) CHECK(!s.talk, "first-message: the tracker's first wait returned %d", c);
    if (il) free_imgs(&il); if (r) trax_object_list_release(&r);
    if (c == TRAX_INITIALIZE) { c = trax_server_wait_mot(h, &il, &r, pr); CHECK(c < 0 || c == TRAX_QUIT, "unexpected message %d", c); }
    trax_properties_release(&pr); trax_cleanup(&h);
    CHECK(live_fds(p) == fds0, "descriptor-leak: %d descriptors left open by the tracker's session", live_fds(p) - fds0);
}
void scen_sockets(const char* id) {
    active = id; io_profile(1); sched_profile(false); cfg.pipe_cap = std::max<size_t>(cfg.pipe_cap, 4096); int n = choose(W, 3) == 2 ? 2 + choose(W, 2) : 1; Proc* cp = new_proc("client");
    for (int s : {SIGUSR1, SIGPIPE}) { cp->sig[s].kind = s == SIGPIPE ? 1 : 2; cp->sig[s].handler = on_signal; }
    vector<std::unique_ptr<SetUp>> ss; static const int lim[] = {5, 1, 2, 0, 3, 30, -1};
    auto gap = []() -> uint64_t { switch (choose(W, 4)) { case 0: return 0; case 1: return 1 + choose(W, 50) * MS; default: return 1 + choose(W, 90) * 100 * MS; } };
    for (int i = 0; i < n; i++) {
        SetUp* s = new SetUp; ss.emplace_back(s); s->id = i + 1; s->port = 9090 + i; s->cp = cp; s->sp = new_proc("tracker" + std::to_string(i + 1)); s->name = "tracker-" + std::to_string(choose(W, 1000)) + "-" + std::to_string(i);
        for (int g : {SIGUSR1, SIGPIPE}) { s->sp->sig[g].kind = g == SIGPIPE ? 1 : 2; s->sp->sig[g].handler = on_signal; }
        set_env(s->sp, "TRAX_SOCKET", std::to_string(s->port)); s->timeout = lim[choose(W, 7)]; s->has_tracker = choose(W, 6) != 5; if (!s->has_tracker && s->timeout < 0) s->timeout = 1;
        s->d_listen = gap(); s->d_accept = gap(); s->d_tracker = gap(); s->talk = choose(W, 4) != 3; s->stray = choose(W, 5) == 4; s->d_stray = s->d_listen + choose(W, 60) * 100 * MS;
        sample("session %d: client listens after %.2f s, waits %.2f s later with limit %d s; tracker %s %.2f s%s\n", s->id, s->d_listen / 1e9, s->d_accept / 1e9, s->timeout, s->has_tracker ? "starts after" : "never starts:", s->has_tracker ? s->d_tracker / 1e9 : 0.0, s->stray ? "; another connection is broken off before it is accepted" : "");
    }
    // one call fails for good, or some fail for the moment
    int mode = choose(W, 4), victim = choose(W, n); bool cside = choose(W, 2) == 0; int64_t nth = choose(W, 2), cnt = 0, tcnt = 0; const char* call = ""; int err = 0;
    if (mode == 2) { struct HF { const char* c; int e; bool client; }; static const HF hf[] = {{"socket", EMFILE, true}, {"bind", EACCES, true}, {"listen", EADDRINUSE, true}, {"setsockopt", ENOBUFS, true}, {"accept", EMFILE, true}, {"select", ENOMEM, true}, {"socket", ENFILE, false}, {"setsockopt", ENOPROTOOPT, false}}; const HF& x = hf[cside ? choose(W, 6) : 6 + choose(W, 2)]; call = x.c; err = x.e; cside = x.client; }
    if (mode == 2) for (auto& s : ss) if (s->timeout < 0) s->timeout = 4;
    int trans = mode == 1 ? 1 + choose(F, 6) : 0; int storm = mode != 0 && choose(W, 2) ? 1 + choose(W, 3) : 0;
    if (n > 1 && mode == 2 && cside) mode = 0;       // calls of one process cannot be told apart
    SetUp* vs = ss[victim].get();
    fault_hook = [&](const char* c, Proc* p, int fd) -> int {
        SetUp* me = nullptr; for (auto& s : ss) if (s->sp == p) me = s.get();
        if (mode == 2 && !strcmp(c, call) && (cside ? p == cp : p == vs->sp)) if (cnt++ == nth) { (cside ? vs->hard_c : vs->hard_s) = true; fault("call fails"); return err; }
        if (p == cp && !strcmp(c, "accept")) {
            auto it = cp->fds.find(fd);       // a connection that was broken off
            for (auto& s : ss) if (s->stray_file && it != cp->fds.end() && !it->second.f->queue.empty() && it->second.f->queue.front().get() == s->stray_file) { it->second.f->queue.pop_front(); s->stray_file = nullptr; s->aborted++; fault("ECONNABORTED"); return ECONNABORTED; }
            if (trans > 0 && chance(F, 1, 2)) { trans--; fault("accept interrupted"); return EINTR; }
        }
        if (me && trans > 0 && !strcmp(c, "connect") && chance(F, 1, 2)) { auto it = p->fds.find(fd); if (it == p->fds.end() || it->second.f->st == SS_CONNECTED) return 0; trans--; me->refusals++; fault("connect fails"); static const int ce[] = {ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ECONNRESET}; return ce[choose(F, 4)]; }
        if (trans > 0 && !strcmp(c, "select") && chance(F, 1, 3)) { trans--; fault("select interrupted"); return EINTR; }
        return 0; };
    connect_hook = [&](File* a, File* b) {
        for (auto& s : ss) if (s->port == b->port) { if (cur->proc == s->sp) s->t_conn = std::min(s->t_conn, now()); else s->stray_file = b; } };
    for (auto& u : ss) {
        SetUp* s = u.get(); bool alone = n == 1;
        new_task(cp, "client" + std::to_string(s->id), [s, alone] { client_side(*s, alone); });
        if (s->has_tracker) new_task(s->sp, "tracker" + std::to_string(s->id), [s] { server_side(*s); exit_proc(s->sp, 0); }, true);
        if (s->stray) { Proc* q = new_proc("stray"); new_task(q, "stray", [s] {
            sleep_for(s->d_stray); if (s->t_listen == 0 || s->t_unlisten != UINT64_MAX || s->t_conn != UINT64_MAX) return;
            int fd = k_socket(); if (k_connect(fd, s->port) == 0 || errno == EINTR) probe("stray connection"); k_close(fd); }, true); }
    }
    if (storm) { Proc* q = new_proc("signals"); vector<Proc*> targets = {cp}; for (auto& s : ss) targets.push_back(s->sp); uint64_t gapms = storm == 1 ? 40 : storm == 2 ? 300 : 900; new_task(q, "signals", [targets, gapms] { for (;;) { sleep_for((1 + choose(S, (uint32_t)gapms)) * MS); Proc* t = targets[choose(S, (uint32_t)targets.size())]; if (t->alive) { deliver(t, SIGUSR1); fault("signal"); } } }, true); }
    int fds0 = live_fds(cp); run();
    for (auto& s : ss) CHECK(s->c_back, "stuck: the client's setup did not return");
    CHECK(live_fds(cp) == fds0, "descriptor-leak: %d descriptors left open in the client", live_fds(cp) - fds0);
    set_nontrivial();
}
}
using namespace h;
SCENARIO(C12) { scen_sockets("C12"); }
