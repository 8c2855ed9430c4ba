// Engine D: TrackerProcess (with its watchdog and logger threads) against simulated tracker programs that answer, hang, die or misbehave.
#include "session.h"
#include "shm.h"
#include "trax/client.hpp"
#include <signal.h>
#include <setjmp.h>
#include <sstream>
#include <stdexcept>
#include <sys/socket.h>
#include <netinet/in.h>
namespace h {
enum Ev { E_NONE, E_EXIT, E_SIG, E_HANG, E_CLOSE, E_QUIT };
static const char* ev_name[] = {"is well-behaved", "exits", "is killed", "hangs", "closes its streams", "quits"};
struct ErrOut { string text; uint64_t pause = 0; };
struct Beh {                         // behaviour of one tracker process
    uint64_t start_delay = 0, reply_delay = 0; bool vary = false;
    int ev = E_NONE, when = 0; uint64_t at = 0; int code = 0, sig = SIGKILL; bool stubborn = false;   // when: 0 at the at-th call, 1 before the at-th answer, 2 at a time after the start, 3 before the introduction
    uint64_t linger = 0; int exit_code = 0; int hello = 0;      // 0 regular, 1 newer version, 2 no introduction, 3 end of stream
    bool multi = false; int version = 4; bool chatty = false; bool mutequit = false;
    vector<vector<ErrOut>> err; string last; uint64_t seed = 0;
};
struct Inst {
    Beh b; Proc* p = nullptr; int serial = 0, sess = 0; uint64_t born = 0, died = 0, ev_at = 0, quit_at = 0, conn_at = 0; bool exited_early = false; string err, out, in; int served = 0; bool introduced = false; uint64_t calls = 0; bool cut = false;
    bool alive() const { return p->alive; }
};
struct LogPiece { string s; uint64_t t; };
struct LogBuf : std::streambuf {
    vector<LogPiece> pieces; bool slow = false;
    std::streamsize xsputn(const char* s, std::streamsize n) override { pieces.push_back({string(s, (size_t)n), now()}); return n; }
    int overflow(int c) override { if (c != EOF) pieces.push_back({string(1, (char)c), now()}); return 0; }
};
struct DFocus { bool hang = false, die = false, slow = false, err = false, cb = false, fail = false, leave = false, quiet = false; int sessions = 1; bool healthy() const { return !hang && !die && !leave; } };
struct DSess {
    int offered = 0;   // number of the last image given to initialize
    int id = 0; Proc* cp = nullptr; int mode = 0, verbosity = 1, timeout = 5; string dir; vector<string> args; vector<Beh> behs; vector<Inst*> inst; LogBuf buf; std::unique_ptr<std::ostream> log; std::map<string, string> env; string cmd;
    bool ending = false; bool done = false; bool constructed = false; int ops = 0; Inst* cur() { return inst.empty() ? nullptr : inst.back(); }
    size_t inst_before = 0; bool old_alive = false; uint64_t t0 = 0; string what; DFocus f; uint64_t asked_at = 0; bool multi = false; int n_objs = 1; bool faulted = false; bool healthy_run = true; bool alone = true; bool calling = false;
};
static vector<DSess*> sess;
static bool cb_flag[4]; static uint64_t cb_count[4]; static uint64_t cb_asked = 0;
static int cb_registered = 0;
static bool cb0() { cb_count[0]++; return cb_flag[0]; }
static bool cb1() { cb_count[1]++; return cb_flag[1]; }
static bool cb2() { cb_count[2]++; return cb_flag[2]; }
static bool cb3() { cb_count[3]++; return cb_flag[3]; }
static trax::WatchdogCallback* cbs[] = {cb0, cb1, cb2, cb3};
static const uint64_t FEW = 4 * SEC;

// ---------------------------------------------------------------- the tracker program
static string args_show(const vector<string>& a) { string r; for (auto& x : a) r += "[" + show(x, 80) + "]"; return r; }
static void happen(Inst* i) {
    Beh& b = i->b; i->ev_at = now(); ev("tracker %s/%d %s", i->p->name.c_str(), i->serial, ev_name[b.ev]); fault(b.ev == E_EXIT ? "tracker exits" : b.ev == E_SIG ? "tracker killed" : b.ev == E_HANG ? (b.stubborn ? "tracker hangs, ignores SIGTERM" : "tracker hangs") : b.ev == E_CLOSE ? "tracker closes its streams" : "tracker quits");
    switch (b.ev) {
    case E_EXIT: exit_proc(i->p, b.code); break;
    case E_SIG: kill_proc(i->p, b.sig); break;
    case E_HANG: if (b.stubborn) { i->p->sig[SIGTERM].kind = 1; } for (;;) { std::function<bool()> never = [] { return false; }; block("hang", never); }
    case E_CLOSE: { if (b.stubborn) i->p->sig[SIGTERM].kind = 1; close_all(i->p); for (;;) { std::function<bool()> never = [] { return false; }; block("hang", never); } }
    }
}
static void err_out(Inst* i, size_t k) {
    if (k >= i->b.err.size()) return;
    for (auto& e : i->b.err[k]) {
        size_t d = 0;
        while (d < e.text.size()) { long n = k_write(2, e.text.data() + d, e.text.size() - d); if (n < 0 && errno == EINTR) continue; if (n <= 0) return; d += n; }
        if (e.pause) sleep_for(e.pause);
    }
}
static int tracker_main(Proc* p) {
    int sid = p->argv.size() > 1 ? atoi(p->argv[1].c_str()) : 0; DSess* s = nullptr; for (auto x : sess) if (x->id == sid) s = x;
    if (!s) harness_error("tracker started with unknown arguments");
    Inst* i = new Inst; i->p = p; i->sess = sid; i->serial = (int)s->inst.size(); i->b = s->behs[std::min(s->inst.size(), s->behs.size() - 1)]; i->born = now(); p->user = i; s->inst.push_back(i);
    p->name = "tracker" + std::to_string(sid) + "." + std::to_string(i->serial);
    Beh& b = i->b; Rng rng(b.seed);
    if (b.ev != E_NONE && b.ev != E_QUIT) {
        if (b.when == 2) new_task(p, "fate", [i] { sleep_for(i->b.at); if (i->b.ev == E_HANG || i->b.ev == E_CLOSE) return; happen(i); }, true);
        s->healthy_run = false;
    }
    // environment and directory the session asked for
    { int got = connection_of(p); PCHECK("C19,C15", got == s->mode, "connection: the tracker of session %d gets %s instead of %s", sid, CONNECTION_NAMES[got], CONNECTION_NAMES[s->mode]); }
    PCHECK("C19,C15", p->cwd == (s->dir.empty() ? string("/") : s->dir), "working-directory: the tracker of session %d was started in '%s' instead of '%s'", sid, p->cwd.c_str(), s->dir.c_str());
    for (auto& e : s->env) { bool ok = false; for (auto& v : p->env_store) if (v == e.first + "=" + e.second) ok = true; PCHECK("C19,C15", ok, "environment: the tracker of session %d was started without %s=%s", sid, e.first.c_str(), e.second.c_str()); }
    if (s->args.size()) { bool same = p->argv.size() == s->args.size(); for (size_t k = 0; same && k < s->args.size(); k++) same = p->argv[k] == s->args[k]; PCHECK("C19,C15", same, "arguments: the tracker of session %d was started with %s instead of %s", sid, args_show(p->argv).c_str(), args_show(s->args).c_str()); }
    for (auto& v : s->cp->env_store) { size_t q = v.find('='); if (q == string::npos) continue; string k = v.substr(0, q); if (k.compare(0, 5, "TRAX_") == 0 || s->env.count(k)) continue; bool ok = false; for (auto& w : p->env_store) if (w == v) ok = true; PCHECK("C19,C15", ok, "inherited-environment: the tracker of session %d was started without %s", sid, v.c_str()); }
    { auto it = p->fds.find(2); if (it != p->fds.end() && it->second.f->tx) it->second.f->tx->tap = &i->err; }
    err_out(i, 0);
    if (b.start_delay) sleep_for(b.start_delay);
    if (b.when == 3 && b.ev != E_NONE) happen(i);
    if (b.hello) {
        int fd = 1; for (auto& v : p->env_store) if (v.compare(0, 9, "TRAX_OUT=") == 0) fd = atoi(v.c_str() + 9);
        if (s->mode == 2) { fd = k_socket(); int port = 0; for (auto& v : p->env_store) if (v.compare(0, 12, "TRAX_SOCKET=") == 0) port = atoi(v.c_str() + 12); while (k_connect(fd, port) < 0 && errno != EISCONN) sleep_for(SEC); }
        string t = b.hello == 1 ? wire_encode(TRAX_HELLO, {}, {{"trax.version", "5"}, {"trax.image", "path;"}, {"trax.region", "rectangle;"}}) : b.hello == 2 ? "progress: usage: tracker [options]\nprogress: no such thing\n" : "";
        size_t d = 0; while (d < t.size()) { long k = k_write(fd, t.data() + d, t.size() - d, s->mode == 2, MSG_NOSIGNAL); if (k < 0 && errno == EINTR) continue; if (k <= 0) break; d += k; }
        i->ev_at = now(); s->healthy_run = false; fault("improper introduction");
        if (b.hello == 3) { close_all(p); }
        if (b.linger) sleep_for(b.linger);
        return b.exit_code;
    }
    trax_metadata* m = trax_metadata_create(TRAX_REGION_RECTANGLE, TRAX_IMAGE_PATH | TRAX_IMAGE_MEMORY, TRAX_CHANNEL_COLOR, ("tracker-" + std::to_string(sid)).c_str(), "simulated", "sim", b.multi ? TRAX_METADATA_MULTI_OBJECT : 0);
    trax_handle* h = trax_server_setup_v(m, trax_no_log, b.version); trax_metadata_release(&m);
    if (!h) { i->exited_early = true; return 9; }
    i->introduced = true;
    vector<Obj> objs;
    for (;;) {
        trax_image_list* il = nullptr; trax_object_list* ol = nullptr; trax_properties* pr = trax_properties_create(); int r; trax_region* rg = nullptr;
        if (b.version >= 4) r = trax_server_wait_mot(h, &il, &ol, pr); else r = trax_server_wait_sot(h, &il, &rg, pr);
        trax_properties_release(&pr);
        string path; bool mem = false;
        if (il) { Imgs g = read_imgs(il); path = g.ch[0].data; mem = g.ch[0].type == TRAX_IMAGE_MEMORY; free_imgs(&il); }
        vector<Obj> got; if (ol) { got = read_objs(ol); trax_object_list_release(&ol); } if (rg) { Obj o; o.reg = read_reg(rg); got.push_back(o); trax_region_release(&rg); }
        if (r != TRAX_INITIALIZE && r != TRAX_FRAME) { if (r == TRAX_QUIT) { i->quit_at = now(); ev("tracker %s told to quit", p->name.c_str()); } else { i->quit_at = i->quit_at ? i->quit_at : now(); ev("tracker %s lost its client", p->name.c_str()); } break; }
        if (!i->served && r == TRAX_INITIALIZE && s->offered > 1) i->served = s->offered - 1;   // takes the place of one that has just died
        i->served++;
        string want = "/s" + std::to_string(sid) + "/" + std::to_string(i->served);
        if (!mem) PCHECK("C19,C15,C14", path == want, "foreign-message: tracker of session %d expects frame %s and received %s", sid, want.c_str(), path.c_str());
        else PCHECK("C19,C15,C14", path.size() >= 4 && (unsigned char)path[0] == (unsigned)sid && (unsigned char)path[1] == (i->served & 255), "foreign-message: tracker of session %d received the wrong image data", sid);
        if (r == TRAX_INITIALIZE) objs = got; else for (auto& o : got) objs.push_back(o);
        err_out(i, (size_t)i->served);
        uint64_t d = b.vary ? (uint64_t)(rng.next() % 1000) * b.reply_delay / 1000 : b.reply_delay; if (d) sleep_for(d);
        if (b.when == 1 && b.ev != E_NONE && i->served == (int)b.at) {
            if (b.ev == E_QUIT) { i->ev_at = now(); fault("tracker quits"); s->healthy_run = false; string why = "enough"; if (b.mutequit) break; trax_terminate(h, why.c_str()); break; }
            happen(i);
        }
        if (b.chatty) { const char* n = "progress: some output\n"; if (s->mode == 0) { size_t d = 0, l = strlen(n); while (d < l) { long k = k_write(1, n + d, l - d); if (k < 0 && errno == EINTR) continue; if (k <= 0) break; d += k; } } }
        trax_properties* out = trax_properties_create(); trax_properties_set_int(out, "serial", i->served);
        if (b.version >= 4) {
            vector<Obj> rep = objs; for (size_t k = 0; k < rep.size(); k++) { rep[k].reg.r[0] = sid * 1000 + i->serial * 100 + k; rep[k].reg.r[1] = i->served; rep[k].props["serial"] = std::to_string(i->served); }
            trax_object_list* ro = make_objs(rep); r = trax_server_reply_mot(h, ro); trax_object_list_release(&ro);
        } else { trax_region* rr = trax_region_create_rectangle(sid * 1000 + i->serial * 100, i->served, 5, 5); r = trax_server_reply_sot(h, rr, out); trax_region_release(&rr); }
        trax_properties_release(&out);
        if (r < 0) break;
        if (b.when == 4 && b.ev != E_NONE && i->served == (int)b.at) happen(i);
    }
    err_out(i, (size_t)i->served + 1); if (!b.last.empty()) { b.err.assign(1, {ErrOut{b.last, 0}}); err_out(i, 0); }
    if (b.linger) sleep_for(b.linger);
    trax_cleanup(&h);
    return b.exit_code;
}

// ---------------------------------------------------------------- the client application
static bool inst_faulty(Inst* i) { return i && (i->cut || i->ev_at || (i->b.ev != E_NONE && !i->p->alive) || i->b.hello); }
static void begin(DSess& s, const char* what) { s.what = what; s.t0 = now(); s.inst_before = s.inst.size(); s.old_alive = s.cur() && s.cur()->p->alive; s.calling = true; ev("session %d: %s", s.id, what); }
// common checks at the end of a call: phases = how many times the time limit may pass in it
static void finish_call(DSess& s, bool ok, int phases, bool starts, bool ends) {
    s.calling = false;
    uint64_t t1 = now(), d = t1 - s.t0; Inst* i = s.cur(); const char* w = s.what.c_str(); uint64_t limit = (uint64_t)(s.timeout > 0 ? s.timeout : 0) * SEC;
    ev("session %d: %s %s after %.3f s", s.id, w, ok ? "succeeded" : "failed", d / 1e9);
    CHECK(s.cp->alive, "client-died: the client application was ended by the library");
    bool hung = i && i->ev_at && (i->b.ev == E_HANG || i->b.hello) ; bool dead = i && !i->p->alive;
    if (s.timeout > 0) PCHECK("C13,C14,C15,C18,C19", d <= (limit + FEW) * phases + (s.timeout > 0 ? 0 : 10 * SEC), "unbounded-call: session %d: %s returned after %.2f s, the time limit is %d s", s.id, w, d / 1e9, s.timeout);
    // a death is noticed at once
    if (i && dead && i->ev_at && (i->b.ev == E_EXIT || i->b.ev == E_SIG) && !starts && s.inst.size() == s.inst_before) { uint64_t from = std::max(s.t0, i->p->died_at); if (t1 > from) PCHECK("C14,C19", t1 - from <= FEW, "late-death: session %d: %s returned %.2f s after the tracker had died", s.id, w, (t1 - from) / 1e9); }
    if (i && dead && i->ev_at && (i->b.ev == E_EXIT || i->b.ev == E_SIG) && starts && s.inst.size() > s.inst_before) { uint64_t from = std::max(s.t0, i->p->died_at); if (t1 > from && !ok) PCHECK("C14,C19", t1 - from <= FEW, "late-death: session %d: %s returned %.2f s after the new tracker had died", s.id, w, (t1 - from) / 1e9); }
    if (i && i->ev_at && i->b.ev == E_CLOSE && !ends && s.inst.size() == s.inst_before) { uint64_t from = std::max(s.t0, i->ev_at); if (t1 > from && s.mode != 0 + 9) (void)from; }
    if (cb_asked && !ends && s.f.cb) { uint64_t from = std::max(s.t0, cb_asked); if (t1 > from && i && i->born < cb_asked) PCHECK("C18", t1 - from <= FEW, "late-termination: %s returned %.2f s after a callback asked for termination", w, (t1 - from) / 1e9); }
    bool asked = cb_asked != 0;
    if (!ok && starts && s.constructed && !s.faulted && !asked && (!s.old_alive || s.what == "reset")) PCHECK("C15,C19,C14,C13,C16", s.inst.size() > s.inst_before, "not-started: session %d: %s failed without starting a tracker although no call failed", s.id, w);
    if (!ok) {
        // a session that failed is over
        if (i && s.constructed && !s.faulted) {
            bool byquit = i->b.ev == E_QUIT && i->ev_at;
            if (hung && i->ev_at < t1 && !byquit) PCHECK("C13,C16", !i->p->alive, "still-running: session %d: %s failed because the tracker hangs, but the tracker process is still running", s.id, w);
            PCHECK("C15,C19", inst_faulty(i) || asked || s.args.empty(), "disturbed: session %d: %s failed after %.2f s although the tracker (pid %d) is well-behaved%s", s.id, w, d / 1e9, i->p->pid, dead ? " (its process has ended)" : "");
        }
    }
    // nobody signals a well-behaved tracker or tells it to quit
    if (ok && i && !ends && !asked && !inst_faulty(i)) {
        for (auto& g : i->p->sig_received) PCHECK("C15,C18,C19", g.second == 0, "signalled: session %d: a well-behaved tracker received signal %d during %s", s.id, g.first, w);
        PCHECK("C15,C18,C19", !i->quit_at, "told-to-quit: session %d: a well-behaved tracker was told to quit or cut off", s.id);
        PCHECK("C15,C18,C19", i->p->alive, "gone: session %d: a well-behaved tracker is not running any more", s.id);
    }
    if (cb_asked && s.f.cb && now() > cb_asked + FEW) for (auto x : s.inst) if (x->born < cb_asked) PCHECK("C18", !x->p->alive, "not-terminated: a callback asked for termination %.2f s ago, the tracker is still running", (now() - cb_asked) / 1e9);
    if (ends || starts) for (size_t k = 0; k + (ends && !starts ? 0 : 1) < s.inst.size(); k++) { Proc* p = s.inst[k]->p; PCHECK("C16,C13,C15", !p->alive, "left-running: session %d: tracker process %d is still running after %s", s.id, p->pid, w); PCHECK("C16", p->reaped, "zombie: session %d: tracker process %d has not been reaped after %s", s.id, p->pid, w); }
    for (auto x : s.inst) PCHECK("C16,C19", x->p->stale_kills == 0, "stale-signal: a signal was sent to process %d after it had been reaped", x->p->pid);
}
static string image_path(DSess& s, int n) { return "/s" + std::to_string(s.id) + "/" + std::to_string(n); }
static trax::ImageList make_frame(DSess& s, Inst* i, int n) {
    trax::ImageList l; int kind = s.f.hang || s.f.die || s.f.slow || s.f.cb ? choose(W, 4) : 0;
    if (kind == 3) {
        int w = 20 + choose(W, 300), hh = 10 + choose(W, 200); trax::Image img = trax::Image::create_memory(w, hh, TRAX_IMAGE_MEMORY_GRAY8); char* d = img.write_memory_row(0); d[0] = (char)s.id; d[1] = (char)n; for (int y = 1; y < hh; y++) memset(img.write_memory_row(y), y, w);
        memset(d + 2, 0, w - 2); l.set(img, TRAX_CHANNEL_COLOR); probe("large frame");
    } else l.set(trax::Image::create_path(image_path(s, n)), TRAX_CHANNEL_COLOR);
    (void)i; return l;
}
struct App {
    DSess& s; trax::TrackerProcess* tp = nullptr; bool tracking = false, waiting = false; int n = 0; uint64_t t_created = 0; int n_cb = 0; uint64_t cb_base[4]; uint64_t t_cb = 0; vector<int> regs;
    explicit App(DSess& s) : s(s) {}
    bool full = false;
    // room left in the pipe to a tracker that hangs, 0: not such a tracker
    size_t room(Inst* i) {
        if (!i || !i->p->alive || i->b.ev != E_HANG || !i->ev_at) return 0;
        for (auto& f : i->p->fds) if (f.second.f->rx && (f.second.f->kind != FK_SOCK || f.second.f->st == SS_CONNECTED)) { Pipe& x = *f.second.f->rx; return x.cap > x.data.size() ? x.cap - x.data.size() : 0; }
        return 0;
    }
    int fds0 = 0; size_t mem0 = 0; uint64_t mark = 0; int thr0 = 0;
    void create() {
        fds0 = live_fds(s.cp); mem0 = live_allocs(s.cp); mark = alloc_mark(); thr0 = unjoined_threads(s.cp);
        begin(s, "constructor"); s.constructed = false; bool ok = false; s.ending = false;
        trax::ConnectionMode m = s.mode == 0 ? trax::CONNECTION_DEFAULT : s.mode == 1 ? trax::CONNECTION_EXPLICIT : trax::CONNECTION_SOCKETS;
        { std::map<string, string> e = s.env;
          try { tp = new trax::TrackerProcess(s.cmd, e, s.timeout, m, (trax::VerbosityMode)s.verbosity, s.dir, s.log.get()); ok = true; }
          catch (std::exception& x) { ev("constructor throws: %s", x.what()); tp = nullptr; } }
        s.calling = false; s.constructed = ok; t_created = now();
        if (!ok) {
            PCHECK("C13,C14,C15,C16,C18,C19", s.faulted, "not-constructed: a session could not be constructed although no call failed");
            if (s.alone) { PCHECK("C16", live_fds(s.cp) == fds0, "descriptor-leak: %d descriptors left open by a session that could not be constructed", live_fds(s.cp) - fds0); PCHECK("C16", unjoined_threads(s.cp) == thr0, "thread-leak: a session that could not be constructed left a thread"); PCHECK("C16", live_allocs(s.cp) == mem0, "memory-leak: session that could not be constructed: %s", first_alloc_site(s.cp, mark).c_str()); }
        } else if (s.f.cb || choose(W, 6) == 5) {
            n_cb = 1 + choose(W, 4); int k = 0, now_only = n_cb > 1 && choose(W, 2) ? 1 + choose(W, n_cb - 1) : n_cb; for (; k < now_only; k++) tp->register_watchdog(cbs[k]);
            cb_registered = std::max(cb_registered, k);
            if (k < n_cb) {                                           // the others are registered while the first ones are being called
                uint64_t c0 = cb_count[0]; std::function<bool()> called = [&c0] { return cb_count[0] > c0; }; block("callback", called); if (choose(W, 4)) sleep_for(100 * MS - (choose(W, 3) == 2 ? choose(W, 1000) * 1000 : 0));
                for (int more = choose(W, 8); more > 0; more--) { tp->register_watchdog(cbs[0]); c0 = cb_count[0]; block("callback", called); sleep_for(100 * MS); }
                for (; k < n_cb; k++) tp->register_watchdog(cbs[k]); cb_registered = std::max(cb_registered, k); probe("registered while polled");
            }
            for (int k = 0; k < 4; k++) cb_base[k] = cb_count[k]; t_cb = now();
        }
        tracking = waiting = false;
    }
    void destroy() {
        if (!tp) return;
        poll_check();
        begin(s, "destructor"); s.ending = true; delete tp; tp = nullptr; finish_call(s, true, 2, false, true); s.constructed = false; if (s.f.cb) { cb_registered = n_cb = 0; for (bool& b : cb_flag) b = false; cb_asked = 0; } tracking = waiting = false;
        if (s.timeout <= 0 && 0) {}
        if (s.alone) {
            PCHECK("C16", live_fds(s.cp) == fds0, "descriptor-leak: %d descriptors left open after the session was destroyed", live_fds(s.cp) - fds0);
            PCHECK("C16", unjoined_threads(s.cp) == thr0, "thread-leak: %d threads left after the session was destroyed", unjoined_threads(s.cp) - thr0);
            PCHECK("C16", live_allocs(s.cp) == mem0, "memory-leak: after the session was destroyed: %s", first_alloc_site(s.cp, mark).c_str());
        }
    }
    void poll_check() {
        if (!n_cb || !tp || now() < t_cb + 1500 * MS || cb_asked) return;
        for (int k = 0; k < n_cb; k++) { PCHECK("C18", cb_count[k] > cb_base[k], "callback-not-polled: callback %d of %d was not called for %.2f s", k + 1, n_cb, (now() - t_cb) / 1e9); }
        if (n_cb) probe("callbacks polled");
    }
    // what a failed session has to look like
    void after_failure(const char* what) {
        tracking = waiting = false; if (!tp) return;
        PCHECK("C14,C13,C18", !tp->ready(), "ready-after-failure: session %d reports that it is ready after %s failed", s.id, what);
        PCHECK("C14,C13,C18", !tp->tracking(), "tracking-after-failure: session %d reports that it is tracking after %s failed", s.id, what);
        probe("session failed");
    }
    void started_ok() {
        Inst* i = s.cur(); n = 0; CHECK(i, "ghost-tracker: a session was started without a tracker process");
        if (i->p->alive && !i->ev_at && !cb_asked) {
            bool r = tp->ready(); if (i->p->alive && !i->ev_at && !cb_asked) PCHECK("C15,C19", r, "not-ready: session %d is not ready right after it was started", s.id);
            if (r) { bool mo = tp->multiobject(); if (i->p->alive && !cb_asked && !i->ev_at) PCHECK("C15,C19", mo == (i->b.multi && i->b.version >= 4), "declaration: session %d reports multi-object support %d, its tracker declared %d", s.id, mo, i->b.multi); }
            try { trax::Metadata m = tp->metadata(); PCHECK("C19,C15", m.tracker_name() == "tracker-" + std::to_string(s.id), "declaration: session %d reports tracker '%s'", s.id, m.tracker_name().c_str()); }
            catch (std::exception& x) { PCHECK("C15,C19", !i->p->alive || i->ev_at || cb_asked, "metadata-failed: %s", x.what()); }
        }
    }
    void query() {
        begin(s, "query"); bool ok = false, thrown = false; s.ending = true; bool run0 = s.cur() && s.cur()->p->alive;
        try { ok = tp->query(); } catch (std::exception& x) { thrown = true; ev("query throws: %s", x.what()); }
        bool started = s.inst.size() > s.inst_before; s.ending = false;
        finish_call(s, started ? ok : !thrown, 3, true, false);
        if (thrown) { failed_start("query"); after_failure("query"); } else if (started) { PCHECK("C15,C19,C14", ok, "query-result: a tracker was started but query reports false"); started_ok(); tracking = waiting = false; }
        (void)run0;
    }
    void failed_start(const char* what) {
        for (auto i : s.inst) { PCHECK("C16,C13,C14", !i->p->alive, "left-running: session %d: a tracker process is running after %s had thrown", s.id, what); PCHECK("C16", i->p->reaped, "zombie: session %d: the tracker process has not been reaped after %s had thrown", s.id, what); }
        Inst* i = s.cur(); if (s.inst.size() > s.inst_before) PCHECK("C15,C19", inst_faulty(i) || cb_asked || s.faulted, "disturbed: session %d: %s has thrown although the tracker is well-behaved", s.id, what);
    }
    void initialize() {
        Inst* before = s.cur(); bool run0 = before && before->p->alive && tp->ready();
        int next = run0 ? n + 1 : 1; s.offered = next; trax::ImageList l = make_frame(s, nullptr, next); trax::Properties pr; pr.set("trial", s.id); int k = s.multi ? 1 + choose(W, 3) : 1; s.n_objs = k;
        trax::ObjectList ol(k); for (int j = 0; j < k; j++) ol.set(j, trax::Region::create_rectangle(j, 1, 2, 3));
        begin(s, "initialize"); bool ok = false, thrown = false; bool single = k == 1 && choose(W, 2); s.ending = !run0;
        try { ok = single ? tp->initialize(l, trax::Region::create_rectangle(0, 1, 2, 3), pr) : tp->initialize(l, ol, pr); } catch (std::exception& x) { thrown = true; ev("initialize throws: %s", x.what()); }
        bool started = s.inst.size() > s.inst_before; s.ending = false;
        finish_call(s, ok, started ? 4 : 2, started || !run0, false);
        if (ok) { if (started) n = next; else n++; tracking = waiting = true; if (started) started_check(); }
        else { if (thrown) { if (!(before && before->p->alive)) failed_start("initialize"); } after_failure("initialize"); }
    }
    void started_check() { Inst* i = s.cur(); CHECK(i, "ghost-tracker: a session was initialized without a tracker process"); }
    void frame() {
        trax::ImageList l = make_frame(s, nullptr, n + 1); trax::Properties pr; size_t left = room(s.cur()); bool fill = left > 80 && choose(W, 2);
        // a message that leaves no room for another one
        if (fill) { string t = image_path(s, n + 1); t += string(left - t.size() - 22 - choose(W, 24), 'x'); l = trax::ImageList(); l.set(trax::Image::create_path(t), TRAX_CHANNEL_COLOR); }
        begin(s, "frame"); bool ok = false; bool viaobj = choose(W, 2);
        try { trax::ObjectList none; ok = viaobj ? tp->frame(l, none, pr) : tp->frame(l, pr); } catch (std::exception& x) { ev("frame throws: %s", x.what()); }
        finish_call(s, ok, 2, false, false);
        if (fill && ok) { full = true; probe("pipe of a hanging tracker filled"); }
        if (ok) { n++; waiting = true; } else after_failure("frame");
    }
    void wait() {
        begin(s, "wait"); bool ok = false; trax::Region r; trax::ObjectList ol; trax::Properties pr; bool viaobj = s.n_objs > 1 || choose(W, 2);
        try { ok = viaobj ? tp->wait(ol, pr) : tp->wait(r, pr); } catch (std::exception& x) { ev("wait throws: %s", x.what()); }
        finish_call(s, ok, 2, false, false);
        if (!ok) { after_failure("wait"); return; }
        Inst* i = s.cur(); waiting = false; CHECK(i, "ghost-answer: an answer without a tracker");
        int cnt = viaobj ? ol.size() : 1; PCHECK("C13,C14,C15,C19", cnt == s.n_objs, "wrong-answer: session %d received %d states instead of %d", s.id, cnt, s.n_objs);
        for (int k = 0; k < cnt; k++) { Reg g = read_reg(viaobj ? ol.get(k) : r); float ex = s.id * 1000 + i->serial * 100 + k; PCHECK("C13,C14,C15,C19", g.type == TRAX_REGION_RECTANGLE && g.r[0] == ex && g.r[1] == n, "wrong-answer: session %d expects answer %d of tracker %d.%d and received %s", s.id, n, s.id, i->serial, show(g).c_str()); }
    }
    void reset() {
        begin(s, "reset"); bool ok = false, thrown = false; s.ending = true; Inst* before = s.cur();
        try { ok = tp->reset(); } catch (std::exception& x) { thrown = true; ev("reset throws: %s", x.what()); }
        s.ending = false; finish_call(s, ok, 5, true, false); if (before) CHECK(!before->p->alive || s.cur() == before, "old-tracker: the tracker is still running after a reset");
        if (before) PCHECK("C15,C16,C13", s.cur() != before || thrown, "no-fresh-tracker: reset did not start a fresh tracker process");
        tracking = waiting = false; if (thrown || !ok) { if (thrown) failed_start("reset"); after_failure("reset"); } else started_ok();
    }
    void pause() {
        uint64_t d; switch (choose(W, 4)) { case 0: d = choose(W, 200) * MS; break; case 1: d = choose(W, 3000) * MS; break; case 2: d = (uint64_t)(s.timeout + 1) * SEC; break; default: d = choose(W, 100) * 300 * MS; }
        begin(s, "pause"); sleep_for(d); bool asked = cb_asked != 0; Inst* i = s.cur(); s.calling = false;
        if (i && !asked && !inst_faulty(i) && tp) { bool r = tp->ready(); if (!i->ev_at && !cb_asked && tracking) PCHECK("C15,C18,C19", r, "not-ready: session %d is not ready after the client paused for %.2f s", s.id, d / 1e9); }
        if (i && i->ev_at && (i->b.ev == E_EXIT || i->b.ev == E_SIG) && !i->p->alive && tp) PCHECK("C14", !tp->ready(), "ready-after-death: session %d reports that it is ready although the tracker has died", s.id);
        if (asked && s.f.cb && now() > cb_asked + FEW) for (auto x : s.inst) if (x->born < cb_asked) PCHECK("C18", !x->p->alive, "not-terminated: a callback asked for termination %.2f s ago, the tracker is still running", (now() - cb_asked) / 1e9);
    }
    void run() {
        create();
        int recreate = 0; int failures = 0;
        for (int k = 0; k < s.ops; k++) {
            if (!tp) { if (recreate++ > 2) break; create(); if (!tp) continue; }
            uint32_t c = choose(W, 16); if (full && waiting) c = 13 + choose(W, 3); full = false;
            if (!tracking) { if (c == 15) query(); else if (c == 14) reset(); else if (c == 13) pause(); else if (c == 12) { destroy(); } else initialize(); if (!tracking && ++failures > 6) break; }
            else if (waiting) { if (c == 15) pause(); else if (c == 14) reset(); else if (c == 13) destroy(); else wait(); }
            else { if (c >= 14) pause(); else if (c == 13) reset(); else if (c == 12) destroy(); else if (c >= 10) initialize(); else frame(); }
            if (choose(W, 24) == 23 && tp) { bool r = tp->ready(), t = tp->tracking(); Inst* i = s.cur(); if (i && !inst_faulty(i) && !cb_asked && tracking) PCHECK("C15,C19", r && t, "not-ready: session %d reports ready %d, tracking %d", s.id, r, t); }
            poll_check();
            if (tp && cb_asked && s.f.cb && k % 2) { clear_cb(); }
        }
        destroy();
        s.done = true;
    }
    void clear_cb() { bool any = false; for (auto i : s.inst) if (i->p->alive && i->born < cb_asked) any = true; if (any) return; for (bool& b : cb_flag) b = false; for (auto i : s.inst) if (i->born < cb_asked) i->cut = true; cb_asked = 0; probe("session after a termination request"); }
};

// ---------------------------------------------------------------- error output
static string gen_line(DSess& s, int i, int k, uint32_t n) {
    string t = "E" + std::to_string(s.id) + "." + std::to_string(i) + "." + std::to_string(k) + ":"; Rng g(choose(W, 1 << 30)); bool bin = choose(W, 5) == 4;
    while (t.size() < n) { char c = bin ? (char)g.below(256) : (char)(' ' + g.below(95)); if (c == '\n') c = '.'; t += c; }
    return t;
}
static vector<vector<ErrOut>> gen_err(DSess& s, int i, bool slowparts) {
    vector<vector<ErrOut>> r; int points = 1 + choose(W, 5), k = 0;
    for (int p = 0; p < points; p++) {
        vector<ErrOut> v; int n = choose(W, 4);
        for (int j = 0; j < n; j++) {
            uint32_t len; switch (choose(W, 6)) { case 0: len = 12; break; case 1: len = 250 + choose(W, 12); break; case 2: len = choose(W, 2000); break; case 3: len = choose(W, 100); break; case 4: len = 500 + choose(W, 40); break; default: len = choose(W, 300); }
            int rep = choose(W, 30) == 29 ? 400 : choose(W, 6) == 5 ? 20 : 1; if (rep == 400) len = std::min(len, 300u); string t; for (int q = 0; q < rep; q++) { t += gen_line(s, i, k++, len); if (!(q == rep - 1 && choose(W, 6) == 5)) t += choose(W, 16) == 15 ? "\n\n" : "\n"; }
            // in pieces
            size_t d = 0; int cuts = choose(W, 3); for (int c = 0; c < cuts; c++) { size_t m = choose(W, (uint32_t)(t.size() - d) + 1); ErrOut e; e.text = t.substr(d, m); e.pause = choose(W, 2) ? (uint64_t)choose(W, slowparts ? 2500 : 200) * MS : 0; d += m; v.push_back(e); }
            ErrOut e; e.text = t.substr(d); e.pause = choose(W, 4) == 3 ? (uint64_t)choose(W, slowparts ? 600 : 200) * MS : 0; v.push_back(e);
        }
        if (!slowparts && !v.empty() && (v.back().text.empty() || v.back().text.back() != '\n')) v.back().text += '\n';   // no line is left unfinished for long
        r.push_back(v);
    }
    return r;
}
// what is forwarded of the error output of one process: lines are cut after 255 characters
static string forwarded(const string& err) {
    string o; size_t n = 0;
    for (char c : err) { n++; if (n >= 256) { if (n == 256) o += '\n'; } else o += c; if (c == '\n') n = 0; }
    return o;
}
static void check_log(DSess& s, bool slowparts) {
    if (getenv("DBGLOG")) for (auto& p : s.buf.pieces) fprintf(stderr, "%.6f <%s>\n", p.t / 1e9, show(p.s, 300).c_str());
    string got; bool inclient = false; string proto; bool midline = false;
    for (auto& p : s.buf.pieces) {
        if (inclient) { if (!p.s.empty() && p.s.back() == '\n') inclient = false; continue; }
        if (p.s.compare(0, 8, "CLIENT: ") == 0) { inclient = p.s.back() != '\n'; if (!slowparts) PCHECK("C17", !midline, "mixed-line: other output in the middle of a line of the error output: %s after '%s'", show(p.s).c_str(), show(got.substr(got.size() > 40 ? got.size() - 40 : 0)).c_str()); continue; }
        if (p.s.empty()) continue;
        // protocol lines arrive whole, or cut off at the end of the stream
        bool ours = false, maybe = false; for (string pre : {"@@TRAX:", "progress:"}) { if (p.s.compare(0, pre.size(), pre) == 0) ours = true; else if (p.s.size() < pre.size() && pre.compare(0, p.s.size(), p.s) == 0) maybe = true; }
        if (maybe) { if (midline) return; ours = true; }
        if (ours) { if (!slowparts) PCHECK("C17", !midline, "mixed-line: protocol traffic in the middle of a line of the error output: %s after %s at %.6f", show(p.s).c_str(), show(got.substr(got.size() > 40 ? got.size() - 40 : 0), 200).c_str(), p.t / 1e9); proto += p.s; continue; }
        got += p.s; midline = got.back() != '\n';
        // the end of a process ends the line as well
        { size_t tot = 0; for (auto i : s.inst) { tot += forwarded(i->err).size(); if (tot == got.size()) midline = false; } }
    }
    string want; for (auto i : s.inst) want += forwarded(i->err);
    if (s.verbosity == 0) { PCHECK("C17", got.empty() && proto.empty(), "silent: output of a silent session: %s", show(got + proto).c_str()); return; }
    if (got != want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
        PCHECK("C17", false, "error-output: forwarded error output differs from what the tracker wrote at byte %zu of %zu (forwarded %zu): written '%s', forwarded '%s'", k, want.size(), got.size(), show(want.substr(k, 60)).c_str(), show(got.substr(k, 60)).c_str()); }
    if (!want.empty()) probe("error output compared");
}

// ---------------------------------------------------------------- generation
static Beh gen_beh(DSess& s, const DFocus& f, int idx) {
    Beh b; b.seed = choose(W, 1 << 30); uint64_t lim = s.timeout > 0 ? (uint64_t)s.timeout * SEC : 8 * SEC; uint64_t most = lim - 500 * MS;
    b.version = s.multi ? 4 : choose(W, 4) == 3 ? 3 : 4; b.multi = s.multi;
    auto delay = [&]() -> uint64_t { switch (choose(W, 4)) { case 0: return 0; case 1: return choose(W, 300) * MS; case 2: return f.slow ? most : most / 2; default: return (uint64_t)choose(W, 1000) * most / 1000; } };
    b.start_delay = delay(); b.reply_delay = delay(); b.vary = choose(W, 2); if (s.mode == 2) b.start_delay = std::min(b.start_delay, most - std::min<uint64_t>(most, 200 * MS));
    b.linger = choose(W, 4) == 3 ? (uint64_t)choose(W, 40) * 100 * MS : 0; if (f.err && !f.quiet) b.linger = std::min(b.linger, 300 * MS); b.exit_code = choose(W, 6) == 5 ? 1 + choose(W, 3) : 0; b.stubborn = choose(W, 3) == 2;
    b.chatty = choose(W, 8) == 7;
    if (f.err || choose(W, 6) == 5) { b.err = gen_err(s, idx, f.quiet); if (choose(W, 3) == 2) b.last = gen_line(s, idx, 9999, choose(W, 600));  uint64_t longest = 0; for (auto& v : b.err) { uint64_t t = 0; for (auto& e : v) t += e.pause; longest = std::max(longest, t); } while (longest + std::max(b.start_delay, b.reply_delay) > most) { if (b.start_delay || b.reply_delay) { b.start_delay = b.reply_delay = 0; } else { for (auto& v : b.err) for (auto& e : v) e.pause = 0; break; } } }
    bool bad = (f.hang || f.die || f.leave) && choose(W, 5) != 4;
    if (bad) {
        vector<int> k; if (f.hang) { k.push_back(E_HANG); k.push_back(E_HANG); if (f.leave) k.push_back(E_CLOSE); } if (f.die) { k.push_back(E_EXIT); k.push_back(E_SIG); k.push_back(E_SIG); } if (f.leave) k.push_back(E_QUIT);
        b.ev = pick(W, k); b.code = choose(W, 3) ? 0 : 1 + choose(W, 100); static const int sg[] = {SIGKILL, SIGSEGV, SIGABRT, SIGTERM, SIGPIPE}; b.sig = sg[choose(W, 5)];
        int w = choose(W, 8);
        if (b.ev == E_QUIT) w = 3;
        if (w < 2) { b.when = 0; b.at = choose(W, 4) == 3 ? choose(W, 2000) : choose(W, 250); }
        else if (w < 5) { b.when = 1; b.at = 1 + choose(W, 5); if (b.ev != E_QUIT && choose(W, 3) == 2) { b.when = 4; b.at = 1 + choose(W, 3); } }
        else if (w < 7 && b.ev != E_HANG && b.ev != E_CLOSE) { b.when = 2; b.at = choose(W, 3) == 0 ? choose(W, 200) * MS : (uint64_t)choose(W, 1000) * 4 * lim / 1000; }
        else if (w == 7) b.when = 3;
        else { b.when = 0; b.at = choose(W, 300); }
        b.mutequit = choose(W, 3) == 2;
    }
    if (bad && choose(W, 8) == 7) { b.ev = E_NONE; b.hello = 1 + choose(W, 3); b.linger = choose(W, 2) ? 0 : f.hang ? 1000 * SEC : 300 * MS; }
    return b;
}
static string show(const Beh& b) {
    char t[200]; snprintf(t, sizeof t, "starts after %.2f s, answers within %.2f s, %s", b.start_delay / 1e9, b.reply_delay / 1e9, b.hello ? "introduces itself wrongly" : ev_name[b.ev]); string r = t;
    if (b.ev != E_NONE) { snprintf(t, sizeof t, " %s%.0f%s%s", b.when == 0 ? "at its call " : b.when == 1 ? "before answer " : b.when == 2 ? "after ms " : b.when == 4 ? "after answer " : "before its introduction ", b.when == 2 ? b.at / 1e6 : (double)b.at, b.ev == E_SIG ? (" by signal " + std::to_string(b.sig)).c_str() : "", b.stubborn ? ", ignores SIGTERM" : ""); r += t; }
    return r;
}
// a command line: plain and quoted parts
static string gen_command(DSess& s) {
    s.args = {"tracker", std::to_string(s.id)}; int n = choose(W, 3) == 2 ? 1 + choose(W, 4) : 0;
    for (int k = 0; k < n; k++) {
        string a; uint32_t len = choose(W, 8) == 7 ? 200 + choose(W, 2800) : choose(W, 12); static const char* pool = "abcdefgh0123456789-_=/.:,;*?$&()<>|#~%!@[]{}+  "; bool hi = choose(W, 8) == 7; size_t np = strlen(pool);
        while (a.size() < len) { a += pool[choose(W, (uint32_t)np)]; if (hi && choose(W, 4) == 3) a += "\xc3\xa9"; } s.args.push_back(a);
    }
    string c; bool loose = choose(W, 4) == 3, quoteall = choose(W, 4) == 3;     // the way the command line tools put it together: quoted, with spaces on both sides
    for (size_t k = 0; k < s.args.size(); k++) { string& a = s.args[k]; bool q = quoteall || a.empty() || a.find(' ') != string::npos; if (loose) c += " "; else if (k) c += " "; c += q ? "\"" + a + "\"" : a; if (loose && (k + 1 < s.args.size() || choose(W, 2))) c += " "; }
    if (choose(W, 8) == 7) c += string(1 + choose(W, 3), ' ');
    return c;
}
void run_processes(const char* id, const DFocus& f) {
    active = id; io_profile(1); sched_profile(true); cfg.pipe_cap = std::max<size_t>(cfg.pipe_cap, 1000); cfg.max_time = 3000 * SEC; if (f.healthy()) cfg.stall_max = 2 * MS;
    Proc* cp = new_proc("client"); for (int fd = 0; fd < 3; fd++) install(cp, std::make_shared<File>(), fd); dirs.insert("/"); dirs.insert("/work"); dirs.insert("/work2"); dirs.insert("/work3");
    set_env(cp, "PATH", "/bin"); if (choose(W, 2)) { set_env(cp, "APPLICATION", "a=b c"); set_env(cp, "EMPTY", ""); set_env(cp, "SESSION", "of the application"); } programs["tracker"] = tracker_main; sess.clear();
    for (int k = 0; k < f.sessions; k++) {
        DSess* s = new DSess; sess.push_back(s); s->id = k + 1; s->cp = cp; s->f = f; s->alone = f.sessions == 1; s->log.reset(new std::ostream(&s->buf));
        s->mode = choose(W, 3); s->verbosity = f.err ? (choose(W, 8) == 7 ? 0 : 1 + choose(W, 2)) : choose(W, 3); static const int lim[] = {5, 2, 1, 10, 3, 30, 0}; s->timeout = lim[choose(W, f.hang || f.cb ? 6 : 7)]; if (f.cb && choose(W, 2)) s->timeout = 60; if (f.fail && s->timeout == 0) s->timeout = 4;
        s->multi = choose(W, 4) == 3; if (choose(W, 4) == 3) s->dir = k == 0 ? "/work" : k == 1 ? "/work2" : "/work3"; if (choose(W, 2)) s->env["SESSION"] = std::to_string(k + 1);
        s->cmd = gen_command(*s); s->ops = 3 + choose(W, f.sessions > 1 ? 8 : 14);
        int nb = f.healthy() && !f.fail ? 2 : 4; for (int j = 0; j < nb; j++) s->behs.push_back(gen_beh(*s, f, j));
        if (f.fail && choose(W, 8) == 7) s->cmd = choose(W, 2) ? "missing-program" : "\"unfinished quote"; if (s->cmd[0] == 'm' || s->cmd[1] == 'u') { s->faulted = true; s->args.clear(); }
        sample("session %d: %s, limit %d s, %s%s\n", s->id, s->mode == 0 ? "standard streams" : s->mode == 1 ? "dedicated streams" : "socket", s->timeout, s->cmd.c_str(), s->multi ? ", multi-object" : ""); for (auto& b : s->behs) sample("  tracker %s\n", show(b).c_str());
    }
    // failing system calls in the client
    static const char* fc[] = {"pipe", "posix_spawn", "pthread_create", "socket", "bind", "listen", "setsockopt", "accept", "select", "fcntl"}; static const int fe[] = {EMFILE, EAGAIN, EAGAIN, EMFILE, EADDRINUSE, EADDRINUSE, ENOBUFS, EMFILE, ENOMEM, EINVAL};
    int which = -1; int64_t nth = 0, cnt = 0; if (f.fail && choose(W, 4) != 3) { which = choose(W, 10); nth = choose(W, 4) == 3 ? choose(W, 20) : choose(W, 4); for (auto s : sess) s->faulted = true; sample("call %lld of %s fails\n", (long long)nth, fc[which]); }
    fault_hook = [&](const char* c, Proc* p, int) -> int {
        if (p == cp && which >= 0 && !strcmp(c, fc[which]) && cnt++ == nth) { fault((string("failing ") + c).c_str()); return fe[which]; }
        if (p != cp && p->user) { Inst* i = (Inst*)p->user; if (i->b.ev != E_NONE && i->b.ev != E_QUIT && i->b.when == 0 && i->calls++ == i->b.at) { if (cur->name != "fate") happen(i); } }
        return 0; };
    for (auto s : sess) new_task(cp, "app" + std::to_string(s->id), [s] { if (s->id > 1) sleep_for(choose(S, 3) * choose(S, 1000) * MS); App a(*s); a.run(); });
    for (int k = 0; k < 4; k++) { cb_flag[k] = false; cb_count[k] = 0; } cb_asked = 0; cb_registered = 0;
    if (f.cb) new_task(new_proc("user"), "user", [&] {
        if (choose(W, 4) == 3) return;
        for (int k = 0; k < 3; k++) {
            sleep_for(choose(W, 3) == 0 ? choose(W, 1500) * MS : (uint64_t)choose(W, 1000) * 40 * MS);
            bool any = false; for (auto i : sess[0]->inst) any = any || i->p->alive;
            if (cb_asked || !cb_registered || !any || sess[0]->done) continue;
            cb_flag[choose(W, cb_registered)] = true; cb_asked = now(); ev("a callback asks for termination"); fault("termination requested");
        } }, true);
    int fds0 = live_fds(cp); size_t mem0 = live_allocs(cp); uint64_t mark = alloc_mark();
    run();
    for (auto s : sess) { CHECK(s->done, "stuck: session %d did not come to its end", s->id); for (auto i : s->inst) { PCHECK("C16,C13", !i->p->alive, "left-running: tracker %d.%d is still running at the end", s->id, i->serial); PCHECK("C16", i->p->reaped, "zombie: tracker %d.%d was never reaped", s->id, i->serial); } }
    PCHECK("C16", live_fds(cp) == fds0, "descriptor-leak: %d descriptors left open at the end", live_fds(cp) - fds0);
    PCHECK("C16", unjoined_threads(cp) == 0, "thread-leak: %d threads were never joined", unjoined_threads(cp));
    PCHECK("C16", live_allocs(cp) == mem0, "memory-leak: at the end: %s", first_alloc_site(cp, mark).c_str());
    if (relevant("C17") && which < 0) for (auto s : sess) check_log(*s, f.quiet);
    set_nontrivial();
}
static DFocus foc(std::initializer_list<bool DFocus::*> l, int n = 1) { DFocus f; for (auto m : l) f.*m = true; f.sessions = n; return f; }
static bool coin(int n) { return choose(W, n) == n - 1; }
}
using namespace h;
SCENARIO(C13) { DFocus f = foc({&DFocus::hang}); f.leave = coin(4); f.slow = coin(3); f.err = coin(6); f.quiet = true; run_processes("C13", f); }
SCENARIO(C14) { DFocus f = foc({&DFocus::die}); f.leave = coin(3); f.hang = coin(8); f.err = coin(6); f.quiet = true; run_processes("C14", f); }
SCENARIO(C15) { DFocus f = foc({&DFocus::slow}); f.err = coin(3); f.quiet = true; run_processes("C15", f); }
SCENARIO(C16) { DFocus f; switch (choose(sim::W, 4)) { case 0: f.fail = true; break; case 1: f.die = true; f.fail = coin(2); break; case 2: f.hang = true; f.fail = coin(3); break; default: f.leave = f.die = f.hang = true; } f.err = coin(6); f.quiet = true; run_processes("C16", f); }
namespace h { void run_sessions(const char* id, const Focus& f, int n); }
SCENARIO(C17) {
    if (choose(sim::W, 3) == 2) { Focus f; f.logs = true; f.text = choose(sim::W, 2); f.noise = coin(2); f.refuse = coin(3); f.multi = coin(2); f.ends = coin(3); run_sessions("C17", f, 1); return; }
    DFocus f = foc({&DFocus::err}); f.die = coin(2); f.hang = coin(4); f.leave = coin(4); f.slow = coin(4); f.quiet = coin(3) || f.hang || f.leave; run_processes("C17", f);
}
namespace h { void side_by_side(); }
SCENARIO(C19) {
    if (choose(sim::W, 8) == 7) { h::side_by_side(); return; }
    if (choose(sim::W, 4) == 3) { Focus f; f.meta = coin(2); f.multi = coin(2); f.text = choose(sim::W, 2); f.max_steps = 3; run_sessions("C19", f, 2 + choose(sim::W, 2)); return; }
    DFocus f; f.sessions = 2 + coin(3); f.die = coin(2); f.hang = coin(4); f.leave = coin(4); f.slow = coin(3); f.err = coin(6); f.quiet = true; run_processes("C19", f);
}
SCENARIO(C18) { DFocus f = foc({&DFocus::cb}); f.hang = coin(2); f.slow = !f.hang; f.err = coin(6); f.quiet = true; run_processes("C18", f); }

