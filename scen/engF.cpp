// Engine F: the tracker test tool (tester.cpp) with simulated trackers; the picture it offers is written to a scratch directory.
#include "session.h"
#include <signal.h>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
int traxtest_main(int argc, char** argv);
namespace sim { extern std::string scratch_dir; }
namespace h {
namespace {
const uint64_t PIC_BIN = 0x437d628c5f2be32aull, PIC_JPG = 0x5b2568543af9394full;   // of the pictures the tool carries
struct Run {
    int version = 4, images = 0, regions = 0, channels = TRAX_CHANNEL_COLOR, rounds = 1, timeout = 30, mode = 0; bool multi = false; Props params; std::map<string, string> env;
    int ev = 0, when = 0; uint64_t at = 0; int sig = SIGKILL, code = 0; bool stubborn = false;   // ev: 0 none, 1 exit, 2 signal, 3 hang, 4 quit, 5 no introduction, 6 wrong number of objects; when: 0 at a call, 1 before an answer, 2 before the introduction, 3 between the answer and the next request
    uint64_t start = 0, delay = 0, linger = 0, calls = 0, ev_at = 0, end_at = 0; bool extra_props = false;
    Proc* p = nullptr; int started = 0, inits = 0, frames = 0, answered = 0, requests = 0, objects = 0; bool quit_sent = false, told_to_quit = false, introduced = false, failing = false; vector<string> pictures; string args;
} *C;
static uint64_t fnv(const string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
static bool suitable() { return (C->images & (TRAX_IMAGE_BUFFER | TRAX_IMAGE_MEMORY | TRAX_IMAGE_PATH)) && C->channels == TRAX_CHANNEL_COLOR; }
static void happen() {
    static const char* nm[] = {"", "tracker exits", "tracker killed", "tracker hangs", "tracker quits", "improper introduction", "wrong answer"};
    C->ev_at = now(); ev("%s", nm[C->ev]); fault(nm[C->ev]);
    if (C->ev == 1) exit_proc(C->p, C->code);
    if (C->ev == 2) kill_proc(C->p, C->sig);
    if (C->ev == 3) { if (C->stubborn) C->p->sig[SIGTERM].kind = 1; for (;;) { std::function<bool()> never = [] { return false; }; block("hang", never); } }
}
static void check_picture(const Img& im) {
    int want = C->images & TRAX_IMAGE_BUFFER ? TRAX_IMAGE_BUFFER : C->images & TRAX_IMAGE_MEMORY ? TRAX_IMAGE_MEMORY : TRAX_IMAGE_PATH; string jpg;
    CHECK(im.type == want && (im.type & C->images), "image-format: the tracker accepts formats %d and was sent an image of format %d", C->images, im.type);
    if (im.type == TRAX_IMAGE_MEMORY) { CHECK(im.w == 320 && im.h == 240 && im.fmt == TRAX_IMAGE_MEMORY_RGB && im.data.size() == 320 * 240 * 3, "image-size: the picture is %dx%d format %d with %zu bytes", im.w, im.h, im.fmt, im.data.size()); CHECK(fnv(im.data) == PIC_BIN, "image-content: the picture in memory is not the test picture (%llx)", (unsigned long long)fnv(im.data)); return; }
    if (im.type == TRAX_IMAGE_PATH) { std::ifstream f(im.data, std::ios::binary); CHECK(f.is_open(), "image-file: the tracker was told to read %s, which does not exist", show(im.data).c_str()); std::ostringstream s; s << f.rdbuf(); jpg = s.str(); } else jpg = im.data;
    CHECK(fnv(jpg) == PIC_JPG, "image-content: the picture of %zu bytes is not the test picture (%llx)", jpg.size(), (unsigned long long)fnv(jpg));
}
static void raw_line(const string& s) {
    int fd = 1; for (auto& v : C->p->env_store) if (C->mode == 1 && v.rfind("TRAX_OUT=", 0) == 0) fd = atoi(v.c_str() + 9);
    if (C->mode == 2) for (auto& e : C->p->fds) if (e.second.f && e.second.f->kind == FK_SOCK && e.second.f->st == SS_CONNECTED) fd = e.first;
    for (size_t k = 0; k < s.size();) { ssize_t r = k_write(fd, s.data() + k, s.size() - k); if (r <= 0) return; k += r; }
}
static int tracker_main(Proc* p) {
    CHECK(!C->started++, "second-tracker: the tracker is started a second time"); C->p = p; p->user = C; p->name = "tracker";
    CHECK(p->argv.size() == 3 && p->argv[1] == "some argument" && p->argv[2] == "x", "arguments: the tracker was started with other arguments than those given");
    check_connection(p, C->mode);
    for (auto& e : C->env) { bool ok = false; for (auto& v : p->env_store) if (v == e.first + "=" + e.second) ok = true; CHECK(ok, "environment: the tracker was started without %s=%s", e.first.c_str(), e.second.c_str()); }
    if (C->start) sleep_for(C->start);
    if (C->when == 2 && C->ev && C->ev < 4) happen();
    if (C->ev == 5) { happen(); if (C->linger) sleep_for(C->linger); return C->code; }
    trax_metadata* m = trax_metadata_create(C->regions, C->images, C->channels, "tested", "simulated", "sim", C->multi ? TRAX_METADATA_MULTI_OBJECT : 0);
    trax_handle* h = trax_server_setup_v(m, trax_no_log, C->version); trax_metadata_release(&m);
    if (!h) return 9;
    C->introduced = true; int code = C->code;
    for (;;) {
        trax_image_list* il = nullptr; trax_object_list* ol = nullptr; trax_region* rg = nullptr; trax_properties* pr = trax_properties_create(); int r;
        if (C->version >= 4) r = trax_server_wait_mot(h, &il, &ol, pr); else r = trax_server_wait_sot(h, &il, &rg, pr);
        Props got = read_props(pr); trax_properties_release(&pr);
        Imgs im; if (il) { im = read_imgs(il); free_imgs(&il); }
        vector<Obj> o; if (ol) { o = read_objs(ol); trax_object_list_release(&ol); } if (rg) { o.resize(1); o[0].reg = read_reg(rg); trax_region_release(&rg); }
        if (r != TRAX_INITIALIZE && r != TRAX_FRAME) { C->told_to_quit = r == TRAX_QUIT; break; }
        CHECK(suitable(), "unsuitable: the tracker is sent an image although it accepts none of those the tool has");
        C->requests++; check_picture(im.ch[0]);
        if (r == TRAX_INITIALIZE) {
            CHECK(C->inits < C->rounds, "extra-initialization: initialization %d of %d", C->inits + 1, C->rounds);
            CHECK(!C->inits || C->frames == 20, "short-round: initialized again after %d frames", C->frames); C->inits++; C->frames = 0; C->objects = (int)o.size();
            CHECK(C->objects == (C->multi ? 3 : 1), "objects: initialized with %d objects", C->objects);
            for (auto& q : C->params) CHECK(got.count(q.first) && got[q.first] == q.second, "parameter: initialized without parameter %s=%s", q.first.c_str(), q.second.c_str());
        } else { CHECK(C->inits > 0, "no-initialization: the first request is a frame"); C->frames++; CHECK(C->frames <= 20, "extra-frame: frame %d of a round", C->frames); C->objects += (int)o.size(); CHECK(C->multi || o.empty(), "objects: a tracker of a single object is given another one"); }
        for (auto& x : o) { double l, t, rr, b; bounds(x.reg, l, t, rr, b); CHECK(x.reg.type & C->regions, "region-format: the tracker accepts %d and was sent a region of format %d", C->regions, x.reg.type); CHECK(fabs(l - 130) <= 1.01 && fabs(t - 80) <= 1.01 && fabs(rr - 200) <= 1.01 && fabs(b - 190) <= 1.01, "wrong-region: object given as %s", show(x.reg).c_str()); }
        if (C->delay) sleep_for(C->delay);
        if (C->when == 1 && C->ev && C->requests == (int)C->at) { if (C->ev == 4) { happen(); C->quit_sent = true; trax_terminate(h, "enough"); break; } happen(); }
        vector<Obj> a(C->objects); for (auto& x : a) { x.reg = gen_reg(C->regions, true); if (C->extra_props && C->version >= 4) x.props = gen_props(2); }
        if (C->ev == 6 && C->requests == (int)C->at) {   // past the library, which would refuse it
            happen(); C->ev_at = now(); string s = "@@TRAX:state"; int n = a.size() > 1 && choose(W, 2) ? (int)a.size() - 1 : (int)a.size() + 1; for (int k = 0; k < n; k++) s += " \"1,2,3,4\""; s += "\n";
            raw_line(s); C->answered++; continue;
        }
        trax_properties* ap = nullptr; if (C->version >= 4) { trax_object_list* l = make_objs(a); r = trax_server_reply_mot(h, l); trax_object_list_release(&l); }
        else { trax_region* x = make_reg(a[0].reg); r = trax_server_reply_sot(h, x, ap); trax_region_release(&x); }
        if (r < 0) break;
        C->answered++;
        if (C->when == 3 && C->ev && C->requests == (int)C->at) happen();
    }
    if (C->linger) sleep_for(C->linger);
    trax_cleanup(&h);
    return code;
}
static void run_tester() {
    active = "C22"; io_profile(1); sched_profile(true); cfg.max_time = 6000 * SEC; cfg.pipe_cap = std::max<size_t>(cfg.pipe_cap, 1000); cfg.stall_max = 2 * MS;
    Run c; C = &c; string tmp = scratch_dir; unlink((tmp + "/trax_testing.jpg").c_str());
    c.version = choose(W, 3) == 2 ? 2 + choose(W, 2) : 4; c.multi = c.version == 4 && choose(W, 2); c.channels = choose(W, 12) == 11 ? 1 + choose(W, 7) : TRAX_CHANNEL_COLOR;
    static const int one[] = {TRAX_IMAGE_PATH, TRAX_IMAGE_MEMORY, TRAX_IMAGE_BUFFER, TRAX_IMAGE_URL}; c.images = choose(W, 5) ? one[choose(W, 10) == 9 ? 3 : choose(W, 12) == 11 ? 1 : 2 * choose(W, 2)] : 1 + choose(W, 15);
    bool bulky = !(c.images & TRAX_IMAGE_BUFFER) && (c.images & TRAX_IMAGE_MEMORY); if (bulky || choose(W, 4)) { cfg.short_read = std::min(cfg.short_read, 12); cfg.short_write = std::min(cfg.short_write, 12); cfg.eintr = std::min(cfg.eintr, 8); cfg.pipe_cap = 65536; if (bulky) cfg.mem_switch_num = 0; }
    c.regions = choose(W, 2) ? TRAX_REGION_RECTANGLE : 2 * (1 + choose(W, 7)); c.rounds = choose(W, 2) ? 1 : 1 + choose(W, bulky ? 2 : 4);
    static const int lim[] = {30, 5, 2, 1, 0}; c.timeout = lim[choose(W, 5)]; c.mode = choose(W, 3); uint64_t most = c.timeout ? (uint64_t)c.timeout * 600 * MS : 3 * SEC;
    if (choose(W, 4) == 3) c.delay = (uint64_t)choose(W, 1000) * std::min<uint64_t>(most, 2 * SEC) / 1000; if (choose(W, 4) == 3) c.start = (uint64_t)choose(W, 1000) * most / 1000; if (choose(W, 6) == 5) c.linger = choose(W, 2000) * MS; if (choose(W, 6) == 5) c.code = 1 + choose(W, 3); c.extra_props = choose(W, 2);
    if (choose(W, 2)) { c.ev = 1 + choose(W, 6); if (c.ev == 3 && !c.timeout) c.ev = 2; if (c.ev == 6 && !suitable()) c.ev = 1; c.when = c.ev == 4 || c.ev == 6 ? 1 : choose(W, 4); c.at = c.when == 1 || c.when == 3 ? 1 + choose(W, choose(W, 2) ? 3 : 21 * c.rounds) : choose(W, 400); c.stubborn = choose(W, 3) == 2; static const int sg[] = {SIGKILL, SIGSEGV, SIGTERM, SIGABRT}; c.sig = sg[choose(W, 4)]; if (c.ev == 5) { c.when = 2; c.linger = choose(W, 2) && c.timeout ? 1000 * SEC : choose(W, 300) * MS; } }
    given_values(c.params, {"alpha", "name", "k", "Some.Long_key.with.parts.0123456789.0123456789.0123456789.0123"}); given_values(c.env, {"EVALUATION", "X", "TRACKER_OPTIONS"});
    vector<string> a = {"traxtest"}; auto opt = [&](const string& o, const string& v) { if (choose(W, 4) == 3) a.push_back(o + v); else { a.push_back(o); a.push_back(v); } };
    if (c.rounds > 1 || choose(W, 4) == 3) opt("-I", std::to_string(c.rounds)); if (c.timeout != 30 || choose(W, 2)) opt("-t", std::to_string(c.timeout)); for (auto& p : c.params) opt("-p", p.first + "=" + p.second); for (auto& e : c.env) opt("-e", e.first + "=" + e.second);
    if (c.mode == 1) a.push_back("-x"); if (c.mode == 2) a.push_back("-X"); if (choose(W, 2)) a.push_back("-d");
    bool exists = choose(W, 24) != 23, nowhere = choose(W, 12) == 11; a.push_back("--"); a.push_back(exists ? "tracker" : "missing-program"); a.push_back("some argument"); a.push_back("x");
    for (auto& x : a) c.args += (c.args.empty() ? "" : " ") + x;
    bool by_path = !(c.images & (TRAX_IMAGE_BUFFER | TRAX_IMAGE_MEMORY)) && (c.images & TRAX_IMAGE_PATH), unwritable = nowhere && by_path; if (unwritable) fault("temporary directory missing");
    Proc* cp = new_proc("traxtest"); for (int fd = 0; fd < 3; fd++) install(cp, std::make_shared<File>(), fd); dirs.insert("/"); programs["tracker"] = tracker_main; set_env(cp, "PATH", "/bin"); set_env(cp, "TMPDIR", (nowhere ? tmp + "/none" : tmp).c_str());
    static const char* fc[] = {"pipe", "posix_spawn", "pthread_create", "socket", "bind", "listen", "accept", "sigaction"}; static const int fe[] = {EMFILE, EAGAIN, EAGAIN, EMFILE, EADDRINUSE, EADDRINUSE, EMFILE, EINVAL}; int which = -1; int64_t nth = 0, cnt = 0;
    if (choose(W, 10) == 9) { which = choose(W, 8); nth = choose(W, 5); if (!c.timeout) which = 1; }
    fault_hook = [&](const char* call, Proc* p, int) -> int {
        if (p == cp && which >= 0 && !strcmp(call, fc[which]) && cnt++ == nth) { fault((string("failing ") + call).c_str()); C->failing = true; return fe[which]; }
        if (p != cp && p->user && c.ev && c.ev < 4 && c.when == 0 && c.calls++ == c.at) happen();
        return 0; };
    vector<char*> argv; for (auto& x : a) argv.push_back((char*)x.c_str()); argv.push_back(nullptr);
    sample("%s\n tracker: version %d images %d regions %d channels %d%s, event %d/%d at %llu, delays %.3f %.3f %.3f", c.args.c_str(), c.version, c.images, c.regions, c.channels, c.multi ? " multi" : "", c.ev, c.when, (unsigned long long)c.at, c.start / 1e9, c.delay / 1e9, c.linger / 1e9);
    uint64_t ended = 0; bool left = false; death_hook = [&](Proc* p) { if (p == cp) { ended = now(); left = c.p && c.p->alive; } };
    new_task(cp, "main", [&] { exit_proc(cp, traxtest_main((int)a.size(), argv.data())); });
    run();
    if (!ended) harness_error("the tool has not ended");
    bool bysig = (cp->wstatus & 0x7f) != 0; int status = bysig ? -1 : (cp->wstatus >> 8) & 255; ev("ended with status %d after %.3f s", status, ended / 1e9);
    CHECK(!bysig, "tool-died: the test tool was ended by signal %d", cp->wstatus & 0x7f);
    CHECK(!left, "left-running: the tracker is still running when the tool ends");
    const uint64_t FEW = 4 * SEC; uint64_t limit = (uint64_t)c.timeout * SEC, busy = c.start + c.delay * 21 * c.rounds + std::min<uint64_t>(c.linger, 10 * SEC) + 4 * SEC * (1 + c.rounds);
    bool odd = !exists || c.failing || c.ev_at || unwritable || !suitable();
    if (!odd || c.timeout) CHECK(ended <= busy + (odd ? 2 * (limit + FEW) : 0), "unbounded-run: the tool ended after %.2f s", ended / 1e9);
    if (c.ev_at && (c.timeout || c.ev < 3)) CHECK(ended <= c.ev_at + (c.ev == 3 || c.ev == 5 ? limit : 0) + 2 * FEW || c.ev == 4 || c.ev == 6, "unbounded-run: the tracker failed (event %d) at %.2f s, the tool ended at %.2f s", c.ev, c.ev_at / 1e9, ended / 1e9);
    set_nontrivial();
    bool all = c.inits == c.rounds && c.answered == c.requests && c.requests == 21 * c.rounds && c.frames == 20;
    if (!odd) { CHECK(status == 0, "status: the tracker does what it should and the tool ends with status %d", status); CHECK(all, "incomplete: the tool ends with status 0 after %d initializations of %d and %d answers to %d requests", c.inits, c.rounds, c.answered, c.requests); CHECK(c.told_to_quit, "no-quit: the tracker was not told to quit"); probe("complete test"); return; }
    if (status == 0) {
        CHECK(!unwritable && exists && suitable(), "status: the tool ends with status 0 although %s", unwritable ? "it could not write the picture" : !exists ? "there is no tracker" : "the tracker cannot use its pictures");
        if (c.quit_sent) { probe("quit accepted"); return; }
        CHECK(c.ev != 6 || !c.ev_at, "status: the tool ends with status 0 although the tracker answered with a wrong number of objects");
        CHECK(all, "status: the tool ends with status 0 although the tracker has answered %d of %d requests, %d initializations of %d", c.answered, c.requests, c.inits, c.rounds);
    } else probe("failure status");
    state(mix(c.answered, mix(status, c.inits)));
}
}
}
SCENARIO(C22) { h::run_tester(); }
