// Engine J: the interactive player (player.cpp) with a scripted user and video; windows and video files are stand-ins, drawing is real.
#include "session.h"
#include <signal.h>
#include <opencv2/core/core.hpp>
#include <opencv2/highgui/highgui.hpp>
int traxplayer_main(int argc, char** argv);
extern "C" void* sim_new(size_t);
namespace h {
namespace {
struct Act { int kind = 0; int x = 0, y = 0, key = -1; };               // 0 nothing, 1 button down, 2 move, 3 button up, 4 key
struct Play {
    int version = 4, images = 0, regions = 0, channels = TRAX_CHANNEL_COLOR, timeout = 30, mode = 0; bool multi = false; Props params; std::map<string, string> env;
    int n = 0, w = 0, hh = 0, claimed = 0, pos = 0; string video; bool opened = false; vector<Act> acts; size_t act = 0; bool given = false; Reg box;
    int ev = 0, when = 0; uint64_t at = 0; int sig = SIGKILL, code = 0; bool stubborn = false;   // as in engine F
    uint64_t start = 0, delay = 0, linger = 0, calls = 0, ev_at = 0, user = 0, slow = 0, think = 0;
    Proc* p = nullptr; int started = 0, inits = 0, served = 0, answered = 0; bool quit_sent = false, told_to_quit = false, failing = false;
    cv::MouseCallback mouse = nullptr; void* mdata = nullptr; string window; bool asking = false, asked = false, confirmed = false; int shown = 0, after = 0, painted = 0; cv::Mat last; bool pending = false, down = false; int dx = 0, dy = 0, cx = 0, cy = 0; Reg drawn; vector<Reg> answers; string args;
} *C;
static cv::Mat video_frame(int f) { cv::Mat m(C->hh, C->w, CV_8UC3); Rng g(f * 7 + C->w); for (int y = 0; y < m.rows; y++) for (int x = 0; x < 3 * m.cols; x++) m.ptr(y)[x] = (uchar)(g.next() % 80); return m; }
static string jpeg(const cv::Mat& m) { string s = string("\xFF\xD8\xFF\xE0") + "picture " + std::to_string(m.cols) + "x" + std::to_string(m.rows) + ":"; for (int y = 0; y < m.rows; y++) s.append((const char*)m.ptr(y), m.cols * m.elemSize()); return s; }
static bool suitable() { return (C->images & (TRAX_IMAGE_BUFFER | TRAX_IMAGE_MEMORY)) && C->channels == TRAX_CHANNEL_COLOR; }
static bool eq(const cv::Mat& a, const cv::Mat& b) { if (a.size() != b.size() || a.type() != b.type()) return false; for (int y = 0; y < a.rows; y++) if (memcmp(a.ptr(y), b.ptr(y), a.cols * a.elemSize())) return false; return true; }
// the window shows the frame, changed at most near the outline of the region, and there in its color
static void check_shown(const cv::Mat& m, int f, const Reg* r, int width, cv::Scalar color) {
    cv::Mat o = video_frame(f); CHECK(m.size() == o.size() && m.type() == o.type(), "window: the window shows a picture of another size than frame %d", f);
    double l = 0, t = 0, rr = -10, b = -10; if (r) bounds(*r, l, t, rr, b); int other = 0, drawn = 0, fx = 0, fy = 0; double w = width + 2;
    for (int y = 0; y < m.rows; y++) for (int x = 0; x < m.cols; x++) {
        const uchar *p = m.ptr(y) + 3 * x, *q = o.ptr(y) + 3 * x; if (!memcmp(p, q, 3)) continue;
        bool in = r && r->type != TRAX_REGION_SPECIAL && x >= l - w && x <= rr + w && y >= t - w && y <= b + w; if (r && r->type == TRAX_REGION_RECTANGLE && x > l + w && x < rr - w && y > t + w && y < b - w) in = false;
        if (!in) { if (!other) fx = x, fy = y; other++; } else if (p[0] == color[0] && p[1] == color[1] && p[2] == color[2]) drawn++; else other++;
    }
    CHECK(!other, "window: %d pixels of frame %d shown in the window (%d,%d with %d,%d,%d) are not those of the video, region %s", other, f, fx, fy, m.ptr(fy)[3 * fx], m.ptr(fy)[3 * fx + 1], m.ptr(fy)[3 * fx + 2], r ? show(*r).c_str() : "");
    if (r && r->type != TRAX_REGION_SPECIAL && l >= 0 && t >= 0 && rr < m.cols && b < m.rows && rr - l >= 3 && b - t >= 3 && r->type == TRAX_REGION_RECTANGLE) CHECK(drawn > 0, "window: frame %d is shown without its region", f);
}
// while the user is asked: the frame with the marks of the user in green
static void check_asking(const cv::Mat& m) {
    CHECK(m.size() == cv::Size(C->w, C->hh) && m.type() == CV_8UC3, "window: the user is asked with a picture of another size"); cv::Mat o = video_frame(0);
    auto green = [&](int x, int y) { const uchar* p = m.ptr(y) + 3 * x; return p[0] == 0 && p[1] == 255 && p[2] == 0; }; int other = 0;
    for (int y = 0; y < m.rows; y++) for (int x = 0; x < m.cols; x++) if (memcmp(m.ptr(y) + 3 * x, o.ptr(y) + 3 * x, 3) && !green(x, y)) other++;
    CHECK(!other, "window: %d pixels of the picture the user is asked with are neither those of the video nor marks", other);
    auto near = [&](int x, int y) { for (int v = std::max(y - 1, 0); v <= std::min(y + 1, C->hh - 1); v++) for (int u = std::max(x - 1, 0); u <= std::min(x + 1, C->w - 1); u++) if (green(u, v)) return true; return false; };
    if (C->down) CHECK(near(C->dx, C->dy) && near(C->cx, C->cy), "window: the rectangle dragged from %d,%d to %d,%d is not shown", C->dx, C->dy, C->cx, C->cy);
    if (C->drawn.type) { const float* r = C->drawn.r; CHECK(near(r[0], r[1]) && near(r[0] + r[2] - 1, r[1] + r[3] - 1), "window: the region %s the user has dragged is not shown", show(C->drawn).c_str()); }
    int marks = 0; if (!C->down && !C->drawn.type) { int low = 0; for (int y = 16; y < m.rows; y++) for (int x = 0; x < m.cols; x++) low += green(x, y); CHECK(!low, "window: a region is shown that the user has not dragged"); } (void)marks;
}
static void on_show(const string& name, const cv::Mat& m) {
    CHECK(name == C->window, "window: a picture is shown in a window that does not exist"); m.copyTo(C->last); C->pending = true;
}
// a picture becomes visible when the player waits for the user
static void on_paint(const cv::Mat& m) {
    C->shown++; if (C->asking) { check_asking(m); C->painted++; return; }
    if (!C->inits) { CHECK(C->confirmed && C->given, "window: a picture is shown before the user has answered"); }
    int k = C->after++; if (k == 0) { check_shown(m, 0, &C->box, 3, cv::Scalar(100, 255, 100)); return; }
    CHECK(k <= (int)C->answers.size(), "window: picture %d is shown after %zu answers", k, C->answers.size());
    if (k > 1) check_shown(m, k - 1, &C->answers[k - 1], 1, cv::Scalar(100, 100, 255));
}
static int on_wait(int ms) {
    CHECK(ms > 0, "window: the player waits for the user without a limit"); bool fresh = C->pending; C->pending = false; if (fresh) { cv::Mat m; C->last.copyTo(m); on_paint(m); } else CHECK(!C->asking, "window: the player waits for the user without painting"); sleep_for((uint64_t)ms * MS);
    if (!C->asking) return -1;
    if (C->think) { uint64_t d = C->think; C->think = 0; sleep_for(d); }
    if (C->act >= C->acts.size()) return ' ';
    Act a = C->acts[C->act++];
    if (a.kind == 1) { C->down = true; C->dx = C->cx = a.x; C->dy = C->cy = a.y; }
    if (C->down && (a.kind == 2 || a.kind == 3)) { C->cx = a.x; C->cy = a.y; }
    if (a.kind == 3) { C->down = false; if (a.x != C->dx && a.y != C->dy) { C->drawn = Reg(); C->drawn.type = TRAX_REGION_RECTANGLE; C->drawn.r[0] = std::min(a.x, C->dx); C->drawn.r[1] = std::min(a.y, C->dy); C->drawn.r[2] = abs(a.x - C->dx); C->drawn.r[3] = abs(a.y - C->dy); } }
    if (a.kind == 4 && a.key == 'q') C->drawn = Reg();
    switch (a.kind) { case 1: C->mouse(cv::EVENT_LBUTTONDOWN, a.x, a.y, 1, C->mdata); break; case 2: C->mouse(cv::EVENT_MOUSEMOVE, a.x, a.y, 1, C->mdata); break; case 3: C->mouse(cv::EVENT_LBUTTONUP, a.x, a.y, 0, C->mdata); break; case 4: if (a.key == ' ') C->confirmed = true; return a.key; }
    return -1;
}
static void happen() {
    static const char* nm[] = {"", "tracker exits", "tracker killed", "tracker hangs", "tracker quits", "improper introduction", "wrong answer"};
    C->ev_at = now(); ev("%s", nm[C->ev]); fault(nm[C->ev]);
    if (C->ev == 1) exit_proc(C->p, C->code);
    if (C->ev == 2) kill_proc(C->p, C->sig);
    if (C->ev == 3) { if (C->stubborn) C->p->sig[SIGTERM].kind = 1; for (;;) { std::function<bool()> never = [] { return false; }; block("hang", never); } }
}
static int tracker_main(Proc* p) {
    CHECK(!C->started++, "second-tracker: the tracker is started a second time"); C->p = p; p->user = C; p->name = "tracker";
    CHECK(p->argv.size() == 3 && p->argv[1] == "some argument" && p->argv[2] == "x", "arguments: the tracker was started with other arguments than those given");
    check_connection(p, C->mode);
    for (auto& e : C->env) { bool ok = false; for (auto& v : p->env_store) if (v == e.first + "=" + e.second) ok = true; CHECK(ok, "environment: the tracker was started without %s=%s", e.first.c_str(), e.second.c_str()); }
    if (C->start) sleep_for(C->start);
    if (C->when == 2 && C->ev && C->ev < 4) happen();
    if (C->ev == 5) { happen(); if (C->linger) sleep_for(C->linger); return C->code; }
    trax_metadata* m = trax_metadata_create(C->regions, C->images, C->channels, "played", "simulated", "sim", C->multi ? TRAX_METADATA_MULTI_OBJECT : 0);
    trax_handle* h = trax_server_setup_v(m, trax_no_log, C->version); trax_metadata_release(&m);
    if (!h) return 9;
    int code = C->code;
    for (;;) {
        trax_image_list* il = nullptr; trax_object_list* ol = nullptr; trax_region* rg = nullptr; trax_properties* pr = trax_properties_create(); int r;
        if (C->version >= 4) r = trax_server_wait_mot(h, &il, &ol, pr); else r = trax_server_wait_sot(h, &il, &rg, pr);
        Props got = read_props(pr); trax_properties_release(&pr);
        Imgs im; if (il) { im = read_imgs(il); free_imgs(&il); }
        vector<Obj> o; if (ol) { o = read_objs(ol); trax_object_list_release(&ol); } if (rg) { o.resize(1); o[0].reg = read_reg(rg); trax_region_release(&rg); }
        if (r != TRAX_INITIALIZE && r != TRAX_FRAME) { C->told_to_quit = r == TRAX_QUIT; break; }
        CHECK(suitable() && C->given && C->confirmed, "unsuitable: the tracker is sent a frame although %s", suitable() ? "the user has given no region" : "it accepts none of those the player has");
        int f = C->served++; CHECK(f < C->n, "extra-frame: the tracker is sent frame %d of %d", f, C->n);
        cv::Mat v = video_frame(f); const Img& i = im.ch[0];
        if (C->images & TRAX_IMAGE_BUFFER) CHECK(i.type == TRAX_IMAGE_BUFFER && i.data == jpeg(v), "wrong-image: frame %d is sent as %s", f, show(i).c_str());
        else { CHECK(i.type == TRAX_IMAGE_MEMORY && i.w == C->w && i.h == C->hh && i.fmt == TRAX_IMAGE_MEMORY_RGB && i.data.size() == (size_t)3 * C->w * C->hh, "wrong-image: frame %d is sent as %s", f, show(i).c_str());
            for (int y = 0; y < v.rows; y++) for (int x = 0; x < v.cols; x++) for (int k = 0; k < 3; k++) CHECK((uchar)i.data[3 * ((size_t)y * C->w + x) + 2 - k] == v.ptr(y)[3 * x + k], "wrong-image: frame %d is sent with other pixels than it has", f); }
        if (r == TRAX_INITIALIZE) {
            CHECK(!C->inits++ && f == 0, "extra-initialization: the tracker is initialized at frame %d", f); CHECK(o.size() == 1, "objects: initialized with %zu objects", o.size());
            double l, t, rr, b, l2, t2, r2, b2; bounds(o[0].reg, l, t, rr, b); bounds(C->box, l2, t2, r2, b2);
            CHECK(o[0].reg.type & C->regions && fabs(l - l2) <= 1.01 && fabs(t - t2) <= 1.01 && fabs(rr - r2) <= 1.01 && fabs(b - b2) <= 1.01, "wrong-region: initialized with %s instead of %s", show(o[0].reg).c_str(), show(C->box).c_str());
            for (auto& q : C->params) CHECK(got.count(q.first) && got[q.first] == q.second, "parameter: initialized without parameter %s=%s", q.first.c_str(), q.second.c_str());
            size_t own = 0; for (auto& q : got) if (!C->params.count(q.first)) own++; CHECK(!own, "parameter: initialized with %zu parameters nobody has given", own);
        } else { CHECK(C->inits == 1 && f > 0, "no-initialization: the first request is a frame"); CHECK(o.empty(), "objects: a frame comes with another object"); CHECK(got.empty(), "parameter: a frame comes with properties"); }
        if (C->delay) sleep_for(C->delay);
        if (C->when == 1 && C->ev && C->served == (int)C->at) { if (C->ev == 4) { happen(); C->quit_sent = true; trax_terminate(h, "enough"); break; } happen(); }
        Obj a; a.reg = choose(W, 3) ? Reg() : gen_reg(C->regions, true); if (!a.reg.type) { a.reg.type = TRAX_REGION_RECTANGLE; float q[4] = {(float)choose(W, C->w), (float)choose(W, C->hh), (float)(1 + choose(W, C->w)), (float)(1 + choose(W, C->hh))}; memcpy(a.reg.r, q, sizeof q); }
        C->answers.push_back(a.reg); int rc;
        if (C->version >= 4) { vector<Obj> l1(1); l1[0] = a; if (choose(W, 3) == 2) l1[0].props = gen_props(2); trax_object_list* l = make_objs(l1); rc = trax_server_reply_mot(h, l); trax_object_list_release(&l); }
        else { trax_region* x = make_reg(a.reg); rc = trax_server_reply_sot(h, x, nullptr); trax_region_release(&x); }
        if (rc < 0) break;
        C->answered++;
        if (C->when == 3 && C->ev && C->served == (int)C->at) happen();
    }
    if (C->linger) sleep_for(C->linger);
    trax_cleanup(&h);
    return code;
}
static void drag(int x0, int y0, int x1, int y1) {
    auto add = [](int k, int x, int y) { Act a; a.kind = k; a.x = x; a.y = y; C->acts.push_back(a); };
    add(1, x0, y0); for (int k = choose(W, 3); k > 0; k--) add(2, choose(W, C->w), choose(W, C->hh)); add(2, x1, y1); add(3, x1, y1);
    if (x0 == x1 || y0 == y1) return;                        // a click
    C->given = true; C->box = Reg(); C->box.type = TRAX_REGION_RECTANGLE; C->box.r[0] = std::min(x0, x1); C->box.r[1] = std::min(y0, y1); C->box.r[2] = abs(x1 - x0); C->box.r[3] = abs(y1 - y0);
}
static void run_player() {
    active = "C29"; io_profile(1); sched_profile(true); cfg.max_time = 6000 * SEC; cfg.pipe_cap = std::max<size_t>(cfg.pipe_cap, 1000); cfg.stall_max = 2 * MS;
    Play c; C = &c; cv::setNumThreads(0);
    c.version = choose(W, 3) == 2 ? 2 + choose(W, 2) : 4; c.multi = c.version == 4 && choose(W, 2); c.channels = choose(W, 12) == 11 ? 1 + choose(W, 7) : TRAX_CHANNEL_COLOR;
    static const int one[] = {TRAX_IMAGE_BUFFER, TRAX_IMAGE_MEMORY, TRAX_IMAGE_PATH, TRAX_IMAGE_URL}; c.images = choose(W, 3) ? one[choose(W, 12) == 11 ? 2 + choose(W, 2) : choose(W, 2)] : 1 + choose(W, 15);
    c.regions = choose(W, 2) ? TRAX_REGION_RECTANGLE : 2 * (1 + choose(W, 7)); c.n = choose(W, 12) == 11 ? 0 : 1 + choose(W, 8); c.w = 6 + choose(W, 30); c.hh = 6 + choose(W, 20); c.claimed = c.n + (choose(W, 5) == 4 ? 1 + choose(W, 3) : 0);
    cfg.short_read = std::min(cfg.short_read, 12); cfg.short_write = std::min(cfg.short_write, 12); cfg.eintr = std::min(cfg.eintr, 8); cfg.pipe_cap = std::max<size_t>(cfg.pipe_cap, 4096);
    static const int lim[] = {30, 5, 2, 1, 0}; c.timeout = lim[choose(W, 5)]; c.mode = choose(W, 3); uint64_t most = c.timeout ? (uint64_t)c.timeout * 600 * MS : 3 * SEC;
    if (choose(W, 4) == 3) c.delay = (uint64_t)choose(W, 1000) * std::min<uint64_t>(most, 2 * SEC) / 1000; if (choose(W, 4) == 3) c.start = (uint64_t)choose(W, 1000) * most / 1000; if (choose(W, 6) == 5) c.linger = choose(W, 2000) * MS; if (choose(W, 6) == 5) c.code = 1 + choose(W, 3); if (choose(W, 3) == 2) c.think = (uint64_t)choose(W, 90000) * MS;
    if (choose(W, 2)) { c.ev = 1 + choose(W, 5); if (c.ev == 3 && !c.timeout) c.ev = 2; c.when = c.ev == 4 ? 1 : choose(W, 4); c.at = c.when == 1 || c.when == 3 ? 1 + choose(W, choose(W, 2) ? 3 : 9) : choose(W, 400); c.stubborn = choose(W, 3) == 2; static const int sg[] = {SIGKILL, SIGSEGV, SIGTERM, SIGABRT}; c.sig = sg[choose(W, 4)]; if (c.ev == 5) c.linger = choose(W, 2) && c.timeout ? 1000 * SEC : choose(W, 300) * MS; }
    // the user
    for (int k = choose(W, 3); k > 0; k--) { Act a; a.kind = choose(W, 3) == 2 ? 4 : 2 * choose(W, 2); a.key = "x\x1b" "7q"[choose(W, 4)]; a.x = choose(W, c.w); c.acts.push_back(a); }
    int drags = choose(W, 8) == 7 ? 0 : 1 + (choose(W, 4) == 3);
    for (int d = 0; d < drags; d++) { int x0 = choose(W, c.w - 1), y0 = choose(W, c.hh - 1), x1 = x0 + 1 + choose(W, c.w - x0 - 1), y1 = y0 + 1 + choose(W, c.hh - y0 - 1); if (choose(W, 3) == 2) std::swap(x0, x1); if (choose(W, 3) == 2) std::swap(y0, y1); if (choose(W, 6) == 5) drag(x0, y0, choose(W, 2) ? x0 : x1, y0); drag(x0, y0, x1, y1); if (choose(W, 8) == 7) drag(x1, y0, x1, y0); for (int k = choose(W, 2); k > 0; k--) c.acts.push_back(Act()); }
    if (choose(W, 6) == 5) { Act a; a.kind = 4; a.key = 'q'; c.acts.push_back(a); c.given = false; if (choose(W, 2)) drag(0, 0, 4, 5); }
    { Act a; a.kind = 4; a.key = ' '; c.acts.push_back(a); }
    given_values(c.params, {"alpha", "name", "k", "Some.Long_key.with.parts.0123456789.0123456789.0123456789.0123"}); given_values(c.env, {"PLAYING", "X", "TRACKER_OPTIONS"});
    vector<string> a = {"traxplayer"}; auto opt = [&](const string& o, const string& v) { if (choose(W, 4) == 3) a.push_back(o + v); else { a.push_back(o); a.push_back(v); } };
    c.video = choose(W, 3) ? "/videos/some film.avi" : "input.avi"; if (c.video[0] == '/' || choose(W, 2)) opt("-V", c.video); if (c.timeout != 30 || choose(W, 2)) opt("-t", std::to_string(c.timeout)); for (auto& p : c.params) opt("-p", p.first + "=" + p.second); for (auto& e : c.env) opt("-e", e.first + "=" + e.second);
    if (c.mode == 1) a.push_back("-x"); if (c.mode == 2) a.push_back("-X"); if (choose(W, 3) == 2) a.push_back("-d"); if (choose(W, 4) == 3) a.push_back("-g");
    bool exists = choose(W, 24) != 23; a.push_back("--"); a.push_back(exists ? "tracker" : "missing-program"); a.push_back("some argument"); a.push_back("x");
    for (auto& x : a) c.args += (c.args.empty() ? "" : " ") + x;
    Proc* cp = new_proc("traxplayer"); for (int fd = 0; fd < 3; fd++) install(cp, std::make_shared<File>(), fd); dirs.insert("/"); programs["tracker"] = tracker_main; set_env(cp, "PATH", "/bin");
    static const char* fc[] = {"pipe", "posix_spawn", "pthread_create", "socket", "bind", "listen", "accept", "sigaction"}; static const int fe[] = {EMFILE, EAGAIN, EAGAIN, EMFILE, EADDRINUSE, EADDRINUSE, EMFILE, EINVAL}; int which = -1; int64_t nth = 0, cnt = 0;
    if (choose(W, 10) == 9) { which = choose(W, 8); nth = choose(W, 5); if (!c.timeout) which = 1; }
    fault_hook = [&](const char* call, Proc* p, int) -> int {
        if (p == cp && which >= 0 && !strcmp(call, fc[which]) && cnt++ == nth) { fault((string("failing ") + call).c_str()); C->failing = true; return fe[which]; }
        if (p != cp && p->user && c.ev && c.ev < 4 && c.when == 0 && c.calls++ == c.at) happen();
        return 0; };
    vector<char*> argv; for (auto& x : a) argv.push_back((char*)x.c_str()); argv.push_back(nullptr);
    sample("%s\n video: %d frames of %dx%d, tracker: version %d images %d regions %d channels %d%s, event %d/%d at %llu, delays %.3f %.3f %.3f %.3f, %zu actions of the user", c.args.c_str(), c.n, c.w, c.hh, c.version, c.images, c.regions, c.channels, c.multi ? " multi" : "", c.ev, c.when, (unsigned long long)c.at, c.start / 1e9, c.delay / 1e9, c.linger / 1e9, c.think / 1e9, c.acts.size());
    uint64_t ended = 0, think = c.think; bool left = false; death_hook = [&](Proc* p) { if (p == cp) { ended = now(); left = c.p && c.p->alive; } };
    new_task(cp, "main", [&] { exit_proc(cp, traxplayer_main((int)a.size(), argv.data())); });
    run();
    if (!ended) harness_error("the player has not ended");
    bool bysig = (cp->wstatus & 0x7f) != 0; int status = bysig ? -1 : (cp->wstatus >> 8) & 255; ev("ended with status %d after %.3f s", status, ended / 1e9);
    CHECK(!bysig, "player-died: the player was ended by signal %d", cp->wstatus & 0x7f);
    CHECK(!left, "left-running: the tracker is still running when the player ends");
    const uint64_t FEW = 4 * SEC; uint64_t limit = (uint64_t)c.timeout * SEC, busy = c.start + think + c.delay * (c.n + 1) + std::min<uint64_t>(c.linger, 10 * SEC) + 4 * SEC * 2 + (c.n + c.acts.size()) * 100 * MS;
    bool wants = c.given && c.n > 0, odd = !exists || c.failing || c.ev_at || (wants && !suitable());
    if (!odd || c.timeout) CHECK(ended <= busy + (odd ? 2 * (limit + FEW) : 0), "unbounded-run: the player ended after %.2f s", ended / 1e9);
    if (c.ev_at && (c.timeout || c.ev < 3)) CHECK(ended <= std::max(c.ev_at, think + c.start + 100 * MS * c.acts.size()) + (c.ev == 3 || c.ev == 5 ? limit : 0) + 2 * FEW || c.ev == 4, "unbounded-run: the tracker failed (event %d) at %.2f s, the player ended at %.2f s", c.ev, c.ev_at / 1e9, ended / 1e9);
    set_nontrivial();
    bool all = c.inits == 1 && c.served == c.n && c.answered == c.n;
    if (!odd) {
        CHECK(status == 0, "status: nothing has failed and the player ends with status %d", status);
        if (wants) { CHECK(all, "incomplete: the player ends with status 0 after %d initializations, %d of %d frames and %d answers", c.inits, c.served, c.n, c.answered); probe("played to the end");
            CHECK(c.shown > c.n, "window: %d frames were tracked, only %d pictures shown", c.n, c.shown); if (c.n > 1) check_shown(c.last, c.n - 1, &c.answers.back(), 1, cv::Scalar(100, 100, 255)); }
        else { CHECK(!c.inits, "unwanted: the tracker is initialized although the user has given no region"); probe("no region given"); }
        CHECK(c.told_to_quit || !c.started, "no-quit: the tracker was not told to quit"); return;
    }
    if (status == 0) {
        if (c.quit_sent || !wants) { probe("quit accepted"); return; }
        CHECK(exists && suitable(), "status: the player ends with status 0 although %s", !exists ? "there is no tracker" : "the tracker cannot use its pictures");
        CHECK(all, "status: the player ends with status 0 although the tracker has answered %d of %d frames", c.answered, c.n);
    } else probe("failure status");
    state(mix(c.answered, mix(status, c.inits)));
}
}
}
namespace cv {
VideoCapture::VideoCapture(const String& f, int) : throwOnFail(false) { CHECK(f == h::C->video, "video: %s is opened instead of %s", h::show(f).c_str(), h::C->video.c_str()); h::C->opened = true; }
VideoCapture::~VideoCapture() {}
bool VideoCapture::open(const String&, int) { return false; }
bool VideoCapture::open(const String&, int, const std::vector<int>&) { return false; }
bool VideoCapture::open(int, int) { return false; }
bool VideoCapture::open(int, int, const std::vector<int>&) { return false; }
bool VideoCapture::isOpened() const { return h::C->opened; }
void VideoCapture::release() { h::C->opened = false; }
bool VideoCapture::grab() { if (h::C->pos >= h::C->n) return false; h::C->pos++; return true; }
bool VideoCapture::retrieve(OutputArray o, int) { if (!h::C->pos) return false; h::video_frame(h::C->pos - 1).copyTo(o); return true; }
VideoCapture& VideoCapture::operator>>(Mat& m) { read(m); return *this; }
VideoCapture& VideoCapture::operator>>(UMat&) { return *this; }
bool VideoCapture::read(OutputArray o) { if (grab()) retrieve(o, 0); else o.release(); return !o.empty(); }
bool VideoCapture::set(int, double) { return false; }
double VideoCapture::get(int k) const { return k == CAP_PROP_POS_FRAMES ? h::C->pos : k == CAP_PROP_FRAME_COUNT ? h::C->claimed : k == CAP_PROP_FRAME_WIDTH ? h::C->w : k == CAP_PROP_FRAME_HEIGHT ? h::C->hh : 0; }
void namedWindow(const String& n, int) { h::C->window = n; }
void imshow(const String& n, InputArray m) { h::on_show(n, m.getMat()); }
int waitKey(int ms) { return h::on_wait(ms); }
void setMouseCallback(const String& n, MouseCallback f, void* d) { CHECK(n == h::C->window, "window: the user is asked in a window that does not exist"); h::C->mouse = f; h::C->mdata = d; if (f) { CHECK(!h::C->asked, "window: the user is asked for a region a second time"); h::C->asked = true; } h::C->asking = f != nullptr; }
bool imencode(const String& ext, InputArray m, std::vector<uchar>& out, const std::vector<int>&) {
    std::string s = h::jpeg(m.getMat()); if (ext != ".jpg" && ext != ".png") sim::harness_error("encoding as %s", ext.c_str());
    uchar** r = (uchar**)&out; if (r[0]) sim::harness_error("imencode into a used vector"); r[0] = (uchar*)sim_new(s.size()); memcpy(r[0], s.data(), s.size()); r[1] = r[2] = r[0] + s.size(); return true;   // storage of the code under test
}
}
SCENARIO(C29) { h::run_player(); }
