// Engine E: the command line client (cli.cpp) evaluating generated sequences with simulated trackers; files are real ones in a scratch directory.
#include "session.h"
#include <set>
#include <signal.h>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
int traxclient_main(int argc, char** argv);
namespace sim { extern std::string scratch_dir; }
namespace h {
namespace {
enum Kind { K_EXACT, K_DISJOINT, K_PARTIAL, K_SPECIAL, K_OUTSIDE };
struct Ans { int kind = 0; Reg reg; };
struct Fate { int ev = 0, when = 0; uint64_t at = 0, delay = 0, start = 0, linger = 0; int sig = SIGKILL, code = 0; bool stubborn = false; };   // ev: 0 none, 1 exit, 2 signal, 3 hang, 4 quit, 5 no introduction; when: 0 at a call, 1 before an answer, 2 before the introduction
struct TInst { Proc* p = nullptr; int serial = 0, served = 0, answered = 0; uint64_t ev_at = 0, calls = 0; Fate f; bool quit_sent = false; };
struct Case {
    int n = 0; vector<Reg> gt, init; vector<bool> gt_empty, init_empty; vector<vector<Ans>> ans;   // ans[attempt % 3][frame]
    double threshold = -1; int reinit = 0; int timeout = 30, mode = 0; bool buffers = false, raw = false, bounded = false, query = false; string name[3]; int bch = 0; int channels = TRAX_CHANNEL_COLOR; int version = 4; int regions = TRAX_REGION_RECTANGLE;
    Props params; std::map<string, string> env; vector<Fate> fates; vector<TInst*> inst; uint64_t signal_at = 0; bool failing = false; uint64_t busy = 0; string args;
    vector<int> ikind, iw, ih;
    vector<int> start;          // expected first frame of each attempt
    vector<int> expected;       // frames each attempt has to answer
} *C;
static string image_name(int f, int c) { return C->bounded && c == C->bch ? (C->raw && f < C->n ? "/seq/" + std::to_string(f) + "@" + std::to_string(C->iw[f]) + "x" + std::to_string(C->ih[f]) : "i" + std::to_string(f) + ".img") : C->buffers ? "b" + std::to_string(f) + "." + std::to_string(c) : "/seq/" + std::to_string(c) + "/" + std::to_string(f) + ".jpg"; }
static string sized_image(int kind, int w, int h, uint64_t seed);
static string image_data(int f, int c) { if (C->bounded && c == C->bch) return sized_image(C->ikind[f], C->iw[f], C->ih[f], f + 1); string s = string("\x89PNG\r\n\x1a\n") + "frame " + std::to_string(f) + " channel " + std::to_string(c) + ": "; Rng g(f * 3 + c + 1); size_t n = 24 + g.below(300); while (s.size() < n) s += (char)g.below(256); return s; }
static string sized_image(int kind, int w, int h, uint64_t seed) {   // the start of an encoded image
    Rng g(seed); if (kind == 3) { string p; for (int n = 1 + (g.below(2) ? g.below(23) : g.below(300)); n > 0; n--) p += (char)(' ' + g.below(64)); return p; }   // not an image, its size is not known
    auto b2 = [](int v) { return string() + (char)(v >> 8) + (char)v; };
    if (kind == 0) { string p = string("\x89PNG\r\n\x1a\n\0\0\0\rIHDR", 16); for (int v : {w, h}) for (int b = 3; b >= 0; b--) p += (char)(v >> (8 * b)); return p + string(10 + g.below(50), 'x'); }
    if (kind == 1) return string(g.below(2) ? "GIF87a" : "GIF89a") + (char)w + (char)(w >> 8) + (char)h + (char)(h >> 8) + string(14 + g.below(50), 'x');
    auto seg = [&](int marker, const string& body) { return string("\xff") + (char)marker + b2((int)body.size() + 2) + body; };
    string p = "\xff\xd8"; if (g.below(3) < 2) p += seg(0xe0, string("JFIF\0\1\2\0\0\1\0\1\0\0", 14)); if (g.below(2)) p += seg(0xe1, string("Exif\0\0", 6) + string(g.below(700), (char)g.below(256)));
    for (int k = g.below(4); k > 0; k--) { string q; for (int n = g.below(300); n > 0; n--) q += (char)g.below(256); p += seg(g.below(2) ? 0xdb : 0xc4, q); }
    static const int sof[] = {0xc0, 0xc1, 0xc2, 0xc3, 0xc9, 0xca, 0xcb}; p += seg(sof[g.below(7)], string("\x08") + b2(h) + b2(w) + string("\3\1\x11\0\2\x11\1\3\x11\1", 10)); return p + seg(0xda, string(10, 'y')) + string(g.below(40), 'z');
}
static Reg rect(float x, float y, float w, float h) { Reg r; r.type = TRAX_REGION_RECTANGLE; r.r[0] = x; r.r[1] = y; r.r[2] = w; r.r[3] = h; return r; }
static Reg quad(float x, float y, float w, float h) { Reg r; r.type = TRAX_REGION_POLYGON; r.xy = {x, y, x + w, y, x + w, y + h, x, y + h}; return r; }
static Reg patch(int x, int y, int w, int h, int style) {             // a mask: full, with a hole, a diagonal
    Reg r; r.type = TRAX_REGION_MASK; r.mx = x; r.my = y; r.mw = w; r.mh = h; r.bits.assign((size_t)w * h, 1);
    for (int j = 1; j + 1 < h; j++) for (int i = 1; i + 1 < w; i++) if (style == 1 ? i > w / 4 && i < w / 2 && j > h / 3 && j < h / 2 : style == 2 ? (i + j) % 5 == 0 : false) r.bits[(size_t)j * w + i] = 0;
    return r;
}
static bool mask_from(const string& l, Reg& r) {                      // a mask as it is written in a file: position, size, lengths of runs that start with an empty one
    if (l.compare(0, 1, "m")) return false; const char* q = l.c_str() + 1; if (l.compare(0, 5, "mask:") == 0) q += 4; vector<long> v; for (char* e;; q = e + 1) { v.push_back(strtol(q, &e, 10)); if (e == q || (*e && *e != ',')) return false; if (!*e) break; }
    if (v.size() < 4 || v[2] < 1 || v[3] < 1 || v[2] > 5000 || v[3] > 5000) return false;
    r = Reg(); r.type = TRAX_REGION_MASK; r.mx = v[0]; r.my = v[1]; r.mw = v[2]; r.mh = v[3]; for (size_t k = 4; k < v.size(); k++) r.bits.append(v[k] < 0 || v[k] > r.mw * r.mh ? 0 : v[k], k % 2); if ((int)r.bits.size() > r.mw * r.mh) return false; r.bits.resize((size_t)r.mw * r.mh, 0); return true;
}
static bool same_pixels(const Reg& a, const Reg& b) { auto set = [](const Reg& r) { std::set<std::pair<int, int>> s; for (size_t k = 0; k < r.bits.size(); k++) if (r.bits[k]) s.insert({r.mx + (int)k % r.mw, r.my + (int)k / r.mw}); return s; }; return set(a) == set(b); }
static double overlap_class(int k, int f) { return k == K_EXACT ? 1 : k == K_PARTIAL ? 1 / 3.0 : k == K_OUTSIDE ? (C->bounded && C->ikind[f] != 3 ? 0.975 : 0.5) : 0; }
static bool fails(int attempt, int f) { if (C->threshold < 0) return false; double o = C->gt_empty[f] ? 0 : overlap_class(C->ans[attempt % 3][f].kind, f); return o <= C->threshold; }
struct Shown : std::streambuf {                                       // what the program prints
    char text[4096]; size_t n = 0; int overflow(int c) override { char b = (char)c; xsputn(&b, 1); return 1; }
    std::streamsize xsputn(const char* s, std::streamsize k) override { for (std::streamsize i = 0; i < k && n < sizeof text; i++) text[n++] = s[i]; return k; }
};
static Shown& shown() { static Shown s; return s; }
struct Line { bool mark = false; int code = 0; Reg reg; bool timed = false; int attempt = 0, frame = 0; };
// the expected result file; quit >= 0: that attempt ended by the tracker's wish at frame quitframe
static vector<Line> model(int quit, int quitframe, bool record) {
    vector<Line> out; auto mark = [&](int c) { Line l; l.mark = true; l.code = c; out.push_back(l); };
    if (record) { C->start.clear(); C->expected.clear(); }
    int f = 0, attempt = 0;
    while (f < C->n) {
        while (f < C->n && C->init_empty[f]) { mark(0); f++; }
        if (f == C->n) break;
        if (record) { C->start.push_back(f); C->expected.push_back(0); }
        bool first = true, failed = false;
        while (f < C->n) {
            if (attempt == quit && f == quitframe) { failed = true; break; }
            if (record) C->expected.back()++;
            if (fails(attempt, f)) { failed = true; break; }
            Line l; l.mark = first; l.code = 1; l.reg = C->ans[attempt % 3][f].reg; l.timed = true; l.attempt = attempt; l.frame = f; out.push_back(l); first = false; f++;
        }
        if (!failed) break;
        mark(2); f++;
        int stop = C->reinit > 0 ? std::min(C->n, f + C->reinit - 1) : C->n;
        while (f < stop) { mark(0); f++; }
        attempt++;
    }
    return out;
}
static void happen(TInst* i) {
    static const char* nm[] = {"", "tracker exits", "tracker killed", "tracker hangs", "tracker quits", "improper introduction"};
    i->ev_at = now(); ev("tracker %d: %s", i->serial, nm[i->f.ev]); fault(nm[i->f.ev]);
    if (i->f.ev == 1) exit_proc(i->p, i->f.code);
    if (i->f.ev == 2) kill_proc(i->p, i->f.sig);
    if (i->f.ev == 3) { if (i->f.stubborn) i->p->sig[SIGTERM].kind = 1; for (;;) { std::function<bool()> never = [] { return false; }; block("hang", never); } }
}
static int tracker_main(Proc* p) {
    TInst* i = new TInst; i->p = p; i->serial = (int)C->inst.size(); i->f = C->fates[std::min(C->inst.size(), C->fates.size() - 1)]; p->user = i; C->inst.push_back(i); p->name = "tracker" + std::to_string(i->serial);
    CHECK(p->argv.size() == 3 && p->argv[1] == "some argument" && p->argv[2] == "x", "arguments: the tracker was started with other arguments than those given");
    check_connection(p, C->mode);
    for (auto& e : C->env) { bool ok = false; for (auto& v : p->env_store) if (v == e.first + "=" + e.second) ok = true; CHECK(ok, "environment: the tracker was started without %s=%s", e.first.c_str(), e.second.c_str()); }
    CHECK(C->query ? i->serial == 0 : i->serial == 0 || i->serial < (int)C->start.size() || C->inst[i->serial - 1]->f.ev || C->signal_at || C->failing || C->start.size() > 0, "extra-tracker: tracker %d was started, the sequence needs %zu", i->serial, C->start.size());
    if (i->f.start) sleep_for(i->f.start);
    if (i->f.when == 2 && i->f.ev && i->f.ev < 4) happen(i);
    if (i->f.ev == 5) { happen(i); if (i->f.linger) sleep_for(i->f.linger); return i->f.code; }
    trax_metadata* m = trax_metadata_create(C->regions, C->raw ? TRAX_IMAGE_MEMORY | (C->timeout % 2 ? TRAX_IMAGE_URL : 0) : C->buffers ? TRAX_IMAGE_BUFFER : TRAX_IMAGE_PATH | TRAX_IMAGE_BUFFER, C->channels, C->name[0].c_str(), C->name[1].c_str(), C->name[2].c_str(), 0);
    trax_handle* h = trax_server_setup_v(m, trax_no_log, C->version); trax_metadata_release(&m);
    if (!h) return 9;
    int code = i->f.code;
    for (;;) {
        trax_image_list* il = nullptr; trax_object_list* ol = nullptr; trax_region* rg = nullptr; trax_properties* pr = trax_properties_create(); int r;
        if (C->version >= 4) r = trax_server_wait_mot(h, &il, &ol, pr); else r = trax_server_wait_sot(h, &il, &rg, pr);
        Props got = read_props(pr); trax_properties_release(&pr);
        Imgs im; if (il) { im = read_imgs(il); free_imgs(&il); }
        Reg reg; bool hasreg = false; if (ol) { vector<Obj> o = read_objs(ol); if (o.size()) { reg = o[0].reg; hasreg = true; } trax_object_list_release(&ol); } if (rg) { reg = read_reg(rg); hasreg = true; trax_region_release(&rg); }
        if (r != TRAX_INITIALIZE && r != TRAX_FRAME) { if (r == TRAX_QUIT) ev("tracker %d told to quit", i->serial); break; }
        CHECK(i->serial < (int)C->start.size() && i->served < C->expected[i->serial], "extra-frame: tracker %d was sent frame number %d, the evaluation should have ended before", i->serial, i->served + 1);
        int f = C->start[i->serial] + i->served; i->served++;
        for (int c = 0; c < 3; c++) if (C->channels & (1 << c)) {
            string want = C->buffers ? image_data(f, c) : image_name(f, c), have = im.ch[c].data;
            if (C->raw) { Img e = file_picture(want); CHECK(same(im.ch[c], e), "wrong-image: attempt %d should get frame %d, channel %d is %s instead of %s", i->serial, f, c, show(im.ch[c]).c_str(), show(e).c_str()); probe("raw images"); continue; }
            CHECK(have == want && im.ch[c].type == (C->buffers ? TRAX_IMAGE_BUFFER : TRAX_IMAGE_PATH), "wrong-image: attempt %d should get frame %d, channel %d is %s", i->serial, f, c, show(have).c_str());
        }
        if (r == TRAX_INITIALIZE) {
            CHECK(i->served == 1, "extra-initialization: tracker %d is initialized a second time at frame %d", i->serial, f);
            CHECK(hasreg, "no-region: the tracker is initialized without a region"); CHECK(reg.type & C->regions, "wrong-region-type: attempt %d is initialized with %s, the tracker supports types %x", i->serial, show(reg).c_str(), C->regions);
            double l, t, rr, b, l2, t2, r2, b2; bounds(reg, l, t, rr, b); bounds(C->init[f], l2, t2, r2, b2);
            CHECK(fabs(l - l2) <= 1.01 && fabs(t - t2) <= 1.01 && fabs(rr - r2) <= 1.01 && fabs(b - b2) <= 1.01, "wrong-initialization: attempt %d at frame %d received %s instead of %s", i->serial, f, show(reg).c_str(), show(C->init[f]).c_str());
            for (auto& q : C->params) CHECK(got.count(q.first) && got[q.first] == q.second, "parameter: attempt %d was initialized without parameter %s=%s", i->serial, q.first.c_str(), q.second.c_str());
        } else CHECK(i->served > 1, "no-initialization: attempt %d starts with a frame", i->serial);
        if (i->f.delay) sleep_for(i->f.delay);
        if (i->f.when == 1 && i->f.ev && i->served == (int)i->f.at) { if (i->f.ev == 4) { happen(i); i->quit_sent = true; trax_terminate(h, "enough"); break; } happen(i); }
        Reg a = C->ans[i->serial % 3][f].reg; int rc;
        if (C->version >= 4) { vector<Obj> o(1); o[0].reg = a; trax_object_list* l = make_objs(o); rc = trax_server_reply_mot(h, l); trax_object_list_release(&l); }
        else { trax_region* x = make_reg(a); rc = trax_server_reply_sot(h, x, nullptr); trax_region_release(&x); }
        if (rc < 0) break;
        i->answered++;
    }
    if (i->f.linger) sleep_for(i->f.linger);
    trax_cleanup(&h);
    return code;
}
static string region_text(const Reg& r) { std::ostringstream s; if (r.type == TRAX_REGION_MASK) return wire_reg(r); if (r.type == TRAX_REGION_RECTANGLE) s << r.r[0] << "," << r.r[1] << "," << r.r[2] << "," << r.r[3]; else for (size_t k = 0; k < r.xy.size(); k++) s << (k ? "," : "") << r.xy[k]; return s.str(); }
static void put(const string& name, const string& data) { std::ofstream f(name, std::ios::binary); f << data; if (!f.good()) harness_error("cannot write %s", name.c_str()); }
static bool get(const string& name, vector<string>& lines) { std::ifstream f(name); if (!f.is_open()) return false; string l; while (std::getline(f, l)) lines.push_back(l); return true; }
static void run_cli() {
    active = "C21"; io_profile(1); sched_profile(true); cfg.max_time = 6000 * SEC; cfg.pipe_cap = std::max<size_t>(cfg.pipe_cap, 1000); cfg.stall_max = 2 * MS;
    if (chdir(scratch_dir.c_str())) harness_error("no scratch directory");
    Case c; C = &c;
    for (const char* f : {"images.txt", "groundtruth.txt", "output.txt", "out2.txt", "init.txt", "timing.txt", "im2.txt", "gt2.txt"}) unlink(f);
    shown().n = 0; std::cout.rdbuf(&shown());
    for (auto& s : c.name) { static const char* t[] = {"evaluated", "a tracker with spaces", "x", "0.1-beta", "\xc3\xa9\xe2\x82\xac", "quotes \" and \\", "100%s %d"}; s = t[choose(W, 7)]; }
    // the sequence
    c.n = 1 + choose(W, choose(W, 4) == 3 ? 40 : 12); c.query = choose(W, 12) == 11;
    c.buffers = choose(W, 4) == 3; c.bounded = choose(W, 6) == 5; c.raw = !c.buffers && choose(W, 6) == 5; if (c.raw && c.bounded) c.n = std::min(c.n, 8); c.channels = choose(W, 4) == 3 ? 1 + choose(W, 7) : TRAX_CHANNEL_COLOR; if (c.bounded) { if (choose(W, 2)) c.channels |= TRAX_CHANNEL_COLOR; while (!((c.channels >> c.bch) & 1)) c.bch++; }
    c.version = choose(W, 4) == 3 ? 2 + choose(W, 2) : 4; if (c.version < 4 && 0) c.channels = TRAX_CHANNEL_COLOR; static const int rf[] = {TRAX_REGION_RECTANGLE, TRAX_REGION_RECTANGLE | TRAX_REGION_POLYGON, TRAX_REGION_RECTANGLE | TRAX_REGION_POLYGON | TRAX_REGION_MASK, TRAX_REGION_RECTANGLE | TRAX_REGION_MASK, TRAX_REGION_POLYGON, TRAX_REGION_MASK}; c.regions = rf[choose(W, 6)]; bool masks = choose(W, 3) == 2;
    bool separate = choose(W, 2), gaps = choose(W, 3) == 2; int IW = 640, IH = 480, kind = choose(W, 4); bool vary = choose(W, 2); 
    int init_lines = separate ? (choose(W, 3) == 2 ? choose(W, c.n + 3) : c.n) : c.n;
    for (int f = 0; f < c.n; f++) {
        bool small = c.bounded && c.raw; int base = small ? 4 : 20, span = small ? 8 : 30; auto grow = [&](int least, bool huge) { return small ? 80 + (int)choose(W, 40) : huge ? least + (int)choose(W, 60000) : least + (int)choose(W, 1600); };
        float w = 2 * (base + choose(W, span)), hh = 2 * (base + choose(W, span)), x = 10 + choose(W, small ? 40 : 300), y = 10 + choose(W, small ? 40 : 200); int edge = c.bounded ? choose(W, 8) : 0; edge = edge < 4 ? 0 : edge - 3; bool below = edge == 1 || edge == 3;   // the ground truth touches a border of the image
        if (c.bounded) { if (f == 0 ? vary || small : vary && choose(W, 3) == 2) { bool huge = choose(W, 8) == 7; IW = grow(430, huge); IH = grow(400, huge); } if (choose(W, 6) == 5) kind = choose(W, 8) == 7 ? 4 : choose(W, 4); if (c.buffers && kind == 1) kind = 2; if (c.buffers && kind == 4) kind = 0; c.ikind.push_back(small ? 0 : kind == 4 ? 3 : std::min(kind, 2)); c.iw.push_back(c.ikind.back() == 0 && IW > 50000 ? IW += 65536 * choose(W, 12) : IW); c.ih.push_back(c.ikind.back() == 0 && IH > 50000 ? IH += 65536 * choose(W, 12) : IH); if (c.ikind.back()) { IW = std::min(IW, 65535); IH = std::min(IH, 65535); c.iw.back() = IW; c.ih.back() = IH; } }
        if (edge == 1) y = IH - hh; else if (edge == 2) x = IW - w; else if (edge == 3) y = 0; else if (edge == 4) x = 0;
        bool poly = choose(W, 4) == 3 && !edge;
        int mask = masks && !poly && !edge && choose(W, 2) ? 1 + choose(W, 3) : 0;
        c.gt.push_back(poly ? quad(x, y, w, hh) : mask ? patch(x, y, w, hh, mask - 1) : rect(x, y, w, hh)); c.gt_empty.push_back(gaps && !separate ? choose(W, 3) == 2 : false);
        if (separate) { float a = choose(W, 300), b = choose(W, 200); c.init.push_back(choose(W, 4) == 3 ? quad(a, b, 30, 20) : masks && choose(W, 3) == 2 ? patch(a, b, 30, 20, choose(W, 3)) : rect(a, b, 30, 20)); c.init_empty.push_back(f >= init_lines || (gaps && choose(W, 3) > 0)); }
        else { c.init.push_back(c.gt.back()); c.init_empty.push_back(c.gt_empty.back()); }
        for (int k = 0; k < 3; k++) {
            Ans a; uint32_t q = choose(W, 12); a.kind = q < 8 ? K_EXACT : q == 8 ? K_DISJOINT : q == 9 ? K_PARTIAL : q == 10 ? K_SPECIAL : K_OUTSIDE; if (a.kind == K_OUTSIDE && (!edge)) a.kind = K_PARTIAL; if (mask > 1 && a.kind == K_PARTIAL) a.kind = K_DISJOINT;
            switch (a.kind) { case K_EXACT: a.reg = c.gt.back(); break; case K_DISJOINT: a.reg = rect(x + 2 * w, y + 2 * hh, w, hh); break; case K_PARTIAL: a.reg = below ? rect(x, y + hh / 2, w, hh) : rect(x + w / 2, y, w, hh); break; case K_SPECIAL: a.reg.type = TRAX_REGION_SPECIAL; a.reg.code = choose(W, 9); break; case K_OUTSIDE: a.reg = edge == 1 ? rect(x, y, w, 2 * hh) : edge == 2 ? rect(x, y, 2 * w, hh) : edge == 3 ? rect(x, -hh, w, 2 * hh) : rect(-w, y, 2 * w, hh); break; }
            if (mask && a.reg.type == TRAX_REGION_RECTANGLE && (mask > 1 || choose(W, 2))) a.reg = patch(a.reg.r[0], a.reg.r[1], a.reg.r[2], a.reg.r[3], choose(W, 3));   // of these only the position matters
            if ((int)c.ans.size() <= k) c.ans.resize(k + 1); c.ans[k].push_back(a);
        }
    }
    static const double th[] = {-1, 0, 0.2, 0.7, 0.5 + 1e-9, 1}; c.threshold = th[choose(W, 16) == 15 ? 5 : choose(W, 4)]; c.reinit = choose(W, 3) == 0 ? 0 : 1 + choose(W, choose(W, 2) ? 5 : 40);
    static const int lim[] = {30, 5, 2, 1, 0}; c.timeout = lim[choose(W, 5)]; c.mode = choose(W, 3);
    uint64_t most = c.timeout ? (uint64_t)c.timeout * 600 * MS : 3 * SEC;
    bool trouble = choose(W, 3) == 2, silent_end = false;
    for (int k = 0; k < 40; k++) {
        Fate f; if (choose(W, 4) == 3) f.delay = (uint64_t)choose(W, 1000) * std::min<uint64_t>(most, 2 * SEC) / 1000; if (choose(W, 4) == 3) f.start = (uint64_t)choose(W, 1000) * most / 1000; if (choose(W, 6) == 5) f.linger = choose(W, 2000) * MS; if (choose(W, 6) == 5) f.code = 1 + choose(W, 3);
        if (trouble && choose(W, 3) == 2) { f.ev = 1 + choose(W, 5); if (f.ev == 3 && !c.timeout) f.ev = 2; f.when = f.ev == 4 ? 1 : choose(W, 3); f.at = f.when == 1 ? 1 + choose(W, 6) : choose(W, 200); f.stubborn = choose(W, 3) == 2; static const int sg[] = {SIGKILL, SIGSEGV, SIGTERM}; f.sig = sg[choose(W, 3)]; if (f.ev == 5) f.linger = choose(W, 2) && c.timeout ? 1000 * SEC : choose(W, 300) * MS; }
        c.fates.push_back(f);
    }
    given_values(c.params, {"alpha", "name", "k", "Some.Long_key.with.parts.0123456789.0123456789.0123456789.0123"}); given_values(c.env, {"EVALUATION", "X", "TRACKER_OPTIONS"});
    vector<Line> want = model(-1, -1, true);
    for (size_t k = 0; k < c.start.size(); k++) { Fate& f = c.fates[std::min(k, c.fates.size() - 1)]; c.busy += f.start + f.linger * (f.linger < 10 * SEC) + f.delay * c.expected[k] + 8 * SEC; }
    { Fate& f = c.fates[std::min(c.start.size(), c.fates.size() - 1)]; c.busy += 8 * SEC + f.start + f.linger * (f.linger < 10 * SEC); }   // a tracker may be started for nothing
    // files
    int columns = 3; if (c.channels > 1 && choose(W, 10) == 9) { columns = 1 + choose(W, c.channels > 3 ? 2 : 1); }   // the sequence does not have all channels
    bool lacking = (c.channels >> columns) != 0; string images, gt, init; bool nl_i = choose(W, 3) != 2, nl_g = choose(W, 3) != 2, crlf = choose(W, 6) == 5; int extra_i = choose(W, 5) == 4 ? choose(W, 4) : 0, extra_g = extra_i ? 0 : choose(W, 5) == 4 ? choose(W, 4) : 0;
    for (int f = 0; f < c.n + extra_i; f++) { string l; for (int k = 0; k < 3; k++) { if (k && (!(c.channels >> k) || k >= columns)) break; l += (k ? ";" : "") + ((c.channels >> k) & 1 ? image_name(f, k) : string()); } images += l + (f + 1 < c.n + extra_i || nl_i || lacking ? "\n" : ""); }
    for (int f = 0; f < c.n + extra_g; f++) { bool last = f + 1 == c.n + extra_g; string l = f < c.n ? (c.gt_empty[f] ? "" : region_text(c.gt[f])) : "1,2,3,4"; gt += l + (last && !nl_g && !l.empty() ? "" : crlf ? "\r\n" : "\n"); }
    if (separate) for (int f = 0; f < init_lines; f++) init += (f < c.n && !c.init_empty[f] ? region_text(c.init[f]) : f < c.n ? string() : "5,6,7,8") + "\n";
    if (c.buffers || (c.bounded && !c.raw)) { for (int f = 0; f < c.n; f++) for (int k = 0; k < 3; k++) if ((c.channels >> k) & 1) {
        if (c.buffers || k == c.bch) put(image_name(f, k), image_data(f, k)); } }
    bool names = choose(W, 2); string fi = names ? "im2.txt" : "images.txt", fg = names ? "gt2.txt" : "groundtruth.txt", fo = names ? "out2.txt" : "output.txt";
    put(fi, images); put(fg, gt); if (separate) put("init.txt", init);
    int missing = -1; unreadable.clear(); if ((c.buffers || c.raw) && choose(W, 8) == 7) { missing = choose(W, c.n); for (int k = 0; k < 3; k++) if (c.raw) unreadable.insert(image_name(missing, k)); else unlink(image_name(missing, k).c_str()); }
    // the command line
    vector<string> a = {"traxclient"}; auto opt = [&](const string& o, const string& v) { if (choose(W, 4) == 3) a.push_back(o + v); else { a.push_back(o); a.push_back(v); } };
    if (names) { opt("-I", fi); opt("-G", fg); opt("-O", fo); } if (separate) opt("-S", "init.txt");
    if (c.threshold >= 0) { std::ostringstream s; s << c.threshold; opt("-f", s.str()); } if (c.reinit) opt("-r", std::to_string(c.reinit)); if (c.timeout != 30 || choose(W, 2)) opt("-t", std::to_string(c.timeout));
    bool timing = choose(W, 2); if (timing) opt("-T", "timing.txt"); for (auto& p : c.params) opt("-p", p.first + "=" + p.second); for (auto& e : c.env) opt("-e", e.first + "=" + e.second);
    if (c.mode == 1) a.push_back("-x"); if (c.mode == 2) a.push_back("-X"); if (c.query) a.push_back("-Q"); { uint32_t v = choose(W, 6); if (v == 4) a.push_back("-d"); if (v == 5) a.push_back("-s"); }
    bool start = choose(W, 24) != 23; a.push_back("--"); a.push_back(start ? "tracker" : "missing-program"); a.push_back("some argument"); a.push_back("x");
    for (auto& x : a) c.args += (c.args.empty() ? "" : " ") + x;
    // the world
    Proc* cp = new_proc("traxclient"); for (int fd = 0; fd < 3; fd++) install(cp, std::make_shared<File>(), fd); dirs.insert("/"); programs["tracker"] = tracker_main; set_env(cp, "PATH", "/bin"); if (c.bounded) set_env(cp, "TRAX_BOUNDED_OVERLAP", choose(W, 2) ? "true" : "TRUE");
    static const char* fc[] = {"pipe", "posix_spawn", "pthread_create", "socket", "bind", "listen", "accept", "sigaction"}; static const int fe[] = {EMFILE, EAGAIN, EAGAIN, EMFILE, EADDRINUSE, EADDRINUSE, EMFILE, EINVAL}; int which = -1; int64_t nth = 0, cnt = 0;
    if (choose(W, 10) == 9) { which = choose(W, 8); nth = choose(W, 5); if (!c.timeout) which = 1; }
    fault_hook = [&](const char* call, Proc* p, int) -> int {
        if (p == cp && which >= 0 && !strcmp(call, fc[which]) && cnt++ == nth) { fault((string("failing ") + call).c_str()); C->failing = true; return fe[which]; }
        if (p != cp && p->user) { TInst* i = (TInst*)p->user; if (i->f.ev && i->f.ev < 4 && i->f.when == 0 && i->calls++ == i->f.at) happen(i); }
        return 0; };
    vector<char*> argv; for (auto& x : a) argv.push_back((char*)x.c_str()); argv.push_back(nullptr);
    sample("%s\n %d frames, trackers: ", c.args.c_str(), c.n); for (size_t k = 0; k < 3; k++) sample("%s(event %d/%d at %llu) ", c.fates[k].linger ? "lingering " : "", c.fates[k].ev, c.fates[k].when, (unsigned long long)c.fates[k].at);
    uint64_t ended = 0; bool alive_after = false; vector<int> left; death_hook = [&](Proc* p) { if (p == cp) { ended = now(); for (auto i : c.inst) if (i->p->alive) { alive_after = true; left.push_back(i->serial); } } };
    new_task(cp, "main", [&] { exit_proc(cp, traxclient_main((int)a.size(), argv.data())); });
    if (choose(W, c.query ? 2 : 8) == (c.query ? 1 : 7)) new_task(new_proc("user"), "user", [&] { sleep_for(choose(W, 2) ? choose(W, 1000) * MS : (uint64_t)choose(W, 1000) * 20 * MS); if (!cp->alive || (cp->sig[SIGINT].kind != 2 && c.inst.empty())) return; c.signal_at = now(); ev("interrupt"); fault("SIGINT"); deliver(cp, SIGINT); }, true);
    run();
    if (!ended) harness_error("the client has not ended");
    // exit status
    bool bysig = (cp->wstatus & 0x7f) != 0; int status = bysig ? -1 : (cp->wstatus >> 8) & 255; ev("client ended with status %d after %.3f s", status, ended / 1e9);
    CHECK(!bysig, "client-died: the client was ended by signal %d", cp->wstatus & 0x7f);
    CHECK(!alive_after, "left-running: tracker %d is still running when the client ends", left[0]);
    bool odd = !start || lacking || c.signal_at || c.failing || missing >= 0; uint64_t worst = 0; TInst* wi = nullptr; for (auto i : c.inst) if (i->ev_at) { odd = true; if (i->ev_at > worst) { worst = i->ev_at; wi = i; } }
    const uint64_t FEW = 4 * SEC; uint64_t lim_ns = (uint64_t)c.timeout * SEC;
    if (odd && c.timeout) CHECK(ended <= c.busy + 2 * (lim_ns + FEW), "unbounded-run: the client ended after %.2f s", ended / 1e9);
    if (!odd) CHECK(ended <= c.busy, "unbounded-run: the client ended after %.2f s, the trackers need %.2f s", ended / 1e9, c.busy / 1e9);
    if (wi && wi == c.inst.back() && (c.timeout || wi->f.ev < 3)) { uint64_t b = wi->ev_at + (wi->f.ev == 3 || wi->f.ev == 5 ? lim_ns : 0) + 2 * FEW; CHECK(ended <= b || wi->f.ev == 4 || wi->answered >= (wi->serial < (int)c.expected.size() ? c.expected[wi->serial] : 0), "unbounded-run: the tracker failed (event %d) at %.2f s, the client ended at %.2f s", wi->f.ev, wi->ev_at / 1e9, ended / 1e9); }
    if (c.signal_at) { uint64_t b = c.signal_at + 2 * FEW; CHECK(ended <= b, "unbounded-run: the client was interrupted at %.2f s and ended at %.2f s", c.signal_at / 1e9, ended / 1e9); }
    vector<string> out, tim; bool has = get(fo, out), hast = get("timing.txt", tim); set_nontrivial();
    if (c.query && status == 0) { string p(shown().text, shown().n); static const char* what[] = {"name", "description", "family"}; for (int k = 0; k < 3; k++) CHECK(p.find(string("Tracker ") + what[k] + ": " + c.name[k] + "\n") != string::npos, "query-output: the tracker's %s is '%s', the program shows %s", what[k], c.name[k].c_str(), show(p).c_str()); probe("tracker queried"); }
    if (c.query) { bool intro = c.inst.size() == 1 && !c.inst[0]->ev_at; if (intro && !odd) CHECK(status == 0, "query-status: the tracker introduced itself, the client ends with status %d", status); if (!start) CHECK(status != 0, "query-status: no tracker was started, the client ends with status 0"); if (c.inst.size() && (c.inst[0]->f.ev == 5 || c.inst[0]->f.when == 2) && c.inst[0]->ev_at) CHECK(status != 0, "query-status: the tracker did not introduce itself, the client ends with status 0"); CHECK(!has, "query-output: a query has written a result file"); return; }
    // could every attempt be completed?
    bool complete = true; for (size_t k = 0; k < c.expected.size(); k++) if (k >= c.inst.size() || c.inst[k]->answered < c.expected[k]) complete = false;
    if (lacking && !c.query && !c.start.empty()) { CHECK(status != 0, "status: the sequence has no image for a channel the tracker needs, the client ends with status 0"); probe("lacking channel"); }
    if (missing >= 0) for (size_t k = 0; k < c.start.size(); k++) if (missing >= c.start[k] && missing < c.start[k] + c.expected[k]) { CHECK(status != 0, "status: an image file is missing, the client ends with status 0"); complete = false; }
    if (!odd) { CHECK(status == 0, "status: the client ends with status %d although nothing has failed", status); CHECK(complete, "incomplete: the client ends with status 0 although not all frames were tracked"); CHECK(c.inst.size() <= c.start.size() + 1, "extra-tracker: %zu trackers were started for %zu attempts", c.inst.size(), c.start.size()); }
    if (status != 0) { CHECK(odd, "status: the client ends with status %d although nothing has failed", status); CHECK(!has && !hast, "partial-output: the client ends with status %d and has written results", status); probe("failure status"); return; }
    if (!complete) {
        int qa = -1; for (auto i : c.inst) if (i->quit_sent) { qa = i->serial; break; }
        CHECK(qa >= 0 && qa < (int)c.start.size(), "status: the client ends with status 0 although a tracker %s", !start ? "could not be started" : "did not answer all frames");
        want = model(qa, c.start[qa] + c.inst[qa]->answered, false);
    }
    CHECK(has == !want.empty(), "no-output: the client ends with status 0 and has written no result file");
    CHECK(out.size() == want.size() && (int)out.size() == c.n, "length: the result file has %zu entries for %d frames", out.size(), c.n);
    for (int f = 0; f < c.n; f++) {
        if (!want[f].mark && want[f].reg.type == TRAX_REGION_MASK) { Reg m; CHECK(mask_from(out[f], m) && same_pixels(m, want[f].reg), "wrong-entry: frame %d is recorded as '%s' instead of %s", f, show(out[f]).c_str(), show(want[f].reg).c_str()); probe("mask recorded"); continue; }
        vector<double> v; { std::istringstream s(out[f]); string t; while (std::getline(s, t, ',')) v.push_back(strtod(t.c_str(), nullptr)); }
        vector<double> e; const Line& l = want[f]; if (l.mark) e.push_back(l.code); else if (l.reg.type == TRAX_REGION_SPECIAL) e.push_back(l.reg.code); else if (l.reg.type == TRAX_REGION_RECTANGLE) for (float q : l.reg.r) e.push_back(q); else for (float q : l.reg.xy) e.push_back(q);
        string es; for (double q : e) { char t[32]; snprintf(t, sizeof t, "%g,", q); es += t; }
        CHECK(v == e, "wrong-entry: frame %d is recorded as '%s' instead of '%s'", f, show(out[f]).c_str(), es.c_str());
        state(mix(l.mark ? l.code + 1 : 9, f & 7));
    }
    CHECK(hast == timing, "timing-file: timing file written: %d, asked for: %d", hast, timing);
    if (timing) {
        CHECK((int)tim.size() == c.n, "timing-length: the timing file has %zu entries for %d frames", tim.size(), c.n);
        for (int f = 0; f < c.n; f++) { double t = strtod(tim[f].c_str(), nullptr), d = want[f].timed ? c.fates[std::min((size_t)want[f].attempt, c.fates.size() - 1)].delay / 1e9 : 0; CHECK(want[f].timed ? t >= d * 0.999 - 0.0001 && t <= d + 3 : t == 0, "timing: frame %d is recorded with %s s, the tracker took %.3f s", f, tim[f].c_str(), d); }
    }
    if (c.inst.size() > 1) probe("reinitialized"); probe("complete evaluation"); (void)silent_end;
}
}
}
SCENARIO(C21) { h::run_cli(); }
