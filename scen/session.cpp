#include "session.h"
#include "shm.h"
#include <signal.h>
#include <sys/socket.h>
#include <netinet/in.h>
extern "C" { int sim_bind(int, const struct sockaddr*, socklen_t); }

namespace h {

// ---------------------------------------------------------------- plan
static bool trunc_key(const string& k) { return k.compare(0, 5, "trax.") == 0; }
static int subset(int bits, bool full) {
    int r = 0; for (int i = 1; i < 16; i <<= 1) if ((bits & i) && (full ? choose(W, 4) != 3 : choose(W, 2))) r |= i;
    while (!r) { int i = 1 << choose(W, 4); r |= bits & i; }
    return r;
}
static Reg small_reg(int types) {
    Reg r; vector<int> t; for (int k : {TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK}) if (types & k) t.push_back(k);
    r.type = pick(W, t);
    auto c = [] { return (float)((int)choose(W, 80000) - 40000) / 100.0f; };
    if (r.type == TRAX_REGION_RECTANGLE) { r.r[0] = c(); r.r[1] = c(); r.r[2] = 4 + choose(W, 8000) / 100.0f; r.r[3] = 4 + choose(W, 8000) / 100.0f; }
    else if (r.type == TRAX_REGION_POLYGON) { float x = c(), y = c(), w = 8 + choose(W, 90), hh = 8 + choose(W, 90); r.xy = {x, y, x + w, y, x + w, y + hh}; int n = choose(W, 5); for (int i = 0; i < n; i++) { r.xy.push_back(x + choose(W, 1000) / 1000.0f * w); r.xy.push_back(y + choose(W, 1000) / 1000.0f * hh); } }
    else { r.mx = (int)choose(W, 400) - 200; r.my = (int)choose(W, 400) - 200; r.mw = 4 + choose(W, 30); r.mh = 4 + choose(W, 30); Rng g(choose(W, 1 << 30)); r.bits.resize((size_t)r.mw * r.mh); int dens = 1 + choose(W, 3); for (auto& b : r.bits) b = g.below(dens + 1) ? 1 : 0; r.bits[g.below((uint32_t)r.bits.size())] = 1; }
    return r;
}
static Reg gen_sent_region(const Focus& f, int declared) {
    bool conv = f.convert ? chance(W, 1, 2) : chance(W, 1, 12);
    if (conv) return small_reg(TRAX_REGION_ANY);
    return f.reg ? gen_reg(declared, false) : small_reg(declared);
}
static Reg gen_reply_region(const Focus& f) { return f.reg ? gen_reg(TRAX_REGION_ANY, true) : choose(W, 6) == 5 ? gen_reg(0, true) : small_reg(TRAX_REGION_ANY); }
static Props msg_props(const Focus& f) { return f.props ? gen_props(f.text ? 6 : 3, f.text) : Props(); }

Plan gen_plan(const Focus& f) {
    Plan p;
    p.c_cpp = choose(W, 2); p.s_cpp = choose(W, 2); p.socket = choose(W, 3) == 2; p.client_first = choose(W, 2) == 0;
    int v = choose(W, 8);
    if (f.multi) v = choose(W, 10) == 9 ? v : 0;
    p.version = v < 4 ? 4 : v < 6 ? 3 : v == 6 ? 2 : 1;
    if (p.version < 3) p.s_cpp = false;
    p.multi = p.v4() ? (f.multi ? choose(W, 8) != 7 : choose(W, 2)) : (choose(W, 4) == 3);   // the flag has no effect before version 4
    p.s_setup = p.s_cpp ? 1 + choose(W, 2) : choose(W, 3);
    if (p.socket) p.s_setup = 1;
    p.channels = p.version < 2 ? TRAX_CHANNEL_COLOR : (f.img || f.meta || f.refuse) ? subset(7, true) : choose(W, 3) == 2 ? subset(7, false) : TRAX_CHANNEL_COLOR;
    p.iformats = f.img ? subset(15, true) : f.meta ? subset(15, false) : choose(W, 2) ? TRAX_IMAGE_PATH : subset(15, false);
    p.rformats = f.convert || f.meta ? subset(14, false) : f.reg ? subset(14, true) : choose(W, 2) ? TRAX_REGION_RECTANGLE : subset(14, false);
    p.has_name = choose(W, 5) != 4; p.has_desc = choose(W, 5) != 4; p.has_family = choose(W, 5) != 4;
    p.name = f.meta || f.text ? gen_text(f.text) : "tracker"; p.desc = f.meta || f.text ? gen_text(f.text) : "description"; p.family = f.meta || f.text ? gen_text(0) : "family";
    if (f.meta && choose(W, 6) == 5) p.name = "";
    if (f.meta || f.text) for (auto& k : gen_props(4, f.text)) if (!trunc_key(k.first)) p.custom[k.first] = k.second;
    if (f.noise && choose(W, 2)) p.noise_hello = gen_noise();
    int n = f.ends && choose(W, 8) == 7 ? 0 : 1 + choose(W, f.max_steps), tracked = 0;
    bool c_objprops = !p.c_cpp && p.v4();
    for (int i = 0; i < n; i++) {
        Step s; s.kind = i == 0 ? INIT : choose(W, f.multi ? 4 : 6) == 1 ? INIT : FRAME;
        s.imgs = gen_imgs(p.channels, p.iformats, f.img ? f.img - 1 : 0);
        s.props = msg_props(f);
        int add = s.kind == INIT ? 1 : 0;
        if (p.v4() && p.multi) { int most = f.multi ? (choose(W, 12) == 11 ? 30 : 5) : 3; add = s.kind == INIT ? 1 + choose(W, most) : choose(W, 2) ? choose(W, most) : 0; }
        for (int k = 0; k < add; k++) { Obj o; o.reg = gen_sent_region(f, p.rformats); if (c_objprops) o.props = msg_props(f); s.objs.push_back(o); }
        tracked = s.kind == INIT ? add : tracked + add;
        // C++ replies with an object list cannot carry properties
        s.r_single = tracked == 1 && choose(W, 2); if (p.s_cpp && p.version == 3) s.r_single = true;
        for (int k = 0; k < tracked; k++) { Obj o; o.reg = gen_reply_region(f); if (!p.s_cpp || s.r_single) o.props = msg_props(f); s.reply.push_back(o); }
        s.c_single = s.objs.size() == 1 && choose(W, 2); s.w_single = tracked == 1 && choose(W, 2);
        s.s_single = s.objs.size() <= 1 && choose(W, 2); if (p.s_cpp && p.version == 3) s.s_single = true;
        if (p.s_cpp && s.s_single) for (auto& o : s.objs) for (auto& k : s.props) o.props.erase(k.first);   // which of the two wins is not specified
        if (f.noise) { if (choose(W, 2)) s.noise_c = gen_noise(); if (choose(W, 2)) s.noise_s = gen_noise(); }
        if (choose(W, 6) == 5) s.delay_c = 1 + choose(W, 20) * 200 * MS; if (choose(W, 6) == 5) s.delay_s = 1 + choose(W, 20) * 200 * MS;
        if (f.refuse) {
            for (int r : {C_INIT_NONE, C_INIT_NOIMG, C_INIT_MANY, C_FRAME_ADD, C_FRAME_NOIMG, C_WAIT_EARLY}) if (choose(W, 4) == 3) s.cref.push_back(r);
            for (int r : {C_INIT_NONE, C_INIT_NOIMG, C_INIT_MANY, C_FRAME_ADD, C_FRAME_NOIMG}) if (choose(W, 6) == 5) s.cref_wait.push_back(r);
            for (int r : {S_REPLY_COUNT, S_REPLY_MODE, S_WAIT_MODE}) { if (choose(W, 4) == 3) s.sref.push_back(r); if (choose(W, 3) == 2) s.sref_reply.push_back(r); }
        }
        p.steps.push_back(s);
    }
    p.end = f.ends ? choose(W, NEND) : choose(W, 2) ? (int)END_CLIENT_REASON : (int)choose(W, NEND);
    p.reason = f.ends || f.text ? gen_text(f.text ? f.text : 1) : "done"; if (choose(W, 8) == 7) p.reason = "";
    p.copies = f.copies ? choose(W, 5) : 0; p.reuse = f.reuse;
    p.c_log = f.logs || choose(W, 3) == 2; p.s_log = f.logs || choose(W, 3) == 2;
    if (f.noise && choose(W, 2)) p.noise_end_c = gen_noise(); if (f.noise && choose(W, 2)) p.noise_end_s = gen_noise();
    return p;
}
size_t Plan::bytes() const { size_t n = name.size() + desc.size(); for (auto& s : steps) { for (int c = 0; c < 3; c++) n += s.imgs.ch[c].data.size(); for (auto& o : s.objs) { n += o.reg.bits.size() + 20; for (auto& k : o.props) n += k.second.size() + 30; } for (auto& o : s.reply) { n += o.reg.bits.size() + 20; for (auto& k : o.props) n += k.second.size() + 30; } for (auto& k : s.props) n += k.second.size(); n += s.noise_c.size() + s.noise_s.size(); } return n; }
string show(const Plan& p) {
    char b[600]; snprintf(b, sizeof b, "client %s, server %s v%d%s over %s; channels %d, images %d, regions %d; end %d reason \"%s\"; ", p.c_cpp ? "C++" : "C", p.s_cpp ? "C++" : "C", p.version, p.multi ? " multi" : "", p.socket ? (p.client_first ? "socket" : "socket (tracker first)") : "pipe", p.channels, p.iformats, p.rformats, p.end, show(p.reason, 20).c_str());
    string o = b;
    for (auto& s : p.steps) { snprintf(b, sizeof b, "%s(%zu objects, %zu props%s)->%zu ", s.kind == INIT ? "init" : "frame", s.objs.size(), s.props.size(), s.cref.size() + s.sref.size() + s.sref_reply.size() + s.cref_wait.size() ? ", refused calls" : "", s.reply.size()); o += b; if (o.size() > 700) break; for (int c = 0; c < 3; c++) if (s.imgs.ch[c].type && s.imgs.ch[c].data.size() < 60) { o += show(s.imgs.ch[c]) + " "; break; } if (!s.objs.empty()) o += show(s.objs[0].reg) + " "; }
    return o;
}

// ---------------------------------------------------------------- adapters
static ssize_t log_write(void* l, const char* s, size_t n) { ((Log*)l)->file++; Log* g = (Log*)l; (g->sending ? g->sent : g->recv).append(s, n); return (ssize_t)n; }
trax_logging log_to(Log* log, bool on) {                              // a callback or a file
    if (!on || choose(W, 4) != 3) return trax_logger_setup(on ? cli_log : nullptr, log, 0);
    cookie_io_functions_t io = {nullptr, log_write, nullptr, nullptr}; FILE* f = fopencookie(log, "w", io); if (!f) harness_error("no log file"); static char room[2][1 << 16]; static int n = 0; if (n < 2) setvbuf(f, room[n++], _IOFBF, 1 << 16);
    probe("log file"); return trax_logger_setup_file(f);
}
void cli_log(const char* s, int n, void* p) { if (!s || n < 1) return; Log* l = (Log*)p; (l->sending ? l->sent : l->recv).append(s, n); }
struct Sending { Log* l; Sending(Log* x) : l(x) { l->sending = true; } ~Sending() { l->sending = false; } };

void Reuse::keep(const Result& res) {
    if (!choose(W, 2)) return;
    Kept k; if (res.has_imgs) { k.l = l; k.lv = res.imgs; k.hl = true; } if (res.has_objs && o.size()) { k.o = o; k.ov = res.objs; k.ho = true; } else if (res.has_objs) { k.r = r; k.rv = res.objs[0].reg; k.hr = true; }
    Props pv; p.to_map(pv); k.p = p; k.pv = pv; k.hp = true; kept.push_back(k);
    if (choose(W, 2)) return;                             // change the copy: the result it was taken from must stay
    Kept& q = kept.back();
    if (q.ho) { int i = choose(W, (uint32_t)q.ov.size()); q.ov[i].reg = gen_reg(TRAX_REGION_ANY, true); q.o.set(i, cpp_reg(q.ov[i].reg)); vector<Obj> g = read_objs(o); bool ok = g.size() == res.objs.size(); for (size_t j = 0; ok && j < g.size(); j++) ok = same(g[j].reg, res.objs[j].reg) && g[j].props == res.objs[j].props; SCHECK("C20,C10", ok, "kept-result: changing a copy of received objects changes the objects"); }
    if (q.hr) { q.rv = Reg(); q.rv.type = TRAX_REGION_RECTANGLE; for (int i = 0; i < 4; i++) q.rv.r[i] = 5 + i; q.r.set(5, 6, 7, 8); SCHECK("C20,C10", same(read_reg(r), res.objs[0].reg), "kept-result: changing a copy of a received region changes the region"); }
    string key = gen_key(1), t = gen_text(0); q.p.set(key, t); q.pv[key] = t; Props now; p.to_map(now); SCHECK("C20,C10", now == pv, "kept-result: changing a copy of received properties changes the properties");
    if (q.hl) { int c = choose(W, 3); q.l.set(trax::Image(), 1 << c); q.lv.ch[c] = Img(); Imgs g = read_imgs(l); bool ok = true; for (int i = 0; i < 3; i++) ok = ok && same(g.ch[i], res.imgs.ch[i]); SCHECK("C20,C10", ok, "kept-result: changing a copy of received images changes the images"); }
}
void Reuse::check(bool drop) {
    for (auto& k : kept) {
        bool ok = true; if (k.hl) { Imgs g = read_imgs(k.l); for (int c = 0; c < 3; c++) ok = ok && same(g.ch[c], k.lv.ch[c]); }
        SCHECK("C20,C10", ok, "kept-result: images received earlier have changed");
        if (k.hr) SCHECK("C20,C10", same(read_reg(k.r), k.rv), "kept-result: a region received earlier has changed from %s to %s", show(k.rv).c_str(), show(read_reg(k.r)).c_str());
        if (k.ho) { vector<Obj> g = read_objs(k.o); ok = g.size() == k.ov.size(); for (size_t i = 0; ok && i < g.size(); i++) ok = same(g[i].reg, k.ov[i].reg) && g[i].props == k.ov[i].props; SCHECK("C20,C10", ok, "kept-result: objects received earlier have changed"); }
        if (k.hp) { Props g; k.p.to_map(g); SCHECK("C20,C10", g == k.pv, "kept-result: properties received earlier have changed from %s to %s", show(k.pv).c_str(), show(g).c_str()); }
    }
    if (drop) { kept.clear(); l = trax::ImageList(); o = trax::ObjectList(); r = trax::Region(); p = trax::Properties(); }
    else while (!kept.empty() && choose(W, 3) == 2) kept.erase(kept.begin() + choose(W, (uint32_t)kept.size()));
}
struct CliC : Cli {
    trax_handle* hd = nullptr;
    bool ok() override { return hd; } trax_handle* raw() override { return hd; }
    int init(const Step& s, const vector<Obj>& o, const Imgs& i) override { return call(true, s, o, i); }
    int frame(const Step& s, const vector<Obj>& o, const Imgs& i) override { return call(false, s, o, i); }
    int call(bool init, const Step& s, const vector<Obj>& o, const Imgs& i) {
        trax_image_list* l = make_imgs(i, 0); trax_properties* p = s.props.empty() ? nullptr : make_props(s.props);
        trax_object_list* ol = o.empty() && !init ? nullptr : make_objs(o); int c;
        { Sending sd(log); c = init ? trax_client_initialize(hd, l, ol, p) : trax_client_frame(hd, l, ol, p); }
        free_imgs(&l); if (p) trax_properties_release(&p); if (ol) trax_object_list_release(&ol);
        return c;
    }
    Result wait(bool) override {
        Result r; trax_object_list* o = nullptr; trax_properties* p = trax_properties_create(); vector<string> old = left_over(); leave_over(p, old);
        r.unread = choose(W, 24) == 23; r.code = trax_client_wait(hd, &o, r.unread ? nullptr : p);
        if (o) { r.has_objs = true; r.objs = read_objs(o); trax_object_list_release(&o); }
        r.props = read_props(p); without_left(r.props, old); trax_properties_release(&p); return r;
    }
    int terminate(const string* reason) override { Sending sd(log); return trax_terminate(hd, reason ? reason->c_str() : nullptr); }
    bool alive() override { return trax_is_alive(hd); }
    void release() override { if (hd) { Sending sd(log); trax_cleanup(&hd); } }
    string error() override { const char* e = trax_get_error(hd); return e ? e : ""; }
    ~CliC() { if (hd) trax_cleanup(&hd); }
};
struct PeekC : trax::Client { PeekC(int i, int o, trax::Logging l) : trax::Client(i, o, l) {} PeekC(int s, trax::Logging l, int t) : trax::Client(s, l, t) {} PeekC(const PeekC& o) : trax::Client(o) {} trax_handle* raw() { return handle; } bool has() { return handle != nullptr; } };
struct CliCpp : Cli {
    std::unique_ptr<PeekC> c; vector<std::unique_ptr<PeekC>> more;
    bool ok() override { return c && c->has(); } trax_handle* raw() override { return c->raw(); }
    int init(const Step& s, const vector<Obj>& o, const Imgs& i) override {
        trax::ImageList l = cpp_imgs(i); trax::Properties p = cpp_props(s.props); Sending sd(log);
        if (s.c_single && o.size() == 1) { trax::Region r = cpp_reg(o[0].reg); return c->initialize(l, r, p); }
        trax::ObjectList ol = cpp_objs(o); return c->initialize(l, ol, p);
    }
    int frame(const Step& s, const vector<Obj>& o, const Imgs& i) override {
        trax::ImageList l = cpp_imgs(i); trax::Properties p = cpp_props(s.props); Sending sd(log);
        if (o.empty() && s.c_single) return c->frame(l, p);
        trax::ObjectList ol = cpp_objs(o); return c->frame(l, ol, p);
    }
    Result wait(bool single) override {
        Result r; trax::Properties p;
        if (reuse.on) {
            Reuse& u = reuse; u.check(false); u.o = trax::ObjectList(); u.p.clear(); if (choose(W, 2)) u.r = trax::Region();
            if (single) { r.code = c->wait(u.r, u.p); if (r.code == TRAX_STATE) { r.has_objs = true; Obj o; o.reg = read_reg(u.r); o.props = read_props(u.p); r.objs.push_back(o); } else r.props = read_props(u.p); }
            else { r.code = c->wait(u.o, u.p); if (r.code == TRAX_STATE && u.o) { r.has_objs = true; r.objs = read_objs(u.o); } r.props = read_props(u.p); }
            u.keep(r); return r;
        }
        vector<string> old = left_over(); leave_over(p, old);
        if (single) { trax::Region g; r.code = c->wait(g, p); if (r.code == TRAX_STATE) { r.has_objs = true; Obj o; o.reg = read_reg(g); o.props = read_props(p); without_left(o.props, old); r.objs.push_back(o); } else r.props = read_props(p); }
        else { trax::ObjectList l; r.code = c->wait(l, p); if (l) { r.has_objs = true; r.objs = read_objs(l); } r.props = read_props(p); }
        without_left(r.props, old); return r;
    }
    int terminate(const string* reason) override { Sending sd(log); return (reason ? c->terminate(*reason) : c->terminate()) ? TRAX_OK : TRAX_ERROR; }
    bool alive() override { return c->is_alive(); }
    void release() override { { Sending sd(log); more.clear(); c.reset(); } reuse.check(true); }
    string error() override { return c->get_error(); }
    void copies(int n, string* tap) override {
        size_t b = tap->size();
        for (int i = 0; i < n; i++) more.emplace_back(new PeekC(*c));
        if (n > 1) std::swap(c, more[choose(W, n)]);          // the original is not special
        for (int i = 0; i < n; i++) { int k = choose(W, (uint32_t)more.size()); more.erase(more.begin() + k); SCHECK("C10,C20", tap->size() == b, "early-quit: destroying one of several copies of a client object sent %zu bytes", tap->size() - b); SCHECK("C10,C20", c->is_alive(), "early-end: destroying one of several copies of a client object ended the session"); }
    }
};
Cli* new_cli(const Plan& p, Log* log, int in, int out, int lfd, int timeout) {
    trax_logging cb = log_to(log, p.c_log);
    if (!p.c_cpp) { auto c = new CliC; c->log = log; c->hd = lfd >= 0 ? trax_client_setup_socket(lfd, timeout, cb) : trax_client_setup_file(in, out, cb); return c; }
    auto c = new CliCpp; c->log = log; trax::Logging l(cb);
    if (lfd >= 0) c->c.reset(new PeekC(lfd, l, timeout)); else c->c.reset(new PeekC(in, out, l));
    return c;
}

struct SrvC : Srv {
    trax_handle* hd = nullptr; bool v4 = true;
    bool ok() override { return hd; } trax_handle* raw() override { return hd; }
    Result wait(bool) override {
        Result r; trax_image_list* l = nullptr; trax_properties* p = trax_properties_create(); vector<string> old = left_over(); leave_over(p, old);
        r.unread = choose(W, 24) == 23; trax_properties* into = r.unread ? nullptr : p;   // not everybody is interested
        if (v4) { trax_object_list* o = nullptr; r.code = trax_server_wait_mot(hd, &l, &o, into); if (o) { r.has_objs = true; r.objs = read_objs(o); trax_object_list_release(&o); } }
        else { trax_region* g = nullptr; r.code = trax_server_wait_sot(hd, &l, &g, into); if (g) { r.has_objs = true; Obj o; o.reg = read_reg(g); r.objs.push_back(o); trax_region_release(&g); } }
        if (l) { r.has_imgs = true; r.imgs = read_imgs(l); free_imgs(&l); }
        r.props = read_props(p); without_left(r.props, old); trax_properties_release(&p); return r;
    }
    int reply(const vector<Obj>& o, bool) override {
        int c;
        if (v4) { trax_object_list* l = make_objs(o); { Sending sd(log); c = trax_server_reply_mot(hd, l); } trax_object_list_release(&l); }
        else { trax_region* g = make_reg(o[0].reg); trax_properties* p = o[0].props.empty() ? nullptr : make_props(o[0].props); { Sending sd(log); c = trax_server_reply_sot(hd, g, p); } trax_region_release(&g); if (p) trax_properties_release(&p); }
        return c;
    }
    int terminate(const string* reason) override { Sending sd(log); return trax_terminate(hd, reason ? reason->c_str() : nullptr); }
    bool alive() override { return trax_is_alive(hd); }
    void release() override { if (hd) { Sending sd(log); trax_cleanup(&hd); } }
    string error() override { const char* e = trax_get_error(hd); return e ? e : ""; }
    ~SrvC() { if (hd) trax_cleanup(&hd); }
};
template <class T> struct Peek : T { Peek(trax::Metadata m, trax::Logging l) : T(m, l) {} Peek(const Peek& o) : T(o) {} trax_handle* raw() { return this->handle; } };
template <class T> struct SrvBase : Srv {
    std::unique_ptr<Peek<T>> c; vector<std::unique_ptr<Peek<T>>> more;
    bool ok() override { return c && c->raw(); } trax_handle* raw() override { return c->raw(); }
    int terminate(const string* reason) override { Sending sd(this->log); return (reason ? c->terminate(*reason) : c->terminate()) ? TRAX_OK : TRAX_ERROR; }
    bool alive() override { return c->is_alive(); }
    void release() override { { Sending sd(this->log); more.clear(); c.reset(); } this->reuse.check(true); }
    Result again(bool list, int (*call)(Peek<T>*, Reuse&, bool)) {
        Reuse& u = this->reuse; Result r; u.check(false); u.o = trax::ObjectList(); u.p.clear(); u.r = trax::Region(); if (choose(W, 2)) u.l = trax::ImageList();
        r.code = call(c.get(), u, list); bool good = r.code == TRAX_INITIALIZE || r.code == TRAX_FRAME;
        if (good) { r.has_imgs = true; r.imgs = read_imgs(u.l); if (list) { if (u.o) { r.has_objs = true; r.objs = read_objs(u.o); } } else if (u.r) { r.has_objs = true; Obj o; o.reg = read_reg(u.r); r.objs.push_back(o); } }
        r.props = read_props(u.p); u.keep(r); return r;
    }
    string error() override { return c->get_error(); }
    Result one() { if (this->reuse.on) return again(false, [](Peek<T>* s, Reuse& u, bool) { return s->wait(u.l, u.r, u.p); }); Result r; trax::ImageList l; trax::Region g; trax::Properties p; vector<string> old = left_over(); leave_over(p, old); r.code = c->wait(l, g, p); if (g) { r.has_objs = true; Obj o; o.reg = read_reg(g); r.objs.push_back(o); } r.imgs = read_imgs(l); for (auto& i : r.imgs.ch) if (i.type) r.has_imgs = true; r.props = read_props(p); without_left(r.props, old); return r; }
    int one_reply(const vector<Obj>& o) { trax::Region g = cpp_reg(o[0].reg); trax::Properties p = cpp_props(o[0].props); Sending sd(this->log); return c->reply(g, p); }
    void copies(int n, string* tap) override {
        size_t b = tap->size(); for (int i = 0; i < n; i++) more.emplace_back(new Peek<T>(*c));
        if (n > 1) std::swap(c, more[choose(W, n)]);
        for (int i = 0; i < n; i++) { int k = choose(W, (uint32_t)more.size()); more.erase(more.begin() + k); SCHECK("C10,C20", tap->size() == b, "early-quit: destroying one of several copies of a server object sent %zu bytes", tap->size() - b); SCHECK("C10,C20", c->is_alive(), "early-end: destroying one of several copies of a server object ended the session"); }
    }
};
struct SrvSot : SrvBase<trax::ServerSOT> { Result wait(bool) override { return one(); } int reply(const vector<Obj>& o, bool) override { return one_reply(o); } };
struct SrvMot : SrvBase<trax::ServerMOT> {
    Result wait(bool single) override { if (single) return one(); if (reuse.on) return again(true, [](Peek<trax::ServerMOT>* s, Reuse& u, bool) { return s->wait(u.l, u.o, u.p); }); Result r; trax::ImageList l; trax::ObjectList ol; trax::Properties p; vector<string> old = left_over(); leave_over(p, old); r.code = c->wait(l, ol, p); if (ol) { r.has_objs = true; r.objs = read_objs(ol); } r.imgs = read_imgs(l); for (auto& i : r.imgs.ch) if (i.type) r.has_imgs = true; r.props = read_props(p); without_left(r.props, old); return r; }
    int reply(const vector<Obj>& o, bool single) override { if (single && o.size() == 1) return one_reply(o); trax::ObjectList l = cpp_objs(o); Sending sd(log); return c->reply(l); }
};
Srv* new_srv(const Plan& p, Log* log, int in, int out) {
    trax_logging cb = log_to(log, p.s_log); Sending sd(log);
    if (!p.s_cpp) {
        auto s = new SrvC; s->log = log; s->v4 = p.v4();
        trax_metadata* m = trax_metadata_create(p.rformats, p.iformats, p.channels, p.has_name ? p.name.c_str() : nullptr, p.has_desc ? p.desc.c_str() : nullptr, p.has_family ? p.family.c_str() : nullptr, p.multi ? TRAX_METADATA_MULTI_OBJECT : 0);
        fill_props(m->custom, p.custom);
        int v = p.version == 4 && choose(W, 2) ? 0 : p.version;
        s->hd = p.s_setup == 0 ? trax_server_setup_file_v(m, in, out, cb, v) : trax_server_setup_v(m, cb, v);
        trax_metadata_release(&m); return s;
    }
    trax::Metadata m(p.rformats, p.iformats, p.channels, p.has_name ? p.name : "", p.has_desc ? p.desc : "", p.has_family ? p.family : "", p.multi ? TRAX_METADATA_MULTI_OBJECT : 0);
    for (auto& k : p.custom) m.set_custom(k.first, k.second);
    trax::Logging l(cb);
    if (p.v4()) { auto s = new SrvMot; s->log = log; s->c.reset(new Peek<trax::ServerMOT>(m, l)); return s; }
    auto s = new SrvSot; s->log = log; s->c.reset(new Peek<trax::ServerSOT>(m, l)); return s;
}

// ---------------------------------------------------------------- session
static const char* ALL = "C01,C02,C03,C04,C07,C08,C09,C10,C11,C17,C19,C20";
static bool list_has(const string& ids, const char* id) { return ids.find(id) != string::npos; }
#define FAILS(ids_, c, ...) PCHECK(ids_, c, __VA_ARGS__)

void Session::setup() {
    if (plan.socket) {
        port = 9090 + id;
        set_env(sp, "TRAX_SOCKET", std::to_string(port));
    } else {
        FileP r1, w1, r2, w2; make_pipe(r1, w1, cfg.pipe_cap); make_pipe(r2, w2, cfg.pipe_cap);
        w1->tx->tap = &c2s; w2->tx->tap = &s2c;
        c_out = install(cp, w1); c_in = install(cp, r2);
        if (plan.s_setup == 2) { s_in = install(sp, r1, 0); s_out = install(sp, w2, 1); }
        else { s_in = install(sp, r1); s_out = install(sp, w2); }
        if (plan.s_setup == 1) { set_env(sp, "TRAX_IN", std::to_string(s_in)); set_env(sp, "TRAX_OUT", std::to_string(s_out)); }
    }
}
void Session::emit_noise(Proc* p, int fd, const string& n, const string& tap, vector<std::pair<size_t, size_t>>& rec) {
    if (n.empty()) return;
    if (plan.socket) fd = find_sock(p);
    if (fd < 0) return;
    size_t b = tap.size(), d = 0; probe("noise emitted");
    while (d < n.size()) { long k = k_write(fd, n.data() + d, n.size() - d, plan.socket, MSG_NOSIGNAL); if (k < 0 && errno == EINTR) continue; if (k <= 0) harness_error("noise write failed"); d += k; }
    rec.push_back({b, tap.size()});
}
vector<string> wire_channels(const Imgs& i, int channels) { vector<string> a; for (int c = 0; c < 3; c++) if (channels & (1 << c)) a.push_back(wire_img(i.ch[c])); return a; }
static const char* imgs_diff(const Imgs& a, const Imgs& b, string& d) { for (int c = 0; c < 3; c++) if (!same(a.ch[c], b.ch[c])) { d = "channel " + std::to_string(c) + " sent " + show(a.ch[c]) + " received " + show(b.ch[c]); return d.c_str(); } return nullptr; }
static bool conv_ok(const Reg& sent, const Reg& got, int declared) {
    if (!(got.type & declared)) return false;
    double a[4], b[4]; bounds(sent, a[0], a[1], a[2], a[3]); bounds(got, b[0], b[1], b[2], b[3]);
    for (int i = 0; i < 4; i++) if (fabs(a[i] - b[i]) > 3.2 + fabs(a[i]) * 1e-4) return false;
    return true;
}
static bool reg_ok(const Reg& sent, const Reg& got, int declared) { return (sent.type & declared) ? same(sent, got) : conv_ok(sent, got, declared); }

void Session::client_main() {
    const Plan& p = plan; size_t mem0 = live_allocs(cp); uint64_t mark = alloc_mark(); int fds0 = live_fds(cp);
    int lfd = -1;
    if (p.socket) {
        if (!p.client_first) sleep_for(1 + (uint64_t)choose(S, 40) * 100 * MS);
        lfd = sim_socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port);
        CHECK(sim_bind(lfd, (struct sockaddr*)&a, sizeof a) == 0, "harness: bind");
    }
    {
    std::unique_ptr<Cli> c(new_cli(p, &clog, c_in, c_out, lfd)); c->reuse.on = plan.reuse;
    FAILS(ALL, c->ok(), "setup: %sclient setup failed for a well-formed tracker", lbl().c_str());
    // what the tracker declared
    trax_handle* hd = c->raw(); trax_metadata* m = hd->metadata; int val = -1;
    PCHECK("C11,C19,C01", m, "metadata: client has no metadata");
    SCHECK("C11,C19", hd->version == p.version, "declared-version: tracker declared version %d, client sees %d", p.version, hd->version);
    SCHECK("C11,C19", trax_get_parameter(hd, TRAX_PARAMETER_VERSION, &val) == 1 && val == p.version, "declared-version: version parameter %d instead of %d", val, p.version);
    SCHECK("C11,C19", m->format_region == p.rformats, "declared-regions: tracker declared %d, client sees %d", p.rformats, m->format_region);
    SCHECK("C11,C02,C19", m->format_image == p.iformats, "declared-images: tracker declared %d, client sees %d", p.iformats, m->format_image);
    SCHECK("C11,C02,C19", m->channels == p.channels, "declared-channels: tracker declared %d, client sees %d", p.channels, m->channels);
    bool mo = p.multi && p.v4();
    SCHECK("C11,C08,C19", ((m->flags & TRAX_METADATA_MULTI_OBJECT) != 0) == mo, "declared-multiobject: tracker declared %d, client sees flags %d", mo, m->flags);
    SCHECK("C11", trax_get_parameter(hd, TRAX_PARAMETER_MULTIOBJECT, &val) == 1 && val == (int)mo, "declared-multiobject: parameter is %d", val);
    SCHECK("C11", trax_get_parameter(hd, TRAX_PARAMETER_CLIENT, &val) == 1 && val == 1, "parameter-client: %d on the client", val);
    SCHECK("C11", trax_get_parameter(hd, TRAX_PARAMETER_SOCKET, &val) == 1 && val == (int)p.socket, "parameter-socket: %d, transport is %s", val, p.socket ? "socket" : "pipe");
    auto txt = [&](const char* what, bool has, const string& want, const char* got) {
        if (p.s_cpp && want.empty()) has = false;
        SCHECK("C11,C01,C19", has == (got != nullptr), "declared-%s: %s by the tracker, %s at the client", what, has ? "given" : "left out", got ? "given" : "missing");
        if (got) SCHECK("C11,C01,C19", want == got, "declared-%s: \"%s\" became \"%s\"", what, show(want).c_str(), show(got).c_str());
    };
    txt("name", p.has_name, p.name, m->tracker_name); txt("description", p.has_desc, p.desc, m->tracker_description); txt("family", p.has_family, p.family, m->tracker_family);
    Props cu = read_props(m->custom);
    SCHECK("C11,C01,C19", cu == p.custom, "declared-custom: %s became %s", show(p.custom).c_str(), show(cu).c_str());
    if (p.c_cpp) {
        PeekC* pc = ((CliCpp*)c.get())->c.get(); const trax::Metadata mm = pc->metadata();
        SCHECK("C11", mm.image_formats() == p.iformats && mm.region_formats() == p.rformats && mm.channels() == p.channels, "cpp-metadata: formats %d %d %d", mm.image_formats(), mm.region_formats(), mm.channels());
        SCHECK("C11", mm.tracker_name() == (p.has_name ? p.name : "") && mm.tracker_description() == (p.has_desc ? p.desc : "") && mm.tracker_family() == (p.has_family ? p.family : ""), "cpp-metadata: names differ");
        for (auto& k : p.custom) SCHECK("C11,C01", mm.get_custom(k.first) == k.second, "cpp-metadata: custom property %s is \"%s\"", k.first.c_str(), show(mm.get_custom(k.first)).c_str());
    }
    SCHECK(ALL, c->alive(), "alive: session not alive after setup");
    if (p.copies) c->copies(p.copies, &c2s);
    int tracked = 0; size_t nrecv = 1; bool over = false;
    for (size_t i = 0; i < p.steps.size() && !over; i++) {
        const Step& s = p.steps[i];
        if (s.delay_c) sleep_for(s.delay_c);
        for (int r : s.cref) c_refuse(c.get(), r, s, tracked);
        emit_noise(cp, c_out, s.noise_c, c2s, noise_c2s);
        // expectations first: the peer may see the message before the call returns
        bool re = p.v4() && s.kind == INIT && tracked > 0;
        size_t ne = ec2s.size();
        if (re) ec2s.push_back({TRAX_INITIALIZE, {}, {}, {}, {}});
        if (p.v4()) { for (auto& o : s.objs) { Expect e; e.type = TRAX_INITIALIZE; e.regs = {o.reg}; e.conv = {!(o.reg.type & p.rformats)}; e.props = o.props; ec2s.push_back(e); } ec2s.push_back({TRAX_FRAME, wire_channels(s.imgs, p.channels), {}, {}, s.props}); }
        else if (s.kind == INIT) { Expect e; e.type = TRAX_INITIALIZE; e.args = wire_channels(s.imgs, p.channels); e.regs = {s.objs[0].reg}; e.conv = {!(s.objs[0].reg.type & p.rformats)}; e.props = s.props; ec2s.push_back(e); }
        else ec2s.push_back({TRAX_FRAME, wire_channels(s.imgs, p.channels), {}, {}, s.props});
        tracked = s.kind == INIT ? (int)s.objs.size() : tracked + (int)s.objs.size();
        int code = s.kind == INIT ? c->init(s, s.objs, s.imgs) : c->frame(s, s.objs, s.imgs);
        (void)ne;
        FAILS(ALL, code == TRAX_OK, "send: %sa correct %s call failed with code %d (%s)", lbl().c_str(), s.kind == INIT ? "initialize" : "frame", code, c->error().c_str());
        for (int r : s.cref_wait) c_refuse(c.get(), r, s, tracked);
        Result r = c->wait(s.w_single && tracked == 1);
        bool last = i + 1 == p.steps.size();
        if (last && (p.end == END_SERVER_REASON || p.end == END_SERVER_RELEASE)) {
            FAILS("C10,C01,C07,C17,C20", r.code == TRAX_QUIT, "quit: the server ended the session, client wait returned %d (%s)", r.code, tname(r.code));
            Props want; if (p.end == END_SERVER_REASON) want["trax.reason"] = p.reason;
            SCHECK("C10,C01", r.unread || r.props == want, "quit-reason: sent %s received %s", show(want).c_str(), show(r.props).c_str());
            SCHECK("C10,C06", !r.has_objs || r.objs.empty(), "quit-objects: objects returned with the end of the session");
            nrecv++; over = true;
            c_dead(c.get(), "after quit was received");
        } else {
            FAILS(ALL, r.code == TRAX_STATE, "wait: %sclient wait returned %d (%s) instead of a state (%s)", lbl().c_str(), r.code, tname(r.code), c->error().c_str());
            PCHECK("C08,C03,C19", r.objs.size() == s.reply.size(), "state-count: %d objects are tracked, the wait returned %zu states", tracked, r.objs.size());
            for (size_t k = 0; k < s.reply.size(); k++) {
                SCHECK("C03,C08,C01,C19,C04,C09", same(s.reply[k].reg, r.objs[k].reg), "state-region: object %zu of %zu: sent %s received %s", k, s.reply.size(), show(s.reply[k].reg).c_str(), show(r.objs[k].reg).c_str());
                SCHECK("C01,C03,C08,C19,C04,C09", s.reply[k].props == r.objs[k].props, "state-properties: object %zu of %zu: sent %s received %s", k, s.reply.size(), show(s.reply[k].props).c_str(), show(r.objs[k].props).c_str());
            }
            nrecv += s.reply.size();
        }
        if (p.c_log) {
            vector<Msg> ms = wire_decode(s2c); size_t e = nrecv <= ms.size() ? ms[nrecv - 1].end : 0;
            SCHECK("C17", e && clog.recv == s2c.substr(0, e), "log-received: %zu bytes logged of the %zu received (%zu messages)", clog.recv.size(), e, nrecv);
        }
        state(mix(mix(tracked, i), r.code));
    }
    if (!over) {
        emit_noise(cp, c_out, p.noise_end_c, c2s, noise_c2s);
        if (p.end == END_BOTH || p.end == END_CLIENT_REASON) {
            Props want; want["trax.reason"] = p.reason;
            ec2s.push_back({TRAX_QUIT, {}, {}, {}, want});
            int code = c->terminate(&p.reason);
            SCHECK(ALL, code == TRAX_OK, "terminate: client terminate failed with %d", code);
            c_dead(c.get(), "after terminate");
            c_ended = 1; block("wait for the server to end", [&] { return s_ended != 0; });
        } else {
            ec2s.push_back({TRAX_QUIT, {}, {}, {}, Props()});
        }
    } else c_ended = 1;
    if (over) block("wait for the server to end", [&] { return s_ended != 0; });
    size_t b = c2s.size();
    if (over || p.end == END_BOTH || p.end == END_CLIENT_REASON) { c->release(); SCHECK("C10", c2s.size() == b, "second-quit: releasing an ended client session sent %zu more bytes", c2s.size() - b); }
    else { c->release(); c_ended = 1; }
    c.reset();
    block("wait for the server to finish", [&] { return s_done != 0; });
    }
    if (lfd >= 0) k_close(lfd);
    if (leakcheck && relevant("C20,C16")) {
        SCHECK("C20", live_fds(cp) == fds0, "descriptor-leak: client side has %d more descriptors open after the session", live_fds(cp) - fds0);
        SCHECK("C20", live_allocs(cp) == mem0, "memory-leak: client side: allocated in %s", first_alloc_site(cp, mark).c_str());
    }
    c_done = 1;
}

void Session::server_main() {
    const Plan& p = plan; size_t mem0 = live_allocs(sp); uint64_t mark = alloc_mark(); int fds0 = live_fds(sp);
    emit_noise(sp, s_out, p.noise_hello, s2c, noise_s2c);
    {
    if (p.socket && p.client_first) sleep_for(1 + (uint64_t)choose(S, 40) * 100 * MS);
    es2c.push_back({TRAX_HELLO, {}, {}, {}, p.custom});
    std::unique_ptr<Srv> s(new_srv(p, &slog, s_in, s_out)); s->reuse.on = plan.reuse;
    FAILS(ALL, s->ok(), "setup: %sserver setup failed", lbl().c_str());
    int tracked = 0; bool over = false; size_t nrecv = 0;
    for (size_t i = 0; i <= p.steps.size() && !over; i++) {
        bool fin = i == p.steps.size(); static const Step none; const Step& st = fin ? none : p.steps[i];
        for (int r : st.sref) s_refuse(s.get(), r, tracked);
        if (fin && p.end == END_BOTH) break;
        Result r = s->wait(st.s_single);
        if (fin) {
            FAILS("C10,C01,C07,C17,C20,C19", r.code == TRAX_QUIT, "quit: %sthe client ended the session, server wait returned %d (%s)", lbl().c_str(), r.code, tname(r.code));
            Props want; if (p.end == END_CLIENT_REASON) want["trax.reason"] = p.reason;
            SCHECK("C10,C01", r.unread || r.props == want, "quit-reason: sent %s received %s", show(want).c_str(), show(r.props).c_str());
            SCHECK("C10,C06", !r.has_imgs && (!r.has_objs || r.objs.empty()), "quit-objects: images or objects returned with the end of the session");
            nrecv++; over = true;
            s_dead(s.get(), "after quit was received");
        } else {
            int want = st.kind == INIT ? TRAX_INITIALIZE : TRAX_FRAME;
            FAILS(ALL, r.code == want, "wait: %sserver wait returned %d (%s) instead of %s (%s)", lbl().c_str(), r.code, tname(r.code), tname(want), s->error().c_str());
            string d;
            SCHECK("C02,C01,C19,C04,C09", !imgs_diff(st.imgs, r.imgs, d), "image: %s", d.c_str());
            Props wp = st.props; if (st.s_single && p.s_cpp && p.v4() && st.objs.size() == 1) for (auto& k : st.objs[0].props) if (!wp.count(k.first)) wp[k.first] = k.second;
            SCHECK("C01,C19,C04,C09", r.unread || r.props == wp, "properties: sent %s received %s", show(wp).c_str(), show(r.props).c_str());
            PCHECK("C03,C08,C09,C19", r.objs.size() == st.objs.size(), "object-count: %zu objects sent, %zu received", st.objs.size(), r.objs.size());
            for (size_t k = 0; k < st.objs.size(); k++) {
                bool cv = !(st.objs[k].reg.type & p.rformats);
                SCHECK(cv ? "C11" : "C03,C01,C08,C19,C04,C09,C11", reg_ok(st.objs[k].reg, r.objs[k].reg, p.rformats), "%s: object %zu of %zu: sent %s received %s (declared %d)", cv ? "converted-region" : "region", k, st.objs.size(), show(st.objs[k].reg).c_str(), show(r.objs[k].reg).c_str(), p.rformats);
                if (p.v4() && !(p.s_cpp && st.s_single)) SCHECK("C03,C01,C08,C19", r.objs[k].props == st.objs[k].props, "object-properties: object %zu of %zu: sent %s received %s", k, st.objs.size(), show(st.objs[k].props).c_str(), show(r.objs[k].props).c_str());
            }
            nrecv += p.v4() ? st.objs.size() + 1 + (st.kind == INIT && tracked > 0) : 1;
            tracked = st.kind == INIT ? (int)st.objs.size() : tracked + (int)st.objs.size();
            if (p.copies && i == 0) s->copies(p.copies, &s2c);
        }
        if (p.s_log) {
            vector<Msg> ms = wire_decode(c2s); size_t e = nrecv <= ms.size() ? ms[nrecv - 1].end : 0;
            SCHECK("C17", e && slog.recv == c2s.substr(0, e), "log-received: %zu bytes logged of the %zu received by the server (%zu messages)", slog.recv.size(), e, nrecv);
        }
        if (fin) break;
        if (st.delay_s) sleep_for(st.delay_s);
        for (int r2 : st.sref_reply) s_refuse(s.get(), r2, tracked);
        emit_noise(sp, s_out, st.noise_s, s2c, noise_s2c);
        bool last = i + 1 == p.steps.size();
        if (last && (p.end == END_SERVER_REASON || p.end == END_SERVER_RELEASE)) {
            Props want; if (p.end == END_SERVER_REASON) want["trax.reason"] = p.reason;
            es2c.push_back({TRAX_QUIT, {}, {}, {}, want});
            if (p.end == END_SERVER_REASON) { int code = s->terminate(&p.reason); SCHECK(ALL, code == TRAX_OK, "terminate: server terminate failed with %d", code); s_dead(s.get(), "after terminate"); }
            over = true; break;
        }
        for (auto& o : st.reply) { Expect e; e.type = TRAX_STATE; e.regs = {o.reg}; e.conv = {false}; e.props = o.props; es2c.push_back(e); }
        int code = s->reply(st.reply, st.r_single);
        FAILS(ALL, code == TRAX_OK, "reply: %sa correct reply failed with %d (%s)", lbl().c_str(), code, s->error().c_str());
    }
    bool sent = over && !(p.end == END_CLIENT_REASON || p.end == END_CLIENT_RELEASE);
    if (!over) {            // both sides end the session
        emit_noise(sp, s_out, p.noise_end_s, s2c, noise_s2c);
        Props want; want["trax.reason"] = p.reason; es2c.push_back({TRAX_QUIT, {}, {}, {}, want});
        int code = s->terminate(&p.reason); SCHECK(ALL, code == TRAX_OK, "terminate: server terminate failed with %d", code);
        s_dead(s.get(), "after terminate");
        s_ended = 1; block("wait for the client to end", [&] { return c_ended != 0; });
    }
    size_t b = s2c.size();
    if (sent && p.end == END_SERVER_RELEASE) s->release();
    else { s->release(); SCHECK("C10", s2c.size() == b, "second-quit: releasing an ended server session sent %zu more bytes", s2c.size() - b); }
    s_ended = 1;
    }
    if (leakcheck && relevant("C20")) {
        SCHECK("C20", live_fds(sp) == fds0, "descriptor-leak: server side has %d more descriptors open after the session", live_fds(sp) - fds0);
        SCHECK("C20", live_allocs(sp) == mem0, "memory-leak: server side: allocated in %s", first_alloc_site(sp, mark).c_str());
    }
    s_done = 1;
}

// ---------------------------------------------------------------- refused calls
void Session::c_refuse(Cli* c, int r, const Step& st, int tracked) {
    const Plan& p = plan; Imgs im = st.imgs; vector<Obj> o = st.objs; int code = 99; size_t b1 = c2s.size(), rl = clog.recv.size(), sl = clog.sent.size();
    Obj extra; extra.reg.type = TRAX_REGION_RECTANGLE; extra.reg.r[2] = extra.reg.r[3] = 5;
    bool single = !(p.v4() && p.multi);
    Step s2 = st; s2.c_single = false; const char* what = "";
    switch (r) {
    case C_INIT_NONE: o.clear(); what = "initialize without objects"; code = c->init(s2, o, im); break;
    case C_INIT_NOIMG: { for (int k = 0; k < 3; k++) if ((p.channels >> k & 1) && (choose(W, 2) || !(p.channels >> (k + 1)))) { im.ch[k] = Img(); break; } if (o.empty()) o.push_back(extra); what = "initialize without a required image"; code = c->init(s2, o, im); break; }
    case C_INIT_MANY: if (!single) return; { size_t n = 2 + choose(W, 3); while (o.size() < n) o.push_back(extra); } what = "initialize of a single-object tracker with several objects"; code = c->init(s2, o, im); break;
    case C_FRAME_ADD: if (!single || tracked < 1) return; { size_t n = 1 + choose(W, 2); while (o.size() < n) o.push_back(extra); } what = "adding objects to a single-object session"; code = c->frame(s2, o, im); break;
    case C_FRAME_NOIMG: if (tracked < 1) return; for (int k = 0; k < 3; k++) if ((p.channels >> k & 1) && (choose(W, 2) || !(p.channels >> (k + 1)))) { im.ch[k] = Img(); break; } { vector<Obj> none; if (!single && choose(W, 2)) none.push_back(extra); what = "frame without a required image"; code = c->frame(s2, none, im); } break;
    case C_WAIT_EARLY: if (tracked > 0) return; what = "wait without objects"; { Result w = c->wait(choose(W, 2)); code = w.code; } break;
    }
    probe(what);
    PCHECK("C09,C11,C08", code == TRAX_ERROR, "not-refused: %s returned %d", what, code);
    SCHECK("C09,C08", c2s.size() == b1, "refused-sent: %s was refused but sent %zu bytes", what, c2s.size() - b1);
    SCHECK("C09,C17", clog.recv.size() == rl && clog.sent.size() == sl, "refused-io: %s was refused but used the transport", what);
    SCHECK("C09", c->alive(), "refused-ended: %s ended the session", what);
    SCHECK("C09", !c->error().empty(), "refused-silent: %s gave no error text", what);
}
void Session::s_refuse(Srv* s, int r, int tracked) {
    const Plan& p = plan; size_t b1 = s2c.size(), rl = slog.recv.size(); int code = 99; const char* what = "";
    Obj extra; extra.reg.type = TRAX_REGION_RECTANGLE; extra.reg.r[2] = extra.reg.r[3] = 5;
    switch (r) {
    case S_REPLY_COUNT: {
        if (p.version < 4 && p.s_cpp) return;
        int n = choose(W, 3) == 2 ? 0 : choose(W, 2) ? tracked + 1 + (int)choose(W, 3) : tracked - 1; if (n < 0 || n == tracked) n = tracked + 1; if (!p.v4() && n < 2) n = 2;
        vector<Obj> o(n, extra); what = "reply with a wrong number of states";
        if (p.v4()) code = s->reply(o, false); else { trax_object_list* l = make_objs(o); code = trax_server_reply_mot(s->raw(), l); trax_object_list_release(&l); }
        break; }
    case S_REPLY_MODE: { if (!p.v4()) return; what = "single-object reply in a multi-object protocol session"; trax_region* g = make_reg(extra.reg); code = trax_server_reply_sot(s->raw(), g, nullptr); trax_region_release(&g); break; }
    case S_WAIT_MODE: {
        trax_image_list* l = nullptr; trax_properties* pr = trax_properties_create(); what = "wait for the other session mode";
        if (p.v4()) { trax_region* g = nullptr; code = trax_server_wait_sot(s->raw(), &l, &g, pr); SCHECK("C09", !g && !l, "refused-result: results returned by a refused wait"); }
        else { trax_object_list* o = nullptr; code = trax_server_wait_mot(s->raw(), &l, &o, pr); SCHECK("C09", !o && !l, "refused-result: results returned by a refused wait"); }
        trax_properties_release(&pr); break; }
    }
    probe(what);
    PCHECK("C09,C08", code == TRAX_ERROR, "not-refused: %s returned %d (%d objects tracked)", what, code, tracked);
    SCHECK("C09,C08", s2c.size() == b1, "refused-sent: %s was refused but sent %zu bytes", what, s2c.size() - b1);
    SCHECK("C09", slog.recv.size() == rl, "refused-io: %s was refused but read from the transport", what);
    SCHECK("C09", s->alive(), "refused-ended: %s ended the session", what);
}
// every call on an ended session fails or does nothing
void Session::c_dead(Cli* c, const char* when) {
    if (!relevant("C10")) return;
    size_t b = c2s.size(), rl = clog.recv.size(); Step some; if (plan.steps.empty()) { some.imgs = gen_imgs(plan.channels, plan.iformats, 0); Obj o; o.reg.type = TRAX_REGION_RECTANGLE; some.objs.push_back(o); } const Step& s = plan.steps.empty() ? some : plan.steps[0]; bool was = !c->alive(); uint64_t t0 = now();
    CHECK(was, "still-alive: client session is alive %s", when);
    int n = 1 + choose(W, 4);
    for (int k = 0; k < n; k++) {
        int code = 0; const char* w = "";
        switch (choose(W, 5)) {
        case 0: w = "wait"; code = c->wait(choose(W, 2)).code; break;
        case 1: w = "initialize"; code = c->init(s, s.objs, s.imgs); break;
        case 2: w = "frame"; code = c->frame(s, {}, s.imgs); break;
        case 3: w = "terminate"; { string x = "again"; c->terminate(&x); code = TRAX_ERROR; } break;
        case 4: { int v = 77; w = "get parameter"; code = trax_get_parameter(c->raw(), TRAX_PARAMETER_VERSION, &v) == TRAX_ERROR ? TRAX_ERROR : 0; break; }
        }
        CHECK(code == TRAX_ERROR, "ended-accepted: %s on a client session %s returned %d", w, when, code);
        CHECK(c2s.size() == b, "ended-sent: %s on a client session %s sent %zu bytes", w, when, c2s.size() - b);
        CHECK(clog.recv.size() == rl, "ended-read: %s on a client session %s read from the transport", w, when);
        CHECK(!c->alive(), "revived: client session is alive again %s", when);
    }
    (void)t0;
}
void Session::s_dead(Srv* s, const char* when) {
    if (!relevant("C10")) return;
    size_t b = s2c.size(), rl = slog.recv.size();
    CHECK(!s->alive(), "still-alive: server session is alive %s", when);
    int n = 1 + choose(W, 4);
    for (int k = 0; k < n; k++) {
        int code = 0; const char* w = "";
        switch (choose(W, 4)) {
        case 0: w = "wait"; code = s->wait(choose(W, 2)).code; break;
        case 1: w = "reply"; { size_t nn = plan.steps.empty() ? 0 : plan.steps.back().reply.size(); Obj o; o.reg.type = TRAX_REGION_RECTANGLE; code = s->reply(vector<Obj>(nn ? nn : 1, o), choose(W, 2)); } break;
        case 2: w = "terminate"; { string x = "again"; s->terminate(&x); code = TRAX_ERROR; } break;
        case 3: { int v = 77; w = "get parameter"; code = trax_get_parameter(s->raw(), TRAX_PARAMETER_VERSION, &v) == TRAX_ERROR ? TRAX_ERROR : 0; break; }
        }
        CHECK(code == TRAX_ERROR, "ended-accepted: %s on a server session %s returned %d", w, when, code);
        CHECK(s2c.size() == b, "ended-sent: %s on a server session %s sent %zu bytes", w, when, s2c.size() - b);
        CHECK(slog.recv.size() == rl, "ended-read: %s on a server session %s read from the transport", w, when);
        CHECK(!s->alive(), "revived: server session is alive again %s", when);
    }
}

// ---------------------------------------------------------------- the wire as the reference codec sees it
bool parse_reg(const string& s, Reg& r) {
    bool mask = s.compare(0, 5, "mask:") == 0; vector<double> v; const char* q = s.c_str() + (mask ? 5 : 0);
    while (*q) { char* e; double d = strtod(q, &e); if (e == q) return false; v.push_back(d); q = e; if (*q == ',') q++; else if (*q) return false; }
    if (mask) {
        if (v.size() < 4) return false; r.type = TRAX_REGION_MASK; r.mx = (int)v[0]; r.my = (int)v[1]; r.mw = (int)v[2]; r.mh = (int)v[3]; if (r.mw < 1 || r.mh < 1) return false;
        char b = 0; size_t n = (size_t)r.mw * r.mh; for (size_t i = 4; i < v.size(); i++) { r.bits.append((size_t)v[i], b); b = !b; } if (r.bits.size() > n) return false; r.bits.resize(n, 0); return true;
    }
    if (v.size() == 1) { r.type = TRAX_REGION_SPECIAL; r.code = (int)v[0]; return true; }
    if (v.size() == 4) { r.type = TRAX_REGION_RECTANGLE; for (int i = 0; i < 4; i++) r.r[i] = (float)v[i]; return true; }
    if (v.size() >= 6 && v.size() % 2 == 0) { r.type = TRAX_REGION_POLYGON; for (double d : v) r.xy.push_back((float)d); return true; }
    return false;
}
static std::set<string> tokens(const string& s) { std::set<string> o; string c; for (char ch : s + ";") if (ch == ';' || ch == ' ') { if (!c.empty()) o.insert(c); c.clear(); } else c += ch; return o; }
void Session::check_tap(const string& tap, const vector<Expect>& ex, bool s2c_dir) {
    size_t rest = 0; vector<Msg> m = wire_decode(tap, &rest); const char* side = s2c_dir ? "server" : "client";
    SCHECK("C01,C07,C10", rest == tap.size(), "wire-unfinished: the %s left an unfinished line of %zu bytes on the transport", side, tap.size() - rest);
    for (size_t i = 0; i < m.size() && i < ex.size(); i++) {
        const Msg& a = m[i]; const Expect& e = ex[i];
        PCHECK("C01,C07,C08,C10,C11,C09", a.type == e.type, "wire-type: message %zu of the %s is %s instead of %s", i, side, tname(a.type), tname(e.type));
        Props pr = a.props;
        if (a.type == TRAX_HELLO) {
            std::set<string> rf, im, ch; if (plan.rformats & 2) rf.insert("rectangle"); if (plan.rformats & 4) rf.insert("polygon"); if (plan.rformats & 8) rf.insert("mask");
            if (plan.iformats & 1) im.insert("path"); if (plan.iformats & 2) im.insert("url"); if (plan.iformats & 4) im.insert("memory"); if (plan.iformats & 8) im.insert("data");
            if (plan.channels & 1) ch.insert("color"); if (plan.channels & 2) ch.insert("depth"); if (plan.channels & 4) ch.insert("ir");
            SCHECK("C11", atoi(pr["trax.version"].c_str()) == plan.version, "wire-hello: version %s", pr["trax.version"].c_str());
            SCHECK("C11", tokens(pr["trax.region"]) == rf, "wire-hello: regions \"%s\" for %d", pr["trax.region"].c_str(), plan.rformats);
            auto ti = tokens(pr["trax.image"]); if (ti.erase("buffer")) ti.insert("data");
            SCHECK("C11", ti == im, "wire-hello: images \"%s\" for %d", pr["trax.image"].c_str(), plan.iformats);
            if (plan.version >= 2) SCHECK("C11", tokens(pr["trax.channels"]) == ch, "wire-hello: channels \"%s\" for %d", pr["trax.channels"].c_str(), plan.channels);
            for (auto k = pr.begin(); k != pr.end();) if (trunc_key(k->first)) k = pr.erase(k); else ++k;
        }
        SCHECK("C01,C03,C07,C11", pr == e.props, "wire-properties: message %zu (%s) of the %s carries %s instead of %s", i, tname(a.type), side, show(pr).c_str(), show(e.props).c_str());
        SCHECK("C01,C02,C03,C07,C11", a.args.size() == e.args.size() + e.regs.size(), "wire-arguments: message %zu (%s) of the %s has %zu arguments instead of %zu", i, tname(a.type), side, a.args.size(), e.args.size() + e.regs.size());
        for (size_t k = 0; k < e.args.size() && k < a.args.size(); k++) SCHECK("C02,C01,C07,C11", a.args[k] == e.args[k], "wire-image: message %zu of the %s: image %zu is \"%s\" instead of \"%s\"", i, side, k, show(a.args[k]).c_str(), show(e.args[k]).c_str());
        for (size_t k = 0; k < e.regs.size() && e.args.size() + k < a.args.size(); k++) {
            Reg g; bool ok = parse_reg(a.args[e.args.size() + k], g);
            if (e.conv[k]) SCHECK("C11", ok && conv_ok(e.regs[k], g, plan.rformats), "wire-converted: message %zu of the %s: %s was sent as \"%s\" to a tracker that declared %d", i, side, show(e.regs[k]).c_str(), show(a.args[e.args.size() + k]).c_str(), plan.rformats);
            else SCHECK("C03,C07,C11", ok && same(e.regs[k], g), "wire-region: message %zu of the %s: %s was sent as \"%s\"", i, side, show(e.regs[k]).c_str(), show(a.args[e.args.size() + k]).c_str());
        }
    }
    SCHECK("C01,C07,C08,C09,C10,C11", m.size() == ex.size(), "wire-count: the %s put %zu messages on the transport instead of %zu", side, m.size(), ex.size());
    size_t q = 0; for (auto& x : m) q += x.type == TRAX_QUIT; size_t qe = 0; for (auto& x : ex) qe += x.type == TRAX_QUIT;
    SCHECK("C10", q == qe, "quit-count: the %s sent %zu quit messages instead of %zu", side, q, qe);
}
void Session::finish() {
    FAILS(ALL, c_done && s_done, "stuck: %sthe session did not come to its end (client %d, server %d)", lbl().c_str(), c_done, s_done);
    check_tap(c2s, ec2s, false); check_tap(s2c, es2c, true);
    auto clean = [](const string& t, const vector<std::pair<size_t, size_t>>& n) { string o; size_t b = 0; for (auto& r : n) { o += t.substr(b, r.first - b); b = r.second; } return o + t.substr(b); };
    if (plan.c_log) SCHECK("C17", clog.sent == clean(c2s, noise_c2s), "log-sent: the client's log has %zu bytes for %zu bytes sent", clog.sent.size(), c2s.size());
    if (plan.s_log) SCHECK("C17", slog.sent == clean(s2c, noise_s2c), "log-sent: the server's log has %zu bytes for %zu bytes sent", slog.sent.size(), s2c.size());
}
}
