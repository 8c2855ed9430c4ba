// Engine B: one real side of the protocol against a scripted peer that sends any bytes and may vanish at any byte.
#include "session.h"
#include "shm.h"
#include <signal.h>
#include <sys/socket.h>
#include <netinet/in.h>
extern "C" { int sim_bind(int, const struct sockaddr*, socklen_t); int sim_shutdown(int, int); int sim_accept(int, struct sockaddr*, socklen_t*); int sim_listen(int, int); }

namespace h {
struct Item { Msg m; string bytes; bool bad = false; const char* what = ""; Imgs imgs; Reg reg; bool has_reg = false; size_t end = 0; };
struct Peer {
    Plan p; bool client;             // the real side is a client
    vector<Item> items; string stream; size_t cut = string::npos; bool exact = true; size_t complete = 0;
    int end = 0;                     // 0 close writing end, 1 close both, 2 reset, 3 die
    int64_t drain_limit = -1; uint64_t drain_delay = 0; bool drain_stops = false;
    string out;                      // everything the real side put on the transport
    Proc *rp, *pp; int r_in = -1, r_out = -1, lfd = -1, p_in = -1, p_out = -1; Log log;
    bool stop_drain = false; int real_done = 0; bool quiet = false; bool delays = false;
    void setup();
    void peer_main();
    void drain_main();
    bool ready() const { return p_out >= 0; }
};
void Peer::setup() {
    rp = new_proc(client ? "client" : "server"); pp = new_proc("peer"); rp->sig[SIGPIPE].kind = 1;
    connect_hook = [this](File* a, File* b) { (client ? b : a)->tx->tap = &out; };
    if (p.socket) { if (!client) set_env(rp, "TRAX_SOCKET", "9090"); }
    else {
        FileP r1, w1, r2, w2; make_pipe(r1, w1, cfg.pipe_cap); make_pipe(r2, w2, cfg.pipe_cap);
        w1->tx->tap = &out; r_out = install(rp, w1); p_in = install(pp, r1); r_in = install(rp, r2); p_out = install(pp, w2);
        if (!client && p.s_setup == 1) { set_env(rp, "TRAX_IN", std::to_string(r_in)); set_env(rp, "TRAX_OUT", std::to_string(r_out)); }
    }
    new_task(pp, "peer", [this] { peer_main(); });
    new_task(pp, "drain", [this] { drain_main(); }, true);
}
void Peer::peer_main() {
    if (p.socket) {
        int fd = sim_socket(AF_INET, SOCK_STREAM, 0);
        if (client) { while (k_connect(fd, 9090) < 0) { if (errno == EISCONN) break; sleep_for(50 * MS); } p_in = p_out = fd; }
        else {
            struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(9090); sim_bind(fd, (struct sockaddr*)&a, sizeof a);
            sim_listen(fd, 1); int c; while ((c = sim_accept(fd, nullptr, nullptr)) < 0) {} k_close(fd); p_in = p_out = c;
        }
    }
    size_t n = std::min(cut, stream.size()), d = 0;
    while (d < n) {
        size_t len = std::min<size_t>(n - d, 1 + choose(S, choose(S, 2) ? 40 : 4000));
        long k = k_write(p_out, stream.data() + d, len, p.socket, MSG_NOSIGNAL);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) break;             // the real side has gone
        d += k;
        if (delays && choose(S, 6) == 5) sleep_for(choose(S, 30) * 10 * MS);
    }
    if (quiet) { block("wait for the real side", [this] { return real_done != 0; }); }
    if (delays) sleep_for(choose(S, 20) * 20 * MS);
    if (end == 3) { fault("peer killed"); kill_proc(pp, SIGKILL); return; }
    stop_drain = stop_drain || end != 0;
    if (p.socket) {
        if (end == 0) { fault("half close"); sim_shutdown(p_out, SHUT_WR); }
        else { FileP f = pp->fds.count(p_out) ? pp->fds[p_out].f : nullptr; if (end == 2 && f && f->tx) { f->tx->reset = true; fault("connection reset"); } else fault("close"); f.reset(); k_close(p_out); }
    } else { fault(end == 0 ? "half close" : "close"); k_close(p_out); if (end) k_close(p_in); }
    block("wait for the real side", [this] { return real_done != 0; });
}
void Peer::drain_main() {
    block("connection", [this] { return p_in >= 0; });
    char b[4096]; int64_t got = 0;
    FileP f = pp->fds.count(p_in) ? pp->fds[p_in].f : nullptr; std::shared_ptr<Pipe> q = f ? f->rx : nullptr; if (!q) return;
    f.reset();
    while (!stop_drain) {
        block("drain", [&] { return stop_drain || !q->data.empty() || q->writers == 0; });
        if (stop_drain) break;
        size_t want = drain_limit < 0 ? sizeof b : (size_t)std::min<int64_t>(sizeof b, drain_limit - got);
        if (drain_limit >= 0 && want == 0) break;
        if (drain_delay && choose(S, 3) == 2) sleep_for(1 + choose(S, 20) * drain_delay / 20);
        long k = k_read(p_in, b, want, p.socket, 0);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) break;
        got += k;
    }
    drain_stops = true;
}

// ---------------------------------------------------------------- streams
static Props mprops(int sc) { return gen_props(4, sc); }
static Item make(int type, const vector<string>& args, const Props& pr, Rng* st) { Item i; i.m.type = type; i.m.args = args; i.m.props = pr; i.bytes = wire_encode(type, args, pr, st); return i; }
static const char* bad_images[] = {"image:3;3;rgb;AAAA", "image:2;2;foo;AAAA", "image:-1;2;gray8;AAAA", "image:2;1;gray8;AAAA", "image:x", "image:", "data:image/gif;AAAA", "data:image/png;A", "data:image/png;", "data:image/png;!!!!", "data:;", "data:", "image:1;3;gray8;AA=A", "image:1;3;gray8;AAA", "image:99999;99999;rgb;AAAA", "image:65536;65536;gray8;AAAA", "data:image/jpeg", "image:3;1;gray8", "image:3;1;gray8;", "image:1;1;gray8;AAAA", "image:0;0;gray8;", "data:image/pngimage/pngimage/pngimage/png;AAAA"};
static const char* bad_regions[] = {"1,2,3", "1,2,3,4,5", "1,2,3,4,5,6,7", "mask:1,2,3", "mask:0,0,0,5", "mask:0,0,-3,5", "mask:0,0,5,0", "", "1,2", "mask:0,0,100000,100000", "mask:0,0,2147483647,2147483647,3", "mask:", "mask:0,0,1,-1"};
// images and regions nobody can decode, made from every part of a good one
static string word(const char* al, int max) { string s; int n = choose(W, max + 1); for (int k = 0; k < n; k++) s += al[choose(W, (uint32_t)strlen(al))]; return s; }
static string bad_image() {
    static const char* lo = "abcdefghijklmnopqrstuvwxyz0123456789/+-.";
    Img g = gen_img(choose(W, 2) ? TRAX_IMAGE_MEMORY : TRAX_IMAGE_BUFFER, 0); bool mem = g.type == TRAX_IMAGE_MEMORY; if (mem) { g.w = 1 + choose(W, 6); g.h = 1 + choose(W, 6); }
    static const char* fm[] = {"", "rgb", "gray8", "gray16"}; static const int px[] = {0, 3, 1, 2};
    string w = std::to_string(g.w), hh = std::to_string(g.h), f = mem ? fm[g.fmt] : g.fmt == TRAX_IMAGE_BUFFER_JPEG ? "image/jpeg" : "image/png", d = mem ? string((size_t)g.w * g.h * px[g.fmt], 'p') : g.data, e;
    uint32_t c = choose(W, 8); e = b64(d);
    switch (c) {
    case 0: { string x = choose(W, 3) ? word(lo, 24) : string(f).insert(choose(W, (uint32_t)f.size() + 1), 1, "xX1 "[choose(W, 4)]); if (x == "rgb" || x == "gray8" || x == "gray16" || x == "image/png" || x == "image/jpeg" || x == "image/jpg") x += "?"; f = x; break; }
    case 1: if (mem) { int k = 1 + choose(W, 4); if (choose(W, 2) && d.size() > (size_t)k) d.resize(d.size() - k); else d.append(k, 'q'); e = b64(d); } else e = ""; break;
    case 2: { size_t k = choose(W, (uint32_t)e.size()); while (k && e[k] == '=') k--; e[k] = "!@#$%^&*()-_.,:~?<>|\x7f\x80\xff"[choose(W, 23)]; break; }
    case 3: { int k = 1 + choose(W, 3); if (e.size() > (size_t)k && choose(W, 2)) e.resize(e.size() - k); else e.append(k, 'A'); if (e.size() % 4 == 0) e += "A"; break; }
    case 4: if (mem) { static const char* z[] = {"0", "-1", "-2147483648", "", "x", "99999", "2147483647", "4294967297", "1e1"}; (choose(W, 2) ? w : hh) = z[choose(W, 9)]; } else e = ""; break;
    case 5: if (mem) { if (choose(W, 2)) return "image:" + w + ";" + hh + ";" + f; return "image:" + w + ";" + f + ";" + e; } return "data:" + f;
    case 6: if (mem) { g.w += 1 + choose(W, 3); w = std::to_string(g.w); } else { f = ""; } break;
    default: return bad_images[choose(W, 22)];
    }
    return mem ? "image:" + w + ";" + hh + ";" + f + ";" + e : "data:" + f + ";" + e;
}
static string bad_region() {
    auto n = [] { return choose(W, 3) == 2 ? std::to_string((int)choose(W, 2000) - 1000) : std::to_string(choose(W, 3000) / 10.0); };
    switch (choose(W, 4)) {
    case 0: { static const int cnt[] = {2, 3, 5, 7, 9, 11, 21, 101}; int k = cnt[choose(W, 8)]; string s; for (int i = 0; i < k; i++) s += (i ? "," : "") + n(); return s; }
    case 1: { int k = 1 + choose(W, 3); string s = "mask:"; for (int i = 0; i < k; i++) s += (i ? "," : "") + n(); return s; }
    case 2: { static const char* z[] = {"0", "-1", "-77", "0.5", "3000000000", "65536", "-2147483648"}; string a = z[choose(W, 7)], b = a == "65536" ? a : choose(W, 2) ? "5" : a; if (choose(W, 2)) std::swap(a, b); string s = "mask:" + n() + "," + n() + "," + a + "," + b; if (choose(W, 2)) s += ",3,2"; return s; }
    default: return bad_regions[choose(W, 13)];
    }
}
static string some_region(const Plan& p) { return wire_reg(gen_reg(p.rformats, false)); }
// a malformed or out-of-place message for the real side
static Item bad_item(const Plan& p, bool to_client, Rng* st) {
    int type = 0; vector<string> a; const char* what = "";
    vector<string> imgs = wire_channels(gen_imgs(p.channels, p.iformats, 0), p.channels);
    if (to_client) {
        switch (choose(W, 6)) {
        case 0: type = TRAX_STATE; what = "state without a region"; break;
        case 1: type = TRAX_STATE; a = {some_region(p), some_region(p)}; what = "state with two arguments"; break;
        case 2: type = TRAX_STATE; a = {bad_region()}; what = "state with an undecodable region"; break;
        case 3: type = choose(W, 2) ? TRAX_FRAME : TRAX_INITIALIZE; a = imgs; what = "client message from a server"; break;
        case 4: type = TRAX_HELLO; what = "second hello"; break;
        default: type = TRAX_QUIT; a = {"reason"}; what = "quit with arguments"; break;
        }
    } else {
        int und = 0; for (int t : {1, 2, 4, 8}) if (!(p.iformats & t)) und |= t;
        bool v4 = p.v4(), init = choose(W, 2);
        switch (choose(W, 8)) {
        case 0: type = TRAX_STATE; a = {some_region(p)}; what = "state from a client"; break;
        case 1: type = TRAX_HELLO; what = "hello from a client"; break;
        case 2: type = TRAX_QUIT; a = {"x"}; what = "quit with arguments"; break;
        case 3: type = v4 && init ? TRAX_INITIALIZE : TRAX_FRAME; if (v4 && init) a = {some_region(p), some_region(p)}; else { a = imgs; if (choose(W, 2) || a.size() < 2) a.push_back(imgs[0]); else a.pop_back(); } what = "wrong number of arguments"; break;
        case 4: if (v4) { type = TRAX_FRAME; a = imgs; a.clear(); } else { type = TRAX_INITIALIZE; a = imgs; if (choose(W, 2)) { a.push_back(some_region(p)); a.push_back(some_region(p)); } } what = "wrong number of arguments"; break;
        case 5: if (und) { Imgs x = gen_imgs(p.channels, und, 0); type = TRAX_FRAME; a = wire_channels(x, p.channels); if (a.size() > 1 && choose(W, 2)) for (size_t k = 0; k + 1 < a.size(); k++) a[k] = imgs[k]; what = "undeclared image"; if (!v4 && init) { type = TRAX_INITIALIZE; a.push_back(some_region(p)); } break; } /* fall through */
        case 6: type = TRAX_FRAME; a = imgs; a[choose(W, (uint32_t)a.size())] = bad_image(); what = "undecodable image"; if (!v4 && init) { type = TRAX_INITIALIZE; a.push_back(some_region(p)); } break;
        default: type = TRAX_INITIALIZE; if (!v4) a = imgs; a.push_back(bad_region()); what = "undecodable region"; break;
        }
    }
    Item i = make(type, a, mprops(0), st); i.bad = true; i.what = what; return i;
}
static Item state_item(const Plan& p, int sc, Rng* st) { Reg r = sc ? gen_reg(TRAX_REGION_ANY, true) : gen_reg(TRAX_REGION_RECTANGLE, false); Item i = make(TRAX_STATE, {wire_reg(r)}, mprops(sc), st); i.reg = r; i.has_reg = true; return i; }
static Item frame_item(const Plan& p, int sc, Rng* st) { Imgs g = gen_imgs(p.channels, p.iformats, sc); Item i = make(TRAX_FRAME, wire_channels(g, p.channels), mprops(sc), st); i.imgs = g; return i; }
static Item init_item(const Plan& p, int sc, Rng* st) {
    Reg r = gen_reg(p.rformats, false); Item i;
    if (p.v4()) i = make(TRAX_INITIALIZE, {wire_reg(r)}, mprops(sc), st);
    else { Imgs g = gen_imgs(p.channels, p.iformats, sc); auto a = wire_channels(g, p.channels); a.push_back(wire_reg(r)); i = make(TRAX_INITIALIZE, a, mprops(sc), st); i.imgs = g; }
    i.reg = r; i.has_reg = true; return i;
}
static string hello(const Plan& p, Rng* st) {
    Props h = p.custom; auto lst = [&](std::initializer_list<std::pair<int, const char*>> l, int v) { string o; for (auto& x : l) if (v & x.first) o += string(o.empty() ? "" : ";") + x.second; if (st && st->below(2)) o += ";"; return o; };
    h["trax.version"] = std::to_string(p.version); h["trax.region"] = lst({{2, "rectangle"}, {4, "polygon"}, {8, "mask"}}, p.rformats); h["trax.image"] = lst({{1, "path"}, {2, "url"}, {4, "memory"}, {8, "buffer"}}, p.iformats);
    if (p.version >= 2) h["trax.channels"] = lst({{1, "color"}, {2, "depth"}, {4, "ir"}}, p.channels);
    if (p.has_name) h["trax.name"] = p.name; if (p.multi && p.v4()) h["trax.multiobject"] = "1";
    return wire_encode(TRAX_HELLO, {}, h, st);
}
static void gen_base(Peer& x, int sc, bool noise) {
    Focus f; f.img = sc; f.reg = 1; f.multi = choose(W, 2); f.text = sc; f.max_steps = 2; x.p = gen_plan(f); Plan& p = x.p;
    x.client = choose(W, 2); p.s_cpp = p.s_cpp && !x.client; if (!x.client && p.s_setup == 2) p.s_setup = 1; if (p.s_cpp || p.socket) p.s_setup = 1;
    if (p.version == 3 && p.s_cpp) {} else if (p.version < 3) p.s_cpp = false;
    p.rformats = 14; p.c_log = p.s_log = choose(W, 3) == 2;
    (void)noise;
}
// the peer's side of a conversation; tracked = objects per reply
static int gen_stream(Peer& x, int sc, int bad_den, bool noise, bool quit) {
    Plan& p = x.p; Rng sty(choose(W, 1 << 30)); Rng* st = choose(W, 2) ? &sty : nullptr; int tracked = 1; if (p.v4() && p.multi) tracked = 1 + choose(W, 4);
    auto nz = [&] { return noise && choose(W, 3) == 2 ? gen_noise() : string(); };
    auto add = [&](const Item& i) { string n = nz(); x.stream += n + i.bytes; x.items.push_back(i); x.items.back().end = x.stream.size(); };
    if (x.client) { Item i; i.m.type = TRAX_HELLO; i.bytes = hello(p, st); add(i); }
    int n = 1 + choose(W, 6);
    for (int k = 0; k < n; k++) {
        if (x.client) { for (int t = 0; t < tracked; t++) add(bad_den && choose(W, bad_den) == 1 ? bad_item(p, true, st) : state_item(p, sc, st)); continue; }
        if (bad_den && choose(W, bad_den) == 1) { add(bad_item(p, false, st)); continue; }
        bool init = k == 0 || choose(W, 4) == 3;
        if (!p.v4()) add(init ? init_item(p, sc, st) : frame_item(p, sc, st));
        else {
            if (init && k && choose(W, 2)) { Item i = make(TRAX_INITIALIZE, {}, {}, st); add(i); for (int t = 0; t < (p.multi ? 1 + (int)choose(W, 4) : 1); t++) add(init_item(p, sc, st)); }
            else if (init) for (int t = 0; t < (p.multi ? 1 + (int)choose(W, 4) : 1); t++) add(init_item(p, sc, st));
            add(frame_item(p, sc, st));
        }
    }
    if (quit && !x.client && p.v4() && choose(W, 3) == 2) {      // objects announced that are never tracked
        if (choose(W, 2)) add(make(TRAX_INITIALIZE, {}, {}, st));
        for (int t = 0, k = choose(W, p.multi ? 4 : 2); t < k; t++) add(init_item(p, sc, st));
    }
    if (quit) { Props pr = mprops(sc); pr["trax.reason"] = gen_text(0); add(make(TRAX_QUIT, {}, pr, st)); }
    if (noise && choose(W, 2)) x.stream += gen_noise();
    return tracked;
}

// ---------------------------------------------------------------- the real side, compared with a model of what it has to receive
struct Model { const Peer& x; size_t pos; int tracked; bool dead = false; bool exact = true; explicit Model(const Peer& p, int t) : x(p), pos(0), tracked(t) {} };
static const char* IDS = ""; static const char* CONV = "C01,C02,C03,C04,C05,C06,C08,C10";
static void cmp_obj(const char* what, const Item& i, const Obj& o, bool props) {
    SCHECK("C06,C05,C04,C03,C01,C08", same(i.reg, o.reg), "%s: peer sent %s, received %s", what, show(i.reg).c_str(), show(o.reg).c_str());
    if (props) SCHECK("C06,C05,C04,C03,C01,C08", i.m.props == o.props, "%s-properties: peer sent %s, received %s", what, show(i.m.props).c_str(), show(o.props).c_str());
}
static int run_client(Peer& x, int tracked) {
    Plan& p = x.p; Model m(x, tracked); size_t n = x.complete; std::unique_ptr<Cli> c(new_cli(p, &x.log, x.r_in, x.r_out, x.lfd, 30));
    bool hello_ok = n > 0 && !x.items[0].bad;
    if (!x.exact && !c->ok()) return 0;
    if (x.exact) PCHECK(CONV, c->ok() == hello_ok, "setup: the peer %s, client setup %s", hello_ok ? "introduced itself completely" : "did not complete a valid hello", c->ok() ? "succeeded" : "failed");
    if (!c->ok()) return 0;
    m.pos = 1; Step s; s.imgs = gen_imgs(c->raw()->metadata->channels, c->raw()->metadata->format_image & 15, 0); int mo = (c->raw()->metadata->flags & TRAX_METADATA_MULTI_OBJECT) && c->raw()->version >= 4; if (!mo) tracked = m.tracked = 1;
    for (int k = 0; k < tracked; k++) { Obj o; o.reg = gen_reg(TRAX_REGION_RECTANGLE, false); s.objs.push_back(o); }
    int code = c->init(s, s.objs, s.imgs);
    if (x.exact && x.end == 0 && code != TRAX_OK) PCHECK("C05,C06,C07", code == TRAX_OK, "send: initialize failed although the peer still reads");
    if (code != TRAX_OK) m.exact = false;
    int errors = 0, guard = 0;
    while (errors < 4) {
        if (++guard > 4000) violation("endless: more than 4000 waits succeeded on a stream of %zu bytes", x.stream.size());
        Result r = c->wait(tracked == 1 && choose(W, 2)); uint64_t h0 = 0; (void)h0;
        if (r.code == TRAX_ERROR) errors++; else errors = 0;
        if (r.code != TRAX_ERROR && r.code != TRAX_STATE && r.code != TRAX_QUIT) violation("wait-code: client wait returned %d", r.code);
        if (r.code == TRAX_STATE && tracked != (int)r.objs.size()) violation("state-count: %d objects tracked, %zu states returned", tracked, r.objs.size());
        if (r.code != TRAX_STATE) SCHECK("C06,C05", r.objs.empty(), "results-on-failure: wait returned %d with %zu objects", r.code, r.objs.size());
        if (x.exact && m.exact && !m.dead) {
            int want = TRAX_STATE; vector<size_t> got; const char* why = "no more messages";
            for (int k = 0; k < tracked; k++) {
                if (m.pos >= n) { want = TRAX_ERROR; break; }
                const Item& i = x.items[m.pos++];
                if (i.bad) { want = TRAX_ERROR; why = i.what; if (tracked > 1) m.exact = false; break; }
                if (i.m.type == TRAX_QUIT) { want = TRAX_QUIT; got.push_back(m.pos - 1); m.dead = true; break; }
                got.push_back(m.pos - 1);
            }
            PCHECK(CONV, r.code == want, "wait: client wait returned %d (%s) instead of %d (%s), message %zu of %zu complete ones%s%s", r.code, tname(r.code), want, tname(want), m.pos, n, want == TRAX_ERROR ? ": " : "", want == TRAX_ERROR ? why : "");
            if (want == TRAX_STATE) for (int k = 0; k < tracked; k++) cmp_obj("state", x.items[got[k]], r.objs[k], true);
            if (want == TRAX_QUIT) SCHECK("C05,C06,C10,C01", r.unread || r.props == x.items[got[0]].m.props, "quit-properties: peer sent %s, received %s", show(x.items[got[0]].m.props).c_str(), show(r.props).c_str());
            if (want == TRAX_QUIT) {
                size_t b = x.out.size(), rl = x.log.recv.size(); SCHECK("C10,C05", !c->alive(), "still-alive: client session is alive after quit was received");
                int k = choose(W, 4); string rs = "late"; if (k == 1) SCHECK("C10", c->frame(s, {}, s.imgs) == TRAX_ERROR, "ended-accepted: frame after quit was received"); else if (k == 2) SCHECK("C10", c->init(s, s.objs, s.imgs) == TRAX_ERROR, "ended-accepted: initialize after quit was received"); else if (k == 3) c->terminate(&rs);
                SCHECK("C10", x.out.size() == b && x.log.recv.size() == rl, "ended-io: a call after quit was received used the transport");
            }
        } else if (x.exact && m.dead) PCHECK("C05,C06,C10", r.code == TRAX_ERROR, "after-end: wait on an ended session returned %d", r.code);
        state(mix(mix(r.code + 5, m.pos), errors));
        if (r.code == TRAX_STATE && choose(W, 2) && m.exact) { int f = c->frame(s, {}, s.imgs); if (f != TRAX_OK && x.end == 0 && x.exact) PCHECK("C05,C06,C07", false, "send: frame failed although the peer still reads"); }
    }
    if (choose(W, 2)) { string rs = "bye"; c->terminate(&rs); PCHECK("C05,C10", c->wait(false).code == TRAX_ERROR, "after-end: wait succeeded after terminate"); }
    c->release(); c.reset();
    return 1;
}
static int run_server(Peer& x) {
    Plan& p = x.p; size_t n = x.complete; Model m(x, 0); std::unique_ptr<Srv> s(new_srv(p, &x.log, x.r_in, x.r_out));
    PCHECK(CONV, s->ok(), "setup: server setup failed");
    int errors = 0, guard = 0, objects = 0;
    while (errors < 4) {
        if (++guard > 4000) violation("endless: more than 4000 waits succeeded on a stream of %zu bytes", x.stream.size());
        bool single = false;
        // the single-object overload of the C++ interface cannot take more than one object
        Result r = s->wait(single);
        if (r.code == TRAX_ERROR) errors++; else errors = 0;
        if (r.code != TRAX_ERROR && r.code != TRAX_INITIALIZE && r.code != TRAX_FRAME && r.code != TRAX_QUIT) violation("wait-code: server wait returned %d", r.code);
        if (r.code == TRAX_INITIALIZE || r.code == TRAX_FRAME) { for (int c = 0; c < 3; c++) if ((p.channels >> c & 1) && (!r.imgs.ch[c].type || !(r.imgs.ch[c].type & p.iformats))) violation("invalid-image: wait returned %s with %s in channel %d", tname(r.code), show(r.imgs.ch[c]).c_str(), c); for (auto& o : r.objs) if (o.reg.type == TRAX_REGION_EMPTY) violation("invalid-region: wait returned %s with an empty region", tname(r.code)); if (r.code == TRAX_INITIALIZE && r.objs.empty()) violation("invalid-init: initialize without objects"); }
        else SCHECK("C06,C05", !r.has_imgs && r.objs.empty(), "results-on-failure: wait returned %d with images or objects", r.code);
        if (x.exact && m.exact && !m.dead) {
            int want = -99; vector<size_t> objs; size_t img = (size_t)-1, qi = 0; const char* why = "no more messages"; bool part = false;
            if (!p.v4()) {
                if (m.pos >= n) want = TRAX_ERROR;
                else { const Item& i = x.items[m.pos++]; if (i.bad) { want = TRAX_ERROR; why = i.what; } else { want = i.m.type; if (want == TRAX_QUIT) { m.dead = true; qi = m.pos - 1; } else { img = m.pos - 1; if (i.has_reg) objs.push_back(img); } } }
            } else while (want == -99) {
                if (m.pos >= n) { want = TRAX_ERROR; break; }
                const Item& i = x.items[m.pos++];
                if (i.bad) { want = TRAX_ERROR; why = i.what; m.exact = m.exact && !part && i.m.type != TRAX_INITIALIZE; break; }
                if (i.m.type == TRAX_QUIT) { want = TRAX_QUIT; m.dead = true; qi = m.pos - 1; }
                else if (i.m.type == TRAX_FRAME) { want = objs.empty() ? TRAX_FRAME : objects == 0 ? TRAX_INITIALIZE : TRAX_FRAME; img = m.pos - 1; objects += (int)objs.size(); }
                else { part = true; if (!i.has_reg) { objects = 0; objs.clear(); } else objs.push_back(m.pos - 1); }
            }
            PCHECK(CONV, r.code == want, "wait: server wait returned %d (%s) instead of %d (%s), message %zu of %zu complete ones%s%s", r.code, tname(r.code), want, tname(want), m.pos, n, want == TRAX_ERROR ? ": " : "", want == TRAX_ERROR ? why : "");
            if (img != (size_t)-1) {
                string d; for (int c = 0; c < 3; c++) SCHECK("C06,C05,C02,C04,C01", same(x.items[img].imgs.ch[c], r.imgs.ch[c]), "image: peer sent %s, received %s", show(x.items[img].imgs.ch[c]).c_str(), show(r.imgs.ch[c]).c_str());
                SCHECK("C06,C05,C01,C04", r.unread || r.props == x.items[img].m.props, "properties: peer sent %s, received %s", show(x.items[img].m.props).c_str(), show(r.props).c_str());
                PCHECK("C06,C05,C08,C03,C04", r.objs.size() == objs.size(), "object-count: peer sent %zu objects, %zu received", objs.size(), r.objs.size());
                for (size_t k = 0; k < objs.size(); k++) cmp_obj("region", x.items[objs[k]], r.objs[k], p.v4());
            }
            if (want == TRAX_QUIT) SCHECK("C05,C06,C10,C01", r.unread || r.props == x.items[qi].m.props, "quit-properties: peer sent %s, received %s", show(x.items[qi].m.props).c_str(), show(r.props).c_str());
            if (want == TRAX_QUIT) {
                size_t b = x.out.size(), rl = x.log.recv.size(); SCHECK("C10,C05", !s->alive(), "still-alive: server session is alive after quit was received");
                int k = choose(W, 3); string rs = "late"; if (k == 1) { vector<Obj> o(p.v4() && objects > 0 ? objects : 1); for (auto& y : o) { y.reg.type = TRAX_REGION_RECTANGLE; y.reg.r[2] = y.reg.r[3] = 2; } SCHECK("C10", s->reply(o, false) == TRAX_ERROR, "ended-accepted: reply after quit was received"); } else if (k == 2) s->terminate(&rs);
                SCHECK("C10", x.out.size() == b && x.log.recv.size() == rl, "ended-io: a call after quit was received used the transport");
            }
        } else if (x.exact && m.dead) PCHECK("C05,C06,C10", r.code == TRAX_ERROR, "after-end: wait on an ended session returned %d", r.code);
        state(mix(mix(r.code + 5, m.pos), errors + 100));
        if ((r.code == TRAX_INITIALIZE || r.code == TRAX_FRAME) && m.exact) {
            int cnt = p.v4() ? objects : 1; vector<Obj> o; for (int k = 0; k < cnt; k++) { Obj b; b.reg = gen_reg(TRAX_REGION_RECTANGLE, false); o.push_back(b); }
            if (p.v4() && !p.multi && cnt != 1) continue;
            int f = s->reply(o, cnt == 1 && choose(W, 2));
            if (x.exact && x.end == 0) PCHECK("C05,C06,C07,C08", f == TRAX_OK, "send: reply failed with %d although the peer still reads (%d objects)", f, cnt);
        }
    }
    if (choose(W, 2)) { string rs = "bye"; s->terminate(&rs); PCHECK("C05,C10", s->wait(false).code == TRAX_ERROR, "after-end: wait succeeded after terminate"); }
    s->release(); s.reset();
    return 1;
}
static void run_peer(const char* id, Peer& x, int tracked) {
    active = id; (void)IDS;
    if (x.stream.size() > 3000 && cfg.pipe_cap < 64) cfg.pipe_cap = 257;
    if (x.stream.size() > 60000 && cfg.pipe_cap < 4096) cfg.pipe_cap = 4096;
    if (x.exact) { size_t n = std::min(x.cut, x.stream.size()); for (auto& i : x.items) if (i.end <= n) x.complete++; }
    sample("%s against a scripted peer that sends %zu bytes (%zu messages, %zu complete), then %s; %s v%d%s over %s\n", x.client ? "client" : "server", std::min(x.cut, x.stream.size()), x.items.size(), x.complete, x.end == 0 ? "stops sending" : x.end == 1 ? "closes" : x.end == 2 ? "resets" : "dies", (x.client ? x.p.c_cpp : x.p.s_cpp) ? "C++" : "C", x.p.version, x.p.multi ? " multi" : "", x.p.socket ? "socket" : "pipe");
    if (tracing()) printf("stream: %s\n", show(x.stream, 2000).c_str());
    for (auto& i : x.items) if (i.bad) { sample("  malformed: %s: %s\n", i.what, show(i.bytes, 100).c_str()); break; }
    if (!x.exact) sample("  bytes: %s\n", show(x.stream, 160).c_str());
    x.setup();
    new_task(x.rp, x.client ? "client" : "server", [&x, tracked] {
        size_t mem0 = live_allocs(x.rp); uint64_t mark = alloc_mark(); int fds0 = live_fds(x.rp);
        if (x.p.socket && x.client) { x.lfd = sim_socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(9090); sim_bind(x.lfd, (struct sockaddr*)&a, sizeof a); }
        if (x.client) run_client(x, tracked); else run_server(x);
        if (x.lfd >= 0) k_close(x.lfd);
        SCHECK("C20", live_fds(x.rp) == fds0, "descriptor-leak: %d more descriptors open after the session", live_fds(x.rp) - fds0);
        SCHECK("C20", live_allocs(x.rp) == mem0, "memory-leak: allocated in %s", first_alloc_site(x.rp, mark).c_str());
        x.real_done = 1; close_all(x.rp);
    });
    run();
    PCHECK("C05,C06,C20", x.real_done, "stuck: the real side did not come to its end");
    if (x.log.recv.size() && relevant("C17")) SCHECK("C17", x.stream.compare(0, x.log.recv.size(), x.log.recv) == 0, "log-received: the log differs from the bytes received");
    set_nontrivial();
}
static int pick_end(const Plan& p) { int e = choose(W, 4); return e == 2 && !p.socket ? 1 : e; }

void scen_cut(const char* id) {
    active = id; io_profile(1); sched_profile(); Peer x; gen_base(x, choose(W, 3) == 2 ? 2 : 1, true); int t = gen_stream(x, choose(W, 2), 0, choose(W, 3) == 2, choose(W, 4) == 3);
    size_t n = x.stream.size();
    // anywhere, with a preference for the ends of lines and the beginning
    switch (choose(W, 5)) { case 0: x.cut = choose(W, (uint32_t)n + 1); break; case 1: { size_t k = x.items[choose(W, (uint32_t)x.items.size())].end; x.cut = k - std::min<size_t>(k, choose(W, 4)); break; } case 2: x.cut = choose(W, 12); break; case 3: { size_t k = choose(W, (uint32_t)x.items.size()); size_t b = k ? x.items[k - 1].end : 0; x.cut = b + choose(W, (uint32_t)(x.items[k].end - b)); break; } default: x.cut = n; }
    x.end = pick_end(x.p); x.delays = choose(S, 2);
    run_peer(id, x, t);
}
// a well-formed conversation with a peer that is not this library
void scen_talk(const char* id, int text, bool noise, bool quit) {
    active = id; io_profile(1); sched_profile(); Peer x; gen_base(x, text, noise); int t = gen_stream(x, text, 0, noise, quit || choose(W, 2)); x.end = pick_end(x.p); x.delays = choose(S, 2); run_peer(id, x, t);
}
static string mutate(string s) {
    int k = 1 + choose(W, 6);
    static const char* tok[] = {"@@TRAX:", "\n", "\"", "\\", "=", " ", "\n@@TRAX:frame ", "\n@@TRAX:quit\n", "\n@@TRAX:state \"1\" ", "\n@@TRAX:initialize\n", "mask:", "image:", "data:", "file://", ",", ";", "-", "99999999999999999999", "nan", "1e308", "\xff", "-1", ".", "\r"};
    for (int i = 0; i < k; i++) {
        size_t p = s.empty() ? 0 : choose(W, (uint32_t)s.size());
        switch (choose(W, 8)) {
        case 0: if (!s.empty()) s[p] = (char)choose(W, 256); break;
        case 1: if (!s.empty()) s.erase(p, 1 + choose(W, 20)); break;
        case 2: s.insert(p, tok[choose(W, 24)]); break;
        case 3: { size_t n = choose(W, 200); s.insert(p, s.substr(p, n)); break; }
        case 4: if (!s.empty()) s[p] ^= 1 << choose(W, 8); break;
        case 5: { size_t q = s.find_first_of("0123456789", p); if (q != string::npos) s[q] = '0' + choose(W, 10); break; }
        case 6: s.insert(p, string(1 + choose(W, 3000), (char)(choose(W, 3) ? 'a' : ' '))); break;
        default: { size_t q = s.find_first_of("\"\\\n=;:,", p); if (q != string::npos) s.erase(q, 1); break; }
        }
    }
    return s;
}
void scen_malformed(const char* id) {
    active = id; io_profile(1); sched_profile(); Peer x; gen_base(x, 1, false); int mode = choose(W, 5);
    int t = gen_stream(x, choose(W, 2), mode < 3 ? 3 : 0, choose(W, 4) == 3, choose(W, 2));
    x.end = choose(W, 3) == 2 ? pick_end(x.p) : 0;
    if (mode >= 3) { x.exact = false; x.stream = mode == 3 ? mutate(x.stream) : mutate(mutate(mutate(x.stream))); }
    else if (x.client && choose(W, 5) == 4) {       // the introduction is wrong
        Item& i = x.items[0]; size_t old = i.bytes.size(); string nb;
        switch (choose(W, 4)) { case 0: nb = wire_encode(TRAX_HELLO, {"x"}, {{"trax.version", "4"}}); break; case 1: nb = wire_encode(TRAX_STATE, {"1,2,3,4"}, {}); break; case 2: nb = wire_encode(TRAX_QUIT, {}, {}); break; default: nb = wire_encode(TRAX_INITIALIZE, {}, {}); }
        string rest = x.stream.substr(i.end); x.stream = nb + rest; for (auto& y : x.items) y.end = y.end + nb.size() - old - (i.end - old) ; i.bad = true; i.what = "no proper introduction"; x.items.resize(1); x.items[0].end = nb.size();
    }
    if (mode < 3 && choose(W, 4) == 3) x.cut = choose(W, (uint32_t)x.stream.size() + 1);
    run_peer(id, x, t);
}
// ---------------------------------------------------------------- C07: what a successful send means
static void check_sent(Peer& x, size_t mark, int code, const vector<int>& types, bool& failed, const char* what) {
    string part = x.out.substr(mark); size_t rest = 0; vector<Msg> m = wire_decode(part, &rest); bool whole = rest == part.size() && m.size() == types.size();
    if (whole) for (size_t i = 0; i < types.size(); i++) if (m[i].type != types[i]) whole = false;
    if (failed) { CHECK(part.empty(), "sent-after-failure: %s put %zu bytes on the transport after an earlier message had failed: %s", what, part.size(), show(part).c_str()); CHECK(code != TRAX_OK, "success-after-failure: %s reported success after an earlier message had failed", what); return; }
    if (code == TRAX_OK) CHECK(whole, "incomplete-success: %s reported success, but %zu bytes with %zu of %zu complete messages were accepted", what, part.size(), m.size(), types.size());
    else { CHECK(!whole, "false-failure: %s reported failure, but every byte was accepted", what); failed = true; probe("send failed"); }
}
void scen_send(const char* id) {
    active = id; io_profile(1); sched_profile(); Peer x; gen_base(x, choose(W, 2) ? 2 : 0, false); Plan& p = x.p; p.c_log = p.s_log = false;
    // more than enough input for the real side
    Rng* st = nullptr; int tracked = p.v4() && p.multi ? 1 + choose(W, 3) : 1, n = 1 + choose(W, 6);
    if (x.client) { x.stream = hello(p, st); for (int i = 0; i < n * tracked; i++) x.stream += state_item(p, 0, st).bytes; }
    else for (int i = 0; i < n; i++) { if (p.v4()) { if (i == 0) for (int k = 0; k < tracked; k++) x.stream += init_item(p, 0, st).bytes; x.stream += frame_item(p, 0, st).bytes; } else x.stream += (i ? frame_item(p, 0, st) : init_item(p, 0, st)).bytes; }
    x.exact = false; x.quiet = true; x.drain_delay = choose(W, 3) == 2 ? 200 * MS : 0; x.end = 1;
    int mode = choose(W, 5); int64_t nth = -1, count = 0; int err = 0;
    if (mode == 1 || mode == 2) { static const int es[] = {EPIPE, EIO, ECONNRESET, ENOSPC, ETIMEDOUT, EFBIG, ENOBUFS}; err = es[choose(W, 7)]; nth = choose(W, choose(W, 2) ? 200 : 20); }
    if (mode == 3 || mode == 4) { x.drain_limit = choose(W, choose(W, 2) ? 40 : 4000); x.quiet = false; cfg.pipe_cap = std::min<size_t>(cfg.pipe_cap, 200); x.end = mode == 4 && p.socket ? 2 : 1; }
    if (mode >= 3) cfg.pipe_cap = std::max<size_t>(cfg.pipe_cap, 1);
    sample("%s sends over a %s; %s\n", x.client ? "client" : "server", p.socket ? "socket" : "pipe", mode == 0 ? "no fault" : mode <= 2 ? "one write fails" : "the peer goes away");
    // the peer goes away once it has read its limit
    x.setup();
    bool* armed = new bool(false);
    fault_hook = [&, armed](const char* call, Proc* pr, int) -> int { if (pr != x.rp || !*armed || nth < 0) return 0; if (strcmp(call, "write") && strcmp(call, "send")) return 0; if (count++ == nth) { fault("write error"); return err; } return 0; };
    if (mode >= 3) new_task(x.pp, "leaver", [&] { block("limit", [&] { return x.drain_stops || x.real_done; }); if (choose(S, 2)) sleep_for(choose(S, 20) * MS); fault("peer left"); if (x.end == 2) { auto it = x.pp->fds.find(x.p_out); if (it != x.pp->fds.end() && it->second.f->tx) it->second.f->tx->reset = true; } kill_proc(x.pp, SIGKILL); }, true);
    new_task(x.rp, "real", [&] {
        bool failed = false; size_t mem0 = live_allocs(x.rp); uint64_t mk = alloc_mark();
        if (p.socket && x.client) { x.lfd = sim_socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(9090); sim_bind(x.lfd, (struct sockaddr*)&a, sizeof a); }
        int sends = 0; Focus f; f.text = choose(W, 2) ? 1 : 0;
        if (x.client) {
            std::unique_ptr<Cli> c(new_cli(p, &x.log, x.r_in, x.r_out, x.lfd, 30)); if (!c->ok()) { x.real_done = 1; close_all(x.rp); return; }
            *armed = true; bool initd = false; int objs = 0;
            for (int i = 0; i < n + 1; i++) {
                Step s; s.imgs = gen_imgs(p.channels, p.iformats, choose(W, 2)); s.props = gen_props(3, f.text); bool init = !initd || choose(W, 5) == 4; vector<int> types;
                int add = init ? tracked : 0; if (!init && p.v4() && p.multi && choose(W, 4) == 3) add = 1 + choose(W, 2);
                for (int k = 0; k < add; k++) { Obj o; o.reg = gen_reg(p.rformats, false); if (!p.c_cpp && p.v4()) o.props = gen_props(2, f.text); s.objs.push_back(o); }
                if (p.v4()) { if (init && objs > 0) types.push_back(TRAX_INITIALIZE); for (int k = 0; k < add; k++) types.push_back(TRAX_INITIALIZE); types.push_back(TRAX_FRAME); } else types.push_back(init ? TRAX_INITIALIZE : TRAX_FRAME);
                size_t mark = x.out.size(); int code = init ? c->init(s, s.objs, s.imgs) : c->frame(s, s.objs, s.imgs); sends++;
                check_sent(x, mark, code, types, failed, init ? "initialize" : "frame");
                if (code == TRAX_OK) { initd = true; objs = init ? add : objs + add; }
                if (!failed && choose(W, 2) && i < n && objs == tracked) c->wait(false);
            }
            size_t mark = x.out.size(); string rs = gen_text(f.text); int code = c->terminate(&rs); check_sent(x, mark, code, {TRAX_QUIT}, failed, "terminate");
            mark = x.out.size(); c->release(); CHECK(x.out.size() == mark, "sent-after-end: releasing the session sent %zu bytes", x.out.size() - mark);
        } else {
            std::unique_ptr<Srv> s(new_srv(p, &x.log, x.r_in, x.r_out)); if (!s->ok()) { x.real_done = 1; close_all(x.rp); return; }
            bool hello_whole = !x.out.empty() && x.out.back() == '\n'; if (!hello_whole) failed = true;
            *armed = true; int objs = 0;
            for (int i = 0; i < n; i++) {
                Result r = s->wait(false); if (r.code < 0) break; objs += p.v4() ? (int)r.objs.size() : 0; int cnt = p.v4() ? objs : 1;
                vector<Obj> o; vector<int> types; for (int k = 0; k < cnt; k++) { Obj b; b.reg = gen_reg(TRAX_REGION_ANY, true); if (!p.s_cpp) b.props = gen_props(2, f.text); o.push_back(b); types.push_back(TRAX_STATE); }
                size_t mark = x.out.size(); int code = s->reply(o, cnt == 1 && choose(W, 2)); sends++; check_sent(x, mark, code, types, failed, "reply");
            }
            size_t mark = x.out.size(); string rs = gen_text(f.text); int code = s->terminate(&rs); check_sent(x, mark, code, {TRAX_QUIT}, failed, "terminate");
            mark = x.out.size(); s->release(); CHECK(x.out.size() == mark, "sent-after-end: releasing the session sent %zu bytes", x.out.size() - mark);
        }
        if (x.lfd >= 0) k_close(x.lfd);
        CHECK(mode != 0 || !failed, "failure-without-fault: a send failed on a working transport");
        (void)mem0; (void)mk; (void)sends; x.real_done = 1; close_all(x.rp);
    });
    run();
    CHECK(x.real_done, "stuck: the sending side did not come to its end");
    set_nontrivial();
}
void run_sessions(const char* id, const Focus& f, int n);
void scen_objects(const char* id);
}
using namespace h;
SCENARIO(C05) { scen_cut("C05"); }
SCENARIO(C06) { scen_malformed("C06"); }
SCENARIO(C20) {
    switch (choose(W, 4)) {
    case 0: h::scen_objects("C20"); break;
    case 1: { Focus f; f.refuse = choose(W, 2); f.copies = true; f.ends = true; f.noise = choose(W, 3) == 2; f.multi = choose(W, 2); f.text = choose(W, 2); f.img = choose(W, 2); f.reg = 1; f.reuse = choose(W, 2); f.max_steps = 4; run_sessions("C20", f, 1); break; }
    case 2: scen_cut("C20"); break;
    default: if (choose(W, 2)) scen_malformed("C20"); else scen_send("C20"); }
}
SCENARIO(C07) { if (choose(W, 4) == 3) { Focus f; f.text = choose(W, 3); f.multi = choose(W, 2); run_sessions("C07", f, 1); } else scen_send("C07"); }
