// Engine G: the Octave extension functions (traxserver.cpp, traxclient.cpp, helpers.cpp) called by generated scripts.
#include "mex.h"
#include "session.h"
#include "shm.h"
#include <fstream>
#include <sstream>
#include <signal.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <unistd.h>
extern "C" void traxserver_mex(int, void**, int, const void**);
extern "C" void traxclient_mex(int, void**, int, const void**);
extern "C" { extern sig_atomic_t octave_interrupt_state; extern volatile sig_atomic_t octave_signal_caught; }
extern "C" int sim_bind(int, const struct sockaddr*, socklen_t);
namespace sim { extern std::string scratch_dir; }
namespace h {
namespace {
// ---------------------------------------------------------------- values of the script and of the protocol
static Val any_case(const string& s) { string t = s; uint32_t k = choose(W, 4); for (size_t i = 0; i < t.size(); i++) if (k == 3 || (k == 2 && i == 0)) t[i] = toupper(t[i]); return vstr(t); }
static Val val(const Reg& r) {
    if (r.type == TRAX_REGION_RECTANGLE) return vrow({r.r[0], r.r[1], r.r[2], r.r[3]});
    if (r.type == TRAX_REGION_POLYGON) return vrow(vector<double>(r.xy.begin(), r.xy.end()));
    if (r.type == TRAX_REGION_SPECIAL) return vnum(r.code);
    if (r.type == TRAX_REGION_MASK) { Val v = vzeros({std::max(0, r.my + r.mh), std::max(0, r.mx + r.mw)}, M_U8); for (int i = 0; i < r.mh; i++) for (int j = 0; j < r.mw; j++) if (r.my + i >= 0 && r.mx + j >= 0) v.bytes[(size_t)(r.mx + j) * v.dims[0] + r.my + i] = r.bits[(size_t)i * r.mw + j] != 0; return v; }
    return vempty();
}
static bool same(const Val& v, const Reg& r) {
    Val e = val(r); if (v.cls != e.cls || v.dims != e.dims) return e.empty() && v.empty() && v.cls == e.cls;
    if (r.type == TRAX_REGION_MASK) { for (size_t i = 0; i < e.bytes.size(); i++) if ((v.bytes[i] != 0) != (e.bytes[i] != 0)) return false; return true; }
    for (long i = 0; i < v.count(); i++) { double a = v.num(i), b = e.num(i); if (fabs(a - b) > 0.000051 + fabs(b) * 1.2e-7) return false; } return true;
}
static Val val(const Img& i) {
    if (i.type == TRAX_IMAGE_PATH || i.type == TRAX_IMAGE_URL) return vstr(i.data);
    if (i.type == TRAX_IMAGE_BUFFER) { Val d; d.cls = M_U8; d.dims = {(long)i.data.size(), 1}; d.bytes = i.data; return vstruct({"format", "data"}, {vstr(i.fmt == TRAX_IMAGE_BUFFER_JPEG ? "jpeg" : "png"), d}); }
    Val v; v.cls = i.fmt == TRAX_IMAGE_MEMORY_GRAY16 ? M_U16 : M_U8; v.dims = {i.h, i.w}; int ch = i.fmt == TRAX_IMAGE_MEMORY_RGB ? 3 : 1, b = v.cls == M_U16 ? 2 : 1; if (ch == 3) v.dims.push_back(3);
    v.bytes.resize((size_t)i.w * i.h * ch * b);
    for (int y = 0; y < i.h; y++) for (int x = 0; x < i.w; x++) for (int k = 0; k < ch; k++) memcpy(&v.bytes[(((size_t)k * i.w + x) * i.h + y) * b], &i.data[((size_t)(y * i.w + x) * ch + k) * b], b);
    return v;
}
static bool same(const Val& v, const Img& i) {
    Val e = val(i); if (e.cls == M_CHAR) return v.cls == M_CHAR && v.bytes == e.bytes && (v.dims == e.dims || e.empty());
    return v == e;
}
static bool same(const Val& v, const Imgs& im, int channels, string& why) {
    vector<Img> want; for (int c = 0; c < 3; c++) if (channels & (1 << c)) want.push_back(im.ch[c]);
    if (v.cls != M_CELL || v.count() != (long)want.size() || v.dims.size() != 2 || std::min(v.dims[0], v.dims[1]) != 1) { why = show(v) + " instead of a cell array of " + std::to_string(want.size()) + " images"; return false; }
    for (size_t k = 0; k < want.size(); k++) if (!same(v.items[k], want[k])) { why = "image " + std::to_string(k) + " is " + show(v.items[k]) + " instead of " + show(want[k]) + " (" + show(val(want[k])) + ")"; return false; }
    return true;
}
static string field_name(const string& k) { string s = k; for (size_t i = 1; i < s.size(); i++) if (!isalnum((unsigned char)s[i]) && s[i] != '_') s[i] = '_'; return s; }
// properties as the script sees them; names that coincide after the conversion are not compared
static bool same_props(const Val& v, const Props& p, bool structure, string& why) {
    if (!structure) {
        if (v.cls != M_CELL || v.dims != vector<long>{(long)p.size(), 2}) { why = show(v) + " instead of a cell array with " + std::to_string(p.size()) + " rows"; return false; }
        Props g; for (size_t i = 0; i < p.size(); i++) { const Val &k = v.items[i], &x = v.items[i + p.size()]; if (k.cls != M_CHAR || x.cls != M_CHAR) { why = show(v); return false; } g[k.text()] = x.text(); }
        if (g != p) { why = show(g) + " instead of " + show(p); return false; } return true;
    }
    if (v.cls != M_STRUCT || v.count() != 1) { why = show(v); return false; }
    std::map<string, int> n; for (auto& q : p) n[field_name(q.first)]++;
    if (v.names.size() != n.size()) { why = show(v) + " instead of " + show(p); return false; }
    for (auto& q : p) { const Val* f = v.field(field_name(q.first)); if (!f || f->cls != M_CHAR || (n[field_name(q.first)] == 1 && f->text() != q.second)) { why = "property " + q.first + " is " + (f ? show(*f) : string("missing")) + " instead of '" + show(q.second) + "'"; return false; } }
    return true;
}
struct Num { bool is = false; string s; double d = 0; };
typedef std::map<string, Num> NProps;
static bool same_props(const Props& got, const NProps& want, string& why) {
    if (got.size() != want.size()) { why = show(got) + " instead of " + std::to_string(want.size()) + " properties"; return false; }
    for (auto& w : want) {
        auto g = got.find(w.first); if (g == got.end()) { why = "property " + w.first + " is missing"; return false; }
        if (!w.second.is ? g->second != w.second.s : !(fabs(strtod(g->second.c_str(), nullptr) - w.second.d) <= 0.00001 + fabs(w.second.d) * 1.3e-7)) { why = "property " + w.first + " is '" + show(g->second) + "' instead of " + (w.second.is ? std::to_string(w.second.d) : "'" + show(w.second.s) + "'"); return false; }
    }
    return true;
}
// properties given by a script: nothing, a structure or a cell array; strings and numbers
static Val gen_given(NProps& want, int form) {
    if (form == 0) return vcell(0, choose(W, 3), {});
    int n = choose(W, 6); vector<string> names; vector<Val> vals;
    for (int i = 0; i < n; i++) {
        string k = form == 1 ? string(1, "abcXYZ_"[choose(W, 7)]) + "_" + std::to_string(i) : gen_key(i); if (k.size() > 64) k.resize(64); if (want.count(k) || k.compare(0, 5, "trax.") == 0) continue;
        Num x; Val v; uint32_t c = choose(W, 8);
        if (c < 4) { x.s = gen_text(choose(W, 8) == 7 ? 1 : 0); v = vstr(x.s); if (x.s.empty() && choose(W, 2)) v.dims = {1, 0}; }
        else { x.is = true; x.d = c == 4 ? (double)choose(W, 100) : c == 5 ? ((int)choose(W, 2000000) - 1000000) / 1000.0 : c == 6 ? (int)choose(W, 200) - 100 : (double)choose(W, 2); v = c == 6 ? vrow({x.d}, choose(W, 2) ? M_INT32 : M_SINGLE) : c == 7 ? vbool(x.d) : vnum(x.d); }
        want[k] = x; names.push_back(k); vals.push_back(v);
    }
    if (form == 1) return vstruct(names, vals);
    vector<Val> it; for (auto& k : names) it.push_back(vstr(k)); for (auto& v : vals) it.push_back(v);
    return vcell(names.size(), 2, it);
}
static Val gen_formats(const vector<std::pair<int, const char*>>& all, int formats) {
    vector<Val> v; for (auto& f : all) if (formats & f.first) v.push_back(any_case(f.second));
    if (v.size() > 1 && choose(W, 2)) std::swap(v.front(), v.back());
    if (v.size() == 1 && choose(W, 2)) return v[0];
    return choose(W, 2) ? vcell(1, v.size(), v) : vcell(v.size(), 1, v);
}
static const vector<std::pair<int, const char*>> REGIONS = {{TRAX_REGION_RECTANGLE, "rectangle"}, {TRAX_REGION_POLYGON, "polygon"}, {TRAX_REGION_MASK, "mask"}}, IMAGES = {{TRAX_IMAGE_PATH, "path"}, {TRAX_IMAGE_URL, "url"}, {TRAX_IMAGE_MEMORY, "memory"}, {TRAX_IMAGE_BUFFER, "buffer"}}, CHANNELS = {{TRAX_CHANNEL_COLOR, "color"}, {TRAX_CHANNEL_DEPTH, "depth"}, {TRAX_CHANNEL_IR, "ir"}};
static int subset(int bits) { int r = 0; for (int i = 1; i < 16; i <<= 1) if ((bits & i) && choose(W, 2)) r |= i; while (!r) r = bits & (1 << choose(W, 4)); return r; }
// values that are no regions
static Val bad_region() {
    switch (choose(W, 14)) {
    case 0: return vzeros({0, 4}); case 1: return vrow({1, 2, 3, 4, 5}); case 2: return vrow({1, 2}); case 3: return vempty(); case 4: return vstr("10,10,20,20"); case 5: return vcell(1, 1, {vrow({1, 2, 3, 4})});
    case 6: return vstruct({"x", "y"}, {vnum(1), vnum(2)}); case 7: return vzeros({0, 0}, M_U8); case 8: return vzeros({0, 5}, M_U8); case 9: return vrow({1, 2, 3, 4}, M_INT32); case 10: return vbool(true); case 11: return vstr("");
    case 12: return vzeros({5, 4, 3}, M_U8); default: return vrow({1, 2, 3});
    }
}
static Val bad_props() {
    Val s0 = vzeros({0, 0}); s0.cls = M_STRUCT; s0.bytes.clear(); s0.names = {"a"};
    switch (choose(W, 9)) { case 0: return vnum(1); case 1: return vstr("abc"); case 2: return vcell(1, 1, {vstr("a")}); case 3: return vcell(3, 3, {}); case 4: return vcell(1, 2, {vnum(5), vstr("x")}); case 5: return vcell(1, 2, {vstr("a"), vcell(1, 1, {vnum(1)})}); case 6: return vstruct({"a"}, {vcell(0, 0, {})}); case 7: return vstruct({"a"}, {vempty()}); default: return s0; }
}

// ---------------------------------------------------------------- the server function
struct GS {
    Plan p; Proc *cp = nullptr, *sp = nullptr; string c2s, s2c; int c_in = -1, c_out = -1, s_in = -1, s_out = -1, port = 0; Log clog;
    vector<Reg> reply; vector<Val> replyv; vector<NProps> rprops; vector<Val> rpropsv; int quit_at = -1; string reason; bool has_reason = false, structs = false, refuse = false;
    NProps custom; bool connected = false, client_gone = false, cut = false, client_done = false, script_done = false; int answered = 0;
} *G;
static MexOut script(const char* what, int nlhs, const vector<Val>& a) {
    MexOut o = mex_call(traxserver_mex, nlhs, a); ev("traxserver %s -> %s", what, o.err ? show(o.msg).c_str() : "ok"); state(mix(hashs(what), o.err)); return o;
}
static void refused(const char* what, int nlhs, const vector<Val>& a) {
    size_t before = G->s2c.size(); MexOut o = script(what, nlhs, a); fault("refused call");
    CHECK(o.err, "not-refused: traxserver accepts a wrong call (%s)", what); (void)before;
    if (!G->p.socket) CHECK(G->s2c.size() == before, "refused-but-sent: a refused call of traxserver (%s) has sent %zu bytes", what, G->s2c.size() - before);
}
static void refusals(bool setup) {
    if (!G->refuse) return; int n = choose(W, 4);
    for (int i = 0; i < n; i++) switch (choose(W, setup ? 8 : 6)) {
        case 0: refused("nothing", 0, {}); break;
        case 1: refused("number", 0, {vnum(1)}); break;
        case 2: refused("unknown", 0, {choose(W, 2) ? vstr("dance") : vstr("")}); break;
        case 3: if (!setup) { Val b = bad_region(); refused(("bad region " + show(b)).c_str(), 0, {vstr("status"), b}); } else refused("early status", 0, {vstr("status"), vrow({1, 2, 3, 4})}); break;
        case 4: if (!setup) { Val b = bad_props(); refused(("bad properties " + show(b)).c_str(), 0, {vstr("status"), vrow({1, 2, 3, 4}), b}); } else refused("early wait", 3, {vstr("wait")}); break;
        case 5: switch (choose(W, 5)) { case 0: refused("four results", 4, {vstr("wait")}); break; case 1: refused("unknown option", 1, {vstr("wait"), vstr("Bogus"), vbool(true)}); break; case 2: refused("no option", 1, {vstr("wait"), choose(W, 2) ? vnum(5) : vcell(0, 0, {}), vbool(true)}); break; case 3: refused("extra", 0, {vstr("status"), vrow({1, 2, 3, 4}), vcell(0, 0, {}), vnum(1)}); break; default: refused("no region", 0, {vstr("status")}); } break;
        case 6: refused("illegal format", 0, {vstr("setup"), choose(W, 2) ? vstr("circle") : choose(W, 2) ? vcell(0, 0, {}) : vcell(1, 1, {vnum(3)}), vstr("path")}); break;
        default: switch (choose(W, 6)) { case 0: refused("no formats", 0, {vstr("setup"), vstr("rectangle")}); break; case 1: refused("illegal image format", 0, {vstr("setup"), vstr("rectangle"), vcell(2, 2, {vstr("path"), vstr("path"), vstr("path"), vstr("path")})}); break; case 2: refused("reserved name", 0, {vstr("setup"), vstr("rectangle"), vstr("path"), vstr("trax.x"), vstr("v")}); break; case 3: refused("number for a name", 0, {vstr("setup"), vstr("rectangle"), vstr("path"), vstr("Name"), vnum(5)}); break; case 4: refused("illegal channel", 0, {vstr("setup"), vstr("rectangle"), vstr("path"), vstr("Channels"), vstr("sound")}); break; default: refused("two results", 2, {vstr("setup"), vstr("rectangle"), vstr("path")}); } break;
    }
}
static bool lost() { return G->cut; }
static void server_script() {
    const Plan& p = G->p; size_t mem0 = live_allocs(G->sp); uint64_t mark = alloc_mark();
    auto end = [&] {
        // nothing is left: the function can be called any time
        MexOut q = script("quit", 0, {vstr("quit")}); CHECK(lost() || q.ok(), "quit-after-end: leaving a session that has ended is an error: %s", show(q.msg).c_str());
        q = script("wait", 1, {vstr("wait")}); CHECK(q.err, "wait-after-end: waiting without a session is not an error");
        CHECK(live_allocs(G->sp) == mem0, "leak: %zu blocks are left after the session: %s", live_allocs(G->sp) - mem0, describe_allocs(G->sp, mark).c_str());
        G->script_done = true;
    };
    if (p.socket && p.client_first) sleep_for(50 * MS);
    refusals(true); if (choose(W, 8) == 7) { MexOut q = script("quit", 0, {vstr("quit")}); CHECK(q.ok(), "early-quit: quit without a session is an error: %s", q.msg.c_str()); }
    vector<Val> a = {any_case("setup"), gen_formats(REGIONS, p.rformats), gen_formats(IMAGES, p.iformats)};
    auto opt = [&](const char* n, const Val& v) { a.push_back(any_case(n)); a.push_back(v); };
    if (p.has_name) opt("name", vstr(p.name)); if (p.has_desc) opt("description", vstr(p.desc)); if (p.has_family) opt("family", vstr(p.family));
    if (p.channels != TRAX_CHANNEL_COLOR || choose(W, 2)) opt("channels", gen_formats(CHANNELS, p.channels));
    for (auto& c : p.custom) { a.push_back(vstr(c.first)); a.push_back(vstr(c.second)); }
    int nl = choose(W, 2); MexOut o = script("setup", nl, a);
    if (o.err) { CHECK(lost(), "setup-failed: %s", show(o.msg).c_str()); probe("setup failed"); end(); return; }
    CHECK(!nl || (o.out.size() == 1 && o.out[0] == vbool(true)), "setup-result: %s", o.out.empty() ? "nothing" : show(o.out[0]).c_str());
    for (size_t k = 0;; k++) {
        refusals(false);
        int want = choose(W, 4) ? 3 : choose(W, 4); vector<Val> wa = {any_case("wait")}; bool st = G->structs; if (st || choose(W, 4) == 3) { wa.push_back(any_case("propstruct")); wa.push_back(choose(W, 2) ? vbool(st) : vnum(st)); }
        if (choose(W, 12) == 11) wa.push_back(any_case("propstruct"));
        MexOut w = script("wait", want, wa); if (w.err && wa.size() % 2 == 0 && !lost()) { wa.pop_back(); w = script("wait again", want, wa); }
        if (w.err) { CHECK(lost(), "wait-failed: %s", show(w.msg).c_str()); probe("wait failed"); end(); return; }
        CHECK((int)w.out.size() >= want, "missing-result: wait has %zu results instead of %d", w.out.size(), want);
        bool finished = k >= p.steps.size();
        if (want == 0 && w.out.empty()) { if (finished) { end(); return; } }
        else if (w.out[0].empty()) {
            CHECK(finished || lost(), "early-end: wait reports the end of the session at step %zu of %zu", k, p.steps.size());
            for (auto& x : w.out) CHECK(x.empty(), "end-with-data: at the end of the session wait returns %s", show(x).c_str());
            if (!lost()) probe("session ended by the client"); end(); return;
        } else {
            CHECK(!finished, "extra-message: a message nobody sent: %s", show(w.out[0]).c_str());
            const Step& s = p.steps[k]; string why; Props all = s.props; if (s.objs.size()) for (auto& q : s.objs[0].props) all.insert(q);
            CHECK(same(w.out[0], s.imgs, p.channels, why), "wrong-image: step %zu: %s", k, why.c_str());
            if (want > 1) { if (s.kind == INIT) CHECK(same(w.out[1], s.objs[0].reg), "wrong-region: step %zu: %s is received as %s", k, show(s.objs[0].reg).c_str(), show(w.out[1]).c_str()); else CHECK(w.out[1].empty(), "ghost-region: step %zu is a frame, wait returns the region %s", k, show(w.out[1]).c_str()); }
            if (want > 2) CHECK(same_props(w.out[2], all, st, why), "wrong-properties: step %zu: %s", k, why.c_str());
        }
        refusals(false); if (p.steps[k].delay_s) sleep_for(p.steps[k].delay_s);
        if ((int)k == G->quit_at) {
            vector<Val> q = {any_case("quit")}; if (G->has_reason) q.push_back(vstr(G->reason));
            if (G->refuse && choose(W, 2)) refused("bad quit", 0, choose(W, 2) ? vector<Val>{vstr("quit"), vnum(3)} : vector<Val>{vstr("quit"), vstr("a"), vstr("b")});
            MexOut x = script("quit", 0, q); CHECK(x.ok() || lost(), "quit-failed: %s", show(x.msg).c_str()); end(); return;
        }
        vector<Val> sa = {any_case("status"), G->replyv[k]}; if (G->rprops[k].size() || choose(W, 2)) sa.push_back(G->rpropsv[k]);
        int n2 = choose(W, 2); MexOut r = script("status", n2, sa);
        if (r.err) { CHECK(lost(), "status-failed: region %s, properties %s: %s", show(G->replyv[k]).c_str(), show(G->rpropsv[k]).c_str(), show(r.msg).c_str()); probe("status failed"); end(); return; }
        CHECK(!n2 || (r.out.size() == 1 && r.out[0] == vbool(true)), "status-result: %s", r.out.empty() ? "nothing" : show(r.out[0]).c_str());
        G->answered++;
    }
}
static void server_client() {
    const Plan& p = G->p; int lfd = -1;
    if (p.socket) {
        if (!p.client_first) sleep_for(1 + (uint64_t)choose(S, 9) * 100 * MS);
        lfd = sim_socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(G->port); CHECK(sim_bind(lfd, (struct sockaddr*)&a, sizeof a) == 0, "harness: bind");
    }
    std::unique_ptr<Cli> c(new_cli(p, &G->clog, G->c_in, G->c_out, lfd));
    if (!c->ok()) { CHECK(G->cut, "client-setup: the client cannot talk to a tracker set up with traxserver"); return; }
    G->connected = true; trax_metadata* m = c->raw()->metadata; CHECK(m, "metadata: none");
    CHECK(m->format_region == p.rformats && m->format_image == p.iformats && m->channels == p.channels, "declaration: regions %d images %d channels %d were declared, the client sees %d %d %d", p.rformats, p.iformats, p.channels, m->format_region, m->format_image, m->channels);
    auto txt = [&](const char* what, bool has, const string& want, const char* got) { if (!has || want.empty()) CHECK(!got || !*got, "declaration: %s '%s' was not declared", what, got); else CHECK(got && want == got, "declaration: %s '%s' became '%s'", what, show(want).c_str(), got ? show(got).c_str() : "nothing"); };
    txt("name", p.has_name, p.name, m->tracker_name); txt("description", p.has_desc, p.desc, m->tracker_description); txt("family", p.has_family, p.family, m->tracker_family);
    Props cu = read_props(m->custom); CHECK(cu == p.custom, "declaration: custom properties %s became %s", show(p.custom).c_str(), show(cu).c_str());
    for (size_t k = 0; k < p.steps.size(); k++) {
        const Step& s = p.steps[k]; if (s.delay_c) sleep_for(s.delay_c);
        int r = s.kind == INIT ? c->init(s, s.objs, s.imgs) : c->frame(s, {}, s.imgs);
        if (r < 0) { CHECK(G->cut, "client-call: sending step %zu failed", k); return; }
        Result w = c->wait(true);
        if ((int)k == G->quit_at && w.code == TRAX_QUIT) { auto it = w.props.find("trax.reason"); string got = it == w.props.end() ? "" : it->second; CHECK(w.unread || got == (G->has_reason ? G->reason : ""), "reason: '%s' became '%s'", show(G->reason).c_str(), show(got).c_str()); probe("session ended by the tracker"); G->client_done = true; return; }
        if (w.code != TRAX_STATE) { CHECK(G->cut, "client-wait: waiting for the answer to step %zu gave %d", k, w.code); return; }
        CHECK((int)k != G->quit_at, "ghost-answer: the tracker quit at step %zu, the client received an answer", k);
        CHECK(w.objs.size() == 1 && same(w.objs[0].reg, G->reply[k]), "wrong-answer: step %zu: the tracker answered %s, the client received %s", k, show(G->replyv[k]).c_str(), w.objs.empty() ? "nothing" : show(w.objs[0].reg).c_str());
        Props got = w.props; for (auto& q : w.objs[0].props) got.insert(q); string why;
        CHECK(same_props(got, G->rprops[k], why), "wrong-answer-properties: step %zu: %s", k, why.c_str());
    }
    if (p.end == END_CLIENT_REASON) { int r = c->terminate(&p.reason); CHECK(r >= 0 || G->cut, "client-terminate: %d", r); }
    c->release(); G->client_done = true;
}
static void run_server() {
    active = "C25"; io_profile(1); sched_profile(false); cfg.max_time = 3000 * SEC; GS g; G = &g; Plan& p = g.p;
    p.c_cpp = choose(W, 2); p.socket = choose(W, 3) == 2; p.client_first = choose(W, 2) == 0; p.s_setup = p.socket ? 1 : 1 + choose(W, 2); p.version = 4;
    p.channels = choose(W, 2) ? TRAX_CHANNEL_COLOR : subset(7); p.iformats = choose(W, 3) ? subset(15) : TRAX_IMAGE_PATH; p.rformats = choose(W, 3) ? subset(TRAX_REGION_RECTANGLE | TRAX_REGION_POLYGON | TRAX_REGION_MASK) : TRAX_REGION_RECTANGLE;
    p.has_name = choose(W, 3) != 2; p.has_desc = choose(W, 3) != 2; p.has_family = choose(W, 3) != 2; p.name = gen_text(0); p.desc = gen_text(0); p.family = gen_text(0);
    static const std::set<string> taken = {"propstruct", "name", "description", "family", "debug", "timeout", "environment", "data", "connection", "directory", "log", "channels"};
    for (auto& k : gen_props(3, 0)) { string l = k.first; for (auto& ch : l) ch = tolower(ch); if (!taken.count(l) && l.compare(0, 5, "trax.") && k.first.size() < 60) p.custom[k.first] = k.second; }
    int n = choose(W, 8) == 7 ? 0 : 1 + choose(W, 5);
    for (int i = 0; i < n; i++) {
        Step s; s.kind = i == 0 ? INIT : choose(W, 5) == 4 ? INIT : FRAME; s.imgs = gen_imgs(p.channels, p.iformats, choose(W, 6) == 5); for (int c = 0; c < 3; c++) if (s.imgs.ch[c].type == TRAX_IMAGE_PATH && s.imgs.ch[c].data.empty()) s.imgs.ch[c].data = "x.jpg";
        s.props = gen_props(4, 0); s.c_single = choose(W, 2);
        if (s.kind == INIT) { Obj o; o.reg = gen_reg(p.rformats, false); if (o.reg.type == TRAX_REGION_MASK) { o.reg.mx = (int)choose(W, 60) - 20; o.reg.my = (int)choose(W, 60) - 20; } if (!p.c_cpp && !s.c_single) o.props = gen_props(2, 0, "o."); s.objs.push_back(o); }
        if (choose(W, 6) == 5) s.delay_c = 1 + choose(W, 20) * 100 * MS; if (choose(W, 6) == 5) s.delay_s = 1 + choose(W, 20) * 100 * MS;
        p.steps.push_back(s);
        Reg r = gen_reg(TRAX_REGION_RECTANGLE | TRAX_REGION_POLYGON | TRAX_REGION_MASK, false); if (r.type == TRAX_REGION_MASK) { r.mx = r.my = 0; }
        Val rv = val(r); if (r.type == TRAX_REGION_MASK && choose(W, 2)) for (auto& b : rv.bytes) if (b) b = (char)255;
        if (r.type == TRAX_REGION_POLYGON && r.xy.size() == 4) r.xy.resize(6, 1.5f), rv = val(r);
        g.reply.push_back(r); g.replyv.push_back(rv); NProps np; Val pv = gen_given(np, choose(W, 3)); g.rprops.push_back(np); g.rpropsv.push_back(pv);
    }
    p.end = choose(W, 2) ? END_CLIENT_REASON : END_CLIENT_RELEASE; p.reason = gen_text(0); if (n && choose(W, 3) == 2) { g.quit_at = choose(W, n); g.has_reason = choose(W, 2); if (g.has_reason) g.reason = gen_text(0); }
    g.structs = choose(W, 2); g.refuse = choose(W, 2);
    g.cp = new_proc("client"); g.sp = new_proc("octave"); if (p.s_setup != 2) for (int fd = 0; fd < 3; fd++) install(g.sp, std::make_shared<File>(), fd);
    if (p.socket) { g.port = 9090; set_env(g.sp, "TRAX_SOCKET", "9090"); }
    else {
        FileP r1, w1, r2, w2; make_pipe(r1, w1, cfg.pipe_cap); make_pipe(r2, w2, cfg.pipe_cap); w1->tx->tap = &g.c2s; w2->tx->tap = &g.s2c; g.c_out = install(g.cp, w1); g.c_in = install(g.cp, r2);
        if (p.s_setup == 2) { g.s_in = install(g.sp, r1, 0); g.s_out = install(g.sp, w2, 1); install(g.sp, std::make_shared<File>(), 2); } else { g.s_in = install(g.sp, r1); g.s_out = install(g.sp, w2); set_env(g.sp, "TRAX_IN", std::to_string(g.s_in)); set_env(g.sp, "TRAX_OUT", std::to_string(g.s_out)); }
        FileP none; r1 = w1 = r2 = w2 = none;
    }
    g.sp->sig[SIGPIPE].kind = 1; g.cp->sig[SIGPIPE].kind = 1;
    int64_t at = -1, cnt = 0; if (choose(W, 4) == 3) at = choose(W, 120);
    fault_hook = [&](const char* call, Proc* q, int) -> int { if (q == g.cp && at >= 0 && (g.connected || !G->p.socket) && cnt++ == at) { g.cut = true; fault("client dies"); kill_proc(g.cp, SIGKILL); } return 0; };
    death_hook = [&](Proc* q) { if (q == g.cp) g.client_gone = true; };
    sample("%s refused calls %d, quit at %d, client dies at %lld", show(p).c_str(), g.refuse, g.quit_at, (long long)at);
    new_task(g.cp, "client", [&] { server_client(); exit_proc(g.cp, 0); }); new_task(g.sp, "octave", [&] { server_script(); exit_proc(g.sp, 0); });
    run(); CHECK(g.script_done, "script: the script has not come to its end"); CHECK(g.cut || g.client_done, "client: the client has not come to its end");
    if (!g.cut) CHECK(g.answered == (g.quit_at >= 0 ? g.quit_at : n), "answers: %d", g.answered);
    set_nontrivial();
}

// ---------------------------------------------------------------- the client function
struct CAct { int kind = 0; Imgs imgs; Reg reg; NProps props; Val imgv, regv, propv, data; uint64_t think = 0; int answer = -1; };   // kinds: 0 initialize, 1 frame, 2 end (no image), 3 frame without a tracker, 4 error, 5 bad image, 6 bad region, 7 bad properties, 8 missing results, 9 unsupported
struct CFate { int ev = 0, when = 0; uint64_t at = 0, start = 0, linger = 0; int sig = SIGKILL, code = 0; bool stubborn = false; };    // as for the command line client
struct Answer { Reg reg; Props props; uint64_t delay = 0; };
struct CInst { Proc* p = nullptr; int serial = 0, slot = 0, served = 0, answered = 0; uint64_t ev_at = 0, calls = 0; CFate f; };
struct GC {
    int version = 4, channels = 1, regions = 2, images = 1, timeout = 30, mode = 0; string name, desc, family; Props custom; std::map<string, string> env; string directory;
    vector<CAct> acts; vector<vector<int>> sent; vector<Answer> ans; vector<CFate> fates; vector<CInst*> inst; vector<string> lines; vector<bool> surely;
    Proc* sp = nullptr; Val data; int calls = 0; int last = -1; bool noisy = false; uint64_t busy = 0, signal_at = 0, returned = 0; bool failing = false, ended = false, script_error = false; string threw; int verbosity = 0; int bad = 0; int signal_call = -1; bool watcher = false;
} *K;
static void gc_happen(CInst* i) {
    static const char* nm[] = {"", "tracker exits", "tracker killed", "tracker hangs", "tracker quits", "improper introduction"};
    i->ev_at = now(); ev("tracker %d: %s", i->serial, nm[i->f.ev]); fault(nm[i->f.ev]);
    if (i->f.ev == 1) exit_proc(i->p, i->f.code);
    if (i->f.ev == 2) kill_proc(i->p, i->f.sig);
    if (i->f.ev == 3) { if (i->f.stubborn) i->p->sig[SIGTERM].kind = 1; for (;;) { std::function<bool()> never = [] { return false; }; block("hang", never); } }
}
static void interrupt() {
    K->signal_at = now(); ev("interrupt"); fault(K->watcher ? "SIGINT (signal thread of the interpreter)" : "SIGINT");
    if (K->watcher) { octave_interrupt_state++; octave_signal_caught = 1; } else deliver(K->sp, SIGINT);
}
static void say(CInst* i, const char* what) {
    if (!K->noisy) return; int n = choose(W, 3);
    for (int k = 0; k < n; k++) { string l = "tracker " + std::to_string(i->serial) + " " + what + " " + std::to_string(K->lines.size()) + " "; size_t m = choose(W, 4) == 3 ? choose(W, 200) : choose(W, 20); while (m--) l += (char)(32 + choose(W, 95)); K->lines.push_back(l); K->surely.push_back(false); l += "\n"; size_t d = 0; while (d < l.size()) { long w = k_write(2, l.data() + d, l.size() - d); if (w < 0 && errno == EINTR) continue; if (w <= 0) return; d += w; } K->surely.back() = true; }
}
static int gc_tracker(Proc* p) {
    CInst* i = new CInst; i->p = p; i->serial = (int)K->inst.size(); i->f = K->fates[std::min(K->inst.size(), K->fates.size() - 1)]; p->user = i; p->name = "tracker" + std::to_string(i->serial);
    if (K->inst.size()) { CInst* o = K->inst.back(); i->slot = o->slot + !(o->ev_at && !o->served); }   // one that dies before its initialization is replaced
    K->inst.push_back(i);
    CHECK(!K->bad, "tracker-started: a tracker is started although the call is wrong");
    CHECK(!K->returned, "late-tracker: a tracker is started after the function has returned");
    for (auto o : K->inst) CHECK(o == i || !o->p->alive, "two-trackers: tracker %d is started while tracker %d is running", i->serial, o->serial);
    CHECK(p->argv.size() == 3 && p->argv[1] == "some argument" && p->argv[2] == "x", "arguments: the tracker was started with other arguments than those given");
    check_connection(p, K->mode);
    for (auto& e : K->env) { bool ok = false; for (auto& v : p->env_store) if (v == e.first + "=" + e.second) ok = true; CHECK(ok, "environment: the tracker was started without %s=%s", e.first.c_str(), show(e.second).c_str()); }
    CHECK(K->directory.empty() || p->cwd == K->directory, "directory: the tracker was started in %s instead of %s", p->cwd.c_str(), K->directory.c_str());
    if (i->f.start) sleep_for(i->f.start);
    say(i, "starts");
    if (i->f.when == 2 && i->f.ev && i->f.ev < 4) gc_happen(i);
    if (i->f.ev == 5) { gc_happen(i); if (i->f.linger) sleep_for(i->f.linger); return i->f.code; }
    trax_metadata* m = trax_metadata_create(K->regions, K->images, K->channels, K->name.empty() ? nullptr : K->name.c_str(), K->desc.empty() ? nullptr : K->desc.c_str(), K->family.empty() ? nullptr : K->family.c_str(), 0);
    if (K->custom.size()) fill_props(m->custom, K->custom);
    trax_handle* h = trax_server_setup_v(m, trax_no_log, K->version); trax_metadata_release(&m);
    if (!h) return 9;
    for (;;) {
        trax_image_list* il = nullptr; trax_object_list* ol = nullptr; trax_region* rg = nullptr; trax_properties* pr = trax_properties_create(); int r;
        if (K->version >= 4) r = trax_server_wait_mot(h, &il, &ol, pr); else r = trax_server_wait_sot(h, &il, &rg, pr);
        Props got = read_props(pr); trax_properties_release(&pr);
        Imgs im; if (il) { im = read_imgs(il); free_imgs(&il); }
        Reg reg; bool hasreg = false; if (ol) { vector<Obj> o = read_objs(ol); if (o.size()) { reg = o[0].reg; hasreg = true; } trax_object_list_release(&ol); } if (rg) { reg = read_reg(rg); hasreg = true; trax_region_release(&rg); }
        if (r != TRAX_INITIALIZE && r != TRAX_FRAME) { if (r == TRAX_QUIT) ev("tracker %d told to quit", i->serial); break; }
        CHECK(i->slot < (int)K->sent.size() && i->served < (int)K->sent[i->slot].size(), "extra-message: tracker %d receives message number %d, which the script did not ask for", i->serial, i->served + 1);
        const CAct& a = K->acts[K->sent[i->slot][i->served]]; i->served++;
        CHECK(K->sent[i->slot][i->served - 1] == K->last, "order: tracker %d receives step %d, the script is at step %d", i->serial, K->sent[i->slot][i->served - 1], K->last);
        CHECK((r == TRAX_INITIALIZE) == (a.kind == 0), "wrong-request: step %d reaches the tracker as %s", K->last, r == TRAX_INITIALIZE ? "an initialization" : "a frame");
        for (int c = 0; c < 3; c++) if (K->channels & (1 << c)) CHECK(same(im.ch[c], a.imgs.ch[c]), "wrong-image: step %d, channel %d: the script gave %s, the tracker receives %s", K->last, c, show(a.imgs.ch[c]).c_str(), show(im.ch[c]).c_str());
        if (r == TRAX_INITIALIZE) CHECK(hasreg && same(reg, a.reg), "wrong-region: step %d: the script gave %s, the tracker receives %s", K->last, show(a.reg).c_str(), show(reg).c_str());
        string why; CHECK(same_props(got, a.props, why), "wrong-parameters: step %d: %s", K->last, why.c_str());
        const Answer& an = K->ans[a.answer];
        say(i, "works");
        if (an.delay) sleep_for(an.delay);
        if (i->f.when == 1 && i->f.ev && i->served == (int)i->f.at) { if (i->f.ev == 4) { gc_happen(i); trax_terminate(h, "enough"); break; } gc_happen(i); }
        int rc; trax_properties* ap = make_props(an.props);
        if (K->version >= 4) { vector<Obj> o(1); o[0].reg = an.reg; o[0].props = an.props; trax_object_list* l = make_objs(o); rc = trax_server_reply_mot(h, l); trax_object_list_release(&l); }
        else { trax_region* x = make_reg(an.reg); rc = trax_server_reply_sot(h, x, ap); trax_region_release(&x); }
        trax_properties_release(&ap);
        if (rc < 0) break;
        i->answered++; K->ended = false;
    }
    say(i, "ends");
    if (i->f.linger) sleep_for(i->f.linger);
    trax_cleanup(&h);
    return i->f.code;
}
static Val names_cell(const vector<std::pair<int, const char*>>& all, int flags) { vector<Val> v; for (auto& f : all) if (flags & f.first) v.push_back(vstr(f.second)); return vcell(1, v.size(), v); }
static bool same_names(const Val* v, const vector<std::pair<int, const char*>>& all, int flags) {
    if (!v || v->cls != M_CELL) return false; std::multiset<string> a, b; for (auto& f : all) if (flags & f.first) a.insert(f.second); for (auto& x : v->items) b.insert(x.text()); return a == b;
}
// one call of the script's function
static vector<Val> callback(const vector<Val>& a, int nlhs) {
    CHECK(!K->returned, "late-callback: the script's function is called after the tracking has ended"); CHECK(nlhs == 4 && a.size() == 2, "callback: %zu arguments and %d results", a.size(), nlhs);
    int n = K->calls++; ev("callback %d", n); state(mix(n, K->inst.size()));
    CHECK(!K->script_error, "callback-after-error: the script's function is called again after it has failed");
    CHECK(n < (int)K->acts.size(), "extra-callback: the script's function is called again after it has ended the tracking");
    const Val& st = a[0]; CHECK(st.cls == M_STRUCT && st.count() == 1, "state: %s", show(st).c_str());
    for (const char* f : {"region", "time", "properties", "tracker", "formats", "channels"}) CHECK(st.field(f), "state: no field %s", f);
    CHECK(a[1] == (n ? K->acts[n - 1].data : K->data), "data: call %d gets the data %s instead of %s", n, show(a[1]).c_str(), show(n ? K->acts[n - 1].data : K->data).c_str());
    const Val *t = st.field("tracker"), *fm = st.field("formats"), *ch = st.field("channels");
    auto txt = [&](const char* f, const string& want) { const Val* x = t->field(f); CHECK(x && x->text() == want && (want.empty() || x->cls == M_CHAR), "tracker-%s: %s instead of '%s'", f, x ? show(*x).c_str() : "nothing", show(want).c_str()); };
    txt("name", K->name); txt("description", K->desc); txt("family", K->family);
    CHECK(same_names(fm->field("region"), REGIONS, K->regions), "formats: regions %d are reported as %s", K->regions, show(*fm).c_str());
    CHECK(same_names(fm->field("image"), IMAGES, K->images), "formats: images %d are reported as %s", K->images, show(*fm).c_str());
    CHECK(*ch == names_cell(CHANNELS, K->channels), "channels: %d are reported as %s", K->channels, show(*ch).c_str());
    const Val *rg = st.field("region"), *tm = st.field("time"), *pr = st.field("properties"); string why;
    CHECK(tm->cls == M_DOUBLE && tm->count() == 1, "time: %s", show(*tm).c_str());
    if (n == 0) { CHECK(rg->empty(), "first-state: the first call gets the region %s", show(*rg).c_str()); CHECK(same_props(*pr, Props(), true, why), "first-state: properties: %s", why.c_str()); CHECK(tm->num() == 0, "first-state: time %g", tm->num()); }
    else {
        const Answer& an = K->ans[K->acts[n - 1].answer];
        CHECK(same(*rg, an.reg), "wrong-answer: call %d: the tracker answered %s, the script gets %s", n, show(an.reg).c_str(), show(*rg).c_str());
        CHECK(same_props(*pr, an.props, true, why), "wrong-properties: call %d: %s", n, why.c_str());
        double d = an.delay / 1e9; CHECK(tm->num() >= d - 0.2 && tm->num() >= 0 && tm->num() <= d + 3, "time: call %d: %g s were measured, the tracker took %.3f s", n, tm->num(), d);
    }
    const CAct& c = K->acts[n]; if (n == K->signal_call && !K->signal_at) interrupt(); if (c.think) sleep_for(c.think);
    K->last = n; if (c.kind >= 2) K->ended = true;
    if (c.kind == 4) { K->script_error = true; K->threw = "error of the script " + std::to_string(n); fault("callback fails"); throw mex_error(K->threw); }
    if (c.kind >= 5) { K->script_error = true; fault("callback with a wrong result"); }
    if (c.kind == 8) return {c.imgv, c.regv, c.propv};
    return {c.imgv, c.regv, c.propv, c.data};
}
static Val image_cell(const Imgs& im, int channels, bool bare) { vector<Val> v; for (int c = 0; c < 3; c++) if (channels & (1 << c)) v.push_back(val(im.ch[c])); if (v.size() == 1 && bare) return v[0]; return choose(W, 2) ? vcell(1, v.size(), v) : vcell(v.size(), 1, v); }
static Val bad_image(int channels) {
    int n = (channels & 1) + (channels >> 1 & 1) + (channels >> 2 & 1); vector<Val> many(n + 1, vstr("x.jpg"));
    auto wrap = [&](const Val& v) { vector<Val> a(n, v); return vcell(1, n, a); };
    switch (choose(W, 11)) { case 0: return wrap(vzeros({0, 0}, M_U8)); case 1: return wrap(vzeros({3, 0}, M_U8)); case 2: return wrap(vzeros({0, 5}, M_U16)); case 3: return wrap(vstr("")); case 4: return wrap(vempty()); case 5: return wrap(vzeros({4, 4})); case 6: return wrap(vzeros({4, 4, 2}, M_U8)); case 7: return vcell(1, n + 1, many); case 8: return wrap(vzeros({4, 4, 3, 2}, M_U8)); case 9: return n > 1 ? vstr("x.jpg") : vnum(4); default: return wrap(vzeros({2, 5}, M_CHAR)); }
}
static Val gen_value() { switch (choose(W, 6)) { case 0: return vempty(); case 1: return vnum((double)choose(W, 1000)); case 2: return vstr(gen_text(0)); case 3: return vcell(1, 2, {vnum(1), vstr("two")}); case 4: return vstruct({"count", "inner"}, {vnum((double)choose(W, 10)), vstruct({"x"}, {vstr("y")})}); default: return vrow({1, 2, 3}); } }
static void script_handler(int) {}
static void run_client() {
    active = "C26"; io_profile(1); sched_profile(true); cfg.max_time = 6000 * SEC; cfg.stall_max = 2 * MS; cfg.pipe_cap = std::max<size_t>(cfg.pipe_cap, 1000); GC g; K = &g;
    if (chdir(scratch_dir.c_str())) harness_error("no scratch directory"); unlink("log.txt");
    g.version = choose(W, 4) == 3 ? 2 + choose(W, 2) : 4; g.channels = choose(W, 3) == 2 ? subset(7) : TRAX_CHANNEL_COLOR; g.regions = choose(W, 3) ? TRAX_REGION_RECTANGLE : subset(TRAX_REGION_RECTANGLE | TRAX_REGION_POLYGON | TRAX_REGION_MASK);
    int use = choose(W, 3) == 2 ? TRAX_IMAGE_MEMORY : choose(W, 3) == 2 ? TRAX_IMAGE_PATH | TRAX_IMAGE_MEMORY : TRAX_IMAGE_PATH; g.images = use; if (choose(W, 3) == 2) g.images |= choose(W, 2) ? TRAX_IMAGE_BUFFER : TRAX_IMAGE_URL;
    if (choose(W, 4)) g.name = gen_text(0); if (choose(W, 4)) g.desc = gen_text(0); if (choose(W, 4)) g.family = gen_text(0); if (choose(W, 3) == 2) g.custom = gen_props(3, 0);
    static const int lim[] = {30, 5, 2, 1, 0}; g.timeout = lim[choose(W, 5)]; uint64_t most = g.timeout ? (uint64_t)g.timeout * 600 * MS : 3 * SEC;
    int n = choose(W, 8); bool trouble = choose(W, 3) == 2, init = false, err = false, unsupported = false; g.noisy = choose(W, 2);
    if (trouble && choose(W, 3) == 0) err = true;
    for (int k = 0; k <= n; k++) {
        CAct a; bool lastone = k == n; a.data = gen_value(); a.think = choose(W, 6) == 5 ? (1 + choose(W, 30)) * 100 * MS : 0; a.regv = vempty(); a.propv = gen_given(a.props, choose(W, 3)); if (choose(W, 3) == 2 && a.props.empty()) a.propv = vempty();
        a.imgs = gen_imgs(g.channels, use, choose(W, 6) == 5); for (int c = 0; c < 3; c++) if (a.imgs.ch[c].type == TRAX_IMAGE_PATH && a.imgs.ch[c].data.empty()) a.imgs.ch[c].data = "x.jpg";
        a.imgv = image_cell(a.imgs, g.channels, choose(W, 2));
        if (lastone && !err) { a.kind = !init && choose(W, 4) == 3 ? 3 : 2; if (a.kind == 2) { a.imgv = choose(W, 2) ? vempty() : choose(W, 2) ? vcell(0, 0, {}) : vstr(""); if (choose(W, 2)) a.regv = vrow({1, 2, 3, 4}); } }
        else if (lastone) {
            a.kind = 4 + choose(W, 6); if (a.kind == 9 && use == (TRAX_IMAGE_PATH | TRAX_IMAGE_MEMORY)) a.kind = 5;
            if (!init || a.kind == 6 || choose(W, 3) == 2) { a.reg = gen_reg(g.regions, false); if (a.reg.type == TRAX_REGION_MASK) a.reg.mx = a.reg.my = 0; a.regv = val(a.reg); }
            if (a.kind == 5) a.imgv = bad_image(g.channels); if (a.kind == 6) { do a.regv = bad_region(); while (a.regv.empty()); } if (a.kind == 7) do a.propv = bad_props(); while (a.propv.empty() || (a.propv.cls != M_CELL && a.propv.cls != M_STRUCT));
            if (a.kind == 9) { a.imgs = gen_imgs(g.channels, use == TRAX_IMAGE_PATH ? TRAX_IMAGE_MEMORY : TRAX_IMAGE_PATH, 0); for (int c = 0; c < 3; c++) if (a.imgs.ch[c].type == TRAX_IMAGE_PATH && a.imgs.ch[c].data.empty()) a.imgs.ch[c].data = "x.jpg"; a.imgv = image_cell(a.imgs, g.channels, false); unsupported = true; }
        } else {
            a.kind = !init || choose(W, 5) == 4 ? 0 : 1; a.answer = (int)g.ans.size(); Answer an; an.reg = gen_reg(TRAX_REGION_RECTANGLE | TRAX_REGION_POLYGON | TRAX_REGION_MASK, true); if (an.reg.type == TRAX_REGION_MASK) { an.reg.mx = (int)choose(W, 60) - 20; an.reg.my = (int)choose(W, 60) - 20; }
            an.props = choose(W, 2) ? gen_props(4, 0) : Props(); an.delay = choose(W, 4) == 3 ? choose(W, 100) * (most / 100) : 0; g.ans.push_back(an);
            if (a.kind == 0) { a.reg = gen_reg(g.regions, false); if (a.reg.type == TRAX_REGION_MASK) a.reg.mx = a.reg.my = 0; a.regv = val(a.reg); g.sent.push_back({}); init = true; }
            g.sent.back().push_back(k); g.busy += an.delay + a.think;
        }
        if (a.kind >= 2) g.busy += a.think;
        g.acts.push_back(a);
    }
    bool start = true, stuck = trouble && !err && !g.timeout && choose(W, 2);   // without a limit only the user can end a hanging tracker
    for (int k = 0; k < 12; k++) {
        CFate f; f.start = choose(W, 4) == 3 ? choose(W, 100) * (most / 100) : 0; f.linger = choose(W, 6) == 5 ? choose(W, 8) * 100 * MS : 0; f.code = choose(W, 4) == 3 ? 1 : 0;
        if (trouble && !err && (stuck || choose(W, 3) == 0)) { f.ev = stuck ? 3 : 1 + choose(W, 5); if (f.ev == 3 && !g.timeout && !stuck) f.ev = 1; f.when = f.ev >= 4 ? 1 : choose(W, 3); f.at = f.when == 1 ? 1 + choose(W, 4) : choose(W, 60); f.sig = choose(W, 2) ? SIGKILL : SIGSEGV; f.stubborn = choose(W, 2); }
        g.fates.push_back(f); g.busy += f.start + 2 * SEC;
    }
    vector<Val> a = {vstr("tracker \"some argument\" x"), vfn(callback)}; auto opt = [&](const char* nme, const Val& v) { a.push_back(any_case(nme)); a.push_back(v); };
    Proc* cp = new_proc("octave"); g.sp = cp; for (int fd = 0; fd < 3; fd++) install(cp, std::make_shared<File>(), fd); dirs.insert("/"); dirs.insert("/work"); programs["tracker"] = gc_tracker; set_env(cp, "PATH", "/bin");
    if (trouble && choose(W, 8) == 7) { a[0] = vstr("missing \"some argument\" x"); start = false; }
    g.data = vempty(); if (choose(W, 2)) { g.data = gen_value(); opt("data", g.data); }
    if (g.timeout != 30 || choose(W, 2)) opt("timeout", vrow({(double)g.timeout}, choose(W, 3) == 2 ? M_INT32 : M_DOUBLE));
    { static const char* nm[] = {"explicit", "socket", "standard"}; int k = choose(W, 5); if (k < 3) { opt("connection", any_case(nm[k])); K->mode = k == 2 ? 0 : k + 1; } }
    if (choose(W, 3) == 2) { static const char* en[] = {"FIRST", "Second_2", "x"}; vector<string> nn; vector<Val> vv; int m = choose(W, 4); for (int k = 0; k < m; k++) { g.env[en[k]] = gen_text(0); nn.push_back(en[k]); vv.push_back(vstr(g.env[en[k]])); } opt("environment", vstruct(nn, vv)); }
    if (choose(W, 4) == 3) { g.directory = "/work"; opt("directory", vstr(g.directory)); }
    int logging = choose(W, 3); if (logging) opt("log", vstr(logging == 1 ? "#" : "log.txt")); if (choose(W, 2)) { g.verbosity = 1 + choose(W, 2); opt("debug", choose(W, 2) ? vbool(g.verbosity == 2) : vnum(g.verbosity - 1)); }
    int nlhs = choose(W, 2);
    if (choose(W, 10) == 9) {
        g.bad = 1; fault("wrong call");
        switch (choose(W, 12)) { case 0: opt("bogus", vnum(1)); break; case 1: opt("name", vstr("x")); break; case 2: opt("connection", vstr("telepathy")); break; case 3: opt("environment", vcell(1, 1, {vstr("x")})); break; case 4: opt("environment", vstruct({"A"}, {vnum(3)})); break; case 5: a.push_back(vnum(3)); a.push_back(vnum(3)); break;
        case 6: nlhs = 2; break; case 7: a.resize(1); break; case 8: a[0] = vnum(5); break; case 9: a[1] = vstr("callback"); break; case 10: { Val s0 = vzeros({0, 0}); s0.cls = M_STRUCT; s0.bytes.clear(); s0.names = {"A"}; opt("environment", s0); break; } default: opt("timeout", choose(W, 2) ? vempty() : vcell(1, 1, {vnum(3)})); }
    }
    static const char* fc[] = {"pipe", "posix_spawn", "pthread_create", "socket", "bind", "listen", "accept"}; static const int fe[] = {EMFILE, EAGAIN, EAGAIN, EMFILE, EADDRINUSE, EADDRINUSE, EMFILE}; int which = -1; int64_t nth = 0, cnt = 0;
    if (choose(W, 10) == 9) { which = choose(W, 7); nth = choose(W, 5); if (!g.timeout) which = 1; if (stuck) which = -1; }
    fault_hook = [&](const char* call, Proc* p, int) -> int {
        if (p == cp && which >= 0 && !strcmp(call, fc[which]) && cnt++ == nth) { fault((string("failing ") + call).c_str()); K->failing = true; return fe[which]; }
        if (p != cp && p->user) { CInst* i = (CInst*)p->user; if (i->f.ev && i->f.ev < 4 && i->f.when == 0 && i->calls++ == i->f.at) gc_happen(i); }
        return 0; };
    sample("version %d, channels %d, images %d, regions %d, timeout %d, %zu calls (", g.version, g.channels, g.images, g.regions, g.timeout, g.acts.size()); for (auto& x : g.acts) sample("%d", x.kind); sample("), log %d, verbosity %d%s%s; trackers: ", logging, g.verbosity, g.bad ? ", wrong call" : "", start ? "" : ", cannot be started"); for (size_t k = 0; k < 3; k++) sample("(event %d/%d at %llu) ", g.fates[k].ev, g.fates[k].when, (unsigned long long)g.fates[k].at);
    MexOut o; bool done = false; uint64_t t0 = 0;
    new_task(cp, "octave", [&] {
        size_t mem0 = live_allocs(cp); int fds0 = live_fds(cp); uint64_t mark = alloc_mark(); t0 = now();
        mex_handlers.sig = script_handler; mex_handlers.brk = script_handler;
        o = mex_call(traxclient_mex, nlhs, a); g.returned = now(); done = true;
        ev("traxclient -> %s", o.err ? show(o.msg, 200).c_str() : "ok");
        for (auto i : g.inst) CHECK(!i->p->alive, "left-running: tracker %d is running when the function returns", i->serial);
        for (auto i : g.inst) CHECK(i->p->reaped, "zombie: tracker %d was not waited for", i->serial);
        CHECK(live_fds(cp) == fds0, "descriptors: %d before, %d after the call", fds0, live_fds(cp));
        CHECK(unjoined_threads(cp) == 0, "threads: %d threads are left after the call", unjoined_threads(cp));
        CHECK(live_allocs(cp) == mem0, "leak: %zu blocks are left after the call: %s", live_allocs(cp) - mem0, describe_allocs(cp, mark).c_str());
        CHECK(mex_handlers.sig == script_handler && mex_handlers.brk == script_handler, "interrupt-handler: the handler of the interpreter was not put back");
        exit_proc(cp, 0);
    });
    g.watcher = choose(W, 2); if (choose(W, 16) == 15) g.signal_call = choose(W, 4);
    if (stuck || choose(W, 8) == 7) new_task(new_proc("user"), "user", [&] { sleep_for(choose(W, 2) ? choose(W, 1000) * MS : (uint64_t)choose(W, 1000) * 20 * MS); if (!cp->alive || done || mex_handlers.sig == script_handler || !mex_handlers.sig) return; if (!g.signal_at) interrupt(); }, true);
    run(); if (!done) harness_error("the function has not returned");
    set_nontrivial(); const uint64_t FEW = 4 * SEC; uint64_t took = g.returned - t0, lim_ns = (uint64_t)g.timeout * SEC;
    if (g.bad) { CHECK(o.err, "not-refused: a wrong call is accepted"); CHECK(g.inst.empty() && g.calls == 0, "refused-late: a wrong call had effects"); return; }
    bool odd = !start || g.signal_at || g.failing; for (auto i : g.inst) if (i->ev_at) odd = true;
    // every answer reached?
    bool all = g.calls == (int)g.acts.size() && !g.script_error && !unsupported;
    if (o.ok()) {
        CHECK(all, "silent-failure: the call succeeds after %d of %zu calls of the script's function", g.calls, g.acts.size());
        CHECK(!g.signal_at || g.signal_at > t0, "-");
        if (nlhs) CHECK(o.out.size() == 1 && o.out[0] == g.acts.back().data, "result: %s instead of %s", o.out.empty() ? "nothing" : show(o.out[0]).c_str(), show(g.acts.back().data).c_str());
        probe("tracking completed");
    } else {
        CHECK(!o.interrupted || (g.signal_at && g.watcher), "ghost-interrupt: the call ends as interrupted by the user");
        CHECK(odd || g.script_error || unsupported, "ghost-error: the call fails although nothing has failed: %s", show(o.msg, 200).c_str());
        if (!odd && g.threw.size()) CHECK(o.msg.find(g.threw) != string::npos, "error-text: the script failed with '%s', the call with '%s'", g.threw.c_str(), show(o.msg, 200).c_str());
        if (o.msg.empty() && !o.interrupted) violation("error-text: the call fails without a message");
        probe(g.script_error || unsupported ? "error of the script" : "error of the tracker");
    }
    if (!odd) CHECK(took <= g.busy, "unbounded-call: it took %.2f s, the trackers and the script need %.2f s", took / 1e9, g.busy / 1e9);
    else if (g.timeout) CHECK(took <= g.busy + 2 * (lim_ns + FEW), "unbounded-call: it took %.2f s", took / 1e9);
    if (g.signal_at && g.timeout >= 0) { uint64_t think = 0; for (auto& x : g.acts) think = std::max(think, x.think); CHECK(g.returned <= g.signal_at + think + 2 * FEW, "unbounded-call: interrupted at %.2f s, returned at %.2f s", g.signal_at / 1e9, g.returned / 1e9); }
    // the log
    string text = logging == 1 ? o.printed : string(); if (logging == 2) { std::ifstream f("log.txt", std::ios::binary); std::ostringstream b; b << f.rdbuf(); text = b.str(); }
    if (logging != 1) { string rest = o.printed; CHECK(rest.empty() || g.signal_at, "ghost-output: '%s' is printed without being asked for", show(rest, 200).c_str()); }
    if (logging && g.verbosity == 0) CHECK(text.empty() || g.signal_at, "ghost-log: '%s' is logged although nothing was asked for", show(text, 200).c_str());
    if (logging && g.verbosity >= 1 && !g.failing) {
        size_t at = 0; for (size_t k = 0; k < g.lines.size(); k++) { size_t q = text.find(g.lines[k] + "\n", at); if (q == string::npos) { CHECK(odd || !g.surely[k], "lost-log: the line '%s' of the tracker is not in the log (%zu bytes)", show(g.lines[k], 200).c_str(), text.size()); continue; } at = q + g.lines[k].size() + 1; }
        if (g.lines.size()) probe("lines logged");
    }
}
}
}
SCENARIO(C25) { h::run_server(); }
SCENARIO(C26) { h::run_client(); }
