// Histories of the C++ value objects: construction, copies, moves, assignments, storage in lists, destruction in any order.
#include "session.h"
#include "shm.h"
#include <sstream>
namespace h {
template <class T, class V> struct Var { std::unique_ptr<T> o; V v; bool known = false; };
template <class T, class V> struct Pool {
    vector<Var<T, V>> vars; const char* what; std::function<V(const T&)> read; std::function<bool(const V&, const V&)> eq; std::function<T(const V&)> make; std::function<V()> gen;
    Pool(const char* w, size_t n) : what(w) { vars.resize(n); }
    Var<T, V>& any() { return vars[choose(W, (uint32_t)vars.size())]; }
    void check() { for (auto& x : vars) if (x.o && x.known) { V g = read(*x.o); if (!eq(g, x.v)) violation("value-changed: a %s no longer has the value it was given", what); } }
    void op(int k) {
        Var<T, V>&a = any(), &b = any(); state(mix(hashs(what), mix(k, (a.o ? 1 : 0) + (b.o ? 2 : 0) + (&a == &b ? 4 : 0) + (a.known ? 8 : 0) + (b.known ? 16 : 0))));
        switch (k) {
        case 0: { V v = gen(); T t = make(v); if (a.o) *a.o = t; else a.o.reset(new T(t)); a.v = v; a.known = true; break; }
        case 1: { V v = gen(); if (a.o) *a.o = make(v); else a.o.reset(new T(make(v))); a.v = v; a.known = true; break; }
        case 2: a.o.reset(new T()); a.known = false; break;
        case 3: a.o.reset(); a.known = false; break;
        case 4: if (a.o && b.o) { const T& s = *b.o; *a.o = s; a.v = b.v; a.known = b.known; } break;
        case 5: if (a.o && b.o && &a != &b) { *a.o = std::move(*b.o); a.v = b.v; a.known = b.known; b.known = false; } break;
        case 6: if (b.o && &a != &b) { std::unique_ptr<T> t(new T((const T&)*b.o)); a.o = std::move(t); a.v = b.v; a.known = b.known; } break;
        case 7: if (b.o && &a != &b) { std::unique_ptr<T> t(new T(std::move(*b.o))); a.o = std::move(t); a.v = b.v; a.known = b.known; b.known = false; } break;
        case 8: if (a.o && b.o && &a != &b) { using std::swap; T t(std::move(*a.o)); *a.o = std::move(*b.o); *b.o = std::move(t); std::swap(a.v, b.v); std::swap(a.known, b.known); } break;
        default: { vector<T> l; for (auto& x : vars) if (x.o && choose(W, 2)) l.push_back(*x.o); if (l.size() > 1) { l.erase(l.begin() + choose(W, (uint32_t)l.size())); l.insert(l.begin(), l.back()); } break; }
        }
    }
    void clear() { while (!vars.empty()) vars.erase(vars.begin() + choose(W, (uint32_t)vars.size())); }
};
int gen_int() { static const int v[] = {0, 1, -1, 7, INT_MAX, INT_MIN, 16777217, -123456789}; return choose(W, 2) ? v[choose(W, 8)] : (int)choose(W, 200000) - 100000; }
float gen_float() { static const float v[] = {0.f, 1.f, -1.5f, 0.333333f, 1e9f, -3.4e38f, 1e-7f, 123.4567f}; return choose(W, 2) ? v[choose(W, 8)] : (float)((int)choose(W, 2000000) - 1000000) / 100; }
string gen_number_text() { static const char* v[] = {"", "12", "-7", "3.75", "1e3", "x", "12abc", "--1", "4 ", " 4", "0", "-0.5", "1.", ".5", "+9", "2147483647"}; return v[choose(W, 16)]; }
bool number(const string& s, double& v) { if (s.empty()) return false; char* e; v = strtod(s.c_str(), &e); return *e == 0 && e != s.c_str(); }
bool in_int(double v) { return v > -2147483649.0 && v < 2147483648.0; }
static bool eq_imgs(const Imgs& a, const Imgs& b) { for (int c = 0; c < 3; c++) if (!same(a.ch[c], b.ch[c])) return false; return true; }
struct Meta { int r = 2, i = 1, c = 1, f = 0; string n, d, y; Props custom; };
// More ways to read and change the objects, for C28
static void more_props(Pool<trax::Properties, Props>& pool) {
    auto& a = pool.any(); if (!a.o) return; if (!a.known) { if (a.o->size()) return; a.v.clear(); a.known = true; }
    auto& twin = pool.any(); if (&twin != &a && choose(W, 2)) { twin.o.reset(new trax::Properties((const trax::Properties&)*a.o)); twin.v = a.v; twin.known = true; }
    trax::Properties& o = *a.o; string key = gen_key(choose(W, 6)); char b[128]; if (!a.v.empty() && choose(W, 3)) { auto i = a.v.begin(); std::advance(i, choose(W, (uint32_t)a.v.size())); key = i->first; }
    if (choose(W, 4) == 3) { int v = gen_int(); o.set(key, v); int back = o.get(key, 5); if (back != v) violation("number: the integer %d is stored and read back as %d", v, back); snprintf(b, sizeof b, "%d", v); a.v[key] = b; }
    if (choose(W, 6) == 5) for (int i = 0; i < 6; i++) { float v = gen_float(); o.set(key, v); snprintf(b, sizeof b, "%f", v); a.v[key] = b; string back = o.get(key, string("none")); if (back != b) violation("number: the number %s is stored and read back as %s", b, show(back).c_str()); yield(); }
    switch (choose(W, 10)) {
    case 0: { int v = gen_int(); o.set(key, v); snprintf(b, sizeof b, "%d", v); a.v[key] = b; break; }
    case 1: { float v = gen_float(); o.set(key, v); snprintf(b, sizeof b, "%f", v); a.v[key] = b; break; }
    case 2: { string v = gen_number_text(); o.set(key, v); a.v[key] = v; break; }
    case 3: { Props m = gen_props(4, 0); o.from_map(m); for (auto& x : m) a.v[x.first] = x.second; break; }
    case 4: { std::stringstream ss; ss << o; string want; vector<string> g, w; string l = ss.str(); size_t n = 0; for (auto& x : a.v) n += x.first.size() + x.second.size() + 2; if (l.size() != n) violation("value-changed: a property set prints %zu characters instead of %zu", l.size(), n);
        for (auto& x : a.v) if (l.find(x.first + "=" + x.second + "\n") == string::npos) violation("value-changed: printing a property set leaves out %s", show(x.first).c_str()); break; }
    case 5: { Props got; o.enumerate([](const char* k, const char* v, const void* m) { auto& g = *(Props*)m; if (!g.emplace(k, v).second) violation("value-changed: a key is enumerated twice"); }, &got); if (got != a.v) violation("value-changed: enumerating a property set gives %s instead of %s", show(got).c_str(), show(a.v).c_str()); break; }
    default: {
        auto f = a.v.find(key); bool has = f != a.v.end(); double v = 0; bool num = has && number(f->second, v); int di = gen_int(); float df = gen_float();
        string s = o.get(key, string("dflt")), s2 = o.get(key, (const char*)"d2"); if (s != (has ? f->second : "dflt") || s2 != (has ? f->second : "d2")) violation("value-changed: property %s is %s", show(key).c_str(), show(s).c_str());
        if (!num || in_int(v)) { int want = num ? (int)v : di, got = o.get(key, di); if (got != want) violation("number: property %s with text %s is %d as an integer, not %d", show(key).c_str(), has ? show(f->second).c_str() : "(none)", got, want);
            bool d = choose(W, 2), wb = num ? (int)v != 0 : d, gb = o.get(key, d); if (gb != wb) violation("number: property %s with text %s is %d as a truth value", show(key).c_str(), has ? show(f->second).c_str() : "(none)", gb); }
        float want = num ? (float)v : df, got = o.get(key, df); if (got != want && !(got != got && want != want)) violation("number: property %s with text %s is %g as a number, not %g", show(key).c_str(), has ? show(f->second).c_str() : "(none)", got, want);
        double gd = o.get(key, (double)df); if (gd != (double)want && !(want != want)) violation("number: property %s is %g as a double, not %g", show(key).c_str(), gd, want);
    } }
}
static void more_region(Pool<trax::Region, Reg>& pool) {
    auto &a = pool.any(), &b = pool.any(); if (!a.o || !a.known) return; trax::Region& o = *a.o; Reg& v = a.v;
    switch (choose(W, 9)) {
    case 6: if (v.type == TRAX_REGION_MASK) { int x = choose(W, v.mw), y = choose(W, v.mh); bool in = o.contains((float)(v.mx + x), (float)(v.my + y)), want = v.bits[(size_t)y * v.mw + x] != 0; if (in != want) violation("contains: pixel %d,%d of a mask is said to be %s", x, y, in ? "inside" : "outside"); }
        else if (v.type == TRAX_REGION_RECTANGLE && v.r[2] > 4 && v.r[3] > 4 && fabs(v.r[0]) < 1e5 && fabs(v.r[1]) < 1e5 && v.r[2] < 1e5 && v.r[3] < 1e5) { if (!o.contains(v.r[0] + v.r[2] / 2, v.r[1] + v.r[3] / 2)) violation("contains: a rectangle does not contain its centre"); if (o.contains(v.r[0] - 2, v.r[1] + v.r[3] / 2) || o.contains(v.r[0] + v.r[2] / 2, v.r[1] + v.r[3] + 2)) violation("contains: a rectangle contains a point outside of it"); } break;
    case 7: if (b.o && b.known) { std::stringstream ss; ss << o << *b.o; trax::Region c, d; ss >> c >> d; if (!same(read_reg(c), v) || !same(read_reg(d), b.v)) violation("text: two regions written to a stream one after the other do not read back"); } break;
    case 0: { std::stringstream ss; int ends = choose(W, 3); string t = o; ss << t << (ends == 0 ? "\n" : ends == 1 ? "\r\n" : ""); if (ends < 2) ss << "1,2,3,4\n"; trax::Region c, d; ss >> c; if (!same(read_reg(c), v)) violation("text: a region does not read back from %s", show(t).c_str());
        if (ends < 2) { ss >> d; Reg w; w.type = TRAX_REGION_RECTANGLE; for (int i = 0; i < 4; i++) w.r[i] = i + 1; if (!same(read_reg(d), w)) violation("text: reading a region takes more than its line"); } break; }
    case 1: { trax::Bounds x = o.bounds(); double l, t, r, bt; bounds(v, l, t, r, bt); if (v.type == TRAX_REGION_SPECIAL || l > r) break; if (v.type == TRAX_REGION_RECTANGLE) { r -= 1; bt -= 1; }
        double e[] = {l, t, r, bt}, g[] = {x.left, x.top, x.right, x.bottom}; for (int i = 0; i < 4; i++) if (fabs(e[i] - g[i]) > 0.01 + fabs(e[i]) * 1e-5) violation("bounds: a region's bounds are [%g,%g,%g,%g] instead of [%g,%g,%g,%g]", g[0], g[1], g[2], g[3], e[0], e[1], e[2], e[3]);
        trax::Bounds y(1, 2, 3, 4), z, q((trax_bounds)x); if (y.left != 1 || y.top != 2 || y.right != 3 || y.bottom != 4 || z.left > -1e30f || z.top > -1e30f || z.right < 1e30f || z.bottom < 1e30f || q.left != x.left || q.top != x.top || q.right != x.right || q.bottom != x.bottom) violation("bounds: bounds do not keep their values"); break; }
    case 2: if (v.type == TRAX_REGION_MASK) { int row = choose(W, v.mh); char* d = o.write_mask_row(row); for (int i = 0; i < v.mw; i++) { char c = choose(W, 2); d[i] = c; v.bits[(size_t)row * v.mw + i] = c; } } break;
    case 3: if (v.type == TRAX_REGION_POLYGON) { int i = choose(W, (uint32_t)v.xy.size() / 2); float x = gen_int() % 5000, y = gen_int() % 5000; o.set_polygon_point(i, x, y); v.xy[2 * i] = x; v.xy[2 * i + 1] = y; } break;
    case 4: if (v.type != TRAX_REGION_SPECIAL) { trax::Region c = o.convert(v.type); if (!same(read_reg(c), v)) violation("convert: a region converted to its own type is another one"); if (b.o && &b != &a) { *b.o = c; b.v = v; b.known = true; } } break;
    case 5: if (v.type == TRAX_REGION_RECTANGLE) { float x = -1, h = -1; o.get(&x, NULL, NULL, &h); float w = -1, y = -1; o.get(NULL, &y, &w, NULL); if (!(x == v.r[0] && y == v.r[1] && w == v.r[2] && h == v.r[3])) violation("value-changed: a rectangle is read as %g,%g,%g,%g", x, y, w, h); } break;
    default: { trax::Region c = o.convert(TRAX_REGION_SPECIAL); if (c.type() != TRAX_REGION_SPECIAL || (v.type == TRAX_REGION_SPECIAL && c.get() != v.code)) violation("convert: the code of a region converted to a special one"); trax::Region n; n.bounds(); n.contains(1, 2); if (!n.empty() || !n.convert(TRAX_REGION_MASK).empty() || n.overlap(o) != 0 || o.overlap(n) != 0 || string(n) != "") violation("value-changed: an empty region is not empty"); }
    }
}
void object_history(int steps, bool values, int focus = -1) { uint64_t hist = 0;
        {
            int n = 2 + choose(W, 4);
            Pool<trax::Image, Img> im("image", n); im.read = [](const trax::Image& x) { return read_img(x); }; im.eq = [](const Img& a, const Img& b) { return same(a, b); }; im.make = [](const Img& v) { return cpp_img(v); }; im.gen = [] { return gen_img(15, 0); };
            Pool<trax::Region, Reg> rg("region", n); rg.read = [](const trax::Region& x) { return read_reg(x); }; rg.eq = [](const Reg& a, const Reg& b) { return same(a, b); }; rg.make = [](const Reg& v) { return cpp_reg(v); }; rg.gen = [] { return gen_reg(TRAX_REGION_ANY, true); };
            Pool<trax::Properties, Props> pr("property set", n); pr.read = [](const trax::Properties& x) { std::map<string, string> m; x.to_map(m); return m; }; pr.eq = [](const Props& a, const Props& b) { return a == b; }; pr.make = [](const Props& v) { return cpp_props(v); }; pr.gen = [] { return gen_props(4, 1); };
            Pool<trax::ImageList, Imgs> il("image list", n); il.read = [](const trax::ImageList& x) { return read_imgs(x); }; il.eq = eq_imgs; il.make = [](const Imgs& v) { return cpp_imgs(v); }; il.gen = [] { return gen_imgs(1 + choose(W, 7), 15, 0); };
            Pool<trax::ObjectList, vector<Obj>> ol("object list", n); ol.read = [](const trax::ObjectList& x) { return read_objs(x); }; ol.eq = [](const vector<Obj>& a, const vector<Obj>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i].reg, b[i].reg) || a[i].props != b[i].props) return false; return true; }; ol.make = [](const vector<Obj>& v) { return cpp_objs(v); }; ol.gen = [] { vector<Obj> o(choose(W, 4)); for (auto& x : o) x.reg = gen_reg(TRAX_REGION_ANY, true); return o; };
            Pool<trax::Metadata, Meta> md("metadata", n);
            md.read = [](const trax::Metadata& x) { Meta m; m.r = x.region_formats(); m.i = x.image_formats(); m.c = x.channels(); m.n = x.tracker_name(); m.d = x.tracker_description(); m.y = x.tracker_family(); m.custom["k"] = x.get_custom("k"); return m; };
            md.eq = [](const Meta& a, const Meta& b) { return a.r == b.r && a.i == b.i && a.c == b.c && a.n == b.n && a.d == b.d && a.y == b.y && a.custom == b.custom; };
            md.make = [](const Meta& v) { trax::Metadata m(v.r, v.i, v.c, v.n, v.d, v.y, v.f); m.set_custom("k", v.custom.at("k")); return m; };
            md.gen = [] { Meta m; m.r = 2 + choose(W, 7) * 2; m.i = 1 + choose(W, 15); m.c = 1 + choose(W, 7); m.n = gen_text(0); m.d = gen_text(0); m.y = gen_text(0); m.custom["k"] = gen_text(0); return m; };
            for (int s = 0; s < steps; s++) {
                int what = choose(W, 8), k = choose(W, 14); if (values) { if (focus >= 0 && choose(W, 5)) { static const int m[4][2] = {{2, 7}, {1, 0}, {5, 6}, {0, 3}}; what = m[focus][choose(W, 2)]; } yield(); hist = mix(what * 14 + k, hist) % 4096; state(hist + 99); }
                switch (what) {
                case 0: if (values && choose(W, 2)) { more_region(rg); break; } if (k > 9) { auto& a = im.any(); if (a.o) { a.o->empty(); a.o->type(); } } else im.op(k); break;
                case 1:
                    if (k > 9) { auto &a = rg.any(), &b = rg.any(); if (a.o && a.known) switch (k) {
                        case 10: { int t[] = {TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK, TRAX_REGION_SPECIAL}; trax::Region c = a.o->convert(t[choose(W, a.v.type == TRAX_REGION_SPECIAL ? 1 : 2)]); c.bounds(); if (b.o) { b.known = false; *b.o = c; } break; }
                        case 11: { std::stringstream ss; ss << *a.o; trax::Region c; ss >> c; string x = *a.o, y = c; if (x != y) violation("text: a region printed and read again differs: %s and %s", show(x).c_str(), show(y).c_str()); break; }
                        case 12: { float v[4] = {(float)choose(W, 100), 2, 3, 4}; a.o->set(v[0], v[1], v[2], v[3]); a.v = Reg(); a.v.type = TRAX_REGION_RECTANGLE; memcpy(a.v.r, v, sizeof v); break; }
                        default: if (a.v.type == TRAX_REGION_POLYGON) { a.o->set_polygon_point(0, 7, 9); a.v.xy[0] = 7; a.v.xy[1] = 9; } else { a.o->set((int)choose(W, 3)); a.v = Reg(); a.v.type = TRAX_REGION_SPECIAL; a.v.code = a.o->get(); } } }
                    else rg.op(k);
                    break;
                case 2: if (k > 9) { auto& a = pr.any(); if (a.o) { if (!a.known) { if (a.o->size() == 0) { a.v.clear(); a.known = true; } } if (k < 12) { string key = gen_key(choose(W, 5)), t = gen_text(1); a.o->set(key, t); a.v[key] = t; } else if (k == 12) { a.o->clear(); a.v.clear(); a.known = true; } else { vector<string> keys; a.o->to_vector(keys); std::stringstream ss; ss << *a.o; a.o->get("nothing", 1); a.o->get("nothing", 1.0f); a.o->get("nothing", true); if (a.known && keys.size() != a.v.size()) violation("value-changed: a property set has %zu keys instead of %zu", keys.size(), a.v.size()); } } } else pr.op(k); break;
                case 3: case 4: if (k > 9) { auto& a = il.any(); auto& b = im.any(); if (a.o && a.known) { int c = choose(W, 3); if (k < 12) { if (b.o && b.known) { a.o->set(*b.o, 1 << c); a.v.ch[c] = b.v; } else { a.o->set(trax::Image(), 1 << c); a.v.ch[c] = Img(); } } else { if (b.o) *b.o = a.o->get(1 << c); else b.o.reset(new trax::Image(a.o->get(1 << c))); b.v = a.v.ch[c]; b.known = b.v.type != 0; } int cnt = 0; for (auto& x : a.v.ch) cnt += x.type != 0; if (a.o->size() != cnt) violation("value-changed: an image list has %d images instead of %d", a.o->size(), cnt); } } else il.op(k); break;
                case 5: case 6: if (k > 9) { auto& a = ol.any(); auto& b = rg.any(); if (a.o && a.known && !a.v.empty()) { int c = choose(W, (uint32_t)a.v.size()); if (k < 12) { if (b.o && b.known) { a.o->set(c, *b.o); a.v[c].reg = b.v; } } else if (k == 12) { if (b.o) *b.o = a.o->get(c); else b.o.reset(new trax::Region(a.o->get(c))); b.v = a.v[c].reg; b.known = b.v.type != 0; } else { trax::Properties q = a.o->properties(c); auto& d = pr.any(); if (d.o) { *d.o = q; d.v = a.v[c].props; d.known = true; } } } } else ol.op(k); break;
                default: if (values && choose(W, 2)) { more_props(pr); break; } if (k > 9) { auto& a = md.any(); if (a.o && a.known) a.o->get_custom("none"); } else if (k != 2) md.op(k); break;
                }
                if (choose(W, 4) == 3) { im.check(); rg.check(); pr.check(); il.check(); ol.check(); md.check(); }
            }
            im.check(); rg.check(); pr.check(); il.check(); ol.check(); md.check();
            switch (choose(W, 3)) { case 0: im.clear(); rg.clear(); break; case 1: il.clear(); ol.clear(); break; default: pr.clear(); md.clear(); }
        }
}
void scen_objects(const char* id) {
    active = id; Proc* p = new_proc("app"); bool done = false; int steps = 4 + choose(W, choose(W, 3) == 2 ? 120 : 30);
    sample("history of %d operations on C++ objects\n", steps);
    new_task(p, "app", [&] {
        size_t mem0 = live_allocs(p); uint64_t mark = alloc_mark();
        object_history(steps, false);
        CHECK(live_allocs(p) == mem0, "object-leak: %s", first_alloc_site(p, mark).c_str());
        done = true;
    });
    run();
    CHECK(done, "stuck");
    set_nontrivial();
}
}
