// C28: the values of the objects of the C and C++ interface, in one to three threads with objects of their own.
#include "session.h"
#include "shm.h"
namespace h {
void object_history(int steps, bool values, int focus = -1);
int gen_int(); float gen_float(); string gen_number_text(); bool number(const string& s, double& v); bool in_int(double v);
// -------------------------------------------------------------- histories of the C interface
struct CHist {
    struct P { trax_properties* o = nullptr; Props v; }; struct R { trax_region* o = nullptr; Reg v; }; struct L { trax_object_list* o = nullptr; vector<Obj> v; };
    struct I { trax_image* o = nullptr; Img v; };
    vector<P> ps; vector<R> rs; vector<L> ls; vector<I> is;
    template <class T> T& any(vector<T>& v) { return v[choose(W, (uint32_t)v.size())]; }
    CHist(int n) { ps.resize(n); rs.resize(n); ls.resize(n); is.resize(n); }
    static bool eq(const vector<Obj>& a, const vector<Obj>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i].reg, b[i].reg) || a[i].props != b[i].props) return false; return true; }
    void check(P& p) { if (!p.o) return; Props g = read_props(p.o); if (g != p.v) violation("value-changed: a property set is %s instead of %s", show(g).c_str(), show(p.v).c_str()); if (trax_properties_count(p.o) != (int)p.v.size()) violation("value-changed: a property set counts %d instead of %zu", trax_properties_count(p.o), p.v.size()); }
    void check(R& r) { if (r.o && !same(read_reg(r.o), r.v)) violation("value-changed: a region is %s instead of %s", show(read_reg(r.o)).c_str(), show(r.v).c_str()); }
    void check(L& l) { if (l.o && !eq(read_objs(l.o), l.v)) violation("value-changed: an object list of %d objects (should be %zu) has other contents", trax_object_list_count(l.o), l.v.size()); }
    void check(I& i) { if (i.o && !same(read_img(i.o), i.v)) violation("value-changed: an image changed"); }
    void check() { for (auto& x : ps) check(x); for (auto& x : rs) check(x); for (auto& x : ls) check(x); for (auto& x : is) check(x); }
    void props() {
        P& a = any(ps); if (!a.o) { if (choose(W, 3)) { a.v = gen_props(4, 1); a.o = make_props(a.v); } else { P& b = any(ps); a.v.clear(); if (b.o) { a.o = trax_properties_copy(b.o); a.v = b.v; } else a.o = trax_properties_create(); } return; }
        string key = gen_key(choose(W, 6)); char buf[128];
        switch (choose(W, 12)) {
        case 0: { string t = gen_text(1); trax_properties_set(a.o, key.c_str(), t.c_str()); a.v[key] = t; break; }
        case 1: { int v = gen_int(); trax_properties_set_int(a.o, key.c_str(), v); snprintf(buf, sizeof buf, "%d", v); a.v[key] = buf; break; }
        case 2: { float v = gen_float(); trax_properties_set_float(a.o, key.c_str(), v); snprintf(buf, sizeof buf, "%f", v); a.v[key] = buf; break; }
        case 3: { string v = gen_number_text(); trax_properties_set(a.o, key.c_str(), v.c_str()); a.v[key] = v; break; }
        case 4: case 5: { P& b = any(ps); if (!b.o || &a == &b) break; int over = choose(W, 2); trax_properties_append(b.o, a.o, over); for (auto& x : b.v) if (over || !a.v.count(x.first)) a.v[x.first] = x.second; break; }
        case 6: trax_properties_clear(a.o); a.v.clear(); break;
        case 7: trax_properties_release(&a.o); if (a.o) violation("value-changed: a released property set is not reset"); break;
        default: {
            auto f = a.v.find(key); bool has = f != a.v.end(); double v = 0; bool num = has && number(f->second, v); int di = gen_int(); float df = gen_float();
            if ((trax_properties_has(a.o, key.c_str()) != 0) != has) violation("value-changed: a property set %s %s", has ? "lost" : "invented", show(key).c_str());
            char* s = trax_properties_get(a.o, key.c_str()); string g = s ? s : ""; bool got = s; if (s) sim_free(s); if (got != has || (has && g != f->second)) violation("value-changed: property %s is %s", show(key).c_str(), show(g).c_str());
            if (!num || in_int(v)) { int want = num ? (int)v : di, r = trax_properties_get_int(a.o, key.c_str(), di); if (r != want) violation("number: property %s with text %s is %d as an integer, not %d", show(key).c_str(), show(g).c_str(), r, want); }
            float want = num ? (float)v : df, r = trax_properties_get_float(a.o, key.c_str(), df); if (r != want && !(r != r && want != want)) violation("number: property %s with text %s is %g as a number, not %g", show(key).c_str(), show(g).c_str(), r, want);
        } }
    }
    void region() {
        R &a = any(rs), &b = any(rs);
        if (!a.o) { if (b.o && choose(W, 2)) { a.o = trax_region_clone(b.o); a.v = b.v; } else { a.v = gen_reg(TRAX_REGION_ANY, true); a.o = make_reg(a.v); } return; }
        Reg& v = a.v;
        switch (choose(W, 10)) {
        case 0: case 1: { char* s = trax_region_encode(a.o); string t = s ? s : ""; if (s) sim_free(s); trax_region* r = trax_region_decode(t.c_str()); if (!r || !same(read_reg(r), v)) violation("text: a region does not decode from %s", show(t).c_str()); trax_region_release(&r); break; }
        case 2: { static const char* bad[] = {"1,2", "1,2,3", "1,2,3,4,5", "1,2,3,4,5,6,7", "rect:1,2,3", "poly:1,2,3,4", "mask:1,2,3", "special:1,2", "mask:1,2,0,4", "poly:1,2,3,4,5,6,7"}; const char* t = bad[choose(W, 10)]; trax_region* r = trax_region_decode(t); if (r) violation("text: %s decodes to a region", t); break; }
        case 3: { static const struct { const char* t; int type; } good[] = {{"rect:5,6,7,8", TRAX_REGION_RECTANGLE}, {"5,6,7,8", TRAX_REGION_RECTANGLE}, {"poly:1,2,3,4,5,6", TRAX_REGION_POLYGON}, {"1,2,3,4,5,6", TRAX_REGION_POLYGON}, {"special:3", TRAX_REGION_SPECIAL}, {"3", TRAX_REGION_SPECIAL}, {"mask:1,2,2,2,1,2", TRAX_REGION_MASK}}; auto& g = good[choose(W, 7)]; trax_region* r = trax_region_decode(g.t); if (!r || trax_region_get_type(r) != g.type) violation("text: %s decodes to type %d", g.t, trax_region_get_type(r)); Reg x = read_reg(r); trax_region_release(&a.o); a.o = r; v = x;
            if ((g.type == TRAX_REGION_RECTANGLE && !(x.r[0] == 5 && x.r[1] == 6 && x.r[2] == 7 && x.r[3] == 8)) || (g.type == TRAX_REGION_POLYGON && x.xy != vector<float>{1, 2, 3, 4, 5, 6}) || (g.type == TRAX_REGION_SPECIAL && x.code != 3) || (g.type == TRAX_REGION_MASK && !(x.mx == 1 && x.my == 2 && x.mw == 2 && x.mh == 2 && !x.bits[0] && x.bits[1] && x.bits[2] && !x.bits[3]))) violation("text: %s decodes to %s", g.t, show(x).c_str()); break; }
        case 4: if (v.type == TRAX_REGION_RECTANGLE) { for (float& f : v.r) f = (float)(gen_int() % 10000); trax_region_set_rectangle(a.o, v.r[0], v.r[1], v.r[2], v.r[3]); float x = 0, y = 0, w = 0, h = 0; trax_region_get_rectangle(a.o, &x, NULL, &w, NULL); trax_region_get_rectangle(a.o, NULL, &y, NULL, &h); if (!(x == v.r[0] && y == v.r[1] && w == v.r[2] && h == v.r[3])) violation("value-changed: a rectangle is read as %g,%g,%g,%g", x, y, w, h); }
            else if (v.type == TRAX_REGION_SPECIAL) { v.code = gen_int(); trax_region_set_special(a.o, v.code); }
            else if (v.type == TRAX_REGION_POLYGON) { int i = choose(W, (uint32_t)v.xy.size() / 2); float x = (float)(gen_int() % 5000), y = (float)(gen_int() % 5000); trax_region_set_polygon_point(a.o, i, x, y); v.xy[2 * i] = x; v.xy[2 * i + 1] = y; float gx = -1, gy = -1; trax_region_get_polygon_point(a.o, i, NULL, &gy); trax_region_get_polygon_point(a.o, i, &gx, NULL); if (gx != x || gy != y) violation("value-changed: a point is read as %g,%g", gx, gy); }
            else { int row = choose(W, v.mh); char* d = trax_region_write_mask_row(a.o, row); for (int i = 0; i < v.mw; i++) { d[i] = choose(W, 2); v.bits[(size_t)row * v.mw + i] = d[i]; } int x = 0, y = 0, w = 0, h = 0; trax_region_get_mask_header(a.o, &x, NULL, NULL, &h); trax_region_get_mask_header(a.o, NULL, &y, &w, NULL); if (x != v.mx || y != v.my || w != v.mw || h != v.mh) violation("value-changed: a mask is at %d,%d with %dx%d", x, y, w, h); }
            break;
        case 5: { trax_bounds x = trax_region_bounds(a.o); double l, t, r, bt; bounds(v, l, t, r, bt); if (v.type == TRAX_REGION_SPECIAL || l > r) break; if (v.type == TRAX_REGION_RECTANGLE) { r -= 1; bt -= 1; } double e[] = {l, t, r, bt}, g[] = {x.left, x.top, x.right, x.bottom}; for (int i = 0; i < 4; i++) if (fabs(e[i] - g[i]) > 0.01 + fabs(e[i]) * 1e-5) violation("bounds: a region's bounds are [%g,%g,%g,%g] instead of [%g,%g,%g,%g]", g[0], g[1], g[2], g[3], e[0], e[1], e[2], e[3]); break; }
        case 6: if (v.type == TRAX_REGION_MASK) { int x = choose(W, v.mw), y = choose(W, v.mh); int in = trax_region_contains(a.o, (float)(v.mx + x), (float)(v.my + y)); if ((in != 0) != (v.bits[(size_t)y * v.mw + x] != 0)) violation("contains: pixel %d,%d of a mask is said to be %s", x, y, in ? "inside" : "outside"); if (trax_region_contains(a.o, (float)(v.mx - 2), (float)v.my) || trax_region_contains(a.o, (float)v.mx, (float)(v.my + v.mh + 1))) violation("contains: a mask contains a point outside of it"); } break;
        case 7: trax_region_release(&a.o); if (a.o) violation("value-changed: a released region is not reset"); break;
        case 8: if (trax_region_clone(NULL) || trax_region_convert(NULL, TRAX_REGION_MASK) || trax_region_get_type(NULL) != TRAX_REGION_EMPTY || trax_image_get_type(NULL) != TRAX_IMAGE_EMPTY) violation("value-changed: nothing is taken for a region or image"); break;
        default: if (v.type != TRAX_REGION_SPECIAL) { trax_region* c = trax_region_convert(a.o, v.type); if (!c || !same(read_reg(c), v)) violation("convert: a region converted to its own type is another one"); trax_region_release(&c); }
        }
    }
    void list() {
        L& a = any(ls); if (!a.o) { if (choose(W, 2)) { a.v.assign(choose(W, 4), Obj()); a.o = trax_object_list_create((int)a.v.size()); for (auto& x : a.v) x.reg.type = TRAX_REGION_SPECIAL; } else { a.v.resize(1 + choose(W, 3)); for (auto& x : a.v) { x.reg = gen_reg(TRAX_REGION_ANY, true); x.props = gen_props(3, 0); } a.o = make_objs(a.v); } return; }
        int n = (int)a.v.size(), i = (int)choose(W, n + 3) - 1;
        switch (choose(W, 7)) {
        case 0: { R& r = any(rs); if (!r.o) break; trax_object_list_set(a.o, i, r.o); if (i >= 0 && i < n) a.v[i].reg = r.v; break; }
        case 1: { trax_region* r = trax_object_list_get(a.o, i); bool in = i >= 0 && i < n; if ((r != NULL) != in || (in && !same(read_reg(r), a.v[i].reg))) violation("value-changed: object %d of %d is another one", i, n); break; }
        case 2: { trax_properties* p = trax_object_list_properties(a.o, i); bool in = i >= 0 && i < n; if ((p != NULL) != in) violation("value-changed: properties of object %d of %d", i, n); if (in) { string k = gen_key(choose(W, 4)), t = gen_text(0); trax_properties_set(p, k.c_str(), t.c_str()); a.v[i].props[k] = t; } break; }
        case 3: case 4: { L& b = any(ls); if (!b.o || &a == &b || n + b.v.size() > 12) break; int r = trax_object_list_append(a.o, b.o); a.v.insert(a.v.end(), b.v.begin(), b.v.end()); if (r != (int)a.v.size()) violation("value-changed: appending objects gives %d instead of %zu", r, a.v.size()); break; }
        case 5: trax_object_list_release(&a.o); if (a.o) violation("value-changed: a released list is not reset"); break;
        default: if (trax_object_list_count(a.o) != n) violation("value-changed: a list counts %d instead of %d", trax_object_list_count(a.o), n);
        }
    }
    void image() {
        I& a = any(is); if (!a.o) { a.v = gen_img(15, 0); a.o = make_img(a.v); return; }
        switch (choose(W, 4)) {
        case 0: if (a.v.type == TRAX_IMAGE_MEMORY) { int w = 0, h = 0, f = 0; trax_image_get_memory_header(a.o, &w, &h, &f); size_t row = a.v.data.size() / a.v.h; int y = choose(W, a.v.h); char* d = trax_image_write_memory_row(a.o, y); for (size_t k = 0; k < row; k++) { d[k] = (char)choose(W, 256); a.v.data[y * row + k] = d[k]; } } break;
        case 1: trax_image_release(&a.o); if (a.o) violation("value-changed: a released image is not reset"); break;
        case 2: { trax_image_list* l = trax_image_list_create(); I& b = any(is); int c = 1 << choose(W, 3), d = 1 << choose(W, 3); trax_image_list_set(l, a.o, c); if (&a != &b && b.o) { trax_image_list_set(l, b.o, d); } trax_image_list_set(l, a.o, 3); trax_image_list_set(l, a.o, 0); trax_image_list_set(l, a.o, 8);
            bool over = &a != &b && b.o && c == d; for (int k = 1; k < 8; k++) { trax_image* g = trax_image_list_get(l, k); trax_image* want = k == d && &a != &b && b.o ? b.o : k == c ? a.o : NULL; if (g != want) violation("value-changed: an image list has another image in channel %d", k); }
            if (choose(W, 2)) { trax_image_list_clear(l); if (!over) a.o = NULL; if (&a != &b) b.o = NULL; for (int k = 0; k < 3; k++) if (trax_image_list_get(l, 1 << k)) violation("value-changed: a cleared image list has images"); }
            trax_image_list_release(&l); if (l) violation("value-changed: a released image list is not reset"); break; }
        default: for (int c = 0; c < 8; c++) { int n = (c & 1) + (c >> 1 & 1) + (c >> 2 & 1); if (trax_image_list_count(c) != n) violation("value-changed: channels %d count %d", c, trax_image_list_count(c)); }
        }
    }
    uint64_t hist = 0;
    void run(int steps, int focus) {
        for (int s = 0; s < steps; s++) { yield(); int k = choose(W, 8); if (focus >= 0 && choose(W, 5)) k = focus * 2 + 1; hist = mix(k, hist) % 4096; state(mix(hist, ps.size())); switch (k) { case 0: case 1: case 2: props(); break; case 3: case 4: region(); break; case 5: case 6: list(); break; default: image(); } if (choose(W, 6) == 5) check(); }
        check();
        for (auto& x : ps) trax_properties_release(&x.o);
        for (auto& x : rs) if (x.o) trax_region_release(&x.o);
        for (auto& x : ls) trax_object_list_release(&x.o);
        for (auto& x : is) if (x.o) trax_image_release(&x.o);
    }
};
}
using namespace h;
static void object_threads(bool shared) {   // shared: how threads of one program affect each other
    sched_profile(true); int n = !shared && choose(W, 3) == 2 ? 1 : 2 + choose(W, 2); if (n > 1 && (shared || choose(S, 4))) { static const unsigned r[] = {8, 40, 200, 1500}; cfg.mem_switch_num = choose(S, 2) ? 60 : 200; cfg.mem_range = r[choose(S, 4)]; cfg.switch_num = 200; }
     Proc* p = new_proc("app"); int left = n;
    size_t mem0 = 0; uint64_t mark = 0; bool first = true;
    int focus = choose(W, 2) ? (int)choose(W, 4) : -1; if (shared && choose(W, 2)) focus = 1;
    for (int i = 0; i < n; i++) {
        bool c = choose(W, 2); int steps = 4 + choose(W, choose(W, 3) == 2 ? 100 : 30), vars = 2 + choose(W, 4); sample("thread %d: %d operations on objects of the %s interface\n", i, steps, c ? "C" : "C++");
        new_task(p, "app" + std::to_string(i), [&, c, steps, vars, focus] {
            if (first) { first = false; mem0 = live_allocs(p); mark = alloc_mark(); }
            if (c) { CHist x(vars); x.run(steps, focus); } else object_history(steps, true, focus);
            if (--left == 0) CHECK(live_allocs(p) == mem0, "object-leak: %s", first_alloc_site(p, mark).c_str());
        });
    }
    run();
    CHECK(left == 0, "stuck");
    set_nontrivial();
}
SCENARIO(C28) { active = "C28"; object_threads(false); }
namespace h { void side_by_side() { active = "C19"; object_threads(true); } }
