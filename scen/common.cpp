#include "common.h"
#include <signal.h>
#include <unistd.h>
#include "shm.h"

namespace h {
const char* active = "";
bool relevant(const char* ids) {
    size_t n = strlen(active); const char* p = ids;
    while ((p = strstr(p, active))) { if ((p == ids || p[-1] == ',') && (p[n] == 0 || p[n] == ',')) return true; p += n; }
    return false;
}
void give_up(const char* why) { probe("abandoned: other property"); if (tracing()) fprintf(stderr, "run abandoned, not about %s: %s\n", active, why); shm->simtime = now(); _exit(RC_OK); }

// ---------------------------------------------------------------- generators
size_t gen_len(int scale) {
    static const int edge[] = {1, 2, 63, 64, 65, 127, 128, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192};
    uint32_t c = choose(W, 16);
    if (c < 9 || scale == 0) return choose(W, 24);
    if (c < 12) return choose(W, 200);
    if (c < 14) return edge[choose(W, 18)] + choose(W, 3);
    if (c < 15 || scale < 2) return choose(W, 3000);
    return choose(W, 20000);
}
static string fill(size_t n, int cls, uint32_t seed) {
    string s(n, 'a'); Rng r(seed);
    if (cls == 0) { for (size_t i = 0; i < n; i++) s[i] = 'a' + (i % 26); return s; }
    static const char special[] = "\"\\\n =\r\t@:;,%";
    static const char* words[] = {"@@TRAX:", "\n@@TRAX:quit \n", "\\n", "\\\"", "\" \"", "=", "\r\n", "%s%n", "@@@TRAX:", "\\", "\xff", "\xc3\xa4", " ", "key=value"};
    for (size_t i = 0; i < n;) {
        if (cls == 1) s[i++] = (char)(32 + r.below(95));
        else if (cls == 2) s[i++] = special[r.below(sizeof special - 1)];
        else if (cls == 3) s[i++] = (char)(1 + r.below(255));
        else if (cls == 4) { const char* w = words[r.below(14)]; for (; *w && i < n; w++) s[i++] = *w; }
        else if (cls == 5) s[i++] = ' ';
        else if (cls == 6) s[i++] = (char)(128 + r.below(128));
        else s[i++] = r.below(4) ? (char)('0' + r.below(75)) : special[r.below(sizeof special - 1)];
    }
    return s;
}
string gen_text(int scale) { size_t n = gen_len(scale); uint32_t cls = choose(W, 8), seed = choose(W, 1 << 30); return fill(n, cls, seed); }
string gen_key(int i) {
    static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._";
    uint32_t c = choose(W, 12);
    if (c == 0) return "k" + std::to_string(i);
    if (c == 1) { static const char* like[] = {"trax.x", "trax", "traxel", "Trax.x", "trax_", "xtrax.", "tra.", "trax.reason.", "TRAX.", "@@TRAX"}; string k = like[choose(W, 9)]; return k + std::to_string(i); }
    size_t n = c == 2 ? 64 : c == 3 ? 60 + choose(W, 5) : 1 + choose(W, 12);
    Rng r(choose(W, 1 << 30)); string s; for (size_t k = 0; k < n; k++) s += al[r.below(64)]; return s;
}
static vector<string> used_keys;
// What is left in a property set from earlier use; a message received into it replaces the values of its own properties
static const char* LEFT = "\x02left over";
vector<string> left_over() {
    vector<string> r; if (used_keys.empty() || choose(W, 3) != 2) return r; size_t a = choose(W, (uint32_t)used_keys.size());
    for (size_t k = 0; k < used_keys.size() && k < 20; k++) r.push_back(used_keys[(a + k) % used_keys.size()]); return r;
}
void leave_over(trax_properties* t, const vector<string>& keys) { for (auto& k : keys) trax_properties_set(t, k.c_str(), LEFT); }
void leave_over(trax::Properties& t, const vector<string>& keys) { for (auto& k : keys) t.set(k, LEFT); }
void without_left(Props& p, const vector<string>& keys) { for (auto& k : keys) if (p.count(k) && p[k] == LEFT) p.erase(k); }
Props gen_props(int maxn, int scale, const char* prefix) {
    Props p; uint32_t c = choose(W, 16); int n = c < 4 ? 0 : c < 15 ? choose(W, maxn + 1) : (scale ? choose(W, 90) : choose(W, maxn + 1));
    for (int i = 0; i < n; i++) { string k = prefix + gen_key(i); if (k.size() > 64) k.resize(64); p[k] = gen_text(n > 10 ? 0 : scale); if (used_keys.size() < 60) used_keys.push_back(k); }
    return p;
}
static string jpeg(const string& s, int fmt) { string d = fmt == TRAX_IMAGE_BUFFER_JPEG ? string("\xff\xd8\xff", 3) + "\xe0\xe1\xdb\xee"[s.size() % 4] : string("\x89PNG", 4); return d + s; }
Img gen_img(int formats, int scale) {
    static const int all[] = {TRAX_IMAGE_PATH, TRAX_IMAGE_URL, TRAX_IMAGE_MEMORY, TRAX_IMAGE_BUFFER};
    vector<int> f; for (int t : all) if (formats & t) f.push_back(t);
    Img i; i.type = pick(W, f);
    if (i.type == TRAX_IMAGE_PATH) { string t = gen_text(scale); uint32_t c = choose(W, 6); i.data = c == 0 ? "/" + t : c == 1 ? "/tmp/img.jpg" : c == 2 ? "//" + t : c == 3 ? "/a=b/" + t : c == 4 ? "C:\\dir\\" + t : t; }
    else if (i.type == TRAX_IMAGE_URL) {
        static const char* sch[] = {"http", "https", "ftp", "s3", "git+ssh", "a-b.c", "h2", "abcdefghijklmno", "x", "fil", "files", "imag", "images", "dat", "datab"};
        string t = gen_text(scale); uint32_t c = choose(W, 3); i.data = string(sch[choose(W, 15)]) + ":" + (c == 0 ? "//host/" : c == 1 ? "" : ":=") + t;
    } else if (i.type == TRAX_IMAGE_MEMORY) {
        uint32_t c = choose(W, 16); i.w = 1 + choose(W, c < 14 ? 20 : 90); i.h = 1 + choose(W, c < 14 ? 20 : 90); i.fmt = 1 + choose(W, 3);
        int px = i.fmt == TRAX_IMAGE_MEMORY_RGB ? 3 : i.fmt == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1; size_t n = (size_t)i.w * i.h * px;
        uint32_t cls = choose(W, 4), seed = choose(W, 1 << 30); i.data.resize(n); Rng r(seed);
        for (size_t k = 0; k < n; k++) i.data[k] = cls == 0 ? (char)k : cls == 1 ? 0 : cls == 2 ? (char)255 : (char)r.next();
    } else {
        i.fmt = 1 + choose(W, 2); size_t n = 1 + gen_len(scale); uint32_t seed = choose(W, 1 << 30); string s(n, 0); Rng r(seed);
        for (size_t k = 0; k < n; k++) s[k] = seed ? (char)r.next() : (char)k; i.data = jpeg(s, i.fmt);
    }
    return i;
}
Imgs gen_imgs(int channels, int formats, int scale) { Imgs r; for (int c = 0; c < 3; c++) if (channels & (1 << c)) r.ch[c] = gen_img(formats, scale); return r; }
static float gen_coord() {
    uint32_t c = choose(W, 10);
    if (c < 3) return (float)choose(W, 500);
    if (c < 6) return (float)((int)choose(W, 2000000) - 1000000) / 1000.0f;
    if (c < 8) return (float)((int)choose(W, 200000) - 100000) / 7919.0f;
    if (c < 9) return (float)((int)choose(W, 2000000000u) - 1000000000) / 16.0f;
    return (float)((int)choose(W, 2000) - 1000) / 10000.0f;
}
static float gen_size() { uint32_t c = choose(W, 6); return c < 3 ? 1.0f + choose(W, 200) : c < 5 ? 1.0f + choose(W, 1000000) / 10000.0f : 1.0f + choose(W, 100000000) / 100.0f; }
Reg gen_reg(int types, bool special) {
    vector<int> t; if (types & TRAX_REGION_RECTANGLE) t.push_back(TRAX_REGION_RECTANGLE); if (types & TRAX_REGION_POLYGON) t.push_back(TRAX_REGION_POLYGON); if (types & TRAX_REGION_MASK) t.push_back(TRAX_REGION_MASK);
    if (special) t.push_back(TRAX_REGION_SPECIAL);
    Reg r; r.type = pick(W, t);
    if (r.type == TRAX_REGION_RECTANGLE) { r.r[0] = gen_coord(); r.r[1] = gen_coord(); r.r[2] = gen_size(); r.r[3] = gen_size(); }
    else if (r.type == TRAX_REGION_POLYGON) { int n = 3 + choose(W, choose(W, 8) == 7 ? 200 : 8); for (int i = 0; i < 2 * n; i++) r.xy.push_back(gen_coord()); }
    else if (r.type == TRAX_REGION_SPECIAL) r.code = choose(W, 4) == 3 ? (int)choose(W, 2000000000u) - 1000000000 : (int)choose(W, 10) - 3;
    else {
        r.mx = (int)choose(W, 2000) - 1000; r.my = (int)choose(W, 2000) - 1000; r.mw = 1 + choose(W, choose(W, 8) == 7 ? 120 : 16); r.mh = 1 + choose(W, choose(W, 8) == 7 ? 120 : 16);
        uint32_t cls = choose(W, 6), seed = choose(W, 1 << 30); Rng g(seed); r.bits.resize((size_t)r.mw * r.mh);
        for (size_t k = 0; k < r.bits.size(); k++) r.bits[k] = cls == 0 ? (k % 3 == 1) : cls == 1 ? 0 : cls == 2 ? 1 : cls == 3 ? (g.below(20) == 0) : cls == 4 ? g.below(2) : (k == 0 || k + 1 == r.bits.size());
    }
    return r;
}
string show(const string& s, size_t n) { string o; char b[8]; for (unsigned char c : s) { if (o.size() > n) { o += "..(" + std::to_string(s.size()) + ")"; break; } if (c < 32 || c > 126 || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; } return o; }
string show(const Props& p) { string o = "{"; for (auto& k : p) { o += (o.size() > 1 ? ", " : "") + k.first + "=" + show(k.second, 40); if (o.size() > 400) { o += ".."; break; } } return o + "}"; }
string show(const Reg& r) {
    char b[200];
    if (r.type == TRAX_REGION_RECTANGLE) snprintf(b, sizeof b, "rect(%.4f,%.4f,%.4f,%.4f)", r.r[0], r.r[1], r.r[2], r.r[3]);
    else if (r.type == TRAX_REGION_POLYGON) { snprintf(b, sizeof b, "poly%zu(%.4f,%.4f,..)", r.xy.size() / 2, r.xy[0], r.xy[1]); }
    else if (r.type == TRAX_REGION_SPECIAL) snprintf(b, sizeof b, "special(%d)", r.code);
    else if (r.type == TRAX_REGION_MASK) snprintf(b, sizeof b, "mask(%d,%d,%dx%d,%zu set)", r.mx, r.my, r.mw, r.mh, (size_t)std::count_if(r.bits.begin(), r.bits.end(), [](char c) { return c != 0; }));
    else snprintf(b, sizeof b, "none");
    return b;
}
string show(const Img& i) { char b[100]; const char* t = i.type == 1 ? "path" : i.type == 2 ? "url" : i.type == 4 ? "memory" : i.type == 8 ? "buffer" : "none"; snprintf(b, sizeof b, "%s(%d,%d,fmt %d,%zu bytes)", t, i.w, i.h, i.fmt, i.data.size()); return string(b) + (i.type == 1 || i.type == 2 ? show(i.data, 40) : ""); }
bool same(const Img& a, const Img& b) { return a.type == b.type && a.data == b.data && (a.type != TRAX_IMAGE_MEMORY || (a.w == b.w && a.h == b.h && a.fmt == b.fmt)) && (a.type != TRAX_IMAGE_BUFFER || a.fmt == b.fmt); }
static bool near(float a, float b) { return fabs((double)a - b) <= 0.000051 + fabs(a) * 1.2e-7; }
bool same(const Reg& a, const Reg& b) {
    if (a.type != b.type) return false;
    if (a.type == TRAX_REGION_SPECIAL) return a.code == b.code;
    if (a.type == TRAX_REGION_RECTANGLE) { for (int i = 0; i < 4; i++) if (!near(a.r[i], b.r[i])) return false; return true; }
    if (a.type == TRAX_REGION_POLYGON) { if (a.xy.size() != b.xy.size()) return false; for (size_t i = 0; i < a.xy.size(); i++) if (!near(a.xy[i], b.xy[i])) return false; return true; }
    if (a.type == TRAX_REGION_MASK) { if (a.mx != b.mx || a.my != b.my || a.mw != b.mw || a.mh != b.mh) return false; for (size_t i = 0; i < a.bits.size(); i++) if ((a.bits[i] != 0) != (b.bits[i] != 0)) return false; return true; }
    return true;
}
void bounds(const Reg& r, double& l, double& t, double& rr, double& b) {
    l = t = 1e30; rr = b = -1e30;
    if (r.type == TRAX_REGION_RECTANGLE) { l = r.r[0]; t = r.r[1]; rr = l + r.r[2]; b = t + r.r[3]; }
    else if (r.type == TRAX_REGION_POLYGON) for (size_t i = 0; i + 1 < r.xy.size(); i += 2) { l = std::min<double>(l, r.xy[i]); rr = std::max<double>(rr, r.xy[i]); t = std::min<double>(t, r.xy[i + 1]); b = std::max<double>(b, r.xy[i + 1]); }
    else if (r.type == TRAX_REGION_MASK) for (int y = 0; y < r.mh; y++) for (int x = 0; x < r.mw; x++) if (r.bits[(size_t)y * r.mw + x]) { l = std::min<double>(l, r.mx + x); rr = std::max<double>(rr, r.mx + x); t = std::min<double>(t, r.my + y); b = std::max<double>(b, r.my + y); }
}
uint64_t hashs(const string& s) { uint64_t x = 0xcbf29ce484222325ull; for (unsigned char c : s) { x ^= c; x *= 0x100000001b3ull; } return x; }

// ---------------------------------------------------------------- adapters: C
void fill_props(trax_properties* t, const Props& p) { for (auto& k : p) trax_properties_set(t, k.first.c_str(), k.second.c_str()); }
trax_properties* make_props(const Props& p) { trax_properties* t = trax_properties_create(); fill_props(t, p); return t; }
static void en(const char* k, const char* v, const void* o) { (*(Props*)o)[k] = v; }
Props read_props(const trax_properties* p) { Props r; if (p) { trax_properties_enumerate(p, en, &r);
    CHECK((int)r.size() == trax_properties_count(p), "properties-inconsistent: %zu enumerated, %d counted", r.size(), trax_properties_count(p));
    int n = 0; for (auto& k : r) { if (n++ > 3) break; char* v = trax_properties_get(p, k.first.c_str()); CHECK(v && k.second == v, "properties-inconsistent: get(%s) differs from enumeration", k.first.c_str()); free(v); } } return r; }
trax_image* make_img(const Img& i) {
    if (i.type == TRAX_IMAGE_PATH) return trax_image_create_path(i.data.c_str());
    if (i.type == TRAX_IMAGE_URL) return trax_image_create_url(i.data.c_str());
    if (i.type == TRAX_IMAGE_BUFFER) return trax_image_create_buffer((int)i.data.size(), i.data.data());
    if (i.type != TRAX_IMAGE_MEMORY) return nullptr;
    trax_image* t = trax_image_create_memory(i.w, i.h, i.fmt); size_t row = i.data.size() / i.h;
    for (int y = 0; y < i.h; y++) memcpy(trax_image_write_memory_row(t, y), i.data.data() + y * row, row);
    return t;
}
Img read_img(const trax_image* i) {
    Img r; r.type = trax_image_get_type(i);
    if (r.type == TRAX_IMAGE_PATH) r.data = trax_image_get_path(i);
    else if (r.type == TRAX_IMAGE_URL) r.data = trax_image_get_url(i);
    else if (r.type == TRAX_IMAGE_BUFFER) { int n; const char* d = trax_image_get_buffer(i, &n, &r.fmt); r.data.assign(d, n); }
    else if (r.type == TRAX_IMAGE_MEMORY) { trax_image_get_memory_header(i, &r.w, &r.h, &r.fmt); int px = r.fmt == TRAX_IMAGE_MEMORY_RGB ? 3 : r.fmt == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1; for (int y = 0; y < r.h; y++) r.data.append(trax_image_get_memory_row(i, y), (size_t)r.w * px); }
    return r;
}
trax_image_list* make_imgs(const Imgs& i, int) { trax_image_list* l = trax_image_list_create(); for (int c = 0; c < 3; c++) if (i.ch[c].type) trax_image_list_set(l, make_img(i.ch[c]), 1 << c); return l; }
Imgs read_imgs(const trax_image_list* l) { Imgs r; if (l) for (int c = 0; c < 3; c++) { trax_image* i = trax_image_list_get(l, 1 << c); if (i) r.ch[c] = read_img(i); } return r; }
void free_imgs(trax_image_list** l) { if (*l) { trax_image_list_clear(*l); trax_image_list_release(l); } }
trax_region* make_reg(const Reg& r) {
    if (r.type == TRAX_REGION_SPECIAL) return trax_region_create_special(r.code);
    if (r.type == TRAX_REGION_RECTANGLE) return trax_region_create_rectangle(r.r[0], r.r[1], r.r[2], r.r[3]);
    if (r.type == TRAX_REGION_POLYGON) { trax_region* t = trax_region_create_polygon((int)r.xy.size() / 2); for (size_t i = 0; i < r.xy.size() / 2; i++) trax_region_set_polygon_point(t, (int)i, r.xy[2 * i], r.xy[2 * i + 1]); return t; }
    trax_region* t = trax_region_create_mask(r.mx, r.my, r.mw, r.mh);
    for (int y = 0; y < r.mh; y++) memcpy(trax_region_write_mask_row(t, y), r.bits.data() + (size_t)y * r.mw, r.mw);
    return t;
}
Reg read_reg(const trax_region* t) {
    Reg r; r.type = trax_region_get_type(t);
    if (r.type == TRAX_REGION_SPECIAL) r.code = trax_region_get_special(t);
    else if (r.type == TRAX_REGION_RECTANGLE) trax_region_get_rectangle(t, &r.r[0], &r.r[1], &r.r[2], &r.r[3]);
    else if (r.type == TRAX_REGION_POLYGON) { int n = trax_region_get_polygon_count(t); for (int i = 0; i < n; i++) { float x, y; trax_region_get_polygon_point(t, i, &x, &y); r.xy.push_back(x); r.xy.push_back(y); } }
    else if (r.type == TRAX_REGION_MASK) { trax_region_get_mask_header(t, &r.mx, &r.my, &r.mw, &r.mh); for (int y = 0; y < r.mh; y++) r.bits.append(trax_region_get_mask_row(t, y), r.mw); }
    return r;
}
trax_object_list* make_objs(const vector<Obj>& o) {
    trax_object_list* l = trax_object_list_create((int)o.size());
    for (size_t i = 0; i < o.size(); i++) { trax_region* r = make_reg(o[i].reg); trax_object_list_set(l, (int)i, r); trax_region_release(&r); fill_props(trax_object_list_properties(l, (int)i), o[i].props); }
    return l;
}
vector<Obj> read_objs(trax_object_list* l) { vector<Obj> r; if (l) for (int i = 0; i < trax_object_list_count(l); i++) { Obj o; o.reg = read_reg(trax_object_list_get(l, i)); o.props = read_props(trax_object_list_properties(l, i)); r.push_back(o); } return r; }

// ---------------------------------------------------------------- adapters: C++
trax::Image cpp_img(const Img& i) {
    if (i.type == TRAX_IMAGE_PATH) return trax::Image::create_path(i.data);
    if (i.type == TRAX_IMAGE_URL) return trax::Image::create_url(i.data);
    if (i.type == TRAX_IMAGE_BUFFER) return trax::Image::create_buffer((int)i.data.size(), i.data.data());
    if (i.type != TRAX_IMAGE_MEMORY) return trax::Image();
    trax::Image t = trax::Image::create_memory(i.w, i.h, i.fmt); size_t row = i.data.size() / i.h;
    for (int y = 0; y < i.h; y++) memcpy(t.write_memory_row(y), i.data.data() + y * row, row);
    return t;
}
Img read_img(const trax::Image& i) {
    Img r; r.type = i.type();
    if (r.type == TRAX_IMAGE_PATH) r.data = i.get_path();
    else if (r.type == TRAX_IMAGE_URL) r.data = i.get_url();
    else if (r.type == TRAX_IMAGE_BUFFER) { int n; const char* d = i.get_buffer(&n, &r.fmt); r.data.assign(d, n); }
    else if (r.type == TRAX_IMAGE_MEMORY) { i.get_memory_header(&r.w, &r.h, &r.fmt); int px = r.fmt == TRAX_IMAGE_MEMORY_RGB ? 3 : r.fmt == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1; for (int y = 0; y < r.h; y++) r.data.append(i.get_memory_row(y), (size_t)r.w * px); }
    return r;
}
trax::ImageList cpp_imgs(const Imgs& i) { trax::ImageList l; for (int c = 0; c < 3; c++) if (i.ch[c].type) l.set(cpp_img(i.ch[c]), 1 << c); return l; }
Imgs read_imgs(const trax::ImageList& l) { Imgs r; for (int c = 0; c < 3; c++) if (l.has(1 << c)) r.ch[c] = read_img(l.get(1 << c)); return r; }
trax::Region cpp_reg(const Reg& r) {
    if (r.type == TRAX_REGION_SPECIAL) return trax::Region::create_special(r.code);
    if (r.type == TRAX_REGION_RECTANGLE) return trax::Region::create_rectangle(r.r[0], r.r[1], r.r[2], r.r[3]);
    if (r.type == TRAX_REGION_POLYGON) { trax::Region t = trax::Region::create_polygon((int)r.xy.size() / 2); for (size_t i = 0; i < r.xy.size() / 2; i++) t.set_polygon_point((int)i, r.xy[2 * i], r.xy[2 * i + 1]); return t; }
    trax::Region t = trax::Region::create_mask(r.mx, r.my, r.mw, r.mh);
    for (int y = 0; y < r.mh; y++) memcpy(t.write_mask_row(y), r.bits.data() + (size_t)y * r.mw, r.mw);
    return t;
}
Reg read_reg(const trax::Region& t) {
    Reg r; r.type = t.type();
    if (r.type == TRAX_REGION_SPECIAL) r.code = t.get();
    else if (r.type == TRAX_REGION_RECTANGLE) t.get(&r.r[0], &r.r[1], &r.r[2], &r.r[3]);
    else if (r.type == TRAX_REGION_POLYGON) { int n = t.get_polygon_count(); for (int i = 0; i < n; i++) { float x, y; t.get_polygon_point(i, &x, &y); r.xy.push_back(x); r.xy.push_back(y); } }
    else if (r.type == TRAX_REGION_MASK) { t.get_mask_header(&r.mx, &r.my, &r.mw, &r.mh); for (int y = 0; y < r.mh; y++) r.bits.append(t.get_mask_row(y), r.mw); }
    return r;
}
trax::Properties cpp_props(const Props& p) { trax::Properties t; for (auto& k : p) t.set(k.first, k.second); return t; }
Props read_props(trax::Properties& p) { Props r; p.enumerate(en, &r); CHECK((int)r.size() == p.size(), "properties-inconsistent: %zu enumerated, %d counted", r.size(), p.size()); return r; }
trax::ObjectList cpp_objs(const vector<Obj>& o) { trax::ObjectList l((int)o.size()); for (size_t i = 0; i < o.size(); i++) l.set((int)i, cpp_reg(o[i].reg)); return l; }
vector<Obj> read_objs(const trax::ObjectList& l) { vector<Obj> r; for (int i = 0; i < l.size(); i++) { Obj o; o.reg = read_reg(l.get(i)); trax::Properties p = l.properties(i); o.props = read_props(p); r.push_back(o); } return r; }

// ---------------------------------------------------------------- wire codec
const char* tname(int t) { static const char* n[] = {"error", "ok", "hello", "initialize", "frame", "quit", "state"}; return t >= -1 && t <= 5 ? n[t + 1] : "?"; }
static int type_of(string s) { for (auto& c : s) c = (char)tolower((unsigned char)c); if (s == "hello") return TRAX_HELLO; if (s == "initialize") return TRAX_INITIALIZE; if (s == "frame") return TRAX_FRAME; if (s == "quit") return TRAX_QUIT; if (s == "state" || s == "status") return TRAX_STATE; return -1; }
static bool key_ok(const string& k) { if (k.size() > 64) return false; for (unsigned char c : k) if (!isalnum(c) && c != '.' && c != '_') return false; return true; }
static int line_type(const string& line, size_t* pos) {
    if (line.compare(0, 7, "@@TRAX:") != 0) return -1;
    size_t e = 7; while (e < line.size() && isalnum((unsigned char)line[e])) e++;
    if (e < line.size() && line[e] != ' ' && line[e] != '\r') return -1;
    if (pos) *pos = e;
    return type_of(line.substr(7, e - 7));
}
bool is_message_line(const string& line) { return line_type(line, nullptr) >= 0; }
vector<Msg> wire_decode(const string& s, size_t* rest) {
    vector<Msg> out; size_t b = 0;
    for (;;) {
        size_t e = s.find('\n', b);
        if (e == string::npos) break;
        string line = s.substr(b, e - b); size_t p = 0; int t = line_type(line, &p);
        if (t >= 0) {
            Msg m; m.type = t; m.begin = b; m.end = e + 1; bool ok = true;
            while (ok && p < line.size()) {
                if (line[p] == ' ' || line[p] == '\r') { p++; continue; }
                bool q = line[p] == '"'; if (q) p++;
                string key, val; bool kv = false, closed = !q;
                for (; p < line.size(); p++) {
                    char c = line[p];
                    if (q && c == '"') { closed = true; p++; break; }
                    if (!q && c == ' ') break;
                    if (c == '\\') { p++; if (p >= line.size()) { ok = false; break; } c = line[p] == 'n' ? '\n' : line[p]; (kv ? val : key) += c; continue; }
                    if (c == '=' && !kv && key_ok(key)) { kv = true; continue; }
                    (kv ? val : key) += c;
                }
                if (!closed) ok = false;
                if (kv) m.props[key] = val; else m.args.push_back(key);
            }
            if (ok) out.push_back(m);
        }
        b = e + 1;
    }
    if (rest) *rest = b;
    return out;
}
static string esc(const string& s) { string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') o += "\\n"; else o += c; } return o; }
string wire_encode(int type, const vector<string>& args, const Props& props, Rng* st) {
    static const char* up[] = {"", "HELLO", "Initialize", "FRAME", "Quit", "State"};
    string o = "@@TRAX:"; o += st && st->below(6) == 0 ? up[type] : st && type == TRAX_STATE && st->below(3) == 0 ? "status" : tname(type);
    vector<string> w;
    for (auto& a : args) {
        bool plain = st && st->below(3) == 0 && !a.empty() && a[0] != '"' && a.find_first_of(" \r") == string::npos && !(a.find('=') != string::npos && key_ok(a.substr(0, a.find('='))));
        w.push_back(plain ? esc(a) : "\"" + esc(a) + "\"");
    }
    size_t na = w.size();
    for (auto& p : props) { bool plain = st && st->below(3) == 0 && p.second.find_first_of(" ") == string::npos; w.push_back(plain ? p.first + "=" + esc(p.second) : "\"" + p.first + "=" + esc(p.second) + "\""); }
    if (st && w.size() > na && na && st->below(4) == 0) std::rotate(w.begin(), w.begin() + na, w.end());   // properties may come first
    for (auto& x : w) { o += ' '; if (st && st->below(5) == 0) o += st->below(2) ? "  " : " \r"; if (o.back() == '\r') o += ' '; o += x; }
    if (!st || st->below(2)) o += ' ';
    // a carriage return is only skipped between words
    if (st && st->below(4) == 0 && o.back() == ' ') o += '\r';
    return o + "\n";
}
string b64(const string& s) {
    static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string o;
    for (size_t i = 0; i < s.size(); i += 3) { uint32_t v = (unsigned char)s[i] << 16; if (i + 1 < s.size()) v |= (unsigned char)s[i + 1] << 8; if (i + 2 < s.size()) v |= (unsigned char)s[i + 2];
        o += t[v >> 18]; o += t[v >> 12 & 63]; o += i + 1 < s.size() ? t[v >> 6 & 63] : '='; o += i + 2 < s.size() ? t[v & 63] : '='; }
    return o;
}
string wire_img(const Img& i) {
    if (i.type == TRAX_IMAGE_PATH) return "file://" + i.data;
    if (i.type == TRAX_IMAGE_URL) return i.data;
    if (i.type == TRAX_IMAGE_MEMORY) { static const char* f[] = {"", "gray8", "gray16", "rgb"}; return "image:" + std::to_string(i.w) + ";" + std::to_string(i.h) + ";" + f[i.fmt] + ";" + b64(i.data); }
    return string("data:") + (i.fmt == TRAX_IMAGE_BUFFER_JPEG ? "image/jpeg" : "image/png") + ";" + b64(i.data);
}
string wire_reg(const Reg& r) {
    char b[100]; string o;
    if (r.type == TRAX_REGION_SPECIAL) return std::to_string(r.code);
    if (r.type == TRAX_REGION_RECTANGLE) { for (int i = 0; i < 4; i++) { snprintf(b, sizeof b, "%s%.4f", i ? "," : "", r.r[i]); o += b; } return o; }
    if (r.type == TRAX_REGION_POLYGON) { for (size_t i = 0; i < r.xy.size(); i++) { snprintf(b, sizeof b, "%s%.4f", i ? "," : "", r.xy[i]); o += b; } return o; }
    snprintf(b, sizeof b, "mask:%d,%d,%d,%d", r.mx, r.my, r.mw, r.mh); o = b; bool v = false; size_t i = 0;
    while (i < r.bits.size()) { size_t k = i; while (k < r.bits.size() && (r.bits[k] != 0) == v) k++; if (k < r.bits.size() || v) o += "," + std::to_string(k - i); i = k; v = !v; }
    return o;
}
void given_values(std::map<string, string>& out, const vector<string>& names) {
    for (auto& n : names) {
        if (choose(W, 3) != 2) continue;
        switch (choose(W, 8)) {
        case 0: out[n] = "0.5"; break;
        case 1: out[n] = ""; break;
        case 2: out[n] = "a = b"; break;
        case 3: out[n] = "run=1=2="; break;
        case 4: out[n] = "-x -h -- \"q\" \\ ;$HOME"; break;
        case 5: out[n] = string(200 + choose(W, 800), 'v'); break;
        case 6: out[n] = " \xc5\xbe\t="; break;
        default: out[n] = std::to_string((int)choose(W, 100000) - 50000);
        }
    }
}
string gen_noise() {
    string out; int lines = 1 + choose(W, 3);
    for (int i = 0; i < lines; i++) {
        string l;
        switch (choose(W, 12)) {
        case 0: l = "Frame processed"; break;
        case 1: l = ""; break;
        case 2: { static const char* p = "@@TRAX:"; l = string(p).substr(0, choose(W, 8)); break; }
        case 3: { static const char* p = "@@TRAX:"; l = string(p).substr(0, choose(W, 8)) + gen_text(0); break; }
        case 4: { static const char* ty[] = {"stat", "states", "qui", "quitt", "foo", "", "initializ", "FRAMES", "hell0", "state_", "quit.", "state-1", "frame,"}; static const char* ar[] = {"", " ", " \"1,2,3,4\"", " \"a=b\" x y", " \"unterminated", " k=v", "\r", " \"\\", " \\"}; l = string("@@TRAX:") + ty[choose(W, 13)] + ar[choose(W, 9)]; break; }
        case 5: l = " @@TRAX:quit "; break;
        case 6: l = string(choose(W, 3) + 1, '@') + "@@TRAX:state \"1\""; break;
        case 7: { static const char* x[] = {"x@@TRAX:quit \"trax.reason=x\" ", "@@trax:quit", "@@TRAX :quit", "@@TRAX;quit", "\t@@TRAX:state 1", "\xff\xff@@TRAX:frame", "@@TRA\r@@TRAX:quit"}; l = x[choose(W, 7)]; break; }
        case 8: { size_t n = choose(W, 300); Rng r(choose(W, 1 << 30)); for (size_t k = 0; k < n; k++) l += (char)r.next(); break; }   // binary output, zeros included
        case 9: { l = string(choose(W, choose(W, 4) == 3 ? 20000 : 600), (char)(32 + choose(W, 200))); break; }
        default: l = gen_text(1);
        }
        l.erase(std::remove(l.begin(), l.end(), '\n'), l.end());
        if (is_message_line(l)) l = "#" + l;
        out += l + "\n";
    }
    return out;
}

// ---------------------------------------------------------------- profiles
void io_profile(int heavy) {
    switch (choose(F, 5)) {
    case 0: break;
    case 1: cfg.short_read = 40; break;
    case 2: cfg.short_read = 200; cfg.short_write = heavy ? 20 : 0; cfg.eintr = heavy ? 60 : 0; break;
    case 3: cfg.eintr = heavy ? 120 : 0; cfg.short_write = heavy ? 60 : 0; break;
    default: cfg.short_read = 120; cfg.short_write = heavy ? 30 : 0; cfg.eintr = heavy ? 40 : 0; cfg.stall_num = 30; cfg.stall_max = 5 * MS;
    }
    static const size_t caps[] = {65536, 4096, 1, 100, 13, 1000, 65536};
    cfg.pipe_cap = caps[choose(F, 7)];
}
void sched_profile(bool mem) {
    static const int sw[] = {32, 8, 128, 0}; cfg.switch_num = sw[choose(S, 4)];
    if (mem) { static const int ms[] = {0, 30, 120}; static const unsigned mr[] = {64, 600, 5000}; cfg.mem_switch_num = ms[choose(S, 3)]; cfg.mem_range = mr[choose(S, 3)]; }
}
int find_sock(Proc* p) { for (auto& f : p->fds) if (f.second.f->kind == FK_SOCK && f.second.f->st == SS_CONNECTED) return f.first; return -1; }
}
