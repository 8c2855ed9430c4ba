// Engine H: sessions whose images and regions go through the OpenCV conversion library on both sides.
#include "session.h"
#include "shm.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <set>
#include <opencv2/core/core.hpp>
#include <opencv2/imgcodecs.hpp>
#include <trax/opencv.hpp>

extern "C" { void sim_delete(void*); int sim_bind(int, const struct sockaddr*, socklen_t); }

namespace h {
// ---------------------------------------------------------------- image files: a stand-in that remembers what was asked for
struct Decoded { string what; int flags; };
static vector<Decoded> decoded;
std::set<string> unreadable;
static cv::Mat picture(const string& key) {
    uint64_t x = hashs(key); int rows = 1 + x % 5, cols = 1 + x / 7 % 5; size_t at = key.rfind('@'); if (key.compare(0, 5, "file ") == 0 && at != string::npos) sscanf(key.c_str() + at, "@%dx%d", &cols, &rows);   // a name may say the size
    cv::Mat m(rows, cols, CV_8UC3);
    for (int y = 0; y < m.rows; y++) for (int c = 0; c < m.cols * 3; c++) m.ptr(y)[c] = (uchar)(x >> ((y * 7 + c) % 56));
    return m;
}
}
namespace cv {
Mat imread(const String& f, int flags) { h::decoded.push_back({"file " + f, flags}); if (f.find("missing") != String::npos || h::unreadable.count(f)) return Mat(); return h::picture("file " + f); }
Mat imdecode(InputArray a, int flags) { Mat m = a.getMat(); h::string s; for (int y = 0; y < m.rows; y++) s.append((const char*)m.ptr(y), m.cols * m.elemSize()); h::decoded.push_back({"data " + s, flags}); return h::picture("data " + s); }
}
namespace h {
Img file_picture(const string& path) {                              // what a client sends when it reads this file and sends its pixels
    cv::Mat m = picture("file " + path); Img i; i.type = TRAX_IMAGE_MEMORY; i.w = m.cols; i.h = m.rows; i.fmt = TRAX_IMAGE_MEMORY_RGB;
    for (int y = 0; y < m.rows; y++) for (int x = 0; x < m.cols; x++) for (int k = 2; k >= 0; k--) i.data += (char)m.ptr(y)[3 * x + k]; return i;
}
// ---------------------------------------------------------------- matrices
struct Lay { cv::Mat m, parent, copy; vector<uchar> store; };       // a matrix in some memory layout, with everything around it
static void noise_fill(cv::Mat& m, uint32_t cls, uint64_t seed) {
    Rng g(seed); for (int y = 0; y < m.rows; y++) for (size_t c = 0; c < m.cols * m.elemSize(); c++) m.ptr(y)[c] = cls == 0 ? (uchar)(c + y * 31) : cls == 1 ? 0 : cls == 2 ? 255 : (uchar)g.next();
}
static int dim() { return choose(W, 12) == 11 ? 1 + choose(W, 90) : 1 + choose(W, 18); }
static void layout(Lay& l, int w, int hh, int type, uint32_t cls, uint32_t seed) {
    switch (choose(W, 4)) {
    case 0: l.parent.create(hh, w, type); l.m = l.parent; break;
    case 1: { int a = choose(W, 7), b = choose(W, 7), c = choose(W, 7), d = choose(W, 7); l.parent.create(hh + a + b, w + c + d, type); l.m = l.parent(cv::Rect(c, a, w, hh)); break; }
    case 2: { size_t es = CV_ELEM_SIZE(type), step = (w + choose(W, 9)) * es; l.store.resize(step * hh); l.parent = cv::Mat(hh, (int)(step / es), type, l.store.data(), step); l.m = cv::Mat(hh, w, type, l.store.data(), step); break; }
    default: l.parent.create(hh * 2, w, type); l.m = cv::Mat(hh, w, type, l.parent.data, l.parent.step * 2); break;
    }
    noise_fill(l.parent, 3, seed ^ 77); noise_fill(l.m, cls, seed); l.copy = l.parent.clone();
}
static bool eq(const cv::Mat& a, const cv::Mat& b) {
    if (a.size() != b.size() || a.type() != b.type()) return false;
    for (int y = 0; y < a.rows; y++) if (memcmp(a.ptr(y), b.ptr(y), a.cols * a.elemSize())) return false;
    return true;
}
static string show(const cv::Mat& m) { char b[80]; snprintf(b, sizeof b, "%dx%d type %d", m.cols, m.rows, m.type()); string o = b; if (!m.empty()) { o += " ["; for (int y = 0; y < std::min(2, m.rows); y++) { for (size_t c = 0; c < std::min<size_t>(12, m.cols * m.elemSize()); c++) { snprintf(b, sizeof b, "%d ", m.ptr(y)[c]); o += b; } o += "; "; } o += "]"; } return o; }
static vector<cv::Point2f> points_of(const trax::Region& r) {        // the storage comes from the heap of the code under test
    alignas(std::vector<cv::Point2f>) char b[sizeof(std::vector<cv::Point2f>)]; auto* v = new (b) std::vector<cv::Point2f>(trax::region_to_points(r));
    vector<cv::Point2f> o(*v); if (v->capacity()) sim_delete(v->data()); return o;
}
// ---------------------------------------------------------------- what is sent
struct Pic { int type = 0; cv::Mat mat; string text; };
struct Shape { int type = 0; bool helper = true; float r[4]; vector<cv::Point2f> pts; cv::Mat mask; int mx = 0, my = 0; int code = 0; };
static const int kinds[] = {CV_8UC1, CV_16UC1, CV_8UC3};
static string show(const Shape& s) { char b[100]; if (s.type == TRAX_REGION_RECTANGLE) snprintf(b, sizeof b, "rectangle %g,%g,%g,%g", s.r[0], s.r[1], s.r[2], s.r[3]); else if (s.type == TRAX_REGION_POLYGON) snprintf(b, sizeof b, "polygon of %zu points", s.pts.size()); else if (s.type == TRAX_REGION_MASK) snprintf(b, sizeof b, "mask %dx%d at %d,%d", s.mask.cols, s.mask.rows, s.mx, s.my); else snprintf(b, sizeof b, "code %d", s.code); return b; }
static trax::Image make_pic(Pic& p, Proc* me) {
    switch (choose(W, 8)) {
    case 5: { p.type = TRAX_IMAGE_PATH; string t = gen_text(0); p.text = "/" + (choose(W, 8) == 7 ? "missing" + t : t); return trax::Image::create_path(p.text); }
    case 6: { p.type = TRAX_IMAGE_BUFFER; int n = 1 + choose(W, 50); Rng g(choose(W, 1 << 30)); p.text.resize(n + 4); for (auto& c : p.text) c = (char)g.next(); memcpy(&p.text[0], choose(W, 2) ? "\xff\xd8\xff\xe1" : "\x89PNG", 4); return trax::Image::create_buffer((int)p.text.size(), p.text.data()); }
    case 7: { p.type = TRAX_IMAGE_URL; p.text = "http://" + gen_text(0); return trax::Image::create_url(p.text); }
    default: {
        Lay l; int ty = kinds[choose(W, 3)]; int w = dim(), hh = dim(); layout(l, w, hh, ty, choose(W, 5), choose(W, 1 << 30)); p.type = TRAX_IMAGE_MEMORY; p.mat = l.m.clone();
        trax::Image im = trax::mat_to_image(l.m); probe(ty == CV_8UC3 ? "colour matrix" : ty == CV_8UC1 ? "gray matrix" : "16 bit matrix"); if (!l.m.isContinuous()) probe("matrix with gaps between its rows");
        CHECK(eq(l.parent, l.copy), "source-changed: converting a matrix to an image changed it (%s)", show(p.mat).c_str());
        int iw = 0, ih = 0, f = 0; CHECK(im.type() == TRAX_IMAGE_MEMORY, "image-type: a matrix became an image of type %d", im.type()); im.get_memory_header(&iw, &ih, &f);
        CHECK(iw == w && ih == hh && f == (ty == CV_8UC3 ? TRAX_IMAGE_MEMORY_RGB : ty == CV_8UC1 ? TRAX_IMAGE_MEMORY_GRAY8 : TRAX_IMAGE_MEMORY_GRAY16), "image-header: a matrix of %s became an image %dx%d of format %d", show(p.mat).c_str(), iw, ih, f);
        return im; } }
}
static void check_pic(const Pic& p, const trax::Image& im, cv::Mat& got, const char* where) {
    if (p.type == TRAX_IMAGE_MEMORY) {              // in the image, colours are stored red first
        for (int y = 0; y < p.mat.rows; y++) {
            const uchar* s = p.mat.ptr(y); const uchar* d = (const uchar*)im.get_memory_row(y); bool rgb = p.mat.type() == CV_8UC3; bool same = true;
            for (int x = 0; same && x < p.mat.cols; x++) if (rgb) same = s[3 * x] == d[3 * x + 2] && s[3 * x + 1] == d[3 * x + 1] && s[3 * x + 2] == d[3 * x]; else same = !memcmp(s + x * p.mat.elemSize(), d + x * p.mat.elemSize(), p.mat.elemSize());
            CHECK(same, "%s image-data: row %d of a matrix of %s is not what the image contains", where, y, show(p.mat).c_str());
        }
    }
    decoded.clear(); got = trax::image_to_mat(im);
    if (p.type == TRAX_IMAGE_MEMORY) { CHECK(eq(got, p.mat), "%s matrix: sent %s, received %s", where, show(p.mat).c_str(), show(got).c_str()); CHECK(decoded.empty(), "%s decoder: a raw image was decoded", where); }
    else if (p.type == TRAX_IMAGE_URL) { CHECK(got.empty(), "%s matrix: a remote image became %s", where, show(got).c_str()); }
    else {
        string what = (p.type == TRAX_IMAGE_PATH ? "file " : "data ") + p.text;
        CHECK(decoded.size() == 1 && decoded[0].what == what, "%s decoder: the image %s was read as %s", where, show(what).c_str(), decoded.empty() ? "nothing" : show(decoded[0].what).c_str());
        CHECK(decoded[0].flags == cv::IMREAD_COLOR, "%s decoder: flags %d", where, decoded[0].flags);
        if (p.text.compare(0, 8, "/missing") == 0 && p.type == TRAX_IMAGE_PATH) CHECK(got.empty(), "%s matrix: a missing file gave a matrix", where); else CHECK(eq(got, picture(what)), "%s matrix: the decoded image was changed", where);
    }
}
static trax::Region make_shape(Shape& s, bool special) {
    uint32_t k = choose(W, special ? 9 : 8);
    if (k < 3) {
        s.type = TRAX_REGION_RECTANGLE; s.helper = k != 2; for (int i = 0; i < 4; i++) s.r[i] = i < 2 ? (int)choose(W, 600) - 300 : 1 + (int)choose(W, 300);
        if (s.helper) return trax::rect_to_region(cv::Rect((int)s.r[0], (int)s.r[1], (int)s.r[2], (int)s.r[3]));
        for (int i = 0; i < 4; i++) s.r[i] += (int)choose(W, 16) / 16.0f; return trax::Region::create_rectangle(s.r[0], s.r[1], s.r[2], s.r[3]);
    }
    if (k < 5) { s.type = TRAX_REGION_POLYGON; int n = 3 + choose(W, choose(W, 8) == 7 ? 60 : 6); bool near = choose(W, 2); for (int i = 0; i < n; i++) { if (i && choose(W, 8) == 7) s.pts.push_back(s.pts[choose(W, 2) ? i - 1 : 0]); else s.pts.push_back(near ? cv::Point2f((int)choose(W, 640) / 8.0f - 10, (int)choose(W, 640) / 8.0f - 10) : cv::Point2f((int)choose(W, 4000) / 8.0f - 200, (int)choose(W, 4000) / 8.0f - 200)); } return trax::points_to_region(s.pts); }
    if (k < 8) {
        s.type = TRAX_REGION_MASK; s.helper = k == 5; int w = dim(), hh = dim(); static const int one[] = {1, 255, 7, 128};
        Lay l; layout(l, w, hh, CV_8UC1, 3, choose(W, 1 << 30)); int v = one[choose(W, 4)], dens = 1 + choose(W, 4); for (int y = 0; y < hh; y++) for (int x = 0; x < w; x++) l.m.at<uchar>(y, x) = l.m.at<uchar>(y, x) % (dens + 1) ? v : 0;
        l.m.at<uchar>(choose(W, hh), choose(W, w)) = v; l.copy = l.parent.clone(); s.mask = l.m.clone();
        if (s.helper) { trax::Region r = trax::mat_to_region(l.m); CHECK(eq(l.parent, l.copy), "source-changed: converting a matrix to a region changed it"); if (!l.m.isContinuous()) probe("mask matrix with gaps between its rows"); return r; }
        auto off = [](int n) { return choose(W, 3) == 2 ? (int)choose(W, n + 4) - n - 2 : (int)choose(W, 20); };
        s.mx = off(w); s.my = off(hh); trax::Region r = trax::Region::create_mask(s.mx, s.my, w, hh); for (int y = 0; y < hh; y++) memcpy(r.write_mask_row(y), s.mask.ptr(y), w); return r;
    }
    s.type = TRAX_REGION_SPECIAL; s.code = choose(W, 4); return trax::Region::create_special(s.code);
}
static void limits(const Shape& s, double b[4]) {
    if (s.type == TRAX_REGION_RECTANGLE) { b[0] = s.r[0]; b[1] = s.r[1]; b[2] = s.r[0] + s.r[2]; b[3] = s.r[1] + s.r[3]; }
    else if (s.type == TRAX_REGION_POLYGON) { b[0] = b[1] = 1e9; b[2] = b[3] = -1e9; for (auto& p : s.pts) { b[0] = std::min<double>(b[0], p.x); b[1] = std::min<double>(b[1], p.y); b[2] = std::max<double>(b[2], p.x); b[3] = std::max<double>(b[3], p.y); } }
    else { b[0] = b[1] = 1e9; b[2] = b[3] = -1e9; for (int y = 0; y < s.mask.rows; y++) for (int x = 0; x < s.mask.cols; x++) if (s.mask.at<uchar>(y, x)) { b[0] = std::min<double>(b[0], s.mx + x); b[1] = std::min<double>(b[1], s.my + y); b[2] = std::max<double>(b[2], s.mx + x + 1); b[3] = std::max<double>(b[3], s.my + y + 1); } }
}
static void check_shape(const Shape& s, const trax::Region& r, const char* where) {
    string text = show(s); const char* t = text.c_str();
    CHECK(r.type() == s.type, "%s region: %s arrived as type %d", where, t, r.type());
    string before = r;
    if (s.type == TRAX_REGION_SPECIAL) { cv::Rect c = trax::region_to_rect(r); (void)c; points_of(r); }
    else {
        cv::Rect c = trax::region_to_rect(r); double b[4]; limits(s, b); double got[4] = {(double)c.x, (double)c.y, (double)c.x + c.width, (double)c.y + c.height};
        if (s.type == TRAX_REGION_RECTANGLE) { const double e[4] = {s.r[0], s.r[1], s.r[2], s.r[3]}; const int g[4] = {c.x, c.y, c.width, c.height}; for (int i = 0; i < 4; i++) CHECK(fabs(e[i] - g[i]) <= 0.5001, "%s rectangle: %s became %d,%d,%d,%d", where, t, c.x, c.y, c.width, c.height); }
        else for (int i = 0; i < 4; i++) CHECK(fabs(got[i] - b[i]) <= 2.01, "%s rectangle: %s with limits %g,%g to %g,%g became %d,%d,%d,%d", where, t, b[0], b[1], b[2], b[3], c.x, c.y, c.width, c.height);
        vector<cv::Point2f> p = points_of(r);
        if (s.type == TRAX_REGION_POLYGON) { CHECK(p.size() == s.pts.size(), "%s points: %zu instead of %zu", where, p.size(), s.pts.size()); for (size_t i = 0; i < p.size(); i++) CHECK(p[i] == s.pts[i], "%s points: point %zu is %g,%g instead of %g,%g", where, i, p[i].x, p[i].y, s.pts[i].x, s.pts[i].y); }
        else { CHECK(p.size() >= 3, "%s points: %s became %zu points", where, t, p.size()); Shape q; q.type = TRAX_REGION_POLYGON; q.pts = p; double l[4]; limits(q, l); for (int i = 0; i < 4; i++) CHECK(fabs(l[i] - b[i]) <= 2.01, "%s points: %s with limits %g,%g to %g,%g became points within %g,%g to %g,%g", where, t, b[0], b[1], b[2], b[3], l[0], l[1], l[2], l[3]); }
        if (s.type == TRAX_REGION_MASK) {
            cv::Mat m = trax::region_to_mat(r); int w = std::max(0, s.mx + s.mask.cols), hh = std::max(0, s.my + s.mask.rows);
            CHECK(m.empty() ? w == 0 || hh == 0 : m.type() == CV_8UC1 && m.cols == w && m.rows == hh, "%s mask: %s became a matrix of %s", where, t, show(m).c_str());
            for (int y = 0; y < m.rows; y++) for (int x = 0; x < m.cols; x++) { int u = x - s.mx, v = y - s.my; bool on = u >= 0 && v >= 0 && u < s.mask.cols && v < s.mask.rows && s.mask.at<uchar>(v, u); CHECK((m.at<uchar>(y, x) != 0) == on, "%s mask: pixel %d,%d of %s is %s", where, x, y, t, on ? "not set" : "set"); }
            if (s.mx || s.my) probe("mask with an offset"); if (s.mx < 0 || s.my < 0) probe("mask partly outside");
        }
    }
    string after = r; CHECK(before == after, "%s region-changed: reading %s changed it", where, t);
}
static void check_draw(const Shape& s, const trax::Region& r, const char* where) {
    static const int types[] = {CV_8UC3, CV_8UC1, CV_8UC4, CV_16UC1, CV_32FC3}; int ty = types[choose(W, 5)]; Lay l; layout(l, 1 + choose(W, 60), 1 + choose(W, 60), ty, 3, choose(W, 1 << 30));
    if (CV_MAT_DEPTH(ty) == CV_32F) { for (int y = 0; y < l.parent.rows; y++) { float* f = l.parent.ptr<float>(y); for (int i = 0; i < l.parent.cols * 3; i++) f[i] = (float)((i * 7 + y) % 200); } l.copy = l.parent.clone(); }
    cv::Scalar color(choose(W, 256), choose(W, 256), choose(W, 256), choose(W, 256)); int width = choose(W, 4) == 3 ? -1 : 1 + (int)choose(W, 3);
    cv::Mat canvas = l.m, before = l.m.clone(), one(1, 1, ty, color); string text = r;
    trax::draw_region(canvas, r, color, width);
    CHECK((string)r == text, "%s region-changed: drawing %s changed it", where, show(s).c_str());
    CHECK(canvas.data == l.m.data && canvas.size() == l.m.size() && canvas.type() == ty, "%s canvas: drawing %s replaced the canvas", where, show(s).c_str());
    double b[4] = {1e9, 1e9, -1e9, -1e9}; if (s.type != TRAX_REGION_SPECIAL) limits(s, b); size_t es = one.elemSize(); int painted = 0, should = 0;
    // pixels around the canvas
    { cv::Mat now_ = l.parent.clone(); cv::Mat inner = l.m; vector<cv::Mat> rows; for (int y = 0; y < l.m.rows; y++) memcpy(l.m.ptr(y), before.ptr(y), l.m.cols * es); bool clean = eq(l.parent, l.copy); now_.copyTo(l.parent); CHECK(clean, "%s canvas: drawing %s painted outside the canvas", where, show(s).c_str()); }
    for (int y = 0; y < canvas.rows; y++) for (int x = 0; x < canvas.cols; x++) {
        bool kept = !memcmp(canvas.ptr(y) + x * es, before.ptr(y) + x * es, es), col = !memcmp(canvas.ptr(y) + x * es, one.data, es);
        CHECK(kept || col, "%s canvas: drawing %s left pixel %d,%d neither as it was nor in the colour", where, show(s).c_str(), x, y);
        if (s.type == TRAX_REGION_MASK) { int u = x - s.mx, v = y - s.my; bool on = u >= 0 && v >= 0 && u < s.mask.cols && v < s.mask.rows && s.mask.at<uchar>(v, u); should += on; CHECK(on ? col : kept, "%s canvas: drawing %s on %s: pixel %d,%d was %s", where, show(s).c_str(), show(before).c_str(), x, y, on ? "not painted" : "painted"); }
        else {
            double d = std::max(width, 1) / 2.0 + 2.01;
            if (s.type == TRAX_REGION_SPECIAL || x < b[0] - d || y < b[1] - d || x > b[2] + d || y > b[3] + d) CHECK(kept, "%s canvas: drawing %s painted pixel %d,%d", where, show(s).c_str(), x, y);
            if (s.type == TRAX_REGION_RECTANGLE) {
                bool in = x > b[0] + d && y > b[1] + d && x < b[2] - d && y < b[3] - d; if (in) CHECK(width < 0 ? col : kept, "%s canvas: drawing %s with width %d: inner pixel %d,%d was %s", where, show(s).c_str(), width, x, y, width < 0 ? "not painted" : "painted");
                if (s.helper && ((x == s.r[0] && y >= s.r[1] && y < s.r[1] + s.r[3]) || (y == s.r[1] && x >= s.r[0] && x < s.r[0] + s.r[2]))) CHECK(col, "%s canvas: drawing %s: border pixel %d,%d was not painted", where, show(s).c_str(), x, y);
            }
        }
        painted += !kept;
    }
    auto is = [&](int x, int y) { return !memcmp(canvas.ptr(y) + x * es, one.data, es); };
    if (s.type == TRAX_REGION_RECTANGLE && s.helper) {           // whether the far borders belong to the rectangle is left open
        int x = (int)(s.r[0] + s.r[2]), y = (int)(s.r[1] + s.r[3]);
        if (x > 0 && x < canvas.cols) for (int v = std::max(0, (int)s.r[1]); v < std::min(y, canvas.rows); v++) CHECK(is(x, v) || is(x - 1, v), "%s canvas: drawing %s: right border not painted at %d,%d", where, show(s).c_str(), x, v);
        if (y > 0 && y < canvas.rows) for (int u = std::max(0, (int)s.r[0]); u < std::min(x, canvas.cols); u++) CHECK(is(u, y) || is(u, y - 1), "%s canvas: drawing %s: lower border not painted at %d,%d", where, show(s).c_str(), u, y);
    }
    if (s.type == TRAX_REGION_POLYGON) {
        size_t n = s.pts.size(); double far = std::max(width, 1) / 2.0 + 2.5;
        for (int y = 0; y < canvas.rows; y++) for (int x = 0; x < canvas.cols; x++) {
            double d = 1e9; bool in = false;
            for (size_t a = 0, b = n - 1; a < n; b = a++) {
                double ax = s.pts[a].x, ay = s.pts[a].y, bx = s.pts[b].x, by = s.pts[b].y, l = (bx - ax) * (bx - ax) + (by - ay) * (by - ay), t = l > 0 ? std::max(0.0, std::min(1.0, ((x - ax) * (bx - ax) + (y - ay) * (by - ay)) / l)) : 0;
                d = std::min(d, hypot(x - ax - t * (bx - ax), y - ay - t * (by - ay))); if ((ay > y) != (by > y) && x < (bx - ax) * (y - ay) / (by - ay) + ax) in = !in;
            }
            if (d <= far) continue; bool kept = !memcmp(canvas.ptr(y) + x * es, before.ptr(y) + x * es, es);
            if (width >= 1 || !in) CHECK(kept, "%s canvas: drawing a polygon with width %d painted pixel %d,%d", where, width, x, y); else CHECK(is(x, y), "%s canvas: filling a polygon did not paint pixel %d,%d", where, x, y);
        }
        if (width >= 1) for (size_t a = 0, b = n - 1; a < n; b = a++) for (int k = 0; k < 8; k++) {
            double px = s.pts[a].x + (s.pts[b].x - s.pts[a].x) * k / 8, py = s.pts[a].y + (s.pts[b].y - s.pts[a].y) * k / 8; int x = (int)floor(px), y = (int)floor(py); if (x < 2 || y < 2 || x + 2 >= canvas.cols || y + 2 >= canvas.rows) continue;
            bool found = false; for (int v = y - 2; v <= y + 2; v++) for (int u = x - 2; u <= x + 2; u++) found = found || is(u, v);
            CHECK(found, "%s canvas: drawing a polygon painted nothing near %g,%g between its points %zu and %zu", where, px, py, b, a);
        }
        if (painted) probe("polygon drawn");
    }
    if (painted) probe("something drawn"); (void)should;
}
static void refuse(const char* where) {
    static const int bad[] = {CV_8UC2, CV_8UC4, CV_16UC3, CV_32FC1, CV_64FC1, CV_8SC1, CV_16SC1, CV_32FC3}; Proc* p = cur->proc; size_t mem = live_allocs(p);
    {
        int what = choose(W, 4); bool ok = false; string msg;
        cv::Mat m(1 + choose(W, 6), 1 + choose(W, 6), bad[choose(W, 8)]); noise_fill(m, 3, 5);
        try { if (what == 0) { trax::Image i = trax::mat_to_image(m); } else if (what == 1) { trax::Region r = trax::mat_to_region(m); } else if (what == 2) { trax::Image i = trax::mat_to_image(cv::Mat()); ok = i.empty(); } else { trax::Region r = trax::mat_to_region(cv::Mat()); ok = r.empty(); } } catch (const std::exception& e) { ok = true; msg = e.what(); }
        CHECK(ok, "%s accepted: a matrix of %s was converted to %s", where, what < 2 ? show(m).c_str() : "no pixels", what % 2 ? "a region" : "an image"); probe("refused matrix");
    }
    CHECK(live_allocs(p) == mem, "%s leak: a refused matrix left %zu blocks", where, live_allocs(p) - mem);
    CHECK(trax::image_to_mat(trax::Image()).empty(), "%s: an empty image became a matrix", where);
    trax::Region none; cv::Rect c = trax::region_to_rect(none); CHECK(c.width == 0 && c.height == 0 && c.x == 0 && c.y == 0, "%s: an empty region became the rectangle %d,%d,%d,%d", where, c.x, c.y, c.width, c.height); CHECK(points_of(none).empty(), "%s: an empty region has points", where);
    cv::Mat cv(4, 4, CV_8UC1); cv = cv::Scalar(9); trax::draw_region(cv, none, cv::Scalar(1), 1); CHECK(cv::countNonZero(cv == 9) == 16, "%s: an empty region was drawn", where);
}
// ---------------------------------------------------------------- session
struct Round { vector<Pic> pics; Shape start, answer; };
static void run_opencv() {
    active = "C27"; io_profile(1); sched_profile(false); cv::setNumThreads(0); decoded.clear(); unreadable.clear();
    Session s; s.plan.c_cpp = s.plan.s_cpp = true; s.plan.version = 4; s.plan.socket = choose(W, 3) == 2; s.plan.client_first = choose(W, 2); s.plan.s_setup = 1; s.plan.channels = 1; for (int c : {2, 4}) if (choose(W, 3) == 2) s.plan.channels |= c;
    s.plan.iformats = TRAX_IMAGE_ANY; s.plan.rformats = TRAX_REGION_ANY; s.plan.name = s.plan.desc = s.plan.family = "t"; if (cfg.pipe_cap < 256) cfg.pipe_cap = 256;
    s.cp = new_proc("client"); s.sp = new_proc("server"); int n = 1 + choose(W, 4); vector<Round> rounds(n); int at = -1; bool c_done = false, s_done = false; int chs = s.plan.channels;
    sample("OpenCV session over %s, channels %d, %d images each\n", s.plan.socket ? "socket" : "pipe", chs, n);
    connect_hook = [&](File* a, File*) { a->tx->tap = &s.s2c; a->rx->tap = &s.c2s; };
    s.setup();
    new_task(s.cp, "client", [&] {
        size_t mem0 = live_allocs(s.cp); uint64_t mark = alloc_mark(); int lfd = -1;
        if (s.plan.socket) { if (!s.plan.client_first) sleep_for(1 + choose(S, 20) * 100 * MS); lfd = sim_socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(s.port); CHECK(sim_bind(lfd, (struct sockaddr*)&a, sizeof a) == 0, "harness: bind"); }
        {
        std::unique_ptr<trax::Client> c(lfd >= 0 ? new trax::Client(lfd, trax::Logging(trax_no_log), 60) : new trax::Client(s.c_in, s.c_out, trax::Logging(trax_no_log)));
        for (int i = 0; i < n; i++) {
            Round& r = rounds[i]; r.pics.resize(3); trax::ImageList il; string w = "client (step " + std::to_string(i) + ")";
            if (choose(W, 6) == 5) refuse(w.c_str());
            for (int k = 0; k < 3; k++) if (chs & (1 << k)) { trax::Image im = make_pic(r.pics[k], s.cp); cv::Mat m; check_pic(r.pics[k], im, m, w.c_str()); il.set(im, 1 << k); }
            trax::Properties pr; int ok;
            if (i == 0 || choose(W, 4) == 3) { trax::Region g = make_shape(r.start, false); check_shape(r.start, g, w.c_str()); check_draw(r.start, g, w.c_str()); at = i; ok = c->initialize(il, g, pr); }
            else { at = i; ok = c->frame(il, pr); }
            CHECK(ok == TRAX_OK, "%s: a request was refused (%d, %s)", w.c_str(), ok, c->get_error().c_str());
            trax::Region st; ok = c->wait(st, pr); CHECK(ok == TRAX_STATE, "%s: no answer (%d)", w.c_str(), ok);
            check_shape(r.answer, st, w.c_str()); check_draw(r.answer, st, w.c_str());
        }
        }
        CHECK(live_allocs(s.cp) == mem0, "client leak: allocated in %s", first_alloc_site(s.cp, mark).c_str()); c_done = true;
    });
    new_task(s.sp, "server", [&] {
        size_t mem0 = live_allocs(s.sp); uint64_t mark = alloc_mark(); vector<std::pair<cv::Mat, cv::Mat>> kept;
        {
        trax::ServerMOT sv(trax::Metadata(s.plan.rformats, s.plan.iformats, chs, "t", "d", "f"), trax::Logging(trax_no_log));
        for (int i = 0; i < n; i++) {
            Round& r = rounds[i]; string w = "server (step " + std::to_string(i) + ")";
            {
            trax::ImageList il; trax::Region g; trax::Properties pr; int c = sv.wait(il, g, pr);
            CHECK(c == (r.start.type ? TRAX_INITIALIZE : TRAX_FRAME) && at == i, "%s: request %d", w.c_str(), c);
            for (int k = 0; k < 3; k++) if (chs & (1 << k)) { cv::Mat m; check_pic(r.pics[k], il.get(1 << k), m, w.c_str()); kept.push_back({m, m.clone()}); }
            if (r.start.type) { check_shape(r.start, g, w.c_str()); check_draw(r.start, g, w.c_str()); }
            }
            for (auto& k : kept) CHECK(eq(k.first, k.second), "%s: a matrix changed after its image was released", w.c_str());
            for (auto& k : kept) if (choose(W, 3) == 2) { if (!k.first.empty()) { k.first = cv::Scalar(3, 3, 3, 3); k.second = k.first.clone(); } }      // the tracker may draw into it
            trax::Region a = make_shape(r.answer, true); int ok = sv.reply(a, trax::Properties()); CHECK(ok == TRAX_OK, "%s: the answer was refused (%d)", w.c_str(), ok);
            if (choose(W, 6) == 5) refuse(w.c_str());
        }
        trax::ImageList il; trax::Region g; trax::Properties pr; int c = sv.wait(il, g, pr); CHECK(c == TRAX_QUIT, "server: %d instead of quit", c);
        }
        CHECK(live_allocs(s.sp) == mem0, "server leak: allocated in %s", first_alloc_site(s.sp, mark).c_str()); s_done = true;
    });
    run(); CHECK(c_done && s_done, "stuck: the session did not end");
    set_nontrivial();
}
}
SCENARIO(C27) { h::run_opencv(); }
