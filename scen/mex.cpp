#include "mex.h"
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdexcept>
#include <octave/mxtypes.h>
extern "C" { int sim_sigaction(int, const struct sigaction*, struct sigaction*); }
extern "C" { sig_atomic_t octave_interrupt_state = 0; volatile sig_atomic_t octave_signal_caught = 0; }
namespace h {
static void quit_point() { quit_point(); }
static size_t width(int cls) { switch (cls) { case M_CHAR: case M_BOOL: case M_U8: case M_INT8: return 1; case M_U16: case M_INT16: return 2; case M_SINGLE: case M_INT32: case 13: return 4; case M_DOUBLE: case 14: case 15: return 8; default: return 0; } }
static double number(int cls, const char* p) {
    switch (cls) { case M_CHAR: case M_INT8: return *(const signed char*)p; case M_BOOL: case M_U8: return *(const unsigned char*)p; case M_U16: { uint16_t v; memcpy(&v, p, 2); return v; } case M_INT16: { int16_t v; memcpy(&v, p, 2); return v; }
    case M_INT32: { int32_t v; memcpy(&v, p, 4); return v; } case M_SINGLE: { float v; memcpy(&v, p, 4); return v; } case M_DOUBLE: { double v; memcpy(&v, p, 8); return v; } default: return 0; }
}
double Val::num(size_t i) const { size_t w = width(cls); return w && (i + 1) * w <= bytes.size() ? number(cls, bytes.data() + i * w) : 0; }
bool operator==(const Val& a, const Val& b) { return a.cls == b.cls && a.dims == b.dims && a.bytes == b.bytes && a.items == b.items && a.names == b.names; }
string show(const Val& v, int depth) {
    static const char* nm[] = {"?", "cell", "struct", "bool", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function"};
    string o = nm[v.cls >= 0 && v.cls <= 16 ? v.cls : 0]; o += " "; for (size_t i = 0; i < v.dims.size(); i++) o += (i ? "x" : "") + std::to_string(v.dims[i]);
    if (v.cls == M_CHAR) return o + " '" + show(v.bytes) + "'";
    if (depth < 3 && (v.cls == M_CELL || v.cls == M_STRUCT)) { o += " {"; for (size_t i = 0; i < v.items.size() && o.size() < 300; i++) o += (i ? ", " : "") + (v.cls == M_STRUCT && i < v.names.size() ? v.names[i] + "=" : string()) + show(v.items[i], depth + 1); return o + "}"; }
    if (width(v.cls)) { o += " ["; for (long i = 0; i < v.count() && i < 12; i++) { char b[32]; snprintf(b, sizeof b, "%s%.7g", i ? " " : "", v.num(i)); o += b; } o += v.count() > 12 ? " ..]" : "]"; }
    return o;
}
Val vrow(const vector<double>& d, int cls, bool column) {
    Val v; v.cls = cls; v.dims = column ? vector<long>{(long)d.size(), 1} : vector<long>{1, (long)d.size()};
    for (double x : d) { char b[8]; size_t w = width(cls); switch (cls) { case M_DOUBLE: memcpy(b, &x, 8); break; case M_SINGLE: { float f = x; memcpy(b, &f, 4); break; } case M_INT32: { int32_t k = x; memcpy(b, &k, 4); break; } case M_U16: case M_INT16: { uint16_t k = (int)x; memcpy(b, &k, 2); break; } default: b[0] = (char)(int)x; } v.bytes.append(b, w); }
    return v;
}
Val vzeros(const vector<long>& dims, int cls) { Val v; v.cls = cls; v.dims = dims; if (cls == M_CELL) v.items.resize(v.count()); else v.bytes.assign(v.count() * width(cls), 0); return v; }
Val vstr(const string& s) { Val v; v.cls = M_CHAR; v.dims = {s.empty() ? 0L : 1L, (long)s.size()}; v.bytes = s; return v; }
Val vcell(long r, long c, const vector<Val>& items) { Val v; v.cls = M_CELL; v.dims = {r, c}; v.items = items; v.items.resize(r * c); return v; }
Val vstruct(const vector<string>& names, const vector<Val>& items) { Val v; v.cls = M_STRUCT; v.dims = {1, 1}; v.names = names; v.items = items; return v; }
Val vbool(bool b) { Val v; v.cls = M_BOOL; v.dims = {1, 1}; v.bytes = string(1, (char)b); return v; }
Val vfn(Callback f) { Val v; v.cls = M_FUNC; v.dims = {1, 1}; v.fn = std::make_shared<Callback>(f); return v; }
std::function<void(const char*)> mex_print;
Handlers mex_handlers;

// ---------------------------------------------------------------- arrays
struct Mx { int cls = 0; vector<int64_t> dims; char* data = nullptr; vector<Mx*> items; vector<string> names; Mx* owner = nullptr; std::shared_ptr<Callback> fn; bool input = false; };
struct Ctx { Task* task; std::set<Mx*> live; std::set<void*> mem; };
static Ctx* ctx;
static Ctx* need(const char* fn) {
    if (!ctx) violation("interpreter-call: %s is called while no function of the extension is being executed", fn);
    if (cur != ctx->task) violation("interpreter-thread: %s is called from another thread than the interpreter's", fn);
    return ctx;
}
static Mx* get(const void* p, const char* fn) {
    Ctx* c = need(fn); Mx* m = (Mx*)p;
    if (!p) violation("null-array: %s is called without an array", fn);
    if (!c->live.count(m)) violation("dead-array: %s is called with an array that does not exist (any more)", fn);
    return m;
}
static int64_t count(Mx* m) { int64_t n = 1; for (auto d : m->dims) n *= d; return n; }
static Mx* make(const char* fn, int cls, vector<int64_t> dims) {
    Ctx* c = need(fn); if (dims.size() < 2) dims.resize(2, 1); while (dims.size() > 2 && dims.back() == 1) dims.pop_back();
    Mx* m = new Mx; m->cls = cls; m->dims = dims; int64_t n = 1; for (auto d : dims) { if (d < 0 || (n && d > (1 << 28) / std::max<int64_t>(n, 1))) throw mex_error("out of memory or dimension too large for Octave's index type"); n *= d; }
    if (size_t w = width(cls)) m->data = (char*)calloc(n * w ? n * w : 1, 1), m->data = n * w ? m->data : (free(m->data), (char*)malloc(0)); else m->items.assign(cls == M_CELL ? n : 0, nullptr);
    c->live.insert(m); return m;
}
static void destroy(Mx* m) { if (!m) return; ctx->live.erase(m); free(m->data); for (auto i : m->items) destroy(i); delete m; }
static Mx* from(const Val& v, bool input) {
    vector<int64_t> d(v.dims.begin(), v.dims.end()); Mx* m = make("-", v.cls, d); m->input = input; m->fn = v.fn; m->names = v.names;
    if (m->data && v.bytes.size()) memcpy(m->data, v.bytes.data(), v.bytes.size());
    if (v.cls == M_CELL || v.cls == M_STRUCT) { m->items.clear(); for (auto& i : v.items) { Mx* k = from(i, input); k->owner = m; m->items.push_back(k); } }
    return m;
}
static Val to(Mx* m) {
    Val v; if (!m) return v;
    v.cls = m->cls; v.dims.assign(m->dims.begin(), m->dims.end()); v.fn = m->fn;
    if (m->data) v.bytes.assign(m->data, count(m) * width(m->cls));
    if (m->cls == M_CELL) for (auto i : m->items) v.items.push_back(to(i));
    if (m->cls == M_STRUCT) for (size_t i = 0; i < m->names.size(); i++) { Val x = to(i < m->items.size() ? m->items[i] : nullptr); size_t k = std::find(v.names.begin(), v.names.end(), m->names[i]) - v.names.begin(); if (k < v.names.size()) v.items[k] = x; else { v.names.push_back(m->names[i]); v.items.push_back(x); } }
    return v;
}
MexOut mex_call(MexFn fn, int nlhs, const vector<Val>& args) {
    if (ctx) harness_error("nested call of an extension function");
    MexOut r; Ctx c; c.task = cur; ctx = &c; int n = std::max(1, nlhs);
    const void** prhs = (const void**)malloc(args.size() * sizeof(void*)); void** plhs = (void**)malloc(n * sizeof(void*)); for (int i = 0; i < n; i++) plhs[i] = nullptr;
    for (size_t i = 0; i < args.size(); i++) prhs[i] = from(args[i], true);
    auto old = mex_print; mex_print = [&](const char* s) { r.printed += s; if (old) old(s); };
    try { fn(nlhs, plhs, (int)args.size(), prhs); for (int i = 0; i < n; i++) { if (plhs[i]) { get(plhs[i], "return"); if (i < nlhs || i == 0) r.out.push_back(to((Mx*)plhs[i])); } else break; } }
    catch (const mex_interrupt&) { r.interrupted = true; }
    catch (const mex_error& e) { r.err = true; r.msg = e.what(); }
    catch (const std::exception& e) { r.err = true; r.msg = string("exception: ") + e.what(); violation("foreign-exception: the extension function ends with a C++ exception of its own: %s", e.what()); }
    mex_print = old;
    while (!c.live.empty()) { Mx* m = *c.live.begin(); while (m->owner) m = m->owner; destroy(m); }
    for (void* p : c.mem) free(p);
    free(prhs); free(plhs); ctx = nullptr; octave_interrupt_state = 0; octave_signal_caught = 0; return r;
}
}
using namespace h;
typedef void mxArray;
#define API extern "C"
#define GET(p) get(p, __func__)
API {
mxArray* mxCreateNumericArray(mwSize nd, const mwSize* d, mxClassID c, mxComplexity) { return make(__func__, c, vector<int64_t>(d, d + nd)); }
mxArray* mxCreateUninitNumericArray(mwSize nd, const mwSize* d, mxClassID c, mxComplexity) { Mx* m = make(__func__, c, vector<int64_t>(d, d + nd)); memset(m->data, 0xa5, count(m) * width(c)); return m; }
mxArray* mxCreateNumericMatrix(mwSize a, mwSize b, mxClassID c, mxComplexity) { return make(__func__, c, {a, b}); }
mxArray* mxCreateUninitNumericMatrix(mwSize a, mwSize b, mxClassID c, mxComplexity) { Mx* m = make(__func__, c, {a, b}); memset(m->data, 0xa5, count(m) * width(c)); return m; }
mxArray* mxCreateDoubleMatrix(mwSize a, mwSize b, mxComplexity) { return make(__func__, M_DOUBLE, {a, b}); }
mxArray* mxCreateDoubleScalar(double v) { Mx* m = make(__func__, M_DOUBLE, {1, 1}); memcpy(m->data, &v, 8); return m; }
mxArray* mxCreateLogicalScalar(mxLogical v) { Mx* m = make(__func__, M_BOOL, {1, 1}); m->data[0] = v != 0; return m; }
mxArray* mxCreateLogicalMatrix(mwSize a, mwSize b) { return make(__func__, M_BOOL, {a, b}); }
mxArray* mxCreateLogicalArray(mwSize nd, const mwSize* d) { return make(__func__, M_BOOL, vector<int64_t>(d, d + nd)); }
mxArray* mxCreateCellMatrix(mwSize a, mwSize b) { return make(__func__, M_CELL, {a, b}); }
mxArray* mxCreateCellArray(mwSize nd, const mwSize* d) { return make(__func__, M_CELL, vector<int64_t>(d, d + nd)); }
mxArray* mxCreateCharArray(mwSize nd, const mwSize* d) { return make(__func__, M_CHAR, vector<int64_t>(d, d + nd)); }
mxArray* mxCreateString(const char* s) { size_t n = strlen(s); Mx* m = make(__func__, M_CHAR, {n ? 1 : 0, (int64_t)n}); memcpy(m->data, s, n); return m; }
mxArray* mxCreateCharMatrixFromStrings(mwSize k, const char** s) { size_t n = 0; for (mwSize i = 0; i < k; i++) n = std::max(n, strlen(s[i])); Mx* m = make(__func__, M_CHAR, {k, (int64_t)n}); for (mwSize i = 0; i < k; i++) { size_t l = strlen(s[i]); for (size_t j = 0; j < n; j++) m->data[i + j * k] = j < l ? s[i][j] : ' '; } return m; }
mxArray* mxCreateStructArray(mwSize nd, const mwSize* d, int nf, const char** f) { Mx* m = make(__func__, M_STRUCT, vector<int64_t>(d, d + nd)); for (int i = 0; i < nf; i++) m->names.push_back(f[i]); m->items.assign(count(m) * nf, nullptr); return m; }
mxArray* mxCreateStructMatrix(mwSize a, mwSize b, int nf, const char** f) { mwSize d[2] = {a, b}; return mxCreateStructArray(2, d, nf, f); }
mxArray* mxDuplicateArray(const mxArray* p) { return from(to(GET(p)), false); }
void mxDestroyArray(mxArray* p) {
    if (!p) return; need(__func__); Mx* m = (Mx*)p;
    if (!ctx->live.count(m)) violation("double-destroy: mxDestroyArray is called with an array that does not exist any more");
    if (m->input) violation("destroyed-argument: mxDestroyArray is called with an argument of the caller");
    if (m->owner) violation("destroyed-element: mxDestroyArray is called with an array that is part of another one");
    destroy(m);
}
bool mxIsCell(const mxArray* p) { return GET(p)->cls == M_CELL; }
bool mxIsChar(const mxArray* p) { return GET(p)->cls == M_CHAR; }
bool mxIsStruct(const mxArray* p) { return GET(p)->cls == M_STRUCT; }
bool mxIsDouble(const mxArray* p) { return GET(p)->cls == M_DOUBLE; }
bool mxIsSingle(const mxArray* p) { return GET(p)->cls == M_SINGLE; }
bool mxIsUint8(const mxArray* p) { return GET(p)->cls == M_U8; }
bool mxIsUint16(const mxArray* p) { return GET(p)->cls == M_U16; }
bool mxIsInt8(const mxArray* p) { return GET(p)->cls == M_INT8; }
bool mxIsInt16(const mxArray* p) { return GET(p)->cls == M_INT16; }
bool mxIsInt32(const mxArray* p) { return GET(p)->cls == M_INT32; }
bool mxIsUint32(const mxArray* p) { return GET(p)->cls == 13; }
bool mxIsInt64(const mxArray* p) { return GET(p)->cls == 14; }
bool mxIsUint64(const mxArray* p) { return GET(p)->cls == 15; }
bool mxIsLogical(const mxArray* p) { return GET(p)->cls == M_BOOL; }
bool mxIsNumeric(const mxArray* p) { int c = GET(p)->cls; return c >= M_DOUBLE && c <= 15; }
bool mxIsComplex(const mxArray* p) { GET(p); return false; }
bool mxIsSparse(const mxArray* p) { GET(p); return false; }
bool mxIsFunctionHandle(const mxArray* p) { return GET(p)->cls == M_FUNC; }
bool mxIsEmpty(const mxArray* p) { return count(GET(p)) == 0; }
bool mxIsScalar(const mxArray* p) { return count(GET(p)) == 1; }
bool mxIsLogicalScalar(const mxArray* p) { Mx* m = GET(p); return m->cls == M_BOOL && count(m) == 1; }
bool mxIsLogicalScalarTrue(const mxArray* p) { Mx* m = GET(p); return m->cls == M_BOOL && count(m) == 1 && m->data[0]; }
const char* mxGetClassName(const mxArray* p) { static const char* nm[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle"}; return nm[GET(p)->cls]; }
bool mxIsClass(const mxArray* p, const char* n) { return !strcmp(mxGetClassName(p), n); }
mxClassID mxGetClassID(const mxArray* p) { return (mxClassID)GET(p)->cls; }
size_t mxGetM(const mxArray* p) { return GET(p)->dims[0]; }
size_t mxGetN(const mxArray* p) { Mx* m = GET(p); size_t n = 1; for (size_t i = 1; i < m->dims.size(); i++) n *= m->dims[i]; return n; }
const mwSize* mxGetDimensions(const mxArray* p) { return GET(p)->dims.data(); }
mwSize mxGetNumberOfDimensions(const mxArray* p) { return GET(p)->dims.size(); }
size_t mxGetNumberOfElements(const mxArray* p) { return count(GET(p)); }
size_t mxGetElementSize(const mxArray* p) { return width(GET(p)->cls); }
void* mxGetData(const mxArray* p) { return GET(p)->data; }
double* mxGetPr(const mxArray* p) { return (double*)GET(p)->data; }
mxChar* mxGetChars(const mxArray* p) { return (mxChar*)GET(p)->data; }
mxLogical* mxGetLogicals(const mxArray* p) { return (mxLogical*)GET(p)->data; }
mxDouble* mxGetDoubles(const mxArray* p) { return (mxDouble*)GET(p)->data; }
mxUint8* mxGetUint8s(const mxArray* p) { return (mxUint8*)GET(p)->data; }
mxUint16* mxGetUint16s(const mxArray* p) { return (mxUint16*)GET(p)->data; }
double mxGetScalar(const mxArray* p) { Mx* m = GET(p); if (!width(m->cls)) throw mex_error("wrong type argument"); if (!count(m)) throw mex_error("index (_,0): out of bound; value 0 out of bound 0"); return number(m->cls, m->data); }
int mxGetString(const mxArray* p, char* buf, mwSize len) { Mx* m = GET(p); if (m->cls != M_CHAR) return 1; int64_t n = count(m); int r = 0; if (n >= len) { n = len - 1; r = 1; } if (len < 1) return 1; memcpy(buf, m->data, n); buf[n] = 0; return r; }
char* mxArrayToString(const mxArray* p) { Mx* m = GET(p); if (m->cls != M_CHAR) return nullptr; char* b = (char*)malloc(count(m) + 1); memcpy(b, m->data, count(m)); b[count(m)] = 0; ctx->mem.insert(b); return b; }
mxArray* mxGetCell(const mxArray* p, mwIndex i) { Mx* m = GET(p); if (m->cls != M_CELL) { return nullptr; } return i >= 0 && i < (mwIndex)m->items.size() ? m->items[i] : nullptr; }
static void own(Mx* m, Mx*& slot, Mx* v, const char* fn) { if (v) { get(v, fn); if (v->owner) violation("shared-element: %s puts an array into two places", fn); if (v->input) violation("shared-element: %s puts an argument of the caller into a new array", fn); v->owner = m; } if (slot) slot->owner = nullptr; slot = v; }
void mxSetCell(mxArray* p, mwIndex i, mxArray* v) { Mx* m = GET(p); if (m->cls == M_CELL && i >= 0 && i < (mwIndex)m->items.size()) own(m, m->items[i], (Mx*)v, __func__); else violation("outside: mxSetCell with index %ld of %zu", (long)i, m->items.size()); }
int mxGetNumberOfFields(const mxArray* p) { Mx* m = GET(p); return m->names.size(); }
const char* mxGetFieldNameByNumber(const mxArray* p, int k) { Mx* m = GET(p); return k >= 0 && k < (int)m->names.size() ? m->names[k].c_str() : nullptr; }
int mxGetFieldNumber(const mxArray* p, const char* n) { Mx* m = GET(p); for (size_t i = 0; i < m->names.size(); i++) if (m->names[i] == n) return i; return -1; }
mxArray* mxGetFieldByNumber(const mxArray* p, mwIndex idx, int k) { Mx* m = GET(p); if (m->cls != M_STRUCT || k < 0 || k >= (int)m->names.size() || idx < 0 || idx >= count(m)) return nullptr; return m->items[idx * m->names.size() + k]; }
mxArray* mxGetField(const mxArray* p, mwIndex idx, const char* n) { return mxGetFieldByNumber(p, idx, mxGetFieldNumber(p, n)); }
void mxSetFieldByNumber(mxArray* p, mwIndex idx, int k, mxArray* v) { Mx* m = GET(p); if (m->cls == M_STRUCT && k >= 0 && k < (int)m->names.size() && idx >= 0 && idx < count(m)) own(m, m->items[idx * m->names.size() + k], (Mx*)v, __func__); else violation("outside: mxSetFieldByNumber with field %d of %zu", k, m->names.size()); }
void mxSetField(mxArray* p, mwIndex idx, const char* n, mxArray* v) { mxSetFieldByNumber(p, idx, mxGetFieldNumber(p, n), v); }
int mxAddField(mxArray* p, const char* n) { Mx* m = GET(p); if (m->cls != M_STRUCT) return -1; if (count(m) != 1) harness_error("mxAddField on an array of structures"); m->names.push_back(n); m->items.push_back(nullptr); return m->names.size() - 1; }
void* mxMalloc(size_t n) { need(__func__); void* p = malloc(n); memset(p, 0xa5, n); ctx->mem.insert(p); return p; }
void* mxCalloc(size_t n, size_t s) { need(__func__); void* p = calloc(n, s); ctx->mem.insert(p); return p; }
void* mxRealloc(void* o, size_t n) { need(__func__); ctx->mem.erase(o); void* p = realloc(o, n); ctx->mem.insert(p); return p; }
void mxFree(void* p) { need(__func__); if (!p) return; if (!ctx->mem.erase(p)) violation("bad-free: mxFree of a block that was not allocated by the interpreter, or twice"); free(p); }
bool mxIsNaN(double v) { return std::isnan(v); }
bool mxIsInf(double v) { return std::isinf(v); }
bool mxIsFinite(double v) { return std::isfinite(v); }
double mxGetNaN() { return NAN; }
double mxGetInf() { return INFINITY; }
double mxGetEps() { return 2.220446049250313e-16; }
void mexErrMsgTxt(const char* s) { need(__func__); throw mex_error(s ? s : ""); }
void mexErrMsgIdAndTxt(const char*, const char* f, ...) { need(__func__); char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); throw mex_error(b); }
void mexWarnMsgTxt(const char* s) { need(__func__); ev("warning %s", s); }
void mexWarnMsgIdAndTxt(const char*, const char* f, ...) { need(__func__); }
int mexPrintf(const char* f, ...) { need(__func__); va_list a; va_start(a, f); char* b = nullptr; int n = vasprintf(&b, f, a); va_end(a); if (n >= 0) { if (mex_print) mex_print(b); free(b); } return n; }
int mexAtExit(void (*)(void)) { need(__func__); return 0; }
const char* mexFunctionName() { return "trax"; }
void mexLock() {}
void mexUnlock() {}
int mexIsLocked() { return 0; }
void mexMakeArrayPersistent(mxArray*) { harness_error("persistent arrays are not modelled"); }
void mexMakeMemoryPersistent(void*) { harness_error("persistent memory is not modelled"); }
int mexCallMATLAB(int nl, mxArray* l[], int nr, mxArray* r[], const char* name) {
    need(__func__); vector<Val> a; for (int i = 0; i < nr; i++) a.push_back(to(GET(r[i])));
    if (strcmp(name, "feval") || a.empty() || !a[0].fn) harness_error("call of %s", name);
    Val f = a[0]; a.erase(a.begin()); Ctx* c = ctx; vector<Val> o;
    ctx = nullptr; try { quit_point(); o = (*f.fn)(a, nl); quit_point(); } catch (...) { ctx = c; throw; } ctx = c;
    if ((int)o.size() < nl) throw mex_error("function called with too many outputs");
    for (int i = 0; i < nl; i++) l[i] = from(o[i], false);
    return 0;
}
}
// ---------------------------------------------------------------- interrupts
namespace octave {
typedef void sig_handler(int);
struct interrupt_handler { sig_handler* int_handler; sig_handler* brk_handler; };
interrupt_handler set_interrupt_handler(const volatile interrupt_handler& n, bool) {
    interrupt_handler o = {mex_handlers.sig, mex_handlers.brk}; mex_handlers.sig = n.int_handler; mex_handlers.brk = n.brk_handler;
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = n.int_handler; a.sa_flags = SA_RESTART; sim_sigaction(SIGINT, &a, nullptr); return o;
}
}
extern "C" void octave_handle_signal() { quit_point(); }
