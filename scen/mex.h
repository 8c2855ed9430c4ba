// A stand-in for the Octave interpreter: values, the mx*/mex* functions that the extension functions use, and calls of them.
#pragma once
#include "common.h"
namespace h {
// class numbers as in mex.h
enum { M_CELL = 1, M_STRUCT = 2, M_BOOL = 3, M_CHAR = 4, M_DOUBLE = 6, M_SINGLE = 7, M_INT8 = 8, M_U8 = 9, M_INT16 = 10, M_U16 = 11, M_INT32 = 12, M_FUNC = 16 };
struct Val;
typedef std::function<vector<Val>(const vector<Val>&, int)> Callback;
struct Val {
    int cls = M_DOUBLE; vector<long> dims{0, 0}; string bytes; vector<Val> items; vector<string> names; std::shared_ptr<Callback> fn;   // items: cells, or one per field of a 1x1 structure
    long count() const { long n = 1; for (long d : dims) n *= d; return n; }
    bool empty() const { return count() == 0; }
    string text() const { return bytes; }
    double num(size_t i = 0) const;
    const Val* field(const string& n) const { for (size_t i = names.size(); i-- > 0;) if (names[i] == n) return &items[i]; return nullptr; }
};
bool operator==(const Val& a, const Val& b);
inline bool operator!=(const Val& a, const Val& b) { return !(a == b); }
string show(const Val& v, int depth = 0);
Val vrow(const vector<double>& d, int cls = M_DOUBLE, bool column = false);
inline Val vnum(double d) { return vrow({d}); }
Val vzeros(const vector<long>& dims, int cls = M_DOUBLE);
Val vstr(const string& s);                        // 0x0 if empty, as ''
Val vcell(long r, long c, const vector<Val>& items);
Val vstruct(const vector<string>& names, const vector<Val>& items);
Val vbool(bool b);
Val vfn(Callback f);
inline Val vempty() { return Val(); }
struct mex_error : std::runtime_error { using std::runtime_error::runtime_error; };   // an error of the interpreter
struct mex_interrupt {};                          // the interpreter unwinds after Ctrl-C
typedef void (*MexFn)(int, void**, int, const void**);
struct MexOut { bool err = false, interrupted = false; string msg, printed; vector<Val> out; bool ok() const { return !err && !interrupted; } };
MexOut mex_call(MexFn fn, int nlhs, const vector<Val>& args);
extern std::function<void(const char*)> mex_print;                                     // what mexPrintf is given
struct Handlers { void (*sig)(int) = nullptr; void (*brk)(int) = nullptr; };
extern Handlers mex_handlers;                     // the interpreter's interrupt handler
}
