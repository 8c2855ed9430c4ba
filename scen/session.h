// Engine A: a whole session between the real client and the real server side, driven by a generated plan.
#pragma once
#include "common.h"

namespace h {

struct Focus {                       // what the plan concentrates on
    int text = 0, img = 0, reg = 0;  // 0 simple, 1 rich, 2 rich and large
    bool noise = false, refuse = false, multi = false, ends = false, meta = false, copies = false, logs = false, convert = false, props = true, reuse = false;
    int max_steps = 5;
    bool heavy_io = true;
};

enum { INIT, FRAME };
enum Refusal { C_INIT_NONE, C_INIT_NOIMG, C_INIT_MANY, C_FRAME_ADD, C_FRAME_NOIMG, C_WAIT_EARLY, S_REPLY_COUNT, S_REPLY_MODE, S_WAIT_MODE };
enum End { END_CLIENT_REASON, END_CLIENT_RELEASE, END_SERVER_REASON, END_SERVER_RELEASE, END_BOTH, NEND };

struct Step {
    int kind = INIT;
    Imgs imgs; vector<Obj> objs; Props props;
    vector<Obj> reply;
    vector<int> cref, cref_wait, sref, sref_reply;
    string noise_c, noise_s;
    uint64_t delay_c = 0, delay_s = 0;
    bool c_single = false, s_single = false, r_single = false, w_single = false;   // region overloads of the C++ interface
};

struct Plan {
    bool c_cpp = false, s_cpp = false, socket = false, client_first = true; int s_setup = 0;   // 0 file_v, 1 env, 2 stdin/stdout
    int version = 4; bool multi = false; int channels = 1, iformats = 1, rformats = 2;
    string name, desc, family; bool has_name = true, has_desc = true, has_family = true; Props custom;
    vector<Step> steps;
    int end = 0; string reason; bool c_log = false, s_log = false; string noise_end_c, noise_end_s, noise_hello;
    int copies = 0; bool reuse = false; uint32_t refuse_seed = 0;
    size_t bytes() const;
    bool v4() const { return version >= 4; }
};
Plan gen_plan(const Focus& f);
string show(const Plan& p);

struct Log { string sent, recv; bool sending = false; int file = 0; };
struct Result { int code = -100; Imgs imgs; bool has_imgs = false; vector<Obj> objs; bool has_objs = false; Props props; bool unread = false; };

struct Cli; struct Srv;
struct Expect { int type; vector<string> args; vector<Reg> regs; vector<bool> conv; Props props; };

struct Session {
    Plan plan; Proc *cp = nullptr, *sp = nullptr; int id = 0;
    string c2s, s2c; vector<std::pair<size_t, size_t>> noise_c2s, noise_s2c;
    vector<Expect> ec2s, es2c;
    Log clog, slog;
    int c_in = -1, c_out = -1, c_listen = -1, s_in = -1, s_out = -1, port = 0;
    int c_done = 0, s_done = 0, c_ended = 0, s_ended = 0;
    string ids;                       // properties that an unexpected failure counts for
    bool leakcheck = true;
    void setup();                     // descriptors, environment
    void client_main();
    void server_main();
    void finish();                    // checks over the whole history
private:
    void c_refuse(Cli* c, int r, const Step& st, int tracked);
    void s_refuse(Srv* s, int r, int tracked);
    void c_dead(Cli* c, const char* when);
    void s_dead(Srv* s, const char* when);
    void check_tap(const string& tap, const vector<Expect>& ex, bool hello);
    void emit_noise(Proc* p, int fd, const string& n, const string& tap, vector<std::pair<size_t, size_t>>& rec);
    string lbl() const { return id ? "session " + std::to_string(id) + " " : ""; }
};
vector<string> wire_channels(const Imgs& i, int channels);
bool parse_reg(const string& s, Reg& r);

struct Kept { trax::ImageList l; Imgs lv; trax::Region r; Reg rv; trax::ObjectList o; vector<Obj> ov; trax::Properties p; Props pv; bool hl = false, hr = false, ho = false, hp = false; };
struct Reuse {                        // results of the C++ interface received into the same objects again and again, with copies kept
    bool on = false; trax::ImageList l; trax::Region r; trax::ObjectList o; trax::Properties p; vector<Kept> kept;
    void keep(const Result& res); void check(bool drop);
};
struct Cli {                          // client interface, C or C++
    Log* log; Reuse reuse; virtual ~Cli() {}
    virtual bool ok() = 0; virtual trax_handle* raw() = 0;
    virtual int init(const Step& s, const vector<Obj>& o, const Imgs& i) = 0;
    virtual int frame(const Step& s, const vector<Obj>& o, const Imgs& i) = 0;
    virtual Result wait(bool single) = 0;
    virtual int terminate(const string* reason) = 0;
    virtual bool alive() = 0;
    virtual void release() = 0;
    virtual string error() = 0;
    virtual void copies(int, string*) {}
};
struct Srv {
    Log* log; Reuse reuse; virtual ~Srv() {}
    virtual bool ok() = 0; virtual trax_handle* raw() = 0;
    virtual Result wait(bool single) = 0;
    virtual int reply(const vector<Obj>& o, bool single) = 0;
    virtual int terminate(const string* reason) = 0;
    virtual bool alive() = 0;
    virtual void release() = 0;
    virtual string error() = 0;
    virtual void copies(int, string*) {}
};
Cli* new_cli(const Plan& p, Log* log, int in, int out, int listen_fd, int timeout = 60);
Srv* new_srv(const Plan& p, Log* log, int in, int out);
trax_logging log_to(Log* log, bool on); void cli_log(const char* s, int n, void* p);
// the tracker is connected in the way that was asked for: 0 standard streams, 1 streams of its own, 2 a socket
inline int connection_of(Proc* p) {
    auto has = [&](const string& n) { for (auto& v : p->env_store) if (!v.compare(0, n.size() + 1, n + "=")) return true; return false; };
    return has("TRAX_SOCKET") ? 2 : has("TRAX_IN") || has("TRAX_OUT") ? 1 : 0;
}
static const char* const CONNECTION_NAMES[] = {"standard streams", "streams of its own", "a socket"};
inline void check_connection(Proc* p, int mode) { int got = connection_of(p); CHECK(got == mode, "connection: the tracker gets %s instead of %s", CONNECTION_NAMES[got], CONNECTION_NAMES[mode]); }
}
