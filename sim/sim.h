// Deterministic simulator: processes, threads (coroutines), descriptors, pipes, sockets, signals, virtual time.
// One run = one forked child; every nondeterministic decision is a recorded draw from a seeded choice stream.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstddef>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choice streams
enum Stream { W = 0, S = 1, F = 2, NSTREAM = 3 };   // workload, schedule, fault

uint32_t choose(Stream s, uint32_t n);                    // uniform [0,n), 0 is the benign/simple value
bool chance(Stream s, uint32_t num, uint32_t den);        // true with probability num/den; false is benign
uint32_t draw(Stream s, const std::function<uint32_t(uint64_t (*)())>& gen);   // custom distribution (gen must be pure in rnd)
int64_t between(Stream s, int64_t lo, int64_t hi);        // uniform inclusive, lo is the simple value
template <class T> const T& pick(Stream s, const std::vector<T>& v) { return v[choose(s, (uint32_t)v.size())]; }

// ---------------------------------------------------------------- virtual time
const uint64_t US = 1000, MS = 1000000, SEC = 1000000000ull;
uint64_t now();
extern int64_t clock_offset;               // CLOCK_REALTIME jumps (ns)

// ---------------------------------------------------------------- kernel objects
struct Pipe {
    std::deque<char> data;
    size_t cap = 65536;
    int readers = 0, writers = 0;
    bool reset = false;          // ECONNRESET for the reader once drained
    uint64_t total_in = 0;       // bytes ever accepted
    uint64_t total_out = 0;      // bytes ever read
    std::string* tap = nullptr;  // if set, every accepted byte is appended
    int64_t cut_after = -1;      // fault: writer process's bytes beyond this count are dropped and the pipe is closed (see cut_hook)
};

enum FileKind { FK_NULL, FK_PIPE_R, FK_PIPE_W, FK_SOCK, FK_CAPTURE };
enum SockState { SS_NEW, SS_BOUND, SS_LISTEN, SS_CONNECTED, SS_CLOSED };

struct File {
    FileKind kind = FK_NULL;
    std::shared_ptr<Pipe> rx, tx;          // pipe ends use rx or tx, sockets both
    bool nonblock = false;
    // sockets
    SockState st = SS_NEW;
    int port = 0, backlog = 0;
    bool rd_shut = false, wr_shut = false;
    int so_error = 0;
    uint64_t async_connect_at = 0;         // connection completes in background (after EINTR)
    std::deque<std::shared_ptr<File>> queue;   // pending connections of a listener
    std::weak_ptr<File> peer;
    std::string* capture = nullptr;        // FK_CAPTURE
    std::vector<std::pair<int,int>> opts;
    ~File();
};
typedef std::shared_ptr<File> FileP;

struct FdEnt { FileP f; bool cloexec = false; };

struct Proc;
typedef std::function<int(Proc*)> Program;

struct SigAct { int kind = 0; void (*handler)(int) = nullptr; bool restart = false; };   // 0 default, 1 ignore, 2 handler

struct Proc {
    int pid = 0;
    std::string name;
    Proc* parent = nullptr;
    std::map<int, FdEnt> fds;
    std::vector<std::string> env_store;
    std::vector<char*> env;                // environ of this process
    std::vector<std::string> argv;
    std::string cwd = "/";
    bool alive = true, zombie = false, reaped = false;
    int wstatus = 0;                       // encoded wait status
    uint64_t died_at = 0, born_at = 0;
    SigAct sig[65];
    uint64_t sigpending = 0;
    std::map<int,int> sig_received;        // signal -> count (also ignored ones)
    size_t live_allocs = 0;                // blocks allocated by the code under test and not released
    int stale_kills = 0;                   // signals sent to this pid after it was reaped
    int threads_alive = 0;
    char* strtok_pos = nullptr;
    int exit_code = 0;
    int max_fd = 0;
    bool frozen = false;                   // SIGSTOP-like stall: none of its tasks is scheduled
    void* user = nullptr;
    int fds_opened = 0;
};

struct Task {
    int id = 0;
    std::string name;
    Proc* proc = nullptr;
    std::function<void()> fn;
    void* stack = nullptr; size_t stack_size = 0;
    void* sp = nullptr;
    void* fake = nullptr;
    struct { void* a; unsigned b; } eh = {nullptr, 0};
    int err = 0;
    bool done = false, dead = false, blocked = false, daemon = false, started = false;
    bool timed_out = false;
    bool interrupted = false;
    const std::function<bool()>* pred = nullptr;
    uint64_t deadline = UINT64_MAX;        // wake-up time
    uint64_t hold_until = 0;               // stalled by the scheduler until then
    const char* why = "";
    std::vector<FileP> inflight;
    void* result = nullptr;
    bool detached = false, joined = false, is_thread = false;
    uint64_t sigmask = 0, sigpending = 0;
    uint64_t steps = 0;
    int in_handler = 0;
    unsigned mem_countdown = 0;
};

// ---------------------------------------------------------------- configuration of a run
struct Cfg {
    // schedule
    int switch_num = 32;                   // /256: probability of a scheduling decision at a simulated call
    int mem_switch_num = 0;                // /256: probability that a time slice ends at a memory access
    unsigned mem_range = 64;
    int stall_num = 0;                     // /4096 per call: stall of a task
    uint64_t stall_max = 3 * MS;
    uint64_t stall_budget = UINT64_MAX;    // total per run
    // I/O faults
    int short_read = 0;                    // /256
    int short_write = 0;                   // /256: blocking write interrupted after some bytes
    int eintr = 0;                         // /256 when a call has to block
    int spurious = 0;                      // /256 spurious condition wake-ups
    size_t pipe_cap = 65536;
    uint64_t call_cost = 2 * US;
    // limits
    uint64_t max_steps = 3000000;
    uint64_t max_time = 3600 * SEC;
};
extern Cfg cfg;

// Fault hook: consulted at every simulated call; returns errno to fail with, 0 to go on.
typedef int (*FaultFn)(const char* call, Proc* p, int fd);
extern std::function<int(const char* call, Proc* p, int fd)> fault_hook;
// Called at every step with the current task (directed crashes etc.)
extern std::function<void()> step_hook;
// Called when a connection is established (connecting end, accepted end)
extern std::function<void(File*, File*)> connect_hook;
// Called when a process ends
extern std::function<void(Proc*)> death_hook;

// ---------------------------------------------------------------- world
extern Task* cur;
extern std::vector<Task*> tasks;
extern std::vector<Proc*> procs;
extern std::map<std::string, Program> programs;      // what posix_spawn can start
extern std::set<std::string> dirs;                   // directories that exist for chdir
extern std::set<int> busy_ports;                     // ports taken by others

Proc* new_proc(const std::string& name, Proc* parent = nullptr);
Task* new_task(Proc* p, const std::string& name, std::function<void()> fn, bool daemon = false);
void set_env(Proc* p, const std::string& k, const std::string& v);
int install(Proc* p, FileP f, int fd = -1, bool cloexec = false);
void make_pipe(FileP& r, FileP& w, size_t cap);
void kill_proc(Proc* p, int sig);                    // process dies by signal (current task does not return if its own)
void exit_proc(Proc* p, int code);
void deliver(Proc* p, int sig);                      // send a signal with its disposition applied
void run();                                          // until all non-daemon tasks are done

void step(const char* call);                         // one simulated call: cost, preemption, signals, crash points
bool block(const char* why, const std::function<bool()>& pred, uint64_t deadline = UINT64_MAX);   // true: pred, false: deadline
void yield();
void sleep_for(uint64_t ns);

void close_all(Proc* p);
int live_fds(Proc* p);
size_t live_allocs(Proc* p);
uint64_t alloc_mark();
std::string describe_allocs(Proc* p, uint64_t after = 0);
std::string first_alloc_site(Proc* p, uint64_t after = 0);
std::string symname(uintptr_t pc);
int unjoined_threads(Proc* p);
std::string describe_tasks();

// raw descriptor calls (also used by scripted peers)
long k_read(int fd, void* buf, size_t n, bool sock = false, int flags = 0);
long k_write(int fd, const void* buf, size_t n, bool sock = false, int flags = 0);
int k_close(int fd);
int k_connect(int fd, int port);
int k_socket();

// ---------------------------------------------------------------- results
[[noreturn]] void violation(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // event: hashed, printed in trace mode
void evh(uint64_t a, uint64_t b = 0, uint64_t c = 0);                  // cheap hashed event
void fault(const char* kind);                                          // count an injected fault
void probe(const char* what);                                          // count a reached rare condition
void state(uint64_t h);                                                // abstract state reached
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // human-readable description of the case
bool tracing();
void set_nontrivial();
#define CHECK(c, ...) do { if (!(c)) sim::violation(__VA_ARGS__); } while (0)

// ---------------------------------------------------------------- scenarios
struct Scenario { const char* id; void (*fn)(); };
std::vector<Scenario>& scenarios();
struct Reg { Reg(const char* id, void (*fn)()) { scenarios().push_back({id, fn}); } };
#define SCENARIO(ID) static void scen_##ID(); static sim::Reg reg_##ID(#ID, scen_##ID); static void scen_##ID()

}  // namespace sim
