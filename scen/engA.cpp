// Engine A: generated sessions between the real client side and the real server side (both of the C library or the C++ interface).
#include "session.h"
#include "shm.h"
#include <signal.h>
namespace h {
void run_sessions(const char* id, const Focus& f, int n) {
    active = id; io_profile(f.heavy_io); sched_profile(n > 1);
    vector<std::unique_ptr<Session>> ss; Proc* cp = new_proc("client");
    size_t bytes = 0;
    for (int i = 0; i < n; i++) { auto s = new Session; s->id = n > 1 ? i + 1 : 0; s->plan = gen_plan(f); s->leakcheck = n == 1; bytes += s->plan.bytes(); ss.emplace_back(s); }
    if (bytes > 3000 && cfg.pipe_cap < 64) cfg.pipe_cap = 257;
    if (bytes > 60000 && cfg.pipe_cap < 4096) cfg.pipe_cap = 4096;
    for (auto& s : ss) if (s->plan.end == END_BOTH && cfg.pipe_cap < 65536) cfg.pipe_cap = 65536;   // both sides write, neither reads
    for (auto& s : ss) { s->cp = cp; s->sp = new_proc("server"); sample("%s\n", show(s->plan).c_str()); }
    connect_hook = [&](File* a, File* b) { for (auto& s : ss) if (s->plan.socket && s->port == b->port) { a->tx->tap = &s->s2c; a->rx->tap = &s->c2s; } };
    for (auto& s : ss) { s->setup(); Session* p = s.get(); new_task(cp, "client" + std::to_string(p->id), [p] { p->client_main(); }); new_task(p->sp, "server" + std::to_string(p->id), [p] { p->server_main(); }); }
    run();
    for (auto& s : ss) s->finish();
    set_nontrivial();
}
}
namespace h { void scen_talk(const char* id, int text, bool noise, bool quit); }
using namespace h;
#define TALK(id, den, noise, quit) do { if (choose(W, den) == den - 1) { h::scen_talk(id, choose(W, 3), noise, quit); return; } } while (0)
SCENARIO(C01) { TALK("C01", 8, choose(W, 3) == 2, false); Focus f; f.text = choose(W, 3) == 2 ? 2 : 1; f.img = choose(W, 3) == 2; run_sessions("C01", f, 1); }
SCENARIO(C02) { TALK("C02", 10, false, false); Focus f; f.img = choose(W, 4) == 3 ? 3 : 2; run_sessions("C02", f, 1); }
SCENARIO(C03) { TALK("C03", 8, false, false); Focus f; f.reg = 1; f.multi = choose(W, 2); f.max_steps = 4; run_sessions("C03", f, 1); }
SCENARIO(C04) { TALK("C04", 6, true, false); Focus f; f.noise = true; f.text = choose(W, 2); f.multi = choose(W, 2); run_sessions("C04", f, 1); }
SCENARIO(C08) { TALK("C08", 8, false, false); Focus f; f.multi = true; f.refuse = choose(W, 4) == 3; f.max_steps = choose(W, 8) == 7 ? 30 : 10; f.props = choose(W, 2); run_sessions("C08", f, 1); }
SCENARIO(C09) { Focus f; f.refuse = true; f.multi = choose(W, 2); f.max_steps = 6; run_sessions("C09", f, 1); }
SCENARIO(C10) { TALK("C10", 5, choose(W, 4) == 3, true); Focus f; f.ends = true; f.copies = true; f.multi = choose(W, 2); f.max_steps = 3; f.text = choose(W, 2); run_sessions("C10", f, 1); }
SCENARIO(C11) { Focus f; f.meta = true; f.convert = true; f.text = choose(W, 2); f.multi = choose(W, 2); f.max_steps = 4; run_sessions("C11", f, 1); }
