#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include "sim.h"
namespace sim {
const uint32_t MAXCHOICE = 1 << 22;
const int NCOUNTER = 96, NSTATES = 8192, COVSIZE = 32768;
enum { RC_OK = 0, RC_VIOLATION = 40, RC_HARNESS = 43 };
struct Counter { char name[40]; uint64_t n; };
struct Shm {
    char msg[16384];
    char sample[4096];
    uint32_t nchoice[3];
    uint32_t choices[3][MAXCHOICE];
    uint64_t trace_hash, sched_hash, steps, switches, mem_preempts, simtime, edges, edge_limit;
    uint32_t nstates; uint64_t states[NSTATES];
    uint32_t nontrivial;
    Counter faults[NCOUNTER], probes[NCOUNTER];
    uint8_t cov[COVSIZE];
};
extern Shm* shm;
void seed_streams(uint64_t seed);
void set_replay(int s, std::vector<uint32_t> v);
void set_trace(bool t);
extern bool replaying;
void mem_access_fwd();
void mem_access();
void advance(uint64_t ns);
bool port_listen(FileP f, int backlog);
bool port_busy(int port);
void heap_init();
void heap_hooks();

}
