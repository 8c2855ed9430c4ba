// Shared parts of the scenarios: payload model, generators, reference wire codec, adapters to the C and C++ interface.
#pragma once
#include "sim.h"
#include "trax.h"
#include <algorithm>
#include <set>
#include <limits.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>

extern "C" { void sim_free(void*); int sim_socket(int, int, int); }

namespace h {
using namespace sim;
using std::string;
using std::vector;
typedef std::map<string, string> Props;

// ---------------------------------------------------------------- property-labelled checks
extern const char* active;                       // property that is being decided
bool relevant(const char* ids);
[[noreturn]] void give_up(const char* why);      // another property is violated: this run says nothing about the active one
#define PCHECK(ids, c, ...) do { if (!(c)) { if (h::relevant(ids)) sim::violation(__VA_ARGS__); else h::give_up(#c); } } while (0)
#define SCHECK(ids, c, ...) do { if (h::relevant(ids) && !(c)) sim::violation(__VA_ARGS__); } while (0)   // run can go on

// ---------------------------------------------------------------- payload model
struct Img { int type = 0; string data; int w = 0, h = 0, fmt = 0; };
struct Imgs { Img ch[3]; };
struct Reg { int type = 0; int code = 0; float r[4] = {0, 0, 0, 0}; vector<float> xy; int mx = 0, my = 0, mw = 0, mh = 0; string bits; };
struct Obj { Reg reg; Props props; };

struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9e3779b97f4a7c15ull + 0x1234567) {} uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; } };

size_t gen_len(int scale);                        // 0: short texts, 1: any, 2: long
string gen_text(int scale = 1);                   // any bytes except NUL
string gen_key(int i);
Props gen_props(int maxn, int scale = 1, const char* prefix = "");
Img gen_img(int formats, int scale = 1);
Imgs gen_imgs(int channels, int formats, int scale = 1);
Reg gen_reg(int types, bool special);
string show(const string& s, size_t n = 60);
string show(const Props& p);
string show(const Reg& r);
string show(const Img& i);
bool same(const Img& a, const Img& b);
bool same(const Reg& a, const Reg& b);
void bounds(const Reg& r, double& l, double& t, double& rr, double& b);
uint64_t hashs(const string& s);

// ---------------------------------------------------------------- adapters
trax_properties* make_props(const Props& p);
void fill_props(trax_properties* t, const Props& p);
Props read_props(const trax_properties* p);
vector<string> left_over(); void leave_over(trax_properties* t, const vector<string>& keys); void leave_over(trax::Properties& t, const vector<string>& keys); void without_left(Props& p, const vector<string>& keys);
trax_image* make_img(const Img& i);
Img read_img(const trax_image* i);
trax_image_list* make_imgs(const Imgs& i, int channels);
Imgs read_imgs(const trax_image_list* l);
void free_imgs(trax_image_list** l);              // list and images
trax_region* make_reg(const Reg& r);
Reg read_reg(const trax_region* r);
trax_object_list* make_objs(const vector<Obj>& o);
vector<Obj> read_objs(trax_object_list* l);

trax::Image cpp_img(const Img& i);
Img read_img(const trax::Image& i);
trax::ImageList cpp_imgs(const Imgs& i);
Imgs read_imgs(const trax::ImageList& i);
trax::Region cpp_reg(const Reg& r);
Reg read_reg(const trax::Region& r);
trax::Properties cpp_props(const Props& p);
Props read_props(trax::Properties& p);
trax::ObjectList cpp_objs(const vector<Obj>& o);
vector<Obj> read_objs(const trax::ObjectList& o);

// ---------------------------------------------------------------- reference wire codec
struct Msg { int type = 0; vector<string> args; Props props; size_t begin = 0, end = 0; };
// decodes complete lines; noise is skipped; rest = offset of the unfinished last line
vector<Msg> wire_decode(const string& s, size_t* rest = nullptr);
string wire_encode(int type, const vector<string>& args, const Props& props, Rng* style = nullptr);
string wire_img(const Img& i);
string wire_reg(const Reg& r);
string b64(const string& s);
bool is_message_line(const string& line);
// settings given on a command line: some of the names, values with every kind of text
void given_values(std::map<string, string>& out, const vector<string>& names);
string gen_noise();                                // whole lines that are no messages
const char* tname(int t);

// ---------------------------------------------------------------- faults
void io_profile(int heavy = 1);                    // fragmentation, EINTR, pipe sizes
void sched_profile(bool mem = false);
int find_sock(Proc* p);                            // descriptor of a connected socket
Img file_picture(const string& path); extern std::set<string> unreadable;      // engH.cpp: the stand-in for image decoding
}
