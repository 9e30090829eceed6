// vmc: a virtual MPI machine that runs the real ext_mpi_collectives code of all
// ranks inside one process under a controlled scheduler.  See DESIGN.md.
#pragma once
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <unordered_map>
#include <set>
#include <functional>
#include <algorithm>
#include <memory>
#include <ucontext.h>
using std::string; using std::vector; using std::map; using std::deque;
typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64; typedef unsigned char u8;

const u64 HEAP_BASE = 0x100000000000ull, HEAP_SHIFT = 35;   // per rank 32 GB
const u64 HEAP_BIG = 1ull << 33;                             // blocks >= 1 MB live above this offset
const u64 USER_BASE = 0x200000000000ull, USER_SHIFT = 32;
const u64 STACK_BASE = 0x300000000000ull, STACK_SHIFT = 32;
const u64 SHM_BASE = 0x400000000000ull, SHM_SEG_SHIFT = 31, SHM_RANK_SHIFT = 26;
const u64 SHADOW_BASE = 0x500000000000ull;
const u64 POOL_BASE = 0x600000000000ull;
const u64 STACK_SIZE = 8ull << 20;
const int MAXSLOT = 512;

enum Msg { EAGER, LATE, RDV };
enum Policy { ASC, DESC, ROT };

struct VC {
  vector<u32> v;
  u32 &operator[](size_t i) { if (i >= v.size()) v.resize(i + 1, 0); return v[i]; }
  u32 get(size_t i) const { return i < v.size() ? v[i] : 0; }
  void join(const VC &o) {
    if (o.v.size() > v.size()) v.resize(o.v.size(), 0);
    for (size_t i = 0; i < o.v.size(); i++) if (o.v[i] > v[i]) v[i] = o.v[i];
  }
};

// An event of a rank: its ev-th plain data access / MPI call / flag write.
// req>=0: the asynchronous data transfer of that rank's req-th request.
struct EvId { int rank = -1; u32 ev = 0; int req = -1; u64 pc = 0; bool wr = false; };
struct Pause { EvId at; EvId until; bool hasuntil = false; bool released = false; };

struct Variant {
  bool D = true; Msg msg = EAGER; Policy pol = ASC; bool weakcoll = false, anylate = false, newest = false;
  vector<Pause> pauses; vector<int> choices;
  string str() const; bool parse(const string &s);
};

enum FState { F_RUN, F_BLOCK, F_LOW, F_PAUSE, F_MARK, F_DONE };
struct ReadState { u64 sep = 0; int rep = 0; u64 epoch = 0; u32 idx = 0; bool valid = false, adv = false; u64 val = 0, told = 0; int size = 4; };
struct Fiber {
  int rank = 0; ucontext_t ctx; char *stack = nullptr; FState st = F_RUN; u64 stamp = 0; VC vc; u32 ev = 0; u64 nvepoch = 1, sepoch = 1;
  std::unordered_map<u64, ReadState> rs; string why; int pauseidx = -1; bool lastsync = true;
  vector<u32> blocks; int fruitless = 0; u64 lastprog = 0; int fcnt = 0; u64 fprog = 0; int nreq = 0; double wt = 0; int nwt = 0;
  bool slots[MAXSLOT] = {0}; u32 slotclk[MAXSLOT] = {0}; string phase = "init"; vector<int> anytrace;
};

struct Access { int tid; u32 clk; u32 ev; };     // ev: index into evlog
struct Cell { int wtid = -1; u32 wclk = 0; u32 wev = 0; vector<Access> rd, vw, vr; };

struct HistEnt { u64 val; VC vc; int tid; u32 clk; };
struct Loc { vector<HistEnt> h; vector<u32> floor; u32 base = 0; int size = 4; };

struct Seg { int id; u64 size, mapsize; bool removed = false; int creator; vector<u8> att; char *rw = nullptr; std::unordered_map<u64, vector<Cell>> pages; std::unordered_map<u64, Loc> locs; bool dirty = false; };

struct UBuf { u64 a; u64 len; bool ro; string name; };
struct Big { u64 a; u64 size, cap; bool live; };

struct Ctx; struct Req;
struct CommH { u32 magic; int rank; Ctx *ctx; bool freed; };
struct Coll {
  int kind, root; int narr = 0; vector<u8> arr; vector<VC> vc; vector<vector<char>> data; vector<vector<int>> ints; map<int, Ctx *> made; int nleft;
};
struct Ctx { int id; vector<int> mem; map<u64, Coll> colls; vector<u64> seq; map<std::pair<int,int>, deque<Req *>> sends, recvs; int nfreed = 0; string how; };
struct Req {
  u32 magic; int rank; bool send; bool persistent, active, done, copied, freed; Ctx *ctx; int src, dst, tag; char *buf; u64 bytes; Req *match; vector<char> data;
  VC vc, dvc; int tid, slot; u32 clk; int seq; u32 ev; bool held; int holdidx; bool early, late; u64 pc;
};

struct Info { u32 magic; map<string, string> kv; };

struct OpSpec {
  string coll = "allreduce"; string type = "int"; int count = 1; vector<int> counts, displs; int root = 0; bool inplace = false; string comm = "world"; bool nullrecv = false; bool keep = false; string data = "hash"; int algn = 0;
};
struct OpState {   // per rank
  MPI_Request req = nullptr; char *sb = nullptr, *rb = nullptr; u64 sbytes = 0, rbytes = 0; int round = -1; bool inited = false, active = false; MPI_Comm comm = nullptr; vector<char> expsend; u64 sid = 0, rid = 0; bool member = true;
};
struct Config {
  string line; map<string, string> kv; int n = 2; vector<int> nodeof; vector<OpSpec> ops; vector<vector<string>> hist; map<string, string> env, info; map<int, map<string, string>> opinfo; bool debug = false, useinfo = false;
  string get(const string &k, const string &d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
  int geti(const string &k, int d) const { auto i = kv.find(k); return i == kv.end() ? d : atoi(i->second.c_str()); }
};

struct Race { EvId a, b; string where; };
struct Viol { string kind, msg, pc, variant; int rank; };

// shared result block (parent/child)
struct Shared { volatile u32 len; volatile u32 complete; u64 evs, syncs, choices, transfers, execs; char buf[1 << 20]; };

extern Config C;
extern int N;
extern vector<Fiber *> F;
extern Fiber *cur;
extern Variant V;
extern std::set<string> seenviol;
void violation(const string &kind, int rank, const string &msg, u64 pc = 0, bool fatal = false);
string fmt(const char *f, ...);
void enter();                      // to be called at each entry into the machine
void ev_point(bool sync);          // counts an event of cur, may pause
void yield_blocked(const string &why);
void access_range(u64 a, u64 n, bool wr, u64 pc, const char *what);
void drv_user(u64 a, u64 n, bool wr);
int choose(int k, const char *what);
void progress_made();
void *libsym(int rank, const char *name);
void fruitless_step(const char *why); void poll_pause(const char *why);
u64 ubuf_new(int rank, u64 len, bool ro, const string &name, int algn);
void ubuf_setro(int rank, u64 a, bool ro);
void driver_main(int rank);
bool parse_config(const string &line, Config &c);
void mark_point();
string jesc(const string &s);
MPI_Info make_info(const map<string, string> &kv); void fill_info(MPI_Info, const map<string, string> &); void kill_info(MPI_Info);
void check_mpi_end();
int world_size_of(int node);
void pat_add(const std::string &);
