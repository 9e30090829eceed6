// Core of the virtual machine: memory model, tsan hooks, fibers, scheduler,
// vector clocks, exploration of variants.
#include "vm.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/ipc.h>
#include <sys/shm.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <signal.h>
#include <dlfcn.h>
#include <errno.h>
#include <time.h>
#include <link.h>

Config C; int N; vector<Fiber *> F; Fiber *cur; Variant V; std::set<string> seenviol;
static ucontext_t schedctx;
static u64 progress = 1;
static Shared *SH;                     // where the current process reports
static vector<Viol> viols;
static vector<Race> races; static std::set<string> raceseen; static u64 nraces;
static vector<EvId> evlog;
static u64 nsync, nevents, ntransfer_; static vector<int> choicearity; static vector<int> choicetaken; static vector<int> choicerank;
static bool tracking = true;           // D analysis active
static bool snapshot_done = false, in_driver_fatal = false;
static string outcap;
static int lastrun = 0;
static string curvar = "init";
extern u64 ntransfer;
bool recording_blocks = false;
static void *handles[64]; static u64 sobase[64], sotext[64];

string fmt(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
string jesc(const string &s) { string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) o += fmt("\\u%04x", c); else if (c >= 127) o += "?"; else o += c; } return o; }

// ---------------------------------------------------------------- results
static void flush_result(bool complete) {
  string s = "{\"viol\":[";
  for (size_t i = 0; i < viols.size(); i++) {
    auto &v = viols[i];
    s += fmt("%s{\"kind\":\"%s\",\"rank\":%d,\"pc\":\"%s\",\"variant\":\"%s\",\"msg\":\"%s\"}", i ? "," : "", v.kind.c_str(), v.rank, v.pc.c_str(), jesc(v.variant).c_str(), jesc(v.msg).substr(0, 1500).c_str());
    if (s.size() > (1 << 19)) break;
  }
  s += "]";
  s += ",\"arity\":["; for (size_t i = 0; i < choicearity.size() && i < 2000; i++) s += fmt("%s[%d,%d,%d]", i ? "," : "", choicearity[i], choicetaken[i], choicerank[i]); s += "]";
  s += ",\"races\":["; for (size_t i = 0; i < races.size() && i < 60; i++) { auto &r = races[i]; s += fmt("%s[%d,%u,%d,%d,%u,%d,\"%s\"]", i ? "," : "", r.a.rank, r.a.ev, r.a.req, r.b.rank, r.b.ev, r.b.req, jesc(r.where).c_str()); } s += "]";
  s += fmt(",\"nraces\":%llu", (unsigned long long)nraces);
  s += ",\"blocks\":["; for (int r = 0; r < (int)F.size(); r++) { s += r ? ",[" : "["; for (size_t i = 0; i < F[r]->blocks.size() && i < 3000; i++) s += fmt("%s%u", i ? "," : "", F[r]->blocks[i]); s += "]"; } s += "]";
  s += "}";
  if (s.size() >= sizeof(SH->buf)) s = "{\"viol\":[{\"kind\":\"INTERNAL\",\"rank\":-1,\"pc\":\"\",\"variant\":\"\",\"msg\":\"result too large\"}]}";
  memcpy(SH->buf, s.data(), s.size()); SH->len = s.size(); SH->evs = nevents; SH->syncs = nsync; SH->choices = choicearity.size(); SH->transfers = ntransfer; SH->complete = complete;
}
static string pcstr(u64 pc) {
  if (!pc) return "";
  for (int r = 0; r < N; r++) if (pc >= sobase[r] && pc < sobase[r] + sotext[r]) return fmt("+0x%llx", (unsigned long long)(pc - sobase[r] - 1));
  return "";
}
void finish_child() { flush_result(true); _exit(0); }
void violation(const string &kind, int rank, const string &msg, u64 pc, bool fatal) {
  string key = kind + "|" + pcstr(pc) + (pc ? "" : msg.substr(0, 40));
  if (viols.size() < 60 && !seenviol.count(key)) { seenviol.insert(key); viols.push_back({kind, msg + (rank >= 0 && rank < (int)F.size() ? " [" + F[rank]->phase + "]" : ""), pcstr(pc), curvar, rank}); }
  if (fatal) finish_child();
}
static const u64 BUDGET = 4000000000ull; static u64 budget_used;

// ---------------------------------------------------------------- scheduler
void progress_made() { progress++; }
static void sw_to_sched() { Fiber *f = cur; swapcontext(&f->ctx, &schedctx); }
static bool until_passed(const Pause &p);
static bool eligible(Fiber *f) {
  switch (f->st) { case F_RUN: return true; case F_BLOCK: return f->stamp != progress; default: return false; }
}
static u64 sched_steps;
static bool poke_active; static char *poke_addr; static u64 poke_orig; static int poke_size;
static void explore(); void export_tot();
static void sched_loop() {
  while (1) {
    int pick = -1;
    // released pauses
    for (int i = 0; i < N; i++) if (F[i]->st == F_PAUSE && F[i]->pauseidx >= 0 && V.pauses[F[i]->pauseidx].hasuntil && until_passed(V.pauses[F[i]->pauseidx])) { V.pauses[F[i]->pauseidx].released = true; F[i]->st = F_RUN; }
    if (V.pol == ASC) { if (eligible(F[lastrun])) pick = lastrun; else for (int i = 0; i < N; i++) if (eligible(F[i])) { pick = i; break; } }
    else if (V.pol == DESC) { if (eligible(F[lastrun])) pick = lastrun; else for (int i = N - 1; i >= 0; i--) if (eligible(F[i])) { pick = i; break; } }
    else for (int k = 1; k <= N; k++) { int i = (lastrun + k) % N; if (eligible(F[i])) { pick = i; break; } }
    if (pick < 0) for (int i = 0; i < N; i++) if (F[i]->st == F_LOW) { pick = i; break; }
    if (pick < 0) for (int i = 0; i < N; i++) if (F[i]->st == F_PAUSE) { if (F[i]->pauseidx >= 0) V.pauses[F[i]->pauseidx].released = true; pick = i; break; }
    if (pick < 0) {
      bool allmark = true, alldone = true;
      for (int i = 0; i < N; i++) { if (F[i]->st != F_DONE) alldone = false; if (F[i]->st != F_MARK && F[i]->st != F_DONE) allmark = false; }
      if (alldone) return;
      if (allmark) { if (!snapshot_done) { snapshot_done = true; explore(); export_tot(); } for (int i = 0; i < N; i++) if (F[i]->st == F_MARK) F[i]->st = F_RUN; continue; }
      string w; bool poll = false; for (int i = 0; i < N; i++) { w += fmt(" r%d:%s", i, F[i]->st == F_DONE ? "done" : F[i]->st == F_MARK ? "mark" : F[i]->why.c_str()); if (F[i]->why.compare(0, 4, "poll") == 0 && F[i]->st != F_DONE) poll = true; }
      violation(poll ? "LIVELOCK" : "DEADLOCK", -1, "no rank can make progress:" + w, 0, true);
    }
    if (++sched_steps > 20000000) violation("NONTERM", -1, "scheduler step budget exceeded", 0, true);
    lastrun = pick; cur = F[pick]; cur->st = F_RUN;
    swapcontext(&schedctx, &cur->ctx);
    cur = nullptr;
  }
}
static void restore_poke() { if (poke_active) { memcpy(poke_addr, &poke_orig, poke_size); poke_active = false; } }
void yield_blocked(const string &why) { cur->why = why; cur->stamp = progress; cur->st = F_BLOCK; sw_to_sched(); }
void yield_low(const string &why) { cur->why = why; cur->st = F_LOW; sw_to_sched(); }
void mark_point() { enter(); if (snapshot_done) return; cur->st = F_MARK; cur->why = "mark"; sw_to_sched(); }
void poll_pause(const char *why) {   // the driver polls (MPI_Test returned false)
  enter();
  for (auto &k : cur->rs) k.second.adv = true;
  cur->nvepoch++; cur->sepoch++;
  if (cur->lastprog != progress) { cur->fruitless = 0; cur->lastprog = progress; }
  if (++cur->fruitless > 4) { yield_blocked(string("poll ") + why); }
  else { cur->why = string("poll ") + why; cur->stamp = 0; cur->st = F_BLOCK; lastrun = (cur->rank + 1) % N; sw_to_sched(); }
}
// a loop inside the library that polls (tests, flag reads mixed with writes) without anything happening anywhere: let the others run
void fruitless_step(const char *why) {
  if (cur->fprog != progress) { cur->fprog = progress; cur->fcnt = 0; }
  if (++cur->fcnt > 20000) { cur->fcnt = 0; yield_blocked(string("poll ") + why); return; }
  if (cur->fcnt % 16 == 0) { for (auto &k : cur->rs) k.second.adv = true; cur->why = string("poll ") + why; cur->stamp = progress - 1; cur->st = F_BLOCK; lastrun = (cur->rank + 1) % N; sw_to_sched(); }
}
bool req_transferred(int rank, int seq);
static bool until_passed(const Pause &p) {
  if (p.until.req >= 0) return req_transferred(p.until.rank, p.until.req);
  return F[p.until.rank]->ev > p.until.ev;
}
void ev_point(bool sync) {
  Fiber *f = cur;
  for (size_t i = 0; i < V.pauses.size(); i++) {
    Pause &p = V.pauses[i];
    if (!p.released && p.at.rank == f->rank && p.at.req < 0 && p.at.ev == f->ev) { f->pauseidx = i; f->why = "paused"; f->st = F_PAUSE; sw_to_sched(); p.released = true; f->pauseidx = -1; }
  }
  if (sync || f->lastsync) { if (recording_blocks) f->blocks.push_back(f->ev); }
  f->lastsync = sync; f->ev++; nevents++;
  if (sync) nsync++;
}
bool hold_at(int idx) {  // asynchronous transfer held by pause idx: block until released
  Pause &p = V.pauses[idx]; if (p.released) return false;
  if (p.hasuntil && until_passed(p)) { p.released = true; return false; }
  cur->pauseidx = idx; cur->why = "held transfer"; cur->st = F_PAUSE; sw_to_sched(); p.released = true; cur->pauseidx = -1; return false;
}
int choose(int k, const char *what) {
  if (choicearity.size() > 300000) violation("NONTERM", cur ? cur->rank : -1, "endless polling: more than 300000 completion choices", 0, true);
  (void)what; int c = 0; size_t i = choicearity.size();
  if (i < V.choices.size()) c = V.choices[i];
  if (c >= k) c = k - 1;
  choicearity.push_back(k); choicetaken.push_back(c); choicerank.push_back(cur ? cur->rank : -1);
  return c;
}

// ---------------------------------------------------------------- memory
static u64 heap_top[64], big_top[64], user_top[64]; static vector<Big> bigs[64]; static vector<UBuf> ubufs[64]; static u64 live_small[64]; static int small_cnt[64];
struct Hdr { u32 magic; u32 pad; u64 size; };
const u32 HM_LIVE = 0x4c495645, HM_DEAD = 0x44454144;
vector<Seg *> segs;
std::unordered_map<u64, vector<Cell>> upages;  // user-buffer cells keyed by addr>>6
static void mmap_fixed(u64 a, u64 len) { void *p = mmap((void *)a, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(9); } }
static void mem_init() {
  for (int r = 0; r < N; r++) {
    u64 hb = HEAP_BASE + ((u64)r << HEAP_SHIFT);
    mmap_fixed(hb, HEAP_BIG); mmap_fixed(SHADOW_BASE + ((hb - HEAP_BASE) >> 3), HEAP_BIG >> 3);
    heap_top[r] = hb + 4096; big_top[r] = hb + HEAP_BIG; user_top[r] = USER_BASE + ((u64)r << USER_SHIFT) + 4096;
    mmap_fixed(USER_BASE + ((u64)r << USER_SHIFT), 16 << 20);
  }
}
static inline u8 *shadow(u64 a) { return (u8 *)(SHADOW_BASE + ((a - HEAP_BASE) >> 3)); }
static std::unordered_map<int, int> dummy_;
static deque<std::pair<u64, u64>> quarantine[64]; static u64 quar_bytes[64]; static map<u64, vector<u64>> freelist[64];
static void *h_alloc(int r, u64 n) {
  if (n >= (1 << 20)) {
    u64 cap = (n + 8191) & ~4095ull;
    for (auto &b : bigs[r]) if (!b.live && b.cap == cap) { b.live = true; b.size = n; return (void *)b.a; }
    u64 a = big_top[r]; big_top[r] += cap + (1 << 20);
    if (big_top[r] > HEAP_BASE + ((u64)(r + 1) << HEAP_SHIFT)) violation("INTERNAL", r, "big heap exhausted", 0, true);
    mmap_fixed(a, cap); bigs[r].push_back({a, n, cap, true}); return (void *)a;
  }
  u64 sz = (n + 15) & ~15ull; if (!sz) sz = 16; u64 a = 0;
  auto it = freelist[r].find(sz);
  if (it != freelist[r].end() && !it->second.empty()) { a = it->second.back(); it->second.pop_back(); }
  else { a = heap_top[r] + 32; heap_top[r] += 32 + sz + 32; if (heap_top[r] > HEAP_BASE + ((u64)r << HEAP_SHIFT) + HEAP_BIG - 65536) violation("INTERNAL", r, "heap exhausted", 0, true); }
  Hdr *h = (Hdr *)(a - 16); h->magic = HM_LIVE; h->size = n;
  memset(shadow(a), 8, n >> 3); if (n & 7) *shadow(a + (n & ~7ull)) = n & 7;
  if (n <= 65536) memset((void *)a, 0xCD, n);
  live_small[r] += n; small_cnt[r]++;
  return (void *)a;
}
static int heap_rank(u64 a) { return (a - HEAP_BASE) >> HEAP_SHIFT; }
static void h_free(int r, u64 a, u64 pc) {
  if (!a) return;
  if ((a >> 44) != 1 || heap_rank(a) != r) { violation("BADFREE", r, fmt("free of non-heap pointer %llx", (unsigned long long)a), pc); return; }
  if (((a - HEAP_BASE) & ((1ull << HEAP_SHIFT) - 1)) >= HEAP_BIG) {
    for (auto &b : bigs[r]) if (b.a == a) { if (!b.live) violation("DOUBLEFREE", r, "double free (large block)", pc); b.live = false; madvise((void *)b.a, b.cap, MADV_DONTNEED); return; }
    violation("BADFREE", r, "free of interior pointer", pc); return;
  }
  Hdr *h = (Hdr *)(a - 16);
  if (h->magic == HM_DEAD) { violation("DOUBLEFREE", r, "double free", pc); return; }
  if (h->magic != HM_LIVE || (a & 15)) { violation("BADFREE", r, "free of an address that is not a block", pc); return; }
  h->magic = HM_DEAD; u64 sz = (h->size + 15) & ~15ull; if (!sz) sz = 16; memset(shadow(a), 0, sz >> 3);
  if (h->size <= 65536) memset((void *)a, 0xDD, h->size);
  live_small[r] -= h->size; small_cnt[r]--;
  quarantine[r].push_back({a, sz}); quar_bytes[r] += sz;
  while (quar_bytes[r] > (8 << 20)) { auto q = quarantine[r].front(); quarantine[r].pop_front(); quar_bytes[r] -= q.second; freelist[r][q.second].push_back(q.first); }
}
static void heap_bad(u64 a, u64 n, bool wr, u64 pc) {
  int r = heap_rank(a);
  if (cur && r != cur->rank) { violation("FOREIGN", cur->rank, fmt("%s of another process' heap (rank %d)", wr ? "write" : "read", r), pc); return; }
  violation(wr ? "HEAP_OOB_WRITE" : "HEAP_OOB_READ", cur ? cur->rank : -1, fmt("%llu-byte %s outside a live heap block", (unsigned long long)n, wr ? "write" : "read"), pc);
}
static inline bool heap_ok(u64 a, u64 n) {
  int r = heap_rank(a); if (r != cur->rank) return false;
  if (((a - HEAP_BASE) & ((1ull << HEAP_SHIFT) - 1)) >= HEAP_BIG) { for (auto &b : bigs[r]) if (a >= b.a && a + n <= b.a + b.size) return b.live; return false; }
  if (a >= heap_top[r]) return false;
  u64 e = a + n, g = a & ~7ull;
  for (; g < e; g += 8) { u8 s = *shadow(g); u64 need = e - g < 8 ? e - g : 8; if (s < need) return false; }
  return true;
}
u64 ubuf_new(int r, u64 len, bool ro, const string &name, int algn) {
  u64 a = ((user_top[r] + 63) & ~63ull) + 128 + algn; user_top[r] = a + len + 192; memset((void *)(a - 64), 0x5A, 64); memset((void *)(a + len), 0x5A, 64); ubufs[r].push_back({a, len, ro, name}); return a;
}
void ubuf_setro(int r, u64 a, bool ro) { for (auto &b : ubufs[r]) if (b.a == a) b.ro = ro; }
void ubuf_guards(int r) {
  for (auto &b : ubufs[r]) for (int i = 0; i < 64; i++) if (((u8 *)(b.a - 64))[i] != 0x5A || ((u8 *)(b.a + b.len))[i] != 0x5A) { violation("GUARD", r, "memory next to the user buffer " + b.name + " was overwritten"); break; }
}

// ---- vector clock race detection on shm / user cells
static int cur_tid() { return cur->rank; }
static u32 log_ev(const EvId &e) { evlog.push_back(e); return evlog.size() - 1; }
static void add_race(u32 e1, u32 e2, const char *where) {
  nraces++; EvId a = evlog[e1], b = evlog[e2];
  string key = fmt("%s|%llx|%llx|%d|%d|%d|%d", where, (unsigned long long)(a.pc ? a.pc - sobase[a.rank] : 0), (unsigned long long)(b.pc ? b.pc - sobase[b.rank] : 0), a.rank, b.rank, a.req >= 0, b.req >= 0);
  int c = 0; for (int k = 0; k < 2; k++) { if (raceseen.count(key + char('0' + k))) c++; }
  if (c >= 2 || races.size() >= 60) return;
  raceseen.insert(key + char('0' + c)); races.push_back({a, b, fmt("%s %s%s/%s%s", where, a.wr ? "W" : "R", pcstr(a.pc).c_str(), b.wr ? "W" : "R", pcstr(b.pc).c_str())});
}
static inline void rec(vector<Access> &v, int tid, u32 clk, u32 ev, const VC &vc) {
  size_t j = 0; for (size_t i = 0; i < v.size(); i++) { if (v[i].tid == tid || vc.get(v[i].tid) >= v[i].clk) continue; v[j++] = v[i]; }
  v.resize(j); v.push_back({tid, clk, ev});
}
static inline void cell_plain(Cell &c, bool wr, int tid, const VC &vc, u32 clk, u32 ev, const char *where) {
  if (c.wtid >= 0 && c.wtid != tid && vc.get(c.wtid) < c.wclk) add_race(c.wev, ev, where);
  for (auto &a : c.vw) if (a.tid != tid && vc.get(a.tid) < a.clk) add_race(a.ev, ev, where);
  if (wr) {
    for (auto &a : c.rd) if (a.tid != tid && vc.get(a.tid) < a.clk) add_race(a.ev, ev, where);
    for (auto &a : c.vr) if (a.tid != tid && vc.get(a.tid) < a.clk) add_race(a.ev, ev, where);
    c.rd.clear(); c.vw.clear(); c.vr.clear(); c.wtid = tid; c.wclk = clk; c.wev = ev;
  } else if (c.rd.empty() || c.rd.back().tid != tid || c.rd.size() > 1) rec(c.rd, tid, clk, ev, vc);
  else { c.rd.back().clk = clk; c.rd.back().ev = ev; }
}
static inline void cell_vol(Cell &c, bool wr, int tid, const VC &vc, u32 clk, u32 ev) {
  if (c.wtid >= 0 && c.wtid != tid && vc.get(c.wtid) < c.wclk) add_race(c.wev, ev, "flag");
  if (wr) { for (auto &a : c.rd) if (a.tid != tid && vc.get(a.tid) < a.clk) add_race(a.ev, ev, "flag"); rec(c.vw, tid, clk, ev, vc); }
  else rec(c.vr, tid, clk, ev, vc);
}
static Cell &seg_cell(Seg *s, u64 off) { auto &p = s->pages[off >> 6]; if (p.empty()) p.resize(64); return p[off & 63]; }
static Cell &user_cell(u64 a) { auto &p = upages[a >> 6]; if (p.empty()) p.resize(64); return p[a & 63]; }

static Seg *shm_lookup(u64 a, int &rank, u64 &off) {
  u64 x = a - SHM_BASE; u64 si = x >> SHM_SEG_SHIFT; rank = (x >> SHM_RANK_SHIFT) & 31; off = x & ((1ull << SHM_RANK_SHIFT) - 1);
  if (si >= segs.size()) return nullptr; return segs[si];
}
// does the access checks for one contiguous access by cur; returns 0 none,1 user,2 shm
static int check_access(u64 a, u64 n, bool wr, u64 pc, Seg **so, u64 *offo) {
  switch (a >> 44) {
  case 1: if (!heap_ok(a, n)) heap_bad(a, n, wr, pc); return 0;
  case 2: {
    int r = (a - USER_BASE) >> USER_SHIFT;
    if (r != cur->rank) { violation("FOREIGN", cur->rank, fmt("%s of another process' user memory (rank %d)", wr ? "write" : "read", r), pc); return 0; }
    for (auto &b : ubufs[r]) if (a >= b.a && a + n <= b.a + b.len) { if (wr && b.ro) violation("SEND_WRITE", r, "library writes into the send buffer " + b.name, pc); return 1; }
    violation(wr ? "USER_OOB_WRITE" : "USER_OOB_READ", r, fmt("%llu-byte %s outside the user's buffers", (unsigned long long)n, wr ? "write" : "read"), pc); return 0; }
  case 3: { int r = (a - STACK_BASE) >> STACK_SHIFT; if (r != cur->rank) violation("FOREIGN", cur->rank, fmt("%s of another process' stack", wr ? "write" : "read"), pc); return 0; }
  case 4: {
    int r; u64 off; Seg *s = shm_lookup(a, r, off);
    if (!s || r != cur->rank) { violation("FOREIGN", cur->rank, fmt("%s through another process' shared-memory address", wr ? "write" : "read"), pc); return 0; }
    if (!s->att[r]) { violation("SHM_DETACHED", cur->rank, fmt("%s of a detached shared segment", wr ? "write" : "read"), pc, true); return 0; }
    if (off + n > s->size) { violation(wr ? "SHM_OOB_WRITE" : "SHM_OOB_READ", cur->rank, fmt("%s %llu bytes past the end of the shared segment", wr ? "write" : "read", (unsigned long long)(off + n - s->size)), pc); return 0; }
    if (wr && s->att[r] == 2) { violation("SHM_RDONLY", cur->rank, "write to a segment attached read-only (SIGSEGV in a real run)", pc, true); return 0; }
    *so = s; *offo = off; return 2; }
  case 6: violation("OPAQUE", cur->rank, "dereference of an opaque MPI handle", pc); return 0;
  default:
    if (a < 65536) { violation("CRASH", cur->rank, fmt("%s of address 0x%llx (null pointer)", wr ? "write" : "read", (unsigned long long)a), pc, true); }
    return 0;
  }
}
static struct { bool on; Seg *s; u64 off; int size; u64 old; int tid; } pend;
static u64 rdmem(const void *p, int size) { u64 v = 0; memcpy(&v, p, size); return v; }
static void flush_pend() {
  if (!pend.on) return; pend.on = false;
  u64 v = rdmem(pend.s->rw + pend.off, pend.size);
  if (v != pend.old) progress++;
  if (!tracking) return;
  Fiber *f = F[pend.tid]; Loc &L = pend.s->locs[pend.off];
  if (L.h.empty()) { L.size = pend.size; L.h.push_back({pend.old, VC(), -1, 0}); }
  if (!(L.h.back().tid == f->rank && L.h.back().val == v)) {
    L.h.push_back({v, f->vc, f->rank, f->vc[f->rank]}); f->vc[f->rank]++;
    if (L.floor.size() < (size_t)N) L.floor.resize(N, 0);
    L.floor[f->rank] = L.h.size() - 1;
  }
}
void enter() { restore_poke(); flush_pend(); }
static void range_cells(int kind, Seg *s, u64 off, u64 a, u64 n, bool wr, int tid, const VC &vc, u32 clk, u32 ev) {
  if (!tracking) return;
  if (kind == 2) for (u64 i = 0; i < n; i++) cell_plain(seg_cell(s, off + i), wr, tid, vc, clk, ev, "shm");
  else for (u64 i = 0; i < n; i++) cell_plain(user_cell(a + i), wr, tid, vc, clk, ev, "user");
  if (wr && kind == 2 && !s->locs.empty()) {   // plain write over flag words restarts their history
    if (n <= 64) { for (u64 o = off & ~3ull; o < off + n; o += 4) s->locs.erase(o); } else for (auto it = s->locs.begin(); it != s->locs.end();) if (it->first >= off && it->first < off + n) it = s->locs.erase(it); else ++it;
  }
}
void access_range(u64 a, u64 n, bool wr, u64 pc, const char *what) {
  (void)what; enter(); if (!cur || !n) return;
  Seg *s = nullptr; u64 off = 0; int k = check_access(a, n, wr, pc, &s, &off);
  if (!k) return;
  ev_point(false); cur->nvepoch++;
  if (wr && k == 2) { progress++; cur->sepoch++; }
  if (tracking) { u32 e = log_ev({cur->rank, cur->ev - 1, -1, pc, wr}); range_cells(k, s, off, a, n, wr, cur_tid(), cur->vc, cur->vc[cur_tid()], e); }
}
// driver touching its own user buffers
void drv_user(u64 a, u64 n, bool wr) {
  enter(); if (!n) return; ev_point(false); cur->nvepoch++; cur->sepoch++;
  if (tracking) { u32 e = log_ev({cur->rank, cur->ev - 1, -1, 0, wr}); range_cells(1, nullptr, 0, a, n, wr, cur_tid(), cur->vc, cur->vc[cur_tid()], e); }
}
// asynchronous access by a request (NIC) of rank r
void nic_access(Req *q, u64 a, u64 n, bool wr, const VC &vc, u32 clk) {
  if (!n) return; Fiber *sv = cur; cur = F[q->rank]; Seg *s = nullptr; u64 off = 0; int k = check_access(a, n, wr, q->pc, &s, &off); cur = sv;
  if (k && tracking) { u32 e = log_ev({q->rank, q->ev, q->seq, q->pc, wr}); range_cells(k, s, off, a, n, wr, q->tid, vc, clk, e); }
}
// SC-mode bookkeeping shares ReadState
static const bool TRACE = getenv("VMC_TRACE") != nullptr;
// Before a rank is put to sleep in a spin: has it seen the newest value of every other location its loop polls?  If not, let it go on polling.
static bool spin_pending(u64 key, bool hist) {
  bool more = false;
  for (auto &k : cur->rs) {
    ReadState &R = k.second; if (k.first == key || !R.valid || R.sep != cur->sepoch) continue;
    Seg *s = ((k.first >> 40) < segs.size() ? segs[k.first >> 40] : nullptr); if (!s || !s->rw) continue; u64 off = k.first & ((1ull << 40) - 1);
    if (!hist) { u64 v = rdmem(s->rw + off, R.size); if (v != R.val && v != R.told) { R.told = v; more = true; } }
    else { auto l = s->locs.find(off); if (l != s->locs.end() && !R.adv && R.idx + 1 < l->second.h.size()) { R.adv = true; more = true; } }
  }
  return more;
}
static void vol_read(u64 a, int n, u64 pc) {
  enter(); if (!cur) return;
  Seg *s = nullptr; u64 off = 0; int k = check_access(a, n, false, pc, &s, &off);
  if (TRACE && k == 2) fprintf(stderr, "%s%d r%d R seg%d+%llu =%d %s pc%s\n", tracking?"D":"S", getpid(), cur->rank, s->id, (unsigned long long)off, (int)rdmem(s->rw + off, n), cur->phase.c_str(), pcstr(pc).c_str());
  if (k != 2) { if (k == 1) { cur->nvepoch++; } return; }
  nsync++; budget_used += 50;
  if (budget_used > BUDGET) violation("NONTERM", cur->rank, "event budget exceeded", pc, true);
  if (cur->fprog == progress && cur->fcnt >= 256) fruitless_step("flag"); else { if (cur->fprog != progress) { cur->fprog = progress; cur->fcnt = 0; } cur->fcnt++; }
  u64 key = ((u64)(s->id) << 40) | off; ReadState &R = cur->rs[key]; bool re = R.valid && R.epoch == cur->nvepoch; bool adv = R.valid && R.adv;
  // a spin: the same location read again and again without any effect in between (a few identical re-reads are legitimate)
  bool same = R.valid && R.sep == cur->sepoch; int limit = re ? 3 : 64; if (!same) R.rep = 0; R.sep = cur->sepoch;
  R.adv = false;
  if (!tracking || V.newest) {
    if (R.valid && rdmem(s->rw + off, n) != R.val) { same = false; R.rep = 0; R.sep = ++cur->sepoch; }   // the loop has observed something: every spin starts afresh
    R.told = rdmem(s->rw + off, n);
    if (same && rdmem(s->rw + off, n) == R.val && ++R.rep > limit && (spin_pending(key, false) ? (R.rep = 0, R.sep = ++cur->sepoch, false) : true)) { yield_blocked(fmt("spin seg%d+%llu val=%d", s->id, (unsigned long long)off, (int)R.val)); }
    ReadState &R2 = cur->rs[key]; R2.told = rdmem(s->rw + off, n); if (R2.valid && R2.told != R2.val) { R2.rep = 0; R2.sep = ++cur->sepoch; }
    R2.valid = true; R2.size = n; R2.epoch = cur->nvepoch; R2.val = rdmem(s->rw + off, n);
    if (tracking) {
      Loc &L = s->locs[off]; if (L.h.empty()) { L.size = n; L.h.push_back({R2.val, VC(), -1, 0}); }
      if (L.floor.size() < (size_t)N) L.floor.resize(N, 0);
      u32 e = log_ev({cur->rank, cur->ev, -1, pc, false}); for (int i = 0; i < n; i++) cell_vol(seg_cell(s, off + i), false, cur_tid(), cur->vc, cur->vc[cur_tid()], e);
      L.floor[cur->rank] = L.h.size() - 1; R2.idx = L.h.size() - 1; cur->vc.join(L.h.back().vc); if (L.h.back().tid >= 0) { u32 &x = cur->vc[L.h.back().tid]; x = std::max(x, L.h.back().clk); }
    }
    return;
  }
  for (int tries = 0;; tries++) {
    Loc &L = s->locs[off];
    if (L.h.empty()) { L.size = n; L.h.push_back({rdmem(s->rw + off, n), VC(), -1, 0}); }
    if (L.floor.size() < (size_t)N) L.floor.resize(N, 0);
    u32 fl = L.floor[cur->rank];
    for (u32 i = L.h.size(); i-- > fl;) if (L.h[i].tid >= 0 && (L.h[i].tid == cur->rank || cur->vc.get(L.h[i].tid) >= L.h[i].clk)) { if (i > fl) fl = i; break; }
    u32 idx = fl; ReadState &R2 = cur->rs[key];
    if (same && tries == 0) R2.rep++;
    if (re || adv || (same && R2.rep > 8)) {
      if (R2.idx + 1 < L.h.size() && R2.idx + 1 > fl) idx = R2.idx + 1;
      if (same && idx <= R2.idx && tries == 0 && R2.rep > limit && (spin_pending(key, true) ? (R2.rep = 0, R2.sep = ++cur->sepoch, false) : true)) { yield_blocked(fmt("spin seg%d+%llu val=%d", s->id, (unsigned long long)off, (int)L.h[idx].val)); continue; }
    }
    u32 e = log_ev({cur->rank, cur->ev, -1, pc, false}); for (int i = 0; i < n; i++) cell_vol(seg_cell(s, off + i), false, cur_tid(), cur->vc, cur->vc[cur_tid()], e);
    HistEnt &h = L.h[idx]; if (R2.valid && idx != R2.idx) { R2.rep = 0; R2.sep = ++cur->sepoch; } L.floor[cur->rank] = idx; R2.valid = true; R2.size = n; R2.epoch = cur->nvepoch; R2.idx = idx; R2.val = h.val;
    cur->vc.join(h.vc); if (h.tid >= 0) { u32 &x = cur->vc[h.tid]; x = std::max(x, h.clk); }
    u64 now = rdmem(s->rw + off, n);
    if (now != h.val) { poke_active = true; poke_addr = s->rw + off; poke_orig = now; poke_size = n; memcpy(poke_addr, &h.val, n); }
    return;
  }
}
static void vol_write(u64 a, int n, u64 pc) {
  enter(); if (!cur) return;
  Seg *s = nullptr; u64 off = 0; int k = check_access(a, n, true, pc, &s, &off);
  if (k != 2) { if (k == 1) cur->nvepoch++; return; }
  ev_point(true); cur->nvepoch++; cur->sepoch++;
  if (tracking) { u32 e = log_ev({cur->rank, cur->ev - 1, -1, pc, true}); for (int i = 0; i < n; i++) cell_vol(seg_cell(s, off + i), true, cur_tid(), cur->vc, cur->vc[cur_tid()], e); }
  if (TRACE) fprintf(stderr, "%s%d r%d W seg%d+%llu %s pc%s\n", tracking?"D":"S", getpid(), cur->rank, s->id, (unsigned long long)off, cur->phase.c_str(), pcstr(pc).c_str());
  pend.on = true; pend.s = s; pend.off = off; pend.size = n; pend.old = rdmem(s->rw + off, n); pend.tid = cur->rank;
}
static inline void hook(u64 a, int n, bool wr, u64 pc) {
  if (!cur) return;
  if (++budget_used > BUDGET) violation("NONTERM", cur->rank, "event budget exceeded", pc, true);
  u64 top = a >> 44;
  if (top == 1) { if (poke_active | pend.on) enter(); if (!heap_ok(a, n)) heap_bad(a, n, wr, pc); return; }
  if (top == 3) return;
  if (top == 2 || top == 4) { access_range(a, n, wr, pc, ""); return; }
  if (a < 65536 || top == 6) { Seg *s; u64 o; check_access(a, n, wr, pc, &s, &o); }
}
#define PC ((u64)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define H(n) void __tsan_read##n(void *a) { hook((u64)a, n, false, PC); } void __tsan_write##n(void *a) { hook((u64)a, n, true, PC); } \
 void __tsan_unaligned_read##n(void *a) { hook((u64)a, n, false, PC); } void __tsan_unaligned_write##n(void *a) { hook((u64)a, n, true, PC); } \
 void __tsan_volatile_read##n(void *a) { vol_read((u64)a, n, PC); } void __tsan_volatile_write##n(void *a) { vol_write((u64)a, n, PC); } \
 void __tsan_unaligned_volatile_read##n(void *a) { vol_read((u64)a, n, PC); } void __tsan_unaligned_volatile_write##n(void *a) { vol_write((u64)a, n, PC); } \
 void __tsan_read_write##n(void *a) { hook((u64)a, n, false, PC); hook((u64)a, n, true, PC); } \
 void __tsan_unaligned_read_write##n(void *a) { hook((u64)a, n, false, PC); hook((u64)a, n, true, PC); }
H(1) H(2) H(4) H(8) H(16)
void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {}
static void range(u64 a, u64 n, bool wr, u64 pc) { if (!cur || !n) return; budget_used += 1 + n / 16; u64 top = a >> 44; if (top == 1) { if (poke_active | pend.on) enter(); if (!heap_ok(a, n)) heap_bad(a, n, wr, pc); } else if (top == 2 || top == 4 || top == 6 || a < 65536) access_range(a, n, wr, pc, "range"); }
void __tsan_read_range(void *a, u64 n) { range((u64)a, n, false, PC); }
void __tsan_write_range(void *a, u64 n) { range((u64)a, n, true, PC); }
void *__tsan_memcpy(void *d, const void *s, u64 n) { range((u64)s, n, false, PC); range((u64)d, n, true, PC); enter(); return memmove(d, s, n); }
void *__tsan_memmove(void *d, const void *s, u64 n) { range((u64)s, n, false, PC); range((u64)d, n, true, PC); enter(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, u64 n) { range((u64)d, n, true, PC); enter(); return memset(d, c, n); }
void *vm_memcpy(void *d, const void *s, u64 n) { range((u64)s, n, false, PC); range((u64)d, n, true, PC); enter(); return memmove(d, s, n); }
void *vm_memmove(void *d, const void *s, u64 n) { return vm_memcpy(d, s, n); }
void *vm_memset(void *d, int c, u64 n) { range((u64)d, n, true, PC); enter(); return memset(d, c, n); }
// C11/GNU atomics: treated as volatile flag accesses
#define A(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T *a, int) { vol_read((u64)a, bits / 8, PC); T v = *a; enter(); return v; } \
 void __tsan_atomic##bits##_store(volatile T *a, T v, int) { vol_write((u64)a, bits / 8, PC); *a = v; enter(); } \
 static void rmw##bits(volatile T *a, u64 pc) { vol_write((u64)a, bits / 8, pc); int r; u64 off; if (((u64)a >> 44) == 4) { Seg *s = shm_lookup((u64)a, r, off); if (tracking) { Loc &L = s->locs[off]; if (!L.h.empty()) { cur->vc.join(L.h.back().vc); if (L.h.back().tid >= 0) { u32 &x = cur->vc[L.h.back().tid]; x = std::max(x, L.h.back().clk); } } } } } \
 T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { rmw##bits(a, PC); T o = *a; *a = v; enter(); return o; } \
 T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { rmw##bits(a, PC); T o = *a; *a = o + v; enter(); return o; } \
 T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { rmw##bits(a, PC); T o = *a; *a = o - v; enter(); return o; } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { rmw##bits(a, PC); if (*a == *c) { *a = v; enter(); return 1; } *c = *a; enter(); return 0; } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int x, int y) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, x, y); } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int x, int y) { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, x, y); return c; }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}

static int rk() { return cur ? cur->rank : 0; }
void *vm_malloc(u64 n) { enter(); return h_alloc(rk(), n); }
void vm_free(void *p) { enter(); h_free(rk(), (u64)p, PC); }
void *vm_calloc(u64 a, u64 b) { enter(); void *p = h_alloc(rk(), a * b); memset(p, 0, a * b); return p; }
void *vm_realloc(void *p, u64 n) { enter(); void *q = h_alloc(rk(), n); if (p) { u64 o = 0; u64 a = (u64)p; int r = rk(); if (((a - HEAP_BASE) & ((1ull << HEAP_SHIFT) - 1)) >= HEAP_BIG) { for (auto &b : bigs[r]) if (b.a == a) o = b.size; } else o = ((Hdr *)(a - 16))->size; memcpy(q, p, o < n ? o : n); h_free(r, a, PC); } return q; }
char *vm_strdup(const char *s) { enter(); u64 n = strlen(s) + 1; char *p = (char *)h_alloc(rk(), n); memcpy(p, s, n); return p; }
char *vm_strcpy(char *d, const char *s) { u64 n = strlen(s) + 1; range((u64)s, n, false, PC); range((u64)d, n, true, PC); enter(); memmove(d, s, n); return d; }
char *vm_strcat(char *d, const char *s) { u64 o = strlen(d), n = strlen(s) + 1; range((u64)(d + o), n, true, PC); enter(); memmove(d + o, s, n); return d; }
char *vm_strncpy(char *d, const char *s, u64 n) { range((u64)d, n, true, PC); enter(); return strncpy(d, s, n); }
static void cap(const char *s) { outcap += s; if (outcap.size() > 4000) outcap = outcap.substr(outcap.size() - 2000); if (getenv("VMC_ECHO")) { fprintf(stderr, "[r%d] %s", rk(), s); } }
static char pbuf[1 << 20];
int vm_sprintf(char *d, const char *f, ...) { va_list a; va_start(a, f); int n = vsnprintf(pbuf, sizeof pbuf, f, a); va_end(a); range((u64)d, n + 1, true, PC); enter(); memcpy(d, pbuf, n + 1); return n; }
int vm_snprintf(char *d, u64 m, const char *f, ...) { va_list a; va_start(a, f); int n = vsnprintf(pbuf, sizeof pbuf, f, a); va_end(a); u64 k = (u64)n + 1 < m ? n + 1 : m; if (k) { range((u64)d, k, true, PC); enter(); memcpy(d, pbuf, k); d[k - 1] = 0; } return n; }
int vm_printf(const char *f, ...) { va_list a; va_start(a, f); int n = vsnprintf(pbuf, sizeof pbuf, f, a); va_end(a); enter(); cap(pbuf); return n; }
int vm_vprintf(const char *f, va_list a) { int n = vsnprintf(pbuf, sizeof pbuf, f, a); cap(pbuf); return n; }
int vm_fprintf(FILE *, const char *f, ...) { va_list a; va_start(a, f); int n = vsnprintf(pbuf, sizeof pbuf, f, a); va_end(a); enter(); cap(pbuf); return n; }
int vm_puts(const char *s) { cap(s); cap("\n"); return 1; }
int vm_putchar(int c) { char b[2] = {(char)c, 0}; cap(b); return c; }
int vm_fflush(FILE *) { return 0; }
void vm_perror(const char *s) { cap(s); }
FILE *vm_fopen(const char *, const char *) { return nullptr; } int vm_fclose(FILE *) { return 0; }
extern "C++" { extern bool injected; }
void vm_exit(int c) { enter(); if (injected && c) { viols.clear(); finish_child(); } violation("EXIT", rk(), fmt("process called exit(%d); last output: %s", c, outcap.size() > 300 ? outcap.substr(outcap.size() - 300).c_str() : outcap.c_str()), PC, true); _exit(0); }
void vm_abort() { enter(); violation("EXIT", rk(), "process called abort(); last output: " + outcap, PC, true); _exit(0); }
// where=0: settings visible on rank 0 only; where=rest: on the other ranks only; env1:NAME: value of the other ranks
char *vm_getenv(const char *k) { static map<string, string> k1; static bool once = false; if (!once) { once = true; for (auto &x : C.kv) if (x.first.compare(0, 5, "env1:") == 0) k1[x.first.substr(5)] = x.second; }
  int me = cur ? cur->rank : 0; string wh = C.get("where", "all"); if (wh == "0" && me) return nullptr; if (wh == "rest" && !me) return nullptr;
  if (me) { auto j = k1.find(k); if (j != k1.end()) return (char *)j->second.c_str(); }
  auto i = C.env.find(k); if (i == C.env.end()) return nullptr; return (char *)i->second.c_str(); }
int vm_usleep(unsigned) { enter(); cur->nvepoch++; cur->sepoch++; for (auto &k : cur->rs) k.second.adv = true; yield_blocked("usleep"); return 0; }
int vm_sleep(unsigned) { return vm_usleep(0); }
int vm_sched_yield() { enter(); lastrun = (rk() + 1) % N; cur->stamp = 0; cur->st = F_BLOCK; cur->why = "sched_yield"; sw_to_sched(); return 0; }
int vm_rand() { return 4; } long vm_time(long *t) { if (t) *t = 1000; return 1000; } long vm_clock() { return 1000; }
int vm_gettimeofday(struct timeval *t, void *) { t->tv_sec = 1000; t->tv_usec = 0; return 0; }
int vm_clock_gettime(int, struct timespec *t) { t->tv_sec = 1000; t->tv_nsec = 0; return 0; }
void *vm_mmap(void *, u64, int, int, int, long) { return MAP_FAILED; } int vm_munmap(void *, u64) { return -1; } int vm_shm_open(const char *, int, int) { return -1; } int vm_shm_unlink(const char *) { return -1; } int vm_ftruncate(int, long) { return -1; } int vm_close(int) { return -1; } int vm_open(const char *, int, ...) { return -1; } int vm_unlink(const char *) { return -1; }

// ---- SysV shared memory stand-ins
static void seg_map(Seg *s, int fd, int r, bool ro) { u64 a = SHM_BASE + ((u64)s->id << SHM_SEG_SHIFT) + ((u64)r << SHM_RANK_SHIFT); void *p = mmap((void *)a, s->mapsize, ro ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0); if (p == MAP_FAILED) { perror("seg mmap"); _exit(9); } }
static map<int, int> segfd;
static void seg_reap(Seg *s) {   // removed and detached everywhere: nothing of it can be reached any more
  if (!s->removed || !s->rw) return; for (int r = 0; r < N; r++) if (s->att[r]) return;
  mmap((void *)s->rw, s->mapsize, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0); s->rw = nullptr; close(segfd[s->id]); segfd[s->id] = -1;
  s->pages.clear(); s->locs.clear();
  for (auto *f : F) for (auto i = f->rs.begin(); i != f->rs.end();) if ((int)(i->first >> 40) == s->id) i = f->rs.erase(i); else ++i;
}
int vm_shmget(int, u64 size, int) {
  enter(); if (size == 0) return -1; pat_add(fmt("g%llu", (unsigned long long)size));
  Seg *s = new Seg; s->id = segs.size(); s->size = size; s->mapsize = (size + 4095) & ~4095ull; s->creator = rk(); s->att.resize(32, 0);
  if (s->id >= 8192) violation("INTERNAL", rk(), "too many segments", 0, true);
  if (s->mapsize > (1ull << SHM_RANK_SHIFT)) violation("INTERNAL", rk(), "segment too large", 0, true);
  int fd = memfd_create("seg", 0); if (ftruncate(fd, s->mapsize)) { perror("ftruncate"); _exit(9); } segfd[s->id] = fd;
  segs.push_back(s); seg_map(s, fd, 31, false); s->rw = (char *)(SHM_BASE + ((u64)s->id << SHM_SEG_SHIFT) + (31ull << SHM_RANK_SHIFT));
  return 1000 + s->id;
}
void *vm_shmat(int id, const void *, int fl) {
  enter(); id -= 1000; if (id < 0 || id >= (int)segs.size() || segs[id]->removed) { violation("SHM_ID", rk(), fmt("shmat of an invalid or removed segment id %d", id + 1000), PC); errno = EINVAL; return (void *)-1; }
  Seg *s = segs[id]; int r = rk(); bool ro = fl & SHM_RDONLY; if (s->att[r]) violation("SHM_TWICE", r, "segment attached twice", PC);
  seg_map(s, segfd[id], r, ro); s->att[r] = ro ? 2 : 1; return (void *)(SHM_BASE + ((u64)s->id << SHM_SEG_SHIFT) + ((u64)r << SHM_RANK_SHIFT));
}
int vm_shmdt(const void *p) {
  enter(); u64 a = (u64)p; if ((a >> 44) != 4) { violation("SHM_DT", rk(), "shmdt of an address that is not attached", PC); return -1; }
  int r; u64 off; Seg *s = shm_lookup(a, r, off); if (!s || r != rk() || off || !s->att[r]) { violation("SHM_DT", rk(), "shmdt of an address that is not attached", PC); return -1; }
  s->att[r] = 0; mmap((void *)a, s->mapsize, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0); progress++; seg_reap(s); return 0;
}
int vm_shmctl(int id, int cmd, void *) {
  enter(); id -= 1000; if (id < 0 || id >= (int)segs.size()) { violation("SHM_ID", rk(), "shmctl of an invalid id", PC); return -1; }
  if (cmd == IPC_RMID) { if (segs[id]->removed) return -1; segs[id]->removed = true; progress++; seg_reap(segs[id]); } return 0;
}
} // extern C
static void reseparate_segs() {   // after fork: give this process its own copy of every segment
  for (auto *s : segs) {
    if (!s->rw) continue;
    bool any = false; for (int r = 0; r < N; r++) any |= s->att[r] != 0;
    int fd = memfd_create("seg", 0); ftruncate(fd, s->mapsize);
    // copy only non-hole parts
    int ofd = segfd[s->id]; off_t p = 0; vector<char> buf;
    while (1) { off_t d = lseek(ofd, p, SEEK_DATA); if (d < 0) break; off_t h = lseek(ofd, d, SEEK_HOLE); if (h < 0) h = s->mapsize; pwrite(fd, s->rw + d, h - d, d); p = h; }
    close(ofd); segfd[s->id] = fd; seg_map(s, fd, 31, false);
    if (any) for (int r = 0; r < N; r++) if (s->att[r]) seg_map(s, fd, r, s->att[r] == 2);
  }
}

// ---------------------------------------------------------------- library copies
static string selfdir;
void *libsym(int r, const char *n) { return dlsym(handles[r], n); }
static void load_libs(int n) {
  for (int r = 0; r < n; r++) {
    if (handles[r]) continue;
    handles[r] = dlopen((selfdir + fmt("/rank%d.so", r)).c_str(), RTLD_LAZY | RTLD_LOCAL);
    if (!handles[r]) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(9); }
    struct link_map *lm; dlinfo(handles[r], RTLD_DI_LINKMAP, &lm); sobase[r] = lm->l_addr; sotext[r] = 4 << 20;
  }
}
// ---------------------------------------------------------------- crash handling
static char altstack[65536 * 4];
static void on_sig(int sig, siginfo_t *si, void *uc) {
  u64 pc = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
  if (sig == SIGXCPU || sig == SIGALRM || sig == SIGPROF) { viols.push_back({"NONTERM", "cpu time limit exceeded" + (cur ? " in rank " + std::to_string(cur->rank) + " [" + cur->phase + "]" : string()), pcstr(pc + 1), curvar, cur ? cur->rank : -1}); }
  else { string where; if (cur && (u64)si->si_addr >= STACK_BASE && (u64)si->si_addr < STACK_BASE + (1ull << 44)) where = " (stack)"; viols.push_back({"CRASH", fmt("signal %d at address %p%s", sig, si->si_addr, where.c_str()) + (cur ? " [" + cur->phase + "]" : ""), pcstr(pc + 1), curvar, cur ? cur->rank : -1}); }
  flush_result(true); _exit(0);
}
static void install_sig() {
  stack_t ss; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF, SIGXCPU}) sigaction(s, &sa, nullptr);
}
static void cpu_limit(int sec) { struct itimerval t = {{0, 0}, {sec, 0}}; setitimer(ITIMER_PROF, &t, nullptr); }

// ---------------------------------------------------------------- variants
string Variant::str() const {
  string s = D ? "D" : "S"; s += fmt(":%s:%s", msg == EAGER ? "eager" : msg == LATE ? "late" : "rdv", pol == ASC ? "asc" : pol == DESC ? "desc" : "rot");
  if (weakcoll) s += ":weak"; if (anylate) s += ":anylate"; if (newest) s += ":newest";
  for (auto &p : pauses) { s += fmt(":p%d@%u", p.at.rank, p.at.ev); if (p.at.req >= 0) s += fmt("q%d", p.at.req); if (p.hasuntil) { s += fmt(">%d@%u", p.until.rank, p.until.ev); if (p.until.req >= 0) s += fmt("q%d", p.until.req); } }
  if (!choices.empty()) { s += ":c"; for (size_t i = 0; i < choices.size(); i++) s += fmt("%s%d", i ? "." : "", choices[i]); }
  return s;
}
static bool parse_ev(const char *&p, EvId &e) { char *q; e.rank = strtol(p, &q, 10); if (*q != '@') return false; e.ev = strtoul(q + 1, &q, 10); if (*q == 'q') e.req = strtol(q + 1, &q, 10); p = q; return true; }
bool Variant::parse(const string &s) {
  *this = Variant(); size_t i = 0; int k = 0;
  while (i <= s.size()) {
    size_t j = s.find(':', i); if (j == string::npos) j = s.size(); string t = s.substr(i, j - i); i = j + 1;
    if (k == 0) D = t == "D"; else if (t == "eager") msg = EAGER; else if (t == "late") msg = LATE; else if (t == "rdv") msg = RDV; else if (t == "asc") pol = ASC; else if (t == "desc") pol = DESC; else if (t == "rot") pol = ROT;
    else if (t == "weak") weakcoll = true; else if (t == "anylate") anylate = true; else if (t == "newest") newest = true;
    else if (t[0] == 'p') { Pause p; const char *c = t.c_str() + 1; if (!parse_ev(c, p.at)) return false; if (*c == '>') { c++; p.hasuntil = true; if (!parse_ev(c, p.until)) return false; } pauses.push_back(p); }
    else if (t[0] == 'c') { const char *c = t.c_str() + 1; while (*c) { char *q; choices.push_back(strtol(c, &q, 10)); c = *q == '.' ? q + 1 : q; if (q == c && *q != '.') if (!*q) break; } }
    k++;
  }
  return true;
}

// ---------------------------------------------------------------- exploration driver
static Shared *PS;      // shared block used by variant children
static bool ischild = false;
static string all_results; // accumulates results in the config process
struct Tot { u64 execs = 0, evs = 0, syncs = 0, choices = 0, transfers = 0, races = 0, confirmed = 0, unconfirmed = 0, pauses = 0, perms = 0; int trunc = 0; } T;
static vector<string> vlist; static int nv = 0;
struct RunRes { bool ok = false; vector<string> viol; vector<std::array<int, 3>> ar; vector<Race> races; vector<vector<u32>> blocks; string raw; };
static string optstr; static std::set<string> opts;
static int optint(const char *k, int d) { string p = string(k) + "="; for (auto &o : opts) if (o.compare(0, p.size(), p) == 0) return atoi(o.c_str() + p.size()); return d; }
static bool opt(const char *k) { return opts.count(k); }

// very small JSON helpers for our own fixed format
static RunRes parse_res(const char *b, u32 len) {
  RunRes r; r.raw.assign(b, len); const string &s = r.raw; size_t p = s.find("\"viol\":["); size_t i = p + 8; 
  while (i < s.size() && s[i] == '{') { size_t j = i; bool q = false; for (; j < s.size(); j++) { if (s[j] == '\\') { j++; continue; } if (s[j] == '"') q = !q; if (!q && s[j] == '}') break; } r.viol.push_back(s.substr(i, j - i + 1)); i = j + 1; if (s[i] == ',') i++; }
  r.ok = r.viol.empty();
  p = s.find("\"arity\":[", i); if (p != string::npos) { const char *c = s.c_str() + p + 9; while (*c == '[') { std::array<int, 3> a; sscanf(c, "[%d,%d,%d]", &a[0], &a[1], &a[2]); r.ar.push_back(a); c = strchr(c, ']') + 1; if (*c == ',') c++; } }
  p = s.find("\"races\":[", i); if (p != string::npos) { const char *c = s.c_str() + p + 9; while (*c == '[') { Race x; int nn = 0; sscanf(c, "[%d,%u,%d,%d,%u,%d,\"%n", &x.a.rank, &x.a.ev, &x.a.req, &x.b.rank, &x.b.ev, &x.b.req, &nn); const char *e = strchr(c + nn, '"'); x.where.assign(c + nn, e - c - nn); r.races.push_back(x); c = strchr(e, ']') + 1; if (*c == ',') c++; } }
  p = s.find("\"blocks\":[", i); if (p != string::npos) { const char *c = s.c_str() + p + 10; while (*c == '[') { c++; vector<u32> v; while (*c != ']') { char *q; v.push_back(strtoul(c, &q, 10)); c = q; if (*c == ',') c++; } r.blocks.push_back(v); c++; if (*c == ',') c++; } }
  return r;
}
static u64 wall_us() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ull + t.tv_nsec / 1000; }
static u64 wall_deadline;
static RunRes run_variant(const Variant &v, bool rec) {   // only from the config process at the snapshot
  PS->len = 0; PS->complete = 0; fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    ischild = true; SH = PS; V = v; curvar = v.str(); tracking = v.D; reseparate_segs(); viols.clear(); races.clear(); raceseen.clear(); seenviol.clear(); nraces = 0; choicearity.clear(); choicetaken.clear(); choicerank.clear(); nevents = nsync = ntransfer = 0; budget_used = 0; sched_steps = 0;
    recording_blocks = rec; lastrun = v.pol == DESC ? N - 1 : 0; for (auto *f : F) f->blocks.clear(); cpu_limit(20);
    return RunRes();
  }
  int st; waitpid(pid, &st, 0);
  T.execs++;
  if (!PS->complete) { RunRes r; r.viol.push_back(fmt("{\"kind\":\"INTERNAL\",\"rank\":-1,\"pc\":\"\",\"variant\":\"%s\",\"msg\":\"explorer child died status %x\"}", v.str().c_str(), st)); return r; }
  T.evs += PS->evs; T.syncs += PS->syncs; T.choices += PS->choices; T.transfers += PS->transfers;
  return parse_res(PS->buf, PS->len);
}
#define RUN(var, rec, out) do { out = run_variant(var, rec); if (ischild) return; for (auto &x : out.viol) if (vlist.size() < 40) vlist.push_back(x); if (!out.viol.empty()) nv++; if (nv >= maxv) return; } while (0)
static void explore() {
  if (!opts.empty() && opt("nosnap")) return;
  int maxv = optint("maxviol", 3);
  string rv = C.get("variant");
  RunRes r; Variant v;
  if (!rv.empty()) { Variant q; q.parse(rv); RUN(q, true, r); return; }
  vector<Race> allraces; std::set<string> rs; RunRes base; bool gotbase = false;
  vector<Msg> msgs = {EAGER, LATE, RDV};
  vector<vector<std::array<int, 3>>> artr;
  for (int pol = 0; pol < 2; pol++) for (Msg m : msgs) {
    if (opt("light") && pol == 1 && m != EAGER) continue;
    v = Variant(); v.D = true; v.msg = m; v.pol = (Policy)pol; RUN(v, !gotbase, r); if (!gotbase) { base = r; gotbase = true; }
    for (auto &x : r.races) { string k = fmt("%d %u %d %d %u %d", x.a.rank, x.a.ev, x.a.req, x.b.rank, x.b.ev, x.b.req); if (rs.insert(k).second) allraces.push_back(x); }
  }
  if (opt("newest")) { v = Variant(); v.newest = true; RUN(v, false, r); v.pol = DESC; v.msg = LATE; RUN(v, false, r); }
  // directed reversals of every detected race
  T.races += allraces.size(); int done = 0;
  for (auto &x : allraces) {
    if (done++ >= optint("maxrev", 40)) { T.trunc++; break; }
    bool conf = false;
    for (int k = 0; k < 4 && !conf; k++) {
      v = Variant(); v.D = false; v.weakcoll = true; v.msg = k & 2 ? LATE : EAGER; Pause p; p.at = x.a; if (!(k & 1)) { p.until = x.b; p.hasuntil = true; } v.pauses.push_back(p); v.pol = DESC; RUN(v, false, r); if (!r.viol.empty()) conf = true;
    }
    if (conf) T.confirmed++; else T.unconfirmed++;
  }
  // sequentially consistent delay-bounded enumeration: every rank delayed at every block boundary until all others are stuck
  v = Variant(); v.D = false; v.msg = EAGER; RUN(v, true, r); RunRes sb = r;
  v.pol = DESC; RUN(v, false, r); v.pol = ROT; RUN(v, false, r); v.pol = ASC;
  if (!opt("nodelay")) {
    vector<std::pair<int, u32>> pts; for (int a = 0; a < (int)sb.blocks.size(); a++) for (u32 e : sb.blocks[a]) pts.push_back({a, e});
    int stride = 1, maxd = optint("maxdelay", 400); if ((int)pts.size() > maxd) { stride = (pts.size() + maxd - 1) / maxd; T.trunc++; }
    for (size_t i = 0; i < pts.size(); i += stride) { v = Variant(); v.D = false; v.msg = (i & 1) ? LATE : EAGER; v.weakcoll = true; Pause p; p.at.rank = pts[i].first; p.at.ev = pts[i].second; v.pauses.push_back(p); RUN(v, false, r); T.pauses++; }
    if (opt("delay2")) { int cnt = 0, max2 = optint("maxdelay2", 20000); for (size_t i = 0; i < pts.size(); i++) for (size_t j = 0; j < pts.size(); j++) { if (i == j || (pts[i].first == pts[j].first && pts[j].second <= pts[i].second)) continue; if (cnt++ > max2) { T.trunc++; goto d2done; } v = Variant(); v.D = false; v.weakcoll = true; Pause p; p.at.rank = pts[i].first; p.at.ev = pts[i].second; v.pauses.push_back(p); p.at.rank = pts[j].first; p.at.ev = pts[j].second; v.pauses.push_back(p); RUN(v, false, r); T.pauses++; } }
  d2done:;
  }
  // enumeration of completion orders / test outcomes
  if (opt("choices")) {
    int maxc = optint("maxchoice", 600), cdev = optint("cdev", 99), cnt = 0;
    for (int m = 0; m < 1; m++) {
      v = Variant(); v.D = true; v.anylate = true;
      // DFS over choice sequences; non-default choices confined to one rank unless "allranks"
      vector<vector<int>> stack; stack.push_back({});
      while (!stack.empty()) {
        vector<int> pre = stack.back(); stack.pop_back(); if (cnt++ >= maxc) { T.trunc++; break; }
        v.choices = pre; RUN(v, false, r); T.perms++;
        for (auto &x : r.races) { string k = fmt("%d %u %d %d %u %d", x.a.rank, x.a.ev, x.a.req, x.b.rank, x.b.ev, x.b.req); (void)k; }
        int dev = 0, drank = -1; for (size_t i = 0; i < pre.size() && i < r.ar.size(); i++) if (pre[i]) { dev++; drank = r.ar[i][2]; }
        for (size_t i = r.ar.size(); i-- > pre.size();) {
          if (r.ar[i][0] <= 1) continue; if (dev >= cdev) continue; if (drank >= 0 && r.ar[i][2] != drank && !opt("allranks")) continue;
          for (int c = 1; c < r.ar[i][0]; c++) { vector<int> np; for (size_t q = 0; q < i; q++) np.push_back(r.ar[q][1]); np.push_back(c); stack.push_back(np); }
        }
      }
    }
  }
}
#undef RUN
static void fiber_entry(int r) { driver_main(r); enter(); cur->st = F_DONE; cur->why = "done"; progress++; sw_to_sched(); }
int finaliseds = 0;
static map<std::pair<int, string>, vector<string>> PAT;   // (rank, operation) -> what it sends and which segments it creates
void pat_add(const string &x) { if (!cur || !C.geti("pats", 0)) return; const string &p = cur->phase; size_t i = p.find(" op"); if (i == string::npos) i = p.find("_init op") == string::npos ? string::npos : p.find("_init op") + 5; if (i == string::npos) return; size_t j = i + 1; while (j < p.size() && p[j] != ' ') j++; PAT[{cur->rank, p.substr(i + 1, j - i - 1)}].push_back(x); }
static void pat_export(char *out, size_t n) { map<string, u64> h; for (auto &k : PAT) { u64 &x = h[k.first.second]; for (auto &q : k.second) for (char c : q + ";") x = (x ^ (u8)c ^ ((u64)k.first.first << 8)) * 0x100000001b3ull; } string s; for (auto &k : h) { if (!s.empty()) s += ","; s += fmt("%s=%016llx", k.first.c_str(), (unsigned long long)k.second); } strncpy(out, s.c_str(), n - 1); }
static char *pat_out;
static void pat_dump() { string f = C.get("patdump"); if (f.empty()) return; FILE *o = fopen(f.c_str(), "w"); if (!o) return; for (auto &k : PAT) { fprintf(o, "%d %s", k.first.first, k.first.second.c_str()); for (auto &q : k.second) fprintf(o, " %s", q.c_str()); fprintf(o, "\n"); } fclose(o); }   // for tools/conform.py
static void end_checks() {
  if (!ischild && pat_out) { pat_export(pat_out, 4096); pat_dump(); }
  for (int r = 0; r < N; r++) ubuf_guards(r);
  check_mpi_end();
  if (C.geti("leak", 1)) {
    int left = 0; for (auto *s : segs) if (!s->removed) left++;
    if (left) violation("SHM_LEAK", -1, fmt("%d shared memory segment(s) never removed", left));
    int natt = 0; for (auto *s : segs) for (int r = 0; r < N; r++) natt += s->att[r] != 0;
    if (natt) violation("SHM_ATTACHED", -1, fmt("%d segment attachments left after the requests were freed", natt));
  }
}
extern void golden_init();
static void run_config(const string &line, char *po) {   // in a forked config process
  SH->complete = 0; SH->len = 0; pat_out = po;
  if (!parse_config(line, C)) { violation("BADCONFIG", -1, "cannot parse", 0, true); }
  N = C.n; install_sig(); cpu_limit(C.geti("cpu", 60));
  string o = C.get("opt"); size_t i = 0; while (i < o.size()) { size_t j = o.find(',', i); if (j == string::npos) j = o.size(); opts.insert(o.substr(i, j - i)); i = j + 1; }
  mem_init(); wall_deadline = wall_us();
  PS = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (C.kv.count("golden")) golden_init();
  for (int r = 0; r < N; r++) {
    Fiber *f = new Fiber; f->rank = r; F.push_back(f); u64 sb = STACK_BASE + ((u64)r << STACK_SHIFT) + 65536; mmap_fixed(sb, STACK_SIZE); f->stack = (char *)sb;
    getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = STACK_SIZE; f->ctx.uc_link = &schedctx; makecontext(&f->ctx, (void (*)())fiber_entry, 1, r); f->vc[r] = 1;
  }
  if (opt("nosnap") || !C.get("variant0").empty()) { if (!C.get("variant0").empty()) { V.parse(C.get("variant0")); curvar = V.str(); tracking = V.D; } recording_blocks = true; }
  sched_loop();
  end_checks();
  if (ischild) finish_child();
  // config process: its own run is the canonical D:eager:asc one (continues after the snapshot)
  finish_child();
}
static Shared *newshared() { return (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
struct TotShared { Tot t; u32 nvl; char vl[1 << 18]; char pats[4096]; };
static TotShared *TS;
void export_tot() { if (!TS || ischild) return; TS->t = T; string s; for (size_t i = 0; i < vlist.size(); i++) { if (s.size() + vlist[i].size() > sizeof(TS->vl) - 10) break; if (i) s += ","; s += vlist[i]; } memcpy(TS->vl, s.c_str(), s.size() + 1); TS->nvl = vlist.size(); }
struct AtExit { };
extern int selftest_main(int argc, char **argv);
int main(int argc, char **argv) {
  char b[4096]; ssize_t l = readlink("/proc/self/exe", b, sizeof b - 1); b[l] = 0; selfdir = b; selfdir = selfdir.substr(0, selfdir.rfind('/'));
  string line; char *lp = nullptr; size_t cap_ = 0;
  while (getline(&lp, &cap_, stdin) > 0) {
    line = lp; while (!line.empty() && (line.back() == '\n' || line.back() == ' ')) line.pop_back(); if (line.empty()) continue;
    Config c0; if (!parse_config(line, c0)) { printf("{\"cfg\":\"%s\",\"viol\":[{\"kind\":\"BADCONFIG\",\"rank\":-1,\"pc\":\"\",\"variant\":\"\",\"msg\":\"\"}]}\n", jesc(line).c_str()); fflush(stdout); continue; }
    load_libs(c0.n);
    SH = newshared(); TS = (TotShared *)mmap(nullptr, sizeof(TotShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    u64 t0 = wall_us(); fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) { run_config(line, TS->pats); _exit(0); }
    int st; struct rusage ru; wait4(pid, &st, 0, &ru);
    string res; if (SH->complete) res.assign(SH->buf, SH->len); else res = fmt("{\"viol\":[{\"kind\":\"INTERNAL\",\"rank\":-1,\"pc\":\"\",\"variant\":\"init\",\"msg\":\"config process died, status %x\"}]}", st);
    RunRes r = parse_res(res.data(), res.size()); string vl; for (auto &x : r.viol) { if (!vl.empty()) vl += ","; vl += x; }
    if (TS->nvl) { if (!vl.empty()) vl += ","; vl += TS->vl; }
    Tot &t = TS->t;
    printf("{\"cfg\":\"%s\",\"viol\":[%s],\"execs\":%llu,\"events\":%llu,\"syncs\":%llu,\"choices\":%llu,\"transfers\":%llu,\"races\":%llu,\"unconfirmed\":%llu,\"delays\":%llu,\"perms\":%llu,\"trunc\":%d,\"ms\":%llu,\"rssmb\":%ld,\"pats\":\"%s\"%s}\n", jesc(line).c_str(), vl.c_str(), (unsigned long long)(t.execs + 1), (unsigned long long)(t.evs + SH->evs), (unsigned long long)(t.syncs + SH->syncs), (unsigned long long)(t.choices + SH->choices), (unsigned long long)(t.transfers + SH->transfers), (unsigned long long)t.races, (unsigned long long)t.unconfirmed, (unsigned long long)t.pauses, (unsigned long long)t.perms, t.trunc, (unsigned long long)((wall_us() - t0) / 1000), ru.ru_maxrss / 1024,
      TS->pats, getenv("VMC_RACES") ? (string(",\"detail\":") + res).c_str() : "");
    fflush(stdout); munmap(SH, sizeof(Shared)); munmap(TS, sizeof(TotShared));
  }
  return 0;
}
