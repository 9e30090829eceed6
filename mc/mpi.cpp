// The MPI implementation of the virtual machine.
#include "vm.h"
#include <limits.h>
void nic_access(Req *q, u64 a, u64 n, bool wr, const VC &vc, u32 clk);
bool hold_at(int idx);
void yield_low(const string &why);
u64 ntransfer;
static const u32 M_REQ = 0x52455155, M_COMM = 0x434f4d4d, M_INFO = 0x494e464f;
static vector<Ctx *> ctxs; static vector<vector<CommH *>> handles_of; static vector<Req *> allreq; static map<std::pair<int, int>, Req *> reqby; static vector<Req *> freereq[64]; static Ctx *world;
static CommH worldh[64];
#define PC ((u64)__builtin_return_address(0))

bool req_transferred(int rank, int seq) { auto i = reqby.find({rank, seq}); return i != reqby.end() && i->second->seq == seq ? (i->second->copied || i->second->done) : false; }
static std::set<std::pair<int, int>> xferdone;

static Ctx *new_ctx(const vector<int> &mem, const string &how) { Ctx *c = new Ctx; c->id = ctxs.size(); c->mem = mem; c->seq.assign(N, 0); c->how = how; ctxs.push_back(c); return c; }
static void ensure_world() { if (world) return; vector<int> m; for (int i = 0; i < N; i++) m.push_back(i); world = new_ctx(m, "world"); for (int i = 0; i < N; i++) worldh[i] = {M_COMM, i, world, false}; }
static CommH *H(MPI_Comm c, u64 pc) {
  ensure_world(); if (c == MPI_COMM_WORLD) return &worldh[cur->rank];
  CommH *h = (CommH *)c; if (c == MPI_COMM_NULL || !h) { violation("MPI_COMM", cur->rank, "MPI call on MPI_COMM_NULL", pc, true); }
  if ((u64)h < 65536 || h->magic != M_COMM) violation("MPI_COMM", cur->rank, "MPI call on an invalid communicator handle", pc, true);
  if (h->freed) violation("MPI_COMM", cur->rank, "MPI call on a freed communicator", pc, true);
  return h;
}
static vector<CommH *> freedcomms[64];   // commreuse=1: the next communicator gets the handle freed last
static MPI_Comm mkhandle(Ctx *c) { auto &v = freedcomms[cur->rank]; CommH *h; if (!v.empty()) { h = v.back(); v.pop_back(); *h = CommH{M_COMM, cur->rank, c, false}; } else h = new CommH{M_COMM, cur->rank, c, false}; return (MPI_Comm)h; }
static int idx_in(Ctx *c, int wr) { for (size_t i = 0; i < c->mem.size(); i++) if (c->mem[i] == wr) return i; return -1; }
static int tsize(MPI_Datatype t) {
  if (t == MPI_INT || t == MPI_FLOAT || t == MPI_UNSIGNED || t == MPI_INT32_T || t == MPI_UINT32_T) return 4;
  if (t == MPI_LONG || t == MPI_DOUBLE || t == MPI_UNSIGNED_LONG || t == MPI_LONG_LONG_INT || t == MPI_INT64_T || t == MPI_UINT64_T || t == MPI_AINT) return 8;
  if (t == MPI_CHAR || t == MPI_BYTE || t == MPI_SIGNED_CHAR || t == MPI_UNSIGNED_CHAR || t == MPI_PACKED) return 1;
  if (t == MPI_SHORT || t == MPI_UNSIGNED_SHORT) return 2;
  if (t == MPI_LONG_INT || t == MPI_DOUBLE_INT) return 16;   // extent; the data is 12 bytes
  if (t == MPI_2INT || t == MPI_FLOAT_INT) return 8;
  return -1;
}
static int typ(MPI_Datatype t, u64 pc) { int s = tsize(t); if (s < 0) violation("MPI_TYPE", cur->rank, "unknown datatype handle passed to MPI", pc, true); return s; }

// ------------------------------------------------------------------ point to point
static Req *mkreq(Ctx *c, bool send, void *buf, u64 bytes, int peer, int tag, u64 pc) {
  Fiber *f = cur; Req *q; auto &fr = freereq[f->rank];
  q = new Req; // object identity; the public handle is a pool address
  (void)fr; q->magic = M_REQ; q->rank = f->rank; q->send = send; q->persistent = q->active = q->done = q->copied = q->freed = false; q->ctx = c; q->buf = (char *)buf; q->bytes = bytes; q->match = nullptr; q->tag = tag; q->src = send ? f->rank : peer; q->dst = send ? peer : f->rank; q->seq = f->nreq++; q->ev = f->ev; q->held = q->early = q->late = false; q->holdidx = -1; q->pc = pc; q->tid = -1; q->slot = -1; q->clk = 0;
  allreq.push_back(q); reqby[{q->rank, q->seq}] = q;
  for (size_t i = 0; i < V.pauses.size(); i++) {
    auto &p = V.pauses[i];
    if (p.at.rank == q->rank && p.at.req == q->seq) { q->late = true; q->held = true; q->holdidx = i; }
    if (p.hasuntil && p.until.rank == q->rank && p.until.req == q->seq) q->early = true;
  }
  return q;
}
// opaque handle pool: fixed addresses, LIFO reuse per rank (like Open MPI's free list)
static vector<Req *> pooltab[64]; static vector<int> poolfree[64];
static u64 pstride() { static u64 x = C.geti("reqstride", 384); return x; }   // distance of the addresses of request handles
static MPI_Request pub(Req *q) { int r = q->rank, i; if (!poolfree[r].empty()) { i = poolfree[r].back(); poolfree[r].pop_back(); pooltab[r][i] = q; } else { i = pooltab[r].size(); pooltab[r].push_back(q); } if ((u64)(i + 1) * pstride() >= 1u << 24) violation("INTERNAL", r, "too many request handles", 0, true); return (MPI_Request)(POOL_BASE + ((u64)r << 24) + (u64)i * pstride()); }
static Req *get(MPI_Request h, u64 pc) {
  u64 a = (u64)h; if (h == MPI_REQUEST_NULL) return nullptr;
  if ((a >> 44) == 6) { int r = (a - POOL_BASE) >> 24, i = ((a - POOL_BASE) & 0xffffff) / pstride(); if (r == cur->rank && ((a - POOL_BASE) & 0xffffff) % pstride() == 0 && i < (int)pooltab[r].size() && pooltab[r][i]) return pooltab[r][i]; }
  violation("MPI_REQUEST", cur->rank, fmt("MPI call on an invalid or freed request handle %llx", (unsigned long long)a), pc, true); return nullptr;
}
static void unpub(MPI_Request *h) { u64 a = (u64)*h; int r = (a - POOL_BASE) >> 24, i = ((a - POOL_BASE) & 0xffffff) / pstride(); pooltab[r][i] = nullptr; poolfree[r].push_back(i); *h = MPI_REQUEST_NULL; }
static void getslot(Req *q) { Fiber *f = cur; for (int i = 0; i < MAXSLOT; i++) if (!f->slots[i]) { f->slots[i] = true; q->slot = i; q->tid = N + f->rank * MAXSLOT + i; q->clk = ++f->slotclk[i]; q->vc = f->vc; q->vc[q->tid] = q->clk; f->vc[f->rank]++; return; } violation("INTERNAL", f->rank, "too many outstanding requests", 0, true); }
static void relslot(Req *q) { if (q->slot >= 0) F[q->rank]->slots[q->slot] = false; q->slot = -1; }
static void send_read(Req *s) { if (s->copied) return; s->data.resize(s->bytes); nic_access(s, (u64)s->buf, s->bytes, false, s->vc, s->clk); if (s->bytes) memcpy(s->data.data(), s->buf, s->bytes); s->copied = true; progress_made(); }
static void deliver(Req *r) {
  if (r->done) return; Req *s = r->match; send_read(s); VC v = r->vc; v.join(s->vc); v[r->tid] = r->clk;
  if (s->bytes > r->bytes) violation("MPI_TRUNCATE", r->rank, fmt("message of %llu bytes truncated to %llu", (unsigned long long)s->bytes, (unsigned long long)r->bytes), r->pc);
  u64 n = std::min(s->bytes, r->bytes); nic_access(r, (u64)r->buf, n, true, v, r->clk); if (n) memcpy(r->buf, s->data.data(), n); r->dvc = v; r->done = true; r->copied = true; ntransfer++; progress_made();
}
static bool late(Req *q) { return q->late || (V.msg != EAGER && !q->early); }
static void try_match(Req *q) {
  Ctx *c = q->ctx; auto &S = c->sends; auto &R = c->recvs; std::pair<int, int> k = {q->dst, 0};
  if (q->send) {
    auto &rq = R[k]; for (size_t i = 0; i < rq.size(); i++) { Req *r = rq[i]; if ((r->src == q->src || r->src == MPI_ANY_SOURCE) && (r->tag == q->tag || r->tag == MPI_ANY_TAG)) { r->match = q; q->match = r; rq.erase(rq.begin() + i); break; } }
    if (!q->match) S[k].push_back(q);
  } else {
    auto &sq = S[k]; for (size_t i = 0; i < sq.size(); i++) { Req *s = sq[i]; if ((q->src == s->src || q->src == MPI_ANY_SOURCE) && (q->tag == s->tag || q->tag == MPI_ANY_TAG)) { s->match = q; q->match = s; sq.erase(sq.begin() + i); break; } }
    if (!q->match) R[k].push_back(q);
  }
  progress_made();
}
u64 nposted, postbase = ~0ull; std::set<int> selfinit;
static void activate(Req *q) { nposted++;
  enter(); ev_point(true); cur->nvepoch++, cur->sepoch++; q->ev = cur->ev - 1; q->active = true; q->done = q->copied = false; q->match = nullptr; getslot(q);
  if (q->send && !late(q)) send_read(q);
  try_match(q);
  Req *r = q->send ? q->match : q;
  if (r && r->match && !late(r)) deliver(r);
}
static bool completable(Req *q) { if (!q || !q->active) return true; if (q->send) return V.msg == RDV ? q->match != nullptr : true; return q->done || q->match != nullptr; }
static void complete(Req *q) {
  if (!q || !q->active) return;
  if (q->held) { q->held = false; hold_at(q->holdidx); }
  if (q->send && q->persistent) {   // the message outlives this activation of the request
    send_read(q); Req *m = new Req(*q); m->persistent = false;
    if (q->match) { if (q->match->match == q) q->match->match = m; } else for (auto &e : q->ctx->sends[{q->dst, 0}]) if (e == q) e = m;
  }
  if (q->send) { send_read(q); u32 &x = cur->vc[q->tid]; x = std::max(x, q->clk); }
  else { deliver(q); cur->vc.join(q->dvc); }
  q->active = false; cur->nvepoch++, cur->sepoch++; progress_made();
  relslot(q);
}
static void setstatus(MPI_Status *st, Req *q) { if (st == MPI_STATUS_IGNORE) return; memset(st, 0, sizeof *st); if (!q) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; return; } if (!q->send && q->match) { st->MPI_SOURCE = idx_in(q->ctx, q->match->src); st->MPI_TAG = q->match->tag; st->_ucount = q->match->bytes; } st->MPI_ERROR = 0; }
static void finish(MPI_Request *h, Req *q, MPI_Status *st) { bool inact = q && q->persistent && !q->active; complete(q); setstatus(st, inact ? nullptr : q); if (q && !q->persistent) { unpub(h); } }
static void wait_for(const std::function<bool()> &p, const string &why) { while (!p()) yield_blocked(why); }

extern "C" {
static Req *post(bool send, const void *buf, int count, MPI_Datatype t, int peer, int tag, MPI_Comm c, bool pers, u64 pc) {
  enter(); CommH *h = H(c, pc); int s = typ(t, pc);
  if (count < 0) { violation("MPI_COUNT", cur->rank, fmt("negative count %d in point-to-point call", count), pc, true); }
  int w; if (peer == MPI_ANY_SOURCE && !send) w = MPI_ANY_SOURCE; else if (peer < 0 || peer >= (int)h->ctx->mem.size()) { violation("MPI_RANK", cur->rank, fmt("invalid peer rank %d", peer), pc, true); w = 0; } else w = h->ctx->mem[peer];
  if (!(tag >= 0 || (!send && tag == MPI_ANY_TAG))) violation("MPI_TAG", cur->rank, fmt("invalid tag %d", tag), pc, true);
  if (send) pat_add(fmt("m%d,%d", w, count * s));
  Req *q = mkreq(h->ctx, send, (void *)buf, (u64)count * s, w, tag, pc); q->persistent = pers; if (!pers) activate(q); return q;
}
int PMPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { *r = pub(post(true, b, n, t, d, tag, c, false, PC)); return 0; }
int PMPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { *r = pub(post(false, b, n, t, s, tag, c, false, PC)); return 0; }
int PMPI_Recv_init(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { *r = pub(post(false, b, n, t, s, tag, c, true, PC)); return 0; }
int PMPI_Send_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { *r = pub(post(true, b, n, t, d, tag, c, true, PC)); return 0; }
int PMPI_Start(MPI_Request *r) { enter(); Req *q = get(*r, PC); if (!q || !q->persistent) { violation("MPI_REQUEST", cur->rank, "MPI_Start on a non-persistent request", PC, true); } if (q->active) violation("MPI_REQUEST", cur->rank, "MPI_Start on an active request", PC, true); Req *o = q; o->seq = cur->nreq++; reqby[{o->rank, o->seq}] = o; activate(q); return 0; }
int PMPI_Startall(int n, MPI_Request *r) { for (int i = 0; i < n; i++) PMPI_Start(r + i); return 0; }
int PMPI_Wait(MPI_Request *r, MPI_Status *st) { enter(); ev_point(true); Req *q = get(*r, PC); if (!q) { setstatus(st, nullptr); return 0; } wait_for([&] { return completable(q); }, q->send ? "wait-send" : "wait-recv"); finish(r, q, st); return 0; }
int PMPI_Waitall(int n, MPI_Request *r, MPI_Status *st) {
  enter(); ev_point(true); cur->nvepoch++, cur->sepoch++; vector<Req *> q; for (int i = 0; i < n; i++) q.push_back(get(r[i], PC));
  // requests may complete (and be transferred) in any order while others are pending
  vector<u8> fin(n, 0); int left = n;
  while (left) { bool any = false; for (int i = 0; i < n; i++) if (!fin[i] && completable(q[i])) { finish(&r[i], q[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i); fin[i] = 1; left--; any = true; } if (left && !any) { string w = "waitall"; for (int i = 0; i < n; i++) if (!fin[i]) w += fmt(" %s%d", q[i]->send ? "s" : "r", q[i]->send ? q[i]->dst : q[i]->src); yield_blocked(w); } }
  return 0;
}
static int waitany_(int n, MPI_Request *r, int *idx, MPI_Status *st, u64 pc) {
  enter(); ev_point(true); cur->nvepoch++, cur->sepoch++; vector<Req *> q; bool act = false; for (int i = 0; i < n; i++) { q.push_back(get(r[i], pc)); if (q[i] && q[i]->active) act = true; }
  if (!act) { *idx = MPI_UNDEFINED; setstatus(st, nullptr); return 0; }
  vector<int> c; bool low = false;
  while (1) { c.clear(); for (int i = 0; i < n; i++) if (q[i] && q[i]->active && completable(q[i])) c.push_back(i); if (V.anylate && !low) { low = true; yield_low("waitany-late"); continue; } if (!c.empty()) break; yield_blocked("waitany"); low = false; }
  if (V.pol == DESC) std::reverse(c.begin(), c.end());
  int k = c[c.size() > 1 ? choose(c.size(), "waitany") : 0]; *idx = k; finish(&r[k], q[k], st); return 0;
}
int PMPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st) { return waitany_(n, r, idx, st, PC); }
int PMPI_Waitsome(int n, MPI_Request *r, int *oc, int *idx, MPI_Status *st) { int k; waitany_(n, r, &k, st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st, PC); if (k == MPI_UNDEFINED) *oc = MPI_UNDEFINED; else { *oc = 1; idx[0] = k; } return 0; }
static bool may_complete(const vector<Req *> &q, bool all) { bool ok = all; bool anyact = false; for (auto *x : q) { if (x && x->active) anyact = true; bool c = completable(x); if (all) ok &= c; else if (x && x->active) ok |= c; } if (!ok) return false; if (!anyact) return true; return choose(2, "test") == 0; }
int PMPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *st) { enter(); cur->nvepoch++, cur->sepoch++; vector<Req *> q; for (int i = 0; i < n; i++) q.push_back(get(r[i], PC)); if (!may_complete(q, true)) { *flag = 0; fruitless_step("Testall"); return 0; } *flag = 1; for (int i = 0; i < n; i++) finish(&r[i], q[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i); return 0; }
int PMPI_Test(MPI_Request *r, int *flag, MPI_Status *st) { enter(); cur->nvepoch++, cur->sepoch++; Req *q = get(*r, PC); if (!q) { *flag = 1; setstatus(st, nullptr); return 0; } if (!may_complete({q}, true)) { *flag = 0; fruitless_step("Test"); return 0; } *flag = 1; finish(r, q, st); return 0; }
int PMPI_Testany(int n, MPI_Request *r, int *idx, int *flag, MPI_Status *st) { enter(); cur->nvepoch++, cur->sepoch++; bool act = false; for (int i = 0; i < n; i++) { Req *q = get(r[i], PC); if (q && q->active) { act = true; if (completable(q)) { *flag = 1; *idx = i; finish(&r[i], q, st); return 0; } } } *idx = MPI_UNDEFINED; *flag = !act; fruitless_step("Testany"); return 0; }
int PMPI_Testsome(int n, MPI_Request *r, int *oc, int *idx, MPI_Status *st) { int k, f; PMPI_Testany(n, r, &k, &f, st); if (f && k == MPI_UNDEFINED) *oc = MPI_UNDEFINED; else if (f) { *oc = 1; idx[0] = k; } else *oc = 0; return 0; }
int PMPI_Request_free(MPI_Request *r) { enter(); Req *q = get(*r, PC); if (!q) { violation("MPI_REQUEST", cur->rank, "MPI_Request_free on MPI_REQUEST_NULL", PC, true); } if (q->active) violation("MPI_REQUEST", cur->rank, "MPI_Request_free on an active point-to-point request", PC); unpub(r); progress_made(); return 0; }
int PMPI_Request_get_status(MPI_Request r, int *flag, MPI_Status *st) { enter(); Req *q = get(r, PC); *flag = completable(q); if (!*flag) fruitless_step("Request_get_status"); setstatus(st, nullptr); return 0; }
int PMPI_Cancel(MPI_Request *) { return 0; }
int PMPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request r = pub(post(true, b, n, t, d, tag, c, false, PC)); return PMPI_Wait(&r, MPI_STATUS_IGNORE); }
int PMPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return PMPI_Send(b, n, t, d, tag, c); }
int PMPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { MPI_Request r = pub(post(false, b, n, t, s, tag, c, false, PC)); return PMPI_Wait(&r, st); }
int PMPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *sts) { MPI_Request r[2]; r[0] = pub(post(false, rb, rn, rt, s, rtag, c, false, PC)); r[1] = pub(post(true, sb, sn, st, d, stag, c, false, PC)); MPI_Status s2[2]; PMPI_Waitall(2, r, s2); if (sts != MPI_STATUS_IGNORE) *sts = s2[0]; return 0; }
int PMPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *c) { *c = st->_ucount / tsize(t); return 0; }
} // extern C

// ------------------------------------------------------------------ collectives
enum { K_BARRIER = 1, K_BCAST, K_GATHER, K_GATHERV, K_SCATTER, K_SCATTERV, K_REDUCE, K_ALLREDUCE, K_ALLGATHER, K_ALLGATHERV, K_RS, K_RSB, K_ALLTOALL, K_SPLIT, K_DUP, K_SPLITTYPE, K_CREATE };
static const char *kname[] = {"", "Barrier", "Bcast", "Gather", "Gatherv", "Scatter", "Scatterv", "Reduce", "Allreduce", "Allgather", "Allgatherv", "Reduce_scatter", "Reduce_scatter_block", "Alltoall", "Comm_split", "Comm_dup", "Comm_split_type", "Comm_create"};
static vector<std::pair<char *, u64>> *putlog;
// wrongref=<rank>:<byte>:<total>: the first data collective of operation 0's kind that leaves <total> bytes on that rank during a creation leaves one byte different (with :<byte2>: two words exchanged)
bool injected, injecting;
static bool same_kind(int kind, const string &c) { switch (kind) { case K_BCAST: return c == "bcast"; case K_GATHER: case K_GATHERV: return c.compare(0, 6, "gather") == 0; case K_SCATTERV: case K_SCATTER: return c.compare(0, 7, "scatter") == 0; case K_REDUCE: return c == "reduce"; case K_ALLREDUCE: return c == "allreduce"; case K_ALLGATHER: case K_ALLGATHERV: return c.compare(0, 9, "allgather") == 0; case K_RS: case K_RSB: return c.compare(0, 14, "reduce_scatter") == 0; } return false; }
// joins a collective; returns once this rank may leave it.  fin runs with the slot when data is available
static void coll(MPI_Comm c, int kind, int root, const void *in, u64 inbytes, const vector<int> &ints, u64 pc, const std::function<void(Coll &, Ctx *, int)> &fin) {
  enter(); CommH *h = H(c, pc); Ctx *x = h->ctx; int me = idx_in(x, cur->rank), n = x->mem.size(); u64 s = x->seq[cur->rank]++;
  if (root >= n || root < -1) { violation("MPI_RANK", cur->rank, fmt("invalid root %d in %s", root, kname[kind]), pc, true); }
  vector<char> d; if (in && inbytes) { access_range((u64)in, inbytes, false, pc, "coll"); d.assign((const char *)in, (const char *)in + inbytes); }
  ev_point(true); cur->nvepoch++, cur->sepoch++;
  Coll &L = x->colls[s];
  if (L.arr.empty()) { L.kind = kind; L.root = root; L.arr.resize(n, 0); L.vc.resize(n); L.data.resize(n); L.ints.resize(n); L.nleft = n; }
  if (L.kind != kind || L.root != root) violation("COLL_MISMATCH", cur->rank, fmt("collective mismatch on %s: %s(root %d) vs %s(root %d)", x->how.c_str(), kname[kind], root, kname[L.kind], L.root), pc, true);
  L.arr[me] = 1; L.narr++; L.vc[me] = cur->vc; cur->vc[cur->rank]++; L.data[me] = d; L.ints[me] = ints; progress_made();
  bool weak = V.weakcoll;
  auto ready = [&] {
    if (L.narr == n) return true; if (!weak) return false;
    switch (kind) { case K_BCAST: case K_SCATTER: case K_SCATTERV: return L.arr[L.root] == 1; case K_GATHER: case K_GATHERV: case K_REDUCE: return me != L.root; default: return false; }
  };
  while (!ready()) yield_blocked(fmt("%s on %s#%d seq %llu", kname[kind], x->how.c_str(), x->id, (unsigned long long)s));
  switch (kind) { case K_BCAST: case K_SCATTER: case K_SCATTERV: cur->vc.join(L.vc[L.root]); break; case K_GATHER: case K_GATHERV: case K_REDUCE: if (me == L.root) for (auto &v : L.vc) cur->vc.join(v); break; default: for (auto &v : L.vc) cur->vc.join(v); }
  if (fin && injecting && !injected && same_kind(kind, C.ops[0].coll) && C.kv.count("wrongref")) {
    int wr = -1; unsigned long long off = 0, want = 0, off2 = -1ull; sscanf(C.get("wrongref").c_str(), "%d:%llu:%llu:%llu", &wr, &off, &want, &off2); vector<std::pair<char *, u64>> log; u64 tot = 0; if (wr == cur->rank) putlog = &log; fin(L, x, me); putlog = nullptr; for (auto &p : log) tot += p.second;
    if (!log.empty() && tot == want) {
      auto at = [&](u64 o) { for (auto &p : log) { if (o < p.second) return p.first + o; o -= p.second; } return (char *)nullptr; };
      if (off2 == -1ull) { *at(off) ^= 1; injected = true; }
      else if (off2 + 8 <= want) { char t[8]; memcpy(t, at(off), 8); memcpy(at(off), at(off2), 8); memcpy(at(off2), t, 8); injected = true; }
    }
  } else if (fin) fin(L, x, me);
  cur->nvepoch++, cur->sepoch++; if (--L.nleft == 0) x->colls.erase(s);
}
static void put(void *p, const void *s, u64 n, u64 pc) { if (!n) return; access_range((u64)p, n, true, pc, "coll"); enter(); memmove(p, s, n); if (putlog) putlog->push_back({(char *)p, n}); }
template <class T> static void red(T *a, const T *b, u64 n, MPI_Op op) { for (u64 i = 0; i < n; i++) a[i] = op == MPI_SUM ? a[i] + b[i] : op == MPI_MAX ? std::max(a[i], b[i]) : op == MPI_MIN ? std::min(a[i], b[i]) : op == MPI_PROD ? a[i] * b[i] : op == MPI_LAND ? (a[i] && b[i]) : op == MPI_LOR ? (a[i] || b[i]) : a[i]; }
static void reduce_into(vector<char> &a, const vector<char> &b, MPI_Datatype t, MPI_Op op, u64 pc) {
  u64 n = std::min(a.size(), b.size()); if (!n) return;
  if (t == MPI_INT || t == MPI_INT32_T) red((int *)a.data(), (const int *)b.data(), n / 4, op); else if (t == MPI_LONG || t == MPI_LONG_LONG_INT || t == MPI_INT64_T) red((long *)a.data(), (const long *)b.data(), n / 8, op);
  else if (t == MPI_FLOAT) red((float *)a.data(), (const float *)b.data(), n / 4, op); else if (t == MPI_DOUBLE) red((double *)a.data(), (const double *)b.data(), n / 8, op); else if (t == MPI_CHAR || t == MPI_BYTE) red(a.data(), b.data(), n, op);
  else if (t == MPI_UNSIGNED) red((unsigned *)a.data(), (const unsigned *)b.data(), n / 4, op);
  else if (t == MPI_UNSIGNED_LONG) red((unsigned long *)a.data(), (const unsigned long *)b.data(), n / 8, op);
  else violation("MPI_TYPE", cur->rank, "reduction on an unsupported datatype", pc, true);
}
static vector<char> reduceall(Coll &L, MPI_Datatype t, MPI_Op op, u64 pc) { vector<char> a = L.data[0]; for (size_t i = 1; i < L.data.size(); i++) reduce_into(a, L.data[i], t, op, pc); return a; }
extern "C" {
int PMPI_Barrier(MPI_Comm c) { coll(c, K_BARRIER, -1, nullptr, 0, {}, PC, nullptr); return 0; }
int PMPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { u64 pc = PC; CommH *h = H(c, pc); int me = idx_in(h->ctx, cur->rank); u64 by = (u64)n * typ(t, pc); coll(c, K_BCAST, root, me == root ? b : nullptr, by, {}, pc, [&](Coll &L, Ctx *, int me) { if (me != L.root) { if (L.data[L.root].size() != by) violation("COLL_MISMATCH", cur->rank, fmt("Bcast sizes differ: root %zu, here %llu bytes", L.data[L.root].size(), (unsigned long long)by), pc); put(b, L.data[L.root].data(), std::min<u64>(by, L.data[L.root].size()), pc); } }); return 0; }
int PMPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { u64 pc = PC; u64 by = (u64)n * typ(t, pc); coll(c, K_ALLREDUCE, -1, s == MPI_IN_PLACE ? r : s, by, {n}, pc, [&](Coll &L, Ctx *, int) { for (auto &d : L.data) if (d.size() != by) { violation("COLL_MISMATCH", cur->rank, "Allreduce counts differ", pc); break; } auto a = reduceall(L, t, op, pc); put(r, a.data(), std::min<u64>(a.size(), by), pc); }); return 0; }
int PMPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { u64 pc = PC; u64 by = (u64)n * typ(t, pc); coll(c, K_REDUCE, root, s == MPI_IN_PLACE ? r : s, by, {n}, pc, [&](Coll &L, Ctx *, int me) { if (me == L.root) { auto a = reduceall(L, t, op, pc); put(r, a.data(), std::min<u64>(a.size(), by), pc); } }); return 0; }
int PMPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { u64 pc = PC; u64 by = (u64)n * typ(t, pc); coll(c, K_GATHER, root, s, by, {}, pc, [&](Coll &L, Ctx *, int me) { if (me == L.root) { u64 rb = (u64)rn * tsize(rt); for (size_t i = 0; i < L.data.size(); i++) { if (L.data[i].size() != rb) violation("COLL_MISMATCH", cur->rank, "Gather sizes differ", pc); put((char *)r + i * rb, L.data[i].data(), std::min<u64>(rb, L.data[i].size()), pc); } } }); return 0; }
int PMPI_Gatherv(const void *s, int n, MPI_Datatype t, void *r, const int *rc, const int *ds, MPI_Datatype rt, int root, MPI_Comm c) { u64 pc = PC; u64 by = (u64)n * typ(t, pc); coll(c, K_GATHERV, root, s, by, {}, pc, [&](Coll &L, Ctx *, int me) { if (me == L.root) { u64 es = tsize(rt); for (size_t i = 0; i < L.data.size(); i++) { if (L.data[i].size() != rc[i] * es) violation("COLL_MISMATCH", cur->rank, "Gatherv sizes differ", pc); put((char *)r + (i64)ds[i] * (i64)es, L.data[i].data(), std::min<u64>(rc[i] * es, L.data[i].size()), pc); } } }); return 0; }
int PMPI_Scatterv(const void *s, const int *sc, const int *ds, MPI_Datatype t, void *r, int n, MPI_Datatype rt, int root, MPI_Comm c) {
  u64 pc = PC; CommH *h = H(c, pc); int me = idx_in(h->ctx, cur->rank), sz = h->ctx->mem.size(); vector<char> pack; vector<int> ii;
  if (me == root) { u64 es = typ(t, pc); for (int i = 0; i < sz; i++) { if (sc[i]) access_range((u64)((char *)s + (i64)ds[i] * (i64)es), sc[i] * es, false, pc, "coll"); ii.push_back(sc[i] * es); pack.insert(pack.end(), (char *)s + ds[i] * es, (char *)s + (ds[i] + sc[i]) * es); } }
  coll(c, K_SCATTERV, root, me == root ? pack.data() : nullptr, pack.size(), ii, pc, [&](Coll &L, Ctx *, int m) { u64 off = 0; for (int i = 0; i < m; i++) off += L.ints[L.root][i]; u64 by = (u64)n * tsize(rt), have = L.ints[L.root][m]; if (by != have) violation("COLL_MISMATCH", cur->rank, "Scatterv sizes differ", pc); put(r, L.data[L.root].data() + off, std::min(by, have), pc); });
  return 0;
}
int PMPI_Scatter(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { CommH *h = H(c, PC); int sz = h->ctx->mem.size(); vector<int> sc(sz, n), ds(sz); for (int i = 0; i < sz; i++) ds[i] = i * n; return PMPI_Scatterv(s, sc.data(), ds.data(), t, r, rn, rt, root, c); }
int PMPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, MPI_Comm c) { u64 pc = PC; CommH *h = H(c, pc); int me = idx_in(h->ctx, cur->rank); u64 rb = (u64)rn * typ(rt, pc); const void *in = s; u64 by; if (s == MPI_IN_PLACE) { in = (char *)r + me * rb; by = rb; } else by = (u64)n * typ(t, pc); coll(c, K_ALLGATHER, -1, in, by, {}, pc, [&](Coll &L, Ctx *, int) { for (size_t i = 0; i < L.data.size(); i++) { if (L.data[i].size() != rb) violation("COLL_MISMATCH", cur->rank, "Allgather sizes differ", pc); put((char *)r + i * rb, L.data[i].data(), std::min<u64>(rb, L.data[i].size()), pc); } }); return 0; }
int PMPI_Allgatherv(const void *s, int n, MPI_Datatype t, void *r, const int *rc, const int *ds, MPI_Datatype rt, MPI_Comm c) { u64 pc = PC; u64 by = (u64)n * typ(t, pc); u64 es = typ(rt, pc); const void *in = s; if (s == MPI_IN_PLACE) { CommH *h = H(c, pc); int me = idx_in(h->ctx, cur->rank); in = (char *)r + ds[me] * es; by = rc[me] * es; } coll(c, K_ALLGATHERV, -1, in, by, {}, pc, [&](Coll &L, Ctx *, int) { for (size_t i = 0; i < L.data.size(); i++) { if (L.data[i].size() != rc[i] * es) violation("COLL_MISMATCH", cur->rank, "Allgatherv sizes differ", pc); put((char *)r + (i64)ds[i] * (i64)es, L.data[i].data(), std::min<u64>(rc[i] * es, L.data[i].size()), pc); } }); return 0; }
int PMPI_Reduce_scatter(const void *s, void *r, const int *rc, MPI_Datatype t, MPI_Op op, MPI_Comm c) { u64 pc = PC; CommH *h = H(c, pc); int sz = h->ctx->mem.size(); u64 es = typ(t, pc), tot = 0; for (int i = 0; i < sz; i++) tot += rc[i]; coll(c, K_RS, -1, s == MPI_IN_PLACE ? r : s, tot * es, {}, pc, [&](Coll &L, Ctx *, int me) { auto a = reduceall(L, t, op, pc); u64 off = 0; for (int i = 0; i < me; i++) off += rc[i]; put(r, a.data() + off * es, rc[me] * es, pc); }); return 0; }
int PMPI_Reduce_scatter_block(const void *s, void *r, int rc, MPI_Datatype t, MPI_Op op, MPI_Comm c) { CommH *h = H(c, PC); vector<int> v(h->ctx->mem.size(), rc); return PMPI_Reduce_scatter(s, r, v.data(), t, op, c); }
int PMPI_Alltoall(const void *s, int n, MPI_Datatype t, void *r, int, MPI_Datatype, MPI_Comm c) { u64 pc = PC; CommH *h = H(c, pc); u64 by = (u64)n * typ(t, pc); int sz = h->ctx->mem.size(); coll(c, K_ALLTOALL, -1, s, by * sz, {}, pc, [&](Coll &L, Ctx *, int me) { for (int i = 0; i < sz; i++) put((char *)r + i * by, L.data[i].data() + me * by, by, pc); }); return 0; }

int PMPI_Comm_size(MPI_Comm c, int *s) { enter(); *s = H(c, PC)->ctx->mem.size(); return 0; }
int PMPI_Comm_rank(MPI_Comm c, int *r) { enter(); CommH *h = H(c, PC); *r = idx_in(h->ctx, cur->rank); return 0; }
static void split(MPI_Comm c, int kind, int color, int key, MPI_Comm *nc, u64 pc) {
  coll(c, kind, -1, nullptr, 0, {color, key}, pc, [&](Coll &L, Ctx *x, int) {
    if (color == MPI_UNDEFINED) { *nc = MPI_COMM_NULL; return; }
    if (!L.made.count(color)) { vector<std::pair<int, int>> v; for (size_t i = 0; i < L.ints.size(); i++) if (L.ints[i][0] == color) v.push_back({L.ints[i][1], (int)i}); std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; }); vector<int> mem; for (auto &p : v) mem.push_back(x->mem[p.second]); L.made[color] = new_ctx(mem, kname[kind]); }
    *nc = mkhandle(L.made[color]); });
}
int PMPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *nc) { split(c, K_SPLIT, color, key, nc, PC); return 0; }
int PMPI_Comm_dup(MPI_Comm c, MPI_Comm *nc) { H(c, PC); int me = idx_in(H(c, PC)->ctx, cur->rank); split(c, K_DUP, 0, me, nc, PC); return 0; }
int PMPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm *nc) { split(c, K_SPLITTYPE, C.nodeof[cur->rank], key, nc, PC); return 0; }
int PMPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *nc) { vector<int> *v = (vector<int> *)g; int k = -1; for (size_t i = 0; i < v->size(); i++) if ((*v)[i] == cur->rank) k = i; split(c, K_CREATE, k < 0 ? MPI_UNDEFINED : 0, k, nc, PC); return 0; }
int PMPI_Comm_free(MPI_Comm *c) { enter(); CommH *h = H(*c, PC); if (h == &worldh[cur->rank]) violation("MPI_COMM", cur->rank, "MPI_Comm_free(MPI_COMM_WORLD)", PC, true); h->freed = true; h->ctx->nfreed++; if (C.geti("commreuse", 0)) freedcomms[cur->rank].push_back(h); *c = MPI_COMM_NULL; return 0; }
int PMPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { *r = a == b ? MPI_IDENT : MPI_CONGRUENT; return 0; }
int PMPI_Type_size(MPI_Datatype t, int *s) { *s = typ(t, PC); if (t == MPI_LONG_INT || t == MPI_DOUBLE_INT) *s = 12; return 0; }
double PMPI_Wtime() { enter(); Fiber *f = cur; int k = f->nwt++; int p = C.geti("wt", 0);
  // scripted clock: interval number "wt" (between successive calls) is short, every other one is long
  f->wt += (p > 0 && (k % C.geti("wtper", 1000000)) == p) ? 0.001 : 1.0 + 0.01 * C.geti("wtrank", 0) * f->rank; return f->wt; }
int PMPI_Init(int *, char ***) { enter(); ensure_world(); return 0; }
int PMPI_Init_thread(int *, char ***, int r, int *p) { enter(); ensure_world(); *p = r; return 0; }
int PMPI_Initialized(int *f) { *f = 1; return 0; }
int PMPI_Finalize() { PMPI_Barrier(MPI_COMM_WORLD); return 0; }
int PMPI_Abort(MPI_Comm, int c) { violation("EXIT", cur->rank, fmt("MPI_Abort(%d)", c), PC, true); return 0; }
int PMPI_Info_get(MPI_Info i, const char *k, int len, char *v, int *flag) { enter(); *flag = 0; if (i == MPI_INFO_NULL) return 0; Info *x = (Info *)i; if (x->magic != M_INFO) { violation("MPI_INFO", cur->rank, "invalid info handle", PC, true); } auto it = x->kv.find(k); if (it == x->kv.end()) return 0; *flag = 1; string s = it->second.substr(0, len); access_range((u64)v, s.size() + 1, true, PC, "info"); memcpy(v, s.c_str(), s.size() + 1); return 0; }
int PMPI_Info_get_valuelen(MPI_Info i, const char *k, int *len, int *flag) { *flag = 0; if (i == MPI_INFO_NULL) return 0; Info *x = (Info *)i; auto it = x->kv.find(k); if (it == x->kv.end()) return 0; *flag = 1; *len = it->second.size(); return 0; }
int PMPI_Get_processor_name(char *n, int *l) { string s = fmt("node%d", C.nodeof[cur->rank]); strcpy(n, s.c_str()); *l = s.size(); return 0; }
int PMPI_Comm_group(MPI_Comm c, MPI_Group *g) { *g = (MPI_Group) new vector<int>(H(c, PC)->ctx->mem); return 0; }
int PMPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *ng) { vector<int> *v = (vector<int> *)g, *w = new vector<int>; for (int i = 0; i < n; i++) w->push_back((*v)[r[i]]); *ng = (MPI_Group)w; return 0; }
int PMPI_Group_free(MPI_Group *g) { *g = MPI_GROUP_NULL; return 0; }
int PMPI_Iprobe(int, int, MPI_Comm, int *f, MPI_Status *) { *f = 0; return 0; }
#define ALIAS(x) __asm__(".globl MPI_" #x "\n.set MPI_" #x ", PMPI_" #x "\n");
ALIAS(Isend) ALIAS(Irecv) ALIAS(Recv_init) ALIAS(Send_init) ALIAS(Start) ALIAS(Startall) ALIAS(Wait) ALIAS(Waitall) ALIAS(Waitany) ALIAS(Waitsome) ALIAS(Testall) ALIAS(Test) ALIAS(Testany) ALIAS(Testsome) ALIAS(Request_free) ALIAS(Request_get_status) ALIAS(Cancel)
ALIAS(Send) ALIAS(Ssend) ALIAS(Recv) ALIAS(Sendrecv) ALIAS(Get_count) ALIAS(Barrier) ALIAS(Bcast) ALIAS(Allreduce) ALIAS(Reduce) ALIAS(Gather) ALIAS(Gatherv) ALIAS(Scatterv) ALIAS(Scatter) ALIAS(Allgather) ALIAS(Allgatherv) ALIAS(Reduce_scatter) ALIAS(Reduce_scatter_block) ALIAS(Alltoall)
ALIAS(Comm_size) ALIAS(Comm_rank) ALIAS(Comm_split) ALIAS(Comm_dup) ALIAS(Comm_split_type) ALIAS(Comm_create) ALIAS(Comm_free) ALIAS(Comm_compare) ALIAS(Type_size) ALIAS(Wtime) ALIAS(Init) ALIAS(Init_thread) ALIAS(Initialized) ALIAS(Finalize) ALIAS(Abort) ALIAS(Info_get) ALIAS(Info_get_valuelen) ALIAS(Get_processor_name) ALIAS(Comm_group) ALIAS(Group_incl) ALIAS(Group_free) ALIAS(Iprobe)
} // extern C
MPI_Info make_info(const map<string, string> &kv) { Info *i = new Info{M_INFO, kv}; return (MPI_Info)i; }
void fill_info(MPI_Info i, const map<string, string> &kv) { Info *x = (Info *)i; x->kv = kv; }
void kill_info(MPI_Info i) { Info *x = (Info *)i; x->kv.clear(); x->magic = 0; }   // freed by the user
void check_mpi_end() {
  for (auto *x : ctxs) { for (auto &p : x->sends) if (!p.second.empty()) { violation("MPI_UNMATCHED", p.second[0]->rank, fmt("%zu sent message(s) never received", p.second.size()), p.second[0]->pc); break; } for (auto &p : x->recvs) if (!p.second.empty()) { violation("MPI_UNMATCHED", p.second[0]->rank, fmt("%zu posted receive(s) never matched", p.second.size()), p.second[0]->pc); break; } if (!x->colls.empty()) violation("COLL_MISMATCH", -1, "collective entered by only some ranks"); }
  for (auto *q : allreq) if (q->active) { violation("MPI_PENDING", q->rank, "point-to-point request never completed (waited for)", q->pc); break; }
}
