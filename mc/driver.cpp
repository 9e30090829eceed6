// Configurations, reference model and the per-rank driver programs.
#include <sys/mman.h>
#include <dlfcn.h>
#include "vm.h"
#include <math.h>
static vector<string> splits(const string &s, char d) { vector<string> v; size_t i = 0; while (i <= s.size()) { size_t j = s.find(d, i); if (j == string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
static vector<int> ints(const string &s) { vector<int> v; if (s.empty()) return v; for (auto &x : splits(s, ',')) v.push_back(atoi(x.c_str())); return v; }
// history shorthand: "[a.b]*3" repeats, "i0-5" runs over the operations (step 1, also downwards: "f5-0")
static vector<string> expand(const string &h) {
  vector<string> out, rep; bool in = false;
  for (string t : splits(h, '.')) {
    if (!t.empty() && t[0] == '[') { in = true; rep.clear(); t = t.substr(1); }
    size_t e = t.find("]*"); int m = 0; if (e != string::npos) { m = atoi(t.c_str() + e + 2); t = t.substr(0, e); }
    vector<string> &o = in ? rep : out; size_t d = t.find('-');
    if (d != string::npos && d > 1 && strchr("iswfp", t[0])) { int a = atoi(t.c_str() + 1), b = atoi(t.c_str() + d + 1); for (int k = a;; k += a <= b ? 1 : -1) { o.push_back(t[0] + std::to_string(k)); if (k == b) break; } }
    else o.push_back(t);
    if (m) { in = false; for (int k = 0; k < m; k++) for (auto &x : rep) out.push_back(x); }
  }
  return out;
}
static string deund(string s) { for (char &c : s) if (c == '_') c = ' '; return s; }
bool parse_config(const string &line, Config &c) {
  c = Config(); c.line = line; for (auto &t : splits(line, ' ')) { if (t.empty()) continue; size_t e = t.find('='); if (e == string::npos) return false; c.kv[t.substr(0, e)] = t.substr(e + 1); }
  c.n = c.geti("n", 2); if (c.n < 1 || c.n > NRANKS_MAX) return false;
  int ppn = c.geti("ppn", c.n); vector<int> nd = ints(c.get("nodes"));
  if (nd.empty()) for (int i = 0; i < c.n; i++) c.nodeof.push_back(i / ppn); else { for (size_t k = 0; k < nd.size(); k++) for (int j = 0; j < nd[k]; j++) c.nodeof.push_back(k); if ((int)c.nodeof.size() != c.n) return false; }
  int nops = c.geti("ops", 1);
  for (int i = 0; i < nops; i++) {
    auto g = [&](const string &k, const string &d) { string v = c.get(k + std::to_string(i)); return v.empty() ? c.get(k, d) : v; };
    OpSpec o; o.coll = g("coll", "allreduce"); o.type = g("type", "int"); o.count = atoi(g("count", "4").c_str()); o.counts = ints(g("counts", "")); o.displs = ints(g("displs", "")); o.root = atoi(g("root", "0").c_str()); o.inplace = g("inplace", "0") == "1"; o.comm = g("comm", "world"); o.nullrecv = g("nullrecv", "0") == "1"; o.data = g("data", "hash"); o.algn = atoi(g("algn", "0").c_str()); o.keep = g("keep", "0") == "1";
    c.ops.push_back(o);
  }
  string h = c.get("h", "");
  if (h.empty()) { h = "i0.|"; int r = c.geti("rounds", 3); for (int i = 0; i < r; i++) h += ".s0.w0"; h += ".f0"; }
  for (int r = 0; r < c.n; r++) { string hr = c.get("h@" + std::to_string(r)); c.hist.push_back(expand(hr.empty() ? h : hr)); }
  map<string, string> P; const char *keys[][3] = {{"sockets", "EXT_MPI_NUM_SOCKETS_PER_NODE", "ext_mpi_num_sockets_per_node"}, {"tps", "EXT_MPI_NUM_TASKS_PER_SOCKET", "ext_mpi_num_tasks_per_socket"}, {"ports", "EXT_MPI_NUM_PORTS", "ext_mpi_num_ports"}, {"copyin", "EXT_MPI_COPYIN", "ext_mpi_copyin"}, {"alt", "EXT_MPI_ALTERNATING", "ext_mpi_alternating"}, {"notrec", "EXT_MPI_NOT_RECURSIVE", "ext_mpi_not_recursive"}, {"mincomp", "", "ext_mpi_minimum_computation"}, {"bitid", "", "ext_mpi_bit_identical"}, {"bitrep", "", "ext_mpi_bit_reproducible"}};
  c.useinfo = c.get("via") == "info";
  for (auto &k : keys) if (c.kv.count(k[0])) { string v = deund(c.kv[k[0]]); if (c.useinfo || !*k[1]) c.info[k[2]] = v; else c.env[k[1]] = v; }
  for (auto &kv : c.kv) if (kv.first.size() > 3 && kv.first[0] == 'i' && isdigit(kv.first[1])) { size_t e = kv.first.find(':'); if (e != string::npos) for (auto &k : keys) if (kv.first.substr(e + 1) == k[0]) c.opinfo[atoi(kv.first.c_str() + 1)][k[2]] = deund(kv.second); }   // i<op>:<key>=<value>
  c.debug = c.geti("debug", 0); if (c.kv.count("blocking")) c.env["EXT_MPI_BLOCKING"] = "1"; if (c.kv.count("verbose")) c.env["EXT_MPI_VERBOSE"] = "1";
  for (auto &k : c.kv) if (k.first.compare(0, 4, "env:") == 0) c.env[k.first.substr(4)] = deund(k.second);
  return true;
}

// ------------------------------------------------------------ data
static u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
static int esz(const string &t) { return t == "long" || t == "double" ? 8 : t == "char" ? 1 : 4; }
static MPI_Datatype dt(const string &t) { return t == "int" ? MPI_INT : t == "long" ? MPI_LONG : t == "float" ? MPI_FLOAT : t == "char" ? MPI_CHAR : MPI_DOUBLE; }
static void val(const OpSpec &o, int op, int round, int rank, u64 i, char *out) {
  if (C.geti("samedata", 0)) round = 0;
  u64 h = mix(((u64)(op + 1) << 56) ^ ((u64)(round + 3) << 44) ^ ((u64)(rank + 1) << 32) ^ (i + 1)); u64 v = (h % ((1 << 20) - 1)) + 1, w = (h >> 32) % (1 << 20);
  if (o.data == "nonassoc") { // magnitudes that make float/double sums order dependent
    double m = (double)v * pow(2.0, (int)(w % 40) - 20) * ((w >> 8) & 1 ? -1 : 1); if (o.type == "float") { float f = m; memcpy(out, &f, 4); } else { memcpy(out, &m, 8); } return; }
  if (o.data == "extreme") { if (o.type == "int") { int x = (int)(u32)h; memcpy(out, &x, 4); return; } if (o.type == "long") { memcpy(out, &h, 8); return; } }
  if (o.type == "int") { int x = v; memcpy(out, &x, 4); } else if (o.type == "long") { long x = (long)v + ((long)w << 33); memcpy(out, &x, 8); } else if (o.type == "float") { float x = v; memcpy(out, &x, 4); } else if (o.type == "char") { char x = v; *out = x; } else { double x = (double)v + (double)w / (1 << 21); memcpy(out, &x, 8); }
}
static void addv(const string &t, char *a, const char *b) { if (t == "int") { u32 x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); x += y; memcpy(a, &x, 4); } else if (t == "long") { u64 x, y; memcpy(&x, a, 8); memcpy(&y, b, 8); x += y; memcpy(a, &x, 8); } else if (t == "float") { float x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); x += y; memcpy(a, &x, 4); } else { double x, y; memcpy(&x, a, 8); memcpy(&y, b, 8); x += y; memcpy(a, &x, 8); } }

struct CommInfo { MPI_Comm c; vector<int> mem; int me; };
static map<std::pair<int, string>, CommInfo> comms;   // per rank
static vector<vector<OpState>> S;   // [rank][op]
static map<std::pair<int, string>, void *> symcache;
template <class T> static T fn(const char *n) { auto k = std::make_pair(cur->rank, string(n)); auto i = symcache.find(k); void *p = i == symcache.end() ? (symcache[k] = libsym(cur->rank, n)) : i->second; if (!p) p = dlsym(RTLD_DEFAULT, n); if (!p) violation("INTERNAL", cur->rank, string("library does not export ") + n, 0, true); return (T)p; }
// communicators through the MPI library itself or through the library's wrappers (commvia=lib: C names, commvia=f08: Fortran names), by the function that fits the name
static void lib_comm(const string &name, vector<int> &col, vector<int> &key, MPI_Comm *c) {
  string via = C.get("commvia"); int r = 0, me = cur->rank, *ierr = via == "f08" ? &r : nullptr; MPI_Comm w = MPI_COMM_WORLD;
  if (via != "lib" && via != "f08") { PMPI_Comm_split(w, col[me], key[me], c); return; }
  r = ierr ? -1 : 0; cur->phase = "creating communicator " + name;
  if (name == "dup" || name == "dup2") { if (ierr) fn<void (*)(MPI_Comm *, MPI_Comm *, int *)>("mpi_comm_dup_f08_")(&w, c, ierr); else r = fn<int (*)(MPI_Comm, MPI_Comm *)>("MPI_Comm_dup")(w, c); }
  else if (name == "node") { int t = MPI_COMM_TYPE_SHARED; MPI_Info i = MPI_INFO_NULL; if (ierr) fn<void (*)(MPI_Comm *, int *, int *, MPI_Info *, MPI_Comm *, int *)>("mpi_comm_split_type_f08_")(&w, &t, &key[me], &i, c, ierr); else r = fn<int (*)(MPI_Comm, int, int, MPI_Info, MPI_Comm *)>("MPI_Comm_split_type")(w, t, key[me], i, c); }
  else if (name.compare(0, 4, "sub:") == 0) { auto v = ints(name.substr(4)); MPI_Group g, h; PMPI_Comm_group(w, &g); PMPI_Group_incl(g, v.size(), v.data(), &h); if (ierr) fn<void (*)(MPI_Comm *, MPI_Group *, MPI_Comm *, int *)>("mpi_comm_create_f08_")(&w, &h, c, ierr); else r = fn<int (*)(MPI_Comm, MPI_Group, MPI_Comm *)>("MPI_Comm_create")(w, h, c); PMPI_Group_free(&g); PMPI_Group_free(&h); }
  else if (ierr) fn<void (*)(MPI_Comm *, int *, int *, MPI_Comm *, int *)>("mpi_comm_split_f08_")(&w, &col[me], &key[me], c, ierr); else r = fn<int (*)(MPI_Comm, int, int, MPI_Comm *)>("MPI_Comm_split")(w, col[me], key[me], c);
  enter(); if (r) violation("RET", me, "creating a communicator failed or did not set the error argument");
}
static void lib_comm_free(MPI_Comm *c) {
  string via = C.get("commvia"); if (via == "f08") { int e = -1; fn<void (*)(MPI_Comm *, int *)>("mpi_comm_free_f08_")(c, &e); enter(); if (e) violation("RET", cur->rank, "mpi_comm_free_f08_ did not set the error argument"); }
  else if (via == "lib") fn<int (*)(MPI_Comm *)>("MPI_Comm_free")(c); else PMPI_Comm_free(c);
  if (*c != MPI_COMM_NULL) violation("RET", cur->rank, "freeing a communicator did not reset the handle");
}
static CommInfo &getcomm(const string &name) {
  auto k = std::make_pair(cur->rank, name); auto i = comms.find(k); if (i != comms.end()) return i->second;
  CommInfo ci; vector<int> col(N, 0), key(N); for (int r = 0; r < N; r++) key[r] = r;
  if (name == "world") ci.c = MPI_COMM_WORLD;
  else {
    if (name == "dup" || name == "dup2") ; else if (name == "node") for (int r = 0; r < N; r++) col[r] = C.nodeof[r]; else if (name == "evenodd") for (int r = 0; r < N; r++) col[r] = r % 2; else if (name == "halves") for (int r = 0; r < N; r++) col[r] = r >= (N + 1) / 2; else if (name == "rev") for (int r = 0; r < N; r++) key[r] = N - r; else if (name.compare(0, 4, "sub:") == 0) { auto v = ints(name.substr(4)); for (int r = 0; r < N; r++) col[r] = MPI_UNDEFINED; for (size_t q = 0; q < v.size(); q++) { col[v[q]] = 0; key[v[q]] = q; } }
    lib_comm(name, col, key, &ci.c);
  }
  vector<std::pair<int, int>> m; for (int r = 0; r < N; r++) if (col[r] == col[cur->rank]) m.push_back({key[r], r}); std::stable_sort(m.begin(), m.end()); for (auto &p : m) ci.mem.push_back(p.second); ci.me = -1; for (size_t q = 0; q < ci.mem.size(); q++) if (ci.mem[q] == cur->rank) ci.me = q; if (ci.c == MPI_COMM_NULL) { ci.me = -1; ci.mem.clear(); }
  return comms[k] = ci;
}
struct Shape { int P, me; vector<int> cnt, dis; int total; bool reduces, vsend, rootrecv; };
static Shape shape(const OpSpec &o, CommInfo &ci) {
  Shape s; s.P = ci.mem.size(); s.me = ci.me; s.cnt.resize(s.P); s.dis.resize(s.P); int t = 0; for (int r = 0; r < s.P; r++) { s.cnt[r] = o.counts.empty() ? o.count : o.counts[r % o.counts.size()]; s.dis[r] = o.displs.empty() ? t : o.displs[r % o.displs.size()]; t += s.cnt[r]; } s.total = t; return s;
}
static u64 extent(const Shape &s) { int m = 0; for (int r = 0; r < s.P; r++) m = std::max(m, s.dis[r] + s.cnt[r]); return m; }
// expected contents ------------------------------------------------------------
static void fill_send(int op, int round, OpState &st) {
  const OpSpec &o = C.ops[op]; CommInfo &ci = getcomm(o.comm); Shape s = shape(o, ci); int e = esz(o.type); int me = ci.mem[s.me]; char *b = st.sb;
  if (o.inplace && (o.coll == "allreduce" || (o.coll == "reduce" && s.me == o.root))) { b = st.rb; for (int i = 0; i < o.count; i++) val(o, op, round, me, i, b + i * e); drv_user((u64)b, o.count * e, true); return; }
  if (o.coll == "bcast") { if (s.me == o.root) { for (int i = 0; i < o.count; i++) val(o, op, round, me, i, st.rb + i * e); } else memset(st.rb, 0xEE, st.rbytes); drv_user((u64)st.rb, st.rbytes, true); return; }
  if (o.coll == "allreduce" || o.coll == "reduce") for (int i = 0; i < o.count; i++) val(o, op, round, me, i, b + i * e);
  else if (o.coll == "allgather" || o.coll == "allgatherv" || o.coll == "gather" || o.coll == "gatherv") for (int i = 0; i < s.cnt[s.me]; i++) val(o, op, round, me, i, b + i * e);
  else if (o.coll == "reduce_scatter" || o.coll == "reduce_scatter_block") for (int i = 0; i < s.total; i++) val(o, op, round, me, i, b + i * e);
  else if (o.coll == "scatter" || o.coll == "scatterv") { if (s.me == o.root) { memset(b, 0x77, st.sbytes); for (int r = 0; r < s.P; r++) for (int i = 0; i < s.cnt[r]; i++) val(o, op, round, r, i, b + (s.dis[r] + i) * e); } }
  drv_user((u64)b, st.sbytes, true);
  st.expsend.assign(st.sb, st.sb + st.sbytes);
}
static void poison_recv(int op, OpState &st) {
  const OpSpec &o = C.ops[op]; CommInfo &ci = getcomm(o.comm); if (o.coll == "bcast") return; if (o.inplace && (o.coll == "allreduce" || (o.coll == "reduce" && ci.me == o.root))) return;
  if (st.rbytes) { memset(st.rb, 0xEE, st.rbytes); drv_user((u64)st.rb, st.rbytes, true); }
}
static vector<char> expect(int op, int round, const OpState &st, bool &any) {
  const OpSpec &o = C.ops[op]; CommInfo &ci = getcomm(o.comm); Shape s = shape(o, ci); int e = esz(o.type); vector<char> x(st.rbytes, (char)0xEE); any = true; char t[8];
  if (o.coll == "bcast") { for (int i = 0; i < o.count; i++) val(o, op, round, ci.mem[o.root], i, &x[i * e]); }
  else if (o.coll == "allreduce" || o.coll == "reduce") { if (o.coll == "reduce" && s.me != o.root) { any = false; return x; } for (int i = 0; i < o.count; i++) { val(o, op, round, ci.mem[0], i, &x[i * e]); for (int r = 1; r < s.P; r++) { val(o, op, round, ci.mem[r], i, t); addv(o.type, &x[i * e], t); } } }
  else if (o.coll == "allgather" || o.coll == "allgatherv" || ((o.coll == "gather" || o.coll == "gatherv") && s.me == o.root)) { for (int r = 0; r < s.P; r++) for (int i = 0; i < s.cnt[r]; i++) val(o, op, round, ci.mem[r], i, &x[(s.dis[r] + i) * e]); }
  else if (o.coll == "gather" || o.coll == "gatherv") any = false;
  else if (o.coll == "scatter" || o.coll == "scatterv") { for (int i = 0; i < s.cnt[s.me]; i++) val(o, op, round, s.me, i, &x[i * e]); }
  else if (o.coll == "reduce_scatter" || o.coll == "reduce_scatter_block") { int off = 0; for (int r = 0; r < s.me; r++) off += s.cnt[r]; for (int i = 0; i < s.cnt[s.me]; i++) { val(o, op, round, ci.mem[0], off + i, &x[i * e]); for (int r = 1; r < s.P; r++) { val(o, op, round, ci.mem[r], off + i, t); addv(o.type, &x[i * e], t); } } }
  return x;
}
static map<std::pair<int, int>, vector<vector<char>>> results;  // nonassoc: (op,round) -> per rank result
static string hex(const char *p, int n) { string s; for (int i = 0; i < n; i++) s += fmt("%02x", (u8)p[i]); return s; }
static string show(const string &t, const char *p) { if (t == "int") { int x; memcpy(&x, p, 4); return fmt("%d", x); } if (t == "long") { long x; memcpy(&x, p, 8); return fmt("%ld", x); } if (t == "float") { float x; memcpy(&x, p, 4); return fmt("%.9g", x); } if (t == "char") return fmt("%d", *p); double x; memcpy(&x, p, 8); return fmt("%.17g", x); }
std::map<string, string> obs;  // observation digest for determinism / reproducibility checks
static void alloc_bufs(int op) {
  OpState &st = S[cur->rank][op]; const OpSpec &o = C.ops[op]; CommInfo &ci = getcomm(o.comm); Shape s = shape(o, ci); u64 e = esz(o.type); int r = cur->rank; bool root = s.me == o.root; u64 sb = 0, rb = 0;
  if (o.coll == "allreduce") sb = rb = o.count * e; else if (o.coll == "reduce") { sb = o.count * e; rb = root || !o.nullrecv ? sb : 0; } else if (o.coll == "bcast") rb = o.count * e;
  else if (o.coll == "allgather" || o.coll == "allgatherv") { sb = s.cnt[s.me] * e; rb = extent(s) * e; } else if (o.coll == "gather" || o.coll == "gatherv") { sb = s.cnt[s.me] * e; rb = root ? extent(s) * e : 0; }
  else if (o.coll == "scatter" || o.coll == "scatterv") { sb = root ? extent(s) * e : 0; rb = s.cnt[s.me] * e; } else { sb = s.total * e; rb = s.cnt[s.me] * e; }
  if (o.inplace && (o.coll == "allreduce" || (o.coll == "reduce" && root))) sb = 0;
  st.sbytes = sb; st.rbytes = rb;
  if (sb) st.sb = (char *)ubuf_new(r, sb, true, fmt("send%d", op), o.algn * (int)e); if (rb) st.rb = (char *)ubuf_new(r, rb, false, fmt("recv%d", op), o.algn * (int)e);
  if (rb) { memset(st.rb, 0xEE, rb); drv_user((u64)st.rb, rb, true); }
}
static void check_send(int op, const char *when) { OpState &st = S[cur->rank][op]; if (st.expsend.size() && memcmp(st.expsend.data(), st.sb, st.sbytes)) violation("SENDMOD", cur->rank, fmt("send buffer of op %d (%s) modified %s", op, C.ops[op].coll.c_str(), when)); }
static void do_init(int op) {
  OpState &st = S[cur->rank][op]; const OpSpec &o = C.ops[op]; CommInfo &ci = getcomm(o.comm); cur->phase = fmt("%s_init op%d", o.coll.c_str(), op);
  if (ci.me < 0) { st.member = false; return; }
  Shape s = shape(o, ci); int P = s.P; if (!st.sb && !st.rb) alloc_bufs(op); bool root = s.me == o.root; MPI_Datatype t = dt(o.type); MPI_Comm c = ci.c; int ret = -999;
  // counts are passed from per-process heap memory: the library may look at them but not beyond
  int *cnt = (int *)ubuf_new(cur->rank, P * 4, true, "counts", 0), *dis = (int *)ubuf_new(cur->rank, P * 4, true, "displs", 0); for (int i = 0; i < P; i++) { cnt[i] = s.cnt[i]; dis[i] = s.dis[i]; }
  st.round = 0; fill_send(op, 0, st); vector<char> before(st.rb, st.rb + st.rbytes);
  // settings of this call: an info object which the user frees afterwards, or (infokeep=1) one object given other contents for every call
  map<string, string> ikv; if (!C.kv.count("infoop") || C.geti("infoop", 0) == op) ikv = C.info; if (C.opinfo.count(op)) for (auto &k : C.opinfo[op]) ikv[k.first] = k.second;
  static map<int, MPI_Info> kept; bool keep = C.geti("infokeep", 0); MPI_Info info = ikv.empty() ? MPI_INFO_NULL : keep && kept.count(cur->rank) ? kept[cur->rank] : make_info(ikv); if (info != MPI_INFO_NULL) { if (keep) kept[cur->rank] = info; fill_info(info, ikv); }
  bool ip = o.inplace; const void *sb = st.sb; void *rb = st.rb; if (ip && (o.coll == "allreduce" || (o.coll == "reduce" && root))) sb = MPI_IN_PLACE;
  typedef MPI_Datatype D; st.req = MPI_REQUEST_NULL;
  auto call = [&]() -> int {
    if (o.coll == "allreduce") { if (C.geti("f08", 0)) { int ie = -1, n = o.count; MPI_Op op_ = MPI_SUM; extern int f08type(const string &, D *); D ft; f08type(C.get("ftype"), &ft); extern void *f08inplace(); fn<void (*)(const void *, void *, int *, D *, MPI_Op *, MPI_Comm *, MPI_Info *, MPI_Request *, int *)>(C.geti("f08", 0) == 2 ? "mpi_allreduce_init_" : "mpi_allreduce_init_f08_")(sb == MPI_IN_PLACE ? f08inplace() : sb, rb, &n, &ft, &op_, &c, &info, &st.req, &ie); return ie; }
      return fn<int (*)(const void *, void *, int, D, MPI_Op, MPI_Comm, MPI_Info, MPI_Request *)>("MPI_Allreduce_init")(sb, rb, o.count, t, MPI_SUM, c, info, &st.req); }
    if (o.coll == "reduce") return fn<int (*)(const void *, void *, int, D, MPI_Op, int, MPI_Comm, MPI_Info, MPI_Request *)>("MPI_Reduce_init")(sb, rb, o.count, t, MPI_SUM, o.root, c, info, &st.req);
    if (o.coll == "bcast") return fn<int (*)(void *, int, D, int, MPI_Comm, MPI_Info, MPI_Request *)>("MPI_Bcast_init")(rb, o.count, t, o.root, c, info, &st.req);
    if (o.coll == "allgather") return fn<int (*)(const void *, int, D, void *, int, D, MPI_Comm, MPI_Info, MPI_Request *)>("MPI_Allgather_init")(sb, o.count, t, rb, o.count, t, c, info, &st.req);
    if (o.coll == "allgatherv") return fn<int (*)(const void *, int, D, void *, const int *, const int *, D, MPI_Comm, MPI_Info, MPI_Request *)>("MPI_Allgatherv_init")(sb, s.cnt[s.me], t, rb, cnt, dis, t, c, info, &st.req);
    if (o.coll == "gather") return fn<int (*)(const void *, int, D, void *, int, D, int, MPI_Comm, MPI_Info, MPI_Request *)>("MPI_Gather_init")(sb, o.count, t, rb, o.count, t, o.root, c, info, &st.req);
    if (o.coll == "gatherv") return fn<int (*)(const void *, int, D, void *, const int *, const int *, D, int, MPI_Comm, MPI_Info, MPI_Request *)>("MPI_Gatherv_init")(sb, s.cnt[s.me], t, rb, cnt, dis, t, o.root, c, info, &st.req);
    if (o.coll == "scatter") return fn<int (*)(const void *, int, D, void *, int, D, int, MPI_Comm, MPI_Info, MPI_Request *)>("MPI_Scatter_init")(sb, o.count, t, rb, o.count, t, o.root, c, info, &st.req);
    if (o.coll == "scatterv") return fn<int (*)(const void *, const int *, const int *, D, void *, int, D, int, MPI_Comm, MPI_Info, MPI_Request *)>("MPI_Scatterv_init")(sb, cnt, dis, t, rb, s.cnt[s.me], t, o.root, c, info, &st.req);
    if (o.coll == "reduce_scatter") return fn<int (*)(const void *, void *, const int *, D, MPI_Op, MPI_Comm, MPI_Info, MPI_Request *)>("MPI_Reduce_scatter_init")(sb, rb, cnt, t, MPI_SUM, c, info, &st.req);
    if (o.coll == "reduce_scatter_block") return fn<int (*)(const void *, void *, int, D, MPI_Op, MPI_Comm, MPI_Info, MPI_Request *)>("MPI_Reduce_scatter_block_init")(sb, rb, o.count, t, MPI_SUM, c, info, &st.req);
    violation("BADCONFIG", cur->rank, "unknown collective " + o.coll, 0, true); return 0;
  };
  ret = call(); enter(); if (info != MPI_INFO_NULL) { if (keep) fill_info(info, {}); else kill_info(info); }
  if (ret != MPI_SUCCESS) violation("INIT_FAIL", cur->rank, fmt("%s_init returned %d", o.coll.c_str(), ret), 0, true);
  st.inited = true; check_send(op, "by the init call");
  if (C.geti("chkinit", 0) && st.rbytes && memcmp(before.data(), st.rb, st.rbytes)) violation("INIT_CLOBBER", cur->rank, "the init call changed the contents of the receive buffer");
  if (!o.keep) { fill_send(op, 0, st); poison_recv(op, st); }
  cur->phase = "";
}
static bool f08() { return C.geti("f08", 0) == 1 && C.geti("f08life", 1); }
static void do_start(int op) {
  OpState &st = S[cur->rank][op]; if (!st.member) return; cur->phase = fmt("start op%d round %d", op, st.round); enter(); ev_point(true);
  int r = f08() ? -1 : 0; if (r) fn<void (*)(MPI_Request *, int *)>("mpi_start_f08_")(&st.req, &r); else r = fn<int (*)(MPI_Request *)>("MPI_Start")(&st.req); enter(); if (r) violation("RET", cur->rank, "MPI_Start failed"); st.active = true;
}
static string reprkey(int op, int round) { return fmt("op%d round%d rank%d", op, C.geti("samedata", 0) ? 0 : round, cur->rank); }
static void completed(int op) {
  OpState &st = S[cur->rank][op]; const OpSpec &o = C.ops[op]; st.active = false; cur->phase = fmt("after completion op%d round %d", op, st.round);
  if (st.rbytes) drv_user((u64)st.rb, st.rbytes, false);
  bool any; vector<char> x = expect(op, st.round, st, any);
  if (o.data == "nonassoc") {
    if (any) { auto &v = results[{op, st.round}]; v.resize(N); v[cur->rank].assign(st.rb, st.rb + st.rbytes);
      for (u64 i = 0; i < st.rbytes / esz(o.type); i++) { double ref, got, mag = 0; char t[8]; CommInfo &ci = getcomm(o.comm); u64 off = 0; if (o.coll.compare(0, 14, "reduce_scatter") == 0) { Shape sh = shape(o, ci); for (int q = 0; q < sh.me; q++) off += sh.cnt[q]; } auto d = [&](const char *p) { if (o.type == "float") { float f; memcpy(&f, p, 4); return (double)f; } double q; memcpy(&q, p, 8); return q; }; ref = 0; for (int m : ci.mem) { val(o, op, st.round, m, off + i, t); ref += d(t); mag += fabs(d(t)); } got = d(st.rb + i * esz(o.type)); if (!(fabs(ref - got) <= mag * (o.type == "float" ? 1e-5 : 1e-13))) { violation("WRONG", cur->rank, fmt("%s op %d round %d elem %d: got %.17g expected about %.17g", o.coll.c_str(), op, st.round, (int)i, got, ref)); break; } }
      if (C.geti("identical", 0)) for (int r = 0; r < N; r++) if (!v[r].empty() && v[r] != v[cur->rank]) { violation("NOTIDENT", cur->rank, fmt("op %d round %d: results of rank %d and rank %d differ bitwise", op, st.round, r, cur->rank)); break; }
      if (C.kv.count("golden")) { extern void golden_check(const string &, const vector<char> &); golden_check(reprkey(op, st.round), v[cur->rank]); } }
  } else if (!any && st.rbytes && memcmp(x.data(), st.rb, st.rbytes)) { violation("RECVMOD", cur->rank, fmt("receive buffer of op %d (%s) modified on a rank where it is not significant", op, o.coll.c_str()));
  } else if (any && memcmp(x.data(), st.rb, st.rbytes)) { int e = esz(o.type); for (u64 i = 0; i < st.rbytes / e; i++) if (memcmp(&x[i * e], st.rb + i * e, e)) { violation("WRONG", cur->rank, fmt("%s op %d round %d elem %d of %d: got %s expected %s", o.coll.c_str(), op, st.round, (int)i, (int)(st.rbytes / e), show(o.type, st.rb + i * e).c_str(), show(o.type, &x[i * e]).c_str())); break; } }
  check_send(op, "during the operation");
  st.round++; fill_send(op, st.round, st); poison_recv(op, st); cur->phase = fmt("between rounds op%d", op);
}
static void do_wait(int op) {
  OpState &st = S[cur->rank][op]; if (!st.member) return; cur->phase = fmt("wait op%d round %d", op, st.round); bool was = st.active;
  MPI_Status stt; bool ign = C.geti("status", 0) == 0; int r = f08() ? -1 : 0; if (r) fn<void (*)(MPI_Request *, MPI_Status *, int *)>("mpi_wait_f08_")(&st.req, ign ? MPI_STATUS_IGNORE : &stt, &r); else r = fn<int (*)(MPI_Request *, MPI_Status *)>("MPI_Wait")(&st.req, ign ? MPI_STATUS_IGNORE : &stt); enter(); if (r) violation("RET", cur->rank, "MPI_Wait failed"); if (was) completed(op);
}
static bool do_test(int op) {
  OpState &st = S[cur->rank][op]; if (!st.member) return true; cur->phase = fmt("test op%d round %d", op, st.round); int flag = -7; bool was = st.active; MPI_Status s; enter();
  u64 ev0 = cur->stamp; (void)ev0; extern u64 nblocked; u64 b0 = nblocked; bool inb = C.geti("nonblock", 1); extern bool nonblocking_region; nonblocking_region = inb; int r = fn<int (*)(MPI_Request *, int *, MPI_Status *)>("MPI_Test")(&st.req, &flag, &s); nonblocking_region = false; enter(); (void)b0;
  if (r) violation("RET", cur->rank, "MPI_Test failed"); if (flag != 0 && flag != 1) violation("RET", cur->rank, fmt("MPI_Test flag = %d", flag)); if (flag && was) completed(op); return flag;
}
static bool do_status(int op) {
  OpState &st = S[cur->rank][op]; cur->phase = fmt("get_status op%d round %d", op, st.round); int flag = -7; MPI_Status s; extern bool nonblocking_region; enter(); nonblocking_region = true; int r = fn<int (*)(MPI_Request, int *, MPI_Status *)>("MPI_Request_get_status")(st.req, &flag, &s); nonblocking_region = false; enter();
  if (r) violation("RET", cur->rank, "MPI_Request_get_status failed"); if (flag != 0 && flag != 1) violation("RET", cur->rank, fmt("MPI_Request_get_status flag = %d", flag)); return flag;
}
static void do_startall(const string &tok) {
  // S<list>: start several operations (and the user's persistent ring requests P<tag>/Q<tag>, completed at once) with one call
  int me = cur->rank, left = (me + N - 1) % N, right = (me + 1) % N, n = 0; vector<int> ops; vector<string> us; auto xs = splits(tok.substr(1), '+'); MPI_Request *rq = (MPI_Request *)ubuf_new(me, xs.size() * sizeof(MPI_Request) + 8, false, "reqs", 0); int *sb = (int *)ubuf_new(me, 8, true, "psend", 0), *rb = (int *)ubuf_new(me, 8, false, "precv", 0);
  cur->phase = "startall " + tok; enter(); ev_point(true);
  for (auto &x : xs) if (x[0] == 'P' || x[0] == 'Q') { int tag = atoi(x.c_str() + 1); if (x[0] == 'P') { rb[0] = -1; PMPI_Recv_init(rb, 1, MPI_INT, left, tag, MPI_COMM_WORLD, &rq[n++]); } else { sb[0] = me * 100 + tag; PMPI_Send_init(sb, 1, MPI_INT, right, tag, MPI_COMM_WORLD, &rq[n++]); } ops.push_back(-1); us.push_back(x); } else { int o = atoi(x.c_str()); if (!S[me][o].member) continue; OpState &st = S[me][o]; if (st.active) violation("BADCONFIG", me, "start of an active operation", 0, true); st.active = true; rq[n++] = st.req; ops.push_back(o); us.push_back(""); }
  int r = fn<int (*)(int, MPI_Request *)>("MPI_Startall")(n, rq); enter(); if (r) violation("RET", me, "MPI_Startall failed"); for (int i = 0; i < n; i++) if (ops[i] >= 0 && rq[i] != S[me][ops[i]].req) violation("RET", me, "MPI_Startall changed a request");
  for (int i = 0; i < n; i++) if (ops[i] < 0) { cur->phase = "startall, user request"; fn<int (*)(MPI_Request *, MPI_Status *)>("MPI_Wait")(&rq[i], MPI_STATUS_IGNORE); enter(); if (us[i][0] == 'P' && rb[0] != left * 100 + atoi(us[i].c_str() + 1)) violation("P2P", me, "user message of MPI_Startall not delivered"); fn<int (*)(MPI_Request *)>("MPI_Request_free")(&rq[i]); }
}
static void do_free(int op) { OpState &st = S[cur->rank][op]; if (!st.member) return; cur->phase = fmt("free op%d", op); int r = f08() ? -1 : 0; if (r) fn<void (*)(MPI_Request *, int *)>("mpi_request_free_f08_")(&st.req, &r); else r = fn<int (*)(MPI_Request *)>("MPI_Request_free")(&st.req); enter(); if (r) violation("RET", cur->rank, "MPI_Request_free failed"); if (st.req != MPI_REQUEST_NULL) violation("RET", cur->rank, "MPI_Request_free did not reset the handle"); st.inited = false; }
// waits for / tests arrays of requests
// the user's own point-to-point requests in a list: R<tag>/S<tag> immediate receive/send (ring), P<tag>/Q<tag> the same persistent
struct UReq { bool persistent, recv; int tag, *buf; bool active; };
static void do_multi(const string &tok) {
  // W<list> waitall, A<list> waitany until all done, O<list> waitsome until all, a<list> testall poll, n<list> testany poll until all done, m<list> testsome poll until all done ; list like 0+1
  char k = tok[0]; int me = cur->rank, left = (me + N - 1) % N, right = (me + 1) % N; vector<int> ops; vector<UReq> us;
  for (auto &x : splits(tok.substr(1), '+')) { int o = atoi(x.c_str()); if (x == "N") ops.push_back(-1); else if (strchr("RSPQ", x[0])) { ops.push_back(-10 - (int)us.size()); us.push_back({x[0] == 'P' || x[0] == 'Q', x[0] == 'R' || x[0] == 'P', atoi(x.c_str() + 1), nullptr, true}); } else if (S[me][o].member) ops.push_back(o); }
  int n = ops.size(); MPI_Request *rq = (MPI_Request *)ubuf_new(me, n * sizeof(MPI_Request) + 8, false, "reqs", 0); MPI_Status *stt = (MPI_Status *)ubuf_new(me, (n + 1) * sizeof(MPI_Status), false, "stats", 0); int *idx = (int *)ubuf_new(me, 4 * n + 4, false, "idx", 0);
  for (int i = 0; i < n; i++) if (ops[i] >= 0) rq[i] = S[me][ops[i]].req; else if (ops[i] == -1) rq[i] = MPI_REQUEST_NULL; else {
    UReq &u = us[-10 - ops[i]]; u.buf = (int *)ubuf_new(me, 8, !u.recv, u.recv ? "precv" : "psend", 0); u.buf[0] = u.recv ? -1 : me * 100 + u.tag; u.buf[1] = u.recv ? -1 : u.tag;
    if (u.persistent) { if (u.recv) PMPI_Recv_init(u.buf, 2, MPI_INT, left, u.tag, MPI_COMM_WORLD, &rq[i]); else PMPI_Send_init(u.buf, 2, MPI_INT, right, u.tag, MPI_COMM_WORLD, &rq[i]); fn<int (*)(MPI_Request *)>("MPI_Start")(&rq[i]); }
    else if (u.recv) PMPI_Irecv(u.buf, 2, MPI_INT, left, u.tag, MPI_COMM_WORLD, &rq[i]); else PMPI_Isend(u.buf, 2, MPI_INT, right, u.tag, MPI_COMM_WORLD, &rq[i]); }
  bool ign = C.geti("status", 0) == 0; MPI_Status *sts = ign ? MPI_STATUSES_IGNORE : stt; MPI_Status *st1 = ign ? MPI_STATUS_IGNORE : stt; cur->phase = "multi " + tok; extern bool nonblocking_region; auto nact = [&] { int a = 0; for (int o : ops) if (o >= 0 && S[me][o].active) a++; for (auto &u : us) if (u.active) a++; return a; };
  auto ufin = [&](int i, MPI_Status *q, const char *w) { UReq &u = us[-10 - ops[i]]; u.active = false; if (u.recv && (u.buf[0] != left * 100 + u.tag || u.buf[1] != u.tag)) violation("P2P", me, fmt("%s: user message with tag %d not delivered: %d %d", w, u.tag, u.buf[0], u.buf[1])); if (u.recv && q && (q->MPI_SOURCE != left || q->MPI_TAG != u.tag)) violation("P2P", me, fmt("%s: status of a point-to-point request lost: source %d tag %d", w, q->MPI_SOURCE, q->MPI_TAG)); if (!u.persistent && rq[i] != MPI_REQUEST_NULL) violation("P2P", me, fmt("%s: completed user request not set to null", w)); if (u.persistent && rq[i] == MPI_REQUEST_NULL) violation("P2P", me, fmt("%s: persistent user request set to null", w)); };
  auto fin = [&](int i, MPI_Status *q, const char *w) { if (i >= 0 && i < n && ops[i] <= -10) { if (!us[-10 - ops[i]].active) violation("MULTI", me, fmt("%s returned index %d whose user request is not active", w, i)); else ufin(i, q, w); return; } if (i < 0 || i >= n || ops[i] < 0) { violation("MULTI", me, fmt("%s returned index %d which is not an active request", w, i)); return; } if (!S[me][ops[i]].active) { violation("MULTI", me, fmt("%s returned index %d whose operation is not active", w, i)); return; } completed(ops[i]); cur->phase = "multi " + tok; };
  auto all = [&](const char *w) { for (int i = 0; i < n; i++) { int o = ops[i]; if (o >= 0 && S[me][o].active) completed(o); else if (o <= -10 && us[-10 - o].active) ufin(i, ign ? nullptr : stt + i, w); } };
  auto at = [&](int j) { return ign ? nullptr : stt + j; };
  if (k == 'W') { int r = fn<int (*)(int, MPI_Request *, MPI_Status *)>("MPI_Waitall")(n, rq, sts); enter(); if (r) violation("RET", me, "MPI_Waitall failed"); all("MPI_Waitall"); }
  else if (k == 'A') while (nact()) { int i = -9; int r = fn<int (*)(int, MPI_Request *, int *, MPI_Status *)>("MPI_Waitany")(n, rq, &i, st1); enter(); if (r) violation("RET", me, "MPI_Waitany failed"); size_t b = nact(); fin(i, at(0), "MPI_Waitany"); if ((size_t)nact() == b) break; }
  else if (k == 'O') while (nact()) { int oc = -9; int r = fn<int (*)(int, MPI_Request *, int *, int *, MPI_Status *)>("MPI_Waitsome")(n, rq, &oc, idx, sts); enter(); if (r) violation("RET", me, "MPI_Waitsome failed"); size_t b = nact(); if (oc < 1 || oc > n) { violation("MULTI", me, fmt("MPI_Waitsome outcount %d", oc)); break; } for (int j = 0; j < oc; j++) fin(idx[j], at(j), "MPI_Waitsome"); if ((size_t)nact() == b) break; }
  else if (k == 'a') while (1) { int fl = -9; nonblocking_region = true; int r = fn<int (*)(int, MPI_Request *, int *, MPI_Status *)>("MPI_Testall")(n, rq, &fl, sts); nonblocking_region = false; enter(); if (r) violation("RET", me, "MPI_Testall failed"); if (fl == 1) { all("MPI_Testall"); break; } if (fl != 0) { violation("MULTI", me, fmt("MPI_Testall flag %d", fl)); break; } poll_pause("Testall"); }
  else if (k == 'n') while (nact()) { int fl = -9, i = -9; nonblocking_region = true; int r = fn<int (*)(int, MPI_Request *, int *, int *, MPI_Status *)>("MPI_Testany")(n, rq, &i, &fl, st1); nonblocking_region = false; enter(); if (r) violation("RET", me, "MPI_Testany failed"); if (fl == 1) { size_t b = nact(); fin(i, at(0), "MPI_Testany"); if ((size_t)nact() == b) break; } else if (fl == 0) poll_pause("Testany"); else { violation("MULTI", me, fmt("MPI_Testany flag %d", fl)); break; } }
  else if (k == 'm') while (nact()) { int oc = -9; for (int j = 0; j < n; j++) idx[j] = -5; nonblocking_region = true; int r = fn<int (*)(int, MPI_Request *, int *, int *, MPI_Status *)>("MPI_Testsome")(n, rq, &oc, idx, sts); nonblocking_region = false; enter(); if (r) violation("RET", me, "MPI_Testsome failed"); if (oc < 0 || oc > n) { violation("MULTI", me, fmt("MPI_Testsome outcount %d", oc)); break; } size_t b = nact(); for (int j = 0; j < oc; j++) fin(idx[j], at(j), "MPI_Testsome"); if (oc == 0) poll_pause("Testsome"); else if ((size_t)nact() == b) break; }
  for (int i = 0; i < n; i++) if (ops[i] <= -10 && us[-10 - ops[i]].persistent) fn<int (*)(MPI_Request *)>("MPI_Request_free")(&rq[i]);
}
bool nonblocking_region; u64 nblocked;
static void p2p(const string &tok);
void driver_main(int r) {
  if (S.empty()) { S.resize(N); for (auto &v : S) v.resize(C.ops.size()); }
  // settings: debug self-check off unless asked for (it is a global of the library and, when present, an environment variable)
  if (C.kv.count("scen")) { extern void scenario(int, const string &); int *d = (int *)libsym(r, "ext_mpi_debug"); if (d && !C.debug) *d = 0; scenario(r, C.get("scen")); return; }
  if (!C.debug) { int *d = (int *)libsym(r, "ext_mpi_debug"); if (d) *d = 0; }
  cur->phase = "MPI_Init"; if (C.geti("initthread", 0)) { int prov = -1; fn<int (*)(int *, char ***, int, int *)>("MPI_Init_thread")(nullptr, nullptr, MPI_THREAD_FUNNELED, &prov); enter(); if (prov < 0) violation("RET", r, "MPI_Init_thread did not set the provided level"); } else if (f08()) { int e = -1; fn<void (*)(int *)>("mpi_init_f08_")(&e); enter(); if (e) violation("RET", r, "mpi_init_f08_ did not set the error argument"); } else fn<int (*)(int *, char ***)>("MPI_Init")(nullptr, nullptr); enter();
  for (auto &t : C.hist[r]) {
    if (t.empty()) continue; int op = t.size() > 1 ? atoi(t.c_str() + 1) : 0;
    if (strchr("iswtTfdF", t[0]) && op >= (int)C.ops.size()) violation("BADCONFIG", r, "op index", 0, true);
    switch (t[0]) {
    case 'i': { extern bool injecting; extern u64 nposted, postbase; injecting = op == 0 && C.kv.count("wrongref"); if (op == 0 && postbase == ~0ull) postbase = nposted; do_init(op); extern std::set<int> selfinit; if (op == 0) selfinit.insert(r); break; } case 's': do_start(op); break; case 'w': do_wait(op); break;
    case 't': while (S[r][op].member && S[r][op].active && !do_test(op)) poll_pause("Test"); break;   // test until complete
    case 'T': do_test(op); break;                                                                        // one test
    case 'k': { int n = atoi(t.c_str() + 1); for (int i = 0; i < n; i++) if (do_test(0)) break; break; }
    case 'f': do_free(op); break;
    case 'g': while (S[r][op].member && S[r][op].active && !do_status(op)) poll_pause("Request_get_status"); break;   // inspect until complete (the request stays active)
    case 'S': do_startall(t); break;
    case 'W': case 'A': case 'O': case 'a': case 'n': case 'm': do_multi(t); break;
    case 'b': cur->phase = "user barrier"; PMPI_Barrier(MPI_COMM_WORLD); { extern bool injected; extern u64 nposted, postbase; extern std::set<int> selfinit; bool apart = C.kv.count("wrongref") && selfinit.count(r), p0 = nposted != postbase; for (int q = 0; q < N; q++) for (int z = 0; z < q; z++) if (C.nodeof[q] == C.nodeof[z]) apart = false; if (apart && !injected && !p0) violation("UNDETECTED", r, "creation with the self check on made no trial run: no reference result and no message", 0, true); if (injected) violation("UNDETECTED", r, "the self check accepted an operation whose result differs from the reference in byte " + C.get("wrongref"), 0, true); } break;
    case '|': mark_point(); break;
    case 'p': p2p(t); break;
    case 'x': { CommInfo &ci = getcomm(C.ops[op].comm); cur->phase = "MPI_Comm_free"; if (ci.me >= 0 && ci.c != MPI_COMM_WORLD && ci.c != MPI_COMM_NULL) { lib_comm_free(&ci.c); } break; } // free it while the operation lives on
    case 'c': { CommInfo &ci = getcomm(C.ops[op].comm); if (ci.me >= 0 && ci.c != MPI_COMM_WORLD) { lib_comm_free(&ci.c); } comms.erase({r, C.ops[op].comm}); S[r][op] = OpState(); break; } // free the communicator of op
    case 'B': { extern void blocking_call(int, OpState &, const OpSpec &); cur->phase = "blocking"; OpState &st = S[r][op]; CommInfo &ci = getcomm(C.ops[op].comm); if (ci.me < 0) break; if (!st.sb && !st.rb) { alloc_bufs(op); st.round = 0; fill_send(op, 0, st); poison_recv(op, st); } st.comm = ci.c; cur->phase = fmt("blocking call op%d round %d", op, st.round); blocking_call(op, st, C.ops[op]); st.active = true; completed(op); break; }
    default: violation("BADCONFIG", r, "unknown token " + t, 0, true);
    }
  }
  cur->phase = "MPI_Finalize"; if (f08()) { int e = -1; fn<void (*)(int *)>("mpi_finalize_f08_")(&e); if (e) violation("RET", r, "mpi_finalize_f08_ did not set the error argument"); } else fn<int (*)()>("MPI_Finalize")(); enter(); cur->phase = "end";
}
void blocking_call(int, OpState &st, const OpSpec &o) {
  typedef MPI_Datatype D; D t = dt(o.type); int r = 0; const void *sb = st.sb ? st.sb : (const char *)MPI_IN_PLACE; Shape s = shape(o, getcomm(o.comm));
  if (o.coll == "allreduce") r = fn<int (*)(const void *, void *, int, D, MPI_Op, MPI_Comm)>("MPI_Allreduce")(sb, st.rb, o.count, t, MPI_SUM, st.comm);
  else if (o.coll == "reduce_scatter_block") r = fn<int (*)(const void *, void *, int, D, MPI_Op, MPI_Comm)>("MPI_Reduce_scatter_block")(sb, st.rb, o.count, t, MPI_SUM, st.comm);
  else if (o.coll == "allgather") r = fn<int (*)(const void *, int, D, void *, int, D, MPI_Comm)>("MPI_Allgather")(sb, o.count, t, st.rb, o.count, t, st.comm);
  else violation("BADCONFIG", cur->rank, "no blocking form", 0, true);
  enter(); if (r) violation("RET", cur->rank, "blocking collective failed");
}
static void p2p(const string &tok) {
  // ordinary (non-library) persistent point-to-point traffic through the library's wrappers: ring exchange
  int tag = tok.size() > 1 ? atoi(tok.c_str() + 1) : 0; int r = cur->rank; cur->phase = "user p2p"; int *sb = (int *)ubuf_new(r, 8, true, "psend", 0), *rb = (int *)ubuf_new(r, 8, false, "precv", 0); MPI_Request q[2];
  PMPI_Recv_init(rb, 2, MPI_INT, (r + N - 1) % N, tag, MPI_COMM_WORLD, &q[0]); PMPI_Send_init(sb, 2, MPI_INT, (r + 1) % N, tag, MPI_COMM_WORLD, &q[1]);
  auto St = fn<int (*)(MPI_Request *)>("MPI_Start"); auto Wt = fn<int (*)(MPI_Request *, MPI_Status *)>("MPI_Wait"); auto Fr = fn<int (*)(MPI_Request *)>("MPI_Request_free");
  for (int k = 0; k < 2; k++) { sb[0] = r * 100 + k; sb[1] = tag; rb[0] = rb[1] = -1; St(&q[0]); St(&q[1]); if (k == 0) { fn<int (*)(int, MPI_Request *, MPI_Status *)>("MPI_Waitall")(2, q, MPI_STATUSES_IGNORE); } else { MPI_Status s; Wt(&q[0], &s); enter(); if (s.MPI_SOURCE != (r + N - 1) % N || s.MPI_TAG != tag) violation("P2P", r, "status of a point-to-point request lost"); Wt(&q[1], MPI_STATUS_IGNORE); } enter(); if (rb[0] != ((r + N - 1) % N) * 100 + k || rb[1] != tag) violation("P2P", r, "user point-to-point message corrupted"); }
  Fr(&q[0]); Fr(&q[1]); enter();
}
int f08type(const string &t, MPI_Datatype *d) { extern char ompi_mpi_real_[]; *d = t == "real" ? MPI_REAL : t == "double" ? MPI_DOUBLE_PRECISION : t == "real4" ? MPI_REAL4 : t == "real8" ? MPI_REAL8 : t == "integer" ? MPI_INTEGER : t == "integer4" ? MPI_INTEGER4 : t == "integer8" ? MPI_INTEGER8 : MPI_INT; return 0; }
extern "C" int MPIR_F08_MPI_IN_PLACE; void *f08inplace() { return &MPIR_F08_MPI_IN_PLACE; }
// reproducibility: the first execution of a configuration (before the snapshot was explored) fixes the expected bits
struct Golden { u32 n; struct { char key[40]; u32 len; char d[512]; } e[256]; };
Golden *GOLD;
void golden_init() { GOLD = (Golden *)mmap(nullptr, sizeof(Golden), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
void golden_check(const string &k, const vector<char> &v) {
  if (!GOLD) return; for (u32 i = 0; i < GOLD->n; i++) if (k == GOLD->e[i].key) { if (GOLD->e[i].len != std::min<size_t>(v.size(), 512) || memcmp(GOLD->e[i].d, v.data(), GOLD->e[i].len)) violation("NOTREPRO", cur->rank, "result differs bitwise from the one of another schedule: " + k + " got " + hex(v.data(), std::min<size_t>(16, v.size()))); return; }
  if (GOLD->n >= 256) return; auto &e = GOLD->e[GOLD->n++]; strncpy(e.key, k.c_str(), 39); e.len = std::min<size_t>(v.size(), 512); memcpy(e.d, v.data(), e.len);
}
void scenario(int r, const string &name) { (void)name; violation("BADCONFIG", r, "unknown scenario", 0, true); }
