/* Generic demonstration: runs one persistent collective for some rounds and compares with plain MPI.
   usage: demo coll=<name> count=<n>|counts=a,b,c [root=r] [rounds=k] [type=int|long|double|float] [inplace=1] [test=1] [creates=k] */
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "ext_mpi.h"
static const char *arg(int c, char **v, const char *k, const char *d) {
  size_t l = strlen(k);
  for (int i = 1; i < c; i++) if (!strncmp(v[i], k, l) && v[i][l] == '=') return v[i] + l + 1;
  return d;
}
/* the library calls these: a rank can be made slow in sending */
static int slow_us;
int MPI_Isend(const void *b, int c, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Request *q) {
  if (slow_us) usleep(slow_us);
  return PMPI_Isend(b, c, t, d, g, m, q);
}
int main(int argc, char **argv) {
  int rank, n, bad = 0;
  MPI_Init(&argc, &argv);
  MPI_Comm comm = MPI_COMM_WORLD; const char *cm = arg(argc, argv, "comm", "world");
  MPI_Comm_rank(comm, &rank);
  if (!strcmp(cm, "rev")) PMPI_Comm_split(comm, 0, -rank, &comm);
  if (!strcmp(cm, "halves")) PMPI_Comm_split(comm, rank & 1, rank, &comm);
  MPI_Comm_rank(comm, &rank); MPI_Comm_size(comm, &n);
  const char *coll = arg(argc, argv, "coll", "allreduce"), *cs = arg(argc, argv, "counts", NULL), *ty = arg(argc, argv, "type", "long");
  int count = atoi(arg(argc, argv, "count", "1")), root = atoi(arg(argc, argv, "root", "0")), rounds = atoi(arg(argc, argv, "rounds", "3"));
  int inplace = atoi(arg(argc, argv, "inplace", "0")), test = atoi(arg(argc, argv, "test", "0")), creates = atoi(arg(argc, argv, "creates", "1"));
  /* late=1: in round k, rank k % n starts late; slow=<rank>: this rank sends late */
  int late = atoi(arg(argc, argv, "late", "0")), slow = atoi(arg(argc, argv, "slow", "-1")), after = atoi(arg(argc, argv, "after", "0"));
  MPI_Datatype dt = !strcmp(ty, "int") ? MPI_INT : !strcmp(ty, "double") ? MPI_DOUBLE : !strcmp(ty, "float") ? MPI_FLOAT : MPI_LONG;
  int sz; MPI_Type_size(dt, &sz);
  int *counts = malloc(n * sizeof(int)), *displs = malloc(n * sizeof(int)), total = 0;
  for (int i = 0; i < n; i++) {
    counts[i] = count;
    if (cs) { counts[i] = atoi(cs); cs = strchr(cs, ','); cs = cs ? cs + 1 : "0"; }
    displs[i] = total; total += counts[i];
  }
  size_t cap = (size_t)(total + count * n + 16) * sz;
  char *s = malloc(cap), *r = malloc(cap), *e = malloc(cap), *s0 = malloc(cap), *so = malloc(cap);
  for (int cr = 0; cr < creates; cr++) {
    MPI_Request q;
    const void *sb = inplace ? MPI_IN_PLACE : s;
#define IS(x) (!strcmp(coll, x))
    if (IS("allreduce")) MPI_Allreduce_init(sb, r, count, dt, MPI_SUM, comm, MPI_INFO_NULL, &q);
    else if (IS("reduce")) MPI_Reduce_init(sb, r, count, dt, MPI_SUM, root, comm, MPI_INFO_NULL, &q);
    else if (IS("bcast")) MPI_Bcast_init(r, count, dt, root, comm, MPI_INFO_NULL, &q);
    else if (IS("allgather")) MPI_Allgather_init(s, count, dt, r, count, dt, comm, MPI_INFO_NULL, &q);
    else if (IS("allgatherv")) MPI_Allgatherv_init(s, counts[rank], dt, r, counts, displs, dt, comm, MPI_INFO_NULL, &q);
    else if (IS("reduce_scatter")) MPI_Reduce_scatter_init(s, r, counts, dt, MPI_SUM, comm, MPI_INFO_NULL, &q);
    else if (IS("reduce_scatter_block")) MPI_Reduce_scatter_block_init(s, r, count, dt, MPI_SUM, comm, MPI_INFO_NULL, &q);
    else if (IS("gather")) MPI_Gather_init(s, count, dt, r, count, dt, root, comm, MPI_INFO_NULL, &q);
    else if (IS("gatherv")) MPI_Gatherv_init(s, counts[rank], dt, r, counts, displs, dt, root, comm, MPI_INFO_NULL, &q);
    else if (IS("scatter")) MPI_Scatter_init(s, count, dt, r, count, dt, root, comm, MPI_INFO_NULL, &q);
    else if (IS("scatterv")) MPI_Scatterv_init(s, counts, displs, dt, r, counts[rank], dt, root, comm, MPI_INFO_NULL, &q);
    else return 3;
    for (int k = 0; k < rounds; k++) {
      for (size_t i = 0; i < cap / sz; i++) {
        long v = (long)(1 + rank * 31 + i * 7 + k * 101) % 1009;
        if (dt == MPI_INT) ((int *)s)[i] = v; else if (dt == MPI_LONG) ((long *)s)[i] = v; else if (dt == MPI_DOUBLE) ((double *)s)[i] = v; else ((float *)s)[i] = v;
      }
      memset(r, 0x55, cap);
      if (inplace || (IS("bcast") && rank == root)) memcpy(r, s, cap);
      memcpy(e, r, cap); memcpy(s0, s, cap); memcpy(so, r, cap);
      if (IS("allreduce")) MPI_Allreduce(s, e, count, dt, MPI_SUM, comm);
      else if (IS("reduce")) MPI_Reduce(s, e, count, dt, MPI_SUM, root, comm);
      else if (IS("bcast")) MPI_Bcast(e, count, dt, root, comm);
      else if (IS("allgather")) MPI_Allgather(s, count, dt, e, count, dt, comm);
      else if (IS("allgatherv")) MPI_Allgatherv(s, counts[rank], dt, e, counts, displs, dt, comm);
      else if (IS("reduce_scatter")) MPI_Reduce_scatter(s, e, counts, dt, MPI_SUM, comm);
      else if (IS("reduce_scatter_block")) MPI_Reduce_scatter_block(s, e, count, dt, MPI_SUM, comm);
      else if (IS("gather")) MPI_Gather(s, count, dt, e, count, dt, root, comm);
      else if (IS("gatherv")) MPI_Gatherv(s, counts[rank], dt, e, counts, displs, dt, root, comm);
      else if (IS("scatter")) MPI_Scatter(s, count, dt, e, count, dt, root, comm);
      else if (IS("scatterv")) MPI_Scatterv(s, counts, displs, dt, e, counts[rank], dt, root, comm);
      MPI_Barrier(comm);
      if (late && rank == k % n) usleep(30000);
      slow_us = slow == rank ? 20000 : 0;
      MPI_Start(&q);
      if (test == 1 || (test == 2 && rank % 2)) { int f = 0; while (!f) MPI_Test(&q, &f, MPI_STATUS_IGNORE); }
      else MPI_Wait(&q, MPI_STATUS_IGNORE);
      slow_us = 0;
      if (after && rank == k % n) usleep(30000);
      if (memcmp(r, e, cap)) { bad = 1; fprintf(stderr, "rank %d create %d round %d: wrong receive buffer\n", rank, cr, k); }
      if (!IS("bcast") && memcmp(s, s0, cap)) { bad = 1; fprintf(stderr, "rank %d create %d round %d: send buffer modified\n", rank, cr, k); }
    }
    MPI_Request_free(&q);
  }
  MPI_Allreduce(MPI_IN_PLACE, &bad, 1, MPI_INT, MPI_MAX, comm);
  MPI_Finalize();
  return bad;
}
