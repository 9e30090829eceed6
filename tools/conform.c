/* Records, under a real MPI, the messages and shared memory segments of one collective per input line (see conform.py).
   line: <coll> <type> <count> <root> <inplace> <counts|-> <comm> <rounds> [key=value ...] (info entries, '_' for blanks) */
#define _GNU_SOURCE
#include <mpi.h>
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/shm.h>
#include "ext_mpi.h"
static FILE *T;
static int world(MPI_Comm m, int d) {
  MPI_Group a, b; int w;
  PMPI_Comm_group(m, &a); PMPI_Comm_group(MPI_COMM_WORLD, &b); PMPI_Group_translate_ranks(a, 1, &d, b, &w); PMPI_Group_free(&a); PMPI_Group_free(&b);
  return w;
}
int MPI_Isend(const void *b, int c, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Request *q) {
  int s; PMPI_Type_size(t, &s);
  if (T) fprintf(T, " m%d,%d", world(m, d), c * s);
  return PMPI_Isend(b, c, t, d, g, m, q);
}
int shmget(key_t k, size_t n, int f) {
  static int (*real)(key_t, size_t, int);
  if (!real) real = (int (*)(key_t, size_t, int))dlsym(RTLD_NEXT, "shmget");
  if (T && n) fprintf(T, " g%llu", (unsigned long long)n);
  return real(k, n, f);
}
int main(int argc, char **argv) {
  int rank, np, no = 0; char line[4096], out[512];
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &np);
  snprintf(out, sizeof out, "%s.%d", argv[2], rank);
  FILE *O = fopen(out, "w"), *I = fopen(argv[1], "r");
  while (fgets(line, sizeof line, I)) {
    char *tok[64]; int nt = 0;
    for (char *p = strtok(line, " \n"); p; p = strtok(NULL, " \n")) tok[nt++] = p;
    const char *coll = tok[0], *ty = tok[1], *cs = tok[5], *cm = tok[6]; int count = atoi(tok[2]), root = atoi(tok[3]), inplace = atoi(tok[4]), rounds = atoi(tok[7]);
    MPI_Comm comm = MPI_COMM_WORLD; int me, n, sz;
    if (!strcmp(cm, "rev")) PMPI_Comm_split(MPI_COMM_WORLD, 0, np - rank, &comm);
    if (!strcmp(cm, "evenodd")) PMPI_Comm_split(MPI_COMM_WORLD, rank % 2, rank, &comm);
    if (!strcmp(cm, "halves")) PMPI_Comm_split(MPI_COMM_WORLD, rank >= (np + 1) / 2, rank, &comm);
    PMPI_Comm_rank(comm, &me); PMPI_Comm_size(comm, &n);
    MPI_Datatype dt = !strcmp(ty, "int") ? MPI_INT : !strcmp(ty, "double") ? MPI_DOUBLE : !strcmp(ty, "float") ? MPI_FLOAT : MPI_LONG;
    PMPI_Type_size(dt, &sz);
    int counts[64], displs[64], total = 0, v[64], nv = 0;
    if (*cs != '-') for (char *p = (char *)cs; p; p = strchr(p, ',') ? strchr(p, ',') + 1 : NULL) v[nv++] = atoi(p);
    for (int i = 0; i < n; i++) { counts[i] = nv ? v[i % nv] : count; displs[i] = total; total += counts[i]; }
    size_t cap = (size_t)(total + count * n + 16) * sz;
    char *s = calloc(cap, 1), *r = calloc(cap, 1);
    MPI_Info info; MPI_Info_create(&info);
    for (int i = 8; i < nt; i++) {
      char *e = strchr(tok[i], '='); *e = 0;
      for (char *p = e + 1; *p; p++) if (*p == '_') *p = ' ';
      MPI_Info_set(info, tok[i], e + 1);
    }
    const void *sb = inplace ? MPI_IN_PLACE : s; MPI_Request q = MPI_REQUEST_NULL;
    PMPI_Barrier(MPI_COMM_WORLD);
    fprintf(O, "%d", no); T = O;
#define IS(x) (!strcmp(coll, x))
    if (IS("allreduce")) MPI_Allreduce_init(sb, r, count, dt, MPI_SUM, comm, info, &q);
    else if (IS("reduce")) MPI_Reduce_init(sb, r, count, dt, MPI_SUM, root, comm, info, &q);
    else if (IS("bcast")) MPI_Bcast_init(r, count, dt, root, comm, info, &q);
    else if (IS("allgather")) MPI_Allgather_init(s, count, dt, r, count, dt, comm, info, &q);
    else if (IS("allgatherv")) MPI_Allgatherv_init(s, counts[me], dt, r, counts, displs, dt, comm, info, &q);
    else if (IS("reduce_scatter")) MPI_Reduce_scatter_init(s, r, counts, dt, MPI_SUM, comm, info, &q);
    else if (IS("reduce_scatter_block")) MPI_Reduce_scatter_block_init(s, r, count, dt, MPI_SUM, comm, info, &q);
    else if (IS("gather")) MPI_Gather_init(s, count, dt, r, count, dt, root, comm, info, &q);
    else if (IS("gatherv")) MPI_Gatherv_init(s, counts[me], dt, r, counts, displs, dt, root, comm, info, &q);
    else if (IS("scatter")) MPI_Scatter_init(s, count, dt, r, count, dt, root, comm, info, &q);
    else if (IS("scatterv")) MPI_Scatterv_init(s, counts, displs, dt, r, counts[me], dt, root, comm, info, &q);
    for (int k = 0; k < rounds; k++) { MPI_Start(&q); MPI_Wait(&q, MPI_STATUS_IGNORE); }
    T = NULL; fprintf(O, "\n"); fflush(O);
    MPI_Request_free(&q);
    MPI_Info_free(&info);
    if (comm != MPI_COMM_WORLD) PMPI_Comm_free(&comm);
    free(s); free(r); no++;
  }
  MPI_Finalize();
  return 0;
}
