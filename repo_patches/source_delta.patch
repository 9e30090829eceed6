From 76d333ec7992538c3fe6a8a8760df31521815f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 01/36] fix: index the groups array, not the pointer, for a
 single node

---
 src/mpi/num_ports_factors.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi/num_ports_factors.c b/src/mpi/num_ports_factors.c
index 0ac6d02..b6ad503 100644
--- a/src/mpi/num_ports_factors.c
+++ b/src/mpi/num_ports_factors.c
@@ -114,8 +114,8 @@ int ext_mpi_num_ports_factors(int message_size, int collective_type, MPI_Comm co
   (*num_ports) = (int*)malloc((comm_size_row + 1)*sizeof(int));
   (*groups) = (int*)malloc((comm_size_row + 1)*sizeof(int));
   if (comm_size_row == my_cores_per_node_row * num_sockets_per_node) {
-    (*num_ports)[0] = (*groups[0]) = -1;
-    (*num_ports)[1] = (*groups[1]) = 0;
+    (*num_ports)[0] = (*groups)[0] = -1;
+    (*num_ports)[1] = (*groups)[1] = 0;
     ext_mpi_set_ports_single_node(num_sockets_per_node, *num_ports, *groups);
   } else if (!minimum_computation) {
     if (comm_rank_row == 0) {
-- 
2.43.0


From fe84f1e7a9a1295ea44cb635eb37f8fae6f9a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 02/36] fix: measure the copyin method with the single-socket
 setting that matches the ports

---
 src/mpi/cost_copyin_measurement.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/cost_copyin_measurement.c b/src/mpi/cost_copyin_measurement.c
index 78d855b..38de6b6 100644
--- a/src/mpi/cost_copyin_measurement.c
+++ b/src/mpi/cost_copyin_measurement.c
@@ -42,7 +42,7 @@ static double execution_time(const void *sendbuf, void *recvbuf, int count, MPI_
   MPI_Comm_rank(comm_row, &mpi_rank_row);
   handle = EXT_MPI_Allreduce_init_native(sendbuf, recvbuf, count, datatype, op,
     comm_row_, my_cores_per_node_row, comm_column_, my_cores_per_node_column, num_ports_,
-    groups_, copyin_method, copyin_factors, 1, 0, 0, 0, 0, num_sockets_per_node, 0, NULL, NULL);
+    groups_, copyin_method, copyin_factors, 1, 0, 0, num_sockets_per_node == 1, 0, num_sockets_per_node, 0, NULL, NULL);
   iterations = 10;
   flag = 1;
   while (flag) {
-- 
2.43.0


From 6493f43204e2fd5a89ddc7020f7505866ad9f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 03/36] fix: fast flag space is not reserved by the copyin of
 allgather and bcast

---
 src/core/reduce_copyout.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/reduce_copyout.c b/src/core/reduce_copyout.c
index 446a80f..07b9216 100644
--- a/src/core/reduce_copyout.c
+++ b/src/core/reduce_copyout.c
@@ -54,7 +54,9 @@ int ext_mpi_generate_reduce_copyout(char *buffer_in, char *buffer_out) {
   counts = parameters->counts;
   iocounts_max = parameters->iocounts_max;
   iocounts = parameters->iocounts;
-  if (!parameters->on_gpu && parameters->num_sockets == 1 && parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST) {
+  // the copyin of allgatherv and bcast does not leave the space of the fast flag
+  if (!parameters->on_gpu && parameters->num_sockets == 1 && parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST &&
+      parameters->collective_type != collective_type_allgatherv && parameters->root > -10) {
     fast = 1;
   }
   switch (parameters->data_type) {
-- 
2.43.0


From 6f6ea030b9a42463d876787e6feb43de5408ba73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 04/36] fix: compare the socket number with the socket of the
 root rank

---
 src/mpi/backward_interpreter.c | 2 +-
 src/mpi/forward_interpreter.c  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi/backward_interpreter.c b/src/mpi/backward_interpreter.c
index 57ee9cf..f675184 100644
--- a/src/mpi/backward_interpreter.c
+++ b/src/mpi/backward_interpreter.c
@@ -54,7 +54,7 @@ int ext_mpi_generate_backward_interpreter(char *buffer_in, char *buffer_out,
   for (i = 0; i < data.blocks[data.num_blocks - 1].num_lines; i++) {
     for (j = 0; j < data.blocks[data.num_blocks - 1].lines[i].sendto_max; j++) {
       if ((data.blocks[data.num_blocks - 1].lines[i].sendto_node[j] == -1) &&
-          (parameters->socket == parameters->root)) {
+          (parameters->socket == parameters->root / parameters->socket_row_size)) {
         values[data.num_blocks - 1][i] = 2;
       }
     }
diff --git a/src/mpi/forward_interpreter.c b/src/mpi/forward_interpreter.c
index 7a24999..263292b 100644
--- a/src/mpi/forward_interpreter.c
+++ b/src/mpi/forward_interpreter.c
@@ -51,9 +51,9 @@ int ext_mpi_generate_forward_interpreter(char *buffer_in, char *buffer_out,
       values[i][j] = 0;
     }
   }
-  k = parameters->socket == parameters->root;
+  k = parameters->root >= 0 && parameters->socket == parameters->root / parameters->socket_row_size;
   if (parameters->root <= -10) {
-    k = parameters->socket == (-10 - parameters->root);
+    k = parameters->socket == (-10 - parameters->root) / parameters->socket_row_size;
   }
   for (i = 0; i < data.blocks[0].num_lines; i++) {
     for (j = 0; j < data.blocks[0].lines[i].recvfrom_max; j++) {
-- 
2.43.0


From d0dbbc52cd51578e50730231ee9c9d14377ac468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 05/36] fix: division by zero for an empty allreduce or reduce
 on a single node

---
 src/core/reduce_copyin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/reduce_copyin.c b/src/core/reduce_copyin.c
index 68e1f7b..718417d 100644
--- a/src/core/reduce_copyin.c
+++ b/src/core/reduce_copyin.c
@@ -526,7 +526,7 @@ int ext_mpi_generate_reduce_copyin(char *buffer_in, char *buffer_out) {
         ;
       instance_max = (j - 1) / gbstep;
       fast = !parameters->on_gpu && parameters->num_sockets == 1 && parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST;
-      if (fast) {
+      if (fast && moffsets[num_nodes] > 0) {
         type_size = moffsets[num_nodes];
       }
       nbuffer_out += ext_mpi_write_assembler_line(buffer_out + nbuffer_out, parameters->ascii_out, "s", esocket_barrier);
-- 
2.43.0


From 504ba33f0a2f518268d84cc63fabcf217b112144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 06/36] fix: the root of a scatter copies in the lines in the
 order of the permuted algorithm

---
 src/core/reduce_copyin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/reduce_copyin.c b/src/core/reduce_copyin.c
index 718417d..62dee4f 100644
--- a/src/core/reduce_copyin.c
+++ b/src/core/reduce_copyin.c
@@ -493,8 +493,8 @@ int ext_mpi_generate_reduce_copyin(char *buffer_in, char *buffer_out) {
                parameters->socket_rank ==
            -10 - parameters->root)) {
         add = 0;
-        for (i = 0; i < num_nodes; i++) {
-          j = (num_nodes + i + parameters->socket) % num_nodes;
+        for (i = 0; i < data.blocks[0].num_lines; i++) {
+          j = data.blocks[0].lines[i].frac;
           data_memcpy_reduce.type = ememcpy;
           data_memcpy_reduce.buffer_type1 = eshmemo;
           data_memcpy_reduce.buffer_number1 = 0;
-- 
2.43.0


From bbfc8d4c4bb7f9352678ce13f2e3ace2ae0b6084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 07/36] fix: negate the reversed ports of scatter as
 reduce_scatter does

---
 src/mpi/ext_mpi.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index a4de601..f62d52e 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -567,9 +567,10 @@ int ext_mpi_scatterv_init_general(const void *sendbuf, const int *sendcounts, co
   for (i = 0; num_ports[i]; i++);
   for (j = 0; j < i / 2; j++) {
     k = num_ports[j];
-    num_ports[j] = num_ports[i - 1 - j];
-    num_ports[i - 1 - j] = k;
+    num_ports[j] = -num_ports[i - 1 - j];
+    num_ports[i - 1 - j] = -k;
   }
+  if (i % 2) num_ports[i / 2] = -num_ports[i / 2];
   alt = ext_mpi_get_param(ext_mpi_alternating, comm, info, "ext_mpi_alternating", rcount < 10000000 && my_cores_per_node_row * my_cores_per_node_column > 1);
   not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node_row));
   if (ext_mpi_verbose) {
-- 
2.43.0


From 6305a1c1e746b3dd287eb523bd9f20d521bea3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 08/36] fix: gather on a single node runs the allgather of one
 node

---
 src/mpi/ext_mpi.c        | 1 +
 src/mpi/ext_mpi_native.c | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index f62d52e..25144dd 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -344,6 +344,7 @@ int ext_mpi_gatherv_init_general(const void *sendbuf, int sendcount,
   for (i = 0; i < comm_size_row; i++) {
     rcount += recvcounts[i];
   }
+  if (groups[0] == -1 && groups[1] == 0) num_ports[0] = 1;
   alt = ext_mpi_get_param(ext_mpi_alternating, comm, info, "ext_mpi_alternating", rcount < 10000000 && my_cores_per_node_row * my_cores_per_node_column > 1);
   not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node_row));
   if (ext_mpi_verbose) {
diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index b520ed9..7ce2329 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -1060,7 +1060,7 @@ int EXT_MPI_Gatherv_init_native(
     buffer1 = buffer2;
     buffer2 = buffer_temp;
   }
-  if (root >= 0) {
+  if (my_mpi_size_row / my_cores_per_node_row > 1 && root >= 0) {
     if (ext_mpi_generate_backward_interpreter(buffer2, buffer1, comm_row) < 0)
       goto error;
     buffer_temp = buffer1;
-- 
2.43.0


From 1f7d8fd9546f9a0658cc2c50fb9f8e53a5c89480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 09/36] fix: reduce_scatter dropped the backward permutation
 for one task per node

---
 src/mpi/ext_mpi_native.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 7ce2329..1ffc706 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -1555,6 +1555,10 @@ int EXT_MPI_Reduce_scatter_init_native(
         goto error;
     }
 #endif
+  } else {
+    buffer_temp = buffer2;
+    buffer2 = buffer1;
+    buffer1 = buffer_temp;
   }
   if (my_mpi_size_row / my_cores_per_node_row > 1) {
     if (ext_mpi_generate_reduce_copyin(buffer1, buffer2) < 0)
-- 
2.43.0


From 313b42eb6532062c6dae648e7e5ab4f5d9032534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:10 +0000
Subject: [PATCH 10/36] fix: the copyin measurement wrote the full reduction
 into the user's receive buffer

---
 src/mpi/cost_copyin_measurement.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mpi/cost_copyin_measurement.c b/src/mpi/cost_copyin_measurement.c
index 38de6b6..fc68a9c 100644
--- a/src/mpi/cost_copyin_measurement.c
+++ b/src/mpi/cost_copyin_measurement.c
@@ -158,6 +158,7 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
                                   int **copyin_factors, int *num_sockets_per_node) {
   int mpi_rank_row, mpi_size_row, i, j, k, copyin_factors_min[*my_cores_per_node_row+1], msize, copyin_method_min, num_sockets_per_node_min, num_sockets_per_node_max = 1, one_socket_only = 0;
   double time, time_min;
+  void *recvbuf_measurement = NULL;
   if (*num_sockets_per_node == -1) {
     *num_sockets_per_node = -*num_sockets_per_node;
     one_socket_only = 1;
@@ -172,6 +173,11 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
     (*copyin_factors)[0] = 1;
     (*copyin_factors)[1] = 0;
   } else {
+    // the receive buffer of the user may be smaller (reduce_scatter) or missing (reduce), and may hold input (MPI_IN_PLACE)
+#ifdef GPU_ENABLED
+    if (!ext_mpi_gpu_is_device_pointer(recvbuf))
+#endif
+    recvbuf = recvbuf_measurement = calloc(msize + 1, 1);
     time_min = allreduce_measurement(sendbuf, recvbuf, count, datatype, op, comm_row, *my_cores_per_node_row, comm_column, my_cores_per_node_column, num_active_ports, &copyin_method_min, copyin_factors_min, *num_sockets_per_node);
     num_sockets_per_node_min = 1;
     if (*my_cores_per_node_row == mpi_size_row && !one_socket_only) num_sockets_per_node_max = 4;
@@ -191,6 +197,7 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
         }
       }
     }
+    free(recvbuf_measurement);
     MPI_Bcast(&num_sockets_per_node_min, 1, MPI_INT, 0, comm_row);
     *copyin_method = copyin_method_min;
     MPI_Bcast(copyin_method, 1, MPI_INT, 0, comm_row);
-- 
2.43.0


From 0846c7ff39d6977e97d7243c76781553a534429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:10 +0000
Subject: [PATCH 11/36] fix: reduce uses the ports of the number of sockets
 that the measurement selects

---
 src/mpi/ext_mpi.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 25144dd..8d79e5d 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -774,6 +774,9 @@ int ext_mpi_reduce_init_general(const void *sendbuf, void *recvbuf, int count,
           my_cores_per_node, &copyin_method, &copyin_factors, &num_sockets_per_node);
     }
   }
+  if (num_sockets_per_node_ == 1) {
+    ext_mpi_set_ports_single_node(num_sockets_per_node, num_ports, groups);
+  }
   if (ext_mpi_verbose) {
     if (ext_mpi_is_rank_zero(comm, MPI_COMM_NULL)){
       printf("# EXT_MPI MPI tasks per socket: %d\n", my_cores_per_node);
-- 
2.43.0


From fe9fe28c272de42ccf7c93bf583aaa367ad0fb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 12/36] fix: renumber the requests of the messages left after
 the shared memory ones are removed

---
 src/mpi/messages_shared_memory.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mpi/messages_shared_memory.c b/src/mpi/messages_shared_memory.c
index b3f228a..0b5f68e 100644
--- a/src/mpi/messages_shared_memory.c
+++ b/src/mpi/messages_shared_memory.c
@@ -88,6 +88,16 @@ static int delete_from_list(struct line_list **lines_listed_org, int socket, int
       }
     }
   }
+  // the requests of the remaining messages have to be contiguous for the waitall
+  num_comm = 0;
+  for (lines_listed_p1 = *lines_listed_org; ret && lines_listed_p1; lines_listed_p1 = lines_listed_p1->next) {
+    ext_mpi_read_assembler_line(lines_listed_p1->line, 0, "s", &estring1);
+    if ((estring1 == eisend) || (estring1 == eirecv)) {
+      ext_mpi_read_irecv_isend(lines_listed_p1->line, &data_irecv_isend.data);
+      data_irecv_isend.data.tag = num_comm++;
+      ext_mpi_write_irecv_isend(lines_listed_p1->line, &data_irecv_isend.data, 0);
+    }
+  }
   return ret;
 }
 
-- 
2.43.0


From d8730c5c18761689bb7ce215dc294a86fe150200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:51 +0000
Subject: [PATCH 13/36] fix: keep the node barrier between reading the memory
 of another socket and its reuse

---
 src/core/optimise_multi_socket.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/core/optimise_multi_socket.c b/src/core/optimise_multi_socket.c
index 4414e38..24658ce 100644
--- a/src/core/optimise_multi_socket.c
+++ b/src/core/optimise_multi_socket.c
@@ -4,6 +4,20 @@
 #include <stdlib.h>
 #include <string.h>
 
+// the memory of another socket may only be read as long as a node barrier follows
+static int node_barrier_follows(char *buffer, int ascii_in) {
+  enum eassembler_type estring1;
+  char line[1000];
+  int nbuffer = 0, flag;
+  while ((flag = ext_mpi_read_line(buffer + nbuffer, line, ascii_in)) > 0) {
+    nbuffer += flag;
+    if (ext_mpi_read_assembler_line(line, 0, "s", &estring1) >= 0 && estring1 == enode_barrier) {
+      return 1;
+    }
+  }
+  return 0;
+}
+
 int ext_mpi_generate_optimise_multi_socket(char *buffer_in, char *buffer_out) {
   struct line_memcpy_reduce data_memcpy_reduce, data_memcpy_reduce_;
   int nbuffer_out = 0, nbuffer_in = 0, flag1, flag2, flag3, flag4 = 1, line2_new = -1, nline2;
@@ -32,7 +46,8 @@ int ext_mpi_generate_optimise_multi_socket(char *buffer_in, char *buffer_out) {
                     data_memcpy_reduce_.type = enop;
                   }
                 }
-                if ((data_memcpy_reduce_.type == ereduce || data_memcpy_reduce_.type == ereduc_) && data_memcpy_reduce_.buffer_type1 == eshmemo && data_memcpy_reduce_.buffer_type2 == eshmemo && data_memcpy_reduce.offset1 == data_memcpy_reduce_.offset2 && data_memcpy_reduce.size == data_memcpy_reduce_.size && data_memcpy_reduce.buffer_type1 == eshmemo && data_memcpy_reduce.buffer_type2 == eshmemo) {
+                if ((data_memcpy_reduce_.type == ereduce || data_memcpy_reduce_.type == ereduc_) && data_memcpy_reduce_.buffer_type1 == eshmemo && data_memcpy_reduce_.buffer_type2 == eshmemo && data_memcpy_reduce.offset1 == data_memcpy_reduce_.offset2 && data_memcpy_reduce.size == data_memcpy_reduce_.size && data_memcpy_reduce.buffer_type1 == eshmemo && data_memcpy_reduce.buffer_type2 == eshmemo &&
+                    node_barrier_follows(buffer_in + nbuffer_in + nline2, parameters->ascii_in)) {
                   data_memcpy_reduce.type = data_memcpy_reduce_.type;
                   data_memcpy_reduce.offset1 = data_memcpy_reduce_.offset1;
                   flag2 = 0;
-- 
2.43.0


From 8410a89189795c5cd907b65edc4e6f01bd0e71d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:43 +0000
Subject: [PATCH 14/36] fix: the reference scatter of the debug mode used the
 wrong datatype

---
 src/mpi/debug_persistent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/debug_persistent.c b/src/mpi/debug_persistent.c
index 6bdfdc9..1866636 100644
--- a/src/mpi/debug_persistent.c
+++ b/src/mpi/debug_persistent.c
@@ -359,7 +359,7 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
           k++;
     }
   }
-  MPI_Scatterv(sendbuf_h, sendcounts, displs, MPI_LONG, recvbuf_ref, recvcount, MPI_LONG, root, comm);
+  MPI_Scatterv(sendbuf_h, sendcounts, displs, sendtype, recvbuf_ref, recvcount, recvtype, root, comm);
   if (ext_mpi_scatterv_init_general(sendbuf_h, sendcounts, displs, sendtype, recvbuf, recvcount, recvtype, root, comm, info, handle) < 0)
     goto error;
   if (EXT_MPI_Start(*handle) < 0)
-- 
2.43.0


From c1218b0073d59c6d1ab60d54f0691edf1250f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:43 +0000
Subject: [PATCH 15/36] fix: arrays of ports and groups too small for schemes
 with reduction and distribution phases

---
 src/mpi/ext_mpi.c           | 16 ++++++++--------
 src/mpi/num_ports_factors.c |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 8d79e5d..9471660 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -248,10 +248,10 @@ int ext_mpi_allgatherv_init_general(const void *sendbuf, int sendcount,
   my_cores_per_node_row = ext_mpi_get_param(ext_mpi_num_tasks_per_socket, comm, info, "ext_mpi_num_tasks_per_socket", ext_mpi_get_num_tasks_per_socket(comm, num_sockets_per_node));
   my_cores_per_node_column = 1;
   MPI_Type_size(sendtype, &type_size);
-  num_ports = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  num_ports = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
   if (!num_ports)
     goto error;
-  groups = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  groups = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
   if (!groups)
     goto error;
   PMPI_Allreduce(&sendcount, &scount, 1, MPI_INT, MPI_MAX, comm);
@@ -320,10 +320,10 @@ int ext_mpi_gatherv_init_general(const void *sendbuf, int sendcount,
   my_cores_per_node_row = ext_mpi_get_param(ext_mpi_num_tasks_per_socket, comm, info, "ext_mpi_num_tasks_per_socket", ext_mpi_get_num_tasks_per_socket(comm, num_sockets_per_node));
   my_cores_per_node_column = 1;
   MPI_Type_size(sendtype, &type_size);
-  num_ports = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  num_ports = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
   if (!num_ports)
     goto error;
-  groups = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  groups = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
   if (!groups)
     goto error;
   PMPI_Allreduce(&sendcount, &scount, 1, MPI_INT, MPI_MAX, comm);
@@ -442,10 +442,10 @@ int ext_mpi_reduce_scatter_init_general(
   copyin_factors = (int*) malloc(sizeof(int) * (comm_size_row + 1));
   if (!copyin_factors)
     goto error;
-  num_ports = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  num_ports = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
   if (!num_ports)
     goto error;
-  groups = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  groups = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
   if (!groups)
     goto error;
   rcount = 0;
@@ -548,10 +548,10 @@ int ext_mpi_scatterv_init_general(const void *sendbuf, const int *sendcounts, co
   my_cores_per_node_column = 1;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Type_size(sendtype, &type_size);
-  num_ports = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  num_ports = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
   if (!num_ports)
     goto error;
-  groups = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  groups = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
   if (!groups)
     goto error;
   rcount = recvcount;
diff --git a/src/mpi/num_ports_factors.c b/src/mpi/num_ports_factors.c
index b6ad503..39ca4bb 100644
--- a/src/mpi/num_ports_factors.c
+++ b/src/mpi/num_ports_factors.c
@@ -111,8 +111,8 @@ int ext_mpi_num_ports_factors(int message_size, int collective_type, MPI_Comm co
   int comm_rank_row, comm_size_row, factors_max_max = -1, group_size, **factors, *factors_max, *primes, i, j;
   PMPI_Comm_rank(comm_row, &comm_rank_row);
   PMPI_Comm_size(comm_row, &comm_size_row);
-  (*num_ports) = (int*)malloc((comm_size_row + 1)*sizeof(int));
-  (*groups) = (int*)malloc((comm_size_row + 1)*sizeof(int));
+  (*num_ports) = (int*)malloc((2 * comm_size_row + 1)*sizeof(int));
+  (*groups) = (int*)malloc((2 * comm_size_row + 1)*sizeof(int));
   if (comm_size_row == my_cores_per_node_row * num_sockets_per_node) {
     (*num_ports)[0] = (*groups)[0] = -1;
     (*num_ports)[1] = (*groups)[1] = 0;
-- 
2.43.0


From 589331f64073450be7e9e3987c2535726f8bd1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:43 +0000
Subject: [PATCH 16/36] fix: the minimum computation ports are a scheme for
 allreduce only

---
 src/mpi/num_ports_factors.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi/num_ports_factors.c b/src/mpi/num_ports_factors.c
index 39ca4bb..7dc7690 100644
--- a/src/mpi/num_ports_factors.c
+++ b/src/mpi/num_ports_factors.c
@@ -117,7 +117,7 @@ int ext_mpi_num_ports_factors(int message_size, int collective_type, MPI_Comm co
     (*num_ports)[0] = (*groups)[0] = -1;
     (*num_ports)[1] = (*groups)[1] = 0;
     ext_mpi_set_ports_single_node(num_sockets_per_node, *num_ports, *groups);
-  } else if (!minimum_computation) {
+  } else if (!minimum_computation || collective_type != 0) {
     if (comm_rank_row == 0) {
       factors_max_max = ext_mpi_heuristic_recursive_non_factors(comm_size_row/my_cores_per_node_row, collective_type, &factors_max, &factors, &primes);
       factors_max_max = ext_mpi_heuristic_cancel_factors(factors_max_max, factors_max, factors, primes);
@@ -150,7 +150,7 @@ int ext_mpi_num_ports_factors(int message_size, int collective_type, MPI_Comm co
       free(factors_max);
     }
     // FIXME comm_column
-  } else if (minimum_computation){
+  } else {
     //allreduce case for minimum computation
     if (comm_size_row/my_cores_per_node_row==1){
       //if only one node
-- 
2.43.0


From 89eb79a56cbeff70ff77065b06e58614eb5d8e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:54 +0000
Subject: [PATCH 17/36] fix: the lines of a gather are not those of an
 allgather that swap_copyin exchanges

---
 src/mpi/ext_mpi_native.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 1ffc706..8a2e99d 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -1125,7 +1125,7 @@ int EXT_MPI_Gatherv_init_native(
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
+  if (root < 0 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
     if (ext_mpi_generate_swap_copyin(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From ed9e97890c18fa1ece0cf246ffe81ad62659f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:17 +0000
Subject: [PATCH 18/36] fix: tasks of a node chose partners with the inverse
 rank permutation

With irregular counts the rank permutation is not an involution; sender and
receiver tasks then disagreed about who handles a message (deadlock in
allgatherv and gatherv with several tasks per node and two port phases).
---
 src/core/raw_code_tasks_node.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/raw_code_tasks_node.c b/src/core/raw_code_tasks_node.c
index 20b4e36..5eca557 100644
--- a/src/core/raw_code_tasks_node.c
+++ b/src/core/raw_code_tasks_node.c
@@ -12,7 +12,7 @@ int ext_mpi_generate_raw_code_tasks_node(char *buffer_in, char *buffer_out) {
   int nbuffer_out = 0, nbuffer_in = 0, i, j, k, l;
   struct data_algorithm data, data_org;
   struct parameters_block *parameters;
-  int *rank_perm = NULL, *rank_back_perm = NULL, msizes_max = -1;
+  int *rank_perm = NULL, *rank_back_perm = NULL, *temp_perm, msizes_max = -1;
   data.num_blocks = data_org.num_blocks = 0;
   data.blocks = data_org.blocks = NULL;
   nbuffer_in += i = ext_mpi_read_parameters(buffer_in + nbuffer_in, &parameters);
@@ -41,6 +41,11 @@ int ext_mpi_generate_raw_code_tasks_node(char *buffer_in, char *buffer_out) {
   for (i = 0; i < msizes_max; i++) {
     rank_back_perm[rank_perm[i]] = i;
   }
+  /* rank_perm of the parameters maps the permuted nodes to the actual nodes;
+     below, the position of an actual node in the permuted order is needed */
+  temp_perm = rank_perm;
+  rank_perm = rank_back_perm;
+  rank_back_perm = temp_perm;
   node_size = node_row_size * node_column_size;
   nodes_recv = (int *)malloc(sizeof(int) * num_nodes);
   if (!nodes_recv)
-- 
2.43.0


From f191d484b2ff0d3926901fb77e4cb5056fdc746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:57 +0000
Subject: [PATCH 19/36] fix: MPI_Test on the barriers of a collective waited in
 the wrong case

The test functions of the barriers report 'not reached' with 1, the caller
took this as 'reached' and blocked (or returned without progress when the
barrier was complete).  They also stepped the flags of the own task back on
every retry.  They now return 1 when the barrier is complete, advance the
counter, and never lower a flag.
---
 src/mpi/ext_mpi_native_exec.c | 56 ++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/mpi/ext_mpi_native_exec.c b/src/mpi/ext_mpi_native_exec.c
index 6ea827e..494479a 100644
--- a/src/mpi/ext_mpi_native_exec.c
+++ b/src/mpi/ext_mpi_native_exec.c
@@ -33,16 +33,19 @@ static void node_barrier(char **shmem, int *barrier_count, int socket_rank, int
   }
 }
 
-static int node_barrier_test(char **shmem, int barrier_count, int socket_rank, int num_sockets_per_node) {
-  int step;
+static int node_barrier_test(char **shmem, int *barrier_count, int socket_rank, int num_sockets_per_node) {
+  int step, count = *barrier_count;
   for (step = 1; step < num_sockets_per_node; step <<= 1) {
-    ((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = barrier_count;
-    if ((unsigned int)(((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
-      return 1;
+    if ((unsigned int)(((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - count) > INT_MAX) {
+      ((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = count;
+    }
+    if ((unsigned int)(((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - count) > INT_MAX) {
+      return 0;
     }
-    barrier_count++;
+    count++;
   }
-  return 0;
+  *barrier_count = count;
+  return 1;
 }
 
 static void socket_barrier(char *shmem, int *barrier_count, int socket_rank, int num_cores) {
@@ -55,16 +58,19 @@ static void socket_barrier(char *shmem, int *barrier_count, int socket_rank, int
   }
 }
 
-static int socket_barrier_test(char *shmem, int barrier_count, int socket_rank, int num_cores) {
-  int step;
+static int socket_barrier_test(char *shmem, int *barrier_count, int socket_rank, int num_cores) {
+  int step, count = *barrier_count;
   for (step = 1; step < num_cores; step <<= 1) {
-    ((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = barrier_count;
-    if ((unsigned int)(((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
-      return 1;
+    if ((unsigned int)(((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - count) > INT_MAX) {
+      ((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = count;
+    }
+    if ((unsigned int)(((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))] - count) > INT_MAX) {
+      return 0;
     }
-    barrier_count++;
+    count++;
   }
-  return 0;
+  *barrier_count = count;
+  return 1;
 }
 
 static void socket_barrier_atomic_set(char *shmem, int barrier_count, int entry) {
@@ -77,8 +83,12 @@ static void socket_barrier_atomic_wait(char *shmem, int *barrier_count, int entr
   (*barrier_count)++;
 }
 
-static int socket_barrier_atomic_test(char *shmem, int barrier_count, int entry) {
-  return (unsigned int)(((volatile int*)shmem)[entry * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX;
+static int socket_barrier_atomic_test(char *shmem, int *barrier_count, int entry) {
+  if ((unsigned int)(((volatile int*)shmem)[entry * (CACHE_LINE_SIZE / sizeof(int))] - *barrier_count) > INT_MAX) {
+    return 0;
+  }
+  (*barrier_count)++;
+  return 1;
 }
 
 static void reduce_waitany(void **pointers_to, void **pointers_from, int *sizes, int num_red, int op_reduce){
@@ -331,12 +341,9 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
                        header->socket_rank, header->num_cores);
       } else {
         *ip_exec = ip - 1;
-        if (!socket_barrier_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket,
+        if (!socket_barrier_test(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket,
                                  header->socket_rank, header->num_cores)) {
           return 0;
-        } else {
-          socket_barrier(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket,
-                         header->socket_rank, header->num_cores);
         }
       }
       break;
@@ -346,12 +353,9 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
                        header->socket_rank, header->num_sockets_per_node);
       } else {
         *ip_exec = ip - 1;
-        if (!node_barrier_test(header->barrier_shmem_node, header->barrier_counter_node,
+        if (!node_barrier_test(header->barrier_shmem_node, &header->barrier_counter_node,
                                  header->socket_rank, header->num_sockets_per_node)) {
           return 0;
-        } else {
-          node_barrier(header->barrier_shmem_node, &header->barrier_counter_node,
-                         header->socket_rank, header->num_sockets_per_node);
         }
       }
       break;
@@ -364,10 +368,8 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
         socket_barrier_atomic_wait(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket, i1);
       } else {
         *ip_exec = ip - 1 - sizeof(int);
-        if (!socket_barrier_atomic_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket, i1)) {
+        if (!socket_barrier_atomic_test(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket, i1)) {
           return 0;
-        } else {
-          socket_barrier_atomic_wait(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket, i1);
         }
       }
       break;
-- 
2.43.0


From ea06ea76df3b461c545f605beb29286bedd83a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:57 +0000
Subject: [PATCH 20/36] fix: MPI_Testall with MPI_STATUSES_IGNORE never
 reported an incomplete request

---
 src/mpi/ext_mpi_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 3195e2e..dd597ca 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -232,7 +232,7 @@ int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Statu
       if (ret != MPI_SUCCESS){
         return ret;
       }
-      if (!lflag) flag=0;
+      if (!lflag) *flag=0;
     }
   }else{
     *flag = 1;
-- 
2.43.0


From e8e968543dd541e23a2e1cb25a758028edf18488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:37 +0000
Subject: [PATCH 21/36] fix: waitany, waitsome, testany and testsome returned
 inactive requests

With at least one request of the library in the array, MPI_REQUEST_NULL and
already completed requests were reported again and again, waitsome and
testsome reported a completion that did not happen.
---
 src/mpi/ext_mpi_interface.c | 115 ++++++++++++++++++++++++------------
 1 file changed, 77 insertions(+), 38 deletions(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index dd597ca..ad1fd8f 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -116,10 +116,29 @@ int MPI_Scatterv_init(const void *sendbuf, const int *sendcounts, const int *dis
   return ret;
 }
 
+/* started and not yet completed operations of the library, indexed by handle */
+static char *request_active = NULL;
+static int request_active_max = 0;
+
+static int set_active(int handle, int active){
+  char *temp;
+  int i;
+  if (handle >= request_active_max){
+    temp = (char *)realloc(request_active, 2 * handle + 2);
+    if (!temp) return MPI_ERR_NO_MEM;
+    request_active = temp;
+    for (i=request_active_max; i<2*handle+2; i++) request_active[i] = 0;
+    request_active_max = 2 * handle + 2;
+  }
+  request_active[handle] = active;
+  return MPI_SUCCESS;
+}
+
 int MPI_Request_free(MPI_Request *request){
   int handle=ext_mpi_hash_search(request);
   if (handle >= 0){
     EXT_MPI_Done(handle);
+    set_active(handle, 0);
     ext_mpi_hash_delete(request);
   }
   return PMPI_Request_free(request);
@@ -129,7 +148,7 @@ int MPI_Start(MPI_Request *request){
   int handle=ext_mpi_hash_search(request);
   if (handle >= 0){
     EXT_MPI_Start(handle);
-    return MPI_SUCCESS;
+    return set_active(handle, 1);
   }else{
     return PMPI_Start(request);
   }
@@ -139,7 +158,7 @@ int MPI_Wait(MPI_Request *request, MPI_Status *status){
   int handle=ext_mpi_hash_search(request);
   if (handle >= 0){
     EXT_MPI_Wait(handle);
-    return MPI_SUCCESS;
+    return set_active(handle, 0);
   }else{
     return PMPI_Wait(request, status);
   }
@@ -178,43 +197,71 @@ int MPI_Waitall(int count, MPI_Request array_of_requests[], MPI_Status array_of_
   return MPI_SUCCESS;
 }
 
+static int test_any(int count, MPI_Request array_of_requests[], int *indx, int *flag, MPI_Status *status){
+  MPI_Request *others;
+  int ret = MPI_SUCCESS, active = 0, handle, i;
+  *flag = 0;
+  *indx = MPI_UNDEFINED;
+  others = (MPI_Request *)malloc(count * sizeof(MPI_Request));
+  if (!others) return MPI_ERR_NO_MEM;
+  for (i=0; i<count; i++){
+    others[i] = array_of_requests[i];
+    handle = ext_mpi_hash_search(&array_of_requests[i]);
+    if (handle >= 0){
+      others[i] = MPI_REQUEST_NULL;
+      if (handle < request_active_max && request_active[handle]){
+        active = 1;
+        ret = MPI_Test(&array_of_requests[i], flag, status);
+        if (ret != MPI_SUCCESS || *flag){
+          *indx = i;
+          free(others);
+          return ret;
+        }
+      }
+    }
+  }
+  ret = PMPI_Testany(count, others, indx, flag, status);
+  if (*flag){
+    if (*indx != MPI_UNDEFINED){
+      array_of_requests[*indx] = others[*indx];
+    }else if (active){
+      *flag = 0;
+    }
+  }
+  free(others);
+  return ret;
+}
+
 int MPI_Waitany(int count, MPI_Request array_of_requests[], int *indx, MPI_Status *status){
-  int ret, flag, i;
+  int ret, flag;
   if (!is_in_request_array(count, array_of_requests)){
     return PMPI_Waitany(count, array_of_requests, indx, status);
   }
-  while (1){
-    for (i=0; i<count; i++){
-      ret = MPI_Test(&array_of_requests[i], &flag, status);
-      if (ret != MPI_SUCCESS){
-        return ret;
-      }
-      if (flag){
-        *indx = i;
-        return MPI_SUCCESS;
-      }
-    }
-  }
-  return MPI_SUCCESS;
+  do{
+    ret = test_any(count, array_of_requests, indx, &flag, status);
+  }while (ret == MPI_SUCCESS && !flag);
+  return ret;
 }
 
 int MPI_Waitsome(int incount, MPI_Request array_of_requests[], int *outcount, int array_of_indices[], MPI_Status array_of_statuses[]){
+  int ret;
   if (!is_in_request_array(incount, array_of_requests)){
     return PMPI_Waitsome(incount, array_of_requests, outcount, array_of_indices, array_of_statuses);
   }
-  *outcount = 1;
   if (array_of_statuses == MPI_STATUSES_IGNORE){
-    return MPI_Waitany(incount, array_of_requests, &array_of_indices[0], MPI_STATUS_IGNORE);
+    ret = MPI_Waitany(incount, array_of_requests, &array_of_indices[0], MPI_STATUS_IGNORE);
   }else{
-    return MPI_Waitany(incount, array_of_requests, &array_of_indices[0], &array_of_statuses[0]);
+    ret = MPI_Waitany(incount, array_of_requests, &array_of_indices[0], &array_of_statuses[0]);
   }
+  *outcount = array_of_indices[0] == MPI_UNDEFINED ? MPI_UNDEFINED : 1;
+  return ret;
 }
 
 int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status){
   int handle=ext_mpi_hash_search(request);
   if (handle >= 0){
     *flag=EXT_MPI_Test(handle);
-    return MPI_SUCCESS;
+    return *flag ? set_active(handle, 0) : MPI_SUCCESS;
   }else{
     return PMPI_Test(request, flag, status);
   }
@@ -248,36 +295,28 @@ int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Statu
 }
 
 int MPI_Testany(int count, MPI_Request array_of_requests[], int *indx, int *flag, MPI_Status *status){
-  int ret, lflag, i;
   if (!is_in_request_array(count, array_of_requests)){
     return PMPI_Testany(count, array_of_requests, indx, flag, status);
   }
-  *flag = 0;
-  for (i=0; i<count; i++){
-    ret = MPI_Test(&array_of_requests[i], &lflag, status);
-    if (ret != MPI_SUCCESS){
-      return ret;
-    }
-    if (lflag){
-      *flag = 1;
-      *indx = i;
-      return MPI_SUCCESS;
-    }
-  }
-  return MPI_SUCCESS;
+  return test_any(count, array_of_requests, indx, flag, status);
 }
 
 int MPI_Testsome(int incount, MPI_Request array_of_requests[], int *outcount, int array_of_indices[], MPI_Status array_of_statuses[]){
-  int flag;
+  int ret, flag;
   if (!is_in_request_array(incount, array_of_requests)){
     return PMPI_Testsome(incount, array_of_requests, outcount, array_of_indices, array_of_statuses);
   }
-  *outcount = 1;
   if (array_of_statuses == MPI_STATUSES_IGNORE){
-    return MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, MPI_STATUS_IGNORE);
+    ret = MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, MPI_STATUS_IGNORE);
+  }else{
+    ret = MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, &array_of_statuses[0]);
+  }
+  if (!flag){
+    *outcount = 0;
   }else{
-    return MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, &array_of_statuses[0]);
+    *outcount = array_of_indices[0] == MPI_UNDEFINED ? MPI_UNDEFINED : 1;
   }
+  return ret;
 }
 
 int MPI_Allgather_init(const void *sendbuf, int sendcount, MPI_Datatype sendtype, void *recvbuf, int recvcount, MPI_Datatype recvtype, MPI_Comm comm, MPI_Info info, MPI_Request *request){
-- 
2.43.0


From 1c3a24f707b40197f3c83ca543ca19e93a7d2a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:25 +0000
Subject: [PATCH 22/36] fix: recursive allgather/gather/reduce_scatter were
 selected for schemes they cannot handle

---
 src/mpi/ext_mpi.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 9471660..e3b4dac 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -228,6 +228,18 @@ int ext_mpi_is_rank_zero(MPI_Comm comm_row, MPI_Comm comm_column){
   return (!comm_rank_row)&&(!comm_rank_column);
 }
 
+/* the recursive algorithms of allgather and reduce_scatter consist of
+   distribution (sign = 1) or reduction (sign = -1) phases only */
+static int ext_mpi_one_direction(const int *num_ports, int sign) {
+  int i;
+  for (i = 0; num_ports[i]; i++) {
+    if (num_ports[i] * sign < 0) {
+      return 0;
+    }
+  }
+  return 1;
+}
+
 int ext_mpi_allgatherv_init_general(const void *sendbuf, int sendcount,
                                     MPI_Datatype sendtype, void *recvbuf,
                                     const int *recvcounts, const int *displs,
@@ -271,7 +283,7 @@ int ext_mpi_allgatherv_init_general(const void *sendbuf, int sendcount,
   }
   if (groups[0] == -1 && groups[1] == 0) num_ports[0] = 1;
   alt = ext_mpi_get_param(ext_mpi_alternating, comm, info, "ext_mpi_alternating", rcount < 10000000 && my_cores_per_node_row * my_cores_per_node_column > 1);
-  not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node_row));
+  not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node_row) || !ext_mpi_one_direction(num_ports, 1));
   if (ext_mpi_verbose) {
     if (ext_mpi_is_rank_zero(comm, MPI_COMM_NULL)){
       printf("# EXT_MPI MPI tasks per socket: %d\n", my_cores_per_node_row);
@@ -346,7 +358,7 @@ int ext_mpi_gatherv_init_general(const void *sendbuf, int sendcount,
   }
   if (groups[0] == -1 && groups[1] == 0) num_ports[0] = 1;
   alt = ext_mpi_get_param(ext_mpi_alternating, comm, info, "ext_mpi_alternating", rcount < 10000000 && my_cores_per_node_row * my_cores_per_node_column > 1);
-  not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node_row));
+  not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node_row) || !ext_mpi_one_direction(num_ports, 1));
   if (ext_mpi_verbose) {
     if (ext_mpi_is_rank_zero(comm, MPI_COMM_NULL)){
       printf("# EXT_MPI MPI tasks per socket: %d\n", my_cores_per_node_row);
@@ -470,7 +482,7 @@ int ext_mpi_reduce_scatter_init_general(
   }
   if (i % 2) num_ports[i / 2] = -num_ports[i / 2];
   alt = ext_mpi_get_param(ext_mpi_alternating, comm, info, "ext_mpi_alternating", rcount < 10000000 && my_cores_per_node > 1);
-  not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node));
+  not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node) || !ext_mpi_one_direction(num_ports, -1));
   acount = 0;
   for (i = 0; i < comm_size_row; i++) {
     acount += recvcounts[i];
-- 
2.43.0


From dff041316401872e399d8214420873b174d47380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:48 +0000
Subject: [PATCH 23/36] fix: irregular gather/reduce_scatter over nodes used
 the user buffers in the wrong order

---
 src/mpi/ext_mpi_native.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 8a2e99d..5d5f070 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -906,7 +906,7 @@ int EXT_MPI_Gatherv_init_native(
       my_mpi_rank_column, my_mpi_size_column, my_lrank_column, my_lrank_node;
   int *coarse_counts = NULL, *local_counts = NULL, *global_counts = NULL, iret;
   char *buffer1 = NULL, *buffer2 = NULL, *buffer_temp, *str;
-  int nbuffer1 = 0, i, j;
+  int nbuffer1 = 0, i, j, equal_counts;
   buffer1 = (char *)malloc(MAX_BUFFER_SIZE);
   if (!buffer1)
     goto error;
@@ -1010,6 +1010,12 @@ int EXT_MPI_Gatherv_init_native(
     nbuffer1 += sprintf(buffer1 + nbuffer1, " %d", coarse_counts[i]);
   }
   nbuffer1 += sprintf(buffer1 + nbuffer1, "\n");
+  equal_counts = 1;
+  for (i = 0; i < my_mpi_size_row / my_cores_per_node_row; i++) {
+    if (coarse_counts[i] != coarse_counts[0]) {
+      equal_counts = 0;
+    }
+  }
   free(coarse_counts);
   coarse_counts = NULL;
   if (sendtype == MPI_LONG) {
@@ -1102,7 +1108,8 @@ int EXT_MPI_Gatherv_init_native(
 #ifdef GPU_ENABLED
   }
 #endif
-  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
+  // the nodes are permuted if the counts differ
+  if (equal_counts && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
     if (ext_mpi_generate_use_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
@@ -1125,7 +1132,7 @@ int EXT_MPI_Gatherv_init_native(
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (root < 0 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
+  if (root < 0 && equal_counts && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
     if (ext_mpi_generate_swap_copyin(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
@@ -1382,7 +1389,7 @@ int EXT_MPI_Reduce_scatter_init_native(
       my_mpi_rank_column, my_mpi_size_column, my_lrank_column, my_lrank_node;
   int *coarse_counts = NULL, *local_counts = NULL, *global_counts = NULL, iret;
   char *buffer1 = NULL, *buffer2 = NULL, *str, *buffer_temp;
-  int nbuffer1 = 0, i, j;
+  int nbuffer1 = 0, i, j, equal_counts;
   int reduction_op;
   struct parameters_block *parameters;
   buffer1 = (char *)malloc(MAX_BUFFER_SIZE);
@@ -1504,6 +1511,12 @@ int EXT_MPI_Reduce_scatter_init_native(
     nbuffer1 += sprintf(buffer1 + nbuffer1, " %d", coarse_counts[i]);
   }
   nbuffer1 += sprintf(buffer1 + nbuffer1, "\n");
+  equal_counts = 1;
+  for (i = 0; i < my_mpi_size_row / my_cores_per_node_row; i++) {
+    if (coarse_counts[i] != coarse_counts[0]) {
+      equal_counts = 0;
+    }
+  }
   free(coarse_counts);
   coarse_counts = NULL;
   if (datatype == MPI_LONG) {
@@ -1611,7 +1624,8 @@ int EXT_MPI_Reduce_scatter_init_native(
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
+  // the nodes are permuted if the counts differ
+  if (equal_counts && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From b42d68bee956c388d4b9930c428aa71b453e89b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:52 +0000
Subject: [PATCH 24/36] fix: recursive reduce wrote to the receive buffers of
 the ranks that are not the root

---
 src/mpi/ext_mpi_native.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 5d5f070..6b096aa 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -848,7 +848,8 @@ buffer2 = buffer_temp;
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (root > -10 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
+  // the receive buffer of a reduce belongs to the library on the root only
+  if ((root == -1 || root == my_mpi_rank_row) && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From 359fd9d590b62e573822f87c36fce1954eab5c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:17 +0000
Subject: [PATCH 25/36] fix: recursive in-place allreduce/reduce over
 single-task nodes used one buffer for two purposes

---
 src/mpi/ext_mpi_native.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 6b096aa..f7adc54 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -848,8 +848,8 @@ buffer2 = buffer_temp;
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  // the receive buffer of a reduce belongs to the library on the root only
-  if ((root == -1 || root == my_mpi_rank_row) && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
+  // the receive buffer of a reduce belongs to the library on the root only, and the buffers must not be the same (MPI_IN_PLACE)
+  if ((root == -1 || root == my_mpi_rank_row) && sendbuf != recvbuf && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From 52c8fc10a08209d0d2f61c0f75db047e6d64352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:37 +0000
Subject: [PATCH 26/36] fix: allreduce/reduce with one task per socket on a
 single node used the private user buffers for the messages between the
 sockets

---
 src/mpi/ext_mpi_native.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index f7adc54..50cebc1 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -849,7 +849,7 @@ buffer2 = buffer_temp;
     buffer1 = buffer_temp;
   }
   // the receive buffer of a reduce belongs to the library on the root only, and the buffers must not be the same (MPI_IN_PLACE)
-  if ((root == -1 || root == my_mpi_rank_row) && sendbuf != recvbuf && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
+  if ((root == -1 || root == my_mpi_rank_row) && sendbuf != recvbuf && num_sockets_per_node == 1 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From 355d3c852cc387661820f0f745c6b5f8cbd4012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:09 +0000
Subject: [PATCH 27/36] fix: waiting for operations in different orders on
 different ranks deadlocked

---
 src/mpi/ext_mpi_native.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 50cebc1..0c23eb0 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -267,6 +267,17 @@ int EXT_MPI_Progress_native() {
 }
 
 int EXT_MPI_Wait_native(int handle) {
+  int i;
+  // other ranks may wait for the other operations in flight first
+  for (i = 0; i < handle_code_max; i += 2) {
+    if (i != handle && execution_pointer[i]) {
+      active_wait[handle] = 1;
+      while (execution_pointer[handle]) {
+        EXT_MPI_Progress_native();
+      }
+      break;
+    }
+  }
   if (!active_wait[handle]) {
     active_wait[handle] = 3;
   } else {
-- 
2.43.0


From e64f29fcfe8b1ea3a6069b3dae14770ffbfccf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:14 +0000
Subject: [PATCH 28/36] fix: the self check of the init calls overwrote the
 receive buffers

---
 src/mpi/ext_mpi.c | 75 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 75 insertions(+)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index e3b4dac..79b525a 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -240,6 +240,44 @@ static int ext_mpi_one_direction(const int *num_ports, int sign) {
   return 1;
 }
 
+/* the self check of the init functions must not change the contents of the
+   receive buffer */
+static void *ext_mpi_save_recvbuf(const void *recvbuf, size_t size) {
+  void *saved;
+  if ((!recvbuf) || (!size)) {
+    return NULL;
+  }
+#ifdef GPU_ENABLED
+  if (ext_mpi_gpu_is_device_pointer((void *)recvbuf)) {
+    return NULL;
+  }
+#endif
+  saved = malloc(size);
+  if (saved) {
+    memcpy(saved, recvbuf, size);
+  }
+  return saved;
+}
+
+static void ext_mpi_restore_recvbuf(void *recvbuf, void *saved, size_t size) {
+  if (saved) {
+    memcpy(recvbuf, saved, size);
+    free(saved);
+  }
+}
+
+static size_t ext_mpi_extent_recvbuf(const int *recvcounts, const int *displs, MPI_Datatype recvtype, MPI_Comm comm) {
+  int comm_size, type_size, extent = 0, i;
+  MPI_Comm_size(comm, &comm_size);
+  MPI_Type_size(recvtype, &type_size);
+  for (i = 0; i < comm_size; i++) {
+    if (displs[i] + recvcounts[i] > extent) {
+      extent = displs[i] + recvcounts[i];
+    }
+  }
+  return (size_t)extent * type_size;
+}
+
 int ext_mpi_allgatherv_init_general(const void *sendbuf, int sendcount,
                                     MPI_Datatype sendtype, void *recvbuf,
                                     const int *recvcounts, const int *displs,
@@ -248,11 +286,16 @@ int ext_mpi_allgatherv_init_general(const void *sendbuf, int sendcount,
   int comm_rank_row, comm_size_row, *num_ports = NULL, *groups = NULL, type_size, scount,
         alt, rcount, group_size, my_cores_per_node_row, my_cores_per_node_column, not_recursive, num_sockets_per_node, minimum_computation, i;
   char *str;
+  void *saved_recvbuf;
+  size_t saved_size;
   if (ext_mpi_debug) {
+    saved_size = ext_mpi_extent_recvbuf(recvcounts, displs, recvtype, comm);
+    saved_recvbuf = ext_mpi_save_recvbuf(recvbuf, saved_size);
     i = ext_mpi_debug;
     ext_mpi_debug = 0;
     ext_mpi_allgatherv_init_debug(sendbuf, sendcount, sendtype, recvbuf, recvcounts, displs, recvtype, comm, info, handle);
     ext_mpi_debug = i;
+    ext_mpi_restore_recvbuf(recvbuf, saved_recvbuf, saved_size);
   }
   MPI_Comm_rank(comm, &comm_rank_row);
   MPI_Comm_size(comm, &comm_size_row);
@@ -321,11 +364,17 @@ int ext_mpi_gatherv_init_general(const void *sendbuf, int sendcount,
   int comm_size_row, *num_ports = NULL, *groups = NULL, type_size, scount,
       alt, rcount, group_size, my_cores_per_node_row, my_cores_per_node_column, not_recursive, num_sockets_per_node, minimum_computation, i;
   char *str;
+  void *saved_recvbuf;
+  size_t saved_size;
   if (ext_mpi_debug) {
+    MPI_Comm_rank(comm, &i);
+    saved_size = i == root ? ext_mpi_extent_recvbuf(recvcounts, displs, recvtype, comm) : 0;
+    saved_recvbuf = ext_mpi_save_recvbuf(recvbuf, saved_size);
     i = ext_mpi_debug;
     ext_mpi_debug = 0;
     ext_mpi_gatherv_init_debug(sendbuf, sendcount, sendtype, recvbuf, recvcounts, displs, recvtype, root, comm, info, handle);
     ext_mpi_debug = i;
+    ext_mpi_restore_recvbuf(recvbuf, saved_recvbuf, saved_size);
   }
   MPI_Comm_size(comm, &comm_size_row);
   num_sockets_per_node = ext_mpi_get_param(ext_mpi_num_sockets_per_node, comm, info, "ext_mpi_num_sockets_per_node", 1);
@@ -441,11 +490,18 @@ int ext_mpi_reduce_scatter_init_general(
   int comm_size_row, *num_ports = NULL, *groups = NULL, type_size, rcount, acount, not_recursive,
       alt, group_size, copyin_method = -1, *copyin_factors = NULL, num_sockets_per_node, my_cores_per_node, num_sockets_per_node_, minimum_computation, i, j, k;
   char *str;
+  void *saved_recvbuf;
+  size_t saved_size;
   if (ext_mpi_debug) {
+    MPI_Comm_rank(comm, &i);
+    MPI_Type_size(datatype, &type_size);
+    saved_size = (size_t)recvcounts[i] * type_size;
+    saved_recvbuf = ext_mpi_save_recvbuf(recvbuf, saved_size);
     i = ext_mpi_debug;
     ext_mpi_debug = 0;
     ext_mpi_reduce_scatter_init_debug(sendbuf, recvbuf, recvcounts, datatype, op, comm, info, handle);
     ext_mpi_debug = i;
+    ext_mpi_restore_recvbuf(recvbuf, saved_recvbuf, saved_size);
   }
   MPI_Comm_size(comm, &comm_size_row);
   num_sockets_per_node_ = ext_mpi_get_param(ext_mpi_num_sockets_per_node, comm, info, "ext_mpi_num_sockets_per_node", 1);
@@ -549,11 +605,17 @@ int ext_mpi_scatterv_init_general(const void *sendbuf, const int *sendcounts, co
   int comm_size_row, *num_ports = NULL, *groups = NULL, type_size, rcount, my_cores_per_node_row, my_cores_per_node_column,
                      alt, group_size, copyin_method = -1, not_recursive, num_sockets_per_node, minimum_computation, i, j, k;
   char *str;
+  void *saved_recvbuf;
+  size_t saved_size;
   if (ext_mpi_debug) {
+    MPI_Type_size(recvtype, &type_size);
+    saved_size = (size_t)recvcount * type_size;
+    saved_recvbuf = ext_mpi_save_recvbuf(recvbuf, saved_size);
     i = ext_mpi_debug;
     ext_mpi_debug = 0;
     ext_mpi_scatterv_init_debug(sendbuf, sendcounts, displs, sendtype, recvbuf, recvcount, recvtype, root, comm, info, handle);
     ext_mpi_debug = i;
+    ext_mpi_restore_recvbuf(recvbuf, saved_recvbuf, saved_size);
   }
   num_sockets_per_node = ext_mpi_get_param(ext_mpi_num_sockets_per_node, comm, info, "ext_mpi_num_sockets_per_node", 1);
   my_cores_per_node_row = ext_mpi_get_param(ext_mpi_num_tasks_per_socket, comm, info, "ext_mpi_num_tasks_per_socket", ext_mpi_get_num_tasks_per_socket(comm, num_sockets_per_node));
@@ -635,11 +697,17 @@ int ext_mpi_allreduce_init_general(const void *sendbuf, void *recvbuf, int count
                                    MPI_Comm comm, MPI_Info info, int *handle) {
   int comm_size_row, comm_rank_row, alt, message_size, type_size, *num_ports = NULL, *groups = NULL, group_size, copyin_method, *copyin_factors = NULL, num_sockets_per_node, my_cores_per_node_row, my_cores_per_node_column, not_recursive, bit_identical, bit_reproducible, num_sockets_per_node_, minimum_computation, i;
   char *str;
+  void *saved_recvbuf;
+  size_t saved_size;
   if (ext_mpi_debug) {
+    MPI_Type_size(datatype, &type_size);
+    saved_size = (size_t)count * type_size;
+    saved_recvbuf = ext_mpi_save_recvbuf(recvbuf, saved_size);
     i = ext_mpi_debug;
     ext_mpi_debug = 0;
     ext_mpi_allreduce_init_debug(sendbuf, recvbuf, count, datatype, op, comm, info, handle);
     ext_mpi_debug = i;
+    ext_mpi_restore_recvbuf(recvbuf, saved_recvbuf, saved_size);
   }
   num_sockets_per_node_ = ext_mpi_get_param(ext_mpi_num_sockets_per_node, comm, info, "ext_mpi_num_sockets_per_node", 1);
   my_cores_per_node_row = ext_mpi_get_param(ext_mpi_num_tasks_per_socket, comm, info, "ext_mpi_num_tasks_per_socket", ext_mpi_get_num_tasks_per_socket(comm, num_sockets_per_node_));
@@ -735,11 +803,18 @@ int ext_mpi_reduce_init_general(const void *sendbuf, void *recvbuf, int count,
                                 MPI_Comm comm, MPI_Info info, int *handle) {
   int comm_size_row, comm_rank_row, alt, message_size, type_size, *num_ports = NULL, *groups = NULL, group_size, copyin_method, *copyin_factors, num_sockets_per_node, my_cores_per_node, not_recursive, bit_reproducible, num_sockets_per_node_, minimum_computation, i;
   char *str;
+  void *saved_recvbuf;
+  size_t saved_size;
   if (ext_mpi_debug) {
+    MPI_Comm_rank(comm, &i);
+    MPI_Type_size(datatype, &type_size);
+    saved_size = i == root ? (size_t)count * type_size : 0;
+    saved_recvbuf = ext_mpi_save_recvbuf(recvbuf, saved_size);
     i = ext_mpi_debug;
     ext_mpi_debug = 0;
     ext_mpi_reduce_init_debug(sendbuf, recvbuf, count, datatype, op, root, comm, info, handle);
     ext_mpi_debug = i;
+    ext_mpi_restore_recvbuf(recvbuf, saved_recvbuf, saved_size);
   }
   num_sockets_per_node_ = ext_mpi_get_param(ext_mpi_num_sockets_per_node, comm, info, "ext_mpi_num_sockets_per_node", 1);
   my_cores_per_node = ext_mpi_get_param(ext_mpi_num_tasks_per_socket, comm, info, "ext_mpi_num_tasks_per_socket", ext_mpi_get_num_tasks_per_socket(comm, num_sockets_per_node_));
-- 
2.43.0


From 9cc822c0b1fcad50720cc5dc2de3cd672a41720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:35 +0000
Subject: [PATCH 29/36] fix: endless search in the tables of requests and
 communicators once they had no empty slot

---
 src/mpi/hash_table.c          | 62 ++++++++++++++++++++++++++++-------
 src/mpi/hash_table_blocking.c | 62 ++++++++++++++++++++++++++++-------
 2 files changed, 100 insertions(+), 24 deletions(-)

diff --git a/src/mpi/hash_table.c b/src/mpi/hash_table.c
index 7e132b0..bf69252 100644
--- a/src/mpi/hash_table.c
+++ b/src/mpi/hash_table.c
@@ -13,6 +13,7 @@ struct DataItem {
 };
 
 static struct DataItem** hashArray;
+static int hashSize = SIZE;
 static struct DataItem* dummyItem;
 
 static int hashCode(MPI_Request *key) {
@@ -25,42 +26,78 @@ static int hashCode(MPI_Request *key) {
 }
 
 int ext_mpi_hash_search(MPI_Request *key) {
-   int hashIndex = hashCode(key);  
+   int hashIndex = hashCode(key), i;
 
-   while(hashArray[hashIndex] != NULL) {
+   for(i = 0; i < hashSize && hashArray[hashIndex] != NULL; i++) {
 
       if(hashArray[hashIndex]->key == *key)
          return hashArray[hashIndex]->data;
 
       ++hashIndex;
 
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
    }        
 
    return -1;
 }
 
+static void grow() {
+   struct DataItem** oldArray = hashArray;
+   int oldSize = hashSize, hashIndex, i;
+
+   hashSize = 2 * oldSize;
+   hashArray = (struct DataItem**) malloc(hashSize*sizeof(struct DataItem*));
+   for (i=0; i<hashSize; i++){
+      hashArray[i] = NULL;
+   }
+
+   for (i=0; i<oldSize; i++){
+      if(oldArray[i] != NULL && oldArray[i] != dummyItem) {
+         hashIndex = hashCode(&oldArray[i]->key);
+
+         while(hashArray[hashIndex] != NULL) {
+            ++hashIndex;
+
+            hashIndex %= hashSize;
+         }
+
+         hashArray[hashIndex] = oldArray[i];
+      }
+   }
+   free(oldArray);
+}
+
 void ext_mpi_hash_insert(MPI_Request *key, int data) {
 
    struct DataItem *item = (struct DataItem*) malloc(sizeof(struct DataItem));
    item->data = data;  
    item->key = *key;
 
-   int hashIndex = hashCode(key);
+   int hashIndex = hashCode(key), i;
 
-   while(hashArray[hashIndex] != NULL && hashArray[hashIndex]->key != MPI_REQUEST_NULL) {
+   for(i = 0; i < hashSize && hashArray[hashIndex] != NULL && hashArray[hashIndex]->key != MPI_REQUEST_NULL; i++) {
       ++hashIndex;
 		
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
+   }
+
+   if(i == hashSize) {
+      grow();
+      hashIndex = hashCode(key);
+      while(hashArray[hashIndex] != NULL) {
+         ++hashIndex;
+
+         hashIndex %= hashSize;
+      }
    }
 	
    hashArray[hashIndex] = item;
 }
 
 int ext_mpi_hash_delete(MPI_Request *key) {
-   int hashIndex = hashCode(key);
+   int hashIndex = hashCode(key), i;
 
-   while(hashArray[hashIndex] != NULL) {
+   for(i = 0; i < hashSize && hashArray[hashIndex] != NULL; i++) {
 	
       if(hashArray[hashIndex]->key == *key) {
          int temp = hashArray[hashIndex]->data;
@@ -71,7 +108,7 @@ int ext_mpi_hash_delete(MPI_Request *key) {
 		
       ++hashIndex;
 		
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
    }      
 	
    return -1;
@@ -79,8 +116,9 @@ int ext_mpi_hash_delete(MPI_Request *key) {
 
 int ext_mpi_hash_init(){
   int i;
-  hashArray = (struct DataItem**) malloc(SIZE*sizeof(struct DataItem*));
-  for (i=0; i<SIZE; i++){
+  hashSize = SIZE;
+  hashArray = (struct DataItem**) malloc(hashSize*sizeof(struct DataItem*));
+  for (i=0; i<hashSize; i++){
     hashArray[i] = NULL;
   }
   dummyItem = (struct DataItem*) malloc(sizeof(struct DataItem));
@@ -94,7 +132,7 @@ int ext_mpi_hash_init(){
 
 int ext_mpi_hash_done() {
   int i;
-  for (i = 0; i < SIZE; i++) {
+  for (i = 0; i < hashSize; i++) {
     if (hashArray[i] != dummyItem) {
       free(hashArray[i]);
     }
diff --git a/src/mpi/hash_table_blocking.c b/src/mpi/hash_table_blocking.c
index 520eb41..b352a93 100644
--- a/src/mpi/hash_table_blocking.c
+++ b/src/mpi/hash_table_blocking.c
@@ -13,6 +13,7 @@ struct DataItem {
 };
 
 static struct DataItem** hashArray;
+static int hashSize = SIZE;
 static struct DataItem* dummyItem;
 
 static int hashCode(MPI_Comm *key) {
@@ -25,42 +26,78 @@ static int hashCode(MPI_Comm *key) {
 }
 
 int ext_mpi_hash_search_blocking(MPI_Comm *key) {
-   int hashIndex = hashCode(key);  
+   int hashIndex = hashCode(key), i;
 
-   while(hashArray[hashIndex] != NULL) {
+   for(i = 0; i < hashSize && hashArray[hashIndex] != NULL; i++) {
 
       if(hashArray[hashIndex]->key == *key)
          return hashArray[hashIndex]->data;
 
       ++hashIndex;
 
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
    }        
 
    return -1;
 }
 
+static void grow() {
+   struct DataItem** oldArray = hashArray;
+   int oldSize = hashSize, hashIndex, i;
+
+   hashSize = 2 * oldSize;
+   hashArray = (struct DataItem**) malloc(hashSize*sizeof(struct DataItem*));
+   for (i=0; i<hashSize; i++){
+      hashArray[i] = NULL;
+   }
+
+   for (i=0; i<oldSize; i++){
+      if(oldArray[i] != NULL && oldArray[i] != dummyItem) {
+         hashIndex = hashCode(&oldArray[i]->key);
+
+         while(hashArray[hashIndex] != NULL) {
+            ++hashIndex;
+
+            hashIndex %= hashSize;
+         }
+
+         hashArray[hashIndex] = oldArray[i];
+      }
+   }
+   free(oldArray);
+}
+
 void ext_mpi_hash_insert_blocking(MPI_Comm *key, int data) {
 
    struct DataItem *item = (struct DataItem*) malloc(sizeof(struct DataItem));
    item->data = data;  
    item->key = *key;
 
-   int hashIndex = hashCode(key);
+   int hashIndex = hashCode(key), i;
 
-   while(hashArray[hashIndex] != NULL && hashArray[hashIndex]->key != MPI_COMM_NULL) {
+   for(i = 0; i < hashSize && hashArray[hashIndex] != NULL && hashArray[hashIndex]->key != MPI_COMM_NULL; i++) {
       ++hashIndex;
 		
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
+   }
+
+   if(i == hashSize) {
+      grow();
+      hashIndex = hashCode(key);
+      while(hashArray[hashIndex] != NULL) {
+         ++hashIndex;
+
+         hashIndex %= hashSize;
+      }
    }
 	
    hashArray[hashIndex] = item;
 }
 
 int ext_mpi_hash_delete_blocking(MPI_Comm *key) {
-   int hashIndex = hashCode(key);
+   int hashIndex = hashCode(key), i;
 
-   while(hashArray[hashIndex] != NULL) {
+   for(i = 0; i < hashSize && hashArray[hashIndex] != NULL; i++) {
 	
       if(hashArray[hashIndex]->key == *key) {
          int temp = hashArray[hashIndex]->data;
@@ -71,7 +108,7 @@ int ext_mpi_hash_delete_blocking(MPI_Comm *key) {
 		
       ++hashIndex;
 		
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
    }      
 	
    return -1;
@@ -79,8 +116,9 @@ int ext_mpi_hash_delete_blocking(MPI_Comm *key) {
 
 int ext_mpi_hash_init_blocking(){
   int i;
-  hashArray = (struct DataItem**) malloc(SIZE*sizeof(struct DataItem*));
-  for (i=0; i<SIZE; i++){
+  hashSize = SIZE;
+  hashArray = (struct DataItem**) malloc(hashSize*sizeof(struct DataItem*));
+  for (i=0; i<hashSize; i++){
     hashArray[i] = NULL;
   }
   dummyItem = (struct DataItem*) malloc(sizeof(struct DataItem));
@@ -94,7 +132,7 @@ int ext_mpi_hash_init_blocking(){
 
 int ext_mpi_hash_done_blocking() {
   int i;
-  for (i = 0; i < SIZE; i++) {
+  for (i = 0; i < hashSize; i++) {
     if (hashArray[i] != dummyItem) {
       free(hashArray[i]);
     }
-- 
2.43.0


From a1838684fbaf80b0e1d2b689f494759e2df840fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:25 +0000
Subject: [PATCH 30/36] fix: Fortran MPI_INTEGER8 was mapped to the pair type
 MPI_LONG_INT

---
 src/fortran/ext_mpi_f.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fortran/ext_mpi_f.c b/src/fortran/ext_mpi_f.c
index ea606ee..470cba4 100644
--- a/src/fortran/ext_mpi_f.c
+++ b/src/fortran/ext_mpi_f.c
@@ -30,7 +30,7 @@ void mpi_allreduce_init_f08_(const void *sendbuf, void *recvbuf, int *count, MPI
   } else if (*datatype == MPI_INTEGER4) {
     my_data_type = MPI_INT;
   } else if (*datatype == MPI_INTEGER8) {
-    my_data_type = MPI_LONG_INT;
+    my_data_type = MPI_LONG;
   } else {
     my_data_type = *datatype;
   }
@@ -64,7 +64,7 @@ void mpi_allreduce_f08_(const void *sendbuf, void *recvbuf, int *count, MPI_Data
   } else if (*datatype == MPI_INTEGER4) {
     my_data_type = MPI_INT;
   } else if (*datatype == MPI_INTEGER8) {
-    my_data_type = MPI_LONG_INT;
+    my_data_type = MPI_LONG;
   } else {
     my_data_type = *datatype;
   }
-- 
2.43.0


From 7f36108b04713947da928290e55b2c7f46e99aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:10 +0000
Subject: [PATCH 31/36] fix: EXT_MPI_DEBUG=0 did not switch off the self check

---
 src/mpi/ext_mpi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 79b525a..b67a7ff 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -74,7 +74,7 @@ static int read_env() {
   if (mpi_comm_rank == 0) {
     var = ((c = getenv("EXT_MPI_DEBUG")) != NULL);
     if (var) {
-      if (sscanf(c, "%d", &var) == 0){
+      if ((sscanf(c, "%d", &var) != 1) || (!var)) {
         ext_mpi_debug = 0;
       }
       if (ext_mpi_verbose) {
@@ -82,7 +82,7 @@ static int read_env() {
       }
     }
   }
-  MPI_Bcast(&ext_mpi_verbose, 1, MPI_INT, 0, MPI_COMM_WORLD);
+  MPI_Bcast(&ext_mpi_debug, 1, MPI_INT, 0, MPI_COMM_WORLD);
   if (mpi_comm_rank == 0) {
     var = ((c = getenv("EXT_MPI_ALTERNATING")) != NULL);
     if (var) {
-- 
2.43.0


From d78f38985aa7fa29890d27e56ab7ddf83050cf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:25 +0000
Subject: [PATCH 32/36] fix: buffers for the broadcast settings were sized by
 the number of tasks

---
 src/mpi/ext_mpi.c | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index b67a7ff..29c1755 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -42,7 +42,7 @@ static int is_initialised = 0;
 // FIXME: should be 0 if feature is present
 
 static int read_env() {
-  int mpi_comm_rank, mpi_comm_size, var, i, j;
+  int mpi_comm_rank, mpi_comm_size, var, i;
   char *c = NULL;
   MPI_Comm_rank(MPI_COMM_WORLD, &mpi_comm_rank);
   MPI_Comm_size(MPI_COMM_WORLD, &mpi_comm_size);
@@ -120,25 +120,20 @@ static int read_env() {
     ext_mpi_fixed_factors_ports=ext_mpi_fixed_factors_groups=0;
   }
   if (var) {
-    i = 1;
-    j = 2;
-    while (i < mpi_comm_size) {
-      j++;
-      i *= 2;
-    }
     if (mpi_comm_rank == 0) {
       ext_mpi_scan_ports_groups(c, &ext_mpi_fixed_factors_ports, &ext_mpi_fixed_factors_groups);
       for (i=0; ext_mpi_fixed_factors_ports[i]; i++);
       i++;
-    }else{
-      ext_mpi_fixed_factors_ports = (int *)malloc((2 * j + 1) * sizeof(int));
+    }
+    MPI_Bcast(&i, 1, MPI_INT, 0, MPI_COMM_WORLD);
+    if (mpi_comm_rank != 0) {
+      ext_mpi_fixed_factors_ports = (int *)malloc(i * sizeof(int));
       if (!ext_mpi_fixed_factors_ports)
         goto error;
-      ext_mpi_fixed_factors_groups = (int *)malloc((2 * j + 1) * sizeof(int));
+      ext_mpi_fixed_factors_groups = (int *)malloc(i * sizeof(int));
       if (!ext_mpi_fixed_factors_groups)
         goto error;
     }
-    MPI_Bcast(&i, 1, MPI_INT, 0, MPI_COMM_WORLD);
     MPI_Bcast(ext_mpi_fixed_factors_ports, i, MPI_INT, 0, MPI_COMM_WORLD);
     MPI_Bcast(ext_mpi_fixed_factors_groups, i, MPI_INT, 0, MPI_COMM_WORLD);
   }
@@ -152,22 +147,17 @@ static int read_env() {
     ext_mpi_copyin_factors = NULL;
   }
   if (var) {
-    i = 1;
-    j = 2;
-    while (i < mpi_comm_size) {
-      j++;
-      i *= 2;
-    }
     if (mpi_comm_rank == 0) {
       ext_mpi_scan_copyin(c, &ext_mpi_copyin_method, &ext_mpi_copyin_factors);
       for (i=0; ext_mpi_copyin_factors[i]; i++);
       i++;
-    }else{
-      ext_mpi_copyin_factors = (int *)malloc((2 * j + 1) * sizeof(int));
+    }
+    MPI_Bcast(&i, 1, MPI_INT, 0, MPI_COMM_WORLD);
+    if (mpi_comm_rank != 0) {
+      ext_mpi_copyin_factors = (int *)malloc(i * sizeof(int));
       if (!ext_mpi_copyin_factors)
         goto error;
     }
-    MPI_Bcast(&i, 1, MPI_INT, 0, MPI_COMM_WORLD);
     MPI_Bcast(&ext_mpi_copyin_method, 1, MPI_INT, 0, MPI_COMM_WORLD);
     MPI_Bcast(ext_mpi_copyin_factors, i, MPI_INT, 0, MPI_COMM_WORLD);
   }
-- 
2.43.0


From 716bda2abaa91cbd7db64adf8d15df4af7bc6746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:38 +0000
Subject: [PATCH 33/36] fix: keep the statuses of point-to-point requests in
 MPI_Testall

---
 src/mpi/ext_mpi_interface.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index ad1fd8f..0d3797c 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -268,30 +268,37 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status){
 }
 
 int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Status array_of_statuses[]){
-  int ret, lflag, i;
+  MPI_Request *others;
+  int ret = MPI_SUCCESS, lflag, i;
   if (!is_in_request_array(count, array_of_requests)){
     return PMPI_Testall(count, array_of_requests, flag, array_of_statuses);
   }
-  if (array_of_statuses == MPI_STATUSES_IGNORE){
-    *flag = 1;
-    for (i=0; i<count; i++){
+  others = (MPI_Request *)malloc(count * sizeof(MPI_Request));
+  if (!others) return MPI_ERR_NO_MEM;
+  *flag = 1;
+  for (i=0; i<count; i++){
+    others[i] = array_of_requests[i];
+    if (ext_mpi_hash_search(&array_of_requests[i]) >= 0){
+      others[i] = MPI_REQUEST_NULL;
       ret = MPI_Test(&array_of_requests[i], &lflag, MPI_STATUS_IGNORE);
       if (ret != MPI_SUCCESS){
+        free(others);
         return ret;
       }
       if (!lflag) *flag=0;
     }
-  }else{
-    *flag = 1;
+  }
+  /* the other requests complete only together with the last one */
+  if (*flag){
+    ret = PMPI_Testall(count, others, flag, array_of_statuses);
     for (i=0; i<count; i++){
-      ret = MPI_Test(&array_of_requests[i], &lflag, &array_of_statuses[i]);
-      if (ret != MPI_SUCCESS){
-        return ret;
+      if (ext_mpi_hash_search(&array_of_requests[i]) < 0){
+        array_of_requests[i] = others[i];
       }
-      if (!lflag) *flag=0;
     }
   }
-  return MPI_SUCCESS;
+  free(others);
+  return ret;
 }
 
 int MPI_Testany(int count, MPI_Request array_of_requests[], int *indx, int *flag, MPI_Status *status){
-- 
2.43.0


From 7142cd1f24aabdca53f471c4fa05aa47c0e35584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:38 +0000
Subject: [PATCH 34/36] fix: start collective requests in MPI_Startall

---
 src/mpi/ext_mpi_interface.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 0d3797c..5f88d4b 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -154,6 +154,17 @@ int MPI_Start(MPI_Request *request){
   }
 }
 
+int MPI_Startall(int count, MPI_Request array_of_requests[]){
+  int ret, i;
+  for (i=0; i<count; i++){
+    ret = MPI_Start(&array_of_requests[i]);
+    if (ret != MPI_SUCCESS){
+      return ret;
+    }
+  }
+  return MPI_SUCCESS;
+}
+
 int MPI_Wait(MPI_Request *request, MPI_Status *status){
   int handle=ext_mpi_hash_search(request);
   if (handle >= 0){
-- 
2.43.0


From c4e75e09a67611b62cd91fa0c4d462b864a8073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:38 +0000
Subject: [PATCH 35/36] fix: MPI_Request_get_status of collective requests

---
 src/mpi/ext_mpi_interface.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 5f88d4b..3deada0 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -278,6 +278,16 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status){
   }
 }
 
+int MPI_Request_get_status(MPI_Request request, int *flag, MPI_Status *status){
+  int handle=ext_mpi_hash_search(&request);
+  if (handle >= 0){
+    *flag=EXT_MPI_Test(handle);
+    return MPI_SUCCESS;
+  }else{
+    return PMPI_Request_get_status(request, flag, status);
+  }
+}
+
 int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Status array_of_statuses[]){
   MPI_Request *others;
   int ret = MPI_SUCCESS, lflag, i;
-- 
2.43.0


From f72d7c5349f9a22571094e1ccab3009142198b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:38 +0000
Subject: [PATCH 36/36] fix: initialise the library in MPI_Init_thread

---
 src/mpi/ext_mpi_interface.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 3deada0..5340588 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -11,11 +11,10 @@
 int ext_mpi_is_blocking = 0;
 static int comms_blocking[100];
 
-int MPI_Init(int *argc, char ***argv){
+static void init_library(){
   int mpi_comm_rank, var, var2, i;
   char *c;
   MPI_Comm comm = MPI_COMM_WORLD;
-  int ret = PMPI_Init(argc, argv);
   ext_mpi_hash_init();
   EXT_MPI_Init();
   PMPI_Comm_rank(MPI_COMM_WORLD, &mpi_comm_rank);
@@ -39,6 +38,17 @@ int MPI_Init(int *argc, char ***argv){
     }
     comms_blocking[0] = 1;
   }
+}
+
+int MPI_Init(int *argc, char ***argv){
+  int ret = PMPI_Init(argc, argv);
+  init_library();
+  return ret;
+}
+
+int MPI_Init_thread(int *argc, char ***argv, int required, int *provided){
+  int ret = PMPI_Init_thread(argc, argv, required, provided);
+  init_library();
   return ret;
 }
 
-- 
2.43.0

