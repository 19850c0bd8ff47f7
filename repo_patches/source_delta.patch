From bbfdba8811071ab5df4d174d9622d43901cebe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 01/23] fix: recognise the whole symmetric heap as remotely
 accessible

The heap window and the allocator cover true_size bytes (including the
page-aligned space added for the allocator's bookkeeping), but only the
first size bytes were recorded as symmetric, so an object allocated in the
tail of the heap was rejected by RMA and atomics.
---
 src/internal/setup_impl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 2c0e21d..a454384 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -181,7 +181,7 @@ static void attach_symm_heap(void)
 
     /* Setup sobj attributes */
     int symm_flag = 0;
-    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, size);
+    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, true_size);
     OSHMPI_sobj_symm_info_allgather(&OSHMPI_global.symm_heap_attr, &symm_flag);
     OSHMPI_sobj_set_handle(&OSHMPI_global.symm_heap_attr, OSHMPI_SOBJ_SYMM_HEAP, symm_flag, 0);
 
@@ -267,7 +267,7 @@ static void initialize_symm_heap(void)
 
     /* Setup sobj attributes */
     int symm_flag = 0;
-    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, size);
+    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, true_size);
     OSHMPI_sobj_symm_info_allgather(&OSHMPI_global.symm_heap_attr, &symm_flag);
     OSHMPI_sobj_set_handle(&OSHMPI_global.symm_heap_attr, OSHMPI_SOBJ_SYMM_HEAP, symm_flag, 0);
 
-- 
2.43.0


From 598b231715e530898673ed1a2985d12f885fabe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 02/23] fix: pass the sized RMA element size in bytes, not bits

---
 src/shmem/rma_sized.c.tpl | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/shmem/rma_sized.c.tpl b/src/shmem/rma_sized.c.tpl
index 27b11f2..9ec43b4 100644
--- a/src/shmem/rma_sized.c.tpl
+++ b/src/shmem/rma_sized.c.tpl
@@ -12,26 +12,26 @@
 
 void shmem_getSIZENAME(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_get(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                    source /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_getSIZENAME(shmem_ctx_t ctx, void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_get(ctx, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get(ctx, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                    source /* target_addr */ , nelems, pe);
 }
 
 void shmem_getSIZENAME_nbi(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_get_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                        source /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_getSIZENAME_nbi(shmem_ctx_t ctx, void *dest, const void *source,
                                size_t nelems, int pe)
 {
-    OSHMPI_ctx_get_nbi(ctx, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get_nbi(ctx, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                        source /* target_addr */ , nelems, pe);
 }
 
@@ -51,13 +51,13 @@ void shmem_ctx_igetSIZENAME(shmem_ctx_t ctx, void *dest, const void *source, ptr
 
 void shmem_putSIZENAME(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_put(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                    dest /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_putSIZENAME(shmem_ctx_t ctx, void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_put(ctx, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put(ctx, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                    dest /* target_addr */ , nelems, pe);
 }
 
@@ -77,14 +77,14 @@ void shmem_ctx_iputSIZENAME(shmem_ctx_t ctx, void *dest, const void *source,
 
 void shmem_putSIZENAME_nbi(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_put_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                        dest /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_putSIZENAME_nbi(shmem_ctx_t ctx, void *dest, const void *source,
                                size_t nelems, int pe)
 {
-    OSHMPI_ctx_put_nbi(ctx, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put_nbi(ctx, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                        dest /* target_addr */ , nelems, pe);
 }
 /* TPL_BLOCK_END */
\ No newline at end of file
-- 
2.43.0


From f3e33f9ea83cce789a53d2b73901a98c76e24542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 03/23] fix: skip spaces that are not attached in fence and
 quiet

---
 src/internal/order_impl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 8d0bcb0..56cc454 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -52,10 +52,12 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_fence(shmem_ctx_t ctx OSHMPI_ATTRIBU
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
         int i;
-        for (i = 0; i < space->config.num_contexts; i++)
+        /* A space that is not attached has no window to flush */
+        for (i = 0; space->ctx_list && i < space->config.num_contexts; i++)
             ctx_flush_impl(&(space->ctx_list[i].ictx));
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
-        ctx_flush_impl(&space->default_ictx);
+        if (space->default_ictx.win != MPI_WIN_NULL)
+            ctx_flush_impl(&space->default_ictx);
 #endif
     }
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
@@ -83,10 +85,12 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
         int i;
-        for (i = 0; i < space->config.num_contexts; i++)
+        /* A space that is not attached has no window to flush */
+        for (i = 0; space->ctx_list && i < space->config.num_contexts; i++)
             ctx_flush_impl(&(space->ctx_list[i].ictx));
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
-        ctx_flush_impl(&space->default_ictx);
+        if (space->default_ictx.win != MPI_WIN_NULL)
+            ctx_flush_impl(&space->default_ictx);
 #endif
     }
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
-- 
2.43.0


From 63247ad7f4d8aac74546183126e01b5c9aa7d9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 04/23] fix: complete active messages in fence and quiet on
 explicit contexts

---
 src/internal/order_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 56cc454..1432238 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -38,6 +38,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_fence(shmem_ctx_t ctx OSHMPI_ATTRIBU
     if (ctx != SHMEM_CTX_DEFAULT) {
         /* Fence on specific context (window) */
         ctx_flush_impl(&(((OSHMPI_ctx_t *) ctx)->ictx));
+        /* Ensure ordered delivery of AMs issued on the context (e.g., AM AMOs) */
+        OSHMPI_am_flush_all(ctx);
         return;
     }
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
@@ -71,6 +73,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
     if (ctx != SHMEM_CTX_DEFAULT) {
         /* Quiet on specific context (window) */
         ctx_flush_impl(&(((OSHMPI_ctx_t *) ctx)->ictx));
+        /* Ensure completion of AMs issued on the context (e.g., AM AMOs) */
+        OSHMPI_am_flush_all(ctx);
         return;
     }
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-- 
2.43.0


From a5d433005cc16acb1a2d3dbd8e3f769b468cb970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:38 +0000
Subject: [PATCH 05/23] fix: complete updates to spaces and to all PEs in
 barriers

---
 src/internal/coll_activeset_impl.h | 13 +++----------
 src/internal/coll_impl.h           | 12 +++---------
 2 files changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 36a9079..0f6c53d 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -119,16 +119,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_barrier(int PE_start, int logPE_stride,
 {
     MPI_Comm comm = MPI_COMM_NULL;
 
-    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put */
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_ictx.win));
-#else
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_heap_ictx.win));
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));
-#endif
-
-    /* Ensure AM completion (e.g., AM AMOs) */
-    OSHMPI_am_flush(SHMEM_CTX_DEFAULT, PE_start, logPE_stride, PE_size);
+    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put on any
+     * symmetric object (attached spaces included) and at any PE */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
 
     /* Ensure completion of memory store */
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
diff --git a/src/internal/coll_impl.h b/src/internal/coll_impl.h
index 243168d..4a41e57 100644
--- a/src/internal/coll_impl.h
+++ b/src/internal/coll_impl.h
@@ -11,15 +11,9 @@
 #include "oshmpi_util.h"
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_barrier_all(void)
 {
-    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put */
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_ictx.win));
-#else
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_heap_ictx.win));
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));
-#endif
-    /* Ensure AM completion (e.g., AM AMOs) */
-    OSHMPI_am_flush_all(SHMEM_CTX_DEFAULT);
+    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put on any
+     * symmetric object (attached spaces included) and at any PE */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
 
     /* Ensure completion of memory store */
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-- 
2.43.0


From 07ee4239fa30eea1ec6713f740d2f97c601033db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 06/23] fix: take the root of an active-set broadcast as a rank
 in the set

---
 src/internal/coll_activeset_impl.h | 43 +++---------------------------
 1 file changed, 4 insertions(+), 39 deletions(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 0f6c53d..f66cba9 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -151,53 +151,18 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync(int PE_start, int logPE_stride, int
     OSHMPI_am_progress_mpi_barrier(comm);
 }
 
-/* Return 1 if root is included in the active set, otherwise 0. */
-OSHMPI_STATIC_INLINE_PREFIX int coll_check_root_in_active_set(int PE_root,
-                                                              int PE_start, int logPE_stride,
-                                                              int PE_size)
-{
-    int i, included = 0;
-    const int pe_stride = 1 << logPE_stride;    /* Implement 2^pe_logs with bitshift. */
-    for (i = 0; i < PE_size; i++) {
-        if (PE_root == PE_start + i * pe_stride) {
-            included = 1;
-            break;
-        }
-    }
-    return included;
-}
-
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_broadcast(void *dest, const void *source, size_t nelems,
                                                   MPI_Datatype mpi_type, int PE_root, int PE_start,
                                                   int logPE_stride, int PE_size)
 {
     MPI_Comm comm = MPI_COMM_NULL;
+    /* PE_root is the zero-based ordinal of the root in the active set. */
+    const int root_pe = PE_start + PE_root * (1 << logPE_stride);
 
     coll_acquire_comm(PE_start, logPE_stride, PE_size, &comm);
 
-    /* Special path: directly use MPI_Bcast if root is included in active set */
-    if (coll_check_root_in_active_set(PE_root, PE_start, logPE_stride, PE_size)) {
-        OSHMPI_am_progress_mpi_bcast(PE_root ==
-                                     OSHMPI_global.team_world_my_pe ? (void *) source : dest,
-                                     nelems, mpi_type, PE_root, comm);
-    } else {
-        OSHMPI_ictx_t *ictx = NULL;
-        OSHMPI_sobj_attr_t *sobj_attr = NULL;
-        MPI_Aint target_disp = -1;
-
-        /* Generic path: every PE in active set gets data from root
-         * FIXME: the semantics ensures dest is updated only on local PE at return,
-         * thus we assume barrier is unneeded.*/
-        OSHMPI_sobj_query_attr_ictx(SHMEM_CTX_DEFAULT, source, PE_root, &sobj_attr, &ictx);
-        OSHMPI_ASSERT(sobj_attr && ictx);
-        OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, source, PE_root,
-                                        OSHMPI_ICTX_DISP_MODE(ictx), &target_disp);
-        OSHMPI_ASSERT(target_disp >= 0);
-
-        OSHMPI_CALLMPI(MPI_Get
-                       (dest, nelems, mpi_type, PE_root, target_disp, nelems, mpi_type, ictx->win));
-        OSHMPI_CALLMPI(MPI_Win_flush_local(PE_root, ictx->win));
-    }
+    OSHMPI_am_progress_mpi_bcast(root_pe == OSHMPI_global.team_world_my_pe ?
+                                 (void *) source : dest, nelems, mpi_type, PE_root, comm);
 }
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_collect(void *dest, const void *source, size_t nelems,
-- 
2.43.0


From 5becedc0377e77f42aef67c2b2d6a13218144bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 07/23] fix: reject strided team splits with an invalid size or
 stride

---
 src/shmem/team.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/shmem/team.c b/src/shmem/team.c
index cc3b68d..f219409 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -122,12 +122,17 @@ int shmem_team_split_strided(shmem_team_t parent_team, int start, int stride, in
 
     /* sanity checks
      * 1. valid start pe rank
-     * 2. valid end pe rank */
+     * 2. valid size and stride (the stride of a single PE is not used)
+     * 3. valid end pe rank */
     if (start < 0 || start >= _parent_team->n_pes) {
         goto fn_fail;
     }
 
-    int end_pe = start + stride * (size - 1);
+    if (size < 1 || (size > 1 && stride < 1)) {
+        goto fn_fail;
+    }
+
+    long end_pe = (long) start + (long) stride * (size - 1);
     if (end_pe < 0 || end_pe >= _parent_team->n_pes) {
         goto fn_fail;
     }
@@ -137,7 +142,7 @@ int shmem_team_split_strided(shmem_team_t parent_team, int start, int stride, in
      * and size).
      * 2. rank of the PE must be selected by the (start, stride, size). */
     rank_selected = (_parent_team->my_pe >= start) && (_parent_team->my_pe <= end_pe)
-        && ((_parent_team->my_pe - start) % stride == 0);
+        && (size == 1 || (_parent_team->my_pe - start) % stride == 0);
 
     OSHMPI_team_split(_parent_team, (rank_selected) ? 1 : MPI_UNDEFINED, &_new_team);
 
-- 
2.43.0


From 2d6b5b52614158c45daed82006299e3bb65cccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 08/23] fix: reject 2D team splits with a non-positive x range

---
 src/shmem/team.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/shmem/team.c b/src/shmem/team.c
index f219409..04a9a02 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -184,6 +184,10 @@ int shmem_team_split_2d(shmem_team_t parent_team, int xrange,
         _parent_team = OSHMPI_TEAM_HANDLE_TO_OBJ(parent_team);
     }
 
+    if (xrange < 1) {
+        goto fn_fail;
+    }
+
     /* X, Y position is used for determine the color of the sub group:
      * 1. PEs in the same X team should have the same Y position (same row)
      * 2. PEs in the same Y team should have the same X position (same col) */
-- 
2.43.0


From 0ff8ba0e83c344cb3274f7e8a16558148f3c3837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 09/23] fix: translate a rank that is not in the source team to
 -1

---
 src/shmem/team.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shmem/team.c b/src/shmem/team.c
index 04a9a02..2387a08 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -69,7 +69,7 @@ int shmem_team_translate_pe(shmem_team_t src_team, int src_pe, shmem_team_t dest
     OSHMPI_team_t *_src_team = NULL;
     OSHMPI_team_t *_dest_team = NULL;
     MPI_Group src_group, dest_group;
-    int dest_rank = 0;
+    int dest_rank = 0, src_size = 0;
 
     if (src_team == SHMEM_TEAM_INVALID || dest_team == SHMEM_TEAM_INVALID) {
         return -1;
@@ -92,6 +92,11 @@ int shmem_team_translate_pe(shmem_team_t src_team, int src_pe, shmem_team_t dest
         dest_group = _dest_team->group;
     }
 
+    OSHMPI_CALLMPI(MPI_Group_size(src_group, &src_size));
+    if (src_pe < 0 || src_pe >= src_size) {
+        return -1;
+    }
+
     OSHMPI_CALLMPI(MPI_Group_translate_ranks(src_group, 1, &src_pe, dest_group, &dest_rank));
     if (dest_rank == MPI_UNDEFINED) {
         dest_rank = -1;
-- 
2.43.0


From 8678914c661ffd40c581442891f5193a931fcddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 10/23] fix: build the shared team from the PEs that share
 memory

---
 src/internal/setup_impl.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index a454384..6913419 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -807,9 +807,9 @@ void OSHMPI_initialize_thread(int required, int *provided)
     OSHMPI_global.team_world->config.num_contexts = 0;
 
     /* Create SHMEM_TEAM_SHARED */
-    OSHMPI_CALLMPI(MPI_Comm_split(OSHMPI_global.team_world_comm, MPI_COMM_TYPE_SHARED,
-                                  OSHMPI_global.team_world_my_pe,
-                                  &(OSHMPI_global.team_shared_comm)));
+    OSHMPI_CALLMPI(MPI_Comm_split_type(OSHMPI_global.team_world_comm, MPI_COMM_TYPE_SHARED,
+                                       OSHMPI_global.team_world_my_pe, MPI_INFO_NULL,
+                                       &(OSHMPI_global.team_shared_comm)));
     OSHMPI_CALLMPI(MPI_Comm_size(OSHMPI_global.team_shared_comm, &OSHMPI_global.team_shared_n_pes));
     OSHMPI_CALLMPI(MPI_Comm_rank(OSHMPI_global.team_shared_comm, &OSHMPI_global.team_shared_my_pe));
     OSHMPI_CALLMPI(MPI_Comm_group(OSHMPI_global.team_shared_comm,
-- 
2.43.0


From 5dd995ed5596597afdb8c89fb14c73e890aed066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 11/23] fix: synchronise every valid team in shmem_team_sync

---
 src/internal/coll_impl.h |  7 +++++++
 src/shmem/coll.c         | 13 ++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/internal/coll_impl.h b/src/internal/coll_impl.h
index 4a41e57..6272959 100644
--- a/src/internal/coll_impl.h
+++ b/src/internal/coll_impl.h
@@ -39,6 +39,13 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_all(void)
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_team(OSHMPI_team_t * team)
 {
+    /* Ensure completion of previously issued memory store */
+#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_ictx.win));
+#else
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_heap_ictx.win));
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_data_ictx.win));
+#endif
     OSHMPI_am_progress_mpi_barrier(team->comm);
 }
 
diff --git a/src/shmem/coll.c b/src/shmem/coll.c
index 972f3d2..fd26f34 100644
--- a/src/shmem/coll.c
+++ b/src/shmem/coll.c
@@ -13,11 +13,14 @@ void shmem_barrier_all(void)
 
 int shmem_team_sync(shmem_team_t team)
 {
-    if (team == SHMEM_TEAM_WORLD) {
-        OSHMPI_sync_all();
-        return SHMEM_SUCCESS;
-    }
-    return SHMEM_OTHER_ERR;
+    OSHMPI_team_t *team_obj;
+
+    if (team == SHMEM_TEAM_INVALID)
+        return SHMEM_OTHER_ERR;
+
+    OSHMPI_TEAM_GET_OBJ(team, team_obj);
+    OSHMPI_sync_team(team_obj);
+    return SHMEM_SUCCESS;
 }
 
 void shmem_sync_all(void)
-- 
2.43.0


From cae6be1913eddbf1f1bdd7273426385251c163f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 12/23] fix: let the accumulate hints cover the reads of wait
 and test

---
 src/internal/setup_impl.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 6913419..1e0b118 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -63,10 +63,10 @@ void OSHMPI_set_mpi_info_args(MPI_Info info)
         c += snprintf(which_accumulate_ops + c, maxlen - c, "%ssum", (c > 0) ? "," : "");
         nops++;
     }
-    if (OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FETCH)) {
-        c += snprintf(which_accumulate_ops + c, maxlen - c, "%sno_op", (c > 0) ? "," : "");
+    /* no_op is always used, by wait and test */
+    c += snprintf(which_accumulate_ops + c, maxlen - c, "%sno_op", (c > 0) ? "," : "");
+    if (OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FETCH))
         nops++;
-    }
     if ((OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_SET)) ||
         (OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_SWAP))) {
         c += snprintf(which_accumulate_ops + c, maxlen - c, "%sreplace", (c > 0) ? "," : "");
@@ -87,16 +87,13 @@ void OSHMPI_set_mpi_info_args(MPI_Info info)
         nops++;
     }
 
-    if (c == 0)
-        strncpy(which_accumulate_ops, "none", maxlen);
-
     OSHMPI_CALLMPI(MPI_Info_set(info, "which_accumulate_ops", (const char *) which_accumulate_ops));
 
     /* accumulate_ops.
      * With MPI standard info values same_op or same_op_no_op,
      * we can enable MPI accumulate based atomics. MPI-3 is required at configure. */
     if (nops == 1) {
-        OSHMPI_CALLMPI(MPI_Info_set(info, "accumulate_ops", "same_op"));
+        OSHMPI_CALLMPI(MPI_Info_set(info, "accumulate_ops", "same_op_no_op"));
         OSHMPI_global.amo_direct = 1;
     } else if (nops == 2 && (OSHMPI_env.amo_ops & (1 << OSHMPI_AMO_FETCH))) {
         OSHMPI_CALLMPI(MPI_Info_set(info, "accumulate_ops", "same_op_no_op"));
-- 
2.43.0


From 9ae24932fda03571bb228b23465fdc4fb5fd1743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 13/23] fix: accept the documented value all for OSHMPI_AMO_OPS

---
 src/internal/setup_impl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 1e0b118..536c4f3 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -301,7 +301,8 @@ static void set_env_amo_ops(const char *str, uint32_t * ops_ptr)
     if (!strncmp(value, "none", strlen("none"))) {
         *ops_ptr = 0;
         return;
-    } else if (!strncmp(value, "any_op", strlen("any_op"))) {
+    } else if (!strncmp(value, "all", strlen("all")) ||
+               !strncmp(value, "any_op", strlen("any_op"))) {
         OSHMPI_amo_op_shift_t op_shift;
         /* add all ops */
         for (op_shift = OSHMPI_AMO_CSWAP; op_shift < OSHMPI_AMO_OP_LAST; op_shift++)
-- 
2.43.0


From 2801837fdf886bd304501e1842e0b4ff9d2bfc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:35 +0000
Subject: [PATCH 14/23] fix: reuse active-message tags cyclically

---
 src/include/oshmpi_util.h | 2 +-
 src/internal/am_impl.c    | 5 +++++
 src/internal/am_impl.h    | 6 ++++--
 src/internal/am_pre.h     | 2 ++
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/include/oshmpi_util.h b/src/include/oshmpi_util.h
index 0d55ac3..b47ef49 100644
--- a/src/include/oshmpi_util.h
+++ b/src/include/oshmpi_util.h
@@ -229,7 +229,7 @@ OSHMPI_STATIC_INLINE_PREFIX int OSHMPIU_single_thread_finc_int(int *val)
 {
     int prev;
     prev = *val;
-    (*val)++;
+    *val = (int) ((unsigned int) prev + 1);
     return prev;
 }
 
diff --git a/src/internal/am_impl.c b/src/internal/am_impl.c
index 08a4905..ed3f7fe 100644
--- a/src/internal/am_impl.c
+++ b/src/internal/am_impl.c
@@ -250,6 +250,11 @@ void OSHMPI_am_initialize(void)
     OSHMPI_am.pkt_ptag_ub = *am_pkt_ptag_ub_p;
     OSHMPI_ASSERT(OSHMPI_am.pkt_ptag_ub > OSHMPI_AM_PKT_PTAG_START);
 
+    int nptags = 1;
+    while (nptags <= (OSHMPI_am.pkt_ptag_ub - OSHMPI_AM_PKT_PTAG_START) / 2)
+        nptags *= 2;
+    OSHMPI_am.pkt_ptag_mask = nptags - 1;
+
     memset(am_cb_funcs, 0, sizeof(am_cb_funcs));
 
     OSHMPI_amo_am_initialize();
diff --git a/src/internal/am_impl.h b/src/internal/am_impl.h
index c5081be..adae72a 100644
--- a/src/internal/am_impl.h
+++ b/src/internal/am_impl.h
@@ -14,8 +14,10 @@
  * have specific source rank. However, here we use an atomic counter per PE for simplicity. */
 OSHMPI_STATIC_INLINE_PREFIX int OSHMPI_am_get_pkt_ptag(void)
 {
-    int tag = OSHMPIU_ATOMIC_CNT_FINC(OSHMPI_am.pkt_ptag_off) + OSHMPI_AM_PKT_PTAG_START;
-    OSHMPI_ASSERT(tag < OSHMPI_am.pkt_ptag_ub);
+    /* Tags are reused cyclically, the number of AM operations is not limited. */
+    unsigned int off = (unsigned int) OSHMPIU_ATOMIC_CNT_FINC(OSHMPI_am.pkt_ptag_off);
+    int tag = (int) (off & OSHMPI_am.pkt_ptag_mask) + OSHMPI_AM_PKT_PTAG_START;
+    OSHMPI_ASSERT(tag <= OSHMPI_am.pkt_ptag_ub);
     return tag;
 }
 
diff --git a/src/internal/am_pre.h b/src/internal/am_pre.h
index f9e0536..55e4585 100644
--- a/src/internal/am_pre.h
+++ b/src/internal/am_pre.h
@@ -166,6 +166,8 @@ typedef struct OSHMPI_am_global {
     OSHMPIU_atomic_cnt_t pkt_ptag_off;  /* Unique tag offset added for each op to avoid package
                                          * mismatch in multithreading. */
     int pkt_ptag_ub;            /* Upper bound of ptag, currently equals to MPI_TAG_UB */
+    unsigned int pkt_ptag_mask; /* Number of distinct ptags minus one. The number is a power of two,
+                                 * thus ptags remain distinct when pkt_ptag_off wraps around. */
 } OSHMPI_am_global_t;
 
 extern OSHMPI_am_global_t OSHMPI_am;
-- 
2.43.0


From 844f8e248320d53af98d80e2b632e8d80c6ee7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:08 +0000
Subject: [PATCH 15/23] fix: read SHMEM_SYMMETRIC_SIZE exactly and round
 fractions up

---
 src/include/oshmpi_util.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/include/oshmpi_util.h b/src/include/oshmpi_util.h
index b47ef49..6211bb8 100644
--- a/src/include/oshmpi_util.h
+++ b/src/include/oshmpi_util.h
@@ -144,12 +144,11 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPIU_free(void *buf)
 
 OSHMPI_STATIC_INLINE_PREFIX uint64_t OSHMPIU_str_to_size(char *s)
 {
-    double val;
+    long double val;
     char *e;
 
-    val = (double) strtof(s, &e);
-    if (e == NULL || *e == '\0')
-        return val;
+    /* Extended precision, any 64-bit integer is exact. */
+    val = strtold(s, &e);
 
     if (*e == 'K' || *e == 'k')
         val *= 1024.;
@@ -162,7 +161,7 @@ OSHMPI_STATIC_INLINE_PREFIX uint64_t OSHMPIU_str_to_size(char *s)
 
     /* ceil is required to match the specification example
      * "3.1M is equivalent to the integer value 3250586" */
-    uint64_t ret_val = ceil(val);
+    uint64_t ret_val = ceill(val);
     return ret_val;
 }
 
-- 
2.43.0


From 2c517db5f9cbd1c35732a69e5054a57f1e318687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:50 +0000
Subject: [PATCH 16/23] fix: complete outstanding operations in shmem_finalize

Active messages still in flight at shmem_finalize (e.g. atomics without a
quiet) were dropped: the barrier does not complete them and the last receive
of the finalizing PE consumed one of them instead of its own termination
packet.
---
 src/internal/setup_impl.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 536c4f3..b01c101 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -856,10 +856,11 @@ static void finalize_impl(void)
         OSHMPI_ERR_ABORT("The MPI library has already been finalized, "
                          "OSHMPI_finalize cannot complete.\n");
 
-    /* Implicit global barrier is required to ensure
-     * that pending communications are completed and that no resources
-     * are released until all PEs have entered shmem_finalize.
-     * The completion part is ensured in unlock calls.*/
+    /* Ensure completion of all pending communications, active messages included. */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
+
+    /* Implicit global barrier is required to ensure that no resources
+     * are released until all PEs have entered shmem_finalize. */
     OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
 
     OSHMPI_coll_finalize();
-- 
2.43.0


From 485677b12ce50cdcae8beaa9bc9655714e2d6e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 17/23] fix: space allocator must refuse empty and oversized
 requests

---
 src/internal/util/mem_pool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/util/mem_pool.c b/src/internal/util/mem_pool.c
index db2b3d5..41193ac 100644
--- a/src/internal/util/mem_pool.c
+++ b/src/internal/util/mem_pool.c
@@ -42,6 +42,10 @@ void *OSHMPIU_mempool_alloc(OSUMPIU_mempool_t * mem_pool, size_t size)
     int off = 0, navail = 0;
     void *ptr = NULL;
 
+    /* Nothing to allocate, or never fits (also avoids overflow in the computation below) */
+    if (size == 0 || size > mem_pool->size)
+        return NULL;
+
     size_t aligned_sz = OSHMPI_ALIGN(size, mem_pool->chunk_size);
     int nalloc = aligned_sz / mem_pool->chunk_size;
 
-- 
2.43.0


From f151c3d421f88c706a81313c22b899acaec168e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 18/23] fix: realloc of size zero frees, realloc synchronises
 before moving a block

---
 src/internal/mem_impl.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/internal/mem_impl.c b/src/internal/mem_impl.c
index 5b920e7..72d7c3a 100644
--- a/src/internal/mem_impl.c
+++ b/src/internal/mem_impl.c
@@ -52,8 +52,15 @@ void *OSHMPI_realloc(void *ptr, size_t size)
 {
     void *rptr = NULL;
 
-    if (size == 0 && ptr == NULL)
-        return ptr;
+    if (size == 0) {
+        if (ptr)
+            OSHMPI_free(ptr);
+        return NULL;
+    }
+
+    /* Ensure that no PE still updates or reads the old block when it is moved. */
+    if (ptr)
+        OSHMPI_barrier_all();
 
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
     rptr = mspace_realloc(OSHMPI_global.symm_heap_mspace, ptr, size);
@@ -68,6 +75,9 @@ void *OSHMPI_align(size_t alignment, size_t size)
 {
     void *ptr = NULL;
 
+    if (size == 0)
+        return ptr;
+
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
     ptr = mspace_memalign(OSHMPI_global.symm_heap_mspace, alignment, size);
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
-- 
2.43.0


From bcd9f555874996938028d1449b2786eb950ffc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 19/23] fix: space calloc honours the count and zeroes before
 other PEs are let in; align the space base

---
 src/include/oshmpi_impl.h |  1 +
 src/internal/space_impl.c | 28 +++++++++++++++++++++++++++-
 src/shmemx/space.c        |  3 +--
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index 74d4a8d..f2b3550 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -389,6 +389,7 @@ int OSHMPI_space_create_ctx(OSHMPI_space_t * space, long options, OSHMPI_ctx_t *
 void OSHMPI_space_attach(OSHMPI_space_t * space);
 void OSHMPI_space_detach(OSHMPI_space_t * space);
 void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size);
+void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size);
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size);
 void OSHMPI_space_free(OSHMPI_space_t * space, void *ptr);
 
diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 881054f..e0516c3 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -184,7 +184,9 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
             break;
         case SHMEMX_MEM_HOST:
         default:
-            base = OSHMPIU_malloc(size);
+            /* Blocks of the space are aligned relative to its base */
+            if (posix_memalign(&base, OSHMPI_global.page_sz, size) != 0)
+                base = NULL;
             space_config.memkind = SHMEMX_MEM_HOST;
             break;
     }
@@ -373,6 +375,30 @@ void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size)
     return ptr;
 }
 
+/* Collectively allocate a zeroed buffer from the space */
+void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size)
+{
+    void *ptr = NULL;
+
+    if (count == 0 || size == 0)
+        return ptr;
+
+    if (count <= SIZE_MAX / size) {
+        OSHMPI_THREAD_ENTER_CS(&space->mem_pool_cs);
+        ptr = OSHMPIU_mempool_alloc(&space->mem_pool, count * size);
+        OSHMPI_THREAD_EXIT_CS(&space->mem_pool_cs);
+    }
+
+    /* Other PEs may access the buffer after the barrier */
+    if (ptr)
+        memset(ptr, 0, count * size);
+
+    OSHMPI_DBGMSG("space_calloc from space %p, count %ld, size %ld -> ptr %p\n",
+                  space, count, size, ptr);
+    OSHMPI_barrier_all();
+    return ptr;
+}
+
 /* Collectively allocate a buffer from the space with byte alignment */
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size)
 {
diff --git a/src/shmemx/space.c b/src/shmemx/space.c
index 4e45509..7353258 100644
--- a/src/shmemx/space.c
+++ b/src/shmemx/space.c
@@ -50,8 +50,7 @@ void *shmemx_space_calloc(shmemx_space_t space, size_t count, size_t size)
 {
     void *ptr = NULL;
     OSHMPI_NOINLINE_RECURSIVE()
-        ptr = OSHMPI_space_malloc((OSHMPI_space_t *) space, size);
-    memset(ptr, 0, size);
+        ptr = OSHMPI_space_calloc((OSHMPI_space_t *) space, count, size);
     return ptr;
 }
 
-- 
2.43.0


From daac4856b9b532b04350f53fe0a78e8e0c54b308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:56 +0000
Subject: [PATCH 20/23] fix: list a memory space only after it is set up

---
 src/internal/space_impl.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index e0516c3..6ed796b 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -199,11 +199,6 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
     OSHMPI_sobj_init_attr(&space->sobj_attr, space_config.memkind, base, size);
     OSHMPI_sobj_set_handle(&space->sobj_attr, OSHMPI_SOBJ_SPACE_HEAP, 0, 0);
 
-    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
-    LL_APPEND(OSHMPI_global.space_list.head, space);
-    OSHMPI_global.space_list.nspaces++;
-    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
-
     space->ctx_list = NULL;
     space->config = space_config;
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
@@ -211,6 +206,12 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
     OSHMPIU_ATOMIC_FLAG_STORE(space->default_ictx.outstanding_op, 0);
 #endif
 
+    /* Other threads may use the space as soon as it is in the list */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    LL_APPEND(OSHMPI_global.space_list.head, space);
+    OSHMPI_global.space_list.nspaces++;
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+
     char space_hints[64];
     space_hints_str(space->config.hints, space_hints, 64);
 
-- 
2.43.0


From 20b679e8f6a7ab78a50d4bcfeeb6a01040af7153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:17 +0000
Subject: [PATCH 21/23] fix: attached spaces are remotely accessible addresses

---
 src/shmem/setup.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/shmem/setup.c b/src/shmem/setup.c
index 2e619ff..02a2b7d 100644
--- a/src/shmem/setup.c
+++ b/src/shmem/setup.c
@@ -71,9 +71,27 @@ int shmem_pe_accessible(int pe)
 
 int shmem_addr_accessible(const void *addr, int pe)
 {
-    return ((OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_heap_attr) ||
-             OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_data_attr)) &&
-            (pe >= 0 && pe < OSHMPI_global.team_world_n_pes)) ? 1 : 0;
+    int found = 0;
+
+    if (pe < 0 || pe >= OSHMPI_global.team_world_n_pes)
+        return 0;
+
+    if (OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_heap_attr) ||
+        OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_data_attr))
+        return 1;
+
+    /* Attached spaces are remotely accessible, too */
+    OSHMPI_space_t *space, *tmp;
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
+        if (OSHMPI_SOBJ_HANDLE_GET_KIND(space->sobj_attr.handle) ==
+            OSHMPI_SOBJ_SPACE_ATTACHED_HEAP && OSHMPI_sobj_check_range(addr, space->sobj_attr)) {
+            found = 1;
+            break;
+        }
+    }
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+    return found;
 }
 
 void *shmem_ptr(const void *dest, int pe)
-- 
2.43.0


From 3aa75471621547f18ae77c626339284f295210e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:17 +0000
Subject: [PATCH 22/23] fix: complete outstanding updates before releasing a
 lock

---
 src/shmem/lock.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/shmem/lock.c b/src/shmem/lock.c
index bdbb30d..47b71ce 100644
--- a/src/shmem/lock.c
+++ b/src/shmem/lock.c
@@ -9,6 +9,8 @@
 
 void shmem_clear_lock(long *lock)
 {
+    /* The updates issued while holding the lock must be complete before the next holder enters. */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
     OSHMPI_clear_lock(lock);
 }
 
-- 
2.43.0


From 7a179f445bf0bc60617396b88b898b29d4386512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:22 +0000
Subject: [PATCH 23/23] fix: handle requests of other PEs while a lock test
 fails

---
 src/internal/lock_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index 4928f7f..040d0bb 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -164,6 +164,9 @@ OSHMPI_STATIC_INLINE_PREFIX int OSHMPI_test_lock(long *lockp)
         OSHMPI_DBGMSG("locked %p, curid=%d\n", lockp, curid - 1);
         return 0;
     }
+
+    /* The caller may retry in a loop: let the holder make progress meanwhile. */
+    OSHMPI_am_cb_progress();
     return 1;
 }
 
-- 
2.43.0

