From 21e28cb0cfe9254c64b5c3030073835fb0fff958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 001/146] fix: memswap advanced its pointers several times per
 byte for small sizes

---
 code/source/essentials/memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/essentials/memory.c b/code/source/essentials/memory.c
index 284492a..5afc408 100644
--- a/code/source/essentials/memory.c
+++ b/code/source/essentials/memory.c
@@ -17,7 +17,7 @@ void zpl_memswap(void *i, void *j, zpl_isize size) {
         zpl_u8 *a = cast(zpl_u8 *) i;
         zpl_u8 *b = cast(zpl_u8 *) j;
         if (a != b) {
-            while (size--) { zpl_swap(zpl_u8, *a++, *b++); }
+            for (; size > 0; size--, a++, b++) { zpl_swap(zpl_u8, *a, *b); }
         }
     } else {
         char buffer[256];
-- 
2.43.0


From a01aa45fd69d21a5433c26ffbb67d7422361f070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 002/146] fix: reverse walked past the end of the array

---
 code/source/core/sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 5b7df2e..167315b 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -165,7 +165,7 @@ void zpl_shuffle(void *base, zpl_isize count, zpl_isize size) {
 
 void zpl_reverse(void *base, zpl_isize count, zpl_isize size) {
     zpl_isize i, j = count - 1;
-    for (i = 0; i < j; i++, j++) zpl_memswap(cast(zpl_u8 *) base + i * size, cast(zpl_u8 *) base + j * size, size);
+    for (i = 0; i < j; i++, j--) zpl_memswap(cast(zpl_u8 *) base + i * size, cast(zpl_u8 *) base + j * size, size);
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From ae7fa176bf8409cb1d2ee4d320e47966222907f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 003/146] fix: radix sort of u8 left its result in the
 temporary array

---
 code/source/core/sort.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 167315b..46cc8c9 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -142,6 +142,8 @@ ZPL_RADIX_SORT_PROC(Type) {
         }                                                                                                          \
         zpl_swap(zpl_##Type *, source, dest);                                                                            \
     }                                                                                                              \
+    /* NOTE: An odd number of passes leaves the result in temp */                                                  \
+    if (source != items) zpl_memcopy(items, source, zpl_size_of(zpl_##Type) * count);                              \
 }
 
 ZPL_RADIX_SORT_PROC_GEN(u8);
-- 
2.43.0


From e06acb51247dcf28cfaddc1f1cefc94065413925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 004/146] fix: shuffle could pick a negative index

---
 code/source/core/sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 46cc8c9..e19a92f 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -159,7 +159,7 @@ void zpl_shuffle(void *base, zpl_isize count, zpl_isize size) {
 
     a = cast(zpl_u8 *) base + (count - 1) * size;
     for (i = count; i > 1; i--) {
-        j = zpl_random_gen_isize(&random) % i;
+        j = zpl_random_range_isize(&random, 0, i - 1);
         zpl_memswap(a, cast(zpl_u8 *) base + j * size, size);
         a -= size;
     }
-- 
2.43.0


From 80d8ecb32cbbe42704a15a084ba903e86b7f2ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 005/146] fix: keep list back links in step when adding and
 removing nodes

---
 code/header/essentials/collections/list.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/list.h b/code/header/essentials/collections/list.h
index 65847a0..f2e0e09 100644
--- a/code/header/essentials/collections/list.h
+++ b/code/header/essentials/collections/list.h
@@ -65,7 +65,10 @@ ZPL_IMPL_INLINE void zpl_list_init(zpl_list *list, void const *ptr) {
 ZPL_IMPL_INLINE zpl_list *zpl_list_add(zpl_list *list, zpl_list *item) {
     item->next = NULL;
 
-    if (list->next) { item->next = list->next; }
+    if (list->next) {
+        item->next = list->next;
+        list->next->prev = item;
+    }
 
     list->next = item;
     item->prev = list;
@@ -74,6 +77,7 @@ ZPL_IMPL_INLINE zpl_list *zpl_list_add(zpl_list *list, zpl_list *item) {
 
 ZPL_IMPL_INLINE zpl_list *zpl_list_remove(zpl_list *list) {
     if (list->prev) { list->prev->next = list->next; }
+    if (list->next) { list->next->prev = list->prev; }
 
     return list->next;
 }
-- 
2.43.0


From 90c66865020ab0eb9a5d691ea871d1a2ce3c3bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 006/146] fix: ring get_array returned one element too few and
 did not honour max_size 0

---
 code/header/essentials/collections/ring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/ring.h b/code/header/essentials/collections/ring.h
index d4ac319..5645442 100644
--- a/code/header/essentials/collections/ring.h
+++ b/code/header/essentials/collections/ring.h
@@ -91,7 +91,7 @@ zpl_array(type)
 ZPL_JOIN2(func, get_array)(ZPL_JOIN2(func, type) * pad, zpl_usize max_size, zpl_allocator a) {    \
 zpl_array(type) vals = 0;                                                                                          \
 zpl_array_init(vals, a);                                                                                       \
-while (--max_size && !ZPL_JOIN2(func, empty)(pad)) {                                               \
+while (max_size-- && !ZPL_JOIN2(func, empty)(pad)) {                                               \
 zpl_array_append(vals, *ZPL_JOIN2(func, get)(pad));                                            \
 }                                                                                                              \
 return vals;                                                                                                   \
-- 
2.43.0


From 6d9185c504cf9281e17549bde3fd1180ba1aadfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 007/146] fix: array append_at past the end wrote outside the
 counted elements

---
 code/header/essentials/collections/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/array.h b/code/header/essentials/collections/array.h
index f237874..79aa388 100644
--- a/code/header/essentials/collections/array.h
+++ b/code/header/essentials/collections/array.h
@@ -159,7 +159,7 @@ ZPL_IMPL_INLINE zpl_b8 zpl__array_append_at_helper(void **x, zpl_isize ind) {
     return true;
 }
 
-#define zpl_array_append_at(x, item, ind) (zpl__array_append_at_helper(cast(void **) & (x), (ind)) && (((x)[ind] = (item)), zpl_array_count(x)++, true))
+#define zpl_array_append_at(x, item, ind) (zpl__array_append_at_helper(cast(void **) & (x), (ind)) && (((x)[zpl_clamp(cast(zpl_isize)(ind), 0, zpl_array_count(x))] = (item)), zpl_array_count(x)++, true))
 
 ZPL_IMPL_INLINE zpl_b8 zpl__array_appendv(void **x, void *items, zpl_isize item_size, zpl_isize item_count) {
     ZPL_ASSERT(item_size == zpl_array_elem_size(*x));
-- 
2.43.0


From 6a6fec58ed4a07d2f20395838b4eb205ce0f87de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 008/146] fix: heap analysis returned misaligned blocks for
 alignments above 32

---
 code/source/essentials/memory_custom.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 8a14656..c0d5ae0 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -80,8 +80,8 @@ ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
 
 #    ifdef ZPL_HEAP_ANALYSIS
         zpl_isize alloc_info_size = zpl_size_of(zpl__heap_alloc_info);
-        zpl_isize alloc_info_remainder = (alloc_info_size % alignment);
-        zpl_isize track_size = zpl_max(alloc_info_size, alignment) + alloc_info_remainder;
+        zpl_isize track_size = zpl_align_forward_i64(alloc_info_size, alignment);
+        zpl_isize alloc_info_remainder = track_size - alloc_info_size;
         switch (type) {
             case ZPL_ALLOCATION_FREE: {
                 if (!old_memory) break;
-- 
2.43.0


From b11e860d81a4c3b755da5c6b7d68271b547099f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 009/146] fix: heap analysis dereferenced a failed allocation

---
 code/source/essentials/memory_custom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index c0d5ae0..0439230 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -145,7 +145,7 @@ ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
     }
 
 #    ifdef ZPL_HEAP_ANALYSIS
-        if (type == ZPL_ALLOCATION_ALLOC) {
+        if (type == ZPL_ALLOCATION_ALLOC && ptr) {
             zpl__heap_alloc_info *alloc_info = cast(zpl__heap_alloc_info *)(cast(char *)ptr + alloc_info_remainder);
             zpl_zero_item(alloc_info);
             alloc_info->size = size - track_size;
-- 
2.43.0


From 866832721233c533fd059e71a07e569085b3c104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 010/146] fix: arena did not account for alignment padding,
 blocks could overlap or leave the arena

---
 code/source/essentials/memory_custom.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 0439230..7cadd1e 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -174,12 +174,14 @@ ZPL_ALLOCATOR_PROC(zpl_arena_allocator_proc) {
             void *end = zpl_pointer_add(arena->physical_start, arena->total_allocated);
             zpl_isize total_size = zpl_align_forward_i64(size, alignment);
 
+            ptr = zpl_align_forward(end, alignment);
+            total_size += zpl_pointer_diff(end, ptr);
+
             // NOTE: Out of memory
             if (arena->total_allocated + total_size > cast(zpl_isize) arena->total_size) {
                 return NULL;
             }
 
-            ptr = zpl_align_forward(end, alignment);
             arena->total_allocated += total_size;
             if (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) zpl_zero_size(ptr, size);
         } break;
-- 
2.43.0


From f31f2d7cf888cbc0d82c3a3c76941afdd15bc1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 011/146] fix: pool blocks were misaligned unless the block
 size was a multiple of the alignment

---
 code/source/essentials/memory_custom.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 7cadd1e..5af1ef6 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -206,6 +206,12 @@ ZPL_ALLOCATOR_PROC(zpl_arena_allocator_proc) {
 // Pool Allocator
 //
 
+// NOTE: every block has to be aligned and able to hold a freelist link
+zpl_internal zpl_isize zpl__pool_block_stride(zpl_pool *pool) {
+    zpl_isize stride = zpl_align_forward_i64(pool->block_size + pool->block_align, pool->block_align);
+    return zpl_max(stride, zpl_size_of(zpl_uintptr));
+}
+
 void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_blocks, zpl_isize block_size, zpl_isize block_align) {
     zpl_isize actual_block_size, pool_size, block_index;
     void *data, *curr;
@@ -218,7 +224,7 @@ void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_bl
     pool->block_align = block_align;
     pool->num_blocks = num_blocks;
 
-    actual_block_size = block_size + block_align;
+    actual_block_size = zpl__pool_block_stride(pool);
     pool_size = num_blocks * actual_block_size;
 
     data = zpl_alloc_align(backing, pool_size, block_align);
@@ -273,7 +279,7 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
             void *curr;
             zpl_uintptr *end;
 
-            actual_block_size = pool->block_size + pool->block_align;
+            actual_block_size = zpl__pool_block_stride(pool);
             pool->total_size = 0;
 
             // NOTE: Init intrusive freelist
-- 
2.43.0


From 29e50478ee5a424c845fbc55f9f31ed532c8dbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 012/146] fix: stack allocator aligned its bookkeeping instead
 of the returned block

---
 code/source/essentials/memory_custom.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 5af1ef6..cc324ea 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -413,16 +413,17 @@ ZPL_ALLOCATOR_PROC(zpl_stack_allocator_proc) {
             size += ZPL_STACK_ALLOC_OFFSET;
             zpl_u64 alloc_offset = s->allocated;
 
-            void *curr =
-                cast(zpl_u64 *) zpl_align_forward(cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->allocated), alignment);
+            // NOTE: the returned block is aligned, its bookkeeping sits right in front of it
+            void *curr = zpl_pointer_sub(
+                zpl_align_forward(zpl_pointer_add(s->physical_start, s->allocated + ZPL_STACK_ALLOC_OFFSET), alignment), ZPL_STACK_ALLOC_OFFSET);
 
             if (cast(zpl_u64 *) zpl_pointer_add(curr, size) > cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->total_size)) {
                 if (s->backing.proc) {
                     void *old_start = s->physical_start;
                     s->physical_start =
                         zpl_resize_align(s->backing, s->physical_start, s->total_size, s->total_size + size, alignment);
-                    curr = cast(zpl_u64 *)
-                        zpl_align_forward(cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->allocated), alignment);
+                    curr = zpl_pointer_sub(
+                        zpl_align_forward(zpl_pointer_add(s->physical_start, s->allocated + ZPL_STACK_ALLOC_OFFSET), alignment), ZPL_STACK_ALLOC_OFFSET);
                     s->total_size = zpl_pointer_diff(old_start, s->physical_start);
                 } else {
                     ZPL_PANIC("Can not resize stack's memory! Allocator not defined!");
-- 
2.43.0


From c18fab878be5ac6d8e48514666871bb4f2517b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 013/146] fix: stack allocator lost track of its size after
 growing

---
 code/source/essentials/memory_custom.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index cc324ea..cbc9e4c 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -419,12 +419,13 @@ ZPL_ALLOCATOR_PROC(zpl_stack_allocator_proc) {
 
             if (cast(zpl_u64 *) zpl_pointer_add(curr, size) > cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->total_size)) {
                 if (s->backing.proc) {
-                    void *old_start = s->physical_start;
-                    s->physical_start =
-                        zpl_resize_align(s->backing, s->physical_start, s->total_size, s->total_size + size, alignment);
+                    zpl_isize new_size = s->total_size + size + alignment;
+                    void *new_start = zpl_resize_align(s->backing, s->physical_start, s->total_size, new_size, alignment);
+                    if (!new_start) return NULL;
+                    s->physical_start = new_start;
+                    s->total_size = new_size;
                     curr = zpl_pointer_sub(
                         zpl_align_forward(zpl_pointer_add(s->physical_start, s->allocated + ZPL_STACK_ALLOC_OFFSET), alignment), ZPL_STACK_ALLOC_OFFSET);
-                    s->total_size = zpl_pointer_diff(old_start, s->physical_start);
                 } else {
                     ZPL_PANIC("Can not resize stack's memory! Allocator not defined!");
                 }
-- 
2.43.0


From 4c75e7ad5efb4acac96388573f7328762a00a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 014/146] fix: stack allocator over existing memory left its
 backing allocator uninitialised

---
 code/header/essentials/memory_custom.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index ec9b383..a46e295 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -435,6 +435,8 @@ ZPL_IMPL_INLINE void zpl_allocation_header_fill(zpl_allocation_header_ev *header
 ZPL_STATIC_ASSERT(ZPL_STACK_ALLOC_OFFSET == 8, "ZPL_STACK_ALLOC_OFFSET != 8");
 
 ZPL_IMPL_INLINE void zpl_stack_memory_init_from_memory(zpl_stack_memory *s, void *start, zpl_isize size) {
+    s->backing.proc = NULL;
+    s->backing.data = NULL;
     s->physical_start = start;
     s->total_size = size;
     s->allocated = 0;
-- 
2.43.0


From 555e480616afe4ed5dcaf066868fd37748cb78d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 015/146] fix: vm trim released the kept region instead of the
 tail

---
 code/source/core/memory_virtual.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/memory_virtual.c b/code/source/core/memory_virtual.c
index 7f16908..8420ab4 100644
--- a/code/source/core/memory_virtual.c
+++ b/code/source/core/memory_virtual.c
@@ -95,7 +95,7 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
         trail_size = vm.size - lead_size - size;
 
         if (lead_size != 0) zpl_vm_free(zpl_vm(vm.data, lead_size));
-        if (trail_size != 0) zpl_vm_free(zpl_vm(ptr, trail_size));
+        if (trail_size != 0) zpl_vm_free(zpl_vm(zpl_pointer_add(ptr, size), trail_size));
         return zpl_vm(ptr, size);
     }
 
-- 
2.43.0


From e39a6ba1c6543ef6402fe97508e207986336caab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 016/146] fix: vm purge reported success as failure

---
 code/source/core/memory_virtual.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/memory_virtual.c b/code/source/core/memory_virtual.c
index 8420ab4..710b55a 100644
--- a/code/source/core/memory_virtual.c
+++ b/code/source/core/memory_virtual.c
@@ -101,7 +101,7 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
 
     zpl_b32 zpl_vm_purge(zpl_virtual_memory vm) {
         int err = madvise(vm.data, vm.size, MADV_DONTNEED);
-        return err != 0;
+        return err == 0;
     }
 
     zpl_isize zpl_virtual_memory_page_size(zpl_isize *alignment_out) {
-- 
2.43.0


From d0d476397ab2b7742dbb84afca067869e53060d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 017/146] fix: scratch ring allocator overlapped blocks, lost
 track of wrapped and misaligned ones and never reused freed memory

---
 code/source/essentials/memory_custom.c | 40 +++++++++++++++++++-------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index cbc9e4c..1f648b4 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -310,10 +310,11 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
 //
 
 void zpl_scratch_memory_init(zpl_scratch_memory *s, void *start, zpl_isize size) {
-    s->physical_start = start;
-    s->total_size = size;
-    s->alloc_point = start;
-    s->free_point = start;
+    // NOTE: the bookkeeping in front of every block is kept aligned
+    s->physical_start = zpl_align_forward(start, zpl_size_of(zpl_allocation_header_ev));
+    s->total_size = (size - zpl_pointer_diff(start, s->physical_start)) & ~(zpl_size_of(zpl_allocation_header_ev) - 1);
+    s->alloc_point = s->physical_start;
+    s->free_point = s->physical_start;
 }
 
 zpl_b32 zpl_scratch_memory_is_in_use(zpl_scratch_memory *s, void *ptr) {
@@ -340,22 +341,36 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
             zpl_allocation_header_ev *header = cast(zpl_allocation_header_ev *) pt;
             void *data = zpl_align_forward(header + 1, alignment);
             void *end = zpl_pointer_add(s->physical_start, s->total_size);
+            zpl_b32 wrapped = false;
 
             ZPL_ASSERT(alignment % 4 == 0);
-            size = ((size + 3) / 4) * 4;
-            pt = zpl_pointer_add(pt, size);
+            size = zpl_align_forward_i64(size, zpl_size_of(zpl_allocation_header_ev));
+            pt = zpl_align_forward(zpl_pointer_add(data, size), zpl_size_of(zpl_allocation_header_ev));
 
             // NOTE: Wrap around
             if (pt > end) {
-                header->size = zpl_pointer_diff(header, end) | ZPL_ISIZE_HIGH_BIT;
+                // NOTE: The ring is already wrapped, everything up to the end is in use or in front of it
+                if (s->alloc_point < s->free_point) return NULL;
+                wrapped = true;
                 pt = s->physical_start;
                 header = cast(zpl_allocation_header_ev *) pt;
                 data = zpl_align_forward(header + 1, alignment);
-                pt = zpl_pointer_add(pt, size);
+                pt = zpl_align_forward(zpl_pointer_add(data, size), zpl_size_of(zpl_allocation_header_ev));
+                if (s->free_point == s->alloc_point) {
+                    if (pt > end) return NULL;
+                    s->alloc_point = s->free_point = s->physical_start;
+                    wrapped = false;
+                } else if (pt >= s->free_point) {
+                    return NULL;
+                }
             }
 
             if (!zpl_scratch_memory_is_in_use(s, pt)) {
-                zpl_allocation_header_fill(header, pt, zpl_pointer_diff(header, pt));
+                if (wrapped && s->alloc_point != end) {
+                    zpl_allocation_header_ev *skip = cast(zpl_allocation_header_ev *) s->alloc_point;
+                    skip->size = zpl_pointer_diff(skip, end) | ZPL_ISIZE_HIGH_BIT;
+                }
+                zpl_allocation_header_fill(header, data, zpl_pointer_diff(header, pt));
                 s->alloc_point = cast(zpl_u8 *) pt;
                 ptr = data;
             }
@@ -376,10 +391,13 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
 
                     while (s->free_point != s->alloc_point) {
                         zpl_allocation_header_ev *header = cast(zpl_allocation_header_ev *) s->free_point;
+                        if (s->free_point == end) {
+                            s->free_point = s->physical_start;
+                            continue;
+                        }
                         if ((header->size & ZPL_ISIZE_HIGH_BIT) == 0) break;
 
-                        s->free_point = zpl_pointer_add(s->free_point, h->size & (~ZPL_ISIZE_HIGH_BIT));
-                        if (s->free_point == end) s->free_point = s->physical_start;
+                        s->free_point = zpl_pointer_add(s->free_point, header->size & (~ZPL_ISIZE_HIGH_BIT));
                     }
                 }
             }
-- 
2.43.0


From 4d1a7a9850dbf3d471f0a6170192b98fc467c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 018/146] fix: vm alloc and free did not report failure

---
 code/source/core/memory_virtual.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/code/source/core/memory_virtual.c b/code/source/core/memory_virtual.c
index 710b55a..1c4243a 100644
--- a/code/source/core/memory_virtual.c
+++ b/code/source/core/memory_virtual.c
@@ -78,12 +78,15 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
         ZPL_ASSERT(size > 0);
         vm.data = mmap(addr, size, PROT_READ | PROT_WRITE, MAP_ANONYMOUS | MAP_PRIVATE, -1, 0);
         vm.size = size;
+        if (vm.data == MAP_FAILED) {
+            vm.data = NULL;
+            vm.size = 0;
+        }
         return vm;
     }
 
     zpl_b32 zpl_vm_free(zpl_virtual_memory vm) {
-        munmap(vm.data, vm.size);
-        return true;
+        return munmap(vm.data, vm.size) == 0;
     }
 
     zpl_virtual_memory zpl_vm_trim(zpl_virtual_memory vm, zpl_isize lead_size, zpl_isize size) {
-- 
2.43.0


From b5f7f4c0e99c91b21ce9cf000bc6bbc444fdeea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 019/146] fix: copying a string crashed when the allocation
 failed

---
 code/header/essentials/memory_custom.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index a46e295..b405adf 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -284,6 +284,7 @@ ZPL_IMPL_INLINE void *zpl_alloc_copy_align(zpl_allocator a, void const *src, zpl
 ZPL_IMPL_INLINE char *zpl_alloc_str_len(zpl_allocator a, char const *str, zpl_isize len) {
     char *result;
     result = cast(char *) zpl_alloc(a, len + 1);
+    if (!result) return NULL;
     zpl_memmove(result, str, len);
     result[len] = '\0';
     return result;
-- 
2.43.0


From a8711fc648af9ab7c73a2c86edded39050bd112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 020/146] fix: failing to shrink an array dropped its elements

---
 code/header/essentials/collections/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/array.h b/code/header/essentials/collections/array.h
index 79aa388..54c51b9 100644
--- a/code/header/essentials/collections/array.h
+++ b/code/header/essentials/collections/array.h
@@ -115,10 +115,10 @@ do {
 ZPL_IMPL_INLINE zpl_b8 zpl__array_set_capacity(void **array, zpl_isize capacity) {
     zpl_array_header *h = ZPL_ARRAY_HEADER(*array);
     if (capacity == h->capacity) return true;
-    if (capacity < h->count) h->count = capacity;
     zpl_isize size = zpl_size_of(zpl_array_header) + h->elem_size * capacity;
     zpl_array_header *nh = cast(zpl_array_header *) zpl_alloc(h->allocator, size);
     if (!nh) return false;
+    if (capacity < h->count) h->count = capacity;
     zpl_memmove(nh, h, zpl_size_of(zpl_array_header) + h->elem_size * h->count);
     nh->allocator = h->allocator;
     nh->elem_size = h->elem_size;
-- 
2.43.0


From 758c255ad5caace742ff3e2332c1ac97ef835920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 021/146] fix: joining strings crashed and leaked when an
 allocation failed

---
 code/source/core/stringlib.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index 6db304b..655b146 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -88,12 +88,16 @@ ZPL_ALWAYS_INLINE zpl_string zpl_string_join(zpl_allocator a, const char **parts
 
     ret = zpl_string_make(a, NULL);
 
-    for (i=0; i<count; ++i) {
-        ret = zpl_string_appendc(ret, parts[i]);
+    for (i=0; ret && i<count; ++i) {
+        zpl_string next = zpl_string_appendc(ret, parts[i]);
 
-        if ((i+1) < count) {
-            ret = zpl_string_appendc(ret, glue);
+        if (next && (i+1) < count) {
+            ret = next;
+            next = zpl_string_appendc(ret, glue);
         }
+
+        if (!next) zpl_string_free(ret);
+        ret = next;
     }
 
     return ret;
-- 
2.43.0


From de782c316e8cd5b8730efc92a8c441fb335863e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 022/146] fix: memory stream leaked its state when its buffer
 could not be allocated

---
 code/source/core/file_stream.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index bbf0651..72d2097 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -45,7 +45,10 @@ zpl_b8 zpl_file_stream_new(zpl_file* file, zpl_allocator allocator) {
     d->alloc = allocator;
     d->flags = ZPL_FILE_STREAM_CLONE_WRITABLE;
     d->cap = 0;
-    if (!zpl_array_init(d->buf, allocator)) return false;
+    if (!zpl_array_init(d->buf, allocator)) {
+        zpl_free(allocator, d);
+        return false;
+    }
     file->ops = zpl_memory_file_operations;
     file->fd = zpl__file_stream_fd_make(d);
     file->dir = NULL;
@@ -63,7 +66,10 @@ zpl_b8 zpl_file_stream_open(zpl_file* file, zpl_allocator allocator, zpl_u8 *buf
     d->alloc = allocator;
     d->flags = flags;
     if (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) {
-        if (!zpl_array_init_reserve(d->buf, allocator, size)) return false;
+        if (!zpl_array_init_reserve(d->buf, allocator, size)) {
+            zpl_free(allocator, d);
+            return false;
+        }
         zpl_memcopy(d->buf, buffer, size);
         d->cap = zpl_array_count(d->buf) = size;
     } else {
-- 
2.43.0


From 02e0e49154b6bf7bcf293db2ce369ca534cf3e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 023/146] fix: strdup wrote out of bounds for long strings, did
 not terminate them and crashed when the allocation failed

---
 code/header/core/string.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index d6f7559..d54fa73 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -424,10 +424,11 @@ ZPL_IMPL_INLINE zpl_f32 zpl_str_to_f32(const char *str, char **end_ptr) {
 
 ZPL_IMPL_INLINE char *zpl_strdup(zpl_allocator a, char *src, zpl_isize max_len) {
     ZPL_ASSERT_NOT_NULL(src);
-    zpl_isize len = zpl_strlen(src);
-    char *dest = cast(char *) zpl_alloc(a, max_len);
-    zpl_memset(dest + len, 0, max_len - len);
-    zpl_strncpy(dest, src, max_len);
+    zpl_isize len = zpl_strnlen(src, max_len);
+    char *dest = cast(char *) zpl_alloc(a, max_len + 1);
+    if (!dest) return NULL;
+    zpl_strncpy(dest, src, len);
+    zpl_memset(dest + len, 0, max_len + 1 - len);
 
     return dest;
 }
-- 
2.43.0


From 03b22cbb0a124efe35bc83433ac23d311530668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 024/146] fix: splitting lines ran past the end without a final
 newline and crashed when an allocation failed

---
 code/header/core/string.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index d54fa73..9cd40aa 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -435,17 +435,23 @@ ZPL_IMPL_INLINE char *zpl_strdup(zpl_allocator a, char *src, zpl_isize max_len)
 
 ZPL_IMPL_INLINE char **zpl_str_split_lines(zpl_allocator alloc, char *source, zpl_b32 strip_whitespace) {
     char **lines = NULL, *p = source, *pd = p;
-    zpl_array_init(lines, alloc);
+    if (!zpl_array_init(lines, alloc)) return NULL;
 
     while (*p) {
-        if (*pd == '\n') {
+        zpl_b32 last = *pd == '\0';
+        if (*pd == '\n' || last) {
             *pd = 0;
-            if (*(pd - 1) == '\r') *(pd - 1) = 0;
+            if (pd > p && *(pd - 1) == '\r') *(pd - 1) = 0;
             if (strip_whitespace && (pd - p) == 0) {
                 p = pd + 1;
+                ++pd;
                 continue;
             }
-            zpl_array_append(lines, p);
+            if (!zpl_array_append(lines, p)) {
+                zpl_array_free(lines);
+                return NULL;
+            }
+            if (last) break;
             p = pd + 1;
         }
         ++pd;
-- 
2.43.0


From 79b9a6b1356100923a495d92787cdacded331f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 025/146] fix: formatted printing overran small buffers,
 misplaced signs and padding, cut integers to their precision and crashed on
 NULL strings

---
 code/source/core/print.c | 209 +++++++++++++++++----------------------
 1 file changed, 93 insertions(+), 116 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index b01e199..c3411e5 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -14,7 +14,8 @@ zpl_isize zpl_printf_err_va(char const *fmt, va_list va) {
 zpl_isize zpl_fprintf_va(struct zpl_file *f, char const *fmt, va_list va) {
     zpl_local_persist zpl_thread_local char buf[ZPL_PRINTF_MAXLEN];
     zpl_isize len = zpl_snprintf_va(buf, zpl_size_of(buf), fmt, va);
-    zpl_b32 res = zpl_file_write(f, buf, len - 1); // NOTE: prevent extra whitespace
+    // NOTE: prevent extra whitespace, a text that had to be cut is written as far as it fits
+    zpl_b32 res = zpl_file_write(f, buf, len > 0 ? len - 1 : zpl_strlen(buf));
     return res ? len : -1;
 }
 
@@ -123,14 +124,10 @@ typedef struct {
 } zpl__format_info;
 
 zpl_internal zpl_isize zpl__print_string(char *text, zpl_isize max_len, zpl__format_info *info, char const *str) {
-    zpl_isize res = 0, len = 0;
-    zpl_isize remaining = max_len;
-    char *begin = text;
+    zpl_isize res = 0, len = 0, padding = 0;
+    char pad = ' ';
 
-    if (str == NULL && max_len >= 6) {
-        res += zpl_strlcpy(text, "(null)", 6);
-        return res;
-    }
+    if (str == NULL) str = "(null)";
 
     if (info && info->precision >= 0)
         len = zpl_strnlen(str, info->precision);
@@ -141,34 +138,22 @@ zpl_internal zpl_isize zpl__print_string(char *text, zpl_isize max_len, zpl__for
         return res;
     }
 
-    if (info && (info->width == 0 || info->flags & ZPL_FMT_MINUS)) {
-        if (info->precision > 0) len = info->precision < len ? info->precision : len;
-        if (res+len > max_len) return res;
-        res += zpl_strlcpy(text, str, len);
-        text += res;
+    if (info && info->width > len) padding = info->width - len;
+    if (info && (info->flags & ZPL_FMT_ZERO) && !(info->flags & ZPL_FMT_MINUS)) pad = '0';
 
-        if (info->width > res) {
-            zpl_isize padding = info->width - len;
-
-            char pad = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-            while (padding-- > 0 && remaining-- > 0) *text++ = pad, res++;
-        }
-    } else {
-        if (info && (info->width > res)) {
-            zpl_isize padding = info->width - len;
-            char pad = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-            while (padding-- > 0 && remaining-- > 0) *text++ = pad, res++;
-        }
+    if (!info || !(info->flags & ZPL_FMT_MINUS)) {
+        while (padding > 0 && res < max_len) text[res++] = pad, padding--;
+    }
 
-        if (res+len > max_len) return res;
-        res += zpl_strlcpy(text, str, len);
+    for (; len > 0 && res < max_len; len--) {
+        char c = *str++;
+        if (info && (info->flags & ZPL_FMT_UPPER)) c = zpl_char_to_upper(c);
+        if (info && (info->flags & ZPL_FMT_LOWER)) c = zpl_char_to_lower(c);
+        text[res++] = c;
     }
 
-    if (info) {
-        if (info->flags & ZPL_FMT_UPPER)
-            zpl_str_to_upper(begin);
-        else if (info->flags & ZPL_FMT_LOWER)
-            zpl_str_to_lower(begin);
+    if (info && (info->flags & ZPL_FMT_MINUS)) {
+        while (padding > 0 && res < max_len) text[res++] = pad, padding--;
     }
 
     return res;
@@ -183,112 +168,106 @@ zpl_internal zpl_isize zpl__print_char(char *text, zpl_isize max_len, zpl__forma
 zpl_internal zpl_isize zpl__print_repeated_char(char *text, zpl_isize max_len, zpl__format_info *info, char arg) {
     zpl_isize res = 0;
     zpl_i32 rem = (info) ? (info->width > 0) ? info->width : 1 : 1;
-    res = rem;
-    while (rem-- > 0) *text++ = arg;
+    while (rem-- > 0 && res < max_len) text[res++] = arg;
 
     return res;
 }
 
+// NOTE: the sign goes in front of the zeroes
+zpl_internal zpl_isize zpl__print_number(char *text, zpl_isize max_len, zpl__format_info *info, char const *num) {
+    zpl_isize res = 0, zeros = 0, sign = !zpl_char_is_alphanumeric(*num);
+    zpl__format_info rest = { 0 };
+    if (info) rest = *info;
+    if (rest.precision >= 0) rest.flags &= ~ZPL_FMT_ZERO;
+
+    if (!(rest.width == 0 && rest.flags & ZPL_FMT_WIDTH)) {
+        zpl_isize len = zpl_strlen(num) - sign;
+        if (rest.precision > len) zeros = rest.precision - len;
+        if (rest.width > sign + zeros + len && !(rest.flags & ZPL_FMT_MINUS)) {
+            if (rest.flags & ZPL_FMT_ZERO) zeros = rest.width - sign - len;
+            else for (; rest.width > sign + zeros + len && res < max_len; rest.width--) text[res++] = ' ';
+        }
+        if (sign && res < max_len) text[res++] = *num++;
+        rest.width -= cast(zpl_i32) (sign + zeros);
+        while (zeros-- > 0 && res < max_len) text[res++] = '0';
+        if (rest.width < 0) rest.width = 0;
+        if (rest.width == 0) rest.flags &= ~ZPL_FMT_WIDTH;
+    }
+
+    rest.precision = -1;
+    rest.flags &= ~ZPL_FMT_ZERO;
+    return res + zpl__print_string(text + res, max_len - res, &rest, num);
+}
+
 zpl_internal zpl_isize zpl__print_i64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_i64 value) {
-    char num[130];
-    zpl_i64_to_str(value, num, info ? info->base : 10);
-    return zpl__print_string(text, max_len, info, num);
+    char num[130] = "+";
+    zpl_isize sign = 0;
+    if (info && value >= 0 && (info->flags & (ZPL_FMT_PLUS | ZPL_FMT_SPACE))) {
+        if (!(info->flags & ZPL_FMT_PLUS)) num[0] = ' ';
+        sign = 1;
+    }
+    zpl_i64_to_str(value, num + sign, info ? info->base : 10);
+    return zpl__print_number(text, max_len, info, num);
 }
 
 zpl_internal zpl_isize zpl__print_u64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_u64 value) {
     char num[130];
     zpl_u64_to_str(value, num, info ? info->base : 10);
-    return zpl__print_string(text, max_len, info, num);
+    return zpl__print_number(text, max_len, info, num);
 }
 
 zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_b32 is_hexadecimal, zpl_f64 arg) {
     // TODO: Handle exponent notation
-    zpl_isize width, len, remaining = max_len;
-    char *text_begin = text;
-
-    if (arg) {
-        zpl_u64 value;
-        if (arg < 0) {
-            if (remaining > 1) *text = '-', remaining--;
-            text++;
-            arg = -arg;
-        } else if (info->flags & ZPL_FMT_MINUS) {
-            if (remaining > 1) *text = '+', remaining--;
-            text++;
-        }
-
-        value = cast(zpl_u64) arg;
-        len = zpl__print_u64(text, remaining, NULL, value);
-        text += len;
-
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
-        arg -= value;
-
-        if (info->precision < 0) info->precision = 6;
-
-        if ((info->flags & ZPL_FMT_ALT) || info->precision > 0) {
-            zpl_i64 mult = 10;
-            if (remaining > 1) *text = '.', remaining--;
-            text++;
-            while (info->precision-- > 0) {
-                value = cast(zpl_u64)(arg * mult);
-                len = zpl__print_u64(text, remaining, NULL, value);
-                text += len;
-                if (len >= remaining)
-                    remaining = zpl_min(remaining, 1);
-                else
-                    remaining -= len;
-                arg -= cast(zpl_f64) value / mult;
-                mult *= 10;
-            }
-        }
-    } else {
-        if (remaining > 1) *text = '0', remaining--;
-        text++;
-        if (info->flags & ZPL_FMT_ALT) {
-            if (remaining > 1) *text = '.', remaining--;
-            text++;
-        }
+    char num[512], *text_begin = num;
+    zpl_isize precision = info->precision < 0 ? 6 : zpl_min(info->precision, 256);
+    zpl_u64 value;
+    zpl_unused(is_hexadecimal);
+
+    if (!arg) precision = 0;
+
+    if (arg < 0) {
+        *text_begin++ = '-';
+        arg = -arg;
+    } else if (info->flags & (ZPL_FMT_PLUS | ZPL_FMT_SPACE)) {
+        *text_begin++ = (info->flags & ZPL_FMT_PLUS) ? '+' : ' ';
     }
 
-    width = info->width - (text - text_begin);
-    if (width > 0) {
-        char fill = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-        char *end = text + remaining - 1;
-        len = (text - text_begin);
-
-        for (len = (text - text_begin); len--;) {
-            if ((text_begin + len + width) < end) *(text_begin + len + width) = *(text_begin + len);
-        }
-
-        len = width;
-        text += len;
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
-
-        while (len--) {
-            if (text_begin + len < end) text_begin[len] = fill;
+    value = cast(zpl_u64) arg;
+    zpl_u64_to_str(value, text_begin, 10);
+    text_begin += zpl_strlen(text_begin);
+    arg -= value;
+
+    if ((info->flags & ZPL_FMT_ALT) || precision > 0) {
+        zpl_i64 mult = 10;
+        *text_begin++ = '.';
+        for (; precision > 0; precision--) {
+            value = cast(zpl_u64)(arg * mult);
+            *text_begin++ = cast(char)('0' + zpl_min(value, 9));
+            arg -= cast(zpl_f64) value / mult;
+            // NOTE: a double has no more digits than that
+            if (mult >= ZPL_I64_MAX / 10) arg = 0;
+            else mult *= 10;
         }
     }
+    *text_begin = '\0';
 
-    return (text - text_begin);
+    info->precision = -1;
+    return zpl__print_number(text, max_len, info, num);
 }
 
 ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char const *fmt, va_list va) {
     char const *text_begin = text;
-    zpl_isize remaining = max_len, res;
+    zpl_isize remaining = max_len - 1, res; // NOTE: keeps room for the terminator
+
+    if (max_len <= 0) return -1;
 
     while (*fmt) {
         zpl__format_info info = { 0 };
         zpl_isize len = 0;
         info.precision = -1;
 
-        while (*fmt && *fmt != '%' && remaining) *text++ = *fmt++;
+        while (*fmt && *fmt != '%' && remaining) *text++ = *fmt++, remaining--;
+        if (!remaining) break;
 
         if (*fmt == '%') {
             do {
@@ -330,7 +309,6 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             } else {
                 info.precision = cast(zpl_i32) zpl_str_to_i64(fmt, cast(char **) & fmt, 10);
             }
-            info.flags &= ~ZPL_FMT_ZERO;
         }
 
         switch (*fmt++) {
@@ -355,7 +333,6 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             break;
 
             case 'z': // NOTE: zpl_usize
-                info.flags |= ZPL_FMT_UNSIGNED;
                 // fallthrough
             case 't': // NOTE: zpl_isize
                 info.flags |= ZPL_FMT_SIZE;
@@ -371,7 +348,10 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             case 'd':
             case 'i': info.base = 10; break;
 
-            case 'o': info.base = 8; break;
+            case 'o':
+                info.base = 8;
+                info.flags |= ZPL_FMT_UNSIGNED;
+                break;
 
             case 'x':
                 info.base = 16;
@@ -442,10 +422,7 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
         }
 
         text += len;
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
+        remaining -= len;
     }
 
     *text++ = '\0';
-- 
2.43.0


From 5e2063a57fea6ab76e202bf337e12b2060c01414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 026/146] fix: strcpy and strcat left the destination
 unterminated

---
 code/header/core/string.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 9cd40aa..84e3f3a 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -237,6 +237,7 @@ ZPL_IMPL_INLINE char *zpl_strcpy(char *dest, const char *source) {
     if (source) {
         char *str = dest;
         while (*source) *str++ = *source++;
+        *str = '\0';
     }
     return dest;
 }
@@ -247,6 +248,7 @@ ZPL_IMPL_INLINE char *zpl_strcat(char *dest, const char *source) {
         char *str = dest;
         while (*str) ++str;
         while (*source) *str++ = *source++;
+        *str = '\0';
     }
     return dest;
 }
-- 
2.43.0


From fc5d7c1fe317b8b1d63d7d7cfca8bfd54f775a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 027/146] fix: strncmp compared the addresses of the strings
 instead of their bytes

---
 code/header/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 84e3f3a..306105f 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -304,7 +304,7 @@ ZPL_IMPL_INLINE char *zpl_strrev(char *str) {
 ZPL_IMPL_INLINE zpl_i32 zpl_strncmp(const char *s1, const char *s2, zpl_isize len) {
     for (; len > 0; s1++, s2++, len--) {
         if (*s1 != *s2)
-            return ((s1 < s2) ? -1 : +1);
+            return *(zpl_u8 *)s1 - *(zpl_u8 *)s2;
         else if (*s1 == '\0')
             return 0;
     }
-- 
2.43.0


From 99de45bbd3701e044d9dfbab9786af7eb3e2c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 028/146] fix: strlcpy did not terminate a truncated copy

---
 code/header/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 306105f..24ac698 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -275,7 +275,7 @@ ZPL_IMPL_INLINE zpl_isize zpl_strlcpy(char *dest, const char *source, zpl_isize
     if (source) {
         const char *source_start = source;
         char *str = dest;
-        while (len > 0 && *source) {
+        while (len > 1 && *source) {
             *str++ = *source++;
             len--;
         }
-- 
2.43.0


From 9816e226ccede74c8992655a12f147fa65abc985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 029/146] fix: strntok overwrote the terminator of a token that
 fills its buffer

---
 code/header/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 24ac698..749b32f 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -321,7 +321,7 @@ ZPL_IMPL_INLINE const char *zpl_strtok(char *output, const char *src, const char
 ZPL_IMPL_INLINE const char *zpl_strntok(char *output, zpl_isize len, const char *src, const char *delimit) {
     ZPL_ASSERT(len > 0);
     *(output+len-1) = 0;
-    while (*src && zpl_char_first_occurence(delimit, *src) == NULL && len > 0) {
+    while (*src && zpl_char_first_occurence(delimit, *src) == NULL && len > 1) {
         *output++ = *src++;
         len --;
     }
-- 
2.43.0


From 77967fd1896e9a15e14d26599522b2bab2d8f3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 030/146] fix: char_to_hex_digit mapped letters to 0..5

---
 code/header/core/string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 749b32f..20df520 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -149,9 +149,9 @@ ZPL_IMPL_INLINE zpl_u8 zpl_char_to_hex_digit(char c) {
     if (c >= '0' && c <= '9')
         return (zpl_u8)(c - '0');
     if (c >= 'a' && c <= 'f')
-        return (zpl_u8)(c - 'a');
+        return (zpl_u8)(c - 'a' + 10);
     if (c >= 'A' && c <= 'F')
-        return (zpl_u8)(c - 'A');
+        return (zpl_u8)(c - 'A' + 10);
     return 0;
 }
 
-- 
2.43.0


From d2f0e001e574f25daef49c00f117c8b5b9e0e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 031/146] fix: bounded string lengths read past the terminator
 or the limit

---
 code/header/core/string.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 20df520..5c8987a 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -179,9 +179,9 @@ ZPL_IMPL_INLINE zpl_isize zpl_strlen(const char *str) {
 }
 
 ZPL_IMPL_INLINE zpl_isize zpl_strnlen(const char *str, zpl_isize max_len) {
-    const char *end = cast(const char *) zpl_memchr(str, 0, max_len);
-    if (end) return end - str;
-    return max_len;
+    zpl_isize len = 0;
+    while (len < max_len && str[len]) len++;
+    return len;
 }
 
 ZPL_IMPL_INLINE zpl_isize zpl_utf8_strlen(zpl_u8 const *str) {
@@ -207,7 +207,7 @@ ZPL_IMPL_INLINE zpl_isize zpl_utf8_strlen(zpl_u8 const *str) {
 
 ZPL_IMPL_INLINE zpl_isize zpl_utf8_strnlen(zpl_u8 const *str, zpl_isize max_len) {
     zpl_isize count = 0;
-    for (; *str && max_len > 0; count++) {
+    for (; max_len > 0 && *str; count++) {
         zpl_u8 c = *str;
         zpl_isize inc = 0;
         if (c < 0x80)
-- 
2.43.0


From b99c4d29f1139a5c84565361d1150de6d53fc33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 032/146] fix: skipping quoted text looked in front of the
 string and took an escaped backslash for an escape

---
 code/header/core/string.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 5c8987a..744267a 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -341,7 +341,10 @@ ZPL_IMPL_INLINE zpl_b32 zpl__is_delim_char(char c) { return !!zpl_strchr(",|\n",
 
 
 ZPL_IMPL_INLINE char const *zpl_str_control_skip(char const *str, char c) {
-    while ((*str && *str != c) || (*(str - 1) == '\\' && *str == c && zpl_char_is_control(c))) { ++str; }
+    while (*str && *str != c) {
+        if (*str == '\\' && str[1] && (str[1] != c || zpl_char_is_control(c))) ++str;
+        ++str;
+    }
 
     return str;
 }
@@ -402,9 +405,11 @@ ZPL_IMPL_INLINE char const *zpl_str_skip_any(char const *str, char const*char_li
 ZPL_IMPL_INLINE char const *zpl_str_skip_literal(char const *str, char c) {
     if (*str == '\0' || *str == c)
         return str;
-    str++;
 
-    while ((*str && *str != c) || (*str == c && *(str-1) == '\\')) { ++str; }
+    while (*str && *str != c) {
+        if (*str == '\\' && str[1]) ++str;
+        ++str;
+    }
     return str;
 }
 
-- 
2.43.0


From d427cb2c35ecd7d0405c12fb2eccd9098a09c3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 033/146] fix: utf8_codepoint_size reported 1 for multi-byte
 code points

---
 code/source/core/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index 76d837c..abe848a 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -404,11 +404,11 @@ zpl_isize zpl_utf8_decode(zpl_u8 const *str, zpl_isize str_len, zpl_rune *codepo
 }
 
 zpl_isize zpl_utf8_codepoint_size(zpl_u8 const *str, zpl_isize str_len) {
-    zpl_isize i = 0;
+    zpl_isize i = 1;
     for (; i < str_len && str[i]; i++) {
         if ((str[i] & 0xc0) != 0x80) break;
     }
-    return i + 1;
+    return i;
 }
 
 zpl_isize zpl_utf8_encode_rune(zpl_u8 buf[4], zpl_rune r) {
-- 
2.43.0


From 9d1c739a87b4a9595c1f25062442bf192cb05db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 034/146] fix: ucs2_to_utf8 accepted a lone high surrogate and
 read past the terminator

---
 code/source/core/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index abe848a..65f9cea 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -282,7 +282,7 @@ zpl_u8 *zpl_ucs2_to_utf8(zpl_u8 *buffer, zpl_isize len, zpl_u16 const *str) {
             str += 1;
         } else if (*str >= 0xd800 && *str < 0xdc00) {
             zpl_rune c;
-            if (i + 4 > len) return NULL;
+            if (i + 4 > len || str[1] < 0xdc00 || str[1] >= 0xe000) return NULL;
             c = ((str[0] - 0xd800) << 10) + ((str[1]) - 0xdc00) + 0x10000;
             buffer[i++] = cast(char)(0xf0 + (c >> 18));
             buffer[i++] = cast(char)(0x80 + ((c >> 12) & 0x3f));
-- 
2.43.0


From ff0cf81454733a8cded3363ef6dd3f20bc52c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 035/146] fix: parsing integers accepted digits that are not
 part of the base

---
 code/source/core/string.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index 65f9cea..c178a31 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -29,6 +29,8 @@ zpl_internal zpl_isize zpl__scan_zpl_i64(const char *text, zpl_i32 base, zpl_i64
         else
             break;
 
+        if (v >= cast(zpl_i64) base) break;
+
         result *= base;
         result += v;
         text++;
@@ -58,6 +60,8 @@ zpl_internal zpl_isize zpl__scan_zpl_u64(const char *text, zpl_i32 base, zpl_u64
             break;
         }
 
+        if (v >= cast(zpl_u64) base) break;
+
         result *= base;
         result += v;
         text++;
-- 
2.43.0


From ae9d092b55d32dbb99e97e0549ad974e1f4b143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 036/146] fix: str_to_i64 did not detect the base of negative
 hexadecimal numbers

---
 code/source/core/string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index c178a31..871d457 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -94,7 +94,8 @@ zpl_i64 zpl_str_to_i64(const char *str, char **end_ptr, zpl_i32 base) {
     zpl_i64 value;
 
     if (!base) {
-        if ((zpl_strlen(str) > 2) && (zpl_strncmp(str, "0x", 2) == 0))
+        const char *digits = *str == '-' ? str + 1 : str;
+        if ((zpl_strlen(digits) > 2) && (zpl_strncmp(digits, "0x", 2) == 0))
             base = 16;
         else
             base = 10;
-- 
2.43.0


From d95a28cb067fe42aae754c2033b38660eec93e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 037/146] fix: i64_to_str overflowed on the smallest value

---
 code/source/core/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index 871d457..a3ffdfc 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -117,12 +117,12 @@ void zpl_i64_to_str(zpl_i64 value, char *string, zpl_i32 base) {
     zpl_b32 negative = false;
     zpl_u64 v;
 
+    v = cast(zpl_u64) value;
     if (value < 0) {
         negative = true;
-        value = -value;
+        v = 0 - v;
     }
 
-    v = cast(zpl_u64) value;
     if (v != 0) {
         while (v > 0) {
             *buf++ = zpl__num_to_char_table[v % base];
-- 
2.43.0


From 78b4eef7a41fc8b54957eeb86fd8183d81c0f2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 038/146] fix: str_to_f64 clamped exponents to 308 and lost
 small and huge values

---
 code/source/core/string.c | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index a3ffdfc..d2c8c9b 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -153,7 +153,7 @@ void zpl_u64_to_str(zpl_u64 value, char *string, zpl_i32 base) {
 }
 
 zpl_f64 zpl_str_to_f64(const char *str, char **end_ptr) {
-    zpl_f64 result, value, sign, scale;
+    zpl_f64 result, value, sign;
     zpl_i32 frac;
 
     while (zpl_char_is_space(*str)) { str++; }
@@ -179,7 +179,6 @@ zpl_f64 zpl_str_to_f64(const char *str, char **end_ptr) {
     }
 
     frac = 0;
-    scale = 1.0;
     if ((*str == 'e') || (*str == 'E')) {
         zpl_u32 exp;
 
@@ -191,24 +190,14 @@ zpl_f64 zpl_str_to_f64(const char *str, char **end_ptr) {
             str++;
         }
 
-        for (exp = 0; zpl_char_is_digit(*str); str++) { exp = exp * 10 + (*str - '0'); }
-        if (exp > 308) exp = 308;
+        for (exp = 0; zpl_char_is_digit(*str); str++) { if (exp < 10000) exp = exp * 10 + (*str - '0'); }
 
-        while (exp >= 50) {
-            scale *= 1e50;
-            exp -= 50;
-        }
-        while (exp >= 8) {
-            scale *= 1e8;
-            exp -= 8;
-        }
-        while (exp > 0) {
-            scale *= 10.0;
-            exp -= 1;
-        }
+        for (; exp >= 50; exp -= 50) value = frac ? value / 1e50 : value * 1e50;
+        for (; exp >= 8; exp -= 8) value = frac ? value / 1e8 : value * 1e8;
+        for (; exp > 0; exp -= 1) value = frac ? value / 10.0 : value * 10.0;
     }
 
-    result = sign * (frac ? (value / scale) : (value * scale));
+    result = sign * value;
 
     if (end_ptr) *end_ptr = cast(char *) str;
 
-- 
2.43.0


From a13a67e1749b69a157582fcd54ed18848f16227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 039/146] fix: string_append_fmt appended nothing when the text
 did not fit its buffer

---
 code/source/core/stringlib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index 655b146..73c2731 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -202,6 +202,7 @@ zpl_string zpl_string_append_fmt(zpl_string str, const char *fmt, ...) {
     va_start(va, fmt);
     res = zpl_snprintf_va(buf, zpl_count_of(buf) - 1, fmt, va) - 1;
     va_end(va);
+    if (res < 0) res = zpl_strlen(buf); // NOTE: the text was cut
     return zpl_string_append_length(str, buf, res);
 }
 
-- 
2.43.0


From 1a363e9c23bd6c7fff0a2d27e711d49be503a7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 040/146] fix: base64_decode overran its buffers on malformed
 text and leaked on invalid characters

---
 code/source/hashing.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/code/source/hashing.c b/code/source/hashing.c
index e84973d..49a6c25 100644
--- a/code/source/hashing.c
+++ b/code/source/hashing.c
@@ -293,18 +293,32 @@ zpl_u8 *zpl_base64_decode(zpl_allocator a, void const *data, zpl_isize len) {
         return NULL;
     }
 
-    alen = zpl__base64_decoded_size(s);
-    ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
-
-    ZPL_ASSERT_NOT_NULL(ret);
+    if (len < 0 || len % 4 != 0) {
+        return NULL;
+    }
 
-    ret[alen] = 0;
+    alen = len / 4 * 3;
 
     for (i=0; i<len; i++) {
         if (!zpl__base64_valid_char(s[i]))
             return NULL;
+
+        // NOTE: padding ends the text, and at most two characters of it
+        if (s[i] == '=') {
+            if (i < len-2 || (i == len-2 && s[len-1] != '='))
+                return NULL;
+            alen--;
+        }
     }
 
+    ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
+
+    if (ret == NULL) {
+        return NULL;
+    }
+
+    ret[alen] = 0;
+
     for (i=0, j=0; i<len; i+=4, j+=3) {
         v = zpl__base64_dec_table[s[i]-43];
         v = (v << 6) | zpl__base64_dec_table[s[i+1]-43];
-- 
2.43.0


From d040e1aa68bf7ab9934b73f6c3fba22ebe48ee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 041/146] fix: base64_encode crashed when the allocation failed

---
 code/source/hashing.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/source/hashing.c b/code/source/hashing.c
index 49a6c25..f48b267 100644
--- a/code/source/hashing.c
+++ b/code/source/hashing.c
@@ -259,6 +259,11 @@ zpl_u8 *zpl_base64_encode(zpl_allocator a, void const *data, zpl_isize len) {
 
     enc_len = zpl__base64_encoded_size(len);
     ret = cast(zpl_u8 *)zpl_alloc(a, enc_len+1);
+
+    if (ret == NULL) {
+        return NULL;
+    }
+
     ret[enc_len] = 0;
 
     for (i=0, j=0; i < len; i+=3, j+=4) {
-- 
2.43.0


From fd32b4b6ae686200d69431aebc1a374f7559ffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 042/146] fix: unique random numbers repeated, the permutation
 squared its input in 32 bits

---
 code/source/core/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 87c38a7..34a905a 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -33,7 +33,7 @@ zpl_internal ZPL_ALWAYS_INLINE zpl_u32 zpl__permute_qpr(zpl_u32 x) {
     if (x >= prime) {
         return x;
     } else {
-        zpl_u32 residue = cast(zpl_u32)(cast(zpl_u64) x * x) % prime;
+        zpl_u32 residue = cast(zpl_u32)((cast(zpl_u64) x * x) % prime);
         if (x <= prime / 2)
             return residue;
         else
-- 
2.43.0


From 77de7e73c1c1fb0eaf8f88f4a78eace31d4cec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 043/146] fix: initialising a random generator never ended when
 a second passed between two clock readings

---
 code/source/core/random.c | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 34a905a..1003a21 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -11,17 +11,7 @@ zpl_global zpl_i32 zpl__random_shared_counter = 0;
 
 zpl_internal zpl_u32 zpl__get_noise_from_time(void) {
     zpl_u32 accum = 0;
-    zpl_f64 start, remaining, end, curr = 0;
-    zpl_u64 interval = 100000ll;
-    
-    start     = zpl_time_rel();
-    remaining = (interval - cast(zpl_u64)(interval*start)%interval) / cast(zpl_f64)interval;
-    end       = start + remaining;
-    
-    do {
-        curr = zpl_time_rel();
-        accum += cast(zpl_u32)curr;
-    } while (curr >= end);
+    accum += cast(zpl_u32)zpl_time_rel();
     return accum;
 }
 
-- 
2.43.0


From 70670d8f0b2538d23050a83608c2a20765c8557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 044/146] fix: ranged integer random numbers divided by zero
 for the whole range

---
 code/source/core/random.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 1003a21..02dd8d4 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -111,11 +111,11 @@ zpl_isize zpl_random_gen_isize(zpl_random *r) {
 
 zpl_i64 zpl_random_range_i64(zpl_random *r, zpl_i64 lower_inc, zpl_i64 higher_inc) {
     zpl_u64 u = zpl_random_gen_u64(r);
-    zpl_i64 diff = higher_inc-lower_inc+1;
-    u %= diff;
+    zpl_u64 diff = cast(zpl_u64)higher_inc - cast(zpl_u64)lower_inc + 1;
+    if (diff) u %= diff; // NOTE: 0 stands for the whole range
+    u += cast(zpl_u64)lower_inc;
     zpl_i64 i;
     zpl_memcopy(&i, &u, zpl_size_of(u));
-    i += lower_inc;
     return i;
 }
 
@@ -125,11 +125,11 @@ zpl_isize zpl_random_range_isize(zpl_random *r, zpl_isize lower_inc, zpl_isize h
 #else
     zpl_u64 u = zpl_random_gen_u64(r);
 #endif
-    zpl_isize diff = higher_inc-lower_inc+1;
-    u %= diff;
+    zpl_usize diff = cast(zpl_usize)higher_inc - cast(zpl_usize)lower_inc + 1;
+    if (diff) u %= diff; // NOTE: 0 stands for the whole range
+    u += cast(zpl_usize)lower_inc;
     zpl_isize i;
     zpl_memcopy(&i, &u, zpl_size_of(u));
-    i += lower_inc;
     return i;
 }
 
-- 
2.43.0


From 55a65d993aa44ffce9443a368b6dea955abdd4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 045/146] fix: ranged real random numbers could leave the range

---
 code/source/core/random.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 02dd8d4..4c9971a 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -148,11 +148,10 @@ ZPL_ALWAYS_INLINE zpl_f64 zpl__random_copy_sign64(zpl_f64 x, zpl_f64 y) {
 
 zpl_f64 zpl_random_range_f64(zpl_random *r, zpl_f64 lower_inc, zpl_f64 higher_inc) {
     zpl_f64 f = cast(zpl_f64)zpl_random_gen_u64(r) / cast(zpl_f64)ZPL_U64_MAX;
-    zpl_f64 diff = higher_inc-lower_inc;
     
-    f *= diff;
-    f += lower_inc;
-    return f;
+    // NOTE: higher_inc-lower_inc could overflow and the sum can be rounded out of the range
+    f = lower_inc * (1.0 - f) + higher_inc * f;
+    return zpl_clamp(f, lower_inc, higher_inc);
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From 437277d9f4821ace43773985990f7e83e4af1ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 046/146] fix: sleeping ended early when interrupted by a
 signal

---
 code/source/core/time.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/source/core/time.c b/code/source/core/time.c
index c12fec6..156b5f6 100644
--- a/code/source/core/time.c
+++ b/code/source/core/time.c
@@ -2,6 +2,7 @@
 
 
 #if defined(ZPL_SYSTEM_MACOS) || ZPL_SYSTEM_UNIX
+#    include <errno.h>
 #    include <time.h>
 #    include <sys/time.h>
 #endif
@@ -206,7 +207,7 @@ ZPL_BEGIN_C_DECLS
     void zpl_sleep_ms(zpl_u32 ms) {
         struct timespec req = { cast(time_t)(ms * 1e-3), cast(long)((ms % 1000) * 1e6) };
         struct timespec rem = { 0, 0 };
-        nanosleep(&req, &rem);
+        while (nanosleep(&req, &rem) != 0 && errno == EINTR) req = rem; // NOTE: sleep on after a signal
     }
 
     zpl_u64 zpl_time_tz_ms(void) {
-- 
2.43.0


From 4b87437ba6025841e4d107878e4bff05d4973836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 047/146] fix: local time was wrong where daylight saving time
 is not one hour ahead

---
 code/source/core/time.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/time.c b/code/source/core/time.c
index 156b5f6..15e81b8 100644
--- a/code/source/core/time.c
+++ b/code/source/core/time.c
@@ -216,8 +216,8 @@ ZPL_BEGIN_C_DECLS
         zpl_u16 ms = result % 1000;
         result *= 1e-3;
         localtime_r((const time_t*)&result, &t);
-        result = (zpl_u64)mktime(&t);
-        return (result - timezone + t.tm_isdst * 3600) * 1000 + ms + ZPL__UNIX_TO_WIN32_EPOCH;
+        result = (zpl_u64)timegm(&t); // NOTE: the local time read as if it was UTC
+        return result * 1000 + ms + ZPL__UNIX_TO_WIN32_EPOCH;
     }
 #endif
 
-- 
2.43.0


From bce6e2058ef44979c1cb40a2c5d8b37ccbeb9139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 048/146] fix: clock readings were rounded up into the next
 millisecond

---
 code/source/core/time.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/time.c b/code/source/core/time.c
index 15e81b8..66196dd 100644
--- a/code/source/core/time.c
+++ b/code/source/core/time.c
@@ -154,7 +154,7 @@ ZPL_BEGIN_C_DECLS
             zpl_u64 result;
 
             clock_gettime(1 /*CLOCK_MONOTONIC*/, &t);
-            result = 1000 * t.tv_sec + 1.0e-6 * t.tv_nsec;
+            result = 1000 * cast(zpl_u64)t.tv_sec + t.tv_nsec / 1000000;
             return result;
         }
 #    endif
@@ -201,7 +201,7 @@ ZPL_BEGIN_C_DECLS
 #    else
         clock_gettime(0 /*CLOCK_REALTIME*/, &t);
 #    endif
-        return ((zpl_u64)t.tv_sec * 1000 + t.tv_nsec * 1e-6 + ZPL__UNIX_TO_WIN32_EPOCH);
+        return ((zpl_u64)t.tv_sec * 1000 + t.tv_nsec / 1000000 + ZPL__UNIX_TO_WIN32_EPOCH);
     }
 
     void zpl_sleep_ms(zpl_u32 ms) {
-- 
2.43.0


From faf61e1c593beae6437e7dc2c9f064b4f063ff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 049/146] fix: relative time kept moving its start while the
 clock read zero

---
 code/source/core/time.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/code/source/core/time.c b/code/source/core/time.c
index 66196dd..aef5008 100644
--- a/code/source/core/time.c
+++ b/code/source/core/time.c
@@ -178,12 +178,16 @@ ZPL_BEGIN_C_DECLS
         result = 1.0e-6 * (mach_absolute_time() - timestart) * timebase;
         return result;
 #    else
-        zpl_local_persist zpl_u64 unix_timestart = 0.0;
-
-        if (!unix_timestart) { unix_timestart = zpl__unix_gettime( ); }
+        zpl_local_persist zpl_u64 unix_timestart = 0;
+        zpl_local_persist zpl_b32 started = false;
 
         zpl_u64 now = zpl__unix_gettime( );
 
+        if (!started) {
+            unix_timestart = now;
+            started = true;
+        }
+
         return (now - unix_timestart);
 #    endif
     }
-- 
2.43.0


From b12f9c25db91f955be4f79e261512321ad25cd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 050/146] fix: number parsing overran its fixed buffers,
 misread exponents and words made of hex digits, and lost digits when printed

---
 code/header/adt.h |   6 +-
 code/source/adt.c | 229 ++++++++++++++++++++--------------------------
 2 files changed, 102 insertions(+), 133 deletions(-)

diff --git a/code/header/adt.h b/code/header/adt.h
index 88b7210..87b3f48 100644
--- a/code/header/adt.h
+++ b/code/header/adt.h
@@ -82,10 +82,10 @@ typedef struct zpl_adt_node {
 
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             /* number analysis */
+            zpl_i64 base2;
             zpl_i32 base;
-            zpl_i32 base2;
-            zpl_u8 base2_offset:4;
-            zpl_i8 exp         :4;
+            zpl_i16 exp;
+            zpl_u8 base2_offset;
             zpl_u8 neg_zero  :1;
             zpl_u8 lead_digit:1;
 #endif
diff --git a/code/source/adt.c b/code/source/adt.c
index e8df32b..821e9ff 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -350,164 +350,133 @@ zpl_adt_node *zpl_adt_append_int(zpl_adt_node *parent, char const *name, zpl_i64
 }
 
 /* parser helpers */
-char *zpl_adt_parse_number_strict(zpl_adt_node *node, char* base_str) {
-    ZPL_ASSERT_NOT_NULL(node);
-    ZPL_ASSERT_NOT_NULL(base_str);
-    char *p = base_str, *e = p;
-
-    while (*e)
-        ++e;
-
-    while (*p && (zpl_strchr("eE.+-", *p) || zpl_char_is_hex_digit(*p))) {
-        ++p;
-    }
-
-    if (p >= e) {
-        return zpl_adt_parse_number(node, base_str);
-    }
-
-    return base_str;
-}
-
-char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
-    ZPL_ASSERT_NOT_NULL(node);
-    ZPL_ASSERT_NOT_NULL(base_str);
-    char *p = base_str, *e = p;
-
-    zpl_i32 base=0;
-    zpl_i32 base2=0;
-    zpl_u8 base2_offset=0;
-    zpl_i8 exp=0,orig_exp=0;
-    zpl_u8 neg_zero=0;
-    zpl_u8 lead_digit=0;
-    zpl_u8 node_type=0;
-    zpl_u8 node_props=0;
 
-    /* skip false positives and special cases */
-    if (!!zpl_strchr("eE", *p) || (!!zpl_strchr(".+-", *p) && !zpl_char_is_hex_digit(*(p+1)) && *(p+1) != '.')) {
-        return ++base_str;
-    }
-
-    node_type = ZPL_ADT_TYPE_INTEGER;
-    neg_zero = false;
-
-    zpl_isize ib = 0;
-    char buf[48] = { 0 };
-
-    if (*e == '+')
-        ++e;
-    else if (*e == '-') {
-        buf[ib++] = *e++;
-    }
-
-    if (*e == '.') {
-        node_type = ZPL_ADT_TYPE_REAL;
-        node_props = ZPL_ADT_PROPS_IS_PARSED_REAL;
-        lead_digit = false;
-        buf[ib++] = '0';
-        do {
-            buf[ib++] = *e;
-        } while (zpl_char_is_digit(*++e));
+/* reads the number at the start of the text, returns NULL and leaves the node as it was if there is none */
+zpl_internal char *zpl__adt_scan_number(zpl_adt_node *node, char *base_str) {
+    char *e = base_str;
+    zpl_u64 base = 0, base2 = 0, value = 0;
+    zpl_isize frac_digits = 0, base2_offset = 0, digits = 0, exp = 0;
+    zpl_b32 negative = false, exp_negative = false, has_exp = false, lead_digit = false, fits = true;
+    zpl_u8 node_type = ZPL_ADT_TYPE_INTEGER;
+    zpl_u8 node_props = 0;
+    zpl_f64 real = 0;
+
+    if (*e == '+' || *e == '-')
+        negative = (*e++ == '-');
+
+    if (e[0] == '0' && (e[1] == 'x' || e[1] == 'X') && zpl_char_is_hex_digit(e[2])) {
+        node_props = ZPL_ADT_PROPS_IS_HEX;
+        for (e += 2; zpl_char_is_hex_digit(*e); ++e) value = value * 16 + (zpl_u64)zpl_hex_digit_to_int(*e);
     } else {
-        if (!zpl_strncmp(e, "0x", 2) || !zpl_strncmp(e, "0X", 2)) { node_props = ZPL_ADT_PROPS_IS_HEX; }
-
-        /* bail if ZPL_ADT_PROPS_IS_HEX is unset but we get 'x' on input */
-        if (zpl_char_to_lower(*e) == 'x' && (node_props != ZPL_ADT_PROPS_IS_HEX)) {
-            return ++base_str;
+        for (; zpl_char_is_digit(*e); ++e, ++digits) {
+            zpl_u64 d = (zpl_u64)(*e - '0');
+            if (base > (cast(zpl_u64)ZPL_I64_MAX + (negative ? 1 : 0) - d) / 10) fits = false;
+            else base = base * 10 + d;
         }
-
-        while (zpl_char_is_hex_digit(*e) || zpl_char_to_lower(*e) == 'x') { buf[ib++] = *e++; }
+        lead_digit = digits > 0;
 
         if (*e == '.') {
             node_type = ZPL_ADT_TYPE_REAL;
-            lead_digit = true;
-            zpl_u32 step = 0;
-
-            do {
-                buf[ib++] = *e;
-                ++step;
-            } while (zpl_char_is_digit(*++e));
+            for (++e; zpl_char_is_digit(*e); ++e, ++frac_digits) {
+                zpl_u64 d = (zpl_u64)(*e - '0');
+                if (base2 == 0 && d == 0) base2_offset++;
+                if (base2 > (cast(zpl_u64)ZPL_I64_MAX - d) / 10) fits = false;
+                else base2 = base2 * 10 + d;
+            }
+            if (digits + frac_digits == 0) return NULL;
+            if (base2 == 0 && base2_offset > 0) base2_offset--;
+        } else if (!lead_digit) {
+            return NULL;
+        }
 
-            if (step < 2) { buf[ib++] = '0'; }
+        if (*e == 'e' || *e == 'E') {
+            char *q = e + 1;
+            if (*q == '+' || *q == '-') exp_negative = (*q++ == '-');
+            if (zpl_char_is_digit(*q)) {
+                has_exp = true;
+                for (; zpl_char_is_digit(*q); ++q) if (exp < 10000) exp = exp * 10 + (*q - '0');
+                e = q;
+            }
         }
     }
 
     /* check if we have a dot here, this is a false positive (IP address, ...) */
     if (*e == '.') {
-        return ++base_str;
+        return NULL;
     }
 
-    zpl_f32 eb = 10;
-    char expbuf[6] = { 0 };
-    zpl_isize expi = 0;
-
-    if (*e && !!zpl_strchr("eE", *e)) {
-        ++e;
-        if (*e == '+' || *e == '-' || zpl_char_is_digit(*e)) {
-            if (*e == '-') { eb = 0.1f; }
-            if (!zpl_char_is_digit(*e)) { ++e; }
-            while (zpl_char_is_digit(*e)) { expbuf[expi++] = *e++; }
+    if (node_type == ZPL_ADT_TYPE_INTEGER && node_props != ZPL_ADT_PROPS_IS_HEX) {
+        value = base;
+        if (has_exp && !exp_negative && fits) {
+            zpl_isize i;
+            for (i = 0; i < exp && value != 0; ++i) {
+                if (value > cast(zpl_u64)ZPL_I64_MAX / 10) break;
+                value *= 10;
+            }
+            if (value != 0 && i < exp) node_type = ZPL_ADT_TYPE_REAL;
         }
-
-        orig_exp = exp = (zpl_u8)zpl_str_to_i64(expbuf, NULL, 10);
+        if (!fits || (has_exp && exp_negative)) node_type = ZPL_ADT_TYPE_REAL;
     }
 
-    if (node_type == ZPL_ADT_TYPE_INTEGER) {
-        node->integer = zpl_str_to_i64(buf, 0, 0);
-#ifndef ZPL_PARSER_DISABLE_ANALYSIS
-        /* special case: negative zero */
-        if (node->integer == 0 && buf[0] == '-') {
-            neg_zero = true;
-        }
-#endif
-        while (orig_exp-- > 0) { node->integer *= (zpl_i64)eb; }
-    } else {
-        node->real = zpl_str_to_f64(buf, 0);
-
-#ifndef ZPL_PARSER_DISABLE_ANALYSIS
-        char *q = buf, *base_string = q, *base_string2 = q;
-        base_string = cast(char *)zpl_str_skip(base_string, '.');
-        *base_string = '\0';
-        base_string2 = base_string + 1;
-        char *base_string_off = base_string2;
-        while (*base_string_off++ == '0') base2_offset++;
-
-        base = (zpl_i32)zpl_str_to_i64(q, 0, 0);
-        base2 = (zpl_i32)zpl_str_to_i64(base_string2, 0, 0);
-        if (exp) {
-            exp = exp * (!(eb == 10.0f) ? -1 : 1);
-            node_props = ZPL_ADT_PROPS_IS_EXP;
-        }
+    if (exp_negative) exp = -exp;
 
-        /* special case: negative zero */
-        if (base == 0 && buf[0] == '-') {
-            neg_zero = true;
+    if (node_type == ZPL_ADT_TYPE_REAL) {
+        real = zpl_str_to_f64(base_str, NULL);
+        if (real - real != 0) {
+            node_props = negative ? ZPL_ADT_PROPS_INFINITY_NEG : ZPL_ADT_PROPS_INFINITY;
+            real = negative ? -ZPL_INFINITY : ZPL_INFINITY;
         }
+#ifndef ZPL_PARSER_DISABLE_ANALYSIS
+        else if (fits && base <= ZPL_I32_MAX && frac_digits <= ZPL_U8_MAX && exp >= -9999 && exp <= 9999)
+            node_props = exp != 0 ? ZPL_ADT_PROPS_IS_EXP : ZPL_ADT_PROPS_IS_PARSED_REAL;
 #endif
-        while (orig_exp-- > 0) { node->real *= eb; }
+        node->real = real;
+    } else {
+        node->integer = cast(zpl_i64)(negative ? 0 - value : value);
     }
 
     node->type = node_type;
     node->props = node_props;
 
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-    node->base = base;
-    node->base2 = base2;
-    node->base2_offset = base2_offset;
-    node->exp = exp;
-    node->neg_zero = neg_zero;
-    node->lead_digit = lead_digit;
+    node->base = node_type == ZPL_ADT_TYPE_REAL && base <= ZPL_I32_MAX ? (negative ? -(zpl_i32)base : (zpl_i32)base) : 0;
+    node->base2 = cast(zpl_i64)base2;
+    node->base2_offset = cast(zpl_u8)base2_offset;
+    node->exp = cast(zpl_i16)exp;
+    /* special case: negative zero */
+    node->neg_zero = negative && (node_type == ZPL_ADT_TYPE_REAL ? (base == 0 && (node_props == ZPL_ADT_PROPS_IS_EXP || node_props == ZPL_ADT_PROPS_IS_PARSED_REAL)) : value == 0);
+    node->lead_digit = node_type == ZPL_ADT_TYPE_REAL && lead_digit;
 #else
-    zpl_unused(base);
-    zpl_unused(base2);
-    zpl_unused(base2_offset);
-    zpl_unused(exp);
-    zpl_unused(neg_zero);
     zpl_unused(lead_digit);
+    zpl_unused(frac_digits);
+    zpl_unused(base2_offset);
 #endif
     return e;
 }
 
+char *zpl_adt_parse_number_strict(zpl_adt_node *node, char* base_str) {
+    ZPL_ASSERT_NOT_NULL(node);
+    ZPL_ASSERT_NOT_NULL(base_str);
+    zpl_adt_node number = *node;
+    char *e = zpl__adt_scan_number(&number, base_str);
+
+    if (e && *e == 0) {
+        *node = number;
+        return e;
+    }
+
+    return base_str;
+}
+
+char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
+    ZPL_ASSERT_NOT_NULL(node);
+    ZPL_ASSERT_NOT_NULL(base_str);
+    char *e = zpl__adt_scan_number(node, base_str);
+
+    /* skip false positives and special cases */
+    return e ? e : base_str + (*base_str != 0);
+}
+
 zpl_adt_error zpl_adt_print_number(zpl_file *file, zpl_adt_node *node) {
     ZPL_ASSERT_NOT_NULL(file);
     ZPL_ASSERT_NOT_NULL(node);
@@ -524,7 +493,7 @@ zpl_adt_error zpl_adt_print_number(zpl_file *file, zpl_adt_node *node) {
     switch (node->type) {
         case ZPL_ADT_TYPE_INTEGER: {
             if (node->props == ZPL_ADT_PROPS_IS_HEX) {
-                zpl__adt_fprintf(file, "0x%llx", (long long)node->integer);
+                zpl__adt_fprintf(file, "%s0x%llx", node->integer < 0 ? "-" : "", node->integer < 0 ? 0 - (unsigned long long)node->integer : (unsigned long long)node->integer);
             } else {
                 zpl__adt_fprintf(file, "%lld", (long long)node->integer);
             }
@@ -547,12 +516,12 @@ zpl_adt_error zpl_adt_print_number(zpl_file *file, zpl_adt_node *node) {
                 zpl__adt_fprintf(file, "null");
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             } else if (node->props == ZPL_ADT_PROPS_IS_EXP) {
-                zpl__adt_fprintf(file, "%lld.%0*d%llde%lld", (long long)node->base, node->base2_offset, 0, (long long)node->base2, (long long)node->exp);
+                zpl__adt_fprintf(file, "%lld.%0*d%llde%lld", (long long)node->base, (int)node->base2_offset, 0, (long long)node->base2, (long long)node->exp);
             } else if (node->props == ZPL_ADT_PROPS_IS_PARSED_REAL) {
                 if (!node->lead_digit)
-                    zpl__adt_fprintf(file, ".%0*d%lld", node->base2_offset, 0, (long long)node->base2);
+                    zpl__adt_fprintf(file, ".%0*d%lld", (int)node->base2_offset, 0, (long long)node->base2);
                 else
-                    zpl__adt_fprintf(file, "%lld.%0*d%lld", (long long int)node->base2_offset, 0, (int)node->base, (long long)node->base2);
+                    zpl__adt_fprintf(file, "%lld.%0*d%lld", (long long)node->base, (int)node->base2_offset, 0, (long long)node->base2);
 #endif
             } else {
                 zpl__adt_fprintf(file, "%f", node->real);
-- 
2.43.0


From f436727df314e749d77678d983bde55d63e6a7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 051/146] fix: looking up a field crashed on objects that hold
 unnamed nodes

---
 code/source/adt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 821e9ff..3839d49 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -48,7 +48,7 @@ zpl_adt_node *zpl_adt_find(zpl_adt_node *node, char const *name, zpl_b32 deep_se
     }
 
     for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
-        if (!zpl_strcmp(node->nodes[i].name, name)) {
+        if (node->nodes[i].name && !zpl_strcmp(node->nodes[i].name, name)) {
             return (node->nodes + i);
         }
     }
@@ -100,7 +100,7 @@ zpl_internal zpl_adt_node *zpl__adt_get_value(zpl_adt_node *node, char const *va
 
 zpl_internal zpl_adt_node *zpl__adt_get_field(zpl_adt_node *node, char *name, char *value) {
     for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
-        if (!zpl_strcmp(node->nodes[i].name, name)) {
+        if (node->nodes[i].name && !zpl_strcmp(node->nodes[i].name, name)) {
             zpl_adt_node *child = &node->nodes[i];
             if (zpl__adt_get_value(child, value)) {
                 return node; /* this object does contain a field of a specified value! */
-- 
2.43.0


From 17f82a4ded5361f9780be80ba665037c19c1df81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 052/146] fix: a path segment that is no number selected the
 first element of an array

---
 code/source/adt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 3839d49..fa3461d 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -202,8 +202,9 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
     }
     /* handle array index lookup */
     else {
-        zpl_isize idx = (zpl_isize)zpl_str_to_i64(buf, NULL, 10);
-        if (idx >= 0 && idx < zpl_array_count(node->nodes)) {
+        char *buf_end = buf;
+        zpl_isize idx = (zpl_isize)zpl_str_to_i64(buf, &buf_end, 10);
+        if (*buf && !*buf_end && idx >= 0 && idx < zpl_array_count(node->nodes)) {
             found_node = &node->nodes[idx];
 
             /* go deeper if uri continues */
-- 
2.43.0


From 5f06f89175fb7fe1a9de63c2e0aa8af6c162a31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 053/146] fix: looking up a number by value crashed when out of
 memory

---
 code/source/adt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index fa3461d..9ae5a61 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -79,7 +79,8 @@ zpl_internal zpl_adt_node *zpl__adt_get_value(zpl_adt_node *node, char const *va
             zpl_file tmp;
 
             /* allocate a file descriptor for a memory-mapped number to string conversion, input source buffer is not cloned, however. */
-            zpl_file_stream_open(&tmp, zpl_heap(), (zpl_u8*)back, zpl_size_of(back), ZPL_FILE_STREAM_WRITABLE);
+            if (!zpl_file_stream_open(&tmp, zpl_heap(), (zpl_u8*)back, zpl_size_of(back), ZPL_FILE_STREAM_WRITABLE))
+                return NULL;
             zpl_adt_print_number(&tmp, node);
 
             zpl_isize fsize=0;
-- 
2.43.0


From e1a34d8ca1a8296784819b75cba5b4ffb2c9f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 054/146] fix: editing a data tree left stale parent links, and
 moving a node within its container removed the wrong one

---
 code/source/adt.c | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 9ae5a61..a40e5fc 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -218,6 +218,18 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
     return found_node;
 }
 
+/* children moved within their container: fix up the links that lead to and from them */
+zpl_internal void zpl__adt_relink_node(zpl_adt_node *node, zpl_adt_node *parent) {
+    node->parent = parent;
+    if ((node->type == ZPL_ADT_TYPE_OBJECT || node->type == ZPL_ADT_TYPE_ARRAY) && node->nodes) {
+        for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) { node->nodes[i].parent = node; }
+    }
+}
+
+zpl_internal void zpl__adt_relink(zpl_adt_node *parent) {
+    for (zpl_isize i = 0; i < zpl_array_count(parent->nodes); i++) { zpl__adt_relink_node(parent->nodes + i, parent); }
+}
+
 zpl_adt_node *zpl_adt_alloc_at(zpl_adt_node *parent, zpl_isize index) {
     if (!parent || (parent->type != ZPL_ADT_TYPE_OBJECT && parent->type != ZPL_ADT_TYPE_ARRAY)) {
         return NULL;
@@ -231,9 +243,13 @@ zpl_adt_node *zpl_adt_alloc_at(zpl_adt_node *parent, zpl_isize index) {
 
     zpl_adt_node o = {0};
     o.parent = parent;
+    zpl_adt_node *old_nodes = parent->nodes;
     if (!zpl_array_append_at(parent->nodes, o, index))
         return NULL;
 
+    if (parent->nodes != old_nodes || index + 1 < zpl_array_count(parent->nodes))
+        zpl__adt_relink(parent);
+
     return parent->nodes + index;
 }
 
@@ -275,13 +291,24 @@ zpl_adt_node *zpl_adt_move_node_at(zpl_adt_node *node, zpl_adt_node *new_parent,
     ZPL_ASSERT_NOT_NULL(node);
     ZPL_ASSERT_NOT_NULL(new_parent);
     zpl_adt_node *old_parent = node->parent;
+    zpl_adt_node *old_nodes = old_parent ? old_parent->nodes : NULL;
+    zpl_isize old_index = old_nodes ? node - old_nodes : 0;
+    zpl_adt_node moved = *node;
     zpl_adt_node *new_node = zpl_adt_alloc_at(new_parent, index);
-    *new_node = *node;
-    new_node->parent = new_parent;
-    if (old_parent) {
-        zpl_adt_remove_node(node);
+    if (!new_node)
+        return NULL;
+    *new_node = moved;
+    zpl__adt_relink_node(new_node, new_parent);
+    zpl_adt_node *new_nodes = new_parent->nodes;
+    if (old_parent == new_parent) {
+        /* the new slot shifted the old one, and removing the old one shifts the new one */
+        zpl_adt_remove_node(new_nodes + (old_index < index ? old_index : old_index + 1));
+        if (old_index < index) index--;
+    } else if (old_parent) {
+        /* the old container may have been moved by the new slot, its children know where it is */
+        zpl_adt_remove_node(old_nodes + old_index);
     }
-    return new_node;
+    return new_nodes + index;
 }
 
 zpl_adt_node *zpl_adt_move_node(zpl_adt_node *node, zpl_adt_node *new_parent) {
@@ -303,6 +330,8 @@ void zpl_adt_swap_nodes(zpl_adt_node *node, zpl_adt_node *other_node) {
     other_parent->nodes[index2].parent = parent;
     parent->nodes[index] = other_parent->nodes[index2];
     other_parent->nodes[index2] = temp;
+    zpl__adt_relink_node(parent->nodes + index, parent);
+    zpl__adt_relink_node(other_parent->nodes + index2, other_parent);
 }
 
 void zpl_adt_remove_node(zpl_adt_node *node) {
@@ -311,6 +340,7 @@ void zpl_adt_remove_node(zpl_adt_node *node) {
     zpl_adt_node *parent = node->parent;
     zpl_isize index = (zpl_pointer_diff(parent->nodes, node) / zpl_size_of(zpl_adt_node));
     zpl_array_remove_at(parent->nodes, index);
+    zpl__adt_relink(parent);
 }
 
 
-- 
2.43.0


From 07524bd1a7d186ffe2cebd2a85d4861f4e597347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 055/146] fix: the JSON parser read past the end of truncated
 texts, leaked on errors and accepted or misread malformed documents

---
 code/source/parsers/json.c | 189 ++++++++++++++++++++++++-------------
 1 file changed, 124 insertions(+), 65 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 5b6e675..cc17b0e 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -20,6 +20,7 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
 char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code);
 char *zpl__json_parse_name(zpl_adt_node *obj, char *base, zpl_u8 *err_code);
 char *zpl__json_trim(char *base, zpl_b32 catch_newline);
+zpl_internal void zpl__json_finish(zpl_adt_node *node);
 zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_isize indent, zpl_b32 is_inline, zpl_b32 is_last);
 
 #define zpl__json_fprintf(s_, fmt_, ...)                                                                               \
@@ -34,7 +35,7 @@ zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     ZPL_ASSERT(root);
     ZPL_ASSERT(text);
     zpl_zero_item(root);
-    text = zpl__json_trim(text, true);
+    text = zpl__json_trim(text, false);
 
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
     if (!zpl_strchr("{[", *text)) {
@@ -43,6 +44,15 @@ zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
 #endif
 
     zpl__json_parse_object(root, text, a, &err_code);
+
+    if (err_code != ZPL_JSON_ERROR_NONE) {
+        /* nobody else knows how much of the tree is there */
+        zpl_adt_destroy_branch(root);
+        zpl_zero_item(root);
+        return err_code;
+    }
+
+    zpl__json_finish(root);
     return err_code;
 }
 
@@ -68,17 +78,15 @@ zpl_string zpl_json_write_string(zpl_allocator a, zpl_adt_node *obj, zpl_isize i
 #define zpl__json_append_node(x, item)\
 do {\
 if (!zpl_array_append(x, item)) {\
+    zpl_adt_destroy_branch(&item);\
     *err_code = ZPL_JSON_ERROR_OUT_OF_MEMORY;\
     return NULL;\
 }\
-if (item.type == ZPL_ADT_TYPE_OBJECT || item.type == ZPL_ADT_TYPE_ARRAY) {\
-for (zpl_isize i = 0; i < zpl_array_count(item.nodes); i++)\
-item.nodes[i].parent = zpl_array_end(x);\
-}\
 } while (0);
 
-static ZPL_ALWAYS_INLINE zpl_b32 zpl__json_is_assign_char(char c) { return !!zpl_strchr(":=|", c); }
-static ZPL_ALWAYS_INLINE zpl_b32 zpl__json_is_delim_char(char c) { return !!zpl_strchr(",|\n", c); }
+static ZPL_ALWAYS_INLINE zpl_b32 zpl__json_is_assign_char(char c) { return c && !!zpl_strchr(":=|", c); }
+static ZPL_ALWAYS_INLINE zpl_b32 zpl__json_is_delim_char(char c) { return c && !!zpl_strchr(",|\n", c); }
+static ZPL_ALWAYS_INLINE zpl_b32 zpl__json_is_name_char(char c) { return c == '_' || c == '$' || zpl_char_is_alphanumeric(c); }
 static ZPL_ALWAYS_INLINE const char *zpl__json_string_space(zpl_isize indent) { return indent == ZPL_JSON_INDENT_STYLE_COMPACT ? "" : " "; }
 static ZPL_ALWAYS_INLINE const char *zpl__json_string_eol(zpl_adt_node *o, zpl_isize indent) {
     zpl_b8 force_new_line = false;
@@ -87,16 +95,17 @@ static ZPL_ALWAYS_INLINE const char *zpl__json_string_eol(zpl_adt_node *o, zpl_i
 #endif
     return !force_new_line && indent == ZPL_JSON_INDENT_STYLE_COMPACT ? "" : "\n";
 }
-ZPL_DEF_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err);
+ZPL_DEF_INLINE zpl_b32 zpl__json_validate_name(char const *str, char const *end);
 
-#define jx(x) !zpl_char_is_hex_digit(str[x])
-ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err) {
-    while (*str) {
+#define jx(x) (str + (x) >= end || !zpl_char_is_hex_digit(str[x]))
+ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char const *end) {
+    while (str < end) {
         /* todo: refactor name validation. */
-        if ((str[0] == '\\' && !zpl_char_is_control(str[1])) &&
-            (str[0] == '\\' && jx(1) && jx(2) && jx(3) && jx(4))) {
-            if (err) *err = *str;
-            return false;
+        if (str[0] == '\\') {
+            if (!zpl_char_is_control(str[1]) && (jx(1) && jx(2) && jx(3) && jx(4))) {
+                return false;
+            }
+            ++str;
         }
 
         ++str;
@@ -106,6 +115,34 @@ ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err) {
 }
 #undef jx
 
+/* names and strings are cut and linked up only once the whole text was accepted, as the cuts would hide what is yet to be parsed,
+ * until then they start at their opening quote */
+zpl_internal void zpl__json_finish(zpl_adt_node *node) {
+    for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
+        zpl_adt_node *item = node->nodes + i;
+        item->parent = node;
+
+        if (item->name) {
+            char *b = (char *)item->name, *e = b;
+            if (*b == '"' || *b == '\'') {
+                item->name = b + 1;
+                e = (char *)zpl_str_control_skip(b + 1, *b);
+            } else {
+                zpl_str_advance_while(e, zpl__json_is_name_char(*e));
+            }
+            *e = '\0';
+        }
+
+        if (item->type == ZPL_ADT_TYPE_STRING || item->type == ZPL_ADT_TYPE_MULTISTRING) {
+            char *b = (char *)item->string;
+            item->string = b + 1;
+            *(char *)zpl_str_skip_literal(b + 1, *b) = '\0';
+        } else if (item->type == ZPL_ADT_TYPE_OBJECT || item->type == ZPL_ADT_TYPE_ARRAY) {
+            zpl__json_finish(item);
+        }
+    }
+}
+
 char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code) {
     ZPL_ASSERT(obj && base);
     char *p = base;
@@ -123,10 +160,17 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
             return p;
         }
 
+        if (*p == '\0' || *p == '}') {
+            break;
+        }
+
         zpl_adt_node elem = { 0 };
         p = zpl__json_parse_value(&elem, p, a, err_code);
 
-        if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
+        if (*err_code != ZPL_JSON_ERROR_NONE) {
+            zpl_adt_destroy_branch(&elem);
+            return NULL;
+        }
 
         zpl__json_append_node(obj->nodes, elem);
 
@@ -145,7 +189,7 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         }
     }
 
-    *err_code = ZPL_JSON_ERROR_INTERNAL;
+    *err_code = ZPL_JSON_ERROR_ARRAY_LEFT_OPEN;
     return NULL;
 }
 
@@ -154,14 +198,18 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
     char *p = base, *b = p, *e = p;
 
     /* handle quoted strings */
-    if (!!zpl_strchr("`\"'", *p)) {
+    if (*p && !!zpl_strchr("`\"'", *p)) {
         char c = *p;
         obj->type = (c == '`') ? ZPL_ADT_TYPE_MULTISTRING : ZPL_ADT_TYPE_STRING;
-        b = e = p + 1;
         obj->string = b;
-        e = cast(char *)zpl_str_skip_literal(e, c);
-        *e = '\0', p = e + 1;
-    } else if (zpl_char_is_alpha(*p) || (*p == '-' && !zpl_char_is_digit(*(p + 1)))) {
+        e = cast(char *)zpl_str_skip_literal(p + 1, c);
+        if (*e != c) {
+            ZPL_JSON_ASSERT("unterminated string");
+            *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+            return NULL;
+        }
+        p = e + 1;
+    } else if (zpl_char_is_alpha(*p) || (*p == '-' && !zpl_char_is_digit(*(p + 1)) && *(p + 1) != '.')) {
         /* handle constants */
         if (zpl_str_has_prefix(p, "true")) {
             obj->type = ZPL_ADT_TYPE_REAL;
@@ -207,12 +255,19 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
         /* handle numbers */
         /* defer operation to our helper method. */
         p = zpl_adt_parse_number(obj, p);
-    } else if (!!zpl_strchr("[{", *p)) {
+    } else if (*p == '[' || *p == '{') {
         /* handle compound objects */
         p = zpl__json_parse_object(obj, p, a, err_code);
+        if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         ++p;
     }
 
+    if (obj->type == ZPL_ADT_TYPE_UNINITIALISED) {
+        ZPL_JSON_ASSERT("invalid value");
+        *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+        return NULL;
+    }
+
     return p;
 }
 
@@ -220,8 +275,10 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
     ZPL_ASSERT(obj && base);
     char *p = base;
 
+    zpl_b32 is_open = false;
+
     p = zpl__json_trim(p, false);
-    /**/ if (*p == '{') { ++p; }
+    /**/ if (*p == '{') { ++p; is_open = true; }
     else if (*p == '[') { /* special case for when we call this func on an array. */
         ++p;
         obj->type = ZPL_ADT_TYPE_ARRAY;
@@ -237,8 +294,7 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
     do {
         zpl_adt_node node = { 0 };
         p = zpl__json_trim(p, false);
-        if (*p == '}' && obj->type == ZPL_ADT_TYPE_OBJECT) return p;
-        else if (*p == ']' && obj->type == ZPL_ADT_TYPE_ARRAY) return p;
+        if (*p == '}' && is_open) return p;
         else if (!!zpl_strchr("}]", *p)) {
             ZPL_JSON_ASSERT("mismatched end pair");
             *err_code = ZPL_JSON_ERROR_OBJECT_END_PAIR_MISMATCHED;
@@ -250,15 +306,24 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
         if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         p = zpl__json_trim(p + 1, false);
         p = zpl__json_parse_value(&node, p, a, err_code);
-        if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
+        if (err_code && *err_code == ZPL_JSON_ERROR_NONE && !node.name) {
+            ZPL_JSON_ASSERT("missing name");
+            *err_code = ZPL_JSON_ERROR_INVALID_NAME;
+        }
+        if (err_code && *err_code != ZPL_JSON_ERROR_NONE) {
+            zpl_adt_destroy_branch(&node);
+            return NULL;
+        }
 
         zpl__json_append_node(obj->nodes, node);
 
-        char *end_p = p; zpl_unused(end_p);
+        char *end_p = p;
         p = zpl__json_trim(p, true);
 
         /* this code analyses the keyvalue pair delimiter used in the packet. */
         if (zpl__json_is_delim_char(*p)) {
+            char *next_p = zpl__json_trim(p, false);
+            if (*next_p == ',') p = next_p; /* the delimiter is on one of the next lines */
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             zpl_adt_node *n = zpl_array_end(obj->nodes);
             n->delim_style = ZPL_ADT_DELIM_STYLE_COMMA;
@@ -270,19 +335,25 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
                 n->delim_line_width = cast(zpl_u8)(p-end_p);
             }
 #endif
-            if (*p == 0) {
-                return p;
-            }
             ++p;
+        } else if (p == end_p && *p && !zpl_strchr("}]", *p)) {
+            ZPL_JSON_ASSERT("value is not delimited");
+            *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+            return NULL;
         }
         p = zpl__json_trim(p, false);
     } while (*p);
+
+    if (is_open) {
+        ZPL_JSON_ASSERT("object left open");
+        *err_code = ZPL_JSON_ERROR_OBJECT_END_PAIR_MISMATCHED;
+        return NULL;
+    }
     return p;
 }
 
 char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
     char *p = base, *b = p, *e = p;
-    zpl_u8 name_style=0;
 
     if (*p == '"' || *p == '\'' || zpl_char_is_alpha(*p) || *p == '_' || *p == '$') {
         if (*p == '"' || *p == '\'') {
@@ -294,19 +365,22 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
             }
 #endif
             char c = *p;
-            b = ++p;
-            e = cast(char *)zpl_str_control_skip(b, c);
+            e = cast(char *)zpl_str_control_skip(p + 1, c);
             node->name = b;
 
-            /* we can safely null-terminate here, since "e" points to the quote pair end. */
-            *e++ = '\0';
+            if (*e != c || !zpl__json_validate_name(b + 1, e)) {
+                ZPL_JSON_ASSERT("invalid name");
+                *err_code = ZPL_JSON_ERROR_INVALID_NAME;
+                return NULL;
+            }
+            ++e;
         }
         else {
-            b = e = p;
-            zpl_str_advance_while(e, *e && (zpl_char_is_alphanumeric(*e) || *e == '_') && !zpl_char_is_space(*e) && !zpl__json_is_assign_char(*e));
+            zpl_str_advance_while(e, zpl__json_is_name_char(*e));
             node->name = b;
-            name_style = ZPL_ADT_NAME_STYLE_NO_QUOTES;
-            /* we defer null-termination as it can potentially wipe our assign char as well. */
+#ifndef ZPL_PARSER_DISABLE_ANALYSIS
+            node->name_style = ZPL_ADT_NAME_STYLE_NO_QUOTES;
+#endif
         }
 
         char *assign_p = e; zpl_unused(assign_p);
@@ -315,7 +389,7 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
         node->assign_line_width = cast(zpl_u8)(p-assign_p);
 #endif
 
-        if (*p && !zpl__json_is_assign_char(*p)) {
+        if (!zpl__json_is_assign_char(*p)) {
             ZPL_JSON_ASSERT("invalid assignment");
             *err_code = ZPL_JSON_ERROR_INVALID_ASSIGNMENT;
             return NULL;
@@ -328,41 +402,24 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
             else if (*p == '|')
                 node->assign_style = ZPL_ADT_ASSIGN_STYLE_LINE;
             else node->assign_style = ZPL_ADT_ASSIGN_STYLE_COLON;
-#endif
-        }
-
-        /* since we already know the assign style, we can cut it here for unquoted names */
-        if (name_style == ZPL_ADT_NAME_STYLE_NO_QUOTES && *e) {
-            *e = '\0';
-#ifndef ZPL_PARSER_DISABLE_ANALYSIS
-            node->name_style = name_style;
 #endif
         }
     }
 
-    if (node->name && !zpl__json_validate_name(node->name, NULL)) {
-        ZPL_JSON_ASSERT("invalid name");
-        *err_code = ZPL_JSON_ERROR_INVALID_NAME;
-        return NULL;
-    }
-
     return p;
 }
 
 char *zpl__json_trim(char *base, zpl_b32 catch_newline) {
     ZPL_ASSERT_NOT_NULL(base);
     char *p = base;
-    do {
+    for (;;) {
         if (zpl_str_has_prefix(p, "//")) {
-            const char *e = zpl_str_skip(p, '\n');
-            p += (e-p);
+            p = (char *)zpl_str_skip(p, '\n');
         }
         else if (zpl_str_has_prefix(p, "/*")) {
-            const char *e = zpl_str_skip(p+2, '*');
-            if (*e && *(e+1) == '/') {
-                e+=2; /* advance past end comment block */
-                p += (e-p);
-            }
+            p += 2;
+            while (*p && !zpl_str_has_prefix(p, "*/")) { ++p; }
+            if (*p) p += 2; /* advance past end comment block */
         }
         else if (*p == '\n' && catch_newline) {
             return p;
@@ -370,8 +427,10 @@ char *zpl__json_trim(char *base, zpl_b32 catch_newline) {
         else if (!zpl_char_is_space(*p)) {
             return p;
         }
-    } while (*p++);
-    return NULL;
+        else {
+            ++p;
+        }
+    }
 }
 
 zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
-- 
2.43.0


From 28d9ece813798a7a8afa99239bd4a0723b607c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 056/146] fix: writing JSON leaked its buffer when out of
 memory

---
 code/source/parsers/json.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index cc17b0e..28384a6 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -64,8 +64,10 @@ zpl_string zpl_json_write_string(zpl_allocator a, zpl_adt_node *obj, zpl_isize i
     zpl_file tmp;
     if (!zpl_file_stream_new(&tmp, a))
         return NULL;
-    if (!zpl_json_write(&tmp, obj, indent))
+    if (!zpl_json_write(&tmp, obj, indent)) {
+        zpl_file_close(&tmp);
         return NULL;
+    }
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
     zpl_string output = zpl_string_make_length(a, (char *)buf, fsize);
-- 
2.43.0


From 610a0305aa030c7ed8d396c4b20da1e928b663a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 057/146] fix: writing a parsed string escaped its escaped
 quotes once more, and cut long strings

---
 code/source/adt.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index a40e5fc..3d138f0 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -580,9 +580,14 @@ zpl_adt_error zpl_adt_print_string(zpl_file *file, zpl_adt_node *node, char cons
 
     do {
         p = zpl_str_skip_any(p, escaped_chars);
-        zpl__adt_fprintf(file, "%.*s", zpl_ptr_diff(b, p), b);
+        if (p != b && !zpl_file_write(file, b, zpl_pointer_diff(b, p))) return ZPL_ADT_ERROR_OUT_OF_MEMORY;
         if (*p && !!zpl_strchr(escaped_chars, *p)) {
-            zpl__adt_fprintf(file, "%s%c", escape_symbol, *p);
+            /* text that was parsed still has its own escapes */
+            zpl_b32 escaped = false;
+            if (*escape_symbol == '\\') {
+                for (char const *q = p; q != node->string && q[-1] == '\\'; --q) escaped = !escaped;
+            }
+            zpl__adt_fprintf(file, "%s%c", escaped ? "" : escape_symbol, *p);
             p++;
         }
         b = p;
-- 
2.43.0


From dbb41ff21308c76d611f7716088f84bf6147fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 058/146] fix: reals of 2^64 and more were printed wrong, and
 others lost accuracy digit by digit

---
 code/source/core/print.c | 68 +++++++++++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 12 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index c3411e5..ba9163f 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -216,9 +216,41 @@ zpl_internal zpl_isize zpl__print_u64(char *text, zpl_isize max_len, zpl__format
     return zpl__print_number(text, max_len, info, num);
 }
 
+zpl_internal char *zpl__print_huge_f64(char *text, zpl_f64 arg) {
+    zpl_u32 limbs[36] = { 0 }; // NOTE: nine digits each
+    zpl_isize count = 1, shift = 0;
+
+    if (arg - arg != 0) { // NOTE: not a finite number
+        zpl_strcpy(text, arg == arg ? "inf" : "nan");
+        return text + 3;
+    }
+
+    for (; arg >= 9007199254740992.0; arg /= 2) shift++;
+    for (zpl_u64 value = cast(zpl_u64) arg; value; value /= 1000000000) limbs[count++ - 1] = cast(zpl_u32)(value % 1000000000);
+    for (; shift > 0; shift--) {
+        zpl_u32 carry = 0;
+        for (zpl_isize i = 0; i < count; i++) {
+            zpl_u32 limb = limbs[i] * 2 + carry;
+            limbs[i] = limb % 1000000000;
+            carry = limb / 1000000000;
+        }
+        if (carry) limbs[count++] = carry;
+    }
+    while (count > 1 && !limbs[count - 1]) count--;
+    zpl_u64_to_str(limbs[--count], text, 10);
+    text += zpl_strlen(text);
+    while (count-- > 0) {
+        zpl_u32 limb = limbs[count];
+        for (zpl_isize i = 8; i >= 0; i--, limb /= 10) text[i] = cast(char)('0' + limb % 10);
+        text += 9;
+    }
+    *text = 0;
+    return text;
+}
+
 zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_b32 is_hexadecimal, zpl_f64 arg) {
     // TODO: Handle exponent notation
-    char num[512], *text_begin = num;
+    char num[640], *text_begin = num;
     zpl_isize precision = info->precision < 0 ? 6 : zpl_min(info->precision, 256);
     zpl_u64 value;
     zpl_unused(is_hexadecimal);
@@ -232,21 +264,33 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
         *text_begin++ = (info->flags & ZPL_FMT_PLUS) ? '+' : ' ';
     }
 
-    value = cast(zpl_u64) arg;
-    zpl_u64_to_str(value, text_begin, 10);
-    text_begin += zpl_strlen(text_begin);
-    arg -= value;
+    // NOTE: digits past the precision are cut, but those past the accuracy of a double are rounded first
+    zpl_isize accuracy = 15;
+    for (zpl_f64 f = arg; f >= 1 && accuracy > 0; f /= 10) accuracy--;
+    if (precision < accuracy && arg) {
+        zpl_f64 half = 0.5;
+        for (zpl_isize i = 0; i < accuracy; i++) half /= 10;
+        arg += half;
+    }
+
+    if (arg < 18446744073709551616.0) {
+        value = cast(zpl_u64) arg;
+        zpl_u64_to_str(value, text_begin, 10);
+        text_begin += zpl_strlen(text_begin);
+        arg -= value;
+    } else {
+        text_begin = zpl__print_huge_f64(text_begin, arg);
+        if (arg - arg != 0) precision = 0;
+        arg = 0;
+    }
 
     if ((info->flags & ZPL_FMT_ALT) || precision > 0) {
-        zpl_i64 mult = 10;
         *text_begin++ = '.';
         for (; precision > 0; precision--) {
-            value = cast(zpl_u64)(arg * mult);
-            *text_begin++ = cast(char)('0' + zpl_min(value, 9));
-            arg -= cast(zpl_f64) value / mult;
-            // NOTE: a double has no more digits than that
-            if (mult >= ZPL_I64_MAX / 10) arg = 0;
-            else mult *= 10;
+            arg *= 10;
+            value = zpl_min(cast(zpl_u64)arg, 9);
+            *text_begin++ = cast(char)('0' + value);
+            arg -= value;
         }
     }
     *text_begin = '\0';
-- 
2.43.0


From 8ac1ab24719236ee82685380456ab72c4efa6fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 059/146] fix: a document with a closed object before a line
 delimiter was written so that it could not be read

---
 code/source/parsers/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 28384a6..e1618a9 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -325,7 +325,7 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
         /* this code analyses the keyvalue pair delimiter used in the packet. */
         if (zpl__json_is_delim_char(*p)) {
             char *next_p = zpl__json_trim(p, false);
-            if (*next_p == ',') p = next_p; /* the delimiter is on one of the next lines */
+            if (*next_p == ',' || *next_p == '|') p = next_p; /* the delimiter is on one of the next lines */
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             zpl_adt_node *n = zpl_array_end(obj->nodes);
             n->delim_style = ZPL_ADT_DELIM_STYLE_COMMA;
-- 
2.43.0


From daf29fb5f4f7add1bafdc269171f5e711887c3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 060/146] fix: CSV parser dropped empty cells, corrupted cells,
 missed ragged rows and leaked on errors

Empty cells in front of a line end or the text end were dropped, a tab or
space delimiter was skipped as white space, numeric-looking cells such as
1-2 were cut to their first digits, a header that looks like a number became
a bad pointer, "" pairs were mishandled, data after a closing quote was glued
to the next cell, rows shorter or longer than the first one could pass or
write past the columns, and failures leaked the partial table.
---
 code/header/parsers/csv.h |   1 +
 code/source/parsers/csv.c | 155 ++++++++++++++++++--------------------
 2 files changed, 74 insertions(+), 82 deletions(-)

diff --git a/code/header/parsers/csv.h b/code/header/parsers/csv.h
index bd29059..ba1d48d 100644
--- a/code/header/parsers/csv.h
+++ b/code/header/parsers/csv.h
@@ -8,6 +8,7 @@ typedef enum zpl_csv_error {
     ZPL_CSV_ERROR_INTERNAL,
     ZPL_CSV_ERROR_UNEXPECTED_END_OF_INPUT,
     ZPL_CSV_ERROR_MISMATCHED_ROWS,
+    ZPL_CSV_ERROR_OUT_OF_MEMORY,
 } zpl_csv_error;
 
 typedef zpl_adt_node zpl_csv_object;
diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 4a1a5b3..2d37933 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -10,19 +10,36 @@
 
 ZPL_BEGIN_C_DECLS
 
+static char *zpl__csv_trim(char *p, char delim) {
+    while (*p && *p != delim && *p != '\n' && zpl_char_is_space(*p)) p++;
+    return p;
+}
+
+static zpl_u8 zpl__csv_fail(zpl_csv_object *root, zpl_u8 err) {
+    zpl_adt_destroy_branch(root);
+    zpl_zero_item(root);
+    return err;
+}
+
 zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator allocator, zpl_b32 has_header, char delim) {
-    zpl_csv_error err = ZPL_CSV_ERROR_NONE;
     ZPL_ASSERT_NOT_NULL(root);
     ZPL_ASSERT_NOT_NULL(text);
     zpl_zero_item(root);
     zpl_adt_make_branch(root, allocator, NULL, has_header ? false : true);
+    if (!root->nodes) return ZPL_CSV_ERROR_OUT_OF_MEMORY;
     char *p = text, *b = p, *e = p;
-    zpl_isize colc = 0, total_colc = 0;
+    zpl_isize colc = 0, total_colc = 0, rowc = 0;
 
-    do {
+    for (;;) {
         char d = 0;
-        p = cast(char *)zpl_str_trim(p, false);
-        if (*p == 0) break;
+        p = zpl__csv_trim(p, delim);
+
+        /* rows end at a line end, so anything blank in front of one is no row */
+        if (colc == 0) {
+            if (*p == '\n') { p++; continue; }
+            if (*p == 0) break;
+        }
+
         zpl_adt_node row_item = {0};
         row_item.type = ZPL_ADT_TYPE_STRING;
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
@@ -30,103 +47,77 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
 #endif
 
         /* handle string literals */
-        if (*p == '"') {
+        if (*p == '"' && delim != '"') {
+            /* unescape escaped quotes (so that unescaped text escapes :) */
             p = b = e = p+1;
-            row_item.string = b;
-#ifndef ZPL_PARSER_DISABLE_ANALYSIS
-            row_item.name_style = ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE;
-#endif
-            do {
-                e = cast(char *)zpl_str_skip(e, '"');
-                if (*e && *(e+1) == '"') {
-                    e += 2;
-                }
-                else break;
-            } while (*e);
-            if (*e == 0) {
+            while (*p && (*p != '"' || *(p+1) == '"')) {
+                if (*p == '"') p++;
+                *e++ = *p++;
+            }
+            if (*p == 0) {
                 ZPL_CSV_ASSERT("unmatched quoted string");
-                err = ZPL_CSV_ERROR_UNEXPECTED_END_OF_INPUT;
-                return err;
+                return zpl__csv_fail(root, ZPL_CSV_ERROR_UNEXPECTED_END_OF_INPUT);
             }
-            *e = 0;
-            p = cast(char *)zpl_str_trim(e+1, true);
+            p = zpl__csv_trim(p+1, delim);
             d = *p;
-
-            /* unescape escaped quotes (so that unescaped text escapes :) */
-            {
-                char *ep = b;
-                do {
-                    if (*ep == '"' && *(ep+1) == '"') {
-                        zpl_memmove(ep, ep+1, zpl_strlen(ep));
-                    }
-                    ep++;
-                } while (*ep);
+            if (d && d != delim && d != '\n') {
+                ZPL_CSV_ASSERT("unexpected data after a quoted string");
+                return zpl__csv_fail(root, ZPL_CSV_ERROR_INTERNAL);
             }
+            *e = 0;
+            row_item.string = b;
+#ifndef ZPL_PARSER_DISABLE_ANALYSIS
+            row_item.name_style = ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE;
+#endif
         }
-        else if (*p == delim) {
-            d = *p;
-            row_item.string = "";
-        }
-        else if (*p) {
+        else {
             /* regular data */
-            b = e = p;
-            row_item.string = b;
-            do {
-                e++;
-            } while (*e && *e != delim && *e != '\n');
-            if (*e) {
-                p = cast(char *)zpl_str_trim(e, true);
-                while (zpl_char_is_space(*(e-1))) { e--; }
-                d = *p;
-                *e = 0;
-            }
-            else {
-                d = 0;
-                p = e;
-            }
+            b = p;
+            while (*p && *p != delim && *p != '\n') { p++; }
+            e = p;
+            while (e != b && zpl_char_is_space(*(e-1))) { e--; }
+            d = *p;
+            if (*e) *e = 0;
+            row_item.string = e == b ? "" : b;
 
             /* check if number and process if so */
-            zpl_b32 skip_number = false;
-            char *num_p = b;
-            do {
-                if (!zpl_char_is_hex_digit(*num_p) && (!zpl_strchr("+-.eExX", *num_p))) {
-                    skip_number = true;
-                    break;
-                }
-            } while (*num_p++);
-
-            if (!skip_number) {
-                zpl_adt_str_to_number(&row_item);
+            if (e != b && !(has_header && rowc == 0)) {
+                zpl_adt_str_to_number_strict(&row_item);
             }
         }
 
-        if (colc >= zpl_array_count(root->nodes)) {
-            zpl_adt_append_arr(root, NULL);
+        /* check if number of rows is not mismatched */
+        zpl_b32 row_ends = d != delim || d == 0;
+        if (rowc > 0 && (colc >= total_colc || (row_ends && colc+1 != total_colc))) {
+            ZPL_CSV_ASSERT("mismatched rows");
+            return zpl__csv_fail(root, ZPL_CSV_ERROR_MISMATCHED_ROWS);
         }
 
-        zpl_array_append(root->nodes[colc].nodes, row_item);
+        if (rowc == 0 && !zpl_adt_append_arr(root, NULL)) {
+            return zpl__csv_fail(root, ZPL_CSV_ERROR_OUT_OF_MEMORY);
+        }
 
-        if (d == delim) {
-            colc++;
-            p++;
+        zpl_csv_object *col = root->nodes + colc;
+        zpl_csv_object *cell = zpl_adt_alloc(col);
+        if (!cell) {
+            return zpl__csv_fail(root, ZPL_CSV_ERROR_OUT_OF_MEMORY);
         }
-        else if (d == '\n' || d == 0) {
-            /* check if number of rows is not mismatched */
-            if (total_colc < colc) total_colc = colc;
-            else if (total_colc != colc) {
-                ZPL_CSV_ASSERT("mismatched rows");
-                err = ZPL_CSV_ERROR_MISMATCHED_ROWS;
-                return err;
-            }
+        row_item.parent = col;
+        *cell = row_item;
+
+        colc++;
+        if (row_ends) {
+            total_colc = colc;
             colc = 0;
-            if (d != 0) p++;
+            rowc++;
         }
-    } while(*p);
+        if (d == 0) break;
+        p++;
+    }
 
     if (zpl_array_count(root->nodes) == 0) {
         ZPL_CSV_ASSERT("unexpected end of input. stream is empty.");
-        err = ZPL_CSV_ERROR_UNEXPECTED_END_OF_INPUT;
-        return err;
+        return zpl__csv_fail(root, ZPL_CSV_ERROR_UNEXPECTED_END_OF_INPUT);
     }
 
     /* consider first row as a header. */
@@ -139,7 +130,7 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
         }
     }
 
-    return err;
+    return ZPL_CSV_ERROR_NONE;
 }
 void zpl_csv_free(zpl_csv_object *obj) {
     zpl_adt_destroy_branch(obj);
-- 
2.43.0


From cb6ad129ee99baa10007e7be9acbd7c405d8bee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 061/146] fix: CSV writer lost cells of other styles and wrote
 tables it could not read

Unquoted text holding the delimiter, a quote in front or a line end was
written as it was, single-quoted and multi-line strings were not written at
all, long cells were cut, and a table without rows lost its header.
---
 code/source/parsers/csv.c | 49 +++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 2d37933..540d801 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -136,24 +136,34 @@ void zpl_csv_free(zpl_csv_object *obj) {
     zpl_adt_destroy_branch(obj);
 }
 
-void zpl__csv_write_record(zpl_file *file, zpl_csv_object *node) {
+/* text that would not be read back as one cell, or not as the same one, can only be written quoted */
+static zpl_b32 zpl__csv_needs_quotes(char const *text, char delim) {
+    zpl_isize len = zpl_strlen(text);
+    if (len == 0) return false;
+    if (*text == '"' || zpl_char_is_space(*text) || zpl_char_is_space(text[len-1])) return true;
+    for (; *text; text++) {
+        if (*text == delim || *text == '\n') return true;
+    }
+    return false;
+}
+
+void zpl__csv_write_record(zpl_file *file, zpl_csv_object *node, char delim) {
     switch (node->type) {
+        case ZPL_ADT_TYPE_MULTISTRING:
         case ZPL_ADT_TYPE_STRING: {
+            char const *text = node->string ? node->string : "";
+            zpl_b32 quoted = zpl__csv_needs_quotes(text, delim);
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-            switch (node->name_style) {
-                case ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE: {
-                    zpl_fprintf(file, "\"");
-                    zpl_adt_print_string(file, node, "\"", "\"");
-                    zpl_fprintf(file, "\"");
-                } break;
-
-                case ZPL_ADT_NAME_STYLE_NO_QUOTES: {
+            if (node->name_style != ZPL_ADT_NAME_STYLE_NO_QUOTES) quoted = true;
 #endif
-                    zpl_fprintf(file, "%s", node->string);
-#ifndef ZPL_PARSER_DISABLE_ANALYSIS
-                } break;
+            if (quoted) {
+                zpl_fprintf(file, "\"");
+                zpl_adt_print_string(file, node, "\"", "\"");
+                zpl_fprintf(file, "\"");
+            }
+            else if (*text) {
+                zpl_file_write(file, text, zpl_strlen(text));
             }
-#endif
         } break;
 
         case ZPL_ADT_TYPE_REAL:
@@ -163,11 +173,11 @@ void zpl__csv_write_record(zpl_file *file, zpl_csv_object *node) {
     }
 }
 
-void zpl__csv_write_header(zpl_file *file, zpl_csv_object *header) {
+void zpl__csv_write_header(zpl_file *file, zpl_csv_object *header, char delim) {
     zpl_csv_object temp = *header;
     temp.string = temp.name;
     temp.type = ZPL_ADT_TYPE_STRING;
-    zpl__csv_write_record(file, &temp);
+    zpl__csv_write_record(file, &temp, delim);
 }
 
 void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter) {
@@ -178,13 +188,11 @@ void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter
     if (cols == 0) return;
 
     zpl_isize rows = zpl_array_count(obj->nodes[0].nodes);
-    if (rows == 0) return;
-
     zpl_b32 has_headers = obj->nodes[0].name != NULL;
 
     if (has_headers) {
         for (zpl_isize i = 0; i < cols; i++) {
-            zpl__csv_write_header(file, &obj->nodes[i]);
+            zpl__csv_write_header(file, &obj->nodes[i], delimiter);
             if (i+1 != cols) {
                 zpl_fprintf(file, "%c", delimiter);
             }
@@ -194,7 +202,7 @@ void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter
 
     for (zpl_isize r = 0; r < rows; r++) {
         for (zpl_isize i = 0; i < cols; i++) {
-            zpl__csv_write_record(file, &obj->nodes[i].nodes[r]);
+            zpl__csv_write_record(file, &obj->nodes[i].nodes[r], delimiter);
             if (i+1 != cols) {
                 zpl_fprintf(file, "%c", delimiter);
             }
@@ -205,7 +213,8 @@ void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter
 
 zpl_string zpl_csv_write_string_delimiter(zpl_allocator a, zpl_csv_object *obj, char delimiter) {
     zpl_file tmp;
-    zpl_file_stream_new(&tmp, a);
+    if (!zpl_file_stream_new(&tmp, a))
+        return NULL;
     zpl_csv_write_delimiter(&tmp, obj, delimiter);
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
-- 
2.43.0


From f78664f512f9058785c0062f8760b7db62adf54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 062/146] fix: URI decoding read past the text and cut fields
 longer than 64K

A percent sign in front of the end of the text, or one that is not followed
by two hexadecimal digits, is kept as it is.
---
 code/source/parsers/uri.c | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index 846b84f..a37c1de 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -3,31 +3,23 @@
 ZPL_BEGIN_C_DECLS
 
 void zpl__uri_decode_str(char *text) {
-    char buf[ZPL_PRINTF_MAXLEN] = {0}, *p = buf;
-    char *tp = text;
-    
-    char ch = -1;
+    char *p = text, *tp = text;
+
+    /* the decoded text is never longer, so it can be decoded in place */
     while (*tp) {
-        ch = *tp++;
-        
-        if (ch != '%') {
-            if (ch == '+') {
-                *(p++) = ' ';
-            } else {
-                *(p++) = ch;
-            }
-        } else {
+        if (*tp == '%' && zpl_char_is_hex_digit(tp[1]) && zpl_char_is_hex_digit(tp[2])) {
             char hex[3] = {0};
-            hex[0] = tp[0];
-            hex[1] = tp[1];
-            char b = (char)zpl_str_to_i64(hex, NULL, 16);
-            *(p++) = b;
-            tp += 2;
+            hex[0] = tp[1];
+            hex[1] = tp[2];
+            *(p++) = (char)zpl_str_to_i64(hex, NULL, 16);
+            tp += 3;
+        } else {
+            *(p++) = *tp == '+' ? ' ' : *tp;
+            tp++;
         }
     }
-    
-    zpl_strcpy(text, buf);
-    text[p-buf] = 0;
+
+    *p = 0;
 }
 
 zpl_u8 zpl_uri_init(zpl_adt_node *root, char *origin, zpl_allocator a) {
-- 
2.43.0


From 25b3c0dea64eef1c0b4460b011773fc884d16194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 063/146] fix: URI parser went on past the white space that
 ends a URI

---
 code/source/parsers/uri.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index a37c1de..8599517 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -55,7 +55,7 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
 
         zpl_adt_append_str(root, "__zpl_origin__", b);
         
-        if (!c) {
+        if (c != '?') {
             // NOTE(zaklaus): URI has no query params, bail
             return err_code;
         }
@@ -93,7 +93,8 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
         }
         
         
-        if (!c) {
+        // the text, or the URI in it, ends here
+        if (!c || zpl_char_is_space(c)) {
             break;
         }
         
-- 
2.43.0


From a599f90409366f04071ec96033106fbd11f51837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 064/146] fix: running out of memory crashed the URI parser and
 writer, or was not reported

---
 code/header/parsers/uri.h |  1 +
 code/source/parsers/uri.c | 24 ++++++++++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/code/header/parsers/uri.h b/code/header/parsers/uri.h
index f490d1c..a36a570 100644
--- a/code/header/parsers/uri.h
+++ b/code/header/parsers/uri.h
@@ -8,6 +8,7 @@ typedef zpl_adt_node zpl_uri_object;
 typedef enum zpl_uri_error {
     ZPL_URI_ERROR_NONE,
     ZPL_URI_ERROR_INTERNAL,
+    ZPL_URI_ERROR_OUT_OF_MEMORY,
 } zpl_uri_error;
 
 ZPL_DEF zpl_u8 zpl_uri_init(zpl_adt_node *root, char *origin, zpl_allocator a);
diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index 8599517..88b5b17 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -22,13 +22,20 @@ void zpl__uri_decode_str(char *text) {
     *p = 0;
 }
 
+static zpl_u8 zpl__uri_out_of_memory(zpl_adt_node *root) {
+    zpl_adt_destroy_branch(root);
+    zpl_zero_item(root);
+    return ZPL_URI_ERROR_OUT_OF_MEMORY;
+}
+
 zpl_u8 zpl_uri_init(zpl_adt_node *root, char *origin, zpl_allocator a) {
     zpl_u8 err_code = ZPL_URI_ERROR_NONE;
     ZPL_ASSERT_NOT_NULL(root);
     zpl_zero_item(root);
-    zpl_adt_set_obj(root, NULL, a);
-    if (origin)
-        zpl_adt_append_str(root, "__zpl_origin__", origin);
+    if (zpl_adt_set_obj(root, NULL, a))
+        return zpl__uri_out_of_memory(root);
+    if (origin && !zpl_adt_append_str(root, "__zpl_origin__", origin))
+        return zpl__uri_out_of_memory(root);
     return err_code;
 }
 
@@ -39,7 +46,8 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     zpl_zero_item(root);
     text = (char *)zpl_str_trim(text, false);
     
-    zpl_adt_set_obj(root, NULL, a);
+    if (zpl_adt_set_obj(root, NULL, a))
+        return zpl__uri_out_of_memory(root);
     
     char *p = text, *b = p;
 
@@ -53,7 +61,8 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
         char c = *p;
         *p = 0;
 
-        zpl_adt_append_str(root, "__zpl_origin__", b);
+        if (!zpl_adt_append_str(root, "__zpl_origin__", b))
+            return zpl__uri_out_of_memory(root);
         
         if (c != '?') {
             // NOTE(zaklaus): URI has no query params, bail
@@ -86,9 +95,11 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
             field_value = b;
             zpl__uri_decode_str(field_value);
             zpl_adt_node *obj = zpl_adt_append_str(root, field_name, field_value);
+            if (!obj) return zpl__uri_out_of_memory(root);
             zpl_adt_str_to_number_strict(obj);
         } else {
             zpl_adt_node *obj = zpl_adt_append_flt(root, field_name, 1);
+            if (!obj) return zpl__uri_out_of_memory(root);
             obj->props = ZPL_ADT_PROPS_TRUE;
         }
         
@@ -178,7 +189,8 @@ void zpl_uri_free(zpl_adt_node *obj) {
 
 zpl_string zpl_uri_write_string(zpl_allocator a, zpl_adt_node *obj) {
     zpl_file tmp;
-    zpl_file_stream_new(&tmp, a);
+    if (!zpl_file_stream_new(&tmp, a))
+        return NULL;
     zpl_uri_write(&tmp, obj);
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
-- 
2.43.0


From 02b9ddcf5267d6f55cce6065654b3d42f99760b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 065/146] fix: URI origin was written as a format string, with
 a ? or & that starts no param

---
 code/source/parsers/uri.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index 88b5b17..f545d2d 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -151,19 +151,24 @@ void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
     // NOTE(zaklaus): write URI origin if available
     {
         origin = zpl_adt_query(obj, "__zpl_origin__");
-        if (origin) {
-            zpl_fprintf(f, origin->string);
+        if (origin && origin->type != ZPL_ADT_TYPE_STRING) {
+            origin = NULL;
+        }
+        if (origin && origin->string && *origin->string) {
+            zpl_file_write(f, origin->string, zpl_strlen(origin->string));
         }
     }
     
-	// NOTE(zaklaus): write params
-	if (zpl_array_count(obj->nodes) > 0)
-    	zpl_fprintf(f, "%s", "?");
+    zpl_b32 has_params = false;
     
     for (zpl_isize i = 0; i < zpl_array_count(obj->nodes); i++) {
         zpl_adt_node *n = (obj->nodes+i);
         if (origin == n) continue;
         
+        // NOTE(zaklaus): write params
+        zpl_fprintf(f, "%s", has_params ? "&" : "?");
+        has_params = true;
+        
         zpl__uri_print_str(f, n->name);
 
         if (n->type == ZPL_ADT_TYPE_STRING) {
@@ -176,10 +181,6 @@ void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
                 zpl_adt_print_number(f, n);
            } 
         }
-        
-        if (i+1 < zpl_array_count(obj->nodes)) {
-            zpl_fprintf(f, "%s", "&");
-        }
     }
 }
 
-- 
2.43.0


From 06102196e3ebc316e6a5d815b5db6cb2a12485b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 066/146] fix: an option given twice leaked its first text

---
 code/source/opts.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/source/opts.c b/code/source/opts.c
index bd4bf43..cf6147f 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -93,6 +93,8 @@ void zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
 
     switch (t->type) {
         case ZPL_OPTS_STRING: {
+            /* given more than once: the last one counts */
+            if (t->text) zpl_string_free(t->text);
             t->text = zpl_string_make(opts->alloc, b);
         } break;
 
-- 
2.43.0


From 6128ac41f2224023fe4f3cd83d7df437cc3e90c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 067/146] fix: positional options pointed to freed memory once
 more options were added

---
 code/source/opts.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/source/opts.c b/code/source/opts.c
index cf6147f..e9ed983 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -42,7 +42,13 @@ void zpl_opts_add(zpl_opts *opts, char const *name, char const *lname, const cha
     e.met = false;
     e.pos = false;
 
+    zpl_opts_entry *old = opts->entries;
     zpl_array_append(opts->entries, e);
+
+    /* the entries may have moved, the positionals have to follow them */
+    for (zpl_isize i = 0; opts->entries != old && i < zpl_array_count(opts->positioned); ++i) {
+        opts->positioned[i] = opts->entries + (opts->positioned[i] - old);
+    }
 }
 
 zpl_opts_entry *zpl__opts_find(zpl_opts *opts, char const *name, zpl_usize len, zpl_b32 longname) {
-- 
2.43.0


From 78256dbf73dd3db3c2b9e4c45c304f20e10756c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 068/146] fix: setting an option without a long name crashed
 when there are positionals

---
 code/source/opts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index e9ed983..2b1f2ce 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -114,7 +114,7 @@ void zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
     }
 
     for (zpl_isize i=0; i < zpl_array_count(opts->positioned); i++) {
-        if (!zpl_strcmp(opts->positioned[i]->lname, t->lname)) {
+        if (opts->positioned[i] == t) {
             zpl_array_remove_at(opts->positioned, i);
             break;
         }
-- 
2.43.0


From ed8692e0a828f32587a662176b494aab4ca9974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 069/146] fix: the help screen read past the options

---
 code/source/opts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index 2b1f2ce..933eda3 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -132,7 +132,7 @@ zpl_b32 zpl_opts_has_arg(zpl_opts *opts, char const *name) {
 void zpl_opts_print_help(zpl_opts *opts) {
     zpl_printf("USAGE: %s", opts->appname);
 
-    for (zpl_isize i = zpl_array_count(opts->entries); i >= 0; --i) {
+    for (zpl_isize i = zpl_array_count(opts->entries) - 1; i >= 0; --i) {
         zpl_opts_entry *e = opts->entries + i;
 
         if (e->pos == (zpl_b32) true) { zpl_printf(" [%s]", e->lname); }
-- 
2.43.0


From 2e0189de5411e69af21368259b48ede9c561c7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 070/146] fix: the option parser read past the arguments

---
 code/source/opts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index 933eda3..805c09d 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -212,7 +212,7 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
 
                         b = e = e + 1;
                     } else if (*e == '\0') {
-                        char *sp = argv[i+1];
+                        char *sp = i + 1 < argc ? argv[i+1] : NULL;
 
                         if (sp && *sp != '-' && (zpl_array_count(opts->positioned) < 1  || t->type != ZPL_OPTS_FLAG)) {
                             if (t->type == ZPL_OPTS_FLAG) {
-- 
2.43.0


From 63ae71dd106d5af2f7c028cd62e027925d7c30e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 071/146] fix: a flag followed by other characters was
 accepted, and its error named no option

---
 code/source/opts.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/code/source/opts.c b/code/source/opts.c
index 805c09d..48f65b0 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -202,21 +202,21 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
                     char *ob = b;
                     b = e;
 
-                    /**/ if (*e == '=') {
-                        if (t->type == ZPL_OPTS_FLAG) {
-                            *e = '\0';
-                            zpl__opts_push_error(opts, ob, ZPL_OPTS_ERR_EXTRA_VALUE);
-                            had_errors = true;
-                            continue;
-                        }
+                    if (*e != '\0' && t->type == ZPL_OPTS_FLAG) {
+                        *e = '\0';
+                        zpl__opts_push_error(opts, ob, ZPL_OPTS_ERR_EXTRA_VALUE);
+                        had_errors = true;
+                        continue;
+                    }
 
+                    /**/ if (*e == '=') {
                         b = e = e + 1;
                     } else if (*e == '\0') {
                         char *sp = i + 1 < argc ? argv[i+1] : NULL;
 
                         if (sp && *sp != '-' && (zpl_array_count(opts->positioned) < 1  || t->type != ZPL_OPTS_FLAG)) {
                             if (t->type == ZPL_OPTS_FLAG) {
-                                zpl__opts_push_error(opts, b, ZPL_OPTS_ERR_EXTRA_VALUE);
+                                zpl__opts_push_error(opts, ob, ZPL_OPTS_ERR_EXTRA_VALUE);
                                 had_errors = true;
                                 continue;
                             }
-- 
2.43.0


From aa256c4270fe2766eb42ab196f104a37f83c800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 072/146] fix: regex compiler ignored the given buffer, running
 out of memory, and leaked or freed its code twice

zpl_re_compile_from_buffer treated every buffer as empty, errors released the
code only sometimes, and zpl_re_destroy was declared but not there.
---
 code/source/regex.c | 52 ++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 7ef20d9..4dfcba3 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -356,44 +356,44 @@ static zpl_re_ctx zpl_re__exec(zpl_re *re, zpl_isize op, char const *str, zpl_is
     return c;
 }
 
-static zpl_regex_error zpl_re__emit_ops(zpl_re *re, zpl_isize op_count, ...) {
-    va_list va;
-
+static zpl_regex_error zpl_re__reserve(zpl_re *re, zpl_isize op_count) {
     if (re->buf_len + op_count > re->buf_cap) {
         if (!re->can_realloc) {
             return ZPL_RE_ERROR_TOO_LONG;
         }
         else {
             zpl_isize new_cap = (re->buf_cap*2) + op_count;
-            re->buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            char *new_buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            if (!new_buf) return ZPL_RE_ERROR_INTERNAL_FAILURE;
+            re->buf = new_buf;
             re->buf_cap = new_cap;
         }
     }
 
+    return ZPL_RE_ERROR_NONE;
+}
+
+static zpl_regex_error zpl_re__emit_ops(zpl_re *re, zpl_isize op_count, ...) {
+    va_list va;
+    zpl_regex_error err = zpl_re__reserve(re, op_count);
+    if (err) return err;
+
     va_start(va, op_count);
     for (zpl_isize i = 0; i < op_count; i++)
     {
         zpl_i32 v = va_arg(va, zpl_i32);
-        if (v > 256)
-            return ZPL_RE_ERROR_TOO_LONG;
+        if (v > 255)
+            err = ZPL_RE_ERROR_TOO_LONG;
         re->buf[re->buf_len++] = (char)v;
     }
     va_end(va);
 
-    return ZPL_RE_ERROR_NONE;
+    return err;
 }
 
 static zpl_regex_error zpl_re__emit_ops_buffer(zpl_re *re, zpl_isize op_count, char const *buffer) {
-    if (re->buf_len + op_count > re->buf_cap) {
-        if (!re->can_realloc) {
-            return ZPL_RE_ERROR_TOO_LONG;
-        }
-        else {
-            zpl_isize new_cap = (re->buf_cap*2) + op_count;
-            re->buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
-            re->buf_cap = new_cap;
-        }
-    }
+    zpl_regex_error err = zpl_re__reserve(re, op_count);
+    if (err) return err;
 
     for (zpl_isize i = 0; i < op_count; i++)
     {
@@ -683,7 +683,7 @@ zpl_regex_error zpl_re_compile_from_buffer(zpl_re *re, char const *pattern, zpl_
     re->capture_count = 0;
     re->buf = (char *)buffer;
     re->buf_len = 0;
-    re->buf_cap = re->buf_len;
+    re->buf_cap = buffer_len;
     re->can_realloc = 0;
 
     err = zpl_re__parse(re, pattern, pattern_len, 0, 0, 0);
@@ -693,7 +693,6 @@ zpl_regex_error zpl_re_compile_from_buffer(zpl_re *re, char const *pattern, zpl_
 zpl_regex_error zpl_re_compile(zpl_re *re, zpl_allocator backing, char const *pattern, zpl_isize pattern_len) {
     zpl_regex_error err;
     zpl_isize cap = pattern_len+128;
-    zpl_isize offset = 0;
 
     re->backing = backing;
     re->capture_count = 0;
@@ -702,14 +701,23 @@ zpl_regex_error zpl_re_compile(zpl_re *re, zpl_allocator backing, char const *pa
     re->buf_cap = cap;
     re->can_realloc = 1;
 
-    err = zpl_re__parse(re, pattern, pattern_len, 0, 0, &offset);
+    if (!re->buf) return ZPL_RE_ERROR_INTERNAL_FAILURE;
 
-    if (offset != pattern_len)
-        zpl_free(backing, re->buf);
+    err = zpl_re__parse(re, pattern, pattern_len, 0, 0, 0);
+
+    if (err)
+        zpl_re_destroy(re);
 
     return err;
 }
 
+void zpl_re_destroy(zpl_re *re) {
+    if (re->can_realloc && re->buf)
+        zpl_free(re->backing, re->buf);
+    re->buf = NULL;
+    re->buf_len = re->buf_cap = 0;
+}
+
 zpl_isize zpl_re_capture_count(zpl_re *re) { return re->capture_count; }
 
 zpl_b32 zpl_re_match(zpl_re *re, char const *str, zpl_isize len, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_isize *offset) {
-- 
2.43.0


From 95d83a3e6883523fef376393b931a97830fa94ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 073/146] fix: regex escapes took any character for a
 hexadecimal digit, and open sets were accepted

\d+ matched the character 0xd0, an unclosed [ was taken literally (and read
past the pattern), and zero bytes in sets or as \00 upset the code.
---
 code/source/regex.c | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 4dfcba3..b99098d 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -432,7 +432,12 @@ static int zpl_re__encode_escape(char code) {
         case 'x':  return ZPL_RE_CODE_XDIGIT;
         case 'p':  return ZPL_RE_CODE_PRINTABLE;
     }
-    return code;
+    return (unsigned char)code;
+}
+
+/* \XX needs both of its digits, anything else is a meta character */
+static zpl_b32 zpl_re__is_hex(char const *pattern, zpl_isize len, zpl_isize offset) {
+    return (offset+1 < len) && zpl_char_is_hex_digit(pattern[offset]) && zpl_char_is_hex_digit(pattern[offset+1]);
 }
 
 static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_isize len, zpl_isize offset, zpl_isize *new_offset) {
@@ -442,7 +447,7 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
     zpl_b32 closed = 0;
     zplreOp op = ZPL_RE_OP_ANY_OF;
 
-    if (pattern[offset] == '^') {
+    if (offset < len && pattern[offset] == '^') {
         offset++;
         op = ZPL_RE_OP_ANY_BUT;
     }
@@ -462,25 +467,28 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
             break;
         }
 
-        if (buffer_len >= buffer_cap)
+        if (buffer_len >= buffer_cap - 1)
             return ZPL_RE_ERROR_TOO_LONG;
 
         if (pattern[offset] == '\\') {
             offset++;
 
-            if ((offset + 1 < len) && zpl_char_is_hex_digit(*(pattern+offset))) {
+            if (zpl_re__is_hex(pattern, len, offset) && zpl_re__hex((pattern+offset))) {
                 buffer[buffer_len++] = zpl_re__hex((pattern+offset));
                 offset++;
             }
             else if (offset < len) {
-                zpl_i32 code = zpl_re__encode_escape(pattern[offset]);
+                zpl_i32 code;
+                if (zpl_re__is_hex(pattern, len, offset)) {
+                    code = ZPL_RE_CODE_NULL; /* \00 */
+                    offset++;
+                }
+                else {
+                    code = zpl_re__encode_escape(pattern[offset]);
+                }
 
                 if (!code || code > 0xff) {
                     buffer[buffer_len++] = 0;
-
-                    if (buffer_len >= buffer_cap)
-                        return ZPL_RE_ERROR_TOO_LONG;
-
                     buffer[buffer_len++] = (code >> 8) & 0xff;
                 }
                 else {
@@ -489,7 +497,10 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
             }
         }
         else {
+            /* a zero byte announces a code */
             buffer[buffer_len++] = (unsigned char)pattern[offset];
+            if (!pattern[offset])
+                buffer[buffer_len++] = 0;
         }
 
         offset++;
@@ -575,7 +586,7 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
             case '[': {
                 last_buf_len = re->buf_len;
                 err = zpl_re__parse_group(re, pattern, len, offset, &offset);
-                if (offset > len)
+                if (err)
                     return err;
             } break;
 
@@ -637,10 +648,13 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
 
             case '\\': {
                 last_buf_len = re->buf_len;
-                if ((offset+1 < len) && zpl_char_is_hex_digit(*(pattern+offset))) {
+                if (zpl_re__is_hex(pattern, len, offset)) {
                     unsigned char hex_value = zpl_re__hex((pattern+offset));
                     offset += 2;
-                    err = zpl_re__emit_ops(re, 2, ZPL_RE_OP_META_MATCH, (int)hex_value);
+                    if (hex_value)
+                        err = zpl_re__emit_ops(re, 2, ZPL_RE_OP_META_MATCH, (int)hex_value);
+                    else
+                        err = zpl_re__emit_ops(re, 3, ZPL_RE_OP_META_MATCH, 0, 0);
                     if (err) return err;
                 } else if (offset < len) {
                     int code = zpl_re__encode_escape(pattern[offset++]);
-- 
2.43.0


From dbe16f8c03272ad5b5de22523682971f6cd22091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 074/146] fix: regex branches, nested captures and quantifiers
 were compiled to wrong code

The end of a branch at the top level, and of all but the last two branches,
was never connected, *? meant +?, a quantifier could apply to what comes
before another one or before ^ and $, captures closed by an escaped or inner
parenthesis were accepted, long literals and branches overflowed their length
byte, and a ] outside of a set looped for ever.
---
 code/source/regex.c | 55 +++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index b99098d..92db531 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -517,18 +517,16 @@ static zpl_regex_error zpl_re__compile_quantifier(zpl_re *re, zpl_isize last_buf
     zpl_isize move_size;
 
     if ((re->buf[last_buf_len] == ZPL_RE_OP_EXACT_MATCH) &&
-        (re->buf[last_buf_len+1] > 1))
+        ((unsigned char)re->buf[last_buf_len+1] > 1))
     {
         unsigned char last_char = re->buf[re->buf_len-1];
 
         re->buf[last_buf_len+1]--;
         re->buf_len--;
-        err = zpl_re__emit_ops(re, 4, (zpl_i32)quantifier, (zpl_i32)ZPL_RE_OP_EXACT_MATCH, 1, (zpl_i32)last_char);
-        if (err) return err;
-        return ZPL_RE_ERROR_NONE;
+        return zpl_re__emit_ops(re, 4, (zpl_i32)quantifier, (zpl_i32)ZPL_RE_OP_EXACT_MATCH, 1, (zpl_i32)last_char);
     }
 
-    move_size = re->buf_len - last_buf_len + 1;
+    move_size = re->buf_len - last_buf_len;
 
     err = zpl_re__emit_ops(re, 1, 0);
     if (err) return err;
@@ -539,22 +537,35 @@ static zpl_regex_error zpl_re__compile_quantifier(zpl_re *re, zpl_isize last_buf
     return ZPL_RE_ERROR_NONE;
 }
 
+/* every branch but the last one jumps behind the last one */
+static zpl_regex_error zpl_re__close_branches(zpl_re *re, zpl_isize group_begin, zpl_isize branch_begin) {
+    while (group_begin != branch_begin) {
+        group_begin += 2 + (unsigned char)re->buf[group_begin+1];
+        if (re->buf_len - group_begin > 255) return ZPL_RE_ERROR_TOO_LONG;
+        re->buf[group_begin-1] = (char)(re->buf_len - group_begin);
+    }
+
+    return ZPL_RE_ERROR_NONE;
+}
+
 static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize len, zpl_isize offset, zpl_isize level, zpl_isize *new_offset) {
     zpl_regex_error err = ZPL_RE_ERROR_NONE;
     zpl_isize last_buf_len = re->buf_len;
     zpl_isize branch_begin = re->buf_len;
-    zpl_isize branch_op = -1;
+    zpl_isize group_begin = re->buf_len;
 
     while (offset < len) {
         switch (pattern[offset++]) {
             case '^': {
                 err = zpl_re__emit_ops(re, 1, ZPL_RE_OP_BEGINNING_OF_LINE);
                 if (err) return err;
+                last_buf_len = re->buf_len;
             } break;
 
             case '$': {
                 err = zpl_re__emit_ops(re, 1, ZPL_RE_OP_END_OF_LINE);
                 if (err) return err;
+                last_buf_len = re->buf_len;
             } break;
 
             case '(': {
@@ -564,21 +575,19 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                 if (err) return err;
 
                 err = zpl_re__parse(re, pattern, len, offset, level+1, &offset);
-
-                if ((offset > len) || (pattern[offset-1] != ')'))
-                    return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
+                if (err) return err;
 
                 err = zpl_re__emit_ops(re, 2, ZPL_RE_OP_END_CAPTURE, (zpl_i32)capture);
                 if (err) return err;
             } break;
 
             case ')': {
-                if (branch_op != -1)
-                    re->buf[branch_op + 1] = (unsigned char)(re->buf_len - (branch_op+2));
-
                 if (level == 0)
                     return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
 
+                err = zpl_re__close_branches(re, group_begin, branch_begin);
+                if (err) return err;
+
                 if (new_offset) *new_offset = offset;
                 return ZPL_RE_ERROR_NONE;
             } break;
@@ -596,13 +605,16 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                     return ZPL_RE_ERROR_BRANCH_FAILURE;
                 } else {
                     zpl_isize size = re->buf_len - branch_begin;
+                    if (size+2 > 255) return ZPL_RE_ERROR_TOO_LONG;
+
                     err = zpl_re__emit_ops(re, 4, 0, 0, ZPL_RE_OP_BRANCH_END, 0);
                     if (err) return err;
 
                     zpl_memmove(re->buf + branch_begin + 2, re->buf + branch_begin, size);
                     re->buf[branch_begin] = ZPL_RE_OP_BRANCH_START;
-                    re->buf[branch_begin+1] = (size+2) & 0xff;
-                    branch_op = re->buf_len-2;
+                    re->buf[branch_begin+1] = (char)(size+2);
+                    branch_begin = re->buf_len;
+                    last_buf_len = re->buf_len;
                 }
             } break;
 
@@ -626,12 +638,13 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                     return ZPL_RE_ERROR_INVALID_QUANTIFIER;
 
                 if ((offset < len) && (pattern[offset] == '?')) {
-                    quantifier = ZPL_RE_OP_ONE_OR_MORE_SHORTEST;
+                    quantifier = quantifier == ZPL_RE_OP_ZERO_OR_MORE ? ZPL_RE_OP_ZERO_OR_MORE_SHORTEST : ZPL_RE_OP_ONE_OR_MORE_SHORTEST;
                     offset++;
                 }
 
                 err = zpl_re__compile_quantifier(re, last_buf_len, quantifier);
                 if (err) return err;
+                last_buf_len = re->buf_len;
             } break;
 
             case '?': {
@@ -644,6 +657,7 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                 err = zpl_re__compile_quantifier(re, last_buf_len,
                                                  (unsigned char)ZPL_RE_OP_ZERO_OR_ONE);
                 if (err) return err;
+                last_buf_len = re->buf_len;
             } break;
 
             case '\\': {
@@ -677,6 +691,11 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                 while ((offset < len) &&
                        (zpl_re__strfind(ZPL_RE__LITERAL(ZPL_RE__META_CHARS), pattern[offset], 0) < 0)) {
                     size++, offset++;
+                    if (size == 255) break;
+                }
+
+                if (size == 0) { /* a ] that closes nothing */
+                    size++, offset++;
                 }
 
                 last_buf_len = re->buf_len;
@@ -688,8 +707,10 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
         }
     }
 
-    if (new_offset) *new_offset = offset;
-    return ZPL_RE_ERROR_NONE;
+    if (level != 0)
+        return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
+
+    return zpl_re__close_branches(re, group_begin, branch_begin);
 }
 
 zpl_regex_error zpl_re_compile_from_buffer(zpl_re *re, char const *pattern, zpl_isize pattern_len, void *buffer, zpl_isize buffer_len) {
-- 
2.43.0


From 6df3a2f4ab173bfce19988bd6bc205882df121a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 075/146] fix: regex matcher went on after failures, never took
 a second branch and read out of bounds

No match (-1) passed for a match at every choice, so the second branch and
zero repetitions were never tried, the code before its start was executed,
characters past the text were read, captures of abandoned attempts stayed,
text and sets with zero bytes or lengths above 127 were misread, and an empty
match at the end of the text was missed or repeated for ever.
---
 code/source/regex.c | 364 ++++++++++++++++----------------------------
 1 file changed, 135 insertions(+), 229 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 92db531..0f71d73 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -43,10 +43,6 @@ typedef enum zplreCode {
     ZPL_RE_CODE_PRINTABLE         = 0x0b00,
 } zplreCode;
 
-typedef struct {
-    zpl_isize op, offset;
-} zpl_re_ctx;
-
 enum {
     ZPL_RE__NO_MATCH = -1,
     ZPL_RE__INTERNAL_FAILURE = -2,
@@ -56,23 +52,6 @@ static char const ZPL_RE__META_CHARS[] = "^$()[].*+?|\\";
 static char const ZPL_RE__WHITESPACE[] = " \r\t\n\v\f";
 #define ZPL_RE__LITERAL(str) (str), zpl_size_of(str)-1
 
-static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count);
-static zpl_re_ctx zpl_re__exec(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count);
-
-static zpl_re_ctx zpl_re__ctx_no_match(zpl_isize op) {
-    zpl_re_ctx c;
-    c.op = op;
-    c.offset = ZPL_RE__NO_MATCH;
-    return c;
-}
-
-static zpl_re_ctx zpl_re__ctx_internal_failure(zpl_isize op) {
-    zpl_re_ctx c;
-    c.op = op;
-    c.offset = ZPL_RE__INTERNAL_FAILURE;
-    return c;
-}
-
 static zpl_u8 zpl_re__hex(char const *s) {
     return ((zpl_char_to_hex_digit(*s) << 4) & 0xf0) | (zpl_char_to_hex_digit(*(s+1)) & 0x0f);
 }
@@ -111,249 +90,174 @@ static zpl_b32 zpl_re__match_escape(char c, int code) {
     return 0;
 }
 
-static zpl_re_ctx zpl_re__consume(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_b32 is_greedy)
-{
-    zpl_re_ctx c, best_c, next_c;
-
-    c.op = op;
-    c.offset = offset;
-
-    best_c.op = ZPL_RE__NO_MATCH;
-    best_c.offset = offset;
-
-    for (;;) {
-        c = zpl_re__exec_single(re, op, str, str_len, c.offset, 0, 0);
-        if (c.offset > str_len || c.offset == -1) break;
-        if (c.op >= re->buf_len) return c;
-
-        next_c = zpl_re__exec(re, c.op, str, str_len, c.offset, captures, max_capture_count);
-        if (next_c.offset <= str_len) {
-            if (captures)
-                zpl_re__exec(re, c.op, str, str_len, c.offset, captures, max_capture_count);
-
-            best_c = next_c;
-            if (!is_greedy) break;
-        }
-
-        if (best_c.op > re->buf_len)
-            best_c.op = c.op;
-
+/* length of the code of the single character matcher at op */
+static zpl_isize zpl_re__single_len(zpl_re *re, zpl_isize op) {
+    switch (re->buf[op]) {
+        case ZPL_RE_OP_ANY:        return 1;
+        case ZPL_RE_OP_META_MATCH: return re->buf[op+1] ? 2 : 3;
+        default:                   return 2 + (unsigned char)re->buf[op+1];
     }
-
-    return best_c;
 }
 
-static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count) {
-    zpl_re_ctx ctx;
-    zpl_isize buffer_len;
-    zpl_isize match_len;
-    zpl_isize next_op;
-    zpl_isize skip;
-
-    switch (re->buf[op++]) {
-        case ZPL_RE_OP_BEGIN_CAPTURE: {
-            zpl_u8 capture = re->buf[op++];
-            if (captures && (capture < max_capture_count))
-                captures[capture].str = str + offset;
-        } break;
-
-        case ZPL_RE_OP_END_CAPTURE: {
-            zpl_u8 capture = re->buf[op++];
-            if (captures && (capture < max_capture_count))
-                captures[capture].len = (str + offset) - captures[capture].str;
-        } break;
-
-        case ZPL_RE_OP_BEGINNING_OF_LINE: {
-            if (offset != 0)
-                return zpl_re__ctx_no_match(op);
-        } break;
-
-        case ZPL_RE_OP_END_OF_LINE: {
-            if (offset != str_len)
-                return zpl_re__ctx_no_match(op);
-        } break;
-
-        case ZPL_RE_OP_BRANCH_START: {
-            skip = re->buf[op++];
-            ctx = zpl_re__exec(re, op, str, str_len, offset, captures, max_capture_count);
-            if (ctx.offset <= str_len) {
-                offset = ctx.offset;
-                op = ctx.op;
-            } else {
-                ctx = zpl_re__exec(re, op + skip, str, str_len, offset, captures, max_capture_count);
-                offset = ctx.offset;
-                op = ctx.op;
-            }
-        } break;
-
-        case ZPL_RE_OP_BRANCH_END: {
-            skip = re->buf[op++];
-            op += skip;
-        } break;
+/* matches the code at op once, returns the offset behind the match */
+static zpl_isize zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset) {
+    zpl_isize i, buffer_len;
+    zplreOp code = (zplreOp)re->buf[op++];
 
+    switch (code) {
         case ZPL_RE_OP_ANY: {
-            if (offset < str_len) {
-                offset++;
-                break;
-            }
-            return zpl_re__ctx_no_match(op);
-        } break;
-
-        case ZPL_RE_OP_ANY_OF: {
-            zpl_isize i;
-            char cin = str[offset];
-            buffer_len = re->buf[op++];
-
-            if (offset >= str_len)
-                return zpl_re__ctx_no_match(op + buffer_len);
-
-            for (i = 0; i < buffer_len; i++) {
-                char cmatch = (char)re->buf[op+i];
-                if (!cmatch) {
-                    i++;
-                    if (zpl_re__match_escape(cin, re->buf[op+i] << 8))
-                        break;
-                } else if (cin == cmatch) {
-                    break;
-                }
-            }
-
-            if (i == buffer_len)
-                return zpl_re__ctx_no_match(op + buffer_len);
-
-            offset++;
-            op += buffer_len;
+            if (offset < str_len)
+                return offset + 1;
         } break;
 
+        case ZPL_RE_OP_ANY_OF:
         case ZPL_RE_OP_ANY_BUT: {
-            zpl_isize i;
-            char cin = str[offset];
-            buffer_len = re->buf[op++];
+            zpl_b32 found = false;
+            buffer_len = (unsigned char)re->buf[op++];
 
             if (offset >= str_len)
-                return zpl_re__ctx_no_match(op + buffer_len);
+                break;
 
-            for (i = 0; i < buffer_len; i++) {
-                char cmatch = (char)re->buf[op + i];
+            for (i = 0; i < buffer_len && !found; i++) {
+                char cmatch = re->buf[op + i];
                 if (!cmatch) {
                     i++;
-                    if (zpl_re__match_escape(cin, re->buf[op+i] << 8))
-                        return zpl_re__ctx_no_match(op + buffer_len);
-                } else if (cin == cmatch) {
-                    return zpl_re__ctx_no_match(op + buffer_len);
+                    found = zpl_re__match_escape(str[offset], re->buf[op+i] << 8);
+                } else {
+                    found = str[offset] == cmatch;
                 }
             }
 
-            offset++;
-            op += buffer_len;
+            if (found == (code == ZPL_RE_OP_ANY_OF))
+                return offset + 1;
         } break;
 
         case ZPL_RE_OP_EXACT_MATCH: {
-            match_len = re->buf[op++];
+            buffer_len = (unsigned char)re->buf[op++];
 
-            if ((match_len > (str_len - offset)) ||
-                zpl_strncmp(str+offset, (const char*)re->buf + op, match_len) != 0)
-                return zpl_re__ctx_no_match(op + match_len);
-
-            op += match_len;
-            offset += match_len;
+            if (buffer_len <= (str_len - offset) && zpl_memcompare(str+offset, re->buf+op, buffer_len) == 0)
+                return offset + buffer_len;
         } break;
 
         case ZPL_RE_OP_META_MATCH: {
-            char cin = (char)re->buf[op++];
-            char cmatch = str[offset++];
+            char cmatch = re->buf[op++];
 
-            if (!cin) {
-                if (zpl_re__match_escape(cmatch, re->buf[op++] << 8))
-                    break;
-            }
-            else if (cin == cmatch) break;
+            if (offset >= str_len)
+                break;
 
-            return zpl_re__ctx_no_match(op);
+            if (cmatch ? str[offset] == cmatch : zpl_re__match_escape(str[offset], re->buf[op] << 8))
+                return offset + 1;
         } break;
 
-        case ZPL_RE_OP_ZERO_OR_MORE: {
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1);
-            offset = ctx.offset;
-            op = ctx.op;
-        } break;
+        default: return ZPL_RE__INTERNAL_FAILURE;
+    }
 
-        case ZPL_RE_OP_ONE_OR_MORE: {
-            ctx = zpl_re__exec_single(re, op, str, str_len, offset, captures, max_capture_count);
+    return ZPL_RE__NO_MATCH;
+}
 
-            if (ctx.offset > str_len)
-                return ctx;
+/* matches all code from op on, returns the offset behind the match; tries what is left at every choice before it decides */
+static zpl_isize zpl_re__exec(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count) {
+    zpl_isize end;
 
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1);
-            offset = ctx.offset;
-            op = ctx.op;
-        } break;
+    while (op < re->buf_len) {
+        zpl_isize start = op;
 
-        case ZPL_RE_OP_ZERO_OR_MORE_SHORTEST: {
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0);
-            offset = ctx.offset;
-            op = ctx.op;
-        } break;
+        switch (re->buf[op++]) {
+            case ZPL_RE_OP_BEGIN_CAPTURE:
+            case ZPL_RE_OP_END_CAPTURE: {
+                zpl_u8 capture = (zpl_u8)re->buf[op++];
+                if (!captures || capture >= max_capture_count)
+                    break;
 
-        case ZPL_RE_OP_ONE_OR_MORE_SHORTEST: {
-            ctx = zpl_re__exec_single(re, op, str, str_len, offset, captures, max_capture_count);
+                zpl_re_capture old = captures[capture];
+                if (re->buf[start] == ZPL_RE_OP_BEGIN_CAPTURE) {
+                    captures[capture].str = str + offset;
+                    captures[capture].len = 0;
+                }
+                else {
+                    captures[capture].len = (str + offset) - captures[capture].str;
+                }
 
-            if (ctx.offset > str_len)
-                return ctx;
+                end = zpl_re__exec(re, op, str, str_len, offset, captures, max_capture_count);
+                if (end < 0)
+                    captures[capture] = old;
+                return end;
+            }
 
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0);
-            offset = ctx.offset;
-            op = ctx.op;
-        } break;
+            case ZPL_RE_OP_BEGINNING_OF_LINE: {
+                if (offset != 0)
+                    return ZPL_RE__NO_MATCH;
+            } break;
 
-        case ZPL_RE_OP_ZERO_OR_ONE: {
-            ctx = zpl_re__exec_single(re, op, str, str_len, offset, captures, max_capture_count);
+            case ZPL_RE_OP_END_OF_LINE: {
+                if (offset != str_len)
+                    return ZPL_RE__NO_MATCH;
+            } break;
 
-            if (ctx.offset <= str_len) {
-                zpl_re_ctx possible_ctx = zpl_re__exec(re, ctx.op, str, str_len, ctx.offset, captures, max_capture_count);
+            case ZPL_RE_OP_BRANCH_START: {
+                zpl_isize skip = (unsigned char)re->buf[op++];
+                end = zpl_re__exec(re, op, str, str_len, offset, captures, max_capture_count);
+                if (end != ZPL_RE__NO_MATCH)
+                    return end;
+                op += skip;
+            } break;
 
-                if (possible_ctx.offset <= str_len) {
-                    op = possible_ctx.op;
-                    offset = possible_ctx.offset;
-                    break;
-                }
-            }
+            case ZPL_RE_OP_BRANCH_END: {
+                zpl_isize skip = (unsigned char)re->buf[op++];
+                op += skip;
+            } break;
 
-            next_op = ctx.op;
-            ctx = zpl_re__exec(re, next_op, str, str_len, offset, captures, max_capture_count);
+            case ZPL_RE_OP_ZERO_OR_MORE:
+            case ZPL_RE_OP_ONE_OR_MORE:
+            case ZPL_RE_OP_ZERO_OR_ONE: {
+                zpl_isize least = re->buf[start] == ZPL_RE_OP_ONE_OR_MORE ? 1 : 0;
+                zpl_isize most = re->buf[start] == ZPL_RE_OP_ZERO_OR_ONE ? 1 : str_len;
+                zpl_isize count = 0, next_op = op + zpl_re__single_len(re, op);
 
-            if (ctx.offset <= str_len) {
-                op = ctx.op;
-                offset = ctx.offset;
-                break;
-            }
-            return zpl_re__ctx_no_match(op);
-        } break;
+                while (count < most && zpl_re__exec_single(re, op, str, str_len, offset + count) >= 0)
+                    count++;
 
-        default: {
-            return zpl_re__ctx_internal_failure(op);
-        } break;
-    }
+                for (; count > least; count--) {
+                    end = zpl_re__exec(re, next_op, str, str_len, offset + count, captures, max_capture_count);
+                    if (end != ZPL_RE__NO_MATCH)
+                        return end;
+                }
 
-    ctx.op = op;
-    ctx.offset = offset;
+                if (count < least)
+                    return ZPL_RE__NO_MATCH;
+                offset += count;
+                op = next_op;
+            } break;
 
-    return ctx;
-}
+            case ZPL_RE_OP_ZERO_OR_MORE_SHORTEST:
+            case ZPL_RE_OP_ONE_OR_MORE_SHORTEST: {
+                zpl_isize next_op = op + zpl_re__single_len(re, op);
 
-static zpl_re_ctx zpl_re__exec(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count) {
-    zpl_re_ctx c;
-    c.op = op;
-    c.offset = offset;
+                if (re->buf[start] == ZPL_RE_OP_ONE_OR_MORE_SHORTEST) {
+                    offset = zpl_re__exec_single(re, op, str, str_len, offset);
+                    if (offset < 0)
+                        return offset;
+                }
 
-    while (c.op < re->buf_len) {
-        c = zpl_re__exec_single(re, c.op, str, str_len, c.offset, captures, max_capture_count);
+                while (offset >= 0) {
+                    end = zpl_re__exec(re, next_op, str, str_len, offset, captures, max_capture_count);
+                    if (end != ZPL_RE__NO_MATCH)
+                        return end;
+                    offset = zpl_re__exec_single(re, op, str, str_len, offset);
+                }
+                return offset;
+            }
 
-        if (c.offset > str_len || c.offset == -1)
-            break;
+            default: {
+                offset = zpl_re__exec_single(re, start, str, str_len, offset);
+                if (offset < 0)
+                    return offset;
+                op = start + zpl_re__single_len(re, start);
+            } break;
+        }
     }
 
-    return c;
+    return offset;
 }
 
 static zpl_regex_error zpl_re__reserve(zpl_re *re, zpl_isize op_count) {
@@ -756,21 +660,22 @@ void zpl_re_destroy(zpl_re *re) {
 zpl_isize zpl_re_capture_count(zpl_re *re) { return re->capture_count; }
 
 zpl_b32 zpl_re_match(zpl_re *re, char const *str, zpl_isize len, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_isize *offset) {
+    for (zpl_isize i = 0; captures && i < max_capture_count; i++) {
+        captures[i].str = NULL;
+        captures[i].len = 0;
+    }
+
     if (re && re->buf_len > 0) {
-        if (re->buf[0] == ZPL_RE_OP_BEGINNING_OF_LINE) {
-            zpl_re_ctx c = zpl_re__exec(re, 0, str, len, 0, captures, max_capture_count);
-            if (c.offset >= 0 && c.offset <= len) { if (offset) *offset = c.offset; return 1; };
-            if (c.offset == ZPL_RE__INTERNAL_FAILURE) return 0;
-        } else {
-            zpl_isize i;
-            for (i = 0; i < len; i++) {
-                zpl_re_ctx c = zpl_re__exec(re, 0, str, len, i, captures, max_capture_count);
-                if (c.offset >= 0 && c.offset <= len) { if (offset) *offset = c.offset; return 1; };
-                if (c.offset == ZPL_RE__INTERNAL_FAILURE) return 0;
-            }
+        zpl_isize last = re->buf[0] == ZPL_RE_OP_BEGINNING_OF_LINE ? 0 : len;
+        for (zpl_isize i = 0; i <= last; i++) {
+            zpl_isize end = zpl_re__exec(re, 0, str, len, i, captures, max_capture_count);
+            if (end >= 0) { if (offset) *offset = end; return 1; };
+            if (end == ZPL_RE__INTERNAL_FAILURE) return 0;
         }
         return 0;
     }
+
+    if (offset) *offset = 0;
     return 1;
 }
 
@@ -793,7 +698,8 @@ zpl_b32 zpl_re_match_all(zpl_re *re, char const *str, zpl_isize str_len, zpl_isi
             return false;
         }
 
-        p += offset;
+        /* an empty match still has to get on */
+        p += offset > 0 ? offset : 1;
 
         for (zpl_isize i = 0; i < max_capture_count; i++) {
             zpl_array_append(*out_captures, cps[i]);
-- 
2.43.0


From 9f615392eb6c5b02d41b772aa7aa582048f35a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 076/146] fix: file reads and writes gave up on short and
 interrupted transfers

---
 code/source/core/file.c | 42 +++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index c819fee..c875870 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -172,25 +172,39 @@ ZPL_BEGIN_C_DECLS
 
     zpl_internal ZPL_FILE_READ_AT_PROC(zpl__posix_file_read) {
         zpl_unused(stop_at_newline);
-        zpl_isize res = pread(fd.i, buffer, size, offset);
-        if (res < 0) return false;
-        if (bytes_read) *bytes_read = res;
-        return true;
+        zpl_isize total = 0, res = 0;
+        /* the system may transfer less than we ask for, or be interrupted */
+        while (total < size) {
+            res = pread(cast(int) fd.i, cast(char *) buffer + total, size - total, offset + total);
+            if (res < 0 && errno == EINTR) continue;
+            if (res <= 0) break;
+            total += res;
+        }
+        if (bytes_read) *bytes_read = total;
+        return res >= 0;
     }
 
     zpl_internal ZPL_FILE_WRITE_AT_PROC(zpl__posix_file_write) {
-        zpl_isize res;
+        zpl_isize total = 0, res = 0;
         zpl_i64 curr_offset = 0;
-        zpl__posix_file_seek(fd, 0, ZPL_SEEK_WHENCE_CURRENT, &curr_offset);
-        if (curr_offset == offset) {
-            // NOTE: Writing to stdout et al. doesn't like pwrite for numerous reasons
-            res = write(cast(int) fd.i, buffer, size);
-        } else {
-            res = pwrite(cast(int) fd.i, buffer, size, offset);
+        zpl_b32 seekable = zpl__posix_file_seek(fd, 0, ZPL_SEEK_WHENCE_CURRENT, &curr_offset);
+        zpl_b32 in_place = (curr_offset == offset);
+        /* the system may transfer less than we ask for, or be interrupted */
+        while (total < size) {
+            if (in_place) {
+                // NOTE: Writing to stdout et al. doesn't like pwrite for numerous reasons
+                res = write(cast(int) fd.i, cast(char const *) buffer + total, size - total);
+            } else {
+                res = pwrite(cast(int) fd.i, cast(char const *) buffer + total, size - total, offset + total);
+            }
+            if (res < 0 && errno == EINTR) continue;
+            if (res <= 0) break;
+            total += res;
         }
-        if (res < 0) return false;
-        if (bytes_written) *bytes_written = res;
-        return true;
+        /* a positioned write leaves the cursor alone */
+        if (in_place && seekable) zpl__posix_file_seek(fd, curr_offset, ZPL_SEEK_WHENCE_BEGIN, NULL);
+        if (bytes_written) *bytes_written = total;
+        return total == size;
     }
 
     zpl_internal ZPL_FILE_CLOSE_PROC(zpl__posix_file_close) { close(fd.i); }
-- 
2.43.0


From 29f42f919c837ffff608596d2f466996bcfed81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 077/146] fix: the file cursor ran past what was read or
 written

---
 code/header/core/file.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/code/header/core/file.h b/code/header/core/file.h
index 5a6a911..a4cd0e5 100644
--- a/code/header/core/file.h
+++ b/code/header/core/file.h
@@ -382,15 +382,17 @@ ZPL_IMPL_INLINE zpl_i64 zpl_file_tell(zpl_file *f) {
 
 ZPL_IMPL_INLINE zpl_b32 zpl_file_read(zpl_file *f, void *buffer, zpl_isize size) {
     zpl_i64 cur_offset = zpl_file_tell(f);
-    zpl_b32 result = zpl_file_read_at(f, buffer, size, zpl_file_tell(f));
-    zpl_file_seek(f, cur_offset + size);
+    zpl_isize bytes_read = 0;
+    zpl_b32 result = zpl_file_read_at_check(f, buffer, size, cur_offset, &bytes_read);
+    zpl_file_seek(f, cur_offset + bytes_read);
     return result;
 }
 
 ZPL_IMPL_INLINE zpl_b32 zpl_file_write(zpl_file *f, void const *buffer, zpl_isize size) {
     zpl_i64 cur_offset = zpl_file_tell(f);
-    zpl_b32 result = zpl_file_write_at(f, buffer, size, zpl_file_tell(f));
-    zpl_file_seek(f, cur_offset + size);
+    zpl_isize bytes_written = 0;
+    zpl_b32 result = zpl_file_write_at_check(f, buffer, size, cur_offset, &bytes_written);
+    zpl_file_seek(f, cur_offset + bytes_written);
     return result;
 }
 
-- 
2.43.0


From b7d62b4f41ebec5aa00ce4befa2221e76ee26ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 078/146] fix: opening a missing file was never reported as
 such

---
 code/source/core/file.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index c875870..2317a51 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -224,8 +224,17 @@ ZPL_BEGIN_C_DECLS
             default: ZPL_PANIC("Invalid file mode"); return ZPL_FILE_ERROR_INVALID;
         }
 
-        fd->i = open(filename, os_mode, S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH);
+        do {
+            fd->i = open(filename, os_mode, S_IRUSR | S_IWUSR | S_IRGRP | S_IWGRP | S_IROTH | S_IWOTH);
+        } while (fd->i < 0 && errno == EINTR);
         if (fd->i < 0) {
+            switch (errno) {
+                case ENOENT: return ZPL_FILE_ERROR_NOT_EXISTS;
+                case EEXIST: return ZPL_FILE_ERROR_EXISTS;
+                case EPERM:
+                case EACCES: return ZPL_FILE_ERROR_PERMISSION;
+                case ENAMETOOLONG: return ZPL_FILE_ERROR_NAME_TOO_LONG;
+            }
             // TODO: More file errors
             return ZPL_FILE_ERROR_INVALID;
         }
-- 
2.43.0


From 44329fed8508844120f448cf95376c34b7518d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 079/146] fix: opening a file crashed when out of memory

---
 code/source/core/file.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index 2317a51..2beea1a 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -253,7 +253,9 @@ zpl_file_error zpl_file_new(zpl_file *f, zpl_file_descriptor fd, zpl_file_operat
     f->fd = fd;
     f->dir = NULL;
     f->last_write_time = 0;
+    f->is_temp = false;
     f->filename = zpl_alloc_array(zpl_heap_allocator( ), char, len + 1);
+    if (!f->filename) return ZPL_FILE_ERROR_UNKNOWN;
     zpl_memcopy(cast(char *) f->filename, cast(char *) filename, len + 1);
 
     return err;
@@ -268,7 +270,13 @@ zpl_file_error zpl_file_open_mode(zpl_file *f, zpl_file_mode mode, char const *f
 #else
     err = zpl__posix_file_open(&f->fd, &f->ops, mode, filename);
 #endif
-    if (err == ZPL_FILE_ERROR_NONE) return zpl_file_new(f, f->fd, f->ops, filename);
+    if (err == ZPL_FILE_ERROR_NONE) {
+        err = zpl_file_new(f, f->fd, f->ops, filename);
+        if (err != ZPL_FILE_ERROR_NONE) {
+            f->ops.close(f->fd);
+            f->fd.i = -1;
+        }
+    }
     return err;
 }
 
-- 
2.43.0


From 153f1f53e1746846937d3df133992a43fcc3b86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 080/146] fix: closing a file twice freed and closed foreign
 resources

---
 code/source/core/file.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index 2beea1a..d1bd69d 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -286,6 +286,13 @@ zpl_file_error zpl_file_close(zpl_file *f) {
     if (!f) return ZPL_FILE_ERROR_INVALID;
 
     if (f->filename) zpl_free(zpl_heap_allocator( ), cast(char *) f->filename);
+    f->filename = NULL;
+
+    if (f->dir) {
+        zpl__dirinfo_free_entry(f->dir);
+        zpl_mfree(f->dir);
+        f->dir = NULL;
+    }
 
 #if defined(ZPL_SYSTEM_WINDOWS)
     if (f->fd.p == INVALID_HANDLE_VALUE) return ZPL_FILE_ERROR_INVALID;
@@ -293,20 +300,11 @@ zpl_file_error zpl_file_close(zpl_file *f) {
     if (f->fd.i < 0) return ZPL_FILE_ERROR_INVALID;
 #endif
     
-    if (f->is_temp)
-    {
-        f->ops.close(f->fd);
-        return ZPL_FILE_ERROR_NONE;
-    }
-
     if (!f->ops.read_at) f->ops = zpl_default_file_operations;
     f->ops.close(f->fd);
 
-    if (f->dir) {
-        zpl__dirinfo_free_entry(f->dir);
-        zpl_mfree(f->dir);
-        f->dir = NULL;
-    }
+    /* closing it again does nothing */
+    f->fd.i = -1;
 
     return ZPL_FILE_ERROR_NONE;
 }
-- 
2.43.0


From 01b656731b52e83b9bb91be5f74e99b991d568df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 081/146] fix: closing a temporary file leaked its stream

---
 code/source/core/file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index d1bd69d..9ce0367 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -444,8 +444,13 @@ zpl_file_error zpl_file_temp(zpl_file *file) {
 
 #if defined(ZPL_SYSTEM_WINDOWS) && !defined(ZPL_COMPILER_GCC)
     file->fd.i = _get_osfhandle(_fileno(fd));
-#else 
+#elif defined(ZPL_SYSTEM_WINDOWS)
     file->fd.i = fileno(fd);
+#else
+    /* we keep the descriptor only, closing it has to release everything */
+    file->fd.i = dup(fileno(fd));
+    fclose(fd);
+    if (file->fd.i < 0) { return ZPL_FILE_ERROR_INVALID; }
 #endif
     file->ops = zpl_default_file_operations;
     file->is_temp = true;
-- 
2.43.0


From d524c3c76016973d9e97783df9ff8330fee4ad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 082/146] fix: memory streams read past their end

---
 code/source/core/file_stream.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index 72d2097..4883b5b 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -101,7 +101,7 @@ zpl_internal ZPL_FILE_SEEK_PROC(zpl__memory_file_seek) {
     else if (whence == ZPL_SEEK_WHENCE_END)
         d->cursor = buflen;
 
-    d->cursor = zpl_max(0, zpl_clamp(d->cursor + offset, 0, buflen));
+    d->cursor += zpl_clamp(offset, -d->cursor, buflen - d->cursor);
     if (new_offset) *new_offset = d->cursor;
     return true;
 }
@@ -109,7 +109,10 @@ zpl_internal ZPL_FILE_SEEK_PROC(zpl__memory_file_seek) {
 zpl_internal ZPL_FILE_READ_AT_PROC(zpl__memory_file_read) {
     zpl_unused(stop_at_newline);
     zpl__memory_fd *d = zpl__file_stream_from_fd(fd);
-    zpl_memcopy(buffer, d->buf + offset, size);
+    if (bytes_read) *bytes_read = 0;
+    if (offset < 0 || size < 0) return false;
+    size = zpl_min(size, zpl_max(0, d->cap - offset));
+    if (size > 0) zpl_memcopy(buffer, d->buf + offset, size);
     if (bytes_read) *bytes_read = size;
     return true;
 }
-- 
2.43.0


From 8391cb5dd7922e559836c684135d2d05cd4db3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 083/146] fix: memory streams wrote out of bounds behind their
 end

---
 code/source/core/file_stream.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index 4883b5b..24f4707 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -119,28 +119,30 @@ zpl_internal ZPL_FILE_READ_AT_PROC(zpl__memory_file_read) {
 
 zpl_internal ZPL_FILE_WRITE_AT_PROC(zpl__memory_file_write) {
     zpl__memory_fd *d = zpl__file_stream_from_fd(fd);
+    if (bytes_written) *bytes_written = 0;
     if (!(d->flags & (ZPL_FILE_STREAM_CLONE_WRITABLE|ZPL_FILE_STREAM_WRITABLE)))
         return false;
-    zpl_isize buflen = d->cap;
-    zpl_isize extralen = zpl_max(0, size-(buflen-offset));
-    zpl_isize rwlen = size-extralen;
-    zpl_isize new_cap = buflen+extralen;
+    if (offset < 0 || size < 0 || offset > ZPL_ISIZE_MAX - size)
+        return false;
+    zpl_isize rwlen = size;
     if (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) {
-        if(zpl_array_capacity(d->buf) < new_cap) {
-            if (!zpl_array_grow(d->buf, (zpl_i64)(new_cap))) return false;
+        zpl_isize end = offset + size;
+        if (size > 0 && end > d->cap) {
+            if (zpl_array_capacity(d->buf) < end) {
+                if (!zpl_array_grow(d->buf, (zpl_i64)(end))) return false;
+            }
+            /* a write past the end leaves zeros behind, as it does in a file */
+            if (offset > d->cap) zpl_memset(d->buf + d->cap, 0, offset - d->cap);
+            d->cap = zpl_array_count(d->buf) = end;
         }
-    }
-    zpl_memcopy(d->buf + offset, buffer, rwlen);
-
-    if ((d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) && extralen > 0) {
-        zpl_memcopy(d->buf + offset + rwlen, zpl_ptr_add_const(buffer, rwlen), extralen);
-        d->cap = zpl_array_count(d->buf) = new_cap;
     } else {
-        extralen = 0;
+        /* we can not grow a buffer that is not ours */
+        rwlen = zpl_min(size, zpl_max(0, d->cap - offset));
     }
+    if (rwlen > 0) zpl_memcopy(d->buf + offset, buffer, rwlen);
 
-    if (bytes_written) *bytes_written = (rwlen+extralen);
-    return true;
+    if (bytes_written) *bytes_written = rwlen;
+    return rwlen == size;
 }
 
 zpl_internal ZPL_FILE_CLOSE_PROC(zpl__memory_file_close) {
-- 
2.43.0


From 4766e78a1acd7f0a9e0573320064b6f6a449a1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 084/146] fix: truncating a memory stream truncated an
 unrelated descriptor

---
 code/source/core/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index 9ce0367..0191535 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -408,6 +408,8 @@ zpl_file *zpl_file_get_standard(zpl_file_standard_type std) {
 
 zpl_file_error zpl_file_truncate(zpl_file *f, zpl_i64 size) {
     zpl_file_error err = ZPL_FILE_ERROR_NONE;
+    /* a memory stream has no descriptor to truncate */
+    if (f->ops.seek == zpl_memory_file_operations.seek) return ZPL_FILE_ERROR_TRUNCATION_FAILURE;
     int i = ftruncate(f->fd.i, size);
     if (i != 0) err = ZPL_FILE_ERROR_TRUNCATION_FAILURE;
     return err;
-- 
2.43.0


From ccb2e36a92d9b391bb9720c60d8b42983434e62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 085/146] fix: loading and storing whole files ignored failures

---
 code/source/core/file.c | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index 0191535..017c754 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -474,13 +474,17 @@ zpl_file_contents zpl_file_read_contents(zpl_allocator a, zpl_b32 zero_terminate
 
     if (zpl_file_open(&file, filepath) == ZPL_FILE_ERROR_NONE) {
         zpl_isize file_size = cast(zpl_isize) zpl_file_size(&file);
-        if (file_size > 0) {
+        if (file_size > 0 || zero_terminate) {
             result.data = zpl_alloc(a, zero_terminate ? file_size + 1 : file_size);
-            result.size = file_size;
-            zpl_file_read_at(&file, result.data, result.size, 0);
-            if (zero_terminate) {
+        }
+        if (result.data) {
+            if (!zpl_file_read_at_check(&file, result.data, file_size, 0, &result.size)) {
+                zpl_free(a, result.data);
+                result.data = NULL;
+                result.size = 0;
+            } else if (zero_terminate) {
                 zpl_u8 *str = cast(zpl_u8 *) result.data;
-                str[file_size] = '\0';
+                str[result.size] = '\0';
             }
         }
         zpl_file_close(&file);
@@ -490,8 +494,7 @@ zpl_file_contents zpl_file_read_contents(zpl_allocator a, zpl_b32 zero_terminate
 }
 
 void zpl_file_free_contents(zpl_file_contents *fc) {
-    ZPL_ASSERT_NOT_NULL(fc->data);
-    zpl_free(fc->allocator, fc->data);
+    if (fc->data) zpl_free(fc->allocator, fc->data);
     fc->data = NULL;
     fc->size = 0;
 }
@@ -512,20 +515,31 @@ zpl_b32 zpl_file_write_contents(char const* filepath, void const* buffer, zpl_is
 
     write_ok = zpl_file_write(&f, buffer, size);
     zpl_file_close(&f);
+
+    if (err)
+        *err = write_ok ? ZPL_FILE_ERROR_NONE : ZPL_FILE_ERROR_UNKNOWN;
+
     return write_ok;
 }
 
 char *zpl_file_read_lines(zpl_allocator alloc, zpl_array(char *)*lines, char const *filename, zpl_b32 strip_whitespace) {
     zpl_file f = { 0 };
-    zpl_file_open(&f, filename);
+    *lines = NULL;
+    if (zpl_file_open(&f, filename) != ZPL_FILE_ERROR_NONE) return NULL;
     zpl_isize fsize = (zpl_isize)zpl_file_size(&f);
 
     char *contents = (char *)zpl_alloc(alloc, fsize + 1);
-    zpl_file_read(&f, contents, fsize);
-    contents[fsize] = 0;
-    *lines = zpl_str_split_lines(alloc, contents, strip_whitespace);
+    if (contents && zpl_file_read_at_check(&f, contents, fsize, 0, &fsize)) {
+        contents[fsize] = 0;
+        *lines = zpl_str_split_lines(alloc, contents, strip_whitespace);
+    }
     zpl_file_close(&f);
 
+    if (!*lines) {
+        if (contents) zpl_free(alloc, contents);
+        return NULL;
+    }
+
     return contents;
 }
 
-- 
2.43.0


From 14e817aa279773f822a685053e6e871182b49c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 086/146] fix: the last write time was never looked up

---
 code/source/core/file_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 0cebc0d..57982ab 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -90,7 +90,7 @@ ZPL_BEGIN_C_DECLS
         time_t result = 0;
         struct stat file_stat;
 
-        if (stat(filepath, &file_stat)) result = file_stat.st_mtime;
+        if (stat(filepath, &file_stat) == 0) result = file_stat.st_mtime;
 
         return cast(zpl_file_time) result;
     }
-- 
2.43.0


From bd5c8b976d4e181df782f6ba3bb72c1d165b9dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 087/146] fix: copying files ignored failures, short transfers
 and existing files

---
 code/source/core/file_misc.c | 42 ++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 57982ab..9fb7f25 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -103,33 +103,57 @@ ZPL_BEGIN_C_DECLS
 
 
     zpl_b32 zpl_fs_copy(char const *existing_filename, char const *new_filename, zpl_b32 fail_if_exists) {
-        zpl_unused(fail_if_exists);
 #    if defined(ZPL_SYSTEM_OSX)
+        if (fail_if_exists && zpl_fs_exists(new_filename)) return false;
         return copyfile(existing_filename, new_filename, NULL, COPYFILE_DATA) == 0;
 #    elif defined(ZPL_SYSTEM_OPENBSD)
+        zpl_unused(fail_if_exists);
         ZPL_NOT_IMPLEMENTED;
         return 0;
 #    elif defined(ZPL_SYSTEM_EMSCRIPTEN)
+        zpl_unused(fail_if_exists);
         ZPL_NOT_IMPLEMENTED;
         return 0;
 #    else
+        struct stat stat_existing, stat_new;
+        zpl_b32 result = false;
         int existing_fd = open(existing_filename, O_RDONLY, 0);
-        struct stat stat_existing;
-        fstat(existing_fd, &stat_existing);
+        if (existing_fd < 0) return false;
 
-        zpl_isize size;
-        int new_fd = open(new_filename, O_WRONLY | O_CREAT, stat_existing.st_mode);
+        if (fstat(existing_fd, &stat_existing) != 0 || !S_ISREG(stat_existing.st_mode)) {
+            close(existing_fd);
+            return false;
+        }
 
+        int new_fd = open(new_filename, O_WRONLY | O_CREAT | (fail_if_exists ? O_EXCL : 0), stat_existing.st_mode & 07777);
+        if (new_fd < 0) {
+            close(existing_fd);
+            return false;
+        }
+
+        /* do not destroy a file we would copy onto itself */
+        if (fstat(new_fd, &stat_new) == 0
+            && !(stat_new.st_dev == stat_existing.st_dev && stat_new.st_ino == stat_existing.st_ino)
+            && ftruncate(new_fd, 0) == 0) {
 #    if defined(ZPL_SYSTEM_FREEBSD)
-        size = sendfile(new_fd, existing_fd, 0, stat_existing.st_size, NULL, 0, 0);
+            result = sendfile(new_fd, existing_fd, 0, stat_existing.st_size, NULL, 0, 0) == stat_existing.st_size;
 #    else
-        size = sendfile(new_fd, existing_fd, 0, stat_existing.st_size);
+            zpl_i64 total = 0;
+            zpl_isize size = 0;
+            while (total < stat_existing.st_size) {
+                size = sendfile(new_fd, existing_fd, 0, stat_existing.st_size - total);
+                if (size < 0 && errno == EINTR) continue;
+                if (size <= 0) break;
+                total += size;
+            }
+            result = total == stat_existing.st_size;
 #    endif
+        }
 
-        close(new_fd);
+        if (close(new_fd) != 0) result = false;
         close(existing_fd);
 
-        return size == stat_existing.st_size;
+        return result;
 #    endif
     }
 
-- 
2.43.0


From 81192104326c81211aeff1a02d44146d0ef1095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 088/146] fix: a failed move left the file under both names

---
 code/source/core/file_misc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 9fb7f25..47577e8 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -158,7 +158,11 @@ ZPL_BEGIN_C_DECLS
     }
 
     zpl_b32 zpl_fs_move(char const *existing_filename, char const *new_filename) {
-        if (link(existing_filename, new_filename) == 0) { return (unlink(existing_filename) != -1); }
+        if (link(existing_filename, new_filename) == 0) {
+            if (unlink(existing_filename) != -1) return true;
+            /* it stays where it was */
+            unlink(new_filename);
+        }
         return false;
     }
 
-- 
2.43.0


From 2fd6abaf7a98f3f60d183d477365eeb7b44a5f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 089/146] fix: the full path was freed with the wrong allocator

---
 code/source/core/file_misc.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 47577e8..6cc8e26 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -229,9 +229,12 @@ char *zpl_path_get_full_name(zpl_allocator a, char const *path) {
     len = zpl_strlen(fullpath);
 
     result = zpl_alloc_array(a, char, len + 1);
-    zpl_memmove(result, fullpath, len);
-    result[len] = 0;
-    zpl_free(a, p);
+    if (result) {
+        zpl_memmove(result, fullpath, len);
+        result[len] = 0;
+    }
+    /* this one comes from the C library */
+    free(p);
 
     return result;
 #endif
-- 
2.43.0


From b2c8f60226e0323822a77ecab3d4f6408dd34dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 090/146] fix: creating directories recursively never reported
 a failure

---
 code/source/core/file_misc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 6cc8e26..4bf20d9 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -277,8 +277,11 @@ zpl_isize zpl_path_mkdir_recursive(char const *path, zpl_i32 mode) {
             *p = ZPL_PATH_SEPARATOR;
         }
     }
-    zpl_path_mkdir(tmp, mode);
-    return 0;
+    zpl_file_error err = zpl_path_mkdir(tmp, mode);
+    if (err == ZPL_FILE_ERROR_EXISTS && zpl_fs_get_type(tmp) == ZPL_DIR_TYPE_FOLDER) {
+        err = ZPL_FILE_ERROR_NONE;
+    }
+    return cast(zpl_isize) err;
 }
 
 zpl_file_error zpl_path_rmdir(char const *path) {
-- 
2.43.0


From d5cacbaa7e7b4c99c9ac5920acd1f63f467961eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 091/146] fix: directory listings leaked descriptors and
 skipped names starting with two dots

---
 code/source/core/file_misc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 4bf20d9..ef965cf 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -307,14 +307,14 @@ zpl_file_error zpl_path_rmdir(char const *path) {
 
 void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *output, zpl_b32 recurse) {
 #if defined(ZPL_SYSTEM_UNIX) || defined(ZPL_SYSTEM_OSX)
-    DIR *d, *cd;
+    DIR *d;
     struct dirent *dir;
     d = opendir(dirname);
 
     if (d) {
         while ((dir = readdir(d))) {
             if (dir == 0) break;
-            if (!zpl_strncmp(dir->d_name, "..", 2)) continue;
+            if (!zpl_strcmp(dir->d_name, "..")) continue;
             if (dir->d_name[0] == '.' && dir->d_name[1] == 0) continue;
 
             zpl_string dirpath = zpl_string_make(alloc, dirname);
@@ -324,9 +324,10 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
             *output = zpl_string_appendc(*output, dirpath);
             *output = zpl_string_appendc(*output, "\n");
 
-            if (recurse && (cd = opendir(dirpath)) != NULL && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
+            if (recurse && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
             zpl_string_free(dirpath);
         }
+        closedir(d);
     }
 #elif defined(ZPL_SYSTEM_WINDOWS)
     zpl_usize length = zpl_strlen(dirname);
-- 
2.43.0


From 2e8a0e8de674ed77d597eae23ce4631a77380c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 092/146] fix: directory info overran its path buffers

---
 code/source/core/file_misc.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index ef965cf..0aeff25 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -389,7 +389,7 @@ void zpl_dirinfo_init(zpl_dir_info *dir, char const *path) {
 
     zpl_dir_info dir_ = {0};
     *dir = dir_;
-    dir->fullpath = (char const*)zpl_malloc(zpl_strlen(path));
+    dir->fullpath = (char const*)zpl_malloc(zpl_strlen(path) + 1);
     zpl_strcpy((char *)dir->fullpath, path);
 
 
@@ -467,17 +467,26 @@ void zpl_dirinfo_step(zpl_dir_entry *entry) {
     zpl_dir_info dir_ = {0};
     *entry->dir_info = dir_;
 
-    zpl_local_persist char buf[128] = {0};
+    char *buf = NULL;
     char const *path = entry->filename;
 
     if (entry->type != ZPL_DIR_TYPE_FOLDER) {
         zpl_path_fix_slashes((char *)path);
         char const* slash = zpl_char_last_occurence(path, ZPL_PATH_SEPARATOR);
-        zpl_strncpy(buf, path, slash-path);
-        path = buf;
+        if (!slash) {
+            path = ".";
+        } else {
+            /* keep the separator of the root directory */
+            zpl_isize len = slash == path ? 1 : slash-path;
+            buf = (char *)zpl_malloc(len + 1);
+            zpl_memcopy(buf, path, len);
+            buf[len] = 0;
+            path = buf;
+        }
     }
 
     zpl_dirinfo_init(entry->dir_info, path);
+    if (buf) zpl_mfree(buf);
 }
 
 void zpl_file_dirinfo_refresh(zpl_file *file) {
-- 
2.43.0


From 6ce4c320d9ff3dd4113c80a8e3428bdd3b2e6f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 093/146] fix: sockets and block devices were reported as
 folders

---
 code/source/core/file_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 0aeff25..ba2d1c5 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -448,7 +448,7 @@ zpl_u8 zpl_fs_get_type(char const *path) {
     struct stat s;
     if( stat(path,&s) == 0 )
     {
-        if(s.st_mode & S_IFDIR)
+        if(S_ISDIR(s.st_mode))
             return ZPL_DIR_TYPE_FOLDER;
         else
             return ZPL_DIR_TYPE_FILE;
-- 
2.43.0


From 4076aa71b1fe98c7c45e69778e7b4780407fa714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 094/146] fix: the extension of a path could span directories

---
 code/header/core/file_misc.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/header/core/file_misc.h b/code/header/core/file_misc.h
index 8e46a03..02f6420 100644
--- a/code/header/core/file_misc.h
+++ b/code/header/core/file_misc.h
@@ -136,7 +136,8 @@ ZPL_IMPL_INLINE char const *zpl_path_base_name(char const *path) {
 ZPL_IMPL_INLINE char const *zpl_path_extension(char const *path) {
     char const *ld;
     ZPL_ASSERT_NOT_NULL(path);
-    ld = zpl_char_last_occurence(path, '.');
+    /* only the last component has an extension */
+    ld = zpl_char_last_occurence(zpl_path_base_name(path), '.');
     return (ld == NULL) ? NULL : ld + 1;
 }
 
-- 
2.43.0


From 821b4f1b48a43d15ff61a28d8b4d259df834db70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 095/146] fix: packed archives had cut names and sizes, and
 failures went unnoticed

---
 code/source/core/file_tar.c | 38 +++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 911a8a9..4ba4b51 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -26,7 +26,8 @@ zpl_internal zpl_usize zpl__tar_checksum(zpl__tar_header *hr) {
 }
 
 zpl_internal zpl_b32 zpl__tar_write_null(zpl_file *archive, zpl_isize cnt) {
-    char *out = zpl_bprintf("%*r", cnt, '\0');
+    char out[1024] = {0};
+    ZPL_ASSERT(cnt <= zpl_size_of(out));
     if (!zpl_file_write(archive, out, cnt))
         return 0;
     return 1;
@@ -39,6 +40,9 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
     for (zpl_isize i = 0; i < paths_len; i++) {
         ZPL_ASSERT_NOT_NULL(paths[i]);
         zpl__tar_header hr = {0};
+        if (zpl_strlen(paths[i]) >= zpl_size_of(hr.name)) {
+            return -(ZPL_TAR_ERROR_INVALID_INPUT);
+        }
         zpl_file file;
         zpl_file_error ferr = zpl_file_open_mode(&file, ZPL_FILE_MODE_READ, paths[i]);
         if (ferr == ZPL_FILE_ERROR_NOT_EXISTS) {
@@ -48,14 +52,26 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
         }
 
         zpl_i64 file_size = zpl_file_size(&file);
-        zpl_snprintf(hr.name, 12, "%s", paths[i]);
-        zpl_snprintf(hr.size, 12, "%o", file_size);
+        if (zpl_fs_get_type(paths[i]) == ZPL_DIR_TYPE_FOLDER) {
+            zpl_file_close(&file);
+            return -(ZPL_TAR_ERROR_IO_ERROR);
+        }
+        /* the field holds eleven octal digits */
+        if (file_size >= ((cast(zpl_i64)1) << 33)) {
+            zpl_file_close(&file);
+            return -(ZPL_TAR_ERROR_INVALID_INPUT);
+        }
+        zpl_snprintf(hr.name, zpl_size_of(hr.name), "%s", paths[i]);
+        zpl_snprintf(hr.size, 12, "%llo", file_size);
         zpl_snprintf(hr.mode, 8, "%o", 0664);
-        zpl_snprintf(hr.mtime, 12, "%o", zpl_fs_last_write_time(paths[i]));
+        zpl_snprintf(hr.mtime, 12, "%llo", zpl_fs_last_write_time(paths[i]));
         hr.type = ZPL_TAR_TYPE_REGULAR;
-        zpl_snprintf(hr.checksum, 8, "%o", zpl__tar_checksum(&hr));
+        zpl_snprintf(hr.checksum, 8, "%o", cast(zpl_u32)zpl__tar_checksum(&hr));
 
-        zpl_file_write(archive, cast(void*)(&hr), zpl_size_of(zpl__tar_header));
+        if (!zpl_file_write(archive, cast(void*)(&hr), zpl_size_of(zpl__tar_header))) {
+            zpl_file_close(&file);
+            return -(ZPL_TAR_ERROR_IO_ERROR);
+        }
 
         // write data
         {
@@ -65,19 +81,17 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
             char buf[4096] = {0};
             zpl_i64 pos = 0;
             zpl_isize bytes_read = 0;
-            do {
-                if (!zpl_file_read_at_check(&file, buf, 4096, pos, &bytes_read)) {
+            while (remaining_data > 0) {
+                /* the file may have changed meanwhile, the header can not */
+                if (!zpl_file_read_at_check(&file, buf, cast(zpl_isize)zpl_min(4096, remaining_data), pos, &bytes_read) || bytes_read == 0
+                    || !zpl_file_write(archive, buf, bytes_read)) {
                     zpl_file_close(&file);
                     return -(ZPL_TAR_ERROR_IO_ERROR);
-                } else if (bytes_read == 0) {
-                    break;
                 }
 
-                zpl_file_write(archive, buf, bytes_read);
                 pos += bytes_read;
                 remaining_data -= bytes_read;
             }
-            while (remaining_data > 0);
 
             if (padding > 0) {
                 if (!zpl__tar_write_null(archive, padding)) {
-- 
2.43.0


From f5dc69e83a8739980f3132ff3fe3f98c0de3742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 096/146] fix: packing a directory failed at its first
 subdirectory

---
 code/source/core/file_tar.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 4ba4b51..97f0194 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -112,8 +112,19 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
 }
 
 zpl_isize zpl_tar_pack_dir(zpl_file *archive, char const *path, zpl_allocator alloc) {
+    if (zpl_fs_get_type(path) != ZPL_DIR_TYPE_FOLDER) {
+        return -(ZPL_TAR_ERROR_FILE_NOT_FOUND);
+    }
     zpl_string filelst = zpl_path_dirlist(alloc, path, true);
     char const **files = cast(char const**)zpl_str_split_lines(alloc, filelst, false);
+
+    /* only files are packed */
+    zpl_isize count = 0;
+    for (zpl_isize i = 0; i < zpl_array_count(files); i++) {
+        if (zpl_fs_get_type(files[i]) != ZPL_DIR_TYPE_FOLDER) files[count++] = files[i];
+    }
+    zpl_array_count(files) = count;
+
     zpl_isize err = zpl_tar_pack(archive, files, zpl_array_count(files));
     zpl_string_free(filelst);
     zpl_array_free(files);
-- 
2.43.0


From 5c1276b0fbdd625a7a4a5121b851efd31d456a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 097/146] fix: unpacking damaged archives looped forever or
 went unnoticed

---
 code/source/core/file_tar.c | 50 ++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 97f0194..061cd0b 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -33,6 +33,17 @@ zpl_internal zpl_b32 zpl__tar_write_null(zpl_file *archive, zpl_isize cnt) {
     return 1;
 }
 
+/* an octal number, -1 when it is malformed */
+zpl_internal zpl_i64 zpl__tar_octal(char const *field, zpl_isize len) {
+    zpl_i64 res = 0;
+    zpl_isize i = 0, digits = 0;
+    while (i < len && field[i] == ' ') i++;
+    for (; i < len && field[i] >= '0' && field[i] <= '7'; i++, digits++)
+        res = res * 8 + (field[i] - '0');
+    if (!digits || (i < len && field[i] != '\0' && field[i] != ' ')) return -1;
+    return res;
+}
+
 zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_len) {
     ZPL_ASSERT_NOT_NULL(archive);
     ZPL_ASSERT_NOT_NULL(paths);
@@ -136,29 +147,45 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
     ZPL_ASSERT_NOT_NULL(unpack_proc);
 
     zpl_i64 pos = zpl_file_tell(archive);
-    zpl__tar_header hr = {0};
+    zpl_i64 archive_size = zpl_file_size(archive);
+    zpl__tar_header hr = {0}, null_hr = {0};
     zpl_isize err = ZPL_TAR_ERROR_NONE;
+    zpl_b32 damaged = false;
 
     do {
-        if (!zpl_file_read(archive, cast(void*)&hr, zpl_size_of(hr))) {
+        zpl_isize bytes_read = 0;
+        if (!zpl_file_read_at_check(archive, cast(void*)&hr, zpl_size_of(hr), pos, &bytes_read) || bytes_read != zpl_size_of(hr)) {
             err = ZPL_TAR_ERROR_IO_ERROR;
             break;
         }
-        else if (*hr.checksum == 0) {
+        else if (zpl_memcompare(&hr, &null_hr, zpl_size_of(hr)) == 0) {
             break;
         }
+        zpl_file_seek(archive, pos + zpl_size_of(hr));
         pos = zpl_file_tell(archive);
 
+        /* a name that fills its field is not terminated */
+        char name[zpl_size_of(hr.name) + 1] = {0};
+        zpl_memcopy(name, hr.name, zpl_size_of(hr.name));
+
         zpl_tar_record rec = {0};
         rec.type = hr.type;
-        rec.path = hr.name;
+        rec.path = name;
         rec.offset = pos;
-        rec.length = zpl_str_to_i64(hr.size, 0, 8);
+        rec.length = zpl__tar_octal(hr.size, zpl_size_of(hr.size));
         rec.error = ZPL_TAR_ERROR_NONE;
 
-        zpl_usize checksum1 = cast(zpl_usize)(zpl_str_to_i64(hr.checksum, 0, 8));
-        zpl_usize checksum2 = zpl__tar_checksum(&hr);
-        rec.error = (checksum1 != checksum2) ? cast(zpl_isize)ZPL_TAR_ERROR_BAD_CHECKSUM : rec.error;
+        zpl_i64 checksum = zpl__tar_octal(hr.checksum, zpl_size_of(hr.checksum));
+        if (checksum != cast(zpl_i64)zpl__tar_checksum(&hr)) {
+            rec.error = ZPL_TAR_ERROR_BAD_CHECKSUM;
+            damaged = true;
+        }
+
+        /* the contents have to be there, else we can not go on either */
+        if (rec.length < 0 || rec.length > archive_size - pos) {
+            err = damaged ? ZPL_TAR_ERROR_BAD_CHECKSUM : ZPL_TAR_ERROR_IO_ERROR;
+            break;
+        }
 
         rec.error = unpack_proc(archive, &rec, user_data);
 
@@ -168,10 +195,15 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
         }
 
         /* tar rounds files to 512 byte boundary */
-        zpl_file_seek(archive, pos + zpl_align_forward_i64(rec.length, 512));
+        pos += zpl_align_forward_i64(rec.length, 512);
+        zpl_file_seek(archive, pos);
     }
     while(err == ZPL_TAR_ERROR_NONE);
 
+    if (err == ZPL_TAR_ERROR_NONE && damaged) {
+        err = ZPL_TAR_ERROR_BAD_CHECKSUM;
+    }
+
     return -(err);
 }
 
-- 
2.43.0


From 3d77f8ab91d7c8278ef6507a728033400d72a2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 098/146] fix: unpacking could leave its destination and
 ignored failures

---
 code/source/core/file_tar.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 061cd0b..eb74626 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -228,14 +228,25 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
     if (file->type != ZPL_TAR_TYPE_REGULAR)
         return 0; /* we only care about regular files */
 
-    if (!zpl_strncmp(file->path, "..", 2))
-        return 0;
+    /* never leave the destination */
+    char const *path = file->path;
+    while (*path == '/') path++;
+    for (char const *p = path; *p; ) {
+        zpl_isize n = 0;
+        while (p[n] && p[n] != '/' && p[n] != ZPL_PATH_SEPARATOR) n++;
+        if (n == 2 && p[0] == '.' && p[1] == '.')
+            return 0;
+        p += n;
+        if (*p) p++;
+    }
 
     char tmp[ZPL_MAX_PATH] = {0};
     char *base_path = cast(char*)user_data;
     zpl_isize base_len = zpl_strlen(base_path);
-    zpl_isize len = zpl_strlen(file->path);
-    ZPL_ASSERT(base_len+len-2 < ZPL_MAX_PATH); /* todo: account for missing leading path sep */
+    zpl_isize len = zpl_strlen(path);
+    /* separator and terminator included */
+    if (base_len+len+2 > ZPL_MAX_PATH)
+        return 1;
 
     zpl_strcpy(tmp, base_path);
     zpl_path_fix_slashes(tmp); /* todo: need to do twice as base_path is checked before concat */
@@ -244,7 +255,7 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
         char sep[2] = {ZPL_PATH_SEPARATOR, 0};
         zpl_strcat(tmp, sep);
     }
-    zpl_strcat(tmp, file->path);
+    zpl_strcat(tmp, path);
     zpl_path_fix_slashes(tmp);
 
     const char *last_slash = zpl_char_last_occurence(tmp, ZPL_PATH_SEPARATOR);
@@ -257,25 +268,23 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
     }
 
     zpl_file f;
-    zpl_file_create(&f, tmp);
+    if (zpl_file_create(&f, tmp) != ZPL_FILE_ERROR_NONE)
+        return 1;
     {
         char buf[4096] = {0};
         zpl_isize remaining_data = file->length;
         zpl_isize bytes_read = 0;
         zpl_i64 pos = file->offset;
-        do {
-            if (!zpl_file_read_at_check(archive, buf, zpl_min(4096, remaining_data), pos, &bytes_read)) {
+        while (remaining_data > 0) {
+            if (!zpl_file_read_at_check(archive, buf, zpl_min(4096, remaining_data), pos, &bytes_read) || bytes_read == 0
+                || !zpl_file_write(&f, buf, bytes_read)) {
                 zpl_file_close(&f);
                 return 1;
-            } else if (bytes_read == 0) {
-                break;
             }
 
-            zpl_file_write(&f, buf, bytes_read);
             pos += bytes_read;
             remaining_data -= bytes_read;
         }
-        while (remaining_data > 0);
     }
     zpl_file_close(&f);
     return 0;
-- 
2.43.0


From c34d9695ee78e0b4622b4bece8a4642c23ebc003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 099/146] fix: standard input could not be read from a pipe or
 terminal

---
 code/source/core/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index 017c754..d782df4 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -176,6 +176,8 @@ ZPL_BEGIN_C_DECLS
         /* the system may transfer less than we ask for, or be interrupted */
         while (total < size) {
             res = pread(cast(int) fd.i, cast(char *) buffer + total, size - total, offset + total);
+            // NOTE: stdin et al. have no position to read at
+            if (res < 0 && errno == ESPIPE) res = read(cast(int) fd.i, cast(char *) buffer + total, size - total);
             if (res < 0 && errno == EINTR) continue;
             if (res <= 0) break;
             total += res;
-- 
2.43.0


From 12b888436106d08d304a60fa75b10d69f2bc36ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:58 +0000
Subject: [PATCH 100/146] fix: listing directories survives running out of
 memory

---
 code/source/core/file_misc.c | 68 +++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 25 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index ba2d1c5..2bc368c 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -305,27 +305,31 @@ zpl_file_error zpl_path_rmdir(char const *path) {
     return ZPL_FILE_ERROR_UNKNOWN;
 }
 
-void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *output, zpl_b32 recurse) {
+zpl_internal zpl_b32 zpl__direntry_append(zpl_string *str, char const *text) {
+    zpl_string next = zpl_string_appendc(*str, text);
+    if (next) *str = next;
+    return next != NULL;
+}
+
+/* false when memory ran out */
+zpl_b32 zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *output, zpl_b32 recurse) {
+    zpl_b32 ok = true;
 #if defined(ZPL_SYSTEM_UNIX) || defined(ZPL_SYSTEM_OSX)
     DIR *d;
     struct dirent *dir;
     d = opendir(dirname);
 
     if (d) {
-        while ((dir = readdir(d))) {
-            if (dir == 0) break;
+        while (ok && (dir = readdir(d))) {
             if (!zpl_strcmp(dir->d_name, "..")) continue;
             if (dir->d_name[0] == '.' && dir->d_name[1] == 0) continue;
 
             zpl_string dirpath = zpl_string_make(alloc, dirname);
-            dirpath = zpl_string_appendc(dirpath, "/");
-            dirpath = zpl_string_appendc(dirpath, dir->d_name);
+            ok = dirpath && zpl__direntry_append(&dirpath, "/") && zpl__direntry_append(&dirpath, dir->d_name)
+                && zpl__direntry_append(output, dirpath) && zpl__direntry_append(output, "\n");
 
-            *output = zpl_string_appendc(*output, dirpath);
-            *output = zpl_string_appendc(*output, "\n");
-
-            if (recurse && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
-            zpl_string_free(dirpath);
+            if (ok && recurse && dir->d_type == DT_DIR) { ok = zpl__file_direntry(alloc, dirpath, output, recurse); }
+            if (dirpath) zpl_string_free(dirpath);
         }
         closedir(d);
     }
@@ -360,27 +364,34 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
             if (filename[0] == '.' && filename[1] == 0) continue;
 
             zpl_string dirpath = zpl_string_make(alloc, directory);
-            dirpath = zpl_string_appendc(dirpath, "\\");
-            dirpath = zpl_string_appendc(dirpath, filename);
-            DWORD attrs = GetFileAttributesW((const wchar_t *)zpl_utf8_to_ucs2_buf((const zpl_u8 *)dirpath));
-
-            *output = zpl_string_appendc(*output, dirpath);
-            *output = zpl_string_appendc(*output, "\n");
+            ok = dirpath && zpl__direntry_append(&dirpath, "\\") && zpl__direntry_append(&dirpath, filename)
+                && zpl__direntry_append(output, dirpath) && zpl__direntry_append(output, "\n");
 
-            if (recurse && (data.attrib & _A_SUBDIR) && !(attrs & FILE_ATTRIBUTE_REPARSE_POINT)) { zpl__file_direntry(alloc, dirpath, output, recurse); }
+            if (ok && recurse && (data.attrib & _A_SUBDIR)) {
+                DWORD attrs = GetFileAttributesW((const wchar_t *)zpl_utf8_to_ucs2_buf((const zpl_u8 *)dirpath));
+                if (!(attrs & FILE_ATTRIBUTE_REPARSE_POINT)) { ok = zpl__file_direntry(alloc, dirpath, output, recurse); }
+            }
 
-            zpl_string_free(dirpath);
-        } while (_wfindnext(findhandle, &data) != -1);
+            if (dirpath) zpl_string_free(dirpath);
+        } while (ok && _wfindnext(findhandle, &data) != -1);
         _findclose(findhandle);
     }
 #else
     // TODO: Implement other OSes
+    zpl_unused(alloc);
+    zpl_unused(dirname);
+    zpl_unused(output);
+    zpl_unused(recurse);
 #endif
+    return ok;
 }
 
 zpl_string zpl_path_dirlist(zpl_allocator alloc, char const *dirname, zpl_b32 recurse) {
     zpl_string buf = zpl_string_make_reserve(alloc, 4);
-    zpl__file_direntry(alloc, dirname, &buf, recurse);
+    if (buf && !zpl__file_direntry(alloc, dirname, &buf, recurse)) {
+        zpl_string_free(buf);
+        buf = NULL;
+    }
     return buf;
 }
 
@@ -390,22 +401,23 @@ void zpl_dirinfo_init(zpl_dir_info *dir, char const *path) {
     zpl_dir_info dir_ = {0};
     *dir = dir_;
     dir->fullpath = (char const*)zpl_malloc(zpl_strlen(path) + 1);
+    if (!dir->fullpath) return;
     zpl_strcpy((char *)dir->fullpath, path);
 
 
     zpl_string dirlist = zpl_path_dirlist(zpl_heap(), path, false);
-    char **files=zpl_str_split_lines(zpl_heap(), dirlist, false);
+    char **files = dirlist ? zpl_str_split_lines(zpl_heap(), dirlist, false) : NULL;
     dir->filenames = files;
     dir->buf = dirlist;
 
-    zpl_array_init(dir->entries, zpl_heap());
+    if (!files || !zpl_array_init(dir->entries, zpl_heap())) return;
 
     for (zpl_i32 i=0; i<zpl_array_count(files); ++i) {
         zpl_dir_entry entry = {0};
         entry.filename = files[i];
         entry.type = zpl_fs_get_type(entry.filename);
 
-        zpl_array_append(dir->entries, entry);
+        if (!zpl_array_append(dir->entries, entry)) return;
     }
 }
 
@@ -420,13 +432,13 @@ zpl_internal void zpl__dirinfo_free_entry(zpl_dir_entry *entry) {
 void zpl_dirinfo_free(zpl_dir_info *dir) {
     ZPL_ASSERT_NOT_NULL(dir);
 
-    for (zpl_isize i = 0; i < zpl_array_count(dir->entries); ++i) {
+    for (zpl_isize i = 0; dir->entries && i < zpl_array_count(dir->entries); ++i) {
         zpl__dirinfo_free_entry(dir->entries + i);
     }
 
     zpl_array_free(dir->entries);
     zpl_array_free(dir->filenames);
-    zpl_string_free(dir->buf);
+    if (dir->buf) zpl_string_free(dir->buf);
     zpl_mfree((void *)dir->fullpath);
 }
 
@@ -464,6 +476,7 @@ void zpl_dirinfo_step(zpl_dir_entry *entry) {
     }
 
     entry->dir_info = (zpl_dir_info *)zpl_malloc(sizeof(zpl_dir_info));
+    if (!entry->dir_info) return;
     zpl_dir_info dir_ = {0};
     *entry->dir_info = dir_;
 
@@ -479,6 +492,10 @@ void zpl_dirinfo_step(zpl_dir_entry *entry) {
             /* keep the separator of the root directory */
             zpl_isize len = slash == path ? 1 : slash-path;
             buf = (char *)zpl_malloc(len + 1);
+            if (!buf) {
+                zpl__dirinfo_free_entry(entry);
+                return;
+            }
             zpl_memcopy(buf, path, len);
             buf[len] = 0;
             path = buf;
@@ -500,6 +517,7 @@ void zpl_file_dirinfo_refresh(zpl_file *file) {
     }
 
     file->dir = (zpl_dir_entry *)zpl_malloc(sizeof(zpl_dir_entry));
+    if (!file->dir) return;
     zpl_dir_entry dir_ = {0};
     *file->dir = dir_;
     file->dir->filename = file->filename;
-- 
2.43.0


From ec7f2ab2408aad814b90fa1f2110a71958714a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 101/146] fix: mutex functions report success as true
 everywhere

---
 code/source/threading/mutex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/source/threading/mutex.c b/code/source/threading/mutex.c
index f9cc14f..e3589c4 100644
--- a/code/source/threading/mutex.c
+++ b/code/source/threading/mutex.c
@@ -8,7 +8,7 @@ zpl_b32 zpl_mutex_init(zpl_mutex *m) {
         InitializeCriticalSection((CRITICAL_SECTION*)m->win32_critical_section);
         return 1;
 #    else
-        return pthread_mutex_init(&m->pthread_mutex, NULL);
+        return pthread_mutex_init(&m->pthread_mutex, NULL) == 0;
 #    endif
 }
 
@@ -17,7 +17,7 @@ zpl_b32 zpl_mutex_destroy(zpl_mutex *m) {
         DeleteCriticalSection((CRITICAL_SECTION*)m->win32_critical_section);
         return 1;
 #    else
-        return pthread_mutex_destroy(&m->pthread_mutex);
+        return pthread_mutex_destroy(&m->pthread_mutex) == 0;
 #    endif
 }
 
@@ -33,7 +33,7 @@ zpl_b32 zpl_mutex_try_lock(zpl_mutex *m) {
 #    if defined(ZPL_SYSTEM_WINDOWS)
         return TryEnterCriticalSection((CRITICAL_SECTION*)m->win32_critical_section);
 #    else
-        return pthread_mutex_trylock(&m->pthread_mutex);
+        return pthread_mutex_trylock(&m->pthread_mutex) == 0;
 #    endif
 }
 
-- 
2.43.0


From 6c3d962844c0c05e3c443e4b6a04c0bfc22c3f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 102/146] fix: a thread that cannot be created is reported and
 not joined

---
 code/source/threading/thread.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/code/source/threading/thread.c b/code/source/threading/thread.c
index da1d84c..9d09dcb 100644
--- a/code/source/threading/thread.c
+++ b/code/source/threading/thread.c
@@ -79,11 +79,13 @@ zpl_b32 zpl_thread_start_with_stack(zpl_thread *t, zpl_thread_proc proc, void *u
         pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_JOINABLE);
         if (stack_size != 0)
             pthread_attr_setstacksize(&attr, stack_size);
-        zpl_b32 res = pthread_create(&t->posix_handle, &attr, zpl__thread_proc, t);
+        int res = pthread_create(&t->posix_handle, &attr, zpl__thread_proc, t);
+        pthread_attr_destroy(&attr);
         if (res != 0) {
-            return res;
+            /* there is nothing to join */
+            t->posix_handle = 0;
+            return 0;
         }
-        pthread_attr_destroy(&attr);
     }
 #    endif
     if (!t->nowait)
-- 
2.43.0


From db44d55cb47b0859e43011dd927f31337bb38c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:35 +0000
Subject: [PATCH 103/146] fix: freeing a job queue could wait forever for a
 worker that was taking a job

---
 code/source/jobs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/source/jobs.c b/code/source/jobs.c
index d402475..661df85 100644
--- a/code/source/jobs.c
+++ b/code/source/jobs.c
@@ -21,7 +21,8 @@ zpl_isize zpl__jobs_entry(struct zpl_thread *thread) {
 
         switch (status) {
             case ZPL_JOBS_STATUS_READY: {
-                zpl_atomic32_store(&tw->status, ZPL_JOBS_STATUS_BUSY);
+                /* the pool may be asking the worker to stop */
+                if ((zpl_u32)zpl_atomic32_compare_exchange(&tw->status, ZPL_JOBS_STATUS_READY, ZPL_JOBS_STATUS_BUSY) != ZPL_JOBS_STATUS_READY) break;
                 tw->job.proc(tw->job.data);
                 zpl_atomic32_compare_exchange(&tw->status, ZPL_JOBS_STATUS_BUSY, ZPL_JOBS_STATUS_WAITING);
 
-- 
2.43.0


From 946779497e46346420f3444dd660a40a7603c3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:35 +0000
Subject: [PATCH 104/146] fix: a job queue gave jobs to workers whose thread
 could not be created

---
 code/source/jobs.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/source/jobs.c b/code/source/jobs.c
index 661df85..5c6319e 100644
--- a/code/source/jobs.c
+++ b/code/source/jobs.c
@@ -75,7 +75,11 @@ void zpl_jobs_init_with_limit(zpl_jobs_system *pool, zpl_allocator a, zpl_u32 ma
 
         zpl_thread_init(&tw->thread);
         zpl_atomic32_store(&tw->status, ZPL_JOBS_STATUS_WAITING);
-        zpl_thread_start(&tw->thread, zpl__jobs_entry, (void *)tw);
+        if (!zpl_thread_start(&tw->thread, zpl__jobs_entry, (void *)tw)) {
+            zpl_thread_destroy(&tw->thread);
+            pool->max_threads = cast(zpl_u32)i; /* go on with the workers there are */
+            break;
+        }
     }
 }
 
-- 
2.43.0


From b2d7f691ee8f4bdbb891f80966b9fede02734dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:27 +0000
Subject: [PATCH 105/146] fix: spin locks released a held lock and acquired
 nothing

---
 code/source/threading/atomic.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/threading/atomic.c b/code/source/threading/atomic.c
index 333b13e..e0f9367 100644
--- a/code/source/threading/atomic.c
+++ b/code/source/threading/atomic.c
@@ -400,11 +400,11 @@ ZPL_BEGIN_C_DECLS
 
 
 zpl_b32 zpl_atomic32_spin_lock(zpl_atomic32 *a, zpl_isize time_out) {
-    zpl_atomicarg(zpl_i32) old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+    zpl_atomicarg(zpl_i32) old_value = zpl_atomic32_compare_exchange(a, 0, 1);
     zpl_i32 counter = 0;
     while (old_value != 0 && (time_out < 0 || counter++ < time_out)) {
         zpl_yield_thread();
-        old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+        old_value = zpl_atomic32_compare_exchange(a, 0, 1);
         zpl_mfence();
     }
     return old_value == 0;
@@ -416,11 +416,11 @@ void zpl_atomic32_spin_unlock(zpl_atomic32 *a) {
 }
 
 zpl_b32 zpl_atomic64_spin_lock(zpl_atomic64 *a, zpl_isize time_out) {
-    zpl_atomicarg(zpl_i64) old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+    zpl_atomicarg(zpl_i64) old_value = zpl_atomic64_compare_exchange(a, 0, 1);
     zpl_atomicarg(zpl_i64) counter = 0;
     while (old_value != 0 && (time_out < 0 || counter++ < time_out)) {
         zpl_yield_thread();
-        old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+        old_value = zpl_atomic64_compare_exchange(a, 0, 1);
         zpl_mfence();
     }
     return old_value == 0;
@@ -434,7 +434,7 @@ void zpl_atomic64_spin_unlock(zpl_atomic64 *a) {
 zpl_b32 zpl_atomic32_try_acquire_lock(zpl_atomic32 *a) {
     zpl_atomicarg(zpl_i32) old_value;
     zpl_yield_thread();
-    old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+    old_value = zpl_atomic32_compare_exchange(a, 0, 1);
     zpl_mfence();
     return old_value == 0;
 }
@@ -442,7 +442,7 @@ zpl_b32 zpl_atomic32_try_acquire_lock(zpl_atomic32 *a) {
 zpl_b32 zpl_atomic64_try_acquire_lock(zpl_atomic64 *a) {
     zpl_atomicarg(zpl_i64) old_value;
     zpl_yield_thread();
-    old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+    old_value = zpl_atomic64_compare_exchange(a, 0, 1);
     zpl_mfence();
     return old_value == 0;
 }
-- 
2.43.0


From 566f65760975e509dd55e8f016622b710bf6def5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:27 +0000
Subject: [PATCH 106/146] fix: compare-exchange returned a flag instead of the
 old value where atomics use compiler builtins

---
 code/source/threading/atomic.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/threading/atomic.c b/code/source/threading/atomic.c
index e0f9367..3aab914 100644
--- a/code/source/threading/atomic.c
+++ b/code/source/threading/atomic.c
@@ -346,7 +346,8 @@ ZPL_BEGIN_C_DECLS
     }
 
     zpl_i32 zpl_atomic32_compare_exchange(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) expected, zpl_atomicarg(zpl_i32) desired) {
-        return __atomic_compare_exchange_n((zpl_i32*)&a->value, (zpl_i32*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        __atomic_compare_exchange_n((zpl_i32*)&a->value, (zpl_i32*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        return expected; /* the value found */
     }
 
     zpl_i32 zpl_atomic32_exchange(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) desired) {
@@ -374,7 +375,8 @@ ZPL_BEGIN_C_DECLS
     }
 
     zpl_i64 zpl_atomic64_compare_exchange(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) expected, zpl_atomicarg(zpl_i64) desired) {
-        return __atomic_compare_exchange_n((zpl_i64*)&a->value, (zpl_i64*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        __atomic_compare_exchange_n((zpl_i64*)&a->value, (zpl_i64*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        return expected; /* the value found */
     }
 
     zpl_i64 zpl_atomic64_exchange(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) desired) {
-- 
2.43.0


From 850551e0e1beb026a5311f40e8f3dc51cac61f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 107/146] fix: floor, ceil and round were wrong for integers,
 large numbers and some halves

---
 code/source/math.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index fcb3fcf..26ee72f 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -60,9 +60,18 @@ zpl_f64 zpl_copy_sign64(zpl_f64 x, zpl_f64 y) {
     return r;
 }
 
-zpl_f64 zpl_floor64(zpl_f64 x)                { return cast(zpl_f64)((x >= 0.0) ? cast(zpl_i64) x : cast(zpl_i64)(x - 0.9999999999999999)); }
-zpl_f64 zpl_ceil64(zpl_f64 x)                 { return cast(zpl_f64)((x < 0) ? cast(zpl_i64) x : (cast(zpl_i64) x) + 1); }
-zpl_f64 zpl_round64(zpl_f64 x)                { return cast(zpl_f64)((x >= 0.0) ? zpl_floor64(x + 0.5) : zpl_ceil64(x - 0.5)); }
+zpl_f64 zpl_floor64(zpl_f64 x) {
+    zpl_f64 t;
+    if (!(zpl_abs64(x) < 4503599627370496.0)) return x; /* already integral, infinite or not a number */
+    t = cast(zpl_f64) cast(zpl_i64) x;
+    return t > x ? t - 1.0 : t;
+}
+zpl_f64 zpl_ceil64(zpl_f64 x)                 { return -zpl_floor64(-x); }
+zpl_f64 zpl_round64(zpl_f64 x) {
+    zpl_f64 a = zpl_abs64(x), t = zpl_floor64(a);
+    if (a - t >= 0.5) t += 1.0;
+    return zpl_copy_sign64(t, x);
+}
 zpl_f64 zpl_remainder64(zpl_f64 x, zpl_f64 y) { return x - (zpl_round64(x / y) * y); }
 zpl_f64 zpl_abs64(zpl_f64 x)                  { return x < 0 ? -x : x; }
 zpl_f64 zpl_sign64(zpl_f64 x)                 { return x < 0 ? -1.0 : +1.0; }
@@ -255,9 +264,18 @@ zpl_f32 zpl_fast_exp(zpl_f32 x) {
 
 zpl_f32 zpl_fast_exp2(zpl_f32 x) { return zpl_fast_exp(ZPL_LOG_TWO * x); }
 
-zpl_f32 zpl_round(zpl_f32 x) { return (float)((x >= 0.0f) ? zpl_floor(x + 0.5f) : zpl_ceil(x - 0.5f)); }
-zpl_f32 zpl_floor(zpl_f32 x) { return (float)((x >= 0.0f) ? (int)x              : (int)(x - 0.9999999999999999f)); }
-zpl_f32 zpl_ceil(zpl_f32 x)  { return (float)((x <  0.0f) ? (int)x              : ((int)x) + 1); }
+zpl_f32 zpl_round(zpl_f32 x) {
+    zpl_f32 a = zpl_abs(x), t = zpl_floor(a);
+    if (a - t >= 0.5f) t += 1.0f;
+    return zpl_copy_sign(t, x);
+}
+zpl_f32 zpl_floor(zpl_f32 x) {
+    zpl_f32 t;
+    if (!(zpl_abs(x) < 8388608.0f)) return x; /* already integral, infinite or not a number */
+    t = (zpl_f32)(int)x;
+    return t > x ? t - 1.0f : t;
+}
+zpl_f32 zpl_ceil(zpl_f32 x)  { return -zpl_floor(-x); }
 
 zpl_f32 zpl_half_to_float(zpl_half value) {
     union {
-- 
2.43.0


From 821e4c2eae716dd2db4561dc1b2c6f6db2bdc205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 108/146] fix: mod added the divisor to positive remainders

---
 code/source/math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 26ee72f..dee32a7 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -44,7 +44,7 @@ zpl_f32 zpl_mod(zpl_f32 x, zpl_f32 y) {
     zpl_f32 result;
     y = zpl_abs(y);
     result = zpl_remainder(zpl_abs(x), y);
-    if (zpl_sign(result) > 0.0f) result += y;
+    if (result < 0.0f) result += y;
     return zpl_copy_sign(result, x);
 }
 
@@ -80,7 +80,7 @@ zpl_f64 zpl_mod64(zpl_f64 x, zpl_f64 y) {
     zpl_f64 result;
     y = zpl_abs64(y);
     result = zpl_remainder64(zpl_abs64(x), y);
-    if (zpl_sign64(result)) result += y;
+    if (result < 0.0) result += y;
     return zpl_copy_sign64(result, x);
 }
 
-- 
2.43.0


From 53d4aeeeed3074ce976428ecc80a4ac254993f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 109/146] fix: the reciprocals of pi and tau had other values

---
 code/header/math.h | 1396 ++++++++++++++++++++++----------------------
 1 file changed, 698 insertions(+), 698 deletions(-)

diff --git a/code/header/math.h b/code/header/math.h
index a75301a..e5a503c 100644
--- a/code/header/math.h
+++ b/code/header/math.h
@@ -1,698 +1,698 @@
-// file: header/math.h
-
-/** @file math.c
-@brief Math operations
-@defgroup math Math operations
-
-OpenGL gamedev friendly library for math.
-
-@{
-*/
-
-ZPL_BEGIN_C_DECLS
-
-typedef union zpl_vec2 {
-    struct {
-        zpl_f32 x, y;
-    };
-    struct {
-        zpl_f32 s, t;
-    };
-    zpl_f32 e[2];
-} zpl_vec2;
-
-typedef union zpl_vec3 {
-    struct {
-        zpl_f32 x, y, z;
-    };
-    struct {
-        zpl_f32 r, g, b;
-    };
-    struct {
-        zpl_f32 s, t, p;
-    };
-    
-    zpl_vec2 xy;
-    zpl_vec2 st;
-    zpl_f32 e[3];
-} zpl_vec3;
-
-typedef union zpl_vec4 {
-    struct {
-        zpl_f32 x, y, z, w;
-    };
-    struct {
-        zpl_f32 r, g, b, a;
-    };
-    struct {
-        zpl_f32 s, t, p, q;
-    };
-    struct {
-        zpl_vec2 xy, zw;
-    };
-    struct {
-        zpl_vec2 st, pq;
-    };
-    zpl_vec3 xyz;
-    zpl_vec3 rgb;
-    zpl_f32 e[4];
-} zpl_vec4;
-
-typedef union zpl_mat2 {
-    struct {
-        zpl_vec2 x, y;
-    };
-    zpl_vec2 col[2];
-    zpl_f32 e[4];
-} zpl_mat2;
-
-typedef union zpl_mat3 {
-    struct {
-        zpl_vec3 x, y, z;
-    };
-    zpl_vec3 col[3];
-    zpl_f32 e[9];
-} zpl_mat3;
-
-typedef union zpl_mat4 {
-    struct {
-        zpl_vec4 x, y, z, w;
-    };
-    zpl_vec4 col[4];
-    zpl_f32 e[16];
-} zpl_mat4;
-
-typedef union zpl_quat {
-    struct {
-        zpl_f32 x, y, z, w;
-    };
-    zpl_vec4 xyzw;
-    zpl_vec3 xyz;
-    zpl_f32 e[4];
-} zpl_quat;
-
-typedef union zpl_plane {
-    struct {
-        zpl_f32 a, b, c, d;
-    };
-    zpl_vec4 xyzw;
-    zpl_vec3 n;
-    zpl_f32 e[4];
-} zpl_plane;
-
-typedef struct zpl_frustum {
-    zpl_plane x1;
-    zpl_plane x2;
-    zpl_plane y1;
-    zpl_plane y2;
-    zpl_plane z1;
-    zpl_plane z2;
-} zpl_frustum;
-
-typedef zpl_f32 zpl_float2[2];
-typedef zpl_f32 zpl_float3[3];
-typedef zpl_f32 zpl_float4[4];
-
-typedef struct zpl_rect2 {
-    zpl_vec2 pos, dim;
-} zpl_rect2;
-typedef struct zpl_rect3 {
-    zpl_vec3 pos, dim;
-} zpl_rect3;
-
-typedef struct zpl_aabb2 {
-    zpl_vec2 min, max;
-} zpl_aabb2;
-typedef struct zpl_aabb3 {
-    zpl_vec3 min, max;
-} zpl_aabb3;
-
-typedef short zpl_half;
-
-#ifndef ZPL_CONSTANTS
-#define ZPL_CONSTANTS
-#define ZPL_EPSILON    1.19209290e-7f
-#define ZPL_ZERO       0.0f
-#define ZPL_ONE        1.0f
-#define ZPL_TWO_THIRDS 0.666666666666666666666666666666666666667f
-
-#define ZPL_TAU          6.28318530717958647692528676655900576f
-#define ZPL_PI           3.14159265358979323846264338327950288f
-#define ZPL_ONE_OVER_TAU 0.636619772367581343075535053490057448f
-#define ZPL_ONE_OVER_PI  0.159154943091895335768883763372514362f
-
-#define ZPL_TAU_OVER_2 3.14159265358979323846264338327950288f
-#define ZPL_TAU_OVER_4 1.570796326794896619231321691639751442f
-#define ZPL_TAU_OVER_8 0.785398163397448309615660845819875721f
-
-#define ZPL_E          2.71828182845904523536f
-#define ZPL_SQRT_TWO   1.41421356237309504880168872420969808f
-#define ZPL_SQRT_THREE 1.73205080756887729352744634150587236f
-#define ZPL_SQRT_FIVE  2.23606797749978969640917366873127623f
-
-#define ZPL_LOG_TWO 0.693147180559945309417232121458176568f
-#define ZPL_LOG_TEN 2.30258509299404568401799145468436421f
-#endif // ZPL_CONSTANTS
-
-#ifndef zpl_square
-#define zpl_square(x) ((x) * (x))
-#endif
-
-#ifndef zpl_cube
-#define zpl_cube(x) ((x) * (x) * (x))
-#endif
-
-#ifndef zpl_sign
-#define zpl_sign(x) ((x) >= 0.0f ? 1.0f : -1.0f)
-#endif
-
-#ifndef zpl_sign0
-#define zpl_sign0(x) ((x == 0.0f) ? 0.0f : ((x) >= 0.0f ? 1.0f : -1.0f))
-#endif
-
-ZPL_DEF zpl_f32 zpl_to_radians(zpl_f32 degrees);
-ZPL_DEF zpl_f32 zpl_to_degrees(zpl_f32 radians);
-
-/* NOTE: Because to interpolate angles */
-ZPL_DEF zpl_f32 zpl_angle_diff(zpl_f32 radians_a, zpl_f32 radians_b);
-
-ZPL_DEF zpl_f32 zpl_copy_sign(zpl_f32 x, zpl_f32 y);
-ZPL_DEF zpl_f32 zpl_remainder(zpl_f32 x, zpl_f32 y);
-ZPL_DEF zpl_f32 zpl_mod(zpl_f32 x, zpl_f32 y);
-ZPL_DEF zpl_f64 zpl_copy_sign64(zpl_f64 x, zpl_f64 y);
-ZPL_DEF zpl_f64 zpl_floor64(zpl_f64 x);
-ZPL_DEF zpl_f64 zpl_ceil64(zpl_f64 x);
-ZPL_DEF zpl_f64 zpl_round64(zpl_f64 x);
-ZPL_DEF zpl_f64 zpl_remainder64(zpl_f64 x, zpl_f64 y);
-ZPL_DEF zpl_f64 zpl_abs64(zpl_f64 x);
-ZPL_DEF zpl_f64 zpl_sign64(zpl_f64 x);
-ZPL_DEF zpl_f64 zpl_mod64(zpl_f64 x, zpl_f64 y);
-ZPL_DEF zpl_f32 zpl_sqrt(zpl_f32 a);
-ZPL_DEF zpl_f32 zpl_rsqrt(zpl_f32 a);
-ZPL_DEF zpl_f32 zpl_quake_rsqrt(zpl_f32 a); /* NOTE: It's probably better to use 1.0f/zpl_sqrt(a)
-                                     * And for simd, there is usually isqrt functions too!
-                                     */
-ZPL_DEF zpl_f32 zpl_hypot(zpl_f32 x, zpl_f32 y);
-ZPL_DEF zpl_f32 zpl_sin(zpl_f32 radians);
-ZPL_DEF zpl_f32 zpl_cos(zpl_f32 radians);
-ZPL_DEF zpl_f32 zpl_tan(zpl_f32 radians);
-ZPL_DEF zpl_f32 zpl_arcsin(zpl_f32 a);
-ZPL_DEF zpl_f32 zpl_arccos(zpl_f32 a);
-ZPL_DEF zpl_f32 zpl_arctan(zpl_f32 a);
-ZPL_DEF zpl_f32 zpl_arctan2(zpl_f32 y, zpl_f32 x);
-
-ZPL_DEF zpl_f32 zpl_exp(zpl_f32 x);
-ZPL_DEF zpl_f32 zpl_exp2(zpl_f32 x);
-ZPL_DEF zpl_f32 zpl_log(zpl_f32 x);
-ZPL_DEF zpl_f32 zpl_log2(zpl_f32 x);
-ZPL_DEF zpl_f32 zpl_fast_exp(zpl_f32 x);   /* NOTE: Only valid from -1 <= x <= +1 */
-ZPL_DEF zpl_f32 zpl_fast_exp2(zpl_f32 x);  /* NOTE: Only valid from -1 <= x <= +1 */
-ZPL_DEF zpl_f32 zpl_pow(zpl_f32 x, zpl_f32 y); /* x^y */
-
-ZPL_DEF zpl_f32 zpl_round(zpl_f32 x);
-ZPL_DEF zpl_f32 zpl_floor(zpl_f32 x);
-ZPL_DEF zpl_f32 zpl_ceil(zpl_f32 x);
-
-ZPL_DEF zpl_f32  zpl_half_to_float(zpl_half value);
-ZPL_DEF zpl_half zpl_float_to_half(zpl_f32 value);
-
-ZPL_DEF zpl_vec2 zpl_vec2f_zero(void);
-ZPL_DEF zpl_vec2 zpl_vec2f(zpl_f32 x, zpl_f32 y);
-ZPL_DEF zpl_vec2 zpl_vec2fv(zpl_f32 x[2]);
-
-ZPL_DEF zpl_vec3 zpl_vec3f_zero(void);
-ZPL_DEF zpl_vec3 zpl_vec3f(zpl_f32 x, zpl_f32 y, zpl_f32 z);
-ZPL_DEF zpl_vec3 zpl_vec3fv(zpl_f32 x[3]);
-
-ZPL_DEF zpl_vec4 zpl_vec4f_zero(void);
-ZPL_DEF zpl_vec4 zpl_vec4f(zpl_f32 x, zpl_f32 y, zpl_f32 z, zpl_f32 w);
-ZPL_DEF zpl_vec4 zpl_vec4fv(zpl_f32 x[4]);
-
-ZPL_DEF zpl_f32 zpl_vec2_max(zpl_vec2 v);
-ZPL_DEF zpl_f32 zpl_vec2_side(zpl_vec2 p, zpl_vec2 q, zpl_vec2 r);
-ZPL_DEF void zpl_vec2_add(zpl_vec2 *d, zpl_vec2 v0, zpl_vec2 v1);
-ZPL_DEF void zpl_vec2_sub(zpl_vec2 *d, zpl_vec2 v0, zpl_vec2 v1);
-ZPL_DEF void zpl_vec2_mul(zpl_vec2 *d, zpl_vec2 v, zpl_f32 s);
-ZPL_DEF void zpl_vec2_div(zpl_vec2 *d, zpl_vec2 v, zpl_f32 s);
-
-ZPL_DEF zpl_f32 zpl_vec3_max(zpl_vec3 v);
-ZPL_DEF void zpl_vec3_add(zpl_vec3 *d, zpl_vec3 v0, zpl_vec3 v1);
-ZPL_DEF void zpl_vec3_sub(zpl_vec3 *d, zpl_vec3 v0, zpl_vec3 v1);
-ZPL_DEF void zpl_vec3_mul(zpl_vec3 *d, zpl_vec3 v, zpl_f32 s);
-ZPL_DEF void zpl_vec3_div(zpl_vec3 *d, zpl_vec3 v, zpl_f32 s);
-
-ZPL_DEF void zpl_vec4_add(zpl_vec4 *d, zpl_vec4 v0, zpl_vec4 v1);
-ZPL_DEF void zpl_vec4_sub(zpl_vec4 *d, zpl_vec4 v0, zpl_vec4 v1);
-ZPL_DEF void zpl_vec4_mul(zpl_vec4 *d, zpl_vec4 v, zpl_f32 s);
-ZPL_DEF void zpl_vec4_div(zpl_vec4 *d, zpl_vec4 v, zpl_f32 s);
-
-ZPL_DEF void zpl_vec2_addeq(zpl_vec2 *d, zpl_vec2 v);
-ZPL_DEF void zpl_vec2_subeq(zpl_vec2 *d, zpl_vec2 v);
-ZPL_DEF void zpl_vec2_muleq(zpl_vec2 *d, zpl_f32 s);
-ZPL_DEF void zpl_vec2_diveq(zpl_vec2 *d, zpl_f32 s);
-
-ZPL_DEF void zpl_vec3_addeq(zpl_vec3 *d, zpl_vec3 v);
-ZPL_DEF void zpl_vec3_subeq(zpl_vec3 *d, zpl_vec3 v);
-ZPL_DEF void zpl_vec3_muleq(zpl_vec3 *d, zpl_f32 s);
-ZPL_DEF void zpl_vec3_diveq(zpl_vec3 *d, zpl_f32 s);
-
-ZPL_DEF void zpl_vec4_addeq(zpl_vec4 *d, zpl_vec4 v);
-ZPL_DEF void zpl_vec4_subeq(zpl_vec4 *d, zpl_vec4 v);
-ZPL_DEF void zpl_vec4_muleq(zpl_vec4 *d, zpl_f32 s);
-ZPL_DEF void zpl_vec4_diveq(zpl_vec4 *d, zpl_f32 s);
-
-ZPL_DEF zpl_f32 zpl_vec2_dot(zpl_vec2 v0, zpl_vec2 v1);
-ZPL_DEF zpl_f32 zpl_vec3_dot(zpl_vec3 v0, zpl_vec3 v1);
-ZPL_DEF zpl_f32 zpl_vec4_dot(zpl_vec4 v0, zpl_vec4 v1);
-
-ZPL_DEF void zpl_vec2_cross(zpl_f32 *d, zpl_vec2 v0, zpl_vec2 v1);
-ZPL_DEF void zpl_vec3_cross(zpl_vec3 *d, zpl_vec3 v0, zpl_vec3 v1);
-
-ZPL_DEF zpl_f32 zpl_vec2_mag2(zpl_vec2 v);
-ZPL_DEF zpl_f32 zpl_vec3_mag2(zpl_vec3 v);
-ZPL_DEF zpl_f32 zpl_vec4_mag2(zpl_vec4 v);
-
-ZPL_DEF zpl_f32 zpl_vec2_mag(zpl_vec2 v);
-ZPL_DEF zpl_f32 zpl_vec3_mag(zpl_vec3 v);
-ZPL_DEF zpl_f32 zpl_vec4_mag(zpl_vec4 v);
-
-ZPL_DEF void zpl_vec2_norm(zpl_vec2 *d, zpl_vec2 v);
-ZPL_DEF void zpl_vec3_norm(zpl_vec3 *d, zpl_vec3 v);
-ZPL_DEF void zpl_vec4_norm(zpl_vec4 *d, zpl_vec4 v);
-
-ZPL_DEF void zpl_vec2_norm0(zpl_vec2 *d, zpl_vec2 v);
-ZPL_DEF void zpl_vec3_norm0(zpl_vec3 *d, zpl_vec3 v);
-ZPL_DEF void zpl_vec4_norm0(zpl_vec4 *d, zpl_vec4 v);
-
-ZPL_DEF void zpl_vec2_reflect(zpl_vec2 *d, zpl_vec2 i, zpl_vec2 n);
-ZPL_DEF void zpl_vec3_reflect(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n);
-ZPL_DEF void zpl_vec2_refract(zpl_vec2 *d, zpl_vec2 i, zpl_vec2 n, zpl_f32 eta);
-ZPL_DEF void zpl_vec3_refract(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n, zpl_f32 eta);
-
-ZPL_DEF zpl_f32 zpl_vec2_aspect_ratio(zpl_vec2 v);
-
-ZPL_DEF void zpl_mat2_identity(zpl_mat2 *m);
-ZPL_DEF void zpl_float22_identity(zpl_f32 m[2][2]);
-
-ZPL_DEF void    zpl_mat2_transpose(zpl_mat2 *m);
-ZPL_DEF void    zpl_mat2_mul(zpl_mat2 *out, zpl_mat2 *m1, zpl_mat2 *m2);
-ZPL_DEF void    zpl_mat2_mul_vec2(zpl_vec2 *out, zpl_mat2 *m, zpl_vec2 in);
-ZPL_DEF void    zpl_mat2_inverse(zpl_mat2 *out, zpl_mat2 *in);
-ZPL_DEF zpl_f32 zpl_mat2_determinate(zpl_mat2 *m);
-
-ZPL_DEF zpl_mat2   *zpl_mat2_v(zpl_vec2 m[2]);
-ZPL_DEF zpl_mat2   *zpl_mat2_f(zpl_f32 m[2][2]);
-ZPL_DEF zpl_float2 *zpl_float22_m(zpl_mat2 *m);
-ZPL_DEF zpl_float2 *zpl_float22_v(zpl_vec2 m[2]);
-ZPL_DEF zpl_float2 *zpl_float22_4(zpl_f32 m[4]);
-
-ZPL_DEF void zpl_float22_transpose(zpl_f32 (*vec)[2]);
-ZPL_DEF void zpl_float22_mul(zpl_f32 (*out)[2], zpl_f32 (*mat1)[2], zpl_f32 (*mat2)[2]);
-ZPL_DEF void zpl_float22_mul_vec2(zpl_vec2 *out, zpl_f32 m[2][2], zpl_vec2 in);
-
-ZPL_DEF void zpl_mat3_identity(zpl_mat3 *m);
-ZPL_DEF void zpl_float33_identity(zpl_f32 m[3][3]);
-
-ZPL_DEF void    zpl_mat3_transpose(zpl_mat3 *m);
-ZPL_DEF void    zpl_mat3_mul(zpl_mat3 *out, zpl_mat3 *m1, zpl_mat3 *m2);
-ZPL_DEF void    zpl_mat3_mul_vec3(zpl_vec3 *out, zpl_mat3 *m, zpl_vec3 in);
-ZPL_DEF void    zpl_mat3_inverse(zpl_mat3 *out, zpl_mat3 *in);
-ZPL_DEF zpl_f32 zpl_mat3_determinate(zpl_mat3 *m);
-
-ZPL_DEF zpl_mat3   *zpl_mat3_v(zpl_vec3 m[3]);
-ZPL_DEF zpl_mat3   *zpl_mat3_f(zpl_f32 m[3][3]);
-
-ZPL_DEF zpl_float3 *zpl_float33_m(zpl_mat3 *m);
-ZPL_DEF zpl_float3 *zpl_float33_v(zpl_vec3 m[3]);
-ZPL_DEF zpl_float3 *zpl_float33_9(zpl_f32 m[9]);
-
-ZPL_DEF void zpl_float33_transpose(zpl_f32 (*vec)[3]);
-ZPL_DEF void zpl_float33_mul(zpl_f32 (*out)[3], zpl_f32 (*mat1)[3], zpl_f32 (*mat2)[3]);
-ZPL_DEF void zpl_float33_mul_vec3(zpl_vec3 *out, zpl_f32 m[3][3], zpl_vec3 in);
-
-ZPL_DEF void zpl_mat4_identity(zpl_mat4 *m);
-ZPL_DEF void zpl_float44_identity(zpl_f32 m[4][4]);
-ZPL_DEF void zpl_mat4_copy(zpl_mat4* out, zpl_mat4* m);
-
-ZPL_DEF void zpl_mat4_transpose(zpl_mat4 *m);
-ZPL_DEF void zpl_mat4_mul(zpl_mat4 *out, zpl_mat4 *m1, zpl_mat4 *m2);
-ZPL_DEF void zpl_mat4_mul_vec4(zpl_vec4 *out, zpl_mat4 *m, zpl_vec4 in);
-ZPL_DEF void zpl_mat4_inverse(zpl_mat4 *out, zpl_mat4 *in);
-
-ZPL_DEF zpl_mat4 *zpl_mat4_v(zpl_vec4 m[4]);
-ZPL_DEF zpl_mat4 *zpl_mat4_f(zpl_f32 m[4][4]);
-
-ZPL_DEF zpl_float4 *zpl_float44_m(zpl_mat4 *m);
-ZPL_DEF zpl_float4 *zpl_float44_v(zpl_vec4 m[4]);
-ZPL_DEF zpl_float4 *zpl_float44_16(zpl_f32 m[16]);
-
-ZPL_DEF void zpl_float44_transpose(zpl_f32 (*vec)[4]);
-ZPL_DEF void zpl_float44_mul(zpl_f32 (*out)[4], zpl_f32 (*mat1)[4], zpl_f32 (*mat2)[4]);
-ZPL_DEF void zpl_float44_mul_vec4(zpl_vec4 *out, zpl_f32 m[4][4], zpl_vec4 in);
-
-ZPL_DEF void zpl_mat4_axis_angle(zpl_mat4* out, zpl_vec3 v, zpl_f32 angle_radians);
-ZPL_DEF void zpl_mat4_to_translate(zpl_mat4* out, zpl_vec3 v);
-ZPL_DEF void zpl_mat4_to_rotate(zpl_mat4* out, zpl_vec3 v, zpl_f32 angle_radians);
-ZPL_DEF void zpl_mat4_to_scale(zpl_mat4* out, zpl_vec3 v);
-ZPL_DEF void zpl_mat4_to_scalef(zpl_mat4* out, zpl_f32 s);
-ZPL_DEF void zpl_mat4_translate(zpl_mat4* out, zpl_vec3 v);
-ZPL_DEF void zpl_mat4_rotate(zpl_mat4* out, zpl_vec3 v, zpl_f32 angle_radians);
-ZPL_DEF void zpl_mat4_scale(zpl_mat4* out, zpl_vec3 v);
-ZPL_DEF void zpl_mat4_scalef(zpl_mat4 *out, zpl_f32 s);
-ZPL_DEF void zpl_mat4_ortho2d(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top);
-ZPL_DEF void zpl_mat4_ortho3d(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top, zpl_f32 z_near, zpl_f32 z_far);
-ZPL_DEF void zpl_mat4_perspective(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near, zpl_f32 z_far);
-ZPL_DEF void zpl_mat4_infinite_perspective(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near);
-
-ZPL_DEF void zpl_mat4_ortho2d_dx(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top);
-ZPL_DEF void zpl_mat4_ortho3d_dx(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top, zpl_f32 z_near, zpl_f32 z_far);
-ZPL_DEF void zpl_mat4_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near, zpl_f32 z_far);
-ZPL_DEF void zpl_mat4_infinite_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near);
-
-ZPL_DEF void zpl_mat4_look_at(zpl_mat4 *out, zpl_vec3 eye, zpl_vec3 centre, zpl_vec3 up);
-
-ZPL_DEF void zpl_mat4_look_at_lh(zpl_mat4 *out, zpl_vec3 eye, zpl_vec3 centre, zpl_vec3 up);
-
-ZPL_DEF zpl_quat zpl_quatf(zpl_f32 x, zpl_f32 y, zpl_f32 z, zpl_f32 w);
-ZPL_DEF zpl_quat zpl_quatfv(zpl_f32 e[4]);
-ZPL_DEF zpl_quat zpl_quat_axis_angle(zpl_vec3 axis, zpl_f32 angle_radians);
-ZPL_DEF zpl_quat zpl_quat_euler_angles(zpl_f32 pitch, zpl_f32 yaw, zpl_f32 roll);
-ZPL_DEF zpl_quat zpl_quat_identity(void);
-
-ZPL_DEF void zpl_quat_add(zpl_quat *d, zpl_quat q0, zpl_quat q1);
-ZPL_DEF void zpl_quat_sub(zpl_quat *d, zpl_quat q0, zpl_quat q1);
-ZPL_DEF void zpl_quat_mul(zpl_quat *d, zpl_quat q0, zpl_quat q1);
-ZPL_DEF void zpl_quat_div(zpl_quat *d, zpl_quat q0, zpl_quat q1);
-
-ZPL_DEF void zpl_quat_mulf(zpl_quat *d, zpl_quat q, zpl_f32 s);
-ZPL_DEF void zpl_quat_divf(zpl_quat *d, zpl_quat q, zpl_f32 s);
-
-ZPL_DEF void zpl_quat_addeq(zpl_quat *d, zpl_quat q);
-ZPL_DEF void zpl_quat_subeq(zpl_quat *d, zpl_quat q);
-ZPL_DEF void zpl_quat_muleq(zpl_quat *d, zpl_quat q);
-ZPL_DEF void zpl_quat_diveq(zpl_quat *d, zpl_quat q);
-
-ZPL_DEF void zpl_quat_muleqf(zpl_quat *d, zpl_f32 s);
-ZPL_DEF void zpl_quat_diveqf(zpl_quat *d, zpl_f32 s);
-
-ZPL_DEF zpl_f32 zpl_quat_dot(zpl_quat q0, zpl_quat q1);
-ZPL_DEF zpl_f32 zpl_quat_mag(zpl_quat q);
-
-ZPL_DEF void zpl_quat_norm(zpl_quat *d, zpl_quat q);
-ZPL_DEF void zpl_quat_conj(zpl_quat *d, zpl_quat q);
-ZPL_DEF void zpl_quat_inverse(zpl_quat *d, zpl_quat q);
-
-ZPL_DEF void    zpl_quat_axis(zpl_vec3 *axis, zpl_quat q);
-ZPL_DEF zpl_f32 zpl_quat_angle(zpl_quat q);
-
-ZPL_DEF zpl_f32 zpl_quat_pitch(zpl_quat q);
-ZPL_DEF zpl_f32 zpl_quat_yaw(zpl_quat q);
-ZPL_DEF zpl_f32 zpl_quat_roll(zpl_quat q);
-
-/* NOTE: Rotate v by q */
-ZPL_DEF void zpl_quat_rotate_vec3(zpl_vec3 *d, zpl_quat q, zpl_vec3 v);
-ZPL_DEF void zpl_mat4_from_quat(zpl_mat4 *out, zpl_quat q);
-ZPL_DEF void zpl_quat_from_mat4(zpl_quat *out, zpl_mat4 *m);
-
-/* Plane math. */
-ZPL_DEF zpl_f32 zpl_plane_distance(zpl_plane* p, zpl_vec3 v);
-
-/* Frustum culling. */
-ZPL_DEF void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj);
-ZPL_DEF zpl_b8 zpl_frustum_sphere_inside(zpl_frustum* frustum, zpl_vec3 center, zpl_f32 radius);
-ZPL_DEF zpl_b8 zpl_frustum_point_inside(zpl_frustum* frustum, zpl_vec3 point);
-ZPL_DEF zpl_b8 zpl_frustum_box_inside(zpl_frustum* frustum, zpl_aabb3 box);
-
-/* Interpolations */
-ZPL_DEF zpl_f32 zpl_lerp(zpl_f32 a, zpl_f32 b, zpl_f32 t);
-ZPL_DEF zpl_f32 zpl_unlerp(zpl_f32 t, zpl_f32 a, zpl_f32 b);
-ZPL_DEF zpl_f32 zpl_smooth_step(zpl_f32 a, zpl_f32 b, zpl_f32 t);
-ZPL_DEF zpl_f32 zpl_smoother_step(zpl_f32 a, zpl_f32 b, zpl_f32 t);
-
-ZPL_DEF void zpl_vec2_lerp(zpl_vec2 *d, zpl_vec2 a, zpl_vec2 b, zpl_f32 t);
-ZPL_DEF void zpl_vec3_lerp(zpl_vec3 *d, zpl_vec3 a, zpl_vec3 b, zpl_f32 t);
-ZPL_DEF void zpl_vec4_lerp(zpl_vec4 *d, zpl_vec4 a, zpl_vec4 b, zpl_f32 t);
-
-ZPL_DEF void zpl_vec2_cslerp(zpl_vec2 *d, zpl_vec2 a, zpl_vec2 v0, zpl_vec2 b, zpl_vec2 v1, zpl_f32 t);
-ZPL_DEF void zpl_vec3_cslerp(zpl_vec3 *d, zpl_vec3 a, zpl_vec3 v0, zpl_vec3 b, zpl_vec3 v1, zpl_f32 t);
-ZPL_DEF void zpl_vec2_dcslerp(zpl_vec2 *d, zpl_vec2 a, zpl_vec2 v0, zpl_vec2 b, zpl_vec2 v1, zpl_f32 t);
-ZPL_DEF void zpl_vec3_dcslerp(zpl_vec3 *d, zpl_vec3 a, zpl_vec3 v0, zpl_vec3 b, zpl_vec3 v1, zpl_f32 t);
-
-ZPL_DEF void zpl_quat_lerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
-ZPL_DEF void zpl_quat_nlerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
-ZPL_DEF void zpl_quat_slerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
-ZPL_DEF void zpl_quat_nquad(zpl_quat *d, zpl_quat p, zpl_quat a, zpl_quat b, zpl_quat q, zpl_f32 t);
-ZPL_DEF void zpl_quat_squad(zpl_quat *d, zpl_quat p, zpl_quat a, zpl_quat b, zpl_quat q, zpl_f32 t);
-ZPL_DEF void zpl_quat_slerp_approx(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
-ZPL_DEF void zpl_quat_squad_approx(zpl_quat *d, zpl_quat p, zpl_quat a, zpl_quat b, zpl_quat q, zpl_f32 t);
-
-/* rects */
-ZPL_DEF zpl_rect2 zpl_rect2f(zpl_vec2 pos, zpl_vec2 dim);
-ZPL_DEF zpl_rect3 zpl_rect3f(zpl_vec3 pos, zpl_vec3 dim);
-
-ZPL_DEF zpl_aabb2 zpl_aabb2f(zpl_f32 minx, zpl_f32 miny, zpl_f32 maxx, zpl_f32 maxy);
-ZPL_DEF zpl_aabb3 zpl_aabb3f(zpl_f32 minx, zpl_f32 miny, zpl_f32 minz, zpl_f32 maxx, zpl_f32 maxy, zpl_f32 maxz);
-
-ZPL_DEF zpl_aabb2 zpl_aabb2_rect2(zpl_rect2 a);
-ZPL_DEF zpl_aabb3 zpl_aabb3_rect3(zpl_rect3 a);
-ZPL_DEF zpl_rect2 zpl_rect2_aabb2(zpl_aabb2 a);
-ZPL_DEF zpl_rect3 zpl_rect3_aabb3(zpl_aabb3 a);
-
-ZPL_DEF int zpl_rect2_contains(zpl_rect2 a, zpl_f32 x, zpl_f32 y);
-ZPL_DEF int zpl_rect2_contains_vec2(zpl_rect2 a, zpl_vec2 p);
-ZPL_DEF int zpl_rect2_intersects(zpl_rect2 a, zpl_rect2 b);
-ZPL_DEF int zpl_rect2_intersection_result(zpl_rect2 a, zpl_rect2 b, zpl_rect2 *intersection);
-ZPL_DEF int zpl_aabb2_contains(zpl_aabb2 a, zpl_f32 x, zpl_f32 y);
-ZPL_DEF int zpl_aabb3_contains(zpl_aabb3 a, zpl_f32 x, zpl_f32 y, zpl_f32 z);
-
-/* rectangle partitioning: based on https://halt.software/dead-simple-layouts/ */
-ZPL_DEF zpl_aabb2 zpl_aabb2_cut_left(zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_cut_right(zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_cut_top(zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_cut_bottom(zpl_aabb2 *a, zpl_f32 b);
-
-ZPL_DEF zpl_aabb2 zpl_aabb2_get_left(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_get_right(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_get_top(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_get_bottom(const zpl_aabb2 *a, zpl_f32 b);
-
-ZPL_DEF zpl_aabb2 zpl_aabb2_add_left(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_add_right(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_add_top(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_add_bottom(const zpl_aabb2 *a, zpl_f32 b);
-
-ZPL_DEF zpl_aabb2 zpl_aabb2_contract(const zpl_aabb2 *a, zpl_f32 b);
-ZPL_DEF zpl_aabb2 zpl_aabb2_expand(const zpl_aabb2 *a, zpl_f32 b);
-
-//! @}
-ZPL_END_C_DECLS
-#if defined(__cplusplus)
-ZPL_INLINE bool operator==(zpl_vec2 a, zpl_vec2 b) { return (a.x == b.x) && (a.y == b.y); }
-ZPL_INLINE bool operator!=(zpl_vec2 a, zpl_vec2 b) { return !operator==(a, b); }
-
-ZPL_INLINE zpl_vec2 operator+(zpl_vec2 a) { return a; }
-ZPL_INLINE zpl_vec2 operator-(zpl_vec2 a) { zpl_vec2 r = {-a.x, -a.y}; return r; }
-
-ZPL_INLINE zpl_vec2 operator+(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r; zpl_vec2_add(&r, a, b); return r; }
-ZPL_INLINE zpl_vec2 operator-(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r; zpl_vec2_sub(&r, a, b); return r; }
-
-ZPL_INLINE zpl_vec2 operator*(zpl_vec2 a, float scalar) { zpl_vec2 r; zpl_vec2_mul(&r, a, scalar); return r; }
-ZPL_INLINE zpl_vec2 operator*(float scalar, zpl_vec2 a) { return operator*(a, scalar); }
-
-ZPL_INLINE zpl_vec2 operator/(zpl_vec2 a, float scalar) { return operator*(a, 1.0f/scalar); }
-
-/* Hadamard Product */
-ZPL_INLINE zpl_vec2 operator*(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r = {a.x*b.x, a.y*b.y}; return r; }
-ZPL_INLINE zpl_vec2 operator/(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r = {a.x/b.x, a.y/b.y}; return r; }
-
-ZPL_INLINE zpl_vec2 &operator+=(zpl_vec2 &a, zpl_vec2 b)       { return (a = a + b); }
-ZPL_INLINE zpl_vec2 &operator-=(zpl_vec2 &a, zpl_vec2 b)       { return (a = a - b); }
-ZPL_INLINE zpl_vec2 &operator*=(zpl_vec2 &a, float scalar) { return (a = a * scalar); }
-ZPL_INLINE zpl_vec2 &operator/=(zpl_vec2 &a, float scalar) { return (a = a / scalar); }
-
-
-ZPL_INLINE bool operator==(zpl_vec3 a, zpl_vec3 b) { return (a.x == b.x) && (a.y == b.y) && (a.z == b.z); }
-ZPL_INLINE bool operator!=(zpl_vec3 a, zpl_vec3 b) { return !operator==(a, b); }
-
-ZPL_INLINE zpl_vec3 operator+(zpl_vec3 a) { return a; }
-ZPL_INLINE zpl_vec3 operator-(zpl_vec3 a) { zpl_vec3 r = {-a.x, -a.y, -a.z}; return r; }
-
-ZPL_INLINE zpl_vec3 operator+(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r; zpl_vec3_add(&r, a, b); return r; }
-ZPL_INLINE zpl_vec3 operator-(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r; zpl_vec3_sub(&r, a, b); return r; }
-
-ZPL_INLINE zpl_vec3 operator*(zpl_vec3 a, float scalar) { zpl_vec3 r; zpl_vec3_mul(&r, a, scalar); return r; }
-ZPL_INLINE zpl_vec3 operator*(float scalar, zpl_vec3 a) { return operator*(a, scalar); }
-
-ZPL_INLINE zpl_vec3 operator/(zpl_vec3 a, float scalar) { return operator*(a, 1.0f/scalar); }
-
-/* Hadamard Product */
-ZPL_INLINE zpl_vec3 operator*(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r = {a.x*b.x, a.y*b.y, a.z*b.z}; return r; }
-ZPL_INLINE zpl_vec3 operator/(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r = {a.x/b.x, a.y/b.y, a.z/b.z}; return r; }
-
-ZPL_INLINE zpl_vec3 &operator+=(zpl_vec3 &a, zpl_vec3 b)       { return (a = a + b); }
-ZPL_INLINE zpl_vec3 &operator-=(zpl_vec3 &a, zpl_vec3 b)       { return (a = a - b); }
-ZPL_INLINE zpl_vec3 &operator*=(zpl_vec3 &a, float scalar) { return (a = a * scalar); }
-ZPL_INLINE zpl_vec3 &operator/=(zpl_vec3 &a, float scalar) { return (a = a / scalar); }
-
-
-ZPL_INLINE bool operator==(zpl_vec4 a, zpl_vec4 b) { return (a.x == b.x) && (a.y == b.y) && (a.z == b.z) && (a.w == b.w); }
-ZPL_INLINE bool operator!=(zpl_vec4 a, zpl_vec4 b) { return !operator==(a, b); }
-
-ZPL_INLINE zpl_vec4 operator+(zpl_vec4 a) { return a; }
-ZPL_INLINE zpl_vec4 operator-(zpl_vec4 a) { zpl_vec4 r = {-a.x, -a.y, -a.z, -a.w}; return r; }
-
-ZPL_INLINE zpl_vec4 operator+(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r; zpl_vec4_add(&r, a, b); return r; }
-ZPL_INLINE zpl_vec4 operator-(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r; zpl_vec4_sub(&r, a, b); return r; }
-
-ZPL_INLINE zpl_vec4 operator*(zpl_vec4 a, float scalar) { zpl_vec4 r; zpl_vec4_mul(&r, a, scalar); return r; }
-ZPL_INLINE zpl_vec4 operator*(float scalar, zpl_vec4 a) { return operator*(a, scalar); }
-
-ZPL_INLINE zpl_vec4 operator/(zpl_vec4 a, float scalar) { return operator*(a, 1.0f/scalar); }
-
-/* Hadamard Product */
-ZPL_INLINE zpl_vec4 operator*(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r = {a.x*b.x, a.y*b.y, a.z*b.z, a.w*b.w}; return r; }
-ZPL_INLINE zpl_vec4 operator/(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r = {a.x/b.x, a.y/b.y, a.z/b.z, a.w/b.w}; return r; }
-
-ZPL_INLINE zpl_vec4 &operator+=(zpl_vec4 &a, zpl_vec4 b)       { return (a = a + b); }
-ZPL_INLINE zpl_vec4 &operator-=(zpl_vec4 &a, zpl_vec4 b)       { return (a = a - b); }
-ZPL_INLINE zpl_vec4 &operator*=(zpl_vec4 &a, float scalar) { return (a = a * scalar); }
-ZPL_INLINE zpl_vec4 &operator/=(zpl_vec4 &a, float scalar) { return (a = a / scalar); }
-
-
-ZPL_INLINE zpl_mat2 operator+(zpl_mat2 const &a, zpl_mat2 const &b) {
-    int i, j;
-    zpl_mat2 r = {0};
-    for (j = 0; j < 2; j++) {
-        for (i = 0; i < 2; i++)
-            r.e[2*j+i] = a.e[2*j+i] + b.e[2*j+i];
-    }
-    return r;
-}
-
-ZPL_INLINE zpl_mat2 operator-(zpl_mat2 const &a, zpl_mat2 const &b) {
-    int i, j;
-    zpl_mat2 r = {0};
-    for (j = 0; j < 2; j++) {
-        for (i = 0; i < 2; i++)
-            r.e[2*j+i] = a.e[2*j+i] - b.e[2*j+i];
-    }
-    return r;
-}
-
-ZPL_INLINE zpl_mat2 operator*(zpl_mat2 const &a, zpl_mat2 const &b) { zpl_mat2 r; zpl_mat2_mul(&r, (zpl_mat2 *)&a, (zpl_mat2 *)&b); return r; }
-ZPL_INLINE zpl_vec2 operator*(zpl_mat2 const &a, zpl_vec2 v) { zpl_vec2 r; zpl_mat2_mul_vec2(&r, (zpl_mat2 *)&a, v); return r; }
-ZPL_INLINE zpl_mat2 operator*(zpl_mat2 const &a, float scalar) {
-    zpl_mat2 r = {0};
-    int i;
-    for (i = 0; i < 2*2; i++) r.e[i] = a.e[i] * scalar;
-    return r;
-}
-ZPL_INLINE zpl_mat2 operator*(float scalar, zpl_mat2 const &a) { return operator*(a, scalar); }
-ZPL_INLINE zpl_mat2 operator/(zpl_mat2 const &a, float scalar) { return operator*(a, 1.0f/scalar); }
-
-ZPL_INLINE zpl_mat2& operator+=(zpl_mat2& a, zpl_mat2 const &b) { return (a = a + b); }
-ZPL_INLINE zpl_mat2& operator-=(zpl_mat2& a, zpl_mat2 const &b) { return (a = a - b); }
-ZPL_INLINE zpl_mat2& operator*=(zpl_mat2& a, zpl_mat2 const &b) { return (a = a * b); }
-
-
-
-ZPL_INLINE zpl_mat3 operator+(zpl_mat3 const &a, zpl_mat3 const &b) {
-    int i, j;
-    zpl_mat3 r = {0};
-    for (j = 0; j < 3; j++) {
-        for (i = 0; i < 3; i++)
-            r.e[3*j+i] = a.e[3*j+i] + b.e[3*j+i];
-    }
-    return r;
-}
-
-ZPL_INLINE zpl_mat3 operator-(zpl_mat3 const &a, zpl_mat3 const &b) {
-    int i, j;
-    zpl_mat3 r = {0};
-    for (j = 0; j < 3; j++) {
-        for (i = 0; i < 3; i++)
-            r.e[3*j+i] = a.e[3*j+i] - b.e[3*j+i];
-    }
-    return r;
-}
-
-ZPL_INLINE zpl_mat3 operator*(zpl_mat3 const &a, zpl_mat3 const &b) { zpl_mat3 r; zpl_mat3_mul(&r, (zpl_mat3 *)&a, (zpl_mat3 *)&b); return r; }
-ZPL_INLINE zpl_vec3 operator*(zpl_mat3 const &a, zpl_vec3 v) { zpl_vec3 r; zpl_mat3_mul_vec3(&r, (zpl_mat3 *)&a, v); return r; }
-ZPL_INLINE zpl_mat3 operator*(zpl_mat3 const &a, float scalar) {
-    zpl_mat3 r = {0};
-    int i;
-    for (i = 0; i < 3*3; i++) r.e[i] = a.e[i] * scalar;
-    return r;
-}
-ZPL_INLINE zpl_mat3 operator*(float scalar, zpl_mat3 const &a) { return operator*(a, scalar); }
-ZPL_INLINE zpl_mat3 operator/(zpl_mat3 const &a, float scalar) { return operator*(a, 1.0f/scalar); }
-
-ZPL_INLINE zpl_mat3& operator+=(zpl_mat3& a, zpl_mat3 const &b) { return (a = a + b); }
-ZPL_INLINE zpl_mat3& operator-=(zpl_mat3& a, zpl_mat3 const &b) { return (a = a - b); }
-ZPL_INLINE zpl_mat3& operator*=(zpl_mat3& a, zpl_mat3 const &b) { return (a = a * b); }
-
-
-
-ZPL_INLINE zpl_mat4 operator+(zpl_mat4 const &a, zpl_mat4 const &b) {
-    int i, j;
-    zpl_mat4 r = {0};
-    for (j = 0; j < 4; j++) {
-        for (i = 0; i < 4; i++)
-            r.e[4*j+i] = a.e[4*j+i] + b.e[4*j+i];
-    }
-    return r;
-}
-
-ZPL_INLINE zpl_mat4 operator-(zpl_mat4 const &a, zpl_mat4 const &b) {
-    int i, j;
-    zpl_mat4 r = {0};
-    for (j = 0; j < 4; j++) {
-        for (i = 0; i < 4; i++)
-            r.e[4*j+i] = a.e[4*j+i] - b.e[4*j+i];
-    }
-    return r;
-}
-
-ZPL_INLINE zpl_mat4 operator*(zpl_mat4 const &a, zpl_mat4 const &b) { zpl_mat4 r; zpl_mat4_mul(&r, (zpl_mat4 *)&a, (zpl_mat4 *)&b); return r; }
-ZPL_INLINE zpl_vec4 operator*(zpl_mat4 const &a, zpl_vec4 v) { zpl_vec4 r; zpl_mat4_mul_vec4(&r, (zpl_mat4 *)&a, v); return r; }
-ZPL_INLINE zpl_mat4 operator*(zpl_mat4 const &a, float scalar) {
-    zpl_mat4 r = {0};
-    int i;
-    for (i = 0; i < 4*4; i++) r.e[i] = a.e[i] * scalar;
-    return r;
-}
-ZPL_INLINE zpl_mat4 operator*(float scalar, zpl_mat4 const &a) { return operator*(a, scalar); }
-ZPL_INLINE zpl_mat4 operator/(zpl_mat4 const &a, float scalar) { return operator*(a, 1.0f/scalar); }
-
-ZPL_INLINE zpl_mat4& operator+=(zpl_mat4 &a, zpl_mat4 const &b) { return (a = a + b); }
-ZPL_INLINE zpl_mat4& operator-=(zpl_mat4 &a, zpl_mat4 const &b) { return (a = a - b); }
-ZPL_INLINE zpl_mat4& operator*=(zpl_mat4 &a, zpl_mat4 const &b) { return (a = a * b); }
-
-
-
-ZPL_INLINE bool operator==(zpl_quat a, zpl_quat b) { return a.xyzw == b.xyzw; }
-ZPL_INLINE bool operator!=(zpl_quat a, zpl_quat b) { return !operator==(a, b); }
-
-ZPL_INLINE zpl_quat operator+(zpl_quat q) { return q; }
-ZPL_INLINE zpl_quat operator-(zpl_quat q) { return zpl_quatf(-q.x, -q.y, -q.z, -q.w); }
-
-ZPL_INLINE zpl_quat operator+(zpl_quat a, zpl_quat b) { zpl_quat r; zpl_quat_add(&r, a, b); return r; }
-ZPL_INLINE zpl_quat operator-(zpl_quat a, zpl_quat b) { zpl_quat r; zpl_quat_sub(&r, a, b); return r; }
-
-ZPL_INLINE zpl_quat operator*(zpl_quat a, zpl_quat b)  { zpl_quat r; zpl_quat_mul(&r, a, b); return r; }
-ZPL_INLINE zpl_quat operator*(zpl_quat q, float s) { zpl_quat r; zpl_quat_mulf(&r, q, s); return r; }
-ZPL_INLINE zpl_quat operator*(float s, zpl_quat q) { return operator*(q, s); }
-ZPL_INLINE zpl_quat operator/(zpl_quat q, float s) { zpl_quat r; zpl_quat_divf(&r, q, s); return r; }
-
-ZPL_INLINE zpl_quat &operator+=(zpl_quat &a, zpl_quat b) { zpl_quat_addeq(&a, b); return a; }
-ZPL_INLINE zpl_quat &operator-=(zpl_quat &a, zpl_quat b) { zpl_quat_subeq(&a, b); return a; }
-ZPL_INLINE zpl_quat &operator*=(zpl_quat &a, zpl_quat b) { zpl_quat_muleq(&a, b); return a; }
-ZPL_INLINE zpl_quat &operator/=(zpl_quat &a, zpl_quat b) { zpl_quat_diveq(&a, b); return a; }
-
-ZPL_INLINE zpl_quat &operator*=(zpl_quat &a, float b) { zpl_quat_muleqf(&a, b); return a; }
-ZPL_INLINE zpl_quat &operator/=(zpl_quat &a, float b) { zpl_quat_diveqf(&a, b); return a; }
-
-/* Rotate v by a */
-ZPL_INLINE zpl_vec3 operator*(zpl_quat q, zpl_vec3 v) { zpl_vec3 r; zpl_quat_rotate_vec3(&r, q, v); return r; }
-#endif
-
+// file: header/math.h
+
+/** @file math.c
+@brief Math operations
+@defgroup math Math operations
+
+OpenGL gamedev friendly library for math.
+
+@{
+*/
+
+ZPL_BEGIN_C_DECLS
+
+typedef union zpl_vec2 {
+    struct {
+        zpl_f32 x, y;
+    };
+    struct {
+        zpl_f32 s, t;
+    };
+    zpl_f32 e[2];
+} zpl_vec2;
+
+typedef union zpl_vec3 {
+    struct {
+        zpl_f32 x, y, z;
+    };
+    struct {
+        zpl_f32 r, g, b;
+    };
+    struct {
+        zpl_f32 s, t, p;
+    };
+    
+    zpl_vec2 xy;
+    zpl_vec2 st;
+    zpl_f32 e[3];
+} zpl_vec3;
+
+typedef union zpl_vec4 {
+    struct {
+        zpl_f32 x, y, z, w;
+    };
+    struct {
+        zpl_f32 r, g, b, a;
+    };
+    struct {
+        zpl_f32 s, t, p, q;
+    };
+    struct {
+        zpl_vec2 xy, zw;
+    };
+    struct {
+        zpl_vec2 st, pq;
+    };
+    zpl_vec3 xyz;
+    zpl_vec3 rgb;
+    zpl_f32 e[4];
+} zpl_vec4;
+
+typedef union zpl_mat2 {
+    struct {
+        zpl_vec2 x, y;
+    };
+    zpl_vec2 col[2];
+    zpl_f32 e[4];
+} zpl_mat2;
+
+typedef union zpl_mat3 {
+    struct {
+        zpl_vec3 x, y, z;
+    };
+    zpl_vec3 col[3];
+    zpl_f32 e[9];
+} zpl_mat3;
+
+typedef union zpl_mat4 {
+    struct {
+        zpl_vec4 x, y, z, w;
+    };
+    zpl_vec4 col[4];
+    zpl_f32 e[16];
+} zpl_mat4;
+
+typedef union zpl_quat {
+    struct {
+        zpl_f32 x, y, z, w;
+    };
+    zpl_vec4 xyzw;
+    zpl_vec3 xyz;
+    zpl_f32 e[4];
+} zpl_quat;
+
+typedef union zpl_plane {
+    struct {
+        zpl_f32 a, b, c, d;
+    };
+    zpl_vec4 xyzw;
+    zpl_vec3 n;
+    zpl_f32 e[4];
+} zpl_plane;
+
+typedef struct zpl_frustum {
+    zpl_plane x1;
+    zpl_plane x2;
+    zpl_plane y1;
+    zpl_plane y2;
+    zpl_plane z1;
+    zpl_plane z2;
+} zpl_frustum;
+
+typedef zpl_f32 zpl_float2[2];
+typedef zpl_f32 zpl_float3[3];
+typedef zpl_f32 zpl_float4[4];
+
+typedef struct zpl_rect2 {
+    zpl_vec2 pos, dim;
+} zpl_rect2;
+typedef struct zpl_rect3 {
+    zpl_vec3 pos, dim;
+} zpl_rect3;
+
+typedef struct zpl_aabb2 {
+    zpl_vec2 min, max;
+} zpl_aabb2;
+typedef struct zpl_aabb3 {
+    zpl_vec3 min, max;
+} zpl_aabb3;
+
+typedef short zpl_half;
+
+#ifndef ZPL_CONSTANTS
+#define ZPL_CONSTANTS
+#define ZPL_EPSILON    1.19209290e-7f
+#define ZPL_ZERO       0.0f
+#define ZPL_ONE        1.0f
+#define ZPL_TWO_THIRDS 0.666666666666666666666666666666666666667f
+
+#define ZPL_TAU          6.28318530717958647692528676655900576f
+#define ZPL_PI           3.14159265358979323846264338327950288f
+#define ZPL_ONE_OVER_TAU 0.159154943091895335768883763372514362f
+#define ZPL_ONE_OVER_PI  0.318309886183790671537767526745028724f
+
+#define ZPL_TAU_OVER_2 3.14159265358979323846264338327950288f
+#define ZPL_TAU_OVER_4 1.570796326794896619231321691639751442f
+#define ZPL_TAU_OVER_8 0.785398163397448309615660845819875721f
+
+#define ZPL_E          2.71828182845904523536f
+#define ZPL_SQRT_TWO   1.41421356237309504880168872420969808f
+#define ZPL_SQRT_THREE 1.73205080756887729352744634150587236f
+#define ZPL_SQRT_FIVE  2.23606797749978969640917366873127623f
+
+#define ZPL_LOG_TWO 0.693147180559945309417232121458176568f
+#define ZPL_LOG_TEN 2.30258509299404568401799145468436421f
+#endif // ZPL_CONSTANTS
+
+#ifndef zpl_square
+#define zpl_square(x) ((x) * (x))
+#endif
+
+#ifndef zpl_cube
+#define zpl_cube(x) ((x) * (x) * (x))
+#endif
+
+#ifndef zpl_sign
+#define zpl_sign(x) ((x) >= 0.0f ? 1.0f : -1.0f)
+#endif
+
+#ifndef zpl_sign0
+#define zpl_sign0(x) ((x == 0.0f) ? 0.0f : ((x) >= 0.0f ? 1.0f : -1.0f))
+#endif
+
+ZPL_DEF zpl_f32 zpl_to_radians(zpl_f32 degrees);
+ZPL_DEF zpl_f32 zpl_to_degrees(zpl_f32 radians);
+
+/* NOTE: Because to interpolate angles */
+ZPL_DEF zpl_f32 zpl_angle_diff(zpl_f32 radians_a, zpl_f32 radians_b);
+
+ZPL_DEF zpl_f32 zpl_copy_sign(zpl_f32 x, zpl_f32 y);
+ZPL_DEF zpl_f32 zpl_remainder(zpl_f32 x, zpl_f32 y);
+ZPL_DEF zpl_f32 zpl_mod(zpl_f32 x, zpl_f32 y);
+ZPL_DEF zpl_f64 zpl_copy_sign64(zpl_f64 x, zpl_f64 y);
+ZPL_DEF zpl_f64 zpl_floor64(zpl_f64 x);
+ZPL_DEF zpl_f64 zpl_ceil64(zpl_f64 x);
+ZPL_DEF zpl_f64 zpl_round64(zpl_f64 x);
+ZPL_DEF zpl_f64 zpl_remainder64(zpl_f64 x, zpl_f64 y);
+ZPL_DEF zpl_f64 zpl_abs64(zpl_f64 x);
+ZPL_DEF zpl_f64 zpl_sign64(zpl_f64 x);
+ZPL_DEF zpl_f64 zpl_mod64(zpl_f64 x, zpl_f64 y);
+ZPL_DEF zpl_f32 zpl_sqrt(zpl_f32 a);
+ZPL_DEF zpl_f32 zpl_rsqrt(zpl_f32 a);
+ZPL_DEF zpl_f32 zpl_quake_rsqrt(zpl_f32 a); /* NOTE: It's probably better to use 1.0f/zpl_sqrt(a)
+                                     * And for simd, there is usually isqrt functions too!
+                                     */
+ZPL_DEF zpl_f32 zpl_hypot(zpl_f32 x, zpl_f32 y);
+ZPL_DEF zpl_f32 zpl_sin(zpl_f32 radians);
+ZPL_DEF zpl_f32 zpl_cos(zpl_f32 radians);
+ZPL_DEF zpl_f32 zpl_tan(zpl_f32 radians);
+ZPL_DEF zpl_f32 zpl_arcsin(zpl_f32 a);
+ZPL_DEF zpl_f32 zpl_arccos(zpl_f32 a);
+ZPL_DEF zpl_f32 zpl_arctan(zpl_f32 a);
+ZPL_DEF zpl_f32 zpl_arctan2(zpl_f32 y, zpl_f32 x);
+
+ZPL_DEF zpl_f32 zpl_exp(zpl_f32 x);
+ZPL_DEF zpl_f32 zpl_exp2(zpl_f32 x);
+ZPL_DEF zpl_f32 zpl_log(zpl_f32 x);
+ZPL_DEF zpl_f32 zpl_log2(zpl_f32 x);
+ZPL_DEF zpl_f32 zpl_fast_exp(zpl_f32 x);   /* NOTE: Only valid from -1 <= x <= +1 */
+ZPL_DEF zpl_f32 zpl_fast_exp2(zpl_f32 x);  /* NOTE: Only valid from -1 <= x <= +1 */
+ZPL_DEF zpl_f32 zpl_pow(zpl_f32 x, zpl_f32 y); /* x^y */
+
+ZPL_DEF zpl_f32 zpl_round(zpl_f32 x);
+ZPL_DEF zpl_f32 zpl_floor(zpl_f32 x);
+ZPL_DEF zpl_f32 zpl_ceil(zpl_f32 x);
+
+ZPL_DEF zpl_f32  zpl_half_to_float(zpl_half value);
+ZPL_DEF zpl_half zpl_float_to_half(zpl_f32 value);
+
+ZPL_DEF zpl_vec2 zpl_vec2f_zero(void);
+ZPL_DEF zpl_vec2 zpl_vec2f(zpl_f32 x, zpl_f32 y);
+ZPL_DEF zpl_vec2 zpl_vec2fv(zpl_f32 x[2]);
+
+ZPL_DEF zpl_vec3 zpl_vec3f_zero(void);
+ZPL_DEF zpl_vec3 zpl_vec3f(zpl_f32 x, zpl_f32 y, zpl_f32 z);
+ZPL_DEF zpl_vec3 zpl_vec3fv(zpl_f32 x[3]);
+
+ZPL_DEF zpl_vec4 zpl_vec4f_zero(void);
+ZPL_DEF zpl_vec4 zpl_vec4f(zpl_f32 x, zpl_f32 y, zpl_f32 z, zpl_f32 w);
+ZPL_DEF zpl_vec4 zpl_vec4fv(zpl_f32 x[4]);
+
+ZPL_DEF zpl_f32 zpl_vec2_max(zpl_vec2 v);
+ZPL_DEF zpl_f32 zpl_vec2_side(zpl_vec2 p, zpl_vec2 q, zpl_vec2 r);
+ZPL_DEF void zpl_vec2_add(zpl_vec2 *d, zpl_vec2 v0, zpl_vec2 v1);
+ZPL_DEF void zpl_vec2_sub(zpl_vec2 *d, zpl_vec2 v0, zpl_vec2 v1);
+ZPL_DEF void zpl_vec2_mul(zpl_vec2 *d, zpl_vec2 v, zpl_f32 s);
+ZPL_DEF void zpl_vec2_div(zpl_vec2 *d, zpl_vec2 v, zpl_f32 s);
+
+ZPL_DEF zpl_f32 zpl_vec3_max(zpl_vec3 v);
+ZPL_DEF void zpl_vec3_add(zpl_vec3 *d, zpl_vec3 v0, zpl_vec3 v1);
+ZPL_DEF void zpl_vec3_sub(zpl_vec3 *d, zpl_vec3 v0, zpl_vec3 v1);
+ZPL_DEF void zpl_vec3_mul(zpl_vec3 *d, zpl_vec3 v, zpl_f32 s);
+ZPL_DEF void zpl_vec3_div(zpl_vec3 *d, zpl_vec3 v, zpl_f32 s);
+
+ZPL_DEF void zpl_vec4_add(zpl_vec4 *d, zpl_vec4 v0, zpl_vec4 v1);
+ZPL_DEF void zpl_vec4_sub(zpl_vec4 *d, zpl_vec4 v0, zpl_vec4 v1);
+ZPL_DEF void zpl_vec4_mul(zpl_vec4 *d, zpl_vec4 v, zpl_f32 s);
+ZPL_DEF void zpl_vec4_div(zpl_vec4 *d, zpl_vec4 v, zpl_f32 s);
+
+ZPL_DEF void zpl_vec2_addeq(zpl_vec2 *d, zpl_vec2 v);
+ZPL_DEF void zpl_vec2_subeq(zpl_vec2 *d, zpl_vec2 v);
+ZPL_DEF void zpl_vec2_muleq(zpl_vec2 *d, zpl_f32 s);
+ZPL_DEF void zpl_vec2_diveq(zpl_vec2 *d, zpl_f32 s);
+
+ZPL_DEF void zpl_vec3_addeq(zpl_vec3 *d, zpl_vec3 v);
+ZPL_DEF void zpl_vec3_subeq(zpl_vec3 *d, zpl_vec3 v);
+ZPL_DEF void zpl_vec3_muleq(zpl_vec3 *d, zpl_f32 s);
+ZPL_DEF void zpl_vec3_diveq(zpl_vec3 *d, zpl_f32 s);
+
+ZPL_DEF void zpl_vec4_addeq(zpl_vec4 *d, zpl_vec4 v);
+ZPL_DEF void zpl_vec4_subeq(zpl_vec4 *d, zpl_vec4 v);
+ZPL_DEF void zpl_vec4_muleq(zpl_vec4 *d, zpl_f32 s);
+ZPL_DEF void zpl_vec4_diveq(zpl_vec4 *d, zpl_f32 s);
+
+ZPL_DEF zpl_f32 zpl_vec2_dot(zpl_vec2 v0, zpl_vec2 v1);
+ZPL_DEF zpl_f32 zpl_vec3_dot(zpl_vec3 v0, zpl_vec3 v1);
+ZPL_DEF zpl_f32 zpl_vec4_dot(zpl_vec4 v0, zpl_vec4 v1);
+
+ZPL_DEF void zpl_vec2_cross(zpl_f32 *d, zpl_vec2 v0, zpl_vec2 v1);
+ZPL_DEF void zpl_vec3_cross(zpl_vec3 *d, zpl_vec3 v0, zpl_vec3 v1);
+
+ZPL_DEF zpl_f32 zpl_vec2_mag2(zpl_vec2 v);
+ZPL_DEF zpl_f32 zpl_vec3_mag2(zpl_vec3 v);
+ZPL_DEF zpl_f32 zpl_vec4_mag2(zpl_vec4 v);
+
+ZPL_DEF zpl_f32 zpl_vec2_mag(zpl_vec2 v);
+ZPL_DEF zpl_f32 zpl_vec3_mag(zpl_vec3 v);
+ZPL_DEF zpl_f32 zpl_vec4_mag(zpl_vec4 v);
+
+ZPL_DEF void zpl_vec2_norm(zpl_vec2 *d, zpl_vec2 v);
+ZPL_DEF void zpl_vec3_norm(zpl_vec3 *d, zpl_vec3 v);
+ZPL_DEF void zpl_vec4_norm(zpl_vec4 *d, zpl_vec4 v);
+
+ZPL_DEF void zpl_vec2_norm0(zpl_vec2 *d, zpl_vec2 v);
+ZPL_DEF void zpl_vec3_norm0(zpl_vec3 *d, zpl_vec3 v);
+ZPL_DEF void zpl_vec4_norm0(zpl_vec4 *d, zpl_vec4 v);
+
+ZPL_DEF void zpl_vec2_reflect(zpl_vec2 *d, zpl_vec2 i, zpl_vec2 n);
+ZPL_DEF void zpl_vec3_reflect(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n);
+ZPL_DEF void zpl_vec2_refract(zpl_vec2 *d, zpl_vec2 i, zpl_vec2 n, zpl_f32 eta);
+ZPL_DEF void zpl_vec3_refract(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n, zpl_f32 eta);
+
+ZPL_DEF zpl_f32 zpl_vec2_aspect_ratio(zpl_vec2 v);
+
+ZPL_DEF void zpl_mat2_identity(zpl_mat2 *m);
+ZPL_DEF void zpl_float22_identity(zpl_f32 m[2][2]);
+
+ZPL_DEF void    zpl_mat2_transpose(zpl_mat2 *m);
+ZPL_DEF void    zpl_mat2_mul(zpl_mat2 *out, zpl_mat2 *m1, zpl_mat2 *m2);
+ZPL_DEF void    zpl_mat2_mul_vec2(zpl_vec2 *out, zpl_mat2 *m, zpl_vec2 in);
+ZPL_DEF void    zpl_mat2_inverse(zpl_mat2 *out, zpl_mat2 *in);
+ZPL_DEF zpl_f32 zpl_mat2_determinate(zpl_mat2 *m);
+
+ZPL_DEF zpl_mat2   *zpl_mat2_v(zpl_vec2 m[2]);
+ZPL_DEF zpl_mat2   *zpl_mat2_f(zpl_f32 m[2][2]);
+ZPL_DEF zpl_float2 *zpl_float22_m(zpl_mat2 *m);
+ZPL_DEF zpl_float2 *zpl_float22_v(zpl_vec2 m[2]);
+ZPL_DEF zpl_float2 *zpl_float22_4(zpl_f32 m[4]);
+
+ZPL_DEF void zpl_float22_transpose(zpl_f32 (*vec)[2]);
+ZPL_DEF void zpl_float22_mul(zpl_f32 (*out)[2], zpl_f32 (*mat1)[2], zpl_f32 (*mat2)[2]);
+ZPL_DEF void zpl_float22_mul_vec2(zpl_vec2 *out, zpl_f32 m[2][2], zpl_vec2 in);
+
+ZPL_DEF void zpl_mat3_identity(zpl_mat3 *m);
+ZPL_DEF void zpl_float33_identity(zpl_f32 m[3][3]);
+
+ZPL_DEF void    zpl_mat3_transpose(zpl_mat3 *m);
+ZPL_DEF void    zpl_mat3_mul(zpl_mat3 *out, zpl_mat3 *m1, zpl_mat3 *m2);
+ZPL_DEF void    zpl_mat3_mul_vec3(zpl_vec3 *out, zpl_mat3 *m, zpl_vec3 in);
+ZPL_DEF void    zpl_mat3_inverse(zpl_mat3 *out, zpl_mat3 *in);
+ZPL_DEF zpl_f32 zpl_mat3_determinate(zpl_mat3 *m);
+
+ZPL_DEF zpl_mat3   *zpl_mat3_v(zpl_vec3 m[3]);
+ZPL_DEF zpl_mat3   *zpl_mat3_f(zpl_f32 m[3][3]);
+
+ZPL_DEF zpl_float3 *zpl_float33_m(zpl_mat3 *m);
+ZPL_DEF zpl_float3 *zpl_float33_v(zpl_vec3 m[3]);
+ZPL_DEF zpl_float3 *zpl_float33_9(zpl_f32 m[9]);
+
+ZPL_DEF void zpl_float33_transpose(zpl_f32 (*vec)[3]);
+ZPL_DEF void zpl_float33_mul(zpl_f32 (*out)[3], zpl_f32 (*mat1)[3], zpl_f32 (*mat2)[3]);
+ZPL_DEF void zpl_float33_mul_vec3(zpl_vec3 *out, zpl_f32 m[3][3], zpl_vec3 in);
+
+ZPL_DEF void zpl_mat4_identity(zpl_mat4 *m);
+ZPL_DEF void zpl_float44_identity(zpl_f32 m[4][4]);
+ZPL_DEF void zpl_mat4_copy(zpl_mat4* out, zpl_mat4* m);
+
+ZPL_DEF void zpl_mat4_transpose(zpl_mat4 *m);
+ZPL_DEF void zpl_mat4_mul(zpl_mat4 *out, zpl_mat4 *m1, zpl_mat4 *m2);
+ZPL_DEF void zpl_mat4_mul_vec4(zpl_vec4 *out, zpl_mat4 *m, zpl_vec4 in);
+ZPL_DEF void zpl_mat4_inverse(zpl_mat4 *out, zpl_mat4 *in);
+
+ZPL_DEF zpl_mat4 *zpl_mat4_v(zpl_vec4 m[4]);
+ZPL_DEF zpl_mat4 *zpl_mat4_f(zpl_f32 m[4][4]);
+
+ZPL_DEF zpl_float4 *zpl_float44_m(zpl_mat4 *m);
+ZPL_DEF zpl_float4 *zpl_float44_v(zpl_vec4 m[4]);
+ZPL_DEF zpl_float4 *zpl_float44_16(zpl_f32 m[16]);
+
+ZPL_DEF void zpl_float44_transpose(zpl_f32 (*vec)[4]);
+ZPL_DEF void zpl_float44_mul(zpl_f32 (*out)[4], zpl_f32 (*mat1)[4], zpl_f32 (*mat2)[4]);
+ZPL_DEF void zpl_float44_mul_vec4(zpl_vec4 *out, zpl_f32 m[4][4], zpl_vec4 in);
+
+ZPL_DEF void zpl_mat4_axis_angle(zpl_mat4* out, zpl_vec3 v, zpl_f32 angle_radians);
+ZPL_DEF void zpl_mat4_to_translate(zpl_mat4* out, zpl_vec3 v);
+ZPL_DEF void zpl_mat4_to_rotate(zpl_mat4* out, zpl_vec3 v, zpl_f32 angle_radians);
+ZPL_DEF void zpl_mat4_to_scale(zpl_mat4* out, zpl_vec3 v);
+ZPL_DEF void zpl_mat4_to_scalef(zpl_mat4* out, zpl_f32 s);
+ZPL_DEF void zpl_mat4_translate(zpl_mat4* out, zpl_vec3 v);
+ZPL_DEF void zpl_mat4_rotate(zpl_mat4* out, zpl_vec3 v, zpl_f32 angle_radians);
+ZPL_DEF void zpl_mat4_scale(zpl_mat4* out, zpl_vec3 v);
+ZPL_DEF void zpl_mat4_scalef(zpl_mat4 *out, zpl_f32 s);
+ZPL_DEF void zpl_mat4_ortho2d(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top);
+ZPL_DEF void zpl_mat4_ortho3d(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top, zpl_f32 z_near, zpl_f32 z_far);
+ZPL_DEF void zpl_mat4_perspective(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near, zpl_f32 z_far);
+ZPL_DEF void zpl_mat4_infinite_perspective(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near);
+
+ZPL_DEF void zpl_mat4_ortho2d_dx(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top);
+ZPL_DEF void zpl_mat4_ortho3d_dx(zpl_mat4 *out, zpl_f32 left, zpl_f32 right, zpl_f32 bottom, zpl_f32 top, zpl_f32 z_near, zpl_f32 z_far);
+ZPL_DEF void zpl_mat4_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near, zpl_f32 z_far);
+ZPL_DEF void zpl_mat4_infinite_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near);
+
+ZPL_DEF void zpl_mat4_look_at(zpl_mat4 *out, zpl_vec3 eye, zpl_vec3 centre, zpl_vec3 up);
+
+ZPL_DEF void zpl_mat4_look_at_lh(zpl_mat4 *out, zpl_vec3 eye, zpl_vec3 centre, zpl_vec3 up);
+
+ZPL_DEF zpl_quat zpl_quatf(zpl_f32 x, zpl_f32 y, zpl_f32 z, zpl_f32 w);
+ZPL_DEF zpl_quat zpl_quatfv(zpl_f32 e[4]);
+ZPL_DEF zpl_quat zpl_quat_axis_angle(zpl_vec3 axis, zpl_f32 angle_radians);
+ZPL_DEF zpl_quat zpl_quat_euler_angles(zpl_f32 pitch, zpl_f32 yaw, zpl_f32 roll);
+ZPL_DEF zpl_quat zpl_quat_identity(void);
+
+ZPL_DEF void zpl_quat_add(zpl_quat *d, zpl_quat q0, zpl_quat q1);
+ZPL_DEF void zpl_quat_sub(zpl_quat *d, zpl_quat q0, zpl_quat q1);
+ZPL_DEF void zpl_quat_mul(zpl_quat *d, zpl_quat q0, zpl_quat q1);
+ZPL_DEF void zpl_quat_div(zpl_quat *d, zpl_quat q0, zpl_quat q1);
+
+ZPL_DEF void zpl_quat_mulf(zpl_quat *d, zpl_quat q, zpl_f32 s);
+ZPL_DEF void zpl_quat_divf(zpl_quat *d, zpl_quat q, zpl_f32 s);
+
+ZPL_DEF void zpl_quat_addeq(zpl_quat *d, zpl_quat q);
+ZPL_DEF void zpl_quat_subeq(zpl_quat *d, zpl_quat q);
+ZPL_DEF void zpl_quat_muleq(zpl_quat *d, zpl_quat q);
+ZPL_DEF void zpl_quat_diveq(zpl_quat *d, zpl_quat q);
+
+ZPL_DEF void zpl_quat_muleqf(zpl_quat *d, zpl_f32 s);
+ZPL_DEF void zpl_quat_diveqf(zpl_quat *d, zpl_f32 s);
+
+ZPL_DEF zpl_f32 zpl_quat_dot(zpl_quat q0, zpl_quat q1);
+ZPL_DEF zpl_f32 zpl_quat_mag(zpl_quat q);
+
+ZPL_DEF void zpl_quat_norm(zpl_quat *d, zpl_quat q);
+ZPL_DEF void zpl_quat_conj(zpl_quat *d, zpl_quat q);
+ZPL_DEF void zpl_quat_inverse(zpl_quat *d, zpl_quat q);
+
+ZPL_DEF void    zpl_quat_axis(zpl_vec3 *axis, zpl_quat q);
+ZPL_DEF zpl_f32 zpl_quat_angle(zpl_quat q);
+
+ZPL_DEF zpl_f32 zpl_quat_pitch(zpl_quat q);
+ZPL_DEF zpl_f32 zpl_quat_yaw(zpl_quat q);
+ZPL_DEF zpl_f32 zpl_quat_roll(zpl_quat q);
+
+/* NOTE: Rotate v by q */
+ZPL_DEF void zpl_quat_rotate_vec3(zpl_vec3 *d, zpl_quat q, zpl_vec3 v);
+ZPL_DEF void zpl_mat4_from_quat(zpl_mat4 *out, zpl_quat q);
+ZPL_DEF void zpl_quat_from_mat4(zpl_quat *out, zpl_mat4 *m);
+
+/* Plane math. */
+ZPL_DEF zpl_f32 zpl_plane_distance(zpl_plane* p, zpl_vec3 v);
+
+/* Frustum culling. */
+ZPL_DEF void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj);
+ZPL_DEF zpl_b8 zpl_frustum_sphere_inside(zpl_frustum* frustum, zpl_vec3 center, zpl_f32 radius);
+ZPL_DEF zpl_b8 zpl_frustum_point_inside(zpl_frustum* frustum, zpl_vec3 point);
+ZPL_DEF zpl_b8 zpl_frustum_box_inside(zpl_frustum* frustum, zpl_aabb3 box);
+
+/* Interpolations */
+ZPL_DEF zpl_f32 zpl_lerp(zpl_f32 a, zpl_f32 b, zpl_f32 t);
+ZPL_DEF zpl_f32 zpl_unlerp(zpl_f32 t, zpl_f32 a, zpl_f32 b);
+ZPL_DEF zpl_f32 zpl_smooth_step(zpl_f32 a, zpl_f32 b, zpl_f32 t);
+ZPL_DEF zpl_f32 zpl_smoother_step(zpl_f32 a, zpl_f32 b, zpl_f32 t);
+
+ZPL_DEF void zpl_vec2_lerp(zpl_vec2 *d, zpl_vec2 a, zpl_vec2 b, zpl_f32 t);
+ZPL_DEF void zpl_vec3_lerp(zpl_vec3 *d, zpl_vec3 a, zpl_vec3 b, zpl_f32 t);
+ZPL_DEF void zpl_vec4_lerp(zpl_vec4 *d, zpl_vec4 a, zpl_vec4 b, zpl_f32 t);
+
+ZPL_DEF void zpl_vec2_cslerp(zpl_vec2 *d, zpl_vec2 a, zpl_vec2 v0, zpl_vec2 b, zpl_vec2 v1, zpl_f32 t);
+ZPL_DEF void zpl_vec3_cslerp(zpl_vec3 *d, zpl_vec3 a, zpl_vec3 v0, zpl_vec3 b, zpl_vec3 v1, zpl_f32 t);
+ZPL_DEF void zpl_vec2_dcslerp(zpl_vec2 *d, zpl_vec2 a, zpl_vec2 v0, zpl_vec2 b, zpl_vec2 v1, zpl_f32 t);
+ZPL_DEF void zpl_vec3_dcslerp(zpl_vec3 *d, zpl_vec3 a, zpl_vec3 v0, zpl_vec3 b, zpl_vec3 v1, zpl_f32 t);
+
+ZPL_DEF void zpl_quat_lerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
+ZPL_DEF void zpl_quat_nlerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
+ZPL_DEF void zpl_quat_slerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
+ZPL_DEF void zpl_quat_nquad(zpl_quat *d, zpl_quat p, zpl_quat a, zpl_quat b, zpl_quat q, zpl_f32 t);
+ZPL_DEF void zpl_quat_squad(zpl_quat *d, zpl_quat p, zpl_quat a, zpl_quat b, zpl_quat q, zpl_f32 t);
+ZPL_DEF void zpl_quat_slerp_approx(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t);
+ZPL_DEF void zpl_quat_squad_approx(zpl_quat *d, zpl_quat p, zpl_quat a, zpl_quat b, zpl_quat q, zpl_f32 t);
+
+/* rects */
+ZPL_DEF zpl_rect2 zpl_rect2f(zpl_vec2 pos, zpl_vec2 dim);
+ZPL_DEF zpl_rect3 zpl_rect3f(zpl_vec3 pos, zpl_vec3 dim);
+
+ZPL_DEF zpl_aabb2 zpl_aabb2f(zpl_f32 minx, zpl_f32 miny, zpl_f32 maxx, zpl_f32 maxy);
+ZPL_DEF zpl_aabb3 zpl_aabb3f(zpl_f32 minx, zpl_f32 miny, zpl_f32 minz, zpl_f32 maxx, zpl_f32 maxy, zpl_f32 maxz);
+
+ZPL_DEF zpl_aabb2 zpl_aabb2_rect2(zpl_rect2 a);
+ZPL_DEF zpl_aabb3 zpl_aabb3_rect3(zpl_rect3 a);
+ZPL_DEF zpl_rect2 zpl_rect2_aabb2(zpl_aabb2 a);
+ZPL_DEF zpl_rect3 zpl_rect3_aabb3(zpl_aabb3 a);
+
+ZPL_DEF int zpl_rect2_contains(zpl_rect2 a, zpl_f32 x, zpl_f32 y);
+ZPL_DEF int zpl_rect2_contains_vec2(zpl_rect2 a, zpl_vec2 p);
+ZPL_DEF int zpl_rect2_intersects(zpl_rect2 a, zpl_rect2 b);
+ZPL_DEF int zpl_rect2_intersection_result(zpl_rect2 a, zpl_rect2 b, zpl_rect2 *intersection);
+ZPL_DEF int zpl_aabb2_contains(zpl_aabb2 a, zpl_f32 x, zpl_f32 y);
+ZPL_DEF int zpl_aabb3_contains(zpl_aabb3 a, zpl_f32 x, zpl_f32 y, zpl_f32 z);
+
+/* rectangle partitioning: based on https://halt.software/dead-simple-layouts/ */
+ZPL_DEF zpl_aabb2 zpl_aabb2_cut_left(zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_cut_right(zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_cut_top(zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_cut_bottom(zpl_aabb2 *a, zpl_f32 b);
+
+ZPL_DEF zpl_aabb2 zpl_aabb2_get_left(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_get_right(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_get_top(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_get_bottom(const zpl_aabb2 *a, zpl_f32 b);
+
+ZPL_DEF zpl_aabb2 zpl_aabb2_add_left(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_add_right(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_add_top(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_add_bottom(const zpl_aabb2 *a, zpl_f32 b);
+
+ZPL_DEF zpl_aabb2 zpl_aabb2_contract(const zpl_aabb2 *a, zpl_f32 b);
+ZPL_DEF zpl_aabb2 zpl_aabb2_expand(const zpl_aabb2 *a, zpl_f32 b);
+
+//! @}
+ZPL_END_C_DECLS
+#if defined(__cplusplus)
+ZPL_INLINE bool operator==(zpl_vec2 a, zpl_vec2 b) { return (a.x == b.x) && (a.y == b.y); }
+ZPL_INLINE bool operator!=(zpl_vec2 a, zpl_vec2 b) { return !operator==(a, b); }
+
+ZPL_INLINE zpl_vec2 operator+(zpl_vec2 a) { return a; }
+ZPL_INLINE zpl_vec2 operator-(zpl_vec2 a) { zpl_vec2 r = {-a.x, -a.y}; return r; }
+
+ZPL_INLINE zpl_vec2 operator+(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r; zpl_vec2_add(&r, a, b); return r; }
+ZPL_INLINE zpl_vec2 operator-(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r; zpl_vec2_sub(&r, a, b); return r; }
+
+ZPL_INLINE zpl_vec2 operator*(zpl_vec2 a, float scalar) { zpl_vec2 r; zpl_vec2_mul(&r, a, scalar); return r; }
+ZPL_INLINE zpl_vec2 operator*(float scalar, zpl_vec2 a) { return operator*(a, scalar); }
+
+ZPL_INLINE zpl_vec2 operator/(zpl_vec2 a, float scalar) { return operator*(a, 1.0f/scalar); }
+
+/* Hadamard Product */
+ZPL_INLINE zpl_vec2 operator*(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r = {a.x*b.x, a.y*b.y}; return r; }
+ZPL_INLINE zpl_vec2 operator/(zpl_vec2 a, zpl_vec2 b) { zpl_vec2 r = {a.x/b.x, a.y/b.y}; return r; }
+
+ZPL_INLINE zpl_vec2 &operator+=(zpl_vec2 &a, zpl_vec2 b)       { return (a = a + b); }
+ZPL_INLINE zpl_vec2 &operator-=(zpl_vec2 &a, zpl_vec2 b)       { return (a = a - b); }
+ZPL_INLINE zpl_vec2 &operator*=(zpl_vec2 &a, float scalar) { return (a = a * scalar); }
+ZPL_INLINE zpl_vec2 &operator/=(zpl_vec2 &a, float scalar) { return (a = a / scalar); }
+
+
+ZPL_INLINE bool operator==(zpl_vec3 a, zpl_vec3 b) { return (a.x == b.x) && (a.y == b.y) && (a.z == b.z); }
+ZPL_INLINE bool operator!=(zpl_vec3 a, zpl_vec3 b) { return !operator==(a, b); }
+
+ZPL_INLINE zpl_vec3 operator+(zpl_vec3 a) { return a; }
+ZPL_INLINE zpl_vec3 operator-(zpl_vec3 a) { zpl_vec3 r = {-a.x, -a.y, -a.z}; return r; }
+
+ZPL_INLINE zpl_vec3 operator+(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r; zpl_vec3_add(&r, a, b); return r; }
+ZPL_INLINE zpl_vec3 operator-(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r; zpl_vec3_sub(&r, a, b); return r; }
+
+ZPL_INLINE zpl_vec3 operator*(zpl_vec3 a, float scalar) { zpl_vec3 r; zpl_vec3_mul(&r, a, scalar); return r; }
+ZPL_INLINE zpl_vec3 operator*(float scalar, zpl_vec3 a) { return operator*(a, scalar); }
+
+ZPL_INLINE zpl_vec3 operator/(zpl_vec3 a, float scalar) { return operator*(a, 1.0f/scalar); }
+
+/* Hadamard Product */
+ZPL_INLINE zpl_vec3 operator*(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r = {a.x*b.x, a.y*b.y, a.z*b.z}; return r; }
+ZPL_INLINE zpl_vec3 operator/(zpl_vec3 a, zpl_vec3 b) { zpl_vec3 r = {a.x/b.x, a.y/b.y, a.z/b.z}; return r; }
+
+ZPL_INLINE zpl_vec3 &operator+=(zpl_vec3 &a, zpl_vec3 b)       { return (a = a + b); }
+ZPL_INLINE zpl_vec3 &operator-=(zpl_vec3 &a, zpl_vec3 b)       { return (a = a - b); }
+ZPL_INLINE zpl_vec3 &operator*=(zpl_vec3 &a, float scalar) { return (a = a * scalar); }
+ZPL_INLINE zpl_vec3 &operator/=(zpl_vec3 &a, float scalar) { return (a = a / scalar); }
+
+
+ZPL_INLINE bool operator==(zpl_vec4 a, zpl_vec4 b) { return (a.x == b.x) && (a.y == b.y) && (a.z == b.z) && (a.w == b.w); }
+ZPL_INLINE bool operator!=(zpl_vec4 a, zpl_vec4 b) { return !operator==(a, b); }
+
+ZPL_INLINE zpl_vec4 operator+(zpl_vec4 a) { return a; }
+ZPL_INLINE zpl_vec4 operator-(zpl_vec4 a) { zpl_vec4 r = {-a.x, -a.y, -a.z, -a.w}; return r; }
+
+ZPL_INLINE zpl_vec4 operator+(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r; zpl_vec4_add(&r, a, b); return r; }
+ZPL_INLINE zpl_vec4 operator-(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r; zpl_vec4_sub(&r, a, b); return r; }
+
+ZPL_INLINE zpl_vec4 operator*(zpl_vec4 a, float scalar) { zpl_vec4 r; zpl_vec4_mul(&r, a, scalar); return r; }
+ZPL_INLINE zpl_vec4 operator*(float scalar, zpl_vec4 a) { return operator*(a, scalar); }
+
+ZPL_INLINE zpl_vec4 operator/(zpl_vec4 a, float scalar) { return operator*(a, 1.0f/scalar); }
+
+/* Hadamard Product */
+ZPL_INLINE zpl_vec4 operator*(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r = {a.x*b.x, a.y*b.y, a.z*b.z, a.w*b.w}; return r; }
+ZPL_INLINE zpl_vec4 operator/(zpl_vec4 a, zpl_vec4 b) { zpl_vec4 r = {a.x/b.x, a.y/b.y, a.z/b.z, a.w/b.w}; return r; }
+
+ZPL_INLINE zpl_vec4 &operator+=(zpl_vec4 &a, zpl_vec4 b)       { return (a = a + b); }
+ZPL_INLINE zpl_vec4 &operator-=(zpl_vec4 &a, zpl_vec4 b)       { return (a = a - b); }
+ZPL_INLINE zpl_vec4 &operator*=(zpl_vec4 &a, float scalar) { return (a = a * scalar); }
+ZPL_INLINE zpl_vec4 &operator/=(zpl_vec4 &a, float scalar) { return (a = a / scalar); }
+
+
+ZPL_INLINE zpl_mat2 operator+(zpl_mat2 const &a, zpl_mat2 const &b) {
+    int i, j;
+    zpl_mat2 r = {0};
+    for (j = 0; j < 2; j++) {
+        for (i = 0; i < 2; i++)
+            r.e[2*j+i] = a.e[2*j+i] + b.e[2*j+i];
+    }
+    return r;
+}
+
+ZPL_INLINE zpl_mat2 operator-(zpl_mat2 const &a, zpl_mat2 const &b) {
+    int i, j;
+    zpl_mat2 r = {0};
+    for (j = 0; j < 2; j++) {
+        for (i = 0; i < 2; i++)
+            r.e[2*j+i] = a.e[2*j+i] - b.e[2*j+i];
+    }
+    return r;
+}
+
+ZPL_INLINE zpl_mat2 operator*(zpl_mat2 const &a, zpl_mat2 const &b) { zpl_mat2 r; zpl_mat2_mul(&r, (zpl_mat2 *)&a, (zpl_mat2 *)&b); return r; }
+ZPL_INLINE zpl_vec2 operator*(zpl_mat2 const &a, zpl_vec2 v) { zpl_vec2 r; zpl_mat2_mul_vec2(&r, (zpl_mat2 *)&a, v); return r; }
+ZPL_INLINE zpl_mat2 operator*(zpl_mat2 const &a, float scalar) {
+    zpl_mat2 r = {0};
+    int i;
+    for (i = 0; i < 2*2; i++) r.e[i] = a.e[i] * scalar;
+    return r;
+}
+ZPL_INLINE zpl_mat2 operator*(float scalar, zpl_mat2 const &a) { return operator*(a, scalar); }
+ZPL_INLINE zpl_mat2 operator/(zpl_mat2 const &a, float scalar) { return operator*(a, 1.0f/scalar); }
+
+ZPL_INLINE zpl_mat2& operator+=(zpl_mat2& a, zpl_mat2 const &b) { return (a = a + b); }
+ZPL_INLINE zpl_mat2& operator-=(zpl_mat2& a, zpl_mat2 const &b) { return (a = a - b); }
+ZPL_INLINE zpl_mat2& operator*=(zpl_mat2& a, zpl_mat2 const &b) { return (a = a * b); }
+
+
+
+ZPL_INLINE zpl_mat3 operator+(zpl_mat3 const &a, zpl_mat3 const &b) {
+    int i, j;
+    zpl_mat3 r = {0};
+    for (j = 0; j < 3; j++) {
+        for (i = 0; i < 3; i++)
+            r.e[3*j+i] = a.e[3*j+i] + b.e[3*j+i];
+    }
+    return r;
+}
+
+ZPL_INLINE zpl_mat3 operator-(zpl_mat3 const &a, zpl_mat3 const &b) {
+    int i, j;
+    zpl_mat3 r = {0};
+    for (j = 0; j < 3; j++) {
+        for (i = 0; i < 3; i++)
+            r.e[3*j+i] = a.e[3*j+i] - b.e[3*j+i];
+    }
+    return r;
+}
+
+ZPL_INLINE zpl_mat3 operator*(zpl_mat3 const &a, zpl_mat3 const &b) { zpl_mat3 r; zpl_mat3_mul(&r, (zpl_mat3 *)&a, (zpl_mat3 *)&b); return r; }
+ZPL_INLINE zpl_vec3 operator*(zpl_mat3 const &a, zpl_vec3 v) { zpl_vec3 r; zpl_mat3_mul_vec3(&r, (zpl_mat3 *)&a, v); return r; }
+ZPL_INLINE zpl_mat3 operator*(zpl_mat3 const &a, float scalar) {
+    zpl_mat3 r = {0};
+    int i;
+    for (i = 0; i < 3*3; i++) r.e[i] = a.e[i] * scalar;
+    return r;
+}
+ZPL_INLINE zpl_mat3 operator*(float scalar, zpl_mat3 const &a) { return operator*(a, scalar); }
+ZPL_INLINE zpl_mat3 operator/(zpl_mat3 const &a, float scalar) { return operator*(a, 1.0f/scalar); }
+
+ZPL_INLINE zpl_mat3& operator+=(zpl_mat3& a, zpl_mat3 const &b) { return (a = a + b); }
+ZPL_INLINE zpl_mat3& operator-=(zpl_mat3& a, zpl_mat3 const &b) { return (a = a - b); }
+ZPL_INLINE zpl_mat3& operator*=(zpl_mat3& a, zpl_mat3 const &b) { return (a = a * b); }
+
+
+
+ZPL_INLINE zpl_mat4 operator+(zpl_mat4 const &a, zpl_mat4 const &b) {
+    int i, j;
+    zpl_mat4 r = {0};
+    for (j = 0; j < 4; j++) {
+        for (i = 0; i < 4; i++)
+            r.e[4*j+i] = a.e[4*j+i] + b.e[4*j+i];
+    }
+    return r;
+}
+
+ZPL_INLINE zpl_mat4 operator-(zpl_mat4 const &a, zpl_mat4 const &b) {
+    int i, j;
+    zpl_mat4 r = {0};
+    for (j = 0; j < 4; j++) {
+        for (i = 0; i < 4; i++)
+            r.e[4*j+i] = a.e[4*j+i] - b.e[4*j+i];
+    }
+    return r;
+}
+
+ZPL_INLINE zpl_mat4 operator*(zpl_mat4 const &a, zpl_mat4 const &b) { zpl_mat4 r; zpl_mat4_mul(&r, (zpl_mat4 *)&a, (zpl_mat4 *)&b); return r; }
+ZPL_INLINE zpl_vec4 operator*(zpl_mat4 const &a, zpl_vec4 v) { zpl_vec4 r; zpl_mat4_mul_vec4(&r, (zpl_mat4 *)&a, v); return r; }
+ZPL_INLINE zpl_mat4 operator*(zpl_mat4 const &a, float scalar) {
+    zpl_mat4 r = {0};
+    int i;
+    for (i = 0; i < 4*4; i++) r.e[i] = a.e[i] * scalar;
+    return r;
+}
+ZPL_INLINE zpl_mat4 operator*(float scalar, zpl_mat4 const &a) { return operator*(a, scalar); }
+ZPL_INLINE zpl_mat4 operator/(zpl_mat4 const &a, float scalar) { return operator*(a, 1.0f/scalar); }
+
+ZPL_INLINE zpl_mat4& operator+=(zpl_mat4 &a, zpl_mat4 const &b) { return (a = a + b); }
+ZPL_INLINE zpl_mat4& operator-=(zpl_mat4 &a, zpl_mat4 const &b) { return (a = a - b); }
+ZPL_INLINE zpl_mat4& operator*=(zpl_mat4 &a, zpl_mat4 const &b) { return (a = a * b); }
+
+
+
+ZPL_INLINE bool operator==(zpl_quat a, zpl_quat b) { return a.xyzw == b.xyzw; }
+ZPL_INLINE bool operator!=(zpl_quat a, zpl_quat b) { return !operator==(a, b); }
+
+ZPL_INLINE zpl_quat operator+(zpl_quat q) { return q; }
+ZPL_INLINE zpl_quat operator-(zpl_quat q) { return zpl_quatf(-q.x, -q.y, -q.z, -q.w); }
+
+ZPL_INLINE zpl_quat operator+(zpl_quat a, zpl_quat b) { zpl_quat r; zpl_quat_add(&r, a, b); return r; }
+ZPL_INLINE zpl_quat operator-(zpl_quat a, zpl_quat b) { zpl_quat r; zpl_quat_sub(&r, a, b); return r; }
+
+ZPL_INLINE zpl_quat operator*(zpl_quat a, zpl_quat b)  { zpl_quat r; zpl_quat_mul(&r, a, b); return r; }
+ZPL_INLINE zpl_quat operator*(zpl_quat q, float s) { zpl_quat r; zpl_quat_mulf(&r, q, s); return r; }
+ZPL_INLINE zpl_quat operator*(float s, zpl_quat q) { return operator*(q, s); }
+ZPL_INLINE zpl_quat operator/(zpl_quat q, float s) { zpl_quat r; zpl_quat_divf(&r, q, s); return r; }
+
+ZPL_INLINE zpl_quat &operator+=(zpl_quat &a, zpl_quat b) { zpl_quat_addeq(&a, b); return a; }
+ZPL_INLINE zpl_quat &operator-=(zpl_quat &a, zpl_quat b) { zpl_quat_subeq(&a, b); return a; }
+ZPL_INLINE zpl_quat &operator*=(zpl_quat &a, zpl_quat b) { zpl_quat_muleq(&a, b); return a; }
+ZPL_INLINE zpl_quat &operator/=(zpl_quat &a, zpl_quat b) { zpl_quat_diveq(&a, b); return a; }
+
+ZPL_INLINE zpl_quat &operator*=(zpl_quat &a, float b) { zpl_quat_muleqf(&a, b); return a; }
+ZPL_INLINE zpl_quat &operator/=(zpl_quat &a, float b) { zpl_quat_diveqf(&a, b); return a; }
+
+/* Rotate v by a */
+ZPL_INLINE zpl_vec3 operator*(zpl_quat q, zpl_vec3 v) { zpl_vec3 r; zpl_quat_rotate_vec3(&r, q, v); return r; }
+#endif
+
-- 
2.43.0


From 71ca4f9386877bfd557e2d27cf1e4145a8c5e397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 110/146] fix: refraction computed another direction and NaN
 for total reflection

---
 code/source/math.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index dee32a7..52ee9d6 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -572,10 +572,13 @@ void zpl_vec2_refract(zpl_vec2 *d, zpl_vec2 i, zpl_vec2 n, zpl_f32 eta) {
 
     dv = zpl_vec2_dot(n, i);
     k = 1.0f - eta * eta * (1.0f - dv * dv);
+    if (k < 0.0f) { /* total reflection */
+        *d = zpl_vec2f_zero( );
+        return;
+    }
     zpl_vec2_mul(&a, i, eta);
-    zpl_vec2_mul(&b, n, eta * dv * zpl_sqrt(k));
+    zpl_vec2_mul(&b, n, eta * dv + zpl_sqrt(k));
     zpl_vec2_sub(d, a, b);
-    zpl_vec2_muleq(d, (float)(k >= 0.0f));
 }
 
 void zpl_vec3_refract(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n, zpl_f32 eta) {
@@ -584,10 +587,13 @@ void zpl_vec3_refract(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n, zpl_f32 eta) {
 
     dv = zpl_vec3_dot(n, i);
     k = 1.0f - eta * eta * (1.0f - dv * dv);
+    if (k < 0.0f) { /* total reflection */
+        *d = zpl_vec3f_zero( );
+        return;
+    }
     zpl_vec3_mul(&a, i, eta);
-    zpl_vec3_mul(&b, n, eta * dv * zpl_sqrt(k));
+    zpl_vec3_mul(&b, n, eta * dv + zpl_sqrt(k));
     zpl_vec3_sub(d, a, b);
-    zpl_vec3_muleq(d, (float)(k >= 0.0f));
 }
 
 zpl_f32 zpl_vec2_aspect_ratio(zpl_vec2 v) { return (v.y < 0.0001f) ? 0.0f : v.x / v.y; }
-- 
2.43.0


From 6b270a432fb62d3b533e8d945c1bdf52250abc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 111/146] fix: 2x2 and 3x3 matrices multiplied vectors by their
 transpose

---
 code/source/math.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 52ee9d6..fa41116 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -652,8 +652,8 @@ void zpl_float22_mul(zpl_f32 (*out)[2], zpl_f32 (*mat1)[2], zpl_f32 (*mat2)[2])
 }
 
 void zpl_float22_mul_vec2(zpl_vec2 *out, zpl_f32 m[2][2], zpl_vec2 v) {
-    out->x = m[0][0] * v.x + m[0][1] * v.y;
-    out->y = m[1][0] * v.x + m[1][1] * v.y;
+    out->x = m[0][0] * v.x + m[1][0] * v.y;
+    out->y = m[0][1] * v.x + m[1][1] * v.y;
 }
 
 zpl_f32 zpl_mat2_determinate(zpl_mat2 *m) {
@@ -735,9 +735,9 @@ void zpl_float33_mul(zpl_f32 (*out)[3], zpl_f32 (*mat1)[3], zpl_f32 (*mat2)[3])
 }
 
 void zpl_float33_mul_vec3(zpl_vec3 *out, zpl_f32 m[3][3], zpl_vec3 v) {
-    out->x = m[0][0] * v.x + m[0][1] * v.y + m[0][2] * v.z;
-    out->y = m[1][0] * v.x + m[1][1] * v.y + m[1][2] * v.z;
-    out->z = m[2][0] * v.x + m[2][1] * v.y + m[2][2] * v.z;
+    out->x = m[0][0] * v.x + m[1][0] * v.y + m[2][0] * v.z;
+    out->y = m[0][1] * v.x + m[1][1] * v.y + m[2][1] * v.z;
+    out->z = m[0][2] * v.x + m[1][2] * v.y + m[2][2] * v.z;
 }
 
 zpl_f32 zpl_mat3_determinate(zpl_mat3 *m) {
-- 
2.43.0


From 7da934de3eb94ce2dca2aceb0c58aeedc4d91dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 112/146] fix: copying a 2x2 matrix wrote past it

---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index fa41116..807a77e 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -612,7 +612,7 @@ void zpl_float22_identity(zpl_f32 m[2][2]) {
 }
 
 void zpl_mat2_copy(zpl_mat2* out, zpl_mat2* m) {
-    zpl_memcopy(out, m, sizeof(zpl_mat3));
+    zpl_memcopy(out, m, sizeof(zpl_mat2));
 }
 
 void zpl_mat2_mul_vec2(zpl_vec2 *out, zpl_mat2 *m, zpl_vec2 in) { zpl_float22_mul_vec2(out, zpl_float22_m(m), in); }
-- 
2.43.0


From 28d2298bf11aa6f8b298501f961f7c5f18230b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 113/146] fix: the inverse of a 3x3 matrix was transposed

---
 code/source/math.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 807a77e..d70d739 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -756,13 +756,13 @@ void zpl_mat3_inverse(zpl_mat3 *out, zpl_mat3 *in) {
     zpl_f32 ood = 1.0f / zpl_mat3_determinate(in);
 
     o[0][0] = +(i[1][1] * i[2][2] - i[2][1] * i[1][2]) * ood;
-    o[0][1] = -(i[1][0] * i[2][2] - i[2][0] * i[1][2]) * ood;
-    o[0][2] = +(i[1][0] * i[2][1] - i[2][0] * i[1][1]) * ood;
-    o[1][0] = -(i[0][1] * i[2][2] - i[2][1] * i[0][2]) * ood;
+    o[1][0] = -(i[1][0] * i[2][2] - i[2][0] * i[1][2]) * ood;
+    o[2][0] = +(i[1][0] * i[2][1] - i[2][0] * i[1][1]) * ood;
+    o[0][1] = -(i[0][1] * i[2][2] - i[2][1] * i[0][2]) * ood;
     o[1][1] = +(i[0][0] * i[2][2] - i[2][0] * i[0][2]) * ood;
-    o[1][2] = -(i[0][0] * i[2][1] - i[2][0] * i[0][1]) * ood;
-    o[2][0] = +(i[0][1] * i[1][2] - i[1][1] * i[0][2]) * ood;
-    o[2][1] = -(i[0][0] * i[1][2] - i[1][0] * i[0][2]) * ood;
+    o[2][1] = -(i[0][0] * i[2][1] - i[2][0] * i[0][1]) * ood;
+    o[0][2] = +(i[0][1] * i[1][2] - i[1][1] * i[0][2]) * ood;
+    o[1][2] = -(i[0][0] * i[1][2] - i[1][0] * i[0][2]) * ood;
     o[2][2] = +(i[0][0] * i[1][1] - i[1][0] * i[0][1]) * ood;
 }
 
-- 
2.43.0


From 3f34fef47630ad002a5db757a8f8a4a5e1e80fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 114/146] fix: inverting a matrix in place read elements it had
 already replaced

---
 code/source/math.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index d70d739..89ec185 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -663,9 +663,10 @@ zpl_f32 zpl_mat2_determinate(zpl_mat2 *m) {
 
 void zpl_mat2_inverse(zpl_mat2 *out, zpl_mat2 *in) {
     zpl_float2 *o = zpl_float22_m(out);
-    zpl_float2 *i = zpl_float22_m(in);
+    zpl_mat2 copy = *in; /* the result may replace the operand */
+    zpl_float2 *i = zpl_float22_m(&copy);
 
-    zpl_f32 ood = 1.0f / zpl_mat2_determinate(in);
+    zpl_f32 ood = 1.0f / zpl_mat2_determinate(&copy);
 
     o[0][0] = +i[1][1] * ood;
     o[0][1] = -i[0][1] * ood;
@@ -751,9 +752,10 @@ zpl_f32 zpl_mat3_determinate(zpl_mat3 *m) {
 
 void zpl_mat3_inverse(zpl_mat3 *out, zpl_mat3 *in) {
     zpl_float3 *o = zpl_float33_m(out);
-    zpl_float3 *i = zpl_float33_m(in);
+    zpl_mat3 copy = *in; /* the result may replace the operand */
+    zpl_float3 *i = zpl_float33_m(&copy);
 
-    zpl_f32 ood = 1.0f / zpl_mat3_determinate(in);
+    zpl_f32 ood = 1.0f / zpl_mat3_determinate(&copy);
 
     o[0][0] = +(i[1][1] * i[2][2] - i[2][1] * i[1][2]) * ood;
     o[1][0] = -(i[1][0] * i[2][2] - i[2][0] * i[1][2]) * ood;
@@ -857,7 +859,8 @@ void zpl_float44_mul_vec4(zpl_vec4 *out, zpl_f32 m[4][4], zpl_vec4 v) {
 
 void zpl_mat4_inverse(zpl_mat4 *out, zpl_mat4 *in) {
     zpl_float4 *o = zpl_float44_m(out);
-    zpl_float4 *m = zpl_float44_m(in);
+    zpl_mat4 copy = *in; /* the result may replace the operand */
+    zpl_float4 *m = zpl_float44_m(&copy);
 
     zpl_f32 ood;
 
-- 
2.43.0


From b7c4366b1211bda1c77112e1ed210a4ed9377c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 115/146] fix: the near plane of the DirectX perspective was
 not projected to depth zero

---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index 89ec185..f46a23a 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1078,7 +1078,7 @@ void zpl_mat4_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f3
     m[1][1] = 1.0f / (tan_half_fovy);
     m[2][2] = -(z_far ) / (z_far - z_near);
     m[2][3] = -1.0f;
-    m[3][2] = - z_near / (z_far - z_near);
+    m[3][2] = -(z_far * z_near) / (z_far - z_near);
 }
 
 void zpl_mat4_infinite_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near) {
-- 
2.43.0


From 8d65b8dabf0a57fb4f3f823b0105da26febf1d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 116/146] fix: the axis of a quaternion depended on its length

---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index f46a23a..11a065f 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1253,7 +1253,7 @@ void zpl_quat_inverse(zpl_quat *d, zpl_quat q) {
 void zpl_quat_axis(zpl_vec3 *axis, zpl_quat q) {
     zpl_quat n;
     zpl_quat_norm(&n, q);
-    zpl_vec3_div(axis, n.xyz, zpl_sin(zpl_arccos(q.w)));
+    zpl_vec3_div(axis, n.xyz, zpl_sin(zpl_arccos(n.w)));
 }
 
 zpl_f32 zpl_quat_angle(zpl_quat q) {
-- 
2.43.0


From 2405496c595b22982026b8f9701825003a4bc79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 117/146] fix: roll and pitch of a quaternion were other angles

---
 code/source/math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 11a065f..9105b76 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1264,10 +1264,10 @@ zpl_f32 zpl_quat_angle(zpl_quat q) {
 }
 
 zpl_f32 zpl_quat_roll(zpl_quat q) {
-    return zpl_arctan2(2.0f * q.x * q.y + q.z * q.w, q.x * q.x + q.w * q.w - q.y * q.y - q.z * q.z);
+    return zpl_arctan2(2.0f * (q.x * q.y + q.z * q.w), q.x * q.x + q.w * q.w - q.y * q.y - q.z * q.z);
 }
 zpl_f32 zpl_quat_pitch(zpl_quat q) {
-    return zpl_arctan2(2.0f * q.y * q.z + q.w * q.x, q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
+    return zpl_arctan2(2.0f * (q.y * q.z + q.w * q.x), q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 }
 zpl_f32 zpl_quat_yaw(zpl_quat q) { return zpl_arcsin(-2.0f * (q.x * q.z - q.w * q.y)); }
 
-- 
2.43.0


From ab030b138a8feb32d5560522a91dea23f1034e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 118/146] fix: interpolating between equal rotations gave NaN

---
 code/source/math.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 9105b76..39ae607 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1634,9 +1634,10 @@ void zpl_quat_slerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t) {
         cos_theta = -cos_theta;
     }
 
-    if (cos_theta > 1.0f) {
+    if (cos_theta >= 1.0f) {
         /* NOTE: Use lerp not nlerp as it's not a real angle or they are not normalized */
-        zpl_quat_lerp(d, a, b, t);
+        zpl_quat_lerp(d, a, z, t);
+        return;
     }
 
     angle = zpl_arccos(cos_theta);
-- 
2.43.0


From ef1f3e82a03afd898287a243b305c95b616accea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 119/146] fix: frustum planes were made of the wrong matrix
 elements

---
 code/source/math.c | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 39ae607..519c3e3 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1384,16 +1384,16 @@ zpl_f32 zpl_plane_distance(zpl_plane* p, zpl_vec3 v) {
 void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
     zpl_mat4 pv;
 
-    zpl_mat4_mul(&pv, camera, proj);
+    zpl_mat4_mul(&pv, proj, camera);
 
     zpl_plane* fp = 0;
     zpl_f32 rmag;
 
     fp = &out->x1;
     fp->a = pv.x.w + pv.x.x;
-    fp->b = pv.y.w + pv.x.y;
-    fp->c = pv.z.w + pv.x.z;
-    fp->d = pv.w.w + pv.x.w;
+    fp->b = pv.y.w + pv.y.x;
+    fp->c = pv.z.w + pv.z.x;
+    fp->d = pv.w.w + pv.w.x;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1405,9 +1405,9 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
     fp = &out->x2;
 
     fp->a = pv.x.w - pv.x.x;
-    fp->b = pv.y.w - pv.x.y;
-    fp->c = pv.z.w - pv.x.z;
-    fp->d = pv.w.w - pv.x.w;
+    fp->b = pv.y.w - pv.y.x;
+    fp->c = pv.z.w - pv.z.x;
+    fp->d = pv.w.w - pv.w.x;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1418,10 +1418,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->y1;
 
-    fp->a = pv.x.w - pv.y.x;
+    fp->a = pv.x.w - pv.x.y;
     fp->b = pv.y.w - pv.y.y;
-    fp->c = pv.z.w - pv.y.w;
-    fp->d = pv.w.w - pv.y.z;
+    fp->c = pv.z.w - pv.z.y;
+    fp->d = pv.w.w - pv.w.y;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1432,10 +1432,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->y2;
 
-    fp->a = pv.x.w + pv.y.x;
+    fp->a = pv.x.w + pv.x.y;
     fp->b = pv.y.w + pv.y.y;
-    fp->c = pv.z.w + pv.y.z;
-    fp->d = pv.w.w + pv.y.w;
+    fp->c = pv.z.w + pv.z.y;
+    fp->d = pv.w.w + pv.w.y;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1446,10 +1446,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->z1;
 
-    fp->a = pv.x.w + pv.z.x;
-    fp->b = pv.y.w + pv.z.y;
+    fp->a = pv.x.w + pv.x.z;
+    fp->b = pv.y.w + pv.y.z;
     fp->c = pv.z.w + pv.z.z;
-    fp->d = pv.w.w + pv.z.w;
+    fp->d = pv.w.w + pv.w.z;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1460,10 +1460,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->z2;
 
-    fp->a = pv.x.w - pv.z.x;
-    fp->b = pv.y.w - pv.z.y;
+    fp->a = pv.x.w - pv.x.z;
+    fp->b = pv.y.w - pv.y.z;
     fp->c = pv.z.w - pv.z.z;
-    fp->d = pv.w.w - pv.z.w;
+    fp->d = pv.w.w - pv.w.z;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
-- 
2.43.0


From 91dfb479d92c913f93dd26e6026cf9d9e0f15eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 120/146] fix: a box with no corner in the frustum was outside
 even when it enclosed the frustum

---
 code/source/math.c | 64 +++++++++++++---------------------------------
 1 file changed, 18 insertions(+), 46 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 519c3e3..bd6a29d 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1489,53 +1489,25 @@ zpl_b8 zpl_frustum_point_inside(zpl_frustum* frustum, zpl_vec3 point) {
 }
 
 zpl_b8 zpl_frustum_box_inside(zpl_frustum* frustum, zpl_aabb3 aabb) {
-    zpl_vec3 box, center;
-    zpl_vec3 v, b;
-    zpl_vec3_sub(&box, aabb.max, aabb.min);
-    zpl_vec3_diveq(&box, 2.0f);
-    zpl_vec3_add(&center, aabb.min, box);
-
-    b = zpl_vec3f(-box.x, -box.y, -box.z);
-    zpl_vec3_add(&v, b, center);
-
-    if (zpl_frustum_point_inside(frustum, v)) return 1;
-
-    b = zpl_vec3f(+box.x, -box.y, -box.z);
-    zpl_vec3_add(&v, b, center);
-
-    if (zpl_frustum_point_inside(frustum, v)) return 1;
-
-    b = zpl_vec3f(-box.x, +box.y, -box.z);
-    zpl_vec3_add(&v, b, center);
-
-    if (zpl_frustum_point_inside(frustum, v)) return 1;
-
-    b = zpl_vec3f(+box.x, +box.y, -box.z);
-    zpl_vec3_add(&v, b, center);
-
-    if (zpl_frustum_point_inside(frustum, v)) return 1;
-
-    b = zpl_vec3f(+box.x, +box.y, +box.z);
-    zpl_vec3_add(&v, b, center);
-
-    if (zpl_frustum_point_inside(frustum, v)) return 1;
-
-    b = zpl_vec3f(-box.x, +box.y, +box.z);
-    zpl_vec3_add(&v, b, center);
-
-    if (zpl_frustum_point_inside(frustum, v)) return 1;
-
-    b = zpl_vec3f(-box.x, -box.y, +box.z);
-    zpl_vec3_add(&v, b, center);
-
-    if (zpl_frustum_point_inside(frustum, v)) return 1;
-
-    b = zpl_vec3f(+box.x, -box.y, +box.z);
-    zpl_vec3_add(&v, b, center);
-
-    if (zpl_frustum_point_inside(frustum, v)) return 1;
+    zpl_plane *planes[6];
+    int i;
+
+    planes[0] = &frustum->x1;
+    planes[1] = &frustum->x2;
+    planes[2] = &frustum->y1;
+    planes[3] = &frustum->y2;
+    planes[4] = &frustum->z1;
+    planes[5] = &frustum->z2;
+
+    for (i = 0; i < 6; i++) {
+        /* the corner that lies farthest inside this plane */
+        zpl_vec3 v = zpl_vec3f(planes[i]->a > 0 ? aabb.max.x : aabb.min.x,
+                               planes[i]->b > 0 ? aabb.max.y : aabb.min.y,
+                               planes[i]->c > 0 ? aabb.max.z : aabb.min.z);
+        if (zpl_plane_distance(planes[i], v) <= 0.0f) return 0;
+    }
 
-    return 0;
+    return 1;
 }
 
 zpl_f32 zpl_lerp(zpl_f32 a, zpl_f32 b, zpl_f32 t) { return a * (1.0f - t) + b * t; }
-- 
2.43.0


From 37dd0fadbc94bf608ffabe00564c2bc10afe7a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 121/146] fix: contracting and expanding a box compared
 distances from the origin

---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index bd6a29d..bdc05ba 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1818,7 +1818,7 @@ zpl_aabb2 zpl_aabb2_contract(const zpl_aabb2 *a, zpl_f32 b) {
     zpl_vec2_addeq(&r.min, vb);
     zpl_vec2_subeq(&r.max, vb);
 
-    if (zpl_vec2_mag2(r.min) > zpl_vec2_mag2(r.max)) {
+    if (r.min.x > r.max.x || r.min.y > r.max.y) {
         return zpl_aabb2f(0,0,0,0);
     }
     return r;
-- 
2.43.0


From 84330ff6e78ef721f33f0f513a5a1991d4dc1e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:04 +0000
Subject: [PATCH 122/146] fix: the approximate quaternion interpolation was
 corrected the wrong way

---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index bdc05ba..9c30ac5 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1628,7 +1628,7 @@ void zpl_quat_slerp_approx(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t) {
      *             Even works okay for nearly anti-parallel versors!!!
      */
     /* NOTE: Extra interations cannot be used as they require angle^4 which is not worth it to approximate */
-    zpl_f32 tp = t + (1.0f - zpl_quat_dot(a, b)) / 3.0f * t * (-2.0f * t * t + 3.0f * t - 1.0f);
+    zpl_f32 tp = t + (1.0f - zpl_quat_dot(a, b)) / 3.0f * t * (2.0f * t * t - 3.0f * t + 1.0f);
     zpl_quat_nlerp(d, a, b, tp);
 }
 
-- 
2.43.0


From 8e5eed7d5e75774351a80b96781c0ea183c5bea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:43 +0000
Subject: [PATCH 123/146] fix: reading a socket address passed a size where its
 address was wanted

---
 code/source/socket.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/socket.c b/code/source/socket.c
index c40695f..8e6de2b 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -138,7 +138,8 @@ ZPL_DEF zpl_socket zpl_socket_accept(zpl_socket socket, zpl_socket_addr *addr) {
 }
 
 ZPL_DEF zpl_i32 zpl_socket_get_address(zpl_socket socket, zpl_socket_addr *addr) {
-    return getsockname(socket, (struct sockaddr *)addr, (socklen_t *)sizeof(*addr));
+    socklen_t len = sizeof(*addr);
+    return getsockname(socket, (struct sockaddr *)addr, &len);
 }
 
 ZPL_DEF zpl_i32 zpl_socket_get_address_info(zpl_socket_addr *addr, char *host, zpl_i32 host_size, char *service, zpl_i32 service_size) {
@@ -158,7 +159,8 @@ ZPL_DEF zpl_i32 zpl_socket_send_to(zpl_socket socket, zpl_socket_addr *addr, con
 }
 
 ZPL_DEF zpl_i32 zpl_socket_receive_from(zpl_socket socket, zpl_socket_addr *addr, char *buffer, zpl_i32 size) {
-    return recvfrom(socket, buffer, size, 0, (struct sockaddr *)addr, (socklen_t *)sizeof(*addr));
+    socklen_t len = sizeof(*addr);
+    return recvfrom(socket, buffer, size, 0, (struct sockaddr *)addr, addr ? &len : NULL);
 }
 
 ZPL_DEF zpl_i32 zpl_socket_select(zpl_socket socket, zpl_f64 time) {
-- 
2.43.0


From 9a457f03cb6c7da352e3ed0e8d43e328b8a7e7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:43 +0000
Subject: [PATCH 124/146] fix: a socket that could not be set up stayed open

---
 code/source/socket.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/source/socket.c b/code/source/socket.c
index 8e6de2b..721360a 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -68,6 +68,7 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
     if (mode == ZPL_SOCKET_BIND) {
         if (bind(sock, result->ai_addr, (int)result->ai_addrlen) != 0) {
             freeaddrinfo(result);
+            zpl_socket_close(sock);
             return -1;
         }
     }
@@ -77,11 +78,13 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
         DWORD non_blocking = 1;
         if (ioctlsocket(sock, FIONBIO, &non_blocking)) {
             freeaddrinfo(result);
+            zpl_socket_close(sock);
             return -1;
         }
 #   else
         if (fcntl(sock, F_SETFL, O_NONBLOCK) == -1) {
             freeaddrinfo(result);
+            zpl_socket_close(sock);
             return -1;
         }
 #   endif
@@ -90,6 +93,7 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
     if (mode == ZPL_SOCKET_CONNECT) {
         if (connect(sock, result->ai_addr, (int)result->ai_addrlen) != 0 && !(flags & ZPL_SOCKET_NON_BLOCKING)) {
             freeaddrinfo(result);
+            zpl_socket_close(sock);
             return -1;
         }
     }
-- 
2.43.0


From 83f9cee2f5a304d7c3ec9780238e1a3c25d5c809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:43 +0000
Subject: [PATCH 125/146] fix: a refused non-blocking connection was reported
 as a socket

---
 code/source/socket.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/code/source/socket.c b/code/source/socket.c
index 721360a..86f3e41 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -8,6 +8,7 @@ ZPL_BEGIN_C_DECLS
 typedef int socklen_t;
 #else //unix
 #   include <sys/socket.h>
+#   include <errno.h>
 #   include <netdb.h>
 #   include <fcntl.h>
 #   include <unistd.h>
@@ -91,7 +92,12 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
     }
 
     if (mode == ZPL_SOCKET_CONNECT) {
-        if (connect(sock, result->ai_addr, (int)result->ai_addrlen) != 0 && !(flags & ZPL_SOCKET_NON_BLOCKING)) {
+#   if defined(ZPL_SYSTEM_WINDOWS)
+#       define ZPL__SOCKET_PENDING() (WSAGetLastError() == WSAEWOULDBLOCK)
+#   else
+#       define ZPL__SOCKET_PENDING() (errno == EINPROGRESS)
+#   endif
+        if (connect(sock, result->ai_addr, (int)result->ai_addrlen) != 0 && !((flags & ZPL_SOCKET_NON_BLOCKING) && ZPL__SOCKET_PENDING())) {
             freeaddrinfo(result);
             zpl_socket_close(sock);
             return -1;
-- 
2.43.0


From 9b953fec830138fe96f959222c9419eef784f417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:43 +0000
Subject: [PATCH 126/146] fix: sending to a closed connection ended the program

---
 code/source/socket.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/source/socket.c b/code/source/socket.c
index 86f3e41..4102abd 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -18,6 +18,12 @@ typedef int socklen_t;
 #   endif
 #endif
 
+#if defined(MSG_NOSIGNAL)
+#   define ZPL__SOCKET_SEND_FLAGS MSG_NOSIGNAL
+#else
+#   define ZPL__SOCKET_SEND_FLAGS 0
+#endif
+
 ZPL_DEF zpl_socket zpl_socket_init(void) {
 #   if defined(ZPL_SYSTEM_WINDOWS)
     WSADATA winsock_data = {0};
@@ -157,7 +163,7 @@ ZPL_DEF zpl_i32 zpl_socket_get_address_info(zpl_socket_addr *addr, char *host, z
 }
 
 ZPL_DEF zpl_i32 zpl_socket_send(zpl_socket socket, const char *data, zpl_i32 size) {
-    return send(socket, data, size, 0);
+    return send(socket, data, size, ZPL__SOCKET_SEND_FLAGS);
 }
 
 ZPL_DEF zpl_i32 zpl_socket_receive(zpl_socket socket, char *buffer, zpl_i32 size) {
@@ -165,7 +171,7 @@ ZPL_DEF zpl_i32 zpl_socket_receive(zpl_socket socket, char *buffer, zpl_i32 size
 }
 
 ZPL_DEF zpl_i32 zpl_socket_send_to(zpl_socket socket, zpl_socket_addr *addr, const char *data, zpl_i32 size) {
-    return sendto(socket, data, size, 0, (struct sockaddr *)addr, (socklen_t)sizeof(*addr));
+    return sendto(socket, data, size, ZPL__SOCKET_SEND_FLAGS, (struct sockaddr *)addr, (socklen_t)sizeof(*addr));
 }
 
 ZPL_DEF zpl_i32 zpl_socket_receive_from(zpl_socket socket, zpl_socket_addr *addr, char *buffer, zpl_i32 size) {
-- 
2.43.0


From 527d1edac8147149518619cdd0b334017ef44921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:43 +0000
Subject: [PATCH 127/146] fix: waiting on a descriptor past FD_SETSIZE wrote
 out of bounds

---
 code/source/socket.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/source/socket.c b/code/source/socket.c
index 4102abd..9c7cb97 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -183,6 +183,10 @@ ZPL_DEF zpl_i32 zpl_socket_select(zpl_socket socket, zpl_f64 time) {
     fd_set fds;
     struct timeval tv;
 
+#   if !defined(ZPL_SYSTEM_WINDOWS)
+    if (socket >= FD_SETSIZE) return -1;
+#   endif
+
     FD_ZERO(&fds);
     if (socket > -1) FD_SET(socket, &fds);
 
@@ -199,6 +203,9 @@ ZPL_DEF zpl_i32 zpl_socket_multi_select(zpl_socket *sockets, zpl_i32 count, zpl_
 
     FD_ZERO(&fds);
     for (i = 0; i < count; ++i) {
+#   if !defined(ZPL_SYSTEM_WINDOWS)
+        if (sockets[i] >= FD_SETSIZE) return -1;
+#   endif
         if (sockets[i] > max) max = sockets[i];
         if (sockets[i] > -1) FD_SET(sockets[i], &fds);
     }
-- 
2.43.0


From fe18faa39fb71316819e728b82a7d2710d97a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:29 +0000
Subject: [PATCH 128/146] fix: bits 8 to 31 were always reported as reset

---
 code/header/core/misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/misc.h b/code/header/core/misc.h
index b5d50c7..709ac76 100644
--- a/code/header/core/misc.h
+++ b/code/header/core/misc.h
@@ -59,7 +59,7 @@ ZPL_IMPL_INLINE zpl_i32 zpl_next_pow2(zpl_i32 x) {
 }
 
 ZPL_IMPL_INLINE void zpl_bit_set(zpl_u32* x, zpl_u32 bit) { *x = *x | (1 << bit); }
-ZPL_IMPL_INLINE zpl_b8 zpl_bit_get(zpl_u32 x, zpl_u32 bit) { return (x & (1 << bit)); }
+ZPL_IMPL_INLINE zpl_b8 zpl_bit_get(zpl_u32 x, zpl_u32 bit) { return (x >> bit) & 1; }
 ZPL_IMPL_INLINE void zpl_bit_reset(zpl_u32* x, zpl_u32 bit) { *x = *x & ~(1 << bit); }
 
 ZPL_IMPL_INLINE zpl_isize zpl_count_set_bits(zpl_u64 mask) {
-- 
2.43.0


From cea792fde4bc1473400b113f5d7f079c4daa4820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:29 +0000
Subject: [PATCH 129/146] fix: NUL bytes in the output of a command were
 dropped

---
 code/source/core/misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/misc.c b/code/source/core/misc.c
index 2fee10a..50ce05a 100644
--- a/code/source/core/misc.c
+++ b/code/source/core/misc.c
@@ -122,8 +122,8 @@ zpl_string zpl_system_command_str(const char *command, zpl_allocator backing) {
 
         int c;
         while ((c = getc(handle)) != EOF) {
-            char ins[2] = {(char)c,0};
-            output = zpl_string_appendc(output, ins);
+            char ins = (char)c;
+            output = zpl_string_append_length(output, &ins, 1);
         }
 
 #        if defined(ZPL_SYSTEM_WINDOWS)
-- 
2.43.0


From a083205831842e91a57cf0e5fdf04af496b24c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:29 +0000
Subject: [PATCH 130/146] fix: running a command out of memory crashed and left
 its stream open

---
 code/source/core/misc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/core/misc.c b/code/source/core/misc.c
index 50ce05a..656cfce 100644
--- a/code/source/core/misc.c
+++ b/code/source/core/misc.c
@@ -121,9 +121,11 @@ zpl_string zpl_system_command_str(const char *command, zpl_allocator backing) {
         zpl_string output = zpl_string_make_reserve(backing, 4);
 
         int c;
-        while ((c = getc(handle)) != EOF) {
+        while (output && (c = getc(handle)) != EOF) {
             char ins = (char)c;
-            output = zpl_string_append_length(output, &ins, 1);
+            zpl_string next = zpl_string_append_length(output, &ins, 1);
+            if (!next) zpl_string_free(output);
+            output = next;
         }
 
 #        if defined(ZPL_SYSTEM_WINDOWS)
-- 
2.43.0


From 8fd82aeedd8f368f848e00eea43bc8644ce34b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 131/146] fix: an arena that got no memory handed out addresses
 from zero on

---
 code/header/essentials/memory_custom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index b405adf..2f98af6 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -339,7 +339,7 @@ ZPL_IMPL_INLINE void zpl_arena_init_from_memory(zpl_arena *arena, void *start, z
 ZPL_IMPL_INLINE void zpl_arena_init_from_allocator(zpl_arena *arena, zpl_allocator backing, zpl_isize size) {
     arena->backing = backing;
     arena->physical_start = zpl_alloc(backing, size); // NOTE: Uses default alignment
-    arena->total_size = size;
+    arena->total_size = arena->physical_start ? size : 0;
     arena->total_allocated = 0;
     arena->temp_count = 0;
 }
-- 
2.43.0


From bde9e22837d0ae7832a3c97bea33b101c1da8e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 132/146] fix: a stack that got no memory handed out addresses
 from zero on

---
 code/header/essentials/memory_custom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index 2f98af6..e139a56 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -446,7 +446,7 @@ ZPL_IMPL_INLINE void zpl_stack_memory_init_from_memory(zpl_stack_memory *s, void
 ZPL_IMPL_INLINE void zpl_stack_memory_init(zpl_stack_memory *s, zpl_allocator backing, zpl_isize size) {
     s->backing = backing;
     s->physical_start = zpl_alloc(backing, size);
-    s->total_size = size;
+    s->total_size = s->physical_start ? size : 0;
     s->allocated = 0;
 }
 
-- 
2.43.0


From cd53f3196eb00bf29a479b4223686da39f17c3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 133/146] fix: a pool that got no memory crashed

---
 code/source/essentials/memory_custom.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 1f648b4..2c12965 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -228,6 +228,7 @@ void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_bl
     pool_size = num_blocks * actual_block_size;
 
     data = zpl_alloc_align(backing, pool_size, block_align);
+    if (data == NULL) return;
 
     // NOTE: Init intrusive freelist
     curr = data;
@@ -281,6 +282,7 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
 
             actual_block_size = zpl__pool_block_stride(pool);
             pool->total_size = 0;
+            if (pool->physical_start == NULL) break;
 
             // NOTE: Init intrusive freelist
             curr = pool->physical_start;
-- 
2.43.0


From 7abfc1433777f1c8038b0ebc2bf88188c31d3280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:39 +0000
Subject: [PATCH 134/146] fix: array macros went wrong with computed indices,
 arrays behind pointers and a fill value named i

zpl_array_remove_at used its index unparenthesised in count - index - 1.
---
 code/header/essentials/collections/array.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/code/header/essentials/collections/array.h b/code/header/essentials/collections/array.h
index 54c51b9..53bce61 100644
--- a/code/header/essentials/collections/array.h
+++ b/code/header/essentials/collections/array.h
@@ -85,7 +85,7 @@ ZPL_STATIC_ASSERT(ZPL_ARRAY_GROW_FORMULA(0) > 0, "ZPL_ARRAY_GROW_FORMULA(0) <= 0
 #define zpl_array_elem_size(x) (ZPL_ARRAY_HEADER(x)->elem_size)
 #define zpl_array_count(x)     (ZPL_ARRAY_HEADER(x)->count)
 #define zpl_array_capacity(x)  (ZPL_ARRAY_HEADER(x)->capacity)
-#define zpl_array_end(x)       (x + (zpl_array_count(x) - 1))
+#define zpl_array_end(x)       ((x) + (zpl_array_count(x) - 1))
 
 ZPL_IMPL_INLINE zpl_b8 zpl__array_init_reserve(void **zpl__array_, zpl_allocator allocator_, zpl_isize elem_size, zpl_isize cap) {
     zpl_array_header *zpl__ah =
@@ -192,14 +192,15 @@ ZPL_IMPL_INLINE zpl_b8 zpl__array_appendv_at(void **x, void *items, zpl_isize it
 do {                                                                                                               \
     ZPL_ASSERT((begin) >= 0 && (end) <= zpl_array_count(x));                                               \
     ZPL_ASSERT(zpl_size_of(value) == zpl_size_of((x)[0]));                                                    \
-    for (zpl_isize i = (begin); i < (end); i++) { x[i] = value; }                                                  \
+    for (zpl_isize zpl__i = (begin), zpl__e = (end); zpl__i < zpl__e; zpl__i++) { (x)[zpl__i] = (value); }         \
 } while (0)
 
 #define zpl_array_remove_at(x, index)                                                                                  \
 do {                                                                                                               \
     zpl_array_header *zpl__ah = ZPL_ARRAY_HEADER(x);                                                               \
-    ZPL_ASSERT(index < zpl__ah->count);                                                                            \
-    zpl_memmove(x + index, x + index + 1, zpl_size_of(x[0]) * (zpl__ah->count - index - 1));                           \
+    zpl_isize zpl__ai = (index);                                                                                   \
+    ZPL_ASSERT(zpl__ai < zpl__ah->count);                                                                          \
+    zpl_memmove((x) + zpl__ai, (x) + zpl__ai + 1, zpl_size_of((x)[0]) * (zpl__ah->count - zpl__ai - 1));               \
     --zpl__ah->count;                                                                                              \
 } while (0)
 
@@ -218,8 +219,8 @@ do {
     ZPL_ASSERT(ZPL_ARRAY_HEADER(x)->count > 0);                                                                    \
     ZPL_ARRAY_HEADER(x)->count--;                                                                                  \
 } while (0)
-#define zpl_array_back(x) x[ZPL_ARRAY_HEADER(x)->count - 1]
-#define zpl_array_front(x) x[0]
+#define zpl_array_back(x) ((x)[ZPL_ARRAY_HEADER(x)->count - 1])
+#define zpl_array_front(x) ((x)[0])
 #define zpl_array_clear(x)                                                                                             \
 do { ZPL_ARRAY_HEADER(x)->count = 0; } while (0)
 
-- 
2.43.0


From c304abcea11434651a416aebbeb558bed72ea5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:39 +0000
Subject: [PATCH 135/146] fix: buffer macros took only plain operands

---
 code/header/essentials/collections/buffer.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/header/essentials/collections/buffer.h b/code/header/essentials/collections/buffer.h
index 9a0c6bd..11098f2 100644
--- a/code/header/essentials/collections/buffer.h
+++ b/code/header/essentials/collections/buffer.h
@@ -32,18 +32,18 @@ typedef struct zpl_buffer_header {
 #define ZPL_BUFFER_HEADER(x)   (cast(zpl_buffer_header *)(x) - 1)
 #define zpl_buffer_count(x)    (ZPL_BUFFER_HEADER(x)->count)
 #define zpl_buffer_capacity(x) (ZPL_BUFFER_HEADER(x)->capacity)
-#define zpl_buffer_end(x) (x + (zpl_buffer_count(x) - 1))
+#define zpl_buffer_end(x) ((x) + (zpl_buffer_count(x) - 1))
 #define zpl_buffer_allocator(x) (ZPL_BUFFER_HEADER(x)->backing)
 
 #define zpl_buffer_init(x, allocator, cap)                                                                             \
 do {                                                                                                               \
-    void **nx = cast(void **) & (x);                                                                               \
+    void **zpl__nx = cast(void **) & (x);                                                                          \
     zpl_buffer_header *zpl__bh =                                                                                   \
     cast(zpl_buffer_header *) zpl_alloc((allocator), sizeof(zpl_buffer_header) + (cap)*zpl_size_of(*(x)));     \
     zpl__bh->backing = allocator;                                                                                  \
     zpl__bh->count = 0;                                                                                            \
     zpl__bh->capacity = cap;                                                                                       \
-    *nx = cast(void *)(zpl__bh + 1);                                                                               \
+    *zpl__nx = cast(void *)(zpl__bh + 1);                                                                          \
 } while (0)
 
 #define zpl_buffer_free(x) (zpl_free(ZPL_BUFFER_HEADER(x)->backing, ZPL_BUFFER_HEADER(x)))
@@ -54,7 +54,7 @@ do { (x)[zpl_buffer_count(x)++] = (item); } while (0)
 #define zpl_buffer_appendv(x, items, item_count)                                                                       \
 do {                                                                                                               \
     ZPL_ASSERT(zpl_size_of(*(items)) == zpl_size_of(*(x)));                                                        \
-    ZPL_ASSERT(zpl_buffer_count(x) + item_count <= zpl_buffer_capacity(x));                                        \
+    ZPL_ASSERT(zpl_buffer_count(x) + (item_count) <= zpl_buffer_capacity(x));                                      \
     zpl_memcopy(&(x)[zpl_buffer_count(x)], (items), zpl_size_of(*(x)) * (item_count));                             \
     zpl_buffer_count(x) += (item_count);                                                                           \
 } while (0)
@@ -62,7 +62,7 @@ do {
 #define zpl_buffer_copy_init(y, x)                                                                                     \
 do {                                                                                                               \
     zpl_buffer_init(y, zpl_buffer_allocator(x), zpl_buffer_capacity(x));                                   \
-    zpl_memcopy(y, x, zpl_buffer_capacity(x) * zpl_size_of(*x));                                                   \
+    zpl_memcopy((y), (x), zpl_buffer_capacity(x) * zpl_size_of(*(x)));                                             \
     zpl_buffer_count(y) = zpl_buffer_count(x);                                                                     \
 } while (0)
 
-- 
2.43.0


From 96779ecfbfefd7ddf1555b1465c82252226f185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:39 +0000
Subject: [PATCH 136/146] fix: zpl_zero_array cleared the wrong length for a
 computed count

---
 code/header/essentials/memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/memory.h b/code/header/essentials/memory.h
index 4ca13a6..0c85bd0 100644
--- a/code/header/essentials/memory.h
+++ b/code/header/essentials/memory.h
@@ -55,7 +55,7 @@ ZPL_DEF_INLINE void zpl_zero_size(void *ptr, zpl_isize size);
 #define zpl_zero_item(t) zpl_zero_size((t), zpl_size_of(*(t))) // NOTE: Pass pointer of struct
 
 //! Clears up an array.
-#define zpl_zero_array(a, count) zpl_zero_size((a), zpl_size_of(*(a)) * count)
+#define zpl_zero_array(a, count) zpl_zero_size((a), zpl_size_of(*(a)) * (count))
 #endif
 
 //! Copy memory from source to destination.
-- 
2.43.0


From 390a479912b3da07ae3404a07630f9463affa7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:39 +0000
Subject: [PATCH 137/146] fix: zpl_sign0 of a conditional expression returned a
 truth value's sign

---
 code/header/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/math.h b/code/header/math.h
index e5a503c..af0ba6f 100644
--- a/code/header/math.h
+++ b/code/header/math.h
@@ -167,7 +167,7 @@ typedef short zpl_half;
 #endif
 
 #ifndef zpl_sign0
-#define zpl_sign0(x) ((x == 0.0f) ? 0.0f : ((x) >= 0.0f ? 1.0f : -1.0f))
+#define zpl_sign0(x) (((x) == 0.0f) ? 0.0f : ((x) >= 0.0f ? 1.0f : -1.0f))
 #endif
 
 ZPL_DEF zpl_f32 zpl_to_radians(zpl_f32 degrees);
-- 
2.43.0


From f5eef583e1499d84ca99928bba4fd6fa8d648153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:39 +0000
Subject: [PATCH 138/146] fix: zpl_swap could not swap a variable called tmp

---
 code/header/essentials/helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/header/essentials/helpers.h b/code/header/essentials/helpers.h
index 459c7be..abb7768 100644
--- a/code/header/essentials/helpers.h
+++ b/code/header/essentials/helpers.h
@@ -53,9 +53,9 @@ member)
 #ifndef zpl_swap
 #    define zpl_swap(Type, a, b) \
 do {                         \
-Type tmp = (a);          \
+Type zpl__tmp = (a);     \
 (a) = (b);               \
-(b) = tmp;               \
+(b) = zpl__tmp;          \
 } while (0)
 #endif
 
-- 
2.43.0


From bed6840ac10a21ed47f684f1975d98be2effcb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:17 +0000
Subject: [PATCH 139/146] fix: JSON names with a double quote were written
 unescaped and long names not at all

---
 code/source/parsers/json.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index e1618a9..1a76c34 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -475,6 +475,17 @@ zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
     return true;
 }
 
+zpl_internal zpl_b8 zpl__json_write_name(zpl_file *f, char const *name, char const *quote) {
+    zpl_adt_node text = { 0 };
+    text.type = ZPL_ADT_TYPE_STRING;
+    text.string = name;
+    zpl__json_fprintf(f, "%s", quote);
+    /* only double quotes can be escaped in a name */
+    if (zpl_adt_print_string(f, &text, *quote == '"' ? quote : "", "\\")) return false;
+    zpl__json_fprintf(f, "%s", quote);
+    return true;
+}
+
 zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_isize indent, zpl_b32 is_inline, zpl_b32 is_last) {
     zpl_adt_node *node = o;
     if (indent != ZPL_JSON_INDENT_STYLE_COMPACT) indent += 4;
@@ -486,15 +497,15 @@ zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             switch (node->name_style) {
                 case ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE: {
-                    zpl__json_fprintf(f, "\"%s\"", node->name);
+                    if (!zpl__json_write_name(f, node->name, "\"")) return false;
                 } break;
 
                 case ZPL_ADT_NAME_STYLE_SINGLE_QUOTE: {
-                    zpl__json_fprintf(f, "\'%s\'", node->name);
+                    if (!zpl__json_write_name(f, node->name, "'")) return false;
                 } break;
 
                 case ZPL_ADT_NAME_STYLE_NO_QUOTES: {
-                    zpl__json_fprintf(f, "%s", node->name);
+                    if (!zpl__json_write_name(f, node->name, "")) return false;
                 } break;
             }
 
@@ -511,7 +522,8 @@ zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_
                 }
             }
 #else
-            zpl__json_fprintf(f, "\"%s\":%s", node->name, zpl__json_string_space(indent));
+            if (!zpl__json_write_name(f, node->name, "\"")) return false;
+            zpl__json_fprintf(f, ":%s", zpl__json_string_space(indent));
 #endif
         }
     }
-- 
2.43.0


From f136386580fe2bc7fca9e2e599ade48f463003a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:55 +0000
Subject: [PATCH 140/146] fix: zpl_adt_append and zpl_adt_set stored floats as
 integers

---
 code/header/adt.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/header/adt.h b/code/header/adt.h
index 87b3f48..2ac2f8a 100644
--- a/code/header/adt.h
+++ b/code/header/adt.h
@@ -379,11 +379,13 @@ ZPL_DEF zpl_adt_error zpl_adt_print_string(zpl_file *file, zpl_adt_node *node, c
 #define zpl_adt_append(parent, name, value) _Generic((value), \
                                                               char*: zpl_adt_append_str, \
                                                               char const*: zpl_adt_append_str, \
+                                                              zpl_f32: zpl_adt_append_flt, \
                                                               zpl_f64: zpl_adt_append_flt, \
                                                               default: zpl_adt_append_int)(parent, name, value)
 #define zpl_adt_set(obj, name, value) _Generic((value), \
                                                               char*: zpl_adt_set_str, \
                                                               char const*: zpl_adt_set_str, \
+                                                              zpl_f32: zpl_adt_set_flt, \
                                                               zpl_f64: zpl_adt_set_flt, \
                                                               default: zpl_adt_set_int)(obj, name, value)
 #endif
-- 
2.43.0


From 99d5a2160f739086422600a925f356d4d8362e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:26 +0000
Subject: [PATCH 141/146] fix: without parser analysis, written tables lost
 quoted cells that read as numbers or blank rows

---
 code/source/parsers/csv.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 540d801..22fa75b 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -136,6 +136,7 @@ void zpl_csv_free(zpl_csv_object *obj) {
     zpl_adt_destroy_branch(obj);
 }
 
+#ifndef ZPL_PARSER_DISABLE_ANALYSIS
 /* text that would not be read back as one cell, or not as the same one, can only be written quoted */
 static zpl_b32 zpl__csv_needs_quotes(char const *text, char delim) {
     zpl_isize len = zpl_strlen(text);
@@ -146,15 +147,18 @@ static zpl_b32 zpl__csv_needs_quotes(char const *text, char delim) {
     }
     return false;
 }
+#endif
 
 void zpl__csv_write_record(zpl_file *file, zpl_csv_object *node, char delim) {
     switch (node->type) {
         case ZPL_ADT_TYPE_MULTISTRING:
         case ZPL_ADT_TYPE_STRING: {
             char const *text = node->string ? node->string : "";
-            zpl_b32 quoted = zpl__csv_needs_quotes(text, delim);
+            zpl_b32 quoted = true; /* without a recorded style, text is kept from reading as a number */
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-            if (node->name_style != ZPL_ADT_NAME_STYLE_NO_QUOTES) quoted = true;
+            if (node->name_style == ZPL_ADT_NAME_STYLE_NO_QUOTES) quoted = zpl__csv_needs_quotes(text, delim);
+#else
+            zpl_unused(delim);
 #endif
             if (quoted) {
                 zpl_fprintf(file, "\"");
-- 
2.43.0


From b4d636a0cdef9b65ca81110d9a35cbf297d4df66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:59 +0000
Subject: [PATCH 142/146] fix: requests near the largest size overflowed and
 were granted by the arena, scratch and stack allocators

---
 code/source/essentials/memory_custom.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 2c12965..faad756 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -172,8 +172,14 @@ ZPL_ALLOCATOR_PROC(zpl_arena_allocator_proc) {
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
             void *end = zpl_pointer_add(arena->physical_start, arena->total_allocated);
-            zpl_isize total_size = zpl_align_forward_i64(size, alignment);
+            zpl_isize total_size;
 
+            // NOTE: Out of memory, aligning such a size could overflow
+            if (size < 0 || size > arena->total_size - arena->total_allocated) {
+                return NULL;
+            }
+
+            total_size = zpl_align_forward_i64(size, alignment);
             ptr = zpl_align_forward(end, alignment);
             total_size += zpl_pointer_diff(end, ptr);
 
@@ -346,6 +352,7 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
             zpl_b32 wrapped = false;
 
             ZPL_ASSERT(alignment % 4 == 0);
+            if (size < 0 || size > s->total_size) return NULL;
             size = zpl_align_forward_i64(size, zpl_size_of(zpl_allocation_header_ev));
             pt = zpl_align_forward(zpl_pointer_add(data, size), zpl_size_of(zpl_allocation_header_ev));
 
@@ -430,6 +437,9 @@ ZPL_ALLOCATOR_PROC(zpl_stack_allocator_proc) {
 
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
+            // NOTE: such a size could overflow below
+            if (size < 0 || size > ZPL_ISIZE_MAX - cast(zpl_isize)(s->total_size + ZPL_STACK_ALLOC_OFFSET) - alignment) return NULL;
+
             size += ZPL_STACK_ALLOC_OFFSET;
             zpl_u64 alloc_offset = s->allocated;
 
-- 
2.43.0


From d0988fb5ad9cee1515513e2d24f7d108ffa3fa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:37 +0000
Subject: [PATCH 143/146] fix: an array capacity whose size overflows was
 accepted

---
 code/header/essentials/collections/array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/header/essentials/collections/array.h b/code/header/essentials/collections/array.h
index 53bce61..c65f5b5 100644
--- a/code/header/essentials/collections/array.h
+++ b/code/header/essentials/collections/array.h
@@ -88,6 +88,7 @@ ZPL_STATIC_ASSERT(ZPL_ARRAY_GROW_FORMULA(0) > 0, "ZPL_ARRAY_GROW_FORMULA(0) <= 0
 #define zpl_array_end(x)       ((x) + (zpl_array_count(x) - 1))
 
 ZPL_IMPL_INLINE zpl_b8 zpl__array_init_reserve(void **zpl__array_, zpl_allocator allocator_, zpl_isize elem_size, zpl_isize cap) {
+    if (elem_size > 0 && cap > (ZPL_ISIZE_MAX - zpl_size_of(zpl_array_header)) / elem_size) return false;
     zpl_array_header *zpl__ah =
     cast(zpl_array_header *) zpl_alloc(allocator_, zpl_size_of(zpl_array_header) + elem_size * cap);
     if (!zpl__ah) return false;
@@ -115,6 +116,7 @@ do {
 ZPL_IMPL_INLINE zpl_b8 zpl__array_set_capacity(void **array, zpl_isize capacity) {
     zpl_array_header *h = ZPL_ARRAY_HEADER(*array);
     if (capacity == h->capacity) return true;
+    if (h->elem_size > 0 && capacity > (ZPL_ISIZE_MAX - zpl_size_of(zpl_array_header)) / h->elem_size) return false;
     zpl_isize size = zpl_size_of(zpl_array_header) + h->elem_size * capacity;
     zpl_array_header *nh = cast(zpl_array_header *) zpl_alloc(h->allocator, size);
     if (!nh) return false;
-- 
2.43.0


From af0bf10860ad7a54aee7eeca63f53dacdf863720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:37 +0000
Subject: [PATCH 144/146] fix: string capacities near the largest size
 overflowed and were accepted

---
 code/source/core/stringlib.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index 73c2731..3c2fed8 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -5,11 +5,12 @@ ZPL_BEGIN_C_DECLS
 
 zpl_string zpl_string_make_reserve(zpl_allocator a, zpl_isize capacity) {
     zpl_isize header_size = zpl_size_of(zpl_string_header);
-    void *ptr = zpl_alloc(a, header_size + capacity + 1);
+    void *ptr = NULL;
 
     zpl_string str;
     zpl_string_header *header;
 
+    if (capacity < ZPL_ISIZE_MAX - header_size) ptr = zpl_alloc(a, header_size + capacity + 1);
     if (ptr == NULL) return NULL;
     zpl_zero_size(ptr, header_size + capacity + 1);
 
@@ -129,6 +130,8 @@ zpl_string zpl_string_make_space_for(zpl_string str, zpl_isize add_len) {
         zpl_allocator a = ZPL_STRING_HEADER(str)->allocator;
         zpl_string_header *header;
 
+        if (add_len >= ZPL_ISIZE_MAX - zpl_size_of(zpl_string_header) - zpl_string_length(str)) return NULL;
+
         new_len = zpl_string_length(str) + add_len;
         ptr = ZPL_STRING_HEADER(str);
         old_size = zpl_size_of(zpl_string_header) + zpl_string_length(str) + 1;
-- 
2.43.0


From c02d1c7ddfeed74990efffda955f7be4fe9893f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:24 +0000
Subject: [PATCH 145/146] fix: closing a temporary file that could not be made
 closed descriptor 0

---
 code/source/core/file.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index d782df4..bd48e7c 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -444,7 +444,8 @@ zpl_file_error zpl_file_temp(zpl_file *file) {
     fd = tmpfile();
 #endif
 
-    if (fd == NULL) { return ZPL_FILE_ERROR_INVALID; }
+    /* closing a file that could not be made must not close descriptor 0 */
+    if (fd == NULL) { file->fd.i = -1; return ZPL_FILE_ERROR_INVALID; }
 
 #if defined(ZPL_SYSTEM_WINDOWS) && !defined(ZPL_COMPILER_GCC)
     file->fd.i = _get_osfhandle(_fileno(fd));
-- 
2.43.0


From 1739795aa2407deb645b8e3f854948cd843f6af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:28 +0000
Subject: [PATCH 146/146] fix: jobs of the highest priority never started while
 one other priority was kept supplied

---
 code/source/jobs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/source/jobs.c b/code/source/jobs.c
index 5c6319e..4ef53b5 100644
--- a/code/source/jobs.c
+++ b/code/source/jobs.c
@@ -167,13 +167,15 @@ zpl_b32 zpl_jobs_process(zpl_jobs_system *pool) {
         zpl_b32 last_empty = false;
 
         if (status == ZPL_JOBS_STATUS_WAITING) {
+            /* all the queues share the turn, counting them one by one starved the first of two */
+            zpl_u32 turn = pool->counter++;
             for (zpl_usize j = 0; j < ZPL_JOBS_MAX_PRIORITIES; ++j) {
                 zpl_thread_queue *q = &pool->queues[j];
                 if (zpl_jobs_empty(pool, (zpl_jobs_priority)j)) {
                     last_empty = (j+1 == ZPL_JOBS_MAX_PRIORITIES);
                     continue;
                 }
-                if (!last_empty && ((pool->counter++ % q->chance) != 0)) {
+                if (!last_empty && ((turn % q->chance) != 0)) {
                     continue;
                 }
 
-- 
2.43.0

