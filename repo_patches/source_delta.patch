From 3adecb84549099949cbb7acc990e528b7decd173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 01/18] fix: create the built-in global memory only once

The check for an existing buffer was made before taking the host lock and not
repeated, so two threads creating their first context at the same time got two
different "global" buffers, one of which was leaked.
---
 projectm-eval/MemoryBuffer.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 7e21609..412a3b8 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -15,16 +15,17 @@ void prjm_eval_memory_destroy_global()
 
 projectm_eval_mem_buffer prjm_eval_memory_global()
 {
+    projectm_eval_memory_host_lock_mutex();
+
     if (!static_global_memory)
     {
-        projectm_eval_memory_host_lock_mutex();
-
         static_global_memory = prjm_eval_memory_create_buffer();
-
-        projectm_eval_memory_host_unlock_mutex();
     }
+    projectm_eval_mem_buffer buffer = static_global_memory;
+
+    projectm_eval_memory_host_unlock_mutex();
 
-    return static_global_memory;
+    return buffer;
 }
 
 projectm_eval_mem_buffer prjm_eval_memory_create_buffer()
-- 
2.43.0


From c4751c8ea905cc465464326a60afa08644aa01e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 02/18] fix: forget the built-in global memory when it is
 destroyed

Contexts created afterwards used the released buffer, and destroying it again
released it twice.
---
 projectm-eval/MemoryBuffer.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 412a3b8..f15ffd0 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -10,7 +10,14 @@ static projectm_eval_mem_buffer static_global_memory;
 
 void prjm_eval_memory_destroy_global()
 {
-    prjm_eval_memory_destroy_buffer(static_global_memory);
+    projectm_eval_memory_host_lock_mutex();
+
+    projectm_eval_mem_buffer buffer = static_global_memory;
+    static_global_memory = NULL;
+
+    projectm_eval_memory_host_unlock_mutex();
+
+    prjm_eval_memory_destroy_buffer(buffer);
 }
 
 projectm_eval_mem_buffer prjm_eval_memory_global()
-- 
2.43.0


From 41190b13f4a7060ea44f7ab9fa2ad21f86b96826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 03/18] fix: protect the random number generator state with the
 host lock

Contexts executing on different threads share the generator. Unsynchronised use
delivered numbers twice, skipped some and could read past the state array.
---
 projectm-eval/TreeFunctions.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index ecf986d..e4b7b9c 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -1100,7 +1100,12 @@ prjm_eval_function_decl(rand)
         rand_max = 1.;
     }
 
-    assign_ret_val((PRJM_EVAL_F) (prjm_eval_genrand_int32() * (1.0 / (double) 0xFFFFFFFF) * rand_max));
+    /* The generator state is shared by all contexts. */
+    projectm_eval_memory_host_lock_mutex();
+    unsigned int random_number = prjm_eval_genrand_int32();
+    projectm_eval_memory_host_unlock_mutex();
+
+    assign_ret_val((PRJM_EVAL_F) (random_number * (1.0 / (double) 0xFFFFFFFF) * rand_max));
 }
 
 prjm_eval_function_decl(invsqrt)
-- 
2.43.0


From 10b26e7e26937275fad8d946b61971254a5ceae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 04/18] fix: do not pass a reference on to the next while
 iteration or exec3 argument

If the previous evaluation returned a reference to a variable or memory location,
a following expression returning a plain value stored that value in it.
---
 projectm-eval/TreeFunctions.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index e4b7b9c..bcbc6fc 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -284,11 +284,12 @@ prjm_eval_function_decl(execute_while)
 {
     assert_valid_ctx();
 
-    ctx->value = .0;
-    PRJM_EVAL_F* value_ptr = &ctx->value;
+    PRJM_EVAL_F* value_ptr;
     int loop_count_int = MAX_LOOP_COUNT;
     do
     {
+        ctx->value = .0;
+        value_ptr = &ctx->value;
         invoke_arg(0, &value_ptr);
     } while (fabs(*value_ptr) > close_factor_low && --loop_count_int);
 
@@ -330,6 +331,10 @@ prjm_eval_function_decl(exec3)
     PRJM_EVAL_F* value_ptr = &ctx->value;
 
     invoke_arg(0, &value_ptr);
+
+    ctx->value = .0;
+    value_ptr = &ctx->value;
+
     invoke_arg(1, &value_ptr);
     invoke_arg(2, ret_val);
 }
-- 
2.43.0


From 54d3b66b921d873cb033b9411dceefc3fc1845b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 05/18] fix: make freembuf() the documented no-op

It cleared the whole megabuf, wrote 0 to the variable passed as index and left
references to released memory behind in the expression being evaluated.
---
 projectm-eval/TreeFunctions.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index bcbc6fc..77e7b09 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -378,10 +378,11 @@ prjm_eval_function_decl(freembuf)
     assert_valid_ctx();
     assert(ctx->memory_buffer);
 
-    invoke_arg(0, ret_val);
-
-    prjm_eval_memory_free(ctx->memory_buffer);
+    ctx->value = .0;
+    PRJM_EVAL_F* index_ptr = &ctx->value;
+    invoke_arg(0, &index_ptr);
 
+    /* Documented as a no-op: memory may still be referenced by the running expression. */
     assign_ret_val(.0);
 }
 
-- 
2.43.0


From c15cb48940b8fe95a6a36070b065b758ad4b0830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:29 +0000
Subject: [PATCH 06/18] fix: handle memory indices and counts outside the range
 of int

Converting such values to int is undefined and in practice wrapped around, trimming
ranges could overflow, and index -1 was rounded towards zero and accessed location 0.
---
 projectm-eval/MemoryBuffer.c  | 44 ++++++++++++++++++++++++++---------
 projectm-eval/MemoryBuffer.h  | 11 ++++++++-
 projectm-eval/TreeFunctions.c |  3 ++-
 3 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index f15ffd0..16d14e7 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -1,11 +1,15 @@
 #include "MemoryBuffer.h"
 
+#include <math.h>
 #include <stdlib.h>
 #include <string.h>
 
 #define PRJM_EVAL_MEM_BLOCKS 128
 #define PRJM_EVAL_MEM_ITEMSPERBLOCK 65536
 
+/* Largest absolute index or count, 2^52. */
+#define PRJM_EVAL_MEM_MAX_INDEX 4503599627370496LL
+
 static projectm_eval_mem_buffer static_global_memory;
 
 void prjm_eval_memory_destroy_global()
@@ -81,9 +85,27 @@ void prjm_eval_memory_free_block(projectm_eval_mem_buffer buffer, int block)
     }
 }
 
-PRJM_EVAL_F* prjm_eval_memory_allocate(projectm_eval_mem_buffer buffer, int index)
+long long prjm_eval_memory_index(PRJM_EVAL_F value)
+{
+    double index = floor(value + 0.0001);
+
+    if (index > (double) PRJM_EVAL_MEM_MAX_INDEX)
+    {
+        return PRJM_EVAL_MEM_MAX_INDEX;
+    }
+
+    /* Also true for NaN */
+    if (!(index > (double) -PRJM_EVAL_MEM_MAX_INDEX))
+    {
+        return -PRJM_EVAL_MEM_MAX_INDEX;
+    }
+
+    return (long long) index;
+}
+
+PRJM_EVAL_F* prjm_eval_memory_allocate(projectm_eval_mem_buffer buffer, long long index)
 {
-    int block;
+    long long block;
     if (!buffer)
     {
         return NULL;
@@ -120,9 +142,9 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
                                    PRJM_EVAL_F* src,
                                    PRJM_EVAL_F* len)
 {
-    int offset_dest = (int) (*dest + 0.0001);
-    int offset_src = (int) (*src + 0.0001);
-    int count = (int) (*len + 0.0001);
+    long long offset_dest = prjm_eval_memory_index(*dest);
+    long long offset_src = prjm_eval_memory_index(*src);
+    long long count = prjm_eval_memory_index(*len);
 
     // Trim to front if an offset is less than zero.
     if (offset_src < 0)
@@ -143,10 +165,10 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
 
     while (count > 0)
     {
-        int copy_length = count;
+        long long copy_length = count;
 
-        int max_dst_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
-        int max_src_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_src & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+        long long max_dst_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+        long long max_src_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_src & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
 
         if (offset_dest >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK ||
             offset_src >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK)
@@ -189,8 +211,8 @@ PRJM_EVAL_F* prjm_eval_memory_set(projectm_eval_mem_buffer buffer,
                                   PRJM_EVAL_F* value,
                                   PRJM_EVAL_F* len)
 {
-    int offset_dest = (int) (*dest + 0.0001);
-    int count = (int) (*len + 0.0001);
+    long long offset_dest = prjm_eval_memory_index(*dest);
+    long long count = prjm_eval_memory_index(*len);
 
     // Trim to front
     if (offset_dest < 0)
@@ -223,7 +245,7 @@ PRJM_EVAL_F* prjm_eval_memory_set(projectm_eval_mem_buffer buffer,
             break;
         }
 
-        int block_count = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+        long long block_count = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
         if (block_count > count)
         {
             block_count = count;
diff --git a/projectm-eval/MemoryBuffer.h b/projectm-eval/MemoryBuffer.h
index 1417766..474b771 100644
--- a/projectm-eval/MemoryBuffer.h
+++ b/projectm-eval/MemoryBuffer.h
@@ -47,13 +47,22 @@ void prjm_eval_memory_free(projectm_eval_mem_buffer buffer);
  */
 void prjm_eval_memory_free_block(projectm_eval_mem_buffer buffer, int block);
 
+/**
+ * @brief Converts a floating-point value to a memory index or item count.
+ * The value is rounded down, tolerating small inaccuracies. Values too large to be of any use, including NaN, are
+ * limited to a range which can safely be added and subtracted.
+ * @param value The value to convert.
+ * @return The index or count, which may be negative or beyond the size of the buffer.
+ */
+long long prjm_eval_memory_index(PRJM_EVAL_F value);
+
 /**
  * @brief Allocates the appropriate memory block and returns a pointer to the data address for the given index.
  * @param buffer A pointer to the buffer to use.
  * @param index The memory index (offset) to allocate and return a pointer to.
  * @return A pointer to the newly allocated value, or NULL if the allocation failed.
  */
-PRJM_EVAL_F* prjm_eval_memory_allocate(projectm_eval_mem_buffer buffer, int index);
+PRJM_EVAL_F* prjm_eval_memory_allocate(projectm_eval_mem_buffer buffer, long long index);
 
 /**
  * @brief Copies a continuous block of values from one location to another.
diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 77e7b09..80b80a9 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -363,7 +363,8 @@ prjm_eval_function_decl(mem)
     PRJM_EVAL_F* index_ptr = &ctx->value;
     invoke_arg(0, &index_ptr);
 
-    PRJM_EVAL_F* mem_addr = prjm_eval_memory_allocate(ctx->memory_buffer, (int) (*index_ptr + 0.0001));
+    PRJM_EVAL_F* mem_addr = prjm_eval_memory_allocate(ctx->memory_buffer,
+                                                      prjm_eval_memory_index(*index_ptr));
     if (mem_addr)
     {
         assign_ret_ref(mem_addr);
-- 
2.43.0


From 7db07cbec74a9cc25e02d6b086f89e7e8a1b891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:29 +0000
Subject: [PATCH 07/18] fix: limit loop counts before converting them to int

Counts beyond the range of int became negative, so the loop was not run at all.
---
 projectm-eval/TreeFunctions.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 80b80a9..69d14ba 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -263,12 +263,16 @@ prjm_eval_function_decl(execute_loop)
     PRJM_EVAL_F* value_ptr = &ctx->value;
     invoke_arg(0, &value_ptr);
 
-    int loop_count_int = (int) (*value_ptr);
+    int loop_count_int = 0;
     /* Limit execution count */
-    if (loop_count_int > MAX_LOOP_COUNT)
+    if (*value_ptr > MAX_LOOP_COUNT)
     {
         loop_count_int = MAX_LOOP_COUNT;
     }
+    else if (*value_ptr >= 1)
+    {
+        loop_count_int = (int) (*value_ptr);
+    }
 
     for (int i = 0; i < loop_count_int; i++)
     {
-- 
2.43.0


From 62d24b89c7b273c33dfae11f6cb8d29d499d4709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 08/18] fix: do not divide the smallest int by -1 in the modulo
 operators

This raises SIGFPE on common platforms, also while compiling a constant expression.
---
 projectm-eval/TreeFunctions.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 69d14ba..1b5c33d 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -611,7 +611,8 @@ prjm_eval_function_decl(mod)
     invoke_arg(1, &val2_ptr);
 
     int divisor = (int) *val2_ptr;
-    if (divisor == 0)
+    /* The quotient of the smallest int and -1 would overflow. */
+    if (divisor == 0 || divisor == -1)
     {
         assign_ret_val(0.0);
         return;
@@ -812,7 +813,8 @@ prjm_eval_function_decl(modop)
     invoke_arg(1, &val2_ptr);
 
     int divisor = (int) *val2_ptr;
-    if (divisor == 0)
+    /* The quotient of the smallest int and -1 would overflow. */
+    if (divisor == 0 || divisor == -1)
     {
         assign_ret_val(0.0);
         return;
-- 
2.43.0


From 7ad85073fbf521f72edb98da0b35a72b5b86a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 09/18] fix: copy overlapping memory ranges spanning several
 blocks correctly

Blocks were always copied front to back, so moving values up across a block border
overwrote values which were still to be copied.
---
 projectm-eval/MemoryBuffer.c | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 16d14e7..19cd7c8 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -160,6 +160,19 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
         offset_dest = 0;
     }
 
+    // Trim to back if a range reaches beyond the last item.
+    if (count > PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK - offset_src)
+    {
+        count = PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK - offset_src;
+    }
+    if (count > PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK - offset_dest)
+    {
+        count = PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK - offset_dest;
+    }
+
+    // Ranges may overlap: when moving values up, start with the last part to not overwrite values still to be copied.
+    bool backwards = offset_dest > offset_src;
+
     PRJM_EVAL_F* src_pointer;
     PRJM_EVAL_F* dst_pointer;
 
@@ -169,11 +182,10 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
 
         long long max_dst_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
         long long max_src_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_src & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
-
-        if (offset_dest >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK ||
-            offset_src >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK)
+        if (backwards)
         {
-            break;
+            max_dst_len = ((offset_dest + count - 1) & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1)) + 1;
+            max_src_len = ((offset_src + count - 1) & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1)) + 1;
         }
 
         if (copy_length > max_dst_len)
@@ -185,21 +197,21 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
             copy_length = max_src_len;
         }
 
-        if (copy_length < 1)
-        {
-            break;
-        }
+        long long part_offset = backwards ? count - copy_length : 0;
 
-        src_pointer = prjm_eval_memory_allocate(buffer, offset_src);
-        dst_pointer = prjm_eval_memory_allocate(buffer, offset_dest);
+        src_pointer = prjm_eval_memory_allocate(buffer, offset_src + part_offset);
+        dst_pointer = prjm_eval_memory_allocate(buffer, offset_dest + part_offset);
         if (!src_pointer || !dst_pointer)
         {
             break;
         }
 
         memmove(dst_pointer, src_pointer, sizeof(PRJM_EVAL_F) * copy_length);
-        offset_src += copy_length;
-        offset_dest += copy_length;
+        if (!backwards)
+        {
+            offset_src += copy_length;
+            offset_dest += copy_length;
+        }
         count -= copy_length;
     }
 
-- 
2.43.0


From aef893d5165ffac9dbf86c92ae39fc8830cdc57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 10/18] fix: do not print the text of block comments to stdout

The scanner had no rule for it, so flex' default rule echoed it.
---
 projectm-eval/Scanner.c | 133 ++++++++++++++++++++--------------------
 projectm-eval/Scanner.h |   5 +-
 projectm-eval/Scanner.l |   1 +
 3 files changed, 71 insertions(+), 68 deletions(-)

diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index d54c3e8..95b943e 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -347,7 +347,6 @@ struct prjm_eval_scanner_state;
 /* First, we deal with  platform-specific or compiler-specific issues. */
 
 /* begin standard C headers. */
-
 #include <stdio.h>
 #include <string.h>
 #include <errno.h>
@@ -364,8 +363,8 @@ struct prjm_eval_scanner_state;
 
 #if defined (__STDC_VERSION__) && __STDC_VERSION__ >= 199901L
 
-/* C++ systems might need __STDC_LIMIT_MACROS defined before including
- * <stdint.h>, if you want the limit (max/min) macros for int types.
+/* C99 says to define __STDC_LIMIT_MACROS before including stdint.h,
+ * if you want the limit (max/min) macros for int types. 
  */
 #ifndef __STDC_LIMIT_MACROS
 #define __STDC_LIMIT_MACROS 1
@@ -755,8 +754,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 51
-#define YY_END_OF_BUFFER 52
+#define YY_NUM_RULES 52
+#define YY_END_OF_BUFFER 53
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -766,14 +765,14 @@ struct yy_trans_info
 	};
 static const flex_int16_t yy_accept[80] =
     {   0,
-        0,    0,    0,    0,    0,    0,   52,   50,   49,   49,
-       39,   50,   35,   37,   41,   42,   33,   31,   47,   32,
-       50,   34,   13,   46,   48,   29,   40,   30,   45,   14,
-       14,   43,   44,   36,   38,   51,    3,   51,    6,    5,
-       26,    0,   10,    0,    0,   17,   28,   19,   21,   15,
-       16,   13,    1,    4,   20,   13,   13,    0,   24,   23,
-       25,   14,   14,   22,   18,   27,    2,    0,    0,    9,
-        7,   13,    0,   13,   14,    8,   11,   12,    0
+        0,    0,    0,    0,    0,    0,   53,   51,   50,   50,
+       40,   51,   36,   38,   42,   43,   34,   32,   48,   33,
+       51,   35,   14,   47,   49,   30,   41,   31,   46,   15,
+       15,   44,   45,   37,   39,    4,    3,    4,    7,    6,
+       27,    0,   11,    0,    0,   18,   29,   20,   22,   16,
+       17,   14,    1,    5,   21,   14,   14,    0,   25,   24,
+       26,   15,   15,   23,   19,   28,    2,    0,    0,   10,
+        8,   14,    0,   14,   15,    9,   12,   13,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -889,11 +888,11 @@ static const flex_int16_t yy_chk[169] =
 
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[52] =
+static const flex_int32_t yy_rule_can_match_eol[53] =
     {   0,
-0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
+0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
     0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
 
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
@@ -1396,19 +1395,23 @@ YY_RULE_SETUP
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-{ BEGIN(IL_COMMENT); }
+{ }
 	YY_BREAK
 case 5:
-/* rule 5 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); }
+{ BEGIN(IL_COMMENT); }
 	YY_BREAK
 case 6:
+/* rule 6 can match eol */
+YY_RULE_SETUP
+{ BEGIN(INITIAL); }
+	YY_BREAK
+case 7:
 YY_RULE_SETUP
 { }
 	YY_BREAK
 /* Constants */
-case 7:
+case 8:
 YY_RULE_SETUP
 {
                         char* p = yytext + 2;
@@ -1416,34 +1419,34 @@ YY_RULE_SETUP
                         return NUM;
                         }
 	YY_BREAK
-case 8:
+case 9:
 YY_RULE_SETUP
 { yylval->NUM = *(char*)(yytext + 2); return NUM; }
 	YY_BREAK
-case 9:
+case 10:
 YY_RULE_SETUP
 { yylval->NUM = 3.141592653589793f; return NUM; }
 	YY_BREAK
-case 10:
+case 11:
 YY_RULE_SETUP
 { yylval->NUM = 2.71828183f; return NUM; }
 	YY_BREAK
-case 11:
+case 12:
 YY_RULE_SETUP
 { yylval->NUM = 1.61803399f; return NUM; }
 	YY_BREAK
-case 12:
+case 13:
 YY_RULE_SETUP
 { return GMEM; }
 	YY_BREAK
-case 13:
+case 14:
 YY_RULE_SETUP
 {
                         yylval->NUM = atof(yytext);
                         return NUM;
                     }
 	YY_BREAK
-case 14:
+case 15:
 YY_RULE_SETUP
 {
                         if (prjm_eval_compiler_name_is_function(cctx, yytext))
@@ -1456,156 +1459,156 @@ YY_RULE_SETUP
                     }
 	YY_BREAK
 /* Operators */
-case 15:
+case 16:
 YY_RULE_SETUP
 { return ADDOP; }
 	YY_BREAK
-case 16:
+case 17:
 YY_RULE_SETUP
 { return SUBOP; }
 	YY_BREAK
-case 17:
+case 18:
 YY_RULE_SETUP
 { return MODOP; }
 	YY_BREAK
-case 18:
+case 19:
 YY_RULE_SETUP
 { return OROP; }
 	YY_BREAK
-case 19:
+case 20:
 YY_RULE_SETUP
 { return ANDOP; }
 	YY_BREAK
-case 20:
+case 21:
 YY_RULE_SETUP
 { return DIVOP; }
 	YY_BREAK
-case 21:
+case 22:
 YY_RULE_SETUP
 { return MULOP; }
 	YY_BREAK
-case 22:
+case 23:
 YY_RULE_SETUP
 { return POWOP; }
 	YY_BREAK
-case 23:
+case 24:
 YY_RULE_SETUP
 { return EQUAL; }
 	YY_BREAK
-case 24:
+case 25:
 YY_RULE_SETUP
 { return BELEQ; }
 	YY_BREAK
-case 25:
+case 26:
 YY_RULE_SETUP
 { return ABOEQ; }
 	YY_BREAK
-case 26:
+case 27:
 YY_RULE_SETUP
 { return NOTEQ; }
 	YY_BREAK
-case 27:
+case 28:
 YY_RULE_SETUP
 { return BOOLOR; }
 	YY_BREAK
-case 28:
+case 29:
 YY_RULE_SETUP
 { return BOOLAND; }
 	YY_BREAK
-case 29:
+case 30:
 YY_RULE_SETUP
 { return '<'; }
 	YY_BREAK
-case 30:
+case 31:
 YY_RULE_SETUP
 { return '>'; }
 	YY_BREAK
-case 31:
+case 32:
 YY_RULE_SETUP
 { return '+'; }
 	YY_BREAK
-case 32:
+case 33:
 YY_RULE_SETUP
 { return '-'; }
 	YY_BREAK
-case 33:
+case 34:
 YY_RULE_SETUP
 { return '*'; }
 	YY_BREAK
-case 34:
+case 35:
 YY_RULE_SETUP
 { return '/'; }
 	YY_BREAK
-case 35:
+case 36:
 YY_RULE_SETUP
 { return '%'; }
 	YY_BREAK
-case 36:
+case 37:
 YY_RULE_SETUP
 { return '^'; }
 	YY_BREAK
-case 37:
+case 38:
 YY_RULE_SETUP
 { return '%'; }
 	YY_BREAK
-case 38:
+case 39:
 YY_RULE_SETUP
 { return '^'; }
 	YY_BREAK
-case 39:
+case 40:
 YY_RULE_SETUP
 { return '!'; }
 	YY_BREAK
-case 40:
+case 41:
 YY_RULE_SETUP
 { return '='; }
 	YY_BREAK
 /* Syntactic elements */
-case 41:
+case 42:
 YY_RULE_SETUP
 { return '('; }
 	YY_BREAK
-case 42:
+case 43:
 YY_RULE_SETUP
 { return ')'; }
 	YY_BREAK
-case 43:
+case 44:
 YY_RULE_SETUP
 { return '['; }
 	YY_BREAK
-case 44:
+case 45:
 YY_RULE_SETUP
 { return ']'; }
 	YY_BREAK
-case 45:
+case 46:
 YY_RULE_SETUP
 { return '?'; }
 	YY_BREAK
-case 46:
+case 47:
 YY_RULE_SETUP
 { return ':'; }
 	YY_BREAK
-case 47:
+case 48:
 YY_RULE_SETUP
 { return ','; }
 	YY_BREAK
 /* Expression terminator */
-case 48:
+case 49:
 YY_RULE_SETUP
 { return ';'; }
 	YY_BREAK
 /* Ignored whitespace */
-case 49:
-/* rule 49 can match eol */
+case 50:
+/* rule 50 can match eol */
 YY_RULE_SETUP
 { }
 	YY_BREAK
 /* All other tokens are invalid */
-case 50:
+case 51:
 YY_RULE_SETUP
 { return PRJM_EVAL_UNDEF; }
 	YY_BREAK
-case 51:
+case 52:
 YY_RULE_SETUP
 ECHO;
 	YY_BREAK
diff --git a/projectm-eval/Scanner.h b/projectm-eval/Scanner.h
index 0ef2aac..f31467a 100644
--- a/projectm-eval/Scanner.h
+++ b/projectm-eval/Scanner.h
@@ -351,7 +351,6 @@ struct prjm_eval_scanner_state;
 /* First, we deal with  platform-specific or compiler-specific issues. */
 
 /* begin standard C headers. */
-
 #include <stdio.h>
 #include <string.h>
 #include <errno.h>
@@ -368,8 +367,8 @@ struct prjm_eval_scanner_state;
 
 #if defined (__STDC_VERSION__) && __STDC_VERSION__ >= 199901L
 
-/* C++ systems might need __STDC_LIMIT_MACROS defined before including
- * <stdint.h>, if you want the limit (max/min) macros for int types.
+/* C99 says to define __STDC_LIMIT_MACROS before including stdint.h,
+ * if you want the limit (max/min) macros for int types. 
  */
 #ifndef __STDC_LIMIT_MACROS
 #define __STDC_LIMIT_MACROS 1
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index 883c55b..bcf381f 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -49,6 +49,7 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
 "/*"                { BEGIN(ML_COMMENT); }
 <ML_COMMENT>"*/"    { BEGIN(INITIAL); }
 <ML_COMMENT>\n      { }
+<ML_COMMENT>.       { }
 
 "//"                { BEGIN(IL_COMMENT); }
 <IL_COMMENT>\n      { BEGIN(INITIAL); }
-- 
2.43.0


From 9ca60fcbdbc10975adf033a7bfabfebda52298b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 11/18] fix: forget the previous error message when compiling

The message of a failed compilation was still reported after a successful one, and
leaked when another one failed.
---
 projectm-eval/CompileContext.c    | 4 ++++
 projectm-eval/CompilerFunctions.c | 1 +
 2 files changed, 5 insertions(+)

diff --git a/projectm-eval/CompileContext.c b/projectm-eval/CompileContext.c
index 54fbd56..20746a9 100644
--- a/projectm-eval/CompileContext.c
+++ b/projectm-eval/CompileContext.c
@@ -88,6 +88,10 @@ prjm_eval_program_t* prjm_eval_compile_code(prjm_eval_compiler_context_t* cctx,
 {
     yyscan_t scanner;
 
+    /* Forget the error of the previous compilation. */
+    free(cctx->error.error);
+    memset(&cctx->error, 0, sizeof(cctx->error));
+
     prjm_eval_lex_init(&scanner);
     YY_BUFFER_STATE bufferState = prjm_eval__scan_string(code, scanner);
 
diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index 41be59e..3e2bde3 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -15,6 +15,7 @@
 /* Called by yyparse on error. */
 void prjm_eval_error(PRJM_EVAL_LTYPE* loc, prjm_eval_compiler_context_t* cctx, yyscan_t yyscanner, char const* s)
 {
+    free(cctx->error.error);
     cctx->error.error = strdup(s);
     cctx->error.line = loc->first_line;
     cctx->error.column_start = loc->first_column;
-- 
2.43.0


From 0fee39ee08f542c2ada154271f8047363110fd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 12/18] fix: free everything allocated while parsing a rejected
 program

Names, nodes and argument lists on the parser stack were leaked on syntax errors, as
well as the arguments and name of calls with a wrong number of arguments.
---
 projectm-eval/Compiler.c          | 46 ++++++++++++++++++++++++++-----
 projectm-eval/Compiler.h          |  1 -
 projectm-eval/Compiler.y          |  9 ++++--
 projectm-eval/CompilerFunctions.c |  2 ++
 projectm-eval/CompilerFunctions.h |  1 +
 5 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/projectm-eval/Compiler.c b/projectm-eval/Compiler.c
index b7ef064..bdc33a0 100644
--- a/projectm-eval/Compiler.c
+++ b/projectm-eval/Compiler.c
@@ -518,11 +518,11 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_uint8 yyrline[] =
 {
-       0,    77,    77,    78,    88,    92,    93,    97,   101,   102,
-     103,   107,   108,   114,   115,   118,   121,   122,   123,   130,
-     131,   132,   133,   134,   135,   136,   137,   140,   141,   142,
-     143,   144,   145,   148,   149,   152,   155,   158,   161,   162,
-     163,   164,   165,   166,   167,   168,   171,   172,   173,   176
+       0,    82,    82,    83,    93,    97,    98,   102,   106,   107,
+     108,   112,   113,   119,   120,   123,   126,   127,   128,   135,
+     136,   137,   138,   139,   140,   141,   142,   145,   146,   147,
+     148,   149,   150,   153,   154,   157,   160,   163,   166,   167,
+     168,   169,   170,   171,   172,   173,   176,   177,   178,   181
 };
 #endif
 
@@ -1569,7 +1569,39 @@ yydestruct (const char *yymsg,
   YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YY_USE (yykind);
+  switch (yykind)
+    {
+    case YYSYMBOL_VAR: /* VAR  */
+            { free(((*yyvaluep).VAR)); }
+        break;
+
+    case YYSYMBOL_FUNC: /* FUNC  */
+            { free(((*yyvaluep).FUNC)); }
+        break;
+
+    case YYSYMBOL_function: /* function  */
+            { if (((*yyvaluep).function)) { prjm_eval_compiler_destroy_node(((*yyvaluep).function)); } }
+        break;
+
+    case YYSYMBOL_46_function_arglist: /* function-arglist  */
+            { prjm_eval_compiler_destroy_arglist(((*yyvaluep).yykind_46)); }
+        break;
+
+    case YYSYMBOL_parentheses: /* parentheses  */
+            { if (((*yyvaluep).parentheses)) { prjm_eval_compiler_destroy_node(((*yyvaluep).parentheses)); } }
+        break;
+
+    case YYSYMBOL_48_instruction_list: /* instruction-list  */
+            { if (((*yyvaluep).yykind_48)) { prjm_eval_compiler_destroy_node(((*yyvaluep).yykind_48)); } }
+        break;
+
+    case YYSYMBOL_expression: /* expression  */
+            { if (((*yyvaluep).expression)) { prjm_eval_compiler_destroy_node(((*yyvaluep).expression)); } }
+        break;
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -1894,7 +1926,7 @@ yyreduce:
     break;
 
   case 4: /* function: FUNC '(' function-arglist ')'  */
-                                            { PRJM_EVAL_FUNC((yyval.function), (yyvsp[-3].FUNC), (yyvsp[-1].yykind_46)); free((yyvsp[-3].FUNC)); }
+                                            { PRJM_EVAL_FUNC((yyval.function), (yyvsp[-3].FUNC), (yyvsp[-1].yykind_46)); }
     break;
 
   case 5: /* function-arglist: instruction-list  */
diff --git a/projectm-eval/Compiler.h b/projectm-eval/Compiler.h
index ae5e1c3..82053b8 100644
--- a/projectm-eval/Compiler.h
+++ b/projectm-eval/Compiler.h
@@ -103,7 +103,6 @@ union PRJM_EVAL_STYPE
   char* VAR;                               /* VAR  */
   char* FUNC;                              /* FUNC  */
   prjm_eval_compiler_arg_list_t* yykind_46; /* function-arglist  */
-  prjm_eval_compiler_node_t* program;      /* program  */
   prjm_eval_compiler_node_t* function;     /* function  */
   prjm_eval_compiler_node_t* parentheses;  /* parentheses  */
   prjm_eval_compiler_node_t* yykind_48;    /* instruction-list  */
diff --git a/projectm-eval/Compiler.y b/projectm-eval/Compiler.y
index b035e0b..6ed96f9 100644
--- a/projectm-eval/Compiler.y
+++ b/projectm-eval/Compiler.y
@@ -44,9 +44,14 @@ typedef void* yyscan_t;
 /* Value types */
 %token <PRJM_EVAL_F> NUM
 %token <char*> VAR FUNC
-%nterm <prjm_eval_compiler_node_t*> function program instruction-list expression parentheses
+%nterm <prjm_eval_compiler_node_t*> function instruction-list expression parentheses
 %nterm <prjm_eval_compiler_arg_list_t*> function-arglist
 
+/* Free symbols discarded after an error */
+%destructor { free($$); } <char*>
+%destructor { if ($$) { prjm_eval_compiler_destroy_node($$); } } <prjm_eval_compiler_node_t*>
+%destructor { prjm_eval_compiler_destroy_arglist($$); } <prjm_eval_compiler_arg_list_t*>
+
 /* Operator precedence, lowest first, highest last. */
 %precedence ','
 %right '='
@@ -85,7 +90,7 @@ program:
 
 /* Functions */
 function:
-  FUNC[name] '(' function-arglist[args] ')' { PRJM_EVAL_FUNC($$, $name, $args); free($name); }
+  FUNC[name] '(' function-arglist[args] ')' { PRJM_EVAL_FUNC($$, $name, $args); }
 ;
 
 function-arglist:
diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index 3e2bde3..0299805 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -127,6 +127,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_function(prjm_eval_compiler
     if (!func)
     {
         PRJM_EVAL_FORMAT_ERROR(*error, "Unknown function \"%s\".", name)
+        prjm_eval_compiler_destroy_arglist(arglist);
         return NULL;
     }
 
@@ -134,6 +135,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_function(prjm_eval_compiler
     {
         PRJM_EVAL_FORMAT_ERROR(*error, "Invalid argument count for function \"%s\": Expected %d, but %d given.",
                               name, func->arg_count, arglist->count)
+        prjm_eval_compiler_destroy_arglist(arglist);
         return NULL;
     }
 
diff --git a/projectm-eval/CompilerFunctions.h b/projectm-eval/CompilerFunctions.h
index 43c1215..2207ec8 100644
--- a/projectm-eval/CompilerFunctions.h
+++ b/projectm-eval/CompilerFunctions.h
@@ -6,6 +6,7 @@
 #define PRJM_EVAL_FUNC(ret, name, args) {\
         char* errval = NULL; \
         ret = prjm_eval_compiler_create_function(cctx, name, args, &errval); \
+        free(name); \
         if(errval) { yyerror(&yyloc, cctx, scanner, errval); free(errval); YYERROR; }\
     }
 
-- 
2.43.0


From 3bd6a1dac49dd892dc30e2df085ccf9d52a9c4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 13/18] fix: return NULL if creating a context or variable runs
 out of memory

Failed allocations were not noticed and crashed the application.
---
 projectm-eval/CompileContext.c | 33 ++++++++++++++++++++++++++-------
 projectm-eval/TreeVariables.c  | 14 ++++++++++++--
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/projectm-eval/CompileContext.c b/projectm-eval/CompileContext.c
index 20746a9..7233758 100644
--- a/projectm-eval/CompileContext.c
+++ b/projectm-eval/CompileContext.c
@@ -13,6 +13,10 @@ prjm_eval_compiler_context_t* prjm_eval_create_compile_context(projectm_eval_mem
                                                                PRJM_EVAL_F (* global_variables)[100])
 {
     prjm_eval_compiler_context_t* cctx = calloc(1, sizeof(prjm_eval_compiler_context_t));
+    if (!cctx)
+    {
+        return NULL;
+    }
 
     prjm_eval_intrinsic_function_list intrinsics;
     int intrinsics_count = 0;
@@ -21,18 +25,27 @@ prjm_eval_compiler_context_t* prjm_eval_create_compile_context(projectm_eval_mem
     assert(intrinsics);
     assert(intrinsics_count);
 
-    prjm_eval_function_list_item_t* last_func = NULL;
     for (int index = intrinsics_count - 1; index >= 0; --index)
     {
         assert(&intrinsics[index]);
         prjm_eval_function_list_item_t* func = malloc(sizeof(prjm_eval_function_list_item_t));
-        func->function = malloc(sizeof(prjm_eval_function_def_t));
-        memcpy(func->function, &intrinsics[index], sizeof(prjm_eval_function_def_t));
-        func->function->name = strdup(intrinsics[index].name);
-        func->next = last_func;
-        last_func = func;
+        prjm_eval_function_def_t* function = malloc(sizeof(prjm_eval_function_def_t));
+        char* name = strdup(intrinsics[index].name);
+        if (!func || !function || !name)
+        {
+            free(func);
+            free(function);
+            free(name);
+            prjm_eval_destroy_compile_context(cctx);
+            return NULL;
+        }
+
+        memcpy(function, &intrinsics[index], sizeof(prjm_eval_function_def_t));
+        function->name = name;
+        func->function = function;
+        func->next = cctx->functions.first;
+        cctx->functions.first = func;
     }
-    cctx->functions.first = last_func;
 
     cctx->memory = prjm_eval_memory_create_buffer();
 
@@ -45,6 +58,12 @@ prjm_eval_compiler_context_t* prjm_eval_create_compile_context(projectm_eval_mem
         cctx->global_memory = prjm_eval_memory_global();
     }
 
+    if (!cctx->memory || !cctx->global_memory)
+    {
+        prjm_eval_destroy_compile_context(cctx);
+        return NULL;
+    }
+
     cctx->global_variables = global_variables;
 
     return cctx;
diff --git a/projectm-eval/TreeVariables.c b/projectm-eval/TreeVariables.c
index ce1e511..f493fca 100644
--- a/projectm-eval/TreeVariables.c
+++ b/projectm-eval/TreeVariables.c
@@ -56,8 +56,18 @@ PRJM_EVAL_F* prjm_eval_register_variable(prjm_eval_compiler_context_t* cctx, con
     if (!var)
     {
         var = malloc(sizeof(prjm_eval_variable_entry_t));
-        var->variable = calloc(1, sizeof(prjm_eval_variable_def_t));
-        var->variable->name = strdup(name);
+        prjm_eval_variable_def_t* variable = calloc(1, sizeof(prjm_eval_variable_def_t));
+        char* variable_name = strdup(name);
+        if (!var || !variable || !variable_name)
+        {
+            free(var);
+            free(variable);
+            free(variable_name);
+            return NULL;
+        }
+
+        var->variable = variable;
+        var->variable->name = variable_name;
         var->variable->value = .0f;
         var->next = cctx->variables.first;
         cctx->variables.first = var;
-- 
2.43.0


From 601af30c273f4d0f9329fd7079965e1f0a7520aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:56 +0000
Subject: [PATCH 14/18] fix: report running out of memory as a compile error

Every allocation made while compiling is now checked. Anything already built is
freed and the compilation fails with a message, instead of dereferencing NULL
or letting the scanner terminate the application.
---
 projectm-eval/CompileContext.c    |  50 ++++++++++++--
 projectm-eval/Compiler.c          |  21 +++---
 projectm-eval/Compiler.h          |   2 +-
 projectm-eval/Compiler.y          |  15 +++--
 projectm-eval/CompilerFunctions.c | 104 ++++++++++++++++++++++++++++--
 projectm-eval/CompilerFunctions.h |  85 +++++++++++++++---------
 projectm-eval/Scanner.c           |  19 +++++-
 projectm-eval/Scanner.h           |   9 ++-
 projectm-eval/Scanner.l           |  19 +++++-
 9 files changed, 261 insertions(+), 63 deletions(-)

diff --git a/projectm-eval/CompileContext.c b/projectm-eval/CompileContext.c
index 7233758..b2088a7 100644
--- a/projectm-eval/CompileContext.c
+++ b/projectm-eval/CompileContext.c
@@ -106,21 +106,55 @@ void prjm_eval_destroy_compile_context(prjm_eval_compiler_context_t* cctx)
 prjm_eval_program_t* prjm_eval_compile_code(prjm_eval_compiler_context_t* cctx, const char* code)
 {
     yyscan_t scanner;
+    struct prjm_eval_scanner_state state;
 
     /* Forget the error of the previous compilation. */
     free(cctx->error.error);
     memset(&cctx->error, 0, sizeof(cctx->error));
 
-    prjm_eval_lex_init(&scanner);
-    YY_BUFFER_STATE bufferState = prjm_eval__scan_string(code, scanner);
+    /* The scanner works on a copy of the code, followed by two zero bytes. */
+    size_t length = strlen(code);
+    char* text = malloc(length + 2);
+    YY_BUFFER_STATE bufferState = calloc(1, sizeof(struct yy_buffer_state));
+    if (!text || !bufferState || prjm_eval_lex_init_extra(&state, &scanner) != 0)
+    {
+        free(text);
+        free(bufferState);
+        cctx->error.error = strdup("Out of memory.");
+        return NULL;
+    }
 
+    memcpy(text, code, length);
+    memset(text + length, 0, 2);
+
+    bufferState->yy_ch_buf = text;
+    bufferState->yy_buf_pos = text;
+    bufferState->yy_buf_size = (int) length;
+    bufferState->yy_n_chars = (int) length;
+    bufferState->yy_at_bol = 1;
     bufferState->yy_bs_lineno = 1;
     bufferState->yy_bs_column = 0;
 
-    int result = prjm_eval_parse(cctx, scanner);
+    int result;
+    if (setjmp(state.fatal_error) == 0)
+    {
+        /* From here on, the buffer is owned by the scanner. */
+        prjm_eval__switch_to_buffer(bufferState, scanner);
+
+        result = prjm_eval_parse(cctx, scanner);
+    }
+    else
+    {
+        /* The scanner could not take over the buffer. */
+        free(bufferState);
+
+        free(cctx->error.error);
+        cctx->error.error = strdup("Out of memory.");
+        result = 1;
+    }
 
-    prjm_eval__delete_buffer(bufferState, scanner);
     prjm_eval_lex_destroy(scanner);
+    free(text);
 
     if (result > 0)
     {
@@ -130,6 +164,14 @@ prjm_eval_program_t* prjm_eval_compile_code(prjm_eval_compiler_context_t* cctx,
     }
 
     prjm_eval_program_t* program = malloc(sizeof(prjm_eval_program_t));
+    if (!program)
+    {
+        prjm_eval_destroy_exptreenode(cctx->compile_result);
+        cctx->compile_result = NULL;
+        cctx->error.error = strdup("Out of memory.");
+        return NULL;
+    }
+
     program->cctx = cctx;
     program->program = cctx->compile_result;
     cctx->compile_result = NULL;
diff --git a/projectm-eval/Compiler.c b/projectm-eval/Compiler.c
index bdc33a0..3451b1b 100644
--- a/projectm-eval/Compiler.c
+++ b/projectm-eval/Compiler.c
@@ -519,10 +519,10 @@ static const yytype_int8 yytranslate[] =
 static const yytype_uint8 yyrline[] =
 {
        0,    82,    82,    83,    93,    97,    98,   102,   106,   107,
-     108,   112,   113,   119,   120,   123,   126,   127,   128,   135,
-     136,   137,   138,   139,   140,   141,   142,   145,   146,   147,
-     148,   149,   150,   153,   154,   157,   160,   163,   166,   167,
-     168,   169,   170,   171,   172,   173,   176,   177,   178,   181
+     108,   112,   113,   119,   120,   123,   127,   128,   129,   136,
+     137,   138,   139,   140,   141,   142,   143,   146,   147,   148,
+     149,   150,   151,   154,   155,   158,   161,   164,   167,   168,
+     169,   170,   171,   172,   173,   174,   177,   178,   179,   182
 };
 #endif
 
@@ -1930,11 +1930,11 @@ yyreduce:
     break;
 
   case 5: /* function-arglist: instruction-list  */
-                                                     { (yyval.yykind_46) = prjm_eval_compiler_add_argument(NULL, (yyvsp[0].yykind_48)); }
+                                                     { PRJM_EVAL_NODE((yyval.yykind_46), prjm_eval_compiler_add_argument(NULL, (yyvsp[0].yykind_48))) }
     break;
 
   case 6: /* function-arglist: function-arglist ',' instruction-list  */
-                                                     { (yyval.yykind_46) = prjm_eval_compiler_add_argument((yyvsp[-2].yykind_46), (yyvsp[0].yykind_48)); }
+                                                     { PRJM_EVAL_NODE((yyval.yykind_46), prjm_eval_compiler_add_argument((yyvsp[-2].yykind_46), (yyvsp[0].yykind_48))) }
     break;
 
   case 7: /* parentheses: '(' instruction-list ')'  */
@@ -1946,7 +1946,7 @@ yyreduce:
     break;
 
   case 9: /* instruction-list: instruction-list ';' expression  */
-                                              { (yyval.yykind_48) = prjm_eval_compiler_add_instruction(cctx, (yyvsp[-2].yykind_48), (yyvsp[0].expression)); }
+                                              { PRJM_EVAL_NODE((yyval.yykind_48), prjm_eval_compiler_add_instruction(cctx, (yyvsp[-2].yykind_48), (yyvsp[0].expression))) }
     break;
 
   case 10: /* instruction-list: instruction-list ';' empty-expression  */
@@ -1954,15 +1954,16 @@ yyreduce:
     break;
 
   case 13: /* expression: NUM  */
-                                               { (yyval.expression) = prjm_eval_compiler_create_constant(cctx, (yyvsp[0].NUM)); }
+                                               { PRJM_EVAL_NODE((yyval.expression), prjm_eval_compiler_create_constant(cctx, (yyvsp[0].NUM))) }
     break;
 
   case 14: /* expression: VAR  */
-            { (yyval.expression) = prjm_eval_compiler_create_variable(cctx, (yyvsp[0].VAR)); free((yyvsp[0].VAR)); }
+            { (yyval.expression) = prjm_eval_compiler_create_variable(cctx, (yyvsp[0].VAR)); free((yyvsp[0].VAR)); PRJM_EVAL_NODE((yyval.expression), (yyval.expression)) }
     break;
 
   case 15: /* expression: GMEM '[' ']'  */
-                                             { prjm_eval_compiler_node_t* gmem_zero_idx =  prjm_eval_compiler_create_constant(cctx, .0);
+                                             { prjm_eval_compiler_node_t* gmem_zero_idx;
+                                               PRJM_EVAL_NODE(gmem_zero_idx, prjm_eval_compiler_create_constant(cctx, .0))
                                                PRJM_EVAL_FUNC1((yyval.expression), "_gmem", gmem_zero_idx)
                                                }
     break;
diff --git a/projectm-eval/Compiler.h b/projectm-eval/Compiler.h
index 82053b8..3fd885c 100644
--- a/projectm-eval/Compiler.h
+++ b/projectm-eval/Compiler.h
@@ -146,7 +146,7 @@ int prjm_eval_parse (prjm_eval_compiler_context_t* cctx, yyscan_t scanner);
        int yylex(YYSTYPE* yylval_param, YYLTYPE* yylloc_param, prjm_eval_compiler_context_t* cctx, yyscan_t yyscanner)
    YY_DECL;
 
-   void yyerror(YYLTYPE* yyllocp, prjm_eval_compiler_context_t* cctx, yyscan_t yyscanner, const char* message);
+   void prjm_eval_error(YYLTYPE* yyllocp, prjm_eval_compiler_context_t* cctx, yyscan_t yyscanner, const char* message);
 
 
 #endif /* !YY_PRJM_EVAL_COMPILER_H_INCLUDED  */
diff --git a/projectm-eval/Compiler.y b/projectm-eval/Compiler.y
index 6ed96f9..51f1a91 100644
--- a/projectm-eval/Compiler.y
+++ b/projectm-eval/Compiler.y
@@ -30,7 +30,7 @@ typedef void* yyscan_t;
        int yylex(YYSTYPE* yylval_param, YYLTYPE* yylloc_param, prjm_eval_compiler_context_t* cctx, yyscan_t yyscanner)
    YY_DECL;
 
-   void yyerror(YYLTYPE* yyllocp, prjm_eval_compiler_context_t* cctx, yyscan_t yyscanner, const char* message);
+   void prjm_eval_error(YYLTYPE* yyllocp, prjm_eval_compiler_context_t* cctx, yyscan_t yyscanner, const char* message);
 }
 
 /* Token declarations */
@@ -94,8 +94,8 @@ function:
 ;
 
 function-arglist:
-  instruction-list[instr]                            { $$ = prjm_eval_compiler_add_argument(NULL, $instr); }
-| function-arglist[args] ',' instruction-list[instr] { $$ = prjm_eval_compiler_add_argument($args, $instr); }
+  instruction-list[instr]                            { PRJM_EVAL_NODE($$, prjm_eval_compiler_add_argument(NULL, $instr)) }
+| function-arglist[args] ',' instruction-list[instr] { PRJM_EVAL_NODE($$, prjm_eval_compiler_add_argument($args, $instr)) }
 ;
 
 parentheses:
@@ -104,7 +104,7 @@ parentheses:
 
 instruction-list:
   expression[expr]                            { $$ = $expr; }
-| instruction-list[list] ';' expression[expr] { $$ = prjm_eval_compiler_add_instruction(cctx, $list, $expr); }
+| instruction-list[list] ';' expression[expr] { PRJM_EVAL_NODE($$, prjm_eval_compiler_add_instruction(cctx, $list, $expr)) }
 | instruction-list[list] ';' empty-expression { $$ = $list; }
 ;
 
@@ -116,11 +116,12 @@ empty-expression:
 /* General expressions */
 expression:
 /* Literals */
-  NUM[val]                                     { $$ = prjm_eval_compiler_create_constant(cctx, $val); }
-| VAR[name] { $$ = prjm_eval_compiler_create_variable(cctx, $name); free($name); }
+  NUM[val]                                     { PRJM_EVAL_NODE($$, prjm_eval_compiler_create_constant(cctx, $val)) }
+| VAR[name] { $$ = prjm_eval_compiler_create_variable(cctx, $name); free($name); PRJM_EVAL_NODE($$, $$) }
 
 /* Memory access via index */
-| GMEM '[' ']'                               { prjm_eval_compiler_node_t* gmem_zero_idx =  prjm_eval_compiler_create_constant(cctx, .0);
+| GMEM '[' ']'                               { prjm_eval_compiler_node_t* gmem_zero_idx;
+                                               PRJM_EVAL_NODE(gmem_zero_idx, prjm_eval_compiler_create_constant(cctx, .0))
                                                PRJM_EVAL_FUNC1($$, "_gmem", gmem_zero_idx)
                                                }
 | GMEM '[' expression[idx] ']'               { PRJM_EVAL_FUNC1($$, "_gmem", $idx) }
diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index 0299805..c884eff 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -92,6 +92,8 @@ prjm_eval_compiler_arg_list_t* prjm_eval_compiler_add_argument(prjm_eval_compile
 
     if (arg_node == NULL)
     {
+        prjm_eval_compiler_destroy_node(arg);
+        prjm_eval_compiler_destroy_arglist(arglist);
         return NULL;
     }
 
@@ -102,6 +104,7 @@ prjm_eval_compiler_arg_list_t* prjm_eval_compiler_add_argument(prjm_eval_compile
         arglist = calloc(1, sizeof(prjm_eval_compiler_arg_list_t));
         if (!arglist)
         {
+            prjm_eval_compiler_destroy_node(arg);
             free(arg_node);
             return NULL;
         }
@@ -118,11 +121,41 @@ prjm_eval_compiler_arg_list_t* prjm_eval_compiler_add_argument(prjm_eval_compile
     return arglist;
 }
 
+prjm_eval_compiler_arg_list_t* prjm_eval_compiler_create_arglist(prjm_eval_compiler_node_t* arg1,
+                                                                prjm_eval_compiler_node_t* arg2,
+                                                                prjm_eval_compiler_node_t* arg3)
+{
+    prjm_eval_compiler_node_t* args[] = {arg1, arg2, arg3};
+    prjm_eval_compiler_arg_list_t* arglist = NULL;
+
+    for (int index = 0; index < 3 && args[index]; ++index)
+    {
+        arglist = prjm_eval_compiler_add_argument(arglist, args[index]);
+        if (!arglist)
+        {
+            /* This and all previous arguments were already destroyed. */
+            while (++index < 3 && args[index])
+            {
+                prjm_eval_compiler_destroy_node(args[index]);
+            }
+            return NULL;
+        }
+    }
+
+    return arglist;
+}
+
 prjm_eval_compiler_node_t* prjm_eval_compiler_create_function(prjm_eval_compiler_context_t* cctx,
                                                              const char* name,
                                                              prjm_eval_compiler_arg_list_t* arglist,
                                                              char** error)
 {
+    /* Creating the argument list ran out of memory. */
+    if (!arglist)
+    {
+        return NULL;
+    }
+
     prjm_eval_function_def_t* func = prjm_eval_compiler_get_function(cctx, name);
     if (!func)
     {
@@ -147,11 +180,16 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_function(prjm_eval_compiler
 prjm_eval_compiler_node_t* prjm_eval_compiler_create_expression_empty(prjm_eval_function_def_t* func)
 {
     prjm_eval_exptreenode_t* expr = calloc(1, sizeof(prjm_eval_exptreenode_t));
+    prjm_eval_compiler_node_t* node = calloc(1, sizeof(prjm_eval_compiler_node_t));
+    if (!expr || !node)
+    {
+        free(expr);
+        free(node);
+        return NULL;
+    }
 
     expr->func = func->func;
 
-    prjm_eval_compiler_node_t* node = calloc(1, sizeof(prjm_eval_compiler_node_t));
-
     node->type = PRJM_EVAL_NODE_FUNC_EXPRESSION;
     node->instr_is_const_expr = func->is_const_eval;
     node->instr_is_state_changing = func->is_state_changing;
@@ -167,6 +205,14 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_expression(prjm_eval_compil
                                                                prjm_eval_compiler_arg_list_t* arglist)
 {
     prjm_eval_exptreenode_t* expr = calloc(1, sizeof(prjm_eval_exptreenode_t));
+    prjm_eval_compiler_node_t* node = calloc(1, sizeof(prjm_eval_compiler_node_t));
+    if (!expr || !node)
+    {
+        free(expr);
+        free(node);
+        prjm_eval_compiler_destroy_arglist(arglist);
+        return NULL;
+    }
 
     expr->func = func->func;
 
@@ -190,6 +236,13 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_expression(prjm_eval_compil
     if (arglist && arglist->count > 0)
     {
         expr->args = calloc(arglist->count + 1, sizeof(prjm_eval_exptreenode_t*));
+        if (!expr->args)
+        {
+            free(expr);
+            free(node);
+            prjm_eval_compiler_destroy_arglist(arglist);
+            return NULL;
+        }
 
         prjm_eval_compiler_arg_node_t* arg = arglist->begin;
         prjm_eval_exptreenode_t** expr_arg = expr->args;
@@ -211,8 +264,6 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_expression(prjm_eval_compil
 
     prjm_eval_compiler_destroy_arglist(arglist);
 
-    prjm_eval_compiler_node_t* node = calloc(1, sizeof(prjm_eval_compiler_node_t));
-
     node->type = PRJM_EVAL_NODE_FUNC_EXPRESSION;
     node->instr_is_const_expr = args_are_const_evaluable && func->is_const_eval;
     node->instr_is_state_changing = args_are_state_changing || func->is_state_changing;
@@ -225,6 +276,12 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_expression(prjm_eval_compil
         !node->instr_is_state_changing)
     {
         prjm_eval_exptreenode_t* const_expr = calloc(1, sizeof(prjm_eval_exptreenode_t));
+        if (!const_expr)
+        {
+            prjm_eval_compiler_destroy_node(node);
+            return NULL;
+        }
+
         prjm_eval_function_def_t* const_func = prjm_eval_compiler_get_function(cctx, "/*const*/");
         const_expr->func = const_func->func;
 
@@ -248,10 +305,17 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_constant(prjm_eval_compiler
     prjm_eval_function_def_t* const_func = prjm_eval_compiler_get_function(cctx, "/*const*/");
 
     prjm_eval_exptreenode_t* const_expr = calloc(1, sizeof(prjm_eval_exptreenode_t));
+    prjm_eval_compiler_node_t* node = calloc(1, sizeof(prjm_eval_compiler_node_t));
+    if (!const_expr || !node)
+    {
+        free(const_expr);
+        free(node);
+        return NULL;
+    }
+
     const_expr->func = const_func->func;
     const_expr->value = value;
 
-    prjm_eval_compiler_node_t* node = calloc(1, sizeof(prjm_eval_compiler_node_t));
     node->type = PRJM_EVAL_NODE_FUNC_EXPRESSION;
     node->tree_node = const_expr;
     node->instr_is_const_expr = const_func->is_const_eval;
@@ -266,9 +330,17 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_variable(prjm_eval_compiler
 {
     /* Find existing variable or create a new one */
     PRJM_EVAL_F* var = prjm_eval_register_variable(cctx, name);
+    if (!var)
+    {
+        return NULL;
+    }
 
     prjm_eval_function_def_t* var_func = prjm_eval_compiler_get_function(cctx, "/*var*/");
     prjm_eval_compiler_node_t* node = prjm_eval_compiler_create_expression_empty(var_func);
+    if (!node)
+    {
+        return NULL;
+    }
 
     node->tree_node->var = var;
     node->instr_is_const_expr = var_func->is_const_eval;
@@ -304,7 +376,20 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_add_instruction(prjm_eval_compiler
         prjm_eval_function_def_t* list_func = prjm_eval_compiler_get_function(cctx, "/*list*/");
 
         prjm_eval_compiler_node_t* new_node = prjm_eval_compiler_create_expression_empty(list_func);
-        new_node->tree_node->list = malloc(sizeof(prjm_eval_exptreenode_list_item_t));
+        prjm_eval_exptreenode_list_item_t* new_item = malloc(sizeof(prjm_eval_exptreenode_list_item_t));
+        if (!new_node || !new_item)
+        {
+            if (new_node)
+            {
+                prjm_eval_compiler_destroy_node(new_node);
+            }
+            free(new_item);
+            prjm_eval_compiler_destroy_node(list);
+            prjm_eval_compiler_destroy_node(instruction);
+            return NULL;
+        }
+
+        new_node->tree_node->list = new_item;
         new_node->tree_node->list->expr = list->tree_node;
         new_node->tree_node->list->next = NULL;
         new_node->type = PRJM_EVAL_NODE_FUNC_INSTRUCTIONLIST;
@@ -338,6 +423,13 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_add_instruction(prjm_eval_compiler
     }
 
     item->next = malloc(sizeof(prjm_eval_exptreenode_list_item_t));
+    if (!item->next)
+    {
+        prjm_eval_compiler_destroy_node(node);
+        prjm_eval_compiler_destroy_node(instruction);
+        return NULL;
+    }
+
     item->next->expr = instruction->tree_node;
     item->next->next = NULL;
 
diff --git a/projectm-eval/CompilerFunctions.h b/projectm-eval/CompilerFunctions.h
index 2207ec8..e6fef1b 100644
--- a/projectm-eval/CompilerFunctions.h
+++ b/projectm-eval/CompilerFunctions.h
@@ -3,44 +3,35 @@
 #include "CompilerTypes.h"
 #include "Compiler.h"
 
-#define PRJM_EVAL_FUNC(ret, name, args) {\
-        char* errval = NULL; \
-        ret = prjm_eval_compiler_create_function(cctx, name, args, &errval); \
-        free(name); \
-        if(errval) { yyerror(&yyloc, cctx, scanner, errval); free(errval); YYERROR; }\
+/* Assigns the node or list returned by the given expression. Running out of memory is an error. */
+#define PRJM_EVAL_NODE(ret, expression) {\
+        ret = expression; \
+        if(!ret) { yyerror(&yyloc, cctx, scanner, "Out of memory."); YYERROR; }\
     }
 
-#define PRJM_EVAL_FUNC1(ret, name, arg1) {\
+#define PRJM_EVAL_FUNC_CALL(ret, name, args, cleanup) {\
         char* errval = NULL; \
-        prjm_eval_compiler_arg_list_t* arglist = NULL; \
-        arglist = prjm_eval_compiler_add_argument(arglist, arg1); \
-        ret = prjm_eval_compiler_create_function(cctx, name, arglist, &errval); \
-        if(errval) { yyerror(&yyloc, cctx, scanner, errval); free(errval); YYERROR; }   \
+        ret = prjm_eval_compiler_create_function(cctx, name, args, &errval); \
+        cleanup; \
+        if(!ret) { yyerror(&yyloc, cctx, scanner, errval ? errval : "Out of memory."); free(errval); YYERROR; }\
     }
 
-#define PRJM_EVAL_FUNC2(ret, name, arg1, arg2) {\
-        char* errval = NULL; \
-        prjm_eval_compiler_arg_list_t* arglist = NULL; \
-        arglist = prjm_eval_compiler_add_argument(arglist, arg1); \
-        arglist = prjm_eval_compiler_add_argument(arglist, arg2); \
-        ret = prjm_eval_compiler_create_function(cctx, name, arglist, &errval); \
-        if(errval) { yyerror(&yyloc, cctx, scanner, errval); free(errval); YYERROR; }   \
-    }
+#define PRJM_EVAL_FUNC(ret, name, args) \
+    PRJM_EVAL_FUNC_CALL(ret, name, args, free(name))
 
-#define PRJM_EVAL_FUNC3(ret, name, arg1, arg2, arg3) {\
-        char* errval = NULL; \
-        prjm_eval_compiler_arg_list_t* arglist = NULL; \
-        arglist = prjm_eval_compiler_add_argument(arglist, arg1); \
-        arglist = prjm_eval_compiler_add_argument(arglist, arg2); \
-        arglist = prjm_eval_compiler_add_argument(arglist, arg3); \
-        ret = prjm_eval_compiler_create_function(cctx, name, arglist, &errval); \
-        if(errval) { yyerror(&yyloc, cctx, scanner, errval); free(errval); YYERROR; }   \
-    }
+#define PRJM_EVAL_FUNC1(ret, name, arg1) \
+    PRJM_EVAL_FUNC_CALL(ret, name, prjm_eval_compiler_create_arglist(arg1, NULL, NULL),)
+
+#define PRJM_EVAL_FUNC2(ret, name, arg1, arg2) \
+    PRJM_EVAL_FUNC_CALL(ret, name, prjm_eval_compiler_create_arglist(arg1, arg2, NULL),)
+
+#define PRJM_EVAL_FUNC3(ret, name, arg1, arg2, arg3) \
+    PRJM_EVAL_FUNC_CALL(ret, name, prjm_eval_compiler_create_arglist(arg1, arg2, arg3),)
 
 #define PRJM_EVAL_FORMAT_ERROR(errvar, errfmt, ...) { \
         int chars = snprintf(NULL, 0, errfmt, ##__VA_ARGS__) + 1; \
-        *error = malloc(chars * sizeof(char)); \
-        snprintf(errvar, chars, errfmt, ##__VA_ARGS__); \
+        errvar = malloc(chars * sizeof(char)); \
+        if(errvar) { snprintf(errvar, chars, errfmt, ##__VA_ARGS__); } \
     }
 
 /**
@@ -68,9 +59,32 @@ bool prjm_eval_compiler_name_is_function(prjm_eval_compiler_context_t* cctx, con
 
 prjm_eval_function_def_t* prjm_eval_compiler_get_function(prjm_eval_compiler_context_t* cctx, const char* name);
 
+/**
+ * @brief Appends a node to the argument list.
+ * @param arglist The list to append to, or NULL to create a new list.
+ * @param arg The argument node.
+ * @return The argument list, or NULL if memory ran out. In this case, both the list and the node were destroyed.
+ */
 prjm_eval_compiler_arg_list_t* prjm_eval_compiler_add_argument(prjm_eval_compiler_arg_list_t* arglist,
                                                               prjm_eval_compiler_node_t* arg);
 
+/**
+ * @brief Creates an argument list with up to three nodes. Unused arguments are NULL.
+ * @return The argument list, or NULL if memory ran out. In this case, all nodes were destroyed.
+ */
+prjm_eval_compiler_arg_list_t* prjm_eval_compiler_create_arglist(prjm_eval_compiler_node_t* arg1,
+                                                                prjm_eval_compiler_node_t* arg2,
+                                                                prjm_eval_compiler_node_t* arg3);
+
+/**
+ * @brief Creates a node calling the given function.
+ * @note The passed @a arglist is destroyed by this function. No further cleanup required, don't use the pointer.
+ * @param cctx The compiler context.
+ * @param name The name of the function to call.
+ * @param arglist The function arguments, or NULL if memory ran out while creating the list.
+ * @param error Receives a message if the call is invalid. Stays NULL if memory ran out.
+ * @return A new node, or NULL if the call is invalid or memory ran out.
+ */
 prjm_eval_compiler_node_t* prjm_eval_compiler_create_function(prjm_eval_compiler_context_t* cctx,
                                                              const char* name,
                                                              prjm_eval_compiler_arg_list_t* arglist,
@@ -79,14 +93,14 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_function(prjm_eval_compiler
 /**
  * @brief Creates a new node pointing to a new or existing varable.
  * @param name The name of the variable to create or returb.
- * @return The new VAR node.
+ * @return The new VAR node, or NULL if memory ran out.
  */
 prjm_eval_compiler_node_t* prjm_eval_compiler_create_variable(prjm_eval_compiler_context_t* cctx, const char* name);
 
 /**
  * @brief Creates a new node with an empty expression, e.g. no args.
  * @param func The function to insert into the expression.
- * @return The new node.
+ * @return The new node, or NULL if memory ran out.
  */
 prjm_eval_compiler_node_t* prjm_eval_compiler_create_expression_empty(prjm_eval_function_def_t* func);
 
@@ -97,7 +111,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_expression_empty(prjm_eval_
  * @param cctx The compiler context.
  * @param func The function to execute.
  * @param arglist A list of arguments for the function. Argument count must match the function.
- * @return A new node with the freshly generated expression.
+ * @return A new node with the freshly generated expression, or NULL if memory ran out.
  */
 prjm_eval_compiler_node_t* prjm_eval_compiler_create_expression(prjm_eval_compiler_context_t* cctx,
                                                                prjm_eval_function_def_t* func,
@@ -106,6 +120,13 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_expression(prjm_eval_compil
 prjm_eval_compiler_node_t* prjm_eval_compiler_create_constant(prjm_eval_compiler_context_t* cctx,
                                                              PRJM_EVAL_F value);
 
+/**
+ * @brief Appends an instruction to the given instruction list or single instruction.
+ * @param cctx The compiler context.
+ * @param list The list or single instruction to append to.
+ * @param instruction The instruction to append.
+ * @return The instruction list, or NULL if memory ran out. In this case, both nodes were destroyed.
+ */
 prjm_eval_compiler_node_t* prjm_eval_compiler_add_instruction(prjm_eval_compiler_context_t* cctx,
                                                              prjm_eval_compiler_node_t* list,
                                                              prjm_eval_compiler_node_t* instruction);
\ No newline at end of file
diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index 95b943e..0e35174 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -2,8 +2,14 @@
 #include "CompilerTypes.h"
 #include "Compiler.h"
 
+#include <setjmp.h>
 #include <stdio.h>
 
+struct prjm_eval_scanner_state
+{
+    jmp_buf fatal_error; /*!< Where to continue after an unrecoverable scanner error. */
+};
+
 #define YY_NO_UNISTD_H
 #define YY_STDINIT
 #define YY_USER_ACTION                           \
@@ -16,7 +22,8 @@
         yylloc_param->last_column = yycolumn;    \
     }
 
-struct prjm_eval_scanner_state;
+/* Don't terminate the application if the scanner runs out of memory. */
+#define YY_FATAL_ERROR(msg) longjmp(prjm_eval_get_extra(yyscanner)->fatal_error, 1)
 
 
 
@@ -1452,9 +1459,19 @@ YY_RULE_SETUP
                         if (prjm_eval_compiler_name_is_function(cctx, yytext))
                         {
                             yylval->FUNC = strdup(yytext);
+                            if (!yylval->FUNC)
+                            {
+                                prjm_eval_error(yylloc, cctx, yyscanner, "Out of memory.");
+                                return PRJM_EVAL_error;
+                            }
                             return FUNC;
                         }
                         yylval->VAR = strdup(yytext);
+                        if (!yylval->VAR)
+                        {
+                            prjm_eval_error(yylloc, cctx, yyscanner, "Out of memory.");
+                            return PRJM_EVAL_error;
+                        }
                         return VAR;
                     }
 	YY_BREAK
diff --git a/projectm-eval/Scanner.h b/projectm-eval/Scanner.h
index f31467a..8133cc0 100644
--- a/projectm-eval/Scanner.h
+++ b/projectm-eval/Scanner.h
@@ -6,8 +6,14 @@
 #include "CompilerTypes.h"
 #include "Compiler.h"
 
+#include <setjmp.h>
 #include <stdio.h>
 
+struct prjm_eval_scanner_state
+{
+    jmp_buf fatal_error; /*!< Where to continue after an unrecoverable scanner error. */
+};
+
 #define YY_NO_UNISTD_H
 #define YY_STDINIT
 #define YY_USER_ACTION                           \
@@ -20,7 +26,8 @@
         yylloc_param->last_column = yycolumn;    \
     }
 
-struct prjm_eval_scanner_state;
+/* Don't terminate the application if the scanner runs out of memory. */
+#define YY_FATAL_ERROR(msg) longjmp(prjm_eval_get_extra(yyscanner)->fatal_error, 1)
 
 
 
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index bcf381f..c6a808c 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -13,8 +13,14 @@
 #include "CompilerTypes.h"
 #include "Compiler.h"
 
+#include <setjmp.h>
 #include <stdio.h>
 
+struct prjm_eval_scanner_state
+{
+    jmp_buf fatal_error; /*!< Where to continue after an unrecoverable scanner error. */
+};
+
 #define YY_NO_UNISTD_H
 #define YY_STDINIT
 #define YY_USER_ACTION                           \
@@ -27,7 +33,8 @@
         yylloc_param->last_column = yycolumn;    \
     }
 
-struct prjm_eval_scanner_state;
+/* Don't terminate the application if the scanner runs out of memory. */
+#define YY_FATAL_ERROR(msg) longjmp(prjm_eval_get_extra(yyscanner)->fatal_error, 1)
 }
 
 
@@ -76,9 +83,19 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
                         if (prjm_eval_compiler_name_is_function(cctx, yytext))
                         {
                             yylval->FUNC = strdup(yytext);
+                            if (!yylval->FUNC)
+                            {
+                                prjm_eval_error(yylloc, cctx, yyscanner, "Out of memory.");
+                                return PRJM_EVAL_error;
+                            }
                             return FUNC;
                         }
                         yylval->VAR = strdup(yytext);
+                        if (!yylval->VAR)
+                        {
+                            prjm_eval_error(yylloc, cctx, yyscanner, "Out of memory.");
+                            return PRJM_EVAL_error;
+                        }
                         return VAR;
                     }
 
-- 
2.43.0


From 7a4be00af5c417fd2f3ef2988adb03b3b0389667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 15/18] fix: read the loop count only once

A count in shared memory could pass the limit check with one value and be converted with another.
---
 projectm-eval/TreeFunctions.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 1b5c33d..47a59a5 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -263,15 +263,17 @@ prjm_eval_function_decl(execute_loop)
     PRJM_EVAL_F* value_ptr = &ctx->value;
     invoke_arg(0, &value_ptr);
 
+    /* Other threads may change the count, so only read it once. */
+    PRJM_EVAL_F loop_count = *value_ptr;
     int loop_count_int = 0;
     /* Limit execution count */
-    if (*value_ptr > MAX_LOOP_COUNT)
+    if (loop_count > MAX_LOOP_COUNT)
     {
         loop_count_int = MAX_LOOP_COUNT;
     }
-    else if (*value_ptr >= 1)
+    else if (loop_count >= 1)
     {
-        loop_count_int = (int) (*value_ptr);
+        loop_count_int = (int) loop_count;
     }
 
     for (int i = 0; i < loop_count_int; i++)
-- 
2.43.0


From 85bafaff822f610a49cb8ec3c5ccabaf9771467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 16/18] fix: read operands only once

Operators reading a shared location twice could combine two values another thread wrote, e.g. divide by zero or
return neither argument of min.
---
 projectm-eval/TreeFunctions.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 47a59a5..1a64845 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -591,13 +591,15 @@ prjm_eval_function_decl(div)
     invoke_arg(0, &val1_ptr);
     invoke_arg(1, &val2_ptr);
 
-    if(fabs(*val2_ptr) < close_factor_low)
+    /* Other threads may change shared values, so only read them once. */
+    PRJM_EVAL_F divisor = *val2_ptr;
+    if(fabs(divisor) < close_factor_low)
     {
         assign_ret_val(0.0);
         return;
     }
 
-    assign_ret_val(*val1_ptr / *val2_ptr);
+    assign_ret_val(*val1_ptr / divisor);
 }
 
 prjm_eval_function_decl(mod)
@@ -769,13 +771,14 @@ prjm_eval_function_decl(divop)
     invoke_arg(0, ret_val);
     invoke_arg(1, &val2_ptr);
 
-    if(fabs(*val2_ptr) < close_factor_low)
+    PRJM_EVAL_F divisor = *val2_ptr;
+    if(fabs(divisor) < close_factor_low)
     {
         assign_ret_val(0.0);
         return;
     }
 
-    assign_ret_val(**ret_val / *val2_ptr);
+    assign_ret_val(**ret_val / divisor);
 }
 
 prjm_eval_function_decl(orop)
@@ -1038,7 +1041,8 @@ prjm_eval_function_decl(sqr)
 
     invoke_arg(0, &value_ptr);
 
-    assign_ret_val((*value_ptr) * (*value_ptr));
+    PRJM_EVAL_F value = *value_ptr;
+    assign_ret_val(value * value);
 }
 
 prjm_eval_function_decl(abs)
@@ -1065,7 +1069,9 @@ prjm_eval_function_decl(min)
     invoke_arg(0, &math_arg1_ptr);
     invoke_arg(1, &math_arg2_ptr);
 
-    assign_ret_val((*math_arg1_ptr) < (*math_arg2_ptr) ? (*math_arg1_ptr) : (*math_arg2_ptr));
+    math_arg1 = *math_arg1_ptr;
+    math_arg2 = *math_arg2_ptr;
+    assign_ret_val(math_arg1 < math_arg2 ? math_arg1 : math_arg2);
 }
 
 prjm_eval_function_decl(max)
@@ -1080,7 +1086,9 @@ prjm_eval_function_decl(max)
     invoke_arg(0, &math_arg1_ptr);
     invoke_arg(1, &math_arg2_ptr);
 
-    assign_ret_val((*math_arg1_ptr) > (*math_arg2_ptr) ? (*math_arg1_ptr) : (*math_arg2_ptr));
+    math_arg1 = *math_arg1_ptr;
+    math_arg2 = *math_arg2_ptr;
+    assign_ret_val(math_arg1 > math_arg2 ? math_arg1 : math_arg2);
 }
 
 prjm_eval_function_decl(sign)
@@ -1092,12 +1100,13 @@ prjm_eval_function_decl(sign)
 
     invoke_arg(0, &value_ptr);
 
-    if (*value_ptr == 0)
+    PRJM_EVAL_F value = *value_ptr;
+    if (value == 0)
     {
         (**ret_val) = .0;
         return;
     }
-    assign_ret_val((*value_ptr) < .0 ? -1. : 1.);
+    assign_ret_val(value < .0 ? -1. : 1.);
 }
 
 prjm_eval_function_decl(rand)
@@ -1154,8 +1163,9 @@ prjm_eval_function_decl(invsqrt)
 
     invoke_arg(0, &value_ptr);
 
-    PRJM_EVAL_F num2 = (*value_ptr) * one_half;
-    type_conv.PRJM_F_val = (*value_ptr);
+    PRJM_EVAL_F value = *value_ptr;
+    PRJM_EVAL_F num2 = value * one_half;
+    type_conv.PRJM_F_val = value;
     type_conv.int_val = INVSQRT_MAGIC_NUMBER - (type_conv.int_val >> 1);
     type_conv.PRJM_F_val = type_conv.PRJM_F_val * (three_halfs - (num2 * type_conv.PRJM_F_val * type_conv.PRJM_F_val));
 
-- 
2.43.0


From 374d37bea77214dde66b79edf1a45aab9c9f22a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:34 +0000
Subject: [PATCH 17/18] fix: compare names independently of the locale

In a Turkish locale, strcasecmp() treats I and i as different letters, so IF()
was an unknown function and variables split in two.
---
 projectm-eval/CompilerFunctions.c | 10 +++-------
 projectm-eval/TreeVariables.c     | 29 ++++++++++++++++++++++-------
 projectm-eval/TreeVariables.h     | 11 +++++++++++
 3 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index c884eff..75b6e29 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -4,14 +4,10 @@
 #include "TreeVariables.h"
 
 #include <assert.h>
+#include <stdint.h>
 #include <string.h>
 #include <stdlib.h>
 
-#ifdef _MSC_VER
-#define strcasecmp stricmp
-#define strncasecmp _strnicmp
-#endif
-
 /* Called by yyparse on error. */
 void prjm_eval_error(PRJM_EVAL_LTYPE* loc, prjm_eval_compiler_context_t* cctx, yyscan_t yyscanner, char const* s)
 {
@@ -58,7 +54,7 @@ bool prjm_eval_compiler_name_is_function(prjm_eval_compiler_context_t* cctx, con
     prjm_eval_function_list_item_t* entry = cctx->functions.first;
     while (entry)
     {
-        if (strcasecmp(entry->function->name, name) == 0)
+        if (prjm_eval_compare_names(entry->function->name, name, SIZE_MAX) == 0)
         {
             return true;
         }
@@ -74,7 +70,7 @@ prjm_eval_function_def_t* prjm_eval_compiler_get_function(prjm_eval_compiler_con
     prjm_eval_function_list_item_t* func = cctx->functions.first;
     while (func)
     {
-        if (strcasecmp(func->function->name, name) == 0)
+        if (prjm_eval_compare_names(func->function->name, name, SIZE_MAX) == 0)
         {
             return func->function;
         }
diff --git a/projectm-eval/TreeVariables.c b/projectm-eval/TreeVariables.c
index f493fca..d29f1eb 100644
--- a/projectm-eval/TreeVariables.c
+++ b/projectm-eval/TreeVariables.c
@@ -1,16 +1,31 @@
 #include "TreeVariables.h"
 
 #include "ctype.h"
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
-#ifdef _MSC_VER
-#define strcasecmp stricmp
-#define strncasecmp _strnicmp
-#endif
-
 static PRJM_EVAL_F static_global_variables[100];
 
+static int lower_case(unsigned char letter)
+{
+    return letter >= 'A' && letter <= 'Z' ? letter - 'A' + 'a' : letter;
+}
+
+int prjm_eval_compare_names(const char* name1, const char* name2, size_t max_length)
+{
+    for (; max_length > 0; --max_length, ++name1, ++name2)
+    {
+        int difference = lower_case(*name1) - lower_case(*name2);
+        if (difference != 0 || *name1 == '\0')
+        {
+            return difference;
+        }
+    }
+
+    return 0;
+}
+
 static prjm_eval_variable_entry_t* find_variable_entry(prjm_eval_compiler_context_t* cctx,
                                                        const char* name)
 {
@@ -18,7 +33,7 @@ static prjm_eval_variable_entry_t* find_variable_entry(prjm_eval_compiler_contex
     prjm_eval_variable_entry_t* var = cctx->variables.first;
     while (var)
     {
-        if (strcasecmp(var->variable->name, name) == 0)
+        if (prjm_eval_compare_names(var->variable->name, name, SIZE_MAX) == 0)
         {
             break;
         }
@@ -31,7 +46,7 @@ static prjm_eval_variable_entry_t* find_variable_entry(prjm_eval_compiler_contex
 PRJM_EVAL_F* prjm_eval_register_variable(prjm_eval_compiler_context_t* cctx, const char* name)
 {
     if (strlen(name) == 5 &&
-        strncasecmp(name, "reg", 3) == 0 &&
+        prjm_eval_compare_names(name, "reg", 3) == 0 &&
         isdigit(name[3]) &&
         isdigit(name[4])
         )
diff --git a/projectm-eval/TreeVariables.h b/projectm-eval/TreeVariables.h
index f2c8741..23f9c6b 100644
--- a/projectm-eval/TreeVariables.h
+++ b/projectm-eval/TreeVariables.h
@@ -2,5 +2,16 @@
 
 #include "CompilerTypes.h"
 
+#include <stddef.h>
+
+/**
+ * @brief Compares two names, ignoring the case of the letters A to Z only, whichever locale the application uses.
+ * @param name1 The first name.
+ * @param name2 The second name.
+ * @param max_length The maximum number of characters to compare.
+ * @return 0 if the names are equal, a negative or positive number otherwise.
+ */
+int prjm_eval_compare_names(const char* name1, const char* name2, size_t max_length);
+
 PRJM_EVAL_F* prjm_eval_register_variable(prjm_eval_compiler_context_t* cctx,
                                          const char* name);
-- 
2.43.0


From d052543aba466dcfc12699dd5c282ac17dfa4c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 18/18] fix: read numbers independently of the locale

In locales with a decimal comma, atof() stopped at the point of 1.5 and returned 1.
---
 projectm-eval/CompilerFunctions.c | 37 +++++++++++++++++++++++++++++++
 projectm-eval/CompilerFunctions.h |  8 +++++++
 projectm-eval/Scanner.c           |  6 ++++-
 projectm-eval/Scanner.l           |  6 ++++-
 4 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index 75b6e29..3b063d7 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -4,6 +4,7 @@
 #include "TreeVariables.h"
 
 #include <assert.h>
+#include <limits.h>
 #include <stdint.h>
 #include <string.h>
 #include <stdlib.h>
@@ -296,6 +297,42 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_expression(prjm_eval_compil
     return node;
 }
 
+bool prjm_eval_compiler_parse_number(const char* text, PRJM_EVAL_F* value)
+{
+    /* The character atof() expects as decimal point depends on the locale. Numbers without one don't. */
+    const char* point = strchr(text, '.');
+    if (!point)
+    {
+        *value = atof(text);
+        return true;
+    }
+
+    int integer_digits = (int) (point - text);
+    int fraction_digits = (int) strspn(point + 1, "0123456789");
+    const char* exponent_text = point + 1 + fraction_digits;
+
+    /* Write a.be+n as abe+m, with an exponent less by the number of digits moved. */
+    long long exponent = *exponent_text ? strtoll(exponent_text + 1, NULL, 10) : 0;
+    if (exponent > LLONG_MIN / 2)
+    {
+        exponent -= fraction_digits;
+    }
+
+    size_t size = integer_digits + fraction_digits + 24;
+    char* number = malloc(size);
+    if (!number)
+    {
+        return false;
+    }
+
+    snprintf(number, size, "%.*s%.*se%lld", integer_digits, text, fraction_digits, point + 1, exponent);
+    *value = atof(number);
+
+    free(number);
+
+    return true;
+}
+
 prjm_eval_compiler_node_t* prjm_eval_compiler_create_constant(prjm_eval_compiler_context_t* cctx, PRJM_EVAL_F value)
 {
     prjm_eval_function_def_t* const_func = prjm_eval_compiler_get_function(cctx, "/*const*/");
diff --git a/projectm-eval/CompilerFunctions.h b/projectm-eval/CompilerFunctions.h
index e6fef1b..bd47e41 100644
--- a/projectm-eval/CompilerFunctions.h
+++ b/projectm-eval/CompilerFunctions.h
@@ -117,6 +117,14 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_expression(prjm_eval_compil
                                                                prjm_eval_function_def_t* func,
                                                                prjm_eval_compiler_arg_list_t* arglist);
 
+/**
+ * @brief Converts a decimal number with optional fraction and exponent, whichever locale the application uses.
+ * @param text The text of the number.
+ * @param value Receives the value of the number.
+ * @return false if memory ran out.
+ */
+bool prjm_eval_compiler_parse_number(const char* text, PRJM_EVAL_F* value);
+
 prjm_eval_compiler_node_t* prjm_eval_compiler_create_constant(prjm_eval_compiler_context_t* cctx,
                                                              PRJM_EVAL_F value);
 
diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index 0e35174..d8d3ce1 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -1449,7 +1449,11 @@ YY_RULE_SETUP
 case 14:
 YY_RULE_SETUP
 {
-                        yylval->NUM = atof(yytext);
+                        if (!prjm_eval_compiler_parse_number(yytext, &yylval->NUM))
+                        {
+                            prjm_eval_error(yylloc, cctx, yyscanner, "Out of memory.");
+                            return PRJM_EVAL_error;
+                        }
                         return NUM;
                     }
 	YY_BREAK
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index c6a808c..3f4a899 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -76,7 +76,11 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
 (?i:gmem)           { return GMEM; }
 
 {FLOAT}            {
-                        yylval->NUM = atof(yytext);
+                        if (!prjm_eval_compiler_parse_number(yytext, &yylval->NUM))
+                        {
+                            prjm_eval_error(yylloc, cctx, yyscanner, "Out of memory.");
+                            return PRJM_EVAL_error;
+                        }
                         return NUM;
                     }
 {NAME}              {
-- 
2.43.0

