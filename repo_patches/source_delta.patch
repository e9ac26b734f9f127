From 628c260b6e566b897cbefaa7daa812504f9f612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 01/44] fix: a throw never returns to the code that raised it,
 and unwinds inner catches

Lazy catch handlers were stored in a static array that scm_throw did not share,
in a wind-chain entry it did not recognise, and a handler's return value was
returned to the caller of scm_throw.  Leaving through an outer catch popped
only one entry of the catch stack, leaving dangling entries behind.
---
 src/c/throw.cc | 171 ++++++++++++++-----------------------------------
 src/c/throw.h  |   2 +-
 2 files changed, 50 insertions(+), 123 deletions(-)

diff --git a/src/c/throw.cc b/src/c/throw.cc
index 24aa4e3..04cb38b 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -35,8 +35,14 @@ struct lazy_catch_data {
   scm_t_catch_handler handler;
   void *handler_data;
   int lazy_catch_p;
+  int catch_depth;       // Catches that were active when the handler was installed
+  struct lazy_catch_data *outer;   // Next handler further out
 };
 
+// Innermost active lazy catch handler; the entries live on the C stack
+// (so they're protected from GC)
+static struct lazy_catch_data *g_lazy_catch_top = nullptr;
+
 // Helper function to check if two tags match
 static bool tags_match(SCM *tag, SCM *key) {
   // If tag is #t, it matches all keys
@@ -106,10 +112,16 @@ SCM *scm_c_catch(SCM *tag,
   // Push catch_info onto stack
   g_catch_stack[g_catch_stack_top++] = &info;
   
+  // Remember the dynamic context the handler has to run in
+  int saved_catch_top = g_catch_stack_top - 1;
+  struct lazy_catch_data *saved_lazy_top = g_lazy_catch_top;
+
   // Set up jump buffer
   if (setjmp(jbr.buf)) {
     // Exception was thrown - we're in the catch handler
-    g_catch_stack_top--;  // Pop from stack
+    // Pop this catch and every catch that was entered inside it
+    g_catch_stack_top = saved_catch_top;
+    g_lazy_catch_top = saved_lazy_top;
     
     SCM *throw_tag = jbr.throw_tag;
     SCM *throw_args = jbr.throw_args;
@@ -124,70 +136,47 @@ SCM *scm_c_catch(SCM *tag,
     jbr.active = false;
     
     // Pop from stack
-    g_catch_stack_top--;
+    g_catch_stack_top = saved_catch_top;
     
     return result;
   }
 }
 
 // Throw exception
-SCM *scm_throw(SCM *key, SCM *args) {
-  // First, check for lazy catch handlers in the wind chain
-  SCM_List *wind_current = g_wind_chain;
-  
-  // Static storage for lazy catch data (same as in scm_c_with_throw_handler)
-  static struct lazy_catch_data lazy_catch_storage[100];
-  
-  while (wind_current) {
-    SCM *entry = wind_current->data;
-    if (is_pair(entry)) {
-      SCM_List *pair = cast<SCM_List>(entry);
-      if (pair->data && tags_match(pair->data, key)) {
-        // Check if this is a lazy catch entry
-        if (pair->next && is_pair(pair->next->data)) {
-          SCM_List *marker_pair = cast<SCM_List>(pair->next->data);
-          if (marker_pair->data && is_sym(marker_pair->data)) {
-            SCM_Symbol *marker = cast<SCM_Symbol>(marker_pair->data);
-            if (strcmp(marker->data, "__lazy_catch__") == 0) {
-              // This is a lazy catch entry
-              if (marker_pair->next && marker_pair->next->data) {
-                SCM *index_list = marker_pair->next->data;
-                if (is_pair(index_list)) {
-                  SCM_List *index_pair = cast<SCM_List>(index_list);
-                  if (index_pair->data && is_num(index_pair->data)) {
-                    int storage_index = (int)(int64_t)index_pair->data->value;
-                    if (storage_index >= 0 && storage_index < 100) {
-                      struct lazy_catch_data *lcd = &lazy_catch_storage[storage_index];
-                      // Call the handler
-                      return lcd->handler(lcd->handler_data, key, args);
-                    }
-                  }
-                }
-              }
-            }
-          }
-        }
-      }
-    }
-    wind_current = wind_current->next;
-  }
-  
-  // Then, find matching catch in the catch stack (normal catch with stack unwinding)
-  // Search from top to bottom (most recent catch first)
+[[noreturn]] SCM *scm_throw(SCM *key, SCM *args) {
+  // Find the innermost matching catch (normal catch with stack unwinding)
+  struct catch_info *target = nullptr;
+  int target_index = -1;
   for (int i = g_catch_stack_top - 1; i >= 0; i--) {
     struct catch_info *info = g_catch_stack[i];
-    
     if (info && info->jbr && info->jbr->active && tags_match(info->tag, key)) {
-      // Found matching catch - set throw info and jump
-      info->jbr->throw_tag = key;
-      info->jbr->throw_args = args;
-      longjmp(info->jbr->buf, 1);
+      target = info;
+      target_index = i;
+      break;
     }
   }
-  
+
+  // First run the lazy catch handlers installed inside that catch, innermost
+  // first.  They run in the context of the throw; a handler that returns does
+  // not stop the throw.  While a handler runs, it and the handlers inside it
+  // are not active.
+  while (g_lazy_catch_top && g_lazy_catch_top->catch_depth > target_index) {
+    struct lazy_catch_data *lcd = g_lazy_catch_top;
+    g_lazy_catch_top = lcd->outer;
+    if (tags_match(lcd->tag, key)) {
+      lcd->handler(lcd->handler_data, key, args);
+    }
+  }
+
+  if (target) {
+    // Found matching catch - set throw info and jump
+    target->jbr->throw_tag = key;
+    target->jbr->throw_args = args;
+    longjmp(target->jbr->buf, 1);
+  }
+
   // No matching catch found - call uncaught throw handler
   scm_uncaught_throw(key, args);
-  return nullptr;  // Never reached
 }
 
 // Helper function to write to a port (for error messages)
@@ -320,88 +309,26 @@ SCM *scm_ithrow(SCM *key, SCM *args, int noreturn) {
   return scm_throw(key, args);
 }
 
-// Helper function to check if a wind chain entry is a lazy catch handler
-static bool is_lazy_catch_entry(SCM *entry, SCM *tag) {
-  // Check if entry is a pair and matches the tag
-  if (!is_pair(entry)) {
-    return false;
-  }
-  
-  SCM_List *pair = cast<SCM_List>(entry);
-  if (!pair->data || !is_sym(pair->data)) {
-    return false;
-  }
-  
-  // Check if tag matches
-  return tags_match(pair->data, tag);
-}
-
 // With throw handler (for lazy catch) - does not unwind stack
 SCM *scm_c_with_throw_handler(SCM *tag,
                               scm_t_catch_body body, void *body_data,
                               scm_t_catch_handler handler, void *handler_data,
                               int lazy_catch_p) {
-  // Create lazy catch data structure
   struct lazy_catch_data lcd;
   lcd.tag = tag;
   lcd.handler = handler;
   lcd.handler_data = handler_data;
   lcd.lazy_catch_p = lazy_catch_p;
-  
-  // Create a marker entry for the wind chain: (tag . lazy_catch_data_ptr)
-  // We'll use a special list structure to store this
-  // Format: (tag . (handler_ptr . handler_data_ptr))
-  // Actually, we need to store the lazy_catch_data pointer, but SCM_List only stores SCM*
-  // So we'll use a different approach: store it in a static array and use an index
-  // Or better: create a wrapper that we can store in the wind chain
-  
-  // For simplicity, we'll create a list entry: (tag . handler_info)
-  // where handler_info is a list containing the handler function pointer and data
-  // But we can't store function pointers directly in SCM objects.
-  
-  // Better approach: use a global array to store lazy_catch_data structures
-  // and store the index in the wind chain entry
-  static struct lazy_catch_data lazy_catch_storage[100];
-  static int lazy_catch_storage_top = 0;
-  
-  if (lazy_catch_storage_top >= 100) {
-    eval_error("scm_c_with_throw_handler: too many nested lazy catches");
-    return nullptr;
-  }
-  
-  int storage_index = lazy_catch_storage_top++;
-  lazy_catch_storage[storage_index] = lcd;
-  
-  // Create wind chain entry: (tag . storage_index)
-  // We'll use a special marker to distinguish lazy catch entries
-  // Format: (tag . (lazy_catch_marker . storage_index))
-  SCM_Symbol *lazy_catch_marker_sym = make_sym("__lazy_catch__");
-  SCM *lazy_catch_marker = wrap(lazy_catch_marker_sym);
-  SCM *index_scm = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
-  index_scm->type = SCM::NUM;
-  index_scm->value = (void*)(int64_t)storage_index;
-  index_scm->source_loc = nullptr;
-  
-  SCM_List *marker_pair = make_list(lazy_catch_marker);
-  marker_pair->next = make_list(index_scm);
-  
-  SCM_List *wind_entry = make_list(tag);
-  wind_entry->next = marker_pair;
-  SCM *wind_entry_wrapped = wrap(wind_entry);
-  
-  // Add to wind chain
-  SCM_List *old_wind_chain = g_wind_chain;
-  SCM_List *new_wind_entry = make_list(wind_entry_wrapped);
-  new_wind_entry->next = g_wind_chain;
-  g_wind_chain = new_wind_entry;
-  
+  lcd.catch_depth = g_catch_stack_top;
+  lcd.outer = g_lazy_catch_top;
+  g_lazy_catch_top = &lcd;
+
   // Call body
   SCM *result = body(body_data);
-  
-  // Remove from wind chain
-  g_wind_chain = old_wind_chain;
-  lazy_catch_storage_top--;  // Free the storage slot
-  
+
+  // The handler is no longer active
+  g_lazy_catch_top = lcd.outer;
+
   return result;
 }
 
diff --git a/src/c/throw.h b/src/c/throw.h
index 96388a8..7af6507 100644
--- a/src/c/throw.h
+++ b/src/c/throw.h
@@ -17,7 +17,7 @@ SCM *scm_c_catch(SCM *tag,
                  scm_t_catch_handler handler, void *handler_data);
 
 // Throw exception
-SCM *scm_throw(SCM *key, SCM *args);
+[[noreturn]] SCM *scm_throw(SCM *key, SCM *args);
 
 // Uncaught throw handler (prints error and exits)
 [[noreturn]] void scm_uncaught_throw(SCM *key, SCM *args);
-- 
2.43.0


From 02b4df4037673662362c709baa9429f65457fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 02/44] fix: eval_error and type_error never return to their
 caller

Callers rely on it (every type check in a builtin is 'if (!ok) eval_error()');
type_error/eval_error are now declared and kept non-returning.
---
 src/c/error.cc     | 9 ++++-----
 src/c/error.h      | 4 ++--
 src/c/pscm_types.h | 2 +-
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/c/error.cc b/src/c/error.cc
index ca81d7e..e3a3973 100644
--- a/src/c/error.cc
+++ b/src/c/error.cc
@@ -163,7 +163,7 @@ const char *get_type_name(SCM::Type type) {
   }
 }
 
-void type_error(SCM *data, const char *expected_type) {
+[[noreturn]] void type_error(SCM *data, const char *expected_type) {
   char message[1024];
   int pos = 0;
 
@@ -198,7 +198,7 @@ void type_error(SCM *data, const char *expected_type) {
   eval_error("%s", message);
 }
 
-void eval_error(const char *format, ...) {
+[[noreturn]] void eval_error(const char *format, ...) {
   va_list args;
   va_start(args, format);
 
@@ -235,9 +235,7 @@ void eval_error(const char *format, ...) {
   if (g_error_key) {
     scm_throw(g_error_key, error_args_wrapped);
   }
-  // Fallthrough: if scm_throw did not longjmp (should not happen normally
-  // since g_error_key is set during init and the API boundary wraps in
-  // catch-all), print the error and return so the host stays alive.
+  // No error key yet (init_throw has not run): nothing can handle the error.
   fprintf(stderr, "%s\n", full_message);
   fprintf(stderr, "\n=== Evaluation Call Stack ===\n");
   if (g_eval_stack) {
@@ -247,6 +245,7 @@ void eval_error(const char *format, ...) {
   }
   fprintf(stderr, "=== End of Call Stack ===\n");
   fflush(stderr);
+  exit(1);
 }
 
 // Catch-all handler for public API boundary.
diff --git a/src/c/error.h b/src/c/error.h
index 1fd7776..085331f 100644
--- a/src/c/error.h
+++ b/src/c/error.h
@@ -24,8 +24,8 @@ void print_eval_stack();
 const char *get_type_name(SCM::Type type);
 
 // Error handling functions
-void eval_error(const char *format, ...);
-void type_error(SCM *data, const char *expected_type);
+[[noreturn]] void eval_error(const char *format, ...);
+[[noreturn]] void type_error(SCM *data, const char *expected_type);
 
 // Helper function to print AST to stderr
 inline void print_ast_to_stderr(SCM *ast) {
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index b063ed3..face912 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -44,7 +44,7 @@ struct SCM {
 };
 
 // Forward declaration for type_error (implemented in eval.cc)
-void type_error(SCM *data, const char *expected_type);
+[[noreturn]] void type_error(SCM *data, const char *expected_type);
 
 struct SCM_Environment;
 
-- 
2.43.0


From 5323126480f447b21a5c1adeba01cc76bbb07569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 03/44] fix: objects a captured continuation needs survive a
 collection

---
 src/c/gc.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index e105de5..841e3e5 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -548,7 +548,17 @@ static void trace_cont(GCBlock *block, MarkStack *stack) {
   trace_ptr(cont->arg,          stack); // SCM*
   trace_ptr(cont->saved_module, stack); // SCM*
   trace_ptr(cont->wind_chain,   stack); // SCM_List*
-  // stack_data / dst / stack_src are internal C data -- not traced.
+  // The saved stack and registers are live again once the continuation is
+  // invoked, so whatever they refer to must survive: scan them conservatively.
+  if (cont->stack_data) {
+    for (size_t i = 0; i < cont->stack_len; i++) {
+      trace_ptr(((void **)cont->stack_data)[i], stack);
+    }
+  }
+  void **regs = (void **)&cont->cont_jump_buffer;
+  for (size_t i = 0; i < sizeof(jmp_buf) / (sizeof(void *)); i++) {
+    trace_ptr(regs[i], stack);
+  }
 }
 
 // --- GC_MODULE --------------------------------------------------------
-- 
2.43.0


From ca391a0834edcc240a76635ff8a76c2931dd2a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 04/44] fix: a reclaimed vector or hash table has no elements
 left to trace

---
 src/c/gc.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 841e3e5..8ab6e66 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -696,6 +696,7 @@ static void sweep_vector(GCBlock *block) {
   if (vec->elements) {
     delete[] vec->elements;
     vec->elements = nullptr;
+    vec->length = 0;
   }
 }
 
@@ -705,6 +706,7 @@ static void sweep_hash(GCBlock *block) {
   if (ht->buckets) {
     free(ht->buckets);
     ht->buckets = nullptr;
+    ht->capacity = 0;
   }
 }
 
@@ -753,6 +755,7 @@ static void sweep_cont(GCBlock *block) {
   if (cont->stack_data) {
     free(cont->stack_data);
     cont->stack_data = nullptr;
+    cont->stack_len = 0;
   }
 }
 
-- 
2.43.0


From 528214870ce280ebb31a394f6914d7afa05dd737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:59 +0000
Subject: [PATCH 05/44] fix: running out of heap segments is fatal instead of
 handing out a null block

---
 src/c/gc.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 8ab6e66..c015d4d 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -163,6 +163,13 @@ static void *bump_allocate(size_t total_size) {
   // If not enough room, grow the heap.
   if (bump + total_size > g_current_seg->start + g_current_seg->size) {
     size_t grow_sz = total_size > GROWTH_SIZE ? total_size : GROWTH_SIZE;
+    if (g_next_seg >= MAX_SEGMENTS) {
+      // Callers never see a failed allocation.
+      fprintf(stderr, "FATAL: gc heap segment pool exhausted (max %d)\n", MAX_SEGMENTS);
+      fflush(stderr);
+      abort();
+    }
+
     // mmap a new segment
     long page_size = sysconf(_SC_PAGESIZE);
     grow_sz = (grow_sz + page_size - 1) & ~(size_t)(page_size - 1);
@@ -175,11 +182,6 @@ static void *bump_allocate(size_t total_size) {
       abort();
     }
 
-    if (g_next_seg >= MAX_SEGMENTS) {
-      fprintf(stderr, "WARNING: gc heap segment pool exhausted (max %d), allocation failed\n", MAX_SEGMENTS);
-      fflush(stderr);
-      return nullptr;
-    }
     HeapSegment *seg = &g_seg_pool[g_next_seg++];
     seg->start = (char *)mem;
     seg->size  = grow_sz;
-- 
2.43.0


From bca0c7e43925df83d40e4cc34fbac1f5e33f9b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 06/44] fix: marking never reads between heap segments

---
 src/c/gc.cc | 11 ++++++++---
 src/c/gc.h  |  5 +++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index c015d4d..e6c2749 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -98,6 +98,13 @@ static void trace_macro(GCBlock *, MarkStack *);
 static void trace_variable(GCBlock *, MarkStack *);
 static void trace_smob(GCBlock *, MarkStack *);
 
+bool gc_in_segment(const void *p, size_t n) {
+  for (HeapSegment *seg = g_segments; seg; seg = seg->next) {
+    if ((const char *)p >= seg->start && (const char *)p + n <= seg->bump) return true;
+  }
+  return false;
+}
+
 // =========================================================================
 // Helper: convert an arbitrary pointer to a GCBlock and push if valid
 // =========================================================================
@@ -326,9 +333,7 @@ static void mark_if_valid_block(void *ptr, MarkStack *stack) {
   if (block_addr & (sizeof(GCBlock) - 1)) return;
 
   GCBlock *block = (GCBlock *)block_addr;
-  if (block->gc_magic == GC_MAGIC) {
-    push_if_unmarked(block, stack);
-  }
+  push_if_unmarked(block, stack);
 }
 
 static void scan_conservative_roots(MarkStack *stack) {
diff --git a/src/c/gc.h b/src/c/gc.h
index 0b0474d..f77656e 100644
--- a/src/c/gc.h
+++ b/src/c/gc.h
@@ -80,12 +80,17 @@ static const uint32_t GC_MAGIC = 0x1A3F5B;
 extern char *g_heap_start;
 extern char *g_heap_end;
 
+// True if the bytes [p, p + n) lie inside one heap segment.  Segments need
+// not be adjacent, so the overall bounds alone do not make memory readable.
+bool gc_in_segment(const void *p, size_t n);
+
 // Validate that a pointer looks like a real GCBlock inside the managed
 // heap (range check, alignment check, magic check).
 inline bool is_valid_block(const void *p) {
   return (const char *)p >= g_heap_start &&
          (const char *)p + sizeof(GCBlock) <= g_heap_end &&
          ((uintptr_t)p & (sizeof(GCBlock) - 1)) == 0 &&
+         gc_in_segment(p, sizeof(GCBlock)) &&
          ((const GCBlock *)p)->gc_magic == GC_MAGIC;
 }
 
-- 
2.43.0


From f9b3f7ff2a7c748856873919c4a85c6980fface9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 07/44] fix: map keeps its argument lists visible to the
 collector

---
 src/c/map.cc | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/c/map.cc b/src/c/map.cc
index 51be5b2..f09ca2a 100644
--- a/src/c/map.cc
+++ b/src/c/map.cc
@@ -53,8 +53,11 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     eval_error("map: requires at least one list argument");
   }
   
-  // Evaluate all list arguments and store them
-  SCM_List **list_ptrs = new SCM_List*[num_lists];
+  // Evaluate all list arguments.  The remaining lists are kept in a list of
+  // their own, one cell per argument: they must stay visible to the collector
+  // while procedures run, and a procedure may throw.
+  SCM_List lists_dummy = make_list_dummy();
+  SCM_List *lists_tail = &lists_dummy;
   temp = list_args_head;
   for (int i = 0; i < num_lists; i++) {
     // Always evaluate list arguments
@@ -63,7 +66,8 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     if (!is_pair(list_arg) && !is_nil(list_arg)) {
       eval_error("map: list arguments must be lists");
     }
-    list_ptrs[i] = is_nil(list_arg) ? nullptr : cast<SCM_List>(list_arg);
+    lists_tail->next = make_list(list_arg);
+    lists_tail = lists_tail->next;
     temp = temp->next;
   }
   
@@ -73,8 +77,8 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
   
   // Continue until the shortest list is exhausted
   bool all_non_empty = true;
-  for (int i = 0; i < num_lists; i++) {
-    if (!list_ptrs[i]) {
+  for (auto it = lists_dummy.next; it; it = it->next) {
+    if (is_nil(it->data)) {
       all_non_empty = false;
       break;
     }
@@ -86,13 +90,14 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     SCM_List args_dummy = make_list_dummy();
     SCM_List *args_tail = &args_dummy;
     
-    for (int i = 0; i < num_lists; i++) {
+    for (auto it = lists_dummy.next; it; it = it->next) {
+      auto list = cast<SCM_List>(it->data);
       // Wrap element in (quote element) to prevent evaluation
-      SCM *quoted_elem = scm_list2(scm_sym_quote(), list_ptrs[i]->data);
+      SCM *quoted_elem = scm_list2(scm_sym_quote(), list->data);
       SCM_List *node = make_list(quoted_elem);
       args_tail->next = node;
       args_tail = node;
-      list_ptrs[i] = list_ptrs[i]->next;
+      it->data = list->next ? wrap(list->next) : scm_nil();
     }
     
     // Apply proc to collected arguments
@@ -118,16 +123,14 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     
     // Check if all lists still have elements
     all_non_empty = true;
-    for (int i = 0; i < num_lists; i++) {
-      if (!list_ptrs[i]) {
+    for (auto it = lists_dummy.next; it; it = it->next) {
+      if (is_nil(it->data)) {
         all_non_empty = false;
         break;
       }
     }
   }
   
-  delete[] list_ptrs;
-  
   if (dummy.next) {
     return wrap(dummy.next);
   }
-- 
2.43.0


From 7898521f75acf50d1fef20f34df659e4780ac4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 08/44] fix: do keeps stepped values visible to the collector

---
 src/c/do.cc | 67 +++++++++++------------------------------------------
 1 file changed, 14 insertions(+), 53 deletions(-)

diff --git a/src/c/do.cc b/src/c/do.cc
index a3f296a..77a7b78 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -5,62 +5,25 @@
 // All update expressions are evaluated first (in parallel), then all variables are updated
 // This implements Scheme's parallel binding semantics for do loops
 void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
-  struct UpdatePair {
-    SCM_Symbol *var_name;
-    SCM *new_val;
-  };
-  
-  // First, collect all variable names and update expressions
-  // We use a vector-like approach: first count, then allocate, then process
-  int count = 0;
-  auto it = var_update_list;
-  while (it->next) {
-    count++;
-    it = it->next;
-  }
-  
-  if (count == 0) {
-    return;  // No variables to update
-  }
-  
-  // Allocate array to store variable names and new values
-  UpdatePair *updates = new UpdatePair[count];
-  int idx = 0;
-  
+  // New values are collected in a list: later update expressions may trigger a
+  // collection or leave through a throw, so they must not live in a plain array.
+  SCM_List new_vals = make_list_dummy();
+  SCM_List *new_vals_tail = &new_vals;
+
   // First pass: evaluate ALL update expressions BEFORE updating any variables
   // This ensures all update expressions see the old values of all variables
   // This is critical for correct parallel binding semantics
-  it = var_update_list;
+  auto it = var_update_list;
   while (it->next) {
     it = it->next;
-    auto list_wrapped = it->data;
-    if (!is_pair(list_wrapped)) {
-      eval_error("do: internal error - update list must be a pair");
-      delete[] updates;
-      return;
-    }
-    // list_wrapped is (var_name var_update_step)
-    auto var_update_expr = cast<SCM_List>(list_wrapped);
-    if (!var_update_expr->next) {
-      eval_error("do: internal error - update list must have two elements");
-      delete[] updates;
-      return;
-    }
-    if (!is_sym(var_update_expr->data)) {
-      eval_error("do: internal error - first element of update list must be a symbol");
-      delete[] updates;
-      return;
-    }
-    auto var_name = cast<SCM_Symbol>(var_update_expr->data);
-    auto var_update_step = var_update_expr->next->data;
+    // it->data is (var_name var_update_step)
+    auto var_update_step = cast<SCM_List>(it->data)->next->data;
 
     // CRITICAL: Evaluate update expression in current environment (before any updates)
     // This ensures all update expressions see the old values of all variables
     auto new_var_val = eval_with_env(do_env, var_update_step);
     if (!new_var_val) {
-      // Evaluation error occurred, clean up and return
-      delete[] updates;
-      return;
+      return;  // Evaluation error
     }
     
     if (debug_enabled) {
@@ -70,19 +33,17 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
       print_ast(new_var_val);
       printf("\n");
     }
-    updates[idx].var_name = var_name;
-    updates[idx].new_val = new_var_val;
-    idx++;
+    new_vals_tail->next = make_list(new_var_val);
+    new_vals_tail = new_vals_tail->next;
   }
   
   // Second pass: update all variables with the pre-computed values
   // This happens AFTER all update expressions have been evaluated
   // This implements parallel binding: all variables are updated simultaneously
-  for (int i = 0; i < count; i++) {
-    scm_env_insert(do_env, updates[i].var_name, updates[i].new_val);
+  auto val_it = new_vals.next;
+  for (it = var_update_list->next; it && val_it; it = it->next, val_it = val_it->next) {
+    scm_env_insert(do_env, cast<SCM_Symbol>(cast<SCM_List>(it->data)->data), val_it->data);
   }
-  
-  delete[] updates;
 }
 
 // Helper function for do special form
-- 
2.43.0


From 119dfae544d29af800a36078c0136e1b5acc047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 09/44] fix: for-each does not stop at an element that is the
 empty list

---
 src/c/for_each.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index 40170ef..ec86fdb 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -11,9 +11,10 @@ static int count_list_length(SCM_List *l) {
   return count;
 }
 
-// Helper function to check if a list node is exhausted (nil or null)
+// Helper function to check if a list is exhausted. An element that happens to
+// be the empty list does not end the list.
 static inline bool is_list_exhausted(SCM_List *list) {
-  return list == nullptr || is_nil(list->data);
+  return list == nullptr;
 }
 
 // Helper function for for-each special form
-- 
2.43.0


From e8e831940a22d4ad9119b9d9fb54bb1f8dcb7988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 10/44] fix: an embedding program's stack frames are scanned
 for live objects

---
 src/c/gc.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index e6c2749..12c8137 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -1,6 +1,7 @@
 #include "pscm.h"
 #include "gc.h"
 
+#include <pthread.h>
 #include <sys/mman.h>
 #include <unistd.h>
 
@@ -775,7 +776,30 @@ static void trace_smob(GCBlock *, MarkStack *) {
 // gc_init
 // =========================================================================
 
+// Highest address of this thread's stack, or null where it is not available.
+static char *thread_stack_top() {
+#if defined(__linux__)
+  pthread_attr_t attr;
+  if (pthread_getattr_np(pthread_self(), &attr) != 0) return nullptr;
+  void *addr = nullptr;
+  size_t size = 0;
+  int failed = pthread_attr_getstack(&attr, &addr, &size);
+  pthread_attr_destroy(&attr);
+  return failed ? nullptr : (char *)addr + size;
+#elif defined(__APPLE__)
+  return (char *)pthread_get_stackaddr_np(pthread_self());
+#else
+  return nullptr;
+#endif
+}
+
 void gc_init() {
+  // 0. A host program that embeds the interpreter does not know about the
+  // stack marker; its frames hold live objects too.
+  if (!g_gc_stack_top) {
+    g_gc_stack_top = thread_stack_top();
+  }
+
   // 1. Allocate the initial heap segment.
   long page_size = sysconf(_SC_PAGESIZE);
   size_t seg_size = (INITIAL_HEAP_SIZE + page_size - 1) & ~(size_t)(page_size - 1);
-- 
2.43.0


From c72f44fb727fb7708934dcfeab87f7cf4ec951e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 11/44] fix: the program being evaluated lies inside the
 scanned part of the stack

---
 src/main.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.cc b/src/main.cc
index 44664e0..41ecb79 100644
--- a/src/main.cc
+++ b/src/main.cc
@@ -40,8 +40,9 @@ void show_usage() {
 }
 
 int do_eval(const char *filename) {
-  long stack_marker;
-  gc_set_stack_top(&stack_marker);
+  // The frame address, not that of a local: the list being evaluated may be
+  // laid out above any other local of this frame.
+  gc_set_stack_top(__builtin_frame_address(0));
   pscm_init();
   auto l = pscm_parse_file(filename);
   if (!l) {
-- 
2.43.0


From 31cf5245c75e5aecf088b9f225d96f171b479100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 12/44] fix: values of read and debug options are roots

---
 src/c/debug.cc | 7 +++++++
 src/c/read.cc  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/c/debug.cc b/src/c/debug.cc
index 12a935a..baf7120 100644
--- a/src/c/debug.cc
+++ b/src/c/debug.cc
@@ -277,6 +277,13 @@ SCM *scm_c_debug_options_interface(SCM_List *args) {
 
 // Initialize debug options system
 void init_debug_options() {
+  // An option of type SCM holds a reference to its value
+  for (int i = 0; i < SCM_N_DEBUG_OPTIONS; i++) {
+    if (scm_debug_opts[i].type == SCM_OPTION_SCM) {
+      gc_register_root((SCM **)&scm_debug_opts[i].val, scm_debug_opts[i].name);
+    }
+  }
+
   // Register Scheme functions
   scm_define_vararg_function("debug-options-interface", scm_c_debug_options_interface);
   
diff --git a/src/c/read.cc b/src/c/read.cc
index fa477e4..31f9046 100644
--- a/src/c/read.cc
+++ b/src/c/read.cc
@@ -495,6 +495,13 @@ SCM *scm_c_read_disable(SCM_List *args) {
 
 // Initialize read options system
 void init_read_options() {
+  // An option of type SCM holds a reference to its value
+  for (int i = 0; i < SCM_N_READ_OPTIONS; i++) {
+    if (scm_read_opts[i].type == SCM_OPTION_SCM) {
+      gc_register_root((SCM **)&scm_read_opts[i].val, scm_read_opts[i].name);
+    }
+  }
+
   // Register Scheme functions
   scm_define_vararg_function("read-options-interface", scm_c_read_options_interface);
   
-- 
2.43.0


From 7c490d125e94c3c1a0cb3dbd476bdc7138f80e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 13/44] fix: copying a source location onto the same object
 does not read freed memory

---
 src/c/source_location.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/source_location.cc b/src/c/source_location.cc
index caec318..65bcb18 100644
--- a/src/c/source_location.cc
+++ b/src/c/source_location.cc
@@ -22,7 +22,8 @@ void set_source_location(SCM *scm, const char *filename, int line, int column) {
 
 // Helper function to copy source location from one node to another
 void copy_source_location(SCM *dest, SCM *src) {
-  if (!dest || !src || !src->source_loc) return;
+  // dest and src may be the same object: a macro expansion contains parts of the call
+  if (!dest || !src || dest == src || !src->source_loc) return;
   if (!dest->source_loc) {
     dest->source_loc = new SCM_SourceLocation();
     dest->source_loc->filename = nullptr;
-- 
2.43.0


From aabcdee210c09f27d9a6b9e60bbea1ca2d72f233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:53 +0000
Subject: [PATCH 14/44] fix: arithmetic on ratios and non-numbers raises or
 computes instead of asserting

---
 src/c/number.cc | 80 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 68 insertions(+), 12 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 8082c2e..1832836 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -78,11 +78,33 @@ SCM *scm_c_is_zero(SCM *arg) {
   return scm_bool_false();
 }
 
+static void check_number(SCM *arg) {
+  if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
+    eval_error("expected number");
+  }
+}
+
 // Type promotion: if either operand is float, promote both to float
 static bool needs_float_promotion(SCM *lhs, SCM *rhs) {
+  check_number(lhs);
+  check_number(rhs);
   return is_float(lhs) || is_float(rhs);
 }
 
+// Ordering also compares ratios as floats
+static bool needs_float_comparison(SCM *lhs, SCM *rhs) {
+  return needs_float_promotion(lhs, rhs) || is_ratio(lhs) || is_ratio(rhs);
+}
+
+// Numerator and denominator of an exact number
+static int64_t exact_numerator(SCM *arg) {
+  return is_ratio(arg) ? cast<SCM_Rational>(arg)->numerator : (int64_t)arg->value;
+}
+
+static int64_t exact_denominator(SCM *arg) {
+  return is_ratio(arg) ? cast<SCM_Rational>(arg)->denominator : 1;
+}
+
 template <typename Op>
 struct BinaryOperator {
   static SCM *run(SCM *lhs, SCM *rhs) {
@@ -103,8 +125,9 @@ struct BinaryOperator {
       }
     } else {
       // Integer operation
-      assert(is_num(lhs));
-      assert(is_num(rhs));
+      if (!is_num(lhs) || !is_num(rhs)) {
+        eval_error("expected integer");
+      }
       int64_t n_lhs = (int64_t)lhs->value;
       int64_t n_rhs = (int64_t)rhs->value;
       auto ret = Op::run(n_lhs, n_rhs);
@@ -198,6 +221,8 @@ struct EqOp {
   }
 };
 
+bool _number_eq(SCM *lhs, SCM *rhs);
+
 SCM *scm_c_eq_number(SCM *lhs, SCM *rhs) {
   // Use double comparison for mixed types
   if (needs_float_promotion(lhs, rhs)) {
@@ -205,6 +230,9 @@ SCM *scm_c_eq_number(SCM *lhs, SCM *rhs) {
     double d_rhs = scm_to_double(rhs);
     return (d_lhs == d_rhs) ? scm_bool_true() : scm_bool_false();
   }
+  if (is_ratio(lhs) || is_ratio(rhs)) {
+    return _number_eq(lhs, rhs) ? scm_bool_true() : scm_bool_false();
+  }
   return BinaryOperator<EqOp<bool, int64_t>>::run(lhs, rhs);
 }
 
@@ -215,6 +243,11 @@ SCM *scm_c_add_number(SCM *lhs, SCM *rhs) {
     double d_rhs = scm_to_double(rhs);
     return scm_from_double(d_lhs + d_rhs);
   }
+  if (is_ratio(lhs) || is_ratio(rhs)) {
+    int64_t den1 = exact_denominator(lhs);
+    int64_t den2 = exact_denominator(rhs);
+    return scm_make_ratio(exact_numerator(lhs) * den2 + exact_numerator(rhs) * den1, den1 * den2);
+  }
   return BinaryOperator<AddOp<int64_t, int64_t>>::run(lhs, rhs);
 }
 
@@ -225,6 +258,11 @@ SCM *scm_c_minus_number(SCM *lhs, SCM *rhs) {
     double d_rhs = scm_to_double(rhs);
     return scm_from_double(d_lhs - d_rhs);
   }
+  if (is_ratio(lhs) || is_ratio(rhs)) {
+    int64_t den1 = exact_denominator(lhs);
+    int64_t den2 = exact_denominator(rhs);
+    return scm_make_ratio(exact_numerator(lhs) * den2 - exact_numerator(rhs) * den1, den1 * den2);
+  }
   return BinaryOperator<MinusOp<int64_t, int64_t>>::run(lhs, rhs);
 }
 
@@ -239,6 +277,9 @@ SCM *scm_c_negate_number(SCM *arg) {
     data->type = SCM::NUM;
     data->value = (void *)(-val);
     return data;
+  } else if (is_ratio(arg)) {
+    SCM_Rational *rat = cast<SCM_Rational>(arg);
+    return scm_make_ratio(-rat->numerator, rat->denominator);
   }
   eval_error("negate: expected number");
   return nullptr;
@@ -274,7 +315,7 @@ SCM *scm_c_minus_wrapper(SCM_List *args) {
       return nullptr;
     }
     // Check if argument is a number
-    if (!is_num(args->data) && !is_float(args->data)) {
+    if (!is_num(args->data) && !is_float(args->data) && !is_ratio(args->data)) {
       eval_error("-: expected number");
       return nullptr;
     }
@@ -292,6 +333,8 @@ SCM *scm_c_minus_wrapper(SCM_List *args) {
 }
 
 SCM *scm_c_mul_number(SCM *lhs, SCM *rhs) {
+  check_number(lhs);
+  check_number(rhs);
   // Handle ratio (rational number) multiplication
   if (is_ratio(lhs) || is_ratio(rhs)) {
     // Convert both to numerator/denominator form
@@ -339,7 +382,7 @@ SCM *scm_c_mul_number(SCM *lhs, SCM *rhs) {
 }
 
 SCM *scm_c_lt_eq_number(SCM *lhs, SCM *rhs) {
-  if (needs_float_promotion(lhs, rhs)) {
+  if (needs_float_comparison(lhs, rhs)) {
     double d_lhs = scm_to_double(lhs);
     double d_rhs = scm_to_double(rhs);
     return (d_lhs <= d_rhs) ? scm_bool_true() : scm_bool_false();
@@ -348,7 +391,7 @@ SCM *scm_c_lt_eq_number(SCM *lhs, SCM *rhs) {
 }
 
 SCM *scm_c_gt_eq_number(SCM *lhs, SCM *rhs) {
-  if (needs_float_promotion(lhs, rhs)) {
+  if (needs_float_comparison(lhs, rhs)) {
     double d_lhs = scm_to_double(lhs);
     double d_rhs = scm_to_double(rhs);
     return (d_lhs >= d_rhs) ? scm_bool_true() : scm_bool_false();
@@ -357,7 +400,7 @@ SCM *scm_c_gt_eq_number(SCM *lhs, SCM *rhs) {
 }
 
 SCM *scm_c_lt_number(SCM *lhs, SCM *rhs) {
-  if (needs_float_promotion(lhs, rhs)) {
+  if (needs_float_comparison(lhs, rhs)) {
     double d_lhs = scm_to_double(lhs);
     double d_rhs = scm_to_double(rhs);
     return (d_lhs < d_rhs) ? scm_bool_true() : scm_bool_false();
@@ -366,7 +409,7 @@ SCM *scm_c_lt_number(SCM *lhs, SCM *rhs) {
 }
 
 SCM *scm_c_gt_number(SCM *lhs, SCM *rhs) {
-  if (needs_float_promotion(lhs, rhs)) {
+  if (needs_float_comparison(lhs, rhs)) {
     double d_lhs = scm_to_double(lhs);
     double d_rhs = scm_to_double(rhs);
     return (d_lhs > d_rhs) ? scm_bool_true() : scm_bool_false();
@@ -492,7 +535,17 @@ SCM *scm_c_ge_chain(SCM_List *args) {
 }
 
 SCM *scm_c_abs(SCM *arg) {
-  assert(is_num(arg));
+  if (is_float(arg)) {
+    return scm_from_double(std::fabs(ptr_to_double(arg->value)));
+  }
+  if (is_ratio(arg)) {
+    SCM_Rational *rat = cast<SCM_Rational>(arg);
+    return rat->numerator < 0 ? scm_make_ratio(-rat->numerator, rat->denominator) : arg;
+  }
+  if (!is_num(arg)) {
+    eval_error("abs: expected number");
+    return nullptr;
+  }
   int64_t val = (int64_t)arg->value;
   int64_t abs_val = val < 0 ? -val : val;
   SCM *data = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
@@ -521,8 +574,8 @@ bool _number_eq(SCM *lhs, SCM *rhs) {
     double d_rhs = scm_to_double(rhs);
     return d_lhs == d_rhs;
   }
-  auto ret = BinaryOperator<EqOp<bool, int64_t>>::run(lhs, rhs);
-  return is_true(ret);
+  // Ratios are kept in lowest terms
+  return exact_numerator(lhs) == exact_numerator(rhs) && exact_denominator(lhs) == exact_denominator(rhs);
 }
 
 SCM *_create_num(int64_t val) {
@@ -742,8 +795,11 @@ SCM *scm_c_min(SCM_List *args) {
 }
 
 SCM *scm_c_expt(SCM *base, SCM *exp) {
-  assert(is_num(base));
-  assert(is_num(exp));
+  check_number(base);
+  check_number(exp);
+  if (!is_num(base) || !is_num(exp)) {
+    return scm_from_double(std::pow(scm_to_double(base), scm_to_double(exp)));
+  }
   int64_t n1 = (int64_t)base->value;
   int64_t n2 = (int64_t)exp->value;
   
-- 
2.43.0


From 53b61da47697973c21a36a5aa8daac0516f98b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 15/44] fix: integer division never traps on the most negative
 integer

---
 src/c/number.cc | 31 ++++++++++++++++++++++++++-----
 src/c/string.cc |  6 +++---
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 1832836..568d21c 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -594,7 +594,7 @@ static int64_t gcd(int64_t a, int64_t b) {
     b = a % b;
     a = temp;
   }
-  return a;
+  return a < 0 ? -a : a;
 }
 
 // gcd: Return the greatest common divisor of the arguments
@@ -663,7 +663,10 @@ SCM *scm_c_lcm(SCM_List *args) {
     if (g == 0) {
       return _create_num(0);
     }
-    result = (result / g) * val;
+    if (g > 1) {
+      result /= g;
+    }
+    result *= val;
     current = current->next;
   }
   
@@ -690,8 +693,10 @@ SCM *scm_make_ratio(int64_t numerator, int64_t denominator) {
   
   // Simplify the fraction using GCD
   int64_t g = gcd(numerator, denominator);
-  numerator /= g;
-  denominator /= g;
+  if (g > 1) {
+    numerator /= g;
+    denominator /= g;
+  }
   
   // If denominator is 1, return an integer
   if (denominator == 1) {
@@ -943,7 +948,13 @@ SCM *scm_c_div(SCM_List *args) {
       // For floats, switch to float arithmetic
       double result = (double)result_num / (double)result_den;
       while (current) {
-        result /= scm_to_double(current->data);
+        check_number(current->data);
+        double divisor = scm_to_double(current->data);
+        if (divisor == 0.0) {
+          eval_error("/: division by zero");
+          return nullptr;
+        }
+        result /= divisor;
         current = current->next;
       }
       return scm_from_double(result);
@@ -982,6 +993,10 @@ SCM *scm_c_quotient(SCM *n1, SCM *n2) {
     return nullptr;
   }
   
+  if (num2 == -1) {
+    return scm_c_negate_number(n1); // the most negative integer has no quotient
+  }
+
   return _create_num(num1 / num2);
 }
 
@@ -1002,6 +1017,9 @@ SCM *scm_c_modulo(SCM *n1, SCM *n2) {
     eval_error("modulo: division by zero");
     return nullptr;
   }
+  if (num2 == -1) {
+    return _create_num(0);
+  }
   
   int64_t m = num1 / num2;
   int64_t ret = num1 - num2 * m;
@@ -1033,6 +1051,9 @@ SCM *scm_c_remainder(SCM *n1, SCM *n2) {
     eval_error("remainder: division by zero");
     return nullptr;
   }
+  if (num2 == -1) {
+    return _create_num(0);
+  }
   
   int64_t m = num1 / num2;
   return _create_num(num1 - num2 * m);
diff --git a/src/c/string.cc b/src/c/string.cc
index 07ef9d1..8738d97 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -478,16 +478,16 @@ static char* int_to_string_radix(int64_t val, int radix) {
   
   // Handle negative numbers
   bool negative = false;
-  int64_t uval;
+  uint64_t uval;
   if (val < 0) {
     negative = true;
-    uval = -val;
+    uval = 0 - (uint64_t)val;
   } else {
     uval = val;
   }
   
   // Calculate string length
-  int64_t temp = uval;
+  uint64_t temp = uval;
   int len = 0;
   while (temp > 0) {
     len++;
-- 
2.43.0


From 3bf337737af255836d09b4584b6415f138398723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:28 +0000
Subject: [PATCH 16/44] fix: hash tables find every key their equivalence
 considers equal

---
 src/c/hash_table.cc | 162 +++++++++++++++++++-------------------------
 1 file changed, 70 insertions(+), 92 deletions(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 8d2fddb..55e19fc 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -1,5 +1,8 @@
 #include "pscm.h"
 #include "eval.h"
+#include "smob.h"
+
+SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs);
 
 
 // Helper function to compute content-based hash for symbols and strings
@@ -11,123 +14,98 @@ static inline unsigned long hash_string_content(const char *data, int len) {
   return h;
 }
 
-// Hash function for eq? (pointer equality)
-static unsigned long scm_hash_code_eq(SCM *key) {
-  // For symbols, use content-based hash (same as equal?) to ensure compatibility
-  // This allows hash-set! and hashq-get-handle to work on the same table
-  // In Guile, symbols are interned so eq? and equal? hash to the same value
-  if (is_sym(key)) {
+// Hash of a key that is not compared element by element.  Keys the equivalence
+// predicates consider the same must hash to the same value, so everything they
+// compare by content is hashed by content.
+static unsigned long hash_atom(SCM *key) {
+  switch (key->type) {
+  case SCM::NONE:
+  case SCM::NIL:
+    return 0;
+  case SCM::SYM: {
     auto sym = cast<SCM_Symbol>(key);
     return hash_string_content(sym->data, sym->len);
   }
-  // For eq?, use pointer address as hash
-  return (unsigned long)(uintptr_t)key;
-}
-
-// Hash function for eqv? (value equality for numbers/chars)
-static unsigned long scm_hash_code_eqv(SCM *key) {
-  if (is_num(key)) {
+  case SCM::STR: {
+    auto str = cast<SCM_String>(key);
+    return hash_string_content(str->data, str->len);
+  }
+  case SCM::NUM:
     return (unsigned long)(int64_t)key->value;
+  case SCM::FLOAT: {
+    // An integral float is equal to the integer
+    double val = ptr_to_double(key->value);
+    if (val >= -9.2e18 && val <= 9.2e18) {
+      return (unsigned long)(int64_t)val;
+    }
+    return 1;
   }
-  if (is_char(key)) {
-    return (unsigned char)ptr_to_char(key->value);
+  case SCM::RATIO: {
+    auto rat = cast<SCM_Rational>(key);
+    return (unsigned long)rat->numerator * 31 + (unsigned long)rat->denominator;
   }
-  if (is_bool(key)) {
+  case SCM::CHAR:
+    return (unsigned char)ptr_to_char(key->value);
+  case SCM::BOOL:
     return is_true(key) ? 1 : 0;
+  default:
+    return (unsigned long)(uintptr_t)key;
   }
-  // Fallback to pointer hash
-  return scm_hash_code_eq(key);
 }
 
-// Hash function for equal? (deep equality)
-// Helper function to compute hash code for a list recursively
-static unsigned long hash_list_content(SCM *list) {
-  if (!list || !is_pair(list)) {
-    return 0;
-  }
-  auto l = cast<SCM_List>(list);
-  unsigned long hash = 0;
-  while (l) {
-    // Hash the car
-    unsigned long car_hash = 0;
-    if (is_sym(l->data)) {
-      auto sym = cast<SCM_Symbol>(l->data);
-      car_hash = hash_string_content(sym->data, sym->len);
-    } else if (is_str(l->data)) {
-      auto str = cast<SCM_String>(l->data);
-      car_hash = hash_string_content(str->data, str->len);
-    } else if (is_num(l->data)) {
-      car_hash = (unsigned long)(int64_t)l->data->value;
-    } else if (is_pair(l->data)) {
-      car_hash = hash_list_content(l->data);
-    } else {
-      car_hash = (unsigned long)(uintptr_t)l->data;
-    }
-    // Combine hashes
-    hash = hash * 31 + car_hash;
-    l = l->next;
-  }
-  return hash;
+// Hash function for eq?
+static unsigned long scm_hash_code_eq(SCM *key) {
+  return hash_atom(key);
 }
 
+// Hash function for eqv?
+static unsigned long scm_hash_code_eqv(SCM *key) {
+  return hash_atom(key);
+}
+
+// Hash function for equal? (deep equality)
 static unsigned long scm_hash_code_equal(SCM *key) {
-  // For symbols, use content-based hash (not pointer-based) for equal?
-  // This ensures that different symbol objects with the same name hash to the same value
-  if (is_sym(key)) {
-    auto sym = cast<SCM_Symbol>(key);
-    return hash_string_content(sym->data, sym->len);
-  }
-  // For strings, use content-based hash
-  if (is_str(key)) {
-    auto str = cast<SCM_String>(key);
-    return hash_string_content(str->data, str->len);
+  if (is_pair(key)) {
+    unsigned long hash = 0;
+    auto l = cast<SCM_List>(key);
+    while (l) {
+      hash = hash * 31 + scm_hash_code_equal(l->data);
+      l = l->next;
+      // (a . (b c)) is equal to (a b c)
+      if (l && l->is_dotted && is_pair(l->data)) {
+        l = cast<SCM_List>(l->data);
+      } else if (l && l->is_dotted && is_nil(l->data)) {
+        l = nullptr;
+      }
+    }
+    return hash;
   }
-  // For numbers, use value-based hash
-  if (is_num(key)) {
-    return (unsigned long)(int64_t)key->value;
+  if (is_vector(key)) {
+    auto vec = cast<SCM_Vector>(key);
+    unsigned long hash = vec->length;
+    for (size_t i = 0; i < vec->length; i++) {
+      hash = hash * 31 + scm_hash_code_equal(vec->elements[i]);
+    }
+    return hash;
   }
-  // For lists, use content-based hash
-  if (is_pair(key)) {
-    return hash_list_content(key);
+  if (is_smob(key)) {
+    // A smob type may define its own equality
+    return (unsigned long)cast<SCM_Smob>(key)->tag;
   }
-  // Fallback to pointer hash
-  return scm_hash_code_eq(key);
+  return hash_atom(key);
 }
 
 // Comparison functions
 static bool scm_cmp_eq(SCM *lhs, SCM *rhs) {
-  // For symbols, use content-based comparison (same as equal?) to ensure compatibility
-  // This allows hash-set! and hashq-get-handle to work on the same table
-  // In Guile, symbols are interned so eq? and equal? return the same value
-  if (is_sym(lhs) && is_sym(rhs)) {
-    auto sym1 = cast<SCM_Symbol>(lhs);
-    auto sym2 = cast<SCM_Symbol>(rhs);
-    if (sym1->len != sym2->len) {
-      return false;
-    }
-    // Use memcmp since we already know lengths are equal
-    return memcmp(sym1->data, sym2->data, sym1->len) == 0;
-  }
-  return lhs == rhs;
+  return is_true(scm_c_is_eq(lhs, rhs));
 }
 
 static bool scm_cmp_eqv(SCM *lhs, SCM *rhs) {
-  if (lhs == rhs) return true;
-  if (lhs->type != rhs->type) return false;
-  if (is_num(lhs)) {
-    return lhs->value == rhs->value;
-  }
-  if (is_char(lhs)) {
-    return ptr_to_char(lhs->value) == ptr_to_char(rhs->value);
-  }
-  if (is_bool(lhs)) {
-    return is_true(lhs) == is_true(rhs);
-  }
-  return lhs == rhs;
+  return is_true(scm_c_is_eqv(lhs, rhs));
 }
 
 static bool scm_cmp_equal(SCM *lhs, SCM *rhs) {
-  return _eq(lhs, rhs);
+  return is_true(scm_c_is_equal(lhs, rhs));
 }
 
 // Helper function to validate hash table and compute bucket index
@@ -346,7 +324,7 @@ SCM *scm_c_hash_create_handle(SCM *table, SCM *key, SCM *value,
   if (entry) {
     update_entry_value(entry, value);
     // Return the entry pair (key . value)
-    return scm_cons(entry->data, entry->next->data);
+    return wrap(entry);
   }
   
   // Create new entry and insert at head of bucket
-- 
2.43.0


From e22bc41dea874ca1c4c86ba5b2ee5660573a2a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 17/44] fix: equivalence of ports, promises and other
 references, and hash table sizes out of range, do not raise or crash

---
 src/c/eq.cc         |  5 ++---
 src/c/hash_table.cc | 10 +++++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/c/eq.cc b/src/c/eq.cc
index 4724daf..bd135fc 100644
--- a/src/c/eq.cc
+++ b/src/c/eq.cc
@@ -201,9 +201,8 @@ bool _eq(SCM *lhs, SCM *rhs) {
     // Ratios are compared numerically
     return _number_eq(lhs, rhs);
   default:
-    SCM_ERROR_EVAL("unsupported scheme type %d", lhs->type);
-    eval_error("unsupported scheme type %d", lhs->type);
-    return false;
+    // Everything else is compared by reference
+    return lhs == rhs;
   }
 }
 
diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 55e19fc..c68689c 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -222,9 +222,13 @@ SCM *scm_c_make_hash_table(SCM *size_arg) {
       eval_error("make-hash-table: size must be an integer");
       return nullptr;
     }
-    capacity = (size_t)(int64_t)size_arg->value;
-    if (capacity == 0) {
-      capacity = 31;
+    int64_t size = (int64_t)size_arg->value;
+    if (size < 0 || size > (1 << 24)) {
+      eval_error("make-hash-table: size out of range");
+      return nullptr;
+    }
+    if (size > 0) {
+      capacity = (size_t)size;
     }
   }
   
-- 
2.43.0


From 27c4a3bf06e088c22db5e0617056b1a514af943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 18/44] fix: malformed special forms raise errors instead of
 tripping assertions or dereferencing null

---
 src/c/case.cc     |  9 +++++++-
 src/c/cond.cc     | 18 ++++++++++++++--
 src/c/define.cc   |  6 +++++-
 src/c/do.cc       |  5 ++++-
 src/c/dynwind.cc  |  5 ++++-
 src/c/eval.cc     | 34 +++++++++++++++++++----------
 src/c/for_each.cc |  5 ++++-
 src/c/let.cc      | 55 ++++++++++++++++++++++++++++++++++-------------
 8 files changed, 104 insertions(+), 33 deletions(-)

diff --git a/src/c/case.cc b/src/c/case.cc
index ea4f418..1a9f968 100644
--- a/src/c/case.cc
+++ b/src/c/case.cc
@@ -22,7 +22,10 @@ static bool value_in_datums(SCM *value, SCM_List *datums) {
 // Helper function for case special form
 // Syntax: (case key ((datum1 ...) expr1 ...) ((datum2 ...) expr2 ...) ... (else expr ...))
 SCM *eval_case(SCM_Environment *env, SCM_List *l) {
-  assert(l->next);  // Must have at least key expression
+  if (!l->next) {
+    eval_error("case: bad syntax");
+    return nullptr;
+  }
   
   // Evaluate the key expression
   SCM *key = eval_with_env(env, l->next->data);
@@ -36,6 +39,10 @@ SCM *eval_case(SCM_Environment *env, SCM_List *l) {
   // Process each clause
   for (SCM_List *clause_it = l->next->next; clause_it; clause_it = clause_it->next) {
     auto clause = cast<SCM_List>(clause_it->data);
+    if (!clause || !clause->next) {
+      eval_error("case: bad syntax");
+      return nullptr;
+    }
     
     if (debug_enabled) {
       SCM_DEBUG_EVAL("eval case clause ");
diff --git a/src/c/cond.cc b/src/c/cond.cc
index a637543..fa43a13 100644
--- a/src/c/cond.cc
+++ b/src/c/cond.cc
@@ -9,15 +9,26 @@ static bool is_literal(SCM_Environment *env, SCM_Symbol *sym) {
 
 // Helper function for cond special form
 SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  if (!l->next) {
+    eval_error("cond: bad syntax");
+    return nullptr;
+  }
   for (auto it = l->next; it; it = it->next) {
     auto clause = cast<SCM_List>(it->data);
+    if (!clause) {
+      eval_error("cond: bad syntax");
+      return nullptr;
+    }
     if (debug_enabled) {
       SCM_DEBUG_EVAL("eval cond clause ");
       print_list(clause);
       printf("\n");
     }
     if (is_sym_val(clause->data, "else")) {
+      if (!clause->next) {
+        eval_error("cond: bad syntax");
+        return nullptr;
+      }
       return eval_with_list(env, clause->next);
     }
     auto pred = eval_with_env(env, clause->data);
@@ -35,7 +46,10 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       SCM_Symbol *arrow_sym = cast<SCM_Symbol>(clause->next->data);
       // Check if => is literal (not bound in environment), similar to Guile's literal_p
       if (is_literal(env, arrow_sym)) {
-        assert(clause->next->next);
+        if (!clause->next->next) {
+          eval_error("cond: bad syntax");
+          return nullptr;
+        }
         // First evaluate the procedure (clause->next->next->data) to get the actual procedure
         // Then call it with pred as argument
         // Build: (proc (quote pred))
diff --git a/src/c/define.cc b/src/c/define.cc
index d1133b4..0e7e602 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -2,6 +2,10 @@
 #include "eval.h"
 
 SCM *eval_define(SCM_Environment *env, SCM_List *l) {
+  if (!l->next) {
+    eval_error("define: bad syntax");
+    return nullptr;
+  }
   if (l->next && is_sym(l->next->data)) {
     // Define variable: (define var value)
     SCM_Symbol *varname = cast<SCM_Symbol>(l->next->data);
@@ -103,7 +107,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
   if (!is_sym(key)) {
     // Regular define: (define (name args...) body...)
     SCM_List *proc_sig = cast<SCM_List>(l->next->data);
-    if (!is_sym(proc_sig->data)) {
+    if (!proc_sig || !is_sym(proc_sig->data)) {
       eval_error("not supported define form");
       return nullptr;
     }
diff --git a/src/c/do.cc b/src/c/do.cc
index 77a7b78..a554310 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -50,7 +50,10 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
 SCM *eval_do(SCM_Environment *env, SCM_List *l) {
   assert(env);
   assert(l);
-  assert(l->next && l->next->next);
+  if (!l->next || !l->next->next) {
+    eval_error("do: bad syntax");
+    return nullptr;
+  }
   auto var_init_l = cast<SCM_List>(l->next->data);
   auto test_clause = l->next->next->data;
   auto body_clause = l->next->next->next;  // May be null if no body
diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index 0cf4cb0..91cf36c 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -177,7 +177,10 @@ void rewind_wind_chain(SCM_List *common, SCM_List *target) {
 
 // Dynamic-wind special form handler
 SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
-  assert(l->next && l->next->next && l->next->next->next);
+  if (!l->next || !l->next->next || !l->next->next->next) {
+    eval_error("dynamic-wind: bad syntax");
+    return nullptr;
+  }
   
   // Evaluate the three arguments: in_guard, thunk, out_guard
   SCM *in_guard_val = eval_with_env(env, l->next->data);
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 3a15e19..2bf7fdb 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -8,8 +8,7 @@
 #include <cstdlib>
 
 SCM *eval_with_list(SCM_Environment *env, SCM_List *l) {
-  assert(l);
-  SCM *ret = nullptr;
+  SCM *ret = scm_none(); // value of an empty body
   while (l) {
     ret = eval_with_env(env, l->data);
     l = l->next;
@@ -70,7 +69,10 @@ static SCM *eval_quote(SCM_List *l) {
 SCM *eval_quasiquote(SCM_Environment *env, SCM_List *l);
 
 static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
-  assert(l->next && is_sym(l->next->data));
+  if (!l->next || !is_sym(l->next->data) || !l->next->next) {
+    eval_error("set!: bad syntax");
+    return nullptr;
+  }
   auto sym = cast<SCM_Symbol>(l->next->data);
   auto val = eval_with_env(env, l->next->next->data);
   
@@ -122,6 +124,10 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
 }
 
 SCM *eval_lambda(SCM_Environment *env, SCM_List *l) {
+  if (!l->next) {
+    eval_error("lambda: bad syntax");
+    return nullptr;
+  }
   SCM *param_spec = l->next->data;
   SCM_List *proc_sig = nullptr;
   
@@ -166,7 +172,10 @@ static SCM *lookup_symbol(SCM_Environment *env, SCM_Symbol *sym) {
 
 // Helper function for if special form
 static SCM *eval_if(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  if (!l->next || !l->next->next) {
+    eval_error("if: bad syntax");
+    return nullptr;
+  }
   auto pred = eval_with_env(env, l->next->data);
   // In Scheme, only #f is falsy, everything else is truthy
   if (is_truthy(pred)) {
@@ -232,7 +241,10 @@ static SCM *eval_or(SCM_Environment *env, SCM_List *l, SCM **ast) {
 
 // Helper function for call/cc special form
 static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  if (!l->next) {
+    eval_error("call/cc: bad syntax");
+    return nullptr;
+  }
   auto proc = eval_with_env(env, l->next->data);
   int first;
   auto cont = scm_make_continuation(&first);
@@ -517,7 +529,7 @@ entry:
       // Use try-catch to safely check type
       bool type_valid = false;
       try {
-        if (val->type >= SCM::NONE && val->type <= SCM::MODULE) {
+        if (val->type >= SCM::NONE && val->type <= SCM::VARIABLE) {
           type_valid = true;
         }
       } catch (...) {
@@ -531,8 +543,8 @@ entry:
                 (val ? (unsigned int)val->type : 0), 
                 (void *)val);
         fprintf(stderr, "  This suggests the symbol lookup returned a corrupted pointer.\n");
-        fprintf(stderr, "  Valid type range: %d (NONE) to %d (MODULE)\n", 
-                (int)SCM::NONE, (int)SCM::MODULE);
+        fprintf(stderr, "  Valid type range: %d (NONE) to %d (VARIABLE)\n", 
+                (int)SCM::NONE, (int)SCM::VARIABLE);
         fflush(stderr);
         eval_error("symbol '%s' resolved to corrupted value", sym->data);
         return nullptr;
@@ -748,7 +760,7 @@ entry:
       bool type_valid = false;
       try {
         // Check if type is within valid enum range
-        if (expr->type >= SCM::NONE && expr->type <= SCM::MODULE) {
+        if (expr->type >= SCM::NONE && expr->type <= SCM::VARIABLE) {
           type_valid = true;
         }
       } catch (...) {
@@ -774,7 +786,7 @@ entry:
           // Check if list_wrapped type is valid before accessing source_loc
           bool list_type_valid = false;
           try {
-            if (list_wrapped->type >= SCM::NONE && list_wrapped->type <= SCM::MODULE) {
+            if (list_wrapped->type >= SCM::NONE && list_wrapped->type <= SCM::VARIABLE) {
               list_type_valid = true;
             }
           } catch (...) {
@@ -801,7 +813,7 @@ entry:
         // Check if context type is valid before accessing source_loc
         bool ctx_type_valid = false;
         try {
-          if (g_current_eval_context->type >= SCM::NONE && g_current_eval_context->type <= SCM::MODULE) {
+          if (g_current_eval_context->type >= SCM::NONE && g_current_eval_context->type <= SCM::VARIABLE) {
             ctx_type_valid = true;
           }
         } catch (...) {
diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index ec86fdb..0668099 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -33,7 +33,10 @@ static inline bool is_list_exhausted(SCM_List *list) {
 //   - list1, list2, ...: lists of arguments (must have same length)
 //
 SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
-  assert(l->next);
+  if (!l->next) {
+    eval_error("for-each: bad syntax");
+    return nullptr;
+  }
   auto f = eval_with_env(env, l->next->data);
   int arg_count;
   
diff --git a/src/c/let.cc b/src/c/let.cc
index e669c74..8ab6a08 100644
--- a/src/c/let.cc
+++ b/src/c/let.cc
@@ -3,8 +3,10 @@
 
 SCM *expand_let(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  if (!l->next || !l->next->next) {
+    eval_error("let: bad syntax");
+    return nullptr;
+  }
   SCM_List dummy_params = make_list_dummy();
   SCM_List dummy_args = make_list_dummy();
   auto params = &dummy_params;
@@ -41,7 +43,10 @@ SCM *expand_let(SCM *expr) {
     So if there's a variable shadowing issue, we need to evaluate the
     args in the outer environment first.
     */
-    assert(l->next->next->next);
+    if (!l->next->next->next) {
+      eval_error("let: bad syntax");
+      return nullptr;
+    }
     auto argl = l->next->next->data;
     auto body = l->next->next->next->data;
     
@@ -187,13 +192,21 @@ SCM *expand_let(SCM *expr) {
         printf("\n");
       }
     }
-    assert(is_pair(func_args));
+    if (!is_pair(func_args)) {
+      eval_error("let: bad syntax");
+      return nullptr;
+    }
     auto argl = cast<SCM_List>(func_args);
     while (argl) {
-      assert(argl->data);
-      assert(is_pair(argl->data));
+      if (!is_pair(argl->data)) {
+        eval_error("let: bad syntax");
+        return nullptr;
+      }
       auto arg = cast<SCM_List>(argl->data);
-      assert(arg->next);
+      if (!arg->next) {
+        eval_error("let: bad syntax");
+        return nullptr;
+      }
       auto new_param = make_list(arg->data);
       params->next = new_param;
       params = params->next;
@@ -245,8 +258,10 @@ SCM *expand_let(SCM *expr) {
 
 SCM *expand_letstar(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  if (!l->next || !l->next->next) {
+    eval_error("let*: bad syntax");
+    return nullptr;
+  }
   SCM *ast = nullptr;
   auto bindings = l->next->data;
   
@@ -354,8 +369,10 @@ expanded as
 */
 SCM *expand_letrec(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  if (!l->next || !l->next->next) {
+    eval_error("letrec: bad syntax");
+    return nullptr;
+  }
   SCM_List dummy_params = make_list_dummy();
   SCM_List dummy_args = make_list_dummy();
   auto params = &dummy_params;
@@ -377,13 +394,21 @@ SCM *expand_letrec(SCM *expr) {
     return ast;
   }
   else {
-    assert(is_pair(func_args));
+    if (!is_pair(func_args)) {
+      eval_error("letrec: bad syntax");
+      return nullptr;
+    }
     auto argl = cast<SCM_List>(func_args);
     while (argl) {
-      assert(argl->data);
-      assert(is_pair(argl->data));
+      if (!is_pair(argl->data)) {
+        eval_error("letrec: bad syntax");
+        return nullptr;
+      }
       auto arg = cast<SCM_List>(argl->data);
-      assert(arg->next);
+      if (!arg->next) {
+        eval_error("letrec: bad syntax");
+        return nullptr;
+      }
 
       // Save arg->data and arg->next->data to avoid issues with temporary objects
       // These are SCM * pointers, so we can use them directly
-- 
2.43.0


From 49d4c726d12d2168a9ee295c97564bcbb11823a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 19/44] fix: long error messages are truncated instead of
 overflowing their buffers

---
 src/c/error.cc      | 29 ++++++++++++++++++++++-------
 src/c/error.h       |  4 ++++
 src/c/quasiquote.cc |  5 ++---
 src/c/throw.cc      | 18 +++++++++---------
 4 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/src/c/error.cc b/src/c/error.cc
index e3a3973..7c9f255 100644
--- a/src/c/error.cc
+++ b/src/c/error.cc
@@ -32,6 +32,10 @@ static char *expr_to_string(SCM *expr, size_t max_len = 200) {
   fseek(tmp_file, 0, SEEK_END);
   long file_size = ftell(tmp_file);
   fseek(tmp_file, 0, SEEK_SET);
+  if (file_size < 0) {
+    fclose(tmp_file);
+    return nullptr;
+  }
 
   size_t buf_size = (file_size < (long)max_len) ? file_size + 1 : max_len + 5;
   char *buf = new char[buf_size];
@@ -163,6 +167,17 @@ const char *get_type_name(SCM::Type type) {
   }
 }
 
+int append_text(char *buf, int size, int pos, const char *format, ...) {
+  va_list args;
+  va_start(args, format);
+  int n = vsnprintf(buf + pos, size - pos, format, args);
+  va_end(args);
+  if (n < 0) {
+    return pos;
+  }
+  return n < size - pos ? pos + n : size - 1;
+}
+
 [[noreturn]] void type_error(SCM *data, const char *expected_type) {
   char message[1024];
   int pos = 0;
@@ -176,22 +191,22 @@ const char *get_type_name(SCM::Type type) {
   }
 
   if (loc_str) {
-    pos += snprintf(message + pos, sizeof(message) - pos, "%s: ", loc_str);
+    pos = append_text(message, sizeof(message), pos, "%s: ", loc_str);
   }
 
-  pos += snprintf(message + pos, sizeof(message) - pos, "Type error: expected %s, but got ", expected_type);
+  pos = append_text(message, sizeof(message), pos, "Type error: expected %s, but got ", expected_type);
 
   if (data) {
     const char *actual_type = get_type_name(data->type);
-    pos += snprintf(message + pos, sizeof(message) - pos, "%s", actual_type);
+    pos = append_text(message, sizeof(message), pos, "%s", actual_type);
   } else {
-    pos += snprintf(message + pos, sizeof(message) - pos, "null");
+    pos = append_text(message, sizeof(message), pos, "null");
   }
 
   if (g_current_eval_context && g_current_eval_context != data) {
     const char *ctx_loc = get_source_location_str(g_current_eval_context);
     if (ctx_loc) {
-      pos += snprintf(message + pos, sizeof(message) - pos, "\n  While evaluating at %s", ctx_loc);
+      pos = append_text(message, sizeof(message), pos, "\n  While evaluating at %s", ctx_loc);
     }
   }
 
@@ -212,11 +227,11 @@ const char *get_type_name(SCM::Type type) {
   if (g_current_eval_context) {
     const char *loc_str = get_source_location_str(g_current_eval_context);
     if (loc_str) {
-      pos += snprintf(full_message + pos, sizeof(full_message) - pos, "%s: ", loc_str);
+      pos = append_text(full_message, sizeof(full_message), pos, "%s: ", loc_str);
     }
   }
 
-  pos += snprintf(full_message + pos, sizeof(full_message) - pos, "%s", message);
+  pos = append_text(full_message, sizeof(full_message), pos, "%s", message);
 
   SCM_String *s = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
   int len = (int)strlen(full_message);
diff --git a/src/c/error.h b/src/c/error.h
index 085331f..58e068c 100644
--- a/src/c/error.h
+++ b/src/c/error.h
@@ -23,6 +23,10 @@ void print_eval_stack();
 // Helper to get human-readable type name
 const char *get_type_name(SCM::Type type);
 
+// Append formatted text at position pos of buf (size bytes, pos < size),
+// truncating when buf is full. Returns the position of the final '\0'.
+int append_text(char *buf, int size, int pos, const char *format, ...);
+
 // Error handling functions
 [[noreturn]] void eval_error(const char *format, ...);
 [[noreturn]] void type_error(SCM *data, const char *expected_type);
diff --git a/src/c/quasiquote.cc b/src/c/quasiquote.cc
index 243db69..0d2da3a 100644
--- a/src/c/quasiquote.cc
+++ b/src/c/quasiquote.cc
@@ -14,10 +14,9 @@ static void quasiquote_error(const char *format, ...) {
   va_list args;
   va_start(args, format);
   char msg[512];
-  int pos = snprintf(msg, sizeof(msg), "quasiquote: ");
-  vsnprintf(msg + pos, sizeof(msg) - pos, format, args);
+  vsnprintf(msg, sizeof(msg), format, args);
   va_end(args);
-  eval_error("%s", msg);
+  eval_error("quasiquote: %s", msg);
 }
 
 // Helper function to check if expr is (unquote ...)
diff --git a/src/c/throw.cc b/src/c/throw.cc
index 04cb38b..c9ad0a0 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -215,17 +215,17 @@ static void handler_message(void *handler_data, SCM *tag, SCM *args) {
   // Build message string
   char msg[1024];
   int pos = 0;
-  pos += snprintf(msg + pos, sizeof(msg) - pos, "%s: uncaught throw to ", prog_name);
+  pos = append_text(msg, sizeof(msg), pos, "%s: uncaught throw to ", prog_name);
   
   if (is_sym(tag)) {
     SCM_Symbol *sym = cast<SCM_Symbol>(tag);
-    pos += snprintf(msg + pos, sizeof(msg) - pos, "'%s", sym->data);
+    pos = append_text(msg, sizeof(msg), pos, "'%s", sym->data);
   } else {
     // For non-symbol tags, use a simple representation
-    pos += snprintf(msg + pos, sizeof(msg) - pos, "<non-symbol>");
+    pos = append_text(msg, sizeof(msg), pos, "<non-symbol>");
   }
   
-  pos += snprintf(msg + pos, sizeof(msg) - pos, ": ");
+  pos = append_text(msg, sizeof(msg), pos, ": ");
   
   // For args, we'll print a simplified version
   if (args) {
@@ -233,18 +233,18 @@ static void handler_message(void *handler_data, SCM *tag, SCM *args) {
       SCM_List *args_list = cast<SCM_List>(args);
       if (args_list->data && is_str(args_list->data)) {
         SCM_String *s = cast<SCM_String>(args_list->data);
-        pos += snprintf(msg + pos, sizeof(msg) - pos, "%s", s->data);
+        pos = append_text(msg, sizeof(msg), pos, "%s", s->data);
       } else {
-        pos += snprintf(msg + pos, sizeof(msg) - pos, "<args>");
+        pos = append_text(msg, sizeof(msg), pos, "<args>");
       }
     } else {
-      pos += snprintf(msg + pos, sizeof(msg) - pos, "<args>");
+      pos = append_text(msg, sizeof(msg), pos, "<args>");
     }
   } else {
-    pos += snprintf(msg + pos, sizeof(msg) - pos, "()");
+    pos = append_text(msg, sizeof(msg), pos, "()");
   }
   
-  pos += snprintf(msg + pos, sizeof(msg) - pos, "\n");
+  pos = append_text(msg, sizeof(msg), pos, "\n");
   
   write_to_port(port, msg);
   
-- 
2.43.0


From fa65a24e5c49a11112e03e657e1e03fe8955a401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 20/44] fix: arguments that are already values are not
 evaluated again, and calls do not rewrite the calling expression

---
 src/c/apply.cc | 13 +++++++------
 src/c/eval.cc  | 22 +++++++++++++++++++---
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 8fdb07a..685c980 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -22,7 +22,7 @@ SCM *scm_call_0(SCM *proc) {
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure(env, proc_obj, nullptr);
+    return apply_procedure_with_values(env, proc_obj, nullptr);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -47,7 +47,7 @@ SCM *scm_call_1(SCM *proc, SCM *arg1) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
     SCM_List *args = make_list(arg1);
-    return apply_procedure(env, proc_obj, args);
+    return apply_procedure_with_values(env, proc_obj, args);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -74,7 +74,7 @@ SCM *scm_call_2(SCM *proc, SCM *arg1, SCM *arg2) {
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
     SCM_List *args = make_list(arg1);
     args->next = make_list(arg2);
-    return apply_procedure(env, proc_obj, args);
+    return apply_procedure_with_values(env, proc_obj, args);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -103,7 +103,7 @@ SCM *scm_call_3(SCM *proc, SCM *arg1, SCM *arg2, SCM *arg3) {
     SCM_List *args = make_list(arg1);
     args->next = make_list(arg2);
     args->next->next = make_list(arg3);
-    return apply_procedure(env, proc_obj, args);
+    return apply_procedure_with_values(env, proc_obj, args);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -139,7 +139,7 @@ SCM *scm_apply_0(SCM *proc, SCM *args) {
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure(env, proc_obj, args_list);
+    return apply_procedure_with_values(env, proc_obj, args_list);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -290,7 +290,8 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
     if (args_evaluated) {
       arg_val = current->data; // Already evaluated
     } else {
-      arg_val = eval_with_env(env, current->data);
+      // Wrap the value in quote to prevent double evaluation
+      arg_val = scm_list2(scm_sym_quote(), eval_with_env(env, current->data));
     }
     SCM_List *node = make_list(arg_val);
     args_tail->next = node;
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 2bf7fdb..2967304 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -257,6 +257,10 @@ static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
     }
     return cont;
   }
+  if (is_sym(proc) || is_pair(proc)) {
+    eval_error("call/cc: argument must be a procedure");
+    return nullptr;
+  }
   *ast = scm_list2(proc, cont);
   if (debug_enabled) {
     print_ast(*ast);
@@ -550,6 +554,12 @@ entry:
         return nullptr;
       }
       
+      if (is_sym(val) || is_pair(val)) {
+        // A symbol or a list is not a procedure, whatever it would evaluate to.
+        eval_error("not a procedure: value of '%s' is a %s", sym->data, get_type_name(val->type));
+        return nullptr;
+      }
+
       auto new_list = make_list(val);
       new_list->next = l->next;
       ast = wrap(new_list);
@@ -645,7 +655,7 @@ entry:
       }
       // The argument is already evaluated, so we can use it directly
       // But we need to create a continuation and call the procedure with it
-      SCM *proc = l->next->data;
+      SCM *proc = eval_with_env(env, l->next->data);
       if (!is_proc(proc) && !is_func(proc)) {
         eval_error("call-with-current-continuation: argument must be a procedure");
         RETURN_WITH_CONTEXT(nullptr);
@@ -685,13 +695,19 @@ entry:
       print_list(func_argl);
       printf("\n");
     }
-    l->next = func_argl;
-    SCM *result = eval_with_func(func, l);
+    SCM_List *call = make_list(l->data);
+    call->next = func_argl;
+    SCM *result = eval_with_func(func, call);
     RETURN_WITH_CONTEXT(result);
   }
   else if (is_pair(l->data)) {
     // Nested list: evaluate first element and continue
     auto f = eval_with_env(env, l->data);
+    if (is_sym(f) || is_pair(f)) {
+      // A symbol or a list is not a procedure, whatever it would evaluate to.
+      eval_error("not a procedure: operator evaluates to a %s", get_type_name(f->type));
+      return nullptr;
+    }
     auto new_l = make_list(f);
     new_l->next = l->next;
     ast = wrap(new_l);
-- 
2.43.0


From 70da8ffef1254d159a27c2453ebea5c98185d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 21/44] fix: a call with too few arguments for a rest-parameter
 procedure is an error, and for-each uses every list

---
 src/c/for_each.cc  | 24 +++++++++---------------
 src/c/macro.cc     | 12 +++++++++---
 src/c/procedure.cc |  7 +++++--
 3 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index 0668099..3b19716 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -38,24 +38,18 @@ SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
     return nullptr;
   }
   auto f = eval_with_env(env, l->next->data);
-  int arg_count;
-  
-  // Determine argument count based on procedure/function type
-  if (is_proc(f)) {
-    auto proc = cast<SCM_Procedure>(f);
-    arg_count = count_list_length(proc->args);
-  } else if (is_func(f)) {
-    auto func = cast<SCM_Function>(f);
-    // Count the number of argument lists provided
-    int list_count = count_list_length(l->next->next);
-    // For variable-arg functions (n_args < 0), use list_count
-    // Otherwise use the function's expected argument count
-    arg_count = (func->n_args < 0) ? list_count : func->n_args;
-  } else {
+  if (!is_proc(f) && !is_func(f)) {
     eval_error("for-each: first argument must be a procedure or function");
     return nullptr;
   }
-  
+
+  // One argument per list
+  int arg_count = count_list_length(l->next->next);
+  if (arg_count == 0) {
+    eval_error("for-each: requires at least one list");
+    return nullptr;
+  }
+
   l = l->next->next;
 
   // Evaluate all argument lists and store them
diff --git a/src/c/macro.cc b/src/c/macro.cc
index 7751eac..909888a 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -63,7 +63,10 @@ SCM *expand_macro_call(SCM_Environment *env, SCM_Macro *macro, SCM_List *args, S
       // Check if this is the penultimate parameter before rest parameter
       if (has_rest_param && current_param == penultimate_param) {
         // Bind the penultimate parameter
-        assert(is_sym(current_param->data));
+        if (!is_sym(current_param->data)) {
+          eval_error("macro: malformed parameter in lambda list (expected symbol)");
+          return nullptr;
+        }
         auto param_sym = cast<SCM_Symbol>(current_param->data);
         // Pass the argument as-is (syntax object), not evaluated
         scm_env_insert(macro_env, param_sym, actual_args->data, /*search_parent=*/false);
@@ -125,8 +128,11 @@ SCM *expand_macro_call(SCM_Environment *env, SCM_Macro *macro, SCM_List *args, S
     }
   }
   
-  // Check for argument mismatch (only if no rest parameter)
-  if (!has_rest_param && (actual_args || current_param)) {
+  // Check for argument mismatch. A rest parameter takes any further arguments,
+  // but every parameter before it needs one.
+  bool mismatch = has_rest_param ? !only_rest_param && current_param && current_param->next
+                                 : actual_args || current_param;
+  if (mismatch) {
     report_arg_mismatch(macro->transformer->args, args, "Macro", original_call, macro->name);
     return nullptr;
   }
diff --git a/src/c/procedure.cc b/src/c/procedure.cc
index a4ea8ab..d52b20d 100644
--- a/src/c/procedure.cc
+++ b/src/c/procedure.cc
@@ -239,8 +239,11 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
     }
   }
   
-  // Check for argument mismatch (only if no rest parameter)
-  if (!has_rest_param && (args_iter || current_param)) {
+  // Check for argument mismatch. A rest parameter takes any further arguments,
+  // but every parameter before it needs one.
+  bool mismatch = has_rest_param ? !only_rest_param && current_param && current_param->next
+                                 : args_iter || current_param;
+  if (mismatch) {
     // Construct the call expression for better error reporting
     SCM *call_expr = nullptr;
     if (proc->name) {
-- 
2.43.0


From 30f19ecbd5e2cce06ec8cdc319325894c2405504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 22/44] fix: define-macro with one parameter does not turn it
 into a rest parameter of the program text

---
 src/c/macro.cc | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/c/macro.cc b/src/c/macro.cc
index 909888a..1af13c9 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -310,14 +310,7 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
   }
   SCM_Symbol *name = cast<SCM_Symbol>(proc_sig->data);
 
-  // Check if proc_sig->next is a single symbol (rest parameter like (test . args))
-  // In this case, we need to convert it to a dotted pair structure
   SCM_List *args_list = proc_sig->next;
-  if (args_list && is_sym(args_list->data) && !args_list->next) {
-    // This is a rest parameter: (test . args) -> args_list is just (args)
-    // We need to mark it as a dotted pair
-    args_list->is_dotted = true;
-  }
 
   SCM_Procedure *transformer = make_proc(name, args_list, l->next->next, env);
 
-- 
2.43.0


From 8a055daf54de290ef2919c74fdee46b7ff73c0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 23/44] fix: a macro that expands to a symbol is evaluated

---
 src/c/eval.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 2967304..555489e 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -352,10 +352,9 @@ entry:
       SCM *expanded = expand_macro_call(env, macro, l->next, ast);
       // Recursively expand the result, then evaluate
       ast = expand_macros(env, expanded);
-      // If macro expansion returns a non-pair value (e.g., a number), 
-      // we need to handle it directly instead of trying to evaluate it as a list
+      // An expansion that is not a list is a variable reference or self-evaluating
       if (!is_pair(ast)) {
-        RETURN_WITH_CONTEXT(ast);
+        goto entry;
       }
       // After macro expansion, we need to re-check the structure
       // If ast is a pair but l->data is not a symbol/proc/func, it might be
@@ -730,7 +729,7 @@ entry:
     SCM *expanded = expand_macro_call(env, macro, l->next, ast);
     ast = expand_macros(env, expanded);
     if (!is_pair(ast)) {
-      RETURN_WITH_CONTEXT(ast);
+      goto entry;
     }
     l = cast<SCM_List>(ast);
     if (l && l->data && !is_sym(l->data) && !is_proc(l->data) && !is_func(l->data) && !is_cont(l->data) && !is_pair(l->data) && !l->next) {
-- 
2.43.0


From 333b6f3fcc52b017c7e5530f5a3690fc66a187c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 24/44] fix: leaving an evaluation removes exactly the trace
 frames it added

---
 src/c/error.cc | 10 ++++++++++
 src/c/error.h  |  5 +++++
 src/c/eval.cc  |  3 ++-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/c/error.cc b/src/c/error.cc
index 7c9f255..a532cbe 100644
--- a/src/c/error.cc
+++ b/src/c/error.cc
@@ -111,6 +111,16 @@ void pop_eval_stack() {
   }
 }
 
+int eval_stack_depth() {
+  return g_stack_depth;
+}
+
+void pop_eval_stack_to(int depth) {
+  while (g_stack_depth > depth) {
+    pop_eval_stack();
+  }
+}
+
 // Print the evaluation call stack
 void print_eval_stack() {
   if (!g_eval_stack) {
diff --git a/src/c/error.h b/src/c/error.h
index 58e068c..74fc03b 100644
--- a/src/c/error.h
+++ b/src/c/error.h
@@ -17,6 +17,11 @@ inline EvalStackFrame *g_eval_stack = nullptr;
 void push_eval_stack(SCM *expr);
 void pop_eval_stack();
 
+// Number of frames on the evaluation stack, and removal of every frame above
+// such a number (a push may have recorded nothing, and a jump skips pops)
+int eval_stack_depth();
+void pop_eval_stack_to(int depth);
+
 // Print evaluation call stack (for debugging)
 void print_eval_stack();
 
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 555489e..b528119 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -275,6 +275,7 @@ SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   assert(ast);
 
   // Push onto evaluation stack for call trace
+  int eval_depth = eval_stack_depth();
   push_eval_stack(ast);
 
   // Save current context for error reporting
@@ -285,7 +286,7 @@ SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
 #define RETURN_WITH_CONTEXT(val)                                                                                       \
   do {                                                                                                                 \
     g_current_eval_context = old_context;                                                                              \
-    pop_eval_stack();                                                                                                  \
+    pop_eval_stack_to(eval_depth);                                                                                     \
     return (val);                                                                                                      \
   } while (0)
 
-- 
2.43.0


From cf635460f3035a9358c95c1a3237d3cdb6e4fa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 25/44] fix: a throw and a continuation jump restore the
 dynamic state of their target, and run its dynamic-wind guards in order

---
 src/c/continuation.cc |  25 +++---
 src/c/dynwind.cc      | 192 ++++++++----------------------------------
 src/c/gc.cc           |   3 +-
 src/c/module.cc       |   4 +-
 src/c/pscm.h          |  17 +++-
 src/c/pscm_types.h    |  16 +++-
 src/c/throw.cc        | 107 ++++++++++++-----------
 7 files changed, 130 insertions(+), 234 deletions(-)

diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index ae5ebda..bcda495 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -11,11 +11,6 @@ long scm_stack_size(long *start) {
   return start - &stack;
 }
 
-// Forward declaration
-SCM_List *copy_wind_chain(SCM_List *chain);
-SCM_List *unwind_wind_chain(SCM_List *target);
-void rewind_wind_chain(SCM_List *common, SCM_List *target);
-
 // no_sanitize("address"): this function reads the entire C stack (from
 // cont_base to the current stack top), crossing multiple independent stack
 // frames. This is UB per the C standard and ASan detects it as
@@ -49,20 +44,19 @@ SCM *scm_make_continuation(int *first) {
 #endif
   
   // Save current wind chain
-  cont->wind_chain = copy_wind_chain(g_wind_chain);
+  cont->wind_chain = g_wind_chain;
   
-  // Save current module (needed for variable lookup after continuation restore)
-  cont->saved_module = scm_current_module();
+  // Save the rest of the dynamic state (the current module is needed for
+  // variable lookup after continuation restore)
+  scm_save_dynamic_state(&cont->state);
   
   *first = !setjmp(cont->cont_jump_buffer);
   if (*first) {
     return data;
   }
   else {
-    // Restore current module when continuation is invoked
-    if (cont->saved_module) {
-      scm_set_current_module(cont->saved_module);
-    }
+    // Restore the dynamic state when continuation is invoked
+    scm_restore_dynamic_state(&cont->state);
     auto ret = cont->arg;
     return ret;
   }
@@ -100,9 +94,10 @@ void copy_stack_and_call(SCM_Continuation *cont, SCM *args, long *dst) {
 void scm_dynthrow(SCM *cont, SCM *args) {
   auto continuation = cast<SCM_Continuation>(cont);
 
-  // Handle wind chain: unwind current to common prefix, then rewind to continuation's wind chain
-  SCM_List *common = unwind_wind_chain(continuation->wind_chain);
-  rewind_wind_chain(common, continuation->wind_chain);
+  // Handle wind chain: leave the winds the continuation is not in, then enter
+  // the ones it is in
+  unwind_wind_chain(continuation->wind_chain);
+  rewind_wind_chain(continuation->wind_chain);
 
   long *dst = continuation->stack_src;
   long stack_top_element;
diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index 91cf36c..526c9a1 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -3,175 +3,51 @@
 #include <stdio.h>
 #include <stdlib.h>
 
-// Forward declarations for functions used by continuation.cc
-SCM_List *copy_wind_chain(SCM_List *chain);
-SCM_List *unwind_wind_chain(SCM_List *target);
-void rewind_wind_chain(SCM_List *common, SCM_List *target);
+// A wind chain lists the active dynamic winds, innermost first. Chains share
+// their outer part, and their nodes are never modified.
 
-// Helper function to copy a wind chain
-SCM_List *copy_wind_chain(SCM_List *chain) {
-  if (!chain) {
-    return nullptr;
-  }
-  auto new_chain = make_list(chain->data);
-  auto current = chain->next;
-  auto new_current = new_chain;
-  while (current) {
-    new_current->next = make_list(current->data);
-    new_current = new_current->next;
-    current = current->next;
+static bool is_active_in(SCM_List *chain, SCM_List *node) {
+  for (SCM_List *c = chain; c; c = c->next) {
+    if (c == node) {
+      return true;
+    }
   }
-  return new_chain;
+  return false;
 }
 
-// Helper function to find common prefix of two wind chains
-// Compares entries by their data pointer (the (in_guard . out_guard) pair)
-SCM_List *find_common_prefix(SCM_List *chain1, SCM_List *chain2) {
-  if (!chain1 || !chain2) {
-    return nullptr;  // If either is empty, no common prefix
-  }
-  
-  // Compare entries by their data pointer
-  SCM_List *c1 = chain1;
-  SCM_List *c2 = chain2;
-  int common_count = 0;
-  
-  while (c1 && c2 && c1->data == c2->data) {
-    common_count++;
-    c1 = c1->next;
-    c2 = c2->next;
-  }
-  
-  if (common_count == 0) {
-    return nullptr;  // No common prefix
-  }
-  
-  // Build the common prefix list
-  SCM_List *common = nullptr;
-  SCM_List **tail = &common;
-  SCM_List *c = chain1;
-  for (int i = 0; i < common_count; i++) {
-    *tail = make_list(c->data);
-    tail = &((*tail)->next);
-    c = c->next;
-  }
-  
-  return common;
+// Each entry of a wind chain is the list (in_guard out_guard)
+static void call_guard(SCM *guard) {
+  apply_procedure(&g_env, cast<SCM_Procedure>(guard), nullptr);
 }
 
-// Unwind wind chain: call out_guard for each entry from current to target
-// Returns the common prefix
-SCM_List *unwind_wind_chain(SCM_List *target) {
-  SCM_List *current = g_wind_chain;
-  
-  // Find common prefix
-  SCM_List *common = find_common_prefix(current, target);
-  
-  // Unwind from current to common (call out_guard for each entry not in common)
-  // Build a list of entries to unwind (in reverse order, so we unwind in correct order)
-  SCM_List *to_unwind = nullptr;
-  SCM_List *c = current;
-  
-  // Collect entries that need to be unwound
-  while (c) {
-    // Check if this entry is in common
-    bool in_common = false;
-    if (common) {
-      SCM_List *check = common;
-      while (check) {
-        if (check->data == c->data) {
-          in_common = true;
-          break;
-        }
-        check = check->next;
-      }
+// Leave the winds that are not part of target, innermost first. An out guard
+// runs outside of its own wind.
+void unwind_wind_chain(SCM_List *target) {
+  while (g_wind_chain && !is_active_in(target, g_wind_chain)) {
+    SCM_List *entry = cast<SCM_List>(g_wind_chain->data);
+    g_wind_chain = g_wind_chain->next;
+    if (entry && entry->next) {
+      call_guard(entry->next->data);
     }
-    
-    if (!in_common) {
-      // Add to unwind list (in reverse order)
-      auto new_entry = make_list(c->data);
-      new_entry->next = to_unwind;
-      to_unwind = new_entry;
-    }
-    else {
-      // We've reached the common prefix, stop
-      break;
-    }
-    
-    c = c->next;
-  }
-  
-  // Now unwind in reverse order (which is the correct order)
-  while (to_unwind) {
-    SCM *entry = to_unwind->data;
-    if (is_pair(entry)) {
-      SCM_List *pair = cast<SCM_List>(entry);
-      if (pair->next && pair->next->data) {
-        // Call out_guard
-        SCM *out_guard = pair->next->data;
-        if (is_proc(out_guard)) {
-          auto proc = cast<SCM_Procedure>(out_guard);
-          apply_procedure(&g_env, proc, nullptr);
-        }
-      }
-    }
-    to_unwind = to_unwind->next;
   }
-  
-  // Update wind chain to common prefix
-  g_wind_chain = common;
-  return common;
 }
 
-// Rewind wind chain: call in_guard for each entry from common to target
-void rewind_wind_chain(SCM_List *common, SCM_List *target) {
-  // Build list of entries to rewind (from target, excluding common)
-  SCM_List *to_rewind = nullptr;
-  SCM_List *target_current = target;
-  
-  // Count how many entries in common
-  int common_count = 0;
-  SCM_List *c = common;
-  while (c) {
-    common_count++;
-    c = c->next;
-  }
-  
-  // Skip common entries in target
-  c = target;
-  for (int i = 0; i < common_count && c; i++) {
-    c = c->next;
-  }
-  
-  // Collect entries to rewind (in reverse order)
-  while (c) {
-    auto new_entry = make_list(c->data);
-    new_entry->next = to_rewind;
-    to_rewind = new_entry;
-    c = c->next;
-  }
-  
-  // Rewind entries (call in_guard) and add to wind chain
-  while (to_rewind) {
-    SCM *entry = to_rewind->data;
-    if (is_pair(entry)) {
-      SCM_List *pair = cast<SCM_List>(entry);
-      if (pair->data) {
-        // Call in_guard
-        SCM *in_guard = pair->data;
-        if (is_proc(in_guard)) {
-          auto proc = cast<SCM_Procedure>(in_guard);
-          apply_procedure(&g_env, proc, nullptr);
-        }
-      }
+// Enter the winds of target, an extension of the current chain, outermost
+// first. An in guard runs outside of its own wind.
+void rewind_wind_chain(SCM_List *target) {
+  while (g_wind_chain != target) {
+    SCM_List *node = target;
+    while (node && node->next != g_wind_chain) {
+      node = node->next;
+    }
+    if (!node) {
+      return;
+    }
+    SCM_List *entry = cast<SCM_List>(node->data);
+    if (entry) {
+      call_guard(entry->data);
     }
-    
-    // Add to wind chain
-    auto new_entry = make_list(entry);
-    new_entry->next = g_wind_chain;
-    g_wind_chain = new_entry;
-    
-    to_rewind = to_rewind->next;
+    g_wind_chain = node;
   }
 }
 
diff --git a/src/c/gc.cc b/src/c/gc.cc
index 12c8137..c2d2c82 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -554,7 +554,8 @@ static void trace_func(GCBlock *block, MarkStack *stack) {
 static void trace_cont(GCBlock *block, MarkStack *stack) {
   SCM_Continuation *cont = (SCM_Continuation *)block_to_obj(block);
   trace_ptr(cont->arg,          stack); // SCM*
-  trace_ptr(cont->saved_module, stack); // SCM*
+  trace_ptr(cont->state.module,       stack); // SCM*
+  trace_ptr(cont->state.eval_context, stack); // SCM*
   trace_ptr(cont->wind_chain,   stack); // SCM_List*
   // The saved stack and registers are live again once the continuation is
   // invoked, so whatever they refer to must survive: scan them conservatively.
diff --git a/src/c/module.cc b/src/c/module.cc
index b0a61cb..26bbad0 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -5,9 +5,7 @@
 static SCM *g_current_module = nullptr;
 // g_root_module is now in pscm.h as inline variable
 
-// Recursion guard for binder calls to prevent infinite recursion
-// when the binder body triggers symbol lookup in the same module
-static bool g_in_binder_call = false;
+// Recursion guard for binder calls (g_in_binder_call) is in pscm.h
 
 // Module registry: module name -> module object
 static SCM_HashTable *g_module_registry = nullptr;
diff --git a/src/c/pscm.h b/src/c/pscm.h
index c0dc6f9..582448d 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -192,7 +192,7 @@ inline SCM_Continuation *make_cont(size_t stack_len, void *stack_data, long *src
   cont->stack_len = stack_len;
   cont->stack_data = stack_data;
   cont->wind_chain = nullptr;
-  cont->saved_module = nullptr;
+  cont->state = {};
   cont->stack_src = src_addr;
   return cont;
 }
@@ -741,6 +741,18 @@ void repl();
 SCM *scm_make_continuation(int *first);
 void scm_dynthrow(SCM *cont, SCM *args);
 
+/*
+ * Functions in dynwind.cc
+ */
+void unwind_wind_chain(SCM_List *target);
+void rewind_wind_chain(SCM_List *target);
+
+/*
+ * Functions in throw.cc
+ */
+void scm_save_dynamic_state(struct dynamic_state *state);
+void scm_restore_dynamic_state(const struct dynamic_state *state);
+
 /*
  * Functions in let.cc
  */
@@ -997,6 +1009,9 @@ SCM *scm_variable_bound_p(SCM *var);  // Check if a variable is bound
 inline SCM_Environment g_env{};
 inline SCM_List *g_wind_chain = nullptr; // Global wind chain for dynamic-wind
 inline SCM *g_root_module = nullptr;     // Root module (pscm-user)
+// Recursion guard for binder calls to prevent infinite recursion
+// when the binder body triggers symbol lookup in the same module
+inline bool g_in_binder_call = false;
 inline long *cont_base = nullptr;        // Stack base pointer for continuations
 
 /*
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index face912..6d34ea5 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -87,6 +87,20 @@ struct SCM_Function {
   SCM *generic;
 };
 
+// The interpreter state that belongs to a point of the C stack. Whatever jumps
+// back to such a point (a throw to its catch, a continuation) restores it.
+struct catch_info;
+struct lazy_catch_data;
+struct dynamic_state {
+  struct catch_info *catch_top;       // Innermost active catch
+  struct lazy_catch_data *lazy_top;   // Innermost active lazy catch handler
+  int eval_depth;                     // Frames on the evaluation stack
+  SCM *eval_context;                  // Expression being evaluated
+  SCM *module;                        // Current module
+  bool in_binder_call;                // Whether a module binder is running
+  FILE *output;                       // Where print_ast writes
+};
+
 struct SCM_Continuation {
   jmp_buf cont_jump_buffer;
   size_t stack_len;
@@ -94,7 +108,7 @@ struct SCM_Continuation {
   void *dst;
   SCM *arg;
   SCM_List *wind_chain; // Saved wind chain when continuation was created
-  SCM *saved_module;    // Saved current module when continuation was created
+  struct dynamic_state state; // Dynamic state when continuation was created
   long *stack_src;      // Saved stack source address at capture time (cont_base - stack_size)
 };
 
diff --git a/src/c/throw.cc b/src/c/throw.cc
index c9ad0a0..72cd250 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -9,10 +9,6 @@
 
 // Standard error key is now in throw.h as inline variable
 
-// Global catch stack (shared between scm_c_catch and scm_throw)
-static struct catch_info *g_catch_stack[100];
-static int g_catch_stack_top = 0;
-
 // Jump buffer and return value structure
 struct jmp_buf_and_retval {
   jmp_buf buf;           // Jump buffer
@@ -27,8 +23,15 @@ struct catch_info {
   struct jmp_buf_and_retval *jbr;  // Jump buffer and return value
   scm_t_catch_handler handler;     // Handler function
   void *handler_data;     // Handler data
+  int depth;              // Number of active catches up to and including this one
+  SCM_List *wind_chain;   // Dynamic winds that were active when the catch was entered
+  struct catch_info *outer;        // Next catch further out
 };
 
+// Innermost active catch (shared between scm_c_catch and scm_throw); like the
+// lazy catch handlers below, the entries live on the C stack
+static struct catch_info *g_catch_top = nullptr;
+
 // Structure to hold lazy catch handler information
 struct lazy_catch_data {
   SCM *tag;
@@ -43,6 +46,28 @@ struct lazy_catch_data {
 // (so they're protected from GC)
 static struct lazy_catch_data *g_lazy_catch_top = nullptr;
 
+void scm_save_dynamic_state(struct dynamic_state *state) {
+  state->catch_top = g_catch_top;
+  state->lazy_top = g_lazy_catch_top;
+  state->eval_depth = eval_stack_depth();
+  state->eval_context = g_current_eval_context;
+  state->module = scm_current_module();
+  state->in_binder_call = g_in_binder_call;
+  state->output = stdout;
+}
+
+void scm_restore_dynamic_state(const struct dynamic_state *state) {
+  g_catch_top = state->catch_top;
+  g_lazy_catch_top = state->lazy_top;
+  pop_eval_stack_to(state->eval_depth);
+  g_current_eval_context = state->eval_context;
+  if (state->module) {
+    scm_set_current_module(state->module);
+  }
+  g_in_binder_call = state->in_binder_call;
+  stdout = state->output;
+}
+
 // Helper function to check if two tags match
 static bool tags_match(SCM *tag, SCM *key) {
   // If tag is #t, it matches all keys
@@ -77,52 +102,22 @@ SCM *scm_c_catch(SCM *tag,
   info.handler = handler;
   info.handler_data = handler_data;
   
-  // Create a pair (tag . catch_info) to store in wind chain
-  // We'll use a special marker to distinguish catch entries from wind entries
-  // For simplicity, we'll store the catch_info pointer in a list
-  // Format: (tag . (jbr_ptr . (handler_ptr . handler_data_ptr)))
-  // Actually, we need to store pointers, so let's use a simpler approach:
-  // Store catch_info pointer directly (it's on stack, so it's safe)
-  
-  // Create entry: (tag . catch_info_ptr)
-  // We'll use a list where data is tag and next->data is catch_info pointer
-  // But SCM_List stores SCM*, not void*. So we need another approach.
-  // Let's create a special SCM object to hold the catch_info pointer.
-  // Actually, for now, let's just store it in a global list temporarily.
-  // Better: use a hash table or similar. But for simplicity, let's use a list.
-  
-  // For now, we'll use a simpler approach: store catch_info in a static array
-  // and use an index. But that's not scalable.
-  
-  // Better approach: create a wrapper SCM object that holds the catch_info pointer
-  // But we don't have a way to create custom SCM objects easily.
-  
-  // Simplest approach for now: use a global list of active catch_info structures
-  // We'll add the catch_info to a list when entering catch, remove when exiting.
-  // But we need to be careful about nested catches.
-  
-  // Actually, let's use a different approach: store catch_info in the wind chain
-  // by creating a special marker. We can use a special symbol or a special list structure.
-  
-  if (g_catch_stack_top >= 100) {
-    eval_error("catch: too many nested catches");
-    return nullptr;
-  }
+  info.outer = g_catch_top;
+  info.depth = g_catch_top ? g_catch_top->depth + 1 : 1;
 
-  // Push catch_info onto stack
-  g_catch_stack[g_catch_stack_top++] = &info;
-  
   // Remember the dynamic context the handler has to run in
-  int saved_catch_top = g_catch_stack_top - 1;
-  struct lazy_catch_data *saved_lazy_top = g_lazy_catch_top;
+  struct dynamic_state saved;
+  scm_save_dynamic_state(&saved);
+  info.wind_chain = g_wind_chain;
+
+  g_catch_top = &info;
 
   // Set up jump buffer
   if (setjmp(jbr.buf)) {
     // Exception was thrown - we're in the catch handler
-    // Pop this catch and every catch that was entered inside it
-    g_catch_stack_top = saved_catch_top;
-    g_lazy_catch_top = saved_lazy_top;
-    
+    // Leave this catch and everything that was entered inside it
+    scm_restore_dynamic_state(&saved);
+
     SCM *throw_tag = jbr.throw_tag;
     SCM *throw_args = jbr.throw_args;
     
@@ -135,9 +130,9 @@ SCM *scm_c_catch(SCM *tag,
     SCM *result = body(body_data);
     jbr.active = false;
     
-    // Pop from stack
-    g_catch_stack_top = saved_catch_top;
-    
+    // The catch is no longer active
+    g_catch_top = info.outer;
+
     return result;
   }
 }
@@ -146,12 +141,11 @@ SCM *scm_c_catch(SCM *tag,
 [[noreturn]] SCM *scm_throw(SCM *key, SCM *args) {
   // Find the innermost matching catch (normal catch with stack unwinding)
   struct catch_info *target = nullptr;
-  int target_index = -1;
-  for (int i = g_catch_stack_top - 1; i >= 0; i--) {
-    struct catch_info *info = g_catch_stack[i];
-    if (info && info->jbr && info->jbr->active && tags_match(info->tag, key)) {
+  int target_depth = 0;
+  for (struct catch_info *info = g_catch_top; info; info = info->outer) {
+    if (info->jbr && info->jbr->active && tags_match(info->tag, key)) {
       target = info;
-      target_index = i;
+      target_depth = info->depth;
       break;
     }
   }
@@ -160,7 +154,7 @@ SCM *scm_c_catch(SCM *tag,
   // first.  They run in the context of the throw; a handler that returns does
   // not stop the throw.  While a handler runs, it and the handlers inside it
   // are not active.
-  while (g_lazy_catch_top && g_lazy_catch_top->catch_depth > target_index) {
+  while (g_lazy_catch_top && g_lazy_catch_top->catch_depth >= target_depth) {
     struct lazy_catch_data *lcd = g_lazy_catch_top;
     g_lazy_catch_top = lcd->outer;
     if (tags_match(lcd->tag, key)) {
@@ -169,7 +163,10 @@ SCM *scm_c_catch(SCM *tag,
   }
 
   if (target) {
-    // Found matching catch - set throw info and jump
+    // Found matching catch - leave the dynamic winds entered inside it, then
+    // set throw info and jump
+    g_catch_top = target;
+    unwind_wind_chain(target->wind_chain);
     target->jbr->throw_tag = key;
     target->jbr->throw_args = args;
     longjmp(target->jbr->buf, 1);
@@ -319,7 +316,7 @@ SCM *scm_c_with_throw_handler(SCM *tag,
   lcd.handler = handler;
   lcd.handler_data = handler_data;
   lcd.lazy_catch_p = lazy_catch_p;
-  lcd.catch_depth = g_catch_stack_top;
+  lcd.catch_depth = g_catch_top ? g_catch_top->depth : 0;
   lcd.outer = g_lazy_catch_top;
   g_lazy_catch_top = &lcd;
 
-- 
2.43.0


From 3fcb015cd88e3053ed89411321d552e991c3ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 26/44] fix: assv, list concatenation, negative string lengths
 and unreadable files raise errors instead of aborting

---
 src/c/alist.cc  | 4 +++-
 src/c/list.cc   | 8 ++++++--
 src/c/parse.cc  | 8 ++++++++
 src/c/string.cc | 4 ++++
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/c/alist.cc b/src/c/alist.cc
index 27cf7ab..7275666 100644
--- a/src/c/alist.cc
+++ b/src/c/alist.cc
@@ -245,7 +245,9 @@ SCM *scm_c_assoc_remove(SCM *alist, SCM *key) {
 SCM *scm_c_assv(SCM *key, SCM *alist) {
   assert(key);
   assert(alist);
-  assert(is_pair(alist) || is_nil(alist));
+  if (!is_pair(alist) && !is_nil(alist)) {
+    type_error(alist, "list");
+  }
   if (is_nil(alist)) {
     return scm_bool_false();
   }
diff --git a/src/c/list.cc b/src/c/list.cc
index 073800a..95180b6 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -25,8 +25,12 @@ static void _concat(SCM_List *& it, SCM_List *l) {
 }
 
 SCM *scm_concat_list2(SCM *arg1, SCM *arg2) {
-  assert(is_pair(arg1));
-  assert(is_pair(arg2));
+  if (!is_pair(arg1)) {
+    type_error(arg1, "pair");
+  }
+  if (!is_pair(arg2)) {
+    type_error(arg2, "pair");
+  }
   SCM_List dummay_list;
   auto it = &dummay_list;
   it->next = NULL;
diff --git a/src/c/parse.cc b/src/c/parse.cc
index 242bce6..616b64c 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -3,6 +3,7 @@
 #include "error.h"
 #include <ctype.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -1400,6 +1401,13 @@ static char *read_file_content(const char *filename) {
   long size = ftell(f);
   fseek(f, 0, SEEK_SET);
   
+  if (size < 0 || size == LONG_MAX) {
+    // Not a regular file
+    fprintf(stderr, "ERROR: cannot read file: %s\n", filename);
+    fclose(f);
+    return nullptr;
+  }
+  
   // Allocate buffer
   char *buffer = new char[size + 1];
   size_t read = fread(buffer, 1, size, f);
diff --git a/src/c/string.cc b/src/c/string.cc
index 8738d97..27e3a19 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -1036,6 +1036,10 @@ SCM *scm_from_c_string(const char *data, int len) {
     eval_error("scm_from_c_string: data is null");
     return nullptr;
   }
+  if (len < 0) {
+    eval_error("scm_from_c_string: negative length");
+    return nullptr;
+  }
   SCM_String *s = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
   s->data = new char[len + 1];
   memcpy(s->data, data, len);
-- 
2.43.0


From b004bab24da952da2b20ef432d59e5f803b7c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:59 +0000
Subject: [PATCH 27/44] fix: current-module is registered with the number of
 parameters it takes

---
 src/c/module.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 26bbad0..4ffcf3c 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -505,8 +505,7 @@ void scm_update_module_public_interface(SCM_Module *module) {
 }
 
 // C API 函数
-SCM *scm_c_current_module(SCM *arg) {
-  (void)arg;  // Unused
+SCM *scm_c_current_module() {
   return scm_current_module();
 }
 
-- 
2.43.0


From a11793643886828d6b60e59908aa2acadd30060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:24 +0000
Subject: [PATCH 28/44] fix: name smob and variable types in error messages

---
 src/c/error.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c/error.cc b/src/c/error.cc
index a532cbe..4c60411 100644
--- a/src/c/error.cc
+++ b/src/c/error.cc
@@ -173,6 +173,8 @@ const char *get_type_name(SCM::Type type) {
     case SCM::PORT: return "port";
     case SCM::PROMISE: return "promise";
     case SCM::MODULE: return "module";
+    case SCM::SMOB: return "smob";
+    case SCM::VARIABLE: return "variable";
     default: return "unknown";
   }
 }
-- 
2.43.0


From 8975d5aa7b8056652c067aa306ce86738eb21f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:32 +0000
Subject: [PATCH 29/44] fix: hash-fold rejects a first argument that is not a
 procedure instead of evaluating it

---
 src/c/hash_table.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index c68689c..8aa0ed0 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -356,6 +356,10 @@ SCM *scm_c_hash_remove(SCM *table, SCM *key,
 SCM *scm_c_hash_fold(SCM *proc, SCM *init, SCM *table,
                      unsigned long (*hash_func)(SCM *),
                      bool (*cmp_func)(SCM *, SCM *)) {
+  if (!is_proc(proc) && !is_func(proc) && !is_cont(proc) && !is_smob(proc)) {
+    eval_error("hash-fold: first argument must be a procedure");
+    return nullptr;
+  }
   if (!is_hash_table(table)) {
     eval_error("hash-fold: third argument must be a hash-table");
     return nullptr;
-- 
2.43.0


From da0aa89cfa1129c0de7ed9ed6e968c09d7cc7587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:32 +0000
Subject: [PATCH 30/44] fix: cond => does not evaluate the receiver's value a
 second time

---
 src/c/cond.cc | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/c/cond.cc b/src/c/cond.cc
index fa43a13..078962b 100644
--- a/src/c/cond.cc
+++ b/src/c/cond.cc
@@ -54,21 +54,11 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
         // Then call it with pred as argument
         // Build: (proc (quote pred))
         // Note: eval_with_env will handle quote expressions and return the quoted value
-        // If the result is a symbol, we need to look it up in the environment to get the procedure
         SCM *proc = eval_with_env(env, clause->next->next->data);
-        // If proc is a symbol (from quote), look it up in the environment
-        // This handles the case where 'ok is evaluated to symbol ok, then we look up ok
-        // But if the symbol is not found, it means we're trying to use a quoted symbol as a procedure
-        // In that case, we should just return the symbol itself (not call it)
-        if (is_sym(proc)) {
-          SCM *val = scm_env_exist(env, cast<SCM_Symbol>(proc));
-          if (val) {
-            proc = val;
-          } else {
-            // Symbol not found in environment - this means 'ok was just a quoted symbol
-            // Return the symbol itself (not as a procedure call)
-            return proc;
-          }
+        if (is_sym(proc) || is_pair(proc)) {
+          // A symbol or a list is not a procedure, whatever it would evaluate to.
+          eval_error("cond: not a procedure after =>");
+          return nullptr;
         }
         *ast = scm_list2(proc, scm_list2(scm_sym_quote(), pred));
         return nullptr; // Signal to continue evaluation
-- 
2.43.0


From 89f2acbdb3b2505712d4665b4b8ea78e9c7eb9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:40 +0000
Subject: [PATCH 31/44] fix: leaving a parser construct restores the parse
 stack, also when a parse error is caught

---
 src/c/parse.cc     | 88 +++++++++++++++++++++-------------------------
 src/c/pscm.h       |  2 ++
 src/c/pscm_types.h |  1 +
 src/c/throw.cc     |  2 ++
 4 files changed, 45 insertions(+), 48 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 616b64c..5e57978 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -31,9 +31,11 @@ struct ParseStackFrame {
 static ParseStackFrame *g_parse_stack = nullptr;
 static const int MAX_PARSE_STACK_DEPTH = 50;
 
-// Push a parse context onto the stack
-static void push_parse_stack(Parser *p, const char *context_type) {
-  if (!p) return;
+// Push a parse context onto the stack. Returns the context around it, which
+// leaving the new one goes back to.
+static ParseStackFrame *push_parse_stack(Parser *p, const char *context_type) {
+  ParseStackFrame *outer = g_parse_stack;
+  if (!p) return outer;
   
   // Count current depth
   int depth = 0;
@@ -44,11 +46,11 @@ static void push_parse_stack(Parser *p, const char *context_type) {
   }
   
   if (depth >= MAX_PARSE_STACK_DEPTH) {
-    return;  // Stack too deep
+    return outer;  // Stack too deep
   }
   
   ParseStackFrame *new_frame = new ParseStackFrame();
-  if (!new_frame) return;
+  if (!new_frame) return outer;
   
   new_frame->context_type = context_type;
   new_frame->start_line = p->line;
@@ -56,11 +58,16 @@ static void push_parse_stack(Parser *p, const char *context_type) {
   new_frame->start_pos = p->pos;
   new_frame->next = g_parse_stack;
   g_parse_stack = new_frame;
+  return outer;
 }
 
-// Pop a parse context from the stack
-static void pop_parse_stack() {
-  if (g_parse_stack) {
+ParseStackFrame *parse_stack_top() {
+  return g_parse_stack;
+}
+
+// Pop the parse contexts inside outer from the stack
+void pop_parse_stack_to(ParseStackFrame *outer) {
+  while (g_parse_stack && g_parse_stack != outer) {
     ParseStackFrame *old = g_parse_stack;
     g_parse_stack = g_parse_stack->next;
     delete old;
@@ -586,7 +593,7 @@ static SCM *parse_vector(Parser *p) {
   int start_line = p->line;
   int start_column = p->column;
   
-  push_parse_stack(p, "vector");
+  ParseStackFrame *outer = push_parse_stack(p, "vector");
   
   p->pos += 2;  // Skip #(
   p->column += 2;
@@ -598,7 +605,7 @@ static SCM *parse_vector(Parser *p) {
     p->pos++; // consume ')'
     p->column++;
     
-    pop_parse_stack();  // Successfully parsed empty vector
+    pop_parse_stack_to(outer);  // Successfully parsed empty vector
     
     auto vec = (SCM_Vector *)gc_alloc(GC_VECTOR, sizeof(SCM_Vector));
     vec->elements = nullptr;
@@ -620,7 +627,7 @@ static SCM *parse_vector(Parser *p) {
       elem = parse_expr(p);
     }
     if (!elem) {
-      pop_parse_stack();  // Pop before error
+      pop_parse_stack_to(outer);  // Pop before error
       parse_error(p, "expected expression in vector");
     }
     
@@ -658,6 +665,8 @@ static SCM *parse_vector(Parser *p) {
     vec->elements = nullptr;
   }
   
+  pop_parse_stack_to(outer);  // Successfully parsed vector
+  
   SCM *scm = wrap(vec);
   set_source_location(scm, p->filename, start_line, start_column);
   return scm;
@@ -671,7 +680,7 @@ static SCM *parse_string(Parser *p) {
   int start_line = p->line;
   int start_column = p->column;
   
-  push_parse_stack(p, "string");
+  ParseStackFrame *outer = push_parse_stack(p, "string");
   
   p->pos++; // consume opening quote
   p->column++;
@@ -705,14 +714,14 @@ static SCM *parse_string(Parser *p) {
   }
   
   if (*p->pos != '"') {
-    pop_parse_stack();  // Pop before error
+    pop_parse_stack_to(outer);  // Pop before error
     parse_error(p, "unterminated string");
   }
   const char *end = p->pos;
   p->pos++; // consume closing quote
   p->column++;
   
-  pop_parse_stack();  // Successfully parsed string
+  pop_parse_stack_to(outer);  // Successfully parsed string
   
   // Second pass: process escape sequences and calculate actual length
   const char *src = start;
@@ -766,8 +775,6 @@ static SCM *parse_string(Parser *p) {
   s->data = str_data;  // Use the allocated buffer directly
   s->len = actual_len;
   
-  pop_parse_stack();  // Successfully parsed string
-  
   SCM *scm = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
   scm->type = SCM::STR;
   scm->value = s;
@@ -858,7 +865,7 @@ static SCM *parse_quote(Parser *p) {
     return nullptr;
   }
   
-  push_parse_stack(p, "quote");
+  ParseStackFrame *outer = push_parse_stack(p, "quote");
   
   p->pos++; // consume quote
   p->column++;
@@ -873,6 +880,8 @@ static SCM *parse_quote(Parser *p) {
       parse_error(p, "expected character literal after '#\\");
     }
     
+    pop_parse_stack_to(outer);  // Successfully parsed quoted character
+    
     // Build (quote char)
     SCM *quote_sym = scm_sym_quote();
     SCM_List *list = make_list(quote_sym, quoted);
@@ -893,7 +902,7 @@ static SCM *parse_quote(Parser *p) {
     quoted = parse_expr(p);
   }
   if (!quoted) {
-    pop_parse_stack();  // Pop before error
+    pop_parse_stack_to(outer);  // Pop before error
     parse_error(p, "expected expression after quote");
   }
   
@@ -901,7 +910,7 @@ static SCM *parse_quote(Parser *p) {
     SCM *quote_sym = scm_sym_quote();
     SCM_List *list = make_list(quote_sym, quoted);
     
-    pop_parse_stack();  // Successfully parsed quote
+    pop_parse_stack_to(outer);  // Successfully parsed quote
     
     SCM *scm = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
     scm->type = SCM::LIST;
@@ -915,7 +924,7 @@ static SCM *parse_quasiquote(Parser *p) {
     return nullptr;
   }
   
-  push_parse_stack(p, "quasiquote");
+  ParseStackFrame *outer = push_parse_stack(p, "quasiquote");
   
   p->pos++; // consume backquote
   p->column++;
@@ -927,7 +936,7 @@ static SCM *parse_quasiquote(Parser *p) {
     quoted = parse_expr(p);
   }
   if (!quoted) {
-    pop_parse_stack();  // Pop before error
+    pop_parse_stack_to(outer);  // Pop before error
     parse_error(p, "expected expression after quasiquote");
   }
   
@@ -935,7 +944,7 @@ static SCM *parse_quasiquote(Parser *p) {
   SCM *quasiquote_sym = scm_sym_quasiquote();
   SCM_List *list = make_list(quasiquote_sym, quoted);
   
-  pop_parse_stack();  // Successfully parsed quasiquote
+  pop_parse_stack_to(outer);  // Successfully parsed quasiquote
   
   SCM *scm = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
   scm->type = SCM::LIST;
@@ -1039,7 +1048,7 @@ static SCM *parse_list(Parser *p) {
   int start_line = p->line;
   int start_column = p->column;
   
-  push_parse_stack(p, "list");
+  ParseStackFrame *outer = push_parse_stack(p, "list");
   
   p->pos++; // consume '('
   p->column++;
@@ -1053,6 +1062,9 @@ static SCM *parse_list(Parser *p) {
   if (*p->pos == ')') {
     p->pos++; // consume ')'
     p->column++;
+    
+    pop_parse_stack_to(outer);  // Successfully parsed empty list
+    
     SCM *result = scm_nil();
     set_source_location(result, p->filename, start_line, start_column);
     return result;
@@ -1070,7 +1082,7 @@ static SCM *parse_list(Parser *p) {
       }
     }
     if (!elem) {
-      pop_parse_stack();  // Pop before error
+      pop_parse_stack_to(outer);  // Pop before error
       parse_error(p, "expected expression in list");
     }
     
@@ -1115,7 +1127,7 @@ static SCM *parse_list(Parser *p) {
           cdr = parse_expr(p);
         }
         if (!cdr) {
-          pop_parse_stack();  // Pop before error
+          pop_parse_stack_to(outer);  // Pop before error
           parse_error(p, "expected expression after dot");
         }
         
@@ -1149,7 +1161,7 @@ static SCM *parse_list(Parser *p) {
         cdr = parse_expr(p);
       }
       if (!cdr) {
-        pop_parse_stack();  // Pop before error
+        pop_parse_stack_to(outer);  // Pop before error
         parse_error(p, "expected expression after dot");
       }
       
@@ -1167,13 +1179,13 @@ static SCM *parse_list(Parser *p) {
   }
   
   if (*p->pos != ')') {
-    pop_parse_stack();  // Pop before error
+    pop_parse_stack_to(outer);  // Pop before error
     parse_error(p, "expected ')' to close list");
   }
   p->pos++; // consume ')'
   p->column++;
   
-  pop_parse_stack();  // Successfully parsed list
+  pop_parse_stack_to(outer);  // Successfully parsed list
   
   if (dummy.next) {
     SCM *scm = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
@@ -1458,19 +1470,9 @@ SCM_List *parse_file(const char *filename) {
     tail->next = node;
     tail = node;
     
-    // Clear parse stack after successful parse of each expression
-    while (g_parse_stack) {
-      pop_parse_stack();
-    }
-    
     skip_whitespace(&p);
   }
   
-  // Clear any remaining stack frames
-  while (g_parse_stack) {
-    pop_parse_stack();
-  }
-  
   delete[] content;
   return dummy.next;
 }
@@ -1516,18 +1518,8 @@ SCM_List *parse_string(const char *str) {
     tail->next = node;
     tail = node;
     
-    // Clear parse stack after successful parse of each expression
-    while (g_parse_stack) {
-      pop_parse_stack();
-    }
-    
     skip_whitespace(&p);
   }
   
-  // Clear any remaining stack frames
-  while (g_parse_stack) {
-    pop_parse_stack();
-  }
-  
   return dummy.next;
 }
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 582448d..f67b39f 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -729,6 +729,8 @@ SCM *scm_c_display(SCM_List *args);
 SCM *parse(const char *s);
 SCM_List *parse_file(const char *filename);
 SCM_List *parse_string(const char *str);  // Parse string and return list of expressions
+ParseStackFrame *parse_stack_top();
+void pop_parse_stack_to(ParseStackFrame *outer);
 
 /*
  * Functions in repl.cc
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index 6d34ea5..88155ea 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -96,6 +96,7 @@ struct dynamic_state {
   struct lazy_catch_data *lazy_top;   // Innermost active lazy catch handler
   int eval_depth;                     // Frames on the evaluation stack
   SCM *eval_context;                  // Expression being evaluated
+  struct ParseStackFrame *parse_top;  // Innermost construct being read
   SCM *module;                        // Current module
   bool in_binder_call;                // Whether a module binder is running
   FILE *output;                       // Where print_ast writes
diff --git a/src/c/throw.cc b/src/c/throw.cc
index 72cd250..421f0d8 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -51,6 +51,7 @@ void scm_save_dynamic_state(struct dynamic_state *state) {
   state->lazy_top = g_lazy_catch_top;
   state->eval_depth = eval_stack_depth();
   state->eval_context = g_current_eval_context;
+  state->parse_top = parse_stack_top();
   state->module = scm_current_module();
   state->in_binder_call = g_in_binder_call;
   state->output = stdout;
@@ -61,6 +62,7 @@ void scm_restore_dynamic_state(const struct dynamic_state *state) {
   g_lazy_catch_top = state->lazy_top;
   pop_eval_stack_to(state->eval_depth);
   g_current_eval_context = state->eval_context;
+  pop_parse_stack_to(state->parse_top);
   if (state->module) {
     scm_set_current_module(state->module);
   }
-- 
2.43.0


From 5d2325a3de0c4c7bb4fdb31673eea24218184cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:28 +0000
Subject: [PATCH 32/44] fix: strings and symbols with an embedded NUL are
 compared in full

---
 src/c/eq.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/eq.cc b/src/c/eq.cc
index bd135fc..3eb1217 100644
--- a/src/c/eq.cc
+++ b/src/c/eq.cc
@@ -16,7 +16,7 @@ bool _sym_eq(SCM *lhs, SCM *rhs) {
   if (is_sym(lhs) && is_sym(rhs)) {
     auto sym1 = cast<SCM_Symbol>(lhs);
     auto sym2 = cast<SCM_Symbol>(rhs);
-    return strcmp(sym1->data, sym2->data) == 0;
+    return sym1->len == sym2->len && memcmp(sym1->data, sym2->data, sym1->len) == 0;
   }
   
   // Handle strings
@@ -26,7 +26,7 @@ bool _sym_eq(SCM *lhs, SCM *rhs) {
     if (str1->len != str2->len) {
       return false;
     }
-    return strncmp(str1->data, str2->data, str1->len) == 0;
+    return memcmp(str1->data, str2->data, str1->len) == 0;
   }
   
   // Mixed types (sym and str) are not equal
-- 
2.43.0


From 3a251761335c82217e35c23c11cc9e3f7add5089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:17 +0000
Subject: [PATCH 33/44] fix: a hash table finds a large integer by an equal
 float, hashing numbers as the equivalence compares them

---
 src/c/hash_table.cc | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 8aa0ed0..5e033b7 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -14,6 +14,15 @@ static inline unsigned long hash_string_content(const char *data, int len) {
   return h;
 }
 
+// Numbers of different exactness are compared as doubles, so they are hashed as
+// doubles.
+static unsigned long hash_double(double val) {
+  if (val >= -9.2e18 && val <= 9.2e18) {
+    return (unsigned long)(int64_t)val;
+  }
+  return 1;
+}
+
 // Hash of a key that is not compared element by element.  Keys the equivalence
 // predicates consider the same must hash to the same value, so everything they
 // compare by content is hashed by content.
@@ -31,15 +40,8 @@ static unsigned long hash_atom(SCM *key) {
     return hash_string_content(str->data, str->len);
   }
   case SCM::NUM:
-    return (unsigned long)(int64_t)key->value;
-  case SCM::FLOAT: {
-    // An integral float is equal to the integer
-    double val = ptr_to_double(key->value);
-    if (val >= -9.2e18 && val <= 9.2e18) {
-      return (unsigned long)(int64_t)val;
-    }
-    return 1;
-  }
+  case SCM::FLOAT:
+    return hash_double(scm_to_double(key));
   case SCM::RATIO: {
     auto rat = cast<SCM_Rational>(key);
     return (unsigned long)rat->numerator * 31 + (unsigned long)rat->denominator;
-- 
2.43.0


From dcfdb3541e24775d45da6bdb52f18d940c5c3ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:01 +0000
Subject: [PATCH 34/44] fix: large heap blocks are a multiple of 16 bytes, as
 the sweep expects

---
 src/c/gc.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index c2d2c82..32d3780 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -252,6 +252,9 @@ void *gc_alloc(TypeTag tag, size_t size) {
 
   } else {
     // Large-object bucket (first-fit).
+    // Blocks follow each other 16-byte aligned, and the sweep finds the next one
+    // by this one's size.
+    size = (size + 15) & ~(size_t)15;
     GCBlock *prev = nullptr;
     block = free_lists[LARGE_BUCKET];
     while (block) {
-- 
2.43.0


From 0ab90431e5d367fab21aab6aefb7c43247e1fe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:42 +0000
Subject: [PATCH 35/44] fix: closing a port never closes a standard stream, and
 marks a soft port closed before its thunk runs

---
 src/c/port.cc | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index c39c9a4..04287f5 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -115,6 +115,18 @@ SCM *scm_c_open_output_file(SCM *filename) {
   return wrap_port(port);
 }
 
+// Let go of the file of a port that is being closed. The standard streams
+// belong to the process: output to them goes on through other ports.
+static void release_port_file(SCM_Port *p) {
+  FILE *f = p->file;
+  p->file = nullptr;
+  if (f == stdout || f == stderr) {
+    fflush(f);
+  } else if (f != stdin) {
+    fclose(f);
+  }
+}
+
 // close-input-port: Close an input port
 SCM *scm_c_close_input_port(SCM *port) {
   if (!is_port(port)) {
@@ -132,6 +144,8 @@ SCM *scm_c_close_input_port(SCM *port) {
     return scm_none();
   }
   
+  // Marked first: the close thunk of a soft port may close the port itself
+  p->is_closed = true;
   if (p->port_type == PORT_SOFT) {
     // Call procedure at index 4 (close port thunk)
     if (p->soft_procedures && p->soft_procedures->length >= 5) {
@@ -139,10 +153,8 @@ SCM *scm_c_close_input_port(SCM *port) {
       call_soft_port_thunk(close_proc);
     }
   } else if (p->file) {
-    fclose(p->file);
-    p->file = nullptr;
+    release_port_file(p);
   }
-  p->is_closed = true;
   
   return scm_none();
 }
@@ -164,6 +176,8 @@ SCM *scm_c_close_output_port(SCM *port) {
     return scm_none();
   }
   
+  // Marked first: the close thunk of a soft port may close the port itself
+  p->is_closed = true;
   if (p->port_type == PORT_SOFT) {
     // Call procedure at index 4 (close port thunk)
     if (p->soft_procedures && p->soft_procedures->length >= 5) {
@@ -171,12 +185,10 @@ SCM *scm_c_close_output_port(SCM *port) {
       call_soft_port_thunk(close_proc);
     }
   } else if (p->file) {
-    fclose(p->file);
-    p->file = nullptr;
+    release_port_file(p);
   } else if (p->output_buffer) {
     // For string output ports, buffer is kept for get-output-string
   }
-  p->is_closed = true;
   
   return scm_none();
 }
-- 
2.43.0


From cdf03b8e866b205bc2140c5576a0dc1731b2ce4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:42 +0000
Subject: [PATCH 36/44] fix: release the scratch buffer of read at end of file
 and the path of a module that is already loaded

---
 src/c/module.cc | 6 ++----
 src/c/port.cc   | 2 ++
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 4ffcf3c..da5dfa6 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -416,10 +416,6 @@ SCM *scm_resolve_module(SCM_List *name) {
 
     // Restore current module
     scm_set_current_module(old_module);
-
-    if (full_path) {
-      free(full_path);
-    }
   } else {
     // File not found: warn if module was just created (no code for module)
     // This matches Guile 1.8's behavior: use-modules warns/errors when no code found
@@ -443,6 +439,8 @@ SCM *scm_resolve_module(SCM_List *name) {
     }
   }
   
+  free(full_path);
+
   return module;
 }
 
diff --git a/src/c/port.cc b/src/c/port.cc
index 04287f5..4213fed 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -594,6 +594,7 @@ static SCM *read_expr_from_port(SCM_Port *port) {
     int ch = peek_char_from_port(port);
     if (ch == EOF) {
       if (!started) {
+        free(buffer);
         return scm_eof_object();
       }
       break;
@@ -630,6 +631,7 @@ static SCM *read_expr_from_port(SCM_Port *port) {
   }
   
   if (!started) {
+    free(buffer);
     return scm_eof_object();
   }
   
-- 
2.43.0


From bb29bf945515e38d19d8418f64dbea1f615d5798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:47 +0000
Subject: [PATCH 37/44] fix: every entry point of the embedding API reports
 errors to the host instead of ending it

---
 src/c/pscm_api.cc | 55 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index c7f5354..97937d5 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -15,6 +15,20 @@ static pscm_error_handler_t g_error_handler = nullptr;
 char *g_last_error_message = nullptr;
 char *g_last_error_key = nullptr;
 
+// Run body so that an error it raises ends this call of the API (which then
+// returns null) and is recorded for the host, instead of unwinding into the host
+template <typename Body>
+static SCM *guarded(Body body) {
+  return scm_c_catch(
+      scm_bool_true(),
+      [](void *data) -> SCM * {
+        return (*(Body *)data)();
+      },
+      (void *)&body,
+      scm_api_catch_handler,
+      nullptr);
+}
+
 // Library initialization
 void pscm_init(void) {
   init_scm();
@@ -80,6 +94,9 @@ SCM *pscm_eval_file(const char *filename) {
   while (current) {
     if (current->data) {
       last_result = pscm_eval(current->data);
+      if (!last_result) {
+        return nullptr;
+      }
     }
     current = current->next;
   }
@@ -106,7 +123,12 @@ SCM_List *pscm_parse_file(const char *filename) {
   if (!filename) {
     return nullptr;
   }
-  return parse_file(filename);
+  SCM_List *exprs = nullptr;
+  guarded([&]() -> SCM * {
+    exprs = parse_file(filename);
+    return nullptr;
+  });
+  return exprs;
 }
 
 // Get the global environment
@@ -146,11 +168,11 @@ bool pscm_get_ast_debug_enabled(void) {
 
 // Variable operations (compatible with Guile 1.8 API)
 SCM *pscm_c_lookup(const char *name) {
-  return scm_c_lookup(name);
+  return guarded([&] { return scm_c_lookup(name); });
 }
 
 SCM *pscm_variable_ref(SCM *var) {
-  return scm_variable_ref(var);
+  return guarded([&] { return scm_variable_ref(var); });
 }
 
 SCM *pscm_make_variable(SCM *init) {
@@ -162,37 +184,40 @@ SCM *pscm_make_undefined_variable(void) {
 }
 
 SCM *pscm_c_define(const char *name, SCM *val) {
-  return scm_c_define(name, val);
+  return guarded([&] { return scm_c_define(name, val); });
 }
 
 SCM *pscm_c_define_gsubr(const char *name, int req, int opt, int rst,
                          SCM *(*fcn)(void)) {
-  return scm_c_define_gsubr(name, req, opt, rst, fcn);
+  return guarded([&] { return scm_c_define_gsubr(name, req, opt, rst, fcn); });
 }
 
 // Module operations (compatible with Guile 1.8 API)
 SCM *pscm_c_resolve_module(const char *name) {
-  return scm_c_resolve_module(name);
+  return guarded([&] { return scm_c_resolve_module(name); });
 }
 
 SCM *pscm_c_module_lookup(SCM *module, const char *name) {
-  return scm_c_module_lookup(module, name);
+  return guarded([&] { return scm_c_module_lookup(module, name); });
 }
 
 SCM *pscm_c_module_define(SCM *module, const char *name, SCM *val) {
-  return scm_c_module_define(module, name, val);
+  return guarded([&] { return scm_c_module_define(module, name, val); });
 }
 
 void pscm_c_use_module(const char *name) {
-  scm_c_use_module(name);
+  guarded([&]() -> SCM * {
+    scm_c_use_module(name);
+    return nullptr;
+  });
 }
 
 SCM *pscm_c_current_module(void) {
-  return scm_current_module();
+  return guarded([&] { return scm_current_module(); });
 }
 
 SCM *pscm_c_set_current_module(SCM *module) {
-  return scm_set_current_module(module);
+  return guarded([&] { return scm_set_current_module(module); });
 }
 
 // Port operations (compatible with Guile 1.8 API)
@@ -201,20 +226,20 @@ SCM *pscm_current_error_port(void) {
 }
 
 SCM *pscm_set_current_error_port(SCM *port) {
-  return scm_set_current_error_port(port);
+  return guarded([&] { return scm_set_current_error_port(port); });
 }
 
 SCM *pscm_current_input_port(void) {
   return scm_current_input_port();
 }
 SCM *pscm_set_current_input_port(SCM *port) {
-  return scm_set_current_input_port(port);
+  return guarded([&] { return scm_set_current_input_port(port); });
 }
 SCM *pscm_current_output_port(void) {
   return scm_current_output_port();
 }
 SCM *pscm_set_current_output_port(SCM *port) {
-  return scm_set_current_output_port(port);
+  return guarded([&] { return scm_set_current_output_port(port); });
 }
 
 SCM *pscm_force_output(SCM *port) {
@@ -223,7 +248,7 @@ SCM *pscm_force_output(SCM *port) {
   args.data = port;
   args.next = nullptr;
   args.is_dotted = false;
-  return scm_force_output(&args);
+  return guarded([&] { return scm_force_output(&args); });
 }
 
 // Throw operations (compatible with Guile 1.8 API)
-- 
2.43.0


From c26db1e37deea036447993a77ca8878688b643e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:13 +0000
Subject: [PATCH 38/44] fix: exact integer results that do not fit into 64 bits
 wrapped around silently

---
 src/c/number.cc | 112 +++++++++++++++++++++++++++---------------------
 src/c/parse.cc  |  25 +++++++----
 src/c/string.cc |   4 +-
 3 files changed, 82 insertions(+), 59 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 568d21c..6f1c799 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -105,6 +105,35 @@ static int64_t exact_denominator(SCM *arg) {
   return is_ratio(arg) ? cast<SCM_Rational>(arg)->denominator : 1;
 }
 
+// Exact arithmetic: a result that does not fit into 64 bits is an error
+static int64_t checked_add(int64_t lhs, int64_t rhs) {
+  int64_t ret;
+  if (__builtin_add_overflow(lhs, rhs, &ret)) {
+    eval_error("integer overflow");
+  }
+  return ret;
+}
+
+static int64_t checked_sub(int64_t lhs, int64_t rhs) {
+  int64_t ret;
+  if (__builtin_sub_overflow(lhs, rhs, &ret)) {
+    eval_error("integer overflow");
+  }
+  return ret;
+}
+
+static int64_t checked_mul(int64_t lhs, int64_t rhs) {
+  int64_t ret;
+  if (__builtin_mul_overflow(lhs, rhs, &ret)) {
+    eval_error("integer overflow");
+  }
+  return ret;
+}
+
+static int64_t checked_abs(int64_t val) {
+  return val < 0 ? checked_sub(0, val) : val;
+}
+
 template <typename Op>
 struct BinaryOperator {
   static SCM *run(SCM *lhs, SCM *rhs) {
@@ -146,7 +175,7 @@ struct BinaryOperator {
 template <typename Ret, typename T>
 struct AddOp {
   static Ret run(T lhs, T rhs) {
-    return lhs + rhs;
+    return checked_add(lhs, rhs);
   }
 };
 
@@ -161,7 +190,7 @@ struct AddOp<double, double> {
 template <typename Ret, typename T>
 struct MinusOp {
   static Ret run(T lhs, T rhs) {
-    return lhs - rhs;
+    return checked_sub(lhs, rhs);
   }
 };
 
@@ -175,7 +204,7 @@ struct MinusOp<double, double> {
 template <typename Ret, typename T>
 struct MulOp {
   static Ret run(T lhs, T rhs) {
-    return lhs * rhs;
+    return checked_mul(lhs, rhs);
   }
 };
 
@@ -246,7 +275,8 @@ SCM *scm_c_add_number(SCM *lhs, SCM *rhs) {
   if (is_ratio(lhs) || is_ratio(rhs)) {
     int64_t den1 = exact_denominator(lhs);
     int64_t den2 = exact_denominator(rhs);
-    return scm_make_ratio(exact_numerator(lhs) * den2 + exact_numerator(rhs) * den1, den1 * den2);
+    return scm_make_ratio(checked_add(checked_mul(exact_numerator(lhs), den2), checked_mul(exact_numerator(rhs), den1)),
+                          checked_mul(den1, den2));
   }
   return BinaryOperator<AddOp<int64_t, int64_t>>::run(lhs, rhs);
 }
@@ -261,7 +291,8 @@ SCM *scm_c_minus_number(SCM *lhs, SCM *rhs) {
   if (is_ratio(lhs) || is_ratio(rhs)) {
     int64_t den1 = exact_denominator(lhs);
     int64_t den2 = exact_denominator(rhs);
-    return scm_make_ratio(exact_numerator(lhs) * den2 - exact_numerator(rhs) * den1, den1 * den2);
+    return scm_make_ratio(checked_sub(checked_mul(exact_numerator(lhs), den2), checked_mul(exact_numerator(rhs), den1)),
+                          checked_mul(den1, den2));
   }
   return BinaryOperator<MinusOp<int64_t, int64_t>>::run(lhs, rhs);
 }
@@ -275,11 +306,11 @@ SCM *scm_c_negate_number(SCM *arg) {
     int64_t val = (int64_t)arg->value;
     SCM *data = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
     data->type = SCM::NUM;
-    data->value = (void *)(-val);
+    data->value = (void *)checked_sub(0, val);
     return data;
   } else if (is_ratio(arg)) {
     SCM_Rational *rat = cast<SCM_Rational>(arg);
-    return scm_make_ratio(-rat->numerator, rat->denominator);
+    return scm_make_ratio(checked_sub(0, rat->numerator), rat->denominator);
   }
   eval_error("negate: expected number");
   return nullptr;
@@ -369,7 +400,7 @@ SCM *scm_c_mul_number(SCM *lhs, SCM *rhs) {
     }
     
     // Multiply: (a/b) * (c/d) = (a*c)/(b*d)
-    return scm_make_ratio(num1 * num2, den1 * den2);
+    return scm_make_ratio(checked_mul(num1, num2), checked_mul(den1, den2));
   }
   
   // Handle float promotion directly
@@ -540,14 +571,14 @@ SCM *scm_c_abs(SCM *arg) {
   }
   if (is_ratio(arg)) {
     SCM_Rational *rat = cast<SCM_Rational>(arg);
-    return rat->numerator < 0 ? scm_make_ratio(-rat->numerator, rat->denominator) : arg;
+    return rat->numerator < 0 ? scm_make_ratio(checked_abs(rat->numerator), rat->denominator) : arg;
   }
   if (!is_num(arg)) {
     eval_error("abs: expected number");
     return nullptr;
   }
   int64_t val = (int64_t)arg->value;
-  int64_t abs_val = val < 0 ? -val : val;
+  int64_t abs_val = checked_abs(val);
   SCM *data = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
   data->type = SCM::NUM;
   data->value = (void *)abs_val;
@@ -587,14 +618,12 @@ SCM *_create_num(int64_t val) {
 
 // Helper function to compute GCD
 static int64_t gcd(int64_t a, int64_t b) {
-  a = a < 0 ? -a : a;
-  b = b < 0 ? -b : b;
   while (b != 0) {
     int64_t temp = b;
-    b = a % b;
+    b = b == -1 ? 0 : a % b;
     a = temp;
   }
-  return a < 0 ? -a : a;
+  return checked_abs(a);
 }
 
 // gcd: Return the greatest common divisor of the arguments
@@ -611,8 +640,7 @@ SCM *scm_c_gcd(SCM_List *args) {
     return nullptr;
   }
   
-  int64_t result = (int64_t)first->value;
-  result = result < 0 ? -result : result;  // abs
+  int64_t result = gcd((int64_t)first->value, 0);
   
   SCM_List *current = args->next;
   while (current) {
@@ -644,8 +672,7 @@ SCM *scm_c_lcm(SCM_List *args) {
     return nullptr;
   }
   
-  int64_t result = (int64_t)first->value;
-  result = result < 0 ? -result : result;  // abs
+  int64_t result = checked_abs((int64_t)first->value);
   
   SCM_List *current = args->next;
   while (current) {
@@ -655,7 +682,7 @@ SCM *scm_c_lcm(SCM_List *args) {
       return nullptr;
     }
     int64_t val = (int64_t)arg->value;
-    val = val < 0 ? -val : val;  // abs
+    val = checked_abs(val);
     
     // lcm(a,b) = |a*b| / gcd(a,b)
     // But we need to avoid overflow, so compute as: (a / gcd(a,b)) * b
@@ -666,7 +693,7 @@ SCM *scm_c_lcm(SCM_List *args) {
     if (g > 1) {
       result /= g;
     }
-    result *= val;
+    result = checked_mul(result, val);
     current = current->next;
   }
   
@@ -685,12 +712,6 @@ SCM *scm_make_ratio(int64_t numerator, int64_t denominator) {
     return _create_num(0);
   }
   
-  // Normalize sign: denominator should be positive
-  if (denominator < 0) {
-    numerator = -numerator;
-    denominator = -denominator;
-  }
-  
   // Simplify the fraction using GCD
   int64_t g = gcd(numerator, denominator);
   if (g > 1) {
@@ -698,6 +719,12 @@ SCM *scm_make_ratio(int64_t numerator, int64_t denominator) {
     denominator /= g;
   }
   
+  // Normalize sign: denominator should be positive
+  if (denominator < 0) {
+    numerator = checked_sub(0, numerator);
+    denominator = checked_sub(0, denominator);
+  }
+  
   // If denominator is 1, return an integer
   if (denominator == 1) {
     return _create_num(numerator);
@@ -823,34 +850,19 @@ SCM *scm_c_expt(SCM *base, SCM *exp) {
   }
   
   // Handle negative exponent
-  bool is_negative = false;
   if (n2 < 0) {
-    is_negative = true;
-    n2 = -n2;
+    if (n1 != 1 && n1 != -1) {
+      // We can't represent the fraction, so return 0
+      // This is a limitation of integer-only arithmetic
+      return _create_num(0);
+    }
+    n2 = checked_sub(0, n2);
   }
   
   // Calculate base^n2
   int64_t ret = n1;
   for (int64_t i = 0; i < n2 - 1; ++i) {
-    ret *= n1;
-  }
-  
-  // Handle negative exponent result
-  if (is_negative) {
-    // For negative exponents, we return 1/result
-    // But since we only support integers, we can only return exact results
-    // when result is 1 or -1
-    if (ret == 1) {
-      return _create_num(1);
-    }
-    else if (ret == -1) {
-      return _create_num(-1);
-    }
-    else {
-      // For other cases, we can't represent fractions, so return 0
-      // This is a limitation of integer-only arithmetic
-      return _create_num(0);
-    }
+    ret = checked_mul(ret, n1);
   }
   
   return _create_num(ret);
@@ -966,8 +978,8 @@ SCM *scm_c_div(SCM_List *args) {
     }
     
     // (result_num/result_den) / (div_num/div_den) = (result_num * div_den) / (result_den * div_num)
-    result_num = result_num * div_den;
-    result_den = result_den * div_num;
+    result_num = checked_mul(result_num, div_den);
+    result_den = checked_mul(result_den, div_num);
     
     current = current->next;
   }
diff --git a/src/c/parse.cc b/src/c/parse.cc
index 5e57978..51c23b4 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1,3 +1,4 @@
+#include <cmath>
 #include "pscm.h"
 #include "eval.h"
 #include "error.h"
@@ -345,15 +346,23 @@ static SCM *parse_number(Parser *p) {
   
   // Parse integer part
   long int_part = 0;
+  double magnitude = 0.0;
+  bool overflow = false;
   while (isdigit((unsigned char)*p->pos)) {
-    int_part = int_part * 10 + (*p->pos - '0');
+    int digit = *p->pos - '0';
+    magnitude = magnitude * 10 + digit;
+    if (__builtin_mul_overflow(int_part, 10L, &int_part) ||
+        __builtin_add_overflow(int_part, (long)(negative ? -digit : digit), &int_part)) {
+      overflow = true;
+      int_part = 0;
+    }
     p->pos++;
     p->column++;
   }
   
   // Check for decimal point
   bool is_float = false;
-  double float_value = (double)int_part;
+  double float_value = overflow ? magnitude : std::fabs((double)int_part);
   
   if (*p->pos == '.') {
     is_float = true;
@@ -413,12 +422,12 @@ static SCM *parse_number(Parser *p) {
   }
   
   // Apply sign
-  if (negative) {
-    if (is_float) {
-      float_value = -float_value;
-    } else {
-      int_part = -int_part;
-    }
+  if (negative && is_float) {
+    float_value = -float_value;
+  }
+  
+  if (overflow && !is_float) {
+    parse_error(p, "integer too large");
   }
   
   // Create SCM object
diff --git a/src/c/string.cc b/src/c/string.cc
index 27e3a19..1c84afa 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include <cerrno>
 #include <cstring>
 #include <ctype.h>
 
@@ -449,8 +450,9 @@ SCM *scm_c_string_to_number(SCM_List *args) {
     }
   } else {
     // Parse as integer
+    errno = 0;
     long val = strtol(str, &endptr, radix);
-    if (endptr == str || *endptr != '\0') {
+    if (endptr == str || *endptr != '\0' || errno == ERANGE) {
       // Failed to parse
       result = scm_bool_false();
     } else {
-- 
2.43.0


From 738500c43f345b278f7cbe53d3463b7b2c6a7524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:25 +0000
Subject: [PATCH 39/44] fix: the end test of do accepts any value, and only #f
 continues the loop

---
 src/c/do.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/do.cc b/src/c/do.cc
index a554310..c871aa0 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -151,7 +151,7 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
   
   // Main loop: continue while test condition is false
   int loop_count = 0;
-  while (is_false(ret)) {
+  while (is_falsy(ret)) {
     if (debug_enabled) {
       SCM_DEBUG_EVAL("do: loop iteration %d\n", loop_count++);
     }
-- 
2.43.0


From 692bdda09588a172de498bbb7711d7610600bfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:20 +0000
Subject: [PATCH 40/44] fix: the variables of do no longer overwrite a variable
 of the same name in an enclosing scope

---
 src/c/do.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/do.cc b/src/c/do.cc
index c871aa0..f908293 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -42,7 +42,7 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
   // This implements parallel binding: all variables are updated simultaneously
   auto val_it = new_vals.next;
   for (it = var_update_list->next; it && val_it; it = it->next, val_it = val_it->next) {
-    scm_env_insert(do_env, cast<SCM_Symbol>(cast<SCM_List>(it->data)->data), val_it->data);
+    scm_env_insert(do_env, cast<SCM_Symbol>(cast<SCM_List>(it->data)->data), val_it->data, /*search_parent=*/false);
   }
 }
 
@@ -109,7 +109,7 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     }
 
     // Insert variable into do environment
-    scm_env_insert(do_env, var_name, var_init_val);
+    scm_env_insert(do_env, var_name, var_init_val, /*search_parent=*/false);
     
     // Store update step if provided
     if (var_update_step) {
-- 
2.43.0


From 6171fa7608e2df4c94675e3c13cdb901ca12f508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:20 +0000
Subject: [PATCH 41/44] fix: a local define-macro no longer overwrites a
 variable of the same name in an enclosing scope

---
 src/c/macro.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c/macro.cc b/src/c/macro.cc
index 1af13c9..7cf8b94 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -282,13 +282,13 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
       scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
     } else if (env->parent) {
-      scm_env_insert(env, name, macro_scm);
+      scm_env_insert(env, name, macro_scm, /*search_parent=*/false);
     } else {
       auto global_entry = scm_env_search_entry(&g_env, name, /*search_parent=*/false);
       if (global_entry) {
         global_entry->value = macro_scm;
       } else {
-        scm_env_insert(env, name, macro_scm);
+        scm_env_insert(env, name, macro_scm, /*search_parent=*/false);
       }
     }
 
@@ -327,13 +327,13 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
     SCM_Module *module = cast<SCM_Module>(current_mod);
     scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
   } else if (env->parent) {
-    scm_env_insert(env, name, macro_scm);
+    scm_env_insert(env, name, macro_scm, /*search_parent=*/false);
   } else {
     auto global_entry = scm_env_search_entry(&g_env, name, /*search_parent=*/false);
     if (global_entry) {
       global_entry->value = macro_scm;
     } else {
-      scm_env_insert(env, name, macro_scm);
+      scm_env_insert(env, name, macro_scm, /*search_parent=*/false);
     }
   }
 
-- 
2.43.0


From 7dc6210915955c77f6e80426a3370b25f96a37ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:20 +0000
Subject: [PATCH 42/44] fix: set! finds the variables of the module a procedure
 was loaded in, as a lookup does

---
 src/c/eval.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index b528119..44465e2 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -94,11 +94,21 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
     if (entry) {
       entry->value = val;
     } else {
-      // Not found in environment, check if it's in the current module
+      // Not found in environment, check the module the code was loaded in (as
+      // a lookup does), then the current module
+      SCM_Module *var_module = nullptr;
+      SCM_Environment *e = env;
+      while (e && !e->module) {
+        e = e->parent;
+      }
+      if (e) {
+        var_module = module_find_variable_module(e->module, sym);
+      }
       SCM *current_mod = scm_current_module();
-      if (current_mod && is_module(current_mod)) {
-        SCM_Module *module = cast<SCM_Module>(current_mod);
-        SCM_Module *var_module = module_find_variable_module(module, sym);
+      if (var_module || (current_mod && is_module(current_mod))) {
+        if (!var_module) {
+          var_module = module_find_variable_module(cast<SCM_Module>(current_mod), sym);
+        }
         if (var_module) {
           // Variable exists in a module, update it
           scm_c_hash_set_eq(wrap(var_module->obarray), wrap(sym), val);
-- 
2.43.0


From 1b662f384cfa60becb5d79282080a1f6cef2343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:20 +0000
Subject: [PATCH 43/44] fix: a variable of an enclosing local scope hides a
 macro of the same name

---
 src/c/eval.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 44465e2..9446dfc 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -325,6 +325,10 @@ entry:
 
     // Check if this is a macro call (before checking special forms)
     SCM *val = scm_env_exist(env, sym);
+    // A variable of an enclosing local scope hides macros of the same name
+    for (SCM_Environment *e = env->parent; !val && e && e != &g_env; e = e->parent) {
+      val = scm_env_exist(e, sym);
+    }
     if (!val) {
       // Search module obarray + use chain for macros imported via use-modules.
       // Only when we're in a non-root module (root has everything in g_env already).
-- 
2.43.0


From 21edc49387e97d231ab317aadf213dcb96ca3b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:29 +0000
Subject: [PATCH 44/44] fix: a local procedure or macro definition, and any
 local definition inside a module's code, is bound in its scope instead of the
 module

---
 src/c/define.cc | 12 +++++++++---
 src/c/eval.h    |  1 +
 src/c/macro.cc  |  4 ++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/c/define.cc b/src/c/define.cc
index 0e7e602..471a7d3 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -1,6 +1,12 @@
 #include "pscm.h"
 #include "eval.h"
 
+// A definition in a local scope (procedure body, let, do) is bound in that scope. The top level
+// of the program and that of a module's file are not local; scopes inherit their parent's module.
+bool is_local_scope(SCM_Environment *env) {
+  return env->parent && (!env->module || env->parent->module == env->module);
+}
+
 SCM *eval_define(SCM_Environment *env, SCM_List *l) {
   if (!l->next) {
     eval_error("define: bad syntax");
@@ -28,7 +34,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     // This ensures define creates local bindings in let/lambda contexts
     if (env->parent) {
       // Check if this is a module environment (env->module from scm_resolve_module)
-      if (env->module) {
+      if (!is_local_scope(env)) {
         scm_c_hash_set_eq(wrap(env->module->obarray), wrap(varname), val);
       } else {
         // We're in a nested environment (lambda/let), create local binding
@@ -124,7 +130,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     SCM *ret = wrap(proc);
     // If current module exists, define in module
     SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod)) {
+    if (!is_local_scope(env) && current_mod && is_module(current_mod)) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
       scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), ret);
     } else {
@@ -162,7 +168,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     }
     // If current module exists, define in module
     SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod)) {
+    if (!is_local_scope(env) && current_mod && is_module(current_mod)) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
       scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), val);
     } else {
diff --git a/src/c/eval.h b/src/c/eval.h
index 5e5ed95..5281ebd 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -38,6 +38,7 @@ SCM *expand_macros(SCM_Environment *env, SCM *ast);
 SCM *eval_define_macro(SCM_Environment *env, SCM_List *l);
 
 // Define special form
+bool is_local_scope(SCM_Environment *env);
 SCM *eval_define(SCM_Environment *env, SCM_List *l);
 
 // Lambda special form (used by define)
diff --git a/src/c/macro.cc b/src/c/macro.cc
index 7cf8b94..d7bf9c3 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -278,7 +278,7 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
     // a parent chain, so env->parent alone doesn't distinguish module
     // scope from lambda scope).
     SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
+    if (!is_local_scope(env) && current_mod && is_module(current_mod) && current_mod != g_root_module) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
       scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
     } else if (env->parent) {
@@ -323,7 +323,7 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
 
   // Module-aware insertion: check module first
   SCM *current_mod = scm_current_module();
-  if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
+  if (!is_local_scope(env) && current_mod && is_module(current_mod) && current_mod != g_root_module) {
     SCM_Module *module = cast<SCM_Module>(current_mod);
     scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
   } else if (env->parent) {
-- 
2.43.0

