From 474bd22c82814f06434716330241aa0c0a142565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 01/37] fix: stack allocators must not return a stack smaller
 than requested or larger than the attached buffer

---
 src/libcopp/stack/allocator/stack_allocator_malloc.cpp | 4 ++++
 src/libcopp/stack/allocator/stack_allocator_memory.cpp | 3 ++-
 src/libcopp/stack/allocator/stack_allocator_posix.cpp  | 4 ++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libcopp/stack/allocator/stack_allocator_malloc.cpp b/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
index 343c88b..9a222f6 100755
--- a/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
@@ -50,6 +50,10 @@ LIBCOPP_COPP_API void stack_allocator_malloc::allocate(stack_context &ctx, std::
   size = (std::min)(size, stack_traits::maximum_size());
 
   std::size_t size_ = stack_traits::round_to_page_size(size);
+  if (size_ < size) {  // the rounded size does not fit into size_t
+    ctx.sp = nullptr;
+    return;
+  }
 
   void *start_ptr = malloc(size_);
 
diff --git a/src/libcopp/stack/allocator/stack_allocator_memory.cpp b/src/libcopp/stack/allocator/stack_allocator_memory.cpp
index 2616a69..d915516 100755
--- a/src/libcopp/stack/allocator/stack_allocator_memory.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_memory.cpp
@@ -100,7 +100,8 @@ LIBCOPP_COPP_API void stack_allocator_memory::allocate(stack_context &ctx, std::
   size = (std::min)(size, stack_traits::maximum_size());
   size = (std::min)(size, memory_size_);
 
-  std::size_t size_ = stack_traits::round_to_page_size(size);
+  // never hand out more than the attached buffer
+  std::size_t size_ = (std::min)(stack_traits::round_to_page_size(size), memory_size_);
   assert(size > 0 && size_ > 0 && size_ <= memory_size_);
 
   ctx.size = size_;
diff --git a/src/libcopp/stack/allocator/stack_allocator_posix.cpp b/src/libcopp/stack/allocator/stack_allocator_posix.cpp
index efb5b11..e489268 100755
--- a/src/libcopp/stack/allocator/stack_allocator_posix.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_posix.cpp
@@ -61,6 +61,10 @@ LIBCOPP_COPP_API void stack_allocator_posix::allocate(stack_context &ctx, std::s
   size = (std::min)(size, stack_traits::maximum_size());
 
   std::size_t size_ = stack_traits::round_to_page_size(size) + stack_traits::page_size();  // add one protected page
+  if (size_ <= size) {  // the rounded size does not fit into size_t
+    ctx.sp = nullptr;
+    return;
+  }
   assert(size > 0 && size_ > 0);
 
   // conform to POSIX.4 (POSIX.1b-1993, _POSIX_C_SOURCE=199309L)
-- 
2.43.0


From aff1d114d8d6d5d486fa1fef7b273879c4263f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 02/37] fix: moving a lock_holder by assignment must leave the
 source empty

---
 include/libcopp/utils/lock_holder.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/libcopp/utils/lock_holder.h b/include/libcopp/utils/lock_holder.h
index 4a4ebf7..09c5e5b 100755
--- a/include/libcopp/utils/lock_holder.h
+++ b/include/libcopp/utils/lock_holder.h
@@ -91,11 +91,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY lock_holder {
       return *this;
     }
 
-    if (lock_flag_ != other.lock_flag_) {
-      reset();
-    }
+    reset();
 
     lock_flag_ = other.lock_flag_;
+    other.lock_flag_ = nullptr;
     return *this;
   }
 
-- 
2.43.0


From db7400220fe060b8c1fbd391b884146c8f104f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 03/37] fix: swapping a success and an error result must
 exchange the whole values

---
 include/libcopp/future/storage.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/libcopp/future/storage.h b/include/libcopp/future/storage.h
index 6350f4d..7f8c95b 100644
--- a/include/libcopp/future/storage.h
+++ b/include/libcopp/future/storage.h
@@ -433,13 +433,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY result_base<TOK, TERR, true> {
   }
 
   inline void swap(result_base &other) LIBCOPP_MACRO_NOEXCEPT {
-    using std::swap;
-    if (is_success()) {
-      swap(success_data_, other.success_data_);
-    } else {
-      swap(error_data_, other.error_data_);
-    }
-    swap(mode_, other.mode_);
+    // the two sides may have different sizes, so the whole object has to be exchanged
+    result_base tmp(*this);
+    *this = other;
+    other = tmp;
   }
 
   UTIL_FORCEINLINE friend void swap(result_base &l, result_base &r) LIBCOPP_MACRO_NOEXCEPT { l.swap(r); }
-- 
2.43.0


From 994199bdd7e758ca14a3f25d8786d607e5f1f13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 04/37] fix: self-move of a result must keep its value

---
 include/libcopp/future/storage.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/future/storage.h b/include/libcopp/future/storage.h
index 7f8c95b..36eb2d9 100644
--- a/include/libcopp/future/storage.h
+++ b/include/libcopp/future/storage.h
@@ -490,8 +490,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY result_base<TOK, TERR, false> {
   }
 
   result_base &operator=(result_base &&other) {
-    swap(other);
-    other.reset();
+    if (this != &other) {
+      swap(other);
+      other.reset();
+    }
     return *this;
   }
 
-- 
2.43.0


From 1907eb5526682308db7420192bc7556c49351a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 05/37] fix: stack_pool::clear() must forget the stacks it
 returned to the allocator

---
 include/libcopp/stack/stack_pool.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libcopp/stack/stack_pool.h b/include/libcopp/stack/stack_pool.h
index 374d1b8..4283200 100755
--- a/include/libcopp/stack/stack_pool.h
+++ b/include/libcopp/stack/stack_pool.h
@@ -301,6 +301,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
     for (typename std::list<stack_context>::iterator iter = free_list_.begin(); iter != free_list_.end(); ++iter) {
       alloc_.deallocate(*iter);
     }
+    free_list_.clear();
 
     LIBCOPP_UTIL_LOCK_ATOMIC_THREAD_FENCE(LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
   }
-- 
2.43.0


From ee3a5dd7a68236a14774594369656ea7dadc8c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 06/37] fix: stack_pool must return a cached stack which it
 drops to the allocator

---
 include/libcopp/stack/stack_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcopp/stack/stack_pool.h b/include/libcopp/stack/stack_pool.h
index 4283200..d5e247d 100755
--- a/include/libcopp/stack/stack_pool.h
+++ b/include/libcopp/stack/stack_pool.h
@@ -160,7 +160,8 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
         limits_.used_stack_size += ctx.size;
         return;
       } else {
-        // just pop cache
+        // the cached stack is too small now, give it back
+        alloc_.deallocate(*iter);
         free_list_.pop_back();
       }
     }
-- 
2.43.0


From 4a2819553d79f4a93abdc500cd474c05e1ce1486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:01 +0000
Subject: [PATCH 07/37] fix: refuse coroutine sizes which overflow or do not
 fit into the allocated stack

---
 .../libcopp/coroutine/coroutine_context_container.h  | 11 +++++++++++
 src/libcopp/coroutine/coroutine_context.cpp          | 12 +++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/libcopp/coroutine/coroutine_context_container.h b/include/libcopp/coroutine/coroutine_context_container.h
index 3d5a46c..81ba140 100755
--- a/include/libcopp/coroutine/coroutine_context_container.h
+++ b/include/libcopp/coroutine/coroutine_context_container.h
@@ -75,6 +75,11 @@ class coroutine_context_container : public coroutine_context {
       stack_sz = stack_traits::default_size();
     }
 
+    // sizes which do not fit into the stack, checked one by one because the sum may overflow
+    if (coroutine_size >= stack_sz || private_buffer_size >= stack_sz) {
+      return ret;
+    }
+
     // padding to sizeof size_t
     coroutine_size = align_address_size(coroutine_size);
     const size_t this_align_size = align_address_size(sizeof(this_type));
@@ -92,6 +97,12 @@ class coroutine_context_container : public coroutine_context {
       return ret;
     }
 
+    // the allocator may return a stack smaller than requested (stack pool, system limits)
+    if (callee_stack.size <= coroutine_size + private_buffer_size) {
+      alloc.deallocate(callee_stack);
+      return ret;
+    }
+
     // placement new
     unsigned char *this_addr = reinterpret_cast<unsigned char *>(callee_stack.sp);
     // stack down
diff --git a/src/libcopp/coroutine/coroutine_context.cpp b/src/libcopp/coroutine/coroutine_context.cpp
index 4abd2f6..2236adc 100755
--- a/src/libcopp/coroutine/coroutine_context.cpp
+++ b/src/libcopp/coroutine/coroutine_context.cpp
@@ -35,6 +35,9 @@ void __splitstack_block_signals_context(void *[COPP_MACRO_SEGMENTED_STACK_NUMBER
 }
 #endif
 
+// enough for the initial frame of fcontext on every platform
+#define LIBCOPP_COROUTINE_CONTEXT_MIN_FRAME_SIZE 512
+
 LIBCOPP_COPP_NAMESPACE_BEGIN
 namespace detail {
 
@@ -297,8 +300,15 @@ LIBCOPP_COPP_API int coroutine_context::create(coroutine_context *p, callback_ty
     return COPP_EC_ARGS_ERROR;
   }
 
+  // check one by one, the sum may overflow
+  if (private_buffer_size >= callee_stack.size || coroutine_size >= callee_stack.size) {
+    return COPP_EC_ARGS_ERROR;
+  }
+
+  // the initial frame of fcontext must fit into the rest of the stack
   size_t stack_offset = align_stack_size(private_buffer_size + coroutine_size);
-  if (nullptr == callee_stack.sp || callee_stack.size <= stack_offset) {
+  if (nullptr == callee_stack.sp || callee_stack.size <= stack_offset ||
+      callee_stack.size - stack_offset < LIBCOPP_COROUTINE_CONTEXT_MIN_FRAME_SIZE) {
     return COPP_EC_ARGS_ERROR;
   }
 
-- 
2.43.0


From 9c68af0ba418b1dca9ef62b5405a7745dcf05ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:49 +0000
Subject: [PATCH 08/37] fix: task: refuse kill and cancel of a task that
 already has an exit status

A second kill or cancel changed the exit status of an ended task and fired
on_finished and the followers again; a second kill of a running task made
start() loop forever resuming the coroutine it is running on.
---
 include/libcotask/task.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 7b87efc..2d4d75f 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -569,6 +569,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     EN_TASK_STATUS from_status = get_status();
 
     do {
+      COPP_UNLIKELY_IF (from_status >= EN_TS_DONE) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+      }
+
       if (EN_TS_RUNNING == from_status) {
         return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IS_RUNNING;
       }
@@ -602,6 +606,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     EN_TASK_STATUS from_status = get_status();
 
     do {
+      COPP_UNLIKELY_IF (from_status >= EN_TS_DONE) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+      }
+
       COPP_LIKELY_IF (_cas_status(from_status, status)) {
         break;
       }
-- 
2.43.0


From 18bc558e069ca709d5a550650a30ce15f3a06022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:38 +0000
Subject: [PATCH 09/37] fix: task: finish a suspended task before its action is
 destroyed

Dropping the last reference of a suspended task destroyed the action first and
then resumed the task to end it, so its function and on_finished ran on a
destroyed object, and references taken while it ended released it again.
---
 include/libcotask/task.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 2d4d75f..7221dec 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -792,6 +792,17 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 
     size_t left = --p->ref_count_;
     if (0 == left) {
+      // a suspended task must be finished first, while its action and itself are still available
+      EN_TASK_STATUS status = p->get_status();
+      if (status < EN_TS_DONE && status > EN_TS_CREATED) {
+        ++p->ref_count_;
+        p->kill(EN_TS_TIMEOUT);
+        if (0 != --p->ref_count_) {
+          // someone keeps a new reference and will release it later
+          return;
+        }
+      }
+
       // save coroutine context first, make sure it's still available after destroy task
       using this_coroutine_type = typename task<TCO_MACRO>::coroutine_type;
       using this_coroutine_ptr_type = typename this_coroutine_type::ptr_type;
-- 
2.43.0


From 0fac03c09d07c86abfc53bc2cbec8d0a2fee0090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 10/37] fix: task: then() of a task without coroutine returned
 nothing

Control ran on into a use of the missing coroutine after the follower had
already been chained.
---
 include/libcotask/task.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 7221dec..6d433eb 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -387,7 +387,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
   template <typename Ty>
   inline ptr_type then(Ty &&functor, void *priv_data = nullptr) {
     if (!coroutine_obj_) {
-      then(create(std::forward<Ty>(functor), stack_size_, get_private_buffer_size()), priv_data);
+      return then(create(std::forward<Ty>(functor), stack_size_, get_private_buffer_size()), priv_data);
     }
 
     return then(
-- 
2.43.0


From 009b729653a4ec190f0210d580453f0803029e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 11/37] fix: task: refuse private buffer sizes that wrap the
 total size

A private buffer size near the maximum wrapped the sum of the sizes, so a task
with a far smaller private area was created instead of failing.
---
 include/libcotask/task.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 6d433eb..aaa86e5 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -101,7 +101,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     size_t action_size = coroutine_type::align_address_size(sizeof(a_t));
     size_t task_size = coroutine_type::align_address_size(sizeof(self_type));
 
-    if (stack_size <= sizeof(impl::task_impl *) + private_buffer_size + action_size + task_size) {
+    // private_buffer_size may be any value, do not let the sum wrap
+    if (stack_size <= sizeof(impl::task_impl *) + action_size + task_size ||
+        stack_size - (sizeof(impl::task_impl *) + action_size + task_size) <= private_buffer_size) {
       return ptr_type();
     }
 
-- 
2.43.0


From 5ad31ce64ee465138d3f0c9249648bebe72fa2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 12/37] fix: task manager: carry nanoseconds of deadlines into
 seconds

---
 include/libcotask/task_manager.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index a7dc903..ddd24ca 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -39,6 +39,15 @@ struct LIBCOPP_COTASK_API_HEAD_ONLY tickspec_t {
   time_t tv_sec; /* Seconds.  */
   int tv_nsec;   /* Nanoseconds.  */
 
+  inline void add(time_t sec, int nsec) {
+    tv_sec += sec;
+    tv_nsec += nsec;
+    if (tv_nsec >= 1000000000) {
+      tv_nsec -= 1000000000;
+      ++tv_sec;
+    }
+  }
+
   inline friend bool operator==(const tickspec_t &l, const tickspec_t &r) {
     return l.tv_sec == r.tv_sec && l.tv_nsec == r.tv_nsec;
   }
@@ -704,8 +713,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
            task_timeout_timer_.end() != iter; ++iter) {
         detail::task_timer_node<id_type> new_checkpoint = (*iter);
-        new_checkpoint.expired_time.tv_sec += sec;
-        new_checkpoint.expired_time.tv_nsec += nsec;
+        new_checkpoint.expired_time.add(sec, nsec);
         real_checkpoints.insert(new_checkpoint);
       }
 
@@ -828,8 +836,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
     detail::task_timer_node<id_type> timer_node;
     timer_node.task_id = node.task_->get_id();
-    timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec;
-    timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec;
+    timer_node.expired_time = last_tick_time_;
+    timer_node.expired_time.add(timeout_sec, timeout_nsec);
 
     std::pair<typename std::set<detail::task_timer_node<id_type>>::iterator, bool> res =
         task_timeout_timer_.insert(timer_node);
@@ -1312,8 +1320,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
            task_timeout_timer_.end() != iter; ++iter) {
         detail::task_timer_node<id_type> new_checkpoint = (*iter);
-        new_checkpoint.expired_time.tv_sec += sec;
-        new_checkpoint.expired_time.tv_nsec += nsec;
+        new_checkpoint.expired_time.add(sec, nsec);
         real_checkpoints.insert(new_checkpoint);
       }
 
@@ -1425,8 +1432,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
     detail::task_timer_node<id_type> timer_node;
     timer_node.task_id = node.task_.get_id();
-    timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec;
-    timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec;
+    timer_node.expired_time = last_tick_time_;
+    timer_node.expired_time.add(timeout_sec, timeout_nsec);
 
     std::pair<typename std::set<detail::task_timer_node<id_type>>::iterator, bool> res =
         task_timeout_timer_.insert(timer_node);
-- 
2.43.0


From a4554e8992e9c76acc375ebbae94b8ecfd644528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 13/37] fix: task manager: keep refusing operations until a
 reset has ended every task

---
 include/libcotask/task_manager.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index ddd24ca..094134c 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -244,7 +244,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
       tasks_.clear();
       task_timeout_timer_.clear();
-      flags_ = 0;
       last_tick_time_.tv_sec = 0;
       last_tick_time_.tv_nsec = 0;
     }
@@ -947,7 +946,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
       tasks_.clear();
       task_timeout_timer_.clear();
-      flags_ = 0;
       last_tick_time_.tv_sec = 0;
       last_tick_time_.tv_nsec = 0;
     }
-- 
2.43.0


From b38b58b866db4fbca40a1fef5052b333388f298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 14/37] fix: task manager: forget the manager in every task
 which a reset or a tick lets go

---
 include/libcotask/task_manager.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 094134c..436552a 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -250,6 +250,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
     // then, kill all tasks
     for (typename std::vector<task_ptr_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
+#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      using task_manager_helper = typename task_type::task_manager_helper;
+      // this manager may be destroyed before the task is finished
+      task_manager_helper::cleanup_task_manager(**iter, reinterpret_cast<void *>(this));
+#endif
       if (!(*iter)->is_exiting()) {
         (*iter)->kill(EN_TS_KILLED);
       }
@@ -767,12 +772,14 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       }
 
       // task call can not be used when lock is on
-      if (task_inst && !task_inst->is_exiting()) {
+      if (task_inst) {
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
         using task_manager_helper = typename task_type::task_manager_helper;
         // already cleanup, there is no need to cleanup again
         task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
 #endif
+      }
+      if (task_inst && !task_inst->is_exiting()) {
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
         task_inst->kill(eptrs, EN_TS_TIMEOUT, nullptr);
 #else
-- 
2.43.0


From 4b0b76f7a9f9dd1b2360c6ed039ec20b929688f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 15/37] fix: task: look up the manager after the pending tasks
 have run, they may destroy it

---
 include/libcotask/task.h | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index aaa86e5..e9e0e77 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -693,10 +693,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
   void active_next_tasks() {
 #endif
     std::list<std::pair<ptr_type, void *> > next_list;
-#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-    void *manager_ptr;
-    void (*manager_fn)(void *, self_type &);
-#endif
     // first, lock and swap container
     {
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
@@ -704,12 +700,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
           inner_action_lock_);
 #endif
       next_list.swap(next_list_.member_list_);
-#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-      manager_ptr = binding_manager_ptr_;
-      manager_fn = binding_manager_fn_;
-      binding_manager_ptr_ = nullptr;
-      binding_manager_fn_ = nullptr;
-#endif
     }
 
     // then, do all the pending tasks
@@ -740,6 +730,20 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 
     // finally, notify manager to cleanup(maybe start or resume with task's API but not task_manager's)
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+    // the pending tasks may have removed this task or destroyed the manager, so read it at last
+    void *manager_ptr;
+    void (*manager_fn)(void *, self_type &);
+    {
+#  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+          inner_action_lock_);
+#  endif
+      manager_ptr = binding_manager_ptr_;
+      manager_fn = binding_manager_fn_;
+      binding_manager_ptr_ = nullptr;
+      binding_manager_fn_ = nullptr;
+    }
+
     if (nullptr != manager_ptr && nullptr != manager_fn) {
       (*manager_fn)(manager_ptr, *this);
     }
-- 
2.43.0


From 9282a133086ea0c155a80f1da681ae77007e4652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 16/37] fix: task manager: a reset inside of tick must drop the
 rest of this tick

---
 include/libcotask/task_manager.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 436552a..77cdcca 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -706,7 +706,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
     }
 
     // first tick, init and reset task timeout
-    if (0 == last_tick_time_.tv_sec && 0 == last_tick_time_.tv_nsec) {
+    if (!has_ticked()) {
       // hold lock
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
       LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
@@ -740,7 +740,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
     std::list<std::exception_ptr> eptrs;
 #endif
     // remove timeout tasks
-    while (false == task_timeout_timer_.empty()) {
+    // (a task which is killed here may call reset(), the rest of this tick is dropped then)
+    while (false == task_timeout_timer_.empty() && has_ticked()) {
       task_ptr_type task_inst;
 
       {
@@ -788,7 +789,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       }
     }
 
-    last_tick_time_ = now_tick_time;
+    if (has_ticked()) {
+      last_tick_time_ = now_tick_time;
+    }
 
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
     task_type::maybe_rethrow(eptrs);
@@ -829,6 +832,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
   }
 
  private:
+  bool has_ticked() const LIBCOPP_MACRO_NOEXCEPT {
+    return 0 != last_tick_time_.tv_sec || 0 != last_tick_time_.tv_nsec;
+  }
+
   void set_timeout_timer(detail::task_manager_node<task_type> &node, time_t timeout_sec, int timeout_nsec) {
     remove_timeout_timer(node);
 
@@ -1314,7 +1321,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
     }
 
     // first tick, init and reset task timeout
-    if (0 == last_tick_time_.tv_sec && 0 == last_tick_time_.tv_nsec) {
+    if (!has_ticked()) {
       // hold lock
 #  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
       LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
@@ -1345,7 +1352,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
     }
 
     // remove timeout tasks
-    while (false == task_timeout_timer_.empty()) {
+    // (a task which is killed here may call reset(), the rest of this tick is dropped then)
+    while (false == task_timeout_timer_.empty() && has_ticked()) {
       task_type task_inst;
 
       {
@@ -1387,7 +1395,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       }
     }
 
-    last_tick_time_ = now_tick_time;
+    if (has_ticked()) {
+      last_tick_time_ = now_tick_time;
+    }
     return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
   }
 
@@ -1424,6 +1434,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
   }
 
  private:
+  bool has_ticked() const LIBCOPP_MACRO_NOEXCEPT {
+    return 0 != last_tick_time_.tv_sec || 0 != last_tick_time_.tv_nsec;
+  }
+
   void set_timeout_timer(detail::task_manager_node<task_type> &node, time_t timeout_sec, int timeout_nsec) {
     remove_timeout_timer(node);
 
-- 
2.43.0


From adebf6211ec06966cc8cc145f22a71f9cb863676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 17/37] fix: callable_future move assignment leaked the
 coroutine it held before

---
 include/libcopp/coroutine/callable_promise.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 88e72f1..7685bc8 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -317,8 +317,12 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_future {
 
   callable_future& operator=(const callable_future&) = delete;
   callable_future& operator=(callable_future&& other) noexcept {
-    current_handle_ = other.current_handle_;
-    other.current_handle_ = nullptr;
+    if (this != &other) {
+      // Finish and destroy the old one when leaving this block
+      callable_future old_future{current_handle_};
+      current_handle_ = other.current_handle_;
+      other.current_handle_ = nullptr;
+    }
     return *this;
   }
 
-- 
2.43.0


From 1d5d70894cbeb48cb5e83c11a3bf046cba04a3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 18/37] fix: callers removed while the others are being resumed
 must not be resumed

---
 .../libcopp/coroutine/std_coroutine_common.h  |  5 ++
 .../coroutine/std_coroutine_common.cpp        | 74 +++++++++++++------
 2 files changed, 55 insertions(+), 24 deletions(-)

diff --git a/include/libcopp/coroutine/std_coroutine_common.h b/include/libcopp/coroutine/std_coroutine_common.h
index 8f86aca..3db9943 100644
--- a/include/libcopp/coroutine/std_coroutine_common.h
+++ b/include/libcopp/coroutine/std_coroutine_common.h
@@ -183,6 +183,11 @@ class promise_caller_manager {
   };
 
   using multi_caller_set = std::unordered_set<handle_delegate, handle_delegate_hash>;
+
+  // Callers which are being resumed, remove_caller() must be able to find the ones which are not resumed yet
+  struct resuming_callers;
+  resuming_callers *resuming_callers_;
+
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
   std::variant<handle_delegate, multi_caller_set> callers_;
 #  else
diff --git a/src/libcopp/coroutine/std_coroutine_common.cpp b/src/libcopp/coroutine/std_coroutine_common.cpp
index b08f415..7b4055a 100644
--- a/src/libcopp/coroutine/std_coroutine_common.cpp
+++ b/src/libcopp/coroutine/std_coroutine_common.cpp
@@ -17,8 +17,38 @@
 
 LIBCOPP_COPP_NAMESPACE_BEGIN
 
+struct promise_caller_manager::resuming_callers {
+  promise_caller_manager *owner;
+  resuming_callers *previous;
+  multi_caller_set callers;
+
+  explicit resuming_callers(promise_caller_manager *manager) : owner(manager), previous(manager->resuming_callers_) {
+    manager->resuming_callers_ = this;
+  }
+
+  ~resuming_callers() {
+    // owner is reset if the manager is destroyed by any caller
+    if (nullptr != owner) {
+      owner->resuming_callers_ = previous;
+    }
+  }
+
+  void resume_all(size_t &resume_count) {
+    // Any caller may destroy other callers(and remove them), so always pick the first one of the rest.
+    while (!callers.empty()) {
+      handle_delegate caller = *callers.begin();
+      callers.erase(callers.begin());
+      if (caller.handle && !caller.handle.done() &&
+          (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
+        caller.handle.resume();
+        ++resume_count;
+      }
+    }
+  }
+};
+
 LIBCOPP_COPP_API promise_caller_manager::promise_caller_manager()
-    :
+    : resuming_callers_(nullptr),
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
       callers_(handle_delegate{nullptr})
 #  else
@@ -27,7 +57,11 @@ LIBCOPP_COPP_API promise_caller_manager::promise_caller_manager()
 {
 }
 
-LIBCOPP_COPP_API promise_caller_manager::~promise_caller_manager() {}
+LIBCOPP_COPP_API promise_caller_manager::~promise_caller_manager() {
+  for (resuming_callers *resuming = resuming_callers_; nullptr != resuming; resuming = resuming->previous) {
+    resuming->owner = nullptr;
+  }
+}
 
 LIBCOPP_COPP_API void promise_caller_manager::add_caller(handle_delegate delegate) noexcept {
   if (!delegate.handle || delegate.handle.done()) {
@@ -89,6 +123,12 @@ LIBCOPP_COPP_API bool promise_caller_manager::remove_caller(handle_delegate dele
 #  endif
   } while (false);
 
+  for (resuming_callers *resuming = resuming_callers_; nullptr != resuming; resuming = resuming->previous) {
+    if (resuming->callers.erase(delegate) > 0) {
+      has_caller = true;
+    }
+  }
+
   return has_caller;
 }
 
@@ -104,22 +144,17 @@ LIBCOPP_COPP_API size_t promise_caller_manager::resume_callers() {
       ++resume_count;
     }
   } else if (std::holds_alternative<multi_caller_set>(callers_)) {
-    multi_caller_set callers;
-    callers.swap(std::get<multi_caller_set>(callers_));
-    for (auto &caller : callers) {
-      if (caller.handle && !caller.handle.done() &&
-          (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
-        type_erased_handle_type handle = caller.handle;
-        handle.resume();
-        ++resume_count;
-      }
-    }
+    resuming_callers resuming{this};
+    resuming.callers.swap(std::get<multi_caller_set>(callers_));
+    resuming.resume_all(resume_count);
   }
 #  else
   auto unique_caller = unique_caller_;
   unique_caller_ = nullptr;
-  std::unique_ptr<multi_caller_set> multiple_callers;
-  multiple_callers.swap(multiple_callers_);
+  resuming_callers resuming{this};
+  if (multiple_callers_) {
+    resuming.callers.swap(*multiple_callers_);
+  }
 
   // The promise object may be destroyed after first caller.resume()
   if (unique_caller.handle && !unique_caller.handle.done() &&
@@ -128,16 +163,7 @@ LIBCOPP_COPP_API size_t promise_caller_manager::resume_callers() {
     ++resume_count;
   }
 
-  if (multiple_callers) {
-    for (auto &caller : *multiple_callers) {
-      if (caller.handle && !caller.handle.done() &&
-          (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
-        type_erased_handle_type handle = caller.handle;
-        handle.resume();
-        ++resume_count;
-      }
-    }
-  }
+  resuming.resume_all(resume_count);
 #  endif
   return resume_count;
 }
-- 
2.43.0


From 8340afdad46800833dbf16a2aa5fc2deed458610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 19/37] fix: awaiting a generator or a task must not move the
 shared value out

---
 include/libcopp/coroutine/generator_promise.h | 13 ++-----------
 include/libcotask/task_promise.h              | 14 ++------------
 2 files changed, 4 insertions(+), 23 deletions(-)

diff --git a/include/libcopp/coroutine/generator_promise.h b/include/libcopp/coroutine/generator_promise.h
index 75db8e8..0849457 100644
--- a/include/libcopp/coroutine/generator_promise.h
+++ b/include/libcopp/coroutine/generator_promise.h
@@ -441,12 +441,6 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_awaitable<TCONTEXT, false> : public g
       : base_type(context, vtable) {}
 
   inline value_type await_resume() {
-    bool has_multiple_callers;
-    COPP_LIKELY_IF (nullptr != get_context()) {
-      has_multiple_callers = get_context()->has_multiple_callers();
-    } else {
-      has_multiple_callers = false;
-    }
     promise_status result_status = detach();
 
     if (promise_status::kDone != result_status) {
@@ -454,11 +448,8 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_awaitable<TCONTEXT, false> : public g
     }
 
     COPP_LIKELY_IF (nullptr != get_context()) {
-      if (has_multiple_callers) {
-        return *get_context()->data();
-      } else {
-        return multiple_callers_constructor<value_type>::return_value(*get_context()->data());
-      }
+      // The value is shared with all other holders and callers, never move it out
+      return *get_context()->data();
     } else {
       return error_transform()(promise_status::kInvalid);
     }
diff --git a/include/libcotask/task_promise.h b/include/libcotask/task_promise.h
index c407ca4..42fc1f3 100644
--- a/include/libcotask/task_promise.h
+++ b/include/libcotask/task_promise.h
@@ -717,12 +717,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_awaitable<TCONTEXT, false> : public task
   task_awaitable(context_type* context) : base_type(context) {}
 
   inline value_type await_resume() {
-    bool has_multiple_callers;
-    COPP_LIKELY_IF (nullptr != get_context()) {
-      has_multiple_callers = get_context()->has_multiple_callers();
-    } else {
-      has_multiple_callers = false;
-    }
     task_status_type result_status = detach();
 
     if (task_status_type::kDone != result_status) {
@@ -730,12 +724,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_awaitable<TCONTEXT, false> : public task
     }
 
     COPP_LIKELY_IF (nullptr != get_context()) {
-      if (has_multiple_callers) {
-        return *get_context()->data();
-      } else {
-        return LIBCOPP_COPP_NAMESPACE_ID::multiple_callers_constructor<value_type>::return_value(
-            *get_context()->data());
-      }
+      // The value is shared with all other holders and callers, never move it out
+      return *get_context()->data();
     } else {
       return error_transform()(task_status_type::kInvalid);
     }
-- 
2.43.0


From 683232cf60ecebdfbe1b97ce1c21278b4f39dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 20/37] fix: some()/all() finished too early when some futures
 were ready before waiting

---
 include/libcopp/coroutine/callable_promise.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 7685bc8..0216992 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -629,8 +629,8 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
       co_return promise_status::kDone;
     }
 
-    if (ready_count >= context.pending.size() + ready_futures.size()) {
-      ready_count = context.pending.size() + ready_futures.size();
+    if (ready_count >= context.pending.size() + context.ready.size()) {
+      ready_count = context.pending.size() + context.ready.size();
     }
     context.ready_bound = ready_count;
     context.scan_bound = context.ready.size();
-- 
2.43.0


From c590c2e3211266aa9bd831e24d34fac81dce8831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 21/37] fix: some()/any()/all() with futures which become ready
 while suspending

---
 include/libcopp/coroutine/callable_promise.h | 47 +++++++++++++++++---
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 0216992..649a561 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -470,6 +470,15 @@ struct LIBCOPP_COPP_API_HEAD_ONLY some_delegate_context {
   size_t scan_bound = 0;
   promise_status status = promise_status::kCreated;
   promise_caller_manager::handle_delegate caller_handle = promise_caller_manager::handle_delegate(nullptr);
+
+  // Set to true when this context is destroyed while suspending futures
+  bool* destroyed = nullptr;
+
+  ~some_delegate_context() {
+    if (nullptr != destroyed) {
+      *destroyed = true;
+    }
+  }
 };
 
 template <class TFUTURE, class TDELEGATE_ACTION>
@@ -550,11 +559,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
       // set caller for all futures
       if (!context_->caller_handle) {
         context_->caller_handle = caller;
-        // Copy pending here, the callback may call resume and will change the pending list
-        std::list<future_type*> copy_pending = context_->pending;
-        for (auto& pending_future : copy_pending) {
-          delegate_action_type::suspend_future(context_->caller_handle, *pending_future);
-        }
+        suspend_pending(*context_);
       }
 
       return true;
@@ -585,6 +590,38 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
       }
     }
 
+   private:
+    // The suspend callback of any future may set values and resume the caller, and then this awaitable and the context
+    // may be destroyed.
+    static void suspend_pending(context_type& context) {
+      bool destroyed = false;
+      context.destroyed = &destroyed;
+      promise_caller_manager::handle_delegate caller = context.caller_handle;
+
+      // Copy pending here, the callback may call resume and will change the pending list
+      std::list<future_type*> copy_pending = context.pending;
+      bool missed = false;
+      for (auto& pending_future : copy_pending) {
+        if (!delegate_action_type::is_pending(*pending_future)) {
+          // It's ready before we wait for it, so it will not resume us.
+          missed = true;
+          continue;
+        }
+
+        delegate_action_type::suspend_future(caller, *pending_future);
+        if (destroyed) {
+          return;
+        }
+      }
+
+      context.destroyed = nullptr;
+      if (missed) {
+        // Force to scan
+        context.scan_bound = context.ready_bound;
+        caller.handle.resume();
+      }
+    }
+
    private:
     context_type* context_;
   };
-- 
2.43.0


From 91f3459500094bd79316a3281b40c16d7d3bde64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 22/37] fix: awaiting a task which was killed before running
 must report its real status

---
 include/libcotask/task_promise.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/libcotask/task_promise.h b/include/libcotask/task_promise.h
index 42fc1f3..74e5d2c 100644
--- a/include/libcotask/task_promise.h
+++ b/include/libcotask/task_promise.h
@@ -636,7 +636,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_awaitable_base : public LIBCOPP_COPP_NAM
     } else if (context_->is_ready()) {
       result_status = task_status_type::kDone;
     } else {
-      result_status = task_status_type::kKilled;
+      result_status = context_->get_status();
+      // Already killed, canceled or timeout but not returned
+      if (result_status <= task_status_type::kDone) {
+        result_status = task_status_type::kKilled;
+      }
     }
 
     // caller maybe null if the callable is already ready when co_await
-- 
2.43.0


From 1a706b410b1c23998f8a5b6e061ecf137f4ca087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 23/37] fix: task_future::kill() used the context after a
 resumed waiter had dropped the future

---
 include/libcotask/task_promise.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/libcotask/task_promise.h b/include/libcotask/task_promise.h
index 74e5d2c..71537c7 100644
--- a/include/libcotask/task_promise.h
+++ b/include/libcotask/task_promise.h
@@ -968,7 +968,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_future_base {
       return false;
     }
 
-    COPP_UNLIKELY_IF (!context_) {
+    // This future may be reset by any waiter when resuming the task, keep the context until the lock is released
+    context_pointer_type context = context_;
+    COPP_UNLIKELY_IF (!context) {
       return false;
     }
 
@@ -978,19 +980,19 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_future_base {
             LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock>,
         LIBCOPP_COPP_NAMESPACE_ID::util::lock::detail::default_try_unlock_action<
             LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock>>
-        lock_holder{context_->internal_operation_lock_};
+        lock_holder{context->internal_operation_lock_};
 
     if (!lock_holder.is_available()) {
       return false;
     }
 
-    auto& handle = context_->get_handle_delegate().handle;
+    auto& handle = context->get_handle_delegate().handle;
     COPP_UNLIKELY_IF (!handle) {
       return false;
     }
 
     bool ret = true;
-    while (context_) {
+    while (true) {
       COPP_UNLIKELY_IF (!handle) {
         ret = false;
         break;
@@ -1001,13 +1003,13 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_future_base {
         break;
       }
 
-      task_status_type current_status = get_status();
+      task_status_type current_status = context->get_status();
       if (current_status >= task_status_type::kDone) {
         ret = false;
         break;
       }
 
-      auto promise = context_->get_handle_delegate().promise;
+      auto promise = context->get_handle_delegate().promise;
       COPP_UNLIKELY_IF (nullptr == promise) {
         return false;
       }
-- 
2.43.0


From 0f050a69b71c047ac1b4c268f053a591a6dbee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 24/37] fix: task_manager::remove_task() must return 0 when the
 removed task was killed

---
 include/libcotask/task_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 77cdcca..f2bc210 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -1150,7 +1150,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
       task_status_type task_status = task_inst.get_status();
       if (task_status > task_status_type::kCreated && task_status < task_status_type::kDone) {
-        return task_inst.kill(task_status_type::kKilled);
+        task_inst.kill(task_status_type::kKilled);
       }
     }
 
-- 
2.43.0


From a8920783f57d4b96fa909b1a49ca4826c3acdab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 25/37] fix: reset() and tick() of task_manager left exiting
 tasks bound to the manager

---
 include/libcotask/task_manager.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index f2bc210..6523a1b 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -966,13 +966,16 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
     // then, kill all tasks
     for (typename std::vector<task_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
-      if (!(*iter).is_exiting()) {
 #  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      // A task may be already exiting but not finished, it should not refer to this manager any more
+      if ((*iter).get_context()) {
         using task_manager_helper = typename task_type::task_manager_helper;
         // already cleanup, there is no need to cleanup again
         task_manager_helper::cleanup_task_manager(*(*iter).get_context(), reinterpret_cast<void *>(this));
+      }
 #  endif
 
+      if (!(*iter).is_exiting()) {
         (*iter).kill(task_status_type::kKilled);
       }
     }
@@ -1384,13 +1387,17 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
         }
       }
 
-      // task call can not be used when lock is on
-      if (!task_inst.is_exiting()) {
 #  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      // A task may be already exiting but not finished, it should not refer to this manager any more
+      if (task_inst.get_context()) {
         using task_manager_helper = typename task_type::task_manager_helper;
         // already cleanup, there is no need to cleanup again
         task_manager_helper::cleanup_task_manager(*task_inst.get_context(), reinterpret_cast<void *>(this));
+      }
 #  endif
+
+      // task call can not be used when lock is on
+      if (!task_inst.is_exiting()) {
         task_inst.kill(task_status_type::kTimeout);
       }
     }
-- 
2.43.0


From 0f6b12f82081b4b16bf3da71fa8c66395f08f1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 26/37] fix: a yielding coroutine could be resumed by another
 thread before its context was saved

---
 src/libcopp/coroutine/coroutine_context.cpp | 28 ++++++++++-----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/libcopp/coroutine/coroutine_context.cpp b/src/libcopp/coroutine/coroutine_context.cpp
index 2236adc..12c0cd8 100755
--- a/src/libcopp/coroutine/coroutine_context.cpp
+++ b/src/libcopp/coroutine/coroutine_context.cpp
@@ -356,10 +356,6 @@ LIBCOPP_COPP_API int coroutine_context::start(std::exception_ptr &unhandled, voi
 #else
 LIBCOPP_COPP_API int coroutine_context::start(void *priv_data) {
 #endif
-  if (nullptr == callee_) {
-    return COPP_EC_NOT_INITED;
-  }
-
 #if defined(LIBCOPP_MACRO_ENABLE_WIN_FIBER) && LIBCOPP_MACRO_ENABLE_WIN_FIBER
   {
     coroutine_context_base *this_ctx = detail::get_this_coroutine_context();
@@ -392,6 +388,12 @@ LIBCOPP_COPP_API int coroutine_context::start(void *priv_data) {
     }
   } while (true);
 
+  // only the thread which owns the running status can access callee_
+  if (nullptr == callee_) {
+    status_.store(status_type::EN_CRS_READY, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
+    return COPP_EC_NOT_INITED;
+  }
+
   jump_src_data_t jump_data;
 #if defined(LIBCOPP_MACRO_ENABLE_WIN_FIBER) && LIBCOPP_MACRO_ENABLE_WIN_FIBER
   jump_data.from_co = LIBCOPP_COPP_NAMESPACE_ID::this_coroutine::get_coroutine();
@@ -407,10 +409,10 @@ LIBCOPP_COPP_API int coroutine_context::start(void *priv_data) {
   jump_to(callee_, callee_stack_, callee_stack_, jump_data);
 #endif
 
-  // Move changing status to EN_CRS_EXITED is finished
+  int to_status = status_type::EN_CRS_READY;
   if (check_flags(flag_type::EN_CFT_FINISHED)) {
     // if in finished status, change it to exited
-    status_.store(status_type::EN_CRS_EXITED, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
+    to_status = status_type::EN_CRS_EXITED;
   }
 
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
@@ -419,6 +421,9 @@ LIBCOPP_COPP_API int coroutine_context::start(void *priv_data) {
   }
 #endif
 
+  // the fcontext of callee is already saved, so other threads can start it or destroy it from now on
+  status_.store(to_status, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
+
   return COPP_EC_SUCCESS;
 }
 
@@ -434,14 +439,9 @@ LIBCOPP_COPP_API int coroutine_context::yield(void **priv_data) LIBCOPP_MACRO_NO
     return COPP_EC_NOT_INITED;
   }
 
-  int from_status = status_type::EN_CRS_RUNNING;
-  int to_status = status_type::EN_CRS_READY;
-  if (check_flags(flag_type::EN_CFT_FINISHED)) {
-    to_status = status_type::EN_CRS_FINISHED;
-  }
-  if (false == status_.compare_exchange_strong(from_status, to_status,
-                                               LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acq_rel,
-                                               LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acquire)) {
+  // The status is still running until the caller gets control and fcontext is saved(@see start)
+  int from_status = status_.load(LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acquire);
+  if (status_type::EN_CRS_RUNNING != from_status) {
     switch (from_status) {
       case status_type::EN_CRS_INVALID:
         return COPP_EC_NOT_INITED;
-- 
2.43.0


From cfe12256681d38e8894a4f895558e97a0525bc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 27/37] fix: stack_pool::gc() read the counters without holding
 the pool lock

---
 include/libcopp/stack/stack_pool.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/libcopp/stack/stack_pool.h b/include/libcopp/stack/stack_pool.h
index d5e247d..de8cb36 100755
--- a/include/libcopp/stack/stack_pool.h
+++ b/include/libcopp/stack/stack_pool.h
@@ -225,6 +225,11 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
   }
 
   size_t gc() {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+        action_lock_);
+#endif
+
     size_t ret = 0;
     // gc only if free stacks is greater than used
     if (limits_.used_stack_size >= limits_.free_stack_size && limits_.used_stack_number >= limits_.free_stack_number) {
@@ -242,11 +247,6 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
       }
     }
 
-#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
-    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
-        action_lock_);
-#endif
-
     size_t keep_size = limits_.free_stack_size >> 1;
     size_t keep_number = limits_.free_stack_number >> 1;
     size_t left_gc = conf_.gc_number;
-- 
2.43.0


From 80e8038a5cf02345845996afd594dc8ecb8630c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 28/37] fix: the data of task::kill() raced with the thread
 running the task

---
 include/libcotask/task.h | 49 ++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index e9e0e77..84d36fc 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -504,7 +504,14 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
         }
       }
 
-      finish_priv_data_ = priv_data;
+      {
+        // kill() in another thread may be saving its private data
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+        LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+            inner_action_lock_);
+#endif
+        finish_priv_data_ = priv_data;
+      }
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
       _notify_finished(unhandled, priv_data);
 #else
@@ -515,10 +522,19 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 
     while (true) {
       if (from_status >= EN_TS_DONE) {  // canceled or killed
+        void *finish_priv_data;
+        {
+          // kill() in another thread may be saving its private data
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+          LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+              inner_action_lock_);
+#endif
+          finish_priv_data = finish_priv_data_;
+        }
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
-        _notify_finished(unhandled, finish_priv_data_);
+        _notify_finished(unhandled, finish_priv_data);
 #else
-        _notify_finished(finish_priv_data_);
+        _notify_finished(finish_priv_data);
 #endif
         break;
       }
@@ -607,15 +623,26 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 #endif
     EN_TASK_STATUS from_status = get_status();
 
-    do {
-      COPP_UNLIKELY_IF (from_status >= EN_TS_DONE) {
-        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
-      }
+    {
+      // the runner must see both the new status and the private data
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+          inner_action_lock_);
+#endif
+      do {
+        COPP_UNLIKELY_IF (from_status >= EN_TS_DONE) {
+          return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+        }
 
-      COPP_LIKELY_IF (_cas_status(from_status, status)) {
-        break;
+        COPP_LIKELY_IF (_cas_status(from_status, status)) {
+          break;
+        }
+      } while (true);
+
+      if (EN_TS_RUNNING == from_status) {
+        finish_priv_data_ = priv_data;
       }
-    } while (true);
+    }
 
     if (EN_TS_RUNNING != from_status) {
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
@@ -623,8 +650,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 #else
       _notify_finished(priv_data);
 #endif
-    } else {
-      finish_priv_data_ = priv_data;
     }
 
     return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
-- 
2.43.0


From 4f85b2427474019354a47c2c9215f4afdf0f5edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 29/37] fix: task::next() lost a follower attached while the
 task was ending

---
 include/libcotask/task.h | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 84d36fc..b8d445a 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -236,24 +236,26 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       return ptr_type(this);
     }
 
-    // can not add next task when finished
-    if (is_exiting() || is_completed()) {
-      // run next task immedialy
-      EN_TASK_STATUS next_task_status = next_task->get_status();
-      if (EN_TS_CREATED == next_task_status) {
-        next_task->start(priv_data);
-      } else if (EN_TS_WAITING == next_task_status) {
-        next_task->resume(priv_data);
-      }
-      return next_task;
-    }
-
+    {
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
-    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
-        inner_action_lock_);
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+          inner_action_lock_);
 #endif
 
-    next_list_.member_list_.push_back(std::make_pair(next_task, priv_data));
+      // can not add next task when finished, check it with lock because next tasks will only be activated once
+      if (!is_exiting() && !is_completed()) {
+        next_list_.member_list_.push_back(std::make_pair(next_task, priv_data));
+        return next_task;
+      }
+    }
+
+    // run next task immedialy
+    EN_TASK_STATUS next_task_status = next_task->get_status();
+    if (EN_TS_CREATED == next_task_status) {
+      next_task->start(priv_data);
+    } else if (EN_TS_WAITING == next_task_status) {
+      next_task->resume(priv_data);
+    }
     return next_task;
   }
 
-- 
2.43.0


From 4c2170adfa1c1bb5b1a41669de98c1cb4422253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:14 +0000
Subject: [PATCH 30/37] fix: task_manager::tick() and the flags of the managers
 raced with other threads

---
 include/libcotask/task_manager.h | 103 ++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 35 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 6523a1b..2f26d1a 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -193,19 +193,19 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
  private:
   struct flag_guard_type {
-    int *data_;
+    LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<int> *data_;
     typename flag_type::type flag_;
-    inline flag_guard_type(int *flags, typename flag_type::type v) : data_(flags), flag_(v) {
-      if (nullptr == data_ || (*data_ & flag_)) {
+    inline flag_guard_type(LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<int> *flags,
+                           typename flag_type::type v)
+        : data_(flags), flag_(v) {
+      if (nullptr == data_ || (data_->fetch_or(flag_) & flag_)) {
         flag_ = flag_type::EN_TM_NONE;
         data_ = nullptr;
-      } else {
-        (*data_) |= flag_;
       }
     }
     inline ~flag_guard_type() {
       if (*this) {
-        (*data_) &= ~flag_;
+        data_->fetch_and(~flag_);
       }
     }
 
@@ -687,11 +687,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
    */
   int tick(time_t sec, int nsec = 0) {
     detail::tickspec_t now_tick_time;
-    // time can not be back
-    if (sec < last_tick_time_.tv_sec || (sec == last_tick_time_.tv_sec && nsec <= last_tick_time_.tv_nsec)) {
-      return 0;
-    }
-
     now_tick_time.tv_sec = sec;
     now_tick_time.tv_nsec = nsec;
 
@@ -701,12 +696,27 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
     }
 
+    bool is_first_tick;
+    {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
+          action_lock_};
+#endif
+
+      // time can not be back
+      if (sec < last_tick_time_.tv_sec || (sec == last_tick_time_.tv_sec && nsec <= last_tick_time_.tv_nsec)) {
+        return 0;
+      }
+
+      is_first_tick = !has_ticked();
+    }
+
     if (flags_ & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
     // first tick, init and reset task timeout
-    if (!has_ticked()) {
+    if (is_first_tick) {
       // hold lock
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
       LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
@@ -741,7 +751,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #endif
     // remove timeout tasks
     // (a task which is killed here may call reset(), the rest of this tick is dropped then)
-    while (false == task_timeout_timer_.empty() && has_ticked()) {
+    while (true) {
       task_ptr_type task_inst;
 
       {
@@ -751,10 +761,20 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
             action_lock_};
 #endif
 
+        if (!has_ticked()) {
+          break;
+        }
+
+        if (task_timeout_timer_.empty()) {
+          last_tick_time_ = now_tick_time;
+          break;
+        }
+
         const typename std::set<detail::task_timer_node<id_type>>::value_type &timer_node =
             *task_timeout_timer_.begin();
         // all tasks those expired time less than now are timeout
         if (now_tick_time <= timer_node.expired_time) {
+          last_tick_time_ = now_tick_time;
           break;
         }
 
@@ -789,10 +809,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       }
     }
 
-    if (has_ticked()) {
-      last_tick_time_ = now_tick_time;
-    }
-
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
     task_type::maybe_rethrow(eptrs);
 #endif
@@ -884,7 +900,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
   LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock action_lock_;
 #endif
-  int flags_;
+  LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<int> flags_;
 };
 
 #if defined(LIBCOPP_MACRO_ENABLE_STD_COROUTINE) && LIBCOPP_MACRO_ENABLE_STD_COROUTINE
@@ -909,19 +925,19 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
  private:
   struct flag_guard_type {
-    uint32_t *data_;
+    LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<uint32_t> *data_;
     flag_type flag_;
-    inline flag_guard_type(uint32_t *flags, flag_type v) : data_(flags), flag_(v) {
-      if (nullptr == data_ || (*data_ & static_cast<uint32_t>(flag_))) {
+    inline flag_guard_type(LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<uint32_t> *flags, flag_type v)
+        : data_(flags), flag_(v) {
+      if (nullptr == data_ ||
+          (data_->fetch_or(static_cast<uint32_t>(flag_)) & static_cast<uint32_t>(flag_))) {
         flag_ = flag_type::kNone;
         data_ = nullptr;
-      } else {
-        (*data_) |= static_cast<uint32_t>(flag_);
       }
     }
     inline ~flag_guard_type() {
       if (*this) {
-        (*data_) &= ~static_cast<uint32_t>(flag_);
+        data_->fetch_and(~static_cast<uint32_t>(flag_));
       }
     }
 
@@ -1305,11 +1321,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
    */
   int tick(time_t sec, int nsec = 0) {
     detail::tickspec_t now_tick_time;
-    // time can not be back
-    if (sec < last_tick_time_.tv_sec || (sec == last_tick_time_.tv_sec && nsec <= last_tick_time_.tv_nsec)) {
-      return 0;
-    }
-
     now_tick_time.tv_sec = sec;
     now_tick_time.tv_nsec = nsec;
 
@@ -1319,12 +1330,27 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
     }
 
+    bool is_first_tick;
+    {
+#  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
+          action_lock_};
+#  endif
+
+      // time can not be back
+      if (sec < last_tick_time_.tv_sec || (sec == last_tick_time_.tv_sec && nsec <= last_tick_time_.tv_nsec)) {
+        return 0;
+      }
+
+      is_first_tick = !has_ticked();
+    }
+
     if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
     // first tick, init and reset task timeout
-    if (!has_ticked()) {
+    if (is_first_tick) {
       // hold lock
 #  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
       LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
@@ -1356,7 +1382,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
     // remove timeout tasks
     // (a task which is killed here may call reset(), the rest of this tick is dropped then)
-    while (false == task_timeout_timer_.empty() && has_ticked()) {
+    while (true) {
       task_type task_inst;
 
       {
@@ -1366,10 +1392,20 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
             action_lock_};
 #  endif
 
+        if (!has_ticked()) {
+          break;
+        }
+
+        if (task_timeout_timer_.empty()) {
+          last_tick_time_ = now_tick_time;
+          break;
+        }
+
         const typename std::set<detail::task_timer_node<id_type>>::value_type &timer_node =
             *task_timeout_timer_.begin();
         // all tasks those expired time less than now are timeout
         if (now_tick_time <= timer_node.expired_time) {
+          last_tick_time_ = now_tick_time;
           break;
         }
 
@@ -1402,9 +1438,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       }
     }
 
-    if (has_ticked()) {
-      last_tick_time_ = now_tick_time;
-    }
     return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
   }
 
@@ -1493,7 +1526,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 #  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
   LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock action_lock_;
 #  endif
-  uint32_t flags_;
+  LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<uint32_t> flags_;
 };
 #endif
 
-- 
2.43.0


From c448c214123d7128e82b7b61cc6a474112683eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:14 +0000
Subject: [PATCH 31/37] fix: task_manager::add_task() kept a task which another
 thread ended meanwhile

---
 include/libcotask/task_manager.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 2f26d1a..997a8da 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -332,6 +332,14 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_EXTERNAL_INSERT_FAILED;
     }
 
+#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+    // the task may be finished by another thread before it is bound to this manager, and it will never notify us then
+    if (task->is_exiting() && task_manager_helper::cleanup_task_manager(*task, reinterpret_cast<void *>(this))) {
+      tasks_.erase(res.first);
+      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_IS_EXITING;
+    }
+#endif
+
     // add timeout controller
     set_timeout_timer(res.first->second, timeout_sec, timeout_nsec);
     return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
-- 
2.43.0


From c05e6badaa2a098307079de7d2776626898a4104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:55 +0000
Subject: [PATCH 32/37] fix: a task which awaits a task ended by another thread
 could miss its wake-up

---
 include/libcotask/task.h | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index b8d445a..0306e90 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -71,7 +71,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
    */
   task(size_t stack_sz)
       : stack_size_(stack_sz),
-        action_destroy_fn_(nullptr)
+        action_destroy_fn_(nullptr),
+        awaiting_task_(0)
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
         ,
         binding_manager_ptr_(nullptr),
@@ -349,20 +350,26 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_NOT_IN_ACTION;
     }
 
+    // the target may be finished by another thread before this task is suspended, it must not miss this task then
+    awaiting_task_.store(reinterpret_cast<uintptr_t>(wait_task.get()));
+
     // add to next list failed
     if (wait_task->next(ptr_type(this)).get() != this) {
+      awaiting_task_.store(0);
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_ADD_NEXT_FAILED;
     }
 
     int ret = 0;
     while (!(wait_task->is_exiting() || wait_task->is_completed())) {
       if (is_exiting()) {
-        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_IS_EXITING;
+        ret = LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_IS_EXITING;
+        break;
       }
 
       ret = yield();
     }
 
+    awaiting_task_.store(0);
     return ret;
   }
 
@@ -740,13 +747,21 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       if (iter->first->get_status() < EN_TS_RUNNING) {
         iter->first->start(unhandled, iter->second);
       } else {
-        iter->first->resume(unhandled, iter->second);
+        // the task which is going to wait for this one will be suspended soon
+        while (LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IS_RUNNING == iter->first->resume(unhandled, iter->second) &&
+               reinterpret_cast<uintptr_t>(this) == iter->first->awaiting_task_.load()) {
+          __LIBCOPP_UTIL_LOCK_SPIN_LOCK_CPU_YIELD();
+        }
       }
 #else
       if (iter->first->get_status() < EN_TS_RUNNING) {
         iter->first->start(iter->second);
       } else {
-        iter->first->resume(iter->second);
+        // the task which is going to wait for this one will be suspended soon
+        while (LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IS_RUNNING == iter->first->resume(iter->second) &&
+               reinterpret_cast<uintptr_t>(this) == iter->first->awaiting_task_.load()) {
+          __LIBCOPP_UTIL_LOCK_SPIN_LOCK_CPU_YIELD();
+        }
       }
 #endif
     }
@@ -981,9 +996,14 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
   void (*action_destroy_fn_)(void *);
 
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+  LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<uintptr_t>
+      awaiting_task_; /** the task which this one is waiting for **/
   LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<size_t> ref_count_; /** ref_count **/
   LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock inner_action_lock_;
 #else
+  LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::unsafe_int_type<uintptr_t> >
+      awaiting_task_; /** the task which this one is waiting for **/
   LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<
       LIBCOPP_COPP_NAMESPACE_ID::util::lock::unsafe_int_type<size_t> >
       ref_count_; /** ref_count **/
-- 
2.43.0


From c4dfad316b9445f2856683a1a94d3209536e477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:55 +0000
Subject: [PATCH 33/37] fix: compare-exchange of a volatile unsynchronised
 integer did not compile

---
 include/libcopp/utils/atomic_int_type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcopp/utils/atomic_int_type.h b/include/libcopp/utils/atomic_int_type.h
index fadce5c..be260a8 100755
--- a/include/libcopp/utils/atomic_int_type.h
+++ b/include/libcopp/utils/atomic_int_type.h
@@ -758,7 +758,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY atomic_int_type<unsafe_int_type<Ty> > {
   }
 
  private:
-  inline bool cas(value_type &expected, value_type desired) LIBCOPP_MACRO_NOEXCEPT {
+  inline bool cas(value_type &expected, value_type desired) volatile LIBCOPP_MACRO_NOEXCEPT {
     COPP_LIKELY_IF (data_ == expected) {
       data_ = desired;
       return true;
-- 
2.43.0


From f1c3d4cde54cb0eadafba449c3cce6ee677d77ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:59 +0000
Subject: [PATCH 34/37] fix: the suspend callback of a generator could be
 destroyed while it runs

---
 include/libcopp/coroutine/generator_promise.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/libcopp/coroutine/generator_promise.h b/include/libcopp/coroutine/generator_promise.h
index 0849457..cbbf5fc 100644
--- a/include/libcopp/coroutine/generator_promise.h
+++ b/include/libcopp/coroutine/generator_promise.h
@@ -329,9 +329,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_awaitable_base : public awaitable_bas
       // Allow kill resume to forward error information
       caller.promise().set_flag(promise_flag::kInternalWaitting, true);
 
-      // Custom event. awaitable object may be deleted after this call
-      if (vtable_ && vtable_->get_await_suspend_callback()) {
-        vtable_->get_await_suspend_callback()(context_->shared_from_this());
+      // Custom event. awaitable object may be deleted after this call, but the callback must live until it returns
+      copp::util::intrusive_ptr<vtable_type> vtable = vtable_;
+      if (vtable && vtable->get_await_suspend_callback()) {
+        vtable->get_await_suspend_callback()(context_->shared_from_this());
       }
 
       return true;
-- 
2.43.0


From d8cdb366f02625ae7ba5ceaa2474d962662ed19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:43 +0000
Subject: [PATCH 35/37] fix: assigning a task future from one owned by the task
 it releases was a use after free

---
 include/libcotask/task_promise.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/libcotask/task_promise.h b/include/libcotask/task_promise.h
index 71537c7..93f28b6 100644
--- a/include/libcotask/task_promise.h
+++ b/include/libcotask/task_promise.h
@@ -798,12 +798,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_future_base {
       return;
     }
 
-    reset();
-
-    COPP_LIKELY_IF (other.context_) {
-      ++other.context_->future_counter_;
-    }
-    context_ = other.context_;
+    // other may be owned by the task which is going to be released
+    task_future_base old{other};
+    context_.swap(old.context_);
   }
 
   void assign(task_future_base&& other) noexcept {
@@ -811,10 +808,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_future_base {
       return;
     }
 
-    reset();
-    context_.swap(other.context_);
-
-    return;
+    // other may be owned by the task which is going to be released
+    task_future_base old{std::move(other)};
+    context_.swap(old.context_);
   }
 
   void reset() {
-- 
2.43.0


From b6cabbb525c065427a1d5d7bbb30694bda025743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:25 +0000
Subject: [PATCH 36/37] fix: task: an action which asks for extended alignment
 was constructed misaligned

---
 include/libcotask/task.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 0306e90..ee15c3a 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -99,7 +99,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       stack_size = LIBCOPP_COPP_NAMESPACE_ID::stack_traits::default_size();
     }
 
-    size_t action_size = coroutine_type::align_address_size(sizeof(a_t));
+    // the address of a coroutine is only aligned to 16 bytes, reserve more space to align the action if it's necessary
+    constexpr const size_t action_align = alignof(a_t) > 16 ? alignof(a_t) : 1;
+    size_t action_size = coroutine_type::align_address_size(sizeof(a_t) + action_align - 1);
     size_t task_size = coroutine_type::align_address_size(sizeof(self_type));
 
     // private_buffer_size may be any value, do not let the sum wrap
@@ -117,6 +119,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 
     void *action_addr = sub_buffer_offset(coroutine.get(), action_size);
     void *task_addr = sub_buffer_offset(action_addr, task_size);
+    action_addr = reinterpret_cast<void *>((reinterpret_cast<uintptr_t>(action_addr) + action_align - 1) &
+                                           ~static_cast<uintptr_t>(action_align - 1));
 
     // placement new task
     ptr_type ret(new (task_addr) self_type(stack_size));
-- 
2.43.0


From 34aec5133f8b5017fd61468ccbb2ced178a7e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:38 +0000
Subject: [PATCH 37/37] fix: creating a coroutine from a null runner pointer

The runner was wrapped without a check: the coroutine was created ready and
called through a null pointer when it started, instead of waiting for a runner
like a coroutine created without a function.
---
 include/libcopp/coroutine/coroutine_context.h           | 4 ++++
 include/libcopp/coroutine/coroutine_context_container.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/libcopp/coroutine/coroutine_context.h b/include/libcopp/coroutine/coroutine_context.h
index 3bd603c..fe2a745 100755
--- a/include/libcopp/coroutine/coroutine_context.h
+++ b/include/libcopp/coroutine/coroutine_context.h
@@ -92,6 +92,10 @@ class coroutine_context : public coroutine_context_base {
   static LIBCOPP_COPP_API_HEAD_ONLY int create(coroutine_context *p, TRunner *runner, const stack_context &callee_stack,
                                                size_t coroutine_size,
                                                size_t private_buffer_size) LIBCOPP_MACRO_NOEXCEPT {
+    if (nullptr == runner) {
+      return create(p, callback_type(), callee_stack, coroutine_size, private_buffer_size);
+    }
+
     return create(
         p, [runner](void *private_data) { return (*runner)(private_data); }, callee_stack, coroutine_size,
         private_buffer_size);
diff --git a/include/libcopp/coroutine/coroutine_context_container.h b/include/libcopp/coroutine/coroutine_context_container.h
index 81ba140..3c80675 100755
--- a/include/libcopp/coroutine/coroutine_context_container.h
+++ b/include/libcopp/coroutine/coroutine_context_container.h
@@ -155,6 +155,10 @@ class coroutine_context_container : public coroutine_context {
   template <class TRunner>
   static inline ptr_type create(TRunner *runner, size_t stack_size = 0, size_t private_buffer_size = 0,
                                 size_t coroutine_size = 0) LIBCOPP_MACRO_NOEXCEPT {
+    if (nullptr == runner) {
+      return create(callback_type(), stack_size, private_buffer_size, coroutine_size);
+    }
+
     return create([runner](void *private_data) { return (*runner)(private_data); }, stack_size, private_buffer_size,
                   coroutine_size);
   }
-- 
2.43.0

