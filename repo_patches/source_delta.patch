From 2fd2b4bae52880fbb4216a292211aeb7003143cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 01/22] fix: fixed_array must remember the memory resource it
 was given

---
 include/kelcoro/noexport/fixed_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/noexport/fixed_array.hpp b/include/kelcoro/noexport/fixed_array.hpp
index 5641054..96b90b9 100644
--- a/include/kelcoro/noexport/fixed_array.hpp
+++ b/include/kelcoro/noexport/fixed_array.hpp
@@ -27,7 +27,8 @@ struct fixed_array {
     std::swap(resource, rhs.resource);
     return *this;
   }
-  fixed_array(size_t n, std::pmr::memory_resource& resource = *std::pmr::new_delete_resource()) : n(n) {
+  fixed_array(size_t n, std::pmr::memory_resource& resource = *std::pmr::new_delete_resource())
+      : n(n), resource(&resource) {
     if (n == 0)
       return;
     arr = (T*)resource.allocate(sizeof(T) * n, alignof(T));
-- 
2.43.0


From b42794f9154e81e5f81b352057124ed6f4472e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 02/22] fix: polymorphic_resource must use dd::pmr default
 resource, not std::pmr one

---
 include/kelcoro/memory_support.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/memory_support.hpp b/include/kelcoro/memory_support.hpp
index 7e2de52..9748b7b 100644
--- a/include/kelcoro/memory_support.hpp
+++ b/include/kelcoro/memory_support.hpp
@@ -126,7 +126,7 @@ struct polymorphic_resource {
  public:
   polymorphic_resource() noexcept : passed(std::exchange(passed_resource(), nullptr)) {
     if (!passed)
-      passed = std::pmr::get_default_resource();
+      passed = default_resource().load(std::memory_order_acquire);
     assert(passed != nullptr);
   }
   polymorphic_resource(std::pmr::memory_resource& m) noexcept : passed(&m) {
-- 
2.43.0


From f84070481448d9a665d3b059e4ff6def339070d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 03/22] fix: expected::error must return reference, not pointer

---
 include/kelcoro/noexport/expected.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/noexport/expected.hpp b/include/kelcoro/noexport/expected.hpp
index dd4410d..b972d9f 100644
--- a/include/kelcoro/noexport/expected.hpp
+++ b/include/kelcoro/noexport/expected.hpp
@@ -56,12 +56,12 @@ struct expected {
   // precondition: !has_value()
   E& error() noexcept {
     assert(!has_value());
-    return std::get_if<1>(&data);
+    return *std::get_if<1>(&data);
   }
   // precondition: !has_value()
   const E& error() const noexcept {
     assert(!has_value());
-    return std::get_if<1>(&data);
+    return *std::get_if<1>(&data);
   }
 };
 
-- 
2.43.0


From c291fde12ebc6812aa2076323c1b5bcbba696504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 04/22] fix: channel_iterator::equivalent and owner must use
 attached channel

---
 include/kelcoro/channel.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 0dcb699..06c0511 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -155,10 +155,10 @@ struct channel_iterator {
 
   // return true if they are attached to same 'channel' object
   constexpr bool equivalent(const channel_iterator& other) const noexcept {
-    return std::addressof(chan) == std::addressof(other.chan);
+    return chan == other.chan;
   }
   channel<Yield>& owner() const noexcept {
-    return chan;
+    return *chan;
   }
 
   constexpr bool operator==(std::default_sentinel_t) const noexcept {
-- 
2.43.0


From 81bac2edebb70883dfc632c25185390b757d22f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 05/22] fix: generator: iterator sees end after clear/release,
 reset attaches consumer to handle

---
 include/kelcoro/generator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index 4ae3185..cf03faa 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -304,11 +304,14 @@ struct generator : enable_resource_deduction {
   constexpr void reset(handle_type handle) noexcept {
     clear();
     top = handle;
+    if (top)
+      prepare_to_start();
   }
 
   // postcondition: .empty()
   // its caller responsibility to correctly destroy handle
   [[nodiscard]] constexpr handle_type release() noexcept {
+    current_result = nullptr;
     return std::exchange(top, nullptr);
   }
   [[nodiscard]] constexpr handle_type raw_handle() const noexcept {
@@ -320,6 +323,7 @@ struct generator : enable_resource_deduction {
     if (top) {
       top.destroy();
       top = nullptr;
+      current_result = nullptr;
     }
   }
   constexpr ~generator() {
-- 
2.43.0


From 3a02514c2d9c6a47be0d2817b0a8c19b462cdc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 06/22] fix: iterator of empty generator<nothing_t> must not
 use null handle

---
 include/kelcoro/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index cf03faa..4585fec 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -177,7 +177,7 @@ struct generator_iterator {
     if constexpr (!std::is_same_v<nothing_t, Yield>) {
       return self->current_result == nullptr;
     } else {
-      return self->top.done();
+      return self->empty();
     }
   }
   constexpr reference operator*() const noexcept {
-- 
2.43.0


From a2efbeea4b459a22085648ccb41da469ee85f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 07/22] fix: channel: next/iterator must see end after
 clear/release

---
 include/kelcoro/channel.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 06c0511..c09dc48 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -250,6 +250,7 @@ struct channel : enable_resource_deduction {
   // postcondition: .empty()
   // after this method its caller responsibility to correctly destroy 'handle'
   [[nodiscard]] constexpr handle_type release() noexcept {
+    current_result = nullptr;
     return std::exchange(top, nullptr);
   }
   [[nodiscard]] constexpr handle_type raw_handle() const noexcept {
@@ -261,6 +262,7 @@ struct channel : enable_resource_deduction {
     if (top) {
       top.destroy();
       top = nullptr;
+      current_result = nullptr;
     }
   }
   ~channel() {
-- 
2.43.0


From 2bb3b26c94ecb01f104fd8da6accf06ff6a09adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 08/22] fix: channel::swap must keep results going to the
 object which owns the body

---
 include/kelcoro/channel.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index c09dc48..adf6308 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -235,9 +235,13 @@ struct channel : enable_resource_deduction {
   // iterators to 'other' and 'this' are swapped too
   void swap(channel& other) noexcept {
     std::swap(current_result, other.current_result);
-    std::swap(handle, other.handle);
+    // 'handle' is not swapped: it is coroutine which uses this channel object
     std::swap(top, other.top);
     std::swap(exception, other.exception);
+    if (top)
+      top.promise()._consumer = this;
+    if (other.top)
+      other.top.promise()._consumer = &other;
   }
   friend void swap(channel& a, channel& b) noexcept {
     a.swap(b);
-- 
2.43.0


From 67557194f42f5d35758c26cfd68bf08c1d3d0d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 09/22] fix: stack_resource::reuse_memory must free memory in
 initial buffer too

---
 include/kelcoro/stack_memory_resource.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kelcoro/stack_memory_resource.hpp b/include/kelcoro/stack_memory_resource.hpp
index 37f23e3..3b4435b 100644
--- a/include/kelcoro/stack_memory_resource.hpp
+++ b/include/kelcoro/stack_memory_resource.hpp
@@ -179,6 +179,7 @@ struct stack_resource {
       m = b;
       drop_cur_chunk();
     }
+    m = b;
   }
 };
 
-- 
2.43.0


From 46a0656fe16b08728b0c7e53e99115d2e97d09dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 10/22] fix: latch awaiters must not be used after they are
 pushed

---
 include/kelcoro/latch.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/kelcoro/latch.hpp b/include/kelcoro/latch.hpp
index 8d5e25c..81a710d 100644
--- a/include/kelcoro/latch.hpp
+++ b/include/kelcoro/latch.hpp
@@ -22,11 +22,13 @@ struct latch {
       return l.ready();
     }
     void await_suspend(std::coroutine_handle<> handle) noexcept {
+      // awaiter may be destroyed after push
+      latch& latch_ = l;
       node.task = handle;
-      l.stack.push(&node);
+      latch_.stack.push(&node);
       // in case if 'ready' changed from 'false' to 'true' wakeup all who call 'wait'
-      if (l.ready())
-        l.wakeup_all();
+      if (latch_.ready())
+        latch_.wakeup_all();
     }
     static void await_resume() noexcept {
     }
@@ -47,9 +49,12 @@ struct latch {
       return false;
     }
     void await_suspend(std::coroutine_handle<> handle) noexcept {
+      // awaiter may be destroyed after push
+      latch& latch_ = l;
+      ptrdiff_t n_ = n;
       node.task = handle;
-      l.stack.push(&node);
-      l.count_down(n);
+      latch_.stack.push(&node);
+      latch_.count_down(n_);
     }
     static void await_resume() noexcept {
     }
-- 
2.43.0


From 183b116063f884748319ecfc7587fa9c51a967a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 11/22] fix: when_any for events must not use awaiter after
 first subscription

---
 include/kelcoro/events.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/events.hpp b/include/kelcoro/events.hpp
index 5691981..af396ab 100644
--- a/include/kelcoro/events.hpp
+++ b/include/kelcoro/events.hpp
@@ -205,8 +205,10 @@ KELCORO_CO_AWAIT_REQUIRED constexpr auto when_any(event<Inputs>&... events) {
           };
         }
       };
+      // awaiter may be destroyed after first 'set_callback'
+      auto events_copy = events_;
       [&]<size_t... Is>(std::index_sequence<Is...>) {
-        (std::get<Is>(events_).set_callback(
+        (std::get<Is>(events_copy).set_callback(
              create_cb_for(std::type_identity<Inputs>{}, std::integral_constant<size_t, Is>{})),
          ...);
       }  // INVOKED HERE
-- 
2.43.0


From eef868a5c7f5bb219cb542d918047a0db9d0458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 12/22] fix: thread_pool destructor must not push one node into
 several queues

---
 include/kelcoro/thread_pool.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/kelcoro/thread_pool.hpp b/include/kelcoro/thread_pool.hpp
index 859facb..2380f52 100644
--- a/include/kelcoro/thread_pool.hpp
+++ b/include/kelcoro/thread_pool.hpp
@@ -283,6 +283,9 @@ struct thread_pool {
       if (threads[i].joinable()) {
         queues[i].push(&pill);
         threads[i].join();
+        // 'pill' may be still in queue (if thread was stopped by 'request_stop'),
+        // it must not be in two queues at the same time
+        noexport::cancel_tasks(queues[i].pop_all());
       }
     }
     for (auto& q : queues)
-- 
2.43.0


From b0ff0a12af43b22bdb8dd2c501d011813dba5824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 13/22] fix: destroy_and_transfer_control_to must not be
 inlined into the frame it destroys

clang places the locals of an always_inline await_suspend into the coroutine
frame, so 'w' was read after self.destroy() freed it (when_all, when_any).
---
 include/kelcoro/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/common.hpp b/include/kelcoro/common.hpp
index db6b327..b9418e2 100644
--- a/include/kelcoro/common.hpp
+++ b/include/kelcoro/common.hpp
@@ -259,7 +259,7 @@ struct [[nodiscard("co_await it!")]] destroy_and_transfer_control_to {
   static bool await_ready() noexcept {
     return false;
   }
-  KELCORO_ASSUME_NOONE_SEES std::coroutine_handle<> await_suspend(std::coroutine_handle<> self) noexcept {
+  std::coroutine_handle<> await_suspend(std::coroutine_handle<> self) noexcept {
     // move it to stack memory to save from destruction
     auto w = who_waits;
     self.destroy();
-- 
2.43.0


From e1d340f24511e3d6a5b3af528fdff87f48a19399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 14/22] fix: async_task and stop_token do not compile in
 coroutines allocated with memory resource

---
 include/kelcoro/async_task.hpp     | 6 ++++--
 include/kelcoro/logical_thread.hpp | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/kelcoro/async_task.hpp b/include/kelcoro/async_task.hpp
index e5bccae..45458ed 100644
--- a/include/kelcoro/async_task.hpp
+++ b/include/kelcoro/async_task.hpp
@@ -33,8 +33,10 @@ struct async_task_promise : return_block<Result> {
     static bool await_ready() noexcept {
       return false;
     }
-    bool await_suspend(std::coroutine_handle<async_task_promise> handle) const noexcept {
-      auto& p = handle.promise();
+    // template because promise may be 'resourced_promise'
+    template <typename Promise>
+    bool await_suspend(std::coroutine_handle<Promise> handle) const noexcept {
+      async_task_promise& p = handle.promise();
       p.ready.exchange(true, std::memory_order::acq_rel);
       p.ready.notify_one();
       // continue and destroy if ref count == 0
diff --git a/include/kelcoro/logical_thread.hpp b/include/kelcoro/logical_thread.hpp
index 7749945..a54130e 100644
--- a/include/kelcoro/logical_thread.hpp
+++ b/include/kelcoro/logical_thread.hpp
@@ -98,8 +98,9 @@ struct logical_thread_promise {
     static bool await_ready() noexcept {
       return false;
     }
-    KELCORO_ASSUME_NOONE_SEES bool await_suspend(
-        std::coroutine_handle<logical_thread_promise> handle) noexcept {
+    // template because promise may be 'resourced_promise'
+    template <typename Promise>
+    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<Promise> handle) noexcept {
       stop_state = &handle.promise().stop_requested_;
       return false;  // never suspend rly
     }
-- 
2.43.0


From 3dc468961e7b6765496c48bada1843cb5736a43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 15/22] fix: trivially destructible memory resource is used
 after its memory deallocated

---
 include/kelcoro/memory_support.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/kelcoro/memory_support.hpp b/include/kelcoro/memory_support.hpp
index 9748b7b..72ce0e5 100644
--- a/include/kelcoro/memory_support.hpp
+++ b/include/kelcoro/memory_support.hpp
@@ -245,14 +245,11 @@ struct overload_new_delete {
       frame_sz += noexport::padding_len<alignof(R)>(frame_sz);
       R* onframe_resource = (R*)((std::byte*)ptr + frame_sz);
       assert((((uintptr_t)onframe_resource % alignof(R)) == 0));
-      if constexpr (std::is_trivially_destructible_v<R>) {
-        onframe_resource->deallocate(ptr, frame_sz + sizeof(R));
-      } else {
-        // save to stack from deallocated memory
-        R r = std::move(*onframe_resource);
-        std::destroy_at(onframe_resource);
-        r.deallocate(ptr, frame_sz + sizeof(R));
-      }
+      // save to stack from deallocated memory (even trivially destructible resource may use itself
+      // after memory deallocated)
+      R r = std::move(*onframe_resource);
+      std::destroy_at(onframe_resource);
+      r.deallocate(ptr, frame_sz + sizeof(R));
     }
   }
 };
-- 
2.43.0


From ac11453d14624ceebfc5d3a863692288165c8fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 16/22] fix: this_coro::operation_hash cannot be awaited

---
 include/kelcoro/operation_hash.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/kelcoro/operation_hash.hpp b/include/kelcoro/operation_hash.hpp
index e71bc98..c832e60 100644
--- a/include/kelcoro/operation_hash.hpp
+++ b/include/kelcoro/operation_hash.hpp
@@ -11,6 +11,9 @@ namespace dd {
 // from different tasks, its used to improve thread pool performance
 using operation_hash_t = size_t;
 
+template <typename O>
+[[gnu::pure]] constexpr operation_hash_t calculate_operation_hash(const O& operation) noexcept;
+
 namespace noexport {
 
 // copy from one of stdlibcs, because hash for void* on linux gcc/clang really bad
@@ -36,6 +39,10 @@ static size_t do_hash(const void* ptr) noexcept {
 struct KELCORO_CO_AWAIT_REQUIRED op_hash_t {
   operation_hash_t hash;
 
+  // 'this_coro::operation_hash' is a const object
+  constexpr op_hash_t operator co_await() const noexcept {
+    return *this;
+  }
   static constexpr bool await_ready() noexcept {
     return false;
   }
-- 
2.43.0


From 2f6c6dd97cdcae29b4e1f54d27db7e5dc1dc5812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 17/22] fix: operation hash of channel accesses private members
 of its promise

---
 include/kelcoro/channel.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index adf6308..4e309cf 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -18,6 +18,7 @@ struct channel_promise : not_movable {
   friend channel_iterator<Yield>;
   friend noexport::attach_leaf<channel<Yield>>;
   friend noexport::hold_value_until_resume<Yield>;
+  friend operation_hash<std::coroutine_handle<channel_promise>>;
 
   // invariant: root != nullptr
   channel_promise* root = this;
-- 
2.43.0


From 9ef54985121cd116d9136fc6b87ac11080cfc35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 18/22] fix: this_coro::handle does not compile in coroutines
 allocated with memory resource

---
 include/kelcoro/common.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/common.hpp b/include/kelcoro/common.hpp
index b9418e2..9f655f2 100644
--- a/include/kelcoro/common.hpp
+++ b/include/kelcoro/common.hpp
@@ -202,8 +202,10 @@ struct KELCORO_CO_AWAIT_REQUIRED get_handle_t {
     static constexpr bool await_ready() noexcept {
       return false;
     }
-    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<PromiseType> handle) noexcept {
-      handle_ = handle;
+    // template because promise may be 'resourced_promise'
+    template <typename Promise>
+    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<Promise> handle) noexcept {
+      handle_ = std::coroutine_handle<PromiseType>::from_address(handle.address());
       return false;
     }
     [[nodiscard]] std::coroutine_handle<PromiseType> await_resume() const noexcept {
-- 
2.43.0


From d183b121a469317157c6ddf48d7b218518e47cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 19/22] fix: expected: copying from non-const lvalue and
 exception_ptr as value do not compile

---
 include/kelcoro/noexport/expected.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/kelcoro/noexport/expected.hpp b/include/kelcoro/noexport/expected.hpp
index b972d9f..d5fb1f0 100644
--- a/include/kelcoro/noexport/expected.hpp
+++ b/include/kelcoro/noexport/expected.hpp
@@ -29,17 +29,18 @@ struct expected {
   expected() = default;
 
   template <typename U = T>
-  expected(U&& arg) : data(std::forward<U>(arg)) {
+    requires(!std::is_same_v<std::remove_cvref_t<U>, expected>)
+  expected(U&& arg) : data(std::in_place_index<0>, std::forward<U>(arg)) {
   }
   template <typename U>
-  expected(unexpected<U> u) : data(std::move(u.value)) {
+  expected(unexpected<U> u) : data(std::in_place_index<1>, std::move(u.value)) {
   }
 
   explicit operator bool() const noexcept {
     return has_value();
   }
   [[nodiscard]] bool has_value() const noexcept {
-    return std::holds_alternative<value_type>(data);
+    return data.index() == 0;
   }
   value_type& operator*() noexcept
     requires(!std::is_void_v<T>)
-- 
2.43.0


From eace9fb03456891c2e94760364ca9d2b5128c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 20/22] fix: output iterator of generator: '*it++ = value' must
 write to the current value

---
 include/kelcoro/generator.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index 4585fec..1853cab 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -228,9 +228,21 @@ struct generator_output_iterator : generator_iterator<Yield> {
     base_t::operator++();
     return *this;
   }
-  constexpr generator_output_iterator& operator++(int) {
-    base_t::operator++();
-    return *this;
+  // resumes generator after '*it++ = value' wrote to the current value (but not if writing failed)
+  struct postincrement_proxy {
+    generator_output_iterator& self;
+    int exceptions = std::uncaught_exceptions();
+
+    Yield& operator*() const noexcept {
+      return *self;
+    }
+    ~postincrement_proxy() noexcept(false) {
+      if (exceptions == std::uncaught_exceptions())
+        ++self;
+    }
+  };
+  postincrement_proxy operator++(int) {
+    return postincrement_proxy{*this};
   }
 };
 
-- 
2.43.0


From 0067a6c04f6c88e35a5a3fecf8ee465a3d943b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 21/22] fix: memory_support.hpp uses std::exchange and
 std::as_const without <utility>

---
 include/kelcoro/memory_support.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kelcoro/memory_support.hpp b/include/kelcoro/memory_support.hpp
index 72ce0e5..c549713 100644
--- a/include/kelcoro/memory_support.hpp
+++ b/include/kelcoro/memory_support.hpp
@@ -3,6 +3,7 @@
 #include <atomic>
 #include <memory_resource>
 #include <cassert>
+#include <utility>
 
 #include "noexport/macro.hpp"
 #include "operation_hash.hpp"
-- 
2.43.0


From 7ea80fb560320725ff6ac4581445e4278ff664cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:13 +0000
Subject: [PATCH 22/22] fix: build_awaiter must use operator co_await of
 awaiters which have it, as co_await does

---
 include/kelcoro/common.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/common.hpp b/include/kelcoro/common.hpp
index 9f655f2..f7862ae 100644
--- a/include/kelcoro/common.hpp
+++ b/include/kelcoro/common.hpp
@@ -301,7 +301,8 @@ concept co_awaitable = has_member_co_await<T> || has_global_co_await<T> || co_aw
 template <co_awaitable T>
 [[nodiscard]] constexpr decltype(auto) build_awaiter(T&& value) {
   static_assert(!ambigious_co_await_lookup<T>);
-  if constexpr (co_awaiter<T&&>)  // first bcs can have operator co_await too
+  // operator co_await is used even if 'value' is an awaiter itself
+  if constexpr (!has_global_co_await<T&&> && !has_member_co_await<T&&>)
     return std::forward<T>(value);
   else if constexpr (has_global_co_await<T&&>)
     return operator co_await(std::forward<T>(value));
-- 
2.43.0

