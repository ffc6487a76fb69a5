From 59c1d1de23cc3df5a19ac8cb481e0c4b7b22975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:50 +0000
Subject: [PATCH 001/158] fix: keep the ring content in order when a dynamic
 ring grows

DynamicRing::resize only enlarged the vector and changed the mask, so the
elements of a wrapped (or advanced) ring were looked up in other slots.
---
 framework/core/include/plain/basic/ring.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/framework/core/include/plain/basic/ring.h b/framework/core/include/plain/basic/ring.h
index e7d3bee..dc85604 100644
--- a/framework/core/include/plain/basic/ring.h
+++ b/framework/core/include/plain/basic/ring.h
@@ -242,6 +242,15 @@ using cookie_func_t = std::function<void()>;
     mask_.store(size - 1, std::memory_order_relaxed);
   }
 
+  // Copy the live elements to a new buffer, every element keeps its index so
+  // that it is found in the slot of the new mask.
+  void relocate(T *buffer, std::size_t size) const {
+    std::size_t tail{tail_.load(std::memory_order_relaxed)};
+    std::size_t head{head_.load(std::memory_order_relaxed)};
+    for (; tail != head; ++tail)
+      buffer[tail & (size - 1)] = buffer_[tail & mask_];
+  }
+
  private:
   virtual bool resize(size_t) { return false; }
 
@@ -303,11 +312,11 @@ class DynamicRing : public Ring<T, fake_tso> {
  private:
   bool resize(std::size_t size) override {
     std::unique_lock<decltype(mutex_)> auto_lock{mutex_};
-    if (size == 0) {
-      buffer_.clear();
-      size = SIZE;
-    }
-    buffer_.resize(size);
+    bool reset{size == 0};
+    if (reset) size = SIZE;
+    std::vector<T> buffer(size);
+    if (!reset) this->relocate(buffer.data(), size);
+    buffer_.swap(buffer);
     this->set_buffer(buffer_.data(), size);
     return true;
   }
-- 
2.43.0


From 4a95256b368d81881e642e59bf2883e804b0fabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:50 +0000
Subject: [PATCH 002/158] fix: the ring consumer must not write the producer
 index

read() and remove(count) reset both head and tail when the ring became
empty, which lost or repeated the elements of a concurrent producer.
---
 framework/core/include/plain/basic/ring.h | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/framework/core/include/plain/basic/ring.h b/framework/core/include/plain/basic/ring.h
index dc85604..9c83160 100644
--- a/framework/core/include/plain/basic/ring.h
+++ b/framework/core/include/plain/basic/ring.h
@@ -88,17 +88,12 @@ using cookie_func_t = std::function<void()>;
   }
   std::size_t remove(std::size_t count) {
     std::size_t tmp_tail{tail_.load(std::memory_order_relaxed)};
-    std::size_t avail{head_.load(std::memory_order_relaxed) - tmp_tail};
+    std::size_t avail{head_.load(index_acquire_barrier) - tmp_tail};
 
     count = (count > avail) ? avail : count;
 
 		std::atomic_signal_fence(std::memory_order_release);
-    if (count == avail) {
-      tail_.store(0, index_release_barrier);
-      head_.store(0, index_release_barrier);
-    } else {
-      tail_.store(tmp_tail + count, index_release_barrier);
-    }
+    tail_.store(tmp_tail + count, index_release_barrier);
     return count;
 	}
 
@@ -155,14 +150,8 @@ using cookie_func_t = std::function<void()>;
 
 		std::atomic_signal_fence(std::memory_order_release);
     // read only not set the tail_.
-    if (!read_only) {
-      if (to_read == available) {
-        head_.store(0, index_release_barrier);
-        tail_.store(0, index_release_barrier);
-      } else {
-        tail_.store(tmp_tail, index_release_barrier);
-      }
-    }
+    if (!read_only)
+      tail_.store(tmp_tail, index_release_barrier);
 		return to_read;
   }
 
-- 
2.43.0


From 49de6cd7ac150da12d2944072823ec50ad1067f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:30 +0000
Subject: [PATCH 003/158] verif: schedule points for runtime verification
 builds (PLAIN_VERIF)

Without the define PLAIN_VERIF_POINT is a no-op.
---
 framework/core/include/plain/basic/verif.h    | 20 +++++++++++++++++++
 .../concurrency/result/detail/shared_state.h  |  3 +++
 .../plain/concurrency/result/detail/state.h   |  4 ++++
 .../core/src/concurrency/executor/manual.cc   |  5 +++++
 .../core/src/concurrency/executor/thread.cc   |  4 ++++
 .../src/concurrency/executor/thread_pool.cc   |  9 +++++++++
 .../src/concurrency/executor/worker_thread.cc |  7 +++++++
 .../result/detail/consumer_context.cc         |  3 +++
 .../concurrency/result/detail/shared_state.cc |  2 ++
 .../src/concurrency/result/detail/state.cc    |  9 +++++++++
 framework/core/src/engine/timer.cc            |  2 ++
 framework/core/src/engine/timer_queue.cc      |  6 ++++++
 12 files changed, 74 insertions(+)
 create mode 100644 framework/core/include/plain/basic/verif.h

diff --git a/framework/core/include/plain/basic/verif.h b/framework/core/include/plain/basic/verif.h
new file mode 100644
index 0000000..755b804
--- /dev/null
+++ b/framework/core/include/plain/basic/verif.h
@@ -0,0 +1,20 @@
+/**
+ * PLAIN FREAMEWORK ( https://github.com/viticm/plain )
+ * $Id verif.h
+ * @link https://github.com/viticm/plain for the canonical source repository
+ * @license
+ * @uses The schedule points of runtime verification builds(PLAIN_VERIF), in the
+ *       normal builds they are nothing.
+ */
+
+#ifndef PLAIN_BASIC_VERIF_H_
+#define PLAIN_BASIC_VERIF_H_
+
+#ifdef PLAIN_VERIF
+extern "C" void plain_verif_point(unsigned id);
+#define PLAIN_VERIF_POINT(id) plain_verif_point(id)
+#else
+#define PLAIN_VERIF_POINT(id) static_cast<void>(0)
+#endif
+
+#endif // PLAIN_BASIC_VERIF_H_
diff --git a/framework/core/include/plain/concurrency/result/detail/shared_state.h b/framework/core/include/plain/concurrency/result/detail/shared_state.h
index cfc089c..6ec9096 100644
--- a/framework/core/include/plain/concurrency/result/detail/shared_state.h
+++ b/framework/core/include/plain/concurrency/result/detail/shared_state.h
@@ -13,6 +13,7 @@
 #define PLAIN_CONCURRENCY_RESULT_DETAIL_SHARED_STATE_H_
 
 #include "plain/concurrency/result/detail/config.h"
+#include "plain/basic/verif.h"
 #include "plain/sys/atomic_wait.h"
 #include "plain/concurrency/result/detail/state.h"
 
@@ -100,7 +101,9 @@ class SharedState : public SharedStateBasic {
   void on_finished() noexcept override {
     using plain::sys::detail::atomic_notify_all;
     status_.store(state_->status(), std::memory_order_release);
+    PLAIN_VERIF_POINT(15);
     atomic_notify_all(status_);
+    PLAIN_VERIF_POINT(16);
 
     auto kResultReady = ready_constant();
     auto awaiters = awaiters_.exchange(kResultReady, std::memory_order_acq_rel);
diff --git a/framework/core/include/plain/concurrency/result/detail/state.h b/framework/core/include/plain/concurrency/result/detail/state.h
index 638c7ae..a1309d4 100644
--- a/framework/core/include/plain/concurrency/result/detail/state.h
+++ b/framework/core/include/plain/concurrency/result/detail/state.h
@@ -13,6 +13,7 @@
 #define PLAIN_CONCURRENCY_RESULT_DETAIL_STATE_H_
 
 #include "plain/concurrency/result/detail/config.h"
+#include "plain/basic/verif.h"
 #include "plain/sys/atomic_wait.h"
 #include "plain/concurrency/result/detail/consumer_context.h"
 #include "plain/concurrency/result/detail/producer_context.h"
@@ -111,9 +112,11 @@ class State : public StateBasic {
   void complete_producer(coroutine_handle<void> done_handle = {}) {
     using plain::sys::detail::atomic_notify_all;
     done_handle_ = done_handle;
+    PLAIN_VERIF_POINT(9);
     const auto status = this->process_status_.exchange(
       ProcessStatus::ProducerDone, std::memory_order_acq_rel);
     assert(status != ProcessStatus::ProducerDone);
+    PLAIN_VERIF_POINT(10);
     switch (status) {
       case ProcessStatus::ConsumerSet: {
         return consumer_.resume_consumer(*this);
@@ -134,6 +137,7 @@ class State : public StateBasic {
   }
 
   void complete_consumer() noexcept {
+    PLAIN_VERIF_POINT(11);
     const auto status = process_status_.exchange(
       ProcessStatus::ConsumerDone, std::memory_order_acq_rel);
     assert(status != ProcessStatus::ConsumerSet);
diff --git a/framework/core/src/concurrency/executor/manual.cc b/framework/core/src/concurrency/executor/manual.cc
index e050c04..f472bdb 100644
--- a/framework/core/src/concurrency/executor/manual.cc
+++ b/framework/core/src/concurrency/executor/manual.cc
@@ -1,4 +1,5 @@
 #include "plain/concurrency/executor/manual.h"
+#include "plain/basic/verif.h"
 
 using plain::concurrency::executor::Manual;
 
@@ -14,6 +15,7 @@ void Manual::enqueue(Task task) {
   }
   tasks_.emplace_back(std::move(task));
   lock.unlock();
+  PLAIN_VERIF_POINT(32);
   condition_.notify_all();
 }
 
@@ -27,6 +29,7 @@ void Manual::enqueue(std::span<Task> tasks) {
     std::make_move_iterator(tasks.begin()),
     std::make_move_iterator(tasks.end()));
   lock.unlock();
+  PLAIN_VERIF_POINT(32);
   condition_.notify_all(); 
 }
 
@@ -37,6 +40,7 @@ int32_t Manual::max_concurrency_level() const noexcept {
 void Manual::shutdown() {
   const auto abort = atomic_abort_.exchange(true, std::memory_order_relaxed);  
   if (abort) return;
+  PLAIN_VERIF_POINT(30);
   decltype(tasks_) tasks;
   {
     std::unique_lock<decltype(lock_)> lock(lock_);
@@ -123,6 +127,7 @@ size_t Manual::loop_impl(size_t max_count) {
     auto task = std::move(tasks_.front());
     tasks_.pop_front();
     lock.unlock();
+    PLAIN_VERIF_POINT(31);
     task();
     ++executed;
   }
diff --git a/framework/core/src/concurrency/executor/thread.cc b/framework/core/src/concurrency/executor/thread.cc
index 720836f..d722506 100644
--- a/framework/core/src/concurrency/executor/thread.cc
+++ b/framework/core/src/concurrency/executor/thread.cc
@@ -1,4 +1,5 @@
 #include "plain/concurrency/executor/thread.h"
+#include "plain/basic/verif.h"
 
 using plain::concurrency::executor::Thread;
 
@@ -59,6 +60,7 @@ bool Thread::shutdown_requested() const {
 void Thread::shutdown() {
   const auto abort = atomic_abort_.exchange(true, std::memory_order_relaxed);
   if (abort) return; // Shutdown started.
+  PLAIN_VERIF_POINT(35);
   std::unique_lock<decltype(lock_)> lock{lock_};
   abort_ = true;
   condition_.wait(lock, [this] {
@@ -77,7 +79,9 @@ void Thread::retire_worker(std::list<thread_t>::iterator it) {
   last_retired_.splice(last_retired_.begin(), workers_, it);
   lock.unlock();
 
+  PLAIN_VERIF_POINT(33);
   condition_.notify_one();
+  PLAIN_VERIF_POINT(34);
   if (last_retired.empty()) return;
   assert(last_retired.size() == 1);
   last_retired.front().join();
diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index 5f5fc1b..69c47e2 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -1,4 +1,5 @@
 #include "plain/concurrency/executor/thread_pool.h"
+#include "plain/basic/verif.h"
 #include <semaphore>
 #include <algorithm>
 #include "plain/sys/thread.h"
@@ -120,6 +121,7 @@ bool IdleWorkerSet::try_acquire_flag(size_t index) noexcept {
     idle_flags_[index].flag.load(std::memory_order_relaxed);
   if (worker_status == Status::Active)
     return false;
+  PLAIN_VERIF_POINT(22);
   const auto before = idle_flags_[index].flag.exchange(
     Status::Active, std::memory_order_relaxed);
   const auto swapped = (before == Status::Idle);
@@ -224,6 +226,7 @@ void ThreadPoolWorker::balance_work() {
     }
     assert(end <= task_count);
 
+    PLAIN_VERIF_POINT(21);
     auto donation_begin_it = private_queue_.begin() + begin;
     auto donation_end_it = private_queue_.begin() + end;
 
@@ -264,7 +267,9 @@ bool ThreadPoolWorker::wait_for_task(std::unique_lock<std::mutex> &lock) {
 
   lock.unlock();
 
+  PLAIN_VERIF_POINT(17);
   parent_pool_.mark_worker_idle(index_);
+  PLAIN_VERIF_POINT(18);
 
   auto event_found = false;
   const auto deadline = std::chrono::steady_clock::now() + max_idle_time_;
@@ -289,6 +294,7 @@ bool ThreadPoolWorker::wait_for_task(std::unique_lock<std::mutex> &lock) {
     break;
   }
 
+  PLAIN_VERIF_POINT(19);
   if (!lock.owns_lock())
     lock.lock();
   if (!event_found || abort_) {
@@ -342,6 +348,7 @@ bool ThreadPoolWorker::drain_queue() {
   assert(private_queue_.empty());
   std::swap(private_queue_, public_queue_);
   lock.unlock();
+  PLAIN_VERIF_POINT(24);
 
   return drain_queue_impl();
 }
@@ -366,6 +373,7 @@ void ThreadPoolWorker::ensure_worker_active(
 
   if (!idle_) {
     lock.unlock();
+    PLAIN_VERIF_POINT(20);
     if (first_enqueuer)
       semaphore_.release();
     return;
@@ -464,6 +472,7 @@ void ThreadPoolWorker::shutdown() {
     abort_ = true;
   }
 
+  PLAIN_VERIF_POINT(23);
   task_found_or_abort_.store(true, std::memory_order_relaxed);
   
   semaphore_.release();
diff --git a/framework/core/src/concurrency/executor/worker_thread.cc b/framework/core/src/concurrency/executor/worker_thread.cc
index 00f968e..77f1050 100644
--- a/framework/core/src/concurrency/executor/worker_thread.cc
+++ b/framework/core/src/concurrency/executor/worker_thread.cc
@@ -1,4 +1,5 @@
 #include "plain/concurrency/executor/worker_thread.h"
+#include "plain/basic/verif.h"
 
 namespace plain::concurrency::executor{
 
@@ -54,7 +55,9 @@ void WorkerThread::wait_for_task(std::unique_lock<std::mutex> &lock) {
   while (true) {
     lock.unlock();
 
+    PLAIN_VERIF_POINT(25);
     semaphore_.acquire();
+    PLAIN_VERIF_POINT(26);
     lock.lock();
 
     if (!public_queue_.empty() || abort_)
@@ -75,6 +78,7 @@ bool WorkerThread::drain_queue() {
   assert(private_queue_.empty());
   std::swap(private_queue_, public_queue_);
   lock.unlock();
+  PLAIN_VERIF_POINT(29);
 
   return drain_queue_impl();
 }
@@ -113,6 +117,7 @@ void WorkerThread::enqueue_foreign(Task &task) {
     return make_os_worker_thread();
 
   lock.unlock();
+  PLAIN_VERIF_POINT(27);
   if (is_empty)
     semaphore_.release();
 }
@@ -131,6 +136,7 @@ void WorkerThread::enqueue_foreign(std::span<Task> tasks) {
     return make_os_worker_thread();
 
   lock.unlock();
+  PLAIN_VERIF_POINT(27);
   if (is_empty)
     semaphore_.release();
 }
@@ -165,6 +171,7 @@ void WorkerThread::shutdown() {
     std::unique_lock<decltype(lock_)> lock(lock_);
     abort_ = true;
   }
+  PLAIN_VERIF_POINT(28);
   private_atomic_abort_.store(true, std::memory_order_relaxed);
   semaphore_.release();
 
diff --git a/framework/core/src/concurrency/result/detail/consumer_context.cc b/framework/core/src/concurrency/result/detail/consumer_context.cc
index 7942b71..c4f87eb 100644
--- a/framework/core/src/concurrency/result/detail/consumer_context.cc
+++ b/framework/core/src/concurrency/result/detail/consumer_context.cc
@@ -1,4 +1,5 @@
 #include "plain/concurrency/result/detail/consumer_context.h"
+#include "plain/basic/verif.h"
 #include <utility>
 #include "plain/concurrency/result/detail/shared_state.h"
 
@@ -71,6 +72,7 @@ bool WhenAnyContext::any_result_finished() const noexcept {
 
 bool WhenAnyContext::finish_processing() noexcept {
   assert(status_.load(std::memory_order_relaxed) != kDoneProcessing);
+  PLAIN_VERIF_POINT(13);
   auto expected_state = kProcessing;
   const auto r = status_.compare_exchange_strong(
     expected_state, kDoneProcessing, std::memory_order_acq_rel);
@@ -81,6 +83,7 @@ bool WhenAnyContext::finish_processing() noexcept {
 void WhenAnyContext::try_resume(StateBasic &completed_result) noexcept {
   while (true) {
     auto status = status_.load(std::memory_order_acquire);
+    PLAIN_VERIF_POINT(12);
     if (status != kProcessing && status != kDoneProcessing) {
       return;
     }
diff --git a/framework/core/src/concurrency/result/detail/shared_state.cc b/framework/core/src/concurrency/result/detail/shared_state.cc
index 2317cb8..52b5a04 100644
--- a/framework/core/src/concurrency/result/detail/shared_state.cc
+++ b/framework/core/src/concurrency/result/detail/shared_state.cc
@@ -1,4 +1,5 @@
 #include "plain/concurrency/result/detail/shared_state.h"
+#include "plain/basic/verif.h"
 
 using plain::concurrency::result::detail::SharedStateBasic;
 using plain::concurrency::result::detail::SharedAwaitContext;
@@ -19,6 +20,7 @@ bool SharedStateBasic::await(SharedAwaitContext &awaiter) noexcept {
       return false;
     }
     awaiter.next = awaiter_before;
+    PLAIN_VERIF_POINT(14);
     const auto swapped = awaiters_.compare_exchange_weak(
       awaiter_before, &awaiter, std::memory_order_acq_rel);
     if (swapped) return true;
diff --git a/framework/core/src/concurrency/result/detail/state.cc b/framework/core/src/concurrency/result/detail/state.cc
index 3b4c5e2..3129f4c 100644
--- a/framework/core/src/concurrency/result/detail/state.cc
+++ b/framework/core/src/concurrency/result/detail/state.cc
@@ -1,4 +1,5 @@
 #include "plain/concurrency/result/detail/state.h"
+#include "plain/basic/verif.h"
 #include "plain/sys/atomic_wait.h"
 #include "plain/concurrency/result/detail/shared_state.h"
 
@@ -14,6 +15,7 @@ void StateBasic::wait() noexcept {
   const auto status = process_status_.load(std::memory_order_acquire);
   if (status == ProcessStatus::ProducerDone) return;
 
+  PLAIN_VERIF_POINT(1);
   auto expected_status = ProcessStatus::Idle;
   const auto idle = process_status_.compare_exchange_strong(
     expected_status,
@@ -24,6 +26,7 @@ void StateBasic::wait() noexcept {
     assert_done();
     return;
   }
+  PLAIN_VERIF_POINT(2);
   sys::detail::atomic_wait(
     process_status_, ProcessStatus::ConsumerWaiting, std::memory_order_acquire);
   assert_done();
@@ -34,6 +37,7 @@ ProcessStatus StateBasic::wait_for(std::chrono::milliseconds ms) noexcept {
     if (state1 == ProcessStatus::ProducerDone)
       return ProcessStatus::ProducerDone;
 
+    PLAIN_VERIF_POINT(3);
     auto expected_status1 = ProcessStatus::Idle; // Reference.
     const auto idle1 = process_status_.compare_exchange_strong(
       expected_status1, ProcessStatus::ConsumerWaiting,
@@ -53,6 +57,7 @@ ProcessStatus StateBasic::wait_for(std::chrono::milliseconds ms) noexcept {
     }
     assert(res == plain::sys::detail::AtomicWaitStatus::Timeout);
     
+    PLAIN_VERIF_POINT(4);
     auto expected_status2 = ProcessStatus::ConsumerWaiting;
     const auto idle2 = process_status_.compare_exchange_strong(
       expected_status2, ProcessStatus::Idle,
@@ -69,6 +74,7 @@ bool StateBasic::await(coroutine_handle<void> caller_handle) noexcept {
   if (status == ProcessStatus::ProducerDone) return false;
 
   consumer_.set_await_handle(caller_handle);
+  PLAIN_VERIF_POINT(5);
   
   auto expected_status = ProcessStatus::Idle;
    const auto idle = process_status_.compare_exchange_strong(
@@ -85,6 +91,7 @@ ProcessStatus StateBasic::when_any(
   const auto status = process_status_.load(std::memory_order_acquire);
   if (status == ProcessStatus::ProducerDone) return status;
   consumer_.set_when_any_context(when_any_state);
+  PLAIN_VERIF_POINT(6);
   auto expected_status = ProcessStatus::Idle;
   const auto idle = process_status_.compare_exchange_strong(
     expected_status,
@@ -102,6 +109,7 @@ void StateBasic::share(
     return shared_result_state->on_finished();
 
   consumer_.set_shared_context(shared_result_state);
+  PLAIN_VERIF_POINT(7);
   
   auto expected_status = ProcessStatus::Idle;
   const auto idle = process_status_.compare_exchange_strong(
@@ -117,6 +125,7 @@ void StateBasic::share(
 void StateBasic::try_rewind_consumer() noexcept {
   const auto status = process_status_.load(std::memory_order_acquire);
   if (status != ProcessStatus::ConsumerSet) return;
+  PLAIN_VERIF_POINT(8);
   auto expected_status = ProcessStatus::ConsumerSet;
   const auto consumer = process_status_.compare_exchange_strong(
     expected_status,
diff --git a/framework/core/src/engine/timer.cc b/framework/core/src/engine/timer.cc
index 7f12a7b..aab3f4e 100644
--- a/framework/core/src/engine/timer.cc
+++ b/framework/core/src/engine/timer.cc
@@ -1,4 +1,5 @@
 #include "plain/engine/timer.h"
+#include "plain/basic/verif.h"
 #include "plain/concurrency/executor/basic.h"
 #include "plain/engine/timer_queue.h"
 
@@ -69,6 +70,7 @@ void Timer::cancel() {
     return;
 
   auto state = std::move(state_);
+  PLAIN_VERIF_POINT(41);
   state->cancel();
 
   auto timer_queue = state->get_timer_queue().lock();
diff --git a/framework/core/src/engine/timer_queue.cc b/framework/core/src/engine/timer_queue.cc
index 698a958..48069d4 100644
--- a/framework/core/src/engine/timer_queue.cc
+++ b/framework/core/src/engine/timer_queue.cc
@@ -1,4 +1,5 @@
 #include "plain/engine/timer_queue.h"
+#include "plain/basic/verif.h"
 #include <set>
 #include "plain/concurrency/executor/basic.h"
 #include "plain/concurrency/result/lazy.h"
@@ -57,6 +58,7 @@ class TimerQueueInternal {
       auto temp_it = temp_set.insert(std::move(timer_node));
 
       const auto cancelled = timer_ptr->cancelled();
+      PLAIN_VERIF_POINT(38);
       if (!cancelled)
         (*temp_it)->fire();
 
@@ -189,6 +191,7 @@ void TimerQueue::Impl::add_internal_timer(
   assert(_lock.owns_lock());
   request_queue.emplace_back(std::move(new_timer), detail::TimerRequest::Add);
   _lock.unlock();
+  PLAIN_VERIF_POINT(39);
   condition.notify_one();
 }
 
@@ -248,6 +251,7 @@ void TimerQueue::Impl::work_loop() {
       if (!res) {
         idle = true;
         _lock.unlock();
+        PLAIN_VERIF_POINT(36);
         return;
       }
     } else {
@@ -260,6 +264,7 @@ void TimerQueue::Impl::work_loop() {
 
     auto _request_queue = std::move(request_queue);
     _lock.unlock();
+    PLAIN_VERIF_POINT(37);
 
     next_deadline = internal_state.process_timers(_request_queue);
     const auto now = clock_type::now();
@@ -300,6 +305,7 @@ void TimerQueue::shutdown() {
   const auto state_before =
     impl_->atomic_abort.exchange(true, std::memory_order_relaxed);
   if (state_before) return;
+  PLAIN_VERIF_POINT(40);
   std::unique_lock<std::mutex> lock(impl_->lock);
   impl_->abort = true;
   if (!impl_->worker.joinable())
-- 
2.43.0


From 87f70e28deed59f19efd7c09d8ae1971784ae4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:35 +0000
Subject: [PATCH 004/158] fix: a pool worker timing out must not strand a task
 just enqueued to it

---
 framework/core/src/concurrency/executor/thread_pool.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index 69c47e2..37aaf2c 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -271,7 +271,6 @@ bool ThreadPoolWorker::wait_for_task(std::unique_lock<std::mutex> &lock) {
   parent_pool_.mark_worker_idle(index_);
   PLAIN_VERIF_POINT(18);
 
-  auto event_found = false;
   const auto deadline = std::chrono::steady_clock::now() + max_idle_time_;
 
   while (true) {
@@ -290,14 +289,15 @@ bool ThreadPoolWorker::wait_for_task(std::unique_lock<std::mutex> &lock) {
       continue;
     }
 
-    event_found = true;
     break;
   }
 
   PLAIN_VERIF_POINT(19);
   if (!lock.owns_lock())
     lock.lock();
-  if (!event_found || abort_) {
+  // A task may have been enqueued between the timeout and the lock: its
+  // enqueuer saw this worker as running, so it must not go idle now.
+  if (public_queue_.empty() || abort_) {
     idle_ = true;
     lock.unlock();
     return false;
-- 
2.43.0


From 592862e549aa135de1851aec4b2360b366eb254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:35 +0000
Subject: [PATCH 005/158] fix: a task posted to a thread pool from another
 pool's worker runs on the wrong pool

---
 .../src/concurrency/executor/thread_pool.cc    | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index 37aaf2c..c28d7c3 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -61,6 +61,10 @@ class alignas(kCacheInlineAlignment) ThreadPoolWorker {
 
   bool appears_empty() const noexcept;
 
+  bool belongs_to(const ThreadPool &pool) const noexcept {
+    return &parent_pool_ == &pool;
+  }
+
  private:
   std::deque<Task> private_queue_;
   std::vector<size_t> idle_worker_list_;
@@ -541,8 +545,13 @@ void ThreadPool::mark_worker_active(size_t index) noexcept {
 }
 
 void ThreadPool::enqueue(Task task) {
-  const auto this_worker = detail::s_tl_thread_pool_data.this_worker;
-  const auto this_worker_index = detail::s_tl_thread_pool_data.this_thread_index;
+  const auto &thread_data = detail::s_tl_thread_pool_data;
+  // A worker of another pool is a foreign thread here.
+  const auto own_thread = thread_data.this_worker != nullptr &&
+    thread_data.this_worker->belongs_to(*this);
+  const auto this_worker = own_thread ? thread_data.this_worker : nullptr;
+  const auto this_worker_index = own_thread ?
+    thread_data.this_thread_index : static_cast<size_t>(-1);
   if (this_worker != nullptr && this_worker->appears_empty()) {
     return this_worker->enqueue_local(task);
   }
@@ -559,8 +568,9 @@ void ThreadPool::enqueue(Task task) {
 }
 
 void ThreadPool::enqueue(std::span<Task> tasks) {
-  if (detail::s_tl_thread_pool_data.this_worker != nullptr) {
-    return detail::s_tl_thread_pool_data.this_worker->enqueue_local(tasks);
+  const auto this_worker = detail::s_tl_thread_pool_data.this_worker;
+  if (this_worker != nullptr && this_worker->belongs_to(*this)) {
+    return this_worker->enqueue_local(tasks);
   }
   if (tasks.size() < workers_.size()) {
     for (auto &task : tasks) {
-- 
2.43.0


From 3f130d7603ee883f2babc207a22196920f1fae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:44 +0000
Subject: [PATCH 006/158] fix: donating tasks to a worker already shut down
 must not break the donor

---
 framework/core/src/concurrency/executor/thread_pool.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index c28d7c3..30e0e76 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -237,8 +237,13 @@ void ThreadPoolWorker::balance_work() {
     assert(donation_begin_it < private_queue_.end());
     assert(donation_end_it <= private_queue_.end());
 
-    parent_pool_.worker_at(idle_worker_index).enqueue_foreign(
-      donation_begin_it, donation_end_it);
+    try {
+      parent_pool_.worker_at(idle_worker_index).enqueue_foreign(
+        donation_begin_it, donation_end_it);
+    } catch (const std::runtime_error &) {
+      // That worker is shut down already: keep the tasks until it is our turn.
+      break;
+    }
 
     begin = end;
     end += donation_count;
-- 
2.43.0


From 575b037edc3b5de97c921c08466909de407aa331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:07 +0000
Subject: [PATCH 007/158] fix: a pool worker that stopped for a shutdown must
 not be restarted by a racing enqueue

---
 framework/core/src/concurrency/executor/thread_pool.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index 30e0e76..0376779 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -474,11 +474,13 @@ void ThreadPoolWorker::enqueue_local(std::span<Task> tasks) {
 
 void ThreadPoolWorker::shutdown() {
   assert(!atomic_abort_.load(std::memory_order_relaxed));
-  atomic_abort_.store(true, std::memory_order_relaxed);
 
   {
     std::unique_lock<decltype(lock_)> lock{lock_};
     abort_ = true;
+    // Not before abort_: a worker that stopped must not be restarted by an
+    // enqueue that does not see the abort yet.
+    atomic_abort_.store(true, std::memory_order_relaxed);
   }
 
   PLAIN_VERIF_POINT(23);
-- 
2.43.0


From 87cf1d656682deb1452025a36ffea13f2e004d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:41 +0000
Subject: [PATCH 008/158] fix: a task enqueued by the worker thread itself must
 not be enqueued a second time

---
 framework/core/src/concurrency/executor/worker_thread.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/concurrency/executor/worker_thread.cc b/framework/core/src/concurrency/executor/worker_thread.cc
index 77f1050..50257c3 100644
--- a/framework/core/src/concurrency/executor/worker_thread.cc
+++ b/framework/core/src/concurrency/executor/worker_thread.cc
@@ -143,14 +143,14 @@ void WorkerThread::enqueue_foreign(std::span<Task> tasks) {
 
 void WorkerThread::enqueue(Task task) {
   if (detail::s_tl_this_worker == this)
-    enqueue_local(task);
+    return enqueue_local(task);
 
   enqueue_foreign(task);
 }
 
 void WorkerThread::enqueue(std::span<Task> tasks) {
   if (detail::s_tl_this_worker == this)
-    enqueue_local(tasks);
+    return enqueue_local(tasks);
 
   enqueue_foreign(tasks);
 }
-- 
2.43.0


From 78875759b28249dd4cd1e4e9653430d9ead4d4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:07 +0000
Subject: [PATCH 009/158] fix: when_any must notice a result completed while it
 registers

---
 framework/core/src/concurrency/result/detail/state.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/concurrency/result/detail/state.cc b/framework/core/src/concurrency/result/detail/state.cc
index 3129f4c..75dad8f 100644
--- a/framework/core/src/concurrency/result/detail/state.cc
+++ b/framework/core/src/concurrency/result/detail/state.cc
@@ -98,8 +98,9 @@ ProcessStatus StateBasic::when_any(
     ProcessStatus::ConsumerSet,
     std::memory_order_acq_rel,
     std::memory_order_acquire);
-  if (!idle) assert_done();
-  return status;
+  if (idle) return ProcessStatus::ConsumerSet;
+  assert_done();
+  return ProcessStatus::ProducerDone;
 }
 
 void StateBasic::share(
-- 
2.43.0


From 56d99df3c212057e2fbef0dc8df2d21c7e235fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:48 +0000
Subject: [PATCH 010/158] fix: a completing result must not touch its consumer
 after publishing the outcome

---
 .../plain/concurrency/result/detail/config.h  |  1 +
 .../result/detail/consumer_context.h          |  3 ++
 .../plain/concurrency/result/detail/state.h   | 18 ++++++++++--
 .../result/detail/consumer_context.cc         | 20 +++++++++++++
 .../src/concurrency/result/detail/state.cc    | 28 ++++++++++---------
 5 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/framework/core/include/plain/concurrency/result/detail/config.h b/framework/core/include/plain/concurrency/result/detail/config.h
index 08de7ac..315cc28 100644
--- a/framework/core/include/plain/concurrency/result/detail/config.h
+++ b/framework/core/include/plain/concurrency/result/detail/config.h
@@ -24,6 +24,7 @@ enum class ProcessStatus : int32_t {
   ConsumerWaiting,
   ConsumerDone,
   ProducerDone,
+  ConsumerTaken, // The producer is reading the consumer context.
 };
 
 // The consumer status.
diff --git a/framework/core/include/plain/concurrency/result/detail/consumer_context.h b/framework/core/include/plain/concurrency/result/detail/consumer_context.h
index 9ed92f3..2ae52e0 100644
--- a/framework/core/include/plain/concurrency/result/detail/consumer_context.h
+++ b/framework/core/include/plain/concurrency/result/detail/consumer_context.h
@@ -57,6 +57,9 @@ class PLAIN_API WhenAnyContext {
 class PLAIN_API ConsumerContext {
 
  public:
+  ConsumerContext() noexcept = default;
+  ConsumerContext(const ConsumerContext &rhs) noexcept;
+  ConsumerContext &operator=(const ConsumerContext &) = delete;
   ~ConsumerContext() noexcept;
 
  public:
diff --git a/framework/core/include/plain/concurrency/result/detail/state.h b/framework/core/include/plain/concurrency/result/detail/state.h
index a1309d4..45652b9 100644
--- a/framework/core/include/plain/concurrency/result/detail/state.h
+++ b/framework/core/include/plain/concurrency/result/detail/state.h
@@ -113,13 +113,25 @@ class State : public StateBasic {
     using plain::sys::detail::atomic_notify_all;
     done_handle_ = done_handle;
     PLAIN_VERIF_POINT(9);
-    const auto status = this->process_status_.exchange(
-      ProcessStatus::ProducerDone, std::memory_order_acq_rel);
+    auto status = process_status_.load(std::memory_order_acquire);
+    while (true) {
+      const auto consumer_set = status == ProcessStatus::ConsumerSet;
+      const auto swapped = process_status_.compare_exchange_weak(
+        status,
+        consumer_set ? ProcessStatus::ConsumerTaken : ProcessStatus::ProducerDone,
+        std::memory_order_acq_rel, std::memory_order_acquire);
+      if (swapped) break;
+    }
     assert(status != ProcessStatus::ProducerDone);
     PLAIN_VERIF_POINT(10);
     switch (status) {
       case ProcessStatus::ConsumerSet: {
-        return consumer_.resume_consumer(*this);
+        // Once the result is published another thread may consume and delete
+        // it (when_any, shared), so take the context out before.
+        const ConsumerContext consumer{consumer_};
+        process_status_.store(
+          ProcessStatus::ProducerDone, std::memory_order_release);
+        return consumer.resume_consumer(*this);
       }
       case ProcessStatus::Idle: {
         return;
diff --git a/framework/core/src/concurrency/result/detail/consumer_context.cc b/framework/core/src/concurrency/result/detail/consumer_context.cc
index c4f87eb..1e7f95c 100644
--- a/framework/core/src/concurrency/result/detail/consumer_context.cc
+++ b/framework/core/src/concurrency/result/detail/consumer_context.cc
@@ -117,6 +117,26 @@ const StateBasic *WhenAnyContext::completed_result() const noexcept {
   return status_.load(std::memory_order_acquire);
 }
 
+ConsumerContext::ConsumerContext(const ConsumerContext &rhs) noexcept :
+  status_{rhs.status_} {
+  switch (status_) {
+    case ConsumerStatus::Idle:
+      break;
+    case ConsumerStatus::Await:
+      detail::build(storage_.caller_handle, rhs.storage_.caller_handle);
+      break;
+    case ConsumerStatus::WhenAny:
+      detail::build(storage_.when_any_ctx, rhs.storage_.when_any_ctx);
+      break;
+    case ConsumerStatus::Shared:
+      detail::build(storage_.shared_ctx, rhs.storage_.shared_ctx);
+      break;
+    default:
+      assert(false);
+      break;
+  }
+}
+
 ConsumerContext::~ConsumerContext() noexcept {
   destroy();
 }
diff --git a/framework/core/src/concurrency/result/detail/state.cc b/framework/core/src/concurrency/result/detail/state.cc
index 75dad8f..9aaf359 100644
--- a/framework/core/src/concurrency/result/detail/state.cc
+++ b/framework/core/src/concurrency/result/detail/state.cc
@@ -124,18 +124,20 @@ void StateBasic::share(
 }
 
 void StateBasic::try_rewind_consumer() noexcept {
-  const auto status = process_status_.load(std::memory_order_acquire);
-  if (status != ProcessStatus::ConsumerSet) return;
-  PLAIN_VERIF_POINT(8);
-  auto expected_status = ProcessStatus::ConsumerSet;
-  const auto consumer = process_status_.compare_exchange_strong(
-    expected_status,
-    ProcessStatus::Idle,
-    std::memory_order_acq_rel,
-    std::memory_order_acquire);
-  if (!consumer) {
-    assert_done();
-    return;
+  auto status = process_status_.load(std::memory_order_acquire);
+  while (status == ProcessStatus::ConsumerSet ||
+         status == ProcessStatus::ConsumerTaken) {
+    if (status == ProcessStatus::ConsumerTaken) {
+      std::this_thread::yield();
+      status = process_status_.load(std::memory_order_acquire);
+      continue;
+    }
+    PLAIN_VERIF_POINT(8);
+    const auto swapped = process_status_.compare_exchange_strong(
+      status,
+      ProcessStatus::Idle,
+      std::memory_order_acq_rel,
+      std::memory_order_acquire);
+    if (swapped) return consumer_.clear();
   }
-  consumer_.clear();
 }
-- 
2.43.0


From 26b00b495bb187197c67f3116b5ec19dab578e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:48 +0000
Subject: [PATCH 011/158] verif: schedule point after a result is published

---
 framework/core/include/plain/concurrency/result/detail/state.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/include/plain/concurrency/result/detail/state.h b/framework/core/include/plain/concurrency/result/detail/state.h
index 45652b9..310ac7d 100644
--- a/framework/core/include/plain/concurrency/result/detail/state.h
+++ b/framework/core/include/plain/concurrency/result/detail/state.h
@@ -131,6 +131,7 @@ class State : public StateBasic {
         const ConsumerContext consumer{consumer_};
         process_status_.store(
           ProcessStatus::ProducerDone, std::memory_order_release);
+        PLAIN_VERIF_POINT(42);
         return consumer.resume_consumer(*this);
       }
       case ProcessStatus::Idle: {
-- 
2.43.0


From 8a5d67765fa96eda25dd639f05035e133aff28e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:47 +0000
Subject: [PATCH 012/158] fix: making a timer must not steal a callable passed
 as an lvalue

---
 framework/core/include/plain/engine/timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/engine/timer.h b/framework/core/include/plain/engine/timer.h
index 67e281f..1fc2e29 100644
--- a/framework/core/include/plain/engine/timer.h
+++ b/framework/core/include/plain/engine/timer.h
@@ -109,7 +109,7 @@ class TimerState : public TimerStateBasic {
     std::shared_ptr<concurrency::executor::Basic> executor,
     std::weak_ptr<TimerQueue> timer_queue, bool is_oneshot, CT &&callable) :
     TimerStateBasic(due_time, frequency, std::move(executor),
-      std::move(timer_queue), is_oneshot), callable_{std::move(callable)} {
+      std::move(timer_queue), is_oneshot), callable_{std::forward<CT>(callable)} {
 
   }
 
-- 
2.43.0


From a70d6198a84f0176a3f1330058bc232f0ec44c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:47 +0000
Subject: [PATCH 013/158] fix: shutting a timer queue down must not drop
 pending requests under its lock

---
 framework/core/src/engine/timer_queue.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework/core/src/engine/timer_queue.cc b/framework/core/src/engine/timer_queue.cc
index 48069d4..5864dc0 100644
--- a/framework/core/src/engine/timer_queue.cc
+++ b/framework/core/src/engine/timer_queue.cc
@@ -310,6 +310,9 @@ void TimerQueue::shutdown() {
   impl_->abort = true;
   if (!impl_->worker.joinable())
     return;
+  // Dropping a pending request can resume a delayed coroutine, which may use
+  // this queue again: never do that with the lock held.
+  auto request_queue = std::move(impl_->request_queue);
   impl_->request_queue.clear();
   lock.unlock();
 
-- 
2.43.0


From 5a68c70f47fbc3f752e2f13ea1a453e41754b9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:47 +0000
Subject: [PATCH 014/158] fix: an executor shut down while a timer fires must
 not kill the timer queue

---
 framework/core/src/engine/timer.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/engine/timer.cc b/framework/core/src/engine/timer.cc
index aab3f4e..a630fcd 100644
--- a/framework/core/src/engine/timer.cc
+++ b/framework/core/src/engine/timer.cc
@@ -22,12 +22,15 @@ void TimerStateBasic::fire() {
   deadline_ = make_deadline(milliseconds(frequency));
 
   assert(static_cast<bool>(executor_));
-  // FIXME: share the executor maybe get shutdown before post.
   if (executor_->shutdown_requested()) return;
 
-  executor_->post([self = shared_from_this()]() mutable {
-    self->execute();
-  });
+  try {
+    executor_->post([self = shared_from_this()]() mutable {
+      self->execute();
+    });
+  } catch (const std::runtime_error &) {
+    // The executor was shut down after the check above.
+  }
 }
 
 Timer::Timer(std::shared_ptr<TimerStateBasic> timer_impl) noexcept :
-- 
2.43.0


From 4c972b29b4cfa18ea9f4eaf5ed8adcbaba563241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:58 +0000
Subject: [PATCH 015/158] fix: rpc packing of unsigned values that read as a
 type tag and of the smallest integers

---
 framework/core/include/plain/net/rpc/packer.h | 28 +++----------------
 framework/core/src/net/rpc/packer.cc          | 17 +++++++----
 2 files changed, 16 insertions(+), 29 deletions(-)

diff --git a/framework/core/include/plain/net/rpc/packer.h b/framework/core/include/plain/net/rpc/packer.h
index ee3bbda..52ddfe8 100644
--- a/framework/core/include/plain/net/rpc/packer.h
+++ b/framework/core/include/plain/net/rpc/packer.h
@@ -130,39 +130,19 @@ class PLAIN_API Packer {
  public:
 
   std::bitset<64> twos_complement(int64_t value) noexcept {
-    if (value < 0) {
-      auto abs_v = std::abs(value);
-      return ~abs_v + 1;
-    } else {
-      return {static_cast<uint64_t>(value)};
-    }
+    return {static_cast<uint64_t>(value)};
   }
 
   std::bitset<32> twos_complement(int32_t value) noexcept {
-    if (value < 0) {
-      auto abs_v = std::abs(value);
-      return ~abs_v + 1;
-    } else {
-      return {static_cast<uint32_t>(value)};
-    }
+    return {static_cast<uint32_t>(value)};
   }
 
   std::bitset<16> twos_complement(int16_t value) noexcept {
-    if (value < 0) {
-      auto abs_v = std::abs(value);
-      return ~abs_v + 1;
-    } else {
-      return {static_cast<uint16_t>(value)};
-    }
+    return {static_cast<uint16_t>(value)};
   }
 
   std::bitset<8> twos_complement(int8_t value) noexcept {
-    if (value < 0) {
-      auto abs_v = std::abs(value);
-      return ~abs_v + 1;
-    } else {
-      return {static_cast<uint8_t>(value)};
-    }
+    return {static_cast<uint8_t>(value)};
   }
 
  public:
diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index 1d7b68f..0033d3c 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -13,7 +13,8 @@ void Packer::pack(int8_t value) noexcept {
 }
 
 void Packer::pack(int16_t value) noexcept {
-  if (std::abs(value) < std::abs(std::numeric_limits<int8_t>::min())) {
+  if (value > std::numeric_limits<int8_t>::min() &&
+      value <= std::numeric_limits<int8_t>::max()) {
     pack(static_cast<int8_t>(value));
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Int16));
@@ -27,7 +28,8 @@ void Packer::pack(int16_t value) noexcept {
 }
 
 void Packer::pack(int32_t value) noexcept {
-  if (std::abs(value) < std::abs(std::numeric_limits<int16_t>::min())) {
+  if (value > std::numeric_limits<int16_t>::min() &&
+      value <= std::numeric_limits<int16_t>::max()) {
     pack(static_cast<int16_t>(value));
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Int32));
@@ -41,8 +43,8 @@ void Packer::pack(int32_t value) noexcept {
 }
 
 void Packer::pack(int64_t value) noexcept {
-  if (std::abs(value) < std::abs(std::numeric_limits<int32_t>::min()) &&
-      value != std::numeric_limits<int64_t>::min()) {
+  if (value > std::numeric_limits<int32_t>::min() &&
+      value <= std::numeric_limits<int32_t>::max()) {
     pack(static_cast<int32_t>(value));
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Int64));
@@ -56,7 +58,12 @@ void Packer::pack(int64_t value) noexcept {
 }
 
 void Packer::pack(uint8_t value) noexcept {
-  if (value <= 0x7f) {
+  // A value that reads as the tag of an unsigned type needs the tag itself.
+  const auto is_tag = value == std::to_underlying(Type::Uint8) ||
+    value == std::to_underlying(Type::Uint16) ||
+    value == std::to_underlying(Type::Uint32) ||
+    value == std::to_underlying(Type::Uint64);
+  if (value <= 0x7f && !is_tag) {
     serialized_object_.emplace_back(value);
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Uint8));
-- 
2.43.0


From a303471624ba9400cf7defcbde017b06c2135f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:58 +0000
Subject: [PATCH 016/158] fix: rpc unpacking of small negative integers and of
 unsigned values into used variables

---
 framework/core/src/net/rpc/unpacker.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index 6d3a185..31ea87c 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -16,10 +16,10 @@ Unpacker::~Unpacker() = default;
 void Unpacker::unpack(int8_t &value) noexcept {
   if (data() == std::to_underlying(Type::Int8)) {
     increment();
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -42,7 +42,7 @@ void Unpacker::unpack(int16_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -69,7 +69,7 @@ void Unpacker::unpack(int32_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -100,7 +100,7 @@ void Unpacker::unpack(int64_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -119,6 +119,7 @@ void Unpacker::unpack(uint8_t &value) noexcept {
 void Unpacker::unpack(uint16_t &value) noexcept {
   if (data() == std::to_underlying(Type::Uint16)) {
     increment();
+    value = 0;
     for (auto i = sizeof(uint16_t); i > 0; --i) {
       value += data() << 8 * (i - 1);
       increment();
@@ -136,12 +137,14 @@ void Unpacker::unpack(uint16_t &value) noexcept {
 void Unpacker::unpack(uint32_t &value) noexcept {
   if (data() == std::to_underlying(Type::Uint32)) {
     increment();
+    value = 0;
     for (auto i = sizeof(uint32_t); i > 0; --i) {
       value += data() << 8 * (i - 1);
       increment();
     }
   } else if (data() == std::to_underlying(Type::Uint16)) {
     increment();
+    value = 0;
     for (auto i = sizeof(uint16_t); i > 0; --i) {
       value += data() << 8 * (i - 1);
       increment();
@@ -159,19 +162,21 @@ void Unpacker::unpack(uint32_t &value) noexcept {
 void Unpacker::unpack(uint64_t &value) noexcept {
   if (data() == std::to_underlying(Type::Uint64)) {
     increment();
+    value = 0;
     for (auto i = sizeof(uint64_t); i > 0; --i) {
       value += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
   } else if (data() == std::to_underlying(Type::Uint32)) {
     increment();
+    value = 0;
     for (auto i = sizeof(uint32_t); i > 0; --i) {
       value += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
-    data_++;
   } else if (data() == std::to_underlying(Type::Uint16)) {
     increment();
+    value = 0;
     for (auto i = sizeof(uint16_t); i > 0; --i) {
       value += uint64_t(data()) << 8 * (i - 1);
       increment();
-- 
2.43.0


From 7018a09d9f6caaec1884611bfd171bfa86f8535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:05 +0000
Subject: [PATCH 017/158] fix: rpc floating point values must survive packing

Fractions below one, integral doubles over 2^24, denormal, infinite and
NaN values and those out of the int64_t range came back as another value.
---
 framework/core/src/net/rpc/packer.cc   | 69 +++++++-------------------
 framework/core/src/net/rpc/unpacker.cc | 68 ++++---------------------
 2 files changed, 28 insertions(+), 109 deletions(-)

diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index 0033d3c..3c55922 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -1,4 +1,6 @@
 #include "plain/net/rpc/packer.h"
+#include <bit>
+#include <cmath>
 
 using plain::net::rpc::Packer;
 
@@ -118,33 +120,20 @@ void Packer::pack(bool value) noexcept {
     serialized_object_.emplace_back(std::to_underlying(Type::FalseBool));
 }
 
-void Packer::pack(float value) noexcept {
-  double integral_part{.0};
-  auto fractional_remainder = float(std::modf(value, &integral_part));
+// If the value can be packed as an integer without losing anything.
+template <typename T>
+static bool is_integer(T value) noexcept {
+  constexpr T limit = 9223372036854775808.0; // 2^63
+  return value > -limit && value < limit && std::trunc(value) == value &&
+    !(value == 0 && std::signbit(value));
+}
 
-  if (fractional_remainder == 0) { // Just pack as int
-    pack(int64_t(integral_part));
+void Packer::pack(float value) noexcept {
+  if (is_integer(value)) { // Just pack as int
+    pack(static_cast<int64_t>(value));
   } else {
-    static_assert(std::numeric_limits<float>::radix == 2);
-    auto exponent = std::ilogb(value);
-    float full_mantissa = value / float(scalbn(1.0, exponent));
-    auto sign_mask = std::bitset<32>(
-      static_cast<uint32_t>(std::signbit(full_mantissa)) << 31);
-    auto excess_127_exponent_mask =
-      std::bitset<32>(uint32_t(exponent + 127) << 23);
-    auto normalized_mantissa_mask = std::bitset<32>();
-    float implied_mantissa = std::fabs(full_mantissa) - 1.0f;
-    for (auto i = 23U; i > 0; --i) {
-      integral_part = 0;
-      implied_mantissa *= 2;
-      implied_mantissa = float(std::modf(implied_mantissa, &integral_part));
-      if (uint8_t(integral_part) == 1) {
-        normalized_mantissa_mask |= std::bitset<32>(uint32_t(1 << (i - 1)));
-      }
-    }
-
-    uint32_t ieee754_float32 = (sign_mask | excess_127_exponent_mask |
-       normalized_mantissa_mask).to_ulong();
+    static_assert(std::numeric_limits<float>::is_iec559);
+    auto ieee754_float32 = std::bit_cast<uint32_t>(value);
     serialized_object_.emplace_back(std::to_underlying(Type::Float32));
     for (auto i = sizeof(uint32_t); i > 0; --i) {
       serialized_object_.emplace_back(
@@ -154,33 +143,11 @@ void Packer::pack(float value) noexcept {
 }
 
 void Packer::pack(double value) noexcept {
-  double integral_part{.0};
-  double fractional_remainder = std::modf(value, &integral_part);
-
-  if (fractional_remainder == 0) { // Just pack as int
-    pack(int64_t(integral_part));
+  if (is_integer(value)) { // Just pack as int
+    pack(static_cast<int64_t>(value));
   } else {
-    static_assert(std::numeric_limits<float>::radix == 2);
-    auto exponent = std::ilogb(value);
-    double full_mantissa = value / std::scalbn(1.0, exponent);
-    auto sign_mask =
-      std::bitset<64>(uint64_t(std::signbit(full_mantissa)) << 63);
-    auto excess_127_exponent_mask =
-      std::bitset<64>(uint64_t(exponent + 1023) << 52);
-    auto normalized_mantissa_mask = std::bitset<64>();
-    double implied_mantissa = std::fabs(full_mantissa) - 1.0f;
-
-    for (auto i = 52U; i > 0; --i) {
-      integral_part = 0;
-      implied_mantissa *= 2;
-      implied_mantissa = modf(implied_mantissa, &integral_part);
-      if (uint8_t(integral_part) == 1) {
-        normalized_mantissa_mask |= std::bitset<64>(uint64_t(1) << (i - 1));
-      }
-    }
-    auto ieee754_float64 = 
-      (sign_mask | excess_127_exponent_mask |
-       normalized_mantissa_mask).to_ullong();
+    static_assert(std::numeric_limits<double>::is_iec559);
+    auto ieee754_float64 = std::bit_cast<uint64_t>(value);
     serialized_object_.emplace_back(std::to_underlying(Type::Float64));
     for (auto i = sizeof(ieee754_float64); i > 0; --i) {
       serialized_object_.emplace_back(
diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index 31ea87c..9d12cd4 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -1,6 +1,6 @@
 #include "plain/net/rpc/unpacker.h"
+#include <bit>
 #include <bitset>
-#include <cmath>
 
 using plain::net::rpc::Unpacker;
 
@@ -205,38 +205,14 @@ void Unpacker::unpack(float &value) noexcept {
     increment();
     uint32_t _data = 0;
     for (auto i = sizeof(uint32_t); i > 0; --i) {
-      _data += data() << 8 * (i - 1);
+      _data += uint32_t(data()) << 8 * (i - 1);
       increment();
     }
-    auto bits = std::bitset<32>(_data);
-    auto mantissa = 1.0f;
-    for (auto i = 23U; i > 0; --i) {
-      if (bits[i - 1]) {
-        mantissa += 1.0f / (1 << (24 - i));
-      }
-    }
-    if (bits[31]) {
-      mantissa *= -1;
-    }
-    uint8_t exponent = 0;
-    for (auto i = 0U; i < 8; ++i) {
-      exponent += bits[i + 23] << i;
-    }
-    exponent -= 127;
-    value = std::ldexp(mantissa, exponent);
+    value = std::bit_cast<float>(_data);
   } else {
-    if (data() == std::to_underlying(Type::Int8) ||
-        data() == std::to_underlying(Type::Int16) ||
-        data() == std::to_underlying(Type::Int32) ||
-        data() == std::to_underlying(Type::Int64)) {
-      int64_t val = 0;
-      unpack(val);
-      value = float(val);
-    } else {
-      uint64_t val = 0;
-      unpack(val);
-      value = float(val);
-    }
+    int64_t val = 0;
+    unpack(val);
+    value = static_cast<float>(val);
   }
 }
 
@@ -248,35 +224,11 @@ void Unpacker::unpack(double &value) noexcept {
       _data += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
-    auto bits = std::bitset<64>(_data);
-    auto mantissa = 1.0;
-    for (auto i = 52U; i > 0; --i) {
-      if (bits[i - 1]) {
-        mantissa += 1.0 / (uint64_t(1) << (53 - i));
-      }
-    }
-    if (bits[63]) {
-      mantissa *= -1;
-    }
-    uint16_t exponent = 0;
-    for (auto i = 0U; i < 11; ++i) {
-      exponent += bits[i + 52] << i;
-    }
-    exponent -= 1023;
-    value = ldexp(mantissa, exponent);
+    value = std::bit_cast<double>(_data);
   } else {
-    if (data() == std::to_underlying(Type::Int8) ||
-        data() == std::to_underlying(Type::Int16) ||
-        data() == std::to_underlying(Type::Int32) ||
-        data() == std::to_underlying(Type::Int64)) {
-      int64_t val = 0;
-      unpack(val);
-      value = float(val);
-    } else {
-      uint64_t val = 0;
-      unpack(val);
-      value = float(val);
-    }
+    int64_t val = 0;
+    unpack(val);
+    value = static_cast<double>(val);
   }
 }
 
-- 
2.43.0


From cef3aca344ce2fe20dcb9ca21d28dd3ff549be2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:39 +0000
Subject: [PATCH 018/158] fix: rpc unpacking of damaged data must stay within
 the data and the target

A size field larger than the data made the unpacker add that many default
elements, a longer array overran a std::array, and an intact nested object
cleared the error of the data before it.
---
 .../core/include/plain/net/rpc/unpacker.h     | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 6c414a1..b77eb15 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -90,7 +90,8 @@ class PLAIN_API Unpacker {
         Unpacker{recursive_data.data(), recursive_data.size()};
 
       value.pack(recursive_unpacker);
-      error_ = recursive_unpacker.error_;
+      if (recursive_unpacker.error_)
+        error_ = recursive_unpacker.error_;
     }
 
   }
@@ -116,7 +117,7 @@ class PLAIN_API Unpacker {
         increment();
       }
       std::vector<uint32_t> x{};
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && !error_; ++i) {
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -128,7 +129,7 @@ class PLAIN_API Unpacker {
         array_size += uint16_t(data()) << 8 * (i - 1);
         increment();
       }
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && !error_; ++i) {
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -136,7 +137,7 @@ class PLAIN_API Unpacker {
     } else {
       std::size_t array_size = data() & 0b00001111;
       increment();
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && !error_; ++i) {
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -149,6 +150,10 @@ class PLAIN_API Unpacker {
     using ValueType = typename T::value_type;
     auto vec = std::vector<ValueType>{};
     unpack_array(vec);
+    if (vec.size() > array.size()) {
+      error_ = ErrorCode::OutOfRange;
+      return;
+    }
     std::copy(vec.begin(), vec.end(), array.begin());
   }
 
@@ -164,7 +169,7 @@ class PLAIN_API Unpacker {
         increment();
       }
       std::vector<uint32_t> x{};
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && !error_; ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
@@ -178,7 +183,7 @@ class PLAIN_API Unpacker {
         map_size += uint16_t(data()) << 8 * (i - 1);
         increment();
       }
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && !error_; ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
@@ -188,7 +193,7 @@ class PLAIN_API Unpacker {
     } else {
       std::size_t map_size = data() & 0b00001111;
       increment();
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && !error_; ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
-- 
2.43.0


From ba56eaf402d49170396a8e21736fac0a25b84caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:39 +0000
Subject: [PATCH 019/158] fix: clearing a packet flag must clear that flag, not
 the readable one

---
 framework/core/src/net/packet/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/packet/basic.cc b/framework/core/src/net/packet/basic.cc
index 832c1a5..04f77bd 100644
--- a/framework/core/src/net/packet/basic.cc
+++ b/framework/core/src/net/packet/basic.cc
@@ -27,7 +27,7 @@ void Basic::Impl::set_flag(bool _flag, uint32_t type) noexcept {
   if (_flag)
     flag |= (1 << type);
   else
-    flag &= ~(1 << kReadableFlag);
+    flag &= ~(1 << type);
 }
 
 size_t Basic::write(std::string_view str) {
-- 
2.43.0


From 77d49412441f9efa34b55d56ba7a4f43a63b1c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:39 +0000
Subject: [PATCH 020/158] fix: an empty string written to a packet must not
 shift the values after it

The length prefix was left out although reading expects it. Also give a new
packet a defined id and do not take the address in an empty vector.
---
 framework/core/include/plain/net/packet/basic.h | 2 +-
 framework/core/src/net/packet/basic.cc          | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/framework/core/include/plain/net/packet/basic.h b/framework/core/include/plain/net/packet/basic.h
index a392596..3cae40f 100644
--- a/framework/core/include/plain/net/packet/basic.h
+++ b/framework/core/include/plain/net/packet/basic.h
@@ -65,7 +65,7 @@ class PLAIN_API Basic {
   }
 
   Basic &operator<<(const std::vector<uint8_t> &data) {
-    auto p = reinterpret_cast<const std::byte *>(&(data[0]));
+    auto p = reinterpret_cast<const std::byte *>(data.data());
     write(p, data.size());
     return *this;
   }
diff --git a/framework/core/src/net/packet/basic.cc b/framework/core/src/net/packet/basic.cc
index 04f77bd..33a0a92 100644
--- a/framework/core/src/net/packet/basic.cc
+++ b/framework/core/src/net/packet/basic.cc
@@ -11,7 +11,7 @@ enum {
 };
 
 struct Basic::Impl {
-  id_t id;
+  id_t id{0};
   bytes_t data;
   size_t offset{0};
   uint8_t flag{0};
@@ -32,7 +32,6 @@ void Basic::Impl::set_flag(bool _flag, uint32_t type) noexcept {
 
 size_t Basic::write(std::string_view str) {
   if (!impl_->have_flag(kWriteableFlag)) return 0;
-  if (str.size() == 0) return 0;
   const auto *buffer = reinterpret_cast<const std::byte *>(str.data());
   auto size = str.size();
   *this << static_cast<uint32_t>(size);
-- 
2.43.0


From 590c18fee1af6b3eac7958836673b1b5e541c0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:39 +0000
Subject: [PATCH 021/158] fix: the line decoder must honour the packet length
 limit

It peeked into reserved memory outside the string, up to a capacity that may
exceed the limit, so an overlong line was neither accepted nor refused.
---
 framework/core/src/net/stream/codec.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/stream/codec.cc b/framework/core/src/net/stream/codec.cc
index dae238f..8df941e 100644
--- a/framework/core/src/net/stream/codec.cc
+++ b/framework/core/src/net/stream/codec.cc
@@ -91,8 +91,9 @@ error_or_t<std::shared_ptr<packet::Basic>>
 line_decode(stream::Basic *input, const packet::limit_t &packet_limit) {
   if (!input) return Error{ErrorCode::RunTime};
   bytes_t bytes;
-  bytes.reserve(packet_limit.max_length);
-  auto readed = input->peek(bytes.data(), bytes.capacity());
+  bytes.resize(
+    std::min<size_t>(packet_limit.max_length, input->size()));
+  auto readed = input->peek(bytes.data(), bytes.size());
   if (readed == 0) return ErrorCode{ErrorCode::NetPacketNeedRecv};
   std::string_view str{reinterpret_cast<char *>(bytes.data()), readed};
   auto pos = str.find('\n');
-- 
2.43.0


From 4d37ba426033d26ad8b594c805394a081edaad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:19 +0000
Subject: [PATCH 022/158] fix: an rpc packet decoded from a line must not keep
 the end mark in its data

---
 framework/core/src/net/stream/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/stream/codec.cc b/framework/core/src/net/stream/codec.cc
index 8df941e..7b6ee96 100644
--- a/framework/core/src/net/stream/codec.cc
+++ b/framework/core/src/net/stream/codec.cc
@@ -127,7 +127,7 @@ line_decode(stream::Basic *input, const packet::limit_t &packet_limit) {
   if (pos > 0) {
     p->set_writeable(true);
     if (p->is_call_request() || p->is_call_response() || p->is_call_notify()) { // Rpc
-      p->write(bytes.data() + 2, pos - 2);
+      p->write(bytes.data() + 2, pos - 4); // Without the marks.
     } else {
       p->write(bytes.data(), pos);
     }
-- 
2.43.0


From 9838cd1e9c4cb00fefc78326e2c87f06b5fe93d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:37 +0000
Subject: [PATCH 023/158] fix: a connection must not miss input or the end of
 it

The input flag was cleared after looking for available bytes, so an event in
between was lost, and an end of stream that came along with data was never
read as the edge triggered poll does not report it again.
---
 framework/core/src/net/connection/basic.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index a189b57..982af82 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -94,26 +94,22 @@ Basic::Impl::~Impl() = default;
 
 bool Basic::Impl::process_input(Basic *conn) noexcept {
   if (!has_work_flag(WorkFlag::Input)) return true;
-  scoped_executor_t check_flag([this]{
-    if (socket->avail() == 0)
-      set_work_flag(WorkFlag::Input, false);
-  });
   assert(conn);
   if (!socket->valid()) return false;
+  // Clear the flag before reading, so an event while reading is not lost.
+  set_work_flag(WorkFlag::Input, false);
   auto r = istream->pull();
   if (r < 0) {
     LOG_ERROR << get_name(conn) << " pull failed: " << r;
     return false;
   }
+  // No more event comes for what is left(or the end) before it would block.
+  if (r > 0) set_work_flag(WorkFlag::Input, true);
   auto m = manager.lock();
   if (m) {
     m->increase_recv_size(r);
   }
   set_work_flag(WorkFlag::Command, true);
-  /*
-  if (socket->avail() == 0)
-    set_work_flag(WorkFlag::Input, false);
-  */
   return true;
 }
 
-- 
2.43.0


From 378c55cd10f82df8818e6954a6acd203aaae7152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:37 +0000
Subject: [PATCH 024/158] fix: a packet sent while the output is flushed must
 not get stuck

The output flag was cleared after the lock was released, also when a packet
had been written in between, which then stayed in the buffer.
---
 framework/core/src/net/connection/basic.cc | 24 ++++++++++++----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 982af82..8ecd189 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -117,20 +117,22 @@ bool Basic::Impl::process_output(Basic *conn) noexcept {
   if (!has_work_flag(WorkFlag::Output)) return true;
   assert(conn);
   if (!socket->valid()) return false;
+  int32_t r{0};
   {
     std::unique_lock<std::mutex> lock{mutex};
-    auto r = ostream->push();
-    if (r < 0) {
-      LOG_ERROR << get_name(conn) << " push failed: " << r;
-      return false;
-    }
-    auto m = manager.lock();
-    if (r > 0 && m) {
-      m->increase_send_size(r);
-    }
+    r = ostream->push();
+    // With the lock, or the flag of a packet written just now is cleared.
+    if (r >= 0 && ostream->size() == 0)
+      work_flags &= ~(0x1 << std::to_underlying(WorkFlag::Output));
+  }
+  if (r < 0) {
+    LOG_ERROR << get_name(conn) << " push failed: " << r;
+    return false;
+  }
+  auto m = manager.lock();
+  if (r > 0 && m) {
+    m->increase_send_size(r);
   }
-  if (ostream->size() == 0)
-    set_work_flag(WorkFlag::Output, false);
   return true;
 }
 
-- 
2.43.0


From 42bd05e7539c1a206c9f980d8ba92f47c3d88f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:37 +0000
Subject: [PATCH 025/158] fix: packets received before the peer closed must be
 handled

Only a limited number of packets is handled at once, the rest was dropped
when the end of the stream was read first.
---
 framework/core/src/net/connection/basic.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 8ecd189..3e9773e 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -227,7 +227,13 @@ bool Basic::Impl::process_exception() noexcept {
 
 bool Basic::Impl::work(Basic *conn) noexcept {
   if (!process_exception()) return false;
-  if (!process_input(conn)) return false;
+  if (!process_input(conn)) {
+    // What has been received before is still to handle.
+    while (has_work_flag(WorkFlag::Command)) {
+      if (!process_command(conn)) break;
+    }
+    return false;
+  }
   if (!process_output(conn)) return false;
   if (!process_command(conn)) return false;
   return true;
-- 
2.43.0


From d0ea9597bbe9e2302d1b2340187a16396953b149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:37 +0000
Subject: [PATCH 026/158] fix: a connection whose data is cut inside packet
 heads must not be dropped

The count of incomplete heads was not reset by packets decoded before one in
the same turn, nor when the connection object is used again.
---
 framework/core/src/net/connection/basic.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 3e9773e..2ec344a 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -202,6 +202,7 @@ bool Basic::Impl::process_command(Basic *conn) noexcept {
     }
     auto p = std::get_if<std::shared_ptr<packet::Basic>>(&r);
     if (!p) return false; // impossible.
+    error_times = 0;
     // Handle packet.
     if ((*p)->is_call_request() || (*p)->is_call_notify()) {
       if (!handle_rpc_request(conn, *p)) return false;
@@ -216,7 +217,6 @@ bool Basic::Impl::process_command(Basic *conn) noexcept {
     }
     if (istream->size() == 0) break;
   }
-  error_times = 0;
   return true;
 }
 
@@ -414,6 +414,7 @@ bool Basic::init() noexcept {
   if (!impl_->socket->close()) return false;
   impl_->working.store(false, std::memory_order_relaxed);
   impl_->work_flags = 0;
+  impl_->error_times = 0;
   impl_->istream->clear();
   impl_->ostream->clear();
   impl_->callings.clear();
-- 
2.43.0


From c1170cb78d76ea288593e0bd9c413eef73e90afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:10 +0000
Subject: [PATCH 027/158] fix: a connection with a socket error must be
 removed, once it is safe

The error is cleared by the first query: a queued work that saw it returned
without removing the connection, which then stayed forever. The epoll thread
removed it while the executor may be working on the same connection.
---
 framework/core/src/net/connection/epoll.cc   | 7 ++-----
 framework/core/src/net/connection/manager.cc | 3 ++-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/net/connection/epoll.cc b/framework/core/src/net/connection/epoll.cc
index 7db956a..97c291f 100644
--- a/framework/core/src/net/connection/epoll.cc
+++ b/framework/core/src/net/connection/epoll.cc
@@ -228,11 +228,8 @@ void Epoll::handle_input() noexcept {
         remove(conn_id);
         continue;
       }
-      if (conn->socket()->error()) {
-        LOG_ERROR << setting_.name << " socket error: " << conn_id;
-        remove(conn_id);
-        continue;
-      }
+      // A socket error is found by the read, in the executor as the other
+      // connection works.
       conn->enqueue_work(WorkFlag::Input);
     }
   }
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index dbc5c98..7b66962 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -171,7 +171,8 @@ void Manager::Impl::work(
       }
     });
     if (!conn) return;
-    if (!conn->valid()) return;
+    // A socket with an error is still to remove(work will fail).
+    if (conn->socket()->id() == socket::kInvalidId) return;
     r = conn->work();
   }
   if (!r) {
-- 
2.43.0


From fe68d596ef79a3e3cace5a8c64f97682ac62cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:10 +0000
Subject: [PATCH 028/158] fix: removing a connection twice must not report it
 or count it twice

---
 framework/core/src/net/connection/manager.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 7b66962..ea7e08a 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -385,9 +385,10 @@ void Manager::remove(
   connection::id_t conn_id, bool no_event, bool sock) noexcept {
   std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
   assert(conn_id != connection::kInvalidId);
-  if (conn_id <= 0 || conn_id > impl_->connection_info.max_id)
-    return;
-  auto &conn = impl_->connection_info.list[conn_id - 1];
+  if (!impl_->connection_info.ids->contains(conn_id))
+    return; // Removed already.
+  // Not a reference, a callback may change the list.
+  auto conn = impl_->connection_info.list[conn_id - 1];
   if (conn) {
     if (!no_event) {
       conn->on_disconnect();
-- 
2.43.0


From 3470401dddd7646247244667b09b8cd72d135b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:10 +0000
Subject: [PATCH 029/158] fix: busy connections must not keep the waiting ones
 from working

A connection that still had work after its turn took the free place at once,
so as many peers that do not read as there are places stopped all others.
---
 framework/core/src/net/connection/manager.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index ea7e08a..cc188cb 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -589,22 +589,20 @@ uint64_t Manager::recv_size() const noexcept {
 void Manager::enqueue(connection::id_t id) noexcept {
   std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
   if (!running()) return;
+  // In turn, or connections which are never idle starve the waiting ones.
+  if (id != connection::kInvalidId) impl_->push_work_id(id);
   auto working_conn_count =
     impl_->working_conn_count.load(std::memory_order_acquire);
   if (impl_->working_conn_max_count <= 0 ||
       working_conn_count < static_cast<uint32_t>(
         impl_->working_conn_max_count)) {
-    if (id == connection::kInvalidId) {
-      id = impl_->pop_work_id();
-    }
+    id = impl_->pop_work_id();
     if (id == connection::kInvalidId) return;
 		std::atomic_signal_fence(std::memory_order_release);
     impl_->working_conn_count.fetch_add(1, std::memory_order_release);
     impl_->executor->enqueue([m = shared_from_this(), id]() {
       Manager::Impl::work(m, id);
     });
-  } else if (id != connection::kInvalidId) {
-    impl_->push_work_id(id);
   }
 }
 
-- 
2.43.0


From a204ea32b318886bfdf272e718e06323898f09b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:10 +0000
Subject: [PATCH 030/158] fix: a net manager must not miss a wakeup or stop
 under a running enqueue

The worker could go to sleep right after a connection was added or a stop was
requested, and a packet sent while stopping could reach the executor after its
shutdown, which ends the process as enqueue is noexcept.
---
 framework/core/src/net/connection/manager.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index cc188cb..164913b 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -145,6 +145,7 @@ bool Manager::Impl::wait_work(std::shared_ptr<Manager> manager) noexcept {
         manager->impl_->connection_info.size > 0 || !manager->running();
     });
   }
+  lock.unlock(); // The works wait long.
   if (!manager->running() || !manager->work()) return false;
   // std::this_thread::sleep_for(1ms); // change to executor thread work.
   return true;
@@ -261,15 +262,21 @@ bool Manager::start() {
 
 void Manager::stop() {
   // std::cout << "stop: " << this << std::endl;
-  auto running = impl_->running.exchange(false, std::memory_order_relaxed);
-  if (!running) return;
+  std::vector<std::shared_ptr<Basic>> conns;
+  {
+    // No enqueue to the executor can be under way after this.
+    std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
+    if (!impl_->running.exchange(false, std::memory_order_relaxed)) return;
+    conns = impl_->connection_info.list;
+  }
   if (setting_.name != "console") // console is kernel owner
     ENGINE->remove_net(setting_.name);
   off();
-  for (auto conn : impl_->connection_info.list) {
+  for (auto &conn : conns) {
     if (conn && conn->valid()) conn->shutdown();
   }
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
+  std::unique_lock<std::mutex>{impl_->wait_mutex}.unlock();
   impl_->cv.notify_one(); // Just one for wait work.
 #endif
   send_ctrl_cmd("k"); // Send stop.
@@ -364,6 +371,8 @@ std::shared_ptr<plain::net::connection::Basic> Manager::new_conn() noexcept {
   impl_->connection_info.ids->emplace(id);
 
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
+  // Not between the check and the wait of the worker.
+  std::unique_lock<std::mutex>{impl_->wait_mutex}.unlock();
   impl_->cv.notify_one(); // Just one for wait work.
 #endif
   return r;
-- 
2.43.0


From 33e065e10a634ac1b095cb66af63f13ae2e28528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:59 +0000
Subject: [PATCH 031/158] fix: a net manager must not end its work on an
 interrupted or outdated wait

A signal, or with select a connection removed by the executor just before the
call, made the wait fail and the manager stop serving all its connections.
---
 framework/core/src/net/connection/epoll.cc  |  1 +
 framework/core/src/net/connection/select.cc | 21 +++++++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/net/connection/epoll.cc b/framework/core/src/net/connection/epoll.cc
index 97c291f..ae1cba6 100644
--- a/framework/core/src/net/connection/epoll.cc
+++ b/framework/core/src/net/connection/epoll.cc
@@ -153,6 +153,7 @@ bool Epoll::prepare() noexcept {
 bool Epoll::work() noexcept {
 #ifdef PLAIN_EPOLL_ENABLE
   poll_wait(impl_->data, -1);
+  if (impl_->data.result_event_count < 0 && errno == EINTR) return true;
   if (impl_->data.result_event_count < 0) {
     LOG_ERROR << "error: " << impl_->data.result_event_count;
     return false;
diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 1e133f4..756a1c6 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -53,10 +53,15 @@ struct Select::Impl {
 };
 
 void Select::Impl::select() noexcept {
-  if (max_fd == socket::kInvalidId) return;
-  read_fds.use = read_fds.full;
-  // write_fds.use = write_fds.full;
-  except_fds.use = except_fds.full;
+  socket::id_t max_fd{socket::kInvalidId};
+  {
+    std::unique_lock lock{mutex};
+    max_fd = this->max_fd;
+    if (max_fd == socket::kInvalidId) return;
+    read_fds.use = read_fds.full;
+    // write_fds.use = write_fds.full;
+    except_fds.use = except_fds.full;
+  }
   if (select_timeout >= 0) {
     select_result = socket::select(
       max_fd + 1, &read_fds.use, nullptr, &except_fds.use, &timeout);
@@ -93,6 +98,13 @@ bool Select::prepare() noexcept {
 bool Select::work() noexcept {
   impl_->select();
   bool r{true};
+#if OS_UNIX || OS_MAC
+  // Interrupted, or a connection was removed(closed) since the set was made.
+  if (impl_->select_result < 0 && (errno == EINTR || errno == EBADF)) {
+    std::this_thread::yield();
+    return true;
+  }
+#endif
   if (impl_->select_result < 0) {
     r = false;
     LOG_ERROR << setting_.name << " error: " << impl_->select_result;
@@ -121,6 +133,7 @@ void Select::handle_io() noexcept {
   try {
     foreach([this, listen_fd = listen_fd_](std::shared_ptr<Basic> conn){
       auto id = conn->socket()->id();
+      if (id == socket::kInvalidId) return; // Removed meanwhile.
       if (FD_ISSET(id, &impl_->except_fds.use)) {
         LOG_ERROR << setting_.name << " connection has except: " << conn->id();
         this->remove(conn->id());
-- 
2.43.0


From 21d8395e270d0eb537e050b7f30a70f85d9ec9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:59 +0000
Subject: [PATCH 032/158] fix: the connection callbacks of all managers share a
 map without a lock

---
 framework/core/src/net/connection/basic.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 2ec344a..67dbc79 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -16,6 +16,7 @@ using plain::net::connection::Basic;
 using plain::net::connection::callable_func;
 
 static std::unordered_map<std::string, callable_func> s_callables;
+static std::mutex s_callables_mutex; // The managers work in their own threads.
 static constexpr size_t kOnceHandlePacketCount{12};
 static constexpr size_t kCantPeekMaxCount{60};
 
@@ -27,9 +28,13 @@ get_callable_key(Basic *p, std::string_view suffix) noexcept {
 
 static void check_callable(Basic *p, std::string_view suffix) noexcept {
   auto key = get_callable_key(p, suffix);
-  auto it = s_callables.find(key);
-  if (it != s_callables.end())
-    it->second(p);
+  callable_func func;
+  {
+    std::unique_lock<std::mutex> lock{s_callables_mutex};
+    auto it = s_callables.find(key);
+    if (it != s_callables.end()) func = it->second;
+  }
+  if (static_cast<bool>(func)) func(p);
 }
 
 struct Basic::Impl {
@@ -420,9 +425,12 @@ bool Basic::init() noexcept {
   impl_->callings.clear();
   impl_->call_index = 0;
   auto connect_call_key = get_callable_key(this, "__connect");
-  s_callables.erase(connect_call_key);
   auto disconnect_call_key = get_callable_key(this, "__disconnect");
-  s_callables.erase(disconnect_call_key);
+  {
+    std::unique_lock<std::mutex> lock{s_callables_mutex};
+    s_callables.erase(connect_call_key);
+    s_callables.erase(disconnect_call_key);
+  }
   // if (!impl_->socket->create()) return false;
   return true;
 }
@@ -503,11 +511,13 @@ void Basic::set_codec(const stream::codec_t &codec) noexcept {
   
 void Basic::set_connect_callback(callable_func func) noexcept {
   auto key = get_callable_key(this, "__connect");
+  std::unique_lock<std::mutex> lock{s_callables_mutex};
   s_callables[key] = func;
 }
   
 void Basic::set_disconnect_callback(callable_func func) noexcept {
   auto key = get_callable_key(this, "__disconnect");
+  std::unique_lock<std::mutex> lock{s_callables_mutex};
   s_callables[key] = func;
 }
   
-- 
2.43.0


From 1cf4079edef8264dbe85809b53a26be9aa6a9ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:33 +0000
Subject: [PATCH 033/158] fix: the result of an rpc call must own the data it
 reads

It pointed into the response packet, which is gone when the caller gets it.
---
 framework/core/include/plain/net/rpc/unpacker.h | 4 ++++
 framework/core/src/net/connection/basic.cc      | 2 +-
 framework/core/src/net/rpc/unpacker.cc          | 6 ++++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index b77eb15..a9a3dab 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -25,6 +25,9 @@ class PLAIN_API Unpacker {
  public:
   Unpacker();
   Unpacker(const uint8_t *data, size_t size);
+  // The owner of the data is kept as long as the unpacker.
+  Unpacker(
+    const uint8_t *data, size_t size, std::shared_ptr<const void> owner);
   ~Unpacker();
 
  public:
@@ -231,6 +234,7 @@ class PLAIN_API Unpacker {
  private:
   const uint8_t *data_{nullptr};
   const uint8_t *data_end_{nullptr};
+  std::shared_ptr<const void> owner_;
 
 };
 
diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 67dbc79..dd819ce 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -380,7 +380,7 @@ bool Basic::Impl::handle_rpc_response(
     auto data = reinterpret_cast<const uint8_t *>(
       packet->data().data() + packet->offset());
     auto size = packet->data().size() - packet->offset();
-    std::get<1>(call).set_value(rpc::Unpacker(data, size));
+    std::get<1>(call).set_value(rpc::Unpacker(data, size, packet));
   } catch(...) {
     std::get<1>(call).set_exception(std::current_exception());
   }
diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index 9d12cd4..db71bbf 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -11,6 +11,12 @@ Unpacker::Unpacker(const uint8_t *data, size_t size) :
 
 }
 
+Unpacker::Unpacker(
+  const uint8_t *data, size_t size, std::shared_ptr<const void> owner) :
+  data_{data}, data_end_{data + size}, owner_{std::move(owner)} {
+
+}
+
 Unpacker::~Unpacker() = default;
 
 void Unpacker::unpack(int8_t &value) noexcept {
-- 
2.43.0


From 4acdd9e11b7929bd87cb2719ac57798685c088dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:33 +0000
Subject: [PATCH 034/158] fix: an rpc call of a function without a result must
 not crash the callee

---
 framework/core/src/net/connection/basic.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index dd819ce..04a4057 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -344,7 +344,8 @@ bool Basic::Impl::handle_rpc_request(
       (*p) << error;
       if (!e) {
         auto temp = std::get_if<std::shared_ptr<rpc::Packer>>(&r);
-        if (temp) (*p) << (*temp)->vector();
+        // No packer if the function has no result.
+        if (temp && *temp) (*p) << (*temp)->vector();
       }
       p->set_writeable(false);
       conn->send(p);
-- 
2.43.0


From e51b455b28d734fbbb4e3c9471d0436785503986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:33 +0000
Subject: [PATCH 035/158] fix: a removed connection with a socket error must
 leave the poll and be closed

---
 framework/core/src/net/connection/basic.cc   | 1 -
 framework/core/src/net/connection/manager.cc | 4 +++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 04a4057..0348ac5 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -447,7 +447,6 @@ bool Basic::shutdown(int32_t how) noexcept {
 }
   
 bool Basic::close() noexcept {
-  if (!impl_->socket->valid()) return true;
   return impl_->socket->close();
 }
   
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 164913b..cf3281b 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -404,7 +404,9 @@ void Manager::remove(
       if (static_cast<bool>(impl_->disconnect_callback))
         impl_->disconnect_callback(conn.get());
     }
-    if (sock && conn->socket()->valid()) this->sock_remove(conn->socket()->id());
+    // Also if it has an error(not valid).
+    if (sock && conn->socket()->id() != socket::kInvalidId)
+      this->sock_remove(conn->socket()->id());
     conn->shutdown();
     conn->close();
     if (conn->is_keep_alive()) return; // The connector will keep alive.
-- 
2.43.0


From 4e8a67a0590b27047239da12697e95f3abc5f40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:33 +0000
Subject: [PATCH 036/158] fix: rpc calls must end when their connection does,
 and only once

The table of calls was changed by callers and read by the executor without a
lock, a response received twice ended the process, and calls on a connection
that is or gets closed were never answered.
---
 framework/core/src/net/connection/basic.cc | 35 ++++++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 0348ac5..5282996 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -58,6 +58,7 @@ struct Basic::Impl {
   using call_t = std::pair<std::string, std::promise<rpc::Unpacker>>;
   std::atomic_uint32_t call_index{0};
   std::unordered_map<uint32_t, call_t> callings;
+  std::mutex call_mutex; // For the callings.
   std::optional<int64_t> timeout{std::nullopt};
 
   bool process_input(Basic *conn) noexcept;
@@ -75,6 +76,7 @@ struct Basic::Impl {
   bool handle_rpc_request(Basic *conn, std::shared_ptr<packet::Basic> packet);
   bool handle_rpc_response(Basic *conn, std::shared_ptr<packet::Basic> packet);
   bool write(const std::shared_ptr<packet::Basic> &packet) noexcept;
+  void clear_callings() noexcept;
 };
 
 Basic::Impl::Impl() :
@@ -368,12 +370,15 @@ bool Basic::Impl::handle_rpc_response(
   (*packet) >> index;
   if (0 == index) return true; // No call(notify?).
   (*packet) >> error;
+  std::unique_lock<std::mutex> lock{call_mutex};
   auto it = callings.find(index);
   if (it == callings.end()) {
     LOG_WARN << "rpc response no calling: " << index << " error: " << error;
     return false;
   }
-  auto &call = it->second;
+  auto call = std::move(it->second);
+  callings.erase(it);
+  lock.unlock();
   try {
     if (error != std::to_underlying(ErrorCode::None)) {
       throw std::logic_error("error: " + std::to_string(error));
@@ -401,6 +406,13 @@ bool Basic::Impl::write(const std::shared_ptr<packet::Basic> &packet) noexcept {
   return r;
 }
 
+// The calls without a response yet fail(broken promise).
+void Basic::Impl::clear_callings() noexcept {
+  decltype(callings) temp;
+  std::unique_lock<std::mutex> lock{call_mutex};
+  temp.swap(callings);
+}
+
 Basic::Basic() : impl_{std::make_unique<Impl>()} {
 
 }
@@ -423,7 +435,7 @@ bool Basic::init() noexcept {
   impl_->error_times = 0;
   impl_->istream->clear();
   impl_->ostream->clear();
-  impl_->callings.clear();
+  impl_->clear_callings();
   impl_->call_index = 0;
   auto connect_call_key = get_callable_key(this, "__connect");
   auto disconnect_call_key = get_callable_key(this, "__disconnect");
@@ -447,7 +459,9 @@ bool Basic::shutdown(int32_t how) noexcept {
 }
   
 bool Basic::close() noexcept {
-  return impl_->socket->close();
+  auto r = impl_->socket->close();
+  impl_->clear_callings();
+  return r;
 }
   
 bool Basic::valid() const noexcept {
@@ -560,14 +574,23 @@ bool Basic::send_call(
   const std::shared_ptr<packet::Basic> &packet,
   uint32_t index, const std::string &func_name,
   std::shared_ptr<std::promise<rpc::Unpacker>> promise) {
-  std::unique_lock<std::mutex> lock{impl_->mutex};
   packet->set_call_request(true);
-  auto r = impl_->write(packet);
-  if (r && static_cast<bool>(promise)) {
+  if (static_cast<bool>(promise)) {
+    std::unique_lock<std::mutex> call_lock{impl_->call_mutex};
+    if (impl_->socket->id() == socket::kInvalidId) return false; // Closed.
     impl_->callings.emplace(
       index, std::make_pair(func_name, std::move(*promise)));
   }
+  std::unique_lock<std::mutex> lock{impl_->mutex};
+  auto r = impl_->write(packet);
   lock.unlock();
+  if (!r && static_cast<bool>(promise)) {
+    std::unique_lock<std::mutex> call_lock{impl_->call_mutex};
+    auto it = impl_->callings.find(index);
+    if (it == impl_->callings.end()) return true; // Failed with the closing.
+    *promise = std::move(std::get<1>(it->second));
+    impl_->callings.erase(it);
+  }
   if (r) enqueue_work(WorkFlag::Output);
   // std::cout << "send_call: " << name() << std::endl;
   return r;
-- 
2.43.0


From 5fb7ddd1b8b8447ef3727adf54ad7b5a431c8062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:33 +0000
Subject: [PATCH 037/158] fix: the name of a connection must be its own and its
 last one

---
 framework/core/src/net/connection/manager.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index cf3281b..eea9368 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -369,6 +369,7 @@ std::shared_ptr<plain::net::connection::Basic> Manager::new_conn() noexcept {
       new std::set<connection::id_t>(*impl_->connection_info.ids));
   }
   impl_->connection_info.ids->emplace(id);
+  impl_->conn_names.erase(id); // Of the connection that had it before.
 
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
   // Not between the check and the wait of the worker.
@@ -622,7 +623,7 @@ void Manager::set_name(
   auto conn = get_conn(conn_id);
   if (!conn) return;
   std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
-  impl_->conn_names.emplace(conn_id, name.data());
+  impl_->conn_names.insert_or_assign(conn_id, std::string{name});
 }
   
 std::string Manager::get_name(connection::id_t conn_id) const noexcept {
-- 
2.43.0


From adbccf9fcb990a64c2810dd152dcd8475450f052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:38 +0000
Subject: [PATCH 038/158] verif: schedule points of the net connections

---
 framework/core/src/net/connection/basic.cc   | 7 +++++++
 framework/core/src/net/connection/manager.cc | 4 ++++
 framework/core/src/net/connection/select.cc  | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 5282996..233b6ab 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -1,6 +1,7 @@
 #include "plain/net/connection/basic.h"
 #include <map>
 #include "plain/basic/utility.h"
+#include "plain/basic/verif.h"
 #include "plain/basic/logger.h"
 #include "plain/concurrency/executor/basic.h"
 #include "plain/net/detail/coroutine.h"
@@ -106,6 +107,7 @@ bool Basic::Impl::process_input(Basic *conn) noexcept {
   // Clear the flag before reading, so an event while reading is not lost.
   set_work_flag(WorkFlag::Input, false);
   auto r = istream->pull();
+  PLAIN_VERIF_POINT(43);
   if (r < 0) {
     LOG_ERROR << get_name(conn) << " pull failed: " << r;
     return false;
@@ -283,6 +285,7 @@ bool Basic::Impl::has_work_flag(WorkFlag flag) const noexcept {
 }
   
 void Basic::Impl::set_work_flag(WorkFlag flag, bool enable) noexcept {
+  PLAIN_VERIF_POINT(44);
   std::unique_lock<std::mutex> lock{mutex};
   if (enable)
     work_flags |= (0x1 << std::to_underlying(flag));
@@ -379,6 +382,7 @@ bool Basic::Impl::handle_rpc_response(
   auto call = std::move(it->second);
   callings.erase(it);
   lock.unlock();
+  PLAIN_VERIF_POINT(51);
   try {
     if (error != std::to_underlying(ErrorCode::None)) {
       throw std::logic_error("error: " + std::to_string(error));
@@ -481,6 +485,7 @@ void Basic::enqueue_work(WorkFlag flag) noexcept {
       impl_->process_output_await(this);
   } else {
     if (impl_->exchange_work_flag(flag, true)) return;
+    PLAIN_VERIF_POINT(45);
     // impl_->enqueue_work();
     auto m = impl_->manager.lock();
     if (m) m->enqueue(impl_->id); // now to banlance work
@@ -547,6 +552,7 @@ bool Basic::send(const std::shared_ptr<packet::Basic> &packet) noexcept {
   std::unique_lock<std::mutex> lock{impl_->mutex};
   auto r = impl_->write(packet);
   lock.unlock();
+  PLAIN_VERIF_POINT(49);
   if (r) enqueue_work(WorkFlag::Output);
   return r;
 }
@@ -581,6 +587,7 @@ bool Basic::send_call(
     impl_->callings.emplace(
       index, std::make_pair(func_name, std::move(*promise)));
   }
+  PLAIN_VERIF_POINT(52);
   std::unique_lock<std::mutex> lock{impl_->mutex};
   auto r = impl_->write(packet);
   lock.unlock();
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index eea9368..cd50088 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -5,6 +5,7 @@
 #include <map>
 #include <latch>
 #include "plain/basic/utility.h"
+#include "plain/basic/verif.h"
 #include "plain/concurrency/executor/basic.h"
 #include "plain/concurrency/executor/worker_thread.h"
 #include "plain/engine/kernel.h"
@@ -141,6 +142,7 @@ bool Manager::Impl::wait_work(std::shared_ptr<Manager> manager) noexcept {
   if (manager->listen_fd_ == socket::kInvalidId && 
     manager->impl_->connection_info.size == 0) {
     manager->impl_->cv.wait(lock, [manager] {
+      PLAIN_VERIF_POINT(46);
       return manager->listen_fd_ != socket::kInvalidId ||
         manager->impl_->connection_info.size > 0 || !manager->running();
     });
@@ -175,6 +177,7 @@ void Manager::Impl::work(
     // A socket with an error is still to remove(work will fail).
     if (conn->socket()->id() == socket::kInvalidId) return;
     r = conn->work();
+    PLAIN_VERIF_POINT(47);
   }
   if (!r) {
     manager->remove(conn);
@@ -406,6 +409,7 @@ void Manager::remove(
         impl_->disconnect_callback(conn.get());
     }
     // Also if it has an error(not valid).
+    PLAIN_VERIF_POINT(50);
     if (sock && conn->socket()->id() != socket::kInvalidId)
       this->sock_remove(conn->socket()->id());
     conn->shutdown();
diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 756a1c6..115a9db 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -3,6 +3,7 @@
 #include <set>
 #include "plain/basic/logger.h"
 #include "plain/basic/utility.h"
+#include "plain/basic/verif.h"
 #include "plain/file/api.h"
 #include "plain/concurrency/executor/basic.h"
 #include "plain/net/connection/basic.h"
@@ -62,6 +63,7 @@ void Select::Impl::select() noexcept {
     // write_fds.use = write_fds.full;
     except_fds.use = except_fds.full;
   }
+  PLAIN_VERIF_POINT(48);
   if (select_timeout >= 0) {
     select_result = socket::select(
       max_fd + 1, &read_fds.use, nullptr, &except_fds.use, &timeout);
-- 
2.43.0


From e63ab7a1856594a98571056f6c7cbbcad3350e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:29 +0000
Subject: [PATCH 039/158] fix: a connection used again must not keep the
 dispatcher, codec and call timeout of the one before

---
 framework/core/src/net/connection/basic.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 233b6ab..e06d741 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -441,6 +441,10 @@ bool Basic::init() noexcept {
   impl_->ostream->clear();
   impl_->clear_callings();
   impl_->call_index = 0;
+  // Not those of the connection that had it before.
+  impl_->codec = {};
+  impl_->dispatcher = {};
+  clear_call_timeout();
   auto connect_call_key = get_callable_key(this, "__connect");
   auto disconnect_call_key = get_callable_key(this, "__disconnect");
   {
-- 
2.43.0


From 6d911df8d5cac5f1cbddeb69b9047ffcfbce6ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:53 +0000
Subject: [PATCH 040/158] fix: a connection with a socket error and works to do
 is not idle

---
 framework/core/src/net/connection/basic.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index e06d741..1eea0ed 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -458,7 +458,8 @@ bool Basic::init() noexcept {
 
 bool Basic::idle() const noexcept {
   std::unique_lock<std::mutex> lock{impl_->mutex};
-  return !impl_->socket->valid() || (impl_->work_flags == 0);
+  // A socket with an error has works until it is removed.
+  return impl_->socket->id() == socket::kInvalidId || impl_->work_flags == 0;
 }
   
 bool Basic::shutdown(int32_t how) noexcept {
-- 
2.43.0


From e794662a367a2f0fdbbaa71fe9ee25cb5dd9e11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:46 +0000
Subject: [PATCH 041/158] fix: removing a connection must not change the sets
 of a select under way

---
 framework/core/src/net/connection/select.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 115a9db..be0c16c 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -175,12 +175,10 @@ bool Select::sock_remove(socket::id_t sock_id) noexcept {
   std::unique_lock lock{impl_->mutex};
   assert(sock_id != socket::kInvalidId);
   auto id = static_cast<uint32_t>(sock_id);
+  // The used sets belong to the select under way, which may write them now.
   FD_CLR(id, &impl_->read_fds.full);
-  FD_CLR(id, &impl_->read_fds.use);
   FD_CLR(id, &impl_->write_fds.full);
-  FD_CLR(id, &impl_->write_fds.use);
   FD_CLR(id, &impl_->except_fds.full);
-  FD_CLR(id, &impl_->except_fds.use);
   impl_->change_vaild_fd(sock_id, false);
   --impl_->fd_size;
   return true;
-- 
2.43.0


From 2262c841f839d38634ff64b3db859f07cb3499bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:56 +0000
Subject: [PATCH 042/158] fix: a new connection must not be removed for what
 select found of a closed one

---
 framework/core/src/net/connection/select.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index be0c16c..b5c1d35 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -33,6 +33,7 @@ struct Select::Impl {
   int32_t fd_size{0};
   socket::id_t max_fd{socket::kInvalidId};
   std::set<socket::id_t> valid_fds;
+  std::set<socket::id_t> new_fds; // Added since the select under way began.
   std::mutex mutex;
   int32_t select_timeout{10}; // The select timeout(ms).
   int32_t select_result{0};
@@ -62,6 +63,7 @@ void Select::Impl::select() noexcept {
     read_fds.use = read_fds.full;
     // write_fds.use = write_fds.full;
     except_fds.use = except_fds.full;
+    new_fds.clear();
   }
   PLAIN_VERIF_POINT(48);
   if (select_timeout >= 0) {
@@ -136,6 +138,11 @@ void Select::handle_io() noexcept {
     foreach([this, listen_fd = listen_fd_](std::shared_ptr<Basic> conn){
       auto id = conn->socket()->id();
       if (id == socket::kInvalidId) return; // Removed meanwhile.
+      {
+        // What is found then is of a closed socket which had the same id.
+        std::unique_lock lock{impl_->mutex};
+        if (impl_->new_fds.contains(id)) return;
+      }
       if (FD_ISSET(id, &impl_->except_fds.use)) {
         LOG_ERROR << setting_.name << " connection has except: " << conn->id();
         this->remove(conn->id());
@@ -167,6 +174,7 @@ bool Select::sock_add(
   FD_SET(sock_id, &impl_->write_fds.full);
   FD_SET(sock_id, &impl_->except_fds.full);
   impl_->change_vaild_fd(sock_id, true);
+  impl_->new_fds.emplace(sock_id);
   ++impl_->fd_size;
   return true;
 }
-- 
2.43.0


From 3973a9d4f2b4b5463bf22a191f6fd9a3b3820690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:20 +0000
Subject: [PATCH 043/158] fix: a socket error found by a read must end the
 connection

---
 framework/core/src/net/stream/basic.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/stream/basic.cc b/framework/core/src/net/stream/basic.cc
index a3e2f75..fd78e3d 100644
--- a/framework/core/src/net/stream/basic.cc
+++ b/framework/core/src/net/stream/basic.cc
@@ -30,7 +30,9 @@ Basic::~Basic() = default;
 
 int32_t Basic::pull() noexcept {
   auto socket = impl_->weak_socket.lock();
-  if (!socket || !socket->valid()) return 0;
+  // A socket error must not look like nothing to read, the recv returns it.
+  if (!socket || socket->id() == plain::net::socket::kInvalidId)
+    return 0;
   auto socket_avail = socket->avail();
   if (socket_avail == 0) socket_avail = 1;
   // auto once_max = impl_->buffer.write_avail() + impl_->buffer.size();
-- 
2.43.0


From 4565b0e4ab919be77349ceb81118414a0b0e7e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:29 +0000
Subject: [PATCH 044/158] fix: a refused connect must not pass for a connection
 when its error was read elsewhere

---
 framework/core/src/net/socket/api.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/socket/api.cc b/framework/core/src/net/socket/api.cc
index 2e9ef7b..6a42f37 100644
--- a/framework/core/src/net/socket/api.cc
+++ b/framework/core/src/net/socket/api.cc
@@ -271,7 +271,15 @@ bool connect(
   uint32_t length{static_cast<uint32_t>(sizeof(e))};
   getsockoptb(id, SOL_SOCKET, SO_ERROR, &e, &length);
   r = (e == 0);
-  if (!r) set_error(e);
+  if (!r) {
+    set_error(e);
+    return false;
+  }
+  // The error may have been read(and so cleared) by another check already.
+  auto store = sockaddr_storage{};
+  int32_t store_length{static_cast<int32_t>(sizeof(store))};
+  r = getpeername(
+    id, reinterpret_cast<sockaddr *>(&store), &store_length) != kInvalidId;
   return r;
 }
 
-- 
2.43.0


From 63de7d67ea6df41e49d011eb82f5f86c47424f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:29 +0000
Subject: [PATCH 045/158] fix: works of a removed connection must not reach the
 one which uses it again while connecting

---
 .../core/include/plain/net/connection/basic.h      |  2 ++
 framework/core/src/net/connection/basic.cc         | 14 ++++++++++++++
 framework/core/src/net/connection/manager.cc       |  4 ++++
 framework/core/src/net/connector.cc                |  2 ++
 4 files changed, 22 insertions(+)

diff --git a/framework/core/include/plain/net/connection/basic.h b/framework/core/include/plain/net/connection/basic.h
index 5dfb42a..f58f64f 100644
--- a/framework/core/include/plain/net/connection/basic.h
+++ b/framework/core/include/plain/net/connection/basic.h
@@ -135,6 +135,8 @@ Basic final : noncopyable {
   void set_manager(std::shared_ptr<Manager> manager) noexcept;
   void set_keep_alive(bool flag) const noexcept;
   bool is_keep_alive() const noexcept;
+  void set_ready(bool flag) noexcept; // The socket is connected.
+  bool is_ready() const noexcept;
 
  private:
   bool work() noexcept;
diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 1eea0ed..e124fb4 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -53,6 +53,7 @@ struct Basic::Impl {
   uint8_t work_flags{0};
   std::atomic_bool working{false};
   std::atomic_bool keep_alive{false};
+  std::atomic_bool ready{false};
   mutable std::mutex mutex;
   
   // For rpc calls.
@@ -433,6 +434,7 @@ Basic::~Basic() = default;
 Basic &Basic::operator=(Basic &&object) noexcept = default;
 
 bool Basic::init() noexcept {
+  set_ready(false);
   if (!impl_->socket->close()) return false;
   impl_->working.store(false, std::memory_order_relaxed);
   impl_->work_flags = 0;
@@ -581,6 +583,18 @@ bool Basic::is_keep_alive() const noexcept {
   return impl_->keep_alive.load(std::memory_order_relaxed);
 }
 
+void Basic::set_ready(bool flag) noexcept {
+  std::unique_lock<std::mutex> lock{impl_->mutex};
+  // An input before it is ready was of the connection that had it before.
+  if (flag)
+    impl_->work_flags &= ~(0x1 << std::to_underlying(WorkFlag::Input));
+  impl_->ready.store(flag, std::memory_order_release);
+}
+
+bool Basic::is_ready() const noexcept {
+  return impl_->ready.load(std::memory_order_acquire);
+}
+
 bool Basic::send_call(
   const std::shared_ptr<packet::Basic> &packet,
   uint32_t index, const std::string &func_name,
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index cd50088..252740d 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -176,6 +176,7 @@ void Manager::Impl::work(
     if (!conn) return;
     // A socket with an error is still to remove(work will fail).
     if (conn->socket()->id() == socket::kInvalidId) return;
+    if (!conn->is_ready()) return; // Used again and still connecting.
     r = conn->work();
     PLAIN_VERIF_POINT(47);
   }
@@ -410,6 +411,7 @@ void Manager::remove(
     }
     // Also if it has an error(not valid).
     PLAIN_VERIF_POINT(50);
+    conn->set_ready(false);
     if (sock && conn->socket()->id() != socket::kInvalidId)
       this->sock_remove(conn->socket()->id());
     conn->shutdown();
@@ -496,6 +498,7 @@ std::shared_ptr<plain::net::connection::Basic> Manager::accept() noexcept {
       socket::get_last_error();
     return {};
   }
+  conn->set_ready(true);
   if (!sock_add(conn->socket()->id(), conn->id())) {
     remove(conn, true);
     LOG_ERROR << setting_.name << " sock_add error";
@@ -539,6 +542,7 @@ Manager::accept(socket::id_t sock_id) noexcept {
       socket::get_last_error();
     return {};
   }
+  conn->set_ready(true);
   if (!sock_add(conn->socket()->id(), conn->id())) {
     remove(conn, true);
     LOG_ERROR << setting_.name << " sock_add error";
diff --git a/framework/core/src/net/connector.cc b/framework/core/src/net/connector.cc
index 0a0d3a7..88a89df 100644
--- a/framework/core/src/net/connector.cc
+++ b/framework/core/src/net/connector.cc
@@ -129,6 +129,7 @@ Connector::connect_impl(
     LOG_ERROR << "set_linger(0) failed: " << socket::get_last_error();
     return {};
   }
+  conn->set_ready(true);
   if (!impl_->manager->sock_add(sock->id(), conn->id())) {
     impl_->manager->remove(conn, true, false);
     LOG_ERROR << "sock add failed";
@@ -194,6 +195,7 @@ bool Connector::connect(
     LOG_ERROR << "set_linger(0) failed: " << socket::get_last_error();
     return false;
   }
+  conn->set_ready(true);
   if (!impl_->manager->sock_add(sock->id(), conn->id())) {
     LOG_ERROR << "sock add failed";
     return false;
-- 
2.43.0


From df1458a97b2891b591eaa4204244ab2b6aa1ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:34 +0000
Subject: [PATCH 046/158] fix: lines appended before an async logger is stopped
 must be written

The stop was noticed without looking for lines appended since the last write,
and could be missed for a whole flush interval.
---
 framework/core/src/basic/async_logger.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/basic/async_logger.cc b/framework/core/src/basic/async_logger.cc
index 0e34b14..097ba61 100644
--- a/framework/core/src/basic/async_logger.cc
+++ b/framework/core/src/basic/async_logger.cc
@@ -172,9 +172,12 @@ void AsyncLogger::Impl::start() {
 }
 
 void AsyncLogger::Impl::stop() {
-  running_ = false;
+  {
+    std::unique_lock<std::mutex> auto_lock{mutex_};
+    running_ = false;
+  }
   cond_.notify_one();
-  thread_.join();
+  if (thread_.joinable()) thread_.join();
 }
 
 void AsyncLogger::Impl::append(const std::string_view &log) {
@@ -194,20 +197,21 @@ void AsyncLogger::Impl::append(const std::string_view &log) {
 }
 
 void AsyncLogger::Impl::thread_handle() {
-  assert(true == running_);
   File file(name_, roll_size_, false);
   BufferPtr buffer1{std::make_unique<Buffer>()};
   BufferPtr buffer2{std::make_unique<Buffer>()};
   BufferVector write_buffers;
   write_buffers.reserve(16);
-  while (running_) {
+  bool running{true};
+  while (running) { // The last round writes what was appended before the stop.
     assert(buffer1 && 0 == buffer1->read_avail());
     assert(buffer2 && 0 == buffer2->read_avail());
     {
       std::unique_lock<std::mutex> auto_lock{mutex_};
-      if (buffers_.empty()) {
+      if (running_ && buffers_.empty()) {
         cond_.wait_for(auto_lock, flush_interval_ * 1000ms);
       }
+      running = running_;
       buffers_.emplace_back(std::move(current_buffer_));
       current_buffer_ = std::move(buffer1);
       write_buffers.swap(buffers_);
-- 
2.43.0


From ffc44e284a07228e5e3cb06944e28612b083bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:34 +0000
Subject: [PATCH 047/158] fix: the log directory must be created without
 assertions too

---
 framework/core/src/basic/async_logger.cc | 4 +++-
 framework/core/src/basic/global.cc       | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/basic/async_logger.cc b/framework/core/src/basic/async_logger.cc
index 097ba61..b36de46 100644
--- a/framework/core/src/basic/async_logger.cc
+++ b/framework/core/src/basic/async_logger.cc
@@ -259,7 +259,9 @@ AsyncLogger::AsyncLogger(
   : impl_{std::make_unique<Impl>(name.data(), roll_size, flush_interval)} {
   auto log_directory = GLOBALS["log.directory"].get<std::string>();
   if (!std::filesystem::exists(log_directory)) {
-    assert(std::filesystem::create_directory(log_directory));
+    [[maybe_unused]] auto r =
+      std::filesystem::create_directory(log_directory);
+    assert(r);
   }
 }
 
diff --git a/framework/core/src/basic/global.cc b/framework/core/src/basic/global.cc
index 6d91902..e9bb90b 100644
--- a/framework/core/src/basic/global.cc
+++ b/framework/core/src/basic/global.cc
@@ -39,7 +39,8 @@ void InitGlobal::init() {
   // Logs settings.
   SET("log.print", false);
   auto log_directory = path + "/log";
-  assert(makedir(log_directory.c_str()));
+  [[maybe_unused]] auto r = makedir(log_directory.c_str());
+  assert(r);
   SET("log.directory", log_directory);
 }
 
-- 
2.43.0


From be5a3b1abeecdf55d60155d5c0716136f2dc60e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:34 +0000
Subject: [PATCH 048/158] fix: a log file must roll at a new day, not at every
 check

---
 framework/core/src/basic/async_logger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/basic/async_logger.cc b/framework/core/src/basic/async_logger.cc
index b36de46..fdd5db8 100644
--- a/framework/core/src/basic/async_logger.cc
+++ b/framework/core/src/basic/async_logger.cc
@@ -93,7 +93,7 @@ void File::append_unlocked(const std::string_view &log) {
       count_ = 0;
       auto now = Time::timestamp();
       time_t this_period = now / kRollPerSeconds_ * kRollPerSeconds_;
-      if (this_period) {
+      if (this_period != start_of_period_) {
         roll();
       } else if (now - last_flush_ > flush_interval_) {
         last_flush_ = now;
-- 
2.43.0


From 8d10c23aaa278109c3248e328a15e4a3eac1e9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:09 +0000
Subject: [PATCH 049/158] fix: time formatting must not share a buffer between
 threads

---
 framework/core/src/basic/time.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/basic/time.cc b/framework/core/src/basic/time.cc
index d797f9a..fb60c5e 100644
--- a/framework/core/src/basic/time.cc
+++ b/framework/core/src/basic/time.cc
@@ -4,6 +4,16 @@
 
 using namespace plain;
 
+static std::tm local_time(time_t timestamp) noexcept {
+  std::tm r{};
+#if OS_WIN
+  localtime_s(&r, &timestamp);
+#else
+  localtime_r(&timestamp, &r);
+#endif
+  return r;
+}
+
 Time::Time() :
   s_time_{std::chrono::steady_clock::now()} {
   // do nothing
@@ -29,13 +39,15 @@ std::string Time::format() {
   auto now = std::chrono::system_clock::now();
   auto tm = std::chrono::system_clock::to_time_t(now);
   std::ostringstream os;
-  os << std::put_time(std::localtime(&tm), "%FT%T");
+  auto local = local_time(tm);
+  os << std::put_time(&local, "%FT%T");
   return os.str();
 }
 
 std::string Time::format(time_t timestamp) {
   std::ostringstream os;
-  os << std::put_time(std::localtime(&timestamp), "%FT%T");
+  auto local = local_time(timestamp);
+  os << std::put_time(&local, "%FT%T");
   return os.str();
 }
 
@@ -45,7 +57,8 @@ std::string Time::format(bool show_microseconds) {
   auto value = now_ms.time_since_epoch();
   auto tm = std::chrono::system_clock::to_time_t(now);
   std::ostringstream os;
-  os << std::put_time(std::localtime(&tm), "%FT%T");
+  auto local = local_time(tm);
+  os << std::put_time(&local, "%FT%T");
   if (show_microseconds) {
     os << "." << std::setfill('0') << std::setw(3);
     os << (value % 1000);
-- 
2.43.0


From 3b456501cbc918277f89b6d2668b9aacae32fbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:09 +0000
Subject: [PATCH 050/158] fix: a printed log must not be taken for a format
 string

---
 framework/core/src/basic/logger.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/basic/logger.cc b/framework/core/src/basic/logger.cc
index 647cd2e..87fa2cb 100644
--- a/framework/core/src/basic/logger.cc
+++ b/framework/core/src/basic/logger.cc
@@ -116,13 +116,13 @@ void print_log(LogLevel level, const char *str) {
   switch (level) {
     case LogLevel::Fatal:
     case LogLevel::Error:
-      io_cerr(str);
+      io_cerr("{}", str);
       break;
     case LogLevel::Warn:
-      io_cwarn(str);
+      io_cwarn("{}", str);
       break;
     case LogLevel::Debug:
-      io_cdebug(str);
+      io_cdebug("{}", str);
       break;
     default:
       std::cout << str << std::endl;
-- 
2.43.0


From e5c5630082711a7a7fd00a7d6d488bbed059f2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:09 +0000
Subject: [PATCH 051/158] fix: a log given as a view must end where the view
 does

---
 framework/core/include/plain/basic/logger.h | 2 +-
 framework/core/src/basic/logger.cc          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/include/plain/basic/logger.h b/framework/core/include/plain/basic/logger.h
index 77e16ae..72cb76f 100644
--- a/framework/core/include/plain/basic/logger.h
+++ b/framework/core/include/plain/basic/logger.h
@@ -93,7 +93,7 @@ using flush_func_t = std::function<void()>;
   Logger &operator<<(const std::string &v);
   Logger &operator<<(const Error &e);
 
-  void append(std::string_view &log);
+  void append(std::string_view log);
   template<class... Args> 
   void appendf(const std::string_view &format, Args... args) {
     auto log = std::vformat(format, std::make_format_args(args...));
diff --git a/framework/core/src/basic/logger.cc b/framework/core/src/basic/logger.cc
index 87fa2cb..bc7863d 100644
--- a/framework/core/src/basic/logger.cc
+++ b/framework/core/src/basic/logger.cc
@@ -162,7 +162,7 @@ Logger::Logger(const std::string_view &trace,
   : impl_{std::make_unique<Impl>(
       LogLevel::Trace, location.file_name(), location.line())} {
   *this << location.function_name() << " ";
-  *this << trace.data();
+  append(trace);
 }
 
 Logger::~Logger() {
@@ -274,7 +274,7 @@ Logger &Logger::operator<<(const Error &e) {
   return *this;
 }
 
-void Logger::append(std::string_view &log) {
+void Logger::append(std::string_view log) {
   impl_->buffer_.write(log.data(), log.size()); 
 }
 
-- 
2.43.0


From 77704974ecd2d9a7749ae7a6dd1408cb3b26dddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:09 +0000
Subject: [PATCH 052/158] fix: the globals must be usable from any thread

Each log statement reads them and each thread made by thread::create adds its
status, which may rehash the map under the reader.
---
 framework/core/include/plain/basic/global.h   | 17 +++++++++++-
 .../core/include/plain/basic/type/variable.h  | 26 ++++++++++++-------
 framework/core/src/basic/global.cc            |  4 +--
 3 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/framework/core/include/plain/basic/global.h b/framework/core/include/plain/basic/global.h
index 3971805..d15a129 100644
--- a/framework/core/include/plain/basic/global.h
+++ b/framework/core/include/plain/basic/global.h
@@ -15,7 +15,22 @@
 
 namespace plain {
 
-PLAIN_API variable_map_t &get_globals();
+// The globals are used from any thread, so finding a value needs a lock, while
+// the values stay where they are and have a lock of their own.
+class PLAIN_API global_map_t : public variable_map_t {
+
+ public:
+  variable_t &operator[](const std::string &key) {
+    std::unique_lock<std::mutex> auto_lock(mutex_);
+    return variable_map_t::operator[](key);
+  }
+
+ private:
+  std::mutex mutex_;
+
+};
+
+PLAIN_API global_map_t &get_globals();
 
 } // namespace plain
 
diff --git a/framework/core/include/plain/basic/type/variable.h b/framework/core/include/plain/basic/type/variable.h
index 9041689..e1cc83a 100644
--- a/framework/core/include/plain/basic/type/variable.h
+++ b/framework/core/include/plain/basic/type/variable.h
@@ -31,9 +31,8 @@ struct PLAIN_API variable_struct {
   value_type value;
   variable_struct() {}
 
-  variable_struct(const variable_t &object) {
-    value = object.value;
-  } 
+  variable_struct(const variable_t &object) : value{object.copy_value()} {
+  }
   variable_struct(variable_t &&object) {
     std::swap(value, object.value);
   }
@@ -46,6 +45,11 @@ struct PLAIN_API variable_struct {
     value = std::to_underlying(_value);
   }
   
+  value_type copy_value() const {
+    std::unique_lock<std::mutex> auto_lock(mutex);
+    return value;
+  }
+
   template <typename T>
   T get() const {
     std::unique_lock<std::mutex> auto_lock(mutex);
@@ -88,10 +92,14 @@ struct PLAIN_API variable_struct {
   }
 
   variable_t &operator=(const variable_t &object) {
-    value = object.value;
+    auto _value = object.copy_value();
+    std::unique_lock<std::mutex> auto_lock(mutex);
+    value = std::move(_value);
     return *this;
   }
   variable_t &operator=(variable_t &&object) {
+    if (this == &object) return *this;
+    std::scoped_lock auto_lock(mutex, object.mutex);
     std::swap(object.value, value);
     return *this;
   }
@@ -168,24 +176,24 @@ struct PLAIN_API variable_struct {
   
   friend bool operator==(
       const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value == rhs.value;
+    return lhs.copy_value() == rhs.copy_value();
   }
   
   friend bool operator!=(const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value != rhs.value;
+    return lhs.copy_value() != rhs.copy_value();
   }
 
   friend bool operator<(const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value < rhs.value;
+    return lhs.copy_value() < rhs.copy_value();
   }
 
   friend bool operator>(const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value < rhs.value;
+    return lhs.copy_value() < rhs.copy_value();
   }
 
   friend auto operator<=>(
       const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value <=> rhs.value;
+    return lhs.copy_value() <=> rhs.copy_value();
   }
 
   explicit operator const char*() {
diff --git a/framework/core/src/basic/global.cc b/framework/core/src/basic/global.cc
index e9bb90b..88543a1 100644
--- a/framework/core/src/basic/global.cc
+++ b/framework/core/src/basic/global.cc
@@ -46,8 +46,8 @@ void InitGlobal::init() {
 
 InitGlobal g_init_global; // Auto init globals.
 
-variable_map_t &get_globals() {
-  static variable_map_t r;
+global_map_t &get_globals() {
+  static global_map_t r;
   return r;
 }
 
-- 
2.43.0


From 906fbeef5a8a72b5b9f84e4dd4d7b1475183df0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:23 +0000
Subject: [PATCH 053/158] fix: the milliseconds of a formatted time must be
 zero padded digits

They were written as a duration with its unit, so 5ms read like half a second.
---
 framework/core/src/basic/time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/basic/time.cc b/framework/core/src/basic/time.cc
index fb60c5e..1d37a41 100644
--- a/framework/core/src/basic/time.cc
+++ b/framework/core/src/basic/time.cc
@@ -61,7 +61,7 @@ std::string Time::format(bool show_microseconds) {
   os << std::put_time(&local, "%FT%T");
   if (show_microseconds) {
     os << "." << std::setfill('0') << std::setw(3);
-    os << (value % 1000);
+    os << (value % 1000).count();
   }
   return os.str();
 }
-- 
2.43.0


From 4a3c6377fba752e504fb7d46099da1093ea4e26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:47 +0000
Subject: [PATCH 054/158] fix: a long log must be cut before the end of its
 line, not through it

---
 framework/core/src/basic/logger.cc | 37 +++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/framework/core/src/basic/logger.cc b/framework/core/src/basic/logger.cc
index bc7863d..9daad0f 100644
--- a/framework/core/src/basic/logger.cc
+++ b/framework/core/src/basic/logger.cc
@@ -77,6 +77,15 @@ struct Logger::Impl {
       int32_t save_errno = 0);
   void finish();
   void format_time();
+  // The room left for the message, the end of the line has its own.
+  std::size_t write_avail() const noexcept {
+    auto end_size = filename_.size() + 16; // "-" filename ":" line "\n"
+    auto avail = buffer_.write_avail();
+    return avail > end_size ? avail - end_size : 0;
+  }
+  void write(const char *str, std::size_t size) noexcept {
+    buffer_.write(str, std::min(size, write_avail()));
+  }
   time_t time_;
   LogLevel level_;
   // FIXME: use std::source_location replace the filename and line.
@@ -187,15 +196,15 @@ void Logger::static_check() {
 
 template <typename T>
 void Logger::format_integer(T value) {
-  if (impl_->buffer_.write_avail() >= kMaxNumericSize) {
+  if (impl_->write_avail() >= kMaxNumericSize) {
     char str[kMaxNumericSize]{0};
     auto [ptr, ec] = std::to_chars(str, str + sizeof str, value);
-    impl_->buffer_.write(str, ptr - str);
+    impl_->write(str, ptr - str);
   }
 }
 
 Logger &Logger::operator<<(bool v) {
-  impl_->buffer_.write(v ? "1" : "0", 1);
+  impl_->write(v ? "1" : "0", 1);
   return *this;
 }
 
@@ -230,52 +239,52 @@ Logger &Logger::operator<<(uint64_t v) {
 }
 
 Logger &Logger::operator<<(const void *p) {
-  if (impl_->buffer_.write_avail() >= kMaxNumericSize) {
+  if (impl_->write_avail() >= kMaxNumericSize) {
     char str[kMaxNumericSize]{0};
     auto v = reinterpret_cast<uintptr_t>(p);
     auto size = convert_hex(str, v);
-    impl_->buffer_.write("0x", 2);
-    impl_->buffer_.write(str, size);
+    impl_->write("0x", 2);
+    impl_->write(str, size);
   }
   return *this;
 }
 
 Logger &Logger::operator<<(double v) {
-  if (impl_->buffer_.write_avail() >= kMaxNumericSize) {
+  if (impl_->write_avail() >= kMaxNumericSize) {
     char str[kMaxNumericSize]{0};
     auto size = snprintf(str, kMaxNumericSize, "%.12g", v);
-    impl_->buffer_.write(str, size);
+    impl_->write(str, size);
   }
   return *this;
 }
 
 Logger &Logger::operator<<(char v) {
-  impl_->buffer_.write(&v, 1);
+  impl_->write(&v, 1);
   return *this;
 }
 
 Logger &Logger::operator<<(const char *str) {
   if (str) {
-    impl_->buffer_.write(str, strlen(str));
+    impl_->write(str, strlen(str));
   } else {
-    impl_->buffer_.write("(null)", 6);
+    impl_->write("(null)", 6);
   }
   return *this;
 }
 
 Logger &Logger::operator<<(const std::string &v) {
-  impl_->buffer_.write(v.c_str(), v.size());
+  impl_->write(v.c_str(), v.size());
   return *this;
 }
 
 Logger &Logger::operator<<(const Error &e) {
   auto v = e.to_string();
-  impl_->buffer_.write(v.c_str(), v.size());
+  impl_->write(v.c_str(), v.size());
   return *this;
 }
 
 void Logger::append(std::string_view log) {
-  impl_->buffer_.write(log.data(), log.size()); 
+  impl_->write(log.data(), log.size()); 
 }
 
 /*
-- 
2.43.0


From 871fde4befd2976ab50203aa47779e9e57eeec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:45 +0000
Subject: [PATCH 055/158] fix: a long line must not end the reading of an ini
 file

---
 framework/core/src/file/ini.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index c92fec6..041c51f 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -37,8 +37,9 @@ bool Ini::open(const char *filename) noexcept {
     AssertEx(false, msg);
     return false;
   }
-  char buffer[512] = {0};
-  while (fstream_.getline(buffer, 512)) {
+  std::string line;
+  while (std::getline(fstream_, line)) {
+    char *buffer = line.data();
     _trimstring(buffer);
     char *section;
     if(_parsesection(buffer, &section)) {
-- 
2.43.0


From e380cf3e8b8a459e9db6be1e4b1f39ab70e3ef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:45 +0000
Subject: [PATCH 056/158] fix: an ini line of a note only must not be trimmed
 before its start

---
 framework/core/src/file/ini.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 041c51f..2175789 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -219,9 +219,9 @@ void Ini::_trimstring(char *buffer) {
       break;
     }
   }
-  for (i = strlen(buffer) - 1; i > 0; --i) {
-    if (' '== buffer[i] || '\t' == buffer[i]) {
-      buffer[i] = 0;
+  for (i = strlen(buffer); i > 0; --i) {
+    if (' '== buffer[i - 1] || '\t' == buffer[i - 1]) {
+      buffer[i - 1] = 0;
     } else {
       break;
     }
-- 
2.43.0


From 389ac7520de351033e0a11c0f3cdc24c2a164e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:45 +0000
Subject: [PATCH 057/158] fix: an ini key before any section must not be stored
 in none

---
 framework/core/src/file/ini.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 2175789..0502c48 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -55,6 +55,7 @@ bool Ini::open(const char *filename) noexcept {
         snprintf(
           msg, 128, "[file] format invalid! file: %s, key: %s", filename, key);
         AssertEx(false, msg);
+        continue;
       }
       int position = _add_bufferstring(value);
       current_section_->insert(std::make_pair(std::string(key), position));
-- 
2.43.0


From 9f572717a34edc0fdf1afd1ca34cb3e0661e834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:45 +0000
Subject: [PATCH 058/158] fix: the keys of a repeated ini section must not be
 lost

---
 framework/core/src/file/ini.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 0502c48..e373199 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -43,9 +43,9 @@ bool Ini::open(const char *filename) noexcept {
     _trimstring(buffer);
     char *section;
     if(_parsesection(buffer, &section)) {
-      current_section_ = new valueset_t;
-      sectiondata_.insert(
-          std::make_pair(std::string(section), current_section_));
+      auto &values = sectiondata_[section];
+      if (values == nullptr) values = new valueset_t;
+      current_section_ = values;
       continue;
     }
     char *key = nullptr, *value = nullptr;
-- 
2.43.0


From d7158cb67ad31d60c89c5dcc64bf56e553b154dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:45 +0000
Subject: [PATCH 059/158] fix: the ini value buffer must grow enough for the
 value

---
 framework/core/src/file/ini.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index e373199..58aa652 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -252,9 +252,11 @@ bool Ini::_parsekey(char *buffer, char **key, char **value) {
 }
 
 void Ini::_buffer_resize() {
+  auto buffer = new char[bufferlength_max_ * 2];
+  memcpy(buffer, buffer_, bufferlength_);
+  safe_delete_array(buffer_);
+  buffer_ = buffer;
   bufferlength_max_ *= 2;
-  buffer_ = (char*)realloc(buffer_, bufferlength_max_);
-  if (is_null(buffer_)) Assert(false);
 }
 
 char *Ini::get_bufferstring(int32_t position) {
@@ -265,7 +267,7 @@ char *Ini::get_bufferstring(int32_t position) {
 int32_t Ini::_add_bufferstring(char *str) {
   int32_t position = 0;
   size_t size = strlen(str);
-  if (bufferlength_ + static_cast<int32_t>(size + 1) >= bufferlength_max_) 
+  while (bufferlength_ + static_cast<int32_t>(size + 1) >= bufferlength_max_)
     _buffer_resize();
   memcpy(buffer_ + bufferlength_, str, size + 1);
   position = bufferlength_;
-- 
2.43.0


From 8cce280394c5fedb3664378f6513b55f4bfeadc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:45 +0000
Subject: [PATCH 060/158] fix: an ini object must be usable again after close

---
 framework/core/src/file/ini.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 58aa652..44b5c8a 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -27,6 +27,7 @@ Ini::~Ini() {
 }
 
 bool Ini::open(const char *filename) noexcept {
+  close();
   buffer_ = new char[INI_VALUE_MAX];
   bufferlength_max_ += INI_VALUE_MAX; 
   strncpy(filename_, filename, FILENAME_MAX - 1);
@@ -66,7 +67,9 @@ bool Ini::open(const char *filename) noexcept {
 }
 
 void Ini::close() noexcept {
-  if (fstream_) fstream_.close();
+  if (fstream_.is_open()) fstream_.close();
+  fstream_.clear();
+  current_section_ = nullptr;
   safe_delete_array(buffer_);
   sectionset_t::iterator iter = sectiondata_.begin();
   for (; iter != sectiondata_.end(); iter++) {
-- 
2.43.0


From 84bfc5ac2178ff52aa1c9fa67721adc35de6e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:45 +0000
Subject: [PATCH 061/158] fix: an ini string must not be written past the given
 size

---
 framework/core/src/file/ini.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 44b5c8a..f3ad04d 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -200,9 +200,10 @@ bool Ini::_getstring(
     int position = it2->second;
     char *value = get_bufferstring(position);
     size_t valuelength = strlen(value);
-    safecopy(str, value, valuelength + 1);
+    if (size <= 0) return false;
     size_t _size = 
       valuelength > static_cast<size_t>(size - 1) ? size - 1 : valuelength;
+    memcpy(str, value, _size);
     str[_size] = 0;
     return true;
   }
-- 
2.43.0


From 423a68be577a7e0566c41537697cbe975427f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:45 +0000
Subject: [PATCH 062/158] fix: the typed ini get must compile and return the
 whole string

---
 framework/core/include/plain/file/ini.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/file/ini.h b/framework/core/include/plain/file/ini.h
index 4fcad71..a43f8ed 100644
--- a/framework/core/include/plain/file/ini.h
+++ b/framework/core/include/plain/file/ini.h
@@ -53,7 +53,8 @@ class PLAIN_API Ini {
   T get(
     std::string_view section, std::string_view key, T _default = {}) noexcept {
     T r{};
-    if (!_get<T>(section.data(), key.data(), r)) return _default;
+    if (!_get(std::string{section}.c_str(), std::string{key}.c_str(), r))
+      return _default;
     return r;
   }
 
@@ -73,7 +74,12 @@ class PLAIN_API Ini {
   bool _get(const char *section, const char *key, float &result);
   bool _get(
     const char *section, const char *key, std::string &result) noexcept {
-    return _getstring(section, key, result.data(), result.capacity() - 1);
+    auto it = sectiondata_.find(section);
+    if (it == sectiondata_.end()) return false;
+    auto it2 = it->second->find(key);
+    if (it2 == it->second->end()) return false;
+    result = get_bufferstring(it2->second);
+    return true;
   }
   bool _getstring(
     const char *section, const char *key, char *str, int32_t size) noexcept;
-- 
2.43.0


From 0c4f10ddc90a3ca46fb72bf86eeda97b9d0c04d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:13 +0000
Subject: [PATCH 063/158] fix: a long assert message must not overflow its
 buffer

---
 framework/core/src/sys/assert.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/sys/assert.cc b/framework/core/src/sys/assert.cc
index 6d61a96..f76879d 100644
--- a/framework/core/src/sys/assert.cc
+++ b/framework/core/src/sys/assert.cc
@@ -29,9 +29,9 @@ void __assert__(
   const char *file, unsigned int line, const char *func, const char *expr) {
   char temp[1024] = {0};
 #if OS_UNIX || OS_MAC //换个格式
-  sprintf(temp, "[%s][%d][%s][%s]\n", file, line, func, expr);
+  snprintf(temp, sizeof(temp), "[%s][%d][%s][%s]\n", file, line, func, expr);
 #else
-  sprintf(temp, "[%s][%d][%s][%s]", file, line, func, expr);
+  snprintf(temp, sizeof(temp), "[%s][%d][%s][%s]", file, line, func, expr);
 #endif
   __show__(temp);
 }
@@ -41,9 +41,9 @@ void __assertex__(
   const char *msg) {
   char temp[1024] = {0};
 #if OS_UNIX || OS_MAC
-  sprintf(temp, "[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg);
+  snprintf(temp, sizeof(temp), "[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg);
 #else
-  sprintf(temp, "[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg);
+  snprintf(temp, sizeof(temp), "[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg);
 #endif
   __show__(temp);
 }
@@ -53,9 +53,9 @@ void __assertspecial__(
   const char *msg) {
   char temp[1024] = {0};
 #if OS_UNIX || OS_MAC
-  sprintf(temp, "S[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg) ;
+  snprintf(temp, sizeof(temp), "S[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg) ;
 #else
-  sprintf(temp, "S[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg ) ;
+  snprintf(temp, sizeof(temp), "S[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg ) ;
 #endif
   __show__(temp) ;
 }
-- 
2.43.0


From 5a276c61a0f5d4bd74291884ea61931a5ea86c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:13 +0000
Subject: [PATCH 064/158] fix: a table of more than 65535 records must be
 opened

---
 framework/core/src/file/tab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 91ff2c1..0c75a4b 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -323,7 +323,7 @@ bool Tab::open_from_memory_text(
   }
 
   //relocate string block
-  uint16_t m, n;
+  int32_t m, n;
   for (m = 0; m < field_number; ++m) {
     if (type_[m] != kTypeString) continue;
     for (n = 0; n < record_number; ++n) {
-- 
2.43.0


From 5d1a264e7710458c0449edb324fc4ba3e57c90ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:13 +0000
Subject: [PATCH 065/158] fix: a position outside of a table must not be
 searched

---
 framework/core/src/file/tab.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 0c75a4b..498bfc1 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -84,17 +84,19 @@ uint8_t Tab::get_fieldtype(int32_t index) {
 
 const Tab::field_data *
 Tab::search_position(int32_t line, int32_t column) const {
-  int32_t position = line * get_field_number() + column;
-  if (line < 0 || position > static_cast<int32_t>(data_buffer_.size())) {
+  int64_t position =
+    static_cast<int64_t>(line) * get_field_number() + column;
+  if (line < 0 || line >= record_number_ ||
+      column < 0 || column >= field_number_) {
     char temp[256];
     memset(temp, '\0', sizeof(temp));
     snprintf(temp, 
              sizeof(temp) - 1, 
              "plain_file::Tab::search_position is failed,"
-             " position out for range[line:%d, column:%d] position:%d",
+             " position out for range[line:%d, column:%d] position:%lld",
              line,
              column,
-             position);
+             static_cast<long long>(position));
 #ifdef _PLAIN_THROW_EXCEPTION_AS_STD_STRING
     throw std::string(temp);
 #else
-- 
2.43.0


From 7ddd9b8a981fa9b5f1d503844a3ff49f8ae91965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:13 +0000
Subject: [PATCH 066/158] fix: the column after the last one is outside of a
 table

---
 framework/core/src/file/tab.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 498bfc1..a9d9850 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -59,7 +59,8 @@ const Tab::field_data* Tab::search_index_equal(int32_t index) const {
 
 const char *Tab::get_fieldname(int32_t index) {
   const char *name = nullptr;
-  Assert(index >= 0 && index <= field_number_);
+  if (index < 0 || index >= static_cast<int32_t>(fieldnames_.size()))
+    return nullptr;
   name = fieldnames_[index].c_str();
   return name;
 }
@@ -77,7 +78,8 @@ int32_t Tab::get_fieldindex(const char *name) {
 }
 
 uint8_t Tab::get_fieldtype(int32_t index) {
-  Assert(index >= 0 && index <= field_number_);
+  Assert(index >= 0 && index < field_number_);
+  if (index < 0 || index >= field_number_) return 0;
   uint8_t result = static_cast<uint8_t>(type_[index]);
   return result;
 }
@@ -109,7 +111,7 @@ Tab::search_position(int32_t line, int32_t column) const {
 
 const Tab::field_data *
 Tab::search_first_column_equal(int32_t column, const field_data &value) const {
-  if (column < 0 || column > field_number_) return nullptr;
+  if (column < 0 || column >= field_number_) return nullptr;
   field_type_enum type = type_[column];
   int32_t i;
   for (i = 0; i < record_number_; ++i) {
-- 
2.43.0


From f14891728ff02132db0d52ce47d3f524cf623d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:13 +0000
Subject: [PATCH 067/158] fix: a table index must be of the column asked for

---
 framework/core/src/file/tab.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index a9d9850..8e0b254 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -145,25 +145,27 @@ int32_t Tab::get_record_number() const {
 }
 
 void Tab::create_index(int32_t column, const char *filename) {
-  if (column < 0 || column > field_number_ || index_column_ == column) return;
+  if (column < 0 || column >= field_number_ || index_column_ == column) return;
   hash_index_.clear();
+  index_column_ = column;
   int32_t i;
   for (i = 0; i < record_number_; ++i) {
     field_data* _field_data = &(data_buffer_[i * field_number_]);
-    field_hashmap::iterator it_find = hash_index_.find(_field_data->int_value);
+    auto value = data_buffer_[i * field_number_ + column].int_value;
+    field_hashmap::iterator it_find = hash_index_.find(value);
     if (it_find != hash_index_.end()) {
       char temp[256];
       memset(temp, '\0', sizeof(temp));
       snprintf(
         temp, sizeof(temp) - 1, "[%s]multi index at line: %d(smae value: %d)", 
-        filename, i + 1, _field_data->int_value);
+        filename ? filename : "", i + 1, value);
 #ifdef _plain_THROW_EXCEPTION_AS_STD_STRING
       throw std::string(temp);
 #else
       AssertEx(false, temp);
 #endif
     }
-    hash_index_.insert(std::make_pair(_field_data->int_value, _field_data));
+    hash_index_.insert(std::make_pair(value, _field_data));
   }
 }
 
-- 
2.43.0


From ac9b62664a8c5370b59e8cb711f4f8a819668d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:13 +0000
Subject: [PATCH 068/158] fix: a saved field name must be neither cut nor taken
 for a format

---
 framework/core/src/file/tab.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 8e0b254..21238fe 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -455,9 +455,7 @@ bool Tab::save_totext(const char *filename) {
   }
 
   for(int i=0; i<static_cast<int>(fieldnames_.size()); ++i){
-    char temp[64] = {0};
-    snprintf(temp, sizeof(temp) - 1, fieldnames_[i].c_str());
-    fwrite(temp, strlen(temp), 1, fp); 
+    fwrite(fieldnames_[i].data(), fieldnames_[i].size(), 1, fp);
     if(i == static_cast<int>(fieldnames_.size()-1)){
       fwrite("\n", 1, 1, fp);
     } else{
-- 
2.43.0


From 2c3a1a260f1e9c54f37fcb9a9e7092349b249fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:13 +0000
Subject: [PATCH 069/158] fix: a table opened again must not keep what it held
 before

---
 framework/core/src/file/tab.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 21238fe..4268ebf 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -42,6 +42,14 @@ bool Tab::open_from_txt(const char *filename) {
 bool Tab::open_from_memory(
   const char *memory, const char *end, const char *filename) {
   bool result = true;
+  hash_index_.clear();
+  index_column_ = INDEX_INVALID;
+  data_buffer_.clear();
+  fieldnames_.clear();
+  type_.clear();
+  record_number_ = field_number_ = 0;
+  safe_delete_array(string_buffer_);
+  string_buffer_size_ = 0;
   if (end - memory >= static_cast<int32_t>(sizeof(file_head_t)) && 
       *((uint32_t*)memory) == FILE_DATABASE_INDENTIFY) {
     result = open_from_memory_binary(memory, end, filename);
-- 
2.43.0


From 4286954d3d4880ceaeb6c95ca916388a198ab11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:22 +0000
Subject: [PATCH 070/158] fix: an address with an invalid port must be refused

---
 framework/core/src/net/address.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index 297a10e..400de02 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -2,6 +2,7 @@
 #include <cstddef>
 #include <iomanip>
 #include <cassert>
+#include <charconv>
 #include <optional>
 #include <ranges>
 #include "plain/basic/type/variable.h"
@@ -106,9 +107,20 @@ static bool is_ipv4(std::string_view address) noexcept {
   return address.find('.') != std::string::npos;
 }
 
+/* An empty port is 0 */
+static uint16_t parse_port(std::string_view str) {
+  uint16_t r{0};
+  if (str.empty()) return r;
+  auto last = str.data() + str.size();
+  auto [ptr, ec] = std::from_chars(str.data(), last, r);
+  if (ec != std::errc{} || ptr != last)
+    throw std::invalid_argument("port invalid");
+  return r;
+}
+
 /* std::tuple<ip_v4, ip, port> */
 static std::tuple<bool, std::string, uint16_t>
-parse_address(std::string_view address) noexcept {
+parse_address(std::string_view address) {
   uint16_t port{0};
   if (address.empty())
     return std::make_tuple(true, "", port);
@@ -124,8 +136,7 @@ parse_address(std::string_view address) noexcept {
         if (index++ == 0) {
           ip = std::string_view{str};
         } else {
-          port = static_cast<uint16_t>(
-            plain::toint64(std::string_view{str}.data()));
+          port = parse_port(std::string_view{str});
           break;
         }
       }
@@ -143,8 +154,7 @@ parse_address(std::string_view address) noexcept {
           ip = std::string_view{str};
           if (!ip.empty() && *ip.begin() == '[') ip.erase(ip.begin());
         } else {
-          port = static_cast<uint16_t>(
-            plain::toint64(std::string_view{str}.data()));
+          port = parse_port(std::string_view{str});
           break;
         }
       }
-- 
2.43.0


From c415892aaa04293b8bccd093d287685c9ad62513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:22 +0000
Subject: [PATCH 071/158] fix: an ip given as a view must end where the view
 does

---
 framework/core/src/net/address.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index 400de02..01b6109 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -177,7 +177,7 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
       else
         addr.sin_addr.s_addr = inet_addr("127.0.0.1");
     } else {
-      addr.sin_addr.s_addr = inet_addr(ip.data());
+      addr.sin_addr.s_addr = inet_addr(std::string{ip}.c_str());
     }
     if (addr.sin_addr.s_addr == INADDR_NONE)
       throw std::invalid_argument("ip invalid");
@@ -198,7 +198,8 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
           throw std::invalid_argument("ip invalid");
       }
     } else {
-      auto cr = inet_pton(AF_INET6, ip.data(), &addr.sin6_addr);
+      auto cr = inet_pton(
+        AF_INET6, std::string{ip}.c_str(), &addr.sin6_addr);
       if (cr != 1)
         throw std::invalid_argument("ip invalid");
     }
-- 
2.43.0


From 17a181d5b7849ede71274e20a921b57eff2b4e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:22 +0000
Subject: [PATCH 072/158] fix: the padding of an address must be zero

---
 framework/core/src/net/address.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index 01b6109..1564f2f 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -168,7 +168,7 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
   Address::value_type r;
   using value_t = Address::value_type::value_type;
   if (ip_v4) {
-    sockaddr_in addr;
+    sockaddr_in addr{};
     addr.sin_family = AF_INET;
     r.reserve(sizeof addr);
     if (ip.empty() || ip == "127.0.0.1" || ip == "0.0.0.0") {
@@ -184,7 +184,7 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
     addr.sin_port = htons(port);
     r.append(reinterpret_cast<value_t *>(&addr), sizeof(addr));
   } else {
-    sockaddr_in6 addr;
+    sockaddr_in6 addr{};
     addr.sin6_family = AF_INET6;
     addr.sin6_flowinfo = 0;
     addr.sin6_scope_id = 0;
-- 
2.43.0


From fd52d08a1f4fbf1994c52d7523f88e172ed41a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:22 +0000
Subject: [PATCH 073/158] fix: an ip v6 address which embeds one of v4 must not
 become the loopback

---
 framework/core/src/net/address.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index 1564f2f..c249928 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -103,8 +103,7 @@ bool plain::net::is_valid_addr(const bytes_t &addr, bool verbose) noexcept {
 }
 
 static bool is_ipv4(std::string_view address) noexcept {
-  if (address.find(':') == address.rfind(':')) return true;
-  return address.find('.') != std::string::npos;
+  return address.find(':') == address.rfind(':');
 }
 
 /* An empty port is 0 */
-- 
2.43.0


From 5f4a5a57c3e12997062fb2e5d250f0957fa4f226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:22 +0000
Subject: [PATCH 074/158] fix: the text of an ip v6 address must be a valid
 address again

---
 framework/core/src/net/address.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index c249928..23243b3 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -276,6 +276,8 @@ size_t Address::size() const noexcept {
 }
 
 std::string Address::text() const noexcept {
+  if (family() == AF_INET6)
+    return "[" + host() + "]:" + std::to_string(port());
   return host() + ":" + std::to_string(port());
 }
 
-- 
2.43.0


From cb35a23b759f7d7a637ec4791871c595edf93c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:56 +0000
Subject: [PATCH 075/158] fix: trim must remove every character of the mask in
 any order

---
 framework/core/src/basic/utility.cc | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index ff253ec..ccc3a74 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -621,27 +621,18 @@ bool decrypt(std::string_view in, int32_t &number, std::string &out) {
 
 std::string &ltrim(std::string &str, std::string_view character_mask) {
   if (str.empty()) return str;
-  for (size_t i = 0; i < character_mask.length(); ++i) {
-    str.erase(0, str.find_first_not_of(character_mask[i]));
-  }
+  str.erase(0, str.find_first_not_of(character_mask));
   return str;
 }
 
 std::string &rtrim(std::string &str, std::string_view character_mask) {
   if (str.empty()) return str;
-  for (size_t i = 0; i < character_mask.length(); ++i) {
-    str.erase(str.find_last_not_of(character_mask[i]) + 1);
-  }
+  str.erase(str.find_last_not_of(character_mask) + 1);
   return str;
 }
 
 std::string &trim(std::string &str, std::string_view character_mask) {
-  if (str.empty()) return str;
-  for (size_t i = 0; i < character_mask.length(); ++i) {
-    str.erase(0, str.find_first_not_of(character_mask[i]));
-    str.erase(str.find_last_not_of(character_mask[i]) + 1);
-  }
-  return str;
+  return ltrim(rtrim(str, character_mask), character_mask);
 }
 
 bool contains(
-- 
2.43.0


From 12c6745c6a72da5e9c8ab534f930bcac28085314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:56 +0000
Subject: [PATCH 076/158] fix: the replace of an empty string must end

---
 framework/core/src/basic/utility.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index ccc3a74..e39e0b6 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -648,6 +648,7 @@ std::string str_replace(
   std::string_view search, std::string_view replace, std::string_view subject, 
   int32_t count) {
   std::string r{subject};
+  if (search.empty()) return r;
   int32_t replace_count{0};
   auto it = r.find(search);
   auto search_length = search.length();
-- 
2.43.0


From 47df5e8d186ee63c4039c30317b508a3608ff0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:56 +0000
Subject: [PATCH 077/158] fix: every search string must be replaced, not the
 last only

---
 framework/core/src/basic/utility.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index e39e0b6..0484149 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -666,7 +666,7 @@ std::string str_replaces(
   std::string_view subject, int32_t count) {
   std::string r{subject};
   for (std::string_view item : search)
-    r = str_replace(item, replace, subject, count);
+    r = str_replace(item, replace, r, count);
   return r;
 }
 
-- 
2.43.0


From c4593317f657e68b3712a88af7e36258dfe64ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:56 +0000
Subject: [PATCH 078/158] fix: an escaped character must fit in the output

---
 framework/core/src/basic/utility.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 0484149..1879425 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -250,6 +250,7 @@ bool getescape(const char *in, size_t insize, char *out, size_t outsize) {
   for ( ; index1 < insize && index2 < outsize; ++index1) {
     char _char;
     if (get_escapechar(in[index1], _char)) {
+    if (index2 + 2 > outsize) break;
     out[index2] = '\\';
     ++index2;
     out[index2] = _char;
-- 
2.43.0


From 8a1ccb7df8e27da6012aea6fee2b933abbd9753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:56 +0000
Subject: [PATCH 079/158] fix: a long string must be neither cut nor overflow
 when made wide or narrow

---
 framework/core/src/basic/utility.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 1879425..51ef9c5 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -682,9 +682,10 @@ std::string wstr2str(const std::wstring &str) {
   r = psText;
   safe_delete_array(psText);
 #else
-  char temp[512]{0,};
-  wcstombs(temp, str.c_str(), sizeof(temp) - 1);
-  r = temp;
+  auto size = wcstombs(nullptr, str.c_str(), 0);
+  if (size == static_cast<size_t>(-1)) return r;
+  r.resize(size);
+  wcstombs(r.data(), str.c_str(), size);
 #endif
   return r;
 }
@@ -699,9 +700,11 @@ std::wstring str2wstr(std::string_view str) {
   r = wszUtf8;
   safe_delete_array(wszUtf8);
 #else
-  wchar_t temp[512]{0,};
-  mbstowcs(temp, str.data(), sizeof(temp) - 1);
-  r = temp;
+  std::string temp{str};
+  auto size = mbstowcs(nullptr, temp.c_str(), 0);
+  if (size == static_cast<size_t>(-1)) return r;
+  r.resize(size);
+  mbstowcs(r.data(), temp.c_str(), size);
 #endif
   return r;
 }
-- 
2.43.0


From 41fe7972ad5f52cf8819f4f87ae73ab9383a483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:56 +0000
Subject: [PATCH 080/158] fix: bytes must be the same after binary_tostring and
 string_tobinary

---
 framework/core/src/basic/utility.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 51ef9c5..a79c910 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -716,7 +716,7 @@ static char ascii_table[] = {
 
 char value_toascii(char in) {
   char out =
-    0 < in && sizeof(ascii_table) / sizeof(char) >
+    0 <= in && sizeof(ascii_table) / sizeof(char) >
     static_cast< size_t >(in) ? ascii_table[(uint8_t)in] : '?';
   return out;
 }
@@ -803,7 +803,7 @@ bool binary_tostring(const char *in, uint32_t in_length, char *out) {
   for (i = 0; i < in_length; ++i) {
     out[out_index] = value_toascii((static_cast<uint8_t>(in[i] & 0xF0)) >> 4);
     ++out_index;
-    out[out_index] = value_toascii(in[i] & 0xF0);
+    out[out_index] = value_toascii(in[i] & 0x0F);
     ++out_index;
   }
   return true;
@@ -815,12 +815,10 @@ bool string_tobinary(
   if (0 == in_length) return false;
   uint32_t out_index = 0;
   uint32_t i;
-  for (i = 0; i < in_length; ++i) {
+  for (i = 0; i + 1 < in_length && out_index < out_limit; i += 2) {
     if ('\0' == in[i] || '\0' == in[i + 1]) break;
     out[out_index] = (ascii_tovalue(in[i]) << 4) + ascii_tovalue(in[i + 1]);
     ++out_index;
-    i += 2;
-    if (out_index > out_limit) break;
   }
   out_length = out_index; //length must be the out_limit
   return true;
-- 
2.43.0


From 5f3fc343b501dfbf61d3b38fb361aa198e7a88e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:56 +0000
Subject: [PATCH 081/158] fix: a directory made must be readable by its owner

---
 framework/core/include/plain/basic/utility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/utility.h b/framework/core/include/plain/basic/utility.h
index 14d4ca3..ed7c074 100644
--- a/framework/core/include/plain/basic/utility.h
+++ b/framework/core/include/plain/basic/utility.h
@@ -139,7 +139,7 @@ PLAIN_API void get_module_filename(char *buffer, size_t size);
 
 PLAIN_API void disable_windowclose();
 
-PLAIN_API bool makedir(const char *path, uint16_t mode = 755);
+PLAIN_API bool makedir(const char *path, uint16_t mode = 0755);
 
 PLAIN_API uint32_t get_highsection(uint64_t value);
 
-- 
2.43.0


From 4272e415dd15d3afbdbefde25ae93ec4b449fcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:56 +0000
Subject: [PATCH 082/158] fix: a path of no or too many characters must not be
 made

---
 framework/core/src/basic/utility.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index a79c910..20d0fe8 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -941,6 +941,8 @@ bool makedir(const char *path, uint16_t) {
   int32_t i = 0;
   int32_t result = 0;
   int32_t length = static_cast<int32_t>(strlen(path));
+  if (0 == length || length + 2 > static_cast<int32_t>(sizeof(_path)))
+    return false;
   safecopy(_path, path, sizeof(_path));
   path_tounix(_path, static_cast<uint16_t>(length));
   if (_path[length - 1] != '/') {
-- 
2.43.0


From 9138cfa9cffc132d28abd6a1b4d92d12ffd04514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:56 +0000
Subject: [PATCH 083/158] fix: a complemented path must be terminated

---
 framework/core/src/basic/utility.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 20d0fe8..19ff76a 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -987,8 +987,10 @@ uint32_t get_lowsection(uint64_t value) {
 
 void complementpath(char *filepath, size_t size, char delimiter) {
   uint32_t length = static_cast<uint32_t>(strlen(filepath));
-  if (size <= length) return;
-  filepath[length] = delimiter == filepath[length - 1] ? '\0' : delimiter;
+  if (size <= length + 1) return;
+  if (length > 0 && delimiter == filepath[length - 1]) return;
+  filepath[length] = delimiter;
+  filepath[length + 1] = '\0';
 }
 
 char *strerror_pl(int32_t saved_errno) {
-- 
2.43.0


From 66360a3bba0c9316d19346655b32c6e88320adea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:56 +0000
Subject: [PATCH 084/158] fix: a string must be read from a stringstream whole
 and in its bounds

---
 .../core/include/plain/basic/stringstream.h     | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/framework/core/include/plain/basic/stringstream.h b/framework/core/include/plain/basic/stringstream.h
index d5bf45c..b0d96f4 100644
--- a/framework/core/include/plain/basic/stringstream.h
+++ b/framework/core/include/plain/basic/stringstream.h
@@ -27,15 +27,16 @@ class stringstream {
    ~stringstream() {}
 
  public:
-   void read(char *var, size_t size) {
+   bool read(char *var, size_t size) {
      Assert(str_ != nullptr && size_ > 0);
-     if (size + cur_ > size_) return;
+     if (size > size_ - cur_) return false;
      memcpy(var, str_ + cur_, size);
      cur_ += size;
+     return true;
    }
    void write(const char *var, size_t size) {
      Assert(str_ != nullptr && size_ > 0);
-     if (size + cur_ > size_) return;
+     if (size > size_ - cur_) return;
      memcpy(str_ + cur_, var, size);
      cur_ += size;
    }
@@ -63,8 +64,7 @@ class stringstream {
  public:
    template <typename T>
    stringstream &operator>>(T &var) {
-     read((char *)&var, sizeof(var));
-     var = ntoh(var);
+     if (read((char *)&var, sizeof(var))) var = ntoh(var);
      return *this;
    }
 
@@ -79,12 +79,13 @@ class stringstream {
    }
 
    stringstream &operator>>(std::string &var) {
-     char temp[SSTREAM_STRING_SIZE_MAX]{0};
      int32_t size{0};
      read((char *)&size, sizeof(size));
      size = ntoh(size);
-     if (size > 0) read(temp, size);
-     var = temp;
+     var.clear();
+     if (size <= 0 || static_cast<size_t>(size) > size_ - cur_) return *this;
+     var.resize(size);
+     read(var.data(), size);
      return *this;
    }
 
-- 
2.43.0


From 63c15d145092aaa29450c8857cc15d019ef29773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:15 +0000
Subject: [PATCH 085/158] fix: greater must not be less for variables

---
 framework/core/include/plain/basic/type/variable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/type/variable.h b/framework/core/include/plain/basic/type/variable.h
index e1cc83a..056a46b 100644
--- a/framework/core/include/plain/basic/type/variable.h
+++ b/framework/core/include/plain/basic/type/variable.h
@@ -188,7 +188,7 @@ struct PLAIN_API variable_struct {
   }
 
   friend bool operator>(const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.copy_value() < rhs.copy_value();
+    return lhs.copy_value() > rhs.copy_value();
   }
 
   friend auto operator<=>(
-- 
2.43.0


From 68980d0618d67806c6f7573bb11f6685984dd07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:15 +0000
Subject: [PATCH 086/158] fix: the postfix decrement of a variable must not
 increment it

---
 framework/core/include/plain/basic/type/variable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/type/variable.h b/framework/core/include/plain/basic/type/variable.h
index 056a46b..d41ae02 100644
--- a/framework/core/include/plain/basic/type/variable.h
+++ b/framework/core/include/plain/basic/type/variable.h
@@ -170,7 +170,7 @@ struct PLAIN_API variable_struct {
   }
   variable_t &operator--(int32_t) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_int64() + 1;
+    value = to_int64() - 1;
     return *this;
   }
   
-- 
2.43.0


From c25e9fd8144ab97200fea93af7de3cc7180c323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:15 +0000
Subject: [PATCH 087/158] fix: arithmetic with a variable must not drop its
 fraction

---
 framework/core/include/plain/basic/type/variable.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/framework/core/include/plain/basic/type/variable.h b/framework/core/include/plain/basic/type/variable.h
index d41ae02..3c1f7af 100644
--- a/framework/core/include/plain/basic/type/variable.h
+++ b/framework/core/include/plain/basic/type/variable.h
@@ -105,8 +105,9 @@ struct PLAIN_API variable_struct {
   }
 
   variable_t &operator+=(const variable_t &object) noexcept {
+    auto number = variable_t{object}.to_double();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = object.to_int64() + to_double();
+    value = number + to_double();
     return *this;
   }
   template <typename T>
@@ -117,8 +118,9 @@ struct PLAIN_API variable_struct {
   }
 
   variable_t &operator-=(const variable_t &object) noexcept {
+    auto number = variable_t{object}.to_double();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() - object.to_int64();
+    value = to_double() - number;
     return *this;
   }
   template <typename T>
@@ -129,8 +131,9 @@ struct PLAIN_API variable_struct {
   }
 
   variable_t &operator*=(const variable_t &object) noexcept {
+    auto number = variable_t{object}.to_double();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() * object.to_int64();
+    value = to_double() * number;
     return *this;
   }
   
@@ -142,8 +145,9 @@ struct PLAIN_API variable_struct {
   }
 
   variable_t &operator/=(const variable_t &object) {
+    auto number = variable_t{object}.to_double();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() / object.to_int64();
+    value = to_double() / number;
     return *this;
   }
   template <typename T>
-- 
2.43.0


From a8e7741abe5e81d84d20a607346576925701af1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:40 +0000
Subject: [PATCH 088/158] fix: the md5 function must be defined where it is
 declared

---
 framework/core/src/basic/md5.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/basic/md5.cc b/framework/core/src/basic/md5.cc
index 23f7e07..32bc405 100644
--- a/framework/core/src/basic/md5.cc
+++ b/framework/core/src/basic/md5.cc
@@ -343,7 +343,7 @@ std::ostream& operator<<(std::ostream& out, MD5 md5) {
  
 //////////////////////////////
  
-std::string md5(const std::string &str) {
+std::string plain::md5(const std::string &str) {
   MD5 md5 = MD5(str);
   return md5.hexdigest();
 }
-- 
2.43.0


From 0b39a1f844b2fa3e3b59b0827f4716c276890e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:58 +0000
Subject: [PATCH 089/158] fix: a leaf of the memory pool must not be given out
 again while it is in use

---
 .../core/include/plain/sys/memory/pool.h      | 66 +++++++++----------
 1 file changed, 31 insertions(+), 35 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index e7807cc..1c00401 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -70,19 +70,14 @@ public:
       functionality will remain operational.
     */
     do {
-      const int32_t available =
-        leaf_array_[leaf_id].available.load(std::memory_order_acquire);
-      // std::cout << "available: " << available << std::endl;
-      if (available <= 0) break;
-      if (available >= real_size) {
+      auto state = leaf_array_[leaf_id].state.load(std::memory_order_acquire);
+      while (state.available >= real_size) {
         // we reserve memory 
         // (the buffer is distributed from the end with a bite):
-        const int32_t available_after =
-          leaf_array_[leaf_id].available.fetch_sub(
-              real_size, std::memory_order_acq_rel) - real_size;
-        // and if successful, a positive number should have returned,
-        // otherwise we would have broken through the bottom of the buffer:
-        if (available_after >= 0) {
+        const int32_t available_after = state.available - real_size;
+        if (leaf_array_[leaf_id].state.compare_exchange_weak(
+              state, {available_after, state.deallocated},
+              std::memory_order_acq_rel, std::memory_order_acquire)) {
           // the resulting distribution address is easy to obtain, because it
           // starts immediately after "available", since addressing from &[0]
           // then this is "buf + available":
@@ -100,6 +95,7 @@ public:
           break; // finished the search, return the allocation pointer
         }
       }
+      if (re) break;
       ++leaf_id;
       if (kLeafCount == leaf_id) { leaf_id = 0; }
     } while (leaf_id != start_leaf);
@@ -154,21 +150,19 @@ public:
         && leaf_array_[head->leaf_id].buf) {
       // ok this is my allocation
       const int32_t real_size = head->size + sizeof(AllocHeader);
-      const int32_t deallocated =
-        leaf_array_[head->leaf_id].deallocated.fetch_add(
-            real_size, std::memory_order_acq_rel) + real_size;
-      int32_t available =
-        leaf_array_[head->leaf_id].available.load(std::memory_order_acquire);
-      if (deallocated == (kLeafSizeBytes - available)) {
-        // everything that was allocated is now returned, we will try, carefully, reset the Leaf
-        if (leaf_array_[head->leaf_id].available.compare_exchange_strong(
-              available, kLeafSizeBytes)) {
-          leaf_array_[head->leaf_id].deallocated -= deallocated;
-        }
-      }
-
-      // Cleanup so that unique TAG_my_alloc will be keep unique in RAM:
+      auto &leaf = leaf_array_[head->leaf_id];
+      // Cleanup so that unique TAG_my_alloc will be keep unique in RAM, before
+      // the memory can be allocated again:
       memset((char *)head, 0, sizeof(AllocHeader));
+      auto state = leaf.state.load(std::memory_order_acquire);
+      leaf_state_t after;
+      do {
+        after = {state.available, state.deallocated + real_size};
+        // everything that was allocated is now returned, reset the Leaf
+        if (after.deallocated == kLeafSizeBytes - after.available)
+          after = {kLeafSizeBytes, 0};
+      } while (!leaf.state.compare_exchange_weak(
+          state, after, std::memory_order_acq_rel, std::memory_order_acquire));
     } else if ((uint64_t)kTagOSMalloc == head->tag_this
         && kOSMallocID == head->leaf_id
         && head->size > 0) {
@@ -277,14 +271,12 @@ public:
     for (int32_t i = 0; i < kLeafCount; ++i) {
       if (buf_array[i]) {
         leaf_array_[i].buf = static_cast<char *>(buf_array[i]);
-        leaf_array_[i].available.store(
-            kLeafSizeBytes, std::memory_order_relaxed);
-        leaf_array_[i].deallocated.store(0, std::memory_order_relaxed);
+        leaf_array_[i].state.store(
+            {kLeafSizeBytes, 0}, std::memory_order_relaxed);
       } else {
         leaf_array_[i].buf = nullptr;
-        leaf_array_[i].available.store(0, std::memory_order_relaxed);
-        leaf_array_[i].deallocated.store(
-            kLeafSizeBytes, std::memory_order_relaxed);
+        leaf_array_[i].state.store(
+            {0, kLeafSizeBytes}, std::memory_order_relaxed);
       }
     }
     std::atomic_thread_fence(std::memory_order_release);
@@ -437,12 +429,16 @@ public:
 
 #endif
 private:
-  struct leaf_t {
-    char *buf;
+  // Both change together, so that a leaf is never reset while it is in use.
+  struct alignas(8) leaf_state_t {
     // available == offset
-    std::atomic<int32_t> available{ kLeafSizeBytes };
+    int32_t available;
     // control of deallocations:
-    std::atomic<int32_t> deallocated{ 0 };
+    int32_t deallocated;
+  };
+  struct leaf_t {
+    char *buf;
+    std::atomic<leaf_state_t> state{ leaf_state_t{kLeafSizeBytes, 0} };
   };
 
   /*
-- 
2.43.0


From 2209dd4420ff865a11e1891d8d80123b6ceb40aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:58 +0000
Subject: [PATCH 090/158] fix: the memory pool must refuse a size it can not
 keep

---
 framework/core/include/plain/sys/memory/pool.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index 1c00401..0381c94 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -53,6 +53,7 @@ public:
    */
   void* malloc(std::size_t allocation_size) {
     // Allocation will include a header with service information:
+    if (allocation_size > kMaxAllocation) return nullptr;
     const int32_t real_size = static_cast<int32_t>(
         allocation_size + sizeof(AllocHeader));
     // Starting leaf for finding the allocation place:
@@ -468,6 +469,9 @@ private:
     int32_t leaf_id{ -2020071708 };
   };
 
+  static constexpr std::size_t kMaxAllocation =
+    std::numeric_limits<int32_t>::max() - 2 * sizeof(AllocHeader);
+
   // Memory pool:
   leaf_t leaf_array_[kLeafCount];
   std::atomic<int32_t> cur_leaf_{ 0 };
-- 
2.43.0


From 6af8c9521f4939346b0ff4d41690a1d67688a573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:58 +0000
Subject: [PATCH 091/158] fix: an empty allocation of the memory pool must be
 freed too

---
 framework/core/include/plain/sys/memory/pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index 0381c94..d8c1f6c 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -166,7 +166,7 @@ public:
           state, after, std::memory_order_acq_rel, std::memory_order_acquire));
     } else if ((uint64_t)kTagOSMalloc == head->tag_this
         && kOSMallocID == head->leaf_id
-        && head->size > 0) {
+        && head->size >= 0) {
       // ok, to OS malloc
       // Cleanup so that unique TAG_my_alloc will be keep unique in RAM:
       memset((char *)head,  0,  sizeof(AllocHeader));
@@ -231,7 +231,7 @@ public:
       } // elseif (!buf
     } else if (kTagOSMalloc == head->tag_this
          && kOSMallocID == head->leaf_id
-         && head->size > 0) {
+         && head->size >= 0) {
       // Let's check whether it has gone beyond the allocation limits:
       char *start = static_cast<char *>(base_alloc_ptr);
       char *end = start + head->size;
-- 
2.43.0


From febaf68ab1e6df5f4adcf635ed5113ce734c87fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:58 +0000
Subject: [PATCH 092/158] fix: the allocations of the memory pool must be
 aligned

---
 .../core/include/plain/sys/memory/pool.h      | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index d8c1f6c..d776ed8 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -54,8 +54,7 @@ public:
   void* malloc(std::size_t allocation_size) {
     // Allocation will include a header with service information:
     if (allocation_size > kMaxAllocation) return nullptr;
-    const int32_t real_size = static_cast<int32_t>(
-        allocation_size + sizeof(AllocHeader));
+    const int32_t real_size = get_real_size(allocation_size);
     // Starting leaf for finding the allocation place:
     const int32_t start_leaf = static_cast<int32_t>(
         cur_leaf_.load(std::memory_order_relaxed));
@@ -150,7 +149,7 @@ public:
         && ((uint64_t)this) == (head->tag_this - head->leaf_id)
         && leaf_array_[head->leaf_id].buf) {
       // ok this is my allocation
-      const int32_t real_size = head->size + sizeof(AllocHeader);
+      const int32_t real_size = get_real_size(head->size);
       auto &leaf = leaf_array_[head->leaf_id];
       // Cleanup so that unique TAG_my_alloc will be keep unique in RAM, before
       // the memory can be allocated again:
@@ -160,8 +159,8 @@ public:
       do {
         after = {state.available, state.deallocated + real_size};
         // everything that was allocated is now returned, reset the Leaf
-        if (after.deallocated == kLeafSizeBytes - after.available)
-          after = {kLeafSizeBytes, 0};
+        if (after.deallocated == kLeafUsable - after.available)
+          after = {kLeafUsable, 0};
       } while (!leaf.state.compare_exchange_weak(
           state, after, std::memory_order_acq_rel, std::memory_order_acquire));
     } else if ((uint64_t)kTagOSMalloc == head->tag_this
@@ -273,11 +272,11 @@ public:
       if (buf_array[i]) {
         leaf_array_[i].buf = static_cast<char *>(buf_array[i]);
         leaf_array_[i].state.store(
-            {kLeafSizeBytes, 0}, std::memory_order_relaxed);
+            {kLeafUsable, 0}, std::memory_order_relaxed);
       } else {
         leaf_array_[i].buf = nullptr;
         leaf_array_[i].state.store(
-            {0, kLeafSizeBytes}, std::memory_order_relaxed);
+            {0, kLeafUsable}, std::memory_order_relaxed);
       }
     }
     std::atomic_thread_fence(std::memory_order_release);
@@ -430,6 +429,16 @@ public:
 
 #endif
 private:
+  // The allocations are aligned as those of the OS malloc are.
+  static constexpr int32_t kAlignment = alignof(std::max_align_t);
+  static constexpr int32_t kLeafUsable =
+    kLeafSizeBytes / kAlignment * kAlignment;
+  static constexpr int32_t get_real_size(std::size_t allocation_size) {
+    return static_cast<int32_t>(
+      (allocation_size + sizeof(AllocHeader) + kAlignment - 1) /
+      kAlignment * kAlignment);
+  }
+
   // Both change together, so that a leaf is never reset while it is in use.
   struct alignas(8) leaf_state_t {
     // available == offset
@@ -439,7 +448,7 @@ private:
   };
   struct leaf_t {
     char *buf;
-    std::atomic<leaf_state_t> state{ leaf_state_t{kLeafSizeBytes, 0} };
+    std::atomic<leaf_state_t> state{ leaf_state_t{kLeafUsable, 0} };
   };
 
   /*
-- 
2.43.0


From 26c0bf605049ccc5e593fb5b956038d5247aea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:58 +0000
Subject: [PATCH 093/158] fix: a debug free of the memory pool must go to the
 pool

---
 framework/core/include/plain/sys/memory/pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index d776ed8..3c4c2e8 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -398,7 +398,7 @@ public:
             .append("  line, in ").append(function_name);
         it->second.allocated = false;
       }
-      ::free(ptr);
+      free(ptr);
     }
     return;
   } // freed
-- 
2.43.0


From f64fa23dc941ceda1ca4c7beba76e963fe8915f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:21 +0000
Subject: [PATCH 094/158] fix: the task queue must not be looked at without its
 lock

---
 framework/core/include/plain/basic/task_queue.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/framework/core/include/plain/basic/task_queue.h b/framework/core/include/plain/basic/task_queue.h
index 9cf7680..e9f6d44 100644
--- a/framework/core/include/plain/basic/task_queue.h
+++ b/framework/core/include/plain/basic/task_queue.h
@@ -18,18 +18,19 @@ namespace plain {
 class TaskQueue {
 
 public:
-   void work_one() {
+   bool work_one() {
      std::function<void()> task;
      {
        std::unique_lock<std::mutex> lock(queue_mutex_);
-       if (tasks_.empty()) return;
+       if (tasks_.empty()) return false;
        task = std::move(tasks_.front());
        tasks_.pop();
      }
      task();
+     return true;
    }
    void work_all() {
-     while (!tasks_.empty()) work_one();
+     while (work_one());
    }
 
  public:
-- 
2.43.0


From 5f88f710671e59b153aad6f07526f86f6273f991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:21 +0000
Subject: [PATCH 095/158] fix: a thread function must be called again as long
 as it returns true

---
 framework/core/include/plain/sys/thread.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/include/plain/sys/thread.h b/framework/core/include/plain/sys/thread.h
index 22af1d0..139b4c2 100644
--- a/framework/core/include/plain/sys/thread.h
+++ b/framework/core/include/plain/sys/thread.h
@@ -186,13 +186,13 @@ thread_t create(const std::string_view &name, F &&f, Args &&... args) {
   auto task = std::make_shared< std::packaged_task<return_type()> >(
     std::bind(std::forward<F>(f), std::forward<Args>(args)...)
   );
-  auto r = thread_t([task, name](){ 
+  auto r = thread_t([task, name = std::string{name}](){ 
     set_name(name);
     start();
     ThreadCollect tc;
-    std::future<return_type> task_res = task->get_future();
     for (;;) {
       if (is_stopping()) break;
+      std::future<return_type> task_res = task->get_future();
       (*task)(); 
       (*task).reset(); //Remeber it, the packaged_task reset then can call again.
       using is_bool_result = std::is_same<bool, return_type>;
@@ -201,7 +201,7 @@ thread_t create(const std::string_view &name, F &&f, Args &&... args) {
 
     if (true == GLOBALS["app.debug"]) {
       auto id_str = get_id();
-      LOG_DEBUG << name.data() << " stopping with " << id_str;
+      LOG_DEBUG << name << " stopping with " << id_str;
     }
   });
 
-- 
2.43.0


From 6253d2033dcfdb188c3d74f5b48cb9d03ccefaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:21 +0000
Subject: [PATCH 096/158] fix: a console handler registered again must replace
 the one before

---
 framework/core/src/engine/kernel.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 2c65989..9d689ef 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -355,10 +355,10 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
 void Kernel::register_console_handler(
   std::string_view cmd, console_func func, std::string_view desc) noexcept {
   std::unique_lock<decltype(impl_->mutex)> auto_lock{impl_->mutex};
-  auto it = impl_->console_handlers.find(cmd.data());
+  auto it = impl_->console_handlers.find(std::string{cmd});
   if (it != impl_->console_handlers.end())
-    LOG_WARN << "cmd: " << cmd.data() << " handler will replace";
-  impl_->console_handlers.emplace(cmd, func);
+    LOG_WARN << "cmd: " << std::string{cmd} << " handler will replace";
+  impl_->console_handlers.insert_or_assign(std::string{cmd}, func);
   if (!desc.empty())
-    impl_->console_descs.emplace(cmd, desc);
+    impl_->console_descs.insert_or_assign(std::string{cmd}, std::string{desc});
 }
-- 
2.43.0


From 52051770056cf017be25f36103b5d81652a2ee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:21 +0000
Subject: [PATCH 097/158] fix: console handlers must be looked up with the lock
 they are registered with

---
 framework/core/src/engine/kernel.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 9d689ef..d56dc63 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -165,6 +165,8 @@ std::string Kernel::Impl::console_cmd_kill(
 
 std::string Kernel::Impl::console_cmd_help(
   const std::vector<std::string> &args) {
+  std::unique_lock<decltype(ENGINE->impl_->mutex)>
+    auto_lock{ENGINE->impl_->mutex};
   std::string r;
   if (args.empty()) {
     for (const auto &it : ENGINE->impl_->console_descs) {
@@ -331,10 +333,16 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
     explode(d, params, " ", true, true);
     if (params.empty()) return true;
     auto cmd = params[0];
-    auto it = ENGINE->impl_->console_handlers.find(cmd);
-    if (it == ENGINE->impl_->console_handlers.end()) return false;
+    console_func func;
+    {
+      std::unique_lock<decltype(ENGINE->impl_->mutex)>
+        auto_lock{ENGINE->impl_->mutex};
+      auto it = ENGINE->impl_->console_handlers.find(cmd);
+      if (it == ENGINE->impl_->console_handlers.end()) return false;
+      func = it->second;
+    }
     params.erase(params.begin());
-    auto r = it->second(params);
+    auto r = func(params);
     if (!r.empty()) {
       auto p = std::make_shared<net::packet::Basic>();
       p->set_writeable(true);
-- 
2.43.0


From 958e8301733f4067b69be29d3c9477bf7195fae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:21 +0000
Subject: [PATCH 098/158] fix: the console must know its codec and commands
 before it listens

---
 framework/core/src/engine/kernel.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index d56dc63..cc7e6ca 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -321,11 +321,6 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
   setting.address = addr;
   setting.name = "console";
   impl_->console_listener = std::make_unique<net::Listener>(setting);
-  if (!impl_->console_listener->start())
-    return false;
-  LOG_INFO << "console listen on " <<
-    impl_->console_listener->address().text();
-  
   impl_->console_listener->set_dispatcher([](
     net::connection::Basic *conn, std::shared_ptr<net::packet::Basic> packet){
     auto d = reinterpret_cast<const char *>(packet->data().data());
@@ -357,6 +352,11 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
   impl_->console_listener->set_codec(
     {.encode = net::stream::line_encode, .decode = net::stream::line_decode});
 
+  if (!impl_->console_listener->start())
+    return false;
+  LOG_INFO << "console listen on " <<
+    impl_->console_listener->address().text();
+
   return true;
 }
 
-- 
2.43.0


From 5ea87a4bfbd22fe6bbf5a0ddc8cafc9e3377e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:21 +0000
Subject: [PATCH 099/158] fix: a console which can not listen must be reported
 and allowed again

---
 framework/core/src/engine/kernel.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index cc7e6ca..4aa482f 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -352,8 +352,16 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
   impl_->console_listener->set_codec(
     {.encode = net::stream::line_encode, .decode = net::stream::line_decode});
 
-  if (!impl_->console_listener->start())
+  bool started{false};
+  try {
+    started = impl_->console_listener->start();
+  } catch (const std::exception &e) {
+    LOG_ERROR << "console start failed: " << e.what();
+  }
+  if (!started) {
+    impl_->console_listener.reset();
     return false;
+  }
   LOG_INFO << "console listen on " <<
     impl_->console_listener->address().text();
 
-- 
2.43.0


From 95ed72a314dd1133f32726267f24c72e15999bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:21 +0000
Subject: [PATCH 100/158] fix: the background executor must use its own options

---
 framework/core/src/engine/kernel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 4aa482f..905ab42 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -216,8 +216,8 @@ Kernel::Kernel(const engine_option &option) : impl_{std::make_unique<Impl>()} {
   impl_->registered_executors.register_executor(impl_->thread_pool_executor);
 
   impl_->background_executor = std::make_shared<executor::ThreadPool>(
-    "thread background executor", option.max_cpu_threads, 
-    option.max_thread_pool_executor_waiting_time,
+    "thread background executor", option.max_background_threads, 
+    option.max_background_executor_waiting_time,
     option.thread_started_callback,
     option.thread_terminated_callback
   );
-- 
2.43.0


From 60bdba66e96504ef37c46ba626fe591e7a7da24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:21 +0000
Subject: [PATCH 101/158] fix: a net removed by a view of its name must be
 found

---
 framework/core/src/engine/kernel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 905ab42..d9a9370 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -311,7 +311,7 @@ void Kernel::remove(std::shared_ptr<net::connection::Manager> net) noexcept {
    
 void Kernel::remove_net(std::string_view name) noexcept {
   std::unique_lock<decltype(impl_->mutex)> auto_lock{impl_->mutex};
-  impl_->nets.erase(name.data());
+  impl_->nets.erase(std::string{name});
 }
 
 bool Kernel::enable_console(std::string_view addr) noexcept {
-- 
2.43.0


From a7ba27a5d8ca09ae12e249b68412c5e255909559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:18 +0000
Subject: [PATCH 102/158] fix: the pool allocator must compile with its default
 pool

---
 framework/core/include/plain/sys/memory/pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index 3c4c2e8..7d8df1a 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -592,7 +592,7 @@ struct PoolAllocator : public std::allocator<T>  {
   T *allocate(std::size_t n) {
     if (n > std::numeric_limits<std::size_t>::max() / sizeof (T))
       throw std::bad_alloc();
-    if (std::is_same<FAllocator, PoolNull>::value) {
+    if constexpr (std::is_same<FAllocator, PoolNull>::value) {
       if (auto p = static_cast<T *>(
             PLAIN_MALLOC(Pool<>::instance(), (n * sizeof (T)))))
         return p;
@@ -610,7 +610,7 @@ struct PoolAllocator : public std::allocator<T>  {
   } // alloc
 
   void deallocate(T *p, std::size_t) noexcept {
-    if (std::is_same<FAllocator, PoolNull>::value) {
+    if constexpr (std::is_same<FAllocator, PoolNull>::value) {
       PLAIN_FREE(Pool<>::instance(),  p);
     } else {
       if (allocator_) {
-- 
2.43.0


From b8f84b16c1bf6918cd961c8d0610fa320456c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:43 +0000
Subject: [PATCH 103/158] fix: containers of different memory pools must not
 free to each other

---
 .../core/include/plain/sys/memory/pool.h      | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index 7d8df1a..1dbd4ac 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -586,8 +586,11 @@ struct PoolAllocator : public std::allocator<T>  {
   PoolAllocator(MyAllocatorType *in_allocator) : allocator_(in_allocator) {
 
   }
-  template <class U> constexpr PoolAllocator(const PoolAllocator<U> &)
-  noexcept {}
+  template <class U> constexpr PoolAllocator(
+    const PoolAllocator<U, FAllocator> &other) noexcept
+    : allocator_(other.allocator_) {}
+  // Two of them are equal only if they use the same pool.
+  using is_always_equal = std::false_type;
 
   T *allocate(std::size_t n) {
     if (n > std::numeric_limits<std::size_t>::max() / sizeof (T))
@@ -630,14 +633,16 @@ struct PoolAllocator : public std::allocator<T>  {
   void destroy(_Up* __p) { __p->~_Up(); }
 };
 
-template <class T, class U>
-bool operator == (const PoolAllocator<T>&, const PoolAllocator<U>&) {
-  return true;
+template <class T, class U, class FAllocator>
+bool operator == (const PoolAllocator<T, FAllocator> &lhs,
+                  const PoolAllocator<U, FAllocator> &rhs) {
+  return lhs.allocator_ == rhs.allocator_;
 }
 
-template<class T, class U>
-bool operator != (const PoolAllocator<T>&, const PoolAllocator<U>&) {
-  return false;
+template<class T, class U, class FAllocator>
+bool operator != (const PoolAllocator<T, FAllocator> &lhs,
+                  const PoolAllocator<U, FAllocator> &rhs) {
+  return !(lhs == rhs);
 }
 
 } // namespace plain::memory
-- 
2.43.0


From 4a369ba8e15a7386df995ed632c5c36ca0a1df75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:12 +0000
Subject: [PATCH 104/158] fix: killall must not stop the console which works on
 it

---
 framework/core/src/engine/kernel.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index d9a9370..4bd041a 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -136,7 +136,9 @@ std::string Kernel::Impl::console_cmd_kill(
   if (nets.empty()) return "failed";
   if (args.empty()) {
     // killall
+    // The console works on this command and can not be stopped by it.
     for (auto it : nets) {
+      if (it.first == "console") continue;
       auto net = it.second.lock();
       if (net) net->stop();
     }
-- 
2.43.0


From 2f273c3c434f0586a0da9ea134f185413bffaace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 105/158] fix: a connection must not work in two threads at
 once

With an executor of several threads an event while a connection works was
enqueued again, so two threads read, decoded and removed it together.
---
 framework/core/src/net/connection/manager.cc | 61 ++++++++++----------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 252740d..dcc3938 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -1,5 +1,6 @@
 #include "plain/net/connection/manager.h"
 #include <set>
+#include <algorithm>
 #include <array>
 #include <deque>
 #include <map>
@@ -58,6 +59,7 @@ struct Manager::Impl {
   std::atomic_uint32_t working_conn_count{0};
   std::deque<connection::id_t> wait_work_conn_id_deque;
   std::set<connection::id_t> wait_work_conn_ids;
+  std::set<connection::id_t> working_conn_ids;
   int32_t working_conn_max_count{32};
   std::latch latch{1};
 
@@ -157,43 +159,39 @@ bool Manager::Impl::wait_work(std::shared_ptr<Manager> manager) noexcept {
 void Manager::Impl::work(
   std::shared_ptr<Manager> manager, connection::id_t id) noexcept {
   auto conn = manager->get_conn(id);
-  bool r{false};
-  bool enqueue_work{true};
-  // Ensure end work try to enqueue working.
-  scoped_executor_t scoped_enqueue([&enqueue_work, manager]() {
-    if (enqueue_work) manager->enqueue(connection::kInvalidId);
-  });
-  {
-    scoped_executor_t scoped_executor([manager]() {
-      auto old_working_conn_count =
-        manager->impl_->working_conn_count.load(std::memory_order_acquire);
-      if (old_working_conn_count > 0) {
-        std::atomic_signal_fence(std::memory_order_release);
-        manager->impl_->working_conn_count.fetch_sub(
-          1, std::memory_order_release);
-      }
-    });
-    if (!conn) return;
-    // A socket with an error is still to remove(work will fail).
-    if (conn->socket()->id() == socket::kInvalidId) return;
-    if (!conn->is_ready()) return; // Used again and still connecting.
-    r = conn->work();
+  bool again{false};
+  // A socket with an error is still to remove(work will fail).
+  // Not ready: used again and still connecting.
+  if (conn && conn->socket()->id() != socket::kInvalidId && conn->is_ready()) {
+    if (conn->work()) {
+      again = !conn->idle();
+    } else {
+      manager->remove(conn);
+    }
     PLAIN_VERIF_POINT(47);
   }
-  if (!r) {
-    manager->remove(conn);
-  } else {
-    if (!conn->idle()) {
-       manager->enqueue(id);
-       enqueue_work = false;
-    }
+  {
+    std::unique_lock<decltype(manager->impl_->mutex)>
+      lock{manager->impl_->mutex};
+    manager->impl_->working_conn_ids.erase(id);
+    auto old_working_conn_count =
+      manager->impl_->working_conn_count.load(std::memory_order_acquire);
+    if (old_working_conn_count > 0)
+      manager->impl_->working_conn_count.fetch_sub(
+        1, std::memory_order_release);
   }
+  // Ensure end work try to enqueue working.
+  manager->enqueue(again ? id : connection::kInvalidId);
 }
 
 plain::net::connection::id_t Manager::Impl::pop_work_id() noexcept {
-  if (wait_work_conn_id_deque.empty()) return connection::kInvalidId;
-  auto r = wait_work_conn_id_deque.front();
-  wait_work_conn_id_deque.pop_front();
+  // A connection never works in two threads at once.
+  auto work_it = std::find_if(
+    wait_work_conn_id_deque.begin(), wait_work_conn_id_deque.end(),
+    [this](auto id) { return !working_conn_ids.contains(id); });
+  if (work_it == wait_work_conn_id_deque.end()) return connection::kInvalidId;
+  auto r = *work_it;
+  wait_work_conn_id_deque.erase(work_it);
   auto it = wait_work_conn_ids.find(r);
   if (it != wait_work_conn_ids.end())
     wait_work_conn_ids.erase(it);
@@ -620,6 +618,7 @@ void Manager::enqueue(connection::id_t id) noexcept {
     if (id == connection::kInvalidId) return;
 		std::atomic_signal_fence(std::memory_order_release);
     impl_->working_conn_count.fetch_add(1, std::memory_order_release);
+    impl_->working_conn_ids.emplace(id);
     impl_->executor->enqueue([m = shared_from_this(), id]() {
       Manager::Impl::work(m, id);
     });
-- 
2.43.0


From 0e8d85e7b2fedc01ef1885a0633f302725662f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 106/158] fix: the work limit of a net must not overflow with
 an unlimited executor

---
 framework/core/src/net/connection/manager.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index dcc3938..adc56dd 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -5,6 +5,7 @@
 #include <deque>
 #include <map>
 #include <latch>
+#include <limits>
 #include "plain/basic/utility.h"
 #include "plain/basic/verif.h"
 #include "plain/concurrency/executor/basic.h"
@@ -219,7 +220,9 @@ Manager::Manager(
   impl_->executor = executor;
   impl_->init_connections(setting.default_count);
   impl_->working_conn_max_count = impl_->executor->max_concurrency_level();
-  if (impl_->working_conn_max_count > 0) impl_->working_conn_max_count *= 2;
+  if (impl_->working_conn_max_count > 0 &&
+      impl_->working_conn_max_count <= std::numeric_limits<int32_t>::max() / 2)
+    impl_->working_conn_max_count *= 2;
   impl_->connection_info.ids = std::make_shared<std::set<connection::id_t>>();
 }
 
-- 
2.43.0


From f7d9761fc56f4d7bf8c2c83434be519caa974f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:24 +0000
Subject: [PATCH 107/158] fix: the counts of a net must not be read while they
 change

---
 framework/core/src/net/connection/manager.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index adc56dd..c11f58e 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -30,7 +30,7 @@ struct ConnectionInfo {
   std::vector<std::shared_ptr<plain::net::connection::Basic>> list;
   std::shared_ptr<std::set<id_t>> ids; // The valid ids.
   std::set<id_t> free_ids;
-  size_t size{0};
+  std::atomic_size_t size{0}; // The worker waits for it with another mutex.
   id_t max_id{0};
 };
 
@@ -385,6 +385,7 @@ std::shared_ptr<plain::net::connection::Basic> Manager::new_conn() noexcept {
 }
   
 bool Manager::is_full() const noexcept {
+  std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
   return impl_->connection_info.free_ids.empty() &&
     impl_->connection_info.max_id != kInvalidId &&
     impl_->connection_info.max_id >= static_cast<id_t>(setting_.max_count);
@@ -599,10 +600,12 @@ void Manager::increase_recv_size(size_t size) {
 }
 
 uint64_t Manager::send_size() const noexcept {
+  std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
   return impl_->send_size;
 }
 
 uint64_t Manager::recv_size() const noexcept {
+  std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
   return impl_->recv_size;
 }
 
-- 
2.43.0


From e9cc781eda0e59cbc3b501b6bf435d647bd39fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:24 +0000
Subject: [PATCH 108/158] fix: a socket must be closed by one thread only once

---
 framework/core/src/net/socket/basic.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/net/socket/basic.cc b/framework/core/src/net/socket/basic.cc
index 1c7ae20..881aa63 100644
--- a/framework/core/src/net/socket/basic.cc
+++ b/framework/core/src/net/socket/basic.cc
@@ -9,7 +9,7 @@
 using plain::net::socket::Basic;
 
 struct Basic::Impl {
-  id_t id{kInvalidId};
+  std::atomic<id_t> id{kInvalidId}; // A connection is used by many threads.
   Type type{Type::Tcp};
 };
 
@@ -36,14 +36,13 @@ bool Basic::create(int32_t domain, int32_t type, int32_t protocol) {
 }
 
 bool Basic::close() noexcept {
-  if (impl_->id == kInvalidId) return true;
-  return socket::close(release());
+  auto id = release();
+  if (id == kInvalidId) return true;
+  return socket::close(id);
 }
 
 plain::net::socket::id_t Basic::release() noexcept {
-  auto r = impl_->id;
-  impl_->id = kInvalidId;
-  return r;
+  return impl_->id.exchange(kInvalidId);
 }
 
 Basic Basic::clone() noexcept {
-- 
2.43.0


From 1007bf65acf3d8b369b75e5bc8f822dfac761844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:31 +0000
Subject: [PATCH 109/158] fix: the connection ids must not change while they
 are gone through

---
 framework/core/src/net/connection/manager.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index c11f58e..46184b0 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -432,26 +432,28 @@ void Manager::remove(
   
 void Manager::broadcast(std::shared_ptr<packet::Basic> packet) noexcept {
   assert(packet);
-  decltype(impl_->connection_info.ids) ids;
+  std::vector<connection::id_t> ids;
   {
+    // The set may change(in place) as soon as it is not locked.
     std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
-    ids = impl_->connection_info.ids;
+    ids.assign(
+      impl_->connection_info.ids->begin(), impl_->connection_info.ids->end());
   }
-  if (ids.use_count() == 0) return;
-  for (auto id : *ids) {
+  for (auto id : ids) {
     auto conn = get_conn(id);
     if (conn && conn->valid()) conn->send(packet);
   }
 }
 
 void Manager::foreach(std::function<void(std::shared_ptr<Basic> conn)> func) {
-  decltype(impl_->connection_info.ids) ids;
+  std::vector<connection::id_t> ids;
   {
+    // The set may change(in place) as soon as it is not locked.
     std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
-    ids = impl_->connection_info.ids;
+    ids.assign(
+      impl_->connection_info.ids->begin(), impl_->connection_info.ids->end());
   }
-  if (ids.use_count() == 0) return;
-  for (auto id : *ids) {
+  for (auto id : ids) {
     auto conn = get_conn(id);
     if (conn && conn->valid()) func(conn);
   }
-- 
2.43.0


From 6ae933fd31185b926cdc9d00a22fbb0d93e19626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:50 +0000
Subject: [PATCH 110/158] fix: a connection used again must not change while it
 is sending

---
 framework/core/src/net/connection/basic.cc   | 25 +++++++++++++-------
 framework/core/src/net/connection/manager.cc |  7 ++++--
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index e124fb4..cb71e9d 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -437,15 +437,19 @@ bool Basic::init() noexcept {
   set_ready(false);
   if (!impl_->socket->close()) return false;
   impl_->working.store(false, std::memory_order_relaxed);
-  impl_->work_flags = 0;
-  impl_->error_times = 0;
-  impl_->istream->clear();
-  impl_->ostream->clear();
+  {
+    // Who still has the connection may send now.
+    std::unique_lock<std::mutex> lock{impl_->mutex};
+    impl_->work_flags = 0;
+    impl_->error_times = 0;
+    impl_->istream->clear();
+    impl_->ostream->clear();
+    // Not those of the connection that had it before.
+    impl_->codec = {};
+    impl_->dispatcher = {};
+  }
   impl_->clear_callings();
   impl_->call_index = 0;
-  // Not those of the connection that had it before.
-  impl_->codec = {};
-  impl_->dispatcher = {};
   clear_call_timeout();
   auto connect_call_key = get_callable_key(this, "__connect");
   auto disconnect_call_key = get_callable_key(this, "__disconnect");
@@ -569,8 +573,11 @@ void Basic::on_connect() noexcept {
 }
   
 void Basic::on_disconnect() noexcept {
-  impl_->istream->clear();
-  impl_->ostream->clear();
+  {
+    std::unique_lock<std::mutex> lock{impl_->mutex}; // Not while it is sending.
+    impl_->istream->clear();
+    impl_->ostream->clear();
+  }
   impl_->working.store(false, std::memory_order_relaxed);
   check_callable(this, "__disconnect");
 }
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 46184b0..acf45e2 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -365,9 +365,12 @@ std::shared_ptr<plain::net::connection::Basic> Manager::new_conn() noexcept {
   if (id == kInvalidId) return {};
   auto r = impl_->connection_info.list[id - 1];
   if (!r) r = std::make_shared<Basic>();
-  r->set_id(id);
   r->init();
-  r->set_manager(shared_from_this());
+  // Of a slot these never change, who has the connection may use them now.
+  if (r->id() != id) {
+    r->set_id(id);
+    r->set_manager(shared_from_this());
+  }
   ++(impl_->connection_info.size);
   if (impl_->connection_info.ids.use_count() > 1) {
     impl_->connection_info.ids.reset(
-- 
2.43.0


From d5dcbdcff76babb2d8263913b157105f15e638af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:50 +0000
Subject: [PATCH 111/158] fix: a connection must be connected again to the
 given address only

The view need not end with a zero.
---
 framework/core/src/net/connector.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connector.cc b/framework/core/src/net/connector.cc
index 88a89df..ba7291a 100644
--- a/framework/core/src/net/connector.cc
+++ b/framework/core/src/net/connector.cc
@@ -179,7 +179,8 @@ bool Connector::connect(
   std::string_view address) noexcept {
   if (!conn || conn->id() == connection::kInvalidId) return false;
   std::string addr =
-    address.empty() ? conn->socket()->peer_address().text() : address.data();
+    address.empty() ?
+    conn->socket()->peer_address().text() : std::string{address};
   if (addr.empty()) return false;
   auto success = conn->socket()->connect(addr, timeout, conn->socket()->type());
   if (!success) {
-- 
2.43.0


From e6117405687db55e8cb4661ff31efba3afd8476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:50 +0000
Subject: [PATCH 112/158] fix: a connection must be connected again to its last
 address by default

A closed socket has no peer address, so it always failed.
---
 framework/core/src/net/connector.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/connector.cc b/framework/core/src/net/connector.cc
index ba7291a..d37b3af 100644
--- a/framework/core/src/net/connector.cc
+++ b/framework/core/src/net/connector.cc
@@ -1,4 +1,6 @@
 #include "plain/net/connector.h"
+#include <map>
+#include <mutex>
 #include "plain/concurrency/executor/basic.h"
 #include "plain/net/connection/manager.h"
 #include "plain/net/connection/basic.h"
@@ -10,6 +12,17 @@ using plain::net::Connector;
 
 struct Connector::Impl {
   std::shared_ptr<connection::Manager> manager;
+  std::mutex mutex;
+  std::map<connection::id_t, std::string> addresses; // Of the last connect.
+  void set_address(connection::id_t id, const std::string &address) {
+    std::unique_lock<std::mutex> lock{mutex};
+    addresses.insert_or_assign(id, address);
+  }
+  std::string get_address(connection::id_t id) {
+    std::unique_lock<std::mutex> lock{mutex};
+    auto it = addresses.find(id);
+    return it == addresses.end() ? std::string{} : it->second;
+  }
 };
 
   
@@ -118,6 +131,7 @@ Connector::connect_impl(
     LOG_ERROR << "connect " << addr << " failed: " << socket::get_last_error();
     return {};
   }
+  impl_->set_address(conn->id(), conn->socket()->peer_address().text());
   auto sock = conn->socket();
   if (!sock->set_nonblocking()) {
     impl_->manager->remove(conn, true, false);
@@ -178,15 +192,16 @@ bool Connector::connect(
   const std::chrono::milliseconds &timeout,
   std::string_view address) noexcept {
   if (!conn || conn->id() == connection::kInvalidId) return false;
+  // The socket is closed and has no peer any more.
   std::string addr =
-    address.empty() ?
-    conn->socket()->peer_address().text() : std::string{address};
+    address.empty() ? impl_->get_address(conn->id()) : std::string{address};
   if (addr.empty()) return false;
   auto success = conn->socket()->connect(addr, timeout, conn->socket()->type());
   if (!success) {
     LOG_ERROR << "connect " << addr << " failed: " << socket::get_last_error();
     return false;
   }
+  impl_->set_address(conn->id(), addr);
   auto sock = conn->socket();
   if (!sock->set_nonblocking()) {
     LOG_ERROR << "set_nonblocking failed: " << socket::get_last_error();
-- 
2.43.0


From 46e71968ee3a2e17a0e4a4940e5d5f76e709beb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:50 +0000
Subject: [PATCH 113/158] fix: only a closed, kept connection must be connected
 again, from fresh

A connected one was reported as connected again, and the work flags left of
the last time kept what is sent afterwards from being sent.
---
 framework/core/include/plain/net/connection/basic.h |  1 +
 framework/core/src/net/connection/basic.cc          | 11 +++++++++++
 framework/core/src/net/connector.cc                 | 10 ++++++++++
 3 files changed, 22 insertions(+)

diff --git a/framework/core/include/plain/net/connection/basic.h b/framework/core/include/plain/net/connection/basic.h
index f58f64f..7eee1ba 100644
--- a/framework/core/include/plain/net/connection/basic.h
+++ b/framework/core/include/plain/net/connection/basic.h
@@ -137,6 +137,7 @@ Basic final : noncopyable {
   bool is_keep_alive() const noexcept;
   void set_ready(bool flag) noexcept; // The socket is connected.
   bool is_ready() const noexcept;
+  void reset() noexcept; // To connect again, with the same settings.
 
  private:
   bool work() noexcept;
diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index cb71e9d..60be3be 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -582,6 +582,17 @@ void Basic::on_disconnect() noexcept {
   check_callable(this, "__disconnect");
 }
 
+void Basic::reset() noexcept {
+  {
+    std::unique_lock<std::mutex> lock{impl_->mutex};
+    impl_->work_flags = 0;
+    impl_->error_times = 0;
+    impl_->istream->clear();
+    impl_->ostream->clear();
+  }
+  impl_->clear_callings();
+}
+
 void Basic::set_keep_alive(bool flag) const noexcept {
   impl_->keep_alive.store(flag, std::memory_order_relaxed);
 }
diff --git a/framework/core/src/net/connector.cc b/framework/core/src/net/connector.cc
index d37b3af..974e44a 100644
--- a/framework/core/src/net/connector.cc
+++ b/framework/core/src/net/connector.cc
@@ -196,6 +196,14 @@ bool Connector::connect(
   std::string addr =
     address.empty() ? impl_->get_address(conn->id()) : std::string{address};
   if (addr.empty()) return false;
+  bool closed{false};
+  // Not while it is removed, and not with what was left of the last time.
+  impl_->manager->execute([this, conn, &closed] {
+    closed = get_conn(conn->id()).get() == conn && conn->is_keep_alive() &&
+      conn->socket()->id() == socket::kInvalidId;
+    if (closed) conn->reset();
+  });
+  if (!closed) return false;
   auto success = conn->socket()->connect(addr, timeout, conn->socket()->type());
   if (!success) {
     LOG_ERROR << "connect " << addr << " failed: " << socket::get_last_error();
@@ -221,6 +229,8 @@ bool Connector::connect(
   const auto &callback = impl_->manager->connect_callback();
   if (static_cast<bool>(callback))
     callback(conn);
+  // What was sent before it was ready.
+  if (!conn->idle()) impl_->manager->enqueue(conn->id());
   return true;
 }
 
-- 
2.43.0


From 3adf81e14c92e5d1642da4e973f7491145d7e21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:50 +0000
Subject: [PATCH 114/158] fix: the place of a kept connection must be free when
 it is given up

Or if it could not be connected at first.
---
 framework/core/src/net/connection/manager.cc |  4 +++-
 framework/core/src/net/connector.cc          | 12 ++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index acf45e2..122c2d3 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -421,7 +421,9 @@ void Manager::remove(
       this->sock_remove(conn->socket()->id());
     conn->shutdown();
     conn->close();
-    if (conn->is_keep_alive()) return; // The connector will keep alive.
+    // The connector will keep alive(not what was never connected).
+    if (!no_event && conn->is_keep_alive()) return;
+    conn->set_keep_alive(false);
   }
   impl_->connection_info.free_ids.emplace(conn_id);
   if (impl_->connection_info.size > 0)
diff --git a/framework/core/src/net/connector.cc b/framework/core/src/net/connector.cc
index 974e44a..dd70354 100644
--- a/framework/core/src/net/connector.cc
+++ b/framework/core/src/net/connector.cc
@@ -159,9 +159,7 @@ Connector::connect_impl(
   
 void Connector::set_keep_alive(
 	std::shared_ptr<connection::Basic> conn, bool flag) noexcept {
-   auto _conn = get_conn(conn->id());
-   if (!_conn || _conn != conn) return;
-   conn->set_keep_alive(flag);
+   set_keep_alive(conn.get(), flag);
 }
   
 bool Connector::is_keep_alive(
@@ -173,7 +171,13 @@ void Connector::set_keep_alive(connection::Basic *conn, bool flag) noexcept {
   if (!conn) return;
   auto _conn = get_conn(conn->id());
   if (!_conn || _conn.get() != conn) return;
-  conn->set_keep_alive(flag);
+  impl_->manager->execute([this, conn, flag] {
+    auto kept = conn->is_keep_alive();
+    conn->set_keep_alive(flag);
+    // Closed and not kept any more: its place is free.
+    if (kept && !flag && conn->socket()->id() == socket::kInvalidId)
+      impl_->manager->remove(conn->id(), true, false);
+  });
 }
   
 bool Connector::is_keep_alive(connection::Basic *conn) const noexcept {
-- 
2.43.0


From 0285d76efb6f2bdd2086a0ce210ffb20588ff916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:00 +0000
Subject: [PATCH 115/158] fix: a connection that could not be connected again
 must be closed

---
 framework/core/src/net/connector.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/framework/core/src/net/connector.cc b/framework/core/src/net/connector.cc
index dd70354..3781df5 100644
--- a/framework/core/src/net/connector.cc
+++ b/framework/core/src/net/connector.cc
@@ -211,21 +211,26 @@ bool Connector::connect(
   auto success = conn->socket()->connect(addr, timeout, conn->socket()->type());
   if (!success) {
     LOG_ERROR << "connect " << addr << " failed: " << socket::get_last_error();
+    conn->close(); // It can be tried again.
     return false;
   }
   impl_->set_address(conn->id(), addr);
   auto sock = conn->socket();
   if (!sock->set_nonblocking()) {
     LOG_ERROR << "set_nonblocking failed: " << socket::get_last_error();
+    conn->close();
     return false;
   }
   if (!sock->set_linger(0)) {
     LOG_ERROR << "set_linger(0) failed: " << socket::get_last_error();
+    conn->close();
     return false;
   }
   conn->set_ready(true);
   if (!impl_->manager->sock_add(sock->id(), conn->id())) {
     LOG_ERROR << "sock add failed";
+    conn->set_ready(false);
+    conn->close();
     return false;
   }
   impl_->manager->send_ctrl_cmd("w"); // wakeup to add socket descriptor.
-- 
2.43.0


From de24b9f17bce041321242b9b42d7b1b904cffa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:39 +0000
Subject: [PATCH 116/158] fix: a connecting socket must not be removed for a
 closed one of its id

The select reports a socket which is closed meanwhile in all its sets.
---
 framework/core/src/net/connection/select.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index b5c1d35..364c22e 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -141,7 +141,8 @@ void Select::handle_io() noexcept {
       {
         // What is found then is of a closed socket which had the same id.
         std::unique_lock lock{impl_->mutex};
-        if (impl_->new_fds.contains(id)) return;
+        if (impl_->new_fds.contains(id) || !impl_->valid_fds.contains(id))
+          return;
       }
       if (FD_ISSET(id, &impl_->except_fds.use)) {
         LOG_ERROR << setting_.name << " connection has except: " << conn->id();
-- 
2.43.0


From d0de1913aebc1da5e812e918bc390b26141462b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:39 +0000
Subject: [PATCH 117/158] fix: a connection must not be removed while it works
 in the executor

---
 framework/core/src/net/connection/basic.cc  | 9 +++++----
 framework/core/src/net/connection/select.cc | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 60be3be..9fec727 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -231,8 +231,7 @@ bool Basic::Impl::process_command(Basic *conn) noexcept {
 }
 
 bool Basic::Impl::process_exception() noexcept {
-  if (!has_work_flag(WorkFlag::Except)) return true;
-  return true;
+  return !has_work_flag(WorkFlag::Except);
 }
 
 bool Basic::Impl::work(Basic *conn) noexcept {
@@ -603,9 +602,11 @@ bool Basic::is_keep_alive() const noexcept {
 
 void Basic::set_ready(bool flag) noexcept {
   std::unique_lock<std::mutex> lock{impl_->mutex};
-  // An input before it is ready was of the connection that had it before.
+  // An event before it is ready was of the connection that had it before.
   if (flag)
-    impl_->work_flags &= ~(0x1 << std::to_underlying(WorkFlag::Input));
+    impl_->work_flags &= ~(
+      (0x1 << std::to_underlying(WorkFlag::Input)) |
+      (0x1 << std::to_underlying(WorkFlag::Except)));
   impl_->ready.store(flag, std::memory_order_release);
 }
 
diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 364c22e..9c236cc 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -146,7 +146,8 @@ void Select::handle_io() noexcept {
       }
       if (FD_ISSET(id, &impl_->except_fds.use)) {
         LOG_ERROR << setting_.name << " connection has except: " << conn->id();
-        this->remove(conn->id());
+        // In the executor as the other connection works.
+        conn->enqueue_work(WorkFlag::Except);
         return;
       } else if (FD_ISSET(id, &impl_->read_fds.use)) {
         conn->enqueue_work(WorkFlag::Input);
-- 
2.43.0


From dadcdb375c75480fd316a3dc0165165012b53988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:21 +0000
Subject: [PATCH 118/158] fix: a socket connected at once must keep its
 blocking mode

---
 framework/core/src/net/socket/api.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/socket/api.cc b/framework/core/src/net/socket/api.cc
index 6a42f37..6cefc90 100644
--- a/framework/core/src/net/socket/api.cc
+++ b/framework/core/src/net/socket/api.cc
@@ -224,11 +224,11 @@ bool connect(
   const auto connect_errno = 0;
 #endif
   bool r = e != kSocketError;
-  if (r) return r;
   if (!nonblocking && !set_nonblocking(id, false)) {
     set_error();
     return false;
   }
+  if (r) return r;
 #if OS_WIN
   if (connect_errno != WSAEINPROGRESS && connect_errno != WSAEWOULDBLOCK) {
     set_error();
-- 
2.43.0


From 0c9a4fa13aa123022a545ebfc9fe7c4c00fe62b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:21 +0000
Subject: [PATCH 119/158] fix: a connect must work with any descriptor and be
 safe of signals

The fd_set was written out of its bounds with ids of 1024 and more.
---
 framework/core/src/net/socket/api.cc | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/framework/core/src/net/socket/api.cc b/framework/core/src/net/socket/api.cc
index 6cefc90..357fad9 100644
--- a/framework/core/src/net/socket/api.cc
+++ b/framework/core/src/net/socket/api.cc
@@ -1,6 +1,10 @@
 #include "plain/net/socket/api.h"
 #include <errno.h>
+#include <algorithm>
+#include <chrono>
+#include <limits>
 #if OS_UNIX || OS_MAC
+#include <poll.h>
 #include <signal.h>
 #endif
 #include "plain/file/api.h"
@@ -240,6 +244,27 @@ bool connect(
     return false;
   }
 #endif
+#if OS_UNIX || OS_MAC
+  // Not a select, the id may be out of a fd_set.
+  pollfd poll_fd{id, POLLIN | POLLOUT, 0};
+  const auto end = std::chrono::steady_clock::now() + timeout;
+  for (;;) {
+    int32_t wait_time{-1};
+    if (timeout.count() > 0) {
+      auto left = std::chrono::ceil<std::chrono::milliseconds>(
+        end - std::chrono::steady_clock::now()).count();
+      wait_time = static_cast<int32_t>(std::clamp<decltype(left)>(
+        left, 0, std::numeric_limits<int32_t>::max()));
+    }
+    e = ::poll(&poll_fd, 1, wait_time);
+    if (e == kSocketError && errno == EINTR) continue; // Still connecting.
+    break;
+  }
+  if (e == kSocketError) {
+    set_error();
+    return false;
+  }
+#else
   auto read_fds = fd_set{};
   FD_ZERO(&read_fds);
   FD_SET(id, &read_fds);
@@ -255,6 +280,7 @@ bool connect(
   } else {
     e = socket::select(FD_SETSIZE, &read_fds, &write_fds, nullptr, nullptr); 
   }
+#endif
   r = (e > 0);
   if (!r) {
     // zero return is mean timeout.
-- 
2.43.0


From 5183859cb7ebbb41b03352d1a523cd1e6cbdde42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:21 +0000
Subject: [PATCH 120/158] fix: a socket error must not have the message of an
 earlier one

---
 framework/core/src/net/socket/api.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/net/socket/api.cc b/framework/core/src/net/socket/api.cc
index 357fad9..945314a 100644
--- a/framework/core/src/net/socket/api.cc
+++ b/framework/core/src/net/socket/api.cc
@@ -135,6 +135,7 @@ static void set_error(int32_t e) {
       break;
     }
     default : {
+      s_error.set_message(strerror(e)); // Not that of the last error.
       break;
     }
   }
-- 
2.43.0


From ff770cad8f7d09655ef2eb3d6f5804a3bbcf6247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:21 +0000
Subject: [PATCH 121/158] fix: an accept must tell the address of the peer

---
 framework/core/src/net/socket/basic.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/socket/basic.cc b/framework/core/src/net/socket/basic.cc
index 881aa63..01fffca 100644
--- a/framework/core/src/net/socket/basic.cc
+++ b/framework/core/src/net/socket/basic.cc
@@ -214,10 +214,15 @@ bool Basic::listen(uint32_t backlog) {
 int32_t Basic::accept(Address &addr) {
   int32_t r{kInvalidId};
   if (!valid()) return r;
-  auto d = addr.data();
-  uint32_t len{static_cast<uint32_t>(d.size())};
-  auto ptr = reinterpret_cast<sockaddr *>(d.data());
+  auto store = sockaddr_storage{};
+  uint32_t len{static_cast<uint32_t>(sizeof(store))};
+  auto ptr = reinterpret_cast<sockaddr *>(&store);
   r = socket::accept(impl_->id, ptr, &len);
+  if (r == kInvalidId) return r;
+  Address::value_type value;
+  value.insert(
+    0, reinterpret_cast<Address::value_type::value_type *>(&store), len);
+  addr = Address{value};
   return r;
 }
   
-- 
2.43.0


From 2e734239df3d8fa5b8985d73b5a45ed819259473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:47 +0000
Subject: [PATCH 122/158] fix: a select net must refuse descriptors out of its
 sets

---
 framework/core/src/net/connection/select.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 9c236cc..e28afbe 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -85,6 +85,7 @@ Select::Select(
 Select::~Select() = default;
 
 bool Select::prepare() noexcept {
+  if (listen_fd_ >= FD_SETSIZE) return false; // Out of the sets.
   if (listen_fd_ != socket::kInvalidId) {
     FD_SET(listen_fd_, &impl_->read_fds.full);
     FD_SET(listen_fd_, &impl_->except_fds.full);
@@ -171,6 +172,7 @@ bool Select::sock_add(
   assert(impl_->fd_size < FD_SETSIZE);
   assert(sock_id != socket::kInvalidId);
   assert(conn_id != connection::kInvalidId);
+  if (sock_id >= FD_SETSIZE) return false; // Out of the sets.
 
   FD_SET(sock_id, &impl_->read_fds.full);
   FD_SET(sock_id, &impl_->write_fds.full);
@@ -184,6 +186,7 @@ bool Select::sock_add(
 bool Select::sock_remove(socket::id_t sock_id) noexcept {
   std::unique_lock lock{impl_->mutex};
   assert(sock_id != socket::kInvalidId);
+  if (sock_id >= FD_SETSIZE) return false; // Never added.
   auto id = static_cast<uint32_t>(sock_id);
   // The used sets belong to the select under way, which may write them now.
   FD_CLR(id, &impl_->read_fds.full);
-- 
2.43.0


From ef215f44cfc3b610b5396d517de3b1a5d822f9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:32 +0000
Subject: [PATCH 123/158] fix: a socket which does not linger must not tell its
 last linger time

---
 framework/core/src/net/socket/basic.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/socket/basic.cc b/framework/core/src/net/socket/basic.cc
index 01fffca..22eb412 100644
--- a/framework/core/src/net/socket/basic.cc
+++ b/framework/core/src/net/socket/basic.cc
@@ -183,10 +183,10 @@ bool Basic::bind() {
 uint32_t Basic::get_linger() const noexcept {
   if (!valid()) return 0;
   uint32_t result{0};
-  struct linger getlinger;
+  struct linger getlinger{};
   uint32_t length = sizeof(getlinger);
   getsockoptb(impl_->id, SOL_SOCKET, SO_LINGER, &getlinger, &length);
-  result = getlinger.l_linger;
+  if (getlinger.l_onoff) result = getlinger.l_linger; // Else the last one.
   return result;
 }
   
-- 
2.43.0


From 551c1161adfc7d1d4a564b2c1b95aabd2b9cea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:56 +0000
Subject: [PATCH 124/158] fix: a function posted with arguments compiles and
 gets them

---
 framework/core/include/plain/basic/bind.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/basic/bind.h b/framework/core/include/plain/basic/bind.h
index f61e6fd..6b56cd1 100644
--- a/framework/core/include/plain/basic/bind.h
+++ b/framework/core/include/plain/basic/bind.h
@@ -26,7 +26,7 @@ template <typename F, typename ...Args>
 auto bind(F &&function, Args &&...args) {
   constexpr static auto inti = std::is_nothrow_invocable_v<F, Args...>;
   return [function = std::forward<F>(function),
-         tuple = std::make_tuple(std::forward(args)...)]()
+         tuple = std::make_tuple(std::forward<Args>(args)...)]()
            mutable noexcept(inti) -> decltype(auto) {
     return std::apply(function, tuple);
   };
@@ -57,7 +57,7 @@ auto bind_with_try_catch(F &&function) {
 template <typename F, typename ...Args>
 auto bind_with_try_catch(F &&function, Args &&...args) {
   return bind_with_try_catch(
-    bind(std::forward<F>(function), std::forward<Args>(args)...));
+    plain::bind(std::forward<F>(function), std::forward<Args>(args)...));
 }
 
 } // namespace plain
-- 
2.43.0


From fe96fc218c37f02f8f80c9de351e1214d39ee906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:56 +0000
Subject: [PATCH 125/158] fix: a task whose function throws destroys that
 function

---
 framework/core/include/plain/concurrency/task.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/framework/core/include/plain/concurrency/task.h b/framework/core/include/plain/concurrency/task.h
index f9726e4..d0752e2 100644
--- a/framework/core/include/plain/concurrency/task.h
+++ b/framework/core/include/plain/concurrency/task.h
@@ -15,6 +15,7 @@
 #include "plain/concurrency/config.h"
 #include <utility>
 #include <cassert>
+#include <memory>
 #include "plain/basic/noncopyable.h"
 
 namespace plain::concurrency {
@@ -120,15 +121,15 @@ class CallableVtable {
   }
 
   static void execute_destroy_inline(void *target) {
-    auto callable_ptr = inline_ptr(target);
+    // Destroyed even if the call throws.
+    std::unique_ptr<T, void (*)(T *) noexcept> callable_ptr{
+      inline_ptr(target), [](T *ptr) noexcept { ptr->~T(); }};
     (*callable_ptr)();
-    callable_ptr->~T();
   }
 
   static void execute_destroy_allocated(void *target) {
-    auto callable_ptr = allocated_ptr(target);
+    std::unique_ptr<T> callable_ptr{allocated_ptr(target)};
     (*callable_ptr)();
-    delete callable_ptr;
   }
 
   static void destroy_inline(void *target) noexcept {
-- 
2.43.0


From a10fd0418103b82fc14e1b512ab28a92638d25a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:12 +0000
Subject: [PATCH 126/158] fix: a task keeps an over-aligned function where its
 alignment holds

---
 framework/core/include/plain/concurrency/task.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/concurrency/task.h b/framework/core/include/plain/concurrency/task.h
index d0752e2..585eb19 100644
--- a/framework/core/include/plain/concurrency/task.h
+++ b/framework/core/include/plain/concurrency/task.h
@@ -56,7 +56,8 @@ class CallableVtable {
  public:
   static constexpr bool is_inlinable() noexcept {
     return std::is_nothrow_move_constructible_v<T> &&
-      sizeof(T) <= task_constants::buffer_size;
+      sizeof(T) <= task_constants::buffer_size &&
+      alignof(T) <= alignof(std::max_align_t);
   }
 
   template <typename CT>
-- 
2.43.0


From 2772ba6a2d49a4b0917ab47c53b3a26dd8cec4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:08 +0000
Subject: [PATCH 127/158] fix: a library name that only goes on after its
 suffix gets the suffix

---
 framework/core/src/file/library.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index d8e3633..a8ef102 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -49,7 +49,7 @@ void Library::set_filename(const std::string &_filename) noexcept {
     return;
   }
   // xx.sox, xx.so.1
-  if (suf_pos + strlen(LIBRARY_SUFFIX) > _filename.size()) {
+  if (suf_pos + strlen(LIBRARY_SUFFIX) < _filename.size()) {
     if (_filename.substr(suf_pos + strlen(LIBRARY_SUFFIX), 1) != ".") {
       filename_ += LIBRARY_SUFFIX;
       return;
-- 
2.43.0


From e238b6cdd46909fce4c7ba56031ed4787c1945a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:29 +0000
Subject: [PATCH 128/158] fix: a library loads the file asked for, with and
 without prefix, and is unloaded after

---
 framework/core/src/file/library.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index a8ef102..430d53f 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -58,8 +58,12 @@ void Library::set_filename(const std::string &_filename) noexcept {
 }
 
 bool Library::load(bool tryprefix, bool seeglb) noexcept {
-  std::filesystem::path path{path_ + filename_};
-  auto fileexists = std::filesystem::exists(path);
+  std::error_code error;
+  // With a directory always, the loader would look elsewhere without.
+  std::filesystem::path path{
+    std::filesystem::path{path_.empty() ? "./" : path_} / filename_};
+  auto fileexists = std::filesystem::exists(path, error);
+  if (!is_null(handle_) && !unload()) return false; // Or it would seem that this one is loaded.
   if (fileexists) {
 #if OS_WIN
     UNUSED(seeglb);
@@ -90,8 +94,11 @@ bool Library::load(bool tryprefix, bool seeglb) noexcept {
 #endif
       return false;
     }
+    auto filename = filename_;
     filename_ = LIBRARY_PREFIX + filename_;
-    return load(false);
+    auto r = load(false, seeglb);
+    if (!r) filename_ = filename; // The next path may have it without.
+    return r;
   } else {
     errorstr_.clear();
   }
@@ -125,11 +132,16 @@ bool Library::unload() noexcept {
     }
   }
 #endif
+  isloaded_ = !is_null(handle_);
   return is_null(handle_);
 }
    
 void *Library::resolve(const std::string &symbol, bool again) noexcept {
   void *symbolhandle = nullptr;
+  if (is_null(handle_)) { // The system would look in the whole program.
+    errorstr_ = "the library is not loaded";
+    return nullptr;
+  }
 #if OS_WIN
   symbolhandle = cast(void *, GetProcAddress((HMODULE)handle_, symbol.c_str()));
   if (is_null(symbolhandle)) {
-- 
2.43.0


From 24465a4954025693b050945c0614f7fb1ce65223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:29 +0000
Subject: [PATCH 129/158] fix: the library manager loads the first of the names
 there is, forgets removed names and lives with libraries not loaded

---
 framework/core/src/file/library.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index 430d53f..2ac82ef 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -166,8 +166,8 @@ void *Library::resolve(const std::string &symbol, bool again) noexcept {
 LibraryManager::LibraryManager() {
   add_searchpaths({
       "./",
-      GLOBALS["app.basepath"].get<std::string>(),
-      GLOBALS["app.basepath"].get<std::string>() + "plugins/",
+      GLOBALS["app.basepath"].get<std::string>() + "/",
+      GLOBALS["app.basepath"].get<std::string>() + "/plugins/",
   });
 #if OS_UNIX || OS_MAC
   add_searchpaths({
@@ -203,7 +203,7 @@ void LibraryManager::remove_searchpaths(
 
 void LibraryManager::remove_librarynames(const std::string &onlyname, 
                                          const std::vector<std::string> &names) {
-  std::vector<std::string> list = namesmap_[onlyname];
+  std::vector<std::string> &list = namesmap_[onlyname];
   for (const std::string &name : names) {
     list.erase(std::remove(list.begin(), list.end(), name), list.end());
   }
@@ -250,6 +250,7 @@ bool LibraryManager::load(
         err = library->errorstr();
       LOG_ERROR << "[library] load(" << name << ") error: " << err;
     }
+    if (loaded) break;
   }
   if (!library->isloaded()) {
     return false;
@@ -277,7 +278,7 @@ __extension__
 
 bool LibraryManager::unload(const std::string &name) noexcept {
   auto it = librarymap_.find(name);
-  if (it == librarymap_.end()) {
+  if (it == librarymap_.end() || is_null(it->second)) {
     LOG_DEBUG << "[library] unload(" << name << ") not loaded";
     return true;
   }
-- 
2.43.0


From 793a2a7befc3050aad148f5db80bda850df60f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:56 +0000
Subject: [PATCH 130/158] fix: a new script environment never takes the id of
 another, from any thread

---
 framework/core/include/plain/script/factory.h | 15 ++++++++----
 framework/core/src/script/factory.cc          | 24 +++++++++----------
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/framework/core/include/plain/script/factory.h b/framework/core/include/plain/script/factory.h
index 0222935..9de7702 100644
--- a/framework/core/include/plain/script/factory.h
+++ b/framework/core/include/plain/script/factory.h
@@ -14,6 +14,7 @@
 
 #include "plain/script/config.h"
 #include <unordered_map>
+#include "plain/script/interface.h"
 
 namespace plain::script {
 
@@ -27,13 +28,19 @@ class PLAIN_API Factory {
    eid_t newenv(const config_t &config);
    eid_t newenv(Interface *env);
    Interface *getenv(eid_t eid) {
-     if (envs_[eid]) return envs_[eid].get();
-     return nullptr;
+     std::unique_lock<std::mutex> autolock(mutex_);
+     auto it = envs_.find(eid);
+     return it != envs_.end() ? it->second.get() : nullptr;
    }
    void closeenv(eid_t eid) {
+     std::unique_ptr<Interface> env; // Destroyed without the lock.
+     std::unique_lock<std::mutex> autolock(mutex_);
      auto it = envs_.find(eid);
-     if (it != envs_.end()) envs_.erase(it);
-     last_del_eid_ = eid; 
+     if (it == envs_.end()) return;
+     env = std::move(it->second);
+     envs_.erase(it);
+     last_del_eid_ = eid;
+     autolock.unlock();
    }
 
  private:
diff --git a/framework/core/src/script/factory.cc b/framework/core/src/script/factory.cc
index e76d34b..71ba46d 100644
--- a/framework/core/src/script/factory.cc
+++ b/framework/core/src/script/factory.cc
@@ -1,25 +1,23 @@
 #include "plain/script/factory.h"
 #include "plain/script/interface.h"
+#include <limits>
 
 using namespace plain::script;
 
 eid_t Factory::newenv(const config_t &config) {
-  eid_t eid = neweid();
-  if (SCRIPT_EID_INVALID == eid) return eid;
   auto func_envcreator = get_env_creator_script(config.type);
-  if (is_null(func_envcreator)) {
-    last_del_eid_ = eid;
-    return SCRIPT_EID_INVALID;
-  }
-  Interface *env = func_envcreator();
+  if (is_null(func_envcreator)) return SCRIPT_EID_INVALID;
+  std::unique_ptr< Interface > env(func_envcreator());
+  if (is_null(env)) return SCRIPT_EID_INVALID;
   env->set_workpath(config.workpath);
   env->set_rootpath(config.rootpath);
-  std::unique_ptr< Interface > pointer(env);
-  envs_[eid] = std::move(pointer);
+  auto eid = newenv(env.get());
+  if (SCRIPT_EID_INVALID != eid) env.release();
   return eid;
 }
 
 eid_t Factory::newenv(Interface *env) {
+  std::unique_lock<std::mutex> autolock(mutex_);
   eid_t eid = neweid();
   if (SCRIPT_EID_INVALID == eid) return eid;
   std::unique_ptr< Interface > pointer(env);
@@ -28,10 +26,12 @@ eid_t Factory::newenv(Interface *env) {
 }
 
 eid_t Factory::neweid() {
-  std::unique_lock<std::mutex> autolock(mutex_);
-  eid_t eid = SCRIPT_EID_INVALID;
-  eid = SCRIPT_EID_INVALID == last_del_eid_ ?
+  eid_t eid = SCRIPT_EID_INVALID == last_del_eid_ ?
         static_cast<eid_t>(envs_.size() + 1) : last_del_eid_;
   last_del_eid_ = SCRIPT_EID_INVALID;
+  // Never the id of an environment there is.
+  const auto max = std::numeric_limits<eid_t>::max();
+  if (envs_.size() >= static_cast<size_t>(max)) return SCRIPT_EID_INVALID;
+  while (envs_.contains(eid)) eid = eid < max ? eid + 1 : 1;
   return eid;
 }
-- 
2.43.0


From 621f39b70a1bc57ac281884ef0dcfcdd3de455a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:32 +0000
Subject: [PATCH 131/158] fix: a pid file without the id of a process has none,
 and a process that may not be signalled is there

---
 framework/core/src/sys/process.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/framework/core/src/sys/process.cc b/framework/core/src/sys/process.cc
index b5c3eae..2cffe2a 100644
--- a/framework/core/src/sys/process.cc
+++ b/framework/core/src/sys/process.cc
@@ -1,4 +1,6 @@
 #include "plain/sys/process.h"
+#include <cinttypes>
+#include <limits>
 #if OS_WIN
 #include <process.h>
 #include <psapi.h>
@@ -6,6 +8,7 @@
 #elif OS_UNIX || OS_MAC
 #include <sys/stat.h>
 #include <sys/types.h>
+#include <errno.h>
 #include <signal.h>
 #include <unistd.h>
 #endif
@@ -36,21 +39,23 @@ void get_filename(char *filename, size_t size) {
 int32_t getid(const char *filename) {
   FILE *fp = fopen(filename, "r");
   if (nullptr == fp) return ID_INVALID;
-  int32_t id;
-  fscanf(fp, "%d", &id);
+  int64_t id{ID_INVALID};
+  bool readed = 1 == fscanf(fp, "%" SCNd64, &id);
   fclose(fp);
-  return id;
+  // Just the ids a process can have(zero and negatives are groups).
+  if (!readed || id <= 0 || id > std::numeric_limits<int32_t>::max())
+    return ID_INVALID;
+  return static_cast<int32_t>(id);
 }
 
 bool writeid(const char *filename) {
   int32_t id = getid();
   FILE *fp = fopen(filename, "w");
   if (nullptr == fp) return false;
-  fprintf(fp, "%d", id);
-  fflush(fp);
-  fclose(fp);
+  bool r = fprintf(fp, "%d", id) > 0;
+  r = 0 == fclose(fp) && r;
   fp = nullptr;
-  return true;
+  return r;
 }
 
 bool waitexit(const char *filename) {
@@ -71,7 +76,7 @@ bool waitexit(const char *filename) {
   std::this_thread::sleep_for(2s);
   kill(id, 10);
   int32_t result = kill(id, 0);
-  while (result >= 0) {
+  while (result >= 0 || EPERM == errno) { // Not permitted is there as well.
     std::this_thread::sleep_for(1s);
     result = kill(id, 0);
   }
@@ -80,7 +85,7 @@ bool waitexit(const char *filename) {
   return true;
 }
 
-void getinfo(int32_t id, info_t &info) {
+void get_info(int32_t id, info_t &info) {
   info.id = id;
   info.cpu_percent = get_cpu_usage(id);
   info.VSZ = get_virtualmemory_usage(id);
-- 
2.43.0


From 57d6c2ac345fa2ddca94b65f36ef9472c7917bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:43 +0000
Subject: [PATCH 132/158] fix: exec runs the whole of a command and gives the
 whole of its line

---
 framework/core/src/sys/utility.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/framework/core/src/sys/utility.cc b/framework/core/src/sys/utility.cc
index 78dc3c3..b94dcf0 100644
--- a/framework/core/src/sys/utility.cc
+++ b/framework/core/src/sys/utility.cc
@@ -1,4 +1,6 @@
 #include "plain/sys/utility.h"
+#include <algorithm>
+#include <limits>
 #if OS_UNIX || OS_MAC
 #include <sys/resource.h>
 #include <unistd.h>
@@ -13,14 +15,11 @@ int32_t exec(
   [[maybe_unused]] const char *command, [[maybe_unused]] char *result,
   [[maybe_unused]] size_t size) {
 #if OS_UNIX || OS_MAC
-  char buffer[1024] = {0};
-  char temp[1024] = {0};
-  safecopy(temp, command, sizeof(temp));
-  FILE *fp = popen(temp, "r");
+  FILE *fp = popen(command, "r"); // The whole command, never a part.
   if (!fp) return -1;
-  if (fgets(buffer, 1024, fp) != 0) {
-    safecopy(result, buffer, size);
-  }
+  auto length = static_cast<int32_t>(
+    std::min<size_t>(size, std::numeric_limits<int32_t>::max()));
+  if (length > 0 && !fgets(result, length, fp)) result[0] = '\0';
   if (fp) pclose(fp);
   fp = nullptr;
 #endif
-- 
2.43.0


From e7357298adeca285e34dae88a7cd50f4c1c48c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:43 +0000
Subject: [PATCH 133/158] fix: the name of the module keeps in its buffer

---
 framework/core/src/basic/utility.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 19ff76a..80d9cd1 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -916,9 +916,12 @@ void get_module_filename(char *buffer, size_t size) {
   resultcode = (int32_t)GetModuleFileName(nullptr, buffer, (DWORD)size);
 #endif
 #elif OS_UNIX || OS_MAC
-  resultcode = readlink("/proc/self/exe", buffer, size);
-  Assert(resultcode > 0 && resultcode < static_cast<int32_t>(size));
-  buffer[resultcode] = '\0';
+  if (0 == size) return;
+  // Leave the place of the end.
+  resultcode = static_cast<int32_t>(
+    readlink("/proc/self/exe", buffer, size - 1));
+  Assert(resultcode > 0);
+  buffer[std::max(resultcode, 0)] = '\0';
 #endif
 }
 
-- 
2.43.0


From b42303fb9f7888d71882b88e98ff7d943dbd3f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:43 +0000
Subject: [PATCH 134/158] fix: a daemon that can not fork tells so, and a pid
 file name of no size is left alone

---
 framework/core/src/sys/process.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/sys/process.cc b/framework/core/src/sys/process.cc
index 2cffe2a..7cf1d94 100644
--- a/framework/core/src/sys/process.cc
+++ b/framework/core/src/sys/process.cc
@@ -30,6 +30,7 @@ int32_t getid() {
 }
 
 void get_filename(char *filename, size_t size) {
+  if (0 == size) return;
   get_module_filename(filename, size);
   auto havelength = strlen(filename);
   auto _size = size - havelength;
@@ -217,10 +218,12 @@ bool daemon() {
   bool result = false;
 #if OS_UNIX || OS_MAC
   pid_t pid;
-  if ((pid = fork()) != 0) exit(0);
+  if ((pid = fork()) < 0) return false;
+  if (pid != 0) exit(0);
   setsid();
   signal(SIGHUP, SIG_IGN);
-  if ((pid = fork()) != 0) exit(0);
+  if ((pid = fork()) < 0) return false;
+  if (pid != 0) exit(0);
   umask(0);
   for (uint8_t i = 0; i < 3; i++) close(i);
   result = true;
-- 
2.43.0


From 2ada6957ccf465d68127a0826d0323a2b415f986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:17 +0000
Subject: [PATCH 135/158] fix: a table saved as binary reads back the same, and
 a damaged one is refused

---
 framework/core/src/file/tab.cc | 135 +++++++++++++++++++--------------
 1 file changed, 80 insertions(+), 55 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 4268ebf..8f43799 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -355,86 +355,111 @@ bool Tab::open_from_memory_binary(
   file_head_t file_head;
   memcpy(&file_head, _memory, sizeof(file_head_t));
   if (file_head.identify != FILE_DATABASE_INDENTIFY) return false;
+  if (file_head.field_number <= 0 || file_head.record_number < 0 ||
+      file_head.string_block_size <= 0) {
+    return false;
+  }
   //check memory size
-  if (sizeof(file_head) +
-      sizeof(uint32_t) * file_head.field_number +
-      sizeof(field_data) * file_head.record_number * file_head.field_number +
-      + file_head.string_block_size > static_cast<uint64_t>(end - memory)) {
+  const auto field_number = static_cast<uint64_t>(file_head.field_number);
+  const auto cell_number = field_number * file_head.record_number;
+  const auto left = static_cast<uint64_t>(end - memory) - sizeof(file_head);
+  if (cell_number > left / sizeof(field_data) ||
+      sizeof(uint32_t) * field_number + sizeof(field_data) * cell_number +
+      file_head.string_block_size > left) {
     return false;
   }
   _memory += sizeof(file_head);
-  
-  //init 
-  record_number_ = file_head.record_number;
-  field_number_ = file_head.field_number;
-  string_buffer_size_= file_head.string_block_size;
-  
-  //create string blok
-  string_buffer_ = new char[string_buffer_size_];
-  if (!string_buffer_) return false;
-  std::vector<uint32_t> field_types;
-  field_types.resize(field_number_);
-  memcpy(&(field_types[0]), _memory, sizeof(uint32_t) * field_number_);
 
   //check it
-  type_.resize(field_number_);
-  int32_t i;
-  for (i = 0; i < field_number_; ++i) {
-    switch(field_types[i]) {
+  field_type types;
+  types.resize(field_number);
+  for (uint64_t i = 0; i < field_number; ++i) {
+    uint32_t type;
+    memcpy(&type, _memory, sizeof(type));
+    _memory += sizeof(type);
+    switch(type) {
       case kTypeInt:
       case kTypeFloat:
       case kTypeString: {
-        type_[i] = static_cast<field_type_enum>(field_types[i]);
+        types[i] = static_cast<field_type_enum>(type);
         break;
       }
       default: {
-        if (!is_null(string_buffer_)) {
-          delete[] string_buffer_;
-          string_buffer_ = nullptr;
-        }
         return false;
       }
     }
   }
 
   //read all field
-  data_buffer_.resize(field_number_ * record_number_);
-  memcpy(
-    &(data_buffer_[0]), _memory, 
-    sizeof(field_data) * field_number_ * record_number_);
-  _memory += sizeof(field_data) * field_number_ * record_number_;
-  memcpy(string_buffer_, _memory, string_buffer_size_);
-  string_buffer_[string_buffer_size_ - 1] = '\0';
-
-  //runtime address
-  for (i = 0; i < field_number_; ++i) {
-    if (field_types[i] != kTypeString) continue;
-    std::string str;
-    int32_t j;
-    for (j = 0; j < record_number_; ++j) {
-      data_buffer_[i + field_number_ + j].string_value += 
-        reinterpret_cast<uint64_t>(string_buffer_); 
+  const char *strings = _memory + sizeof(field_data) * cell_number;
+  auto string_buffer =
+    std::make_unique<char[]>(file_head.string_block_size);
+  memcpy(string_buffer.get(), strings, file_head.string_block_size);
+  string_buffer[file_head.string_block_size - 1] = '\0';
+  data_buffer cells;
+  cells.resize(cell_number);
+  for (uint64_t i = 0; i < cell_number; ++i, _memory += sizeof(field_data)) {
+    if (types[i % field_number] != kTypeString) {
+      memcpy(&cells[i], _memory, sizeof(field_data));
+      continue;
     }
+    uint64_t offset{0}; // The address in the file is one in the string block.
+    memcpy(&offset, _memory, sizeof(field_data));
+    if (offset >= static_cast<uint64_t>(file_head.string_block_size))
+      return false;
+    cells[i].string_value = string_buffer.get() + offset;
   }
+
+  //the names after the string block, if there
+  std::vector<std::string> names;
+  _memory = strings + file_head.string_block_size;
+  while (names.size() < field_number && _memory < end) {
+    auto last = static_cast<const char *>(memchr(_memory, 0, end - _memory));
+    if (is_null(last)) break;
+    names.emplace_back(_memory, last);
+    _memory = last + 1;
+  }
+  if (names.size() == field_number) fieldnames_ = std::move(names);
+
+  //init
+  record_number_ = file_head.record_number;
+  field_number_ = file_head.field_number;
+  string_buffer_size_= file_head.string_block_size;
+  string_buffer_ = string_buffer.release();
+  type_ = std::move(types);
+  data_buffer_ = std::move(cells);
   create_index(0, filename);
   return true;
 }
 
 bool Tab::save_tobinary(const char *filename) {
-    file_head_t filehead;
-    filehead.field_number = field_number_;
-    filehead.record_number = record_number_;
-    filehead.string_block_size = string_buffer_size_;
-    FILE *fp = fopen(filename, "wb");
-    if (nullptr == fp) return false;
-    fwrite(&filehead, sizeof(filehead), 1, fp);
-    fwrite(&(type_[0]), sizeof(field_type_enum) *filehead.field_number, 1, fp);
-    fwrite(
-      &(data_buffer_[0]), filehead.field_number * filehead.record_number, 
-      1, fp);
-    fwrite(string_buffer_, filehead.string_block_size, 1, fp);
-    fclose(fp);
-    return true;
+  if (is_null(string_buffer_)) return false; // Nothing opened.
+  file_head_t filehead;
+  filehead.field_number = field_number_;
+  filehead.record_number = record_number_;
+  filehead.string_block_size = string_buffer_size_;
+  std::string data{reinterpret_cast<char *>(&filehead), sizeof(filehead)};
+  for (auto one : type_) {
+    auto type = static_cast<uint32_t>(one);
+    data.append(reinterpret_cast<char *>(&type), sizeof(type));
+  }
+  for (size_t i = 0; i < data_buffer_.size(); ++i) {
+    char cell[sizeof(field_data)]{0};
+    if (type_[i % type_.size()] == kTypeString) { // As its offset.
+      uint64_t offset = data_buffer_[i].string_value - string_buffer_;
+      memcpy(cell, &offset, sizeof(cell));
+    } else {
+      memcpy(cell, &data_buffer_[i].int_value, sizeof(int32_t));
+    }
+    data.append(cell, sizeof(cell));
+  }
+  data.append(string_buffer_, string_buffer_size_);
+  for (const auto &name : fieldnames_)
+    data.append(name.c_str(), name.size() + 1);
+  FILE *fp = fopen(filename, "wb");
+  if (nullptr == fp) return false;
+  auto r = fwrite(data.data(), data.size(), 1, fp) == 1;
+  return fclose(fp) == 0 && r;
 }
 
 bool Tab::save_totext(const char *filename) {
-- 
2.43.0


From 9a9b0602d51406e2448431141dfc5af275fa8adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:17 +0000
Subject: [PATCH 136/158] fix: a table line of more than ten thousand bytes is
 one record

---
 framework/core/src/file/tab.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 8f43799..7c0cc31 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -212,10 +212,12 @@ bool Tab::field_equal(
 
 bool Tab::open_from_memory_text(
   const char *memory, const char *end, const char *filename) {
-  char line[(1024 * 10) + 1]; //long string
-  memset(line, '\0', sizeof(line));
+  //No line is longer than the content.
+  const auto line_size = static_cast<int32_t>(end - memory) + 2;
+  const auto line_buffer = std::make_unique<char[]>(line_size);
+  auto line = line_buffer.get();
   const char *_memory = memory;
-  _memory = get_line_from_memory(line, sizeof(line) - 1, _memory, end);
+  _memory = get_line_from_memory(line, line_size, _memory, end);
   if (!_memory) return false;
   std::vector<std::string> result;
   explode(line, result, "\t", true, true);
@@ -240,7 +242,7 @@ bool Tab::open_from_memory_text(
   int32_t field_number = static_cast<int32_t>(_field_type.size());
   std::vector<std::pair<std::string, int32_t> > string_buffer;
   std::unordered_map<std::string, int32_t> map_string_buffer;
-  _memory = get_line_from_memory(line, sizeof(line) - 1, _memory, end);
+  _memory = get_line_from_memory(line, line_size, _memory, end);
   //第二行为列名（相当于数据库的字段名），应尽量使用英文
   explode(line, fieldnames_, "\t", true, true);
   if (!_memory) return false;
@@ -248,7 +250,7 @@ bool Tab::open_from_memory_text(
   bool loop = true;
   do {
     //以行读取数据
-    _memory = get_line_from_memory(line, sizeof(line) - 1, _memory, end);
+    _memory = get_line_from_memory(line, line_size, _memory, end);
     if (!_memory) break;
     if ('#' == line[0]) continue; //注释行
     explode(line, result, "\t", true, false);
-- 
2.43.0


From 89da0ec6754abd2850ea65c8a860a930c571dac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:17 +0000
Subject: [PATCH 137/158] fix: a float cell saved as text reads back the same

---
 framework/core/src/file/tab.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 7c0cc31..e12bbc1 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -1,4 +1,5 @@
 #include "plain/file/tab.h"
+#include <charconv>
 #include <unordered_map>
 #include "plain/basic/utility.h"
 #include "plain/sys/assert.h"
@@ -509,8 +510,8 @@ bool Tab::save_totext(const char *filename) {
           break;
         }
         case kTypeFloat: {
-          char temp[64] = {0};
-          snprintf(temp, sizeof(temp) - 1, "%.3f", _field_data->float_value);
+          char temp[64] = {0}; //the shortest text which reads back the same
+          std::to_chars(temp, temp + sizeof(temp) - 1, _field_data->float_value);
           fwrite(temp, strlen(temp), 1, fp);
           break;
         }
-- 
2.43.0


From d9992c5ab7a27faef8fd2895d149522adf3c7d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 138/158] fix: an ip v6 address in brackets needs both of them
 and no port

---
 framework/core/src/net/address.cc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index 23243b3..f52b143 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -146,16 +146,14 @@ parse_address(std::string_view address) {
     if ((pos = address.find("]")) == std::string::npos) {
       return std::make_tuple(false, std::string{address}, port);
     } else {
-      std::string ip;
-      size_t index{0};
-      for (auto str : std::views::split(address, "]:"sv)) {
-        if (index++ == 0) {
-          ip = std::string_view{str};
-          if (!ip.empty() && *ip.begin() == '[') ip.erase(ip.begin());
-        } else {
-          port = parse_port(std::string_view{str});
-          break;
-        }
+      if (address[0] != '[')
+        throw std::invalid_argument("ip invalid");
+      std::string ip{address.substr(1, pos - 1)};
+      auto left = address.substr(pos + 1);
+      if (!left.empty()) {
+        if (left[0] != ':')
+          throw std::invalid_argument("ip invalid");
+        port = parse_port(left.substr(1));
       }
       return std::make_tuple(false, ip, port);
     }
-- 
2.43.0


From 025d16132b691dd32fa7ed38a59eeba00c9fc0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 139/158] fix: the broadcast address is an address

---
 framework/core/src/net/address.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index f52b143..5a631ca 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -176,7 +176,7 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
     } else {
       addr.sin_addr.s_addr = inet_addr(std::string{ip}.c_str());
     }
-    if (addr.sin_addr.s_addr == INADDR_NONE)
+    if (addr.sin_addr.s_addr == INADDR_NONE && ip != "255.255.255.255")
       throw std::invalid_argument("ip invalid");
     addr.sin_port = htons(port);
     r.append(reinterpret_cast<value_t *>(&addr), sizeof(addr));
-- 
2.43.0


From 60e78d03cbb8ee2dde465ff90d50126465633f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 140/158] fix: an ip v4 address with something after a space
 must be refused

---
 framework/core/src/net/address.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index 5a631ca..614feb1 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -174,6 +174,9 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
       else
         addr.sin_addr.s_addr = inet_addr("127.0.0.1");
     } else {
+      // The system takes what comes after a space, too.
+      if (ip.find_first_not_of("0123456789abcdefABCDEFxX.") != ip.npos)
+        throw std::invalid_argument("ip invalid");
       addr.sin_addr.s_addr = inet_addr(std::string{ip}.c_str());
     }
     if (addr.sin_addr.s_addr == INADDR_NONE && ip != "255.255.255.255")
-- 
2.43.0


From 2831eac179202b04ca63b1868bd058dd9f5c9df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:12 +0000
Subject: [PATCH 141/158] fix: tell gives the place in the file

---
 framework/core/src/file/api.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/api.cc b/framework/core/src/file/api.cc
index 4347185..7058204 100644
--- a/framework/core/src/file/api.cc
+++ b/framework/core/src/file/api.cc
@@ -320,7 +320,7 @@ int64_t lseek(int32_t fd, uint64_t offset, int32_t whence) {
 int64_t tell([[maybe_unused]] int32_t fd) {
   int64_t result = 0;
 #if OS_UNIX || OS_MAC
-  //do nothing
+  result = ::lseek(fd, 0, SEEK_CUR);
 #elif OS_WIN
   result = ::_tell(fd);
   if (result < 0) {
-- 
2.43.0


From e95c4c5c95ab517ca79715091a28070a036a191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:12 +0000
Subject: [PATCH 142/158] fix: a thread just made can be stopped

---
 framework/core/include/plain/sys/thread.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/sys/thread.h b/framework/core/include/plain/sys/thread.h
index 139b4c2..69b4e4a 100644
--- a/framework/core/include/plain/sys/thread.h
+++ b/framework/core/include/plain/sys/thread.h
@@ -186,9 +186,12 @@ thread_t create(const std::string_view &name, F &&f, Args &&... args) {
   auto task = std::make_shared< std::packaged_task<return_type()> >(
     std::bind(std::forward<F>(f), std::forward<Args>(args)...)
   );
-  auto r = thread_t([task, name = std::string{name}](){ 
+  auto started = std::make_shared<std::promise<void>>();
+  auto started_res = started->get_future();
+  auto r = thread_t([task, started, name = std::string{name}](){ 
     set_name(name);
     start();
+    started->set_value();
     ThreadCollect tc;
     for (;;) {
       if (is_stopping()) break;
@@ -205,6 +208,8 @@ thread_t create(const std::string_view &name, F &&f, Args &&... args) {
     }
   });
 
+  started_res.wait(); // Now the thread can be stopped.
+
   if (true == GLOBALS["app.debug"]) {
     std::stringstream id_str;
     id_str << r.get_id();
-- 
2.43.0


From 4bf6f2c22510d3426067a613c1e65b23f86acca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:12 +0000
Subject: [PATCH 143/158] fix: functions and threads given to the engine are
 run

---
 framework/core/include/plain/engine/kernel.h | 39 +++++---------------
 framework/core/src/engine/kernel.cc          | 10 +++++
 2 files changed, 19 insertions(+), 30 deletions(-)

diff --git a/framework/core/include/plain/engine/kernel.h b/framework/core/include/plain/engine/kernel.h
index 5a7fba6..a304d5e 100644
--- a/framework/core/include/plain/engine/kernel.h
+++ b/framework/core/include/plain/engine/kernel.h
@@ -79,7 +79,7 @@ class PLAIN_API Kernel {
       std::unique_lock<std::mutex> lock(mutex_);
       if (!running_)
          throw std::runtime_error("enqueue on stopped Kernel");
-      tasks_.emplace([task](){ (*task)(); });
+      post([task](){ (*task)(); });
     }
    return res;
   }
@@ -87,46 +87,25 @@ class PLAIN_API Kernel {
   template<class F, class... Args>
   std::thread::id newthread(
       const std::string &name, F&& f, Args&&... args) {
-    using return_type = typename std::invoke_result_t<F, Args...>;
     std::thread::id res;
     {
       std::unique_lock<std::mutex> lock(mutex_);
       if (!running_)
          throw std::runtime_error("newthread on stopped Kernel");
-      auto task = std::make_shared< std::packaged_task<return_type()> >(
-          std::bind(std::forward<F>(f), std::forward<Args>(args)...)
-        );
-      thread_workers_.emplace_back([task, name](){ 
-        thread::start();
-        ThreadCollect tc;
-        std::future<return_type> task_res = task->get_future();
-        for (;;) {
-          if (thread::is_stopping()) break;
-          (*task)(); 
-          (*task).reset(); //Remeber it, the packaged_task reset then can call again.
-          using is_bool_result = std::is_same<return_type, bool>;
-          thread::check_running(is_bool_result{}, task_res);
-        }
-
-        //Log(this log also can enable with app.debug).
-        auto id_str = thread::get_id();
-        LOG_DEBUG << name << " stopping with " << id_str;
-      });
-      res = thread_workers_[thread_workers_.size() - 1].get_id();
+      thread_workers_.emplace_back(thread::create(
+        name, std::forward<F>(f), std::forward<Args>(args)...));
+      res = thread_workers_.back().get_id();
     }
-
-    //Log(this log also can enable with app.debug).
-    std::stringstream id_str;
-    id_str << res;
-    LOG_DEBUG << name << " starting with " << id_str.str();
     return res;
   }
 
  private:
-  bool running_;
+  void post(std::function<void()> func);
+
+ private:
+  bool running_{true};
   std::mutex mutex_;
-  std::queue<std::function<void()>> tasks_;
-  std::vector<std::thread> thread_workers_;
+  std::vector<thread_t> thread_workers_;
 
  private:
   struct Impl;
diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 4bd041a..b6ee677 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -240,6 +240,12 @@ Kernel::Kernel(const engine_option &option) : impl_{std::make_unique<Impl>()} {
   
 Kernel::~Kernel() noexcept {
   try {
+    {
+      std::unique_lock<decltype(mutex_)> auto_lock{mutex_};
+      running_ = false;
+    }
+    for (auto &worker : thread_workers_) thread::stop(worker);
+    for (auto &worker : thread_workers_) worker.join();
     impl_->timer_queue->shutdown();
     impl_->registered_executors.shutdown_all();
   } catch (...) {
@@ -247,6 +253,10 @@ Kernel::~Kernel() noexcept {
   }
 }
 
+void Kernel::post(std::function<void()> func) {
+  impl_->thread_pool_executor->post(std::move(func));
+}
+
 std::shared_ptr<TimerQueue> Kernel::timer_queue() const noexcept {
   return impl_->timer_queue;
 }
-- 
2.43.0


From eacace134e49c78df87740338cb6d6c5766eff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:20 +0000
Subject: [PATCH 144/158] fix: get_error_str takes the number of an error

---
 framework/core/include/plain/basic/utility.h | 2 +-
 framework/core/src/basic/utility.cc          | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/framework/core/include/plain/basic/utility.h b/framework/core/include/plain/basic/utility.h
index ed7c074..e73b99a 100644
--- a/framework/core/include/plain/basic/utility.h
+++ b/framework/core/include/plain/basic/utility.h
@@ -152,7 +152,7 @@ PLAIN_API uint64_t touint64(uint32_t high, uint32_t low);
 
 PLAIN_API char *strerror_pl(int32_t saved_errno);
 
-PLAIN_API std::string get_error_str(int32_t errno);
+PLAIN_API std::string get_error_str(int32_t error);
 
 template <typename F>
 struct scoped_executor_t {
diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 80d9cd1..e08292a 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -1008,23 +1008,23 @@ char *strerror_pl(int32_t saved_errno) {
 #endif
 }
 
-std::string get_error_str(int32_t errno) {
+std::string get_error_str(int32_t error) {
   char buf[1024];
   buf[0] = '\0';
 #if OS_WIN
   FormatMessage(FORMAT_MESSAGE_FROM_SYSTEM | FORMAT_MESSAGE_IGNORE_INSERTS,
-    NULL, errno, MAKELANGID(LANG_NEUTRAL, SUBLANG_DEFAULT),
+    NULL, error, MAKELANGID(LANG_NEUTRAL, SUBLANG_DEFAULT),
     reinterpret_cast<LPWSTR>(buf), sizeof(buf), NULL);
 #else
 
 #ifdef _GNU_SOURCE
 
 #if !defined(__GLIBC__)
-  int e = strerror_r(errno, buf, sizeof(buf));
+  int e = strerror_r(error, buf, sizeof(buf));
   auto s = strerror(e);
   return s ? std::string(s) : std::string{};
 #else
-  auto s = strerror_r(errno, buf, sizeof(buf));
+  auto s = strerror_r(error, buf, sizeof(buf));
   return s ? std::string(s) : std::string{};
 #endif
 
-- 
2.43.0


From b85327e2d47c55a6062eb79f7ca182f809b502f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:20 +0000
Subject: [PATCH 145/158] fix: what was encrypted is decrypted again, and the
 damaged is refused

---
 framework/core/src/basic/utility.cc | 45 +++++++++++++++--------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index e08292a..e25e495 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -459,6 +459,8 @@ static bool pg_decrypt_password(char *password, const char *encrypted) {
   length = pg_char2int(buffer[pk_length + 1]);
   if (length < 0 || length > PG_MAXPASSWORDLEN)
     return false;
+  if (pk_length + 2 + length > PG_RESULTLENSTD)
+    return false;
   pg_decrypt(buffer + 1, pk_length, password, buffer + pk_length + 2, length);
 
   return true;
@@ -523,9 +525,9 @@ static bool pg_encrypt_password(
 
   //recheck password
   if (encryptok) decrypt_ok = pg_decrypt_password(password_check, result);
-  if (!encryptok || !decrypt_ok || stricmp(password_check, password) != 0)
+  if (!encryptok || !decrypt_ok || strcmp(password_check, password) != 0)
     return pg_encrypt_password(result, password, tickcount + 9929, level);
-  return false;
+  return true;
 }
 
 bool encrypt(std::string_view in, std::string &out) {
@@ -533,16 +535,18 @@ bool encrypt(std::string_view in, std::string &out) {
   char temp[PG_RESULTLENSTD + 1]{0};
   int32_t level = 0;
   bool result{false};
-  if (pg_encrypt_password(temp, in.data(), tickcount, level)) {
+  if (in.find('\0') != in.npos) return false;
+  if (pg_encrypt_password(temp, std::string{in}.c_str(), tickcount, level)) {
     result = true;
-    out = result;
+    out = temp;
   }
   return result;
 }
 
 bool decrypt(std::string_view in, std::string &out) {
   char temp[PG_RESULTLENSTD + 1]{0};
-  if (!pg_decrypt_password(temp, in.data())) return false;
+  if (in.find('\0') != in.npos) return false;
+  if (!pg_decrypt_password(temp, std::string{in}.c_str())) return false;
   out = temp;
   return true;
 }
@@ -552,7 +556,7 @@ bool encrypt_number(int32_t number, char _char, std::string &out) {
   auto number_len = number_str.size();
   out = "";
   for (decltype(number_len) i = 0; i < number_len; ++i) {
-    auto n = number / static_cast<int32_t>((pow(10, number_len - i - 1))) % 10;
+    auto n = number / static_cast<int64_t>((pow(10, number_len - i - 1))) % 10;
     char c = (char)n + _char;
     out = out + c;
   }
@@ -561,11 +565,15 @@ bool encrypt_number(int32_t number, char _char, std::string &out) {
 
 bool decrypt_number(std::string_view in, char _char, int32_t &number) {
   auto number_len = in.size();
+  int64_t value{0};
   number = 0;
+  if (number_len > std::to_string(INT32_MIN).size()) return false;
   for (decltype(number_len) i = 0; i < number_len; ++i) {
-    number += (in[i] - _char) 
-              * static_cast<int32_t>(pow(10, number_len - i -1));
+    value += (in[i] - _char) 
+             * static_cast<int64_t>(pow(10, number_len - i -1));
   }
+  if (value < INT32_MIN || value > INT32_MAX) return false;
+  number = static_cast<int32_t>(value);
   return true;
 }
 
@@ -591,13 +599,7 @@ bool encrypt(std::string_view in, int32_t number, std::string &out) {
   char pos_len_char = first_char + (char)pos_str.size(); 
   out = "";
   out = out + first_char + len_char + pos_len_char + pos_str;
-  if (0 == pos) {
-    out = out + number_str + in.data();
-  } else if (pos == in.size()) {
-    out = out + in.data() + number_str;
-  } else {
-    out = out + in.substr(0, pos).data() + number_str + in.substr(pos).data();
-  }
+  out.append(in.substr(0, pos)).append(number_str).append(in.substr(pos));
   return true;
 }
 
@@ -606,17 +608,18 @@ bool decrypt(std::string_view in, int32_t &number, std::string &out) {
   char first_char = in[0];
   int32_t length = in[1] - first_char;
   int32_t pos_len = in[2] - first_char;
+  if (length <= 0 || pos_len <= 0) return false;
   int32_t header_size = 3 + pos_len;
   if (in.size() < (size_t)header_size) return false;
   int32_t pos{0};
   auto pos_str = in.substr(3, pos_len);
-  decrypt_number(pos_str, first_char, pos);
+  if (!decrypt_number(pos_str, first_char, pos) || pos < 0) return false;
   size_t rsize = in.size() - header_size;
-  if (rsize < (size_t)(pos + length)) return false;
-  std::string number_str = in.substr(header_size + pos, length).data();
-  decrypt_number(number_str, first_char, number);
-  out = std::string{in.substr(header_size, pos).data()} + 
-        in.substr(header_size + pos + length).data();
+  if (rsize < (size_t)pos + (size_t)length) return false;
+  std::string number_str{in.substr(header_size + pos, length)};
+  if (!decrypt_number(number_str, first_char, number)) return false;
+  out = std::string{in.substr(header_size, pos)};
+  out.append(in.substr((size_t)header_size + pos + length));
   return true;
 }
 
-- 
2.43.0


From 56118b36f41eeab5bd2d99988ef13bdc2948c8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:01 +0000
Subject: [PATCH 146/158] fix: executors made by a task while the engine ends
 are shut down, without a deadlock

---
 framework/core/src/engine/kernel.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index b6ee677..f01e7f3 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -43,12 +43,19 @@ struct executor_collection {
   }
   
   void shutdown_all() {
-    std::unique_lock<decltype(lock)> _lock{lock};
-    for (auto &executor : executors) {
-      assert(static_cast<bool>(executor));
-      executor->shutdown();
+    // A task that still runs may make one more, so not with the lock.
+    while (true) {
+      decltype(executors) temp;
+      {
+        std::unique_lock<decltype(lock)> _lock{lock};
+        temp.swap(executors);
+      }
+      if (temp.empty()) return;
+      for (auto &executor : temp) {
+        assert(static_cast<bool>(executor));
+        executor->shutdown();
+      }
     }
-    executors = {};
   }
 };
 
-- 
2.43.0


From 5d15ef3b2aa6a2bf91303a66408049ee8f769c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:12 +0000
Subject: [PATCH 147/158] fix: a connector reports why a connect failed, not
 what came after

---
 framework/core/src/net/connector.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/connector.cc b/framework/core/src/net/connector.cc
index 3781df5..17fbd79 100644
--- a/framework/core/src/net/connector.cc
+++ b/framework/core/src/net/connector.cc
@@ -125,22 +125,22 @@ Connector::connect_impl(
     conn->socket()->connect(addr_or_ip, timeout, sock_type) :
     conn->socket()->connect(addr_or_ip, port, timeout, sock_type);
   if (!success) {
-    impl_->manager->remove(conn, true, false);
     std::string addr{addr_or_ip};
     if (port != 0) addr += ":" + std::to_string(port);
     LOG_ERROR << "connect " << addr << " failed: " << socket::get_last_error();
+    impl_->manager->remove(conn, true, false);
     return {};
   }
   impl_->set_address(conn->id(), conn->socket()->peer_address().text());
   auto sock = conn->socket();
   if (!sock->set_nonblocking()) {
-    impl_->manager->remove(conn, true, false);
     LOG_ERROR << "set_nonblocking failed: " << socket::get_last_error();
+    impl_->manager->remove(conn, true, false);
     return {};
   }
   if (!sock->set_linger(0)) {
-    impl_->manager->remove(conn, true, false);
     LOG_ERROR << "set_linger(0) failed: " << socket::get_last_error();
+    impl_->manager->remove(conn, true, false);
     return {};
   }
   conn->set_ready(true);
-- 
2.43.0


From 58e6900c06f0ff04a9086af288557ca1843e4182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:47 +0000
Subject: [PATCH 148/158] fix: a remote function that throws is a failed call,
 not the end of the process

---
 framework/core/src/net/rpc/dispatcher.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/rpc/dispatcher.cc b/framework/core/src/net/rpc/dispatcher.cc
index 8bd79c2..5fdca08 100644
--- a/framework/core/src/net/rpc/dispatcher.cc
+++ b/framework/core/src/net/rpc/dispatcher.cc
@@ -1,5 +1,6 @@
 #include "plain/net/rpc/dispatcher.h"
 #include "plain/basic/io.h"
+#include "plain/basic/logger.h"
 #include "plain/net/packet/basic.h"
 
 using plain::net::rpc::Dispatcher;
@@ -21,7 +22,14 @@ Dispatcher::dispatch(std::shared_ptr<packet::Basic> pack) {
   auto size = pack->data().size() - pack->offset();
   Unpacker unpacker(data, size);
 
-  return it->second(unpacker);
+  try {
+    return it->second(unpacker);
+  } catch (const std::exception &e) {
+    LOG_ERROR << "rpc: [" << name << "] exception: " << e.what();
+  } catch (...) {
+    LOG_ERROR << "rpc: [" << name << "] unknown exception";
+  }
+  return Error{ErrorCode::RunTime};
 }
 
 void Dispatcher::enforce_unique_name(const std::string &name) {
-- 
2.43.0


From f72ff095e25956d8898edc8212d8b9090ccdee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:42 +0000
Subject: [PATCH 149/158] fix: a remote function is not run without its
 arguments

---
 framework/core/include/plain/net/rpc/dispatcher.h | 4 ++++
 framework/core/src/net/rpc/dispatcher.cc          | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/framework/core/include/plain/net/rpc/dispatcher.h b/framework/core/include/plain/net/rpc/dispatcher.h
index 7cd642e..46c3e67 100644
--- a/framework/core/include/plain/net/rpc/dispatcher.h
+++ b/framework/core/include/plain/net/rpc/dispatcher.h
@@ -60,6 +60,7 @@ class PLAIN_API Dispatcher {
       //enforce_arg_count(name, args_count, args.via.array.size);
       args_type args_real;
       args.unpack(args_real);
+      enforce_arguments(name, args);
       call(func, args_real);
       return std::shared_ptr<Packer>{};
     }));
@@ -94,6 +95,7 @@ class PLAIN_API Dispatcher {
       //enforce_arg_count(name, args_count, args.via.array.size);
       args_type args_real;
       args.process(args_real);
+      enforce_arguments(name, args);
       auto r = call(func, args_real);
       auto packer = std::make_shared<Packer>();
       packer->process(r);
@@ -118,6 +120,8 @@ class PLAIN_API Dispatcher {
 
  private:
   void enforce_unique_name(const std::string &name);
+  static void enforce_arguments(
+    const std::string &name, const Unpacker &args);
 
  private:
   std::unordered_map<std::string, adaptor_type> funcs_;
diff --git a/framework/core/src/net/rpc/dispatcher.cc b/framework/core/src/net/rpc/dispatcher.cc
index 5fdca08..6560dd1 100644
--- a/framework/core/src/net/rpc/dispatcher.cc
+++ b/framework/core/src/net/rpc/dispatcher.cc
@@ -41,3 +41,10 @@ void Dispatcher::enforce_unique_name(const std::string &name) {
         "Please use unique function names", name));
   }
 }
+
+void Dispatcher::enforce_arguments(
+  const std::string &name, const Unpacker &args) {
+  if (args.error_)
+    throw std::invalid_argument(
+      std::format("Function '{}' called with wrong arguments", name));
+}
-- 
2.43.0


From 21bb7a11d7a6865128975363ffbfa0a535c01369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:38 +0000
Subject: [PATCH 150/158] fix: a variable read as a number or printed while it
 is changed is not torn

---
 .../core/include/plain/basic/type/variable.h  | 40 ++++++++++++-------
 framework/core/src/basic/type/variable.cc     |  2 +-
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/framework/core/include/plain/basic/type/variable.h b/framework/core/include/plain/basic/type/variable.h
index 3c1f7af..55228d2 100644
--- a/framework/core/include/plain/basic/type/variable.h
+++ b/framework/core/include/plain/basic/type/variable.h
@@ -65,6 +65,16 @@ struct PLAIN_API variable_struct {
   }
 
   int64_t to_int64() const noexcept {
+    std::unique_lock<std::mutex> auto_lock(mutex);
+    return _to_int64();
+  }
+
+  double to_double() const noexcept {
+    std::unique_lock<std::mutex> auto_lock(mutex);
+    return _to_double();
+  }
+
+  int64_t _to_int64() const noexcept {
     int64_t r{0};
     std::visit([&r](auto &&val) {
       using type = std::decay_t<decltype(val)>;
@@ -76,9 +86,9 @@ struct PLAIN_API variable_struct {
       }
     }, value);
     return r;
-  }
+  } //Not safe in multi threads.
 
-  double to_double() const noexcept {
+  double _to_double() const noexcept {
     double r{0.0};
     std::visit([&r](auto &&val) {
       using type = std::decay_t<decltype(val)>;
@@ -89,7 +99,7 @@ struct PLAIN_API variable_struct {
       }
     }, value);
     return r;
-  }
+  } //Not safe in multi threads.
 
   variable_t &operator=(const variable_t &object) {
     auto _value = object.copy_value();
@@ -107,74 +117,74 @@ struct PLAIN_API variable_struct {
   variable_t &operator+=(const variable_t &object) noexcept {
     auto number = variable_t{object}.to_double();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = number + to_double();
+    value = number + _to_double();
     return *this;
   }
   template <typename T>
   variable_t &operator+=(T _value) {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = _value + to_double();
+    value = _value + _to_double();
     return *this;
   }
 
   variable_t &operator-=(const variable_t &object) noexcept {
     auto number = variable_t{object}.to_double();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() - number;
+    value = _to_double() - number;
     return *this;
   }
   template <typename T>
   variable_t &operator -= (T _value) {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() - _value;
+    value = _to_double() - _value;
     return *this;
   }
 
   variable_t &operator*=(const variable_t &object) noexcept {
     auto number = variable_t{object}.to_double();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() * number;
+    value = _to_double() * number;
     return *this;
   }
   
   template <typename T>
   variable_t &operator *= (T _value) {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() * _value;
+    value = _to_double() * _value;
     return *this;
   }
 
   variable_t &operator/=(const variable_t &object) {
     auto number = variable_t{object}.to_double();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() / number;
+    value = _to_double() / number;
     return *this;
   }
   template <typename T>
   variable_t &operator /= (T _value) {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() / _value;
+    value = _to_double() / _value;
     return *this;
   }
 
   variable_t &operator++() noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_int64() + 1;
+    value = _to_int64() + 1;
     return *this;
   }
   variable_t &operator--() noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_int64() - 1;
+    value = _to_int64() - 1;
     return *this;
   }
   variable_t &operator++(int32_t) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_int64() + 1;
+    value = _to_int64() + 1;
     return *this;
   }
   variable_t &operator--(int32_t) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_int64() - 1;
+    value = _to_int64() - 1;
     return *this;
   }
   
diff --git a/framework/core/src/basic/type/variable.cc b/framework/core/src/basic/type/variable.cc
index 7d4c140..4b9a2bf 100644
--- a/framework/core/src/basic/type/variable.cc
+++ b/framework/core/src/basic/type/variable.cc
@@ -4,7 +4,7 @@
 namespace plain {
 
 std::ostream &operator<<(std::ostream &os, const variable_t &object) noexcept {
-  std::visit([&os](auto &&val){ os << val; }, object.value);
+  std::visit([&os](auto &&val){ os << val; }, object.copy_value());
   return os;
 }
 
-- 
2.43.0


From 1be58d881c26e1419723df5609027b2152fe891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:21 +0000
Subject: [PATCH 151/158] fix: asking for an environment of an unknown type
 from several threads

---
 framework/core/include/plain/basic/macros/function.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/macros/function.h b/framework/core/include/plain/basic/macros/function.h
index a56630e..67a2c8c 100644
--- a/framework/core/include/plain/basic/macros/function.h
+++ b/framework/core/include/plain/basic/macros/function.h
@@ -98,7 +98,9 @@
     get_env_creator_map_##name()[type] = func; \
   } \
   inline function_env_creator_##name get_env_creator_##name(uint8_t type) { \
-    return get_env_creator_map_##name()[type]; \
+    auto &creatormap = get_env_creator_map_##name(); \
+    auto it = creatormap.find(type); \
+    return it == creatormap.end() ? nullptr : it->second; \
   }
 #endif
 
-- 
2.43.0


From 946becee21340dba6cedd55ea1071673e5537c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:43 +0000
Subject: [PATCH 152/158] fix: the size just below a change of its form keeps
 to five characters

---
 framework/core/src/basic/utility.cc | 30 ++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index e25e495..6824724 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -31,35 +31,35 @@ std::string format_size(uint64_t s) {
   char buf[64];
   if (s < 1000)
     snprintf(buf, sizeof(buf), "%" PRId64, s);
-  else if (s < 9995)
+  else if (n < 9995)
     snprintf(buf, sizeof(buf), "%.2fk", n/1e3);
-  else if (s < 99950)
+  else if (n < 99950)
     snprintf(buf, sizeof(buf), "%.1fk", n/1e3);
-  else if (s < 999500)
+  else if (n < 999500)
     snprintf(buf, sizeof(buf), "%.0fk", n/1e3);
-  else if (s < 9995000)
+  else if (n < 9995000)
     snprintf(buf, sizeof(buf), "%.2fM", n/1e6);
-  else if (s < 99950000)
+  else if (n < 99950000)
     snprintf(buf, sizeof(buf), "%.1fM", n/1e6);
-  else if (s < 999500000)
+  else if (n < 999500000)
     snprintf(buf, sizeof(buf), "%.0fM", n/1e6);
-  else if (s < 9995000000)
+  else if (n < 9995000000)
     snprintf(buf, sizeof(buf), "%.2fG", n/1e9);
-  else if (s < 99950000000)
+  else if (n < 99950000000)
     snprintf(buf, sizeof(buf), "%.1fG", n/1e9);
-  else if (s < 999500000000)
+  else if (n < 999500000000)
     snprintf(buf, sizeof(buf), "%.0fG", n/1e9);
-  else if (s < 9995000000000)
+  else if (n < 9995000000000)
     snprintf(buf, sizeof(buf), "%.2fT", n/1e12);
-  else if (s < 99950000000000)
+  else if (n < 99950000000000)
     snprintf(buf, sizeof(buf), "%.1fT", n/1e12);
-  else if (s < 999500000000000)
+  else if (n < 999500000000000)
     snprintf(buf, sizeof(buf), "%.0fT", n/1e12);
-  else if (s < 9995000000000000)
+  else if (n < 9995000000000000)
     snprintf(buf, sizeof(buf), "%.2fP", n/1e15);
-  else if (s < 99950000000000000)
+  else if (n < 99950000000000000)
     snprintf(buf, sizeof(buf), "%.1fP", n/1e15);
-  else if (s < 999500000000000000)
+  else if (n < 999500000000000000)
     snprintf(buf, sizeof(buf), "%.0fP", n/1e15);
   else
     snprintf(buf, sizeof(buf), "%.2fE", n/1e18);
-- 
2.43.0


From c6739dc56089875f949e04b987ea362085a9d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:11 +0000
Subject: [PATCH 153/158] fix: a start of a net that fails leaves nothing open
 and can be tried again, one that cannot work is refused

---
 framework/core/src/net/connection/epoll.cc   |  1 +
 framework/core/src/net/connection/manager.cc | 39 ++++++++++++++------
 framework/core/src/net/connection/select.cc  |  8 ++++
 framework/core/src/net/listener.cc           | 11 +++++-
 4 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/framework/core/src/net/connection/epoll.cc b/framework/core/src/net/connection/epoll.cc
index ae1cba6..c62ac83 100644
--- a/framework/core/src/net/connection/epoll.cc
+++ b/framework/core/src/net/connection/epoll.cc
@@ -131,6 +131,7 @@ Epoll::~Epoll() {
 bool Epoll::prepare() noexcept {
 #ifdef PLAIN_EPOLL_ENABLE
   if (running()) return true;
+  poll_destory(impl_->data); // That of a start that failed.
   auto fd = poll_create(impl_->data, setting_.max_count);
   if (fd <= 0) {
     LOG_ERROR << setting_.name << " create error max_count: "
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 122c2d3..fd7ca18 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -79,9 +79,18 @@ struct Manager::Impl {
     std::shared_ptr<Manager> manager, connection::id_t conn_id) noexcept;
   connection::id_t pop_work_id() noexcept;
   void push_work_id(connection::id_t id) noexcept;
+  void close_ctrl_fds(socket::id_t &read_fd) noexcept;
 
 };
 
+void Manager::Impl::close_ctrl_fds(socket::id_t &read_fd) noexcept {
+  if (read_fd != socket::kInvalidId)
+    socket::close(read_fd);
+  if (ctrl_write_fd != socket::kInvalidId)
+    socket::close(ctrl_write_fd);
+  read_fd = ctrl_write_fd = socket::kInvalidId;
+}
+
 void Manager::Impl::init_connections(uint32_t count) {
   connection_info.list.reserve(count);
   for (uint32_t i = 0; i < count; ++i) {
@@ -227,26 +236,32 @@ Manager::Manager(
 }
 
 Manager::~Manager() {
-  if (ctrl_read_fd_ != socket::kInvalidId)
-    socket::close(ctrl_read_fd_);
-  if (impl_->ctrl_write_fd != socket::kInvalidId)
-    socket::close(impl_->ctrl_write_fd);
+  impl_->close_ctrl_fds(ctrl_read_fd_);
 }
 
 bool Manager::start() {
   if (running()) return true;
+  if (impl_->executor->shutdown_requested()) {
+    LOG_ERROR << setting_.name << " start failed: the executor was shut down";
+    return false;
+  }
   if (!prepare()) {
     return false;
   }
+  // Not those of a start that failed.
+  impl_->close_ctrl_fds(ctrl_read_fd_);
   socket::id_t fds[2]{socket::kInvalidId};
-  if (socket::make_pair(fds)) {
-    ctrl_read_fd_ = fds[0];
-    impl_->ctrl_write_fd = fds[1];
-    // std::cout << "fds: " << fds[0] << "|" << fds[1] << std::endl;
-    if (!sock_add(ctrl_read_fd_, 0)) {
-      LOG_ERROR << setting_.name << " add ctrl read fd failed";
-      return false;
-    }
+  if (!socket::make_pair(fds)) {
+    LOG_ERROR << setting_.name << " make ctrl fds failed: " <<
+      socket::get_last_error();
+    return false; // Nothing could wake the worker.
+  }
+  ctrl_read_fd_ = fds[0];
+  impl_->ctrl_write_fd = fds[1];
+  // std::cout << "fds: " << fds[0] << "|" << fds[1] << std::endl;
+  if (!sock_add(ctrl_read_fd_, 0)) {
+    LOG_ERROR << setting_.name << " add ctrl read fd failed";
+    return false;
   }
   ENGINE->add(shared_from_this());
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index e28afbe..65254df 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -86,6 +86,14 @@ Select::~Select() = default;
 
 bool Select::prepare() noexcept {
   if (listen_fd_ >= FD_SETSIZE) return false; // Out of the sets.
+  // Not those of a start that failed.
+  impl_->read_fds = {};
+  impl_->write_fds = {};
+  impl_->except_fds = {};
+  impl_->valid_fds.clear();
+  impl_->new_fds.clear();
+  impl_->fd_size = 0;
+  impl_->max_fd = socket::kInvalidId;
   if (listen_fd_ != socket::kInvalidId) {
     FD_SET(listen_fd_, &impl_->read_fds.full);
     FD_SET(listen_fd_, &impl_->except_fds.full);
diff --git a/framework/core/src/net/listener.cc b/framework/core/src/net/listener.cc
index 00782c3..9cc90aa 100644
--- a/framework/core/src/net/listener.cc
+++ b/framework/core/src/net/listener.cc
@@ -1,4 +1,5 @@
 #include "plain/net/listener.h"
+#include "plain/basic/utility.h"
 #include "plain/concurrency/executor/basic.h"
 #include "plain/net/connection/manager.h"
 #include "plain/net/socket/listener.h"
@@ -27,6 +28,13 @@ Listener::~Listener() {
 bool Listener::start() {
   if (impl_->manager->running()) return true;
   impl_->manager->listen_sock_ = std::make_shared<socket::Listener>();
+  bool r{false};
+  // Nobody would accept what connects to it.
+  scoped_executor_t close_failed([this, &r] {
+    if (r) return;
+    impl_->manager->listen_sock_->close();
+    impl_->manager->listen_fd_ = socket::kInvalidId;
+  });
   Address addr{impl_->manager->setting_.address};
   if (!impl_->manager->listen_sock_->init(
       addr, impl_->manager->setting_.socket_type))
@@ -34,7 +42,8 @@ bool Listener::start() {
   if (impl_->manager->setting_.address.empty())
     impl_->manager->setting_.address = address().text();
   impl_->manager->listen_fd_ = impl_->manager->listen_sock_->id();
-  return impl_->manager->start();
+  r = impl_->manager->start();
+  return r;
 }
   
 void Listener::stop() {
-- 
2.43.0


From 059f9639a5ff0504283685a74b576e2a0066fbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:34 +0000
Subject: [PATCH 154/158] fix: a select net without a listener waits its time
 instead of running in a circle

---
 framework/core/src/net/connection/select.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 65254df..e5e126a 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -67,8 +67,9 @@ void Select::Impl::select() noexcept {
   }
   PLAIN_VERIF_POINT(48);
   if (select_timeout >= 0) {
+    auto left = timeout; // Changed by the select.
     select_result = socket::select(
-      max_fd + 1, &read_fds.use, nullptr, &except_fds.use, &timeout);
+      max_fd + 1, &read_fds.use, nullptr, &except_fds.use, &left);
   } else {
     select_result = socket::select(
       max_fd + 1, &read_fds.use, nullptr, &except_fds.use, nullptr);
-- 
2.43.0


From 3fa64c47886e168dea22d13fd5c8c633482bb65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:35 +0000
Subject: [PATCH 155/158] fix: a stopped listener does not let others connect
 and wait for ever

---
 framework/core/src/net/connection/manager.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index fd7ca18..b841445 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -308,6 +308,9 @@ void Manager::stop() {
   if (impl_->worker.joinable())
     impl_->worker.join();
 #endif
+  // Nobody accepts any more, who connects(or waits) has to know it.
+  if (listen_fd_ != socket::kInvalidId)
+    socket::shutdown(listen_fd_, 2); // SHUT_RDWR
   std::this_thread::sleep_for(1ms);
   impl_->executor->shutdown();
 }
-- 
2.43.0


From 052c0ac11a8a3c9ac9a3eee3c8fe4c220c8daed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:52 +0000
Subject: [PATCH 156/158] Revert "fix: a stopped listener does not let others
 connect and wait for ever"

This reverts commit 3fa64c47886e168dea22d13fd5c8c633482bb65c.
---
 framework/core/src/net/connection/manager.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index b841445..fd7ca18 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -308,9 +308,6 @@ void Manager::stop() {
   if (impl_->worker.joinable())
     impl_->worker.join();
 #endif
-  // Nobody accepts any more, who connects(or waits) has to know it.
-  if (listen_fd_ != socket::kInvalidId)
-    socket::shutdown(listen_fd_, 2); // SHUT_RDWR
   std::this_thread::sleep_for(1ms);
   impl_->executor->shutdown();
 }
-- 
2.43.0


From 3ab0b2918c0246617f4e888c626c1c3aa5b2d69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:52 +0000
Subject: [PATCH 157/158] Revert "fix: a select net without a listener waits
 its time instead of running in a circle"

This reverts commit 059f9639a5ff0504283685a74b576e2a0066fbe6.
---
 framework/core/src/net/connection/select.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index e5e126a..65254df 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -67,9 +67,8 @@ void Select::Impl::select() noexcept {
   }
   PLAIN_VERIF_POINT(48);
   if (select_timeout >= 0) {
-    auto left = timeout; // Changed by the select.
     select_result = socket::select(
-      max_fd + 1, &read_fds.use, nullptr, &except_fds.use, &left);
+      max_fd + 1, &read_fds.use, nullptr, &except_fds.use, &timeout);
   } else {
     select_result = socket::select(
       max_fd + 1, &read_fds.use, nullptr, &except_fds.use, nullptr);
-- 
2.43.0


From 9857a6bf5efeb26452d396a0386f3ec5e869efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:52 +0000
Subject: [PATCH 158/158] Revert "fix: a start of a net that fails leaves
 nothing open and can be tried again, one that cannot work is refused"

This reverts commit c6739dc56089875f949e04b987ea362085a9d48a.
---
 framework/core/src/net/connection/epoll.cc   |  1 -
 framework/core/src/net/connection/manager.cc | 39 ++++++--------------
 framework/core/src/net/connection/select.cc  |  8 ----
 framework/core/src/net/listener.cc           | 11 +-----
 4 files changed, 13 insertions(+), 46 deletions(-)

diff --git a/framework/core/src/net/connection/epoll.cc b/framework/core/src/net/connection/epoll.cc
index c62ac83..ae1cba6 100644
--- a/framework/core/src/net/connection/epoll.cc
+++ b/framework/core/src/net/connection/epoll.cc
@@ -131,7 +131,6 @@ Epoll::~Epoll() {
 bool Epoll::prepare() noexcept {
 #ifdef PLAIN_EPOLL_ENABLE
   if (running()) return true;
-  poll_destory(impl_->data); // That of a start that failed.
   auto fd = poll_create(impl_->data, setting_.max_count);
   if (fd <= 0) {
     LOG_ERROR << setting_.name << " create error max_count: "
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index fd7ca18..122c2d3 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -79,18 +79,9 @@ struct Manager::Impl {
     std::shared_ptr<Manager> manager, connection::id_t conn_id) noexcept;
   connection::id_t pop_work_id() noexcept;
   void push_work_id(connection::id_t id) noexcept;
-  void close_ctrl_fds(socket::id_t &read_fd) noexcept;
 
 };
 
-void Manager::Impl::close_ctrl_fds(socket::id_t &read_fd) noexcept {
-  if (read_fd != socket::kInvalidId)
-    socket::close(read_fd);
-  if (ctrl_write_fd != socket::kInvalidId)
-    socket::close(ctrl_write_fd);
-  read_fd = ctrl_write_fd = socket::kInvalidId;
-}
-
 void Manager::Impl::init_connections(uint32_t count) {
   connection_info.list.reserve(count);
   for (uint32_t i = 0; i < count; ++i) {
@@ -236,32 +227,26 @@ Manager::Manager(
 }
 
 Manager::~Manager() {
-  impl_->close_ctrl_fds(ctrl_read_fd_);
+  if (ctrl_read_fd_ != socket::kInvalidId)
+    socket::close(ctrl_read_fd_);
+  if (impl_->ctrl_write_fd != socket::kInvalidId)
+    socket::close(impl_->ctrl_write_fd);
 }
 
 bool Manager::start() {
   if (running()) return true;
-  if (impl_->executor->shutdown_requested()) {
-    LOG_ERROR << setting_.name << " start failed: the executor was shut down";
-    return false;
-  }
   if (!prepare()) {
     return false;
   }
-  // Not those of a start that failed.
-  impl_->close_ctrl_fds(ctrl_read_fd_);
   socket::id_t fds[2]{socket::kInvalidId};
-  if (!socket::make_pair(fds)) {
-    LOG_ERROR << setting_.name << " make ctrl fds failed: " <<
-      socket::get_last_error();
-    return false; // Nothing could wake the worker.
-  }
-  ctrl_read_fd_ = fds[0];
-  impl_->ctrl_write_fd = fds[1];
-  // std::cout << "fds: " << fds[0] << "|" << fds[1] << std::endl;
-  if (!sock_add(ctrl_read_fd_, 0)) {
-    LOG_ERROR << setting_.name << " add ctrl read fd failed";
-    return false;
+  if (socket::make_pair(fds)) {
+    ctrl_read_fd_ = fds[0];
+    impl_->ctrl_write_fd = fds[1];
+    // std::cout << "fds: " << fds[0] << "|" << fds[1] << std::endl;
+    if (!sock_add(ctrl_read_fd_, 0)) {
+      LOG_ERROR << setting_.name << " add ctrl read fd failed";
+      return false;
+    }
   }
   ENGINE->add(shared_from_this());
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 65254df..e28afbe 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -86,14 +86,6 @@ Select::~Select() = default;
 
 bool Select::prepare() noexcept {
   if (listen_fd_ >= FD_SETSIZE) return false; // Out of the sets.
-  // Not those of a start that failed.
-  impl_->read_fds = {};
-  impl_->write_fds = {};
-  impl_->except_fds = {};
-  impl_->valid_fds.clear();
-  impl_->new_fds.clear();
-  impl_->fd_size = 0;
-  impl_->max_fd = socket::kInvalidId;
   if (listen_fd_ != socket::kInvalidId) {
     FD_SET(listen_fd_, &impl_->read_fds.full);
     FD_SET(listen_fd_, &impl_->except_fds.full);
diff --git a/framework/core/src/net/listener.cc b/framework/core/src/net/listener.cc
index 9cc90aa..00782c3 100644
--- a/framework/core/src/net/listener.cc
+++ b/framework/core/src/net/listener.cc
@@ -1,5 +1,4 @@
 #include "plain/net/listener.h"
-#include "plain/basic/utility.h"
 #include "plain/concurrency/executor/basic.h"
 #include "plain/net/connection/manager.h"
 #include "plain/net/socket/listener.h"
@@ -28,13 +27,6 @@ Listener::~Listener() {
 bool Listener::start() {
   if (impl_->manager->running()) return true;
   impl_->manager->listen_sock_ = std::make_shared<socket::Listener>();
-  bool r{false};
-  // Nobody would accept what connects to it.
-  scoped_executor_t close_failed([this, &r] {
-    if (r) return;
-    impl_->manager->listen_sock_->close();
-    impl_->manager->listen_fd_ = socket::kInvalidId;
-  });
   Address addr{impl_->manager->setting_.address};
   if (!impl_->manager->listen_sock_->init(
       addr, impl_->manager->setting_.socket_type))
@@ -42,8 +34,7 @@ bool Listener::start() {
   if (impl_->manager->setting_.address.empty())
     impl_->manager->setting_.address = address().text();
   impl_->manager->listen_fd_ = impl_->manager->listen_sock_->id();
-  r = impl_->manager->start();
-  return r;
+  return impl_->manager->start();
 }
   
 void Listener::stop() {
-- 
2.43.0

