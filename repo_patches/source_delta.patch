From 97baa4e85b16a6b5c9aff494d599db65e8d47a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 01/53] fix: race doesn't start further branches once a branch
 has completed it

A branch that completes while it gets started interrupts only the branches
already started. The ones after it would've been awaited afterwards, so that
e.g. a later channel operation could complete too & lose its message.
---
 include/boost/cobalt/detail/race.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 006608f..446985f 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -313,7 +313,7 @@ struct race_variadic_impl
         return false;
 
       for (std::size_t idx = 1u;
-           idx < tuple_size; idx++) // we'
+           idx < tuple_size && !has_result(); idx++) // we'
       {
         auto l = impls[idx](*this);
         const auto d = l.done();
@@ -624,7 +624,7 @@ struct race_ranged_impl
         return false;
 
       for (auto itr = std::next(reorder.begin());
-           itr < reorder.end(); std::advance(itr, 1)) // we'
+           itr < reorder.end() && !has_result(); std::advance(itr, 1)) // we'
       {
         auto l = await_impl(*this, *itr);
         auto d = l.done();
-- 
2.43.0


From e379864f6a6635c7489d1bae3083b39fbd338355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 02/53] fix: race reports errors & interrupts the other
 branches in every path

- a ready branch interrupts the others before it gets resumed, because the
  resumption may wake up another branch, e.g. when both use the same channel.
- a void branch that began a transaction reports its error & result.
- a ranged race of void doesn't report the error of a branch that lost.
- a branch throwing before it gets suspended interrupts the others, too.
---
 include/boost/cobalt/detail/race.hpp | 31 ++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 446985f..cce1e92 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -217,14 +217,14 @@ struct race_variadic_impl
         {
           auto res = co_await aw;
           if (!this_.has_result())
-          {
             this_.index = Idx;
+          if (this_.index == Idx)
+          {
             if (res.has_error())
               this_.assign_error(res);
-          }
-          if constexpr(!all_void)
-            if (this_.index == Idx && !res.has_error())
+            else
               this_.result.emplace(variant2::in_place_index<Idx>);
+          }
         }
         else
         {
@@ -244,7 +244,12 @@ struct race_variadic_impl
       else
       {
         if (!this_.has_result())
+        {
           this_.index = Idx;
+          // interrupt the others first, so the resumption can't wake up one of them, e.g. with channels.
+          this_.working[Idx] = nullptr;
+          this_.cancel_all();
+        }
         if constexpr (std::is_void_v<decltype(aw_.await_resume())>)
         {
           auto res = aw.await_resume();
@@ -281,6 +286,8 @@ struct race_variadic_impl
       if (this_.index == Idx)
         this_.error = std::current_exception();
       this_.working[Idx] = nullptr;
+      this_.cancel[Idx] = nullptr;
+      this_.cancel_all();
     }
     BOOST_CATCH_END
 
@@ -541,11 +548,9 @@ struct race_ranged_impl
         {
           auto res = co_await aw;
           if (!this_.has_result())
-          {
-            if (res.has_error())
-              this_.assign_error(res);
             this_.index = idx;
-          }
+          if (this_.index == idx && res.has_error())
+            this_.assign_error(res);
         }
         else
         {
@@ -566,11 +571,17 @@ struct race_ranged_impl
       {
 
         if (!this_.has_result())
+        {
           this_.index = idx;
+          // interrupt the others first, so the resumption can't wake up one of them, e.g. with channels.
+          if constexpr (traits::interruptible)
+            this_.working[idx] = nullptr;
+          this_.cancel_all();
+        }
         if constexpr (std::is_void_v<decltype(aw_.await_resume())>)
         {
           auto val = aw.await_resume();
-          if (val.has_error())
+          if (this_.index == idx && val.has_error())
             this_.assign_error(val);
         }
         else
@@ -600,6 +611,8 @@ struct race_ranged_impl
         this_.error = std::current_exception();
       if constexpr (traits::interruptible)
         this_.working[idx] = nullptr;
+      this_.cancel[idx] = nullptr;
+      this_.cancel_all();
     }
     BOOST_CATCH_END
 
-- 
2.43.0


From 7f1ca35c08d5b35b306e3b693401744a2043b107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 03/53] fix: channel operations woken up or matched can't lose,
 steal or duplicate messages

- an operation that gets woken up reserves its value or slot, so that another
  one running before it resumes can't take it (which popped an empty buffer).
- a direct exchange concludes the race of both sides, so that neither can be
  interrupted once the value was moved.
- an interrupted or matched operation is unlinked & its cancel slot cleared,
  so that it can't be woken up a second time.
---
 include/boost/cobalt/channel.hpp      | 29 +++++---
 include/boost/cobalt/impl/channel.hpp | 97 +++++++++++++++++++--------
 src/channel.cpp                       | 21 +++++-
 3 files changed, 108 insertions(+), 39 deletions(-)

diff --git a/include/boost/cobalt/channel.hpp b/include/boost/cobalt/channel.hpp
index 26c7f2c..6ecbbbe 100644
--- a/include/boost/cobalt/channel.hpp
+++ b/include/boost/cobalt/channel.hpp
@@ -67,12 +67,15 @@ struct channel
 #endif
   executor_type executor_;
   bool is_closed_{false};
+  // values handed & free slots promised to operations that got posted, but haven't resumed yet.
+  std::size_t reserved_reads_{0u}, reserved_writes_{0u};
+  std::size_t used() const {return buffer_.size() + reserved_reads_ + reserved_writes_;}
 
   struct read_op : intrusive::list_base_hook<intrusive::link_mode<intrusive::auto_unlink> >
   {
     channel * chn;
     boost::source_location loc;
-    bool cancelled = false;
+    bool cancelled = false, reserved = false;
     std::optional<T> direct{};
     asio::cancellation_slot cancel_slot{};
     unique_handle<void> awaited_from{nullptr};
@@ -90,6 +93,7 @@ struct channel
       if (!direct)
       {
         this->cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -115,7 +119,7 @@ struct channel
         T*>;
     ref_t ref;
     boost::source_location loc;
-    bool cancelled = false, direct = false, closed = !chn->is_open();
+    bool cancelled = false, direct = false, closed = !chn->is_open(), reserved = false;
     asio::cancellation_slot cancel_slot{};
 
     unique_handle<void> awaited_from{nullptr};
@@ -130,9 +134,10 @@ struct channel
 
     void interrupt_await()
     {
-      if (!direct)
+      if (!direct && !reserved)
       {
         this->cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -140,7 +145,10 @@ struct channel
 
     struct cancel_impl;
 
-    bool await_ready() { return !chn->buffer_.full() || chn->is_closed_; }
+    bool await_ready()
+    {
+      return chn->used() < chn->buffer_.capacity() || chn->is_closed_;
+    }
     template<typename Promise>
     BOOST_COBALT_MSVC_NOINLINE
     std::coroutine_handle<void> await_suspend(std::coroutine_handle<Promise> h);
@@ -229,12 +237,15 @@ struct channel<void>
   std::size_t n_{0u};
   executor_type executor_;
   bool is_closed_{false};
+  // messages handed & free slots promised to operations that got posted, but haven't resumed yet.
+  std::size_t reserved_reads_{0u}, reserved_writes_{0u};
+  std::size_t used() const {return n_ + reserved_reads_ + reserved_writes_;}
 
   struct read_op : intrusive::list_base_hook<intrusive::link_mode<intrusive::auto_unlink> >
   {
     channel * chn;
     boost::source_location loc;
-    bool cancelled = false, direct = false;
+    bool cancelled = false, direct = false, reserved = false;
     asio::cancellation_slot cancel_slot{};
     unique_handle<void> awaited_from{nullptr};
     void (*begin_transaction)(void*) = nullptr;
@@ -251,6 +262,7 @@ struct channel<void>
       if (!direct)
       {
         this->cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -275,7 +287,7 @@ struct channel<void>
   {
     channel * chn;
     boost::source_location loc;
-    bool cancelled = false, direct = false, closed = !chn->is_open();
+    bool cancelled = false, direct = false, closed = !chn->is_open(), reserved = false;
     asio::cancellation_slot cancel_slot{};
     unique_handle<void> awaited_from{nullptr};
     void (*begin_transaction)(void*) = nullptr;
@@ -289,9 +301,10 @@ struct channel<void>
 
     void interrupt_await()
     {
-      if (!direct)
+      if (!direct && !reserved)
       {
         cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -300,7 +313,7 @@ struct channel<void>
     struct cancel_impl;
     bool await_ready()
     {
-      return chn->n_ < chn->limit_ || chn->is_closed_;
+      return chn->used() < chn->limit_ || chn->is_closed_;
     }
 
     template<typename Promise>
diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index dead930..ae0241e 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -106,13 +106,13 @@ std::coroutine_handle<void> channel<T>::read_op::await_suspend(std::coroutine_ha
 
   if (awaited_from)
     boost::throw_exception(std::runtime_error("already-awaited"), loc);
-  awaited_from.reset(h.address());
   // currently nothing to read
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
   if (chn->write_queue_.empty())
   {
+    awaited_from.reset(h.address());
     chn->read_queue_.push_back(*this);
     return std::noop_coroutine();
   }
@@ -120,19 +120,26 @@ std::coroutine_handle<void> channel<T>::read_op::await_suspend(std::coroutine_ha
   {
     cancel_slot.clear();
     auto & op = chn->write_queue_.front();
-    // transactional_unlink can interrupt or cancel `op` through `race`, so we need to check.
     op.direct = true;
-    if constexpr (std::is_copy_constructible_v<T>)
+    // transactional_unlink interrupts us if `op` is part of the same `race`, so we need to check.
+    op.transactional_unlink();
+    if (!cancelled)
     {
-      if (op.ref.index() == 0)
-        direct = std::move(*variant2::get<0>(op.ref));
+      if constexpr (std::is_copy_constructible_v<T>)
+      {
+        if (op.ref.index() == 0)
+          direct = std::move(*variant2::get<0>(op.ref));
+        else
+          direct = *variant2::get<1>(op.ref);
+      }
       else
-        direct = *variant2::get<1>(op.ref);
-    }
-    else
-      direct = std::move(*op.ref);
+        direct = std::move(*op.ref);
 
-    op.transactional_unlink();
+      // the value is ours now, so a race we're part of must not pick another winner before we get resumed.
+      if (begin_transaction)
+        begin_transaction(h.address());
+    }
+    awaited_from.reset(h.address());
     BOOST_ASSERT(op.awaited_from);
     BOOST_ASSERT(awaited_from);
 
@@ -178,13 +185,12 @@ system::result<T> channel<T>::read_op::await_resume(const struct as_result_tag &
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
 
-  T value = chn->buffer_.empty() ? std::move(*direct) : std::move(chn->buffer_.front());
-  if (!chn->buffer_.empty())
-  {
+  if (std::exchange(reserved, false))
+    chn->reserved_reads_--;
+
+  T value = direct ? std::move(*direct) : std::move(chn->buffer_.front());
+  if (!direct)
     chn->buffer_.pop_front();
-    if (direct)
-      chn->buffer_.push_back(std::move(*direct));
-  }
 
   if (!chn->write_queue_.empty())
   {
@@ -192,7 +198,11 @@ system::result<T> channel<T>::read_op::await_resume(const struct as_result_tag &
     BOOST_ASSERT(chn->read_queue_.empty());
     if (op.await_ready())
     {
-      op.unlink();
+      // reserve the slot, so nobody can take it before op gets resumed
+      op.reserved = true;
+      chn->reserved_writes_++;
+      op.cancel_slot.clear();
+      op.transactional_unlink();
       BOOST_ASSERT(op.awaited_from);
       asio::post(chn->executor_, std::move(op.awaited_from));
     }
@@ -228,13 +238,13 @@ std::coroutine_handle<void> channel<T>::write_op::await_suspend(std::coroutine_h
     if ((cancel_slot = h.promise().get_cancellation_slot()).is_connected())
       cancel_slot.emplace<cancel_impl>(this);
 
-  awaited_from.reset(h.address());
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
-  BOOST_ASSERT(this->chn->buffer_.full());
+  BOOST_ASSERT(this->chn->used() >= this->chn->buffer_.capacity());
   if (chn->read_queue_.empty())
   {
+    awaited_from.reset(h.address());
     chn->write_queue_.push_back(*this);
     return std::noop_coroutine();
   }
@@ -252,9 +262,16 @@ std::coroutine_handle<void> channel<T>::write_op::await_suspend(std::coroutine_h
     else
       op.direct.emplace(std::move(*ref));
 
-    direct = true;
+    // transactional_unlink interrupts us if `op` is part of the same `race`, so we need to check.
     op.transactional_unlink();
-
+    if (!cancelled)
+    {
+      direct = true;
+      // the value is gone, so a race we're part of must not pick another winner before we get resumed.
+      if (begin_transaction)
+        begin_transaction(h.address());
+    }
+    awaited_from.reset(h.address());
     BOOST_ASSERT(op.awaited_from);
     BOOST_ASSERT(awaited_from);
     asio::post(chn->executor_, std::move(awaited_from));
@@ -293,6 +310,9 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
 
+  if (std::exchange(reserved, false))
+    chn->reserved_writes_--;
+
   if (!direct)
   {
     BOOST_ASSERT(!chn->buffer_.full());
@@ -313,8 +333,13 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
     BOOST_ASSERT(chn->write_queue_.empty());
     if (op.await_ready())
     {
-      // unlink?
-      op.unlink();
+      // hand the value over, so nobody can take it before op gets resumed. it occupies its slot until then.
+      op.direct = std::move(chn->buffer_.front());
+      chn->buffer_.pop_front();
+      op.reserved = true;
+      chn->reserved_reads_++;
+      op.cancel_slot.clear();
+      op.transactional_unlink();
       BOOST_ASSERT(op.awaited_from);
       asio::post(chn->executor_, std::move(op.awaited_from));
     }
@@ -362,7 +387,6 @@ std::coroutine_handle<void> channel<void>::read_op::await_suspend(std::coroutine
 
   if (awaited_from)
     boost::throw_exception(std::runtime_error("already-awaited"), loc);
-  awaited_from.reset(h.address());
 
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
@@ -370,6 +394,7 @@ std::coroutine_handle<void> channel<void>::read_op::await_suspend(std::coroutine
   // nothing to read currently, enqueue
   if (chn->write_queue_.empty())
   {
+    awaited_from.reset(h.address());
     chn->read_queue_.push_back(*this);
     return std::noop_coroutine();
   }
@@ -378,9 +403,16 @@ std::coroutine_handle<void> channel<void>::read_op::await_suspend(std::coroutine
     cancel_slot.clear();
     auto & op = chn->write_queue_.front();
     op.direct = true;
-    direct = true;
+    // transactional_unlink interrupts us if `op` is part of the same `race`, so we need to check.
     op.transactional_unlink();
-
+    if (!cancelled)
+    {
+      direct = true;
+      // a race we're part of must not pick another winner before we get resumed.
+      if (begin_transaction)
+        begin_transaction(h.address());
+    }
+    awaited_from.reset(h.address());
     BOOST_ASSERT(op.awaited_from);
     BOOST_ASSERT(awaited_from);
     asio::post(chn->executor_, std::move(awaited_from));
@@ -399,13 +431,13 @@ std::coroutine_handle<void> channel<void>::write_op::await_suspend(std::coroutin
     if ((cancel_slot = h.promise().get_cancellation_slot()).is_connected())
       cancel_slot.emplace<cancel_impl>(this);
 
-  awaited_from.reset(h.address());
   // currently nothing to read
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
   if (chn->read_queue_.empty())
   {
+    awaited_from.reset(h.address());
     chn->write_queue_.push_back(*this);
     return std::noop_coroutine();
   }
@@ -414,9 +446,16 @@ std::coroutine_handle<void> channel<void>::write_op::await_suspend(std::coroutin
     cancel_slot.clear();
     auto & op = chn->read_queue_.front();
     op.direct = true; // let interrupt_await know that we'll be resuming it!
-    direct = true;
+    // transactional_unlink interrupts us if `op` is part of the same `race`, so we need to check.
     op.transactional_unlink();
-
+    if (!cancelled)
+    {
+      direct = true;
+      // a race we're part of must not pick another winner before we get resumed.
+      if (begin_transaction)
+        begin_transaction(h.address());
+    }
+    awaited_from.reset(h.address());
     BOOST_ASSERT(op.awaited_from);
     BOOST_ASSERT(awaited_from);
 
diff --git a/src/channel.cpp b/src/channel.cpp
index eb7333d..f2b6769 100644
--- a/src/channel.cpp
+++ b/src/channel.cpp
@@ -62,6 +62,9 @@ system::result<void>  channel<void>::read_op::await_resume(const struct as_resul
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
 
+  if (std::exchange(reserved, false))
+    chn->reserved_reads_--;
+
   if (!direct)
     chn->n_--;
   if (!chn->write_queue_.empty())
@@ -70,7 +73,11 @@ system::result<void>  channel<void>::read_op::await_resume(const struct as_resul
     BOOST_ASSERT(chn->read_queue_.empty());
     if (op.await_ready())
     {
-      op.unlink();
+      // reserve the slot, so nobody can take it before op gets resumed
+      op.reserved = true;
+      chn->reserved_writes_++;
+      op.cancel_slot.clear();
+      op.transactional_unlink();
       BOOST_ASSERT(op.awaited_from);
       asio::post(chn->executor_, std::move(op.awaited_from));
     }
@@ -105,6 +112,10 @@ system::result<void> channel<void>::write_op::await_resume(const struct as_resul
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
+
+  if (std::exchange(reserved, false))
+    chn->reserved_writes_--;
+
   if (!direct)
     chn->n_++;
 
@@ -114,7 +125,13 @@ system::result<void> channel<void>::write_op::await_resume(const struct as_resul
     BOOST_ASSERT(chn->write_queue_.empty());
     if (op.await_ready())
     {
-      op.unlink();
+      // hand the message over, so nobody can take it before op gets resumed. it occupies its slot until then.
+      op.direct = true;
+      chn->n_--;
+      op.reserved = true;
+      chn->reserved_reads_++;
+      op.cancel_slot.clear();
+      op.transactional_unlink();
       BOOST_ASSERT(op.awaited_from);
       asio::post(chn->executor_, std::move(op.awaited_from));
     }
-- 
2.43.0


From 7945c39d6804f0bcb02ed4f36c2d420359822b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 04/53] fix: closing a channel reports broken_pipe to later
 writers & keeps buffered messages

A write_op created before, but awaited after close() completed successfully or hit an
assertion, and channel<void>'s reads dropped what was buffered, unlike channel<T>.
---
 include/boost/cobalt/impl/channel.hpp | 2 +-
 src/channel.cpp                       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index ae0241e..8651466 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -298,7 +298,7 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (closed)
+  if (closed || (chn->is_closed_ && !direct && !reserved))
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
diff --git a/src/channel.cpp b/src/channel.cpp
index f2b6769..92a6122 100644
--- a/src/channel.cpp
+++ b/src/channel.cpp
@@ -50,7 +50,7 @@ system::result<void>  channel<void>::read_op::await_resume(const struct as_resul
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (chn->is_closed_)
+  if (chn->is_closed_ && chn->n_ == 0u && !direct)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
@@ -101,7 +101,7 @@ system::result<void> channel<void>::write_op::await_resume(const struct as_resul
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (closed)
+  if (closed || (chn->is_closed_ && !direct && !reserved))
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
-- 
2.43.0


From 285c6c495c51bc6076947bec558fa134d2a986df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:16 +0000
Subject: [PATCH 05/53] fix: assigning over a finished promise or generator
 doesn't touch its destroyed coroutine

The receiver wrote through a pointer into the frame that's already gone. A promise that
was moved from by assignment did the same on destruction, once its coroutine completed.
---
 include/boost/cobalt/detail/generator.hpp | 2 +-
 include/boost/cobalt/detail/promise.hpp   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/generator.hpp b/include/boost/cobalt/detail/generator.hpp
index 7f3368e..df9a36d 100644
--- a/include/boost/cobalt/detail/generator.hpp
+++ b/include/boost/cobalt/detail/generator.hpp
@@ -129,7 +129,7 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
 
   generator_receiver& operator=(generator_receiver && lhs) noexcept
   {
-    if (reference && *reference == this)
+    if (!done && reference && *reference == this) // once done, reference points into the destroyed frame
     {
       *reference = nullptr;
     }
diff --git a/include/boost/cobalt/detail/promise.hpp b/include/boost/cobalt/detail/promise.hpp
index b8655a8..0a409f4 100644
--- a/include/boost/cobalt/detail/promise.hpp
+++ b/include/boost/cobalt/detail/promise.hpp
@@ -133,7 +133,7 @@ struct promise_receiver : promise_value_holder<T>
 
   promise_receiver& operator=(promise_receiver && lhs) noexcept
   {
-    if (reference && *reference == this)
+    if (!done && reference && *reference == this) // once done, reference points into the destroyed frame
     {
       *reference = nullptr;
     }
@@ -151,6 +151,7 @@ struct promise_receiver : promise_value_holder<T>
       lhs.exception = moved_from_exception();
     }
 
+    lhs.done = true;
     return *this;
   }
 
-- 
2.43.0


From 932018f5cb5d48691667e1640a12b2746d17ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:28 +0000
Subject: [PATCH 06/53] fix: as_tuple of a generator works with move-only
 values

---
 include/boost/cobalt/detail/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/generator.hpp b/include/boost/cobalt/detail/generator.hpp
index df9a36d..2d4a396 100644
--- a/include/boost/cobalt/detail/generator.hpp
+++ b/include/boost/cobalt/detail/generator.hpp
@@ -261,7 +261,7 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
       if (res.has_error())
           return {res.error(), Yield{}};
       else
-          return {nullptr, res.value()};
+          return {nullptr, std::move(*res)};
     }
 
     system::result<Yield, std::exception_ptr> await_resume(const as_result_tag& )
-- 
2.43.0


From 1311df31d3835a818617fac25b2129c4d4b862a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:28 +0000
Subject: [PATCH 07/53] fix: generator::get delivers an exception only once

---
 include/boost/cobalt/detail/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/generator.hpp b/include/boost/cobalt/detail/generator.hpp
index 2d4a396..17963c4 100644
--- a/include/boost/cobalt/detail/generator.hpp
+++ b/include/boost/cobalt/detail/generator.hpp
@@ -337,7 +337,7 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
   void rethrow_if()
   {
     if (exception)
-      std::rethrow_exception(exception);
+      std::rethrow_exception(std::exchange(exception, nullptr));
   }
 };
 
-- 
2.43.0


From 00c944565eefd3270f11948767ce479ef6831446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 08/53] fix: awaiting an eager generator after get() pushes the
 value its yield waits for

---
 include/boost/cobalt/detail/generator.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/generator.hpp b/include/boost/cobalt/detail/generator.hpp
index 17963c4..0c509c1 100644
--- a/include/boost/cobalt/detail/generator.hpp
+++ b/include/boost/cobalt/detail/generator.hpp
@@ -223,10 +223,12 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
       self->awaited_from.reset(h.address());
 
       std::coroutine_handle<void> res = std::noop_coroutine();
-      if (self->yield_from != nullptr)
+      const bool resumes = self->yield_from != nullptr;
+      if (resumes)
         res = self->yield_from.release();
 
-      if ((to_push.index() > 0) && !self->pushed_value && self->lazy)
+      // a coroutine resumed from its yield needs the value, e.g. when lazy or if the last value was taken with get()
+      if ((to_push.index() > 0) && !self->pushed_value && (self->lazy || resumes))
       {
         if constexpr (std::is_void_v<Push>)
           self->pushed_value = true;
@@ -299,7 +301,7 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
       }
 
       // now we also want to resume the coroutine, so it starts work
-      if (self->yield_from != nullptr && !self->lazy)
+      if (self->yield_from != nullptr && !self->lazy && self->pushed_value)
       {
         auto exec = self->yield_from->get_executor();
         auto alloc = asio::get_associated_allocator(self->yield_from);
-- 
2.43.0


From 04ef4ba0bd0eafe125ff6ddf9e90a60ea17b6516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 09/53] fix: spawn stores a copy of an lvalue completion
 handler instead of a reference to it

---
 include/boost/cobalt/detail/spawn.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/spawn.hpp b/include/boost/cobalt/detail/spawn.hpp
index ba2364b..123aea2 100644
--- a/include/boost/cobalt/detail/spawn.hpp
+++ b/include/boost/cobalt/detail/spawn.hpp
@@ -73,7 +73,7 @@ struct async_initiate_spawn
       executor_type exec_;
 
       decltype(recs) r;
-      Handler handler;
+      std::decay_t<Handler> handler;
       asio::cancellation_slot sl;
 
       void operator()()
@@ -91,7 +91,7 @@ struct async_initiate_spawn
 
     p->awaited_from.reset(detail::post_coroutine(
         completion_handler{
-            alloc, asio::get_associated_executor(h, exec), std::move(recs), std::move(h), sl
+            alloc, asio::get_associated_executor(h, exec), std::move(recs), std::forward<Handler>(h), sl
         }).address());
 
     asio::dispatch(exec, unique_handle<detail::task_promise<T>>::from_promise(*p->promise));
@@ -143,7 +143,7 @@ struct async_initiate_spawn
 
       executor_type exec_;
       decltype(recs) r;
-      Handler handler;
+      std::decay_t<Handler> handler;
       asio::cancellation_slot sl;
 
       void operator()()
-- 
2.43.0


From 28209096e072230198ff5e00bbe11cd794e25a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:45 +0000
Subject: [PATCH 10/53] fix: tasks are move assignable, as documented

---
 include/boost/cobalt/detail/task.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/boost/cobalt/detail/task.hpp b/include/boost/cobalt/detail/task.hpp
index 8dedd0b..8679062 100644
--- a/include/boost/cobalt/detail/task.hpp
+++ b/include/boost/cobalt/detail/task.hpp
@@ -20,6 +20,7 @@
 
 
 #include <coroutine>
+#include <memory>
 #include <optional>
 #include <utility>
 
@@ -138,6 +139,16 @@ struct task_receiver : task_value_holder<T>
     lhs.done = true;
   }
 
+  task_receiver & operator=(task_receiver && lhs) noexcept
+  {
+    if (this != &lhs)
+    {
+      std::destroy_at(this);
+      std::construct_at(this, std::move(lhs));
+    }
+    return *this;
+  }
+
   ~task_receiver()
   {
     if (!done && promise && promise->receiver == this)
-- 
2.43.0


From b4c89f9daec8cc4324f0e6dfe64c69d3ed3639b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:10 +0000
Subject: [PATCH 11/53] fix: awaiting a task again after an interrupted await
 doesn't resume it out of turn

---
 include/boost/cobalt/detail/task.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/cobalt/detail/task.hpp b/include/boost/cobalt/detail/task.hpp
index 8679062..5ebcd94 100644
--- a/include/boost/cobalt/detail/task.hpp
+++ b/include/boost/cobalt/detail/task.hpp
@@ -202,6 +202,9 @@ struct task_receiver : task_value_holder<T>
       self->promise->exec_ = self->promise->exec->get_executor();
       self->awaited_from.reset(h.address());
 
+      if (self->promise->started) // a previous await got interrupted, so it's already running
+        return std::noop_coroutine();
+
       return std::coroutine_handle<task_promise<T>>::from_promise(*self->promise);
     }
 
-- 
2.43.0


From 28f00261d1d148fa25d30c0f5cade266ef1b401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:10 +0000
Subject: [PATCH 12/53] fix: as_tuple of a failed race doesn't access the
 missing result

---
 include/boost/cobalt/detail/race.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index cce1e92..59c47cb 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -362,7 +362,11 @@ struct race_variadic_impl
       if constexpr (all_void)
         return std::make_tuple(error, index);
       else
+      {
+        if (error)
+          return std::make_tuple(error, std::decay_t<decltype(*result)>{});
         return std::make_tuple(error, std::move(*result));
+      }
     }
 
     auto await_resume(const as_result_tag & )
@@ -671,7 +675,7 @@ struct race_ranged_impl
       if constexpr (std::is_void_v<result_type>)
         return index;
       else
-        return std::make_pair(index, *result);
+        return std::make_pair(index, std::move(*result));
     }
 
     auto await_resume(const as_tuple_tag &)
@@ -679,7 +683,11 @@ struct race_ranged_impl
       if constexpr (std::is_void_v<result_type>)
         return std::make_tuple(error, index);
       else
+      {
+        if (error)
+          return std::make_tuple(error, std::make_pair(index, result_type{}));
         return std::make_tuple(error, std::make_pair(index, std::move(*result)));
+      }
     }
 
     auto await_resume(const as_result_tag & )
-- 
2.43.0


From 553105a9893a5cdb010c0400da3b9599f07c03dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:07 +0000
Subject: [PATCH 13/53] fix: interrupting a task that isn't awaited doesn't
 replace its result

---
 include/boost/cobalt/detail/task.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/detail/task.hpp b/include/boost/cobalt/detail/task.hpp
index 5ebcd94..1a61624 100644
--- a/include/boost/cobalt/detail/task.hpp
+++ b/include/boost/cobalt/detail/task.hpp
@@ -242,11 +242,10 @@ struct task_receiver : task_value_holder<T>
 
     void interrupt_await() &
     {
-      if (!self)
-        return ;
+      if (!self || !self->awaited_from)
+        return ; // not awaited (anymore), so nobody would pick up the exception
       self->exception = detached_exception();
-      if (self->awaited_from)
-        self->awaited_from.release().resume();
+      self->awaited_from.release().resume();
     }
   };
 
-- 
2.43.0


From 2f8fa20e3d840760ade44399275d416e66e1051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 14/53] fix: destroying the last fork of a race/gather/join
 doesn't read its freed frame

---
 include/boost/cobalt/detail/fork.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/fork.hpp b/include/boost/cobalt/detail/fork.hpp
index 58fef62..fe96ede 100644
--- a/include/boost/cobalt/detail/fork.hpp
+++ b/include/boost/cobalt/detail/fork.hpp
@@ -18,6 +18,7 @@
 #include <boost/intrusive_ptr.hpp>
 
 #include <coroutine>
+#include <cstddef>
 #include <optional>
 
 namespace boost::cobalt::detail
@@ -103,13 +104,34 @@ struct fork
   };
   struct promise_type
   {
+    // The state owns the memory of this frame & gets destroyed with the awaiting coroutine,
+    // so if a fork gets destroyed its reference must be released after everything else, i.e. in delete.
+    constexpr static std::size_t header_size = alignof(std::max_align_t);
+    static_assert(sizeof(shared_state*) <= header_size);
+    static shared_state *& to_release(void * frame)
+    {
+      return *reinterpret_cast<shared_state**>(static_cast<char*>(frame) - header_size);
+    }
+
     template<typename State, typename ... Rest>
     void * operator new(const std::size_t size, State & st, Rest &&...)
     {
-      return st.resource.allocate(size);
+      auto p = static_cast<char*>(st.resource.allocate(size + header_size)) + header_size;
+      to_release(p) = nullptr;
+      return p;
+    }
+
+    void operator delete(void * p) noexcept
+    {
+      if (auto st = to_release(p))
+        intrusive_ptr_release(st);
     }
 
-    void operator delete(void *) noexcept {}
+    ~promise_type()
+    {
+      if (state)
+        to_release(std::coroutine_handle<promise_type>::from_promise(*this).address()) = state.detach();
+    }
 
     template<typename ... Rest>
     promise_type(shared_state & st, Rest & ...)
-- 
2.43.0


From fe2b925e0c94d24c30da1c38383be542a51c1fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 15/53] fix: cancelling a race, gather or join whose branches
 complete right away doesn't use its destroyed state

---
 include/boost/cobalt/detail/fork.hpp   | 25 +++++++++++++++++++++++++
 include/boost/cobalt/detail/gather.hpp |  4 ++++
 include/boost/cobalt/detail/join.hpp   |  4 ++++
 include/boost/cobalt/detail/race.hpp   |  4 ++++
 4 files changed, 37 insertions(+)

diff --git a/include/boost/cobalt/detail/fork.hpp b/include/boost/cobalt/detail/fork.hpp
index fe96ede..d5bc0e0 100644
--- a/include/boost/cobalt/detail/fork.hpp
+++ b/include/boost/cobalt/detail/fork.hpp
@@ -58,6 +58,27 @@ struct fork
 
     bool outstanding_work() {return use_count != 0u;}
 
+    // a fork got destroyed without completing.
+    bool dropped = false;
+
+    // Keeps the awaiting coroutine - and thus this state - from being resumed or destroyed by a fork.
+    // The last one leaving does that when the scope gets left.
+    struct resume_later
+    {
+      shared_state & state;
+      explicit resume_later(shared_state & st) : state(st) { state.use_count++; }
+      resume_later(const resume_later &) = delete;
+      ~resume_later()
+      {
+        if (state.use_count-- != 1u)
+          return;
+        if (state.dropped)
+          state.coro.reset();
+        else if (state.coro)
+          state.coro.release().resume();
+      }
+    };
+
     std::optional<executor> exec{};
     bool wired_up() {return exec.has_value();}
 
@@ -129,6 +150,8 @@ struct fork
 
     ~promise_type()
     {
+      if (state && !completed)
+        state->dropped = true;
       if (state)
         to_release(std::coroutine_handle<promise_type>::from_promise(*this).address()) = state.detach();
     }
@@ -141,6 +164,7 @@ struct fork
 
     intrusive_ptr<shared_state> state;
     asio::cancellation_slot cancel;
+    bool completed = false;
 
     using executor_type = executor;
     const executor_type & get_executor() const { return state->get_executor(); }
@@ -190,6 +214,7 @@ struct fork
     {
       if (cancel.is_connected())
         cancel.clear();
+      completed = true;
       return final_awaitable{this};
     }
     void return_void()
diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index 92f665f..c5f754f 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -177,6 +177,8 @@ struct gather_variadic_impl
           h,
           [&](asio::cancellation_type ct)
           {
+            // a branch completing right away must not resume us while iterating
+            fork::shared_state::resume_later rl{*this};
             for (auto & cs : cancel)
               cs.emit(ct);
           });
@@ -376,6 +378,8 @@ struct gather_ranged_impl
           h,
           [&](asio::cancellation_type ct)
           {
+            // a branch completing right away must not resume us while iterating
+            fork::shared_state::resume_later rl{*this};
             for (auto & cs : cancel)
               cs.emit(ct);
           });
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index f412551..36ffe11 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -209,6 +209,8 @@ struct join_variadic_impl
           h,
           [&](asio::cancellation_type ct)
           {
+            // a branch completing right away must not resume us while iterating
+            fork::shared_state::resume_later rl{*this};
             for (auto cs : cancel)
               if (cs)
                 cs->emit(ct);
@@ -468,6 +470,8 @@ struct join_ranged_impl
           h,
           [&](asio::cancellation_type ct)
           {
+            // a branch completing right away must not resume us while iterating
+            fork::shared_state::resume_later rl{*this};
             for (auto cs : cancel)
               if (cs)
                 cs->emit(ct);
diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 59c47cb..0349f61 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -337,6 +337,8 @@ struct race_variadic_impl
           h,
           [&](asio::cancellation_type ct)
           {
+            // a branch completing right away must not resume us while iterating
+            fork::shared_state::resume_later rl{*this};
             for (auto & cs : cancel)
               if (cs)
                 cs->emit(ct);
@@ -658,6 +660,8 @@ struct race_ranged_impl
           h,
           [&](asio::cancellation_type ct)
           {
+            // a branch completing right away must not resume us while iterating
+            fork::shared_state::resume_later rl{*this};
             for (auto & cs : cancel)
               if (cs)
                 cs->emit(ct);
-- 
2.43.0


From c29b2970e7410b3f468df25fbf36284be5b40335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 16/53] fix: gather forwards interruptions to branches passed
 as lvalues, as documented

---
 include/boost/cobalt/detail/gather.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index c5f754f..fc13dab 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -75,7 +75,7 @@ struct gather_variadic_impl
     {
       using type= std::tuple_element_t<Idx, std::tuple<Args...>>;
       using t = std::conditional_t<
-          std::is_reference_v<std::tuple_element_t<Idx, decltype(aws)>>,
+          std::is_reference_v<type>,
           co_awaitable_type<type> &,
           co_awaitable_type<type> &&>;
 
-- 
2.43.0


From 59f991e3dd8167868b32d74653517431b56bd82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 17/53] fix: gather and join of a range try each of its
 operations only once

---
 include/boost/cobalt/detail/gather.hpp | 10 ----------
 include/boost/cobalt/detail/join.hpp   |  9 ---------
 2 files changed, 19 deletions(-)

diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index fc13dab..d9ab6e8 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -243,7 +243,6 @@ struct gather_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
                        pmr::vector<co_awaitable_type<type>>> aws;
 
-    pmr::vector<bool> ready{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal> cancel{std::size(aws), alloc};
     pmr::vector<result_storage_type> result{cancel.size(), alloc};
 
@@ -252,7 +251,6 @@ struct gather_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
         std::vector<co_awaitable_type<type>>> aws;
 
-    std::vector<bool> ready{std::size(aws), alloc};
     std::vector<asio::cancellation_signal> cancel{std::size(aws), alloc};
     std::vector<result_storage_type> result{cancel.size(), alloc};
 #endif
@@ -262,7 +260,6 @@ struct gather_ranged_impl
     awaitable(Range & aws_, std::false_type /* needs operator co_await */)
       : fork::shared_state((512 + sizeof(co_awaitable_type<type>)) * std::size(aws_))
       , aws{alloc}
-      , ready{std::size(aws_), alloc}
       , cancel{std::size(aws_), alloc}
     {
       aws.reserve(std::size(aws_));
@@ -273,18 +270,11 @@ struct gather_ranged_impl
             std::is_lvalue_reference_v<Range>, a_0 &, a_0 &&>;
         aws.emplace_back(awaitable_type_getter<a_t>(static_cast<a_t>(a)));
       }
-
-
-      std::transform(std::begin(this->aws),
-                     std::end(this->aws),
-                     std::begin(ready),
-                     [](auto & aw) {return aw.await_ready();});
     }
     awaitable(Range & aws, std::true_type /* needs operator co_await */)
         : fork::shared_state((512 + sizeof(co_awaitable_type<type>)) * std::size(aws))
         , aws(aws)
     {
-      std::transform(std::begin(aws), std::end(aws), std::begin(ready), [](auto & aw) {return aw.await_ready();});
     }
 
     awaitable(Range & aws)
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 36ffe11..92b5105 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -306,7 +306,6 @@ struct join_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
                        pmr::vector<co_awaitable_type<type>>> aws;
 
-    pmr::vector<bool> ready{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal> cancel_{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal*> cancel{std::size(aws), alloc};
 
@@ -323,7 +322,6 @@ struct join_ranged_impl
     std::allocator<void> alloc;
     std::conditional_t<awaitable_type<type>, Range &,  std::vector<co_awaitable_type<type>>> aws;
 
-    std::vector<bool> ready{std::size(aws), alloc};
     std::vector<asio::cancellation_signal> cancel_{std::size(aws), alloc};
     std::vector<asio::cancellation_signal*> cancel{std::size(aws), alloc};
 
@@ -340,7 +338,6 @@ struct join_ranged_impl
     awaitable(Range & aws_, std::false_type /* needs  operator co_await */)
       :  fork::shared_state((512 + sizeof(co_awaitable_type<type>) + result_size) * std::size(aws_))
       , aws{alloc}
-      , ready{std::size(aws_), alloc}
       , cancel_{std::size(aws_), alloc}
       , cancel{std::size(aws_), alloc}
     {
@@ -352,17 +349,11 @@ struct join_ranged_impl
             std::is_lvalue_reference_v<Range>, a_0 &, a_0 &&>;
         aws.emplace_back(awaitable_type_getter<a_t>(static_cast<a_t>(a)));
       }
-
-      std::transform(std::begin(this->aws),
-                     std::end(this->aws),
-                     std::begin(ready),
-                     [](auto & aw) {return aw.await_ready();});
     }
     awaitable(Range & aws, std::true_type /* needs operator co_await */)
         : fork::shared_state((512 + sizeof(co_awaitable_type<type>) + result_size) * std::size(aws))
         , aws(aws)
     {
-      std::transform(std::begin(aws), std::end(aws), std::begin(ready), [](auto & aw) {return aw.await_ready();});
     }
 
     awaitable(Range & aws)
-- 
2.43.0


From 4137aa086b8f2a3e571b9946dcf3f0c9fa6e5ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 18/53] fix: interrupting a race, gather or join that completes
 meanwhile doesn't use its destroyed state

---
 include/boost/cobalt/detail/gather.hpp | 2 ++
 include/boost/cobalt/detail/join.hpp   | 2 ++
 include/boost/cobalt/detail/race.hpp   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index d9ab6e8..679aece 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -84,6 +84,7 @@ struct gather_variadic_impl
     }
     void interrupt_await()
     {
+      fork::shared_state::resume_later rl{*this};
       mp11::mp_for_each<mp11::mp_iota_c<sizeof...(Args)>>
           ([&](auto idx)
            {
@@ -284,6 +285,7 @@ struct gather_ranged_impl
 
     void interrupt_await()
     {
+      fork::shared_state::resume_later rl{*this};
       using t = std::conditional_t<std::is_reference_v<Range>,
                                    co_awaitable_type<type> &,
                                    co_awaitable_type<type> &&>;
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 92b5105..59599d7 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -107,6 +107,7 @@ struct join_variadic_impl
 
     void interrupt_await()
     {
+      fork::shared_state::resume_later rl{*this};
       mp11::mp_for_each<mp11::mp_iota_c<sizeof...(Args)>>
           ([&](auto idx)
            {
@@ -372,6 +373,7 @@ struct join_ranged_impl
 
     void interrupt_await()
     {
+      fork::shared_state::resume_later rl{*this};
       using t = std::conditional_t<std::is_reference_v<Range>,
           co_awaitable_type<type> &,
           co_awaitable_type<type> &&>;
diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 0349f61..95deb5f 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -142,6 +142,7 @@ struct race_variadic_impl
 
     void interrupt_await()
     {
+      fork::shared_state::resume_later rl{*this};
       for (auto i : working)
         if (i)
           i->interrupt_await();
@@ -492,6 +493,7 @@ struct race_ranged_impl
     }
     void interrupt_await()
     {
+      fork::shared_state::resume_later rl{*this};
       if constexpr (traits::interruptible)
         for (auto aw : working)
           if (aw)
-- 
2.43.0


From b50771adc20b5cc1a3939505083788eb5c214c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 19/53] fix: as_tuple and as_result of joins work with void,
 move-only and tuple results

---
 include/boost/cobalt/detail/join.hpp   | 41 ++++++++++++++------------
 include/boost/cobalt/unique_handle.hpp |  2 ++
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 59599d7..f0a4218 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -265,13 +265,7 @@ struct join_variadic_impl
         return rt(system::in_place_error, error);
 
       if constexpr(!all_void)
-        return mp11::tuple_transform(
-            []<typename T>(std::optional<T> & var)
-                -> rt
-            {
-              BOOST_ASSERT(var.has_value());
-              return std::move(*var);
-            }, result);
+        return rt(system::in_place_value, await_resume());
       else
         return rt{system::in_place_value};
     }
@@ -477,16 +471,20 @@ struct join_ranged_impl
 
     auto await_resume(const as_tuple_tag & )
     {
+      if constexpr (std::is_void_v<result_type>)
+      {
+        return std::make_tuple(error);
+      }
+      else
+      {
 #if defined(BOOST_COBALT_NO_PMR)
-      std::vector<result_type> rr;
+        std::vector<result_type> rr;
 #else
-      pmr::vector<result_type> rr{this_thread::get_allocator()};
+        pmr::vector<result_type> rr{this_thread::get_allocator()};
 #endif
 
-      if (error)
-        return std::make_tuple(error, rr);
-      if constexpr (!std::is_void_v<result_type>)
-      {
+        if (error)
+          return std::make_tuple(error, std::move(rr));
         rr.reserve(result.size());
         for (auto & t : result)
           rr.push_back(*std::move(t));
@@ -496,16 +494,21 @@ struct join_ranged_impl
 
     auto await_resume(const as_result_tag & )
     {
+      if constexpr (std::is_void_v<result_type>)
+      {
+        using rt = system::result<void, std::exception_ptr>;
+        return error ? rt(system::in_place_error, error) : rt(system::in_place_value);
+      }
+      else
+      {
 #if defined(BOOST_COBALT_NO_PMR)
-      std::vector<result_type> rr;
+        std::vector<result_type> rr;
 #else
-      pmr::vector<result_type> rr{this_thread::get_allocator()};
+        pmr::vector<result_type> rr{this_thread::get_allocator()};
 #endif
 
-      if (error)
-        return system::result<decltype(rr), std::exception_ptr>(error);
-      if constexpr (!std::is_void_v<result_type>)
-      {
+        if (error)
+          return system::result<decltype(rr), std::exception_ptr>(error);
         rr.reserve(result.size());
         for (auto & t : result)
           rr.push_back(*std::move(t));
diff --git a/include/boost/cobalt/unique_handle.hpp b/include/boost/cobalt/unique_handle.hpp
index 9770690..fb66de9 100644
--- a/include/boost/cobalt/unique_handle.hpp
+++ b/include/boost/cobalt/unique_handle.hpp
@@ -29,6 +29,8 @@ struct unique_handle
 
   std::coroutine_handle<T> release()
   {
+    if (!handle_)
+      return nullptr;
     return std::coroutine_handle<T>::from_promise(*handle_.release());
   }
 
-- 
2.43.0


From 9a4f99b12a543ac19533fa851d0d660115bf105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 20/53] fix: interrupting a join doesn't cancel its branches
 passed as lvalues, & reaches each branch of a range

---
 include/boost/cobalt/detail/join.hpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index f0a4218..001b9af 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -72,10 +72,24 @@ struct join_variadic_impl
                        variant2::monostate,
                        std::tuple<result_store_part<Args>...>> result;
     std::exception_ptr error;
+    // while interrupting, the branches that can be must not be cancelled
+    bool interrupting = false;
+
+    template<std::size_t Idx>
+    constexpr static bool is_interruptible()
+    {
+      using type = std::tuple_element_t<Idx, tuple_type>;
+      using t = std::conditional_t<std::is_reference_v<std::tuple_element_t<Idx, std::tuple<Args...>>>,
+          type &,
+          type &&>;
+      return interruptible<t>;
+    }
 
     template<std::size_t Idx>
     void cancel_step()
     {
+      if (interrupting && is_interruptible<Idx>())
+        return;
       auto &r = cancel[Idx];
       if (r)
         std::exchange(r, nullptr)->emit(asio::cancellation_type::all);
@@ -108,11 +122,13 @@ struct join_variadic_impl
     void interrupt_await()
     {
       fork::shared_state::resume_later rl{*this};
+      interrupting = true;
       mp11::mp_for_each<mp11::mp_iota_c<sizeof...(Args)>>
           ([&](auto idx)
            {
              interrupt_await_step<idx>();
            });
+      interrupting = false;
     }
 
     // GCC doesn't like member funs
@@ -329,6 +345,8 @@ struct join_ranged_impl
           alloc};
 #endif
     std::exception_ptr error{};
+    // while interrupting, the branches must not be cancelled
+    bool interrupting = false;
 
     awaitable(Range & aws_, std::false_type /* needs  operator co_await */)
       :  fork::shared_state((512 + sizeof(co_awaitable_type<type>) + result_size) * std::size(aws_))
@@ -360,6 +378,8 @@ struct join_ranged_impl
 
     void cancel_all()
     {
+      if (interrupting)
+        return;
       for (auto & r : cancel)
         if (r)
           std::exchange(r, nullptr)->emit(asio::cancellation_type::all);
@@ -374,10 +394,12 @@ struct join_ranged_impl
 
       if constexpr (interruptible<t>)
       {
+        interrupting = true;
         std::size_t idx = 0u;
         for (auto & aw : aws)
-          if (cancel[idx])
+          if (cancel[idx++])
             static_cast<t>(aw).interrupt_await();
+        interrupting = false;
       }
     }
 
-- 
2.43.0


From 6e3757cd10bac5929e48700c2a3972e5ff46a1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 21/53] fix: wait_group removes failed promises in wait_one,
 keeps those added while waiting & can be cancelled while awaited

---
 include/boost/cobalt/detail/wait_group.hpp | 102 ++++++++++++++++++---
 include/boost/cobalt/wait_group.hpp        |  15 ++-
 2 files changed, 94 insertions(+), 23 deletions(-)

diff --git a/include/boost/cobalt/detail/wait_group.hpp b/include/boost/cobalt/detail/wait_group.hpp
index 56ca462..6f4034e 100644
--- a/include/boost/cobalt/detail/wait_group.hpp
+++ b/include/boost/cobalt/detail/wait_group.hpp
@@ -13,17 +13,72 @@
 #include <boost/cobalt/gather.hpp>
 
 #include <list>
+#include <optional>
 
 
 namespace boost::cobalt::detail
 {
 
+// A group & the operation waiting for it, which can remove promises from the group or destroy it when resumed.
+struct wait_group_waiter;
+struct wait_group_link
+{
+  wait_group_waiter * waiter = nullptr;
+  wait_group_link() = default;
+  // can't be moved or assigned to while being waited for
+  wait_group_link(wait_group_link && ) noexcept {}
+  wait_group_link & operator=(wait_group_link &&) noexcept {return *this;}
+  inline ~wait_group_link();
+};
+
+struct wait_group_waiter
+{
+  wait_group_link * link = nullptr;
+  fork::shared_state * state = nullptr;
+
+  wait_group_waiter() = default;
+  wait_group_waiter(wait_group_waiter && ) = delete;
+  void wait(wait_group_link & l, fork::shared_state & st)
+  {
+    if (l.waiter == nullptr)
+    {
+      link = &l;
+      state = &st;
+      l.waiter = this;
+    }
+  }
+  void reset()
+  {
+    if (link)
+      std::exchange(link, nullptr)->waiter = nullptr;
+  }
+  ~wait_group_waiter() {reset();}
+};
+
+wait_group_link::~wait_group_link()
+{
+  if (waiter)
+    waiter->link = nullptr;
+}
+
+inline void cancel_wait_group(std::list<promise<void>> & waitables, wait_group_link & link,
+                              asio::cancellation_type ct)
+{
+  // a promise completing right away must not resume whoever waits while iterating
+  std::optional<fork::shared_state::resume_later> rl;
+  if (link.waiter)
+    rl.emplace(*link.waiter->state);
+  for (auto & w : waitables)
+    w.cancel(ct);
+}
+
 struct race_wrapper
 {
   using impl_type = decltype(race(std::declval<std::list<promise<void>> &>()));
   std::list<promise<void>> &waitables_;
+  wait_group_link &link_;
 
-  race_wrapper(std::list<promise<void>> &waitables) : waitables_(waitables)
+  race_wrapper(std::list<promise<void>> &waitables, wait_group_link & link) : waitables_(waitables), link_(link)
   {
   }
 
@@ -41,19 +96,27 @@ struct race_wrapper
     template<typename Promise>
     auto await_suspend(std::coroutine_handle<Promise> h)
     {
-      return impl_->await_suspend(h);
+      const auto suspended = impl_->await_suspend(h);
+      if (suspended)
+        waiter_.wait(link_, *impl_);
+      return suspended;
     }
 
     void await_resume()
     {
-      if (waitables_.empty())
+      waiter_.reset();
+      if (!impl_ || waitables_.empty())
         return;
-      auto idx = impl_->await_resume();
-      if (idx != std::numeric_limits<std::size_t>::max())
-        waitables_.erase(std::next(waitables_.begin(), idx));
+      const auto [ep, idx] = impl_->await_resume(as_tuple_tag{});
+      // remove it also if it failed, unless it never got awaited
+      if (idx < waitables_.size())
+        if (auto itr = std::next(waitables_.begin(), idx); itr->ready())
+          waitables_.erase(itr);
+      if (ep)
+        std::rethrow_exception(ep);
     }
 
-    awaitable_type(std::list<promise<void>> &waitables) : waitables_(waitables)
+    awaitable_type(std::list<promise<void>> &waitables, wait_group_link & link) : waitables_(waitables), link_(link)
     {
         if (!waitables_.empty())
           impl_.emplace(waitables_, random_);
@@ -62,12 +125,14 @@ struct race_wrapper
    private:
     std::optional<impl_type::awaitable> impl_;
     std::list<promise<void>> &waitables_;
+    wait_group_link &link_;
+    wait_group_waiter waiter_;
     std::default_random_engine &random_{detail::prng()};
 
   };
   awaitable_type operator co_await() &&
   {
-    return awaitable_type(waitables_);
+    return awaitable_type(waitables_, link_);
   }
 };
 
@@ -75,8 +140,9 @@ struct gather_wrapper
 {
   using impl_type = decltype(gather(std::declval<std::list<promise<void>> &>()));
   std::list<promise<void>> &waitables_;
+  wait_group_link &link_;
 
-  gather_wrapper(std::list<promise<void>> &waitables) : waitables_(waitables)
+  gather_wrapper(std::list<promise<void>> &waitables, wait_group_link & link) : waitables_(waitables), link_(link)
   {
   }
 
@@ -93,31 +159,37 @@ struct gather_wrapper
     template<typename Promise>
     auto await_suspend(std::coroutine_handle<Promise> h)
     {
-      return impl_->await_suspend(h);
+      const auto suspended = impl_->await_suspend(h);
+      if (suspended)
+        waiter_.wait(link_, *impl_);
+      return suspended;
     }
 
     void await_resume()
     {
-      if (waitables_.empty())
+      waiter_.reset();
+      if (!impl_ || waitables_.empty())
         return;
-      BOOST_ASSERT(impl_);
       impl_->await_resume();
-      waitables_.clear();
+      // some might've been added while waiting
+      erase_if(waitables_, [](promise<void> & p) { return p.ready() && !p;});
     }
 
-    awaitable_type(std::list<promise<void>> &waitables) : waitables_(waitables)
+    awaitable_type(std::list<promise<void>> &waitables, wait_group_link & link) : waitables_(waitables), link_(link)
     {
       if (!waitables_.empty())
         impl_.emplace(waitables_);
     }
    private:
     std::list<promise<void>> &waitables_;
+    wait_group_link &link_;
+    wait_group_waiter waiter_;
     std::optional<decltype(gather(waitables_).operator co_await())> impl_;
   };
 
   awaitable_type operator co_await()
   {
-    return awaitable_type(waitables_);
+    return awaitable_type(waitables_, link_);
   }
 
 };
diff --git a/include/boost/cobalt/wait_group.hpp b/include/boost/cobalt/wait_group.hpp
index af95e3d..324d001 100644
--- a/include/boost/cobalt/wait_group.hpp
+++ b/include/boost/cobalt/wait_group.hpp
@@ -44,31 +44,31 @@ struct wait_group
 
     auto wait_one() -> detail::race_wrapper
     {
-        return  detail::race_wrapper(waitables_);
+        return  detail::race_wrapper(waitables_, link_);
     }
 
     detail::gather_wrapper wait()
     {
-        return detail::gather_wrapper(waitables_);
+        return detail::gather_wrapper(waitables_, link_);
 
     }
     detail::gather_wrapper::awaitable_type operator co_await ()
     {
-      return detail::gather_wrapper(waitables_).operator co_await();
+      return detail::gather_wrapper(waitables_, link_).operator co_await();
     }
     // swallow the exception here.
     detail::gather_wrapper await_exit(std::exception_ptr ep)
     {
         auto ct = ep ? ct_except_ : ct_normal_;
         if (ct != asio::cancellation_type::none)
-            for (auto & w : waitables_)
-                w.cancel(ct);
-        return detail::gather_wrapper(waitables_);
+            cancel(ct);
+        return detail::gather_wrapper(waitables_, link_);
     }
 
 
   private:
     std::list<promise<void>> waitables_;
+    detail::wait_group_link link_;
     asio::cancellation_type ct_normal_, ct_except_;
   // tag::outline[]
 };
@@ -91,8 +91,7 @@ std::size_t wait_group::reap()
 inline
 void wait_group::cancel(asio::cancellation_type ct)
 {
-  for (auto & w : waitables_)
-    w.cancel(ct);
+  detail::cancel_wait_group(waitables_, link_, ct);
 }
 
 inline
-- 
2.43.0


From 3d1069cb8255d8090616fb2402b9fdfdcdae038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:55 +0000
Subject: [PATCH 22/53] fix: with passes the argument to the teardown of a
 function as it does for an awaitable, so it can be used with await_exit

---
 include/boost/cobalt/with.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/cobalt/with.hpp b/include/boost/cobalt/with.hpp
index bdfb21f..e3848c1 100644
--- a/include/boost/cobalt/with.hpp
+++ b/include/boost/cobalt/with.hpp
@@ -43,7 +43,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<void>
     std::exception_ptr e;
 #if defined(BOOST_NO_EXCEPTIONS)
     co_await std::move(func)(arg);
-    co_await std::move(teardown)(arg, e);
+    co_await std::move(teardown)(std::move(arg), e);
 #else
     try
     {
@@ -84,7 +84,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<void>
     std::exception_ptr e;
 #if defined(BOOST_NO_EXCEPTIONS)
     std::move(func)(arg);
-    co_await std::move(teardown)(arg, e);
+    co_await std::move(teardown)(std::move(arg), e);
 #else
     try
     {
@@ -97,7 +97,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<void>
 
     try
     {
-        co_await std::move(teardown)(arg, e);
+        co_await std::move(teardown)(std::move(arg), e);
     }
     catch (...)
     {
@@ -169,7 +169,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<decltype(s
 
 #if defined(BOOST_NO_EXCEPTIONS)
     res = std::move(func)(arg);
-    co_await std::move(teardown)(arg, e);
+    co_await std::move(teardown)(std::move(arg), e);
 #else
     try
     {
@@ -182,7 +182,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<decltype(s
 
     try
     {
-        co_await std::move(teardown)(arg, e);
+        co_await std::move(teardown)(std::move(arg), e);
     }
     catch (...)
     {
-- 
2.43.0


From b0f9c61c58a386924b0d0f4d24c322bd9c34331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 23/53] fix: with destroys its coroutine if it's not awaited,
 and its awaiter if it's abandoned

---
 include/boost/cobalt/detail/with.hpp | 40 ++++++++++++++++++----------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/include/boost/cobalt/detail/with.hpp b/include/boost/cobalt/detail/with.hpp
index 433f34f..65b5191 100644
--- a/include/boost/cobalt/detail/with.hpp
+++ b/include/boost/cobalt/detail/with.hpp
@@ -7,9 +7,12 @@
 
 #include <boost/cobalt/concepts.hpp>
 #include <boost/cobalt/this_coro.hpp>
+#include <boost/cobalt/unique_handle.hpp>
 
 #include <boost/asio/cancellation_signal.hpp>
 
+#include <utility>
+
 namespace boost::cobalt::detail
 {
 
@@ -25,9 +28,17 @@ struct [[nodiscard]] with_impl
     auto await_suspend(std::coroutine_handle<Promise> h) -> std::coroutine_handle<promise_type>;
     inline T await_resume();
 
+    with_impl(with_impl && lhs) noexcept
+        : promise(lhs.promise), started(std::exchange(lhs.started, true)) {}
+    ~with_impl()
+    {
+      if (!started) // once it is, whoever resumes it owns it
+        std::coroutine_handle<promise_type>::from_promise(*promise).destroy();
+    }
   private:
-    with_impl(promise_type & promise) : promise(promise) {}
-    promise_type & promise;
+    with_impl(promise_type & promise) : promise(&promise) {}
+    promise_type * promise;
+    bool started = false;
 };
 
 template<typename T>
@@ -93,7 +104,7 @@ struct with_impl<T>::promise_type
     BOOST_COBALT_MSVC_NOINLINE
     auto await_suspend(std::coroutine_handle<promise_type> h) noexcept -> std::coroutine_handle<void>
     {
-      return std::coroutine_handle<void>::from_address(h.promise().awaited_from.address());
+      return std::coroutine_handle<void>::from_address(h.promise().awaited_from.release().address());
     }
 
     void await_resume() noexcept
@@ -109,16 +120,16 @@ struct with_impl<T>::promise_type
   cancellation_slot_type get_cancellation_slot() const {return slot_;}
   asio::cancellation_slot slot_;
 
-  std::coroutine_handle<void> awaited_from{nullptr};
+  unique_handle<void> awaited_from{nullptr};
 
 };
 
 template<typename T>
 T with_impl<T>::await_resume()
 {
-    auto e = promise.e;
-    auto res = promise.get_result();
-    std::coroutine_handle<promise_type>::from_promise(promise).destroy();
+    auto e = promise->e;
+    auto res = promise->get_result();
+    std::coroutine_handle<promise_type>::from_promise(*promise).destroy();
     if (e)
         std::rethrow_exception(e);
 
@@ -128,8 +139,8 @@ T with_impl<T>::await_resume()
 template<>
 inline void with_impl<void>::await_resume()
 {
-  auto e = promise.e;
-  std::coroutine_handle<promise_type>::from_promise(promise).destroy();
+  auto e = promise->e;
+  std::coroutine_handle<promise_type>::from_promise(*promise).destroy();
   if (e)
     std::rethrow_exception(e);
 }
@@ -139,15 +150,16 @@ template<typename Promise>
 auto with_impl<T>::await_suspend(std::coroutine_handle<Promise> h) -> std::coroutine_handle<promise_type>
 {
     if constexpr (requires {h.promise().get_executor();})
-        promise.exec.emplace(h.promise().get_executor());
+        promise->exec.emplace(h.promise().get_executor());
     else
-        promise.exec.emplace(this_thread::get_executor());
+        promise->exec.emplace(this_thread::get_executor());
 
     if constexpr (requires {h.promise().get_cancellation_slot();})
-        promise.slot_ = h.promise().get_cancellation_slot();
+        promise->slot_ = h.promise().get_cancellation_slot();
 
-    promise.awaited_from = h;
-    return std::coroutine_handle<promise_type>::from_promise(promise);
+    started = true;
+    promise->awaited_from.reset(h.address());
+    return std::coroutine_handle<promise_type>::from_promise(*promise);
 }
 
 }
-- 
2.43.0


From a06ec5546248f500e289aab9eb3c104cc8ee807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 24/53] fix: a handler dropped while its operation is initiated
 doesn't destroy the coroutine under await_suspend; handlers for ready take
 move-only arguments

---
 include/boost/cobalt/detail/handler.hpp | 16 +++++++++++-----
 include/boost/cobalt/op.hpp             |  6 ++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/boost/cobalt/detail/handler.hpp b/include/boost/cobalt/detail/handler.hpp
index 8376c6b..af8c9bc 100644
--- a/include/boost/cobalt/detail/handler.hpp
+++ b/include/boost/cobalt/detail/handler.hpp
@@ -27,7 +27,7 @@ template<typename ... Args>
 struct composition_promise;
 enum class completed_immediately_t
 {
-  no, maybe, yes, initiating
+  no, maybe, yes, initiating, dropped
 };
 
 struct completion_handler_noop_executor
@@ -48,7 +48,8 @@ struct completion_handler_noop_executor
       *completed_immediately = completed_immediately_t::maybe;
       fn();
       // yes means completion_handler::operator() was called, so we're good.
-      if (*completed_immediately != completed_immediately_t::yes)
+      // dropped means it got destroyed, so await_suspend will need to destroy the awaiter.
+      if (*completed_immediately == completed_immediately_t::maybe)
         *completed_immediately = completed_immediately_t::initiating;
     }
     else
@@ -190,7 +191,7 @@ struct handler
 {
   void operator()(Args ... args)
   {
-    result.emplace(static_cast<Args>(args)...);
+    result.emplace(std::forward<Args>(args)...);
   }
   handler(std::optional<std::tuple<Args...>> &result) : result(result) {}
  private:
@@ -270,10 +271,15 @@ struct completion_handler : detail::completion_handler_base
 
     ~completion_handler()
     {
+      // While the operation is still being initiated, the awaiter is in the process of being suspended,
+      // so it's up to await_suspend to destroy it or to resume it with the exception thrown by the initiation.
       if (self && completed_immediately
-        && *completed_immediately == detail::completed_immediately_t::initiating
-        && std::uncaught_exceptions() > 0)
+        && (*completed_immediately == detail::completed_immediately_t::initiating
+         || *completed_immediately == detail::completed_immediately_t::maybe))
+      {
         self.release();
+        *completed_immediately = detail::completed_immediately_t::dropped;
+      }
     }
  private:
     unique_handle<void> self;
diff --git a/include/boost/cobalt/op.hpp b/include/boost/cobalt/op.hpp
index b59f668..0d799c7 100644
--- a/include/boost/cobalt/op.hpp
+++ b/include/boost/cobalt/op.hpp
@@ -72,6 +72,12 @@ struct BOOST_SYMBOL_VISIBLE op
 #else
         op_.initiate(completion_handler<Args...>{h, result, resource, &completed_immediately});
 #endif
+        if (completed_immediately == detail::completed_immediately_t::dropped)
+        {
+          // the handler got dropped without being invoked, so nothing is going to resume the coroutine
+          h.destroy();
+          return true;
+        }
         if (completed_immediately == detail::completed_immediately_t::initiating)
           completed_immediately = detail::completed_immediately_t::no;
         return completed_immediately != detail::completed_immediately_t::yes;
-- 
2.43.0


From 559d82c68d3685ec90c8d491450c276f624dc3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:09 +0000
Subject: [PATCH 25/53] fix: compositions with large frames used their freed
 handler, were never cancelled and freed abandoned memory through a destroyed
 resource

---
 include/boost/cobalt/composition.hpp | 67 +++++++++++++++++-----------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/include/boost/cobalt/composition.hpp b/include/boost/cobalt/composition.hpp
index 50dd688..09efffa 100644
--- a/include/boost/cobalt/composition.hpp
+++ b/include/boost/cobalt/composition.hpp
@@ -92,37 +92,43 @@ struct composition_promise
   using executor_type = typename handler_type::executor_type ;
   const executor & get_executor() const {return handler.get_executor();}
 
-  template<typename ... Ts>
-  static void * operator new(const std::size_t size, Ts & ... args)
+  // Precedes the frame in memory.
+  struct header
   {
-    using tt = std::pair<resource_type *, std::size_t>;
-
-    // | memory_resource | size_t | <padding> | coroutine.
-    constexpr auto block_size =  sizeof(tt) / sizeof(std::max_align_t)
-                                 + (sizeof(tt) % sizeof(std::max_align_t) ? 1 : 0);
+    resource_type * resource;
+    std::size_t size;
+    // The handler of an abandoned operation. It owns the awaiter, which may own the resource,
+    // so it can only get destroyed after the memory was released.
+    std::optional<handler_type> abandoned;
+  };
 
+  // | header | <padding> | coroutine.
+  constexpr static std::size_t block_size()
+  {
+    return sizeof(header) / sizeof(std::max_align_t)
+           + (sizeof(header) % sizeof(std::max_align_t) ? 1 : 0);
+  }
 
+  template<typename ... Ts>
+  static void * operator new(const std::size_t size, Ts & ... args)
+  {
     auto res = std::get<sizeof... (Ts) - 1>(std::tie(args...)).get_allocator().resource();
-    const auto p = res->allocate(size + (block_size * sizeof(std::max_align_t)));
-    new (p) tt(res, size);
-    return static_cast<std::max_align_t*>(p) + block_size;
+    const auto p = res->allocate(size + (block_size() * sizeof(std::max_align_t)));
+    new (p) header{res, size, std::nullopt};
+    return static_cast<std::max_align_t*>(p) + block_size();
   }
 
   static void operator delete(void * raw) noexcept
   {
-    using tt = std::pair<resource_type *, std::size_t>;
-
-    // | memory_resource | size_t | <padding> | coroutine.
-    constexpr auto block_size =  sizeof(tt) / sizeof(std::max_align_t)
-                                 + (sizeof(tt) % sizeof(std::max_align_t) ? 1 : 0);
+    const auto p = static_cast<std::max_align_t*>(raw) - block_size();
 
-    const auto p = static_cast<std::max_align_t*>(raw) - block_size;
+    const auto hp = reinterpret_cast<header*>(p);
+    const auto res = hp->resource;
+    const auto size = hp->size;
+    const auto abandoned = std::move(hp->abandoned);
+    hp->~header();
 
-    const auto tp = *reinterpret_cast<tt*>(p);
-    const auto res = tp.first;
-    const auto size = tp.second;
-
-    res->deallocate(p, size +  (block_size * sizeof(std::max_align_t)));
+    res->deallocate(p, size + (block_size() * sizeof(std::max_align_t)));
   }
 
   completion_handler<Args...> handler;
@@ -130,7 +136,14 @@ struct composition_promise
   template<typename ... Ts>
   composition_promise(Ts && ... args) : handler(std::move(std::get<sizeof... (Ts) - 1>(std::tie(args...))))
   {
+    this->reset_cancellation_source(handler.get_cancellation_slot());
+  }
 
+  ~composition_promise()
+  {
+    const auto raw = std::coroutine_handle<composition_promise>::from_promise(*this).address();
+    const auto hp = reinterpret_cast<header*>(static_cast<std::max_align_t*>(raw) - block_size());
+    hp->abandoned.emplace(std::move(handler));
   }
 
   void unhandled_exception() { throw ; }
@@ -150,15 +163,19 @@ struct composition_promise
     BOOST_COBALT_MSVC_NOINLINE
     std::coroutine_handle<void> await_suspend(std::coroutine_handle<composition_promise> h) noexcept
     {
+      // this awaitable lives in the frame that's about to be destroyed
       auto exec = handler.get_executor();
+      auto completed_immediately = handler.completed_immediately;
       auto ho = handler.self.release();
+      handler.cancellation_slot.clear();
       detail::self_destroy(h, exec);
 
-      if (handler.completed_immediately != nullptr
-       && *handler.completed_immediately == completed_immediately_t::initiating)
-        //not maybe here, because we don't go through the immediate executor
+      if (completed_immediately != nullptr
+       && (*completed_immediately == completed_immediately_t::initiating
+        || *completed_immediately == completed_immediately_t::maybe))
       {
-        *handler.completed_immediately = completed_immediately_t::yes;
+        // still in the initiation, either directly or through the immediate executor
+        *completed_immediately = completed_immediately_t::yes;
         return std::noop_coroutine();
       }
 
-- 
2.43.0


From 49f69e62e1b6d529edd1c0e7f0702b3b638c19cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 26/53] fix: abandoning or cancelling a spawned task used
 memory of its destroyed handler; spawning a running task resumed it

---
 include/boost/cobalt/detail/spawn.hpp | 130 +++++++++++++++++++++++---
 1 file changed, 118 insertions(+), 12 deletions(-)

diff --git a/include/boost/cobalt/detail/spawn.hpp b/include/boost/cobalt/detail/spawn.hpp
index 123aea2..a6aa232 100644
--- a/include/boost/cobalt/detail/spawn.hpp
+++ b/include/boost/cobalt/detail/spawn.hpp
@@ -22,6 +22,100 @@ struct task;
 namespace boost::cobalt::detail
 {
 
+// The coroutine a spawned task resumes, i.e. it posts the completion.
+// If the task gets abandoned, the completion is destroyed after the frame was deallocated,
+// because the completion may own the memory its allocator uses.
+template<typename Completion>
+struct spawn_promise
+{
+  using allocator_type =
+      typename std::allocator_traits<asio::associated_allocator_t<Completion>>::template rebind_alloc<std::max_align_t>;
+
+  // precedes the frame
+  struct header
+  {
+    allocator_type allocator;
+    std::size_t size;
+    std::optional<Completion> abandoned;
+  };
+
+  constexpr static std::size_t blocks(std::size_t size)
+  {
+    return (size + sizeof(std::max_align_t) - 1) / sizeof(std::max_align_t);
+  }
+
+  static void * operator new(const std::size_t size, Completion & completion)
+  {
+    allocator_type alloc(asio::get_associated_allocator(completion));
+    const auto n = blocks(sizeof(header)) + blocks(size);
+    const auto p = std::allocator_traits<allocator_type>::allocate(alloc, n);
+    new (static_cast<void*>(p)) header{std::move(alloc), n, std::nullopt};
+    return p + blocks(sizeof(header));
+  }
+
+  static void operator delete(void * raw) noexcept
+  {
+    const auto p = static_cast<std::max_align_t*>(raw) - blocks(sizeof(header));
+    const auto hp = reinterpret_cast<header*>(p);
+    allocator_type alloc = std::move(hp->allocator);
+    const auto size = hp->size;
+    const auto abandoned = std::move(hp->abandoned);
+    hp->~header();
+    std::allocator_traits<allocator_type>::deallocate(alloc, p, size);
+  }
+
+  Completion completion;
+
+  spawn_promise(Completion & completion) : completion(std::move(completion)) {}
+  ~spawn_promise()
+  {
+    const auto raw = std::coroutine_handle<spawn_promise>::from_promise(*this).address();
+    const auto hp = reinterpret_cast<header*>(static_cast<std::max_align_t*>(raw) - blocks(sizeof(header)));
+    hp->abandoned.emplace(std::move(completion));
+  }
+
+  std::coroutine_handle<spawn_promise> get_return_object()
+  {
+    return std::coroutine_handle<spawn_promise>::from_promise(*this);
+  }
+
+  struct post_awaitable
+  {
+    constexpr bool await_ready() noexcept { return false; }
+    BOOST_COBALT_MSVC_NOINLINE
+    void await_suspend(std::coroutine_handle<spawn_promise> h) noexcept
+    {
+      auto c = std::move(h.promise().completion);
+      detail::self_destroy(h, asio::get_associated_executor(c));
+      asio::post(std::move(c));
+    }
+    constexpr void await_resume() noexcept {}
+  };
+
+  std::suspend_always initial_suspend() noexcept { return {}; }
+  post_awaitable final_suspend() noexcept { return {}; }
+  void return_void() {}
+  void unhandled_exception() { throw; }
+};
+
+}
+
+template<typename Completion>
+struct std::coroutine_traits<
+    std::coroutine_handle<boost::cobalt::detail::spawn_promise<Completion>>, Completion>
+{
+  using promise_type = boost::cobalt::detail::spawn_promise<Completion>;
+};
+
+namespace boost::cobalt::detail
+{
+
+template<typename Completion>
+auto post_spawned(Completion) -> std::coroutine_handle<spawn_promise<Completion>>
+{
+  co_return;
+}
+
 struct async_initiate_spawn
 {
 
@@ -46,9 +140,11 @@ struct async_initiate_spawn
 #else
     auto alloc = asio::get_associated_allocator(h);
 #endif
-    auto recs = std::allocate_shared<detail::task_receiver<T>>(alloc, std::move(rec));
-
     auto sl = asio::get_associated_cancellation_slot(h);
+    // A pending cancellation can outlive the handler and thus the memory of its allocator.
+    auto recs = sl.is_connected() ? std::make_shared<detail::task_receiver<T>>(std::move(rec))
+                                  : std::allocate_shared<detail::task_receiver<T>>(alloc, std::move(rec));
+
     if (sl.is_connected())
       sl.assign(
           [ex = exec, recs](asio::cancellation_type ct)
@@ -63,6 +159,9 @@ struct async_initiate_spawn
 
     struct completion_handler
     {
+      // Destroyed last, because it may own the memory the allocator uses.
+      std::decay_t<Handler> handler;
+
       using allocator_type = std::decay_t<decltype(alloc)>;
 
       allocator_type get_allocator() const { return alloc_; }
@@ -73,7 +172,6 @@ struct async_initiate_spawn
       executor_type exec_;
 
       decltype(recs) r;
-      std::decay_t<Handler> handler;
       asio::cancellation_slot sl;
 
       void operator()()
@@ -89,12 +187,14 @@ struct async_initiate_spawn
       }
     };
 
-    p->awaited_from.reset(detail::post_coroutine(
+    auto ex = asio::get_associated_executor(h, exec);
+    p->awaited_from.reset(detail::post_spawned(
         completion_handler{
-            alloc, asio::get_associated_executor(h, exec), std::move(recs), std::forward<Handler>(h), sl
+            std::forward<Handler>(h), alloc, std::move(ex), std::move(recs), sl
         }).address());
 
-    asio::dispatch(exec, unique_handle<detail::task_promise<T>>::from_promise(*p->promise));
+    if (!p->promise->started) // a previous await might have been interrupted, so it's already running
+      asio::dispatch(exec, unique_handle<detail::task_promise<T>>::from_promise(*p->promise));
   }
 
   template<typename Handler>
@@ -111,13 +211,15 @@ struct async_initiate_spawn
 #else
     auto alloc = asio::get_associated_allocator(h);
 #endif
-    auto recs = std::allocate_shared<detail::task_receiver<void>>(alloc, std::move(a.receiver_));
+    auto sl = asio::get_associated_cancellation_slot(h);
+    // A pending cancellation can outlive the handler and thus the memory of its allocator.
+    auto recs = sl.is_connected() ? std::make_shared<detail::task_receiver<void>>(std::move(a.receiver_))
+                                  : std::allocate_shared<detail::task_receiver<void>>(alloc, std::move(a.receiver_));
 
     if (recs->done)
       return asio::dispatch(asio::get_associated_immediate_executor(h, exec),
                             asio::append(std::forward<Handler>(h), recs->exception));
 
-    auto sl = asio::get_associated_cancellation_slot(h);
     if (sl.is_connected())
       sl.assign(
           [ex = exec, recs](asio::cancellation_type ct)
@@ -132,6 +234,9 @@ struct async_initiate_spawn
 
     struct completion_handler
     {
+      // Destroyed last, because it may own the memory the allocator uses.
+      std::decay_t<Handler> handler;
+
       using allocator_type = std::decay_t<decltype(alloc)>;
 
       const allocator_type &get_allocator() const { return alloc_; }
@@ -143,7 +248,6 @@ struct async_initiate_spawn
 
       executor_type exec_;
       decltype(recs) r;
-      std::decay_t<Handler> handler;
       asio::cancellation_slot sl;
 
       void operator()()
@@ -156,11 +260,13 @@ struct async_initiate_spawn
       }
     };
 
-    p->awaited_from.reset(detail::post_coroutine(completion_handler{
-        alloc, asio::get_associated_executor(h, exec), std::move(recs), std::forward<Handler>(h), sl
+    auto ex = asio::get_associated_executor(h, exec);
+    p->awaited_from.reset(detail::post_spawned(completion_handler{
+        std::forward<Handler>(h), alloc, std::move(ex), std::move(recs), sl
       }).address());
 
-    asio::dispatch(exec, unique_handle<detail::task_promise<void>>::from_promise(*p->promise));
+    if (!p->promise->started) // a previous await might have been interrupted, so it's already running
+      asio::dispatch(exec, unique_handle<detail::task_promise<void>>::from_promise(*p->promise));
   }
 };
 
-- 
2.43.0


From 675277bf69f2fed5e5d9458a9ae5b29a898b6eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 27/53] fix: a signal arriving while co_main ends used the
 destroyed coroutine and kept main from returning

---
 include/boost/cobalt/detail/main.hpp | 1 +
 src/main.cpp                         | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/main.hpp b/include/boost/cobalt/detail/main.hpp
index b73519e..a50b4d8 100644
--- a/include/boost/cobalt/detail/main.hpp
+++ b/include/boost/cobalt/detail/main.hpp
@@ -146,6 +146,7 @@ struct main_promise : signal_helper,
     std::optional<asio::executor_work_guard<executor_type>> exec;
     std::optional<executor_type> exec_;
     asio::basic_signal_set<executor_type> * signal_set;
+    bool * completed = nullptr;
     ::boost::cobalt::main get_return_object()
     {
         return ::boost::cobalt::main{this};
diff --git a/src/main.cpp b/src/main.cpp
index aaa958f..01bae02 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -20,6 +20,8 @@ auto main_promise::final_suspend() noexcept -> std::suspend_never
   system::error_code ec;
   if (signal_set)
     signal_set->cancel(ec);
+  if (completed)
+    *completed = true;
   return std::suspend_never(); // enable_yielding_tasks::final_suspend();
 }
 
@@ -34,13 +36,18 @@ int main_promise::run_main(::boost::cobalt::main mn)
   auto p = std::coroutine_handle<detail::main_promise>::from_promise(*mn.promise);
   asio::basic_signal_set<executor_type> ss{ctx, SIGINT, SIGTERM};
   mn.promise->signal_set = &ss;
+  bool completed = false;
+  mn.promise->completed = &completed;
   struct work
   {
     asio::basic_signal_set<executor_type> & ss;
     asio::cancellation_signal & signal;
+    const bool & completed;
     void operator()(system::error_code ec, int sig) const
     {
       BOOST_ASIO_HANDLER_LOCATION((__FILE__, __LINE__, __func__));
+      if (completed) // the signal arrived while the coroutine was ending, so it's gone
+        return ;
       if (sig == SIGINT)
         signal.emit(asio::cancellation_type::total);
       if (sig == SIGTERM)
@@ -50,7 +57,7 @@ int main_promise::run_main(::boost::cobalt::main mn)
     }
   };
 
-  ss.async_wait(work{ss, mn.promise->signal});
+  ss.async_wait(work{ss, mn.promise->signal, completed});
   asio::post(ctx.get_executor(),
              [p]
              {
-- 
2.43.0


From 7ae072b59247d718e55fa358bb1597f6be98fa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:40 +0000
Subject: [PATCH 28/53] fix: thread: cancellation, failure and destruction
 around the end of the coroutine

The cancellation handler used stale op slots after the coroutine had ended,
a thrown exception was propagated through the frame (leaking it), the state
was kept alive by its own queue, the mutex was held while resuming a frame
destroying it, and completing from the thread allocated from the awaiting
coroutine's resource.
---
 include/boost/cobalt/detail/thread.hpp | 55 +++++++++++++++++++++-----
 include/boost/cobalt/thread.hpp        |  7 +---
 src/thread.cpp                         | 26 +++++++-----
 3 files changed, 64 insertions(+), 24 deletions(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index 66e9f36..1cc097a 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -44,11 +44,29 @@ struct signal_helper_2
 
 struct thread_state
 {
+#if !defined(BOOST_COBALT_NO_PMR)
+  // the context might still own coroutines when the thread is done
+  pmr::unsynchronized_pool_resource resource;
+#endif
+  std::exception_ptr exception;
+  bool ended = false; // i.e. the coroutine, only used on the thread
   asio::io_context ctx{1u};
   asio::cancellation_signal signal;
   std::mutex mtx;
   std::optional<completion_handler<std::exception_ptr>> waitor;
   std::atomic<bool> done = false;
+
+  void cancel(asio::cancellation_type type)
+  {
+    // not owning, since the state owns the context
+    asio::post(ctx,
+               [this, type]
+               {
+                 BOOST_ASIO_HANDLER_LOCATION((__FILE__, __LINE__, __func__));
+                 if (!ended) // the signal might refer to operations of the coroutine
+                   signal.emit(type);
+               });
+  }
 };
 
 struct thread_promise : signal_helper_2,
@@ -60,6 +78,11 @@ struct thread_promise : signal_helper_2,
                         enable_await_deferred
 {
   BOOST_COBALT_DECL thread_promise();
+  ~thread_promise()
+  {
+    if (state)
+      state->ended = true;
+  }
 
   struct initial_awaitable
   {
@@ -83,7 +106,12 @@ struct thread_promise : signal_helper_2,
   }
 
 #if !defined(BOOST_NO_EXCEPTIONS)
-  void unhandled_exception() { throw; }
+  void unhandled_exception()
+  {
+    // The exception ends the thread; throwing it here would leave the coroutine's frame to nobody.
+    state->exception = std::current_exception();
+    state->ctx.stop();
+  }
 #endif
   void return_void() { }
 
@@ -115,6 +143,7 @@ struct thread_promise : signal_helper_2,
   }
 
   std::mutex mtx;
+  thread_state * state = nullptr;
  private:
 
   std::optional<asio::executor_work_guard<asio::io_context::executor_type>> wexec_;
@@ -148,13 +177,7 @@ struct thread_awaitable
         cl.assign(
             [st = state_](asio::cancellation_type type)
             {
-              std::lock_guard<std::mutex> lock{st->mtx};
-              asio::post(st->ctx,
-                         [st, type]
-                         {
-                            BOOST_ASIO_HANDLER_LOCATION((__FILE__, __LINE__, __func__));
-                            st->signal.emit(type);
-                         });
+              st->cancel(type);
             });
 
       }
@@ -196,7 +219,9 @@ struct thread_awaitable
     if (thread_)
       thread_->join();
 
-    return std::get<0>(*res);
+    if (!res) // await_ready
+      return {nullptr};
+    return std::move(*res);
   }
 
   explicit thread_awaitable(std::shared_ptr<detail::thread_state> state)
@@ -205,6 +230,18 @@ struct thread_awaitable
   explicit thread_awaitable(std::thread thread,
                             std::shared_ptr<detail::thread_state> state)
       : thread_(std::move(thread)), state_(std::move(state)) {}
+
+  thread_awaitable(thread_awaitable &&) noexcept = default;
+  // If not awaited or abandoned, it's the same as destroying the thread.
+  ~thread_awaitable()
+  {
+    if (!thread_ || !thread_->joinable())
+      return;
+
+    if (state_)
+      state_->ctx.stop();
+    thread_->join();
+  }
  private:
   std::optional<std::thread> thread_;
   std::shared_ptr<detail::thread_state> state_;
diff --git a/include/boost/cobalt/thread.hpp b/include/boost/cobalt/thread.hpp
index 5145758..2c46bfb 100644
--- a/include/boost/cobalt/thread.hpp
+++ b/include/boost/cobalt/thread.hpp
@@ -83,12 +83,7 @@ inline
 void thread::cancel(asio::cancellation_type type)
 {
   if (auto st = state_)
-    asio::post(state_->ctx,
-               [s= state_, type]
-               {
-                 BOOST_ASIO_HANDLER_LOCATION((__FILE__, __LINE__, __func__));
-                 s->signal.emit(type);
-               });
+    st->cancel(type);
 }
 
 
diff --git a/src/thread.cpp b/src/thread.cpp
index 594ecd5..159f5d0 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -8,6 +8,7 @@
 #include <boost/cobalt/thread.hpp>
 
 #include <boost/asio/append.hpp>
+#include <boost/asio/bind_allocator.hpp>
 #include <boost/asio/bind_executor.hpp>
 
 #include <boost/core/no_exceptions_support.hpp>
@@ -30,23 +31,25 @@ void run_thread(
     unique_handle<thread_promise> h)
 {
 
-#if !defined(BOOST_COBALT_NO_PMR)
-  pmr::unsynchronized_pool_resource resource;
-  boost::cobalt::this_thread::set_default_resource(&resource);
-  h->resource = &resource;
-#endif
-
   {
     auto st = std::move(st_);
+#if !defined(BOOST_COBALT_NO_PMR)
+    boost::cobalt::this_thread::set_default_resource(&st->resource);
+    h->resource = &st->resource;
+#endif
+    h->state = st.get();
     h->reset_cancellation_source(st->signal.slot());
     h->set_executor(st->ctx.get_executor());
     boost::cobalt::this_thread::set_executor(st->ctx.get_executor());
 
     asio::post(
         st->ctx.get_executor(),
-        [st, h = std::move(h)]() mutable
+        [h = std::move(h)]() mutable
         {
-          std::lock_guard<std::mutex> lock{h->mtx};
+          {
+            // wait for the initial suspend. The mutex is gone if the coroutine completes.
+            std::lock_guard<std::mutex> lock{h->mtx};
+          }
           std::move(h).resume();
         });
 
@@ -62,13 +65,18 @@ void run_thread(
     }
     BOOST_CATCH_END
 
+    if (!ep)
+      ep = std::exchange(st->exception, nullptr);
+
     st->done = true;
     st->signal.slot().clear();
     std::lock_guard<std::mutex> lock(st->mtx);
     if (!st->waitor && ep) // nobodies waiting, so unhandled exception
       std::rethrow_exception(ep);
     else if (st->waitor)
-      asio::post(asio::append(*std::exchange(st->waitor, std::nullopt), ep));
+      // the allocator of the waitor belongs to its thread
+      asio::post(asio::bind_allocator(std::allocator<void>(),
+                                      asio::append(*std::exchange(st->waitor, std::nullopt), std::move(ep))));
   }
 }
 
-- 
2.43.0


From 9b36862238ef07eb49b89fa82e643deb2ad6adf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:40 +0000
Subject: [PATCH 29/53] fix: sbo_resource and monotonic_resource: honour the
 requested alignment and empty blocks

---
 include/boost/cobalt/detail/monotonic_resource.hpp | 12 +++++-------
 include/boost/cobalt/detail/sbo_resource.hpp       | 10 +++++++---
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/boost/cobalt/detail/monotonic_resource.hpp b/include/boost/cobalt/detail/monotonic_resource.hpp
index 8793b2a..97aff06 100644
--- a/include/boost/cobalt/detail/monotonic_resource.hpp
+++ b/include/boost/cobalt/detail/monotonic_resource.hpp
@@ -70,15 +70,13 @@ struct monotonic_resource
   constexpr void * allocate(std::size_t size, std::align_val_t align_ = std::align_val_t(alignof(std::max_align_t)))
   {
     const auto align = (std::max)(static_cast<std::size_t>(align_), alignof(block_));
-    // let's say size = 11, and align is 8, that leaves us with 3
     {
-      const auto align_offset = size % align ;
-      // padding is 5
-      const auto padding = align  - align_offset;
+      const auto offset = head_->size - head_->avail;
+      const auto misaligned = static_cast<std::size_t>(static_cast<char*>(head_->p) - static_cast<char*>(nullptr) + offset) % align;
+      const auto padding = misaligned == 0u ? 0u : (align - misaligned);
       const auto needed_size = size + padding;
-      if (needed_size <= head_->avail) // fits, but we need to check alignment too
+      if (head_->p != nullptr && needed_size <= head_->avail)
       {
-        const auto offset = head_->size - head_->avail;
         auto pp = static_cast<char*>(head_->p) + offset + padding;
         head_->avail -= needed_size;
         return pp; // done
@@ -96,7 +94,7 @@ struct monotonic_resource
 
     const auto aligned = std::align_val_t(align);
     const auto mem = ::operator new(alloc_size, aligned);
-    const auto block_location = static_cast<char*>(mem) +  mem_size + offset;
+    const auto block_location = static_cast<char*>(mem) + raw_size;
     head_ = head_->next = new (block_location) block_{mem, raw_size - size, raw_size, aligned, nullptr};
 
     return mem;
diff --git a/include/boost/cobalt/detail/sbo_resource.hpp b/include/boost/cobalt/detail/sbo_resource.hpp
index ae37315..e0fa074 100644
--- a/include/boost/cobalt/detail/sbo_resource.hpp
+++ b/include/boost/cobalt/detail/sbo_resource.hpp
@@ -10,6 +10,9 @@
 
 #include <boost/cobalt/config.hpp>
 
+#include <algorithm>
+#include <cstddef>
+
 namespace boost::cobalt::detail
 {
 
@@ -89,8 +92,9 @@ struct sbo_resource
   override
 #endif
   {
-    const auto sz = align_as_max_(size);
-    if (sz <= buffer_.avail && !buffer_.fragmented) [[likely]]
+    // an empty block needs an address inside of the buffer too
+    const auto sz = align_as_max_((std::max)(size, std::size_t(1u)));
+    if (sz <= buffer_.avail && !buffer_.fragmented && align <= alignof(std::max_align_t)) [[likely]]
     {
       auto p = static_cast<char*>(buffer_.p) + buffer_.size - buffer_.avail;
       buffer_.avail -= sz;
@@ -116,7 +120,7 @@ struct sbo_resource
 
     if(begin <= itr && itr < end) [[likely]]
     {
-      const auto sz = align_as_max_(size);
+      const auto sz = align_as_max_((std::max)(size, std::size_t(1u)));
       const auto used_mem_end = end - buffer_.avail;
       const auto dealloc_end = itr + sz;
       if (used_mem_end != dealloc_end )
-- 
2.43.0


From 1d5ae444d9b9df09520bbdc9619492d2152216f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:40 +0000
Subject: [PATCH 30/53] fix: race, gather and join: disarm the cancellation
 handler once completed

The handler refers to the awaitable, but stayed in the awaiting coroutine's
slot until something else was assigned, e.g. when suspended at a co_yield or
an operation without cancellation.
---
 include/boost/cobalt/detail/fork.hpp    | 15 +++++++++++++--
 include/boost/cobalt/detail/gather.hpp  |  4 ++--
 include/boost/cobalt/detail/handler.hpp | 12 ++++++++----
 include/boost/cobalt/detail/join.hpp    |  4 ++--
 include/boost/cobalt/detail/race.hpp    |  4 ++--
 5 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/include/boost/cobalt/detail/fork.hpp b/include/boost/cobalt/detail/fork.hpp
index d5bc0e0..774485a 100644
--- a/include/boost/cobalt/detail/fork.hpp
+++ b/include/boost/cobalt/detail/fork.hpp
@@ -20,6 +20,7 @@
 #include <coroutine>
 #include <cstddef>
 #include <optional>
+#include <utility>
 
 namespace boost::cobalt::detail
 {
@@ -47,8 +48,18 @@ struct fork
 #endif
     // the coro awaiting the fork statement, e.g. awaiting race
     unique_handle<void> coro{};
+    // the slot of the awaiting coroutine holding our cancellation handler
+    asio::cancellation_slot coro_slot{};
     std::size_t use_count = 0u;
 
+    // the handler refers to this state, so it must not outlive the await
+    std::coroutine_handle<void> release_coro()
+    {
+      if (coro_slot.is_connected())
+        std::exchange(coro_slot, {}).clear();
+      return coro.release();
+    }
+
     friend void intrusive_ptr_add_ref(shared_state * st) {st->use_count++;}
     friend void intrusive_ptr_release(shared_state * st)
     {
@@ -75,7 +86,7 @@ struct fork
         if (state.dropped)
           state.coro.reset();
         else if (state.coro)
-          state.coro.release().resume();
+          state.release_coro().resume();
       }
     };
 
@@ -203,7 +214,7 @@ struct fork
         pp->use_count--;
         BOOST_ASSERT(pp->use_count == 0u);
         if (pp->coro)
-          return pp->coro.release();
+          return pp->release_coro();
         else
           return std::noop_coroutine();
       }
diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index 679aece..6a5d1d8 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -174,7 +174,7 @@ struct gather_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->coro_slot = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -366,7 +366,7 @@ struct gather_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->coro_slot = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
diff --git a/include/boost/cobalt/detail/handler.hpp b/include/boost/cobalt/detail/handler.hpp
index af8c9bc..22199e8 100644
--- a/include/boost/cobalt/detail/handler.hpp
+++ b/include/boost/cobalt/detail/handler.hpp
@@ -174,14 +174,18 @@ struct completion_handler_base
 
 
 template<typename Handler>
-void assign_cancellation(std::coroutine_handle<void>, Handler &&) {}
+asio::cancellation_slot assign_cancellation(std::coroutine_handle<void>, Handler &&) {return {};}
 
 template<typename Promise, typename Handler>
-void assign_cancellation(std::coroutine_handle<Promise> h, Handler && func)
+asio::cancellation_slot assign_cancellation(std::coroutine_handle<Promise> h, Handler && func)
 {
   if constexpr (requires {h.promise().get_cancellation_slot();})
-    if (h.promise().get_cancellation_slot().is_connected())
-      h.promise().get_cancellation_slot().assign(std::forward<Handler>(func));
+    if (asio::cancellation_slot sl = h.promise().get_cancellation_slot(); sl.is_connected())
+    {
+      sl.assign(std::forward<Handler>(func));
+      return sl;
+    }
+  return {};
 }
 
 }
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 001b9af..fa21d66 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -222,7 +222,7 @@ struct join_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->coro_slot = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -475,7 +475,7 @@ struct join_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->coro_slot = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 95deb5f..d8cb706 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -334,7 +334,7 @@ struct race_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->coro_slot = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -658,7 +658,7 @@ struct race_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->coro_slot = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
-- 
2.43.0


From c5663fbab068f77bd67bac4125ec48ae22648881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:33 +0000
Subject: [PATCH 31/53] fix: buffer sequence iterators: order the first buffer
 before the others

---
 include/boost/cobalt/io/buffer.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/io/buffer.hpp b/include/boost/cobalt/io/buffer.hpp
index 9f18ae2..b57521d 100644
--- a/include/boost/cobalt/io/buffer.hpp
+++ b/include/boost/cobalt/io/buffer.hpp
@@ -192,10 +192,11 @@ struct mutable_buffer_sequence
       return static_cast<difference_type>(offset_) - static_cast<difference_type>(itr.offset_);
     }
 
+    // the head's offset is the maximum, so it wraps around to be the lowest
     friend auto operator<=>(const const_iterator & lhs, const const_iterator & rhs)
     {
-      return std::make_tuple(lhs.head_.data(), lhs.head_.size(), lhs.tail_.data(), lhs.tail_.size(), lhs.offset_)
-         <=> std::make_tuple(rhs.head_.data(), rhs.head_.size(), rhs.tail_.data(), rhs.tail_.size(), rhs.offset_);
+      return std::make_tuple(lhs.head_.data(), lhs.head_.size(), lhs.tail_.data(), lhs.tail_.size(), lhs.offset_ + 1u)
+         <=> std::make_tuple(rhs.head_.data(), rhs.head_.size(), rhs.tail_.data(), rhs.tail_.size(), rhs.offset_ + 1u);
     };
 
     friend bool operator==(const const_iterator & lhs, const const_iterator & rhs)
@@ -436,10 +437,11 @@ struct const_buffer_sequence
       return static_cast<difference_type>(offset_) - static_cast<difference_type>(itr.offset_);
     }
 
+    // the head's offset is the maximum, so it wraps around to be the lowest
     friend auto operator<=>(const const_iterator & lhs, const const_iterator & rhs)
     {
-      return std::make_tuple(lhs.head_.data(), lhs.head_.size(), lhs.tail_.data(), lhs.tail_.size(), lhs.offset_)
-             <=> std::make_tuple(rhs.head_.data(), rhs.head_.size(), rhs.tail_.data(), rhs.tail_.size(), rhs.offset_);
+      return std::make_tuple(lhs.head_.data(), lhs.head_.size(), lhs.tail_.data(), lhs.tail_.size(), lhs.offset_ + 1u)
+             <=> std::make_tuple(rhs.head_.data(), rhs.head_.size(), rhs.tail_.data(), rhs.tail_.size(), rhs.offset_ + 1u);
     };
     friend bool operator==(const const_iterator & lhs, const const_iterator & rhs)
     {
-- 
2.43.0


From a42e8a8b909fc479bd37842256bc551f4ed75f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:53 +0000
Subject: [PATCH 32/53] fix: random_access_device.hpp: use an include guard of
 its own

---
 include/boost/cobalt/io/random_access_device.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/io/random_access_device.hpp b/include/boost/cobalt/io/random_access_device.hpp
index ec605b5..46fbf62 100644
--- a/include/boost/cobalt/io/random_access_device.hpp
+++ b/include/boost/cobalt/io/random_access_device.hpp
@@ -5,8 +5,8 @@
 // file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 //
 
-#ifndef BOOST_COBALT_IO_STREAM_HPP
-#define BOOST_COBALT_IO_STREAM_HPP
+#ifndef BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
+#define BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
 
 #include <boost/cobalt/io/buffer.hpp>
 #include <boost/cobalt/io/ops.hpp>
@@ -34,4 +34,4 @@ struct random_access_device : random_access_read_device, random_access_write_dev
 
 }
 
-#endif //BOOST_COBALT_IO_STREAM_HPP
+#endif //BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
-- 
2.43.0


From ae03f29a08b0dab7522c496b6e1ba1a1c26c928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:53 +0000
Subject: [PATCH 33/53] fix: write_at: accept streams whose write_some_at
 returns a write_at_op

---
 include/boost/cobalt/io/write.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/write.hpp b/include/boost/cobalt/io/write.hpp
index cccd0b6..bfc2543 100644
--- a/include/boost/cobalt/io/write.hpp
+++ b/include/boost/cobalt/io/write.hpp
@@ -48,7 +48,7 @@ struct BOOST_COBALT_IO_DECL write_all_at  final : op<system::error_code, std::si
 template<typename Stream>
 requires requires (Stream & str, std::uint64_t offset, const_buffer_sequence buffer)
 {
-  {str.write_some_at(offset, buffer)} -> std::same_as<write_op>;
+  {str.write_some_at(offset, buffer)} -> std::same_as<write_at_op>;
 }
 [[nodiscard]] BOOST_COBALT_MSVC_NOINLINE
 write_all_at write_at(Stream & str, std::uint64_t offset, const_buffer_sequence buffer)
-- 
2.43.0


From 0bc416c6831430d25f3e380703a87765147806d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:07 +0000
Subject: [PATCH 34/53] fix: stream_file::seek: return the new position on
 posix

---
 src/io/stream_file.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/stream_file.cpp b/src/io/stream_file.cpp
index 5fbd111..2701963 100644
--- a/src/io/stream_file.cpp
+++ b/src/io/stream_file.cpp
@@ -104,10 +104,11 @@ stream_file::stream_file(stream_file && sf) noexcept = default;
 
 system::result<std::uint64_t> stream_file::seek(std::int64_t offset, seek_basis whence)
 {
-  if (::lseek(native_handle(), offset, whence) < 0)
+  const auto n = ::lseek(native_handle(), offset, whence);
+  if (n < 0)
     COBALT_RETURN_ERROR();
 
-  return {};
+  return static_cast<std::uint64_t>(n);
 }
 
 void stream_file::initiate_read_some_(void * this_, mutable_buffer_sequence buffer, boost::cobalt::completion_handler<system::error_code, std::size_t> handler)
-- 
2.43.0


From 4ade35147c2a27d672a915737b206028f2b18f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:07 +0000
Subject: [PATCH 35/53] fix: random_access_file: pass offset and whence to
 lseek in order, and never complete within the initiation

---
 src/io/random_access_file.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/io/random_access_file.cpp b/src/io/random_access_file.cpp
index 1f8c132..a888cc0 100644
--- a/src/io/random_access_file.cpp
+++ b/src/io/random_access_file.cpp
@@ -8,6 +8,8 @@
 #define _FILE_OFFSET_BITS 64
 
 #include <boost/cobalt/io/random_access_file.hpp>
+#include <boost/asio/append.hpp>
+#include <boost/asio/post.hpp>
 
 
 namespace boost::cobalt::io
@@ -82,10 +84,11 @@ void initiate_async_read_some_at_helper(boost::asio::posix::basic_stream_descrip
                                         completion_handler<system::error_code, std::size_t> handler)
 {
 
-  if (lseek(str.native_handle(), SEEK_SET, offset) < 0)
+  if (lseek(str.native_handle(), offset, SEEK_SET) < 0)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
-    return handler(system::error_code{errno, ::boost::system::system_category(), &loc}, 0u);
+    const system::error_code ec{errno, ::boost::system::system_category(), &loc};
+    return asio::post(asio::append(std::move(handler), ec, std::size_t(0u)));
   }
 
   visit(seq, [&](auto buffer) {str.async_read_some(buffer, std::move(handler)); });
@@ -95,10 +98,11 @@ void initiate_async_write_some_at_helper(boost::asio::posix::basic_stream_descri
                                         std::uint64_t offset, const_buffer_sequence seq,
                                         completion_handler<system::error_code, std::size_t> handler)
 {
-  if (lseek(str.native_handle(), SEEK_SET, offset) < 0)
+  if (lseek(str.native_handle(), offset, SEEK_SET) < 0)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
-    return handler(system::error_code{errno, ::boost::system::system_category(), &loc}, 0u);
+    const system::error_code ec{errno, ::boost::system::system_category(), &loc};
+    return asio::post(asio::append(std::move(handler), ec, std::size_t(0u)));
   }
 
   visit(seq, [&](auto buffer) {str.async_write_some(buffer, std::move(handler)); });
-- 
2.43.0


From 98e14de94fae2dccef47bc0e9c5ab1ac2affef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:07 +0000
Subject: [PATCH 36/53] fix: file on posix: opening an open file leaked a
 descriptor (and may truncate); cancel did nothing

---
 src/io/file.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/io/file.cpp b/src/io/file.cpp
index 6d7bf11..29fa1a8 100644
--- a/src/io/file.cpp
+++ b/src/io/file.cpp
@@ -107,7 +107,9 @@ result<void> file::assign(const native_handle_type & native_file)
 }
 result<void> file::cancel()
 {
-  return result<void>{};
+  boost::system::error_code ec;
+  file_.cancel(ec);
+  return ec ? ec : result<void>{};
 }
 
 executor file::get_executor() { return file_.get_executor();}
@@ -126,11 +128,16 @@ auto file::native_handle() -> native_handle_type {return file_.native_handle();}
 
 result<void> file::open(const char * path, flags open_flags)
 {
+  if (file_.is_open())
+    return error_code(asio::error::already_open);
+
   int r = ::open(path, static_cast<int>(open_flags), 0777);
   if (r == -1)
     COBALT_RETURN_ERROR();
   boost::system::error_code ec;
   file_.assign(r, ec);
+  if (ec)
+    ::close(r);
   return ec ? ec : result<void>{};
 }
 
-- 
2.43.0


From c62ae2d7fe37c3c2854616be2c1e2d5888a3453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:07 +0000
Subject: [PATCH 37/53] fix: pipe: report an error instead of throwing

---
 src/io/pipe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/pipe.cpp b/src/io/pipe.cpp
index dbd43f9..f0b43bf 100644
--- a/src/io/pipe.cpp
+++ b/src/io/pipe.cpp
@@ -130,7 +130,7 @@ system::result<std::pair<readable_pipe, writable_pipe>> pipe(const cobalt::execu
   readable_pipe r{executor};
   writable_pipe w{executor};
   system::error_code ec;
-  asio::connect_pipe(r.implementation_, w.implementation_);
+  asio::connect_pipe(r.implementation_, w.implementation_, ec);
   if (ec)
     return ec;
   else
-- 
2.43.0


From 2b9d65e2d65f89b94c74946fb44a0d2c939e4b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:59 +0000
Subject: [PATCH 38/53] fix: lookup: make it movable, so that it can be used
 with as_tuple & as_result

---
 include/boost/cobalt/io/resolver.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/cobalt/io/resolver.hpp b/include/boost/cobalt/io/resolver.hpp
index 02d98d9..5977c76 100644
--- a/include/boost/cobalt/io/resolver.hpp
+++ b/include/boost/cobalt/io/resolver.hpp
@@ -64,6 +64,7 @@ struct BOOST_COBALT_IO_DECL lookup final : op<system::error_code, endpoint_seque
       : host_(host), service_(service), resolver_{exec}, flags_{flags_} {}
 
   void initiate(completion_handler<system::error_code, endpoint_sequence> h) final override;
+  lookup(lookup && ) = default;
   ~lookup() = default;
  private:
   std::string_view host_;
-- 
2.43.0


From 474f7eae33016dde9cf1aede85fa1e9d17809d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:59 +0000
Subject: [PATCH 39/53] fix: endpoint: convert from const endpoints

---
 include/boost/cobalt/io/endpoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/endpoint.hpp b/include/boost/cobalt/io/endpoint.hpp
index 1dda880..662d6e6 100644
--- a/include/boost/cobalt/io/endpoint.hpp
+++ b/include/boost/cobalt/io/endpoint.hpp
@@ -182,7 +182,7 @@ struct endpoint
   requires requires (OtherEndpoint oe)
       {
         {oe.protocol()} -> std::convertible_to<protocol_type>;
-        {oe.data()} -> std::convertible_to<void*>;
+        {oe.data()} -> std::convertible_to<const void*>;
         {oe.size()} -> std::convertible_to<std::size_t>;
       }
   endpoint(OtherEndpoint && oe) :
-- 
2.43.0


From 8dd793c28f9076cace1244362d524b298e1dd214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:59 +0000
Subject: [PATCH 40/53] fix: udp_v6 is UDP, not ICMP

---
 include/boost/cobalt/io/endpoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/endpoint.hpp b/include/boost/cobalt/io/endpoint.hpp
index 662d6e6..7ce6055 100644
--- a/include/boost/cobalt/io/endpoint.hpp
+++ b/include/boost/cobalt/io/endpoint.hpp
@@ -115,7 +115,7 @@ constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET),   BOOST_ASIO_OS_DEF(SOCK_S
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET6),  BOOST_ASIO_OS_DEF(SOCK_STREAM), BOOST_ASIO_OS_DEF(IPPROTO_TCP)>  tcp_v6{};
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_UNSPEC), BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_UDP)>  udp   {};
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET),   BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_UDP)>  udp_v4{};
-constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET6),  BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_ICMP)> udp_v6{};
+constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET6),  BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_UDP)>  udp_v6{};
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_UNSPEC), BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_ICMP)> icmp  {};
 constexpr static_protocol<AF_UNIX,                      BOOST_ASIO_OS_DEF(SOCK_STREAM)>    local_stream   {};
 constexpr static_protocol<AF_UNIX,                      BOOST_ASIO_OS_DEF(SOCK_DGRAM)>     local_datagram {};
-- 
2.43.0


From 018c6a8d814120b54646dbc0f0b6aa0c6580363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:59 +0000
Subject: [PATCH 41/53] fix: endpoint: allow a size that uses the whole
 capacity

---
 include/boost/cobalt/io/endpoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/endpoint.hpp b/include/boost/cobalt/io/endpoint.hpp
index 7ce6055..73ef3e3 100644
--- a/include/boost/cobalt/io/endpoint.hpp
+++ b/include/boost/cobalt/io/endpoint.hpp
@@ -140,7 +140,7 @@ struct endpoint
   using addr_type = asio::detail::socket_addr_type;
   void resize(std::size_t size)
   {
-    BOOST_ASSERT(size < sizeof(storage_));
+    BOOST_ASSERT(size <= sizeof(storage_));
     size_ = size;
   }
 
-- 
2.43.0


From b7f0332df3cd70d6a20a344c99be2387564e2307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:59 +0000
Subject: [PATCH 42/53] fix: endpoint: size of local endpoints (all were 8
 bytes, so paths were cut off)

---
 src/io/endpoint.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/endpoint.cpp b/src/io/endpoint.cpp
index 96c4f11..43e7fa6 100644
--- a/src/io/endpoint.cpp
+++ b/src/io/endpoint.cpp
@@ -8,6 +8,8 @@
 #include <boost/cobalt/io/endpoint.hpp>
 #include <boost/asio/ip/address.hpp>
 
+#include <cstddef>
+
 namespace boost::cobalt::detail
 {
 
@@ -41,7 +43,7 @@ std::size_t tag_invoke(make_endpoint_tag<AF_UNIX>,
   if (sv.size() >= sizeof(un->sun_path))
     BOOST_THROW_EXCEPTION(std::length_error("unix path too long"));
   *std::copy(sv.begin(), sv.end(), un->sun_path) = '\0';
-  return sizeof(un->sun_family + sv.size() + 1u);
+  return offsetof(asio::detail::sockaddr_un_type, sun_path) + sv.size() + 1u;
 }
 
 const local_endpoint* tag_invoke(get_endpoint_tag<AF_UNIX>,
-- 
2.43.0


From a4f33826bcda77eaa6c8065286464986b96bc4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:59 +0000
Subject: [PATCH 43/53] fix: local_endpoint::path: don't read past a path that
 isn't terminated

---
 include/boost/cobalt/io/endpoint.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/endpoint.hpp b/include/boost/cobalt/io/endpoint.hpp
index 73ef3e3..416d10c 100644
--- a/include/boost/cobalt/io/endpoint.hpp
+++ b/include/boost/cobalt/io/endpoint.hpp
@@ -257,7 +257,11 @@ auto get(const endpoint & ep, const boost::source_location & loc = BOOST_CURRENT
 
 struct local_endpoint
 {
-  std::string_view path() const { return unix_.sun_path;}
+  std::string_view path() const
+  {
+    const auto end = std::find(std::begin(unix_.sun_path), std::end(unix_.sun_path), '\0');
+    return std::string_view(unix_.sun_path, static_cast<std::size_t>(end - std::begin(unix_.sun_path)));
+  }
  private:
   union {
     asio::detail::sockaddr_storage_type addr_;
-- 
2.43.0


From 00bf82c739c7a3fbb446c30a58e6d0181448b4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:59 +0000
Subject: [PATCH 44/53] fix: endpoint: size of an ipv6 endpoint made for an
 unspecified family

---
 src/io/endpoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/endpoint.cpp b/src/io/endpoint.cpp
index 43e7fa6..1bd6eae 100644
--- a/src/io/endpoint.cpp
+++ b/src/io/endpoint.cpp
@@ -211,7 +211,7 @@ std::size_t tag_invoke(make_endpoint_tag<AF_UNSPEC>,
     };
     auto a = ad.to_v6().to_bytes();
     std::copy(a.begin(), a.end(), in6->sin6_addr.s6_addr);
-    return sizeof(asio::detail::sockaddr_in4_type);
+    return sizeof(asio::detail::sockaddr_in6_type);
   }
 }
 
-- 
2.43.0


From dd18ed64484d02f4533106ed1ece93649894742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:59 +0000
Subject: [PATCH 45/53] fix: endpoint: keep the scope of an ipv6 address

---
 src/io/endpoint.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/endpoint.cpp b/src/io/endpoint.cpp
index 1bd6eae..d0075ca 100644
--- a/src/io/endpoint.cpp
+++ b/src/io/endpoint.cpp
@@ -135,12 +135,14 @@ std::size_t tag_invoke(make_endpoint_tag<AF_INET6>,
 
   boost::static_string<46> addr{address.begin(), address.end()};
 
-  auto a = asio::ip::make_address_v6(addr.c_str()).to_bytes();
+  const auto ad = asio::ip::make_address_v6(addr.c_str());
+  auto a = ad.to_bytes();
   auto in6 = new (base) asio::detail::sockaddr_in6_type{
       .sin6_family=AF_INET6,
       .sin6_port=boost::endian::native_to_big(port)
   };
   std::copy(a.begin(), a.end(), in6->sin6_addr.s6_addr);
+  in6->sin6_scope_id = static_cast<decltype(in6->sin6_scope_id)>(ad.scope_id());
   return sizeof(asio::detail::sockaddr_in6_type);
 }
 
@@ -211,6 +213,7 @@ std::size_t tag_invoke(make_endpoint_tag<AF_UNSPEC>,
     };
     auto a = ad.to_v6().to_bytes();
     std::copy(a.begin(), a.end(), in6->sin6_addr.s6_addr);
+    in6->sin6_scope_id = static_cast<decltype(in6->sin6_scope_id)>(ad.to_v6().scope_id());
     return sizeof(asio::detail::sockaddr_in6_type);
   }
 }
-- 
2.43.0


From eb57ef0452d95c0965000d54813113e8bc65644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:07 +0000
Subject: [PATCH 46/53] fix: endpoint::resize: clear what isn't part of the
 address (paths of converted asio endpoints ended in garbage)

---
 include/boost/cobalt/io/endpoint.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/cobalt/io/endpoint.hpp b/include/boost/cobalt/io/endpoint.hpp
index 416d10c..2b0a360 100644
--- a/include/boost/cobalt/io/endpoint.hpp
+++ b/include/boost/cobalt/io/endpoint.hpp
@@ -18,6 +18,7 @@
 
 #include <array>
 #include <algorithm>
+#include <cstring>
 
 #if defined(BOOST_COBALT_NO_PMR)
 #include <boost/container/pmr/vector.hpp>
@@ -142,6 +143,8 @@ struct endpoint
   {
     BOOST_ASSERT(size <= sizeof(storage_));
     size_ = size;
+    // what's beyond the size isn't part of the address, e.g. it must not continue an unterminated path
+    std::memset(reinterpret_cast<char*>(&storage_) + size, 0, sizeof(storage_) - size);
   }
 
         void * data()       {return &storage_; }
-- 
2.43.0


From cdc46e43b6e342313cb54f7bcb4026f3843aa7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:07 +0000
Subject: [PATCH 47/53] fix: endpoint: reject addresses with an embedded null

---
 src/io/endpoint.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/endpoint.cpp b/src/io/endpoint.cpp
index d0075ca..1b76c16 100644
--- a/src/io/endpoint.cpp
+++ b/src/io/endpoint.cpp
@@ -6,6 +6,7 @@
 //
 
 #include <boost/cobalt/io/endpoint.hpp>
+#include <boost/asio/error.hpp>
 #include <boost/asio/ip/address.hpp>
 
 #include <cstddef>
@@ -83,6 +84,8 @@ std::size_t tag_invoke(make_endpoint_tag<AF_INET>,
 {
   if (address.size() > 15)
     BOOST_THROW_EXCEPTION(std::length_error("ipv4 address too long"));
+  if (address.find('\0') != std::string_view::npos)
+    BOOST_THROW_EXCEPTION(system::system_error(asio::error::invalid_argument));
   boost::static_string<16> addr{address.begin(), address.end()};
 
   auto a = asio::ip::make_address_v4(addr.c_str()).to_uint();
@@ -132,6 +135,8 @@ std::size_t tag_invoke(make_endpoint_tag<AF_INET6>,
 {
   if (address.size() > 45)
     BOOST_THROW_EXCEPTION(std::length_error("ipv6 address too long"));
+  if (address.find('\0') != std::string_view::npos)
+    BOOST_THROW_EXCEPTION(system::system_error(asio::error::invalid_argument));
 
   boost::static_string<46> addr{address.begin(), address.end()};
 
@@ -191,6 +196,8 @@ std::size_t tag_invoke(make_endpoint_tag<AF_UNSPEC>,
 {
   if (address.size() > 45)
     BOOST_THROW_EXCEPTION(std::length_error("unspecified address too long"));
+  if (address.find('\0') != std::string_view::npos)
+    BOOST_THROW_EXCEPTION(system::system_error(asio::error::invalid_argument));
 
   boost::static_string<46> addr{address.begin(), address.end()};
 
-- 
2.43.0


From f16c936822286194b460dc09ba1d22f54e47175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:29 +0000
Subject: [PATCH 48/53] fix: seq_packet_socket::receive without out flags
 ignored the in flags (asio took them for the out flags)

---
 include/boost/cobalt/io/seq_packet_socket.hpp | 1 +
 src/io/seq_packet_socket.cpp                  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/seq_packet_socket.hpp b/include/boost/cobalt/io/seq_packet_socket.hpp
index 84eb9dd..6b5b10a 100644
--- a/include/boost/cobalt/io/seq_packet_socket.hpp
+++ b/include/boost/cobalt/io/seq_packet_socket.hpp
@@ -55,6 +55,7 @@ struct BOOST_SYMBOL_VISIBLE seq_packet_socket final : socket
     ~receive_op() = default;
    private:
     asio::basic_seq_packet_socket<protocol_type, executor> & socket_;
+    message_flags ignored_out_flags_{};
   };
 
   [[nodiscard]] receive_op receive(message_flags in_flags, message_flags& out_flags, mutable_buffer_sequence buffer)
diff --git a/src/io/seq_packet_socket.cpp b/src/io/seq_packet_socket.cpp
index ef89de0..4f4a1d5 100644
--- a/src/io/seq_packet_socket.cpp
+++ b/src/io/seq_packet_socket.cpp
@@ -61,7 +61,7 @@ void seq_packet_socket::receive_op::initiate(boost::cobalt::completion_handler<s
     visit(buffer,
           [&](auto buf)
           {
-            socket_.async_receive(buf, in_flags, std::move(handler));
+            socket_.async_receive(buf, in_flags, ignored_out_flags_, std::move(handler));
           });
 }
 
-- 
2.43.0


From a5a63183bc337912e60184bd9a67ae0b9c3b7d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:25 +0000
Subject: [PATCH 49/53] fix: sleep: make it movable, so that it can be used
 with as_tuple, as_result, race etc.

---
 include/boost/cobalt/io/sleep.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/cobalt/io/sleep.hpp b/include/boost/cobalt/io/sleep.hpp
index 81988e4..2c6d297 100644
--- a/include/boost/cobalt/io/sleep.hpp
+++ b/include/boost/cobalt/io/sleep.hpp
@@ -28,6 +28,7 @@ struct BOOST_COBALT_IO_DECL steady_sleep final : op<system::error_code>
       h({});
   }
   void initiate(completion_handler<system::error_code> h) final override;
+  steady_sleep(steady_sleep && ) = default;
   ~steady_sleep() = default;
 
   std::optional< asio::basic_waitable_timer<std::chrono::steady_clock, asio::wait_traits<std::chrono::steady_clock>, executor> > timer_;
@@ -47,6 +48,7 @@ struct BOOST_COBALT_IO_DECL system_sleep final : op<system::error_code>
   }
 
   void initiate(completion_handler<system::error_code> h) final override;
+  system_sleep(system_sleep && ) = default;
   ~system_sleep() = default;
 
   std::optional<asio::basic_waitable_timer<std::chrono::system_clock, asio::wait_traits<std::chrono::system_clock>, executor> > timer_;
-- 
2.43.0


From 1a302c77668e52093df56446da98bb2a2e882030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:14 +0000
Subject: [PATCH 50/53] fix: sleep: a duration such as duration::max()
 overflowed the time_point

---
 src/io/sleep.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/io/sleep.cpp b/src/io/sleep.cpp
index e0110c2..a480781 100644
--- a/src/io/sleep.cpp
+++ b/src/io/sleep.cpp
@@ -10,11 +10,24 @@
 namespace boost::cobalt::detail::io
 {
 
+// a duration such as duration::max() must not overflow the time_point
+template<typename Clock>
+static typename Clock::time_point saturated_from_now(const typename Clock::duration & du)
+{
+  const auto now = Clock::now();
+  if (du > Clock::duration::zero() && (Clock::time_point::max)() - du < now)
+    return (Clock::time_point::max)();
+  else if (du < Clock::duration::zero() && (Clock::time_point::min)() - du > now)
+    return (Clock::time_point::min)();
+  else
+    return now + du;
+}
+
 steady_sleep::steady_sleep(const std::chrono::steady_clock::time_point & tp) : tp{tp} {}
-steady_sleep::steady_sleep(const std::chrono::steady_clock::duration & du)   : tp{std::chrono::steady_clock::now() + du} {}
+steady_sleep::steady_sleep(const std::chrono::steady_clock::duration & du)   : tp{saturated_from_now<std::chrono::steady_clock>(du)} {}
 
 system_sleep::system_sleep(const std::chrono::system_clock::time_point & tp) : tp{tp} {}
-system_sleep::system_sleep(const std::chrono::system_clock::duration & du)   : tp{std::chrono::system_clock::now() + du} {}
+system_sleep::system_sleep(const std::chrono::system_clock::duration & du)   : tp{saturated_from_now<std::chrono::system_clock>(du)} {}
 
 
 void steady_sleep::initiate(completion_handler<system::error_code> h)
-- 
2.43.0


From 202a25b7ef3e28cc54782c1058b6ff0d58565591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:41 +0000
Subject: [PATCH 51/53] fix: yield_context: await of something that completes
 immediately left a stray owner, which destroyed the running coroutine

---
 include/boost/cobalt/experimental/yield_context.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/experimental/yield_context.hpp b/include/boost/cobalt/experimental/yield_context.hpp
index 800f6a6..f0e7453 100644
--- a/include/boost/cobalt/experimental/yield_context.hpp
+++ b/include/boost/cobalt/experimental/yield_context.hpp
@@ -24,7 +24,7 @@ struct std::coroutine_handle<boost::asio::basic_yield_context<Executor>>
   constexpr bool done() const noexcept { return false; }
   void operator()() const noexcept {}
 
-  void resume() const noexcept {frame_->promiseresume();}
+  void resume() const noexcept {frame_->resume();}
   void destroy() const noexcept {frame_->destroy();}
 
   boost::asio::basic_yield_context<Executor> & promise() const noexcept { return frame_->promise; }
@@ -74,7 +74,7 @@ auto await(Aw && aw, boost::asio::basic_yield_context<Executor> ctx)
           else if constexpr (std::is_same_v<rt, bool>)
           {
             if (!std::forward<Aw>(aw).await_suspend(h))
-              ctx.spawned_thread_->resume();
+              fr.resume();
           }
           else
             std::forward<Aw>(aw).await_suspend(h).resume();
-- 
2.43.0


From 845cfda7d7874500211f24126c26ef42144b4a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:41 +0000
Subject: [PATCH 52/53] fix: context::yield did not return the value pushed
 into the generator

---
 include/boost/cobalt/experimental/context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/experimental/context.hpp b/include/boost/cobalt/experimental/context.hpp
index 5ae6aa4..05b1061 100644
--- a/include/boost/cobalt/experimental/context.hpp
+++ b/include/boost/cobalt/experimental/context.hpp
@@ -267,7 +267,7 @@ struct context
     requires requires (promise_type & pro, Yield && value) {{pro.yield_value(std::forward<Yield>(value))} -> awaitable_type<promise_type>;}
   auto yield(Yield && value)
   {
-    frame_->do_await(frame_->promise.yield_value(std::forward<Yield>(value)));
+    return frame_->do_await(frame_->promise.yield_value(std::forward<Yield>(value)));
   }
 
  private:
-- 
2.43.0


From 19229fba5a7fff55bacd4f71fd48a2ceaf9e4e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:42 +0000
Subject: [PATCH 53/53] fix: context: used the freed stack of a function that
 ended without being awaited, and destroyed the promise before the locals that
 use it

---
 include/boost/cobalt/experimental/context.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/experimental/context.hpp b/include/boost/cobalt/experimental/context.hpp
index 05b1061..71646cb 100644
--- a/include/boost/cobalt/experimental/context.hpp
+++ b/include/boost/cobalt/experimental/context.hpp
@@ -28,6 +28,7 @@ template<typename Promise>
 struct context_frame : frame<context_frame<Promise>,  Promise>
 {
   boost::context::fiber caller, callee;
+  bool entered = false;
 
   void (*after_resume)(context_frame *, void *) = nullptr;
   void * after_resume_p;
@@ -42,14 +43,19 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
 
   void resume()
   {
-    callee = std::move(callee).resume();
+    auto cl = std::move(callee).resume();
+    if (!cl) // the function returned, which freed the stack this frame is on
+      return;
+    callee = std::move(cl);
     if (auto af = std::exchange(after_resume, nullptr))
       af(this, after_resume_p);
   }
   void destroy()
   {
+    // the locals need to go before the promise, so it's the function that destroys the frame if it runs.
     auto c = std::exchange(callee, {});
-    this->~context_frame();
+    if (!entered)
+      this->~context_frame();
   }
 
   template<typename Awaitable>
@@ -319,8 +325,16 @@ auto make_context(Func && func, std::allocator_arg_t, StackAlloc  && salloc, Arg
 
     boost::context::fiber operator()(boost::context::fiber && f) const
     {
+      struct frame_guard
+      {
+        detail::context_frame<promise_type> * frame;
+        ~frame_guard() { frame->~context_frame(); }
+      };
+
+      frame_guard guard{frame};
       auto & promise = frame->promise;
       frame->caller = std::move(f);
+      frame->entered = true;
 
       try
       {
-- 
2.43.0

