From 1d176faaff9bff7dc0c77a60921fe8642eedb8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 01/58] fix: timed_lock with a special duration must not report
 ownership it did not acquire

---
 include/boost/thread/pthread/mutex.hpp           | 2 +-
 include/boost/thread/pthread/recursive_mutex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/pthread/mutex.hpp b/include/boost/thread/pthread/mutex.hpp
index 94a7388..a6262ba 100644
--- a/include/boost/thread/pthread/mutex.hpp
+++ b/include/boost/thread/pthread/mutex.hpp
@@ -142,7 +142,7 @@ namespace boost
             }
             if (relative_time.is_special())
             {
-                return true;
+                return try_lock();
             }
             detail::platform_duration d(relative_time);
 #if defined(BOOST_THREAD_HAS_MONO_CLOCK) && !defined(BOOST_THREAD_INTERNAL_CLOCK_IS_MONO)
diff --git a/include/boost/thread/pthread/recursive_mutex.hpp b/include/boost/thread/pthread/recursive_mutex.hpp
index 2aaf425..de4d981 100644
--- a/include/boost/thread/pthread/recursive_mutex.hpp
+++ b/include/boost/thread/pthread/recursive_mutex.hpp
@@ -248,7 +248,7 @@ namespace boost
             }
             if (relative_time.is_special())
             {
-                return true;
+                return try_lock();
             }
             detail::platform_duration d(relative_time);
 #if defined(BOOST_THREAD_HAS_MONO_CLOCK) && !defined(BOOST_THREAD_INTERNAL_CLOCK_IS_MONO)
-- 
2.43.0


From 3ec1edd13585fb2e1803f06db2bcc6aeaa21aaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 02/58] fix: shared_mutex: a timed shared to exclusive
 conversion must not overtake a pending upgrade

---
 include/boost/thread/pthread/shared_mutex.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index d4b8280..5791ebf 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -105,6 +105,11 @@ namespace boost
                 return shared_count==1;
             }
 
+            bool one_shared_no_upgrade () const
+            {
+                return shared_count==1 && ! upgrade;
+            }
+
             void lock_shared ()
             {
                 ++shared_count;
@@ -569,7 +574,7 @@ namespace boost
 #endif
           boost::unique_lock<boost::mutex> lk(state_change);
           state.assert_lock_shared();
-          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::one_shared, &state)))
+          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::one_shared_no_upgrade, &state)))
           {
               return false;
           }
-- 
2.43.0


From c3ba678477ea9c914d265bffe93389aeec5050bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 03/58] fix: shared_mutex: wake timed conversions when only one
 owner remains or upgrade ownership is released

---
 include/boost/thread/pthread/shared_mutex.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index 5791ebf..37a9748 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -266,6 +266,11 @@ namespace boost
                 }
                 release_waiters();
             }
+            else if (state.one_shared())
+            {
+                // the remaining owner may be waiting to convert its ownership to exclusive
+                shared_cond.notify_all();
+            }
         }
 
         void lock()
@@ -628,7 +633,7 @@ namespace boost
 #endif
           boost::unique_lock<boost::mutex> lk(state_change);
           state.assert_lock_shared();
-          if(!exclusive_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_upgrade, &state)))
+          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_upgrade, &state)))
           {
               return false;
           }
-- 
2.43.0


From 26ec6b4f78dc24e7b4ba34c69b1d3087453c0eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 04/58] fix: v2 shared_mutex: a timed-out writer lets in the
 threads it kept out and restores the current reader count

---
 include/boost/thread/v2/shared_mutex.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index 70ba47d..536ed26 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -307,6 +307,8 @@ namespace boost {
             &shared_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        // let in those who have been kept out by write_entered_
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -328,6 +330,8 @@ namespace boost {
             &shared_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        // let in those who have been kept out by write_entered_
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -685,6 +689,8 @@ namespace boost {
             &upgrade_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        // let in those who have been kept out by write_entered_
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -706,6 +712,8 @@ namespace boost {
             &upgrade_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        // let in those who have been kept out by write_entered_
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -908,9 +916,11 @@ namespace boost {
       if (!gate2_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_readers, this)))
       {
-        ++num_readers;
+        // other readers may have left while waiting
+        num_readers = (state_ & n_readers_) + 1;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= num_readers;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -1019,9 +1029,11 @@ namespace boost {
       if (!gate2_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_readers, this)))
       {
-        ++num_readers;
+        // other readers may have left while waiting
+        num_readers = (state_ & n_readers_) + 1;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= (upgradable_entered_ | num_readers);
+        gate1_.notify_all();
         return false;
       }
       return true;
-- 
2.43.0


From a1420401eb8f77d25b4fb5e6c517b7a309685f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 05/58] fix: perform at-thread-exit notifications in the
 exiting thread, when it ends

---
 src/pthread/thread.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 9deef7a..5d6a03d 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -48,14 +48,24 @@ namespace boost
     {
         thread_data_base::~thread_data_base()
         {
-            for (notify_list_t::iterator i = notify.begin(), e = notify.end();
+        }
+
+        // To be called by the thread itself, once its exit functions have run
+        // and its thread specific objects are gone.
+        static void run_at_thread_exit_notifications(thread_data_base& data)
+        {
+            thread_data_base::notify_list_t notify;
+            notify.swap(data.notify);
+            for (thread_data_base::notify_list_t::iterator i = notify.begin(), e = notify.end();
                     i != e; ++i)
             {
                 i->second->unlock();
                 i->first->notify_all();
             }
 //#ifndef BOOST_NO_EXCEPTIONS
-            for (async_states_t::iterator i = async_states_.begin(), e = async_states_.end();
+            thread_data_base::async_states_t async_states;
+            async_states.swap(data.async_states_);
+            for (thread_data_base::async_states_t::iterator i = async_states.begin(), e = async_states.end();
                     i != e; ++i)
             {
                 (*i)->notify_deferred();
@@ -92,7 +102,8 @@ namespace boost
 
                     if(thread_info)
                     {
-                        while(!thread_info->tss_data.empty() || thread_info->thread_exit_callbacks)
+                        while(!thread_info->tss_data.empty() || thread_info->thread_exit_callbacks
+                            || !thread_info->notify.empty() || !thread_info->async_states_.empty())
                         {
 
                             while(thread_info->thread_exit_callbacks)
@@ -116,6 +127,10 @@ namespace boost
                                 }
                                 thread_info->tss_data.erase(current);
                             }
+                            if (!thread_info->thread_exit_callbacks)
+                            {
+                                run_at_thread_exit_notifications(*thread_info);
+                            }
                         }
                         thread_info->self.reset();
                     }
-- 
2.43.0


From b1ce4498bd2c7c2eb8f92b15fbbaa9345bd4c1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 06/58] fix: at-thread-exit notifications also in threads the
 library did not start

---
 src/pthread/thread.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 5d6a03d..a25c35b 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -239,8 +239,6 @@ namespace boost
             }
             void run()
             {}
-            void notify_all_at_thread_exit(condition_variable*, mutex*)
-            {}
 
         private:
             externally_launched_thread(externally_launched_thread&);
@@ -804,11 +802,9 @@ namespace boost
 
     BOOST_THREAD_DECL void notify_all_at_thread_exit(condition_variable& cond, unique_lock<mutex> lk)
     {
-        detail::thread_data_base* const current_thread_data(detail::get_current_thread_data());
-        if(current_thread_data)
-        {
-            current_thread_data->notify_all_at_thread_exit(&cond, lk.release());
-        }
+        detail::thread_data_base* const current_thread_data(detail::get_or_make_current_thread_data());
+        current_thread_data->notify_all_at_thread_exit(&cond, lk.mutex());
+        lk.release();
     }
 
 //#ifndef BOOST_NO_EXCEPTIONS
@@ -816,11 +812,8 @@ namespace detail
 {
     void BOOST_THREAD_DECL make_ready_at_thread_exit(shared_ptr<shared_state_base> as)
     {
-        detail::thread_data_base* const current_thread_data(detail::get_current_thread_data());
-        if(current_thread_data)
-        {
-            current_thread_data->make_ready_at_thread_exit(as);
-        }
+        detail::thread_data_base* const current_thread_data(detail::get_or_make_current_thread_data());
+        current_thread_data->make_ready_at_thread_exit(as);
     }
 }
 //#endif
-- 
2.43.0


From 1b0075fca2efb7b1e71e48363094b0aa98fd9cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 07/58] fix: v2 shared_mutex operations are no interruption
 points

---
 include/boost/thread/v2/shared_mutex.hpp | 60 ++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index 536ed26..ff2a19c 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -153,6 +153,9 @@ public:
 #include <boost/thread/mutex.hpp>
 #include <boost/thread/condition_variable.hpp>
 #include <boost/thread/mutex.hpp>
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+#include <boost/thread/detail/thread_interruption.hpp>
+#endif
 #ifdef BOOST_THREAD_USES_CHRONO
 #include <boost/chrono.hpp>
 #endif
@@ -274,6 +277,9 @@ namespace boost {
 
     inline void shared_mutex::lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&shared_mutex::no_writer, this));
       state_ |= write_entered_;
@@ -296,6 +302,9 @@ namespace boost {
     bool shared_mutex::try_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &shared_mutex::no_writer, this)))
@@ -319,6 +328,9 @@ namespace boost {
     template<typename T>
     bool shared_mutex::timed_lock(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &shared_mutex::no_writer, this)))
@@ -353,6 +365,9 @@ namespace boost {
 
     inline void shared_mutex::lock_shared()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&shared_mutex::no_writer_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -378,6 +393,9 @@ namespace boost {
     bool shared_mutex::try_lock_shared_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &shared_mutex::no_writer_no_max_readers, this)))
@@ -395,6 +413,9 @@ namespace boost {
     template<typename T>
     bool shared_mutex::timed_lock_shared(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &shared_mutex::no_writer_no_max_readers, this)))
@@ -656,6 +677,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_upgrader, this));
       state_ |= write_entered_;
@@ -678,6 +702,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader, this)))
@@ -701,6 +728,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader, this)))
@@ -736,6 +766,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock_shared()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -761,6 +794,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_shared_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_max_readers, this)))
@@ -778,6 +814,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock_shared(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_max_readers, this)))
@@ -814,6 +853,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock_upgrade()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_upgrader_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -839,6 +881,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_upgrade_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader_no_max_readers, this)))
@@ -856,6 +901,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock_upgrade(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader_no_max_readers, this)))
@@ -903,6 +951,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_shared_and_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(one_or_more_readers());
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
@@ -960,6 +1011,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_shared_and_lock_upgrade_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(one_or_more_readers());
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
@@ -990,6 +1044,9 @@ namespace boost {
 
     inline void upgrade_mutex::unlock_upgrade_and_lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(no_writer());
       BOOST_ASSERT(one_upgrader());
@@ -1019,6 +1076,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_upgrade_and_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(no_writer());
       BOOST_ASSERT(one_upgrader());
-- 
2.43.0


From e07cfb9f2779119fdc66d2babab5f3d99c9648c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:54 +0000
Subject: [PATCH 08/58] fix: thread specific cleanups may use the pointer they
 clean up

---
 src/pthread/thread.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index a25c35b..766191e 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -119,13 +119,15 @@ namespace boost
                             }
                             while (!thread_info->tss_data.empty())
                             {
+                                // The cleanup function may use the pointer again, so the node must be gone by then.
                                 std::map<void const*,detail::tss_data_node>::iterator current
                                     = thread_info->tss_data.begin();
-                                if(current->second.func && (current->second.value!=0))
+                                tss_data_node const node(current->second);
+                                thread_info->tss_data.erase(current);
+                                if(node.func && (node.value!=0))
                                 {
-                                    (*current->second.caller)(current->second.func,current->second.value);
+                                    (*node.caller)(node.func,node.value);
                                 }
-                                thread_info->tss_data.erase(current);
                             }
                             if (!thread_info->thread_exit_callbacks)
                             {
@@ -778,10 +780,8 @@ namespace boost
         {
             if(tss_data_node* const current_node=find_tss_data(key))
             {
-                if(cleanup_existing && current_node->func && (current_node->value!=0))
-                {
-                    (*current_node->caller)(current_node->func,current_node->value);
-                }
+                // The cleanup function may use the pointer again, so the old value is replaced first.
+                tss_data_node const old_node(*current_node);
                 if(func || (tss_data!=0))
                 {
                     current_node->caller=caller;
@@ -792,6 +792,10 @@ namespace boost
                 {
                     erase_tss_node(key);
                 }
+                if(cleanup_existing && old_node.func && (old_node.value!=0))
+                {
+                    (*old_node.caller)(old_node.func,old_node.value);
+                }
             }
             else if(func || (tss_data!=0))
             {
-- 
2.43.0


From 5a4401cad2b9bde8be371a28d53927115ecedbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:27 +0000
Subject: [PATCH 09/58] fix: a second deferred result is refused

set_value_deferred, set_exception_deferred and the *_at_thread_exit forms
built on them checked for a ready value only, so that a result already
deferred, or an exception already set, was overwritten.
---
 include/boost/thread/future.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 154114a..60ac657 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -464,7 +464,7 @@ namespace boost
             void set_exception_deferred(exception_ptr e)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (has_value(lk))
+              if (has_result(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -495,6 +495,12 @@ namespace boost
                 return done && ! exception;
             }
 
+            // true if a value or an exception has been stored, even if its notification is deferred
+            bool has_result(unique_lock<boost::mutex>& )  const
+            {
+                return done || is_constructed;
+            }
+
             bool has_exception()  const
             {
                 boost::lock_guard<boost::mutex> lock(this->mutex);
@@ -669,7 +675,7 @@ namespace boost
             void set_value_deferred(source_reference_type result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->has_result(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -684,7 +690,7 @@ namespace boost
             void set_value_deferred(rvalue_source_type result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->has_result(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -810,7 +816,7 @@ namespace boost
             void set_value_deferred(T& result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->has_result(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -885,7 +891,7 @@ namespace boost
             void set_value_deferred()
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->has_result(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
-- 
2.43.0


From 88bbeb255a5587dd4e0f16cf669d093699a57fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 10/58] fix: setting a result through a promise without state
 throws

set_value, emplace and set_exception dereferenced the null shared state of a
moved-from promise when BOOST_THREAD_PROVIDES_PROMISE_LAZY is not defined;
the other members already throw promise_moved.
---
 include/boost/thread/future.hpp | 36 +++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 60ac657..6276250 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2380,6 +2380,10 @@ namespace boost
             set_value(TR const &  r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2391,6 +2395,10 @@ namespace boost
         void set_value(source_reference_type r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2403,6 +2411,10 @@ namespace boost
         void set_value(rvalue_source_type r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2458,6 +2470,10 @@ namespace boost
         void emplace(BOOST_THREAD_FWD_REF(Args) ...args)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2471,6 +2487,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2656,6 +2676,10 @@ namespace boost
         void set_value(R& r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2675,6 +2699,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2841,6 +2869,10 @@ namespace boost
         void set_value()
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
@@ -2861,6 +2893,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done)
             {
-- 
2.43.0


From 6d56d42ae53d57241e1188e6d92ca4ad90937e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 11/58] fix: promise move assignment breaks the promise it
 overwrites

The state of the assigned-to promise was dropped without a result, so that
its future waited forever.
---
 include/boost/thread/future.hpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 6276250..892c875 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2333,10 +2333,13 @@ namespace boost
         }
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            // the result this promise was associated with is abandoned
+#if ! defined  BOOST_NO_CXX11_RVALUE_REFERENCES
+            promise temp(boost::move(rhs));
+#else
+            promise temp(static_cast<BOOST_THREAD_RV_REF(promise)>(rhs));
+#endif
+            swap(temp);
             return *this;
         }
 
@@ -2644,10 +2647,13 @@ namespace boost
         }
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            // the result this promise was associated with is abandoned
+#if ! defined  BOOST_NO_CXX11_RVALUE_REFERENCES
+            promise temp(boost::move(rhs));
+#else
+            promise temp(static_cast<BOOST_THREAD_RV_REF(promise)>(rhs));
+#endif
+            swap(temp);
             return *this;
         }
 
@@ -2835,10 +2841,13 @@ namespace boost
 
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            // the result this promise was associated with is abandoned
+#if ! defined  BOOST_NO_CXX11_RVALUE_REFERENCES
+            promise temp(boost::move(rhs));
+#else
+            promise temp(static_cast<BOOST_THREAD_RV_REF(promise)>(rhs));
+#endif
+            swap(temp);
             return *this;
         }
 
-- 
2.43.0


From 19313be004fa4446d11e24c2c3ace1102521dbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 12/58] fix: promise<R&>::set_value_deferred without state
 throws promise_moved

As every other member, and every other specialisation, does.
---
 include/boost/thread/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 892c875..b375563 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2698,7 +2698,7 @@ namespace boost
             lazy_init();
             if (future_.get()==0)
             {
-                boost::throw_exception(promise_already_satisfied());
+                boost::throw_exception(promise_moved());
             }
             future_->set_value_deferred(r);
         }
-- 
2.43.0


From ead8440537fdf650a9dc663319bfa4066bf1080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 13/58] fix: shared_future::get_or returns the alternative on
 an exception

It waited with rethrow, and threw the stored exception instead.
---
 include/boost/thread/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index b375563..9e4b41d 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2239,7 +2239,7 @@ namespace boost
             {
                 boost::throw_exception(future_uninitialized());
             }
-            this->future_->wait();
+            this->future_->wait(false);
             if (this->future_->has_value()) return this->future_->get_sh();
             else return boost::move(v);
         }
-- 
2.43.0


From 581f9f1cfe40192e15f5e14b0fb78ff65c2898ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 14/58] fix: an interrupted future::get leaves the future valid

With BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET the future was
invalidated before waiting, so that a get left by thread_interrupted lost
the result.  get_or already waits first.
---
 include/boost/thread/future.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 9e4b41d..bf8a51c 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1805,6 +1805,8 @@ namespace boost
                 boost::throw_exception(future_uninitialized());
             }
 #ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
+            // an interrupted wait leaves the future valid
+            this->future_->wait(lk, false);
             this->future_->invalidate(lk);
 #endif
             return this->future_->get(lk);
@@ -2066,6 +2068,8 @@ namespace boost
                     boost::throw_exception(future_uninitialized());
                 }
     #ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
+                // an interrupted wait leaves the future valid
+                this->future_->wait(lk, false);
                 this->future_->invalidate(lk);
     #endif
                 return this->future_->get(lk);
-- 
2.43.0


From ce99abd462d6920357e5d08d14aa1f3bb8c8af6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 15/58] fix: packaged_task::reset starts with a fresh shared
 state

---
 include/boost/thread/future.hpp | 49 +++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index bf8a51c..a6ffd4a 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -3022,13 +3022,8 @@ namespace boost
                 started(false)
             {}
 
-            void reset()
-            {
-              // todo The packaged_task::reset must be as if an assignemnt froma new packaged_task with the same function
-              // the reset function is an optimization that avoids reallocating a new task.
-              started=false;
-              this->validate();
-            }
+            // a task with the same function and a shared state of its own
+            virtual task_base_shared_state* renew()=0;
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             virtual void do_run(BOOST_THREAD_RV_REF(ArgTypes) ... args)=0;
             void run(BOOST_THREAD_RV_REF(ArgTypes) ... args)
@@ -3120,6 +3115,11 @@ namespace boost
               return boost::move(f);
             }
 
+            task_shared_state* renew()
+            {
+              return new task_shared_state(boost::move(f));
+            }
+
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
             {
@@ -3200,6 +3200,11 @@ namespace boost
               return f;
             }
 
+            task_shared_state* renew()
+            {
+              return new task_shared_state(boost::move(f));
+            }
+
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
             {
@@ -3280,6 +3285,11 @@ namespace boost
                   return f;
                 }
 
+                task_shared_state* renew()
+                {
+                  return new task_shared_state(boost::move(f));
+                }
+
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
                 void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
                 {
@@ -3359,6 +3369,11 @@ namespace boost
                   return boost::move(f);
                 }
 
+                task_shared_state* renew()
+                {
+                  return new task_shared_state(boost::move(f));
+                }
+
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
                 void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
                 {
@@ -3434,6 +3449,11 @@ namespace boost
             {
               return boost::move(f);
             }
+
+            task_shared_state* renew()
+            {
+              return new task_shared_state(boost::move(f));
+            }
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
             {
@@ -3509,6 +3529,11 @@ namespace boost
             {
               return f;
             }
+
+            task_shared_state* renew()
+            {
+              return new task_shared_state(boost::move(f));
+            }
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
             {
@@ -3802,7 +3827,15 @@ namespace boost
 
             // As if *this = packaged_task(task->callable());
 
-            task->reset();
+            task_ptr fresh(task->renew());
+            {
+                boost::lock_guard<boost::mutex> lk(task->mutex);
+                fresh->callback=task->callback;
+                fresh->policy_=task->policy_;
+                fresh->ex_=task->ex_;
+            }
+            task->owner_destroyed();
+            task.swap(fresh);
             future_obtained=false;
         }
 
-- 
2.43.0


From d1ac92df0838d0c7e226c2f8985af822ece5509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 16/58] fix: a deferred function returning a reference runs
 without the lock of its state

---
 include/boost/thread/future.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index a6ffd4a..6198b06 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1087,7 +1087,11 @@ namespace boost
           virtual void execute(boost::unique_lock<boost::mutex>& lck) {
             try
             {
-              this->mark_finished_with_result_internal(func_(), lck);
+              Fp local_fuct=boost::move(func_);
+              relocker relock(lck);
+              Rp& res = local_fuct();
+              relock.lock();
+              this->mark_finished_with_result_internal(res, lck);
             }
             catch (...)
             {
-- 
2.43.0


From 09ade27396f766c23686cdee53b1e30f92f8d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 17/58] fix: async reports a failure to start its thread
 instead of waiting for ever

---
 include/boost/thread/future.hpp | 39 ++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 6198b06..f2bf443 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -973,11 +973,20 @@ namespace boost
 
           void init(BOOST_THREAD_FWD_REF(Fp) f)
           {
+            try
+            {
 #ifdef BOOST_THREAD_FUTURE_BLOCKING
-            this->thr_ = boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::forward<Fp>(f));
+              this->thr_ = boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::forward<Fp>(f));
 #else
-            boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::forward<Fp>(f)).detach();
+              boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::forward<Fp>(f)).detach();
 #endif
+            }
+            catch(...)
+            {
+              // nobody else would make it ready, and the destructor waits for that
+              this->mark_exceptional_finish();
+              throw;
+            }
           }
 
           static void run(shared_ptr<future_async_shared_state> that, BOOST_THREAD_FWD_REF(Fp) f)
@@ -998,11 +1007,20 @@ namespace boost
         {
           void init(BOOST_THREAD_FWD_REF(Fp) f)
           {
+            try
+            {
 #ifdef BOOST_THREAD_FUTURE_BLOCKING
-            this->thr_ = boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::move(f));
+              this->thr_ = boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::move(f));
 #else
-            boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::move(f)).detach();
+              boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::move(f)).detach();
 #endif
+            }
+            catch(...)
+            {
+              // nobody else would make it ready, and the destructor waits for that
+              this->mark_exceptional_finish();
+              throw;
+            }
           }
 
           static void run(shared_ptr<future_async_shared_state> that, BOOST_THREAD_FWD_REF(Fp) f)
@@ -1024,11 +1042,20 @@ namespace boost
         {
           void init(BOOST_THREAD_FWD_REF(Fp) f)
           {
+            try
+            {
 #ifdef BOOST_THREAD_FUTURE_BLOCKING
-            this->thr_ = boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::move(f));
+              this->thr_ = boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::move(f));
 #else
-            boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::move(f)).detach();
+              boost::thread(&future_async_shared_state::run, static_shared_from_this(this), boost::move(f)).detach();
 #endif
+            }
+            catch(...)
+            {
+              // nobody else would make it ready, and the destructor waits for that
+              this->mark_exceptional_finish();
+              throw;
+            }
           }
 
           static void run(shared_ptr<future_async_shared_state> that, BOOST_THREAD_FWD_REF(Fp) f)
-- 
2.43.0


From 647be137c0ca0f01c80df5e56f855543fc0c4c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:41 +0000
Subject: [PATCH 18/58] fix: a destroyed thread pool runs the closures it
 accepted

---
 include/boost/thread/executors/basic_thread_pool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index ef40ea0..93dcfbd 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -98,7 +98,8 @@ namespace executors
           }
           catch (boost::thread_interrupted&)
           {
-            return;
+            // once closed, the accepted closures are run before the worker ends
+            if (! work_queue.closed()) return;
           }
         }
       }
-- 
2.43.0


From a02ff70c84a1e18616471ccee03fdeaba0626e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 19/58] fix: a continuation that cannot be launched reports it
 in its own future

A failure to start the thread, or a closed executor, escaped from set_value, or replaced the
antecedent's outcome, and the other continuations were lost.
---
 include/boost/thread/future.hpp | 44 +++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index f2bf443..1a0615d 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4730,12 +4730,18 @@ namespace detail
     {    }
 
     void launch_continuation() {
+      try {
 #if defined BOOST_THREAD_FUTURE_BLOCKING
-      boost::lock_guard<boost::mutex> lk(this->mutex);
-      this->thr_ = boost::thread(&future_async_continuation_shared_state::run, static_shared_from_this(this));
+        boost::lock_guard<boost::mutex> lk(this->mutex);
+        this->thr_ = boost::thread(&future_async_continuation_shared_state::run, static_shared_from_this(this));
 #else
-      boost::thread(&base_type::run, static_shared_from_this(this)).detach();
+        boost::thread(&base_type::run, static_shared_from_this(this)).detach();
 #endif
+      } catch(...) {
+        this->mark_exceptional_finish();
+        // make sure parent is really cleared to prevent memory "leaks"
+        this->parent = F();
+      }
     }
   };
 
@@ -4827,8 +4833,14 @@ namespace detail {
     }
 
     void launch_continuation() {
-      run_it<base_type> fct(static_shared_from_this(this));
-      this->get_executor()->submit(boost::move(fct));
+      try {
+        run_it<base_type> fct(static_shared_from_this(this));
+        this->get_executor()->submit(boost::move(fct));
+      } catch(...) {
+        this->mark_exceptional_finish();
+        // make sure parent is really cleared to prevent memory "leaks"
+        this->parent = F();
+      }
     }
 
     ~future_executor_continuation_shared_state() {}
@@ -4851,12 +4863,18 @@ namespace detail {
     }
 
     void launch_continuation() {
+      try {
 #if defined BOOST_THREAD_FUTURE_BLOCKING
-      boost::lock_guard<boost::mutex> lk(this->mutex);
-      this->thr_ = boost::thread(&base_type::run, static_shared_from_this(this));
+        boost::lock_guard<boost::mutex> lk(this->mutex);
+        this->thr_ = boost::thread(&base_type::run, static_shared_from_this(this));
 #else
-      boost::thread(&base_type::run, static_shared_from_this(this)).detach();
+        boost::thread(&base_type::run, static_shared_from_this(this)).detach();
 #endif
+      } catch(...) {
+        this->mark_exceptional_finish();
+        // make sure parent is really cleared to prevent memory "leaks"
+        this->parent = F();
+      }
     }
   };
 
@@ -4906,8 +4924,14 @@ namespace detail {
     }
 
     void launch_continuation() {
-      run_it<base_type> fct(static_shared_from_this(this));
-      this->get_executor()->submit(boost::move(fct));
+      try {
+        run_it<base_type> fct(static_shared_from_this(this));
+        this->get_executor()->submit(boost::move(fct));
+      } catch(...) {
+        this->mark_exceptional_finish();
+        // make sure parent is really cleared to prevent memory "leaks"
+        this->parent = F();
+      }
     }
 
     ~shared_future_executor_continuation_shared_state() {}
-- 
2.43.0


From 6182ba93173905fe1238a27d6061ca6663e38d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 20/58] fix: a deferred continuation is not kept alive by its
 never executed antecedent

---
 include/boost/thread/future.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 1a0615d..dd4b8d3 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4952,6 +4952,10 @@ namespace detail {
       this->set_deferred();
     }
 
+    // a deferred continuation is executed on demand: the parent does not launch it,
+    // and keeping a reference to it would make a cycle
+    void init(boost::unique_lock<boost::mutex>&) {}
+
     virtual void execute(boost::unique_lock<boost::mutex>& lk) {
       this->parent.wait();
       this->call(lk);
@@ -4975,6 +4979,10 @@ namespace detail {
       this->set_deferred();
     }
 
+    // a deferred continuation is executed on demand: the parent does not launch it,
+    // and keeping a reference to it would make a cycle
+    void init(boost::unique_lock<boost::mutex>&) {}
+
     virtual void execute(boost::unique_lock<boost::mutex>& lk) {
       this->parent.wait();
       this->call(lk);
-- 
2.43.0


From cf2098d486db66ddd586e0247a14838ab8e818c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 21/58] fix: an inherited executor outlives the future it was
 inherited from

---
 include/boost/thread/future.hpp | 38 ++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index dd4b8d3..15ca017 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4832,6 +4832,13 @@ namespace detail {
       this->base_type::init(lk);
     }
 
+    // an inherited executor is shared with the parent, which it can outlive
+    void init(boost::unique_lock<boost::mutex> &lk, executor_ptr_type& ex)
+    {
+      this->set_executor_policy(ex, lk);
+      this->base_type::init(lk);
+    }
+
     void launch_continuation() {
       try {
         run_it<base_type> fct(static_shared_from_this(this));
@@ -4923,6 +4930,13 @@ namespace detail {
       this->base_type::init(lk);
     }
 
+    // an inherited executor is shared with the parent, which it can outlive
+    void init(boost::unique_lock<boost::mutex> &lk, executor_ptr_type& ex)
+    {
+      this->set_executor_policy(ex, lk);
+      this->base_type::init(lk);
+    }
+
     void launch_continuation() {
       try {
         run_it<base_type> fct(static_shared_from_this(this));
@@ -5150,8 +5164,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
     } else if (underlying_cast<int>(policy) & int(launch::executor)) {
       assert(this->future_->get_executor());
-      typedef executor Ex;
-      Ex& ex = *(this->future_->get_executor());
+      typedef executor_ptr_type Ex;
+      Ex ex = this->future_->get_executor();
       return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                     lock, boost::move(*this), boost::forward<F>(func)
                 )));
@@ -5174,8 +5188,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
         } else if (underlying_cast<int>(policy_) & int(launch::executor)) {
           assert(this->future_->get_executor());
-          typedef executor Ex;
-          Ex& ex = *(this->future_->get_executor());
+          typedef executor_ptr_type Ex;
+          Ex ex = this->future_->get_executor();
           return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                         lock, boost::move(*this), boost::forward<F>(func)
                     )));
@@ -5276,8 +5290,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
     } else if (underlying_cast<int>(policy) & int(launch::executor)) {
       assert(this->future_->get_executor());
-      typedef executor Ex;
-      Ex& ex = *(this->future_->get_executor());
+      typedef executor_ptr_type Ex;
+      Ex ex = this->future_->get_executor();
       return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                     lock, boost::move(*this), boost::forward<F>(func)
                 )));
@@ -5300,8 +5314,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
         } else if (underlying_cast<int>(policy_) & int(launch::executor)) {
           assert(this->future_->get_executor());
-          typedef executor Ex;
-          Ex& ex = *(this->future_->get_executor());
+          typedef executor_ptr_type Ex;
+          Ex ex = this->future_->get_executor();
           return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                         lock, boost::move(*this), boost::forward<F>(func)
                     )));
@@ -5402,8 +5416,8 @@ namespace detail {
               )));
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
     } else if (underlying_cast<int>(policy) & int(launch::executor)) {
-      typedef executor Ex;
-      Ex& ex = *(this->future_->get_executor());
+      typedef executor_ptr_type Ex;
+      Ex ex = this->future_->get_executor();
       return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_shared_future_executor_continuation_shared_state<Ex, shared_future<R>, future_type>(ex,
                     lock, *this, boost::forward<F>(func)
                 )));
@@ -5425,8 +5439,8 @@ namespace detail {
                   )));
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
         } else if (underlying_cast<int>(policy_) & int(launch::executor)) {
-          typedef executor Ex;
-          Ex& ex = *(this->future_->get_executor());
+          typedef executor_ptr_type Ex;
+          Ex ex = this->future_->get_executor();
           return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_shared_future_executor_continuation_shared_state<Ex, shared_future<R>, future_type>(ex,
                         lock, *this, boost::forward<F>(func)
                     )));
-- 
2.43.0


From 316f5d59f822e43935ac3874c318270d9cb56ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:31 +0000
Subject: [PATCH 22/58] fix: make_shared_future() returns a ready future

---
 include/boost/thread/future.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 15ca017..d222aba 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4584,6 +4584,7 @@ namespace detail {
 
   inline shared_future<void> make_shared_future()  {
     promise<void> p;
+    p.set_value();
     return BOOST_THREAD_MAKE_RV_REF(p.get_future().share());
   }
 
-- 
2.43.0


From 9c7abbaa2002ed867b9e27086912e53035015032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:31 +0000
Subject: [PATCH 23/58] fix: unwrap reports an inner future that is not valid
 as broken_promise, as documented

---
 include/boost/thread/future.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index d222aba..d08f98e 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -5589,7 +5589,7 @@ namespace detail
             boost::unique_lock<boost::mutex> lk2(unwrapped.future_->mutex);
             unwrapped.future_->set_continuation_ptr(this->shared_from_this(), lk2);
           } else {
-            this->mark_exceptional_finish_internal(boost::copy_exception(future_uninitialized()), lk);
+            this->mark_exceptional_finish_internal(boost::copy_exception(broken_promise()), lk);
           }
         }
       } else {
@@ -5629,7 +5629,7 @@ namespace detail
             boost::unique_lock<boost::mutex> lk2(unwrapped.future_->mutex);
             unwrapped.future_->set_continuation_ptr(this->shared_from_this(), lk2);
           } else {
-            this->mark_exceptional_finish_internal(boost::copy_exception(future_uninitialized()), lk);
+            this->mark_exceptional_finish_internal(boost::copy_exception(broken_promise()), lk);
           }
         }
       } else {
-- 
2.43.0


From 42a72553d11d7190647c0f289c35f40f0967d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:31 +0000
Subject: [PATCH 24/58] fix: fallback_to does not move from an lvalue

---
 include/boost/thread/future.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index d08f98e..350ff94 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -71,6 +71,7 @@ struct shared_state_base {
 #include <boost/type_traits/decay.hpp>
 #include <boost/type_traits/is_copy_constructible.hpp>
 #include <boost/type_traits/is_fundamental.hpp>
+#include <boost/type_traits/is_lvalue_reference.hpp>
 #include <boost/type_traits/is_void.hpp>
 #include <boost/utility/result_of.hpp>
 
@@ -1909,7 +1910,7 @@ namespace boost
   #endif
 
         template <typename R2>
-        inline typename boost::disable_if< is_void<R2>, BOOST_THREAD_FUTURE<R> >::type
+        inline typename boost::disable_if_c<is_void<R2>::value || is_lvalue_reference<R2>::value, BOOST_THREAD_FUTURE<R> >::type
         fallback_to(BOOST_THREAD_RV_REF(R2) v);  // EXTENSION
         template <typename R2>
         inline typename boost::disable_if< is_void<R2>, BOOST_THREAD_FUTURE<R> >::type
@@ -5542,7 +5543,7 @@ namespace detail
 
   template <typename R>
   template <typename R2>
-  inline typename boost::disable_if< is_void<R2>, BOOST_THREAD_FUTURE<R> >::type
+  inline typename boost::disable_if_c<is_void<R2>::value || is_lvalue_reference<R2>::value, BOOST_THREAD_FUTURE<R> >::type
   BOOST_THREAD_FUTURE<R>::fallback_to(BOOST_THREAD_RV_REF(R2) v) {
     return then(detail::mfallbacker_to<R>(boost::move(v)));
   }
-- 
2.43.0


From fc67f4fe00d807f9deaf8d967429c29c90fa09d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 25/58] fix: wait_for_any locks the futures without deadlock

Two waiters naming the same futures in different orders deadlocked, and so did one naming the same
shared state twice.
---
 include/boost/thread/future.hpp               | 15 ++++++++++++---
 include/boost/thread/futures/wait_for_any.hpp | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 350ff94..6212fc1 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1184,12 +1184,21 @@ namespace boost
                    boost::scoped_array<boost::unique_lock<boost::mutex> > locks;
 
                 all_futures_lock(std::vector<registered_waiter>& futures):
-                    count(futures.size()),locks(new boost::unique_lock<boost::mutex>[count])
+                    count(0),locks(new boost::unique_lock<boost::mutex>[futures.size()])
                 {
-                    for(count_type_portable i=0;i<count;++i)
+                    const count_type_portable size=futures.size();
+                    for(count_type_portable i=0;i<size;++i)
                     {
-                        locks[i]=BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(futures[i].future_->mutex));
+                        // lock the mutex of a shared state only once
+                        count_type_portable j=0;
+                        while(futures[j].future_!=futures[i].future_) ++j;
+                        if(j==i)
+                        {
+                            locks[count++]=BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(futures[i].future_->mutex,boost::defer_lock));
+                        }
                     }
+                    // another waiter may lock the same mutexes in another order
+                    lock();
                 }
 
                 void lock()
diff --git a/include/boost/thread/futures/wait_for_any.hpp b/include/boost/thread/futures/wait_for_any.hpp
index 3f5d7b0..7f3a9e8 100644
--- a/include/boost/thread/futures/wait_for_any.hpp
+++ b/include/boost/thread/futures/wait_for_any.hpp
@@ -58,12 +58,21 @@ namespace boost
         boost::scoped_array<boost::unique_lock<boost::mutex> > locks;
 
         all_futures_lock(std::vector<registered_waiter>& waiters) :
-          count(waiters.size()), locks(new boost::unique_lock<boost::mutex>[count])
+          count(0), locks(new boost::unique_lock<boost::mutex>[waiters.size()])
         {
-          for (count_type_portable i = 0; i < count; ++i)
+          const count_type_portable size = waiters.size();
+          for (count_type_portable i = 0; i < size; ++i)
           {
-            locks[i] = BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(waiters[i].future_->mutex()));
+            // lock the mutex of a shared state only once
+            count_type_portable j = 0;
+            while (&waiters[j].future_->mutex() != &waiters[i].future_->mutex()) ++j;
+            if (j == i)
+            {
+              locks[count++] = BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(waiters[i].future_->mutex(), boost::defer_lock));
+            }
           }
+          // another waiter may lock the same mutexes in another order
+          lock();
         }
 
         void lock()
-- 
2.43.0


From e02d8dfca3d4c55f8bb680f213a788f960519209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 26/58] fix: wait_for_any counts the futures without state
 before the one it found

---
 include/boost/thread/futures/wait_for_any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/futures/wait_for_any.hpp b/include/boost/thread/futures/wait_for_any.hpp
index 7f3a9e8..37f244c 100644
--- a/include/boost/thread/futures/wait_for_any.hpp
+++ b/include/boost/thread/futures/wait_for_any.hpp
@@ -114,8 +114,8 @@ namespace boost
             f.future_->unnotify_when_ready(waiter.handle);
             throw;
           }
-          ++future_count;
         }
+        ++future_count;
       }
 
 #ifndef BOOST_NO_CXX11_VARIADIC_TEMPLATES
-- 
2.43.0


From eabb3c50db24e2ef49269c7ad24db76004a9102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 27/58] fix: when_all and when_any over a range leave the input
 shared_futures valid

---
 include/boost/thread/future.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 6212fc1..be5a89d 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -5694,6 +5694,18 @@ namespace detail
   BOOST_CONSTEXPR_OR_CONST input_iterator_tag input_iterator_tag_value = {};
   BOOST_CONSTEXPR_OR_CONST vector_tag vector_tag_value = {};
   BOOST_CONSTEXPR_OR_CONST values_tag values_tag_value = {};
+
+  // the input futures are moved, the input shared_futures copied
+  template <typename F>
+  struct when_input_iterator {
+    template <typename InputIterator>
+    static std::move_iterator<InputIterator> make(InputIterator it) { return std::make_move_iterator(it); }
+  };
+  template <typename R>
+  struct when_input_iterator<shared_future<R> > {
+    template <typename InputIterator>
+    static InputIterator make(InputIterator it) { return it; }
+  };
   ////////////////////////////////
   // detail::future_async_when_all_shared_state
   ////////////////////////////////
@@ -5740,7 +5752,7 @@ namespace detail
   public:
     template< typename InputIterator>
     future_when_all_vector_shared_state(input_iterator_tag, InputIterator first, InputIterator last)
-    : vec_(std::make_move_iterator(first), std::make_move_iterator(last))
+    : vec_(when_input_iterator<F>::make(first), when_input_iterator<F>::make(last))
     {
     }
 
@@ -5811,7 +5823,7 @@ namespace detail
   public:
     template< typename InputIterator>
     future_when_any_vector_shared_state(input_iterator_tag, InputIterator first, InputIterator last)
-    : vec_(std::make_move_iterator(first), std::make_move_iterator(last))
+    : vec_(when_input_iterator<F>::make(first), when_input_iterator<F>::make(last))
     {
     }
 
-- 
2.43.0


From 45ee2acfbefe49705c8cf3c0042bc36b4429107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 28/58] fix: when_all runs all its deferred inputs before it
 returns

---
 include/boost/thread/future.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index be5a89d..00208e9 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -5871,7 +5871,9 @@ namespace detail
   struct accumulate_run_if_is_deferred {
     bool operator ()(Tuple& t)
     {
-      return (! csbl::get<i-1>(t).run_if_is_deferred()) || accumulate_run_if_is_deferred<Tuple,i-1>()(t);
+      // all the deferred functions must be run
+      const bool not_deferred = ! csbl::get<i-1>(t).run_if_is_deferred();
+      return accumulate_run_if_is_deferred<Tuple,i-1>()(t) || not_deferred;
     }
   };
   template <class Tuple>
-- 
2.43.0


From 8d7116c38e4a55567e4d81e44f0a7b99f89c657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 29/58] fix: when_any checks its inputs in the order supplied

---
 include/boost/thread/future.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 00208e9..0f39c45 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -5945,7 +5945,8 @@ namespace detail
   struct apply_any_run_if_is_deferred_or_ready {
     bool operator ()(Tuple& t)
     {
-      if (csbl::get<i-1>(t).run_if_is_deferred_or_ready()) return true;
+      // in the order supplied
+      if (csbl::get<csbl::tuple_size<Tuple>::value-i>(t).run_if_is_deferred_or_ready()) return true;
       return apply_any_run_if_is_deferred_or_ready<Tuple,i-1>()(t);
     }
   };
-- 
2.43.0


From 225a3129124c011e3771d303b70572dade30727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 30/58] fix: when_all and when_any report a failure to start
 their thread instead of waiting for ever

---
 include/boost/thread/future.hpp | 52 ++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 0f39c45..1726022 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -5742,11 +5742,20 @@ namespace detail
         future_when_all_vector_shared_state::run(this->shared_from_this());
         return;
       }
+      try
+      {
 #ifdef BOOST_THREAD_FUTURE_BLOCKING
-      this->thr_ = boost::thread(&future_when_all_vector_shared_state::run, this->shared_from_this());
+        this->thr_ = boost::thread(&future_when_all_vector_shared_state::run, this->shared_from_this());
 #else
-      boost::thread(&future_when_all_vector_shared_state::run, this->shared_from_this()).detach();
+        boost::thread(&future_when_all_vector_shared_state::run, this->shared_from_this()).detach();
 #endif
+      }
+      catch(...)
+      {
+        // nobody else would make it ready, and the destructor waits for that
+        this->mark_exceptional_finish();
+        throw;
+      }
     }
 
   public:
@@ -5813,11 +5822,20 @@ namespace detail
         return;
       }
 
+      try
+      {
 #ifdef BOOST_THREAD_FUTURE_BLOCKING
-      this->thr_ = boost::thread(&future_when_any_vector_shared_state::run, this->shared_from_this());
+        this->thr_ = boost::thread(&future_when_any_vector_shared_state::run, this->shared_from_this());
 #else
-      boost::thread(&future_when_any_vector_shared_state::run, this->shared_from_this()).detach();
+        boost::thread(&future_when_any_vector_shared_state::run, this->shared_from_this()).detach();
 #endif
+      }
+      catch(...)
+      {
+        // nobody else would make it ready, and the destructor waits for that
+        this->mark_exceptional_finish();
+        throw;
+      }
     }
 
   public:
@@ -5922,11 +5940,20 @@ namespace detail
         future_when_all_tuple_shared_state::run(this->shared_from_this());
         return;
       }
+      try
+      {
 #ifdef BOOST_THREAD_FUTURE_BLOCKING
-      this->thr_ = boost::thread(&future_when_all_tuple_shared_state::run, this->shared_from_this());
+        this->thr_ = boost::thread(&future_when_all_tuple_shared_state::run, this->shared_from_this());
 #else
-      boost::thread(&future_when_all_tuple_shared_state::run, this->shared_from_this()).detach();
+        boost::thread(&future_when_all_tuple_shared_state::run, this->shared_from_this()).detach();
 #endif
+      }
+      catch(...)
+      {
+        // nobody else would make it ready, and the destructor waits for that
+        this->mark_exceptional_finish();
+        throw;
+      }
 
     }
   public:
@@ -5994,11 +6021,20 @@ namespace detail
         return;
       }
 
+      try
+      {
 #ifdef BOOST_THREAD_FUTURE_BLOCKING
-      this->thr_ = boost::thread(&future_when_any_tuple_shared_state::run, this->shared_from_this());
+        this->thr_ = boost::thread(&future_when_any_tuple_shared_state::run, this->shared_from_this());
 #else
-      boost::thread(&future_when_any_tuple_shared_state::run, this->shared_from_this()).detach();
+        boost::thread(&future_when_any_tuple_shared_state::run, this->shared_from_this()).detach();
 #endif
+      }
+      catch(...)
+      {
+        // nobody else would make it ready, and the destructor waits for that
+        this->mark_exceptional_finish();
+        throw;
+      }
     }
 
   public:
-- 
2.43.0


From 4e9c247f4eb2908d72ddaadc200304ff93162074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 31/58] fix: a devector that was moved from is empty

---
 include/boost/thread/csbl/devector.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/csbl/devector.hpp b/include/boost/thread/csbl/devector.hpp
index c2bc0bb..4baf7aa 100644
--- a/include/boost/thread/csbl/devector.hpp
+++ b/include/boost/thread/csbl/devector.hpp
@@ -45,7 +45,10 @@ namespace boost
       devector(BOOST_RV_REF(devector) x) BOOST_NOEXCEPT
          :  data_(boost::move(x.data_)),
             front_index_(x.front_index_)
-      {}
+      {
+        x.data_.clear();
+        x.front_index_ = 0;
+      }
 
       devector& operator=(BOOST_COPY_ASSIGN_REF(devector) x)
       {
@@ -62,8 +65,13 @@ namespace boost
          BOOST_NOEXCEPT_IF(vector_type::allocator_traits_type::propagate_on_container_move_assignment::value)
 #endif
       {
-        data_ = boost::move(x.data_);
-        front_index_ = x.front_index_;
+        if (&x != this)
+        {
+          data_ = boost::move(x.data_);
+          front_index_ = x.front_index_;
+          x.data_.clear();
+          x.front_index_ = 0;
+        }
         return *this;
       }
 
-- 
2.43.0


From cacf908c7cb488a19cee321915d8d4e7d534f67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 32/58] fix: sync_bounded_queue::size counts modulo the ring
 size

---
 include/boost/thread/concurrent_queues/sync_bounded_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index c081bfe..3dcc589 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -127,7 +127,7 @@ namespace concurrent
     inline size_type size(lock_guard<mutex>& lk) const BOOST_NOEXCEPT
     {
       if (full(lk)) return capacity(lk);
-      return ((in_+capacity(lk)-out_) % capacity(lk));
+      return ((in_+capacity_-out_) % capacity_);
     }
 
     inline void throw_if_closed(unique_lock<mutex>&);
-- 
2.43.0


From 413b256fb695c9031dab70c3fa273ac5f71f099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 33/58] fix: an interrupted sync_bounded_queue waiter passes
 its notification on

---
 .../concurrent_queues/sync_bounded_queue.hpp  | 45 ++++++++++++++++---
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index 3dcc589..53d5ae5 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -153,6 +153,42 @@ namespace concurrent
     inline size_type wait_until_not_full(unique_lock<mutex>& lk, bool&);
 
 
+    // A waiter left by an exception may have taken a notification meant for another one.
+    inline void wait_not_empty(unique_lock<mutex>& lk)
+    {
+      ++waiting_empty_;
+      try
+      {
+        not_empty_.wait(lk);
+      }
+      catch (...)
+      {
+        if (waiting_empty_ > 0)
+        {
+          --waiting_empty_;
+          not_empty_.notify_one();
+        }
+        throw;
+      }
+    }
+    inline void wait_not_full(unique_lock<mutex>& lk)
+    {
+      ++waiting_full_;
+      try
+      {
+        not_full_.wait(lk);
+      }
+      catch (...)
+      {
+        if (waiting_full_ > 0)
+        {
+          --waiting_full_;
+          not_full_.notify_one();
+        }
+        throw;
+      }
+    }
+
     inline void notify_not_empty_if_needed(unique_lock<mutex>& lk)
     {
       if (waiting_empty_ > 0)
@@ -412,8 +448,7 @@ namespace concurrent
     {
       if (out_ != in_) break;
       throw_if_closed(lk);
-      ++waiting_empty_;
-      not_empty_.wait(lk);
+      wait_not_empty(lk);
     }
   }
   template <typename ValueType>
@@ -423,8 +458,7 @@ namespace concurrent
     {
       if (out_ != in_) break;
       if (closed_) {closed=true; return;}
-      ++waiting_empty_;
-      not_empty_.wait(lk);
+      wait_not_empty(lk);
     }
   }
 
@@ -583,8 +617,7 @@ namespace concurrent
       {
         return in_p_1;
       }
-      ++waiting_full_;
-      not_full_.wait(lk);
+      wait_not_full(lk);
     }
   }
 
-- 
2.43.0


From fbd727a1e54882764fc67ad3a4d7a39d175b7324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 34/58] fix: sync_bounded_queue::wait_push_back returns closed
 when the queue is closed while it waits

---
 .../concurrent_queues/sync_bounded_queue.hpp  | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index 53d5ae5..fe5c6a1 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -576,8 +576,10 @@ namespace concurrent
   template <typename ValueType>
   queue_op_status sync_bounded_queue<ValueType>::wait_push_back(const ValueType& elem, unique_lock<mutex>& lk)
   {
-    if (closed(lk)) return queue_op_status::closed;
-    push_at(elem, wait_until_not_full(lk), lk);
+    bool is_closed = false;
+    const size_type in_p_1 = wait_until_not_full(lk, is_closed);
+    if (is_closed) return queue_op_status::closed;
+    push_at(elem, in_p_1, lk);
     return queue_op_status::success;
   }
   template <typename ValueType>
@@ -620,6 +622,20 @@ namespace concurrent
       wait_not_full(lk);
     }
   }
+  template <typename ValueType>
+  typename sync_bounded_queue<ValueType>::size_type sync_bounded_queue<ValueType>::wait_until_not_full(unique_lock<mutex>& lk, bool & closed)
+  {
+    for (;;)
+    {
+      if (closed_) {closed=true; return in_;}
+      size_type in_p_1 = inc(in_);
+      if (in_p_1 != out_) // ! full()
+      {
+        return in_p_1;
+      }
+      wait_not_full(lk);
+    }
+  }
 
 #ifndef BOOST_THREAD_QUEUE_DEPRECATE_OLD
   template <typename ValueType>
@@ -680,8 +696,10 @@ namespace concurrent
   template <typename ValueType>
   queue_op_status sync_bounded_queue<ValueType>::wait_push_back(BOOST_THREAD_RV_REF(ValueType) elem, unique_lock<mutex>& lk)
   {
-    if (closed(lk)) return queue_op_status::closed;
-    push_at(boost::move(elem), wait_until_not_full(lk), lk);
+    bool is_closed = false;
+    const size_type in_p_1 = wait_until_not_full(lk, is_closed);
+    if (is_closed) return queue_op_status::closed;
+    push_at(boost::move(elem), in_p_1, lk);
     return queue_op_status::success;
   }
   template <typename ValueType>
-- 
2.43.0


From f660c56a31e279acb7353372531831b05f309eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 35/58] fix: sync_timed_queue::pull_until does not look at the
 top of an empty queue when its clock is set back

---
 include/boost/thread/concurrent_queues/sync_timed_queue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
index fd8d5a3..d3f4fa2 100644
--- a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
@@ -289,6 +289,7 @@ namespace detail
       if (not_empty_and_time_reached(lk)) return queue_op_status::success;
       if (super::closed(lk)) return queue_op_status::closed;
       if (clock::now() >= tp) return super::empty(lk) ? queue_op_status::timeout : queue_op_status::not_ready;
+      if (super::empty(lk)) continue; // the clock was set back after the wait timed out
 
       const time_point tpmin((std::min)(tp, detail::limit_timepoint(super::data_.top().time)));
       super::cond_.wait_until(lk, tpmin);
-- 
2.43.0


From e1f7f919d266ec1f5d02790f770711f575624699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 36/58] fix: a basic_thread_pool that cannot start all its
 workers joins the ones it started

---
 include/boost/thread/executors/basic_thread_pool.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index 93dcfbd..71bb551 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -157,6 +157,7 @@ namespace executors
       catch (...)
       {
         close();
+        join();
         throw;
       }
     }
@@ -183,6 +184,7 @@ namespace executors
       catch (...)
       {
         close();
+        join();
         throw;
       }
     }
@@ -202,6 +204,7 @@ namespace executors
       catch (...)
       {
         close();
+        join();
         throw;
       }
     }
@@ -221,6 +224,7 @@ namespace executors
       catch (...)
       {
         close();
+        join();
         throw;
       }
     }
-- 
2.43.0


From 3a4257058e2e5bc4613ccaef41c089da8b55347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 37/58] fix: a basic_thread_pool can be destroyed after it was
 joined

---
 include/boost/thread/executors/basic_thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index 71bb551..d0ebacc 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -249,7 +249,7 @@ namespace executors
       for (unsigned i = 0; i < threads.size(); ++i)
       {
         //threads[i].interrupt();
-        threads[i].join();
+        if (threads[i].joinable()) threads[i].join();
       }
     }
 
@@ -272,7 +272,7 @@ namespace executors
       for (unsigned i = 0; i < threads.size(); ++i)
       {
         threads[i].interrupt();
-        threads[i].join();
+        if (threads[i].joinable()) threads[i].join();
       }
     }
 
-- 
2.43.0


From 15b42cd725446e20c730600234b9945b2c7becc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 38/58] fix: a scheduled_thread_pool that cannot start all its
 workers joins the ones it started

---
 .../thread/executors/scheduled_thread_pool.hpp      | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/executors/scheduled_thread_pool.hpp b/include/boost/thread/executors/scheduled_thread_pool.hpp
index 6202f2d..e743e0c 100644
--- a/include/boost/thread/executors/scheduled_thread_pool.hpp
+++ b/include/boost/thread/executors/scheduled_thread_pool.hpp
@@ -26,9 +26,18 @@ namespace executors
 
     scheduled_thread_pool(size_t num_threads) : super()
     {
-      for(size_t i = 0; i < num_threads; i++)
+      try
       {
-        _workers.create_thread(bind(&super::loop, this));
+        for(size_t i = 0; i < num_threads; i++)
+        {
+          _workers.create_thread(bind(&super::loop, this));
+        }
+      }
+      catch (...)
+      {
+        this->close();
+        _workers.join_all();
+        throw;
       }
     }
 
-- 
2.43.0


From 4ffa09f59d24df3e23809896bdf05f5c1271137c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 39/58] fix: a serial_executor_cont waits for its closures
 before it is destroyed, as documented

---
 include/boost/thread/executors/serial_executor_cont.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/thread/executors/serial_executor_cont.hpp b/include/boost/thread/executors/serial_executor_cont.hpp
index baccf73..73d0e6c 100644
--- a/include/boost/thread/executors/serial_executor_cont.hpp
+++ b/include/boost/thread/executors/serial_executor_cont.hpp
@@ -99,6 +99,11 @@ namespace executors
     {
       // signal to the worker thread that there will be no more submissions.
       close();
+      // wait for the last submitted closure, which is run after all the others.
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
+      if (fut_.valid()) fut_.wait();
     }
 
     /**
-- 
2.43.0


From bfe9bbff96b8eaa2bf8f40348eb83792ae183106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 40/58] fix: the mutex of a thread_executor outlives its
 threads

---
 include/boost/thread/executors/thread_executor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/thread_executor.hpp b/include/boost/thread/executors/thread_executor.hpp
index 9de87b1..72f3c5e 100644
--- a/include/boost/thread/executors/thread_executor.hpp
+++ b/include/boost/thread/executors/thread_executor.hpp
@@ -38,8 +38,8 @@ namespace executors
     bool closed_;
     typedef scoped_thread<> thread_t;
     typedef csbl::vector<thread_t> threads_type;
+    mutable mutex mtx_; // used by the closures until threads_ are joined
     threads_type threads_;
-    mutable mutex mtx_;
 
     /**
      * Effects: try to execute one task.
-- 
2.43.0


From e93385e14c4737bfb82dce706a9975468f9c4b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 41/58] fix: resubmit does not move from an lvalue function

---
 include/boost/thread/executors/scheduler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/scheduler.hpp b/include/boost/thread/executors/scheduler.hpp
index 654c9fb..1d244b7 100644
--- a/include/boost/thread/executors/scheduler.hpp
+++ b/include/boost/thread/executors/scheduler.hpp
@@ -50,7 +50,7 @@ namespace boost
     template <class Executor, class Function>
     resubmitter<Executor, typename decay<Function>::type>
     resubmit(Executor& ex, BOOST_THREAD_FWD_REF(Function) funct) {
-      return resubmitter<Executor, typename decay<Function>::type >(ex, boost::move(funct));
+      return resubmitter<Executor, typename decay<Function>::type >(ex, boost::forward<Function>(funct));
     }
 
     /// Wraps references to a @c Scheduler and an @c Executor providing an @c Executor that
-- 
2.43.0


From f85d456f283bddfbc7a018ae5c413410ac294a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 42/58] fix: comparing a synchronized_value with itself no
 longer deadlocks

The relational operators locked the one mutex twice.
---
 include/boost/thread/synchronized_value.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/boost/thread/synchronized_value.hpp b/include/boost/thread/synchronized_value.hpp
index 4e48a85..c27f2f1 100644
--- a/include/boost/thread/synchronized_value.hpp
+++ b/include/boost/thread/synchronized_value.hpp
@@ -840,6 +840,10 @@ namespace boost
      */
     bool operator==(synchronized_value const& rhs)  const
     {
+      if (this == &rhs) {
+        unique_lock<mutex_type> lk(mtx_);
+        return value_ == value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -852,6 +856,10 @@ namespace boost
      */
     bool operator<(synchronized_value const& rhs) const
     {
+      if (this == &rhs) {
+        unique_lock<mutex_type> lk(mtx_);
+        return value_ < value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -864,6 +872,10 @@ namespace boost
      */
     bool operator>(synchronized_value const& rhs) const
     {
+      if (this == &rhs) {
+        unique_lock<mutex_type> lk(mtx_);
+        return value_ > value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -872,6 +884,10 @@ namespace boost
     }
     bool operator<=(synchronized_value const& rhs) const
     {
+      if (this == &rhs) {
+        unique_lock<mutex_type> lk(mtx_);
+        return value_ <= value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -880,6 +896,10 @@ namespace boost
     }
     bool operator>=(synchronized_value const& rhs) const
     {
+      if (this == &rhs) {
+        unique_lock<mutex_type> lk(mtx_);
+        return value_ >= value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
-- 
2.43.0


From caca6b724016dfe16c4923e5f98ca4479c1f3f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 43/58] fix: executors may be destroyed in a thread that is
 interrupted

Their destructors join threads, an interruption point, so that an
interruption ended the program by std::terminate; scoped_thread does the
same.
---
 include/boost/thread/executors/basic_thread_pool.hpp     | 4 ++++
 include/boost/thread/executors/scheduled_thread_pool.hpp | 4 ++++
 include/boost/thread/executors/scheduler.hpp             | 4 ++++
 include/boost/thread/executors/scheduling_adaptor.hpp    | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index d0ebacc..7de8a34 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -235,6 +235,10 @@ namespace executors
      */
     ~basic_thread_pool()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      // exceptions from a destructor call std::terminate
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       // signal to all the worker threads that there will be no more submissions.
       close();
       // joins all the threads before destroying the thread pool resources (e.g. the queue).
diff --git a/include/boost/thread/executors/scheduled_thread_pool.hpp b/include/boost/thread/executors/scheduled_thread_pool.hpp
index e743e0c..a13ebe3 100644
--- a/include/boost/thread/executors/scheduled_thread_pool.hpp
+++ b/include/boost/thread/executors/scheduled_thread_pool.hpp
@@ -43,6 +43,10 @@ namespace executors
 
     ~scheduled_thread_pool()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      // exceptions from a destructor call std::terminate
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       this->close();
       _workers.interrupt_all();
       _workers.join_all();
diff --git a/include/boost/thread/executors/scheduler.hpp b/include/boost/thread/executors/scheduler.hpp
index 1d244b7..7a7e8c7 100644
--- a/include/boost/thread/executors/scheduler.hpp
+++ b/include/boost/thread/executors/scheduler.hpp
@@ -236,6 +236,10 @@ namespace boost
 
       ~scheduler()
       {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        // exceptions from a destructor call std::terminate
+        boost::this_thread::disable_interruption do_not_disturb;
+#endif
         this->close();
         thr.interrupt();
         thr.join();
diff --git a/include/boost/thread/executors/scheduling_adaptor.hpp b/include/boost/thread/executors/scheduling_adaptor.hpp
index 9a432f9..604c1db 100644
--- a/include/boost/thread/executors/scheduling_adaptor.hpp
+++ b/include/boost/thread/executors/scheduling_adaptor.hpp
@@ -37,6 +37,10 @@ namespace executors
 
     ~scheduling_adaptor()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      // exceptions from a destructor call std::terminate
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       this->close();
       _scheduler.interrupt();
       _scheduler.join();
-- 
2.43.0


From 761ffb65a901ff14daa23a71aa1cce79338353c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 44/58] fix: task_region joins its tasks and reports each
 exception once

An interruption, or a failure to allocate memory, left the region while
its tasks, which refer to it, went on; what wait() had thrown was
reported three times.
---
 .../experimental/parallel/v2/task_region.hpp  | 30 +++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/experimental/parallel/v2/task_region.hpp b/include/boost/thread/experimental/parallel/v2/task_region.hpp
index b8ec759..824904a 100644
--- a/include/boost/thread/experimental/parallel/v2/task_region.hpp
+++ b/include/boost/thread/experimental/parallel/v2/task_region.hpp
@@ -24,6 +24,8 @@
 #include <boost/thread/csbl/vector.hpp>
 #include <boost/thread/detail/move.hpp>
 
+#include <algorithm>
+
 #include <boost/config/abi_prefix.hpp>
 
 #define BOOST_THREAD_TASK_REGION_HAS_SHARED_CANCELED
@@ -66,6 +68,8 @@ BOOST_THREAD_INLINE_NAMESPACE(v2)
         for (exception_list::const_iterator it = el.begin(); it != el.end(); ++it)
         {
           boost::exception_ptr const& e = *it;
+          // those that come from wait() have been collected already
+          if (std::find(errors.begin(), errors.end(), e) != errors.end()) continue;
           try {
             rethrow_exception(e);
           }
@@ -143,11 +147,20 @@ BOOST_THREAD_INLINE_NAMESPACE(v2)
           }
         }
       }
+      group.clear();
       if (exs.size() != 0)
       {
         boost::throw_exception(exs);
       }
     }
+    // the end of the region: the tasks refer to it, so this can not be interrupted
+    void join_all()
+    {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      this_thread::disable_interruption di;
+#endif
+      wait_all();
+    }
 protected:
 #if ! defined BOOST_THREAD_TASK_REGION_HAS_SHARED_CANCELED && ! defined BOOST_THREAD_PROVIDES_EXECUTORS
     task_region_handle_gen()
@@ -184,7 +197,14 @@ protected:
 
     ~task_region_handle_gen()
     {
-      //wait_all();
+      // there are some left only if the region ends by an exception of its own
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      this_thread::disable_interruption di;
+#endif
+      for (group_type::iterator it = group.begin(); it != group.end(); ++it)
+      {
+        if (it->valid()) it->wait();
+      }
     }
 
 #if defined BOOST_THREAD_TASK_REGION_HAS_SHARED_CANCELED
@@ -214,6 +234,10 @@ protected:
           boost::throw_exception(task_canceled_exception());
         }
       }
+#endif
+      // a task that has been started must find its place
+      if (group.size() == group.capacity()) group.reserve(2 * group.size() + 1);
+#if defined BOOST_THREAD_TASK_REGION_HAS_SHARED_CANCELED
 #if defined BOOST_THREAD_PROVIDES_EXECUTORS
       group.push_back(async(*ex, detail::wrapped<task_region_handle_gen<Executor>, F>(*this, forward<F>(f))));
 #else
@@ -280,7 +304,7 @@ protected:
     {
       detail::handle_task_region_exceptions(tr.exs);
     }
-    tr.wait_all();
+    tr.join_all();
   }
 
   template <typename Executor, typename F>
@@ -301,7 +325,7 @@ protected:
     {
       detail::handle_task_region_exceptions(tr.exs);
     }
-    tr.wait_all();
+    tr.join_all();
   }
 
   template <typename F>
-- 
2.43.0


From bfa9b045cc3dfeafc6e98948da4abc7b1182b52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 45/58] fix: no_interruption_point sleeps are not cut short by
 a signal

---
 src/pthread/thread.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 766191e..d656287 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -40,6 +40,7 @@
 #include <string>
 #include <set>
 #include <vector>
+#include <errno.h>
 #include <string.h> // memcmp.
 
 namespace boost
@@ -471,7 +472,9 @@ namespace boost
                         BOOST_VERIFY(!pthread_delay_np(&ts.getTs()));
 #       endif
 #   elif defined(BOOST_HAS_NANOSLEEP)
-                        nanosleep(&ts.getTs(), 0);
+                        // a signal handler ends nanosleep early: sleep for what remains
+                        timespec remaining = ts.getTs();
+                        while (nanosleep(&remaining, &remaining) != 0 && errno == EINTR) {}
 #   else
                         // This should never be reached due to BOOST_THREAD_SLEEP_FOR_IS_STEADY
 #   endif
-- 
2.43.0


From d94b82a8b8407f6ca17015636a324094e6601b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 46/58] fix: thread_group::create_thread must not fail after
 the thread has started

---
 include/boost/thread/detail/thread_group.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/detail/thread_group.hpp b/include/boost/thread/detail/thread_group.hpp
index 4105c73..6c52324 100644
--- a/include/boost/thread/detail/thread_group.hpp
+++ b/include/boost/thread/detail/thread_group.hpp
@@ -76,9 +76,12 @@ namespace boost
         thread* create_thread(F threadfunc)
         {
             boost::lock_guard<shared_mutex> guard(m);
-            boost::csbl::unique_ptr<thread> new_thread(new thread(threadfunc));
-            threads.push_back(new_thread.get());
-            return new_thread.release();
+            // nothing may fail once the thread runs
+            std::list<thread*> node(1, static_cast<thread*>(0));
+            thread* new_thread = new thread(threadfunc);
+            node.front() = new_thread;
+            threads.splice(threads.end(), node);
+            return new_thread;
         }
 
         void add_thread(thread* thrd)
-- 
2.43.0


From ae8ca85b56e9f8f743b3c9733a2babfe4d20f02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 47/58] fix: at_thread_exit leaked the function when it could
 not be registered

---
 include/boost/thread/detail/thread.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/detail/thread.hpp b/include/boost/thread/detail/thread.hpp
index a1bfe64..2e033eb 100644
--- a/include/boost/thread/detail/thread.hpp
+++ b/include/boost/thread/detail/thread.hpp
@@ -854,7 +854,15 @@ namespace boost
         void at_thread_exit(F f)
         {
             detail::thread_exit_function_base* const thread_exit_func=detail::heap_new<detail::thread_exit_function<F> >(f);
-            detail::add_thread_exit_function(thread_exit_func);
+            try
+            {
+                detail::add_thread_exit_function(thread_exit_func);
+            }
+            catch(...)
+            {
+                detail::heap_delete(thread_exit_func);
+                throw;
+            }
         }
     }
 }
-- 
2.43.0


From 65c6a5bb7591906c33c82dfe0787c9cf4fd78b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 48/58] fix: recursive_timed_mutex constructor leaked the mutex
 attributes

---
 include/boost/thread/pthread/recursive_mutex.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/thread/pthread/recursive_mutex.hpp b/include/boost/thread/pthread/recursive_mutex.hpp
index de4d981..49084dd 100644
--- a/include/boost/thread/pthread/recursive_mutex.hpp
+++ b/include/boost/thread/pthread/recursive_mutex.hpp
@@ -203,6 +203,7 @@ namespace boost
             int const set_attr_res=pthread_mutexattr_settype(&attr,PTHREAD_MUTEX_RECURSIVE);
             if(set_attr_res)
             {
+                BOOST_VERIFY(!pthread_mutexattr_destroy(&attr));
                 boost::throw_exception(thread_resource_error(set_attr_res, "boost:: recursive_timed_mutex constructor failed in pthread_mutexattr_settype"));
             }
 
-- 
2.43.0


From accb195cc1503922a084e826cef9de853e3c70d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 49/58] fix: destroying the state of an asynchronous task that
 never started hung

---
 include/boost/thread/future.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 1726022..6171cfb 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -944,10 +944,9 @@ namespace boost
           {
 #ifdef BOOST_THREAD_FUTURE_BLOCKING
             join();
-#elif defined BOOST_THREAD_ASYNC_FUTURE_WAITS
-            unique_lock<boost::mutex> lk(this->mutex);
-            this->waiters.wait(lk, boost::bind(&shared_state_base::is_done, this));
 #endif
+            // The task shares the ownership of its state: once the state is destroyed the task has
+            // finished, or it never started and waiting for it would not end.
           }
 
           virtual void wait(boost::unique_lock<boost::mutex>& lk, bool rethrow)
-- 
2.43.0


From d5295fc963d78be3dc6fcb4002d35028482816be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 50/58] fix: a future that became ready could fail to launch
 its continuations for lack of memory

---
 include/boost/thread/future.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 6171cfb..3cb6b1b 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -286,8 +286,8 @@ namespace boost
             void do_continuation(boost::unique_lock<boost::mutex>& lock)
             {
                 if (! continuations.empty()) {
-                  continuations_type the_continuations = continuations;
-                  continuations.clear();
+                  continuations_type the_continuations;
+                  the_continuations.swap(continuations);
                   relocker rlk(lock);
                   for (continuations_type::iterator it = the_continuations.begin(); it != the_continuations.end(); ++it) {
                     (*it)->launch_continuation();
@@ -306,8 +306,8 @@ namespace boost
             void do_continuation(boost::unique_lock<boost::mutex>& lock) \
             { \
                 if (! this->continuations.empty()) { \
-                  continuations_type the_continuations = this->continuations; \
-                  this->continuations.clear(); \
+                  continuations_type the_continuations; \
+                  the_continuations.swap(this->continuations); \
                   relocker rlk(lock); \
                   for (continuations_type::iterator it = the_continuations.begin(); it != the_continuations.end(); ++it) { \
                     (*it)->launch_continuation(); \
-- 
2.43.0


From 007a557a51385bbed00dbaf4fa8f94b7b47d546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 51/58] fix: an exception in an unwrapping continuation left
 the unwrapped future unready

---
 include/boost/thread/future.hpp | 90 ++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 40 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 3cb6b1b..8569480 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -5584,30 +5584,35 @@ namespace detail
 
     void launch_continuation()
     {
-      boost::unique_lock<boost::mutex> lk(this->mutex);
-      // assert(wrapped.is_ready());
-      if (! unwrapped.valid() )
-      {
-        if (wrapped.has_exception()) {
-          this->mark_exceptional_finish_internal(wrapped.get_exception_ptr(), lk);
-        } else {
-          unwrapped = wrapped.get();
-          if (unwrapped.valid())
-          {
-            lk.unlock();
-            boost::unique_lock<boost::mutex> lk2(unwrapped.future_->mutex);
-            unwrapped.future_->set_continuation_ptr(this->shared_from_this(), lk2);
+      // an exception would get lost and nobody would make this state ready
+      try {
+        boost::unique_lock<boost::mutex> lk(this->mutex);
+        // assert(wrapped.is_ready());
+        if (! unwrapped.valid() )
+        {
+          if (wrapped.has_exception()) {
+            this->mark_exceptional_finish_internal(wrapped.get_exception_ptr(), lk);
           } else {
-            this->mark_exceptional_finish_internal(boost::copy_exception(broken_promise()), lk);
+            unwrapped = wrapped.get();
+            if (unwrapped.valid())
+            {
+              lk.unlock();
+              boost::unique_lock<boost::mutex> lk2(unwrapped.future_->mutex);
+              unwrapped.future_->set_continuation_ptr(this->shared_from_this(), lk2);
+            } else {
+              this->mark_exceptional_finish_internal(boost::copy_exception(broken_promise()), lk);
+            }
           }
-        }
-      } else {
-        // assert(unwrapped.is_ready());
-        if (unwrapped.has_exception()) {
-          this->mark_exceptional_finish_internal(unwrapped.get_exception_ptr(), lk);
         } else {
-          this->mark_finished_with_result_internal(unwrapped.get(), lk);
+          // assert(unwrapped.is_ready());
+          if (unwrapped.has_exception()) {
+            this->mark_exceptional_finish_internal(unwrapped.get_exception_ptr(), lk);
+          } else {
+            this->mark_finished_with_result_internal(unwrapped.get(), lk);
+          }
         }
+      } catch(...) {
+        this->mark_exceptional_finish();
       }
     }
   };
@@ -5624,30 +5629,35 @@ namespace detail
 
     void launch_continuation()
     {
-      boost::unique_lock<boost::mutex> lk(this->mutex);
-      // assert(wrapped.is_ready());
-      if (! unwrapped.valid() )
-      {
-        if (wrapped.has_exception()) {
-          this->mark_exceptional_finish_internal(wrapped.get_exception_ptr(), lk);
-        } else {
-          unwrapped = wrapped.get();
-          if (unwrapped.valid())
-          {
-            lk.unlock();
-            boost::unique_lock<boost::mutex> lk2(unwrapped.future_->mutex);
-            unwrapped.future_->set_continuation_ptr(this->shared_from_this(), lk2);
+      // an exception would get lost and nobody would make this state ready
+      try {
+        boost::unique_lock<boost::mutex> lk(this->mutex);
+        // assert(wrapped.is_ready());
+        if (! unwrapped.valid() )
+        {
+          if (wrapped.has_exception()) {
+            this->mark_exceptional_finish_internal(wrapped.get_exception_ptr(), lk);
           } else {
-            this->mark_exceptional_finish_internal(boost::copy_exception(broken_promise()), lk);
+            unwrapped = wrapped.get();
+            if (unwrapped.valid())
+            {
+              lk.unlock();
+              boost::unique_lock<boost::mutex> lk2(unwrapped.future_->mutex);
+              unwrapped.future_->set_continuation_ptr(this->shared_from_this(), lk2);
+            } else {
+              this->mark_exceptional_finish_internal(boost::copy_exception(broken_promise()), lk);
+            }
           }
-        }
-      } else {
-        // assert(unwrapped.is_ready());
-        if (unwrapped.has_exception()) {
-          this->mark_exceptional_finish_internal(unwrapped.get_exception_ptr(), lk);
         } else {
-          this->mark_finished_with_result_internal(lk);
+          // assert(unwrapped.is_ready());
+          if (unwrapped.has_exception()) {
+            this->mark_exceptional_finish_internal(unwrapped.get_exception_ptr(), lk);
+          } else {
+            this->mark_finished_with_result_internal(lk);
+          }
         }
+      } catch(...) {
+        this->mark_exceptional_finish();
       }
     }
   };
-- 
2.43.0


From a34a89f2845af258951616fc246ac1864117cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:42 +0000
Subject: [PATCH 52/58] fix: user_scheduler::run_queued_closures runs the
 queued closures

---
 include/boost/thread/user_scheduler.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/user_scheduler.hpp b/include/boost/thread/user_scheduler.hpp
index 4d02658..8dc6667 100644
--- a/include/boost/thread/user_scheduler.hpp
+++ b/include/boost/thread/user_scheduler.hpp
@@ -187,11 +187,11 @@ namespace boost
     void run_queued_closures()
     {
       sync_queue<work>::underlying_queue_type q = work_queue.underlying_queue();
-      while (q.empty())
+      while (! q.empty())
       {
-        work task = q.front();
-        q.pop_front();
+        work& task = q.front();
         task();
+        q.pop_front();
       }
     }
 
-- 
2.43.0


From a68dcb9256747596bbf6fc330f9b2e1d1d527105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:42 +0000
Subject: [PATCH 53/58] fix: user_scheduler::submit does not move from an
 lvalue closure

---
 include/boost/thread/user_scheduler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/user_scheduler.hpp b/include/boost/thread/user_scheduler.hpp
index 8dc6667..11c74a2 100644
--- a/include/boost/thread/user_scheduler.hpp
+++ b/include/boost/thread/user_scheduler.hpp
@@ -158,9 +158,9 @@ namespace boost
     }
 
     template <typename Closure>
-    void submit(BOOST_THREAD_RV_REF(Closure) closure)
+    void submit(BOOST_THREAD_FWD_REF(Closure) closure)
     {
-      work w =boost::move(closure);
+      work w((boost::forward<Closure>(closure)));
       work_queue.push(boost::move(w));
       //work_queue.push(work(boost::move(closure))); // todo check why this doesn't work
     }
-- 
2.43.0


From 8220ff709b56337ff31b5c8536c47a0107868206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:42 +0000
Subject: [PATCH 54/58] fix: shared_mutex: a blocked writer keeps new readers
 out also after losing a race

---
 include/boost/thread/pthread/shared_mutex.hpp | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index 37a9748..1999ec5 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -79,6 +79,16 @@ namespace boost
                 return ! (shared_count || exclusive);
             }
 
+            // A blocked writer keeps new readers out each time it has to wait,
+            // also after another thread was faster.
+            bool can_lock_or_block_shared ()
+            {
+                if (can_lock())
+                    return true;
+                exclusive_waiting_blocked = true;
+                return false;
+            }
+
             void lock ()
             {
                 exclusive = true;
@@ -279,8 +289,7 @@ namespace boost
             boost::this_thread::disable_interruption do_not_disturb;
 #endif
             boost::unique_lock<boost::mutex> lk(state_change);
-            state.exclusive_waiting_blocked=true;
-            exclusive_cond.wait(lk, boost::bind(&state_data::can_lock, &state));
+            exclusive_cond.wait(lk, boost::bind(&state_data::can_lock_or_block_shared, &state));
             state.exclusive=true;
         }
 
@@ -291,8 +300,7 @@ namespace boost
             boost::this_thread::disable_interruption do_not_disturb;
 #endif
             boost::unique_lock<boost::mutex> lk(state_change);
-            state.exclusive_waiting_blocked=true;
-            if(!exclusive_cond.timed_wait(lk, timeout, boost::bind(&state_data::can_lock, &state)))
+            if(!exclusive_cond.timed_wait(lk, timeout, boost::bind(&state_data::can_lock_or_block_shared, &state)))
             {
                 state.exclusive_waiting_blocked=false;
                 release_waiters();
@@ -309,8 +317,7 @@ namespace boost
             boost::this_thread::disable_interruption do_not_disturb;
 #endif
             boost::unique_lock<boost::mutex> lk(state_change);
-            state.exclusive_waiting_blocked=true;
-            if(!exclusive_cond.timed_wait(lk, relative_time, boost::bind(&state_data::can_lock, &state)))
+            if(!exclusive_cond.timed_wait(lk, relative_time, boost::bind(&state_data::can_lock_or_block_shared, &state)))
             {
                 state.exclusive_waiting_blocked=false;
                 release_waiters();
@@ -333,8 +340,7 @@ namespace boost
           boost::this_thread::disable_interruption do_not_disturb;
 #endif
           boost::unique_lock<boost::mutex> lk(state_change);
-          state.exclusive_waiting_blocked=true;
-          if(!exclusive_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock, &state)))
+          if(!exclusive_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_or_block_shared, &state)))
           {
               state.exclusive_waiting_blocked=false;
               release_waiters();
-- 
2.43.0


From 9eb40f714fdf93fbe1634bab828559128358da63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:41 +0000
Subject: [PATCH 55/58] fix: promise: results set at thread exit before
 get_future

With BOOST_THREAD_PROVIDES_PROMISE_LAZY the shared state is created on first
use, but set_value_at_thread_exit and set_exception_at_thread_exit did not
create it and threw promise_moved for a promise that had not been moved.
---
 include/boost/thread/future.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 8569480..101c216 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2570,6 +2570,7 @@ namespace boost
         template <class TR>
         typename boost::enable_if_c<is_copy_constructible<TR>::value && is_same<R, TR>::value, void>::type set_value_at_thread_exit(TR const& r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2579,6 +2580,7 @@ namespace boost
 #else
         void set_value_at_thread_exit(source_reference_type r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2588,6 +2590,7 @@ namespace boost
 #endif
         void set_value_at_thread_exit(BOOST_THREAD_RV_REF(R) r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2596,6 +2599,7 @@ namespace boost
         }
         void set_exception_at_thread_exit(exception_ptr e)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2782,6 +2786,7 @@ namespace boost
         // setting the result with deferred notification
         void set_value_at_thread_exit(R& r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2791,6 +2796,7 @@ namespace boost
 
         void set_exception_at_thread_exit(exception_ptr e)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2979,6 +2985,7 @@ namespace boost
         // setting the result with deferred notification
         void set_value_at_thread_exit()
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2988,6 +2995,7 @@ namespace boost
 
         void set_exception_at_thread_exit(exception_ptr e)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
-- 
2.43.0


From 96f4a9eb577a559fff36142f2a05a69b6a8b83e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 56/58] fix: deadlines before the epoch of their clock are
 past, not invalid

---
 include/boost/thread/detail/platform_time.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/detail/platform_time.hpp b/include/boost/thread/detail/platform_time.hpp
index c0e40d6..9de2bbb 100644
--- a/include/boost/thread/detail/platform_time.hpp
+++ b/include/boost/thread/detail/platform_time.hpp
@@ -117,9 +117,16 @@ inline FP init_steady_clock(kern_return_t & err)
     inline timespec ns_to_timespec(boost::time_max_t const& ns)
     {
       boost::time_max_t s = ns / 1000000000l;
+      boost::time_max_t rest = ns - s * 1000000000l;
+      if (rest < 0)
+      {
+        // tv_nsec must not be negative, also before the epoch
+        --s;
+        rest += 1000000000l;
+      }
       timespec ts;
       ts.tv_sec = static_cast<long> (s);
-      ts.tv_nsec = static_cast<long> (ns - s * 1000000000l);
+      ts.tv_nsec = static_cast<long> (rest);
       return ts;
     }
     inline boost::time_max_t timespec_to_ns(timespec const& ts)
@@ -147,6 +154,11 @@ inline FP init_steady_clock(kern_return_t & err)
 #if defined BOOST_THREAD_CHRONO_POSIX_API || defined BOOST_THREAD_CHRONO_MAC_API
         ts_val.tv_sec = rel_time.total_seconds();
         ts_val.tv_nsec = static_cast<long>(rel_time.fractional_seconds() * (1000000000l / rel_time.ticks_per_second()));
+        if (ts_val.tv_nsec < 0)
+        {
+          --ts_val.tv_sec;
+          ts_val.tv_nsec += 1000000000l;
+        }
 #else
         ns_val = static_cast<boost::time_max_t>(rel_time.total_seconds()) * 1000000000l;
         ns_val += rel_time.fractional_seconds() * (1000000000l / rel_time.ticks_per_second());
-- 
2.43.0


From 81476d924fe6a4e838e83738c44dcebfbb60cffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:22 +0000
Subject: [PATCH 57/58] fix: threads not started by the library: exit functions
 and cleanups find the data of their thread

pthreads resets the key before it calls the destructor, so that an exit function or a cleanup read null
from every thread_specific_ptr, and whatever it registered went into new data: run only after the
notifications at thread exit, and never once pthreads has given up (PTHREAD_DESTRUCTOR_ITERATIONS).
---
 src/pthread/thread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index d656287..ae2892d 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -103,6 +103,9 @@ namespace boost
 
                     if(thread_info)
                     {
+                        // The key is already reset when the thread was not started by the library:
+                        // the exit functions and cleanups must find the data of their thread.
+                        BOOST_VERIFY(!pthread_setspecific(current_thread_tls_key,thread_info.get()));
                         while(!thread_info->tss_data.empty() || thread_info->thread_exit_callbacks
                             || !thread_info->notify.empty() || !thread_info->async_states_.empty())
                         {
@@ -135,6 +138,7 @@ namespace boost
                                 run_at_thread_exit_notifications(*thread_info);
                             }
                         }
+                        BOOST_VERIFY(!pthread_setspecific(current_thread_tls_key,0));
                         thread_info->self.reset();
                     }
                 }
-- 
2.43.0


From a1218c7c1b89465d6ddce8bb092acee1d1bb0745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:34 +0000
Subject: [PATCH 58/58] fix: an interrupted waiter of a completion_latch does
 not count as a waiter any more

---
 include/boost/thread/completion_latch.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/completion_latch.hpp b/include/boost/thread/completion_latch.hpp
index 03f4e89..27bcbec 100644
--- a/include/boost/thread/completion_latch.hpp
+++ b/include/boost/thread/completion_latch.hpp
@@ -53,7 +53,16 @@ namespace boost
       {
         that_.leavers_.cond_.wait(lk, detail::counter_is_zero(that_.leavers_));
         that_.waiters_.inc_and_notify_all();
-        that_.leavers_.cond_.wait(lk, detail::counter_is_not_zero(that_.leavers_));
+        try
+        {
+          that_.leavers_.cond_.wait(lk, detail::counter_is_not_zero(that_.leavers_));
+        }
+        catch (...)
+        {
+          // the destructor is not going to do it
+          that_.waiters_.dec_and_notify_all();
+          throw;
+        }
       }
       ~around_wait()
       {
-- 
2.43.0

