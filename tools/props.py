#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: writes both from the table below and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
T = "include/boost/thread/"; P = T + "pthread/"
PROPS = []
def p(id, title, statement, over, quant, why, files, mech, obs=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(obs), hook_needed=None)))
S = "schedules"
def why(x): return "Schedule-dependent: the tests run one arbitrary schedule per case, mostly separated by sleeps; " + x

p("M01", "Mutexes exclude and publish", "At most one thread at a time is between a successful acquisition (lock, try_lock, timed form) of a mutex, timed_mutex, recursive_mutex or recursive_timed_mutex and its release. Everything a thread wrote before its release is visible, without a data race, to the next owner.",
  "schedules programs configurations", "every interleaving of 2-3 threads each acquiring by any of the forms, all mutex types, native and polling timed waits", why("contention on a try/timed path at the moment of release is not reached."),
  [T+"mutex.hpp", T+"recursive_mutex.hpp", P+"mutex.hpp", P+"recursive_mutex.hpp"], [("timed_mutex::lock/unlock", P+"mutex.hpp"), ("recursive_timed_mutex is_locked/owner/count", P+"recursive_mutex.hpp")])
p("M02", "Released mutexes are handed on and try/timed acquisitions are truthful", "A thread waiting for a mutex obtains it once it is released, without needing a timeout. try_lock and timed acquisitions report success exactly when the caller then owns the mutex; a timed acquisition gives up only when its deadline has passed and never claims ownership it does not have, for every clock and every deadline or duration the clock can represent, past ones and those before its epoch included.",
  "schedules inputs configurations", "every interleaving of a holder with 1-3 waiters, every timed form, deadlines past, near and far, special posix durations, spurious wakeups", why("the race of a release with a timeout, lost wakeups and special durations are not sampled."),
  [P+"mutex.hpp", P+"recursive_mutex.hpp"], [("timed_mutex::do_lock_until", P+"mutex.hpp"), ("recursive_timed_mutex::do_lock_until", P+"recursive_mutex.hpp")])
p("M03", "Recursive mutexes count ownership", "A thread that owns a recursive mutex acquires it again at once by every form, and the mutex becomes available to other threads exactly when the owner has released it as often as it acquired it.",
  "schedules programs configurations", "every interleaving of an owner nesting acquisitions up to 3 deep with contenders", why("tests nest once with nobody contending."),
  [T+"recursive_mutex.hpp", P+"recursive_mutex.hpp"], [("recursive_timed_mutex count/owner", P+"recursive_mutex.hpp")])
p("S01", "shared_mutex excludes: many readers or one writer, one upgrader", "While a thread owns a shared_mutex exclusively nobody else owns it in any mode, and at most one thread owns it in upgrade mode, which coexists with shared owners only. What an owner wrote is visible to those it excluded. A thread that finds itself the last user may destroy the mutex at once after releasing it.",
  "schedules programs configurations", "every interleaving of 2-3 threads, each running any of the lock, try, timed and conversion programs in shared, upgrade and exclusive modes", why("tests never combine conversions with contending owners in other modes."),
  [P+"shared_mutex.hpp", T+"shared_mutex.hpp"], [("shared_mutex::state_data", P+"shared_mutex.hpp")])
p("S02", "shared_mutex releases and conversions wake whoever can proceed", "A thread waiting to acquire a shared_mutex in any mode, or to convert its ownership, proceeds once the others' releases or conversions make that mode available, without needing a timeout; timed-out or failed attempts of others do not block it. After everyone has released, the mutex is available in every mode. Readers arriving while a writer waits for earlier readers are kept out until those have left, so that it cannot be starved.",
  "schedules programs configurations", "every interleaving of a holder in each mode, releasing or converting, with 2-3 waiters of each kind", why("a lost wakeup needs a specific pair of waiter kinds and a specific order of timeout and release."),
  [P+"shared_mutex.hpp"], [("shared_cond/exclusive_cond/upgrade_cond notifications", P+"shared_mutex.hpp")])
p("S03", "shared_mutex conversions keep ownership throughout", "Converting ownership of a shared_mutex between shared, upgrade and exclusive modes is atomic: no other thread owns it exclusively between the two modes, so data read before a conversion is unchanged after it. A failed try or timed conversion leaves the original ownership in place.",
  "schedules programs configurations", "every interleaving of every conversion with 1-2 competing owners", why("needs a competing writer scheduled exactly within the conversion."),
  [P+"shared_mutex.hpp"], [("unlock_upgrade_and_lock and friends", P+"shared_mutex.hpp")])
p("S04", "shared_mutex try and timed operations follow the ownership rules", "From any combination of owners, a try or expired timed acquisition or conversion on a shared_mutex that nobody is concurrently operating succeeds exactly when the ownership rules admit it, and otherwise changes nothing. A timed operation does not give up before its deadline.",
  "histories inputs configurations", "every sequence up to the depth bound of operations by three client threads over all modes, compared with a reference model of the ownership rules", "Tests check a handful of fixed sequences; the quantifier is over all histories of operations by several owners.",
  [P+"shared_mutex.hpp"], [("state_data predicates", P+"shared_mutex.hpp")])
p("S05", "v2 shared_mutex and upgrade_mutex: exclusion, progress, conversions", "The alternative shared_mutex and upgrade_mutex give the same guarantees: writers exclude everyone, upgraders exclude each other and writers, conversions are atomic, failed timed attempts leave no trace, and waiters proceed once the mode they want is available, a writer waiting for readers before readers that come later.",
  "schedules programs histories", "as S01-S04 for the v2 types", why("no test covers them under contention."),
  [T+"v2/shared_mutex.hpp"], [("state_ bits, gate1_, gate2_", T+"v2/shared_mutex.hpp")])
p("L01", "Lock objects track ownership exactly", "After every sequence of operations on unique_lock, shared_lock, upgrade_lock, upgrade_to_unique_lock, reverse_lock and the guard types, owns_lock() agrees with the actual ownership of the mutex, moves and swaps transfer it exactly once, and destruction releases exactly what is owned. Misuse (locking twice, unlocking unowned, no mutex) raises the documented error and changes nothing.",
  "histories inputs programs", "all operation sequences to the depth bound over pairs of lock objects against a reference ownership model on a counting mutex", "Tests check single operations; the state machine over sequences of moves, swaps, releases and errors is not enumerated.",
  [T+"lock_types.hpp", T+"lock_guard.hpp", T+"shared_lock_guard.hpp", T+"reverse_lock.hpp", T+"strict_lock.hpp", T+"lock_factories.hpp", T+"with_lock_guard.hpp"], [("unique_lock", T+"lock_types.hpp"), ("upgrade_lock conversions", T+"lock_types.hpp")])
p("L02", "Locking several mutexes is deadlock free and all or nothing", "lock() over any number of lockables acquires all of them whatever the order in which threads name them, without deadlock, and holds none if one acquisition throws. try_lock() acquires all and reports so, or none and returns the index of the failing one.",
  "schedules programs fault_sequences", "every interleaving of 2-3 threads locking 2-5 mutexes in conflicting orders; every position of a failing or throwing lockable", why("deadlock needs an ABBA interleaving; exception paths at each position are not tried."),
  [T+"lock_algorithms.hpp"], [("lock_impl/lock_helper", T+"lock_algorithms.hpp")])
p("L03", "Testable mutexes know their owner; adapters and null mutexes keep their word", "A testable_mutex tells each thread exactly whether that thread owns it, whether it is locked and by whom, through every way of acquiring, failing, waiting and releasing, and otherwise behaves as the lockable it wraps. Lockable adapters keep the semantics of the mutex they wrap and null_mutex grants every request at once.",
  "schedules histories", "every interleaving of 2-3 threads over every acquisition form and lock type; all operation sequences to the depth bound", why("no test looks at the reported owner while ownership changes hands."),
  [T+"testable_mutex.hpp", T+"lockable_adapter.hpp", T+"null_mutex.hpp"], [("testable_mutex::id_", T+"testable_mutex.hpp")])
p("C01", "condition_variable loses no wakeup", "A thread waiting on a condition_variable is woken by a notification issued after it atomically released the mutex: each notify_one wakes at least one waiter present and notify_all all of them. Every wait returns with the mutex held again and a predicate wait returns only when the predicate holds.",
  "schedules configurations", "every interleaving of 1-3 waiters and 1-2 notifiers, with spurious wakeups, all wait forms, with and without interruption support", why("a lost wakeup needs the notification between release and blocking."),
  [P+"condition_variable.hpp", P+"condition_variable_fwd.hpp"], [("condition_variable::wait", P+"condition_variable.hpp"), ("interruption_checker", P+"thread_data.hpp")])
p("C02", "Timed condition waits end at the deadline and report truthfully", "A timed wait on a condition_variable or condition_variable_any returns at the latest when its deadline has passed, never reports a timeout before the deadline, and with a predicate returns the predicate's value at return, for every clock and time form including deadlines in the past. The mutex is held on return.",
  "schedules inputs configurations", "every interleaving of timed waiters with notifications and clock ticks, all clocks and forms, past/near/far deadlines", why("coincidence of timeout and notification is not reachable by sleeping."),
  [P+"condition_variable.hpp", P+"condition_variable_fwd.hpp", T+"detail/platform_time.hpp"], [("wait_until/do_wait_until", P+"condition_variable_fwd.hpp")])
p("C03", "condition_variable_any works with any lock and loses no wakeup", "With any lockable, including user-defined and shared or recursive ones, condition_variable_any releases it atomically with starting to wait with respect to notifications, re-acquires it before returning by value or by exception, and wakes waiters as notify_one and notify_all promise.",
  "schedules programs configurations", "every interleaving of waiters through several lock types and notifiers", why("needs the notification between releasing the user lock and blocking."),
  [P+"condition_variable.hpp"], [("condition_variable_any::wait", P+"condition_variable.hpp"), ("relocker", P+"condition_variable.hpp")])
p("C04", "notify_all_at_thread_exit notifies after the thread's last act", "A condition passed to notify_all_at_thread_exit is notified, and the lock released, only when the calling thread ends, after its thread-specific objects are destroyed and its exit functions ran; nobody can hold the lock earlier and every waiter is woken.",
  "schedules programs", "every interleaving of an exiting thread and 1-2 waiters", why("the window between unlocking and notifying at exit is not sampled."),
  ["src/pthread/thread.cpp", P+"condition_variable.hpp", P+"thread_data.hpp"], [("thread_data_base::~thread_data_base", "src/pthread/thread.cpp")])
p("I01", "An interruption is delivered exactly once and never lost", "After interrupt(), the target thread throws thread_interrupted at its next or current interruption point (waits, sleeps, joins, interruption_point) while interruption is enabled, wherever it was when interrupted, and the request is consumed by that one throw. A thread never throws thread_interrupted without a request, and a wait that throws holds its lock.",
  "schedules programs configurations", "every interleaving of interrupt() with every interruption point in 1-2 targets", why("the request racing with the start and the end of a wait is not sampled."),
  ["src/pthread/thread.cpp", P+"thread_data.hpp", P+"condition_variable.hpp"], [("thread::interrupt", "src/pthread/thread.cpp"), ("interruption_checker", P+"thread_data.hpp")])
p("I02", "Disabled interruption stays pending until restored", "While disable_interruption is in force no interruption point throws and requests stay pending; restore_interruption re-enables for its scope, nesting restores the previous state, and a pending request is then delivered at the next interruption point. interruption_requested and interruption_enabled report the truth, and operations documented as non-interruptible do not throw.",
  "schedules histories", "every nesting up to depth 3 and every interleaving with interrupt()", why("nested scopes combined with a racing request are not tried."),
  ["src/pthread/thread.cpp", T+"detail/thread_interruption.hpp"], [("disable_interruption", "src/pthread/thread.cpp")])
p("O01", "call_once runs once, waiters see the effect, failures retry", "For each once_flag the function completes successfully exactly once; every call_once that returns does so after that completion and sees its effects without a data race. If the function throws, the exception reaches that caller and another waiting or later caller runs it, and nobody is left waiting.",
  "schedules fault_sequences configurations", "every interleaving of 2-4 callers on 1-2 flags with 0-2 throwing attempts, in both implementations", why("the retry with several waiters and the fast path racing with completion are not sampled."),
  [P+"once_atomic.hpp", P+"once.hpp", "src/pthread/once_atomic.cpp", "src/pthread/once.cpp", T+"detail/singleton.hpp"], [("enter_once_region/commit/rollback", "src/pthread/once_atomic.cpp"), ("fast epochs", P+"once.hpp")])
p("T01", "Threads run their function once and join synchronises", "A started thread runs its function with its arguments exactly once; join and successful timed joins return only after it has finished and everything it did is visible to the joiner without a data race. A timed join ends once its deadline has passed, even while the thread is still running its exit functions, returns false only then and leaves the thread joinable.",
  "schedules inputs configurations", "every interleaving of creation, running, 1-2 joiners, timed joins with past/near/far deadlines", why("timed join racing with termination is not sampled."),
  [T+"detail/thread.hpp", "src/pthread/thread.cpp"], [("thread::join_noexcept/do_try_join_until_noexcept", "src/pthread/thread.cpp")])
p("T02", "Thread handles: joinability, detach, ids and failure", "A handle is joinable exactly while it represents a started thread not yet joined or detached; moves and swaps transfer that, operations on a non-joinable handle and self-joins raise the documented errors, and ids of live threads are distinct, stable and totally ordered. The thread's function and data are destroyed exactly once, whoever ends last, and a failed start raises an error and leaks nothing.",
  "schedules histories fault_sequences", "all operation sequences to the depth bound on handles, every interleaving of detach with termination, thread creation failure", why("detach racing with termination and creation failure are not exercised."),
  [T+"detail/thread.hpp", "src/pthread/thread.cpp", P+"thread_data.hpp"], [("thread_data_base self reference", "src/pthread/thread.cpp"), ("thread::start_thread_noexcept", "src/pthread/thread.cpp")])
p("T03", "at_thread_exit functions run exactly once in the exiting thread", "Every function registered with at_thread_exit, including by exit functions and thread-specific cleanups, runs exactly once, in the registering thread, after its function ended and before a join returns, also when the thread is interrupted or was not created by the library.",
  "schedules programs", "registration nesting up to 3, boost and foreign threads, interleaved with a joiner", why("registration from within exit callbacks and foreign threads are not combined."),
  ["src/pthread/thread.cpp", T+"detail/thread.hpp"], [("run_thread_exit_callbacks/tls_destructor", "src/pthread/thread.cpp")])
p("T04", "thread_specific_ptr gives every thread its own object, cleaned up once", "Each thread sees only the value it stored through a thread_specific_ptr, initially null; reset and thread exit pass the old non-null value exactly once to the cleanup, in the owning thread, release never does, and cleanups that store again are repeated. Destroying the pointer object and creating another never shows a stale value of the thread that destroyed it.",
  "schedules histories programs", "all sequences to the depth bound of get/reset/release/re-create over 1-2 pointers and 2 threads", why("sequences with cleanups that re-store and address reuse are not enumerated."),
  [T+"tss.hpp", "src/pthread/thread.cpp"], [("set_tss_data", "src/pthread/thread.cpp")])
p("T05", "Thread owners: thread_group, scoped_thread, thread_guard", "thread_group::join_all returns only when all its threads have finished, create/add/remove keep membership exact under concurrent use, and interrupt_all reaches every member. scoped_thread and thread_guard apply their exit action (join, interrupt, detach, terminate) exactly once on every path.",
  "schedules histories", "every interleaving of group operations by 2 threads; all guard functors and paths", why("concurrent membership changes are not tested."),
  [T+"detail/thread_group.hpp", T+"scoped_thread.hpp", T+"thread_guard.hpp", T+"thread_functors.hpp"], [("thread_group", T+"detail/thread_group.hpp")])
p("B01", "barrier releases everyone exactly at the threshold, every generation", "No thread passes a barrier before the full count of threads has arrived in its generation, all of them then pass, exactly one is told so (or the completion function runs exactly once, before any is released), and the barrier is immediately reusable for any number of generations. What any participant did before arriving is visible to all after passing.",
  "schedules programs", "every interleaving of 2-3 participants over 2-3 generations, all constructors", why("a fast thread re-entering the next generation while slow ones leave is not sampled."),
  [T+"barrier.hpp"], [("barrier::wait", T+"barrier.hpp")])
p("B02", "latch opens at zero and stays open", "A wait on a latch returns only after its count reached zero and then always; timed waits and try_wait report the truth; count_down, count_down_and_wait and reset keep the count exact. Earlier effects of the counting threads are visible to the waiters. Once its only waiter has returned it may destroy the latch.",
  "schedules inputs", "every interleaving of 1-2 waiters (all forms) and 2-3 counters", why("count-down racing with a timed wait is not sampled."),
  [T+"latch.hpp"], [("latch::count_down", T+"latch.hpp")])
p("B03", "completion_latch releases its waiters and runs its function once per cycle", "Waiters of a completion_latch are released only after the count reached zero with the waiters the cycle requires, the completion function runs exactly once per cycle, after that and not before, and once it has run the latch can be reset, also by the function itself, for the next cycle, which late waiters join. A waiter that is interrupted no longer counts as one.",
  "schedules programs", "every interleaving of 1-2 waiters and 2 counters over 1-2 cycles", why("overlap of leaving waiters and the next cycle is not sampled."),
  [T+"completion_latch.hpp"], [("completion_latch", T+"completion_latch.hpp")])
p("F01", "A promise delivers one result, once, or a broken promise", "The value or exception set through a promise is what the future's get returns or throws, exactly once, with everything done before setting visible. A second set raises promise_already_satisfied, a second retrieval future_already_retrieved, and a promise abandoned in any way, including by assignment, makes its future report broken_promise instead of waiting forever.",
  "schedules histories inputs configurations", "every interleaving of setters and getters, all operation sequences to the depth bound, value/reference/void results", why("competing setters and abandonment while waiting are not sampled."),
  [T+"future.hpp"], [("shared_state/future_object_base", T+"future.hpp"), ("promise", T+"future.hpp")])
p("F02", "Waiting on futures: readiness, timeouts, sharing", "A future becomes ready exactly when its result is stored, stays ready, and wakes every waiter, however many handles share it, without making them wait for its continuations. Timed waits report timeout only after the deadline with the result absent; shared handles all see the same result; an invalid handle raises future_uninitialized; copies, moves and shares keep validity exact and the state is destroyed once.",
  "schedules histories inputs", "every interleaving of 1-3 waiters over shared handles with the setter, all wait forms", why("timeout racing with readiness and handle destruction racing with setting are not sampled."),
  [T+"future.hpp"], [("shared_state_base::wait_until", T+"future.hpp"), ("shared_future", T+"future.hpp")])
p("F03", "packaged_task runs at most once and stores the outcome", "Invoking a packaged_task runs its function exactly once and makes its future ready with the result or the thrown exception; a second invocation raises task_already_started, reset gives a fresh task with a fresh future, and a task destroyed uninvoked breaks its promise.",
  "schedules histories inputs", "every interleaving of competing invocations, waiters and destruction; all operation sequences to the depth bound", why("competing invocations are not sampled."),
  [T+"future.hpp"], [("task_object/task_base", T+"future.hpp")])
p("F04", "async runs once under every policy and loses no exception", "A function given to async runs exactly once: in a new thread, in an executor, or deferred in the first thread that waits; its result or exception reaches the future. A deferred function runs at most once even with competing waiters and never while timed waits report deferred.",
  "schedules inputs configurations", "every interleaving of 1-2 waiters and policies", why("competing waiters on a deferred future are not sampled."),
  [T+"future.hpp"], [("future_deferred_shared_state", T+"future.hpp"), ("future_async_shared_state", T+"future.hpp")])
p("F05", "Results set at thread exit become ready when the thread ends", "After set_value_at_thread_exit, set_exception_at_thread_exit or make_ready_at_thread_exit the result is stored at once but the future becomes ready only when the thread has ended and its thread-specific objects are gone; a second result set at thread exit, or one set after the future is ready, raises promise_already_satisfied.",
  "schedules histories", "every interleaving of the exiting thread and a waiter; every second setter", why("second setters and waiter timing are not sampled."),
  [T+"future.hpp", "src/pthread/thread.cpp"], [("shared_state_base::notify_deferred", T+"future.hpp")])
p("F06", "Continuations run exactly once after their antecedent", "A continuation attached with then runs exactly once, only after the antecedent is ready, whichever comes first, receives it ready, and its result or exception (including the antecedent's, rethrown) reaches the continuation's future under every launch policy and executor.",
  "schedules programs", "every interleaving of attaching, setting and waiting, chains of up to 3, all policies", why("attachment racing with readiness is not sampled."),
  [T+"future.hpp"], [("set_continuation_ptr/do_continuation", T+"future.hpp")])
p("F07", "unwrap, fallback_to and ready-made futures preserve the outcome", "unwrap yields exactly the inner future's value or the exception of whichever level failed, ready only when that is; fallback_to yields the value, or the fallback if there was an exception; make_ready_future and make_exceptional_future are ready at once with exactly their outcome.",
  "schedules programs inputs", "every interleaving of the inner and outer setters, waiters; every outcome", why("orders of inner and outer readiness with an exception are not all tried."),
  [T+"future.hpp"], [("future_unwrap_shared_state", T+"future.hpp")])
p("F08", "when_all and when_any become ready at the right moment", "when_all becomes ready only when all, and when_any as soon as any, of its input futures are ready, in every order of readiness, and yield exactly the inputs, in order, with their outcomes.",
  "schedules programs", "every interleaving of 1-3 setters and a waiter; tuple and range forms", why("orders of readiness with concurrent setters are not sampled."),
  [T+"future.hpp"], [("future_when_all_vector_shared_state", T+"future.hpp"), ("detail::future_waiter", T+"future.hpp")])
p("F09", "wait_for_any and wait_for_all return when promised", "wait_for_any returns, promptly, with a future that is ready once at least one is; wait_for_all returns only once all are; neither misses a result set concurrently, deadlocks with another waiter, or disturbs later use of the futures.",
  "schedules programs", "every interleaving of 1-2 setters and 1-2 waiters over 2-3 futures, range and variadic forms, repeated and overlapping sets", why("overlapping waiters and results arriving during registration are not sampled."),
  [T+"future.hpp", T+"futures/wait_for_any.hpp", T+"futures/wait_for_all.hpp"], [("future_waiter", T+"future.hpp")])
p("Q01", "Concurrent queues and deques neither lose, duplicate nor reorder", "Through any mix of push and pull forms (blocking, try, nonblocking, wait, move, bulk), every element pushed into a sync_queue or sync_deque comes out exactly once, those of one producer in order, with its contents visible, and a pull fails only when the queue was empty. An operation that throws because copying an element threw leaves the queue as it was.",
  "schedules histories", "every interleaving of 1-2 producers and 1-2 consumers and every form; all operation sequences to the depth bound against a reference queue", why("form mixes under contention are not sampled."),
  [T+"concurrent_queues/sync_queue.hpp", T+"concurrent_queues/sync_deque.hpp", T+"concurrent_queues/detail/sync_queue_base.hpp", T+"concurrent_queues/detail/sync_deque_base.hpp", T+"sync_queue.hpp", T+"concurrent_queues/queue_adaptor.hpp", T+"concurrent_queues/queue_views.hpp"], [("sync_queue", T+"concurrent_queues/sync_queue.hpp")])
p("Q02", "sync_bounded_queue: bounded FIFO with blocking at both ends", "A sync_bounded_queue never holds more than its capacity, reports full, empty and size exactly, blocks producers while full and consumers while empty and wakes them when that ends; elements come out exactly once in order for every position of the ring. An operation that throws because copying an element threw leaves the queue as it was.",
  "schedules histories", "every interleaving of 1-2 producers and 1-2 consumers with capacity 1-2; all operation sequences to the depth bound against a reference queue", why("wrap-around positions and blocked producers at capacity are not enumerated."),
  [T+"concurrent_queues/sync_bounded_queue.hpp", T+"sync_bounded_queue.hpp"], [("ring indices in_/out_", T+"concurrent_queues/sync_bounded_queue.hpp")])
p("Q03", "Closing a queue wakes everyone and drains", "After close, pushes are refused with the documented status or exception, elements already accepted can still be pulled (from a timed queue once they are due), then pulls report closed; every thread blocked in push or pull is woken, and each push either reported success and is delivered or reported closed and is not.",
  "schedules programs", "every interleaving of close with 1-2 blocked or racing producers and consumers, all queue types", why("close racing with blocking operations is not sampled."),
  [T+"concurrent_queues/sync_queue.hpp", T+"concurrent_queues/sync_bounded_queue.hpp", T+"concurrent_queues/sync_deque.hpp", T+"concurrent_queues/sync_priority_queue.hpp", T+"concurrent_queues/sync_timed_queue.hpp", T+"concurrent_queues/detail/sync_queue_base.hpp"], [("close", T+"concurrent_queues/detail/sync_queue_base.hpp")])
p("Q04", "Priority and timed queues deliver by priority and never early", "sync_priority_queue pulls the highest-priority element present, exactly once each; sync_timed_queue never delivers an element before its time, delivers it without further events once its time has come, earliest first, also when an earlier element arrives while a consumer waits for a later one. A push that throws because copying the element threw leaves the queue as it was.",
  "schedules histories inputs", "every interleaving of producers, consumers and clock ticks; sequences against a reference model", why("an earlier element arriving while a consumer sleeps is not sampled."),
  [T+"concurrent_queues/sync_priority_queue.hpp", T+"concurrent_queues/sync_timed_queue.hpp"], [("wait_until_time_not_reached_until", T+"concurrent_queues/sync_timed_queue.hpp")])
p("E01", "Thread pools run every accepted task exactly once", "Every closure accepted by a basic_thread_pool before close runs exactly once, also when close or destruction follows at once; every worker runs the entry function first; after close submissions raise sync_queue_is_closed, join waits for the workers and all accepted closures, and destruction, also of a scheduled pool or after a failed construction, leaves no running worker.",
  "schedules programs", "every interleaving of 1-2 submitters, 1-2 workers, close, join and destruction", why("submission racing with destruction is not sampled."),
  [T+"executors/basic_thread_pool.hpp", T+"thread_pool.hpp", T+"executors/executor_adaptor.hpp", T+"executors/generic_executor_ref.hpp"], [("basic_thread_pool::worker_thread", T+"executors/basic_thread_pool.hpp")])
p("E02", "Serial executors run tasks one at a time in submission order", "serial_executor and serial_executor_cont run every accepted closure exactly once, one at a time, in submission order, each seeing the effects of its predecessors, whatever the parallelism of the underlying executor.",
  "schedules programs", "every interleaving of 1-2 submitters and 2 workers", why("overlap and reordering need concurrent workers at the right moment."),
  [T+"executors/serial_executor.hpp", T+"executors/serial_executor_cont.hpp"], [("serial_executor::worker_thread", T+"executors/serial_executor.hpp")])
p("E03", "loop, inline and thread executors honour submit, close and run", "inline_executor runs each closure in the submitting call, thread_executor in its own thread joined by destruction, loop_executor and user_scheduler in whichever thread runs their loop, each exactly once; after close submissions raise sync_queue_is_closed and closed() is true; the loop drains what was accepted.",
  "schedules histories", "every interleaving of submitter, loop runner and closer", why("close racing with submit and the loop is not sampled."),
  [T+"executors/loop_executor.hpp", T+"executors/inline_executor.hpp", T+"executors/thread_executor.hpp"], [("thread_executor", T+"executors/thread_executor.hpp")])
p("E04", "Scheduled work runs once and never before its time", "Work submitted to scheduler, scheduling_adaptor or scheduled_thread_pool for a time point or after a delay runs exactly once, not before that time, and without further stimulus once it has come; resubmission through a bound executor does too.",
  "schedules inputs", "every interleaving of submitters, workers and clock ticks with 1-2 delays", why("earlier work arriving while a worker sleeps is not sampled."),
  [T+"executors/scheduler.hpp", T+"executors/scheduling_adaptor.hpp", T+"executors/scheduled_thread_pool.hpp", T+"executors/detail/scheduled_executor_base.hpp", T+"executors/detail/priority_executor_base.hpp"], [("scheduled_executor_base", T+"executors/detail/scheduled_executor_base.hpp")])
p("V01", "synchronized_value and externally_locked expose data only under the lock", "Every access to a synchronized_value, through ->, *, value, synchronize, assignment, swap, comparison or conversion, happens while its mutex is held, is atomic with respect to the others, and simultaneous access to several never deadlocks. externally_locked yields its object only to a lock owning its mutex.",
  "schedules programs", "every interleaving of 2 threads over every access form", why("unprotected accesses show only under a race; opposite-order access needs an ABBA schedule."),
  [T+"synchronized_value.hpp", T+"externally_locked.hpp"], [("synchronized_value", T+"synchronized_value.hpp")])
p("R01", "task_region joins all its tasks and reports their exceptions", "task_region returns only after every task started in it, nested ones included, has finished; their effects are visible after it, and exceptions of tasks and body are reported together, none lost.",
  "schedules programs fault_sequences", "every interleaving of 1-3 tasks with every subset throwing", why("exception collection from concurrent tasks is not sampled."),
  [T+"experimental/task_region.hpp", T+"experimental/exception_list.hpp"], [("task_region_handle_gen::wait_all", T+"experimental/task_region.hpp")])
p("N01", "Sleeps and timed waits end at their time, whatever the system clock does", "sleep_for, sleep_until, wait_for and the other duration forms block for at least the duration and end promptly after it, by the steady clock, even if the system clock is set forward or back meanwhile; system-clock deadlines follow the system clock.",
  "schedules inputs fault_sequences configurations", "every duration form against every clock jump position, with and without a usable monotonic clock", "Tests cannot set the system clock, and real time makes margins loose.",
  [T+"detail/platform_time.hpp", "src/pthread/thread.cpp", P+"condition_variable_fwd.hpp"], [("internal_timespec_clock", T+"detail/platform_time.hpp"), ("sleep_until", "src/pthread/thread.cpp")])
p("X01", "Resource failures raise errors and leave everything usable", "If creating a thread, initialising a mutex or condition variable, or allocating memory fails, the operation throws the documented error, leaks nothing, runs nothing, leaves existing objects unchanged and usable, and never deadlocks; interrupted system calls (EINTR) are retried unseen.",
  "fault_sequences programs", "one failure at every possible position of each operation, combined with the schedules", "Faults are not injected by any test.",
  ["src/pthread/thread.cpp", P+"mutex.hpp", P+"recursive_mutex.hpp", P+"condition_variable.hpp", T+"future.hpp"], [("start_thread_noexcept", "src/pthread/thread.cpp"), ("mutex constructors", P+"mutex.hpp")])

def main():
    from checks import CHECKS, WHY_NOT
    with open(f"{V}/properties.jsonl", "w") as f:
        for x in PROPS:
            assert len(x["title"]) <= 80, x["id"]
            assert len([s for s in x["statement"].split(". ") if s]) <= 3, x["id"]
            for fn in x["anchors"]["files"]: assert os.path.exists("/repo/" + fn), fn
            f.write(json.dumps(x) + "\n")
    m = dict(version=1, setup_cmd="python3 bin/check --setup",
        hooks=dict(guard="BOOST_THREAD_VS_NONE", enable="no hooks are needed: the checks compile /repo's unmodified headers and sources", source_commits=[]),
        checks=[], not_applicable=[])
    for x in PROPS:
        i = x["id"]
        if i in CHECKS:
            m["checks"].append(dict(property=i, quick_cmd=f"python3 bin/check {i} --tier quick", thorough_cmd=f"python3 bin/check {i} --tier thorough",
                technique="stateless model checking of the compiled code: exhaustive exploration of schedules, choices and faults within a deviation bound, with happens-before state caching",
                level="model_checking", level_note="Exhaustive within the bounds of each scenario (threads and operations as written, deviations reported in the evidence); sequentially consistent interleavings, weaker orders surface as data races; pthread, clocks and malloc are modelled."))
        else: m["not_applicable"].append(dict(property=i, reason=WHY_NOT.get(i, "no check built yet")))
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
    print(len(PROPS), "properties,", len(m["checks"]), "claimed")
main()
