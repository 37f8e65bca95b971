// The thread pool, under every schedule.
#include "pool_threads.h"
#include "slinky/base/thread_pool.cc"
#include "slinky/base/thread_pool_impl.cc"
using namespace slinky;

static void preempt(int quick, int thorough) { sched::preemptions = sx_thorough() ? thorough : quick; }

struct items {
  std::size_t n;
  int max_workers;
  int started[8] = {}, ended[8] = {};
  int running = 0;
  items(std::size_t n, int max_workers) : n(n), max_workers(max_workers) {}
  // The number of items is not chosen until the pool asks.
  items(int lo, int hi) : n(sx_int("n", lo, hi)) {
    // Any number of workers, one counter (1..3), or as many as there are.
    max_workers = sx_pick("any_workers", 2) ? std::numeric_limits<int>::max() : (int)sx_int("max_workers", 1, 3);
  }
  void run(std::size_t i) {
    sx_assert_msg(i < n, "an item that does not exist is run");
    sx_assert_msg(started[i] == 0, "an item is run twice");
    ++started[i];
    ++running;
    sx_assert_msg(running <= max_workers, "more workers than allowed run");
    sched::point();
    --running;
    ++ended[i];
  }
  bool done() const {
    for (std::size_t i = 0; i < n; ++i)
      if (ended[i] != 1) return false;
    return true;
  }
};
static int pick_max_workers() {
  int k = sx_pick("max_workers", 3);
  return k == 2 ? std::numeric_limits<int>::max() : k + 1;
}

SX_HARNESS(parallel_for, "done") {
  preempt(1, 3);
  int workers = sx_pick("workers", 3);
  items a(0, 3);
  {
    thread_pool_impl pool(workers);
    pool.parallel_for(a.n, [&](std::size_t i) { a.run(i); }, a.max_workers);
    sx_assert_msg(a.done(), "parallel_for returns before all items have run");
  }
  sx_cover("done");
}
SX_HARNESS(tasks, "done") {
  preempt(1, 3);
  int workers = sx_pick("workers", 3);
  items a(1, 3), b(1, 2);
  int order = sx_pick("order", 3);
  {
    thread_pool_impl pool(workers);
    auto ta = pool.enqueue(a.n, [&](std::size_t i) { a.run(i); }, a.max_workers);
    auto tb = pool.enqueue(b.n, [&](std::size_t i) { b.run(i); }, b.max_workers);
    if (order == 1) {
      pool.wait_for(&*tb);
      sx_assert_msg(b.done(), "wait_for returns before all items have run");
    }
    if (order == 2) {
      pool.wait_for([&]() { return ta->done() && tb->done(); });
    } else {
      pool.wait_for(&*ta);
    }
    sx_assert_msg(a.done() && ta->done(), "wait_for returns before all items have run");
    if (order == 0) pool.wait_for(&*tb);
    sx_assert_msg(b.done() && tb->done(), "wait_for returns before all items have run");
  }
  sx_cover("done");
}
// Two threads wait for the same task.
SX_HARNESS(waiters, "done") {
  preempt(1, 3);
  int workers = sx_pick("workers", 2);
  items a(1, 3);
  int how = sx_pick("how", 2);
  {
    thread_pool_impl pool(workers);
    auto t = pool.enqueue(a.n, [&](std::size_t i) { a.run(i); }, a.max_workers);
    int other = sched::start([&] {
      if (how == 0) pool.wait_for(&*t);
      else pool.wait_for([&]() { return t->done(); });
      sx_assert_msg(a.done(), "wait_for returns before all items have run");
    });
    pool.wait_for(&*t);
    sx_assert_msg(a.done(), "wait_for returns before all items have run");
    sched::join(other);
  }
  sx_cover("done");
}
// Conditions made true by atomic_call, by another thread or by a task.
SX_HARNESS(conditions, "done") {
  preempt(1, 3);
  int workers = sx_pick("workers", 3);
  int by_task = workers > 0 ? sx_pick("by_task", 2) : 0;
  int value = 0;
  {
    thread_pool_impl pool(workers);
    ref_count<thread_pool::task> t;
    int other = 0;
    if (by_task) {
      t = pool.enqueue([&] { pool.atomic_call([&] { ++value; }); });
    } else {
      other = sched::start([&] {
        pool.atomic_call([&] { ++value; });
        pool.wait_for([&] { return value == 2; });
        pool.atomic_call([&] { ++value; });
      });
    }
    pool.wait_for([&] { return value == 1; });
    pool.atomic_call([&] { ++value; });
    if (by_task) {
      pool.wait_for(&*t);
    } else {
      pool.wait_for([&] { return value == 3; });
      sched::join(other);
    }
  }
  sx_assert(value == (by_task ? 2 : 3));
  sx_cover("done");
}
// Loops in loops, and items that start tasks.
SX_HARNESS(nested, "done") {
  preempt(1, 3);
  int workers = 1 + sx_pick("workers", 2);
  int n = 2, m = 1 + sx_pick("m", 2);
  int how = sx_pick("how", 2);
  int max_workers = pick_max_workers();
  items* inner[2] = {};
  items a((std::size_t)n, max_workers);
  {
    thread_pool_impl pool(workers);
    pool.parallel_for(n, [&](std::size_t i) {
      items b((std::size_t)m, std::numeric_limits<int>::max());
      inner[i] = &b;
      if (how == 0) {
        pool.parallel_for(m, [&](std::size_t j) { b.run(j); });
      } else {
        auto t = pool.enqueue(m, [&](std::size_t j) { b.run(j); });
        pool.wait_for(&*t);
      }
      sx_assert_msg(b.done(), "the inner loop has not run");
      ++a.ended[i];
    }, max_workers);
    sx_assert_msg(a.done(), "the outer loop has not run");
  }
  sx_cover("done");
}
// Threads of the user that enter the pool.
SX_HARNESS(users, "done") {
  preempt(1, 3);
  items a(1, 3);
  int idle = sx_pick("idle", 2);
  bool stop = false;
  {
    thread_pool_impl pool(0);
    pool.expect_workers(1);
    int other = sched::start([&] {
      if (idle) pool.work_until_idle();
      else pool.run_worker([&] { return stop; });
    });
    if (sx_pick("loop", 2)) {
      pool.parallel_for(a.n, [&](std::size_t i) { a.run(i); }, a.max_workers);
    } else {
      auto t = pool.enqueue(a.n, [&](std::size_t i) { a.run(i); }, a.max_workers);
      pool.wait_for(&*t);
    }
    sx_assert_msg(a.done(), "wait_for returns before all items have run");
    pool.atomic_call([&] { stop = true; });
    sched::join(other);
  }
  sx_cover("done");
}
