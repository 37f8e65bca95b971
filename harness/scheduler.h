// A scheduler of threads that run one at a time. Every choice of the thread to run is an input of the run.
#pragma once
#include "sx.h"
#include <functional>

namespace sched {

struct thread_state {
  bool done = false, used = false;
  bool spin = false;              // Spins until it gives up, while no other thread runs.
  const std::function<bool()>* ready = nullptr;  // What it waits for.
  long seen = -1;                 // Yielding: waits for a change, if there can be one.
  std::function<void()> body;
};
inline thread_state threads[16];
inline int count = 1, current = 0, preemptions = 0;
inline long version = 0;  // Counts changes of state.
inline bool finished = false;

inline bool runnable(int i, bool yielding) {
  thread_state& t = threads[i];
  if (t.done) return false;
  if (t.ready && !(*t.ready)()) return false;
  if (t.seen >= 0 && (t.seen == version) != yielding) return false;
  return true;
}
inline void go(int i) {
  if (i == current) return;
  threads[i].spin = false;
  current = i;
  sx_fiber_switch(i);
}
// Another thread may run here.
inline void point() {
  if (preemptions == 0 || threads[current].spin || finished) return;
  int others[16], n = 0;
  for (int i = 0; i < count; ++i)
    if (i != current && runnable(i, false)) others[n++] = i;
  if (n == 0) return;
  int k = sx_pick("preempt", n + 1);
  if (k == 0) return;
  --preemptions;
  go(others[k - 1]);
}
// The current thread can not go on: some other thread must run, or it if it can go on.
inline void stuck() {
  for (int pass = 0; pass < 2; ++pass) {
    int can[16], n = 0;
    for (int i = 0; i < count; ++i)
      if (runnable(i, pass == 1)) can[n++] = i;
    if (n == 0) continue;
    int i = can[n == 1 ? 0 : sx_pick("next", n)];
    if (pass == 1) threads[i].seen = -1, go(i), threads[current].spin = true;
    else go(i);
    return;
  }
  sx_fail("deadlock: no thread can run");
}
inline void wait(const std::function<bool()>& ready) {
  thread_state& t = threads[current];
  int self = current;
  while (!ready()) {
    t.ready = &ready;
    stuck();
    threads[self].ready = nullptr;
  }
}
// Gives others a chance: either they run until something changes, or this thread yields in vain.
inline void yield() {
  int self = current;
  thread_state& t = threads[self];
  if (t.spin) return;
  bool others = false;
  for (int i = 0; i < count; ++i) others |= i != self && runnable(i, false);
  if (!others || sx_pick("yield", 2) == 0) {
    t.spin = true;
    return;
  }
  t.seen = version;
  stuck();
  t.seen = -1;
}
inline void run_thread(void* p) {
  thread_state* t = (thread_state*)p;
  t->body();
  t->done = true;
  ++version;
  stuck();
}
inline int start(std::function<void()> body) {
  int i = count++;
  threads[i].body = std::move(body);
  threads[i].used = true;
  int k = sx_fiber_new(run_thread, &threads[i]);
  if (k != i) sx_fail("threads out of step");
  ++version;
  return i;
}
inline void join(int i) {
  wait([i] { return threads[i].done; });
}

}  // namespace sched
