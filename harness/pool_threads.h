// Replaces the threads, locks and atomics of the sources that follow by ones that are scheduled by scheduler.h.
#pragma once
#include "scheduler.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <shared_mutex>
#include <string>
#include <thread>
#include <utility>
#include <vector>

namespace std {

template <typename T>
class sx_atomic {
  T v;
  T change(T n) {
    T old = v;
    v = n;
    ++sched::version;
    return old;
  }

public:
  sx_atomic() : v() {}
  constexpr sx_atomic(T x) : v(x) {}
  sx_atomic(const sx_atomic&) = delete;
  sx_atomic& operator=(const sx_atomic&) = delete;
  T load(memory_order = memory_order_seq_cst) const { sched::point(); return v; }
  operator T() const { return load(); }
  void store(T x, memory_order = memory_order_seq_cst) { sched::point(); change(x); }
  T operator=(T x) { store(x); return x; }
  T exchange(T x, memory_order = memory_order_seq_cst) { sched::point(); return change(x); }
  T fetch_add(T x, memory_order = memory_order_seq_cst) { sched::point(); return change(v + x); }
  T fetch_sub(T x, memory_order = memory_order_seq_cst) { sched::point(); return change(v - x); }
  T fetch_or(T x, memory_order = memory_order_seq_cst) { sched::point(); return change(v | x); }
  T fetch_and(T x, memory_order = memory_order_seq_cst) { sched::point(); return change(v & x); }
  T operator++() { return fetch_add(1) + 1; }
  T operator--() { return fetch_sub(1) - 1; }
  T operator++(int) { return fetch_add(1); }
  T operator--(int) { return fetch_sub(1); }
  T operator+=(T x) { return fetch_add(x) + x; }
  T operator-=(T x) { return fetch_sub(x) - x; }
  bool compare_exchange_strong(T& e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) {
    sched::point();
    if (v == e) return change(d), true;
    e = v;
    return false;
  }
  bool compare_exchange_weak(T& e, T d, memory_order a = memory_order_seq_cst, memory_order b = memory_order_seq_cst) {
    return compare_exchange_strong(e, d, a, b);
  }
  bool is_lock_free() const { return true; }
};

class sx_mutex {
  int owner = -1;

public:
  void lock() {
    sched::point();
    if (owner == sched::current) sx_fail("a thread locks a mutex it holds");
    sched::wait([this] { return owner < 0; });
    owner = sched::current;
  }
  bool try_lock() {
    sched::point();
    if (owner >= 0) return false;
    owner = sched::current;
    return true;
  }
  void unlock() {
    if (owner != sched::current) sx_fail("a thread unlocks a mutex it does not hold");
    owner = -1;
    sched::point();
  }
  ~sx_mutex() {
    if (owner >= 0) sx_fail("a mutex is destroyed while it is held");
  }
};
using sx_recursive_mutex = sx_mutex;

class sx_condition_variable {
  struct waiter {
    bool signaled = false;
    waiter* next;
  };
  waiter* first = nullptr;

public:
  template <typename L>
  void wait(L& l) {
    waiter w;
    w.next = nullptr;
    waiter** p = &first;
    while (*p) p = &(*p)->next;
    *p = &w;
    sched::threads[sched::current].spin = false;
    l.unlock();
    sched::wait([&] { return w.signaled; });
    l.lock();
  }
  template <typename L, typename P>
  void wait(L& l, P p) {
    while (!p()) wait(l);
  }
  void notify_one() {
    int n = 0;
    for (waiter* i = first; i; i = i->next) ++n;
    if (n == 0) return;
    ++sched::version;
    int k = n == 1 ? 0 : sx_pick("notify", n);
    waiter** p = &first;
    while (k-- > 0) p = &(*p)->next;
    waiter* w = *p;
    *p = w->next;
    w->signaled = true;
  }
  void notify_all() {
    if (first) ++sched::version;
    while (first) {
      waiter* w = first;
      first = w->next;
      w->signaled = true;
    }
  }
  ~sx_condition_variable() {
    if (first) sx_fail("a condition variable is destroyed while a thread waits for it");
  }
};
using sx_condition_variable_any = sx_condition_variable;

class sx_thread {
  int id = 0;

public:
  sx_thread() = default;
  template <typename F, typename... A>
  explicit sx_thread(F f, A... a) {
    id = sched::start([f = std::move(f), a...]() mutable { f(a...); });
    sched::point();
  }
  sx_thread(sx_thread&& o) : id(o.id) { o.id = 0; }
  sx_thread& operator=(sx_thread&& o) {
    std::swap(id, o.id);
    return *this;
  }
  bool joinable() const { return id != 0; }
  void join() {
    sched::join(id);
    id = 0;
  }
  ~sx_thread() {
    if (id) sx_fail("a thread is destroyed without having been joined");
  }
  static unsigned hardware_concurrency() { return 4; }
};
namespace this_thread {
inline void sx_yield() { sched::yield(); }
}  // namespace this_thread

}  // namespace std

#define atomic sx_atomic
#define mutex sx_mutex
#define recursive_mutex sx_recursive_mutex
#define condition_variable sx_condition_variable
#define condition_variable_any sx_condition_variable_any
#define thread sx_thread
#define yield sx_yield
