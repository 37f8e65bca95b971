// Reference counted objects live exactly as long as they are referenced.
#include "pool_threads.h"
#include "slinky/base/ref_count.h"
#include "slinky/base/thread_pool.h"
using namespace slinky;

namespace {
struct object : public ref_counted<object> {
  int id;
  long payload;
  slinky::ref_count<object> next;
  static int destroyed[4];
  object(int id, long payload) : id(id), payload(payload) {}
  static void destroy(object* o) {
    ++destroyed[o->id];
    sx_assert_msg(destroyed[o->id] == 1, "an object is destroyed twice");
    delete o;
  }
};
int object::destroyed[4] = {};
const int OBJECTS = 3, SLOTS = 3 + OBJECTS;
using ref = ref_count<object>;

// Slots 0..2 are local, the others are the fields of the objects.
struct model {
  ref local[3];
  object* made[OBJECTS] = {};
  bool alive[OBJECTS] = {};
  int is[SLOTS];
  long payload[OBJECTS];
  object* make(int i) {
    payload[i] = sx_int("payload", -1000000, 1000000);
    made[i] = new object(i, payload[i]), alive[i] = true;
    return made[i];
  }
  model() {
    for (int i = 0; i < SLOTS; ++i) is[i] = -1;
  }
  bool usable(int s) const { return s < 3 || alive[s - 3]; }
  ref& slot(int s) { return s < 3 ? local[s] : made[s - 3]->next; }
  // Who is referenced by a slot that exists; the rest goes away.
  void settle() {
    for (;;) {
      bool changed = false;
      for (int o = 0; o < OBJECTS; ++o) {
        if (!alive[o]) continue;
        int n = 0;
        for (int s = 0; s < SLOTS; ++s) n += usable(s) && is[s] == o;
        if (n > 0) continue;
        alive[o] = false;
        is[3 + o] = -1;
        changed = true;
      }
      if (!changed) return;
    }
  }
  void check() {
    for (int o = 0; o < OBJECTS; ++o) {
      if (!made[o]) continue;
      sx_assert_msg(object::destroyed[o] == !alive[o], alive[o] ? "an object is destroyed while it is referenced" : "an object that is not referenced is not destroyed");
      if (!alive[o]) continue;
      int n = 0;
      for (int s = 0; s < SLOTS; ++s) n += usable(s) && is[s] == o;
      sx_assert_msg(made[o]->ref_count() == n, "wrong number of references");
    }
    for (int s = 0; s < SLOTS; ++s) {
      if (!usable(s)) continue;
      const ref& r = slot(s);
      const object* p = r;
      sx_assert_msg(p == (is[s] < 0 ? nullptr : made[is[s]]), "a reference refers to another object");
      if (p) sx_assert_msg(p->payload == payload[is[s]] && p->id == is[s], "what a reference refers to has changed");
    }
  }
};
int pick_slot(model& m, const char* name) {
  int can[SLOTS], n = 0;
  for (int s = 0; s < SLOTS; ++s)
    if (m.usable(s)) can[n++] = s;
  return can[sx_pick(name, n)];
}
}  // namespace

static void history(int steps, bool start_chain) {
  model m;
  int used = 0;
  if (start_chain) {
    // 0 -> 1 -> 2, the list held by local 0, its middle by local 1.
    for (int i = 0; i < OBJECTS; ++i) m.make(i);
    m.local[0] = m.made[0], m.made[0]->next = m.made[1], m.made[1]->next = m.made[2];
    m.is[0] = 0, m.is[3] = 1, m.is[4] = 2;
    used = OBJECTS;
    if (sx_pick("middle", 2)) m.local[1] = m.made[1], m.is[1] = 1;
    m.check();
  }
  for (int k = 0; k < steps; ++k) {
    int op = sx_pick("op", 9);
    int a = pick_slot(m, "a");
    switch (op) {
    case 0: {  // A new object.
      if (used == OBJECTS) sx_stop();
      object* o = m.make(used);
      m.slot(a) = o;
      m.is[a] = used++;
      break;
    }
    case 1:  // Dropped.
      m.slot(a) = nullptr;
      m.is[a] = -1;
      break;
    case 2: {  // Copied.
      int b = pick_slot(m, "b");
      int v = m.is[b];
      m.slot(a) = m.slot(b);
      m.is[a] = v;
      break;
    }
    case 3: {  // Moved.
      int b = pick_slot(m, "b");
      if (a == b) {
        ref& r = m.slot(a);
        // Either nothing happens, or it refers to nothing.
        m.slot(a) = std::move(r);
        bool still = m.is[a] >= 0 && m.alive[m.is[a]] && object::destroyed[m.is[a]] == 0 && (a < 3 || object::destroyed[a - 3] == 0) &&
                     static_cast<const object*>(static_cast<const ref&>(m.slot(a))) != nullptr;
        if (!still) m.is[a] = -1;
        break;
      }
      int v = m.is[b];
      m.slot(a) = std::move(m.slot(b));
      m.is[b] = -1;
      m.is[a] = v;
      break;
    }
    case 4: {  // Copied by construction, and by pointer.
      int b = pick_slot(m, "b");
      int v = m.is[b];
      ref t(m.slot(b));
      object* p = t;
      m.slot(a) = p;
      m.is[a] = v;
      break;
    }
    case 5: {  // Moved by construction, to a pointer and back.
      int b = pick_slot(m, "b");
      int v = m.is[b];
      ref t(std::move(m.slot(b)));
      m.is[b] = -1;
      sx_assert_msg(!static_cast<const object*>(static_cast<const ref&>(m.slot(b))), "a moved reference still refers to its object");
      object* p = t.take();
      ref u = ref::assume(p);
      if (m.usable(a)) m.slot(a) = std::move(u), m.is[a] = v;
      break;
    }
    case 6: {  // Swapped.
      int b = pick_slot(m, "b");
      std::swap(m.slot(a), m.slot(b));
      std::swap(m.is[a], m.is[b]);
      break;
    }
    case 7: {  // The rest of a list replaces it.
      int v = m.is[a];
      if (v < 0) sx_stop();
      int w = m.is[3 + v];
      m.slot(a) = m.slot(a)->next;
      m.is[a] = w;
      break;
    }
    default: {  // Same, moved.
      int v = m.is[a];
      if (v < 0 || a == 3 + v) sx_stop();
      int w = m.is[3 + v];
      m.slot(a) = std::move(m.slot(a)->next);
      m.is[3 + v] = -1;
      m.is[a] = w;
      break;
    }
    }
    m.settle();
    // Objects that reference each other in a cycle are never destroyed: out of scope.
    m.check();
  }
  for (int i = 0; i < 3; ++i) m.local[i] = nullptr, m.is[i] = -1;
  m.settle();
  m.check();
  sx_cover("dropped");
}
SX_HARNESS(handles, "dropped") { history(sx_thorough() ? 4 : 3, false); }
SX_HARNESS(lists, "dropped") { history(sx_thorough() ? 3 : 2, true); }

// Threads that copy and drop references to the same objects.
SX_HARNESS(threads, "dropped") {
  sched::preemptions = sx_thorough() ? 3 : 2;
  object* o = new object(0, 7);
  ref main_ref(o);
  int n = 2 + sx_pick("threads", 2);
  int id[3];
  for (int i = 0; i < n; ++i) {
    ref r(main_ref);
    int how = sx_pick("how", 3);
    id[i] = sched::start([r, how]() mutable {
      ref t;
      if (how == 0) t = r;
      if (how == 1) t = std::move(r);
      sx_assert_msg(object::destroyed[0] == 0, "an object is destroyed while it is referenced");
      r = nullptr;
      if (how < 2) sx_assert_msg(object::destroyed[0] == 0, "an object is destroyed while it is referenced");
      t = nullptr;
    });
  }
  main_ref = nullptr;
  for (int i = 0; i < n; ++i) sched::join(id[i]);
  sx_assert_msg(object::destroyed[0] == 1, "an object that is not referenced is not destroyed");
  sx_cover("dropped");
}
