// Schedules of the pipelines of pipes.h.
#pragma once
#include "pipes.h"

namespace slinky {

// The loops of a stage of rank 1 or 2: none, or some of its dimensions with any step.
static inline void pick_loops(built& b, int s, int rank, int max_step) {
  int k = sx_pick("loops", rank == 1 ? 2 : 4);
  std::vector<func::loop_info> l;
  if (k & 1) l.push_back({b.dim_var(rank - 1), expr(sx_pick_range("step", 1, max_step))});
  if (k & 2) l.push_back({b.dim_var(0), expr(sx_pick_range("step", 1, max_step))});
  if (k == 3 && sx_pick("order", 2)) std::swap(l[0], l[1]);
  b.funcs[s].loops(l);
}
// Where a producer is computed and its output stored: relative to the loops of stage `last`.
// Returns true if it is computed outside of all loops, and so must be everything it needs.
static inline bool pick_place(built& b, int s, int last, int kinds, bool root) {
  const auto& l = b.funcs[last].loops();
  int k = sx_pick("place", l.empty() || root ? 2 : kinds);
  buffer_expr& out = *b.bufs[b.g.stages[s].out[0]];
  // The outermost loop is the last one.
  switch (k) {
  case 0: break;
  case 1: b.funcs[s].compute_root(); break;
  case 2: out.store_at({&b.funcs[last], l.back().var}); break;
  case 3: b.funcs[s].compute_at({&b.funcs[last], l.back().var}); break;
  case 4:
    b.funcs[s].compute_at({&b.funcs[last], l.back().var});
    out.store_at({&b.funcs[last], l.back().var});
    break;
  case 5: out.store_root(); break;
  }
  return k == 1;
}

}  // namespace slinky
