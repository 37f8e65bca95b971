// Pipelines compute what their stages define, whatever the schedule and the size.
#include "schedules.h"
using namespace slinky;

#define T sx_thorough()
static void test(const graph& g, int max_step, int places, long emin, long emax, bool producer_loops = false, int symbol_orders = 1) {
  built b;
  b.make(g, symbol_orders > 1 && sx_pick("symbol_order", 2));
  int last = g.stages.size() - 1;
  pick_loops(b, last, g.rank[g.stages[last].out[0]], max_step);
  std::vector<bool> root(g.rank.size());
  for (int s = last - 1; s >= 0; --s) {
    if (producer_loops && sx_pick("own_loops", 2)) pick_loops(b, s, g.rank[g.stages[s].out[0]], 2);
    bool r = false;
    for (int o : g.stages[s].out) r = r || root[o];
    if (pick_place(b, s, last, places, r) || r)
      for (const access& a : g.stages[s].in) root[a.buf] = true;
  }
  b.build();
  run(b, emin, emax);
}
SX_HARNESS(stencil_1d, "ran") { test(stencil_chain(1, 1), 4, 6, 1, 6, false, 2); }
SX_HARNESS(stencils_1d, "ran") { test(stencil_chain(1, 2), T ? 4 : 2, T ? 6 : 5, 1, T ? 6 : 4, false, T ? 2 : 1); }
SX_HARNESS(stencil_2d, "ran") { test(stencil_chain(2, 1), T ? 3 : 2, 6, 1, T ? 4 : 3); }
SX_HARNESS(stencils_2d, "ran") { test(stencil_chain(2, 2), 2, T ? 5 : 2, T ? 1 : 2, T ? 3 : 2); }
SX_HARNESS(stencils_1d_loops, "ran") { test(stencil_chain(1, 2), 2, 3, T ? 1 : 3, T ? 5 : 4, true, T ? 2 : 1); }
SX_HARNESS(diamond, "ran") { test(diamond(1), T ? 4 : 2, T ? 6 : 3, T ? 1 : 3, T ? 5 : 4, false, 2); }
SX_HARNESS(diamond_2d, "ran") { test(diamond(2), T ? 2 : 1, T ? 4 : 2, T ? 1 : 2, T ? 3 : 2); }
SX_HARNESS(resample, "ran") { test(resample(), 3, T ? 6 : 3, 1, T ? 6 : 4, false, T ? 2 : 1); }
SX_HARNESS(reduce, "ran") { test(reduce(), T ? 3 : 2, T ? 6 : 3, T ? 1 : 2, T ? 4 : 3); }
SX_HARNESS(transposed, "ran") { test(transposed(), 2, 6, T ? 1 : 2, 3); }
SX_HARNESS(multiple_outputs, "ran") { test(multiple_outputs(), 3, 6, 1, 4, false, 2); }
SX_HARNESS(unrelated_outputs, "ran") { test(fork(), T ? 2 : 1, 2, T ? 1 : 2, T ? 4 : 2, T, 2); }
SX_HARNESS(two_outputs, "ran") { test(two_outputs(), 2, T ? 6 : 4, 1, T ? 4 : 3); }
