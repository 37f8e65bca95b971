// Simplifying programs: what they do is not changed.
#include "programs.h"
#include "slinky/builder/simplify.h"
using namespace slinky;

static void test(int depth, int lo, int hi) {
  gen g;
  g.shadows = false, g.lite = !sx_thorough(), g.closures = false, g.rich = true;
  g.parallel = depth == 1;
  inputs in(true);
  in.sb.dims.push_back(dim(0, 3, 40));
  g.outer_lo = lo, g.outer_hi = hi;
  stmt s = g.scope(depth);
  show("stmt", s);
  outcome before, after;
  run(before, s, in, {}, memory_by::NAME);
  // A check that always fails is rejected.
  int reached = 0;
  for (long i : before.rec.log)
    for (int k = 0; k < g.checks; ++k) reached += i == 5000 + k;
  sx_abort_stops(before.rec.checks_failed > 0 || reached < g.checks);
  stmt t = simplify(s);
  sx_abort_stops(false);
  show("simplified", t);
  run(after, t, in, {}, memory_by::NAME);
  sx_cover("simplified");
  // A check that does not depend on a loop may run before it, and so fail earlier, or where the loop does nothing.
  if (before.rec.checks_failed > 0) {
    sx_assert_msg(after.rec.checks_failed > 0 && after.result != 0, "a check that fails no longer fails");
    return;
  }
  if (reached < g.checks && after.rec.checks_failed > 0) return;
  sx_assert_msg(before.equivalent(after), "simplifying a program changes what it does");
}
static const int K1 = gen::SLICE_BUFFER, K2 = gen::CLONE, K3 = gen::MAKE;
SX_HARNESS(one, "simplified") { test(1, 0, gen::KINDS); }
SX_HARNESS(crops, "simplified") { test(2, 0, K1); }
SX_HARNESS(slices, "simplified") { test(2, K1, K2); }
SX_HARNESS(values, "simplified") { test(2, K2, K3); }
SX_HARNESS(buffers, "simplified") { test(2, K3, gen::KINDS); }
