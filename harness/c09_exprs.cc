// The whole simplifier on enumerated expressions, under facts about the variables.
#include "bounded.h"
#include "slinky/builder/simplify.h"
using namespace slinky;

static void same_value(bounded_gen& b, const expr& e) {
  expr s = simplify(e, b.bounds, b.alignment);
  sx_cover("simplified");
  long v = evaluate(e, b.ctx), w = evaluate(s, b.ctx);
  sx_observe(v);
  sx_observe(w);
  sx_assert_msg(v == w, "simplify changes the value");
}
// One operator, all facts.
SX_HARNESS(facts, "simplified") {
  bounded_gen b;
  int k = sx_pick("op", E_COUNT);
  b.init(eop_nonlinear(k), -1);
  same_value(b, sx_thorough() ? b.g.op_leaves(k, true).e : b.g.op_short(k).e);
}
// Two nested operators.
static void nested(int pos, int mode) {
  bounded_gen b;
  int k1 = sx_pick("outer", E_COUNT), k2 = sx_pick("inner", E_COUNT);
  if (eop_unary(k1) && pos > 0) sx_stop();
  if (k1 != E_SELECT && pos > 1) sx_stop();
  if (pos == 1 && eop_commutative(k1) && !sx_thorough()) sx_stop();
  if (sx_thorough() == 0 && (k1 == E_LET || k2 == E_LET) && pos == 1) sx_stop();
  b.init(eop_nonlinear(k1) || eop_nonlinear(k2), mode);
  same_value(b, b.nested(k1, k2, pos).e);
}
SX_HARNESS(nested_first, "simplified") { nested(0, 0); }
SX_HARNESS(nested_second, "simplified") { nested(1, 0); }
SX_HARNESS(nested_third, "simplified") { nested(2, 0); }
SX_HARNESS(nested_first_bounded, "simplified") { nested(0, 1); }
SX_HARNESS(nested_second_bounded, "simplified") { nested(1, 1); }
SX_HARNESS(nested_first_aligned, "simplified") { nested(0, 3); }
// Intervals.
SX_HARNESS(intervals, "simplified") {
  bounded_gen b;
  int k = sx_pick("op", E_COUNT);
  if (!sx_thorough() && k > E_MAX) sx_stop();
  b.init(eop_nonlinear(k), sx_thorough() ? sx_pick("mode", 2) : 0);
  enode lo = sx_thorough() ? b.g.op_leaves(k, true) : b.g.op_few(k), hi = b.g.leaf();
  int end = sx_pick("ends", 3);
  interval_expr i = end == 0 ? interval_expr(lo.e, hi.e) : end == 1 ? interval_expr(hi.e, lo.e) : point(lo.e);
  interval_expr s = simplify(i, b.bounds, b.alignment);
  sx_cover("simplified");
  sx_assert_msg(evaluate(s.min, b.ctx) == evaluate(i.min, b.ctx), "simplify changes the minimum");
  sx_assert_msg(evaluate(s.max, b.ctx) == evaluate(i.max, b.ctx), "simplify changes the maximum");
}
