// Bounds, constant bounds and proofs about enumerated expressions.
#include "bounded.h"
#include "ext.h"
using namespace slinky;

enum { BOUNDS = 1, CONSTANT = 2, PROVE = 4 };
static void analyse(bounded_gen& b, const expr& e, int what) {
  long v = evaluate(e, b.ctx);
  sx_observe(v);
  sx_cover("analysed");
  if (what & BOUNDS) contains(bounds_of(e, b.bounds, b.alignment), v, b.ctx, "below the inferred minimum", "above the inferred maximum");
  if (what & PROVE) {
    auto p = attempt_to_prove(e, b.bounds, b.alignment);
    if (p) sx_assert_msg((v != 0) == *p, "a proof is wrong");
    if (prove_true(e, b.bounds, b.alignment)) sx_assert_msg(v != 0, "proven true but false");
    if (prove_false(e, b.bounds, b.alignment)) sx_assert_msg(v == 0, "proven false but true");
  }
  if (what & CONSTANT) {
    contains({constant_lower_bound(e), constant_upper_bound(e)}, v, b.ctx, "below the constant lower bound", "above the constant upper bound");
    if (auto c = evaluate_constant_lower_bound(e)) sx_assert_msg(*c <= v, "below the constant lower bound");
    if (auto c = evaluate_constant_upper_bound(e)) sx_assert_msg(v <= *c, "above the constant upper bound");
    if (auto c = evaluate_constant(e)) sx_assert_msg(v == *c, "not the constant");
  }
}
// One operator, all facts.
SX_HARNESS(facts, "analysed") {
  bounded_gen b;
  int k = sx_pick("op", E_COUNT);
  b.init(eop_nonlinear(k), -1);
  analyse(b, sx_thorough() ? b.g.op_leaves(k, true).e : b.g.op_short(k).e, BOUNDS);
}
SX_HARNESS(prove_facts, "analysed") {
  bounded_gen b;
  int k = sx_pick("op", E_LE - E_EQ + 1) + E_EQ;
  if (k == E_NE && !sx_thorough()) sx_stop();
  int k2 = sx_pick("inner", E_ABS + 1);
  if (!sx_thorough() && k2 >= E_EQ && k2 < E_SELECT) sx_stop();
  b.few_facts = 2;
  b.init(eop_nonlinear(k2), -1);
  enode in = sx_thorough() ? b.g.op_short(k2) : b.g.op_few(k2);
  enode c = !sx_thorough() || sx_pick("rhs", 2) ? b.g.constant_leaf("d") : b.g.variable_leaf(0);
  analyse(b, (k == E_LT || (k == E_LE && sx_thorough())) && sx_pick("swap", 2) ? b.g.op(k, c, in, c).e : b.g.op(k, in, c, c).e, PROVE);
}
// Two operators.
static void nested(int pos, int mode, int what) {
  bounded_gen b;
  int k1 = sx_pick("outer", E_COUNT), k2 = sx_pick("inner", E_COUNT);
  if (eop_unary(k1) && pos > 0) sx_stop();
  if (k1 != E_SELECT && pos > 1) sx_stop();
  if (pos == 1 && eop_commutative(k1) && !sx_thorough()) sx_stop();
  if (sx_thorough() == 0 && (k1 == E_LET || k2 == E_LET) && pos == 1) sx_stop();
  auto rare = [](int k) { return k == E_NE || k == E_LE || k == E_AND_THEN || k == E_OR_ELSE; };
  if (!sx_thorough() && (rare(k1) || rare(k2))) sx_stop();
  b.init(eop_nonlinear(k1) || eop_nonlinear(k2), mode);
  if (!sx_thorough()) b.outer_few = true;
  analyse(b, b.nested(k1, k2, pos).e, what);
}
SX_HARNESS(nested_first, "analysed") { nested(0, 1, BOUNDS); }
SX_HARNESS(nested_second, "analysed") { nested(1, 1, BOUNDS); }
SX_HARNESS(nested_aligned, "analysed") { nested(0, 3, BOUNDS); }
SX_HARNESS(nested_prove, "analysed") { nested(0, 1, PROVE); }
SX_HARNESS(constant_first, "analysed") { nested(0, 0, CONSTANT); }
SX_HARNESS(constant_second, "analysed") { nested(1, 0, CONSTANT); }

// The bounds of an operation on intervals: contains the operation on any members.
SX_HARNESS(operations, "analysed") {
  static const int ops[] = {E_MIN, E_MAX, E_ADD, E_SUB, E_MUL, E_DIV, E_MOD, E_LT, E_LE, E_EQ, E_NE, E_AND, E_OR, E_NOT, E_SELECT};
  int k = ops[sx_pick("op", 15)];
  bool nl = eop_nonlinear(k);
  long X = nl ? (sx_thorough() ? 20 : 8) : 1000;
  eval_config config;
  eval_context ctx;
  ctx.config = &config;
  ctx.reserve(4);
  interval_expr iv[3];
  long v[3];
  for (int i = 0; i < 3; ++i) {
    v[i] = 0;
    if (i >= (k == E_NOT ? 1 : k == E_SELECT ? 3 : 2)) break;
    // The operands of logical operations are already booleans.
    bool boolean = k == E_AND || k == E_OR || k == E_NOT || (k == E_SELECT && i == 0);
    v[i] = boolean ? sx_int("v", 0, 1) : sx_int("v", -X, X);
    // Constant, symbolic point, or half bounded.
    // (The bounds of a boolean operand are never infinite.)
    static const int boolean_kinds[] = {0, 1, 4};
    int kind = boolean ? boolean_kinds[sx_pick("kind", 3)] : sx_pick("kind", i == 2 && !sx_thorough() ? 1 : 5);
    long lo = 0, hi = 0;
    if (kind != 1) {
      lo = boolean ? sx_int("lo", 0, 1) : sx_int("lo", -X, X), hi = boolean ? sx_int("hi", 0, 1) : sx_int("hi", -X, X);
      if (kind != 3) sx_assume(lo <= v[i]);
      if (kind != 2) sx_assume(v[i] <= hi);
    }
    if (kind == 0) iv[i] = {expr(lo), expr(hi)};
    if (kind == 1) iv[i] = point(variable::make(var(i))), ctx[var(i)] = v[i];
    if (kind == 2) iv[i] = {expr(lo), positive_infinity()};
    if (kind == 3) iv[i] = {negative_infinity(), expr(hi)};
    if (kind == 4) iv[i] = {variable::make(var(i)), expr(hi)}, ctx[var(i)] = lo;
  }
  interval_expr r;
  switch (k) {
  case E_MIN: r = bounds_of(static_cast<const class min*>(nullptr), iv[0], iv[1]); break;
  case E_MAX: r = bounds_of(static_cast<const class max*>(nullptr), iv[0], iv[1]); break;
  case E_ADD: r = bounds_of(static_cast<const add*>(nullptr), iv[0], iv[1]); break;
  case E_SUB: r = bounds_of(static_cast<const sub*>(nullptr), iv[0], iv[1]); break;
  case E_MUL: r = bounds_of(static_cast<const mul*>(nullptr), iv[0], iv[1]); break;
  case E_DIV: r = bounds_of(static_cast<const slinky::div*>(nullptr), iv[0], iv[1]); break;
  case E_MOD: r = bounds_of(static_cast<const mod*>(nullptr), iv[0], iv[1]); break;
  case E_LT: r = bounds_of(static_cast<const less*>(nullptr), iv[0], iv[1]); break;
  case E_LE: r = bounds_of(static_cast<const less_equal*>(nullptr), iv[0], iv[1]); break;
  case E_EQ: r = bounds_of(static_cast<const equal*>(nullptr), iv[0], iv[1]); break;
  case E_NE: r = bounds_of(static_cast<const not_equal*>(nullptr), iv[0], iv[1]); break;
  case E_AND: r = bounds_of(static_cast<const logical_and*>(nullptr), iv[0], iv[1]); break;
  case E_OR: r = bounds_of(static_cast<const logical_or*>(nullptr), iv[0], iv[1]); break;
  case E_NOT: r = bounds_of(static_cast<const logical_not*>(nullptr), iv[0]); break;
  case E_SELECT: r = bounds_of(static_cast<const class select*>(nullptr), iv[0], iv[1], iv[2]); break;
  }
  sx_cover("analysed");
  contains(r, eop_ref(k, v[0], v[1], v[2]), ctx, "below the minimum", "above the maximum");
}
