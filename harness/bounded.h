// Expressions whose variables satisfy symbolic bounds and alignment facts.
#pragma once
#include "exprs.h"
#include "slinky/builder/simplify.h"

namespace slinky {

struct bounded_gen {
  egen g;
  bounds_map bounds;
  alignment_map alignment;
  eval_context ctx;
  eval_config config;
  long X;
  int few_facts = 4;  // In the quick tier.
  bool outer_few = false;  // The other operands of the outer operation are y, or constants beside *, / and %.
  // mode: 0 nothing known; 1 constant bounds of x; 2 one sided or symbolic bounds; 3 alignment; -1 pick any, for x and y.
  void init(bool nonlinear, int mode) {
    X = nonlinear ? (sx_thorough() ? 24 : 12) : 1000;
    g.clo = nonlinear ? -3 : -8;
    g.chi = nonlinear ? 4 : 8;
    ctx.config = &config;
    static const char* names[] = {"x", "y", "z", "w"};
    for (int i = 0; i < egen::max_vars; ++i) {
      g.vals[i] = sx_int(names[i], -X, X);
      ctx[var(i)] = g.vals[i];
    }
    ctx[var(eop_let_sym)] = 12345;
    if (mode == -1) {
      static const int few[] = {1, 5, 7, 2};
      fact(0, sx_thorough() ? sx_pick("fact_x", 9) : few[sx_pick("fact_x", few_facts)]);
      fact(1, sx_pick("fact_y", sx_thorough() ? 9 : 1));
    } else if (mode == 1) {
      fact(0, 1);
    } else if (mode == 3) {
      fact(0, 7);
    }
  }
  void fact(int i, int kind) {
    long v = g.vals[i];
    index_t lo, hi;
    expr other = variable::make(var(2));
    long vo = g.vals[2];
    switch (kind) {
    case 0: return;
    case 1:  // [c, d]
      lo = sx_int("lo", -X / 2, X / 2), hi = sx_int("hi", -X / 2, X / 2);
      sx_assume(lo <= v && v <= hi);
      bounds[var(i)] = {expr(lo), expr(hi)};
      break;
    case 2:
      lo = sx_int("lo", -X / 2, X / 2);
      sx_assume(lo <= v);
      bounds[var(i)] = {expr(lo), expr()};
      break;
    case 3:
      hi = sx_int("hi", -X / 2, X / 2);
      sx_assume(v <= hi);
      bounds[var(i)] = {expr(), expr(hi)};
      break;
    case 4:
      lo = sx_int("lo", -X / 2, X / 2);
      sx_assume(lo <= v);
      bounds[var(i)] = {expr(lo), positive_infinity()};
      break;
    case 5:  // [z, z + c]
      hi = sx_int("hi", 0, 5);
      sx_assume(vo <= v && v <= vo + hi);
      bounds[var(i)] = {other, other + hi};
      break;
    case 6:  // [c, z]
      lo = sx_int("lo", -X / 2, X / 2);
      sx_assume(lo <= v && v <= vo);
      bounds[var(i)] = {expr(lo), other};
      break;
    case 7:  // a multiple of m, plus r
    case 8: {
      long m = sx_pick_range("m", 2, sx_thorough() ? 6 : 4);
      long r = sx_pick_range("r", 0, m - 1);
      sx_assume(ref_mod(v, m) == r);
      alignment[var(i)] = alignment_type(m, r);
      if (kind == 8) fact(i, 1);
      break;
    }
    }
  }
  // k1 with an operand k2(...) at position pos.
  enode nested(int k1, int k2, int pos) {
    enode in = sx_thorough() ? g.op_leaves(k2, true) : g.op_few(k2);
    enode a[3];
    int n = eop_unary(k1) ? 1 : k1 == E_SELECT ? 3 : 2;
    for (int i = 0; i < n; ++i) {
      if (i == pos) a[i] = in;
      else if (n == 3 && !sx_thorough() && i == 2) a[i] = g.variable_leaf(2);
      else if (outer_few) a[i] = eop_nonlinear(k1) ? g.constant_leaf("c") : g.variable_leaf(1);
      else a[i] = g.leaf();
    }
    return g.op(k1, a[0], a[1], a[2]);
  }
};

}  // namespace slinky
