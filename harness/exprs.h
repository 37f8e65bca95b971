// Enumerated expression trees over a few variables and symbolic constants, with a reference value.
#pragma once
#include <initializer_list>
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/expr.h"
#include "sx.h"

namespace slinky {

// The definition of the operators, written independently of the library.
static inline long ref_div(long a, long b) {
  if (b == 0) return 0;
  long q = a / b, r = a % b;
  if (r < 0) q += b < 0 ? 1 : -1;
  return q;
}
static inline long ref_mod(long a, long b) {
  if (b == 0) return 0;
  long r = a % b;
  if (r < 0) r += b < 0 ? -b : b;
  return r;
}

enum eop { E_ADD, E_SUB, E_MUL, E_DIV, E_MOD, E_MIN, E_MAX, E_EQ, E_NE, E_LT, E_LE, E_AND, E_OR, E_NOT, E_SELECT, E_ABS, E_LET, E_AND_THEN, E_OR_ELSE, E_COUNT };
static inline bool eop_nonlinear(int k) { return k == E_MUL || k == E_DIV || k == E_MOD; }
static inline bool eop_commutative(int k) { return k == E_ADD || k == E_MUL || k == E_MIN || k == E_MAX || k == E_EQ || k == E_NE || k == E_AND || k == E_OR; }
static inline bool eop_unary(int k) { return k == E_NOT || k == E_ABS; }
static inline bool eop_boolean(int k) { return (k >= E_EQ && k <= E_NOT) || k >= E_AND_THEN; }

static const int eop_let_sym = 9;

// make: node constructors; otherwise the operators of the API, which fold constants.
static expr eop_make(int k, expr a, expr b, expr c, bool make) {
  switch (k) {
  case E_ADD: return make ? add::make(a, b) : a + b;
  case E_SUB: return make ? sub::make(a, b) : a - b;
  case E_MUL: return make ? mul::make(a, b) : a * b;
  case E_DIV: return make ? div::make(a, b) : a / b;
  case E_MOD: return make ? mod::make(a, b) : a % b;
  case E_MIN: return make ? min::make(a, b) : min(a, b);
  case E_MAX: return make ? max::make(a, b) : max(a, b);
  case E_EQ: return make ? equal::make(a, b) : a == b;
  case E_NE: return make ? not_equal::make(a, b) : a != b;
  case E_LT: return make ? less::make(a, b) : a < b;
  case E_LE: return make ? less_equal::make(a, b) : a <= b;
  case E_AND: return make ? logical_and::make(a, b) : a && b;
  case E_OR: return make ? logical_or::make(a, b) : a || b;
  case E_NOT: return make ? logical_not::make(a) : !a;
  case E_SELECT: return make ? select::make(a, b, c) : select(a, b, c);
  case E_ABS: return make ? call::make(intrinsic::abs, {a}) : abs(a);
  // let t = a in t + (b - t) * 2 (the body refers to the let twice, and to the other operand).
  case E_LET: return let::make(var(eop_let_sym), a, add::make(variable::make(var(eop_let_sym)), sub::make(b, variable::make(var(eop_let_sym)))) + variable::make(var(eop_let_sym)));
  case E_AND_THEN: return call::make(intrinsic::and_then, {a, b});
  case E_OR_ELSE: return call::make(intrinsic::or_else, {a, b});
  }
  return expr();
}
static long eop_ref(int k, long a, long b, long c) {
  switch (k) {
  case E_ADD: return a + b;
  case E_SUB: return a - b;
  case E_MUL: return a * b;
  case E_DIV: return ref_div(a, b);
  case E_MOD: return ref_mod(a, b);
  case E_MIN: return a < b ? a : b;
  case E_MAX: return a > b ? a : b;
  case E_EQ: return a == b;
  case E_NE: return a != b;
  case E_LT: return a < b;
  case E_LE: return a <= b;
  case E_AND: return a != 0 && b != 0;
  case E_OR: return a != 0 || b != 0;
  case E_NOT: return a == 0;
  case E_SELECT: return a != 0 ? b : c;
  case E_ABS: return a < 0 ? -a : a;
  case E_LET: return a + b - a + a;
  case E_AND_THEN: return a != 0 ? b != 0 : 0;
  case E_OR_ELSE: return a != 0 ? 1 : b != 0;
  }
  return 0;
}

struct enode {
  expr e;
  long v = 0;
};

struct egen {
  static const int max_vars = 4;
  int vars = 2;
  long vals[max_vars];      // Values of the variables (symbolic).
  long clo = -3, chi = 4;   // Range of the constants.
  bool make = true;
  bool ref = false;         // Compute the reference value.
  enode constant_leaf(const char* name) {
    enode r;
    long c = sx_int(name, clo, chi);
    r.e = constant::make(c);
    r.v = c;
    return r;
  }
  enode variable_leaf(int i) { return {variable::make(var(i)), vals[i]}; }
  // The first leaf is x or a constant, the others any variable or a constant.
  enode leaf(bool first = false) {
    int n = first ? 1 : vars;
    int k = sx_pick("leaf", n + 1);
    return k == n ? constant_leaf("c") : variable_leaf(k);
  }
  // One of the leaves is a constant or y, the others are x.
  enode op_short(int k) {
    int p = eop_unary(k) ? 1 : sx_pick("pos", k == E_SELECT ? 3 : eop_commutative(k) ? 1 : 2);
    enode l[3] = {variable_leaf(0), variable_leaf(0), variable_leaf(0)};
    if (eop_commutative(k)) p = 1;
    if (!eop_unary(k)) l[p] = sx_pick("leaf", 2) ? constant_leaf("c") : variable_leaf(1);
    return op(k, l[0], l[1], l[2]);
  }
  // The first leaf is x, the second y or a constant, the third x.
  enode op_few(int k) {
    enode a = variable_leaf(0), b, c = variable_leaf(0);
    if (!eop_unary(k)) b = sx_pick("leaf", 2) ? constant_leaf("c") : variable_leaf(1);
    return op(k, a, b, c);
  }
  enode op(int k, const enode& a, const enode& b, const enode& c) {
    enode r;
    r.e = eop_make(k, a.e, b.e, c.e, make);
    if (ref) r.v = eop_ref(k, a.v, b.v, c.v);
    return r;
  }
  enode op_leaves(int k, bool first) {
    enode a = leaf(first), b, c;
    if (!eop_unary(k)) b = leaf();
    if (k == E_SELECT) c = leaf();
    return op(k, a, b, c);
  }
};

}  // namespace slinky
