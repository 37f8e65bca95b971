// Operations on intervals.
#include "ext.h"
using namespace slinky;
#define T sx_thorough()

static const char lo_msg[] = "a value is below the min of the result", hi_msg[] = "a value is above the max of the result";

// An interval and what it contains: the min and max may be missing or infinite (both are unbounded).
struct gen {
  eval_context ctx;
  eval_config config;
  long X;
  int sym = 0;
  gen(long X) : X(X) { ctx.config = &config; }
  long end_value;
  expr end(int kind, const char* name) {
    end_value = sx_int(name, -X, X);
    if (kind == 0) return expr(end_value);
    var v(sym++);
    ctx[v] = end_value;
    return variable::make(v);
  }
};
struct iv {
  interval_expr e;
  bool has_lo = false, has_hi = false;
  long lo = 0, hi = 0;
  bool has(long x) const { return (!has_lo || lo <= x) && (!has_hi || x <= hi); }
};
enum { UNDEFINED = 1, SYMBOLIC = 2 };
// what: which kinds of ends are allowed.
static iv any(gen& g, int what) {
  iv r;
  int n = what & SYMBOLIC ? 2 : 1;
  if (sx_pick("point", 2)) {
    expr x = g.end(sx_pick("kind", n), "point");
    r.e = point(x);
    r.has_lo = r.has_hi = true;
    r.lo = r.hi = g.end_value;
    return r;
  }
  // Constants, variables, infinities, undefined
  int k = sx_pick("lo_kind", n + 1 + (what & UNDEFINED ? 1 : 0));
  if (k < n) r.e.min = g.end(k, "lo"), r.has_lo = true, r.lo = g.end_value;
  else if (k == n) r.e.min = negative_infinity();
  k = sx_pick("hi_kind", n + 1 + (what & UNDEFINED ? 1 : 0));
  if (k < n) r.e.max = g.end(k, "hi"), r.has_hi = true, r.hi = g.end_value;
  else if (k == n) r.e.max = positive_infinity();
  return r;
}
static void verify(gen& g, const interval_expr& r, long v, bool simpl = true) {
  contains(r, v, g.ctx, lo_msg, hi_msg);
  if (!simpl) return;
  // Simplifying the result does not change what it contains.
  contains(simplify(r), v, g.ctx, lo_msg, hi_msg);
}
// A constant or variable.
static expr operand(gen& g, long& v, const char* name, long X, int kinds) {
  v = sx_int(name, -X, X);
  int k = sx_pick("operand", kinds);
  if (k == 0) return expr(v);
  var s(g.sym++);
  g.ctx[s] = v;
  if (k == 1) return variable::make(s);
  if (v < 0) v = -v;
  return abs(variable::make(s));
}
// Interval with an offset, or a scale.
SX_HARNESS(offset, "checked") {
  gen g(1000000);
  iv a = any(g, UNDEFINED | SYMBOLIC);
  long x = sx_int("x", -2000000, 2000000), o;
  sx_assume(a.has(x));
  expr e = operand(g, o, "offset", 1000000, 2);
  sx_cover("checked");
  switch (sx_pick("op", 4)) {
  case 0: verify(g, a.e + e, x + o); break;
  case 1: verify(g, e + a.e, x + o); break;
  case 2: verify(g, a.e - e, x - o); break;
  case 3: verify(g, e - a.e, o - x); break;
  }
}
SX_HARNESS(negate, "checked") {
  gen g(1000000);
  iv a = any(g, UNDEFINED | SYMBOLIC);
  long x = sx_int("x", -2000000, 2000000);
  sx_assume(a.has(x));
  sx_cover("checked");
  verify(g, -a.e, -x);
}
SX_HARNESS(scale, "checked") {
  long X = T ? 40 : 16;
  gen g(X);
  iv a = any(g, UNDEFINED | SYMBOLIC);
  long x = sx_int("x", -2 * X, 2 * X), s;
  sx_assume(a.has(x));
  expr e = operand(g, s, "scale", T ? 10 : 5, 3);
  sx_cover("checked");
  // The infinite ends of an interval multiplied by 0 have no value.
  switch (sx_pick("op", 2)) {
  case 0: verify(g, a.e * e, x * s); break;
  case 1: verify(g, e * a.e, x * s); break;
  }
}
SX_HARNESS(divide, "checked") {
  long X = T ? 40 : 16;
  gen g(X);
  iv a = any(g, UNDEFINED | SYMBOLIC);
  long x = sx_int("x", -2 * X, 2 * X), s;
  sx_assume(a.has(x));
  expr e = operand(g, s, "scale", T ? 10 : 5, 3);
  sx_cover("checked");
  verify(g, a.e / e, ref_div(x, s));
}
// Union and intersection.
SX_HARNESS(unite, "checked") {
  gen g(1000000);
  iv a = any(g, UNDEFINED | SYMBOLIC), b = any(g, UNDEFINED | SYMBOLIC);
  long x = sx_int("x", -2000000, 2000000);
  sx_assume(a.has(x) || b.has(x));
  sx_cover("checked");
  verify(g, a.e | b.e, x);
}
// Exactly the values that satisfy the ends.
static bool inside(const interval_expr& i, long x, gen& g) {
  bool r = true;
  if (i.min.defined()) {
    ext e = value(i.min, g.ctx);
    sx_assert_msg(e.ok, "an end has no value");
    r = r && (e.inf ? e.inf < 0 : e.v <= x);
  }
  if (i.max.defined()) {
    ext e = value(i.max, g.ctx);
    sx_assert_msg(e.ok, "an end has no value");
    r = r && (e.inf ? e.inf > 0 : x <= e.v);
  }
  return r;
}
SX_HARNESS(intersect, "in out") {
  gen g(1000000);
  iv a = any(g, UNDEFINED | SYMBOLIC), b = any(g, UNDEFINED | SYMBOLIC);
  long x = sx_int("x", -2000000, 2000000);
  bool in = a.has(x) && b.has(x);
  if (in) sx_cover("in");
  else sx_cover("out");
  interval_expr r = sx_pick("how", 2) ? simplify_intersection(a.e, b.e) : a.e & b.e;
  sx_assert_msg(inside(r, x, g) == in, "the intersection does not contain exactly the common values");
  sx_assert_msg(inside(simplify(r), x, g) == in, "the simplified intersection does not contain exactly the common values");
}
// Emptiness, containment, extents.
SX_HARNESS(queries, "empty not_empty") {
  gen g(1000000);
  iv a = any(g, UNDEFINED | SYMBOLIC);
  long x = sx_int("x", -2000000, 2000000);
  ext c = value(simplify(a.e.contains(expr(x))), g.ctx);
  sx_assert_msg(c.ok && c.inf == 0 && (c.v != 0) == a.has(x), "contains is wrong");
  if (!a.e.min.defined() || !a.e.max.defined()) sx_stop();
  ext m = value(simplify(a.e.empty()), g.ctx);
  sx_assert_msg(m.ok && m.inf == 0, "empty has no value");
  bool empty = a.has_lo && a.has_hi && a.lo > a.hi;
  sx_assert_msg((m.v != 0) == empty, "empty is wrong");
  if (empty) sx_cover("empty");
  else sx_cover("not_empty");
  if (a.has_lo && a.has_hi) {
    sx_assert_msg(evaluate(a.e.extent(), g.ctx) == a.hi - a.lo + 1, "the extent is wrong");
    sx_assert_msg(evaluate(a.e.begin(), g.ctx) == a.lo && evaluate(a.e.end(), g.ctx) == a.hi + 1, "begin or end is wrong");
  }
  sx_assert_msg(!inside(interval_expr::none(), x, g), "none contains something");
  sx_assert_msg(inside(interval_expr::all(), x, g), "all does not contain everything");
  sx_assert_msg(inside(a.e | interval_expr::union_identity(), x, g) == a.has(x), "the identity of unions is not neutral");
  sx_assert_msg(inside(a.e & interval_expr::intersection_identity(), x, g) == a.has(x), "the identity of intersections is not neutral");
}
SX_HARNESS(construct, "checked") {
  gen g(1000000);
  long b, e;
  expr eb = operand(g, b, "begin", 1000000, 2), ee = operand(g, e, "end", 1000000, 2);
  long x = sx_int("x", -2000000, 2000000);
  sx_cover("checked");
  sx_assert_msg(inside(range(eb, ee), x, g) == (b <= x && x < e), "range is wrong");
  sx_assert_msg(inside(bounds(eb, ee), x, g) == (b <= x && x <= e), "bounds is wrong");
  sx_assert_msg(inside(min_extent(eb, ee), x, g) == (b <= x && x < b + e), "min_extent is wrong");
  sx_assert_msg(inside(point(eb), x, g) == (x == b), "point is wrong");
  interval_expr i = bounds(eb, ee);
  if (b <= e) {
    long c = evaluate(clamp(expr(x), i), g.ctx);
    sx_assert_msg(b <= c && c <= e, "clamp is outside of the interval");
    sx_assert_msg(!(b <= x && x <= e) || c == x, "clamp changes a value in the interval");
    sx_assert_msg(c == x || c == b || c == e, "clamp is not the nearest value");
  }
}
SX_HARNESS(selects, "checked") {
  gen g(1000000);
  iv a = any(g, SYMBOLIC), b = any(g, SYMBOLIC);
  long c = sx_int("c", -1, 1), x = sx_int("x", -2000000, 2000000);
  var v(g.sym++);
  g.ctx[v] = c;
  expr cond = sx_pick("cond", 2) ? expr(c) : expr(variable::make(v));
  sx_cover("checked");
  sx_assert_msg(inside(select(cond, a.e, b.e), x, g) == (c ? a.has(x) : b.has(x)), "select is wrong");
}
SX_HARNESS(aligns, "checked") {
  long X = T ? 60 : 25;
  gen g(X);
  long lo = sx_int("lo", -X, X), hi = sx_int("hi", -X, X), x = sx_int("x", -2 * X, 2 * X), s;
  expr e = operand(g, s, "align", 6, 2);
  sx_assume(s > 0);
  sx_assume(lo <= hi);
  sx_cover("checked");
  interval_expr r = align(bounds(lo, hi), e);
  if (sx_pick("simplify", 2)) r = simplify(r);
  long rlo = evaluate(r.min, g.ctx), rhi = evaluate(r.max, g.ctx);
  sx_assert_msg(rlo <= lo && hi <= rhi, "aligning drops values");
  sx_assert_msg(lo - rlo < s && rhi - hi < s, "aligning adds too many values");
  sx_assert_msg(ref_mod(rlo, s) == 0 && ref_mod(rhi + 1, s) == 0, "not aligned");
}
// The bounds of an operation on any two intervals, whose ends are defined.
static void binary(int op, int what) {
  bool nonlinear = op >= 4;
  gen g(nonlinear ? T ? 12 : 5 : 100000);
  iv a = any(g, what), b = any(g, what);
  long X = 2 * g.X, x = sx_int("x", -X, X), y = sx_int("y", -X, X);
  sx_assume(a.has(x) && b.has(y));
  sx_cover("checked");
  switch (op) {
  case 0: verify(g, bounds_of(static_cast<const add*>(nullptr), a.e, b.e), x + y, false); break;
  case 1: verify(g, bounds_of(static_cast<const sub*>(nullptr), a.e, b.e), x - y, false); break;
  case 2: verify(g, bounds_of(static_cast<const class min*>(nullptr), a.e, b.e), x < y ? x : y, false); break;
  case 3: verify(g, bounds_of(static_cast<const class max*>(nullptr), a.e, b.e), x > y ? x : y, false); break;
  case 4: verify(g, bounds_of(static_cast<const mul*>(nullptr), a.e, b.e), x * y, false); break;
  case 5: verify(g, bounds_of(static_cast<const class div*>(nullptr), a.e, b.e), ref_div(x, y), false); break;
  case 6: verify(g, bounds_of(static_cast<const mod*>(nullptr), a.e, b.e), ref_mod(x, y), false); break;
  }
}
SX_HARNESS(combine, "checked") { binary(sx_pick("op", 4), SYMBOLIC); }
SX_HARNESS(multiply, "checked") { binary(4, T ? SYMBOLIC : 0); }
SX_HARNESS(quotient, "checked") { binary(5, T ? SYMBOLIC : 0); }
SX_HARNESS(remainder, "checked") { binary(6, T ? SYMBOLIC : 0); }
SX_HARNESS(compare, "checked") {
  gen g(1000);
  iv a = any(g, SYMBOLIC), b = any(g, SYMBOLIC);
  long x = sx_int("x", -2000, 2000), y = sx_int("y", -2000, 2000);
  sx_assume(a.has(x) && b.has(y));
  sx_cover("checked");
  switch (sx_pick("op", 4)) {
  case 0: verify(g, bounds_of(static_cast<const less*>(nullptr), a.e, b.e), x < y, false); break;
  case 1: verify(g, bounds_of(static_cast<const less_equal*>(nullptr), a.e, b.e), x <= y, false); break;
  case 2: verify(g, bounds_of(static_cast<const equal*>(nullptr), a.e, b.e), x == y, false); break;
  case 3: verify(g, bounds_of(static_cast<const not_equal*>(nullptr), a.e, b.e), x != y, false); break;
  }
}
