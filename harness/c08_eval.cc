// Evaluation of expressions against their mathematical definition.
#include "exprs.h"
using namespace slinky;

static eval_config config;
static void set_vars(egen& g, eval_context& ctx, long X) {
  static const char* names[] = {"x", "y", "z", "w"};
  ctx.config = &config;
  for (int i = 0; i < egen::max_vars; ++i) {
    g.vals[i] = sx_int(names[i], -X, X);
    ctx[var(i)] = g.vals[i];
  }
  ctx[var(eop_let_sym)] = 12345;
}

// Every pair of nested operators, every operand position, variables and constants as leaves.
static void trees(bool make, int pos) {
  egen g;
  g.make = make;
  g.ref = true;
  int k1 = sx_pick("outer", E_COUNT), k2 = sx_pick("inner", E_COUNT + 1);
  bool nl = eop_nonlinear(k1) + (k2 < E_COUNT && eop_nonlinear(k2)) > 0;
  eval_context ctx;
  set_vars(g, ctx, nl ? (sx_thorough() ? 40 : 12) : 1000000);
  enode l[3] = {g.variable_leaf(0), g.variable_leaf(1), g.variable_leaf(2)};
  int cpos = sx_pick("const_pos", 4);
  if (cpos < 3) l[cpos] = g.constant_leaf("c");
  enode in = l[0];
  int n1 = eop_unary(k1) ? 1 : k1 == E_SELECT ? 3 : 2;
  if (k2 < E_COUNT) {
    enode m[3] = {g.variable_leaf(3), cpos == 3 ? g.constant_leaf("c") : g.variable_leaf(0), g.variable_leaf(1)};
    in = g.op(k2, m[0], m[1], m[2]);
  }
  if (pos >= n1) sx_stop();
  if (k2 < E_COUNT) l[pos] = in;
  enode r = g.op(k1, l[0], l[1], l[2]);
  long v = evaluate(r.e, ctx);
  sx_observe(v);
  sx_cover("evaluated");
  sx_assert_msg(v == r.v, "evaluate differs from the definition");
  sx_assert_msg(ctx[var(eop_let_sym)] == 12345, "let is visible after the expression");
  for (int i = 0; i < egen::max_vars; ++i) sx_assert_msg(ctx[var(i)] == g.vals[i], "evaluation changed a variable");
}
SX_HARNESS(nodes_first, "evaluated") { trees(true, 0); }
SX_HARNESS(nodes_second, "evaluated") { trees(true, 1); }
SX_HARNESS(nodes_third, "evaluated") { trees(true, 2); }
SX_HARNESS(operators_first, "evaluated") { trees(false, 0); }
SX_HARNESS(operators_second, "evaluated") { trees(false, 1); }

// The operators of the API on two constants of any value: folded or not, the value is the definition's.
SX_HARNESS(constant_folding, "evaluated") {
  int k = sx_pick("op", E_COUNT);
  long X = eop_nonlinear(k) ? 30 : 1l << 60;
  long a = sx_int("a", -X, X), b = sx_int("b", -X, X), c = sx_int("c", -X, X);
  eval_context ctx;
  ctx.config = &config;
  ctx[var(eop_let_sym)] = 0;
  expr e = eop_make(k, expr(a), expr(b), expr(c), false);
  long v = evaluate(e, ctx);
  sx_observe(v);
  sx_cover("evaluated");
  sx_assert_msg(v == eop_ref(k, a, b, c), "operator on constants differs from the definition");
}

// Helper expressions of the API.
SX_HARNESS(helpers, "evaluated") {
  egen g;
  eval_context ctx;
  set_vars(g, ctx, 24);
  int k = sx_pick("helper", 16);
  expr x = variable::make(var(0)), y = variable::make(var(1)), z = variable::make(var(2));
  long vx = g.vals[0], vy = g.vals[1], vz = g.vals[2];
  auto mn = [](long a, long b) { return a < b ? a : b; };
  auto mx = [](long a, long b) { return a > b ? a : b; };
  expr e;
  long r = 0;
  if (k == 6 || k == 7) {
    vy = sx_pick_range("align", 1, sx_thorough() ? 12 : 6);
    ctx[var(1)] = vy;
    if (sx_pick("const_align", 2)) y = expr(vy);
  }
  switch (k) {
  case 0: e = -x; r = -vx; break;
  case 1: e = clamp(x, y, z); r = mn(mx(vx, vy), vz); sx_assume(vy <= vz); break;
  case 2: { expr a[] = {x, y, z}; e = min(span<expr>(a, 3)); r = mn(mn(vx, vy), vz); break; }
  case 3: { expr a[] = {x, y, z}; e = max(span<expr>(a, 3)); r = mx(mx(vx, vy), vz); break; }
  case 4: e = euclidean_div(x, y); r = ref_div(vx, vy); break;
  case 5: e = euclidean_mod(x, y); r = ref_mod(vx, vy); break;
  case 6: e = align_down(x, y); r = vx - ref_mod(vx, vy); break;
  case 7: e = align_up(x, y); r = vx + ref_mod(-vx, vy); break;
  case 8: e = boolean(x); r = vx != 0; break;
  case 9: e = x > y; r = vx > vy; break;
  case 10: e = x >= y; r = vx >= vy; break;
  case 11: e = x; e += y; e -= z; r = vx + vy - vz; break;
  case 12: e = x; e *= y; r = vx * vy; break;
  case 13: e = x; e /= y; r = ref_div(vx, vy); break;
  case 14: e = x; e %= y; r = ref_mod(vx, vy); break;
  case 15: e = -var(0); r = -vx; break;
  }
  long v = evaluate(e, ctx);
  sx_observe(v);
  sx_cover("evaluated");
  sx_assert_msg(v == r, "helper expression differs from the definition");
}

// Short circuiting: the operand that need not be evaluated is not, the one that must is evaluated exactly once; user
// functions receive their operands; nested lets shadow and restore.
SX_HARNESS(short_circuit, "both one") {
  long x = sx_int("x", -2, 2), y = sx_int("y", -1000, 1000);
  int na = 0, nb = 0;
  call::callable fa = [&](const call* c, eval_context& ctx) { ++na; return x; };
  call::callable fb = [&](const call* c, eval_context& ctx) { ++nb; return evaluate(c->args[0], ctx) + 1; };
  int k = sx_pick("op", 5);
  expr a = call::make(fa, {}), b = call::make(fb, {expr(y)});
  expr e;
  bool evb;
  long r;
  if (k == 0) e = call::make(intrinsic::and_then, {a, b}), evb = x != 0, r = x != 0 && y + 1 != 0;
  else if (k == 1) e = call::make(intrinsic::or_else, {a, b}), evb = x == 0, r = x != 0 || y + 1 != 0;
  else if (k == 2) e = select::make(a, b, expr(7)), evb = x != 0, r = x != 0 ? y + 1 : 7;
  else if (k == 3) e = select::make(a, expr(7), b), evb = x == 0, r = x != 0 ? 7 : y + 1;
  else e = call::make(intrinsic::and_then, {a, call::make(intrinsic::or_else, {expr(0), b})}), evb = x != 0, r = x != 0 && y + 1 != 0;
  eval_context ctx;
  ctx.config = &config;
  ctx.reserve(4);
  long v = evaluate(e, ctx);
  sx_observe(v);
  if (evb) sx_cover("both");
  else sx_cover("one");
  sx_assert_msg(v == r, "value of a short circuiting operator");
  sx_assert_msg(na == 1, "the first operand is evaluated once");
  sx_assert_msg(nb == (evb ? 1 : 0), "the second operand is evaluated only if needed");
}
SX_HARNESS(lets, "evaluated") {
  long x = sx_int("x", -1000, 1000), y = sx_int("y", -1000, 1000), c = sx_int("c", -1000, 1000);
  eval_context ctx;
  ctx.config = &config;
  ctx.reserve(4);
  ctx[var(0)] = x;
  ctx[var(1)] = y;
  // The names bound: 0 and 1 exist outside, 2 and 3 do not; the later lets see the earlier ones.
  int s0 = sx_pick("s0", 3), s1 = sx_pick("s1", 3), s2 = sx_pick("s2", 3);
  ctx[var(2)] = 77;
  expr e0 = variable::make(var(0)) + 1, e1 = variable::make(var(s0)) + variable::make(var(1)), e2 = variable::make(var(s1)) - c;
  int shape = sx_pick("shape", 3);
  expr body = variable::make(var(0)) + variable::make(var(1)) * 2 + variable::make(var(2)) * 4;
  long m[3] = {x, y, 77};
  expr e;
  if (shape == 0) e = let::make({{var(s0), e0}, {var(s1), e1}, {var(s2), e2}}, body);
  else if (shape == 1) e = let::make(var(s0), e0, let::make({{var(s1), e1}, {var(s2), e2}}, body));
  else e = let::make(var(s0), e0, let::make(var(s1), e1, let::make(var(s2), e2, body)) + let::make(var(s2), expr(3), variable::make(var(2))));
  long in2 = 0;
  m[s0] = m[0] + 1;
  if (shape == 2) in2 = s2 == 2 ? 3 : m[2];
  m[s1] = m[s0] + m[1];
  m[s2] = m[s1] - c;
  long r = m[0] + 2 * m[1] + 4 * m[2] + in2;
  long v = evaluate(e, ctx);
  sx_observe(v);
  sx_cover("evaluated");
  sx_assert_msg(v == r, "let scoping");
  sx_assert_msg(ctx[var(0)] == x && ctx[var(1)] == y && ctx[var(2)] == 77, "let is visible after the expression");
}

// Buffer metadata and elements.
SX_HARNESS(buffers, "metadata inside outside") {
  buffer<char, 2> b(2, 1);
  char data[64];
  long m0 = sx_int("min0", -5, 5), e0 = sx_int("extent0", 0, 4), m1 = sx_int("min1", -5, 5), e1 = sx_int("extent1", 0, 3);
  long st1 = sx_int("stride1", 0, 16);
  long f0 = sx_pick("fold", 2) ? 4 : dim::unfolded;
  b.mutable_dim(0).set_min_extent(m0, e0);
  b.mutable_dim(0).set_stride(1);
  if (f0 == 4) b.mutable_dim(0).set_fold_factor(4);
  b.mutable_dim(1).set_min_extent(m1, e1);
  b.mutable_dim(1).set_stride(st1);
  b.raw_buffer::base = data;
  eval_context ctx;
  ctx.config = &config;
  ctx.reserve(4);
  ctx[var(0)] = reinterpret_cast<index_t>(static_cast<raw_buffer*>(&b));
  int k = sx_pick("what", 9);
  if (k < 8) {
    static const buffer_field f[] = {buffer_field::rank, buffer_field::elem_size, buffer_field::size_bytes, buffer_field::min, buffer_field::max, buffer_field::stride, buffer_field::fold_factor, buffer_field::min};
    int d = k >= 3 ? sx_pick("dim", 2) : -1;
    long r[2];
    switch (k) {
    case 0: r[0] = 2; break;
    case 1: r[0] = 1; break;
    case 2: r[0] = (long)b.size_bytes(); break;
    case 3: case 7: r[0] = m0, r[1] = m1; break;
    case 4: r[0] = m0 + e0 - 1, r[1] = m1 + e1 - 1; break;
    case 5: r[0] = 1, r[1] = st1; break;
    case 6: r[0] = f0, r[1] = dim::unfolded; break;
    }
    long v = evaluate(variable::make(var(0), f[k], d), ctx);
    sx_cover("metadata");
    sx_observe(v);
    sx_assert_msg(v == r[d < 0 ? 0 : d], "buffer metadata");
  } else {
    long x = sx_int("x", -8, 12), y = sx_int("y", -8, 12);
    int n = sx_pick("coords", 3);
    std::vector<expr> args{variable::make(var(0))};
    if (n > 0) args.push_back(expr(x));
    if (n > 1) args.push_back(expr(y));
    long v = evaluate(call::make(intrinsic::buffer_at, args), ctx);
    bool in = (n < 1 || (x >= m0 && x < m0 + e0)) && (n < 2 || st1 == 0 || (y >= m1 && y < m1 + e1));
    if (in) {
      sx_cover("inside");
      long off = 0;
      if (n > 0) off += f0 == 4 ? ref_mod(x, 4) : x - m0;
      if (n > 1) off += (y - m1) * st1;
      sx_assert_msg(v == (long)data + off, "address of an element");
    } else {
      sx_cover("outside");
      sx_assert_msg(v == 0, "address outside the bounds");
    }
  }
}
