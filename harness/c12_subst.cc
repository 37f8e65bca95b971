// Substitution, dependencies, comparison and rebuilding of expressions and statements.
#include "exprs.h"
#include "programs.h"
#include "slinky/builder/node_mutator.h"
#include "slinky/builder/substitute.h"
#include "slinky/runtime/depends_on.h"
using namespace slinky;

// ---- Expressions over scalars x, y and buffers a, b ----

static const var C(20), Z(21);

// X and Y are scalars, A, B, C are buffers.
struct world {
  shape sa, sb, sc;
  raw_buffer a, b, c;
  long x, y, z;
  eval_config config;
  eval_context ctx;
  static void dims(shape& s, long stride) {
    s.random_dim(3, 1, 4, {stride}, 0);
    s.random_dim(3, 1, 4, {stride * 8}, 0);
  }
  world() {
    dims(sa, 4), dims(sb, 4);
    x = sx_int("x", -4, 4), y = sx_int("y", -4, 4), z = sx_int("z", -4, 4);
    sc = sb;
    a = sa.raw((void*)0x1000000, 4), b = sb.raw((void*)0x2000000, 2), c = sc.raw((void*)0x3000000, 4);
    ctx.config = &config;
    ctx.reserve(24);
    for (int i = 0; i < 24; ++i) ctx[var(i)] = 777 + i;
    set();
  }
  void set() { ctx[A] = (index_t)&a, ctx[B] = (index_t)&b, ctx[C] = (index_t)&c, ctx[X] = x, ctx[Y] = y, ctx[Z] = z; }
};

static expr field_of(var b) {
  switch (sx_pick("field", 5)) {
  case 0: return buffer_min(b, 1);
  case 1: return buffer_max(b, 0);
  case 2: return buffer_stride(b, 1);
  case 3: return buffer_elem_size(b);
  default: return buffer_rank(b);
  }
}
static expr constant_of(const char* n) { return constant::make(sx_int(n, -3, 4)); }
static expr leaf(int n = 5) {
  switch (sx_pick("leaf", n)) {
  case 0: return variable::make(X);
  case 1: return constant_of("c");
  case 2: return buffer_min(A, 0);
  case 3: return variable::make(Y);
  default: return buffer_max(B, 1);
  }
}
static expr buffer_at_of(var b) {
  switch (sx_pick("at", 5)) {
  case 0: return buffer_at(b);
  case 1: return buffer_at(b, expr(X));
  case 2: return buffer_at(b, expr(), expr(Y));
  case 3: return buffer_at(b, buffer_min(b, 0), buffer_max(b, 1));
  default: return buffer_at(b, buffer_max(A, 0));
  }
}
enum { OPS, LETS, BUFFERS };
static expr gen_expr(int kind) {
  if (kind == OPS) {
    int k = sx_pick("op", E_COUNT), k2 = sx_pick("inner", 4);
    expr a = leaf(), b, c;
    if (!eop_unary(k)) b = leaf(sx_thorough() ? 5 : 3);
    if (k == E_SELECT) c = leaf(sx_thorough() ? 3 : 2);
    if (k2 == 1) a = select::make(a, variable::make(Y), constant_of("k"));
    if (k2 == 2) a = min::make(constant_of("k"), add::make(a, variable::make(X)));
    if (k2 == 3 && b.defined()) b = logical_not::make(b);
    return eop_make(k, a, b, c, true);
  }
  if (kind == LETS) {
    std::vector<std::pair<var, expr>> lets(sx_pick("lets", 2) + 1);
    static const var names[] = {X, Y, var(9), Z};
    for (auto& i : lets) {
      i.first = names[sx_pick("let_name", 4)];
      switch (sx_pick("let_value", 3)) {
      case 0: i.second = add::make(variable::make(Y), variable::make(X)); break;
      case 1: i.second = buffer_min(A, 0); break;
      default: i.second = sub::make(variable::make(var(9)), variable::make(X)); break;
      }
    }
    expr body = sub::make(mul::make(variable::make(X), constant::make(5)), variable::make(Y));
    switch (sx_pick("body", 4)) {
    case 0: break;
    case 1: body = add::make(body, variable::make(var(9))); break;
    case 2: body = let::make(lets.size() > 1 ? X : names[sx_pick("inner_name", 3)], add::make(variable::make(X), buffer_max(A, 1)), body); break;
    default: body = add::make(let::make(Y, variable::make(X), body), variable::make(Y)); break;
    }
    return let::make(lets, body);
  }
  var b = sx_pick("buffer", 2) ? A : B;
  expr at = sx_pick("let_buffer", 2) ? let::make(b, variable::make(A), buffer_at_of(b)) : buffer_at_of(b);
  return sx_pick("is_base", 2) ? at : add::make(field_of(b), mul::make(field_of(sx_pick("buffer", 2) ? A : B), constant::make(100)));
}
static void test_expr(int kind) {
  world w;
  expr e = gen_expr(kind), r;
  if (kind == BUFFERS) w.ctx[var(9)] = 0;
  long v = evaluate(e, w.ctx);
  // Dependencies.
  static const var names[] = {A, B, X, Y};
  std::vector<var> found = find_dependencies(e);
  if (sx_pick("what", 2) == 0) {
    static const var all[] = {A, B, X, Y};
    bool any = false;
    shape sd;
    world::dims(sd, 12);
    raw_buffer d = sd.raw((void*)0x5000000, 1);
    bool pure = is_pure(e);
    for (var i : names) {
      depends_on_result deps = depends_on(e, i);
      any |= deps.any();
      bool listed = false;
      for (var j : found) listed |= j == i;
      sx_assert_msg(listed == deps.any(), "find_dependencies does not agree with depends_on");
      bool buffer = i == A || i == B;
      auto with = [&](index_t x) {
        w.ctx[i] = x;
        long r = evaluate(e, w.ctx);
        w.set();
        return r;
      };
      long other = buffer ? 0 : sx_int("other", -4, 4);
      if (!deps.any()) {
        sx_cover("independent");
        sx_assert_msg(with(buffer ? (index_t)&d : other) == v, "a value depends on a variable it is said not to depend on");
      }
      if (buffer && !deps.var && !deps.buffer_base) {
        // Only the metadata is used.
        raw_buffer m = i == A ? w.sa.raw((void*)0x6000000, w.a.elem_size) : w.sb.raw((void*)0x6000000, w.b.elem_size);
        sx_assert_msg(with((index_t)&m) == v, "a value depends on the base of a buffer it is said not to depend on");
      }
      if (buffer && !deps.var && !deps.buffer_bounds) {
        shape t = i == A ? w.sa : w.sb;
        for (int x = 0; x < 2; ++x) t.dims[x].set_bounds(sd.dims[x].min(), sd.dims[x].max());
        raw_buffer m = t.raw((void*)0x6000000, i == A ? w.a.elem_size : w.b.elem_size);
        sx_assert_msg(with((index_t)&m) == v, "a value depends on the bounds of a buffer it is said not to depend on");
      }
      if (buffer && pure && !deps.var) sx_assert_msg(with((index_t)&d) == v, "a pure value depends on a buffer");
    }
    sx_assert_msg(depends_on(e, span<const var>(all, 4)).any() == any, "depends_on a set of variables is not that of any of them");
    return;
  }
  // Substitution.
  var target = X;
  if (kind == BUFFERS && sx_pick("target_buffer", 2)) {
    target = sx_pick("target", 2) ? A : B;
    r = variable::make(sx_pick("to", 2) ? C : target == A ? B : A);
  } else {
    switch (sx_pick("replacement", kind == OPS && !sx_thorough() ? 3 : 6)) {
    case 0: r = variable::make(Y); break;
    case 1: r = add::make(variable::make(X), constant_of("r")); break;
    case 2: r = sub::make(variable::make(Y), constant_of("r")); break;
    case 3: r = buffer_max(A, 1); break;
    case 4: r = variable::make(Z); break;
    default: r = constant_of("r"); break;
    }
  }
  w.ctx[target] = evaluate(r, w.ctx);
  v = evaluate(e, w.ctx);
  bool self = depends_on(r, target).any();
  if (self) w.set();
  expr s = substitute(e, target, r);
  show("expr", e), show("replacement", r), show("result", s);
  sx_cover("substituted");
  // The original refers to the target: the result may do too, where the replacement would be captured.
  std::vector<var> binders;
  struct find_binders : recursive_node_visitor {
    std::vector<var>& b;
    find_binders(std::vector<var>& b) : b(b) {}
    void visit(const let* op) override {
      for (const auto& i : op->lets) b.push_back(i.first);
      recursive_node_visitor::visit(op);
    }
    using recursive_node_visitor::visit;
  } fb{binders};
  e.accept(&fb);
  bool captured = false;
  for (var i : binders) captured |= depends_on(r, i).any();
  if (!captured || !self) sx_assert_msg(evaluate(s, w.ctx) == v, "substitution changed a value");
  if (captured) return;
  if (!self) {
    static raw_buffer nothing;
    w.ctx[target] = target == X ? (index_t)sx_int("other", -50, 50) : (index_t)&nothing;
    nothing.base = nullptr, nothing.rank = 0, nothing.elem_size = 0;
    sx_assert_msg(evaluate(s, w.ctx) == v, "substitution left something behind");
    sx_assert_msg(!depends_on(s, target).any(), "substitution left something behind");
  }
}
SX_HARNESS(ops, "independent substituted") { test_expr(OPS); }
SX_HARNESS(lets, "independent substituted") { test_expr(LETS); }
SX_HARNESS(buffers, "independent substituted") { test_expr(BUFFERS); }

// Replacing an expression by an equal one.
SX_HARNESS(expressions, "replaced") {
  world w;
  expr e = gen_expr(OPS), target, r = variable::make(Z);
  switch (sx_pick("target", 6)) {
  case 0: target = variable::make(X); break;
  case 1: target = constant_of("t"); break;
  case 2: target = buffer_min(A, 0); break;
  case 3: target = logical_not::make(variable::make(Y)); break;
  case 4: target = add::make(variable::make(X), variable::make(X)); break;
  default: target = add::make(variable::make(Y), variable::make(X)); break;
  }
  w.ctx[Z] = evaluate(target, w.ctx);
  expr s = substitute(e, target, r);
  show("expr", e), show("replacement", r), show("result", s);
  sx_cover("replaced");
  sx_assert_msg(evaluate(s, w.ctx) == evaluate(e, w.ctx), "substitution changed a value");
}

// Replacing the metadata of a buffer.
SX_HARNESS(metadata, "substituted") {
  world w;
  int n = sx_pick("dims", sx_thorough() ? 3 : 2), d = sx_pick("def", 3);
  var def = d == 0 ? var() : d == 1 ? C : A;
  bool base = d < 2 && sx_pick("is_base", 2);
  if (d == 1) {
    // The defaults: within the buffer.
    w.sc = w.sa;
    for (int i = 0; i < n; ++i) w.sc.dims[i].set_bounds(w.sc.dims[i].min() + sx_int("inside", 0, 2), w.sc.dims[i].max());
    for (dim& i : w.sc.dims) sx_assume(i.min() <= i.max());
    w.c = w.sc.raw((void*)0x3000000, 4);
  }
  const shape& sd = d == 1 ? w.sc : w.sa;
  shape m = sd;
  std::vector<dim_expr> dims(n);
  for (int i = 0; i < n; ++i) {
    int k = sx_pick("bounds", d ? 4 : 2);
    long lo = w.sa.dims[i].min() + sx_int("lo", 0, 2), hi = lo + sx_int("size", 0, 2);
    if (k == 1 || k == 0) dims[i].bounds.min = k == 1 ? expr(lo) : expr(Z) - (w.z - lo), m.dims[i].set_bounds(lo, m.dims[i].max());
    if (k == 2 || k == 0) dims[i].bounds.max = expr(hi), m.dims[i].set_bounds(m.dims[i].min(), hi);
    if (k == 1 && !d) dims[i].bounds.max = expr(hi), m.dims[i].set_bounds(lo, hi);
    if (!base && (!d || sx_pick("stride", 2))) {
      long s = sx_int("stride", 0, 9);
      dims[i].stride = s, m.dims[i].set_stride(s);
    }
    if (!base && (!d || dims[i].stride.defined())) {
      long f = sx_int("fold", 1, 9);
      dims[i].fold_factor = f, m.dims[i].set_fold_factor(f);
    }
    if (base) sx_assume(m.dims[i].min() <= w.sa.dims[i].max() && m.dims[i].min() <= m.dims[i].max());
  }
  expr elem_size;
  long es = d == 1 ? w.c.elem_size : w.a.elem_size;
  if (!d || sx_pick("elem_size", 2)) {
    es = sx_int("size", 1, 8);
    elem_size = es;
  }
  raw_buffer b = m.raw((void*)0x1000000, es);
  if (!d) b.rank = n;
  if (base) {
    char* p = (char*)b.base;
    for (int i = 0; i < n || (d && i < 2); ++i) p += (m.dims[i].min() - w.sa.dims[i].min()) * w.sa.dims[i].stride();
    b.base = p;
  }
  expr e;
  if (base) {
    switch (sx_pick("at", 4)) {
    case 0: e = buffer_at(A); break;
    case 1: e = buffer_at(A, expr(X)); break;
    case 2: e = buffer_at(A, expr(), expr(Y)); break;
    default: e = buffer_at(A, buffer_min(A, 0)); break;
    }
    // Only coordinates of the buffer.
    const slinky::call* c = e.as<slinky::call>();
    if (!d && (int)c->args.size() - 1 > n) sx_stop();
    if (c->args.size() > 1 && c->args[1].defined()) {
      long x = w.x;
      if (!is_variable(c->args[1], A, buffer_field::min, 0)) sx_assume(x >= m.dims[0].min() && x <= m.dims[0].max() && x <= w.sa.dims[0].max());
    }
    if (c->args.size() > 2) sx_assume(w.y >= m.dims[1].min() && w.y <= m.dims[1].max() && w.y <= w.sa.dims[1].max());
  } else {
    int dd = sx_pick("dim", d ? 2 : n ? n : 1);
    switch (sx_pick("field", n || d ? 6 : 2)) {
    case 0: e = buffer_elem_size(A); break;
    case 1: e = buffer_rank(A); break;
    case 2: e = buffer_min(A, dd); break;
    case 3: e = buffer_max(A, dd); break;
    case 4: e = buffer_stride(A, dd); break;
    default: e = buffer_fold_factor(A, dd); break;
    }
    e = sub::make(e, buffer_max(B, 0));
    int let_ = sx_pick("let", 3);
    if (let_ == 1) e = let::make(var(9), e, add::make(variable::make(var(9)), e));
    // Another buffer of the same name.
    if (let_ == 2) e = add::make(e, let::make(A, variable::make(B), mul::make(buffer_min(A, 0), constant::make(1000))));
  }
  expr s = substitute_buffer(e, A, elem_size, dims, def);
  show("expr", e), show("result", s);
  if (!sx_symbolic() && getenv("SX_PRINT")) for (int i = 0; i < 2; ++i) std::cerr << "dim " << w.sa.dims[i].min() << ".." << w.sa.dims[i].max() << " -> " << m.dims[i].min() << ".." << m.dims[i].max() << " def " << d << " n " << n << " y " << w.y << std::endl;
  long got = evaluate(s, w.ctx);
  w.ctx[A] = (index_t)&b;
  sx_cover("substituted");
  sx_assert_msg(got == evaluate(e, w.ctx), "substitution of a buffer's metadata is not what a buffer with that metadata has");
}

// ---- Comparison ----

static int sgn(int x) { return x < 0 ? -1 : x > 0; }
// Any node of depth 1 of a type, and any leaf.
static expr small(bool calls, int type) {
  int k = type >= 0 ? type : sx_pick("type", E_COUNT + 4);
  int L = sx_thorough() ? 4 : 3;
  expr a = leaf(L), b, c;
  if (k == E_COUNT) return leaf();
  if (k == E_COUNT + 1) return field_of(sx_pick("buffer", 2) ? A : B);
  if (k == E_COUNT + 2) return let::make(sx_pick("let_name", 2) ? X : Y, a, leaf(2));
  if (k == E_COUNT + 3) return calls ? buffer_at_of(sx_pick("buffer", 2) ? A : B) : expr();
  if (!eop_unary(k)) b = leaf(L);
  if (k == E_SELECT) c = leaf(2);
  return eop_make(k, a, b, c, true);
}
static void order(const expr& a, const expr& b) {
  int ab = sgn(compare(a, b)), ba = sgn(compare(b, a));
  sx_assert_msg(ab == -ba, "compare is not antisymmetric");
  sx_assert_msg((ab == 0) == match(a, b), "match is not compare equal");
  sx_assert_msg((ab == 0) == same_structure(a, b), "expressions compare equal that are not, or the other way around");
}
SX_HARNESS(compare_same_type, "compared") {
  int k = sx_pick("type", E_COUNT + 4);
  expr a = small(true, k), b = small(true, k);
  order(a, b);
  interval_expr i{a, b}, j{b, a};
  sx_assert_msg(match(i, i), "an interval does not match itself");
  sx_assert_msg(match(i, j) == same_structure(a, b), "intervals match that are not the same, or the other way around");
  dim_expr d{{a, a}, b, b}, f{{a, a}, b, a}, g{{a, a}, a, b}, h{{b, b}, b, b};
  bool same = same_structure(a, b);
  sx_assert_msg(match(d, d) && match(d, f) == same && match(d, g) == same && match(d, h) == same, "dimensions match that are not the same");
  sx_cover("compared");
}
SX_HARNESS(compare_types, "compared") {
  int k1 = sx_pick("type", E_COUNT + 4), k2 = sx_pick("type", E_COUNT + 4);
  world w;
  expr l = variable::make(X), c = constant_of("c");
  auto mk = [&](int k) {
    if (k == E_COUNT) return expr();
    if (k == E_COUNT + 1) return buffer_max(A, 0);
    if (k == E_COUNT + 2) return c;
    if (k == E_COUNT + 3) return buffer_at(A, l);
    return eop_make(k, l, c, l, true);
  };
  expr a = mk(k1), b = mk(k2);
  order(a, b);
  order(b, a);
  sx_cover("compared");
}
SX_HARNESS(compare_transitive, "compared") {
  static const int few[] = {E_SUB, E_SELECT, E_NOT, E_LET};
  int k = sx_thorough() ? sx_pick("type", E_COUNT) : few[sx_pick("type", 4)];
  expr v[3];
  for (expr& i : v) {
    expr a = leaf(2), b = leaf(3);
    i = eop_make(k, a, b, a, true);
  }
  int ab = compare(v[0], v[1]), bc = compare(v[1], v[2]), ac = compare(v[0], v[2]);
  if (ab <= 0 && bc <= 0) sx_assert_msg(ac <= 0 && ((ac == 0) == (ab == 0 && bc == 0)), "compare is not transitive");
  sx_cover("compared");
}

// ---- Statements ----

static stmt gen_stmt(gen& g, int depth, int lo, int hi) {
  g.outer_lo = lo, g.outer_hi = hi;
  return g.scope(depth);
}
static void test_substitute(int depth, int lo, int hi) {
  gen g;
  g.parallel = depth == 1, g.workers = true, g.lite = !sx_thorough();
  inputs in(true);
  var target = X;
  expr r;
  shape sc, old;
  raw_buffer c, was;
  binding extra{C, 0}, bound{X, 0};
  switch (sx_pick("replacement", depth == 1 ? 9 : 6)) {
  case 0: r = variable::make(Y), bound.value = in.y; break;
  case 1: target = A, r = variable::make(C); break;
  case 2: target = B, r = variable::make(C); break;
  case 3: target = A, r = variable::make(B); break;
  case 4: {
    long k = sx_int("r", -1, 2);
    r = sub::make(variable::make(Y), constant::make(k)), bound.value = in.y - k;
    break;
  }
  case 5: r = buffer_min(A, 0), bound.value = in.sa.dims[0].min(); break;
  case 6: bound.value = sx_int("r", -1, 2), r = constant::make(bound.value); break;
  case 7: r = buffer_max(B, 0), bound.value = in.sb.dims[0].max(); break;
  default: r = variable::make(C), bound.value = extra.value = sx_int("r", -1, 2); break;
  }
  if (target != X) {
    bool to_b = is_variable(r, B);
    old = sc = target == A && !to_b ? in.sa : in.sb;
    char* base = (char*)(target == A && !to_b ? 0x1000000 : 0x2000000);
    c = sc.raw(base, base == (char*)0x1000000 ? 4 : 2), was = old.raw(base, c.elem_size);
    bound = {target, (index_t)&was};
    extra.value = (index_t)&c;
    if (to_b) extra.value = 0;
  }
  stmt s = gen_stmt(g, depth, lo, hi);
  outcome before, after;
  run(before, s, in, {extra, bound});
  stmt t = substitute(s, target, r);
  show("stmt", s), show("replacement", r), show("result", t);
  run(after, t, in, {extra, bound});
  sx_cover("substituted");
  sx_assert_msg(before.same(after), "substitution changed what a program does");
  binder_finder f;
  s.accept(&f);
  for (var i : f.b)
    if (depends_on(r, i).any()) return;
  static raw_buffer nothing;
  nothing.base = nullptr, nothing.rank = 0, nothing.elem_size = 0;
  outcome last;
  run(last, t, in, {extra, {target, target == X ? 100 : (index_t)&nothing}});
  sx_cover("replaced_all");
  sx_assert_msg(before.same(last), "substitution left something behind");
}
static const int K1 = gen::SLICE_BUFFER, K2 = gen::CLONE, K3 = gen::MAKE;
SX_HARNESS(substitute_one, "substituted replaced_all") { test_substitute(1, 0, gen::KINDS); }
SX_HARNESS(substitute_crops, "substituted replaced_all") { test_substitute(2, 0, K1); }
SX_HARNESS(substitute_slices, "substituted replaced_all") { test_substitute(2, K1, K2); }
SX_HARNESS(substitute_values, "substituted replaced_all") { test_substitute(2, K2, K3); }
SX_HARNESS(substitute_buffers, "substituted replaced_all") { test_substitute(2, K3, gen::KINDS); }

static void test_depends(int depth, int lo, int hi) {
  gen g;
  g.one = true, g.parallel = depth == 1, g.workers = true, g.lite = depth > 1 || !sx_thorough();
  inputs in(true);
  stmt s = gen_stmt(g, depth, lo, hi);
  show("stmt", s);
  outcome o;
  run(o, s, in, {});
  std::vector<var> found = find_dependencies(s), found_in = find_buffer_dependencies(s, true, false), found_out = find_buffer_dependencies(s, false, true);
  auto has = [](const std::vector<var>& l, var v) {
    for (var i : l)
      if (i == v) return true;
    return false;
  };
  shape sd;
  sd.dims = {dim(sx_int("other_min", -3, 3), 5, 28), dim(-7, 9, 100), dim(2, 3, 1)};
  raw_buffer d = sd.raw((void*)0x5000000, 16);
  struct let_finder : recursive_node_visitor {
    bool found = false;
    void visit(const let_stmt* op) override {
      for (const auto& i : op->lets) found |= i.second.as<variable>() != nullptr;
      recursive_node_visitor::visit(op);
    }
    using recursive_node_visitor::visit;
  } lf;
  s.accept(&lf);
  bool lets_buffer = lf.found;
  for (var i : {A, B, X, Y}) {
    depends_on_result deps = depends_on(s, i);
    bool buffer = i == A || i == B;
    sx_assert_msg(has(found, i) || !deps.any(), "find_dependencies misses a dependency");
    if (!deps.any()) {
      sx_cover("independent");
      outcome other;
      run(other, s, in, {{i, buffer ? (index_t)&d : sx_int("other", -3, 5)}});
      sx_assert_msg(o.same(other), "a program depends on a variable it is said not to depend on");
    }
    if (!buffer) continue;
    char* base = (char*)(i == A ? 0x1000000 : 0x2000000);
    bool in_used = false, out_used = false;
    for (const auto& u : o.rec.used) {
      if (u.first < base - 0x1000 || u.first > base + 0x1000) continue;
      (u.second ? out_used : in_used) = true;
    }
    if (!deps.var && !deps.buffer_base) {
      sx_assert_msg(!in_used && !out_used, "a program uses a buffer it is said not to use");
      if (!deps.buffer_data()) sx_cover("unused");
    }
    // A buffer bound to another name by a let is a value, and its uses are not followed.
    bool aliased = lets_buffer;
    if (!deps.buffer_base && !aliased) {
      sx_assert_msg(!in_used || (deps.buffer_input && has(found_in, i)), "an input is not found");
      sx_assert_msg(!out_used || (deps.buffer_output && has(found_out, i)), "an output is not found");
    }
  }
  std::pair<var, depends_on_result&> none[1] = {{A, *(new depends_on_result())}};
  depends_on_result ra, rb, rx, ry;
  std::pair<var, depends_on_result&> all[] = {{A, ra}, {B, rb}, {X, rx}, {Y, ry}};
  depends_on(s, all);
  auto same = [&](const depends_on_result& a, var v) {
    depends_on_result b = depends_on(s, v);
    return a.any() == b.any() && a.buffer_data() == b.buffer_data() && a.var == b.var && a.buffer_bounds == b.buffer_bounds && a.buffer_dims == b.buffer_dims;
  };
  sx_assert_msg(same(ra, A) && same(rb, B) && same(rx, X) && same(ry, Y), "depends_on several variables is not depends_on each of them");
}
SX_HARNESS(depends_one, "independent unused") { test_depends(1, 0, gen::KINDS); }
SX_HARNESS(depends_crops, "independent unused") { test_depends(2, 0, K1); }
SX_HARNESS(depends_slices, "independent unused") { test_depends(2, K1, K2); }
SX_HARNESS(depends_values, "independent unused") { test_depends(2, K2, K3); }
SX_HARNESS(depends_buffers, "independent unused") { test_depends(2, K3, gen::KINDS); }

// Rebuilding with every constant incremented, and comparing with the original.
struct incrementer : node_mutator {
  void visit(const constant* op) override { set_result(constant::make(op->value + 1)); }
  using node_mutator::visit;
};
static void test_rebuild(bool small) {
  gen g;
  g.parallel = true, g.workers = true, g.lite = !sx_thorough();
  recorder unused;
  rec = &unused;
  stmt s = gen_stmt(g, small ? 1 : 2, 0, gen::KINDS);
  stmt t = incrementer().mutate(s);
  structure a, b;
  a.add_to_constants = 1;
  a.st(s), b.st(t);
  sx_cover("rebuilt");
  sx_assert_msg(a == b, "rebuilding with other constants changed something else");
  sx_assert_msg(node_mutator().mutate(s).same_as(s), "rebuilding changed a program");
  bool same = same_structure(s, t);
  sx_assert_msg(match(s, s) && (compare(s, t) == 0) == same && match(s, t) == same && sgn(compare(s, t)) == -sgn(compare(t, s)), "programs compare equal that are not the same, or the other way around");
}
SX_HARNESS(rebuild_one, "rebuilt") { test_rebuild(true); }
SX_HARNESS(rebuild_two, "rebuilt") { test_rebuild(false); }

// Two programs of the same kind.
static stmt with_body(int kind, const stmt& body) {
  static const var names[] = {A, B};
  auto name = [&](const char* n) { return names[sx_pick(n, 2)]; };
  auto num = [&](const char* n) { return constant::make(sx_int(n, 0, 1)); };
  auto bounds = [&]() { return sx_pick("undefined", 2) ? interval_expr{expr(), num("max")} : interval_expr{num("min"), num("max")}; };
  auto dims = [&]() { return std::vector<dim_expr>(sx_pick("rank", 2) + 1, dim_expr{bounds(), num("stride"), num("fold")}); };
  var s = name("sym");
  switch (kind) {
  case gen::CROP_BUFFER: return crop_buffer::make(s, name("src"), std::vector<interval_expr>(sx_pick("rank", 2), bounds()), body);
  case gen::CROP_DIM: return crop_dim::make(s, name("src"), sx_pick("dim", 2), bounds(), body);
  case gen::SLICE_BUFFER: return slice_buffer::make(s, name("src"), sx_pick("undefined", 2) ? std::vector<expr>{expr(), num("at")} : std::vector<expr>{num("at")}, body);
  case gen::SLICE_DIM: return slice_dim::make(s, name("src"), sx_pick("dim", 2), num("at"), body);
  case gen::TRANSPOSE: return transpose::make(s, name("src"), sx_pick("dims", 2) ? std::vector<int>{0, (int)sx_int("dim", 0, 2)} : std::vector<int>{(int)sx_int("dim", 0, 2)}, body);
  case gen::CLONE: return clone_buffer::make(s, name("src"), body);
  case gen::LET: return let_stmt::make(sx_pick("two", 2) ? std::vector<std::pair<var, expr>>{{s, num("value")}, {X, num("value")}} : std::vector<std::pair<var, expr>>{{s, num("value")}}, body);
  case gen::LOOP: return loop::make(s, num("workers"), interval_expr{num("min"), num("max")}, sx_pick("step", 2) ? num("step") : expr(), body);
  case gen::MAKE: return make_buffer::make(s, num("base"), num("elem_size"), dims(), body);
  case gen::ALLOCATE: return allocate::make(s, sx_pick("storage", 2) ? memory_type::heap : memory_type::stack, num("elem_size"), dims(), body);
  case gen::CHECK: return slinky::check::make(num("condition"));
  case gen::ASYNC: return async::make(s, sx_pick("task", 2) ? body : stmt(), body);
  case gen::KINDS: return copy_stmt::make(nullptr, s, sx_pick("two", 2) ? std::vector<expr>{num("x"), num("x")} : std::vector<expr>{num("x")}, name("dst"), {sx_pick("dst_x", 2) ? X : Y}, name("pad"));
  default: return call_stmt::make(nullptr, {s}, sx_pick("two", 2) ? call_stmt::symbol_list{name("output"), A} : call_stmt::symbol_list{name("output")}, {num("scalar")}, {});
  }
}
SX_HARNESS(compare_statements, "compared") {
  int k = sx_pick("kind", gen::KINDS + 2);
  if (k == gen::CONSTANT) sx_stop();
  stmt b1 = slinky::check::make(expr(X)), b2 = slinky::check::make(expr(X)), b3 = slinky::check::make(expr(Y));
  stmt a = with_body(k, b1), b = with_body(k, sx_pick("body", 2) ? b2 : b3);
  int ab = sgn(compare(a, b)), ba = sgn(compare(b, a));
  bool same = same_structure(a, b);
  sx_cover("compared");
  sx_assert_msg(ab == -ba, "compare is not antisymmetric");
  sx_assert_msg((ab == 0) == same && match(a, b) == same, "statements compare equal that are not the same, or the other way around");
  stmt x = block::make(a, b1), y = block::make(a, b1), z = block::make(b, b1);
  sx_assert_msg(match(x, y) && match(x, z) == same && compare(x, a) != 0, "blocks compare equal that are not the same, or the other way around");
}
// Copies.
SX_HARNESS(copies, "substituted") {
  static const var names[] = {A, B, X, Y, Z};
  auto name = [&](const char* n, int k) { return names[sx_pick(n, k)]; };
  var src = name("src", 4), dst = name("dst", 2), pad = sx_pick("has_pad", 2) ? name("pad", 2) : var(), dx = names[2 + sx_pick("dst_x", 2)];
  expr sx = sx_pick("src_x", 2) ? add::make(variable::make(X), variable::make(Y)) : buffer_min(A, 0);
  stmt s = copy_stmt::make(nullptr, src, {sx, expr(X)}, dst, {dx, var(9)}, pad);
  var target = name("target", 4);
  stmt t = substitute(s, target, variable::make(Z));
  structure a, b;
  if (dx == target) {
    // The source coordinates are in the scope of the destination coordinates.
    b.st(copy_stmt::make(nullptr, src == target ? Z : src, {sx, expr(X)}, dst == target ? Z : dst, {dx, var(9)}, pad == target ? Z : pad));
  } else {
    b.from = target, b.to = Z;
    b.st(s);
  }
  a.st(t);
  sx_cover("substituted");
  sx_assert_msg(a == b, "substitution into a copy");
  for (var v : {A, B, X, Y}) {
    depends_on_result d = depends_on(s, v);
    bool x = v != dx && ((sx.as<add>() && (v == X || v == Y)) || v == X || (!sx.as<add>() && v == A));
    sx_assert_msg(d.buffer_src == (src == v || pad == v), "the source of a copy");
    sx_assert_msg(d.buffer_dst == (dst == v), "the destination of a copy");
    sx_assert_msg(d.any() == (src == v || pad == v || dst == v || x), "the variables of a copy");
  }
}
