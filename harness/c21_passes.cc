// Passes over statements: what a program does is not changed.
#include "programs.h"
#include "schedules.h"
#include "slinky/builder/optimizations.h"
#include "slinky/builder/substitute.h"
using namespace slinky;

static var external[] = {A, B, X, Y};

static stmt generate(gen& g, int depth, int lo, int hi) {
  g.outer_lo = lo, g.outer_hi = hi;
  return g.scope(depth);
}

// Declarations of names that are visible where they are declared.
struct shadow_finder : recursive_node_visitor {
  std::vector<var> visible{A, B, X, Y};
  int shadows = 0, allocations = 0;
  bool is(var v) const { return std::find(visible.begin(), visible.end(), v) != visible.end(); }
  void lets(const std::vector<std::pair<var, expr>>& l, bool closure) {
    for (const auto& i : l) {
      i.second.accept(this);
      if (!closure) shadows += is(i.first);
      visible.push_back(i.first);
    }
  }
  void visit(const let* op) override {
    lets(op->lets, false);
    op->body.accept(this);
    visible.resize(visible.size() - op->lets.size());
  }
  void visit(const let_stmt* op) override {
    lets(op->lets, op->is_closure);
    op->body.accept(this);
    visible.resize(visible.size() - op->lets.size());
  }
  template <typename T>
  void decl(const T* op, int& n) {
    n += is(op->sym);
    visible.push_back(op->sym);
    recursive_node_visitor::visit(op);
    visible.pop_back();
  }
  void visit(const loop* op) override { decl(op, shadows); }
  void visit(const allocate* op) override { decl(op, allocations); }
  void visit(const make_buffer* op) override { decl(op, shadows); }
  void visit(const constant_buffer* op) override { decl(op, shadows); }
  void visit(const clone_buffer* op) override { decl(op, shadows); }
  void visit(const crop_buffer* op) override { decl(op, shadows); }
  void visit(const crop_dim* op) override { decl(op, shadows); }
  void visit(const slice_buffer* op) override { decl(op, shadows); }
  void visit(const slice_dim* op) override { decl(op, shadows); }
  void visit(const transpose* op) override { decl(op, shadows); }
  using recursive_node_visitor::visit;
};

// ---- deshadow and optimize_symbols ----

static void test_symbols(int depth, int lo, int hi) {
  gen g;
  g.parallel = depth == 1 || sx_thorough(), g.lite = !sx_thorough(), g.closures = false;
  inputs in(true);
  stmt s = generate(g, depth, lo, hi);
  node_context ctx;
  names(ctx);
  show("stmt", s, &ctx);
  outcome before, after, last;
  run(before, s, in, {});
  stmt t = deshadow(s, external, ctx);
  show("deshadowed", t, &ctx);
  shadow_finder f;
  t.accept(&f);
  sx_cover("deshadowed");
  sx_assert_msg(f.shadows == 0, "deshadow leaves a declaration that hides another");
  run(after, t, in, {});
  sx_assert_msg(before.same(after), "deshadow changes what a program does");
  if (f.allocations) return;
  stmt u = optimize_symbols(t, ctx);
  show("optimized", u, &ctx);
  sx_cover("optimized");
  run(last, u, in, {});
  sx_assert_msg(before.same(last), "optimize_symbols changes what a program does");
}
static const int K1 = gen::SLICE_BUFFER, K2 = gen::CLONE, K3 = gen::MAKE;
SX_HARNESS(symbols_one, "deshadowed optimized") { test_symbols(1, 0, gen::KINDS); }
SX_HARNESS(symbols_crops, "deshadowed optimized") { test_symbols(2, 0, K1); }
SX_HARNESS(symbols_slices, "deshadowed optimized") { test_symbols(2, K1, K2); }
SX_HARNESS(symbols_values, "deshadowed optimized") { test_symbols(2, K2, K3); }
SX_HARNESS(symbols_buffers, "deshadowed optimized") { test_symbols(2, K3, gen::KINDS); }

// Chains of buffer declarations, one inside another, each of any buffer in scope; calls before and after.
static stmt chain(int n, std::vector<var> bufs, int next, std::vector<var>& all) {
  var src = bufs[sx_pick("src", bufs.size())], v(next);
  stmt use = observing_call(rec, bufs, {});
  if (n == 0) return use;
  bufs.push_back(v), all.push_back(v);
  // A call of just some of what is in scope: others may be reused.
  std::size_t hidden = sx_pick("hidden", bufs.size());
  std::vector<var> some = bufs;
  if (hidden) some.erase(some.begin() + hidden - 1);
  stmt body = chain(n - 1, some, next + 1, all);
  long k = sx_int("at", -1, 2);
  stmt r;
  switch (sx_pick("chain_kind", 9)) {
  case 0: r = crop_dim::make(v, src, 0, {expr(k), expr()}, body); break;
  case 1: r = crop_buffer::make(v, src, {{expr(k), expr(k) + 1}, {expr(), expr(X)}}, body); break;
  case 2: r = slice_dim::make(v, src, 0, expr(k), body); break;
  case 3: r = slice_buffer::make(v, src, {expr(), expr(k)}, body); break;
  case 4: r = transpose::make(v, src, {1, 0}, body); break;
  case 5: r = clone_buffer::make(v, src, body); break;
  case 6: r = allocate::make(v, memory_type::heap, expr(4), {buffer_dim(src, 0)}, body); break;
  case 7: r = make_buffer::make(v, buffer_at(src), buffer_elem_size(src), {buffer_dim(src, 0), buffer_dim(src, 1)}, body); break;
  default: {
    r = crop_dim::make(v, src, 0, {expr(X) + var(40), expr()}, body);
    r = loop::make(var(40), sx_pick("parallel", 2) ? loop::parallel : loop::serial, {expr(0), expr(1)}, expr(), r);
    break;
  }
  }
  return block::make({r, sx_pick("after", 2) ? use : stmt()});
}
static void test_chain(int n) {
  inputs in(true);
  std::vector<var> all;
  stmt s = chain(n, {A}, 4, all);
  node_context ctx;
  names(ctx, 41);
  show("stmt", s, &ctx);
  stmt t = optimize_symbols(s, ctx);
  show("optimized", t, &ctx);
  outcome before, after;
  run(before, s, in, {});
  run(after, t, in, {});
  if (depends_on(s, all[0]).any() != depends_on(t, all[0]).any()) sx_cover("reused");
  sx_cover("optimized");
  sx_assert_msg(before.same(after), "optimize_symbols changes what a program does");
}
SX_HARNESS(reuse, "optimized") { test_chain(2); }
SX_HARNESS(reuse_three, "optimized") { test_chain(3); }

// ---- fuse_siblings ----

static stmt sibling(int kind, var v, var src, long k, int variant, const stmt& body) {
  expr c = k;
  switch (kind) {
  case 0: return crop_dim::make(v, src, variant == 1, {c, variant == 2 ? expr(X) : expr()}, body);
  case 1: return crop_buffer::make(v, src, variant == 1 ? box_expr{{}, {c, expr()}} : box_expr{{c, variant == 2 ? expr(X) : expr()}}, body);
  case 2: return slice_dim::make(v, src, variant == 1, variant == 2 ? expr(X) : c, body);
  case 3: return slice_buffer::make(v, src, variant == 1 ? std::vector<expr>{expr(), c} : variant == 2 ? std::vector<expr>{c, expr(X)} : std::vector<expr>{c}, body);
  case 4: return transpose::make(v, src, variant == 1 ? std::vector<int>{0} : variant == 2 ? std::vector<int>{1} : std::vector<int>{1, 0}, body);
  case 5: return clone_buffer::make(v, src, body);
  case 6: {
    std::vector<dim_expr> d{{{c, expr(variant == 1 ? Y : X)}, expr(), variant == 2 ? expr(2) : expr()}};
    return allocate::make(v, variant == 3 ? memory_type::stack : memory_type::heap, variant == 4 ? expr(8) : expr(4), d, body);
  }
  default: {
    std::vector<dim_expr> d{buffer_dim(src, 0)};
    if (variant == 1) d.push_back(buffer_dim(src, 1));
    if (variant == 2) d[0].fold_factor = 2;
    return make_buffer::make(v, variant == 3 ? buffer_at(src) : buffer_at(src, std::vector<expr>{c}), variant == 4 ? expr(8) : expr(4), d, body);
  }
  }
}
SX_HARNESS(siblings, "fused apart") {
  inputs in(true);
  int k1 = sx_pick("kind", 8), k2 = sx_thorough() ? sx_pick("kind", 8) : k1;
  bool same = sx_pick("same_header", 2);
  var s1 = A, s2 = !same && sx_pick("other_src", 2) ? B : A;
  int v1 = sx_pick("variant", k1 >= 6 ? 5 : 3), v2 = same ? v1 : sx_pick("variant", k2 >= 6 ? 5 : 3);
  if (k1 == 6 && (v1 == 3 || v2 == 3)) return;  // The address of memory on the stack is not ours.
  long c1 = sx_int("c", -2, 2), c2 = sx_pick("same_c", 2) ? c1 : sx_int("c", -2, 2);
  // Nothing is shadowed: what the first declares is not visible in the second.
  var n1(4), n2 = sx_pick("same_name", 2) ? n1 : var(5);
  stmt b1 = observing_call(rec, {A, n1}, {}), b2 = observing_call(rec, {A, n2}, {});
  // Nested siblings.
  switch (sx_pick("body", sx_thorough() ? 4 : 3)) {
  case 0: break;
  case 1: b2 = crop_dim::make(n2 == n1 ? var(6) : n1, n2, 0, {expr(0), expr()}, observing_call(rec, {n2, n2 == n1 ? var(6) : n1}, {})); break;
  case 2:
    b1 = crop_dim::make(var(6), n1, 0, {expr(0), expr()}, observing_call(rec, {n1, var(6)}, {}));
    b2 = crop_dim::make(var(6), n2, 0, {expr(0), expr()}, observing_call(rec, {n2, var(6)}, {}));
    break;
  default: b1 = check::make(buffer_min(n1, 0) < X); break;
  }
  stmt a = sibling(k1, n1, s1, c1, v1, b1), b = sibling(k2, n2, s2, c2, v2, b2);
  std::vector<stmt> l{a, b};
  switch (sx_pick("around", 4)) {
  case 0: break;
  case 1: l = {observing_call(rec, {A}, {}), a, b, observing_call(rec, {B}, {})}; break;
  case 2: l = {a, b, sibling(k1, n1, s1, c1, v1, b1)}; break;
  default: l = {a, observing_call(rec, {A}, {}), b}; break;
  }
  stmt s = block::make(l);
  if (sx_pick("in_loop", 2)) s = loop::make(var(7), loop::serial, {expr(0), expr(1)}, expr(), s);
  stmt t = fuse_siblings(s);
  show("stmt", s), show("fused", t);
  outcome before, after;
  run(before, s, in, {}, memory_by::LIVE);
  run(after, t, in, {}, memory_by::LIVE);
  if (same_structure(s, t)) sx_cover("apart");
  else sx_cover("fused");
  sx_assert_msg(before.same(after), "fusing siblings changes what a program does");
  sx_assert_msg(after.bad_frees == 0 && after.bad_uses == 0, "fusing siblings breaks the lifetime of an allocation");
}
static void test_siblings(int depth, int lo, int hi) {
  gen g;
  g.shadows = false, g.lite = true, g.one = true;
  inputs in(true);
  stmt s1 = generate(g, 1, lo, hi), s2 = generate(g, depth, lo, hi);
  stmt s = block::make({s1, s2});
  stmt t = fuse_siblings(s);
  show("stmt", s), show("fused", t);
  outcome before, after;
  run(before, s, in, {}, memory_by::LIVE);
  run(after, t, in, {}, memory_by::LIVE);
  if (!same_structure(s, t)) sx_cover("fused");
  sx_assert_msg(before.same(after), "fusing siblings changes what a program does");
  sx_assert_msg(after.bad_frees == 0 && after.bad_uses == 0, "fusing siblings breaks the lifetime of an allocation");
}
SX_HARNESS(siblings_crops, "fused") { test_siblings(1, 0, K1); }
SX_HARNESS(siblings_slices, "fused") { test_siblings(1, K1, K2); }
SX_HARNESS(siblings_buffers, "fused") { test_siblings(1, K3, K3 + 2); }

// ---- insert_early_free ----

static stmt some_call(const std::vector<var>& bufs) {
  std::size_t k = sx_pick("use", bufs.size() + 1);
  if (k == bufs.size()) return observing_call(rec, {}, {expr(X)});
  if (k == 1) return observing_call(rec, {}, {}, {bufs[k]});
  return observing_call(rec, {bufs[k]}, {});
}
// A statement that may use any of bufs.
static stmt user(int depth, std::vector<var> bufs, int& next) {
  int kind = sx_pick("user", depth > 0 ? 12 : 1);
  if (kind == 0) return some_call(bufs);
  var v(next++), src = bufs[sx_pick("src", bufs.size())];
  std::vector<var> with = bufs;
  with.push_back(v);
  if (kind == 9) return check::make(expr(0) < buffer_extent(src, 0) + 9);
  if (kind == 11) {
    stmt t = user(depth - 1, bufs, next), b = user(depth - 1, bufs, next);
    return async::make(var(), t, block::make({b, some_call(bufs)}));
  }
  if (kind == 8) return loop::make(v, loop::serial, {expr(0), expr(1)}, expr(), user(depth - 1, bufs, next));
  if (kind == 10) return let_stmt::make(v, expr(X) + 1, user(depth - 1, bufs, next));
  stmt body = user(depth - 1, with, next);
  if (sx_pick("two", 2)) body = block::make({body, some_call(with)});
  return sibling(kind == 7 ? 7 : kind - 1, v, src, 0, kind == 7 ? 3 : 0, body);
}
static void test_free(int depth) {
  inputs in(true);
  int next = 5;
  var V(4);
  std::vector<var> bufs{A, V};
  stmt first = user(depth, bufs, next), second = sx_pick("second", 2) ? user(sx_thorough(), bufs, next) : stmt(), third = some_call(bufs);
  stmt s = block::make({allocate::make(V, memory_type::heap, expr(4), {buffer_dim(A, 0)}, block::make({first, second, third})), some_call({A})});
  if (sx_pick("in_loop", 2)) s = loop::make(var(30), loop::serial, {expr(0), expr(1)}, expr(), s);
  stmt t = insert_early_free(s);
  show("stmt", s), show("freed early", t);
  outcome before, after;
  run(before, s, in, {}, memory_by::ORDER);
  run(after, t, in, {}, memory_by::ORDER);
  if (!same_structure(s, t)) sx_cover("early");
  sx_cover("tested");
  sx_assert_msg(before.bad_frees == 0 && before.bad_uses == 0, "an allocation is used after it is freed, without any early free");
  sx_assert_msg(after.bad_frees == 0, "an allocation is not freed exactly once");
  sx_assert_msg(after.bad_uses == 0, "an allocation is used after it is freed");
  sx_assert_msg(before.same(after), "freeing early changes what a program does");
}
SX_HARNESS(early_free, "early tested") { test_free(1); }
SX_HARNESS(early_free_nested, "early tested") { test_free(2); }

// ---- remove_pure_dims ----

// A call that records the elements of each of its buffers, in order of the coordinates of the first output.
static bool after_pass;
static stmt pure_call(std::vector<var> inputs, std::vector<var> outputs, int min_rank) {
  call_stmt::symbol_list l(inputs.begin(), inputs.end()), o(outputs.begin(), outputs.end());
  call_stmt::attributes attrs;
  attrs.min_rank = min_rank;
  return call_stmt::make(
      [min_rank](const call_stmt* op, eval_context& c) -> index_t {
        const raw_buffer* out = c.lookup_buffer(op->outputs[0]);
        if (after_pass) sx_assert_msg(out->base || out->rank > 0, "a call sees one element without memory");
        long lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0};
        sx_assert_msg(out->rank <= 3, "a call sees an impossible rank");
        for (std::size_t d = 0; d < out->rank; ++d) lo[d] = out->dims[d].min(), hi[d] = out->dims[d].max();
        for (long z = lo[2]; z <= hi[2]; ++z)
          for (long y = lo[1]; y <= hi[1]; ++y)
            for (long x = lo[0]; x <= hi[0]; ++x) {
              long at[3] = {x, y, z};
              auto address = [&](var i) {
                const raw_buffer* b = c.lookup_buffer(i);
                if (!b->base) sx_stop();  // A program that uses memory that does not exist.
                long a = (long)b->base;
                for (std::size_t d = 0; d < b->rank && d < out->rank; ++d) a += (at[d] - b->dims[d].min()) * b->dims[d].stride();
                rec->log.push_back(a);
              };
              for (var i : op->outputs) address(i);
              for (var i : op->inputs) address(i);
            }
        return 0;
      },
      l, o, {}, attrs);
}
static void test_pure(int depth) {
  inputs in(true);
  in.sa.dims = {dim(-3, 5, 4), dim(-3, 5, 64)};
  in.sb.dims = {dim(-3, 5, 2), dim(-3, 5, 32)};
  std::vector<var> bufs{A, B};
  int next = 4, min_rank = sx_pick("min_rank", 4);
  struct header {
    int kind, dim, form;
    var v, src;
    long c;
  };
  std::vector<header> l;
  std::vector<int> ranks(30, 2);
  for (int i = 0; i < depth; ++i) {
    header h;
    h.kind = sx_pick("kind", 8), h.v = var(next++), h.src = sx_pick("src", 2) ? B : bufs.back();
    if (h.src == B && bufs.back() == A && i) sx_stop();
    h.dim = sx_pick("dim", 2), h.form = sx_pick("form", 5), h.c = sx_int("c", 0, 2);
    l.push_back(h);
    bufs.push_back(h.v);
    // Dimensions exist.
    int r = ranks[h.src.id], &n = ranks[h.v.id];
    n = r;
    if ((h.kind == 0 || h.kind == 1 || h.kind == 3 || h.kind == 4) && h.dim >= r) sx_stop();
    if (h.kind == 0 && h.form == 3 && h.dim >= r) sx_stop();
    if (h.kind == 2) {
      if (r < (h.form == 3 ? 1 : 2)) sx_stop();
      n = h.form == 1 ? 1 : h.form == 2 || h.form == 4 ? 3 : 2;
    }
    if (h.kind == 3 || h.kind == 4) n = r - 1;
    if (h.kind >= 6) {
      n = 2;
      if (r < 1) sx_stop();
    }
  }
  // The last declaration is what is written, and perhaps an input is declared with it.
  int inner = sx_pick("cropped_input", 3);
  std::vector<var> ins{inner == 1 ? B : bufs.back()}, outs{inner == 2 ? A : bufs.back()};
  if (ranks[ins[0].id] != ranks[outs[0].id]) sx_stop();
  stmt s = pure_call(ins, outs, min_rank == 3 ? std::numeric_limits<int>::max() : min_rank);
  for (std::size_t i = l.size(); i-- > 0;) {
    const header& h = l[i];
    expr c = h.c;
    interval_expr b;
    switch (h.form) {
    case 0: b = {c, c}; break;
    case 1: b = {c, c + 1}; break;
    case 2: b = {expr(X), expr(X)}; break;
    case 3: b = {buffer_min(h.src, h.dim), buffer_min(h.src, h.dim)}; break;
    default: b = {expr(X), expr(Y)}; break;
    }
    switch (h.kind) {
    case 0: s = crop_dim::make(h.v, h.src, h.dim, b, s); break;
    case 1: s = crop_buffer::make(h.v, h.src, h.dim ? box_expr{{c, c + 1}, b} : box_expr{b}, s); break;
    case 2: s = transpose::make(h.v, h.src, h.form == 0 ? std::vector<int>{1, 0} : h.form == 1 ? std::vector<int>{1} : h.form == 2 ? std::vector<int>{0, 1, 1} : h.form == 3 ? std::vector<int>{transpose::new_dim, 0} : std::vector<int>{0, transpose::new_dim, 1}, s); break;
    case 3: s = slice_dim::make(h.v, h.src, h.dim, c, s); break;
    case 4: s = slice_buffer::make(h.v, h.src, h.dim ? std::vector<expr>{expr(), c} : std::vector<expr>{c}, s); break;
    case 5: s = clone_buffer::make(h.v, h.src, s); break;
    case 6: s = allocate::make(h.v, memory_type::heap, expr(4), {{b, expr(), expr()}, {{expr(0), h.dim ? expr(0) : expr(1)}, expr(), expr()}}, s); break;
    default: s = make_buffer::make(h.v, buffer_at(h.src, std::vector<expr>{b.min}), expr(4), {{b, expr(4), expr()}, {{expr(0), h.dim ? expr(0) : expr(1)}, expr(64), expr()}}, s); break;
    }
  }
  stmt t = remove_pure_dims(s);
  show("stmt", s), show("sliced", t);
  outcome before, after;
  after_pass = false;
  run(before, s, in, {}, memory_by::ORDER);
  after_pass = true;
  run(after, t, in, {}, memory_by::ORDER);
  if (!same_structure(s, t)) sx_cover("sliced");
  sx_assert_msg(before.same(after), "removing dimensions changes what a call computes");
}
SX_HARNESS(pure_dims, "sliced") { test_pure(1); }
SX_HARNESS(pure_dims_nested, "sliced") { test_pure(2); }

// Pipelines of stages that allow any of their dimensions to be removed.
static void test_pure_pipeline(int rank, int max_step, int places, long emax) {
  graph g;
  g.rank = {rank, rank, rank, rank};
  g.stages = {{{{0, window(rank, 0, 0)}}, {1}}, {{{1, window(rank, -1, 1)}}, {2}}, {{{2, window(rank, 0, 0)}}, {3}}};
  g.inputs = {0}, g.outputs = {3};
  g.stages[0].min_rank = sx_pick("min_rank", 2) * rank, g.stages[2].min_rank = sx_thorough() ? sx_pick("min_rank", rank + 1) : 0;
  built b;
  b.make(g);
  pick_loops(b, 2, rank, max_step);
  bool root = false;
  for (int s = 1; s >= 0; --s) root = pick_place(b, s, 2, places, root) || root;
  b.build();
  slinky::run(b, 1, emax);
}
SX_HARNESS(pure_pipeline_1d, "ran") { test_pure_pipeline(1, 2, 4, sx_thorough() ? 6 : 4); }
SX_HARNESS(pure_pipeline_2d, "ran") { test_pure_pipeline(2, sx_thorough() ? 2 : 1, 2, sx_thorough() ? 3 : 2); }

// ---- canonicalize_nodes ----

struct node_finder : recursive_node_visitor {
  std::vector<expr> exprs;
  std::vector<stmt> stmts;
  void on(const expr& e) { if (e.defined()) exprs.push_back(e); }
  using recursive_node_visitor::visit;
  template <typename T>
  void expr_node(const T* op) {
    exprs.push_back(expr(op));
    recursive_node_visitor::visit(op);
  }
  template <typename T>
  void stmt_node(const T* op) {
    stmts.push_back(stmt(op));
    recursive_node_visitor::visit(op);
  }
#define E(T) void visit(const T* op) override { expr_node(op); }
#define S(T) void visit(const T* op) override { stmt_node(op); }
  E(variable) E(constant) E(let) E(add) E(slinky::sub) E(mul) E(slinky::div) E(mod) E(class min) E(class max) E(equal) E(not_equal)
  E(less) E(less_equal) E(logical_and) E(logical_or) E(logical_not) E(class select) E(slinky::call)
  S(block) S(let_stmt) S(loop) S(async) S(allocate) S(make_buffer) S(constant_buffer) S(clone_buffer) S(crop_buffer) S(crop_dim)
  S(slice_buffer) S(slice_dim) S(transpose) S(slinky::check)
};
static void test_canonical(int depth, int lo, int hi) {
  gen g;
  g.one = true, g.lite = true, g.parallel = true;
  inputs in(true);
  stmt s = generate(g, depth, lo, hi);
  s = block::make({s, generate(g, 1, lo, hi)});
  stmt t = canonicalize_nodes(s);
  show("stmt", s), show("canonical", t);
  sx_assert_msg(same_structure(s, t), "making nodes the same changes a program");
  outcome before, after;
  run(before, s, in, {}, memory_by::ORDER);
  run(after, t, in, {}, memory_by::ORDER);
  sx_assert_msg(before.same(after), "making nodes the same changes what a program does");
  node_finder f;
  t.accept(&f);
  for (std::size_t i = 0; i < f.exprs.size(); ++i)
    for (std::size_t j = 0; j < i; ++j) {
      if (f.exprs[i].same_as(f.exprs[j])) sx_cover("shared");
      else sx_assert_msg(!match(f.exprs[i], f.exprs[j]), "two matching expressions are not the same object");
    }
  for (std::size_t i = 0; i < f.stmts.size(); ++i)
    for (std::size_t j = 0; j < i; ++j) {
      if (f.stmts[i].same_as(f.stmts[j])) continue;
      sx_assert_msg(!match(f.stmts[i], f.stmts[j]), "two matching statements are not the same object");
    }
}
SX_HARNESS(canonical_crops, "shared") { test_canonical(1, 0, K1); }
SX_HARNESS(canonical_slices, "shared") { test_canonical(1, K1, K2); }
SX_HARNESS(canonical_values, "shared") { test_canonical(1, K2, K3); }
SX_HARNESS(canonical_buffers, "shared") { test_canonical(1, K3, gen::KINDS); }
