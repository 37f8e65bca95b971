// Generated statement programs.
#pragma once
#include <cstdlib>
#include <iostream>
#include <string>
#include "slinky/runtime/print.h"
#include "stmts.h"

namespace slinky {

static var A(0), B(1), X(2), Y(3);
static recorder* rec;
// Names of the variables of a program.
static inline void names(node_context& ctx, int n = 24) {
  for (const char* i : {"A", "B", "X", "Y"}) ctx.insert(i);
  for (int i = 4; i < n; ++i) ctx.insert("v" + std::to_string(i));
}
// Prints a node in a native run.
template <typename T>
static void show(const char* what, const T& t, const node_context* names_of = nullptr) {
  if (sx_symbolic() || !getenv("SX_PRINT")) return;
  node_context ctx;
  names(ctx, 64);
  if (names_of) ctx = *names_of;
  std::cerr << what << ": " << std::tuple<const T&, const node_context&>(t, ctx) << std::endl;
}
static long sym_const(const char* n, long lo, long hi) { return sx_int(n, lo, hi); }

struct gen {
  int next = 4, outer_lo = 0, outer_hi = 0;
  // lite: fewer forms of everything.
  // one: a call uses one name.
  // workers: the number of workers may be an expression.
  bool shadows = true, parallel = false, lite = false, inner = false, one = false, workers = false;
  // closures: parallel bodies may be in closures, async tasks are.
  bool closures = true;
  // rich: expressions that simplify.
  bool rich = false;
  int checks = 0;
  // The ranks of buffers, where rich: dimensions that do not exist are not used.
  std::vector<int> ranks = std::vector<int>(64, 2);
  void need(var b, int d) const {
    if (rich && d >= ranks[b.id]) sx_stop();
  }
  std::vector<var> bufs{A, B}, scalars{X, Y};
  std::vector<var> seen;

  var fresh() { return var(next++); }
  // A new name, the name of `src` (0: none), or a name of something else.
  var name(var src, var other) {
    switch (sx_pick("name", !shadows ? 1 : lite && inner ? 2 : 3)) {
    case 0: return fresh();
    case 1: return src;
    default: return other;
    }
  }
  stmt call() {
    std::vector<expr> s;
    if (one) {
      std::size_t k = sx_pick("use", bufs.size() + scalars.size() + 1);
      if (k == bufs.size() + scalars.size()) return observing_call(rec, {}, {});
      if (k >= bufs.size()) return observing_call(rec, {}, {scalars[k - bufs.size()]});
      if (sx_pick("use_of_buffer", 2)) return observing_call(rec, {bufs[k]}, {});
      return observing_call(rec, {}, {}, {bufs[k]});
    }
    for (var i : scalars) s.push_back(i);
    if (rich) {
      var b = bufs.back();
      s.push_back(buffer_elem_size(b));
      if (ranks[b.id] > 0) s.insert(s.end(), {buffer_min(b, 0), buffer_max(b, 0)});
      if (ranks[b.id] > 1) s.push_back(buffer_extent(b, 1));
    }
    return observing_call(rec, bufs, s);
  }
  expr scalar_value(int forms) {
    if (rich) return rich_value(bufs.back(), sx_pick("value_dim", 2));
    if (lite) forms = forms > 2 ? 2 : 1;
    switch (sx_pick("value", forms)) {
    case 0: return expr(scalars.back());
    case 1: return sym_const("constant", -3, 4);
    case 2: return expr(X) + sym_const("offset", -2, 2);
    default: return buffer_min(bufs.back(), 0);
    }
  }
  stmt reached_call() {
    std::vector<expr> s{expr(5000 + checks++)};
    for (var i : scalars) s.push_back(i);
    return observing_call(rec, {}, s);
  }
  expr rich_value(var src, int d) {
    int k = sx_pick("rich_value", 6);
    if (k > 0 && k < 5) need(src, d);
    switch (k) {
    case 0: return expr(scalars.back()) + sym_const("offset", -1, 1);
    case 1: return buffer_min(src, d) + sym_const("offset", -1, 1);
    case 2: return buffer_max(src, d);
    case 3: return min(expr(X), buffer_max(src, d) - 1);
    case 4: return max(expr(scalars.back()), buffer_min(src, d));
    default: return sym_const("constant", -1, 2);
    }
  }
  interval_expr bounds(var src, int d, int forms) {
    need(src, d);
    if (rich) need(src, 1);
    if (rich && sx_pick("rich", 4)) {
      switch (sx_pick("rich_bounds", 5)) {
      case 0: return {expr(scalars.back()), expr(scalars.back()) + sym_const("size", -1, 1)};
      case 1: return {expr(), rich_value(src, d)};
      case 2: return {rich_value(src, d), expr()};
      case 3: return {buffer_min(src, d), buffer_max(src, d)};
      default: return {max(expr(X), buffer_min(src, d)), min(expr(Y), buffer_max(src, d))};
      }
    }
    switch (lite ? 2 * sx_pick("bounds", 2) + d : sx_pick("bounds", forms)) {
    case 0: return {expr(X), expr(Y)};
    case 1: return {expr(), expr(X)};
    case 2: return {buffer_min(src, 1 - d) + 1, expr()};
    case 3: return {buffer_min(src, d) + sym_const("crop", -1, 2), buffer_max(src, d) - expr(X)};
    default: return {expr(), expr()};
    }
  }
  // The body of a scope that declares v.
  stmt body(int depth, var v, bool is_buffer) {
    std::vector<var> ob = bufs, os = scalars;
    bool oi = inner;
    inner = true;
    auto& l = is_buffer ? bufs : scalars;
    auto& k = is_buffer ? scalars : bufs;
    bool known = false;
    for (var i : l) known |= i == v;
    if (!known) l.push_back(v);
    // A name of the other sort is hidden.
    for (std::size_t i = 0; i < k.size();) {
      if (k[i] == v) k.erase(k.begin() + i);
      else ++i;
    }
    stmt r = depth > 1 ? scope(depth - 1) : stmt();
    r = block::make({one && depth > 1 ? stmt() : call(), r, depth > 1 ? call() : stmt()});
    bufs = ob, scalars = os, inner = oi;
    return r;
  }
  enum { CROP_BUFFER, CROP_DIM, SLICE_BUFFER, SLICE_DIM, TRANSPOSE, CLONE, LET, LOOP, MAKE, ALLOCATE, CONSTANT, CHECK, ASYNC, KINDS };
  stmt scope(int depth) {
    int kind = outer_hi ? sx_pick_range("outer_kind", outer_lo, outer_hi - 1) : sx_pick("kind", KINDS), T = sx_thorough();
    var src = bufs[T ? sx_pick("src", bufs.size()) : !inner && lite ? 0 : bufs.size() - 1 - sx_pick("src", bufs.size() > 1 ? 2 : 1)], other = src == A ? B : A;
    outer_hi = 0;
    stmt r;
    switch (kind) {
    case CROP_BUFFER: {
      var v = name(src, other);
      std::vector<interval_expr> b(lite ? 2 : sx_pick("bounds_rank", 3));
      for (std::size_t d = 0; d < b.size(); ++d) b[d] = bounds(src, d, 5);
      ranks[v.id] = ranks[src.id];
      r = crop_buffer::make(v, src, b, body(depth, v, true));
      break;
    }
    case CROP_DIM: {
      var v = name(src, other);
      int d = sx_pick("dim", lite ? 2 : 3);
      need(src, d);
      ranks[v.id] = ranks[src.id];
      interval_expr b = bounds(src, d, 5);
      r = crop_dim::make(v, src, d, b, body(depth, v, true));
      break;
    }
    case SLICE_BUFFER: {
      var v = name(src, other);
      std::vector<expr> at(lite ? 2 : sx_pick("at_rank", 3));
      for (std::size_t d = 0; d < at.size(); ++d) at[d] = (lite ? d == 1 || sx_pick("defined", 2) : sx_pick("defined", 2)) ? scalar_value(T ? 4 : 1) : expr();
      ranks[v.id] = ranks[src.id];
      if (!at.empty()) need(src, at.size() - 1);
      for (const expr& i : at) ranks[v.id] -= i.defined();
      r = slice_buffer::make(v, src, at, body(depth, v, true));
      break;
    }
    case SLICE_DIM: {
      var v = name(src, other);
      int d = sx_pick("dim", lite ? 2 : 3);
      expr at = scalar_value(T ? 4 : 2);
      need(src, d);
      ranks[v.id] = ranks[src.id] - 1;
      r = slice_dim::make(v, src, d, at, body(depth, v, true));
      break;
    }
    case TRANSPOSE: {
      static const std::vector<int> dims[] = {{}, {0}, {0, 1}, {0, 1, 2}, {1, 0}, {1}, {transpose::new_dim, 0}, {0, transpose::new_dim, 1}, {0, 0}, {2, 1}};
      var v = name(src, other);
      int d = lite ? sx_pick("dims", 5) * 2 : sx_pick("dims", 10);
      ranks[v.id] = dims[d].size();
      for (int i : dims[d])
        if (i != transpose::new_dim) need(src, i);
      r = transpose::make(v, src, dims[d], body(depth, v, true));
      break;
    }
    case CLONE: {
      var v = name(src, other);
      ranks[v.id] = ranks[src.id];
      r = clone_buffer::make(v, src, body(depth, v, true));
      break;
    }
    case LET: {
      int n = lite ? 2 : sx_pick("lets", 2) + 1;
      std::vector<std::pair<var, expr>> l;
      std::vector<var> os = scalars, ob = bufs;
      for (int i = 0; i < n; ++i) {
        var v = shadows && (lite ? i == 1 : sx_pick("let_name", 2)) ? X : fresh();
        l.push_back({v, scalar_value(4)});
        if (v != X) scalars.push_back(v);
      }
      r = let_stmt::make(l, body(depth, l.back().first, false));
      scalars = os, bufs = ob;
      break;
    }
    case LOOP: {
      var v = name(X, B);
      interval_expr b = lite || sx_pick("loop_bounds", 2) ? interval_expr{expr(X), expr(Y)} : (need(src, 0), interval_expr{expr(sym_const("loop_min", -1, 1)), buffer_max(src, 0)});
      if (rich && sx_pick("rich_loop", 2)) b = bounds(src, 0, 5);
      if (!b.min.defined() || !b.max.defined()) need(src, 0);
      if (!b.min.defined()) b.min = buffer_min(src, 0);
      if (!b.max.defined()) b.max = buffer_max(src, 0);
      expr step = sx_pick("step", 2) ? expr(sym_const("step_size", 1, 3)) : expr();
      expr max_workers = workers && sx_pick("variable_workers", 2) ? expr(X) : parallel ? expr(sx_pick("workers", 2) ? loop::parallel : 2) : expr(loop::serial);
      std::vector<var> visible = bufs;
      visible.insert(visible.end(), scalars.begin(), scalars.end());
      stmt bd = body(depth, v, false);
      if (parallel && closures && sx_pick("closure", 2)) {
        std::vector<std::pair<var, expr>> l;
        bool has = false;
        for (var i : visible) l.push_back({i, expr(i)}), has |= i == v;
        if (!has) l.push_back({v, expr(v)});
        bd = let_stmt::make(l, bd, true);
      }
      r = loop::make(v, max_workers, b, step, bd);
      break;
    }
    case MAKE: {
      var v = name(src, other);
      std::vector<dim_expr> dims(lite ? 2 : sx_pick("make_rank", 3));
      for (std::size_t d = 0; d < dims.size(); ++d) {
        int k = lite ? d == 1 : sx_pick("same", 3);
        if (k == 2) dims[d] = {{expr(0), expr(0)}, expr(0), expr()};  // A broadcast.
        else if (k == 1) need(src, d), dims[d] = buffer_dim(src, d);
        else dims[d] = {{expr(X), expr(Y)}, expr(4), !lite && sx_pick("make_fold", 2) ? expr(2) : expr()};
      }
      expr base;
      need(src, 1);
      ranks[v.id] = dims.size();
      switch (sx_pick("base", lite ? 2 : 3)) {
      case 0: base = buffer_at(src); break;
      case 1: base = buffer_at(src, std::vector<expr>{expr(X)}); break;
      default: base = buffer_at(src, std::vector<expr>{expr(), expr(Y)}); break;
      }
      r = make_buffer::make(v, base, lite || sx_pick("elem_size", 2) ? buffer_elem_size(src) : expr(8), dims, body(depth, v, true));
      break;
    }
    case ALLOCATE: {
      var v = name(src, other);
      std::vector<dim_expr> dims(lite ? 2 : sx_pick("alloc_rank", 3));
      for (std::size_t d = 0; d < dims.size(); ++d) {
        int k = lite ? d == 0 : sx_pick("alloc_bounds", 3);
        if (k == 2) {
          dims[d] = {{expr(0), expr(0)}, expr(0), expr()};
          continue;
        }
        if (!k) need(src, d);
        dims[d].bounds = k ? interval_expr{expr(-1), expr(X)} : buffer_bounds(src, d);
        if (lite ? d == 1 : sx_pick("alloc_fold", 2)) dims[d].fold_factor = 2;
      }
      ranks[v.id] = dims.size();
      r = allocate::make(v, memory_type::heap, expr(4), dims, body(depth, v, true));
      break;
    }
    case CONSTANT: {
      static const_raw_buffer_ptr k = raw_buffer::make_scalar<int>(7);
      var v = name(src, other);
      ranks[v.id] = 0;
      r = constant_buffer::make(v, k, body(depth, v, true));
      break;
    }
    case CHECK:
      if (rich) {
        expr c = rich_value(src, 0), d = sx_pick("check_value", 2) ? expr(Y) : (need(src, 0), buffer_min(src, 0));
        c = sx_pick("check", 2) ? d <= c : c == d;
        // Tells that the check is reached.
        r = block::make({reached_call(), slinky::check::make(c), depth > 1 ? scope(depth - 1) : call()});
        break;
      }
      r = block::make({slinky::check::make(expr(X) < scalar_value(4)), depth > 1 ? scope(depth - 1) : call()});
      break;
    case ASYNC: {
      var v = !shadows || sx_pick("async_name", 2) ? fresh() : X;
      std::vector<var> visible = bufs;
      visible.insert(visible.end(), scalars.begin(), scalars.end());
      auto close = [&](stmt s) {
        if (!closures || (!lite && !sx_pick("closure", 2))) return s;
        std::vector<std::pair<var, expr>> l;
        for (var i : visible) l.push_back({i, expr(i)});
        return let_stmt::make(l, s, true);
      };
      stmt t = block::make({call(), depth > 1 ? scope(depth - 1) : stmt()});
      std::vector<var> os = scalars;
      if (v == X) scalars.erase(scalars.begin());
      stmt bd = call();
      scalars = os;
      if (v != X) t = close(t), bd = close(bd);
      r = async::make(v, t, bd);
      break;
    }
    }
    return one ? r : block::make({r, call()});
  }
};

}  // namespace slinky
