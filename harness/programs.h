// Programs as wholes: their structure, what they declare, and what they do.
#pragma once
#include <algorithm>
#include "exprs.h"
#include "stmtgen.h"
#include "slinky/runtime/depends_on.h"

namespace slinky {

// The structure of a node, as numbers: everything that can affect what it does. `add` is added to constants.
struct structure {
  std::vector<long> s;
  long add_to_constants = 0;
  // Replaces variables.
  var from, to;
  void num(long x) { s.push_back(x); }
  void name(var v) { num(v.defined() ? (v == from && from.defined() ? to.id : v.id) : -1); }
  template <typename T>
  void binary(const expr& e) {
    ex(e.as<T>()->a);
    ex(e.as<T>()->b);
  }
  void ex(const interval_expr& i) { ex(i.min), ex(i.max); }
  void ex(const dim_expr& d) { ex(d.bounds), ex(d.stride), ex(d.fold_factor); }
  void ex(const expr& e) {
    if (!e.defined()) return num(-1);
    num((long)e.type());
    switch (e.type()) {
    case expr_node_type::variable: {
      const variable* v = e.as<variable>();
      name(v->sym), num((long)v->field), num(v->dim);
      return;
    }
    case expr_node_type::constant: return num(e.as<constant>()->value + add_to_constants);
    case expr_node_type::let: {
      const let* l = e.as<let>();
      num(l->lets.size());
      for (const auto& i : l->lets) name(i.first), ex(i.second);
      return ex(l->body);
    }
    case expr_node_type::add: return binary<add>(e);
    case expr_node_type::sub: return binary<slinky::sub>(e);
    case expr_node_type::mul: return binary<mul>(e);
    case expr_node_type::div: return binary<slinky::div>(e);
    case expr_node_type::mod: return binary<mod>(e);
    case expr_node_type::min: return binary<class min>(e);
    case expr_node_type::max: return binary<class max>(e);
    case expr_node_type::equal: return binary<equal>(e);
    case expr_node_type::not_equal: return binary<not_equal>(e);
    case expr_node_type::less: return binary<less>(e);
    case expr_node_type::less_equal: return binary<less_equal>(e);
    case expr_node_type::logical_and: return binary<logical_and>(e);
    case expr_node_type::logical_or: return binary<logical_or>(e);
    case expr_node_type::logical_not: return ex(e.as<logical_not>()->a);
    case expr_node_type::select: {
      const class select* x = e.as<class select>();
      ex(x->condition), ex(x->true_value), ex(x->false_value);
      return;
    }
    case expr_node_type::call: {
      const slinky::call* c = e.as<slinky::call>();
      num((long)c->intrinsic), num(c->args.size());
      for (const expr& i : c->args) ex(i);
      return;
    }
    default: sx_fail("unknown expression");
    }
  }
  template <typename T>
  void decl(const T* op) {
    name(op->sym);
    st(op->body);
  }
  void st(const stmt& x) {
    if (!x.defined()) return num(-1);
    num((long)x.type());
    switch (x.type()) {
    case stmt_node_type::block: {
      const block* b = x.as<block>();
      num(b->stmts.size());
      for (const stmt& i : b->stmts) st(i);
      return;
    }
    case stmt_node_type::call_stmt: {
      const call_stmt* c = x.as<call_stmt>();
      num(c->inputs.size()), num(c->outputs.size()), num(c->scalars.size()), num(!c->target);
      for (var i : c->inputs) name(i);
      for (var i : c->outputs) name(i);
      for (const expr& i : c->scalars) ex(i);
      return;
    }
    case stmt_node_type::copy_stmt: {
      const copy_stmt* c = x.as<copy_stmt>();
      name(c->src), name(c->dst), name(c->pad), num(c->src_x.size()), num(c->dst_x.size());
      for (const expr& i : c->src_x) ex(i);
      for (var i : c->dst_x) name(i);
      return;
    }
    case stmt_node_type::let_stmt: {
      const let_stmt* l = x.as<let_stmt>();
      num(l->lets.size());
      for (const auto& i : l->lets) name(i.first), ex(i.second);
      return st(l->body);
    }
    case stmt_node_type::loop: {
      const loop* l = x.as<loop>();
      ex(l->bounds), ex(l->step), ex(l->max_workers);
      return decl(l);
    }
    case stmt_node_type::async: {
      const async* a = x.as<async>();
      st(a->task);
      return decl(a);
    }
    case stmt_node_type::allocate: {
      const allocate* a = x.as<allocate>();
      num((long)a->storage), ex(a->elem_size), num(a->dims.size());
      for (const dim_expr& i : a->dims) ex(i);
      return decl(a);
    }
    case stmt_node_type::make_buffer: {
      const make_buffer* a = x.as<make_buffer>();
      ex(a->base), ex(a->elem_size), num(a->dims.size());
      for (const dim_expr& i : a->dims) ex(i);
      return decl(a);
    }
    case stmt_node_type::constant_buffer: return decl(x.as<constant_buffer>());
    case stmt_node_type::clone_buffer: {
      name(x.as<clone_buffer>()->src);
      return decl(x.as<clone_buffer>());
    }
    case stmt_node_type::crop_buffer: {
      const crop_buffer* c = x.as<crop_buffer>();
      name(c->src), num(c->bounds.size());
      for (const interval_expr& i : c->bounds) ex(i);
      return decl(c);
    }
    case stmt_node_type::crop_dim: {
      const crop_dim* c = x.as<crop_dim>();
      name(c->src), num(c->dim), ex(c->bounds);
      return decl(c);
    }
    case stmt_node_type::slice_buffer: {
      const slice_buffer* c = x.as<slice_buffer>();
      name(c->src), num(c->at.size());
      for (const expr& i : c->at) ex(i);
      return decl(c);
    }
    case stmt_node_type::slice_dim: {
      const slice_dim* c = x.as<slice_dim>();
      name(c->src), num(c->dim), ex(c->at);
      return decl(c);
    }
    case stmt_node_type::transpose: {
      const transpose* c = x.as<transpose>();
      name(c->src), num(c->dims.size());
      for (int i : c->dims) num(i);
      return decl(c);
    }
    case stmt_node_type::check: return ex(x.as<slinky::check>()->condition);
    default: sx_fail("unknown statement");
    }
  }
  bool operator==(const structure& r) const {
    if (s.size() != r.s.size()) return false;
    bool same = true;
    for (std::size_t i = 0; i < s.size(); ++i) same &= s[i] == r.s[i];
    return same;
  }
};
static bool same_structure(const expr& a, const expr& b) {
  structure x, y;
  x.ex(a), y.ex(b);
  return x == y;
}
static bool same_structure(const stmt& a, const stmt& b) {
  structure x, y;
  x.st(a), y.st(b);
  return x == y;
}

// The inputs of a program.
struct inputs {
  shape sa, sb;
  long x, y;
  inputs(bool lite) {
    x = sx_int("x", -1, 2), y = sx_int("y", -1, 2);
    long am = sx_int("min", -2, 2);
    sa.dims = {dim(am, am + (lite ? 3 : sx_int("extent", 0, 4)) - 1, 4), dim(-1, 0, 64)};
    sb.dims = {dim(1, 2, 12)};
  }
};
// What a program does.
struct outcome {
  recorder rec;
  long result = 0, loops = 0;
  // Allocations, in the order they are made.
  struct memory {
    var sym;
    char* base;
    bool freed;
  };
  std::vector<memory> allocs;
  long bad_frees = 0, bad_uses = 0;
  bool same(const outcome& r) const {
    if (rec.log.size() != r.rec.log.size() || result != r.result || loops != r.loops) return false;
    if (rec.checks_failed != r.rec.checks_failed) return false;
    bool s = true;
    for (std::size_t i = 0; i < rec.log.size(); ++i) s &= rec.log[i] == r.rec.log[i];
    return s;
  }
  // The buffers at x (before) and y (after) are the same memory, seen in the same way. What an input covers may grow.
  static bool same_buffer(const long* x, const long* y, bool output) {
    bool e = false, f = false, s = x[1] == y[1];
    long ox = x[0], oy = y[0];
    for (int d = 0; d < 3; ++d) {
      const long *p = x + 2 + d * 4, *q = y + 2 + d * 4;
      e |= p[1] < p[0], f |= q[1] < q[0];
      bool one = p[0] == p[1], fold = p[3] > 0;
      if (output) {
        s &= (p[0] == q[0]) & (p[1] == q[1]) & (one | ((p[2] == q[2]) & (p[3] == q[3])));
        continue;
      }
      s &= (q[0] <= p[0]) & (p[1] <= q[1]) & (one | ((p[2] == q[2]) & (p[3] == q[3])));
      // The address at the minimum of x.
      if (q[2] != 0 && !fold) oy += (p[0] - q[0]) * q[2];
    }
    s &= ox == oy;
    if (!output) return e | (x[0] == 0) | s;
    return (e & f) | (!e & !f & s) | ((x[0] == 0) & (y[0] == 0));
  }
  // As same, but how loops run, the strides of dimensions of one element, what buffers without elements are, and how much
  // more than before an input covers do not matter.
  bool equivalent(const outcome& r) const {
    if (rec.log.size() != r.rec.log.size() || rec.buffers != r.rec.buffers) return false;
    bool s = result == r.result;
    s &= rec.checks_failed == r.rec.checks_failed;
    std::size_t b = 0;
    for (std::size_t i = 0; i < rec.log.size();) {
      if (b < rec.buffers.size() && rec.buffers[b] == i) {
        s &= same_buffer(&rec.log[i], &r.rec.log[i], rec.outputs[b]);
        i += 14, ++b;
      } else {
        s &= rec.log[i] == r.rec.log[i];
        ++i;
      }
    }
    return s;
  }
};
struct binding {
  var sym;
  index_t value;
};
// How memory is given to allocations: a new address for each, one by name, or one by how many are live.
enum class memory_by { ORDER, NAME, LIVE };
static void run(outcome& o, const stmt& s, const inputs& in, std::vector<binding> more, memory_by by = memory_by::ORDER) {
  shape ta = in.sa, tb = in.sb;
  raw_buffer a = ta.raw((void*)0x1000000, 4), b = tb.raw((void*)0x2000000, 2);
  eval_config config;
  inline_pool pool;
  config.thread_pool = &pool;
  long live = 0;
  config.allocate = [&](var sym, raw_buffer* buf) -> void* {
    sx_assert(o.allocs.size() < 64);
    interpreter::dense(buf->dims, buf->rank, buf->elem_size);
    long k = by == memory_by::NAME ? sym.id : by == memory_by::LIVE ? live : o.allocs.size();
    buf->base = (char*)(0x4000000 + k * 0x10000);
    ++live;
    o.allocs.push_back({sym, (char*)buf->base, false});
    return buf->base;
  };
  config.free = [&](var, raw_buffer*, void* p) {
    // The last one that is still live.
    for (std::size_t i = o.allocs.size(); i-- > 0;) {
      if (o.allocs[i].base != p || o.allocs[i].freed) continue;
      o.allocs[i].freed = true;
      --live;
      return;
    }
    ++o.bad_frees;
  };
  recorder* r = &o.rec;
  r->on_use = [&o](char* base) {
    bool bad = false;
    for (const auto& i : o.allocs) {
      bool live = false;
      for (const auto& j : o.allocs) live = live || (j.base == i.base && !j.freed);
      if (!live) bad |= (base >= i.base - 0x4000) & (base < i.base + 0xc000);
    }
    o.bad_uses += bad;
  };
  config.check_failed = [r](const expr&) { ++r->checks_failed; };
  config.call_failed = [r](const call_stmt* op) {};
  eval_context ctx;
  ctx.config = &config;
  ctx.reserve(64);
  for (int i = 0; i < 64; ++i) ctx[var(i)] = 777 + i;
  ctx[A] = (index_t)&a, ctx[B] = (index_t)&b, ctx[X] = in.x, ctx[Y] = in.y;
  for (const binding& i : more) ctx[i.sym] = i.value;
  rec = &o.rec;
  o.result = evaluate(s, ctx);
  o.loops = pool.loops;
  for (const auto& i : o.allocs) o.bad_frees += !i.freed;
}
struct binder_finder : recursive_node_visitor {
  std::vector<var> b;
  void visit(const let* op) override {
    for (const auto& i : op->lets) b.push_back(i.first);
    recursive_node_visitor::visit(op);
  }
  void visit(const let_stmt* op) override {
    for (const auto& i : op->lets) b.push_back(i.first);
    recursive_node_visitor::visit(op);
  }
  template <typename T>
  void decl(const T* op) {
    b.push_back(op->sym);
    recursive_node_visitor::visit(op);
  }
  void visit(const loop* op) override { decl(op); }
  void visit(const allocate* op) override { decl(op); }
  void visit(const make_buffer* op) override { decl(op); }
  void visit(const constant_buffer* op) override { decl(op); }
  void visit(const clone_buffer* op) override { decl(op); }
  void visit(const crop_buffer* op) override { decl(op); }
  void visit(const crop_dim* op) override { decl(op); }
  void visit(const slice_buffer* op) override { decl(op); }
  void visit(const slice_dim* op) override { decl(op); }
  void visit(const transpose* op) override { decl(op); }
  void visit(const async* op) override { decl(op); }
  using recursive_node_visitor::visit;
};

}  // namespace slinky
