// Statement programs: a recorder of calls, and an interpreter that defines what a program does.
#pragma once
#include <functional>
#include <memory>
#include <utility>
#include <vector>
#include "slinky/base/thread_pool.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/expr.h"
#include "slinky/runtime/stmt.h"
#include "buffers.h"

namespace slinky {

// A thread pool that runs everything on the calling thread as soon as it is enqueued.
class inline_pool : public thread_pool {
public:
  struct inline_task : task {
    bool done() const override { return true; }
  };
  long loops = 0;
  int thread_count() const override { return 1; }
  ref_count<task> enqueue(std::size_t n, task_body t, int) override {
    sx_assert_msg(n < 1000, "a loop runs more often than its bounds allow");
    ++loops;
    for (std::size_t i = 0; i < n; ++i) t(i);
    return ref_count<task>(new inline_task());
  }
  void wait_for(task*) override {}
  void wait_for(predicate_ref c) override {
    if (!c()) sx_fail("a condition is waited for that nothing can make true");
  }
  void atomic_call(function_ref<void()> t) override { t(); }
};

// What the calls of a program saw, and which of them fails.
struct recorder {
  std::vector<long> log;
  // The buffers used, and whether as an output.
  std::vector<std::pair<char*, bool>> used;
  std::vector<bool> outputs;
  long calls = 0, fail_at = -1, code = 0, failed = 0, checks_failed = 0;
  // Called for each buffer a call uses.
  std::function<void(char*)> on_use;
  // Where buffers are in the log.
  std::vector<std::size_t> buffers;
  void buffer(char* base, long elem_size, const dim* dims, std::size_t rank, bool output = false) {
    buffers.push_back(log.size());
    outputs.push_back(output);
    log.push_back((long)base);
    log.push_back(elem_size);
    for (std::size_t d = 0; d < 3; ++d) {
      const dim& x = d < rank ? dims[d] : dim::broadcast();
      log.push_back(x.min());
      log.push_back(x.max());
      log.push_back(x.stride());
      log.push_back(x.fold_factor());
    }
  }
  // Returns the result of the call.
  long called(long id) {
    log.push_back(1000 + id);
    return calls++ == fail_at ? code : 0;
  }
};

// A buffer as a value.
struct bufval {
  char* base = nullptr;
  long elem_size = 0;
  std::vector<dim> dims;
  dim at(std::size_t d) const { return d < dims.size() ? dims[d] : dim::broadcast(); }
  void crop(std::size_t d, long lo, long hi) {
    if (d >= dims.size()) return;
    dim& x = dims[d];
    if (lo < x.min()) lo = x.min();
    if (hi > x.max()) hi = x.max();
    if (base) {
      if (hi < lo) base = nullptr;
      else if (x.fold_factor() == dim::unfolded || x.stride() == 0) base += (lo - x.min()) * x.stride();
    }
    x.set_bounds(lo, hi);
  }
  void fix(std::size_t d, long at) {
    if (d >= dims.size()) return;
    if (base) {
      if (ref_contains(dims[d], at)) base += ref_offset(dims[d], at);
      else base = nullptr;
    }
  }
};
struct val {
  long v = 0;
  std::shared_ptr<bufval> b;
};

// Executes a program by its definition: every name is a value in an environment.
struct interpreter {
  using env = std::vector<val>;
  recorder* rec;
  // Addresses of allocations, in the order they are made.
  std::vector<char*> memory;
  std::size_t allocated = 0;

  static const dim_expr* none() { return nullptr; }
  long ev(const expr& e, env& c, long def) { return e.defined() ? ev(e, c) : def; }
  long ev(const expr& e, env& c) {
    switch (e.type()) {
    case expr_node_type::constant: return e.as<constant>()->value;
    case expr_node_type::variable: {
      const variable* v = e.as<variable>();
      const val& x = c[v->sym.id];
      if (v->field == buffer_field::none) return x.v;
      if (v->field == buffer_field::rank) return x.b->dims.size();
      if (v->field == buffer_field::elem_size) return x.b->elem_size;
      dim d = x.b->at(v->dim);
      switch (v->field) {
      case buffer_field::min: return d.min();
      case buffer_field::max: return d.max();
      case buffer_field::stride: return d.stride();
      case buffer_field::fold_factor: return d.fold_factor();
      default: break;
      }
      sx_fail("unknown field");
      return 0;
    }
    case expr_node_type::add: return ev(e.as<add>()->a, c) + ev(e.as<add>()->b, c);
    case expr_node_type::sub: return ev(e.as<sub>()->a, c) - ev(e.as<sub>()->b, c);
    case expr_node_type::mul: return ev(e.as<mul>()->a, c) * ev(e.as<mul>()->b, c);
    case expr_node_type::less: return ev(e.as<less>()->a, c) < ev(e.as<less>()->b, c);
    case expr_node_type::less_equal: return ev(e.as<less_equal>()->a, c) <= ev(e.as<less_equal>()->b, c);
    case expr_node_type::min: {
      long a = ev(e.as<class min>()->a, c), b = ev(e.as<class min>()->b, c);
      return a < b ? a : b;
    }
    case expr_node_type::max: {
      long a = ev(e.as<class max>()->a, c), b = ev(e.as<class max>()->b, c);
      return a > b ? a : b;
    }
    case expr_node_type::call: {
      const call* k = e.as<call>();
      if (k->intrinsic != intrinsic::buffer_at) break;
      bufval b = *c[k->args[0].as<variable>()->sym.id].b;
      for (std::size_t d = 0; d + 1 < k->args.size(); ++d)
        if (k->args[d + 1].defined()) b.fix(d, ev(k->args[d + 1], c));
      return (long)b.base;
    }
    default: break;
    }
    sx_fail("unknown expression");
    return 0;
  }
  static val value(long v) {
    val r;
    r.v = v;
    return r;
  }
  static val buf(bufval b) {
    val r;
    r.b = std::make_shared<bufval>(std::move(b));
    return r;
  }
  long with(const stmt& body, var sym, val v, env c) {
    c[sym.id] = std::move(v);
    return run(body, c);
  }
  static long size(const dim& d) {
    long e = d.max() - d.min() + 1;
    return e < 0 ? 0 : e;
  }
  bufval dims_of(const std::vector<dim_expr>& dims, env& c, bool automatic) {
    bufval r;
    for (const dim_expr& i : dims) {
      dim d;
      d.set_bounds(ev(i.bounds.min, c, dim::broadcast().min()), ev(i.bounds.max, c, dim::broadcast().max()));
      d.set_stride(ev(i.stride, c, automatic ? dim::auto_stride : 0));
      d.set_fold_factor(ev(i.fold_factor, c, dim::unfolded));
      r.dims.push_back(d);
    }
    return r;
  }
  // Strides of memory of our own.
  static void dense(dim* dims, std::size_t rank, long elem_size) {
    long stride = elem_size;
    for (std::size_t d = 0; d < rank; ++d) {
      long n = dims[d].fold_factor() > 0 ? dims[d].fold_factor() : size(dims[d]);
      if (dims[d].stride() == dim::auto_stride) dims[d].set_stride(stride);
      stride *= n > 1 ? n : 1;
    }
  }
  // c is a value: what a statement does to it is not seen by others.
  static void drop_broadcasts(bufval& b) {
    while (!b.dims.empty() && b.dims.back().is_broadcast()) b.dims.pop_back();
  }
  long run(const stmt& s, env c) {
    if (!s.defined()) return 0;
    switch (s.type()) {
    case stmt_node_type::block:
      for (const stmt& i : s.as<block>()->stmts)
        if (long r = run(i, c)) return r;
      return 0;
    case stmt_node_type::call_stmt: return observe(s.as<call_stmt>(), c);
    case stmt_node_type::let_stmt: {
      const let_stmt* l = s.as<let_stmt>();
      for (const auto& i : l->lets) {
        const variable* v = i.second.as<variable>();
        val x = v && v->field == buffer_field::none ? c[v->sym.id] : value(ev(i.second, c));
        c[i.first.id] = x;
      }
      return run(l->body, c);
    }
    case stmt_node_type::loop: {
      const loop* l = s.as<loop>();
      long lo = ev(l->bounds.min, c), hi = ev(l->bounds.max, c), step = ev(l->step, c, 1), result = 0;
      bool serial = ev(l->max_workers, c) <= 1;
      for (long i = lo; i <= hi && !(serial && result); i += step) {
        long r = with(l->body, l->sym, value(i), c);
        if (!result) result = r;
      }
      return result;
    }
    case stmt_node_type::async: {
      const async* a = s.as<async>();
      long t = run(a->task, c), b = run(a->body, c);
      return t ? t : b;
    }
    case stmt_node_type::allocate: {
      const allocate* a = s.as<allocate>();
      bufval b = dims_of(a->dims, c, true);
      b.elem_size = ev(a->elem_size, c);
      drop_broadcasts(b);
      dense(b.dims.data(), b.dims.size(), b.elem_size);
      b.base = allocated < memory.size() ? memory[allocated] : nullptr;
      ++allocated;
      return with(a->body, a->sym, buf(b), c);
    }
    case stmt_node_type::make_buffer: {
      const make_buffer* m = s.as<make_buffer>();
      bufval b = dims_of(m->dims, c, false);
      b.base = (char*)ev(m->base, c, 0);
      b.elem_size = ev(m->elem_size, c, 0);
      drop_broadcasts(b);
      return with(m->body, m->sym, buf(b), c);
    }
    case stmt_node_type::constant_buffer: {
      const constant_buffer* k = s.as<constant_buffer>();
      bufval b;
      b.base = (char*)k->value->base;
      b.elem_size = k->value->elem_size;
      b.dims.assign(k->value->dims, k->value->dims + k->value->rank);
      return with(k->body, k->sym, buf(b), c);
    }
    case stmt_node_type::clone_buffer: return with(s.as<clone_buffer>()->body, s.as<clone_buffer>()->sym, buf(*c[s.as<clone_buffer>()->src.id].b), c);
    case stmt_node_type::crop_buffer: {
      const crop_buffer* k = s.as<crop_buffer>();
      bufval b = *c[k->src.id].b, old = b;
      for (std::size_t d = 0; d < k->bounds.size(); ++d) b.crop(d, ev(k->bounds[d].min, c, old.at(d).min()), ev(k->bounds[d].max, c, old.at(d).max()));
      return with(k->body, k->sym, buf(b), c);
    }
    case stmt_node_type::crop_dim: {
      const crop_dim* k = s.as<crop_dim>();
      bufval b = *c[k->src.id].b;
      b.crop(k->dim, ev(k->bounds.min, c, b.at(k->dim).min()), ev(k->bounds.max, c, b.at(k->dim).max()));
      return with(k->body, k->sym, buf(b), c);
    }
    case stmt_node_type::slice_buffer: {
      const slice_buffer* k = s.as<slice_buffer>();
      bufval b = *c[k->src.id].b, r;
      for (std::size_t d = 0; d < b.dims.size(); ++d) {
        if (d < k->at.size() && k->at[d].defined()) b.fix(d, ev(k->at[d], c));
        else r.dims.push_back(b.dims[d]);
      }
      r.base = b.base, r.elem_size = b.elem_size;
      return with(k->body, k->sym, buf(r), c);
    }
    case stmt_node_type::slice_dim: {
      const slice_dim* k = s.as<slice_dim>();
      bufval b = *c[k->src.id].b;
      b.fix(k->dim, ev(k->at, c));
      if (k->dim < (int)b.dims.size()) b.dims.erase(b.dims.begin() + k->dim);
      return with(k->body, k->sym, buf(b), c);
    }
    case stmt_node_type::transpose: {
      const transpose* t = s.as<transpose>();
      const bufval& b = *c[t->src.id].b;
      bufval r = b;
      r.dims.clear();
      for (int i : t->dims) r.dims.push_back(i == transpose::new_dim ? dim::broadcast() : b.at(i));
      drop_broadcasts(r);
      return with(t->body, t->sym, buf(r), c);
    }
    case stmt_node_type::check:
      if (ev(s.as<slinky::check>()->condition, c)) return 0;
      ++rec->checks_failed;
      return 1;
    default: break;
    }
    sx_fail("unknown statement");
    return 0;
  }
  long observe(const call_stmt* op, env& c) {
    long r = rec->called(op->inputs.size());
    for (var i : op->inputs) {
      const bufval& b = *c[i.id].b;
      rec->buffer(b.base, b.elem_size, b.dims.data(), b.dims.size());
    }
    for (const expr& i : op->scalars) rec->log.push_back(ev(i, c));
    if (r) ++rec->failed;
    return r;
  }
};

// A call that records what it sees in `rec`.
static inline stmt observing_call(recorder*& rec, std::vector<var> inputs, std::vector<expr> scalars, std::vector<var> outputs = {}) {
  call_stmt::symbol_list l(inputs.begin(), inputs.end()), o(outputs.begin(), outputs.end());
  return call_stmt::make(
      [&rec](const call_stmt* op, eval_context& c) -> index_t {
        long r = rec->called(op->inputs.size());
        for (var i : op->inputs) {
          const raw_buffer* b = c.lookup_buffer(i);
          rec->buffer((char*)b->base, b->elem_size, b->dims, b->rank);
          rec->used.push_back({(char*)b->base, false});
          if (rec->on_use) rec->on_use((char*)b->base);
        }
        for (var i : op->outputs) {
          const raw_buffer* b = c.lookup_buffer(i);
          rec->buffer((char*)b->base, b->elem_size, b->dims, b->rank, true);
          rec->used.push_back({(char*)b->base, true});
          if (rec->on_use) rec->on_use((char*)b->base);
        }
        for (const expr& i : op->scalars) rec->log.push_back(evaluate(i, c));
        return r;
      },
      l, o, std::move(scalars), {});
}

}  // namespace slinky
