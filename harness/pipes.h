// Pipelines over small graphs of stages with affine accesses, and the values they should compute.
#pragma once
#include <cstdlib>
#include <deque>
#include <iostream>
#include <functional>
#include <utility>
#include <vector>
#include "slinky/builder/pipeline.h"
#include "slinky/runtime/pipeline.h"
#include "slinky/runtime/print.h"
#include "stmts.h"

namespace slinky {

using elem_t = unsigned int;

// An input of a stage: dimension d of the buffer is accessed at [floor(o*num/den) + lo, floor(o*num/den) + hi], where o is the
// coordinate of dimension `od` of the output (or 0 if od is -1).
// od2 and num2 add the coordinate of another dimension, arg the value of the argument of the pipeline.
struct access {
  struct range {
    int od = -1, num = 1, den = 1, lo = 0, hi = 0, od2 = -1, num2 = 0;
    bool arg = false;
  };
  int buf;
  std::vector<range> dims;
};
static inline access::range at(int od, int lo = 0, int hi = 0, int num = 1, int den = 1) { return {od, num, den, lo, hi}; }
static inline access::range all(int lo, int hi) { return {-1, 1, 1, lo, hi}; }
enum stage_kind { CALL, COPY, PAD, CONCAT, STACK };
struct stage {
  std::vector<access> in;
  std::vector<int> out;
  int in_place = 0, min_rank = 100;
  stage_kind kind = CALL;
  // PAD: the input is cropped to these bounds, or to those of the input of the pipeline that it is.
  std::vector<std::pair<long, long>> crop;
  bool crop_bounds = false;
  elem_t pad = 0;  // If there is only one input.
  // CONCAT, STACK
  int dim = 0;
  std::vector<long> starts;
};
static inline long fdiv(long a, long b) {
  long q = a / b;
  return q * b > a ? q - 1 : q;
}
// A box of elements.
struct array {
  std::vector<long> min, top, extent;
  std::vector<elem_t> v;
  std::vector<char> undefined;
  bool needed = false;
  std::size_t size() const {
    std::size_t n = 1;
    for (long e : extent) n *= e > 0 ? e : 0;
    return n;
  }
  long max(std::size_t d) const { return top[d]; }
  void add(long lo, long hi) {
    min.push_back(lo), top.push_back(hi);
    extent.push_back(hi < lo ? 0 : sx_concretize(hi - lo + 1));
  }
  // Of coordinates relative to min.
  std::size_t index(const long* rel) const {
    std::size_t i = 0, s = 1;
    for (std::size_t d = 0; d < min.size(); ++d) i += rel[d] * s, s *= extent[d];
    return i;
  }
};
template <typename F>
static void for_box(const std::vector<long>& extent, const F& f) {
  long n[3] = {1, 1, 1};
  for (std::size_t d = 0; d < extent.size(); ++d) n[d] = extent[d];
  for (long z = 0; z < n[2]; ++z)
    for (long y = 0; y < n[1]; ++y)
      for (long x = 0; x < n[0]; ++x) {
        long c[3] = {x, y, z};
        f(c);
      }
}

struct graph {
  std::vector<int> rank;  // of every buffer
  std::vector<stage> stages;
  std::vector<int> inputs, outputs;

  long arg = 0;  // The value of the argument of the pipeline.
  // The bounds of a range for the outputs [omin, omax] (of the first three dimensions).
  long lo(const access::range& r, const long* omin, const long* omax) const { return end(r, omin, omax) + r.lo; }
  long hi(const access::range& r, const long* omin, const long* omax) const { return end(r, omax, omin) + r.hi; }
  long end(const access::range& r, const long* a, const long* b) const {
    long x = r.arg ? arg : 0;
    if (r.od >= 0) {
      long o = (r.num < 0 ? b : a)[r.od] * r.num;
      x += r.den == 1 ? o : fdiv(o, r.den);
    }
    if (r.od2 >= 0) x += (r.num2 < 0 ? b : a)[r.od2] * r.num2;
    return x;
  }
  // The region of input i of a stage needed for the region o of its output.
  array input_region(const stage& st, std::size_t i, const array& o, const std::vector<array>& r) const {
    array q;
    long a[3] = {0, 0, 0}, b[3] = {0, 0, 0};
    for (std::size_t d = 0; d < o.min.size(); ++d) a[d] = o.min[d], b[d] = o.top[d];
    if (st.kind == CONCAT || st.kind == STACK) {
      for (int d = 0; d < (int)o.min.size(); ++d) {
        if (d != st.dim) q.add(o.min[d], o.top[d]);
        else if (st.kind == CONCAT) {
          long l = o.min[d] - st.starts[i], h = o.top[d] - st.starts[i], n = st.starts[i + 1] - st.starts[i] - 1;
          q.add(l < 0 ? 0 : l, h < n ? h : n);
        }
      }
      return q;
    }
    for (std::size_t d = 0; d < st.in[i].dims.size(); ++d) {
      long l = lo(st.in[i].dims[d], a, b), h = hi(st.in[i].dims[d], a, b);
      if (st.kind == PAD && i == 0) {
        long cl = st.crop_bounds ? r[st.in[0].buf].min[d] : st.crop[d].first, ch = st.crop_bounds ? r[st.in[0].buf].top[d] : st.crop[d].second;
        if (l < cl) l = cl;
        if (h > ch) h = ch;
      }
      q.add(l, h);
    }
    return q;
  }
  // The region of every buffer that is needed for the given outputs.
  std::vector<array> required(const std::vector<array>& out, std::vector<array> r = {}) const {
    r.resize(rank.size());
    for (std::size_t i = 0; i < outputs.size(); ++i) r[outputs[i]] = out[i], r[outputs[i]].needed = true;
    for (std::size_t s = stages.size(); s-- > 0;) {
      const stage& st = stages[s];
      array o;
      for (int b : st.out) {
        if (!r[b].needed) continue;
        if (!o.needed) o = r[b];
        else unite(o, r[b]);
      }
      if (!o.needed) continue;
      for (int b : st.out) {
        bool is_out = false;
        for (int k : outputs) is_out |= k == b;
        if (!is_out) r[b].min = o.min, r[b].top = o.top, r[b].extent = o.extent, r[b].needed = true;
      }
      for (std::size_t i = 0; i < st.in.size(); ++i) {
        array& t = r[st.in[i].buf];
        if (st.kind == PAD && i == 0 && st.crop_bounds) continue;
        array q = input_region(st, i, o, r);
        if (!t.needed) t = q, t.needed = true;
        else unite(t, q);
      }
    }
    return r;
  }
  static void unite(array& t, const array& q) {
    array u;
    for (std::size_t d = 0; d < t.min.size(); ++d) u.add(t.min[d] < q.min[d] ? t.min[d] : q.min[d], t.max(d) > q.max(d) ? t.max(d) : q.max(d));
    t.min = u.min, t.top = u.top, t.extent = u.extent;
  }
  // The value of a stage at one coordinate, read: (input, coordinates) -> value.
  template <typename F>
  elem_t compute(const stage& st, int output, const long* c, const F& read) const {
    elem_t sum = 17 * output + 5, k = 3;
    for (std::size_t i = 0; i < st.in.size(); ++i) {
      const access& a = st.in[i];
      long m[3] = {0, 0, 0}, n[3] = {1, 1, 1};
      for (std::size_t d = 0; d < a.dims.size(); ++d) {
        const access::range& x = a.dims[d];
        m[d] = lo(x, c, c);
        n[d] = x.hi - x.lo + 1;
      }
      for (long z = 0; z < n[2]; ++z)
        for (long y = 0; y < n[1]; ++y)
          for (long x = 0; x < n[0]; ++x) {
            long at[3] = {m[0] + x, m[1] + y, m[2] + z};
            sum += k * read(i, at);
            k += 2;
          }
    }
    return sum;
  }
  // The values of every buffer, of inputs whose values are given.
  void evaluate(std::vector<array>& r) const {
    for (const stage& st : stages) {
      for (std::size_t o = 0; o < st.out.size(); ++o) {
        array& t = r[st.out[o]];
        t.v.assign(t.size(), 0);
        t.undefined.assign(t.size(), 0);
        for_box(t.extent, [&](const long* rel) {
          long c[3] = {0, 0, 0};
          for (std::size_t d = 0; d < t.min.size(); ++d) c[d] = t.min[d] + rel[d];
          char undefined = 0;
          auto read = [&](std::size_t i, const long* at) {
            const array& s = r[st.in[i].buf];
            long q[3] = {0, 0, 0};
            for (std::size_t d = 0; d < s.min.size(); ++d) q[d] = sx_concretize(at[d] - s.min[d]);
            std::size_t k = s.index(q);
            if (!s.undefined.empty()) undefined |= s.undefined[k];
            return s.v[k];
          };
          elem_t v = 0;
          if (st.kind == CALL) v = compute(st, o, c, read);
          else v = copy(st, c, read, r, undefined);
          t.v[t.index(rel)] = v;
          t.undefined[t.index(rel)] = undefined;
        });
      }
    }
  }
  template <typename F>
  elem_t copy(const stage& st, const long* c, const F& read, const std::vector<array>& r, char& undefined) const {
    long at[3] = {0, 0, 0};
    if (st.kind == CONCAT || st.kind == STACK) {
      for (std::size_t i = 0; i < st.in.size(); ++i) {
        long b = st.kind == CONCAT ? st.starts[i] : i, e = st.kind == CONCAT ? st.starts[i + 1] : i + 1;
        if (!(b <= c[st.dim] && c[st.dim] < e)) continue;
        int n = 0;
        for (int d = 0; d < rank[st.out[0]]; ++d) {
          if (d != st.dim) at[n++] = c[d];
          else if (st.kind == CONCAT) at[n++] = c[d] - b;
        }
        return read(i, at);
      }
      undefined = 1;
      return 0;
    }
    bool in = true;
    for (std::size_t d = 0; d < st.in[0].dims.size(); ++d) {
      at[d] = lo(st.in[0].dims[d], c, c);
      if (st.kind != PAD) continue;
      const array& s = r[st.in[0].buf];
      in &= st.crop_bounds ? s.min[d] <= at[d] && at[d] <= s.top[d] : st.crop[d].first <= at[d] && at[d] <= st.crop[d].second;
    }
    if (in) return read(0, at);
    if (st.in.size() == 1) return st.pad;
    for (std::size_t d = 0; d < st.in[1].dims.size(); ++d) at[d] = lo(st.in[1].dims[d], c, c);
    return read(1, at);
  }
};

// A graph built as a pipeline.
struct built {
  graph g;
  node_context ctx;
  var x, y, z, k;
  std::vector<buffer_expr_ptr> bufs;
  std::deque<func> funcs;
  pipeline p;
  // Of the current run.
  struct run_state {
    std::vector<array>* want = nullptr;
    std::vector<std::vector<int>> computed;  // how often each element of each buffer was computed
    long calls = 0, fail_at = -1, code = 0;
    bool too_small = false, bad_rank = false, outside = false;
  } state;

  built() : x(ctx, "x"), y(ctx, "y"), z(ctx, "z"), k(ctx, "k") {}
  var dim_var(int d) { return d == 0 ? x : d == 1 ? y : z; }
  interval_expr bounds(const access::range& r) {
    expr o = 0;
    if (r.od >= 0) o = dim_var(r.od);
    if (r.num != 1) o = o * r.num;
    if (r.den != 1) o = floor_div(o, expr(r.den));
    if (r.od2 >= 0) o = o + dim_var(r.od2) * r.num2;
    if (r.arg) o = o + k;
    if (r.lo == r.hi) return point(o + r.lo);
    return {o + r.lo, o + r.hi};
  }
  void make(const graph& graph_, bool reverse = false) {
    g = graph_;
    static const char* names[] = {"b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8", "b9"};
    bufs.resize(g.rank.size());
    // The order of the symbols should not matter.
    for (std::size_t j = 0; j < g.rank.size(); ++j) {
      std::size_t i = reverse ? g.rank.size() - 1 - j : j;
      bufs[i] = buffer_expr::make(ctx, names[i], g.rank[i], sizeof(elem_t));
    }
    for (std::size_t s = 0; s < g.stages.size(); ++s) {
      const stage& st = g.stages[s];
      std::vector<func::input> ins;
      for (const access& a : st.in) {
        box_expr b;
        for (const access::range& r : a.dims) b.push_back(bounds(r));
        ins.push_back({bufs[a.buf], b});
      }
      std::vector<func::output> outs;
      for (int b : st.out) {
        std::vector<var> dims;
        for (int d = 0; d < g.rank[b]; ++d) dims.push_back(dim_var(d));
        outs.push_back({bufs[b], dims});
      }
      if (st.kind == COPY) {
        funcs.push_back(func::make_copy(ins[0], outs[0]));
        continue;
      } else if (st.kind == PAD) {
        for (std::size_t d = 0; d < st.in[0].dims.size(); ++d)
          ins[0].input_crop.push_back(st.crop_bounds ? bufs[st.in[0].buf]->dim(d).bounds : slinky::bounds(st.crop[d].first, st.crop[d].second));
        func::input pad;
        if (st.in.size() == 2) pad = ins[1];
        else pad = {buffer_expr::make_scalar<elem_t>(ctx, "padding", st.pad), {}};
        funcs.push_back(func::make_copy(ins[0], outs[0], pad));
        continue;
      } else if (st.kind == CONCAT || st.kind == STACK) {
        std::vector<buffer_expr_ptr> src;
        for (const access& a : st.in) src.push_back(bufs[a.buf]);
        std::vector<expr> starts;
        for (long i : st.starts) starts.push_back(i);
        if (st.kind == CONCAT) funcs.push_back(func::make_concat(src, outs[0], st.dim, starts));
        else funcs.push_back(func::make_stack(src, outs[0], st.dim));
        continue;
      }
      call_stmt::attributes attrs;
      attrs.allow_in_place = st.in_place;
      if (st.min_rank < 100) attrs.min_rank = st.min_rank;
      attrs.name = names[s];
      funcs.push_back(func([this, s](const call_stmt* op, eval_context& c) -> index_t { return call(s, op, c); }, ins, outs, {}, attrs));
    }
  }
  bool uses_arg = false;
  // Where loops and tasks run, if not on the calling thread.
  thread_pool* pool = nullptr;
  std::function<void()> at_call;
  long min_lo = -20, min_hi = 20, in_extent_min = 0, in_extent_max = 3;
  void build(build_options options = {}) {
    std::vector<var> args;
    for (const stage& s : g.stages)
      for (const access& a : s.in)
        for (const access::range& r : a.dims) uses_arg |= r.arg;
    if (uses_arg) args.push_back(k);
    std::vector<buffer_expr_ptr> in, out;
    for (int i : g.inputs) in.push_back(bufs[i]);
    for (int i : g.outputs) out.push_back(bufs[i]);
    p = build_pipeline(ctx, args, in, out, {}, options);
    if (!sx_symbolic() && getenv("SX_PRINT")) std::cerr << std::tuple<const stmt&, const node_context&>(p.body, ctx) << std::endl;
  }
  // What a stage does.
  index_t call(std::size_t s, const call_stmt* op, eval_context& c) {
    const stage& st = g.stages[s];
    if (at_call) at_call();
    if (state.calls++ == state.fail_at) return state.code;
    sx_assert(op->inputs.size() == st.in.size() && op->outputs.size() == st.out.size());
    for (std::size_t o = 0; o < st.out.size(); ++o) {
      const raw_buffer& out = *c.lookup_buffer(op->outputs[o]);
      sx_assert(out.elem_size == sizeof(elem_t));
      std::vector<long> min, extent;
      // Dimensions beyond the rank of the buffer were sliced (if the stage allows that).
      int rank = g.rank[st.out[o]];
      if ((int)out.rank > rank) state.bad_rank = true;
      bool sliced = (int)out.rank < rank && rank > st.min_rank;
      if ((int)out.rank < rank && !sliced) state.bad_rank = true;
      bool empty = false;
      for (int d = 0; d < rank && d < (int)out.rank; ++d) {
        min.push_back(out.dim(d).min());
        long e = out.dim(d).max() - out.dim(d).min() + 1;
        extent.push_back(sx_concretize(e < 0 ? 0 : e));
        empty |= extent.back() == 0;
      }
      if (empty) continue;
      bool stacked = false;
      for (const stage& i : g.stages)
        for (const access& a : i.in) stacked |= i.kind == STACK && a.buf == st.out[o];
      sx_assert_msg(out.base != nullptr || !stacked, "a stage writes to a slice of a stack that does not exist");
      sx_assert_msg(out.base != nullptr, "a stage writes to a buffer without memory");
      // Every input covers what is declared to be needed.
      for (std::size_t i = 0; i < st.in.size(); ++i) {
        const raw_buffer& in = *c.lookup_buffer(op->inputs[i]);
        for (std::size_t d = 0; d < st.in[i].dims.size() && d < in.rank; ++d) {
          const access::range& r = st.in[i].dims[d];
          if (r.od >= (int)min.size()) continue;
          long a[3] = {0, 0, 0}, b[3] = {0, 0, 0};
          for (std::size_t k = 0; k < min.size(); ++k) a[k] = min[k], b[k] = min[k] + extent[k] - 1;
          long l = g.lo(r, a, b), h = g.hi(r, a, b);
          const dim& x = in.dim(d);
          if (!x.is_broadcast() && !(x.min() <= l && h <= x.max())) state.too_small = true;
        }
      }
      sx_assert_msg(!state.too_small, "a stage is given an input that does not cover what it needs");
      bool is_output = false;
      for (int k : g.outputs) is_output |= k == st.out[o];
      // Outputs computed in place of inputs are computed together.
      bool together = st.in_place && st.out.size() > 1;
      if (together) {
        const raw_buffer& other = *c.lookup_buffer(op->outputs[1 - o]);
        for (int d = 0; d < rank; ++d) together = together && other.dim(d).min() == out.dim(d).min() && other.dim(d).max() == out.dim(d).max();
      }
      if (together && o > 0) continue;
      for_box(extent, [&](const long* rel) {
        long p[3] = {0, 0, 0};
        for (std::size_t d = 0; d < min.size(); ++d) p[d] = min[d] + rel[d];
        auto value = [&](int o) {
          return g.compute(st, o, p, [&](std::size_t i, const long* q) {
            const raw_buffer& in = *c.lookup_buffer(op->inputs[i]);
            index_t a[3] = {q[0], q[1], q[2]};
            return *(const elem_t*)in.address_at(span<const index_t>(a, in.rank));
          });
        };
        elem_t v = value(o), v1 = together ? value(1) : 0;
        index_t a[3] = {p[0], p[1], p[2]};
        *(elem_t*)out.address_at(span<const index_t>(a, out.rank)) = v;
        if (together) {
          const raw_buffer& out1 = *c.lookup_buffer(op->outputs[1]);
          *(elem_t*)out1.address_at(span<const index_t>(a, out1.rank)) = v1;
        }
        if (state.want && !state.computed.empty() && !sliced) {
          const array& w = (*state.want)[st.out[o]];
          long q[3];
          bool in = true;
          for (std::size_t d = 0; d < w.min.size(); ++d) {
            q[d] = sx_concretize(p[d] - w.min[d]);
            in &= 0 <= q[d] && q[d] < w.extent[d];
          }
          if (in) ++state.computed[st.out[o]][w.index(q)];
          else state.outside = true;
        }
      });
    }
    return 0;
  }
};

// Memory of an input or output, exactly as large as its bounds say.
struct memory {
  std::vector<dim> dims;
  elem_t* mem = nullptr;
  std::size_t n = 0;
  raw_buffer b;
  void make(const array& a) {
    long stride = sizeof(elem_t);
    dims.clear();
    for (std::size_t d = 0; d < a.min.size(); ++d) {
      dims.push_back(dim(a.min[d], a.max(d), stride));
      stride *= a.extent[d] > 1 ? a.extent[d] : 1;
    }
    n = a.size();
    mem = (elem_t*)malloc(n ? n * sizeof(elem_t) : 1);
    b = raw_buffer{n ? mem : nullptr, sizeof(elem_t), dims.size(), dims.data()};
  }
  ~memory() { free(mem); }
};
// Counts allocations and gives them values nothing should depend on.
struct heap {
  eval_config config;
  long allocs = 0, frees = 0, live_elems = 0, peak_elems = 0, total_elems = 0, largest = 0, checks_failed = 0, calls_failed = 0;
  struct block {
    void* p;
    long n;
  };
  std::vector<block> blocks;
  bool bad_free = false, alloc_failed = false;
  long fail_alloc = -1;
  inline_pool pool;
  heap() {
    config.auto_stack_threshold = 0;
    config.thread_pool = &pool;
    config.allocate = [this](var, raw_buffer* buf) -> void* {
      if (allocs == fail_alloc && buf->elem_count() > 0) {
        ++allocs;
        alloc_failed = true;
        return nullptr;
      }
      void* p = buf->allocate(sizeof(elem_t), 1);
      ++allocs;
      long n = sx_concretize(buf->size_bytes()) / sizeof(elem_t);
      for (long i = 0; i < n; ++i) ((elem_t*)buf->base)[i] = 0xdead0000 + 257 * i + allocs * 4099;
      live_elems += n, total_elems += n;
      if (n > largest) largest = n;
      if (live_elems > peak_elems) peak_elems = live_elems;
      blocks.push_back({p, n});
      return p;
    };
    config.free = [this](var, raw_buffer*, void* p) {
      for (std::size_t i = 0; i < blocks.size(); ++i)
        if (blocks[i].p == p) {
          live_elems -= blocks[i].n;
          blocks.erase(blocks.begin() + i);
          ++frees;
          ::free(p);
          return;
        }
      bad_free = true;
    };
    config.check_failed = [this](const expr&) { ++checks_failed; };
    config.call_failed = [this](const call_stmt*) { ++calls_failed; };
  }
};

// Runs b for an output of any position and size, and checks it.
static inline void run(built& b, long emin, long emax, const char* mname = "min") {
  std::vector<array> out(b.g.outputs.size());
  for (std::size_t i = 0; i < out.size(); ++i)
    for (int d = 0; d < b.g.rank[b.g.outputs[i]]; ++d) {
      // The outputs are near each other.
      long mn = i == 0 ? sx_int(mname, b.min_lo, b.min_hi) : out[0].min[d] + sx_int("offset", -2, 2);
      out[i].add(mn, mn + sx_pick_range("extent", emin, emax) - 1);
    }
  if (b.uses_arg) b.g.arg = sx_int("arg", -3, 3);
  std::vector<array> given(b.g.rank.size());
  for (const stage& st : b.g.stages) {
    if (!st.crop_bounds) continue;
    // Any bounds around those that are accessed.
    array& a = given[st.in[0].buf];
    a.needed = true;
    for (std::size_t d = 0; d < st.in[0].dims.size(); ++d) {
      long mn = out[0].min[0] + sx_pick_range("in_min", -2, 1);
      a.add(mn, mn + sx_pick_range("in_extent", b.in_extent_min, b.in_extent_max) - 1);
    }
  }
  std::vector<array> want = b.g.required(out, given);
  for (int i : b.g.inputs) {
    want[i].v.resize(want[i].size());
    for (elem_t& e : want[i].v) e = (elem_t)sx_int("v", 0, 1000000);
  }
  b.g.evaluate(want);
  std::deque<memory> ins, outs;
  std::vector<const raw_buffer*> pi, po;
  for (int i : b.g.inputs) {
    ins.emplace_back();
    ins.back().make(want[i]);
    for (std::size_t k = 0; k < ins.back().n; ++k) ins.back().mem[k] = want[i].v[k];
    pi.push_back(&ins.back().b);
  }
  for (int i : b.g.outputs) {
    outs.emplace_back();
    outs.back().make(want[i]);
    for (std::size_t k = 0; k < outs.back().n; ++k) outs.back().mem[k] = 12345;
    po.push_back(&outs.back().b);
  }
  heap h;
  eval_context ctx;
  ctx.config = &h.config;
  if (b.pool) h.config.thread_pool = b.pool;
  b.state.want = &want;
  index_t args[] = {b.g.arg};
  long r = b.p.evaluate(pipeline::scalars(args, b.uses_arg ? 1 : 0), pipeline::buffers(pi.data(), pi.size()), pipeline::buffers(po.data(), po.size()), ctx);
  if (b.state.fail_at >= 0 && b.state.calls > b.state.fail_at) {
    // What is in the outputs does not matter.
    sx_assert_msg(r == b.state.code, "a call failed, but the pipeline returns something else");
    sx_assert_msg(h.allocs == h.frees && !h.bad_free, "an allocation was not released exactly once");
    sx_cover("failed");
    return;
  }
  sx_assert_msg(r == 0 && h.checks_failed == 0, "the pipeline failed");
  sx_cover("ran");
  for (std::size_t i = 0; i < outs.size(); ++i) {
    bool same = true;
    for (std::size_t k = 0; k < outs[i].n; ++k) same &= want[b.g.outputs[i]].undefined[k] || outs[i].mem[k] == want[b.g.outputs[i]].v[k];
    sx_assert_msg(same, "an output element is not what the stages define");
  }
  for (std::size_t i = 0; i < ins.size(); ++i) {
    bool same = true;
    for (std::size_t k = 0; k < ins[i].n; ++k) same &= ins[i].mem[k] == want[b.g.inputs[i]].v[k];
    sx_assert_msg(same, "an input was modified");
  }
  sx_assert_msg(!b.state.bad_rank, "a stage was given buffers of the wrong rank");
  sx_assert_msg(h.allocs == h.frees && !h.bad_free, "an allocation was not released exactly once");
}

// Graphs.
static inline std::vector<access::range> window(int rank, int lo, int hi) {
  std::vector<access::range> r;
  for (int d = 0; d < rank; ++d) r.push_back(at(d, lo, hi));
  return r;
}
// input -> pointwise -> stencil [-> stencil]
static inline graph stencil_chain(int rank, int k) {
  graph g;
  g.rank = {rank, rank, rank};
  g.stages = {{{{0, window(rank, 0, 0)}}, {1}}, {{{1, window(rank, -1, 1)}}, {2}}};
  g.inputs = {0}, g.outputs = {2};
  if (k > 1) g.rank.push_back(rank), g.stages.push_back({{{2, window(rank, 0, 1)}}, {3}}), g.outputs = {3};
  return g;
}
// input -> pointwise -> two stencils -> one.
static inline graph diamond(int rank) {
  graph g;
  g.rank = {rank, rank, rank, rank, rank};
  g.stages = {{{{0, window(rank, 0, 0)}}, {1}},
              {{{1, window(rank, -1, 1)}}, {2}},
              {{{1, window(rank, 0, 2)}}, {3}},
              {{{2, window(rank, 0, 0)}, {3, window(rank, -1, 0)}}, {4}}};
  g.inputs = {0}, g.outputs = {4};
  return g;
}
// Downsampled, then upsampled.
static inline graph resample() {
  graph g;
  g.rank = {1, 1, 1, 1};
  g.stages = {{{{0, {at(0)}}}, {1}}, {{{1, {at(0, 0, 1, 2)}}}, {2}}, {{{2, {at(0, 0, 1, 1, 2)}}}, {3}}};
  g.inputs = {0}, g.outputs = {3};
  return g;
}
// Two inputs, each row is summed, a constant region is needed for every element.
static inline graph reduce() {
  graph g;
  g.rank = {2, 1, 1, 1, 2};
  g.stages = {{{{0, {all(-1, 2), at(0)}}}, {2}}, {{{1, {at(0)}}}, {3}}, {{{2, {at(1)}}, {3, {all(0, 2)}}}, {4}}};
  g.inputs = {0, 1}, g.outputs = {4};
  return g;
}
static inline graph transposed() {
  graph g;
  g.rank = {2, 2, 2};
  g.stages = {{{{0, {at(1), at(0, 0, 1)}}}, {1}}, {{{1, {at(1, -1, 0), at(0)}}}, {2}}};
  g.inputs = {0}, g.outputs = {2};
  return g;
}
// One stage with two outputs, both used by the last.
static inline graph multiple_outputs() {
  graph g;
  g.rank = {1, 1, 1, 1};
  g.stages = {{{{0, {at(0)}}}, {1, 2}}, {{{1, {at(0, -1, 0)}}, {2, {at(0, 0, 1)}}}, {3}}};
  g.inputs = {0}, g.outputs = {3};
  return g;
}
// One producer, two outputs of the pipeline.
static inline graph fork() {
  graph g;
  g.rank = {1, 1, 1, 1};
  g.stages = {{{{0, {at(0)}}}, {1}}, {{{1, {at(0, -1, 0)}}}, {2}}, {{{1, {at(0, 0, 1)}}}, {3}}};
  g.inputs = {0}, g.outputs = {2, 3};
  return g;
}

// The last stage has two outputs, of different sizes.
static inline graph two_outputs() {
  graph g;
  g.rank = {1, 1, 1, 1};
  g.stages = {{{{0, {at(0)}}}, {1}}, {{{1, {at(0, -1, 1)}}}, {2, 3}}};
  g.inputs = {0}, g.outputs = {2, 3};
  return g;
}

}  // namespace slinky
