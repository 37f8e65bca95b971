// Pipelines given any inputs and outputs: they either fail a check before anything else, or stay in bounds.
#include "schedules.h"
using namespace slinky;
#define T sx_thorough()

// A buffer as given by the caller: bounds, rank and element size may be wrong.
struct given_buffer {
  std::vector<dim> dims;
  elem_t* mem = nullptr;
  std::size_t n = 0;
  raw_buffer b;
  bool null = false;
  const raw_buffer* ptr() const { return null ? nullptr : &b; }
  ~given_buffer() { free(mem); }
};
enum defect { NONE, LOW, HIGH, RANK_MORE, RANK_LESS, ELEM_SIZE, IS_NULL, STRIDE, FOLD, DEFECTS };

static void test(const graph& g, int max_step, int places, long emin, long emax, int constraint = 0) {
  built b;
  b.make(g);
  int last = g.stages.size() - 1;
  pick_loops(b, last, std::min(g.rank[g.stages[last].out[0]], 2), max_step);
  std::vector<bool> root(g.rank.size());
  for (int s = last - 1; s >= 0; --s) {
    bool r = false;
    for (int o : g.stages[s].out) r = r || root[o];
    if (pick_place(b, s, last, places, r) || r)
      for (const access& a : g.stages[s].in) root[a.buf] = true;
  }
  // What the pipeline requires of the layout.
  if (constraint == 1) {
    for (int i : g.inputs) b.bufs[i]->dim(0).stride = static_cast<index_t>(sizeof(elem_t));
  } else if (constraint == 2) {
    for (int i : g.outputs) b.bufs[i]->dim(0).stride = static_cast<index_t>(sizeof(elem_t));
  } else if (constraint == 3) {
    for (int i : g.outputs) b.bufs[i]->dim(0).bounds.min = 0;
  }
  b.build();
  std::vector<array> out(g.outputs.size());
  for (std::size_t i = 0; i < out.size(); ++i)
    for (int d = 0; d < g.rank[g.outputs[i]]; ++d) {
      long mn = i == 0 ? sx_int("min", b.min_lo, b.min_hi) : out[0].min[d] + sx_int("offset", -2, 2);
      out[i].add(mn, mn + sx_pick_range("extent", emin, emax) - 1);
    }
  if (b.uses_arg) b.g.arg = sx_int("arg", -3, 3);
  std::vector<array> want = b.g.required(out);
  for (int i : g.inputs) {
    want[i].v.resize(want[i].size());
    for (elem_t& e : want[i].v) e = (elem_t)sx_int("v", 0, 1000000);
  }
  b.g.evaluate(want);
  bool usable = true;
  int total = g.inputs.size() + g.outputs.size();
  int which = sx_pick("which", total);
  int kind = sx_pick("defect", DEFECTS);
  std::deque<given_buffer> bufs;
  std::vector<const raw_buffer*> pi, po;
  for (int k = 0; k < total; ++k) {
    bool input = k < (int)g.inputs.size();
    int id = input ? g.inputs[k] : g.outputs[k - g.inputs.size()];
    const array& a = want[id];
    bufs.emplace_back();
    given_buffer& m = bufs.back();
    int defect = k == which ? kind : NONE;
    std::size_t elem_size = defect == ELEM_SIZE ? 2 * sizeof(elem_t) : sizeof(elem_t);
    long stride = elem_size;
    int bad_dim = a.min.size() > 1 && defect != NONE ? sx_pick("bad_dim", a.min.size()) : 0;
    std::vector<long> shift(a.min.size());
    for (std::size_t d = 0; d < a.min.size(); ++d) {
      long lo = a.min[d], hi = a.max(d);
      if (input) {
        // The input may have more than what is needed, or less.
        int more = sx_pick("more", 2);
        lo -= more, hi += more;
        shift[d] = more;
        if (defect == LOW && (int)d == bad_dim) {
          // Not from the beginning.
          lo = a.min[d] + 1, shift[d] = -1;
          usable = false;
        } else if (defect == HIGH && (int)d == bad_dim) {
          hi = a.max(d) - 1;
          usable = false;
        }
      }
      long extent = sx_concretize(hi - lo + 1);
      long s = stride;
      if (defect == STRIDE && (int)d == bad_dim) {
        s = 2 * stride;
        if (d == 0 && constraint == (input ? 1 : 2) && extent > 1) usable = false;
      }
      m.dims.push_back(dim(lo, hi, s));
      if (defect == FOLD && (int)d == bad_dim && extent > 0) {
        // Folded by less than the extent. Only outputs cannot be.
        if (!input && extent > 1) {
          m.dims.back().set_fold_factor(extent - 1);
          usable = false;
        }
      }
      if (constraint == 3 && !input && d == 0 && !(lo == 0)) usable = false;
      stride = s * (extent > 1 ? extent : 1);
    }
    m.n = stride / sizeof(elem_t);
    m.mem = (elem_t*)malloc(stride);
    for (std::size_t i = 0; i < m.n; ++i) m.mem[i] = 777;
    if (defect == RANK_MORE) m.dims.push_back(dim(0, 0, stride)), usable = false;
    std::size_t rank = m.dims.size();
    if (defect == RANK_LESS) --rank, usable = false;
    if (defect == ELEM_SIZE) usable = false;
    if (defect == IS_NULL) m.null = true, usable = false;
    m.b = raw_buffer{m.mem, elem_size, rank, m.dims.data()};
    if (input && usable) {
      for_box(a.extent, [&](const long* rel) {
        long o = 0;
        for (std::size_t d = 0; d < a.min.size(); ++d) o += (rel[d] + shift[d]) * sx_concretize(m.dims[d].stride());
        *(elem_t*)((char*)m.mem + o) = a.v[a.index(rel)];
      });
    }
    (input ? pi : po).push_back(m.ptr());
  }
  heap h;
  eval_context ctx;
  ctx.config = &h.config;
  b.state.want = &want;
  index_t args[] = {b.g.arg};
  long r = b.p.evaluate(pipeline::scalars(args, b.uses_arg ? 1 : 0), pipeline::buffers(pi.data(), pi.size()), pipeline::buffers(po.data(), po.size()), ctx);
  if (usable) {
    sx_cover("usable");
    sx_assert_msg(r == 0 && h.checks_failed == 0, "usable buffers were rejected");
    for (std::size_t k = 0; k < g.outputs.size(); ++k) {
      const given_buffer& m = bufs[g.inputs.size() + k];
      const array& w = want[g.outputs[k]];
      bool same = true;
      for_box(w.extent, [&](const long* rel) {
        long o = 0;
        for (std::size_t d = 0; d < w.min.size(); ++d) o += rel[d] * sx_concretize(m.dims[d].stride());
        same &= *(elem_t*)((char*)m.mem + o) == w.v[w.index(rel)];
      });
      sx_assert_msg(same, "an output element is not what the stages define");
    }
    return;
  }
  sx_cover("rejected");
  sx_assert_msg(r != 0, "unusable buffers were accepted");
  sx_assert_msg(h.checks_failed > 0, "the check failed hook was not called");
  sx_assert_msg(b.state.calls == 0, "a stage was called although a check failed");
  sx_assert_msg(h.allocs == h.frees && !h.bad_free, "an allocation was not released");
  for (std::size_t k = 0; k < bufs.size(); ++k) {
    if (k < g.inputs.size()) continue;
    bool same = true;
    for (std::size_t i = 0; i < bufs[k].n; ++i) same &= bufs[k].mem[i] == 777;
    sx_assert_msg(same, "an output was modified although a check failed");
  }
}
SX_HARNESS(stencil_1d, "usable rejected") { test(stencil_chain(1, 1), T ? 3 : 2, T ? 6 : 3, 1, T ? 4 : 3); }
SX_HARNESS(stencils_1d, "usable rejected") { test(stencil_chain(1, 2), 2, T ? 6 : 2, T ? 1 : 2, T ? 3 : 2); }
SX_HARNESS(stencil_2d, "usable rejected") { test(stencil_chain(2, 1), T ? 2 : 1, T ? 4 : 1, T ? 1 : 2, 2); }
SX_HARNESS(resampled, "usable rejected") { test(resample(), 2, T ? 6 : 1, T ? 1 : 2, T ? 4 : 2); }
SX_HARNESS(reduced, "usable rejected") { test(reduce(), 1, T ? 4 : 1, T ? 1 : 2, 2); }
SX_HARNESS(transposes, "usable rejected") { test(transposed(), T ? 2 : 1, T ? 4 : 1, T ? 1 : 2, 2); }
SX_HARNESS(outputs, "usable rejected") { test(two_outputs(), T ? 2 : 1, T ? 4 : 2, T ? 1 : 2, 2); }
// The element type of the buffers constrains strides or mins.
SX_HARNESS(constrained, "usable rejected") { test(stencil_chain(1, 1), T ? 2 : 1, T ? 4 : 1, 1, T ? 3 : 2, 1 + sx_pick("constraint", 3)); }
SX_HARNESS(constrained_2d, "usable rejected") { test(transposed(), 1, T ? 2 : 1, 1, 2, 1 + sx_pick("constraint", 3)); }
