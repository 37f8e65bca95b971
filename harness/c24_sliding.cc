// Sliding loops: how often elements are computed and how much storage is used.
#include "schedules.h"
using namespace slinky;
#define T sx_thorough()

// One serial loop over dimension `ld` of the last stage, everything else placed by slinky. `window[b]` is how many elements of
// buffer b in the dimension of the loop are needed for `step` elements of the last stage.
static void test(const graph& g, int ld, int max_step, long emin, long emax, const std::function<long(int, long)>& window, bool store_root = false) {
  built b;
  b.make(g);
  int last = g.stages.size() - 1;
  long step = sx_pick_range("step", 1, max_step);
  b.funcs[last].loops({{b.dim_var(ld), expr(step)}});
  if (store_root && sx_pick("store_root", 2))
    for (int s = 0; s < last; ++s) b.bufs[g.stages[s].out[0]]->store_root();
  build_options o;
  o.no_alias_buffers = sx_pick("no_alias", 2);
  b.build(o);
  std::vector<array> out(1);
  for (int d = 0; d < g.rank[g.outputs[0]]; ++d) {
    long mn = sx_int("min", b.min_lo, b.min_hi);
    // Whether the extent is a multiple of the step should not matter.
    out[0].add(mn, mn + (d == ld ? sx_pick_range("extent", emin, emax) : sx_pick_range("other_extent", 1, 2)) - 1);
  }
  std::vector<array> want = b.g.required(out);
  for (int i : g.inputs) {
    want[i].v.resize(want[i].size());
    for (elem_t& e : want[i].v) e = (elem_t)sx_int("v", 0, 1000000);
  }
  b.g.evaluate(want);
  std::deque<memory> ins, outs;
  std::vector<const raw_buffer*> pi, po;
  for (int i : g.inputs) {
    ins.emplace_back();
    ins.back().make(want[i]);
    for (std::size_t k = 0; k < ins.back().n; ++k) ins.back().mem[k] = want[i].v[k];
    pi.push_back(&ins.back().b);
  }
  outs.emplace_back();
  outs.back().make(want[g.outputs[0]]);
  po.push_back(&outs.back().b);
  heap h;
  eval_context ctx;
  ctx.config = &h.config;
  // The largest allocation of each buffer.
  std::vector<long> largest(g.rank.size()), count(g.rank.size());
  auto alloc = h.config.allocate;
  h.config.allocate = [&](var v, raw_buffer* buf) {
    void* p = alloc(v, buf);
    for (std::size_t i = 0; i < b.bufs.size(); ++i)
      if (b.ctx.name(v).compare(0, 2, b.ctx.name(b.bufs[i]->sym())) == 0) {
        if (h.blocks.back().n > largest[i]) largest[i] = h.blocks.back().n;
        ++count[i];
      }
    return p;
  };
  b.state.want = &want;
  b.state.computed.resize(g.rank.size());
  for (std::size_t i = 0; i < g.rank.size(); ++i) b.state.computed[i].assign(want[i].size(), 0);
  long r = b.p.evaluate(pipeline::scalars(), pipeline::buffers(pi.data(), pi.size()), pipeline::buffers(po.data(), po.size()), ctx);
  sx_assert_msg(r == 0, "the pipeline failed");
  bool same = true;
  for (std::size_t k = 0; k < outs[0].n; ++k) same &= outs[0].mem[k] == want[g.outputs[0]].v[k];
  sx_assert_msg(same, "an output element is not what the stages define");
  sx_cover("ran");
  for (std::size_t s = 0; s < g.stages.size(); ++s) {
    int i = g.stages[s].out[0];
    bool once = true;
    for (int n : b.state.computed[i]) once &= n <= 1;
    if (i != g.outputs[0]) sx_assert_msg(once, "an element is computed more than once");
    sx_observe(largest[i]);
    if (i == g.outputs[0]) continue;
    long other = 1;
    for (int d = 0; d < g.rank[i]; ++d)
      if (d != ld) other *= want[i].extent[d];
    sx_assert_msg(largest[i] <= (window(i, step) + step) * other, "more storage than the window and a step is used");
  }
}
// The window of b1 in a chain: pointwise, stencil of 3 [, stencil of 2]
SX_HARNESS(stencil_1d, "ran") { test(stencil_chain(1, 1), 0, T ? 4 : 3, 1, T ? 12 : 8, [](int, long step) { return step + 2; }, true); }
SX_HARNESS(stencils_1d, "ran") { test(stencil_chain(1, 2), 0, T ? 4 : 2, 1, T ? 10 : 7, [](int b, long step) { return b == 2 ? step + 1 : step + 3; }, true); }
SX_HARNESS(stencil_2d_rows, "ran") { test(stencil_chain(2, 1), 1, T ? 3 : 2, 1, T ? 7 : 5, [](int, long step) { return step + 2; }, true); }
SX_HARNESS(stencil_2d_columns, "ran") { test(stencil_chain(2, 1), 0, T ? 3 : 2, 1, T ? 7 : 5, [](int, long step) { return step + 2; }, true); }
SX_HARNESS(stencils_2d, "ran") { test(stencil_chain(2, 2), 1, T ? 2 : 1, 1, T ? 6 : 4, [](int b, long step) { return b == 2 ? step + 1 : step + 3; }); }
SX_HARNESS(diamond_1d, "ran") { test(diamond(1), 0, T ? 3 : 2, 1, T ? 8 : 6, [](int b, long step) { return b == 2 ? step : b == 3 ? step + 1 : step + 4; }, true); }
SX_HARNESS(multiple_outputs_1d, "ran") { test(multiple_outputs(), 0, T ? 4 : 2, 1, T ? 8 : 6, [](int, long step) { return step + 2; }); }
SX_HARNESS(transposed_2d, "ran") { test(transposed(), 0, T ? 2 : 1, 1, T ? 6 : 4, [](int, long step) { return 100; }); }
