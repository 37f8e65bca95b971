// Storage of intermediates: released exactly once whatever fails, never used afterwards.
#include "schedules.h"
using namespace slinky;
#define T sx_thorough()

static void test(const graph& g, int max_step, int places, long emin, long emax, int storages = 3, bool fails = true, bool loops = true) {
  built b;
  b.make(g);
  int last = g.stages.size() - 1;
  if (loops) pick_loops(b, last, std::min(g.rank[g.stages[last].out[0]], 2), max_step);
  std::vector<bool> root(g.rank.size());
  for (int s = last - 1; s >= 0; --s) {
    bool r = false;
    for (int o : g.stages[s].out) {
      r = r || root[o];
      for (int i : g.outputs) r = r || i == o;
    }
    if (pick_place(b, s, last, places, r) || r)
      for (const access& a : g.stages[s].in) root[a.buf] = true;
  }
  static const memory_type types[] = {memory_type::heap, memory_type::automatic, memory_type::stack};
  memory_type type = types[sx_pick("storage", storages)];
  for (std::size_t i = 0; i < g.rank.size(); ++i) b.bufs[i]->store_in(type);
  if (sx_pick("unfolded", 2)) {
    for (int i : g.inputs)
      for (int d = 0; d < g.rank[i]; ++d) b.bufs[i]->dim(d).fold_factor = dim::unfolded;
    for (int i : g.outputs)
      for (int d = 0; d < g.rank[i]; ++d) b.bufs[i]->dim(d).fold_factor = dim::unfolded;
  }
  b.build();
  std::vector<array> out(g.outputs.size());
  for (std::size_t i = 0; i < out.size(); ++i)
    for (int d = 0; d < g.rank[g.outputs[i]]; ++d) {
      long mn = i == 0 ? sx_int("min", b.min_lo, b.min_hi) : out[0].min[d] + sx_pick_range("offset", -1, 1);
      out[i].add(mn, mn + sx_pick_range("extent", emin, emax) - 1);
    }
  std::vector<array> want = b.g.required(out);
  for (int i : g.inputs) {
    want[i].v.resize(want[i].size());
    for (elem_t& e : want[i].v) e = (elem_t)sx_int("v", 0, 1000000);
  }
  b.g.evaluate(want);
  std::deque<memory> ins, outs;
  std::vector<const raw_buffer*> pi, po;
  for (int i : g.inputs) {
    ins.emplace_back();
    ins.back().make(want[i]);
    for (std::size_t k = 0; k < ins.back().n; ++k) ins.back().mem[k] = want[i].v[k];
    pi.push_back(&ins.back().b);
  }
  for (int i : g.outputs) {
    outs.emplace_back();
    outs.back().make(want[i]);
    for (std::size_t k = 0; k < outs.back().n; ++k) outs.back().mem[k] = 12345;
    po.push_back(&outs.back().b);
  }
  heap h;
  eval_context ctx;
  ctx.config = &h.config;
  b.state.want = &want;
  // Any call or allocation may fail.
  int what = fails ? sx_pick("what_fails", type == memory_type::stack ? 2 : 3) : 0;
  if (what == 1) {
    b.state.fail_at = sx_int("failing_call", 0, 30);
    b.state.code = sx_int("code", -100, 100);
    sx_assume(b.state.code != 0);
  } else if (what == 2) {
    h.fail_alloc = sx_int("failing_allocation", 0, 30);
  }
  long live = sx_live_allocs();
  long r = b.p.evaluate(pipeline::scalars(), pipeline::buffers(pi.data(), pi.size()), pipeline::buffers(po.data(), po.size()), ctx);
  sx_assert_msg(!h.bad_free, "something was released that was not allocated");
  bool failed = what == 1 ? b.state.calls > b.state.fail_at : h.alloc_failed;
  sx_assert_msg(h.frees == h.allocs - (h.alloc_failed ? 1 : 0), "an allocation was not released exactly once");
  sx_assert_msg(h.blocks.empty(), "an allocation is left");
  if (failed) {
    sx_cover("failed");
    sx_assert_msg(r != 0, "the failure was lost");
    if (what == 1) {
      sx_assert_msg(r == b.state.code, "the result is not the error of the stage that failed");
      sx_assert_msg(b.state.calls == b.state.fail_at + 1, "a stage ran after the failure");
      sx_assert_msg(h.calls_failed == 1, "the failed call was not reported once");
    } else {
      sx_assert_msg(h.allocs == h.fail_alloc + 1, "something was allocated after the failure");
      sx_assert_msg(h.calls_failed == 0, "a call was reported to have failed");
    }
    sx_assert_msg(h.checks_failed == 0, "a check was reported to have failed");
    return;
  }
  sx_cover("ran");
  sx_assert_msg(r == 0 && h.calls_failed == 0 && h.checks_failed == 0, "the pipeline failed");
  for (std::size_t i = 0; i < outs.size(); ++i) {
    bool same = true;
    for (std::size_t k = 0; k < outs[i].n; ++k) same &= want[g.outputs[i]].undefined[k] || outs[i].mem[k] == want[g.outputs[i]].v[k];
    sx_assert_msg(same, "an output element is not what the stages define");
  }
}
static stage mk(std::vector<access> in, std::vector<int> out, int in_place = 0) {
  stage s;
  s.in = in, s.out = out, s.in_place = in_place;
  return s;
}
static access same(int buf, int rank = 1) { return {buf, window(rank, 0, 0)}; }
// A chain of stages, the last of which may read earlier buffers again; earlier buffers may be outputs too.
static graph chain(int n, bool also_output) {
  graph g;
  g.rank.assign(n + 1, 1);
  g.inputs = {0};
  for (int i = 0; i < n; ++i) g.stages.push_back(mk({same(i)}, {i + 1}, T ? sx_pick("in_place", 2) : 0));
  int again = sx_pick("again", n - 1);
  if (again) {
    access a = same(again);
    a.dims[0].lo = -1;
    g.stages[n - 1].in.push_back(a);
  }
  if (also_output) g.outputs.push_back(1 + sx_pick("output", n - 1));
  g.outputs.push_back(n);
  return g;
}
// A copy in between.
static graph copying() {
  graph g;
  g.inputs = {0};
  g.rank = {1, 1, 1, 1, 1};
  stage c = mk({same(1)}, {2});
  switch (sx_pick("copy", 4)) {
  case 0: c.kind = COPY; break;
  case 1: c.kind = PAD, c.pad = 7, c.crop = {{0, 1}}; break;
  case 2: c.kind = CONCAT, c.starts = {0, 1, 3}, c.dim = 0, c.in = {{1, {}}, {1, {}}}; break;
  case 3: c.kind = COPY, c.in[0].dims = {at(0, 0, 0, -1)}; break;
  }
  g.stages = {mk({same(0)}, {1}), c, mk({same(2)}, {3}), mk({same(3), same(c.kind != PAD && sx_pick("again", 2) ? 1 : 2)}, {4})};
  g.outputs = {4};
  return g;
}
SX_HARNESS(chain_1d, "ran failed") { test(chain(3, false), T ? 3 : 2, T ? 6 : 3, T ? 1 : 3, T ? 4 : 3); }
SX_HARNESS(chain_long, "ran failed") { test(chain(4, false), 1, 1, T ? 1 : 2, 2); }
SX_HARNESS(chain_outputs, "ran failed") { test(chain(3, true), 1, 2, T ? 1 : 2, 2, 3, true, false); }
SX_HARNESS(diamond_1d, "ran failed") { test(diamond(1), T ? 2 : 1, T ? 6 : 2, T ? 1 : 2, T ? 3 : 2); }
SX_HARNESS(stencils_2d, "ran failed") { test(stencil_chain(2, 2), 1, T ? 4 : 1, T ? 1 : 2, 2); }
SX_HARNESS(copied_1d, "ran failed") { test(copying(), 1, T ? 3 : 1, T ? 1 : 2, 2, T ? 3 : 1); }
SX_HARNESS(fork_1d, "ran failed") { test(fork(), 1, 2, T ? 1 : 2, 2, 3, true, false); }
SX_HARNESS(resampled, "ran failed") { test(resample(), T ? 2 : 1, T ? 6 : 2, T ? 1 : 2, T ? 3 : 2); }
