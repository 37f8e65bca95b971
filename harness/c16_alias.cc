// Computing in place and sharing storage: the values are those of the stages, inputs are not modified.
#include "schedules.h"
using namespace slinky;
#define T sx_thorough()

static int tag(int max_step, int places, built& b, bool loops = true) {
  int last = b.g.stages.size() - 1;
  if (loops) pick_loops(b, last, std::min(b.g.rank[b.g.stages[last].out[0]], 2), max_step);
  std::vector<bool> root(b.g.rank.size());
  for (int s = last - 1; s >= 0; --s) {
    bool r = false;
    for (int o : b.g.stages[s].out) {
      r = r || root[o];
      for (int i : b.g.outputs) r = r || i == o;
    }
    if (pick_place(b, s, last, places, r) || r)
      for (const access& a : b.g.stages[s].in) root[a.buf] = true;
  }
  int mode = sx_pick("mode", T ? 3 : 2);
  if (mode == 1) {
    for (int i : b.g.inputs)
      for (int d = 0; d < b.g.rank[i]; ++d) b.bufs[i]->dim(d).fold_factor = dim::unfolded;
    for (int i : b.g.outputs)
      for (int d = 0; d < b.g.rank[i]; ++d) b.bufs[i]->dim(d).fold_factor = dim::unfolded;
  }
  build_options o;
  o.no_alias_buffers = mode == 2;
  b.build(o);
  return 0;
}
static stage mk(std::vector<access> in, std::vector<int> out, int in_place = 0) {
  stage s;
  s.in = in, s.out = out, s.in_place = in_place;
  return s;
}
static access same(int buf, int rank = 1) { return {buf, window(rank, 0, 0)}; }

// Stages in place one after another; the last also reads an earlier buffer; an intermediate is also an output.
static graph chain(int rank, int n, bool stencil) {
  graph g;
  g.rank.assign(n + 1, rank);
  g.inputs = {0};
  for (int i = 0; i < n; ++i) g.stages.push_back(mk({same(i, rank)}, {i + 1}, 1));
  if (stencil) {
    // One stage is not in place.
    int s = sx_pick("stencil", n);
    g.stages[s].in[0].dims = window(rank, -1, 1), g.stages[s].in_place = 0;
  }
  int extra = sx_pick("also", n);  // The last stage also reads a buffer that is not its predecessor.
  if (extra < n - 1) {
    g.stages[n - 1].in.push_back(same(extra, rank));
    g.stages[n - 1].in_place = g.stages[n - 1].in_place | (sx_pick("in_place", 2) << 1);
  }
  int o = sx_pick("output", n);
  if (o > 0) g.outputs.push_back(o);
  g.outputs.push_back(n);
  return g;
}
static void test(const graph& g, int max_step, int places, long emin, long emax, bool loops = true, long mins = 20) {
  built b;
  b.min_lo = -mins, b.min_hi = mins;
  b.make(g);
  tag(g.outputs.size() > 1 ? 1 : max_step, g.outputs.size() > 1 ? 2 : places, b, loops && g.outputs.size() == 1);
  run(b, emin, emax);
}
SX_HARNESS(chain_1d, "ran") { test(chain(1, 3, false), T ? 3 : 2, T ? 6 : 4, T ? 1 : 2, T ? 4 : 3); }
SX_HARNESS(chain_long, "ran") { test(chain(1, 4, false), 1, T ? 3 : 1, T ? 1 : 2, 2, T); }
SX_HARNESS(chain_stencil, "ran") { test(chain(1, 3, true), T ? 3 : 2, T ? 6 : 3, T ? 1 : 3, T ? 4 : 3); }
SX_HARNESS(chain_2d, "ran") { test(chain(2, T ? 3 : 2, true), 1, T ? 4 : 1, T ? 1 : 2, 2); }

// A stage in place of either, both or none of two inputs, which may also be read later.
static graph binary(bool more) {
  graph g;
  g.rank = {1, 1, 1, 1, 1};
  g.inputs = {0};
  g.stages = {mk({same(0)}, {1}), mk({same(sx_pick("b_of", 2))}, {2}, sx_pick("b_in_place", 2)), mk({same(1), same(2)}, {3}, sx_pick("in_place", 4)), mk({same(3)}, {4}, 1)};
  if (int e = sx_pick("also", 3)) {
    access a = same(e);
    if (sx_pick("wider", 2)) a.dims[0].hi = 1;
    g.stages[3].in.push_back(a);
  }
  g.outputs = {4};
  return g;
}
SX_HARNESS(binary_1d, "ran") { test(binary(true), T ? 2 : 1, T ? 6 : 1, T ? 1 : 2, T ? 3 : 2); }

// Stages with two outputs and two inputs, any pairs in place.
SX_HARNESS(two_outputs, "ran") {
  graph g;
  g.rank = {1, 1, 1, 1, 1, 1};
  g.inputs = {0};
  g.stages = {mk({same(0)}, {1, 2}, 0), mk({same(1), same(2)}, {3, 4}, sx_pick("in_place", 16)), mk({same(3), same(4)}, {5}, T ? sx_pick("last", 4) : 3 * sx_pick("last", 2))};
  if (sx_pick("output", 2)) g.outputs = {3, 5};
  else g.outputs = {5};
  test(g, T ? 2 : 1, T ? 4 : 2, T ? 1 : 2, 2);
}

// Two stages that want to be computed in place of the same buffer.
SX_HARNESS(fork_in_place, "ran") {
  graph g;
  g.rank = {1, 1, 1, 1, 1};
  g.inputs = {0};
  g.stages = {mk({same(0)}, {1}), mk({same(1)}, {2}, 1), mk({same(1)}, {3}, 1), mk({same(2), same(3)}, {4}, sx_pick("in_place", 4))};
  if (sx_pick("wide", 2)) g.stages[1].in[0].dims[0].lo = -1, g.stages[1].in_place = 0;
  switch (sx_pick("outputs", 4)) {
  case 0: g.outputs = {4}; break;
  case 1: g.outputs = {2, 4}; break;
  case 2: g.outputs = {1, 4}; break;
  case 3: g.outputs = {2, 3}, g.stages.pop_back(), g.rank.pop_back(); break;
  }
  test(g, T ? 2 : 1, T ? 6 : 2, T ? 1 : 2, T ? 3 : 2, T);
}

// A buffer that is copied, and used by another stage in a larger region.
static graph copied(bool padded) {
  graph g;
  g.inputs = {0};
  g.rank = {1, 1, 1};
  g.stages = {mk({same(0)}, {1})};
  static const int kinds[] = {0, 1, 3, 4, 5, 6, 7};
  int k = padded ? 2 : kinds[sx_pick("copy", 7)];
  stage c;
  c.kind = COPY;
  c.in = {same(1)};
  c.out = {2};
  int rank = 1;
  switch (k) {
  case 0: break;
  case 1: c.in[0].dims = {at(0, 1, 1)}; break;
  case 2: c.kind = PAD, c.pad = 99, c.crop = {{0, 1}}; break;
  case 3: c.in[0].dims = {at(0, 0, 0, 1, 2)}; break;
  case 4: c.in[0].dims = {at(0, 0, 0, 2)}; break;
  case 5: c.in[0].dims = {at(0, 0, 0, -1)}; break;
  case 6:  // Concatenated with the input or itself.
    c.kind = CONCAT, c.starts = {0, 1, 3}, c.dim = 0, c.in = {{1, {}}, {(int)sx_pick("other", 2), {}}};
    break;
  case 7:  // Stacked
    c.kind = STACK, c.dim = 1, c.in = {{1, {}}, {(int)sx_pick("other", 2), {}}}, rank = 2, g.rank[2] = 2;
    break;
  }
  g.stages.push_back(c);
  // The other use.
  g.rank.push_back(1);
  int lo = sx_pick_range("lo", -1, 0), hi = sx_pick_range("hi", 0, 1);
  g.stages.push_back(mk({{1, {at(0, lo, hi)}}}, {3}, lo == 0 && hi == 0));
  if (T && sx_pick("order", 2)) std::swap(g.stages[1], g.stages[2]);
  if (sx_pick("joined", 2)) {
    g.rank.push_back(rank);
    g.stages.push_back(mk({same(2, rank), same(3)}, {4}, rank == 1 ? 3 : 1));
    g.outputs = {4};
  } else g.outputs = {2, 3};
  return g;
}
SX_HARNESS(copied_1d, "ran") { test(copied(false), 1, T ? 3 : 1, T ? 1 : 2, T ? 3 : 2, T, T ? 20 : 4); }
SX_HARNESS(padded_1d, "ran") { test(copied(true), 1, T ? 3 : 1, T ? 1 : 2, T ? 3 : 2, T, T ? 20 : 4); }
