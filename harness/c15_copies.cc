// Stages that copy, translate, transpose, broadcast, pad, concatenate and stack, wherever they are in a pipeline.
#include "schedules.h"
using namespace slinky;
#define T sx_thorough()

// A graph with one copy `c` of rank src_rank to dst_rank: of the input or a computed buffer, to the output or an intermediate.
static int before, after;  // Whether there is a stage before and after.
static graph with_copy(stage c, int src_rank, int dst_rank, int where) {
  before = where & 1, after = where >> 1;
  graph g;
  int n = 0;
  g.rank.push_back(src_rank);
  if (before) g.rank.push_back(src_rank), g.stages.push_back({{{n, window(src_rank, 0, 0)}}, {n + 1}}), ++n;
  c.in[0].buf = n;
  g.rank.push_back(dst_rank);
  c.out = {++n};
  g.stages.push_back(c);
  if (after) g.rank.push_back(dst_rank), g.stages.push_back({{{n, window(dst_rank, -1, 1)}}, {n + 1}}), ++n;
  g.inputs = {0}, g.outputs = {n};
  return g;
}
// Schedules, aliasing or not.
static void schedule(built& b, int max_step, int places, bool loops = true) {
  int last = b.g.stages.size() - 1;
  if (loops) pick_loops(b, last, std::min(b.g.rank[b.g.stages[last].out[0]], 2), max_step);
  std::vector<bool> root(b.g.rank.size());
  for (int s = last - 1; s >= 0; --s) {
    bool r = false;
    for (int o : b.g.stages[s].out) r = r || root[o];
    if (pick_place(b, s, last, places, r) || r)
      for (const access& a : b.g.stages[s].in) root[a.buf] = true;
  }
  // Buffers of the caller can only be aliased if they are not folded.
  int mode = sx_pick("mode", T ? 4 : 2);
  if (mode & 1) {
    for (int i : b.g.inputs)
      for (int d = 0; d < b.g.rank[i]; ++d) b.bufs[i]->dim(d).fold_factor = dim::unfolded;
    for (int i : b.g.outputs)
      for (int d = 0; d < b.g.rank[i]; ++d) b.bufs[i]->dim(d).fold_factor = dim::unfolded;
  }
  build_options o;
  o.no_alias_buffers = mode >> 1;
  b.build(o);
}
static access::range arg(int od, int num = 1) {
  access::range r = at(od, 0, 0, num);
  r.arg = true;
  return r;
}
static void copy(const std::vector<std::vector<access::range>>& kinds, const std::vector<int>& src_ranks, int dst_rank, int max_step, int places, long emin, long emax) {
  int k = sx_pick("copy", kinds.size());
  stage c;
  c.kind = COPY;
  c.in = {{0, kinds[k]}};
  built b;
  b.make(with_copy(c, src_ranks[k], dst_rank, sx_pick("where", 4)));
  schedule(b, max_step, places);
  run(b, emin, emax);
}
// Translated by constants or an argument, reversed, scaled, of a constant coordinate.
SX_HARNESS(copy_1d, "ran") {
  copy({{at(0, 2, 2)}, {arg(0)}, {at(0, 1, 1, -1)}, {at(0, 0, 0, 2)}, {at(0, 0, 0, 1, 2)}, {all(3, 3)}}, {1, 1, 1, 1, 1, 1}, 1, 2, T ? 6 : 2, T ? 1 : 2, T ? 4 : 3);
}
// Transposed, translated, broadcast, diagonal.
SX_HARNESS(copy_2d, "ran") {
  copy({{at(1), at(0)}, {at(1, 1, 1), arg(0)}, {at(0, -1, -1), at(1, 2, 2)}, {at(1)}, {at(0), all(2, 2)}, {at(0), at(0)}, {at(1, 0, 0, -1), at(0)}},
      {2, 2, 2, 1, 2, 2, 2}, 2, T ? 2 : 1, T ? 6 : 2, T ? 1 : 2, T ? 3 : 2);
}
// Flattened: a coordinate that depends on two dimensions.
SX_HARNESS(copy_flat, "ran") {
  access::range flat = at(0, 1, 1);
  flat.od2 = 1, flat.num2 = 3;
  copy({{flat}}, {1}, 2, T ? 2 : 1, T ? 6 : 2, T ? 1 : 2, T ? 3 : 2);
}
// Of a dimension to none and one to two.
SX_HARNESS(copy_slice, "ran") { copy({{at(0), all(-1, -1)}, {all(2, 2), arg(0)}, {all(1, 1), at(0, 0, 0, -1)}}, {2, 2, 2}, 1, T ? 2 : 1, T ? 6 : 2, T ? 1 : 2, T ? 3 : 2); }

// Sequences of copies.
SX_HARNESS(sequence_1d, "ran") {
  graph g;
  int n = T ? 3 : 2;
  g.rank = {1};
  for (int i = 0; i < n; ++i) {
    stage c;
    c.kind = COPY;
    c.in = {{i, {at(0, 1, 1)}}};
    if (sx_pick("pad", 2)) {
      c.kind = PAD, c.pad = 1000 + i;
      long lo = sx_pick_range("crop", -1, 1) * 2;
      c.crop = {{lo, lo + 2 + i}};
    }
    c.out = {i + 1};
    g.rank.push_back(1);
    g.stages.push_back(c);
  }
  g.inputs = {0}, g.outputs = {n};
  built b;
  b.make(g);
  b.min_lo = -6, b.min_hi = 6;
  schedule(b, 1, 1, false);
  run(b, T ? 1 : 3, T ? 5 : 3);
}

static void pad(int rank, bool buffer, bool bounds, int where, int max_step, int places, long emin, long emax) {
  stage c;
  c.kind = PAD, c.pad = 77777;
  c.crop_bounds = bounds;
  std::vector<access::range> dims = window(rank, 0, 0);
  int o = sx_pick("offset", 2);
  dims[0].lo = dims[0].hi = o * 2;
  if (rank == 2 && (T ? sx_pick("transposed", 2) : o)) std::swap(dims[0], dims[1]);
  c.in = {{0, dims}};
  for (int d = 0; d < rank; ++d) {
    long lo = d == 0 ? 0 : 1;
    c.crop.push_back({lo, lo + (bounds || (!T && d == 1) ? 0 : sx_pick_range("crop", T ? 0 : rank - 1, T || !buffer ? 2 : rank))});
  }
  graph g = with_copy(c, rank, rank, where);
  if (buffer) {
    // The padding is an input.
    int n = g.rank.size();
    g.rank.push_back(rank);
    g.inputs.push_back(n);
    if (sx_pick("computed_pad", T || rank == 1 ? 2 : 1)) {
      g.rank.push_back(rank);
      g.stages.insert(g.stages.begin(), stage{{{n, window(rank, 0, 0)}}, {n + 1}});
      ++n;
    }
    for (stage& s : g.stages)
      if (s.kind == PAD) s.in.push_back({n, window(rank, 0, 0)});
  }
  built b;
  b.make(g);
  b.min_lo = T || rank == 1 ? -6 : -2, b.min_hi = T || rank == 1 ? 6 : 3;
  schedule(b, max_step, places);
  run(b, emin, emax);
}
SX_HARNESS(pad_1d, "ran") { pad(1, false, false, sx_pick("where", 4), T ? 2 : 1, T ? 6 : 2, T ? 1 : 2, T ? 4 : 3); }
SX_HARNESS(pad_1d_buffer, "ran") { pad(1, true, false, sx_pick("where", 4), T ? 2 : 1, T ? 6 : 1, T ? 1 : 2, T ? 4 : 2); }
SX_HARNESS(pad_1d_bounds, "ran") { pad(1, sx_pick("buffer", 2), true, 2 * sx_pick("where", 2), T ? 2 : 1, T ? 6 : 2, T ? 1 : 2, T ? 4 : 2); }
SX_HARNESS(pad_2d, "ran") { pad(2, false, false, T ? sx_pick("where", 4) : 3 * sx_pick("where", 2), 1, T ? 4 : 1, T ? 1 : 2, T ? 3 : 2); }
SX_HARNESS(pad_2d_buffer, "ran") { pad(2, true, false, T ? sx_pick("where", 4) : 3 * sx_pick("where", 2), 1, T ? 2 : 1, T ? 1 : 2, 2); }

// Concatenations and stacks.
static void join(stage c, int rank, int src_rank, int n, int max_step, int places, long emin, long emax) {
  graph g;
  int computed = sx_pick("computed", 1 << n), after = sx_pick("after", T || n == 2 ? 2 : 1);
  for (int i = 0; i < n; ++i) {
    int b = g.rank.size();
    g.rank.push_back(src_rank);
    g.inputs.push_back(b);
    if (computed >> i & 1) {
      g.rank.push_back(src_rank);
      g.stages.push_back({{{b, window(src_rank, 0, 0)}}, {b + 1}});
      ++b;
    }
    c.in.push_back({b, {}});
  }
  int b = g.rank.size();
  g.rank.push_back(rank);
  c.out = {b};
  g.stages.push_back(c);
  if (after) {
    g.rank.push_back(rank);
    std::vector<access::range> w = window(rank, 0, 0);
    w[rank - 1].hi = 1;
    g.stages.push_back({{{b, w}}, {b + 1}}), ++b;
  }
  g.outputs = {b};
  built p;
  p.make(g);
  p.min_lo = T || rank == 1 ? -3 : -1, p.min_hi = T || rank == 1 ? 6 : 2;
  schedule(p, max_step, places);
  run(p, emin, emax);
}
static stage concat(int dim, std::vector<long> starts) {
  stage c;
  c.kind = CONCAT, c.dim = dim, c.starts = starts;
  return c;
}
static stage stack(int dim) {
  stage c;
  c.kind = STACK, c.dim = dim;
  return c;
}
SX_HARNESS(concat_1d, "ran") { join(concat(0, {0, 2, T ? 2 + sx_pick_range("second", 1, 2) : 3}), 1, 1, 2, T ? 2 : 1, T ? 6 : 2, T ? 1 : 3, T ? 5 : 3); }
SX_HARNESS(concat_three, "ran") { join(concat(0, {0, 2, 3, 5}), 1, 1, 3, 1, 1, T ? 2 : 3, T ? 6 : 3); }
SX_HARNESS(concat_2d, "ran") { join(concat(sx_pick("dim", 2), {0, 1, 3}), 2, 2, 2, 1, T ? 4 : 1, 2, T ? 3 : 2); }
SX_HARNESS(stack_2d, "ran") { join(stack(sx_pick("dim", 2)), 2, 1, 2, T ? 2 : 1, T ? 4 : 1, T ? 1 : 2, T ? 3 : 2); }
SX_HARNESS(stack_three, "ran") { join(stack(1), 2, 1, 3, 1, T ? 2 : 1, 2, T ? 3 : 2); }
