// Traversals of groups of buffers. Addresses are integers that are never dereferenced.
#include "buffers.h"
using namespace slinky;

static char* base_of(int i) { return reinterpret_cast<char*>(0x10000000l * (i + 1)); }

static const int max_bufs = 5;
struct visits {
  static const int max = 160;
  long a[max][max_bufs];
  int n = 0;
};
// Expected visits: every coordinate of bufs[0].
static void expect(visits& v, raw_buffer** bufs, int count, int rank) {
  long m[3] = {0, 0, 0}, e[3] = {1, 1, 1};
  for (int d = 0; d < rank; ++d) m[d] = bufs[0]->dim(d).min(), e[d] = sx_concretize(bufs[0]->dim(d).extent());
  for (long z = 0; z < e[2]; ++z)
    for (long y = 0; y < e[1]; ++y)
      for (long x = 0; x < e[0]; ++x) {
        long c[3] = {m[0] + x, m[1] + y, m[2] + z};
        for (int i = 0; i < count; ++i) {
          long addr = (long)bufs[i]->base;
          bool in = addr != 0;
          for (int d = 0; d < rank && d < (int)bufs[i]->rank; ++d) {
            addr += ref_offset(bufs[i]->dim(d), c[d]);
            in &= ref_contains(bufs[i]->dim(d), c[d]);
          }
          v.a[v.n][i] = in ? addr : 0;
        }
        ++v.n;
      }
}
// The two sets of visits are the same, in any order.
static void same(const visits& want, const visits& got, int count) {
  sx_assert_msg(want.n == got.n, "the number of visits is not the number of elements");
  if (want.n != got.n) return;
  bool all = true;
  for (int i = 0; i < want.n; ++i) {
    int a = 0, b = 0;
    for (int j = 0; j < want.n; ++j) {
      int p = 1, q = 1;
      for (int k = 0; k < count; ++k) {
        p &= want.a[i][k] == want.a[j][k];
        q &= want.a[i][k] == got.a[j][k];
      }
      a += p, b += q;
    }
    all &= a == b;
  }
  sx_assert_msg(all, "an element was not visited exactly once with the right addresses");
}
static long inner_stride(int i) {
  static const long s[] = {1, 0, 3, -1};
  return s[i];
}
// Shapes of the main buffer: contiguous with the previous dimension, or any other stride.
static void main_shape(shape& s, int rank, bool folds, int emax, int strides) {
  long next = 1;
  for (int d = 0; d < rank; ++d) {
    long mn = sx_int("min", -10, 10), ex = sx_pick_range("extent", d == 0 || rank == 1 ? 0 : 1, emax);
    long st = d == 0 ? inner_stride(sx_pick("stride", strides)) : sx_pick("contiguous", strides < 3 ? strides : 3) == 0 ? next : sx_pick("other", 2) ? 0 : 64 * d;
    long f = folds && sx_pick("fold", 2) ? sx_pick_range("factor", rank > 1 && !sx_thorough() ? 2 : 1, sx_thorough() || rank == 1 ? 3 : 2) : dim::unfolded;
    s.dims.push_back(dim(mn, mn + ex - 1, st, f));
    next = st * ex;
  }
}
// Shapes of another buffer around the bounds of the main one.
static void other_shape(shape& s, const shape& m, int rank, bool folds, bool same_bounds, int strides) {
  long next = 1;
  for (int d = 0; d < rank; ++d) {
    long mn, ex;
    bool has = d < (int)m.dims.size();
    if (same_bounds && has) {
      mn = m.dims[d].min(), ex = m.dims[d].extent();
    } else {
      mn = (has ? m.dims[d].min() : 0) + sx_int("offset", -2, 3);
      ex = sx_int("extent", 0, folds && rank > 1 && !sx_thorough() ? 2 : 4);
    }
    long st = d == 0 ? inner_stride(sx_pick("stride", strides)) : sx_pick("contiguous", strides < 3 ? strides : 3) == 0 ? next : sx_pick("other", 2) ? 0 : 64 * d;
    long f = folds && sx_pick("fold", 2) ? sx_pick_range("factor", rank > 1 && !sx_thorough() ? 2 : 1, sx_thorough() || rank == 1 ? 3 : 2) : dim::unfolded;
    s.dims.push_back(dim(mn, mn + ex - 1, st, f));
    next = st * ex;
  }
}
static void run(bool slices, raw_buffer** b, int count) {
  int rank = 0;
  for (int i = 0; i < count; ++i) rank = (int)b[i]->rank > rank ? b[i]->rank : rank;
  visits want, got;
  expect(want, b, count, rank);
  bool overflow = false;
  auto add = [&](long n, std::initializer_list<void*> p) {
    for (long k = 0; k < n; ++k) {
      if (got.n >= visits::max) {
        overflow = true;
        return;
      }
      int i = 0;
      for (void* x : p) got.a[got.n][i++] = x ? (long)x + k : 0;
      ++got.n;
    }
  };
  if (slices) {
    auto n = [](long extent) { return sx_concretize(extent); };
    switch (count) {
    case 1: for_each_contiguous_slice(*b[0], [&](index_t e, void* p) { add(n(e), {p}); }); break;
    case 2: for_each_contiguous_slice(*b[0], [&](index_t e, void* p, void* q) { add(n(e), {p, q}); }, *b[1]); break;
    case 3: for_each_contiguous_slice(*b[0], [&](index_t e, void* p, void* q, void* r) { add(n(e), {p, q, r}); }, *b[1], *b[2]); break;
    case 5: for_each_contiguous_slice(*b[0], [&](index_t e, void* p, void* q, void* r, void* s, void* t) { add(n(e), {p, q, r, s, t}); }, *b[1], *b[2], *b[3], *b[4]); break;
    }
  } else {
    switch (count) {
    case 1: for_each_element([&](void* p) { add(1, {p}); }, *b[0]); break;
    case 2: for_each_element([&](void* p, void* q) { add(1, {p, q}); }, *b[0], *b[1]); break;
    case 3: for_each_element([&](void* p, void* q, void* r) { add(1, {p, q, r}); }, *b[0], *b[1], *b[2]); break;
    case 5: for_each_element([&](void* p, void* q, void* r, void* s, void* t) { add(1, {p, q, r, s, t}); }, *b[0], *b[1], *b[2], *b[3], *b[4]); break;
    }
  }
  sx_assert_msg(!overflow, "too many visits");
  if (overflow) return;
  sx_cover("visited");
  same(want, got, count);
}
static void alone(bool slices) {
  shape s;
  int rank = sx_pick("rank", 4);
  main_shape(s, rank, rank < 3 || sx_thorough(), rank == 3 ? 2 : 4, rank == 3 ? 2 : 4);
  raw_buffer b = s.raw(base_of(0), 1);
  raw_buffer* bufs[] = {&b};
  run(slices, bufs, 1);
}
static void pair(bool slices, bool folds, bool same_bounds, int min_rank, int max_rank, int emax, int strides) {
  shape s, t;
  main_shape(s, sx_pick_range("rank", min_rank, max_rank), folds, emax, strides);
  other_shape(t, s, sx_pick_range("rank2", min_rank ? min_rank - 1 : 0, max_rank), folds, same_bounds, strides);
  raw_buffer b = s.raw(base_of(0), 1), c = t.raw(sx_pick("null", 2) ? nullptr : base_of(1), 1);
  if (!sx_thorough() && !c.base && folds) sx_stop();
  raw_buffer* bufs[] = {&b, &c};
  run(slices, bufs, 2);
}
SX_HARNESS(element_alone, "visited") { alone(false); }
SX_HARNESS(slice_alone, "visited") { alone(true); }
SX_HARNESS(element_pair, "visited") { pair(false, false, false, 0, 2, 3, 2); }
SX_HARNESS(slice_pair, "visited") { pair(true, false, false, 0, 2, 3, 2); }
SX_HARNESS(element_pair_1d, "visited") { pair(false, true, false, 1, 1, sx_thorough() ? 5 : 4, 4); }
SX_HARNESS(slice_pair_1d, "visited") { pair(true, true, false, 1, 1, sx_thorough() ? 5 : 4, 4); }
SX_HARNESS(element_pair_folded, "visited") { pair(false, true, false, 2, 2, 2, sx_thorough() ? 3 : 1); }
SX_HARNESS(slice_pair_folded, "visited") { pair(true, true, false, 2, 2, 2, sx_thorough() ? 3 : 1); }
SX_HARNESS(element_pair_3d, "visited") { pair(false, false, true, 3, 3, 2, sx_thorough() ? 3 : 2); }
SX_HARNESS(slice_pair_3d, "visited") { pair(true, false, true, 3, 3, 2, sx_thorough() ? 3 : 2); }
static void many(bool slices, int count) {
  shape s[max_bufs];
  main_shape(s[0], sx_pick("rank", 2) + 1, false, 2, 1);
  raw_buffer b[max_bufs], *p[max_bufs];
  b[0] = s[0].raw(base_of(0), 1), p[0] = &b[0];
  // One of the others is not like the first.
  int odd = sx_pick("odd", count - 1) + 1;
  for (int i = 1; i < count; ++i) {
    if (i == odd) other_shape(s[i], s[0], s[0].dims.size(), sx_thorough(), false, sx_thorough() ? 2 : 1);
    else s[i] = s[0];
    b[i] = s[i].raw(base_of(i), 1), p[i] = &b[i];
  }
  run(slices, p, count);
}
SX_HARNESS(element_three, "visited") { many(false, 3); }
SX_HARNESS(slice_three, "visited") { many(true, 3); }
SX_HARNESS(element_five, "visited") { many(false, 5); }
SX_HARNESS(slice_five, "visited") { many(true, 5); }
