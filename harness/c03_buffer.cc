// Addresses through the metadata operations of buffers. The base is an integer that is never dereferenced.
#include <array>
#include "buffers.h"
using namespace slinky;

static constexpr long B = 0x10000000;
static void* const base = reinterpret_cast<void*>(B);

static void make_shape(shape& s, int rank, bool folds, long emin = 0) {
  for (int d = 0; d < rank; ++d) s.random_dim(sx_thorough() ? 1000 : 100, emin, sx_thorough() ? 20 : 6, {4, 0, -12, 40}, folds ? (sx_thorough() ? 5 : 3) : 0);
}
static long ref_address(const shape& s, std::initializer_list<long> x) {
  long r = B;
  for (size_t d = 0; d < s.dims.size() && d < x.size(); ++d) r += ref_offset(s.dims[d], x.begin()[d]);
  return r;
}
static bool ref_in(const shape& s, std::initializer_list<long> x) {
  bool r = true;
  for (size_t d = 0; d < s.dims.size() && d < x.size(); ++d) r &= ref_contains(s.dims[d], x.begin()[d]);
  return r;
}
static long coord() { return sx_int("x", -1200, 1200); }

SX_HARNESS(address, "inside outside") {
  shape s;
  make_shape(s, sx_pick("rank", 4), true);
  if (!sx_thorough() && s.dims.size() == 3) sx_assume(s.dims[2].fold_factor() == dim::unfolded);
  raw_buffer b = s.raw(base, 4);
  long x = coord(), y = coord(), z = coord();
  bool in1 = ref_in(s, {x}), in2 = ref_in(s, {x, y}), in3 = ref_in(s, {x, y, z});
  index_t xs[] = {x, y, z, 7};
  sx_assert(b.contains(x) == in1);
  sx_assert(b.contains(x, y) == in2);
  sx_assert(b.contains(x, y, z) == in3);
  sx_assert(b.contains(x, y, z, 7) == in3);
  for (int n = 0; n <= 4; ++n) sx_assert(b.contains(span<const index_t>(xs, n)) == (n == 0 ? true : n == 1 ? in1 : n == 2 ? in2 : in3));
  sx_assert(b.contains());
  if (in3) {
    sx_cover("inside");
    sx_assert((long)b.address_at(x) == ref_address(s, {x}));
    sx_assert((long)b.address_at(x, y) == ref_address(s, {x, y}));
    sx_assert((long)b.address_at(x, y, z) == ref_address(s, {x, y, z}));
    sx_assert((long)b.address_at(x, y, z, 7) == ref_address(s, {x, y, z}));
    for (int n = 0; n <= 4; ++n)
      sx_assert((long)b.address_at(span<const index_t>(xs, n)) == (n == 0 ? B : n == 1 ? ref_address(s, {x}) : n == 2 ? ref_address(s, {x, y}) : ref_address(s, {x, y, z})));
    long d0 = s.dims.size() > 0 ? ref_offset(s.dims[0], x) : 0, d1 = s.dims.size() > 1 ? ref_offset(s.dims[1], y) : 0, d2 = s.dims.size() > 2 ? ref_offset(s.dims[2], z) : 0;
    sx_assert((long)b.address_at(slinky::slice, y, z) == B + d1 + d2);
    sx_assert((long)b.address_at(x, slinky::slice, z) == B + d0 + d2);
    sx_assert((long)b.address_at(x, y, slinky::slice) == B + d0 + d1);
    sx_assert((long)b.address_at() == B);
    sx_assert((long)&b.cast<int>()(x, y, z) == B + d0 + d1 + d2);
    sx_assert((long)&b.cast<int>().at(span<const index_t>(xs, 3)) == B + d0 + d1 + d2);
    sx_assert((long)&b.cast<int>()(slinky::slice, y) == B + d1);
    b.base = nullptr;
    sx_assert(b.address_at(x, y, z) == nullptr);
  } else {
    sx_cover("outside");
  }
}

SX_HARNESS(crop, "cropped empty kept") {
  shape s;
  int rank = sx_pick("rank", 3);
  make_shape(s, rank, true);
  shape t = s;
  int d = sx_pick("dim", rank + 1);
  long lo = sx_int("lo", -150, 150), hi = sx_int("hi", -150, 150);
  raw_buffer b = t.raw(base, 4);
  b.crop(d, lo, hi);
  sx_assert(b.rank == s.dims.size() && b.elem_size == 4);
  if (d >= rank) {
    sx_assert(b.base == base);
  } else {
    long m0 = s.dims[d].min(), m1 = s.dims[d].max();
    sx_assert(b.dim(d).min() == (lo > m0 ? lo : m0));
    sx_assert(b.dim(d).max() == (hi < m1 ? hi : m1));
    sx_assert(b.dim(d).stride() == s.dims[d].stride() && b.dim(d).fold_factor() == s.dims[d].fold_factor());
    if (b.dim(d).empty()) {
      sx_cover("empty");
      sx_assert_msg(b.base == nullptr, "an empty crop has an address");
      return;
    }
  }
  for (int i = 0; i < rank; ++i)
    if (i != d) sx_assert(b.dim(i) == s.dims[i]);
  long x = coord(), y = coord();
  // (A dimension with stride 0 contains everything.)
  if (ref_in(t, {x, y}) && ref_in(s, {x, y})) {
    sx_cover("kept");
    sx_assert_msg((long)b.address_at(x, y) == ref_address(s, {x, y}), "a crop moved an element");
  }
  sx_cover("cropped");
  // A null buffer stays null.
  shape u = s;
  raw_buffer n = u.raw(nullptr, 4);
  n.crop(d, lo, hi);
  sx_assert(n.base == nullptr);
  for (int i = 0; i < rank; ++i) sx_assert(n.dim(i) == b.dim(i));
}

SX_HARNESS(slice_at, "sliced outside") {
  shape s;
  int rank = sx_pick("rank", 3) + 1;
  make_shape(s, rank, rank < 3 || sx_thorough());
  shape t = s;
  int d = sx_pick("dim", rank + 1), how = sx_pick("how", 3);
  long at = coord(), c[3] = {coord(), coord(), coord()};
  raw_buffer b = t.raw(base, 4);
  if (d < rank) c[d] = at;
  bool at_in = d >= rank || ref_contains(s.dims[d], at);
  if (how == 1) sx_assume(at_in);
  if (how == 0) b.slice(d, at);
  else if (how == 1) b.slice(d, in_bounds{at});
  else b.slice(d);
  if (how == 2 && d < rank) {
    // The base is not moved.
    sx_assert(b.base == base);
    sx_assume(at == s.dims[d].min() && s.dims[d].fold_factor() == dim::unfolded);
    at_in = true;
  }
  sx_assert((int)b.rank == (d < rank ? rank - 1 : rank));
  if (!at_in) {
    sx_cover("outside");
    sx_assert_msg(b.base == nullptr, "a slice out of bounds has an address");
  }
  for (int i = 0, j = 0; i < rank; ++i)
    if (i != d) sx_assert_msg(b.dim(j++) == s.dims[i], "slice changed another dimension");
  bool in = ref_in(s, {c[0], c[1], c[2]});
  if (in) {
    sx_cover("sliced");
    index_t rest[3];
    int n = 0;
    for (int i = 0; i < rank; ++i)
      if (i != d) rest[n++] = c[i];
    sx_assert_msg((long)b.address_at(span<const index_t>(rest, n)) == ref_address(s, {c[0], c[1], c[2]}), "a slice moved an element");
  }
  shape u = s;
  raw_buffer z = u.raw(nullptr, 4);
  z.slice(d, at);
  sx_assert(z.base == nullptr && z.rank == b.rank);
}

// Slices of any set of dimensions at once.
SX_HARNESS(slice_many, "sliced") {
  int rank = sx_pick("rank", sx_thorough() ? 7 : 6);
  std::vector<dim> dims(rank), old;
  for (int d = 0; d < rank; ++d) dims[d] = dim(sx_int("min", -1000, 1000), sx_int("max", -1000, 1000), sx_int("stride", -1000, 1000), sx_int("fold", -1, 10));
  old = dims;
  std::vector<std::size_t> ds;
  for (int d = 0; d < rank; ++d)
    if (sx_pick("in", 2)) ds.push_back(d);
  raw_buffer b{base, 4, (std::size_t)rank, dims.data()};
  b.slice(span<const std::size_t>(ds.data(), ds.size()));
  sx_cover("sliced");
  sx_assert(b.rank == rank - ds.size() && b.base == base);
  int j = 0;
  for (int d = 0; d < rank; ++d) {
    bool in = false;
    for (auto i : ds) in |= (int)i == d;
    if (!in) sx_assert_msg(b.dim(j++) == old[d], "slice kept the wrong dimension");
  }
}

SX_HARNESS(translate, "translated") {
  shape s;
  int rank = sx_pick("rank", 3) + 1;
  make_shape(s, rank, false);
  shape t = s;
  index_t o[3] = {sx_int("ox", -100, 100), sx_int("oy", -100, 100), sx_int("oz", -100, 100)};
  int n = sx_pick("n", rank) + 1;
  raw_buffer b = t.raw(base, 4);
  if (sx_pick("span", 2)) b.translate(span<const index_t>(o, n));
  else if (n == 1) b.translate(o[0]);
  else if (n == 2) b.translate(o[0], o[1]);
  else b.translate(o[0], o[1], o[2]);
  for (int i = n; i < 3; ++i) o[i] = 0;
  for (int i = 0; i < rank; ++i) {
    sx_assert(b.dim(i).min() == s.dims[i].min() + o[i] && b.dim(i).max() == s.dims[i].max() + o[i]);
    sx_assert(b.dim(i).stride() == s.dims[i].stride() && b.dim(i).fold_factor() == s.dims[i].fold_factor());
  }
  long x = coord(), y = coord(), z = coord();
  if (ref_in(s, {x, y, z})) {
    sx_cover("translated");
    sx_assert(b.contains(x + o[0], y + o[1], z + o[2]));
    sx_assert_msg((long)b.address_at(x + o[0], y + o[1], z + o[2]) == ref_address(s, {x, y, z}), "translate moved an element");
  }
}

// Dimensions.
SX_HARNESS(dims, "contained folded same") {
  long X = 1l << 60;
  long mn = sx_int("min", -X, X), mx = sx_int("max", -X, X), st = sx_int("stride", -8, 8);
  dim d(mn, mx, st);
  sx_assert(d.begin() == mn && d.end() == mx + 1);
  sx_assert(d.extent() == (mx < mn ? 0 : mx - mn + 1));
  sx_assert(d.empty() == (mx < mn));
  sx_assert(d.is_point() == (mn == mx));
  long a = sx_int("a", -X, X), b = sx_int("b", -X, X);
  sx_assert(d.is_point(a) == (mn == a && mx == a));
  sx_assert(d.is_broadcast() == (mn == 0 && mx == 0 && st == 0));
  sx_assert(d.contains(a) == (st == 0 || (mn <= a && a <= mx)));
  sx_assert(d.contains(a, b) == (st == 0 || (mn <= a && b <= mx)));
  sx_assert(d.contains(dim(a, b, 3)) == (st == 0 || (mn <= a && b <= mx)));
  if (d.contains(a, b) && a <= b) {
    sx_cover("contained");
    long c = sx_int("c", -X, X);
    if (a <= c && c <= b) sx_assert(d.contains(c));
  }
  // The bounds setters.
  dim e = d;
  int k = sx_pick("set", 6);
  if (k == 0) e.set_extent(a), mx = mn + a - 1;
  if (k == 1) e.set_point(a), mn = mx = a;
  if (k == 2) e.set_bounds(a, b), mn = a, mx = b;
  if (k == 3) e.set_range(a, b), mn = a, mx = b - 1;
  if (k == 4) e.set_min_extent(a, b), mn = a, mx = a + b - 1;
  if (k == 5) e.translate(a), mn += a, mx += a;
  sx_assert_msg(e.min() == mn && e.max() == mx && e.stride() == st && e.fold_factor() == dim::unfolded, "setting bounds");
  sx_assert((d == e) == (d.min() == mn && d.max() == mx));
  // Folds.
  long f = sx_pick_range("fold", 1, sx_thorough() ? 12 : 6);
  long m = sx_int("fmin", -1000, 1000), n = sx_int("fmax", -1000, 1000), i = sx_int("i", -1000, 1000), j = sx_int("j", -1000, 1000);
  dim g(m, n, st ? st : 1, f);
  if (m <= n) {
    // Folded: not all of [m, n] are between two multiples of the fold.
    bool folded = refmod(m, f) + (n - m) >= f;
    if (folded) sx_cover("folded");
    sx_assert(g.is_folded() == folded);
    sx_assert(dim(0, 5, 4, f).is_folded(g) == folded && dim(0, 5, 4, f).is_folded(m, n) == folded);
    sx_assert(!dim(m, n, 0, f).is_folded() && !dim(m, n, 4).is_folded());
    if (m <= i && i <= n && m <= j && j <= n) {
      long oi = g.flat_offset_bytes(i), oj = g.flat_offset_bytes(j);
      if (oi == oj) sx_cover("same");
      sx_assert((oi == oj) == (refmod(i, f) == refmod(j, f)));
      sx_assert(oi == refmod(i, f) * (st ? st : 1));
    }
  }
}

// buffer<T, N>: storage of dims, copies, moves, growing the rank, undoing slices.
SX_HARNESS(typed, "unsliced copied") {
  shape s;
  int rank = sx_pick("rank", 4);
  make_shape(s, rank, false);
  buffer<int, 4> b(s.raw(base, 4));
  sx_assert((int)b.rank == rank && b.base() == base);
  for (int i = 0; i < rank; ++i) sx_assert(b.dim(i) == s.dims[i]);
  sx_assert(b.dim(rank) == dim::broadcast() && b.dim(rank + 3) == dim::broadcast());
  switch (sx_pick("what", 4)) {
  case 0: {
    if (rank == 0) return;
    int d = sx_pick("dim", rank);
    dim old = b.dim(d);
    b.slice(d);
    b.unslice(d, old);
    sx_cover("unsliced");
    sx_assert((int)b.rank == rank);
    for (int i = 0; i < rank; ++i) sx_assert_msg(b.dim(i) == s.dims[i], "unslice did not undo slice");
    break;
  }
  case 1: {
    int d = sx_pick("dim", 4);
    dim n(sx_int("nmin", -5, 5), sx_int("nmax", -5, 5), 12);
    b.mutable_dim(d) = n;
    sx_assert((int)b.rank == (d < rank ? rank : d + 1));
    for (int i = 0; i < (int)b.rank; ++i) sx_assert(b.dim(i) == (i == d ? n : i < rank ? s.dims[i] : dim::broadcast()));
    break;
  }
  case 2: {
    int d = sx_pick("dim", 4);
    if (d > rank || rank == 4) return;
    dim n(sx_int("nmin", -5, 5), sx_int("nmax", -5, 5), 12);
    b.unslice(d, n);
    sx_assert((int)b.rank == rank + 1);
    for (int i = 0, j = 0; i <= rank; ++i) sx_assert_msg(b.dim(i) == (i == d ? n : s.dims[j++]), "unslice inserted a dimension in the wrong place");
    break;
  }
  case 3: {
    long before = sx_live_allocs();
    {
      buffer<int, 2> a({3, 2});
      a.allocate();
      sx_assert(sx_live_allocs() == before + 1);
      int* p = a.base();
      buffer<int, 2> c(a);  // Shallow.
      sx_assert(c.base() == p && sx_live_allocs() == before + 1);
      buffer<int, 2> m(std::move(a));
      sx_assert(m.base() == p && sx_live_allocs() == before + 1);
      buffer<int, 2> e;
      if (sx_pick("target", 2)) e = buffer<int, 2>({2, 2}), e.allocate();
      e = std::move(m);
      sx_cover("copied");
      sx_assert(e.base() == p && e.rank == 2 && e.dim(1).extent() == 2 && e.dim(1).stride() == 12);
      sx_assert(sx_live_allocs() <= before + 2);
      if (sx_pick("self", 2)) e = (const buffer<int, 2>&)e;
      e(1, 1) = 42;
      c = e;
      sx_assert(c(1, 1) == 42);
      c.mutable_dim(0).set_point(7);
      sx_assert(e.dim(0).min() == 0 && e.dim(0).max() == 2);
    }
    sx_assert(sx_live_allocs() == before);
    break;
  }
  }
}
