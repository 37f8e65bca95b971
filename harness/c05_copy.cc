// Copies, padded copies and padding of buffers whose elements are symbolic.
#include "buffers.h"
using namespace slinky;

// A buffer with its own memory, every byte of which is initialised by `init`.
struct storage {
  shape s;
  std::size_t elem;
  char* mem;
  long size, offset;
  raw_buffer b;
  bool valid = true;
  void make(std::size_t e) {
    elem = e;
    long lo = 0, hi = 0;
    for (const dim& d : s.dims) {
      long n = d.fold_factor() > 0 && d.stride() != 0 ? d.fold_factor() : d.extent();
      if (n <= 0) valid = false;
      long o = (n - 1) * d.stride();
      (o < 0 ? lo : hi) += o;
    }
    size = sx_concretize(valid ? hi - lo + (long)elem : 0);
    offset = sx_concretize(valid ? -lo : 0);
    mem = (char*)malloc(size ? size : 1);
    b = s.raw(valid ? mem + offset : nullptr, elem);
  }
  void fill_symbolic(const char* name, long lo, long hi) {
    for (long i = 0; i < size; ++i) mem[i] = (char)sx_int(name, lo, hi);
  }
  void fill(int seed) {
    for (long i = 0; i < size; ++i) mem[i] = (char)(seed + i * 7);
  }
  // The byte of an element, or 1000 out of bounds.
  int at(const long* c, std::size_t byte) const {
    long o = offset;
    bool in = valid;
    for (size_t d = 0; d < s.dims.size(); ++d) {
      const dim& x = s.dims[d];
      if (!x.is_broadcast()) in &= x.min() <= c[d] && c[d] <= x.max();
      o += ref_offset(x, c[d]);
    }
    if (!in) return 1000;
    return (unsigned char)mem[o + byte];
  }
  ~storage() { free(mem); }
};
static long stride_kind(int k, long next, std::size_t elem) {
  switch (k) {
  case 0: return next;
  case 1: return next + elem;
  case 2: return 0;
  default: return -next;
  }
}
// kinds: of strides of the dimensions. transposed: the last dimension is the innermost in memory.
static void dst_shape(shape& s, int rank, std::size_t elem, int emin, int emax, int kinds, bool folds) {
  bool transposed = rank == 2 && sx_pick("transposed", 2);
  long next = elem;
  s.dims.resize(rank);
  for (int i = 0; i < rank; ++i) {
    int d = transposed ? rank - 1 - i : i;
    // Folded: modulo a few factors.
    long mn = !folds ? sx_int("min", -40, 40) : rank == 1 ? sx_pick_range("min", -2, 3) : sx_pick("min", 2) * 4 - 1, ex = sx_pick_range("extent", emin, emax);
    int k = sx_pick("stride", kinds);
    if (k == 2) k = 3;
    long st = stride_kind(k, next, elem);
    s.dims[d] = dim(mn, mn + ex - 1, st, dim::unfolded);
    if (folds && ex > 0 && sx_pick("fold", 2)) s.dims[d].set_fold_factor(ex + sx_pick("extra", 2)), ex = s.dims[d].fold_factor();
    next = (st < 0 ? -st : st) * (ex ? ex : 1);
  }
}
// Bounds around those of dst: lo before, hi after.
static void src_shape(shape& s, const shape& dst, int rank, std::size_t elem, bool padded, int kinds, bool folds) {
  bool transposed = rank == 2 && kinds > 1 && sx_pick("src_transposed", 2);
  long next = elem;
  s.dims.resize(rank);
  for (int i = 0; i < rank; ++i) {
    int d = transposed ? rank - 1 - i : i;
    long dmin = d < (int)dst.dims.size() ? dst.dims[d].min() : 0, dmax = d < (int)dst.dims.size() ? dst.dims[d].max() : 0;
    int k = sx_pick("src_stride", kinds + 1);
    if (k == kinds) {
      s.dims[d] = dim::broadcast();
      continue;
    }
    long lo = sx_pick_range("lo", padded ? -1 : 0, 1), hi = sx_pick_range("hi", padded ? -2 : 0, 1);
    long mn = dmin - lo, ex = dmax + hi - mn + 1;
    if (ex < 0) ex = 0;
    long st = stride_kind(k, next, elem);
    // Without padding, a bounded broadcast covers dst.
    if (!padded && st == 0 && (lo < 0 || hi < 0)) sx_stop();
    if (d >= (int)dst.dims.size() && st == 0) sx_stop();
    s.dims[d] = dim(mn, mn + ex - 1, st, dim::unfolded);
    if (folds && ex > 0 && sx_pick("src_fold", 2)) {
      // Any factor: elements of different coordinates may be the same.
      s.dims[d].set_fold_factor(sx_pick_range("src_factor", 1, ex + 1)), ex = s.dims[d].fold_factor();
    }
    next = (st < 0 ? -st : st ? st : next) * (ex ? ex : 1);
  }
}
template <typename F>
static void for_coords(const shape& s, const F& f) {
  long m[3] = {0, 0, 0}, e[3] = {1, 1, 1};
  for (size_t d = 0; d < s.dims.size(); ++d) m[d] = s.dims[d].min(), e[d] = sx_concretize(s.dims[d].extent());
  for (long z = 0; z < e[2]; ++z)
    for (long y = 0; y < e[1]; ++y)
      for (long x = 0; x < e[0]; ++x) {
        long c[3] = {m[0] + x, m[1] + y, m[2] + z};
        f(c);
      }
}
// pad: 0 none, 1 scalar, 2 a buffer, 3 call pad() instead of copy().
static void test(int dst_rank, int src_rank, int pad_kind, std::size_t elem, int emin, int emax, int kinds, int src_kinds, bool dst_folds, bool src_folds, long lo = 1, long hi = 2) {
  storage dst, src, pad;
  dst_shape(dst.s, dst_rank, elem, emin, emax, kinds, dst_folds);
  dst.make(elem);
  dst.fill(5);
  src_shape(src.s, dst.s, src_rank, elem, pad_kind != 0, src_kinds, src_folds);
  src.make(elem);
  if (!src.valid && pad_kind == 0) sx_stop();
  src.fill_symbolic("v", lo, hi);
  if (pad_kind == 2)
    for (const dim& d : dst.s.dims) pad.s.dims.push_back(sx_pick("pad_stride", 2) ? dim(d.min() - 1, d.max() + 1, pad.s.dims.empty() ? elem : 32) : dim::broadcast());
  pad.make(elem);
  if (!pad.valid) sx_stop();
  pad.fill_symbolic("p", lo, hi);
  // Everything as it was.
  std::vector<char> before(dst.mem, dst.mem + dst.size), src_before(src.mem, src.mem + src.size), pad_before(pad.mem, pad.mem + pad.size);
  std::vector<char> want = before;
  for_coords(dst.s, [&](const long* c) {
    long o = dst.offset;
    for (size_t d = 0; d < dst.s.dims.size(); ++d) o += ref_offset(dst.s.dims[d], c[d]);
    for (std::size_t i = 0; i < elem; ++i) {
      int v = src.at(c, i);
      if (pad_kind == 3) {
        // Only what is outside of the bounds of src changes.
        want[o + i] = v == 1000 ? pad.at(c, i) : before[o + i];
      } else {
        want[o + i] = v == 1000 ? pad.at(c, i) : v;
      }
    }
  });
  if (pad_kind == 3) slinky::pad(src.s.dims.data(), dst.b, pad.b);
  else if (pad_kind) copy(src.b, dst.b, pad.b);
  else copy(src.b, dst.b);
  sx_cover("copied");
  bool all = true;
  for (long i = 0; i < dst.size; ++i) all &= dst.mem[i] == want[i];
  sx_assert_msg(all, "the destination is not what the copy defines");
  all = true;
  for (long i = 0; i < src.size; ++i) all &= src.mem[i] == src_before[i];
  for (long i = 0; i < pad.size; ++i) all &= pad.mem[i] == pad_before[i];
  sx_assert_msg(all, "the source changed");
}
#define T sx_thorough()
SX_HARNESS(copy_1d, "copied") { test(sx_pick("rank", 2), sx_pick("src_rank", 2), 0, sx_pick("elem", 2) ? 4 : 1, 0, 3, 3, 4, true, true, 0, 255); }
SX_HARNESS(copy_2d, "copied") { test(2, sx_pick("src_rank", 3), 0, 1, 1, 2, T ? 3 : 2, T ? 4 : 3, false, T); }
SX_HARNESS(copy_2d_folded, "copied") { test(2, 2, 0, 1, T ? 1 : 2, 2, 1, 1, true, true); }
SX_HARNESS(pad_copy_1d, "copied") { test(1, sx_pick("src_rank", 2), sx_pick("pad", 2) + 1, sx_pick("elem", 2) ? 4 : 1, 0, 3, 3, 4, T, T, 0, 255); }
SX_HARNESS(pad_copy_2d, "copied") { test(2, sx_pick("src_rank", 3), 1, 1, 1, 2, T ? 2 : 1, T ? 3 : 2, false, false); }
SX_HARNESS(pad_copy_2d_buffer, "copied") { test(2, 2, 2, 1, 1, 2, 1, 1, false, false); }
SX_HARNESS(pad_only_1d, "copied") { test(1, 1, 3, sx_pick("elem", 2) ? 2 : 1, 0, 3, 3, 1, false, false); }
SX_HARNESS(pad_only_2d, "copied") { test(2, 2, 3, 1, 1, 2, T ? 2 : 1, 1, false, false); }
// The source has more dimensions than the destination.
SX_HARNESS(copy_more_dims, "copied") { test(1, 2, sx_pick("pad", 2), 1, 1, 2, 2, 2, false, false); }

// A padded copy in place: the source is the destination, cropped.
SX_HARNESS(pad_in_place, "copied") {
  storage dst;
  dst_shape(dst.s, sx_pick("rank", 2) + 1, 1, 1, 3, T ? 3 : 1, false);
  dst.make(1);
  dst.fill_symbolic("v", 1, 2);
  shape s = dst.s;
  raw_buffer src = s.raw(dst.b.base, 1);
  for (size_t d = 0; d < s.dims.size(); ++d) src.crop(d, dst.s.dims[d].min() + sx_pick("lo", 2), dst.s.dims[d].max() - sx_pick("hi", 2));
  if (!src.base) sx_stop();
  char p = (char)sx_int("p", 3, 4);
  std::vector<char> want(dst.mem, dst.mem + dst.size);
  for_coords(dst.s, [&](const long* c) {
    long o = dst.offset;
    bool in = true;
    for (size_t d = 0; d < dst.s.dims.size(); ++d) {
      o += ref_offset(dst.s.dims[d], c[d]);
      in &= src.dims[d].min() <= c[d] && c[d] <= src.dims[d].max();
    }
    if (!in) want[o] = p;
  });
  copy(src, dst.b, raw_buffer::make_scalar_ref(1, &p));
  sx_cover("copied");
  for (long i = 0; i < dst.size; ++i) sx_assert_msg(dst.mem[i] == want[i], "the destination is not what the copy defines");
}

// Fills: a broadcast source, elements of any size and value, long rows.
SX_HARNESS(fill, "filled") {
  static const std::size_t elems[] = {1, 2, 3, 4, 8, 12, 40};
  std::size_t elem = elems[sx_pick("elem", 7)];
  long n = sx_pick_range("extent", 0, T ? 70 : 40), rows = sx_pick_range("rows", 1, 2);
  char v[40];
  for (std::size_t i = 0; i < elem; ++i) v[i] = (char)sx_int("v", 0, 255);
  shape s;
  s.dims = {dim(3, 3 + n - 1, elem), dim(0, rows - 1, n * elem + 5)};
  long size = (rows - 1) * (n * elem + 5) + n * elem;
  char* mem = (char*)malloc(size + 1);
  for (long i = 0; i < size; ++i) mem[i] = 77;
  copy(raw_buffer::make_scalar_ref(elem, v), s.raw(mem, elem));
  sx_cover("filled");
  bool all = true, gap = true;
  for (long i = 0; i < size; ++i) {
    long r = i % (n * elem + 5);
    if (r < n * (long)elem) all &= mem[i] == v[r % elem];
    else gap &= mem[i] == 77;
  }
  sx_assert_msg(all, "an element was not filled with the value");
  sx_assert_msg(gap, "memory outside of the destination was written");
  free(mem);
}
