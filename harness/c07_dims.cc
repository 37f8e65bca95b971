// Sorting, fusing and optimizing the dimensions of groups of buffers. Addresses are integers that are never dereferenced.
#include "buffers.h"
using namespace slinky;

static const long B[3] = {0x10000000, 0x20000000, 0x30000000};
struct elements {
  static const int max = 64;
  long a[max][3];
  int n = 0;
};
// The addresses (or null) of every coordinate of the first buffer in all buffers.
static void list(elements& v, raw_buffer* bufs, int count) {
  int rank = 0;
  for (int i = 0; i < count; ++i) rank = (int)bufs[i].rank > rank ? bufs[i].rank : rank;
  long m[4] = {0, 0, 0, 0}, e[4] = {1, 1, 1, 1};
  for (int d = 0; d < rank; ++d) m[d] = bufs[0].dim(d).min(), e[d] = sx_concretize(bufs[0].dim(d).extent());
  for (long w = 0; w < e[3]; ++w)
    for (long z = 0; z < e[2]; ++z)
      for (long y = 0; y < e[1]; ++y)
        for (long x = 0; x < e[0]; ++x) {
          long c[4] = {m[0] + x, m[1] + y, m[2] + z, m[3] + w};
          if (v.n >= elements::max) sx_fail("too many elements");
          for (int i = 0; i < count; ++i) {
            long addr = (long)bufs[i].base;
            bool in = addr != 0;
            for (int d = 0; d < (int)bufs[i].rank; ++d) {
              addr += ref_offset(bufs[i].dim(d), c[d]);
              in &= ref_contains(bufs[i].dim(d), c[d]);
            }
            v.a[v.n][i] = in ? addr : 0;
          }
          ++v.n;
        }
}
static void same(const elements& want, const elements& got, int count) {
  sx_assert_msg(want.n == got.n, "the number of elements changed");
  if (want.n != got.n) return;
  bool all = true;
  for (int i = 0; i < want.n; ++i) {
    int a = 0, b = 0;
    for (int j = 0; j < want.n; ++j) {
      int p = 1, q = 1;
      for (int k = 0; k < count; ++k) {
        p &= want.a[i][k] == want.a[j][k];
        q &= want.a[i][k] == got.a[j][k];
      }
      a += p, b += q;
    }
    all &= a == b;
  }
  sx_assert_msg(all, "the addressed elements changed");
}
// shapes: 0: same bounds as the first buffer; 1: other bounds in the outer dimensions; 2: other bounds anywhere.
struct group {
  shape s[3];
  raw_buffer b[3];
  int count;
  void make(int rank, int n, int shapes, bool folds, int emax, bool symbolic_strides) {
    count = n;
    for (int i = 0; i < n; ++i) {
      long next = 1;
      int r = i == 0 || !(shapes & 4) ? rank : sx_pick_range("rank", rank ? rank - 1 : 0, rank);
      for (int d = 0; d < r; ++d) {
        long mn, ex;
        if (i == 0) {
          mn = sx_int("min", -5, 5), ex = sx_pick_range("extent", 1, emax);
        } else {
          mn = s[0].dims[d].min(), ex = s[0].dims[d].extent();
          if ((shapes & 3) == 2 || ((shapes & 3) == 1 && d + 1 == r)) mn -= sx_int("before", -1, 1), ex += sx_int("after", -1, 1);
        }
        // Contiguous with the previous dimension, broadcast, or anything else.
        long st;
        switch (sx_pick("stride_kind", i == 0 ? 2 : 3)) {
        case 0: st = next; break;
        case 2: st = 0; break;
        default: st = symbolic_strides ? sx_int("stride", -4, 16) : d == 0 ? 3 : d == 1 ? 12 : 1; break;
        }
        long f = folds && sx_pick("fold", 2) ? sx_pick_range("factor", 2, sx_thorough() ? 4 : 3) : dim::unfolded;
        s[i].dims.push_back(dim(mn, mn + ex - 1, st, f));
        // The first buffer has no broadcast dimensions.
        if (i == 0) sx_assume(st != 0);
        next = st * ex;
      }
      b[i] = s[i].raw(reinterpret_cast<void*>(B[i]), 1);
    }
  }
};
// what: 0 sort_dims, 1 fuse_contiguous_dims, 2 optimize_dims
template <typename... Bufs>
static int apply(int what, bool sets, span<const int> set, Bufs&... bufs) {
  switch (what) {
  case 0: return sets ? sort_dims(set, bufs...) : sort_dims(bufs...);
  case 1: return sets ? fuse_contiguous_dims(set, bufs...) : fuse_contiguous_dims(bufs...);
  default: return sets ? optimize_dims(set, bufs...) : optimize_dims(bufs...);
  }
}
static void test(int what, int rank, int n, int shapes, bool folds, int emax, bool symbolic) {
  group g;
  g.make(rank, n, shapes, folds, emax, symbolic);
  elements before, after;
  list(before, g.b, n);
  int set[4] = {0, 0, 0, 0};
  int sets = rank >= 2 ? sx_pick("sets", sx_thorough() ? 3 : 2) : 0;
  if (sets == 1) set[rank - 1] = 1;
  if (sets == 2) set[0] = 1;
  std::size_t size = rank;
  int fused = n == 1 ? apply(what, sets, span<const int>(set, size), g.b[0])
            : n == 2 ? apply(what, sets, span<const int>(set, size), g.b[0], g.b[1])
                     : apply(what, sets, span<const int>(set, size), g.b[0], g.b[1], g.b[2]);
  (void)fused;
  sx_cover("transformed");
  if ((int)g.b[0].rank < rank) sx_cover("fused");
  sx_assert((int)g.b[0].rank <= rank);
  list(after, g.b, n);
  same(before, after, n);
  if (what == 0 && sets == 0) {
    sx_cover("fused");
    int m = rank;
    for (int i = 0; i < n; ++i) m = (int)g.b[i].rank < m ? g.b[i].rank : m;
    for (int d = 0; d + 1 < m; ++d) sx_assert_msg(g.b[0].dim(d).stride() <= g.b[0].dim(d + 1).stride(), "the dimensions are not sorted");
  }
}
SX_HARNESS(sort_one, "transformed fused") { test(0, sx_pick("rank", 4), 1, 0, false, 2, true); }
SX_HARNESS(sort_one_folded, "transformed fused") { test(0, sx_pick("rank", 3), 1, 0, true, 2, false); }
SX_HARNESS(sort_pair, "transformed fused") { test(0, sx_pick("rank", 3), 2, 6, sx_thorough(), 2, true); }
SX_HARNESS(fuse_one, "transformed fused") { test(1, sx_pick("rank", 3), 1, 0, false, 3, true); }
SX_HARNESS(fuse_one_folded, "transformed fused") { test(1, sx_pick("rank", 3), 1, 0, true, 3, false); }
SX_HARNESS(fuse_one_3d, "transformed fused") { test(1, 3, 1, 0, sx_thorough(), 3, true); }
SX_HARNESS(fuse_pair, "transformed fused") { test(1, sx_pick("rank", 3), 2, 2, false, sx_thorough() ? 3 : 2, true); }
SX_HARNESS(fuse_pair_folded, "transformed fused") { test(1, 2, 2, 1, true, 2, false); }
SX_HARNESS(fuse_ranks, "transformed fused") { test(1, sx_pick("rank", 3), 2, 5, false, 2, false); }
SX_HARNESS(optimize_one, "transformed fused") { test(2, sx_pick("rank", 4), 1, 0, true, 2, false); }
SX_HARNESS(optimize_pair, "transformed fused") { test(2, sx_pick("rank", 3), 2, 2, false, sx_thorough() ? 3 : 2, true); }
SX_HARNESS(optimize_pair_folded, "transformed fused") { test(2, sx_pick("rank", 3), 2, 1, true, 2, false); }
SX_HARNESS(optimize_ranks, "transformed fused") { test(2, sx_pick("rank", 3), 2, 5, false, 2, false); }
SX_HARNESS(optimize_pair_3d, "transformed fused") { test(2, 3, 2, 0, false, 2, false); }
SX_HARNESS(optimize_three, "transformed fused") { test(2, 2, 3, 1, false, 2, false); }

// Fusing two dimensions, when it is allowed, of each kind.
SX_HARNESS(fuse_dims, "fused") {
  long ex[2], mn[2];
  shape s;
  for (int d = 0; d < 2; ++d) {
    mn[d] = sx_int("min", -6, 6), ex[d] = sx_pick_range("extent", 0, 3);
    long st = d == 0 ? sx_int("stride", -3, 6) : sx_int("stride", -9, 18);
    long f = sx_pick("fold", sx_thorough() ? 4 : 3);
    s.dims.push_back(dim(mn[d], mn[d] + ex[d] - 1, st, f ? f + 1 : dim::unfolded));
    sx_assume(st != 0);
  }
  if (!can_fuse(s.dims[0], s.dims[1])) return;
  // (Fusing requires that a folded outer dimension has an inner one that does not cross a fold.)
  sx_assume(s.dims[1].fold_factor() == dim::unfolded || !s.dims[0].is_folded());
  sx_cover("fused");
  raw_buffer b = s.raw(reinterpret_cast<void*>(B[0]), 1);
  elements before, after;
  list(before, &b, 1);
  int kind = sx_pick("kind", 3);
  shape t = s;
  raw_buffer c = t.raw(reinterpret_cast<void*>(B[0]), 1);
  if (kind == 0) fuse<fuse_type::keep>(0, 1, c);
  if (kind == 1) fuse<fuse_type::remove>(0, 1, c);
  if (kind == 2) fuse<fuse_type::undef>(0, 1, c), c.rank = 1;
  sx_assert(c.rank == (kind == 0 ? 2 : 1));
  if (kind == 0) sx_assert(c.dim(1).is_point(0));
  list(after, &c, 1);
  same(before, after, 1);
}
