// Buffers with symbolic shapes.
#pragma once
#include <vector>
#include "slinky/runtime/buffer.h"
#include "sx.h"

namespace slinky {

static inline long refmod(long a, long b) {
  long r = a % b;
  return r < 0 ? r + b : r;
}
// The definition of the offset of coordinate x in a dimension.
static inline long ref_offset(const dim& d, long x) {
  if (d.fold_factor() > 0 && d.stride() != 0) return refmod(x, d.fold_factor()) * d.stride();
  return (x - d.min()) * d.stride();
}
static inline bool ref_contains(const dim& d, long x) { return d.stride() == 0 || (d.min() <= x && x <= d.max()); }

struct shape {
  std::vector<dim> dims;
  // n dimensions with strides out of `strides`, extents in [emin, emax], mins in [-m, m], folds up to max_fold (0: none).
  void random_dim(long m, long emin, long emax, std::initializer_list<long> strides, int max_fold) {
    long mn = sx_int("min", -m, m), ex = sx_int("extent", emin, emax);
    long st = strides.begin()[sx_pick("stride", (int)strides.size())];
    long f = max_fold ? sx_pick("fold", max_fold + 1) : 0;
    dims.push_back(dim(mn, mn + ex - 1, st, f ? f : dim::unfolded));
  }
  raw_buffer raw(void* base, std::size_t elem_size) { return raw_buffer{base, elem_size, dims.size(), dims.data()}; }
};

}  // namespace slinky
