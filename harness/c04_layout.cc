// Strides and sizes the library chooses, and memory it allocates.
#include "buffers.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/expr.h"
#include "slinky/runtime/stmt.h"
using namespace slinky;

static long alloc_extent(const dim& d) { return d.fold_factor() > 0 ? d.fold_factor() : d.extent(); }

// Any two coordinates (modulo folds, and except in dimensions with stride 0) are at least one element apart.
static void check_disjoint(const raw_buffer& b, long elem) {
  long ext[4] = {1, 1, 1, 1};
  for (size_t d = 0; d < b.rank; ++d) {
    ext[d] = b.dims[d].stride() == 0 ? 1 : alloc_extent(b.dims[d]);
    if (ext[d] == 0) return;
  }
  bool ok = true;
  for (long i = -(ext[0] - 1); i < ext[0]; ++i)
    for (long j = -(ext[1] - 1); j < ext[1]; ++j)
      for (long k = -(ext[2] - 1); k < ext[2]; ++k)
        for (long l = 0; l < ext[3]; ++l) {
          if (i == 0 && j == 0 && k == 0 && l == 0) continue;
          long o = 0;
          if (b.rank > 0) o += i * b.dims[0].stride();
          if (b.rank > 1) o += j * b.dims[1].stride();
          if (b.rank > 2) o += k * b.dims[2].stride();
          if (b.rank > 3) o += l * b.dims[3].stride();
          ok &= o >= elem || -o >= elem;
        }
  sx_assert_msg(ok, "the elements of two coordinates overlap");
}
// elem: the size of elements, fixed: how many dimensions may have fixed strides.
static void strides(int fixed, bool folds) {
  static const long elems[] = {1, 4, 12}, alignments[] = {1, 8, 64};
  long elem = elems[sx_pick("elem_size", sx_thorough() ? 3 : 2)], alignment = alignments[sx_pick("alignment", sx_thorough() ? 3 : 2)];
  if (elem == 4 && !sx_thorough()) elem = 12;
  int rank = sx_pick("rank", sx_thorough() ? 5 : 4);
  std::vector<dim> dims(rank);
  std::vector<long> given(rank, (long)dim::auto_stride);
  long inner = elem;  // A lower bound of the next fixed stride, such that the fixed dimensions do not overlap.
  // Which dimensions are fixed, from the inner to the outer one.
  int f[2] = {-1, -1};
  for (int i = 0; i < fixed; ++i) f[i] = sx_pick("fixed", rank + 1) - 1;
  if (f[0] >= 0 && f[0] == f[1]) sx_stop();
  for (int d = 0; d < rank; ++d) {
    long mn = sx_int("min", -10, 10);
    long ex = sx_pick_range("extent", d == 0 && rank == 1 ? 0 : rank == 4 ? 2 : 1, rank >= 3 && !sx_thorough() ? 3 : rank == 4 ? 3 : 4);
    dims[d].set_min_extent(mn, ex);
    if (folds && sx_pick("fold", 2)) dims[d].set_fold_factor(sx_pick_range("factor", 1, 3));
  }
  for (int i = 0; i < fixed; ++i) {
    if (f[i] < 0) continue;
    dim& d = dims[f[i]];
    int sign = sx_pick("kind", 3) - 1;
    if (sign == 0) {
      given[f[i]] = 0;
    } else {
      long s = sx_int("stride", 1, 200);
      sx_assume(s >= inner);
      given[f[i]] = s * sign;
      inner = s * alloc_extent(d);
    }
    d.set_stride(given[f[i]]);
  }
  raw_buffer b{nullptr, (std::size_t)elem, (std::size_t)rank, dims.data()};
  auto size = b.init_strides(alignment);
  sx_assert(size.has_value());
  if (!size) return;
  sx_cover("laid_out");
  long need = elem, span = elem;
  bool empty = false;
  for (int d = 0; d < rank; ++d) {
    sx_assert_msg(dims[d].stride() != dim::auto_stride, "a stride was not chosen");
    if (given[d] != dim::auto_stride) sx_assert_msg(dims[d].stride() == given[d], "a fixed stride was changed");
    else sx_assert_msg(dims[d].stride() >= elem, "a chosen stride is less than an element");
    long e = alloc_extent(dims[d]), s = dims[d].stride();
    empty |= e == 0;
    need += (e - 1) * (s < 0 ? -s : s);
  }
  if (!empty) {
    sx_assert_msg((long)*size >= need, "the size does not cover every element");
    sx_assert_msg((long)b.size_bytes() == need, "size_bytes is not the span of the elements");
  } else {
    sx_assert(b.size_bytes() == 0);
  }
  sx_assert((long)*size % alignment == 0);
  check_disjoint(b, elem);
}
SX_HARNESS(automatic, "laid_out") { strides(0, true); }
SX_HARNESS(one_fixed, "laid_out") { strides(1, false); }
SX_HARNESS(one_fixed_folded, "laid_out") { strides(1, true); }
SX_HARNESS(two_fixed, "laid_out") { strides(2, false); }

// Sizes near the limits: either the size is right, or the layout fails.
SX_HARNESS(overflow, "failed succeeded") {
  int rank = sx_pick("rank", sx_thorough() ? 4 : 3);
  static const long extents[] = {1, 1l << 31, (1l << 62) - 1, 3, 1l << 20, (1l << 32) + 1};
  static const long elems[] = {1, 1l << 31, 8, 1l << 62};
  std::size_t elem = elems[sx_pick("elem_size", sx_thorough() ? 4 : 2)];
  if (rank == 0) elem = (std::size_t)sx_int("elem", 1, std::numeric_limits<long>::max());
  std::vector<dim> dims(rank);
  int big = sx_pick("big", rank + 1);
  for (int d = 0; d < rank; ++d) {
    long mn = d == 0 ? sx_int("min", -(1l << 60), 1l << 60) : 0;
    long ex = d == big ? sx_int("extent", 1, (1l << 62) + 5) : extents[sx_pick("extent", sx_thorough() ? 6 : 3)];
    dims[d].set_min_extent(mn, ex);
    if (rank == 1 && sx_pick("folded", 2)) dims[d].set_min_extent(mn, 5), dims[d].set_fold_factor(ex);
  }
  if (rank > 0 && sx_pick("fixed", 2)) dims[0].set_stride(sx_thorough() && sx_pick("sign", 2) ? 1l << 40 : -(1l << 40));
  raw_buffer b{nullptr, elem, (std::size_t)rank, dims.data()};
  static const long alignments[] = {1, 64};
  long alignment = alignments[sx_pick("alignment", 2)];
  auto size = b.init_strides(alignment);
  if (!size) {
    sx_cover("failed");
    // The size times four is not representable (the layout may be conservative, but not absurdly).
    bool huge = false;
    long total = (long)elem;
    for (int d = 0; d < rank; ++d) {
      long e = alloc_extent(dims[d]), s = d == 0 && dims[0].stride() != dim::auto_stride && (dims[0].stride() >> 30 == 1l << 10 || dims[0].stride() < 0) ? 1l << 40 : 1;
      huge |= __builtin_mul_overflow(total, e, &total);
      huge |= __builtin_mul_overflow(total, s, &total);
    }
    huge |= __builtin_mul_overflow(total, 128l, &total);
    sx_assert_msg(huge, "the layout fails although its size is representable");
    return;
  }
  sx_cover("succeeded");
  long need = (long)elem, term;
  bool over = (long)elem < 0;
  for (int d = 0; d < rank; ++d) {
    long s = dims[d].stride();
    over |= __builtin_mul_overflow(alloc_extent(dims[d]) - 1, s < 0 ? -s : s, &term);
    over |= __builtin_add_overflow(need, term, &need);
  }
  sx_assert_msg(!over, "the size wrapped around");
  sx_assert_msg((long)*size >= need, "the size does not cover every element");
}

// An impossible region of memory is not valid, and a possible one is.
SX_HARNESS(validate, "valid invalid") {
  int rank = sx_pick("rank", 3);
  static const long strides[] = {1, -8, 1l << 20, -(1l << 40), 1l << 61, 0};
  std::size_t elem = sx_pick("elem", 2) ? 8 : 1;
  std::vector<dim> dims(rank);
  long lo = 0, hi = 0, t;
  bool over = false;
  bool empty = false;
  for (int d = 0; d < rank; ++d) {
    long ex = d == 0 ? sx_int("extent", 0, (1l << 61)) : sx_pick("e", 2) ? 1 : (1l << 33);
    long s = strides[sx_pick("stride", 6)];
    dims[d] = dim(5, 5 + ex - 1, s);
    if (s == 0) continue;
    if (ex == 0) empty = true;
    over |= __builtin_mul_overflow(ex - 1, s, &t);
    if (s < 0) over |= __builtin_add_overflow(lo, t, &lo);
    else over |= __builtin_add_overflow(hi, t, &hi);
  }
  unsigned long base = (unsigned long)sx_int("base", 1, std::numeric_limits<long>::max());
  if (sx_pick("high", 2)) base += 1ul << 63;
  raw_buffer b{reinterpret_cast<void*>(base), elem, (std::size_t)rank, dims.data()};
  bool v = validate_buffer(b);
  unsigned long top;
  bool ok = empty || (!over && base >= (unsigned long)-lo && !__builtin_add_overflow(base, (unsigned long)hi + elem, &top));
  if (v) sx_cover("valid");
  else sx_cover("invalid");
  // (An empty buffer may still be rejected for its other dimensions.)
  if (!empty) sx_assert_msg(v == ok, "validity of a buffer");
}

// Writes a distinct value to every element, and reads them back.
static void fill_and_check(const raw_buffer& b) {
  long n[3] = {1, 1, 1}, m[3] = {0, 0, 0};
  for (size_t d = 0; d < b.rank; ++d) {
    m[d] = b.dim(d).min();
    n[d] = b.dim(d).fold_factor() > 0 && b.dim(d).extent() > b.dim(d).fold_factor() ? b.dim(d).fold_factor() : b.dim(d).extent();
    if (b.dim(d).stride() == 0 && n[d] > 1) n[d] = 1;
  }
  for (int pass = 0; pass < 2; ++pass)
    for (long z = 0; z < n[2]; ++z)
      for (long y = 0; y < n[1]; ++y)
        for (long x = 0; x < n[0]; ++x) {
          unsigned char* p = (unsigned char*)b.address_at(m[0] + x, m[1] + y, m[2] + z);
          int v = 1 + x + n[0] * (y + n[1] * z);
          for (size_t i = 0; i < b.elem_size; ++i)
            if (pass == 0) p[i] = v + i * 16;
            else sx_assert_msg(p[i] == (unsigned char)(v + i * 16), "an element was overwritten");
        }
}
// Memory allocated in every way holds all elements (out of bounds accesses of heap memory are violations).
static void memory(bool negative) {
  int rank = sx_pick("rank", 4);
  std::vector<dim> dims(rank);
  std::size_t elem = sx_pick("elem", 2) ? 4 : 1;
  for (int d = 0; d < rank; ++d) {
    long ex = sx_pick_range("extent", rank == 3 ? 1 : 0, 3);
    dims[d].set_min_extent(sx_pick("min", 2) ? 0 : -7, ex);
    if (rank < 3 && sx_pick("fold", 2)) dims[d].set_fold_factor(2);
  }
  int how = sx_pick("how", 4);
  long align = 1l << (2 * sx_pick("align", 4));
  long before = sx_live_allocs();
  raw_buffer b{nullptr, elem, (std::size_t)rank, dims.data()};
  if (negative) {
    if (rank == 0) sx_stop();
    // The last dimension has a negative stride.
    long s = elem;
    for (int d = 0; d < rank; ++d) {
      if (d + 1 == rank) dims[d].set_stride(-s);
      else if (how != 0) dims[d].set_stride(s);
      s *= alloc_extent(dims[d]) ? alloc_extent(dims[d]) : 1;
    }
  } else if (how != 0) {
    b.init_strides();
  }
  if (how == 0) {
    void* p = b.allocate(align, 1l << (2 * sx_pick("stride_align", 3)));
    sx_assert(p != nullptr);
    if (!negative) sx_assert((long)b.base % align == 0);
    fill_and_check(b);
    sx_cover("allocated");
    free(p);
  } else if (how == 1) {
    raw_buffer_ptr p = raw_buffer::make(rank, elem, dims.data(), align);
    sx_assert(p->rank == b.rank && p->elem_size == elem);
    for (int d = 0; d < rank; ++d) sx_assert(p->dim(d) == dims[d]);
    if (p->base && !negative) sx_assert((long)p->base % align == 0);
    if (p->base) fill_and_check(*p);
    else sx_assert_msg(p->size_bytes() == 0, "no memory for a buffer that is not empty");
    for (int d = 0; d < rank; ++d) sx_assert_msg(p->dim(d) == dims[d], "the elements overlap the dimensions");
    sx_assert(p->rank == b.rank && p->elem_size == elem);
  } else if (how == 2) {
    if (rank > 2 || align > 16) sx_stop();
    for (int d = 0; d < rank; ++d)
      if (dims[d].fold_factor() > 0) sx_stop();
    raw_buffer_ptr src = raw_buffer::make(rank, elem, dims.data());
    if (!src->base) sx_stop();
    fill_and_check(*src);
    raw_buffer_ptr c = raw_buffer::make_copy(*src, align);
    sx_assert(c->base != src->base);
    sx_assert(c->rank == src->rank && c->elem_size == elem);
    for (int d = 0; d < rank; ++d) sx_assert(c->dim(d).min() == dims[d].min() && c->dim(d).max() == dims[d].max());
    long n0 = rank > 0 ? dims[0].extent() : 1, n1 = rank > 1 ? dims[1].extent() : 1;
    for (long y = 0; y < n1; ++y)
      for (long x = 0; x < n0; ++x)
        sx_assert_msg(*(char*)c->address_at(c->dim(0).min() + x, c->dim(1).min() + y) == *(char*)src->address_at(c->dim(0).min() + x, c->dim(1).min() + y), "a copy has different elements");
  } else {
    if (rank > 0) sx_stop();
    int v = (int)sx_int("v", -1000, 1000);
    raw_buffer_ptr p = raw_buffer::make_scalar(v, align);
    sx_assert(p->rank == 0 && p->elem_size == 4 && *(int*)p->base == v && (long)p->base % align == 0);
    sx_assert(*(int*)p->address_at(3, 4) == v);
    scalar<int> s(v);
    sx_assert(s() == v && s.base == &s.value && s.rank == 0);
  }
  sx_assert_msg(sx_live_allocs() == before, "memory was not released");
}
SX_HARNESS(memory, "allocated") { memory(false); }
SX_HARNESS(memory_negative, "allocated") { memory(true); }

// Allocations of statements: aligned, laid out, and released.
SX_HARNESS(statements, "heap automatic") {
  static const memory_type types[] = {memory_type::heap, memory_type::stack, memory_type::automatic};
  int type = sx_pick("type", 3), rank = sx_pick("rank", 3);
  var b(0), n(1);
  std::vector<dim_expr> dims;
  long extents[2], folds[2];
  for (int d = 0; d < rank; ++d) {
    extents[d] = sx_pick_range("extent", 0, 3), folds[d] = sx_pick("fold", 2) ? 2 : 0;
    dims.push_back({{expr(-3), expr(-4 + extents[d])}, expr(), folds[d] ? expr(folds[d]) : expr()});
  }
  eval_config config;
  config.base_alignment = 1 << (3 * sx_pick("base_align", 3));
  config.stride_alignment = 1 << (2 * sx_pick("stride_align", 3));
  config.auto_stack_threshold = sx_pick("threshold", 2) ? 1024 : 8;
  long allocs = 0, frees = 0, calls = 0;
  config.allocate = [&](var, raw_buffer* buf) {
    ++allocs;
    return buf->allocate(config.base_alignment, config.stride_alignment);
  };
  config.free = [&](var, raw_buffer*, void* p) {
    ++frees;
    free(p);
  };
  eval_context ctx;
  ctx.config = &config;
  ctx.reserve(3);
  stmt body = call_stmt::make(
      [&](const call_stmt*, eval_context& c) -> index_t {
        ++calls;
        const raw_buffer& buf = *c.lookup_buffer(b);
        sx_assert((int)buf.rank == rank && buf.elem_size == 4);
        for (int d = 0; d < rank; ++d) sx_assert(buf.dim(d).min() == -3 && buf.dim(d).extent() == extents[d] && buf.dim(d).fold_factor() == (folds[d] ? folds[d] : dim::unfolded));
        if (buf.elem_count() == 0) return 0;
        sx_assert((long)buf.base % (long)config.base_alignment == 0);
        fill_and_check(buf);
        return 0;
      },
      {}, {b}, {}, {});
  stmt s = allocate::make(b, types[type], expr(4), dims, body);
  long before = sx_live_allocs();
  long r = evaluate(s, ctx);
  sx_assert(r == 0 && calls == 1 && allocs == frees);
  sx_assert_msg(sx_live_allocs() == before, "memory was not released");
  if (type == 0) {
    sx_cover("heap");
    sx_assert(allocs == 1);
  }
  if (type == 2) sx_cover("automatic");
  if (type == 1) sx_assert(allocs == 0);
}
