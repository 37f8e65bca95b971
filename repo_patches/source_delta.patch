From 776e0248883252a2fdf5fdd4a53054741af95212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 01/38] fix: modulus_remainder intersection must not wrap when
 the lcm overflows

---
 slinky/base/modulus_remainder.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slinky/base/modulus_remainder.h b/slinky/base/modulus_remainder.h
index 797f608..28d4ab7 100644
--- a/slinky/base/modulus_remainder.h
+++ b/slinky/base/modulus_remainder.h
@@ -155,7 +155,12 @@ template <typename T>
 modulus_remainder<T> operator&(const modulus_remainder<T>& a, const modulus_remainder<T>& b) {
   if (a.modulus == 0) return a;
   if (b.modulus == 0) return b;
-  if (a.remainder == 0 && b.remainder == 0) return {lcm(a.modulus, b.modulus), 0};
+  if (a.remainder == 0 && b.remainder == 0) {
+    T m;
+    if (!mul_with_overflow(a.modulus / gcd(a.modulus, b.modulus), b.modulus, m)) {
+      return {m, 0};
+    }
+  }
   // We have x == ma * y + ra == mb * z + rb
 
   // We want to synthesize these two facts into one modulus
-- 
2.43.0


From 077c4c4a2ed115804d89381ebd547d2a96fa6b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 02/38] fix: let restores outer values when a symbol is defined
 twice in one list

---
 slinky/runtime/evaluate.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index e66e759..45c0a3e 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -175,7 +175,8 @@ public:
       old_values[i] = context.set(let.first, eval(let.second));
     }
     index_t result = eval(op->body);
-    for (size_t i = 0; i < size; ++i) {
+    // Restore in reverse order, in case a symbol is defined more than once.
+    for (size_t i = size; i-- > 0;) {
       context.set(op->lets[i].first, old_values[i]);
     }
     return result;
@@ -406,7 +407,8 @@ public:
       old_values[i] = context.set(let.first, eval(let.second));
     }
     index_t result = eval(op->body);
-    for (size_t i = 0; i < size; ++i) {
+    // Restore in reverse order, in case a symbol is defined more than once.
+    for (size_t i = size; i-- > 0;) {
       const auto& let = op->lets[i];
       context.set(let.first, old_values[i]);
     }
-- 
2.43.0


From a6dda353e8d2835662ba84806e4ade60f5a524c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 03/38] fix: constant bounds of logical operators must not use
 numeric bounds of non-boolean operands

---
 slinky/builder/simplify.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index b906da2..c1ab1ac 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2664,10 +2664,14 @@ public:
   void visit(const less* op) override { visit_less(op); }
   void visit(const less_equal* op) override { visit_less(op); }
 
+  // Mutate an operand of a logical operation, which is interpreted as a boolean. A bound of a value that is not already
+  // boolean does not bound whether that value is non-zero, so we can only constant fold such values.
+  expr mutate_boolean(const expr& x, int sign) { return strip_boolean(mutate(x, is_boolean(x) ? sign : 0)); }
+
   template <typename T>
   void visit_logical_and_or(const T* op, int new_sign) {
-    expr a = strip_boolean(mutate(op->a, new_sign));
-    expr b = strip_boolean(mutate(op->b, new_sign));
+    expr a = mutate_boolean(op->a, new_sign);
+    expr b = mutate_boolean(op->b, new_sign);
 
     if (as_constant(b)) std::swap(a, b);
 
@@ -2697,7 +2701,7 @@ public:
   void visit(const logical_or* op) override { visit_logical_and_or(op, std::max(sign, 0)); }
 
   void visit(const logical_not* op) override {
-    expr a = strip_boolean(mutate(op->a, -sign));
+    expr a = mutate_boolean(op->a, -sign);
     if (auto ca = as_constant(a)) {
       set_result(*ca != 0 ? 0 : 1);
     } else if (sign != 0) {
@@ -2750,8 +2754,8 @@ public:
       // - We're constant folding.
       const bool is_and = op->intrinsic == intrinsic::and_then;
       const int new_sign = is_and ? std::min(sign, 0) : std::max(sign, 0);
-      expr a = strip_boolean(mutate(op->args[0], new_sign));
-      expr b = strip_boolean(mutate(op->args[1], new_sign));
+      expr a = mutate_boolean(op->args[0], new_sign);
+      expr b = mutate_boolean(op->args[1], new_sign);
 
       if (auto ca = as_constant(a)) {
         if (*ca) {
-- 
2.43.0


From bb3150aa0ba500b2669ba3b6a589aa3ff2d16673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 04/38] fix: init_strides must fail, not assert, when the
 layout overflows before any stride is known

---
 slinky/runtime/buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index 872279d..6f9c08a 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -238,7 +238,7 @@ std::optional<std::size_t> raw_buffer::init_strides_impl(index_t alignment) {
         break;
       }
     }
-    assert(dim_i.stride() != dim::auto_stride);
+    assert(overflow || dim_i.stride() != dim::auto_stride);
   }
 
   index_t size = 0;
-- 
2.43.0


From ac959d4bcdedaf81da59cb33ecc16e8a4e21e93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:23 +0000
Subject: [PATCH 05/38] fix: memory allocated for a buffer with a negative
 stride must contain its elements

---
 slinky/runtime/buffer.cc   | 8 ++++++++
 slinky/runtime/buffer.h    | 4 ++++
 slinky/runtime/evaluate.cc | 2 +-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index 6f9c08a..a7f50b5 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -80,6 +80,12 @@ std::size_t alloc_size(std::size_t rank, std::size_t elem_size, const dim* dims)
 
 std::size_t raw_buffer::size_bytes() const { return alloc_size(rank, elem_size, dims); }
 
+std::size_t raw_buffer::base_offset_bytes() const {
+  index_t flat_min = 0;
+  index_t flat_max = 0;
+  return calculate_flat_bounds(rank, dims, flat_min, flat_max) ? -static_cast<std::size_t>(flat_min) : 0;
+}
+
 std::size_t raw_buffer::elem_count() const {
   std::size_t result = 1;
   for (std::size_t i = 0; i < rank; ++i) {
@@ -107,6 +113,7 @@ raw_buffer_ptr raw_buffer::make(std::size_t rank, std::size_t elem_size, const c
   }
   buf->base = data_size > 0 ? mem : nullptr;
   buf->base = align_up(buf->base, alignment);
+  if (buf->base) buf->base = offset_bytes_non_null(buf->base, buf->base_offset_bytes());
   return raw_buffer_ptr(buf, free);
 }
 
@@ -255,6 +262,7 @@ void* raw_buffer::allocate(index_t base_alignment, index_t stride_alignment) {
   if (!size) return nullptr;
   void* allocation = malloc(*size + base_alignment - 1);
   base = align_up(allocation, base_alignment);
+  base = offset_bytes(base, base_offset_bytes());
   return allocation;
 }
 
diff --git a/slinky/runtime/buffer.h b/slinky/runtime/buffer.h
index dd35b07..955c99c 100644
--- a/slinky/runtime/buffer.h
+++ b/slinky/runtime/buffer.h
@@ -417,6 +417,10 @@ public:
 
   std::size_t size_bytes() const;
 
+  // The offset of `base` from the lowest address used by the elements of this buffer. This is 0 unless a dimension has a
+  // negative stride.
+  std::size_t base_offset_bytes() const;
+
   std::size_t elem_count() const;
 
   // If any strides are `auto_stride`, replace them with automatically determined strides.
diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 45c0a3e..6d87a65 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -625,7 +625,7 @@ public:
       if (op->storage == memory_type::stack || *size <= context.config->auto_stack_threshold) {
         std::size_t alignment = context.config->base_alignment;
         buffer.base = SLINKY_ALLOCA(char, *size + alignment - 1);
-        buffer.base = align_up(buffer.base, alignment);
+        buffer.base = offset_bytes_non_null(align_up(buffer.base, alignment), buffer.base_offset_bytes());
         buffer.allocation = nullptr;
       } else {
         buffer.allocation = context.config->allocate(op->sym, &buffer);
-- 
2.43.0


From bb76b7781490f6926cb99a8a25963aa02691c285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 06/38] fix: dimensions must not be fused across a point when
 the inner one is a broadcast or either is folded

---
 slinky/runtime/buffer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/buffer.h b/slinky/runtime/buffer.h
index 955c99c..62ef813 100644
--- a/slinky/runtime/buffer.h
+++ b/slinky/runtime/buffer.h
@@ -767,7 +767,10 @@ bool validate_buffer(const raw_buffer& buf);
 // Returns true if the two dimensions can be fused.
 inline bool can_fuse(const dim& inner, const dim& outer) {
   if (inner.empty()) return false;
-  if (outer.min() == outer.max() && outer.stride() != 0) return true;
+  if (outer.min() == outer.max() && outer.stride() != 0 && inner.stride() != 0 &&
+      inner.fold_factor() == dim::unfolded && outer.fold_factor() == dim::unfolded) {
+    return true;
+  }
 
   index_t next_stride = inner.stride() * (inner.max() - inner.min() + 1);
   if (next_stride != outer.stride()) return false;
-- 
2.43.0


From c98b2dc6d4e6632e706670a3171101db940a0941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 07/38] fix: pad must not treat the bounds [0, 0] as unbounded

---
 slinky/runtime/buffer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index a7f50b5..3d5754a 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -477,7 +477,9 @@ void pad(const dim* in_bounds, const raw_buffer& dst, const raw_buffer& pad) {
 
   raw_buffer src = {nullptr, dst.elem_size, dst.rank, SLINKY_ALLOCA(dim, dst.rank)};
   for (std::size_t d = 0; d < dst.rank; ++d) {
-    src.dims[d] = {in_bounds[d].min(), in_bounds[d].max(), 0, in_bounds[d].fold_factor()};
+    // If we used a stride of 0 here, the bounds [0, 0] would look like an (unbounded) broadcast.
+    index_t stride = in_bounds[d].is_broadcast() ? 0 : dst.dims[d].stride();
+    src.dims[d] = {in_bounds[d].min(), in_bounds[d].max(), stride, in_bounds[d].fold_factor()};
   }
 
   raw_buffer pad_opt = pad;
-- 
2.43.0


From 83364bcac011516db2b0b2525c4659f782b381b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 08/38] fix: a padded copy whose source has more dimensions
 than the destination must pad where they do not contain 0

---
 slinky/runtime/buffer.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index 3d5754a..acf1179 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -450,6 +450,15 @@ SLINKY_NO_STACK_PROTECTOR void copy(const raw_buffer& src, const raw_buffer& dst
     pad_opt.dims = SLINKY_ALLOCA(dim, pad.rank);
     internal::copy_small_n(pad.dims, pad.rank, pad_opt.dims);
 
+    for (std::size_t d = dst.rank; d < src.rank; ++d) {
+      if (!src.dims[d].contains(0)) {
+        // The dimensions of src that don't exist in dst are out of bounds, all of dst is padding.
+        optimize_dims(dst_opt, pad_opt);
+        copy_impl(pad_opt, dst_opt);
+        return;
+      }
+    }
+
     optimize_dims(dst_opt, src_opt, pad_opt);
 
     // Implement the padding in all but the first dimension.
-- 
2.43.0


From 1410c729bbede9326ee1d7e06b6f5eab1367fe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:38 +0000
Subject: [PATCH 09/38] fix: a parallel loop over an empty interval must not
 run

---
 slinky/runtime/evaluate.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 6d87a65..21234c9 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -452,7 +452,7 @@ public:
     interval bounds = eval(op->bounds);
     index_t step = eval(op->step, 1);
     assert(step != 0);
-    std::size_t n = ceil_div(bounds.max - bounds.min + 1, step);
+    std::size_t n = std::max<index_t>(0, ceil_div(bounds.max - bounds.min + 1, step));
 
     if (n == 0) {
       return 0;
-- 
2.43.0


From b32d961b38afcbf44c4633150514872d6cb1fe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:38 +0000
Subject: [PATCH 10/38] fix: async must restore the outer value of the task
 symbol

---
 slinky/runtime/evaluate.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 21234c9..8ab605c 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -554,7 +554,7 @@ public:
 
     context.reserve(op->sym.id + 1);
     index_t old_sym = 0;
-    if (op->sym.defined()) context.set(op->sym, reinterpret_cast<index_t>(&*task));
+    if (op->sym.defined()) old_sym = context.set(op->sym, reinterpret_cast<index_t>(&*task));
 
     index_t result = eval_with_new_context(op->body);
 
-- 
2.43.0


From 652d1db62de882bbb15e4ee1196579e28e05958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 11/38] fix: truncating a buffer in place must not add
 dimensions to it

---
 slinky/runtime/evaluate.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 8ab605c..f595ca5 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -867,7 +867,7 @@ public:
 
       // In-place truncate, all we need to do is set the rank (and restore it).
       std::size_t old_rank = src_buf->rank;
-      src_buf->rank = op->dims.size();
+      src_buf->rank = std::min(old_rank, op->dims.size());
       index_t result = eval(op->body);
       src_buf->rank = old_rank;
       return result;
-- 
2.43.0


From 72b4c075e16563d8c5ee741efaac45b91843d11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 12/38] fix: an in place crop must evaluate all of its bounds
 before cropping

---
 slinky/runtime/evaluate.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index f595ca5..ea81cc4 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -709,17 +709,17 @@ public:
 
     std::size_t crop_rank = std::min(op->bounds.size(), buffer->rank);
     interval* old_bounds = SLINKY_ALLOCA(interval, crop_rank);
+    interval* new_bounds = SLINKY_ALLOCA(interval, crop_rank);
 
     void* old_base = buffer->base;
+    // The bounds may depend on the metadata of the buffer, evaluate all of them before cropping any dimension.
     for (std::size_t d = 0; d < crop_rank; ++d) {
-      slinky::dim& dim = buffer->dims[d];
-      index_t old_min = dim.min();
-      index_t old_max = dim.max();
-      old_bounds[d].min = old_min;
-      old_bounds[d].max = old_max;
-
-      interval bounds = eval(op->bounds[d], {old_min, old_max});
-      buffer->crop(d, bounds.min, bounds.max);
+      const slinky::dim& dim = buffer->dims[d];
+      old_bounds[d] = {dim.min(), dim.max()};
+      new_bounds[d] = eval(op->bounds[d], old_bounds[d]);
+    }
+    for (std::size_t d = 0; d < crop_rank; ++d) {
+      buffer->crop(d, new_bounds[d].min, new_bounds[d].max);
     }
 
     index_t result = eval(op->body);
-- 
2.43.0


From 17d219746e0d963c045a92f32b897f2ee54cc0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:35 +0000
Subject: [PATCH 13/38] fix: the alignment of a loop variable is unknown when
 the loop min is not constant

---
 slinky/builder/simplify.cc               | 6 ++++--
 slinky/builder/slide_and_fold_storage.cc | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index c1ab1ac..ff1a7e0 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1411,8 +1411,10 @@ public:
       if (i) ++i->loop_depth;
     }
     alignment_type alignment;
-    if (auto cstep = as_constant(step)) alignment.modulus = *cstep;
-    if (auto cmin = as_constant(bounds.min)) alignment.remainder = *cmin;
+    auto cstep = as_constant(step);
+    auto cmin = as_constant(bounds.min);
+    // If we don't know the min, we don't know anything about the alignment of the loop variable.
+    if (cstep && cmin && *cstep > 0) alignment = {*cstep, euclidean_mod(*cmin, *cstep)};
     // If we're in the body of the loop, then we know that bounds.max >= bounds.min.
     stmt body = mutate_with_bounds(op->body, op->sym, {bounds.min, mutate(max(bounds.min, bounds.max))}, alignment);
     for (auto& i : buffers) {
diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index c47b021..ae2fa29 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -719,8 +719,9 @@ public:
 
       auto maybe_min = as_constant(loop_bounds.min);
       auto maybe_step = as_constant(op->step);
-      index_t modulus = maybe_step ? *maybe_step : 1;
-      index_t remainder = (maybe_min && maybe_step) ? *maybe_min % *maybe_step : 0;
+      // If we don't know the min, we don't know anything about the alignment of the loop variable.
+      index_t modulus = (maybe_min && maybe_step) ? *maybe_step : 1;
+      index_t remainder = (maybe_min && maybe_step) ? euclidean_mod(*maybe_min, *maybe_step) : 0;
 
       auto set_expr_alignment = set_value_in_scope(expr_alignment, op->sym, {modulus, remainder});
       body = mutate(op->body);
-- 
2.43.0


From af9b6d078cba242d7fcdca7f9698c94d111bddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:35 +0000
Subject: [PATCH 14/38] fix: a loop must not fold storage that an outer loop
 re-uses

---
 slinky/builder/slide_and_fold_storage.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index ae2fa29..b9daf23 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -386,7 +386,8 @@ public:
       interval_expr overlap = prev_bounds_d & cur_bounds_d;
       if (prove_true(overlap.empty(), expr_bounds, expr_alignment)) {
         // The bounds of each loop iteration do not overlap. We can't re-use work between loop iterations, but we
-        // can fold the storage.
+        // can fold the storage, unless an outer loop re-uses what this loop produced in its previous iteration.
+        if (did_overlapped_fold) continue;
         expr fold_factor = constant_fold_factor(bounds_of(cur_bounds_d.extent(), expr_bounds).max, loop);
         if (fold_factor.defined()) {
           vector_at(fold_factors[output], d) = {fold_factor, fold_factor, loop.loop_id};
-- 
2.43.0


From 625a3b38535a1027f4fa487abd9a98c48384f48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:43 +0000
Subject: [PATCH 15/38] fix: sliding must account for bounds that depend on the
 loop via buffers made inside the loop

---
 slinky/builder/slide_and_fold_storage.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index b9daf23..12f611c 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -247,6 +247,8 @@ public:
 
   symbol_map<var> aliases;
   symbol_map<box_expr> buffer_bounds;
+  // The bounds of make_buffer declarations, resolved where they are declared.
+  symbol_map<box_expr> made_buffer_bounds;
   symbol_map<interval_expr> expr_bounds;
   symbol_map<modulus_remainder<index_t>> expr_alignment;
 
@@ -374,6 +376,9 @@ public:
         continue;
       }
 
+      // The bounds may also depend on the loop via the bounds of buffers that were declared inside the loop.
+      substitute_bounds(cur_bounds_d, made_buffer_bounds);
+
       // Some expressions which involve loop bounds are difficult to simplify, so let's try to do that using the latest
       // loop bounds.;
       cur_bounds_d = simplify(cur_bounds_d, expr_bounds, expr_alignment);
@@ -590,6 +595,18 @@ public:
     buffer_bounds = std::move(saved_buffer_bounds);
   }
 
+  void visit(const make_buffer* op) override {
+    box_expr bounds;
+    bounds.reserve(op->dims.size());
+    for (const dim_expr& d : op->dims) {
+      bounds.push_back(d.bounds);
+    }
+    substitute_bounds(bounds, made_buffer_bounds);
+    substitute_bounds(bounds, buffer_bounds);
+    auto set_bounds = set_value_in_scope(made_buffer_bounds, op->sym, std::move(bounds));
+    stmt_mutator::visit(op);
+  }
+
   void visit(const slice_buffer* op) override {
     std::optional<box_expr> bounds = buffer_bounds[op->src];
     if (bounds) {
-- 
2.43.0


From 1b53bc43d80debc6a9e59552443db0ae0dc9e35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 16/38] fix: sliding must not extend the computed bounds when
 the previous iteration was empty

---
 slinky/builder/slide_and_fold_storage.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 12f611c..c37c793 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -408,6 +408,10 @@ public:
         // so we can incrementally compute only the newly required bounds.
         expr old_min = cur_bounds_d.min;
         expr new_min = simplify(prev_bounds_d.max + 1, expr_bounds, expr_alignment);
+        if (!prove_true(new_min >= old_min, expr_bounds, expr_alignment)) {
+          // The bounds of the previous iteration may be empty, the newly required bounds are still part of the bounds.
+          new_min = simplify(max(new_min, old_min), expr_bounds, expr_alignment);
+        }
 
         if (!did_overlapped_fold) {
           expr fold_factor =
-- 
2.43.0


From 0db1522288e49da8045e8a0f315cffbdf1cf4429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 17/38] fix: an unmodified loop must be removed from the stack
 of loops

---
 slinky/builder/slide_and_fold_storage.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index c37c793..f4da6d3 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -754,6 +754,7 @@ public:
     loop_bounds.min = loops.back().bounds.min;
     if (body.same_as(op->body) && loop_bounds.min.same_as(op->bounds.min) && loop_bounds.max.same_as(op->bounds.max)) {
       set_result(op);
+      loops.pop_back();
       return;
     }
 
-- 
2.43.0


From 5f9ba66e6321cb4dd2feec859af4afbb570a102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 18/38] fix: fold factors that depend on the worker count must
 not be folded again

---
 slinky/builder/slide_and_fold_storage.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index f4da6d3..45aba7c 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -185,6 +185,9 @@ public:
   };
   symbol_map<std::vector<dim_fold_info>> fold_factors;
 
+  // The fold factor might depend on the worker count, so it might not be provably finite yet.
+  static bool is_folded(const expr& fold_factor) { return fold_factor.defined() && !is_positive_infinity(fold_factor); }
+
   static std::vector<dim_fold_info> get_dim_fold_info(const std::vector<dim_expr>& dims) {
     std::vector<dim_fold_info> info(dims.size(), dim_fold_info());
     for (std::size_t d = 0; d < dims.size(); ++d) {
@@ -349,7 +352,7 @@ public:
       for (int d = 0; d < static_cast<int>(fold_factors[output]->size()); ++d) {
         expr fold = (*fold_factors[output])[d].factor;
         expr overlap = (*fold_factors[output])[d].overlap;
-        if (!is_finite(fold)) continue;
+        if (!is_folded(fold)) continue;
         // If fold is finite and bounds don't overlap the fold and overlap
         // will be set to the same expr.
         did_overlapped_fold = did_overlapped_fold || !match(fold, overlap);
@@ -366,7 +369,7 @@ public:
       if (fold_factors[output] && (d < static_cast<int>(fold_factors[output]->size()))) {
         expr fold_factor = (*fold_factors[output])[d].factor;
         // Skip if we already folded this dimension.
-        if (is_finite(fold_factor)) continue;
+        if (is_folded(fold_factor)) continue;
       }
 
       interval_expr cur_bounds_d = (*bounds)[d];
-- 
2.43.0


From c603a54c6033966e3523745842379cef3fa895e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 19/38] fix: a loop must not fold storage that an outer loop
 slides without folding

---
 slinky/builder/slide_and_fold_storage.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 45aba7c..581620c 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -182,6 +182,9 @@ public:
 
     // Unique ID of the loop this fold is for.
     int loop_id = -1;
+
+    // True if a loop re-uses the values of this dimension produced by its previous iterations.
+    bool slid = false;
   };
   symbol_map<std::vector<dim_fold_info>> fold_factors;
 
@@ -350,6 +353,8 @@ public:
 
     if (fold_factors[output]) {
       for (int d = 0; d < static_cast<int>(fold_factors[output]->size()); ++d) {
+        // An outer loop might slide without being able to fold.
+        did_overlapped_fold = did_overlapped_fold || (*fold_factors[output])[d].slid;
         expr fold = (*fold_factors[output])[d].factor;
         expr overlap = (*fold_factors[output])[d].overlap;
         if (!is_folded(fold)) continue;
@@ -425,9 +430,12 @@ public:
                 constant_upper_bound(bounds_of(cur_bounds_d.max - new_min + 1, expr_bounds, expr_alignment).max),
                 expr_bounds);
             vector_at(fold_factors[output], d) = {fold_factor, overlap, loop.loop_id};
-            did_overlapped_fold = true;
           }
         }
+        if (fold_factors[output]) {
+          vector_at(fold_factors[output], d).slid = true;
+        }
+        did_overlapped_fold = true;
 
         // Now that we're only computing the newly required parts of the domain, we need
         // to move the loop min back so we compute the whole required region.
@@ -472,7 +480,9 @@ public:
             }
             if (!is_correct_fold) {
               // We found a consumer of a buffer outside the loop it was folded in, remove the folding.
-              i = dim_fold_info();
+              i.factor = positive_infinity();
+              i.overlap = expr();
+              i.loop_id = -1;
             }
           }
         }
-- 
2.43.0


From 97a702d9d2ac8f765b6c3047916606ad2eaf6d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 20/38] fix: copy of buffers that were sliced out of bounds

---
 slinky/runtime/buffer.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index acf1179..72671e2 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -431,7 +431,10 @@ void pad_impl(raw_buffer& src, raw_buffer& dst, raw_buffer& pad) {
 
 SLINKY_NO_STACK_PROTECTOR void copy(const raw_buffer& src, const raw_buffer& dst, const raw_buffer& pad) {
   assert(dst.elem_size == src.elem_size);
-  assert(dst.base || dst.elem_count() == 0);
+  if (!dst.base) {
+    // The dst was sliced or cropped out of bounds, there is nothing to copy.
+    return;
+  }
 
   // Make (shallow) copies of the buffers, so we can optimize the dimensions.
   raw_buffer dst_opt = dst;
@@ -442,21 +445,24 @@ SLINKY_NO_STACK_PROTECTOR void copy(const raw_buffer& src, const raw_buffer& dst
   src_opt.dims = SLINKY_ALLOCA(dim, src.rank);
   internal::copy_small_n(src.dims, src.rank, src_opt.dims);
 
-  // If the src has rank 0, then the padding is irrelevant, nothing is out of bounds.
-  if (src_opt.rank > 0 && pad.base) {
+  // If the src has rank 0, then the padding is irrelevant, nothing is out of bounds, unless it was sliced out of bounds.
+  if ((src_opt.rank > 0 || !src.base) && pad.base) {
     assert(dst_opt.elem_size == pad.elem_size);
 
     raw_buffer pad_opt = pad;
     pad_opt.dims = SLINKY_ALLOCA(dim, pad.rank);
     internal::copy_small_n(pad.dims, pad.rank, pad_opt.dims);
 
+    bool out_of_bounds = !src.base;
     for (std::size_t d = dst.rank; d < src.rank; ++d) {
-      if (!src.dims[d].contains(0)) {
-        // The dimensions of src that don't exist in dst are out of bounds, all of dst is padding.
-        optimize_dims(dst_opt, pad_opt);
-        copy_impl(pad_opt, dst_opt);
-        return;
-      }
+      out_of_bounds = out_of_bounds || !src.dims[d].contains(0);
+    }
+    if (out_of_bounds) {
+      // The src was sliced out of bounds, or the dimensions of src that don't exist in dst are out of bounds, all of dst
+      // is padding.
+      optimize_dims(dst_opt, pad_opt);
+      copy_impl(pad_opt, dst_opt);
+      return;
     }
 
     optimize_dims(dst_opt, src_opt, pad_opt);
-- 
2.43.0


From 76684f3859c4f76e62f2d6cad368696da5af380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:30 +0000
Subject: [PATCH 21/38] fix: an alias of a scaled copy must start at the image
 of the min of the dst

---
 slinky/builder/optimizations.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 209e2fc..51b1993 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -729,8 +729,8 @@ public:
         return;
       }
 
-      if (at.defined()) {
-        a.at[src_d] = at - src_dim.bounds.min + buffer_min(op->dst, dst_d);
+      if (at.defined() && src_d != transpose::new_dim) {
+        a.at[src_d] = substitute(a.at[src_d], op->dst_x[dst_d], buffer_min(op->dst, dst_d));
       }
 
       if (dst_d >= static_cast<int>(a.dims.size())) {
-- 
2.43.0


From fe6bf71dd5de806e9b6af99724ec97c4a441ba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:30 +0000
Subject: [PATCH 22/38] fix: aliasing a folded buffer must not change how it is
 addressed

---
 slinky/builder/optimizations.cc | 41 +++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 51b1993..a776256 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -188,6 +188,11 @@ bool is_copy_dst_dim(const copy_stmt* op, int dst_d, int& src_d) {
   return true;
 }
 
+// Returns true if a dimension with this fold factor might be folded.
+bool maybe_folded(const expr& fold_factor) {
+  return fold_factor.defined() && !is_constant(fold_factor, dim::unfolded) && !is_positive_infinity(fold_factor);
+}
+
 std::vector<expr> buffer_mins(var buf, std::size_t rank) {
   std::vector<expr> result(rank);
   for (int i = 0; i < static_cast<int>(rank); ++i) {
@@ -323,10 +328,10 @@ class copy_aliaser : public stmt_mutator {
   };
   symbol_map<buffer_info> buffers;
 
-  // Checks if `op` can safely be replaced by `alias` targeting a buffer `target` described by `target_info`.
-  // This updates some fields of `alias` from what we learn from `target_info`.
-  static bool alias_compatible(
-      const buffer_info& alloc_info, alias_info& alias, var target, const buffer_info& target_info) {
+  // Checks if the allocation `alloc` can safely be replaced by `alias` targeting a buffer `target` described by
+  // `target_info`. This updates some fields of `alias` from what we learn from `target_info`.
+  static bool alias_compatible(var alloc, const buffer_info& alloc_info, alias_info& alias, var target,
+      const buffer_info& target_info) {
     scoped_trace trace("alias_compatible");
     assert(alloc_info.dims.size() == alias.dims.size());
 
@@ -401,6 +406,8 @@ class copy_aliaser : public stmt_mutator {
     // If the target doesn't have strides, we can propagate our strides there, but we need to make sure there are no
     // contradictions when we do so. This tracks what we want the strides to be.
     std::vector<expr> target_stride(target_info.dims.size());
+    // Dimensions of the target that are folded.
+    std::vector<int> folded_at;
     for (std::size_t d = 0; d < alloc_dims.size(); ++d) {
       const dim_expr& alias_dim = alias_dims[d];
       if (!alias.assume_in_bounds) {
@@ -435,6 +442,26 @@ class copy_aliaser : public stmt_mutator {
         }
       }
 
+      if (maybe_folded(alias_dim.fold_factor)) {
+        // Folded dimensions are addressed by the index modulo the fold factor, not relative to the min. An alias of a
+        // folded dimension can't change the stride, and can only offset it by a multiple of the fold factor.
+        const int target_d = alias.permutation[d];
+        if (target_d < 0 || target_d >= static_cast<int>(alias.at.size())) return false;
+        if (!is_variable(simplify(alias.dims[d].stride), target, buffer_field::stride, target_d)) return false;
+        if (!alias.assume_in_bounds) {
+          // The fold factor of the target is not big enough if it needs to grow.
+          return false;
+        }
+        expr at = substitute_buffer(alias.at[target_d], alloc, alloc_info.elem_size, alloc_info.dims);
+        expr offset = simplify(at - alloc_info.dims[d].bounds.min);
+        if (!prove_true(offset == 0) && !prove_true(offset % alias_dim.fold_factor == 0)) return false;
+        if (!maybe_folded(alloc_dims[d].fold_factor)) {
+          // This allocation might live longer than the window of the target that the fold factor keeps alive.
+          return false;
+        }
+        folded_at.push_back(target_d);
+      }
+
       if (alloc_dims[d].fold_factor.defined()) {
         if (!alias_dim.fold_factor.defined() || is_constant(alias_dim.fold_factor, dim::unfolded)) {
           // The target isn't folded, we can alias this buffer. We lose our fold factor, but it's not going to occupy
@@ -455,6 +482,10 @@ class copy_aliaser : public stmt_mutator {
         return false;
       }
     }
+    for (int d : folded_at) {
+      // The base of a folded dimension is the address of index 0.
+      alias.at[d] = expr();
+    }
     return true;
   }
 
@@ -528,7 +559,7 @@ public:
         std::optional<buffer_info>& target_info = buffers[target_var];
         assert(target_info);
 
-        if (!alias_compatible(info, alias, target_var, *target_info)) {
+        if (!alias_compatible(op->sym, info, alias, target_var, *target_info)) {
           continue;
         }
 
-- 
2.43.0


From 476b7d1e020e0e78cab31ce4addbd43b063b5f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:30 +0000
Subject: [PATCH 23/38] fix: a copy implemented with loops must slice the
 padding too

---
 slinky/builder/optimizations.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index a776256..b2c4cab 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1342,6 +1342,7 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
   // Start by making a call to copy.
   // We're going to slice this buffer, to avoid messing with metadata in the user expressions, work on a clone instead.
   var dst = ctx.insert_unique(ctx.name(op->dst) + ".sliced");
+  var pad = op->pad.defined() ? ctx.insert_unique(ctx.name(op->pad) + ".sliced") : var();
   call_stmt::attributes copy_attrs;
   copy_attrs.name = "copy";
   stmt result = call_stmt::make(
@@ -1357,7 +1358,7 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
         impl(*src_buf, *dst_buf, *pad_buf);
         return 0;
       },
-      {}, {op->src, dst, op->pad}, {}, std::move(copy_attrs));
+      {}, {op->src, dst, pad}, {}, std::move(copy_attrs));
 
   std::vector<expr> src_x = op->src_x;
   std::vector<var> dst_x = op->dst_x;
@@ -1394,8 +1395,14 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
   for (int d = 0; d < static_cast<index_t>(dst_x.size()); ++d) {
     if (!dst_x[d].defined()) continue;
     result = slice_dim::make(dst, dst, d, dst_x[d], result);
+    if (pad.defined()) {
+      result = slice_dim::make(pad, pad, d, dst_x[d], result);
+    }
     result = loop::make(dst_x[d], loop::serial, buffer_bounds(dst, d), 1, result);
   }
+  if (pad.defined()) {
+    result = clone_buffer::make(pad, op->pad, std::move(result));
+  }
   return clone_buffer::make(dst, op->dst, std::move(result));
 }
 
-- 
2.43.0


From f3548561c9f8f49fa4d72cbef62d98d1da2476a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:30 +0000
Subject: [PATCH 24/38] fix: copies of folded dimensions must not be translated

---
 slinky/builder/optimizations.cc | 91 ++++++++++++++++++++++++++++++++-
 1 file changed, 89 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index b2c4cab..79f6760 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1337,7 +1337,9 @@ stmt fuse_siblings(const stmt& s) {
   return sibling_fuser().mutate(s);
 }
 
-stmt implement_copy(const copy_stmt* op, node_context& ctx) {
+namespace {
+
+stmt implement_copy(const copy_stmt* op, node_context& ctx, function_ref<bool(int)> src_folded) {
   scoped_trace trace("implement_copy");
   // Start by making a call to copy.
   // We're going to slice this buffer, to avoid messing with metadata in the user expressions, work on a clone instead.
@@ -1375,6 +1377,13 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
     dim_expr src_dim;
     expr at;
     if (is_copy(op, src_d, dst_d, at, src_dim)) {
+      if (src_d != transpose::new_dim && src_folded(src_d)) {
+        // Folded dimensions are addressed by the index modulo the fold factor, not relative to the min. We can only pass
+        // this dimension through to the copy if it isn't translated or scaled.
+        if (!is_variable(op->src_x[src_d], dst_x[dst_d])) continue;
+        at = expr();
+        src_x[src_d] = expr();
+      }
       src_dims.push_back(src_dim);
       if (at.defined()) {
         src_x[src_d] = at;
@@ -1406,9 +1415,87 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
   return clone_buffer::make(dst, op->dst, std::move(result));
 }
 
+class copy_implementer : public stmt_mutator {
+  node_context& ctx;
+
+  // Tracks which dimensions of the buffers in scope might be folded. Buffers from outside the pipeline are assumed not
+  // to be folded.
+  symbol_map<std::vector<bool>> folded;
+
+  bool is_folded(var buf, int d) const {
+    const std::optional<std::vector<bool>>& info = folded[buf];
+    return info && d < static_cast<int>(info->size()) && (*info)[d];
+  }
+
+  bool is_folded(const expr& fold_factor) const {
+    if (!maybe_folded(fold_factor)) return false;
+    if (const variable* v = fold_factor.as<variable>()) {
+      if (v->field == buffer_field::fold_factor) return is_folded(v->sym, v->dim);
+    } else if (const class select* s = fold_factor.as<class select>()) {
+      return is_folded(s->true_value) || is_folded(s->false_value);
+    }
+    return true;
+  }
+
+  template <typename T>
+  void visit_decl(const T* op, std::vector<bool> info) {
+    auto s = set_value_in_scope(folded, op->sym, std::move(info));
+    stmt_mutator::visit(op);
+  }
+
+  std::vector<bool> info_of(const std::vector<dim_expr>& dims) const {
+    std::vector<bool> info;
+    for (const dim_expr& d : dims) {
+      info.push_back(is_folded(d.fold_factor));
+    }
+    return info;
+  }
+
+  std::vector<bool> info_of(var buf) const { return folded[buf] ? *folded[buf] : std::vector<bool>(); }
+
+public:
+  copy_implementer(node_context& ctx) : ctx(ctx) {}
+
+  void visit(const allocate* op) override { visit_decl(op, info_of(op->dims)); }
+  void visit(const make_buffer* op) override { visit_decl(op, info_of(op->dims)); }
+  void visit(const constant_buffer* op) override { visit_decl(op, {}); }
+  void visit(const clone_buffer* op) override { visit_decl(op, info_of(op->src)); }
+  void visit(const crop_buffer* op) override { visit_decl(op, info_of(op->src)); }
+  void visit(const crop_dim* op) override { visit_decl(op, info_of(op->src)); }
+  void visit(const slice_buffer* op) override {
+    std::vector<bool> info = info_of(op->src);
+    for (int d = static_cast<int>(std::min(op->at.size(), info.size())) - 1; d >= 0; --d) {
+      if (op->at[d].defined()) info.erase(info.begin() + d);
+    }
+    visit_decl(op, std::move(info));
+  }
+  void visit(const slice_dim* op) override {
+    std::vector<bool> info = info_of(op->src);
+    if (op->dim < static_cast<int>(info.size())) info.erase(info.begin() + op->dim);
+    visit_decl(op, std::move(info));
+  }
+  void visit(const transpose* op) override {
+    std::vector<bool> info;
+    for (int d : op->dims) {
+      info.push_back(is_folded(op->src, d));
+    }
+    visit_decl(op, std::move(info));
+  }
+
+  void visit(const copy_stmt* op) override {
+    set_result(implement_copy(op, ctx, [&](int d) { return is_folded(op->src, d); }));
+  }
+};
+
+}  // namespace
+
+stmt implement_copy(const copy_stmt* op, node_context& ctx) {
+  return implement_copy(op, ctx, [](int) { return false; });
+}
+
 stmt implement_copies(const stmt& s, node_context& ctx) {
   scoped_trace trace("implement_copies");
-  return recursive_mutate<copy_stmt>(s, [&](const copy_stmt* op) { return implement_copy(op, ctx); });
+  return copy_implementer(ctx).mutate(s);
 }
 
 namespace {
-- 
2.43.0


From d032b7c64a1ae6b05fca9a5f30dfca7d5da4fb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:30 +0000
Subject: [PATCH 25/38] fix: a truncate may shadow the buffer it truncates

---
 slinky/builder/simplify.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index ff1a7e0..644dc9c 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1261,7 +1261,8 @@ public:
       buffer->src = src;
     }
     auto set_buffer = set_value_in_scope(buffers, buf, std::move(buffer));
-    assert(!vars.contains(buf));
+    // We allow truncates to shadow their source, which we might be substituting.
+    auto clear_var = set_value_in_scope(vars, buf, std::nullopt);
     return mutate(body);
   }
   // if `decl` is nullptr, the buffer will be substituted.
-- 
2.43.0


From 791acfb01819c7b8debdfba654fe0b61f353cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:21 +0000
Subject: [PATCH 26/38] fix: a failed allocation must be detected even if the
 allocator does not assign base

---
 slinky/runtime/evaluate.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index ea81cc4..b9779cb 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -591,6 +591,8 @@ public:
   // Not using SLINKY_NO_STACK_PROTECTOR here because this actually could allocate a lot of memory on the stack.
   index_t eval(const allocate* op) {
     allocated_buffer buffer;
+    // If the allocation fails, `base` will not be assigned.
+    buffer.base = nullptr;
     buffer.elem_size = eval(op->elem_size);
     std::size_t rank = op->dims.size();
     buffer.dims = SLINKY_ALLOCA(dim, rank);
-- 
2.43.0


From 2da08aded377d1dcd23891aeffbe25b12c5c6c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 27/38] fix: a buffer computed in place of one of several
 outputs may be bigger than it

---
 slinky/builder/optimizations.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 79f6760..53a6450 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1174,7 +1174,10 @@ public:
         }
 
         backward[output_alloc->root] = input_alloc->root;
-        forward[input_alloc->root] = output_alloc->root;
+        if (op->outputs.size() == 1) {
+          // If there are other outputs, the input might need to be bigger than this output.
+          forward[input_alloc->root] = output_alloc->root;
+        }
         break;
       }
     }
-- 
2.43.0


From 10e497053349acbe20147db71be994104c5b98a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:11 +0000
Subject: [PATCH 28/38] fix: substitution must reach the number of workers of a
 loop

---
 slinky/builder/substitute.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index 0a02551..fc4e0cd 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -487,15 +487,17 @@ void substitutor::visit(const let* op) { set_result(mutate_let(this, op)); }
 void substitutor::visit(const let_stmt* op) { set_result(mutate_let(this, op)); }
 
 void substitutor::visit(const loop* op) {
+  expr max_workers = mutate(op->max_workers);
   interval_expr bounds = mutate(op->bounds);
   expr step = mutate(op->step);
   var sym = enter_decl(op->sym);
   stmt body = sym.defined() ? mutate(op->body) : op->body;
   sym = sym.defined() ? sym : op->sym;
-  if (sym == op->sym && bounds.same_as(op->bounds) && step.same_as(op->step) && body.same_as(op->body)) {
+  if (sym == op->sym && max_workers.same_as(op->max_workers) && bounds.same_as(op->bounds) &&
+      step.same_as(op->step) && body.same_as(op->body)) {
     set_result(op);
   } else {
-    set_result(loop::make(sym, op->max_workers, std::move(bounds), std::move(step), std::move(body)));
+    set_result(loop::make(sym, std::move(max_workers), std::move(bounds), std::move(step), std::move(body)));
   }
   exit_decls();
 }
-- 
2.43.0


From 87ea5902eafaaa7384ecca014f488677bdf6421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:11 +0000
Subject: [PATCH 29/38] fix: loops with different numbers of workers and
 allocations with different storage must not compare equal

---
 slinky/builder/substitute.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index fc4e0cd..b4434fa 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -265,6 +265,7 @@ public:
     const loop* ls = static_cast<const loop*>(self);
 
     if (!try_match(ls->sym, op->sym)) return;
+    if (!try_match(ls->max_workers, op->max_workers)) return;
     if (!try_match(ls->bounds, op->bounds)) return;
     if (!try_match(ls->step, op->step)) return;
     if (!try_match(ls->body, op->body)) return;
@@ -308,6 +309,7 @@ public:
     assert(as);
 
     if (!try_match(as->sym, op->sym)) return;
+    if (!try_match(as->storage, op->storage)) return;
     if (!try_match(as->elem_size, op->elem_size)) return;
     if (!try_match(as->dims, op->dims)) return;
     if (!try_match(as->body, op->body)) return;
-- 
2.43.0


From 4573d29ddabc70a517ab9ecef02f4329b2bb4dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:11 +0000
Subject: [PATCH 30/38] fix: the task of an async is not in the scope of its
 symbol

---
 slinky/builder/substitute.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index b4434fa..718c52c 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -655,8 +655,9 @@ void substitutor::visit(const crop_dim* op) {
 }
 
 void substitutor::visit(const async* op) {
+  // `sym` is only in scope in the body.
+  stmt task = mutate(op->task);
   var sym = enter_decl(op->sym);
-  stmt task = sym.defined() ? mutate(op->task) : op->task;
   stmt body = sym.defined() ? mutate(op->body) : op->body;
   sym = sym.defined() ? sym : op->sym;
   if (sym == op->sym && task.same_as(op->task) && body.same_as(op->body)) {
-- 
2.43.0


From 361646fcd949a162cd83cf618ec2a6bae516099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:11 +0000
Subject: [PATCH 31/38] fix: substitution into a copy must not be stopped by
 the declarations of the copy

---
 slinky/builder/substitute.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index 718c52c..cd83ef8 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -756,11 +756,9 @@ void substitutor::visit(const copy_stmt* op) {
   bool changed = false;
   for (var& i : dst_x) {
     var new_i = enter_decl(i);
-    if (!new_i.defined()) {
-      set_result(op);
-      exit_decls(decls_entered);
-      return;
-    } else if (new_i != i) {
+    // If the declaration shadows the substitution, we can't mutate src_x (but src, dst, and pad are not in its scope).
+    if (!new_i.defined()) break;
+    if (new_i != i) {
       i = new_i;
       changed = true;
     }
-- 
2.43.0


From 07039a31e8271318a6ec371219d73ea1db18e353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:28 +0000
Subject: [PATCH 32/38] fix: do not free an allocation inside an async stmt
 that may still use it

---
 slinky/builder/optimizations.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 53a6450..87c87c0 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1551,6 +1551,8 @@ public:
   }
 
   void visit(const loop* op) override { visit_terminal(stmt(op)); }
+  // The task and the body of an async stmt can run in any order, so we can only free after both have completed.
+  void visit(const async* op) override { visit_terminal(stmt(op)); }
   void visit(const call_stmt* op) override { visit_terminal(stmt(op)); }
   void visit(const copy_stmt* op) override { visit_terminal(stmt(op)); }
   void visit(const check* op) override { visit_terminal(stmt(op)); }
-- 
2.43.0


From ba104b7f93a6bf3782528c9d24bcf87ba283dbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:24 +0000
Subject: [PATCH 33/38] fix: do not call a sliced stage on an empty crop

---
 slinky/builder/optimizations.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 87c87c0..5e6f36b 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1770,6 +1770,18 @@ public:
     }
 
     stmt result{op};
+    if (op->target) {
+      // A crop to one element may have been empty (e.g. when warming up a sliding window). The sliced buffers can't be
+      // empty, so the call can't tell that there is nothing to do, except that the outputs have no base.
+      auto target = [target = op->target](const call_stmt* op, eval_context& ctx) -> index_t {
+        bool empty = true;
+        for (var i : op->outputs) {
+          empty = empty && !ctx.lookup_buffer(i)->base;
+        }
+        return empty ? 0 : target(op, ctx);
+      };
+      result = call_stmt::make(std::move(target), op->inputs, op->outputs, op->scalars, op->attrs);
+    }
     std::set<var> sliced;
     for (var i : op->outputs) {
       if (sliced.insert(i).second) {
-- 
2.43.0


From 0dbf9391a195415ce062b2cc87adde50f20e734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:56 +0000
Subject: [PATCH 34/38] fix: a nested crop must not see more than what its
 source covers

---
 slinky/builder/simplify.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 644dc9c..e158c46 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2120,13 +2120,26 @@ public:
     return deps.buffer_output || deps.buffer_src || deps.buffer_dst || deps.buffer_bounds;
   }
 
+  // The bounds of a crop of `src`, which can only shrink the bounds of `src`.
+  static interval_expr clamp_bounds(interval_expr bounds, var src, int dim) {
+    if (bounds.min.defined()) bounds.min = max(bounds.min, buffer_min(src, dim));
+    if (bounds.max.defined()) bounds.max = min(bounds.max, buffer_max(src, dim));
+    return bounds;
+  }
+  static box_expr clamp_bounds(box_expr bounds, var src) {
+    for (std::size_t d = 0; d < bounds.size(); ++d) {
+      bounds[d] = clamp_bounds(std::move(bounds[d]), src, d);
+    }
+    return bounds;
+  }
+
   void visit_crop(const base_stmt_node* op, var op_sym, var op_src, box_expr op_bounds, stmt op_body) {
     std::optional<buffer_info> info = get_buffer_info(op_src);
 
     while (info && info->decl.defined() && info->loop_depth == 0) {
       if (const crop_buffer* c = info->decl.as<crop_buffer>()) {
         // Substitute the outer crop bounds into this crop's bounds.
-        auto c_dims = make_dims_from_bounds(c->bounds);
+        auto c_dims = make_dims_from_bounds(clamp_bounds(c->bounds, c->src));
         for (interval_expr& i : op_bounds) {
           i = substitute_buffer(i, op_src, c_dims, c->sym);
         }
@@ -2138,7 +2151,7 @@ public:
         op = nullptr;
       } else if (const crop_dim* c = info->decl.as<crop_dim>()) {
         // Substitute the outer crop bounds into this crop's bounds.
-        auto c_dims = make_dims_from_bounds(c->dim, c->bounds);
+        auto c_dims = make_dims_from_bounds(c->dim, clamp_bounds(c->bounds, c->src, c->dim));
         for (interval_expr& i : op_bounds) {
           i = substitute_buffer(i, op_src, c_dims, c->sym);
         }
-- 
2.43.0


From 52badc7e47b71aa974eca1bcf2417ffc3a31c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:57 +0000
Subject: [PATCH 35/38] fix: wake all the threads that wait for a loop

A thread that completes a loop in wait_for(task) must notify the other threads
that wait for the same loop, which are otherwise never woken up.
---
 slinky/base/thread_pool_impl.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slinky/base/thread_pool_impl.cc b/slinky/base/thread_pool_impl.cc
index 3b6fdf1..d72475c 100644
--- a/slinky/base/thread_pool_impl.cc
+++ b/slinky/base/thread_pool_impl.cc
@@ -241,7 +241,11 @@ ref_count<thread_pool::task> thread_pool_impl::enqueue(std::size_t n, task_body
 void thread_pool_impl::wait_for(task* t) {
   task_impl* task = reinterpret_cast<task_impl*>(t);
   bool completed = work_on_task(task);
-  if (!completed || !task->done()) {
+  if (completed) {
+    // We completed the loop, notify the helper CV in case another thread is also waiting for this loop to complete.
+    std::unique_lock l(mutex_);
+    cv_helper_.notify_all();
+  } else {
     // We want to spin a few times before letting the OS take over. This spinning is especially useful because we don't
     // need to lock the mutex.
     const int spin_count = 1000;
-- 
2.43.0


From fa98002fa0042f421167e89dadc0fb0b8d3015eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:59 +0000
Subject: [PATCH 36/38] fix: iterations of a pipelined loop must complete in
 order

---
 slinky/builder/slide_and_fold_storage.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 581620c..24c3921 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -700,23 +700,25 @@ public:
       return substitute(result, l.semaphores, expr());
     }
 
-    // We added synchronization in the loop, we need to allocate a buffer for the semaphores.
-    interval_expr sem_bounds = {0, stage_count - 1};
+    // We added synchronization in the loop, we need to allocate a buffer for the semaphores. There is one more semaphore
+    // than there are stages, which indicates that an iteration has completed.
+    const int sem_count = stage_count + 1;
+    interval_expr sem_bounds = {0, sem_count - 1};
 
     index_t sem_size = sizeof(index_t);
     call_stmt::attributes init_sems_attrs;
     init_sems_attrs.name = "init_semaphores";
     stmt init_sems = call_stmt::make(
-        [stage_count](const call_stmt* s, eval_context& ctx) -> index_t {
+        [sem_count](const call_stmt* s, eval_context& ctx) -> index_t {
           const buffer<index_t>& sems = *ctx.lookup_buffer<index_t>(s->outputs[0]);
           assert(sems.rank == 2);
           assert(sems.dim(0).min() == 0);
-          assert(sems.dim(0).extent() == stage_count);
+          assert(sems.dim(0).extent() == sem_count);
           memset(sems.base(), 0, sems.size_bytes());
           // Initialize the first semaphore for each stage (the one before the loop min) to 1,
           // unblocking the first iteration.
           assert(sems.dim(0).stride() == sizeof(index_t));
-          std::fill_n(&sems(0, sems.dim(1).min()), stage_count, 1);
+          std::fill_n(&sems(0, sems.dim(1).min()), sem_count, 1);
           return 0;
         },
         {}, {l.semaphores}, {}, std::move(init_sems_attrs));
@@ -774,6 +776,16 @@ public:
     const loop_info& l = loops.back();
     const int stage_count = l.sync_stages;
     expr max_workers = l.data_parallel ? op->max_workers : std::max(1, stage_count);
+    if (!l.data_parallel && stage_count > 1) {
+      // Storage folding assumes that only a window of `max_workers` iterations runs at once. The stmts following the last
+      // stage are not synchronized, so we need to avoid completing an iteration before the previous one.
+      expr i = floor_div(expr(l.sym), l.step);
+      body = block::make({
+          std::move(body),
+          check::make(semaphore_wait(buffer_at(l.semaphores, stage_count, i - 1))),
+          check::make(semaphore_signal(buffer_at(l.semaphores, stage_count, i))),
+      });
+    }
     stmt result = loop::make(op->sym, max_workers, loop_bounds, op->step, std::move(body));
 
     result = resolve_worker_count(l, max_workers, std::move(result));
-- 
2.43.0


From e14ae8d24e8487a2aab6c9f0d7a2976cb4cb52e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:59 +0000
Subject: [PATCH 37/38] fix: a failed iteration of a pipelined loop must not
 block the others

---
 slinky/runtime/evaluate.cc | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index b9779cb..e9bc161 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -70,7 +70,11 @@ class evaluator {
 public:
   eval_context& context;
 
-  evaluator(eval_context& context) : context(context) {}
+  // The result of the parallel loop we are evaluating an iteration of, if any.
+  const std::atomic<index_t>* loop_result;
+
+  evaluator(eval_context& context, const std::atomic<index_t>* loop_result = nullptr)
+      : context(context), loop_result(loop_result) {}
 
   // Assume `e` is defined, evaluate it and return the result.
   SLINKY_INLINE index_t eval(const expr& e) {
@@ -259,7 +263,13 @@ public:
       sems[i] = reinterpret_cast<index_t*>(eval(op->args[i * 2 + 0]));
       counts[i] = eval(op->args[i * 2 + 1], 1);
     }
-    context.config->thread_pool->wait_for([=]() {
+    bool cancelled = false;
+    context.config->thread_pool->wait_for([=, &cancelled]() {
+      if (loop_result && *loop_result != 0) {
+        // An iteration of this loop failed, it might never signal the semaphores we are waiting for.
+        cancelled = true;
+        return true;
+      }
       // Check we can acquire all of the semaphores before acquiring any of them.
       for (std::size_t i = 0; i < sem_count; ++i) {
         if (*sems[i] < counts[i]) return false;
@@ -270,7 +280,7 @@ public:
       }
       return true;
     });
-    return 1;
+    return cancelled ? 0 : 1;
   }
 
   index_t eval_trace_begin(const call* op) {
@@ -491,10 +501,13 @@ public:
 
         context.set(state.sym, i * state.step + state.min);
         // Evaluate the parallel loop body with our copy of the context.
-        index_t result_i = evaluate(state.body, context);
+        index_t result_i = evaluator(context, &state.result).eval(state.body);
         if (result_i != 0) {
-          index_t zero = 0;
-          state.result.compare_exchange_strong(zero, result_i);
+          // Other iterations might be waiting for a semaphore that this iteration will not signal now, wake them.
+          context.config->thread_pool->atomic_call([&]() {
+            index_t zero = 0;
+            state.result.compare_exchange_strong(zero, result_i);
+          });
         }
       };
 
@@ -909,6 +922,8 @@ public:
 
   index_t eval(const check* op) {
     if (!eval(op->condition)) {
+      // A semaphore_wait is false if an iteration of the loop failed.
+      if (as_intrinsic(op->condition, intrinsic::semaphore_wait)) return *loop_result;
       return check_failed(op);
     } else {
       return 0;
-- 
2.43.0


From 43205bbd23f3788877b54c9b8c6afa7f71619bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:31 +0000
Subject: [PATCH 38/38] fix: the last part of a pipelined loop may need the
 previous iteration

---
 slinky/builder/slide_and_fold_storage.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 24c3921..c92485b 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -225,13 +225,19 @@ public:
     // synchronization, and the value indicates which stage it is.
     std::optional<int> stage;
 
+    // Indicates that the rest of the loop body needs to wait for the previous iteration, and that it already does.
+    bool needs_tail = false;
+    bool has_tail = false;
+
     // Unique loop ID.
     int loop_id = -1;
 
     bool add_synchronization() {
       if (prove_true(sync_stages + 1 >= max_workers)) {
         // It's pointless to add more stages to the loop, because we can't run then in parallel anyways, it would just
-        // add more synchronization overhead.
+        // add more synchronization overhead. We only need to run the rest of the loop body after the rest of the
+        // previous iteration.
+        if (!stage) needs_tail = true;
         return false;
       }
 
@@ -281,6 +287,13 @@ public:
           check::make(semaphore_signal(buffer_at(l.semaphores, *l.stage, floor_div(expr(l.sym), l.step)))),
       });
       l.stage = std::nullopt;
+    } else if (l.needs_tail && !l.has_tail) {
+      // There are no more stages, but the rest of this iteration needs the previous iteration to be complete.
+      result = block::make({
+          check::make(semaphore_wait(buffer_at(l.semaphores, l.sync_stages, floor_div(expr(l.sym), l.step) - 1))),
+          result,
+      });
+      l.has_tail = true;
     }
 
     return result;
@@ -778,11 +791,11 @@ public:
     expr max_workers = l.data_parallel ? op->max_workers : std::max(1, stage_count);
     if (!l.data_parallel && stage_count > 1) {
       // Storage folding assumes that only a window of `max_workers` iterations runs at once. The stmts following the last
-      // stage are not synchronized, so we need to avoid completing an iteration before the previous one.
+      // stage might not be synchronized, so we need to avoid completing an iteration before the previous one.
       expr i = floor_div(expr(l.sym), l.step);
       body = block::make({
           std::move(body),
-          check::make(semaphore_wait(buffer_at(l.semaphores, stage_count, i - 1))),
+          l.has_tail ? stmt() : check::make(semaphore_wait(buffer_at(l.semaphores, stage_count, i - 1))),
           check::make(semaphore_signal(buffer_at(l.semaphores, stage_count, i))),
       });
     }
-- 
2.43.0

