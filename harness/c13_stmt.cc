// Running statement programs: scoping, loops, failures, allocation.
#include "stmtgen.h"
using namespace slinky;

static void test(int depth, bool shadows, bool parallel, int outer_lo, int outer_hi, bool failures) {
  recorder got, want;
  rec = &got;
  gen g;
  g.shadows = shadows, g.parallel = parallel, g.lite = (depth > 1 || parallel) && !sx_thorough();
  g.outer_lo = outer_lo, g.outer_hi = outer_hi;
  stmt s = g.scope(depth);
  // The inputs.
  shape sa, sb;
  long x = sx_int("x", g.lite ? -1 : -2, g.lite ? 2 : 3), y = sx_int("y", g.lite ? -1 : -2, g.lite ? 2 : 4);
  bool folded = depth > 1 || sx_pick("folded", 2);
  long am = sx_int("min", -2, 2), bm = g.lite ? -1 : sx_int("min", -2, 2), cm = g.lite ? 1 : sx_int("min", -2, 2);
  sa.dims = {dim(am, am + (g.lite ? 3 : sx_int("extent", 0, 4)) - 1, 4), dim(bm, bm + (g.lite ? 2 : sx_int("extent", 1, 3)) - 1, 64, folded ? 2 : dim::unfolded)};
  sb.dims = {dim(cm, cm + (g.lite ? 2 : sx_int("extent", 1, 4)) - 1, 12)};
  shape ta = sa, tb = sb;
  raw_buffer a = ta.raw((void*)0x1000000, 4), b = tb.raw((void*)0x2000000, 4);
  got.fail_at = want.fail_at = failures ? sx_int("fail_at", 0, 4) : -1;
  got.code = want.code = failures ? sx_int("code", -2, 2) : 0;
  if (failures) sx_assume(got.code != 0);
  // Where allocations are.
  std::vector<char*> memory;
  for (long i = 0; i < 64; ++i) memory.push_back((char*)(0x4000000 + i * 0x10000));
  std::size_t allocs = 0;
  std::vector<long> freed(memory.size(), 0);
  long bad_free = 0;
  eval_config config;
  inline_pool pool;
  config.thread_pool = parallel || depth > 1 || sx_pick("pool", 2) ? &pool : nullptr;
  config.allocate = [&](var, raw_buffer* buf) -> void* {
    sx_assert(allocs < memory.size());
    interpreter::dense(buf->dims, buf->rank, buf->elem_size);
    buf->base = memory[allocs++];
    return buf->base;
  };
  config.free = [&](var, raw_buffer*, void* p) {
    long i = sx_concretize(((long)p - 0x4000000) / 0x10000);
    if (i < 0 || i >= (long)allocs || freed[i]++) ++bad_free;
  };
  config.check_failed = [&](const expr&) { ++got.checks_failed; };
  config.call_failed = [&](const call_stmt* op) {
    sx_assert(op != nullptr);
    ++got.failed;
  };
  eval_context ctx;
  ctx.config = &config;
  ctx.reserve(24);
  for (int i = 0; i < 24; ++i) ctx[var(i)] = 777 + i;
  ctx[A] = (index_t)&a, ctx[B] = (index_t)&b, ctx[X] = x, ctx[Y] = y;
  long r = evaluate(s, ctx);
  interpreter in;
  in.rec = &want;
  in.memory = memory;
  interpreter::env e(24);
  bufval va, vb;
  va.base = (char*)0x1000000, va.elem_size = 4, va.dims = sa.dims;
  vb.base = (char*)0x2000000, vb.elem_size = 4, vb.dims = sb.dims;
  e[A.id] = interpreter::buf(va), e[B.id] = interpreter::buf(vb), e[X.id] = interpreter::value(x), e[Y.id] = interpreter::value(y);
  long w = in.run(s, e);
  sx_cover("ran");
  if (w && failures) sx_cover("failed");
  sx_assert_msg(r == w, "the result is not that of the first failure");
  sx_assert_msg(got.failed == want.failed && got.checks_failed == want.checks_failed, "a failure was not reported exactly once");
  sx_assert_msg(got.log.size() == want.log.size(), "different calls");
  if (got.log.size() != want.log.size()) return;
  bool same = true;
  for (std::size_t i = 0; i < got.log.size(); ++i) same &= got.log[i] == want.log[i];
  sx_assert_msg(same, "a call saw different buffers or values");
  bool ok = allocs == in.allocated && !bad_free;
  for (std::size_t i = 0; i < allocs; ++i) ok &= freed[i] == 1;
  sx_assert_msg(ok, "an allocation was not released exactly once");
  bool restored = ctx[A] == (index_t)&a && ctx[B] == (index_t)&b && ctx[X] == x && ctx[Y] == y;
  for (int i = 4; i < 24; ++i) restored &= ctx[var(i)] == 777 + i;
  sx_assert_msg(restored, "a variable was not restored");
  restored = a.base == (void*)0x1000000 && b.base == (void*)0x2000000 && a.rank == 2 && b.rank == 1 && a.elem_size == 4 && b.elem_size == 4;
  for (int d = 0; d < 2; ++d) restored &= ta.dims[d] == sa.dims[d];
  restored &= tb.dims[0] == sb.dims[0];
  sx_assert_msg(restored, "a buffer was not restored");
}
SX_HARNESS(one_scope, "ran") { test(1, true, false, 0, gen::KINDS, false); }
SX_HARNESS(one_scope_failing, "ran failed") { test(1, false, false, 0, gen::KINDS, true); }
SX_HARNESS(parallel_loop, "ran failed") { test(sx_thorough() ? 2 : 1, true, true, gen::LOOP, gen::LOOP + 1, true); }
SX_HARNESS(nested_crops, "ran") { test(2, true, false, 0, gen::SLICE_BUFFER, false); }
SX_HARNESS(nested_slices, "ran") { test(2, true, false, gen::SLICE_BUFFER, gen::CLONE, false); }
SX_HARNESS(nested_values, "ran") { test(2, true, false, gen::CLONE, gen::MAKE, false); }
SX_HARNESS(nested_buffers, "ran") { test(2, true, false, gen::MAKE, gen::KINDS, false); }
SX_HARNESS(nested_failing, "ran failed") { test(2, false, false, 0, gen::KINDS, true); }
