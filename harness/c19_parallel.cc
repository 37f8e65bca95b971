// Pipelines with parallel and pipelined loops, and tasks, under every schedule of the threads of the pool.
#include "scheduler.h"
#include "schedules.h"
#include "slinky/builder/optimizations.h"
#include "stmtgen.h"
using namespace slinky;

thread_pool* make_scheduled_pool(int workers);

#define T sx_thorough()
// The loops of the last stage: some of them run in parallel.
static void pick_parallel_loops(built& b, int s, int rank) {
  std::vector<func::loop_info> l;
  int which = rank == 1 ? 0 : sx_pick("loops", 3);  // The outer one, the inner one, both.
  auto workers = [&]() -> expr {
    int k = sx_pick("max_workers", 3);
    return k == 0 ? expr(loop::parallel) : expr((std::int64_t)k + 1);
  };
  // The first is the innermost.
  if (rank > 1) {
    expr step = (std::int64_t)sx_pick_range("step_x", 1, 2);
    l.push_back({b.dim_var(0), step, which >= 1 ? workers() : expr(loop::serial)});
  }
  expr step = (std::int64_t)sx_pick_range("step", 1, 2);
  l.push_back({b.dim_var(rank - 1), step, which != 1 ? workers() : expr(loop::serial)});
  b.funcs[s].loops(l);
}
static void test(const graph& g, int places, long emin, long emax, int preempt, int fail = 0) {
  built b;
  b.make(g);
  b.min_lo = -2, b.min_hi = 5;
  int last = g.stages.size() - 1;
  pick_parallel_loops(b, last, g.rank[g.stages[last].out[0]]);
  std::vector<bool> root(g.rank.size());
  for (int s = last - 1; s >= 0; --s) {
    bool r = false;
    for (int o : g.stages[s].out) r = r || root[o];
    if (pick_place(b, s, last, places, r) || r)
      for (const access& a : g.stages[s].in) root[a.buf] = true;
  }
  b.build();
  if (fail) {
    b.state.fail_at = sx_pick("fail_at", fail);
    b.state.code = 3;
  }
  int workers = 1 + sx_pick("workers", 2);
  sched::preemptions = 0;
  b.pool = make_scheduled_pool(workers);
  b.at_call = [] { sched::point(); };
  sched::preemptions = preempt;
  run(b, emin, emax);
  sched::preemptions = 0;
  delete b.pool;
}
SX_HARNESS(pointwise_1d, "ran") { test(stencil_chain(1, 1), 6, 2, T ? 5 : 4, T ? 2 : 1); }
SX_HARNESS(stencils_1d, "ran") { test(stencil_chain(1, 2), 6, T ? 2 : 3, 4, 1); }
SX_HARNESS(stencil_2d, "ran") { test(stencil_chain(2, 1), 6, 2, T ? 3 : 2, 1); }
SX_HARNESS(diamond_1d, "ran") { test(diamond(1), T ? 6 : 5, 3, T ? 4 : 3, 1); }
SX_HARNESS(two_outputs_1d, "ran") { test(two_outputs(), T ? 6 : 5, 2, T ? 3 : 2, 1); }
SX_HARNESS(failing, "ran failed") { test(stencil_chain(1, 1), 6, 3, T ? 4 : 3, 1, T ? 8 : 5); }

// ---- parallelize_tasks ----

namespace {
struct task_program {
  node_context ctx;
  static constexpr int N = 4;
  var b[N] = {var(ctx, "a"), var(ctx, "b"), var(ctx, "c"), var(ctx, "d")};
  var t{ctx, "t"}, c{ctx, "c"}, i{ctx, "i"};
  int calls = 0, fail_at = -1;
  // Reads all of its inputs and writes all of its output.
  stmt call(std::vector<var> in, var out) {
    int n = ++calls;
    call_stmt::attributes attrs;
    attrs.name = "call" + std::to_string(n);
    return call_stmt::make(
        [n, this](const call_stmt* op, eval_context& ctx) -> index_t {
          sched::point();
          if (n == fail_at) return 7;
          long r = n;
          for (var v : op->inputs) {
            const buffer<long>& x = *ctx.lookup_buffer<long>(v);
            for (index_t k = x.dim(0).min(); k <= x.dim(0).max(); ++k) r += (k + 3) * x(k);
          }
          const buffer<long>& x = *ctx.lookup_buffer<long>(op->outputs[0]);
          for (index_t k = x.dim(0).min(); k <= x.dim(0).max(); ++k) x(k) = r + k;
          return 0;
        },
        in, {out}, {}, std::move(attrs));
  }
  stmt generate(int kinds) {
    int k = sx_pick("kind", kinds);
    var in = b[sx_pick("in", N)], out = b[sx_pick("out", N)];
    switch (k) {
    case 0: return call({in}, out);
    case 1: return crop_dim::make(c, out, 0, point((std::int64_t)sx_pick("at", 2)), call({in}, c));
    case 2: return allocate::make(t, memory_type::heap, sizeof(long), {{{0, 1}, (std::int64_t)sizeof(long), expr()}}, block::make({call({in}, t), call({t}, out)}));
    case 3: return call({in, b[sx_pick("in2", N)]}, out);
    case 4: return clone_buffer::make(c, in, call({c}, out));
    case 5: return block::make({check::make(buffer_min(in, 0) < buffer_max(out, 0)), call({in}, out)});
    default:
      sx_assume(in != out);
      return loop::make(i, sx_pick("parallel", 2) ? expr(loop::parallel) : expr(loop::serial), {0, 1}, 1, crop_dim::make(c, out, 0, point(i), call({in}, c)));
    }
  }
};
struct task_data {
  long values[task_program::N][2];
  buffer<long, 1> bufs[task_program::N];
  index_t run(task_program& p, const stmt& s, eval_config& config) {
    eval_context ctx;
    ctx.config = &config;
    for (int k = 0; k < p.N; ++k) {
      bufs[k].rank = 1;
      bufs[k].elem_size = sizeof(long);
      bufs[k].raw_buffer::dims[0] = dim(0, 1, sizeof(long));
      bufs[k].raw_buffer::base = values[k];
      ctx[p.b[k]] = reinterpret_cast<index_t>(&bufs[k]);
    }
    return evaluate(s, ctx);
  }
};
struct async_counter : recursive_node_visitor {
  int n = 0;
  void visit(const async* op) override { ++n, recursive_node_visitor::visit(op); }
};
}  // namespace

static void test_tasks(int n, int kinds, int preempt, bool fail) {
  task_program p;
  std::vector<stmt> stmts;
  for (int k = 0; k < n; ++k) stmts.push_back(p.generate(kinds));
  stmt s = block::make(stmts);
  if (fail) p.fail_at = 1 + sx_pick("fail_at", p.calls);
  task_data serial, parallel;
  for (int k = 0; k < p.N; ++k)
    for (int j = 0; j < 2; ++j) serial.values[k][j] = parallel.values[k][j] = sx_int("element", -100, 100);
  eval_config config;
  int failed = 0;
  config.call_failed = [&](const call_stmt*) { ++failed; };
  sched::preemptions = 0;
  inline_pool on_this_thread;
  config.thread_pool = &on_this_thread;
  index_t want = serial.run(p, s, config);
  stmt t = parallelize_tasks(s);
  show("stmt", s, &p.ctx);
  show("tasks", t, &p.ctx);
  async_counter a;
  t.accept(&a);
  if (a.n) sx_cover("async");
  config.thread_pool = make_scheduled_pool(1 + sx_pick("workers", 2));
  sched::preemptions = preempt;
  index_t got = parallel.run(p, t, config);
  sched::preemptions = 0;
  delete config.thread_pool;
  sx_assert_msg(got == want, "tasks run in parallel give another result");
  if (want) {
    sx_cover("failed");
    return;
  }
  for (int k = 0; k < p.N; ++k)
    for (int j = 0; j < 2; ++j) sx_assert_msg(serial.values[k][j] == parallel.values[k][j], "tasks run in parallel compute other values");
  sx_cover("ran");
}
SX_HARNESS(tasks, "ran async") { test_tasks(3, 1, T ? 2 : 1, false); }
SX_HARNESS(tasks_kinds, "ran async") { test_tasks(T ? 3 : 2, 7, 1, false); }
SX_HARNESS(tasks_failing, "failed async") { test_tasks(T ? 3 : 2, 7, 1, true); }
