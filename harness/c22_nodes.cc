// Expressions and statements: nothing is used after it was freed, and nothing is leaked.
#include "slinky/runtime/expr.h"
#include "slinky/runtime/stmt.h"
#include "slinky/builder/substitute.h"
#include "sx.h"
#include <utility>
using namespace slinky;

static const var X(0);
static long value(const expr& e) {
  if (!e.defined()) return -1;
  if (auto c = e.as<constant>()) return c->value;
  if (auto a = e.as<add>()) return value(a->a) + value(a->b);
  if (auto a = e.as<mul>()) return value(a->a) * value(a->b);
  if (auto n = e.as<logical_not>()) return -2;
  return -3;
}
SX_HARNESS(expressions, "dropped") {
  long before = sx_live_allocs();
  {
    expr e[3];
    long v[3] = {-1, -1, -1};
    int steps = sx_thorough() ? 4 : 3;
    for (int k = 0; k < steps; ++k) {
      int op = sx_pick("op", 9), a = sx_pick("a", 3), b = op == 0 || op > 6 ? a : sx_pick("b", 3);
      bool both = e[a].defined() && e[b].defined();
      switch (op) {
      case 0: {
        std::int64_t c = sx_int("value", 2, 50);
        e[a] = expr(c), v[a] = c;
        break;
      }
      case 1: e[a] = e[b], v[a] = v[b]; break;
      case 2:
        if (a == b) sx_stop();
        e[a] = std::move(e[b]), v[a] = v[b], v[b] = -1;
        break;
      case 3: std::swap(e[a], e[b]), std::swap(v[a], v[b]); break;
      case 4: if (!both) sx_stop(); e[a] = e[a] + e[b], v[a] = v[a] + v[b]; break;
      case 5: if (!both) sx_stop(); e[a] += e[b], v[a] = v[a] + v[b]; break;
      case 6: if (!both) sx_stop(); e[a] *= e[b], v[a] = v[a] * v[b]; break;
      case 7: {  // Its own operand.
        auto n = e[a].as<add>();
        if (!n) sx_stop();
        long w = value(n->b);
        e[a] = n->b, v[a] = w;
        break;
      }
      default: e[a] = expr(), v[a] = -1; break;
      }
      for (int i = 0; i < 3; ++i) sx_assert_msg(value(e[i]) == v[i], "an expression has changed");
    }
  }
  sx_assert_msg(sx_live_allocs() == before, "an expression is not freed");
  sx_cover("dropped");
}
static int depth(const stmt& s) {
  if (auto b = s.as<block>()) {
    int n = 0;
    for (const stmt& i : b->stmts) n += depth(i);
    return n;
  }
  if (auto l = s.as<let_stmt>()) return 10 + depth(l->body);
  if (auto c = s.as<check>()) return 1;
  if (auto l = s.as<loop>()) return 100 + depth(l->body);
  if (auto c = s.as<constant_buffer>()) return 1000 + depth(c->body);
  return 0;
}
SX_HARNESS(statements, "dropped") {
  long before = sx_live_allocs();
  {
    int buffer_alive = 0;
    struct noting {
      int* n;
      void operator()(const raw_buffer* b) const {
        --*n;
        delete b;
      }
    };
    const_raw_buffer_ptr buf(new raw_buffer(), noting{&buffer_alive});
    buffer_alive = 1;
    stmt s[3];
    int steps = sx_thorough() ? 4 : 3;
    for (int k = 0; k < steps; ++k) {
      int op = sx_pick("op", 8), a = sx_pick("a", 3), b = op == 0 || op == 5 || op == 7 ? a : sx_pick("b", 3);
      int va = depth(s[a]), vb = depth(s[b]);
      bool both = s[a].defined() && s[b].defined();
      switch (op) {
      case 0: s[a] = check::make(expr(X) < 3); sx_assert(depth(s[a]) == 1); break;
      case 1: s[a] = s[b]; sx_assert(depth(s[a]) == vb); break;
      case 2:
        if (a == b) sx_stop();
        s[a] = std::move(s[b]);
        sx_assert(depth(s[a]) == vb && !s[b].defined());
        break;
      case 3: if (!both) sx_stop(); s[a] = block::make({s[a], s[b]}); sx_assert(depth(s[a]) == va + vb); break;
      case 4: if (!both) sx_stop(); s[a] = let_stmt::make(var(1), 2, s[b]); sx_assert(depth(s[a]) == 10 + vb); break;
      case 5: if (!both) sx_stop(); s[a] = loop::make(var(2), loop::serial, bounds(0, 1), 1, s[a]); sx_assert(depth(s[a]) == 100 + va); break;
      case 6: if (!both) sx_stop(); s[a] = constant_buffer::make(var(3), buf, s[b]); sx_assert(depth(s[a]) == 1000 + vb); break;
      default: {
        // The body replaces it.
        if (auto l = s[a].as<let_stmt>()) s[a] = l->body;
        else if (auto l = s[a].as<loop>()) s[a] = l->body;
        else if (auto l = s[a].as<constant_buffer>()) s[a] = l->body;
        else s[a] = stmt();
        break;
      }
      }
    }
    bool held = false;
    for (int i = 0; i < 3; ++i) held |= depth(s[i]) >= 1000;
    buf = nullptr;
    sx_assert_msg(!held || buffer_alive == 1, "a constant buffer is freed while a statement refers to it");
    for (int i = 0; i < 3; ++i) s[i] = stmt();
    sx_assert_msg(buffer_alive == 0, "a constant buffer is not freed");
  }
  sx_assert_msg(sx_live_allocs() == before, "a statement is not freed");
  sx_cover("dropped");
}
