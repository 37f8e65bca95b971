// Every rewrite rule of simplify_rules.h, applied by the real rewriter to the expression its pattern describes, with
// symbolic constants and variable values.
#pragma once
#include "slinky/builder/rewrite.h"
#include "slinky/builder/simplify.h"
#include "slinky/builder/simplify_rules.h"
#include "slinky/runtime/evaluate.h"
#include "sx.h"

namespace slinky {
namespace rewrite {
// Pattern -> expression, without any simplification on the way.
static index_t build(index_t p, const match_context&) { return p; }
template <int N> static expr_ref build(const pattern_wildcard<N>&, const match_context& c) { return c.vars[N]; }
template <int N> static index_t build(const pattern_constant<N>&, const match_context& c) { return c.constants[N]; }
template <typename A, index_t D> static auto build(const pattern_optional<A, D>& p, const match_context& c) { return build(p.a, c); }
template <typename T, typename A, typename B> static expr build(const pattern_binary<T, A, B>& p, const match_context& c) {
  return make_binary<T>(expr(build(p.a, c)), expr(build(p.b, c)));
}
template <typename T, typename A> static expr build(const pattern_unary<T, A>& p, const match_context& c) { return make_unary<T>(expr(build(p.a, c))); }
template <typename C, typename T, typename F> static expr build(const pattern_select<C, T, F>& p, const match_context& c) {
  return select::make(build(p.c, c), build(p.t, c), build(p.f, c));
}
static expr build(const pattern_call<>& p, const match_context& c) { return call::make(p.fn, {}); }
template <typename A> static expr build(const pattern_call<A>& p, const match_context& c) { return call::make(p.fn, {build(std::get<0>(p.args), c)}); }
template <typename A, typename B> static expr build(const pattern_call<A, B>& p, const match_context& c) {
  return call::make(p.fn, {build(std::get<0>(p.args), c), build(std::get<1>(p.args), c)});
}
template <typename X, typename A, typename B, typename C> static expr build(const pattern_staircase<X, A, B, C>& p, const match_context& m) {
  expr x = build(p.x, m);
  index_t a = build(p.a, m), b = build(p.b, m), c = build(p.c, m);
  if (a != 0) x = add::make(x, a);
  if (b != 1) x = div::make(x, b);
  if (c != 1) x = mul::make(x, c);
  return x;
}

// all: every constant in the pattern. mul: the constants that multiply or divide something.
template <typename T> struct info { static constexpr int all = 0, mul = 0; static constexpr bool pred = false, inf = false, nonlin = false; };
template <typename... Ts> struct merge {
  static constexpr int all = (0 | ... | info<Ts>::all), mul = (0 | ... | info<Ts>::mul);
  static constexpr bool pred = (false || ... || info<Ts>::pred), inf = (false || ... || info<Ts>::inf), nonlin = (false || ... || info<Ts>::nonlin);
};
template <int N> struct info<pattern_constant<N>> { static constexpr int all = 1 << N, mul = 0; static constexpr bool pred = false, inf = false, nonlin = false; };
template <typename A, index_t D> struct info<pattern_optional<A, D>> : info<A> {};
// The constants of an operand that is itself a constant: they scale the other operand.
template <typename T> struct scal { static constexpr int v = pattern_info<T>::type == expr_node_type::constant ? info<T>::all : 0; };
template <typename T, typename A, typename B> struct info<pattern_binary<T, A, B>> : merge<A, B> {
  static constexpr bool m = T::static_type == expr_node_type::mul || T::static_type == expr_node_type::div || T::static_type == expr_node_type::mod;
  static constexpr int mul = merge<A, B>::mul | (m ? scal<A>::v | scal<B>::v : 0);
  static constexpr bool nonlin = m || merge<A, B>::nonlin;
};
template <typename T, typename A> struct info<pattern_unary<T, A>> : info<A> {};
template <typename A, typename B, typename C> struct info<pattern_select<A, B, C>> : merge<A, B, C> {};
template <typename... A> struct info<pattern_call<A...>> : merge<A...> { static constexpr bool inf = sizeof...(A) == 0; };
template <typename X, typename A, typename B, typename C> struct info<pattern_staircase<X, A, B, C>> : merge<X, A, B, C> {
  static constexpr int mul = info<X>::mul | info<B>::all | info<C>::all;
  static constexpr bool nonlin = true;
};
template <typename T, typename F> struct info<replacement_predicate<T, F>> : info<T> { static constexpr bool pred = true; };
template <typename T> struct info<replacement_eval<T>> : info<T> {};
template <typename T> struct info<replacement_boolean<T>> : info<T> {};
template <typename A1, typename B1, typename C1, typename A2, typename B2, typename C2> struct info<replacement_staircase_sum_bound<A1, B1, C1, A2, B2, C2>> {
  static constexpr int all = merge<A1, B1, C1, A2, B2, C2>::all, mul = merge<A1, B1, C1, A2, B2, C2>::all;
  static constexpr bool pred = false, inf = false, nonlin = false;
};
}  // namespace rewrite

static constexpr int kVars = rewrite::symbol_count;
struct rule_env {
  rewrite::match_context m;
  expr exprs[kVars];
  int target;  // The rule to check; -1 counts the rules.
  bool full;   // Apply all of simplify, not just the rule.
  int count = 0;
};
// Binds the wildcards and constants.
static void bind(rule_env& e, int all, int mul, bool pred) {
  int nm = __builtin_popcount(mul);
  bool t = sx_thorough();
  // The quick tier explores fewer multipliers and divisors, especially through the whole simplifier.
  long lo, hi;
  if (nm <= 1) lo = t ? -12 : e.full ? -3 : -6, hi = t ? 12 : e.full ? 4 : 8;
  else if (nm == 2) lo = t ? -6 : -2, hi = t ? 8 : e.full ? 2 : 3;
  else if (nm == 3) lo = t ? -3 : e.full ? -1 : -2, hi = t ? 4 : 2;
  else lo = -2, hi = 3;
  static const char* cn[] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6"};
  long A = nm > 3 ? (t ? 6 : 3) : nm ? (t ? 30 : 12) : 1000;
  static const int few[] = {1, 2, -1};
  for (int i = 0; i < rewrite::constant_count; ++i) {
    if (!(all >> i & 1)) e.m.constants[i] = 0;
    else if ((mul >> i & 1) && nm > 3 && !t) {
      // The first constant of a staircase is an offset, the other two a divisor and a multiplier.
      if (i % 3 == 0) e.m.constants[i] = sx_pick_range(cn[i], 0, 1);
      else e.m.constants[i] = few[sx_pick(cn[i], e.full ? 2 : 2 + (i < 3))];
    } else if (mul >> i & 1) e.m.constants[i] = sx_pick_range(cn[i], lo, hi);
    else e.m.constants[i] = sx_int(cn[i], -A, A);
  }
  // Wildcards are variables, or conditions and constants where a predicate of the rule asks about them.
  int kind = pred ? sx_pick("kind", 5) : 0;
  for (int i = 0; i < kVars; ++i) {
    expr v = variable::make(var(i));
    bool b = kind == 1 || (kind == 2 && i % 2 == 0) || (kind == 3 && i % 2 == 1);
    if (b) v = v < expr(variable::make(var(kVars)));
    else if (kind == 4 && i != 0) v = constant::make(sx_int("w", -3, 3));
    e.exprs[i] = v;
    e.m.vars[i] = e.exprs[i].get();
  }
}
static void compare(const expr& lhs, const expr& rhs, bool mul, const char* msg) {
  eval_context ctx;
  eval_config config;
  ctx.config = &config;
  long X = mul ? (sx_thorough() ? 120 : 40) : 1000;
  for (int i = 0; i <= kVars; ++i) ctx[var(i)] = sx_int("x", -X, X);
  index_t a = evaluate(lhs, ctx), b = evaluate(rhs, ctx);
  sx_observe(a);
  sx_observe(b);
  sx_assert_msg(a == b, msg);
}
struct rule_check {
  rule_env* e;
  template <typename P, typename... R>
  bool operator()(const P& p, const R&... r) const {
    using namespace rewrite;
    int i = e->count++;
    if (i != e->target) return false;
    check(p, r...);
    return true;
  }
  template <typename P, typename... R>
  void __attribute__((noinline)) check(const P& p, const R&... r) const {
    using namespace rewrite;
    // Infinities have no value to compare.
    if (info<P>::inf || merge<R...>::inf) return;
    constexpr int all = info<P>::all;
    constexpr int mul = (info<P>::mul | merge<R...>::mul) & all;
    constexpr bool nonlinear = info<P>::nonlin || merge<R...>::nonlin;
    bind(*e, all, mul, merge<R...>::pred);
    expr lhs = build(p, e->m);
    if (e->full) {
      expr s = slinky::simplify(lhs);
      sx_cover("checked");
      compare(lhs, s, nonlinear, "simplify changes the value");
    } else {
      rewriter rw(lhs);
      if (rw(p, r...)) {
        sx_cover("checked");
        compare(lhs, rw.result, nonlinear, "rewrite rule changes the value");
      }
    }
  }
};
}  // namespace slinky

#define RULES(NAME, FN, FULL)                 \
  SX_HARNESS(NAME, "checked") {               \
    rule_env n;                               \
    n.target = -1;                            \
    FN(rule_check{&n});                       \
    rule_env e;                               \
    e.full = FULL;                            \
    e.target = sx_pick("rule", n.count);      \
    FN(rule_check{&e});                       \
  }
