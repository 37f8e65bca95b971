// Extended integers and intervals that contain a value.
#pragma once
#include "exprs.h"
#include "slinky/builder/simplify.h"

namespace slinky {

// Values of the extended integers: inf is -1 or 1 for an infinity, and ok is false if the value is not defined (oo - oo).
struct ext {
  int inf;
  long v;
  bool ok;
};
static inline bool has_infinity(const expr& e) {
  if (is_infinity(e)) return true;
  if (auto o = e.as<add>()) return has_infinity(o->a) || has_infinity(o->b);
  if (auto o = e.as<sub>()) return has_infinity(o->a) || has_infinity(o->b);
  if (auto o = e.as<mul>()) return has_infinity(o->a) || has_infinity(o->b);
  if (auto o = e.as<slinky::div>()) return has_infinity(o->a) || has_infinity(o->b);
  if (auto o = e.as<mod>()) return has_infinity(o->a) || has_infinity(o->b);
  if (auto o = e.as<class min>()) return has_infinity(o->a) || has_infinity(o->b);
  if (auto o = e.as<class max>()) return has_infinity(o->a) || has_infinity(o->b);
  if (auto o = e.as<less>()) return has_infinity(o->a) || has_infinity(o->b);
  if (auto o = e.as<less_equal>()) return has_infinity(o->a) || has_infinity(o->b);
  if (auto o = e.as<equal>()) return has_infinity(o->a) || has_infinity(o->b);
  if (auto o = e.as<not_equal>()) return has_infinity(o->a) || has_infinity(o->b);
  if (auto o = e.as<logical_and>()) return has_infinity(o->a) || has_infinity(o->b);
  if (auto o = e.as<logical_or>()) return has_infinity(o->a) || has_infinity(o->b);
  if (auto o = e.as<logical_not>()) return has_infinity(o->a);
  if (auto o = e.as<class select>()) return has_infinity(o->condition) || has_infinity(o->true_value) || has_infinity(o->false_value);
  if (auto o = e.as<call>())
    for (const expr& i : o->args)
      if (has_infinity(i)) return true;
  if (auto o = e.as<let>()) {
    for (const auto& i : o->lets)
      if (has_infinity(i.second)) return true;
    return has_infinity(o->body);
  }
  return false;
}
static inline int cmp(const ext& a, const ext& b) { return a.inf != b.inf ? (a.inf < b.inf ? -1 : 1) : a.inf ? 0 : a.v < b.v ? -1 : a.v > b.v; }
static inline ext value(const expr& e, eval_context& ctx) {
  if (is_positive_infinity(e)) return {1, 0, true};
  if (is_negative_infinity(e)) return {-1, 0, true};
  if (is_indeterminate(e)) return {0, 0, false};
  if (!has_infinity(e)) return {0, evaluate(e, ctx), true};
  if (e.as<add>() || e.as<sub>()) {
    auto o = static_cast<const binary_op*>(e.get());
    ext a = value(o->a, ctx), b = value(o->b, ctx);
    if (e.as<sub>()) b.inf = -b.inf, b.v = -b.v;
    if (!a.ok || !b.ok || a.inf * b.inf < 0) return {0, 0, false};
    return {a.inf ? a.inf : b.inf, a.v + b.v, true};
  }
  if (e.as<class min>() || e.as<class max>()) {
    auto o = static_cast<const binary_op*>(e.get());
    ext a = value(o->a, ctx), b = value(o->b, ctx);
    if (!a.ok || !b.ok) return {0, 0, false};
    return (cmp(a, b) < 0) == (e.as<class min>() != nullptr) ? a : b;
  }
  if (auto o = e.as<mul>()) {
    ext a = value(o->a, ctx), b = value(o->b, ctx);
    auto sign = [](const ext& x) { return x.inf ? x.inf : x.v < 0 ? -1 : x.v > 0; };
    int s = sign(a) * sign(b);
    if (!a.ok || !b.ok || s == 0) return {0, 0, false};
    return {s, 0, true};
  }
  if (e.as<less>() || e.as<less_equal>() || e.as<equal>() || e.as<not_equal>()) {
    auto o = static_cast<const binary_op*>(e.get());
    ext a = value(o->a, ctx), b = value(o->b, ctx);
    if (!a.ok || !b.ok || (a.inf && a.inf == b.inf)) return {0, 0, false};
    int c = cmp(a, b);
    return {0, e.as<less>() ? c < 0 : e.as<less_equal>() ? c <= 0 : e.as<equal>() ? c == 0 : c != 0, true};
  }
  if (auto o = e.as<class select>()) {
    ext c = value(o->condition, ctx);
    if (!c.ok) return {0, 0, false};
    return value(c.inf || c.v ? o->true_value : o->false_value, ctx);
  }
  return {0, 0, false};
}
// An interval contains a value. Undefined or infinite ends are unbounded.
static inline void contains(const interval_expr& i, long v, eval_context& ctx, const char* lo, const char* hi) {
  if (i.min.defined()) {
    ext e = value(i.min, ctx);
    if (e.ok) {
      sx_assert_msg(e.inf <= 0, lo);
      if (e.inf == 0) sx_assert_msg(e.v <= v, lo);
    }
  }
  if (i.max.defined()) {
    ext e = value(i.max, ctx);
    if (e.ok) {
      sx_assert_msg(e.inf >= 0, hi);
      if (e.inf == 0) sx_assert_msg(v <= e.v, hi);
    }
  }
}

}  // namespace slinky
