// Symbol tables, names, sets and spans against their definitions.
#include "slinky/base/set.h"
#include "slinky/base/span.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/expr.h"
#include "sx.h"
#include <array>
#include <optional>
#include <set>
#include <string>
#include <vector>
using namespace slinky;

static const int SYMS = 4;
static const std::size_t IDS[SYMS] = {0, 1, 5, 12};

static void same(const symbol_map<long>& m, const std::optional<long>* v) {
  for (int i = 0; i < SYMS; ++i) {
    var s(IDS[i]);
    sx_assert_msg(m.contains(s) == v[i].has_value(), "contains");
    sx_assert_msg(m.lookup(s).has_value() == v[i].has_value(), "lookup finds");
    sx_assert_msg(!v[i] || *m.lookup(s) == *v[i], "lookup returns the last value");
    sx_assert_msg(m.lookup(s, -7) == (v[i] ? *v[i] : -7), "lookup with a default");
    sx_assert_msg(m[s] == v[i], "operator[]");
  }
  long n = 0;
  for (const auto& i : m) n += i.has_value();
  long k = 0;
  for (int i = 0; i < SYMS; ++i) k += v[i].has_value();
  sx_assert_msg(n == k, "values that were never stored");
}
SX_HARNESS(symbol_table, "done") {
  symbol_map<long> m;
  std::optional<long> v[SYMS];
  int steps = sx_thorough() ? 5 : 3;
  for (int k = 0; k < steps; ++k) {
    int op = sx_pick("op", 5);
    int i = op < 3 ? sx_pick("sym", SYMS) : 0;
    var s(IDS[i]);
    if (op == 0) {
      long x = sx_int("value", -1000, 1000);
      m[s] = x, v[i] = x;
    } else if (op == 1) {
      m.erase(s), v[i] = std::nullopt;
    } else if (op == 2) {
      m[s] = std::nullopt, v[i] = std::nullopt;
    } else if (op == 3) {
      std::size_t n = m.size(), r = sx_pick("size", 3) * 8;
      m.reserve(r);
      sx_assert_msg(m.size() >= n && m.size() >= r, "reserve");
    } else {
      m.clear();
      for (auto& x : v) x = std::nullopt;
    }
    same(m, v);
  }
  sx_cover("done");
}
// Scopes that end in the order of a stack, some of them early or moved elsewhere first.
SX_HARNESS(scopes, "done") {
  symbol_map<long> m;
  std::optional<long> v[SYMS];
  for (int i = 0; i < SYMS; ++i) {
    if (sx_pick("has", 2)) {
      long x = sx_int("value", -1000, 1000);
      m[var(IDS[i])] = x, v[i] = x;
    }
  }
  std::optional<long> v0[SYMS], v1[SYMS];
  std::copy(v, v + SYMS, v0);
  {
    int a = sx_pick("a", SYMS);
    long x = sx_int("x", -1000, 1000);
    auto outer = set_value_in_scope(m, var(IDS[a]), x);
    sx_assert(outer.old_value() == v0[a] && outer.sym() == var(IDS[a]));
    v[a] = x;
    same(m, v);
    std::copy(v, v + SYMS, v1);
    {
      int b = sx_pick("b", SYMS), kind = sx_pick("kind", 4);
      long y = sx_int("y", -1000, 1000);
      scoped_value_in_symbol_map<long> inner = kind == 0   ? set_value_in_scope(m, var(IDS[b]), y)
                                               : kind == 1 ? set_value_in_scope(m, var(IDS[b]), std::optional<long>(y))
                                               : kind == 2 ? set_value_in_scope(m, var(IDS[b]), std::optional<long>())
                                                           : set_value_in_scope(m, var(IDS[b]), std::nullopt);
      v[b] = kind < 2 ? std::optional<long>(y) : std::nullopt;
      same(m, v);
      // The scope may change the value, or make the table grow.
      int then = sx_pick("then", 5);
      if (then == 1) m[var(IDS[b])] = 3, v[b] = 3;
      if (then == 2) m.reserve(64);
      if (then == 3) {
        auto moved = std::move(inner);
        same(m, v);
      } else if (then == 4) {
        inner.exit_scope();
      }
      if (then >= 3) same(m, v1);
    }
    same(m, v1);
  }
  same(m, v0);
  sx_cover("done");
}
SX_HARNESS(names, "done") {
  node_context ctx;
  static const char* const some[] = {"x", "x#0", "x#1", "_", "x#0#0", "y", "_#0", ""};
  const int N = 8;
  std::vector<std::string> names;
  auto check_all = [&](const node_context& c) {
    for (std::size_t i = 0; i < names.size(); ++i) {
      sx_assert_msg(c.name(var(i)) == names[i], "a variable has another name");
      auto v = c.lookup(names[i]);
      sx_assert_msg(v && v->id == i, "a name is that of another variable");
    }
  };
  int steps = sx_thorough() ? 4 : 3;
  for (int k = 0; k < steps; ++k) {
    int op = sx_pick("op", 3);
    std::string n = some[sx_pick("name", N)];
    auto known = ctx.lookup(n);
    bool found = false;
    for (const auto& i : names) found |= i == n;
    sx_assert_msg(known.has_value() == found, "lookup finds a name that was never inserted, or does not find one that was");
    if (op == 0) {
      var v = ctx.insert(n);
      if (!found) names.push_back(n);
      sx_assert_msg(v.id < names.size() && names[v.id] == n, "insert returns another variable");
    } else {
      var v = op == 1 ? ctx.insert_unique(n) : var(ctx, n);
      sx_assert_msg(v.id == names.size(), "a unique name is not fresh");
      std::string fresh = ctx.name(v);
      for (const auto& i : names) sx_assert_msg(i != fresh, "a unique name is not fresh");
      sx_assert_msg(fresh.compare(0, n.size(), n) == 0, "a unique name does not start as asked");
      names.push_back(fresh);
    }
    check_all(ctx);
  }
  sx_cover("done");
}
// Sorted sequences.
SX_HARNESS(intersection, "disjoint common") {
  int n = sx_pick("n", 4), m = sx_pick("m", 4);
  std::vector<long> a, b;
  for (int i = 0; i < n; ++i) a.push_back(sx_int("a", -1000, 1000));
  for (int i = 0; i < m; ++i) b.push_back(sx_int("b", -1000, 1000));
  for (int i = 1; i < n; ++i) sx_assume(a[i - 1] <= a[i]);
  for (int i = 1; i < m; ++i) sx_assume(b[i - 1] <= b[i]);
  bool common = false;
  for (long i : a)
    for (long j : b) common |= i == j;
  bool e = empty_intersection(a.begin(), a.end(), b.begin(), b.end());
  sx_assert_msg(e == !common, "empty_intersection");
  if (e) sx_cover("disjoint");
  else sx_cover("common");
}
SX_HARNESS(sets, "done") {
  std::set<long> a, b;
  int n = sx_pick("n", 3), m = sx_pick("m", 3);
  for (int i = 0; i < n; ++i) a.insert(sx_int("a", -5, 5));
  for (int i = 0; i < m; ++i) b.insert(sx_int("b", -5, 5));
  bool common = false;
  for (long i : a) common |= b.count(i) > 0;
  sx_assert_msg(empty_intersection(a, b) == !common, "empty_intersection of sets");
  sx_assert_msg(empty_intersection(b, a) == !common, "empty_intersection of sets");
  sx_cover("done");
}
template <typename S>
static void is_span(const S& s, const long* data, std::size_t n) {
  sx_assert_msg(s.size() == n && s.empty() == (n == 0), "size");
  sx_assert_msg((std::size_t)(s.end() - s.begin()) == n, "begin, end");
  if (n == 0) return;
  sx_assert_msg(s.data() == data && s.begin() == data, "data");
  for (std::size_t i = 0; i < n; ++i) sx_assert_msg(&s[i] == data + i, "element");
  sx_assert_msg(&s.front() == data && &s.back() == data + n - 1, "front, back");
}
SX_HARNESS(spans, "done") {
  long raw[4];
  std::array<long, 4> arr;
  std::vector<long> vec(sx_pick("n", 5));
  for (int i = 0; i < 4; ++i) raw[i] = arr[i] = i;
  int n = (int)vec.size();
  is_span(span<long>(vec), vec.data(), n);
  is_span(span<long>(vec.data(), n), vec.data(), n);
  is_span(span<long>(vec.data(), vec.data() + n), vec.data(), n);
  is_span(span<long>(raw), raw, 4);
  is_span(span<long>(arr), arr.data(), 4);
  is_span(span<long>(), nullptr, 0);
  is_span(span<long, 4>(raw), raw, 4);
  is_span(span<long, 4>(arr), arr.data(), 4);
  is_span(span<long, 4>(raw, (std::size_t)4), raw, 4);
  is_span(span<long, 4>(raw, raw + 4), raw, 4);
  is_span(mutable_span<long>(vec), vec.data(), n);
  is_span(mutable_span<long>(raw), raw, 4);
  is_span(mutable_span<long, 4>(raw), raw, 4);
  is_span(mutable_span<long, 4>(arr), arr.data(), 4);
  if (n == 4) is_span(span<long, 4>(vec), vec.data(), 4), is_span(mutable_span<long, 4>(vec), vec.data(), 4);
  long o = sx_pick("offset", n + 1);
  is_span(span<long>(vec).subspan(o), vec.data() + o, n - o);
  is_span(mutable_span<long>(vec).subspan(o), vec.data() + o, n - o);
  long k = sx_pick("size", n - o + 1);
  is_span(span<long>(vec).subspan(o, k), vec.data() + o, k);
  is_span(mutable_span<long>(vec).subspan(o, k), vec.data() + o, k);
  if (o <= 4 && n == 4) {
    is_span(span<long, 4>(raw).subspan(o), raw + o, 4 - o);
    is_span(span<long, 4>(raw).subspan(o, k), raw + o, k);
    is_span(mutable_span<long, 4>(raw).subspan(o), raw + o, 4 - o);
    is_span(mutable_span<long, 4>(raw).subspan(o, k), raw + o, k);
  }
  sx_cover("done");
}
SX_HARNESS(permutation, "done") {
  int n = sx_pick("n", 4), m = sx_pick("m", 4);
  std::vector<long> x;
  for (int i = 0; i < n; ++i) x.push_back(sx_int("x", -1000, 1000));
  std::vector<int> p;
  // May repeat elements, and ask for ones that do not exist.
  for (int i = 0; i < m; ++i) p.push_back((int)sx_pick_range("p", -1, 4));
  long d = sx_int("default", -1000, 1000);
  std::vector<long> r = permute<long>(p, x, d);
  sx_assert_msg(r.size() == (std::size_t)m, "size");
  for (int i = 0; i < m; ++i) sx_assert_msg(r[i] == (p[i] >= 0 && p[i] < n ? x[p[i]] : d), "permuted element");
  sx_cover("done");
}
// The values of symbols during evaluation.
SX_HARNESS(contexts, "done") {
  eval_context c;
  long v[SYMS];
  bool has[SYMS] = {};
  int steps = sx_thorough() ? 5 : 4;
  for (int k = 0; k < steps; ++k) {
    int i = sx_pick("sym", SYMS), op = sx_pick("op", 3);
    var s(IDS[i]);
    long x = sx_int("value", -1000, 1000);
    if (op == 0) {
      c[s] = x, v[i] = x, has[i] = true;
    } else if (op == 1) {
      c.reserve(IDS[i] + 1);
      sx_assert(c.size() > IDS[i]);
      if (!has[i]) continue;
      sx_assert_msg(c.set(s, x) == v[i], "set returns the old value");
      v[i] = x;
    } else {
      eval_context d = c;
      c[s] = x;
      for (int j = 0; j < SYMS; ++j)
        if (has[j]) sx_assert_msg(d.lookup(var(IDS[j])) == v[j], "a copy keeps its values");
      v[i] = x, has[i] = true;
    }
    for (int j = 0; j < SYMS; ++j) {
      if (!has[j]) continue;
      const eval_context& cc = c;
      sx_assert_msg(cc.lookup(var(IDS[j])) == v[j] && cc[var(IDS[j])] == v[j], "a symbol has the last value set");
    }
  }
  sx_cover("done");
}
