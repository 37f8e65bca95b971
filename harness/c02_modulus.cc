#include "slinky/base/modulus_remainder.h"
#include "sx.h"
using namespace slinky;

// C02. If x and y satisfy their congruences, x op y satisfies the congruence computed for op.
typedef modulus_remainder<long> mr;
static void holds(const mr& r, long v, const char* msg) {
  if (r.modulus == 0) {
    sx_assert_msg(v == r.remainder, msg);
  } else {
    sx_assert_msg((v - r.remainder) % r.modulus == 0, msg);
  }
  // Canonical, and a modulus that is not canonical (negative) is never wrong either.
  if (r.modulus > 0) sx_assert_msg(0 <= r.remainder && r.remainder < r.modulus, "canonical remainder");
}
static mr any(const char* nm, const char* nr, long M) {
  mr r;
  r.modulus = sx_pick_range(nm, 0, M);
  r.remainder = r.modulus ? sx_int(nr, 0, r.modulus - 1) : sx_int(nr, -M - 1, M + 1);
  r.remainder = sx_concretize(r.remainder);
  return r;
}
static long member(const mr& a, const char* n, long Y) { return a.modulus ? a.modulus * sx_int(n, -Y, Y) + a.remainder : a.remainder; }

static long M() { return sx_thorough() ? 12 : 6; }
SX_HARNESS(add_sub, "modular") {
  mr a = any("ma", "ra", M()), b = any("mb", "rb", M());
  long x = member(a, "ya", 1 << 20), y = member(b, "yb", 1 << 20);
  mr s = a + b, d = a - b;
  holds(s, x + y, "a + b");
  holds(d, x - y, "a - b");
  if (b.modulus == 0) {
    holds(a + b.remainder, x + y, "a + constant");
    holds(a - b.remainder, x - y, "a - constant");
  }
  if (s.modulus > 1) sx_cover("modular");
}
SX_HARNESS(mul, "modular constant") {
  mr a = any("ma", "ra", M()), b = any("mb", "rb", M());
  // Products are computed exactly for members near zero; the congruence of a product depends on the members only
  // through their residues, which these cover.
  long x = member(a, "ya", 3), y = member(b, "yb", 3);
  mr p = a * b;
  holds(p, x * y, "a * b");
  if (b.modulus == 0) holds(a * b.remainder, x * y, "a * constant");
  if (p.modulus > 1) sx_cover("modular");
  if (p.modulus == 0) sx_cover("constant");
}
SX_HARNESS(div, "modular unknown") {
  mr a = any("ma", "ra", 2 * M()), b = any("mb", "rb", M());
  long x = member(a, "ya", 1 << 12), y = b.modulus ? sx_concretize(member(b, "yb", 2)) : sx_concretize(b.remainder);
  mr q = a / b;
  holds(q, euclidean_div(x, y), "a / b");
  if (b.modulus == 0) holds(a / b.remainder, euclidean_div(x, y), "a / constant");
  if (q.modulus > 1) sx_cover("modular");
  else sx_cover("unknown");
}
SX_HARNESS(mod, "modular unknown") {
  mr a = any("ma", "ra", M() + 4), b = any("mb", "rb", M());
  long x = member(a, "ya", 1 << 12), y = b.modulus ? sx_concretize(member(b, "yb", 2)) : sx_concretize(b.remainder);
  mr q = a % b;
  holds(q, euclidean_mod(x, y), "a % b");
  if (b.modulus == 0) holds(a % b.remainder, euclidean_mod(x, y), "a % constant");
  if (q.modulus > 1) sx_cover("modular");
  else sx_cover("unknown");
}
SX_HARNESS(unite, "modular") {
  mr a = any("ma", "ra", M() + 4), b = any("mb", "rb", M() + 4);
  long x = member(a, "ya", 1 << 20), y = member(b, "yb", 1 << 20);
  mr u = a | b;
  holds(u, x, "a | b contains a");
  holds(u, y, "a | b contains b");
  if (u.modulus > 1) sx_cover("modular");
}
SX_HARNESS(intersect, "modular") {
  mr a = any("ma", "ra", M() + 4), b = any("mb", "rb", M() + 4);
  long x = sx_int("x", -(1 << 12), 1 << 12);
  sx_assume(a.modulus ? (x - a.remainder) % a.modulus == 0 : x == a.remainder);
  sx_assume(b.modulus ? (x - b.remainder) % b.modulus == 0 : x == b.remainder);
  mr u = a & b;
  holds(u, x, "a & b");
  if (u.modulus > 1) sx_cover("modular");
}
// Moduli and remainders near the limits of the type: the analysis must give up, not wrap.
SX_HARNESS(large, "gave_up exact") {
  static const long ms[] = {0, 1, 2, 3, 3l << 20, 1l << 32, 3l << 31, 5l << 40, 1l << 61, (1l << 62) + 2};
  const int N = sizeof(ms) / sizeof(ms[0]);
  mr a, b;
  a.modulus = ms[sx_pick("ma", N)];
  b.modulus = ms[sx_pick("mb", N)];
  static const long rs[] = {0, 1, (1l << 40) - 1, 1l << 61};
  a.remainder = rs[sx_pick("ra", 4)];
  b.remainder = rs[sx_pick("rb", 4)];
  if (a.modulus) a.remainder %= a.modulus;
  if (b.modulus) b.remainder %= b.modulus;
  long k = sx_int("k", -1, 1), l = sx_int("l", -1, 1), x, y, t;
  sx_assume(!__builtin_mul_overflow(a.modulus, k, &x));
  sx_assume(!__builtin_add_overflow(x, a.remainder, &x));
  sx_assume(!__builtin_mul_overflow(b.modulus, l, &y));
  sx_assume(!__builtin_add_overflow(y, b.remainder, &y));
  x = sx_concretize(x);
  y = sx_concretize(y);
  auto h = [&](const mr& r, long v, const char* m) {
    if (r.modulus == 0) {
      sx_assert_msg(v == r.remainder, m);
    } else {
      sx_assert_msg(euclidean_mod(v, r.modulus) == euclidean_mod(r.remainder, r.modulus), m);
    }
    if (r.modulus == 1) sx_cover("gave_up");
    else sx_cover("exact");
  };
  if (!__builtin_add_overflow(x, y, &t)) h(a + b, t, "a + b");
  if (!__builtin_sub_overflow(x, y, &t)) h(a - b, t, "a - b");
  if (!__builtin_mul_overflow(x, y, &t)) h(a * b, t, "a * b");
  h(a / b, euclidean_div(x, y), "a / b");
  h(a % b, euclidean_mod(x, y), "a % b");
  h(a | b, x, "a | b contains a");
  h(a | b, y, "a | b contains b");
  if (a.modulus ? euclidean_mod(y, a.modulus) == a.remainder : y == a.remainder) h(a & b, y, "a & b");
  if (b.modulus ? euclidean_mod(x, b.modulus) == b.remainder : x == b.remainder) h(a & b, x, "a & b");
}
