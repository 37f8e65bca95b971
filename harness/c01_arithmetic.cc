#include <climits>
#include "slinky/base/arithmetic.h"
#include "sx.h"
using namespace slinky;

// C01. Euclidean division and modulo, rounding helpers, saturating and checked arithmetic, gcd/lcm.
template <class T>
static void euclid(T a, T b) {
  T d = euclidean_div(a, b), m = euclidean_mod(a, b);
  if (b == 0) {
    sx_cover("zero");
    sx_assert(d == 0 && m == 0);
    return;
  }
  sx_assert_msg(m >= 0, "remainder is not negative");
  sx_assert_msg(b == std::numeric_limits<T>::min() || m < (b < 0 ? -b : b), "remainder is less than |b|");
  sx_assert_msg(d * b + m == a, "a == (a div b)*b + a mod b");
  // d * b did not wrap: |d| <= |a| and d has the right sign.
  sx_assert_msg(d == 0 || ((d < 0) == ((a < 0) != (b < 0))), "quotient sign");
  if (b < 0) {
    sx_cover("negative");
  } else {
    sx_assert(euclidean_div_positive_divisor(a, b) == d);
    sx_assert(euclidean_mod_positive_modulus(a, b) == m);
    sx_assert(floor_div(a, b) == d);
    sx_cover("positive");
  }
  sx_assert(div_sat(a, b) == d);
}
SX_HARNESS(euclid_i32, "zero negative positive") {
  int a = (int)sx_int("a", INT_MIN, INT_MAX);
  int b = (int)sx_int("b", INT_MIN, INT_MAX);
  sx_assume(!(a == INT_MIN && b == -1));
  euclid<int>(a, b);
}
SX_HARNESS(euclid_i64, "zero negative positive") {
  long a = sx_int("a", LONG_MIN, LONG_MAX);
  long b = sx_int("b", LONG_MIN, LONG_MAX);
  sx_assume(!(a == LONG_MIN && b == -1));
  euclid<long>(a, b);
}
SX_HARNESS(div_zero_default, "") {
  long a = sx_int("a", LONG_MIN, LONG_MAX), z = sx_int("z", LONG_MIN, LONG_MAX);
  sx_assert(euclidean_div<long>(a, 0, z) == z);
  sx_assert(euclidean_mod<long>(a, 0, z) == z);
  sx_assert(div_sat<long>(LONG_MIN, -1) == LONG_MAX);
  sx_assert(div_sat<int>(INT_MIN, -1) == INT_MAX);
}
// ceil, floor, nearest and alignment with a positive divisor.
template <class T>
static void rounding(T a, T b) {
  T f = floor_div(a, b), c = ceil_div(a, b), r = round_div(a, b), u = align_up(a, b), d = align_down(a, b);
  sx_assert_msg(f * b <= a && a - f * b < b, "floor_div");
  sx_assert_msg(c * b >= a && c * b - a < b, "ceil_div");
  T e = r * b - a;
  sx_assert_msg(2 * e <= b && -b <= 2 * e, "round_div is nearest");
  sx_assert_msg(d == f * b && d <= a && a - d < b, "align_down");
  sx_assert_msg(u == c * b && u >= a && u - a < b, "align_up");
  if (d == u) sx_cover("multiple");
  else sx_cover("rounded");
}
SX_HARNESS(rounding_i64, "multiple rounded") {
  long a = sx_int("a", -(1l << 60), 1l << 60), b = sx_int("b", 1, 1l << 60);
  rounding<long>(a, b);
}
SX_HARNESS(rounding_i32, "multiple rounded") {
  int a = (int)sx_int("a", -(1 << 28), 1 << 28), b = (int)sx_int("b", 1, 1 << 28);
  rounding<int>(a, b);
}
typedef long T64;
static long clamp64(bool ovf, bool pos, long v) { return ovf ? (pos ? LONG_MAX : LONG_MIN) : v; }
SX_HARNESS(add_sub_i64, "add_over add_under sub_over sub_under exact") {
  long a = sx_int("a", LONG_MIN, LONG_MAX), b = sx_int("b", LONG_MIN, LONG_MAX);
  // The exact sum a + b, as (a >> 1) + (b >> 1) + carry, decides overflow without overflowing.
  unsigned long us = (unsigned long)a + (unsigned long)b, ud = (unsigned long)a - (unsigned long)b;
  bool so = ((a >= 0) == (b >= 0)) && (((long)us >= 0) != (a >= 0));
  bool dov = ((a >= 0) != (b >= 0)) && (((long)ud >= 0) != (a >= 0));
  sx_assert_msg(add_overflows(a, b) == so, "add_overflows");
  sx_assert_msg(sub_overflows(a, b) == dov, "sub_overflows");
  long r = 5;
  bool o = add_with_overflow(a, b, r);
  sx_assert_msg(o == so && r == (so ? 0 : (long)us), "add_with_overflow");
  r = 5;
  o = sub_with_overflow(a, b, r);
  sx_assert_msg(o == dov && r == (dov ? 0 : (long)ud), "sub_with_overflow");
  sx_assert_msg(add_sat(a, b) == clamp64(so, a >= 0, (long)us), "add_sat");
  sx_assert_msg(sub_sat(a, b) == clamp64(dov, a >= 0, (long)ud), "sub_sat");
  if (so && a >= 0) sx_cover("add_over");
  if (so && a < 0) sx_cover("add_under");
  if (dov && a >= 0) sx_cover("sub_over");
  if (dov && a < 0) sx_cover("sub_under");
  if (!so && !dov) sx_cover("exact");
}
SX_HARNESS(arith_i32, "over under exact") {
  int a = (int)sx_int("a", INT_MIN, INT_MAX), b = (int)sx_int("b", INT_MIN, INT_MAX);
  auto chk = [&](long exact, int sat, bool ovf, bool wovf, int wres, const char* m) {
    bool o = exact != (int)exact;
    sx_assert_msg(sat == (exact > INT_MAX ? INT_MAX : exact < INT_MIN ? INT_MIN : exact), m);
    sx_assert_msg(ovf == o && wovf == o && wres == (o ? 0 : (int)exact), m);
  };
  int r;
  bool o;
  switch (sx_pick("op", 3)) {
  case 0: o = add_with_overflow(a, b, r); chk((long)a + b, add_sat(a, b), add_overflows(a, b), o, r, "add"); break;
  case 1: o = sub_with_overflow(a, b, r); chk((long)a - b, sub_sat(a, b), sub_overflows(a, b), o, r, "sub"); break;
  case 2:
    o = mul_with_overflow(a, b, r);
    chk((long)a * b, mul_sat(a, b), mul_overflows(a, b), o, r, "mul");
    if ((long)a * b > INT_MAX) sx_cover("over");
    else if ((long)a * b < INT_MIN) sx_cover("under");
    else sx_cover("exact");
    break;
  }
}
SX_HARNESS(mul_i64_const, "over under exact") {
  static const long ks[] = {0, 1, -1, 2, -2, 3, 7, -10, 1000, 65536, -65536, 1l << 32, -(1l << 32), (1l << 32) + 1, LONG_MAX, LONG_MIN, LONG_MAX / 2, LONG_MIN / 2, LONG_MAX / 3};
  long a = sx_int("a", LONG_MIN, LONG_MAX);
  long k = ks[sx_pick("k", sizeof(ks) / sizeof(ks[0]))];
  // a*k is representable iff lo <= a <= hi, where the bounds are computed with constants only.
  bool pos = (a > 0 && k > 0) || (a < 0 && k < 0);
  bool o;
  if (k == 0 || k == 1) o = false;
  else if (k == -1) o = a == LONG_MIN;
  else if (k > 0) o = a > LONG_MAX / k || a < LONG_MIN / k;
  else o = a < LONG_MAX / k || (k != LONG_MIN ? a > LONG_MIN / k : a > 1);
  long w = (long)((unsigned long)a * (unsigned long)k);
  sx_assert_msg(mul_overflows(a, k) == o && mul_overflows(k, a) == o, "mul_overflows");
  sx_assert_msg(mul_sat(a, k) == clamp64(o, pos, w) && mul_sat(k, a) == clamp64(o, pos, w), "mul_sat");
  long r = 3;
  bool wo = mul_with_overflow(a, k, r);
  sx_assert_msg(wo == o && r == (o ? 0 : w), "mul_with_overflow");
  if (o) {
    if (pos) sx_cover("over");
    else sx_cover("under");
  } else {
    sx_cover("exact");
  }
}
SX_HARNESS(gcd_lcm, "common coprime zero") {
  int M = sx_thorough() ? 60 : 24;
  long a = sx_int("a", 0, M), b = sx_int("b", 0, M);
  long g = gcd(a, b);
  if (a == 0 || b == 0) {
    sx_cover("zero");
    sx_assert(g == a + b);
    return;
  }
  sx_assert_msg(g > 0 && a % g == 0 && b % g == 0, "gcd divides both");
  // Greatest: no common divisor exceeds it.
  long d = sx_int("d", 1, M);
  if (a % d == 0 && b % d == 0) {
    sx_assert_msg(d <= g, "gcd is the greatest");
    if (d > 1) sx_cover("common");
  }
  if (g == 1) sx_cover("coprime");
  long l = lcm(a, b);
  sx_assert_msg(l > 0 && l % a == 0 && l % b == 0 && l * g == a * b, "lcm");
}
SX_HARNESS(sign_pow2_staircase, "pow2 notpow2") {
  long x = sx_int("x", LONG_MIN, LONG_MAX);
  sx_assert(sign(x) == (x > 0) - (x < 0));
  bool p = false;
  for (int i = 0; i < 63; ++i) p = p | (x == (1l << i));
  sx_assert(is_power_of_two(x) == p);
  if (p) sx_cover("pow2");
  else sx_cover("notpow2");
  long y = sx_int("y", -100, 100), a = sx_int("a", -20, 20), b = sx_int("b", -8, 8), c = sx_int("c", -8, 8);
  sx_assume(b != 0);
  long q = 0;  // the Euclidean quotient, by definition
  long n = y + a;
  long s = staircase(y, a, b, c);
  q = euclidean_div(n, b);
  long m = n - q * b;
  sx_assert(m >= 0 && m < (b < 0 ? -b : b));
  sx_assert(s == q * c);
}
