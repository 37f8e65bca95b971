// Hash-consed bit-vector expression DAG with linear normalization and range analysis.
#pragma once
#include <cstdint>
#include <cstring>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <numeric>
#include <cstdio>
#include <cstdlib>

namespace sx {
typedef uint32_t E;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum Op : uint8_t {
  NONE, CONST, VAR, LIN, MUL, SDIV, SREM, UDIV, UREM, AND, OR, XOR, SHL, LSHR, ASHR, ZEXT, SEXT, TRUNC, ITE,
  // booleans (w == 1)
  LE,   // a <= k (signed), a is a form
  EQ,   // a == k
  SLT, ULT,
  BNOT, BAND, BOR,
  OVF,  // c = kind
};

struct Node {
  Op op;
  uint8_t w;
  bool exact;
  uint8_t aux;
  uint32_t a, b, c;
  u64 k;
  u64 val;
  i64 lo, hi;    // range at creation (used for encoding)
  i64 rlo, rhi;  // refined range on the current path
  u64 h;
};
struct Term {
  E e;
  u64 c;
};

extern std::vector<Node> N;
extern std::vector<Term> T;
extern std::unordered_multimap<u64, E>* HC;

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sgn(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
inline i64 minw(unsigned w) { return w >= 64 ? INT64_MIN : -(1ll << (w - 1)); }
inline i64 maxw(unsigned w) { return w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1; }
inline bool fits(i128 v, unsigned w) { return v >= minw(w) && v <= maxw(w); }
inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}

E K(unsigned w, u64 v);
E B(bool v);
E mkVar(unsigned idx, i64 lo, i64 hi, i64 val);
E add(E a, E b);
E sub(E a, E b);
E scale(E a, u64 c);
E mul(E a, E b);
E bin(unsigned llop, E a, E b);
E icmp(unsigned pred, E a, E b);
E eq(E a, E b);
E slt(E a, E b);
E ult(E a, E b);
E bnot(E a);
E band(E a, E b);
E bor(E a, E b);
E ite(E c, E a, E b);
E zext(E a, unsigned w);
E sext(E a, unsigned w);
E trunc(E a, unsigned w);
E ovf(unsigned kind, E a, E b);
E minmax(unsigned pred, E a, E b);  // pred a b ? a : b, for icmp predicates
inline bool isK(E a) { return N[a].op == CONST; }
inline bool fixedE(E a) { return N[a].op == CONST || N[a].rlo == N[a].rhi; }

// Path-local knowledge.
int implied(E c);         // 1 true, 0 false, -1 unknown
void learn(E c, bool v);  // assume c == v from now on
void resetExprs();
std::string toStr(E e, int depth = 6);
}  // namespace sx
