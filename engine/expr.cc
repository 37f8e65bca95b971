#include <string>
#include "expr.h"

namespace sx {
std::vector<Node> N;
std::vector<Term> T;
std::unordered_multimap<u64, E>* HC;
static std::unordered_map<E, bool>* Known;

void resetExprs() {
  N.clear();
  T.clear();
  N.reserve(1 << 14);
  if (!HC) HC = new std::unordered_multimap<u64, E>();
  if (!Known) Known = new std::unordered_map<E, bool>();
  HC->clear();
  Known->clear();
  Node z;
  memset(&z, 0, sizeof z);
  N.push_back(z);  // id 0 = "concrete"
}

static u64 bval(Op op, unsigned w, u64 a, u64 b, unsigned aux = 0, u64 k = 0, u64 c = 0) {
  u64 m = maskw(w);
  i64 sa = sgn(a, w), sb = sgn(b, w);
  switch (op) {
  case MUL: return (a * b) & m;
  case SDIV: return sb == 0 ? m : (sb == -1 ? (0 - a) & m : (u64)(sa / sb) & m);
  case SREM: return sb == 0 ? a : (sb == -1 ? 0 : (u64)(sa % sb) & m);
  case UDIV: return b == 0 ? m : a / b;
  case UREM: return b == 0 ? a : a % b;
  case AND: return a & b;
  case OR: return a | b;
  case XOR: return a ^ b;
  case SHL: return b >= w ? 0 : (a << b) & m;
  case LSHR: return b >= w ? 0 : a >> b;
  case ASHR: return (u64)(sa >> (b >= w ? w - 1 : b)) & m;
  default: abort();
  }
}

static E intern(Node n, const std::vector<Term>* terms = nullptr) {
  u64 h = mix(mix(mix(n.op * 131 + n.w, n.aux), n.k), 7);
  auto hashOf = [](E e) { return e ? N[e].h : 0; };
  if (terms) {
    for (auto& t : *terms) h = mix(mix(h, N[t.e].h), t.c);
  } else {
    h = mix(mix(mix(h, hashOf(n.a)), hashOf(n.b)), hashOf(n.c));
  }
  auto r = HC->equal_range(h);
  for (auto i = r.first; i != r.second; ++i) {
    const Node& m = N[i->second];
    if (m.op != n.op || m.w != n.w || m.aux != n.aux || m.k != n.k) continue;
    if (terms) {
      if (m.b != terms->size()) continue;
      bool same = true;
      for (size_t j = 0; j < terms->size() && same; ++j)
        same = T[m.a + j].e == (*terms)[j].e && T[m.a + j].c == (*terms)[j].c;
      if (same) return i->second;
    } else if (m.a == n.a && m.b == n.b && m.c == n.c) {
      return i->second;
    }
  }
  n.h = h;
  if (terms) {
    n.a = T.size();
    n.b = terms->size();
    T.insert(T.end(), terms->begin(), terms->end());
  }
  n.val &= maskw(n.w);
  n.rlo = n.lo;
  n.rhi = n.hi;
  N.push_back(n);
  HC->insert({h, (E)(N.size() - 1)});
  return N.size() - 1;
}

static Node mk(Op op, unsigned w) {
  Node n;
  memset(&n, 0, sizeof n);
  n.op = op;
  n.w = w;
  n.lo = w == 1 ? 0 : minw(w);
  n.hi = w == 1 ? 1 : maxw(w);
  n.exact = true;
  return n;
}

E K(unsigned w, u64 v) {
  Node n = mk(CONST, w);
  n.k = v & maskw(w);
  n.val = n.k;
  n.lo = n.hi = w == 1 ? (i64)n.k : sgn(n.k, w);
  return intern(n);
}
E B(bool v) { return K(1, v); }
E mkVar(unsigned idx, i64 lo, i64 hi, i64 val) {
  Node n = mk(VAR, 64);
  n.k = idx;
  n.val = val;
  n.lo = lo;
  n.hi = hi;
  return intern(n);
}
static u64 kv(E a) { return N[a].op == CONST ? N[a].k : 0; }

// ---- linear forms ----
struct Lin {
  std::vector<Term> t;  // sorted by node id, nonzero coefficients
  u64 c = 0;
  unsigned w;
};
static Lin toLin(E a) {
  Lin l;
  const Node& n = N[a];
  l.w = n.w;
  if (n.op == CONST) {
    l.c = n.k;
  } else if (n.rlo == n.rhi) {
    l.c = (u64)n.rlo & maskw(n.w);
  } else if (n.op == LIN) {
    l.c = n.k;
    bool anyfixed = false;
    for (unsigned i = 0; i < n.b; ++i) {
      Term t = T[n.a + i];
      if (N[t.e].rlo == N[t.e].rhi) anyfixed = true;
    }
    for (unsigned i = 0; i < n.b; ++i) {
      Term t = T[n.a + i];
      if (anyfixed && N[t.e].rlo == N[t.e].rhi) {
        l.c += t.c * (u64)N[t.e].rlo;
      } else {
        l.t.push_back(t);
      }
    }
    l.c &= maskw(n.w);
  } else {
    l.t.push_back({a, 1});
  }
  return l;
}
static E fromLin(Lin& l) {
  unsigned w = l.w;
  u64 m = maskw(w);
  l.c &= m;
  size_t o = 0;
  for (auto& t : l.t) {
    t.c &= m;
    if (t.c) l.t[o++] = t;
  }
  l.t.resize(o);
  if (l.t.empty()) return K(w, l.c);
  if (l.t.size() == 1 && l.t[0].c == 1 && l.c == 0) return l.t[0].e;
  Node n = mk(LIN, w);
  n.k = l.c;
  u64 v = l.c;
  i128 lo = sgn(l.c, w), hi = lo;
  bool ok = true;
  const i128 LIM = (i128)1 << 100;
  for (auto& t : l.t) {
    const Node& x = N[t.e];
    v += t.c * x.val;
    i128 c = sgn(t.c, w);
    i128 p = c * x.rlo, q = c * x.rhi;
    if (p > q) std::swap(p, q);
    lo += p;
    hi += q;
    if (lo < -LIM || hi > LIM) {
      ok = false;
      break;
    }
  }
  if (!ok) {
    v = l.c;
    for (auto& t : l.t) v += t.c * N[t.e].val;
  }
  n.val = v;
  if (ok && fits(lo, w) && fits(hi, w)) {
    n.lo = (i64)lo;
    n.hi = (i64)hi;
    n.exact = true;
  } else {
    n.exact = false;
  }
  return intern(n, &l.t);
}
static void addTo(Lin& l, const Lin& r, u64 s) {
  std::vector<Term> o;
  o.reserve(l.t.size() + r.t.size());
  size_t i = 0, j = 0;
  while (i < l.t.size() || j < r.t.size()) {
    if (j >= r.t.size() || (i < l.t.size() && l.t[i].e < r.t[j].e)) {
      o.push_back(l.t[i++]);
    } else if (i >= l.t.size() || r.t[j].e < l.t[i].e) {
      o.push_back({r.t[j].e, r.t[j].c * s});
      ++j;
    } else {
      o.push_back({l.t[i].e, l.t[i].c + r.t[j].c * s});
      ++i;
      ++j;
    }
  }
  l.t.swap(o);
  l.c += r.c * s;
}
E add(E a, E b) {
  Lin l = toLin(a), r = toLin(b);
  addTo(l, r, 1);
  return fromLin(l);
}
E sub(E a, E b) {
  Lin l = toLin(a), r = toLin(b);
  addTo(l, r, ~0ull);
  return fromLin(l);
}
E scale(E a, u64 c) {
  Lin l = toLin(a);
  for (auto& t : l.t) t.c *= c;
  l.c *= c;
  return fromLin(l);
}
static void rangeMul(Node& n, i64 al, i64 ah, i64 bl, i64 bh) {
  i128 p[4] = {(i128)al * bl, (i128)al * bh, (i128)ah * bl, (i128)ah * bh};
  i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
  if (fits(lo, n.w) && fits(hi, n.w)) {
    n.lo = (i64)lo;
    n.hi = (i64)hi;
  } else {
    n.exact = false;
  }
}
static void factors(E a, std::vector<E>& f) {
  if (N[a].op == MUL) {
    factors(N[a].a, f);
    f.push_back(N[a].b);
  } else {
    f.push_back(a);
  }
}
static E srem(E a, E b);
bool constArms(E a);
static E mulAtoms(E a, E b) {
  // (x / y) * y == x - x % y, in modular arithmetic and also for y == 0.
  for (int i = 0; i < 2; ++i) {
    if (N[a].op == SDIV && N[a].b == b) return sub(N[a].a, srem(N[a].a, b));
    if (constArms(a) && N[b].op != ITE) {
      E c = N[a].a;
      u64 x = N[N[a].b].k, y = N[N[a].c].k;
      E p = scale(b, x), q = scale(b, y);
      return ite(c, p, q);
    }
    std::swap(a, b);
  }
  std::vector<E> f;
  factors(a, f);
  factors(b, f);
  std::sort(f.begin(), f.end());
  E r = f[0];
  for (size_t i = 1; i < f.size(); ++i) {
    Node n = mk(MUL, N[r].w);
    n.a = r;
    n.b = f[i];
    n.val = N[r].val * N[f[i]].val;
    rangeMul(n, N[r].rlo, N[r].rhi, N[f[i]].rlo, N[f[i]].rhi);
    if (r == f[i] && n.exact) n.lo = std::max<i64>(n.lo, 0);
    r = intern(n);
  }
  return r;
}
E mul(E a, E b) {
  Lin l = toLin(a), r = toLin(b);
  unsigned w = l.w;
  if (l.t.empty()) return scale(b, l.c);
  if (r.t.empty()) return scale(a, r.c);
  if ((l.t.size() + (l.c != 0)) * (r.t.size() + (r.c != 0)) > 12) {
    // Too large to distribute: treat both as atoms.
    E x = fromLin(l), y = fromLin(r);
    return mulAtoms(x, y);
  }
  Lin o;
  o.w = w;
  o.c = l.c * r.c;
  auto addTerm = [&](E e, u64 c) {
    Lin s = toLin(e);
    addTo(o, s, c);
  };
  for (auto& x : l.t)
    for (auto& y : r.t) addTerm(mulAtoms(x.e, y.e), x.c * y.c);
  if (r.c)
    for (auto& x : l.t) addTerm(x.e, x.c * r.c);
  if (l.c)
    for (auto& y : r.t) addTerm(y.e, y.c * l.c);
  return fromLin(o);
}

// ---- booleans ----
E bnot(E a) {
  const Node& n = N[a];
  if (n.op == CONST) return B(!n.k);
  if (n.op == BNOT) return n.a;
  Node m = mk(BNOT, 1);
  m.a = a;
  m.val = !n.val;
  return intern(m);
}
E band(E a, E b) {
  if (isK(a)) return N[a].k ? b : a;
  if (isK(b)) return N[b].k ? a : b;
  if (a == b) return a;
  if ((N[a].op == BNOT && N[a].a == b) || (N[b].op == BNOT && N[b].a == a)) return B(false);
  if (a > b) std::swap(a, b);
  Node m = mk(BAND, 1);
  m.a = a;
  m.b = b;
  m.val = N[a].val & N[b].val;
  return intern(m);
}
E bor(E a, E b) {
  if (isK(a)) return N[a].k ? a : b;
  if (isK(b)) return N[b].k ? b : a;
  if (a == b) return a;
  if ((N[a].op == BNOT && N[a].a == b) || (N[b].op == BNOT && N[b].a == a)) return B(true);
  if (a > b) std::swap(a, b);
  Node m = mk(BOR, 1);
  m.a = a;
  m.b = b;
  m.val = N[a].val | N[b].val;
  return intern(m);
}
static E bite(E c, E a, E b) {
  if (isK(c)) return N[c].k ? a : b;
  if (a == b) return a;
  return bor(band(c, a), band(bnot(c), b));
}
static E mkLE(E form, i64 k) {
  const Node& f = N[form];
  if (f.rhi <= k) return B(true);
  if (f.rlo > k) return B(false);
  if (f.op == ITE && (isK(f.b) || isK(f.c))) {
    E c = f.a, x = f.b, y = f.c;
    unsigned w = f.w;
    E kk = K(w, (u64)k);
    E lx = bnot(slt(kk, x));
    E ly = bnot(slt(kk, y));
    return bite(c, lx, ly);
  }
  if (f.op == SEXT) {
    // value preserving
    E x = f.a;
    if (!isK(x) && fits(k, N[x].w)) {
      return bnot(slt(K(N[x].w, (u64)k), x));
    }
  }
  Node m = mk(LE, 1);
  m.a = form;
  m.k = (u64)k;
  m.val = sgn(f.val, f.w) <= k;
  return intern(m);
}
static E mkEQ(E form, u64 k) {
  const Node& f = N[form];
  unsigned w = f.w;
  k &= maskw(w);
  i64 sk = w == 1 ? (i64)k : sgn(k, w);
  if (sk < f.rlo || sk > f.rhi) return B(false);
  if (f.rlo == f.rhi) return B(f.rlo == sk);
  if (f.op == ITE && (isK(f.b) || isK(f.c))) {
    E c = f.a, x = f.b, y = f.c;
    return bite(c, eq(x, K(w, k)), eq(y, K(w, k)));
  }
  if (f.op == SEXT) {
    E x = f.a;
    unsigned xw = N[x].w;
    return eq(x, K(xw, k));
  }
  Node m = mk(EQ, 1);
  m.a = form;
  m.k = k;
  m.val = f.val == k;
  return intern(m);
}
static i64 floordiv(i128 a, i128 b) {
  i128 q = a / b;
  if ((a % b != 0) && ((a < 0) != (b < 0))) --q;
  return (i64)q;
}
// Splits l into +-g*form + c. Returns false if the form is not exact.
static bool splitForm(Lin& l, E& form, bool& neg, i128& g) {
  unsigned w = l.w;
  neg = sgn(l.t[0].c, w) < 0;
  if (neg) {
    for (auto& t : l.t) t.c = (0 - t.c) & maskw(w);
  }
  u64 gg = 0;
  for (auto& t : l.t) {
    i64 s = sgn(t.c, w);
    u64 a = s < 0 ? 0 - (u64)s : (u64)s;
    gg = std::gcd(gg, a);
  }
  // Exactness of the undivided form.
  i128 lo = 0, hi = 0;
  const i128 LIM = (i128)1 << 100;
  for (auto& t : l.t) {
    i128 c = sgn(t.c, w);
    i128 p = c * N[t.e].rlo, q = c * N[t.e].rhi;
    if (p > q) std::swap(p, q);
    lo += p;
    hi += q;
    if (lo < -LIM || hi > LIM) return false;
  }
  if (!fits(lo, w) || !fits(hi, w) || gg >> 62) return false;
  g = gg;
  if (gg > 1)
    for (auto& t : l.t) t.c = (u64)(sgn(t.c, w) / (i64)gg) & maskw(w);
  Lin f = l;
  f.c = 0;
  form = fromLin(f);
  return true;
}
E eq(E a, E b) {
  if (a == b) return B(true);
  unsigned w = N[a].w;
  if (w == 1) {
    if (isK(a)) std::swap(a, b);
    if (isK(b)) return N[b].k ? a : bnot(a);
    return bor(band(a, b), band(bnot(a), bnot(b)));
  }
  if (N[a].rhi < N[b].rlo || N[b].rhi < N[a].rlo) return B(false);
  Lin l = toLin(a), r = toLin(b);
  addTo(l, r, ~0ull);
  E d = fromLin(l);
  if (isK(d)) return B(N[d].k == 0);
  Lin m = l;
  E form;
  bool neg;
  i128 g;
  // the difference must not wrap for gcd reasoning
  if (N[d].exact && splitForm(m, form, neg, g)) {
    i128 k = -(i128)sgn(l.c, w);
    if (neg) k = -k;
    if (k % g != 0) return B(false);
    k /= g;
    if (!fits(k, w)) return B(false);
    return mkEQ(form, (u64)(i64)k);
  }
  m = l;
  u64 k = 0 - l.c;
  if (sgn(m.t[0].c, w) < 0) {
    for (auto& t : m.t) t.c = 0 - t.c;
    k = 0 - k;
  }
  m.c = 0;
  form = fromLin(m);
  return mkEQ(form, k);
}
E slt(E a, E b) {
  if (a == b) return B(false);
  unsigned w = N[a].w;
  if (w == 1) return band(a, bnot(b));  // signed i1: 1 is -1; a<b iff a=-1,b=0
  const Node &x = N[a], &y = N[b];
  if (x.rhi < y.rlo) return B(true);
  if (x.rlo >= y.rhi) return B(false);
  i128 dl = (i128)x.rlo - y.rhi, dh = (i128)x.rhi - y.rlo;
  if (fits(dl, w) && fits(dh, w)) {
    Lin l = toLin(a), r = toLin(b);
    addTo(l, r, ~0ull);
    E d = fromLin(l);
    if (isK(d)) return B(sgn(N[d].k, w) < 0);
    if (N[d].exact) {
      Lin m = l;
      E form;
      bool neg;
      i128 g;
      if (splitForm(m, form, neg, g)) {
        // s*g*form + c < 0
        i128 c = sgn(l.c, w);
        i128 k;
        if (!neg) {
          k = floordiv(-c - 1, g);
          if (k < INT64_MIN || k > INT64_MAX) return B(k > 0);
          return mkLE(form, (i64)k);
        }
        // g*form > c  <=>  form > floor(c/g)
        k = floordiv(c, g);
        if (k < INT64_MIN || k > INT64_MAX) return B(k < 0);
        return bnot(mkLE(form, (i64)k));
      }
    }
  }
  if (N[a].op == ITE && isK(b) && isK(N[a].b) && isK(N[a].c)) return bite(N[a].a, slt(N[a].b, b), slt(N[a].c, b));
  if (N[b].op == ITE && isK(a) && isK(N[b].b) && isK(N[b].c)) return bite(N[b].a, slt(a, N[b].b), slt(a, N[b].c));
  Node m = mk(SLT, 1);
  m.a = a;
  m.b = b;
  m.val = sgn(N[a].val, w) < sgn(N[b].val, w);
  return intern(m);
}
E ult(E a, E b) {
  if (a == b) return B(false);
  unsigned w = N[a].w;
  if (w == 1) return band(bnot(a), b);
  const Node x = N[a], y = N[b];
  if (x.rlo >= 0 && y.rlo >= 0) return slt(a, b);
  E z = K(w, 0);
  if (y.rlo >= 0) return band(bnot(slt(a, z)), slt(a, b));
  if (x.rlo >= 0) return bor(slt(b, z), slt(a, b));
  if (x.rhi < 0 && y.rhi < 0) return slt(a, b);
  Node m = mk(ULT, 1);
  m.a = a;
  m.b = b;
  m.val = x.val < y.val;
  return intern(m);
}

// ---- generic ----
E ite(E c, E a, E b) {
  if (isK(c)) return N[c].k ? a : b;
  if (a == b) return a;
  unsigned w = N[a].w;
  if (w == 1) return bite(c, a, b);
  if (N[c].op == BNOT) return ite(N[c].a, b, a);
  if (N[a].op == ITE && N[a].a == c) return ite(c, N[a].b, b);
  if (N[b].op == ITE && N[b].a == c) return ite(c, a, N[b].c);
  Node n = mk(ITE, w);
  n.a = c;
  n.b = a;
  n.c = b;
  n.val = N[c].val ? N[a].val : N[b].val;
  n.lo = std::min(N[a].rlo, N[b].rlo);
  n.hi = std::max(N[a].rhi, N[b].rhi);
  return intern(n);
}
static E raw(Op op, E a, E b, i64 lo, i64 hi, unsigned aux = 0) {
  Node n = mk(op, N[a].w);
  n.a = a;
  n.b = b;
  n.val = bval(op, n.w, N[a].val, N[b].val);
  n.lo = std::max(n.lo, lo);
  n.hi = std::min(n.hi, hi);
  return intern(n);
}
bool constArms(E a) { return N[a].op == ITE && isK(N[a].b) && isK(N[a].c); }
template <class F>
static E mapIte(E a, F f) {
  E c = N[a].a, x = N[a].b, y = N[a].c;
  E fx = f(x), fy = f(y);
  return ite(c, fx, fy);
}
static i64 absSat(i64 v) { return v == INT64_MIN ? INT64_MAX : (v < 0 ? -v : v); }
static int nbits(i64 v) {  // bits for signed repr
  u64 x = v < 0 ? ~(u64)v : (u64)v;
  int n = 1;
  while (x) {
    ++n;
    x >>= 1;
  }
  return n;
}
static E fold(E a) {  // replace path-fixed expressions by constants
  const Node& n = N[a];
  if (n.op != CONST && n.w > 1 && n.rlo == n.rhi) return K(n.w, (u64)n.rlo);
  return a;
}

static E andE(E a, E b);
// If a is an exact linear form whose non-constant part is a multiple of c, finds a == |c| * q + r with 0 <= r < |c|.
static bool splitMultiple(E a, i64 c, i64& r, E& q) {
  if (!N[a].exact || N[a].op == CONST) return false;
  unsigned w = N[a].w;
  if (c == minw(w)) return false;
  if (c < 0) c = -c;
  Lin l = toLin(a);
  if (l.t.empty()) return false;
  for (auto& t : l.t)
    if (sgn(t.c, w) % c) return false;
  for (auto& t : l.t) t.c = (u64)(sgn(t.c, w) / c);
  i64 k = sgn(l.c, w);
  r = k % c;
  if (r < 0) r += c;
  if (k < minw(w) + r) return false;
  l.c = (u64)((k - r) / c);
  q = fromLin(l);
  return true;
}
static E sdiv(E a, E b) {
  unsigned w = N[a].w;
  if (isK(a) && isK(b)) return K(w, bval(SDIV, w, N[a].k, N[b].k));
  if (isK(b)) {
    i64 c = sgn(N[b].k, w);
    if (c == 1) return a;
    if (c == -1) return scale(a, ~0ull);
    if (c != 0) {
      const Node x = N[a];
      Lin l = toLin(a);
      if (x.exact) {
        bool div = sgn(l.c, w) % c == 0;
        for (auto& t : l.t) div &= sgn(t.c, w) % c == 0;
        if (div && !l.t.empty()) {
          for (auto& t : l.t) t.c = (u64)(sgn(t.c, w) / c);
          l.c = (u64)(sgn(l.c, w) / c);
          return fromLin(l);
        }
        i64 r;
        E q;
        if (splitMultiple(a, c, r, q)) {
          // a = |c| * q + r, truncated towards zero.
          E d = add(q, zext(band(slt(a, K(w, 0)), B(r != 0)), w));
          return c > 0 ? d : scale(d, ~0ull);
        }
      }
      if (constArms(a)) return mapIte(a, [&](E x) { return sdiv(x, b); });
      i64 p = x.rlo / c, q = x.rhi / c;
      if (p > q) std::swap(p, q);
      if (p == q) return K(w, (u64)p);
      return raw(SDIV, a, b, p, q);
    }
  }
  i64 m = std::max(absSat(N[a].rlo), absSat(N[a].rhi));
  i64 lo = -m, hi = m;
  if (N[b].rlo > 0) {
    lo = std::min<i64>(N[a].rlo, 0);
    hi = std::max<i64>(N[a].rhi, 0);
  }
  // division by zero yields -1/1 in bit-vector semantics; such paths trap before using the value.
  lo = std::min<i64>(lo, -1);
  hi = std::max<i64>(hi, 1);
  return raw(SDIV, a, b, lo, hi);
}
static E srem(E a, E b) {
  unsigned w = N[a].w;
  if (isK(a) && isK(b)) return K(w, bval(SREM, w, N[a].k, N[b].k));
  i64 al = N[a].rlo, ah = N[a].rhi;
  i64 mb = std::max(absSat(N[b].rlo), absSat(N[b].rhi));
  if (mb > 0) --mb;
  if (isK(b)) {
    if (N[b].k == 0) return raw(SREM, a, b, minw(w), maxw(w));
    if (mb == 0) return K(w, 0);
    if (al >= -mb && ah <= mb) return a;
    {
      i64 r;
      E q;
      i64 c = sgn(N[b].k, w);
      if (c != minw(w) && splitMultiple(a, c, r, q)) {
        if (r == 0) return K(w, 0);
        i64 ac = c < 0 ? -c : c;
        return ite(slt(a, K(w, 0)), K(w, (u64)(r - ac)), K(w, (u64)r));
      }
    }
    if (constArms(a)) return mapIte(a, [&](E x) { return srem(x, b); });
    return raw(SREM, a, b, al >= 0 ? 0 : std::max(al, -mb), ah <= 0 ? 0 : std::min(ah, mb));
  }
  i64 blo = N[b].rlo, bhi = N[b].rhi;
  if (blo <= 0 && bhi >= 0) return raw(SREM, a, b, std::min<i64>(al, 0), std::max<i64>(ah, 0));  // b == 0 -> a
  return raw(SREM, a, b, al >= 0 ? 0 : std::max(al, -mb), ah <= 0 ? 0 : std::min(ah, mb));
}
static E andE(E a, E b) {
  unsigned w = N[a].w;
  if (w == 1) return band(a, b);
  if (isK(a)) std::swap(a, b);
  if (isK(a)) return K(w, N[a].k & N[b].k);
  if (a == b) return a;
  if (isK(b)) {
    u64 k = N[b].k;
    if (k == 0) return b;
    if (k == maskw(w)) return a;
    if (((k + 1) & k) == 0) {
      // low mask
      if (N[a].rlo >= 0 && (u64)N[a].rhi <= k) return a;
      Lin l = toLin(a);
      bool ch = false;
      for (auto& t : l.t) {
        if ((t.c & k) != t.c) ch = true;
        t.c &= k;
      }
      if ((l.c & k) != l.c) ch = true;
      l.c &= k;
      if (ch) {
        E r = fromLin(l);
        return andE(r, b);
      }
      if (constArms(a)) return mapIte(a, [&](E x) { return andE(x, b); });
      return raw(AND, a, b, 0, (i64)k);
    }
    u64 nk = ~k & maskw(w);
    if (((nk + 1) & nk) == 0) return sub(a, andE(a, K(w, nk)));  // align down
    if (constArms(a)) return mapIte(a, [&](E x) { return andE(x, b); });
  }
  for (int i = 0; i < 2; ++i) {
    if (constArms(a)) {
      u64 x = N[N[a].b].k, y = N[N[a].c].k, m = maskw(w);
      if ((x == 0 || x == m) && (y == 0 || y == m)) {
        E c = N[a].a;
        return ite(c, x ? b : K(w, 0), y ? b : K(w, 0));
      }
    }
    std::swap(a, b);
  }
  if (a > b) std::swap(a, b);
  i64 lo, hi;
  const Node &x = N[a], &y = N[b];
  if (x.rlo >= 0 && y.rlo >= 0) lo = 0, hi = std::min(x.rhi, y.rhi);
  else if (x.rlo >= 0) lo = 0, hi = x.rhi;
  else if (y.rlo >= 0) lo = 0, hi = y.rhi;
  else {
    int nb = std::max(std::max(nbits(x.rlo), nbits(x.rhi)), std::max(nbits(y.rlo), nbits(y.rhi)));
    lo = minw(nb), hi = maxw(nb);
  }
  return raw(AND, a, b, lo, hi);
}
static E orE(E a, E b) {
  unsigned w = N[a].w;
  if (w == 1) return bor(a, b);
  if (isK(a)) std::swap(a, b);
  if (isK(a)) return K(w, N[a].k | N[b].k);
  if (a == b) return a;
  if (isK(b)) {
    if (N[b].k == 0) return a;
    if (N[b].k == maskw(w)) return b;
    if (constArms(a)) return mapIte(a, [&](E x) { return orE(x, b); });
  }
  for (int i = 0; i < 2; ++i) {
    if (constArms(a)) {
      u64 x = N[N[a].b].k, y = N[N[a].c].k, m = maskw(w);
      if ((x == 0 || x == m) && (y == 0 || y == m)) {
        E c = N[a].a;
        return ite(c, x ? K(w, m) : b, y ? K(w, m) : b);
      }
    }
    std::swap(a, b);
  }
  if (a > b) std::swap(a, b);
  const Node &x = N[a], &y = N[b];
  int nb = std::max(std::max(nbits(x.rlo), nbits(x.rhi)), std::max(nbits(y.rlo), nbits(y.rhi)));
  i64 lo = minw(nb), hi = maxw(nb);
  if (x.rlo >= 0 && y.rlo >= 0) lo = 0;
  return raw(OR, a, b, lo, hi);
}
static E xorE(E a, E b) {
  unsigned w = N[a].w;
  if (w == 1) {
    if (isK(a)) std::swap(a, b);
    if (isK(b)) return N[b].k ? bnot(a) : a;
    return bor(band(a, bnot(b)), band(bnot(a), b));
  }
  if (isK(a)) std::swap(a, b);
  if (isK(a)) return K(w, N[a].k ^ N[b].k);
  if (a == b) return K(w, 0);
  if (isK(b)) {
    if (N[b].k == 0) return a;
    if (N[b].k == maskw(w)) return sub(K(w, maskw(w)), a);
    if (constArms(a)) return mapIte(a, [&](E x) { return xorE(x, b); });
  }
  for (int i = 0; i < 2; ++i) {
    if (constArms(a)) {
      u64 x = N[N[a].b].k, y = N[N[a].c].k, m = maskw(w);
      if ((x == 0 || x == m) && (y == 0 || y == m)) {
        E c = N[a].a;
        E nb = sub(K(w, m), b);
        return ite(c, x ? nb : b, y ? nb : b);
      }
    }
    std::swap(a, b);
  }
  if (a > b) std::swap(a, b);
  const Node &x = N[a], &y = N[b];
  int nb = std::max(std::max(nbits(x.rlo), nbits(x.rhi)), std::max(nbits(y.rlo), nbits(y.rhi)));
  i64 lo = minw(nb), hi = maxw(nb);
  if (x.rlo >= 0 && y.rlo >= 0) lo = 0;
  return raw(XOR, a, b, lo, hi);
}
static E shl(E a, E b) {
  unsigned w = N[a].w;
  if (isK(b)) return N[b].k >= w ? K(w, 0) : scale(a, 1ull << N[b].k);
  return raw(SHL, a, b, minw(w), maxw(w));
}
static E ashr(E a, E b) {
  unsigned w = N[a].w;
  if (isK(a) && isK(b)) return K(w, bval(ASHR, w, N[a].k, N[b].k));
  if (isK(b)) {
    u64 k = N[b].k;
    if (k == 0) return a;
    if (k >= w - 1) return ite(slt(a, K(w, 0)), K(w, ~0ull), K(w, 0));
    i64 lo = N[a].rlo >> k, hi = N[a].rhi >> k;
    if (lo == hi) return K(w, (u64)lo);
    if (N[a].exact) {
      Lin l = toLin(a);
      u64 m = (1ull << k) - 1;
      bool div = true;
      for (auto& t : l.t) div &= (t.c & m) == 0;
      if (div && (l.c & m) == 0) {
        for (auto& t : l.t) t.c = (u64)(sgn(t.c, w) >> k);
        l.c = (u64)(sgn(l.c, w) >> k);
        return fromLin(l);
      }
    }
    if (constArms(a)) return mapIte(a, [&](E x) { return ashr(x, b); });
    return raw(ASHR, a, b, lo, hi);
  }
  return raw(ASHR, a, b, std::min<i64>(N[a].rlo, -1), std::max<i64>(N[a].rhi, 0));
}
static E lshr(E a, E b) {
  unsigned w = N[a].w;
  if (isK(a) && isK(b)) return K(w, bval(LSHR, w, N[a].k, N[b].k));
  if (isK(b)) {
    u64 k = N[b].k;
    if (k == 0) return a;
    if (k >= w) return K(w, 0);
    if (N[a].rlo >= 0) return ashr(a, b);
    if (k == w - 1) return ite(slt(a, K(w, 0)), K(w, 1), K(w, 0));
    if (constArms(a)) return mapIte(a, [&](E x) { return lshr(x, b); });
    return raw(LSHR, a, b, 0, (i64)(maskw(w) >> k));
  }
  return raw(LSHR, a, b, N[a].rlo >= 0 ? 0 : minw(w), maxw(w));
}
E zext(E a, unsigned w) {
  if (N[a].w == 1) return ite(a, K(w, 1), K(w, 0));
  if (isK(a)) return K(w, N[a].k);
  if (N[a].rlo >= 0) return sext(a, w);
  if (constArms(a)) return mapIte(a, [&](E x) { return zext(x, w); });
  Node n = mk(ZEXT, w);
  n.a = a;
  n.val = N[a].val;
  n.lo = 0;
  n.hi = (i64)maskw(N[a].w);
  return intern(n);
}
E sext(E a, unsigned w) {
  const Node x = N[a];
  if (x.w == w) return a;
  if (x.w == 1) return ite(a, K(w, ~0ull), K(w, 0));
  if (isK(a)) return K(w, (u64)sgn(x.k, x.w));
  if (x.rlo == x.rhi) return K(w, (u64)x.rlo);
  if (x.op == LIN && x.exact) {
    Lin l = toLin(a);
    Lin o;
    o.w = w;
    o.c = (u64)sgn(l.c, x.w);
    for (auto& t : l.t) {
      Lin s = toLin(sext(t.e, w));
      addTo(o, s, (u64)sgn(t.c, x.w));
    }
    return fromLin(o);
  }
  if (x.op == TRUNC && N[x.a].w >= w && fits(N[x.a].rlo, x.w) && fits(N[x.a].rhi, x.w)) return trunc(x.a, w);
  if (x.op == SEXT) return sext(x.a, w);
  if (x.op == ITE) return mapIte(a, [&](E e) { return sext(e, w); });
  Node n = mk(SEXT, w);
  n.a = a;
  n.val = (u64)sgn(x.val, x.w);
  n.lo = x.rlo;
  n.hi = x.rhi;
  return intern(n);
}
E trunc(E a, unsigned w) {
  const Node x = N[a];
  if (x.w == w) return a;
  if (isK(a)) return K(w, x.k);
  if (x.rlo == x.rhi) return K(w, (u64)x.rlo);
  if (w == 1) {
    // low bit
    E b = andE(a, K(x.w, 1));
    return bnot(eq(b, K(x.w, 0)));
  }
  if (x.op == SEXT || x.op == ZEXT) {
    if (N[x.a].w == w) return x.a;
    if (N[x.a].w > w) return trunc(x.a, w);
    return x.op == SEXT ? sext(x.a, w) : zext(x.a, w);
  }
  if (x.op == TRUNC) return trunc(x.a, w);
  if (x.op == LIN) {
    Lin l = toLin(a);
    Lin o;
    o.w = w;
    o.c = l.c;
    for (auto& t : l.t) {
      Lin s = toLin(trunc(t.e, w));
      addTo(o, s, t.c);
    }
    return fromLin(o);
  }
  if (x.op == ITE) return mapIte(a, [&](E e) { return trunc(e, w); });
  if (x.op == MUL) {
    E p = trunc(x.a, w), q = trunc(x.b, w);
    return mul(p, q);
  }
  if (x.op == AND && isK(x.b)) return andE(trunc(x.a, w), K(w, N[x.b].k));
  Node n = mk(TRUNC, w);
  n.a = a;
  n.val = x.val;
  if (fits(x.rlo, w) && fits(x.rhi, w)) {
    n.lo = x.rlo;
    n.hi = x.rhi;
  }
  return intern(n);
}
E ovf(unsigned kind, E a, E b) {
  unsigned w = N[a].w;
  const Node &x = N[a], &y = N[b];
  i128 lo, hi;
  if (kind < 3) {
    if (kind == 0) lo = (i128)x.rlo + y.rlo, hi = (i128)x.rhi + y.rhi;
    else if (kind == 1) lo = (i128)x.rlo - y.rhi, hi = (i128)x.rhi - y.rlo;
    else {
      i128 p[4] = {(i128)x.rlo * y.rlo, (i128)x.rlo * y.rhi, (i128)x.rhi * y.rlo, (i128)x.rhi * y.rhi};
      lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
    }
    if (fits(lo, w) && fits(hi, w)) return B(false);
    if (hi < minw(w) || lo > maxw(w)) return B(true);
    if (w <= 32) {
      // In terms of the exact result.
      E p = sext(a, 64), q = sext(b, 64);
      E r = kind == 0 ? add(p, q) : kind == 1 ? sub(p, q) : mul(p, q);
      E under = slt(r, K(64, (u64)minw(w)));
      E over = slt(K(64, (u64)maxw(w)), r);
      return bor(under, over);
    }
  } else {
    if (x.rlo >= 0 && y.rlo >= 0) {
      if (kind == 3 && w == 64) return B(false);
      if (kind == 4) return slt(a, b);
      if (kind == 5 && (w == 64) && (unsigned __int128)x.rhi * y.rhi <= (unsigned __int128)UINT64_MAX) return B(false);
    }
    if (kind == 4) return ult(a, b);
  }
  Node n = mk(OVF, 1);
  n.a = a;
  n.b = b;
  n.aux = kind;
  i128 sa = sgn(x.val, w), sb = sgn(y.val, w);
  unsigned __int128 ua = x.val, ub = y.val;
  bool v;
  switch (kind) {
  case 0: v = !fits(sa + sb, w); break;
  case 1: v = !fits(sa - sb, w); break;
  case 2: v = !fits(sa * sb, w); break;
  case 3: v = ua + ub > maskw(w); break;
  case 4: v = ua < ub; break;
  default: v = ua * ub > maskw(w); break;
  }
  n.val = v;
  return intern(n);
}

E minmax(unsigned p, E a, E b) {
  E c = icmp(p, a, b);
  if (isK(c)) return N[c].k ? a : b;
  bool isSigned = p == 38 || p == 40;
  i64 alo = N[a].rlo, ahi = N[a].rhi, blo = N[b].rlo, bhi = N[b].rhi;
  size_t before = N.size();
  E r = ite(c, a, b);
  if (r >= before && N[r].op == ITE && N[r].a == c && (isSigned || (alo >= 0 && blo >= 0))) {
    bool mx = p == 38 || p == 34;
    i64 lo = mx ? std::max(alo, blo) : std::min(alo, blo);
    i64 hi = mx ? std::max(ahi, bhi) : std::min(ahi, bhi);
    Node& n = N[r];
    // Only sound for this node, whose condition is the comparison of its own operands.
    if (lo > n.lo) n.lo = lo;
    if (hi < n.hi) n.hi = hi;
    if (n.lo > n.rlo) n.rlo = n.lo;
    if (n.hi < n.rhi) n.rhi = n.hi;
  }
  return r;
}

// LLVM opcodes (llvm/IR/Instruction.def, LLVM 18).
enum { L_ADD = 13, L_FADD, L_SUB, L_FSUB, L_MUL, L_FMUL, L_UDIV, L_SDIV, L_FDIV, L_UREM, L_SREM, L_FREM, L_SHL, L_LSHR, L_ASHR, L_AND, L_OR, L_XOR };
E bin(unsigned op, E a, E b) {
  unsigned w = N[a].w;
  a = fold(a);
  b = fold(b);
  if (w == 1) {
    switch (op) {
    case L_ADD:
    case L_SUB:
    case L_XOR: return xorE(a, b);
    case L_MUL:
    case L_AND: return band(a, b);
    case L_OR: return bor(a, b);
    default: break;
    }
  }
  switch (op) {
  case L_ADD: return add(a, b);
  case L_SUB: return sub(a, b);
  case L_MUL: return mul(a, b);
  case L_SDIV: return sdiv(a, b);
  case L_SREM: return srem(a, b);
  case L_UDIV:
    if (isK(a) && isK(b)) return K(w, bval(UDIV, w, N[a].k, N[b].k));
    if (N[a].rlo >= 0 && N[b].rlo >= 0) return sdiv(a, b);
    return raw(UDIV, a, b, isK(b) && N[b].k > 1 ? 0 : minw(w), maxw(w));
  case L_UREM:
    if (isK(a) && isK(b)) return K(w, bval(UREM, w, N[a].k, N[b].k));
    if (N[a].rlo >= 0 && N[b].rlo >= 0) return srem(a, b);
    if (isK(b) && N[b].k && sgn(N[b].k, w) > 0) {
      u64 k = N[b].k;
      if ((k & (k - 1)) == 0) return andE(a, K(w, k - 1));
      return raw(UREM, a, b, 0, (i64)(k - 1));
    }
    return raw(UREM, a, b, minw(w), maxw(w));
  case L_SHL: return shl(a, b);
  case L_LSHR: return lshr(a, b);
  case L_ASHR: return ashr(a, b);
  case L_AND: return andE(a, b);
  case L_OR: return orE(a, b);
  case L_XOR: return xorE(a, b);
  default: fprintf(stderr, "sx: unknown binop %u\n", op); abort();
  }
}
// CmpInst predicates.
E icmp(unsigned p, E a, E b) {
  switch (p) {
  case 32: return eq(a, b);
  case 33: return bnot(eq(a, b));
  case 34: return ult(b, a);
  case 35: return bnot(ult(a, b));
  case 36: return ult(a, b);
  case 37: return bnot(ult(b, a));
  case 38: return slt(b, a);
  case 39: return bnot(slt(a, b));
  case 40: return slt(a, b);
  case 41: return bnot(slt(b, a));
  }
  fprintf(stderr, "sx: unknown predicate %u\n", p);
  abort();
}

// ---- path knowledge ----
static bool formRange(E f, i64& lo, i64& hi) {
  const Node& n = N[f];
  lo = n.rlo;
  hi = n.rhi;
  if (n.op == LIN && n.exact) {
    i128 l = sgn(n.k, n.w), h = l;
    for (unsigned i = 0; i < n.b; ++i) {
      Term t = T[n.a + i];
      i128 c = sgn(t.c, n.w);
      i128 p = c * N[t.e].rlo, q = c * N[t.e].rhi;
      if (p > q) std::swap(p, q);
      l += p;
      h += q;
      if (l < -((i128)1 << 100) || h > ((i128)1 << 100)) return true;
    }
    if (l > lo && fits(l, n.w)) lo = (i64)l;
    if (h < hi && fits(h, n.w)) hi = (i64)h;
  }
  return true;
}
int implied(E c) {
  auto it = Known->find(c);
  if (it != Known->end()) return it->second;
  const Node& n = N[c];
  switch (n.op) {
  case CONST: return (int)n.k;
  case BNOT: {
    int r = implied(n.a);
    return r < 0 ? r : !r;
  }
  case BAND: {
    int x = implied(n.a), y = implied(n.b);
    if (x == 0 || y == 0) return 0;
    if (x == 1 && y == 1) return 1;
    return -1;
  }
  case BOR: {
    int x = implied(n.a), y = implied(n.b);
    if (x == 1 || y == 1) return 1;
    if (x == 0 && y == 0) return 0;
    return -1;
  }
  case LE: {
    i64 lo, hi;
    formRange(n.a, lo, hi);
    if (hi <= (i64)n.k) return 1;
    if (lo > (i64)n.k) return 0;
    return -1;
  }
  case EQ: {
    i64 lo, hi;
    formRange(n.a, lo, hi);
    i64 k = sgn(n.k, N[n.a].w);
    if (k < lo || k > hi) return 0;
    if (lo == hi) return lo == k;
    return -1;
  }
  default: return -1;
  }
}
static void refine(E f, i64 lo, i64 hi) {
  Node& n = N[f];
  if (lo > n.rlo) n.rlo = lo;
  if (hi < n.rhi) n.rhi = hi;
  if (n.rlo > n.rhi) {
    // Contradictory (cannot happen on a feasible path); keep something sane.
    n.rlo = n.rhi = sgn(n.val, n.w);
  }
}
void learn(E c, bool v) {
  (*Known)[c] = v;
  const Node n = N[c];
  switch (n.op) {
  case BNOT: learn(n.a, !v); break;
  case BAND:
    if (v) {
      learn(n.a, true);
      learn(n.b, true);
    }
    break;
  case BOR:
    if (!v) {
      learn(n.a, false);
      learn(n.b, false);
    }
    break;
  case LE:
    if (v) refine(n.a, INT64_MIN, (i64)n.k);
    else if ((i64)n.k != INT64_MAX) refine(n.a, (i64)n.k + 1, INT64_MAX);
    break;
  case EQ: {
    i64 k = sgn(n.k, N[n.a].w);
    if (v) refine(n.a, k, k);
    else {
      if (k == N[n.a].rlo) refine(n.a, k + 1, INT64_MAX);
      else if (k == N[n.a].rhi) refine(n.a, INT64_MIN, k - 1);
    }
    break;
  }
  default: break;
  }
}

std::string toStr(E e, int d) {
  if (!e) return "<concrete>";
  const Node& n = N[e];
  auto s = [&](E x) { return d ? toStr(x, d - 1) : std::string("..."); };
  switch (n.op) {
  case CONST: return std::to_string(n.w == 1 ? (i64)n.k : sgn(n.k, n.w));
  case VAR: return "v" + std::to_string(n.k);
  case LIN: {
    std::string r = "(";
    for (unsigned i = 0; i < n.b; ++i) {
      Term t = T[n.a + i];
      if (i) r += " + ";
      i64 c = sgn(t.c, n.w);
      if (c != 1) r += std::to_string(c) + "*";
      r += s(t.e);
    }
    if (n.k) r += " + " + std::to_string(sgn(n.k, n.w));
    return r + ")";
  }
  case LE: return "(" + s(n.a) + " <= " + std::to_string((i64)n.k) + ")";
  case EQ: return "(" + s(n.a) + " == " + std::to_string(sgn(n.k, N[n.a].w)) + ")";
  case BNOT: return "!" + s(n.a);
  case ITE: return "(" + s(n.a) + " ? " + s(n.b) + " : " + s(n.c) + ")";
  default: {
    static const char* names[] = {"none", "const", "var", "lin", "*", "sdiv", "srem", "udiv", "urem", "&", "|", "^", "<<", ">>u", ">>", "zext", "sext", "trunc", "ite", "le", "eq", "<", "<u", "!", "&&", "||", "ovf"};
    std::string r = "(" + std::string(names[n.op]) + std::to_string(n.w);
    if (n.a) r += " " + s(n.a);
    if (n.b) r += " " + s(n.b);
    if (n.c) r += " " + s(n.c);
    return r + ")";
  }
  }
}
}  // namespace sx
