// Symbolic runtime. A harness runs natively-compiled, instrumented slinky code; every value derived from sx_int()
// carries an expression (expr.h). Branches on symbolic conditions become decisions. One forked process per path
// executes the path and then asks the SMT solver, for every new decision, whether the other side is feasible, and
// for every assertion whether it can fail on this path.
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <atomic>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

#include <z3.h>
#include "expr.h"
#include "sx.h"
#include "rt.h"

using namespace sx;

extern "C" {
uint32_t sx_arg_tls[64];
uint32_t sx_ret_tls[16];
void* sx_call_target;
void* sx_ret_valid;
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
struct sx_fn_entry { const char* name; u64 flag; };
extern sx_fn_entry __start_sx_funcs[] __attribute__((weak));
extern sx_fn_entry __stop_sx_funcs[] __attribute__((weak));
}

// ---- memory ----
static char* const BASE = (char*)0x200000000000ull;
static const u64 HEAP = 2ull << 30, STACK = 512ull << 20, REGION = HEAP + STACK;
static u64* const SHB = (u64*)0x210000000000ull;             // shadow: low 32 id, high 32 byte offset
static uint8_t* const POIS = (uint8_t*)0x220000000000ull;    // addressability, per 8 bytes
static uint8_t* const PAGEF = (uint8_t*)0x221000000000ull;   // page has shadows
static u64 bump = 64;
bool sxrt_arena_on = false;
static long live_allocs = 0;
static u64 live_bytes = 0, peak_bytes = 0, total_allocs = 0;

enum Mode { SETUP, ZYGOTE, PATH, DONE };
static Mode mode = SETUP;
struct Guard {
  bool old;
  Guard() : old(sxrt_arena_on) { sxrt_arena_on = false; }
  ~Guard() { sxrt_arena_on = old; }
};

static inline bool inRegion(const void* p) { return (u64)((char*)p - BASE) < REGION; }
static inline bool inHeap(const void* p) { return (u64)((char*)p - BASE) < HEAP; }

static void mapFixed(void* p, u64 n) {
  void* r = mmap(p, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r != p) {
    perror("sx: mmap");
    _exit(3);
  }
}

[[noreturn]] static void pathFail(const char* kind, const char* msg);
[[noreturn]] static void engineError(const char* fmt, ...);

static void* arenaAlloc(size_t n, size_t align) {
  if (align < 16) align = 16;
  if (n > (256ull << 20)) return nullptr;
  u64 start = bump + 32;
  start = (start + align - 1) & ~(u64)(align - 1);
  u64 end = start + n;
  if (end + 64 > HEAP) pathFail("oom", "arena exhausted");
  bump = (end + 31) & ~15ull;
  *(u64*)(BASE + start - 16) = n;
  *(u64*)(BASE + start - 8) = 0xa110ca7edull;
  u64 i = start >> 3;
  for (u64 r = n; r > 0; ++i) {
    if (r >= 8) {
      POIS[i] = 8;
      r -= 8;
    } else {
      POIS[i] = (uint8_t)r;
      r = 0;
    }
  }
  memset(BASE + start, 0xa5, n);
  ++live_allocs;
  ++total_allocs;
  live_bytes += n;
  if (live_bytes > peak_bytes) peak_bytes = live_bytes;
  return BASE + start;
}
static void arenaFree(void* p) {
  u64* h = (u64*)p - 2;
  if (h[1] != 0xa110ca7edull) {
    Guard g;
    pathFail("memory", h[1] == 0xdeadull ? "double free" : "free of a pointer that was not allocated");
  }
  h[1] = 0xdead;
  u64 n = h[0];
  u64 i = (u64)((char*)p - BASE) >> 3;
  memset(POIS + i, 0, (n + 7) / 8);
  --live_allocs;
  live_bytes -= n;
}
extern "C" {
void* malloc(size_t n) { return sxrt_arena_on ? arenaAlloc(n, 16) : __libc_malloc(n); }
void free(void* p) {
  if (!p) return;
  if (inHeap(p)) arenaFree(p);
  else __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (!sxrt_arena_on) return __libc_calloc(a, b);
  void* p = arenaAlloc(a * b, 16);
  if (p) memset(p, 0, a * b);
  return p;
}
void sxr_memcpy(void*, const void*, u64);
void* realloc(void* p, size_t n) {
  if (p && inHeap(p)) {
    void* q = sxrt_arena_on ? arenaAlloc(n, 16) : __libc_malloc(n);
    u64 m = std::min<u64>(n, ((u64*)p)[-2]);
    sxr_memcpy(q, p, m);
    memcpy(q, p, m);
    arenaFree(p);
    return q;
  }
  if (!p) return malloc(n);
  return __libc_realloc(p, n);
}
void* memalign(size_t a, size_t n) { return sxrt_arena_on ? arenaAlloc(n, a) : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) {
  *r = memalign(a, n);
  return *r ? 0 : ENOMEM;
}
size_t malloc_usable_size(void* p) { return p && inHeap(p) ? ((u64*)p)[-2] : 0; }
}

static std::map<u64, u64*>* slowPages;  // pages outside the region
static u64* slowShadow(const void* p, bool create) {
  u64 pg = (u64)p >> 12;
  auto it = slowPages->find(pg);
  u64* s;
  if (it == slowPages->end()) {
    if (!create) return nullptr;
    s = (u64*)__libc_calloc(4096, 8);
    (*slowPages)[pg] = s;
  } else {
    s = it->second;
  }
  return s + ((u64)p & 4095);
}
static inline u64 getSh(const char* p) {
  if (inRegion(p)) {
    u64 o = p - BASE;
    return PAGEF[o >> 12] ? SHB[o] : 0;
  }
  if (slowPages->empty()) return 0;
  u64* s = slowShadow(p, false);
  return s ? *s : 0;
}
static inline void setSh(char* p, u64 v) {
  if (inRegion(p)) {
    u64 o = p - BASE;
    if (!v && !PAGEF[o >> 12]) return;
    PAGEF[o >> 12] = 1;
    SHB[o] = v;
    return;
  }
  if (!v && slowPages->empty()) return;
  u64* s = slowShadow(p, v != 0);
  if (s) *s = v;
}
static inline bool noShadow(const char* p, u64 n) {
  if (inRegion(p)) {
    u64 o = p - BASE;
    for (u64 pg = o >> 12; pg <= (o + n - 1) >> 12; ++pg)
      if (PAGEF[pg]) return false;
    return true;
  }
  return slowPages->empty();
}
static inline void checkAccess(const char* p, u64 n, const char* what) {
  if (!inHeap(p) || n == 0) return;
  u64 o = p - BASE;
  u64 b = o >> 3, e = (o + n - 1) >> 3;
  for (u64 i = b; i < e; ++i) {
    if (POIS[i] != 8) {
      Guard g;
      pathFail("memory", what);
    }
  }
  if (POIS[e] <= ((o + n - 1) & 7)) {
    Guard g;
    pathFail("memory", what);
  }
}

// ---- shared state ----
enum { MAXCOV = 256, MAXFN = 1 << 16 };
struct Shared {
  std::atomic<u64> queries, sat, unsat, unknown, solver_us, fallback, intq;
  std::atomic<u64> assert_solver, assert_trivial, assert_concrete;
  std::atomic<u64> decisions, implied, concs, stale, maxdec, nodes, pathloop;
  std::atomic<u64> val_overflow, free_vals;
  std::atomic<u64> exec_us;
  char cov[MAXCOV];
  char fn[MAXFN];
};
static Shared* SH;

// ---- path state ----
enum DK : uint8_t { D_BR, D_ASSERT, D_ASSUME, D_ASSUMED, D_VAL, D_SWITCH };
struct Decision {
  DK kind;
  uint8_t taken;
  E e;
  u64 v;
  const char* msg;
  std::vector<u64>* cases;
  uint32_t nvars;
  u64 hash;  // hash of the prefix, excluding this decision
};
struct Var {
  std::string name;
  long lo, hi;
  E node;
};
static std::vector<Decision>* D;
static std::vector<Var>* V;
static std::vector<long>* IN;
static u64 prefixHash;
static uint32_t itemBound;
static u64 itemHash;
static u64 obsHash = 1469598103934665603ull;
static const char* harnessName;
static std::vector<std::string>* covNames;
static int outFd = -1;
static bool debug = false;
static u64 rlimitQ = 20000000;
static int maxVals = 2048;

static u64 nowus() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000000ull + t.tv_nsec / 1000;
}

static void wr(int fd, const void* p, size_t n) {
  const char* c = (const char*)p;
  while (n) {
    ssize_t k = write(fd, c, n);
    if (k < 0) {
      if (errno == EINTR) continue;
      _exit(4);
    }
    c += k;
    n -= k;
  }
}
struct Buf {
  std::string s;
  void u(u64 v) { s.append((char*)&v, 8); }
  void str(const std::string& x) {
    u(x.size());
    s += x;
  }
};
struct Rd {
  const char* p;
  u64 u() {
    u64 v;
    memcpy(&v, p, 8);
    p += 8;
    return v;
  }
  std::string str() {
    u64 n = u();
    std::string r(p, n);
    p += n;
    return r;
  }
};
enum { M_ITEM = 1, M_VIOL, M_END, M_ERR, M_SMT, M_HOT };
static void sendMsg(u64 kind, const Buf& b) {
  Buf h;
  h.u(kind);
  h.u(b.s.size());
  h.s += b.s;
  wr(outFd, h.s.data(), h.s.size());
}

static void engineError(const char* fmt, ...) {
  sxrt_arena_on = false;
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (mode == PATH) {
    Buf b;
    b.str(buf);
    sendMsg(M_ERR, b);
    _exit(0);
  }
  fprintf(stderr, "sx: engine error: %s\n", buf);
  _exit(3);
}

// ---- solver ----
static Z3_context zc;
static void zerr(Z3_context c, Z3_error_code e) { engineError("z3: %s", Z3_get_error_msg(c, e)); }
static std::unordered_map<E, Z3_ast>* memo;

static unsigned nb(i64 v) {
  u64 x = v < 0 ? ~(u64)v : (u64)v;
  return x ? 65 - __builtin_clzll(x) : 1;
}
static unsigned natW(E e) {
  const Node& n = N[e];
  unsigned r = std::max(nb(n.lo), nb(n.hi));
  return std::min<unsigned>(r, n.w);
}
static Z3_ast inc(Z3_ast a) { return a; }
static Z3_ast bvK(u64 v, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(zc, w);
  if (w <= 64) return Z3_mk_unsigned_int64(zc, v & maskw(w), s);
  // sign extend
  Z3_ast lo = Z3_mk_unsigned_int64(zc, v, Z3_mk_bv_sort(zc, 64));
  return Z3_mk_sign_ext(zc, w - 64, lo);
}
static Z3_ast resizeS(Z3_ast a, unsigned from, unsigned to) {
  if (from == to) return a;
  if (from < to) return Z3_mk_sign_ext(zc, to - from, a);
  return Z3_mk_extract(zc, to - 1, 0, a);
}
static Z3_ast enc(E e);
static Z3_ast encB(E e);
static Z3_ast encAt(E e, unsigned W) {
  if (isK(e)) return bvK(N[e].w >= 64 ? N[e].k : (u64)sgn(N[e].k, N[e].w), W);
  return resizeS(enc(e), natW(e), W);
}
// Value of e as an unsigned number of N[e].w bits, at width W >= w.
static Z3_ast encU(E e, unsigned W) {
  unsigned w = N[e].w;
  Z3_ast a = encAt(e, w);
  return W > w ? Z3_mk_zero_ext(zc, W - w, a) : a;
}
static Z3_ast varAst(E e) {
  char nm[32];
  snprintf(nm, sizeof nm, "v%u", (unsigned)N[e].k);
  return Z3_mk_const(zc, Z3_mk_string_symbol(zc, nm), Z3_mk_bv_sort(zc, natW(e)));
}
// Division by a non-constant (or of a wide dividend) is first abstracted: the quotient and remainder are fresh
// variables with the valid facts asserted in `axioms`. The exact definition in `defs` is added only if needed.
static std::vector<Z3_ast> axioms, defs;
static std::map<std::pair<E, E>, std::pair<Z3_ast, Z3_ast>>* divs;
static Z3_ast divPair(E ea, E eb, bool rem) {
  if (!divs) divs = new std::map<std::pair<E, E>, std::pair<Z3_ast, Z3_ast>>();
  auto& p = (*divs)[{ea, eb}];
  if (!p.first) {
    unsigned x = std::max(natW(ea), natW(eb)) + 1;
    Z3_ast a = encAt(ea, x), b = encAt(eb, x);
    Z3_sort s = Z3_mk_bv_sort(zc, x);
    char nm[32];
    int id = (int)divs->size();
    snprintf(nm, sizeof nm, "q%d", id);
    Z3_ast q = Z3_mk_const(zc, Z3_mk_string_symbol(zc, nm), s);
    snprintf(nm, sizeof nm, "r%d", id);
    Z3_ast r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, nm), s);
    p = {q, r};
    Z3_ast z = bvK(0, x);
    auto neg = [&](Z3_ast v) { return Z3_mk_bvslt(zc, v, z); };
    auto abs = [&](Z3_ast v) { return Z3_mk_ite(zc, neg(v), Z3_mk_bvneg(zc, v), v); };
    auto And = [&](std::vector<Z3_ast> v) { return Z3_mk_and(zc, v.size(), v.data()); };
    auto Or = [&](std::vector<Z3_ast> v) { return Z3_mk_or(zc, v.size(), v.data()); };
    Z3_ast bz = Z3_mk_eq(zc, b, z);
    Z3_ast aa = abs(a), ab = abs(b), ar = abs(r), aq = abs(q);
    Z3_ast small = Z3_mk_bvult(zc, aa, ab);
    Z3_ast facts = And({
        Z3_mk_bvult(zc, ar, ab),
        Z3_mk_bvule(zc, ar, aa),
        Z3_mk_bvule(zc, aq, aa),
        Or({Z3_mk_eq(zc, r, z), Z3_mk_eq(zc, neg(r), neg(a))}),
        Or({Z3_mk_eq(zc, q, z), Z3_mk_eq(zc, neg(q), Z3_mk_xor(zc, neg(a), neg(b)))}),
        Z3_mk_eq(zc, small, Z3_mk_eq(zc, q, z)),
        Z3_mk_implies(zc, small, Z3_mk_eq(zc, r, a)),
        Z3_mk_implies(zc, Z3_mk_eq(zc, b, bvK(1, x)), And({Z3_mk_eq(zc, q, a), Z3_mk_eq(zc, r, z)})),
        Z3_mk_implies(zc, Z3_mk_eq(zc, b, bvK(~0ull, x)), And({Z3_mk_eq(zc, q, Z3_mk_bvneg(zc, a)), Z3_mk_eq(zc, r, z)})),
        Z3_mk_implies(zc, And({Z3_mk_not(zc, Z3_mk_eq(zc, ab, bvK(1, x))), Z3_mk_not(zc, Z3_mk_eq(zc, q, z))}), Z3_mk_bvult(zc, aq, aa)),
    });
    Z3_ast zero = And({Z3_mk_eq(zc, q, bvK(~0ull, x)), Z3_mk_eq(zc, r, a)});
    axioms.push_back(Z3_mk_ite(zc, bz, zero, facts));
    unsigned y = 2 * x;
    Z3_ast prod = Z3_mk_bvmul(zc, Z3_mk_sign_ext(zc, x, q), Z3_mk_sign_ext(zc, x, b));
    Z3_ast sum = Z3_mk_bvadd(zc, prod, Z3_mk_sign_ext(zc, x, r));
    defs.push_back(Or({bz, Z3_mk_eq(zc, sum, Z3_mk_sign_ext(zc, x, a))}));
    (void)y;
  }
  return rem ? p.second : p.first;
}
static Z3_ast enc_(E e) {
  const Node n = N[e];
  unsigned W = natW(e);
  switch (n.op) {
  case CONST: return bvK((u64)(n.w >= 64 ? (i64)n.k : sgn(n.k, n.w)), W);
  case VAR: return varAst(e);
  case LIN: {
    Z3_ast r = nullptr;
    for (unsigned i = 0; i < n.b; ++i) {
      Term t = T[n.a + i];
      Z3_ast x = encAt(t.e, W);
      i64 c = sgn(t.c, n.w);
      bool neg = false;
      if (c != 1) {
        if (c == -1) {
          neg = true;
        } else {
          x = Z3_mk_bvmul(zc, bvK((u64)c, W), x);
        }
      }
      if (!r) r = neg ? Z3_mk_bvneg(zc, x) : x;
      else r = neg ? Z3_mk_bvsub(zc, r, x) : Z3_mk_bvadd(zc, r, x);
    }
    if (n.k) r = Z3_mk_bvadd(zc, r, bvK((u64)sgn(n.k, n.w), W));
    return r;
  }
  case MUL: {
    unsigned na = natW(n.a), nb_ = natW(n.b);
    if (n.exact && na > 8 && nb_ > 8 && na + nb_ > 24 && na + nb_ <= 128) {
      // Abstracted like division: fresh product with valid facts, exact definition on demand.
      unsigned x = na + nb_;
      Z3_ast a = encAt(n.a, x), b = encAt(n.b, x);
      char nm[32];
      snprintf(nm, sizeof nm, "m%u", e);
      Z3_ast p = Z3_mk_const(zc, Z3_mk_string_symbol(zc, nm), Z3_mk_bv_sort(zc, x));
      Z3_ast z = bvK(0, x);
      auto neg = [&](Z3_ast v) { return Z3_mk_bvslt(zc, v, z); };
      auto abs = [&](Z3_ast v) { return Z3_mk_ite(zc, neg(v), Z3_mk_bvneg(zc, v), v); };
      auto And = [&](std::vector<Z3_ast> v) { return Z3_mk_and(zc, v.size(), v.data()); };
      auto Or = [&](std::vector<Z3_ast> v) { return Z3_mk_or(zc, v.size(), v.data()); };
      Z3_ast az = Z3_mk_eq(zc, a, z), bz = Z3_mk_eq(zc, b, z), pz = Z3_mk_eq(zc, p, z);
      Z3_ast ap = abs(p);
      axioms.push_back(And({
          Z3_mk_eq(zc, pz, Or({az, bz})),
          Or({pz, Z3_mk_eq(zc, neg(p), Z3_mk_xor(zc, neg(a), neg(b)))}),
          Or({pz, And({Z3_mk_bvuge(zc, ap, abs(a)), Z3_mk_bvuge(zc, ap, abs(b))})}),
          Z3_mk_implies(zc, Z3_mk_eq(zc, a, bvK(1, x)), Z3_mk_eq(zc, p, b)),
          Z3_mk_implies(zc, Z3_mk_eq(zc, b, bvK(1, x)), Z3_mk_eq(zc, p, a)),
          Z3_mk_implies(zc, Z3_mk_eq(zc, a, bvK(~0ull, x)), Z3_mk_eq(zc, p, Z3_mk_bvneg(zc, b))),
          Z3_mk_implies(zc, Z3_mk_eq(zc, b, bvK(~0ull, x)), Z3_mk_eq(zc, p, Z3_mk_bvneg(zc, a))),
      }));
      defs.push_back(Z3_mk_eq(zc, p, Z3_mk_bvmul(zc, a, b)));
      return resizeS(p, x, W);
    }
    return Z3_mk_bvmul(zc, encAt(n.a, W), encAt(n.b, W));
  }
  case AND: return Z3_mk_bvand(zc, encAt(n.a, W), encAt(n.b, W));
  case OR: return Z3_mk_bvor(zc, encAt(n.a, W), encAt(n.b, W));
  case XOR: return Z3_mk_bvxor(zc, encAt(n.a, W), encAt(n.b, W));
  case SDIV:
  case SREM: {
    unsigned x = std::max(natW(n.a), natW(n.b)) + 1;
    if (!isK(n.b) || natW(n.a) > 24) return resizeS(divPair(n.a, n.b, n.op == SREM), x, W);
    Z3_ast a = encAt(n.a, x), b = encAt(n.b, x);
    Z3_ast r = n.op == SDIV ? Z3_mk_bvsdiv(zc, a, b) : Z3_mk_bvsrem(zc, a, b);
    return resizeS(r, x, W);
  }
  case UDIV: return resizeS(Z3_mk_bvudiv(zc, encU(n.a, n.w), encU(n.b, n.w)), n.w, W);
  case UREM: return resizeS(Z3_mk_bvurem(zc, encU(n.a, n.w), encU(n.b, n.w)), n.w, W);
  case SHL: return resizeS(Z3_mk_bvshl(zc, encAt(n.a, n.w), encAt(n.b, n.w)), n.w, W);
  case LSHR: return resizeS(Z3_mk_bvlshr(zc, encAt(n.a, n.w), encAt(n.b, n.w)), n.w, W);
  case ASHR: {
    unsigned x = natW(n.a);
    if (isK(n.b)) {
      u64 k = std::min<u64>(N[n.b].k, x - 1);
      Z3_ast r = Z3_mk_bvashr(zc, enc(n.a), bvK(k, x));
      return resizeS(r, x, W);
    }
    return resizeS(Z3_mk_bvashr(zc, encAt(n.a, n.w), encAt(n.b, n.w)), n.w, W);
  }
  case ZEXT: {
    unsigned w = N[n.a].w;
    return resizeS(Z3_mk_zero_ext(zc, n.w - w, encAt(n.a, w)), n.w, W);
  }
  case SEXT: return encAt(n.a, W);
  case TRUNC: return encAt(n.a, W);
  case ITE: return Z3_mk_ite(zc, encB(n.a), encAt(n.b, W), encAt(n.c, W));
  default: engineError("enc: op %d", n.op);
  }
}
static Z3_ast enc(E e) {
  Z3_ast r;
  if (N[e].w == 1) {
    // boolean as bit
    r = Z3_mk_ite(zc, encB(e), bvK(1, 1), bvK(0, 1));
    return inc(r);
  }
  auto it = memo->find(e);
  if (it != memo->end()) return it->second;
  r = inc(enc_(e));
  (*memo)[e] = r;
  return r;
}
static Z3_ast encB_(E e) {
  const Node n = N[e];
  switch (n.op) {
  case CONST: return n.k ? Z3_mk_true(zc) : Z3_mk_false(zc);
  case BNOT: return Z3_mk_not(zc, encB(n.a));
  case BAND: {
    Z3_ast a[2] = {encB(n.a), encB(n.b)};
    return Z3_mk_and(zc, 2, a);
  }
  case BOR: {
    Z3_ast a[2] = {encB(n.a), encB(n.b)};
    return Z3_mk_or(zc, 2, a);
  }
  case ITE: return Z3_mk_ite(zc, encB(n.a), encB(n.b), encB(n.c));
  case LE: {
    unsigned W = std::max(natW(n.a), nb((i64)n.k));
    return Z3_mk_bvsle(zc, encAt(n.a, W), bvK(n.k, W));
  }
  case EQ: {
    unsigned w = N[n.a].w;
    i64 k = sgn(n.k, w);
    unsigned W = std::max(natW(n.a), nb(k));
    return Z3_mk_eq(zc, encAt(n.a, W), bvK((u64)k, W));
  }
  case SLT: {
    unsigned W = std::max(natW(n.a), natW(n.b));
    return Z3_mk_bvslt(zc, encAt(n.a, W), encAt(n.b, W));
  }
  case ULT: {
    unsigned W = N[n.a].w;
    return Z3_mk_bvult(zc, encAt(n.a, W), encAt(n.b, W));
  }
  case OVF: {
    unsigned w = N[n.a].w;
    unsigned W;
    if (n.aux < 3) {
      W = n.aux == 2 ? natW(n.a) + natW(n.b) : std::max(natW(n.a), natW(n.b)) + 1;
      if (W <= w) return Z3_mk_false(zc);
      Z3_ast a = encAt(n.a, W), b = encAt(n.b, W), r;
      r = n.aux == 0 ? Z3_mk_bvadd(zc, a, b) : n.aux == 1 ? Z3_mk_bvsub(zc, a, b) : Z3_mk_bvmul(zc, a, b);
      Z3_ast o[2] = {Z3_mk_bvslt(zc, r, bvK((u64)minw(w), W)), Z3_mk_bvsgt(zc, r, bvK((u64)maxw(w), W))};
      return Z3_mk_or(zc, 2, o);
    }
    W = n.aux == 5 ? 2 * w : w + 1;
    Z3_ast a = encU(n.a, W), b = encU(n.b, W);
    if (n.aux == 4) return Z3_mk_bvult(zc, a, b);
    Z3_ast r = n.aux == 3 ? Z3_mk_bvadd(zc, a, b) : Z3_mk_bvmul(zc, a, b);
    Z3_ast hi = Z3_mk_extract(zc, W - 1, w, r);
    return Z3_mk_not(zc, Z3_mk_eq(zc, hi, bvK(0, W - w)));
  }
  default: engineError("encB: op %d", n.op);
  }
}
static Z3_ast encB(E e) {
  auto it = memo->find(e);
  if (it != memo->end()) return it->second;
  Z3_ast r = inc(encB_(e));
  (*memo)[e] = r;
  return r;
}

// ---- integer encoding ----
// Linear arithmetic is decided over the integers first: nodes whose value is exact (cannot wrap on this path) are
// encoded as such, anything else as a fresh bounded integer. Unsatisfiable is then conclusive; a model is evaluated on
// the expressions themselves and only used if it satisfies all of them. Everything else goes to the bit-vector solver.
static std::unordered_map<E, Z3_ast>* imemo;
static std::vector<Z3_ast> iaxioms;
static Z3_sort intSort;
static Z3_ast iK(i64 v) { return Z3_mk_int64(zc, v, intSort); }
static Z3_ast ienc(E e);
static Z3_ast iencB(E e);
static Z3_ast ifresh(E e, bool boolean) {
  char nm[32];
  snprintf(nm, sizeof nm, "i%u", e);
  if (boolean) return Z3_mk_const(zc, Z3_mk_string_symbol(zc, nm), Z3_mk_bool_sort(zc));
  Z3_ast v = Z3_mk_const(zc, Z3_mk_string_symbol(zc, nm), intSort);
  iaxioms.push_back(Z3_mk_ge(zc, v, iK(N[e].lo)));
  iaxioms.push_back(Z3_mk_le(zc, v, iK(N[e].hi)));
  return v;
}
static Z3_ast ienc_(E e) {
  const Node n = N[e];
  switch (n.op) {
  case CONST: return iK(sgn(n.k, n.w));
  case VAR: {
    char nm[32];
    snprintf(nm, sizeof nm, "w%u", (unsigned)n.k);
    Z3_ast v = Z3_mk_const(zc, Z3_mk_string_symbol(zc, nm), intSort);
    iaxioms.push_back(Z3_mk_ge(zc, v, iK(n.lo)));
    iaxioms.push_back(Z3_mk_le(zc, v, iK(n.hi)));
    return v;
  }
  case LIN: {
    if (!n.exact) return ifresh(e, false);
    std::vector<Z3_ast> ts;
    for (unsigned i = 0; i < n.b; ++i) {
      Term t = T[n.a + i];
      i64 c = sgn(t.c, n.w);
      Z3_ast x = ienc(t.e);
      if (c != 1) {
        Z3_ast m[2] = {iK(c), x};
        x = Z3_mk_mul(zc, 2, m);
      }
      ts.push_back(x);
    }
    if (n.k) ts.push_back(iK(sgn(n.k, n.w)));
    return ts.size() == 1 ? ts[0] : Z3_mk_add(zc, ts.size(), ts.data());
  }
  case SDIV:
  case SREM: {
    if (!isK(n.b)) return ifresh(e, false);
    i64 d = sgn(N[n.b].k, N[n.b].w);
    if (d == 0 || d == INT64_MIN || (d == -1 && N[n.a].lo == minw(n.w))) return ifresh(e, false);
    i64 ad = d < 0 ? -d : d;
    Z3_ast a = ienc(n.a), z = iK(0), K = iK(ad);
    // Truncating division by |d|, in terms of Euclidean division.
    Z3_ast na = Z3_mk_unary_minus(zc, a);
    bool nonneg = N[n.a].lo >= 0;
    Z3_ast ge = Z3_mk_ge(zc, a, z);
    if (n.op == SDIV) {
      Z3_ast q = Z3_mk_div(zc, a, K);
      if (!nonneg) q = Z3_mk_ite(zc, ge, q, Z3_mk_unary_minus(zc, Z3_mk_div(zc, na, K)));
      return d < 0 ? Z3_mk_unary_minus(zc, q) : q;
    }
    Z3_ast r = Z3_mk_mod(zc, a, K);
    if (!nonneg) r = Z3_mk_ite(zc, ge, r, Z3_mk_unary_minus(zc, Z3_mk_mod(zc, na, K)));
    return r;
  }
  case SEXT: return ienc(n.a);
  case TRUNC: return fits(N[n.a].lo, n.w) && fits(N[n.a].hi, n.w) ? ienc(n.a) : ifresh(e, false);
  case ZEXT:
    if (N[n.a].w == 1) return Z3_mk_ite(zc, iencB(n.a), iK(1), iK(0));
    return N[n.a].lo >= 0 ? ienc(n.a) : ifresh(e, false);
  case ITE: return Z3_mk_ite(zc, iencB(n.a), ienc(n.b), ienc(n.c));
  default: return ifresh(e, false);
  }
}
static Z3_ast ienc(E e) {
  if (N[e].w == 1) return Z3_mk_ite(zc, iencB(e), iK(-1), iK(0));
  auto it = imemo->find(e);
  if (it != imemo->end()) return it->second;
  Z3_ast r = ienc_(e);
  (*imemo)[e] = r;
  return r;
}
static Z3_ast iencB_(E e) {
  const Node n = N[e];
  switch (n.op) {
  case CONST: return n.k ? Z3_mk_true(zc) : Z3_mk_false(zc);
  case BNOT: return Z3_mk_not(zc, iencB(n.a));
  case BAND: {
    Z3_ast a[2] = {iencB(n.a), iencB(n.b)};
    return Z3_mk_and(zc, 2, a);
  }
  case BOR: {
    Z3_ast a[2] = {iencB(n.a), iencB(n.b)};
    return Z3_mk_or(zc, 2, a);
  }
  case ITE: return Z3_mk_ite(zc, iencB(n.a), iencB(n.b), iencB(n.c));
  case LE: return Z3_mk_le(zc, ienc(n.a), iK((i64)n.k));
  case EQ:
    if (N[n.a].w == 1) return n.k ? iencB(n.a) : Z3_mk_not(zc, iencB(n.a));
    return Z3_mk_eq(zc, ienc(n.a), iK(sgn(n.k, N[n.a].w)));
  case SLT: return Z3_mk_lt(zc, ienc(n.a), ienc(n.b));
  case ULT:
    if (N[n.a].w > 1 && N[n.a].lo >= 0 && N[n.b].lo >= 0) return Z3_mk_lt(zc, ienc(n.a), ienc(n.b));
    return ifresh(e, true);
  default: return ifresh(e, true);
  }
}
static Z3_ast iencB(E e) {
  auto it = imemo->find(e);
  if (it != imemo->end()) return it->second;
  Z3_ast r = iencB_(e);
  (*imemo)[e] = r;
  return r;
}

static void initZ3() {
  if (zc) return;
  Z3_global_param_set("smt.threads", "1");
  Z3_config cfg = Z3_mk_config();
  zc = Z3_mk_context(cfg);
  Z3_set_error_handler(zc, zerr);
  memo = new std::unordered_map<E, Z3_ast>();
  imemo = new std::unordered_map<E, Z3_ast>();
  intSort = Z3_mk_int_sort(zc);
  {
    Z3_solver s = Z3_mk_simple_solver(zc);
    Z3_solver_inc_ref(zc, s);
    Z3_ast x = Z3_mk_const(zc, Z3_mk_string_symbol(zc, "iwarm"), intSort);
    Z3_solver_assert(zc, s, Z3_mk_lt(zc, x, iK(3)));
    Z3_solver_check(zc, s);
    Z3_solver_dec_ref(zc, s);
  }
  // warm up
  Z3_solver s = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
  Z3_solver_inc_ref(zc, s);
  Z3_ast x = Z3_mk_const(zc, Z3_mk_string_symbol(zc, "warm"), Z3_mk_bv_sort(zc, 8));
  Z3_solver_assert(zc, s, Z3_mk_bvult(zc, x, bvK(3, 8)));
  Z3_solver_check(zc, s);
  Z3_solver_dec_ref(zc, s);
}

// A condition (L_IS, negated unless v), or e == v / e != v.
enum LK : uint8_t { L_IS, L_EQ, L_NE };
struct Lit {
  LK k;
  E e;
  u64 v;
};
static u64 sxrt_evalKeep(E e, const std::vector<long>& in);
static void sxrt_evalReset();

struct Solver {
  Z3_solver s = nullptr, si = nullptr;
  size_t nvars = 0, lvars = 0, bvDone = 0, bvVars = 0, siDone = 0;
  int smtSent = 0;
  std::vector<Z3_ast> all;
  std::vector<Lit> lits;
  void init() {}
  void initBV() {
    if (s) return;
    s = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
    Z3_solver_inc_ref(zc, s);
    if (rlimitQ) setParam(s, rlimitQ);
  }
  void setParam(Z3_solver s, u64 limit) {
    Z3_params p = Z3_mk_params(zc);
    Z3_params_inc_ref(zc, p);
    Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), (unsigned)limit);
    Z3_solver_set_params(zc, s, p);
    Z3_params_dec_ref(zc, p);
  }
  void addZ(Z3_ast a) {
    all.push_back(a);
    Z3_solver_assert(zc, s, a);
  }
  void add(Lit l) { lits.push_back(l); }
  void addVars(size_t n) { nvars = std::max(nvars, n); }
  static Z3_ast bv(const Lit& l) {
    if (l.k == L_IS) {
      Z3_ast c = encB(l.e);
      return l.v ? c : Z3_mk_not(zc, c);
    }
    i64 sv = sgn(l.v, N[l.e].w);
    unsigned W = std::max(natW(l.e), nb(sv));
    Z3_ast q = Z3_mk_eq(zc, encAt(l.e, W), bvK((u64)sv, W));
    return l.k == L_EQ ? q : Z3_mk_not(zc, q);
  }
  static Z3_ast in(const Lit& l) {
    if (l.k == L_IS) {
      Z3_ast c = iencB(l.e);
      return l.v ? c : Z3_mk_not(zc, c);
    }
    Z3_ast q = Z3_mk_eq(zc, ienc(l.e), iK(sgn(l.v, N[l.e].w)));
    return l.k == L_EQ ? q : Z3_mk_not(zc, q);
  }
  bool holds(const Lit& l, const std::vector<long>& vals) {
    u64 v = sxrt_evalKeep(l.e, vals), m = maskw(N[l.e].w);
    return l.k == L_IS ? (v != 0) == (l.v != 0) : l.k == L_EQ ? v == (l.v & m) : v != (l.v & m);
  }
  // -2: not decided
  int checkInt(const std::vector<Lit>& extra, size_t nv, std::vector<long>& vals) {
    if (!si) {
      si = Z3_mk_simple_solver(zc);
      Z3_solver_inc_ref(zc, si);
      setParam(si, 300000);
    }
    for (; siDone < lits.size(); ++siDone) Z3_solver_assert(zc, si, in(lits[siDone]));
    std::vector<Z3_ast> ex;
    for (auto& l : extra) ex.push_back(in(l));
    for (auto a : iaxioms) Z3_solver_assert(zc, si, a);
    iaxioms.clear();
    Z3_solver_push(zc, si);
    for (auto a : ex) Z3_solver_assert(zc, si, a);
    Z3_lbool r = Z3_solver_check(zc, si);
    int res = r == Z3_L_FALSE ? 0 : -2;
    if (r == Z3_L_TRUE) {
      Z3_model m = Z3_solver_get_model(zc, si);
      Z3_model_inc_ref(zc, m);
      std::vector<long> mv(nv);
      for (size_t i = 0; i < nv; ++i) {
        mv[i] = (*IN)[i];
        E e = (*V)[i].node;
        if (!e || isK(e)) continue;
        auto it = imemo->find(e);
        if (it == imemo->end()) continue;
        Z3_ast out = Z3_model_get_const_interp(zc, m, Z3_get_app_decl(zc, Z3_to_app(zc, it->second)));
        int64_t v = 0;
        if (out && Z3_get_numeral_int64(zc, out, &v)) mv[i] = v;
      }
      Z3_model_dec_ref(zc, m);
      sxrt_evalReset();
      bool ok = true;
      for (size_t i = 0; i < nv && ok; ++i) {
        E e = (*V)[i].node;
        if (e && !isK(e)) ok = mv[i] >= N[e].lo && mv[i] <= N[e].hi;
      }
      for (auto& l : extra) ok = ok && holds(l, mv);
      for (auto& l : lits) ok = ok && holds(l, mv);
      if (ok) {
        vals = mv;
        res = 1;
      }
    }
    Z3_solver_pop(zc, si, 1);
    return res;
  }
  void flushBV() {
    initBV();
    for (; bvVars < nvars; ++bvVars) {
      E e = (*V)[bvVars].node;
      if (!e || isK(e)) continue;
      unsigned W = natW(e);
      const Node& x = N[e];
      if (x.lo != minw(W)) addZ(Z3_mk_bvsge(zc, varAst(e), bvK((u64)x.lo, W)));
      if (x.hi != maxw(W)) addZ(Z3_mk_bvsle(zc, varAst(e), bvK((u64)x.hi, W)));
    }
    for (; bvDone < lits.size(); ++bvDone) addZ(bv(lits[bvDone]));
  }
  // Is prefix && extra satisfiable? Fills values of the first nv variables.
  // 1 sat, 0 unsat, -1 unknown
  int check(const std::vector<Lit>& lextra, size_t nv, std::vector<long>& vals) {
    u64 t0 = nowus();
    SH->queries++;
    int ri = checkInt(lextra, nv, vals);
    if (ri != -2) {
      SH->solver_us += nowus() - t0;
      SH->intq++;
      if (ri == 1) SH->sat++;
      else SH->unsat++;
      return ri;
    }
    flushBV();
    std::vector<Z3_ast> extra;
    for (auto& l : lextra) extra.push_back(bv(l));
    for (auto a : axioms) addZ(a);
    axioms.clear();
    Z3_lbool r;
    Z3_solver_push(zc, s);
    for (auto a : extra) Z3_solver_assert(zc, s, a);
    r = Z3_solver_check(zc, s);
    if (r != Z3_L_FALSE && !defs.empty()) {
      for (auto a : defs) Z3_solver_assert(zc, s, a);
      for (auto a : defs) extra.push_back(a);
      r = Z3_solver_check(zc, s);
    }
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1) {
      Z3_model m = Z3_solver_get_model(zc, s);
      Z3_model_inc_ref(zc, m);
      vals.resize(nv);
      for (size_t i = 0; i < nv; ++i) {
        vals[i] = (*IN)[i];
        E e = (*V)[i].node;
        if (!e || isK(e)) continue;
        Z3_ast va = varAst(e);
        Z3_func_decl fd = Z3_get_app_decl(zc, Z3_to_app(zc, va));
        Z3_ast out = Z3_model_get_const_interp(zc, m, fd);
        if (out) {
          uint64_t v = 0;
          if (Z3_get_numeral_uint64(zc, out, &v)) vals[i] = sgn(v, natW(e));
        }
      }
      Z3_model_dec_ref(zc, m);
    }
    if (res == -1) {
      SH->fallback++;
      res = fallback(extra, nv, vals);
    }
    Z3_solver_pop(zc, s, 1);
    u64 dt = nowus() - t0;
    SH->solver_us += dt;
    if (res == 1) SH->sat++;
    else if (res == 0) SH->unsat++;
    else {
      SH->unknown++;
      if (const char* d = getenv("SX_DUMP")) {
        char p[256];
        snprintf(p, sizeof p, "%s/unk%d_%lu.smt2", d, getpid(), (long)SH->unknown.load());
        FILE* f = fopen(p, "w");
        std::string q = smt2(extra) + "(check-sat)\n";
        fwrite(q.data(), 1, q.size(), f);
        fclose(f);
      }
    }
    return res;
  }
  std::string smt2(const std::vector<Lit>& lextra) {
    flushBV();
    std::vector<Z3_ast> extra;
    for (auto& l : lextra) extra.push_back(bv(l));
    return smt2(extra);
  }
  std::string smt2(const std::vector<Z3_ast>& extra) {
    std::string r = "(set-logic QF_BV)\n";
    std::vector<Z3_ast> as = all;
    as.insert(as.end(), extra.begin(), extra.end());
    Z3_solver t = Z3_mk_simple_solver(zc);
    Z3_solver_inc_ref(zc, t);
    for (auto a : as) Z3_solver_assert(zc, t, a);
    r += Z3_solver_to_string(zc, t);
    Z3_solver_dec_ref(zc, t);
    return r;
  }
  // Portfolio on unknown: a fresh non-incremental z3, then cvc5 with the integer encoding.
  int fallback(const std::vector<Z3_ast>& extra, size_t nv, std::vector<long>& vals) {
    std::string q = smt2(extra) + "(check-sat)\n(get-model)\n";
    char path[256];
    const char* tmp = getenv("SX_TMP");
    snprintf(path, sizeof path, "%s/q%d.smt2", tmp ? tmp : "/tmp", getpid());
    static const char* cmds[] = {
        "timeout 20 z3 -smt2 %s 2>/dev/null",
        "timeout 30 cvc5 --solve-bv-as-int=sum --produce-models %s 2>/dev/null",
        "timeout 30 cvc5 --produce-models %s 2>/dev/null",
    };
    FILE* f = fopen(path, "w");
    if (!f) return -1;
    fwrite(q.data(), 1, q.size(), f);
    fclose(f);
    int res = -1;
    for (auto c : cmds) {
      char cmd[512];
      snprintf(cmd, sizeof cmd, c, path);
      FILE* p = popen(cmd, "r");
      if (!p) continue;
      std::string out;
      char b[4096];
      size_t k;
      while ((k = fread(b, 1, sizeof b, p)) > 0) out.append(b, k);
      pclose(p);
      if (out.find("(error") != std::string::npos && out.compare(0, 5, "unsat") != 0) continue;
      if (out.compare(0, 5, "unsat") == 0) {
        res = 0;
        break;
      }
      if (out.compare(0, 3, "sat") == 0) {
        vals.resize(nv);
        for (size_t i = 0; i < nv; ++i) {
          vals[i] = (*IN)[i];
          E e = (*V)[i].node;
          if (!e || isK(e)) continue;
          std::string key = "define-fun v" + std::to_string(N[e].k) + " ";
          size_t at = out.find(key);
          if (at == std::string::npos) continue;
          size_t h = out.find('#', at);
          if (h == std::string::npos) continue;
          u64 v = out[h + 1] == 'x' ? strtoull(out.c_str() + h + 2, 0, 16) : strtoull(out.c_str() + h + 2, 0, 2);
          vals[i] = sgn(v, natW(e));
        }
        res = 1;
        break;
      }
    }
    unlink(path);
    return res;
  }
};

// ---- decisions ----
static void pushD(DK k, bool taken, E e, u64 v = 0, const char* msg = nullptr, std::vector<u64>* cases = nullptr) {
  Decision d;
  d.kind = k;
  d.taken = taken;
  d.e = e;
  d.v = v;
  d.msg = msg;
  d.cases = cases;
  d.nvars = V->size();
  d.hash = prefixHash;
  D->push_back(d);
  prefixHash = mix(mix(mix(prefixHash, N[e].h), taken), (k == D_VAL || k == D_SWITCH) ? v : 0);
  if (D->size() == itemBound && prefixHash != itemHash) {
    engineError("divergence at decision %zu (%s)", D->size(), toStr(e).c_str());
  }
  if (debug) fprintf(stderr, "D%zu k%d %s = %d %ld\n", D->size() - 1, k, toStr(e).c_str(), taken, (long)v);
  if (D->size() > 20000) pathFail("limit", "too many decisions on one path");
}
// e is a boolean; record that it evaluated to taken.
static void decide(E e, bool taken) {
  if (isK(e)) {
    if ((N[e].k != 0) != taken) engineError("inconsistent constant branch");
    return;
  }
  if (N[e].val != taken) engineError("inconsistent branch %s: model %d, real %d", toStr(e).c_str(), (int)N[e].val, taken);
  int im = implied(e);
  if (im >= 0) {
    if (im != taken) engineError("implied mismatch %s", toStr(e).c_str());
    SH->implied++;
    return;
  }
  bool t = taken;
  E x = e;
  while (N[x].op == BNOT) {
    x = N[x].a;
    t = !t;
  }
  pushD(D_BR, t, x);
  learn(x, t);
}
static void decideVal(E e, u64 v) {
  const Node& n = N[e];
  v &= maskw(n.w);
  if (isK(e)) return;
  if (n.w == 1) {
    decide(e, v & 1);
    return;
  }
  if (n.val != v) engineError("inconsistent value %s: model %lx real %lx", toStr(e).c_str(), (long)n.val, (long)v);
  if (n.rlo == n.rhi) return;
  E q = eq(e, K(n.w, v));
  if (isK(q)) return;
  if (implied(q) == 1) return;
  SH->concs++;
  pushD(D_VAL, 1, e, v);
  learn(q, true);
}

// ---- path end ----
static bool finishing = false;
[[noreturn]] static void childFinish(const char* fkind, const char* fmsg);

static u64 pathStart;
static void sendViol(const std::string& kind, const std::string& msg, const std::vector<long>& in, size_t n) {
  Buf b;
  b.str(kind);
  b.str(msg);
  b.u(n);
  for (size_t i = 0; i < n; ++i) b.u((u64)in[i]);
  sendMsg(M_VIOL, b);
}

static void sendItem(const std::vector<long>& in, size_t n, size_t bound, u64 hash) {
  Buf b;
  b.u(n);
  for (size_t i = 0; i < n; ++i) b.u((u64)in[i]);
  b.u(bound);
  b.u(hash);
  sendMsg(M_ITEM, b);
}
static bool solveTrace = false;
// True if decisions [0, n) do not depend on input k.
static bool unconstrained(size_t n, u64 k) {
  static std::vector<char> seen, used;
  static size_t done = 0;
  static std::vector<E> st;
  if (seen.size() < N.size()) seen.resize(N.size(), 0);
  for (; done < n; ++done) {
    st.push_back((*D)[done].e);
    while (!st.empty()) {
      E e = st.back();
      st.pop_back();
      if (e >= seen.size() || seen[e]) continue;
      seen[e] = 1;
      const Node& x = N[e];
      switch (x.op) {
      case NONE: case CONST: break;
      case VAR:
        if (used.size() <= x.k) used.resize(x.k + 1, 0);
        used[x.k] = 1;
        break;
      case LIN:
        for (unsigned i = 0; i < x.b; ++i) st.push_back(T[x.a + i].e);
        break;
      default:
        st.push_back(x.a);
        if (x.b) st.push_back(x.b);
        if (x.c) st.push_back(x.c);
      }
    }
  }
  return k >= used.size() || !used[k];
}
[[noreturn]] static void childFinish(const char* fkind, const char* fmsg) {
  sxrt_arena_on = false;
  if (finishing) _exit(5);
  finishing = true;
  // No time limit while solving other than the coordinator's.
  itimerval it;
  memset(&it, 0, sizeof it);
  setitimer(ITIMER_REAL, &it, nullptr);
  SH->exec_us += nowus() - pathStart;
  if (D->size() < itemBound) {
    if (fkind == nullptr || strcmp(fkind, "limit") == 0) engineError("divergence: path ended after %zu of %u decisions", D->size(), itemBound);
  }
  if (fkind) sendViol(fkind, fmsg, *IN, V->size());
  // Coverage.
  u64 nf = __stop_sx_funcs - __start_sx_funcs;
  if (__start_sx_funcs)
    for (u64 i = 0; i < nf && i < MAXFN; ++i)
      if (__start_sx_funcs[i].flag) SH->fn[i] = 1;
  SH->decisions += D->size() > itemBound ? D->size() - itemBound : 0;
  SH->nodes += N.size();
  u64 md = SH->maxdec;
  while (D->size() > md && !SH->maxdec.compare_exchange_weak(md, D->size())) {}

  std::map<E, std::pair<int, int>> hot;
  if (D->size() > itemBound || true) {
    bool any = false;
    for (size_t i = itemBound; i < D->size(); ++i) any |= (*D)[i].kind != D_ASSUMED;
    if (any) {
      initZ3();
      Solver S;
      S.init();
      std::vector<long> vals;
      for (size_t i = 0; i < D->size(); ++i) {
        Decision& d = (*D)[i];
        S.addVars(d.nvars);
        if (d.kind == D_VAL || d.kind == D_SWITCH) {
          i64 sv = sgn(d.v, N[d.e].w);
          if (d.kind == D_VAL) {
            if (i >= itemBound && N[d.e].op == VAR && unconstrained(i, N[d.e].k) && (u64)(N[d.e].hi - N[d.e].lo) < (u64)maxVals) {
              // An input no earlier decision depends on: every value of its range is feasible.
              std::vector<long> mv(IN->begin(), IN->begin() + d.nvars);
              for (i64 k = N[d.e].lo; k <= N[d.e].hi; ++k) {
                if (k == sv) continue;
                mv[N[d.e].k] = k;
                SH->free_vals++;
                sendItem(mv, d.nvars, i + 1, mix(mix(mix(d.hash, N[d.e].h), 1), (u64)k & maskw(N[d.e].w)));
              }
            } else if (i >= itemBound) {
              std::vector<Lit> ex{{L_NE, d.e, d.v}};
              int cnt = 1;
              for (;;) {
                if (cnt++ > maxVals) {
                  SH->val_overflow++;
                  break;
                }
                int r = S.check(ex, d.nvars, vals);
                if (r != 1) break;
                // evaluate the expression under the model
                std::vector<long> mv = vals;
                // the value of d.e: recompute through the DAG
                u64 nv = sxrt_eval(d.e, mv);
                u64 h = mix(mix(mix(d.hash, N[d.e].h), 1), nv & maskw(N[d.e].w));
                sendItem(mv, d.nvars, i + 1, h);
                ex.push_back({L_NE, d.e, nv});
              }
            }
            S.add({L_EQ, d.e, d.v});
          } else {
            // switch: v is the value; taken case = value if in cases, else default
            bool isCase = d.taken;
            std::vector<Lit> none;
            for (u64 c : *d.cases) none.push_back({L_NE, d.e, c});
            if (i >= itemBound) {
              for (u64 c : *d.cases) {
                if (isCase && c == d.v) continue;
                if (S.check({{L_EQ, d.e, c}}, d.nvars, vals) == 1) {
                  u64 h = mix(mix(mix(d.hash, N[d.e].h), 1), c);
                  sendItem(vals, d.nvars, i + 1, h);
                }
              }
              if (isCase) {
                if (S.check(none, d.nvars, vals) == 1) {
                  u64 h = mix(mix(mix(d.hash, N[d.e].h), 0), ~0ull);
                  sendItem(vals, d.nvars, i + 1, h);
                }
              }
            }
            if (isCase) S.add({L_EQ, d.e, d.v});
            else
              for (auto& a : none) S.add(a);
          }
          continue;
        }
        if (i >= itemBound && d.kind != D_ASSUMED) {
          Lit other{L_IS, d.e, !d.taken};
          u64 t0 = nowus();
          int r = S.check({other}, d.nvars, vals);
          if (solveTrace) fprintf(stderr, "Q%zu %d %luus %s\n", i, r, nowus() - t0, toStr(d.e).c_str());
          if (d.kind == D_ASSERT) {
            if (r == 0) {
              SH->assert_solver++;
              if (S.smtSent++ == 0 && itemHash % 41 == 0) {
                Buf b;
                b.str(d.msg);
                std::string q = S.smt2(std::vector<Lit>{other});
                if (q.size() < 20000) {
                  b.str(q);
                  sendMsg(M_SMT, b);
                }
              }
            } else if (r == 1) {
              sendViol("assert", d.msg, vals, d.nvars);
            }
          } else if (r == 1) {
            u64 h = mix(mix(mix(d.hash, N[d.e].h), !d.taken), 0);
            sendItem(vals, d.nvars, i + 1, h);
          }
        }
        S.add({L_IS, d.e, d.taken});
      }
    }
  }
  Buf b;
  b.u(obsHash);
  b.u(V->size());
  for (size_t i = 0; i < V->size(); ++i) b.u((u64)(*IN)[i]);
  b.u(D->size());
  b.u(fkind ? 1 : 0);
  sendMsg(M_END, b);
  _exit(0);
}
static void pathFail(const char* kind, const char* msg) {
  sxrt_arena_on = false;
  if (mode != PATH) {
    fprintf(stderr, "sx: failure outside of a path: %s: %s\n", kind, msg);
    // A failure that does not depend on any input.
    if (mode == SETUP || mode == ZYGOTE) {
      extern void setupFailed(const char*, const char*);
      setupFailed(kind, msg);
    }
    _exit(3);
  }
  if (getenv("SX_BT")) {
    void* bt[64];
    int n = backtrace(bt, 64);
    fprintf(stderr, "FAIL %s: %s\n", kind, msg);
    backtrace_symbols_fd(bt, n, 2);
  }
  childFinish(kind, msg);
}
// ---- evaluate an expression under other inputs ----
namespace {
std::unordered_map<E, u64>* evm;
u64 ev(E e, const std::vector<long>& in) {
  const Node n = N[e];
  u64 m = maskw(n.w);
  if (n.op == CONST) return n.k;
  auto it = evm->find(e);
  if (it != evm->end()) return it->second;
  u64 r = 0;
  auto S = [&](E x) { return sgn(ev(x, in), N[x].w); };
  auto U = [&](E x) { return ev(x, in); };
  unsigned aw = n.op != LIN && n.op != VAR && n.op != CONST ? N[n.a].w : 64;
  switch (n.op) {
  case VAR: r = (u64)in[n.k]; break;
  case LIN: {
    r = n.k;
    for (unsigned i = 0; i < n.b; ++i) r += T[n.a + i].c * ev(T[n.a + i].e, in);
    break;
  }
  case MUL: r = U(n.a) * U(n.b); break;
  case SDIV: { i64 a = S(n.a), b = S(n.b); r = b == 0 ? ~0ull : b == -1 ? 0 - (u64)a : (u64)(a / b); break; }
  case SREM: { i64 a = S(n.a), b = S(n.b); r = b == 0 ? (u64)a : b == -1 ? 0 : (u64)(a % b); break; }
  case UDIV: { u64 a = U(n.a), b = U(n.b); r = b ? a / b : ~0ull; break; }
  case UREM: { u64 a = U(n.a), b = U(n.b); r = b ? a % b : a; break; }
  case AND: r = U(n.a) & U(n.b); break;
  case OR: r = U(n.a) | U(n.b); break;
  case XOR: r = U(n.a) ^ U(n.b); break;
  case SHL: { u64 b = U(n.b); r = b >= n.w ? 0 : U(n.a) << b; break; }
  case LSHR: { u64 b = U(n.b); r = b >= n.w ? 0 : U(n.a) >> b; break; }
  case ASHR: { u64 b = U(n.b); r = (u64)(S(n.a) >> std::min<u64>(b, n.w - 1)); break; }
  case ZEXT: case TRUNC: r = U(n.a); break;
  case SEXT: r = (u64)S(n.a); break;
  case ITE: r = U(n.a) ? U(n.b) : U(n.c); break;
  case LE: r = S(n.a) <= (i64)n.k; break;
  case EQ: r = U(n.a) == n.k; break;
  case SLT: r = S(n.a) < S(n.b); break;
  case ULT: r = U(n.a) < U(n.b); break;
  case BNOT: r = !U(n.a); break;
  case BAND: r = U(n.a) & U(n.b); break;
  case BOR: r = U(n.a) | U(n.b); break;
  case OVF: {
    i128 a = S(n.a), b = S(n.b);
    unsigned __int128 ua = U(n.a), ub = U(n.b);
    switch (n.aux) {
    case 0: r = !fits(a + b, aw); break;
    case 1: r = !fits(a - b, aw); break;
    case 2: r = !fits(a * b, aw); break;
    case 3: r = ua + ub > maskw(aw); break;
    case 4: r = ua < ub; break;
    default: r = ua * ub > maskw(aw); break;
    }
    break;
  }
  default: engineError("eval op");
  }
  r &= m;
  (*evm)[e] = r;
  return r;
}
}  // namespace
u64 sxrt_eval(E e, const std::vector<long>& in) {
  if (!evm) evm = new std::unordered_map<E, u64>();
  evm->clear();
  return ev(e, in);
}

static u64 sxrt_evalKeep(E e, const std::vector<long>& in) { return ev(e, in); }
static void sxrt_evalReset() {
  if (!evm) evm = new std::unordered_map<E, u64>();
  evm->clear();
}

// ---- coordinator ----
struct Item {
  std::vector<long> in;
  uint32_t bound = 0;
  u64 hash = 0;
};
struct Viol {
  std::string kind, msg;
  std::vector<long> in;
};
static std::string outPath;
static double budget = 600;
static int workers = 1;
static long maxPaths = 1000000000;
static int jobR = -1, jobW = -1;
static u64 t_start;
static int pathSecs = 60;
static size_t maxSamples = 40;
static u64 coverMask;

static std::string js(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n') {
      r += "\\n";
    } else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r + "\"";
}
static std::string jsIn(const std::vector<long>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]);
  return r + "]";
}
static std::vector<Viol>* viols;
struct Sample {
  std::vector<long> in;
  u64 hash;
};
static void writeResult(bool complete, const std::string& why, u64 paths, u64 fails, u64 pending, const std::vector<Sample>& samples,
    const std::vector<std::string>& errors, const std::vector<std::pair<std::string, std::string>>& smts) {
  FILE* f = fopen(outPath.c_str(), "w");
  if (!f) {
    perror("sx: out");
    _exit(3);
  }
  fprintf(f, "{\"harness\":%s,\"complete\":%s,\"why\":%s,\"paths\":%lu,\"failing_paths\":%lu,\"pending\":%lu,\n", js(harnessName).c_str(),
      complete ? "true" : "false", js(why).c_str(), (long)paths, (long)fails, (long)pending);
  fprintf(f, "\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"fallback\":%lu,\"decided_over_integers\":%lu,\"solver_s\":%.3f,\"exec_s\":%.3f,\"wall_s\":%.3f,\n",
      SH->queries.load(), SH->sat.load(), SH->unsat.load(), SH->unknown.load(), SH->fallback.load(), SH->intq.load(), SH->solver_us.load() / 1e6,
      SH->exec_us.load() / 1e6, (nowus() - t_start) / 1e6);
  fprintf(f, "\"asserts_by_solver\":%lu,\"asserts_by_rewriting\":%lu,\"asserts_concrete\":%lu,\"decisions\":%lu,\"implied\":%lu,\"concretizations\":%lu,\"stale\":%lu,\"max_decisions\":%lu,\"value_overflow\":%lu,\"values_enumerated_without_query\":%lu,\n",
      SH->assert_solver.load(), SH->assert_trivial.load(), SH->assert_concrete.load(), SH->decisions.load(), SH->implied.load(),
      SH->concs.load(), SH->stale.load(), SH->maxdec.load(), SH->val_overflow.load(), SH->free_vals.load());
  fprintf(f, "\"covers\":{");
  for (size_t i = 0; i < covNames->size(); ++i) fprintf(f, "%s%s:%s", i ? "," : "", js((*covNames)[i]).c_str(), SH->cov[i] ? "true" : "false");
  fprintf(f, "},\n\"violations\":[");
  for (size_t i = 0; i < viols->size(); ++i)
    fprintf(f, "%s{\"kind\":%s,\"msg\":%s,\"inputs\":%s}", i ? ",\n" : "", js((*viols)[i].kind).c_str(), js((*viols)[i].msg).c_str(), jsIn((*viols)[i].in).c_str());
  fprintf(f, "],\n\"samples\":[");
  for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s{\"inputs\":%s,\"hash\":%s}", i ? ",\n" : "", jsIn(samples[i].in).c_str(), js(std::to_string(samples[i].hash)).c_str());
  fprintf(f, "],\n\"errors\":[");
  for (size_t i = 0; i < errors.size(); ++i) fprintf(f, "%s%s", i ? "," : "", js(errors[i]).c_str());
  fprintf(f, "],\n\"smt\":[");
  for (size_t i = 0; i < smts.size(); ++i) fprintf(f, "%s[%s,%s]", i ? "," : "", js(smts[i].first).c_str(), js(smts[i].second).c_str());
  fprintf(f, "],\n\"functions\":[");
  bool first = true;
  if (__start_sx_funcs) {
    u64 nf = __stop_sx_funcs - __start_sx_funcs;
    for (u64 i = 0; i < nf && i < MAXFN; ++i)
      if (SH->fn[i] || __start_sx_funcs[i].flag) {
        fprintf(f, "%s%s", first ? "" : ",", js(__start_sx_funcs[i].name).c_str());
        first = false;
      }
  }
  fprintf(f, "]}\n");
  fclose(f);
}
void setupFailed(const char* kind, const char* msg) {
  viols->push_back({kind, msg, {}});
  writeResult(false, "failed before any input", 0, 1, 0, {}, {}, {});
  _exit(0);
}

static void onTimer(int) {
  if (mode == PATH && !finishing) pathFail("hang", "path exceeded its time limit");
}

struct Kid {
  pid_t pid;
  int fd;
  std::string buf;
  bool ended;
  u64 started;
  Item item;
};

// Returns in the child.
static void coordinate() {
  std::deque<Item> frontier;
  std::vector<Kid> kids;
  std::vector<Sample> samples;
  std::vector<std::string> errors;
  std::vector<std::pair<std::string, std::string>> smts;
  u64 paths = 0, fails = 0;
  std::map<std::string, int> violCount;
  Item first;
  frontier.push_back(first);
  bool stop = false;
  std::string why;
  u64 firstViol = 0;
  // One token is ours, the others are shared with the other harnesses.
  int tokens = 1;
  bool yielded = false;
  auto haveToken = [&](bool block) {
    if (jobR < 0) return (int)kids.size() < workers;
    if (tokens > (int)kids.size()) return true;
    if (yielded) return yielded = false;
    pollfd p{jobR, POLLIN, 0};
    for (;;) {
      int r = poll(&p, 1, block ? 1000 : 0);
      if (r > 0) {
        char c;
        ssize_t k = read(jobR, &c, 1);
        if (k == 1) {
          ++tokens;
          return true;
        }
      }
      if (!block) return false;
    }
  };
  auto release = [&](bool all) {
    if (jobR < 0) return;
    while (tokens > 1 && tokens > (int)kids.size() && (all || tokens > 3)) {
      char c = 't';
      if (write(jobW, &c, 1) != 1) break;
      --tokens;
    }
  };
  while (true) {
    double el = (nowus() - t_start) / 1e6;
    if (!stop && el > budget) {
      stop = true;
      why = "time budget";
    }
    if (!stop && (long)paths >= maxPaths) {
      stop = true;
      why = "path budget";
    }
    if (!stop && firstViol && (nowus() - firstViol) / 1e6 > 20) {
      stop = true;
      why = "stopped after violations";
    }
    while (!stop && !frontier.empty() && haveToken(kids.empty())) {
      // Alternate between depth first and breadth first.
      Item it;
      if (paths & 1) {
        it = frontier.back();
        frontier.pop_back();
      } else {
        it = frontier.front();
        frontier.pop_front();
      }
      int fd[2];
      if (pipe(fd)) {
        perror("pipe");
        _exit(3);
      }
      pid_t pid = fork();
      if (pid < 0) {
        perror("fork");
        _exit(3);
      }
      if (pid == 0) {
        close(fd[0]);
        for (auto& k : kids) close(k.fd);
        outFd = fd[1];
        mode = PATH;
        // State for the path.
        *IN = it.in;
        itemBound = it.bound;
        itemHash = it.hash;
        itimerval tv;
        memset(&tv, 0, sizeof tv);
        tv.it_value.tv_sec = pathSecs;
        setitimer(ITIMER_REAL, &tv, nullptr);
        pathStart = nowus();
        return;
      }
      close(fd[1]);
      fcntl(fd[0], F_SETFL, O_NONBLOCK);
      ++paths;
      kids.push_back({pid, fd[0], "", false, nowus(), it});
    }
    if (kids.empty()) {
      if (stop || frontier.empty()) break;
      continue;
    }
    std::vector<pollfd> ps;
    for (auto& k : kids) ps.push_back({k.fd, POLLIN, 0});
    if (!stop && !frontier.empty() && jobR >= 0) ps.push_back({jobR, POLLIN, 0});
    poll(ps.data(), ps.size(), 200);
    for (size_t i = 0; i < kids.size();) {
      Kid& k = kids[i];
      bool eof = false;
      char b[65536];
      for (;;) {
        ssize_t n = read(k.fd, b, sizeof b);
        if (n > 0) {
          k.buf.append(b, n);
          continue;
        }
        if (n == 0) eof = true;
        break;
      }
      size_t off = 0;
      while (k.buf.size() - off >= 16) {
        u64 kind, len;
        memcpy(&kind, k.buf.data() + off, 8);
        memcpy(&len, k.buf.data() + off + 8, 8);
        if (k.buf.size() - off - 16 < len) break;
        Rd r{k.buf.data() + off + 16};
        if (kind == M_ITEM) {
          Item it;
          u64 n = r.u();
          for (u64 j = 0; j < n; ++j) it.in.push_back((long)r.u());
          it.bound = (uint32_t)r.u();
          it.hash = r.u();
          frontier.push_back(it);
        } else if (kind == M_VIOL) {
          Viol v;
          v.kind = r.str();
          v.msg = r.str();
          u64 n = r.u();
          for (u64 j = 0; j < n; ++j) v.in.push_back((long)r.u());
          if (!firstViol) firstViol = nowus();
          if (violCount[v.kind + v.msg]++ < 4 && viols->size() < 60) viols->push_back(v);
        } else if (kind == M_END) {
          k.ended = true;
          Sample s;
          s.hash = r.u();
          u64 n = r.u();
          for (u64 j = 0; j < n; ++j) s.in.push_back((long)r.u());
          r.u();
          bool failed = r.u();
          if (failed) ++fails;
          else if (samples.size() < maxSamples) samples.push_back(s);
          else if (paths % 16 == 0) samples[(paths / 16) % maxSamples] = s;
        } else if (kind == M_ERR) {
          k.ended = true;
          if (errors.size() < 20) errors.push_back(r.str() + " inputs " + jsIn(k.item.in));
        } else if (kind == M_SMT) {
          if (smts.size() < 3) {
            std::string a = r.str();
            smts.push_back({a, r.str()});
          }
        }
        off += 16 + len;
      }
      k.buf.erase(0, off);
      // Children solving for too long.
      if (!eof && (nowus() - k.started) / 1e6 > budget + pathSecs) {
        kill(k.pid, SIGKILL);
        eof = true;
      }
      if (!eof && stop) {
        kill(k.pid, SIGKILL);
        eof = true;
        k.ended = true;
        frontier.push_back(k.item);
      }
      if (eof) {
        int st;
        waitpid(k.pid, &st, 0);
        close(k.fd);
        if (!k.ended && errors.size() < 20) {
          char m[128];
          snprintf(m, sizeof m, "child died (status %x) inputs ", st);
          errors.push_back(m + jsIn(k.item.in));
        }
        kids.erase(kids.begin() + i);
        if (stop || frontier.empty()) release(true);
        else if (tokens > 3) {
          // Leave one to others who may want it.
          release(false);
          yielded = true;
        }
      } else {
        ++i;
      }
    }
    if (frontier.empty()) release(true);
  }
  kids.clear();
  release(true);
  bool complete = frontier.empty() && errors.empty() && SH->unknown == 0 && SH->val_overflow == 0 && why.empty();
  if (why.empty() && !complete) why = !errors.empty() ? "engine errors" : SH->unknown ? "solver unknown" : "value enumeration limit";
  writeResult(complete, why, paths, fails, frontier.size(), samples, errors, smts);
  _exit(0);
}

// ---- API for harnesses ----
static E argSh(void* fn, int i) { return sx_call_target == fn ? sx_arg_tls[i] : 0; }
static void begin() {
  if (mode == SETUP) {
    mode = ZYGOTE;
    initZ3();
    coordinate();  // returns in the children
  }
}
static int covIndex(const char* n) {
  for (size_t i = 0; i < covNames->size(); ++i)
    if ((*covNames)[i] == n) return (int)i;
  return -1;
}
extern "C" {
long sx_int(const char* name, long lo, long hi) {
  Guard g;
  sx_call_target = nullptr;
  begin();
  size_t i = V->size();
  long v;
  if (i < IN->size()) v = (*IN)[i];
  else {
    v = lo <= 0 && hi >= 0 ? 0 : lo;
    IN->push_back(v);
  }
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  (*IN)[i] = v;
  E e = 0;
  if (lo < hi) e = mkVar(i, lo, hi, v);
  V->push_back({name, lo, hi, e});
  sx_ret_tls[0] = e;
  sx_ret_valid = (void*)sx_int;
  return v;
}
void sx_assume(bool c) {
  Guard g;
  E e = argSh((void*)sx_assume, 0);
  sx_call_target = nullptr;
  begin();
  if (!e || isK(e)) {
    if (!c) childFinish(nullptr, nullptr);
    return;
  }
  if (N[e].val != c) engineError("inconsistent assume %s", toStr(e).c_str());
  int im = implied(e);
  if (im >= 0) {
    if (!im) childFinish(nullptr, nullptr);
    return;
  }
  pushD(c ? D_ASSUMED : D_ASSUME, c, e);
  if (!c) childFinish(nullptr, nullptr);
  learn(e, true);
}
void sx_assert_(bool c, const char* msg) {
  Guard g;
  E e = argSh((void*)sx_assert_, 0);
  sx_call_target = nullptr;
  begin();
  if (!c) {
    // Fails on this path; also explore the inputs where it does not.
    if (e && !isK(e)) {
      if (N[e].val != c) engineError("inconsistent assert %s", toStr(e).c_str());
      if (implied(e) < 0) pushD(D_BR, false, e);
    }
    pathFail("assert", msg);
  }
  if (!e || isK(e)) {
    SH->assert_concrete++;
    return;
  }
  if (N[e].val != c) engineError("inconsistent assert %s", toStr(e).c_str());
  if (implied(e) == 1) {
    SH->assert_trivial++;
    return;
  }
  pushD(D_ASSERT, true, e, 0, msg);
  learn(e, true);
}
long sx_concretize(long v) {
  Guard g;
  E e = argSh((void*)sx_concretize, 0);
  sx_call_target = nullptr;
  begin();
  if (e) decideVal(e, (u64)v);
  sx_ret_valid = nullptr;
  return v;
}
void sx_cover(const char* n) {
  Guard g;
  sx_call_target = nullptr;
  int i = covIndex(n);
  if (i < 0) engineError("cover %s is not declared", n);
  SH->cov[i] = 1;
}
void sx_observe(long v) {
  sx_call_target = nullptr;
  obsHash = (obsHash ^ (u64)v) * 1099511628211ull;
  obsHash ^= obsHash >> 29;
}
void sx_stop() {
  Guard g;
  begin();
  childFinish(nullptr, nullptr);
}
static bool abortStops;
void sx_abort_stops(bool s) { abortStops = s; }
int sx_symbolic() { return 1; }
int sx_thorough() {
  const char* t = getenv("SX_TIER");
  return t && !strcmp(t, "thorough");
}
void sx_fail(const char* m) {
  Guard g;
  begin();
  pathFail("assert", m);
}
long sx_live_allocs() { return live_allocs; }
long sx_live_bytes() { return (long)live_bytes; }
long sx_peak_bytes() { return (long)peak_bytes; }
void sx_reset_peak() { peak_bytes = live_bytes; }

// ---- callbacks from instrumented code ----
static E val(E s, unsigned w, u64 v) { return s ? s : K(w, v); }
static E clean(E e) { return e && N[e].op == CONST ? 0 : e; }

uint32_t sxr_bin(uint32_t op, uint32_t w, uint32_t sa, uint32_t sb, u64 av, u64 bv) {
  Guard g;
  E a = val(sa, w, av), b = val(sb, w, bv);
  if (op == 17 || op == 18 || op == 20 || op == 21) {  // udiv sdiv urem srem
    if (sb && !isK(b)) {
      decide(eq(b, K(w, 0)), bv == 0);
    }
    if ((op == 18 || op == 21) && w >= 32) {
      E m1 = eq(b, K(w, ~0ull));
      if (!(isK(m1) && !N[m1].k)) {
        E c = band(m1, eq(a, K(w, (u64)minw(w))));
        bool t = (bv & maskw(w)) == maskw(w) && (av & maskw(w)) == ((u64)minw(w) & maskw(w));
        if (!isK(c)) decide(c, t);
      }
    }
    if (bv == 0) return 0;
  }
  return clean(bin(op, a, b));
}
uint32_t sxr_icmp(uint32_t p, uint32_t w, uint32_t sa, uint32_t sb, u64 av, u64 bv) {
  Guard g;
  return clean(icmp(p, val(sa, w, av), val(sb, w, bv)));
}
uint32_t sxr_cast(uint32_t op, uint32_t wf, uint32_t wt, uint32_t s) {
  Guard g;
  if (!s) return 0;
  switch (op) {
  case 38: return clean(trunc(s, wt));
  case 39: return clean(zext(s, wt));
  case 40: return clean(sext(s, wt));
  default:
    if (wf == wt) return s;
    return clean(wt < wf ? trunc(s, wt) : zext(s, wt));
  }
}
uint32_t sxr_select(uint32_t w, uint32_t sc, uint32_t sa, uint32_t sb, u64 cv, u64 av, u64 bv) {
  Guard g;
  if (!sc) return (cv & 1) ? sa : sb;
  return clean(ite(sc, val(sa, w, av), val(sb, w, bv)));
}
void sxr_boolsel() {}
void sxr_atomic(void*, uint32_t, uint32_t) {}
static E byteOf(E e, unsigned off) {
  unsigned w = N[e].w;
  if (w < 8) return zext(e, 8);
  E x = off ? bin(26, e, K(w, off * 8)) : e;  // lshr
  return w == 8 ? x : trunc(x, 8);
}
uint32_t sxr_load(const char* p, uint32_t n, uint32_t w) {
  checkAccess(p, n, "read outside of an allocation, or after free");
  if (noShadow(p, n)) return 0;
  u64 first = getSh(p);
  bool any = first != 0, uniform = (first >> 32) == 0 && (E)first != 0;
  for (uint32_t i = 1; i < n; ++i) {
    u64 s = getSh(p + i);
    any |= s != 0;
    uniform &= (E)s == (E)first && (s >> 32) == i;
  }
  if (!any) return 0;
  if (n > 8) return 0;
  Guard g;
  u64 actual = 0;
  memcpy(&actual, p, n);
  if (uniform) {
    E e = (E)first;
    unsigned ew = N[e].w;
    if (ew == n * 8 || (n == 1 && ew <= 8)) {
      if ((N[e].val & maskw(ew)) != (actual & maskw(n * 8))) {
        SH->stale++;
        for (uint32_t i = 0; i < n; ++i) setSh((char*)p + i, 0);
        return 0;
      }
      if (ew == w) return e;
      if (w < ew) return clean(trunc(e, w));
      return clean(zext(e, w));
    }
  }
  // Assemble.
  E r = K(n * 8, 0);
  for (uint32_t i = 0; i < n;) {
    u64 s = getSh(p + i);
    if (!s) {
      r = add(r, K(n * 8, (u64)(uint8_t)p[i] << (8 * i)));
      ++i;
      continue;
    }
    E e = (E)s;
    unsigned off = s >> 32;
    // longest run of the same node
    unsigned len = 1;
    while (i + len < n && getSh(p + i + len) == (((u64)(off + len) << 32) | e)) ++len;
    unsigned ew = std::max<unsigned>(8, N[e].w);
    E x = N[e].w < 8 ? zext(e, 8) : e;
    if (off) x = bin(26, x, K(ew, off * 8));
    if (len * 8 < ew) x = trunc(x, len * 8);
    u64 act = 0;
    memcpy(&act, p + i, len);
    if (N[x].val != act) {
      SH->stale++;
      for (unsigned j = 0; j < len; ++j) setSh((char*)p + i + j, 0);
      r = add(r, K(n * 8, act << (8 * i)));
    } else {
      if (N[x].w < n * 8) x = zext(x, n * 8);
      r = add(r, scale(x, 1ull << (8 * i)));
    }
    i += len;
  }
  if (w < n * 8) r = trunc(r, w);
  return clean(r);
}
void sxr_store(char* p, uint32_t n, uint32_t s) {
  checkAccess(p, n, "write outside of an allocation, or after free");
  if (!s) {
    if (noShadow(p, n)) return;
    for (uint32_t i = 0; i < n; ++i) setSh(p + i, 0);
    return;
  }
  Guard g;
  if (N[s].w < 8) s = zext(s, 8);
  if (N[s].w < n * 8) s = zext(s, n * 8);
  if (isK(s)) s = 0;
  for (uint32_t i = 0; i < n; ++i) setSh(p + i, s ? ((u64)i << 32) | s : 0);
}
void sxr_branch(uint32_t s, uint32_t taken) {
  Guard g;
  decide(s, taken & 1);
}
void sxr_switch(uint32_t s, uint32_t w, u64 v, uint32_t n, const u64* cases) {
  Guard g;
  if (isK(s)) return;
  v &= maskw(w);
  if (N[s].val != v) engineError("inconsistent switch");
  if (N[s].rlo == N[s].rhi) return;
  if (w == 1) {
    decide(s, v & 1);
    return;
  }
  // Feasible cases by range.
  std::vector<u64> cs;
  bool isCase = false;
  for (uint32_t i = 0; i < n; ++i) {
    i64 c = sgn(cases[i], w);
    if (cases[i] == v) isCase = true;
    if (c < N[s].rlo || c > N[s].rhi) continue;
    cs.push_back(cases[i] & maskw(w));
  }
  if (cs.empty()) return;
  if (cs.size() == 1) {
    decide(eq(s, K(w, cs[0])), isCase);
    return;
  }
  E d = 0;
  (void)d;
  pushD(D_SWITCH, isCase, s, isCase ? v : ~0ull, nullptr, new std::vector<u64>(cs));
  if (isCase) learn(eq(s, K(w, v)), true);
  else
    for (u64 c : cs) {
      E q = eq(s, K(w, c));
      if (!isK(q)) learn(q, false);
    }
}
void sxr_conc(uint32_t s, u64 v) {
  Guard g;
  decideVal(s, v);
}
void sxr_addr(uint32_t s, void* p) {
  Guard g;
  decideVal(s, (u64)p);
}
void sxr_concmem(char* p, u64 n) {
  if (noShadow(p, n)) return;
  Guard g;
  for (u64 i = 0; i < n; ++i) {
    u64 s = getSh(p + i);
    if (!s) continue;
    E b = byteOf((E)s, s >> 32);
    if (N[b].val != (uint8_t)p[i]) {
      setSh(p + i, 0);
      continue;
    }
    decideVal(b, (uint8_t)p[i]);
  }
}
void sxr_memcpy(void* d, const void* s_, u64 n) {
  if (n == 0) return;
  if (!s_) {
    sxr_concmem((char*)d, 0);
    if (!noShadow((char*)d, n))
      for (u64 i = 0; i < n; ++i) setSh((char*)d + i, 0);
    return;
  }
  const char* s = (const char*)s_;
  char* p = (char*)d;
  checkAccess(s, n, "copy from outside of an allocation, or after free");
  checkAccess(p, n, "copy to outside of an allocation, or after free");
  bool ns = noShadow(s, n), nd = noShadow(p, n);
  if (ns && nd) return;
  Guard g;
  if (ns) {
    for (u64 i = 0; i < n; ++i) setSh(p + i, 0);
    return;
  }
  if (p < s) {
    for (u64 i = 0; i < n; ++i) setSh(p + i, getSh(s + i));
  } else {
    for (u64 i = n; i-- > 0;) setSh(p + i, getSh(s + i));
  }
}
void sxr_memset(void* d, u64 n, uint32_t s, uint32_t w) {
  if (n == 0) return;
  char* p = (char*)d;
  checkAccess(p, n, "fill outside of an allocation, or after free");
  if (!s) {
    if (noShadow(p, n)) return;
    for (u64 i = 0; i < n; ++i) setSh(p + i, 0);
    return;
  }
  Guard g;
  E b = w > 8 ? trunc(s, 8) : s;
  for (u64 i = 0; i < n; ++i) setSh(p + i, isK(b) ? 0 : b);
}
void sxr_alloca(void* p, u64 n) {
  if (n == 0 || noShadow((char*)p, n)) return;
  for (u64 i = 0; i < n; ++i) setSh((char*)p + i, 0);
}
uint32_t sxr_ovf(uint32_t kind, uint32_t w, uint32_t sa, uint32_t sb, u64 av, u64 bv) {
  Guard g;
  return clean(ovf(kind, val(sa, w, av), val(sb, w, bv)));
}
uint32_t sxr_minmax(uint32_t p, uint32_t w, uint32_t sa, uint32_t sb, u64 av, u64 bv) {
  Guard g;
  E a = val(sa, w, av);
  if (p == 1000) {
    E z = K(w, 0);
    E r = ite(slt(a, z), sub(z, a), a);
    return clean(r);
  }
  E b = val(sb, w, bv);
  if (p < 1000) {
    return clean(minmax(p, a, b));
  }
  switch (p) {
  case 1001: return clean(ite(ovf(3, a, b), K(w, ~0ull), add(a, b)));
  case 1002: return clean(ite(ult(a, b), K(w, 0), sub(a, b)));
  default: {
    E o = ovf(p == 1003 ? 0 : 1, a, b);
    E sat = ite(slt(a, K(w, 0)), K(w, (u64)minw(w)), K(w, (u64)maxw(w)));
    return clean(ite(o, sat, p == 1003 ? add(a, b) : sub(a, b)));
  }
  }
}
uint32_t sxr_gep(uint32_t sbase, u64 basev, uint32_t sidx, u64 idxv, uint32_t iw, u64 sc, u64 c) {
  Guard g;
  E b = val(sbase, 64, basev), i = val(sidx, iw, idxv);
  i = iw < 64 ? sext(i, 64) : i;
  return clean(add(add(b, scale(i, sc)), K(64, c)));
}

// ---- failures of the code under test ----
void __assert_fail(const char* expr, const char* file, unsigned line, const char* fn) {
  sxrt_arena_on = false;
  const char* b = strrchr(file, '/');
  char m[512];
  (void)line;
  (void)fn;
  snprintf(m, sizeof m, "assertion in %s: %s", b ? b + 1 : file, expr);
  pathFail("abort", m);
}
void abort() {
  sxrt_arena_on = false;
  if (abortStops) sx_stop();
  pathFail("abort", "abort()");
}
}
static void onSignal(int sig, siginfo_t* si, void*) {
  static volatile int depth = 0;
  if (depth++) _exit(6);
  bool inRt = !sxrt_arena_on && mode == PATH && finishing;
  if (inRt) {
    Buf b;
    b.str("signal in the solver");
    sendMsg(M_ERR, b);
    _exit(0);
  }
  char m[128];
  snprintf(m, sizeof m, "%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "signal");
  (void)si;
  pathFail("signal", m);
}

// ---- main ----
static sx_harness* harnesses;
sx_harness::sx_harness(const char* n, void (*f)(), const char* c) : name(n), fn(f), covers(c), next(harnesses) { harnesses = this; }
static sx_harness* cur;
static ucontext_t mainCtx, runCtx;
#include "fiber.inc"
static void runHarness() {
  sxrt_arena_on = true;
  cur->fn();
  sxrt_arena_on = false;
  if (mode == SETUP) begin();  // no inputs at all: one path
  if (mode == PATH) childFinish(nullptr, nullptr);
  _exit(3);
}
// Before the constructors of the instrumented code.
__attribute__((constructor(101))) static void mapMemory() {
  mapFixed(BASE, REGION);
  mapFixed(SHB, REGION * 8);
  mapFixed(POIS, HEAP / 8);
  mapFixed(PAGEF, REGION >> 12);
  slowPages = new std::map<u64, u64*>();
  resetExprs();
}
int main(int argc, char** argv) {
  const char* h = nullptr;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return argv[++i]; };
    if (a == "--harness") h = nx();
    else if (a == "--out") outPath = nx();
    else if (a == "--budget") budget = atof(nx());
    else if (a == "--workers") workers = atoi(nx());
    else if (a == "--max-paths") maxPaths = atol(nx());
    else if (a == "--path-secs") pathSecs = atoi(nx());
    else if (a == "--job-r") jobR = atoi(nx());
    else if (a == "--job-w") jobW = atoi(nx());
    else if (a == "--rlimit") rlimitQ = strtoull(nx(), 0, 10);
    else if (a == "--samples") maxSamples = atoi(nx());
    else if (a == "--list") list = true;
    else if (a == "--debug") debug = true;
    else if (a == "--trace") solveTrace = true;
  }
  if (list) {
    for (auto* x = harnesses; x; x = x->next) printf("%s\n", x->name);
    return 0;
  }
  if (!h || outPath.empty()) {
    fprintf(stderr, "usage\n");
    return 2;
  }
  for (cur = harnesses; cur; cur = cur->next)
    if (!strcmp(cur->name, h)) break;
  if (!cur) {
    fprintf(stderr, "no harness %s\n", h);
    return 2;
  }
  t_start = nowus();
  harnessName = h;
  mprotect(BASE + HEAP, 1 << 20, PROT_NONE);
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  D = new std::vector<Decision>();
  V = new std::vector<Var>();
  IN = new std::vector<long>();
  viols = new std::vector<Viol>();
  covNames = new std::vector<std::string>();
  {
    std::string c = cur->covers;
    size_t i = 0;
    while (i < c.size()) {
      size_t j = c.find(' ', i);
      if (j == std::string::npos) j = c.size();
      if (j > i) covNames->push_back(c.substr(i, j - i));
      i = j + 1;
    }
  }
  resetExprs();
  // Signals.
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_size = 64 << 20;
  ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = onSignal;
  sa.sa_flags = SA_ONSTACK | SA_SIGINFO | SA_NODEFER;
  for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onTimer;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  sigaction(SIGALRM, &sa, nullptr);
  getcontext(&runCtx);
  runCtx.uc_stack.ss_sp = BASE + HEAP + (1 << 20);
  runCtx.uc_stack.ss_size = STACK - (1 << 20);
  runCtx.uc_link = &mainCtx;
  makecontext(&runCtx, runHarness, 0);
  swapcontext(&mainCtx, &runCtx);
  return 3;
}
