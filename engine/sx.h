// API between harnesses and the symbolic runtime (rt.cc) or the native replay runtime (native.cc).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
// 1 in the thorough tier.
int sx_thorough();
// A symbolic integer in [lo, hi].
long sx_int(const char* name, long lo, long hi);
// Restrict the inputs; ends the path if false.
void sx_assume(bool c);
// The property. The solver decides it for all inputs that follow the current path.
void sx_assert_(bool c, const char* msg);
// Returns v, forcing a separate path for each feasible value.
long sx_concretize(long v);
// Reachability witness.
void sx_cover(const char* name);
// Values compared between the symbolic and native builds (translator validation).
void sx_observe(long v);
// End the path (without failure).
void sx_stop();
// Whether abort() ends the run like sx_stop instead of being a violation.
void sx_abort_stops(bool);
// True if running under the symbolic runtime.
int sx_symbolic();
// Heap accounting (blocks are exact in both builds; bytes only in the symbolic one).
long sx_live_allocs();
long sx_live_bytes();
long sx_peak_bytes();
void sx_reset_peak();
// Ends the path with a violation.
void sx_fail(const char* msg);
// Threads that run one at a time (fiber.inc); the caller of the harness is 0.
int sx_fiber_new(void (*fn)(void*), void* arg);
void sx_fiber_switch(int to);
}
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define sx_assert(c) sx_assert_((c), #c)
#define sx_assert_msg(c, m) sx_assert_((c), m)

struct sx_harness {
  const char* name;
  void (*fn)();
  const char* covers;  // space separated list of sx_cover names that must be reached.
  sx_harness* next;
  sx_harness(const char* name, void (*fn)(), const char* covers);
};
// SX_HARNESS(name, "cover1 cover2") { ... }
#define SX_HARNESS(NAME, COVERS)                                  \
  static void sxh_##NAME();                                       \
  static sx_harness sxreg_##NAME(#NAME, &sxh_##NAME, COVERS);     \
  static void sxh_##NAME()
// An enumerated choice in [0, n): every alternative is a separate path.
static inline int sx_pick(const char* name, int n) { return (int)sx_concretize(sx_int(name, 0, n - 1)); }
static inline long sx_pick_range(const char* name, long lo, long hi) { return sx_concretize(sx_int(name, lo, hi)); }
