// Native replay runtime: runs one harness of the uninstrumented build with recorded inputs.
// usage: native --batch FILE   each line: <harness> <n> <v0> ... ; prints one line per run.
//        native --harness NAME --inputs v0,v1,...   exit 0: held, 1: violated.
#include <malloc.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <string>
#include <vector>
#include "sx.h"
static std::vector<long> in;
static size_t pos;
static uint64_t obsHash = 1469598103934665603ull;
static sx_harness* harnesses;
static std::string status = "held";
sx_harness::sx_harness(const char* n, void (*f)(), const char* c) : name(n), fn(f), covers(c), next(harnesses) { harnesses = this; }
static bool batch = false;
[[noreturn]] static void done(int rc, const char* msg) {
  printf("%s %llu %s\n", rc ? "VIOLATED" : "held", (unsigned long long)obsHash, msg);
  fflush(stdout);
  _exit(rc);
}
long sxn_allocs = 0, sxn_bytes = 0, sxn_peak = 0;
extern "C" {
long sx_int(const char* name, long lo, long hi) {
  long v = pos < in.size() ? in[pos] : (lo <= 0 && hi >= 0 ? 0 : lo);
  ++pos;
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  if (!batch && getenv("SX_SHOW")) fprintf(stderr, "  %s = %ld\n", name, v);
  return v;
}
void sx_assume(bool c) {
  if (!c) done(0, "assumption not satisfied");
}
void sx_assert_(bool c, const char* msg) {
  if (!c) done(1, msg);
}
long sx_concretize(long v) { return v; }
void sx_cover(const char*) {}
void sx_observe(long v) {
  obsHash = (obsHash ^ (uint64_t)v) * 1099511628211ull;
  obsHash ^= obsHash >> 29;
}
void sx_stop() { done(0, ""); }
void sx_abort_stops(bool s) { signal(SIGABRT, s ? [](int) { sx_stop(); } : SIG_DFL); }
int sx_symbolic() { return 0; }
int sx_thorough() {
  const char* t = getenv("SX_TIER");
  return t && !strcmp(t, "thorough");
}
void sx_fail(const char* m) { done(1, m); }
long sx_live_allocs() { return sxn_allocs; }
long sx_live_bytes() { return sxn_bytes; }
long sx_peak_bytes() { return sxn_peak; }
void sx_reset_peak() { sxn_peak = sxn_bytes; }
#ifndef SX_ASAN
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
static inline void* cnt(void* p, size_t n) {
  if (p) {
    // Header-free accounting: usable size may exceed n, so only the number of blocks is exact.
    ++sxn_allocs;
    sxn_bytes += malloc_usable_size(p);
    if (sxn_bytes > sxn_peak) sxn_peak = sxn_bytes;
  }
  return p;
}
void* malloc(size_t n) { return cnt(__libc_malloc(n), n); }
void free(void* p) {
  if (p) {
    --sxn_allocs;
    sxn_bytes -= malloc_usable_size(p);
  }
  __libc_free(p);
}
void* calloc(size_t a, size_t b) { return cnt(__libc_calloc(a, b), a * b); }
void* realloc(void* p, size_t n) {
  if (p) {
    --sxn_allocs;
    sxn_bytes -= malloc_usable_size(p);
  }
  return cnt(__libc_realloc(p, n), n);
}
void* memalign(size_t a, size_t n) { return cnt(__libc_memalign(a, n), n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) {
  *r = memalign(a, n);
  return *r ? 0 : 12;
}
#endif
}
#include "fiber.inc"
static void onSig(int s) {
  char m[64];
  snprintf(m, sizeof m, "signal %d%s", s, s == SIGALRM || s == SIGXCPU ? " (did not finish)" : "");
  done(1, m);
}
static int runOne(sx_harness* h) {
  char* alt = (char*)malloc(1 << 20);
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = alt;
  ss.ss_size = 1 << 20;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onSig;
  sa.sa_flags = SA_ONSTACK;
#ifndef SX_ASAN
  for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
#else
  sigaction(SIGALRM, &sa, nullptr);
#endif
  alarm(getenv("SX_NATIVE_SECS") ? atoi(getenv("SX_NATIVE_SECS")) : 30);
  h->fn();
  done(0, "");
}
int main(int argc, char** argv) {
  const char *name = nullptr, *bf = nullptr;
  std::string inputs;
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--harness")) name = argv[++i];
    else if (!strcmp(argv[i], "--inputs")) inputs = argv[++i];
    else if (!strcmp(argv[i], "--batch")) bf = argv[++i];
  }
  auto parse = [&](const std::string& s) {
    in.clear();
    const char* p = s.c_str();
    while (*p) {
      char* e;
      long v = strtol(p, &e, 10);
      if (e == p) break;
      in.push_back(v);
      p = *e == ',' ? e + 1 : e;
    }
  };
  auto find = [&](const std::string& n) {
    for (auto* h = harnesses; h; h = h->next)
      if (n == h->name) return h;
    return (sx_harness*)nullptr;
  };
  if (name) {
    parse(inputs);
    auto* h = find(name);
    if (!h) return 2;
    runOne(h);
  }
  if (bf) {
    FILE* f = fopen(bf, "r");
    if (!f) return 2;
    char* line = nullptr;
    size_t cap = 0;
    batch = true;
    while (getline(&line, &cap, f) > 0) {
      std::string l = line;
      while (!l.empty() && (l.back() == '\n')) l.pop_back();
      size_t sp = l.find(' ');
      std::string hn = l.substr(0, sp), iv = sp == std::string::npos ? "" : l.substr(sp + 1);
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        parse(iv);
        auto* h = find(hn);
        if (!h) done(1, "no such harness");
        runOne(h);
      }
      int st;
      waitpid(pid, &st, 0);
      if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 1)) {
        printf("VIOLATED 0 died (status %x)\n", st);
        fflush(stdout);
      }
    }
    return 0;
  }
  return 2;
}
