// Threads that are run one at a time: a switch happens only where the harness asks for one.
// Each has its own copy of the thread local variables of the program.
#include <link.h>
#include <ucontext.h>
struct SxFiber {
  ucontext_t c;
  char* tls;
  void (*fn)(void*);
  void* arg;
};
static SxFiber sxFibers[16];
static int sxFiberCount = 1, sxFiberCur = 0;
static char *sxTls = nullptr, *sxTlsImage = nullptr;
static size_t sxTlsSize = 0, sxTlsFile = 0;
static int sxFindTls(dl_phdr_info* i, size_t, void*) {
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    if (i->dlpi_phdr[k].p_type != PT_TLS) continue;
    sxTls = (char*)i->dlpi_tls_data;
    sxTlsImage = (char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
    sxTlsSize = i->dlpi_phdr[k].p_memsz, sxTlsFile = i->dlpi_phdr[k].p_filesz;
  }
  return 1;  // Only the program itself.
}
static void sxFiberMain() {
  SxFiber& f = sxFibers[sxFiberCur];
  f.fn(f.arg);
  sx_fail("a thread returned to nowhere");
}
extern "C" void sx_fiber_switch(int to) {
  if (to == sxFiberCur) return;
  int from = sxFiberCur;
  sxFiberCur = to;
  // Not memcpy, which may keep track of what it copies.
  for (size_t i = 0; i < sxTlsSize; ++i) {
    *(volatile char*)(sxFibers[from].tls + i) = sxTls[i];
    *(volatile char*)(sxTls + i) = sxFibers[to].tls[i];
  }
  swapcontext(&sxFibers[from].c, &sxFibers[to].c);
}
extern "C" int sx_fiber_new(void (*fn)(void*), void* arg) {
  if (sxFiberCount == 1) {
    dl_iterate_phdr(sxFindTls, nullptr);
    sxFibers[0].tls = (char*)malloc(sxTlsSize + 1);
  }
  if (sxFiberCount == 16) sx_fail("too many threads");
  SxFiber& f = sxFibers[sxFiberCount];
  f.fn = fn, f.arg = arg;
  f.tls = (char*)malloc(sxTlsSize + 1);
  for (size_t i = 0; i < sxTlsSize; ++i) *(volatile char*)(f.tls + i) = i < sxTlsFile ? sxTlsImage[i] : 0;
  getcontext(&f.c);
  f.c.uc_stack.ss_size = 512 << 10;
  f.c.uc_stack.ss_sp = malloc(512 << 10);
  f.c.uc_link = nullptr;
  makecontext(&f.c, sxFiberMain, 0);
  return sxFiberCount++;
}
