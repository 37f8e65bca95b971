// The thread pool of slinky with threads that are scheduled by scheduler.h.
#include "pool_threads.h"
#include "slinky/base/thread_pool.h"
#define thread_pool_impl scheduled_thread_pool
#include "slinky/base/thread_pool_impl.cc"
slinky::thread_pool* make_scheduled_pool(int workers) { return new slinky::scheduled_thread_pool(workers); }
