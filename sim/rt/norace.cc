#include "internal.h"
namespace sim {
void race_thread_create(SThread *, SThread *) {}
void race_thread_join(SThread *, SThread *) {}
void race_acquire(const void *) {}
void race_release(const void *) {}
void race_free(const void *, std::size_t) {}
void race_init() {}
void race_memory() {}
void race_thread_start() {}
bool race_build = false;
}  // namespace sim
