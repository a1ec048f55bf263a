// The allocator seam: every C++ allocation of the process goes through here. Fresh and freed memory is filled with a
// pattern that depends only on the run, so that uninitialised reads repeat exactly, and differ between two instances;
// the k-th allocation can be made to fail.
#include <malloc.h>

#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>

static uint64_t g_seed = 1;
static uint64_t g_serial = 0;
static long g_count = 0, g_arm = 0;
static bool g_fired = false;
static long g_blocks = 0, g_bytes = 0;
extern "C" {
void sim_alloc_reset(uint64_t seed) { g_seed = seed; g_serial = 0; g_count = 0; g_arm = 0; }
void sim_alloc_arm(long k) { g_arm = k; g_count = 0; g_fired = false; }
long sim_alloc_count() { return g_count; }
bool sim_alloc_fired() { return g_fired; }
long sim_alloc_blocks() { return g_blocks; }
long sim_alloc_bytes() { return g_bytes; }
}
static void* get(size_t n) {
  g_count++;
  if (g_arm > 0 && g_count == g_arm) {
    g_fired = true;
    return nullptr;
  }
  void* p = malloc(n ? n : 1);
  if (p) {
    uint64_t x = (g_seed + ++g_serial) * 0x9e3779b97f4a7c15ull;
    memset(p, (int)((x >> 56) | 1), n);
    g_blocks++, g_bytes += malloc_usable_size(p);
  }
  return p;
}
static void put(void* p) {
  if (!p) return;
  size_t n = malloc_usable_size(p);
  g_blocks--, g_bytes -= n;
  memset(p, 0xdb, n);
  free(p);
}
void* operator new(size_t n) {
  void* p = get(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) {
  void* p = get(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
