// Live heap blocks, counted through the sanitizer's allocation hooks: a block
// of code that gives back all it took leaves the count as it found it.
#ifndef VH_LIVE_H
#define VH_LIVE_H
#include <atomic>
#include <cstddef>
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void*, size_t), void (*free_hook)(const volatile void*)) __attribute__((weak));
namespace vh
{
    inline std::atomic<long>& liveCount()
    {
        static std::atomic<long> n(0);
        return n;
    }
    inline void onMalloc(const volatile void*, size_t)
    {
        liveCount().fetch_add(1, std::memory_order_relaxed);
    }
    inline void onFree(const volatile void* p)
    {
        if (p)
            liveCount().fetch_sub(1, std::memory_order_relaxed);
    }
    inline void countAllocations()
    {
        liveCount();
        if (__sanitizer_install_malloc_and_free_hooks) // not without a sanitizer
            __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    }
    inline long live()
    {
        return liveCount().load(std::memory_order_relaxed);
    }
}
#endif
