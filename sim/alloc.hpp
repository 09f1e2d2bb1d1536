// Allocation seam: every operator new of the process goes through here.  The simulator can
// make the k-th allocation from now fail, counts live blocks, and fills fresh memory with
// bytes of its choosing.  Include in exactly one translation unit of a world.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>

namespace simalloc
{
inline bool on = false;        // counting and failing
inline long countdown = 0;     // >0: the countdown-th allocation from now fails
inline bool sticky = false;    // and all that follow it
inline long seen = 0;          // allocations since reset
inline long fired = 0;         // failures injected since reset
inline long live = 0;          // blocks alive that were allocated while `on`
inline int fill = -1;          // byte for fresh memory, -1: leave
struct Head
{
    uint64_t tag;
    uint64_t size;
};
constexpr uint64_t COUNTED = 0xC0DEDEADC0DE0001ULL, PLAIN = 0xC0DEDEADC0DE0002ULL;
inline void* get(size_t n)
{
    bool counted = on;
    if (on)
    {
        ++seen;
        if (countdown > 0)
        {
            if (countdown == 1)
            {
                ++fired;
                if (!sticky)
                    countdown = 0;
                throw std::bad_alloc();
            }
            --countdown;
        }
    }
    Head* h = static_cast<Head*>(std::malloc(n + sizeof(Head)));
    if (!h)
        throw std::bad_alloc();
    h->tag = counted ? COUNTED : PLAIN;
    h->size = n;
    if (counted)
        ++live;
    if (fill >= 0)
        std::memset(h + 1, fill, n);
    return h + 1;
}
inline void put(void* p) noexcept
{
    if (!p)
        return;
    Head* h = static_cast<Head*>(p) - 1;
    if (h->tag == COUNTED)
        --live;
    else if (h->tag != PLAIN)
        std::abort(); // freed twice, or not ours
    h->tag = 0;
    if (fill >= 0)
        std::memset(p, fill ^ 0xff, h->size);
    std::free(h);
}
// k-th allocation fails; 0: none
inline void arm(long k, bool stick = false)
{
    countdown = k;
    sticky = stick;
    seen = fired = 0;
    on = true;
}
inline void disarm()
{
    countdown = 0;
    sticky = false;
    on = false;
}
// the simulator's own bookkeeping neither fails nor counts
struct Pause
{
    const bool was = on;
    Pause() { on = false; }
    ~Pause() { on = was; }
    Pause(const Pause&) = delete;
};
struct Disarm
{
    ~Disarm() { disarm(); }
};
} // namespace simalloc

void* operator new(size_t n) { return simalloc::get(n); }
void* operator new[](size_t n) { return simalloc::get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    try
    {
        return simalloc::get(n);
    }
    catch (...)
    {
        return nullptr;
    }
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
    try
    {
        return simalloc::get(n);
    }
    catch (...)
    {
        return nullptr;
    }
}
void operator delete(void* p) noexcept { simalloc::put(p); }
void operator delete[](void* p) noexcept { simalloc::put(p); }
void operator delete(void* p, size_t) noexcept { simalloc::put(p); }
void operator delete[](void* p, size_t) noexcept { simalloc::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { simalloc::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { simalloc::put(p); }
