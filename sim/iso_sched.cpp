// The instrumented code of the world and of the library calls the __tsan_* entry points below
// before every memory access; they are the scheduler's preemption points.  No part of the real
// thread sanitizer is linked.  This file is compiled without instrumentation.
#include "iso.hpp"
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <ucontext.h>

extern "C" char __data_start, _end;

namespace iso
{
struct Session
{
    const std::function<void()>* f = nullptr;
    int id = 0;
    Counts n;
    bool done = false;
    std::vector<Switch> a, h, s; // still to come, last one first
    sem_t sem;
    pthread_t th;
    ucontext_t ctx;
    std::vector<char> stack;
};
struct Sched
{
    bool fibers = false;
    std::vector<std::unique_ptr<Session>> se;
    sem_t all;
    ucontext_t home;
    std::vector<long> fired;
    int cur = -1;
};
static Sched* S = nullptr;
static thread_local int me = -1;      // session of this thread (threads)
static thread_local int nopreempt = 0; // locks and initialisation guards held

static int alive_from(int k)
{
    const int n = int(S->se.size());
    for (int i = 0; i < n; ++i)
        if (!S->se[size_t((k + i) % n)]->done)
            return (k + i) % n;
    return -1;
}
static void go(int from, int to)
{
    to = alive_from(((to % int(S->se.size())) + int(S->se.size())) % int(S->se.size()));
    if (to == from || to < 0)
        return;
    S->cur = to;
    if (S->fibers)
        swapcontext(&S->se[size_t(from)]->ctx, &S->se[size_t(to)]->ctx);
    else
    {
        sem_post(&S->se[size_t(to)]->sem);
        while (sem_wait(&S->se[size_t(from)]->sem) != 0)
            ;
    }
}
static inline void at(std::vector<Switch>& v, uint64_t n, int who, char kind)
{
    if (v.empty() || v.back().at > n)
        return;
    int to = v.back().to;
    while (!v.empty() && v.back().at <= n)
    {
        to = v.back().to;
        v.pop_back();
    }
    ++S->fired[size_t(kind == 'a' ? 0 : kind == 'h' ? 1 : 2)];
    go(who, to);
}
static inline void access(const void* p)
{
    if (me < 0)
        return;
    Session& s = *S->se[size_t(me)];
    ++s.n.any;
    const char* c = static_cast<const char*>(p);
    const bool hot = c >= &__data_start && c < &_end;
    if (hot)
        ++s.n.hot;
    if (nopreempt)
        return;
    at(s.a, s.n.any, me, 'a');
    if (hot)
        at(s.h, s.n.hot, me, 'h');
}
void step()
{
    if (!S)
        return;
    const int who = S->fibers ? S->cur : me;
    if (who < 0)
        return;
    Session& s = *S->se[size_t(who)];
    ++s.n.step;
    if (!nopreempt)
        at(s.s, s.n.step, who, 's');
}
static void finish(int id)
{
    S->se[size_t(id)]->done = true;
    const int nx = alive_from(id);
    if (S->fibers)
    {
        if (nx < 0)
            setcontext(&S->home);
        S->cur = nx;
        setcontext(&S->se[size_t(nx)]->ctx);
    }
    else if (nx < 0)
        sem_post(&S->all);
    else
    {
        S->cur = nx;
        sem_post(&S->se[size_t(nx)]->sem);
    }
}
static void body(int id)
{
    (*S->se[size_t(id)]->f)(); // catches everything itself
}
static void* thread_main(void* p)
{
    Session* s = static_cast<Session*>(p);
    while (sem_wait(&s->sem) != 0)
        ;
    me = s->id;
    body(s->id);
    me = -1;
    finish(s->id);
    return nullptr;
}
static void fiber_main(int id)
{
    body(id);
    finish(id);
}
std::vector<Counts> run(const std::vector<std::function<void()>>& f, const Plan& plan, std::vector<long>& fired)
{
    Sched sc;
    sc.fibers = plan.fibers;
    sc.fired.assign(3, 0);
    sem_init(&sc.all, 0, 0);
    for (size_t i = 0; i < f.size(); ++i)
    {
        auto s = std::make_unique<Session>();
        s->f = &f[i];
        s->id = int(i);
        sem_init(&s->sem, 0, 0);
        for (auto& w : plan.sw)
            if (w.who == int(i))
                (w.kind == 'a' ? s->a : w.kind == 'h' ? s->h : s->s).push_back(w);
        for (auto* v : {&s->a, &s->h, &s->s})
            std::stable_sort(v->begin(), v->end(), [](const Switch& x, const Switch& y) { return x.at > y.at; });
        sc.se.push_back(std::move(s));
    }
    S = &sc;
    sc.cur = 0;
    if (sc.fibers)
    {
        for (auto& s : sc.se)
        {
            s->stack.resize(1 << 20);
            getcontext(&s->ctx);
            s->ctx.uc_stack.ss_sp = s->stack.data();
            s->ctx.uc_stack.ss_size = s->stack.size();
            s->ctx.uc_link = nullptr;
            makecontext(&s->ctx, reinterpret_cast<void (*)()>(fiber_main), 1, s->id);
        }
        swapcontext(&sc.home, &sc.se[0]->ctx);
    }
    else
    {
        for (auto& s : sc.se)
            if (pthread_create(&s->th, nullptr, thread_main, s.get()) != 0)
            {
                fprintf(stderr, "no thread\n");
                _Exit(3);
            }
        sem_post(&sc.se[0]->sem);
        while (sem_wait(&sc.all) != 0)
            ;
        for (auto& s : sc.se)
            pthread_join(s->th, nullptr);
    }
    S = nullptr;
    fired = sc.fired;
    std::vector<Counts> r;
    for (auto& s : sc.se)
        r.push_back(s->n);
    return r;
}
} // namespace iso

// ---------------------------------------------------------------- instrumentation entry points
extern "C"
{
#define ACC(n)                                                                                                                                       \
    void __tsan_read##n(void* p) { iso::access(p); }                                                                                                 \
    void __tsan_write##n(void* p) { iso::access(p); }                                                                                                \
    void __tsan_read_write##n(void* p) { iso::access(p); }                                                                                           \
    void __tsan_unaligned_read##n(void* p) { iso::access(p); }                                                                                       \
    void __tsan_unaligned_write##n(void* p) { iso::access(p); }                                                                                      \
    void __tsan_unaligned_read_write##n(void* p) { iso::access(p); }                                                                                 \
    void __tsan_volatile_read##n(void* p) { iso::access(p); }                                                                                        \
    void __tsan_volatile_write##n(void* p) { iso::access(p); }                                                                                       \
    void __tsan_unaligned_volatile_read##n(void* p) { iso::access(p); }                                                                              \
    void __tsan_unaligned_volatile_write##n(void* p) { iso::access(p); }
    ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
#undef ACC
    void __tsan_read_range(void* p, unsigned long) { iso::access(p); }
    void __tsan_write_range(void* p, unsigned long) { iso::access(p); }
    void __tsan_vptr_update(void** p, void*) { iso::access(p); }
    void __tsan_vptr_read(void** p) { iso::access(p); }
    void __tsan_func_entry(void*) { }
    void __tsan_func_exit() { }
    void __tsan_init() { }
    void __tsan_acquire(void*) { }
    void __tsan_release(void*) { }
    void __tsan_ignore_thread_begin() { }
    void __tsan_ignore_thread_end() { }
    void __tsan_mutex_create(void*, unsigned) { }
    void __tsan_mutex_destroy(void*, unsigned) { }
    void __tsan_mutex_pre_lock(void*, unsigned) { }
    void __tsan_mutex_post_lock(void*, unsigned, int) { }
    int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
    void __tsan_mutex_post_unlock(void*, unsigned) { }
    void __tsan_mutex_pre_signal(void*, unsigned) { }
    void __tsan_mutex_post_signal(void*, unsigned) { }
    void __tsan_mutex_pre_divert(void*, unsigned) { }
    void __tsan_mutex_post_divert(void*, unsigned) { }
    void* __tsan_memcpy(void* d, const void* s, unsigned long n) { return memcpy(d, s, n); }
    void* __tsan_memmove(void* d, const void* s, unsigned long n) { return memmove(d, s, n); }
    void* __tsan_memset(void* d, int c, unsigned long n) { return memset(d, c, n); }

#define ATOMIC(N, T)                                                                                                                                 \
    T __tsan_atomic##N##_load(const volatile T* a, int)                                                                                              \
    {                                                                                                                                                \
        iso::access((const void*)a);                                                                                                                 \
        return __atomic_load_n(a, 5);                                                                                                                \
    }                                                                                                                                                \
    void __tsan_atomic##N##_store(volatile T* a, T v, int)                                                                                           \
    {                                                                                                                                                \
        iso::access((const void*)a);                                                                                                                 \
        __atomic_store_n(a, v, 5);                                                                                                                   \
    }                                                                                                                                                \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int)                                                                                           \
    {                                                                                                                                                \
        iso::access((const void*)a);                                                                                                                 \
        return __atomic_exchange_n(a, v, 5);                                                                                                         \
    }                                                                                                                                                \
    T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int)                                                                                          \
    {                                                                                                                                                \
        iso::access((const void*)a);                                                                                                                 \
        return __atomic_fetch_add(a, v, 5);                                                                                                          \
    }                                                                                                                                                \
    T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int)                                                                                          \
    {                                                                                                                                                \
        iso::access((const void*)a);                                                                                                                 \
        return __atomic_fetch_sub(a, v, 5);                                                                                                          \
    }                                                                                                                                                \
    T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int)                                                                                          \
    {                                                                                                                                                \
        iso::access((const void*)a);                                                                                                                 \
        return __atomic_fetch_and(a, v, 5);                                                                                                          \
    }                                                                                                                                                \
    T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int)                                                                                           \
    {                                                                                                                                                \
        iso::access((const void*)a);                                                                                                                 \
        return __atomic_fetch_or(a, v, 5);                                                                                                           \
    }                                                                                                                                                \
    T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int)                                                                                          \
    {                                                                                                                                                \
        iso::access((const void*)a);                                                                                                                 \
        return __atomic_fetch_xor(a, v, 5);                                                                                                          \
    }                                                                                                                                                \
    T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int)                                                                                         \
    {                                                                                                                                                \
        iso::access((const void*)a);                                                                                                                 \
        return __atomic_fetch_nand(a, v, 5);                                                                                                         \
    }                                                                                                                                                \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int)                                                               \
    {                                                                                                                                                \
        iso::access((const void*)a);                                                                                                                 \
        return __atomic_compare_exchange_n(a, c, v, false, 5, 5);                                                                                    \
    }                                                                                                                                                \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int)                                                                 \
    {                                                                                                                                                \
        iso::access((const void*)a);                                                                                                                 \
        return __atomic_compare_exchange_n(a, c, v, false, 5, 5);                                                                                    \
    }                                                                                                                                                \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int)                                                                     \
    {                                                                                                                                                \
        iso::access((const void*)a);                                                                                                                 \
        __atomic_compare_exchange_n(a, &c, v, false, 5, 5);                                                                                          \
        return c;                                                                                                                                    \
    }
    ATOMIC(8, uint8_t)
    ATOMIC(16, uint16_t)
    ATOMIC(32, uint32_t)
    ATOMIC(64, uint64_t)
#undef ATOMIC
    void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
    void __tsan_atomic_signal_fence(int) { }

    // initialisation guards and locks: whoever holds one is not preempted, so nobody ever waits for one
    int __cxa_guard_acquire(uint64_t* g)
    {
        if (__atomic_load_n(reinterpret_cast<char*>(g), __ATOMIC_ACQUIRE))
            return 0;
        ++iso::nopreempt;
        return 1;
    }
    void __cxa_guard_release(uint64_t* g)
    {
        __atomic_store_n(reinterpret_cast<char*>(g), 1, __ATOMIC_RELEASE);
        --iso::nopreempt;
    }
    void __cxa_guard_abort(uint64_t*) { --iso::nopreempt; }

#define REAL(name)                                                                                                                                   \
    static decltype(&name) real = nullptr;                                                                                                           \
    if (!real)                                                                                                                                       \
        real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name));
#define LOCK(name, type)                                                                                                                             \
    int name(type* m) noexcept                                                                                                                       \
    {                                                                                                                                                \
        REAL(name)                                                                                                                                   \
        const int r = real(m);                                                                                                                       \
        if (r == 0)                                                                                                                                  \
            ++iso::nopreempt;                                                                                                                        \
        return r;                                                                                                                                    \
    }
#define UNLOCK(name, type)                                                                                                                           \
    int name(type* m) noexcept                                                                                                                       \
    {                                                                                                                                                \
        REAL(name)                                                                                                                                   \
        --iso::nopreempt;                                                                                                                            \
        return real(m);                                                                                                                              \
    }
    LOCK(pthread_mutex_lock, pthread_mutex_t)
    LOCK(pthread_mutex_trylock, pthread_mutex_t)
    UNLOCK(pthread_mutex_unlock, pthread_mutex_t)
    LOCK(pthread_rwlock_rdlock, pthread_rwlock_t)
    LOCK(pthread_rwlock_wrlock, pthread_rwlock_t)
    LOCK(pthread_rwlock_tryrdlock, pthread_rwlock_t)
    LOCK(pthread_rwlock_trywrlock, pthread_rwlock_t)
    UNLOCK(pthread_rwlock_unlock, pthread_rwlock_t)
    int pthread_once(pthread_once_t* o, void (*f)())
    {
        REAL(pthread_once)
        ++iso::nopreempt;
        const int r = real(o, f);
        --iso::nopreempt;
        return r;
    }
}
