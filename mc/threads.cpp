#include "threads.hpp"
#include "sysio.hpp"
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" char __data_start, _end;

namespace threads {

static __thread int self = -1;  // 0, 1, or -1: not under the scheduler
static Level level;
static volatile int baton;      // who runs
static int done[2];
static long steps, target;      // of the current segment
static size_t current;
static std::vector<long> segments;
static long n_globals;
static bool counting;

static void futex(volatile int* a, int op, int v)
{
    syscall(SYS_futex, a, op, v, nullptr, nullptr, 0);
}

static void give(int to)
{
    __atomic_store_n(&baton, to, __ATOMIC_SEQ_CST);
    futex(&baton, FUTEX_WAKE_PRIVATE, 2);
}

static void await(int who)
{
    int b;
    while ((b = __atomic_load_n(&baton, __ATOMIC_SEQ_CST)) != who) futex(&baton, FUTEX_WAIT_PRIVATE, b);
}

static void next_segment()
{
    current++;
    steps = 0;
    target = current < segments.size() ? segments[current] : -1;
}

static void step()
{
    if (steps++ != target) return;
    // this thread stops just before its next step (number target, from zero)
    if (done[1 - self]) return;
    next_segment();
    sysio::Pause p;
    int me = self;
    give(1 - me);
    await(me);
    // the step it was stopped before
    if (steps++ == target && !done[1 - me]) mc::violation("scheduler: a segment without steps");
}

static inline void point(Level l)
{
    if (self < 0 || l > level) return;
    if (counting) steps++;
    else step();
}

static inline void access(const volatile void* p)
{
    if (self < 0) return;
    char here;
    const char* c = (const char*) p;
    if (c >= &__data_start && c < &_end)
    {
        n_globals++;
        point(COARSE);
        return;
    }
    if (level < FINE) return;
    long d = c - &here;
    if (d > -65536 && d < (1 << 20)) return; // the own stack
    point(FINE);
}

void operation() { point(COARSE); }
long globals() { return n_globals; }

static void any_call(long nr)
{
    if (self < 0) return;
    if (nr == SYS_futex)
    {
        // waiting for the other one: it has to run
        if (!counting && !done[1 - self])
        {
            int me = self;
            give(1 - me);
            await(me);
        }
        return;
    }
    switch (nr)
    {
        // They have no effect that another thread can see, and there may be more or less of them (mkstemp
        // asks again for some random numbers)
        case SYS_getrandom:
        case SYS_clock_gettime:
        case SYS_gettimeofday:
        case SYS_time:
        case SYS_getpid:
        case SYS_gettid: return;
    }
    point(COARSE);
}

static void* thread(void* arg)
{
    std::pair<int, const Body*>* a = (std::pair<int, const Body*>*) arg;
    await(a->first);
    {
        sysio::ThreadScope s;
        self = a->first;
        (*a->second)();
        self = -1;
    }
    done[a->first] = 1;
    give(done[1 - a->first] ? 2 : 1 - a->first);
    return nullptr;
}

static void go(const Body* a, const Body* b)
{
    std::pair<int, const Body*> x[2] = {{0, a}, {1, b}};
    pthread_t t[2];
    done[0] = 0;
    done[1] = !b;
    baton = 3;
    sysio::Scope s([](sysio::Call&) { return 0L; }, [](sysio::Call&, long) {}, false);
    sysio::any_call = any_call;
    for (int i = 0; i < (b ? 2 : 1); i++)
        if (pthread_create(&t[i], nullptr, thread, &x[i])) mc::violation("no thread");
    give(0);
    for (int i = 0; i < (b ? 2 : 1); i++) pthread_join(t[i], nullptr);
    sysio::any_call = nullptr;
}

long count(Level l, const Body& b)
{
    level = l;
    counting = true;
    steps = 0;
    go(&b, nullptr);
    counting = false;
    return steps;
}

bool run(Level l, const std::vector<long>& seg, const Body& a, const Body& b)
{
    level = l;
    segments = seg;
    current = 0;
    steps = 0;
    target = seg[0];
    go(&a, &b);
    return current == seg.size();
}

} // namespace threads

using namespace threads;

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { point(CALLS); }
void __tsan_func_exit() { point(CALLS); }
#define RW(n) \
    void __tsan_read##n(void* p) { access(p); } \
    void __tsan_write##n(void* p) { access(p); } \
    void __tsan_unaligned_read##n(void* p) { access(p); } \
    void __tsan_unaligned_write##n(void* p) { access(p); } \
    void __tsan_volatile_read##n(void* p) { access(p); } \
    void __tsan_volatile_write##n(void* p) { access(p); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p); } \
    void __tsan_unaligned_volatile_write##n(void* p) { access(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t) { access(p); }
void __tsan_write_range(void* p, size_t) { access(p); }
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define AT(T, n) \
    T __tsan_atomic##n##_load(const volatile T* p, int) { access(p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile T* p, T v, int) { access(p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { access(p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { access(p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { access(p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { access(p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { access(p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { access(p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { access(p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { access(p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int, int) { access(p); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(unsigned char, 8) AT(unsigned short, 16) AT(unsigned int, 32) AT(unsigned long, 64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// Functions of libc that keep state between calls
char* __real_strtok(char*, const char*);
char* __wrap_strtok(char* a, const char* b)
{
    point(COARSE);
    char* r = __real_strtok(a, b);
    point(COARSE);
    return r;
}
char* __real_tmpnam(char*);
char* __wrap_tmpnam(char* a)
{
    char* r = __real_tmpnam(a);
    point(COARSE);
    return r;
}
char* __real_setlocale(int, const char*);
char* __wrap_setlocale(int a, const char* b)
{
    char* r = __real_setlocale(a, b);
    point(COARSE);
    return r;
}
}
