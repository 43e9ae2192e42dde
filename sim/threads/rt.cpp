// Scheduler, access hooks, locks, race detection. Compiled without instrumentation.
#include "rt.hpp"

#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdlib>
#include <csignal>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <malloc.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>

extern "C" char __executable_start, __data_start, _end;

namespace sim
{
world W;
uintptr_t protect_lo, protect_hi;
static __thread thread* tself;
static char const* decisions_path;
static bool ending;

thread* self()
{
    return tself;
}
void set_decisions_path(char const* p)
{
    decisions_path = p;
}

// ------------------------------------------------------------------------------------------------------ log
void world::log(char const* fmt, ...)
{
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    log_h = mix64(log_h ^ hash_str(buf));
    if (trace)
    {
        thread* t = tself;
        if (t)
        {
            fprintf(trace, "thread %d  op %d  access %llu: %s\n", t->id, t->what, (unsigned long long)t->acc, buf);
        }
        else
        {
            fprintf(trace, "%s\n", buf);
        }
    }
}

void world::violate(char const* code, char const* fmt, ...)
{
    char buf[sizeof(violation_rec::msg)];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    log("VIOLATION %s %s", code, buf);
    for (uint32_t i = 0; i != res->nviol; ++i)
    {
        if (!strcmp(res->viol[i].code, code))
        {
            return;
        }
    }
    if (res->nviol < max_viol)
    {
        auto& v = res->viol[res->nviol++];
        strncpy(v.code, code, sizeof v.code - 1);
        strncpy(v.msg, buf, sizeof v.msg - 1);
    }
}

void world::end()
{
    ending          = true;
    res->log_hash   = log_h;
    res->order_hash = order_h;
    res->decisions  = ch.total();
    res->frames     = res->counters[n_evaluations];
    if (decisions_path)
    {
        FILE* f = fopen(decisions_path, "w");
        if (f)
        {
            for (auto& d : ch.taken())
            {
                fprintf(f, "%s %u %u\n", ch.sites()[d.site].c_str(), d.k, d.v);
            }
            fclose(f);
        }
    }
    if (trace)
    {
        fflush(trace);
    }
    res->finished = 1;
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}

// ------------------------------------------------------------------------------------------------------ one at a time
static void park(uint32_t* f)
{
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0)
    {
        syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
    __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
static void unpark(uint32_t* f)
{
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static int runnable(thread** out, thread* except)
{
    int n = 0;
    for (int i = 0; i != W.nthreads; ++i)
    {
        if (W.th[i].st == state::runnable && &W.th[i] != except)
        {
            out[n++] = &W.th[i];
        }
    }
    return n;
}

static void order(uint64_t v)
{
    W.order_h = mix64(W.order_h ^ v);
}

static void go(thread* from, thread* to)
{
    to->quantum = 0;
    order(uint64_t(to->id) << 56 | uint64_t(uint8_t(from ? from->what : 0)) << 32 | (from ? from->acc : 0));
    W.log("-> thread %d", to->id);
    if (from == to)
    {
        return;
    }
    unpark(&to->futex);
    if (from)
    {
        park(&from->futex);
    }
}

// The current thread cannot go on (blocked, stalled or finished).
static void leave(thread* t)
{
    thread* r[max_threads];
    int n = runnable(r, t);
    if (n == 0)
    {
        // Time passes: the first timed wait ends.
        for (int i = 0; i != W.nthreads; ++i)
        {
            auto& b = W.th[i];
            if (b.st == state::blocked && b.timed)
            {
                b.timed_out = true;
                b.st        = state::runnable;
                r[n++]      = &b;
                break;
            }
        }
    }
    if (n == 0)
    {
        for (int i = 0; i != W.nthreads; ++i)
        {
            if (W.th[i].st == state::blocked)
            {
                W.violate("wait.blocked", "thread %d waits for ever in operation %d: every thread that could wake it is stopped, finished or waiting itself",
                          i, W.th[i].what);
                W.end();
            }
        }
        unpark(&W.main_futex);
        park(&t->futex);
        return;
    }
    thread* to = r[W.ch.choose("sched.next", n)];
    go(t, to);
}

static void block(thread* t, void* on)
{
    W.count(n_blocked_on_lock);
    W.log("waits");
    t->st         = state::blocked;
    t->blocked_on = on;
    leave(t);
    t->blocked_on = nullptr;
}
static void wake_all(void* on)
{
    for (int i = 0; i != W.nthreads; ++i)
    {
        if (W.th[i].st == state::blocked && W.th[i].blocked_on == on)
        {
            W.th[i].st = state::runnable;
        }
    }
}

static uint64_t next_gap()
{
    if (W.events >= W.cfg.max_events || !(W.cfg.switches || W.cfg.nested || W.cfg.abandon || W.cfg.stall))
    {
        return ~0ull >> 1;
    }
    uint32_t v = W.ch.choose("sched.gap", 64);
    if (v == 0)
    {
        return ~0ull >> 1;
    }
    return 1 + uint64_t(exp2(v * W.cfg.gap_scale / 640.0));
}

static uint64_t const chunk = 8192;
static __thread uint64_t gap_left;

static void arm(thread* t)
{
    t->countdown = std::min<uint64_t>(gap_left, chunk);
    gap_left -= t->countdown;
}

static void event(thread* t)
{
    ++W.events;
    thread* r[max_threads];
    int n      = runnable(r, t);
    uint32_t k = W.ch.choose("event.kind", 8);
    bool sw = W.cfg.switches && n > 0, ne = W.cfg.nested && t->depth < 3 && !t->exiting,
         ab = W.cfg.abandon && can_abandon(t) && !t->exiting,
         st = W.cfg.stall && n > 0 && W.stalls + 1 < uint32_t(W.nthreads);
    if (k == 0)
    {
        return;
    }
    if (k >= 6 && st && k == 6)
    {
        W.count(f_thread_stopped_for_good);
        W.log("FAULT stopped for good");
        ++W.stalls;
        t->st = state::stalled;
        leave(t);
        return;
    }
    if (k >= 6 && ab)
    {
        W.count(f_abandoned_evaluation);
        W.log("FAULT abandoned");
        order(0xAB00000000ull | t->acc);
        gap_left = next_gap();
        arm(t);
        abandon_operation(t);
    }
    if ((k >= 3 && ne) || (ne && !sw))
    {
        W.count(f_nested_evaluation);
        W.log("FAULT interrupted by another evaluation");
        order(0xE500000000ull | t->acc);
        gap_left = next_gap();
        arm(t);
        auto acc = t->acc, limit = t->limit;
        auto what  = t->what;
        int depth  = t->rt_depth;
        static int const bursts[] = {1, 1, 1, 1, 4, 20, 90, 300};
        for (int i = W.cfg.overtake && t->depth == 1 ? bursts[W.ch.choose("event.burst", 8)] : 1; i != 0; --i)
        {
            nested_operation(t);
        }
        t->rt_depth = depth;
        t->acc    = acc;
        t->limit  = limit;
        t->what   = what;
        t->active = true;
        return;
    }
    if (sw)
    {
        W.count(f_preemption);
        thread* to = r[W.ch.choose("sched.to", n)];
        go(t, to);
    }
}

static void slow(thread* t)
{
    ++t->rt_depth;
    if (t->acc > t->limit)
    {
        W.violate("wait.spin", "operation %d took more than %llu steps of its own thread without completing", t->what, (unsigned long long)t->limit);
        W.end();
    }
    if (gap_left == 0)
    {
        event(t);
        gap_left   = next_gap();
        t->quantum = 0;
    }
    else
    {
        t->quantum += chunk;
        if (t->quantum > 6 * chunk) // fair to threads that spin
        {
            thread* r[max_threads];
            int n = runnable(r, t);
            if (n)
            {
                thread* to = r[0];
                for (int i = 0; i != n; ++i)
                {
                    if (r[i]->id > t->id)
                    {
                        to = r[i];
                        break;
                    }
                }
                go(t, to);
            }
            t->quantum = 0;
        }
    }
    arm(t);
    --t->rt_depth;
}

void schedule(char const* why)
{
    thread* t = tself;
    if (!t || t->rt_depth)
    {
        return;
    }
    rt_scope s;
    thread* r[max_threads];
    int n = runnable(r, t);
    t->acc += 500;
    if (t->acc > t->limit && t->limit)
    {
        W.violate("wait.spin", "operation %d took more than %llu steps of its own thread without completing", t->what, (unsigned long long)t->limit);
        W.end();
    }
    if (n)
    {
        uint32_t v = W.ch.choose("sched.yield", n + 1);
        if (v || !strcmp(why, "sleep"))
        {
            go(t, r[v ? v - 1 : 0]);
        }
    }
}

// ------------------------------------------------------------------------------------------------------ happens-before
struct cell
{
    int wt      = -1;
    uint32_t wc = 0;
    std::vector<std::pair<int, uint32_t>> reads; // thread, its clock at its last read
};
static std::unordered_map<uintptr_t, cell>* shadow;
static std::map<void*, clock_vec>* sync_clocks;
static clock_vec main_clock(max_threads, 0);

static void join(clock_vec& a, clock_vec const& b)
{
    if (a.size() < b.size())
    {
        a.resize(b.size());
    }
    for (size_t i = 0; i != b.size(); ++i)
    {
        a[i] = std::max(a[i], b[i]);
    }
}
static void acquire_clock(thread* t, void* a)
{
    if (W.cfg.races)
    {
        join(t->vc, (*sync_clocks)[a]);
    }
}
static void release_clock(thread* t, void* a)
{
    if (W.cfg.races)
    {
        join((*sync_clocks)[a], t->vc);
        ++t->vc[t->id];
    }
}

static void check_race(thread* t, uintptr_t a, size_t n, bool write)
{
    for (size_t i = 0; i != n; ++i)
    {
        cell& c = (*shadow)[a + i];
        if (c.wt >= 0 && c.wt != t->id && c.wc > t->vc[c.wt])
        {
            W.violate("race.data", "data race: thread %d %s variable at data+0x%zx in operation %d, unordered with a write of thread %d", t->id,
                      write ? "writes" : "reads", size_t(a - uintptr_t(&__data_start)), t->what, c.wt);
        }
        if (write)
        {
            for (auto& r : c.reads)
            {
                if (r.first != t->id && r.second > t->vc[size_t(r.first)])
                {
                    W.violate("race.data", "data race: thread %d writes variable at data+0x%zx in operation %d, unordered with a read of thread %d", t->id,
                              size_t(a - uintptr_t(&__data_start)), t->what, r.first);
                }
            }
            c.reads.clear(); // what is ordered after this write is ordered after them
            c.wt = t->id;
            c.wc = t->vc[t->id];
        }
        else
        {
            uint32_t now = t->vc[size_t(t->id)];
            auto it      = c.reads.begin();
            while (it != c.reads.end() && it->first != t->id)
            {
                ++it;
            }
            if (it != c.reads.end())
            {
                it->second = now;
            }
            else
            {
                c.reads.emplace_back(t->id, now);
            }
        }
    }
}

static void shared_event(thread* t)
{
    W.count(n_shared_variable_accesses);
    if (W.cfg.shared_one_in && W.events < W.cfg.max_events && W.ch.choose("sched.shared", W.cfg.shared_one_in) == 1)
    {
        W.count(f_preemption_at_shared_variable);
        event(t);
    }
}

static void special(thread* t, uintptr_t a, size_t n, bool write, bool atomic)
{
    ++t->rt_depth;
    if (write && W.cfg.protect && a < protect_hi && a + n > protect_lo)
    {
        W.violate("input.write", "operation %d writes to its inputs", t->what);
        W.end();
    }
    else if (a >= uintptr_t(&__data_start) && a < uintptr_t(&_end))
    {
        shared_event(t);
        if (W.cfg.races && !atomic)
        {
            check_race(t, a, n, write);
        }
    }
    else if ((a < protect_lo || a >= protect_hi) && (a < uintptr_t(&__executable_start) || a >= uintptr_t(&__data_start)))
    {
        shared_event(t); // thread_local storage, heap
    }
    --t->rt_depth;
}

static inline __attribute__((always_inline)) void access(void const* p, size_t n, bool write, bool atomic = false)
{
    thread* t = tself;
    if (!t || !t->active || t->rt_depth)
    {
        return;
    }
    ++t->acc;
    if (--t->countdown == 0)
    {
        slow(t);
    }
    uintptr_t a = uintptr_t(p);
    if (a - t->stack_lo >= t->stack_hi - t->stack_lo)
    {
        special(t, a, n, write, atomic);
    }
}

// ------------------------------------------------------------------------------------------------------ threads
static thread_local std::vector<std::pair<void (*)(void*), void*>> tls_dtors;

static void* thread_main(void* p)
{
    auto* t     = static_cast<thread*>(p);
    static __thread char alt[16384];
    stack_t ss{};
    ss.ss_sp   = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    park(&t->futex);
    tself        = t;
    t->stack_lo  = uintptr_t(t->stack);
    t->stack_hi  = uintptr_t(__builtin_frame_address(0)) + 16;
    ++t->rt_depth;
    gap_left = next_gap();
    arm(t);
    t->body(t->arg);
    t->exiting = true;
    while (!tls_dtors.empty())
    {
        // thread_local objects are destroyed while other threads run
        auto d = tls_dtors.back();
        tls_dtors.pop_back();
        W.count(n_thread_local_destroyed);
        begin_op(-2, 4000000);
        d.first(d.second);
        end_op();
    }
    t->active = false;
    t->st     = state::finished;
    W.log("thread %d ends", t->id);
    leave(t);
    tself = nullptr; // woken by join_finished
    return nullptr;
}

thread* spawn(void (*body)(void*), void* arg)
{
    if (!shadow)
    {
        shadow      = new std::unordered_map<uintptr_t, cell>;
        sync_clocks = new std::map<void*, clock_vec>;
    }
    if (W.nthreads == max_threads)
    {
        return nullptr;
    }
    thread* t = &W.th[W.nthreads];
    t->id     = W.nthreads++;
    t->st     = state::runnable;
    t->body   = body;
    t->arg    = arg;
    t->vc     = main_clock;
    t->vc.resize(max_threads);
    t->vc[t->id] = main_clock[t->id] + 1;
    // Fixed addresses: the same in every process
    t->stack = static_cast<char*>(mmap(reinterpret_cast<void*>(0x200000000000ull + t->id * 0x10000000ull), stack_size, PROT_READ | PROT_WRITE,
                                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0));
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, t->stack, stack_size);
    pthread_t h;
    if (pthread_create(&h, &a, thread_main, t))
    {
        abort();
    }
    t->handle = h;
    return t;
}

void run_threads()
{
    thread* r[max_threads];
    int n = runnable(r, nullptr);
    if (n == 0)
    {
        return;
    }
    thread* to = r[W.ch.choose("sched.first", n)];
    go(nullptr, to);
    park(&W.main_futex);
    for (int i = 0; i != W.nthreads; ++i)
    {
        join(main_clock, W.th[i].vc);
    }
}

void join_finished()
{
    for (int i = 0; i != W.nthreads; ++i)
    {
        auto& t = W.th[i];
        if (t.st == state::finished && !t.joined)
        {
            t.joined = true;
            unpark(&t.futex);
            pthread_join(t.handle, nullptr);
            size_t n = W.nthreads > 32 ? size_t(65536) : stack_size;
            memset(t.stack + stack_size - n, 0xD7, n);
        }
    }
}

void begin_op(int what, uint64_t limit, int variant)
{
    thread* t  = tself;
    order(uint64_t(what) << 16 | uint64_t(variant) | 0x0B00000000000000ull);
    t->what    = what;
    t->acc     = 0;
    t->limit   = limit;
    t->active  = true;
    t->rt_depth = 0;
}
void end_op()
{
    thread* t   = tself;
    t->rt_depth = 1;
    W.res->calls += t->acc;
    t->active = false;
}

__attribute__((noinline)) void dirty_stack(uint8_t pattern)
{
    char buf[40000];
    memset(buf, pattern, sizeof buf);
    asm volatile("" ::"r"(buf) : "memory");
}

// ------------------------------------------------------------------------------------------------------ death
static void on_signal(int sig, siginfo_t* si, void* uc)
{
    if (ending)
    {
        _exit(98);
    }
    thread* t = tself;
    if (t)
    {
        t->rt_depth = 1000;
    }
    uintptr_t a = uintptr_t(si->si_addr);
    bool write  = static_cast<ucontext_t*>(uc)->uc_mcontext.gregs[REG_ERR] & 2;
    if (sig == SIGALRM)
    {
        W.violate("wait.hang", "the run does not end: a thread waits in a way that the simulator cannot see, or computes for ever");
    }
    else if (sig == SIGSEGV && a >= protect_lo && a < protect_hi)
    {
        W.violate(write ? "input.write" : "input.overread", "operation %d %s", t ? t->what : -1, write ? "writes to its inputs" : "reads memory next to its inputs");
    }
    else if (!(t && t->alloc_failed && W.cfg.alloc_excuses))
    {
        W.violate("crash.signal", "operation %d dies from signal %d", t ? t->what : -1, sig);
    }
    W.end();
}

static void on_terminate()
{
    thread* t = tself;
    if (t)
    {
        t->rt_depth = 1000;
    }
    if (t && t->alloc_failed && W.cfg.alloc_excuses)
    {
        W.end();
    }
    char const* what = "";
    std::string s;
    if (auto e = std::current_exception())
    {
        try
        {
            std::rethrow_exception(e);
        }
        catch (std::bad_alloc const&)
        {
            what = " (std::bad_alloc)";
        }
        catch (std::exception const& x)
        {
            s    = std::string(" (") + x.what() + ")";
            what = s.c_str();
        }
        catch (...)
        {
            what = " (exception)";
        }
    }
    W.violate("crash.terminate", "operation %d terminates the program%s", t ? t->what : -1, what);
    W.end();
}

void install_signal_handlers()
{
    struct sigaction sa
    {};
    sa.sa_sigaction = on_signal;
    sa.sa_flags     = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGALRM})
    {
        sigaction(s, &sa, nullptr);
    }
    std::set_terminate(on_terminate);
    itimerval t{};
    t.it_value.tv_sec = 40;
    setitimer(ITIMER_REAL, &t, nullptr);
}
} // namespace sim

using namespace sim;

// ------------------------------------------------------------------------------------------------------ compiler hooks
#define HOOK extern "C" __attribute__((visibility("default")))
HOOK void __tsan_init() {}
HOOK void __tsan_func_entry(void*) {}
HOOK void __tsan_func_exit() {}
HOOK void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
HOOK void __tsan_vptr_read(void** p) { access(p, 8, false); }
#define RW(n)                                                             \
    HOOK void __tsan_read##n(void* p) { access(p, n, false); }            \
    HOOK void __tsan_write##n(void* p) { access(p, n, true); }            \
    HOOK void __tsan_volatile_read##n(void* p) { access(p, n, false); }   \
    HOOK void __tsan_volatile_write##n(void* p) { access(p, n, true); }   \
    HOOK void __tsan_read##n##_pc(void* p, void*) { access(p, n, false); } \
    HOOK void __tsan_write##n##_pc(void* p, void*) { access(p, n, true); } \
    HOOK void __tsan_unaligned_read##n(void* p) { access(p, n, false); }  \
    HOOK void __tsan_unaligned_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
HOOK void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
HOOK void __tsan_write_range(void* p, size_t n) { access(p, n, true); }

extern "C" {
void* __real_memcpy(void*, void const*, size_t);
void* __real_memmove(void*, void const*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, void const* s, size_t n)
{
    if (n)
    {
        access(s, n, false);
        access(d, n, true);
    }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, void const* s, size_t n)
{
    if (n)
    {
        access(s, n, false);
        access(d, n, true);
    }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    if (n)
    {
        access(d, n, true);
    }
    return __real_memset(d, c, n);
}
}

// Functions of the C library that write to memory they are given: scheduling points before and after, and a write
extern "C" {
int __real_vsnprintf(char*, size_t, char const*, va_list);
char* __real_strcpy(char*, char const*);
char* __real_strncpy(char*, char const*, size_t);
char* __real_strcat(char*, char const*);
int __wrap_vsnprintf(char* d, size_t n, char const* f, va_list l)
{
    if (n)
    {
        access(d, 1, true);
    }
    int r = __real_vsnprintf(d, n, f, l);
    if (n && r >= 0)
    {
        access(d, std::min(size_t(r) + 1, n), true);
    }
    return r;
}
int __wrap_vsprintf(char* d, char const* f, va_list l)
{
    return __wrap_vsnprintf(d, size_t(1) << 30, f, l);
}
int __wrap_snprintf(char* d, size_t n, char const* f, ...)
{
    va_list l;
    va_start(l, f);
    int r = __wrap_vsnprintf(d, n, f, l);
    va_end(l);
    return r;
}
int __wrap_sprintf(char* d, char const* f, ...)
{
    va_list l;
    va_start(l, f);
    int r = __wrap_vsnprintf(d, size_t(1) << 30, f, l);
    va_end(l);
    return r;
}
char* __wrap_strcpy(char* d, char const* s)
{
    access(s, strlen(s) + 1, false);
    access(d, 1, true);
    char* r = __real_strcpy(d, s);
    access(d, strlen(d) + 1, true);
    return r;
}
char* __wrap_strncpy(char* d, char const* s, size_t n)
{
    access(s, strnlen(s, n), false);
    access(d, 1, true);
    char* r = __real_strncpy(d, s, n);
    access(d, n, true);
    return r;
}
char* __wrap_strcat(char* d, char const* s)
{
    access(s, strlen(s) + 1, false);
    access(d, strlen(d) + 1, true);
    char* r = __real_strcat(d, s);
    access(d, strlen(d) + 1, true);
    return r;
}
}

static void atomic_before(void* a, int mo, bool write)
{
    access(a, 1, write, true);
    thread* t = tself;
    if (t && t->active && !t->rt_depth && write && mo >= __ATOMIC_RELEASE)
    {
        rt_scope s;
        release_clock(t, a);
    }
}
static void atomic_after(void* a, int mo)
{
    thread* t = tself;
    if (t && t->active && !t->rt_depth && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE)
    {
        rt_scope s;
        acquire_clock(t, a);
    }
}
#define ATOMIC(bits, T)                                                                                                                  \
    HOOK T __tsan_atomic##bits##_load(T const volatile* a, int mo)                                                                       \
    {                                                                                                                                    \
        atomic_before((void*)a, mo, false);                                                                                              \
        T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                                      \
        atomic_after((void*)a, mo);                                                                                                      \
        return v;                                                                                                                        \
    }                                                                                                                                    \
    HOOK void __tsan_atomic##bits##_store(T volatile* a, T v, int mo)                                                                    \
    {                                                                                                                                    \
        atomic_before((void*)a, mo, true);                                                                                               \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                                        \
    }                                                                                                                                    \
    HOOK T __tsan_atomic##bits##_exchange(T volatile* a, T v, int mo)                                                                    \
    {                                                                                                                                    \
        atomic_before((void*)a, mo, true);                                                                                               \
        T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                               \
        atomic_after((void*)a, mo);                                                                                                      \
        return r;                                                                                                                        \
    }                                                                                                                                    \
    HOOK int __tsan_atomic##bits##_compare_exchange_strong(T volatile* a, T* e, T v, int mo, int)                                        \
    {                                                                                                                                    \
        atomic_before((void*)a, mo, true);                                                                                               \
        int r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                         \
        atomic_after((void*)a, mo);                                                                                                      \
        return r;                                                                                                                        \
    }                                                                                                                                    \
    HOOK int __tsan_atomic##bits##_compare_exchange_weak(T volatile* a, T* e, T v, int mo, int fmo)                                      \
    {                                                                                                                                    \
        return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo);                                                          \
    }                                                                                                                                    \
    HOOK T __tsan_atomic##bits##_compare_exchange_val(T volatile* a, T e, T v, int mo, int fmo)                                          \
    {                                                                                                                                    \
        __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo);                                                                \
        return e;                                                                                                                        \
    }
#define FETCH(bits, T, op, builtin)                                     \
    HOOK T __tsan_atomic##bits##_fetch_##op(T volatile* a, T v, int mo) \
    {                                                                   \
        atomic_before((void*)a, mo, true);                              \
        T r = builtin(a, v, __ATOMIC_SEQ_CST);                          \
        atomic_after((void*)a, mo);                                     \
        return r;                                                       \
    }
#define FETCHES(bits, T)                        \
    FETCH(bits, T, add, __atomic_fetch_add)     \
    FETCH(bits, T, sub, __atomic_fetch_sub)     \
    FETCH(bits, T, and, __atomic_fetch_and)     \
    FETCH(bits, T, or, __atomic_fetch_or)       \
    FETCH(bits, T, xor, __atomic_fetch_xor)     \
    FETCH(bits, T, nand, __atomic_fetch_nand)
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
FETCHES(8, uint8_t) FETCHES(16, uint16_t) FETCHES(32, uint32_t) FETCHES(64, uint64_t)
HOOK void __tsan_atomic_thread_fence(int)
{
    // Orders everything: a fence joins with every other fence (may hide races of code that relies on fences, never invents one)
    thread* t = tself;
    if (t && t->active && !t->rt_depth)
    {
        rt_scope s;
        static char key;
        release_clock(t, &key);
        acquire_clock(t, &key);
    }
}
HOOK void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------------------------------------------ locks
namespace
{
struct lock_state
{
    int owner = -1;
    int count = 0;
    int readers = 0;
    std::vector<int> reader_ids;
};
struct cond_state
{
    std::vector<int> waiters;
};
std::map<void*, lock_state>& locks()
{
    static auto* m = new std::map<void*, lock_state>;
    return *m;
}
std::map<void*, cond_state>& conds()
{
    static auto* m = new std::map<void*, cond_state>;
    return *m;
}
std::map<void*, int>& once()
{
    static auto* m = new std::map<void*, int>;
    return *m;
}
std::map<void*, long>& sems()
{
    static auto* m = new std::map<void*, long>;
    return *m;
}
bool simulated()
{
    thread* t = tself;
    return t && !t->rt_depth && !ending;
}
template <typename F>
F real(char const* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

void step(thread* t)
{
    t->acc += 50; // library calls are steps as well
    if (t->limit && t->acc > t->limit)
    {
        W.violate("wait.spin", "operation %d took more than %llu steps of its own thread without completing", t->what, (unsigned long long)t->limit);
        W.end();
    }
    if (t->active && W.cfg.shared_one_in && W.events < W.cfg.max_events && W.ch.choose("sched.lock", 3) == 1)
    {
        event(t);
    }
}

// The thread has just taken a lock: the moment at which stopping it for good hurts the others most
void holding(thread* t)
{
    thread* r[max_threads];
    if (W.cfg.stall && t->active && W.stalls + 1 < uint32_t(W.nthreads) && runnable(r, t) > 0 && W.ch.choose("stop.holding", 4) == 1)
    {
        W.count(f_thread_stopped_for_good);
        W.log("FAULT stopped for good while holding a lock");
        ++W.stalls;
        t->st = state::stalled;
        leave(t);
    }
}

int lock(void* m, bool recursive, bool try_only, bool timed, bool check)
{
    rt_scope s;
    thread* t = s.t;
    step(t);
    for (;;)
    {
        auto& l = locks()[m];
        if (l.owner < 0 && l.readers == 0)
        {
            l.owner = t->id;
            l.count = 1;
            acquire_clock(t, m);
            holding(t);
            return 0;
        }
        if (l.owner == t->id && recursive)
        {
            ++l.count;
            return 0;
        }
        if (l.owner == t->id && check)
        {
            return EDEADLK;
        }
        if (try_only)
        {
            return EBUSY;
        }
        t->timed = timed;
        block(t, m);
        t->timed = 0;
        if (t->timed_out)
        {
            t->timed_out = false;
            return ETIMEDOUT;
        }
    }
}
int unlock(void* m)
{
    rt_scope s;
    thread* t = s.t;
    auto& l   = locks()[m];
    if (l.owner == t->id)
    {
        if (--l.count == 0)
        {
            l.owner = -1;
        }
    }
    else if (l.readers > 0)
    {
        --l.readers;
    }
    else
    {
        return EPERM;
    }
    release_clock(t, m);
    wake_all(m);
    step(t);
    return 0;
}
int read_lock(void* m, bool try_only, bool timed)
{
    rt_scope s;
    thread* t = s.t;
    step(t);
    for (;;)
    {
        auto& l = locks()[m];
        if (l.owner < 0)
        {
            ++l.readers;
            acquire_clock(t, m);
            holding(t);
            return 0;
        }
        if (try_only)
        {
            return EBUSY;
        }
        t->timed = timed;
        block(t, m);
        t->timed = 0;
        if (t->timed_out)
        {
            t->timed_out = false;
            return ETIMEDOUT;
        }
    }
}
int cond_wait(void* c, void* m, bool timed)
{
    unlock(m);
    int rc = 0;
    {
        rt_scope s;
        thread* t = s.t;
        conds()[c].waiters.push_back(t->id);
        t->timed = timed;
        block(t, c);
        t->timed = 0;
        if (t->timed_out)
        {
            t->timed_out = false;
            rc           = ETIMEDOUT;
        }
        auto& w = conds()[c].waiters;
        w.erase(std::remove(w.begin(), w.end(), t->id), w.end());
        acquire_clock(t, c);
    }
    lock(m, false, false, false, false);
    return rc;
}
int cond_wake(void* c, bool all)
{
    rt_scope s;
    thread* t = s.t;
    auto& w   = conds()[c].waiters;
    release_clock(t, c);
    if (all)
    {
        for (int i : w)
        {
            W.th[i].st = state::runnable;
        }
        w.clear();
    }
    else if (!w.empty())
    {
        int k = W.ch.choose("sched.signal", uint32_t(w.size()));
        W.th[w[k]].st = state::runnable;
        w.erase(w.begin() + k);
    }
    step(t);
    return 0;
}
bool is_recursive(pthread_mutex_t* m)
{
    return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
}
bool is_checked(pthread_mutex_t* m)
{
    return (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK;
}
} // namespace

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
        return f(m);
    }
    return lock(m, is_recursive(m), false, false, is_checked(m));
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
        return f(m);
    }
    return lock(m, is_recursive(m), true, false, false);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, timespec const* ts) noexcept
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_mutex_t*, timespec const*)>("pthread_mutex_timedlock");
        return f(m, ts);
    }
    return lock(m, is_recursive(m), false, true, false);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, timespec const* ts) noexcept
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_mutex_t*, clockid_t, timespec const*)>("pthread_mutex_clocklock");
        return f(m, c, ts);
    }
    return lock(m, is_recursive(m), false, true, false);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
        return f(m);
    }
    return unlock(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
        return f(m);
    }
    return read_lock(m, false, false);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
        return f(m);
    }
    return read_lock(m, true, false);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
        return f(m);
    }
    return lock(m, false, false, false, false);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
        return f(m);
    }
    return lock(m, false, true, false, false);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
        return f(m);
    }
    return unlock(m);
}
int pthread_spin_lock(pthread_spinlock_t* m) noexcept
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_spinlock_t*)>("pthread_spin_lock");
        return f(m);
    }
    return lock(const_cast<int*>(m), false, false, false, false);
}
int pthread_spin_trylock(pthread_spinlock_t* m) noexcept
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_spinlock_t*)>("pthread_spin_trylock");
        return f(m);
    }
    return lock(const_cast<int*>(m), false, true, false, false);
}
int pthread_spin_unlock(pthread_spinlock_t* m) noexcept
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_spinlock_t*)>("pthread_spin_unlock");
        return f(m);
    }
    return unlock(const_cast<int*>(m));
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
        return f(c, m);
    }
    return cond_wait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* ts)
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*, timespec const*)>("pthread_cond_timedwait");
        return f(c, m, ts);
    }
    return cond_wait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, timespec const* ts)
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, timespec const*)>("pthread_cond_clockwait");
        return f(c, m, k, ts);
    }
    return cond_wait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
        return f(c);
    }
    return cond_wake(c, false);
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
        return f(c);
    }
    return cond_wake(c, true);
}
int pthread_once(pthread_once_t* o, void (*fn)())
{
    if (!simulated())
    {
        static auto f = real<int (*)(pthread_once_t*, void (*)())>("pthread_once");
        return f(o, fn);
    }
    thread* t = tself;
    {
        rt_scope s;
        step(t);
        int v = *reinterpret_cast<int volatile*>(o);
        if (v == 2 || once()[o] == 2)
        {
            acquire_clock(t, o);
            return 0;
        }
        while (once()[o] == 1)
        {
            block(t, o);
        }
        if (once()[o] == 2)
        {
            acquire_clock(t, o);
            return 0;
        }
        once()[o] = 1;
        holding(t);
    }
    try
    {
        fn();
    }
    catch (...)
    {
        rt_scope s;
        once()[o] = 0;
        wake_all(o);
        throw;
    }
    rt_scope s;
    once()[o] = 2;
    release_clock(t, o);
    *reinterpret_cast<int volatile*>(o) = 2;
    wake_all(o);
    return 0;
}
int sem_wait(sem_t* m)
{
    if (!simulated())
    {
        static auto f = real<int (*)(sem_t*)>("sem_wait");
        return f(m);
    }
    rt_scope s;
    if (!sems().count(m))
    {
        int v = 0;
        sem_getvalue(m, &v);
        sems()[m] = v;
    }
    step(s.t);
    while (sems()[m] == 0)
    {
        block(s.t, m);
    }
    --sems()[m];
    acquire_clock(s.t, m);
    return 0;
}
int sem_post(sem_t* m) noexcept
{
    if (!simulated())
    {
        static auto f = real<int (*)(sem_t*)>("sem_post");
        return f(m);
    }
    rt_scope s;
    if (!sems().count(m))
    {
        int v = 0;
        sem_getvalue(m, &v);
        sems()[m] = v;
    }
    ++sems()[m];
    release_clock(s.t, m);
    wake_all(m);
    return 0;
}
// thread_local objects
int __cxa_thread_atexit_impl(void (*f)(void*), void* object, void* dso);
int __cxa_thread_atexit(void (*f)(void*), void* object, void* dso) noexcept
{
    thread* t = tself;
    if (t && t->active && object != &tls_dtors)
    {
        ++t->rt_depth;
        tls_dtors.emplace_back(f, object);
        --t->rt_depth;
        return 0;
    }
    return __cxa_thread_atexit_impl(f, object, dso);
}
// Function-local statics
int __cxa_guard_acquire(long long* g)
{
    if (__atomic_load_n(reinterpret_cast<char*>(g), __ATOMIC_ACQUIRE))
    {
        if (simulated())
        {
            rt_scope s;
            acquire_clock(s.t, g);
        }
        return 0;
    }
    if (!simulated())
    {
        return 1;
    }
    rt_scope s;
    step(s.t);
    while (locks()[g].owner >= 0)
    {
        block(s.t, g);
    }
    acquire_clock(s.t, g);
    if (*reinterpret_cast<char*>(g))
    {
        return 0;
    }
    locks()[g].owner = s.t->id;
    holding(s.t);
    return 1;
}
void __cxa_guard_release(long long* g) noexcept
{
    __atomic_store_n(reinterpret_cast<char*>(g), 1, __ATOMIC_RELEASE);
    if (simulated())
    {
        rt_scope s;
        locks()[g].owner = -1;
        release_clock(s.t, g);
        wake_all(g);
    }
}
void __cxa_guard_abort(long long* g) noexcept
{
    if (simulated())
    {
        rt_scope s;
        locks()[g].owner = -1;
        wake_all(g);
    }
}
int sched_yield() noexcept
{
    if (simulated())
    {
        schedule("yield");
        return 0;
    }
    return int(syscall(SYS_sched_yield));
}
int nanosleep(timespec const* a, timespec* b)
{
    if (simulated())
    {
        schedule("sleep");
        return 0;
    }
    return int(syscall(SYS_nanosleep, a, b));
}
int clock_nanosleep(clockid_t c, int fl, timespec const* a, timespec* b)
{
    if (simulated())
    {
        schedule("sleep");
        return 0;
    }
    return int(syscall(SYS_clock_nanosleep, c, fl, a, b));
}
int usleep(useconds_t)
{
    schedule("sleep");
    return 0;
}
unsigned sleep(unsigned)
{
    schedule("sleep");
    return 0;
}
}

// ------------------------------------------------------------------------------------------------------ memory
static bool fail_now()
{
    thread* t = tself;
    if (!t || !t->active || t->rt_depth || ending)
    {
        return false;
    }
    rt_scope s;
    W.count(n_alloc_requests);
    if (W.cfg.alloc_permille && !W.cfg.faults_off && W.ch.chance("alloc.fail", W.cfg.alloc_permille))
    {
        W.count(f_alloc_failure);
        W.log("FAULT allocation fails");
        t->alloc_failed = true;
        return true;
    }
    ++t->live_allocs;
    return false;
}
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
static void* filled(size_t n)
{
    void* p = __real_malloc(n ? n : 1);
    if (p && tself && tself->active)
    {
        __real_memset(p, W.cfg.heap_fill, n);
    }
    return p;
}
void* __wrap_malloc(size_t n)
{
    return fail_now() ? nullptr : filled(n);
}
void* __wrap_calloc(size_t a, size_t b)
{
    return fail_now() ? nullptr : __real_calloc(a, b);
}
void* __wrap_realloc(void* p, size_t n)
{
    if (fail_now())
    {
        return nullptr;
    }
    if (p && tself && tself->active)
    {
        --tself->live_allocs;
    }
    return __real_realloc(p, n);
}
void __wrap_free(void* p)
{
    if (p && tself && tself->active && !tself->rt_depth)
    {
        --tself->live_allocs;
    }
    __real_free(p);
}
void* __wrap_aligned_alloc(size_t a, size_t n)
{
    return fail_now() ? nullptr : memalign(a, n);
}
int __wrap_posix_memalign(void** p, size_t a, size_t n)
{
    if (fail_now())
    {
        return ENOMEM;
    }
    *p = memalign(a, n);
    return *p ? 0 : ENOMEM;
}
}
void* operator new(size_t n)
{
    if (fail_now())
    {
        throw std::bad_alloc{};
    }
    void* p = filled(n);
    if (!p)
    {
        throw std::bad_alloc{};
    }
    return p;
}
void* operator new(size_t n, std::nothrow_t const&) noexcept
{
    return fail_now() ? nullptr : filled(n);
}
void* operator new(size_t n, std::align_val_t a)
{
    if (fail_now())
    {
        throw std::bad_alloc{};
    }
    return memalign(size_t(a), n);
}
void* operator new[](size_t n, std::align_val_t a)
{
    return operator new(n, a);
}
void* operator new[](size_t n)
{
    return operator new(n);
}
void* operator new[](size_t n, std::nothrow_t const& t) noexcept
{
    return operator new(n, t);
}
void operator delete(void* p) noexcept
{
    __wrap_free(p);
}
void operator delete[](void* p) noexcept
{
    __wrap_free(p);
}
void operator delete(void* p, size_t) noexcept
{
    __wrap_free(p);
}
void operator delete[](void* p, size_t) noexcept
{
    __wrap_free(p);
}
void operator delete(void* p, std::align_val_t) noexcept
{
    __wrap_free(p);
}
void operator delete[](void* p, std::align_val_t) noexcept
{
    __wrap_free(p);
}
void operator delete(void* p, size_t, std::align_val_t) noexcept
{
    __wrap_free(p);
}
void operator delete[](void* p, size_t, std::align_val_t) noexcept
{
    __wrap_free(p);
}
