// Run time of the thread simulator.
//
// The code under test is compiled with -fsanitize=thread, but linked with the hooks in rt.cpp instead of the sanitizer:
// every memory access and every atomic operation of the code under test calls the simulator, which may let another
// simulated thread run, interrupt the evaluation by another one, abandon it, or stop the thread for good. Simulated
// threads are real threads (thread_local variables are real), of which exactly one runs at any time.
#pragma once
#include "../common/choice.hpp"
#include "../common/result.hpp"

#include <csetjmp>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim
{
enum counter : int
{
    c_none,
#define SIM_COUNTER(n) n,
#include "counters.inc"
#undef SIM_COUNTER
    c_end
};

constexpr int max_threads   = 320;
constexpr size_t stack_size = 1 << 20;

enum class state : uint8_t
{
    unused,
    runnable,
    blocked,
    stalled,
    finished
};

using clock_vec = std::vector<uint32_t>;

struct thread
{
    int id            = -1;
    state st          = state::unused;
    uint32_t futex    = 0;
    bool active       = false; // inside code under test: accesses are event points
    int rt_depth      = 0;     // inside the simulator
    uint64_t acc      = 0;     // accesses in the current operation
    uint64_t quantum  = 0;     // accesses since the last switch
    uint64_t limit    = 0;     // bound on acc
    uint64_t countdown = 0;
    uintptr_t stack_lo = 0, stack_hi = 0; // part of the stack used by frames, without thread_local storage
    void* blocked_on  = nullptr;
    uint32_t timed    = 0; // blocked with a timeout
    bool timed_out    = false;
    clock_vec vc;
    int depth         = 0; // nested operations
    int what          = -1; // operation (for the log)
    int64_t live_allocs = 0;
    bool alloc_failed = false;
    uint32_t pthread[2] = {0, 0};
    void (*body)(void*) = nullptr;
    void* arg         = nullptr;
    char* stack       = nullptr;
    bool joined       = false;
    bool exiting      = false; // its thread_local objects are being destroyed
    unsigned long handle = 0;
};

struct config
{
    // what may happen at an event point
    bool switches = false, nested = false, abandon = false, stall = false;
    bool overtake = false; // threads and interruptions that overtake an evaluation many times
    uint32_t alloc_permille = 0;
    bool alloc_excuses      = false; // a crash or exception after a failed allocation is not judged
    uint32_t max_events     = 400;
    uint32_t gap_scale      = 40; // of the distance between event points
    uint32_t shared_one_in  = 0;  // extra event points at accesses to shared variables
    bool races = false, protect = false;
    uint8_t heap_fill = 0xA5;
    bool faults_off = false; // twin run without the faults
};

struct world
{
    choices ch;
    config cfg;
    result_block* res = nullptr;
    FILE* trace       = nullptr;
    std::string prop;
    thread th[max_threads];
    int nthreads = 0;
    uint32_t events = 0, stalls = 0;
    uint64_t log_h = 0xcbf29ce484222325ull, order_h = 0xcbf29ce484222325ull;
    bool started = false;
    uint32_t main_futex = 0;

    void count(counter c, uint32_t n = 1)
    {
        if (res)
        {
            res->counters[c] += n;
        }
    }
    void log(char const* fmt, ...) __attribute__((format(printf, 2, 3)));
    void violate(char const* code, char const* fmt, ...) __attribute__((format(printf, 3, 4)));
    [[noreturn]] void end();
};

extern world W;
extern thread* self_for_log();
thread* self();

struct rt_scope // code of the simulator running on a simulated thread
{
    thread* t;
    rt_scope()
        : t{self()}
    {
        if (t)
        {
            ++t->rt_depth;
        }
    }
    ~rt_scope()
    {
        if (t)
        {
            --t->rt_depth;
        }
    }
};

// main thread only
thread* spawn(void (*body)(void*), void* arg);
void run_threads();      // until all threads are finished or stalled
void join_finished();    // ends the real threads and overwrites their stacks and thread_local storage

// simulated threads
void begin_op(int what, uint64_t limit, int variant = 0);
void end_op();
void schedule(char const* why); // explicit event point

// provided by the workload
void nested_operation(thread* t);                 // runs another operation on the interrupted thread
[[noreturn]] void abandon_operation(thread* t);   // leaves the current operation for good
bool can_abandon(thread* t);

// memory the code under test must not write: [protect_lo, protect_hi)
extern uintptr_t protect_lo, protect_hi;

// names of choices that every thread makes for itself
struct thread_sites
{
    std::vector<std::string> names;
    explicit thread_sites(char const* prefix)
    {
        for (int i = 0; i != max_threads; ++i)
        {
            names.push_back(prefix + std::to_string(i));
        }
    }
    char const* operator[](int i) const
    {
        return names[size_t(i)].c_str();
    }
};

void dirty_stack(uint8_t pattern);
void install_signal_handlers();
void set_decisions_path(char const* p);
} // namespace sim
