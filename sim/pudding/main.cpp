// Driver of the simulated runs: one forked process per run, so that every run starts from the same memory image.
#include "world.hpp"
#include "../common/driver.hpp"

#include <csignal>
#include <cstdlib>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <new>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if 1
extern "C" {
void __sanitizer_set_death_callback(void (*)(void));
char const* __asan_get_report_description(void);
int __asan_report_present(void);
char const* __asan_default_options(void)
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:"
           "quarantine_size_mb=16:handle_abort=1:verify_asan_link_order=0";
}
char const* __ubsan_default_options(void)
{
    return "halt_on_error=1:exitcode=99";
}
}
#endif

namespace sim
{
void run_pudding();
void run_uid();
bool warm_up(double (*wall)());
extern double warm_seconds_used;

static char const* decisions_path = nullptr;
static bool in_child              = false;

void dump_decisions()
{
    if (decisions_path)
    {
        write_decisions(W.ch, decisions_path);
        decisions_path = nullptr;
    }
}

// The program stopped by itself: assertion, exception out of a noexcept function, abort.
[[noreturn]] static void stopped(char const* what)
{
    W.sim_depth = 1000;
    if (W.fatal.empty() && !W.alloc_failed && !W.beyond)
    {
        W.violate("stop.spurious", "the program stops although nothing failed: %s", what);
    }
    else
    {
        W.log("program stops: loud");
        W.res->stopped_ok = 1;
        W.count(n_stopped_loudly);
    }
    W.finish();
}

static void crashed()
{
    if (!in_child)
    {
        return;
    }
    in_child    = false;
    W.sim_depth = 1000;
    char const* d = "undefined behaviour";
#if 1
    if (__asan_report_present())
    {
        d = __asan_get_report_description();
    }
#endif
    if (W.fatal.empty() && !W.alloc_failed)
    {
        W.violate("crash", "memory or undefined-behaviour error: %s", d);
    }
    else
    {
        W.violate("fault.crash", "after %s: memory or undefined-behaviour error: %s",
                  W.fatal.empty() ? "an allocation failure" : W.fatal.c_str(), d);
    }
    W.finish();
}

static void on_signal(int s)
{
    W.sim_depth = 1000;
    if (s == SIGVTALRM || s == SIGALRM)
    {
        W.violate("hang.cpu", "the program does not come back to the simulated system for a very long time");
        W.finish();
    }
    if (s == SIGABRT)
    {
        stopped("abort");
    }
    crashed();
    _exit(98);
}

static void on_terminate()
{
    W.sim_depth = 1000;
    std::string what = "std::terminate";
    if (auto e = std::current_exception())
    {
        try
        {
            std::rethrow_exception(e);
        }
        catch (std::exception const& x)
        {
            what = x.what();
        }
        catch (...)
        {
        }
    }
    stopped(what.c_str());
}

static int cpu_limit = 20;

int prepare(std::string const& prop)
{
    if (char const* l = getenv("SIM_CPU_LIMIT"))
    {
        cpu_limit = atoi(l);
    }
    if (prop == "P01X" && !warm_up(wall))
    {
        fprintf(stderr, "the identifier space could not be used up in time\n");
        return 4;
    }
    return 0;
}

bool nontrivial(result_block const& r)
{
    for (int i = 1; i != c_count; ++i)
    {
        if (r.counters[i] && counter_names[i][0] == 'f')
        {
            return true;
        }
    }
    return r.counters[n_id_reused] != 0;
}

void child(run_args const& a)
{
    W.trace        = a.trace;
    decisions_path = a.decisions;
    seed_choices(W.ch, a);
    in_child = true;
    W.res    = a.out;
    W.prop   = a.prop;
    auto& prop = a.prop;
    signal(SIGVTALRM, on_signal);
    signal(SIGABRT, on_signal);
    itimerval t{};
    t.it_value.tv_sec = cpu_limit;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
    std::set_terminate(on_terminate);
    __sanitizer_set_death_callback(crashed);
    signal(SIGILL, on_signal); // undefined behaviour traps
    signal(SIGTRAP, on_signal);
    if (!getenv("SIM_STDERR"))
    {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 2);
        close(fd);
    }
    if (prop == "P01" || prop == "P01X")
    {
        run_uid();
    }
    else
    {
        run_pudding();
    }
    _exit(97);
}

// Which violations speak about which property. Memory errors, hangs and unprovoked stops break all of them.
bool relevant(std::string prop, char const* code)
{
    static struct
    {
        char const* prefix;
        char const* props;
    } const table[] = {{"id.", "P01"},
                       {"life.double-destroy", "P02 P10"},
                       {"life.window-order", "P02 P10"},
                       {"life.surface-order", "P02 P10"},
                       {"life.dead-window", "P02 P16"},
                       {"life.", "P02"},
                       {"sync.present-before-render", "P03 P04"},
                       {"sync.", "P03"},
                       {"route.", "P04"},
                       {"swap.", "P05"},
                       {"input.", "P06"},
                       {"key.", "P07"},
                       {"pass.present-layout", "P04 P08"},
                       {"pass.", "P08"},
                       {"fault.", "P09"},
                       {"leak.", "P10"},
                       {"quit.", "P11"},
                       {"cap.", "P13"},
                       {"ahead.", "P14"},
                       {"order.", "P15"},
                       {"window.", "P16"},
                       {"", "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P13 P14 P15 P16"}};
    prop.resize(3);
    for (auto& t : table)
    {
        if (!strncmp(code, t.prefix, strlen(t.prefix)))
        {
            return strstr(t.props, prop.c_str()) != nullptr;
        }
    }
    return false;
}

} // namespace sim

// ---------------------------------------------------------------------------------------------- seams into the program
extern "C" void __assert_fail(char const* expr, char const*, unsigned, char const*) noexcept
{
    sim::stopped(expr);
}

static void* allocate(size_t n)
{
    using namespace sim;
    if (in_child && W.sim_depth == 0)
    {
        sim_scope s;
        if (W.cfg.alloc_fail && !W.alloc_failed && W.ch.chance("alloc.fail", W.cfg.alloc_permille))
        {
            W.alloc_failed = true;
            W.count(f_alloc_failure);
            W.log("FAULT allocation fails");
            return nullptr;
        }
        if (n > (size_t{256} << 20) && W.prop.compare(0, 3, "P01") != 0)
        {
            // Nothing in a run needs this much: a value that was never set is used as a size
            W.violate("memory.garbage-size", "%zu bytes are asked for: a size that was never set", n);
            W.finish();
        }
        void* p = malloc(n ? n : 1);
        if (p)
        {
            memset(p, W.cfg.heap_fill, n);
        }
        return p;
    }
    return malloc(n ? n : 1);
}
__attribute__((noinline)) void* operator new(size_t n)
{
    void* p = allocate(n);
    if (!p)
    {
        throw std::bad_alloc{};
    }
    return p;
}
__attribute__((noinline)) void* operator new[](size_t n)
{
    return operator new(n);
}
__attribute__((noinline)) void* operator new(size_t n, std::nothrow_t const&) noexcept
{
    return allocate(n);
}
__attribute__((noinline)) void* operator new[](size_t n, std::nothrow_t const&) noexcept
{
    return allocate(n);
}
__attribute__((noinline)) void operator delete(void* p) noexcept
{
    free(p);
}
__attribute__((noinline)) void operator delete[](void* p) noexcept
{
    free(p);
}
__attribute__((noinline)) void operator delete(void* p, size_t) noexcept
{
    free(p);
}
__attribute__((noinline)) void operator delete[](void* p, size_t) noexcept
{
    free(p);
}
