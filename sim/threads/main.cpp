// Workloads over the operations of gal, the oracles, and the modes of the simulator.
#include "rt.hpp"
#include "ops.hpp"
#include "../common/driver.hpp"

#include <cfenv>
#include <cmath>
#include <limits>
#include <sys/mman.h>
#include <sys/prctl.h>

namespace sim
{
void run_log() __attribute__((weak));

char const* const counter_names[] = {"",
#define SIM_COUNTER(n) #n,
#include "counters.inc"
#undef SIM_COUNTER
};
int const counter_count = c_end;

static std::vector<op_desc>& ops()
{
    static auto* v = new std::vector<op_desc>;
    return *v;
}
void add_op(op_desc const& d)
{
    ops().push_back(d);
}

// ------------------------------------------------------------------------------------------------------ input values
constexpr int variants = 60;

static double number(uint64_t h)
{
    return double(int64_t(mix64(h) >> 11) - (1ll << 52)) / double(1ll << 52) * 3.0;
}

// The i-th number of an operation's inputs (counted over all arguments; `j` counts within the argument)
template <typename T>
static T value(int op, int v, int arg, int j, int i, int total)
{
    auto base = [&](int seed) { return T(number(uint64_t(op) * 1000003 + seed * 8191 + i * 131 + 7)); };
    T const b = base(0);
    // one coordinate differs from variant 0
    auto one = [&](int which, T x) { return i == which % total ? x : b; };
    switch (v)
    {
    case 0: return b;
    case 1: return base(1);
    case 2: return base(2);
    case 3: return base(3);
    case 4: return one(0, std::nextafter(b, T(9)));
    case 5: return one(0, -b);
    case 6: return one(1, std::nextafter(b, T(9)));
    case 7: return one(total - 1, std::nextafter(b, T(9)));
    case 8: return one(total - 1, -b);
    case 9: return one(total / 2, b + T(1));
    case 10: return one(total / 2, -b);
    case 11: return one(0, T(0));
    case 12: return one(0, -T(0));
    case 13: return one(total - 1, T(0));
    case 14: return one(total - 1, -T(0));
    case 15: return one(total / 2, T(0));
    case 16: return T(0);
    case 17: return T(1);
    case 18: return -T(0);
    case 19: return one(0, std::numeric_limits<T>::infinity());
    case 20: return one(total - 1, std::numeric_limits<T>::quiet_NaN());
    case 21: return b * std::numeric_limits<T>::min() / T(4);
    case 22: return b * std::sqrt(std::numeric_limits<T>::max()) / T(4);
    case 23: return b * std::sqrt(std::numeric_limits<T>::min());
    case 24: return -b;
    case 25: return T(2) * b;
    case 26: return T(number(uint64_t(op) * 77 + j * 131 + 5)); // all arguments equal (as far as sizes go)
    case 27: return j == 0 ? T(0) : b;
    case 28: return j == 0 ? T(1) : T(0);
    case 29: return j == 0 ? T(1e-7) : b;
    case 30: return j == 0 ? T(0) : T(number(j + 3));
    case 31: return T(int(mix64(op * 31 + i) % 5) - 2);
    case 32: return T(int(mix64(op * 37 + i) % 3) - 1);
    case 33: return one(1, std::numeric_limits<T>::infinity());
    case 34: return one(total / 2, std::numeric_limits<T>::quiet_NaN());
    case 35: return -std::numeric_limits<T>::infinity();
    case 36: return one(total / 3, std::numeric_limits<T>::denorm_min());
    case 37: return arg == 0 ? b : base(4);
    case 38: return arg == 0 ? base(4) : b;
    case 39: return b * T(1000);
    // the same numbers in other places
    case 40: return T(number(uint64_t(op) * 1000003 + (total - 1 - i) * 131 + 7));
    case 41: return T(number(uint64_t(op) * 1000003 + (i < 2 && total > 1 ? 1 - i : i) * 131 + 7));
    case 42: return T(number(uint64_t(op) * 1000003 + (i >= total - 2 && total > 1 ? 2 * total - 3 - i : i) * 131 + 7));
    case 43: return T(number(uint64_t(op) * 1000003 + (i + 1) % total * 131 + 7));
    // coordinate v - 44 differs
    default: return one(v - 44, b + T(1));
    }
}

static void write_arg(int op, int v, int arg, void* at)
{
    auto& d   = ops()[op];
    int total = 0, first = 0;
    for (int k = 0; k != d.nargs; ++k)
    {
        first += k < arg ? d.count[k] : 0;
        total += d.count[k];
    }
    for (int j = 0; j != d.count[arg]; ++j)
    {
        if (d.fsize == 4)
        {
            float x = value<float>(op, v, arg, j, first + j, total);
            memcpy(static_cast<char*>(at) + 4 * j, &x, 4);
        }
        else
        {
            double x = value<double>(op, v, arg, j, first + j, total);
            memcpy(static_cast<char*>(at) + 8 * j, &x, 8);
        }
    }
}

// ------------------------------------------------------------------------------------------------------ inputs in memory
constexpr size_t page = 4096;
constexpr int max_calls = 32, max_depth = 4;
constexpr int shared_slots = max_calls * max_args, private_slots = max_threads * max_depth * max_args;
static char* arena;
static char* slot(int i)
{
    return arena + size_t(i) * 2 * page;
}
static int private_slot(int t, int depth, int arg)
{
    return shared_slots + (t * max_depth + depth) * max_args + arg;
}
static void make_arena()
{
    size_t n = size_t(shared_slots + private_slots) * 2 * page;
    // an inaccessible page before the first slot as well
    char* p = static_cast<char*>(mmap(reinterpret_cast<void*>(0x300000000000ull), n + page, PROT_NONE,
                                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0));
    arena      = p + page;
    protect_lo = uintptr_t(p);
    protect_hi = uintptr_t(p) + n + page;
}
static void access_slot(int i, int prot)
{
    mprotect(slot(i), page, prot);
}

static char const* const site_place[] = {"in.place", "in.offset"};
static char* place(int s, size_t bytes, size_t align)
{
    switch (W.ch.choose(site_place[0], 4))
    {
    case 1: return slot(s) + (page - bytes) / align * align;
    case 2: return slot(s) + W.ch.choose(site_place[1], uint32_t((page - bytes) / align)) * align;
    case 3: return slot(s) + align;
    default: return slot(s);
    }
}

// ------------------------------------------------------------------------------------------------------ reference
constexpr int fp_modes = 4;
struct ref_entry
{
    uint8_t state; // 0 unknown, 1 known, 2 the evaluation does not survive on its own, 3 it does not end
    bool incomplete; // a text that leaves something out
    uint32_t len;
    uint64_t acc;
    unsigned char bytes[value_cap];
};
static ref_entry* refs;
static ref_entry& ref(int op, int v, int mode = 0)
{
    return refs[(size_t(op) * variants + v) * fp_modes + mode];
}

// The floating point environment. The upper half is the control word of the x87 unit, the lower 6 bits are exception flags.
static uint32_t fp_all()
{
    uint32_t m;
    asm volatile("stmxcsr %0" : "=m"(m));
    uint16_t cw;
    asm volatile("fnstcw %0" : "=m"(cw));
    return (m & 0xFFFF) | uint32_t(cw) << 16;
}
static void set_fp(uint32_t e)
{
    uint32_t m = (e & 0xFFFF);
    asm volatile("ldmxcsr %0" ::"m"(m));
    uint16_t cw = uint16_t(e >> 16);
    asm volatile("fldcw %0" ::"m"(cw));
}
constexpr uint32_t fp_flags = 0x3F;
// What the program calls evaluations with: a rounding mode (0 is to nearest), and exception flags it raised earlier.
static uint32_t fp_entry(int mode, uint32_t flags)
{
    return 0x1F80u | uint32_t(mode) << 13 | flags | (0x37Fu | uint32_t(mode) << 10) << 16;
}

struct alone_arg
{
    int op, v, mode;
};
static ref_entry* being_computed;
static void on_reference_timer(int)
{
    being_computed->state = 3;
    _exit(0);
}

// A fresh process evaluates the operation and nothing else, undisturbed.
static void compute_reference(int op, int v, int mode = 0)
{
    auto& e = ref(op, v, mode);
    if (e.state)
    {
        return;
    }
    pid_t p = fork();
    if (p == 0)
    {
        static result_block dummy;
        W.res   = &dummy;
        W.cfg   = config{};
        W.trace = nullptr;
        set_decisions_path(nullptr);
        e.state        = 2;
        being_computed = &e;
        prctl(PR_SET_PDEATHSIG, 9);
        signal(SIGALRM, on_reference_timer);
        alarm(20);
        static alone_arg a;
        a = {op, v, mode};
        for (int k = 0; k != ops()[op].nargs; ++k)
        {
            access_slot(k, PROT_READ | PROT_WRITE);
            write_arg(op, v, k, slot(k));
        }
        spawn(
            [](void* p) {
                auto& a = *static_cast<alone_arg*>(p);
                auto& d = ops()[a.op];
                auto& e = ref(a.op, a.v, a.mode);
                void const* args[max_args];
                for (int k = 0; k != d.nargs; ++k)
                {
                    args[k] = slot(k);
                }
                alignas(64) static char out[result_cap];
                dirty_stack(0);
                set_fp(fp_entry(a.mode, 0));
                begin_op(a.op, ~0ull);
                d.run(args, out);
                uint64_t acc = self()->acc;
                end_op();
                set_fp(fp_entry(0, 0));
                e.len = uint32_t(d.read(out, e.bytes));
                e.acc        = acc;
                e.incomplete = d.complete && !d.complete(args, reinterpret_cast<char const*>(e.bytes), e.len);
                e.state      = 1;
            },
            &a);
        run_threads();
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    W.count(n_reference_evaluations);
}

// ------------------------------------------------------------------------------------------------------ the program
struct call
{
    int op, v;
    void* shared[max_args]; // inputs all threads may use
};
static std::vector<call> palette;

enum compare_mode
{
    cmp_none,
    cmp_alone,
    cmp_twin
};
static struct
{
    compare_mode cmp    = cmp_none;
    int steps           = 4;
    bool keep           = false;
    bool rewrite        = false; // overwrite private inputs after the evaluation
    bool only_text      = false; // judge text only
    bool check_fp       = false;
    int fp_mode         = 0; // the rounding mode some evaluations are called with, other than to nearest
    bool dirty          = false;
} plan;

struct kept
{
    int op, v;
    char* obj;
    uint32_t len;
    unsigned char* bytes;
};
static std::vector<kept>* kept_results;

struct twin_entry
{
    uint64_t hash;
    uint32_t len;
    uint32_t outcome; // 1 result, 2 exception
};
constexpr int max_twin = 4096;
static twin_entry* twin; // shared memory
static int twin_at;

struct ctx
{
    thread* t;
    int steps;
    jmp_buf jb[max_depth + 1];
    uint32_t interrupted_fp[max_depth + 1]; // the environment of the evaluation that the one at this depth interrupts
    int nstep = 0;
};
static ctx contexts[max_threads];

static uint64_t hash_bytes(unsigned char const* p, size_t n)
{
    uint64_t h = 0xcbf29ce484222325ull;
    for (size_t i = 0; i != n; ++i)
    {
        h = (h ^ p[i]) * 0x100000001b3ull;
    }
    return mix64(h);
}

static std::string show(op_desc const& d, unsigned char const* b, size_t n)
{
    char buf[64];
    std::string s;
    if (d.text)
    {
        s.assign(reinterpret_cast<char const*>(b), std::min<size_t>(n, 60));
        return "\"" + s + "\"";
    }
    for (size_t i = 0; i + d.fsize <= n && s.size() < 80; i += d.fsize)
    {
        if (d.fsize == 4)
        {
            float f;
            memcpy(&f, b + i, 4);
            snprintf(buf, sizeof buf, "%s%a", i ? " " : "", f);
        }
        else
        {
            double f;
            memcpy(&f, b + i, 8);
            snprintf(buf, sizeof buf, "%s%a", i ? " " : "", f);
        }
        s += buf;
    }
    return s;
}

static std::vector<char*>* free_objects;

static char* new_object()
{
    if (free_objects && free_objects->size() > 300)
    {
        char* p = free_objects->back();
        free_objects->pop_back();
        return p;
    }
    static char* next;
    static size_t left;
    if (left < result_cap)
    {
        next = static_cast<char*>(mmap(nullptr, 256 * result_cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        left = 256 * result_cap;
    }
    char* p = next;
    next += result_cap;
    left -= result_cap;
    return p;
}

static thread_sites const site_call{"prog.call."};
static thread_sites const site_shared{"prog.shared."};

static void check_kept(kept& k, char const* when)
{
    unsigned char b[value_cap];
    memset(b, 0, sizeof b);
    size_t n = ops()[k.op].read(k.obj, b);
    W.count(n_results_reread);
    if (n != k.len || memcmp(b, k.bytes, n))
    {
        W.violate("kept.changed", "%s, variant %d: the result changed %s: it was %s, it is %s", ops()[k.op].name, k.v, when,
                  show(ops()[k.op], k.bytes, k.len).c_str(), show(ops()[k.op], b, n).c_str());
    }
}

static uint64_t limit_of(ref_entry const& e)
{
    return (e.state == 1 ? e.acc * 20 : 0) + 400000;
}

// The simulator's own arithmetic is done in the default environment
struct own_environment
{
    uint32_t outside;
    own_environment()
        : outside{fp_all()}
    {
        if (plan.check_fp)
        {
            set_fp(fp_entry(0, 0));
        }
    }
    ~own_environment()
    {
        if (plan.check_fp)
        {
            set_fp(outside);
        }
    }
};

// One evaluation on the current thread. Runs as simulator code (rt_depth > 0) except between begin_op and end_op.
static void one_step(ctx& c)
{
    own_environment env;
    thread* t  = c.t;
    int depth  = t->depth;
    auto& call = palette[W.ch.choose(site_call[t->id], uint32_t(palette.size()))];
    auto& d    = ops()[call.op];
    bool shared = W.ch.choose(site_shared[t->id], 2) == 0;
    void const* args[max_args];
    void* place_of[max_args];
    if (shared)
    {
        W.count(n_shared_inputs);
        for (int k = 0; k != d.nargs; ++k)
        {
            args[k] = place_of[k] = call.shared[k];
        }
    }
    else
    {
        bool alias = call.v == 26 && W.ch.choose("in.alias", 2);
        for (int k = 0; k != d.nargs; ++k)
        {
            int s = private_slot(t->id, depth, k);
            access_slot(s, PROT_READ | PROT_WRITE);
            place_of[k] = place(s, size_t(d.count[k]) * d.fsize, d.fsize);
            write_arg(call.op, call.v, k, place_of[k]);
            args[k] = place_of[k];
            for (int j = 0; alias && j != k; ++j)
            {
                if (d.count[j] == d.count[k])
                {
                    args[k] = args[j];
                    break;
                }
            }
            if (W.cfg.protect)
            {
                access_slot(s, PROT_READ);
                W.count(n_inputs_read_only);
            }
        }
    }
    if (depth >= 2)
    {
        W.count(n_nested_depth_2);
    }
    char* obj = new_object();
    if (plan.dirty)
    {
        uint8_t pat = uint8_t(W.ch.choose("mem.pattern", 4));
        static uint8_t const pats[] = {0x00, 0xFF, 0x3F, 0x7F};
        memset(obj, pats[pat], result_cap);
        dirty_stack(pats[pat]);
        W.count(f_dirty_stack);
    }
    ++c.nstep;
    W.count(n_evaluations);
    if (W.cfg.alloc_permille)
    {
        W.count(f_heap_exhausted);
    }
    W.log("evaluates %s variant %d", d.name, call.v);
    int mode = 0;
    if (plan.check_fp)
    {
        // A handler, like the program itself, has an environment of its own
        if (plan.fp_mode && W.ch.choose("fp.entry", 2))
        {
            mode = plan.fp_mode;
            W.count(f_rounding_mode);
        }
        c.interrupted_fp[depth] = env.outside;
        set_fp(fp_entry(mode, W.ch.choose("fp.flags", 4) == 1 ? 1u << W.ch.choose("fp.flag", 6) : 0x3F));
    }
    auto& e           = ref(call.op, call.v, mode);
    uint32_t const fp = fp_all();
    int64_t const live = t->live_allocs;
    t->alloc_failed    = false;
    bool threw         = false;
    bool abandoned     = false;
    int const here     = twin_at < max_twin ? twin_at++ : -1;
    t->depth           = depth + 1;
    if (setjmp(c.jb[depth]) == 0)
    {
        try
        {
            begin_op(call.op, limit_of(e), call.v);
            d.run(args, obj);
            end_op();
        }
        catch (...)
        {
            end_op();
            threw = true;
        }
    }
    else
    {
        end_op();
        abandoned = true;
    }
    t->depth = depth;
    if (plan.check_fp)
    {
        uint32_t now = fp_all();
        if ((now & ~fp_flags) != (fp & ~fp_flags))
        {
            W.violate("fp.env", "%s, variant %d: the floating point environment was %08x and is %08x after the evaluation%s", d.name, call.v, fp, now,
                      abandoned ? " was abandoned" : "");
        }
        else if (fp & ~now)
        {
            W.violate("fp.flags", "%s, variant %d: exception flags %02x that had been raised before are cleared by the evaluation", d.name, call.v, fp & ~now);
        }
        set_fp(fp_entry(0, 0));
    }
    if (abandoned || (threw && t->alloc_failed && W.cfg.alloc_excuses))
    {
        return;
    }
    unsigned char b[value_cap];
    size_t n = 0;
    memset(b, 0, sizeof b);
    if (!threw)
    {
        n = d.read(obj, b);
        W.log("result %016llx", (unsigned long long)hash_bytes(b, n));
    }
    else
    {
        W.log("exception");
    }
    if (d.text)
    {
        W.count(n_text);
        if (e.state == 1 && e.incomplete)
        {
            W.violate("text.incomplete", "%s, variant %d: the text leaves something out: %s", d.name, call.v, show(d, e.bytes, e.len).c_str());
        }
        if (threw)
        {
            W.count(n_text_threw);
            if (!t->alloc_failed)
            {
                W.violate("text.throws", "%s, variant %d throws although no allocation failed", d.name, call.v);
            }
            if (t->live_allocs > live)
            {
                W.violate("text.leak", "%s, variant %d leaks %lld allocation(s) when an allocation fails", d.name, call.v, (long long)(t->live_allocs - live));
            }
        }
        else if (e.state == 1 && (n != e.len || memcmp(b, e.bytes, n)))
        {
            W.violate(t->alloc_failed ? "text.differs" : "text.altered", "%s, variant %d returns %zu characters %s instead of %u characters %s%s", d.name, call.v, n, show(d, b, n).c_str(), e.len,
                      show(d, e.bytes, e.len).c_str(), t->alloc_failed ? " when an allocation fails" : "");
        }
    }
    if (plan.cmp == cmp_alone && !plan.only_text)
    {
        if (threw && !d.text)
        {
            W.violate("result.throws", "%s, variant %d throws an exception", d.name, call.v);
        }
        else if (!d.text && e.state == 1 && (n != e.len || memcmp(b, e.bytes, n)))
        {
            W.violate("result.differs", "%s, variant %d: %s, but alone %s", d.name, call.v, show(d, b, n).c_str(), show(d, e.bytes, e.len).c_str());
        }
    }
    if (plan.cmp == cmp_twin && here >= 0)
    {
        auto& w = twin[here];
        twin_entry now{hash_bytes(b, n), uint32_t(n), threw ? 2u : 1u};
        if (W.cfg.faults_off)
        {
            w = now;
        }
        else if (w.outcome && (w.outcome != now.outcome || w.len != now.len || w.hash != now.hash))
        {
            W.violate(threw ? "result.throws" : "result.differs", "%s, variant %d: %s when allocations fail, not what it is otherwise", d.name, call.v,
                      threw ? "an exception" : show(d, b, n).c_str());
        }
    }
    if (plan.rewrite && !shared)
    {
        // The inputs are changed and gone
        for (int k = 0; k != d.nargs; ++k)
        {
            memset(place_of[k], 0x5C, size_t(d.count[k]) * d.fsize);
        }
        W.count(f_inputs_overwritten);
    }
    if (threw)
    {
        return;
    }
    if (plan.keep && kept_results->size() < 600)
    {
        auto* copy = static_cast<unsigned char*>(malloc(n ? n : 1));
        memcpy(copy, b, n);
        kept_results->push_back({call.op, call.v, obj, uint32_t(n), copy});
        if (W.ch.choose("kept.look", 4) == 1)
        {
            check_kept((*kept_results)[W.ch.choose("kept.which", uint32_t(kept_results->size()))], "during later evaluations");
        }
    }
    else
    {
        d.destroy(obj);
        free_objects->push_back(obj);
    }
}

static void thread_body(void* p)
{
    auto& c = *static_cast<ctx*>(p);
    for (int i = 0; i != c.steps; ++i)
    {
        one_step(c);
    }
}

void nested_operation(thread* t)
{
    one_step(contexts[t->id]);
}
bool can_abandon(thread* t)
{
    return t->depth > 0;
}
void abandon_operation(thread* t)
{
    int level = t->depth - 1 - int(W.ch.choose("abandon.level", uint32_t(t->depth)));
    if (level < t->depth - 1 && plan.check_fp)
    {
        set_fp(contexts[t->id].interrupted_fp[level + 1]);
    }
    t->depth = level;
    longjmp(contexts[t->id].jb[level], 1);
}

static void make_palette(bool text, bool only_text_ops, bool one)
{
    auto& ch = W.ch;
    std::vector<int> usable;
    for (int i = 0; i != int(ops().size()); ++i)
    {
        if ((text || !ops()[i].text) && (!only_text_ops || ops()[i].text))
        {
            usable.push_back(i);
        }
    }
    int nops = one ? 1 : 1 + ch.choose("pal.ops", 5);
    for (int i = 0; i != nops; ++i)
    {
        int op = usable[ch.choose("pal.op", uint32_t(usable.size()))];
        int nv = 1 + ch.choose("pal.variants", 6);
        for (int j = 0; j != nv; ++j)
        {
            call c{};
            c.op = op;
            c.v  = ch.choose("pal.variant", variants);
            if (j == 0 && ch.choose("pal.base", 2))
            {
                c.v = 0; // what most variants differ from in one number
            }
            compute_reference(c.op, c.v);
            compute_reference(c.op, c.v, plan.fp_mode);
            if (ref(c.op, c.v).state == 3)
            {
                W.violate("wait.hang", "%s, variant %d does not end", ops()[c.op].name, c.v);
                W.end();
            }
            palette.push_back(c);
        }
    }
    for (size_t i = 0; i != palette.size(); ++i)
    {
        auto& c = palette[i];
        auto& d = ops()[c.op];
        for (int k = 0; k != d.nargs; ++k)
        {
            int s = int(i) * max_args + k;
            access_slot(s, PROT_READ | PROT_WRITE);
            c.shared[k] = place(s, size_t(d.count[k]) * d.fsize, d.fsize);
            write_arg(c.op, c.v, k, c.shared[k]);
            if (W.cfg.protect)
            {
                access_slot(s, PROT_READ);
            }
        }
    }
}

static void launch(int n, int steps)
{
    for (int i = 0; i != n; ++i)
    {
        thread* t = &W.th[W.nthreads];
        auto& c   = contexts[W.nthreads];
        c.t       = t;
        c.steps   = 1 + W.ch.choose("prog.steps", uint32_t(steps));
        spawn(thread_body, &c);
    }
    run_threads();
}

static void random_schedule()
{
    auto& ch            = W.ch;
    W.cfg.gap_scale     = 20 + 12 * ch.choose("cfg.gap", 8);
    W.cfg.shared_one_in = 2 + ch.choose("cfg.shared", 4) * 3;
    W.cfg.max_events    = 400;
}

static void finish()
{
    join_finished();
    W.count(f_thread_ended, 0);
    if (plan.keep)
    {
        for (auto& c : palette)
        {
            for (int k = 0; k != ops()[c.op].nargs; ++k)
            {
                memset(c.shared[k], 0x6E, size_t(ops()[c.op].count[k]) * ops()[c.op].fsize);
            }
        }
        W.count(f_inputs_overwritten);
        for (auto& k : *kept_results)
        {
            check_kept(k, "after its inputs were overwritten and its thread ended");
        }
    }
    W.res->counters[n_accesses_k] = uint32_t(W.res->calls / 1000);
    W.end();
}

static void run_core(bool fast)
{
    auto& ch  = W.ch;
    auto& cfg = W.cfg;
    auto p    = W.prop.substr(0, 3);
    kept_results = new std::vector<kept>;
    free_objects = new std::vector<char*>;
    make_arena();
    static uint8_t const fills[] = {0x00, 0xFF, 0xA5, 0x3F};
    cfg.heap_fill                = fills[ch.choose("cfg.heap", 4)];
    int threads = 1, steps = 6;
    bool army = false; // more threads than anybody counts on
    bool single = false;
    if (p == "C01")
    {
        cfg.switches = cfg.races = true;
        random_schedule();
        threads  = 2 + ch.choose("cfg.threads", 5);
        threads  = ch.choose("cfg.crowd", 16) == 1 ? 7 + ch.choose("cfg.threads", 16) : threads;
        army     = ch.choose("cfg.army", 20) == 1;
        plan.cmp = cmp_alone;
        // Evaluations need no memory; should one ask for it and give up when there is none, that is not judged here
        static uint32_t const odds[] = {0, 0, 0, 500};
        cfg.alloc_permille           = odds[ch.choose("cfg.alloc", 4)];
        cfg.alloc_excuses            = true;
    }
    else if (p == "C02")
    {
        cfg.nested = cfg.abandon = true;
        random_schedule();
        plan.cmp      = cmp_alone;
        plan.check_fp = true;
        plan.fp_mode = std::max(0, int(ch.choose("cfg.rounding", 6)) - 2);
        steps         = 8;
    }
    else if (p == "C03")
    {
        static uint32_t const odds[] = {1000, 500, 200, 50};
        cfg.alloc_permille           = odds[ch.choose("cfg.alloc", 4)];
        plan.cmp                     = cmp_twin;
        steps                        = 12;
    }
    else if (p == "C04")
    {
        cfg.switches = cfg.stall = true;
        random_schedule();
        cfg.max_events = 120;
        threads        = 2 + ch.choose("cfg.threads", 4);
        army           = ch.choose("cfg.army", 50) == 1;
        single         = ch.choose("cfg.single", 4) == 1; // every thread evaluates the same expression
        steps          = 5;
    }
    else if (p == "C05")
    {
        cfg.protect  = true;
        cfg.switches = ch.choose("cfg.switch", 2);
        random_schedule();
        threads = 1 + ch.choose("cfg.threads", 3);
        steps   = 10;
    }
    else if (p == "C06")
    {
        cfg.switches = ch.choose("cfg.switch", 2);
        random_schedule();
        cfg.max_events               = 150;
        static uint32_t const odds[] = {0, 30, 150, 500};
        cfg.alloc_permille           = odds[ch.choose("cfg.alloc", 4)];
        plan.cmp                     = cmp_alone;
        plan.only_text               = true;
        threads                      = 1 + ch.choose("cfg.threads", 3);
    }
    else if (p == "C07")
    {
        plan.cmp   = cmp_alone;
        plan.dirty = true;
        steps      = fast ? (ch.choose("cfg.long", 4) == 0 ? 60000 : 3000) : 40;
    }
    else if (p == "C08")
    {
        plan.keep = plan.rewrite = plan.dirty = true;
        cfg.switches             = !fast && ch.choose("cfg.switch", 2);
        random_schedule();
        threads = 1 + ch.choose("cfg.threads", 3);
        steps   = fast ? 300 : 12;
    }
    bool text = p == "C06" || p == "C08" || ((p == "C01" || p == "C07") && ch.choose("cfg.text", 4) == 1);
    bool one  = single;
    if ((p == "C01" || p == "C02" || p == "C06") && ch.choose("cfg.overtake", 12) == 1)
    {
        // Many evaluations of one expression while others are halfway through it
        cfg.overtake  = true;
        cfg.gap_scale = 120 + 10 * ch.choose("cfg.gap", 5);
        steps         = p == "C02" ? 12 : 250;
        cfg.abandon   = cfg.abandon && ch.choose("cfg.abandon", 2);
        one           = true;
        W.count(n_overtaking_runs);
    }
    if (fast && ch.choose("cfg.one", 3) == 1)
    {
        one   = true;
        steps = p == "C07" ? (ch.choose("cfg.longer", 3) == 1 ? 300000 : 70000) : 5000;
        steps = p == "C07" && ch.choose("cfg.longest", 16) == 1 ? 2400000 : steps;
    }
    if (army)
    {
        threads        = 40 + ch.choose("cfg.threads", 260);
        steps          = 2;
        cfg.max_events = 1500;
        one            = ch.choose("cfg.one", 5) != 4;
        W.count(n_army_runs);
    }
    make_palette(text, p == "C06" && ch.choose("cfg.text", 3) != 0, one);
    if (p == "C03")
    {
        // Twin: the same run in a process of its own, without faults
        memset(twin, 0, sizeof(twin_entry) * max_twin);
        pid_t c = fork();
        if (c == 0)
        {
            static result_block dummy;
            W.res          = &dummy;
            W.trace        = nullptr;
            set_decisions_path(nullptr);
            cfg.faults_off = true;
            prctl(PR_SET_PDEATHSIG, 9);
            alarm(20);
            launch(1, steps);
            _exit(0);
        }
        int st;
        waitpid(c, &st, 0);
        launch(1, steps);
        finish();
    }
    if (p == "C07" || p == "C08")
    {
        int phases = 1 + ch.choose("cfg.phases", 3);
        if (ch.choose("cfg.army", 30) == 1)
        {
            // many threads, one or two at a time
            phases  = 40 + ch.choose("cfg.phases", 100);
            steps   = 2;
            W.count(n_army_runs);
        }
        for (int i = 0; i != phases; ++i)
        {
            if (p == "C08")
            {
                launch(std::min(threads, 2), steps);
            }
            else
            {
                launch(1 + ch.choose("cfg.threads", 2), steps);
            }
            if (i + 1 != phases)
            {
                join_finished();
                W.count(f_thread_ended);
            }
        }
        finish();
    }
    launch(threads, steps);
    finish();
}

// ------------------------------------------------------------------------------------------------------ driver
int prepare(std::string const&)
{
    size_t n = sizeof(ref_entry) * std::max<size_t>(1, ops().size()) * variants * fp_modes;
    refs     = static_cast<ref_entry*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    twin     = static_cast<twin_entry*>(mmap(nullptr, sizeof(twin_entry) * max_twin, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    // The order in which static objects of different files are constructed is up to the linker
    std::sort(ops().begin(), ops().end(), [](op_desc const& a, op_desc const& b) { return strcmp(a.name, b.name) < 0; });
    return 0;
}

bool nontrivial(result_block const& r)
{
    for (int i = 1; i != counter_count; ++i)
    {
        if (r.counters[i] && counter_names[i][0] == 'f')
        {
            return true;
        }
    }
    return false;
}

void child(run_args const& a)
{
    prctl(PR_SET_PDEATHSIG, 9);
    W.trace = a.trace;
    W.res   = a.out;
    W.prop  = a.prop;
    set_decisions_path(a.decisions);
    seed_choices(W.ch, a);
    install_signal_handlers();
    if (a.prop == "P12")
    {
        run_log();
    }
    else
    {
        run_core(a.prop.size() > 3 && a.prop[3] == 'L');
    }
    W.end();
}

bool relevant(std::string prop, char const* code)
{
    static struct
    {
        char const* prefix;
        char const* props;
    } const table[] = {{"race.", "C01 P12"},
                       {"result.", "C01 C02 C03 C07"},
                       {"fp.", "C02"},
                       {"wait.", "C01 C02 C04 P12"},
                       {"input.write", "C05"},
                       {"input.overread", "C05 C07"},
                       {"text.altered", "C01 C06 C07"},
                       {"text.", "C06"},
                       {"kept.", "C08"},
                       {"log.", "P12"},
                       {"crash.", "C01 C02 C03 C06 C07 C08 P12"}};
    prop.resize(3);
    for (auto& t : table)
    {
        if (!strncmp(code, t.prefix, strlen(t.prefix)))
        {
            return strstr(t.props, prop.c_str()) != nullptr;
        }
    }
    return false;
}
} // namespace sim
