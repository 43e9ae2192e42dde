// Command line driver shared by the simulators: one forked process per run, batches of seeds, replay, minimisation.
// Included by exactly one source file of each simulator.
#pragma once
#include "choice.hpp"
#include "result.hpp"

#include <algorithm>
#include <cstdlib>
#include <ctime>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim
{
using script = std::map<std::pair<std::string, uint32_t>, uint32_t>;

// ---- provided by the simulator
struct run_args
{
    std::string prop;
    uint64_t seed;
    script const* replay; // null: use the seed
    FILE* trace;
    char const* decisions;
    result_block* out;
};
[[noreturn]] void child(run_args const& a); // runs in the forked process
bool relevant(std::string prop, char const* code);
bool nontrivial(result_block const& r);
int prepare(std::string const& prop);       // once per process, before the first run; 0 = fine, else exit status
extern char const* const counter_names[];
extern int const counter_count;

static result_block* shared;
static double wall();

inline void seed_choices(choices& ch, run_args const& a)
{
    if (a.replay)
    {
        ch.replayed(*a.replay);
    }
    else
    {
        ch.seeded(mix64(a.seed * 0x9E3779B97F4A7C15ull + hash_str(a.prop.c_str())));
    }
}

inline void write_decisions(choices const& ch, char const* path)
{
    FILE* f = fopen(path, "w");
    if (!f)
    {
        return;
    }
    auto& names = ch.sites();
    for (auto& d : ch.taken())
    {
        fprintf(f, "%s %u %u\n", names[d.site].c_str(), d.k, d.v);
    }
    fclose(f);
}

// A run whose process dies without a verdict is repeated: if it dies the same way every time, the death is the verdict.
static bool one(std::string const& prop, uint64_t seed, script const* s, FILE* trace, char const* dec, result_block& out)
{
    int last = 0;
    for (int attempt = 0; attempt != 3; ++attempt)
    {
        memset(shared, 0, sizeof *shared);
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0)
        {
            child({prop, seed, s, trace, dec, shared});
        }
        int st = 0;
        waitpid(p, &st, 0);
        out = *shared;
        if (out.finished)
        {
            return true;
        }
        fprintf(stderr, "run died without a verdict: prop %s seed %llu status 0x%x\n", prop.c_str(), (unsigned long long)seed, st);
        if (attempt != 0 && st != last)
        {
            return false;
        }
        last = st;
    }
    if (!WIFSIGNALED(last) || WTERMSIG(last) == SIGTERM || WTERMSIG(last) == SIGINT || WTERMSIG(last) == SIGHUP)
    {
        return false;
    }
    memset(&out, 0, sizeof out);
    out.finished = 1;
    out.nviol    = 1;
    snprintf(out.viol[0].code, sizeof out.viol[0].code, "crash.died");
    snprintf(out.viol[0].msg, sizeof out.viol[0].msg, "the process is killed by signal %d, every time this run is repeated", WTERMSIG(last));
    return true;
}

static bool any_relevant(std::string const& prop, result_block const& r)
{
    for (uint32_t i = 0; i != r.nviol; ++i)
    {
        if (relevant(prop, r.viol[i].code))
        {
            return true;
        }
    }
    return false;
}

static double wall()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static void put(FILE* f, char const* s)
{
    fputc('"', f);
    for (; *s; ++s)
    {
        if (*s == '"' || *s == '\\')
        {
            fprintf(f, "\\%c", *s);
        }
        else if ((unsigned char)*s < 32)
        {
            fputc(' ', f);
        }
        else
        {
            fputc(*s, f);
        }
    }
    fputc('"', f);
}

static void print_result(FILE* f, std::string const& prop, result_block const& r, uint64_t seed)
{
    fprintf(f, "{\"seed\":%llu,\"log_hash\":\"%016llx\",\"order_hash\":\"%016llx\",\"sim_ns\":%llu,\"decisions\":%llu,\"calls\":%llu,\"frames\":%llu,\"stopped\":%u,\"violations\":[",
            (unsigned long long)seed, (unsigned long long)r.log_hash, (unsigned long long)r.order_hash,
            (unsigned long long)r.sim_ns, (unsigned long long)r.decisions, (unsigned long long)r.calls,
            (unsigned long long)r.frames, r.stopped_ok);
    for (uint32_t i = 0, n = 0; i != r.nviol; ++i)
    {
        if (!relevant(prop, r.viol[i].code))
        {
            continue;
        }
        fprintf(f, "%s{\"code\":", n++ ? "," : "");
        put(f, r.viol[i].code);
        fprintf(f, ",\"msg\":");
        put(f, r.viol[i].msg);
        fprintf(f, "}");
    }
    fprintf(f, "]}\n");
}

static bool has_code(result_block const& r, std::string const& code)
{
    for (uint32_t i = 0; i != r.nviol; ++i)
    {
        if (code == r.viol[i].code)
        {
            return true;
        }
    }
    return false;
}

static script read_script(char const* path)
{
    script s;
    FILE* f = fopen(path, "r");
    if (!f)
    {
        perror(path);
        exit(2);
    }
    char line[512], name[256];
    while (fgets(line, sizeof line, f))
    {
        unsigned k, v;
        if (line[0] == '#')
        {
            continue;
        }
        if (sscanf(line, "%255s %u %u", name, &k, &v) == 3)
        {
            s[{name, k}] = v;
        }
    }
    fclose(f);
    return s;
}

// Delta debugging on the set of non-default decisions, then on their values.
static int shrink(std::string const& prop, char const* in, std::string const& code, char const* out, double budget)
{
    script cur    = read_script(in);
    double const end = wall() + budget;
    result_block r;
    int tries = 0;
    auto bad  = [&](script const& s) {
        ++tries;
        return one(prop, 0, &s, nullptr, nullptr, r) && has_code(r, code);
    };
    if (!bad(cur))
    {
        fprintf(stderr, "shrink: the decisions do not reproduce %s\n", code.c_str());
        return 3;
    }
    size_t chunk = std::max<size_t>(1, cur.size() / 2);
    while (wall() < end)
    {
        bool removed = false;
        std::vector<script::key_type> keys;
        for (auto& e : cur)
        {
            keys.push_back(e.first);
        }
        for (size_t i = 0; i < keys.size() && wall() < end; i += chunk)
        {
            script t = cur;
            for (size_t j = i; j < keys.size() && j < i + chunk; ++j)
            {
                t.erase(keys[j]);
            }
            if (t.size() != cur.size() && bad(t))
            {
                cur     = t;
                removed = true;
            }
        }
        if (chunk == 1 && !removed)
        {
            break;
        }
        if (!removed || chunk > cur.size())
        {
            chunk = std::max<size_t>(1, std::min(chunk / 2, std::max<size_t>(1, cur.size() / 2)));
        }
        if (cur.empty())
        {
            break;
        }
    }
    for (auto it = cur.begin(); it != cur.end() && wall() < end; ++it)
    {
        uint32_t v = it->second;
        for (uint32_t lo = 1; lo < v && wall() < end; lo = lo < 8 ? lo + 1 : lo * 2)
        {
            script t      = cur;
            t[it->first]  = lo;
            if (bad(t))
            {
                it->second = lo;
                break;
            }
        }
    }
    if (!bad(cur))
    {
        return 3;
    }
    FILE* f = fopen(out, "w");
    for (auto& e : cur)
    {
        fprintf(f, "%s %u %u\n", e.first.first.c_str(), e.first.second, e.second);
    }
    fclose(f);
    printf("{\"tries\":%d,\"decisions\":%zu}\n", tries, cur.size());
    return 0;
}
} // namespace sim

int main(int argc, char** argv)
{
    using namespace sim;
    if (!getenv("SIM_NOASLR"))
    {
        // Same addresses in every process
        setenv("SIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) >= 0)
        {
            execv("/proc/self/exe", argv);
        }
    }
    if (argc < 3)
    {
        fprintf(stderr, "usage: %s batch PROP FIRST STRIDE MAXRUNS SECONDS OUT | run PROP SEED [TRACE [DECISIONS]] | "
                        "replay PROP FILE [TRACE] | shrink PROP FILE CODE OUT SECONDS\n", argv[0]);
        return 2;
    }
    shared = static_cast<result_block*>(mmap(nullptr, sizeof(result_block), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::string mode = argv[1], prop = argv[2];
    if (int rc = prepare(prop))
    {
        return rc;
    }
    auto open_trace = [](char const* p) -> FILE* {
        if (!p || !*p || !strcmp(p, "-"))
        {
            return nullptr;
        }
        return fopen(p, "w");
    };
    if (mode == "run")
    {
        result_block r;
        uint64_t seed = strtoull(argv[3], nullptr, 10);
        if (!one(prop, seed, nullptr, open_trace(argc > 4 ? argv[4] : nullptr), argc > 5 ? argv[5] : nullptr, r))
        {
            return 2;
        }
        print_result(stdout, prop, r, seed);
        return 0;
    }
    if (mode == "replay")
    {
        result_block r;
        script s = read_script(argv[3]);
        if (!one(prop, 0, &s, open_trace(argc > 4 ? argv[4] : nullptr), nullptr, r))
        {
            return 2;
        }
        print_result(stdout, prop, r, 0);
        return 0;
    }
    if (mode == "shrink")
    {
        return shrink(prop, argv[3], argv[4], argv[5], atof(argv[6]));
    }
    if (mode == "batch")
    {
        uint64_t seed = strtoull(argv[3], nullptr, 10), stride = strtoull(argv[4], nullptr, 10), max = strtoull(argv[5], nullptr, 10);
        double const end = wall() + atof(argv[6]);
        FILE* f          = fopen(argv[7], "w");
        FILE* hf         = fopen((std::string(argv[7]) + ".hashes").c_str(), "w");
        uint64_t runs = 0, sim_ns = 0, decisions = 0, calls = 0, frames = 0, stopped_n = 0, faulty = 0;
        std::vector<uint64_t> counters(counter_count), in_runs(counter_count);
        int reported = 0;
        while (runs < max && wall() < end && reported < 12)
        {
            result_block r;
            if (!one(prop, seed, nullptr, nullptr, nullptr, r))
            {
                return 2;
            }
            ++runs;
            sim_ns += r.sim_ns;
            decisions += r.decisions;
            calls += r.calls;
            frames += r.frames;
            stopped_n += r.stopped_ok;
            bool any = false;
            for (int i = 1; i != counter_count; ++i)
            {
                counters[i] += r.counters[i];
                in_runs[i] += r.counters[i] != 0;
                any |= counter_names[i][0] == 'f' && r.counters[i];
            }
            faulty += any;
            if (nontrivial(r))
            {
                fwrite(&r.order_hash, 8, 1, hf); // non-trivial runs
            }
            if (any_relevant(prop, r))
            {
                print_result(f, prop, r, seed);
                ++reported;
            }
            seed += stride;
        }
        fprintf(f, "{\"summary\":{\"runs\":%llu,\"next_seed\":%llu,\"sim_ns\":%llu,\"decisions\":%llu,\"calls\":%llu,\"frames\":%llu,\"stopped\":%llu,\"with_faults\":%llu,\"counters\":{",
                (unsigned long long)runs, (unsigned long long)seed, (unsigned long long)sim_ns, (unsigned long long)decisions,
                (unsigned long long)calls, (unsigned long long)frames, (unsigned long long)stopped_n, (unsigned long long)faulty);
        bool first = true;
        for (int i = 1; i != counter_count; ++i)
        {
            fprintf(f, "%s\"%s\":[%llu,%llu]", first ? "" : ",", counter_names[i], (unsigned long long)counters[i], (unsigned long long)in_runs[i]);
            first = false;
        }
        fprintf(f, "}}}\n");
        fclose(f);
        fclose(hf);
        return 0;
    }
    return 2;
}
