// Histories over pd::detail::unique_id against a reference model of leases, with failing allocations, and close to the
// exhaustion of the identifier space.
#include "world.hpp"

#include <detail/uid.hpp>

#include <algorithm>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <unordered_set>

namespace sim
{
using pd::detail::unique_id;

namespace
{
struct program_scope
{
    int saved;
    program_scope() : saved{W.sim_depth}
    {
        W.sim_depth = 0;
    }
    ~program_scope()
    {
        W.sim_depth = saved;
    }
};

struct slot
{
    alignas(unique_id) unsigned char mem[sizeof(unique_id)];
    bool exists   = false;
    uint32_t id   = 0; // the model's lease, 0: none
    size_t hash   = 0;
    unique_id& h()
    {
        return *reinterpret_cast<unique_id*>(mem);
    }
};
} // namespace

// ---------------------------------------------------------------------------------------------- exhaustion
static bool near_exhaustion = false;
static std::vector<uint32_t> unseen; // identifiers that were never handed out, close to exhaustion
static bool consecutive = true; // the hashes were an unbroken run of numbers, so every one between the ends is taken
static size_t first_hash = 0, last_hash = 0;
static char warm_error[200];
static double warm_budget = 240;
double warm_seconds_used;

// Leases all but a few of the identifiers, for good. Runs once per process, before the simulated runs are forked.
bool warm_up(double (*wall)())
{
    constexpr uint64_t total = (uint64_t(1) << 32) - 1; // 0 is reserved
    constexpr uint64_t leave = 48;
    size_t const bytes       = size_t(1) << 29;
    auto* seen = static_cast<unsigned char*>(
        mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (seen == MAP_FAILED)
    {
        return false;
    }
    madvise(seen, bytes, MADV_HUGEPAGE);
    double const start = wall();
    alignas(unique_id) static unsigned char mem[sizeof(unique_id)];
    near_exhaustion = true;
    for (uint64_t n = 0; n != total - leave; ++n)
    {
        if ((n & 0xFFFFFF) == 0 && wall() - start > warm_budget)
        {
            munmap(seen, bytes);
            return false;
        }
        uint32_t id;
        try
        {
            auto* u = new (mem) unique_id;
            id      = u->id;
            if (n == 0)
            {
                first_hash = u->hash;
            }
            else
            {
                consecutive &= u->hash == last_hash + 1;
            }
            last_hash = u->hash;
        }
        catch (std::exception const& e)
        {
            snprintf(warm_error, sizeof warm_error, "identifier number %llu of 2^32-1 is refused: %.80s",
                     (unsigned long long)n + 1, e.what());
            break;
        }
        unsigned char bit = 1u << (id & 7);
        if (id == 0)
        {
            snprintf(warm_error, sizeof warm_error, "the reserved identifier 0 is handed out (lease %llu)", (unsigned long long)n + 1);
            break;
        }
        if (seen[id >> 3] & bit)
        {
            snprintf(warm_error, sizeof warm_error, "identifier %u is handed out twice without a release (lease %llu)", id,
                     (unsigned long long)n + 1);
            break;
        }
        seen[id >> 3] |= bit;
    }
    if (!warm_error[0])
    {
        for (size_t i = 0; i != bytes; ++i)
        {
            if (seen[i] != 0xFF)
            {
                for (uint32_t b = 0; b != 8; ++b)
                {
                    uint32_t id = uint32_t(i * 8 + b);
                    if (!(seen[i] >> b & 1) && id != 0)
                    {
                        unseen.push_back(id);
                    }
                }
            }
        }
    }
    munmap(seen, bytes);
    warm_seconds_used = wall() - start;
    return true;
}

// ---------------------------------------------------------------------------------------------- one history
void run_uid()
{
    W.sim_depth = 1;
    if (near_exhaustion && warm_error[0])
    {
        W.violate("id.exhaustion", "%s", warm_error);
        W.finish();
    }
    auto& c      = W.cfg;
    c.alloc_fail = W.ch.chance("cfg.alloc_fail", 300);
    c.alloc_permille = 60;
    static uint8_t const fills[] = {0, 0xAB, 0xFF, 0x01};
    c.heap_fill  = fills[W.ch.choose("cfg.heap_fill", 4)];
    // Some histories have crowds: many handles constructed, and many of them dropped, in one go
    static uint32_t const crowds[] = {1500, 3000, 6000, 70000};
    bool const crowd       = !near_exhaustion && W.ch.chance("cfg.crowd", 60);
    uint32_t const slots_n = crowd ? crowds[W.ch.choose("cfg.crowd.size", W.ch.chance("cfg.crowd.huge", 200) ? 4 : 3)]
                                   : 2 + W.ch.choose("cfg.slots", near_exhaustion ? 120 : 60);
    uint32_t const ops     = crowd ? 4 + W.ch.choose("cfg.crowd.ops", 12)
                                   : 1 + W.ch.choose("cfg.ops", 1 + W.ch.choose("cfg.ops.max", 600));
    std::vector<std::unique_ptr<slot>> s;
    for (uint32_t i = 0; i != slots_n; ++i)
    {
        s.push_back(std::make_unique<slot>());
    }
    std::map<uint32_t, slot*> live;
    std::unordered_set<size_t> hashes;
    std::set<uint32_t> distinct;
    std::set<uint32_t> available(unseen.begin(), unseen.end());
    size_t peak    = 0;
    uint32_t grace = 1; // reset() may hold two identifiers for a moment
    uint32_t lost  = 0;

    auto acquired = [&](slot& x, char const* how) {
        uint32_t id = x.h().id;
        size_t h    = x.h().hash;
        if (!crowd)
        {
            W.log("%s -> id %u", how, near_exhaustion ? 0 : id);
        }
        if (id == 0)
        {
            W.violate("id.zero", "%s yields the reserved identifier 0", how);
            W.finish();
        }
        if (live.count(id))
        {
            W.violate("id.duplicate", "%s yields identifier %u, which is leased already", how, id);
            W.finish();
        }
        if (near_exhaustion)
        {
            if (!available.count(id))
            {
                W.violate("id.exhaustion", "%s yields identifier %u, which is leased already, when identifiers run out", how, id);
                W.finish();
            }
            available.erase(id);
        }
        if (!hashes.insert(h).second || (near_exhaustion && consecutive && h >= first_hash && h <= last_hash))
        {
            W.violate("id.hash", "%s yields a hash that an earlier lease had", how);
            W.finish();
        }
        if (!distinct.insert(id).second)
        {
            W.count(n_id_reused);
        }
        x.id     = id;
        x.hash   = h;
        live[id] = &x;
        peak     = std::max(peak, live.size());
        if (!near_exhaustion && distinct.size() > peak + grace)
        {
            W.violate("id.leak", "%zu different identifiers were handed out although at most %zu were leased at any time",
                      distinct.size(), peak);
            W.finish();
        }
    };
    auto gone = [&](slot& x) {
        if (x.id)
        {
            live.erase(x.id);
            if (near_exhaustion)
            {
                available.insert(x.id);
            }
            x.id = 0;
        }
    };
    auto check = [&](char const* op) {
        for (auto& p : s)
        {
            if (p->exists && p->h().id != p->id)
            {
                W.violate("id.changed", "after %s a handle that held identifier %u holds %u", op, p->id, p->h().id);
                W.finish();
            }
            if (p->exists && p->id && p->h().hash != p->hash)
            {
                W.violate("id.changed", "after %s the hash of the handle with identifier %u has changed", op, p->id);
                W.finish();
            }
        }
    };
    // An operation that was refused may have done all, nothing, or dropped the lease, never anything else.
    auto refused = [&](slot& x, std::exception const& e, char const* op) {
        W.log("%s refused", op);
        bool oom      = W.alloc_failed;
        bool full     = near_exhaustion && available.empty();
        if (full)
        {
            W.count(f_id_exhaustion);
        }
        if (!oom && !full)
        {
            W.violate("id.refused", "%s fails although identifiers are available: %s", op, e.what());
            W.finish();
        }
        grace += 2;
        if (x.exists && x.h().id == 0 && x.id)
        {
            ++lost;
            gone(x);
        }
    };

    if (!near_exhaustion && !c.alloc_fail && W.ch.chance("cfg.marathon", 4))
    {
        // Very many leases, one or a few at a time
        static uint32_t const laps[] = {70'000, 300'000, 1'100'000, 2'500'000};
        uint32_t const n     = laps[W.ch.choose("marathon.laps", 4)];
        uint32_t const width = 1 + W.ch.choose("marathon.width", 3);
        size_t const bits    = size_t(1) << 23;
        std::vector<size_t> table(bits, 0);
        std::vector<bool> zero(1, false);
        uint32_t ids[4] = {};
        for (uint32_t k = 0; k != n; ++k)
        {
            slot& y = *s[k % std::min(width, slots_n)];
            {
                program_scope r;
                if (!y.exists)
                {
                    new (y.mem) unique_id;
                    y.exists = true;
                }
                else if (k & 8)
                {
                    y.h().reset();
                }
                else
                {
                    y.h().~unique_id();
                    new (y.mem) unique_id;
                }
            }
            ids[k % std::min(width, slots_n)] = y.id = y.h().id;
            y.hash = y.h().hash;
            bool twice = y.id == 0;
            for (uint32_t a = 0; a != std::min(width, slots_n); ++a)
            {
                twice |= a != k % std::min(width, slots_n) && ids[a] == y.id;
            }
            if (twice)
            {
                W.violate("id.duplicate", "lease %u of a long history yields identifier %u, which is leased or reserved", k, y.id);
                W.finish();
            }
            bool known = false;
            if (y.hash == 0)
            {
                known   = zero[0];
                zero[0] = true;
            }
            else
            {
                size_t at = mix64(y.hash) & (bits - 1);
                while (table[at] != 0 && table[at] != y.hash)
                {
                    at = (at + 1) & (bits - 1);
                }
                known     = table[at] == y.hash;
                table[at] = y.hash;
            }
            if (known)
            {
                W.violate("id.hash", "lease %u of a long history has a hash that an earlier lease had", k);
                W.finish();
            }
            distinct.insert(y.id);
            if (distinct.size() > width + 1)
            {
                W.violate("id.leak", "identifier %u is new although at most %u were leased at any time", y.id, width);
                W.finish();
            }
        }
        W.count(n_id_ops, n);
        W.count(n_id_marathon);
        W.finish();
    }
    for (uint32_t i = 0; i != ops; ++i)
    {
        W.count(n_id_ops);
        ++W.frame;
        if (crowd && W.ch.chance("op.crowd", 800))
        {
            // Step through the handles with a stride that is coprime to their number, so that the order varies
            uint32_t const first = W.ch.choose("crowd.first", slots_n), stride = W.ch.chance("crowd.order", 500) ? 1 : 997;
            uint32_t const share = 1 + W.ch.choose("crowd.share", 4);
            bool const drop      = W.ch.chance("crowd.drop", 500);
            for (uint32_t k = 0; k != slots_n / 4 * share; ++k)
            {
                slot& y = *s[(first + uint64_t(k) * stride) % slots_n];
                if (drop && y.exists)
                {
                    try
                    {
                        {
                            program_scope r;
                            if (k & 1)
                            {
                                y.h().release();
                            }
                            else
                            {
                                y.h().~unique_id();
                                y.exists = false;
                            }
                        }
                        gone(y);
                    }
                    catch (std::exception const& e)
                    {
                        W.sim_depth = 1;
                        refused(y, e, "release");
                    }
                }
                else if (!drop && !(y.exists && y.id))
                {
                    try
                    {
                        {
                            program_scope r;
                            if (y.exists)
                            {
                                y.h().reset();
                            }
                            else
                            {
                                new (y.mem) unique_id;
                            }
                        }
                        y.exists = true;
                        acquired(y, "construction");
                    }
                    catch (std::exception const& e)
                    {
                        W.sim_depth = 1;
                        refused(y, e, "construction");
                    }
                }
                W.count(n_id_ops);
            }
            check(drop ? "releasing many" : "leasing many");
            continue;
        }
        slot& x     = *s[W.ch.choose("op.slot", slots_n)];
        uint32_t op = W.ch.choose("op", 16);
        char const* name = "nothing";
        if (!x.exists)
        {
            slot& y = *s[W.ch.choose("op.from", slots_n)];
            if (op < 12 || !y.exists)
            {
                name = "construction";
                try
                {
                    {
                        program_scope r;
                        new (x.mem) unique_id;
                    }
                    if (near_exhaustion && available.empty())
                    {
                        W.violate("id.exhaustion", "construction succeeds with identifier %u although all are leased", x.h().id);
                        W.finish();
                    }
                    x.exists = true;
                    acquired(x, name);
                }
                catch (std::exception const& e)
                {
                    W.sim_depth = 1;
                    refused(x, e, name);
                }
            }
            else
            {
                name = "move construction";
                {
                    program_scope r;
                    new (x.mem) unique_id(std::move(y.h()));
                }
                x.exists = true;
                x.id     = y.id;
                x.hash   = y.hash;
                y.id     = 0;
                if (x.id)
                {
                    live[x.id] = &x;
                }
                W.log("moved");
            }
        }
        else if (op < 5)
        {
            name = "destruction";
            {
                program_scope r;
                x.h().~unique_id();
            }
            x.exists = false;
            gone(x);
            W.log("destroyed");
        }
        else if (op < 8)
        {
            name = "release";
            try
            {
                {
                    program_scope r;
                    x.h().release();
                }
                gone(x);
                W.log("released");
            }
            catch (std::exception const& e)
            {
                W.sim_depth = 1;
                refused(x, e, name);
            }
        }
        else if (op < 12)
        {
            name = "reset";
            try
            {
                {
                    program_scope r;
                    x.h().reset();
                }
                // The new identifier may be the old one only if the old one was given back first; its hash is new.
                gone(x);
                acquired(x, name);
            }
            catch (std::exception const& e)
            {
                W.sim_depth = 1;
                refused(x, e, name);
            }
        }
        else
        {
            slot& y = *s[W.ch.choose("op.from", slots_n)];
            if (!y.exists)
            {
                continue;
            }
            name             = "move assignment";
            uint32_t old_id  = x.id;
            size_t old_hash  = x.hash;
            uint32_t from_id = y.id;
            try
            {
                {
                    program_scope r;
                    x.h() = std::move(y.h());
                }
                W.log("assigned");
                if (&x == &y)
                {
                    if (x.id && x.h().id == 0)
                    {
                        W.violate("id.lost", "a handle assigned to itself loses identifier %u", x.id);
                        W.finish();
                    }
                }
                else
                {
                    size_t from_hash = y.hash;
                    if (y.h().id != 0 && y.h().id == old_id)
                    {
                        y.id         = old_id;
                        y.hash       = old_hash;
                        live[old_id] = &y;
                    }
                    else
                    {
                        gone(x);
                        y.id = 0;
                    }
                    x.id   = from_id;
                    x.hash = from_hash;
                    if (from_id)
                    {
                        live[from_id] = &x;
                    }
                }
            }
            catch (std::exception const& e)
            {
                W.sim_depth = 1;
                refused(x, e, name);
            }
        }
        if (!crowd)
        {
            check(name);
        }
    }
    check("the history");
    for (auto& p : s)
    {
        if (p->exists)
        {
            program_scope r;
            p->h().~unique_id();
        }
    }
    W.finish();
}
} // namespace sim
