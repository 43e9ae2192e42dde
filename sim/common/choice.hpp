// The single source of nondeterminism of a simulated run.
//
// Every decision is `choose(site, n)`: a value in [0, n), where 0 is always the benign / default outcome. The k-th
// decision taken at a site is a pure function of (seed, site, k), so one seed is one execution, and decisions at one
// site do not shift when decisions at another site are removed. A replay file is the list of the non-zero decisions
// `site k value`; everything it does not mention is 0.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

namespace sim
{
inline uint64_t mix64(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

inline uint64_t hash_str(char const* s, uint64_t h = 0xcbf29ce484222325ull)
{
    for (; *s; ++s)
    {
        h = (h ^ static_cast<uint8_t>(*s)) * 0x100000001b3ull;
    }
    return h;
}

struct decision
{
    uint32_t site; // index in `site_names`
    uint32_t k;
    uint32_t v;
};

class choices
{
public:
    static constexpr size_t max_recorded = 200000;

    void seeded(uint64_t seed)
    {
        seed_   = seed;
        replay_ = false;
    }

    void replayed(std::map<std::pair<std::string, uint32_t>, uint32_t> const& m)
    {
        replay_ = true;
        script_ = m;
    }

    uint32_t choose(char const* site, uint32_t n)
    {
        auto& s     = lookup(site);
        uint32_t k  = s.count++;
        uint32_t v  = 0;
        if (n > 1)
        {
            if (replay_)
            {
                auto it = script_.find({site, k});
                v       = it == script_.end() ? 0 : (it->second < n ? it->second : n - 1);
            }
            else
            {
                v = static_cast<uint32_t>(mix64(mix64(seed_ ^ s.hash) + k) % n);
            }
        }
        record(s, k, v);
        return v;
    }

    // true with probability permille / 1000; recorded as 0 or 1
    bool chance(char const* site, uint32_t permille)
    {
        auto& s    = lookup(site);
        uint32_t k = s.count++;
        uint32_t v = 0;
        if (permille > 0)
        {
            if (replay_)
            {
                auto it = script_.find({site, k});
                v       = it == script_.end() ? 0 : (it->second ? 1 : 0);
            }
            else
            {
                v = mix64(mix64(seed_ ^ s.hash) + k) % 1000 < permille;
            }
        }
        record(s, k, v);
        return v != 0;
    }

    std::vector<decision> const& taken() const
    {
        return taken_;
    }
    std::vector<std::string> const& sites() const
    {
        return names_;
    }
    uint64_t total() const
    {
        return total_;
    }

private:
    struct site_state
    {
        uint32_t index;
        uint64_t hash;
        uint32_t count;
    };

    site_state& lookup(char const* site)
    {
        auto it = by_ptr_.find(site);
        if (it != by_ptr_.end())
        {
            return states_[it->second];
        }
        // The same name may live at several addresses: identity is the text.
        for (uint32_t i = 0; i != names_.size(); ++i)
        {
            if (names_[i] == site)
            {
                by_ptr_.emplace(site, i);
                return states_[i];
            }
        }
        uint32_t i = static_cast<uint32_t>(names_.size());
        names_.emplace_back(site);
        states_.push_back({i, hash_str(site), 0});
        by_ptr_.emplace(site, i);
        return states_[i];
    }

    void record(site_state& s, uint32_t k, uint32_t v)
    {
        ++total_;
        if (v != 0 && taken_.size() < max_recorded)
        {
            taken_.push_back({s.index, k, v});
        }
    }

    uint64_t seed_ = 0;
    bool replay_   = false;
    uint64_t total_ = 0;
    std::map<std::pair<std::string, uint32_t>, uint32_t> script_;
    std::unordered_map<char const*, uint32_t> by_ptr_;
    std::vector<std::string> names_;
    std::vector<site_state> states_;
    std::vector<decision> taken_;
};
} // namespace sim
