// What a simulated run leaves behind, in memory shared with its parent process.
#pragma once
#include <cstdint>

namespace sim
{
struct violation_rec
{
    char code[48];
    char msg[336];
};
constexpr int max_viol     = 24;
constexpr int max_counters = 160;
struct result_block
{
    uint64_t log_hash;    // every event including simulated timestamps
    uint64_t order_hash;  // order of events only: the measure of distinct interleavings
    uint64_t sim_ns;
    uint64_t decisions;
    uint64_t calls;
    uint64_t frames;
    uint32_t finished; // 1 = run reached its end (including an expected stop)
    uint32_t stopped_ok;
    uint32_t nviol;
    violation_rec viol[max_viol];
    uint32_t counters[max_counters];
};

} // namespace sim
