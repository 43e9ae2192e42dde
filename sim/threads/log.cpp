// P12: threads log at once; the retained messages and the console are checked against the history of calls.
#include "rt.hpp"
#include "log.hpp"

#include <algorithm>
#include <cstdio>
#include <iostream>
#include <map>
#include <set>
#include <system_error>
#include <sys/mman.h>
#include <unistd.h>

namespace sim
{
struct entry
{
    std::string text; // as retained
    log_severity sev;
    uint64_t invoked = 0, returned = ~0ull;
    bool ok = false, threw = false, unwritable = false;
};
static uint32_t console_permille;
static bool console_failed[max_threads];
static std::vector<entry>* history;
static std::string* console;
static uint64_t stamp;
static int captured; // standard output, should the log write to it by other means than fmt::print

static char const* const sev_names[] = {"debug", "info", "warn", "error"};
static log_severity const sevs[]     = {log_severity::debug, log_severity::info, log_severity::warn, log_severity::error};
static char const* const files[]     = {"a.cpp", "src/some/where/else.cpp", "x{}y.cpp", ""};

static void log_one(int who, int n, uint32_t kind, uint32_t size)
{
    // Built by the simulator: not subject to faults
    int sev = kind & 3;
    bool rel = kind & 4;
    std::string msg = "m" + std::to_string(who) + "." + std::to_string(n) + " ";
    switch ((kind >> 3) & 3)
    {
    case 1: msg += "{} {0} %s %n "; break;
    case 2: msg += "two\nlines "; break;
    case 3:
        if (n % 3 == 1)
        {
            msg += std::string("\0nul\r\x1b[0m\xff\xc3 ", 12); // any bytes at all
            W.count(n_raw_messages);
        }
        break;
    default: break;
    }
    for (uint32_t i = 0; i != size; ++i)
    {
        msg += char('a' + (i * 7 + who * 3 + n) % 26);
    }
    int line         = int(kind * 17 + n);
    char const* file = files[(kind >> 5) & 3];
    entry e;
    e.text = std::string("[") + sev_names[sev] + "] " + msg;
    if (!rel)
    {
        e.text += std::string(" [") + file + "@" + std::to_string(line) + "]";
    }
    e.sev     = sevs[sev];
    e.invoked = ++stamp;
    size_t id = history->size();
    history->push_back(e);
    W.count(n_messages);
    thread* t       = self();
    t->alloc_failed = false;
    bool threw      = false;
    console_failed[t->id] = false;
    begin_op(int(kind), 50000000, int(size));
    try
    {
        if (rel)
        {
            log_.log_release(sevs[sev], msg);
        }
        else
        {
            log_.log_debug(sevs[sev], file, line, msg);
        }
        end_op();
    }
    catch (...)
    {
        end_op();
        threw = true;
    }
    auto& h    = (*history)[id];
    h.returned = ++stamp;
    h.ok       = !threw;
    h.threw    = threw;
    h.unwritable = console_failed[t->id];
    W.log("%s %s", threw ? "threw" : "logged", e.text.substr(0, 40).c_str());
    if (threw && !t->alloc_failed && !h.unwritable)
    {
        W.violate("log.throws", "a log call throws although no allocation failed and the console could be written");
    }
}

struct log_ctx
{
    int steps;
    int id;
};
static log_ctx log_contexts[max_threads];
static thread_sites const site_kind{"msg.kind."};
static thread_sites const site_size{"msg.size."};

static void body(void* p)
{
    auto& c = *static_cast<log_ctx*>(p);
    for (int i = 0; i != c.steps; ++i)
    {
        uint32_t k = W.ch.choose(site_kind[c.id], 128);
        uint32_t s = W.ch.choose(site_size[c.id], 60);
        static uint32_t const sizes[] = {0, 3, 12, 100, 600, 3000};
        static uint32_t const huge[]  = {5000, 20000, 70000};
        if (s >= 57)
        {
            W.count(n_huge_messages);
        }
        log_one(c.id, i, k, s >= 57 ? huge[s - 57] : sizes[s % 6]);
    }
}

static void check_history()
{
    auto& h = *history;
    std::map<std::string, size_t> by_text;
    for (size_t i = 0; i != h.size(); ++i)
    {
        by_text[h[i].text] = i;
    }
    // Retained messages, in the order of the ring
    std::vector<size_t> ring;
    std::set<size_t> seen;
    size_t slots = 0, after_gap = 0;
    bool gap     = true;
    log_.sim_visit([&](log_severity sev, std::string const& s) {
        ++slots;
        if (s.empty())
        {
            gap = true;
            return;
        }
        if (gap)
        {
            after_gap = ring.size(); // the last run of messages behind a gap starts here
            gap       = false;
        }
        auto it = by_text.find(s);
        if (it == by_text.end())
        {
            W.violate("log.garbled", "retained message %zu is none of the messages logged: \"%s\"", ring.size(), s.substr(0, 80).c_str());
            ring.push_back(~size_t(0));
            return;
        }
        if (h[it->second].sev != sev)
        {
            W.violate("log.severity", "retained message \"%s\" has severity %d", s.substr(0, 60).c_str(), int(sev));
        }
        if (!seen.insert(it->second).second)
        {
            W.violate("log.duplicate", "retained twice: \"%s\"", s.substr(0, 80).c_str());
        }
        ring.push_back(it->second);
    });
    // Any start that makes the order consistent will do: candidates are those that are not preceded by any other message
    std::vector<size_t> kept = ring;
    {
        uint64_t first_return = ~0ull;
        for (size_t i : seen)
        {
            first_return = std::min(first_return, h[i].returned);
        }
        std::vector<size_t> starts;
        for (size_t k = 0; k != ring.size(); ++k)
        {
            if (ring[k] != ~size_t(0) && h[ring[k]].invoked < first_return)
            {
                starts.push_back(k);
            }
        }
        auto ordered = [&](std::vector<size_t> const& v) {
            uint64_t latest = 0;
            for (size_t i : v)
            {
                if (i != ~size_t(0))
                {
                    if (h[i].returned < latest)
                    {
                        return false;
                    }
                    latest = std::max(latest, h[i].invoked);
                }
            }
            return true;
        };
        if (ring.size() < slots)
        {
            starts.assign(1, after_gap);
        }
        for (size_t k : starts)
        {
            std::rotate_copy(ring.begin(), ring.begin() + k, ring.end(), kept.begin());
            if (ordered(kept))
            {
                break;
            }
        }
    }
    size_t ok = 0;
    for (auto& e : h)
    {
        ok += e.ok;
    }
    constexpr size_t cap = 2048;
    if (kept.size() > cap)
    {
        W.violate("log.count", "%zu messages are retained", kept.size());
    }
    if (kept.size() < std::min(ok, cap))
    {
        W.violate("log.lost", "%zu messages were logged, %zu are retained", ok, kept.size());
    }
    if (kept.size() == cap)
    {
        W.count(n_ring_wrapped);
    }
    // Order: a message whose call ended before another one began comes first
    uint64_t latest_invocation = 0;
    for (size_t i : kept)
    {
        if (i == ~size_t(0))
        {
            continue;
        }
        if (h[i].returned < latest_invocation)
        {
            W.violate("log.order", "\"%s\" is retained after a message that was logged later", h[i].text.substr(0, 60).c_str());
        }
        latest_invocation = std::max(latest_invocation, h[i].invoked);
    }
    // Most recent: a message that is gone must not be newer than one that is retained
    uint64_t first_return = ~0ull;
    for (size_t i : seen)
    {
        first_return = std::min(first_return, h[i].returned);
    }
    for (size_t i = 0; i != h.size(); ++i)
    {
        if (h[i].ok && !seen.count(i))
        {
            if (kept.size() < cap)
            {
                W.violate("log.lost", "\"%s\" is not retained although there is room", h[i].text.substr(0, 80).c_str());
            }
            else if (first_return < h[i].invoked)
            {
                W.violate("log.lost", "\"%s\" is not retained, older messages are", h[i].text.substr(0, 80).c_str());
            }
        }
    }
    // Console: a sequence of complete lines, one per message
    if (console_log_enabled)
    {
        std::cout.flush();
        fflush(stdout);
        char buf[4096];
        lseek(captured, 0, SEEK_SET);
        for (ssize_t n; (n = read(captured, buf, sizeof buf)) > 0;)
        {
            console->append(buf, size_t(n));
        }
        std::map<std::string, size_t> ends; // text of a message and its newline
        std::vector<char> printed(h.size());
        size_t at = 0;
        // Texts differ in their first characters up to the blank after m<thread>.<n>, so at most one matches
        std::map<std::string, size_t> by_key;
        auto key = [](std::string const& s, size_t from) {
            size_t b = s.find("] ", from);
            size_t e = b == std::string::npos ? b : s.find(' ', b + 2);
            return e == std::string::npos ? std::string() : s.substr(from, e - from);
        };
        for (size_t i = 0; i != h.size(); ++i)
        {
            by_key[key(h[i].text, 0)] = i;
        }
        while (at < console->size())
        {
            auto it = by_key.find(key(*console, at));
            if (it == by_key.end() || console->compare(at, h[it->second].text.size(), h[it->second].text) != 0
                || at + h[it->second].text.size() >= console->size() || (*console)[at + h[it->second].text.size()] != '\n')
            {
                W.violate("log.console", "the console shows text that is no message: \"%s\"", console->substr(at, 80).c_str());
                return;
            }
            if (printed[it->second]++)
            {
                W.violate("log.console", "the console shows twice: \"%s\"", h[it->second].text.substr(0, 80).c_str());
            }
            at += h[it->second].text.size() + 1;
        }
        for (size_t i = 0; i != h.size(); ++i)
        {
            if (h[i].ok && !printed[i] && !h[i].unwritable)
            {
                W.violate("log.console", "never shown on the console: \"%s\"", h[i].text.substr(0, 80).c_str());
            }
        }
    }
}

// Messages that do not differ from others, that are empty or consist of line ends: each call counts, not each text.
static char const* const echoes[] = {"", "same", "same\n", "\n", " ", "again and again", "[info] same", "same same", "{}", "a\tb"};
static std::map<std::pair<int, std::string>, int>* echo_calls; // severity and text as retained -> calls
static std::vector<std::string>* echo_order;

static void echo_one(uint32_t kind, int sev, bool rel)
{
    std::string msg  = echoes[kind % 10];
    std::string text = std::string("[") + sev_names[sev] + "] " + msg + (rel ? "" : " [f.cpp@7]");
    ++(*echo_calls)[{sev, text}];
    echo_order->push_back(text);
    W.count(n_messages);
    W.count(n_echo_messages);
    begin_op(int(kind), 50000000, 0);
    try
    {
        if (rel)
        {
            log_.log_release(sevs[sev], msg);
        }
        else
        {
            log_.log_debug(sevs[sev], "f.cpp", 7, msg);
        }
        end_op();
    }
    catch (...)
    {
        end_op();
        W.violate("log.throws", "a log call throws although nothing failed");
    }
}

static void echo_body(void* p)
{
    auto& c       = *static_cast<log_ctx*>(p);
    uint32_t kind = 0, how = 0;
    for (int i = 0; i != c.steps; ++i)
    {
        if (i == 0 || W.ch.choose(site_size[c.id], 3) == 1)
        {
            kind = W.ch.choose(site_kind[c.id], 10);
            how  = W.ch.choose(site_kind[c.id], 8);
        }
        echo_one(kind, how & 3, how & 4);
    }
}

static std::string console_text()
{
    std::cout.flush();
    fflush(stdout);
    char buf[4096];
    lseek(captured, 0, SEEK_SET);
    for (ssize_t n; (n = read(captured, buf, sizeof buf)) > 0;)
    {
        console->append(buf, size_t(n));
    }
    return *console;
}

static void run_echo(int threads, int steps)
{
    echo_calls = new std::map<std::pair<int, std::string>, int>;
    echo_order = new std::vector<std::string>;
    echo_order->reserve(40000);
    for (int i = 0; i != threads; ++i)
    {
        auto& c = log_contexts[W.nthreads];
        c.id    = W.nthreads;
        c.steps = steps;
        spawn(echo_body, &c);
    }
    run_threads();
    join_finished();
    auto& order = *echo_order;
    // The log keeps one entry per call
    std::map<std::pair<int, std::string>, int> kept;
    size_t n = 0;
    log_.sim_visit([&](log_severity sev, std::string const& s) {
        if (!s.empty())
        {
            ++kept[{int(sev), s}];
            ++n;
        }
    });
    if (n != std::min<size_t>(order.size(), 2048))
    {
        W.violate("log.lost", "%zu messages were logged, some of them equal, %zu are retained", order.size(), n);
    }
    for (auto& k : kept)
    {
        auto it = echo_calls->find(k.first);
        if (it == echo_calls->end())
        {
            W.violate("log.garbled", "a retained message is none of the messages logged: \"%s\"", k.first.second.substr(0, 80).c_str());
        }
        else if (k.second > it->second || (order.size() <= 2048 && k.second != it->second))
        {
            W.violate("log.lost", "\"%s\" was logged %d times, it is retained %d times", k.first.second.substr(0, 80).c_str(), it->second, k.second);
        }
    }
    if (console_log_enabled)
    {
        // Every message begins with a bracket, so the longest text that fits is the one that was written
        std::map<std::string, int> shown, wanted;
        for (auto& t : order)
        {
            ++wanted[t];
        }
        std::string all = console_text();
        for (size_t at = 0; at < all.size();)
        {
            std::string const* best = nullptr;
            for (auto& w : wanted)
            {
                if (all.compare(at, w.first.size(), w.first) == 0 && at + w.first.size() < all.size() && all[at + w.first.size()] == '\n'
                    && (!best || best->size() < w.first.size()))
                {
                    best = &w.first;
                }
            }
            if (!best)
            {
                W.violate("log.console", "the console shows text that is no message: \"%s\"", all.substr(at, 80).c_str());
                return;
            }
            ++shown[*best];
            at += best->size() + 1;
        }
        for (auto& w : wanted)
        {
            if (shown[w.first] != w.second)
            {
                W.violate("log.console", "\"%s\" was logged %d times, the console shows it %d times", w.first.substr(0, 80).c_str(), w.second, shown[w.first]);
            }
        }
    }
}

void run_log()
{
    auto& ch  = W.ch;
    auto& cfg = W.cfg;
    history   = new std::vector<entry>;
    console   = new std::string;
    history->reserve(80000);
    console->reserve(1 << 23);
    captured = memfd_create("console", 0);
    dup2(captured, 1);
    cfg.switches = cfg.races = true;
    cfg.max_events           = 0; // while the log is filled
    if (ch.choose("cfg.echo", 8) == 7)
    {
        cfg.max_events    = 300;
        cfg.gap_scale     = 20 + 15 * ch.choose("cfg.gap", 8);
        cfg.shared_one_in = 2 + ch.choose("cfg.shared", 4) * 3;
        bool full         = ch.choose("cfg.full", 8) == 7;
        run_echo(full ? 1 : 1 + ch.choose("cfg.threads", 4), full ? 2040 + ch.choose("prog.steps", 20) : 1 + ch.choose("prog.steps", 20));
        W.end();
        return;
    }
    static uint32_t const pre[] = {0, 1, 2030, 2047, 2048, 4080, 2044, 6140};
    static uint32_t prefill;
    prefill = pre[ch.choose("cfg.prefill", 8)];
    if (ch.choose("cfg.long", 40) == 39)
    {
        prefill += 65520; // more messages than 16 bits count
    }
    if (prefill)
    {
        spawn([](void*) {
            for (uint32_t i = 0; i != prefill; ++i)
            {
                log_one(0, int(100000 + i), 4 | (i & 3), 2);
            }
        }, nullptr);
        run_threads();
        join_finished();
    }
    cfg.max_events      = 300;
    cfg.gap_scale       = 20 + 15 * ch.choose("cfg.gap", 8);
    cfg.shared_one_in   = 2 + ch.choose("cfg.shared", 4) * 3;
    static uint32_t const odds[] = {0, 0, 60, 300};
    cfg.alloc_permille           = odds[ch.choose("cfg.alloc", 4)];
    static uint32_t const full[] = {0, 0, 0, 100};
    console_permille             = full[ch.choose("cfg.console", 4)];
    int threads                  = 2 + ch.choose("cfg.threads", 4);
    threads                      = ch.choose("cfg.crowd", 16) == 1 ? 6 + ch.choose("cfg.threads", 16) : threads;
    bool army                    = ch.choose("cfg.army", 50) == 1;
    if (army)
    {
        threads        = 40 + ch.choose("cfg.threads", 260);
        cfg.max_events = 1000;
        W.count(n_army_runs);
    }
    for (int i = 0; i != threads; ++i)
    {
        auto& c = log_contexts[W.nthreads];
        c.id    = W.nthreads;
        c.steps = 1 + ch.choose("prog.steps", army ? 2 : 12);
        spawn(body, &c);
    }
    run_threads();
    join_finished();
    check_history();
    W.end();
}
} // namespace sim

extern "C" void sim_console_write(char const* data, size_t size)
{
    using namespace sim;
    bool fails = false;
    if (console)
    {
        thread* t = self();
        {
            rt_scope s;
            if (t && console_permille && W.ch.chance("console.full", console_permille))
            {
                W.count(f_console_write_failed);
                W.log("FAULT the console cannot be written");
                console_failed[t->id] = true;
                fails                 = true;
            }
            else
            {
                console->append(data, size);
            }
        }
        if (fails)
        {
            throw std::system_error(ENOSPC, std::generic_category(), "cannot write to file"); // as fmt::print does
        }
        schedule("console");
    }
}
