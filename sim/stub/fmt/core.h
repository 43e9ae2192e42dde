// The installed fmt library formats; only its console output is replaced by the simulated console.
#pragma once
#include <cstdio>
#include <string>
#define print fmt_print_unused_
#include "/usr/include/fmt/core.h"
#include "/usr/include/fmt/format.h"
#undef print
extern "C" void sim_console_write(char const* data, size_t size);
namespace fmt
{
template <typename... T>
inline void print(format_string<T...> f, T&&... args)
{
    std::string s = fmt::format(f, std::forward<T>(args)...);
    sim_console_write(s.data(), s.size());
}
template <typename... T>
inline void print(std::FILE* to, format_string<T...> f, T&&... args)
{
    std::string s = fmt::format(f, std::forward<T>(args)...);
    if (to == stdout)
    {
        sim_console_write(s.data(), s.size());
    }
    else
    {
        std::fwrite(s.data(), 1, s.size(), to);
    }
}
} // namespace fmt
