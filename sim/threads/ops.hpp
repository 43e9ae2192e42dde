// Operations of the code under test, as the workload calls them. Included by the instrumented translation units.
#pragma once
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <new>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>

namespace sim
{
constexpr int max_args      = 6;
constexpr size_t result_cap = 1024; // bytes of a result object
constexpr size_t value_cap  = 2048; // bytes of the value of a result

struct op_desc
{
    char const* name;
    uint8_t fsize; // 4 or 8
    uint8_t nargs;
    uint8_t count[max_args]; // numbers per argument
    bool text;
    void (*run)(void const* const* args, void* out);
    size_t (*read)(void const* out, unsigned char* bytes); // value of a result object
    void (*destroy)(void* out);
    bool (*complete)(void const* const* args, char const* text, size_t n); // nullptr: nothing to compare with
};
void add_op(op_desc const& d);

// ---- value of a result
template <typename T>
struct is_tuple : std::false_type
{};
template <typename... T>
struct is_tuple<std::tuple<T...>> : std::true_type
{};
template <typename T, size_t N>
struct is_tuple<std::array<T, N>> : std::true_type
{};
template <typename A, typename B>
struct is_tuple<std::pair<A, B>> : std::true_type
{};

template <typename Q>
size_t value_of(Q const& r, unsigned char* out)
{
    using R = std::remove_cv_t<std::remove_reference_t<Q>>;
    if constexpr (std::is_arithmetic_v<R>)
    {
        __builtin_memcpy(out, &r, sizeof r);
        return sizeof r;
    }
    else if constexpr (std::is_same_v<R, std::string>)
    {
        size_t n = r.size() < value_cap ? r.size() : value_cap;
        __builtin_memcpy(out, r.data(), n);
        return n;
    }
    else if constexpr (is_tuple<R>::value)
    {
        size_t n = 0;
        std::apply([&](auto const&... e) { ((n += value_of(e, out + n)), ...); }, r);
        return n;
    }
    else
    {
        using T  = typename R::value_t;
        size_t n = 0;
        for (size_t i = 0; i != R::size(); ++i)
        {
            T v = r[i];
            __builtin_memcpy(out + n, &v, sizeof v);
            n += sizeof v;
        }
        return n;
    }
}

// A result is kept the way `auto&& r = compute(...)` keeps it: as an object of its own or, should the operation return a
// reference, as that reference.
template <typename F, typename R, typename... In>
struct thunk
{
    using O = std::conditional_t<std::is_reference_v<R>, std::add_pointer_t<R>, R>;
    template <size_t... I>
    static void call(void const* const* args, void* out, std::index_sequence<I...>)
    {
        if constexpr (std::is_reference_v<R>)
        {
            auto&& r = F::go(*static_cast<In const*>(args[I])...);
            ::new (out) O(&r);
        }
        else
        {
            ::new (out) R(F::go(*static_cast<In const*>(args[I])...));
        }
    }
    static void run(void const* const* args, void* out)
    {
        static_assert(sizeof(O) <= result_cap);
        call(args, out, std::index_sequence_for<In...>{});
    }
    static size_t read(void const* out, unsigned char* bytes)
    {
        if constexpr (std::is_reference_v<R>)
        {
            return value_of(**static_cast<O const*>(out), bytes);
        }
        else
        {
            return value_of(*static_cast<O const*>(out), bytes);
        }
    }
    static void destroy(void* out)
    {
        static_cast<O*>(out)->~O();
    }
};

// Does the text show every component of the entity, in order: the number, then the generators of its basis element?
template <typename E>
bool shows(E const& e, char const* text, size_t n)
{
    size_t at = 0;
    for (size_t i = 0; i != E::size(); ++i)
    {
        char want[64];
        int len = snprintf(want, sizeof want, "%g", double(e[i]));
        if constexpr (E::size() > 0)
        {
            auto b = E::elements[i];
            len += b ? snprintf(want + len, sizeof want - len, "e") : 0;
            for (int j = 0; b; ++j, b >>= 1)
            {
                len += b & 1 ? snprintf(want + len, sizeof want - len, "%d", j) : 0;
            }
        }
        for (; at + len <= n && __builtin_memcmp(text + at, want, len); ++at) {}
        if (at + len > n)
        {
            return false;
        }
        at += len;
    }
    return n > 0;
}

template <typename F, typename = void>
struct has_value : std::false_type
{};
template <typename F>
struct has_value<F, std::void_t<decltype(&F::value)>> : std::true_type
{};

template <typename F, typename... In>
struct completeness
{
    template <size_t... I>
    static bool call(void const* const* args, char const* text, size_t n, std::index_sequence<I...>)
    {
        return shows(F::value(*static_cast<In const*>(args[I])...), text, n);
    }
    static bool check(void const* const* args, char const* text, size_t n)
    {
        return call(args, text, n, std::index_sequence_for<In...>{});
    }
};

template <typename T, typename F, typename R, typename... In>
bool add(char const* name, R (*)(In const&...))
{
    using Th = thunk<F, R, In...>;
    static_assert(sizeof...(In) <= max_args);
    op_desc d{name, sizeof(T), sizeof...(In), {uint8_t(sizeof(In) / sizeof(T))...}, std::is_same_v<std::decay_t<R>, std::string>, Th::run, Th::read, Th::destroy, nullptr};
    if constexpr (has_value<F>::value)
    {
        d.complete = completeness<F, In...>::check;
    }
    add_op(d);
    return true;
}

// The text of an entity
#define TEXT(name, params, entity) template <typename T> struct name { static auto value params { return entity; } static decltype(auto) go params { return to_string(entity); } }; OP(name)

// Each file is compiled once per number type.
#ifdef SIM_DOUBLE
#    define OP(name) static bool reg_##name = ::sim::add<double, name<double>>(#name "<double>", &name<double>::go);
#else
#    define OP(name) static bool reg_##name = ::sim::add<float, name<float>>(#name "<float>", &name<float>::go);
#endif
} // namespace sim
