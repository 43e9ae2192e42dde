#include "ops.hpp"
#include <gal/format.hpp>
#include <gal/pga2.hpp>
using namespace gal;
using namespace gal::pga2;
namespace
{
template <typename T> using sc = scalar<pga2_algebra, T>;
template <typename T> using ln = pga2::line<T>;
#define DEF(name, params, body) template <typename T> struct name { static decltype(auto) go params { return body; } }; OP(name)
DEF(q_meet, (ln<T> const& a, ln<T> const& b), compute([](auto a, auto b) { return a ^ b; }, a, b))
DEF(q_self, (ln<T> const& a), compute([](auto a) { return a; }, a))
DEF(q_gp, (ln<T> const& a, ln<T> const& b), compute([](auto a, auto b) { return a * b; }, a, b))
DEF(q_reflect, (ln<T> const& a, ln<T> const& b), (ln<T>{compute([](auto a, auto b) { return a * b * a; }, a, b)}))
DEF(q_point, (ln<T> const& a, ln<T> const& b), (pga2::point<T>{compute([](auto a, auto b) { return a ^ b; }, a, b)}))
DEF(q_join, (ln<T> const& a, ln<T> const& b, ln<T> const& c), (ln<T>{compute([](auto a, auto b, auto c) { return (a ^ b) & (b ^ c); }, a, b, c)}))
DEF(q_angle, (ln<T> const& a, ln<T> const& b), compute([](auto a, auto b) { return (a | b)[0]; }, a, b))
DEF(q_rot, (sc<T> const& s, ln<T> const& a), (ln<T>{compute([](auto s, auto a) { auto r = cos(s / 2) + sin(s / 2) * 1_e12; return r * a * ~r; }, s, a)}))
DEF(q_tuple, (ln<T> const& a, ln<T> const& b), compute([](auto a, auto b) { return gal::make_tuple(a * b, a ^ b); }, a, b))
TEXT(q_text, (ln<T> const& a, ln<T> const& b), (compute([](auto a, auto b) { return a * b; }, a, b)))
// Construction from components, and components written in place
template <typename T> struct q_make { static auto go(ln<T> const& a, sc<T> const& s) {
    ln<T> l{a[2], T(s), a[0]};
    l[1] += a[1];
    pga2::point<T> p{l[0], T(s)};
    p[1] = a[0];
    pga2::vector<T> v{a[0], a[1], T(s)};
    v[0] = p[0];
    return std::make_tuple(l, p, v); } }; OP(q_make)
DEF(q_points, (pga2::point<T> const& p, pga2::point<T> const& q), compute([](auto p, auto q) { return p & q; }, p, q))
DEF(q_pself, (pga2::point<T> const& p), compute([](auto p) { return p; }, p))
} // namespace
