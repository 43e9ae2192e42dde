#include "ops.hpp"
#include <gal/cga.hpp>
#include <gal/format.hpp>
using namespace gal;
using namespace gal::cga;
namespace
{
template <typename T> using sc = scalar<cga_algebra, T>;
template <typename T> using pt = cga::point<T>;
#define DEF(name, params, body) template <typename T> struct name { static decltype(auto) go params { return body; } }; OP(name)
template <typename A> inline auto expp(A const& arg)
{
    auto arg2 = compute([](auto arg) { return arg * arg; }, arg);
    return compute([](auto arg, auto arg2) { auto arg3 = arg * arg2; auto arg4 = arg2 * arg2; return 1 + arg + arg2 / 2 + arg3 / 6 + arg4 / 24; }, arg, arg2);
}
DEF(c_zero, (pt<T> const& p), compute([](auto p) { return p >> p; }, p))
DEF(c_dist, (pt<T> const& p, pt<T> const& q), compute([](auto p, auto q) { return p >> q; }, p, q))
DEF(c_pair, (pt<T> const& p, pt<T> const& q), compute([](auto p, auto q) { return p ^ q; }, p, q))
DEF(c_line, (pt<T> const& p, pt<T> const& q), compute([](auto p, auto q) { return (p ^ q ^ 1_ni) >> 1_ips; }, p, q))
DEF(c_axis, (sc<T> const& a), compute([](auto a) { return ((1_no ^ (1_no + 1_e3 + 1_ni / 2) ^ 1_ni) >> 1_ips) * a / 2; }, a))
DEF(c_circle, (pt<T> const& p, pt<T> const& q, pt<T> const& r), compute([](auto p, auto q, auto r) { return p ^ q ^ r; }, p, q, r))
DEF(c_back, (pt<T> const& p), (pt<T>{compute([](auto p) { return 2 * p; }, p)}))
DEF(c_self, (pt<T> const& p), compute([](auto p) { return p; }, p))
DEF(c_gp, (pt<T> const& p, pt<T> const& q), compute([](auto p, auto q) { return p * q; }, p, q))
DEF(c_tuple, (pt<T> const& p, pt<T> const& q), compute([](auto p, auto q) { auto l = p ^ q; return gal::make_tuple(l, p >> q); }, p, q))
template <typename T> struct c_rot { static auto go(sc<T> const& a) { return expp(compute([](auto a) { return ((1_no ^ (1_no + 1_e3 + 1_ni / 2) ^ 1_ni) >> 1_ips) * a / 2; }, a)); } }; OP(c_rot)
template <typename T> struct c_ik { static auto go(sc<T> const& a, pt<T> const& j, pt<T> const& h, sc<T> const& b) {
    auto L1 = compute([](auto a) { return ((1_no ^ (1_no + 1_e3 + 1_ni / 2) ^ 1_ni) >> 1_ips) * a / 2; }, a);
    auto R1 = expp(L1);
    return compute([](auto R1, auto J1, auto P2, auto b) { auto L = (J1 ^ P2 ^ 1_ni) >> 1_ips; return (L % R1) * b / 2; }, R1, j, h, b); } }; OP(c_ik)
TEXT(c_text, (pt<T> const& p, pt<T> const& q), (compute([](auto p, auto q) { return p ^ q; }, p, q)))
// Construction from components, and components written in place
template <typename T> struct c_make { static auto go(pt<T> const& a, sc<T> const& s) {
    pt<T> p{a[1], T(s), a[0]};
    p[2] += a[2];
    return std::make_tuple(p, compute([](auto p) { return p ^ 1_ni; }, p)); } }; OP(c_make)
} // namespace
