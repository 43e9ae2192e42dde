#include "ops.hpp"
#include <gal/format.hpp>
#include <gal/pga.hpp>
#include <gal/vga.hpp>
using namespace gal;
using namespace gal::pga;
namespace
{
template <typename T> using sc = scalar<pga_algebra, T>;
template <typename T> using pt = vga::point<T>;
using pga::compute;
#define DEF(name, params, body) template <typename T> struct name { static decltype(auto) go params { return body; } }; OP(name)

template <typename L> constexpr auto normalized_line(L l)
{
    auto norm = sqrt(l[0b110] * l[0b110] + l[0b1010] * l[0b1010] + l[0b1100] * l[0b1100]);
    return l / norm;
}
template <typename T, typename L> constexpr auto mk_rotor(T ang, L l) { return cos(ang / 2) + sin(ang / 2) * normalized_line(l); }
template <typename T, typename L> constexpr auto mk_translator(T d, L l) { return 1 + d / 2 * l; }
template <typename T, typename L> constexpr auto circle(T t, T r, L l) { return mk_rotor(2 * PI * t, l) * mk_translator(r, -1_e01); }
template <typename T, typename L> constexpr auto torus(T s, T t, T r1, L l1, T r2, L l2) { return circle(s, r2, l2) * circle(t, r1, l1); }

DEF(p_sandwich, (point<T> const& p, motor<T> const& m), (point<T>(compute([](auto p, auto m) { return p % m; }, p, m))))
DEF(p_sandline, (line<T> const& l, motor<T> const& m), (line<T>{compute([](auto l, auto m) { return m * l * ~m; }, l, m)}))
DEF(p_mm, (motor<T> const& a, motor<T> const& b), (motor<T>{compute([](auto a, auto b) { return a * b; }, a, b)}))
DEF(p_many, (motor<T> const& a, motor<T> const& b, motor<T> const& c, motor<T> const& d, point<T> const& p), compute([](auto a, auto b, auto c, auto d, auto p) { return a * p + b * p + c * p + d * p; }, a, b, c, d, p))
DEF(p_self, (motor<T> const& a), compute([](auto a) { return a; }, a))
DEF(p_number, (line<T> const& l, T const& s), (line<T>{compute([](auto l, auto s) { return s * l - l / 3; }, l, s)}))
DEF(p_arrays, (motor<T> const& m, line<T> const& l), (std::make_tuple(motor<T>{m.data}, line<T>{l.data}, motor<T>{m.bivector()})))
DEF(p_mrev, (motor<T> const& a), compute([](auto a) { return a * ~a; }, a))
DEF(p_meet, (plane<T> const& a, plane<T> const& b), (line<T>{compute([](auto a, auto b) { return a ^ b; }, a, b)}))
DEF(p_meet3, (plane<T> const& a, plane<T> const& b, plane<T> const& c), compute([](auto a, auto b, auto c) { return a ^ b ^ c; }, a, b, c))
DEF(p_project, (plane<T> const& a, line<T> const& l), compute([](auto a, auto l) { return (a | l) * l; }, a, l))
DEF(p_dual, (plane<T> const& a, line<T> const& l), compute([](auto a, auto l) { return !(a ^ l) + !a; }, a, l))
DEF(p_rt, (rotor<T> const& r, translator<T> const& t, plane<T> const& p), (plane<T>{compute([](auto r, auto t, auto p) { auto m = t * r; return m * p * ~m; }, r, t, p)}))
DEF(p_comm, (line<T> const& a, line<T> const& b), compute([](auto a, auto b) { return (a * b - b * a) / 2; }, a, b))
DEF(p_sip, (line<T> const& a, line<T> const& b), compute([](auto a, auto b) { return scalar_product(a, b); }, a, b))
DEF(p_recip, (sc<T> const& a, plane<T> const& p), compute([](auto a, auto p) { return 1 / a * p + 2 * p; }, a, p))
DEF(p_tuple, (line<T> const& l, motor<T> const& m), compute([](auto l, auto m) { return gal::make_tuple(l * m, l ^ l); }, l, m))
DEF(p_tuple4, (plane<T> const& p, line<T> const& l), compute([](auto p, auto l) { return gal::make_tuple(p ^ l, p | l, p * l, 3 * l); }, p, l))
DEF(p_dirs, (pt<T> const& p, motor<T> const& m), (pga::vector<T>{pga::compute([](auto p, auto m) { return p % m; }, p, m)}))

template <typename T> struct p_log { static auto go(motor<T> const& m) { return m.log(); } }; OP(p_log)
template <typename T> struct p_logline { static auto go(motor<T> const& m) { motor<T> n = m; n.normalize(); return line<T>{n.log()}; } }; OP(p_logline)
template <typename T> struct p_norm { static auto go(motor<T> const& m) { motor<T> n = m; n.normalize(); return n; } }; OP(p_norm)
template <typename T> struct p_biv { static auto go(motor<T> const& m) { return m.bivector(); } }; OP(p_biv)
template <typename T> struct p_rnorm { static auto go(rotor<T> const& m, translator<T> const& t) { rotor<T> n = m; n.normalize(); translator<T> u = t; u.normalize(); return std::make_tuple(n, u); } }; OP(p_rnorm)
template <typename T> struct p_ctor { static auto go(sc<T> const& a, plane<T> const& p) { return std::make_tuple(rotor<T>{a, p.x, p.y, p.z}, translator<T>{p.d, p[1], p[2], p[3]}, T(a)); } }; OP(p_ctor)
template <typename T> struct p_chain { static auto go(pt<T> const& p, pt<T> const& q, point<T> const& r) {
    motor<T> m = pga::compute([](auto p, auto q) { return exp(p & q); }, p, q);
    m.normalize();
    auto b = m.log();
    return compute([](auto r, auto m, auto b) { return (r % m) * b; }, r, m, b); } }; OP(p_chain)
template <typename T> struct p_select { static auto go(motor<T> const& m, plane<T> const& p) {
    auto const e = compute([](auto m, auto p) { return m * p; }, m, p);
    return std::make_tuple(e.template select<0b1, 0b10, 0b111>(), e.select(0b1110), e.select(0b11), e.template select<0b1101>(), e.data()[0], T(e.size())); } }; OP(p_select)

// Construction from components, and components written in place
template <typename T> struct p_make { static auto go(pt<T> const& a, sc<T> const& s) {
    plane<T> p{T(s), a[0], a[1], a[2]};
    p[3] = a[0];
    pga::line<T> l{a[0], a[1], a[2], T(s), p[0], p[3]};
    l[4] += T(1);
    pga::vector<T> v{a[2], a[1], a[0]};
    v[1] = T(s);
    pga::translator<T> t{T(s), v[0], v[1], v[2]};
    t[0] = a[1];
    return std::make_tuple(p, l, v, t); } }; OP(p_make)
template <typename T> struct p_mkmotor { static auto go(pt<T> const& a, sc<T> const& s) {
    motor<T> m{T(s), a[0], a[1], a[2], T(1), a[0], a[1], a[2]};
    m[4] = a[0];
    motor<T> n{m.data};
    n[0] += T(1);
    pga::rotor<T> r{T(s), a[0], a[1], a[2]};
    r[4] = a[1];
    return std::make_tuple(m, n, r); } }; OP(p_mkmotor)
} // namespace
