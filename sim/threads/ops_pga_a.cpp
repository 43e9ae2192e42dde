#include "ops.hpp"
#include <gal/format.hpp>
#include <gal/pga.hpp>
#include <gal/vga.hpp>
using namespace gal;
using namespace gal::pga;
namespace
{
template <typename T> using sc = scalar<pga_algebra, T>;
template <typename T> using pt = vga::point<T>;
using pga::compute;
#define DEF(name, params, body) template <typename T> struct name { static decltype(auto) go params { return body; } }; OP(name)

template <typename L> constexpr auto normalized_line(L l)
{
    auto norm = sqrt(l[0b110] * l[0b110] + l[0b1010] * l[0b1010] + l[0b1100] * l[0b1100]);
    return l / norm;
}
template <typename T, typename L> constexpr auto mk_rotor(T ang, L l) { return cos(ang / 2) + sin(ang / 2) * normalized_line(l); }
template <typename T, typename L> constexpr auto mk_translator(T d, L l) { return 1 + d / 2 * l; }
template <typename T, typename L> constexpr auto circle(T t, T r, L l) { return mk_rotor(2 * PI * t, l) * mk_translator(r, -1_e01); }
template <typename T, typename L> constexpr auto torus(T s, T t, T r1, L l1, T r2, L l2) { return circle(s, r2, l2) * circle(t, r1, l1); }

DEF(p_translate, (pt<T> const& p, sc<T> const& d), (pt<T>{pga::compute([](auto p, auto d) { auto t = mk_translator(d, -1_e01); return t * p * ~t; }, p, d)}))
DEF(p_linenorm, (sc<T> const& a), compute([](auto a) { return normalized_line(1_e12 + 1_e13); }, a))
DEF(p_half, (sc<T> const& a), compute([](auto a) { return a / 2; }, a))
DEF(p_mkrotor, (sc<T> const& a), compute([](auto a) { return mk_rotor(a, 1_e12); }, a))
DEF(p_rotpoint, (pt<T> const& p, sc<T> const& a), (pt<T>{pga::compute([](auto p, auto a) { auto r = mk_rotor(a, 1_e12); return r * p * ~r; }, p, a)}))
DEF(p_rotline, (sc<T> const& a), compute([](auto a) { auto r = mk_rotor(a, 1_e12); auto l = 1_e123 & (1_e123 - 1_e023); return r * l * ~r; }, a))
DEF(p_rotplane, (sc<T> const& a, plane<T> const& p), compute([](auto a, auto p) { auto r = mk_rotor(a, 1_e12); return r * p * ~r; }, a, p))
DEF(p_circle, (sc<T> const& a, sc<T> const& r), compute([](auto a, auto r) { auto rr = cos(2 * PI * a / 2) + sin(2 * PI * a / 2) * normalized_line(1_e12); return rr * (1 + r * 1_e12 / 2); }, a, r))
DEF(p_torus, (sc<T> const& s, sc<T> const& t, sc<T> const& r1, sc<T> const& r2), compute([](auto s, auto t, auto r1, auto r2) { auto to = torus(s, t, r1, 1_e12, r2, 1_e13); return to * 1_e123 * ~to; }, s, t, r1, r2))
DEF(p_join2, (pt<T> const& p, pt<T> const& q), (line<T>{pga::compute([](auto p, auto q) { return p & q; }, p, q)}))
DEF(p_bnorm, (line<T> const& l), compute([](auto l) { return (l | l) + (l ^ l); }, l))
DEF(p_exp, (pt<T> const& p, pt<T> const& q), pga::compute([](auto p, auto q) { auto l = q & p; return exp(l); }, p, q))
DEF(p_explog, (line<T> const& l), (motor<T>{compute([](auto l) { return exp(l); }, l)}))
TEXT(p_text, (motor<T> const& a, motor<T> const& b), (compute([](auto a, auto b) { return a * b; }, a, b)))
TEXT(p_text1, (line<T> const& l), (compute([](auto l) { return (l | l)[0]; }, l)))
TEXT(p_text0, (plane<T> const& p), (compute([](auto p) { return p ^ p; }, p)))
TEXT(p_textpt, (point<T> const& p), (p))
template <typename T> struct p_text_rpn { static decltype(auto) go(line<T> const&) {
    return to_string(evaluate<line<T>>::rpnf_reshaped([](auto l) { return ((l | l) + (l ^ l)) * exp(l); }), true, true); } }; OP(p_text_rpn)
} // namespace
