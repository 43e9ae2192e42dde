#include "ops.hpp"
#include <gal/format.hpp>
#include <gal/vga.hpp>
using namespace gal;
namespace
{
template <typename T> using vec = vga::vector<T>;
template <typename T> using rot = vga::rotor<T>;
template <typename T> using sc  = scalar<vga::vga_algebra, T>;
using vga::compute;
using vga::operator""_e0;
using vga::operator""_e01;
using vga::operator""_ps;

#define DEF(name, params, body) template <typename T> struct name { static decltype(auto) go params { return body; } }; OP(name)

DEF(v_reflect, (vec<T> const& a, vec<T> const& b), compute([](auto a, auto b) { return a % b; }, a, b))
DEF(v_gp, (vec<T> const& a, vec<T> const& b), compute([](auto a, auto b) { return a * b; }, a, b))
DEF(v_wedge, (vec<T> const& a, vec<T> const& b), compute([](auto a, auto b) { return a ^ b; }, a, b))
DEF(v_dot, (vec<T> const& a, vec<T> const& b), compute([](auto a, auto b) { return a | b; }, a, b))
DEF(v_contract, (vec<T> const& a, vec<T> const& b, vec<T> const& c), compute([](auto a, auto b, auto c) { return a >> (b ^ c); }, a, b, c))
DEF(v_triple, (vec<T> const& a, vec<T> const& b, vec<T> const& c), compute([](auto a, auto b, auto c) { return a ^ b ^ c; }, a, b, c))
DEF(v_dual, (vec<T> const& a, vec<T> const& b), compute([](auto a, auto b) { return !(a ^ b); }, a, b))
DEF(v_sum, (vec<T> const& a, vec<T> const& b), (vec<T>{compute([](auto a, auto b) { return a + 2 * b - 3 * a; }, a, b)}))
DEF(v_rotate, (rot<T> const& r, vec<T> const& v), (vec<T>{compute([](auto r, auto v) { return r * v * ~r; }, r, v)}))
DEF(v_rotate2, (rot<T> const& r1, rot<T> const& r2, vec<T> const& v), (vec<T>{compute([](auto r1, auto r2, auto v) { auto r = r1 * r2; return v % r; }, r1, r2, v)}))
DEF(v_compose, (rot<T> const& r1, rot<T> const& r2), compute([](auto r1, auto r2) { return r1 * r2; }, r1, r2))
DEF(v_const, (rot<T> const& r), compute([](auto r) { return ~1_e01; }, r))
DEF(v_zero, (vec<T> const& v), compute([](auto v) { return v ^ v; }, v))
DEF(v_scale, (sc<T> const& s, vec<T> const& v), compute([](auto s, auto v) { return s * v / 3; }, s, v))
DEF(v_invscale, (sc<T> const& s, vec<T> const& v), compute([](auto s, auto v) { return v / s; }, s, v))
DEF(v_len, (vec<T> const& v), compute([](auto v) { return sqrt((v | v)[0]); }, v))
DEF(v_unit, (vec<T> const& v), compute([](auto v) { return v / sqrt((v | v)[0]); }, v))
DEF(v_trig, (sc<T> const& s), compute([](auto s) { return sin(s) + cos(2 * s) + tan(s / 3); }, s))
DEF(v_sin, (sc<T> const& s), compute([](auto s) { return sin(s); }, s))
DEF(v_cos, (sc<T> const& s), compute([](auto s) { return cos(s); }, s))
DEF(v_tan, (sc<T> const& s), compute([](auto s) { return tan(s); }, s))
DEF(v_sqrt, (sc<T> const& s), compute([](auto s) { return sqrt(s); }, s))
DEF(v_inv, (sc<T> const& s), compute([](auto s) { return 1 / s; }, s))
DEF(v_number, (vec<T> const& v, T const& s), compute([](auto v, auto s) { return s * v; }, v, s))
DEF(v_number2, (vec<T> const& v, vec<T> const& w, T const& s), compute([](auto v, auto w, auto s) { return sin(s) * v + s * w / 2; }, v, w, s))
DEF(v_many, (rot<T> const& a, rot<T> const& b, rot<T> const& c, rot<T> const& d, vec<T> const& v, vec<T> const& w), compute([](auto a, auto b, auto c, auto d, auto v, auto w) { return a * v + b * w + c * v + d * w; }, a, b, c, d, v, w))
DEF(v_self, (vec<T> const& v), compute([](auto v) { return v; }, v))
DEF(v_selfs, (vec<T> const& v, sc<T> const& s), compute([](auto v, auto s) { return s; }, v, s))
DEF(v_pi, (sc<T> const& s), compute([](auto s) { return sin(2 * PI * s); }, s))
DEF(v_tuple, (vec<T> const& a, vec<T> const& b), compute([](auto a, auto b) { return gal::make_tuple(a * b, a ^ b, b + a); }, a, b))
DEF(v_tuple2, (rot<T> const& r, vec<T> const& v), compute([](auto r, auto v) { return gal::make_tuple(r * v, v | v); }, r, v))
DEF(v_grade, (vec<T> const& a, vec<T> const& b), compute([](auto a, auto b) { return (a * b).select_grade(2); }, a, b))
DEF(v_elem, (vec<T> const& a, vec<T> const& b), compute([](auto a, auto b) { return (a * b)[0b11]; }, a, b))

template <typename T> struct v_normalize { static auto go(vec<T> const& v) { vec<T> r = v; r.normalize(); return r; } }; OP(v_normalize)
template <typename T> struct v_rnormalize { static auto go(rot<T> const& v) { rot<T> r = v; r.normalize(); return r; } }; OP(v_rnormalize)
template <typename T> struct v_mkrotor { static auto go(vec<T> const& v, sc<T> const& s) { return rot<T>{T(s), v.x, v.y, v[2]}; } }; OP(v_mkrotor)
template <typename T> struct v_select { static auto go(vec<T> const& a, vec<T> const& b) {
    auto e = compute([](auto a, auto b) { return a * b; }, a, b);
    auto const& c = e;
    T* p = e.select(0b11);
    T* q = e.select(0b111);
    return std::make_tuple(c.select(0), c.template select<0b101, 0b1, 0b110>(), *p, q == nullptr ? T(1) : T(2), c[1], c.template select<0b110>()); } }; OP(v_select)
template <typename T> struct v_mutate { static auto go(vec<T> const& a, vec<T> const& b) {
    auto e = compute([](auto a, auto b) { return a ^ b; }, a, b);
    for (auto& x : e) { x += T(1); }
    e[0] *= T(2);
    return compute([](auto e, auto b) { return e * b; }, e, b); } }; OP(v_mutate)
template <typename T> struct v_point { static auto go(vga::point<T> const& p, vga::point<T> const& q) {
    pga::point<T> a = p, b = q;
    auto l = pga::compute([](auto a, auto b) { return a & b; }, a, b);
    return l; } }; OP(v_point)
template <typename T> struct v_pointback { static auto go(pga::point<T> const& p, pga::translator<T> const& t) {
    return vga::point<T>{pga::compute([](auto p, auto t) { return t * p * ~t; }, p, t)}; } }; OP(v_pointback)
template <typename T> struct v_pointjoin { static auto go(vga::point<T> const& p, vga::point<T> const& q, vga::point<T> const& r) {
    return pga::plane<T>{pga::compute([](auto p, auto q, auto r) { return p & q & r; }, p, q, r)}; } }; OP(v_pointjoin)

TEXT(v_text, (vec<T> const& a, vec<T> const& b), (compute([](auto a, auto b) { return a * b; }, a, b)))
template <typename T> struct v_text_rpn { static decltype(auto) go(vec<T> const&) {
    return to_string(vga::evaluate<vec<T>, vec<T>>::rpnf([](auto a, auto b) { return (a + 2 * b) * ~(a ^ b); })); } }; OP(v_text_rpn)
// Construction from components, and components written in place
template <typename T> struct v_make { static auto go(vec<T> const& a, sc<T> const& s) {
    vec<T> v{a[1], T(s), a[0]};
    v[2] += a[2];
    vga::point<T> p{v[0], a[2], T(s)};
    p[1] = v[1];
    rot<T> r{a[0], a[1], a[2], T(s)};
    r[0] = a[1];
    sc<T> t{a[2]};
    t[0] += T(1);
    return std::make_tuple(v, p, r, t[0]); } }; OP(v_make)
} // namespace
