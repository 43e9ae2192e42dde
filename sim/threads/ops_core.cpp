#include "ops.hpp"
#include <gal/format.hpp>
#include <gal/pga.hpp>
#include <gal/pga2.hpp>
#include <gal/vga.hpp>
using namespace gal;
// The building blocks of the library, used at run time, and the powers and node kinds that the other files leave out.
namespace
{
template <typename T> using sc  = scalar<vga::vga_algebra, T>;
template <typename T> using vec = vga::vector<T>;
#define DEF(name, params, body) template <typename T> struct name { static decltype(auto) go params { return body; } }; OP(name)

// a number between -30 and 30 taken from the bits of x
template <typename T> int small(T x)
{
    uint64_t b = 0;
    __builtin_memcpy(&b, &x, sizeof x);
    b *= 0x9e3779b97f4a7c15ull;
    return int(b >> 40) % 61 - 30;
}
template <typename T> rat ratio(T x, T y)
{
    int d = small(y);
    return {small(x), d < 0 ? 1 - d : d + 1};
}
using ints2 = std::array<int, 2>;
inline ints2 show(rat r) { return {r.num, r.den}; }

// powers as they occur in expressions
DEF(k_pow3, (sc<T> const& s), vga::compute([](auto s) { return s * s * s; }, s))
DEF(k_pow5, (sc<T> const& s), vga::compute([](auto s) { return s * s * s * s * s + s * s * s * s; }, s))
DEF(k_pow8, (sc<T> const& s), vga::compute([](auto s) { auto q = s * s; auto r = q * q; return r * r + r * q + r * q * s; }, s))
DEF(k_pow11, (sc<T> const& s), vga::compute([](auto s) { auto q = s * s; auto r = q * q; return r * r * q * s; }, s))
DEF(k_pown, (sc<T> const& s, sc<T> const& t), vga::compute([](auto s, auto t) { return 1 / (s * s * t); }, s, t))
DEF(k_root, (sc<T> const& s, sc<T> const& t), vga::compute([](auto s, auto t) { return sqrt(s * t) + t / sqrt(s); }, s, t))
DEF(k_cse, (vec<T> const& a, vec<T> const& b), vga::compute([](auto a, auto b) { auto c = a * b; return sin((c * c)[0]) * c + cos((c * c)[0]) * ~c; }, a, b))
DEF(k_pi, (sc<T> const& s), vga::compute([](auto s) { return 3 * PI * s / 7; }, s))
DEF(k_zero, (vec<T> const& v, sc<T> const& s), vga::compute([](auto z, auto s) { return z + s; }, vga::compute([](auto v) { return v ^ v; }, v), s))

template <typename T> struct k_powers { static auto go(sc<T> const& s) {
    T x = s;
    auto p = [x](auto n, auto d) { return gal::pow(x, n, d); };
#define P(n, d) p(std::integral_constant<int, n>{}, std::integral_constant<int, d>{})
    return std::make_tuple(P(1, 1), P(2, 1), P(3, 1), P(4, 1), P(5, 1), P(6, 1), P(7, 1), P(8, 1), P(9, 1), P(13, 1), P(-1, 1), P(-2, 1), P(-9, 1), P(1, 2), P(-3, 2), P(0, 1)); } }; OP(k_powers)
template <typename T> struct k_rat { static auto go(vga::vector<T> const& a, vga::vector<T> const& b) {
    rat x = ratio(a[0], a[1]), y = ratio(b[0], b[1]), z = ratio(a[2], b[2]);
    rat m = x, p = x, q = x;
    m *= y;
    p += z;
    if (y.num != 0) { q /= y; }
    rat quotient = y.num != 0 ? x / y : zero;
    return std::make_tuple(show(x + y), show(x - z), show(x * y), show(quotient), show(-x), show(3 * z), show(x / -4), show(m), show(p), show(q), int(x < y), int(x > z), int(x != y), int(x != 2),
                           int(x == x), T(x), T(z), show(detail::overflow_gate(rat{2 * x.num + 1, 2048 + z.den}))); } }; OP(k_rat)
template <typename T> struct k_bits { static auto go(sc<T> const& a, sc<T> const& b) {
    uint32_t x = uint32_t(small(T(a)) * 7919 + small(T(b))) | 1u;
    return std::make_tuple(next_pow_2(x >> 3), next_pow_2(uint64_t(x) << 7), rot32(x), leading_set_index(x), pop_count(x), next_even(x & 0xffff), detail::crc32(x), detail::crc32_8(uint8_t(x))); } }; OP(k_bits)
template <typename T> struct k_sort { static auto go(pga::line<T> const& a, pga::line<T> const& b) {
    std::array<int, 12> v{};
    for (size_t i = 0; i != 6; ++i) { v[i] = small(a[i]); v[6 + i] = small(b[i]); }
    std::array<int, 12> w = v;
    detail::sort(v.begin(), v.end());
    detail::sort(w.begin(), w.end(), [](int l, int r) { return l > r; });
    std::array<int, 3> u{small(a[0]), small(a[1]), small(b[0])};
    detail::sort(u.begin(), u.end());
    return std::make_tuple(v, w, u); } }; OP(k_sort)
template <typename T> struct k_stack { static auto go(pga::line<T> const& a) {
    detail::stack<T, 8> s;
    for (size_t i = 0; i != 6; ++i) { s.push(a[i]); }
    T top = s.peek(), third = static_cast<detail::stack<T, 8> const&>(s).peek(3), popped = s.pop(2);
    s[0] = popped;
    s.push(top);
    auto const& c = s;
    auto r = std::make_tuple(top, third, popped, c[0], c[4], c.peek(), int(s.empty()), int(s.count));
    s.clear();
    return std::tuple_cat(r, std::make_tuple(int(s.empty()))); } }; OP(k_stack)
template <typename T> struct k_tuple { static auto go(vga::vector<T> const& a, sc<T> const& s) {
    auto t = gal::make_tuple(a[0], small(a[1]), T(s));
    auto u = t.append(a[2]).push(int(7));
    auto p = u.pop();
    auto q = u.template split<2>();
    auto d = u.template split_at_type<T>();
    u.template set<1>(T(3));
    auto sum = t.apply([](T x, int y, T z) { return std::make_tuple(x, y, z); });
    auto rev = t.apply_reverse([](T x, int y, T z) { return std::make_tuple(x, y, z); });
    return std::make_tuple(u.template get<0>(), u.template get<1>(), u.template get<2>(), u.template get<3>(), u.back(), p.first, p.second.template get<0>(), q.first.template get<1>(), q.second.template get<2>(), d.first.template get<0>(),
                           d.second.template get<0>(), sum, rev, int(u.size())); } }; OP(k_tuple)

// Multivectors of polynomials
template <typename M> std::array<int, 32> shape(M const& m)
{
    std::array<int, 32> r{};
    size_t n = 0;
    auto put = [&](int v) { if (n != 32) { r[n++] = v; } };
    put(int(m.size.ind)); put(int(m.size.mon)); put(int(m.size.term));
    for (size_t i = 0; i != m.size.term; ++i) { put(int(m.terms[i].element)); put(int(m.terms[i].count)); }
    for (size_t i = 0; i != m.size.mon; ++i) { put(m.mons[i].q.num); put(m.mons[i].q.den); }
    for (size_t i = 0; i != m.size.ind; ++i) { put(int(m.inds[i].id)); }
    return r;
}
template <typename T> struct k_mv { static auto go(sc<T> const& s) {
    uint32_t id = uint32_t(small(T(s)) + 40);
    auto a = vga::vector<T>::ie(id), b = vga::vector<T>::ie(id % 3 + 1);
    auto g = detail::product(vga::vga_algebra::geometric{}, a, b);
    auto e = detail::product(vga::vga_algebra::exterior{}, a, b);
    auto sum = detail::sum(a, b);
    return std::make_tuple(shape(g), shape(e), shape(sum), shape(detail::reverse(g)), shape(detail::negate(a)), shape(detail::poincare_dual(a)), shape(g.select_grade(2))); } }; OP(k_mv)
template <typename T> struct k_debug { static auto go(sc<T> const&) {
    using E = vga::evaluate<vec<T>, vec<T>>;
    auto l = [](auto a, auto b) { return (a ^ b) * a + 2 * b; };
    auto m = E::input_map(l);
    return std::make_tuple(shape(E::ie(l)), shape(E::ie_reshaped(l)), int(E::rpnf_debug(l).count), int(m.first[0]), int(m.second.size())); } }; OP(k_debug)

// Expressions that are put together at run time
template <typename X> std::array<uint32_t, 40> nodes(X const& x)
{
    std::array<uint32_t, 40> r{};
    size_t n = 0;
    auto put = [&](uint32_t v) { if (n != 40) { r[n++] = v; } };
    put(x.count); put(uint32_t(x.q.num)); put(uint32_t(x.q.den));
    for (width_t i = 0; i != x.count; ++i) { put(uint32_t(x.nodes[i].o)); put(uint32_t(x.nodes[i].checksum)); put(uint32_t(x.nodes[i].ex)); put(uint32_t(x.nodes[i].q.num)); }
    return r;
}
template <typename T> struct k_build { static auto go(sc<T> const& s, sc<T> const& t) {
    using E = vga::evaluate<vec<T>, vec<T>, sc<T>>;
    int n = small(T(s)), m = small(T(t));
    return std::make_tuple(nodes(E::rpnf_debug([n](auto a, auto b, auto) { return n * a + b + a; })), nodes(E::rpnf_debug([n](auto a, auto b, auto) { return (a + n * b) + (b + n * a); })),
                           nodes(E::rpnf_debug([n](auto a, auto b, auto c) { return (n * a ^ b ^ a) + (c ^ (a ^ n * b)); })), nodes(E::rpnf_debug([m](auto a, auto b, auto c) { return m * ~a * b + c / 3 - (a | b); })),
                           nodes(E::rpnf_debug([m, n](auto a, auto b, auto c) { return sin(m * c) + n * a - m * a + !(n * b); })), nodes(E::rpnf_debug([m, n](auto a, auto b, auto c) { return m * a - n * a; }))); } }; OP(k_build)
template <typename T> struct k_build_text { static decltype(auto) go(sc<T> const& s) {
    using X = vga::evaluate<vec<T>, vec<T>, sc<T>>;
    int n = small(T(s));
    return to_string(X::rpnf_debug([n](auto a, auto b, auto c) { return (n * a + !b) * c + (a >> (n * b)) + scalar_product(a, n * b) / c + c * gal::E; }), false, false); } }; OP(k_build_text)

// Results of earlier evaluations as inputs
template <typename T> using ent = entity<pga::pga_algebra, T, 0, 0b11, 0b110, 0b1100, 0b1111>;
DEF(k_ent, (ent<T> const& a, ent<T> const& b), pga::compute([](auto a, auto b) { return a * b; }, a, b))
DEF(k_ent_self, (ent<T> const& a), pga::compute([](auto a) { return a; }, a))
DEF(k_ent_line, (ent<T> const& a), (std::make_tuple(pga::line<T>{a}, pga::motor<T>{a})))
template <typename T> struct k_ent_select { static auto go(ent<T> const& a) {
    return std::make_tuple(a.select(0), a.select(0b110), a.select(0b1), a.template select<0b1111>(), a.template select<0b11, 0b101, 0b1100>(), a[1], a.data()[2], int(a.size())); } }; OP(k_ent_select)
template <typename T> struct k_ent_plane { static auto go(entity<pga::pga_algebra, T, 0b1, 0b10, 0b1000, 0b111> const& a) {
    return std::make_tuple(pga::plane<T>{a}, a.select(0b100)); } }; OP(k_ent_plane)
template <typename T> struct k_ent_vga { static auto go(entity<vga::vga_algebra, T, 0b1, 0b100, 0b111> const& a, entity<vga::vga_algebra, T, 0, 0b11> const& r) {
    return std::make_tuple(vga::vector<T>{a}, vga::compute([](auto a, auto r) { return r * a * ~r; }, a, r)); } }; OP(k_ent_vga)
template <typename T> struct k_ent_pga2 { static auto go(entity<pga2::pga2_algebra, T, 0b1, 0b100, 0b110> const& a) {
    return std::make_tuple(pga2::line<T>{a}, pga2::point<T>{a}, pga2::compute([](auto a) { return a * a; }, a)); } }; OP(k_ent_pga2)
TEXT(k_ent_text, (ent<T> const& a), a)

// Text with every kind of node
template <typename T> struct k_text_all { static decltype(auto) go(sc<T> const&) {
    return to_string(vga::evaluate<vec<T>, vec<T>, sc<T>>::rpnf([](auto a, auto b, auto s) {
        return ((a ^ b) >> a) + sqrt((a | b)[0]) * sin(s) * cos(s) * tan(s) * !b / s + (a * b).select_grade(2) + 3 * PI * ~(a ^ b); }), true, false); } }; OP(k_text_all)
TEXT(k_text_big, (pga::motor<T> const& m, pga::plane<T> const& p), (pga::compute([](auto m, auto p) { return m + m * p; }, m, p)))
TEXT(k_text_sc, (sc<T> const& s), (vga::compute([](auto s) { return s / 3; }, s)))
} // namespace
