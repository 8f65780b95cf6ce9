// P03: element-wise operations propagate no-data exactly, for every
// combination of scalars, one- and two-dimensional arguments.
//
// PART selects the operation.
#include <cmath>
#include "grid.h"
#include "fern/algorithm/algebra/elementary/add.h"
#include "fern/algorithm/algebra/elementary/subtract.h"
#include "fern/algorithm/algebra/elementary/multiply.h"
#include "fern/algorithm/algebra/elementary/divide.h"
#include "fern/algorithm/algebra/elementary/less.h"
#include "fern/algorithm/algebra/elementary/pow.h"
#include "fern/algorithm/algebra/elementary/sqrt.h"
#include "fern/algorithm/algebra/elementary/log.h"
#include "fern/algorithm/algebra/elementary/absolute.h"
#include "fern/algorithm/algebra/elementary/factorial.h"
#include "fern/algorithm/algebra/boole/and.h"
#include "fern/algorithm/algebra/boole/not.h"
#include "fern/algorithm/core/cast.h"

namespace {

enum Outcome { VALUE, OUT_OF_DOMAIN, OUT_OF_RANGE };

#define BINARY_OP(NAME, V1_, V2_, R_, ...)                                    \
    struct NAME                                                               \
    {                                                                         \
        using V1 = V1_; using V2 = V2_; using R = R_;                         \
        static char const* name() { return #NAME; }                           \
        template<class I, class O, class E, class A, class B, class X>        \
        static void run(I const& in, O& out, E& e, A const& a, B const& b,    \
            X& r) { __VA_ARGS__(in, out, e, a, b, r); }                       \
        static Outcome eval(V1 a, V2 b, R& r);                                \
        static V1 value1(pbt::Case& c);                                       \
        static V2 value2(pbt::Case& c);                                       \
    };

template<class T>
Outcome fit(__int128 v, T& r)
{
    r = static_cast<T>(v);
    return v < std::numeric_limits<T>::min() ||
        v > std::numeric_limits<T>::max() ? OUT_OF_RANGE : VALUE;
}

#if PART == 0
BINARY_OP(add_int8_int32, int8_t, int32_t, int32_t,
    fa::algebra::add<fa::add::OutOfRangePolicy>)
Outcome add_int8_int32::eval(V1 a, V2 b, R& r)
{
    return fit<R>(__int128(a) + b, r);
}
using Op = add_int8_int32;
#elif PART == 1
BINARY_OP(divide_int32_int8, int32_t, int8_t, int32_t,
    fa::algebra::divide<fa::divide::OutOfDomainPolicy,
        fa::divide::OutOfRangePolicy>)
Outcome divide_int32_int8::eval(V1 a, V2 b, R& r)
{
    if(b == 0) { return OUT_OF_DOMAIN; }
    return fit<R>(__int128(a) / b, r);
}
using Op = divide_int32_int8;
#elif PART == 2
BINARY_OP(subtract_float_double, float, double, double,
    fa::algebra::subtract<fa::subtract::OutOfRangePolicy>)
Outcome subtract_float_double::eval(V1 a, V2 b, R& r)
{
    r = double(a) - b;
    return std::isfinite(r) ? VALUE : OUT_OF_RANGE;
}
using Op = subtract_float_double;
#elif PART == 3
BINARY_OP(multiply_uint8_double, uint8_t, double, double,
    fa::algebra::multiply<fa::multiply::OutOfRangePolicy>)
Outcome multiply_uint8_double::eval(V1 a, V2 b, R& r)
{
    r = double(a) * b;
    return std::isfinite(r) ? VALUE : OUT_OF_RANGE;
}
using Op = multiply_uint8_double;
#elif PART == 4
BINARY_OP(less_int8_double, int8_t, double, int, fa::algebra::less<>)
Outcome less_int8_double::eval(V1 a, V2 b, R& r)
{
    r = a < b;
    return VALUE;
}
using Op = less_int8_double;
#elif PART == 5
BINARY_OP(pow_double, double, double, double,
    fa::algebra::pow<fa::pow::OutOfDomainPolicy, fa::pow::OutOfRangePolicy>)
Outcome pow_double::eval(V1 a, V2 b, R& r)
{
    if((a < 0 && std::trunc(b) != b) || (a == 0 && b < 0)) {
        return OUT_OF_DOMAIN;
    }
    r = std::pow(a, b);
    return std::isfinite(r) ? VALUE : OUT_OF_RANGE;
}
using Op = pow_double;
#elif PART == 6
BINARY_OP(add_uint16_int8, uint16_t, int8_t, int32_t,
    fa::algebra::add<fa::binary::DiscardRangeErrors>)
Outcome add_uint16_int8::eval(V1 a, V2 b, R& r)
{
    r = int32_t(a) + b;
    return VALUE;
}
using Op = add_uint16_int8;
#elif PART == 7
BINARY_OP(and_float_uint8, float, uint8_t, int32_t, fa::algebra::and_<>)
Outcome and_float_uint8::eval(V1 a, V2 b, R& r)
{
    r = a != 0 && b != 0;
    return VALUE;
}
using Op = and_float_uint8;
#endif

#if PART < 8
#if PART == 5
double Op::value1(pbt::Case& c)
{
    return c.chance(1, 8) ? 1e200 : c.range(-6, 6) / 2.0;
}
double Op::value2(pbt::Case& c) { return c.range(-6, 6) / 2.0; }
#elif PART == 1
Op::V1 Op::value1(pbt::Case& c) { return gen::integer<V1>(c); }
Op::V2 Op::value2(pbt::Case& c)
{
    return static_cast<V2>(c.chance(1, 2) ? c.range(-1, 1)
        : gen::integer<V2>(c));
}
#elif PART == 4
Op::V1 Op::value1(pbt::Case& c) { return gen::any<V1>(c); }
Op::V2 Op::value2(pbt::Case& c) { return c.range(-200, 200) / 4.0; }
#else
Op::V1 Op::value1(pbt::Case& c) { return gen::any<V1>(c); }
Op::V2 Op::value2(pbt::Case& c) { return gen::any<V2>(c); }
#endif

template<class T, int D>
using Data = typename grid::Data<T, D>::type;

template<int D1, int D2>
void binary(pbt::Case& c)
{
    constexpr int D = D1 > D2 ? D1 : D2;
    using V1 = Op::V1;
    using V2 = Op::V2;
    using R = Op::R;
    grid::How how = grid::how(c);
    auto s = grid::shape(c, D);
    auto g1 = grid::grid<V1>(c, D1 == 0 ? grid::Shape() : s, Op::value1);
    auto g2 = grid::grid<V2>(c, D2 == 0 ? grid::Shape() : s, Op::value2);
    // Elements that are already marked, and values that are there already.
    auto before = grid::grid<R>(c, s, [](pbt::Case& c) {
        return static_cast<R>(c.range(50, 60)); }, false);
    c.desc() << Op::name() << "(" << D1 << "d " << grid::show(g1) << ", "
        << D2 << "d " << grid::show(g2) << ") into " << grid::show(before)
        << ", " << grid::show(how);
    auto want = before;
    bool domain = false, range = false;
    for(size_t i = 0; i < s.size(); ++i) {
        size_t i1 = D1 == 0 ? 0 : i, i2 = D2 == 0 ? 0 : i;
        if(g1.mask[i1] || g2.mask[i2]) { want.mask[i] = true; continue; }
        R r;
        switch(Op::eval(g1.values[i1], g2.values[i2], r)) {
            case VALUE: want.values[i] = r; break;
            case OUT_OF_DOMAIN: want.mask[i] = true; domain = true; break;
            default:
                // The value is the one that is out of range.
                want.mask[i] = true;
                range = true;
        }
    }
    c.nontrivial((g1.any_masked() || g2.any_masked() || domain || range) &&
        want.any_valid());
    c.label(std::to_string(D1) + "d-" + std::to_string(D2) + "d");
    if(domain) { c.label("out of domain"); }
    if(range) { c.label("out of range"); }
    auto a = grid::data<V1, D1>(g1);
    auto b = grid::data<V2, D2>(g2);
    auto r = grid::data<R, D>(before);
    grid::execute(how, [&](auto& e) {
        auto out = grid::marker(*r);
        Op::run(grid::policies(*a, *b), out, e, *a, *b, *r);
    });
    auto got = grid::read(*r, s);
    grid::compare(c, got, want, "result");
    for(size_t i = 0; i < s.size(); ++i) {
        size_t i1 = D1 == 0 ? 0 : i, i2 = D2 == 0 ? 0 : i;
        R v;
        if(want.mask[i] && (g1.mask[i1] || g2.mask[i2] || Op::eval(
                g1.values[i1], g2.values[i2], v) == OUT_OF_DOMAIN)) {
            PBT_CHECK(gen::same(got.values[i], before.values[i]), "value of "
                "no-data element " << i << " changed to "
                << pbt::show(got.values[i]));
        }
    }
    auto after1 = grid::read(*a, g1.shape);
    auto after2 = grid::read(*b, g2.shape);
    grid::compare(c, after1, g1, "first argument afterwards", true);
    grid::compare(c, after2, g2, "second argument afterwards", true);
    // Without no-data, plain numbers can take part, and no policy is needed.
    if(!g1.any_masked() && !g2.any_masked() && !domain && !range) {
        auto r2 = grid::data<R, D>(before);
        grid::execute_variant(how, [&](fa::ExecutionPolicy& e) {
            fa::DontMarkNoData out;
            fa::InputNoDataPolicies<fa::SkipNoData, fa::SkipNoData> in{{}, {}};
            if constexpr (D1 == 0 && D2 != 0) {
                Op::run(in, out, e, g1.values[0], *b, *r2);
            }
            else if constexpr (D1 != 0 && D2 == 0) {
                Op::run(in, out, e, *a, g2.values[0], *r2);
            }
            else { Op::run(in, out, e, *a, *b, *r2); }
        });
        grid::compare(c, grid::read(*r2, s), want, "without policies");
    }
}

#define NAME2(A, B) A##B
#define NAME(A, B) NAME2(A, B)
#define TARGET_OF(A, NR, RULE) PBT_TARGET(A, NR, 1, RULE)
TARGET_OF(NAME(binary_, PART), 7000, "some element of the result is no-data, "
    "and some is not")
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {binary<0, 0>, binary<0, 1>, binary<1, 0>,
        binary<1, 1>, binary<0, 2>, binary<2, 0>, binary<2, 2>};
    table[c.draw(7)](c);
}

#else

template<class T, class R>
struct UnaryOp
{
    char const* name;
    Outcome (*eval)(T, R&);
    T (*value)(pbt::Case&);
};

template<int D, class T, class R, class F>
void unary(pbt::Case& c, UnaryOp<T, R> const& op, F const& run)
{
    grid::How how = grid::how(c);
    auto s = grid::shape(c, D);
    auto g = grid::grid<T>(c, s, op.value);
    auto before = grid::grid<R>(c, s, [](pbt::Case& c) {
        return static_cast<R>(c.range(50, 60)); }, false);
    c.desc() << op.name << "(" << D << "d " << grid::show(g) << ") into "
        << grid::show(before) << ", " << grid::show(how);
    auto want = before;
    std::vector<bool> keep(s.size(), false);
    for(size_t i = 0; i < s.size(); ++i) {
        if(g.mask[i]) { want.mask[i] = keep[i] = true; continue; }
        R r;
        switch(op.eval(g.values[i], r)) {
            case VALUE: want.values[i] = r; break;
            case OUT_OF_DOMAIN:
                want.mask[i] = keep[i] = true;
                c.label("out of domain");
                break;
            default:
                want.mask[i] = true;
                c.label("out of range");
        }
    }
    c.nontrivial(want.any_masked() && want.any_valid());
    c.label(op.name);
    auto a = grid::data<T, D>(g);
    auto r = grid::data<R, D>(before);
    grid::execute(how, [&](auto& e) {
        auto out = grid::marker(*r);
        run(grid::policies(*a), out, e, *a, *r);
    });
    auto got = grid::read(*r, s);
    grid::compare(c, got, want, "result");
    for(size_t i = 0; i < s.size(); ++i) {
        if(keep[i]) {
            PBT_CHECK(gen::same(got.values[i], before.values[i]), "value of "
                "no-data element " << i << " changed to "
                << pbt::show(got.values[i]));
        }
    }
    grid::compare(c, grid::read(*a, s), g, "argument afterwards", true);
}

template<class T>
T quarter(pbt::Case& c) { return c.range(-24, 100) / T(4); }

template<int D>
void unary_any(pbt::Case& c)
{
    switch(c.draw(6)) {
        case 0:
            unary<D>(c, UnaryOp<double, double>{"sqrt",
                [](double v, double& r) {
                    if(v < 0) { return OUT_OF_DOMAIN; }
                    r = std::sqrt(v); return VALUE; }, quarter<double>},
                [](auto const& in, auto& out, auto& e, auto const& a,
                        auto& r) {
                    fa::algebra::sqrt<fa::sqrt::OutOfDomainPolicy>(in, out, e,
                        a, r); });
            break;
        case 1:
            unary<D>(c, UnaryOp<float, float>{"log",
                [](float v, float& r) {
                    if(v < 0) { return OUT_OF_DOMAIN; }
                    r = std::log(v); return VALUE; }, quarter<float>},
                [](auto const& in, auto& out, auto& e, auto const& a,
                        auto& r) {
                    fa::algebra::log<fa::log::OutOfDomainPolicy>(in, out, e,
                        a, r); });
            break;
        case 2:
            unary<D>(c, UnaryOp<int8_t, int8_t>{"absolute",
                [](int8_t v, int8_t& r) {
                    return fit<int8_t>(v < 0 ? -int(v) : int(v), r); },
                gen::any<int8_t>},
                [](auto const& in, auto& out, auto& e, auto const& a,
                        auto& r) {
                    fa::algebra::absolute<fa::absolute::OutOfRangePolicy>(in,
                        out, e, a, r); });
            break;
        case 3:
            unary<D>(c, UnaryOp<int8_t, int32_t>{"cast",
                [](int8_t v, int32_t& r) { r = v; return VALUE; },
                gen::any<int8_t>},
                [](auto const& in, auto& out, auto& e, auto const& a,
                        auto& r) {
                    fa::core::cast<fa::cast::OutOfRangePolicy>(in, out, e, a,
                        r); });
            break;
        case 4:
            unary<D>(c, UnaryOp<int32_t, int32_t>{"factorial",
                [](int32_t v, int32_t& r) {
                    if(v < 0) { return OUT_OF_DOMAIN; }
                    __int128 p = 1;
                    for(int32_t k = 2; k <= v; ++k) { p *= k; }
                    return fit<int32_t>(p, r); },
                [](pbt::Case& c) { return int32_t(c.range(-3, 16)); }},
                [](auto const& in, auto& out, auto& e, auto const& a,
                        auto& r) {
                    fa::algebra::factorial<fa::factorial::OutOfDomainPolicy,
                        fa::factorial::OutOfRangePolicy>(in, out, e, a, r);
                    });
            break;
        default:
            unary<D>(c, UnaryOp<double, int32_t>{"not",
                [](double v, int32_t& r) { r = !v; return VALUE; },
                quarter<double>},
                [](auto const& in, auto& out, auto& e, auto const& a,
                        auto& r) { fa::algebra::not_<>(in, out, e, a, r); });
    }
}

PBT_TARGET(unary, 30000, 1, "some element of the result is no-data, and some "
    "is not")
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {unary_any<0>, unary_any<1>, unary_any<2>};
    table[c.draw(3)](c);
}
#endif

} // Anonymous namespace
