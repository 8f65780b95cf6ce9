// P07: boolean operations follow two-valued logic with C++ truth.
//
// PART 0..4: and, or, xor, nor, xnor; PART 5: not and defined.
#include <cmath>
#include "grid.h"
#include "fern/algorithm/algebra/boole/and.h"
#include "fern/algorithm/algebra/boole/defined.h"
#include "fern/algorithm/algebra/boole/nor.h"
#include "fern/algorithm/algebra/boole/not.h"
#include "fern/algorithm/algebra/boole/or.h"
#include "fern/algorithm/algebra/boole/xnor.h"
#include "fern/algorithm/algebra/boole/xor.h"

namespace {

//! Zeros, ones, and non-zero values that a narrowing or truncating
//! conversion turns into zero.
template<class T>
T truth(pbt::Case& c)
{
    using L = std::numeric_limits<T>;
    if constexpr (std::is_same<T, bool>::value) { return c.chance(1, 2); }
    else if constexpr (std::is_floating_point<T>::value) {
        return c.pick<T>({T(0), T(1), T(-0.0), T(0.25), T(-0.75), T(-1),
            L::denorm_min(), L::min(), L::quiet_NaN(), L::infinity(), T(256),
            T(65536), L::lowest(), T(2)});
    }
    else {
        if(c.chance(1, 3)) { return T(0); }
        if(c.chance(1, 3)) { return gen::any<T>(c); }
        return c.pick<T>({T(1), T(2), T(-1), T(uint64_t(1) << (L::digits - 1)),
            L::max(), L::min(), sizeof(T) > 1 ? T(256) : T(4),
            sizeof(T) > 2 ? T(65536) : T(6)});
    }
}

template<class T>
bool is_true(T v) { return v != T(0); }

#if PART < 5

struct Op
{
    template<class I, class O, class E, class A, class B, class R>
    static void run(I const& in, O& out, E& e, A const& a, B const& b, R& r)
    {
#if PART == 0
        fa::algebra::and_<>(in, out, e, a, b, r);
#elif PART == 1
        fa::algebra::or_<>(in, out, e, a, b, r);
#elif PART == 2
        fa::algebra::xor_<>(in, out, e, a, b, r);
#elif PART == 3
        fa::algebra::nor<>(in, out, e, a, b, r);
#else
        fa::algebra::xnor<>(in, out, e, a, b, r);
#endif
    }

    template<class E, class A, class B, class R>
    static void run(E& e, A const& a, B const& b, R& r)
    {
#if PART == 0
        fa::algebra::and_<>(e, a, b, r);
#elif PART == 1
        fa::algebra::or_<>(e, a, b, r);
#elif PART == 2
        fa::algebra::xor_<>(e, a, b, r);
#elif PART == 3
        fa::algebra::nor<>(e, a, b, r);
#else
        fa::algebra::xnor<>(e, a, b, r);
#endif
    }

    static bool eval(bool a, bool b)
    {
        return PART == 0 ? a && b : PART == 1 ? a || b : PART == 2 ? a != b
            : PART == 3 ? !(a || b) : a == b;
    }

    static char const* name()
    {
        static char const* const names[] = {"and", "or", "xor", "nor", "xnor"};
        return names[PART];
    }
};

template<int D1, int D2, class A, class B, class R>
void binary(pbt::Case& c)
{
    constexpr int D = D1 > D2 ? D1 : D2;
    auto how = grid::how(c);
    auto s = grid::shape(c, D);
    bool policies = c.chance(3, 4);
    auto g1 = grid::grid<A>(c, D1 ? s : grid::Shape(), truth<A>, policies);
    auto g2 = grid::grid<B>(c, D2 ? s : grid::Shape(), truth<B>, policies);
    c.desc() << Op::name() << "(" << D1 << "d " << typeid(A).name()
        << grid::show(g1) << ", " << D2 << "d " << typeid(B).name()
        << grid::show(g2) << ") into " << typeid(R).name() << ", "
        << grid::show(how);
    auto want = grid::grid<R>(c, s, [](pbt::Case&) { return R(true); }, false);
    for(size_t i = 0; i < s.size(); ++i) {
        size_t i1 = D1 ? i : 0, i2 = D2 ? i : 0;
        if(g1.mask[i1] || g2.mask[i2]) { want.mask[i] = true; }
        else {
            want.values[i] = R(Op::eval(is_true<A>(g1.values[i1]),
                is_true<B>(g2.values[i2])));
        }
    }
    c.nontrivial(want.any_valid());
    auto a = grid::data<A, D1>(g1);
    auto b = grid::data<B, D2>(g2);
    auto r = grid::blank<R, D>(s, R(true));
    grid::execute_variant(how, [&](auto& e) {
        if(policies) {
            auto out = grid::marker(*r);
            Op::run(grid::policies(*a, *b), out, e, *a, *b, *r);
        }
        else { Op::run(e, *a, *b, *r); }
    });
    grid::compare(c, grid::read(*r, s), want, "result", true);
}

template<class A, class B, class R>
void dimensions(pbt::Case& c)
{
    switch(c.draw(7)) {
        case 0: binary<0, 0, A, B, R>(c); break;
        case 1: binary<0, 1, A, B, R>(c); break;
        case 2: binary<1, 0, A, B, R>(c); break;
        case 3: binary<1, 1, A, B, R>(c); break;
        case 4: binary<0, 2, A, B, R>(c); break;
        case 5: binary<2, 0, A, B, R>(c); break;
        case 6: binary<2, 2, A, B, R>(c); break;
    }
}

#else

template<int D, class A, class R>
void not_(pbt::Case& c)
{
    auto how = grid::how(c);
    auto s = grid::shape(c, D);
    bool policies = c.chance(3, 4);
    auto g = grid::grid<A>(c, s, truth<A>, policies);
    c.desc() << "not(" << D << "d " << typeid(A).name() << grid::show(g)
        << ") into " << typeid(R).name() << ", " << grid::show(how);
    auto want = grid::grid<R>(c, s, [](pbt::Case&) { return R(true); }, false);
    for(size_t i = 0; i < s.size(); ++i) {
        if(g.mask[i]) { want.mask[i] = true; }
        else { want.values[i] = R(!is_true<A>(g.values[i])); }
    }
    c.nontrivial(want.any_valid());
    auto a = grid::data<A, D>(g);
    auto r = grid::blank<R, D>(s, R(true));
    grid::execute_variant(how, [&](auto& e) {
        if(policies) {
            auto out = grid::marker(*r);
            fa::algebra::not_<>(grid::policies(*a), out, e, *a, *r);
        }
        else { fa::algebra::not_<>(e, *a, *r); }
    });
    grid::compare(c, grid::read(*r, s), want, "result", true);
}

template<int D, class A, class R>
void defined(pbt::Case& c)
{
    auto how = grid::how(c);
    auto s = grid::shape(c, D);
    auto g = grid::grid<A>(c, s, truth<A>);
    bool self = c.chance(1, 3), skip = c.chance(1, 6);
    c.desc() << "defined(" << D << "d " << typeid(A).name() << grid::show(g)
        << ") into " << typeid(R).name()
        << (self ? ", reading the result's own mask" : "")
        << (skip ? ", skipping no-data" : "") << ", " << grid::show(how);
    auto before = grid::grid<R>(c, s, [](pbt::Case& c) {
        return R(c.range(0, 3)); });
    auto want = before;
    auto const& mask = self ? before.mask : g.mask;
    bool yes = false, no = false;
    for(size_t i = 0; i < s.size(); ++i) {
        want.values[i] = R(skip || !mask[i]);
        (mask[i] ? no : yes) = true;
    }
    c.nontrivial(yes && no);
    auto a = grid::data<A, D>(g);
    auto r = grid::data<R, D>(before);
    grid::execute_concrete(how, [&](auto& e) {
        if(skip) { fa::algebra::defined<>(e, *r); }
        else if(self) { fa::algebra::defined<>(grid::policies(*r), e, *r); }
        else { fa::algebra::defined<>(grid::policies(*a), e, *r); }
    });
    grid::compare(c, grid::read(*r, s), want, "result", true);
}

#endif

} // namespace

#define RULE "valid elements"
#if PART < 5
PBT_TARGET(int32_into_bool, 6000, 1, RULE)
    { dimensions<int32_t, int32_t, bool>(c); }
PBT_TARGET(bool_double_into_int32, 6000, 1, RULE)
    { dimensions<bool, double, int32_t>(c); }
PBT_TARGET(float_uint8_into_double, 6000, 1, RULE)
    { dimensions<float, uint8_t, double>(c); }
PBT_TARGET(uint64_int8_into_uint8, 6000, 1, RULE)
    { dimensions<uint64_t, int8_t, uint8_t>(c); }
PBT_TARGET(int16_int64_into_float, 6000, 1, RULE)
    { dimensions<int16_t, int64_t, float>(c); }
PBT_TARGET(bool_bool_into_bool, 6000, 1, RULE)
    { dimensions<bool, bool, bool>(c); }
PBT_TARGET(bool_bool_into_float, 6000, 1, RULE)
    { dimensions<bool, bool, float>(c); }
#else
#define NOT(NAME, A, R) PBT_TARGET(NAME, 6000, 1, RULE)                       \
    { switch(c.draw(3)) { case 0: not_<0, A, R>(c); break;                    \
        case 1: not_<1, A, R>(c); break; default: not_<2, A, R>(c); } }
NOT(not_bool_into_bool, bool, bool)
NOT(not_double_into_uint8, double, uint8_t)
NOT(not_int64_into_int32, int64_t, int32_t)
NOT(not_uint16_into_float, uint16_t, float)
#define DEFINED(NAME, A, R) PBT_TARGET(NAME, 6000, 1,                         \
    "no-data and valid elements")                                             \
    { switch(c.draw(3)) { case 0: defined<0, A, R>(c); break;                 \
        case 1: defined<1, A, R>(c); break; default: defined<2, A, R>(c); } }
DEFINED(defined_int32_into_bool, int32_t, bool)
DEFINED(defined_double_into_uint8, double, uint8_t)
DEFINED(defined_uint8_into_double, uint8_t, double)
#endif
