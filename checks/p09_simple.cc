// P09: cast, clamp, fill, copy and sign.
//
// PART 0: cast. PART 1: clamp. PART 2: fill, copy and sign.
#include "grid.h"
#include "fern/core/data_type_traits/point.h"
#include "fern/algorithm/core/cast.h"
#include "fern/algorithm/core/clamp.h"
#include "fern/algorithm/core/copy.h"
#include "fern/algorithm/core/fill.h"
#include "fern/algorithm/core/sign.h"

namespace {

#if PART == 0
//! Value that the target type can hold after truncation.
template<class V, class R>
V castable(pbt::Case& c)
{
    for(int i = 0; i < 20; ++i) {
        V v = gen::any<V>(c);
        if constexpr (std::is_floating_point<R>::value) {
            if(sizeof(R) < sizeof(V) && std::is_floating_point<V>::value &&
                    std::isfinite(v) && std::fabs(v) >
                        V(std::numeric_limits<R>::max())) {
                continue;
            }
            return v;
        }
        else if constexpr (std::is_floating_point<V>::value) {
            if(std::isfinite(v) && std::trunc(v) >=
                    static_cast<long double>(std::numeric_limits<R>::min()) &&
                    std::trunc(v) <=
                    static_cast<long double>(std::numeric_limits<R>::max())) {
                return v;
            }
        }
        else {
            using W = __int128;
            if(W(v) >= W(std::numeric_limits<R>::min()) &&
                    W(v) <= W(std::numeric_limits<R>::max())) {
                return v;
            }
        }
    }
    return V(1);
}

//! What the conversion gives, by another way.
template<class V, class R>
R converted(V v)
{
    if constexpr (std::is_same<R, bool>::value) { return v != V(0); }
    else if constexpr (std::is_integral<R>::value &&
            std::is_floating_point<V>::value) {
        return static_cast<R>(static_cast<__int128>(
            std::trunc(static_cast<long double>(v))));
    }
    else { return static_cast<R>(static_cast<long double>(v)); }
}

template<class V, class R, int D, bool check>
void cast_to(pbt::Case& c)
{
    auto s = grid::shape(c, D);
    auto how = grid::how(c);
    bool policies = c.chance(7, 8);
    auto g = grid::grid<V>(c, s, castable<V, R>, policies);
    auto want = grid::grid<R>(c, s, [](pbt::Case& c) {
        return static_cast<R>(c.range(50, 60)); }, false);
    c.desc() << "cast " << typeid(V).name() << " to " << typeid(R).name()
        << " " << grid::show(g) << (policies ? "" : ", without policies")
        << ", " << grid::show(how);
    auto a = grid::data<V, D>(g);
    auto r = grid::data<R, D>(want);
    for(size_t i = 0; i < s.size(); ++i) {
        if(g.mask[i]) { want.mask[i] = true; }
        else { want.values[i] = converted<V, R>(g.values[i]); }
    }
    c.nontrivial(g.any_masked() && g.any_valid());
    grid::execute_variant(how, [&](fa::ExecutionPolicy& e) {
        auto out = grid::marker(*r);
        if(!policies) { fa::core::cast(e, *a, *r); }
        else if constexpr (check) {
            fa::core::cast<fa::cast::OutOfRangePolicy>(grid::policies(*a),
                out, e, *a, *r);
        }
        else {
            fa::core::cast<fa::unary::DiscardRangeErrors>(grid::policies(*a),
                out, e, *a, *r);
        }
    });
    // Marked elements keep their values.
    grid::compare(c, grid::read(*r, s), want, "result", true);
}

template<int D>
void cast_any(pbt::Case& c)
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {
        cast_to<int32_t, double, D, false>, cast_to<double, int32_t, D, false>,
        cast_to<float, uint8_t, D, false>, cast_to<int64_t, int8_t, D, false>,
        cast_to<uint64_t, int32_t, D, false>, cast_to<int8_t, uint64_t, D, false>,
        cast_to<double, float, D, false>, cast_to<float, double, D, false>,
        cast_to<int16_t, float, D, false>, cast_to<uint32_t, int64_t, D, false>,
        cast_to<int8_t, int32_t, D, true>, cast_to<uint8_t, uint16_t, D, true>,
        cast_to<int32_t, int32_t, D, true>, cast_to<double, double, D, true>,
        cast_to<double, bool, D, false>, cast_to<int32_t, bool, D, false>,
        cast_to<bool, bool, D, true>, cast_to<bool, int32_t, D, true>,
        cast_to<bool, double, D, true>};
    table[c.draw(19)](c);
}

PBT_TARGET(cast, 40000, 1, "both no-data and valid elements")
{
    switch(c.draw(3)) {
        case 0: cast_any<0>(c); break;
        case 1: cast_any<1>(c); break;
        default: cast_any<2>(c);
    }
}

#elif PART == 1

template<class T>
T number(pbt::Case& c)
{
    if(c.chance(1, 2)) { return gen::small<T>(c); }
    T v = gen::any<T>(c);
    return v == v ? v : T(0);
}

template<class T, int D, int L, int U>
void clamp(pbt::Case& c)
{
    auto s = grid::shape(c, D);
    auto how = grid::how(c);
    auto g = grid::grid<T>(c, s, number<T>);
    auto lower = grid::grid<T>(c, L ? s : grid::Shape(), number<T>, false);
    auto upper = grid::grid<T>(c, U ? s : grid::Shape(), number<T>, false);
    // The lower bound is not above the upper bound.
    if constexpr (L != 0 && U != 0) {
        for(size_t i = 0; i < s.size(); ++i) {
            if(upper.values[i] < lower.values[i]) {
                std::swap(upper.values[i], lower.values[i]);
            }
        }
    }
    else if constexpr (L == 0) {
        for(auto& v: upper.values) {
            if(L != U) { v = std::max(v, lower.values[0]); }
            else if(v < lower.values[0]) { std::swap(v, lower.values[0]); }
        }
    }
    else {
        for(auto& v: lower.values) { v = std::min(v, upper.values[0]); }
    }
    auto want = grid::grid<T>(c, s, [](pbt::Case& c) {
        return static_cast<T>(c.range(50, 60)); }, false);
    c.desc() << "clamp " << grid::show(g) << " to [" << grid::show(lower)
        << ", " << grid::show(upper) << "], " << grid::show(how);
    auto r = grid::data<T, D>(want);
    auto plain = grid::data<T, D>(want);
    bool below = false, above = false;
    for(size_t i = 0; i < s.size(); ++i) {
        T l = lower.values[L ? i : 0], u = upper.values[U ? i : 0];
        if(g.mask[i]) { want.mask[i] = true; continue; }
        T v = g.values[i];
        below = below || v < l;
        above = above || v > u;
        want.values[i] = v < l ? l : v > u ? u : v;
    }
    c.nontrivial(below && above);
    c.label(std::to_string(D) + std::to_string(L) + std::to_string(U));
    auto a = grid::data<T, D>(g);
    auto b1 = grid::data<T, L>(lower);
    auto b2 = grid::data<T, U>(upper);
    grid::execute_variant(how, [&](fa::ExecutionPolicy& e) {
        auto out = grid::marker(*r);
        fa::core::clamp<>(grid::policies(*a, *b1, *b2), out, e, *a, *b1, *b2,
            *r);
    });
    grid::compare(c, grid::read(*r, s), want, "result", true);
    if(!g.any_masked()) {
        grid::execute_variant(how, [&](fa::ExecutionPolicy& e) {
            fa::core::clamp(e, *a, *b1, *b2, *plain); });
        grid::compare(c, grid::read(*plain, s), want, "without policies");
    }
}

PBT_TARGET(clamp, 40000, 1, "some value is too small, and some is too large")
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {
        clamp<double, 0, 0, 0>, clamp<int32_t, 0, 0, 0>,
        clamp<int32_t, 1, 1, 1>, clamp<double, 1, 1, 0>,
        clamp<uint8_t, 1, 0, 1>, clamp<float, 2, 2, 2>,
        clamp<int64_t, 2, 2, 0>, clamp<int8_t, 2, 0, 2>};
    table[c.draw(8)](c);
}

#else

template<class T, int D>
void fill(pbt::Case& c)
{
    auto s = grid::shape(c, D);
    auto how = grid::how(c);
    auto want = grid::grid<T>(c, s, gen::any<T>, false);
    T value = gen::any<T>(c);
    bool policies = c.chance(1, 2);
    fern::MaskedScalar<T> scalar(value, policies && c.chance(1, 3));
    c.desc() << "fill " << grid::show(want) << " with "
        << (scalar.mask() ? "no-data " : "") << pbt::show(value) << ", "
        << grid::show(how);
    auto r = grid::data<T, D>(want);
    for(size_t i = 0; i < s.size(); ++i) {
        if(scalar.mask()) { want.mask[i] = true; }
        else { want.values[i] = value; }
    }
    c.nontrivial(s.size() > 1);
    c.label(scalar.mask() ? "with no-data" : "with a value");
    auto run = [&](auto& e) {
        if(policies) {
            auto out = grid::marker(*r);
            fa::core::fill<>(grid::policies(scalar), out, e, value, *r);
        }
        else { fa::core::fill(e, value, *r); }
    };
    // The runtime chosen policy is supported in two dimensions.
    if constexpr (D == 1) { grid::execute_concrete(how, run); }
    else { grid::execute_variant(how, run); }
    grid::compare(c, grid::read(*r, s), want, "result", true);
}

PBT_TARGET(fill, 40000, 1, "more than one element")
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {fill<double, 1>, fill<int32_t, 1>,
        fill<uint8_t, 2>, fill<double, 2>, fill<int64_t, 2>};
    table[c.draw(5)](c);
}

template<class T>
void copy(pbt::Case& c)
{
    size_t n = gen::extent(c, 0, 60);
    grid::Shape s{1, n};
    auto how = grid::how(c);
    bool policies = c.chance(7, 8);
    auto source = grid::grid<T>(c, s, gen::any<T>, policies);
    auto want = grid::grid<T>(c, s, gen::any<T>);
    // An old mark of what is overwritten may stay; not judged.
    size_t first = c.draw(n + 1), last = first + c.draw(n - first + 1);
    size_t size = last - first;
    size_t position = c.draw(n - size + 1);
    for(size_t i = 0; policies && i < size; ++i) {
        want.mask[position + i] = false;
    }
    c.desc() << "copy [" << first << ", " << last << ") of "
        << grid::show(source) << " to " << position << " of "
        << grid::show(want) << (policies ? "" : ", without policies")
        << ", " << grid::show(how);
    auto a = grid::data<T, 1>(source);
    auto r = grid::data<T, 1>(want);
    for(size_t i = 0; i < size; ++i) {
        if(source.mask[first + i]) { want.mask[position + i] = true; }
        else { want.values[position + i] = source.values[first + i]; }
    }
    c.nontrivial(size > 1 && size < n && position != first);
    c.label(size == 0 ? "nothing" : size == n ? "everything" : "part");
    fa::IndexRanges<1> range{fa::IndexRange(first, last)};
    fern::Point<size_t, 1> where{position};
    grid::execute_variant(how, [&](fa::ExecutionPolicy& e) {
        auto out = grid::marker(*r);
        if(!policies) { fa::core::copy(e, *a, range, *r, where); }
        else {
            fa::core::copy<>(grid::policies(*a), out, e, *a, range, *r, where);
        }
    });
    grid::compare(c, grid::read(*r, s), want, "destination", true);
}

PBT_TARGET(copy, 60000, 1, "part of the elements is copied to another "
    "position")
{
    if(c.chance(1, 2)) { copy<int32_t>(c); }
    else { copy<double>(c); }
}

template<class T>
void sign(pbt::Case& c)
{
    T v = gen::any<T>(c);
    if(v != v) { c.discard(); }
    c.desc() << "sign " << pbt::show(v);
    c.nontrivial(v < T(0) || v == T(0));
    PBT_EQ(fa::sign(v), v < T(0) ? -1 : 1, "sign");
}

PBT_TARGET(sign, 40000, 1, "negative value or zero")
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {sign<int8_t>, sign<int32_t>, sign<int64_t>,
        sign<uint8_t>, sign<uint64_t>, sign<float>, sign<double>};
    table[c.draw(7)](c);
}
#endif

} // Anonymous namespace
