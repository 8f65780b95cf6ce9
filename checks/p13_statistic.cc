// P13: statistics of an array equal those of its valid elements.
//
// PART 0: sum and mean. PART 1: minimum, maximum and count. PART 2:
// element-wise minimum and maximum.
#include "grid.h"
#include "fern/algorithm/statistic/sum.h"
#include "fern/algorithm/statistic/mean.h"
#include "fern/algorithm/statistic/count.h"
#include "fern/algorithm/statistic/unary_min.h"
#include "fern/algorithm/statistic/unary_max.h"
#include "fern/algorithm/statistic/binary_min.h"
#include "fern/algorithm/statistic/binary_max.h"

namespace {

template<class T>
T finite(pbt::Case& c)
{
    T v = gen::any<T>(c);
    if constexpr (std::is_floating_point<T>::value) {
        if(!std::isfinite(v)) { return T(1); }
    }
    return v;
}

//! Infinities are values as well; sometimes there are no others.
template<class T>
auto ordered(pbt::Case& c)
{
    size_t const kind = c.weighted({8, 1, 1});
    return [kind](pbt::Case& c) -> T {
        if constexpr (std::is_floating_point<T>::value) {
            T const infinity = std::numeric_limits<T>::infinity();
            if(kind == 1) { return c.chance(9, 10) ? infinity : -infinity; }
            if(kind == 2) { return c.chance(9, 10) ? -infinity : T(1); }
            T v = gen::any<T>(c);
            return v == v ? v : T(1);
        }
        else {
            return gen::any<T>(c);
        }
    };
}

//! Larger shapes than usual: more elements than a value type can count.
inline grid::Shape statistic_shape(pbt::Case& c, int dims)
{
    if(dims && c.chance(1, 40)) {
        return dims == 1 ? grid::Shape{1, c.size(200, 300)}
            : grid::Shape{c.size(10, 20), c.size(13, 20)};
    }
    return grid::shape(c, dims);
}

#define RULE "valid elements and no-data, or no-data in whole blocks"

#if PART == 0

template<class T, int D, bool mean>
void sum(pbt::Case& c)
{
    constexpr bool real = std::is_floating_point<T>::value;
    using L = std::numeric_limits<T>;
    auto s = statistic_shape(c, D);
    auto how = grid::how(c);
    size_t mode = c.weighted({4, 2, 1});
    bool policies = c.chance(7, 8);
    auto g = grid::grid<T>(c, s, [mode](pbt::Case& c) -> T {
        if(mode == 0) { return gen::small<T>(c); }
        if(mode == 1) { return gen::any<T>(c); }
        // Near the limits, or cancelling out.
        T v = c.pick<T>({L::max(), T(L::max() / 2), T(0), L::lowest(),
            T(L::lowest() / 2), T(1)});
        return v;
    }, policies);
    bool check = policies && c.chance(2, 3);
    c.desc() << (mean ? "mean" : "sum") << " of " << typeid(T).name() << " "
        << grid::show(g) << (check ? ", checking the range" : "")
        << (policies ? "" : ", without policies") << ", " << grid::show(how);
    auto a = grid::data<T, D>(g);
    fern::MaskedScalar<T> r(T(55), false);
    grid::execute_variant(how, [&](fa::ExecutionPolicy& e) {
        auto out = grid::marker(r);
        if constexpr (mean) {
            if(!policies) { fa::statistic::mean(e, *a, r); }
            else if(check) {
                fa::statistic::mean<fa::mean::OutOfRangePolicy>(
                    grid::policies(*a), out, e, *a, r);
            }
            else {
                fa::statistic::mean<fa::binary::DiscardRangeErrors>(
                    grid::policies(*a), out, e, *a, r);
            }
        }
        else {
            if(!policies) { fa::statistic::sum(e, *a, r); }
            else if(check) {
                fa::statistic::sum<fa::sum::OutOfRangePolicy>(
                    grid::policies(*a), out, e, *a, r);
            }
            else {
                fa::statistic::sum<fa::binary::DiscardRangeErrors>(
                    grid::policies(*a), out, e, *a, r);
            }
        }
    });
    grid::compare(c, grid::read(*a, s), g, "argument", true);

    // Sums of the positive and of the negative values: every partial sum is
    // between these.
    using W = std::conditional_t<real, long double, __int128>;
    W positive = 0, negative = 0;
    size_t n = 0;
    bool all_finite = true;
    for(size_t i = 0; i < s.size(); ++i) {
        if(g.mask[i]) { continue; }
        ++n;
        if constexpr (real) {
            if(!std::isfinite(g.values[i])) { all_finite = false; continue; }
        }
        if(g.values[i] > 0) { positive += g.values[i]; }
        else { negative += g.values[i]; }
    }
    c.nontrivial(g.any_masked() && n > 1);
    if(n == 0 && !policies) { return; }
    if(n == 0) {
        c.label("no valid elements");
        PBT_CHECK(r.mask(), "without valid elements the result is "
            << pbt::show(r.value()) << ", want no-data");
        PBT_EQ(r.value(), T(55), "value of the no-data result");
        return;
    }
    W total = positive + negative;
    W lowest = W(L::lowest()), highest = W(L::max());
    bool fits, certain;
    if constexpr (real) {
        W margin = highest * W(n + 2) * W(L::epsilon());
        certain = positive <= highest - margin && -negative <=
            highest - margin;
        fits = total <= highest + margin && total >= lowest - margin;
        if(!all_finite) { certain = fits = false; }
    }
    else {
        certain = positive <= highest && negative >= lowest;
        fits = total >= lowest && total <= highest;
    }
    c.label(certain ? "in range" : fits ? "depends on the order"
        : "out of range");
    if(!check) {
        PBT_CHECK(!r.mask(), "range is not checked, but the result is "
            "no-data");
        if(real && !certain) { return; }
        if(mean && !certain) { return; }
    }
    else {
        if(certain) {
            PBT_CHECK(!r.mask(), "result is no-data, but the sum "
                << static_cast<long double>(total) << " fits");
        }
        if(!fits) {
            PBT_CHECK(r.mask(), "result is " << pbt::show(r.value())
                << ", but the sum " << static_cast<long double>(total)
                << " does not fit");
        }
        if(r.mask()) { return; }
    }
    if constexpr (real) {
        W want = mean ? total / n : total;
        W tolerance = (positive - negative) * W(n + 2) * W(L::epsilon()) /
            (mean ? n : 1) + W(L::denorm_min());
        if(mode == 0 && !mean) { tolerance = 0; }
        PBT_CHECK(std::fabs(W(r.value()) - want) <= tolerance, "got "
            << pbt::show(r.value()) << ", want " << want);
    }
    else if constexpr (mean) {
        PBT_EQ(r.value(), static_cast<T>(total / static_cast<W>(n)),
            "mean of integers");
    }
    else { PBT_EQ(r.value(), static_cast<T>(total), "sum of integers"); }
}

template<bool mean>
void any(pbt::Case& c)
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {
        sum<int32_t, 0, mean>, sum<double, 0, mean>,
        sum<int8_t, 1, mean>, sum<double, 1, mean>, sum<uint64_t, 1, mean>,
        sum<int8_t, 2, mean>, sum<uint8_t, 2, mean>, sum<int32_t, 2, mean>,
        sum<int64_t, 2, mean>, sum<float, 2, mean>, sum<double, 2, mean>};
    table[c.draw(11)](c);
}

PBT_TARGET(sum, 60000, 1, RULE) { any<false>(c); }
PBT_TARGET(mean, 60000, 1, RULE) { any<true>(c); }

#elif PART == 1

template<class T, int D>
void extreme(pbt::Case& c)
{
    auto s = statistic_shape(c, D);
    auto how = grid::how(c);
    bool policies = c.chance(7, 8);
    auto g = grid::grid<T>(c, s, ordered<T>(c), policies);
    bool minimum = c.chance(1, 2);
    c.desc() << (minimum ? "minimum" : "maximum") << " of "
        << typeid(T).name() << " " << grid::show(g)
        << (policies ? "" : ", without policies") << ", " << grid::show(how);
    auto a = grid::data<T, D>(g);
    grid::Grid<T> want{{1, 1}, {T(55)}, {true}};
    fern::MaskedScalar<T> r(T(55), false);
    size_t n = 0;
    for(size_t i = 0; i < s.size(); ++i) {
        if(g.mask[i]) { continue; }
        T v = g.values[i];
        if(n++ == 0 || (minimum ? v < want.values[0] : v > want.values[0])) {
            want.values[0] = v;
        }
        want.mask[0] = false;
    }
    c.nontrivial(g.any_masked() && n > 1);
    grid::execute_variant(how, [&](fa::ExecutionPolicy& e) {
        auto out = grid::marker(r);
        if(!policies) {
            if(minimum) { fa::statistic::unary_min(e, *a, r); }
            else { fa::statistic::unary_max(e, *a, r); }
        }
        else if(minimum) {
            fa::statistic::unary_min<>(grid::policies(*a), out, e, *a, r);
        }
        else { fa::statistic::unary_max<>(grid::policies(*a), out, e, *a, r); }
    });
    if(policies || n > 0) {
        grid::compare(c, grid::read(r, {}), want, "result", true);
    }
    grid::compare(c, grid::read(*a, s), g, "argument", true);
}

PBT_TARGET(extreme, 60000, 1, RULE)
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {
        extreme<int32_t, 0>, extreme<uint8_t, 1>, extreme<double, 1>,
        extreme<int8_t, 2>, extreme<int64_t, 2>, extreme<uint64_t, 2>,
        extreme<float, 2>, extreme<double, 2>};
    table[c.draw(8)](c);
}

template<class T, int D, class R>
void count(pbt::Case& c)
{
    auto s = statistic_shape(c, D);
    auto how = grid::how(c);
    // Few different values, so that there is something to count.
    auto g = grid::grid<T>(c, s, [](pbt::Case& c) {
        return static_cast<T>(c.range(0, 3)); });
    T value = static_cast<T>(c.range(0, 4));
    bool policies = !c.chance(1, 5);
    c.desc() << "count " << pbt::show(value) << " in " << typeid(T).name()
        << " " << grid::show(g) << (policies ? "" : " without no-data")
        << ", " << grid::show(how);
    auto a = grid::data<T, D>(g);
    size_t n = 0, valid = 0;
    for(size_t i = 0; i < s.size(); ++i) {
        if(policies && g.mask[i]) { continue; }
        ++valid;
        n += g.values[i] == value;
    }
    c.nontrivial(policies && g.any_masked() && n > 1);
    c.label(valid == 0 ? "no valid elements" : "valid elements");
    fern::MaskedScalar<R> r(R(55), false);
    R plain{55};
    grid::execute_variant(how, [&](fa::ExecutionPolicy& e) {
        if(policies) {
            auto out = grid::marker(r);
            using P = decltype(grid::detect(*a));
            fa::statistic::count<>(fa::InputNoDataPolicies<P, fa::SkipNoData>{
                grid::detect(*a), {}}, out, e, *a, value, r);
        }
        else { fa::statistic::count(e, *a, value, plain); }
    });
    if(!policies) {
        PBT_EQ(plain, valid == 0 ? R(55) : static_cast<R>(n), "count");
        return;
    }
    PBT_EQ(r.mask(), valid == 0, "result is no-data");
    PBT_EQ(r.value(), valid == 0 ? R(55) : static_cast<R>(n), "count");
    grid::compare(c, grid::read(*a, s), g, "argument", true);
}

PBT_TARGET(count, 60000, 1, RULE)
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {
        count<int32_t, 0, uint64_t>, count<uint8_t, 1, int32_t>,
        count<double, 1, uint64_t>, count<int32_t, 2, int64_t>,
        count<float, 2, uint32_t>, count<uint8_t, 2, uint64_t>};
    table[c.draw(6)](c);
}

#else

template<class T, int D1, int D2>
void binary(pbt::Case& c)
{
    constexpr int D = D1 > D2 ? D1 : D2;
    auto s = grid::shape(c, D);
    auto how = grid::how(c);
    bool policies = c.chance(7, 8);
    auto g1 = grid::grid<T>(c, D1 ? s : grid::Shape(), ordered<T>(c), policies);
    auto g2 = grid::grid<T>(c, D2 ? s : grid::Shape(), ordered<T>(c), policies);
    auto want = grid::grid<T>(c, s, [](pbt::Case& c) {
        return static_cast<T>(c.range(50, 60)); }, false);
    bool minimum = c.chance(1, 2);
    c.desc() << (minimum ? "minimum" : "maximum") << " of "
        << grid::show(g1) << " and " << grid::show(g2)
        << (policies ? "" : ", without policies") << ", " << grid::show(how);
    auto a = grid::data<T, D1>(g1);
    auto b = grid::data<T, D2>(g2);
    auto r = grid::data<T, D>(want);
    for(size_t i = 0; i < s.size(); ++i) {
        size_t i1 = D1 ? i : 0, i2 = D2 ? i : 0;
        if(g1.mask[i1] || g2.mask[i2]) { want.mask[i] = true; continue; }
        T v1 = g1.values[i1], v2 = g2.values[i2];
        want.values[i] = minimum ? (v1 < v2 ? v1 : v2) : (v1 > v2 ? v1 : v2);
    }
    c.nontrivial((g1.any_masked() || g2.any_masked()) && (s.size() == 1 ||
        want.any_valid()));
    grid::execute_variant(how, [&](fa::ExecutionPolicy& e) {
        auto out = grid::marker(*r);
        if(!policies) {
            if(minimum) { fa::statistic::binary_min(e, *a, *b, *r); }
            else { fa::statistic::binary_max(e, *a, *b, *r); }
        }
        else if(minimum) {
            fa::statistic::binary_min<>(grid::policies(*a, *b), out, e, *a,
                *b, *r);
        }
        else {
            fa::statistic::binary_max<>(grid::policies(*a, *b), out, e, *a,
                *b, *r);
        }
    });
    grid::compare(c, grid::read(*r, s), want, "result", true);
}

PBT_TARGET(binary_extreme, 60000, 1, "there is no-data and there are valid "
    "results")
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {
        binary<int32_t, 0, 0>, binary<double, 1, 1>, binary<uint8_t, 1, 0>,
        binary<int64_t, 0, 1>, binary<int8_t, 2, 2>, binary<double, 2, 2>,
        binary<float, 2, 0>, binary<uint64_t, 0, 2>};
    table[c.draw(8)](c);
}
#endif

} // Anonymous namespace
