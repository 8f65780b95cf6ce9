// P18: results do not depend on how no-data is represented.
//
// PART 0: policies. PART 1: unary, PART 2: binary and PART 3: aggregate
// operations.
#include "grid.h"
#include <cmath>
#include "fern/core/type_traits.h"
#include "fern/core/data_customization_point/point.h"
#include "fern/core/data_type_traits/point.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/algorithm/policy/policies.h"
#include "fern/algorithm/policy/all_no_data.h"
#include "fern/algorithm/policy/detect_no_data.h"
#include "fern/algorithm/policy/mark_no_data.h"
#if PART == 1
#include "fern/algorithm/algebra/elementary/sqrt.h"
#include "fern/algorithm/algebra/elementary/absolute.h"
#include "fern/algorithm/core/offset.h"
#include "fern/algorithm/convolution/neighborhood/square.h"
#include "fern/algorithm/convolution/neighborhood/square_traits.h"
#include "fern/algorithm/convolution/convolve.h"
#include "fern/algorithm/convolution/policies.h"
#elif PART == 2
#include "fern/algorithm/algebra/elementary/add.h"
#include "fern/algorithm/core/cover.h"
#include "fern/algorithm/core/if.h"
#include "fern/algorithm/statistic.h"
#elif PART == 3
#include "fern/algorithm/statistic.h"
#endif

namespace {

enum Kind { MASK, VALUE, DEFAULT, SKIP };

char const* name(size_t kind)
{
    static char const* const names[] = {"a mask", "a value",
        "the default value", "nothing"};
    return names[kind];
}

//! Value that no valid element has.
template<class T>
T special(pbt::Case& c)
{
    using L = std::numeric_limits<T>;
    if constexpr (std::is_floating_point<T>::value) {
        return c.pick<T>({T(-9999), L::max(), L::quiet_NaN(), L::infinity(),
            -L::infinity(), L::lowest(), T(1e30), L::denorm_min()});
    }
    else if constexpr (std::is_signed<T>::value) {
        return c.pick<T>({L::min(), L::max(), T(L::min() + 1), T(L::max() - 1),
            T(-100)});
    }
    else { return c.pick<T>({L::max(), T(200), T(L::max() - 1)}); }
}

template<class T>
bool is(T a, T b) { return gen::same(a, b); }

//! Small values, and sometimes extreme ones, that no-data isn't represented
//! by.
template<class T>
auto any_but(bool extreme, size_t kind, T marker)
{
    return [=](pbt::Case& c) -> T {
        using L = std::numeric_limits<T>;
        T v = extreme && c.chance(1, 3) ? c.pick<T>({L::max(), L::lowest(),
            T(L::max() - 1), T(L::lowest() + 1)}) : gen::small<T>(c);
        bool taken = (kind == VALUE && is(v, marker)) || (kind == DEFAULT &&
            is(v, fern::no_data_value<T>()));
        return taken ? T(1) : v;
    };
}

//! Whether a valid result looks like no-data.
template<class T>
bool ambiguous(grid::Grid<T> const& g, size_t kind, T marker)
{
    if(kind == MASK) return false;
    for(size_t i = 0; i < g.size(); ++i) {
        if(!g.mask[i] && is(g.values[i], kind == VALUE ? marker :
            fern::no_data_value<T>())) return true;
    }
    return false;
}

// Cover and if require equal types: there, arrays have a mask that isn't used.
#if PART == 2
template<class T, int D>
using Plain = fern::MaskedArray<T, D>;
#else
template<class T, int D>
using Plain = fern::Array<T, D>;
#endif

template<class T, int D>
std::unique_ptr<Plain<T, D>> array(grid::Grid<T> const& g)
{
    std::unique_ptr<Plain<T, D>> r;
    if constexpr (D == 1) {
        r = std::make_unique<Plain<T, D>>(fern::extents[
            static_cast<fern::Index>(g.size())]);
    }
    else {
        r = std::make_unique<Plain<T, D>>(fern::extents[
            static_cast<fern::Index>(g.shape.rows)][
            static_cast<fern::Index>(g.shape.cols)]);
    }
    for(size_t i = 0; i < g.size(); ++i) { r->data()[i] = g.values[i]; }
    return r;
}

template<class T>
grid::Grid<T> with(grid::Grid<T> g, T marker)
{
    for(size_t i = 0; i < g.size(); ++i) {
        if(g.mask[i]) { g.values[i] = marker; }
    }
    return g;
}

//! Call f with data and policy.
template<class T, int D, class F>
void with_input(size_t kind, grid::Grid<T> const& g, T marker, F const& f)
{
    switch(kind) {
        case MASK: {
            auto a = grid::data<T, D>(g);
            f(*a, grid::detect(*a));
            break;
        }
        case VALUE: {
            using A = Plain<T, D>;
            auto a = array<T, D>(with(g, marker));
            f(*a, fa::DetectNoDataByValue<A>(*a, marker));
            break;
        }
        case DEFAULT: {
            using A = Plain<T, D>;
            auto a = array<T, D>(with(g, fern::no_data_value<T>()));
            f(*a, fa::DetectNoData<A>(*a));
            break;
        }
        default: {
            auto a = array<T, D>(g);
            f(*a, fa::SkipNoData());
        }
    }
}

//! Call f with result and policy, and return the result.
template<class T, int D, class F>
grid::Grid<T> with_output(size_t kind, grid::Grid<T> const& old, T marker,
    F const& f)
{
    if(kind == MASK) {
        auto r = grid::data<T, D>(old);
        auto out = grid::marker(*r);
        f(*r, out);
        return grid::read(*r, old.shape);
    }
    using A = Plain<T, D>;
    T const value = kind == VALUE ? marker : fern::no_data_value<T>();
    auto r = array<T, D>(with(old, value));
    if(kind == VALUE) {
        fa::MarkNoDataByValue<A> out(*r, marker);
        f(*r, out);
    }
    else {
        fa::MarkNoData<A> out(*r);
        f(*r, out);
    }
    grid::Grid<T> result = old;
    for(size_t i = 0; i < result.size(); ++i) {
        result.values[i] = r->data()[i];
        result.mask[i] = is(result.values[i], value);
    }
    return result;
}

template<class P>
using Policies1 = fa::InputNoDataPolicies<P>;
template<class P, class Q>
using Policies2 = fa::InputNoDataPolicies<P, Q>;

#if PART == 0

template<class T>
void policies(pbt::Case& c)
{
    auto s = grid::shape(c, 2);
    auto g = grid::grid<T>(c, s, gen::any<T>, false);
    bool standard = c.chance(1, 2);
    T marker = standard ? fern::no_data_value<T>()
        : c.chance(1, 2) ? special<T>(c) : gen::any<T>(c);
    for(size_t i = 0; i < g.size(); ++i) {
        if(c.chance(1, 5)) { g.values[i] = marker; }
    }
    std::vector<size_t> mark;
    for(size_t i = 0; i < g.size(); ++i) {
        if(c.chance(1, 5)) { mark.push_back(i); }
    }
    c.desc() << "marking " << mark.size() << " of " << g.size()
        << " values of " << typeid(T).name() << " as no-data by "
        << (standard ? "the default value " : "") << pbt::show(marker)
        << ": " << grid::show(g);
    c.nontrivial(!mark.empty() && mark.size() < g.size());
    if(std::is_floating_point<T>::value && marker != marker) {
        c.label("NaN marks no-data");
    }
    using A = fern::Array<T, 2>;
    auto a = array<T, 2>(g);
    auto want = g;
    std::vector<bool> is_no_data(g.size());
    for(size_t i = 0; i < g.size(); ++i) {
        is_no_data[i] = is(g.values[i], marker);
    }
    auto judge = [&](auto const& detect, char const* what) {
        for(size_t i = 0; i < g.size(); ++i) {
            PBT_CHECK(detect.is_no_data(i) == is_no_data[i], what
                << " says that " << pbt::show(a->data()[i]) << " is "
                << (is_no_data[i] ? "valid" : "no-data"));
        }
    };
    auto check = [&](char const* when) {
        judge(fa::DetectNoDataByValue<A>(*a, marker), when);
        if(standard) { judge(fa::DetectNoData<A>(*a), when); }
        fa::InputNoDataPolicies<fa::SkipNoData, fa::DetectNoDataByValue<A>>
            both(fa::SkipNoData(), fa::DetectNoDataByValue<A>(*a, marker));
        judge(std::get<1>(both), when);
    };
    check("before marking");
    if(standard && c.chance(1, 2)) {
        fa::MarkNoData<A> out(*a);
        for(size_t i: mark) { out.mark_as_no_data(i); }
    }
    else {
        fa::MarkNoDataByValue<A> out(*a, marker);
        for(size_t i: mark) { out.mark_as_no_data(i); }
    }
    for(size_t i: mark) { is_no_data[i] = true; want.values[i] = marker; }
    check("after marking");
    for(size_t i = 0; i < g.size(); ++i) {
        PBT_CHECK(is(a->data()[i], want.values[i]), "value " << i << " is "
            << pbt::show(a->data()[i]) << " after marking, want "
            << pbt::show(want.values[i]));
        PBT_CHECK(!fa::SkipNoData().is_no_data(i) &&
            fa::AllNoData{}.is_no_data(i), "fixed answer for " << i);
    }
    // A single value.
    T value = c.chance(1, 3) ? marker : gen::any<T>(c);
    fa::DetectNoDataByValue<T> detect(value, marker);
    PBT_CHECK(detect.is_no_data() == is(value, marker), pbt::show(value)
        << " is " << (detect.is_no_data() ? "no-data" : "valid") << " given "
        << pbt::show(marker));
    fa::MarkNoDataByValue<T> out(value, marker);
    out.mark_as_no_data();
    PBT_CHECK(detect.is_no_data(), "marked value is " << pbt::show(value)
        << " and is not detected given " << pbt::show(marker));
    if(standard) {
        T other = gen::any<T>(c);
        fa::DetectNoData<T> detect(other);
        PBT_EQ(detect.is_no_data(), is(other, marker), pbt::show(other)
            << " is no-data");
        fa::MarkNoData<T> out(other);
        out.mark_as_no_data();
        PBT_CHECK(detect.is_no_data(), "value marked is not detected");
    }
}

PBT_TARGET(policies, 60000, 1, "some of the values are marked")
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {policies<uint8_t>, policies<int8_t>,
        policies<uint16_t>, policies<int16_t>, policies<uint32_t>,
        policies<int32_t>, policies<uint64_t>, policies<int64_t>,
        policies<float>, policies<double>};
    table[c.draw(10)](c);
}

// With one-dimensional containers of the standard library.
PBT_TARGET(vectors, 20000, 1, "some of the values are marked")
{
    using A = std::vector<int32_t>;
    auto g = grid::grid<int32_t>(c, {1, c.size(0, 20)}, gen::small<int32_t>,
        false);
    int32_t marker = c.range(-3, 3);
    A a(g.values), want(g.values);
    c.desc() << "marking by " << marker << " of vector " << grid::show(g);
    {
        fa::MarkNoDataByValue<A> out(a, marker);
        for(size_t i = 0; i < a.size(); ++i) {
            if(c.chance(1, 4)) { out.mark_as_no_data(i); want[i] = marker; }
        }
    }
    PBT_CHECK(a == want, "other values were changed");
    fa::DetectNoDataByValue<A> detect(a, marker);
    size_t n = 0;
    for(size_t i = 0; i < a.size(); ++i) {
        n += want[i] == marker;
        PBT_EQ(detect.is_no_data(i), want[i] == marker, "no-data " << i);
    }
    c.nontrivial(n > 0 && n < a.size());
}

#else

#define RULE "there are no-data and valid elements, and the representations " \
    "differ"

size_t input_kind(pbt::Case& c, bool no_data)
{
    return c.draw(no_data ? 3 : 4);
}

#if PART == 1

template<class T, int D>
void unary(pbt::Case& c)
{
    constexpr bool real = std::is_floating_point<T>::value;
    auto how = grid::how(c);
    size_t kind = c.draw(D == 2 && real ? 4 : 3);
    if(!real && kind == 0) { kind = 1; }
    if(std::is_unsigned<T>::value && kind == 1) { kind = 2; }
    grid::Shape s{D == 1 ? 1 : gen::extent(c, 2, 12), gen::extent(c, 2, 12)};
    if(grid::big(c, D, s) && D == 2) { s.cols = std::max<size_t>(s.cols, 2); }
    bool const no_data = c.chance(5, 6);
    size_t in_kind = input_kind(c, no_data);
    size_t out_kind = c.draw(3);
    T marker1 = special<T>(c), marker2 = special<T>(c);
    // The order of summation isn't specified.
    bool const extreme = kind != 3 && c.chance(1, 3);
    auto g = grid::grid<T>(c, s, any_but<T>(extreme, in_kind, marker1),
        no_data);
    auto old = grid::grid<T>(c, s, gen::small<T>, false);
    int32_t dy = c.range(-3, 3), dx = c.range(-3, 3);
    static char const* const names[] = {"sqrt", "absolute", "offset",
        "convolve"};
    c.desc() << names[kind] << " of " << typeid(T).name() << grid::show(g)
        << " with no-data in " << name(in_kind) << " ("
        << pbt::show(marker1) << "), result no-data in " << name(out_kind)
        << " (" << pbt::show(marker2) << "), offset " << dy << ", " << dx
        << ", " << grid::show(how);
    c.nontrivial(g.any_masked() && g.any_valid() && (in_kind || out_kind));
    c.label(names[kind]);
    auto run = [&](size_t in_kind, size_t out_kind, auto& e) {
        return with_output<T, D>(out_kind, old, marker2, [&](auto& r,
                auto& out) {
            with_input<T, D>(in_kind, g, marker1, [&](auto const& a,
                    auto const& detect) {
                Policies1<std::decay_t<decltype(detect)>> in(detect);
                switch(kind) {
                    case 0:
                        if constexpr (real) {
                            fa::algebra::sqrt<fa::sqrt::OutOfDomainPolicy>(in,
                                out, e, a, r);
                        }
                        break;
                    case 1:
                        if constexpr (std::is_signed<T>::value) {
                            fa::algebra::absolute<
                                fa::absolute::OutOfRangePolicy>(in, out, e, a,
                                    r);
                        }
                        break;
                    case 2: {
                        fern::Point<int32_t, D> by;
                        if constexpr (D == 1) { by = {dx}; }
                        else { by = {dy, dx}; }
                        fa::core::offset<>(in, out, e, a, by, r);
                        break;
                    }
                    default:
                        if constexpr (D == 2 && real) {
                            fern::Square<int, 1> kernel({{1, 2, 1}, {2, 4, 2},
                                {1, 2, 1}});
                            fa::convolution::convolve<fa::convolve::SkipNoData,
                                fa::convolve::DivideByWeights,
                                fa::convolve::SkipOutOfImage,
                                fa::convolve::KeepNoDataFocusElement,
                                fa::convolve::OutOfRangePolicy>(in, out, e, a,
                                    kernel, r);
                        }
                }
            });
        });
    };
    fa::ExecutionPolicy sequential{fa::SequentialExecutionPolicy{}};
    auto want = run(MASK, MASK, sequential);
    if(ambiguous(want, out_kind, marker2)) c.discard();
    grid::execute_variant(how, [&](auto& e) {
        grid::compare(c, run(in_kind, out_kind, e), want, "result");
    });
}

PBT_TARGET(unary_operations, 40000, 1, RULE)
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {unary<double, 2>, unary<int32_t, 2>,
        unary<uint8_t, 1>, unary<double, 1>, unary<int32_t, 1>};
    table[c.draw(5)](c);
}

#elif PART == 2

template<class T, int D>
void binary(pbt::Case& c)
{
    auto how = grid::how(c);
    size_t kind = D == 2 ? c.draw(4) : 3 * c.draw(2);
    grid::Shape s{D == 1 ? 1 : gen::extent(c, 0, 12), gen::extent(c, 0, 12)};
    grid::big(c, D, s);
    bool const no_data_a = c.chance(5, 6), no_data_b = c.chance(5, 6);
    size_t const ka = input_kind(c, no_data_a);
    size_t kb = input_kind(c, no_data_b);
    // Combinations: the same, or one of the two with a mask.
    if(ka != MASK && kb != ka) { kb = no_data_b && ka == SKIP ? MASK : ka; }
    if(kb == SKIP && no_data_b) { kb = MASK; }
    size_t out_kind = c.draw(3);
    T marker1 = special<T>(c), marker2 = special<T>(c),
        marker3 = special<T>(c);
    bool const extreme = c.chance(1, 3);
    auto ga = grid::grid<T>(c, s, any_but<T>(extreme, ka, marker1), no_data_a);
    auto gb = grid::grid<T>(c, s, any_but<T>(extreme, kb, marker2), no_data_b);
    auto old = grid::grid<T>(c, s, gen::small<T>, false);
    static char const* const names[] = {"add", "cover", "if", "binary_max"};
    c.desc() << names[kind] << " of " << typeid(T).name() << grid::show(ga)
        << " with no-data in " << name(ka) << " (" << pbt::show(marker1)
        << ") and " << grid::show(gb) << " with no-data in " << name(kb)
        << " (" << pbt::show(marker2) << "), result no-data in "
        << name(out_kind) << " (" << pbt::show(marker3) << "), "
        << grid::show(how);
    c.nontrivial((ga.any_masked() || gb.any_masked()) && ga.any_valid() &&
        (ka || kb || out_kind));
    c.label(names[kind]);
    auto run = [&](size_t ka, size_t kb, size_t out_kind, auto& e) {
        return with_output<T, D>(out_kind, old, marker3, [&](auto& r,
                auto& out) {
            auto perform = [&](auto const& a, auto const& detect1,
                    auto const& b, auto const& detect2) {
                Policies2<std::decay_t<decltype(detect1)>,
                    std::decay_t<decltype(detect2)>> in(detect1, detect2);
                switch(kind) {
                    case 0:
                        fa::algebra::add<fa::add::OutOfRangePolicy>(in, out,
                            e, a, b, r);
                        break;
                    case 1:
                        if constexpr (D == 2) {
                            fa::core::cover<>(in, out, e, a, b, r);
                        }
                        break;
                    case 2:
                        if constexpr (D == 2) {
                            fa::core::if_<>(in, out, e, a, b, r);
                        }
                        break;
                    default:
                        fa::statistic::binary_max<>(in, out, e, a, b, r);
                }
            };
            with_input<T, D>(ka, ga, marker1, [&](auto const& a,
                    auto const& detect1) {
                if(kb == ka) {
                    // Same policy.
                    auto b_data = [&](auto const& b, auto const& detect2) {
                        if constexpr (std::is_same<
                                std::decay_t<decltype(detect1)>,
                                std::decay_t<decltype(detect2)>>::value) {
                            perform(a, detect1, b, detect2);
                        }
                    };
                    with_input<T, D>(kb, gb, marker2, b_data);
                }
                else {
                    // Different policies: one of these with a mask.
                    auto b_data = [&](auto const& b, auto const& detect2) {
                        using M = decltype(grid::detect(a));
                        constexpr bool mask1 = std::is_same<
                            std::decay_t<decltype(detect1)>, M>::value;
                        constexpr bool mask2 = std::is_same<
                            std::decay_t<decltype(detect2)>, M>::value;
                        if constexpr (mask1 != mask2) {
                            perform(a, detect1, b, detect2);
                        }
                    };
                    with_input<T, D>(kb, gb, marker2, b_data);
                }
            });
        });
    };
    fa::ExecutionPolicy sequential{fa::SequentialExecutionPolicy{}};
    auto want = run(MASK, MASK, MASK, sequential);
    if(ambiguous(want, out_kind, marker3)) c.discard();
    grid::execute_variant(how, [&](auto& e) {
        grid::compare(c, run(ka, kb, out_kind, e), want, "result");
    });
}

PBT_TARGET(binary_operations, 40000, 1, RULE)
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {binary<double, 2>, binary<int32_t, 2>,
        binary<double, 1>, binary<int32_t, 1>};
    table[c.draw(4)](c);
}

#else

template<class T, int D>
void aggregate(pbt::Case& c)
{
    auto how = grid::how(c);
    size_t kind = c.draw(4);
    grid::Shape s{D == 1 ? 1 : gen::extent(c, 0, 14), gen::extent(c, 0, 14)};
    grid::big(c, D, s);
    bool const no_data = c.chance(5, 6);
    size_t in_kind = input_kind(c, no_data);
    size_t out_kind = c.draw(3);
    T marker1 = special<T>(c), marker2 = special<T>(c);
    // The order of summation isn't specified.
    bool const extreme = (kind == 1 || kind == 2) && c.chance(1, 3);
    auto g = grid::grid<T>(c, s, any_but<T>(extreme, in_kind, marker1),
        no_data);
    static char const* const names[] = {"sum", "unary_min", "unary_max",
        "mean"};
    c.desc() << names[kind] << " of " << typeid(T).name() << grid::show(g)
        << " with no-data in " << name(in_kind) << " ("
        << pbt::show(marker1) << "), result no-data in " << name(out_kind)
        << " (" << pbt::show(marker2) << "), " << grid::show(how);
    c.nontrivial(g.any_masked() && g.any_valid() && (in_kind || out_kind));
    c.label(names[kind]);
    auto run = [&](size_t in_kind, size_t out_kind, auto& e) {
        grid::Grid<T> result{{1, 1}, {T(5)}, {false}};
        auto perform = [&](auto& r, auto& out) {
            with_input<T, D>(in_kind, g, marker1, [&](auto const& a,
                    auto const& detect) {
                Policies1<std::decay_t<decltype(detect)>> in(detect);
                switch(kind) {
                    case 0:
                        fa::statistic::sum<fa::sum::OutOfRangePolicy>(in, out,
                            e, a, r);
                        break;
                    case 1: fa::statistic::unary_min<>(in, out, e, a, r);
                        break;
                    case 2: fa::statistic::unary_max<>(in, out, e, a, r);
                        break;
                    default:
                        fa::statistic::mean<fa::mean::OutOfRangePolicy>(in,
                            out, e, a, r);
                }
            });
        };
        switch(out_kind) {
            case MASK: {
                fern::MaskedScalar<T> r(T(5), false);
                auto out = grid::marker(r);
                perform(r, out);
                result.values[0] = r.value();
                result.mask[0] = r.mask();
                break;
            }
            case VALUE: {
                fa::MarkNoDataByValue<T> out(result.values[0], marker2);
                perform(result.values[0], out);
                result.mask[0] = is(result.values[0], marker2);
                break;
            }
            default: {
                fa::MarkNoData<T> out(result.values[0]);
                perform(result.values[0], out);
                result.mask[0] = is(result.values[0],
                    fern::no_data_value<T>());
            }
        }
        return result;
    };
    fa::ExecutionPolicy sequential{fa::SequentialExecutionPolicy{}};
    auto want = run(MASK, MASK, sequential);
    if(ambiguous(want, out_kind, marker2)) c.discard();
    grid::execute_variant(how, [&](auto& e) {
        auto got = run(in_kind, out_kind, e);
        if(std::is_floating_point<T>::value && !want.mask[0] &&
                !got.mask[0] && kind == 3) {
            // Another summation order.
            PBT_CHECK(std::fabs(double(got.values[0]) -
                double(want.values[0])) <= 1e-10, "mean is "
                << pbt::show(got.values[0]) << ", want "
                << pbt::show(want.values[0]));
            return;
        }
        grid::compare(c, got, want, "result");
    });
}

PBT_TARGET(aggregates, 40000, 1, RULE)
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {aggregate<double, 2>, aggregate<int32_t, 2>,
        aggregate<int32_t, 1>, aggregate<double, 1>};
    table[c.draw(4)](c);
}

#endif
#endif

} // Anonymous namespace
