// P01: parallel, sequential and runtime-chosen execution give the same
// results.
//
// PART 0: local operations. PART 1: core operations. PART 2: statistic.
// PART 3: convolution and what is built on it.
#include "raster.h"
#include <cmath>
#if PART == 0
#include "fern/algorithm/algebra.h"
#include "fern/algorithm/trigonometry.h"
#include "fern/algorithm/trigonometry/asin.h"
#elif PART == 1
#include "fern/core/data_customization_point/point.h"
#include "fern/core/data_type_traits/point.h"
#include "fern/algorithm/core.h"
#elif PART == 2
#include "fern/algorithm/statistic.h"
#else
#include "fern/algorithm/convolution/neighborhood/square.h"
#include "fern/algorithm/convolution/neighborhood/square_traits.h"
#include "fern/algorithm/convolution/convolve.h"
#include "fern/algorithm/convolution/policies.h"
#include "fern/algorithm/algebra/vector.h"
#include "fern/algorithm/space/focal/slope.h"
#endif

namespace {

//! Sizes around multiples of the number of threads.
grid::Shape shape(pbt::Case& c, int D, size_t threads, size_t least=0)
{
    auto extent = [&](size_t hi) -> size_t {
        size_t n;
        switch(c.weighted({3, 2, 1})) {
            case 0: n = gen::extent(c, least, hi); break;
            case 1:
                n = threads * c.size(0, 4) + c.draw(3);
                n = n > 1 ? n - 1 : n;
                break;
            default: n = c.draw(60);
        }
        return std::max(n, least);
    };
    grid::Shape s;
    if(grid::big(c, D, s)) {
        s.cols = std::max(s.cols, least);
        return s;
    }
    size_t n = extent(20);
    if(D == 1) { return {1, n}; }
    return {n, extent(9)};
}

size_t threads(pbt::Case& c) { return c.pick<size_t>({1, 2, 3, 4, 5, 8, 13}); }

//! Compare a result with that of the sequential execution.
template<class T>
void same(pbt::Case& c, grid::Grid<T> const& got, grid::Grid<T> const& want,
    std::string const& what, std::vector<long double> const& error)
{
    PBT_EQ(got.size(), want.size(), what << ": size");
    for(size_t i = 0; i < want.size(); ++i) {
        PBT_CHECK(got.mask[i] == want.mask[i], what << ": element " << i
            << " is " << (got.mask[i] ? "no-data" : "valid")
            << ", sequential execution makes it "
            << (want.mask[i] ? "no-data" : "valid"));
        if(want.mask[i]) { continue; }
        T a = got.values[i], b = want.values[i];
        bool equal = gen::same(a, b);
        if constexpr (std::is_floating_point<T>::value) {
            equal = equal || (i < error.size() &&
                std::fabs((long double)a - b) <= error[i]);
        }
        PBT_CHECK(equal, what << ": element " << i << " is " << pbt::show(a)
            << ", sequential execution makes it " << pbt::show(b));
    }
}

//! Run with all policies. run(e) returns the result as a grid.
template<bool concrete, bool variant=true, class F>
void agree(pbt::Case& c, size_t nr_threads, F const& run,
    std::vector<long double> const& error={})
{
    fa::ExecutionPolicy first{fa::SequentialExecutionPolicy{}};
    auto& pool = grid::parallel(nr_threads);
    if constexpr (concrete) {
        fa::SequentialExecutionPolicy sequential;
        auto want = run(sequential);
        same(c, run(pool), want, "parallel", error);
        if constexpr (variant) {
            same(c, run(first), want, "runtime chosen sequential", {});
            fa::ExecutionPolicy second{pool};
            same(c, run(second), want, "runtime chosen parallel", error);
            second = fa::SequentialExecutionPolicy{};
            same(c, run(second), want, "runtime chosen sequential, assigned",
                {});
        }
    }
    else {
        auto want = run(first);
        fa::ExecutionPolicy second{pool};
        same(c, run(second), want, "runtime chosen parallel", error);
        first = pool;
        same(c, run(first), want, "runtime chosen parallel, assigned", error);
    }
}

#if PART == 0

template<class A, class R, int D, class Op>
void unary(pbt::Case& c, char const* name, Op op, A (*value)(pbt::Case&))
{
    size_t n = threads(c);
    auto s = shape(c, D, n);
    auto g = grid::grid<A>(c, s, value);
    auto old = grid::grid<R>(c, s, gen::any<R>, c.chance(1, 3));
    bool self = std::is_same<A, R>::value && c.chance(1, 5);
    c.desc() << name << " of " << grid::show(g) << ", " << n << " threads"
        << (self ? ", in place" : "");
    c.nontrivial(n > 1 && s.size() > 1 && g.any_valid());
    c.label(name);
    agree<true>(c, n, [&](auto& e) {
        auto a = grid::data<A, D>(g);
        if constexpr (std::is_same<A, R>::value) {
            if(self) {
                auto out = grid::marker(*a);
                op(grid::policies(*a), out, e, *a, *a);
                return grid::read(*a, s);
            }
        }
        auto r = grid::data<R, D>(old);
        auto out = grid::marker(*r);
        op(grid::policies(*a), out, e, *a, *r);
        return grid::read(*r, s);
    });
}

template<class A, class B, class R, int D1, int D2, class Op>
void binary(pbt::Case& c, char const* name, Op op, A (*value1)(pbt::Case&),
    B (*value2)(pbt::Case&))
{
    constexpr int D = D1 > D2 ? D1 : D2;
    size_t n = threads(c);
    auto s = shape(c, D, n);
    auto ga = grid::grid<A>(c, D1 ? s : grid::Shape{1, 1}, value1);
    auto gb = grid::grid<B>(c, D2 ? s : grid::Shape{1, 1}, value2);
    auto old = grid::grid<R>(c, s, gen::any<R>, c.chance(1, 3));
    c.desc() << name << " of " << grid::show(ga) << " and " << grid::show(gb)
        << ", " << n << " threads";
    c.nontrivial(n > 1 && s.size() > 1 && ga.any_valid() && gb.any_valid());
    c.label(name);
    agree<true>(c, n, [&](auto& e) {
        auto a = grid::data<A, D1>(ga);
        auto b = grid::data<B, D2>(gb);
        auto r = grid::data<R, D>(old);
        auto out = grid::marker(*r);
        op(grid::policies(*a, *b), out, e, *a, *b, *r);
        return grid::read(*r, s);
    });
}

#define OP1 [](auto const& in, auto& out, auto& e, auto const& a, auto& r)
#define OP2 [](auto const& in, auto& out, auto& e, auto const& a, \
    auto const& b, auto& r)

#define RULE "several threads, several elements, some of these valid"

PBT_TARGET(unary_local, 30000, 1, RULE)
{
    switch(c.draw(8)) {
        case 0: unary<double, double, 2>(c, "sqrt", OP1 {
            fa::algebra::sqrt<fa::sqrt::OutOfDomainPolicy>(in, out, e, a, r);
            }, gen::small<double>); break;
        case 1: unary<int32_t, int32_t, 2>(c, "absolute", OP1 {
            fa::algebra::absolute<fa::absolute::OutOfRangePolicy>(in, out, e,
                a, r); }, gen::any<int32_t>); break;
        case 2: unary<uint8_t, uint8_t, 1>(c, "not", OP1 {
            fa::algebra::not_<>(in, out, e, a, r); }, gen::small<uint8_t>);
            break;
        case 3: unary<double, double, 1>(c, "log", OP1 {
            fa::algebra::log<fa::log::OutOfDomainPolicy>(in, out, e, a, r);
            }, gen::any<double>); break;
        case 4: unary<float, float, 2>(c, "asin", OP1 {
            fa::trigonometry::asin<fa::asin::OutOfDomainPolicy>(in, out, e, a,
                r); }, gen::any<float>); break;
        case 5: unary<double, double, 2>(c, "round", OP1 {
            fa::algebra::round<>(in, out, e, a, r); }, gen::any<double>);
            break;
        case 6: unary<double, double, 1>(c, "cos", OP1 {
            fa::trigonometry::cos<fa::cos::OutOfDomainPolicy>(in, out, e, a,
                r); }, gen::any<double>); break;
        default: unary<int32_t, int32_t, 1>(c, "factorial", OP1 {
            fa::algebra::factorial<fa::factorial::OutOfDomainPolicy,
                fa::factorial::OutOfRangePolicy>(in, out, e, a, r); },
                gen::small<int32_t>);
    }
}

PBT_TARGET(binary_local, 30000, 1, RULE)
{
    auto add = OP2 { fa::algebra::add<fa::add::OutOfRangePolicy>(in, out, e,
        a, b, r); };
    auto multiply = OP2 { fa::algebra::multiply<
        fa::multiply::OutOfRangePolicy>(in, out, e, a, b, r); };
    auto divide = OP2 { fa::algebra::divide<fa::divide::OutOfDomainPolicy,
        fa::divide::OutOfRangePolicy>(in, out, e, a, b, r); };
    auto less = OP2 { fa::algebra::less<>(in, out, e, a, b, r); };
    auto both = OP2 { fa::algebra::and_<>(in, out, e, a, b, r); };
    auto power = OP2 { fa::algebra::pow<fa::pow::OutOfDomainPolicy,
        fa::pow::OutOfRangePolicy>(in, out, e, a, b, r); };
    switch(c.draw(10)) {
        case 0: binary<int32_t, int32_t, int32_t, 2, 2>(c, "add", add,
            gen::any<int32_t>, gen::any<int32_t>); break;
        case 1: binary<double, double, double, 1, 1>(c, "add", add,
            gen::any<double>, gen::any<double>); break;
        case 2: binary<double, double, double, 0, 2>(c, "multiply", multiply,
            gen::any<double>, gen::any<double>); break;
        case 3: binary<int32_t, int32_t, int32_t, 1, 0>(c, "multiply",
            multiply, gen::any<int32_t>, gen::any<int32_t>); break;
        case 4: binary<int32_t, int32_t, int32_t, 2, 0>(c, "divide", divide,
            gen::any<int32_t>, gen::small<int32_t>); break;
        case 5: binary<double, double, double, 2, 2>(c, "divide", divide,
            gen::small<double>, gen::small<double>); break;
        case 6: binary<double, double, bool, 2, 2>(c, "less", less,
            gen::any<double>, gen::any<double>); break;
        case 7: binary<int32_t, int32_t, bool, 1, 1>(c, "less", less,
            gen::small<int32_t>, gen::small<int32_t>); break;
        case 8: binary<uint8_t, uint8_t, bool, 0, 1>(c, "and", both,
            gen::small<uint8_t>, gen::small<uint8_t>); break;
        default: binary<double, double, double, 2, 2>(c, "pow", power,
            gen::small<double>, gen::small<double>);
    }
}

#elif PART == 1

#define RULE "several threads, several elements, some of these valid"

template<class T, int D>
void core(pbt::Case& c)
{
    size_t n = threads(c);
    auto s = shape(c, D, n);
    auto ga = grid::grid<T>(c, s, gen::any<T>);
    auto gb = grid::grid<T>(c, s, gen::any<T>);
    auto gi = grid::grid<uint8_t>(c, s, gen::small<uint8_t>);
    auto old = grid::grid<T>(c, s, gen::any<T>, c.chance(1, 3));
    T lower = gen::small<T>(c), upper = lower + T(c.draw(4));
    size_t kind = c.draw(D == 1 ? 12 : 11);
    if(D == 1 && kind >= 2 && kind <= 7) { kind = 11; }
    static char const* const names[] = {"cast", "clamp", "cover", "if",
        "if else", "merge_no_data", "unite_no_data", "intersect_no_data",
        "offset", "fill", "decompress", "copy"};
    int32_t dy = c.range(-8, 8), dx = c.range(-8, 8);
    c.desc() << names[kind] << " " << grid::show(ga) << ", second argument "
        << grid::show(gb) << ", condition " << grid::show(gi) << ", result "
        << grid::show(old) << ", " << pbt::show(lower) << ", "
        << pbt::show(upper) << ", offset " << dy << ", " << dx << ", " << n
        << " threads";
    c.nontrivial(n > 1 && s.size() > 1 && ga.any_valid());
    c.label(names[kind]);
    auto a = grid::data<T, D>(ga);
    auto b = grid::data<T, D>(gb);
    auto condition = grid::data<uint8_t, D>(gi);
    auto low = grid::blank<T, D>(s, lower);
    fern::MaskedScalar<T> high(upper);
    size_t first = c.draw(s.size() + 1);
    size_t last = first + c.draw(s.size() - first + 1);
    size_t position = c.draw(s.size() - (last - first) + 1);
    switch(kind) {
#define RESULT(code) \
        auto r = grid::data<T, D>(old); \
        auto out = grid::marker(*r); \
        code; \
        return grid::read(*r, s);
        case 0:
            agree<true>(c, n, [&](auto& e) {
                using R = std::conditional_t<std::is_integral<T>::value,
                    int64_t, double>;
                auto r = grid::blank<R, D>(s, R(7));
                auto out = grid::marker(*r);
                fa::core::cast<fa::cast::OutOfRangePolicy>(grid::policies(*a),
                    out, e, *a, *r);
                return grid::read(*r, s);
            });
            break;
        case 1:
            agree<true>(c, n, [&](auto& e) { RESULT(fa::core::clamp<>(
                grid::policies(*a, *low, high), out, e, *a, *low, high, *r))
                });
            break;
        case 2:
            if constexpr (D == 2) {
                agree<true>(c, n, [&](auto& e) { RESULT(fa::core::cover<>(
                    grid::policies(*a, *b), out, e, *a, *b, *r)) });
            }
            break;
        case 3:
            if constexpr (D == 2) {
                agree<true>(c, n, [&](auto& e) { RESULT(fa::core::if_<>(
                    grid::policies(*condition, *b), out, e, *condition, *b,
                    *r)) });
            }
            break;
        case 4:
            if constexpr (D == 2) {
                agree<true>(c, n, [&](auto& e) { RESULT(fa::core::if_<>(
                    grid::policies(*condition, *a, *b), out, e, *condition,
                    *a, *b, *r)) });
            }
            break;
        case 5:
            if constexpr (D == 2) {
                agree<true>(c, n, [&](auto& e) {
                    RESULT(fa::core::merge_no_data<>(grid::policies(*a), out,
                        e, *a, *r)) });
            }
            break;
        case 6:
            if constexpr (D == 2) {
                agree<true>(c, n, [&](auto& e) {
                    RESULT(fa::core::unite_no_data<>(grid::policies(*a, *b),
                        out, e, *a, *b, *r)) });
            }
            break;
        case 7:
            if constexpr (D == 2) {
                agree<true>(c, n, [&](auto& e) {
                    RESULT(fa::core::intersect_no_data<>(
                        grid::policies(*a, *b), out, e, *a, *b, *r)) });
            }
            break;
        case 8:
            agree<true>(c, n, [&](auto& e) {
                fern::Point<int32_t, D> by;
                if constexpr (D == 1) { by = {dx}; }
                else { by = {dy, dx}; }
                RESULT(fa::core::offset<>(grid::policies(*a), out, e, *a, by,
                    *r)) });
            break;
        case 9:
            // The runtime chosen policy is supported in two dimensions.
            agree<true, D == 2>(c, n, [&](auto& e) { RESULT(
                fa::core::fill(e, lower, *r); (void)out) });
            break;
        case 10:
            // One value for each valid element of a.
            agree<true>(c, n, [&](auto& e) {
                fern::Array<T, 1> compressed(fern::extents[
                    static_cast<fern::Index>(s.size())], T(3));
                size_t count = 0;
                fa::core::compress<>(grid::policies(*a), e, *a, compressed,
                    count);
                RESULT(fa::core::decompress<>(grid::policies(*a), out, e,
                    compressed, *r))
            });
            break;
        default:
            if constexpr (D == 1) {
                using Range = fa::IndexRange;
                agree<true>(c, n, [&](auto& e) { RESULT(fa::core::copy<>(
                    grid::policies(*a), out, e, *a, fa::IndexRanges<1>{
                        Range(first, last)}, *r,
                    fern::Point<size_t, 1>{position})) });
            }
    }
}

PBT_TARGET(core_operations, 40000, 1, RULE)
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {core<int32_t, 1>, core<double, 2>,
        core<int32_t, 2>, core<double, 1>};
    table[c.draw(4)](c);
}

#elif PART == 2

#define RULE "several threads, several elements, some of these valid"

template<class T, int D>
void statistic(pbt::Case& c)
{
    constexpr bool real = std::is_floating_point<T>::value;
    size_t n = threads(c);
    auto s = shape(c, D, n);
    bool const large = c.chance(1, 5);
    auto g = grid::grid<T>(c, s, [large](pbt::Case& c) -> T {
        T v = large ? gen::any<T>(c) : gen::small<T>(c);
        if constexpr (real) { v = std::fabs(v) < 1e100 ? v : T(1); }
        return v; });
    size_t kind = c.draw(7);
    static char const* const names[] = {"sum", "mean", "unary_min",
        "unary_max", "count", "binary_min", "binary_max"};
    T wanted = g.size() && c.chance(2, 3) ? g.values[c.draw(g.size())]
        : gen::small<T>(c);
    c.desc() << names[kind] << " of " << grid::show(g);
    if(kind == 4) { c.desc() << ", value " << pbt::show(wanted); }
    if(kind > 4) { c.desc() << " and " << pbt::show(wanted); }
    c.desc() << ", " << n << " threads";
    c.nontrivial(n > 1 && s.size() > 1 && g.any_valid());
    c.label(names[kind]);
    auto a = grid::data<T, D>(g);
    if(!real && large && (kind == 0 || kind == 1)) {
        // Integers: whether a partial sum overflows depends on the blocks.
        c.discard();
        return;
    }
    long double total = 0;
    for(size_t i = 0; i < g.size(); ++i) {
        if(!g.mask[i]) { total += std::fabs((long double)g.values[i]); }
    }
    long double const error = real ? (g.size() + 4) * total *
        (long double)std::numeric_limits<double>::epsilon() : 0;
#define SCALAR(type, code) \
        fern::MaskedScalar<type> r(type(55), false); \
        auto out = grid::marker(r); \
        code; \
        return grid::read(r, s);
    switch(kind) {
        case 0:
            agree<true>(c, n, [&](auto& e) { SCALAR(T, fa::statistic::sum<
                fa::sum::OutOfRangePolicy>(grid::policies(*a), out, e, *a, r))
                }, {error});
            break;
        case 1:
            agree<true>(c, n, [&](auto& e) { SCALAR(T, fa::statistic::mean<
                fa::mean::OutOfRangePolicy>(grid::policies(*a), out, e, *a,
                r)) }, {error});
            break;
        case 2:
            agree<true>(c, n, [&](auto& e) { SCALAR(T,
                fa::statistic::unary_min<>(grid::policies(*a), out, e, *a, r))
                });
            break;
        case 3:
            agree<true>(c, n, [&](auto& e) { SCALAR(T,
                fa::statistic::unary_max<>(grid::policies(*a), out, e, *a, r))
                });
            break;
        case 4:
            agree<true>(c, n, [&](auto& e) {
                fa::InputNoDataPolicies<decltype(grid::detect(*a)),
                    fa::SkipNoData> in{grid::detect(*a), {}};
                SCALAR(size_t, fa::statistic::count<
                    >(in, out, e, *a, wanted, r))
                });
            break;
        default: {
            fern::MaskedScalar<T> other(wanted, c.chance(1, 8));
            agree<true>(c, n, [&](auto& e) {
                auto r = grid::blank<T, D>(s, T(55));
                auto out = grid::marker(*r);
                if(kind == 5) {
                    fa::statistic::binary_min<>(grid::policies(*a, other),
                        out, e, *a, other, *r);
                }
                else {
                    fa::statistic::binary_max<>(grid::policies(other, *a),
                        out, e, other, *a, *r);
                }
                return grid::read(*r, s);
            });
        }
    }
}

PBT_TARGET(statistics, 40000, 1, RULE)
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {statistic<int32_t, 1>, statistic<double, 2>,
        statistic<int32_t, 2>, statistic<double, 1>};
    table[c.draw(4)](c);
}

#else

#define RULE "several threads, several rows, no-data and valid elements"

PBT_TARGET(spatial, 20000, 1, RULE)
{
    using T = double;
    size_t n = threads(c);
    size_t kind = c.draw(6);
    static char const* const names[] = {"gradient_x", "gradient_y",
        "laplacian", "lax", "slope", "convolve"};
    auto s = shape(c, 2, n, kind < 2 ? 1 : kind == 5 ? 4 : 2);
    auto where = grid::geometry(c);
    auto g = grid::elevation<T>(c, s, c.chance(4, 5));
    T fraction = c.range(0, 16) / 8.0;
    bool normalize = c.chance(1, 2), replace = c.chance(1, 2);
    c.desc() << names[kind] << " of " << grid::show(g) << ", "
        << grid::show(where) << ", fraction " << fraction << ", "
        << (normalize ? "normalized, " : "")
        << (replace ? "replacing no-data, " : "") << n << " threads";
    c.nontrivial(n > 1 && s.rows > 1 && g.any_masked() && g.any_valid());
    c.label(names[kind]);
    fern::Square<int, 2> kernel({{0, 0, 0, 0, 0}, {0, 0, 0, 0, 0},
        {0, 0, 0, 0, 0}, {0, 0, 0, 0, 0}, {0, 0, 0, 0, 0}});
    for(size_t i = 0; i < 25; ++i) {
        kernel.weight(i) = kind == 5 ? static_cast<int>(c.draw(6)) : 1;
    }
    agree<false>(c, n, [&](auto& e) {
        auto a = grid::raster(g, where);
        grid::Grid<T> before = g;
        before.values.assign(g.size(), T(-77));
        before.mask.assign(g.size(), false);
        auto r = grid::raster(before, where);
        auto out = grid::marker(*r);
        auto in = grid::policies(*a);
        namespace cv = fa::convolve;
        switch(kind) {
            case 0: fa::algebra::gradient_x<>(in, out, e, *a, *r); break;
            case 1: fa::algebra::gradient_y<>(in, out, e, *a, *r); break;
            case 2:
                fa::algebra::laplacian<fa::laplacian::OutOfRangePolicy>(in,
                    out, e, *a, *r);
                break;
            case 3: fa::algebra::lax<>(in, out, e, *a, fraction, *r); break;
            case 4:
                fa::space::slope<fa::slope::OutOfRangePolicy>(in, out, e, *a,
                    *r);
                break;
            default:
                if(normalize) {
                    fa::convolution::convolve<cv::SkipNoData,
                        cv::DivideByWeights, cv::SkipOutOfImage,
                        cv::KeepNoDataFocusElement, cv::OutOfRangePolicy>(in,
                            out, e, *a, kernel, *r);
                }
                else if(replace) {
                    fa::convolution::convolve<
                        cv::ReplaceNoDataByFocalAverage,
                        cv::DontDivideByWeights,
                        cv::ReplaceOutOfImageByFocalAverage,
                        cv::ReplaceNoDataFocusElement, cv::OutOfRangePolicy>(
                            in, out, e, *a, kernel, *r);
                }
                else {
                    fa::convolution::convolve<cv::SkipNoData,
                        cv::DontDivideByWeights, cv::SkipOutOfImage,
                        cv::ReplaceNoDataFocusElement, cv::OutOfRangePolicy>(
                            in, out, e, *a, kernel, *r);
                }
        }
        return grid::read(*r, s);
    });
}

#endif

} // Anonymous namespace
