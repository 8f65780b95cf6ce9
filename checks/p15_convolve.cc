// P15: convolution is the weighted sum over the available neighbourhood.
//
// PART's bits select the policies: 1 replaces no-data by the focal average,
// 2 replaces what is out of the image by the focal average, 4 replaces
// no-data focus elements.
#include <cmath>
#include "grid.h"
#include "fern/algorithm/convolution/neighborhood.h"
#include "fern/algorithm/convolution/convolve.h"

namespace {

namespace fc = fa::convolve;

constexpr bool replace_no_data = PART & 1;
constexpr bool replace_out_of_image = PART & 2;
constexpr bool replace_focus = PART & 4;

using NoData = std::conditional_t<replace_no_data,
    fc::ReplaceNoDataByFocalAverage, fc::SkipNoData>;
using OutOfImage = std::conditional_t<replace_out_of_image,
    fc::ReplaceOutOfImageByFocalAverage, fc::SkipOutOfImage>;
using Focus = std::conditional_t<replace_focus,
    fc::ReplaceNoDataFocusElement, fc::KeepNoDataFocusElement>;

//! Kernel of a radius that is chosen at runtime.
template<class W>
struct Runtime
{
    using weight = W;
    static size_t radius(pbt::Case& c) { return c.pick<size_t>({1, 2, 3, 0}); }
    static fern::Kernel<W> make(size_t radius) { return {radius, W(0)}; }
};

template<class W, size_t R>
struct Fixed
{
    using weight = W;
    static size_t radius(pbt::Case&) { return R; }
    static fern::Square<W, R> make(size_t)
    {
        if constexpr (R == 1) {
            return fern::Square<W, R>({{0, 0, 0}, {0, 0, 0}, {0, 0, 0}});
        }
        else {
            return fern::Square<W, R>({{0, 0, 0, 0, 0}, {0, 0, 0, 0, 0},
                {0, 0, 0, 0, 0}, {0, 0, 0, 0, 0}, {0, 0, 0, 0, 0}});
        }
    }
};

enum Verdict { VALID, NO_DATA, UNKNOWN };

//! Sum over the available cells, written from the documentation.
template<class V, class W>
struct Model
{
    grid::Grid<V> const& g;
    std::vector<W> const& weights;
    long radius;
    bool normalize, check;

    bool inside(long r, long k) const
    {
        return r >= 0 && k >= 0 && r < long(g.shape.rows) &&
            k < long(g.shape.cols);
    }

    bool valid(long r, long k) const
    {
        return inside(r, k) && !g.mask[r * g.shape.cols + k];
    }

    //! Average of the valid cells around a cell.
    bool average(long r, long k, long double& value, long double& size) const
    {
        long double sum = 0;
        size = 0;
        size_t n = 0;
        for(long i = r - 1; i <= r + 1; ++i) {
            for(long j = k - 1; j <= k + 1; ++j) {
                if(!(i == r && j == k) && valid(i, j)) {
                    sum += g.values[i * g.shape.cols + j];
                    size += std::fabs((long double)
                        g.values[i * g.shape.cols + j]);
                    ++n;
                }
            }
        }
        if(n) { value = sum / n; }
        return n;
    }

    Verdict eval(long r, long k, long double& value, long double& error) const
    {
        if(!replace_focus && !valid(r, k)) { return NO_DATA; }
        long double sum = 0, weight = 0, magnitude = 0;
        size_t nr = 0, nr_zero = 0;
        bool infinite = false, infinite_zero = false;
        bool negative = false, positive = false;
        long size = 2 * radius + 1;
        for(long i = 0; i < size; ++i) {
            for(long j = 0; j < size; ++j) {
                long y = r + i - radius, x = k + j - radius;
                long double w = weights[i * size + j];
                long double v = 0, around = 0;
                if(valid(y, x)) {
                    if(w == 0) { continue; }
                    v = g.values[y * g.shape.cols + x];
                }
                else if(inside(y, x) ? !replace_no_data
                        : !replace_out_of_image) {
                    continue;
                }
                else if(!average(y, x, v, around)) { continue; }
                if(w == 0) {
                    ++nr_zero;
                    infinite_zero = infinite_zero || !std::isfinite(v) ||
                        around * 2 > std::numeric_limits<V>::max();
                    continue;
                }
                ++nr;
                infinite = infinite || !std::isfinite(v);
                (w * v < 0 ? negative : positive) = true;
                sum += w * v;
                weight += w;
                // Averages may have gone out of range underway.
                magnitude += std::fabs(w * v) + around * (1 + std::fabs(w));
            }
        }
        if(!nr) { return nr_zero ? UNKNOWN : NO_DATA; }
        if(infinite_zero) { return UNKNOWN; }
        using L = std::numeric_limits<V>;
        if(infinite) { return check ? NO_DATA : UNKNOWN; }
        long double const limit = L::max();
        if(magnitude > limit * (1 - 1e-5L)) {
            return check && negative != positive && !replace_no_data &&
                !replace_out_of_image && magnitude > limit * (1 + 1e-5L)
                ? NO_DATA : UNKNOWN;
        }
        error = magnitude * L::epsilon() * (nr + nr_zero + 10) * 2;
        value = sum;
        if(normalize) {
            if(std::fabs(weight) < 1e-3L) { return UNKNOWN; }
            value /= weight;
            error /= std::fabs(weight);
            // Whether the range is that of the sum or of the quotient.
            if(!(std::fabs(value) + error < limit)) { return UNKNOWN; }
        }
        error += L::min();
        return VALID;
    }
};

template<class V, class K, class Normalize, template<class, class> class OORP>
void run(pbt::Case& c, bool normalize, bool check)
{
    using W = typename K::weight;
    size_t const radius = K::radius(c);
    size_t const size = 2 * radius + 1;
    grid::Shape s;
    size_t const least = std::max<size_t>(2 * radius, 1);
    s.rows = gen::extent(c, least, least + 12);
    s.cols = gen::extent(c, least, least + 12);
    if(grid::big(c, 2, s)) {
        s.rows = std::max(s.rows, least);
        s.cols = std::max(s.cols, least);
    }
    auto how = grid::how(c);
    size_t const mode = c.weighted({6, 2, 1});
    auto g = grid::grid<V>(c, s, [mode](pbt::Case& c) -> V {
        using L = std::numeric_limits<V>;
        if(mode == 0) { return gen::small<V>(c); }
        if(mode == 1) {
            V v = gen::floating<V>(c, false);
            return std::isfinite(v) ? v : V(1);
        }
        return c.pick<V>({V(1), L::max(), L::max() / 2, L::lowest(), V(3),
            L::infinity(), V(2), V(5)});
    });
    // Values of no-data elements must not be used.
    for(size_t i = 0; i < g.size(); ++i) {
        if(g.mask[i] && c.chance(1, 2)) {
            g.values[i] = std::numeric_limits<V>::quiet_NaN();
        }
    }
    auto kernel = K::make(radius);
    std::vector<W> weights(size * size);
    bool const sparse = c.chance(1, 4), negative = c.chance(1, 4);
    for(size_t i = 0; i < weights.size(); ++i) {
        if(sparse && !c.chance(1, 4)) { weights[i] = W(0); }
        else if(std::is_same<W, bool>::value) { weights[i] = c.chance(2, 3); }
        else {
            int64_t w = c.range(0, 9);
            if(negative && c.chance(1, 2)) { w = -w; }
            weights[i] = std::is_floating_point<W>::value ? W(w) / W(2) : W(w);
        }
        kernel.weight(i) = weights[i];
    }
    c.desc() << (normalize ? "normalized " : "") << "convolution of "
        << typeid(V).name() << grid::show(g) << " with "
        << typeid(W).name() << "[";
    for(size_t i = 0; i < weights.size(); ++i) {
        c.desc() << (i ? i % size ? " " : " / " : "") << pbt::show(W(weights[i]));
    }
    c.desc() << "]" << (check ? ", checking the range" : "")
        << (replace_no_data ? ", replacing no-data" : "")
        << (replace_out_of_image ? ", replacing out of image" : "")
        << (replace_focus ? ", replacing no-data focus elements" : "")
        << ", " << grid::show(how);
    auto a = grid::data<V, 2>(g);
    auto r = grid::blank<V, 2>(s, V(-77));
    grid::execute_variant(how, [&](fa::ExecutionPolicy& e) {
        auto out = grid::marker(*r);
        fa::convolution::convolve<NoData, Normalize, OutOfImage, Focus, OORP>(
            grid::policies(*a), out, e, *a, kernel, *r);
    });
    auto got = grid::read(*r, s);
    Model<V, W> model{g, weights, long(radius), normalize, check};
    bool some = false, none = false;
    for(size_t i = 0; i < got.size(); ++i) {
        long double want, error;
        Verdict v = model.eval(i / s.cols, i % s.cols, want, error);
        if(v == UNKNOWN) { continue; }
        (v == VALID ? some : none) = true;
        PBT_CHECK(got.mask[i] == (v == NO_DATA), "element (" << i / s.cols
            << ", " << i % s.cols << ") is " << (got.mask[i] ? "no-data"
                : "valid") << ", want " << (v == NO_DATA ? "no-data"
                : "valid"));
        if(v == VALID) {
            PBT_CHECK(std::fabs((long double)got.values[i] - want) <= error,
                "element (" << i / s.cols << ", " << i % s.cols << ") is "
                << pbt::show(got.values[i]) << ", want "
                << pbt::show((V)want) << " within " << (double)error);
        }
    }
    if(none) { c.label("no-data result"); }
    c.nontrivial(some && g.any_masked());
}

template<class V, class K>
void any(pbt::Case& c)
{
    // Not the full product: it takes long to compile.
    if(c.chance(1, 2)) {
        run<V, K, fc::DivideByWeights, fc::OutOfRangePolicy>(c, true, true);
    }
    else {
        run<V, K, fc::DontDivideByWeights, fc::OutOfRangePolicy>(c, false,
            true);
    }
}

} // namespace

#define RULE "valid results, and no-data in the image"
PBT_TARGET(double_kernel, 3000, 1, RULE)
    { any<double, Runtime<double>>(c); }
PBT_TARGET(float_square_of_int, 3000, 1, RULE)
    { any<float, Fixed<int, 1>>(c); }
PBT_TARGET(double_square_of_bool, 3000, 1, RULE)
    { any<double, Fixed<bool, 2>>(c); }
PBT_TARGET(float_kernel_of_bool, 3000, 1, RULE)
    { any<float, Runtime<bool>>(c); }
PBT_TARGET(float_kernel_of_float, 3000, 1, RULE)
{
    run<float, Runtime<float>, fc::DivideByWeights, fa::unary::DiscardRangeErrors>(
        c, true, false);
}

#if PART == 0
//! A kernel of \a size by \a size with \a w as weights, row by row.
template<class W, class K>
K literal(std::vector<W> const& w, size_t size)
{
    auto v = [&](size_t i) { return W(w[i]); };
    if constexpr (std::is_same<K, fern::Kernel<W>>::value) {
        if(size == 1) { return K(0, {{v(0)}}); }
        if(size == 3) {
            return K(1, {{v(0), v(1), v(2)}, {v(3), v(4), v(5)},
                {v(6), v(7), v(8)}});
        }
        return K(2, {{v(0), v(1), v(2), v(3), v(4)},
            {v(5), v(6), v(7), v(8), v(9)}, {v(10), v(11), v(12), v(13),
            v(14)}, {v(15), v(16), v(17), v(18), v(19)}, {v(20), v(21),
            v(22), v(23), v(24)}});
    }
    else if constexpr (K::size() == 1) { return K({{v(0)}}); }
    else if constexpr (K::size() == 3) {
        return K({{v(0), v(1), v(2)}, {v(3), v(4), v(5)},
            {v(6), v(7), v(8)}});
    }
    else {
        return K({{v(0), v(1), v(2), v(3), v(4)},
            {v(5), v(6), v(7), v(8), v(9)}, {v(10), v(11), v(12), v(13),
            v(14)}, {v(15), v(16), v(17), v(18), v(19)}, {v(20), v(21),
            v(22), v(23), v(24)}});
    }
}

template<class W, class K>
void weights_of(pbt::Case& c, size_t size)
{
    std::vector<W> want(size * size);
    for(size_t i = 0; i < want.size(); ++i) { want[i] = gen::any<W>(c); }
    constexpr bool runtime = std::is_same<K, fern::Kernel<W>>::value;
    bool uniform = runtime && c.chance(1, 3);
    if(uniform) { want.assign(want.size(), W(want[0])); }
    size_t changed = c.draw(want.size() + 1);
    W change = gen::any<W>(c);
    c.desc() << (runtime ? "kernel" : "square") << " of " << size << " by "
        << size << (uniform ? ", the same everywhere" : "") << ":";
    for(W w: want) { c.desc() << " " << pbt::show(w); }
    c.nontrivial(size > 1 && std::count(want.begin(), want.end(), W(want[0])) !=
        long(want.size()));
    K first = [&]() {
        if constexpr (runtime) {
            if(uniform) { return K((size - 1) / 2, want[0]); }
        }
        return literal<W, K>(want, size);
    }();
    K kernel(std::move(first));
    if(changed < want.size()) { kernel.weight(changed) = want[changed] = change; }
    K const& constant = kernel;
    PBT_EQ(size_t(kernel.size()), size, "size");
    if constexpr (runtime) {
        PBT_EQ(size_t(kernel.radius()), (size - 1) / 2, "radius");
    }
    for(size_t i = 0; i < want.size(); ++i) {
        PBT_CHECK(gen::same(W(constant.weight(i)), W(want[i])), "weight " << i
            << " is " << pbt::show(W(constant.weight(i))) << ", want "
            << pbt::show(W(want[i])));
        PBT_CHECK(gen::same(W(kernel.weight(i)), W(want[i])), "weight " << i);
    }
}

template<class W>
void any_kernel(pbt::Case& c)
{
    if(c.chance(1, 2)) {
        weights_of<W, fern::Kernel<W>>(c, c.pick<size_t>({1, 3, 5}));
    }
    else {
        switch(c.draw(3)) {
            case 0: weights_of<W, fern::Square<W, 0>>(c, 1); break;
            case 1: weights_of<W, fern::Square<W, 1>>(c, 3); break;
            default: weights_of<W, fern::Square<W, 2>>(c, 5);
        }
    }
}

PBT_TARGET(kernels, 6000, 1, "different weights")
{
    switch(c.draw(3)) {
        case 0: any_kernel<double>(c); break;
        case 1: any_kernel<int>(c); break;
        default: any_kernel<bool>(c);
    }
}

// The overload with the default policies.
PBT_TARGET(defaults, 3000, 1, "more than one element")
{
    auto how = grid::how(c);
    size_t const radius = 1;
    grid::Shape s{c.size(2, 12), c.size(2, 12)};
    auto g = grid::grid<double>(c, s, gen::small<double>, false);
    c.desc() << "convolution of " << grid::show(g) << ", "
        << grid::show(how);
    fern::Square<int, 1> kernel({{1, 2, 3}, {4, 5, 6}, {7, 8, 9}});
    std::vector<int> weights{1, 2, 3, 4, 5, 6, 7, 8, 9};
    fern::Array<double, 2> a(fern::extents[s.rows][s.cols]);
    fern::Array<double, 2> r(fern::extents[s.rows][s.cols]);
    std::copy(g.values.begin(), g.values.end(), a.data());
    grid::execute_variant(how, [&](fa::ExecutionPolicy& e) {
        fa::convolution::convolve(e, a, kernel, r);
    });
    Model<double, int> model{g, weights, long(radius), true, false};
    for(size_t i = 0; i < g.size(); ++i) {
        long double want, error;
        model.eval(i / s.cols, i % s.cols, want, error);
        PBT_CHECK(std::fabs(r.data()[i] - want) <= error, "element " << i
            << " is " << pbt::show(r.data()[i]) << ", want " << (double)want);
    }
    c.nontrivial(g.size() > 1);
}
#endif
