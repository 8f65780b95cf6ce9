// P16: gradient, laplacian and lax follow their difference formulas.
//
// PART 0: gradient. PART 1: laplacian. PART 2: lax.
#include "raster.h"
#include <cmath>
#include "fern/algorithm/algebra/vector/gradient.h"
#include "fern/algorithm/algebra/vector/laplacian.h"
#include "fern/algorithm/algebra/vector/lax.h"

namespace {

constexpr long weights[3][3] = {{2, 3, 2}, {3, 0, 3}, {2, 3, 2}};

template<class T>
struct Around
{
    grid::Grid<T> const& g;

    bool valid(long r, long k) const
    {
        return r >= 0 && k >= 0 && r < long(g.shape.rows) &&
            k < long(g.shape.cols) && !g.mask[r * g.shape.cols + k];
    }

    long double at(long r, long k) const
    {
        return g.values[r * g.shape.cols + k];
    }
};

//! Expected value; false if the element is no-data.
template<class T>
bool gradient(Around<T> const& a, long r, long k, bool x, double size,
    long double& value, long double& magnitude)
{
    if(!a.valid(r, k)) { return false; }
    long dr = x ? 0 : 1, dk = x ? 1 : 0;
    bool before = a.valid(r - dr, k - dk), after = a.valid(r + dr, k + dk);
    long double from = before ? a.at(r - dr, k - dk) : a.at(r, k);
    long double to = after ? a.at(r + dr, k + dk) : a.at(r, k);
    long double distance = (before + after) * (long double)size;
    value = before || after ? (to - from) / distance : 0;
    magnitude = before || after
        ? (std::fabs(to) + std::fabs(from)) / distance : 0;
    return true;
}

template<class T>
bool neighbours(Around<T> const& a, long r, long k, long double& sum,
    long double& weight, long double& magnitude)
{
    sum = weight = magnitude = 0;
    if(!a.valid(r, k)) { return false; }
    for(long i = -1; i <= 1; ++i) {
        for(long j = -1; j <= 1; ++j) {
            long w = weights[i + 1][j + 1];
            if(w && a.valid(r + i, k + j)) {
                sum += w * a.at(r + i, k + j);
                magnitude += std::fabs(w * a.at(r + i, k + j));
                weight += w;
            }
        }
    }
    return weight > 0;
}

template<class T>
void run(pbt::Case& c)
{
    bool const x = c.chance(1, 2);
    size_t const least = PART == 0 ? 0 : 2;
    grid::Shape s{gen::extent(c, least, 16), gen::extent(c, least, 16)};
    if(grid::big(c, 2, s)) { s.cols = std::max(s.cols, least); }
    bool const no_data = c.chance(3, 4);
    auto where = grid::geometry(c);
    auto how = grid::how(c);
    T fraction = static_cast<T>(c.range(0, 16)) / T(8);
    auto g = grid::elevation<T>(c, s, no_data);
    c.desc() << (PART == 0 ? x ? "gradient_x" : "gradient_y"
            : PART == 1 ? "laplacian" : "lax")
        << " of " << typeid(T).name() << grid::show(g) << ", "
        << grid::show(where) << ", ";
    if(PART == 2) { c.desc() << "fraction " << fraction << ", "; }
    c.desc() << grid::show(how) << (no_data ? "" : ", ignoring no-data");
    grid::Grid<T> got = g;
    if(no_data) {
        auto a = grid::raster(g, where);
        grid::Grid<T> before = g;
        before.values.assign(g.size(), T(-77));
        before.mask.assign(g.size(), false);
        auto r = grid::raster(before, where);
        grid::execute_variant(how, [&](auto& e) {
            auto out = grid::marker(*r);
            auto in = grid::policies(*a);
#if PART == 0
            if(x) { fa::algebra::gradient_x<>(in, out, e, *a, *r); }
            else { fa::algebra::gradient_y<>(in, out, e, *a, *r); }
#elif PART == 1
            fa::algebra::laplacian<fa::laplacian::OutOfRangePolicy>(in, out, e,
                *a, *r);
#else
            fa::algebra::lax<>(in, out, e, *a, fraction, *r);
#endif
        });
        got = grid::read(*r, s);
    }
    else {
        auto a = grid::raster(g, where);
        auto r = grid::raster(g, where);
        grid::execute_variant(how, [&](auto& e) {
#if PART == 0
            if(x) { fa::algebra::gradient_x<>(e, *a, *r); }
            else { fa::algebra::gradient_y<>(e, *a, *r); }
#elif PART == 1
            fa::algebra::laplacian<>(e, *a, *r);
#else
            fa::algebra::lax<>(e, *a, fraction, *r);
#endif
        });
        got.values.assign(r->data(), r->data() + r->num_elements());
    }
    Around<T> around{g};
    bool some = false;
    for(size_t i = 0; i < g.size(); ++i) {
        long row = i / s.cols, col = i % s.cols;
        long double want = 0, magnitude = 0;
        bool valid;
#if PART == 0
        valid = gradient(around, row, col, x, x ? where.width : where.height,
            want, magnitude);
#else
        long double sum, weight;
        valid = neighbours(around, row, col, sum, weight, magnitude);
        if(valid) {
            long double v = g.values[i];
#if PART == 1
            long double area = (long double)where.width * where.height;
            want = (sum - weight * v) / area;
            magnitude = (magnitude + weight * std::fabs(v)) / area;
#else
            want = (1 - (long double)fraction) * v +
                fraction * sum / weight;
            magnitude = std::fabs(1 - (long double)fraction) * std::fabs(v) +
                std::fabs(v) + fraction * magnitude / weight;
#endif
        }
#endif
        some = some || valid;
        PBT_CHECK(got.mask[i] == !valid, "element (" << row << ", " << col
            << ") is " << (got.mask[i] ? "no-data" : "valid") << ", want "
            << (valid ? "valid" : "no-data"));
        long double error = magnitude * 16 * std::numeric_limits<T>::epsilon();
        PBT_CHECK(!valid || std::fabs(got.values[i] - want) <= error,
            "element (" << row << ", " << col << ") is "
            << pbt::show(got.values[i]) << ", want " << pbt::show((T)want)
            << " within " << (double)error);
    }
    c.nontrivial(some && (g.any_masked() || !no_data));
}

} // namespace

#define RULE "there are valid results, and no-data unless it is ignored"
#if PART == 0
// Laplacian and lax are calculated with doubles: they have no float version.
PBT_TARGET(with_float, 20000, 1, RULE) { run<float>(c); }
#endif
PBT_TARGET(with_double, 20000, 1, RULE) { run<double>(c); }
