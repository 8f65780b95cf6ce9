// P17: slope is Horn's formula, independent of level and orientation.
#include <cmath>
#include "raster.h"
#include "fern/algorithm/space/focal/slope.h"

namespace {

template<class T>
grid::Grid<T> slope(grid::Grid<T> const& g, grid::Geometry const& where,
    grid::How const& how)
{
    auto a = grid::raster(g, where);
    grid::Grid<T> before = g;
    before.values.assign(g.size(), T(-77));
    before.mask.assign(g.size(), false);
    auto r = grid::raster(before, where);
    grid::execute_variant(how, [&](auto& e) {
        auto out = grid::marker(*r);
        fa::space::slope<fa::slope::OutOfRangePolicy>(grid::policies(*a), out,
            e, *a, *r);
    });
    return grid::read(*r, g.shape);
}

template<class T>
struct Model
{
    grid::Grid<T> const& g;
    grid::Geometry const& where;

    bool valid(long r, long k) const
    {
        return r >= 0 && k >= 0 && r < long(g.shape.rows) &&
            k < long(g.shape.cols) && !g.mask[r * g.shape.cols + k];
    }

    //! Value, or the average of the valid cells around.
    long double at(long r, long k, long double& magnitude) const
    {
        if(valid(r, k)) {
            long double v = g.values[r * g.shape.cols + k];
            magnitude += std::fabs(v);
            return v;
        }
        long double sum = 0;
        size_t n = 0;
        for(long i = r - 1; i <= r + 1; ++i) {
            for(long j = k - 1; j <= k + 1; ++j) {
                if(valid(i, j)) {
                    long double v = g.values[i * g.shape.cols + j];
                    sum += v;
                    magnitude += std::fabs(v);
                    ++n;
                }
            }
        }
        return sum / n;
    }

    void eval(long r, long k, long double& value, long double& error) const
    {
        static long const w[3] = {1, 2, 1};
        long double dx = 0, dy = 0, mx = 0, my = 0;
        for(long i = -1; i <= 1; ++i) {
            dx += w[i + 1] * (at(r + i, k - 1, mx) - at(r + i, k + 1, mx));
            dy += w[i + 1] * (at(r + 1, k + i, my) - at(r - 1, k + i, my));
        }
        dx /= 8 * (long double)where.width;
        dy /= 8 * (long double)where.height;
        mx /= 4 * (long double)where.width;
        my /= 4 * (long double)where.height;
        value = std::sqrt(dx * dx + dy * dy);
        long double eps = std::numeric_limits<T>::epsilon();
        error = (mx + my + value) * eps * 16 +
            std::sqrt((long double)std::numeric_limits<T>::min()) * 4;
    }
};

//! Slopes of the raster according to the model; error per cell.
template<class T>
void compare(pbt::Case& c, grid::Grid<T> const& got, grid::Grid<T> const& g,
    grid::Geometry const& where, std::string const& what)
{
    Model<T> model{g, where};
    for(size_t i = 0; i < g.size(); ++i) {
        long row = i / g.shape.cols, col = i % g.shape.cols;
        PBT_CHECK(got.mask[i] == g.mask[i], what << "(" << row << ", " << col
            << ") is " << (got.mask[i] ? "no-data" : "valid") << ", want "
            << (g.mask[i] ? "no-data" : "valid"));
        if(g.mask[i]) { continue; }
        long double want, error;
        model.eval(row, col, want, error);
        PBT_CHECK(std::fabs(got.values[i] - want) <= error, what << "("
            << row << ", " << col << ") is " << pbt::show(got.values[i])
            << ", want " << pbt::show((T)want) << " within " << (double)error);
    }
}

template<class T>
void horn(pbt::Case& c)
{
    grid::Shape s{gen::extent(c, 2, 16), gen::extent(c, 2, 16)};
    if(grid::big(c, 2, s)) { s.cols = std::max<size_t>(s.cols, 2); }
    auto where = grid::geometry(c);
    auto how = grid::how(c);
    auto g = grid::elevation<T>(c, s, c.chance(4, 5));
    c.desc() << "slope of " << typeid(T).name() << grid::show(g) << ", "
        << grid::show(where) << ", " << grid::show(how);
    compare(c, slope(g, where, how), g, where, "slope");
    c.nontrivial(g.any_masked() && g.any_valid());
}

//! Relations between the slopes of a raster and of a changed raster.
void relation(pbt::Case& c)
{
    using T = double;
    grid::Shape s{gen::extent(c, 2, 14), gen::extent(c, 2, 14)};
    size_t const kind = c.draw(6);
    auto where = grid::geometry(c, kind == 3);
    auto how = grid::how(c);
    auto g = grid::elevation<T>(c, s);
    T const level = static_cast<T>(c.range(-1000, 1000));
    c.desc() << "slope of " << grid::show(g) << ", " << grid::show(where)
        << ", ";
    auto at = [&](size_t r, size_t k) { return r * s.cols + k; };
    grid::Grid<T> h = g;
    grid::Geometry there = where;
    // Where an element of g is in h.
    std::vector<size_t> to(g.size());
    T factor = 1;
    for(size_t r = 0; r < s.rows; ++r) {
        for(size_t k = 0; k < s.cols; ++k) {
            size_t i = at(r, k);
            switch(kind) {
                case 1: to[i] = at(r, s.cols - 1 - k); break;
                case 2: to[i] = at(s.rows - 1 - r, k); break;
                case 3: to[i] = k * s.rows + r; break;
                default: to[i] = i;
            }
        }
    }
    switch(kind) {
        case 0: c.desc() << "raised by " << level; break;
        case 1: c.desc() << "mirrored east-west"; break;
        case 2: c.desc() << "mirrored north-south"; break;
        case 3:
            c.desc() << "transposed";
            h.shape = {s.cols, s.rows};
            break;
        case 4:
            c.desc() << "scaled by -4";
            factor = -4;
            break;
        default:
            c.desc() << "cells enlarged by 2";
            there.width *= 2;
            there.height *= 2;
    }
    c.desc() << ", " << grid::show(how);
    T largest = 0;
    for(size_t i = 0; i < g.size(); ++i) {
        h.mask[to[i]] = g.mask[i];
        h.values[to[i]] = g.values[i] * factor + (kind == 0 ? level : 0);
        if(!g.mask[i]) {
            largest = std::max({largest, std::fabs(g.values[i]),
                std::fabs(h.values[to[i]])});
        }
    }
    auto first = slope(g, where, how), second = slope(h, there, how);
    T scale = kind == 5 ? 0.5 : std::fabs(factor);
    T error = largest * 1e-13 * std::max(T(1), scale) *
        (1 / where.width + 1 / where.height) + 1e-150;
    for(size_t i = 0; i < g.size(); ++i) {
        PBT_CHECK(first.mask[i] == second.mask[to[i]], "element " << i
            << " is no-data in one of the two");
        if(first.mask[i]) { continue; }
        PBT_CHECK(std::fabs(first.values[i] * scale - second.values[to[i]]) <=
            error, "slope of element " << i << " is "
            << pbt::show(first.values[i]) << ", and that of the changed "
            "raster is " << pbt::show(second.values[to[i]]));
    }
    c.nontrivial(g.any_masked() && g.any_valid());
}

} // namespace

#define RULE "there are no-data and valid elements"
PBT_TARGET(horn_float, 20000, 1, RULE) { horn<float>(c); }
PBT_TARGET(horn_double, 20000, 1, RULE) { horn<double>(c); }
PBT_TARGET(relations, 20000, 1, RULE) { relation(c); }

PBT_TARGET(inclined_plane, 10000, 1, "more than the border")
{
    grid::Shape s{c.size(2, 12), c.size(2, 12)};
    auto where = grid::geometry(c);
    auto how = grid::how(c);
    double dx = c.range(-20, 20) / 4.0, dy = c.range(-20, 20) / 4.0;
    double base = c.range(-100, 100);
    c.desc() << "plane with gradient " << dx << ", " << dy << " from " << base
        << ", " << s.rows << " x " << s.cols << " " << grid::show(where)
        << ", " << grid::show(how);
    grid::Grid<double> g = grid::grid<double>(c, s, [](pbt::Case&) {
        return 0.; }, false);
    for(size_t i = 0; i < g.size(); ++i) {
        g.values[i] = base + dx * (i % s.cols) * where.width +
            dy * (i / s.cols) * where.height;
    }
    auto a = grid::raster(g, where);
    auto r = grid::raster(g, where);
    grid::execute_variant(how, [&](auto& e) {
        fa::space::slope<>(e, *a, *r);
    });
    double want = std::sqrt(dx * dx + dy * dy);
    for(size_t i = 1; i + 1 < s.rows; ++i) {
        for(size_t j = 1; j + 1 < s.cols; ++j) {
            double got = r->data()[i * s.cols + j];
            PBT_CHECK(std::fabs(got - want) <= (want + 200 / where.width +
                    200 / where.height) * 1e-12, "slope (" << i << ", " << j
                << ") is " << got << ", want " << want);
        }
    }
    grid::Grid<double> got = g;
    got.values.assign(r->data(), r->data() + r->num_elements());
    compare(c, got, g, where, "slope");
    c.nontrivial(s.rows > 2 && s.cols > 2);
}
