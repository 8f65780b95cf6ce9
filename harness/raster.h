// Two-dimensional masked rasters for the checks of spatial operations.
#pragma once
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "grid.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/algorithm/core/argument_traits/masked_raster.h"
#include "fern/algorithm/core/argument_customization_point/masked_raster.h"

namespace grid {

struct Geometry
{
    double west{0}, width{1}, north{0}, height{1};
};

inline Geometry geometry(pbt::Case& c, bool square=false)
{
    Geometry g;
    g.west = c.range(-5, 5);
    g.north = c.range(-5, 5);
    g.width = c.pick<double>({1, 2, 0.5, 30, 0.1, 1000});
    g.height = c.chance(1, 2) ? c.pick<double>({1, 2, 0.5, 30, 0.1, 1000})
        : g.width;
    if(square) { g.height = g.width; }
    return g;
}

template<class T>
std::unique_ptr<fern::MaskedRaster<T, 2>> raster(Grid<T> const& g,
    Geometry const& where)
{
    using X = fern::MaskedRaster<T, 2>;
    typename X::Transformation t{{where.west, where.width, where.north,
        where.height}};
    auto d = std::make_unique<X>(fern::extents[
        static_cast<fern::Index>(g.shape.rows)][
        static_cast<fern::Index>(g.shape.cols)], t);
    for(size_t i = 0; i < g.size(); ++i) {
        d->data()[i] = g.values[i];
        d->mask().data()[i] = g.mask[i];
    }
    return d;
}

inline std::string show(Geometry const& g)
{
    std::ostringstream s;
    s << "cells of " << g.width << " x " << g.height;
    return s.str();
}

//! Values of elevation: constant, small, an inclined plane, large.
template<class T>
Grid<T> elevation(pbt::Case& c, Shape s, bool no_data=true)
{
    size_t kind = c.weighted({4, 1, 2, 2});
    T base = static_cast<T>(c.range(-40, 40)) / T(4);
    T dx = static_cast<T>(c.range(-8, 8)) / T(4);
    T dy = static_cast<T>(c.range(-8, 8)) / T(4);
    auto g = grid<T>(c, s, [&](pbt::Case& c) -> T {
        return kind == 0 ? gen::small<T>(c) : kind == 1 ? base
            : kind == 2 ? T(0)
            : static_cast<T>(c.range(-1000000, 1000000)) / T(8); }, no_data);
    if(kind == 2) {
        for(size_t i = 0; i < g.size(); ++i) {
            g.values[i] = base + dx * T(i % s.cols) + dy * T(i / s.cols);
        }
    }
    // Values of no-data elements must not be used.
    for(size_t i = 0; i < g.size(); ++i) {
        if(g.mask[i] && (g.size() > 10000 ? i % 3 == 0 : c.chance(1, 3))) {
            g.values[i] = std::numeric_limits<T>::quiet_NaN();
        }
    }
    return g;
}

} // namespace grid
