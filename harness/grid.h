// Scalars, one- and two-dimensional masked data, and execution policies.
#pragma once
#include <map>
#include <memory>
#include <sstream>
#include <vector>
#include "gen.h"
#include "fern/core/data_customization_point/scalar.h"
#include "fern/core/data_customization_point/vector.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/feature/core/data_customization_point/masked_array.h"
#include "fern/feature/core/data_customization_point/masked_scalar.h"
#include "fern/algorithm/policy/policies.h"
#include "fern/algorithm/policy/execution_policy.h"

namespace fa = fern::algorithm;

namespace grid {

struct Shape
{
    size_t rows{1}, cols{1};
    size_t size() const { return rows * cols; }
};

//! Values and no-data marks, in row major order: the oracles' form of data.
template<class T>
struct Grid
{
    Shape shape;
    std::vector<T> values;
    std::vector<bool> mask;

    size_t size() const { return values.size(); }
    bool any_masked() const
    {
        for(bool b: mask) { if(b) { return true; } }
        return false;
    }
    bool any_valid() const
    {
        for(bool b: mask) { if(!b) { return true; } }
        return false;
    }
};

//! Sometimes: more elements than an index of 16 bits can count.
inline bool big(pbt::Case& c, int dims, Shape& s)
{
    if(dims == 0 || !c.chance(1, 4000)) { return false; }
    if(dims == 1) { s = {1, 65530 + c.draw(20000)}; return true; }
    switch(c.draw(4)) {
        case 0: s = {250 + c.draw(40), 262 + c.draw(40)}; break;
        case 1: s = {2 + c.draw(3), 33000 + c.draw(2000)}; break;
        case 2: s = {33000 + c.draw(2000), 2 + c.draw(3)}; break;
        default: s = {65530 + c.draw(20), 1 + c.draw(2)};
    }
    return true;
}

inline Shape shape(pbt::Case& c, int dims, size_t max=18)
{
    if(dims == 0) { return {1, 1}; }
    Shape s;
    if(max >= 18 && big(c, dims, s)) { return s; }
    if(dims == 1) { return {1, gen::extent(c, 0, max * 4)}; }
    size_t rows = gen::extent(c, 0, max), cols = gen::extent(c, 0, max);
    return {rows, cols};
}

template<class T, class F>
Grid<T> grid(pbt::Case& c, Shape s, F const& value, bool no_data=true)
{
    Grid<T> g;
    g.shape = s;
    g.values.resize(s.size());
    g.mask.assign(s.size(), false);
    if(s.size() > 10000) {
        // A pattern that is repeated.
        auto tile = grid<T>(c, {7, 13}, value, no_data);
        size_t first = s.size(), last = s.size();
        if(no_data && c.chance(1, 2)) {
            // Everything before or after some element is no-data.
            size_t const at = c.draw(s.size() + 1);
            if(c.chance(1, 2)) { first = 0; last = at; }
            else { first = at; }
        }
        for(size_t i = 0; i < s.size(); ++i) {
            g.values[i] = tile.values[i % 91];
            g.mask[i] = tile.mask[i % 91] || (i >= first && i < last);
        }
        return g;
    }
    for(size_t i = 0; i < g.values.size(); ++i) { g.values[i] = value(c); }
    if(no_data) {
        bool some;
        g.mask = gen::no_data_pattern(c, s.rows, s.cols, some);
    }
    return g;
}

template<class T>
std::string show(Grid<T> const& g)
{
    std::ostringstream s;
    s << g.shape.rows << "x" << g.shape.cols << "[";
    size_t n = 0;
    for(size_t i = 0; i < g.values.size(); ++i) {
        if(i && i % g.shape.cols == 0) { s << " /"; }
        if(++n > 150) { s << " ..."; break; }
        s << (i ? " " : "");
        if(g.mask[i]) { s << "-"; }
        else { s << pbt::show(g.values[i]); }
    }
    s << "]";
    return s.str();
}

//! Fern data of dimension D: masked scalar or masked array.
template<class T, int D>
struct Data
{
    using type = fern::MaskedArray<T, D>;
};

template<class T>
struct Data<T, 0>
{
    using type = fern::MaskedScalar<T>;
};

template<class T, int D>
std::unique_ptr<typename Data<T, D>::type> blank(Shape const& s,
    T const& value=T())
{
    using X = typename Data<T, D>::type;
    if constexpr (D == 0) { return std::make_unique<X>(value); }
    else if constexpr (D == 1) {
        return std::make_unique<X>(fern::extents[
            static_cast<fern::Index>(s.size())], value);
    }
    else {
        return std::make_unique<X>(fern::extents[
            static_cast<fern::Index>(s.rows)][
            static_cast<fern::Index>(s.cols)], value);
    }
}

template<class T, int D>
std::unique_ptr<typename Data<T, D>::type> data(Grid<T> const& g)
{
    auto d = blank<T, D>(g.shape);
    if constexpr (D == 0) {
        d->value() = g.values[0];
        d->mask() = g.mask[0];
    }
    else {
        for(size_t i = 0; i < g.size(); ++i) {
            d->data()[i] = g.values[i];
            d->mask().data()[i] = g.mask[i];
        }
    }
    return d;
}

template<class T>
Grid<T> read(fern::MaskedScalar<T> const& d, Shape const&)
{
    return {{1, 1}, {d.value()}, {d.mask()}};
}

template<class T, size_t D>
Grid<T> read(fern::MaskedArray<T, D> const& d, Shape const& s)
{
    Grid<T> g;
    g.shape = s;
    g.values.assign(d.data(), d.data() + d.num_elements());
    g.mask.assign(d.mask().data(), d.mask().data() + d.mask().num_elements());
    return g;
}

template<class T>
auto const& mask_of(fern::MaskedScalar<T> const& d) { return d.mask(); }
template<class T>
auto& mask_of(fern::MaskedScalar<T>& d) { return d.mask(); }
template<class T, size_t D>
auto const& mask_of(fern::MaskedArray<T, D> const& d) { return d.mask(); }
template<class T, size_t D>
auto& mask_of(fern::MaskedArray<T, D>& d) { return d.mask(); }

template<class X>
auto detect(X const& d)
{
    using M = std::decay_t<decltype(mask_of(d))>;
    return fa::DetectNoDataByValue<M>(mask_of(d), true);
}

template<class X>
auto marker(X& d)
{
    using M = std::decay_t<decltype(mask_of(d))>;
    return fa::MarkNoDataByValue<M>(mask_of(d), true);
}

template<class... X>
auto policies(X const&... d)
{
    return fa::InputNoDataPolicies<decltype(detect(d))...>{detect(d)...};
}

inline fa::ParallelExecutionPolicy& parallel(size_t nr_threads)
{
    static std::map<size_t, std::unique_ptr<fa::ParallelExecutionPolicy>>
        pools;
    auto& p = pools[nr_threads];
    if(!p) { p = std::make_unique<fa::ParallelExecutionPolicy>(nr_threads); }
    return *p;
}

//! How an algorithm is executed. kind: 0 sequential, 1 parallel, 2 runtime
//! chosen sequential, 3 runtime chosen parallel.
struct How
{
    int kind{0};
    size_t threads{1};
};

inline std::string show(How const& h)
{
    std::ostringstream s;
    s << (h.kind == 0 ? "sequential" : h.kind == 1 ? "parallel"
        : h.kind == 2 ? "variant(sequential)" : "variant(parallel)");
    if(h.kind % 2) { s << " " << h.threads << " threads"; }
    return s.str();
}

inline How how(pbt::Case& c)
{
    How h;
    h.kind = static_cast<int>(c.weighted({3, 3, 1, 2}));
    if(h.kind % 2) { h.threads = c.pick<size_t>({1, 2, 3, 4, 7}); }
    return h;
}

template<class F>
void execute(How const& h, F const& f)
{
    switch(h.kind) {
        case 0: { fa::SequentialExecutionPolicy p; f(p); break; }
        case 1: { f(parallel(h.threads)); break; }
        case 2: {
            fa::ExecutionPolicy p{fa::SequentialExecutionPolicy{}};
            f(p);
            break;
        }
        default: {
            fa::ExecutionPolicy p{parallel(h.threads)};
            f(p);
        }
    }
}

//! As execute, but by way of the runtime chosen policy only: instantiates
//! the algorithm once.
template<class F>
void execute_variant(How const& h, F const& f)
{
    if(h.kind % 2) { fa::ExecutionPolicy p{parallel(h.threads)}; f(p); }
    else { fa::ExecutionPolicy p{fa::SequentialExecutionPolicy{}}; f(p); }
}

//! Sequential and parallel policy only: for operations that don't support the
//! runtime chosen policy.
template<class F>
void execute_concrete(How const& h, F const& f)
{
    if(h.kind % 2) { f(parallel(h.threads)); }
    else { fa::SequentialExecutionPolicy p; f(p); }
}

//! Compare result with expectation. Values of marked elements are compared
//! when \a masked_values.
template<class T>
void compare(pbt::Case& c, Grid<T> const& got, Grid<T> const& want,
    std::string const& what, bool masked_values=false)
{
    PBT_EQ(got.size(), want.size(), what << ": size");
    for(size_t i = 0; i < want.size(); ++i) {
        size_t cols = want.shape.cols ? want.shape.cols : 1;
        PBT_CHECK(got.mask[i] == want.mask[i], what << ": element ("
            << i / cols << ", " << i % cols << ") is "
            << (got.mask[i] ? "no-data" : "valid") << ", want "
            << (want.mask[i] ? "no-data" : "valid") << "; value "
            << pbt::show(got.values[i]));
        if(!want.mask[i] || masked_values) {
            PBT_CHECK(gen::same(got.values[i], want.values[i]), what
                << ": element (" << i / cols << ", " << i % cols << ")"
                << (want.mask[i] ? " (no-data)" : "") << " is "
                << pbt::show(got.values[i]) << ", want "
                << pbt::show(want.values[i]));
        }
    }
}

} // namespace grid
