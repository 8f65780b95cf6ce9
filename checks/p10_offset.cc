// P10: offset moves every element by the same distance.
#include "grid.h"
#include "fern/core/data_customization_point/point.h"
#include "fern/core/data_type_traits/point.h"
#include "fern/algorithm/core/offset.h"

namespace {

template<class O>
O distance(pbt::Case& c, size_t size)
{
    int64_t lo = std::numeric_limits<O>::min(),
        hi = std::numeric_limits<O>::max();
    int64_t v;
    switch(c.weighted({6, 2, 2, 1})) {
        case 0: v = c.range(0, 6); break;
        case 1: v = c.range(0, static_cast<int64_t>(size) + 2); break;
        // About the size: nothing or almost nothing is left.
        case 2: v = static_cast<int64_t>(size) + c.range(-1, 1); break;
        default: v = c.pick<int64_t>({hi, hi - 1, 1000}); break;
    }
    if(c.chance(1, 2)) { v = v == hi ? lo : -v; }
    return static_cast<O>(std::max(lo, std::min(hi, v)));
}

template<class T, class O, int D>
void offset(pbt::Case& c, size_t max=18)
{
    auto s = D == 1 ? grid::Shape{1, gen::extent(c, 1, max * 4)}
        : grid::Shape{gen::extent(c, 1, max), gen::extent(c, 1, max)};
    if(max >= 18) { grid::big(c, D, s); }
    auto how = grid::how(c);
    auto g = grid::grid<T>(c, s, gen::any<T>);
    auto want = grid::grid<T>(c, s, [](pbt::Case& c) {
        return static_cast<T>(c.range(50, 60)); }, false);
    fern::Point<O, D> by;
    O rows = D == 2 ? distance<O>(c, s.rows) : O(0);
    O cols = distance<O>(c, s.cols);
    if constexpr (D == 1) { fern::get<0>(by) = cols; }
    else {
        fern::get<0>(by) = rows;
        fern::get<1>(by) = cols;
    }
    bool fill = c.chance(1, 2);
    bool policies = !c.chance(1, 5);
    T fill_value = gen::any<T>(c);
    c.desc() << "offset " << grid::show(g) << " by (" << +rows << ", "
        << +cols << ")" << (fill ? " filling with " : "")
        << (fill ? pbt::show(fill_value) : "")
        << (policies ? "" : " without no-data") << ", " << grid::show(how);
    auto a = grid::data<T, D>(g);
    auto r = grid::data<T, D>(want);
    size_t moved = 0;
    for(size_t i = 0; i < s.rows; ++i) {
        for(size_t j = 0; j < s.cols; ++j) {
            // Where this element comes from.
            __int128 from_i = static_cast<__int128>(i) - rows;
            __int128 from_j = static_cast<__int128>(j) - cols;
            size_t to = i * s.cols + j;
            if(from_i < 0 || from_j < 0 || from_i >= s.rows ||
                    from_j >= s.cols) {
                if(fill) { want.values[to] = fill_value; }
                else if(policies) { want.mask[to] = true; }
                continue;
            }
            size_t from = static_cast<size_t>(from_i) * s.cols +
                static_cast<size_t>(from_j);
            ++moved;
            if(policies && g.mask[from]) { want.mask[to] = true; }
            else { want.values[to] = g.values[from]; }
        }
    }
    c.nontrivial(moved > 0 && moved < s.size() && (g.any_masked() ||
        !policies));
    c.label(moved == 0 ? "everything moves out" : moved == s.size()
        ? "nothing moves" : "part moves out");
    c.label(std::to_string(D) + "D");
    grid::execute_variant(how, [&](fa::ExecutionPolicy& e) {
        auto out = grid::marker(*r);
        if(policies) {
            if(fill) {
                fa::core::offset<>(grid::policies(*a), out, e, *a, by,
                    fill_value, *r);
            }
            else {
                fa::core::offset<>(grid::policies(*a), out, e, *a, by, *r);
            }
        }
        else {
            if(fill) { fa::core::offset(e, *a, by, fill_value, *r); }
            else { fa::core::offset(e, *a, by, *r); }
        }
    });
    grid::compare(c, grid::read(*r, s), want, "result", true);
    grid::compare(c, grid::read(*a, s), g, "argument", true);
}

PBT_TARGET(offset, 60000, 1, "some elements move within the data, others out "
    "of it, and there is no-data")
{
    using F = void (*)(pbt::Case&, size_t);
    static F const table[] = {
        offset<int32_t, int32_t, 1>, offset<double, int64_t, 1>,
        offset<uint8_t, int32_t, 1>,
        offset<int32_t, int32_t, 2>, offset<double, int64_t, 2>,
        offset<uint8_t, int32_t, 2>};
    table[c.draw(6)](c, 18);
}

PBT_TARGET(offset_large, 2000, 1, "some elements move within the data, "
    "others out of it, and there is no-data")
{
    using F = void (*)(pbt::Case&, size_t);
    static F const table[] = {
        offset<int32_t, int32_t, 1>, offset<uint8_t, int32_t, 2>};
    table[c.draw(2)](c, 80);
}

} // Anonymous namespace
