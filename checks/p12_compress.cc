// P12: compress keeps the valid values, and decompress undoes it.
#include "grid.h"
#include "fern/algorithm/core/compress.h"
#include "fern/algorithm/core/decompress.h"

namespace {

template<class T, int D, class Count, bool vector>
void compress(pbt::Case& c)
{
    auto s = grid::shape(c, D);
    auto how1 = grid::how(c), how2 = grid::how(c);
    auto g = grid::grid<T>(c, s, gen::any<T>);
    bool policies = !c.chance(1, 5);
    c.desc() << "compress " << grid::show(g) << (policies ? ""
        : " without no-data") << ", " << grid::show(how1)
        << ", decompress " << grid::show(how2);
    std::vector<T> want;
    for(size_t i = 0; i < s.size(); ++i) {
        if(!policies || !g.mask[i]) { want.push_back(g.values[i]); }
    }
    c.nontrivial(g.any_masked() && g.any_valid() && policies);
    c.label(std::to_string(D) + "D");
    auto a = grid::data<T, D>(g);
    using R = std::conditional_t<vector, std::vector<T>, fern::Array<T, 1>>;
    std::unique_ptr<R> compressed;
    if constexpr (vector) {
        compressed = std::make_unique<R>(s.size(), T(7));
    }
    else {
        compressed = std::make_unique<R>(fern::extents[
            static_cast<fern::Index>(s.size())], T(7));
    }
    Count count{99};
    grid::execute_variant(how1, [&](fa::ExecutionPolicy& e) {
        if(policies) {
            fa::core::compress<>(grid::policies(*a), e, *a, *compressed,
                count);
        }
        else { fa::core::compress(e, *a, *compressed, count); }
    });
    PBT_EQ(static_cast<size_t>(count), want.size(), "number of values");
    for(size_t i = 0; i < want.size(); ++i) {
        T got = compressed->data()[i];
        PBT_CHECK(gen::same(got, want[i]), "compressed value " << i << " is "
            << pbt::show(got) << ", want " << pbt::show(want[i]));
    }
    grid::compare(c, grid::read(*a, s), g, "argument", true);

    // And back. Where there is no-data is in the argument's mask.
    if constexpr (vector) {
        compressed->resize(want.size());
        if(c.chance(1, 3)) { compressed->shrink_to_fit(); }
    }
    auto back = grid::grid<T>(c, s, [](pbt::Case& c) {
        return static_cast<T>(c.range(50, 60)); }, false);
    auto r = grid::data<T, D>(back);
    for(size_t i = 0; i < s.size(); ++i) {
        if(policies && g.mask[i]) { back.mask[i] = true; }
        else { back.values[i] = g.values[i]; }
    }
    grid::execute_variant(how2, [&](fa::ExecutionPolicy& e) {
        if(policies) {
            auto out = grid::marker(*r);
            fa::core::decompress<>(grid::policies(*a), out, e, *compressed,
                *r);
        }
        else { fa::core::decompress(e, *compressed, *r); }
    });
    grid::compare(c, grid::read(*r, s), back, "decompressed", true);
}

PBT_TARGET(compress, 80000, 1, "there are valid values and no-data")
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {
        compress<int32_t, 1, size_t, true>, compress<double, 1, int, false>,
        compress<uint8_t, 2, size_t, true>, compress<double, 2, int64_t, true>,
        compress<int64_t, 2, uint32_t, false>};
    table[c.draw(5)](c);
}

} // Anonymous namespace
