// P11: merging, uniting and intersecting no-data.
#include "grid.h"
#include "fern/algorithm/core/merge_no_data.h"
#include "fern/algorithm/core/unite_no_data.h"
#include "fern/algorithm/core/intersect_no_data.h"

namespace {

enum Operation { merge, unite, intersect };

template<Operation operation, class A, class B, class R, int D>
void combine(pbt::Case& c)
{
    auto s = grid::shape(c, D);
    auto how = grid::how(c);
    auto g1 = grid::grid<A>(c, s, gen::any<A>);
    auto g2 = grid::grid<B>(c, s, gen::any<B>);
    // Marks that are there already are kept.
    auto want = grid::grid<R>(c, s, gen::any<R>, c.chance(1, 2));
    c.desc() << (operation == merge ? "merge" : operation == unite ? "unite"
        : "intersect") << " no-data of " << grid::show(g1);
    if(operation != merge) { c.desc() << " and " << grid::show(g2); }
    bool policies = c.chance(7, 8);
    c.desc() << " in " << grid::show(want)
        << (policies ? "" : ", without policies") << ", " << grid::show(how);
    auto a = grid::data<A, D>(g1);
    auto b = grid::data<B, D>(g2);
    auto r = grid::data<R, D>(want);
    bool one = false, both = false, none = false;
    for(size_t i = 0; i < s.size(); ++i) {
        bool m1 = g1.mask[i], m2 = g2.mask[i];
        one = one || m1 != m2;
        both = both || (m1 && m2);
        none = none || (!m1 && !m2);
        want.mask[i] = want.mask[i] || (policies && (operation == merge ? m1
            : operation == unite ? m1 || m2 : m1 && m2));
    }
    c.nontrivial(D == 0 ? one || both : operation == merge
        ? g1.any_masked() && g1.any_valid() : one && both && none);
    c.label(std::to_string(D) + "D");
    grid::execute_variant(how, [&](fa::ExecutionPolicy& e) {
        auto out = grid::marker(*r);
        if(!policies) {
            // No-data is not known, hence there is nothing to do.
            if constexpr (operation == merge) {
                fa::core::merge_no_data(e, *a, *r);
            }
            else if constexpr (operation == unite) {
                fa::core::unite_no_data(e, *a, *b, *r);
            }
            else { fa::core::intersect_no_data(e, *a, *b, *r); }
        }
        else if constexpr (operation == merge) {
            fa::core::merge_no_data<>(grid::policies(*a), out, e, *a, *r);
        }
        else if constexpr (operation == unite) {
            fa::core::unite_no_data<>(grid::policies(*a, *b), out, e, *a, *b,
                *r);
        }
        else {
            fa::core::intersect_no_data<>(grid::policies(*a, *b), out, e, *a,
                *b, *r);
        }
    });
    grid::compare(c, grid::read(*r, s), want, "result", true);
    grid::compare(c, grid::read(*a, s), g1, "first argument", true);
    grid::compare(c, grid::read(*b, s), g2, "second argument", true);
}

#define RULE "elements with no-data in one, both and none of the arguments"

template<Operation operation>
void any(pbt::Case& c)
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {
        combine<operation, double, int32_t, uint8_t, 2>,
        combine<operation, uint8_t, double, int64_t, 2>,
        combine<operation, int64_t, uint8_t, float, 2>,
        combine<operation, double, int32_t, uint8_t, 0>};
    table[c.weighted({4, 4, 4, 1})](c);
}

PBT_TARGET(merge, 30000, 1, "elements with and without no-data") {
    any<merge>(c); }
PBT_TARGET(unite, 30000, 1, RULE) { any<unite>(c); }
PBT_TARGET(intersect, 30000, 1, RULE) { any<intersect>(c); }

} // Anonymous namespace
