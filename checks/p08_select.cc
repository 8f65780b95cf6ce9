// P08: conditional selection and cover.
//
// PART 0: if without else. PART 1-3: if with else, by shape of the condition.
// PART 4: cover.
#include "grid.h"
#include "fern/algorithm/core/if.h"
#include "fern/algorithm/core/cover.h"

namespace {

template<class C>
C a_condition(pbt::Case& c)
{
    if(c.chance(2, 5)) { return C(0); }
    if constexpr (std::is_floating_point<C>::value) {
        return c.pick<C>({C(1), C(0.25), C(-3), C(1e-30)});
    }
    else if constexpr (sizeof(C) == 1) { return C(1); }
    else { return c.pick<C>({C(1), C(2), C(-1), C(256)}); }
}

template<class T>
grid::Grid<T> preset(pbt::Case& c, grid::Shape const& s)
{
    // Not masked beforehand: what is no-data is up to the operation.
    return grid::grid<T>(c, s, [](pbt::Case& c) {
        return static_cast<T>(c.range(50, 60)); }, false);
}

#if PART == 0
template<class C, class T, int D1, int D2>
void then(pbt::Case& c)
{
    constexpr int D = D1 > D2 ? D1 : D2;
    auto s = grid::shape(c, D);
    auto how = grid::how(c);
    bool policies = c.chance(7, 8);
    auto condition = grid::grid<C>(c, D1 ? s : grid::Shape(), a_condition<C>,
        policies);
    auto value = grid::grid<T>(c, D2 ? s : grid::Shape(), gen::any<T>,
        policies);
    auto want = preset<T>(c, s);
    c.desc() << "if " << grid::show(condition) << " then "
        << grid::show(value) << (policies ? "" : ", without policies")
        << ", " << grid::show(how);
    auto r = grid::data<T, D>(want);
    bool yes = false, no = false;
    for(size_t i = 0; i < s.size(); ++i) {
        size_t i1 = D1 ? i : 0, i2 = D2 ? i : 0;
        bool truth = !condition.mask[i1] && condition.values[i1] != C(0);
        yes = yes || truth;
        no = no || !truth;
        want.mask[i] = policies && (!truth || value.mask[i2]);
        if(truth && !value.mask[i2]) { want.values[i] = value.values[i2]; }
    }
    c.nontrivial((D1 == 0 || (yes && no)) && (condition.any_masked() ||
        value.any_masked()));
    c.label(std::to_string(D1) + std::to_string(D2));
    auto a = grid::data<C, D1>(condition);
    auto b = grid::data<T, D2>(value);
    grid::execute(how, [&](auto& e) {
        auto out = grid::marker(*r);
        if(!policies) { fa::core::if_(e, *a, *b, *r); }
        else {
            fa::core::if_<>(grid::policies(*a, *b), out, e, *a, *b, *r);
        }
    });
    grid::compare(c, grid::read(*r, s), want, "result");
}

PBT_TARGET(if_then, 20000, 1, "there is no-data, and the condition is both "
    "true and false somewhere")
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {
        then<uint8_t, double, 0, 0>, then<int32_t, uint8_t, 0, 0>,
        then<double, int32_t, 0, 2>, then<uint8_t, float, 0, 2>,
        then<uint8_t, int64_t, 2, 0>, then<float, double, 2, 0>,
        then<int32_t, uint8_t, 2, 2>, then<double, float, 2, 2>};
    table[c.draw(8)](c);
}

#elif PART < 4

template<class C, class T, int D1, int D2, int D3>
void then_else(pbt::Case& c)
{
    constexpr int D = D1 > D2 ? (D1 > D3 ? D1 : D3) : (D2 > D3 ? D2 : D3);
    auto s = grid::shape(c, D);
    auto how = grid::how(c);
    bool policies = c.chance(7, 8);
    auto condition = grid::grid<C>(c, D1 ? s : grid::Shape(), a_condition<C>,
        policies);
    auto yes = grid::grid<T>(c, D2 ? s : grid::Shape(), gen::any<T>, policies);
    auto no = grid::grid<T>(c, D3 ? s : grid::Shape(), gen::any<T>, policies);
    auto want = preset<T>(c, s);
    c.desc() << "if " << grid::show(condition) << " then " << grid::show(yes)
        << " else " << grid::show(no)
        << (policies ? "" : ", without policies") << ", " << grid::show(how);
    auto r = grid::data<T, D>(want);
    bool some_yes = false, some_no = false;
    for(size_t i = 0; i < s.size(); ++i) {
        size_t i1 = D1 ? i : 0, i2 = D2 ? i : 0, i3 = D3 ? i : 0;
        if(condition.mask[i1]) { want.mask[i] = true; }
        else if(condition.values[i1] != C(0)) {
            want.mask[i] = yes.mask[i2];
            if(!yes.mask[i2]) { want.values[i] = yes.values[i2]; }
            some_yes = true;
        }
        else {
            want.mask[i] = no.mask[i3];
            if(!no.mask[i3]) { want.values[i] = no.values[i3]; }
            some_no = true;
        }
    }
    c.nontrivial((D1 == 0 || (some_yes && some_no)) && (condition.any_masked()
        || yes.any_masked() || no.any_masked()));
    c.label(std::to_string(D1) + std::to_string(D2) + std::to_string(D3));
    auto a = grid::data<C, D1>(condition);
    auto b1 = grid::data<T, D2>(yes);
    auto b2 = grid::data<T, D3>(no);
    grid::execute(how, [&](auto& e) {
        auto out = grid::marker(*r);
        if(!policies) { fa::core::if_(e, *a, *b1, *b2, *r); }
        else {
            fa::core::if_<>(grid::policies(*a, *b1, *b2), out, e, *a, *b1,
                *b2, *r);
        }
    });
    grid::compare(c, grid::read(*r, s), want, "result");
}

#define RULE "there is no-data, and the condition is both true and false " \
    "somewhere"
#if PART == 1
PBT_TARGET(if_then_else_0d, 20000, 1, RULE)
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {
        then_else<uint8_t, double, 0, 0, 0>, then_else<int32_t, uint8_t, 0, 0, 0>,
        then_else<uint8_t, float, 0, 2, 2>, then_else<double, int32_t, 0, 2, 0>,
        then_else<uint8_t, int64_t, 0, 0, 2>};
    table[c.draw(5)](c);
}
#elif PART == 2
PBT_TARGET(if_then_else_1d, 20000, 1, RULE)
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {
        then_else<uint8_t, double, 1, 0, 0>, then_else<int32_t, uint8_t, 1, 1, 0>,
        then_else<double, int32_t, 1, 0, 1>, then_else<uint8_t, float, 1, 1, 1>};
    table[c.draw(4)](c);
}
#else
PBT_TARGET(if_then_else_2d, 24000, 1, RULE)
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {
        then_else<uint8_t, double, 2, 0, 0>, then_else<int32_t, uint8_t, 2, 2, 0>,
        then_else<double, int32_t, 2, 0, 2>, then_else<uint8_t, float, 2, 2, 2>};
    table[c.draw(4)](c);
}
#endif

#else

template<class T, int D1, int D2>
void cover(pbt::Case& c)
{
    auto s = grid::shape(c, D1);
    auto how = grid::how(c);
    bool policies = c.chance(7, 8);
    auto first = grid::grid<T>(c, s, gen::any<T>, policies);
    auto second = grid::grid<T>(c, D2 ? s : grid::Shape(), gen::any<T>,
        policies);
    auto want = preset<T>(c, s);
    c.desc() << "cover " << grid::show(first) << " by " << grid::show(second)
        << (policies ? "" : ", without policies") << ", " << grid::show(how);
    auto r = grid::data<T, D1>(want);
    for(size_t i = 0; i < s.size(); ++i) {
        size_t i2 = D2 ? i : 0;
        if(!first.mask[i]) { want.values[i] = first.values[i]; }
        else if(!second.mask[i2]) { want.values[i] = second.values[i2]; }
        else { want.mask[i] = true; }
    }
    c.nontrivial(first.any_masked() && second.any_valid());
    c.label(std::to_string(D1) + std::to_string(D2));
    auto a = grid::data<T, D1>(first);
    auto b = grid::data<T, D2>(second);
    grid::execute(how, [&](auto& e) {
        auto out = grid::marker(*r);
        if(!policies) { fa::core::cover(e, *a, *b, *r); }
        else {
            fa::core::cover<>(grid::policies(*a, *b), out, e, *a, *b, *r);
        }
    });
    grid::compare(c, grid::read(*r, s), want, "result");
}

PBT_TARGET(cover, 20000, 1, "first argument contains no-data, second valid "
    "values")
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {
        cover<double, 0, 0>, cover<uint8_t, 0, 0>, cover<int32_t, 2, 0>,
        cover<float, 2, 0>, cover<double, 2, 2>, cover<int64_t, 2, 2>};
    table[c.draw(6)](c);
}
#endif

} // Anonymous namespace
