// P19: masked containers keep value and mask consistent; clones are
// independent.
#include "grid.h"
#include "fern/core/data_customization_point/vector.h"
#include "fern/core/data_type_traits/vector.h"
#include "fern/feature/core/array_reference.h"
#include "fern/feature/core/raster.h"
#include "fern/feature/core/masked_raster.h"
#include "fern/feature/core/data_type_traits/raster.h"
#include "fern/feature/core/data_type_traits/masked_raster.h"
#include "fern/feature/core/data_type_traits/array_reference.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/feature/core/data_customization_point/array_reference.h"
#include "fern/feature/core/data_customization_point/raster.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"

namespace {

using fern::Index;

template<size_t D>
std::array<size_t, D> extents(pbt::Case& c)
{
    std::array<size_t, D> e;
    for(auto& n: e) { n = gen::extent(c, 0, 7); }
    return e;
}

template<size_t D>
auto boost_extents(std::array<size_t, D> const& e)
{
    if constexpr (D == 1) { return fern::extents[Index(e[0])]; }
    else if constexpr (D == 2) {
        return fern::extents[Index(e[0])][Index(e[1])];
    }
    else {
        return fern::extents[Index(e[0])][Index(e[1])][Index(e[2])];
    }
}

template<size_t D>
std::string show(std::array<size_t, D> const& e)
{
    std::string s;
    for(auto n: e) { s += (s.empty() ? "" : " x ") + std::to_string(n); }
    return s;
}

template<size_t D>
size_t product(std::array<size_t, D> const& e)
{
    size_t n = 1;
    for(auto i: e) { n *= i; }
    return n;
}

template<class A, size_t D>
void check_shape(pbt::Case& c, A const& a, std::array<size_t, D> const& e,
    char const* what)
{
    PBT_EQ(a.num_dimensions(), D, what << ": number of dimensions");
    PBT_EQ(a.num_elements(), product(e), what << ": number of elements");
    for(size_t i = 0; i < D; ++i) {
        PBT_EQ(size_t(a.shape()[i]), e[i], what << ": size of dimension "
            << i);
        PBT_EQ(fern::size(a, i), e[i], what << ": size in dimension " << i);
    }
    PBT_EQ(fern::size(a), product(e), what << ": size");
}

//! Clone with and without a value; change either.
template<class A, class Clone, class V, class U, size_t D>
void check_clone(pbt::Case& c, A& a, std::array<size_t, D> const& e,
    bool with_value, U value)
{
    std::vector<V> values(a.data(), a.data() + a.num_elements());
    Clone b = with_value ? fern::clone<U>(a, value) : fern::clone<U>(a);
    check_shape(c, b, e, "clone");
    U want = with_value ? value : U();
    for(size_t i = 0; i < b.num_elements(); ++i) {
        PBT_EQ(b.data()[i], want, "value " << i << " of the clone");
        b.data()[i] = static_cast<U>(i + 1);
    }
    for(size_t i = 0; i < a.num_elements(); ++i) {
        PBT_EQ(a.data()[i], values[i], "value " << i
            << " of the original after changing the clone");
        a.data()[i] = V(3);
    }
    check_shape(c, a, e, "original");
    for(size_t i = 0; i < b.num_elements(); ++i) {
        PBT_EQ(b.data()[i], static_cast<U>(i + 1), "value " << i
            << " of the clone after changing the original");
    }
}

template<class A, class Clone, class U, size_t D>
void check_mask(pbt::Case& c, A& a, std::vector<bool> const& mask,
    std::array<size_t, D> const& e, U value)
{
    Clone b = fern::clone<U>(a, value);
    check_shape(c, b.mask(), e, "mask of the clone");
    PBT_CHECK(!b.has_masked_values(), "clone has masked elements");
    for(size_t i = 0; i < b.num_elements(); ++i) {
        PBT_CHECK(!b.mask().data()[i], "element " << i
            << " of the clone is masked");
    }
    b.mask_all();
    for(size_t i = 0; i < a.num_elements(); ++i) {
        PBT_EQ(a.mask().data()[i], bool(mask[i]), "mask of element " << i
            << " of the original after changing the clone");
    }
}

template<class V, class U, size_t D>
void clone(pbt::Case& c)
{
    auto e = extents<D>(c);
    size_t kind = c.draw(4);
    bool with_value = c.chance(1, 2);
    U value = static_cast<U>(c.range(1, 100));
    static char const* const names[] = {"Array", "MaskedArray", "Raster",
        "MaskedRaster"};
    c.desc() << "clone of " << names[kind] << " of " << typeid(V).name()
        << " of " << show(e) << " to " << typeid(U).name();
    if(with_value) { c.desc() << " with value " << pbt::show(value); }
    size_t n = product(e);
    c.nontrivial(n > 1);
    c.label(names[kind]);
    typename fern::Raster<V, D>::Transformation t;
    for(auto& v: t) { v = c.range(1, 50) / 2.0; }
    auto fill = [&](auto& a) {
        for(size_t i = 0; i < a.num_elements(); ++i) {
            a.data()[i] = gen::small<V>(c);
        }
    };
    std::vector<bool> mask(n);
    auto fill_mask = [&](auto& a) {
        for(size_t i = 0; i < n; ++i) {
            mask[i] = c.chance(1, 3);
            a.mask().data()[i] = mask[i];
        }
    };
    auto check_transformation = [&](auto& a, auto const& b) {
        PBT_CHECK(b.transformation() == t,
            "cells of the clone differ from those of the original");
        a.transformation()[0] += 1;
        PBT_CHECK(b.transformation() == t, "changing the cells of the "
            "original changes those of the clone");
        a.transformation() = t;
    };
    auto boost = boost_extents(e);
    switch(kind) {
        case 0: {
            using A = fern::Array<V, D>;
            A a(boost);
            fill(a);
            check_clone<A, fern::Array<U, D>, V, U>(c, a, e, with_value,
                value);
            // Copies have values.
            fill(a);
            A b(a);
            for(size_t i = 0; i < n; ++i) {
                PBT_EQ(b.data()[i], a.data()[i], "value of a copy");
                b.data()[i] = V(77);
                PBT_CHECK(a.data()[i] != V(77),
                    "changing a copy changes the original");
            }
            check_shape(c, b, e, "copy");
            break;
        }
        case 1: {
            using A = fern::MaskedArray<V, D>;
            using B = fern::MaskedArray<U, D>;
            A a(boost);
            fill(a);
            fill_mask(a);
            check_mask<A, B>(c, a, mask, e, value);
            check_clone<A, B, V, U>(c, a, e, with_value, value);
            break;
        }
        case 2: {
            using A = fern::Raster<V, D>;
            using B = fern::Raster<U, D>;
            A a(boost, t);
            fill(a);
            check_clone<A, B, V, U>(c, a, e, with_value, value);
            B b = with_value ? fern::clone<U>(a, value) : fern::clone<U>(a);
            check_transformation(a, b);
            break;
        }
        default: {
            using A = fern::MaskedRaster<V, D>;
            using B = fern::MaskedRaster<U, D>;
            A a(boost, t);
            fill(a);
            fill_mask(a);
            check_mask<A, B>(c, a, mask, e, value);
            check_clone<A, B, V, U>(c, a, e, with_value, value);
            B b = with_value ? fern::clone<U>(a, value) : fern::clone<U>(a);
            check_transformation(a, b);
        }
    }
}

PBT_TARGET(clones, 60000, 1, "several elements")
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {
        clone<double, double, 1>, clone<double, double, 2>,
        clone<double, double, 3>, clone<int32_t, double, 1>,
        clone<int32_t, double, 2>, clone<int32_t, double, 3>,
        clone<double, uint8_t, 2>, clone<uint8_t, int64_t, 3>,
        clone<uint8_t, int64_t, 1>};
    table[c.draw(9)](c);
}

//! Histories of masking operations, against vectors of values and masks.
template<class T, class A, size_t D>
void masking(pbt::Case& c)
{
    auto e = extents<D>(c);
    size_t n = product(e);
    T initial = static_cast<T>(c.range(0, 3));
    auto make = [&]() {
        if constexpr (std::is_same<A, fern::MaskedRaster<T, D>>::value) {
            typename A::Transformation t;
            t.fill(1);
            return std::make_unique<A>(boost_extents(e), t, initial);
        }
        else { return std::make_unique<A>(boost_extents(e), initial); }
    };
    auto a = make();
    std::vector<T> values(n, initial);
    std::vector<bool> mask(n, false);
    c.desc() << "masked array of " << typeid(T).name() << " of " << show(e)
        << " with value " << pbt::show(initial);
    size_t changes = 0;
    auto check = [&]() {
        bool some = false;
        for(size_t i = 0; i < n; ++i) {
            some = some || mask[i];
            PBT_EQ(a->data()[i], values[i], "value " << i);
            PBT_EQ(fern::get(*a, i), values[i], "get " << i);
            PBT_EQ(a->mask().data()[i], bool(mask[i]), "mask " << i);
        }
        PBT_EQ(a->has_masked_values(), some, "has masked values");
        check_shape(c, *a, e, "array");
        check_shape(c, a->mask(), e, "mask");
    };
    auto small = [&]() { return static_cast<T>(c.range(0, 3)); };
    check();
    size_t steps = c.size(1, 12);
    for(size_t step = 0; step < steps; ++step) {
        switch(c.weighted({4, 3, 3, 2, 1, 2, 1})) {
            case 0: {
                if(!n) { break; }
                size_t i = c.draw(n);
                values[i] = small();
                fern::get(*a, i) = values[i];
                c.desc() << "; value " << i << " = " << pbt::show(values[i]);
                break;
            }
            case 1: {
                T value = small();
                c.desc() << "; mask " << pbt::show(value);
                a->set_mask(value);
                for(size_t i = 0; i < n; ++i) {
                    if(values[i] == value && !mask[i]) {
                        mask[i] = true;
                        ++changes;
                    }
                }
                break;
            }
            case 2: {
                fern::Array<uint8_t, D> other(boost_extents(e));
                uint8_t value = static_cast<uint8_t>(c.draw(3));
                bool standard = c.chance(1, 3);
                c.desc() << "; mask by array" << (standard ? "" : " where "
                    + std::to_string(value));
                if(standard) { value = 0; }
                for(size_t i = 0; i < n; ++i) {
                    other.data()[i] = static_cast<uint8_t>(c.draw(4));
                    if(other.data()[i] == value && !mask[i]) {
                        mask[i] = true;
                        ++changes;
                    }
                }
                if(standard) { a->set_mask(other); }
                else { a->set_mask(other, value); }
                break;
            }
            case 3: {
                if(!n) { break; }
                size_t i = c.draw(n);
                mask[i] = !mask[i];
                a->mask().data()[i] = mask[i];
                c.desc() << "; mask " << i << " = " << mask[i];
                ++changes;
                break;
            }
            case 4:
                c.desc() << "; mask all";
                a->mask_all();
                mask.assign(n, true);
                break;
            case 5: {
                // Write the mask and read it in another array.
                fern::Array<int32_t, D> other(boost_extents(e), 7);
                c.desc() << "; write mask";
                static_cast<A const&>(*a).mask(other);
                auto b = make();
                b->set_mask(other);
                for(size_t i = 0; i < n; ++i) {
                    PBT_EQ(other.data()[i], mask[i] ? 0 : 255,
                        "mask written for element " << i);
                    PBT_EQ(b->mask().data()[i], bool(mask[i]),
                        "mask written and read for element " << i);
                }
                break;
            }
            default: {
                // Move it.
                c.desc() << "; move";
                a = std::make_unique<A>(std::move(*a));
            }
        }
        check();
    }
    c.nontrivial(changes > 0 && steps > 1);
}

PBT_TARGET(masking, 60000, 1, "elements get masked")
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {
        masking<int32_t, fern::MaskedArray<int32_t, 1>, 1>,
        masking<double, fern::MaskedArray<double, 2>, 2>,
        masking<uint8_t, fern::MaskedArray<uint8_t, 3>, 3>,
        masking<double, fern::MaskedRaster<double, 2>, 2>,
        masking<int64_t, fern::MaskedRaster<int64_t, 1>, 1>};
    table[c.draw(5)](c);
}

template<class T>
void scalar(pbt::Case& c)
{
    using S = fern::MaskedScalar<T>;
    T value{};
    bool mask = false;
    std::unique_ptr<S> s;
    size_t kind = c.draw(3);
    if(kind == 0) { s = std::make_unique<S>(); }
    else {
        value = gen::small<T>(c);
        if(kind == 1) { s = std::make_unique<S>(value); }
        else {
            mask = c.chance(1, 2);
            s = std::make_unique<S>(value, mask);
        }
    }
    c.desc() << "scalar of " << typeid(T).name() << " " << pbt::show(value)
        << (mask ? " masked" : "");
    size_t steps = c.size(0, 8);
    bool was_masked = mask;
    for(size_t i = 0; i <= steps; ++i) {
        S const& k = *s;
        PBT_EQ(k.value(), value, "value");
        PBT_EQ(fern::get(k), value, "get");
        PBT_EQ(static_cast<T const&>(k), value, "conversion");
        PBT_EQ(k.mask(), mask, "mask");
        S same(value, mask), other_mask(value, !mask),
            other_value(T(value + T(1)), mask);
        PBT_CHECK(k == same && same == k, "differs from a scalar with the "
            "same value and mask");
        PBT_CHECK(!(k == other_mask) && !(k == other_value), "equals a scalar "
            "with another value or mask");
        if(i == steps) { break; }
        switch(c.draw(6)) {
            case 0:
                value = gen::small<T>(c);
                mask = false;
                *s = value;
                c.desc() << "; = " << pbt::show(value);
                break;
            case 1:
                value = gen::small<T>(c);
                s->value() = value;
                c.desc() << "; value() = " << pbt::show(value);
                break;
            case 2:
                mask = c.chance(2, 3);
                s->mask() = mask;
                c.desc() << "; mask() = " << mask;
                break;
            case 3: {
                value = gen::small<T>(c);
                mask = c.chance(1, 2);
                S other(value, mask);
                *s = other;
                other.value() = T(99);
                c.desc() << "; = scalar " << pbt::show(value)
                    << (mask ? " masked" : "");
                break;
            }
            case 4: {
                c.desc() << "; copied";
                auto other = std::make_unique<S>(*s);
                s->value() = T(99);
                s->mask() = !mask;
                s = std::move(other);
                break;
            }
            default:
                value = gen::small<T>(c);
                fern::get(*s) = value;
                c.desc() << "; get() = " << pbt::show(value);
        }
        was_masked = was_masked || mask;
    }
    c.nontrivial(was_masked && steps > 1);
}

PBT_TARGET(scalars, 40000, 1, "the scalar is masked at some time")
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {scalar<int32_t>, scalar<double>,
        scalar<uint8_t>, scalar<int64_t>};
    table[c.draw(4)](c);
}

PBT_TARGET(construction, 30000, 1, "several rows and columns")
{
    size_t rows = c.size(1, 6), cols = c.size(0, 6);
    std::vector<int32_t> v(rows * cols);
    for(auto& x: v) { x = static_cast<int32_t>(c.range(-9, 9)); }
    std::vector<bool> mask(v.size());
    for(size_t i = 0; i < v.size(); ++i) { mask[i] = c.chance(1, 3); }
    int32_t value = static_cast<int32_t>(c.range(-9, 9));
    c.desc() << rows << " x " << cols << " values, " << value << ": ";
    for(size_t i = 0; i < v.size(); ++i) {
        c.desc() << v[i] << (mask[i] ? "*" : "") << " ";
    }
    c.nontrivial(rows > 1 && cols > 1);
    std::array<size_t, 1> e1{{v.size()}};
    std::array<size_t, 2> e2{{rows, cols}};
    {
        std::vector<fern::MaskedScalar<int32_t>> scalars;
        for(size_t i = 0; i < v.size(); ++i) {
            scalars.emplace_back(v[i], mask[i]);
        }
        fern::MaskedArray<int32_t, 1> a(scalars);
        check_shape(c, a, e1, "array of scalars");
        for(size_t i = 0; i < v.size(); ++i) {
            PBT_EQ(a[i], v[i], "value of scalar " << i);
            PBT_EQ(a.mask()[i], bool(mask[i]), "mask of scalar " << i);
        }
    }
    {
        fern::Array<int32_t, 1> a(v);
        check_shape(c, a, e1, "array of vector");
        size_t i = 0;
        for(auto const& x: a) { PBT_EQ(x, v[i], "value " << i); ++i; }
        PBT_EQ(i, v.size(), "number of values iterated over");
    }
    {
        fern::Array<int32_t, 2> a(rows, cols, value);
        fern::MaskedArray<int32_t, 1> b(v.size(), value);
        check_shape(c, a, e2, "array of sizes");
        check_shape(c, b, e1, "array of size");
        for(size_t i = 0; i < v.size(); ++i) {
            PBT_EQ(a.data()[i], value, "initial value " << i);
            PBT_EQ(b.data()[i], value, "initial value " << i);
            PBT_CHECK(!b.mask().data()[i], "initial mask " << i);
        }
        // Elements by row and column.
        for(size_t i = 0; i < v.size(); ++i) { a.data()[i] = v[i]; }
        for(size_t i = 0; i < rows; ++i) {
            for(size_t j = 0; j < cols; ++j) {
                PBT_EQ(a[i][j], v[i * cols + j], "element " << i << ", "
                    << j);
                PBT_EQ(fern::get(a, fern::index(a, i, j)), v[i * cols + j],
                    "element by index " << i << ", " << j);
                a[i][j] = 50;
                PBT_EQ(a.data()[i * cols + j], 50, "element changed");
            }
        }
        a.fill(value);
        for(size_t i = 0; i < v.size(); ++i) {
            PBT_EQ(a.data()[i], value, "value " << i << " filled");
        }
    }
    {
        int32_t x = value, y = value + 1;
        fern::MaskedArray<int32_t, 1> a{x, y, x};
        fern::MaskedArray<int32_t, 2> b{{x, y}, {y, x}, {x, x}};
        check_shape(c, a, std::array<size_t, 1>{{3}}, "array of list");
        check_shape(c, b, std::array<size_t, 2>{{3, 2}}, "array of lists");
        check_shape(c, b.mask(), std::array<size_t, 2>{{3, 2}}, "mask");
        int32_t const want[] = {x, y, y, x, x, x};
        for(size_t i = 0; i < 6; ++i) {
            PBT_EQ(b.data()[i], want[i], "value " << i << " of lists");
            PBT_CHECK(!b.mask().data()[i], "mask " << i << " of lists");
        }
        PBT_CHECK(a[0] == x && a[1] == y && a[2] == x, "values of list");
    }
    {
        std::vector<int32_t> values(v);
        fern::ArrayReference<int32_t, 2> a(values.data(), boost_extents(e2));
        check_shape(c, a, e2, "reference");
        for(size_t i = 0; i < v.size(); ++i) {
            PBT_EQ(fern::get(a, i), v[i], "value " << i << " referred to");
            fern::get(a, i) = v[i] + 1;
            PBT_EQ(values[i], v[i] + 1, "value " << i
                << " after changing the reference");
        }
    }
    {
        using R = fern::MaskedRaster<int32_t, 2>;
        R::Transformation t{{c.range(-9, 9) * 0.5, c.range(1, 9) * 0.5,
            c.range(-9, 9) * 0.5, c.range(1, 9) * 0.5}};
        R a(boost_extents(e2), t, value);
        PBT_EQ(fern::cell_size(a, 0), t[1], "cell width");
        PBT_EQ(fern::cell_size(a, 1), t[3], "cell height");
        PBT_EQ(fern::cell_area(a), t[1] * t[3], "cell area");
        size_t i = c.draw(4);
        fern::set_transformation(a, i, 42.5);
        t[i] = 42.5;
        PBT_CHECK(a.transformation() == t, "transformation after setting "
            << i);
        PBT_CHECK(fern::data(a) == a.data(), "data");
        fern::Raster<int32_t, 2> b(boost_extents(e2), t, value);
        PBT_EQ(fern::cell_size(b, 0), t[1], "cell width");
        PBT_EQ(fern::cell_size(b, 1), t[3], "cell height");
        PBT_EQ(fern::cell_area(b), t[1] * t[3], "cell area");
        PBT_CHECK(b.transformation() == t, "transformation");
    }
    {
        // Elements by row and column, for all of the containers.
        fern::Raster<int32_t, 2>::Transformation t{{0, 1, 0, 1}};
        fern::MaskedArray<int32_t, 2> a(boost_extents(e2));
        fern::Raster<int32_t, 2> b(boost_extents(e2), t);
        fern::MaskedRaster<int32_t, 2> d(boost_extents(e2), t);
        for(size_t i = 0; i < rows; ++i) {
            for(size_t j = 0; j < cols; ++j) {
                int32_t x = v[i * cols + j];
                fern::get(a, fern::index(a, i, j)) = x;
                fern::get(b, fern::index(b, i, j)) = x;
                fern::get(d, fern::index(d, i, j)) = x;
                PBT_EQ(a[i][j], x, "array: element " << i << ", " << j);
                PBT_EQ(b[i][j], x, "raster: element " << i << ", " << j);
                PBT_EQ(d[i][j], x, "masked raster: element " << i << ", "
                    << j);
            }
        }
        for(size_t i = 0; i < v.size(); ++i) {
            PBT_EQ(fern::get(a, i), v[i], "array: element " << i);
            PBT_EQ(fern::get(b, i), v[i], "raster: element " << i);
            PBT_EQ(fern::get(d, i), v[i], "masked raster: element " << i);
        }
    }
    {
        auto b = fern::clone<double>(v);
        auto d = fern::clone<int64_t>(v, int64_t(value));
        PBT_EQ(b.size(), v.size(), "size of a clone of a vector");
        PBT_CHECK(d == std::vector<int64_t>(v.size(), value),
            "clone of a vector with a value");
    }
}

} // Anonymous namespace
