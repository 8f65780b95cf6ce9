// Generators of values that are shared by the checks.
#pragma once
#include <cmath>
#include <cstdint>
#include <limits>
#include <type_traits>
#include <vector>
#include "pbt.h"

namespace gen {

//! Integer of type T: small ones, the type's limits, powers of two and
//! their neighbours, anything.
template<class T>
T integer(pbt::Case& c)
{
    using L = std::numeric_limits<T>;
    switch(c.weighted({5, 3, 2, 2})) {
        case 0: {
            int64_t v = c.range(0, 12);
            // 0, 1, -1, 2, -2, ...
            if(std::is_signed<T>::value) {
                return static_cast<T>(v % 2 ? (v + 1) / 2 : -(v / 2));
            }
            return static_cast<T>(v);
        }
        case 1: {
            T k = static_cast<T>(c.range(0, 3));
            return c.chance(1, 2)
                ? static_cast<T>(L::min() + k) : static_cast<T>(L::max() - k);
        }
        case 2: {
            unsigned bits = L::digits;
            uint64_t p = uint64_t(1) << c.draw(bits);
            int64_t d = c.range(-1, 1);
            uint64_t v = p + static_cast<uint64_t>(d);
            if(std::is_signed<T>::value && c.chance(1, 2)) { v = 0 - v; }
            return static_cast<T>(v);
        }
        default:
            return static_cast<T>(c.draw(0));
    }
}

//! Floating point value: small whole ones, small fractions, special ones,
//! any exponent, any bits.
template<class T>
T floating(pbt::Case& c, bool specials=true)
{
    using L = std::numeric_limits<T>;
    switch(c.weighted({4, 3, specials ? 3u : 0u, 2, specials ? 1u : 0u})) {
        case 0: {
            int64_t v = c.range(0, 20);
            return static_cast<T>(v % 2 ? (v + 1) / 2 : -(v / 2));
        }
        case 1:
            return static_cast<T>(c.range(0, 64) - 32) / T(8);
        case 2:
            return c.pick<T>({T(0), -T(0), T(1), L::infinity(),
                -L::infinity(), L::quiet_NaN(), L::max(), L::lowest(),
                L::min(), -L::min(), L::denorm_min(), L::epsilon(),
                T(1) - L::epsilon() / 2, T(1) + L::epsilon(),
                -T(1) - L::epsilon(), L::max() / 2, std::sqrt(L::max())});
        case 3: {
            T m = static_cast<T>(c.range(1, 4096)) / T(4096);
            int e = static_cast<int>(c.range(-40, 40));
            T v = std::ldexp(m, e);
            return c.chance(1, 2) ? -v : v;
        }
        default: {
            uint64_t bits = c.draw(0);
            T v;
            memcpy(&v, &bits, sizeof v);
            return v;
        }
    }
}

template<class T>
T any(pbt::Case& c)
{
    if constexpr (std::is_floating_point<T>::value) { return floating<T>(c); }
    else { return integer<T>(c); }
}

//! Small value; sums and products of a few of these are exact in any type.
template<class T>
T small(pbt::Case& c)
{
    if constexpr (std::is_floating_point<T>::value) {
        int64_t v = c.range(0, 80);
        return static_cast<T>(v % 2 ? (v + 1) / 2 : -(v / 2)) / T(4);
    }
    else if constexpr (std::is_signed<T>::value) {
        int64_t v = c.range(0, 20);
        return static_cast<T>(v % 2 ? (v + 1) / 2 : -(v / 2));
    }
    else { return static_cast<T>(c.range(0, 10)); }
}

//! Size of a dimension: small, with 0 and 1 well represented.
inline size_t extent(pbt::Case& c, size_t lo=0, size_t hi=18)
{
    switch(c.weighted({6, 3, 1})) {
        case 0: return lo + c.draw(std::min<size_t>(hi - lo, 6) + 1);
        case 1: return lo + c.draw(hi - lo + 1);
        default: return lo + c.draw(std::min<size_t>(hi - lo, 1) + 1);
    }
}

//! Pattern of no-data: none, sparse, dense, all, a whole block of rows.
inline std::vector<bool> no_data_pattern(pbt::Case& c, size_t rows,
    size_t cols, bool& some)
{
    size_t n = rows * cols;
    std::vector<bool> mask(n, false);
    some = false;
    switch(c.weighted({2, 4, 2, 1, 3})) {
        case 0: break;
        case 1: for(size_t i = 0; i < n; ++i) { mask[i] = c.chance(1, 6); }
            break;
        case 2: for(size_t i = 0; i < n; ++i) { mask[i] = c.chance(3, 4); }
            break;
        case 3: mask.assign(n, true); break;
        default: {
            if(n == 0) { break; }
            size_t first = c.draw(rows), last = first + c.draw(rows - first);
            for(size_t r = first; r <= last; ++r) {
                for(size_t k = 0; k < cols; ++k) { mask[r * cols + k] = true; }
            }
            for(size_t i = 0; i < n; ++i) {
                if(c.chance(1, 12)) { mask[i] = true; }
            }
        }
    }
    for(bool b: mask) { some = some || b; }
    return mask;
}

template<class T>
bool same(T a, T b)
{
    if constexpr (std::is_floating_point<T>::value) {
        return (std::isnan(a) && std::isnan(b)) || a == b;
    }
    else { return a == b; }
}

} // namespace gen
