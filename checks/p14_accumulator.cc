// P14: merging accumulators equals accumulating everything in one.
//
// A few accumulators are driven by a generated history of constructions,
// additions, assignments, copies and merges. Each has a model: the list of
// values that were added since it was last assigned.
#include <algorithm>
#include <cmath>
#include <map>
#include "gen.h"
#include "fern/algorithm/algebra/elementary/add.h"
#include "fern/algorithm/accumulator/count.h"
#include "fern/algorithm/accumulator/max.h"
#include "fern/algorithm/accumulator/mean.h"
#include "fern/algorithm/accumulator/median.h"
#include "fern/algorithm/accumulator/min.h"
#include "fern/algorithm/accumulator/mode.h"
#include "fern/algorithm/accumulator/range.h"
#include "fern/algorithm/accumulator/standard_deviation.h"
#include "fern/algorithm/accumulator/sum.h"
#include "fern/algorithm/accumulator/variance.h"

namespace fa = fern::algorithm;
namespace faa = fern::algorithm::accumulator;

namespace {

using Exact = __int128;

template<class T>
bool fits(Exact v)
{
    return v >= Exact(std::numeric_limits<T>::min()) &&
        v <= Exact(std::numeric_limits<T>::max());
}

template<class T> constexpr bool real = std::is_floating_point<T>::value;

enum Kind { COUNT, SUM, MEAN, MIN, MAX, RANGE, VARIANCE, DEVIATION, MEDIAN,
    MODE };

template<Kind kind, class A, class R> struct Of;
template<class A, class R> struct Of<COUNT, A, R>
    { using type = faa::Count<A, R>; };
template<class A, class R> struct Of<SUM, A, R>
    { using type = faa::Sum<A, R>; };
template<class A, class R> struct Of<MEAN, A, R>
    { using type = faa::Mean<A, R>; };
template<class A, class R> struct Of<MIN, A, R>
    { using type = faa::Min<A, R>; };
template<class A, class R> struct Of<MAX, A, R>
    { using type = faa::Max<A, R>; };
template<class A, class R> struct Of<RANGE, A, R>
    { using type = faa::Range<A, R>; };
template<class A, class R> struct Of<VARIANCE, A, R>
    { using type = faa::Variance<A, R>; };
template<class A, class R> struct Of<DEVIATION, A, R>
    { using type = faa::StandardDeviation<A, R>; };
template<class A, class R> struct Of<MEDIAN, A, R>
    { using type = faa::Median<A, R>; };
template<class A, class R> struct Of<MODE, A, R>
    { using type = faa::Mode<A, R>; };

//! Expected result. Returns false when the contract doesn't tell.
template<Kind kind, class A, class R>
bool expected(std::vector<A> values, R& result, double& tolerance)
{
    tolerance = 0;
    std::sort(values.begin(), values.end());
    size_t n = values.size();
    constexpr bool integral = !real<A> && !real<R>;

    if constexpr (kind == COUNT) {
        if(!real<R> && !fits<R>(Exact(n))) { return false; }
        result = static_cast<R>(n);
        return true;
    }
    else if constexpr (kind == SUM || kind == MEAN) {
        if(kind == MEAN && n == 0) { return false; }
        if constexpr (integral) {
            Exact sum = 0, low = 0, high = 0;
            for(A v: values) {
                sum += Exact(v);
                (Exact(v) < 0 ? low : high) += Exact(v);
            }
            // Any order of summation fits.
            if(!fits<R>(low) || !fits<R>(high)) { return false; }
            result = static_cast<R>(kind == SUM ? sum : sum / Exact(n));
        }
        else {
            long double sum = 0, magnitude = 0;
            for(A v: values) {
                sum += static_cast<long double>(v);
                magnitude += std::fabs(static_cast<long double>(v));
            }
            using L = std::numeric_limits<R>;
            if(magnitude > L::max()) { return false; }
            tolerance = static_cast<double>(magnitude * L::epsilon() * n * 2);
            if(kind == MEAN) { sum /= n; tolerance /= n; }
            result = static_cast<R>(sum);
        }
        return true;
    }
    else if constexpr (kind == MIN || kind == MAX || kind == RANGE) {
        if(n == 0) { return false; }
        A lo = values.front(), hi = values.back();
        if constexpr (integral) {
            Exact v = kind == MIN ? Exact(lo) : kind == MAX ? Exact(hi)
                : Exact(hi) - Exact(lo);
            if(!fits<R>(v)) { return false; }
            if(kind == RANGE && (!fits<R>(Exact(lo)) || !fits<R>(Exact(hi)))) {
                return false;
            }
            result = static_cast<R>(v);
        }
        else {
            long double v = kind == MIN ? lo : kind == MAX ? hi
                : static_cast<long double>(static_cast<R>(hi)) -
                    static_cast<long double>(static_cast<R>(lo));
            if(std::fabs(v) > std::numeric_limits<R>::max() && (kind == RANGE
                || !std::isinf(v) || !real<R>)) {
                return false;
            }
            result = static_cast<R>(v);
        }
        return true;
    }
    else if constexpr (kind == VARIANCE || kind == DEVIATION) {
        if(n == 0) { return false; }
        R mean;
        double t;
        if(!expected<MEAN, A, R>(values, mean, t)) { return false; }
        if constexpr (integral) {
            Exact sum = 0;
            for(A v: values) {
                Exact d = Exact(mean) - Exact(v);
                sum += d * d;
                if(!fits<R>(d) && !std::is_unsigned<R>::value) { return false; }
            }
            if(!fits<R>(sum) || !fits<R>(Exact(n))) { return false; }
            Exact variance = sum / Exact(n);
            result = static_cast<R>(kind == VARIANCE ? variance
                : static_cast<Exact>(std::sqrt(
                    static_cast<long double>(variance))));
        }
        else {
            long double sum = 0, m = 0, magnitude = 0;
            for(A v: values) {
                m += v;
                magnitude = std::max(magnitude,
                    std::fabs(static_cast<long double>(v)));
            }
            m /= n;
            for(A v: values) { sum += (m - v) * (m - v); }
            using L = std::numeric_limits<R>;
            if(!(magnitude * magnitude * n < L::max())) { return false; }
            long double variance = sum / n;
            tolerance = static_cast<double>(
                magnitude * magnitude * L::epsilon() * (n + 4) * 4 +
                    L::min());
            result = static_cast<R>(variance);
            if(kind == DEVIATION) {
                result = static_cast<R>(std::sqrt(variance));
                // |sqrt(v + t) - sqrt(v)|
                double root = std::sqrt(static_cast<double>(variance));
                tolerance = root > 0
                    ? std::min(std::sqrt(tolerance), tolerance / root)
                    : std::sqrt(tolerance);
                tolerance += root * L::epsilon() * 2;
            }
        }
        return true;
    }
    else if constexpr (kind == MEDIAN) {
        if(n == 0) { return false; }
        A a = values[(n - 1) / 2], b = values[n / 2];
        if constexpr (integral) {
            if(!fits<R>(Exact(a)) || !fits<R>(Exact(b))) { return false; }
            result = static_cast<R>((Exact(a) + Exact(b)) / 2);
        }
        else {
            long double v = (static_cast<long double>(a) +
                static_cast<long double>(b)) / 2;
            if(std::fabs(v) > std::numeric_limits<R>::max()) { return false; }
            result = static_cast<R>(v);
            tolerance = n % 2 ? 0 : static_cast<double>(std::fabs(v) *
                std::numeric_limits<R>::epsilon()) +
                std::numeric_limits<R>::min();
        }
        return true;
    }
    else {
        if(n == 0) { return false; }
        std::map<A, size_t> frequency;
        for(A v: values) { ++frequency[v]; }
        size_t most = 0, nr = 0;
        A mode{};
        for(auto const& f: frequency) {
            if(f.second > most) { most = f.second; mode = f.first; nr = 0; }
            if(f.second == most) { ++nr; }
        }
        if(nr != 1) { return false; }
        if constexpr (integral) {
            if(!fits<R>(Exact(mode))) { return false; }
        }
        result = static_cast<R>(mode);
        return true;
    }
}

template<Kind kind, class A, class R>
void history(pbt::Case& c)
{
    using X = typename Of<kind, A, R>::type;
    constexpr bool has_policy = kind == SUM || kind == MEAN || (
        kind == COUNT && !real<A> && (std::is_signed<R>::value ==
            std::is_signed<A>::value) && sizeof(R) >= sizeof(A));
    struct Item { X x; std::vector<A> values; bool judged; };
    std::vector<Item> pool;
    size_t const nr = c.size(1, 4);
    size_t const range = c.weighted({3, 2, 2, 1});
    auto value = [&]() -> A {
        if(range == 0) { return gen::small<A>(c); }
        if(range == 1) { return static_cast<A>(c.range(0, 3)); }
        if constexpr (real<A> && (kind == MIN || kind == MAX)) {
            if(range == 3) {
                return c.chance(1, 8) ? A(1) : c.chance(3, 4) == (kind == MIN)
                    ? std::numeric_limits<A>::infinity()
                    : -std::numeric_limits<A>::infinity();
            }
        }
        A v = gen::any<A>(c);
        if constexpr (real<A>) { if(!std::isfinite(v)) { v = A(2); } }
        return v;
    };
    c.desc() << typeid(X).name() << ": ";
    for(size_t i = 0; i < nr; ++i) {
        if(c.chance(2, 3)) {
            A v = value();
            pool.push_back({X(v), {v}, true});
            c.desc() << "a" << i << "(" << pbt::show(v) << "); ";
        }
        else {
            pool.push_back({X(), {}, true});
            c.desc() << "a" << i << "(); ";
        }
    }
    size_t const steps = c.size(0, c.chance(1, 30) ? 300 : 12);
    size_t merges = 0, additions = 0;

    // Whether adding \a v in the result's type stays within range; -1: the
    // contract doesn't tell.
    auto fits_after = [&](std::vector<A> const& before,
            std::vector<A> const& extra) -> int {
        if constexpr (kind == COUNT) {
            if(!fits<R>(Exact(before.size())) ||
                    !fits<R>(Exact(extra.size()))) { return -1; }
            return fits<R>(Exact(before.size() + extra.size()));
        }
        else if constexpr (!real<A> && !real<R>) {
            Exact first = 0, second = 0;
            for(A v: before) { first += Exact(v); }
            for(A v: extra) { second += Exact(v); }
            if(!fits<R>(first) || !fits<R>(second)) { return -1; }
            return fits<R>(first + second);
        }
        else {
            long double magnitude = 0;
            for(A v: before) { magnitude += std::fabs((long double)v); }
            for(A v: extra) { magnitude += std::fabs((long double)v); }
            return magnitude < std::numeric_limits<R>::max() / 2 ? 1 : -1;
        }
    };

    auto verify = [&](size_t i) {
        Item& item = pool[i];
        if(!item.judged) { return; }
        R want{};
        double tolerance;
        if(!expected<kind, A, R>(item.values, want, tolerance)) { return; }
        X const& x = item.x;
        R got = x();
        bool good = gen::same(got, want);
        if(!good && tolerance > 0) {
            good = std::fabs(static_cast<long double>(got) -
                static_cast<long double>(want)) <= tolerance;
        }
        PBT_CHECK(good, "a" << i << " is " << pbt::show(got) << ", want "
            << pbt::show(want) << " (the statistic of " << item.values.size()
            << " values)");
    };

    for(size_t i = 0; i < nr; ++i) { verify(i); }

    for(size_t s = 0; s < steps; ++s) {
        size_t i = c.draw(nr);
        Item& item = pool[i];
        switch(c.weighted({6, 1, 3, 3, has_policy ? 3u : 0u,
                has_policy ? 3u : 0u})) {
            case 0: {
                A v = value();
                c.desc() << "a" << i << "(" << pbt::show(v) << "); ";
                item.x(v);
                item.values.push_back(v);
                ++additions;
                break;
            }
            case 1: {
                A v = value();
                c.desc() << "a" << i << " = " << pbt::show(v) << "; ";
                item.x = v;
                item.values = {v};
                item.judged = true;
                break;
            }
            case 2: {
                size_t j = c.draw(nr);
                if(i == j) { break; }
                c.desc() << "a" << i << " |= a" << j << "; ";
                item.x |= pool[j].x;
                item.judged = item.judged && pool[j].judged;
                item.values.insert(item.values.end(), pool[j].values.begin(),
                    pool[j].values.end());
                ++merges;
                verify(j);
                break;
            }
            case 3: {
                size_t j = c.draw(nr), k = c.draw(nr);
                c.desc() << "a" << i << " = a" << j << " | a" << k << "; ";
                Item n{pool[j].x | pool[k].x, pool[j].values,
                    pool[j].judged && pool[k].judged};
                n.values.insert(n.values.end(), pool[k].values.begin(),
                    pool[k].values.end());
                verify(j);
                verify(k);
                pool[i].x = n.x;
                pool[i].values = n.values;
                pool[i].judged = n.judged;
                ++merges;
                break;
            }
            case 4: {
                if constexpr (has_policy) {
                    A v = value();
                    c.desc() << "a" << i << ".add(" << pbt::show(v) << "); ";
                    int want = fits_after(item.values, {v});
                    bool got = item.x.template
                        operator()<fa::add::OutOfRangePolicy>(v);
                    if(item.judged && want != -1) {
                        PBT_CHECK(got == (want == 1), "adding "
                            << pbt::show(v) << " is reported "
                            << (got ? "within" : "out of") << " range");
                        c.label(got ? "add within range" : "add out of range");
                    }
                    item.values.push_back(v);
                    if(want != 1) { item.judged = false; }
                    ++additions;
                }
                break;
            }
            case 5: {
                if constexpr (has_policy) {
                    size_t j = c.draw(nr);
                    if(i == j) { break; }
                    c.desc() << "a" << i << ".merge(a" << j << "); ";
                    int want = fits_after(item.values, pool[j].values);
                    bool judged = item.judged && pool[j].judged;
                    bool got = item.x.template
                        operator|=<fa::add::OutOfRangePolicy>(pool[j].x);
                    if(judged && want != -1) {
                        PBT_CHECK(got == (want == 1), "merging a" << j
                            << " is reported " << (got ? "within" : "out of")
                            << " range");
                        c.label(got ? "merge within range"
                            : "merge out of range");
                    }
                    item.values.insert(item.values.end(),
                        pool[j].values.begin(), pool[j].values.end());
                    item.judged = judged && want == 1;
                    ++merges;
                    verify(j);
                }
                break;
            }
        }
        if(pool[i].values.size() > 3000) { break; }
        verify(i);
    }
    c.nontrivial(merges > 0 && additions > 0);
}

template<Kind kind>
void any_types(pbt::Case& c)
{
    switch(c.draw(11)) {
        case 0: history<kind, int32_t, int32_t>(c); break;
        case 1: history<kind, int32_t, double>(c); break;
        case 2: history<kind, double, double>(c); break;
        case 3: history<kind, float, float>(c); break;
        case 4: history<kind, float, double>(c); break;
        case 5: history<kind, int8_t, int8_t>(c); break;
        case 6: history<kind, int8_t, int32_t>(c); break;
        case 7: history<kind, uint8_t, uint8_t>(c); break;
        case 8: history<kind, uint8_t, uint64_t>(c); break;
        case 9: history<kind, int64_t, int64_t>(c); break;
        case 10: history<kind, uint16_t, uint32_t>(c); break;
    }
}

} // namespace

#define RULE "values were added and accumulators were merged"
#if PART == 0
PBT_TARGET(count, 20000, 1, RULE) { any_types<COUNT>(c); }
PBT_TARGET(sum, 30000, 1, RULE) { any_types<SUM>(c); }
PBT_TARGET(mean, 30000, 1, RULE) { any_types<MEAN>(c); }
PBT_TARGET(minimum, 20000, 1, RULE) { any_types<MIN>(c); }
PBT_TARGET(maximum, 20000, 1, RULE) { any_types<MAX>(c); }
PBT_TARGET(range, 20000, 1, RULE) { any_types<RANGE>(c); }
#else
PBT_TARGET(variance, 20000, 1, RULE) { any_types<VARIANCE>(c); }
PBT_TARGET(standard_deviation, 20000, 1, RULE) { any_types<DEVIATION>(c); }
PBT_TARGET(median, 30000, 1, RULE) { any_types<MEDIAN>(c); }
PBT_TARGET(mode, 20000, 1, RULE) { any_types<MODE>(c); }
#endif
