// P04, P05, P06: values, range and domain of element-wise operations.
//
// PART 0-9: binary arithmetic and comparisons with first value type PART.
// PART 10: unary operations and power.
#include <cmath>
#include <tuple>
#include "grid.h"
#include "fern/algorithm/algebra/elementary/add.h"
#include "fern/algorithm/algebra/elementary/subtract.h"
#include "fern/algorithm/algebra/elementary/multiply.h"
#include "fern/algorithm/algebra/elementary/divide.h"
#include "fern/algorithm/algebra/elementary/equal.h"
#include "fern/algorithm/algebra/elementary/less.h"
#include "fern/algorithm/algebra/elementary/less_equal.h"
#include "fern/algorithm/algebra/elementary/greater.h"
#include "fern/algorithm/algebra/elementary/greater_equal.h"
#include "fern/algorithm/algebra/elementary/absolute.h"
#include "fern/algorithm/algebra/elementary/ceil.h"
#include "fern/algorithm/algebra/elementary/floor.h"
#include "fern/algorithm/algebra/elementary/round.h"
#include "fern/algorithm/algebra/elementary/trunc.h"
#include "fern/algorithm/algebra/elementary/sqrt.h"
#include "fern/algorithm/algebra/elementary/log.h"
#include "fern/algorithm/algebra/elementary/log2.h"
#include "fern/algorithm/algebra/elementary/log10.h"
#include "fern/algorithm/algebra/elementary/pow.h"
#include "fern/algorithm/algebra/elementary/factorial.h"
#include "fern/algorithm/algebra/elementary/tgamma.h"
#include "fern/algorithm/trigonometry/acos.h"
#include "fern/algorithm/trigonometry/asin.h"
#include "fern/algorithm/trigonometry/atan.h"
#include "fern/algorithm/trigonometry/cos.h"
#include "fern/algorithm/trigonometry/sin.h"
#include "fern/algorithm/trigonometry/tan.h"

namespace {

using Wide = __int128;

template<class T> char const* name_of()
{
    if(std::is_same<T, int8_t>::value) { return "int8"; }
    if(std::is_same<T, int16_t>::value) { return "int16"; }
    if(std::is_same<T, int32_t>::value) { return "int32"; }
    if(std::is_same<T, int64_t>::value) { return "int64"; }
    if(std::is_same<T, uint8_t>::value) { return "uint8"; }
    if(std::is_same<T, uint16_t>::value) { return "uint16"; }
    if(std::is_same<T, uint32_t>::value) { return "uint32"; }
    if(std::is_same<T, uint64_t>::value) { return "uint64"; }
    if(std::is_same<T, float>::value) { return "float"; }
    return "double";
}

template<class T>
constexpr bool is_float = std::is_floating_point<T>::value;

//! The documented result type of arithmetic on V1 and V2, written out.
template<size_t bytes> struct Signed;
template<> struct Signed<1> { using type = int8_t; };
template<> struct Signed<2> { using type = int16_t; };
template<> struct Signed<4> { using type = int32_t; };
template<> struct Signed<8> { using type = int64_t; };

template<class V1, class V2>
struct Documented
{
    static auto pick()
    {
        if constexpr (is_float<V1> && is_float<V2>) {
            return std::conditional_t<(sizeof(V1) > sizeof(V2)), V1, V2>();
        }
        else if constexpr (is_float<V1>) { return V1(); }
        else if constexpr (is_float<V2>) { return V2(); }
        else if constexpr (std::is_signed<V1>::value ==
                std::is_signed<V2>::value) {
            return std::conditional_t<(sizeof(V1) > sizeof(V2)), V1, V2>();
        }
        else {
            // A signed type that can hold either, as far as there is one.
            constexpr size_t u = std::is_signed<V1>::value
                ? sizeof(V2) : sizeof(V1);
            constexpr size_t s = std::is_signed<V1>::value
                ? sizeof(V1) : sizeof(V2);
            constexpr size_t n = u < 8 ? 2 * u : 8;
            return typename Signed<(n > s ? n : s)>::type();
        }
    }
    using type = decltype(pick());
};

template<class R, class V>
bool representable(V v)
{
    if constexpr (is_float<R>) { return true; }
    else {
        return Wide(v) >= Wide(std::numeric_limits<R>::min()) &&
            Wide(v) <= Wide(std::numeric_limits<R>::max());
    }
}

enum { ADD, SUBTRACT, MULTIPLY, DIVIDE };
char const* const op_names[] = {"add", "subtract", "multiply", "divide"};

template<class Exec, class A, class B, class R, class In, class Out>
void checked(int op, In const& in, Out& out, Exec& exec, A const& a,
    B const& b, R& r)
{
    switch(op) {
        case ADD: fa::algebra::add<fa::add::OutOfRangePolicy>(
            in, out, exec, a, b, r); break;
        case SUBTRACT: fa::algebra::subtract<fa::subtract::OutOfRangePolicy>(
            in, out, exec, a, b, r); break;
        case MULTIPLY: fa::algebra::multiply<fa::multiply::OutOfRangePolicy>(
            in, out, exec, a, b, r); break;
        default: fa::algebra::divide<fa::divide::OutOfDomainPolicy,
            fa::divide::OutOfRangePolicy>(in, out, exec, a, b, r); break;
    }
}

template<class Exec, class A, class B, class R>
void unchecked(int op, Exec& exec, A const& a, B const& b, R& r)
{
    switch(op) {
        case ADD: fa::algebra::add(exec, a, b, r); break;
        case SUBTRACT: fa::algebra::subtract(exec, a, b, r); break;
        case MULTIPLY: fa::algebra::multiply(exec, a, b, r); break;
        default: fa::algebra::divide(exec, a, b, r); break;
    }
}

//! Exact result of the operation on integers; false: too large for Wide.
inline bool exact(int op, Wide a, Wide b, Wide& r)
{
    switch(op) {
        case ADD: return !__builtin_add_overflow(a, b, &r);
        case SUBTRACT: return !__builtin_sub_overflow(a, b, &r);
        case MULTIPLY: return !__builtin_mul_overflow(a, b, &r);
        default: r = a / b; return true;
    }
}

template<class R>
R apply(int op, R a, R b)
{
    switch(op) {
        case ADD: return a + b;
        case SUBTRACT: return a - b;
        case MULTIPLY: return a * b;
        default: return a / b;
    }
}

//! A second operand that takes the result near a limit of the result type.
template<class V2, class R>
V2 near_limit(pbt::Case& c, int op, Wide a, bool& ok)
{
    Wide limit = c.chance(1, 2) ? Wide(std::numeric_limits<R>::min())
        : Wide(std::numeric_limits<R>::max());
    Wide goal = limit + c.range(-2, 2), b = 0;
    switch(op) {
        case ADD: b = goal - a; break;
        case SUBTRACT: b = a - goal; break;
        case MULTIPLY: b = a == 0 ? 0 : goal / a + c.range(-1, 1); break;
        default: b = c.pick<int>({-1, 1, 2, -2}); break;
    }
    ok = representable<V2>(b);
    return static_cast<V2>(b);
}

template<class V1, class V2>
void arithmetic(pbt::Case& c)
{
    using R = fa::add::result_value_type<V1, V2>;
#if defined(IS_P04)
    using D = typename Documented<V1, V2>::type;
    PBT_CHECK((std::is_same<R, D>::value), "result type of " << name_of<V1>()
        << " and " << name_of<V2>() << " is " << name_of<R>() << ", want "
        << name_of<D>());
#endif
    int op = static_cast<int>(c.draw(4));
    V1 a = gen::any<V1>(c);
    V2 b;
    if constexpr (!is_float<V1> && !is_float<V2>) {
        bool ok = false;
        if(c.chance(1, 2)) { b = near_limit<V2, R>(c, op, a, ok); }
        if(!ok) { b = gen::any<V2>(c); }
    }
    else { b = gen::any<V2>(c); }
    c.desc() << op_names[op] << "(" << name_of<V1>() << " " << pbt::show(a)
        << ", " << name_of<V2>() << " " << pbt::show(b) << ") -> "
        << name_of<R>();
    bool in_domain = op != DIVIDE || !(b == V2(0));
    bool operands_fit = representable<R>(a) && representable<R>(b);
    R want{};
    bool fits = false;
    if(in_domain && operands_fit) {
        if constexpr (is_float<R>) {
            want = apply<R>(op, R(a), R(b));
            fits = std::isfinite(want);
        }
        else {
            Wide r;
            fits = exact(op, Wide(a), Wide(b), r) && representable<R>(r);
            if(fits) { want = static_cast<R>(r); }
        }
    }
    c.label(op_names[op]);
    c.label(!in_domain ? "out of domain" : !operands_fit
        ? "operand does not fit" : fits ? "fits" : "out of range");
    R const before = R(42);
    bool m1 = c.chance(1, 16), m2 = c.chance(1, 16), m = false;
    R r = before;
    fa::SequentialExecutionPolicy exec;
    {
        using P = fa::DetectNoDataByValue<bool>;
        fa::InputNoDataPolicies<P, P> in{{m1, true}, {m2, true}};
        fa::MarkNoDataByValue<bool> out(m, true);
        checked(op, in, out, exec, a, b, r);
    }
#if defined(IS_P05)
    c.nontrivial(in_domain && operands_fit && !m1 && !m2 && !fits);
    if(m1 || m2) { PBT_CHECK(m, "result of no-data is valid"); }
    else if(in_domain && operands_fit) {
        PBT_CHECK(m == !fits, (fits ? "result fits, but is marked"
            : "result does not fit, but is not marked")
            << "; result " << pbt::show(r));
    }
#elif defined(IS_P06)
    c.nontrivial(op == DIVIDE && b == V2(0));
    if(op != DIVIDE) { return; }
    if(!in_domain || m1 || m2) {
        PBT_CHECK(m, "division by zero is not marked");
        PBT_EQ(r, before, "value of marked result");
    }
    else if(fits) { PBT_CHECK(!m, "division inside domain is marked"); }
#else
    c.nontrivial(in_domain && operands_fit && fits &&
        !std::is_same<V1, V2>::value);
    if(in_domain && operands_fit && fits) {
        if(!m1 && !m2) {
            PBT_CHECK(!m, "result fits, but is marked");
            PBT_CHECK(gen::same(r, want), "got " << pbt::show(r)
                << ", want " << pbt::show(want));
        }
        R r2 = before;
        unchecked(op, exec, a, b, r2);
        PBT_CHECK(gen::same(r2, want), "without policies: got "
            << pbt::show(r2) << ", want " << pbt::show(want));
    }
#endif
}

#if defined(IS_P04)
//! Whether C++ converts the operands without loss to compare them.
template<class V1, class V2>
bool lossless(V1 a, V2 b)
{
    if constexpr (!is_float<V1> && !is_float<V2>) {
        using C = std::common_type_t<V1, V2>;
        return Wide(C(a)) == Wide(a) && Wide(C(b)) == Wide(b);
    }
    else {
        using C = std::common_type_t<V1, V2>;
        auto ok = [](auto v) {
            if constexpr (is_float<decltype(v)>) { return true; }
            else {
                return static_cast<long double>(C(v)) ==
                    static_cast<long double>(v);
            }
        };
        return ok(a) && ok(b);
    }
}

template<class V1, class V2, class R>
void comparison(pbt::Case& c)
{
    V1 a = gen::any<V1>(c);
    V2 b = gen::any<V2>(c);
    if(c.chance(1, 4)) {
        if constexpr (std::is_integral<V2>::value &&
                std::is_integral<V1>::value) {
            b = static_cast<V2>(static_cast<uint64_t>(a) +
                static_cast<uint64_t>(c.range(-1, 1)));
        }
        else if constexpr (is_float<V2> && !is_float<V1>) {
            b = static_cast<V2>(a);
        }
        else if constexpr (is_float<V2> && is_float<V1>) {
            b = static_cast<V2>(a);
            if(c.chance(1, 2)) { b = std::nextafter(b, V2(0)); }
        }
    }
    c.desc() << "compare " << name_of<V1>() << " " << pbt::show(a) << ", "
        << name_of<V2>() << " " << pbt::show(b);
    if(!lossless(a, b)) { c.label("not comparable"); return; }
    bool nan = a != a || b != b;
    bool less, equal;
    if constexpr (!is_float<V1> && !is_float<V2>) {
        less = Wide(a) < Wide(b);
        equal = Wide(a) == Wide(b);
    }
    else {
        less = static_cast<long double>(a) < static_cast<long double>(b);
        equal = static_cast<long double>(a) == static_cast<long double>(b);
    }
    c.nontrivial(!std::is_same<V1, V2>::value || nan || equal);
    c.label(nan ? "unordered" : less ? "less" : equal ? "equal" : "greater");
    fa::SequentialExecutionPolicy exec;
    R r = R(2);
    fa::algebra::less(exec, a, b, r);
    PBT_EQ(r, R(less), "less");
    r = R(2);
    fa::algebra::less_equal(exec, a, b, r);
    PBT_EQ(r, R(less || equal), "less_equal");
    r = R(2);
    fa::algebra::greater(exec, a, b, r);
    PBT_EQ(r, R(!nan && !less && !equal), "greater");
    r = R(2);
    fa::algebra::greater_equal(exec, a, b, r);
    PBT_EQ(r, R(!nan && !less), "greater_equal");
    if constexpr (std::is_same<V1, V2>::value) {
        r = R(2);
        fa::algebra::equal(exec, a, b, r);
        PBT_EQ(r, R(equal), "equal");
    }
}
#endif

template<class V1>
void first(pbt::Case& c, bool compare)
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {
        arithmetic<V1, int8_t>, arithmetic<V1, int16_t>,
        arithmetic<V1, int32_t>, arithmetic<V1, int64_t>,
        arithmetic<V1, uint8_t>, arithmetic<V1, uint16_t>,
        arithmetic<V1, uint32_t>, arithmetic<V1, uint64_t>,
        arithmetic<V1, float>, arithmetic<V1, double>};
#if defined(IS_P04)
    static F const comparisons[] = {
        comparison<V1, int8_t, bool>, comparison<V1, int16_t, int>,
        comparison<V1, int32_t, bool>, comparison<V1, int64_t, uint8_t>,
        comparison<V1, uint8_t, int>, comparison<V1, uint16_t, bool>,
        comparison<V1, uint32_t, int>, comparison<V1, uint64_t, bool>,
        comparison<V1, float, int>, comparison<V1, double, bool>};
    if(compare) { comparisons[c.draw(10)](c); return; }
#endif
    table[c.draw(10)](c);
}

} // Anonymous namespace

#if PART < 10
namespace {
using Types = std::tuple<int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t,
    uint32_t, uint64_t, float, double>;
using First = std::tuple_element_t<PART, Types>;
}
#define NAME2(A, B) A##B
#define NAME(A, B) NAME2(A, B)
#define TARGET_OF(A, NR, RULE) PBT_TARGET(A, NR, 1, RULE)
#if defined(IS_P05)
TARGET_OF(NAME(range_, PART), 60000, "a result that does not fit the result type")
#elif defined(IS_P06)
TARGET_OF(NAME(divide_, PART), 20000, "division by zero")
#else
TARGET_OF(NAME(values_, PART), 60000, "result of different value types that "
    "fits")
#endif
{
    first<First>(c, false);
}
#if defined(IS_P04)
TARGET_OF(NAME(compare_, PART), 25000, "different value types, equal or "
    "unordered values")
{
    first<First>(c, true);
}
#endif

#else

// Unary operations and power -------------------------------------------------

namespace {

template<class T>
bool close(T got, long double want, double ulps)
{
    if(std::isnan(want)) { return std::isnan(got); }
    T w = static_cast<T>(want);
    if(std::isinf(w) || std::isinf(got)) {
        if(got == w) { return true; }
        // On the edge of the range.
        return std::isinf(w) != std::isinf(got) &&
            std::fabs(static_cast<long double>(std::isinf(w) ? got : w)) >
                std::numeric_limits<T>::max() * (1.0L - 1e-5L);
    }
    long double scale = std::max<long double>(std::fabs(w),
        std::numeric_limits<T>::min());
    return std::fabs(static_cast<long double>(got) - want) <=
        static_cast<long double>(ulps) * std::numeric_limits<T>::epsilon() *
        scale;
}

enum Domain { INSIDE, OUTSIDE, UNDECIDED };

//! One operation: how it is called with policies, its domain and its value.
template<class T>
struct Unary
{
    char const* name;
    //! Checks: bit 0 domain, bit 1 range.
    std::function<void(int, fa::ExecutionPolicy&, fern::MaskedArray<T, 1> const&,
        fern::MaskedArray<T, 1>&)> run;
    //! Overload without policies.
    std::function<void(fa::ExecutionPolicy&, fern::MaskedArray<T, 1> const&,
        fern::MaskedArray<T, 1>&)> simple;
    std::function<Domain(T)> domain;
    std::function<long double(long double)> value;
    double ulps;
    bool has_domain, has_range;
    std::function<T(pbt::Case&)> generate;
};

template<class T>
T a_value(pbt::Case& c)
{
    return gen::floating<T>(c);
}

#define RUN_PLAIN(NS, OP)                                                     \
    [](int, fa::ExecutionPolicy& e, fern::MaskedArray<T, 1> const& a,         \
            fern::MaskedArray<T, 1>& r) {                                     \
        auto out = grid::marker(r);                                           \
        fa::NS::OP(grid::policies(a), out, e, a, r); },                       \
    [](fa::ExecutionPolicy& e, fern::MaskedArray<T, 1> const& a,              \
        fern::MaskedArray<T, 1>& r) { fa::NS::OP(e, a, r); }

#define RUN_DOMAIN(NS, OP)                                                    \
    [](int d, fa::ExecutionPolicy& e, fern::MaskedArray<T, 1> const& a,       \
            fern::MaskedArray<T, 1>& r) {                                     \
        auto out = grid::marker(r);                                           \
        if(d & 1) { fa::NS::OP<fa::OP::OutOfDomainPolicy>(                    \
            grid::policies(a), out, e, a, r); }                               \
        else { fa::NS::OP<fa::unary::DiscardDomainErrors>(                    \
            grid::policies(a), out, e, a, r); } },                            \
    [](fa::ExecutionPolicy& e, fern::MaskedArray<T, 1> const& a,              \
        fern::MaskedArray<T, 1>& r) { fa::NS::OP(e, a, r); }

#define RUN_BOTH(NS, OP)                                                      \
    [](int d, fa::ExecutionPolicy& e, fern::MaskedArray<T, 1> const& a,       \
            fern::MaskedArray<T, 1>& r) {                                     \
        auto out = grid::marker(r);                                           \
        switch(d) {                                                           \
            case 0: fa::NS::OP<fa::unary::DiscardDomainErrors,                \
                fa::unary::DiscardRangeErrors>(                               \
                grid::policies(a), out, e, a, r); break;                      \
            case 1: fa::NS::OP<fa::OP::OutOfDomainPolicy,                     \
                fa::unary::DiscardRangeErrors>(                               \
                grid::policies(a), out, e, a, r); break;                      \
            case 2: fa::NS::OP<fa::unary::DiscardDomainErrors,                \
                fa::OP::OutOfRangePolicy>(                                    \
                grid::policies(a), out, e, a, r); break;                      \
            default: fa::NS::OP<fa::OP::OutOfDomainPolicy,                    \
                fa::OP::OutOfRangePolicy>(                                    \
                grid::policies(a), out, e, a, r); break;                      \
        } },                                                                  \
    [](fa::ExecutionPolicy& e, fern::MaskedArray<T, 1> const& a,              \
        fern::MaskedArray<T, 1>& r) { fa::NS::OP(e, a, r); }

template<class T>
T whole_or_any(pbt::Case& c)
{
    switch(c.weighted({3, 2, 2})) {
        case 0: return static_cast<T>(c.range(-4, 40));
        case 1: return static_cast<T>(c.range(-40, 240)) / T(8);
        default: return a_value<T>(c);
    }
}

template<class T>
std::vector<Unary<T>> const& operations()
{
    auto always = [](T) { return INSIDE; };
    auto non_negative = [](T v) {
        return std::isnan(v) ? UNDECIDED : v >= T(0) ? INSIDE : OUTSIDE; };
    auto finite = [](T v) {
        return std::isnan(v) ? UNDECIDED : std::isfinite(v) ? INSIDE
            : OUTSIDE; };
    auto unit = [](T v) {
        return std::isnan(v) ? UNDECIDED : v >= T(-1) && v <= T(1) ? INSIDE
            : OUTSIDE; };
    auto unit_value = [](pbt::Case& c) {
        return c.chance(1, 2) ? static_cast<T>(c.range(-40, 40)) / T(32)
            : a_value<T>(c); };
    static std::vector<Unary<T>> const result = {
        {"ceil", RUN_PLAIN(algebra, ceil), always,
            [](long double v) { return ceill(v); }, 0, false, false,
            a_value<T>},
        {"floor", RUN_PLAIN(algebra, floor), always,
            [](long double v) { return floorl(v); }, 0, false, false,
            a_value<T>},
        {"round", RUN_PLAIN(algebra, round), always,
            [](long double v) { return roundl(v); }, 0, false, false,
            a_value<T>},
        {"trunc", RUN_PLAIN(algebra, trunc), always,
            [](long double v) { return truncl(v); }, 0, false, false,
            a_value<T>},
        {"atan", RUN_PLAIN(trigonometry, atan), always,
            [](long double v) { return atanl(v); }, 4, false, false,
            a_value<T>},
        {"sqrt", RUN_DOMAIN(algebra, sqrt), non_negative,
            [](long double v) { return sqrtl(v); }, 1, true, false,
            a_value<T>},
        {"log", RUN_DOMAIN(algebra, log), non_negative,
            [](long double v) { return logl(v); }, 4, true, false,
            a_value<T>},
        {"log2", RUN_DOMAIN(algebra, log2), non_negative,
            [](long double v) { return log2l(v); }, 4, true, false,
            a_value<T>},
        {"log10", RUN_DOMAIN(algebra, log10), non_negative,
            [](long double v) { return log10l(v); }, 4, true, false,
            a_value<T>},
        {"acos", RUN_DOMAIN(trigonometry, acos), unit,
            [](long double v) { return acosl(v); }, 4, true, false,
            unit_value},
        {"asin", RUN_DOMAIN(trigonometry, asin), unit,
            [](long double v) { return asinl(v); }, 4, true, false,
            unit_value},
        {"sin", RUN_DOMAIN(trigonometry, sin), finite,
            [](long double v) { return sinl(v); }, 4, true, false,
            a_value<T>},
        {"cos", RUN_DOMAIN(trigonometry, cos), finite,
            [](long double v) { return cosl(v); }, 4, true, false,
            a_value<T>},
        {"tan", RUN_DOMAIN(trigonometry, tan),
            [](T v) {
                if(std::isnan(v)) { return UNDECIDED; }
                if(!std::isfinite(v)) { return OUTSIDE; }
                long double half =
                    static_cast<T>(1.57079632679489661923132169163975144L);
                long double k = v / half;
                if(k == std::trunc(k)) {
                    // An exact multiple of what the type knows as pi / 2.
                    return std::fmod(k, 2.0L) == 0 ? INSIDE
                        : std::fabs(k) < 64 ? OUTSIDE : UNDECIDED;
                }
                // Close to a multiple: rounding decides.
                long double d = std::fabs(k - std::round(k));
                return d < 1e-5L * (1 + std::fabs(k)) &&
                    std::fabs(std::fmod(std::round(k), 2.0L)) == 1
                    ? UNDECIDED : INSIDE;
            },
            [](long double v) { return tanl(v); }, 8, true, false,
            [](pbt::Case& c) {
                T half = static_cast<T>(
                    1.57079632679489661923132169163975144L);
                return c.chance(1, 2) ? static_cast<T>(c.range(-9, 9)) * half
                    : a_value<T>(c); }},
        {"tgamma", RUN_BOTH(algebra, tgamma),
            [](T v) {
                if(std::isnan(v) || std::isinf(v) || v == T(0)) {
                    return UNDECIDED;
                }
                return v < T(0) && std::trunc(v) == v ? OUTSIDE : INSIDE;
            },
            [](long double v) { return tgammal(v); }, 16, true, true,
            whole_or_any<T>},
        {"factorial", RUN_BOTH(algebra, factorial),
            [](T v) {
                if(std::isnan(v) || std::isinf(v)) { return UNDECIDED; }
                return v >= T(0) && std::trunc(v) == v ? INSIDE : OUTSIDE;
            },
            [](long double v) { return roundl(tgammal(v + 1)); }, 16, true,
            true, whole_or_any<T>},
    };
    return result;
}

template<class T>
void unary(pbt::Case& c)
{
    auto const& op = c.pick(operations<T>());
    grid::How how = grid::how(c);
    auto g = grid::grid<T>(c, {1, c.size(1, 12)}, op.generate,
        c.chance(1, 4));
    int checks = static_cast<int>(c.draw(4)) & (op.has_domain * 1 +
        op.has_range * 2);
    c.desc() << op.name << "(" << (sizeof(T) == 4 ? "float " : "double ")
        << grid::show(g) << ") checks " << checks << ", " << show(how);
    c.label(op.name);
    auto argument = grid::data<T, 1>(g);
    T const before = T(42);
    auto result = grid::blank<T, 1>(g.shape, before);
    grid::execute_variant(how, [&](fa::ExecutionPolicy& e) {
        op.run(checks, e, *argument, *result); });
    auto got = grid::read(*result, g.shape);
    auto bare = grid::blank<T, 1>(g.shape, before);
    grid::execute_variant(how, [&](fa::ExecutionPolicy& e) {
        op.simple(e, *argument, *bare); });
    for(size_t i = 0; i < g.size(); ++i) {
        T v = g.values[i];
        auto where = [&]() {
            return "element " + std::to_string(i) + " (" + pbt::show(v) +
                ")"; };
        if(g.mask[i]) {
            PBT_CHECK(got.mask[i], where() << ": no-data became valid");
            PBT_EQ(got.values[i], before, where() << ": value of no-data");
            continue;
        }
        Domain domain = op.domain(v);
        long double want = op.value(v);
        // As an argument the type itself cannot hold v + 1 precisely.
        if(std::string(op.name) == "factorial" &&
                std::fabs(v) * std::numeric_limits<T>::epsilon() >= 1) {
            domain = UNDECIDED;
        }
        bool check_domain = checks & 1, check_range = checks & 2;
        bool finite_surely = std::fabs(want) <
            std::numeric_limits<T>::max() * 0.99L;
        bool infinite_surely = std::isinf(want) || (std::isfinite(want) &&
            std::fabs(want) > std::numeric_limits<T>::max() * 1.01L);
#if defined(IS_P06)
        if(domain == OUTSIDE && check_domain) {
            c.nontrivial();
            c.label(std::string(op.name) + " outside");
            PBT_CHECK(got.mask[i], where() << ": is outside the domain, "
                "but valid");
            PBT_CHECK(gen::same(got.values[i], before), where()
                << ": value of element that is out of domain is "
                << pbt::show(got.values[i]));
        }
        if(domain == INSIDE && !check_range) {
            PBT_CHECK(!got.mask[i], where() << ": is inside the domain, but "
                "no-data");
        }
        if(!check_domain && !check_range) {
            PBT_CHECK(!got.mask[i], where() << ": is no-data, while no "
                "errors were to be detected");
        }
        if(domain == INSIDE) {
            PBT_CHECK(close(got.values[i], want, op.ulps), where() << ": is "
                << pbt::show(got.values[i]) << ", want " << pbt::show(want));
        }
#elif defined(IS_P05)
        if(check_range && domain == INSIDE) {
            c.nontrivial(infinite_surely);
            if(infinite_surely) {
                c.label(std::string(op.name) + " overflow");
                PBT_CHECK(got.mask[i], where() << ": overflows, but valid");
            }
            if(finite_surely) {
                PBT_CHECK(!got.mask[i], where()
                    << ": does not overflow, but no-data");
            }
        }
#else
        (void)check_domain; (void)check_range; (void)finite_surely;
        (void)infinite_surely;
        if(domain == INSIDE) {
            c.nontrivial(v != std::trunc(v) || op.ulps == 16);
            PBT_CHECK(close(got.values[i], want, op.ulps), where() << ": is "
                << pbt::show(got.values[i]) << ", want " << pbt::show(want));
            PBT_CHECK(close(bare->data()[i], want, op.ulps), where()
                << ": without policies is " << pbt::show(bare->data()[i])
                << ", want " << pbt::show(want));
        }
#endif
    }
}

template<class T>
void power(pbt::Case& c)
{
    auto value = [](pbt::Case& c) {
        switch(c.weighted({3, 3, 2})) {
            case 0: return static_cast<T>(c.range(-6, 8));
            case 1: return static_cast<T>(c.range(-300, 300)) / T(16);
            default: return a_value<T>(c);
        }
    };
    T a = value(c), b = value(c);
    int checks = static_cast<int>(c.draw(4));
    c.desc() << "pow(" << pbt::show(a) << ", " << pbt::show(b)
        << ") checks " << checks << " size " << sizeof(T);
    Domain domain = std::isnan(a) || std::isnan(b) ? UNDECIDED
        : a < T(0) && std::trunc(b) != b ? OUTSIDE
        : a == T(0) && b < T(0) ? OUTSIDE : INSIDE;
    long double want = powl(a, b);
    T const before = T(42);
    T r = before, bare = before;
    bool mask = false, no = false;
    fa::SequentialExecutionPolicy e;
    using P = fa::DetectNoDataByValue<bool>;
    fa::InputNoDataPolicies<P, P> in{{no, true}, {no, true}};
    fa::MarkNoDataByValue<bool> out(mask, true);
    using namespace fa::binary;
    switch(checks) {
        case 0: fa::algebra::pow<DiscardDomainErrors, DiscardRangeErrors>(
            in, out, e, a, b, r); break;
        case 1: fa::algebra::pow<fa::pow::OutOfDomainPolicy,
            DiscardRangeErrors>(in, out, e, a, b, r); break;
        case 2: fa::algebra::pow<DiscardDomainErrors,
            fa::pow::OutOfRangePolicy>(in, out, e, a, b, r); break;
        default: fa::algebra::pow<fa::pow::OutOfDomainPolicy,
            fa::pow::OutOfRangePolicy>(in, out, e, a, b, r); break;
    }
    fa::algebra::pow(e, a, b, bare);
    bool inputs_finite = std::isfinite(a) && std::isfinite(b);
    bool infinite_surely = inputs_finite && (std::isinf(want) ||
        (std::isfinite(want) && std::fabs(want) >
            std::numeric_limits<T>::max() * 1.01L));
    bool finite_surely = std::fabs(want) <
        std::numeric_limits<T>::max() * 0.99L;
    c.label(domain == OUTSIDE ? "outside" : infinite_surely ? "overflow"
        : "inside");
    (void)infinite_surely; (void)finite_surely;
#if defined(IS_P06)
    c.nontrivial(domain == OUTSIDE);
    if(domain == OUTSIDE && checks & 1) {
        PBT_CHECK(mask, "outside the domain, but valid");
        PBT_CHECK(gen::same(r, before), "value is " << pbt::show(r));
    }
    if(domain == INSIDE && !(checks & 2)) {
        PBT_CHECK(!mask, "inside the domain, but no-data");
    }
    if(domain == INSIDE) {
        PBT_CHECK(close(r, want, 4), "got " << pbt::show(r) << ", want "
            << pbt::show(want));
    }
#elif defined(IS_P05)
    c.nontrivial(domain == INSIDE && infinite_surely);
    if(checks & 2 && domain == INSIDE) {
        if(infinite_surely) { PBT_CHECK(mask, "overflows, but valid"); }
        if(finite_surely) { PBT_CHECK(!mask, "fits, but no-data"); }
    }
#else
    c.nontrivial(domain == INSIDE && inputs_finite);
    if(domain == INSIDE) {
        PBT_CHECK(close(r, want, 4), "got " << pbt::show(r) << ", want "
            << pbt::show(want));
        PBT_CHECK(close(bare, want, 4), "without policies: got "
            << pbt::show(bare) << ", want " << pbt::show(want));
    }
#endif
}

#if !defined(IS_P06)
template<class T>
void absolute(pbt::Case& c)
{
    T a = gen::any<T>(c);
    c.desc() << "absolute(" << name_of<T>() << " " << pbt::show(a) << ")";
    bool m = false, no = false;
    T r = T(42), bare = T(42);
    fa::SequentialExecutionPolicy e;
    fa::InputNoDataPolicies<fa::DetectNoDataByValue<bool>> in{{no, true}};
    fa::MarkNoDataByValue<bool> out(m, true);
    fa::algebra::absolute<fa::absolute::OutOfRangePolicy>(in, out, e, a, r);
    fa::algebra::absolute(e, a, bare);
    bool fits = true, decided = true;
    T want;
    if constexpr (is_float<T>) {
        want = std::fabs(a);
        decided = std::isfinite(a);
    }
    else {
        Wide w = a < 0 ? -Wide(a) : Wide(a);
        fits = representable<T>(w);
        want = static_cast<T>(w);
    }
    c.nontrivial(a < T(0));
    c.label(fits ? "fits" : "out of range");
#if defined(IS_P05)
    if(decided) { PBT_EQ(m, !fits, "marked"); }
#else
    (void)decided;
    if(fits) {
        PBT_CHECK(gen::same(r, want), "got " << pbt::show(r));
        PBT_CHECK(gen::same(bare, want), "without policies: got "
            << pbt::show(bare));
    }
#endif
}
#endif

template<class T>
void factorial(pbt::Case& c)
{
    T a = c.chance(2, 3) ? static_cast<T>(c.range(0, 24)) : gen::integer<T>(c);
    int checks = static_cast<int>(c.draw(4));
    c.desc() << "factorial(" << name_of<T>() << " " << pbt::show(a)
        << ") checks " << checks;
    bool m = false, no = false;
    T const before = T(42);
    T r = before;
    fa::SequentialExecutionPolicy e;
    fa::InputNoDataPolicies<fa::DetectNoDataByValue<bool>> in{{no, true}};
    fa::MarkNoDataByValue<bool> out(m, true);
    using namespace fa::unary;
    switch(checks) {
        case 0: fa::algebra::factorial<DiscardDomainErrors,
            DiscardRangeErrors>(in, out, e, a, r); break;
        case 1: fa::algebra::factorial<fa::factorial::OutOfDomainPolicy,
            DiscardRangeErrors>(in, out, e, a, r); break;
        case 2: fa::algebra::factorial<DiscardDomainErrors,
            fa::factorial::OutOfRangePolicy>(in, out, e, a, r); break;
        default: fa::algebra::factorial<fa::factorial::OutOfDomainPolicy,
            fa::factorial::OutOfRangePolicy>(in, out, e, a, r); break;
    }
    bool inside = a >= T(0);
    bool fits = false;
    T want{};
    if(inside) {
        Wide w = 1;
        for(Wide k = 2; k <= Wide(a) && representable<T>(w); ++k) { w *= k; }
        fits = representable<T>(w);
        want = static_cast<T>(w);
    }
    c.label(!inside ? "outside" : fits ? "fits" : "out of range");
#if defined(IS_P06)
    c.nontrivial(!inside);
    if(checks & 1 && !inside) {
        PBT_CHECK(m, "outside the domain, but valid");
        PBT_EQ(r, before, "value");
    }
    if(inside && !(checks & 2)) { PBT_CHECK(!m, "inside, but no-data"); }
#elif defined(IS_P05)
    c.nontrivial(inside && !fits);
    if(checks & 2 && inside) { PBT_EQ(m, !fits, "marked"); }
#else
    c.nontrivial(fits && a > T(2));
#endif
    if(inside && fits) { PBT_EQ(r, want, "value"); }
}

} // Anonymous namespace

PBT_TARGET(unary_float, 20000, 1, "an argument the property is about: "
    "outside the domain, out of range, or not whole")
{
    unary<float>(c);
}

PBT_TARGET(unary_double, 20000, 1, "an argument the property is about: "
    "outside the domain, out of range, or not whole")
{
    unary<double>(c);
}

PBT_TARGET(power_float, 40000, 1, "outside the domain, out of range, or "
    "finite")
{
    power<float>(c);
}

PBT_TARGET(power_double, 40000, 1, "outside the domain, out of range, or "
    "finite")
{
    power<double>(c);
}

#if !defined(IS_P06)
PBT_TARGET(absolute_values, 60000, 1, "negative value")
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {absolute<int8_t>, absolute<int16_t>,
        absolute<int32_t>, absolute<int64_t>, absolute<uint8_t>,
        absolute<uint16_t>, absolute<uint32_t>, absolute<uint64_t>,
        absolute<float>, absolute<double>};
    table[c.draw(10)](c);
}
#endif

PBT_TARGET(integer_factorial, 40000, 1, "a factorial the property is about: "
    "negative, out of range, or larger than 2")
{
    using F = void (*)(pbt::Case&);
    static F const table[] = {factorial<int8_t>, factorial<int16_t>,
        factorial<int32_t>, factorial<int64_t>, factorial<uint8_t>,
        factorial<uint16_t>, factorial<uint32_t>, factorial<uint64_t>};
    table[c.draw(8)](c);
}
#endif
