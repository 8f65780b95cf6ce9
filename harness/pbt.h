// Property-based testing engine: a case is a tape of bounded integer draws.
//
// A property is a function of a Case&. It draws what it needs, and calls
// fail() (or one of the CHECK macros) when the code under test disagrees with
// the oracle. The same tape always yields the same case, so a failure is
// shrunk by editing its tape and is stored as its tape (the replay file).
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <iomanip>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt {

struct Failure { std::string message; };
struct Discard {};

class Case
{
public:

    //! Random case: draws come from the generator seeded with \a seed.
    Case(uint64_t seed, uint64_t* tape, size_t capacity, size_t* length);

    //! Replayed case: draws come from \a given, then zeros.
    Case(std::vector<uint64_t> const& given, uint64_t* tape, size_t capacity,
        size_t* length);

    //! Uniform in [0, n); n == 0: all 64 bits.
    uint64_t       draw                (uint64_t n);

    //! Uniform in [lo, hi]; simplest is lo.
    int64_t        range               (int64_t lo, int64_t hi);

    //! True in num out of den cases; simplest is false.
    bool           chance              (unsigned num, unsigned den);

    size_t         size                (size_t lo, size_t hi)
        { return static_cast<size_t>(range(static_cast<int64_t>(lo),
            static_cast<int64_t>(hi))); }

    //! Index drawn according to the weights; simplest is the first.
    size_t         weighted            (std::initializer_list<unsigned> weights);

    template<class T>
    T const&       pick                (std::vector<T> const& values)
        { return values[draw(values.size())]; }

    template<class T>
    T              pick                (std::initializer_list<T> values)
        { return *(values.begin() + draw(values.size())); }

    void           label               (std::string const& name);

    //! Marks the case as non-trivial by the property's stated rule.
    void           nontrivial          (bool yes=true)
        { if(yes) _nontrivial = true; }

    //! Reports a failure that may be listed as a known finding.
    void           known               (std::string const& id,
                                        std::string const& message);

    std::ostream&  desc                () { return _desc; }

    [[noreturn]] void fail             (std::string const& message);

    [[noreturn]] void discard          () { throw Discard(); }

    std::vector<std::string> const& labels() const { return _labels; }
    bool           is_nontrivial       () const { return _nontrivial; }
    std::string    description         () const { return _desc.str(); }
    uint64_t       hash                () const;

private:

    uint64_t       raw                 ();

    bool           _replay;
    uint64_t       _state{0};
    std::vector<uint64_t> _given;
    uint64_t*      _tape;
    size_t         _capacity;
    size_t*        _length;
    std::vector<std::string> _labels;
    bool           _nontrivial{false};
    std::ostringstream _desc;
};

using Property = std::function<void(Case&)>;

struct Target
{
    std::string    name;
    Property       property;
    //! Number of cases in the quick tier.
    size_t         nr_cases;
    //! How often one case is run while replaying and shrinking (> 1: the
    //! outcome depends on the schedule).
    unsigned       repeat;
    //! Rule by which a case counts as non-trivial.
    std::string    rule;
};

bool add_target(Target const& target);

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

#define PBT_STR2(a) #a
#define PBT_STR(a) PBT_STR2(a)
// A source that is compiled more than once has targets per part.
#ifdef PART
#define PBT_SUFFIX "." PBT_STR(PART)
#else
#define PBT_SUFFIX ""
#endif

//! PBT_TARGET(name, nr_cases, repeat, rule) { ... uses Case& c ... }
#define PBT_TARGET(NAME, NR, REPEAT, RULE)                                    \
    static void pbt_target_##NAME(pbt::Case& c);                              \
    static bool pbt_registered_##NAME = pbt::add_target(                      \
        pbt::Target{#NAME PBT_SUFFIX, pbt_target_##NAME, NR, REPEAT, RULE});             \
    static void pbt_target_##NAME(pbt::Case& c)

template<class T>
std::string show(T const& value)
{
    std::ostringstream s;
    if constexpr (std::is_same_v<T, bool>) {
        s << (value ? "true" : "false");
    }
    else if constexpr (std::is_floating_point_v<T>) {
        s << std::setprecision(std::numeric_limits<T>::max_digits10) << value;
    }
    else if constexpr (std::is_integral_v<T>) {
        s << +value;
    }
    else if constexpr (std::is_same_v<T, std::string>) {
        s << '"' << value << '"';
    }
    else {
        s << value;
    }
    return s.str();
}

#define PBT_CHECK(COND, MESSAGE)                                              \
    do { if(!(COND)) { std::ostringstream pbt_s_; pbt_s_ << MESSAGE;          \
        c.fail(pbt_s_.str()); } } while(false)

#define PBT_EQ(GOT, WANT, MESSAGE)                                            \
    do { auto const& pbt_g_ = (GOT); auto const& pbt_w_ = (WANT);             \
        if(!(pbt_g_ == pbt_w_)) { std::ostringstream pbt_s_;                  \
        pbt_s_ << MESSAGE << ": got " << pbt::show(pbt_g_) << ", want "       \
            << pbt::show(pbt_w_); c.fail(pbt_s_.str()); } } while(false)

//! Removed at exit scratch directory of this process.
std::string const& scratch_dir();

} // namespace pbt
