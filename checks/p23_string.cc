// P23: string helpers obey their algebraic laws.
#include <cmath>
#include <cstdlib>
#include <regex>
#include <string>
#include <vector>
#include "pbt.h"
#include "gen.h"
#include "fern/core/string.h"

namespace {

using Strings = std::vector<std::string>;

std::string text(pbt::Case& c, std::string const& alphabet, size_t most)
{
    std::string result(c.size(0, most), ' ');
    for(auto& ch: result) ch = alphabet[c.draw(alphabet.size())];
    return result;
}

std::string alphabet(pbt::Case& c)
{
    switch(c.draw(5)) {
        case 0: return "ab";
        case 1: return "ab, ;x";
        case 2: return std::string("a b\t\n\v\f\r\0", 9);
        case 3: return "abc.*+?(){}$|/\\\"'<>&^]-[";
        default: return "\xc3\xa6\xc3\xb8" "a\xff\x80 ";
    }
}

//! Characters that stand for themselves between brackets.
std::string separators(pbt::Case& c)
{
    std::string all(",;xa b/|.*+?(){}$<>\"'&\t\n");
    std::string result(1 + c.weighted({5, 2, 1}), ' ');
    for(auto& ch: result) ch = all[c.draw(all.size())];
    return result;
}

bool space(char ch) { return std::string(" \t\n\v\f\r").find(ch)
    != std::string::npos; }

bool is_in(std::string const& characters, char ch)
{
    return characters.empty() ? space(ch)
        : characters.find(ch) != std::string::npos;
}

Strings words_of(std::string const& s, std::string const& characters)
{
    Strings result;
    std::string word;
    for(char ch: s) {
        if(is_in(characters, ch)) {
            if(!word.empty()) result.push_back(word);
            word.clear();
        }
        else {
            word += ch;
        }
    }
    if(!word.empty()) result.push_back(word);
    return result;
}

std::string show(Strings const& strings)
{
    std::string result = "[";
    for(auto const& s: strings) result += pbt::show(s) + " ";
    return result + "]";
}

}  // namespace

PBT_TARGET(split, 1200, 1, "at least two words and an empty part")
{
    std::string characters = c.chance(1, 3) ? std::string() : separators(c);
    std::string s = text(c, alphabet(c) + characters, 30);
    if(c.chance(1, 300)) {
        // A long run of a character, separating or not.
        bool separates = c.chance(1, 2);
        char ch = !separates ? 'a' : characters.empty() ? ' '
            : characters[c.draw(characters.size())];
        s.insert(c.size(0, s.size()), std::string(c.size(0, 1) ? 150000
            : 3000, ch));
        c.label("long");
    }
    c.desc() << "split " << pbt::show(s) << " by " << pbt::show(characters);
    Strings want = words_of(s, characters);
    Strings got = characters.empty() && c.chance(1, 2) ? fern::split(s)
        : fern::split(s, characters);
    PBT_CHECK(got == want, "split: got " << show(got) << ", want "
        << show(want));
    size_t nr = 0;
    for(char ch: s) nr += is_in(characters, ch);
    c.nontrivial(want.size() > 1 && nr >= want.size());
}

PBT_TARGET(join, 1200, 1, "at least two strings")
{
    // Strings without separator, not empty: joining and splitting them gives
    // them again.
    std::string separator = separators(c).substr(0, 1);
    Strings strings(c.size(0, 6));
    for(auto& s: strings) {
        s = text(c, alphabet(c), 6);
        for(auto& ch: s) if(ch == separator[0]) ch = 'y';
        if(s.empty()) s = "z";
    }
    c.desc() << show(strings) << " by " << pbt::show(separator);
    c.nontrivial(strings.size() > 1);
    std::string joined = fern::join(strings, separator);
    std::string want;
    for(size_t i = 0; i < strings.size(); ++i) {
        want += (i ? separator : "") + strings[i];
    }
    PBT_EQ(joined, want, "join");
    PBT_CHECK(fern::split(joined, separator) == strings,
        "joining and splitting " << show(strings) << " gives "
        << show(fern::split(joined, separator)));
    // Any strings and any separator.
    std::string any = text(c, "ab,", 3);
    for(auto& s: strings) if(c.chance(1, 4)) s.clear();
    want.clear();
    for(size_t i = 0; i < strings.size(); ++i) {
        want += (i ? any : "") + strings[i];
    }
    PBT_EQ(fern::join(strings, any), want, "join by " << pbt::show(any));
}

PBT_TARGET(strip, 1500, 1, "characters at an end, and within")
{
    std::string characters = c.chance(1, 3) ? std::string()
        : text(c, alphabet(c), 3);
    std::string s = text(c, alphabet(c) + characters
        + (characters.empty() ? " \t\n" : ""), 14);
    c.desc() << "strip " << pbt::show(s) << " of " << pbt::show(characters);
    size_t begin = 0, end = s.size();
    while(begin < s.size() && is_in(characters, s[begin])) ++begin;
    while(end > begin && is_in(characters, s[end - 1])) --end;
    std::string want = s.substr(begin, end - begin);
    for(char ch: want) {
        if(is_in(characters, ch) && want != s) c.nontrivial();
    }
    std::string got = s;
    std::string& result = characters.empty() && c.chance(1, 2)
        ? fern::strip(got) : fern::strip(got, characters);
    PBT_EQ(got, want, "strip");
    PBT_CHECK(&result == &got, "strip returns another string");
    fern::strip(got, characters);
    PBT_EQ(got, want, "stripping again");
    if(!characters.empty()) {
        got = s;
        PBT_EQ(fern::strip_begin(got, characters), s.substr(begin),
            "strip_begin");
        PBT_EQ(got, s.substr(begin), "string after strip_begin");
        got = s;
        end = s.size();
        while(end > 0 && is_in(characters, s[end - 1])) --end;
        PBT_EQ(fern::strip_end(got, characters), s.substr(0, end),
            "strip_end");
        PBT_EQ(got, s.substr(0, end), "string after strip_end");
    }
}

PBT_TARGET(search, 1500, 1, "the sub string is found, and not empty")
{
    std::string letters = alphabet(c);
    std::string s = text(c, letters, 10);
    std::string sub;
    if(c.chance(1, 2)) {
        size_t begin = c.size(0, s.size());
        sub = s.substr(begin, c.size(0, s.size() - begin));
    }
    else {
        sub = text(c, letters, 3);
    }
    c.desc() << pbt::show(sub) << " in " << pbt::show(s);
    bool contains = false, starts = false, ends = false;
    for(size_t i = 0; i + sub.size() <= s.size(); ++i) {
        bool equal = true;
        for(size_t j = 0; j < sub.size(); ++j) equal &= s[i + j] == sub[j];
        contains |= equal;
        if(i == 0) starts = equal;
        if(i + sub.size() == s.size()) ends = equal;
    }
    c.nontrivial(contains && !sub.empty());
    if(starts) c.label("starts with");
    if(ends) c.label("ends with");
    PBT_EQ(fern::contains(s, sub), contains, "contains");
    PBT_EQ(fern::starts_with(s, sub), starts, "starts with");
    PBT_EQ(fern::ends_with(s, sub), ends, "ends with");
}

PBT_TARGET(replace, 1500, 1, "more than one occurrence is replaced")
{
    std::string letters = c.chance(1, 2) ? "ab" : alphabet(c);
    std::string s = text(c, letters, 14);
    std::string from = text(c, letters, 2);
    if(from.empty()) from = letters.substr(0, 1);
    std::string to = text(c, letters + "X", 3);
    c.desc() << "replace " << pbt::show(from) << " by " << pbt::show(to)
        << " in " << pbt::show(s);
    std::string want;
    size_t nr = 0;
    for(size_t i = 0; i < s.size();) {
        if(s.compare(i, from.size(), from) == 0) {
            want += to;
            i += from.size();
            ++nr;
        }
        else {
            want += s[i++];
        }
    }
    c.nontrivial(nr > 1);
    std::string got = s;
    std::string& result = fern::replace(got, from, to);
    PBT_EQ(got, want, "replace");
    PBT_CHECK(&result == &got, "replace returns another string");
}

namespace {

std::string digits(pbt::Case& c, size_t least, size_t most)
{
    std::string result(c.size(least, most), '0');
    for(auto& ch: result) ch = static_cast<char>('0' + c.draw(10));
    return result;
}

//! Text that is a number or nearly so.
std::string number(pbt::Case& c, bool floating)
{
    std::string s = c.pick<std::string>({"", "-", "+"});
    if(floating && c.chance(1, 12)) {
        s += c.pick<std::string>({"inf", "nan", "INF", "NaN", "infinity"});
    }
    else if(!floating && c.chance(1, 3)) {
        s += c.pick<std::string>({"9223372036854775807",
            "9223372036854775808", "9223372036854775809",
            "18446744073709551616", "9223372036854775806", "0", "00012",
            "99999999999999999999999"});
    }
    else {
        s += digits(c, floating ? 0 : 1, c.chance(1, 6) ? 22 : 5);
        if(floating) {
            if(c.chance(1, 2)) s += "." + digits(c, 0, 6);
            if(c.chance(1, 3)) {
                s += c.pick<std::string>({"e", "E"})
                    + c.pick<std::string>({"", "-", "+"}) + digits(c, 1, 2);
            }
            if(c.chance(1, 20)) s += "e400";
        }
    }
    if(c.chance(1, 3)) {
        size_t i = c.size(0, s.size());
        switch(c.draw(3)) {
            case 0: s.insert(i, 1, c.pick({' ', 'a', 'x', '.', ',', '-', '+',
                'e', '\n', '\0', '0', '_'})); break;
            case 1: if(i < s.size()) s.erase(i, 1); break;
            default: if(i < s.size()) s[i] = c.pick({' ', 'f', 'e', '-', '.',
                '\t'});
        }
    }
    return s;
}

bool is_integer(std::string const& s)
{
    size_t i = (!s.empty() && (s[0] == '-' || s[0] == '+')) ? 1 : 0;
    if(i == s.size()) return false;
    __int128 value = 0;
    for(; i < s.size(); ++i) {
        if(s[i] < '0' || s[i] > '9') return false;
        value = value * 10 + (s[i] - '0');
        if(value > (__int128(1) << 64)) return false;
    }
    if(s[0] == '-') value = -value;
    return value >= INT64_MIN && value <= INT64_MAX;
}

//! 0: no, 1: yes, 2: not judged.
int is_floating(std::string const& s)
{
    static std::regex const number("[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)"
        "([eE][+-]?[0-9]+)?");
    static std::regex const special("[+-]?(inf|infinity|nan)",
        std::regex::icase);
    if(std::regex_match(s, special)) return 1;
    if(!std::regex_match(s, number)) return 0;
    double value = std::strtod(s.c_str(), nullptr);
    // Too large for any value.
    return std::isinf(value) ? 0 : 1;
}

}  // namespace

PBT_TARGET(integer, 1500, 1, "text is an integer, possibly out of range")
{
    std::string s = number(c, false);
    c.desc() << pbt::show(s);
    bool want = is_integer(s);
    bool got = fern::is_convertable_to<int64_t>(s);
    c.nontrivial(want || s.size() > 18);
    c.label(want ? "integer" : "no integer");
    PBT_EQ(got, want, pbt::show(s) << " is convertable to int64_t");
    int64_t value = want ? std::strtoll(s.c_str(), nullptr, 10) : 0;
    PBT_EQ(fern::as<int64_t>(s), value, pbt::show(s) << " as int64_t");
}

PBT_TARGET(floating, 1500, 1, "text is a number with fraction or exponent")
{
    std::string s = number(c, true);
    c.desc() << pbt::show(s);
    int want = is_floating(s);
    c.nontrivial(want == 1 && s.find_first_of(".eE") != std::string::npos);
    c.label(want ? "number" : "no number");
    PBT_EQ(fern::is_convertable_to<double>(s), want == 1, pbt::show(s)
        << " is convertable to double");
    double value = want ? std::strtod(s.c_str(), nullptr) : 0;
    double got = fern::as<double>(s);
    PBT_CHECK(got == value || (std::isnan(got) && std::isnan(value)),
        pbt::show(s) << " as double: got " << pbt::show(got) << ", want "
        << pbt::show(value));
}

PBT_TARGET(round_trip, 1200, 1, "always")
{
    c.nontrivial();
    int64_t i = static_cast<int64_t>(c.draw(0)) >> c.draw(64);
    PBT_CHECK(fern::is_convertable_to<int64_t>(std::to_string(i)),
        i << " is not convertable");
    PBT_EQ(fern::as<int64_t>(std::to_string(i)), i, "integer");
    double d = gen::floating<double>(c);
    std::string s = pbt::show(d);
    c.desc() << i << " " << s;
    PBT_CHECK(fern::is_convertable_to<double>(s), s << " is not convertable");
    double got = fern::as<double>(s);
    PBT_CHECK(got == d || (std::isnan(got) && std::isnan(d)), s
        << " as double: " << pbt::show(got));
}
