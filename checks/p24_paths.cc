// P24: paths and data names parse into their parts and print back.
#include <sstream>
#include <string>
#include <vector>
#include "pbt.h"
#include "gen.h"
#include "fern/core/data_name.h"
#include "fern/core/path.h"

namespace {

using Names = std::vector<std::string>;

std::string text(pbt::Case& c, std::string const& alphabet, size_t least,
    size_t most)
{
    std::string result(c.size(least, most), ' ');
    for(auto& ch: result) ch = alphabet[c.draw(alphabet.size())];
    return result;
}

//! A name in a path; "." and ".." have a meaning of their own.
std::string name(pbt::Case& c)
{
    std::string result = text(c, c.chance(1, 2) ? "abc"
        : "ab. :\\-_\n\xc3\xa6", 1, 4);
    if(result.find_first_not_of('.') == std::string::npos) result += "a";
    return result;
}

Names names(pbt::Case& c, size_t least=0)
{
    Names result(c.size(least, 5));
    for(auto& n: result) n = name(c);
    return result;
}

std::string join(Names const& n)
{
    std::string result;
    for(size_t i = 0; i < n.size(); ++i) result += (i ? "/" : "") + n[i];
    return result;
}

std::string show(Names const& n) { return pbt::show(join(n)); }

size_t length(pbt::Case& c) { return c.chance(1, 12) ? 400 : 14; }

//! Rarely, makes a name long by repeating one of its characters.
void stretch(pbt::Case& c, std::string& name)
{
    if(name.empty() || !c.chance(1, 500)) return;
    c.label("long");
    size_t i = c.size(0, name.size() - 1);
    name.insert(i, std::string(c.size(0, 1) ? 100000 : 3000, name[i]));
}

}  // namespace

PBT_TARGET(data_name, 2500, 1, "the data path has doubled, trailing or no "
    "leading separators, or a colon")
{
    std::string database = text(c, c.chance(1, 2) ? "ab" : "ab/. \\-\n\xc3\xa6",
        1, length(c));
    stretch(c, database);
    std::string data = text(c, c.chance(1, 2) ? "a/" : "ab/:. \t\n-\xc3\xa6", 0,
        length(c));
    stretch(c, data);
    bool colon = !data.empty() || c.chance(1, 2);
    std::string whole = database + (colon ? ":" : "") + data;
    c.desc() << pbt::show(whole);

    std::string want = "/";
    for(char ch: data) {
        if(ch != '/' || want.back() != '/') want += ch;
    }
    while(want.size() > 1 && want.back() == '/') want.pop_back();
    c.nontrivial(want != data);

    fern::DataName n = c.chance(1, 2) ? fern::DataName(whole)
        : fern::DataName(whole.c_str());
    PBT_EQ(n.database_pathname().native_string(), database, "database of "
        << pbt::show(whole));
    PBT_EQ(n.data_pathname().generic_string(), want, "data path of "
        << pbt::show(whole));
    PBT_CHECK(n.data_pathname().is_absolute(), "data path is not absolute");
    std::string printed = n.database_pathname().native_string() + ":"
        + n.data_pathname().generic_string();
    fern::DataName again(printed);
    PBT_CHECK(again.database_pathname() == n.database_pathname(),
        "database of " << pbt::show(printed));
    PBT_CHECK(again.data_pathname() == n.data_pathname(), "data path of "
        << pbt::show(printed));
    fern::DataName copy(n);
    again = fern::DataName("x:y");
    again = copy;
    PBT_EQ(again.data_pathname().generic_string(), want,
        "data path of a copy");
    PBT_EQ(again.database_pathname().native_string(), database,
        "database of a copy");
}

PBT_TARGET(parts, 2000, 1, "at least two names")
{
    Names n = names(c);
    bool absolute = c.chance(1, 2);
    std::string s = (absolute ? "/" : "") + join(n);
    c.desc() << pbt::show(s);
    c.nontrivial(n.size() > 1);
    fern::Path p = c.chance(1, 2) ? fern::Path(s) : fern::Path(s.c_str());
    PBT_EQ(p.generic_string(), s, "generic string");
    PBT_EQ(p.native_string(), s, "native string");
    std::ostringstream stream;
    stream << p;
    PBT_EQ(stream.str(), s, "printed path");
    PBT_EQ(p.is_empty(), s.empty(), "is empty");
    PBT_EQ(p.is_absolute(), absolute, "is absolute");
    PBT_CHECK(p.names() == n, "names: got " << show(p.names()) << ", want "
        << show(n));
    if(n.empty()) {
        PBT_EQ(p.filename().generic_string(), std::string(), "filename");
        return;
    }
    Names up(n.begin(), n.end() - 1);
    PBT_EQ(p.filename().generic_string(), n.back(), "filename");
    PBT_EQ(p.parent_path().generic_string(), (absolute ? "/" : "")
        + join(up), "parent path");
    PBT_CHECK(p.parent_path() / p.filename() == p,
        "parent path / filename is " << p.parent_path() / p.filename());
    size_t dot = n.back().rfind('.');
    std::string stem = dot == std::string::npos || dot == 0 ? n.back()
        : n.back().substr(0, dot);
    PBT_EQ(p.stem().generic_string(), stem, "stem");
    std::string extension = text(c, "abc", 0, 3);
    bool with_dot = c.chance(1, 2) && !extension.empty();
    fern::Path q(p);
    fern::Path& r = q.replace_extension(fern::Path((with_dot ? "." : "")
        + extension));
    PBT_CHECK(&r == &q, "replace_extension returns another path");
    PBT_EQ(q.generic_string(), s.substr(0, s.size() - n.back().size()) + stem
        + (extension.empty() ? "" : "." + extension), "replaced extension");
    PBT_EQ(p.generic_string(), s, "path after changing a copy");
}

PBT_TARGET(join, 2000, 1, "both paths have names")
{
    Names n = names(c), m = names(c);
    bool absolute = c.chance(1, 2), replaces = c.chance(1, 4);
    std::string s = (absolute ? "/" : "") + join(n);
    std::string t = (replaces ? "/" : "") + join(m);
    // Separators at the end make no difference for the join.
    if(!n.empty() && c.chance(1, 4)) s += "/";
    c.desc() << pbt::show(s) << " / " << pbt::show(t);
    c.nontrivial(!n.empty() && !m.empty());
    fern::Path p(s), q(t);
    fern::Path joined = p / q;
    Names want = replaces ? Names() : n;
    want.insert(want.end(), m.begin(), m.end());
    PBT_CHECK(joined.names() == want, "names of joined path: got "
        << show(joined.names()) << ", want " << show(want));
    PBT_EQ(joined.is_absolute(), absolute || replaces, "joined is absolute");
    if(!m.empty()) {
        PBT_EQ(joined.generic_string(), (absolute || replaces ? "/" : "")
            + join(want), "joined path");
        PBT_CHECK(joined.filename() == q.filename(), "filename of joined "
            "path");
    }
    PBT_EQ(p.generic_string(), s, "left path after joining");
    PBT_EQ(q.generic_string(), t, "right path after joining");
    fern::Path& r = p /= q;
    PBT_CHECK(&r == &p, "/= returns another path");
    PBT_CHECK(p == joined, "/= gives " << p << ", / gives " << joined);
    // Joining names one by one gives the path of these names.
    fern::Path steps(absolute ? "/" : "");
    for(auto const& name: n) steps /= fern::Path(name);
    PBT_EQ(steps.generic_string(), (absolute ? "/" : "") + join(n),
        "names joined one by one");
}

PBT_TARGET(equal, 1000, 1, "paths have the same names, or differ in one")
{
    Names n = names(c, 1), m = n;
    size_t i = c.size(0, m.size() - 1);
    bool differ = c.chance(1, 2);
    if(differ) {
        switch(c.draw(3)) {
            case 0: m[i] += "x"; break;
            case 1: m.insert(m.begin() + long(i), "x"); break;
            default: m.pop_back();
        }
    }
    c.nontrivial();
    bool absolute = c.chance(1, 2), other = c.chance(3, 4) == absolute;
    fern::Path p((absolute ? "/" : "") + join(n));
    fern::Path q((other ? "/" : "") + join(m));
    c.desc() << p << " " << q;
    PBT_EQ(p == q, !differ && absolute == other, p << " equals " << q);
    PBT_EQ(q == p, p == q, "equality is symmetric");
}
