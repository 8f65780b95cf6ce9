// P34: errors say what they are about.
#include <cerrno>
#include <cstring>
#include <exception>
#include <set>
#include <string>
#include <vector>
#include "pbt.h"
#include "gen.h"
#include "fern/core/exception.h"
#include "fern/core/io_error.h"
#include "fern/core/messages.h"
#include "fern/core/parse_error.h"
#include "fern/core/script_error.h"
#include "fern/core/validate_error.h"

namespace {

using fern::MessageId;
using Strings = std::vector<std::string>;

struct Kind
{
    MessageId id;
    size_t nr_particulars;
};

std::vector<Kind> const kinds{
    {MessageId::UNKNOWN_ERROR, 0},
    {MessageId::IO_ERROR, 2},
    {MessageId::DOES_NOT_EXIST, 0},
    {MessageId::CANNOT_BE_READ, 0},
    {MessageId::CANNOT_BE_WRITTEN, 0},
    {MessageId::CANNOT_BE_CREATED, 0},
    {MessageId::DOES_NOT_CONFORM_TO_CONVENTION, 1},
    {MessageId::DOES_NOT_CONTAIN_VARIABLE, 1},
    {MessageId::VARIABLE_IS_NOT_A_SCALAR, 1},
    {MessageId::DOES_NOT_CONTAIN_FEATURE, 1},
    {MessageId::DOES_NOT_CONTAIN_ATTRIBUTE, 1},
    {MessageId::DOES_NOT_CONTAIN_DATA, 1},
    {MessageId::UNSUPPORTED_VALUE_TYPE, 2},
    {MessageId::NO_SUCH_DRIVER, 1},
    {MessageId::ERROR_PARSING, 4},
    {MessageId::ERROR_PARSING_STATEMENT, 5},
    {MessageId::UNSUPPORTED_LANGUAGE_CONSTRUCT, 1},
    {MessageId::UNDEFINED_IDENTIFIER, 1},
    {MessageId::UNDEFINED_OPERATION, 1},
    {MessageId::WRONG_NUMBER_OF_ARGUMENTS, 3},
    {MessageId::WRONG_TYPE_OF_ARGUMENT, 4},
    {MessageId::ERROR_VALIDATING, 4}};

std::string particular(pbt::Case& c, bool may_be_empty=true)
{
    static std::string const alphabet("ab %12:/\\n\n\"|\xc3\xa6{}$s");
    size_t kind = c.draw(6);
    if(kind == 0) {
        return c.pick<std::string>({"%1%", "%2%", "%", "%%", "%s%d%n", "%3%:",
            "/a/b c.nc", "%|1$s|"});
    }
    std::string result(c.size(may_be_empty ? 0 : 1, c.chance(1, 20) ? 300
        : 8), ' ');
    for(auto& ch: result) ch = alphabet[c.draw(alphabet.size())];
    return result;
}

//! Template with each place holder replaced by its particular.
std::string fill(std::string const& text, Strings const& particulars)
{
    std::string result;
    for(size_t i = 0; i < text.size(); ++i) {
        if(text[i] == '%' && i + 2 < text.size() && text[i + 2] == '%'
                && text[i + 1] > '0'
                && size_t(text[i + 1] - '0') <= particulars.size()) {
            result += particulars[size_t(text[i + 1] - '1')];
            i += 2;
        }
        else {
            result += text[i];
        }
    }
    return result;
}

std::string format(MessageId id, Strings const& p)
{
    auto const& m = fern::Exception::messages();
    switch(p.size()) {
        case 1: return m.format_message(id, p[0]);
        case 2: return m.format_message(id, p[0], p[1]);
        case 3: return m.format_message(id, p[0], p[1], p[2]);
        default: return m.format_message(id, p[0], p[1], p[2], p[3]);
    }
}

//! Copies, throws and wraps the error in all kinds of ways.
template<class Error>
std::string survives(pbt::Case& c, Error const& error)
{
    size_t kind = c.draw(5);
    try {
        if(kind == 0) { throw error; }
        Error copy(error);
        if(kind == 1) { throw copy; }
        Error moved(std::move(copy));
        if(kind == 2) { throw moved; }
        if(kind == 3) {
            std::rethrow_exception(std::make_exception_ptr(moved));
        }
        try { throw moved; }
        catch(std::exception const&) { throw; }
    }
    catch(fern::Exception const& e) {
        if(c.chance(1, 2)) {
            Error copy = dynamic_cast<Error const&>(e);
            return copy.message();
        }
        return e.message();
    }
}

}  // namespace

PBT_TARGET(templates, 60, 1, "always")
{
    c.nontrivial();
    std::set<std::string> seen;
    for(auto const& kind: kinds) {
        std::string text = fern::Exception::messages()[kind.id];
        PBT_CHECK(!text.empty(), "a message has no text");
        PBT_CHECK(seen.insert(text).second, "more than one message is "
            << pbt::show(text));
        size_t nr = 0;
        for(size_t i = 1; i < 10; ++i) {
            std::string holder = "%" + std::to_string(i) + "%";
            size_t at = text.find(holder);
            PBT_EQ(at != std::string::npos, i <= kind.nr_particulars,
                pbt::show(text) << " has a place for particular " << i);
            if(at != std::string::npos) {
                PBT_CHECK(text.find(holder, at + 1) == std::string::npos,
                    pbt::show(text) << " repeats particular " << i);
                ++nr;
            }
        }
        PBT_EQ(nr, kind.nr_particulars, "number of particulars in "
            << pbt::show(text));
    }
}

PBT_TARGET(format, 3000, 1, "more than one particular")
{
    auto const& kind = kinds[c.draw(kinds.size())];
    std::string text = fern::Exception::messages()[kind.id];
    size_t nr = kind.nr_particulars;
    if(nr == 0) {
        fern::Exception e(kind.id);
        PBT_EQ(survives(c, e), text, "message of exception");
        return;
    }
    if(nr > 4) c.discard();
    Strings p(nr);
    for(auto& s: p) s = particular(c);
    for(auto const& s: p) c.desc() << pbt::show(s) << " ";
    c.nontrivial(nr > 1);
    PBT_EQ(format(kind.id, p), fill(text, p), "formatted message");
}

PBT_TARGET(meaning, 600, 1, "always")
{
    c.nontrivial();
    // Numbers and names take the place that fits.
    size_t required = c.size(0, 5000000), provided = c.size(0, 5000000);
    std::string name = "op" + std::to_string(c.draw(100));
    std::string got = fern::Exception::messages().format_message(
        MessageId::WRONG_NUMBER_OF_ARGUMENTS, name, required, provided);
    c.desc() << got;
    PBT_CHECK(got.find(name) != std::string::npos, got);
    PBT_CHECK(got.find(" " + std::to_string(required) + " required")
        != std::string::npos, got);
    PBT_CHECK(got.find(" " + std::to_string(provided) + " provided")
        != std::string::npos, got);
    got = fern::Exception::messages().format_message(
        MessageId::WRONG_TYPE_OF_ARGUMENT, required, name, "Int8", "Int16");
    PBT_CHECK(got.find("argument " + std::to_string(required) + " ")
        != std::string::npos, got);
    PBT_CHECK(got.find("operation: " + name + ":") != std::string::npos, got);
    PBT_CHECK(got.find("Int8 required") != std::string::npos, got);
    PBT_CHECK(got.find("Int16 provided") != std::string::npos, got);
}

PBT_TARGET(io_error, 2000, 1, "a particular has a percent sign")
{
    Strings p{particular(c), particular(c)};
    c.desc() << pbt::show(p[0]) << " " << pbt::show(p[1]);
    c.nontrivial((p[0] + p[1]).find('%') != std::string::npos);
    std::string text = fern::Exception::messages()[MessageId::IO_ERROR];
    PBT_CHECK(text.find("%1%") < text.find("%2%"),
        "the source is not told before the reason");
    PBT_EQ(survives(c, fern::IOError(p[0], p[1])), fill(text, p),
        "I/O error");
    int number = int(c.range(1, 100));
    PBT_EQ(survives(c, fern::IOError(p[0], number)),
        fill(text, {p[0], std::strerror(number)}), "I/O error by number");
}

PBT_TARGET(script_error, 3000, 1, "a particular has a percent sign, or a "
    "number has more than three digits")
{
    std::string source = particular(c, false);
    long line = c.chance(1, 4) ? long(c.range(1000, 100000000))
        : long(c.range(0, 999));
    long col = c.chance(1, 4) ? long(c.range(1000, 100000000))
        : long(c.range(0, 999));
    std::string statement = particular(c, false);
    std::string message = particular(c);
    std::string at = source + ":" + std::to_string(line) + ":"
        + std::to_string(col);
    c.desc() << pbt::show(at) << " " << pbt::show(statement) << " "
        << pbt::show(message);
    c.nontrivial((source + statement + message).find('%')
        != std::string::npos || line > 999 || col > 999);
    std::string got;
    Strings p{source, std::to_string(line), std::to_string(col)};
    auto const& messages = fern::Exception::messages();
    MessageId id;
    switch(c.draw(3)) {
        case 0: {
            fern::ParseError e(source, line, col, message);
            got = survives(c, e);
            id = MessageId::ERROR_PARSING;
            break;
        }
        case 1: {
            fern::ParseError e(source, line, col, statement, message);
            got = survives(c, e);
            p.push_back(statement);
            PBT_CHECK(got.find(at + ":" + statement) != std::string::npos,
                "message " << pbt::show(got) << " does not tell the "
                "statement after the position");
            id = MessageId::ERROR_PARSING_STATEMENT;
            break;
        }
        default: {
            fern::ValidateError e(source, line, col, message);
            got = survives(c, e);
            id = MessageId::ERROR_VALIDATING;
        }
    }
    p.push_back(message);
    PBT_CHECK(got.find(at) != std::string::npos, "message " << pbt::show(got)
        << " does not tell the position");
    PBT_CHECK(got.size() >= message.size() && got.compare(got.size()
        - message.size(), message.size(), message) == 0, "message "
        << pbt::show(got) << " does not end with the reason");
    PBT_EQ(got, fill(messages[id], p), "message");
}

PBT_TARGET(low_level, 500, 1, "always")
{
    // Low-level errors collect what is known while the stack is unwound.
    c.nontrivial();
    namespace fd = fern::detail;
    std::string source = particular(c), message = particular(c);
    long line = long(c.range(0, 100000)), col = long(c.range(0, 100000));
    c.desc() << pbt::show(source) << ":" << line << ":" << col;
    try {
        try {
            throw fd::ParseError() << fd::ExceptionLineNr(line)
                << fd::ExceptionColNr(col) << fd::ExceptionMessage(message);
        }
        catch(fd::Exception& e) {
            e << fd::ExceptionSourceName(source);
            throw;
        }
    }
    catch(fd::ParseError const& e) {
        PBT_EQ(*boost::get_error_info<fd::ExceptionSourceName>(e), source,
            "source");
        PBT_EQ(*boost::get_error_info<fd::ExceptionMessage>(e), message,
            "message");
        PBT_EQ(*boost::get_error_info<fd::ExceptionLineNr>(e), line, "line");
        PBT_EQ(*boost::get_error_info<fd::ExceptionColNr>(e), col, "column");
    }
}
