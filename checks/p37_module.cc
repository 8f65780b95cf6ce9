// P37: the text of a script that is written stands for the same script.
#include <cassert>
#include <cctype>
#include <cstdlib>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "pbt.h"
#include "xml.h"
#include "script.h"
#include "fern/language/ast/core/vertices.h"
#include "fern/language/ast/xml/xml_parser.h"
#include "fern/language/ast/visitor/module_visitor.h"

namespace fl = fern::language;
using xml::Element;

namespace {

std::string quote(std::string const& text)
{
    std::ostringstream result;
    result << '"' << std::hex;
    for(unsigned char x: text) {
        if(x < 32 || x == '"' || x == '\\') result << "\\x" << int(x) << ";";
        else result << x;
    }
    result << '"';
    return result.str();
}

//! Notation of what a script is, that leaves no room for interpretation.
std::string canonical(Element const& e)
{
    static std::map<std::string, std::string> const symbols{
        {"UnarySub", "-"}, {"UnaryAdd", "+"}, {"Not", "!"}, {"Invert", "~"},
        {"add", "+"}, {"Sub", "-"}, {"Mult", "*"}, {"Div", "/"}, {"Mod", "%"},
        {"Pow", "**"}, {"LShift", "<<"}, {"RShift", ">>"}, {"BitOr", "|"},
        {"BitXor", "^"}, {"BitAnd", "&"}, {"FloorDiv", "//"}, {"And", "and"},
        {"Or", "or"}, {"Eq", "=="}, {"NotEq", "!="}, {"Lt", "<"},
        {"LtE", "<="}, {"Gt", ">"}, {"GtE", ">="}};
    auto all = [&](Element const& e) {
        std::string result;
        for(auto const& child: e.children) result += " " + canonical(child);
        return result;
    };
    auto at = [&](size_t i) { return canonical(e.children[i]); };
    if(e.tag == "Fern" || e.tag == "Statement" || e.tag == "Expression" ||
        e.tag == "Number") return at(0);
    if(e.tag == "Statements") return "{" + all(e) + " }";
    if(e.tag == "Expressions") return all(e);
    if(e.tag == "Assignment") return "(assign " + at(0) + " " + at(1) + ")";
    if(e.tag == "If" || e.tag == "While") {
        return "(" + std::string(e.tag == "If" ? "if " : "while ") + at(0) +
            " " + at(1) + " " + at(2) + ")";
    }
    if(e.tag == "FunctionCall") return "(call " + at(0) + at(1) + ")";
    if(e.tag == "Operator") {
        return "(" + symbols.at(e.children[0].text) + at(1) + ")";
    }
    if(e.tag == "Subscript") return "(part " + at(0) + " " + at(1) + ")";
    if(e.tag == "Attribute") return "(member " + at(0) + " " + at(1) + ")";
    if(e.tag == "String") return quote(e.text);
    if(e.tag == "Integer") return e.children[1].text;
    if(e.tag == "UnsignedInteger") return e.children[1].text + "U";
    if(e.tag == "Float") {
        std::ostringstream stream;
        stream << std::hexfloat;
        auto const& text = e.children[1].text;
        if(e.children[0].text == "32") stream << std::strtof(text.c_str(), 0);
        else stream << std::strtod(text.c_str(), 0);
        return "f" + e.children[0].text + ":" + stream.str();
    }
    return e.text;
}

//! Reads the text of a script: Python's notation, as far as is needed.
class Reader
{
public:

    //! \a sizes are those of the float numbers, in order.
    Reader(std::string const& text, size_t tab_size,
        std::vector<std::string> const& sizes)
        : _tab_size(tab_size), _sizes(sizes)
    {
        std::istringstream stream(text);
        std::string line;
        while(std::getline(stream, line)) _lines.push_back(line);
        if(!text.empty() && text.back() != '\n') error("no end of line");
    }

    std::string module()
    {
        auto result = block(0);
        if(_line != _lines.size()) error("text after the last statement");
        return result;
    }

private:

    std::vector<std::string> _lines;
    size_t         _line{0}, _tab_size, _float{0};
    std::vector<std::string> _sizes;
    std::string    _text;
    size_t         _at{0};

    void error(std::string const& what) const
    {
        throw std::runtime_error(what + ", in line " + std::to_string(_line +
            1) + " of the text: " + _text.substr(0, _at) + " ~~ " +
            _text.substr(std::min(_at, _text.size())));
    }

    static size_t indent(std::string const& line)
    {
        return line.find_first_not_of(' ');
    }

    std::string block(size_t level)
    {
        std::string result = "{";
        while(_line < _lines.size() && indent(_lines[_line]) == level *
                _tab_size) {
            if(starts("else:", level)) break;
            result += " " + statement(level);
        }
        return result + " }";
    }

    bool starts(std::string const& what, size_t level) const
    {
        return _line < _lines.size() && _lines[_line].compare(0,
            std::string::npos, std::string(level * _tab_size, ' ') + what) ==
            0;
    }

    std::string statement(size_t level)
    {
        _text = _lines[_line];
        _at = level * _tab_size;
        for(std::string word: {"if", "while"}) {
            if(_text.compare(_at, word.size() + 1, word + " ") == 0) {
                _at += word.size() + 1;
                auto condition = expression();
                expect(":");
                end();
                ++_line;
                auto first = block(level + 1);
                if(first == "{ }") error("no statements");
                std::string second = "{ }";
                if(starts("else:", level)) {
                    ++_line;
                    second = block(level + 1);
                    if(second == "{ }") error("no statements");
                }
                return "(" + word + " " + condition + " " + first + " " +
                    second + ")";
            }
        }
        auto result = expression();
        if(_text.compare(_at, 3, " = ") == 0) {
            _at += 3;
            auto value = expression();
            result = "(assign " + result + " " + value + ")";
        }
        end();
        ++_line;
        return result;
    }

    void end()
    {
        if(_at != _text.size()) error("text after the statement");
    }

    void expect(std::string const& what)
    {
        if(_text.compare(_at, what.size(), what) != 0) {
            error("'" + what + "' expected");
        }
        _at += what.size();
    }

    char next() const { return _at < _text.size() ? _text[_at] : '\0'; }

    std::string parenthesized()
    {
        expect("(");
        auto result = expression();
        expect(")");
        return result;
    }

    std::string expression()
    {
        char x = next();
        if(x == '"') return string();
        if(std::isalpha(x) || x == '_') {
            auto result = name();
            if(next() != '(') return result;
            ++_at;
            result = "(call " + result;
            while(next() != ')') {
                result += " " + expression();
                if(next() != ')') expect(", ");
            }
            ++_at;
            return result + ")";
        }
        if(std::isdigit(x) || (x == '-' && _at + 1 < _text.size() &&
            std::isdigit(_text[_at + 1]))) return number();
        if(x != '(') {
            // One operand.
            for(std::string symbol: {"-", "+", "!", "~"}) {
                if(_text.compare(_at, symbol.size() + 1, symbol + "(") == 0) {
                    _at += symbol.size();
                    return "(" + symbol + " " + parenthesized() + ")";
                }
            }
            error("expression expected");
        }
        auto first = parenthesized();
        if(next() == '[') {
            ++_at;
            auto selection = expression();
            expect("]");
            return "(part " + first + " " + selection + ")";
        }
        if(next() == '.') {
            ++_at;
            return "(member " + first + " " + name() + ")";
        }
        expect(" ");
        auto end = _text.find(" (", _at);
        if(end == std::string::npos) error("operand expected");
        auto symbol = _text.substr(_at, end - _at);
        _at = end + 1;
        return "(" + symbol + " " + first + " " + parenthesized() + ")";
    }

    std::string name()
    {
        size_t first = _at;
        while(std::isalnum(next()) || next() == '_') ++_at;
        if(_at == first) error("name expected");
        return _text.substr(first, _at - first);
    }

    std::string string()
    {
        std::string result;
        ++_at;
        while(next() != '"') {
            if(_at >= _text.size()) error("string without an end");
            char x = next();
            if(x == '\\') {
                ++_at;
                switch(next()) {
                    case 'n': x = '\n'; break;
                    case 'r': x = '\r'; break;
                    case 't': x = '\t'; break;
                    case '"': case '\'': case '\\': x = next(); break;
                    case 'x': {
                        x = std::stoi(_text.substr(_at + 1, 2), nullptr, 16);
                        _at += 2;
                        break;
                    }
                    default: --_at;  // No escape sequence.
                }
            }
            result += x;
            ++_at;
        }
        ++_at;
        return quote(result);
    }

    std::string number()
    {
        size_t first = _at;
        bool is_float = false;
        if(next() == '-') ++_at;
        for(; std::isalnum(next()) || next() == '.' || ((next() == '-' ||
                next() == '+') && _text[_at - 1] == 'e'); ++_at) {
            is_float |= next() == '.' || next() == 'e';
        }
        auto text = _text.substr(first, _at - first);
        if(!is_float) {
            while(text.back() == 'L') text.pop_back();
            return text;
        }
        std::ostringstream stream;
        stream << std::hexfloat;
        if(_float == _sizes.size()) error("more float numbers");
        auto size = _sizes[_float++];
        char* rest;
        if(size == "32") stream << std::strtof(text.c_str(), &rest);
        else stream << std::strtod(text.c_str(), &rest);
        if(*rest) error("float number expected");
        return "f" + size + ":" + stream.str();
    }
};

void sizes(Element const& e, std::vector<std::string>& found)
{
    if(e.tag == "Float") found.push_back(e.children[0].text);
    for(auto const& child: e.children) sizes(child, found);
}

//! Is there an operation within an operation, or a nested block?
bool nested(Element const& e, bool inside)
{
    if(e.tag == "If" || e.tag == "While") return true;
    bool operation = e.tag == "Operator" || e.tag == "FunctionCall" ||
        e.tag == "Subscript" || e.tag == "Attribute";
    if(operation && inside) return true;
    for(auto const& child: e.children) {
        if(nested(child, operation || inside)) return true;
    }
    return false;
}

}  // namespace

PBT_TARGET(read_back, 1500, 1, "there is an operation within an operation, or a "
    "nested block")
{
    script::Options options;
    options.functions = false;
    options.places = true;
    options.most_statements = c.size(2, 5);
    options.one_position = c.chance(1, 4);
    options.depth = c.size(1, 3);
    size_t tab_size = c.chance(3, 4) ? 4 : 1 + c.draw(8);
    fl::ModuleVisitor visitor(tab_size);
    for(size_t n = c.chance(1, 4) ? 2 : 1; n > 0; --n) {
        Element root = script::Generator(c, options).module();
        auto tree = fl::XmlParser().parse_string(xml::Writer(c).document(root));
        tree->Accept(visitor);
        c.desc() << script::show(root) << "\nis written as\n" <<
            visitor.module();
        auto expected = canonical(root);
        std::vector<std::string> found;
        sizes(root, found);
        std::string got;
        try {
            got = Reader(visitor.module(), tab_size, found).module();
        }
        catch(std::exception const& e) {
            PBT_CHECK(false, "the text can not be read: " << e.what());
        }
        PBT_CHECK(got == expected, "the text stands for " << got <<
            "\ninstead of " << expected);
        c.nontrivial(nested(root, false));
        for(auto word: {"(if", "(while", "(part", "(member", "(call", "f32",
            "\\x"}) {
            if(expected.find(word) != std::string::npos) c.label(word);
        }
    }
}
