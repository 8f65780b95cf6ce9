// Generated scripts, as the XML of their syntax tree.
#pragma once
#include <cstdint>
#include <limits>
#include <string>
#include <vector>
#include "pbt.h"
#include "xml.h"

namespace script {

using xml::Element;

struct Options
{
    bool           functions{true};    //!< Function definitions and returns.
    bool           ifs{true};
    bool           whiles{true};
    bool           odd_text{true};     //!< Any text in strings.
    bool           targets{true};      //!< Targets other than names.
    bool           places{false};      //!< Such targets are parts of values.
    bool           parts{true};        //!< Subscripts and attributes.
    bool           attributes{true};
    bool           one_position{false}; //!< As in scripts made by programs.
    size_t         most_statements{4};
    size_t         depth{4};           //!< Of blocks and of expressions.
    std::vector<std::string> names{"a", "b", "c", "dd", "a_1"};
    std::vector<std::string> functions_called{"f", "slope", "abs", "g"};
};

class Generator
{
public:

    Generator(pbt::Case& c, Options const& options)
        : _c(c), _options(options) {}

    Element module()
    {
        Element root("Fern");
        root.attribute("source", _options.odd_text ? xml::text(_c, 4) :
            "script");
        root.children.emplace_back(statements(_options.depth, 0, false));
        return root;
    }

    Element expression(size_t depth)
    {
        Element e("Expression");
        position(e);
        size_t kind = depth == 0 ? _c.weighted({3, 1, 2}) :
            _c.weighted({6, 2, 4, 3, 5, _options.parts ? 2u : 0u,
                _options.parts && _options.attributes ? 2u : 0u});
        switch(kind) {
            case 0: e.children.emplace_back("Name", _c.pick(_options.names));
                break;
            case 1: e.children.emplace_back("String", _options.odd_text ?
                xml::text(_c, 6) : "text"); break;
            case 2: e.children.emplace_back(number()); break;
            case 3: {
                Element call("FunctionCall");
                call.children.emplace_back("Name", _c.pick(
                    _options.functions_called));
                call.children.emplace_back(expressions(_c.size(0, 3),
                    depth - 1));
                e.children.emplace_back(call);
                break;
            }
            case 4: {
                Element operation("Operator");
                if(_c.chance(1, 4)) {
                    operation.children.emplace_back("Name",
                        _c.pick<std::string>({"UnarySub", "UnaryAdd", "Not",
                            "Invert"}));
                    operation.children.emplace_back(expressions(1,
                        depth - 1));
                }
                else {
                    operation.children.emplace_back("Name",
                        _c.pick<std::string>({"add", "Sub", "Mult", "Div",
                            "Mod", "Pow", "LShift", "RShift", "BitOr",
                            "BitXor", "BitAnd", "FloorDiv", "And", "Or", "Eq",
                            "NotEq", "Lt", "LtE", "Gt", "GtE"}));
                    operation.children.emplace_back(expressions(2,
                        depth - 1));
                }
                e.children.emplace_back(operation);
                break;
            }
            case 5: {
                Element subscript("Subscript");
                subscript.children.emplace_back(expression(depth - 1));
                subscript.children.emplace_back(expression(depth - 1));
                e.children.emplace_back(subscript);
                break;
            }
            case 6: {
                Element attribute("Attribute");
                attribute.children.emplace_back(expression(depth - 1));
                attribute.children.emplace_back("Name", _c.pick(
                    _options.names));
                e.children.emplace_back(attribute);
                break;
            }
        }
        return e;
    }

private:

    void position(Element& e)
    {
        if(_options.one_position) {
            e.attribute("line", "1");
            e.attribute("col", "0");
            return;
        }
        _line += _c.draw(3);
        e.attribute("line", std::to_string(_line));
        e.attribute("col", std::to_string(_c.draw(_c.chance(1, 8) ? 100000 :
            80)));
    }

    //! Something that can be assigned to: a, a[b + c], a.b.
    Element place(size_t depth)
    {
        Element e("Expression");
        position(e);
        switch(depth == 0 ? 0 : _c.draw(_options.attributes ? 3 : 2)) {
            case 0:
                e.children.emplace_back("Name", _c.pick(_options.names));
                break;
            case 1: {
                Element subscript("Subscript");
                subscript.children.emplace_back(place(depth - 1));
                subscript.children.emplace_back(expression(_c.size(0, 2)));
                e.children.emplace_back(subscript);
                break;
            }
            case 2: {
                Element attribute("Attribute");
                attribute.children.emplace_back(place(depth - 1));
                attribute.children.emplace_back("Name", _c.pick(
                    _options.names));
                e.children.emplace_back(attribute);
                break;
            }
        }
        return e;
    }

    Element expressions(size_t n, size_t depth)
    {
        Element e("Expressions");
        for(; n > 0; --n) e.children.emplace_back(expression(depth));
        return e;
    }

    Element number()
    {
        Element result("Number");
        if(_c.chance(1, 3)) {
            Element f("Float");
            f.children.emplace_back("Size", _c.pick<std::string>({"64",
                "32"}));
            std::string value = std::to_string(_c.range(-1000, 1000)) + "." +
                std::to_string(_c.draw(10000));
            if(_c.chance(1, 4)) value += "e" + std::to_string(_c.range(-20,
                20));
            f.children.emplace_back("Value", value);
            result.children.emplace_back(f);
        }
        else if(_c.chance(1, 3)) {
            unsigned size = _c.pick<unsigned>({64, 32, 16, 8});
            uint64_t most = size == 64 ? UINT64_MAX : (uint64_t(1) << size) -
                1;
            Element u("UnsignedInteger");
            u.children.emplace_back("Size", std::to_string(size));
            u.children.emplace_back("Value", std::to_string(_c.chance(1, 4) ?
                most - _c.draw(2) : _c.draw(std::min<uint64_t>(most, _c.chance(
                    1, 2) ? 10 : 100000) + 1)));
            result.children.emplace_back(u);
        }
        else {
            unsigned size = _c.pick<unsigned>({64, 32, 16, 8});
            // Integers do not go beyond 32 bits, whatever their size.
            int64_t most = (int64_t(1) << (std::min(size, 32u) - 1)) - 1;
            int64_t value = _c.range(0, std::min<int64_t>(most, _c.chance(1,
                2) ? 9 : 100000));
            switch(_c.draw(8)) {
                case 0: value = most - _c.draw(2); break;
                case 1: value = -most - 1 + _c.draw(2); break;
                case 2: value = -value; break;
                default: break;
            }
            Element i("Integer");
            i.children.emplace_back("Size", std::to_string(size));
            i.children.emplace_back("Value", std::to_string(value));
            result.children.emplace_back(i);
        }
        return result;
    }

    Element statements(size_t depth, size_t least, bool in_function)
    {
        Element result("Statements");
        for(size_t n = _c.size(least, _options.most_statements); n > 0; --n) {
            result.children.emplace_back(statement(depth, in_function));
        }
        return result;
    }

    Element statement(size_t depth, bool in_function)
    {
        Element e("Statement");
        position(e);
        bool nest = depth > 0;
        switch(_c.weighted({4, 8, nest && _options.ifs ? 3u : 0u,
            nest && _options.whiles ? 2u : 0u,
            nest && _options.functions ? 2u : 0u,
            in_function && _options.functions ? 2u : 0u})) {
            case 0: {
                Element value = expression(_c.size(0, _options.depth));
                // A statement is where its expression is.
                value.attributes = e.attributes;
                e.children.emplace_back(value);
                break;
            }
            case 1: {
                Element assignment("Assignment");
                Element target("Expression");
                position(target);
                target.children.emplace_back("Name", _c.pick(
                    _options.names));
                if(_options.targets && _c.chance(1, 10)) {
                    target = _options.places ? place(2) : expression(1);
                }
                assignment.children.emplace_back(target);
                assignment.children.emplace_back(expression(_c.size(0,
                    _options.depth)));
                e.children.emplace_back(assignment);
                break;
            }
            case 2:
            case 3: {
                Element branch(nest && _options.ifs ? "If" : "While");
                if(_options.whiles && (!_options.ifs || _c.chance(1, 3))) {
                    branch.tag = "While";
                }
                branch.children.emplace_back(expression(_c.size(0, 2)));
                branch.children.emplace_back(statements(depth - 1, 1,
                    in_function));
                branch.children.emplace_back(_c.chance(1, 2) ?
                    Element("Statements") : statements(depth - 1, 0,
                        in_function));
                e.children.emplace_back(branch);
                break;
            }
            case 4: {
                Element function("FunctionDefinition");
                function.children.emplace_back("Name", _c.pick(
                    _options.functions_called));
                Element arguments("Expressions");
                for(size_t n = _c.size(0, 3); n > 0; --n) {
                    Element argument("Expression");
                    position(argument);
                    argument.children.emplace_back("Name", _c.pick(
                        _options.names));
                    arguments.children.emplace_back(argument);
                }
                function.children.emplace_back(arguments);
                function.children.emplace_back(statements(depth - 1, 1,
                    true));
                e.children.emplace_back(function);
                break;
            }
            case 5: {
                Element result("Return");
                if(_c.chance(3, 4)) {
                    result.children.emplace_back(expression(_c.size(0, 2)));
                }
                e.children.emplace_back(result);
                break;
            }
        }
        return e;
    }

    pbt::Case&     _c;
    Options        _options;
    size_t         _line{1};
};

//! The script in a readable notation.
inline std::string show(Element const& e)
{
    auto all = [&](Element const& e, std::string const& separator) {
        std::string result;
        for(auto const& child: e.children) {
            if(!result.empty()) result += separator;
            result += show(child);
        }
        return result;
    };
    auto at = [&](size_t i) { return show(e.children[i]); };
    if(e.tag == "Fern") return at(0);
    if(e.tag == "Statements") return "{" + all(e, "; ") + "}";
    if(e.tag == "Statement" || e.tag == "Expression" || e.tag == "Number") {
        return at(0);
    }
    if(e.tag == "Expressions") return "(" + all(e, ", ") + ")";
    if(e.tag == "Assignment") return at(0) + " = " + at(1);
    if(e.tag == "If") return "if " + at(0) + " " + at(1) + " else " + at(2);
    if(e.tag == "While") return "while " + at(0) + " " + at(1) + " else " +
        at(2);
    if(e.tag == "FunctionDefinition") return "def " + at(0) + at(1) + " " +
        at(2);
    if(e.tag == "FunctionCall" || e.tag == "Operator") return at(0) + at(1);
    if(e.tag == "Return") return "return " + all(e, "");
    if(e.tag == "Subscript") return at(0) + "[" + at(1) + "]";
    if(e.tag == "Attribute") return at(0) + "." + at(1);
    if(e.tag == "String") return "\"" + e.text + "\"";
    if(e.leaf) return e.text;
    return (e.tag == "Float" ? "f" : e.tag == "Integer" ? "i" : "u") + at(0) +
        ":" + at(1);
}

} // namespace script
