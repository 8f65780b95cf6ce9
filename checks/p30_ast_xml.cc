// P30: reading a syntax tree from XML reproduces the tree.
#include <cassert>
#include <cmath>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "pbt.h"
#include "xml.h"
#include "script.h"
#include "fern/core/exception.h"
#include "fern/language/ast/core/vertices.h"
#include "fern/language/ast/xml/xml_parser.h"

namespace fl = fern::language;
using xml::Element;

namespace {

std::map<std::string, std::string> const symbols{
    {"UnarySub", "-"}, {"UnaryAdd", "+"}, {"Not", "!"}, {"Invert", "~"},
    {"add", "+"}, {"Sub", "-"}, {"Mult", "*"}, {"Div", "/"}, {"Mod", "%"},
    {"Pow", "**"}, {"LShift", "<<"}, {"RShift", ">>"}, {"BitOr", "|"},
    {"BitXor", "^"}, {"BitAnd", "&"}, {"FloorDiv", "//"}, {"And", "and"},
    {"Or", "or"}, {"Eq", "=="}, {"NotEq", "!="}, {"Lt", "<"}, {"LtE", "<="},
    {"Gt", ">"}, {"GtE", ">="}};

class Matcher
{
public:

    explicit Matcher(pbt::Case& c): c(c) {}

    void module(fl::ModuleVertex const& v, Element const& e)
    {
        unlinked(v, "module");
        PBT_EQ(v.source_name(), *e.value("source"), "name of the source");
        scope(v.scope(), e.children[0], "module");
    }

private:

    pbt::Case& c;

    void unlinked(fl::AstVertex const& v, std::string const& where)
    {
        PBT_CHECK(!v.has_successor() && v.successors().empty(), where <<
            " has a successor");
    }

    void position(fl::AstVertex const& v, Element const& e,
        std::string const& where)
    {
        unlinked(v, where);
        PBT_EQ(std::to_string(v.line()), *e.value("line"), where <<
            ": line");
        PBT_EQ(std::to_string(v.col()), *e.value("col"), where <<
            ": column");
    }

    void scope(std::shared_ptr<fl::ScopeVertex> const& v, Element const& e,
        std::string const& where)
    {
        PBT_CHECK(v, where << ": no scope");
        PBT_CHECK(v->sentinel(), where << ": no sentinel");
        unlinked(*v, where + ": scope");
        unlinked(*v->sentinel(), where + ": sentinel of scope");
        PBT_EQ(v->statements().size(), e.children.size(), where <<
            ": number of statements");
        for(size_t i = 0; i < e.children.size(); ++i) {
            PBT_CHECK(v->statements()[i], where << ": no statement " << i);
            statement(*v->statements()[i], e.children[i], where + "/" +
                std::to_string(i));
        }
    }

    template<class T, class V>
    T const& as(V const& v, std::string const& where)
    {
        auto result = dynamic_cast<T const*>(&v);
        PBT_CHECK(result, where << ": not the right kind of vertex");
        PBT_CHECK(typeid(v) == typeid(T), where << ": other kind of vertex");
        return *result;
    }

    void statement(fl::StatementVertex const& v, Element const& e,
        std::string const& where)
    {
        position(v, e, where);
        Element const& body = e.children[0];
        std::string here = where + " " + body.tag;
        if(body.tag == "Expression") {
            auto const* x = dynamic_cast<fl::ExpressionVertex const*>(&v);
            PBT_CHECK(x, here << ": not an expression");
            expression(*x, body, where);
        }
        else if(body.tag == "Assignment") {
            auto const& x = as<fl::AssignmentVertex>(v, here);
            PBT_CHECK(x.target() && x.target()->value() == x.expression(),
                here << ": the target does not have the value");
            some_expression(x.target(), body.children[0], here + " target",
                true);
            some_expression(x.expression(), body.children[1], here +
                " value");
        }
        else if(body.tag == "If") {
            auto const& x = as<fl::IfVertex>(v, here);
            some_expression(x.condition(), body.children[0], here +
                " condition");
            scope(x.true_scope(), body.children[1], here + " true");
            scope(x.false_scope(), body.children[2], here + " false");
            PBT_CHECK(x.sentinel(), here << ": no sentinel");
            unlinked(*x.sentinel(), here);
        }
        else if(body.tag == "While") {
            auto const& x = as<fl::WhileVertex>(v, here);
            some_expression(x.condition(), body.children[0], here +
                " condition");
            scope(x.true_scope(), body.children[1], here + " true");
            scope(x.false_scope(), body.children[2], here + " false");
            PBT_CHECK(x.sentinel(), here << ": no sentinel");
            unlinked(*x.sentinel(), here);
        }
        else if(body.tag == "FunctionDefinition") {
            auto const& x = as<fl::FunctionDefinitionVertex>(v, here);
            PBT_EQ(x.name(), body.children[0].text, here << ": name");
            some_expressions(x.arguments(), body.children[1], here +
                " argument");
            scope(x.scope(), body.children[2], here);
        }
        else {
            auto const& x = as<fl::ReturnVertex>(v, here);
            PBT_EQ(!!x.expression(), !body.children.empty(), here <<
                ": presence of the value");
            if(!body.children.empty()) {
                some_expression(x.expression(), body.children[0], here);
            }
        }
    }

    void some_expressions(fl::ExpressionVertices const& v, Element const& e,
        std::string const& where)
    {
        PBT_EQ(v.size(), e.children.size(), where << ": number of them");
        for(size_t i = 0; i < v.size(); ++i) {
            some_expression(v[i], e.children[i], where + " " +
                std::to_string(i));
        }
    }

    void some_expression(fl::ExpressionVertexPtr const& v, Element const& e,
        std::string const& where, bool is_target=false)
    {
        PBT_CHECK(v, where << ": no expression");
        PBT_CHECK(is_target || !v->value(), where << ": has a value");
        expression(*v, e, where);
    }

    template<class T>
    void number(fl::ExpressionVertex const& v, T want,
        std::string const& where)
    {
        auto const& x = as<fl::NumberVertex<T>>(v, where);
        PBT_EQ(x.value(), want, where << ": value");
        std::ostringstream s;
        s << +want;
        PBT_EQ(v.name(), s.str(), where << ": name of the number");
    }

    void expression(fl::ExpressionVertex const& v, Element const& e,
        std::string const& where)
    {
        position(v, e, where);
        PBT_CHECK(v.expression_types().size() == 0, where << ": has a type");
        Element const& body = e.children[0];
        std::string here = where + " " + body.tag;
        if(body.tag == "Name") {
            auto const& x = as<fl::NameVertex>(v, here);
            PBT_EQ(x.name(), body.text, here);
            PBT_CHECK(x.definitions().empty() && x.uses().empty(), here <<
                ": linked to another name");
        }
        else if(body.tag == "String") {
            auto const& x = as<fl::StringVertex>(v, here);
            PBT_EQ(x.value(), body.text, here);
            PBT_EQ(x.name(), "\"" + body.text + "\"", here << ": name");
        }
        else if(body.tag == "Number") {
            Element const& n = body.children[0];
            int size = atoi(n.children[0].text.c_str());
            std::string const& text = n.children[1].text;
            if(n.tag == "Float") {
                double value = strtod(text.c_str(), nullptr);
                if(size == 32) number<float>(v, static_cast<float>(value),
                    here);
                else number<double>(v, value, here);
            }
            else if(n.tag == "Integer") {
                long long value = strtoll(text.c_str(), nullptr, 10);
                switch(size) {
                    case 8: number<int8_t>(v, value, here); break;
                    case 16: number<int16_t>(v, value, here); break;
                    case 32: number<int32_t>(v, value, here); break;
                    case 64: number<int64_t>(v, value, here); break;
                }
            }
            else {
                unsigned long long value = strtoull(text.c_str(), nullptr,
                    10);
                switch(size) {
                    case 8: number<uint8_t>(v, value, here); break;
                    case 16: number<uint16_t>(v, value, here); break;
                    case 32: number<uint32_t>(v, value, here); break;
                    case 64: number<uint64_t>(v, value, here); break;
                }
            }
        }
        else if(body.tag == "FunctionCall") {
            auto const& x = as<fl::FunctionCallVertex>(v, here);
            PBT_EQ(x.name(), body.children[0].text, here << ": name");
            PBT_CHECK(!x.operation(), here << ": has an operation");
            some_expressions(x.expressions(), body.children[1], here);
        }
        else if(body.tag == "Operator") {
            auto const& x = as<fl::OperatorVertex>(v, here);
            PBT_EQ(x.name(), body.children[0].text, here << ": name");
            PBT_EQ(x.symbol(), symbols.at(body.children[0].text), here <<
                ": symbol");
            PBT_CHECK(!x.operation(), here << ": has an operation");
            some_expressions(x.expressions(), body.children[1], here);
        }
        else if(body.tag == "Subscript") {
            auto const& x = as<fl::SubscriptVertex>(v, here);
            PBT_EQ(x.symbol(), std::string("[]"), here << ": symbol");
            some_expression(x.expression(), body.children[0], here);
            some_expression(x.selection(), body.children[1], here +
                " selection");
        }
        else {
            auto const& x = as<fl::AttributeVertex>(v, here);
            PBT_EQ(x.symbol(), std::string("."), here << ": symbol");
            PBT_EQ(x.member_name(), body.children[1].text, here);
            some_expression(x.expression(), body.children[0], here);
        }
    }
};

std::shared_ptr<fl::ModuleVertex> parse(pbt::Case& c,
    fl::XmlParser const& parser, std::string const& text, bool& ok)
{
    ok = true;
    try {
        auto result = parser.parse_string(text);
        PBT_CHECK(result, "nothing, and no error");
        return result;
    }
    catch(fern::detail::ParseError const& e) {
        ok = false;
        auto line = boost::get_error_info<fern::detail::ExceptionLineNr>(e);
        auto column = boost::get_error_info<fern::detail::ExceptionColNr>(e);
        auto message = boost::get_error_info<fern::detail::ExceptionMessage>(
            e);
        auto source = boost::get_error_info<
            fern::detail::ExceptionSourceName>(e);
        PBT_CHECK(line && column && message && source, "error without "
            "particulars");
        PBT_EQ(*source, std::string("<string>"), "source name");
        long nr_lines = 1;
        for(char ch: text) if(ch == '\n' || ch == '\r') ++nr_lines;
        PBT_CHECK(*line >= 1 && *line <= nr_lines, "error on line " << *line
            << " of " << nr_lines);
        PBT_CHECK(!message->empty(), "error without message");
        return nullptr;
    }
}

//! Elements nested in elements of the same kind, at most.
/*!
  The run-time library of the XML data binding that is installed here writes
  beyond the end of its stack when more than eight elements of a kind are
  nested (xsd::cxx::parser::pod_stack). That is not up to fern.
*/
size_t nesting(std::string const& text)
{
    std::map<std::string, size_t> depths;
    size_t result = 0;
    for(size_t i = 0; i + 1 < text.size(); ++i) {
        if(text[i] != '<') continue;
        bool end = text[i + 1] == '/';
        size_t first = i + 1 + end, last = first;
        while(last < text.size() && isalpha(static_cast<unsigned char>(
            text[last]))) ++last;
        auto& depth = depths[text.substr(first, last - first)];
        size_t close = text.find_first_of("<>", last);
        if(!end && close != std::string::npos && text[close] == '>' &&
            text[close - 1] == '/') {
            result = std::max(result, depth + 1);
        }
        else if(!end) result = std::max(result, ++depth);
        else if(depth > 0) --depth;
    }
    return result;
}

script::Options options(pbt::Case& c)
{
    script::Options result;
    switch(c.draw(6)) {
        case 0: result.depth = 7; result.most_statements = 1; break;
        case 1: result.depth = 1; result.most_statements = 10; break;
        case 2: result.depth = 2; break;
        default: result.depth = 3; result.most_statements = 3; break;
    }
    return result;
}

std::vector<Element*> tagged(Element& root,
    std::vector<std::string> const& tags)
{
    std::vector<Element*> all, result;
    collect(root, all);
    for(auto* e: all) {
        for(auto const& tag: tags) if(e->tag == tag) result.emplace_back(e);
    }
    return result;
}

//! Makes the document invalid.
std::string invalidate(pbt::Case& c, Element& root)
{
    auto one = [&](std::vector<std::string> const& tags) {
        auto found = tagged(root, tags);
        if(found.empty()) c.discard();
        return c.pick(found);
    };
    auto drop = [&](Element& e, std::string const& name) {
        for(size_t i = 0; i < e.attributes.size(); ++i) {
            if(e.attributes[i].first == name) {
                e.attributes.erase(e.attributes.begin() + i);
                return;
            }
        }
    };
    static std::vector<std::string> const all{"Fern", "Statements",
        "Statement", "Expression", "Assignment", "If", "While",
        "FunctionDefinition", "Return", "Expressions", "FunctionCall",
        "Operator", "Subscript", "Attribute", "Number", "Integer",
        "UnsignedInteger", "Float"};
    switch(c.draw(15)) {
        case 0: {
            Element* e = one({"Statement", "Expression", "Fern"});
            std::string name = e->tag == "Fern" ? "source" :
                c.pick<std::string>({"line", "col"});
            drop(*e, name);
            return "no " + name + " of " + e->tag;
        }
        case 1: {
            Element* e = one({"Statement", "Expression"});
            auto& a = e->attributes[c.draw(2)];
            a.second = c.pick<std::string>({"", "x", "-1", "1.5", "1x"});
            return a.first + " is " + a.second;
        }
        case 2: {
            Element* e = one(all);
            e->attribute(c.pick<std::string>({"row", "name", "Line"}), "1");
            return "attribute " + e->attributes.back().first;
        }
        case 3: {
            Element* e = one(all);
            size_t place = c.draw(e->children.size() + 1);
            e->children.insert(e->children.begin() + place,
                Element(c.pick<std::string>({"Unknown", "name", "Fern"})));
            return "unknown element in " + e->tag;
        }
        case 4: {
            Element* e = one({"Assignment", "If", "While",
                "FunctionDefinition", "FunctionCall", "Operator", "Subscript",
                "Attribute", "Integer", "UnsignedInteger", "Float",
                "Statement", "Expression", "Number", "Fern"});
            size_t place = c.draw(e->children.size());
            e->children.erase(e->children.begin() + place);
            return "incomplete " + e->tag;
        }
        case 5: {
            Element* e = one({"Assignment", "If", "While",
                "FunctionDefinition", "FunctionCall", "Operator", "Subscript",
                "Attribute", "Integer", "UnsignedInteger", "Float",
                "Statement", "Expression", "Number", "Fern"});
            size_t place = c.draw(e->children.size());
            Element copy = e->children[place];
            e->children.insert(e->children.begin() + place, copy);
            return "too many in " + e->tag;
        }
        case 6: {
            Element* e = one({"If", "While", "FunctionDefinition",
                "FunctionCall", "Operator", "Attribute", "Integer",
                "UnsignedInteger", "Float"});
            std::swap(e->children[0], e->children[1]);
            return "order in " + e->tag;
        }
        case 7: {
            Element* e = one({"Integer", "UnsignedInteger", "Float"});
            e->children[1].text = c.pick<std::string>({"", "x", "1x", "1 2",
                e->tag == "Float" ? "1e" : "1.5", "--1",
                e->tag == "UnsignedInteger" ? "-1" : "+-1"});
            return e->tag + " is " + e->children[1].text;
        }
        case 8: {
            Element* e = one({"Integer", "UnsignedInteger", "Float"});
            e->children[0].text = c.pick<std::string>({"0", "-8", "7", "128",
                "x", "", e->tag == "Float" ? "16" : "24", "8.0"});
            return "size is " + e->children[0].text;
        }
        case 9: {
            Element* e = one({"Integer", "UnsignedInteger"});
            std::string size = c.pick<std::string>({"8", "16", "32"});
            e->children[0].text = size;
            e->children[1].text = e->tag == "UnsignedInteger" ?
                (size == "8" ? "256" : size == "16" ? "65536" :
                    "4294967296") :
                size == "8" ? c.pick<std::string>({"128", "-129", "1000"}) :
                size == "16" ? c.pick<std::string>({"32768", "-32769"}) :
                c.pick<std::string>({"2147483648", "-2147483649"});
            return e->tag + " of size " + size + " is " + e->children[1].text;
        }
        case 10: {
            Element* e = one({"If", "While", "FunctionDefinition"});
            (e->tag == "FunctionDefinition" ? e->children[2] :
                e->children[1]).children.clear();
            return "nothing in " + e->tag;
        }
        case 11: {
            Element* e = one({"Operator"});
            e->children[0].text = c.pick<std::string>({"", "unknown", "+",
                "Add", e->children[1].children.size() == 1 ? "Sub" :
                    "UnarySub"});
            return "operator " + e->children[0].text;
        }
        case 12: {
            Element* e = one({"Operator"});
            auto& operands = e->children[1].children;
            if(c.chance(1, 3)) operands.clear();
            else {
                Element copy = operands.back();
                operands.emplace_back(copy);
                if(operands.size() == 2) operands.emplace_back(copy);
            }
            return "operator with " + std::to_string(operands.size());
        }
        case 13: {
            Element* e = one(all);
            e->raw = c.pick<std::string>({"words", "1", "&amp;",
                "<![CDATA[x]]>"});
            return "text in " + e->tag;
        }
        default: {
            root.tag = c.pick<std::string>({"fern", "Module", "Statements"});
            return "root " + root.tag;
        }
    }
}

std::string deform(pbt::Case& c, Element& root)
{
    std::vector<Element*> all;
    collect(root, all);
    Element* e = c.pick(all);
    switch(c.draw(4)) {
        case 0: e->no_end_tag = true; return "no end tag of " + e->tag;
        case 1: e->other_end_tag = c.pick<std::string>({"x" + e->tag,
            "other"}); return "end tag of " + e->tag;
        case 2:
            e->raw = c.pick<std::string>({"& ", "< ", "&nbsp;", "&#0;",
                "&#xFFFF;", "&amp", "\x01", "\xff", "]]>", "<!-- -- -->",
                "<?xml version='1.0'?>", "<a b=c/>", "<a b='1' b='2'/>",
                "</>"});
            return "contents " + pbt::show(e->raw);
        default:
            e->raw_attributes = c.pick<std::string>({" a", " a=", " a=1",
                " a='<'", " a='&'", " a='1' a='2'", " a='1", " 1='1'"});
            return "attributes " + e->raw_attributes;
    }
}

}  // namespace

PBT_TARGET(read, 1200, 1, "the script has a statement with an operation in "
    "it, or a nested block")
{
    fl::XmlParser parser;
    Element root = script::Generator(c, options(c)).module();
    std::string text = xml::Writer(c).document(root);
    c.desc() << script::show(root) << "\n" << text;
    c.nontrivial(!tagged(root, {"Operator", "FunctionCall", "Subscript",
        "Attribute", "If", "While", "FunctionDefinition"}).empty());
    bool ok;
    if(c.chance(1, 4)) {
        parse(c, parser, text.substr(0, text.rfind("</")), ok);
    }
    auto tree = parse(c, parser, text, ok);
    PBT_CHECK(ok, "a valid document is refused");
    Matcher(c).module(*tree, root);
    auto again = parse(c, parser, text, ok);
    PBT_CHECK(ok && again && again != tree, "reading it again");
    Matcher(c).module(*again, root);
}

PBT_TARGET(refuse, 2000, 1, "the document would be valid without one mistake")
{
    fl::XmlParser parser;
    Element root = script::Generator(c, options(c)).module();
    std::string what;
    switch(c.weighted({6, 2, 1})) {
        case 0: what = invalidate(c, root); break;
        case 1: what = deform(c, root); break;
        case 2: what = "truncated"; break;
    }
    std::string text = xml::Writer(c).document(root);
    if(what == "truncated") {
        size_t end = text.rfind("</Fern");
        if(end == std::string::npos) end = text.rfind("/>");
        text.resize(c.draw(end));
    }
    c.nontrivial();
    c.label(what.substr(0, what.find(' ')));
    c.desc() << what << ": " << text;
    bool ok;
    auto tree = parse(c, parser, text, ok);
    PBT_CHECK(!ok, "a document is accepted that is wrong: " << what);
}

PBT_TARGET(corrupt, 3000, 1, "the document is read although bytes changed, or "
    "it has an operation or nested block")
{
    fl::XmlParser parser;
    Element root = script::Generator(c, options(c)).module();
    std::string text = xml::Writer(c).document(root);
    for(size_t n = c.size(1, 4); n > 0 && !text.empty(); --n) {
        size_t place = c.draw(text.size());
        switch(c.draw(5)) {
            case 0: text[place] = static_cast<char>(c.draw(256)); break;
            case 1: text[place] = c.pick<char>({'<', '>', '&', '"', '/', '\0',
                ';', '-', '[', ':', '1'}); break;
            case 2: text.erase(place, c.size(1, 5)); break;
            case 3: {
                std::string part = text.substr(c.draw(text.size()),
                    c.size(1, 20));
                text.insert(place, part);
                break;
            }
            case 4: {
                // An element moves or is repeated.
                size_t first = text.find('<', place);
                if(first == std::string::npos) break;
                size_t last = text.find('>', first);
                if(last == std::string::npos) break;
                std::string part = text.substr(first, last - first + 1);
                if(c.chance(1, 2)) text.erase(first, part.size());
                size_t to = text.find('<', c.draw(text.size()));
                if(to != std::string::npos) text.insert(to, part);
                break;
            }
        }
    }
    if(nesting(text) > 8) c.discard();
    c.desc() << pbt::show(text);
    bool ok;
    parse(c, parser, text, ok);
    c.label(ok ? "read" : "refused");
    c.nontrivial(ok || !tagged(root, {"Operator", "FunctionCall",
        "Subscript", "Attribute", "If", "While", "FunctionDefinition"}).
            empty());
}
