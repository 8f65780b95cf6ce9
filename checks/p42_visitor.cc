// P42: visitors get to every vertex of a syntax tree.
#include <cassert>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include "pbt.h"
#include "xml.h"
#include "script.h"
#include "fern/language/ast/core/vertices.h"
#include "fern/language/ast/xml/xml_parser.h"
#include "fern/language/ast/visitor/ast_visitor.h"

namespace fl = fern::language;
using xml::Element;

namespace {

using Visits = std::vector<std::pair<char const*, fl::AstVertex const*>>;

//! Knows about no kind of vertex in particular.
class General: public fl::AstVisitor
{
public:
    Visits visits;
private:
    void Visit(fl::AstVertex& v) override
    {
        visits.emplace_back("vertex", &v);
    }
};

//! Looks at every kind of vertex and leaves the work to the base class.
class Specific: public fl::AstVisitor
{
public:
    Visits visits;
private:
#define OVERRIDE(type, name) \
    void Visit(fl::type& v) override \
    { \
        visits.emplace_back(name, &v); \
        fl::AstVisitor::Visit(v); \
    }
    OVERRIDE(AssignmentVertex, "assignment")
    OVERRIDE(AttributeVertex, "attribute")
    OVERRIDE(IfVertex, "if")
    OVERRIDE(FunctionDefinitionVertex, "function definition")
    OVERRIDE(FunctionCallVertex, "function call")
    OVERRIDE(OperationVertex, "operation")
    OVERRIDE(ReturnVertex, "return")
    OVERRIDE(ModuleVertex, "module")
    OVERRIDE(ScopeVertex, "scope")
    OVERRIDE(SentinelVertex, "sentinel")
    OVERRIDE(StatementVertex, "statement")
    OVERRIDE(SubscriptVertex, "subscript")
    OVERRIDE(WhileVertex, "while")
#undef OVERRIDE
    void Visit(fl::AstVertex& v) override
    {
        visits.emplace_back("vertex", &v);
    }
};

//! Kinds of vertices that don't leave the work to the base class.
class Last: public fl::AstVisitor
{
public:
    Visits visits;
private:
#define OVERRIDE(type, name) \
    void Visit(fl::type& v) override { visits.emplace_back(name, &v); }
    OVERRIDE(NameVertex, "name")
    OVERRIDE(StringVertex, "string")
    OVERRIDE(OperatorVertex, "operator")
    OVERRIDE(FunctionCallVertex, "function call")
    OVERRIDE(NumberVertex<int8_t>, "int8")
    OVERRIDE(NumberVertex<int16_t>, "int16")
    OVERRIDE(NumberVertex<int32_t>, "int32")
    OVERRIDE(NumberVertex<int64_t>, "int64")
    OVERRIDE(NumberVertex<uint8_t>, "uint8")
    OVERRIDE(NumberVertex<uint16_t>, "uint16")
    OVERRIDE(NumberVertex<uint32_t>, "uint32")
    OVERRIDE(NumberVertex<uint64_t>, "uint64")
    OVERRIDE(NumberVertex<float>, "float32")
    OVERRIDE(NumberVertex<double>, "float64")
    OVERRIDE(ExpressionVertex, "expression")
    OVERRIDE(StatementVertex, "statement")
    OVERRIDE(SentinelVertex, "sentinel")
#undef OVERRIDE
    void Visit(fl::AstVertex& v) override
    {
        visits.emplace_back("vertex", &v);
    }
};

//! Walks through a tree, and notes what each of the visitors should see.
class Walk
{
public:

    Visits general, specific, last;

    size_t nr_kinds{0};

    void module(fl::ModuleVertex const& v)
    {
        specific.emplace_back("module", &v);
        scope(*v.scope());
        vertex(v);
    }

private:

    template<class T>
    static T const* as(fl::AstVertex const& v)
    {
        return dynamic_cast<T const*>(&v);
    }

    void vertex(fl::AstVertex const& v)
    {
        general.emplace_back("vertex", &v);
        specific.emplace_back("vertex", &v);
        last.emplace_back("vertex", &v);
    }

    //! A statement of which the parts have been visited already.
    void done(fl::AstVertex const& v, char const* name = "statement")
    {
        general.emplace_back("vertex", &v);
        specific.emplace_back("statement", &v);
        specific.emplace_back("vertex", &v);
        last.emplace_back(name, &v);
    }

    void scope(fl::ScopeVertex const& v)
    {
        specific.emplace_back("scope", &v);
        for(auto const& s: v.statements()) statement(*s);
        specific.emplace_back("sentinel", v.sentinel().get());
        general.emplace_back("vertex", v.sentinel().get());
        specific.emplace_back("vertex", v.sentinel().get());
        last.emplace_back("sentinel", v.sentinel().get());
        vertex(v);
    }

    void statement(fl::StatementVertex const& v)
    {
        if(auto e = as<fl::ExpressionVertex>(v)) return expression(*e);
        ++nr_kinds;
        if(auto a = as<fl::AssignmentVertex>(v)) {
            specific.emplace_back("assignment", &v);
            expression(*a->expression());
            expression(*a->target());
        }
        else if(auto i = as<fl::IfVertex>(v)) {
            specific.emplace_back("if", &v);
            expression(*i->condition());
            scope(*i->true_scope());
            scope(*i->false_scope());
        }
        else if(auto w = as<fl::WhileVertex>(v)) {
            specific.emplace_back("while", &v);
            expression(*w->condition());
            scope(*w->true_scope());
            scope(*w->false_scope());
        }
        else if(auto f = as<fl::FunctionDefinitionVertex>(v)) {
            specific.emplace_back("function definition", &v);
            for(auto const& x: f->arguments()) expression(*x);
            scope(*f->scope());
        }
        else if(auto r = as<fl::ReturnVertex>(v)) {
            specific.emplace_back("return", &v);
            if(r->expression()) expression(*r->expression());
        }
        done(v);
    }

    //! Parts of operations don't count for the last kind of visitor.
    void operation(fl::OperationVertex const& o)
    {
        Visits saved = last;
        specific.emplace_back("operation", &o);
        for(auto const& x: o.expressions()) expression(*x);
        last = saved;
    }

    void expression(fl::ExpressionVertex const& v)
    {
        if(auto o = as<fl::OperatorVertex>(v)) {
            operation(*o);
            done(v, "operator");
        }
        else if(auto f = as<fl::FunctionCallVertex>(v)) {
            specific.emplace_back("function call", &v);
            operation(*f);
            done(v, "function call");
        }
        else if(auto s = as<fl::SubscriptVertex>(v)) {
            specific.emplace_back("subscript", &v);
            expression(*s->expression());
            expression(*s->selection());
            done(v, "expression");
        }
        else if(auto a = as<fl::AttributeVertex>(v)) {
            specific.emplace_back("attribute", &v);
            expression(*a->expression());
            done(v, "expression");
        }
        else {
            done(v, as<fl::NameVertex>(v) ? "name"
                : as<fl::StringVertex>(v) ? "string"
                : as<fl::NumberVertex<int8_t>>(v) ? "int8"
                : as<fl::NumberVertex<int16_t>>(v) ? "int16"
                : as<fl::NumberVertex<int32_t>>(v) ? "int32"
                : as<fl::NumberVertex<int64_t>>(v) ? "int64"
                : as<fl::NumberVertex<uint8_t>>(v) ? "uint8"
                : as<fl::NumberVertex<uint16_t>>(v) ? "uint16"
                : as<fl::NumberVertex<uint32_t>>(v) ? "uint32"
                : as<fl::NumberVertex<uint64_t>>(v) ? "uint64"
                : as<fl::NumberVertex<float>>(v) ? "float32" : "float64");
        }
    }
};

void compare(pbt::Case& c, Visits const& got, Visits const& want, char const* visitor)
{
    for(size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
        PBT_CHECK(i < got.size(), visitor << " visitor: visit " << i <<
            " is missing, of a " << want[i].first << " on line " <<
            want[i].second->line());
        PBT_CHECK(i < want.size(), visitor << " visitor: visit " << i <<
            " is one too many, of a " << got[i].first << " on line " <<
            got[i].second->line());
        PBT_CHECK(std::string(got[i].first) == want[i].first,
            visitor << " visitor: visit " << i << " is that of a " <<
            got[i].first << " instead of a " << want[i].first);
        PBT_CHECK(got[i].second == want[i].second, visitor << " visitor: visit "
            << i << ", of a " << got[i].first << ", is to another one");
    }
}

} // namespace

PBT_TARGET(visits, 1500, 1, "there are blocks in the script and expressions in "
    "expressions")
{
    script::Options options;
    options.most_statements = c.size(1, 6);
    options.depth = c.size(1, 4);
    options.one_position = c.chance(1, 4);
    Element root = script::Generator(c, options).module();
    c.desc() << script::show(root) << "\n";
    auto tree = fl::XmlParser().parse_string(xml::Writer(c).document(root));
    Walk walk;
    walk.module(*tree);
    c.nontrivial(walk.nr_kinds > 1 && walk.general.size() > 8);
    General general;
    Specific specific;
    Last last;
    // A visitor can be used more than once.
    for(size_t n = 0; n < 2; ++n) {
        general.visits.clear();
        specific.visits.clear();
        last.visits.clear();
        tree->Accept(general);
        tree->Accept(specific);
        tree->Accept(last);
        compare(c, general.visits, walk.general, "general");
        compare(c, specific.visits, walk.specific, "specific");
        compare(c, last.visits, walk.last, "last");
    }
}
