// P31: uses of names are linked to the definitions that reach them.
#include <cassert>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "pbt.h"
#include "xml.h"
#include "script.h"
#include "fern/language/ast/core/vertices.h"
#include "fern/language/ast/xml/xml_parser.h"
#include "fern/language/ast/visitor/identify_visitor.h"

namespace fl = fern::language;
using xml::Element;

namespace {

//! Something that happens to a name, in the order of the script.
struct Event
{
    fl::NameVertex const* vertex;
    bool           definition;
    size_t         block;
};

//! All names of a script, in the order in which they are evaluated.
class Names
{
public:

    std::vector<Event> events;

    //! Block in which each block is nested. The first one is the script.
    std::vector<size_t> outer;

    size_t nr_functions{0};

    void module(fl::ModuleVertex const& v)
    {
        outer.push_back(0);
        statements(*v.scope(), 0);
    }

    //! Whether what is defined in block \a b can be seen in block \a inner.
    bool visible(size_t b, size_t inner) const
    {
        while(inner != b && inner != 0) inner = outer[inner];
        return inner == b;
    }

    size_t depth(size_t b) const
    {
        size_t result = 0;
        for(; b != 0; b = outer[b]) ++result;
        return result;
    }

private:

    template<class T>
    static T const* as(fl::AstVertex const& v)
    {
        return dynamic_cast<T const*>(&v);
    }

    void statements(fl::ScopeVertex const& scope, size_t b)
    {
        for(auto const& s: scope.statements()) statement(*s, b);
    }

    size_t block(size_t b)
    {
        outer.push_back(b);
        return outer.size() - 1;
    }

    void statement(fl::StatementVertex const& v, size_t b)
    {
        if(auto e = as<fl::ExpressionVertex>(v)) return expression(*e, b);
        if(auto a = as<fl::AssignmentVertex>(v)) {
            expression(*a->expression(), b);
            target(*a->target(), b);
        }
        else if(auto i = as<fl::IfVertex>(v)) {
            expression(*i->condition(), b);
            statements(*i->true_scope(), block(b));
            statements(*i->false_scope(), block(b));
        }
        else if(auto w = as<fl::WhileVertex>(v)) {
            expression(*w->condition(), b);
            statements(*w->true_scope(), block(b));
            statements(*w->false_scope(), block(b));
        }
        else if(auto f = as<fl::FunctionDefinitionVertex>(v)) {
            ++nr_functions;
            size_t inside = block(b);
            for(auto const& x: f->arguments()) target(*x, inside);
            statements(*f->scope(), inside);
        }
        else if(auto r = as<fl::ReturnVertex>(v)) {
            if(r->expression()) expression(*r->expression(), b);
        }
    }

    //! What is assigned to: a name, or part of what a name stands for.
    void target(fl::ExpressionVertex const& v, size_t b)
    {
        if(auto n = as<fl::NameVertex>(v)) {
            events.push_back({n, true, b});
        }
        else if(auto s = as<fl::SubscriptVertex>(v)) {
            expression(*s->selection(), b);
            target(*s->expression(), b);
        }
        else if(auto a = as<fl::AttributeVertex>(v)) {
            target(*a->expression(), b);
        }
    }

    void expression(fl::ExpressionVertex const& v, size_t b)
    {
        if(auto n = as<fl::NameVertex>(v)) {
            events.push_back({n, false, b});
        }
        else if(auto o = as<fl::OperationVertex>(v)) {
            for(auto const& x: o->expressions()) expression(*x, b);
        }
        else if(auto s = as<fl::SubscriptVertex>(v)) {
            expression(*s->expression(), b);
            expression(*s->selection(), b);
        }
        else if(auto a = as<fl::AttributeVertex>(v)) {
            expression(*a->expression(), b);
        }
    }
};

std::string where(fl::NameVertex const& v)
{
    return v.name() + " (" + std::to_string(v.line()) + ":" +
        std::to_string(v.col()) + ")";
}

using Links = std::multiset<fl::NameVertex const*>;

std::string show(Links const& links)
{
    std::string result = "{";
    for(auto v: links) result += " " + (v ? where(*v) : "nothing");
    return result + " }";
}

Links links(std::vector<fl::NameVertex*> const& vertices)
{
    return Links(vertices.begin(), vertices.end());
}

void check(pbt::Case& c, Names const& names)
{
    std::map<fl::NameVertex const*, Links> uses;
    std::vector<Links> definitions;
    bool outer_definition = false, choice = false;
    for(size_t i = 0; i < names.events.size(); ++i) {
        auto const& event = names.events[i];
        Links expected;
        if(event.definition) {
            expected.insert(event.vertex);
        }
        else {
            // Of all definitions that can be seen, the one in the most nested
            // block; of those the last one.
            Event const* best = nullptr;
            size_t candidates = 0;
            for(size_t j = 0; j < i; ++j) {
                auto const& d = names.events[j];
                if(d.definition && d.vertex->name() == event.vertex->name()) {
                    ++candidates;
                    if(names.visible(d.block, event.block) && (!best ||
                            names.depth(d.block) >= names.depth(
                                best->block))) {
                        best = &d;
                    }
                }
            }
            if(best) {
                expected.insert(best->vertex);
                uses[best->vertex].insert(event.vertex);
                outer_definition |= best->block != event.block;
            }
            choice |= candidates > 1;
            c.label(!best ? candidates > 0 ? "defined out of sight" :
                "undefined" : best->block == event.block ? "same block" :
                "outer block");
        }
        definitions.push_back(expected);
    }
    c.nontrivial(choice && outer_definition);
    for(size_t i = 0; i < names.events.size(); ++i) {
        auto const& event = names.events[i];
        auto got = links(event.vertex->definitions());
        PBT_CHECK(got == definitions[i], (event.definition ? "definition of " :
            "use of ") << where(*event.vertex) << " refers to " <<
            ::show(got) << " instead of " << ::show(definitions[i]));
        got = links(event.vertex->uses());
        auto const& expected = uses[event.vertex];
        PBT_CHECK(got == expected, (event.definition ? "definition of " :
            "use of ") << where(*event.vertex) << " lists uses " <<
            ::show(got) << " instead of " << ::show(expected));
    }
}

}  // namespace

PBT_TARGET(identify, 1500, 1, "a use refers to a definition in an outer block, "
    "and a use has more than one earlier definition to choose from")
{
    script::Options options;
    options.odd_text = false;
    options.places = true;
    options.most_statements = c.size(2, 6);
    options.one_position = c.chance(1, 4);
    options.depth = c.size(1, 3);
    options.functions = c.chance(3, 4);
    options.names.resize(c.size(1, 5));
    fl::IdentifyVisitor visitor;
    for(size_t n = c.chance(1, 4) ? 2 : 1; n > 0; --n) {
        Element root = script::Generator(c, options).module();
        c.desc() << script::show(root) << "\n";
        auto tree = fl::XmlParser().parse_string(xml::Writer(c).document(root));
        Names names;
        names.module(*tree);
        tree->Accept(visitor);
        if(names.nr_functions) c.label("functions");
        check(c, names);
        PBT_CHECK(visitor.symbol_table().empty(), "the symbol table still has "
            "scopes");
    }
}
