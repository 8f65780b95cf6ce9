// P32: control flow visits every operation once, operands before operators.
#include <cassert>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#include "pbt.h"
#include "xml.h"
#include "script.h"
#include "fern/language/ast/core/vertices.h"
#include "fern/language/ast/xml/xml_parser.h"
#include "fern/language/ast/visitor/thread_visitor.h"

namespace fl = fern::language;
using xml::Element;

namespace {

template<class T>
T const* as(fl::AstVertex const& v)
{
    return dynamic_cast<T const*>(&v);
}

//! Gives each function a name of its own.
void name_functions(Element& e, size_t& nr)
{
    if(e.tag == "FunctionDefinition") {
        e.children[0].text = "user" + std::to_string(nr++);
    }
    for(auto& child: e.children) name_functions(child, nr);
}

//! Lets some calls be calls of functions of the script, at most one of each.
/*!
  A call can refer to all functions of the blocks that it is in; inside of a
  function only to the ones before that function.
*/
void call_functions(pbt::Case& c, Element& e, std::vector<std::string> visible,
    std::set<std::string>& called)
{
    if(e.tag == "FunctionCall") {
        call_functions(c, e.children[1], visible, called);
        std::vector<std::string> names;
        for(auto const& name: visible) {
            if(!called.count(name)) names.push_back(name);
        }
        if(!names.empty() && c.chance(2, 3)) {
            e.children[0].text = c.pick(names);
            called.insert(e.children[0].text);
        }
        return;
    }
    if(e.tag != "Statements") {
        for(auto& child: e.children) {
            call_functions(c, child, visible, called);
        }
        return;
    }
    auto all = visible, before = visible;
    for(auto& s: e.children) {
        auto& x = s.children[0];
        if(x.tag == "FunctionDefinition") {
            all.push_back(x.children[0].text);
        }
    }
    for(auto& s: e.children) {
        auto& x = s.children[0];
        if(x.tag == "FunctionDefinition") {
            call_functions(c, x, before, called);
            before.push_back(x.children[0].text);
        }
    }
    for(auto& s: e.children) {
        if(s.children[0].tag != "FunctionDefinition") {
            call_functions(c, s, all, called);
        }
    }
}

using Path = std::vector<fl::AstVertex const*>;
using Decisions = std::map<fl::IfVertex const*, bool>;

//! Executes a script, noting the vertices.
class Execution
{
public:

    Path           path;
    bool           conditional{false};
    bool           called{false};

    Execution(Decisions const& decisions,
        std::map<std::string, fl::FunctionDefinitionVertex const*> const&
            functions)
        : _decisions(decisions), _functions(functions) {}

    void module(fl::ModuleVertex const& v)
    {
        at(v);
        block(*v.scope());
        at(v);
    }

    void function(fl::FunctionDefinitionVertex const& v)
    {
        at(v);
        for(auto const& x: v.arguments()) expression(*x);
        at(*v.scope());
        statements(*v.scope());
        _returning = false;
        at(*v.scope()->sentinel());
    }

private:

    Decisions const& _decisions;
    std::map<std::string, fl::FunctionDefinitionVertex const*> const&
                   _functions;
    bool           _returning{false};

    void at(fl::AstVertex const& v) { path.push_back(&v); }

    void statements(fl::ScopeVertex const& scope)
    {
        for(auto const& s: scope.statements()) {
            statement(*s);
            if(_returning) return;
        }
    }

    void block(fl::ScopeVertex const& scope)
    {
        at(scope);
        statements(scope);
        if(!_returning) at(*scope.sentinel());
    }

    void statement(fl::StatementVertex const& v)
    {
        if(auto e = as<fl::ExpressionVertex>(v)) return expression(*e);
        if(auto a = as<fl::AssignmentVertex>(v)) {
            expression(*a->expression());
            expression(*a->target());
            at(v);
        }
        else if(auto i = as<fl::IfVertex>(v)) {
            conditional = true;
            expression(*i->condition());
            at(v);
            block(_decisions.at(i) ? *i->true_scope() : *i->false_scope());
            if(!_returning) at(*i->sentinel());
        }
        else if(auto r = as<fl::ReturnVertex>(v)) {
            if(r->expression()) expression(*r->expression());
            at(v);
            _returning = true;
        }
    }

    void expression(fl::ExpressionVertex const& v)
    {
        if(auto o = as<fl::OperationVertex>(v)) {
            for(auto const& x: o->expressions()) expression(*x);
            at(v);
            auto f = as<fl::FunctionCallVertex>(v) ? _functions.find(
                o->name()) : _functions.end();
            if(f != _functions.end()) {
                called = true;
                function(*f->second);
            }
            return;
        }
        if(auto s = as<fl::SubscriptVertex>(v)) {
            expression(*s->expression());
            expression(*s->selection());
        }
        else if(auto a = as<fl::AttributeVertex>(v)) {
            expression(*a->expression());
        }
        at(v);
    }
};

std::string show(fl::AstVertex const* v)
{
    if(!v) return "nothing";
    std::string kind =
        as<fl::ModuleVertex>(*v) ? "module" :
        as<fl::ScopeVertex>(*v) ? "start of block" :
        as<fl::SentinelVertex>(*v) ? "end of block" :
        as<fl::AssignmentVertex>(*v) ? "assignment" :
        as<fl::IfVertex>(*v) ? "if" :
        as<fl::ReturnVertex>(*v) ? "return" :
        as<fl::FunctionDefinitionVertex>(*v) ? "definition of " +
            as<fl::FunctionDefinitionVertex>(*v)->name() :
        as<fl::ExpressionVertex>(*v) ? "expression " +
            as<fl::ExpressionVertex>(*v)->name() : "vertex";
    return kind + " (" + std::to_string(v->line()) + ":" +
        std::to_string(v->col()) + ")";
}

//! Follow the successors, along the same number of steps.
void follow(pbt::Case& c, Path const& path, Decisions const& decisions,
    bool ends)
{
    fl::AstVertex const* v = path[0];
    for(size_t i = 0; i + 1 < path.size(); ++i) {
        auto if_ = as<fl::IfVertex>(*v);
        size_t which = if_ && !decisions.at(if_) ? 1 : 0;
        if(!if_) {
            PBT_CHECK(v->successors().size() == 1, ::show(v) << " has " <<
                v->successors().size() << " successors instead of one: " <<
                ::show(path[i + 1]));
        }
        else {
            size_t least = if_->false_scope()->statements().empty() ? 1 : 2;
            PBT_CHECK(v->successors().size() >= least && v->successors().size()
                <= 2, ::show(v) << " has " << v->successors().size() <<
                " successors");
        }
        auto next = v->successors()[which];
        PBT_CHECK(next == path[i + 1], ::show(v) << " continues with " <<
            ::show(next) << " instead of " << ::show(path[i + 1]));
        v = next;
    }
    if(ends) {
        PBT_CHECK(!v->has_successor(), ::show(v) << " continues with " <<
            ::show(v->successor()));
    }
}

//! What the script consists of.
struct Parts
{
    std::vector<fl::IfVertex const*> ifs;
    std::map<std::string, fl::FunctionDefinitionVertex const*> functions;

    void collect(fl::ScopeVertex const& scope)
    {
        for(auto const& s: scope.statements()) {
            if(auto i = as<fl::IfVertex>(*s)) {
                ifs.push_back(i);
                collect(*i->true_scope());
                collect(*i->false_scope());
            }
            else if(auto f = as<fl::FunctionDefinitionVertex>(*s)) {
                functions[f->name()] = f;
                collect(*f->scope());
            }
        }
    }
};

}  // namespace

PBT_TARGET(thread, 1500, 1, "a path passes a condition or a function of the "
    "script, and at least ten vertices")
{
    script::Options options;
    options.odd_text = false;
    options.places = true;
    options.whiles = false;
    options.most_statements = c.size(2, 6);
    options.one_position = c.chance(1, 4);
    options.depth = c.size(1, 3);
    options.functions = c.chance(2, 3);
    options.ifs = c.chance(3, 4);
    fl::ThreadVisitor visitor;
    for(size_t n = c.chance(1, 4) ? 2 : 1; n > 0; --n) {
        Element root = script::Generator(c, options).module();
        size_t nr = 0;
        std::set<std::string> called;
        name_functions(root, nr);
        call_functions(c, root, {}, called);
        c.desc() << script::show(root) << "\n";
        auto tree = fl::XmlParser().parse_string(xml::Writer(c).document(root));
        Parts parts;
        parts.collect(*tree->scope());
        tree->Accept(visitor);

        for(size_t i = 0; i < 3; ++i) {
            Decisions decisions;
            for(auto v: parts.ifs) {
                // Without statements there is no branch to take.
                decisions[v] = i == 0 || v->false_scope()->statements().empty()
                    || (i == 1 ? false : c.chance(1, 2));
            }
            Execution execution(decisions, parts.functions);
            execution.module(*tree);
            follow(c, execution.path, decisions, false);
            c.nontrivial((execution.conditional || execution.called) &&
                execution.path.size() > 10);
            if(execution.conditional) c.label("condition");
            if(execution.called) c.label("function called");

            std::set<fl::AstVertex const*> visited(execution.path.begin(),
                execution.path.end());
            PBT_EQ(visited.size() + 1, execution.path.size(), "vertices "
                "visited once");

            // Also functions that are never called.
            for(auto const& f: parts.functions) {
                if(called.count(f.first)) continue;
                c.label("function not called");
                Execution execution(decisions, parts.functions);
                execution.function(*f.second);
                follow(c, execution.path, decisions, true);
            }
        }
    }
}
