// P40: the graphs that are drawn of a script show the script.
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdlib>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <utility>
#include <vector>
#include "pbt.h"
#include "xml.h"
#include "script.h"
#include "dot.h"
#include "fern/language/ast/core/vertices.h"
#include "fern/language/ast/xml/xml_parser.h"
#include "fern/language/ast/visitor/ast_dot_visitor.h"
#include "fern/language/ast/visitor/flowgraph_dot_visitor.h"
#include "fern/language/ast/visitor/identify_visitor.h"
#include "fern/language/ast/visitor/thread_visitor.h"

namespace fl = fern::language;
using xml::Element;

namespace {

template<class T>
T const* as(fl::AstVertex const& v)
{
    return dynamic_cast<T const*>(&v);
}

std::string id(fl::AstVertex const* v)
{
    std::ostringstream s;
    s << v;
    return s.str();
}

using Edge = std::pair<std::string, std::string>;
using Edges = std::multiset<Edge>;

//! The text of a number, if \a v is one.
template<class T>
bool number(fl::AstVertex const& v, double& value)
{
    if(auto n = as<fl::NumberVertex<T>>(v)) {
        value = double(n->value());
        return true;
    }
    return false;
}

bool is_number(fl::AstVertex const& v, double& value)
{
    return number<int8_t>(v, value) || number<int16_t>(v, value) ||
        number<int32_t>(v, value) || number<int64_t>(v, value) ||
        number<uint8_t>(v, value) || number<uint16_t>(v, value) ||
        number<uint32_t>(v, value) || number<uint64_t>(v, value) ||
        number<float>(v, value) || number<double>(v, value);
}

//! All vertices, with a vertex before the ones it consists of.
struct Tree
{
    //! In a block: which one, by the vertices of the blocks around it.
    using Blocks = std::vector<fl::AstVertex const*>;

    std::vector<fl::AstVertex const*> vertices;
    std::map<fl::AstVertex const*, std::vector<fl::AstVertex const*>> children;
    std::set<fl::AstVertex const*> parameters;
    std::map<fl::AstVertex const*, Blocks> blocks;
    std::map<fl::AstVertex const*, std::string> scope_name;
    std::stack<std::string> names;
    Blocks         in;

    void add(fl::AstVertex const& v)
    {
        vertices.push_back(&v);
        children[&v];
        blocks[&v] = in;
    }

    void child(fl::AstVertex const& parent, fl::AstVertex const& v)
    {
        children[&parent].push_back(&v);
    }

    void module(fl::ModuleVertex const& v)
    {
        names.push(v.source_name());
        scope(*v.scope());
    }

    void scope(fl::ScopeVertex const& v)
    {
        add(v);
        scope_name[&v] = names.top();
        for(auto const& s: v.statements()) {
            child(v, *s);
            statement(*s);
        }
        add(*v.sentinel());
    }

    void block(fl::ScopeVertex const& v)
    {
        in.push_back(&v);
        scope(v);
        in.pop_back();
    }

    void statement(fl::StatementVertex const& v)
    {
        if(auto e = as<fl::ExpressionVertex>(v)) return expression(*e);
        add(v);
        if(auto a = as<fl::AssignmentVertex>(v)) {
            child(v, *a->target());
            child(v, *a->expression());
            expression(*a->target());
            expression(*a->expression());
        }
        else if(auto i = as<fl::IfVertex>(v)) {
            child(v, *i->condition());
            expression(*i->condition());
            block(*i->true_scope());
            block(*i->false_scope());
        }
        else if(auto w = as<fl::WhileVertex>(v)) {
            child(v, *w->condition());
            expression(*w->condition());
            block(*w->true_scope());
            block(*w->false_scope());
        }
        else if(auto r = as<fl::ReturnVertex>(v)) {
            if(r->expression()) {
                child(v, *r->expression());
                expression(*r->expression());
            }
        }
        else if(auto f = as<fl::FunctionDefinitionVertex>(v)) {
            for(auto const& x: f->arguments()) {
                parameters.insert(x.get());
                expression(*x);
            }
            names.push(f->name());
            scope(*f->scope());
            names.pop();
        }
    }

    void expression(fl::ExpressionVertex const& v)
    {
        add(v);
        if(auto o = as<fl::OperationVertex>(v)) {
            for(auto const& x: o->expressions()) {
                child(v, *x);
                expression(*x);
            }
        }
        else if(auto s = as<fl::SubscriptVertex>(v)) {
            child(v, *s->expression());
            child(v, *s->selection());
            expression(*s->expression());
            expression(*s->selection());
        }
        else if(auto a = as<fl::AttributeVertex>(v)) {
            child(v, *a->expression());
            expression(*a->expression());
        }
    }
};

//! The name that a vertex is shown by; nothing if there is more to it.
std::string symbol(fl::AstVertex const& v)
{
    if(auto o = as<fl::OperatorVertex>(v)) return o->symbol();
    if(auto s = as<fl::SubscriptVertex>(v)) return s->symbol();
    if(auto s = as<fl::StringVertex>(v)) return "\"" + s->value() + "\"";
    if(auto e = as<fl::ExpressionVertex>(v)) return e->name();
    if(as<fl::AssignmentVertex>(v)) return "=";
    if(as<fl::IfVertex>(v)) return "If";
    if(as<fl::WhileVertex>(v)) return "While";
    if(as<fl::ReturnVertex>(v)) return "return";
    if(as<fl::ScopeVertex>(v)) return "scope";
    if(as<fl::SentinelVertex>(v)) return "sentinel";
    if(auto f = as<fl::FunctionDefinitionVertex>(v)) return f->name();
    return "";
}

std::string describe(fl::AstVertex const& v)
{
    double value;
    std::string name = is_number(v, value) ? pbt::show(value) : symbol(v);
    return "'" + name + "' (" + std::to_string(v.line()) + ":" +
        std::to_string(v.col()) + ")";
}

class Script
{
public:

    Script(pbt::Case& c, fl::ModuleVertex const& module)
        : c(c)
    {
        tree.module(module);
        for(auto v: tree.vertices) vertices[id(v)] = v;
    }

    std::string describe(std::string const& id) const
    {
        auto it = vertices.find(id);
        return it == vertices.end() ? "something unknown (" + id + ")" :
            ::describe(*it->second);
    }

    std::string describe(Edge const& edge) const
    {
        return describe(edge.first) + " -> " + describe(edge.second);
    }

    //! Exactly the \a expected edges, except for some that are \a allowed.
    void compare(Edges const& got, Edges const& expected,
        Edges const& allowed, std::string const& kind) const
    {
        for(auto const& e: expected) {
            PBT_CHECK(got.count(e) >= expected.count(e), "no " << kind <<
                " edge " << describe(e));
        }
        for(auto const& e: got) {
            PBT_CHECK(got.count(e) <= expected.count(e) + allowed.count(e),
                kind << " edge that is not in the script: " << describe(e));
        }
    }

    //! The label of vertex \a v must be \a first, and maybe more lines.
    void label(dot::Node const& node, fl::AstVertex const& v,
        std::string const& rest) const
    {
        auto it = node.attributes.find("label");
        PBT_CHECK(it != node.attributes.end(), ::describe(v) <<
            " has no label");
        std::string got = dot::shown(it->second);
        double value;
        if(is_number(v, value)) {
            auto end = got.find('\n');
            PBT_EQ(end == std::string::npos ? "" : got.substr(end), rest,
                "types of number " << value);
            std::string text = got.substr(0, end);
            char* rest;
            double shown = std::strtod(text.c_str(), &rest);
            PBT_CHECK(!text.empty() && !*rest && std::abs(shown - value) <=
                1e-5 * std::abs(value), "number " << pbt::show(value) <<
                " is shown as " << pbt::show(text));
        }
        else {
            PBT_EQ(got, symbol(v) + rest, "label of " << ::describe(v));
        }
    }

    pbt::Case&     c;
    Tree           tree;
    std::map<std::string, fl::AstVertex const*> vertices;
};

Edges edges(dot::Graph const& graph)
{
    Edges result;
    for(auto const& e: graph.edges) result.emplace(e.from, e.to);
    return result;
}

//! Without the edges of \a other.
Edges without(Edges edges, Edges const& other)
{
    for(auto const& e: other) {
        auto it = edges.find(e);
        if(it != edges.end()) edges.erase(it);
    }
    return edges;
}

template<class Visitor>
dot::Graph draw(pbt::Case& c, Visitor& visitor, fl::ModuleVertex& module)
{
    module.Accept(visitor);
    return dot::Reader(c, visitor.script()).read();
}

//! Some vertices get types.
void give_types(pbt::Case& c, Tree const& tree)
{
    using fern::DataTypes;
    using fern::ValueTypes;
    for(auto v: tree.vertices) {
        auto e = as<fl::ExpressionVertex>(*v);
        if(!e || !e->expression_types().is_empty() || c.chance(1, 2)) continue;
        const_cast<fl::ExpressionVertex*>(e)->add_result_type(
            fern::ExpressionType(c.pick<DataTypes>({DataTypes::CONSTANT,
                DataTypes::STATIC_FIELD, DataTypes::ALL}),
            c.pick<ValueTypes>({ValueTypes::INT32, ValueTypes::NUMBER,
                ValueTypes::FLOAT64, ValueTypes::STRING, ValueTypes::INT8 |
                ValueTypes::UINT8})));
    }
}

}  // namespace

PBT_TARGET(syntax_tree, 1000, 1, "at least twelve vertices, of which an "
    "operation, and successors, uses or types")
{
    script::Options options;
    options.attributes = c.chance(1, 6);
    options.one_position = c.chance(1, 4);
    options.whiles = c.chance(1, 3);
    bool threaded = !options.whiles && c.chance(1, 2);
    // A function of the script can only be called once.
    options.functions = !threaded;
    options.places = threaded || c.chance(1, 2);
    options.most_statements = c.size(1, 4);
    options.depth = c.size(1, 3);
    Element root = script::Generator(c, options).module();
    c.desc() << script::show(root) << "\n";
    auto module = fl::XmlParser().parse_string(xml::Writer(c).document(root));

    bool identified = c.chance(2, 3);
    if(identified) {
        fl::IdentifyVisitor visitor;
        module->Accept(visitor);
    }
    if(threaded) {
        fl::ThreadVisitor visitor;
        module->Accept(visitor);
    }

    Script script(c, *module);
    auto const& tree = script.tree;
    bool typed = c.chance(1, 2);
    if(typed) give_types(c, tree);

    // What there must be, and what there may be.
    std::set<std::string> nodes;
    Edges children, other_children, successors, other_successors, uses;
    bool operation = false;
    for(auto v: tree.vertices) {
        bool attribute = as<fl::AttributeVertex>(*v);
        operation = operation || as<fl::OperationVertex>(*v);
        if(!attribute && !tree.parameters.count(v)) nodes.insert(id(v));
        for(auto child: tree.children.at(v)) {
            (attribute ? other_children : children).emplace(id(v), id(child));
        }
        for(auto successor: v->successors()) {
            bool shown = (as<fl::ExpressionVertex>(*v) ||
                as<fl::AssignmentVertex>(*v)) && nodes.count(id(v));
            (shown ? successors : other_successors).emplace(id(v), id(
                successor));
        }
        if(auto name = as<fl::NameVertex>(*v)) {
            if(tree.parameters.count(v)) continue;
            for(auto use: name->uses()) uses.emplace(id(v), id(use));
        }
    }
    for(auto v: tree.vertices) {
        // Blocks need not be connected, but may be.
        auto allow = [&](fl::AstVertex const& child) {
            other_children.emplace(id(v), id(&child));
        };
        if(auto i = as<fl::IfVertex>(*v)) {
            allow(*i->true_scope());
            allow(*i->false_scope());
        }
        if(auto w = as<fl::WhileVertex>(*v)) {
            allow(*w->true_scope());
            allow(*w->false_scope());
        }
        if(auto f = as<fl::FunctionDefinitionVertex>(*v)) {
            allow(*f->scope());
            for(auto const& x: f->arguments()) allow(*x);
        }
    }

    fl::AstDotVisitor plain;
    auto graph = draw(c, plain, *module);

    // Vertices.
    for(auto const& n: nodes) {
        auto it = graph.nodes.find(n);
        PBT_CHECK(it != graph.nodes.end(), script.describe(n) <<
            " is not drawn");
        PBT_CHECK(it->second.nr_declarations == 1, script.describe(n) <<
            " is drawn " << it->second.nr_declarations << " times");
        auto const& v = *script.vertices.at(n);
        std::string types;
        auto e = as<fl::ExpressionVertex>(v);
        if(e && !as<fl::StringVertex>(v)) {
            auto const& all = e->expression_types();
            types = all.is_empty() ? "\ndt: -\nvt: -" :
                "\ndt: " + all[0].data_type().to_string() +
                "\nvt: " + all[0].value_type().to_string();
        }
        script.label(it->second, v, types);
    }
    for(auto const& n: graph.nodes) {
        PBT_CHECK(script.vertices.count(n.first), "something is drawn that is "
            "not in the script: " << n.first);
    }

    // What they consist of, in the same order.
    auto got = edges(graph);
    script.compare(got, children, other_children, "child");
    std::map<std::string, std::vector<std::string>> in_order;
    for(auto const& e: graph.edges) {
        if(children.count({e.from, e.to})) in_order[e.from].push_back(e.to);
    }
    for(auto v: tree.vertices) {
        std::vector<std::string> expected;
        if(as<fl::AttributeVertex>(*v)) continue;
        for(auto child: tree.children.at(v)) expected.push_back(id(child));
        PBT_CHECK(in_order[id(v)] == expected, "what " << ::describe(*v) <<
            " consists of is drawn in another order");
    }

    // Blocks, around the things in them.
    std::set<std::string> names;
    std::map<std::string, size_t> block_of;
    for(size_t i = 0; i < graph.subgraphs.size(); ++i) {
        PBT_CHECK(!graph.subgraphs[i].name.empty() && names.insert(graph.
            subgraphs[i].name).second, "two blocks are called " << graph.
            subgraphs[i].name);
    }
    for(auto const& e: graph.edges) {
        auto const& from = *script.vertices.at(e.from);
        if(!as<fl::ScopeVertex>(from) || !children.count({e.from, e.to})) {
            continue;
        }
        PBT_CHECK(!e.in.empty(), script.describe(Edge(e.from, e.to)) <<
            " is not in a block");
        auto it = block_of.emplace(e.from, e.in.back()).first;
        PBT_EQ(e.in.back(), it->second, "block of " << ::describe(from));
        PBT_EQ(dot::shown(graph.subgraphs[e.in.back()].label), tree.scope_name.
            at(&from), "label of block");
        c.label("block");
    }
    std::set<size_t> different;
    for(auto const& b: block_of) {
        PBT_CHECK(different.insert(b.second).second, "two blocks are drawn as "
            "one");
    }

    // Control flow and uses, in addition to that.
    fl::AstDotVisitor with_flow(fl::AstDotVisitor::ConnectingCfg);
    auto flow = edges(draw(c, with_flow, *module));
    script.compare(without(flow, got), successors, other_successors,
        "control flow");

    fl::AstDotVisitor with_uses(fl::AstDotVisitor::ConnectingUses);
    auto used = edges(draw(c, with_uses, *module));
    script.compare(without(used, got), uses, {}, "use");

    fl::AstDotVisitor with_both(fl::AstDotVisitor::ConnectingCfg |
        fl::AstDotVisitor::ConnectingUses);
    size_t nr = edges(draw(c, with_both, *module)).size();
    PBT_EQ(nr + got.size(), flow.size() + used.size(), "number of edges with "
        "both control flow and uses");

    // Again.
    PBT_CHECK(edges(draw(c, with_uses, *module)) == used, "drawn again, the "
        "graph is another one");

    c.nontrivial(nodes.size() >= 12 && operation && (typed || !successors.
        empty() || !uses.empty()));
    if(typed) c.label("types");
    if(!successors.empty()) c.label("control flow");
    if(!uses.empty()) c.label("uses");
    if(tree.scope_name.size() > 1) c.label("blocks in blocks");
}

PBT_TARGET(flow_graph, 1000, 1, "at least four edges, of which one from a "
    "definition to an operation")
{
    script::Options options;
    options.attributes = c.chance(1, 6);
    options.one_position = c.chance(1, 4);
    options.whiles = false;
    options.places = c.chance(1, 2);
    options.most_statements = c.size(2, 5);
    options.depth = c.size(1, 3);
    Element root = script::Generator(c, options).module();
    c.desc() << script::show(root) << "\n";
    auto module = fl::XmlParser().parse_string(xml::Writer(c).document(root));
    if(c.chance(4, 5)) {
        fl::IdentifyVisitor visitor;
        module->Accept(visitor);
    }
    Script script(c, *module);
    auto const& tree = script.tree;

    fl::FlowgraphDotVisitor visitor;
    auto graph = draw(c, visitor, *module);

    // Where the value of a vertex comes from.
    auto sources = [](fl::AstVertex const& v) {
        std::vector<std::string> result;
        auto name = as<fl::NameVertex>(v);
        if(name) for(auto d: name->definitions()) result.push_back(id(d));
        if(result.empty()) result.push_back(id(&v));
        return result;
    };

    std::set<std::string> nodes, other_nodes;
    std::set<fl::AstVertex const*> targets;
    Edges expected, allowed;
    // Edges of things in the blocks of an If are inside of a subgraph.
    std::map<Edge, std::vector<fl::AstVertex const*>> owners;
    bool used = false;
    for(auto v: tree.vertices) {
        auto name = as<fl::NameVertex>(*v);
        double value;
        if(name) {
            auto const& all = name->definitions();
            if(all.empty() || std::find(all.begin(), all.end(), v) !=
                    all.end()) {
                nodes.insert(id(v));
            }
        }
        else if(as<fl::OperationVertex>(*v) || as<fl::SubscriptVertex>(*v) ||
                as<fl::StringVertex>(*v) || is_number(*v, value) ||
                as<fl::IfVertex>(*v)) {
            nodes.insert(id(v));
        }
        else {
            other_nodes.insert(id(v));
        }

        auto connect = [&](fl::AstVertex const& from, fl::AstVertex const& to,
                Edges& result) {
            for(auto const& s: sources(from)) {
                result.emplace(s, id(&to));
                owners[Edge(s, id(&to))].push_back(v);
                if(s != id(&from) && &result == &expected) used = true;
            }
        };
        if(auto a = as<fl::AssignmentVertex>(*v)) {
            targets.insert(a->target().get());
            connect(*a->expression(), *a->target(), expected);
        }
        else if(as<fl::OperationVertex>(*v) || as<fl::SubscriptVertex>(*v)) {
            for(auto child: tree.children.at(v)) {
                connect(*child, *v, expected);
            }
        }
        else {
            for(auto child: tree.children.at(v)) connect(*child, *v, allowed);
        }
    }

    for(auto const& n: nodes) {
        auto it = graph.nodes.find(n);
        PBT_CHECK(it != graph.nodes.end(), script.describe(n) <<
            " is not drawn");
        PBT_CHECK(it->second.nr_declarations == 1, script.describe(n) <<
            " is drawn " << it->second.nr_declarations << " times");
        script.label(it->second, *script.vertices.at(n), "");
    }
    for(auto const& n: graph.nodes) {
        PBT_CHECK(nodes.count(n.first) || other_nodes.count(n.first),
            "drawn, while it is defined elsewhere or not in the script: " <<
            script.describe(n.first));
    }
    script.compare(edges(graph), expected, allowed, "flow");

    // Operands in the order of the operands.
    for(auto v: tree.vertices) {
        if(!as<fl::OperationVertex>(*v) || targets.count(v)) continue;
        std::vector<std::string> want, have;
        for(auto child: tree.children.at(v)) {
            for(auto const& s: sources(*child)) want.push_back(s);
        }
        for(auto const& e: graph.edges) {
            if(e.to == id(v)) have.push_back(e.from);
        }
        PBT_CHECK(want == have, "operands of " << ::describe(*v) <<
            " are drawn in another order");
    }

    // Branches.
    std::set<std::string> names;
    for(auto const& s: graph.subgraphs) {
        PBT_CHECK(!s.name.empty() && names.insert(s.name).second, "two "
            "branches are called " << s.name);
    }
    std::map<fl::AstVertex const*, std::vector<size_t>> subgraphs;
    for(auto const& e: graph.edges) {
        auto it = owners.find(Edge(e.from, e.to));
        if(it == owners.end() || it->second.size() != 1) continue;
        auto const& blocks = tree.blocks.at(it->second.front());
        PBT_EQ(e.in.size(), blocks.size(), "number of branches around " <<
            script.describe(Edge(e.from, e.to)));
        for(size_t i = 0; i < blocks.size(); ++i) {
            auto& all = subgraphs[blocks[i]];
            if(all.empty()) all.push_back(e.in[i]);
            PBT_CHECK(all[0] == e.in[i], script.describe(Edge(e.from, e.to)) <<
                " is drawn in another branch");
            c.label("branch");
        }
    }
    std::set<size_t> different;
    for(auto const& s: subgraphs) {
        PBT_CHECK(different.insert(s.second[0]).second, "two branches are "
            "drawn as one");
    }

    PBT_CHECK(edges(draw(c, visitor, *module)) == edges(graph), "drawn again, "
        "the graph is another one");
    c.nontrivial(expected.size() >= 4 && used);
    if(used) c.label("uses");
}
