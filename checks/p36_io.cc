// P36: the inputs and outputs of a script are what it needs and defines.
#include <cassert>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "pbt.h"
#include "xml.h"
#include "script.h"
#include "fern/language/ast/core/vertices.h"
#include "fern/language/ast/xml/xml_parser.h"
#include "fern/language/ast/visitor/io_visitor.h"

namespace fl = fern::language;
using xml::Element;

namespace {

void names(fl::ExpressionVertex const& v, std::vector<std::string>& used)
{
    if(auto n = dynamic_cast<fl::NameVertex const*>(&v)) {
        used.push_back(n->name());
    }
    else if(auto o = dynamic_cast<fl::OperationVertex const*>(&v)) {
        for(auto const& x: o->expressions()) names(*x, used);
    }
    else if(auto s = dynamic_cast<fl::SubscriptVertex const*>(&v)) {
        names(*s->expression(), used);
        names(*s->selection(), used);
    }
    else if(auto a = dynamic_cast<fl::AttributeVertex const*>(&v)) {
        names(*a->expression(), used);
    }
}

std::string show(std::vector<std::string> const& names)
{
    std::string result = "{";
    for(auto const& name: names) result += " " + name;
    return result + " }";
}

}  // namespace

PBT_TARGET(inputs_and_outputs, 1500, 1, "a name is assigned to more than once, "
    "and there are other outputs, or a defined name is used")
{
    script::Options options;
    options.odd_text = false;
    options.functions = options.ifs = options.whiles = options.targets = false;
    options.most_statements = c.size(2, 10);
    options.one_position = c.chance(1, 4);
    options.depth = c.size(0, 3);
    options.names.push_back("e");
    options.names.resize(c.size(1, 6));
    fl::IOVisitor visitor;
    for(size_t n = c.chance(1, 4) ? 2 : 1; n > 0; --n) {
        Element root = script::Generator(c, options).module();
        c.desc() << script::show(root) << "\n";
        auto tree = fl::XmlParser().parse_string(xml::Writer(c).document(root));
        tree->Accept(visitor);

        // What is used, and not assigned to in an earlier statement.
        auto const& statements = tree->scope()->statements();
        std::vector<std::string> inputs;
        std::set<std::string> defined, used_defined, again;
        for(auto const& s: statements) {
            auto a = dynamic_cast<fl::AssignmentVertex const*>(s.get());
            std::vector<std::string> used;
            names(a ? *a->expression() : dynamic_cast<
                fl::ExpressionVertex const&>(*s), used);
            for(auto const& name: used) {
                if(defined.count(name)) used_defined.insert(name);
                else if(std::find(inputs.begin(), inputs.end(), name) ==
                    inputs.end()) inputs.push_back(name);
            }
            if(a && !defined.insert(a->target()->name()).second) {
                again.insert(a->target()->name());
            }
        }
        PBT_CHECK(visitor.inputs() == inputs, "inputs are " << ::show(
            visitor.inputs()) << " instead of " << ::show(inputs));

        // The targets that no later statement assigns to.
        std::vector<fl::NameVertex const*> outputs;
        for(size_t i = 0; i < statements.size(); ++i) {
            auto a = dynamic_cast<fl::AssignmentVertex const*>(
                statements[i].get());
            bool last = a != nullptr;
            for(size_t j = i + 1; last && j < statements.size(); ++j) {
                auto b = dynamic_cast<fl::AssignmentVertex const*>(
                    statements[j].get());
                last = !b || b->target()->name() != a->target()->name();
            }
            if(last) outputs.push_back(dynamic_cast<fl::NameVertex const*>(
                a->target().get()));
        }
        std::vector<std::string> got, expected;
        for(auto v: visitor.outputs()) got.push_back(v->name() + "@" +
            std::to_string(v->line()) + ":" + std::to_string(v->col()));
        for(auto v: outputs) expected.push_back(v->name() + "@" +
            std::to_string(v->line()) + ":" + std::to_string(v->col()));
        PBT_CHECK(visitor.outputs() == outputs, "outputs are " << ::show(got) <<
            " instead of " << ::show(expected));
        c.nontrivial((!again.empty() && outputs.size() > 1) ||
            !used_defined.empty());
        if(!again.empty()) c.label("assigned again");
        if(!used_defined.empty()) c.label("defined name used");
        if(!inputs.empty()) c.label("inputs");
    }
}
