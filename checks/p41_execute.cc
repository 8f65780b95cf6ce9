// P41: executing a script evaluates its statements, in order.
#include <cassert>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <vector>
#include "pbt.h"
#include "gen.h"
#include "xml.h"
#include "script.h"
#include "fern/language/ast/core/vertices.h"
#include "fern/language/ast/xml/xml_parser.h"
#include "fern/language/feature/core/attributes.h"
#include "fern/language/operation/core/attribute_argument.h"
#include "fern/language/operation/core/operation.h"
#include "fern/language/operation/core/operations.h"
#include "fern/language/interpreter/data_source.h"
#include "fern/language/interpreter/data_sync.h"
#include "fern/language/interpreter/execute_visitor.h"

namespace fl = fern::language;
using xml::Element;

namespace {

using Argument = std::shared_ptr<fl::Argument>;
using Strings = std::vector<std::string>;

Argument argument(std::string const& value)
{
    return std::make_shared<fl::AttributeArgument>(std::make_shared<
        fl::ConstantAttribute<std::string>>(value));
}

template<class T>
bool number(fl::Attribute const& a, std::string const& type,
    std::string& result)
{
    auto n = dynamic_cast<fl::ConstantAttribute<T> const*>(&a);
    if(n) result = type + pbt::show(n->values().value());
    return n;
}

//! The value as text, with its type.
std::string value_of(fl::Argument const& argument)
{
    auto a = dynamic_cast<fl::AttributeArgument const*>(&argument);
    if(!a) return "something else";
    auto const& attribute = *a->attribute();
    if(auto s = dynamic_cast<fl::ConstantAttribute<std::string> const*>(
            &attribute)) return s->values().value();
    std::string result = "unknown";
    number<int8_t>(attribute, "i8:", result) ||
        number<int16_t>(attribute, "i16:", result) ||
        number<int32_t>(attribute, "i32:", result) ||
        number<int64_t>(attribute, "i64:", result) ||
        number<uint8_t>(attribute, "u8:", result) ||
        number<uint16_t>(attribute, "u16:", result) ||
        number<uint32_t>(attribute, "u32:", result) ||
        number<uint64_t>(attribute, "u64:", result) ||
        number<float>(attribute, "f32:", result) ||
        number<double>(attribute, "f64:", result);
    return result;
}

//! What happened, in order.
struct Log: Strings
{
};

std::string call(std::string const& name, Strings const& arguments)
{
    std::string result = name + "(";
    for(size_t i = 0; i < arguments.size(); ++i) {
        result += (i ? ", " : "") + arguments[i];
    }
    return result + ")";
}

class Operation: public fl::Operation
{

public:

    Operation(std::string const& name, size_t arity, size_t nr_results,
            Log& log)
        : fl::Operation(name, "description", std::vector<fl::Parameter>(arity,
                fl::Parameter("p", "description", fern::DataTypes::ALL,
                    fern::ValueTypes::ALL)),
            std::vector<fl::Result>(nr_results, fl::Result("r", "description",
                fern::ExpressionType(fern::DataTypes::ALL,
                    fern::ValueTypes::ALL)))),
          _nr_results(nr_results), _log(log)
    {
    }

    fern::ExpressionType expression_type(size_t,
        std::vector<fern::ExpressionType> const&) const override
    {
        return fern::ExpressionType(fern::DataTypes::ALL,
            fern::ValueTypes::ALL);
    }

    std::vector<Argument> execute(std::vector<Argument> const& arguments) const
        override
    {
        Strings values;
        for(auto const& a: arguments) values.push_back(value_of(*a));
        std::string result = call(name(), values);
        _log.push_back(result);
        std::vector<Argument> results;
        for(size_t i = 0; i < _nr_results; ++i) {
            results.push_back(argument(result + (_nr_results > 1 ? "#" +
                std::to_string(i) : "")));
        }
        return results;
    }

private:

    size_t         _nr_results;
    Log&           _log;
};

class Source: public fl::DataSource
{

public:

    Source(std::string const& name, std::string const& value, Log& log)
        : _name(name), _value(value), _log(log)
    {
    }

    fern::ExpressionType const& expression_type() const override
    {
        return _type;
    }

    Argument read() const override
    {
        _log.push_back("read " + _name + " " + _value);
        return argument(_value);
    }

private:

    fern::ExpressionType _type;
    std::string    _name;
    std::string    _value;
    Log&           _log;
};

class Sync: public fl::DataSync
{

public:

    Sync(std::string const& name, Log& log): _name(name), _log(log) {}

    void write(fl::Argument const& argument) override
    {
        _log.push_back("write " + _name + " " + value_of(argument));
    }

private:

    std::string    _name;
    Log&           _log;
};

//! What must happen.
struct Model
{
    std::map<std::string, std::string> values;
    std::map<std::string, std::string> sources;
    std::map<std::string, std::string> syncs;
    std::map<std::string, size_t> nr_results;
    Strings        stack;
    Log            log;
    bool           nested{false};
    bool           reassigned{false};
    bool           from_before{false};

    void script(fl::ModuleVertex const& module)
    {
        auto const& statements = module.scope()->statements();
        std::set<std::string> here;
        for(size_t i = 0; i < statements.size(); ++i) {
            auto a = dynamic_cast<fl::AssignmentVertex const*>(
                statements[i].get());
            if(!a) {
                expression(dynamic_cast<fl::ExpressionVertex const&>(
                    *statements[i]));
                continue;
            }
            expression(*a->expression());
            std::string name = a->target()->name();
            bool last = true;
            for(size_t j = i + 1; j < statements.size(); ++j) {
                auto b = dynamic_cast<fl::AssignmentVertex const*>(
                    statements[j].get());
                last = last && !(b && b->target()->name() == name);
            }
            if(last && syncs.count(name)) {
                log.push_back("write " + syncs[name] + " " + stack.back());
            }
            if(!here.insert(name).second) reassigned = true;
            values[name] = stack.back();
            stack.pop_back();
        }
    }

    void expression(fl::ExpressionVertex const& v)
    {
        if(auto o = dynamic_cast<fl::OperationVertex const*>(&v)) {
            Strings arguments;
            for(auto const& x: o->expressions()) {
                if(dynamic_cast<fl::OperationVertex const*>(x.get())) {
                    nested = true;
                }
                expression(*x);
                arguments.push_back(stack.back());
                stack.pop_back();
            }
            std::string result = call(o->name(), arguments);
            log.push_back(result);
            size_t n = nr_results.at(o->name());
            for(size_t i = 0; i < n; ++i) {
                stack.push_back(result + (n > 1 ? "#" + std::to_string(i) :
                    ""));
            }
        }
        else if(auto s = dynamic_cast<fl::StringVertex const*>(&v)) {
            stack.push_back(s->value());
        }
        else if(dynamic_cast<fl::NameVertex const*>(&v)) {
            auto it = values.find(v.name());
            if(it == values.end()) {
                it = values.emplace(v.name(), sources.at(v.name())).first;
                log.push_back("read " + v.name() + " " + it->second);
            }
            stack.push_back(it->second);
        }
        else {
            std::string result;
            number<int8_t>(v, "i8:", result) ||
                number<int16_t>(v, "i16:", result) ||
                number<int32_t>(v, "i32:", result) ||
                number<int64_t>(v, "i64:", result) ||
                number<uint8_t>(v, "u8:", result) ||
                number<uint16_t>(v, "u16:", result) ||
                number<uint32_t>(v, "u32:", result) ||
                number<uint64_t>(v, "u64:", result) ||
                number<float>(v, "f32:", result) ||
                number<double>(v, "f64:", result);
            stack.push_back(result);
        }
    }

    template<class T>
    static bool number(fl::ExpressionVertex const& v, std::string const& type,
        std::string& result)
    {
        auto n = dynamic_cast<fl::NumberVertex<T> const*>(&v);
        if(n) result = type + pbt::show(n->value());
        return n;
    }
};

void collect_names(Element const& e, std::set<std::string>& names)
{
    // Names of operations aren't expressions.
    if(e.tag == "Expression" && e.children[0].tag == "Name") {
        names.insert(e.children[0].text);
    }
    for(auto const& child: e.children) collect_names(child, names);
}

//! Calls, and the number of operands they have.
void collect_operations(Element const& e, std::set<std::pair<std::string,
    size_t>>& operations)
{
    if(e.tag == "FunctionCall" || e.tag == "Operator") {
        operations.emplace(e.children[0].text, e.children[1].children.size());
    }
    for(auto const& child: e.children) collect_operations(child, operations);
}

//! Lets each function always be called with the same number of arguments.
void name_by_arity(Element& e)
{
    if(e.tag == "FunctionCall") {
        e.children[0].text += std::to_string(e.children[1].children.size());
    }
    for(auto& child: e.children) name_by_arity(child);
}

Strings contents(std::stack<Argument> stack)
{
    Strings result;
    for(; !stack.empty(); stack.pop()) {
        result.insert(result.begin(), value_of(*stack.top()));
    }
    return result;
}

std::string show(Strings const& strings)
{
    std::string result;
    for(auto const& s: strings) result += (result.empty() ? "" : "; ") + s;
    return "[" + result + "]";
}

}  // namespace

PBT_TARGET(execute, 1200, 1, "operations as operands, a name that is assigned "
    "to twice, or a value of an earlier script")
{
    script::Options options;
    options.functions = false;
    options.ifs = false;
    options.whiles = false;
    options.targets = false;
    options.parts = false;
    options.most_statements = c.size(1, 6);
    options.depth = c.size(1, 4);

    std::vector<Element> roots;
    std::set<std::pair<std::string, size_t>> called;
    for(size_t n = c.size(1, 3); n > 0; --n) {
        roots.push_back(script::Generator(c, options).module());
        name_by_arity(roots.back());
        collect_operations(roots.back(), called);
    }
    // Functions that are called by a statement on its own may have another
    // number of results.
    Model model;
    Log log;
    std::vector<std::shared_ptr<fl::Operation>> operations;
    for(auto const& o: called) {
        model.nr_results[o.first] = 1;
        operations.push_back(std::make_shared<Operation>(o.first, o.second, 1,
            log));
    }
    for(size_t n: {0, 2, 3}) {
        std::string name = "results" + std::to_string(n);
        model.nr_results[name] = n;
        operations.push_back(std::make_shared<Operation>(name, 1, n, log));
        for(auto& root: roots) {
            if(!c.chance(1, 4)) continue;
            Element statement("Statement"), e("Expression"), f("FunctionCall"),
                arguments("Expressions"), argument("Expression");
            for(auto x: {&statement, &e, &argument}) {
                x->attribute("line", "1").attribute("col", "0");
            }
            argument.children.emplace_back("String", "text");
            arguments.children.push_back(argument);
            f.children.emplace_back("Name", name);
            f.children.push_back(arguments);
            e.children.push_back(f);
            statement.children.push_back(e);
            auto& statements = root.children[0].children;
            statements.insert(statements.begin() + c.draw(statements.size() +
                1), statement);
        }
    }

    fl::ExecuteVisitor visitor(std::make_shared<fl::Operations>(operations));
    size_t nr = 0;
    for(auto& root: roots) {
        auto tree = fl::XmlParser().parse_string(xml::Writer(c).document(
            root));
        std::set<std::string> names;
        collect_names(root, names);
        c.desc() << script::show(root) << "\n";

        bool all_known = true;
        for(auto const& name: names) {
            all_known = all_known && (model.values.count(name) ||
                model.sources.count(name));
        }
        if(!all_known || c.chance(1, 3)) {
            // Other sources, replacing values of the same names.
            fern::SymbolTable<std::shared_ptr<fl::DataSource>> table;
            table.push_scope();
            model.sources.clear();
            for(auto const& name: names) {
                if(model.values.count(name) && c.chance(1, 2)) continue;
                std::string value = "value" + std::to_string(nr++);
                table.add_value(name, std::make_shared<Source>(name, value,
                    log));
                model.sources[name] = value;
                model.values.erase(name);
            }
            visitor.set_data_source_symbols(table);
        }
        if(c.chance(2, 3)) {
            fern::SymbolTable<std::shared_ptr<fl::DataSync>> table;
            model.syncs.clear();
            if(c.chance(7, 8)) {
                table.push_scope();
                for(auto const& name: options.names) {
                    if(c.chance(1, 2)) continue;
                    std::string target = "sync" + std::to_string(nr++);
                    table.add_value(name, std::make_shared<Sync>(target, log));
                    model.syncs[name] = target;
                }
            }
            visitor.set_data_sync_symbols(table);
        }
        for(auto const& name: names) {
            if(model.values.count(name)) model.from_before = true;
        }

        log.clear();
        model.log.clear();
        model.script(*tree);
        tree->Accept(visitor);
        PBT_CHECK(static_cast<Strings&>(log) == model.log, "other things "
            "happened: " << ::show(log) << " instead of " << ::show(
                model.log));
        PBT_CHECK(contents(visitor.stack()) == model.stack, "other results: "
            << ::show(contents(visitor.stack())) << " instead of " << ::show(
                model.stack));
        for(auto const& name: options.names) {
            PBT_EQ(visitor.symbol_table().has_value(name), model.values.count(
                name) == 1, "whether " << name << " has a value");
            if(model.values.count(name)) {
                PBT_EQ(value_of(*visitor.symbol_table().value(name)),
                    model.values[name], "value of " << name);
            }
        }
        if(c.chance(1, 3)) {
            visitor.clear_stack();
            model.stack.clear();
            PBT_CHECK(visitor.stack().empty(), "results after clearing");
        }
    }
    c.nontrivial(model.nested || model.reassigned || model.from_before);
    if(model.nested) c.label("operations as operands");
    if(model.reassigned) c.label("assigned twice");
    if(model.from_before) c.label("values of an earlier script");
}
