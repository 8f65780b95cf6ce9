// P35: types of expressions follow from their parts; scripts that refer to
// what is not there, or that pass what does not fit, are refused.
#include <algorithm>
#include <cassert>
#include <map>
#include <memory>
#include <sstream>
#include <stack>
#include <string>
#include <vector>
#include "pbt.h"
#include "xml.h"
#include "script.h"
#include "fern/core/exception.h"
#include "fern/language/ast/core/vertices.h"
#include "fern/language/ast/xml/xml_parser.h"
#include "fern/language/ast/visitor/annotate_visitor.h"
#include "fern/language/ast/visitor/validate_visitor.h"
#include "fern/language/operation/core/operation.h"
#include "fern/language/operation/core/operations.h"

namespace fl = fern::language;
using fern::DataTypes;
using fern::ExpressionType;
using fern::ValueTypes;
using xml::Element;

namespace {

//! An operation whose result is of a certain type, or that of an argument.
class Operation: public fl::Operation
{

public:

    Operation(std::string const& name, std::vector<fl::Parameter> const& p,
            fl::Result const& result, int argument)
        : fl::Operation(name, "description of " + name, p, {result}),
          _argument(argument)
    {
    }

    ExpressionType expression_type(size_t,
        std::vector<ExpressionType> const& types) const override
    {
        asked.push_back(types);
        return type(types);
    }

    ExpressionType type(std::vector<ExpressionType> const& types) const
    {
        return _argument < 0 ? results()[0].expression_type() :
            types.at(_argument);
    }

    std::vector<std::shared_ptr<fl::Argument>> execute(
        std::vector<std::shared_ptr<fl::Argument>> const& arguments) const
        override
    {
        return arguments;
    }

    //! Types of the arguments it was asked for.
    mutable std::vector<std::vector<ExpressionType>> asked;

private:

    int            _argument;
};

DataTypes data_types(pbt::Case& c)
{
    return c.pick({DataTypes::ALL, DataTypes::ALL, DataTypes::CONSTANT,
        DataTypes::STATIC_FIELD});
}

ValueTypes value_types(pbt::Case& c, bool wide)
{
    if(wide && c.chance(3, 4)) return ValueTypes::ALL;
    return c.pick({ValueTypes::NUMBER, ValueTypes::INTEGER, ValueTypes::FLOAT32 | ValueTypes::FLOAT64,
        ValueTypes::STRING, ValueTypes::INT64, ValueTypes::FLOAT64,
        ValueTypes::UINT8});
}

ExpressionType type(pbt::Case& c)
{
    return ExpressionType(data_types(c), value_types(c, false));
}

using Operations = std::map<std::string, std::shared_ptr<Operation>>;

Operations operations(pbt::Case& c, std::vector<std::string> const& names,
    size_t least, size_t most)
{
    Operations result;
    for(auto const& name: names) {
        if(c.chance(1, 12)) continue;
        std::vector<fl::Parameter> parameters;
        size_t arity = least + c.draw(most - least + 1);
        bool choosy = c.chance(1, 4);
        for(size_t i = 0; i < arity; ++i) {
            parameters.emplace_back("p", "parameter", choosy ? data_types(c) :
                DataTypes::ALL, value_types(c, !choosy));
        }
        int argument = arity > 0 && c.chance(1, 2) ? int(c.draw(arity)) : -1;
        result[name] = std::make_shared<Operation>(name, parameters,
            fl::Result("r", "result", type(c)), argument);
    }
    return result;
}

//! What is wrong with a script.
struct Mistake
{
    std::string    kind, name, required, provided;
    long           line{0}, col{0};
    size_t         argument{0};
};

template<class T>
std::string print(T const& value)
{
    std::ostringstream stream;
    stream << value;
    return stream.str();
}

std::ostream& operator<<(std::ostream& stream, Mistake const& m)
{
    return stream << (m.kind.empty() ? "none" : m.kind) << " " << m.name <<
        " at " << m.line << ":" << m.col << " argument " << m.argument <<
        " required " << m.required << " provided " << m.provided;
}

bool operator==(Mistake const& a, Mistake const& b)
{
    return print(a) == print(b);
}

//! Types of all expressions, determined from the outside in.
class Reference
{
public:

    std::map<fl::ExpressionVertex const*, ExpressionType> types;
    std::map<fl::OperationVertex const*, Operation const*> called;
    std::map<Operation const*, size_t> nr_asked;
    std::vector<std::pair<Operation const*, std::vector<ExpressionType>>>
        asked;

    //! The first one, in the order of evaluation.
    Mistake mistake;

    Reference(Operations const& operations,
        std::map<std::string, ExpressionType> const& globals)
        : _operations(operations), _names(globals) {}

    void statement(fl::StatementVertex const& v)
    {
        if(auto a = dynamic_cast<fl::AssignmentVertex const*>(&v)) {
            auto type = expression(*a->expression());
            _names[a->target()->name()] = type;
            types[a->target().get()] = type;
        }
        else {
            expression(dynamic_cast<fl::ExpressionVertex const&>(v));
        }
    }

private:

    Operations const& _operations;
    std::map<std::string, ExpressionType> _names;

    void wrong(Mistake const& m)
    {
        if(mistake.kind.empty()) mistake = m;
    }

    template<class T>
    static bool number(fl::ExpressionVertex const& v, ValueTypes value,
        ExpressionType& type)
    {
        if(!dynamic_cast<fl::NumberVertex<T> const*>(&v)) return false;
        type = ExpressionType(DataTypes::CONSTANT, value);
        return true;
    }

    ExpressionType find(fl::ExpressionVertex const& v)
    {
        ExpressionType type;
        if(auto n = dynamic_cast<fl::NameVertex const*>(&v)) {
            auto it = _names.find(n->name());
            if(it != _names.end()) return it->second;
            Mistake m;
            m.kind = "undefined identifier";
            m.name = n->name();
            m.line = n->line();
            m.col = n->col();
            wrong(m);
            return type;
        }
        if(dynamic_cast<fl::StringVertex const*>(&v)) {
            return ExpressionType(DataTypes::CONSTANT, ValueTypes::STRING);
        }
        if(number<int8_t>(v, ValueTypes::INT8, type) ||
            number<int16_t>(v, ValueTypes::INT16, type) ||
            number<int32_t>(v, ValueTypes::INT32, type) ||
            number<int64_t>(v, ValueTypes::INT64, type) ||
            number<uint8_t>(v, ValueTypes::UINT8, type) ||
            number<uint16_t>(v, ValueTypes::UINT16, type) ||
            number<uint32_t>(v, ValueTypes::UINT32, type) ||
            number<uint64_t>(v, ValueTypes::UINT64, type) ||
            number<float>(v, ValueTypes::FLOAT32, type) ||
            number<double>(v, ValueTypes::FLOAT64, type)) return type;

        auto const& o = dynamic_cast<fl::OperationVertex const&>(v);
        std::vector<ExpressionType> arguments;
        for(auto const& x: o.expressions()) {
            arguments.push_back(expression(*x));
        }
        Mistake m;
        m.name = o.name();
        m.line = o.line();
        m.col = o.col();
        auto it = _operations.find(o.name());
        called[&o] = it == _operations.end() ? nullptr : it->second.get();
        if(it == _operations.end()) {
            m.kind = "undefined operation";
            wrong(m);
            return type;
        }
        auto const& operation = *it->second;
        if(arguments.size() != operation.parameters().size()) {
            m.kind = "wrong number of arguments";
            m.required = print(operation.parameters().size());
            m.provided = print(arguments.size());
            wrong(m);
            return type;
        }
        m.kind = "wrong type of argument";
        for(size_t i = 0; i < arguments.size(); ++i) {
            auto parameter = operation.parameters()[i].expression_types()[0];
            auto data = parameter.data_type(), d = arguments[i].data_type();
            auto value = parameter.value_type(), w = arguments[i].value_type();
            if((data | d) != data || (value | w) != value) {
                m.argument = i + 1;
                m.required = print(parameter);
                m.provided = print(arguments[i]);
                wrong(m);
                break;
            }
        }
        asked.push_back({&operation, arguments});
        return operation.type(arguments);
    }

    ExpressionType expression(fl::ExpressionVertex const& v)
    {
        auto type = find(v);
        types[&v] = type;
        return type;
    }
};

template<class Info, class E>
std::string info(E const& e)
{
    auto value = boost::get_error_info<Info>(e);
    return value ? print(*value) : "(none)";
}

//! What the visitor says is wrong.
template<class Visitor>
Mistake validate(Visitor& visitor, fl::ModuleVertex& tree)
{
    namespace fd = fern::detail;
    Mistake m;
    auto position = [&](boost::exception const& e) {
        m.line = std::stol(info<fd::ExceptionLineNr>(e));
        m.col = std::stol(info<fd::ExceptionColNr>(e));
    };
    try {
        tree.Accept(visitor);
    }
    catch(fd::UndefinedIdentifier const& e) {
        m.kind = "undefined identifier";
        m.name = info<fd::ExceptionIdentifier>(e);
        position(e);
    }
    catch(fd::UndefinedOperation const& e) {
        m.kind = "undefined operation";
        m.name = info<fd::ExceptionFunction>(e);
        position(e);
    }
    catch(fd::WrongNumberOfArguments const& e) {
        m.kind = "wrong number of arguments";
        m.name = info<fd::ExceptionFunction>(e);
        m.required = info<fd::ExceptionRequiredNrArguments>(e);
        m.provided = info<fd::ExceptionProvidedNrArguments>(e);
        position(e);
    }
    catch(fd::WrongTypeOfArgument const& e) {
        m.kind = "wrong type of argument";
        m.name = info<fd::ExceptionFunction>(e);
        m.required = info<fd::ExceptionRequiredArgumentTypes>(e);
        m.provided = info<fd::ExceptionProvidedArgumentTypes>(e);
        m.argument = std::stoul(info<fd::ExceptionArgumentId>(e));
        position(e);
    }
    return m;
}

void collect(Element& e, std::string const& tag, std::vector<Element*>& found)
{
    if(e.tag == tag) found.push_back(&e);
    for(auto& child: e.children) collect(child, tag, found);
}

}  // namespace

PBT_TARGET(validate, 1500, 1, "an operation is passed the result of another "
    "one, or a defined name")
{
    script::Options options;
    options.odd_text = false;
    options.functions = options.ifs = options.whiles = options.targets =
        options.parts = false;
    options.most_statements = 6;
    options.one_position = c.chance(1, 4);
    options.depth = c.size(1, 3);
    options.names.resize(c.size(1, 5));

    Element root = script::Generator(c, options).module();
    std::vector<std::string> functions{"f", "g", "h", "k", "abs", "slope"};
    auto all = operations(c, functions, 0, 3);
    // Operators take one or two arguments.
    for(auto const& o: operations(c, {"UnarySub", "UnaryAdd", "Not", "Invert"},
            1, 1)) all.insert(o);
    for(auto const& o: operations(c, {"add", "Sub", "Mult", "Div", "Mod", "Pow",
            "LShift", "RShift", "BitOr", "BitXor", "BitAnd", "FloorDiv", "And",
            "Or", "Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"}, 2, 2)) {
        all.insert(o);
    }
    std::vector<Element*> calls;
    collect(root, "FunctionCall", calls);
    for(auto call: calls) {
        std::vector<std::string> fit;
        for(auto const& name: functions) {
            auto it = all.find(name);
            if(it != all.end() && it->second->parameters().size() ==
                call->children[1].children.size()) fit.push_back(name);
        }
        call->children[0].text = fit.empty() || c.chance(1, 12) ?
            c.pick(functions) : c.pick(fit);
    }

    std::map<std::string, ExpressionType> globals;
    fern::SymbolTable<ExpressionType> table;
    table.push_scope();
    for(auto const& name: options.names) {
        if(c.chance(2, 3)) {
            globals[name] = type(c);
            table.add_value(name, globals[name]);
        }
    }
    for(auto const& g: globals) {
        c.desc() << g.first << ": " << g.second << "\n";
    }
    for(auto const& o: all) {
        c.desc() << o.first << ":";
        for(auto const& p: o.second->parameters()) {
            c.desc() << " " << p.expression_types();
        }
        c.desc() << " -> " << o.second->results()[0].expression_type() << "\n";
    }
    c.desc() << script::show(root);

    auto tree = fl::XmlParser().parse_string(xml::Writer(c).document(root));
    Reference reference(all, globals);
    for(auto const& s: tree->scope()->statements()) reference.statement(*s);

    std::vector<fl::OperationPtr> registered;
    for(auto const& o: all) registered.push_back(o.second);
    fl::AnnotateVisitor annotate(std::make_shared<fl::Operations>(registered));
    annotate.add_global_symbols(table);
    tree->Accept(annotate);

    bool nested = false;
    for(auto const& pair: reference.called) {
        auto const& v = *pair.first;
        PBT_CHECK(v.operation().get() == pair.second, "operation of " <<
            v.name() << " (" << v.line() << ":" << v.col() << ")");
        for(auto const& x: v.expressions()) {
            nested |= dynamic_cast<fl::OperationVertex const*>(x.get()) ||
                (dynamic_cast<fl::NameVertex const*>(x.get()) &&
                    reference.types[x.get()].defined());
        }
    }
    c.nontrivial(nested);
    for(auto const& pair: reference.types) {
        auto const& v = *pair.first;
        PBT_EQ(v.expression_types().size(), size_t(1), "number of types of " <<
            v.name());
        PBT_CHECK(v.expression_types()[0] == pair.second, "type of " <<
            v.name() << " (" << v.line() << ":" << v.col() << ") is " <<
            v.expression_types()[0] << " instead of " << pair.second);
    }
    for(auto const& o: all) {
        std::vector<std::vector<ExpressionType>> expected;
        for(auto const& a: reference.asked) {
            if(a.first == o.second.get()) expected.push_back(a.second);
        }
        // Whether an operation is asked once or more often does not matter.
        auto within = [](auto const& these, auto const& those) {
            return std::all_of(these.begin(), these.end(), [&](auto const& x) {
                return std::find(those.begin(), those.end(), x) !=
                    those.end(); });
        };
        PBT_CHECK(within(o.second->asked, expected) && within(expected,
            o.second->asked), "types of the arguments of " << o.first);
    }

    fl::ValidateVisitor visitor;
    auto got = validate(visitor, *tree);
    c.label(reference.mistake.kind.empty() ? "valid" :
        reference.mistake.kind);
    PBT_CHECK(got == reference.mistake, "the mistake that is found: " << got <<
        "; expected: " << reference.mistake);
}
