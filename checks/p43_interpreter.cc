// P43: an interpreter executes scripts that are valid, and nothing of those
// that are not.
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <vector>
#include "pbt.h"
#include "gen.h"
#include "xml.h"
#include "script.h"
#include "fern/core/exception.h"
#include "fern/core/io_error.h"
#include "fern/core/parse_error.h"
#include "fern/core/validate_error.h"
#include "fern/language/ast/core/vertices.h"
#include "fern/language/ast/xml/xml_parser.h"
#include "fern/language/feature/core/attributes.h"
#include "fern/language/operation/core/attribute_argument.h"
#include "fern/language/operation/core/operation.h"
#include "fern/language/operation/core/operations.h"
#include "fern/language/operation/std/operations.h"
#include "fern/language/interpreter/constant_source.h"
#include "fern/language/interpreter/data_source.h"
#include "fern/language/interpreter/data_sync.h"
#include "fern/language/interpreter/interpreter.h"
#include "fern/language/script/algebra_parser.h"

namespace fl = fern::language;
namespace fd = fern::detail;
using fern::DataTypes;
using fern::ExpressionType;
using fern::ValueTypes;
using xml::Element;

namespace {

//! Operations of interpreters that are made.
std::shared_ptr<fl::Operations> known_operations;

//! What the parser of scripts does with its argument.
struct Parsed
{
    enum Kind { tree, error, unsupported, io } kind{tree};
    std::string    xml, source, statement, message;
    long           line{0}, col{0};
    bool           has_statement{false};
    int            error_nr{0};
};
std::map<std::string, Parsed> strings, files;

std::string parse(Parsed const& p)
{
    switch(p.kind) {
        case Parsed::tree: return p.xml;
        case Parsed::io: {
            BOOST_THROW_EXCEPTION(fd::IOError()
                << fd::ExceptionSourceName(p.source)
                << boost::errinfo_errno(p.error_nr));
        }
        case Parsed::unsupported: {
            BOOST_THROW_EXCEPTION(fd::UnsupportedLanguageConstruct()
                << fd::ExceptionSourceName(p.source)
                << fd::ExceptionConstruct(p.message)
                << fd::ExceptionLineNr(p.line)
                << fd::ExceptionColNr(p.col));
        }
        case Parsed::error: break;
    }
    fd::ParseError e;
    e << fd::ExceptionSourceName(p.source)
        << fd::ExceptionLineNr(p.line)
        << fd::ExceptionColNr(p.col)
        << fd::ExceptionMessage(p.message);
    if(p.has_statement) e << fd::ExceptionStatement(p.statement);
    BOOST_THROW_EXCEPTION(e);
}

}  // namespace

// Stand-ins: the parser of the algebra's text needs an older Python, and
// operations of the standard library need the rest of the world.
namespace fern {
namespace python {

Client::Client() {}
Client::~Client() {}

}  // namespace python

namespace language {

std::shared_ptr<Operations> const& operations()
{
    return known_operations;
}

AlgebraParser::AlgebraParser() {}

std::string AlgebraParser::parse_string(std::string const& string) const
{
    return ::parse(strings.at(string));
}

std::string AlgebraParser::parse_file(std::string const& filename) const
{
    return ::parse(files.at(filename));
}

}  // namespace language
}  // namespace fern

namespace {

using Argument = std::shared_ptr<fl::Argument>;
using Strings = std::vector<std::string>;

//! Types that values have here, by what they look like.
ExpressionType type_of(std::string const& value)
{
    std::string prefix = value.substr(0, value.find(':'));
    auto constant = [](ValueTypes const& v) {
        return ExpressionType(DataTypes::CONSTANT, v); };
    if(prefix == "s") return constant(ValueTypes::STRING);
    if(prefix == "i8") return constant(ValueTypes::INT8);
    if(prefix == "i16") return constant(ValueTypes::INT16);
    if(prefix == "i32") return constant(ValueTypes::INT32);
    if(prefix == "i64") return constant(ValueTypes::INT64);
    if(prefix == "u8") return constant(ValueTypes::UINT8);
    if(prefix == "u16") return constant(ValueTypes::UINT16);
    if(prefix == "u32") return constant(ValueTypes::UINT32);
    if(prefix == "u64") return constant(ValueTypes::UINT64);
    if(prefix == "f32") return constant(ValueTypes::FLOAT32);
    if(prefix == "f64") return constant(ValueTypes::FLOAT64);
    return ExpressionType();
}

std::vector<std::string> const prefixes{"f64", "s", "i64", "u16", "f32"};

template<class T>
Argument constant(T const& value)
{
    return std::make_shared<fl::AttributeArgument>(std::make_shared<
        fl::ConstantAttribute<T>>(value));
}

std::string text(std::string const& prefix, size_t nr)
{
    if(prefix == "s") return "s:value" + std::to_string(nr);
    if(prefix == "i64") return "i64:" + pbt::show(int64_t(nr));
    if(prefix == "u16") return "u16:" + pbt::show(uint16_t(nr));
    if(prefix == "f32") return "f32:" + pbt::show(float(nr));
    return "f64:" + pbt::show(double(nr));
}

//! An argument that is unlike the other ones of the same type.
Argument argument(std::string const& prefix, size_t nr)
{
    if(prefix == "s") return constant("value" + std::to_string(nr));
    if(prefix == "i64") return constant(int64_t(nr));
    if(prefix == "u16") return constant(uint16_t(nr));
    if(prefix == "f32") return constant(float(nr));
    return constant(double(nr));
}

template<class T>
bool number(fl::Attribute const& a, std::string const& type,
    std::string& result)
{
    auto n = dynamic_cast<fl::ConstantAttribute<T> const*>(&a);
    if(n) result = type + pbt::show(n->values().value());
    return n;
}

std::string value_of(fl::Argument const& argument)
{
    auto a = dynamic_cast<fl::AttributeArgument const*>(&argument);
    if(!a) return "something else";
    auto const& attribute = *a->attribute();
    if(auto s = dynamic_cast<fl::ConstantAttribute<std::string> const*>(
            &attribute)) return "s:" + s->values().value();
    std::string result = "unknown";
    number<int8_t>(attribute, "i8:", result) ||
        number<int16_t>(attribute, "i16:", result) ||
        number<int32_t>(attribute, "i32:", result) ||
        number<int64_t>(attribute, "i64:", result) ||
        number<uint8_t>(attribute, "u8:", result) ||
        number<uint16_t>(attribute, "u16:", result) ||
        number<uint32_t>(attribute, "u32:", result) ||
        number<uint64_t>(attribute, "u64:", result) ||
        number<float>(attribute, "f32:", result) ||
        number<double>(attribute, "f64:", result);
    return result;
}

std::string call(std::string const& name, Strings const& arguments,
    std::string const& result)
{
    std::string s = name + "(";
    for(size_t i = 0; i < arguments.size(); ++i) {
        s += (i ? ", " : "") + arguments[i];
    }
    return s + ") = " + result;
}

//! What happened, in order.
Strings happened;
size_t nr_calls = 0;

class Operation: public fl::Operation
{

public:

    Operation(std::string const& name, std::vector<fl::Parameter> const& p,
            std::string const& prefix)
        : fl::Operation(name, "description", p, {fl::Result("r", "result",
                type_of(prefix + ":"))}),
          _prefix(prefix)
    {
    }

    ExpressionType expression_type(size_t,
        std::vector<ExpressionType> const&) const override
    {
        return results()[0].expression_type();
    }

    std::vector<Argument> execute(std::vector<Argument> const& arguments) const
        override
    {
        Strings values;
        for(auto const& a: arguments) values.push_back(value_of(*a));
        auto result = ::argument(_prefix, ++nr_calls);
        happened.push_back(call(name(), values, value_of(*result)));
        return {result};
    }

    std::string const& prefix() const { return _prefix; }

private:

    std::string    _prefix;
};

using Operations = std::map<std::string, std::shared_ptr<Operation>>;

ValueTypes value_types(pbt::Case& c, bool wide)
{
    if(wide) return ValueTypes::ALL;
    return c.pick({ValueTypes::NUMBER, ValueTypes::NUMBER, ValueTypes::INTEGER,
        ValueTypes::FLOAT32 | ValueTypes::FLOAT64, ValueTypes::STRING});
}

void make_operations(pbt::Case& c, Strings const& names, size_t least,
    size_t most, Operations& operations)
{
    for(auto const& name: names) {
        if(c.chance(1, 25)) continue;
        std::vector<fl::Parameter> parameters;
        size_t arity = least + c.draw(most - least + 1);
        for(size_t i = 0; i < arity; ++i) {
            parameters.emplace_back("p", "parameter", DataTypes::ALL,
                value_types(c, c.chance(3, 4)));
        }
        operations[name] = std::make_shared<Operation>(name, parameters,
            c.pick(prefixes));
    }
}

class Source: public fl::DataSource
{

public:

    Source(std::string const& name, std::string const& prefix, size_t nr)
        : _type(type_of(prefix + ":")), _name(name), _prefix(prefix), _nr(nr)
    {
    }

    ExpressionType const& expression_type() const override { return _type; }

    Argument read() const override
    {
        happened.push_back("read " + _name + " " + text(_prefix, _nr));
        return argument(_prefix, _nr);
    }

private:

    ExpressionType _type;
    std::string    _name;
    std::string    _prefix;
    size_t         _nr;
};

class Sync: public fl::DataSync
{

public:

    Sync(std::string const& name): _name(name) {}

    void write(fl::Argument const& argument) override
    {
        happened.push_back("write " + _name + " " + value_of(argument));
    }

private:

    std::string    _name;
};

template<class T>
std::string print(T const& value)
{
    std::ostringstream stream;
    stream << value;
    return stream.str();
}

struct Mistake
{
    long           line, col;
    std::string    message;
};

using Values = std::map<std::string, std::string>;

//! What is wrong with a script, whatever the order in which that is found.
class Mistakes
{
public:

    std::vector<Mistake> found;

    Mistakes(Operations const& operations, Values const& values)
        : _operations(operations)
    {
        for(auto const& v: values) _types[v.first] = type_of(v.second);
    }

    void statement(fl::StatementVertex const& v)
    {
        if(auto a = dynamic_cast<fl::AssignmentVertex const*>(&v)) {
            auto type = expression(*a->expression());
            _types[a->target()->name()] = type;
        }
        else {
            expression(dynamic_cast<fl::ExpressionVertex const&>(v));
        }
    }

private:

    Operations const& _operations;
    std::map<std::string, ExpressionType> _types;

    void add(fl::AstVertex const& v, std::string const& message)
    {
        found.push_back({v.line(), v.col(), message});
    }

    template<class T>
    static bool number(fl::ExpressionVertex const& v, ValueTypes value,
        ExpressionType& type)
    {
        if(!dynamic_cast<fl::NumberVertex<T> const*>(&v)) return false;
        type = ExpressionType(DataTypes::CONSTANT, value);
        return true;
    }

    //! An unknown type follows from a mistake that was found already.
    ExpressionType expression(fl::ExpressionVertex const& v)
    {
        auto const& messages = fern::Exception::messages();
        ExpressionType type;
        if(dynamic_cast<fl::NameVertex const*>(&v)) {
            auto it = _types.find(v.name());
            if(it != _types.end()) type = it->second;
            if(!type.defined()) {
                add(v, messages.format_message(
                    fern::MessageId::UNDEFINED_IDENTIFIER, v.name()));
            }
            return type;
        }
        if(dynamic_cast<fl::StringVertex const*>(&v)) return type_of("s:");
        if(number<int8_t>(v, ValueTypes::INT8, type) ||
            number<int16_t>(v, ValueTypes::INT16, type) ||
            number<int32_t>(v, ValueTypes::INT32, type) ||
            number<int64_t>(v, ValueTypes::INT64, type) ||
            number<uint8_t>(v, ValueTypes::UINT8, type) ||
            number<uint16_t>(v, ValueTypes::UINT16, type) ||
            number<uint32_t>(v, ValueTypes::UINT32, type) ||
            number<uint64_t>(v, ValueTypes::UINT64, type) ||
            number<float>(v, ValueTypes::FLOAT32, type) ||
            number<double>(v, ValueTypes::FLOAT64, type)) return type;

        auto const& o = dynamic_cast<fl::OperationVertex const&>(v);
        std::vector<ExpressionType> arguments;
        for(auto const& x: o.expressions()) {
            arguments.push_back(expression(*x));
        }
        auto it = _operations.find(o.name());
        if(it == _operations.end()) {
            add(v, messages.format_message(
                fern::MessageId::UNDEFINED_OPERATION, o.name()));
            return type;
        }
        auto const& operation = *it->second;
        if(arguments.size() != operation.parameters().size()) {
            add(v, messages.format_message(
                fern::MessageId::WRONG_NUMBER_OF_ARGUMENTS, o.name(),
                operation.parameters().size(), arguments.size()));
            return type;
        }
        for(size_t i = 0; i < arguments.size(); ++i) {
            if(!arguments[i].defined()) continue;
            auto parameter = operation.parameters()[i].expression_types()[0];
            auto value = parameter.value_type(), w = arguments[i].value_type();
            if((value | w) != value) {
                add(v, messages.format_message(
                    fern::MessageId::WRONG_TYPE_OF_ARGUMENT, i + 1, o.name(),
                    print(parameter), print(arguments[i])));
            }
        }
        return operation.results()[0].expression_type();
    }
};

//! What must happen.
struct Model
{
    Values         values;
    Strings        stack;
    Strings        log;
    size_t         nr_calls{0};

    void execute(fl::ModuleVertex const& module, Operations const& operations,
        Values const& sources, Values const& syncs)
    {
        for(auto const& s: sources) values.erase(s.first);
        auto const& statements = module.scope()->statements();
        for(size_t i = 0; i < statements.size(); ++i) {
            auto a = dynamic_cast<fl::AssignmentVertex const*>(
                statements[i].get());
            if(!a) {
                stack.push_back(expression(dynamic_cast<
                    fl::ExpressionVertex const&>(*statements[i]), operations,
                    sources));
                continue;
            }
            std::string value = expression(*a->expression(), operations,
                sources);
            std::string name = a->target()->name();
            bool last = true;
            for(size_t j = i + 1; j < statements.size(); ++j) {
                auto b = dynamic_cast<fl::AssignmentVertex const*>(
                    statements[j].get());
                last = last && !(b && b->target()->name() == name);
            }
            if(last && syncs.count(name)) {
                log.push_back("write " + syncs.at(name) + " " + value);
            }
            values[name] = value;
        }
    }

    std::string expression(fl::ExpressionVertex const& v,
        Operations const& operations, Values const& sources)
    {
        if(auto o = dynamic_cast<fl::OperationVertex const*>(&v)) {
            Strings arguments;
            for(auto const& x: o->expressions()) {
                arguments.push_back(expression(*x, operations, sources));
            }
            std::string result = text(operations.at(o->name())->prefix(),
                ++nr_calls);
            log.push_back(call(o->name(), arguments, result));
            return result;
        }
        if(auto s = dynamic_cast<fl::StringVertex const*>(&v)) {
            return "s:" + s->value();
        }
        if(dynamic_cast<fl::NameVertex const*>(&v)) {
            auto it = values.find(v.name());
            if(it == values.end()) {
                it = values.emplace(v.name(), sources.at(v.name())).first;
                log.push_back("read " + v.name() + " " + it->second);
            }
            return it->second;
        }
        std::string result;
        number<int8_t>(v, "i8:", result) ||
            number<int16_t>(v, "i16:", result) ||
            number<int32_t>(v, "i32:", result) ||
            number<int64_t>(v, "i64:", result) ||
            number<uint8_t>(v, "u8:", result) ||
            number<uint16_t>(v, "u16:", result) ||
            number<uint32_t>(v, "u32:", result) ||
            number<uint64_t>(v, "u64:", result) ||
            number<float>(v, "f32:", result) ||
            number<double>(v, "f64:", result);
        return result;
    }

    template<class T>
    static bool number(fl::ExpressionVertex const& v, std::string const& type,
        std::string& result)
    {
        auto n = dynamic_cast<fl::NumberVertex<T> const*>(&v);
        if(n) result = type + pbt::show(n->value());
        return n;
    }
};

void collect(Element& e, std::string const& tag, std::vector<Element*>& found)
{
    if(e.tag == tag) found.push_back(&e);
    for(auto& child: e.children) collect(child, tag, found);
}

Strings contents(std::stack<Argument> stack)
{
    Strings result;
    for(; !stack.empty(); stack.pop()) {
        result.insert(result.begin(), value_of(*stack.top()));
    }
    return result;
}

std::string show(Strings const& strings)
{
    std::string result;
    for(auto const& s: strings) result += (result.empty() ? "" : "; ") + s;
    return "[" + result + "]";
}

bool contains(std::string const& text, std::string const& part)
{
    return text.find(part) != std::string::npos;
}

script::Options simple()
{
    script::Options options;
    options.functions = options.ifs = options.whiles = options.targets =
        options.parts = false;
    options.odd_text = false;
    return options;
}

}  // namespace

PBT_TARGET(session, 900, 1, "a script with a mistake, after one that was "
    "executed and before another one")
{
    auto options = simple();
    options.most_statements = c.size(1, 4);
    options.depth = c.size(1, 3);
    options.names.resize(c.size(2, 5));

    Strings functions{"f", "g", "h", "k"};
    Operations operations;
    make_operations(c, functions, 0, 3, operations);
    make_operations(c, {"UnarySub", "UnaryAdd", "Not", "Invert"}, 1, 1,
        operations);
    make_operations(c, {"add", "Sub", "Mult", "Div", "Mod", "Pow", "LShift",
        "RShift", "BitOr", "BitXor", "BitAnd", "FloorDiv", "And", "Or", "Eq",
        "NotEq", "Lt", "LtE", "Gt", "GtE"}, 2, 2, operations);
    std::vector<fl::OperationPtr> registered;
    for(auto const& o: operations) registered.push_back(o.second);
    known_operations = std::make_shared<fl::Operations>(registered);
    happened.clear();
    nr_calls = 0;
    strings.clear();
    Model model;
    std::set<std::string> shown;
    fl::Interpreter interpreter;
    size_t nr = 1000;
    bool executed = false, refused = false, between = false;
    for(size_t n = c.size(1, 7); n > 0; --n) {
        Element root = script::Generator(c, options).module();
        std::vector<Element*> calls;
        collect(root, "FunctionCall", calls);
        for(auto e: calls) {
            Strings fit;
            for(auto const& name: functions) {
                auto it = operations.find(name);
                if(it != operations.end() && it->second->parameters().size() ==
                    e->children[1].children.size()) fit.push_back(name);
            }
            e->children[0].text = fit.empty() || c.chance(1, 25) ?
                c.pick(functions) : c.pick(fit);
        }
        Parsed parsed;
        parsed.xml = xml::Writer(c).document(root);
        std::string script = "script " + std::to_string(nr++);
        strings[script] = parsed;
        auto tree = interpreter.parse_string(script);

        Values sources, syncs;
        fl::Interpreter::DataSourceSymbolTable source_table;
        fl::Interpreter::DataSyncSymbolTable sync_table;
        enum { annotate, validate, execute } what;
        size_t w = c.weighted({8, 1, 1});
        what = w == 0 ? execute : w == 1 ? validate : annotate;
        bool tables = c.chance(2, 3);
        bool all_sources = c.chance(1, 2);
        if(tables) {
            if(c.chance(7, 8)) {
                source_table.push_scope();
                for(auto const& name: options.names) {
                    if(model.values.count(name) ? c.chance(3, 4) :
                        !all_sources && c.chance(1, 2)) continue;
                    std::string prefix = c.pick(prefixes);
                    sources[name] = text(prefix, nr);
                    source_table.add_value(name, std::make_shared<Source>(
                        name, prefix, nr++));
                }
            }
            if(c.chance(7, 8)) {
                sync_table.push_scope();
                for(auto const& name: options.names) {
                    if(c.chance(1, 2)) continue;
                    std::string target = "sync" + std::to_string(nr++);
                    sync_table.add_value(name, std::make_shared<Sync>(target));
                    syncs[name] = target;
                }
            }
        }
        c.desc() << (what == annotate ? "annotate" : what == validate ?
            "validate" : "execute");
        for(auto const& s: sources) {
            c.desc() << " " << s.first << "=" << s.second;
        }
        c.desc() << "\n" << script::show(root) << "\n";
        for(auto const& tag: {"FunctionCall", "Operator"}) {
            calls.clear();
            collect(root, tag, calls);
            for(auto e: calls) {
                auto it = operations.find(e->children[0].text);
                if(it != operations.end() && shown.insert(it->first).second) {
                    c.desc() << it->first << ":";
                    for(auto const& p: it->second->parameters()) {
                        c.desc() << " " << p.expression_types();
                    }
                    c.desc() << " -> " << it->second->prefix() << "\n";
                }
            }
        }

        Values known = model.values;
        for(auto const& s: sources) known[s.first] = s.second;
        Mistakes mistakes(operations, known);
        for(auto const& s: tree->scope()->statements()) {
            mistakes.statement(*s);
        }

        std::string error;
        bool failed = false;
        happened.clear();
        model.log.clear();
        try {
            switch(what) {
                case annotate: {
                    tables ? interpreter.annotate(tree, source_table) :
                        interpreter.annotate(tree);
                    break;
                }
                case validate: {
                    tables ? interpreter.validate(tree, source_table) :
                        interpreter.validate(tree);
                    break;
                }
                case execute: {
                    tables ? interpreter.execute(tree, source_table,
                        sync_table) : interpreter.execute(tree);
                    break;
                }
            }
        }
        catch(fern::ValidateError const& e) {
            failed = true;
            error = e.message();
        }
        if(what != annotate) {
            PBT_EQ(failed, !mistakes.found.empty(), "whether the script is "
                "refused (" << error << ")");
        }
        if(failed) {
            refused = true;
            bool is_one = false;
            for(auto const& m: mistakes.found) {
                is_one = is_one || (contains(error, tree->source_name()) &&
                    contains(error, std::to_string(m.line)) &&
                    contains(error, std::to_string(m.col)) &&
                    contains(error, m.message));
            }
            PBT_CHECK(is_one, "the script is refused for something else than "
                "its mistakes: " << error);
        }
        else if(what == execute) {
            between = between || (executed && refused);
            executed = true;
            model.execute(*tree, operations, sources, syncs);
        }
        PBT_CHECK(happened == model.log, "other things happened: " <<
            show(happened) << " instead of " << show(model.log));
        PBT_CHECK(contents(interpreter.stack()) == model.stack, "other "
            "results: " << show(contents(interpreter.stack())) <<
            " instead of " << show(model.stack));
        if(c.chance(1, 3)) {
            interpreter.clear_stack();
            model.stack.clear();
            PBT_CHECK(interpreter.stack().empty(), "results after clearing");
        }
    }
    c.nontrivial(between);
    if(executed) c.label("executed");
    if(refused) c.label("refused");
}

PBT_TARGET(parse, 600, 1, "the parser of scripts refuses the text")
{
    auto options = simple();
    options.odd_text = true;
    known_operations = std::make_shared<fl::Operations>(
        std::vector<fl::OperationPtr>());
    strings.clear();
    files.clear();
    fl::Interpreter interpreter;

    Element root = script::Generator(c, options).module();
    Parsed p;
    p.kind = static_cast<Parsed::Kind>(c.weighted({2, 3, 2, 2}));
    p.xml = xml::Writer(c).document(root);
    bool malformed = p.kind == Parsed::tree && c.chance(1, 3);
    if(malformed) p.xml.resize(c.size(1, p.xml.find("<Fern") + 5));
    p.source = "source" + xml::text(c, 4);
    p.statement = "statement" + xml::text(c, 4);
    p.message = "message" + xml::text(c, 4);
    p.has_statement = c.chance(1, 2);
    p.line = long(c.draw(1000) + 1);
    p.col = long(c.draw(1000));
    p.error_nr = c.pick({ENOENT, EACCES, EISDIR, EIO});
    // Files, text, or text from the standard input.
    size_t from = p.kind == Parsed::io ? 0 : c.draw(3);
    std::string script = xml::text(c, 20);
    if(from == 0 && script.empty()) script = "file";
    (from == 0 ? files : strings)[script] = p;
    c.desc() << "kind " << p.kind << " from " << from << " " <<
        pbt::show(p.source) << " " << p.line << ":" << p.col << " " <<
        pbt::show(p.statement) << " " << pbt::show(p.message);
    c.nontrivial(p.kind != Parsed::tree);

    fl::ModuleVertexPtr tree;
    std::string parse_error, io_error;
    std::istringstream input(script);
    auto buffer = std::cin.rdbuf(input.rdbuf());
    try {
        tree = from == 0 ? interpreter.parse_file(script) : from == 1 ?
            interpreter.parse_string(script) : interpreter.parse_file("");
    }
    catch(fern::ParseError const& e) {
        parse_error = e.message();
    }
    catch(fern::IOError const& e) {
        io_error = e.message();
    }
    std::cin.rdbuf(buffer);

    bool refused = malformed || p.kind == Parsed::error ||
        p.kind == Parsed::unsupported;
    PBT_EQ(!parse_error.empty(), refused, "whether there is a parse error: " <<
        parse_error);
    PBT_EQ(!io_error.empty(), p.kind == Parsed::io, "whether there is an I/O "
        "error: " << io_error);
    PBT_EQ(bool(tree), !refused && p.kind != Parsed::io,
        "whether there is a tree");
    auto tells = [&](std::string const& text, std::string const& part) {
        PBT_CHECK(contains(text, part), pbt::show(part) << " is not in " <<
            pbt::show(text));
    };
    if(p.kind == Parsed::io) {
        tells(io_error, p.source);
        tells(io_error, std::strerror(p.error_nr));
    }
    else if(refused && !malformed) {
        tells(parse_error, p.source + ":" + std::to_string(p.line) + ":" +
            std::to_string(p.col));
        tells(parse_error, p.message);
        if(p.kind == Parsed::error && p.has_statement) {
            tells(parse_error, p.statement);
        }
    }
    else if(tree) {
        auto other = fl::XmlParser().parse_string(xml::Writer(c).document(
            root));
        PBT_EQ(tree->source_name(), other->source_name(), "name of source");
        PBT_EQ(tree->scope()->statements().size(), other->scope()->statements(
            ).size(), "number of statements");
    }
}
