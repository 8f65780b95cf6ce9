// P33: the type of an operation's result follows from its arguments' types.
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "pbt.h"
#include "gen.h"
#include "fern/language/feature/core/attributes.h"
#include "fern/language/operation/core/attribute_argument.h"
#include "fern/language/operation/core/expression_type_calculation.h"
#include "fern/language/operation/core/expression_types.h"
#include "fern/language/operation/core/feature_argument.h"
#include "fern/language/operation/core/operation.h"
#include "fern/language/operation/core/operations.h"

namespace fl = fern::language;

namespace {

using fern::DataTypes;
using fern::ExpressionType;
using fern::ValueTypes;

class Operation: public fl::Operation
{

public:

    Operation(std::string const& name, std::vector<fl::Parameter> const& p,
            std::vector<fl::Result> const& r)
        : fl::Operation(name, "description of " + name, p, r)
    {
    }

    ExpressionType expression_type(size_t index,
        std::vector<ExpressionType> const& types) const override
    {
        return fl::standard_expression_type(*this, index, types);
    }

    std::vector<std::shared_ptr<fl::Argument>> execute(
        std::vector<std::shared_ptr<fl::Argument>> const& arguments) const
        override
    {
        return arguments;
    }
};

//! Numeric types, the highest ranking one first.
std::vector<ValueTypes> ranking()
{
    return {ValueTypes::FLOAT64, ValueTypes::FLOAT32, ValueTypes::UINT64,
        ValueTypes::INT64, ValueTypes::UINT32, ValueTypes::INT32,
        ValueTypes::UINT16, ValueTypes::INT16, ValueTypes::UINT8,
        ValueTypes::INT8};
}

ValueTypes some_numbers(pbt::Case& c)
{
    auto all = ranking();
    if(c.chance(2, 5)) return ValueTypes::NUMBER;
    if(c.chance(1, 4)) return ValueTypes::INTEGER;
    ValueTypes result;
    for(auto const& t: all) if(c.chance(1, 2)) result |= t;
    return result.none() ? all[c.draw(all.size())] : result;
}

DataTypes some_data(pbt::Case& c)
{
    return c.pick({DataTypes::ALL, DataTypes::CONSTANT,
        DataTypes::STATIC_FIELD});
}

struct Expected
{
    DataTypes data;
    ValueTypes value;
};

//! Type of the result, for a result whose type is not fixed.
Expected expected(std::vector<ExpressionType> const& parameters,
    std::vector<ExpressionType> const& arguments)
{
    Expected result;
    DataTypes data, parameter_data;
    ValueTypes value, parameter_value;
    for(size_t i = 0; i < parameters.size(); ++i) {
        data |= arguments[i].data_type() & parameters[i].data_type();
        value |= arguments[i].value_type() & parameters[i].value_type();
        parameter_data |= parameters[i].data_type();
        parameter_value |= parameters[i].value_type();
    }
    result.data = data.none() ? parameter_data
        : data.test(fern::DT_STATIC_FIELD) ? DataTypes::STATIC_FIELD
        : DataTypes::CONSTANT;
    result.value = parameter_value;
    if(parameters.size() == 1 && arguments[0].value_type().any()) {
        result.value = arguments[0].value_type();
    }
    else {
        for(auto const& type: ranking()) {
            if(type.is_subset_of(value)) {
                result.value = type;
                break;
            }
        }
    }
    return result;
}

}  // namespace

PBT_TARGET(deduction, 4000, 1, "at least two arguments of different known "
    "value types")
{
    size_t arity = 1 + c.weighted({2, 5, 2, 1});
    bool same_parameters = c.chance(1, 2);
    std::vector<ExpressionType> parameters;
    std::vector<fl::Parameter> ps;
    for(size_t i = 0; i < arity; ++i) {
        ExpressionType type(some_data(c), some_numbers(c));
        parameters.push_back(same_parameters && i > 0 ? parameters[0] : type);
        ps.emplace_back("p" + std::to_string(i), "parameter",
            parameters[i].data_type(), parameters[i].value_type());
    }
    std::vector<ExpressionType> arguments;
    for(size_t i = 0; i < arity; ++i) {
        auto const& p = parameters[i];
        if(c.chance(1, 8)) {
            // Not known.
            arguments.emplace_back();
            continue;
        }
        // Types the parameter supports: one or more.
        DataTypes data = c.chance(1, 2) && DataTypes::STATIC_FIELD
            .is_subset_of(p.data_type()) ? DataTypes::STATIC_FIELD
            : DataTypes::CONSTANT.is_subset_of(p.data_type())
            ? DataTypes::CONSTANT : DataTypes::STATIC_FIELD;
        ValueTypes value;
        std::vector<ValueTypes> supported;
        for(auto const& t: ranking()) {
            if(t.is_subset_of(p.value_type())) supported.push_back(t);
        }
        value |= supported[c.draw(supported.size())];
        if(c.chance(1, 8)) value |= supported[c.draw(supported.size())];
        // The other argument may be of a type the parameter does not support.
        if(arity > 1 && c.chance(1, 10)) {
            value = ranking()[c.draw(10)];
            data = some_data(c);
        }
        arguments.emplace_back(data, value);
    }
    // Types of the results: fixed or not, in data or value type.
    size_t nr_results = c.size(1, 3);
    std::vector<fl::Result> rs;
    for(size_t i = 0; i < nr_results; ++i) {
        auto all = ranking();
        rs.emplace_back("r" + std::to_string(i), "result", ExpressionType(
            c.chance(1, 4) ? c.pick({DataTypes::CONSTANT,
                DataTypes::STATIC_FIELD}) : DataTypes::ALL,
            c.chance(1, 4) ? all[c.draw(all.size())] : c.chance(1, 2)
                ? ValueTypes::NUMBER : ValueTypes::ALL));
    }
    size_t nr_known = 0;
    for(auto const& a: arguments) {
        c.desc() << a << ", ";
        for(auto const& b: arguments) {
            nr_known += a.defined() && b.defined()
                && a.value_type() != b.value_type();
        }
    }
    c.nontrivial(nr_known > 0);
    Operation operation("op", ps, rs);
    PBT_EQ(operation.arity(), arity, "arity");
    Expected want = expected(parameters, arguments);
    for(size_t i = 0; i < nr_results; ++i) {
        auto fixed = rs[i].expression_type();
        auto got = operation.expression_type(i, arguments);
        DataTypes data = fixed.data_type().fixed() ? fixed.data_type()
            : want.data;
        ValueTypes value = fixed.value_type().fixed() ? fixed.value_type()
            : want.value;
        c.desc() << "-> " << fixed << " ";
        PBT_CHECK(got.data_type() == data, "data type of result " << i
            << ": got " << got.data_type() << ", want " << data);
        PBT_CHECK(got.value_type() == value, "value type of result " << i
            << ": got " << got.value_type() << ", want " << value);
        if(same_parameters) {
            std::vector<ExpressionType> swapped(arguments.rbegin(),
                arguments.rend());
            PBT_CHECK(operation.expression_type(i, swapped) == got,
                "arguments in another order give "
                << operation.expression_type(i, swapped) << " instead of "
                << got);
        }
    }
}

PBT_TARGET(expression_types, 1500, 1, "more than one type on both sides")
{
    auto type = [&]() {
        if(c.chance(1, 8)) return ExpressionType();
        return ExpressionType(some_data(c), c.chance(1, 2) ? some_numbers(c)
            : ranking()[c.draw(3)]);
    };
    std::vector<ExpressionType> m1(c.size(0, 4)), m2(c.size(0, 4));
    for(auto& t: m1) t = type();
    for(auto& t: m2) t = type();
    auto make = [&](std::vector<ExpressionType> const& m) {
        fl::ExpressionTypes result;
        if(c.chance(1, 2)) {
            for(auto const& t: m) result.add(t);
        }
        else {
            result = fl::ExpressionTypes(m.size());
            for(size_t i = 0; i < m.size(); ++i) result[i] = m[i];
        }
        return result;
    };
    fl::ExpressionTypes a = make(m1), b = make(m2);
    c.desc() << a << " and " << b;
    c.nontrivial(m1.size() > 1 && m2.size() > 1);
    PBT_EQ(a.size(), m1.size(), "size");
    PBT_EQ(a.is_empty(), m1.empty(), "empty");
    bool fixed = !m1.empty();
    std::string printed;
    for(size_t i = 0; i < m1.size(); ++i) {
        fixed &= m1[i].fixed();
        PBT_CHECK(a[i] == m1[i], "type " << i);
        std::ostringstream s;
        s << m1[i];
        printed += (i ? " | " : "") + s.str();
    }
    PBT_EQ(size_t(std::distance(a.begin(), a.end())), m1.size(),
        "number of types");
    PBT_EQ(a.fixed(), fixed, "fixed");
    std::ostringstream s;
    s << a;
    PBT_EQ(s.str(), printed, "printed");
    size_t want = m2.size();
    for(size_t i = m2.size(); i > 0; --i) {
        for(auto const& t: m1) if(t.is_satisfied_by(m2[i - 1])) want = i - 1;
    }
    PBT_EQ(a.id_of_satisfying_type(b), want, "first satisfying type");
    PBT_EQ(a.is_satisfied_by(b), want < m2.size(), "a is satisfied by b");
}

namespace {

template<class T>
void check_attribute(pbt::Case& c, bool field, fern::ValueType want)
{
    std::shared_ptr<fl::Attribute> attribute;
    if(field) {
        attribute = std::make_shared<fl::FieldAttribute<T>>();
    }
    else {
        attribute = std::make_shared<fl::ConstantAttribute<T>>(T());
    }
    fl::AttributeArgument argument(attribute);
    PBT_EQ(int(argument.argument_type()),
        int(fl::ArgumentType::AT_ATTRIBUTE), "type of argument");
    PBT_CHECK(argument.attribute() == attribute, "another attribute");
    PBT_EQ(int(argument.data_type()), int(field ? fern::DT_STATIC_FIELD
        : fern::DT_CONSTANT), "data type of attribute");
    PBT_EQ(int(argument.value_type()), int(want),
        "value type of attribute");
}

}  // namespace

PBT_TARGET(arguments, 400, 1, "always")
{
    c.nontrivial();
    bool field = c.chance(1, 2);
    size_t which = c.draw(12);
    c.desc() << (field ? "field " : "constant ") << which;
    switch(which) {
        case 0: check_attribute<bool>(c, field, fern::VT_BOOL); break;
        case 1: check_attribute<int8_t>(c, field, fern::VT_INT8); break;
        case 2: check_attribute<int16_t>(c, field, fern::VT_INT16); break;
        case 3: check_attribute<int32_t>(c, field, fern::VT_INT32); break;
        case 4: check_attribute<int64_t>(c, field, fern::VT_INT64); break;
        case 5: check_attribute<uint8_t>(c, field, fern::VT_UINT8); break;
        case 6: check_attribute<uint16_t>(c, field, fern::VT_UINT16); break;
        case 7: check_attribute<uint32_t>(c, field, fern::VT_UINT32); break;
        case 8: check_attribute<uint64_t>(c, field, fern::VT_UINT64); break;
        case 9: check_attribute<float>(c, field, fern::VT_FLOAT32); break;
        case 10: check_attribute<double>(c, field, fern::VT_FLOAT64); break;
        default: check_attribute<std::string>(c, field, fern::VT_STRING);
    }
    auto feature = std::make_shared<fl::Feature>();
    fl::FeatureArgument argument(feature);
    PBT_EQ(int(argument.argument_type()), int(fl::ArgumentType::AT_FEATURE),
        "type of argument");
    PBT_CHECK(argument.feature() == feature, "another feature");
}

PBT_TARGET(registry, 500, 1, "at least two operations")
{
    std::vector<std::string> const names{"a", "b", "abs", "add", "A", "ab"};
    std::vector<fl::OperationPtr> operations;
    std::map<std::string, fl::OperationPtr> model;
    size_t nr = c.size(0, 3);
    for(size_t i = 0; i < 3; ++i) {
        std::string name = names[c.draw(names.size())];
        while(model.count(name)) name += "x";
        auto o = std::make_shared<Operation>(name,
            std::vector<fl::Parameter>(), std::vector<fl::Result>());
        operations.push_back(o);
        if(i < nr) model[name] = o;
        c.desc() << name << " ";
    }
    c.nontrivial(nr > 1);
    fl::Operations registry = nr == 0 ? fl::Operations(std::initializer_list<fl::OperationPtr>{})
        : nr == 1 ? fl::Operations({operations[0]})
        : nr == 2 ? fl::Operations({operations[0], operations[1]})
        : fl::Operations({operations[0], operations[1], operations[2]});
    PBT_EQ(registry.size(), model.size(), "size");
    PBT_EQ(registry.empty(), model.empty(), "empty");
    for(auto const& name: names) {
        PBT_EQ(registry.has_operation(name), model.count(name) > 0,
            "has operation " << name);
    }
    for(auto const& pair: model) {
        PBT_CHECK(registry.operation(pair.first) == pair.second,
            "operation " << pair.first);
        PBT_EQ(registry.operation(pair.first)->name(), pair.first, "name");
        PBT_EQ(registry.operation(pair.first)->description(),
            "description of " + pair.first, "description");
    }
}
