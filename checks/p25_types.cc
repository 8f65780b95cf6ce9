// P25: type sets are sets, and types round-trip through their names.
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "pbt.h"
#include "gen.h"
#include "fern/core/data_types.h"
#include "fern/core/expression_type.h"
#include "fern/core/type_traits.h"
#include "fern/core/value_types.h"

namespace {

using fern::DataTypes;
using fern::ValueTypes;
using fern::ExpressionType;

template<class Types>
struct All;

template<>
struct All<ValueTypes>
{
    static std::vector<ValueTypes> singles()
    {
        return {ValueTypes::BOOL, ValueTypes::CHAR, ValueTypes::UINT8,
            ValueTypes::INT8, ValueTypes::UINT16, ValueTypes::INT16,
            ValueTypes::UINT32, ValueTypes::INT32, ValueTypes::UINT64,
            ValueTypes::INT64, ValueTypes::FLOAT32, ValueTypes::FLOAT64,
            ValueTypes::STRING};
    }
    static std::vector<size_t> positions()
    {
        return {fern::VT_BOOL, fern::VT_CHAR, fern::VT_UINT8, fern::VT_INT8,
            fern::VT_UINT16, fern::VT_INT16, fern::VT_UINT32, fern::VT_INT32,
            fern::VT_UINT64, fern::VT_INT64, fern::VT_FLOAT32,
            fern::VT_FLOAT64, fern::VT_STRING};
    }
    static std::vector<std::string> names()
    {
        return {"Bool", "Char", "Uint8", "Int8", "Uint16", "Int16", "Uint32",
            "Int32", "Uint64", "Int64", "Float32", "Float64", "String"};
    }
};

template<>
struct All<DataTypes>
{
    static std::vector<DataTypes> singles()
        { return {DataTypes::CONSTANT, DataTypes::STATIC_FIELD}; }
    static std::vector<size_t> positions()
        { return {fern::DT_CONSTANT, fern::DT_STATIC_FIELD}; }
    static std::vector<std::string> names()
        { return {"Constant", "StaticField"}; }
};

using Model = std::set<size_t>;

template<class Types>
Model model(pbt::Case& c)
{
    size_t nr = All<Types>::singles().size();
    Model result;
    switch(c.draw(4)) {
        case 0: if(c.chance(3, 4)) result.insert(c.draw(nr)); break;
        case 1: for(size_t i = 0; i < nr; ++i) result.insert(i);
            if(c.chance(1, 2)) result.erase(c.draw(nr)); break;
        default: for(size_t i = 0; i < nr; ++i) {
            if(c.chance(1, 2)) result.insert(i);
        }
    }
    return result;
}

template<class Types>
Types build(pbt::Case& c, Model const& m)
{
    auto singles = All<Types>::singles();
    Types result;
    bool backwards = c.chance(1, 2);
    std::vector<size_t> order(m.begin(), m.end());
    if(backwards) order.assign(m.rbegin(), m.rend());
    for(size_t i: order) {
        if(c.chance(1, 2)) result |= singles[i];
        else result = result | singles[i];
    }
    return result;
}

std::string name(Model const& m, std::vector<std::string> const& names)
{
    std::string result;
    for(size_t i: m) result += (result.empty() ? "" : "|") + names[i];
    return result.empty() ? "?" : result;
}

template<class Types>
void check(pbt::Case& c, Types const& t, Model const& m,
    std::string const& what)
{
    auto positions = All<Types>::positions();
    auto singles = All<Types>::singles();
    PBT_EQ(t.count(), m.size(), what << ": count");
    PBT_EQ(t.any(), !m.empty(), what << ": any");
    PBT_EQ(t.none(), m.empty(), what << ": none");
    PBT_EQ(t.fixed(), m.size() == 1, what << ": fixed");
    for(size_t i = 0; i < singles.size(); ++i) {
        bool in = m.count(i);
        PBT_EQ(t.test(positions[i]), in, what << ": contains "
            << All<Types>::names()[i]);
        PBT_EQ(singles[i].is_subset_of(t), in, what << ": "
            << All<Types>::names()[i] << " is a subset");
        PBT_EQ((t & singles[i]).count(), size_t(in), what
            << ": intersection with " << All<Types>::names()[i]);
    }
    PBT_EQ(t.to_string(), name(m, All<Types>::names()), what << ": name");
    std::ostringstream stream;
    stream << t;
    PBT_EQ(stream.str(), t.to_string(), what << ": printed");
}

Model unite(Model a, Model const& b) { a.insert(b.begin(), b.end()); return a; }

Model intersect(Model const& a, Model const& b)
{
    Model result;
    for(size_t i: a) if(b.count(i)) result.insert(i);
    return result;
}

Model differ(Model const& a, Model const& b)
{
    Model result;
    for(size_t i: unite(a, b)) if(a.count(i) != b.count(i)) result.insert(i);
    return result;
}

bool subset(Model const& a, Model const& b)
{
    return !a.empty() && intersect(a, b) == a;
}

template<class Types>
void algebra(pbt::Case& c)
{
    Model ma = model<Types>(c), mb = c.chance(1, 6) ? ma : model<Types>(c);
    Types a = build<Types>(c, ma), b = build<Types>(c, mb);
    c.desc() << a << " and " << b;
    c.nontrivial(!intersect(ma, mb).empty() && ma != mb);
    check(c, a, ma, "a");
    check(c, b, mb, "b");
    PBT_EQ(a == b, ma == mb, "a == b");
    PBT_EQ(b == a, ma == mb, "b == a");
    PBT_EQ(a != b, ma != mb, "a != b");
    PBT_EQ(a.is_subset_of(b), subset(ma, mb), "a is a subset of b");
    PBT_EQ(b.is_subset_of(a), subset(mb, ma), "b is a subset of a");
    check(c, a | b, unite(ma, mb), "a | b");
    check(c, a & b, intersect(ma, mb), "a & b");
    Types d = a;
    Types& r = d ^= b;
    PBT_CHECK(&r == &d, "^= returns something else");
    check(c, d, differ(ma, mb), "a ^ b");
    d ^= b;
    check(c, d, ma, "a ^ b ^ b");
    d |= b;
    check(c, d, unite(ma, mb), "a |= b");
    d &= a;
    check(c, d, ma, "(a | b) &= a");
    d = std::move(b);
    check(c, d, mb, "moved b");
    check(c, a, ma, "a after all");
}

}  // namespace

PBT_TARGET(value_types, 3000, 1, "the sets overlap and differ")
{
    algebra<ValueTypes>(c);
}

PBT_TARGET(data_types, 500, 1, "the sets overlap and differ")
{
    algebra<DataTypes>(c);
}

PBT_TARGET(names, 400, 1, "always")
{
    c.nontrivial();
    auto values = All<ValueTypes>::names();
    size_t i = c.draw(values.size());
    auto type = ValueTypes::from_string(values[i]);
    c.desc() << values[i];
    check(c, type, Model{i}, "type named " + values[i]);
    PBT_CHECK(type == All<ValueTypes>::singles()[i], values[i]);
    PBT_CHECK(ValueTypes::from_string(type.to_string()) == type,
        "round trip of " << values[i]);
    auto datas = All<DataTypes>::names();
    i = c.draw(datas.size());
    auto data_type = DataTypes::from_string(datas[i]);
    check(c, data_type, Model{i}, "type named " + datas[i]);
    PBT_CHECK(data_type == All<DataTypes>::singles()[i], datas[i]);
    PBT_CHECK(DataTypes::from_string(data_type.to_string()) == data_type,
        "round trip of " << datas[i]);
    // Named sets.
    Model unsigneds{2, 4, 6, 8}, signeds{3, 5, 7, 9}, floats{10, 11};
    Model integers = unite(unsigneds, signeds);
    Model numbers = unite(integers, floats);
    Model all;
    for(size_t j = 0; j < values.size(); ++j) all.insert(j);
    check(c, ValueTypes::UNKNOWN, {}, "UNKNOWN");
    check(c, ValueTypes::UNSIGNED_INTEGER, unsigneds, "UNSIGNED_INTEGER");
    check(c, ValueTypes::SIGNED_INTEGER, signeds, "SIGNED_INTEGER");
    check(c, ValueTypes::INTEGER, integers, "INTEGER");
    check(c, ValueTypes::FLOATING_POINT, floats, "FLOATING_POINT");
    check(c, ValueTypes::NUMBER, numbers, "NUMBER");
    check(c, ValueTypes::ALL, all, "ALL");
    check(c, ValueTypes::SIZE, Model{8}, "SIZE");
    check(c, ValueTypes::from_string("Number"), numbers, "Number");
    check(c, ValueTypes::from_string("All"), all, "All");
    check(c, ValueTypes::from_string("Size"), Model{8}, "Size");
    check(c, DataTypes::UNKNOWN, {}, "UNKNOWN");
    check(c, DataTypes::ALL, Model{0, 1}, "ALL");
    check(c, DataTypes::from_string("All"), Model{0, 1}, "All");
}

namespace {

template<class T>
void check_type(pbt::Case& c, size_t i)
{
    using Traits = fern::TypeTraits<T>;
    PBT_EQ(size_t(Traits::value_type), size_t(All<ValueTypes>::positions()[i]),
        "value type of " << All<ValueTypes>::names()[i]);
    PBT_CHECK(Traits::value_types == All<ValueTypes>::singles()[i],
        "value types of " << All<ValueTypes>::names()[i]);
    PBT_EQ(size_t(fern::value_type_id<T>()), size_t(All<ValueTypes>::positions()[i]),
        "id of value type of " << All<ValueTypes>::names()[i]);
    std::string lower = All<ValueTypes>::names()[i];
    lower[0] = static_cast<char>(lower[0] + ('a' - 'A'));
    PBT_EQ(Traits::name, lower, "name of type");
}

template<class T>
void check_no_data(pbt::Case& c, size_t i)
{
    check_type<T>(c, i);
    T value = gen::any<T>(c);
    bool equal = value == fern::no_data_value<T>();
    PBT_EQ(fern::is_no_data(value), equal, "is no-data");
    fern::set_no_data(value);
    PBT_CHECK(fern::is_no_data(value), "value set to no-data is not");
}

}  // namespace

PBT_TARGET(traits, 400, 1, "always")
{
    c.nontrivial();
    check_type<bool>(c, 0);
    check_type<char>(c, 1);
    check_no_data<uint8_t>(c, 2);
    check_no_data<int8_t>(c, 3);
    check_no_data<uint16_t>(c, 4);
    check_no_data<int16_t>(c, 5);
    check_no_data<uint32_t>(c, 6);
    check_no_data<int32_t>(c, 7);
    check_no_data<uint64_t>(c, 8);
    check_no_data<int64_t>(c, 9);
    check_no_data<float>(c, 10);
    check_no_data<double>(c, 11);
    check_type<std::string>(c, 12);
}

PBT_TARGET(expression_type, 2500, 1, "both types are defined and one is "
    "satisfied by the other in data type or value type")
{
    auto make = [&](Model const& d, Model const& v) {
        if(d.empty() || v.empty()) return ExpressionType();
        return ExpressionType(build<DataTypes>(c, d),
            build<ValueTypes>(c, v));
    };
    Model d1 = model<DataTypes>(c), v1 = model<ValueTypes>(c);
    Model d2 = model<DataTypes>(c), v2 = model<ValueTypes>(c);
    switch(c.draw(4)) {
        case 0: d2 = d1; v2 = v1; break;
        case 1: v2 = intersect(v1, v2); d2 = intersect(d1, d2); break;
        case 2: v2 = unite(v1, v2); break;
        default: break;
    }
    if(d1.empty() || v1.empty()) { d1.clear(); v1.clear(); }
    if(d2.empty() || v2.empty()) { d2.clear(); v2.clear(); }
    ExpressionType a = make(d1, v1), b = make(d2, v2);
    c.desc() << a << " and " << b;
    c.nontrivial(!d1.empty() && !d2.empty() && (subset(d1, d2)
        || subset(v1, v2)));
    PBT_CHECK(a.data_type() == build<DataTypes>(c, d1), "data type of a");
    PBT_CHECK(a.value_type() == build<ValueTypes>(c, v1), "value type of a");
    PBT_EQ(a.defined(), !d1.empty(), "a is defined");
    PBT_EQ(a.fixed(), d1.size() == 1 && v1.size() == 1, "a is fixed");
    PBT_EQ(b.fixed(), d2.size() == 1 && v2.size() == 1, "b is fixed");
    PBT_EQ(a.is_satisfied_by(b), subset(d2, d1) && subset(v2, v1),
        "a is satisfied by b");
    PBT_EQ(b.is_satisfied_by(a), subset(d1, d2) && subset(v1, v2),
        "b is satisfied by a");
    PBT_EQ(a == b, d1 == d2 && v1 == v2, "a == b");
    PBT_EQ(a != b, !(d1 == d2 && v1 == v2), "a != b");
    std::ostringstream stream;
    stream << a;
    PBT_EQ(stream.str(), name(d1, All<DataTypes>::names()) + "/"
        + name(v1, All<ValueTypes>::names()), "printed");
}
