// P38: visiting an attribute tells its type.
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "pbt.h"
#include "gen.h"
#include "fern/core/type_traits.h"
#include "fern/language/feature/core/attributes.h"
#include "fern/language/feature/visitor/attribute_type_visitor.h"

namespace fl = fern::language;

namespace {

struct Entry
{
    std::shared_ptr<fl::Attribute> attribute;
    fern::DataType data_type;
    fern::ValueType value_type;
    std::string what;
};

template<class T>
T some(pbt::Case& c)
{
    if constexpr (std::is_same<T, std::string>::value) {
        return std::string(c.size(0, 5), 'x');
    }
    else if constexpr (std::is_same<T, bool>::value) return c.chance(1, 2);
    else return gen::any<T>(c);
}

template<class T>
Entry constant(pbt::Case& c, fern::ValueType type)
{
    T value = some<T>(c);
    auto attribute = c.chance(1, 2)
        ? std::make_shared<fl::ConstantAttribute<T>>(value)
        : std::make_shared<fl::ConstantAttribute<T>>();
    if(c.chance(1, 2)) attribute->set(some<T>(c));
    return {attribute, fern::DT_CONSTANT, type, "constant"};
}

template<class T>
Entry field(pbt::Case& c, fern::ValueType type)
{
    using Attribute = fl::FieldAttribute<T>;
    auto attribute = std::make_shared<Attribute>();
    // Boxes, each with an array of values of its own.
    struct Part { double x, y; size_t rows, cols; T value; bool masked;
        typename Attribute::GID gid; fl::FieldValuePtr<T> values; };
    std::vector<Part> parts;
    size_t nr = c.size(0, 3);
    for(size_t i = 0; i < nr; ++i) {
        Part p;
        p.x = double(c.range(-3, 3));
        p.y = double(c.range(-3, 3)) / 2;
        p.rows = 1 + c.size(0, 3);
        p.cols = 1 + c.size(0, 3);
        p.value = some<T>(c);
        p.masked = c.chance(1, 3);
        fl::d2::Point south_west, north_east;
        fern::set<0>(south_west, p.x);
        fern::set<1>(south_west, p.y);
        fern::set<0>(north_east, p.x + double(p.cols));
        fern::set<1>(north_east, p.y + double(p.rows));
        p.values = std::make_shared<fl::FieldValue<T>>(
            fern::extents[fern::Index(p.rows)][fern::Index(p.cols)]);
        (*p.values)[p.rows - 1][p.cols - 1] = p.value;
        if(p.masked) p.values->mask()[p.rows - 1][0] = true;
        p.gid = attribute->add(fl::d2::Box(south_west, north_east), p.values);
        parts.push_back(p);
    }
    PBT_EQ(attribute->size(), nr, "number of parts");
    for(auto const& p: parts) {
        auto const& values = attribute->values().value(p.gid);
        PBT_CHECK(values == p.values, "values of part");
        PBT_EQ(values->shape()[0], p.rows, "rows");
        PBT_EQ(values->shape()[1], p.cols, "columns");
        PBT_CHECK((*values)[p.rows - 1][p.cols - 1] == p.value ||
            p.value != p.value, "value");
        PBT_EQ(bool(values->mask()[p.rows - 1][0]), p.masked, "mask");
        bool found = false;
        for(auto const& pair: attribute->domain()) {
            if(pair.first != p.gid) continue;
            found = true;
            auto const& box = pair.second;
            PBT_EQ(fern::get<0>(box.min_corner()), p.x, "west");
            PBT_EQ(fern::get<1>(box.min_corner()), p.y, "south");
            PBT_EQ(fern::get<0>(box.max_corner()), p.x + double(p.cols),
                "east");
            PBT_EQ(fern::get<1>(box.max_corner()), p.y + double(p.rows),
                "north");
        }
        PBT_CHECK(found, "box of part");
    }
    return {attribute, fern::DT_STATIC_FIELD, type, "field"};
}

//! Counts what is not handled by a visitor that knows about integers only.
struct Counter: public fl::AttributeVisitor
{
    using fl::AttributeVisitor::Visit;

    void Visit(fl::Attribute const& attribute) override
    {
        ++other;
        last = &attribute;
    }

    void Visit(fl::ConstantAttribute<int32_t> const& attribute) override
    {
        ++integers;
        last = &attribute;
    }

    void Visit(fl::FieldAttribute<double> const& attribute) override
    {
        ++doubles;
        last = &attribute;
    }

    size_t other{0}, integers{0}, doubles{0};
    fl::Attribute const* last{nullptr};
};

Entry entry(pbt::Case& c)
{
    using F = Entry (*)(pbt::Case&, fern::ValueType);
    struct Kind { F constant, field; fern::ValueType type; char const* name; };
    static Kind const kinds[] = {
#define KIND(T, ID) {constant<T>, field<T>, fern::ID, #T}
        KIND(uint8_t, VT_UINT8), KIND(int8_t, VT_INT8),
        KIND(uint16_t, VT_UINT16), KIND(int16_t, VT_INT16),
        KIND(uint32_t, VT_UINT32), KIND(int32_t, VT_INT32),
        KIND(uint64_t, VT_UINT64), KIND(int64_t, VT_INT64),
        KIND(float, VT_FLOAT32), KIND(double, VT_FLOAT64),
        KIND(bool, VT_BOOL), KIND(std::string, VT_STRING)};
    auto const& kind = kinds[c.draw(12)];
    Entry result = (c.chance(1, 2) ? kind.field : kind.constant)(c, kind.type);
    result.what += std::string(" of ") + kind.name;
    return result;
}

}  // namespace

//! Attributes with a lot of boxes, each with a value of its own.
PBT_TARGET(many_boxes, 8, 1, "there are more than 200 boxes")
{
    using Attribute = fl::SpatialAttribute<fl::d2::BoxDomain, int64_t>;
    size_t const nr = c.chance(1, 6) ? 65536 + c.draw(20)
        : c.chance(1, 2) ? 256 + c.draw(300) : c.draw(300);
    int64_t const first = c.range(-5, 5);
    // Boxes may be the same.
    size_t const nr_different = c.pick<size_t>({1, 3, 100000});
    c.desc() << nr << " boxes, of which at most " << nr_different
        << " different ones";
    c.nontrivial(nr > 200);
    Attribute attribute;
    PBT_CHECK(attribute.empty(), "empty");
    std::vector<Attribute::GID> gids;
    auto x = [&](size_t i) { return double(i % nr_different); };
    for(size_t i = 0; i < nr; ++i) {
        gids.push_back(attribute.add(fl::d2::Box(fl::d2::Point(x(i), 0.0),
            fl::d2::Point(x(i) + 1.0, 2.0)), first + int64_t(i)));
    }
    PBT_EQ(attribute.size(), nr, "number of boxes");
    PBT_EQ(attribute.values().size(), nr, "number of values");
    PBT_EQ(attribute.empty(), nr == 0, "empty");
    std::map<Attribute::GID, size_t> positions;
    for(size_t i = 0; i < nr; ++i) {
        PBT_CHECK(positions.emplace(gids[i], i).second,
            "identification of box " << i);
        PBT_EQ(attribute.values().value(gids[i]), first + int64_t(i),
            "value of box " << i);
    }
    size_t nr_visited = 0;
    for(auto const& pair: attribute.domain()) {
        auto it = positions.find(pair.first);
        PBT_CHECK(it != positions.end(), "identification");
        ++nr_visited;
        PBT_EQ(fern::get<0>(pair.second.min_corner()), x(it->second),
            "west of box " << it->second);
    }
    PBT_EQ(nr_visited, nr, "number of boxes visited");
}

PBT_TARGET(types, 1500, 1, "attributes of different types are visited in turn")
{
    std::vector<Entry> entries;
    size_t nr = 1 + c.size(0, 4);
    for(size_t i = 0; i < nr; ++i) entries.push_back(entry(c));
    fl::AttributeTypeVisitor visitor;
    PBT_EQ(size_t(visitor.data_type()), size_t(fern::DT_LAST_DATA_TYPE),
        "data type before anything is visited");
    PBT_EQ(size_t(visitor.value_type()), size_t(fern::VT_LAST_VALUE_TYPE),
        "value type before anything is visited");
    Counter counter;
    size_t integers = 0, doubles = 0, other = 0;
    size_t nr_visits = c.size(1, 6);
    Entry const* previous = nullptr;
    for(size_t i = 0; i < nr_visits; ++i) {
        Entry const& e = entries[c.draw(entries.size())];
        c.desc() << e.what << "; ";
        // A pointer to the base class is all we have.
        fl::Attribute const& attribute = *e.attribute;
        attribute.Accept(visitor);
        PBT_EQ(size_t(visitor.data_type()), size_t(e.data_type),
            "data type of " << e.what);
        PBT_EQ(size_t(visitor.value_type()), size_t(e.value_type),
            "value type of " << e.what);
        attribute.Accept(counter);
        if(e.data_type == fern::DT_CONSTANT && e.value_type == fern::VT_INT32)
            ++integers;
        else if(e.data_type == fern::DT_STATIC_FIELD &&
            e.value_type == fern::VT_FLOAT64) ++doubles;
        else ++other;
        PBT_EQ(counter.integers, integers, "visits of constant integers");
        PBT_EQ(counter.doubles, doubles, "visits of fields of doubles");
        PBT_EQ(counter.other, other, "visits of anything else");
        PBT_CHECK(counter.last == &attribute, "another attribute is visited");
        c.nontrivial(previous && previous->data_type != e.data_type &&
            previous->value_type != e.value_type);
        previous = &e;
    }
}
