// P22: feature trees find what was added under its path, and nothing else.
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "pbt.h"
#include "gen.h"
#include "fern/language/feature/core/attributes.h"
#include "fern/language/feature/core/feature.h"

namespace fl = fern::language;

namespace {

std::vector<std::string> const names{"a", "b", "ab", "a b", "B", "a.b",
    "planets", " ", "a ", "..."};

using AttributePtr = std::shared_ptr<fl::Attribute>;
using FeaturePtr = std::shared_ptr<fl::Feature>;
using Names = std::vector<std::string>;

struct Model
{
    std::map<Names, FeaturePtr> features;
    std::map<Names, AttributePtr> attributes;
};

std::string show(Names const& n)
{
    std::string result;
    for(auto const& s: n) result += "/" + s;
    return result;
}

//! Ways to write the path.
fern::Path path(pbt::Case& c, Names const& n)
{
    std::string s;
    for(size_t i = 0; i < n.size(); ++i) s += (i ? "/" : "") + n[i];
    return fern::Path(c.chance(1, 2) ? "/" + s : s);
}

Names some_path(pbt::Case& c, Model const& model, size_t nr_names)
{
    Names result;
    if(!model.features.empty() && c.chance(2, 3)) {
        auto it = model.features.begin();
        std::advance(it, c.draw(model.features.size()));
        result = it->first;
    }
    size_t extra = result.size() < 5 ? 1 + c.weighted({8, 1}) : 1;
    for(size_t i = 0; i < extra; ++i) {
        result.push_back(names[c.draw(nr_names)]);
    }
    return result;
}

Names parent(Names n) { n.pop_back(); return n; }

//! What is directly in \a of.
template<class T>
Names children(std::map<Names, T> const& all, Names const& of)
{
    Names result;
    for(auto const& pair: all) {
        if(pair.first.size() == of.size() + 1 && parent(pair.first) == of) {
            result.push_back(pair.first.back());
        }
    }
    std::sort(result.begin(), result.end());
    return result;
}

void check_path(pbt::Case& c, fl::Feature const& root, Model const& model,
    Names const& n)
{
    auto p = path(c, n);
    bool feature = model.features.count(n);
    bool attribute = model.attributes.count(n);
    PBT_EQ(root.contains_feature(p), feature, "contains feature " << p);
    PBT_EQ(root.contains_attribute(p), attribute, "contains attribute " << p);
    auto f = root.feature(p);
    PBT_CHECK(f == (feature ? model.features.at(n) : FeaturePtr()),
        "feature " << p);
    if(attribute) {
        PBT_CHECK(root.attribute(p) == model.attributes.at(n),
            "attribute " << p);
    }
    if(feature) {
        auto features = children(model.features, n);
        auto attributes = children(model.attributes, n);
        PBT_EQ(root.nr_features(p), features.size(), "number of features in "
            << p);
        PBT_EQ(root.nr_attributes(p), attributes.size(),
            "number of attributes of " << p);
        auto got = f->feature_names();
        std::sort(got.begin(), got.end());
        PBT_CHECK(got == features, "names of features in " << p);
        got = f->attribute_names();
        std::sort(got.begin(), got.end());
        PBT_CHECK(got == attributes, "names of attributes of " << p);
        PBT_EQ(f->nr_features(), features.size(), "number of features of "
            "feature " << p);
        PBT_EQ(f->nr_attributes(), attributes.size(),
            "number of attributes of feature " << p);
    }
}

void check(pbt::Case& c, fl::Feature const& root, Model const& model)
{
    auto features = children(model.features, {});
    auto attributes = children(model.attributes, {});
    PBT_EQ(root.nr_features(), features.size(), "number of features");
    PBT_EQ(root.nr_attributes(), attributes.size(), "number of attributes");
    auto got = root.feature_names();
    std::sort(got.begin(), got.end());
    PBT_CHECK(got == features, "names of features");
    got = root.attribute_names();
    std::sort(got.begin(), got.end());
    PBT_CHECK(got == attributes, "names of attributes");
    for(auto const& pair: model.features) {
        check_path(c, root, model, pair.first);
    }
    for(auto const& pair: model.attributes) {
        check_path(c, root, model, pair.first);
        // Below an attribute there is nothing.
        Names below = pair.first;
        below.push_back("a");
        check_path(c, root, model, below);
    }
}

}  // namespace

PBT_TARGET(feature, 1200, 1, "something is added to a nested feature")
{
    fl::Feature root;
    Model model;
    size_t nr = c.size(0, 14);
    size_t nr_names = c.size(1, names.size());
    for(size_t i = 0; i < nr; ++i) {
        Names n = some_path(c, model, nr_names);
        bool exists = model.features.count(n) || model.attributes.count(n);
        bool has_parent = n.size() == 1 || model.features.count(parent(n));
        size_t kind = c.weighted({4, 3, 3});
        if(!exists && has_parent && kind != 2) {
            c.nontrivial(n.size() > 1);
            if(n.size() > 2) c.label("deep");
            // Either through the root, or through the parent itself.
            bool through_parent = n.size() > 1 && c.chance(1, 4);
            fl::Feature& to = through_parent
                ? *model.features.at(parent(n)) : root;
            auto p = path(c, through_parent ? Names{n.back()} : n);
            if(kind == 0) {
                c.desc() << "feature " << show(n) << "; ";
                auto f = std::make_shared<fl::Feature>();
                to.add_feature(p, f);
                model.features[n] = f;
            }
            else {
                c.desc() << "attribute " << show(n) << "; ";
                auto a = std::make_shared<fl::ConstantAttribute<int>>(int(i));
                to.add_attribute(p, a);
                model.attributes[n] = a;
            }
            check(c, root, model);
        }
        else {
            c.label("look up");
            check_path(c, root, model, n);
        }
    }
    check(c, root, model);
}

PBT_TARGET(subtree, 400, 1, "a feature that has children is added")
{
    // A feature is shared: what is added to it before and after it was added
    // to another feature is found through that one.
    fl::Feature root;
    Model model;
    auto f = std::make_shared<fl::Feature>();
    Names at{names[c.draw(names.size())]};
    bool nested = c.chance(1, 2);
    if(nested) {
        auto g = std::make_shared<fl::Feature>();
        root.add_feature(path(c, at), g);
        model.features[at] = g;
        at.push_back(names[c.draw(names.size())]);
    }
    size_t nr = c.size(0, 5);
    size_t when = c.size(0, nr);
    for(size_t i = 0; i <= nr; ++i) {
        if(i == when) {
            root.add_feature(path(c, at), f);
            model.features[at] = f;
            c.nontrivial(i > 0);
        }
        if(i < nr) {
            Names n = at;
            n.push_back("n" + std::to_string(i));
            if(c.chance(1, 2)) {
                auto g = std::make_shared<fl::Feature>();
                f->add_feature(path(c, {n.back()}), g);
                model.features[n] = g;
            }
            else {
                auto a = std::make_shared<fl::ConstantAttribute<double>>(1.5);
                f->add_attribute(path(c, {n.back()}), a);
                model.attributes[n] = a;
            }
            c.desc() << show(n) << (i < when ? " before; " : " after; ");
        }
    }
    check(c, root, model);
}

PBT_TARGET(spatial, 1000, 1, "more than one geometry")
{
    using Attribute = fl::SpatialAttribute<fl::SpatialDomain<fl::d2::Point>,
        int64_t>;
    Attribute attribute;
    struct Entry { double x, y; int64_t value; Attribute::GID gid; };
    std::vector<Entry> model;
    PBT_CHECK(attribute.empty(), "new attribute is empty");
    PBT_EQ(attribute.size(), 0u, "size of new attribute");
    size_t nr = c.size(0, 12);
    c.nontrivial(nr > 1);
    for(size_t i = 0; i <= nr; ++i) {
        PBT_EQ(attribute.empty(), model.empty(), "empty");
        PBT_EQ(attribute.size(), model.size(), "size");
        PBT_EQ(attribute.domain().size(), model.size(), "size of domain");
        PBT_EQ(attribute.domain().empty(), model.empty(), "domain is empty");
        PBT_EQ(attribute.values().size(), model.size(), "number of values");
        PBT_EQ(attribute.values().empty(), model.empty(), "no values");
        std::map<Attribute::GID, Entry> by_gid;
        for(auto const& e: model) {
            PBT_EQ(attribute.values().value(e.gid), e.value, "value of " <<
                e.gid);
            PBT_CHECK(by_gid.emplace(e.gid, e).second, "identity " << e.gid
                << " is used twice");
        }
        size_t n = 0;
        for(auto const& pair: attribute.domain()) {
            PBT_CHECK(by_gid.count(pair.first), "unknown identity");
            PBT_EQ(fern::get<0>(pair.second), by_gid.at(pair.first).x, "x");
            PBT_EQ(fern::get<1>(pair.second), by_gid.at(pair.first).y, "y");
            ++n;
        }
        PBT_EQ(n, model.size(), "number of geometries");
        auto it = attribute.values().cbegin();
        for(auto const& pair: by_gid) {
            PBT_EQ(it->first, pair.first, "identity of value");
            PBT_EQ(it->second, pair.second.value, "value");
            ++it;
        }
        if(i < nr) {
            // Equal geometries and values are elements of their own.
            Entry e{double(c.range(0, 3)), double(c.range(0, 3)) / 2,
                c.range(0, 3), 0};
            fl::d2::Point point;
            fern::set<0>(point, e.x);
            fern::set<1>(point, e.y);
            e.gid = attribute.add(point, e.value);
            model.push_back(e);
            c.desc() << e.x << "," << e.y << "=" << e.value << "; ";
        }
    }
}

PBT_TARGET(domain, 500, 1, "more than one geometry")
{
    using Domain = fl::SpatialDomain<fl::d2::Point>;
    Domain domain;
    std::vector<std::pair<Domain::GID, double>> model;
    size_t nr = c.size(0, 12);
    c.nontrivial(nr > 1);
    for(size_t i = 0; i < nr; ++i) {
        double x = double(c.range(0, 3));
        fl::d2::Point point;
        fern::set<0>(point, x);
        fern::set<1>(point, -x);
        auto gid = domain.add(point);
        for(auto const& m: model) {
            PBT_CHECK(m.first != gid, "identity " << gid << " is used twice");
        }
        model.emplace_back(gid, x);
        c.desc() << x << "; ";
        PBT_EQ(domain.size(), model.size(), "size");
        PBT_CHECK(!domain.empty(), "empty");
        for(auto const& m: model) {
            PBT_EQ(fern::get<0>(domain.geometry(m.first)), m.second, "x");
            PBT_EQ(fern::get<1>(domain.geometry(m.first)), -m.second, "y");
        }
        PBT_EQ(size_t(std::distance(domain.cbegin(), domain.cend())),
            model.size(), "number of elements");
    }
}

PBT_TARGET(constant, 300, 1, "the value is changed")
{
    int64_t first = c.range(-5, 5);
    fl::ConstantAttribute<int64_t> attribute(first);
    PBT_EQ(attribute.values().value(), first, "value");
    size_t nr = c.size(0, 4);
    c.nontrivial(nr > 0);
    for(size_t i = 0; i < nr; ++i) {
        int64_t value = c.range(-5, 5);
        attribute.set(value);
        PBT_EQ(attribute.values().value(), value, "value after setting it");
    }
    std::string text(c.size(0, 5), 'x');
    fl::ConstantAttribute<std::string> other;
    other.set(text);
    PBT_EQ(other.values().value(), text, "text");
}
