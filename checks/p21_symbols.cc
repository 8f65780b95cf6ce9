// P21: symbols are looked up from the innermost scope outwards.
#include <map>
#include <string>
#include <vector>
#include <boost/any.hpp>
#include "pbt.h"
#include "gen.h"
#include "fern/core/scope.h"
#include "fern/core/stack.h"
#include "fern/language/core/symbol_table.h"

namespace {

std::vector<std::string> const names{"a", "b", "c", "aa", "A", "", "a b", "ab",
    "b\n", "_"};

using Model = std::vector<std::map<std::string, std::string>>;
using Table = fern::SymbolTable<std::string>;

void check_scope(pbt::Case& c, fern::Scope<std::string> const& scope,
    std::map<std::string, std::string> const& model, std::string const& what)
{
    PBT_EQ(scope.size(), model.size(), what << ": size of scope");
    auto it = model.begin();
    for(auto const& pair: scope) {
        PBT_CHECK(it != model.end(), what << ": scope lists too much");
        PBT_EQ(pair.first, it->first, what << ": name listed by scope");
        PBT_EQ(pair.second, it->second, what << ": value listed by scope");
        ++it;
    }
    for(auto const& name: names) {
        PBT_EQ(scope.has_value(name), model.count(name) > 0, what
            << ": scope has " << pbt::show(name));
        if(model.count(name)) {
            PBT_EQ(scope.value(name), model.at(name), what
                << ": value in scope of " << pbt::show(name));
        }
    }
}

void check_table(pbt::Case& c, Table const& table, Model const& model,
    std::string const& what)
{
    size_t size = 0;
    for(auto const& scope: model) size += scope.size();
    PBT_EQ(table.size(), size, what << ": size");
    PBT_EQ(table.empty(), size == 0, what << ": empty");
    PBT_EQ(table.scope_level(), model.size(), what << ": scope level");
    for(auto const& name: names) {
        size_t level = model.size();
        while(level > 0 && !model[level - 1].count(name)) --level;
        PBT_EQ(table.has_value(name), level > 0, what << ": has "
            << pbt::show(name));
        if(level > 0) {
            PBT_EQ(table.scope_level(name), level, what
                << ": scope level of " << pbt::show(name));
            PBT_EQ(table.value(name), model[level - 1].at(name), what
                << ": value of " << pbt::show(name));
        }
    }
    for(size_t i = 0; i < model.size(); ++i) {
        check_scope(c, table.scope(i + 1), model[i], what + ": level "
            + std::to_string(i + 1));
    }
}

void copy_or_move(pbt::Case& c, Table& table)
{
    switch(c.draw(5)) {
        case 0: { Table other(table); other.push_scope();
            other.add_value("a", "copy"); break; }
        case 1: { Table other(table); table = other; break; }
        case 2: { Table other(std::move(table)); table = std::move(other);
            break; }
        case 3: { Table other; other.push_scope(); other.add_value("a", "x");
            other = table; table = std::move(other); break; }
        default: { auto& self = table; table = self; break; }
    }
}

}  // namespace

PBT_TARGET(symbol_table, 3000, 1, "a name is defined in more than one scope "
    "at a time, or a scope with definitions is popped")
{
    Table table;
    Model model;
    size_t nr = c.size(0, 40);
    size_t nr_names = c.size(1, names.size());
    check_table(c, table, model, "new table");
    for(size_t i = 0; i < nr; ++i) {
        std::ostringstream what;
        what << "after step " << i;
        size_t kind = model.empty() ? 0 : c.weighted({2, 6, 2, 2, 1, 1});
        std::string const& name = names[c.draw(nr_names)];
        switch(kind) {
            case 0:
                table.push_scope();
                model.emplace_back();
                c.desc() << "push; ";
                break;
            case 1: {
                std::string value = "v" + std::to_string(i);
                for(auto const& scope: model) {
                    if(&scope != &model.back() && scope.count(name)) {
                        c.nontrivial();
                        c.label("hides");
                    }
                }
                table.add_value(name, value);
                model.back()[name] = value;
                c.desc() << "add " << pbt::show(name) << " = " << value
                    << "; ";
                break;
            }
            case 2:
                if(!model.back().empty()) {
                    c.nontrivial();
                    c.label("uncovers");
                }
                table.pop_scope();
                model.pop_back();
                c.desc() << "pop; ";
                break;
            case 3:
                if(model.back().count(name)) {
                    table.erase_value(name);
                    model.back().erase(name);
                    c.desc() << "erase " << pbt::show(name) << "; ";
                }
                break;
            case 4:
                table.clear_scope();
                model.back().clear();
                c.desc() << "clear; ";
                break;
            default:
                copy_or_move(c, table);
                c.desc() << "copy or move; ";
        }
        check_table(c, table, model, what.str());
    }
}

PBT_TARGET(scope, 1500, 1, "a name is set more than once or erased")
{
    fern::Scope<std::string> scope;
    std::map<std::string, std::string> model;
    size_t nr = c.size(0, 30);
    size_t nr_names = c.size(1, names.size());
    check_scope(c, scope, model, "new scope");
    for(size_t i = 0; i < nr; ++i) {
        std::string const& name = names[c.draw(nr_names)];
        switch(c.weighted({6, 3, 1, 1})) {
            case 0: {
                c.nontrivial(model.count(name));
                std::string value = std::to_string(i);
                scope.set_value(name, value);
                model[name] = value;
                c.desc() << "set " << pbt::show(name) << "; ";
                break;
            }
            case 1:
                if(model.count(name)) {
                    c.nontrivial();
                    scope.erase_value(name);
                    model.erase(name);
                    c.desc() << "erase " << pbt::show(name) << "; ";
                }
                break;
            case 2:
                scope.clear();
                model.clear();
                c.desc() << "clear; ";
                break;
            default: {
                fern::Scope<std::string> other(scope);
                other.set_value("a", "other");
                check_scope(c, scope, model, "original of copy");
                fern::Scope<std::string> third(std::move(scope));
                scope = fern::Scope<std::string>();
                check_scope(c, scope, {}, "fresh scope");
                scope = std::move(third);
                c.desc() << "copy and move; ";
            }
        }
        check_scope(c, scope, model, "after step " + std::to_string(i));
    }
}

namespace {

struct Item
{
    size_t kind;
    int64_t number;
};

void push(fern::Stack& stack, Item const& item)
{
    switch(item.kind) {
        case 0: stack.push(static_cast<int>(item.number)); break;
        case 1: stack.push(static_cast<double>(item.number) / 2); break;
        case 2: stack.push("s" + std::to_string(item.number)); break;
        case 3: stack.push(static_cast<uint8_t>(item.number)); break;
        case 4: stack.push(std::vector<int64_t>(3, item.number)); break;
        default: stack.push(item.number % 2 == 0); break;
    }
}

template<class T>
void check_type(pbt::Case& c, fern::Stack const& stack, bool same,
    std::string const& what)
{
    bool thrown = false;
    try {
        stack.top<T>();
    }
    catch(boost::bad_any_cast const&) {
        thrown = true;
    }
    PBT_EQ(thrown, !same, what << ": asking for a "
        << (same ? "value of its type" : "value of another type")
        << " is refused");
    PBT_EQ(stack.top().type() == typeid(T), same, what << ": type");
}

void check_stack(pbt::Case& c, fern::Stack const& stack,
    std::vector<Item> const& model, std::string const& what)
{
    PBT_EQ(stack.size(), model.size(), what << ": size");
    PBT_EQ(stack.empty(), model.empty(), what << ": empty");
    if(model.empty()) {
        return;
    }
    Item const& item = model.back();
    check_type<int>(c, stack, item.kind == 0, what);
    check_type<double>(c, stack, item.kind == 1, what);
    check_type<std::string>(c, stack, item.kind == 2, what);
    check_type<uint8_t>(c, stack, item.kind == 3, what);
    check_type<std::vector<int64_t>>(c, stack, item.kind == 4, what);
    check_type<bool>(c, stack, item.kind == 5, what);
    check_type<float>(c, stack, false, what);
    check_type<int64_t>(c, stack, false, what);
    switch(item.kind) {
        case 0: PBT_EQ(stack.top<int>(), static_cast<int>(item.number),
            what << ": top"); break;
        case 1: PBT_EQ(stack.top<double>(),
            static_cast<double>(item.number) / 2, what << ": top"); break;
        case 2: PBT_EQ(stack.top<std::string>(),
            "s" + std::to_string(item.number), what << ": top"); break;
        case 3: PBT_EQ(stack.top<uint8_t>(),
            static_cast<uint8_t>(item.number), what << ": top"); break;
        case 4: PBT_CHECK(stack.top<std::vector<int64_t>>() ==
            std::vector<int64_t>(3, item.number), what << ": top"); break;
        default: PBT_EQ(stack.top<bool>(), item.number % 2 == 0,
            what << ": top"); break;
    }
}

}  // namespace

PBT_TARGET(stack, 2500, 1, "a value is popped from under which another type "
    "of value appears")
{
    fern::Stack stack;
    std::vector<Item> model;
    size_t nr = c.size(0, 30);
    check_stack(c, stack, model, "new stack");
    for(size_t i = 0; i < nr; ++i) {
        switch(c.weighted({5, 3, 1})) {
            case 0: {
                Item item{c.draw(6), c.range(-100, 300)};
                push(stack, item);
                model.push_back(item);
                c.desc() << "push " << item.kind << ":" << item.number
                    << "; ";
                break;
            }
            case 1:
                if(!model.empty()) {
                    size_t kind = model.back().kind;
                    stack.pop();
                    model.pop_back();
                    c.nontrivial(!model.empty() && model.back().kind != kind);
                    c.desc() << "pop; ";
                }
                break;
            default: {
                fern::Stack other(stack);
                other.push(1);
                if(!model.empty()) { stack = other; stack.pop(); }
                fern::Stack third(std::move(stack));
                stack = std::move(third);
                c.desc() << "copy and move; ";
            }
        }
        check_stack(c, stack, model, "after step " + std::to_string(i));
    }
}
