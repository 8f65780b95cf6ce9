// P39: the action of a scope exit runs once, when the last one responsible for
// it is gone.
#include <exception>
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "pbt.h"
#include "fern/core/scope_exit.h"

namespace {

//! What ran, in order, and with what it ran.
using Log = std::vector<std::string>;

std::string join(Log const& log)
{
    std::string result;
    for(auto const& what: log) result += (result.empty() ? "" : ", ") + what;
    return result;
}

//! An action that owns what it needs.
struct Action
{
    Log*           log;
    std::unique_ptr<std::string> what;

    void operator()() { log->push_back(what ? *what : "nothing"); }
};

template<class F>
F make(Log& log, size_t id)
{
    std::string what = "action " + std::to_string(id);
    if constexpr (std::is_same<F, Action>::value) {
        return Action{&log, std::make_unique<std::string>(what)};
    }
    else {
        auto shared = std::make_shared<std::string>(what);
        return [&log, shared]() { log.push_back(*shared); };
    }
}

std::string name(size_t id) { return "action " + std::to_string(id); }

//! Guards that live as long as we want them to.
template<class F>
void pool(pbt::Case& c)
{
    using Guard = fern::ScopeExit<F>;
    struct Slot { std::unique_ptr<Guard> guard; size_t id; bool responsible; };
    Log log, expected;
    size_t nr_actions = 0;
    bool moved_then_gone = false;
    {
        std::vector<Slot> slots;
        auto destroy = [&](size_t i) {
            if(slots[i].responsible) expected.push_back(name(slots[i].id));
            slots.erase(slots.begin() + i);
        };
        size_t nr = c.size(1, 12);
        for(size_t n = 0; n < nr; ++n) {
            size_t kind = slots.empty() ? 0 : c.weighted({3, 2, 3, 3});
            size_t i = slots.empty() ? 0 : c.draw(slots.size());
            switch(kind) {
                case 0: {
                    size_t id = nr_actions++;
                    c.desc() << "guard of " << id << "; ";
                    if(c.chance(1, 2)) {
                        slots.push_back({std::make_unique<Guard>(
                            fern::makeScopeExit(make<F>(log, id))), id, true});
                    }
                    else {
                        F f(make<F>(log, id));
                        slots.push_back({std::make_unique<Guard>(
                            std::move(f)), id, true});
                    }
                    break;
                }
                case 1: {
                    c.desc() << "release " << i << " (" << slots[i].id
                        << "); ";
                    c.label("release");
                    slots[i].guard->release();
                    slots[i].responsible = false;
                    break;
                }
                case 2: {
                    c.desc() << "move " << i << " (" << slots[i].id << "); ";
                    c.label("move");
                    auto guard = std::make_unique<Guard>(
                        std::move(*slots[i].guard));
                    slots.push_back({std::move(guard), slots[i].id,
                        slots[i].responsible});
                    moved_then_gone |= slots[i].responsible;
                    slots[i].responsible = false;
                    break;
                }
                default: {
                    c.desc() << "end " << i << " (" << slots[i].id << "); ";
                    destroy(i);
                }
            }
            PBT_EQ(join(log), join(expected), "actions that ran");
        }
        c.nontrivial(moved_then_gone);
        while(!slots.empty()) {
            destroy(c.draw(slots.size()));
            PBT_EQ(join(log), join(expected), "actions that ran");
        }
    }
    PBT_EQ(join(log), join(expected), "actions that ran");
}

struct Stop { size_t level; };

struct Run
{
    pbt::Case&     c;
    Log            log;
    Log            expected;
    size_t         nr_actions{0};
    bool           interesting{false};
};

template<class F>
void scope(Run& r, size_t level);

//! Enters a scope when it goes, possibly while an exception passes.
template<class F>
struct Last
{
    Run&           r;
    size_t         level;

    ~Last()
    {
        r.c.desc() << "at last: ";
        if(std::uncaught_exceptions()) r.c.label("while unwinding");
        try {
            scope<F>(r, level);
        }
        catch(Stop const&) {
            r.c.desc() << "caught; ";
        }
    }
};

//! Scopes within scopes, that may be left by an exception.
template<class F>
void scope(Run& r, size_t level)
{
    // Gone after the guards below, and adds what must run in their order.
    struct Expect
    {
        Run&           r;
        std::vector<std::pair<size_t, bool>> actions;
        ~Expect()
        {
            for(size_t i = actions.size(); i > 0; --i) {
                if(actions[i - 1].second) {
                    r.expected.push_back(name(actions[i - 1].first));
                }
            }
        }
    };
    Expect expect{r, {{r.nr_actions, true}, {r.nr_actions + 1, true}}};
    size_t id = r.nr_actions;
    r.nr_actions += 2;
    r.c.desc() << "{ guards " << id << ", " << id + 1 << "; ";
    auto first = fern::makeScopeExit(make<F>(r.log, id));
    auto second = fern::makeScopeExit(make<F>(r.log, id + 1));
    std::unique_ptr<Last<F>> last;
    if(level < 3 && r.c.chance(1, 3)) last.reset(new Last<F>{r, level + 1});
    size_t nr = r.c.size(0, 3);
    for(size_t i = 0; i < nr; ++i) {
        switch(r.c.weighted({1, 2, level < 4 ? 3u : 0u, level < 4 ? 2u : 0u,
            1})) {
            case 0: {
                first.release();
                expect.actions[0].second = false;
                r.c.desc() << "release " << id << "; ";
                break;
            }
            case 1: {
                second.release();
                expect.actions[1].second = false;
                r.c.desc() << "release " << id + 1 << "; ";
                break;
            }
            case 2: scope<F>(r, level + 1); break;
            case 3: {
                r.c.desc() << "try ";
                size_t before = r.expected.size();
                try {
                    scope<F>(r, level + 1);
                }
                catch(Stop const&) {
                    r.c.label("exception");
                    r.interesting |= r.expected.size() > before;
                    r.c.desc() << "caught; ";
                }
                break;
            }
            default: r.c.desc() << "throw } "; throw Stop{level};
        }
    }
    r.c.desc() << "} ";
}

template<class F>
void scopes(pbt::Case& c)
{
    Run r{c, {}, {}};
    try {
        scope<F>(r, 0);
    }
    catch(Stop const&) {
        c.label("exception");
        r.interesting = true;
    }
    c.nontrivial(r.interesting);
    PBT_EQ(join(r.log), join(r.expected), "actions that ran");
}

}  // namespace

PBT_TARGET(lambda_like, 1000, 1, "a responsible guard is moved")
{
    pool<std::function<void()>>(c);
}

PBT_TARGET(owner, 1000, 1, "a responsible guard is moved")
{
    pool<Action>(c);
}

PBT_TARGET(scopes, 1500, 1, "an exception ends scopes with actions")
{
    if(c.chance(1, 2)) scopes<Action>(c);
    else scopes<std::function<void()>>(c);
}
