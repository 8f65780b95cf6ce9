// P20: the thread pool runs every task exactly once and hands over its
// result.
#include <atomic>
#include <chrono>
#include <deque>
#include <future>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include "pbt.h"
#include "gen.h"
#include "fern/core/thread_pool.h"
#include "fern/core/thread_safe_queue.h"
#include "fern/core/join_threads.h"
#include "fern/algorithm/policy/execution_policy.h"
#include "fern/algorithm/policy/parallel_execution_policy.h"

namespace {

auto const patience = std::chrono::seconds(50);

//! Pass time without the scheduler noticing, or with.
void pause(uint32_t how)
{
    switch(how % 8) {
        case 0: case 1: case 2: break;
        case 3: case 4: std::this_thread::yield(); break;
        case 5: case 6: {
            volatile uint32_t n = 0;
            for(uint32_t i = 0; i < (how >> 3) % 3000; ++i) { n = n + 1; }
            break;
        }
        default:
            std::this_thread::sleep_for(std::chrono::microseconds(
                (how >> 3) % 200));
    }
}

struct Task
{
    //! 0: int, 1: void, 2: throws, 3: string, 4: unique_ptr, 5: submits
    //! another task, 6: throws an int.
    size_t kind;
    uint32_t before;
    uint32_t during;
};

struct Submitted
{
    std::future<int> integer;
    std::future<void> nothing;
    std::future<std::string> text;
    std::future<std::unique_ptr<int>> pointer;
    std::future<std::future<int>> nested;
};

struct Error: std::runtime_error
{
    Error(int n) : std::runtime_error("task " + std::to_string(n)), n(n) { }
    int n;
};

template<class F>
void ready(pbt::Case& c, std::future<F> const& future, size_t i)
{
    PBT_CHECK(future.valid(), "task " << i << " has no future");
    PBT_CHECK(future.wait_for(patience) == std::future_status::ready,
        "task " << i << " is not finished after "
        << patience.count() << " seconds");
}

std::vector<Task> tasks(pbt::Case& c, size_t most)
{
    std::vector<Task> result(c.size(0, most));
    for(auto& t: result) {
        t.kind = c.weighted({4, 3, 2, 2, 2, 2, 1});
        t.before = static_cast<uint32_t>(c.draw(1 << 16));
        t.during = static_cast<uint32_t>(c.draw(1 << 16));
    }
    return result;
}

Submitted submit(fern::ThreadPool& pool, Task const& t, int n,
    std::atomic<int>& count, std::atomic<int>& nested_count)
{
    Submitted s;
    uint32_t during = t.during;
    switch(t.kind) {
        case 0:
            s.integer = pool.submit([=, &count]() {
                pause(during);
                ++count;
                return n * 3;
            });
            break;
        case 1:
            s.nothing = pool.submit([=, &count]() {
                pause(during);
                ++count;
            });
            break;
        case 2:
            s.nothing = pool.submit([=, &count]() {
                pause(during);
                ++count;
                throw Error(n);
            });
            break;
        case 3:
            s.text = pool.submit([=, &count]() {
                pause(during);
                ++count;
                return "result of a task that is long " + std::to_string(n);
            });
            break;
        case 4: {
            // A task that can be moved only.
            auto p = std::make_unique<int>(n + 7);
            s.pointer = pool.submit([during, &count, p=std::move(p)]()
                    mutable {
                pause(during);
                ++count;
                return std::move(p);
            });
            break;
        }
        case 5:
            s.nested = pool.submit([=, &pool, &count, &nested_count]() {
                pause(during);
                ++count;
                return pool.submit([=, &nested_count]() {
                    ++nested_count;
                    return n * 5;
                });
            });
            break;
        default:
            s.integer = pool.submit([=, &count]() -> int {
                pause(during);
                ++count;
                throw n;
            });
    }
    return s;
}

void judge(pbt::Case& c, Task const& t, Submitted& s, size_t i, int n,
    std::atomic<int> const& count, std::atomic<int> const& nested_count)
{
    switch(t.kind) {
        case 0:
            ready(c, s.integer, i);
            PBT_EQ(s.integer.get(), n * 3, "result of task " << i);
            break;
        case 1:
            ready(c, s.nothing, i);
            s.nothing.get();
            break;
        case 2: {
            ready(c, s.nothing, i);
            int got = -1;
            try { s.nothing.get(); }
            catch(Error const& e) {
                got = e.n;
                PBT_EQ(std::string(e.what()), "task " + std::to_string(n),
                    "text of the exception");
            }
            PBT_EQ(got, n, "exception of task " << i);
            break;
        }
        case 3:
            ready(c, s.text, i);
            PBT_EQ(s.text.get(), "result of a task that is long " +
                std::to_string(n), "result of task " << i);
            break;
        case 4: {
            ready(c, s.pointer, i);
            auto p = s.pointer.get();
            PBT_CHECK(p && *p == n + 7, "result of task " << i);
            break;
        }
        case 5: {
            ready(c, s.nested, i);
            auto future = s.nested.get();
            ready(c, future, i);
            PBT_EQ(future.get(), n * 5, "result of nested task " << i);
            PBT_EQ(nested_count.load(), 1, "nested task " << i
                << " was executed");
            break;
        }
        default: {
            ready(c, s.integer, i);
            int got = -1;
            try { s.integer.get(); }
            catch(int e) { got = e; }
            PBT_EQ(got, n, "exception of task " << i);
        }
    }
    PBT_EQ(count.load(), 1, "task " << i << " (" << t.kind
        << ") was executed");
}

//! Destroy the pool in another thread: it must return.
void destroy(pbt::Case& c, std::unique_ptr<fern::ThreadPool> pool)
{
    auto* p = pool.release();
    auto done = std::make_shared<std::promise<void>>();
    auto future = done->get_future();
    std::thread thread([p, done]() { delete p; done->set_value(); });
    if(future.wait_for(patience) != std::future_status::ready) {
        thread.detach();
        PBT_CHECK(false, "destroying the pool takes longer than "
            << patience.count() << " seconds");
    }
    thread.join();
}

PBT_TARGET(tasks, 1200, 20, "several submitting threads and pool threads")
{
    size_t const nr_threads = 1 + c.draw(6), nr_submitters = 1 + c.draw(4);
    std::vector<std::vector<Task>> todo(nr_submitters);
    size_t total = 0, throwing = 0;
    size_t const most = c.chance(1, 5) ? 60 : 12;
    c.desc() << "pool of " << nr_threads << " threads; tasks submitted by "
        << nr_submitters << " threads: ";
    for(auto& ts: todo) {
        ts = tasks(c, most);
        total += ts.size();
        for(auto const& t: ts) {
            throwing += t.kind == 2 || t.kind == 6;
            c.desc() << t.kind;
        }
        c.desc() << "; ";
    }
    bool const wait_between = c.chance(1, 4);
    c.nontrivial(nr_threads > 1 && nr_submitters > 1 && total > 2);
    if(throwing) { c.label("some task throws"); }
    auto counts = std::make_unique<std::atomic<int>[]>(2 * total + 1);
    for(size_t i = 0; i < 2 * total; ++i) { counts[i] = 0; }
    auto pool = std::make_unique<fern::ThreadPool>(nr_threads);
    PBT_EQ(pool->size(), nr_threads, "size of the pool");
    std::vector<std::vector<Submitted>> submitted(nr_submitters);
    std::vector<size_t> first(nr_submitters);
    for(size_t i = 1; i < nr_submitters; ++i) {
        first[i] = first[i - 1] + todo[i - 1].size();
    }
    {
        std::vector<std::thread> submitters;
        for(size_t i = 0; i < nr_submitters; ++i) {
            submitters.emplace_back([&, i]() {
                for(size_t j = 0; j < todo[i].size(); ++j) {
                    size_t n = first[i] + j;
                    pause(todo[i][j].before);
                    submitted[i].push_back(submit(*pool, todo[i][j],
                        static_cast<int>(n), counts[2 * n],
                        counts[2 * n + 1]));
                }
            });
        }
        for(auto& s: submitters) { s.join(); }
    }
    if(wait_between) { std::this_thread::yield(); }
    for(size_t i = 0; i < nr_submitters; ++i) {
        PBT_EQ(submitted[i].size(), todo[i].size(), "number of futures");
        for(size_t j = 0; j < todo[i].size(); ++j) {
            size_t n = first[i] + j;
            judge(c, todo[i][j], submitted[i][j], n, static_cast<int>(n),
                counts[2 * n], counts[2 * n + 1]);
        }
    }
    destroy(c, std::move(pool));
    for(size_t i = 0; i < total; ++i) {
        PBT_EQ(counts[2 * i].load(), 1, "task " << i << " was executed");
    }
}

//! Tasks that nobody waits for before the pool is destroyed are executed at
//! most once, and their futures tell whether they were.
PBT_TARGET(abandoned, 1000, 20, "more tasks than threads")
{
    size_t const nr_threads = 1 + c.draw(5);
    auto todo = tasks(c, 30);
    for(auto& t: todo) { t.kind = c.draw(2) ? 2 : 0; }
    c.desc() << "pool of " << nr_threads << " threads is destroyed while "
        << todo.size() << " tasks are there";
    c.nontrivial(todo.size() > nr_threads);
    auto counts = std::make_unique<std::atomic<int>[]>(todo.size() + 1);
    std::atomic<int> unused{0};
    for(size_t i = 0; i < todo.size(); ++i) { counts[i] = 0; }
    std::vector<Submitted> submitted;
    auto pool = std::make_unique<fern::ThreadPool>(nr_threads);
    for(size_t i = 0; i < todo.size(); ++i) {
        pause(todo[i].before);
        submitted.push_back(submit(*pool, todo[i], static_cast<int>(i),
            counts[i], unused));
    }
    destroy(c, std::move(pool));
    size_t executed = 0;
    for(size_t i = 0; i < todo.size(); ++i) {
        int count = counts[i];
        PBT_CHECK(count == 0 || count == 1, "task " << i << " was executed "
            << count << " times");
        executed += count;
        if(count) {
            judge(c, todo[i], submitted[i], i, static_cast<int>(i), counts[i],
                unused);
            continue;
        }
        bool broken = false;
        try {
            if(todo[i].kind == 0) {
                ready(c, submitted[i].integer, i);
                submitted[i].integer.get();
            }
            else {
                ready(c, submitted[i].nothing, i);
                submitted[i].nothing.get();
            }
        }
        catch(std::future_error const& e) {
            broken = e.code() == std::future_errc::broken_promise;
        }
        PBT_CHECK(broken, "task " << i << " was not executed, and its future "
            "does not tell");
    }
    c.label(executed == todo.size() ? "all executed" : executed == 0
        ? "none executed" : "some executed");
}

PBT_TARGET(create_and_destroy, 400, 50, "several threads")
{
    size_t const nr_threads = 1 + c.draw(9);
    uint32_t const how = static_cast<uint32_t>(c.draw(1 << 16));
    bool const work = c.chance(1, 3);
    c.desc() << "pool of " << nr_threads << " threads, " << (work
        ? "one task" : "no tasks");
    c.nontrivial(nr_threads > 1);
    auto pool = std::make_unique<fern::ThreadPool>(nr_threads);
    PBT_EQ(pool->size(), nr_threads, "size of the pool");
    pause(how);
    if(work) {
        auto future = pool->submit([]() { return 5; });
        ready(c, future, 0);
        PBT_EQ(future.get(), 5, "result");
    }
    destroy(c, std::move(pool));
}

PBT_TARGET(back_to_back, 600, 5, "more tasks than threads")
{
    // Tasks that are submitted while the threads are going to sleep: none may
    // be overlooked.
    size_t const nr_threads = 1 + c.draw(3);
    size_t const nr_rounds = c.size(1, 20) * c.size(1, 15);
    uint32_t const how = static_cast<uint32_t>(c.draw(1 << 16));
    size_t const nr_pools = c.size(1, 6);
    c.desc() << nr_pools << " pools of " << nr_threads << " threads; "
        << nr_rounds << " tasks, one after another; pause " << how;
    c.nontrivial(nr_rounds > nr_threads);
    for(size_t i = 0; i < nr_pools; ++i) {
        fern::ThreadPool pool(nr_threads);
        for(size_t round = 0; round < nr_rounds; ++round) {
            auto future = pool.submit([round]() { return round; });
            PBT_CHECK(future.wait_for(patience) == std::future_status::ready,
                "task " << round << " is not executed");
            PBT_EQ(future.get(), round, "result of task " << round);
            pause(how + uint32_t(round) * 8 * 13);
        }
    }
}

PBT_TARGET(policy, 500, 5, "several copies of the policy are used")
{
    namespace fa = fern::algorithm;
    size_t const nr_threads = 1 + c.draw(5), nr_users = 1 + c.draw(4);
    size_t const nr_tasks = c.size(0, 12);
    c.desc() << "parallel execution policy of " << nr_threads
        << " threads, copied to " << nr_users << " threads that submit "
        << nr_tasks << " tasks each";
    c.nontrivial(nr_users > 1 && nr_tasks > 0);
    std::atomic<size_t> executed{0};
    std::vector<std::vector<std::future<size_t>>> futures(nr_users);
    {
        auto policy = std::make_unique<fa::ParallelExecutionPolicy>(
            nr_threads);
        PBT_EQ(policy->thread_pool().size(), nr_threads, "size of the pool");
        std::vector<fa::ExecutionPolicy> copies(nr_users,
            fa::ExecutionPolicy{*policy});
        auto* pool = &policy->thread_pool();
        for(auto& copy: copies) {
            auto* p = boost::get<fa::ParallelExecutionPolicy>(&copy);
            PBT_CHECK(p && &p->thread_pool() == pool,
                "a copy of the policy has another pool");
        }
        // The pool is there as long as one of the copies is.
        policy.reset();
        std::vector<std::thread> users;
        for(size_t i = 0; i < nr_users; ++i) {
            users.emplace_back([&, i]() {
                auto& p = boost::get<fa::ParallelExecutionPolicy>(copies[i]);
                for(size_t j = 0; j < nr_tasks; ++j) {
                    futures[i].push_back(p.thread_pool().submit([=,
                            &executed]() {
                        ++executed;
                        return i * 100 + j;
                    }));
                }
            });
        }
        for(auto& u: users) { u.join(); }
        for(size_t i = 0; i < nr_users; ++i) {
            for(size_t j = 0; j < nr_tasks; ++j) {
                ready(c, futures[i][j], j);
                PBT_EQ(futures[i][j].get(), i * 100 + j, "result");
            }
        }
    }
    PBT_EQ(executed.load(), nr_users * nr_tasks, "number of tasks executed");
}

//! Counts its live instances.
struct Item
{
    static std::atomic<int> live;

    Item() { ++live; }
    explicit Item(size_t producer, size_t n)
        : producer(producer), n(n), payload(std::make_unique<size_t>(n))
    { ++live; }
    Item(Item&& o)
        : producer(o.producer), n(o.n), payload(std::move(o.payload))
    { ++live; }
    Item& operator=(Item&&) = default;
    ~Item() { --live; }

    size_t producer{0}, n{0};
    std::unique_ptr<size_t> payload;
};

std::atomic<int> Item::live{0};

PBT_TARGET(queue_history, 20000, 1, "elements are pushed and popped")
{
    std::deque<size_t> model;
    size_t pushed = 0, popped = 0;
    {
        fern::ThreadSafeQueue<Item> queue;
        size_t steps = c.size(0, 40);
        for(size_t i = 0; i < steps; ++i) {
            if(c.chance(1, 2)) {
                queue.push(Item(0, pushed));
                model.push_back(pushed++);
                c.desc() << "push ";
            }
            else {
                Item item;
                bool got = queue.try_pop(item);
                c.desc() << "pop ";
                PBT_EQ(got, !model.empty(), "pop succeeds");
                if(got) {
                    PBT_EQ(item.n, model.front(), "element popped");
                    PBT_CHECK(item.payload && *item.payload == item.n,
                        "element's contents");
                    model.pop_front();
                    ++popped;
                }
            }
            PBT_EQ(queue.empty(), model.empty(), "queue is empty");
        }
    }
    PBT_EQ(Item::live.load(), 0, "elements left alive");
    c.nontrivial(popped > 0 && pushed > 1);
}

PBT_TARGET(queue_threads, 1500, 20, "several producers and consumers")
{
    size_t const nr_producers = 1 + c.draw(4), nr_consumers = 1 + c.draw(4);
    std::vector<std::vector<uint32_t>> pauses(nr_producers);
    size_t total = 0;
    size_t const most = c.chance(1, 3) ? 400 : 30;
    bool const pausing = c.chance(1, 2);
    for(auto& p: pauses) {
        p.resize(c.size(0, most));
        total += p.size();
        for(auto& how: p) {
            how = pausing ? static_cast<uint32_t>(c.draw(1 << 16)) : 0;
        }
    }
    c.desc() << nr_producers << " producers of " << total << " elements"
        << (pausing ? ", pausing" : "") << ", " << nr_consumers
        << " consumers";
    c.nontrivial(nr_producers > 1 && nr_consumers > 1 && total > 1);
    std::vector<std::vector<Item>> got(nr_consumers);
    {
        fern::ThreadSafeQueue<Item> queue;
        std::atomic<size_t> nr_popped{0}, nr_left{nr_producers};
        std::atomic<bool> stop{false};
        std::vector<std::thread> threads;
        for(size_t i = 0; i < nr_producers; ++i) {
            threads.emplace_back([&, i]() {
                for(size_t n = 0; n < pauses[i].size(); ++n) {
                    pause(pauses[i][n]);
                    queue.push(Item(i, n));
                }
                --nr_left;
            });
        }
        for(size_t i = 0; i < nr_consumers; ++i) {
            threads.emplace_back([&, i]() {
                while(!stop) {
                    Item item;
                    bool last = nr_left == 0;
                    if(queue.try_pop(item)) {
                        got[i].push_back(std::move(item));
                        ++nr_popped;
                    }
                    else if(last) {
                        // Nothing comes any more, and the queue was empty.
                        break;
                    }
                }
            });
        }
        for(auto& t: threads) { t.join(); }
        PBT_CHECK(queue.empty(), "elements are left in the queue");
    }
    std::vector<std::vector<int>> seen(nr_producers);
    for(size_t i = 0; i < nr_producers; ++i) {
        seen[i].assign(pauses[i].size(), 0);
    }
    for(auto const& items: got) {
        std::vector<long> last(nr_producers, -1);
        for(auto const& item: items) {
            PBT_CHECK(item.producer < nr_producers &&
                item.n < seen[item.producer].size() && item.payload &&
                *item.payload == item.n, "element that was not pushed");
            PBT_CHECK(long(item.n) > last[item.producer], "consumer gets "
                "element " << item.n << " of a producer after "
                << last[item.producer]);
            last[item.producer] = long(item.n);
            ++seen[item.producer][item.n];
        }
    }
    for(size_t i = 0; i < nr_producers; ++i) {
        for(size_t n = 0; n < seen[i].size(); ++n) {
            PBT_EQ(seen[i][n], 1, "element " << n << " of producer " << i
                << " was popped");
        }
    }
    got.clear();
    PBT_EQ(Item::live.load(), 0, "elements left alive");
}

PBT_TARGET(join_threads, 800, 5, "some threads run, others don't")
{
    std::vector<uint32_t> plan(c.size(0, 8));
    size_t joined = 0;
    for(auto& p: plan) { p = static_cast<uint32_t>(c.draw(1 << 16)); }
    auto finished = std::make_unique<std::atomic<bool>[]>(plan.size() + 1);
    for(size_t i = 0; i < plan.size(); ++i) { finished[i] = false; }
    c.desc() << "joining " << plan.size() << " threads";
    std::vector<std::thread> threads;
    {
        fern::JoinThreads joiner(threads);
        for(size_t i = 0; i < plan.size(); ++i) {
            threads.emplace_back([&, i]() {
                pause(plan[i]);
                finished[i] = true;
            });
        }
        for(size_t i = 0; i < plan.size(); ++i) {
            if(plan[i] % 3 == 1) { threads[i].join(); ++joined; }
        }
        if(plan.size() && plan[0] % 5 == 1) { threads.emplace_back(); }
    }
    for(size_t i = 0; i < plan.size(); ++i) {
        PBT_CHECK(finished[i], "thread " << i << " is not finished");
        PBT_CHECK(!threads[i].joinable(), "thread " << i << " is not joined");
    }
    c.nontrivial(joined > 0 && joined < plan.size());
}

} // Anonymous namespace
