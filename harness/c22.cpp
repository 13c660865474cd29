// C22: the bounded queue, the pipeline and the pool, under controlled schedules (VP_SCHED) or a race detector
#include "threads.hpp"
#include <functional>
#include <limits>
#include "numeric/dense.hpp"
#include "detail/thread.hpp"

using namespace mon;

namespace {

enum Kind { PRODUCE, PRODUCED, COMPUTE, COMPUTED, RETIRE, RETIRED, PUSH, PUSHED, POP, POPPED, EMPTY, SIZE, CLOSING, RETURNED };

// ---------------------------------------------------------------- what travels through the queues

std::atomic<std::int64_t> alive{0};

struct Item {
    int id = -1;
    std::int64_t payload = 0;
    std::unique_ptr<std::int64_t> cell; ///< so that a lost or doubled object shows
    Item() { ++alive; }
    Item(int id, std::int64_t payload) : id(id), payload(payload), cell(new std::int64_t(payload)) { ++alive; }
    Item(Item const& o) : id(o.id), payload(o.payload), cell(o.cell ? new std::int64_t(*o.cell) : nullptr) { ++alive; }
    Item(Item&& o) noexcept : id(o.id), payload(o.payload), cell(std::move(o.cell)) { ++alive; o.id = -2; }
    Item& operator=(Item const& o) { id = o.id; payload = o.payload; cell.reset(o.cell ? new std::int64_t(*o.cell) : nullptr); return *this; }
    Item& operator=(Item&& o) noexcept { id = o.id; payload = o.payload; cell = std::move(o.cell); if (&o != this) { o.id = -2; } return *this; }
    ~Item() { --alive; }
    bool whole() const { return cell && *cell == payload; }
    void set(std::int64_t v) { payload = v; if (cell) { *cell = v; } }
};

std::int64_t made(int id) { return 1000003 * (id + 1); }
std::int64_t computed(std::int64_t v) { return v * 3 + 7; }

// ---------------------------------------------------------------- the pipeline

void pipeline(Context& c) {
    auto& r = c.rng;
    auto const size = r.p(0.1) ? 0 : r.p(0.2) ? 1 : r.i(1, 24);
    auto const threads = r.i(1, 6);
    auto const capacity = r.p(0.3) ? 0 : r.i(1, 7);
    c.note("parallel_for size=" + istr(size) + " threads=" + istr(threads) + " queue=" + istr(capacity));
    EventLog log(static_cast<std::size_t>(size) * 6 + 64);
    alive = 0;
    std::vector<std::int64_t> results(static_cast<std::size_t>(size), -1); // written by the retiring thread only
    std::atomic<int> bad{0};
    std::size_t at_return;
    {
        Schedule s(c);
        auto& delay = s.delay;
        cpb::parallel_for(
            static_cast<std::size_t>(size), static_cast<std::size_t>(threads), static_cast<std::size_t>(capacity),
            [&](std::size_t id) {
                log.add(PRODUCE, static_cast<int>(id));
                delay(0, static_cast<int>(id));
                Item x(static_cast<int>(id), made(static_cast<int>(id)));
                log.add(PRODUCED, static_cast<int>(id));
                return x;
            },
            [&](Item& x) {
                auto id = x.id;
                log.add(COMPUTE, id, x.payload);
                if (!x.whole()) { bad.fetch_add(1, std::memory_order_relaxed); }
                delay(1, id);
                x.set(computed(x.payload));
                log.add(COMPUTED, id, x.payload);
            },
            [&](Item x, std::size_t id) {
                log.add(RETIRE, static_cast<int>(id), x.payload);
                if (!x.whole() || x.id != static_cast<int>(id)) { bad.fetch_add(1, std::memory_order_relaxed); }
                delay(2, static_cast<int>(id));
                if (id < results.size()) { results[id] = x.payload; }
                log.add(RETIRED, static_cast<int>(id), x.payload);
            }
        );
        at_return = log.size();
        log.add(RETURNED, 0);
        s.finish();
    }
    c.check(log.next.load() <= log.slots.size(), "more events than jobs");
    c.check(log.size() == at_return + 1, "work went on after the call had returned");
    c.check(bad == 0, "a job was damaged on its way");
    c.check(alive == 0, istr(alive.load()) + " job objects left over");

    std::vector<int> count(6 * static_cast<std::size_t>(size) + 6, 0);
    auto next_produced = 0, computing = 0, started = 0, pushed = 0;
    auto producing = false, retiring = false;
    std::map<int, std::vector<int>> by_worker; // in the order in which they were computed
    std::map<int, int> worker_of;
    std::vector<int> retired;
    for (std::size_t k = 0; k < at_return; ++k) {
        auto e = log.slots[k];
        c.require(e.id >= 0 && e.id < size, [&] { return "a job with number " + istr(e.id) + " of " + istr(size); });
        auto n = ++count[static_cast<std::size_t>(e.kind * size + e.id)];
        c.require(n == 1, [&] { return "job " + istr(e.id) + " went through stage " + istr(e.kind) + " twice"; });
        if (e.kind == PRODUCE) {
            c.check(!producing, "two jobs produced at a time");
            producing = true;
            c.require(e.id == next_produced, [&] { return "job " + istr(e.id) + " produced where " + istr(next_produced) + " was next"; });
            pushed = next_produced++;
            // the workers which aren't computing may have taken one each
            auto waiting = pushed - started - (threads - computing);
            c.require(capacity == 0 || waiting <= capacity, [&] { return istr(waiting) + " jobs waiting in a queue of capacity " + istr(capacity); });
            if (capacity > 0 && waiting == capacity) { c.count("times the queue was full"); }
        } else if (e.kind == PRODUCED) {
            producing = false;
        } else if (e.kind == COMPUTE) {
            c.require(count[static_cast<std::size_t>(PRODUCED * size + e.id)] == 1, [&] { return "job " + istr(e.id) + " computed before it was produced"; });
            c.require(e.value == made(e.id), [&] { return "job " + istr(e.id) + " was computed from another value"; });
            ++started;
            ++computing;
            c.require(computing <= threads, [&] { return istr(computing) + " jobs computed at once by " + istr(threads) + " workers"; });
            worker_of[e.id] = e.thread;
        } else if (e.kind == COMPUTED) {
            --computing;
            c.require(worker_of[e.id] == e.thread, [&] { return "job " + istr(e.id) + " moved between workers"; });
            by_worker[e.thread].push_back(e.id);
        } else if (e.kind == RETIRE) {
            c.check(!retiring, "two results retired at a time");
            retiring = true;
            c.require(count[static_cast<std::size_t>(COMPUTED * size + e.id)] == 1, [&] { return "job " + istr(e.id) + " retired before it was computed"; });
            c.require(e.value == computed(made(e.id)), [&] { return "job " + istr(e.id) + " retired with the result " + istr(e.value); });
            retired.push_back(e.id);
        } else if (e.kind == RETIRED) {
            retiring = false;
        }
    }
    for (int kind = PRODUCE; kind <= RETIRED; ++kind) {
        for (int id = 0; id < size; ++id) {
            c.require(count[static_cast<std::size_t>(kind * size + id)] == 1, [&] {
                return "job " + istr(id) + " of " + istr(size) + " didn't get through stage " + istr(kind) + " before the call returned";
            });
        }
    }
    c.check(static_cast<int>(by_worker.size()) <= threads, "more workers than asked for");
    for (auto const& w : by_worker) {
        std::vector<int> seen;
        for (auto id : retired) { if (worker_of[id] == w.first) { seen.push_back(id); } }
        c.check(seen == w.second, "the results of one worker were retired out of order");
    }
    for (int id = 0; id < size; ++id) { c.check(results[static_cast<std::size_t>(id)] == computed(made(id)), "result lost"); }
    c.count("jobs", size);
    c.count("pipelines");
    c.seen("pipeline configurations", hash64(hash64(hash64(1, static_cast<std::uint64_t>(size)), static_cast<std::uint64_t>(threads)), static_cast<std::uint64_t>(capacity)));
    c.seen("retirement orders", [&] { std::uint64_t h = 7; for (auto id : retired) { h = hash64(h, static_cast<std::uint64_t>(id)); } return h; }());
    c.nontrivial = size > 1;
}

// ---------------------------------------------------------------- the pool

void pool(Context& c) {
    auto& r = c.rng;
    auto const size = r.p(0.1) ? 0 : r.i(1, 24);
    auto const threads = r.i(1, 6);
    auto const how = r.i(0, 3); ///< how it ends
    c.note("pool jobs=" + istr(size) + " threads=" + istr(threads) + " end=" + istr(how));
    EventLog log(static_cast<std::size_t>(size) * 4 + 64);
    alive = 0;
    std::atomic<int> bad{0};
    std::vector<std::int64_t> results(static_cast<std::size_t>(size), -1);
    std::size_t at_return;
    {
        Schedule s(c);
        auto& delay = s.delay;
        {
            cpb::ThreadPool p(threads);
            for (int id = 0; id < size; ++id) {
                Item x(id, made(id));
                auto job = [&, x]() {
                    log.add(COMPUTE, x.id, x.payload);
                    if (!x.whole()) { bad.fetch_add(1, std::memory_order_relaxed); }
                    delay(1, x.id);
                    results[static_cast<std::size_t>(x.id)] = computed(x.payload);
                    log.add(COMPUTED, x.id);
                };
                if (id % 2) { p.add(job); } else { p.add(std::move(job)); }
                delay(0, id);
            }
            if (how != 0) { p.join(); at_return = log.size(); }
            if (how == 2) { p.join(); }
        }
        if (how == 0) { at_return = log.size(); }
        log.add(RETURNED, 0);
        s.finish();
    }
    c.check(log.next.load() <= log.slots.size(), "more events than jobs");
    c.check(log.size() == at_return + 1, "work went on after the pool was joined");
    c.check(bad == 0, "a job was damaged on its way");
    c.check(alive == 0, istr(alive.load()) + " job objects left over");
    std::vector<int> begun(static_cast<std::size_t>(size), 0), done(static_cast<std::size_t>(size), 0);
    auto computing = 0;
    for (std::size_t k = 0; k < at_return; ++k) {
        auto e = log.slots[k];
        c.check(e.id >= 0 && e.id < size, "unknown job");
        if (e.kind == COMPUTE) { ++begun[static_cast<std::size_t>(e.id)]; ++computing; } else { ++done[static_cast<std::size_t>(e.id)]; --computing; }
        c.check(computing <= threads, "more jobs at once than workers");
    }
    for (int id = 0; id < size; ++id) {
        auto k = static_cast<std::size_t>(id);
        c.require(begun[k] == 1 && done[k] == 1, [&] { return "job " + istr(id) + " was done " + istr(done[k]) + " times"; });
        c.check(results[k] == computed(made(id)), "the result of a job got lost");
    }
    c.count("jobs", size);
    c.count("pools");
    c.nontrivial = size > 1;
}

// ---------------------------------------------------------------- the queue

void queue(Context& c) {
    auto& r = c.rng;
    auto const producers = r.i(1, 3), consumers = r.i(1, 3), rounds = r.p(0.3) ? 2 : 1;
    auto const capacity = r.p(0.2) ? 0 : r.i(1, 4);
    auto const watch = r.p(0.5);
    std::vector<int> load;
    auto total = 0;
    for (int p = 0; p < producers; ++p) { load.push_back(r.i(0, 10)); total += load.back(); }
    c.note("queue producers=" + istr(producers) + " consumers=" + istr(consumers) + " capacity=" + istr(capacity) + " items=" + istr(total) + " rounds=" + istr(rounds));
    EventLog log(static_cast<std::size_t>(total * rounds) * 4 + 400);
    alive = 0;
    std::atomic<int> bad{0};
    {
        Schedule s(c);
        auto& delay = s.delay;
        {
            auto q = capacity ? std::unique_ptr<cpb::detail::Queue<Item>>(new cpb::detail::Queue<Item>(static_cast<std::size_t>(capacity)))
                              : std::unique_ptr<cpb::detail::Queue<Item>>(new cpb::detail::Queue<Item>());
            for (int round = 0; round < rounds; ++round) {
                std::vector<std::thread> all;
                std::vector<std::thread> makers;
                q->add_producer();
                for (int k = 0; k < consumers; ++k) {
                    all.emplace_back([&, k] {
                        for (;;) {
                            log.add(POP, k);
                            auto m = q->pop();
                            if (!m) { log.add(EMPTY, k, round); break; }
                            auto x = m.get();
                            log.add(POPPED, x.id, x.payload);
                            if (!x.whole()) { bad.fetch_add(1, std::memory_order_relaxed); }
                            delay(1, x.id);
                        }
                    });
                }
                for (int p = 0; p < producers; ++p) {
                    makers.emplace_back([&, p, round] {
                        cpb::detail::QueueGuard<Item> guard(*q);
                        for (int k = 0; k < load[static_cast<std::size_t>(p)]; ++k) {
                            auto id = (round * 10 + p) * 100 + k;
                            Item x(id, made(id));
                            log.add(PUSH, id);
                            if (k % 2) { q->push(x); } else { q->push(std::move(x)); }
                            log.add(PUSHED, id);
                            delay(0, id);
                        }
                    });
                }
                if (watch) {
                    all.emplace_back([&] {
                        for (int k = 0; k < 12; ++k) {
                            log.add(SIZE, 0, static_cast<std::int64_t>(q->size()));
                            delay(2, k);
                        }
                    });
                }
                for (auto& t : makers) { t.join(); }
                log.add(CLOSING, 0, round);
                q->remove_producer();
                for (auto& t : all) { t.join(); }
                log.add(SIZE, 1, static_cast<std::int64_t>(q->size()));
            }
        }
        s.finish();
    }
    c.check(log.next.load() <= log.slots.size(), "more events than items");
    c.check(bad == 0, "an item was damaged on its way");
    c.check(alive == 0, istr(alive.load()) + " items left over");

    std::map<int, std::size_t> push_begin, push_end, pop_begin, pop_end;
    std::map<int, std::size_t> thread_pop;
    auto closing = -1, empty = 0;
    for (std::size_t k = 0; k < log.size(); ++k) {
        auto e = log.slots[k];
        if (e.kind == PUSH) { push_begin[e.id] = k; }
        else if (e.kind == PUSHED) {
            push_end[e.id] = k;
            // pops which have begun may have taken one each
            auto in = static_cast<int>(push_end.size()) - static_cast<int>(pop_end.size()) - static_cast<int>(thread_pop.size());
            c.require(capacity == 0 || in <= capacity, [&] { return "at least " + istr(in) + " items in a queue of capacity " + istr(capacity); });
        }
        else if (e.kind == POP) { thread_pop[e.thread] = k; }
        else if (e.kind == POPPED) {
            c.require(push_begin.count(e.id) == 1, [&] { return "item " + istr(e.id) + " came out before it was put in"; });
            c.require(!pop_end.count(e.id), [&] { return "item " + istr(e.id) + " came out twice"; });
            c.require(e.value == made(e.id), [&] { return "item " + istr(e.id) + " changed in the queue"; });
            pop_begin[e.id] = thread_pop[e.thread];
            pop_end[e.id] = k;
            thread_pop.erase(e.thread);
        }
        else if (e.kind == EMPTY) {
            c.check(closing == e.value, "a consumer was told that the queue is closed while it had a producer");
            thread_pop.erase(e.thread);
            ++empty;
        }
        else if (e.kind == CLOSING) { closing = static_cast<int>(e.value); }
        else if (e.kind == SIZE) {
            c.require(capacity == 0 || e.value <= capacity, [&] { return "the queue of capacity " + istr(capacity) + " holds " + istr(e.value) + " items"; });
            c.check(e.id == 0 || e.value == 0, "items left in a queue which was closed and emptied");
            c.count("sizes observed");
        }
    }
    c.check(empty == consumers * rounds, "number of consumers which were told that it's over");
    c.check(static_cast<int>(push_end.size()) == total * rounds && pop_end.size() == push_end.size(),
            istr(push_end.size()) + " items were put in and " + istr(pop_end.size()) + " came out, of " + istr(total * rounds));
    // first in, first out, wherever the log leaves no doubt
    for (auto const& a : push_end) {
        for (auto const& b : push_begin) {
            if (a.second < b.second) {
                c.require(!(pop_end[b.first] < pop_begin[a.first]), [&] { return "item " + istr(b.first) + " overtook item " + istr(a.first); });
            }
        }
    }
    if (consumers == 1) {
        std::map<std::size_t, int> order;
        for (auto const& p : pop_end) { order[p.second] = p.first; }
        std::map<int, int> last;
        for (auto const& o : order) {
            auto p = o.second / 100;
            c.require(!last.count(p) || last[p] < o.second, [&] { return "item " + istr(o.second) + " came out after item " + istr(last[p]) + " of the same producer"; });
            last[p] = o.second;
        }
    }
    c.count("items queued", total * rounds);
    c.count("queues");
    c.nontrivial = total > 1;
}

void random_case(Context& c) {
    auto what = c.rng.i(0, 9);
    if (what < 5) { pipeline(c); } else if (what < 7) { pool(c); } else { queue(c); }
}

} // namespace

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C22";
    s.rule = "a case is one run of the pipeline, the pool or a queue under one schedule; distinct by the sequence of scheduling decisions (delay seeds under the race detector); non-trivial with more than one job";
    s.random_case = random_case;
    return main_suite(s, argc, argv);
}
