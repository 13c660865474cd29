// What the monitors of multi-threaded code share: an event log which doesn't synchronise the threads
// it watches, delays, and schedules (controlled with VP_SCHED, those of the machine otherwise)
#pragma once
#include "common.hpp"
#include <atomic>
#include <chrono>
#include <mutex>
#include <thread>
#ifdef VP_SCHED
#include "sched.hpp"
#endif

namespace mon {

// ---------------------------------------------------------------- log

struct Event { int kind, id, thread; std::int64_t value; };

/// Slots are taken with relaxed atomics: the log orders events without synchronising the threads which write it
struct EventLog {
    std::vector<Event> slots;
    std::atomic<std::size_t> next{0};
    explicit EventLog(std::size_t n) : slots(n) {}
    void add(int kind, int id, std::int64_t value = 0);
    std::size_t size() const { return std::min(next.load(std::memory_order_relaxed), slots.size()); }
};

inline std::atomic<int>& thread_ids() { static std::atomic<int> x{0}; return x; }
inline std::atomic<int>& epoch() { static std::atomic<int> x{0}; return x; }

inline int thread_id() {
    static thread_local int id = -1, of = -1;
    auto e = epoch().load(std::memory_order_relaxed);
    if (of != e) { of = e; id = thread_ids().fetch_add(1, std::memory_order_relaxed); }
    return id;
}

inline void EventLog::add(int kind, int id, std::int64_t value) {
    auto k = next.fetch_add(1, std::memory_order_relaxed);
    if (k < slots.size()) { slots[k] = {kind, id, thread_id(), value}; }
}

// ---------------------------------------------------------------- delays

struct Delay {
    std::uint64_t seed = 0;
    int style = 0; ///< 0 none, 1 yields, 2 short sleeps now and then, 3 spins

    void operator()(int where, int id) const {
        Rng r(hash64(hash64(seed, static_cast<std::uint64_t>(where)), static_cast<std::uint64_t>(id)));
        if (style == 0 || r.p(0.3)) { return; }
#ifdef VP_SCHED
        for (auto n = r.i(0, style == 1 ? 1 : 6); n > 0; --n) { sched::point(style == 3); }
#else
        if (style == 1) { for (auto n = r.i(0, 3); n > 0; --n) { std::this_thread::yield(); } }
        else if (style == 2) { if (r.p(0.3)) { std::this_thread::sleep_for(std::chrono::microseconds(r.i(1, 120))); } }
        else { volatile int x = 0; for (auto n = r.i(0, 3000); n > 0; --n) { x = x + 1; } }
#endif
    }
};

struct Schedule {
#ifdef VP_SCHED
    std::unique_ptr<sched::Controlled> controlled;
#endif
    Delay delay;
    Context& c;

    explicit Schedule(Context& c) : c(c) {
        auto& r = c.rng;
        delay.seed = r.next();
        delay.style = r.i(0, 3);
        thread_ids() = 0;
        ++epoch();
        thread_id();
#ifdef VP_SCHED
        sched::Config k;
        k.strategy = r.i(0, 2);
        k.stay = r.u(0.3, 0.98);
        k.changes = r.i(0, 12);
        k.spurious = r.p(0.4) ? r.u(0.01, 0.2) : 0;
        k.preempt = r.p(0.5) ? 0 : r.i(5, 200);
        c.note("schedule strategy=" + istr(k.strategy) + " stay=" + str(k.stay) + " changes=" + istr(k.changes) + " spurious=" + str(k.spurious) + " preempt=" + istr(k.preempt) + " delays=" + istr(delay.style));
        controlled.reset(new sched::Controlled(r.next(), k));
#endif
    }
    /// To be called when the library says it's done
    void finish() {
#ifdef VP_SCHED
        auto left = controlled->finish();
        auto& s = sched::g();
        c.check(left == 0, istr(left) + " threads are still running after the call returned");
        c.count("scheduling decisions", static_cast<std::int64_t>(s.steps.load()));
        c.count("thread switches", s.switches);
        c.count("contended locks", s.contended);
        c.count("waits on conditions", s.waits);
        c.count("spurious wake-ups injected", s.spurious);
        c.seen("numbers of threads alive at once", static_cast<std::uint64_t>(s.max_alive) << 12);
        c.seen("schedules", s.trace);
        c.sig(s.trace);
        if (controlled->was_free) { c.count("schedules given up"); }
#else
        c.sig(delay.seed);
#endif
    }
};

} // namespace mon
