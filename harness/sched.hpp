// Controlled scheduling of real threads.
//
// The program's pthread functions are replaced by the ones below. While a `Controlled` object lives, the
// threads which belong to it run one at a time and the scheduler decides at every synchronisation operation
// who goes on: random, sticky, or by random priorities with a few random changes. The choice is a function of
// the seed, so that a schedule can be replayed. Condition variables wake up a random waiter, and sometimes
// wake up spuriously. If nobody can go on, the program is deadlocked and the monitor says so at once.
// If the code under test blocks in a way the scheduler doesn't know, everything is let go and runs freely:
// the scheduler never makes correct code fail.
#pragma once
#include "common.hpp"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <dlfcn.h>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <thread>
#include <time.h>

namespace sched {

enum class State { runnable, mutex, cond, join, finished };

struct Thread {
    int id = 0;
    State state = State::runnable;
    void* on = nullptr;
    bool timed = false, timed_out = false;
    std::uint64_t priority = 0;
    sem_t sem;
    pthread_t handle{};
    Thread* target = nullptr; ///< of join
    void* (*start)(void*) = nullptr;
    void* arg = nullptr;
};

struct Config {
    int strategy = 0;        ///< 0 random, 1 sticky, 2 priorities
    double stay = 0.7;       ///< sticky: probability to go on with the same thread
    int changes = 3;         ///< priorities: expected number of changes in 400 steps
    double spurious = 0;     ///< probability of a spurious wake-up per decision
    int preempt = 0;         ///< with function instrumentation: one in `preempt` calls is a decision (0: never)
};

struct Global {
    std::atomic<bool> active{false}, free{false};
    std::atomic<std::uint64_t> steps{0};
    mon::Rng rng{1};
    Config config;
    std::vector<Thread*> threads;
    std::map<void*, Thread*> owner;
    std::uint64_t trace = 0, low = 0;
    std::int64_t switches = 0, spurious = 0, contended = 0, waits = 0;
    int max_alive = 0;
};

inline Global& g() { static Global x; return x; }
inline Thread*& self() { static thread_local Thread* t = nullptr; return t; }
inline int& inside() { static thread_local int n = 0; return n; }

struct Inside {
    Inside() { ++inside(); }
    ~Inside() { --inside(); }
};

template<class F> F real(char const* name, char const* version = nullptr) {
    auto p = version ? dlvsym(RTLD_NEXT, name, version) : nullptr;
    if (!p) { p = dlsym(RTLD_NEXT, name); }
    return reinterpret_cast<F>(p);
}
#define VP_REAL(name, version, ...) \
    using fn_##name = __VA_ARGS__; \
    inline fn_##name* real_##name() { static auto f = real<fn_##name*>(#name, version); return f; }
VP_REAL(pthread_create, nullptr, int(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*))
VP_REAL(pthread_join, nullptr, int(pthread_t, void**))
VP_REAL(pthread_mutex_lock, nullptr, int(pthread_mutex_t*))
VP_REAL(pthread_mutex_trylock, nullptr, int(pthread_mutex_t*))
VP_REAL(pthread_mutex_unlock, nullptr, int(pthread_mutex_t*))
VP_REAL(pthread_cond_wait, "GLIBC_2.3.2", int(pthread_cond_t*, pthread_mutex_t*))
VP_REAL(pthread_cond_timedwait, "GLIBC_2.3.2", int(pthread_cond_t*, pthread_mutex_t*, timespec const*))
VP_REAL(pthread_cond_clockwait, nullptr, int(pthread_cond_t*, pthread_mutex_t*, clockid_t, timespec const*))
VP_REAL(pthread_cond_signal, "GLIBC_2.3.2", int(pthread_cond_t*))
VP_REAL(pthread_cond_broadcast, "GLIBC_2.3.2", int(pthread_cond_t*))
VP_REAL(sched_yield, nullptr, int())
VP_REAL(nanosleep, nullptr, int(timespec const*, timespec*))
VP_REAL(clock_nanosleep, nullptr, int(clockid_t, int, timespec const*, timespec*))
#undef VP_REAL

inline bool controlled() { return self() && g().active.load(std::memory_order_relaxed) && !g().free.load() && !inside(); }

inline char const* name(State s) {
    switch (s) {
        case State::runnable: return "runnable";
        case State::mutex: return "waits for a mutex";
        case State::cond: return "waits for a condition";
        case State::join: return "joins";
        default: return "finished";
    }
}

[[noreturn]] inline void deadlock() {
    std::string s = "MONITOR: deadlock:";
    for (auto t : g().threads) {
        s += " T" + std::to_string(t->id) + " " + name(t->state);
        if (t->state == State::join && t->target) { s += " T" + std::to_string(t->target->id); }
        s += ",";
    }
    std::fprintf(stderr, "%s\n", s.c_str());
    std::fflush(stderr);
    _exit(77);
}

inline bool enabled(Thread* t) {
    switch (t->state) {
        case State::runnable: return true;
        case State::mutex: return !g().owner.count(t->on);
        case State::join: return t->target->state == State::finished;
        default: return false;
    }
}

/// Decide who goes on; the caller isn't running any more if it isn't chosen
inline Thread* choose(Thread* current) {
    auto& s = g();
    std::vector<Thread*> can, asleep;
    auto alive = 0;
    for (auto t : s.threads) {
        if (enabled(t)) { can.push_back(t); }
        else if (t->state == State::cond) { asleep.push_back(t); }
        alive += t->state != State::finished;
    }
    s.max_alive = std::max(s.max_alive, alive);
    if (!asleep.empty()) {
        auto timed = std::vector<Thread*>();
        for (auto t : asleep) { if (t->timed) { timed.push_back(t); } }
        if (!timed.empty() && (can.empty() || s.rng.p(0.02))) {
            auto t = s.rng.pick(timed);
            t->timed_out = true;
            t->state = State::runnable;
            can.push_back(t);
        } else if (!can.empty() && s.config.spurious > 0 && s.rng.p(s.config.spurious)) {
            auto t = s.rng.pick(asleep);
            t->state = State::runnable;
            can.push_back(t);
            ++s.spurious;
        }
    }
    if (can.empty()) { deadlock(); }

    Thread* next = nullptr;
    if (s.config.strategy == 1 && std::find(can.begin(), can.end(), current) != can.end() && s.rng.p(s.config.stay)) {
        next = current;
    } else if (s.config.strategy == 2) {
        if (s.rng.p(s.config.changes / 400.0)) { s.rng.pick(can)->priority = --s.low; }
        next = can.front();
        for (auto t : can) { if (t->priority > next->priority) { next = t; } }
    } else {
        next = s.rng.pick(can);
    }
    auto n = s.steps.fetch_add(1) + 1;
    if (n > 400000) { s.free.store(true); }
    s.trace = mon::hash64(s.trace, static_cast<std::uint64_t>(next->id));
    return next;
}

inline void wait_turn(Thread* me) {
    while (sem_wait(&me->sem) != 0) {}
}

inline void hand_over(Thread* me, Thread* next) {
    if (next == me) { return; }
    ++g().switches;
    sem_post(&next->sem);
    wait_turn(me);
}

/// A point at which another thread may go on
inline void point(bool give_way = false) {
    if (!controlled()) { return; }
    Inside in;
    auto me = self();
    if (give_way) { me->priority = --g().low; }
    hand_over(me, choose(me));
}

/// The calling thread (whose state says what it waits for) stops until it's chosen again
inline void block(Thread* me) {
    hand_over(me, choose(me));
    if (!g().free.load()) { me->state = State::runnable; }
}

inline void* trampoline(void* p) {
    auto t = static_cast<Thread*>(p);
    wait_turn(t);
    self() = t;
    auto r = t->start(t->arg);
    {
        Inside in;
        if (!g().free.load()) {
            t->state = State::finished;
            auto next = choose(t);
            ++g().switches;
            self() = nullptr;
            sem_post(&next->sem);
        }
    }
    self() = nullptr;
    return r;
}

/// The calling thread and all threads it creates run one at a time until this goes out of scope
class Controlled {
public:
    Controlled(std::uint64_t seed, Config const& config) {
        auto& s = g();
        s.rng = mon::Rng(seed);
        s.config = config;
        s.free = false;
        s.steps = 0;
        s.trace = s.switches = s.spurious = s.contended = s.waits = s.max_alive = 0;
        s.low = 1ull << 40;
        s.owner.clear();
        Inside in;
        self() = add();
        done = false;
        guard = std::thread([this] { watch(); });
        s.active = true;
    }
    /// The number of threads which are still running
    int finish() {
        if (ended) { return left; }
        ended = true;
        Inside in;
        auto& s = g();
        for (auto t : s.threads) { left += t != self() && t->state != State::finished; }
        if (s.free.load()) { left = 0; } // not known
        done = true;
        guard.join();
        was_free = s.free.load();
        s.active = false;
        s.free = true;
        if (left == 0) {
            for (auto t : s.threads) { sem_destroy(&t->sem); delete t; }
        }
        s.threads.clear();
        self() = nullptr;
        return left;
    }
    ~Controlled() { finish(); }

    static Thread* add() {
        auto& s = g();
        auto t = new Thread;
        t->id = static_cast<int>(s.threads.size());
        t->priority = (2ull << 40) + (s.rng.next() >> 24);
        sem_init(&t->sem, 0, 0);
        s.threads.push_back(t);
        return t;
    }
    bool was_free = false;

private:
    void watch() {
        auto& s = g();
        auto last = s.steps.load();
        auto quiet = 0;
        while (!done) {
            timespec ts{0, 20000000};
            for (int i = 0; i < 10 && !done; ++i) { ts.tv_nsec = 2000000; real_nanosleep()(&ts, nullptr); }
            auto now = s.steps.load();
            quiet = now == last ? quiet + 1 : 0;
            last = now;
            if (quiet > 150 || (s.free.load() && !done)) { // 3 s: blocked in a way which isn't known here
                s.free = true;
                // nobody changes the list: the thread which has the turn is blocked, or nobody is controlled any more
                for (int i = 0; i < 4; ++i) { for (auto t : s.threads) { sem_post(&t->sem); } }
                return;
            }
        }
    }
    std::thread guard;
    std::atomic<bool> done{true};
    bool ended = false;
    int left = 0;
};

inline int lock(pthread_mutex_t* m, bool decide) {
    Inside in;
    auto me = self();
    auto& s = g();
    if (decide) { hand_over(me, choose(me)); }
    if (!s.free.load()) {
        if (s.owner.count(m)) { ++s.contended; }
        while (!s.free.load() && s.owner.count(m)) {
            me->state = State::mutex;
            me->on = m;
            block(me);
        }
        if (!s.free.load()) { s.owner[m] = me; }
    }
    return real_pthread_mutex_lock()(m);
}

inline int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    auto& s = g();
    auto me = self();
    {
        Inside in;
        ++s.waits;
        s.owner.erase(m);
        real_pthread_mutex_unlock()(m);
        me->state = State::cond;
        me->on = c;
        me->timed = timed;
        me->timed_out = false;
        block(me);
    }
    lock(m, false);
    return timed && me->timed_out ? ETIMEDOUT : 0;
}

} // namespace sched

extern "C" {

int pthread_create(pthread_t* handle, pthread_attr_t const* attr, void* (*start)(void*), void* arg) {
    using namespace sched;
    if (!controlled()) { return real_pthread_create()(handle, attr, start, arg); }
    auto r = 0;
    {
        Inside in;
        auto t = Controlled::add();
        t->start = start;
        t->arg = arg;
        r = real_pthread_create()(handle, attr, trampoline, t);
        if (r != 0) { t->state = State::finished; return r; }
        t->handle = *handle;
    }
    point();
    return r;
}

int pthread_join(pthread_t handle, void** result) {
    using namespace sched;
    if (controlled()) {
        Inside in;
        auto me = self();
        for (auto t : g().threads) {
            if (t->id != 0 && pthread_equal(t->handle, handle)) {
                me->target = t;
                me->state = State::join;
                block(me);
                t->handle = pthread_t{}; // the system may give it to another one now
                break;
            }
        }
    }
    return real_pthread_join()(handle, result);
}

int pthread_mutex_lock(pthread_mutex_t* m) __THROWNL {
    if (!sched::controlled()) { return sched::real_pthread_mutex_lock()(m); }
    return sched::lock(m, true);
}

int pthread_mutex_trylock(pthread_mutex_t* m) __THROWNL {
    using namespace sched;
    if (!controlled()) { return real_pthread_mutex_trylock()(m); }
    point();
    Inside in;
    auto r = real_pthread_mutex_trylock()(m);
    if (r == 0 && !g().free.load()) { g().owner[m] = self(); }
    return r;
}

int pthread_mutex_unlock(pthread_mutex_t* m) __THROWNL {
    using namespace sched;
    if (!controlled()) { return real_pthread_mutex_unlock()(m); }
    auto r = 0;
    {
        Inside in;
        g().owner.erase(m);
        r = real_pthread_mutex_unlock()(m);
    }
    point();
    return r;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!sched::controlled()) { return sched::real_pthread_cond_wait()(c, m); }
    return sched::cond_wait(c, m, false);
}

int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* until) {
    if (!sched::controlled()) { return sched::real_pthread_cond_timedwait()(c, m, until); }
    return sched::cond_wait(c, m, true);
}

int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clock, timespec const* until) {
    if (!sched::controlled()) { return sched::real_pthread_cond_clockwait()(c, m, clock, until); }
    return sched::cond_wait(c, m, true);
}

int pthread_cond_signal(pthread_cond_t* c) __THROWNL {
    using namespace sched;
    if (!controlled()) { return real_pthread_cond_signal()(c); }
    {
        Inside in;
        std::vector<Thread*> w;
        for (auto t : g().threads) { if (t->state == State::cond && t->on == c) { w.push_back(t); } }
        if (!w.empty()) { g().rng.pick(w)->state = State::runnable; }
    }
    point();
    return 0;
}

int pthread_cond_broadcast(pthread_cond_t* c) __THROWNL {
    using namespace sched;
    if (!controlled()) { return real_pthread_cond_broadcast()(c); }
    {
        Inside in;
        for (auto t : g().threads) { if (t->state == State::cond && t->on == c) { t->state = State::runnable; } }
    }
    point();
    return 0;
}

int sched_yield() __THROW {
    if (!sched::controlled()) { return sched::real_sched_yield()(); }
    sched::point(true);
    return 0;
}

int nanosleep(timespec const* t, timespec* left) {
    if (!sched::controlled()) { return sched::real_nanosleep()(t, left); }
    sched::point(true);
    return 0;
}

int clock_nanosleep(clockid_t clock, int flags, timespec const* t, timespec* left) {
    if (!sched::controlled()) { return sched::real_clock_nanosleep()(clock, flags, t, left); }
    sched::point(true);
    return 0;
}

// with -finstrument-functions: other threads may go on in the middle of anything
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void*, void*) {
    static thread_local bool busy = false;
    if (busy) { return; }
    busy = true;
    if (sched::controlled() && sched::g().config.preempt > 0 && sched::g().rng.i(1, sched::g().config.preempt) == 1) {
        sched::point();
    }
    busy = false;
}
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*, void*) {}

} // extern "C"
