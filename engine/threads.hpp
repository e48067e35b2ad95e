// Threads as coroutines, put before every file of a program (-include): std::thread, std::mutex and
// std::condition_variable of the project become the classes below, and which thread runs next at each operation
// on them is an input (sym_int). Only one thread runs at a time, so what is explored is every schedule of the
// operations (up to verif::budget preemptions) of a program without data races.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <complex>
#include <condition_variable>
#include <deque>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <vector>
#include <fmt/format.h>
#if __has_include("detail/config.hpp")
# include "detail/config.hpp"     // decides how Eigen is set up
#endif
#include <Eigen/Core>
#include <Eigen/SparseCore>
#include <ucontext.h>
#include "sym.h"

namespace verif {

struct Fiber {
    ucontext_t ctx;
    std::function<void()> body;
    void* stack = nullptr;
    void const* blocked_on = nullptr;
    bool done = false;
};

struct Scheduler {
    std::vector<Fiber*> fibers;         // 0 is the main program
    std::size_t current = 0;
    int budget = 0;                     // preemptions left
    int switches = 0;

    static Scheduler& get() {
        static Scheduler* s = [] { auto x = new Scheduler; x->fibers.push_back(new Fiber); return x; }();
        return *s;
    }
    void go(std::size_t to) {
        if (to == current) { return; }
        auto const from = current;
        current = to;
        ++switches;
        swapcontext(&fibers[from]->ctx, &fibers[to]->ctx);
    }
    std::vector<std::size_t> ready() const {
        std::vector<std::size_t> r;
        for (std::size_t i = 0; i < fibers.size(); ++i) {
            if (i != current && !fibers[i]->done && !fibers[i]->blocked_on) { r.push_back(i); }
        }
        return r;
    }
    // the running thread may be preempted here
    void yield() {
        if (budget <= 0) { return; }
        auto const r = ready();
        if (r.empty()) { return; }
        int const c = sym_pin(sym_int("preempt", 0, static_cast<int>(r.size())));
        if (c == 0) { return; }
        --budget;
        go(r[static_cast<std::size_t>(c - 1)]);
    }
    // the running thread cannot go on (or has ended): any other may be next
    void leave() {
        auto const r = ready();
        sym_assert(!r.empty(), "some thread can go on (no deadlock)");
        if (r.empty()) { std::abort(); }
        int const c = r.size() == 1 ? 0 : sym_pin(sym_int("next", 0, static_cast<int>(r.size()) - 1));
        go(r[static_cast<std::size_t>(c)]);
    }
    void block(void const* on) { fibers[current]->blocked_on = on; leave(); }
    void wake(void const* on) { for (auto f : fibers) { if (f->blocked_on == on) { f->blocked_on = nullptr; } } }
    static void run() {
        auto& s = get();
        auto const me = s.current;
        s.fibers[me]->body();
        s.fibers[me]->done = true;
        s.wake(s.fibers[me]);
        s.leave();
        std::abort();
    }
    Fiber* start(std::function<void()> body) {
        auto f = new Fiber;
        f->body = std::move(body);
        std::size_t const size = 512 * 1024;
        f->stack = std::malloc(size);
        getcontext(&f->ctx);
        f->ctx.uc_stack.ss_sp = f->stack;
        f->ctx.uc_stack.ss_size = size;
        f->ctx.uc_link = nullptr;
        makecontext(&f->ctx, run, 0);
        fibers.push_back(f);
        return f;
    }
};
inline void yield() { Scheduler::get().yield(); }
// how often a thread which could go on is interrupted, from now on
inline void preemptions(int n) { Scheduler::get().budget = n; }

} // namespace verif

namespace std {

class verif_mutex {
    bool locked = false;
public:
    verif_mutex() = default;
    verif_mutex(verif_mutex const&) = delete;
    verif_mutex& operator=(verif_mutex const&) = delete;
    ~verif_mutex() { sym_assert(!locked, "no thread holds a mutex which is destroyed"); }
    void lock() {
        auto& s = verif::Scheduler::get();
        s.yield();
        while (locked) { s.block(this); }
        locked = true;
    }
    bool try_lock() { verif::yield(); if (locked) { return false; } return locked = true; }
    void unlock() {
        sym_assert(locked, "a mutex is unlocked by the thread which locked it");
        locked = false;
        verif::Scheduler::get().wake(this);
    }
};

class verif_condition_variable {
    std::vector<int*> waiting;          // 0: waits, 1: notified
public:
    verif_condition_variable() = default;
    verif_condition_variable(verif_condition_variable const&) = delete;
    ~verif_condition_variable() { sym_assert(waiting.empty(), "no thread waits for a condition which is destroyed"); }
    template<class Lock> void wait(Lock& lk) {
        auto& s = verif::Scheduler::get();
        int state = 0;
        waiting.push_back(&state);
        lk.unlock();
        while (!state) { s.block(this); }
        lk.lock();
    }
    template<class Lock, class P> void wait(Lock& lk, P p) { while (!p()) { wait(lk); } }
    void notify_one() {
        auto& s = verif::Scheduler::get();
        s.yield();
        if (waiting.empty()) { return; }
        std::size_t const n = waiting.size();
        auto const i = n == 1 ? 0u : static_cast<std::size_t>(sym_pin(sym_int("woken", 0, static_cast<int>(n) - 1)));
        *waiting[i] = 1;
        waiting.erase(waiting.begin() + static_cast<std::ptrdiff_t>(i));
        s.wake(this);
    }
    void notify_all() {
        auto& s = verif::Scheduler::get();
        s.yield();
        for (auto w : waiting) { *w = 1; }
        waiting.clear();
        s.wake(this);
    }
};

class verif_thread {
    verif::Fiber* fiber = nullptr;
public:
    verif_thread() = default;
    template<class F> explicit verif_thread(F f) : fiber(verif::Scheduler::get().start(std::function<void()>(std::move(f)))) { verif::yield(); }
    verif_thread(verif_thread const&) = delete;
    verif_thread(verif_thread&& o) noexcept : fiber(o.fiber) { o.fiber = nullptr; }
    verif_thread& operator=(verif_thread&& o) {
        sym_assert(!fiber, "a thread is joined before it is replaced");
        fiber = o.fiber; o.fiber = nullptr; return *this;
    }
    ~verif_thread() { sym_assert(!fiber, "a thread is joined before it is destroyed"); }
    bool joinable() const { return fiber != nullptr; }
    void join() {
        sym_assert(fiber != nullptr, "only a running thread is joined");
        auto& s = verif::Scheduler::get();
        s.yield();
        while (!fiber->done) { s.block(fiber); }
        std::free(fiber->stack); fiber->stack = nullptr;
        fiber = nullptr;
    }
    static unsigned hardware_concurrency() { return 2; }
};

} // namespace std

#define thread verif_thread
#define mutex verif_mutex
#define condition_variable verif_condition_variable
