#include "common.hpp"
#include "kpm/default/Compute.hpp"
#include "detail/thread.hpp"
using namespace hs;
using namespace cpb;

// Every schedule with up to some preemptions at operations on mutexes, conditions and threads and at yield().

// one thread at a time may be inside
struct Alone {
    int inside = 0;
    template<class F> void operator()(F f, char const* msg) {
        sym_assert(inside == 0, msg);
        ++inside;
        verif::yield();
        f();
        verif::yield();
        --inside;
    }
};

static void pool(int max_threads, int max_jobs, int preemptions) {
    int const threads = sym_pin(sym_int("threads", 1, max_threads)), jobs = sym_pin(sym_int("jobs", 0, max_jobs));
    bool const joined = sym_pin(sym_bool("joined")), twice = joined && sym_pin(sym_bool("twice"));
    std::vector<int> ran(static_cast<size_t>(jobs), 0), order;
    verif::preemptions(preemptions);
    {
        ThreadPool p(threads);
        for (int i = 0; i < jobs; ++i) {
            p.add([&ran, &order, i] { verif::yield(); ++ran[static_cast<size_t>(i)]; order.push_back(i); });
        }
        if (joined) {
            p.join();
            for (auto n : ran) { sym_assert(n == 1, "every job has been done once when the pool is joined"); }
            if (twice) { p.join(); }
        }
    }
    for (auto n : ran) { sym_assert(n == 1, "every job is done exactly once"); }
    sym_assert(threads > 1 || std::is_sorted(order.begin(), order.end()), "a single worker does them in order");
    sym_reach("done");
}
SYM_HARNESS(pool_few) { pool(2, 2, sym_thorough() ? 3 : 2); }
SYM_HARNESS(pool_jobs) { pool(2, sym_thorough() ? 4 : 3, 1); }
SYM_HARNESS(pool_workers) { pool(3, sym_thorough() ? 2 : 1, sym_thorough() ? 2 : 1); }

static void parallel(int max_threads, int min_size, int max_size, int min_queue, int max_queue, int preemptions) {
    int const size = sym_pin(sym_int("size", min_size, max_size)), threads = sym_pin(sym_int("threads", 1, max_threads)), queue = sym_pin(sym_int("queue", min_queue, max_queue));
    std::vector<int> computed(static_cast<size_t>(size), 0), retired = computed;
    std::vector<int> produced;
    Alone producing, retiring;
    struct Value { int id; int* computed; };
    int alive = 0, most = 0;
    verif::preemptions(preemptions);
    parallel_for(static_cast<size_t>(size), static_cast<size_t>(threads), static_cast<size_t>(queue),
        [&](size_t id) -> Value {
            producing([&] { produced.push_back(static_cast<int>(id)); ++alive; most = std::max(most, alive); }, "jobs are produced one after another");
            return {static_cast<int>(id), &computed[id]};
        },
        [&](Value& v) { verif::yield(); ++*v.computed; v.id += 100; --alive; },
        [&](Value v, size_t id) {
            retiring([&] {
                sym_assert(v.id == static_cast<int>(id) + 100 && *v.computed == 1, "a job is retired with its result after it was computed once");
                ++retired[id];
            }, "jobs are retired one after another");
        });
    bool ok = static_cast<int>(produced.size()) == size;
    for (int i = 0; ok && i < size; ++i) { ok &= produced[static_cast<size_t>(i)] == i; }
    sym_assert(ok, "every job is produced once, in order");
    for (int i = 0; i < size; ++i) { sym_assert(computed[static_cast<size_t>(i)] == 1 && retired[static_cast<size_t>(i)] == 1, "every job is computed and retired exactly once"); }
    // one being handed over, those in the queue and one in each worker
    sym_assert(most <= (queue > 0 ? queue : threads) + threads + 1, "no more jobs wait than the queue holds");
    sym_reach("done");
}
SYM_HARNESS(parallel_one) { parallel(1, 0, 2, 0, sym_thorough() ? 2 : 1, sym_thorough() ? 2 : 1); }
SYM_HARNESS(parallel_two) { parallel(2, sym_thorough() ? 1 : 2, 2, 1, 1, sym_thorough() ? 1 : 0); }
SYM_HARNESS(parallel_more) { parallel(1, 3, sym_thorough() ? 5 : 4, 0, 2, 0); }

// the queue itself: one producer per list, consumers until it is closed
static void queue(int max_producers, int max_consumers, int max_items, int preemptions) {
    int const producers = sym_pin(sym_int("producers", 1, max_producers)), consumers = sym_pin(sym_int("consumers", 1, max_consumers));
    int const each = sym_pin(sym_int("items", 0, max_items)), bound = sym_pin(sym_int("size", 1, 2));
    verif::preemptions(preemptions);
    std::vector<int> got;
    {
        detail::Queue<int> q(static_cast<std::size_t>(bound));
        std::vector<std::thread> t;
        q.add_producer();                   // closed only after all of them have begun
        for (int p = 0; p < producers; ++p) {
            t.push_back(std::thread([&, p] {
                detail::QueueGuard<int> guard{q};
                for (int i = 0; i < each; ++i) {
                    int const item = 10 * p + i;
                    if (i % 2) { q.push(item); } else { q.push(int(item)); }
                    sym_assert(q.size() <= static_cast<std::size_t>(bound), "never more items than the bound");
                }
            }));
        }
        for (int c = 0; c < consumers; ++c) {
            t.push_back(std::thread([&] { while (auto item = q.pop()) { got.push_back(item.get()); verif::yield(); } }));
        }
        for (int p = 0; p < producers; ++p) { t[static_cast<size_t>(p)].join(); }
        q.remove_producer();
        for (size_t c = static_cast<size_t>(producers); c < t.size(); ++c) { t[c].join(); }
    }
    std::vector<int> sorted = got;
    std::sort(sorted.begin(), sorted.end());
    std::vector<int> want;
    for (int p = 0; p < producers; ++p) { for (int i = 0; i < each; ++i) { want.push_back(10 * p + i); } }
    sym_assert(sorted == want, "every item is taken exactly once");
    bool ok = true;
    if (consumers == 1) {
        for (int p = 0; p < producers; ++p) { int last = -1; for (auto g : got) { if (g / 10 == p) { ok &= g > last; last = g; } } }
    }
    sym_assert(ok, "a producer's items are taken in order");
    sym_reach("done");
}

SYM_HARNESS(queue_one) { queue(1, 1, 2, sym_thorough() ? 2 : 1); }
SYM_HARNESS(queue_producers) { queue(2, 1, 1, sym_thorough() ? 1 : 0); }
SYM_HARNESS(queue_consumers) { queue(1, 2, 2, sym_thorough() ? 1 : 0); }

// a batch of moments on several threads: state k has energy e[k], the matrix is diagonal
template<class T> static T real(double x) { return T(static_cast<num::get_real_t<T>>(x)); }
template<class T> static void batches(int max_threads, int min_vectors, int max_vectors, bool accumulate, int preemptions, bool any = true) {
    int const threads = sym_pin(sym_int("threads", 1, max_threads)), count = sym_pin(sym_int("vectors", min_vectors, max_vectors));
    int const N = 6, n = 2;
    std::vector<Eigen::Triplet<T, int>> t;
    std::vector<double> e;
    for (int i = 0; i < n; ++i) {
        e.push_back(any ? sym_dy("energy", -2, 2) : i - 2);               // 2 H: T_k is then an integer or half of one
        t.emplace_back(i, i, real<T>(e.back()));
    }
    auto m = std::make_shared<SparseMatrixX<T>>(n, n);
    m->setFromTriplets(t.begin(), t.end());
    m->makeCompressed();
    kpm::AlgorithmConfig ac;
    ac.interleaved = false;
    ac.optimal_size = false;
    kpm::OptimizedHamiltonian oh(Hamiltonian(m), kpm::MatrixFormat::CSR, false);
    kpm::Scale<> s;
    s.a = 2;
    oh.optimize_for({0, 0}, s);
    // vector k is (k + 1) * state (k % n), also those which only fill up the last batch
    int next = 0;
    Alone making, collecting, reporting;
    kpm::Starter const starter([&](var::scalar_tag) -> var::complex<VectorX> {
        VectorX<T> v = VectorX<T>::Zero(n);
        making([&] { v[next % n] = real<T>(next + 1); ++next; }, "starting vectors are made one after another");
        return v;
    }, n);
    kpm::BatchConcatenator concatenate;
    kpm::BatchAccumulator sum;
    std::vector<int> seen(static_cast<size_t>(count), 0);
    kpm::BatchDiagonalMoments moments(N, count, [&](kpm::BatchData& d, kpm::BatchData const& nd, idx_t idx, idx_t nv) {
        collecting([&] {
            idx_t const cols = nd.template is<ArrayXX<T>>() ? nd.template get<ArrayXX<T>>().cols() : 1;
            for (idx_t k = idx; k < idx + cols && k < count; ++k) { ++seen[static_cast<size_t>(k)]; }
            if (accumulate) { sum(d, nd, idx, nv); } else { concatenate(d, nd, idx, nv); }
        }, "results are collected one after another");
    });
    int done = 0, started = 0, finished = 0;
    kpm::DefaultCompute const compute(threads, [&](idx_t delta, idx_t total) {
        sym_assert(total == count, "the total is the number of vectors");
        if (delta < 0) { ++started; } else if (delta == total && done >= count) { ++finished; } else { done += static_cast<int>(delta); }
    });
    verif::preemptions(preemptions);
    compute.moments(&moments, starter, ac, oh);
    verif::preemptions(0);
    for (auto k : seen) { sym_assert(k == 1, "every vector is collected exactly once"); }
    sym_assert(started == 1 && done >= count, "progress begins once and reaches the total");
    // <k|T_j|k> = w^2 T_j(e/2)
    auto mu = [&](int k, int j) {
        double const x = e[static_cast<size_t>(k % n)], w = (k + 1) * (k + 1);
        double a = 2, b = x;                                // 2 T_j(x/2)
        for (int i = 0; i < j; ++i) { double const c = x * b - a; a = b; b = c; }
        return j == 0 ? w * 0.5 : w * a * 0.5;
    };
    bool ok;
    if (accumulate) {
        auto const& d = moments.data.template get<ArrayX<T>>();
        ok = d.size() == N;
        sym_assert(ok, "one value for each moment");
        for (int j = 0; j < N; ++j) {
            double total = 0;
            for (int k = 0; k < count; ++k) { total += mu(k, j); }
            if (any) { ok &= d[j] == real<T>(total * (1.0 / count)); }          // counts are powers of two
            else { ok &= std::abs(d[j] - real<T>(total / count)) < 1e-4; }
        }
        sym_assert(ok, "the average of all vectors");
    } else {
        auto const& d = moments.data.template get<ArrayXX<T>>();
        ok = d.rows() == N && d.cols() == count;
        sym_assert(ok, "one column for each vector");
        for (int k = 0; k < count; ++k) { for (int j = 0; j < N; ++j) { ok &= d(j, k) == real<T>(mu(k, j)); } }
        sym_assert(ok, "column k has the moments of vector k");
    }
    sym_reach("done");
}
SYM_HARNESS(batch_columns) { batches<double>(sym_thorough() ? 3 : 2, 1, sym_thorough() ? 5 : 4, false, sym_thorough() ? 2 : 1); }
SYM_HARNESS(batch_average) { int const c = 1 << sym_pin(sym_int("log", 0, 2)); batches<double>(2, c, c, true, sym_thorough() ? 2 : 1); }
SYM_HARNESS(batch_columns_float) { batches<float>(2, 3, 5, false, sym_thorough() ? 2 : 1); }
SYM_HARNESS(batch_columns_complex) { batches<std::complex<double>>(2, 2, 3, false, sym_thorough() ? 2 : 1); }
SYM_HARNESS(batch_one_thread) { batches<float>(1, 1, sym_thorough() ? 60 : 30, false, 0); }
SYM_HARNESS(batch_average_float) { int const c = 1 << sym_pin(sym_int("log", 0, 3)); batches<float>(sym_thorough() ? 2 : 1, c, c, true, sym_thorough() ? 1 : 0); }
SYM_HARNESS(batch_average_padded) { batches<float>(2, 1, sym_thorough() ? 11 : 7, true, 0, false); }
SYM_HARNESS(batch_average_order) { batches<float>(2, 5, sym_thorough() ? 9 : 6, true, 1, false); }
SYM_HARNESS(batch_average_double) { batches<double>(2, 3, 5, true, 1, false); }
SYM_HARNESS(batch_one_double) { batches<double>(1, 1, sym_thorough() ? 40 : 20, false, 0); }
SYM_HARNESS(batch_one_cfloat) { batches<std::complex<float>>(1, 5, 16, false, 0); }
SYM_HARNESS(batch_more_threads) { batches<double>(3, 5, sym_thorough() ? 12 : 8, false, 0); }
