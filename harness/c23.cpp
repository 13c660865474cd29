// C23: kernel-polynomial calculations on several threads: complete, race free, the same as on one thread.
// Runs under controlled schedules (VP_SCHED) and under a race detector.
#include "threads.hpp"
#include "energy.hpp"
#include "kpm_case.hpp"
#include "detail/thread.hpp"

using namespace mon;
namespace kpm = cpb::kpm;

namespace {

enum Kind { DRAW, DRAWN, COLLECT, COLLECTED, PROGRESS, RETURNED };

struct BatchCols {
    template<class S> std::int64_t operator()(cpb::ArrayX<S> const&) const { return 1; }
    template<class S> std::int64_t operator()(cpb::ArrayXX<S> const& m) const { return m.cols(); }
};
struct BatchCol {
    int col;
    template<class S> VCd operator()(cpb::ArrayXX<S> const& m) const { return m.col(col).template cast<cd>().matrix(); }
    template<class S> VCd operator()(cpb::ArrayX<S> const& m) const { return m.template cast<cd>().matrix(); }
};

double rel_tol(HMat const& h, int num) { return 400 * h.eps() * (num + 20); }

/// The parallel loop over starting vectors, watched at both ends
void batch(Context& c) {
    auto& r = c.rng;
    HOpt ho;
    ho.max_n = 20;
    auto h = rand_hmat(c, ho);
    auto k = rand_kconf(c, 6);
    double lo, hi, a, b;
    safe_bounds(c, h, lo, hi);
    auto scale = kpm::Bounds(lo, hi).scaling_factors();
    given_scale(c, scale, lo, hi, a, b);
    auto ac = k.cfg.algorithm;
    auto const random = r.p(0.5);
    auto const num = static_cast<int>(kpm::round_num_moments(r.i(2, 22)));
    auto const nv = r.p(0.15) ? 1 : r.p(0.3) ? r.i(2, 5) : r.i(6, 21);
    auto const silent = r.p(0.1);
    c.note(std::string(random ? "random" : "unit") + " vectors=" + istr(nv) + " N=" + istr(num));

    auto const ham = h.ham();
    auto oh = kpm::OptimizedHamiltonian(ham, k.cfg.matrix_format, ac.reorder());
    std::vector<cpb::idx_t> idx;
    for (int i = 0; i < nv; ++i) { idx.push_back(r.i(0, h.n - 1)); }
    if (random) { ac.optimal_size = false; oh.optimize_for({0, 0}, scale); }
    else { oh.optimize_for({idx, idx}, scale); }
    auto const pos = position_to_original(oh);

    EventLog log(static_cast<std::size_t>(nv) * 12 + 200);
    struct Result { std::vector<VCd> drawn, columns; };
    std::uint64_t thread_set = 0;
    auto run = [&](int threads, EventLog* log, Delay delay, Result& out, std::function<void()> const& returned) {
        auto inner = random ? kpm::random_starter(oh) : kpm::unit_starter(oh);
        auto drawn = 0;
        auto starter = kpm::Starter([&](cpb::var::scalar_tag tag) {
            auto id = drawn++; // not atomic: the library promises to draw one vector at a time
            if (log) { log->add(DRAW, id); delay(0, id); }
            auto v = inner.make(tag);
            VCd x = v.match(ToCd{});
            out.drawn.push_back(unorder(x, pos));
            if (log) { delay(1, id); log->add(DRAWN, id); }
            return v;
        }, oh.size());
        auto collect = [&](std::function<void(kpm::BatchData&, kpm::BatchData const&, cpb::idx_t, cpb::idx_t)> f) {
            return [&, f](kpm::BatchData& result, kpm::BatchData const& data, cpb::idx_t i, cpb::idx_t n) {
                auto cols = data.match(BatchCols{});
                if (log) { log->add(COLLECT, static_cast<int>(i), cols); delay(2, static_cast<int>(i)); }
                f(result, data, i, n);
                if (log) { delay(3, static_cast<int>(i)); log->add(COLLECTED, static_cast<int>(i), cols); }
            };
        };
        auto m = random ? kpm::BatchDiagonalMoments(num, nv, collect(kpm::BatchAccumulator()))
                        : kpm::BatchDiagonalMoments(num, nv, collect(kpm::BatchConcatenator()));
        kpm::DefaultCompute::ProgressCallback cb;
        if (log && !silent) {
            cb = [&](cpb::idx_t delta, cpb::idx_t total) { log->add(PROGRESS, static_cast<int>(delta), total); delay(4, static_cast<int>(delta)); };
        }
        kpm::DefaultCompute(threads, cb).moments(&m, starter, ac, oh);
        returned();
        auto const columns = random ? 1 : nv;
        for (int j = 0; j < columns; ++j) { out.columns.push_back(m.data.match(BatchCol{j})); }
    };

    Result threaded, serial;
    std::size_t at_return = 0;
    {
        Schedule s(c);
        run(k.threads, &log, s.delay, threaded, [&] { at_return = log.size(); log.add(RETURNED, 0); s.finish(); });
    }
    run(1, nullptr, Delay{}, serial, [] {});

    // ---- events
    c.check(log.next.load() <= log.slots.size(), "more events than vectors");
    c.check(log.size() == at_return + 1, "work went on after the call had returned");
    auto drawing = false, collecting = false, begun = false, finished = false;
    auto draws = 0;
    std::int64_t reported = 0, collected_all = 0;
    std::vector<int> collected(static_cast<std::size_t>(nv), 0);
    for (std::size_t e = 0; e < at_return; ++e) {
        auto x = log.slots[e];
        thread_set |= 1ull << (x.thread % 64);
        if (x.kind == DRAW) {
            c.check(!drawing, "two starting vectors drawn at the same time");
            drawing = true;
            c.require(x.id == draws, [&] { return "vector " + istr(x.id) + " drawn twice"; });
            ++draws;
        } else if (x.kind == DRAWN) { drawing = false; }
        else if (x.kind == COLLECT) {
            c.check(!collecting, "two results collected at the same time");
            collecting = true;
            c.require(x.id >= 0 && x.id < nv, [&] { return "results of vector " + istr(x.id) + " of " + istr(nv); });
            for (auto j = x.id; j < std::min<std::int64_t>(nv, x.id + x.value); ++j) {
                auto n = ++collected[static_cast<std::size_t>(j)];
                c.require(n == 1, [&] { return "the moments of vector " + istr(j) + " were collected twice"; });
                ++collected_all;
            }
        } else if (x.kind == COLLECTED) { collecting = false; }
        else if (x.kind == PROGRESS) {
            c.require(x.value == nv, [&] { return "progress of a total of " + istr(x.value) + " for " + istr(nv) + " vectors"; });
            c.check(!finished, "progress after the end");
            if (x.id < 0) { c.check(!begun && collected_all == 0, "the calculation was reported as started again, or late"); begun = true; continue; }
            c.check(begun, "progress before the start");
            if (reported == nv) {
                c.check(x.id == nv, "more progress than vectors: " + istr(reported + x.id) + " of " + istr(nv));
                finished = true;
                c.check(collected_all == nv, "reported as finished with " + istr(collected_all) + " of " + istr(nv) + " vectors collected");
                continue;
            }
            reported += x.id;
            c.require(x.id > 0 && reported <= nv, [&] { return "progress of " + istr(reported) + " of " + istr(nv); });
            c.require(reported <= collected_all, [&] { return istr(reported) + " vectors reported as done, " + istr(collected_all) + " collected"; });
            c.count("progress reports");
        }
    }
    if (!silent) { c.check(finished, "the end was never reported"); }
    for (int j = 0; j < nv; ++j) { c.require(collected[static_cast<std::size_t>(j)] == 1, [&] { return "the moments of vector " + istr(j) + " were never collected"; }); }
    c.check(draws >= nv && static_cast<int>(serial.drawn.size()) >= nv, "fewer vectors drawn than asked for");
    for (int j = 0; j < nv; ++j) {
        c.require(threaded.drawn[static_cast<std::size_t>(j)] == serial.drawn[static_cast<std::size_t>(j)], [&] { return "vector " + istr(j) + " differs from that of one thread"; });
    }

    // ---- results: exact, and those of one thread
    std::vector<VCd> want;
    VCd sum = VCd::Zero(num);
    auto norm2 = 1.0;
    for (int j = 0; j < nv; ++j) {
        auto const& v = threaded.drawn[static_cast<std::size_t>(j)];
        norm2 = std::max(norm2, v.squaredNorm());
        auto t = cheb_vectors(h, a, b, v, num);
        VCd mu(num);
        for (int n = 0; n < num; ++n) { mu[n] = v.dot(t[static_cast<std::size_t>(n)]) * (n ? 1.0 : 0.5); }
        want.push_back(mu);
        sum += mu;
    }
    if (random) { want = {sum / static_cast<double>(nv)}; }
    for (std::size_t j = 0; j < want.size(); ++j) {
        c.check(threaded.columns[j].size() == num && serial.columns[j].size() == num, "number of moments");
        for (int n = 0; n < num; ++n) {
            auto tol = cheb_tol(h, n, a, b) * norm2 * (1 + (random ? nv * 0.05 : 0));
            c.require(std::abs(threaded.columns[j][n] - want[j][n]) <= tol, [&] {
                return "moment " + istr(n) + " of result " + istr(j) + " is " + str(threaded.columns[j][n]) + " on " + istr(k.threads) + " threads, the vectors give " + str(want[j][n]);
            });
            c.require(std::abs(threaded.columns[j][n] - serial.columns[j][n]) <= tol, [&] {
                return "moment " + istr(n) + " of result " + istr(j) + " is " + str(threaded.columns[j][n]) + " on " + istr(k.threads) + " threads and " + str(serial.columns[j][n]) + " on one";
            });
        }
    }
    c.count("starting vectors", nv);
    c.count("parallel moment loops");
    c.seen("sets of threads which worked", thread_set << 12);
    c.nontrivial = nv > 1 && k.threads > 1;
}

/// The same quantity on one and on several threads
void spectral(Context& c) {
    auto& r = c.rng;
    HOpt ho;
    ho.max_n = 20;
    ho.allow_zero = false;
    auto h = rand_hmat(c, ho);
    auto k = rand_kconf(c, 6);
    double lo, hi;
    safe_bounds(c, h, lo, hi);
    k.cfg.min_energy = static_cast<float>(lo);
    k.cfg.max_energy = static_cast<float>(hi);
    k.cfg.kernel = rand_kernel(c).make();
    auto const what = r.i(0, 2);
    auto const nv = r.i(1, 14);
    auto const broadening = (hi - lo) * r.u(0.05, 0.4);
    cpb::ArrayXd energy(r.i(1, 6));
    for (int i = 0; i < energy.size(); ++i) { energy[i] = r.u(lo, hi); }
    std::vector<cpb::idx_t> idx;
    for (int i = 0; i < nv; ++i) { idx.push_back(r.i(0, h.n - 1)); }
    c.note("quantity " + istr(what) + " vectors=" + istr(nv) + " broadening=" + str(broadening));
    auto const ham = h.ham();
    auto calc = [&](int threads) -> cpb::ArrayXXdCM {
        auto core = kpm::Core(ham, kpm::DefaultCompute(threads), k.cfg);
        if (what == 0) { return core.dos(energy, broadening, nv); }
        if (what == 1) { return core.ldos(idx, energy, broadening); }
        auto g = core.greens_vector(idx[0], idx, energy, broadening);
        cpb::ArrayXXdCM m(energy.size(), 2 * static_cast<int>(g.size()));
        for (int j = 0; j < static_cast<int>(g.size()); ++j) {
            m.col(2 * j) = g[static_cast<std::size_t>(j)].real();
            m.col(2 * j + 1) = g[static_cast<std::size_t>(j)].imag();
        }
        return m;
    };
    cpb::ArrayXXdCM serial = calc(1), threaded;
    {
        Schedule s(c);
        threaded = calc(k.threads);
        s.finish();
    }
    c.check(serial.rows() == threaded.rows() && serial.cols() == threaded.cols(), "shape of the result");
    auto num = static_cast<int>(k.cfg.kernel.required_num_moments(broadening / (0.5 * (hi - lo) * 1.01)));
    auto size = std::max(serial.abs().maxCoeff(), (what == 0 ? h.n : 1) / (hi - lo));
    auto tol = rel_tol(h, num) * size * 4;
    for (int j = 0; j < serial.cols(); ++j) {
        for (int i = 0; i < serial.rows(); ++i) {
            c.require(std::abs(serial(i, j) - threaded(i, j)) <= tol, [&] {
                return "result (" + istr(i) + "," + istr(j) + ") is " + str(threaded(i, j)) + " on " + istr(k.threads) + " threads and " + str(serial(i, j)) + " on one (tolerance " + str(tol) + ")";
            });
        }
    }
    c.count("spectral functions compared");
    c.nontrivial = nv > 1 && k.threads > 1;
}

/// Independent calculations of models which share everything they can, in parallel
void deferred(Context& c) {
    auto& r = c.rng;
    std::unique_ptr<cpb::Model> m;
    LatOpt lo;
    lo.complex = r.p(0.4);
    auto e = rand_energy_case(c, m, lo, 0.3);
    if (e.sites.size() > 30 || e.sites.size() < 2) { throw CaseSkipped{"size of the system"}; }
    m->eval();
    auto h = read_hmat(m->hamiltonian());
    double emin, emax;
    if (h.gershgorin(emin, emax) < 0.5) { throw CaseSkipped{"no spectrum"}; }
    auto k = rand_kconf(c, 2);
    auto const automatic = r.p(0.2);
    if (automatic) {
        Eigen::SelfAdjointEigenSolver<MCd> eig(h.dense(), Eigen::EigenvaluesOnly);
        if (eig.eigenvalues()[h.n - 1] - eig.eigenvalues()[0] < 0.2) { throw CaseSkipped{"no spectrum"}; }
        emin = eig.eigenvalues()[0]; // energies beyond the automatic bounds are not asked for
        emax = eig.eigenvalues()[h.n - 1];
    }
    if (!automatic) { safe_bounds(c, h, emin, emax); k.cfg.min_energy = static_cast<float>(emin); k.cfg.max_energy = static_cast<float>(emax); }
    auto const jobs = r.i(2, 7), threads = r.i(2, 5), queue = r.i(0, 3);
    auto const broadening = (emax - emin) * r.u(0.05, 0.4);
    auto const nv = r.i(1, 6);
    auto const own_model = r.p(0.5); ///< each calculation has its own copy of the model
    cpb::ArrayXd energy(3);
    for (int i = 0; i < 3; ++i) { energy[i] = r.u(emin, emax); }
    c.note("jobs=" + istr(jobs) + " workers=" + istr(threads) + " queue=" + istr(queue));
    auto const n = h.n;
    auto what = [&](std::size_t id) { return static_cast<int>(id % 3); };
    auto calc = [&](cpb::KPM& kpm, std::size_t id) -> cpb::ArrayXXdCM {
        if (what(id) == 0) { return kpm.calc_dos(energy, broadening, nv); }
        if (what(id) == 1) {
            auto g = kpm.calc_greens(static_cast<cpb::idx_t>(id) % n, static_cast<cpb::idx_t>(3 * id) % n, energy, broadening);
            cpb::ArrayXXdCM x(energy.size(), 2);
            x.col(0) = g.real();
            x.col(1) = g.imag();
            return x;
        }
        auto const& p = kpm.get_model().system()->positions;
        auto i = static_cast<cpb::idx_t>(7 * id) % p.size();
        return kpm.calc_ldos(energy, broadening, {p.x[i], p.y[i], p.z[i]});
    };
    std::vector<cpb::ArrayXXdCM> serial, parallel(static_cast<std::size_t>(jobs));
    for (std::size_t id = 0; id < static_cast<std::size_t>(jobs); ++id) {
        cpb::KPM kpm(*m, kpm::DefaultCompute(1), k.cfg);
        serial.push_back(calc(kpm, id));
    }
    std::vector<int> done(static_cast<std::size_t>(jobs), 0);
    {
        Schedule s(c);
        auto& delay = s.delay;
        struct Job { std::shared_ptr<cpb::KPM> kpm; cpb::ArrayXXdCM result; std::size_t id = 0; };
        cpb::parallel_for(
            static_cast<std::size_t>(jobs), static_cast<std::size_t>(threads), static_cast<std::size_t>(queue),
            [&](std::size_t id) {
                Job j;
                auto copy = *m;
                j.kpm = std::make_shared<cpb::KPM>(own_model ? copy : *m, kpm::DefaultCompute(k.threads), k.cfg);
                j.id = id;
                delay(0, static_cast<int>(id));
                return j;
            },
            [&](Job& j) { j.result = calc(*j.kpm, j.id); delay(1, static_cast<int>(j.id)); },
            [&](Job j, std::size_t id) { parallel[id] = j.result; ++done[id]; delay(2, static_cast<int>(id)); }
        );
        s.finish();
    }
    for (std::size_t id = 0; id < static_cast<std::size_t>(jobs); ++id) {
        c.require(done[id] == 1, [&] { return "calculation " + istr(id) + " was retired " + istr(done[id]) + " times"; });
        auto const& a = serial[id];
        auto const& b = parallel[id];
        c.check(a.rows() == b.rows() && a.cols() == b.cols(), "shape of a result");
        auto tol = rel_tol(h, 100) * 4 * std::max(a.size() ? a.abs().maxCoeff() : 0.0, h.n / (emax - emin));
        for (int q = 0; q < a.size(); ++q) {
            c.require(std::abs(a.data()[q] - b.data()[q]) <= tol, [&] {
                return "calculation " + istr(id) + " gives " + str(b.data()[q]) + " next to others and " + str(a.data()[q]) + " alone";
            });
        }
    }
    c.count("calculations next to each other", jobs);
    c.nontrivial = true;
}

void random_case(Context& c) {
    auto what = c.rng.i(0, 9);
    if (what < 6) { batch(c); } else if (what < 8) { spectral(c); } else { deferred(c); }
}

} // namespace

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C23";
    s.rule = "a case is one threaded calculation under one schedule; distinct by matrix, configuration and the sequence of scheduling decisions; non-trivial with several vectors or calculations and threads";
    s.random_case = random_case;
    return main_suite(s, argc, argv);
}
