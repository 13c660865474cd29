// C21: eigen-solver results are those of the current model, solved once, and the sums over eigenpairs are exact
#include "energy.hpp"
#include "kpm_case.hpp"
#include "solver/Solver.hpp"
#include <Eigen/Eigenvalues>

using namespace mon;

namespace {

struct Trace {
    int created = 0, destroyed = 0, solved = 0, changed = 0, change_refused = 0;
    bool fail_next_solve = false;
    int type = -1; ///< of the last strategy which solved
};

std::shared_ptr<Trace>& trace() {
    static std::shared_ptr<Trace> t;
    return t;
}

struct DenseConfig { std::shared_ptr<Trace> log; };

/// A complete back end: dense diagonalisation, in the number type of the Hamiltonian
template<class scalar_t>
class Dense : public cpb::SolverStrategy {
    using real_t = cpb::num::get_real_t<scalar_t>;
    using wide_t = std::conditional_t<cpb::num::is_complex<scalar_t>(), cd, double>;
    using Wide = Eigen::Matrix<wide_t, Eigen::Dynamic, Eigen::Dynamic>;

public:
    using Config = DenseConfig;

    Dense(cpb::SparseMatrixRC<scalar_t> h, Config const& config) : matrix(std::move(h)), log(config.log) { ++log->created; }
    ~Dense() { ++log->destroyed; }

    bool change_hamiltonian(cpb::Hamiltonian const& h) override {
        if (!cpb::ham::is<scalar_t>(h)) { ++log->change_refused; return false; }
        matrix = cpb::ham::get_shared_ptr<scalar_t>(h);
        ++log->changed;
        values.resize(0);
        vectors.resize(0, 0);
        return true;
    }
    void solve() override {
        if (log->fail_next_solve) { log->fail_next_solve = false; throw std::runtime_error("no convergence"); }
        ++log->solved;
        log->type = (std::is_same<real_t, double>::value ? 2 : 0) + (cpb::num::is_complex<scalar_t>() ? 1 : 0);
        Wide m = Eigen::Matrix<scalar_t, Eigen::Dynamic, Eigen::Dynamic>(*matrix).template cast<wide_t>();
        Eigen::SelfAdjointEigenSolver<Wide> s(m);
        values = s.eigenvalues().template cast<real_t>();
        vectors = s.eigenvectors().template cast<scalar_t>();
    }
    std::string report(bool shortform) const override { return shortform ? "dense" : "dense diagonalisation"; }
    cpb::RealArrayConstRef eigenvalues() const override { return cpb::arrayref(values); }
    cpb::ComplexArrayConstRef eigenvectors() const override { return cpb::arrayref(vectors); }

private:
    cpb::SparseMatrixRC<scalar_t> matrix;
    std::shared_ptr<Trace> log;
    cpb::ArrayX<real_t> values;
    cpb::ColMajorArrayXX<scalar_t> vectors;
};

struct Exact {
    HMat h;
    Eigen::VectorXd e;
    MCd psi;
};

Exact diagonalise(cpb::Hamiltonian const& ham) {
    Exact x;
    x.h = read_hmat(ham);
    Eigen::SelfAdjointEigenSolver<MCd> s(x.h.dense());
    x.e = s.eigenvalues();
    x.psi = s.eigenvectors();
    return x;
}

double real_at(cpb::RealArrayConstRef const& a, cpb::idx_t i) {
    return a.tag == cpb::num::Tag::f32 ? static_cast<float const*>(a.data)[i] : static_cast<double const*>(a.data)[i];
}

struct Expected {
    std::shared_ptr<cpb::Model> model;
    Exact x;
};

/// A model whose Hamiltonian can be evaluated; several kinds and number types
std::shared_ptr<cpb::Model> rand_model(Context& c) {
    auto& r = c.rng;
    std::unique_ptr<cpb::Model> m;
    LatOpt lo;
    lo.complex = r.p(0.4);
    auto e = rand_energy_case(c, m, lo, 0.3);
    if (e.sites.size() > 40) { throw CaseSkipped{"large system"}; }
    if (r.p(0.5)) {
        auto f = rand_energy_fn(r, e.lat, r.p(0.3));
        f.is_double = r.p(0.4);
        add_energy(*m, f, 0, nullptr);
        c.note(f.describe());
    }
    return std::shared_ptr<cpb::Model>(std::move(m));
}

void compare(Context& c, cpb::BaseSolver& s, Exact const& x, int query, Trace& log) {
    auto& r = c.rng;
    auto top = std::max(std::abs(x.e[0]), std::abs(x.e[x.h.n - 1]));
    auto etol = x.h.eps() * 40 * (x.h.n + 10) * (top + 1e-3);
    if (query == 0) {
        auto v = s.eigenvalues();
        c.check(v.ndim == 1 && v.shape[0] == x.h.n, "number of eigenvalues: " + istr(v.shape[0]) + " of " + istr(x.h.n));
        c.check((v.tag == cpb::num::Tag::f32) == x.h.single(), "eigenvalues have the wrong precision");
        for (int i = 0; i < x.h.n; ++i) {
            c.require(std::abs(real_at(v, i) - x.e[i]) <= etol, [&] { return "eigenvalue " + istr(i) + " is " + str(real_at(v, i)) + ", the model has " + str(x.e[i]); });
        }
        c.count("eigenvalue sets");
    } else if (query == 1) {
        auto v = s.eigenvectors();
        c.check(v.ndim == 2 && v.shape[0] == x.h.n && v.shape[1] == x.h.n, "shape of the eigenvectors");
        c.count("eigenvector sets");
    } else {
        auto width = std::max(0.5, x.e[x.h.n - 1] - x.e[0]);
        auto b = static_cast<float>(r.p(0.7) ? r.u(0.02, 0.5) * width : r.u(0.001, 0.02) * width);
        auto norm = 1 / (b * std::sqrt(2 * PI));
        auto gauss = [&](double e, double target, double& err) {
            auto y = (e - target) / b;
            auto d = (etol + 8 * x.h.eps() * (std::abs(e) + std::abs(target)) + (x.h.single() ? 0 : 1e-14)) / b;
            auto g = std::exp(-0.5 * y * y);
            auto lo = std::max(0.0, std::abs(y) - d), hi = std::abs(y) + d;
            err = std::exp(-0.5 * lo * lo) - std::exp(-0.5 * hi * hi) + g * (3e-6 + 1e-6 * y * y);
            return g;
        };
        if (query == 2) {
            auto n = r.i(0, 12);
            cpb::ArrayXf e(n);
            for (int i = 0; i < n; ++i) { e[i] = static_cast<float>(r.p(0.3) ? x.e[r.i(0, x.h.n - 1)] : r.u(x.e[0] - 2 * b, x.e[x.h.n - 1] + 2 * b)); }
            auto dos = s.calc_dos(e, b);
            c.check(dos.size() == n, "size of the density of states");
            for (int i = 0; i < n; ++i) {
                auto want = 0.0, tol = 1e-30;
                for (int k = 0; k < x.h.n; ++k) { double err; want += gauss(x.e[k], e[i], err); tol += err; }
                c.require(std::abs(dos[i] - want * norm) <= tol * norm, [&] {
                    return "density of states at " + str(e[i]) + " is " + str(dos[i]) + ", the eigenvalues give " + str(want * norm) + " (tolerance " + str(tol * norm) + ", broadening " + str(b) + ")";
                });
            }
            c.count("densities of states", n);
        } else {
            auto e = static_cast<float>(r.p(0.5) ? x.e[r.i(0, x.h.n - 1)] : r.u(x.e[0] - 2 * b, x.e[x.h.n - 1] + 2 * b));
            auto l = s.calc_spatial_ldos(e, b);
            c.check(l.size() == x.h.n, "size of the local density: " + istr(l.size()) + " of " + istr(x.h.n));
            // eigenvectors of nearby levels may mix by rounding: their weights differ by less than the error bound
            auto mix = 0.0;
            for (int k = 0; k + 1 < x.h.n; ++k) { double err; gauss(x.e[k], e, err); mix = std::max(mix, err); }
            for (int i = 0; i < x.h.n; ++i) {
                auto want = 0.0, tol = 0.0;
                for (int k = 0; k < x.h.n; ++k) {
                    double err;
                    auto w = std::norm(x.psi(i, k));
                    want += w * gauss(x.e[k], e, err);
                    tol += w * err;
                }
                tol += 4 * mix + (x.h.single() ? 3e-5 : 1e-9) + etol * 2 / b;
                c.require(std::abs(l[i] - want * norm) <= tol * norm, [&] {
                    return "local density " + istr(i) + " at " + str(e) + " is " + str(l[i]) + ", the eigenpairs give " + str(want * norm) + " (tolerance " + str(tol * norm) + ")";
                });
            }
            c.count("local densities", x.h.n);
        }
    }
    c.check(log.type == x.h.type, "the solver ran in number type " + istr(log.type) + ", the Hamiltonian has type " + istr(x.h.type));
}

void random_case(Context& c) {
    auto& r = c.rng;
    auto log = std::make_shared<Trace>();
    {
        auto model = rand_model(c);
        if (r.p(0.3)) { model->hamiltonian(); }
        cpb::Solver<Dense> solver(*model, {log});
        auto x = diagonalise(model->hamiltonian());
        c.check(solver.system().get() == model->system().get() || solver.system()->num_sites() == model->system()->num_sites(), "system of the solver");
        auto due = true; ///< the next query has to solve
        auto solves = 0;
        std::shared_ptr<cpb::Model> broken;
        for (int step = r.i(4, 14); step > 0; --step) {
            auto op = r.i(0, 15);
            c.sig(op);
            if (op <= 7) {
                auto q = op % 4;
                if (due) { ++solves; }
                due = false;
                compare(c, solver, x, q, *log);
                c.check(log->solved == solves, "solved " + istr(log->solved) + " times where " + istr(solves) + " were needed");
            } else if (op == 8) {
                if (due) { ++solves; }
                due = false;
                solver.solve();
                c.check(log->solved == solves, "solve(): solved " + istr(log->solved) + " times where " + istr(solves) + " were needed");
            } else if (op == 9) {
                solver.clear();
                due = true;
                c.note("clear");
                c.count("cleared");
            } else if (op == 10) {
                auto rep = solver.report(r.p(0.5));
                c.check(rep.find("dense") == 0, "report: " + rep);
            } else if (op == 11 || op == 12) { // another model, or the same one again
                c.note("set model");
                if (r.p(0.8)) { model = rand_model(c); }
                if (r.p(0.3)) { model->hamiltonian(); }
                solver.set_model(*model);
                x = diagonalise(model->hamiltonian());
                due = true;
                c.count("model replaced");
            } else if (op == 13) { // changes of the caller's model are not the solver's until it is set again
                auto v = static_cast<float>(r.q(-1, 1, 8));
                model->add(cpb::OnsiteModifier([v](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef, cpb::string_view) {
                    EnergyView w(e);
                    for (cpb::idx_t k = 0; k < w.count(); ++k) { for (cpb::idx_t i = 0; i < w.rows(); ++i) { w.set(k, i, i, w.get(k, i, i) + cd(v + 0.125 * (k % 3))); } }
                }));
                c.note("model changed");
                if (r.p(0.4)) { model->hamiltonian(); }
                if (r.p(0.5)) {
                    if (due) { ++solves; }
                    due = false;
                    compare(c, solver, x, r.i(0, 3), *log);
                    c.count("model changed behind the solver");
                }
                solver.set_model(*model);
                x = diagonalise(model->hamiltonian());
                due = true;
            } else if (op == 14) { // a model which can't be evaluated
                auto bad = std::make_shared<cpb::Model>(*model);
                auto how = r.i(0, 1);
                bad->add(cpb::OnsiteModifier([how](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef, cpb::string_view) {
                    if (how == 0) { throw std::runtime_error("user error"); }
                    EnergyView w(e);
                    if (w.count() > 0) { w.set(0, 0, 0, std::nan("")); }
                }));
                c.note("set a broken model");
                auto refused = false;
                try { solver.set_model(*bad); } catch (std::exception const&) { refused = true; }
                c.check(refused, "a model which cannot be evaluated was accepted");
                c.count("broken models");
                // results are those of the model which the solver says it has
                auto valid = true;
                try { (void)solver.get_model().hamiltonian(); } catch (std::exception const&) { valid = false; }
                if (valid) {
                    x = diagonalise(solver.get_model().hamiltonian());
                    auto before = log->solved;
                    compare(c, solver, x, r.i(0, 3), *log);
                    solves += log->solved - before;
                    due = false;
                } else {
                    auto threw = false;
                    try { (void)solver.eigenvalues(); } catch (std::exception const&) { threw = true; }
                    c.check(threw, "eigenvalues of an earlier model after the solver was given a model which cannot be evaluated");
                    solver.set_model(*model);
                    x = diagonalise(model->hamiltonian());
                    solves = log->solved;
                    due = true;
                }
            } else if (op == 15 && due) { // the back end fails, then works
                log->fail_next_solve = true;
                auto threw = false;
                try { (void)solver.eigenvalues(); } catch (std::exception const&) { threw = true; }
                c.check(threw, "a failure of the back end was hidden");
                c.count("failed solves");
            }
            auto y = read_hmat(solver.get_model().hamiltonian());
            c.require(y.e == x.h.e && y.type == x.h.type, [&] { return std::string("get_model() is not the model which was set"); });
        }
        c.nontrivial = solves > 0 && x.h.n > 1;
    }
    c.check(log->created == log->destroyed, "back ends leaked");
}

} // namespace

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C21";
    s.rule = "a case is one history of a solver (queries, clears, model changes and failures); non-trivial when something was solved";
    s.random_case = random_case;
    return main_suite(s, argc, argv);
}
