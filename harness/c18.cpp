// C18: spectral functions equal their definition on the exact spectrum
#include "kpm_case.hpp"
#include "build_case.hpp"
#include "energy.hpp"

using namespace mon;
namespace kpm = cpb::kpm;

namespace {

/// The problem with everything needed to evaluate the expansion exactly
struct Problem {
    HMat h;
    KernelSpec kern;
    double a = 1, b = 0, broadening = 0.1;
    int num = 0;
    std::vector<double> g;
    cpb::ArrayXd energy;

    double scaled(int i) const {
        auto e = h.single() ? static_cast<double>(static_cast<float>(energy[i])) : energy[i];
        return (e - b) / a;
    }
    /// sum of damped moments: mu[0] is not halved here
    double density(std::vector<double> const& mu, int i) const {
        auto x = scaled(i), s = 0.5 * mu[0];
        for (int n = 1; n < num; ++n) { s += g[n] * mu[n] * std::cos(n * std::acos(x)); }
        return 2 / (PI * a * std::sqrt(1 - x * x)) * s;
    }
    cd greens(std::vector<cd> const& mu, int i) const {
        auto x = scaled(i);
        cd s = 0.5 * mu[0];
        for (int n = 1; n < num; ++n) { s += g[n] * mu[n] * std::exp(cd(0, -n * std::acos(x))); }
        return cd(0, -2) / (a * std::sqrt(1 - x * x)) * s;
    }
    double tol(double norm, int i) const {
        auto x = scaled(i);
        auto s = 0.0, q = 1 / std::sqrt(1 - x * x);
        auto emax = std::max(std::abs(energy.maxCoeff()), std::abs(energy.minCoeff()));
        auto de = h.eps() * (1 + (std::abs(emax) + std::abs(b)) / a) * 8; // error of the scaled energy
        for (int n = 0; n < num; ++n) {
            s += g[n] * (cheb_tol(h, n, a, b) + n * (de * q + 10 * h.eps()) + 10 * h.eps() + 5e-8); // the library's pi is a float
        }
        return 2 / a * q * s * norm * (1 + 10 * h.eps() * q * q) + 1e-12;
    }
};

/// Bounds, energies and broadening such that the number of moments stays moderate
void fill(Context& c, Problem& p, kpm::Core& core, int max_moments) {
    auto& r = c.rng;
    auto s = core.scaling_factors();
    p.a = s.a; p.b = s.b;
    for (int tries = 0; ; ++tries) {
        if (tries > 20) { throw CaseSkipped{"no broadening"}; }
        auto want = r.p(0.2) ? r.u(1, 8) : r.u(4, max_moments);
        p.broadening = (p.kern.kind == 1 ? p.kern.lambda : PI) / want * p.a;
        p.num = p.kern.num_moments(p.broadening / p.a);
        if (p.num) { break; }
    }
    p.g = p.kern.damping(p.num);
    auto ne = r.p(0.1) ? 1 : r.i(2, 12);
    p.energy = cpb::ArrayXd(ne);
    for (int i = 0; i < ne; ++i) { p.energy[i] = p.b + p.a * r.u(-0.97, 0.97); }
    c.note("broadening " + str(p.broadening) + " (" + istr(p.num) + " moments), " + istr(ne) + " energies");
    c.sig(p.num); c.sig(ne);

    auto kernel = p.kern.make();
    c.check(kernel.required_num_moments(p.broadening / p.a) == p.num, "the kernel asks for " + istr(kernel.required_num_moments(p.broadening / p.a))
            + " moments, expected " + istr(p.num));
    auto d = kernel.damping_coefficients(p.num);
    c.check(d.size() == p.num, "wrong number of damping coefficients");
    for (int n = 0; n < p.num; ++n) {
        c.require(std::abs(d[n] - p.g[n]) < 1e-6, [&] { return "damping coefficient " + istr(n) + " of " + istr(p.num) + " is " + str(d[n]) + ", expected " + str(p.g[n]); });
    }
}

std::vector<double> diag_moments(Problem const& p, int i) {
    VCd x = VCd::Zero(p.h.n);
    x[i] = 1;
    auto t = cheb_vectors(p.h, p.a, p.b, x, p.num);
    std::vector<double> mu;
    for (auto const& v : t) { mu.push_back(v[i].real()); }
    return mu;
}

void check_ldos(Context& c, Problem const& p, cpb::ArrayXXdCM const& got, std::vector<int> const& idx, std::string const& what) {
    c.check(got.rows() == p.energy.size() && got.cols() == static_cast<int>(idx.size()),
            what + " has shape " + istr(got.rows()) + "x" + istr(got.cols()) + ", expected " + istr(p.energy.size()) + "x" + istr(idx.size()));
    std::map<int, std::vector<double>> memo;
    for (std::size_t j = 0; j < idx.size(); ++j) {
        if (!memo.count(idx[j])) { memo[idx[j]] = diag_moments(p, idx[j]); }
        auto const& mu = memo[idx[j]];
        for (int i = 0; i < p.energy.size(); ++i) {
            auto want = p.density(mu, i), tol = p.tol(1, i);
            c.require(std::abs(got(i, j) - want) <= tol, [&] {
                return what + " of index " + istr(idx[j]) + " at energy " + str(p.energy[i]) + " is " + str(got(i, j)) + ", expected " + str(want) + " (tolerance " + str(tol) + ")";
            });
        }
    }
    c.count("local densities compared", static_cast<int>(idx.size()));
}

void check_greens(Context& c, Problem const& p, cpb::ArrayXcd const& got, int row, int col, std::vector<VCd> const& t, std::string const& what) {
    c.check(got.size() == p.energy.size(), what + " has the wrong size");
    std::vector<cd> mu;
    for (auto const& v : t) { mu.push_back(std::conj(v[col])); } // <row|Tn|col> from Tn|row>
    for (int i = 0; i < p.energy.size(); ++i) {
        auto want = p.greens(mu, i);
        auto tol = 2 * PI * p.tol(1, i);
        c.require(std::abs(got[i] - want) <= tol, [&] {
            return what + " (" + istr(row) + "," + istr(col) + ") at energy " + str(p.energy[i]) + " is " + str(got[i]) + ", expected " + str(want) + " (tolerance " + str(tol) + ")";
        });
    }
    c.count("Green's functions compared");
}

/// A real matrix makes random vectors of +-1, a complex one of unimodular numbers; no two are equal
void check_random_vectors(Context& c, HMat const& h, std::vector<VCd> const& v) {
    for (std::size_t k = 0; k < v.size(); ++k) {
        for (int i = 0; i < h.n; ++i) {
            auto ok = h.complex() ? std::abs(std::abs(v[k][i]) - 1) < 1e-5 : (v[k][i] == cd(1) || v[k][i] == cd(-1));
            c.require(ok, [&] { return "random vector element " + str(v[k][i]); });
        }
        for (std::size_t l = 0; l < k; ++l) {
            if (h.n < 50) { continue; }
            c.check((v[k] - v[l]).norm() > 1e-3, "two of the random vectors are the same");
        }
    }
}

void check_dos(Context& c, Problem const& p, cpb::ArrayXd const& got, std::vector<VCd> const& vectors, int num_random, std::string const& what) {
    c.check(static_cast<int>(vectors.size()) >= num_random, what + " started " + istr(vectors.size()) + " vectors of the " + istr(num_random) + " requested");
    check_random_vectors(c, p.h, vectors);
    std::vector<double> mu(p.num, 0);
    for (int k = 0; k < num_random; ++k) {
        auto t = cheb_vectors(p.h, p.a, p.b, vectors[k], p.num);
        for (int n = 0; n < p.num; ++n) { mu[n] += vectors[k].dot(t[n]).real() / num_random; }
    }
    c.check(got.size() == p.energy.size(), what + " has the wrong size");
    for (int i = 0; i < p.energy.size(); ++i) {
        auto want = p.density(mu, i), tol = p.tol(p.h.n, i);
        c.require(std::abs(got[i] - want) <= tol, [&] {
            return what + " at energy " + str(p.energy[i]) + " is " + str(got[i]) + ", expected " + str(want) + " (tolerance " + str(tol) + ", " + istr(num_random) + " vectors)";
        });
    }
    c.count("total densities compared");
    c.count("random vectors", num_random);
}

/// kpm::Core on a bare matrix
void core_case(Context& c) {
    auto& r = c.rng;
    Problem p;
    p.h = rand_hmat(c);
    auto k = rand_kconf(c);
    p.kern = rand_kernel(c);
    double lo, hi;
    safe_bounds(c, p.h, lo, hi);
    k.cfg.min_energy = static_cast<float>(lo);
    k.cfg.max_energy = static_cast<float>(hi);
    k.cfg.kernel = p.kern.make();
    auto log = std::make_shared<Log>();
    auto core = kpm::Core(p.h.ham(), kpm::Compute(Recorder(k.threads, log)), k.cfg);

    for (int rep = r.i(1, 3); rep > 0; --rep) {
        if (r.p(0.2)) { // another Hamiltonian within the same bounds: nothing of the old one may survive
            for (auto& x : p.h.e) { if (x.first.first < x.first.second) { x.second = p.h.stored(x.second * 0.5); p.h.e[{x.first.second, x.first.first}] = std::conj(x.second); } }
            core.set_hamiltonian(p.h.ham());
            c.count("Hamiltonian replaced");
        }
        double a, b;
        given_scale(c, core.scaling_factors(), lo, hi, a, b);
        fill(c, p, core, 60);
        auto what = r.i(0, 3);
        c.sig(what);
        if (what == 0) {
            std::vector<cpb::idx_t> idx;
            std::vector<int> ii;
            for (int i = r.p(0.3) ? r.i(6, 20) : r.i(1, 9); i > 0; --i) { ii.push_back(r.i(0, p.h.n - 1)); idx.push_back(ii.back()); }
            check_ldos(c, p, core.ldos(idx, p.energy, p.broadening), ii, "Core::ldos");
        } else if (what == 1) {
            auto R = r.p(0.3) ? r.i(1, 3) : r.i(1, 20);
            log->calls.clear();
            auto got = core.dos(p.energy, p.broadening, R);
            c.note("dos with " + istr(R) + " vectors");
            std::vector<VCd> v;
            for (auto const& call : log->calls) { v.insert(v.end(), call.vectors.begin(), call.vectors.end()); }
            check_dos(c, p, got, v, R, "Core::dos");
            c.sig(R);
            if (r.p(0.3)) {
                auto again = core.dos(p.energy, p.broadening, R);
                for (int i = 0; i < got.size(); ++i) {
                    c.require(std::abs(again[i] - got[i]) <= p.tol(p.h.n, i), [&] { return "Core::dos is not reproducible: " + str(got[i]) + " and " + str(again[i]); });
                }
                c.count("repeated stochastic calculations");
            }
        } else if (what == 2) {
            auto row = r.i(0, p.h.n - 1), col = r.p(0.3) ? row : r.i(0, p.h.n - 1);
            VCd x = VCd::Zero(p.h.n);
            x[row] = 1;
            auto t = cheb_vectors(p.h, p.a, p.b, x, p.num);
            check_greens(c, p, core.greens(row, col, p.energy, p.broadening), row, col, t, "Core::greens");
        } else {
            auto row = r.i(0, p.h.n - 1);
            std::vector<cpb::idx_t> cols;
            for (int i = r.i(1, 6); i > 0; --i) { cols.push_back(r.i(0, p.h.n - 1)); }
            VCd x = VCd::Zero(p.h.n);
            x[row] = 1;
            auto t = cheb_vectors(p.h, p.a, p.b, x, p.num);
            auto got = core.greens_vector(row, cols, p.energy, p.broadening);
            c.check(got.size() == cols.size(), "Core::greens_vector returned " + istr(got.size()) + " of " + istr(cols.size()) + " functions");
            for (std::size_t j = 0; j < cols.size(); ++j) { check_greens(c, p, got[j], row, static_cast<int>(cols[j]), t, "Core::greens_vector"); }
        }
    }
    c.nontrivial = p.h.n > 1 && p.h.e.size() > 1;
}

/// KPM on a model: positions, sublattices, orbitals, shapes and refusals
void model_case(Context& c) {
    auto& r = c.rng;
    FiniteOpt fo;
    fo.target_sites = 40;
    auto f = rand_finite(c, fo);
    auto model = f.model();
    if (f.sites.empty()) { throw CaseSkipped{"no sites"}; }
    cpb::System const& sys = *model->system();
    if (sys.num_sites() == 0) { throw CaseSkipped{"empty system"}; }
    Problem p;
    p.h = read_hmat(model->hamiltonian());
    if (p.h.n > 160) { throw CaseSkipped{"large system"}; }
    auto k = rand_kconf(c);
    p.kern = rand_kernel(c);
    double lo, hi;
    safe_bounds(c, p.h, lo, hi);
    k.cfg.min_energy = static_cast<float>(lo);
    k.cfg.max_energy = static_cast<float>(hi);
    k.cfg.kernel = p.kern.make();
    auto log = std::make_shared<Log>();
    auto kp = cpb::KPM(*model, kpm::Compute(Recorder(k.threads, log)), k.cfg);
    c.sig(sys.num_sites());

    // Hamiltonian index of each site
    std::vector<int> first, norb;
    {
        auto at = 0;
        auto range = sys.compressed_sublattices;
        std::vector<int> orb(sys.num_sites(), 1);
        for (auto const& sub : range) {
            for (int i = 0; i < sub.num_sites(); ++i) { orb[sub.sys_start() + i] = static_cast<int>(sub.num_orbitals()); }
        }
        for (int i = 0; i < sys.num_sites(); ++i) { first.push_back(at); norb.push_back(orb[i]); at += orb[i]; }
        c.check(at == p.h.n, "size of the Hamiltonian");
    }
    auto family_name = [&](int site) -> std::string {
        for (auto const& sub : sys.compressed_sublattices) {
            if (site >= sub.sys_start() && site < sub.sys_end()) { return sys.site_registry.name(sub.id()); }
        }
        return "";
    };

    for (int rep = r.i(1, 3); rep > 0; --rep) {
        fill(c, p, kp.get_core(), 40);
        auto what = r.i(0, 5);
        c.sig(what);
        if (what == 0) {
            // the nearest site of a position which is close to one site
            auto site = r.i(0, static_cast<int>(sys.num_sites()) - 1);
            auto pos = sys.positions[site];
            auto name = r.p(0.4) ? family_name(site) : std::string();
            // another site at the same place would be as near
            for (int i = 0; i < sys.num_sites(); ++i) {
                if (i != site && (sys.positions[i] - pos).norm() < 1e-3f) { throw CaseSkipped{"two sites at one position"}; }
            }
            auto reduce = r.p(0.5);
            auto got = kp.calc_ldos(p.energy, p.broadening, pos, name, reduce);
            std::vector<int> idx;
            for (int o = 0; o < norb[site]; ++o) { idx.push_back(first[site] + o); }
            c.note("ldos of site " + istr(site) + " " + name + (reduce ? " reduced" : ""));
            if (reduce && idx.size() > 1) {
                c.check(got.cols() == 1 && got.rows() == p.energy.size(), "KPM::calc_ldos: a reduced result has " + istr(got.cols()) + " columns");
                for (int i = 0; i < p.energy.size(); ++i) {
                    auto want = 0.0;
                    for (auto x : idx) { want += p.density(diag_moments(p, x), i); }
                    c.require(std::abs(got(i, 0) - want) <= norb[site] * p.tol(1, i), [&] {
                        return "KPM::calc_ldos of site " + istr(site) + " at " + str(p.energy[i]) + " is " + str(got(i, 0)) + ", expected " + str(want);
                    });
                }
                c.count("densities summed over orbitals");
            } else {
                check_ldos(c, p, got, idx, "KPM::calc_ldos");
            }
        } else if (what == 1) {
            auto v = rand_shape(r, f.lat, 20);
            std::vector<int> idx;
            auto name = r.p(0.4) ? family_name(r.i(0, static_cast<int>(sys.num_sites()) - 1)) : std::string();
            cpb::ArrayX<bool> in = v.shape.contains(sys.positions);
            for (int i = 0; i < sys.num_sites(); ++i) {
                auto const rng = sys.sublattice_range(name);
                if (in[i] && i >= rng.start && i < rng.end) { idx.push_back(i); }
            }
            auto refused = false;
            cpb::ArrayXXdCM got;
            try { got = kp.calc_spatial_ldos(p.energy, p.broadening, v.shape, name); } catch (std::exception const&) { refused = true; }
            auto multi = model->is_multiorbital();
            c.check(refused == multi, multi ? "KPM::calc_spatial_ldos accepted a multi-orbital model" : "KPM::calc_spatial_ldos refused a valid request");
            if (!multi) {
                c.note("spatial ldos of " + istr(idx.size()) + " sites");
                if (!idx.empty()) { check_ldos(c, p, got, idx, "KPM::calc_spatial_ldos"); c.count("spatial densities"); }
                else { c.check(got.rows() == p.energy.size() && got.cols() == 0, "KPM::calc_spatial_ldos of no sites"); c.count("spatial densities of no sites"); }
            }
        } else if (what == 2) {
            auto R = r.i(1, 12);
            log->calls.clear();
            auto got = kp.calc_dos(p.energy, p.broadening, R);
            std::vector<VCd> vs;
            for (auto const& call : log->calls) { vs.insert(vs.end(), call.vectors.begin(), call.vectors.end()); }
            check_dos(c, p, got, vs, R, "KPM::calc_dos");
        } else if (what == 3 || what == 4) {
            auto bad = [&] { return r.p(0.5) ? -r.i(1, 3) : p.h.n + r.i(0, 2); };
            auto row_bad = r.p(0.15), col_bad = r.p(0.15);
            cpb::idx_t row = row_bad ? bad() : r.i(0, p.h.n - 1);
            std::vector<cpb::idx_t> cols;
            for (int i = what == 3 ? 1 : r.i(1, 5); i > 0; --i) { cols.push_back(r.i(0, p.h.n - 1)); }
            if (col_bad) { cols[r.next() % cols.size()] = bad(); }
            std::vector<cpb::ArrayXcd> got;
            auto refused = false;
            try {
                if (what == 3) { got.push_back(kp.calc_greens(row, cols[0], p.energy, p.broadening)); }
                else { got = kp.calc_greens_vector(row, cols, p.energy, p.broadening); }
            } catch (std::logic_error const&) { refused = true; }
            c.check(refused == (row_bad || col_bad), std::string("KPM::calc_greens ") + (refused ? "refused valid indices" : "accepted an index outside of the Hamiltonian: row "
                    + istr(row) + " of " + istr(p.h.n)));
            if (refused) { c.count("invalid indices refused"); }
            else {
                VCd x = VCd::Zero(p.h.n);
                x[row] = 1;
                auto t = cheb_vectors(p.h, p.a, p.b, x, p.num);
                c.check(got.size() == cols.size(), "number of Green's functions");
                for (std::size_t j = 0; j < cols.size(); ++j) {
                    check_greens(c, p, got[j], static_cast<int>(row), static_cast<int>(cols[j]), t, "KPM::calc_greens");
                }
            }
        } else {
            // sizes and scalar types of the arguments of moments()
            VCd alpha = VCd::Zero(p.h.n);
            for (int i = 0; i < p.h.n; ++i) { alpha[i] = p.h.stored(cd(r.u(-1, 1), r.u(-1, 1))); }
            VCd beta = r.p(0.5) ? VCd() : alpha;
            auto wrong = r.i(0, 4);
            auto expect_refusal = false;
            if (wrong == 0) { alpha.conservativeResize(p.h.n + 1); alpha[p.h.n] = 0; expect_refusal = true; }
            if (wrong == 1) { beta = VCd::Zero(p.h.n + 2); expect_refusal = true; }
            if (wrong == 2 && !p.h.complex()) { alpha[0] += cd(0, 0.5); expect_refusal = true; }
            if (wrong == 3 && !p.h.complex()) { beta = alpha; beta[p.h.n - 1] += cd(0, 0.5); expect_refusal = true; }
            auto refused = false;
            cpb::ArrayXcd got;
            auto num = r.i(1, 20);
            try { got = kp.moments(num, alpha, beta); } catch (std::runtime_error const&) { refused = true; }
            c.check(refused == expect_refusal, refused ? "KPM::moments refused valid vectors" : "KPM::moments accepted vectors of the wrong size or type");
            if (refused) { c.count("invalid vectors refused"); }
            else {
                auto t = cheb_vectors(p.h, p.a, p.b, alpha, num);
                auto g = p.kern.damping(static_cast<int>(kpm::round_num_moments(num)));
                auto norm = std::max(1e-3, alpha.squaredNorm());
                for (int n = 0; n < num; ++n) {
                    cd want = alpha.dot(t[n]) * g[n] * (n ? 1.0 : 0.5);
                    c.require(std::abs(got[n] - want) <= (cheb_tol(p.h, n, p.a, p.b) + 1e-6) * norm, [&] { return "KPM::moments: " + istr(n) + " is " + str(got[n]) + ", expected " + str(want); });
                }
                c.count("moments of a model", num);
            }
        }
        if (r.p(0.2)) {
            // the same model with another potential
            auto shift = static_cast<float>(r.q(-0.25, 0.25, 16));
            model->add(cpb::OnsiteModifier([shift](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef, cpb::string_view) {
                EnergyView v(e);
                for (cpb::idx_t k = 0; k < v.count(); ++k) {
                    for (cpb::idx_t i = 0; i < v.rows(); ++i) for (cpb::idx_t j = 0; j < v.cols(); ++j) { v.set(k, i, j, v.get(k, i, j) * (1.0 + shift)); }
                }
            }));
            auto h2 = read_hmat(model->hamiltonian());
            double l2, h2i;
            h2.gershgorin(l2, h2i);
            if (l2 < lo || h2i > hi || h2.type != p.h.type) { return; }
            kp.set_model(*model);
            p.h = h2;
            c.count("model replaced");
        }
    }
    c.nontrivial = p.h.n > 1 && p.h.e.size() > 1;
}

void random_case(Context& c) {
    if (c.rng.p(0.6)) { core_case(c); } else { model_case(c); }
}

} // namespace

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C18";
    s.rule = "a case is one matrix or model with a kernel, a configuration and up to three spectral quantities; non-trivial when the matrix couples at least two sites";
    s.random_case = random_case;
    return main_suite(s, argc, argv);
}
