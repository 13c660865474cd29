// C20: conductivity equals the Kubo-Bastin trace over the random vectors which were used
#include "kpm_case.hpp"
#include "build_case.hpp"

using namespace mon;
namespace kpm = cpb::kpm;

namespace {

struct Setup {
    HMat h;
    KernelSpec kern;
    double a = 1, b = 0, lo = 0, hi = 0, broadening = 1, temperature = 300;
    int num = 2, points = 10, vectors = 1;
    cpb::ArrayXd mu;
};

void rand_setup(Context& c, Setup& p) {
    auto& r = c.rng;
    for (int tries = 0;; ++tries) {
        if (tries > 20) { throw CaseSkipped{"no broadening"}; }
        auto want = r.p(0.2) ? r.u(1, 6) : r.u(3, 24);
        p.broadening = (p.kern.kind == 1 ? p.kern.lambda : PI) / want * p.a;
        p.num = p.kern.num_moments(p.broadening / p.a);
        if (p.num) { break; }
    }
    p.temperature = r.p(0.3) ? r.u(1000, 20000) : r.p(0.5) ? r.u(100, 1000) : r.u(1, 100);
    p.points = r.p(0.2) ? r.i(2, 4) : r.i(5, 40);
    p.vectors = r.i(1, 4);
    p.mu = cpb::ArrayXd(r.i(1, 6));
    for (int i = 0; i < p.mu.size(); ++i) { p.mu[i] = r.p(0.8) ? r.u(p.lo, p.hi) : r.u(p.lo - 3, p.hi + 3); }
    c.note("broadening " + str(p.broadening) + " (" + istr(p.num) + " moments) T=" + str(p.temperature) + " points=" + istr(p.points) + " vectors=" + istr(p.vectors));
    c.sig(p.num); c.sig(p.points); c.sig(p.vectors);
}

VCd velocity(HMat const& h, std::vector<double> const& x, VCd const& v) {
    VCd y = VCd::Zero(h.n);
    for (auto const& e : h.e) { y[e.first.first] += e.second * (x[e.first.first] - x[e.first.second]) * v[e.first.second]; }
    return y;
}

/// The vectors as a multiset: v or velocity(v) may be started first, in any order
bool same(VCd const& a, VCd const& b, double tol) { return (a - b).norm() <= tol * (1 + b.norm()); }

/// Split what the back end was given into plain random vectors and those with the left velocity applied
std::vector<VCd> plain_vectors(Context& c, Setup const& p, std::vector<VCd> const& all, std::vector<double> const& left) {
    std::vector<VCd> plain, other;
    for (auto const& v : all) {
        auto unit = true;
        for (int i = 0; i < v.size(); ++i) { unit = unit && std::abs(std::abs(v[i]) - 1) < 1e-4; }
        (unit ? plain : other).push_back(v);
    }
    c.check(all.size() == 2u * static_cast<unsigned>(p.vectors), istr(all.size()) + " vectors were started for " + istr(p.vectors) + " random vectors");
    auto vmax = 0.0;
    for (auto const& e : p.h.e) { vmax = std::max(vmax, std::abs(e.second) * std::abs(left[e.first.first] - left[e.first.second])); }
    // usually they come in pairs
    {
        std::vector<VCd> out;
        for (std::size_t j = 0; j + 1 < all.size(); j += 2) {
            auto tol = 2e-5 * (1 + vmax);
            if (same(all[j], velocity(p.h, left, all[j + 1]), tol)) { out.push_back(all[j + 1]); }
            else if (same(all[j + 1], velocity(p.h, left, all[j]), tol)) { out.push_back(all[j]); }
        }
        if (static_cast<int>(out.size()) == p.vectors) { return out; }
    }
    // the velocity vectors may happen to have entries of modulus one as well
    std::vector<VCd> out;
    std::vector<bool> used(all.size(), false);
    for (auto const& r : plain) {
        VCd want = velocity(p.h, left, r);
        for (std::size_t j = 0; j < all.size(); ++j) {
            if (!used[j] && same(all[j], want, 2e-5 * (1 + vmax))) { used[j] = true; out.push_back(r); break; }
        }
    }
    c.check(static_cast<int>(out.size()) >= p.vectors, "the left vectors are not the velocity operator applied to the right vectors: " + istr(out.size()) + " of " + istr(p.vectors));
    return out;
}

void check_conductivity(Context& c, Setup const& p, cpb::ArrayXcd const& got, std::vector<VCd> const& vectors,
                        std::vector<double> const& left, std::vector<double> const& right, bool real_part, std::string const& what) {
    c.check(got.size() == p.mu.size(), what + " has " + istr(got.size()) + " values for " + istr(p.mu.size()) + " chemical potentials");
    const auto N = p.num;
    auto g = p.kern.damping(N);
    // moments
    MCd m = MCd::Zero(N, N), err = MCd::Zero(N, N);
    for (int k = 0; k < p.vectors; ++k) {
        auto const& r = vectors[k];
        auto tl = cheb_vectors(p.h, p.a, p.b, velocity(p.h, left, r), N);
        auto tr = cheb_vectors(p.h, p.a, p.b, r, N);
        std::vector<VCd> vr;
        for (auto const& t : tr) { vr.push_back(velocity(p.h, right, t)); }
        auto nl = velocity(p.h, left, r).norm(), nr = r.norm();
        auto vmax = 0.0; // norm of the right velocity
        {
            std::vector<double> row(p.h.n, 0);
            for (auto const& e : p.h.e) { row[e.first.first] += std::abs(e.second) * std::abs(right[e.first.first] - right[e.first.second]); }
            for (auto x : row) { vmax = std::max(vmax, x); }
        }
        for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
            auto f = g[i] * g[j] * (i ? 1.0 : 0.5) * (j ? 1.0 : 0.5) / p.vectors;
            m(i, j) += f * vr[j].dot(tl[i]);
            err(i, j) += f * nl * nr * vmax * (cheb_tol(p.h, i, p.a, p.b) + cheb_tol(p.h, j, p.a, p.b) + 40 * p.h.eps());
        }
    }
    // integral over the grid between the bounds
    std::vector<double> es, integrand_err;
    std::vector<cd> integrand;
    const auto eps = p.h.eps();
    for (int s = 0; s < p.points; ++s) {
        auto e = p.lo + (p.hi - p.lo) * s / (p.points - 1);
        auto x = (e - p.b) / p.a;
        es.push_back(x);
        auto th = std::acos(x), q = std::sqrt(1 - x * x);
        auto dx = eps * 8 * (1 + (std::max(std::abs(p.lo), std::abs(p.hi)) + std::abs(p.b)) / p.a);
        auto dth = dx / q + 4 * eps;
        cd sum = 0;
        auto e_sum = 0.0, scale = 0.0;
        for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
            auto gp = [&](int t, int n) { return (cd(x, 0) - cd(0, n * q)) * std::exp(cd(0, n * th)) * std::cos(t * th); };
            auto gamma = gp(i, j) + std::conj(gp(j, i));
            sum += m(i, j) * gamma;
            auto mag = std::abs(x) + q * std::max(i, j);
            e_sum += (err(i, j).real() + 2e-7 * std::abs(m(i, j))) * std::abs(gamma) + std::abs(m(i, j)) * (mag * ((i + j) * dth + 20 * eps) + std::max(i, j) * dx / q + dx);
            scale += std::abs(m(i, j)) * std::abs(gamma);
        }
        auto k = 1 / ((1 - x * x) * (1 - x * x));
        integrand.push_back(k * sum);
        integrand_err.push_back(k * (e_sum + N * 4 * eps * scale) + k * std::abs(sum) * (8 * dx / (1 - x * x) + 20 * eps));
    }
    auto span = es.back() - es.front();
    auto coeff = span / (2 * p.points);
    const auto kb = static_cast<double>(cpb::constant::kb);
    for (int i = 0; i < p.mu.size(); ++i) {
        auto mu = (p.mu[i] - p.b) / p.a, inv = p.a / (kb * p.temperature);
        cd sum = 0;
        auto tol = 0.0;
        for (int s = 0; s < p.points; ++s) {
            auto arg = (es[s] - mu) * inv;
            auto d = eps * 8 * (1 + std::abs(mu) + (std::abs(p.b) + std::abs(p.mu[i])) / p.a) * inv + eps * 8 * std::abs(arg) + 1e-9;
            auto f = [](double y) { return y > 700 ? 0.0 : 1 / (1 + std::exp(y)); };
            auto df = f(arg - d) - f(arg + d) + 20 * eps;
            auto w = s == 0 || s == p.points - 1 ? 1.0 : 2.0;
            sum += w * f(arg) * integrand[s];
            tol += w * (f(arg) * integrand_err[s] + df * std::abs(integrand[s]) + (2 + p.points) * 2 * eps * f(arg) * std::abs(integrand[s]));
        }
        cd want = 4 / (p.a * p.a) * coeff * sum;
        tol = 4 / (p.a * p.a) * coeff * tol * 2 + 1e-12 + 20 * eps * std::abs(want);
        auto dev = real_part ? std::abs(got[i].real() - want.real()) : std::abs(got[i] - want);
        c.require(dev <= tol, [&] {
            return what + " at chemical potential " + str(p.mu[i]) + " is " + str(got[i]) + ", expected " + str(want) + " (tolerance " + str(tol) + ")";
        });
        if (tol < 1e-3 * std::abs(want)) { c.count("conductivities compared to better than 0.1%"); }
        c.count("conductivities compared");
    }
}

std::vector<VCd> logged(Log const& log) {
    std::vector<VCd> v;
    for (auto const& call : log.calls) { v.insert(v.end(), call.vectors.begin(), call.vectors.end()); }
    return v;
}

void core_case(Context& c) {
    auto& r = c.rng;
    Setup p;
    HOpt o;
    o.max_n = 24;
    p.h = rand_hmat(c, o);
    auto k = rand_kconf(c);
    p.kern = rand_kernel(c);
    safe_bounds(c, p.h, p.lo, p.hi);
    p.lo = static_cast<float>(p.lo); p.hi = static_cast<float>(p.hi);
    k.cfg.min_energy = static_cast<float>(p.lo);
    k.cfg.max_energy = static_cast<float>(p.hi);
    k.cfg.kernel = p.kern.make();
    auto log = std::make_shared<Log>();
    auto core = kpm::Core(p.h.ham(), kpm::Compute(Recorder(k.threads, log)), k.cfg);
    given_scale(c, core.scaling_factors(), p.lo, p.hi, p.a, p.b);
    for (int rep = r.i(1, 2); rep > 0; --rep) {
        rand_setup(c, p);
        cpb::ArrayXf left(p.h.n), right(p.h.n);
        for (int i = 0; i < p.h.n; ++i) { left[i] = static_cast<float>(r.q(-4, 4, 8)); right[i] = static_cast<float>(r.q(-4, 4, 8)); }
        if (r.p(0.3)) { right = left; }
        std::vector<double> l(left.data(), left.data() + p.h.n), q(right.data(), right.data() + p.h.n);
        if (r.p(0.3)) { // something else in between leaves the optimised matrix in another order
            cpb::ArrayXd e(1);
            e << 0.5 * (p.lo + p.hi);
            (void)core.ldos({r.i(0, p.h.n - 1)}, e, p.broadening);
            c.count("after another calculation");
        }
        log->calls.clear();
        auto got = core.conductivity(left, right, p.mu, p.broadening, p.temperature, p.vectors, p.points);
        auto all = logged(*log);
        c.check(all.size() == 2u * static_cast<unsigned>(p.vectors), istr(all.size()) + " vectors were started for " + istr(p.vectors) + " random vectors");
        auto v = plain_vectors(c, p, all, l);
        check_conductivity(c, p, got, v, l, q, false, "Core::conductivity");
    }
    c.nontrivial = p.h.n > 1 && p.h.e.size() > 1;
}

void model_case(Context& c) {
    auto& r = c.rng;
    FiniteOpt fo;
    fo.target_sites = 20;
    auto f = rand_finite(c, fo);
    if (f.sites.empty()) { throw CaseSkipped{"no sites"}; }
    auto model = f.model();
    cpb::System const& sys = *model->system();
    Setup p;
    p.h = read_hmat(model->hamiltonian());
    if (p.h.n > 60) { throw CaseSkipped{"large system"}; }
    auto k = rand_kconf(c);
    p.kern = rand_kernel(c);
    safe_bounds(c, p.h, p.lo, p.hi);
    p.lo = static_cast<float>(p.lo); p.hi = static_cast<float>(p.hi);
    k.cfg.min_energy = static_cast<float>(p.lo);
    k.cfg.max_energy = static_cast<float>(p.hi);
    k.cfg.kernel = p.kern.make();
    auto log = std::make_shared<Log>();
    auto kp = cpb::KPM(*model, kpm::Compute(Recorder(k.threads, log)), k.cfg);
    given_scale(c, kp.get_core().scaling_factors(), p.lo, p.hi, p.a, p.b);
    rand_setup(c, p);

    // coordinates of every orbital
    std::vector<double> x[3];
    auto at = 0;
    for (auto const& sub : sys.compressed_sublattices) {
        for (auto i = sub.sys_start(); i < sub.sys_end(); ++i) {
            for (int o = 0; o < sub.num_orbitals(); ++o, ++at) {
                for (int d = 0; d < 3; ++d) { x[d].push_back(d == 0 ? sys.positions.x[i] : d == 1 ? sys.positions.y[i] : sys.positions.z[i]); }
            }
        }
    }
    c.check(at == p.h.n, "size of the Hamiltonian");

    const std::string valid = "xyz", letters = "xyzXw q0";
    std::string dir;
    auto bad = r.p(0.3);
    if (!bad) { dir = {valid[r.i(0, 2)], valid[r.i(0, 2)]}; }
    else {
        do {
            dir.clear();
            for (int i = r.p(0.7) ? 2 : r.i(0, 4); i > 0; --i) { dir += letters[r.i(0, static_cast<int>(letters.size()) - 1)]; }
        } while (dir.size() == 2 && valid.find(dir[0]) != std::string::npos && valid.find(dir[1]) != std::string::npos);
    }
    c.note("direction '" + dir + "'");
    cpb::ArrayXd got;
    auto refused = false;
    try { got = kp.calc_conductivity(p.mu, p.broadening, p.temperature, dir, p.vectors, p.points); } catch (std::logic_error const&) { refused = true; }
    c.check(refused == bad, "direction '" + dir + (refused ? "' was refused" : "' was accepted"));
    if (refused) { c.count("invalid directions refused"); c.nontrivial = true; return; }
    auto const& l = x[valid.find(dir[0])];
    auto const& q = x[valid.find(dir[1])];
    auto v = plain_vectors(c, p, logged(*log), l);
    check_conductivity(c, p, got.cast<cd>(), v, l, q, true, "KPM::calc_conductivity " + dir);
    c.count(std::string("direction ") + dir);
    if (model->is_multiorbital()) { c.count("multi-orbital models"); }
    c.nontrivial = p.h.n > 1;
}

void random_case(Context& c) {
    if (c.rng.p(0.5)) { core_case(c); } else { model_case(c); }
}

} // namespace

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C20";
    s.rule = "a case is one matrix with coordinates, or one model and direction, with kernel, configuration, temperature, grid and vectors; non-trivial when the matrix couples at least two sites";
    s.random_case = random_case;
    return main_suite(s, argc, argv);
}
