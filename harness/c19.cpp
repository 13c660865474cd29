// C19: spectral bounds enclose the spectrum and scaling uses them faithfully
#include "kpm_case.hpp"
#include "numeric/random.hpp"
#include <Eigen/Eigenvalues>

using namespace mon;
namespace kpm = cpb::kpm;

namespace {

struct Spectrum {
    double lo = 0, hi = 0;
    double overlap = -1; ///< of the start vector with the states at the ends (a random vector has about 1); not known for large matrices
    bool found() const { return overlap > 0.35; }
    double loose() const { return overlap < 0 ? 0.06 : 0.35; }
    double width() const { return hi - lo; }
};

template<class M>
void solve(M const& m, cpb::VectorX<cd> const& start, Spectrum& out) {
    Eigen::SelfAdjointEigenSolver<M> s(m);
    auto n = m.rows();
    out.lo = s.eigenvalues()[0];
    out.hi = s.eigenvalues()[n - 1];
    VCd p = s.eigenvectors().adjoint().template cast<cd>() * start;
    auto low = 0.0, high = 0.0;
    for (int i = 0; i < n; ++i) {
        if (s.eigenvalues()[i] - out.lo < 1e-3 * out.width()) { low += std::norm(p[i]); }
        if (out.hi - s.eigenvalues()[i] < 1e-3 * out.width()) { high += std::norm(p[i]); }
    }
    out.overlap = std::sqrt(std::min(low, high) / start.squaredNorm() * static_cast<double>(n));
}

/// What the iteration starts from: an eigenstate which is (nearly) missing from it cannot be found
VCd start_vector(HMat const& h) {
    switch (h.type) {
        case 0: return cpb::num::make_random<cpb::VectorX<float>>(h.n).cast<cd>();
        case 1: return cpb::num::make_random<cpb::VectorX<std::complex<float>>>(h.n).cast<cd>();
        case 2: return cpb::num::make_random<cpb::VectorX<double>>(h.n).cast<cd>();
        default: return cpb::num::make_random<cpb::VectorX<std::complex<double>>>(h.n);
    }
}

Spectrum dense_spectrum(HMat const& h) {
    Spectrum s;
    if (h.complex()) { solve<MCd>(h.dense(), start_vector(h), s); }
    else { solve<Eigen::MatrixXd>(h.dense().real(), start_vector(h), s); }
    return s;
}

/// Multiply by a diagonal unitary from both sides and relabel: the spectrum stays
void disguise(Rng& r, HMat& h) {
    std::vector<cd> u(h.n, 1.0);
    for (auto& x : u) { x = h.complex() ? std::polar(1.0, r.u(0, 6.28)) : (r.p(0.5) ? cd(1) : cd(-1)); }
    std::vector<int> p(h.n);
    for (int i = 0; i < h.n; ++i) { p[i] = i; }
    r.shuffle(p);
    std::map<std::pair<int, int>, cd> old;
    old.swap(h.e);
    for (auto const& x : old) {
        auto i = x.first.first, j = x.first.second;
        if (i <= j) { h.set(p[i], p[j], u[i] * x.second * std::conj(u[j])); }
    }
}

struct Input { HMat h; Spectrum s; };

/// Matrices whose extreme eigenvalues are known
Input known_spectrum(Context& c) {
    auto& r = c.rng;
    Input in;
    auto& h = in.h;
    h.type = r.i(0, 3);
    auto t = r.p(0.5) ? r.q(0.25, 4, 4) : r.u(0.2, 4);
    t = h.stored(t).real();
    auto kind = r.i(0, 6);
    auto shift = 0.0;
    std::string name;
    const double PI = 3.14159265358979323846;
    if (kind == 0) {
        name = "chain";
        h.n = r.p(0.3) ? r.i(200, 800) : r.i(2, 60);
        for (int i = 0; i + 1 < h.n; ++i) { h.set(i, i + 1, t); }
        in.s.hi = 2 * t * std::cos(PI / (h.n + 1));
        in.s.lo = -in.s.hi;
    } else if (kind == 1) {
        name = "ring";
        h.n = r.p(0.3) ? r.i(200, 800) : r.i(3, 60);
        for (int i = 0; i < h.n; ++i) { h.set(i, (i + 1) % h.n, t); }
        in.s.hi = 2 * t;
        in.s.lo = h.n % 2 ? -2 * t * std::cos(PI / h.n) : -2 * t;
    } else if (kind == 2) {
        name = "grid";
        auto a = r.i(2, 24), b = r.i(2, 24);
        h.n = a * b;
        for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) {
            if (i + 1 < a) { h.set(i * b + j, (i + 1) * b + j, t); }
            if (j + 1 < b) { h.set(i * b + j, i * b + j + 1, t); }
        }
        in.s.hi = 2 * t * (std::cos(PI / (a + 1)) + std::cos(PI / (b + 1)));
        in.s.lo = -in.s.hi;
    } else if (kind == 3) {
        name = "star";
        h.n = r.i(2, 200);
        for (int i = 1; i < h.n; ++i) { h.set(0, i, t); }
        in.s.hi = t * std::sqrt(h.n - 1.0);
        in.s.lo = -in.s.hi;
    } else if (kind == 4) {
        name = "complete graph";
        h.n = r.i(2, 40);
        for (int i = 0; i < h.n; ++i) for (int j = 0; j < i; ++j) { h.set(i, j, t); }
        in.s.hi = t * (h.n - 1);
        in.s.lo = -t;
    } else if (kind == 5) {
        name = "dimers";
        h.n = 2 * r.i(1, 100);
        for (int i = 0; i < h.n; i += 2) { h.set(i, i + 1, t); }
        in.s.hi = t;
        in.s.lo = -t;
    } else {
        name = "levels";
        h.n = r.i(2, 100);
        auto levels = r.i(2, 5);
        in.s.lo = in.s.hi = 0;
        for (int i = 0; i < h.n; ++i) {
            auto v = h.stored(t * (i % levels)).real();
            h.set(i, i, v);
            in.s.hi = std::max(in.s.hi, v);
        }
    }
    disguise(r, h);
    // move the spectrum, in particular to where one of its ends is zero
    auto m = r.i(0, 5);
    if (m == 1) { shift = -in.s.lo; }
    if (m == 2) { shift = -in.s.hi; }
    if (m == 3) { shift = r.u(-10, 10); }
    if (m == 5) { shift = (r.p(0.5) ? 1 : -1) * r.u(3, 90) * (in.s.hi - in.s.lo); } // far away
    if (m != 0) {
        shift = h.stored(shift).real();
        for (int i = 0; i < h.n; ++i) {
            auto it = h.e.find({i, i});
            auto old = it == h.e.end() ? 0.0 : it->second.real();
            h.set(i, i, old + shift);
        }
        in.s.lo += shift;
        in.s.hi += shift;
        name += m == 1 ? " from zero" : m == 2 ? " to zero" : m == 5 ? " far away" : " shifted";
    }
    if (h.n <= 90) {
        auto d = dense_spectrum(h);
        c.check(std::abs(d.lo - in.s.lo) + std::abs(d.hi - in.s.hi) < 1e-4 * (std::abs(d.lo) + std::abs(d.hi)), "reference spectra disagree: " + name);
        in.s = d;
    }
    h.text = name + " n=" + istr(h.n) + " type=" + istr(h.type) + " t=" + str(t);
    c.note(h.text);
    c.count("spectra: " + name.substr(0, name.find(' ')));
    if (m == 5) { c.count("spectra far away from zero"); }
    if (m == 1 || m == 2) { c.count("spectra with an end at zero"); }
    if (h.n >= 200) { c.count("large matrices"); }
    c.sig(kind); c.sig(h.n); c.sig(h.type); c.sig(m);
    return in;
}

Input rand_input(Context& c) {
    if (c.rng.p(0.5)) { return known_spectrum(c); }
    Input in;
    HOpt o;
    o.max_n = c.rng.p(0.2) ? 60 : 24;
    o.allow_zero = false;
    in.h = rand_hmat(c, o);
    if (in.h.n < 2) { in.h.n = 2; in.h.set(1, 1, in.h.e.empty() ? 1.0 : in.h.e.begin()->second.real() + 1); }
    in.s = dense_spectrum(in.h);
    return in;
}

/// Extent which rounding does not swallow
bool usable(Input const& in) {
    auto m = std::max(std::abs(in.s.lo), std::abs(in.s.hi));
    return in.s.width() > (in.h.single() ? 0.02 : 0.005) * m && in.s.width() > 1e-3;
}

double noise(Input const& in) {
    auto m = std::max(std::abs(in.s.lo), std::abs(in.s.hi));
    return in.h.eps() * 200 * std::sqrt(in.h.n + 10.0) * m;
}

void check_bounds(Context& c, Input const& in, double lo, double hi, double precision, std::string const& what) {
    auto text = [&] { return what + ": bounds [" + str(lo) + "," + str(hi) + "] of a spectrum [" + str(in.s.lo) + "," + str(in.s.hi) + "]"; };
    c.require(std::isfinite(lo) && std::isfinite(hi) && lo < hi, text);
    c.require(lo >= in.s.lo - noise(in) && hi <= in.s.hi + noise(in), [&] { return text() + " lie outside of it"; });
    auto allowed = 0.005 * (hi - lo) + noise(in);
    if (std::getenv("VP_C19")) {
        fprintf(stderr, "ERR %g %g ov=%g n=%d %s\n", std::max(in.s.hi - hi, lo - in.s.lo) / in.s.width(), precision, in.s.overlap, in.h.n, in.h.text.c_str());
    }
    if (precision > 0.0021) { allowed = 0.08 * in.s.width(); }
    if (!in.s.found()) { allowed = in.s.loose() * in.s.width(); c.count("spectra with an end (possibly) missing from the start vector"); }
    c.require(in.s.hi - hi <= allowed && lo - in.s.lo <= allowed, [&] { return text() + " miss its ends by more than the precision allows"; });
}

void check_scale(Context& c, kpm::Scale<> s, double lo, double hi, std::string const& what) {
    double a, b;
    ref_scale(lo, hi, a, b);
    c.require(std::abs(s.a - a) <= 1e-6 * a && std::abs(s.b - b) <= 1e-6 * (std::abs(b) + a), [&] {
        return what + ": scaling factors (" + str(s.a) + "," + str(s.b) + ") are not those of [" + str(lo) + "," + str(hi) + "]";
    });
    cpb::ArrayXd e(5);
    for (int i = 0; i < 5; ++i) { e[i] = lo + (hi - lo) * i / 4; }
    cpb::ArrayXd x = s(e);
    for (int i = 0; i < 5; ++i) {
        c.require(std::abs(x[i]) <= 1 && std::abs(x[i] * s.a + s.b - e[i]) <= 1e-12 * (std::abs(e[i]) + s.a), [&] {
            return what + ": energy " + str(e[i]) + " is scaled to " + str(x[i]) + " with (" + str(s.a) + "," + str(s.b) + ")";
        });
    }
    auto f = kpm::Scale<float>(s);
    c.check(f.a == static_cast<float>(s.a) && f.b == static_cast<float>(s.b), what + ": scale in single precision");
}

/// The scaled Hamiltonian has to be bounded by one, and its moments those of the recursion
void check_scaled(Context& c, Input const& in, kpm::Core& core, std::string const& what) {
    if (in.h.n > 130 || !in.s.found()) { return; }
    auto& r = c.rng;
    auto s = core.scaling_factors();
    c.require((in.s.hi - s.b) / s.a <= 1 + noise(in) / s.a && (in.s.lo - s.b) / s.a >= -1 - noise(in) / s.a, [&] {
        return what + ": eigenvalues [" + str(in.s.lo) + "," + str(in.s.hi) + "] are scaled outside of [-1,1] by (" + str(s.a) + "," + str(s.b) + ")";
    });
    VCd v = VCd::Zero(in.h.n);
    for (int i = 0; i < in.h.n; ++i) { v[i] = cd(r.u(-1, 1), 0); }
    v.normalize();
    auto num = r.i(2, 50);
    auto got = core.moments(num, v, {}, {});
    auto t = cheb_vectors(in.h, s.a, s.b, v, num);
    auto g = core.get_config().kernel.damping_coefficients(kpm::round_num_moments(num));
    for (int n = 0; n < num; ++n) {
        cd want = v.dot(t[n]) * g[n] * (n ? 1.0 : 0.5);
        c.require(std::abs(got[n] - want) <= cheb_tol(in.h, n, s.a, s.b) + 1e-6, [&] {
            return what + ": moment " + istr(n) + " of the scaled Hamiltonian is " + str(got[n]) + ", expected " + str(want);
        });
    }
    c.count("moments of scaled matrices", num);
}


void bounds_case(Context& c) {
    auto& r = c.rng;
    auto in = rand_input(c);
    if (!usable(in)) { throw CaseSkipped{"narrow spectrum"}; }
    auto precision = r.p(0.5) ? 0.002 : std::pow(10, r.u(in.h.single() ? -3 : -6, -0.5));
    c.note("precision " + str(precision));
    auto b = kpm::Bounds(in.h.ham(), precision);
    double lo, hi;
    auto order = r.i(0, 2);
    if (order == 0) { lo = b.min_energy(); hi = b.max_energy(); }
    else if (order == 1) { hi = b.max_energy(); lo = b.min_energy(); }
    else { b.scaling_factors(); lo = b.min_energy(); hi = b.max_energy(); }
    check_bounds(c, in, lo, hi, precision, "kpm::Bounds");
    check_scale(c, b.scaling_factors(), lo, hi, "kpm::Bounds");
    c.check(b.min_energy() == lo && b.max_energy() == hi, "bounds change from call to call");
    auto n = r.i(2, 20);
    cpb::ArrayXd l = b.linspaced(n);
    c.check(l.size() == n, "linspaced size");
    for (int i = 0; i < n; ++i) {
        auto want = lo + (hi - lo) * i / (n - 1);
        c.require(std::abs(l[i] - want) <= 1e-12 * (std::abs(lo) + std::abs(hi)), [&] { return "linspaced " + istr(i) + " is " + str(l[i]) + ", expected " + str(want); });
    }
    auto rep = b.report(true);
    char buf[80];
    std::snprintf(buf, sizeof buf, "%.2f, %.2f, ", lo, hi);
    c.check(rep.find(buf) == 0, "Bounds::report is '" + rep + "', expected '" + buf + "...'");
    c.count("automatic bounds");
    c.nontrivial = in.h.n > 2;
}

/// Bounds follow the Hamiltonian and the configuration of a calculation
void core_case(Context& c) {
    auto& r = c.rng;
    auto in = rand_input(c);
    if (!usable(in)) { throw CaseSkipped{"narrow spectrum"}; }
    auto k = rand_kconf(c);
    auto user = r.p(0.3);
    auto lo = 0.0, hi = 0.0;
    if (user) {
        lo = static_cast<float>(in.s.lo - r.u(0.01, 2) * in.s.width()); hi = static_cast<float>(in.s.hi + r.u(0.01, 2) * in.s.width());
        c.note("given bounds [" + str(lo) + "," + str(hi) + "]");
        if (r.p(0.2)) {
            k.cfg.min_energy = static_cast<float>(hi); k.cfg.max_energy = static_cast<float>(lo);
            auto refused = false;
            try { kpm::Core(in.h.ham(), kpm::Compute(cpb::kpm::DefaultCompute(1)), k.cfg); } catch (std::invalid_argument const&) { refused = true; }
            c.check(refused, "energy bounds in the wrong order were accepted");
            c.count("wrong bounds refused");
        }
        k.cfg.min_energy = static_cast<float>(lo); k.cfg.max_energy = static_cast<float>(hi);
    }
    auto core = kpm::Core(in.h.ham(), kpm::Compute(cpb::kpm::DefaultCompute(k.threads)), k.cfg);
    for (int step = r.i(1, 4); step > 0; --step) {
        auto query = r.i(0, 3);
        auto what = std::string(user ? "given bounds" : "automatic bounds");
        if (query == 0) { // the first use is a calculation
            cpb::ArrayXd e(3);
            e << in.s.lo, 0.5 * (in.s.lo + in.s.hi), in.s.hi;
            if (user) { e = e.max(lo).min(hi); }
            auto d = core.ldos({0}, e, in.s.width() * 0.2);
            c.check(d.rows() == 3 && d.cols() == 1, "size of a density");
        }
        auto s = core.scaling_factors();
        if (user) {
            check_scale(c, s, lo, hi, what);
            c.count("given bounds");
        } else {
            // a and b in terms of bounds which have to be good
            auto half = s.a / 1.01;
            auto b0 = s.b;
            if (b0 == 0) { b0 = std::abs(in.s.lo + in.s.hi) < (in.s.found() ? 0.03 : 2) * s.a ? 0.5 * (in.s.lo + in.s.hi) : 0; }
            auto tol = 1e-6 * (s.a + std::abs(s.b));
            auto part = in.s.found() ? 0.006 : in.s.loose();
            c.require(std::abs(half - 0.5 * in.s.width()) <= part * in.s.width() + tol && std::abs(b0 - 0.5 * (in.s.lo + in.s.hi)) <= part * in.s.width() + tol, [&] {
                return what + ": scaling factors (" + str(s.a) + "," + str(s.b) + ") for a spectrum [" + str(in.s.lo) + "," + str(in.s.hi) + "]";
            });
            c.count("automatic bounds in use");
        }
        check_scaled(c, in, core, what);
        if (query == 2) { (void)core.report(r.p(0.5)); }
        if (step > 1) {
            auto kind = r.i(0, 2);
            if (kind == 0) { // another matrix
                auto in2 = rand_input(c);
                if (!usable(in2)) { return; }
                if (user && (in2.s.lo < lo || in2.s.hi > hi)) { return; }
                in = in2;
                c.count("Hamiltonians replaced");
            } else if (user) { // smaller
                auto mid = 0.5 * (lo + hi);
                auto f = r.u(0.5, 1.0);
                for (auto& x : in.h.e) { x.second = in.h.stored(x.second * f); }
                in.s.lo *= f; in.s.hi *= f;
                if (in.s.lo < lo || in.s.hi > hi) { return; }
                (void)mid;
            } else { // larger or smaller by much
                auto f = std::pow(10, r.u(-1.5, 1.5));
                for (auto& x : in.h.e) { x.second = in.h.stored(x.second * f); }
                in.s.lo *= f; in.s.hi *= f;
                if (!usable(in)) { return; }
                c.note("times " + str(f));
                c.count("Hamiltonians rescaled");
            }
            core.set_hamiltonian(in.h.ham());
        }
    }
    c.nontrivial = in.h.n > 2;
}

void random_case(Context& c) {
    if (c.rng.p(0.5)) { bounds_case(c); } else { core_case(c); }
}

} // namespace

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C19";
    s.rule = "a case is one matrix with a precision, or one calculation object whose Hamiltonian is replaced up to three times; non-trivial when the matrix has more than two rows";
    s.random_case = random_case;
    return main_suite(s, argc, argv);
}
