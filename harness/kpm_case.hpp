// Random Hermitian matrices, exact Chebyshev references and a recording compute back end
// for the kernel polynomial monitors
#pragma once
#include "common.hpp"
#include "KPM.hpp"
#include <Eigen/Dense>
#include <mutex>

namespace mon {

using VCd = Eigen::VectorXcd;
using MCd = Eigen::MatrixXcd;

/// A Hermitian matrix exactly as the library will store it
struct HMat {
    int n = 0;
    int type = 0; ///< 0 float, 1 complex<float>, 2 double, 3 complex<double>
    std::map<std::pair<int, int>, cd> e;
    std::string text;

    bool single() const { return type < 2; }
    bool complex() const { return type % 2 == 1; }
    double eps() const { return single() ? 6.0e-8 : 1.2e-16; }

    /// the value as stored
    cd stored(cd v) const {
        if (!complex()) { v = v.real(); }
        if (single()) { v = cd(static_cast<float>(v.real()), static_cast<float>(v.imag())); }
        return v;
    }
    void set(int i, int j, cd v) {
        if (i == j) { v = v.real(); }
        v = stored(v);
        e[{i, j}] = v;
        e[{j, i}] = std::conj(v);
    }
    double gershgorin(double& lo, double& hi) const {
        std::vector<double> radius(n, 0), center(n, 0);
        for (auto const& p : e) {
            if (p.first.first == p.first.second) { center[p.first.first] = p.second.real(); }
            else { radius[p.first.first] += std::abs(p.second); }
        }
        lo = 1e300; hi = -1e300;
        for (int i = 0; i < n; ++i) { lo = std::min(lo, center[i] - radius[i]); hi = std::max(hi, center[i] + radius[i]); }
        return hi - lo;
    }
    VCd mul(VCd const& x) const {
        VCd y = VCd::Zero(n);
        for (auto const& p : e) { y[p.first.first] += p.second * x[p.first.second]; }
        return y;
    }
    MCd dense() const {
        MCd m = MCd::Zero(n, n);
        for (auto const& p : e) { m(p.first.first, p.first.second) = p.second; }
        return m;
    }
    template<class S> static S cast(cd v, S*) { return static_cast<S>(v.real()); }
    template<class S> static std::complex<S> cast(cd v, std::complex<S>*) { return {static_cast<S>(v.real()), static_cast<S>(v.imag())}; }
    template<class S> std::shared_ptr<cpb::SparseMatrixX<S>> sparse() const {
        std::vector<Eigen::Triplet<S>> t;
        for (auto const& p : e) { t.emplace_back(p.first.first, p.first.second, cast(p.second, static_cast<S*>(nullptr))); }
        auto m = std::make_shared<cpb::SparseMatrixX<S>>(n, n);
        m->setFromTriplets(t.begin(), t.end());
        m->makeCompressed();
        return m;
    }
    cpb::Hamiltonian ham() const {
        switch (type) {
            case 0: return {sparse<float>()};
            case 1: return {sparse<std::complex<float>>()};
            case 2: return {sparse<double>()};
            default: return {sparse<std::complex<double>>()};
        }
    }
    /// number of connected components
    int components() const {
        std::vector<int> p(n);
        for (int i = 0; i < n; ++i) { p[i] = i; }
        std::function<int(int)> f = [&](int i) { while (p[i] != i) { i = p[i] = p[p[i]]; } return i; };
        auto k = n;
        for (auto const& x : e) {
            auto a = f(x.first.first), b = f(x.first.second);
            if (a != b) { p[a] = b; --k; }
        }
        return k;
    }
};

namespace detail {
    struct ReadHam {
        HMat& h;
        template<class S> void operator()(std::shared_ptr<cpb::SparseMatrixX<S> const> const& p) const {
            h.n = static_cast<int>(p->rows());
            h.type = (std::is_same<S, float>::value ? 0 : std::is_same<S, std::complex<float>>::value ? 1
                      : std::is_same<S, double>::value ? 2 : 3);
            for (int i = 0; i < p->outerSize(); ++i) {
                for (typename cpb::SparseMatrixX<S>::InnerIterator it(*p, i); it; ++it) {
                    h.e[{static_cast<int>(it.row()), static_cast<int>(it.col())}] += cd(std::complex<double>(it.value()));
                }
            }
        }
    };
}

/// The matrix of a Hamiltonian which the library built
inline HMat read_hmat(cpb::Hamiltonian const& ham) {
    HMat h;
    ham.get_variant().match(detail::ReadHam{h});
    h.text = "model n=" + istr(h.n) + " type=" + istr(h.type);
    return h;
}

struct HOpt { int max_n = 60; bool allow_disconnected = true; bool allow_zero = true; };

inline HMat rand_hmat(Context& c, HOpt const& o = {}) {
    auto& r = c.rng;
    HMat h;
    h.type = r.i(0, 3);
    auto big = r.p(0.1);
    h.n = big ? r.i(o.max_n / 2, 2 * o.max_n) : r.p(0.2) ? r.i(1, 5) : r.i(2, o.max_n);
    auto kind = r.i(0, 6);
    auto val = [&]() -> cd {
        auto a = r.p(0.3) ? r.q(-2, 2, 4) : r.u(-2, 2);
        if (std::abs(a) < 0.05) { a = 1; }
        auto b = h.complex() ? r.u(-1, 1) : 0.0;
        return {a, b};
    };
    std::string k;
    auto link = [&](int i, int j) { if (i != j) { h.set(i, j, val()); } };
    if (kind == 0) { k = "chain"; for (int i = 0; i + 1 < h.n; ++i) { link(i, i + 1); } }
    else if (kind == 1) { k = "ring"; for (int i = 0; i < h.n; ++i) { link(i, (i + 1) % h.n); } }
    else if (kind == 2) {
        k = "grid";
        auto w = std::max(1, static_cast<int>(std::sqrt(h.n)));
        for (int i = 0; i < h.n; ++i) {
            if ((i + 1) % w && i + 1 < h.n) { link(i, i + 1); }
            if (i + w < h.n) { link(i, i + w); }
        }
    }
    else if (kind == 3) { k = "star"; for (int i = 1; i < h.n; ++i) { link(0, i); } }
    else if (kind == 4) {
        k = "tree+";
        for (int i = 1; i < h.n; ++i) { link(i, r.i(0, i - 1)); }
        for (int i = r.i(0, h.n); i > 0; --i) { link(r.i(0, h.n - 1), r.i(0, h.n - 1)); }
    }
    else if (kind == 5) {
        k = "sparse random";
        for (int i = r.i(0, 2 * h.n); i > 0; --i) { link(r.i(0, h.n - 1), r.i(0, h.n - 1)); }
    }
    else {
        k = "dense";
        h.n = std::min(h.n, 16);
        for (int i = 0; i < h.n; ++i) { for (int j = 0; j < i; ++j) { if (r.p(0.8)) { link(i, j); } } }
    }
    // parts which are not connected to the rest
    if (kind != 5 && o.allow_disconnected && h.n > 2 && r.p(0.2)) {
        for (int cut = r.i(1, 2); cut > 0; --cut) {
            auto at = r.i(1, h.n - 1);
            for (auto it = h.e.begin(); it != h.e.end();) {
                auto a = it->first.first < at, b = it->first.second < at;
                if (a != b) { it = h.e.erase(it); } else { ++it; }
            }
        }
    }
    auto diag = r.i(0, 4);
    if (diag == 1) { for (int i = 0; i < h.n; ++i) { h.set(i, i, r.u(-2, 2)); } }
    if (diag == 2) { for (int i = 0; i < h.n; ++i) { if (r.p(0.4)) { h.set(i, i, r.u(-2, 2)); } } }
    if (diag == 3) { auto v = r.u(-5, 5); for (int i = 0; i < h.n; ++i) { h.set(i, i, v); } }
    if (diag == 4) { for (int i = 0; i < h.n; ++i) { if (r.p(0.3)) { h.set(i, i, 0); } } } // stored zeros
    if (!o.allow_zero) {
        auto nz = false;
        for (auto const& p : h.e) { nz = nz || (p.second != cd(0)); }
        if (!nz) { if (h.n == 1) { h.set(0, 0, 1); } else { h.set(0, 1, 1); } }
    }
    // relabel
    if (r.p(0.7)) {
        std::vector<int> p(h.n);
        for (int i = 0; i < h.n; ++i) { p[i] = i; }
        r.shuffle(p);
        std::map<std::pair<int, int>, cd> e2;
        for (auto const& x : h.e) { e2[{p[x.first.first], p[x.first.second]}] = x.second; }
        h.e = e2;
    }
    h.text = k + " n=" + istr(h.n) + " type=" + istr(h.type) + " diag=" + istr(diag) + " components=" + istr(h.components())
             + " nnz=" + istr(h.e.size());
    c.note(h.text);
    c.count("matrices: " + k);
    if (h.components() > 1) { c.count("matrices in several unconnected parts"); }
    c.sig(h.n); c.sig(h.type); c.sig(kind);
    for (auto const& p : h.e) { c.sig(p.first.first * 1000 + p.first.second); }
    return h;
}

struct KConf {
    cpb::kpm::Config cfg;
    int threads = 1;
    std::string text;
};

inline KConf rand_kconf(Context& c, int max_threads = 3) {
    auto& r = c.rng;
    KConf k;
    k.cfg.matrix_format = r.p(0.5) ? cpb::kpm::MatrixFormat::ELL : cpb::kpm::MatrixFormat::CSR;
    k.cfg.algorithm.optimal_size = r.p(0.6);
    k.cfg.algorithm.interleaved = r.p(0.6);
    k.threads = r.i(1, max_threads);
    k.text = std::string(k.cfg.matrix_format == cpb::kpm::MatrixFormat::ELL ? "ELL" : "CSR")
             + (k.cfg.algorithm.optimal_size ? "+optsize" : "") + (k.cfg.algorithm.interleaved ? "+interleaved" : "")
             + " threads=" + istr(k.threads);
    c.note(k.text);
    c.count(std::string("configuration: ") + k.text.substr(0, k.text.find(' ')));
    c.sig(k.cfg.matrix_format == cpb::kpm::MatrixFormat::ELL); c.sig(k.cfg.algorithm.optimal_size);
    c.sig(k.cfg.algorithm.interleaved); c.sig(k.threads);
    return k;
}

/// Energy bounds which certainly enclose the spectrum
inline void safe_bounds(Context& c, HMat const& h, double& lo, double& hi) {
    h.gershgorin(lo, hi);
    if (hi - lo < 0.5) { lo -= 1; hi += 1; }
    auto& r = c.rng;
    if (r.p(0.3)) { auto m = std::max(std::abs(lo), std::abs(hi)); lo = -m; hi = m; } // no offset needed
    else { lo -= r.u(0, 0.5); hi += r.u(0, 0.5); }
    lo = static_cast<float>(lo - 1e-5); hi = static_cast<float>(hi + 1e-5);
    c.note("bounds [" + str(lo) + "," + str(hi) + "]");
}

const double PI = 3.14159265358979323846;

struct KernelSpec {
    int kind = 0;
    double lambda = 4;
    std::string text;
    cpb::kpm::Kernel make() const {
        return kind == 0 ? cpb::kpm::jackson_kernel() : kind == 1 ? cpb::kpm::lorentz_kernel(lambda) : cpb::kpm::dirichlet_kernel();
    }
    std::vector<double> damping(int num) const {
        std::vector<double> g(num, 1.0);
        for (int n = 0; n < num; ++n) {
            if (kind == 0) {
                auto q = PI / (num + 1);
                g[n] = ((num + 1 - n) * std::cos(q * n) + std::sin(q * n) / std::tan(q)) / (num + 1);
            } else if (kind == 1) {
                g[n] = std::sinh(lambda * (1 - static_cast<double>(n) / num)) / std::sinh(lambda);
            }
        }
        return g;
    }
    /// 0 if rounding may decide
    int num_moments(double scaled_broadening) const {
        auto x = (kind == 1 ? lambda : PI) / scaled_broadening;
        if (std::abs(x - std::round(x)) < 1e-4 * std::max(1.0, x * 1e-2)) { return 0; }
        auto n = static_cast<int>(x) + 1;
        if (n < 2) { return 2; }
        while ((n - 2) % 4) { ++n; }
        return n;
    }
};

inline KernelSpec rand_kernel(Context& c) {
    KernelSpec k;
    k.kind = c.rng.i(0, 2);
    k.lambda = c.rng.p(0.4) ? 4.0 : c.rng.q(1, 6, 4);
    k.text = k.kind == 0 ? "Jackson" : k.kind == 1 ? "Lorentz " + str(k.lambda) : "Dirichlet";
    c.note(k.text);
    c.count("kernel: " + k.text.substr(0, k.text.find(' ')));
    c.sig(k.kind);
    return k;
}

/// The scaling which the documentation promises for the given bounds
inline void ref_scale(double lo, double hi, double& a, double& b) {
    a = 0.5 * (hi - lo) * 1.01;
    b = 0.5 * (hi + lo);
    if (std::abs(b / a) < 1e-4) { b = 0; }
}

/// The scaling factors in use, which must be those of the given bounds
inline void given_scale(Context& c, cpb::kpm::Scale<> s, double lo, double hi, double& a, double& b) {
    ref_scale(lo, hi, a, b);
    c.check(std::abs(s.a - a) <= 1e-6 * a && std::abs(s.b - b) <= 1e-6 * (std::abs(b) + a),
            "scaling factors (" + str(s.a) + "," + str(s.b) + ") differ from those of the given bounds (" + str(a) + "," + str(b) + ")");
    a = s.a;
    b = s.b;
}

/// T_n((H - b) / a) x for n = 0 .. num-1
inline std::vector<VCd> cheb_vectors(HMat const& h, double a, double b, VCd const& x, int num) {
    std::vector<VCd> t;
    t.push_back(x);
    auto hs = [&](VCd const& v) { VCd y = (h.mul(v) - b * v) / a; return y; };
    if (num > 1) { t.push_back(hs(x)); }
    for (int n = 2; n < num; ++n) { VCd y = 2.0 * hs(t[n - 1]) - t[n - 2]; t.push_back(y); }
    return t;
}

/// Error which rounding may cause in T_n x for |x| = 1
inline double cheb_tol(HMat const& h, int n, double a, double b) {
    auto m = std::abs(b);
    for (auto const& p : h.e) { if (p.first.first == p.first.second) { m = std::max(m, std::abs(p.second)); } }
    return h.eps() * (60 + 40.0 * n) * (1 + m / a);
}

inline cpb::kpm::Indices indices(std::vector<cpb::idx_t> const& a, std::vector<cpb::idx_t> const& b) { return {a, b}; }

/// original index at each position of the optimised Hamiltonian
inline std::vector<int> position_to_original(cpb::kpm::OptimizedHamiltonian const& oh) {
    Eigen::VectorXd v(oh.size());
    for (int i = 0; i < v.size(); ++i) { v[i] = i; }
    oh.reorder(v);
    std::vector<int> p(v.size());
    for (int i = 0; i < v.size(); ++i) { p[i] = static_cast<int>(v[i]); }
    return p;
}

inline VCd unorder(VCd const& x, std::vector<int> const& pos) {
    VCd y(x.size());
    for (int i = 0; i < x.size(); ++i) { y[pos[i]] = x[i]; }
    return y;
}

struct ToCd {
    template<class V> VCd operator()(V const& v) const { return v.template cast<cd>().matrix(); }
};

/// Everything a calculation asked of its compute back end
struct Log {
    struct Call {
        std::vector<VCd> vectors; ///< starting vectors, original order
        int kind = 0;             ///< which alternative of MomentsRef
        int num_moments = 0, num_vectors = 1;
    };
    std::mutex m;
    std::vector<Call> calls;
};

/// The default back end with a record of the starting vectors which it drew
class Recorder : public cpb::kpm::Compute::Interface {
public:
    Recorder(int threads, std::shared_ptr<Log> log, cpb::kpm::DefaultCompute::ProgressCallback cb = {})
        : inner(threads, std::move(cb)), log(std::move(log)) {}

    void moments(cpb::kpm::MomentsRef m, cpb::kpm::Starter const& s, cpb::kpm::AlgorithmConfig const& ac,
                 cpb::kpm::OptimizedHamiltonian const& oh) const override {
        Log::Call call;
        auto const pos = position_to_original(oh);
        auto& mtx = log->m;
        auto wrapped = cpb::kpm::Starter([&](cpb::var::scalar_tag tag) {
            auto v = s.make(tag);
            VCd x = v.match(ToCd{});
            std::lock_guard<std::mutex> lk(mtx);
            call.vectors.push_back(unorder(x, pos));
            return v;
        }, s.vector_size);
        wrapped.count = s.count;
        inner.moments(std::move(m), wrapped, ac, oh);
        s.count = wrapped.count;
        std::lock_guard<std::mutex> lk(mtx);
        log->calls.push_back(std::move(call));
    }

private:
    cpb::kpm::DefaultCompute inner;
    std::shared_ptr<Log> log;
};

} // namespace mon
