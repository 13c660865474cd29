// C17: all kernel-polynomial configurations compute the exact Chebyshev moments
#include "kpm_case.hpp"

using namespace mon;
namespace kpm = cpb::kpm;

namespace {

VCd rand_vec(Context& c, HMat const& h) {
    auto& r = c.rng;
    VCd v = VCd::Zero(h.n);
    auto kind = r.i(0, 3);
    for (int i = 0; i < h.n; ++i) {
        if (kind == 0 && !r.p(0.2)) { continue; }
        v[i] = cd(r.u(-1, 1), h.complex() ? r.u(-1, 1) : 0);
    }
    if (kind == 1) { v.setZero(); v[r.i(0, h.n - 1)] = 1; }
    if (v.norm() == 0) { v[0] = 1; }
    return v;
}

double cur_a = 1, cur_b = 0; ///< the scaling in use

void compare(Context& c, HMat const& h, std::string const& what, int n, cd got, cd want, double norm) {
    auto err = std::abs(got - want);
    auto tol = cheb_tol(h, n, cur_a, cur_b) * norm;
    c.require(err <= tol, [&] {
        return what + ": moment " + istr(n) + " is " + str(got) + ", expected " + str(want) + " (difference " + str(err) + ", tolerance " + str(tol) + ")";
    });
    if (err > 0.03 * tol) { c.count("errors above 3 % of the tolerance"); }
}

/// Core::moments: <beta|op T_n(H)|alpha>
void core_moments(Context& c) {
    auto& r = c.rng;
    auto h = rand_hmat(c);
    auto k = rand_kconf(c);
    double lo, hi, a, b;
    safe_bounds(c, h, lo, hi);
    k.cfg.min_energy = static_cast<float>(lo);
    k.cfg.max_energy = static_cast<float>(hi);
    k.cfg.kernel = kpm::dirichlet_kernel();
    auto core = kpm::Core(h.ham(), kpm::DefaultCompute(k.threads), k.cfg);
    given_scale(c, core.scaling_factors(), lo, hi, a, b);
    cur_a = a; cur_b = b;
    for (int rep = r.i(1, 2); rep > 0; --rep) {
        auto num = r.i(1, 60);
        auto alpha = rand_vec(c, h);
        auto mode = r.i(0, 3); // 0: <alpha|T|alpha>, 1: beta, 2: op, 3: both
        VCd beta = (mode & 1) ? rand_vec(c, h) : VCd();
        cpb::SparseMatrixXcd op;
        MCd dop = MCd::Identity(h.n, h.n);
        if (mode & 2) {
            std::vector<Eigen::Triplet<cd>> t;
            dop.setZero();
            for (int i = r.i(1, 3 * h.n); i > 0; --i) {
                auto x = r.i(0, h.n - 1), y = r.i(0, h.n - 1);
                if (dop(x, y) != cd(0)) { continue; }
                dop(x, y) = cd(r.u(-1, 1), h.complex() ? r.u(-1, 1) : 0);
                t.emplace_back(x, y, dop(x, y));
            }
            op.resize(h.n, h.n);
            op.setFromTriplets(t.begin(), t.end());
            op.makeCompressed();
        }
        c.note("moments " + istr(num) + " mode " + istr(mode));
        auto got = core.moments(num, alpha, beta, op);
        c.check(got.size() == num, "Core::moments returned " + istr(got.size()) + " of " + istr(num) + " moments");

        // the library starts from vectors rounded to the type of the matrix
        auto round = [&](VCd v) { for (int i = 0; i < v.size(); ++i) { v[i] = h.stored(v[i]); } return v; };
        VCd bra = round((mode & 1) ? beta : alpha);
        auto t = cheb_vectors(h, a, b, round(alpha), num);
        VCd bo = dop.adjoint() * bra;
        auto norm = std::max(1e-3, bra.norm() * alpha.norm() * std::max(1.0, dop.norm()));
        for (int n = 0; n < num; ++n) {
            cd want = bo.dot(t[n]) * (n == 0 ? 0.5 : 1.0);
            compare(c, h, "Core::moments", n, got[n], want, norm);
        }
        c.count("moments compared", num);
        c.count(mode ? "generic expectation values" : "diagonal expectation values");
        c.sig(num); c.sig(mode);
    }
    c.nontrivial = h.n > 1 && h.e.size() > 1;
}

struct GetCol {
    int col;
    template<class S> VCd operator()(cpb::ArrayXX<S> const& m) const { return m.col(col).template cast<cd>().matrix(); }
    template<class S> VCd operator()(cpb::ArrayX<S> const& m) const { return m.template cast<cd>().matrix(); }
};
struct GetAll {
    template<class S> std::vector<VCd> operator()(std::vector<cpb::ArrayX<S>> const& m) const {
        std::vector<VCd> r;
        for (auto const& x : m) { r.push_back(x.template cast<cd>().matrix()); }
        return r;
    }
};
struct GetDense {
    template<class S> MCd operator()(cpb::MatrixX<S> const& m) const { return m.template cast<cd>(); }
};
struct Cols {
    template<class S> int operator()(cpb::ArrayXX<S> const& m) const { return static_cast<int>(m.cols()); }
    template<class S> int operator()(cpb::ArrayX<S> const&) const { return 1; }
};

/// The compute back end for given target sites
void local_moments(Context& c) {
    auto& r = c.rng;
    auto h = rand_hmat(c);
    auto k = rand_kconf(c);
    double lo, hi, a, b;
    safe_bounds(c, h, lo, hi);
    auto ac = k.cfg.algorithm;
    auto scale = kpm::Bounds(lo, hi).scaling_factors();
    given_scale(c, scale, lo, hi, a, b);
    cur_a = a; cur_b = b;

    auto const ham = h.ham();
    auto oh = kpm::OptimizedHamiltonian(ham, k.cfg.matrix_format, ac.reorder());
    auto const compute = kpm::DefaultCompute(k.threads);

    for (int rep = r.i(1, 3); rep > 0; --rep) {
        auto num = static_cast<int>(kpm::round_num_moments(r.p(0.2) ? r.i(1, 8) : r.i(2, 70)));
        auto kind = r.i(0, 3);
        auto pick = [&](int count) {
            std::vector<cpb::idx_t> v;
            for (int i = 0; i < count; ++i) { v.push_back(r.i(0, h.n - 1)); }
            return v;
        };
        c.note("N=" + istr(num) + " kind " + istr(kind));
        c.sig(num); c.sig(kind);
        auto unit = [&](int i) { VCd v = VCd::Zero(h.n); v[i] = 1; return v; };
        if (kind == 0) {
            auto i = r.i(0, h.n - 1);
            oh.optimize_for({i, i}, scale);
            auto m = kpm::DiagonalMoments(num);
            compute.moments(&m, kpm::unit_starter(oh), ac, oh);
            VCd got = m.data.match(GetCol{0});
            c.check(got.size() == num, "wrong number of moments");
            auto t = cheb_vectors(h, a, b, unit(i), num);
            for (int n = 0; n < num; ++n) { compare(c, h, "diagonal element " + istr(i), n, got[n], t[n][i] * (n ? 1.0 : 0.5), 1); }
            c.count("diagonal elements", 1);
        } else if (kind == 1) {
            auto row = r.i(0, h.n - 1);
            auto cols = pick(r.i(1, 6));
            oh.optimize_for({row, cols}, scale);
            auto m = kpm::MultiUnitMoments(num, oh.idx());
            compute.moments(&m, kpm::unit_starter(oh), ac, oh);
            auto got = m.data.match(GetAll{});
            c.check(got.size() == cols.size(), "wrong number of elements");
            auto t = cheb_vectors(h, a, b, unit(row), num);
            for (std::size_t j = 0; j < cols.size(); ++j) {
                for (int n = 0; n < num; ++n) {
                    compare(c, h, "element (" + istr(row) + "," + istr(cols[j]) + ")", n, got[j][n], t[n][cols[j]] * (n ? 1.0 : 0.5), 1);
                }
            }
            c.count("off-diagonal elements", static_cast<int>(cols.size()));
        } else if (kind == 2) {
            auto idx = pick(r.p(0.3) ? r.i(8, 20) : r.i(1, 9));
            oh.optimize_for({idx, idx}, scale);
            auto m = kpm::BatchDiagonalMoments(num, static_cast<int>(idx.size()), kpm::BatchConcatenator());
            compute.moments(&m, kpm::unit_starter(oh), ac, oh);
            c.check(m.data.match(Cols{}) == static_cast<int>(idx.size()), "wrong number of columns");
            for (std::size_t j = 0; j < idx.size(); ++j) {
                VCd got = m.data.match(GetCol{static_cast<int>(j)});
                auto i = static_cast<int>(idx[j]);
                auto t = cheb_vectors(h, a, b, unit(i), num);
                for (int n = 0; n < num; ++n) { compare(c, h, "batch element " + istr(i), n, got[n], t[n][i] * (n ? 1.0 : 0.5), 1); }
            }
            c.count("batched elements", static_cast<int>(idx.size()));
            if (idx.size() >= 4) { c.count("batches of several targets"); }
        } else {
            // all vectors T_n x, with an optional operator
            oh.optimize_for({0, 0}, scale);
            auto ac2 = ac;
            ac2.optimal_size = false;
            auto use_op = r.p(0.5);
            cpb::ArrayXf x(h.n);
            for (int i = 0; i < h.n; ++i) { x[i] = static_cast<float>(r.q(-4, 4, 8)); }
            auto m = use_op ? kpm::DenseMatrixMoments(num, kpm::velocity(ham, x)) : kpm::DenseMatrixMoments(num);
            VCd start = rand_vec(c, h);
            for (int i = 0; i < h.n; ++i) { start[i] = h.stored(start[i]); }
            compute.moments(&m, kpm::constant_starter(oh, start), ac2, oh);
            MCd got = m.data.match(GetDense{});
            c.check(got.rows() == num && got.cols() == h.n, "wrong size of the moment matrix");
            auto pos = position_to_original(oh);
            auto t = cheb_vectors(h, a, b, start, num);
            for (int n = 0; n < num; ++n) {
                VCd want = t[n];
                if (use_op) {
                    want.setZero();
                    for (auto const& p : h.e) {
                        want[p.first.first] += p.second * static_cast<double>(x[p.first.first] - x[p.first.second]) * t[n][p.first.second];
                    }
                }
                if (n == 0) { want *= 0.5; }
                VCd g = unorder(got.row(n).transpose(), pos);
                auto norm = start.norm() * (use_op ? 8 * h.dense().norm() + 1 : 1.0);
                for (int i = 0; i < h.n; ++i) { compare(c, h, "vector element " + istr(i), n, g[i], want[i], norm); }
            }
            c.count("full vectors", num);
        }
        c.count("moments compared", num);
    }
    c.nontrivial = h.n > 1 && h.e.size() > 1;
}

void random_case(Context& c) {
    if (c.rng.p(0.3)) { core_moments(c); } else { local_moments(c); }
}

} // namespace

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C17";
    s.rule = "a case is one Hermitian matrix with a configuration and up to three sets of moments; non-trivial when the matrix couples at least two sites";
    s.random_case = random_case;
    return main_suite(s, argc, argv);
}
