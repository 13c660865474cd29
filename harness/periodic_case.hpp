// Random periodic models (blocks and ribbons) together with their expected structure
#pragma once
#include "build_case.hpp"

namespace mon {

struct PeriodicCase {
    RLat lat;
    bool shaped = false;
    Cell size{{1, 1, 1}};           ///< primitive block
    Cell period{{0, 0, 0}};         ///< cells per period, 0: not periodic
    std::array<float, 3> length{{-1, -1, -1}};
    cpb::Shape shape;
    std::vector<RSite> all;         ///< every site of the block or shape, before the period is cut out
    std::vector<RSite> sites;       ///< expected, once the observed period is known
    Cell start{{0, 0, 0}};

    std::unique_ptr<cpb::Model> model() const {
        auto m = shaped ? new cpb::Model(lat.make(), shape) : new cpb::Model(lat.make(), cpb::Primitive(size[0], size[1], size[2]));
        std::unique_ptr<cpb::Model> p(m);
        p->add(cpb::TranslationalSymmetry(length[0], length[1], length[2]));
        return p;
    }
    std::vector<RSite> window(Cell const& st) const {
        std::vector<RSite> w;
        for (auto const& s : all) {
            bool in = true;
            for (int k = 0; k < lat.ndim(); ++k) { if (period[k] > 0) { in = in && s.c[k] >= st[k] && s.c[k] < st[k] + period[k]; } }
            if (in) { w.push_back(s); }
        }
        return w;
    }
    /// Which period did the library pick? Any is fine as long as it is one whole period.
    void locate(Context& c, cpb::System const& s) {
        Finder f(all);
        Cell lo{{1 << 20, 1 << 20, 1 << 20}}, hi{{-(1 << 20), -(1 << 20), -(1 << 20)}};
        for (cpb::idx_t n = 0; n < s.num_sites(); ++n) {
            V3 p(s.positions.x[n], s.positions.y[n], s.positions.z[n]);
            auto w = f.find(p);
            c.require(w >= 0, [&] { return "site at " + str(p) + " is not a site of the structure"; });
            for (int k = 0; k < 3; ++k) { lo[k] = std::min(lo[k], all[w].c[k]); hi[k] = std::max(hi[k], all[w].c[k]); }
        }
        Cell a = lo, b = lo;
        for (int k = 0; k < 3; ++k) {
            if (period[k] <= 0) { continue; }
            a[k] = hi[k] - period[k] + 1;
            c.require(a[k] <= b[k], [&] { return "the system spans more than one period in direction " + std::to_string(k + 1) + ": cells " + std::to_string(lo[k]) + " to " + std::to_string(hi[k]); });
            if (b[k] - a[k] > 40) { a[k] = b[k] - 40; }
        }
        for (int z = a[2]; z <= b[2]; ++z) for (int y = a[1]; y <= b[1]; ++y) for (int x = a[0]; x <= b[0]; ++x) {
            auto w = window({{x, y, z}});
            if (static_cast<cpb::idx_t>(w.size()) == s.num_sites()) { start = {{x, y, z}}; sites = w; return; }
        }
        c.require(false, [&] { return "the system (" + std::to_string(s.num_sites()) + " sites) is not one period of the structure, cells from " + str(lo) + " to " + str(hi) + ", one period would have " + std::to_string(window(b).size()) + " sites"; });
    }
    bool any_window_empty() const {
        if (all.empty()) { return true; }
        Cell lo = all[0].c, hi = all[0].c;
        for (auto const& s : all) for (int k = 0; k < 3; ++k) { lo[k] = std::min(lo[k], s.c[k]); hi[k] = std::max(hi[k], s.c[k]); }
        for (int k = 0; k < 3; ++k) { if (period[k] > 0) { hi[k] = hi[k] - period[k] + 1; } else { hi[k] = lo[k]; } }
        for (int z = lo[2]; z <= hi[2]; ++z) for (int y = lo[1]; y <= hi[1]; ++y) for (int x = lo[0]; x <= hi[0]; ++x) {
            if (window({{x, y, z}}).empty()) { return true; }
        }
        for (int k = 0; k < 3; ++k) { if (period[k] > 0 && hi[k] < lo[k]) { return true; } }
        return false;
    }
    /// reciprocal vectors of the primitive cell
    std::vector<V3> reciprocal() const {
        Eigen::MatrixXd m(3, lat.ndim());
        for (int k = 0; k < lat.ndim(); ++k) { m.col(k) = lat.a[k]; }
        Eigen::MatrixXd g = m * (m.transpose() * m).inverse() * (2 * M_PI);
        std::vector<V3> out;
        for (int k = 0; k < lat.ndim(); ++k) { out.push_back(g.col(k)); }
        return out;
    }
};

inline PeriodicCase rand_periodic(Context& c, LatOpt const& lo = {}, double shape_prob = 0.4, int max_period = 5) {
    auto& r = c.rng;
    PeriodicCase p;
    p.lat = rand_lattice(r, lo);
    auto nd = p.lat.ndim();
    do {
        for (int k = 0; k < nd; ++k) { p.period[k] = r.p(0.6) ? r.i(1, nd == 3 ? std::min(max_period, 3) : max_period) : 0; }
    } while (p.period == Cell{{0, 0, 0}});
    for (int k = 0; k < nd; ++k) {
        if (p.period[k] == 1 && r.p(0.6)) { p.length[k] = 0; }
        else if (p.period[k] > 0) { p.length[k] = static_cast<float>(p.lat.a[k].norm() * (p.period[k] + (r.p(0.3) ? r.u(-0.3, 0.3) : 0))); }
    }
    p.shaped = r.p(shape_prob);
    if (!p.shaped) {
        for (int k = 0; k < nd; ++k) {
            p.size[k] = p.period[k] > 0 ? std::max(1, p.period[k] + (r.p(0.5) ? 0 : r.i(-1, 2))) : r.i(1, nd == 3 ? 3 : 5);
        }
        p.all = primitive_sites(p.lat, p.size);
        c.note(p.lat.describe() + " primitive" + str(p.size));
    } else {
        auto& lat = p.lat;
        V3 lo3(0, 0, 0), hi3(0, 0, 0);
        for (int k = 0; k < nd; ++k) {
            if (p.period[k] > 0) {
                double pad = 2 + lat.max_range() + r.u(0.05, 0.95);
                double ctr = r.u(-3, 3);
                lo3[k] = ctr - 0.5 * p.period[k] - pad; hi3[k] = ctr + 0.5 * p.period[k] + pad;
            } else {
                double ctr = r.u(-3, 3), w = r.u(0.6, nd == 3 ? 2.5 : 5);
                lo3[k] = ctr - w / 2; hi3[k] = ctr + w / 2;
            }
        }
        std::vector<V3> vs; cpb::Shape::Vertices cv;
        for (int q = 0; q < (1 << nd); ++q) {
            V3 v(0, 0, 0);
            for (int k = 0; k < nd; ++k) { v += ((q >> k) & 1 ? hi3[k] : lo3[k]) * lat.a[k]; }
            vs.push_back(v); cv.push_back(cart(v));
        }
        auto l0 = lat;
        auto f = [l0, lo3, hi3](V3 const& x) {
            V3 fr = l0.frac(x);
            double m = 1e9;
            for (int k = 0; k < l0.ndim(); ++k) { m = std::min({m, fr[k] - lo3[k], hi3[k] - fr[k]}); }
            return m;
        };
        p.shape = cpb::Shape(cv, [f](cpb::CartesianArrayConstRef q) {
            cpb::ArrayX<bool> a(q.size());
            for (cpb::idx_t n = 0; n < q.size(); ++n) { a[n] = f(V3(q.x()[n], q.y()[n], q.z()[n])) > 0; }
            return a;
        });
        p.all = region_sites(lat, vs, [f](V3 const& x) { auto v = f(x); return std::abs(v) < 2e-3 ? 0 : v > 0 ? 1 : -1; });
        p.all = remove_dangling(lat, p.all, lat.min_neighbors);
        c.note(lat.describe() + " ribbon" + str(lo3) + str(hi3));
    }
    c.note("period" + str(p.period) + " length " + str(p.length[0]) + "," + str(p.length[1]) + "," + str(p.length[2]));
    c.sig(mask_of(p.lat));
    for (int k = 0; k < 3; ++k) { c.sig(static_cast<std::uint64_t>(p.period[k] * 64 + p.size[k])); }
    return p;
}

} // namespace mon
