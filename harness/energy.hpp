// Element-wise energy modifiers with a call log, and their reference effect
#pragma once
#include "periodic_case.hpp"

namespace mon {

/// Any element of the arrays passed to energy modifiers
struct EnergyView {
    cpb::ComplexArrayRef a;
    explicit EnergyView(cpb::ComplexArrayRef const& r) : a(r) {}
    cpb::idx_t rows() const { return a.ndim == 3 ? a.shape[0] : 1; }
    cpb::idx_t cols() const { return a.ndim == 3 ? a.shape[1] : 1; }
    cpb::idx_t count() const { return a.ndim == 3 ? a.shape[2] : a.shape[0]; }
    bool real() const { return a.tag == cpb::num::Tag::f32 || a.tag == cpb::num::Tag::f64; }
    bool single() const { return a.tag == cpb::num::Tag::f32 || a.tag == cpb::num::Tag::cf32; }
    Num type() const { return real() ? (single() ? Num::f : Num::d) : (single() ? Num::cf : Num::cdb); }
    cpb::idx_t at(cpb::idx_t n, cpb::idx_t i, cpb::idx_t j) const {
        if (a.ndim == 1) { return n; }
        return a.is_row_major ? (i * a.shape[1] + j) * a.shape[2] + n : i + a.shape[0] * (j + a.shape[1] * n);
    }
    cd get(cpb::idx_t n, cpb::idx_t i, cpb::idx_t j) const {
        auto k = at(n, i, j);
        switch (a.tag) {
            case cpb::num::Tag::f32: return static_cast<float*>(a.data)[k];
            case cpb::num::Tag::f64: return static_cast<double*>(a.data)[k];
            case cpb::num::Tag::cf32: return static_cast<cd>(static_cast<std::complex<float>*>(a.data)[k]);
            default: return static_cast<std::complex<double>*>(a.data)[k];
        }
    }
    void set(cpb::idx_t n, cpb::idx_t i, cpb::idx_t j, cd v) const {
        auto k = at(n, i, j);
        switch (a.tag) {
            case cpb::num::Tag::f32: static_cast<float*>(a.data)[k] = static_cast<float>(v.real()); break;
            case cpb::num::Tag::f64: static_cast<double*>(a.data)[k] = v.real(); break;
            case cpb::num::Tag::cf32: static_cast<std::complex<float>*>(a.data)[k] = std::complex<float>(static_cast<float>(v.real()), static_cast<float>(v.imag())); break;
            default: static_cast<std::complex<double>*>(a.data)[k] = v;
        }
    }
};

/// One element-wise function of energy, position(s), family name and orbital indices
struct EnergyFn {
    bool onsite = true;
    bool is_complex = false, is_double = false;
    bool dynamic = false;          ///< complex, but only says so when evaluated (ComplexOverride)
    std::set<std::string> only;    ///< families it acts on; empty: all
    double a = 1, b = 0, ph = 0, field = 0;
    V3 q{0, 0, 0};
    cd w{0, 0};
    bool zero = false;

    bool complex() const { return is_complex || dynamic; }
    bool acts(std::string const& name) const { return only.empty() || only.count(name); }
    cd operator()(std::string const& name, V3 const& p1, V3 const& p2, cd e, cpb::idx_t i, cpb::idx_t j) const {
        if (!acts(name)) { return e; }
        if (zero) { return 0; }
        if (onsite) {
            cd r = a * e;
            if (i == j) { r += b * std::cos(q.dot(p1) + ph); }
            else { r += (i < j ? w : std::conj(w)) * (1.0 + 0.25 * static_cast<double>(i + j)) * std::cos(q.dot(p1)); }
            return r;
        }
        cd r = e * a * (1.0 + b * std::cos(q.dot(p1) + 0.5 * q.dot(p2) + ph)) + w * (1.0 + static_cast<double>(2 * i + j));
        if (complex()) { r *= std::exp(cd(0, field * (p2[0] - p1[0]) * (p1[1] + p2[1]) * 0.5 + 0.3)); }
        return r;
    }
    std::string describe() const {
        std::string s = onsite ? "onsite{" : "hopping{";
        s += std::string(is_complex ? "complex " : "") + (dynamic ? "dynamic-complex " : "") + (is_double ? "double " : "") + (zero ? "zero " : "");
        for (auto const& x : only) { s += x + " "; }
        return s + "a" + mon::str(a) + " b" + mon::str(b) + " q" + mon::str(q) + " w" + mon::str(w) + " f" + mon::str(field) + "}";
    }
};

inline EnergyFn rand_energy_fn(Rng& r, RLat const& lat, bool complex_ok, bool positions = true) {
    EnergyFn f;
    f.onsite = r.p(0.5);
    f.is_complex = complex_ok && r.p(0.35);
    f.is_double = r.p(0.15);
    f.a = r.p(0.3) ? 1.0 : r.q(-1.5, 1.5);
    f.b = r.q(-1, 1);
    f.ph = r.q(-3, 3);
    if (positions) { f.q = V3(r.q(-1, 1), r.q(-1, 1), r.q(-1, 1)); f.field = r.q(-0.5, 0.5); }
    if (r.p(0.5)) { f.w = cd(r.q(-1, 1), f.is_complex ? r.q(-1, 1) : 0); }
    f.zero = r.p(0.06);
    if (r.p(0.3)) {
        if (f.onsite) { for (auto const& s : lat.subs) { if (s.alias_of < 0 && r.p(0.5)) { f.only.insert(s.name); } } }
        else { for (auto const& h : lat.hops) { if (!h.anonymous && r.p(0.5)) { f.only.insert(h.name); } } }
        if (f.only.empty()) { f.only.insert("no such family"); }
    }
    return f;
}

/// What the library passed to a modifier
struct EnergyCall {
    int mod; std::string name; Num type;
    cpb::idx_t rows, cols, n;
    std::vector<V3> p1, p2;
    std::vector<cd> e; ///< n * rows * cols
    bool consistent;   ///< array sizes agree
};
using EnergyLog = std::vector<EnergyCall>;

inline void log_call(EnergyLog& log, int mod, EnergyView const& v, cpb::CartesianArrayConstRef p1, cpb::CartesianArrayConstRef const* p2,
                     cpb::string_view name) {
    EnergyCall e;
    e.mod = mod;
    e.name = std::string(name.data(), name.size());
    e.type = v.type();
    e.rows = v.rows(); e.cols = v.cols(); e.n = v.count();
    e.consistent = p1.size() == e.n && (!p2 || p2->size() == e.n) && (v.a.ndim == 1 || v.a.ndim == 3);
    for (cpb::idx_t k = 0; k < p1.size(); ++k) { e.p1.emplace_back(p1.x()[k], p1.y()[k], p1.z()[k]); }
    if (p2) { for (cpb::idx_t k = 0; k < p2->size(); ++k) { e.p2.emplace_back(p2->x()[k], p2->y()[k], p2->z()[k]); } }
    for (cpb::idx_t k = 0; k < e.n; ++k) for (cpb::idx_t i = 0; i < e.rows; ++i) for (cpb::idx_t j = 0; j < e.cols; ++j) { e.e.push_back(v.get(k, i, j)); }
    log.push_back(std::move(e));
}

/// Called first, e.g. to throw at a chosen call
using CallHook = std::function<void(EnergyFn const&, bool real, std::string const& family)>;

inline cpb::OnsiteModifier onsite_modifier(EnergyFn f, int mod, std::shared_ptr<EnergyLog> log, CallHook hook = {}) {
    return cpb::OnsiteModifier([=](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef pos, cpb::string_view sub) {
        EnergyView v(e);
        if (log) { log_call(*log, mod, v, pos, nullptr, sub); }
        std::string name(sub.data(), sub.size());
        if (hook) { hook(f, v.real(), name); }
        if (f.dynamic && v.real() && f.acts(name)) { throw cpb::ComplexOverride(); }
        if (!f.acts(name)) { return; }
        auto n = std::min<cpb::idx_t>(v.count(), pos.size());
        for (cpb::idx_t k = 0; k < n; ++k) {
            V3 p(pos.x()[k], pos.y()[k], pos.z()[k]);
            for (cpb::idx_t i = 0; i < v.rows(); ++i) for (cpb::idx_t j = 0; j < v.cols(); ++j) { v.set(k, i, j, f(name, p, p, v.get(k, i, j), i, j)); }
        }
    }, f.is_complex, f.is_double);
}

inline cpb::HoppingModifier hopping_modifier(EnergyFn f, int mod, std::shared_ptr<EnergyLog> log, CallHook hook = {}) {
    return cpb::HoppingModifier([=](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef pos1, cpb::CartesianArrayConstRef pos2, cpb::string_view fam) {
        EnergyView v(e);
        if (log) { log_call(*log, mod, v, pos1, &pos2, fam); }
        std::string name(fam.data(), fam.size());
        if (hook) { hook(f, v.real(), name); }
        if (f.dynamic && v.real() && f.acts(name)) { throw cpb::ComplexOverride(); }
        if (!f.acts(name)) { return; }
        auto n = std::min<cpb::idx_t>(v.count(), std::min(pos1.size(), pos2.size()));
        for (cpb::idx_t k = 0; k < n; ++k) {
            V3 p1(pos1.x()[k], pos1.y()[k], pos1.z()[k]), p2(pos2.x()[k], pos2.y()[k], pos2.z()[k]);
            for (cpb::idx_t i = 0; i < v.rows(); ++i) for (cpb::idx_t j = 0; j < v.cols(); ++j) { v.set(k, i, j, f(name, p1, p2, v.get(k, i, j), i, j)); }
        }
    }, f.is_complex, f.is_double);
}

inline void add_energy(cpb::Model& m, EnergyFn const& f, int mod, std::shared_ptr<EnergyLog> log, CallHook hook = {}) {
    if (f.onsite) { m.add(onsite_modifier(f, mod, log, hook)); } else { m.add(hopping_modifier(f, mod, log, hook)); }
}

/// Reference sites/bonds with their current energies; p1/p2 become the exact positions passed
struct EnergyRefState {
    struct OS { std::string name; V3 pos; MX e; };
    struct HB { std::string name; V3 p1, p2; MX t; };
    std::vector<OS> os;
    std::vector<HB> hb;
};

/// Judge the log of one evaluation against the reference and apply the functions to it.
/// Every modifier must have been given every site (bond) exactly once with its true data.
inline void replay_energy(Context& c, std::vector<EnergyFn> const& fns, EnergyLog const& log, EnergyRefState& ref, Num type, double tol = 1e-4,
                          double pos_tol = 4e-3) {
    auto nf = static_cast<int>(fns.size());
    double scale = 1;
    for (auto const& x : ref.os) { scale = std::max(scale, x.e.cwiseAbs().maxCoeff()); }
    for (auto const& x : ref.hb) { scale = std::max(scale, x.t.cwiseAbs().maxCoeff()); }
    std::vector<std::vector<EnergyCall const*>> calls(fns.size());
    for (auto const& e : log) {
        c.require(e.consistent, [&] { return "energy and position arrays of different sizes passed for " + e.name; });
        c.require(e.type == type, [&] { return std::string("a modifier got ") + num_name(e.type) + " data, the Hamiltonian is " + num_name(type); });
        calls[static_cast<std::size_t>(e.mod)].push_back(&e);
        c.count("modifier_calls");
    }
    std::map<std::string, std::pair<Finder, std::vector<int>>> sites;
    for (std::size_t n = 0; n < ref.os.size(); ++n) { auto& s = sites[ref.os[n].name]; s.first.add(ref.os[n].pos); s.second.push_back(static_cast<int>(n)); }
    // bonds: key on the middle of three points which distinguishes direction
    auto mid = [](V3 const& a, V3 const& b) { return V3(a * 0.7310 + b * 0.2690); };
    std::map<std::string, std::vector<std::pair<double, int>>> lines; // family -> bonds sorted by a projection
    V3 dir(0.5377, 0.8339, 0.2588);
    for (std::size_t n = 0; n < ref.hb.size(); ++n) { lines[ref.hb[n].name].push_back({dir.dot(mid(ref.hb[n].p1, ref.hb[n].p2)), static_cast<int>(n)}); }
    for (auto& l : lines) { std::sort(l.second.begin(), l.second.end()); }

    std::int64_t seen_s = 0, seen_b = 0;
    bool first_on = true, first_hop = true;
    for (int k = 0; k < nf; ++k) {
        auto const& f = fns[static_cast<std::size_t>(k)];
        std::vector<char> met(f.onsite ? ref.os.size() : ref.hb.size(), 0);
        std::vector<V3> np1(met.size()), np2(met.size());
        for (auto const* e : calls[static_cast<std::size_t>(k)]) {
            for (cpb::idx_t n = 0; n < e->n; ++n) {
                int who = -1;
                auto const& p1 = e->p1[static_cast<std::size_t>(n)];
                if (f.onsite) {
                    auto it = sites.find(e->name);
                    if (it != sites.end()) { auto w = it->second.first.find(p1, pos_tol); if (w >= 0) { who = it->second.second[static_cast<std::size_t>(w)]; } }
                    c.require(who >= 0, [&] { return "onsite modifier " + std::to_string(k) + " was given a site of " + e->name + " at " + str(p1) + ", where there is none"; });
                } else {
                    auto const& p2 = e->p2[static_cast<std::size_t>(n)];
                    auto it = lines.find(e->name);
                    if (it != lines.end()) {
                        auto x = dir.dot(mid(p1, p2));
                        auto lo = std::lower_bound(it->second.begin(), it->second.end(), std::make_pair(x - 2 * pos_tol, -1));
                        double best = 2 * pos_tol;
                        for (; lo != it->second.end() && lo->first <= x + 2 * pos_tol; ++lo) {
                            auto const& b = ref.hb[static_cast<std::size_t>(lo->second)];
                            auto d = (b.p1 - p1).norm() + (b.p2 - p2).norm();
                            if (d < best) { best = d; who = lo->second; }
                        }
                    }
                    c.require(who >= 0, [&] { return "hopping modifier " + std::to_string(k) + " was given a bond of " + e->name + " from " + str(p1) + " to " + str(p2) + ", which does not exist"; });
                    np2[static_cast<std::size_t>(who)] = p2;
                }
                auto w = static_cast<std::size_t>(who);
                c.require(!met[w], [&] { return std::string(f.onsite ? "site" : "bond") + " of " + e->name + " at " + str(p1) + " was passed twice to modifier " + std::to_string(k); });
                met[w] = 1;
                np1[w] = p1;
                auto const& cur = f.onsite ? ref.os[w].e : ref.hb[w].t;
                c.require(e->rows == cur.rows() && e->cols == cur.cols(), [&] { return "modifier " + std::to_string(k) + " got " + std::to_string(e->rows) + "x" + std::to_string(e->cols) + " energies for " + e->name; });
                for (cpb::idx_t i = 0; i < e->rows; ++i) for (cpb::idx_t j = 0; j < e->cols; ++j) {
                    auto got = e->e[static_cast<std::size_t>((n * e->rows + i) * e->cols + j)];
                    auto want = cur(i, j);
                    c.require(std::abs(got - want) <= tol * scale, [&] {
                        return "modifier " + std::to_string(k) + " was given energy " + str(got) + " for element (" + std::to_string(i) + "," + std::to_string(j) + ") of " + e->name + " at " + str(p1) + ", current value is " + str(want);
                    });
                }
                ++(f.onsite ? seen_s : seen_b);
            }
        }
        for (std::size_t w = 0; w < met.size(); ++w) {
            c.require(met[w], [&] {
                return (f.onsite ? "site of " + ref.os[w].name + " at " + str(ref.os[w].pos) : "bond of " + ref.hb[w].name + " from " + str(ref.hb[w].p1) + " to " + str(ref.hb[w].p2)) + " was not passed to modifier " + std::to_string(k);
            });
            if (f.onsite) {
                if (first_on) { ref.os[w].pos = np1[w]; }
                auto& x = ref.os[w];
                for (int i = 0; i < x.e.rows(); ++i) for (int j = 0; j < x.e.cols(); ++j) { x.e(i, j) = f(x.name, x.pos, x.pos, x.e(i, j), i, j); scale = std::max(scale, std::abs(x.e(i, j))); }
            } else {
                auto& x = ref.hb[w];
                if (first_hop) { x.p1 = np1[w]; x.p2 = np2[w]; }
                for (int i = 0; i < x.t.rows(); ++i) for (int j = 0; j < x.t.cols(); ++j) { x.t(i, j) = f(x.name, x.p1, x.p2, x.t(i, j), i, j); scale = std::max(scale, std::abs(x.t(i, j))); }
            }
        }
        if (f.onsite) { first_on = false; } else { first_hop = false; }
    }
    c.count("sites_passed_to_modifiers", seen_s);
    c.count("bonds_passed_to_modifiers", seen_b);
}

/// The expected structure of a model, enough to rebuild its Hamiltonian with modified energies
struct EnergyCase {
    RLat lat;
    std::vector<RSite> sites;
    std::vector<V3> pos;           ///< final positions
    std::vector<ExpSite> exp;
    std::vector<RBond> bonds;
    bool periodic = false;
    V3 k{0, 0, 0};

    EnergyRefState state(cpb::System const& sys, std::vector<int> const& fam) const {
        std::vector<std::string> fname(lat.hops.size());
        for (std::size_t id = 0; id < fam.size(); ++id) { if (fam[id] >= 0) { fname[static_cast<std::size_t>(fam[id])] = sys.hopping_registry.name(cpb::HopID(static_cast<int>(id))); } }
        EnergyRefState s;
        for (std::size_t n = 0; n < sites.size(); ++n) { s.os.push_back({exp[n].family, pos[n], lat.subs[sites[n].uid].e}); }
        for (auto const& b : bonds) {
            s.hb.push_back({fname[static_cast<std::size_t>(b.fam)], pos[static_cast<std::size_t>(b.i)], pos[static_cast<std::size_t>(b.j)] + b.image, lat.hops[static_cast<std::size_t>(b.fam)].t});
        }
        return s;
    }
    RHam hamiltonian(EnergyRefState const& s, std::vector<int> const& map, SysView const& v) const {
        std::vector<MX> os;
        std::vector<ExpBond> hb;
        for (auto const& x : s.os) { os.push_back(x.e); }
        for (std::size_t n = 0; n < bonds.size(); ++n) { hb.push_back({bonds[n].i, bonds[n].j, s.hb[n].t, bonds[n].image, ""}); }
        return assemble(exp, os, hb, map, v, k);
    }
};

/// Random finite or periodic model with optional vacancies and displaced sites
inline EnergyCase rand_energy_case(Context& c, std::unique_ptr<cpb::Model>& model, LatOpt const& lo, double periodic_prob = 0.35) {
    auto& r = c.rng;
    EnergyCase e;
    Cell start{{0, 0, 0}}, period{{0, 0, 0}};
    if (r.p(periodic_prob)) {
        e.periodic = true;
        auto l2 = lo;
        l2.max_rel = 3;
        auto p = rand_periodic(c, l2, 0.25, 4);
        model = p.model();
        try { model->system(); } catch (std::exception const&) { throw CaseSkipped{"no sites"}; }
        p.locate(c, *model->system());
        e.lat = p.lat; e.sites = p.sites; start = p.start; period = p.period;
        model = p.model();
        for (int d = 0; d < e.lat.ndim(); ++d) { e.k[d] = r.q(-2, 2); }
        model->set_wave_vector(cart(e.k));
    } else {
        FiniteOpt o;
        o.lat = lo;
        o.target_sites = r.p(0.6) ? 30 : 120;
        auto f = rand_finite(c, o);
        e.lat = f.lat; e.sites = f.sites;
        model = f.model();
    }
    if (e.sites.empty()) { throw CaseSkipped{"no sites"}; }
    if (r.p(0.2)) { // vacancies in one half space
        V3 n(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1));
        double d = 0, m = 1e9;
        for (int attempt = 0; attempt < 20 && m > -1; ++attempt) {
            d = n.dot(e.sites[static_cast<std::size_t>(r.i(0, static_cast<int>(e.sites.size()) - 1))].pos) + r.u(-0.2, 0.2);
            m = 1e9;
            for (auto const& s : e.sites) { m = std::min(m, std::abs(n.dot(s.pos) - d)); }
            if (m > 5e-3) { break; }
        }
        if (m > 5e-3) {
            std::vector<RSite> left;
            for (auto const& s : e.sites) { if (n.dot(s.pos) < d) { left.push_back(s); } }
            if (!left.empty()) {
                e.sites = left;
                model->add(cpb::SiteStateModifier([=](Eigen::Ref<cpb::ArrayX<bool>> st, cpb::CartesianArrayConstRef p, cpb::string_view) {
                    for (cpb::idx_t q = 0; q < p.size(); ++q) { if (n.dot(V3(p.x()[q], p.y()[q], p.z()[q])) >= d) { st[q] = false; } }
                }));
                c.note("vacancies");
            }
        }
    }
    for (auto const& s : e.sites) { e.pos.push_back(s.pos); }
    if (r.p(0.2)) {
        V3 t(r.q(-2, 2), r.q(-2, 2), r.q(-2, 2));
        double s = r.u(0.8, 1.25);
        for (auto& p : e.pos) { p = s * p + t; }
        model->add(cpb::PositionModifier([=](cpb::CartesianArrayRef p, cpb::string_view) {
            for (cpb::idx_t q = 0; q < p.size(); ++q) {
                V3 x(p.x()[q], p.y()[q], p.z()[q]);
                x = s * x + t;
                p.x()[q] = static_cast<float>(x[0]); p.y()[q] = static_cast<float>(x[1]); p.z()[q] = static_cast<float>(x[2]);
            }
        }));
        c.note("moved");
    }
    for (std::size_t n = 0; n < e.sites.size(); ++n) { e.exp.push_back({e.lat.fam_name(e.sites[n].uid), e.pos[n], e.lat.subs[e.sites[n].uid].norb()}); }
    e.bonds = e.periodic ? periodic_bonds(e.lat, e.sites, start, period) : finite_bonds(e.lat, e.sites);
    return e;
}

} // namespace mon
