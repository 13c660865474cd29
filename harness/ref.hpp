// Independent reference model of what a tight-binding library has to build. Double precision,
// explicit site lists and maps, no code shared with the library under test; the library is only
// used to construct the objects which are then observed.
#pragma once
#include "common.hpp"
#include "Model.hpp"
#include <Eigen/Dense>

namespace mon {

using V3 = Eigen::Vector3d;
using MX = Eigen::Matrix<cd, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor>;
using Cell = std::array<int, 3>;

inline V3 v3(cpb::Cartesian const& c) { return {c[0], c[1], c[2]}; }
inline cpb::Cartesian cart(V3 const& v) {
    return {static_cast<float>(v[0]), static_cast<float>(v[1]), static_cast<float>(v[2])};
}
inline std::string str(V3 const& v) { return "[" + str(v[0]) + "," + str(v[1]) + "," + str(v[2]) + "]"; }
inline std::string str(Cell const& c) {
    return "<" + std::to_string(c[0]) + "," + std::to_string(c[1]) + "," + std::to_string(c[2]) + ">";
}
inline cpb::MatrixXcd to_cpb(MX const& m) {
    cpb::MatrixXcd r(m.rows(), m.cols());
    for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) r(i, j) = m(i, j);
    return r;
}
inline MX from_cpb(cpb::MatrixXcd const& m) {
    MX r(m.rows(), m.cols());
    for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) r(i, j) = m(i, j);
    return r;
}

struct RSub {
    std::string name; V3 pos; MX e; ///< completed onsite matrix
    int fam;                        ///< index of the sub which names the family (itself if no alias)
    int norb() const { return static_cast<int>(e.rows()); }
    int style = 0;                  ///< how it is passed to the library
    int alias_of = -1;              ///< the sublattice named when the alias is made (may be an alias)
};
struct RTerm { Cell d; int from, to; };
struct RFam { std::string name; MX t; std::vector<RTerm> terms; bool anonymous = false; };

struct RLat {
    std::vector<V3> a;
    std::vector<RSub> subs;
    std::vector<RFam> hops;
    V3 offset{0, 0, 0};
    int min_neighbors = 1;
    bool crowded = false; ///< there was no room left: some sites of different cells coincide

    int ndim() const { return static_cast<int>(a.size()); }
    std::string const& fam_name(int uid) const { return subs[subs[uid].fam].name; }

    V3 pos(Cell const& c, int uid) const {
        V3 p = offset + subs[uid].pos;
        for (int n = 0; n < ndim(); ++n) { p += c[n] * a[n]; }
        return p;
    }
    /// lattice coordinates (only the first ndim Cartesian components count)
    V3 frac(V3 const& p) const {
        auto n = ndim();
        Eigen::MatrixXd m(n, n); Eigen::VectorXd b(n);
        for (int i = 0; i < n; ++i) { for (int r = 0; r < n; ++r) { m(r, i) = a[i][r]; } b[i] = p[i]; }
        Eigen::VectorXd x = m.fullPivLu().solve(b);
        V3 f(0, 0, 0);
        for (int i = 0; i < n; ++i) { f[i] = x[i]; }
        return f;
    }
    int max_range() const {
        int r = 0;
        for (auto const& h : hops) for (auto const& t : h.terms) for (int x : t.d) r = std::max(r, std::abs(x));
        return r;
    }
    bool has_complex() const {
        for (auto const& s : subs) { if (s.e.imag().cwiseAbs().maxCoeff() > 1e-9) return true; }
        for (auto const& h : hops) { if (h.t.imag().cwiseAbs().maxCoeff() > 1e-9) return true; }
        return false;
    }
    bool multiorbital() const {
        for (auto const& s : subs) { if (s.norb() != 1) return true; }
        for (auto const& h : hops) { if (h.t.size() != 1) return true; }
        return false;
    }

    cpb::Lattice make() const {
        cpb::Lattice l = ndim() == 1 ? cpb::Lattice(cart(a[0]))
                       : ndim() == 2 ? cpb::Lattice(cart(a[0]), cart(a[1]))
                                     : cpb::Lattice(cart(a[0]), cart(a[1]), cart(a[2]));
        for (std::size_t n = 0; n < subs.size(); ++n) {
            auto const& s = subs[n];
            if (s.fam != static_cast<int>(n)) {
                l.add_alias(s.name, subs[s.alias_of >= 0 ? s.alias_of : s.fam].name, cart(s.pos));
            } else if (s.style == 1 && s.norb() == 1) {
                l.add_sublattice(s.name, cart(s.pos), s.e(0, 0).real());
            } else if (s.style == 2) { // diagonal given as a vector
                cpb::VectorXd v(s.norb());
                for (int k = 0; k < s.norb(); ++k) { v[k] = s.e(k, k).real(); }
                l.add_sublattice(s.name, cart(s.pos), v);
            } else if (s.style == 3) { // upper triangular only
                MX m = s.e;
                for (int r = 0; r < m.rows(); ++r) for (int c = 0; c < r; ++c) m(r, c) = 0;
                l.add_sublattice(s.name, cart(s.pos), to_cpb(m));
            } else {
                l.add_sublattice(s.name, cart(s.pos), to_cpb(s.e));
            }
        }
        for (auto const& h : hops) {
            if (!h.anonymous) {
                if (h.t.size() == 1 && h.terms.size() % 2 == 0) { l.register_hopping_energy(h.name, h.t(0, 0)); }
                else { l.register_hopping_energy(h.name, to_cpb(h.t)); }
            }
        }
        for (auto const& h : hops) {
            for (auto const& t : h.terms) {
                cpb::Index3D d(t.d[0], t.d[1], t.d[2]);
                if (h.anonymous) { l.add_hopping(d, subs[t.from].name, subs[t.to].name, to_cpb(h.t)); }
                else { l.add_hopping(d, subs[t.from].name, subs[t.to].name, h.name); }
            }
        }
        l.set_min_neighbors(min_neighbors);
        l.set_offset(cart(offset));
        return l;
    }

    std::string describe() const {
        std::string s = "lattice{";
        for (auto const& v : a) { s += str(v); }
        s += " off" + str(offset) + " min" + std::to_string(min_neighbors) + ";";
        for (auto const& x : subs) {
            s += " " + x.name + str(x.pos) + "x" + std::to_string(x.norb());
            if (fam_name(static_cast<int>(&x - subs.data())) != x.name) { s += "(alias of " + subs[x.fam].name + ")"; }
        }
        s += ";";
        for (auto const& h : hops) {
            s += " " + (h.anonymous ? std::string("anon") : h.name) + "(" + std::to_string(h.t.rows()) + "x" + std::to_string(h.t.cols()) + " " + str(h.t(0, 0)) + ")";
            for (auto const& t : h.terms) { s += str(t.d) + subs[t.from].name + ">" + subs[t.to].name; }
        }
        return s + "}";
    }
};

// ------------------------------------------------------------------ random lattices

struct LatOpt {
    int min_dim = 1, max_dim = 3;
    int max_sub = 3, max_norb = 3;
    int max_fam = 4, max_terms = 4;
    int max_rel = 2;
    bool complex = true, onsite = true, aliases = true, offset = true, anonymous = true;
    bool far_subs = true; ///< sublattice positions outside of the unit cell
    bool grouped_orbitals = false; ///< nothing special; all orders are allowed
};

inline cd rand_c(Rng& r, bool complex) {
    auto x = r.q(-3, 3, 16);
    if (std::abs(x) < 0.05) { x = 0.5; }
    return complex ? cd(x, r.q(-2, 2, 16)) : cd(x, 0);
}

inline MX rand_hermitian(Rng& r, int n, bool complex, int style) {
    MX m = MX::Zero(n, n);
    for (int i = 0; i < n; ++i) {
        m(i, i) = r.q(-2, 2, 16);
        if (style == 2) { continue; }
        for (int j = i + 1; j < n; ++j) { m(i, j) = rand_c(r, complex); m(j, i) = std::conj(m(i, j)); }
    }
    return m;
}

inline RLat rand_lattice(Rng& r, LatOpt const& o) {
    RLat l;
    auto nd = r.i(o.min_dim, o.max_dim);
    // primitive vectors with exact binary coordinates
    for (int attempt = 0;; ++attempt) {
        l.a.clear();
        auto kind = r.i(0, 3);
        if (nd == 1) {
            l.a.push_back({r.q(0.5, 1.5) * (r.p(0.2) ? -1 : 1), 0, 0});
        } else if (nd == 2) {
            if (kind == 0) { l.a = {{r.q(0.5, 1.5), 0, 0}, {0, r.q(0.5, 1.5), 0}}; }
            else if (kind == 1) { l.a = {{1, 0, 0}, {0.5, 0.866025388, 0}}; }
            else { l.a = {{r.q(-1.5, 1.5), r.q(-1.5, 1.5), 0}, {r.q(-1.5, 1.5), r.q(-1.5, 1.5), 0}}; }
        } else {
            if (kind == 0) { l.a = {{r.q(0.5, 1.5), 0, 0}, {0, r.q(0.5, 1.5), 0}, {0, 0, r.q(0.5, 1.5)}}; }
            else { for (int n = 0; n < 3; ++n) { l.a.push_back({r.q(-1.5, 1.5), r.q(-1.5, 1.5), r.q(-1.5, 1.5)}); } }
        }
        double vol = 0, prod = 1;
        for (auto const& v : l.a) { prod *= v.norm(); }
        if (nd == 1) { vol = std::abs(l.a[0][0]); }
        else if (nd == 2) { vol = std::abs(l.a[0][0] * l.a[1][1] - l.a[0][1] * l.a[1][0]); }
        else { vol = std::abs(l.a[0].dot(l.a[1].cross(l.a[2]))); }
        double minlen = 1e9;
        for (auto const& v : l.a) { minlen = std::min(minlen, v.norm()); }
        if (vol > 0.3 * prod && vol > 0.2 && minlen > 0.45) { break; }
    }
    // sites of the unit cell
    static char const* names[] = {"A", "B", "C", "D", "E", "F", "G"};
    auto nsub = r.i(1, o.max_sub);
    for (int n = 0; n < nsub; ++n) {
        RSub s;
        s.name = names[n];
        for (int attempt = 0;; ++attempt) {
            V3 f(0, 0, 0);
            for (int k = 0; k < nd; ++k) {
                f[k] = (n == 0 && r.p(0.5)) ? 0.0 : r.q(-0.45, 0.95, 32);
                if (o.far_subs && r.p(0.08)) { f[k] += r.i(-2, 2); }
            }
            s.pos = V3(0, 0, 0);
            for (int k = 0; k < nd; ++k) { s.pos += f[k] * l.a[k]; }
            for (int k = 0; k < 3; ++k) { s.pos[k] = std::round(s.pos[k] * 256) / 256; }
            if (nd == 2 && r.p(0.3)) { s.pos[2] = r.q(-1, 1, 16); }
            bool close = false; // no two sites of the unit cell may coincide modulo the lattice
            for (auto const& t : l.subs) {
                V3 df = l.frac(s.pos - t.pos);
                for (int k = 0; k < nd; ++k) { df[k] -= std::round(df[k]); }
                V3 dp(0, 0, 0);
                for (int k = 0; k < nd; ++k) { dp += df[k] * l.a[k]; }
                if (dp.norm() < 0.06) { close = true; }
            }
            if (!close) { break; }
            if (attempt > 50) { l.crowded = true; break; }
        }
        s.fam = n;
        s.style = r.i(0, 3);
        auto norb = r.p(0.45) ? 1 : r.i(1, o.max_norb);
        if (o.aliases && n > 0 && r.p(0.25)) {
            auto orig = r.i(0, n - 1);
            s.fam = l.subs[orig].fam; // reference to the family's first member
            s.alias_of = orig;
            s.e = l.subs[s.fam].e;
        } else {
            s.e = o.onsite && r.p(0.7) ? rand_hermitian(r, norb, o.complex && r.p(0.4), s.style) : MX(MX::Zero(norb, norb));
        }
        l.subs.push_back(s);
    }
    // special onsite matrices: nothing on any diagonal, or only one family has any energy at all
    if (o.onsite && r.p(0.12)) {
        auto one = r.i(-1, nsub - 1);
        for (int n = 0; n < nsub; ++n) {
            auto& s = l.subs[n];
            if (s.fam != n) { continue; }
            if (one >= 0 && n != l.subs[one].fam) { s.e.setZero(); continue; }
            if (one < 0 || s.norb() > 1) { s.e.diagonal().setZero(); }
        }
        for (auto& s : l.subs) { s.e = l.subs[s.fam].e; }
    }
    // hoppings
    std::set<std::tuple<int, int, int, int, int>> used;
    auto nfam = r.i(0, o.max_fam);
    for (int f = 0; f < nfam; ++f) {
        RFam h;
        h.name = "t" + std::to_string(f);
        h.anonymous = o.anonymous && r.p(0.25);
        auto rows = l.subs[r.i(0, nsub - 1)].norb(), cols = l.subs[r.i(0, nsub - 1)].norb();
        h.t = MX(rows, cols);
        auto cplx = o.complex && r.p(0.4);
        for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) h.t(i, j) = r.p(0.15) && rows * cols > 1 ? cd(0, 0) : rand_c(r, cplx);
        // equal anonymous energies would be merged with an existing family by the library
        bool dup = false;
        for (auto const& g : l.hops) { if (g.t.rows() == rows && g.t.cols() == cols && g.t == h.t) { dup = true; } }
        if (dup) { h.anonymous = false; h.t(0, 0) += 10.0 + f; }
        auto nterms = r.i(h.anonymous ? 1 : 0, o.max_terms);
        for (int t = 0; t < nterms * 3 && static_cast<int>(h.terms.size()) < nterms; ++t) {
            RTerm term{{{0, 0, 0}}, r.i(0, nsub - 1), r.i(0, nsub - 1)};
            if (l.subs[term.from].norb() != rows || l.subs[term.to].norb() != cols) { continue; }
            for (int k = 0; k < nd; ++k) {
                term.d[k] = r.p(0.85) ? r.i(-1, 1) : r.i(-o.max_rel, o.max_rel);
            }
            if (term.from == term.to && term.d == Cell{{0, 0, 0}}) { continue; }
            auto key = std::make_tuple(term.d[0], term.d[1], term.d[2], term.from, term.to);
            auto conj = std::make_tuple(-term.d[0], -term.d[1], -term.d[2], term.to, term.from);
            if (used.count(key) || used.count(conj)) { continue; }
            used.insert(key);
            h.terms.push_back(term);
        }
        if (h.anonymous && h.terms.empty()) { h.anonymous = false; }
        l.hops.push_back(h);
    }
    if (o.offset && r.p(0.4)) {
        for (int k = 0; k < nd; ++k) { l.offset += r.q(-0.45, 0.45, 32) * l.a[k]; }
        for (int k = 0; k < 3; ++k) { l.offset[k] = std::round(l.offset[k] * 256) / 256; }
    }
    l.min_neighbors = r.p(0.5) ? 1 : r.i(0, 3);
    return l;
}

// ------------------------------------------------------------------ reference structures

struct RSite { Cell c; int uid; V3 pos; };
struct RBond { int i, j, fam; V3 image; }; ///< `image`: lattice translation of the destination
struct RSys {
    std::vector<RSite> sites;
    std::vector<RBond> bonds;
};

struct SiteKey {
    Cell c; int uid;
    bool operator<(SiteKey const& o) const { return std::tie(c, uid) < std::tie(o.c, o.uid); }
    bool operator==(SiteKey const& o) const { return c == o.c && uid == o.uid; }
};
struct SiteKeyHash {
    std::size_t operator()(SiteKey const& k) const {
        return hash64(hash64(hash64(hash64(1, static_cast<unsigned>(k.c[0])), static_cast<unsigned>(k.c[1])), static_cast<unsigned>(k.c[2])), static_cast<unsigned>(k.uid));
    }
};
using SiteMap = std::unordered_map<SiteKey, int, SiteKeyHash>;

inline SiteMap index_sites(std::vector<RSite> const& s) {
    SiteMap m;
    m.reserve(s.size() * 2);
    for (std::size_t n = 0; n < s.size(); ++n) { m[{s[n].c, s[n].uid}] = static_cast<int>(n); }
    return m;
}

/// Neighbours of a site in the infinite lattice: (cell, uid) for both directions of every term
template<class F>
void for_neighbours(RLat const& l, Cell const& c, int uid, F fn) {
    for (auto const& h : l.hops) for (auto const& t : h.terms) {
        if (t.from == uid) { fn(SiteKey{{{c[0] + t.d[0], c[1] + t.d[1], c[2] + t.d[2]}}, t.to}); }
        if (t.to == uid) { fn(SiteKey{{{c[0] - t.d[0], c[1] - t.d[1], c[2] - t.d[2]}}, t.from}); }
    }
}

/// Sites which touch something missing and have fewer than `min` neighbours are removed, repeatedly
inline std::vector<RSite> remove_dangling(RLat const& l, std::vector<RSite> sites, int min) {
    auto idx = index_sites(sites);
    std::vector<char> alive(sites.size(), 1);
    auto is_there = [&](SiteKey const& k) { auto it = idx.find(k); return it != idx.end() && alive[it->second]; };
    for (bool changed = true; changed;) {
        changed = false;
        for (std::size_t n = 0; n < sites.size(); ++n) {
            if (!alive[n]) { continue; }
            int present = 0; bool missing = false;
            for_neighbours(l, sites[n].c, sites[n].uid, [&](SiteKey const& k) { if (is_there(k)) ++present; else missing = true; });
            if (missing && present < min) { alive[n] = 0; changed = true; }
        }
    }
    std::vector<RSite> out;
    for (std::size_t n = 0; n < sites.size(); ++n) { if (alive[n]) { out.push_back(sites[n]); } }
    return out;
}

/// C-style truncation is part of where a primitive block is centred
inline Cell primitive_start(Cell const& size) { return {{-(size[0] / 2), -(size[1] / 2), -(size[2] / 2)}}; }

inline std::vector<RSite> primitive_sites(RLat const& l, Cell const& size) {
    std::vector<RSite> s;
    auto st = primitive_start(size);
    for (int uid = 0; uid < static_cast<int>(l.subs.size()); ++uid)
        for (int z = st[2]; z < st[2] + size[2]; ++z) for (int y = st[1]; y < st[1] + size[1]; ++y)
            for (int x = st[0]; x < st[0] + size[0]; ++x) { Cell c{{x, y, z}}; s.push_back({c, uid, l.pos(c, uid)}); }
    return s;
}

/// -1 outside, +1 inside, 0 too close to the boundary to call in single precision
using Region = std::function<int(V3 const&)>;

inline std::vector<RSite> region_sites(RLat const& l, std::vector<V3> const& vertices, Region const& region) {
    V3 lo(1e9, 1e9, 1e9), hi(-1e9, -1e9, -1e9);
    for (auto const& v : vertices) { auto f = l.frac(v); lo = lo.cwiseMin(f); hi = hi.cwiseMax(f); }
    std::vector<RSite> s;
    for (int uid = 0; uid < static_cast<int>(l.subs.size()); ++uid) {
        auto f0 = l.frac(l.offset + l.subs[uid].pos);
        Cell a{{0, 0, 0}}, b{{0, 0, 0}};
        for (int n = 0; n < l.ndim(); ++n) {
            a[n] = static_cast<int>(std::floor(lo[n] - f0[n])) - 1;
            b[n] = static_cast<int>(std::ceil(hi[n] - f0[n])) + 1;
        }
        for (int z = a[2]; z <= b[2]; ++z) for (int y = a[1]; y <= b[1]; ++y) for (int x = a[0]; x <= b[0]; ++x) {
            Cell c{{x, y, z}};
            auto p = l.pos(c, uid);
            auto v = region(p);
            if (v == 0) { throw CaseSkipped{"site on the shape boundary"}; }
            if (v > 0) { s.push_back({c, uid, p}); }
        }
    }
    return s;
}

inline std::vector<RBond> finite_bonds(RLat const& l, std::vector<RSite> const& sites) {
    std::vector<RBond> b;
    auto idx = index_sites(sites);
    for (std::size_t n = 0; n < sites.size(); ++n) {
        auto const& s = sites[n];
        for (std::size_t f = 0; f < l.hops.size(); ++f) for (auto const& t : l.hops[f].terms) {
            if (t.from != s.uid) { continue; }
            auto it = idx.find({{{s.c[0] + t.d[0], s.c[1] + t.d[1], s.c[2] + t.d[2]}}, t.to});
            if (it != idx.end()) { b.push_back({static_cast<int>(n), it->second, static_cast<int>(f), V3(0, 0, 0)}); }
        }
    }
    return b;
}

/// Bonds of one period: cells [start, start + period) in the directions with period > 0
inline std::vector<RBond> periodic_bonds(RLat const& l, std::vector<RSite> const& sites, Cell const& start, Cell const& period) {
    std::vector<RBond> b;
    auto idx = index_sites(sites);
    for (std::size_t n = 0; n < sites.size(); ++n) {
        auto const& s = sites[n];
        for (std::size_t f = 0; f < l.hops.size(); ++f) for (auto const& t : l.hops[f].terms) {
            if (t.from != s.uid) { continue; }
            Cell c{{s.c[0] + t.d[0], s.c[1] + t.d[1], s.c[2] + t.d[2]}};
            V3 image(0, 0, 0);
            for (int k = 0; k < l.ndim(); ++k) {
                if (period[k] <= 0) { continue; }
                int w = c[k] - start[k], m = period[k];
                int q = (w >= 0) ? w / m : -((-w + m - 1) / m);
                c[k] -= q * m;
                image += static_cast<double>(q * m) * l.a[k];
            }
            auto it = idx.find({c, t.to});
            if (it != idx.end()) { b.push_back({static_cast<int>(n), it->second, static_cast<int>(f), image}); }
        }
    }
    return b;
}

// ------------------------------------------------------------------ random shapes

struct ShapeSpec {
    std::vector<V3> vertices; ///< bounding vertices as given to the library
    Region region;
    cpb::Shape shape;
    std::string text;
};

inline double seg_dist(double px, double py, V3 const& a, V3 const& b) {
    double dx = b[0] - a[0], dy = b[1] - a[1], l2 = dx * dx + dy * dy;
    double t = l2 > 0 ? ((px - a[0]) * dx + (py - a[1]) * dy) / l2 : 0;
    t = std::max(0.0, std::min(1.0, t));
    return std::hypot(px - a[0] - t * dx, py - a[1] - t * dy);
}

/// Winding-free even-odd test by summed crossing of a vertical ray (the library shoots along x)
inline bool in_polygon(std::vector<V3> const& v, double x, double y) {
    bool in = false;
    for (std::size_t i = 0, j = v.size() - 1; i < v.size(); j = i++) {
        if ((v[i][0] > x) != (v[j][0] > x)) {
            double yc = v[i][1] + (x - v[i][0]) * (v[j][1] - v[i][1]) / (v[j][0] - v[i][0]);
            if (yc > y) { in = !in; }
        }
    }
    return in;
}

inline ShapeSpec polygon_spec(std::vector<V3> v) {
    ShapeSpec s;
    for (auto& p : v) { p = v3(cart(p)); }
    s.vertices = v;
    cpb::Shape::Vertices cv;
    for (auto const& p : v) { cv.push_back(cart(p)); }
    s.shape = cpb::Polygon(cv);
    s.region = [v](V3 const& p) {
        for (std::size_t i = 0, j = v.size() - 1; i < v.size(); j = i++) {
            if (seg_dist(p[0], p[1], v[i], v[j]) < 2e-3) { return 0; }
        }
        return in_polygon(v, p[0], p[1]) ? 1 : -1;
    };
    s.text = "polygon{";
    for (auto const& p : v) { s.text += "(" + str(p[0]) + "," + str(p[1]) + ")"; }
    s.text += "}";
    return s;
}

/// Scalar field: inside where f(p) > 0; |f| < margin is too close to call
inline ShapeSpec field_spec(std::function<double(V3 const&)> f, V3 width, V3 center, std::string text) {
    ShapeSpec s;
    cpb::Cartesian w = cart(width), c = cart(center);
    s.shape = cpb::FreeformShape([f](cpb::CartesianArrayConstRef p) {
        cpb::ArrayX<bool> r(p.size());
        for (cpb::idx_t n = 0; n < p.size(); ++n) { r[n] = f(V3(p.x()[n], p.y()[n], p.z()[n])) > 0; }
        return r;
    }, w, c);
    for (auto const& v : s.shape.vertices) { s.vertices.push_back(v3(v)); }
    s.region = [f](V3 const& p) { auto x = f(p); return std::abs(x) < 2e-3 ? 0 : (x > 0 ? 1 : -1); };
    s.text = text + "{w" + str(width) + " c" + str(center) + "}";
    return s;
}

inline std::vector<V3> rand_polygon(Rng& r, V3 center, double radius) {
    auto n = r.i(3, 9);
    std::vector<double> ang;
    for (int k = 0; k < n; ++k) { ang.push_back(2 * M_PI * (k + r.u(0.05, 0.95)) / n); }
    std::vector<V3> v;
    for (auto a : ang) {
        auto rad = radius * r.u(0.25, 1.0);
        v.push_back({center[0] + rad * std::cos(a), center[1] + rad * std::sin(a), 0});
    }
    if (r.p(0.5)) { std::reverse(v.begin(), v.end()); }
    std::rotate(v.begin(), v.begin() + r.i(0, n - 1), v.end());
    return v;
}

inline ShapeSpec rand_shape(Rng& r, RLat const& l, double target_sites = 120) {
    double vol = 1;
    auto nd = l.ndim();
    if (nd == 1) { vol = std::abs(l.a[0][0]); }
    else if (nd == 2) { vol = std::abs(l.a[0][0] * l.a[1][1] - l.a[0][1] * l.a[1][0]); }
    else { vol = std::abs(l.a[0].dot(l.a[1].cross(l.a[2]))); }
    double size = std::pow(std::max(1.0, target_sites * r.u(0.1, 1.0) / l.subs.size()) * vol, 1.0 / nd);
    V3 center(0, 0, 0);
    if (r.p(0.7)) { for (int k = 0; k < nd; ++k) { center[k] = r.u(-8, 8); } }
    if (nd == 1) {
        if (r.p(0.5)) {
            double x1 = center[0] - size * r.u(0.3, 0.7), x2 = center[0] + size * r.u(0.3, 0.7);
            V3 a(x1, 0, 0), b(x2, 0, 0);
            if (r.p(0.5)) { std::swap(a, b); }
            ShapeSpec s;
            a = v3(cart(a)); b = v3(cart(b));
            s.shape = cpb::Line(cart(a), cart(b));
            s.vertices = {a, b};
            double lo = std::min(a[0], b[0]), hi = std::max(a[0], b[0]);
            s.region = [lo, hi](V3 const& p) {
                if (std::abs(p[0] - lo) < 2e-3 || std::abs(p[0] - hi) < 2e-3) { return 0; }
                return (p[0] > lo && p[0] < hi) ? 1 : -1;
            };
            s.text = "line{" + str(a[0]) + "," + str(b[0]) + "}";
            return s;
        }
        double w = size;
        return field_spec([center, w](V3 const& p) { return 0.5 * w - std::abs(p[0] - center[0]); }, {w, 1, 1}, center, "segment");
    }
    auto kind = r.i(0, 5);
    if (nd == 2 && kind <= 2) { return polygon_spec(rand_polygon(r, center, size * 0.9)); }
    if (nd == 2 && kind == 3) {
        double w = size * r.u(0.5, 1.5), h = size * size / w;
        return polygon_spec({{center[0] - w / 2, center[1] - h / 2, 0}, {center[0] + w / 2, center[1] - h / 2, 0},
                             {center[0] + w / 2, center[1] + h / 2, 0}, {center[0] - w / 2, center[1] + h / 2, 0}});
    }
    if (kind == 4) { // ring or sphere shell
        double ro = size * 0.62, ri = ro * r.u(0.0, 0.5);
        return field_spec([=](V3 const& p) {
            V3 d = p - center;
            if (nd == 2) { d[2] = 0; }
            auto n = d.norm();
            return std::min(ro - n, ri > 0.1 * ro ? n - ri : 1.0);
        }, {2 * ro, 2 * ro, 2 * ro}, center, "ring(" + str(ri) + "," + str(ro) + ")");
    }
    // box cut by a plane
    V3 w(size * r.u(0.6, 1.3), size * r.u(0.6, 1.3), size * r.u(0.6, 1.3));
    V3 nrm(r.u(-1, 1), r.u(-1, 1), nd == 3 ? r.u(-1, 1) : 0);
    double d = r.u(0, 0.5) * size;
    return field_spec([=](V3 const& p) {
        double m = 1e9;
        for (int k = 0; k < nd; ++k) { m = std::min(m, 0.5 * w[k] - std::abs(p[k] - center[k])); }
        return std::min(m, d - nrm.dot(p - center));
    }, w, center, "cutbox(n" + str(nrm) + " d" + str(d) + ")");
}

// ------------------------------------------------------------------ observing the library

struct ExpSite { std::string family; V3 pos; int norb; };

inline std::vector<ExpSite> expected_sites(RLat const& l, std::vector<RSite> const& s) {
    std::vector<ExpSite> e;
    e.reserve(s.size());
    for (auto const& x : s) { e.push_back({l.fam_name(x.uid), x.pos, l.subs[x.uid].norb()}); }
    return e;
}

/// Position -> nearest point of a fixed set (or -1 if none is within `tol`)
class Finder {
    std::unordered_map<std::uint64_t, std::vector<int>> grid;
    std::vector<V3> pts;
    static std::int64_t cell(double x) { return static_cast<std::int64_t>(std::floor(x / 0.05)); }
    static std::uint64_t key(std::int64_t x, std::int64_t y, std::int64_t z) {
        return hash64(hash64(hash64(7, static_cast<std::uint64_t>(x)), static_cast<std::uint64_t>(y)), static_cast<std::uint64_t>(z));
    }
public:
    Finder() = default;
    explicit Finder(std::vector<RSite> const& s) { for (auto const& x : s) { add(x.pos); } }
    void add(V3 const& p) { grid[key(cell(p[0]), cell(p[1]), cell(p[2]))].push_back(static_cast<int>(pts.size())); pts.push_back(p); }
    int find(V3 const& p, double tol = 4e-3) const {
        int who = -1;
        auto x = cell(p[0]), y = cell(p[1]), z = cell(p[2]);
        for (auto dx = -1; dx <= 1; ++dx) for (auto dy = -1; dy <= 1; ++dy) for (auto dz = -1; dz <= 1; ++dz) {
            auto it = grid.find(key(x + dx, y + dy, z + dz));
            if (it == grid.end()) { continue; }
            for (auto n : it->second) {
                auto d = (pts[n] - p).norm();
                if (d < tol) { tol = d; who = n; }
            }
        }
        return who;
    }
};

struct SysView {
    std::vector<std::string> family; ///< per site
    std::vector<int> norb, orb_start;
    int ham_size = 0;
};

/// Per-site view of a system (uses only the public run-length list and the registry names)
inline SysView view(Context& c, cpb::System const& s) {
    SysView v;
    for (auto const& sub : s.compressed_sublattices) {
        for (cpb::idx_t n = 0; n < sub.num_sites(); ++n) {
            v.family.push_back(s.site_registry.name(sub.id()));
            v.norb.push_back(static_cast<int>(sub.num_orbitals()));
        }
    }
    c.require(static_cast<cpb::idx_t>(v.family.size()) == s.num_sites(), [&] {
        return "family list covers " + std::to_string(v.family.size()) + " sites, the system has " + std::to_string(s.num_sites());
    });
    for (auto n : v.norb) { v.orb_start.push_back(v.ham_size); v.ham_size += n; }
    return v;
}

/// Bijection between expected sites and system sites. Returns ref index -> system index.
inline std::vector<int> match_sites(Context& c, cpb::System const& s, SysView const& v, std::vector<ExpSite> const& exp,
                                    double tol = 2e-3) {
    auto cell = [](double x) { return static_cast<std::int64_t>(std::floor(x / 0.05)); };
    auto key = [](std::string const& f, std::int64_t x, std::int64_t y, std::int64_t z) {
        return hash64(hash64(hash64(hash64(7, f), static_cast<std::uint64_t>(x)), static_cast<std::uint64_t>(y)), static_cast<std::uint64_t>(z));
    };
    c.require(s.positions.x.size() == s.num_sites() && s.positions.y.size() == s.num_sites() && s.positions.z.size() == s.num_sites(),
              [&] { return std::string("position arrays of different length"); });
    std::unordered_map<std::uint64_t, std::vector<int>> grid;
    for (int n = 0; n < static_cast<int>(s.num_sites()); ++n) {
        grid[key(v.family[n], cell(s.positions.x[n]), cell(s.positions.y[n]), cell(s.positions.z[n]))].push_back(n);
    }
    std::vector<char> used(s.num_sites(), 0);
    std::vector<int> map(exp.size(), -1);
    for (std::size_t e = 0; e < exp.size(); ++e) {
        double best = tol; int who = -1;
        auto x = cell(exp[e].pos[0]), y = cell(exp[e].pos[1]), z = cell(exp[e].pos[2]);
        for (auto dx = -1; dx <= 1; ++dx) for (auto dy = -1; dy <= 1; ++dy) for (auto dz = -1; dz <= 1; ++dz) {
            auto it = grid.find(key(exp[e].family, x + dx, y + dy, z + dz));
            if (it == grid.end()) { continue; }
            for (auto n : it->second) {
                if (used[n] || v.family[n] != exp[e].family) { continue; }
                auto d = (V3(s.positions.x[n], s.positions.y[n], s.positions.z[n]) - exp[e].pos).norm();
                if (d < best) { best = d; who = n; }
            }
        }
        c.require(who >= 0, [&] {
            return "site of family " + exp[e].family + " expected at " + str(exp[e].pos) + " is missing (system has "
                   + std::to_string(s.num_sites()) + " sites, expected " + std::to_string(exp.size()) + ")";
        });
        c.require(v.norb[who] == exp[e].norb, [&] { return "wrong orbital count for family " + exp[e].family; });
        used[who] = 1;
        map[e] = who;
    }
    for (int n = 0; n < static_cast<int>(s.num_sites()); ++n) {
        c.require(used[n], [&] {
            return "unexpected or repeated site of family " + v.family[n] + " at "
                   + str(V3(s.positions.x[n], s.positions.y[n], s.positions.z[n])) + " (system " + std::to_string(s.num_sites())
                   + ", expected " + std::to_string(exp.size()) + ")";
        });
    }
    return map;
}

/// One observed bond list: (i, j, family id) of all blocks
struct ObsBond { int i, j, fam; };
inline std::vector<ObsBond> observed_bonds(Context& c, cpb::HoppingBlocks const& b, int nsites) {
    std::vector<ObsBond> out;
    for (auto const& block : b) {
        for (auto const& coo : block.coordinates()) {
            c.require(coo.row >= 0 && coo.row < nsites && coo.col >= 0 && coo.col < nsites, [&] {
                return "bond (" + std::to_string(coo.row) + "," + std::to_string(coo.col) + ") refers to a site outside of the system of " + std::to_string(nsites);
            });
            out.push_back({coo.row, coo.col, block.family_id().value()});
        }
    }
    return out;
}

/// Map library hopping family id -> reference family index (by name, or by energy if anonymous)
inline std::vector<int> match_families(Context& c, cpb::HoppingRegistry const& reg, RLat const& l) {
    std::vector<int> m(reg.size(), -1);
    for (int id = 0; id < reg.size(); ++id) {
        auto const& name = reg.name(cpb::HopID(id));
        for (std::size_t f = 0; f < l.hops.size(); ++f) {
            auto const& h = l.hops[f];
            if (h.anonymous ? (name.compare(0, 5, "__ano") == 0 && from_cpb(reg.energy(cpb::HopID(id))).rows() == h.t.rows()
                               && from_cpb(reg.energy(cpb::HopID(id))).cols() == h.t.cols()
                               && from_cpb(reg.energy(cpb::HopID(id))) == h.t)
                            : name == h.name) { m[id] = static_cast<int>(f); }
        }
        if (m[id] >= 0) {
            c.require(from_cpb(reg.energy(cpb::HopID(id))) == l.hops[m[id]].t, [&] { return "hopping family " + name + " has another energy than defined"; });
        }
    }
    return m;
}

// ------------------------------------------------------------------ Hamiltonians

struct Coo { int i, j; cd v; };
enum class Num { f, d, cf, cdb };

struct ObsHam { Num type; int rows = 0, cols = 0; std::vector<Coo> entries; };

template<class scalar_t> Num num_of();
template<> inline Num num_of<float>() { return Num::f; }
template<> inline Num num_of<double>() { return Num::d; }
template<> inline Num num_of<std::complex<float>>() { return Num::cf; }
template<> inline Num num_of<std::complex<double>>() { return Num::cdb; }
inline char const* num_name(Num n) { return n == Num::f ? "float" : n == Num::d ? "double" : n == Num::cf ? "complex float" : "complex double"; }

template<class scalar_t>
ObsHam observe_matrix(Context& c, cpb::SparseMatrixX<scalar_t> const& m) {
    ObsHam o;
    o.type = num_of<scalar_t>();
    o.rows = static_cast<int>(m.rows());
    o.cols = static_cast<int>(m.cols());
    c.require(m.isCompressed(), [] { return std::string("Hamiltonian is not in compressed form"); });
    auto const* outer = m.outerIndexPtr();
    auto const* inner = m.innerIndexPtr();
    auto const* val = m.valuePtr();
    c.require(outer[0] == 0, [] { return std::string("row pointers do not start at 0"); });
    for (int r = 0; r < o.rows; ++r) {
        c.require(outer[r + 1] >= outer[r], [] { return std::string("row pointers decrease"); });
        for (auto k = outer[r]; k < outer[r + 1]; ++k) {
            c.require(inner[k] >= 0 && inner[k] < o.cols, [&] { return "column index " + std::to_string(inner[k]) + " out of range in row " + std::to_string(r); });
            c.require(k == outer[r] || inner[k] > inner[k - 1], [&] { return "duplicate or unsorted column " + std::to_string(inner[k]) + " in row " + std::to_string(r); });
            o.entries.push_back({r, static_cast<int>(inner[k]), static_cast<cd>(val[k])});
        }
    }
    return o;
}

inline ObsHam observe(Context& c, cpb::Hamiltonian const& h) {
    using namespace cpb;
    c.require(static_cast<bool>(h), [] { return std::string("empty Hamiltonian"); });
    ObsHam o;
    if (ham::is<float>(h)) { o = observe_matrix(c, ham::get_reference<float>(h)); }
    else if (ham::is<double>(h)) { o = observe_matrix(c, ham::get_reference<double>(h)); }
    else if (ham::is<std::complex<float>>(h)) { o = observe_matrix(c, ham::get_reference<std::complex<float>>(h)); }
    else { o = observe_matrix(c, ham::get_reference<std::complex<double>>(h)); }
    c.require(h.rows() == o.rows && h.cols() == o.cols && h.non_zeros() == static_cast<idx_t>(o.entries.size()),
              [] { return std::string("reported Hamiltonian size differs from the matrix"); });
    return o;
}

struct RHam {
    std::unordered_map<std::uint64_t, cd> v;
    int size = 0;
    static std::uint64_t key(int i, int j) { return (static_cast<std::uint64_t>(static_cast<std::uint32_t>(i)) << 32) | static_cast<std::uint32_t>(j); }
    void add(int i, int j, cd x) { v[key(i, j)] += x; }
    cd get(int i, int j) const { auto it = v.find(key(i, j)); return it == v.end() ? cd(0, 0) : it->second; }
    double scale() const { double s = 1; for (auto const& p : v) { s = std::max(s, std::abs(p.second)); } return s; }
    MX dense() const {
        MX m = MX::Zero(size, size);
        for (auto const& p : v) { m(static_cast<int>(p.first >> 32), static_cast<int>(p.first & 0xffffffffu)) = p.second; }
        return m;
    }
};

inline double tol_for(Num n) { return (n == Num::f || n == Num::cf) ? 3e-5 : 1e-11; }

/// Entry by entry comparison; entries absent on either side must be zero on the other
inline void compare(Context& c, ObsHam const& o, RHam const& e, double tol, std::string const& what = "Hamiltonian") {
    c.require(o.rows == e.size && o.cols == e.size, [&] {
        return what + " is " + std::to_string(o.rows) + "x" + std::to_string(o.cols) + ", expected " + std::to_string(e.size);
    });
    auto t = tol * e.scale();
    std::size_t found = 0;
    for (auto const& x : o.entries) {
        auto it = e.v.find(RHam::key(x.i, x.j));
        auto want = it == e.v.end() ? cd(0, 0) : it->second;
        if (it != e.v.end()) { ++found; }
        c.require(std::abs(x.v - want) <= t, [&] {
            return what + "(" + std::to_string(x.i) + "," + std::to_string(x.j) + ") = " + str(x.v) + ", expected " + str(want);
        });
    }
    if (found != e.v.size()) {
        std::unordered_set<std::uint64_t> have;
        for (auto const& x : o.entries) { have.insert(RHam::key(x.i, x.j)); }
        for (auto const& p : e.v) {
            c.require(have.count(p.first) || std::abs(p.second) <= t, [&] {
                return what + " entry (" + std::to_string(p.first >> 32) + "," + std::to_string(p.first & 0xffffffffu) + ") is missing, expected " + str(p.second);
            });
        }
    }
    c.count("matrix_entries_compared", static_cast<std::int64_t>(o.entries.size()));
}

inline void check_hermitian(Context& c, ObsHam const& o, std::string const& what = "Hamiltonian") {
    std::unordered_map<std::uint64_t, cd> m;
    double s = 1;
    for (auto const& x : o.entries) { m[RHam::key(x.i, x.j)] = x.v; s = std::max(s, std::abs(x.v)); }
    for (auto const& x : o.entries) {
        auto it = m.find(RHam::key(x.j, x.i));
        auto w = it == m.end() ? cd(0, 0) : it->second;
        c.require(std::abs(x.v - std::conj(w)) <= tol_for(o.type) * s, [&] {
            return what + " is not Hermitian at (" + std::to_string(x.i) + "," + std::to_string(x.j) + "): " + str(x.v) + " vs " + str(w);
        });
    }
}

struct ExpBond { int i, j; MX t; V3 image; std::string family; }; ///< i, j: expected-site indices

/// Place onsite and hopping matrices. `map`: expected index -> system index
inline RHam assemble(std::vector<ExpSite> const& sites, std::vector<MX> const& onsite, std::vector<ExpBond> const& bonds,
                     std::vector<int> const& map, SysView const& v, V3 const& k = V3(0, 0, 0)) {
    RHam h;
    h.size = v.ham_size;
    for (std::size_t n = 0; n < sites.size(); ++n) {
        auto o = v.orb_start[map[n]];
        for (int a = 0; a < onsite[n].rows(); ++a) for (int b = 0; b < onsite[n].cols(); ++b) {
            if (onsite[n](a, b) != cd(0, 0)) { h.add(o + a, o + b, onsite[n](a, b)); }
        }
    }
    for (auto const& b : bonds) {
        auto oi = v.orb_start[map[b.i]], oj = v.orb_start[map[b.j]];
        auto phase = std::exp(cd(0, -1) * k.dot(b.image));
        for (int r = 0; r < b.t.rows(); ++r) for (int s = 0; s < b.t.cols(); ++s) {
            auto x = b.t(r, s) * phase;
            if (b.t(r, s) == cd(0, 0)) { continue; }
            h.add(oi + r, oj + s, x);
            h.add(oj + s, oi + r, std::conj(x));
        }
    }
    return h;
}

inline std::vector<MX> lattice_onsite(RLat const& l, std::vector<RSite> const& s) {
    std::vector<MX> o;
    for (auto const& x : s) { o.push_back(l.subs[x.uid].e); }
    return o;
}
inline std::vector<ExpBond> lattice_bonds(RLat const& l, std::vector<RBond> const& b) {
    std::vector<ExpBond> o;
    for (auto const& x : b) { o.push_back({x.i, x.j, l.hops[x.fam].t, x.image, l.hops[x.fam].anonymous ? "" : l.hops[x.fam].name}); }
    return o;
}

/// Compare the observed finite bond list with the expected one (as multisets, oriented)
inline void compare_bonds(Context& c, std::vector<ObsBond> const& obs, std::vector<RBond> const& exp,
                          std::vector<int> const& map, std::vector<int> const& fam, std::string const& what = "bond list") {
    std::map<std::tuple<int, int, int>, int> cnt;
    for (auto const& b : exp) { ++cnt[std::make_tuple(map[b.i], map[b.j], b.fam)]; }
    for (auto const& b : obs) {
        auto k = std::make_tuple(b.i, b.j, fam.at(static_cast<std::size_t>(b.fam)));
        auto it = cnt.find(k);
        c.require(it != cnt.end() && it->second > 0, [&] {
            return what + ": unexpected or repeated bond " + std::to_string(b.i) + " -> " + std::to_string(b.j) + " of family " + std::to_string(b.fam);
        });
        --it->second;
    }
    for (auto const& p : cnt) {
        c.require(p.second == 0, [&] {
            return what + ": missing bond " + std::to_string(std::get<0>(p.first)) + " -> " + std::to_string(std::get<1>(p.first)) + " of family " + std::to_string(std::get<2>(p.first));
        });
    }
    c.count("bonds_compared", static_cast<std::int64_t>(exp.size()));
}

inline std::uint64_t mask_of(RLat const& l) {
    std::uint64_t h = hash64(3, static_cast<std::uint64_t>(l.ndim()));
    for (auto const& s : l.subs) { h = hash64(hash64(h, static_cast<std::uint64_t>(s.norb())), static_cast<std::uint64_t>(s.fam)); }
    for (auto const& f : l.hops) for (auto const& t : f.terms) { for (int x : t.d) { h = hash64(h, static_cast<unsigned>(x)); } h = hash64(h, static_cast<std::uint64_t>(t.from * 16 + t.to)); }
    return h;
}

} // namespace mon
