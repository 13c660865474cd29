// Random models with leads together with their expected structure
#pragma once
#include "build_case.hpp"

namespace mon {

struct RLead {
    int axis = 0, sign = 1;
    std::vector<V3> vertices;
    Region region;               ///< 1 inside, -1 outside, 0 too close to call
    bool along_axis = false;     ///< the cross section is the same at every layer
    cpb::Shape shape;
    std::string text;
    int direction() const { return sign * (axis + 1); }
};

inline RLead rand_lead(Rng& r, RLat const& lat, std::vector<RSite> const& sites) {
    RLead l;
    auto nd = lat.ndim();
    l.axis = r.i(0, nd - 1);
    l.sign = r.p(0.5) ? 1 : -1;
    auto around = r.pick(sites).pos; // somewhere in the structure
    auto kind = r.u();
    auto wide = r.p(0.3);
    if (nd != 2 && kind > 0.75) { kind = 0.3; }
    if (kind < 0.55) {
        l.along_axis = true;
        V3 ctr = lat.frac(around), half(0, 0, 0);
        for (int k = 0; k < nd; ++k) { half[k] = k == l.axis ? r.u(0.1, 3) : wide ? r.u(2, 6) : r.u(0.3, 1.7); }
        ctr[l.axis] += r.p(0.2) ? r.u(-20, 20) : r.u(-2, 2);
        std::vector<V3> vs; cpb::Shape::Vertices cv;
        for (int q = 0; q < (1 << nd); ++q) {
            V3 v(0, 0, 0);
            for (int k = 0; k < nd; ++k) { v += (ctr[k] + ((q >> k) & 1 ? half[k] : -half[k])) * lat.a[static_cast<std::size_t>(k)]; }
            vs.push_back(v); cv.push_back(cart(v));
        }
        l.vertices = vs;
        auto l0 = lat; auto axis = l.axis;
        auto f = [l0, axis, ctr, half, nd](V3 const& p) {
            V3 fr = l0.frac(p);
            double m = 1e9;
            for (int k = 0; k < nd; ++k) { if (k != axis) { m = std::min(m, half[k] - std::abs(fr[k] - ctr[k])); } }
            return m;
        };
        l.region = [f](V3 const& p) { auto v = f(p); return std::abs(v) < 3e-3 ? 0 : v > 0 ? 1 : -1; };
        l.shape = cpb::Shape(cv, [f](cpb::CartesianArrayConstRef q) {
            cpb::ArrayX<bool> a(q.size());
            for (cpb::idx_t n = 0; n < q.size(); ++n) { a[n] = f(V3(q.x()[n], q.y()[n], q.z()[n])) > 0; }
            return a;
        });
        l.text = "strip(ctr" + str(ctr) + " half" + str(half) + ")";
    } else if (kind < 0.75) {
        V3 half(r.u(0.5, wide ? 6 : 2), r.u(0.5, wide ? 6 : 2), nd == 3 ? r.u(0.5, 3) : 4);
        V3 c0 = around;
        auto f = [c0, half](V3 const& p) { return (half - (p - c0).cwiseAbs()).minCoeff(); };
        auto s = field_spec(f, 2 * half, c0, "box");
        l.vertices = s.vertices; l.region = s.region; l.shape = s.shape; l.text = s.text;
    } else if (kind < 0.9) {
        V3 t = lat.a[static_cast<std::size_t>(1 - l.axis)].normalized();
        if (r.p(0.3)) { auto g = r.u(-0.4, 0.4); t = V3(std::cos(g) * t[0] - std::sin(g) * t[1], std::sin(g) * t[0] + std::cos(g) * t[1], 0); }
        auto len = wide ? r.u(3, 9) : r.u(1, 4);
        V3 out = r.u(-2, 4) * l.sign * lat.a[static_cast<std::size_t>(l.axis)];
        V3 a = v3(cart(around + out - len * r.u(0.3, 0.7) * t)), b = v3(cart(a + len * t));
        l.vertices = {a, b};
        l.shape = cpb::Line(cart(a), cart(b));
        l.region = [a, b](V3 const& p) {
            V3 d = b - a; auto t2 = d.dot(p - a) / d.norm();
            auto m = std::min(t2, d.norm() - t2);
            return std::abs(m) < 5e-3 ? 0 : m > 0 ? 1 : -1;
        };
        l.text = "line(" + str(a) + str(b) + ")";
    } else {
        auto s = polygon_spec(rand_polygon(r, around, r.u(1, 5)));
        l.vertices = s.vertices; l.region = s.region; l.shape = s.shape; l.text = s.text;
    }
    l.text = "lead(" + std::to_string(l.direction()) + " " + l.text + ")";
    return l;
}

struct LeadLayer {
    int layer = 0;
    std::vector<RSite> sites; ///< in the order of the lead; the cells are those beneath the lead
};

struct LeadCase {
    FiniteCase base;
    std::vector<RSite> removed;  ///< by a state modifier
    std::vector<RSite> start;    ///< structure before any lead
    std::vector<RLead> leads;    ///< accepted ones
    std::vector<LeadLayer> layers;
    std::vector<RSite> sites;    ///< structure with the filled in sites
    std::int64_t filled = 0, refused = 0;

    std::unique_ptr<cpb::Model> model() const {
        auto m = base.model();
        if (!removed.empty()) {
            auto f = std::make_shared<Finder>(removed);
            m->add(cpb::SiteStateModifier([f](Eigen::Ref<cpb::ArrayX<bool>> st, cpb::CartesianArrayConstRef p, cpb::string_view) {
                for (cpb::idx_t q = 0; q < p.size(); ++q) { if (f->find(V3(p.x()[q], p.y()[q], p.z()[q])) >= 0) { st[q] = false; } }
            }));
        }
        for (auto const& l : leads) { m->attach_lead(l.direction(), l.shape); }
        return m;
    }
};

namespace lead_detail {
    struct Path { Cell c; int uid; }; // c[axis] = 0
    inline SiteKey key_of(Cell c, int uid, int axis) { c[static_cast<std::size_t>(axis)] = 0; return {c, uid}; }

    /// Transverse cross section of the lead shape at layer `at`. ambiguous: too close to call
    inline void cross_section(RLat const& lat, RLead const& l, int at, std::set<SiteKey>& in, std::set<SiteKey>& maybe) {
        V3 lo(1e9, 1e9, 1e9), hi(-1e9, -1e9, -1e9);
        for (auto const& v : l.vertices) { auto f = lat.frac(v); lo = lo.cwiseMin(f); hi = hi.cwiseMax(f); }
        for (int uid = 0; uid < static_cast<int>(lat.subs.size()); ++uid) {
            auto f0 = lat.frac(lat.offset + lat.subs[static_cast<std::size_t>(uid)].pos);
            Cell a{{0, 0, 0}}, b{{0, 0, 0}};
            for (int n = 0; n < lat.ndim(); ++n) {
                auto k = static_cast<std::size_t>(n);
                a[k] = static_cast<int>(std::floor(lo[n] - f0[n])) - 3;
                b[k] = static_cast<int>(std::ceil(hi[n] - f0[n])) + 3;
            }
            a[static_cast<std::size_t>(l.axis)] = b[static_cast<std::size_t>(l.axis)] = at;
            for (int z = a[2]; z <= b[2]; ++z) for (int y = a[1]; y <= b[1]; ++y) for (int x = a[0]; x <= b[0]; ++x) {
                Cell c{{x, y, z}};
                auto p = lat.pos(c, uid);
                auto v = l.region(p);
                // whatever is outside of the bounding vertices may or may not be seen
                auto f = lat.frac(p);
                for (int n = 0; n < lat.ndim(); ++n) { if (n != l.axis && v != -1 && (f[n] < lo[n] + 0.01 || f[n] > hi[n] - 0.01)) { v = 0; } }
                if (v > 0) { in.insert(key_of(c, uid, l.axis)); }
                else if (v == 0) { maybe.insert(key_of(c, uid, l.axis)); }
            }
        }
    }
}

/// What the reference knows of one lead attached to `sites`
struct LeadExpect {
    bool may_fail = false, may_succeed = false;
    std::vector<std::pair<std::set<SiteKey>, std::set<SiteKey>>> sections; ///< (certain, ambiguous) per candidate layer
    std::map<SiteKey, int> outermost;  ///< path -> sign * layer of the first existing site
    int box_outermost = -(1 << 20);    ///< sign * layer of the first existing site around the shape
};

inline LeadExpect expect_lead(FiniteCase const& base, RLead const& l, std::vector<RSite> const& sites) {
    auto const& lat = base.lat;
    LeadExpect e;
    auto ax = static_cast<std::size_t>(l.axis);
    V3 lo(1e9, 1e9, 1e9), hi(-1e9, -1e9, -1e9);
    for (auto const& v : l.vertices) { auto f = lat.frac(v); lo = lo.cwiseMin(f); hi = hi.cwiseMax(f); }
    int slo = 1 << 20, shi = -(1 << 20);
    for (auto const& s : sites) {
        auto k = lead_detail::key_of(s.c, s.uid, l.axis);
        auto d = l.sign * s.c[ax];
        auto it = e.outermost.find(k);
        if (it == e.outermost.end() || it->second < d) { e.outermost[k] = d; }
        bool in = true;
        auto f0 = lat.frac(lat.offset + lat.subs[static_cast<std::size_t>(s.uid)].pos);
        for (int n = 0; n < lat.ndim(); ++n) {
            if (n == l.axis) { continue; }
            // cells which the bounding vertices or any of the sublattices may reach
            auto cl = std::min(std::floor(lo[n]), std::floor(lo[n] - f0[n])) - 4, ch = std::max(std::ceil(hi[n]), std::ceil(hi[n] - f0[n])) + 4;
            in = in && s.c[static_cast<std::size_t>(n)] >= cl && s.c[static_cast<std::size_t>(n)] <= ch;
        }
        if (in) { e.box_outermost = std::max(e.box_outermost, d); }
        slo = std::min(slo, s.c[ax]); shi = std::max(shi, s.c[ax]);
    }
    // the layers at which the shape may be evaluated: anywhere along the shape or, if it is outside, at the end of the structure
    int first = static_cast<int>(std::floor(lo[l.axis])) - 4, last = static_cast<int>(std::ceil(hi[l.axis])) + 4;
    if (l.along_axis) { first = last = 0; }
    else { first = std::min(first, shi); last = std::max(last, slo); first = std::max(first, slo - 6); last = std::min(last, shi + 6); }
    auto st = primitive_start(base.size);
    for (int at = first; at <= last; ++at) {
        std::set<SiteKey> in, maybe;
        lead_detail::cross_section(lat, l, at, in, maybe);
        auto clip = [&](std::set<SiteKey>& s) {
            if (base.shaped) { return; }
            for (auto it = s.begin(); it != s.end();) {
                bool ok = true;
                for (int n = 0; n < lat.ndim(); ++n) { auto k = static_cast<std::size_t>(n); if (n != l.axis) { ok = ok && it->c[k] >= st[k] && it->c[k] < st[k] + base.size[k]; } }
                if (ok) { ++it; } else { it = s.erase(it); }
            }
        };
        clip(in); clip(maybe);
        int missing = 0, there = 0;
        for (auto const& k : in) { if (e.outermost.count(k)) { ++there; } else { ++missing; } }
        for (auto const& k : maybe) { if (!e.outermost.count(k)) { e.may_fail = true; } else { e.may_succeed = true; } }
        if (missing || !there) { e.may_fail = true; }
        if (there) { e.may_succeed = true; }
        e.sections.push_back({in, maybe});
    }
    return e;
}

/// Judge lead number `n` of an evaluated model and fill in the sites that it asked for
inline LeadLayer judge_lead(Context& c, FiniteCase const& base, RLead const& l, LeadExpect const& e, cpb::Lead const& lead, cpb::System const& sys,
                            std::vector<RSite>& sites, std::int64_t& filled) {
    auto const& lat = base.lat;
    auto ax = static_cast<std::size_t>(l.axis);
    auto const& ls = lead.system();
    auto lv = view(c, ls);
    auto sv = view(c, sys);
    LeadLayer out;
    c.require(!lead.indices().empty(), [&] { return l.text + " has no sites"; });
    c.require(static_cast<cpb::idx_t>(lead.indices().size()) == ls.num_sites(), [&] { return l.text + " has " + std::to_string(ls.num_sites()) + " sites and " + std::to_string(lead.indices().size()) + " indices"; });
    c.require(lead.spec().axis == l.axis && lead.spec().sign == l.sign, [&] { return l.text + ": direction differs from the one requested"; });

    // the lattice sites beneath, found by position
    V3 shift = l.sign * lat.a[ax];
    std::set<int> used;
    std::map<SiteKey, int> section;
    for (std::size_t k = 0; k < lead.indices().size(); ++k) {
        auto idx = lead.indices()[k];
        c.require(idx >= 0 && idx < sys.num_sites(), [&] { return l.text + ": index " + std::to_string(idx) + " is not a site of the system"; });
        c.require(used.insert(idx).second, [&] { return l.text + ": system site " + std::to_string(idx) + " is connected twice"; });
        V3 q(sys.positions.x[idx], sys.positions.y[idx], sys.positions.z[idx]);
        V3 p(ls.positions.x[static_cast<cpb::idx_t>(k)], ls.positions.y[static_cast<cpb::idx_t>(k)], ls.positions.z[static_cast<cpb::idx_t>(k)]);
        c.require((p - q - shift).norm() < 4e-3, [&] { return l.text + ": lead site at " + str(p) + " is not one primitive vector away from its system site at " + str(q); });
        c.require(lv.family[k] == sv.family[static_cast<std::size_t>(idx)], [&] { return l.text + ": lead site of " + lv.family[k] + " is connected to a site of " + sv.family[static_cast<std::size_t>(idx)]; });
        c.require(lv.norb[k] == sv.norb[static_cast<std::size_t>(idx)], [&] { return l.text + ": orbital counts differ at lead site " + std::to_string(k); });
        // which lattice site is it?
        bool found = false;
        for (int uid = 0; uid < static_cast<int>(lat.subs.size()) && !found; ++uid) {
            if (lat.fam_name(uid) != lv.family[k]) { continue; }
            V3 f = lat.frac(q - lat.offset - lat.subs[static_cast<std::size_t>(uid)].pos);
            Cell cell{{0, 0, 0}};
            for (int n = 0; n < lat.ndim(); ++n) { cell[static_cast<std::size_t>(n)] = static_cast<int>(std::lround(f[n])); }
            if ((lat.pos(cell, uid) - q).norm() > 4e-3) { continue; }
            found = true;
            out.sites.push_back({cell, uid, lat.pos(cell, uid)});
            section[lead_detail::key_of(cell, uid, l.axis)] = static_cast<int>(k);
            if (k == 0) { out.layer = cell[ax]; }
            c.require(cell[ax] == out.layer, [&] { return l.text + ": the lead has sites of layers " + std::to_string(out.layer) + " and " + std::to_string(cell[ax]); });
        }
        c.require(found, [&] { return l.text + ": there is no lattice site of " + lv.family[k] + " at " + str(q); });
    }
    for (std::size_t k = 1; k < lead.indices().size(); ++k) {
        c.require(lv.family[k] != lv.family[k - 1] || lead.indices()[k] > lead.indices()[k - 1], [&] { return l.text + ": the lead sites are not in the order of the system"; });
    }

    // the cross section of the shape at some layer of the shape
    bool ok = false;
    std::string why;
    for (auto const& s : e.sections) {
        bool good = true;
        std::string w;
        for (auto const& p : section) { if (!s.first.count(p.first) && !s.second.count(p.first)) { good = false; w = "site at cell " + str(p.first.c) + " of " + lat.subs[static_cast<std::size_t>(p.first.uid)].name + " is outside of the shape"; } }
        for (auto const& k : s.first) { if (!section.count(k) && (!base.shaped || e.outermost.count(k))) { good = false; w = "site at cell " + str(k.c) + " of " + lat.subs[static_cast<std::size_t>(k.uid)].name + " is inside of the shape, but not in the lead"; } }
        if (good) { ok = true; break; }
        why = w;
    }
    c.require(ok, [&] { return l.text + ": the lead is not a cross section of its shape: " + why; });

    // where it is attached
    int must = -(1 << 20);
    for (auto const& p : section) {
        auto it = e.outermost.find(p.first);
        c.require(it != e.outermost.end(), [&] { return l.text + ": there is nothing to attach the site at cell " + str(p.first.c) + " to"; });
        must = std::max(must, it->second);
    }
    auto d = l.sign * out.layer;
    c.require(d >= must, [&] { return l.text + ": attached at layer " + std::to_string(d) + " inside of the structure which ends at layer " + std::to_string(must); });
    c.require(d <= std::max(must, e.box_outermost), [&] { return l.text + ": attached at layer " + std::to_string(d) + " outside of the structure which ends at layer " + std::to_string(e.box_outermost); });
    for (auto const& p : section) {
        for (int q = e.outermost.at(p.first) + 1; q <= d; ++q) {
            Cell cell = p.first.c;
            cell[ax] = l.sign * q;
            sites.push_back({cell, p.first.uid, lat.pos(cell, p.first.uid)});
            ++filled;
        }
    }
    return out;
}

/// Attach up to `want` leads one by one, judging each, and the resulting structure
inline LeadCase rand_lead_case(Context& c, LatOpt lo, int want) {
    auto& r = c.rng;
    LeadCase k;
    lo.min_dim = 2;
    FiniteOpt o;
    o.lat = lo;
    o.target_sites = r.p(0.7) ? 40 : 110;
    o.shape_prob = 0.55;
    k.base = rand_finite(c, o);
    if (k.base.sites.empty()) { throw CaseSkipped{"no sites"}; }
    k.start = k.base.sites;
    if (r.p(0.3)) {
        auto prob = r.u(0.02, 0.3);
        std::vector<RSite> left;
        for (auto const& s : k.start) { if (r.p(prob)) { k.removed.push_back(s); } else { left.push_back(s); } }
        if (left.empty()) { throw CaseSkipped{"no sites"}; }
        k.start = left;
        c.note("vacancies(" + std::to_string(k.removed.size()) + ")");
    }
    k.sites = k.start;
    for (int n = 0; n < want; ++n) {
        auto l = rand_lead(r, k.base.lat, k.sites);
        auto e = expect_lead(k.base, l, k.sites);
        k.leads.push_back(l);
        auto m = k.model();
        std::string err;
        try { m->leads(); } catch (std::runtime_error const& x) { err = x.what(); }
        c.note(l.text + (err.empty() ? "" : " refused"));
        if (!err.empty()) {
            c.require(e.may_fail, [&] { return l.text + " was refused: " + err; });
            k.leads.pop_back();
            ++k.refused;
            c.count("leads_refused");
            continue;
        }
        c.require(e.may_succeed, [&] { return l.text + " was attached although it misses the structure"; });
        auto sites = k.sites;
        c.require(m->leads().size() == static_cast<int>(k.leads.size()), [&] { return std::string("wrong number of leads"); });
        k.layers.push_back(judge_lead(c, k.base, l, e, m->lead(k.leads.size() - 1), *m->system(), sites, k.filled));
        k.sites = sites;
    }
    return k;
}

/// Pairs (outer site, inner site) of neighbouring layers; `reversed`: the term points from the inner to the outer one
struct LayerBond { int outer, inner, fam; bool reversed; };
inline std::vector<LayerBond> layer_bonds(RLat const& lat, LeadLayer const& layer, int axis, int sign) {
    std::vector<LayerBond> b;
    auto idx = index_sites(layer.sites);
    auto ax = static_cast<std::size_t>(axis);
    for (std::size_t n = 0; n < layer.sites.size(); ++n) {
        auto const& s = layer.sites[n];
        for (std::size_t f = 0; f < lat.hops.size(); ++f) for (auto const& t : lat.hops[f].terms) {
            // s is in the outer layer
            if (t.from == s.uid && t.d[ax] == -sign) {
                Cell d = {{s.c[0] + t.d[0], s.c[1] + t.d[1], s.c[2] + t.d[2]}};
                d[ax] = layer.layer;
                auto it = idx.find({d, t.to});
                if (it != idx.end()) { b.push_back({static_cast<int>(n), it->second, static_cast<int>(f), false}); }
            }
            if (t.to == s.uid && t.d[ax] == sign) {
                Cell d = {{s.c[0] - t.d[0], s.c[1] - t.d[1], s.c[2] - t.d[2]}};
                d[ax] = layer.layer;
                auto it = idx.find({d, t.from});
                if (it != idx.end()) { b.push_back({static_cast<int>(n), it->second, static_cast<int>(f), true}); }
            }
        }
    }
    return b;
}

} // namespace mon
