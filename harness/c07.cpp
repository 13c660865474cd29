// C07: structure modifiers see true data and remove or move exactly what they ask
#include "periodic_case.hpp"
using namespace mon;

namespace {

struct Affine { double s, ang; V3 t; V3 operator()(V3 const& p) const {
    return V3(s * (std::cos(ang) * p[0] - std::sin(ang) * p[1]), s * (std::sin(ang) * p[0] + std::cos(ang) * p[1]), s * p[2]) + t; } };

struct Mod {
    bool is_state;
    std::set<int> off, on;              ///< reference sites to switch
    int min_neighbors = 0;
    std::map<std::string, Affine> move; ///< per sublattice name
};

struct Event { int mod; std::string name; std::vector<V3> pos; std::vector<char> state; };

} // namespace

static void random_case(Context& c) {
    auto& r = c.rng;
    auto periodic = r.p(0.35);
    RLat lat;
    std::vector<RSite> sites; // reference sites the modifiers can act on
    Cell start{{0, 0, 0}}, period{{0, 0, 0}};
    std::unique_ptr<cpb::Model> model;
    bool shaped;
    FiniteCase f; PeriodicCase p;
    LatOpt lo;
    lo.max_norb = 2;
    if (periodic) {
        lo.max_rel = 3;
        p = rand_periodic(c, lo);
        auto plain = p.model();
        std::shared_ptr<cpb::System const> s;
        try { s = plain->system(); } catch (std::exception const&) { throw CaseSkipped{"no sites"}; }
        p.locate(c, *s);
        lat = p.lat; sites = p.sites; start = p.start; period = p.period; shaped = p.shaped;
        model = p.model();
    } else {
        FiniteOpt o;
        o.lat = lo;
        o.target_sites = r.p(0.5) ? 40 : 150;
        f = rand_finite(c, o);
        if (f.sites.empty()) { throw CaseSkipped{"no sites"}; }
        lat = f.lat; sites = f.sites; shaped = f.shaped;
        model = f.model();
    }
    auto n = static_cast<int>(sites.size());
    auto nsub = static_cast<int>(lat.subs.size());

    // the modifiers
    std::vector<Mod> mods;
    auto nmod = r.i(1, 5);
    // an empty hopping generator may stand in front of modifier `late`: from there on the modifiers
    // act on the system instead of the foundation
    auto late = r.p(0.35) ? r.i(0, nmod - 1) : nmod;
    auto is_late = [late](int k) { return k >= late; };
    std::set<int> ever_off;
    for (int k = 0; k < nmod; ++k) {
        Mod m;
        m.is_state = r.p(0.6);
        if (m.is_state) {
            auto cnt = r.p(0.2) ? 0 : r.i(1, std::max(1, n / r.i(2, 8)));
            if (r.p(0.02)) { cnt = 8 * n; }
            for (int q = 0; q < cnt; ++q) { m.off.insert(r.i(0, n - 1)); }
            for (auto q : ever_off) { if (r.p(0.15) && !m.off.count(q)) { m.on.insert(q); } }
            ever_off.insert(m.off.begin(), m.off.end());
            m.min_neighbors = is_late(k) || r.p(0.5) ? 0 : r.i(1, 4);
            c.note("state(off " + std::to_string(m.off.size()) + " on " + std::to_string(m.on.size()) + " min " + std::to_string(m.min_neighbors) + ")");
        } else {
            std::map<int, Affine> by_family;
            auto common = r.p(0.4);
            Affine a{r.u(0.8, 1.25), r.u(-3, 3), V3(r.u(-2, 2), r.u(-2, 2), r.u(-2, 2))};
            for (int u = 0; u < nsub; ++u) {
                if (!by_family.count(lat.subs[u].fam)) {
                    by_family[lat.subs[u].fam] = common ? a : Affine{r.u(0.8, 1.25), r.u(-3, 3), V3(r.u(-2, 2), r.u(-2, 2), r.u(-2, 2))};
                }
                m.move[lat.subs[u].name] = by_family[lat.subs[u].fam];
            }
            c.note("move");
        }
        mods.push_back(m);
    }
    if (late < nmod) { c.note("empty generator before modifier " + std::to_string(late)); }
    // aliases are sublattices of their own in the foundation, but not in the system
    auto sub_name = [&lat, is_late](int k, int uid) { return is_late(k) ? lat.fam_name(uid) : lat.subs[uid].name; };

    // which reference site is at a given original position? follow the moves forward
    auto log = std::make_shared<std::vector<Event>>();
    auto finders = std::make_shared<std::vector<std::map<std::string, std::pair<Finder, std::vector<int>>>>>();
    {
        auto pos = std::vector<V3>();
        for (auto const& s : sites) { pos.push_back(s.pos); }
        for (int k = 0; k < nmod; ++k) {
            auto const& m = mods[static_cast<std::size_t>(k)];
            std::map<std::string, std::pair<Finder, std::vector<int>>> here;
            for (int q = 0; q < n; ++q) {
                auto& e = here[sub_name(k, sites[q].uid)];
                e.first.add(pos[q]);
                e.second.push_back(q);
            }
            finders->push_back(std::move(here));
            if (!m.is_state) { for (int q = 0; q < n; ++q) { pos[q] = m.move.at(lat.subs[sites[q].uid].name)(pos[q]); } }
        }
    }
    auto who = [finders](int mod, std::string const& name, V3 const& p) {
        auto& h = (*finders)[static_cast<std::size_t>(mod)];
        auto it = h.find(name);
        if (it == h.end()) { return -1; }
        auto w = it->second.first.find(p);
        return w < 0 ? -1 : it->second.second[static_cast<std::size_t>(w)];
    };
    for (int k = 0; k < nmod; ++k) {
        auto m = mods[static_cast<std::size_t>(k)];
        if (k == late) {
            model->add(cpb::HoppingGenerator("__nothing", 1.0, [](cpb::System const&) { return cpb::HoppingGenerator::Result{cpb::ArrayXi(0), cpb::ArrayXi(0)}; }));
        }
        if (m.is_state) {
            model->add(cpb::SiteStateModifier([=](Eigen::Ref<cpb::ArrayX<bool>> state, cpb::CartesianArrayConstRef pos, cpb::string_view sub) {
                Event e{k, std::string(sub.data(), sub.size()), {}, {}};
                for (cpb::idx_t q = 0; q < pos.size(); ++q) {
                    V3 x(pos.x()[q], pos.y()[q], pos.z()[q]);
                    e.pos.push_back(x);
                    e.state.push_back(q < state.size() ? state[q] : 2);
                    auto w = who(k, e.name, x);
                    if (w >= 0 && m.off.count(w)) { state[q] = false; }
                    if (w >= 0 && m.on.count(w)) { state[q] = true; }
                }
                if (state.size() != pos.size()) { e.state.push_back(2); }
                log->push_back(e);
            }, m.min_neighbors));
        } else {
            model->add(cpb::PositionModifier([=](cpb::CartesianArrayRef pos, cpb::string_view sub) {
                Event e{k, std::string(sub.data(), sub.size()), {}, {}};
                for (cpb::idx_t q = 0; q < pos.size(); ++q) {
                    V3 x(pos.x()[q], pos.y()[q], pos.z()[q]);
                    e.pos.push_back(x);
                    auto it = m.move.find(e.name);
                    if (it == m.move.end()) { continue; }
                    V3 y = it->second(x);
                    pos.x()[q] = static_cast<float>(y[0]); pos.y()[q] = static_cast<float>(y[1]); pos.z()[q] = static_cast<float>(y[2]);
                }
                log->push_back(e);
            }));
        }
    }

    std::shared_ptr<cpb::System const> sys;
    std::string error;
    try { sys = model->system(); } catch (std::exception const& e) { error = e.what(); }

    // replay on the reference, judging the log on the way
    auto idx = index_sites(sites);
    std::vector<char> alive(sites.size(), 1);
    std::vector<V3> pos;
    for (auto const& s : sites) { pos.push_back(s.pos); }
    std::vector<char> gone(sites.size(), 0); // removed before the generator: nothing brings them back
    std::size_t ev = 0;
    std::int64_t cleaned = 0, removed = 0, restored = 0;
    for (int k = 0; k < nmod; ++k) {
        auto const& m = mods[static_cast<std::size_t>(k)];
        if (k == late) { gone = alive; for (auto& g : gone) { g = !g; } c.count("systems_modified_behind_a_generator"); }
        std::set<std::string> called;
        for (; ev < log->size() && (*log)[ev].mod == k; ++ev) {
            auto const& e = (*log)[ev];
            c.require(called.insert(e.name).second, [&] { return "modifier " + std::to_string(k) + " was called twice for " + e.name; });
            int uid = -1;
            for (int u = 0; u < nsub; ++u) { if (sub_name(k, u) == e.name) { uid = u; } }
            c.require(uid >= 0, [&] { return "modifier was called for unknown sublattice " + e.name; });
            std::vector<char> met(sites.size(), 0);
            for (std::size_t q = 0; q < e.pos.size(); ++q) {
                auto w = who(k, e.name, e.pos[q]);
                if (w >= 0 && !gone[w]) {
                    c.require(!met[w], [&] { return "site " + std::to_string(w) + " was passed twice to modifier " + std::to_string(k); });
                    met[w] = 1;
                }
                if (m.is_state) {
                    c.require(!is_late(k) || w >= 0, [&] { return "modifier " + std::to_string(k) + " was passed a site at " + str(e.pos[q]) + " which is not in the system"; });
                    auto want = w >= 0 ? alive[w] : 0;
                    c.require(e.state.size() == e.pos.size() && e.state[q] == want, [&] {
                        return "modifier " + std::to_string(k) + " was told that the site of " + e.name + " at " + str(e.pos[q]) + " is "
                               + (e.state[q] ? "valid" : "invalid") + ", which is not true";
                    });
                }
            }
            for (int q = 0; q < n; ++q) {
                c.require(sub_name(k, sites[q].uid) != e.name || met[q] || !alive[q], [&] { return "site of " + e.name + " at " + str(pos[q]) + " was not passed to modifier " + std::to_string(k); });
            }
            c.count("modifier_calls");
            c.count("positions_passed", static_cast<std::int64_t>(e.pos.size()));
        }
        for (int q = 0; q < n; ++q) {
            auto name = sub_name(k, sites[q].uid);
            c.require(gone[q] || called.count(name), [&] { return "modifier " + std::to_string(k) + " was not called for " + name; });
        }
        if (!m.is_state) {
            for (int q = 0; q < n; ++q) { pos[q] = m.move.at(lat.subs[sites[q].uid].name)(pos[q]); }
            continue;
        }
        for (auto q : m.off) { removed += alive[q]; alive[q] = 0; }
        for (auto q : m.on) { if (gone[q]) { continue; } restored += !alive[q]; alive[q] = 1; }
        if (m.min_neighbors <= 0) { continue; }
        for (bool changed = true; changed;) {
            changed = false;
            for (int q = 0; q < n; ++q) {
                if (!alive[q]) { continue; }
                int present = 0; bool missing = false;
                for_neighbours(lat, sites[q].c, sites[q].uid, [&](SiteKey key) {
                    for (int d = 0; d < lat.ndim(); ++d) {
                        if (period[d] > 0) { int w = (key.c[d] - start[d]) % period[d]; key.c[d] = start[d] + (w < 0 ? w + period[d] : w); }
                    }
                    auto it = idx.find(key);
                    if (it == idx.end()) { missing = missing || shaped; }
                    else if (alive[it->second]) { ++present; }
                    else { missing = true; }
                });
                if (missing && present < m.min_neighbors) { alive[q] = 0; changed = true; ++cleaned; }
            }
        }
    }
    c.require(ev == log->size(), [] { return std::string("modifiers were called more than once or not in the order added"); });

    std::vector<RSite> left;
    std::vector<ExpSite> exp;
    for (int q = 0; q < n; ++q) {
        if (!alive[q]) { continue; }
        left.push_back(sites[q]);
        exp.push_back({lat.fam_name(sites[q].uid), pos[q], lat.subs[sites[q].uid].norb()});
    }
    c.sig(left.size()); c.sig(static_cast<std::uint64_t>(nmod)); c.sig(static_cast<std::uint64_t>(cleaned));
    if (left.empty()) {
        c.require(!sys && error.find("0 sites") != std::string::npos, [&] { return "a system without sites: " + (sys ? "accepted" : error); });
        c.nontrivial = true;
        return;
    }
    c.require(static_cast<bool>(sys), [&] { return "building failed: " + error; });
    auto v = view(c, *sys);
    auto map = match_sites(c, *sys, v, exp, 4e-3);
    auto fam = match_families(c, sys->hopping_registry, lat);
    auto bonds = periodic ? periodic_bonds(lat, left, start, period) : finite_bonds(lat, left);
    std::vector<RBond> inner;
    for (auto const& b : bonds) { if (b.image.norm() < 1e-9) { inner.push_back(b); } }
    compare_bonds(c, observed_bonds(c, sys->hopping_blocks, static_cast<int>(sys->num_sites())), inner, map, fam);
    V3 k(0, 0, 0);
    if (periodic) {
        for (int d = 0; d < lat.ndim(); ++d) { k[d] = r.q(-2, 2); }
        model->set_wave_vector(cart(k));
    }
    auto h = observe(c, model->hamiltonian());
    compare(c, h, assemble(exp, lattice_onsite(lat, left), lattice_bonds(lat, bonds), map, v, k), periodic ? 3e-4 : 3e-5);
    c.require(model->system() == sys && ev == log->size(), [] { return std::string("the structure was built twice"); });
    c.count("sites_removed_by_modifiers", removed);
    c.count("sites_restored_by_modifiers", restored);
    c.count("sites_cleaned_up", cleaned);
    c.count(periodic ? "periodic_systems" : shaped ? "shaped_systems" : "primitive_systems");
    c.nontrivial = n > 1;
}

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C07";
    s.random_case = random_case;
    s.rule = "random finite or periodic model with 1-5 state modifiers (removing and restoring chosen sites, minimum neighbours 0-4) and "
             "position modifiers (per-family rotation, scaling and shift); every callback is logged and the log is replayed on the "
             "reference; non-trivial: more than one site to act on; distinct by lattice, size, survivors and cleaned-up sites";
    return main_suite(s, argc, argv);
}
