// C12: site indices, family ranges and orbital indices are mutually consistent
#include "lead_case.hpp"
#include "periodic_case.hpp"
using namespace mon;

namespace {

struct World {
    Finder finder;
    std::vector<std::string> fam;
    std::vector<int> norb;
    void add(V3 const& p, std::string const& f, int n) { finder.add(p); fam.push_back(f); norb.push_back(n); }
};

template<class F> bool refuses(F f) {
    try { f(); } catch (std::exception const&) { return true; }
    return false;
}

} // namespace

/// Everything C12 says about one system. `world` may be null (positions of unknown origin).
static void judge(Context& c, cpb::System const& s, cpb::Hamiltonian const* h, World const* world, V3 const& spread) {
    auto& r = c.rng;
    auto n = s.num_sites();
    // what family does each site belong to, from where it is
    std::vector<std::string> fam;
    std::vector<int> norb;
    auto v = view(c, s);
    for (cpb::idx_t k = 0; k < n; ++k) {
        V3 p(s.positions.x[k], s.positions.y[k], s.positions.z[k]);
        if (world) {
            auto w = world->finder.find(p);
            c.require(w >= 0, [&] { return "site " + std::to_string(k) + " is at " + str(p) + " where no site was asked for"; });
            fam.push_back(world->fam[static_cast<std::size_t>(w)]);
            norb.push_back(world->norb[static_cast<std::size_t>(w)]);
        } else {
            fam.push_back(v.family[static_cast<std::size_t>(k)]);
            norb.push_back(v.norb[static_cast<std::size_t>(k)]);
        }
    }
    // ranges
    std::vector<int> owner(static_cast<std::size_t>(n), 0);
    auto const& names = s.site_registry.name_map();
    auto empties = 0;
    for (auto const& p : names) {
        std::vector<int> want;
        for (cpb::idx_t k = 0; k < n; ++k) { if (fam[static_cast<std::size_t>(k)] == p.first) { want.push_back(static_cast<int>(k)); } }
        cpb::Range g{0, 0};
        auto threw = refuses([&] { g = s.sublattice_range(p.first); });
        if (want.empty()) {
            ++empties;
            c.require(threw || g.start == g.end, [&] { return "family " + p.first + " has no sites, its range is " + std::to_string(g.start) + ".." + std::to_string(g.end); });
            continue;
        }
        c.require(!threw, [&] { return "family " + p.first + " has sites but no range"; });
        c.require(g.start == want.front() && g.end == want.back() + 1 && static_cast<std::size_t>(g.end - g.start) == want.size(), [&] {
            return "family " + p.first + " has " + std::to_string(want.size()) + " sites from " + std::to_string(want.front()) + " to " + std::to_string(want.back()) + ", its range is " + std::to_string(g.start) + ".." + std::to_string(g.end);
        });
        for (auto k : want) { ++owner[static_cast<std::size_t>(k)]; }
        c.count("family_ranges_checked");
    }
    for (cpb::idx_t k = 0; k < n; ++k) { c.require(owner[static_cast<std::size_t>(k)] == 1, [&] { return "site " + std::to_string(k) + " is in " + std::to_string(owner[static_cast<std::size_t>(k)]) + " family ranges"; }); }
    c.count("families_without_sites", empties);
    {
        auto g = s.sublattice_range("");
        c.require(g.start == 0 && g.end == n, [&] { return std::string("the range of all families is not the whole system"); });
    }
    // the list of families the user reads
    auto const& d = s.compressed_sublattices.decompressed();
    c.require(d.size() == n, [&] { return "the decompressed family list has " + std::to_string(d.size()) + " elements for " + std::to_string(n) + " sites"; });
    for (cpb::idx_t k = 0; k < n; ++k) {
        auto it = names.find(fam[static_cast<std::size_t>(k)]);
        c.require(it != names.end() && it->second == d[k], [&] { return "site " + std::to_string(k) + " of family " + fam[static_cast<std::size_t>(k)] + " is listed with id " + std::to_string(d[k]); });
    }
    c.require(s.compressed_sublattices.decompressed_size() == n, [&] { return std::string("wrong decompressed size"); });

    // orbitals
    auto at = 0;
    for (cpb::idx_t k = 0; k < n; ++k) {
        auto idx = s.to_hamiltonian_indices(k);
        c.require(idx.size() == norb[static_cast<std::size_t>(k)], [&] { return "site " + std::to_string(k) + " has " + std::to_string(idx.size()) + " orbitals, expected " + std::to_string(norb[static_cast<std::size_t>(k)]); });
        for (cpb::idx_t q = 0; q < idx.size(); ++q) {
            c.require(idx[q] == at, [&] { return "orbital " + std::to_string(q) + " of site " + std::to_string(k) + " has Hamiltonian index " + std::to_string(idx[q]) + ", expected " + std::to_string(at); });
            ++at;
        }
    }
    c.count("orbital_indices_checked", at);
    c.require(s.hamiltonian_size() == at, [&] { return "Hamiltonian size " + std::to_string(s.hamiltonian_size()) + " for " + std::to_string(at) + " orbitals"; });
    for (auto bad : {cpb::idx_t{-1}, n, n + 1, static_cast<cpb::idx_t>(n + r.i(2, 1000000))}) {
        c.require(refuses([&] { s.to_hamiltonian_indices(bad); }), [&] { return "orbital indices were given for site " + std::to_string(bad) + " of " + std::to_string(n); });
    }
    auto e = s.expanded_positions();
    c.require(e.x.size() == at && e.y.size() == at && e.z.size() == at, [&] { return "per-orbital positions: " + std::to_string(e.x.size()) + ", expected " + std::to_string(at); });
    for (cpb::idx_t k = 0, q = 0; k < n; ++k) {
        for (auto z = 0; z < norb[static_cast<std::size_t>(k)]; ++z, ++q) {
            c.require(e.x[q] == s.positions.x[k] && e.y[q] == s.positions.y[k] && e.z[q] == s.positions.z[k], [&] { return "the position of orbital " + std::to_string(q) + " is not that of its site " + std::to_string(k); });
        }
    }
    if (h) {
        c.require(h->rows() == at && h->cols() == at, [&] { return "the Hamiltonian is " + std::to_string(h->rows()) + "x" + std::to_string(h->cols()) + " for " + std::to_string(at) + " orbitals"; });
        if (s.boundaries.empty()) {
            c.require(s.hamiltonian_nnz() >= h->non_zeros(), [&] { return "predicted " + std::to_string(s.hamiltonian_nnz()) + " non-zeros, the Hamiltonian has " + std::to_string(h->non_zeros()); });
            c.count("nonzero_predictions_checked");
        }
    }

    // nearest site
    V3 lo(0, 0, 0), hi(0, 0, 0);
    for (cpb::idx_t k = 0; k < n; ++k) {
        V3 p(s.positions.x[k], s.positions.y[k], s.positions.z[k]);
        if (k == 0) { lo = hi = p; }
        lo = lo.cwiseMin(p); hi = hi.cwiseMax(p);
    }
    std::vector<std::string> ask{""};
    for (auto const& p : names) { ask.push_back(p.first); }
    for (auto const& name : ask) {
        for (int t = 0; t < 4; ++t) {
            V3 q;
            auto kind = r.i(0, 3);
            if (kind == 0 && n > 0) { // on a site
                auto k = r.i(0, static_cast<int>(n) - 1);
                q = V3(s.positions.x[k], s.positions.y[k], s.positions.z[k]);
            } else if (kind == 1) { q = V3(r.u(-50, 50), r.u(-50, 50), r.u(-50, 50)); }
            else { for (int z = 0; z < 3; ++z) { q[z] = r.u(lo[z] - spread[z], hi[z] + spread[z]); } }
            auto qc = cart(q);
            double best = 1e300;
            auto any = false;
            for (cpb::idx_t k = 0; k < n; ++k) {
                if (!name.empty() && fam[static_cast<std::size_t>(k)] != name) { continue; }
                any = true;
                V3 p(s.positions.x[k], s.positions.y[k], s.positions.z[k]);
                best = std::min(best, (p - v3(qc)).norm());
            }
            cpb::idx_t got = -7;
            auto threw = refuses([&] { got = s.find_nearest(qc, name); });
            if (!any) {
                c.require(threw, [&] { return "there is no site of family '" + name + "', yet site " + std::to_string(got) + " was returned as the nearest one"; });
                c.count("nearest_queries_refused");
                continue;
            }
            c.require(!threw, [&] { return "a nearest-site query for family '" + name + "' was refused"; });
            c.require(got >= 0 && got < n, [&] { return "the nearest site is " + std::to_string(got) + " of " + std::to_string(n); });
            c.require(name.empty() || fam[static_cast<std::size_t>(got)] == name, [&] { return "the nearest site of family " + name + " is one of " + fam[static_cast<std::size_t>(got)]; });
            auto dist = (V3(s.positions.x[got], s.positions.y[got], s.positions.z[got]) - v3(qc)).norm();
            c.require(dist <= best + 1e-4 * (1 + best), [&] { return "site " + std::to_string(got) + " at distance " + str(dist) + " of " + str(q) + " returned for family '" + name + "', the nearest is at " + str(best); });
            c.count("nearest_queries_compared");
        }
    }
    // unknown names: near misses included
    std::vector<std::string> unknown{"no such family", " ", "_", "a"};
    for (auto const& p : names) { unknown.push_back(p.first + "x"); unknown.push_back(p.first + " "); if (p.first.size() > 1) { unknown.push_back(p.first.substr(0, p.first.size() - 1)); } }
    for (auto const& u : unknown) {
        if (names.count(u)) { continue; }
        c.require(refuses([&] { s.sublattice_range(u); }), [&] { return "the unknown family '" + u + "' has a range"; });
        c.require(refuses([&] { s.find_nearest({0, 0, 0}, u); }), [&] { return "a nearest site was found for the unknown family '" + u + "'"; });
        c.count("unknown_names_refused");
    }
    c.sig(static_cast<std::uint64_t>(n));
    c.sig(static_cast<std::uint64_t>(at));
    c.seen("family_layouts", [&] { std::uint64_t g = 1; for (auto const& sub : s.compressed_sublattices) { g = hash64(g, static_cast<std::uint64_t>(sub.num_sites() * 64 + sub.num_orbitals() * 8 + sub.id().value())); } return g; }());
}

static void random_case(Context& c) {
    auto& r = c.rng;
    LatOpt lo;
    lo.max_sub = r.p(0.3) ? 6 : 4;
    lo.max_norb = r.p(0.3) ? 1 : 4;
    std::unique_ptr<cpb::Model> model;
    RLat lat;
    std::vector<RSite> base;
    if (r.p(0.3)) {
        auto p = rand_periodic(c, lo);
        if (p.any_window_empty()) { throw CaseSkipped{"empty period"}; }
        lat = p.lat; base = p.all;
        model = p.model();
    } else {
        FiniteOpt fo; fo.lat = lo; fo.target_sites = r.p(0.7) ? 60 : 300;
        auto f = rand_finite(c, fo);
        if (f.sites.empty()) { throw CaseSkipped{"empty system"}; }
        lat = f.lat; base = f.sites;
        model = f.model();
    }
    if (lat.crowded) { throw CaseSkipped{"sites which can't be told apart"}; }
    World w;
    for (auto const& s : base) { w.add(s.pos, lat.fam_name(s.uid), lat.subs[static_cast<std::size_t>(s.uid)].norb()); }
    // the finder has to tell the sites of the block apart
    auto nops = r.i(0, 4);
    auto prob = r.p(0.5) ? 0.15 : r.p(0.6) ? 0.6 : 0.97;
    auto whole = r.p(0.3) ? r.pick(lat.subs).name : std::string(); // remove a whole family
    auto generated = 0;
    std::vector<std::string> gen_names;
    for (int k = 0; k < nops; ++k) {
        auto kind = r.i(0, 2);
        auto salt = r.next();
        if (kind == 0) {
            c.note("vacancies" + str(prob) + whole);
            model->add(cpb::SiteStateModifier([salt, prob, whole](Eigen::Ref<cpb::ArrayX<bool>> state, cpb::CartesianArrayConstRef pos, cpb::string_view sub) {
                for (cpb::idx_t n = 0; n < state.size(); ++n) {
                    auto key = hash64(hash64(salt, static_cast<std::uint64_t>(std::llround(pos.x()[n] * 100 + 1e6))), static_cast<std::uint64_t>(std::llround(pos.y()[n] * 100 + 1e6)));
                    if (!whole.empty() ? std::string(sub) == whole : static_cast<double>(key % 1000) < 1000 * prob) { state[n] = false; }
                }
            }, generated == 0 && r.p(0.3) ? r.i(0, 2) : 0));
        } else if (kind == 1) {
            auto name = "g" + std::to_string(k) + (r.p(0.3) ? "A" : "");
            auto norb = r.i(1, 4);
            auto cnt = r.i(0, 3) == 0 ? 0 : r.i(1, 12);
            std::vector<V3> at;
            for (int q = 0; q < cnt; ++q) { V3 p(100 + 10 * k + 0.25 * q, r.q(-3, 3), r.q(-3, 3)); at.push_back(p); w.add(p, name, norb); }
            ++generated;
            gen_names.push_back(name);
            c.note("generator " + name + "x" + std::to_string(norb) + " " + std::to_string(cnt) + " sites");
            model->add(cpb::SiteGenerator(name, to_cpb(rand_hermitian(r, norb, false, 0)), [at](cpb::System const&) {
                cpb::CartesianArray a(static_cast<cpb::idx_t>(at.size()));
                for (std::size_t q = 0; q < at.size(); ++q) { a[static_cast<cpb::idx_t>(q)] = cart(at[q]); }
                return a;
            }));
        } else {
            auto name = "h" + std::to_string(k);
            ++generated;
            auto rows = r.i(1, 3), cols = r.i(1, 3);
            MX t(rows, cols);
            for (int a = 0; a < rows; ++a) for (int b = 0; b < cols; ++b) { t(a, b) = rand_c(r, false); }
            c.note("hoppings " + name);
            model->add(cpb::HoppingGenerator(name, to_cpb(t), [salt, rows, cols](cpb::System const& s) {
                Rng q(salt);
                std::vector<int> a, b;
                for (auto const& sub : s.compressed_sublattices) for (auto k2 = sub.sys_start(); k2 < sub.sys_end(); ++k2) {
                    if (sub.num_orbitals() == rows) { a.push_back(static_cast<int>(k2)); }
                    if (sub.num_orbitals() == cols) { b.push_back(static_cast<int>(k2)); }
                }
                std::vector<std::pair<int, int>> pairs;
                if (!a.empty() && !b.empty()) {
                    for (int z = q.i(0, 10); z > 0; --z) { auto i = q.pick(a), j = q.pick(b); if (i != j) { pairs.emplace_back(i, j); } }
                }
                cpb::HoppingGenerator::Result res;
                res.from.resize(static_cast<int>(pairs.size())); res.to.resize(static_cast<int>(pairs.size()));
                for (std::size_t z = 0; z < pairs.size(); ++z) { res.from[static_cast<int>(z)] = pairs[z].first; res.to[static_cast<int>(z)] = pairs[z].second; }
                return res;
            }));
        }
        c.sig(static_cast<std::uint64_t>(kind));
    }
    std::shared_ptr<cpb::System const> sys;
    cpb::Hamiltonian h;
    try { sys = model->system(); } catch (std::runtime_error const& e) {
        auto what = std::string(e.what());
        if (what.find("0 sites") == std::string::npos) { throw; }
        c.count("models_refused_as_empty");
        throw CaseSkipped{"no sites left"};
    }
    h = model->hamiltonian();
    V3 spread(2, 2, 2);
    judge(c, *sys, &h, &w, spread);
    c.count(generated ? "systems_with_generators" : "systems_without_generators");
    if (!sys->boundaries.empty()) { c.count("periodic_systems"); }
    c.nontrivial = sys->num_sites() > 1;
}

/// The main system of a model with leads and the layer system of each lead
static void lead_random(Context& c) {
    LatOpt lo;
    lo.max_norb = c.rng.p(0.4) ? 1 : 3;
    auto k = rand_lead_case(c, lo, c.rng.i(1, 2));
    if (k.leads.empty() || k.sites.empty() || k.base.lat.crowded) { throw CaseSkipped{"no lead"}; }
    auto model = k.model();
    World w;
    for (auto const& s : k.sites) { w.add(s.pos, k.base.lat.fam_name(s.uid), k.base.lat.subs[static_cast<std::size_t>(s.uid)].norb()); }
    auto sys = model->system();
    auto h = model->hamiltonian();
    judge(c, *sys, &h, &w, V3(2, 2, 2));
    auto const& leads = model->leads();
    for (int q = 0; q < leads.size(); ++q) {
        auto const lead = leads[static_cast<std::size_t>(q)];
        auto h0 = lead.h0();
        judge(c, lead.system(), nullptr, nullptr, V3(2, 2, 2));
        c.require(h0.rows() == lead.system().hamiltonian_size(), [] { return std::string("the lead Hamiltonian does not have one row per orbital"); });
        c.count("lead_systems");
    }
    c.nontrivial = true;
}

static void any_case(Context& c) {
    if (c.rng.p(0.15)) { lead_random(c); } else { random_case(c); }
}

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C12";
    s.random_case = any_case;
    s.rule = "random finite and periodic models with vacancies, emptied families, site and hopping generators; every family range, orbital index, per-orbital position and nearest-site answer is judged from the known position of each site";
    return main_suite(s, argc, argv);
}
