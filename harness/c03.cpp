// C03: every lattice bond between existing sites, exactly once
#include "build_case.hpp"
using namespace mon;

static void random_case(Context& c) {
    auto& r = c.rng;
    FiniteOpt o;
    if (r.p(0.03)) { o.target_sites = 1500; }
    else if (r.p(0.3)) { o.target_sites = 40; }
    o.lat.max_fam = 5;
    o.lat.max_terms = 6;
    o.lat.max_rel = r.p(0.2) ? 4 : 2;
    auto f = rand_finite(c, o);
    if (f.sites.empty()) { throw CaseSkipped{"no sites"}; }
    auto m = f.model();

    auto sites = f.sites;
    std::set<int> gone;
    auto finder = std::make_shared<Finder>(f.sites);
    if (r.p(0.4) && sites.size() > 2) { // vacancies
        auto n = r.i(1, std::max(1, static_cast<int>(sites.size()) / 4));
        for (int k = 0; k < n; ++k) { gone.insert(r.i(0, static_cast<int>(sites.size()) - 1)); }
        m->add(cpb::SiteStateModifier([gone, finder](Eigen::Ref<cpb::ArrayX<bool>> state, cpb::CartesianArrayConstRef pos, cpb::string_view) {
            for (cpb::idx_t k = 0; k < pos.size(); ++k) {
                auto w = finder->find(V3(pos.x()[k], pos.y()[k], pos.z()[k]));
                if (w >= 0 && gone.count(w)) { state[k] = false; }
            }
        }));
        std::vector<RSite> kept;
        for (std::size_t k = 0; k < sites.size(); ++k) { if (!gone.count(static_cast<int>(k))) { kept.push_back(sites[k]); } }
        sites = kept;
        c.note(" vacancies:" + std::to_string(gone.size()));
        c.count("systems_with_vacancies");
    }
    if (sites.empty()) { throw CaseSkipped{"no sites"}; }

    auto s = m->system();
    auto v = view(c, *s);
    auto map = match_sites(c, *s, v, expected_sites(f.lat, sites));
    auto bonds = finite_bonds(f.lat, sites);
    auto fam = match_families(c, s->hopping_registry, f.lat);
    auto obs = observed_bonds(c, s->hopping_blocks, static_cast<int>(s->num_sites()));
    compare_bonds(c, obs, bonds, map, fam);
    c.require(s->hopping_blocks.nnz() == static_cast<cpb::idx_t>(bonds.size()), [&] { return "bond count reported as " + std::to_string(s->hopping_blocks.nnz()) + ", expected " + std::to_string(bonds.size()); });
    c.require(s->boundaries.empty(), [] { return std::string("finite system has periodic boundaries"); });
    // neighbours per site, both directions
    auto nb = s->hopping_blocks.count_neighbors();
    std::vector<int> want(sites.size(), 0);
    for (auto const& b : bonds) { ++want[map[b.i]]; ++want[map[b.j]]; }
    c.require(nb.size() == static_cast<cpb::idx_t>(sites.size()), [] { return std::string("neighbour count has the wrong length"); });
    for (std::size_t k = 0; k < sites.size(); ++k) {
        c.require(nb[k] == want[k], [&] { return "site " + std::to_string(k) + " reports " + std::to_string(nb[k]) + " neighbours, expected " + std::to_string(want[k]); });
    }
    for (auto const& h : f.lat.hops) for (auto const& t : h.terms) {
        int range = 0;
        for (int x : t.d) { range = std::max(range, std::abs(x)); }
        c.count("terms_of_range_" + std::to_string(range));
    }
    c.sig(bonds.size());
    c.nontrivial = bonds.size() > 1;
}

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C03";
    s.random_case = random_case;
    s.rule = "random lattice (hopping range up to 4 cells, several terms per family, aliases) in a random block or shape, with and "
             "without vacancies; non-trivial: more than one bond expected; distinct by lattice topology, sites and bonds";
    return main_suite(s, argc, argv);
}
