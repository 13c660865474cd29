// C13: leads attach to real edge sites and extend the structure lattice-periodically
#include "lead_case.hpp"
using namespace mon;

static void judge_structure(Context& c, LeadCase const& k, cpb::Model const& m, std::vector<RSite> const& sites, std::vector<ExpSite> const& extra) {
    auto const& sys = *m.system();
    auto v = view(c, sys);
    auto exp = expected_sites(k.base.lat, sites);
    exp.insert(exp.end(), extra.begin(), extra.end());
    auto map = match_sites(c, sys, v, exp, 4e-3);
    auto fam = match_families(c, sys.hopping_registry, k.base.lat);
    map.resize(sites.size());
    compare_bonds(c, observed_bonds(c, sys.hopping_blocks, static_cast<int>(sys.num_sites())), finite_bonds(k.base.lat, sites), map, fam);
    for (std::size_t n = 0; n < k.leads.size(); ++n) {
        auto lead = m.lead(n);
        auto const& layer = k.layers[n];
        c.require(lead.indices().size() == layer.sites.size(), [&] { return k.leads[n].text + ": size changed"; });
        std::map<SiteKey, int> where;
        for (std::size_t q = 0; q < sites.size(); ++q) { where[{sites[q].c, sites[q].uid}] = map[q]; }
        for (std::size_t q = 0; q < layer.sites.size(); ++q) {
            auto it = where.find({layer.sites[q].c, layer.sites[q].uid});
            c.require(it != where.end() && it->second == lead.indices()[q], [&] {
                return k.leads[n].text + ": lead site " + std::to_string(q) + " is connected to system site " + std::to_string(lead.indices()[q]) + " instead of the one beneath it";
            });
        }
        auto const& ls = lead.system();
        auto size = static_cast<int>(ls.num_sites());
        c.require(ls.hopping_blocks.get_num_sites() == size, [&] { return k.leads[n].text + ": the bond list is for " + std::to_string(ls.hopping_blocks.get_num_sites()) + " sites"; });
        std::vector<int> id(layer.sites.size());
        for (std::size_t q = 0; q < id.size(); ++q) { id[q] = static_cast<int>(q); }
        auto lfam = match_families(c, ls.hopping_registry, k.base.lat);
        compare_bonds(c, observed_bonds(c, ls.hopping_blocks, size), finite_bonds(k.base.lat, layer.sites), id, lfam, "bond list of a lead");
        // between the layers: every bond once, in either direction
        std::multiset<std::tuple<int, int, int>> want, got;
        for (auto const& b : layer_bonds(k.base.lat, layer, k.leads[n].axis, k.leads[n].sign)) {
            want.insert(std::make_tuple(b.outer, b.inner, b.fam));
        }
        V3 shift = k.leads[n].sign * k.base.lat.a[static_cast<std::size_t>(k.leads[n].axis)];
        for (auto const& bd : ls.boundaries) {
            auto outward = (v3(bd.shift) - shift).norm() < 4e-3;
            c.require(outward || (v3(bd.shift) + shift).norm() < 4e-3, [&] { return k.leads[n].text + ": boundary shifted by " + str(v3(bd.shift)); });
            for (auto const& b : observed_bonds(c, bd.hopping_blocks, size)) {
                auto f = lfam[static_cast<std::size_t>(b.fam)];
                got.insert(outward ? std::make_tuple(b.i, b.j, f) : std::make_tuple(b.j, b.i, f));
            }
        }
        c.require(want == got, [&] { return k.leads[n].text + ": " + std::to_string(got.size()) + " bonds between unit cells of the lead, expected " + std::to_string(want.size()) + (want.size() == got.size() ? " different ones" : ""); });
        c.count("lead_bonds_compared", static_cast<std::int64_t>(want.size()));
    }
}

static void random_case(Context& c) {
    auto& r = c.rng;
    LatOpt lo;
    lo.max_norb = r.p(0.6) ? 1 : 3;
    auto k = rand_lead_case(c, lo, r.i(1, 4));
    auto m = k.model();
    m->eval();
    judge_structure(c, k, *m, k.sites, {});
    // the first leads must not notice the later ones
    c.count("leads_attached", static_cast<std::int64_t>(k.leads.size()));
    c.count("sites_filled_in", k.filled);

    // directions which don't exist
    if (r.p(0.1)) {
        for (auto d : {0, k.base.lat.ndim() + 1, -k.base.lat.ndim() - 1, 7}) {
            bool refused = false;
            try { m->attach_lead(d, k.leads.empty() ? cpb::Shape() : k.leads[0].shape); } catch (std::logic_error const&) { refused = true; }
            c.require(refused, [&] { return "lead direction " + std::to_string(d) + " was accepted"; });
        }
        judge_structure(c, k, *m, k.sites, {});
        c.count("bad_directions_refused");
    }

    // generated sites, and sites removed after that
    if (!k.leads.empty() && r.p(0.5)) {
        std::set<SiteKey> partners;
        for (auto const& l : k.layers) for (auto const& s : l.sites) { partners.insert({s.c, s.uid}); }
        std::vector<RSite> left, gone;
        auto careful = r.p(0.8);
        auto prob = r.u(0, 0.4);
        bool hit = false;
        for (auto const& s : k.sites) {
            auto p = partners.count({s.c, s.uid}) > 0;
            if (r.p(prob) && !(careful && p)) { gone.push_back(s); hit = hit || p; } else { left.push_back(s); }
        }
        auto m2 = k.model();
        auto made = r.i(0, 3);
        std::vector<ExpSite> extra;
        for (int q = 0; q < made; ++q) { extra.push_back({"G", V3(100 + 2 * q, 50, 0), 1}); }
        auto late = r.p(0.3);
        auto gen = cpb::SiteGenerator("G", cpb::MatrixXcd::Constant(1, 1, 0.5), [extra](cpb::System const&) {
            cpb::CartesianArray a(static_cast<cpb::idx_t>(extra.size()));
            for (std::size_t q = 0; q < extra.size(); ++q) { a[static_cast<cpb::idx_t>(q)] = cart(extra[q].pos); }
            return a;
        });
        m2->add(gen);
        auto parts = r.i(1, 2); // removed at once or in two steps
        for (int part = 0; part < parts; ++part) {
            std::vector<RSite> some;
            for (std::size_t q = 0; q < gone.size(); ++q) { if (static_cast<int>(q) % parts == part) { some.push_back(gone[q]); } }
            auto f = std::make_shared<Finder>(some);
            m2->add(cpb::SiteStateModifier([f](Eigen::Ref<cpb::ArrayX<bool>> st, cpb::CartesianArrayConstRef p, cpb::string_view name) {
                if (name == "G") { return; }
                for (cpb::idx_t q = 0; q < p.size(); ++q) { if (f->find(V3(p.x()[q], p.y()[q], p.z()[q])) >= 0) { st[q] = false; } }
            }));
            if (late) {
                m2->add(cpb::HoppingGenerator("hop" + std::to_string(part), 1.0, [](cpb::System const&) { return cpb::HoppingGenerator::Result{cpb::ArrayXi(0), cpb::ArrayXi(0)}; }));
            }
        }
        c.note("generated " + std::to_string(made) + ", removed after that " + std::to_string(gone.size()));
        std::string err;
        try { m2->eval(); } catch (std::runtime_error const& x) { err = x.what(); }
        if (hit) {
            c.require(!err.empty(), [&] { return std::string("sites connected to a lead were removed without any error"); });
            c.count("removed_partner_refused");
        } else if (left.empty() && made == 0) {
            c.require(!err.empty(), [&] { return std::string("a system without sites was accepted"); });
        } else {
            c.require(err.empty(), [&] { return "evaluation failed: " + err; });
            judge_structure(c, k, *m2, left, extra);
            c.count("checked_after_generators");
        }
    }
    c.sig(k.leads.size()); c.sig(k.sites.size()); c.sig(static_cast<std::uint64_t>(k.filled)); c.sig(static_cast<std::uint64_t>(k.refused));
    for (auto const& l : k.layers) { c.sig(l.sites.size()); }
    c.nontrivial = !k.leads.empty();
}

/// A 1D lattice has no room for leads
static void one_dimension(Context& c) {
    cpb::Lattice l({1, 0, 0});
    l.add_sublattice("A", {0, 0, 0});
    cpb::Model m(l, cpb::Primitive(4));
    bool refused = false;
    try { m.attach_lead(1, cpb::Line({0, 0, 0}, {1, 0, 0})); } catch (std::logic_error const&) { refused = true; }
    c.check(refused, "a lead was attached to a 1D lattice");
    c.check(m.leads().size() == 0, "a refused lead was kept");
    c.nontrivial = true;
}

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C13";
    s.random_case = random_case;
    s.pinned = {{"one_dimension", one_dimension}};
    s.rule = "random 2D/3D structure (with vacancies) and 1-4 leads of random direction and shape attached one by one; each lead, the filled in "
             "structure and all bonds are compared with the reference; then generated sites and removals after that; non-trivial: at least one lead accepted";
    return main_suite(s, argc, argv);
}
