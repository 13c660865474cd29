// C14: lead Hamiltonians describe the infinite periodic continuation
#include "energy.hpp"
#include "lead_case.hpp"
using namespace mon;

static void random_case(Context& c) {
    auto& r = c.rng;
    LatOpt lo;
    lo.max_norb = r.p(0.5) ? 1 : 3;
    lo.complex = r.p(0.5);
    auto k = rand_lead_case(c, lo, r.i(1, 2));
    if (k.leads.empty()) { throw CaseSkipped{"no lead accepted"}; }
    auto const& lat = k.base.lat;
    auto m = k.model();

    // user functions of the energies
    std::vector<EnergyFn> fns;
    auto nmod = r.p(0.25) ? 0 : r.i(1, 4);
    auto cplx = r.p(0.3);
    bool need_complex = lat.has_complex(), need_double = false;
    auto asked = std::make_shared<bool>(false);
    // far away from the structure: asks for complex values only at a lead
    auto far_only = r.p(0.1);
    auto log = std::make_shared<EnergyLog>();
    CallHook hook = [=](EnergyFn const& f, bool real, std::string const& name) { if (real && f.dynamic && f.acts(name)) { *asked = true; } };
    for (int q = 0; q < nmod; ++q) {
        auto f = rand_energy_fn(r, lat, cplx);
        f.is_double = r.p(0.2);
        if (!f.is_complex && r.p(0.2)) { f.dynamic = true; if (f.onsite) { f.w = cd(r.q(-1, 1), r.q(-1, 1)); } }
        need_complex = need_complex || f.is_complex;
        need_double = need_double || f.is_double;
        c.note(f.describe());
        fns.push_back(f);
        add_energy(*m, f, q, log, hook);
    }
    std::set<std::string> lead_sites;
    if (far_only) {
        // complex onsite terms can't be Hermitian, but hoppings can: ask whenever the first position is not a system site
        auto all = std::make_shared<Finder>(k.sites);
        m->add(cpb::HoppingModifier([all, asked](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef p1, cpb::CartesianArrayConstRef, cpb::string_view) {
            EnergyView v(e);
            if (!v.real()) { return; }
            for (cpb::idx_t n = 0; n < p1.size(); ++n) {
                if (all->find(V3(p1.x()[n], p1.y()[n], p1.z()[n])) < 0) { *asked = true; throw cpb::ComplexOverride(); }
            }
        }));
        c.note("asks for complex values outside of the system");
    }
    if (r.p(0.5)) { m->hamiltonian(); }
    if (r.p(0.2)) { m->set_wave_vector({1, 2, 0}); }
    m->leads();
    auto main_ham = observe(c, m->hamiltonian());
    auto want_complex = need_complex || *asked;
    auto want = need_double ? (want_complex ? Num::cdb : Num::d) : (want_complex ? Num::cf : Num::f);
    c.require(main_ham.type == want, [&] { return std::string("the Hamiltonian is ") + num_name(main_ham.type) + ", its ingredients require " + num_name(want); });

    std::size_t entries = 0;
    for (std::size_t n = 0; n < k.leads.size(); ++n) {
        auto lead = m->lead(n);
        auto const& spec = k.leads[n];
        auto const& layer = k.layers[n];
        auto const& ls = lead.system();
        auto v = view(c, ls);
        c.require(static_cast<std::size_t>(ls.num_sites()) == layer.sites.size(), [&] { return spec.text + ": number of sites"; });
        auto fam = match_families(c, ls.hopping_registry, lat);
        std::vector<std::string> fname(lat.hops.size());
        for (std::size_t id = 0; id < fam.size(); ++id) { if (fam[id] >= 0) { fname[static_cast<std::size_t>(fam[id])] = ls.hopping_registry.name(cpb::HopID(static_cast<int>(id))); } }
        // true positions: of the lattice sites, one primitive vector outwards (as accurate as the positions themselves)
        V3 shift = spec.sign * lat.a[static_cast<std::size_t>(spec.axis)];
        std::vector<V3> pos;
        std::vector<ExpSite> exp;
        std::vector<int> id;
        for (std::size_t q = 0; q < layer.sites.size(); ++q) {
            V3 p(ls.positions.x[static_cast<cpb::idx_t>(q)], ls.positions.y[static_cast<cpb::idx_t>(q)], ls.positions.z[static_cast<cpb::idx_t>(q)]);
            c.require((p - layer.sites[q].pos - shift).norm() < 4e-3, [&] { return spec.text + ": position of site " + std::to_string(q); });
            pos.push_back(p);
            exp.push_back({lat.fam_name(layer.sites[q].uid), p, lat.subs[static_cast<std::size_t>(layer.sites[q].uid)].norb()});
            id.push_back(static_cast<int>(q));
        }
        auto apply = [&](bool onsite, std::string const& name, V3 const& p1, V3 const& p2, MX t) {
            for (auto const& f : fns) {
                if (f.onsite != onsite) { continue; }
                for (int i = 0; i < t.rows(); ++i) for (int j = 0; j < t.cols(); ++j) { t(i, j) = f(name, p1, p2, t(i, j), i, j); }
            }
            return t;
        };
        std::vector<MX> os;
        for (std::size_t q = 0; q < layer.sites.size(); ++q) { os.push_back(apply(true, exp[q].family, pos[q], pos[q], lat.subs[static_cast<std::size_t>(layer.sites[q].uid)].e)); }
        std::vector<ExpBond> hb;
        for (auto const& b : finite_bonds(lat, layer.sites)) {
            auto const& h = lat.hops[static_cast<std::size_t>(b.fam)];
            hb.push_back({b.i, b.j, apply(false, fname[static_cast<std::size_t>(b.fam)], pos[static_cast<std::size_t>(b.i)], pos[static_cast<std::size_t>(b.j)], h.t), V3(0, 0, 0), ""});
        }
        auto h0 = observe(c, lead.h0());
        c.require(h0.type == want, [&] { return spec.text + ": the lead is " + num_name(h0.type) + ", the main Hamiltonian is " + num_name(want); });
        auto tol = (want == Num::f || want == Num::cf) ? 1e-4 : 1e-6;
        compare(c, h0, assemble(exp, os, hb, id, v, V3(0, 0, 0)), tol, spec.text + " h0");
        check_hermitian(c, h0, spec.text + " h0");

        RHam r1;
        r1.size = v.ham_size;
        auto bonds = layer_bonds(lat, layer, spec.axis, spec.sign);
        for (auto const& b : bonds) {
            auto const& h = lat.hops[static_cast<std::size_t>(b.fam)];
            auto o = static_cast<std::size_t>(b.outer), i = static_cast<std::size_t>(b.inner);
            V3 inner = pos[i] - shift;
            MX t = b.reversed ? MX(apply(false, fname[static_cast<std::size_t>(b.fam)], inner, pos[o], h.t).adjoint())
                              : apply(false, fname[static_cast<std::size_t>(b.fam)], pos[o], inner, h.t);
            for (int x = 0; x < t.rows(); ++x) for (int y = 0; y < t.cols(); ++y) { r1.add(v.orb_start[o] + x, v.orb_start[i] + y, t(x, y)); }
            c.count(b.reversed ? "reversed_layer_bonds" : "direct_layer_bonds");
        }
        auto h1 = observe(c, lead.h1());
        c.require(h1.type == want, [&] { return spec.text + ": the coupling is " + num_name(h1.type) + ", the main Hamiltonian is " + num_name(want); });
        compare(c, h1, r1, tol, spec.text + " h1");
        entries += h0.entries.size() + h1.entries.size();
        c.sig(bonds.size()); c.sig(layer.sites.size());
    }
    c.count("leads_compared", static_cast<std::int64_t>(k.leads.size()));
    c.count("matrix_entries_compared", static_cast<std::int64_t>(entries));
    if (*asked) { c.count("switched_to_complex"); }
    c.seen("number_types", static_cast<std::uint64_t>(want));
    c.sig(static_cast<std::uint64_t>(want)); c.sig(static_cast<std::uint64_t>(nmod));
    c.nontrivial = entries > 1;
}

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C14";
    s.random_case = random_case;
    s.rule = "random structure with 1-2 leads and 0-4 energy functions (real, complex, double, asking for complex values anywhere or only outside "
             "of the system): h0, h1 and number types compared with the reference; non-trivial: more than one matrix entry";
    return main_suite(s, argc, argv);
}
