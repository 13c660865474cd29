// C04: the Hamiltonian is the tight-binding matrix and is Hermitian
#include "build_case.hpp"
#include <limits>
using namespace mon;

static void random_case(Context& c) {
    auto& r = c.rng;
    FiniteOpt o;
    o.lat.max_norb = r.p(0.3) ? 5 : 3;
    o.lat.max_sub = r.p(0.3) ? 5 : 3;
    if (r.p(0.02)) { o.target_sites = 1200; }
    else if (r.p(0.4)) { o.target_sites = 40; }
    auto f = rand_finite(c, o);
    if (f.sites.empty()) { throw CaseSkipped{"no sites"}; }
    auto bonds = finite_bonds(f.lat, f.sites);

    if (r.p(0.05)) { // an energy which cannot be represented has to be refused
        double bad[] = {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
                        std::numeric_limits<double>::quiet_NaN(), 1e200};
        auto x = bad[r.i(0, 3)];
        auto& lat = f.lat;
        bool used = false;
        if (!bonds.empty() && r.p(0.6)) {
            auto fam = bonds[static_cast<std::size_t>(r.i(0, static_cast<int>(bonds.size()) - 1))].fam;
            auto& t = lat.hops[fam].t;
            t(r.i(0, static_cast<int>(t.rows()) - 1), r.i(0, static_cast<int>(t.cols()) - 1)) = x;
            used = true;
        } else {
            auto uid = f.sites[static_cast<std::size_t>(r.i(0, static_cast<int>(f.sites.size()) - 1))].uid;
            auto fam = lat.subs[uid].fam;
            auto k = r.i(0, lat.subs[fam].norb() - 1);
            for (auto& sub : lat.subs) { if (sub.fam == fam) { sub.e(k, k) = x; } }
            used = true;
        }
        std::string error;
        try {
            auto m = f.model();
            m->hamiltonian();
        } catch (std::exception const& e) { error = e.what(); }
        c.require(used && !error.empty(), [&] { return "a model with the energy " + str(x) + " was accepted"; });
        c.count("unrepresentable_energies_refused");
        c.sig(77);
        c.nontrivial = true;
        return;
    }

    auto m = f.model();
    auto s = m->system();
    auto v = view(c, *s);
    auto exp = expected_sites(f.lat, f.sites);
    auto map = match_sites(c, *s, v, exp);
    auto want = assemble(exp, lattice_onsite(f.lat, f.sites), lattice_bonds(f.lat, bonds), map, v);
    auto h = observe(c, m->hamiltonian());
    compare(c, h, want, tol_for(h.type));
    check_hermitian(c, h);
    auto cplx = f.lat.has_complex();
    c.require(h.type == (cplx ? Num::cf : Num::f), [&] { return std::string("unexpected number type ") + num_name(h.type); });
    c.seen("number_types", static_cast<std::uint64_t>(h.type));
    if (f.lat.multiorbital()) { c.count("multi_orbital_systems"); }
    for (auto const& b : bonds) { if (f.lat.hops[b.fam].t.rows() != f.lat.hops[b.fam].t.cols()) { c.count("rectangular_bonds"); break; } }
    c.sig(want.v.size());
    c.sig(static_cast<std::uint64_t>(h.type));
    c.nontrivial = want.v.size() > 1;
}

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C04";
    s.random_case = random_case;
    s.rule = "random lattice with scalar/vector/triangular/Hermitian onsite terms and rectangular complex hoppings in a random block or "
             "shape; entry-by-entry comparison with an assembled reference; non-trivial: more than one non-zero entry, or an "
             "unrepresentable energy that has to be refused; distinct by lattice topology, size, number type and entry count";
    return main_suite(s, argc, argv);
}
