// C08: energy modifiers act on every matching term exactly once with its own positions
#include "energy.hpp"
using namespace mon;

static void judge(Context& c, EnergyCase& e, cpb::Model& model, std::vector<EnergyFn> const& fns, std::shared_ptr<EnergyLog> log) {
    auto sys = model.system();
    auto v = view(c, *sys);
    auto map = match_sites(c, *sys, v, e.exp, 4e-3);
    auto fam = match_families(c, sys->hopping_registry, e.lat);
    auto h = observe(c, model.hamiltonian());
    auto ref = e.state(*sys, fam);
    replay_energy(c, fns, *log, ref, h.type, e.periodic ? 3e-4 : 1e-4);
    compare(c, h, e.hamiltonian(ref, map, v), e.periodic ? 5e-4 : 1e-4);
    check_hermitian(c, h);
    c.count("hamiltonians");
    c.sig(fns.size()); c.sig(e.bonds.size());
}

static void random_case(Context& c) {
    auto& r = c.rng;
    std::unique_ptr<cpb::Model> model;
    LatOpt lo;
    lo.max_norb = r.p(0.5) ? 1 : 3;
    auto e = rand_energy_case(c, model, lo);
    std::vector<EnergyFn> fns;
    auto log = std::make_shared<EnergyLog>();
    auto nmod = r.i(0, 4);
    auto cplx = r.p(0.5);
    for (int k = 0; k < nmod; ++k) {
        fns.push_back(rand_energy_fn(r, e.lat, cplx));
        c.note(fns.back().describe());
        add_energy(*model, fns.back(), k, log);
    }
    judge(c, e, *model, fns, log);
    auto calls = log->size();
    model->hamiltonian();
    c.require(log->size() == calls, [] { return std::string("the modifiers were applied again without any change"); });
    if (nmod > 0 && r.p(0.3)) { // one more function on an evaluated model, or another wave vector
        log->clear();
        if (e.periodic && r.p(0.5)) {
            for (int d = 0; d < e.lat.ndim(); ++d) { e.k[d] = r.q(-2, 2) + 4; }
            model->set_wave_vector(cart(e.k));
        } else {
            fns.push_back(rand_energy_fn(r, e.lat, cplx));
            c.note("then " + fns.back().describe());
            add_energy(*model, fns.back(), nmod, log);
        }
        judge(c, e, *model, fns, log);
        c.count("re-evaluations");
    }
    c.count(e.periodic ? "periodic_models" : "finite_models");
    if (e.lat.multiorbital()) { c.count("multi_orbital_models"); }
    c.nontrivial = nmod > 0;
}

/// More bonds in a family than the library handles in one go
static void large_case(Context& c, int nx, int ny, int rows, int cols, bool periodic, bool complex) {
    auto& r = c.rng;
    RLat l;
    l.a = {V3(1, 0, 0), V3(0, 1, 0)};
    RSub a; a.name = "A"; a.pos = V3(0, 0, 0); a.e = rand_hermitian(r, rows, false, 0); a.fam = 0;
    l.subs.push_back(a);
    RFam h; h.name = "t";
    h.t = MX(rows, cols);
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) { h.t(i, j) = rand_c(r, false); }
    if (cols == rows) {
        h.terms = {{{{1, 0, 0}}, 0, 0}, {{{0, 1, 0}}, 0, 0}};
    } else {
        RSub b; b.name = "B"; b.pos = V3(0.5, 0.5, 0); b.e = MX::Zero(cols, cols); b.fam = 1;
        l.subs.push_back(b);
        h.terms = {{{{0, 0, 0}}, 0, 1}, {{{1, 0, 0}}, 0, 1}};
    }
    l.hops.push_back(h);
    EnergyCase e;
    e.lat = l;
    e.sites = primitive_sites(l, {{nx, ny, 1}});
    std::unique_ptr<cpb::Model> model(new cpb::Model(l.make(), cpb::Primitive(nx, ny)));
    e.periodic = periodic;
    if (periodic) {
        model->add(cpb::TranslationalSymmetry(static_cast<float>(nx), static_cast<float>(ny)));
        e.k = V3(0.01, 0.02, 0);
        model->set_wave_vector(cart(e.k));
        e.bonds = periodic_bonds(l, e.sites, primitive_start({{nx, ny, 1}}), {{nx, ny, 0}});
    } else {
        e.bonds = finite_bonds(l, e.sites);
    }
    for (auto const& s : e.sites) { e.pos.push_back(s.pos); }
    e.exp = expected_sites(l, e.sites);
    std::vector<EnergyFn> fns;
    auto log = std::make_shared<EnergyLog>();
    for (int k = 0; k < 2; ++k) {
        auto f = rand_energy_fn(r, l, complex);
        f.onsite = false; f.zero = false; f.only.clear(); f.is_double = true;
        f.q = V3(r.q(-0.1, 0.1), r.q(-0.1, 0.1), 0); f.field = r.q(-0.01, 0.01);
        fns.push_back(f);
        add_energy(*model, f, k, log);
    }
    auto f = rand_energy_fn(r, l, false);
    f.onsite = true; f.only.clear(); f.zero = false; f.q = V3(r.q(-0.1, 0.1), r.q(-0.1, 0.1), 0);
    fns.push_back(f);
    add_energy(*model, f, 2, log);
    c.note("large " + std::to_string(nx) + "x" + std::to_string(ny) + " " + std::to_string(rows) + "x" + std::to_string(cols));
    judge(c, e, *model, fns, log);
    c.count("large_systems");
    c.count("bonds_in_large_systems", static_cast<std::int64_t>(e.bonds.size()));
    c.sig(static_cast<std::uint64_t>(nx)); c.sig(static_cast<std::uint64_t>(rows * 16 + cols));
    c.nontrivial = true;
}

static void any_case(Context& c) {
    auto& r = c.rng;
    if (r.p(0.001)) {
        auto rows = r.i(1, 3), cols = r.p(0.6) ? rows : r.i(1, 3);
        auto n = 100000 / (rows * cols) * r.u(0.9, 2.3); // bonds wanted
        auto ny = r.i(1, 60);
        auto nx = static_cast<int>(n / (ny * (ny > 1 || rows != cols ? 2 : 1))) + 2;
        large_case(c, nx, ny, rows, cols, r.p(0.2), r.p(0.4));
    } else {
        random_case(c);
    }
}

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C08";
    s.random_case = any_case;
    s.pinned.push_back({"chunks-scalar", [](Context& c) { large_case(c, 310, 250, 1, 1, false, true); }});
    s.pinned.push_back({"chunks-2x2", [](Context& c) { large_case(c, 230, 80, 2, 2, false, false); }});
    s.pinned.push_back({"chunks-3x2", [](Context& c) { large_case(c, 17, 1100, 3, 2, true, true); }});
    s.pinned.push_back({"chunks-exact", [](Context& c) { large_case(c, 25001, 1, 2, 2, false, false); }});
    s.rule = "random finite or periodic model (optionally with vacancies and moved sites) with 0-4 onsite and hopping functions of "
             "position, family and orbital; every call is logged, matched to the reference sites and bonds and replayed; some systems "
             "have more bonds per family than one batch; non-trivial: at least one modifier";
    return main_suite(s, argc, argv);
}
