// C02: the site set of finite systems
#include "build_case.hpp"
using namespace mon;

static void observe_sites(Context& c, FiniteCase const& f) {
    auto m = f.model();
    std::shared_ptr<cpb::System const> s;
    std::string error;
    try { s = m->system(); } catch (std::exception const& e) { error = e.what(); }
    if (f.sites.empty()) {
        c.count("empty_systems_refused");
        c.require(!s, [&] { return "a system without sites was accepted with " + std::to_string(s->num_sites()) + " sites"; });
        c.require(error.find("0 sites") != std::string::npos, [&] { return "empty system reported as: " + error; });
        c.nontrivial = true;
        return;
    }
    c.require(static_cast<bool>(s), [&] { return "building failed: " + error; });
    auto v = view(c, *s);
    match_sites(c, *s, v, expected_sites(f.lat, f.sites));
    // one contiguous run per family
    std::set<std::string> closed;
    for (std::size_t n = 1; n < v.family.size(); ++n) {
        if (v.family[n] != v.family[n - 1]) {
            c.require(closed.insert(v.family[n - 1]).second && !closed.count(v.family[n]), [&] { return "family " + v.family[n] + " is split into separate runs"; });
        }
    }
    c.require(s->is_valid.size() == 0 || s->is_valid.all(), [] { return std::string("finished system still marks sites as invalid"); });
    c.count("sites_matched", static_cast<std::int64_t>(f.sites.size()));
    c.count(f.shaped ? "shaped_systems" : "primitive_systems");
    c.seen("lattices", mask_of(f.lat));
    c.nontrivial = f.sites.size() > 1;
}

static void random_case(Context& c) {
    FiniteOpt o;
    if (c.rng.p(0.03)) { o.target_sites = 1500; }
    else if (c.rng.p(0.3)) { o.target_sites = 30; }
    observe_sites(c, rand_finite(c, o));
}

// a long chain that is eaten away from one end: the clean-up must not depend on the stack
static void long_chain(Context& c) {
    FiniteCase f;
    f.lat.a = {V3(1, 0, 0)};
    RSub a; a.name = "A"; a.pos = V3(0, 0, 0); a.e = MX::Zero(1, 1); a.fam = 0;
    f.lat.subs = {a};
    RFam h; h.name = "t"; h.t = MX::Constant(1, 1, cd(1, 0)); h.terms = {{{{1, 0, 0}}, 0, 0}};
    f.lat.hops = {h};
    f.lat.min_neighbors = 2;
    f.shaped = true;
    V3 lo(-0.5, 0, 0), hi(150000.25, 0, 0);
    f.spec.shape = cpb::Line(cart(lo), cart(hi));
    f.sites.clear(); // every site of an open chain goes once two neighbours are required
    c.note("open chain of 150001 sites, two neighbours required");
    c.sig(99);
    observe_sites(c, f);
}

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C02";
    s.random_case = random_case;
    s.pinned = {{"long-dangling-chain", long_chain}};
    s.rule = "random lattice (1-3D, skewed, aliases, multi-orbital, offset, min neighbours 0-3) with a random primitive block or "
             "shape (polygon, line, ring, cut box) anywhere in space; non-trivial: more than one expected site, or an empty system "
             "that has to be refused; distinct by lattice topology and site count";
    return main_suite(s, argc, argv);
}
