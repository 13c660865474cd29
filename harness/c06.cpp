// C06: periodic systems have the Bloch Hamiltonian of the infinite lattice
#include "periodic_case.hpp"
using namespace mon;

static std::vector<double> spectrum(ObsHam const& o) {
    MX m = MX::Zero(o.rows, o.cols);
    for (auto const& e : o.entries) { m(e.i, e.j) = e.v; }
    Eigen::SelfAdjointEigenSolver<MX> es(m, Eigen::EigenvaluesOnly);
    std::vector<double> v(es.eigenvalues().data(), es.eigenvalues().data() + o.rows);
    return v;
}

static void bloch_case(Context& c) {
    auto& r = c.rng;
    LatOpt lo;
    lo.max_rel = r.p(0.3) ? 4 : 2;
    auto p = rand_periodic(c, lo);
    auto m = p.model();
    std::shared_ptr<cpb::System const> s;
    std::string error;
    try { s = m->system(); } catch (std::exception const& e) { error = e.what(); }
    if (!s) {
        if (p.any_window_empty()) { throw CaseSkipped{"no sites in the period"}; }
        c.require(false, [&] { return "building failed: " + error; });
    }
    p.locate(c, *s);
    auto v = view(c, *s);
    auto exp = expected_sites(p.lat, p.sites);
    auto map = match_sites(c, *s, v, exp);
    auto bonds = periodic_bonds(p.lat, p.sites, p.start, p.period);
    std::int64_t crossing = 0;
    for (auto const& b : bonds) { crossing += b.image.norm() > 1e-9; }
    auto fam = match_families(c, s->hopping_registry, p.lat);

    // bonds within the period and across its border, by image
    std::vector<RBond> inner, outer;
    for (auto const& b : bonds) { (b.image.norm() > 1e-9 ? outer : inner).push_back(b); }
    auto nsites = static_cast<int>(s->num_sites());
    compare_bonds(c, observed_bonds(c, s->hopping_blocks, nsites), inner, map, fam);
    {
        std::map<std::tuple<int, int, int, int, int, int>, int> cnt;
        auto q = [](double x) { return static_cast<int>(std::lround(x * 20)); };
        for (auto const& b : outer) { ++cnt[std::make_tuple(map[b.i], map[b.j], b.fam, q(b.image[0]), q(b.image[1]), q(b.image[2]))]; }
        for (auto const& boundary : s->boundaries) {
            V3 sh = -v3(boundary.shift);
            for (auto const& b : observed_bonds(c, boundary.hopping_blocks, nsites)) {
                int hit = 0;
                for (auto dx = -1; dx <= 1 && !hit; ++dx) for (auto dy = -1; dy <= 1 && !hit; ++dy) for (auto dz = -1; dz <= 1 && !hit; ++dz) {
                    auto it = cnt.find(std::make_tuple(b.i, b.j, fam.at(static_cast<std::size_t>(b.fam)), q(sh[0]) + dx, q(sh[1]) + dy, q(sh[2]) + dz));
                    if (it != cnt.end() && it->second > 0) { --it->second; hit = 1; }
                }
                c.require(hit, [&] { return "unexpected or repeated periodic bond " + std::to_string(b.i) + " -> " + std::to_string(b.j) + " with shift " + str(-sh); });
            }
        }
        for (auto const& x : cnt) {
            c.require(x.second == 0, [&] { return "periodic bond " + std::to_string(std::get<0>(x.first)) + " -> " + std::to_string(std::get<1>(x.first)) + " is missing"; });
        }
    }
    c.count("periodic_bonds", crossing);
    c.count(p.shaped ? "ribbons" : "blocks");

    auto g = p.reciprocal();
    auto onsite = lattice_onsite(p.lat, p.sites);
    auto lb = lattice_bonds(p.lat, bonds);
    auto nk = r.i(1, 4);
    V3 k(0, 0, 0);
    double kmax = 0;
    for (int n = 0; n < nk; ++n) {
        V3 old = k;
        if (n > 0 && r.p(0.3)) { // a reciprocal vector of the period
            for (int d = 0; d < p.lat.ndim(); ++d) { if (p.period[d] > 0) { k += r.i(-1, 1) * g[d] / p.period[d]; } }
            c.count("reciprocal_shifts");
        } else if (n > 0 || r.p(0.8)) {
            k = V3(0, 0, 0);
            for (int d = 0; d < p.lat.ndim(); ++d) { k += r.u(-1, 1) * g[d]; }
        }
        k = v3(cart(k));
        kmax = std::max(kmax, k.norm());
        m->set_wave_vector(cart(k));
        auto h = observe(c, m->hamiltonian());
        c.require(h.type == Num::cf, [] { return std::string("periodic Hamiltonian is not complex"); });
        auto want = assemble(exp, onsite, lb, map, v, k);
        compare(c, h, want, 3e-4, "Bloch Hamiltonian");
        check_hermitian(c, h);
        c.count("wave_vectors");
    }
    c.require(m->system() == s, [] { return std::string("changing the wave vector rebuilt the structure"); });
    c.sig(static_cast<std::uint64_t>(crossing));
    c.nontrivial = crossing > 0;
}

static void folding_case(Context& c) {
    auto& r = c.rng;
    LatOpt lo;
    lo.max_norb = 2; lo.max_rel = 3; lo.max_dim = r.p(0.8) ? 2 : 3;
    lo.offset = false;
    auto lat = rand_lattice(r, lo);
    auto nd = lat.ndim();
    Cell n{{1, 1, 1}};
    for (int k = 0; k < nd; ++k) { n[k] = r.i(1, nd == 1 ? 6 : nd == 2 ? 4 : 2); }
    c.note("folding " + lat.describe() + " supercell" + str(n));
    PeriodicCase p;
    p.lat = lat;
    auto g = p.reciprocal();
    cpb::Model super(lat.make(), cpb::Primitive(n[0], n[1], n[2])), prim(lat.make(), cpb::Primitive(1, 1, 1));
    float len[3] = {-1, -1, -1}, zero[3] = {-1, -1, -1};
    for (int k = 0; k < nd; ++k) { len[k] = static_cast<float>(lat.a[k].norm() * n[k]); zero[k] = 0; }
    super.add(cpb::TranslationalSymmetry(len[0], len[1], len[2]));
    prim.add(cpb::TranslationalSymmetry(zero[0], zero[1], zero[2]));
    V3 k(0, 0, 0);
    for (int d = 0; d < nd; ++d) { k += r.u(-0.5, 0.5) * g[d]; }
    k = v3(cart(k));
    super.set_wave_vector(cart(k));
    auto a = spectrum(observe(c, super.hamiltonian()));
    std::vector<double> b;
    for (int x = 0; x < n[0]; ++x) for (int y = 0; y < n[1]; ++y) for (int z = 0; z < n[2]; ++z) {
        V3 q = k;
        int j[3] = {x, y, z};
        for (int d = 0; d < nd; ++d) { q += j[d] * g[d] / n[d]; }
        prim.set_wave_vector(cart(q));
        auto e = spectrum(observe(c, prim.hamiltonian()));
        b.insert(b.end(), e.begin(), e.end());
    }
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    c.require(a.size() == b.size(), [&] { return "supercell has " + std::to_string(a.size()) + " states, expected " + std::to_string(b.size()); });
    double scale = 1;
    for (auto x : b) { scale = std::max(scale, std::abs(x)); }
    for (std::size_t i = 0; i < a.size(); ++i) {
        c.require(std::abs(a[i] - b[i]) < 1e-3 * scale, [&] { return "supercell level " + str(a[i]) + " is not a folded primitive level (" + str(b[i]) + ")"; });
    }
    c.count("folded_levels", static_cast<std::int64_t>(a.size()));
    c.sig(mask_of(lat));
    for (int d = 0; d < 3; ++d) { c.sig(static_cast<std::uint64_t>(n[d])); }
    c.nontrivial = a.size() > 1 && !lat.hops.empty();
}

static void random_case(Context& c) {
    if (c.rng.p(0.15)) { folding_case(c); } else { bloch_case(c); }
}

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C06";
    s.random_case = random_case;
    s.rule = "random lattice with bonds of range up to 4, any subset of periodic directions, periods of 1-5 cells (also longer than the "
             "block), primitive blocks and ribbons, 1-4 wave vectors each incl. reciprocal shifts; plus supercell band folding; "
             "non-trivial: bonds cross the period";
    return main_suite(s, argc, argv);
}
