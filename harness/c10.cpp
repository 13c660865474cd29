// C10: generated sites and hoppings extend the system without disturbing it
#include "periodic_case.hpp"
using namespace mon;

namespace {

struct RS { std::string sub, fam; V3 pos; MX e; bool alive; };
struct RB { int i, j; MX t; V3 image; int lat_fam; std::string name; };

struct Op {
    enum Kind { state, move, sites, hops } kind;
    std::string name;
    MX e;                       // energy
    bool upper = false;         // given as upper triangular
    double ang = 0, s = 1; V3 t{0, 0, 0};
    double prob = 0;            // state: chance of removal
    int count = 0;              // sites/pairs to make
    int bad = 0;                // 0 fine; hops: 1 lengths, 2 range, 3 negative, 4 orbitals; sites: 1 lengths
};

/// The reference runs along with the callbacks
struct Ref {
    Context& c;
    RLat const& lat;
    std::vector<Op> ops;
    std::vector<RS> sites;
    std::vector<RB> bonds;
    std::vector<int> periods;
    Rng rng;
    int at = -1;                        // op under way
    bool system_phase = false;
    std::vector<char> met;
    Finder finder;
    std::set<std::string> called;
    bool refused = false;
    std::int64_t pairs = 0, collapsed = 0, made = 0, removed = 0, seen_calls = 0, parallel = 0;

    Ref(Context& c, RLat const& lat) : c(c), lat(lat), rng(c.rng.next()) {}

    void rebuild() { finder = Finder(); for (auto const& s : sites) { finder.add(s.pos); } met.assign(sites.size(), 0); called.clear(); }
    void finish_op() {
        if (at < 0) { return; }
        auto const& o = ops[static_cast<std::size_t>(at)];
        if (o.kind == Op::state || o.kind == Op::move) {
            for (std::size_t n = 0; n < sites.size(); ++n) {
                c.require(met[n] || (!sites[n].alive), [&] { return "site of " + sites[n].fam + " at " + str(sites[n].pos) + " was not passed to modifier " + std::to_string(at); });
            }
        }
        if (o.kind == Op::move) {
            for (auto& s : sites) { s.pos = moved(o, s.pos); }
        }
    }
    /// state and position modifiers have nothing to be called for in a system without sites
    void skip_idle(int k) {
        auto gen = false;
        for (int q = 0; q < k; ++q) { gen = gen || ops[static_cast<std::size_t>(q)].kind == Op::sites || ops[static_cast<std::size_t>(q)].kind == Op::hops; }
        if (!gen || std::any_of(sites.begin(), sites.end(), [](RS const& s) { return s.alive; })) { return; }
        while (at + 1 < k && (ops[static_cast<std::size_t>(at + 1)].kind == Op::state || ops[static_cast<std::size_t>(at + 1)].kind == Op::move)) { ++at; }
    }
    /// calls for op `k` have begun
    void enter(int k) {
        ++seen_calls;
        if (k == at) { return; }
        finish_op();
        skip_idle(k);
        c.require(k == at + 1, [&] { return "modifier " + std::to_string(k) + " was called after " + std::to_string(at); });
        at = k;
        rebuild();
    }
    static V3 moved(Op const& o, V3 const& p) {
        return V3(o.s * (std::cos(o.ang) * p[0] - std::sin(o.ang) * p[1]), o.s * (std::sin(o.ang) * p[0] + std::cos(o.ang) * p[1]), o.s * p[2]) + o.t;
    }
    int identify(V3 const& p, std::string const& name) {
        c.require(called.count(name) == 0, [&] { return "modifier " + std::to_string(at) + " was called twice for " + name; });
        auto w = finder.find(p);
        auto in_phase = [&](RS const& s) { return system_phase ? s.fam == name : s.sub == name; };
        if (w >= 0 && !in_phase(sites[static_cast<std::size_t>(w)])) { w = -1; }
        if (w >= 0) {
            c.require(!met[static_cast<std::size_t>(w)], [&] { return "site at " + str(p) + " was passed twice to modifier " + std::to_string(at); });
            met[static_cast<std::size_t>(w)] = 1;
        }
        c.require(w >= 0 || !system_phase, [&] { return "modifier " + std::to_string(at) + " was given a site of " + name + " at " + str(p) + " which does not exist"; });
        return w;
    }
    /// system index -> reference index of what the generator (or the user, at the end) sees
    std::vector<int> judge(cpb::System const& s, std::vector<int>* ref_to_sys = nullptr, SysView* out = nullptr) {
        auto v = view(c, s);
        std::vector<ExpSite> exp; std::vector<int> id;
        for (std::size_t n = 0; n < sites.size(); ++n) {
            if (sites[n].alive) { exp.push_back({sites[n].fam, sites[n].pos, static_cast<int>(sites[n].e.rows())}); id.push_back(static_cast<int>(n)); }
        }
        auto map = match_sites(c, s, v, exp, 4e-3);
        std::vector<int> sys_to_ref(static_cast<std::size_t>(s.num_sites()), -1), r2s(sites.size(), -1);
        for (std::size_t n = 0; n < map.size(); ++n) { sys_to_ref[static_cast<std::size_t>(map[n])] = id[n]; r2s[static_cast<std::size_t>(id[n])] = map[n]; }
        auto nsites = static_cast<int>(s.num_sites());
        c.require(s.hopping_blocks.get_num_sites() == nsites, [&] { return "the bond list is for " + std::to_string(s.hopping_blocks.get_num_sites()) + " sites, there are " + std::to_string(nsites); });
        auto fam = match_families(c, s.hopping_registry, lat);
        auto key = [&](int id_) { return std::string(s.hopping_registry.name(cpb::HopID(id_))); };
        std::map<std::string, std::string> real_name;
        for (std::size_t k = 0; k < fam.size(); ++k) { if (fam[k] >= 0) { real_name["#" + std::to_string(fam[k])] = key(static_cast<int>(k)); } }
        std::map<std::tuple<int, int, std::string>, int> want;
        std::map<std::tuple<int, int, std::string>, std::vector<V3>> outer;
        for (auto const& b : bonds) {
            if (!sites[static_cast<std::size_t>(b.i)].alive || !sites[static_cast<std::size_t>(b.j)].alive) { continue; }
            auto nm = b.lat_fam >= 0 ? real_name["#" + std::to_string(b.lat_fam)] : b.name;
            auto k = std::make_tuple(r2s[static_cast<std::size_t>(b.i)], r2s[static_cast<std::size_t>(b.j)], nm);
            if (b.image.norm() < 1e-9) { ++want[k]; } else { outer[k].push_back(b.image); }
        }
        for (auto const& b : observed_bonds(c, s.hopping_blocks, nsites)) {
            auto it = want.find(std::make_tuple(b.i, b.j, key(b.fam)));
            c.require(it != want.end() && it->second > 0, [&] { return "unexpected or repeated bond " + std::to_string(b.i) + " -> " + std::to_string(b.j) + " of family " + key(b.fam); });
            --it->second;
            c.count("bonds_compared");
        }
        for (auto const& x : want) { c.require(x.second == 0, [&] { return "bond " + std::to_string(std::get<0>(x.first)) + " -> " + std::to_string(std::get<1>(x.first)) + " of family " + std::get<2>(x.first) + " is missing"; }); }
        for (auto const& bd : s.boundaries) {
            c.require(bd.hopping_blocks.get_num_sites() == nsites, [&] { return "a periodic bond list is for " + std::to_string(bd.hopping_blocks.get_num_sites()) + " sites, there are " + std::to_string(nsites); });
            V3 im = -v3(bd.shift);
            for (auto const& b : observed_bonds(c, bd.hopping_blocks, nsites)) {
                auto& l = outer[std::make_tuple(b.i, b.j, key(b.fam))];
                auto it = std::find_if(l.begin(), l.end(), [&](V3 const& x) { return (x - im).norm() < 0.02; });
                c.require(it != l.end(), [&] { return "unexpected or repeated periodic bond " + std::to_string(b.i) + " -> " + std::to_string(b.j) + " of family " + key(b.fam); });
                l.erase(it);
            }
        }
        for (auto const& x : outer) { c.require(x.second.empty(), [&] { return "periodic bond " + std::to_string(std::get<0>(x.first)) + " -> " + std::to_string(std::get<1>(x.first)) + " of family " + std::get<2>(x.first) + " is missing"; }); }
        if (ref_to_sys) { *ref_to_sys = r2s; }
        if (out) { *out = v; }
        return sys_to_ref;
    }
};

} // namespace

static MX as_given(Op const& o) {
    MX m = o.e;
    if (o.upper) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < i; ++j) { m(i, j) = 0; } }
    return m;
}

static void random_case(Context& c) {
    auto& r = c.rng;
    LatOpt lo;
    lo.max_norb = r.p(0.4) ? 1 : 3;
    std::unique_ptr<cpb::Model> model;
    RLat lat;
    std::vector<RSite> base;
    std::vector<RBond> bonds;
    auto periodic = r.p(0.3);
    if (periodic) {
        auto p = rand_periodic(c, lo, 0.2, 3);
        model = p.model();
        try { model->system(); } catch (std::exception const&) { throw CaseSkipped{"no sites"}; }
        p.locate(c, *model->system());
        lat = p.lat; base = p.sites;
        bonds = periodic_bonds(lat, base, p.start, p.period);
        model = p.model();
    } else {
        FiniteOpt o;
        o.lat = lo;
        o.target_sites = r.p(0.7) ? 20 : 80;
        auto f = rand_finite(c, o);
        lat = f.lat; base = f.sites;
        bonds = finite_bonds(lat, base);
        model = f.model();
    }
    if (base.empty()) { throw CaseSkipped{"no sites"}; }

    auto ref = std::make_shared<Ref>(c, lat);
    std::vector<int> norbs;
    for (auto const& s : base) {
        auto const& u = lat.subs[static_cast<std::size_t>(s.uid)];
        ref->sites.push_back({u.name, lat.fam_name(s.uid), s.pos, u.e, true});
        if (static_cast<int>(norbs.size()) < 40) { norbs.push_back(u.norb()); }
    }
    for (auto const& b : bonds) { ref->bonds.push_back({b.i, b.j, lat.hops[static_cast<std::size_t>(b.fam)].t, b.image, b.fam, ""}); }

    auto nops = r.i(1, 7);
    auto has_generator = false, has_bad = false;
    for (int k = 0; k < nops; ++k) {
        Op o;
        auto x = r.u();
        o.kind = x < 0.22 ? Op::state : x < 0.34 ? Op::move : x < 0.62 ? Op::sites : Op::hops;
        if (o.kind == Op::state) { o.prob = r.p(0.2) ? 0 : r.u(0, 0.5); }
        if (o.kind == Op::move) { o.ang = r.u(-3, 3); o.s = r.u(0.9, 1.1); o.t = V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)); }
        if (o.kind == Op::sites) {
            auto n = r.i(1, lo.max_norb);
            o.name = "G" + std::to_string(k);
            o.e = r.p(0.7) ? rand_hermitian(r, n, r.p(0.3), r.i(0, 2)) : MX(MX::Zero(n, n));
            o.upper = r.p(0.4);
            o.count = r.p(0.1) ? 0 : r.i(1, 8);
            norbs.push_back(n);
            if (r.p(0.02)) { o.bad = 1; }
            has_generator = true;
        }
        if (o.kind == Op::hops) {
            o.name = "h" + std::to_string(k);
            auto rows = r.pick(norbs), cols = r.p(0.6) ? rows : r.pick(norbs);
            o.e = MX(rows, cols);
            auto cplx = r.p(0.3);
            for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) { o.e(i, j) = rand_c(r, cplx); }
            o.count = r.p(0.1) ? 0 : r.i(1, r.p(0.1) ? 150 : 12);
            if (r.p(0.06)) { o.bad = r.i(1, 4); }
            has_generator = true;
        }
        has_bad = has_bad || o.bad;
        c.note(o.kind == Op::state ? "state" : o.kind == Op::move ? "move" : o.kind == Op::sites ? "sites(" + std::to_string(o.count) + "x" + std::to_string(o.e.rows()) + ")" : "hops(" + std::to_string(o.count) + " " + std::to_string(o.e.rows()) + "x" + std::to_string(o.e.cols()) + ")");
        ref->ops.push_back(o);
    }

    bool seen_generator = false;
    for (int k = 0; k < nops; ++k) {
        auto o = ref->ops[static_cast<std::size_t>(k)];
        auto* R = ref.get();
        seen_generator = seen_generator || o.kind == Op::sites || o.kind == Op::hops;
        auto in_system = seen_generator;
        if (o.kind == Op::state) {
            model->add(cpb::SiteStateModifier([=](Eigen::Ref<cpb::ArrayX<bool>> st, cpb::CartesianArrayConstRef p, cpb::string_view sv) {
                R->enter(k); R->system_phase = in_system;
                std::string name(sv.data(), sv.size());
                R->c.require(st.size() == p.size(), [] { return std::string("state and position arrays of different sizes"); });
                for (cpb::idx_t q = 0; q < p.size(); ++q) {
                    auto w = R->identify(V3(p.x()[q], p.y()[q], p.z()[q]), name);
                    auto truth = w >= 0 && R->sites[static_cast<std::size_t>(w)].alive;
                    R->c.require(st[q] == truth, [&] { return "modifier " + std::to_string(k) + " was told a wrong state of a site of " + name; });
                    if (w >= 0 && truth && R->rng.p(o.prob)) { st[q] = false; R->sites[static_cast<std::size_t>(w)].alive = false; ++R->removed; }
                    else if (w >= 0 && !truth && R->rng.p(0.1)) { st[q] = true; R->sites[static_cast<std::size_t>(w)].alive = true; }
                }
                R->called.insert(name);
            }));
        } else if (o.kind == Op::move) {
            model->add(cpb::PositionModifier([=](cpb::CartesianArrayRef p, cpb::string_view sv) {
                R->enter(k); R->system_phase = in_system;
                std::string name(sv.data(), sv.size());
                for (cpb::idx_t q = 0; q < p.size(); ++q) {
                    V3 x(p.x()[q], p.y()[q], p.z()[q]);
                    R->identify(x, name);
                    V3 y = Ref::moved(o, x);
                    p.x()[q] = static_cast<float>(y[0]); p.y()[q] = static_cast<float>(y[1]); p.z()[q] = static_cast<float>(y[2]);
                }
                R->called.insert(name);
            }));
        } else if (o.kind == Op::sites) {
            model->add(cpb::SiteGenerator(o.name, to_cpb(as_given(o)), [=](cpb::System const& s) {
                R->enter(k); R->system_phase = true;
                // invalid sites are gone for good now
                std::vector<int> keep(R->sites.size(), -1); std::vector<RS> left;
                for (std::size_t n = 0; n < R->sites.size(); ++n) { if (R->sites[n].alive) { keep[n] = static_cast<int>(left.size()); left.push_back(R->sites[n]); } }
                std::vector<RB> lb;
                for (auto b : R->bonds) { if (keep[static_cast<std::size_t>(b.i)] >= 0 && keep[static_cast<std::size_t>(b.j)] >= 0) { b.i = keep[static_cast<std::size_t>(b.i)]; b.j = keep[static_cast<std::size_t>(b.j)]; lb.push_back(b); } }
                R->sites = left; R->bonds = lb;
                R->judge(s);
                R->rebuild();
                if (o.bad == 1) { R->refused = true; return cpb::CartesianArray(cpb::ArrayXf::Zero(3), cpb::ArrayXf::Zero(2), cpb::ArrayXf::Zero(3)); }
                std::vector<V3> made;
                for (int q = 0; q < o.count; ++q) {
                    for (int attempt = 0; attempt < 100; ++attempt) {
                        V3 p(R->rng.u(-6, 6), R->rng.u(-6, 6), R->rng.u(-6, 6));
                        p = v3(cart(p));
                        bool ok = true;
                        for (auto const& x : R->sites) { ok = ok && (x.pos - p).norm() > 0.1; }
                        for (auto const& x : made) { ok = ok && (x - p).norm() > 0.1; }
                        if (ok) { made.push_back(p); break; }
                    }
                }
                cpb::CartesianArray a(static_cast<cpb::idx_t>(made.size()));
                for (std::size_t q = 0; q < made.size(); ++q) { a[static_cast<cpb::idx_t>(q)] = cart(made[q]); R->sites.push_back({o.name, o.name, made[q], o.e, true}); ++R->made; }
                return a;
            }));
        } else {
            model->add(cpb::HoppingGenerator(o.name, to_cpb(o.e), [=](cpb::System const& s) {
                R->enter(k); R->system_phase = true;
                std::vector<int> keep(R->sites.size(), -1); std::vector<RS> left;
                for (std::size_t n = 0; n < R->sites.size(); ++n) { if (R->sites[n].alive) { keep[n] = static_cast<int>(left.size()); left.push_back(R->sites[n]); } }
                std::vector<RB> lb;
                for (auto b : R->bonds) { if (keep[static_cast<std::size_t>(b.i)] >= 0 && keep[static_cast<std::size_t>(b.j)] >= 0) { b.i = keep[static_cast<std::size_t>(b.i)]; b.j = keep[static_cast<std::size_t>(b.j)]; lb.push_back(b); } }
                R->sites = left; R->bonds = lb;
                auto s2r = R->judge(s);
                R->rebuild();
                std::vector<int> rows, cols;
                for (std::size_t n = 0; n < s2r.size(); ++n) {
                    auto no = R->sites[static_cast<std::size_t>(s2r[n])].e.rows();
                    if (no == o.e.rows()) { rows.push_back(static_cast<int>(n)); }
                    if (no == o.e.cols()) { cols.push_back(static_cast<int>(n)); }
                }
                std::vector<std::pair<int, int>> list;
                std::map<std::pair<int, int>, int> first;
                for (int q = 0; q < o.count && !rows.empty() && !cols.empty(); ++q) {
                    std::pair<int, int> p(R->rng.pick(rows), R->rng.pick(cols));
                    if (!list.empty() && R->rng.p(0.25)) { p = R->rng.pick(list); if (o.e.rows() == o.e.cols() && R->rng.p(0.5)) { std::swap(p.first, p.second); } }
                    if (p.first == p.second) { continue; }
                    list.push_back(p);
                    ++R->pairs;
                    std::pair<int, int> key = std::minmax(p.first, p.second);
                    if (first.count(key)) { ++R->collapsed; continue; }
                    first[key] = 1;
                    int a = s2r[static_cast<std::size_t>(p.first)], b = s2r[static_cast<std::size_t>(p.second)];
                    for (auto const& x : R->bonds) { if ((x.i == a && x.j == b) || (x.i == b && x.j == a)) { ++R->parallel; break; } }
                    R->bonds.push_back({a, b, o.e, V3(0, 0, 0), -1, o.name});
                }
                auto n = static_cast<int>(list.size());
                cpb::HoppingGenerator::Result g{cpb::ArrayXi(n), cpb::ArrayXi(n)};
                for (int q = 0; q < n; ++q) { g.from[q] = list[static_cast<std::size_t>(q)].first; g.to[q] = list[static_cast<std::size_t>(q)].second; }
                if (o.bad && n > 0) {
                    auto q = R->rng.i(0, n - 1);
                    auto& side = R->rng.p(0.5) ? g.from : g.to;
                    if (o.bad == 1) { side.conservativeResize(n + (R->rng.p(0.5) ? 1 : -1)); if (side.size() > n) { side[n] = 0; } R->refused = true; }
                    if (o.bad == 2) { side[q] = static_cast<int>(s.num_sites()) + (R->rng.p(0.5) ? 0 : R->rng.i(1, 1000000)); R->refused = true; }
                    if (o.bad == 3) { side[q] = -R->rng.i(1, 3); R->refused = true; }
                    if (o.bad == 4) {
                        auto size = &side == &g.from ? o.e.rows() : o.e.cols();
                        for (std::size_t w = 0; w < s2r.size(); ++w) { if (R->sites[static_cast<std::size_t>(s2r[w])].e.rows() != size) { side[q] = static_cast<int>(w); R->refused = true; break; } }
                    }
                }
                return g;
            }));
        }
    }

    std::shared_ptr<cpb::System const> sys;
    std::string error;
    try { sys = model->system(); } catch (std::exception const& x) { error = x.what(); }
    if (ref->refused) {
        c.require(!sys, [] { return std::string("inconsistent generator output was accepted"); });
        c.count("refused_generators");
        c.sig(static_cast<std::uint64_t>(nops));
        c.nontrivial = true;
        return;
    }
    ref->finish_op();
    auto left = std::count_if(ref->sites.begin(), ref->sites.end(), [](RS const& s) { return s.alive; });
    if (left == 0) {
        c.require(!sys && error.find("0 sites") != std::string::npos, [&] { return "a system without sites: " + (sys ? "accepted" : error); });
        return;
    }
    c.require(static_cast<bool>(sys), [&] { return "building failed: " + error; });
    c.require(ref->at == nops - 1, [&] { return "only " + std::to_string(ref->at + 1) + " of " + std::to_string(nops) + " modifiers were applied"; });

    std::vector<int> r2s;
    SysView v;
    ref->judge(*sys, &r2s, &v);
    V3 kv(0, 0, 0);
    if (periodic) { for (int d = 0; d < lat.ndim(); ++d) { kv[d] = r.q(-2, 2); } model->set_wave_vector(cart(kv)); }
    std::vector<ExpSite> exp; std::vector<MX> onsite; std::vector<int> map, alive(ref->sites.size(), -1);
    for (std::size_t n = 0; n < ref->sites.size(); ++n) {
        if (!ref->sites[n].alive) { continue; }
        alive[n] = static_cast<int>(exp.size());
        exp.push_back({ref->sites[n].fam, ref->sites[n].pos, static_cast<int>(ref->sites[n].e.rows())});
        onsite.push_back(ref->sites[n].e);
        map.push_back(r2s[n]);
    }
    std::vector<ExpBond> eb;
    for (auto const& b : ref->bonds) {
        if (alive[static_cast<std::size_t>(b.i)] >= 0 && alive[static_cast<std::size_t>(b.j)] >= 0) { eb.push_back({alive[static_cast<std::size_t>(b.i)], alive[static_cast<std::size_t>(b.j)], b.t, b.image, ""}); }
    }
    auto h = observe(c, model->hamiltonian());
    compare(c, h, assemble(exp, onsite, eb, map, v, kv), periodic ? 3e-4 : 3e-5);
    check_hermitian(c, h);
    c.require(ref->at == nops - 1, [] { return std::string("the structure was built twice"); });
    c.count("callbacks", ref->seen_calls);
    c.count("sites_generated", ref->made);
    c.count("sites_removed", ref->removed);
    c.count("pairs_generated", ref->pairs);
    c.count("pairs_collapsed", ref->collapsed);
    c.count("bonds_on_top_of_others", ref->parallel);
    c.count(periodic ? "periodic_systems" : "finite_systems");
    c.sig(static_cast<std::uint64_t>(nops)); c.sig(exp.size()); c.sig(eb.size());
    c.nontrivial = has_generator;
}

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C10";
    s.random_case = random_case;
    s.rule = "random finite or periodic model with 1-7 interleaved site generators, hopping generators, state and position modifiers "
             "(repeated, reversed, parallel and inconsistent pairs, any orbital counts); the reference follows the callbacks and judges "
             "the system each generator sees, then the final system and matrix; non-trivial: at least one generator";
    return main_suite(s, argc, argv);
}
