// C01: random histories of lattice-definition calls, valid and invalid ones mixed, against a
// plain list-of-records reference of what was accepted. After every call the whole definition is
// read back through every getter and compared.
#include "ref.hpp"

namespace {
using namespace mon;

struct S { std::string name; cpb::Cartesian pos; MX e; int uid, aid; };
struct T { Cell d; int from, to; };
struct H { std::string name; MX e; int id; std::vector<T> terms; };

struct RefLat {
    std::vector<cpb::Cartesian> a;
    std::vector<S> subs;
    std::vector<H> hops;
    cpb::Cartesian offset{0, 0, 0};
    int min_neighbors = 1;

    S const* sub(std::string const& n) const { for (auto const& s : subs) { if (s.name == n) return &s; } return nullptr; }
    H* hop(std::string const& n) { for (auto& h : hops) { if (h.name == n) return &h; } return nullptr; }
    bool has_term(T const& t) const {
        for (auto const& h : hops) for (auto const& x : h.terms) {
            if (x.d == t.d && x.from == t.from && x.to == t.to) { return true; }
            if (x.d == Cell{-t.d[0], -t.d[1], -t.d[2]} && x.from == t.to && x.to == t.from) { return true; }
        }
        return false;
    }
    /// what the definition allows for a term (whatever its family)
    bool term_ok(Cell d, std::string const& from, std::string const& to, MX const& e) const {
        auto f = sub(from), t = sub(to);
        if (!f || !t) { return false; }
        if (from == to && d == Cell{0, 0, 0}) { return false; }
        if (f->e.rows() != e.rows() || t->e.rows() != e.cols()) { return false; }
        return !has_term({d, f->uid, t->uid});
    }
};

bool same(cpb::MatrixXcd const& a, MX const& b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) { return false; }
    for (int i = 0; i < b.rows(); ++i) for (int j = 0; j < b.cols(); ++j) { if (a(i, j) != b(i, j)) return false; }
    return true;
}

void compare(Context& c, cpb::Lattice const& l, RefLat const& r, std::string const& when) {
    auto at = [&](char const* what) { return std::string(what) + " " + when; };
    c.check(l.ndim() == static_cast<int>(r.a.size()), at("number of dimensions"));
    for (auto k = 0u; k < r.a.size(); ++k) { c.check(l.get_vectors()[k] == r.a[k] && l.vector(k) == r.a[k], at("primitive vector")); }
    c.check(l.get_offset() == r.offset, at("origin offset"));
    c.check(l.get_min_neighbors() == r.min_neighbors, at("minimum neighbour count"));
    c.require(l.nsub() == static_cast<int>(r.subs.size()), [&] { return at("number of sublattices"); });
    c.require(l.nhop() == static_cast<int>(r.hops.size()), [&] {
        return at("number of hopping families is") + ": " + istr(l.nhop()) + " instead of " + istr(r.hops.size()); });

    bool diag = false, onsite = false;
    for (auto const& s : r.subs) {
        auto it = l.get_sublattices().find(s.name);
        c.check(it != l.get_sublattices().end(), at("missing sublattice"));
        c.check(it->second.position == s.pos, at("sublattice position"));
        c.require(same(it->second.energy, s.e), [&] { return at("onsite matrix of") + s.name; });
        c.check(it->second.unique_id.value() == s.uid, at("sublattice unique ID"));
        c.check(it->second.alias_id.value() == s.aid, at("sublattice alias ID"));
        diag = diag || s.e.diagonal().cwiseAbs().maxCoeff() > 0;
        onsite = onsite || s.e.cwiseAbs().maxCoeff() > 0;
        c.check((MX(s.e) - MX(s.e.adjoint())).norm() == 0, "reference energy is not Hermitian");
    }
    for (auto const& h : r.hops) {
        auto it = l.get_hoppings().find(h.name);
        c.check(it != l.get_hoppings().end(), at("missing hopping family"));
        c.require(same(it->second.energy, h.e), [&] { return at("hopping matrix of ") + h.name; });
        c.check(it->second.family_id.value() == h.id, at("hopping family ID"));
        c.require(it->second.terms.size() == h.terms.size(), [&] { return at("number of terms of ") + h.name; });
        for (auto k = 0u; k < h.terms.size(); ++k) {
            auto const& t = it->second.terms[k];
            c.check(t.relative_index == cpb::Index3D(h.terms[k].d[0], h.terms[k].d[1], h.terms[k].d[2])
                    && t.from.value() == h.terms[k].from && t.to.value() == h.terms[k].to, at("hopping term"));
        }
    }
    c.check(l.has_diagonal_terms() == diag, at("has_diagonal_terms"));
    c.check(l.has_onsite_energy() == onsite, at("has_onsite_energy"));

    // the most hoppings which can leave one orbital, onsite matrix included
    long most = 0;
    for (auto const& s : r.subs) {
        long n = s.e.rows() - 1;
        for (auto const& h : r.hops) for (auto const& t : h.terms) {
            if (t.from == s.uid) { n += h.e.cols(); }
            if (t.to == s.uid) { n += h.e.rows(); }
        }
        most = std::max(most, n);
    }
    c.check(l.max_hoppings() == most, at("max_hoppings"));

    // registries: energies and names by ID; aliases have no entry of their own
    auto const sr = l.site_registry();
    bool cplx = false, multi = false, nonzero = false;
    for (auto const& s : r.subs) {
        if (s.aid != s.uid) { continue; }
        cplx = cplx || s.e.imag().cwiseAbs().maxCoeff() > 1e-10;
        multi = multi || s.e.size() != 1;
        nonzero = nonzero || s.e.cwiseAbs().maxCoeff() > 0;
        c.check(sr.name(cpb::SiteID(s.uid)) == s.name, at("site family name"));
        c.check(same(sr.energy(cpb::SiteID(s.uid)), s.e), at("site family energy"));
        c.check(sr.id(s.name).value() == s.uid, at("site family ID"));
        auto m = sr.name_map();
        c.check(m.count(s.name) && m.at(s.name) == s.uid, at("site name map"));
    }
    c.check(sr.any_complex_terms() == cplx, at("site registry any_complex_terms"));
    c.check(sr.has_multiple_orbitals() == multi, at("site registry has_multiple_orbitals"));
    c.check(sr.has_nonzero_energy() == nonzero, at("site registry has_nonzero_energy"));
    auto const hr = l.hopping_registry();
    c.check(hr.size() == static_cast<cpb::idx_t>(r.hops.size()), at("hopping registry size"));
    cplx = multi = nonzero = false;
    for (auto const& h : r.hops) {
        cplx = cplx || h.e.imag().cwiseAbs().maxCoeff() > 1e-10;
        multi = multi || h.e.size() != 1;
        nonzero = nonzero || h.e.cwiseAbs().maxCoeff() > 0;
        c.check(hr.name(cpb::HopID(h.id)) == h.name && same(hr.energy(cpb::HopID(h.id)), h.e)
                && hr.id(h.name).value() == h.id && hr.name_map().at(h.name) == h.id, at("hopping registry entry"));
    }
    c.check(hr.any_complex_terms() == cplx && hr.has_multiple_orbitals() == multi && hr.has_nonzero_energy() == nonzero, at("hopping registry properties"));

    // the unit cell lists every term from both ends
    if (!r.subs.empty()) {
        auto const uc = l.optimized_unit_cell();
        auto n = 0u;
        std::set<int> seen;
        for (auto const& s : uc) {
            ++n;
            auto const uid = s.unique_id.value();
            c.check(uid >= 0 && uid < static_cast<int>(r.subs.size()) && seen.insert(uid).second, at("unit cell site ID"));
            auto const& e = r.subs[uid];
            c.check(s.position == e.pos && s.norb == e.e.rows() && s.alias_id.value() == e.aid, at("unit cell site"));
            std::multiset<std::tuple<int, int, int, int, int, bool>> got, want;
            for (auto const& h : s.hoppings) {
                got.insert(std::make_tuple(h.relative_index[0], h.relative_index[1], h.relative_index[2],
                                           static_cast<int>(uc[h.to_sub_idx].unique_id.value()), static_cast<int>(h.family_id.value()), h.is_conjugate));
            }
            for (auto const& h : r.hops) for (auto const& t : h.terms) {
                if (t.from == uid) { want.insert(std::make_tuple(t.d[0], t.d[1], t.d[2], t.to, h.id, false)); }
                if (t.to == uid) { want.insert(std::make_tuple(-t.d[0], -t.d[1], -t.d[2], t.from, h.id, true)); }
            }
            c.check(got == want, at("unit cell hoppings"));
        }
        c.check(n == r.subs.size(), at("unit cell size"));
        std::set<int> done; int last = -1, last_norb = 0;
        for (auto const& s : uc) { // families contiguous, fewer orbitals first
            auto const aid = s.alias_id.value();
            if (aid != last) { c.check(done.insert(aid).second, at("families of the unit cell not contiguous")); }
            last = aid;
            c.check(s.norb >= last_norb, at("orbital order of the unit cell"));
            last_norb = s.norb;
        }
    }
}

std::uint64_t lattice_hash(RefLat const& r) {
    auto h = hash64(0, r.subs.size());
    for (auto const& s : r.subs) { h = hash64(hash64(h, s.name), s.e.rows() * 100 + s.aid); }
    for (auto const& x : r.hops) { h = hash64(hash64(h, x.name), x.terms.size()); }
    return h;
}

struct Case {
    Context& c;
    Rng& g;
    RefLat r;
    cpb::Lattice l;
    std::vector<std::string> names, hnames;
    int n_accepted = 0, n_refused = 0;

    static std::vector<cpb::Cartesian> vectors(Rng& g) {
        for (;;) {
            auto n = g.i(1, 3);
            std::vector<cpb::Cartesian> a;
            Eigen::MatrixXd m(n, n);
            for (int k = 0; k < n; ++k) {
                cpb::Cartesian v(g.q(-2, 2), g.q(-2, 2), n == 3 ? g.q(-2, 2) : 0.f);
                if (n == 1) { v = {static_cast<float>(g.q(0.25, 3)), 0, 0}; }
                a.push_back(v);
                for (int j = 0; j < n; ++j) { m(j, k) = v[j]; }
            }
            if (std::abs(m.determinant()) > 0.3) { return a; }
        }
    }
    static cpb::Lattice make(std::vector<cpb::Cartesian> const& a) {
        return a.size() == 1 ? cpb::Lattice(a[0]) : a.size() == 2 ? cpb::Lattice(a[0], a[1]) : cpb::Lattice(a[0], a[1], a[2]);
    }
    Case(Context& c) : c(c), g(c.rng), r{vectors(g), {}, {}}, l(make(r.a)) {
        names = {"A", "B", "C", "AB", "sub one", "a", "A'"};
        hnames = {"t", "t1", "A", "hop", "gamma_0", "T"};
    }

    template<class F> bool call(std::string const& what, bool valid, F f) {
        c.note(what + (valid ? "" : " (invalid)"));
        bool refused = false;
        std::string msg;
        try { f(); } catch (std::exception const& e) { refused = true; msg = e.what(); }
        c.require(refused == !valid, [&] {
            return refused ? "valid call was refused: " + what + ": " + msg : "invalid call was accepted: " + what; });
        if (refused) { ++n_refused; c.count("refused calls"); c.check(!msg.empty(), "error without message"); }
        else { ++n_accepted; c.count("accepted calls"); }
        return !refused;
    }
    double val() { return g.p(0.25) ? 0.0 : g.q(-3, 3, 16); }
    cd cval(bool complex) { return {val(), complex ? val() : 0.0}; }
    MX hermitian(int n, bool complex) {
        MX m(n, n);
        for (int i = 0; i < n; ++i) {
            m(i, i) = val();
            for (int j = i + 1; j < n; ++j) { m(i, j) = cval(complex); m(j, i) = std::conj(m(i, j)); }
        }
        return m;
    }
    static MX upper(MX m) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < i; ++j) { m(i, j) = 0; } return m; }
    std::string some_name() { return g.pick(names); }
    std::string some_sub() { return (!r.subs.empty() && !g.p(0.05)) ? g.pick(r.subs).name : some_name(); }
    cpb::Cartesian pos() { return {static_cast<float>(g.q(-1, 1)), static_cast<float>(g.q(-1, 1)), static_cast<float>(g.q(-1, 1))}; }

    void sublattice() {
        auto name = g.p(0.04) ? std::string() : some_name();
        auto const p = pos();
        auto const name_ok = !name.empty() && !r.sub(name);
        auto add = [&](MX const& e) { auto id = static_cast<int>(r.subs.size()); r.subs.push_back({name, p, e, id, id}); };
        auto const kind = g.i(0, 11);
        if (kind <= 1) {
            auto v = val();
            if (call("add_sublattice('" + name + "'," + str(v) + ")", name_ok, [&] { l.add_sublattice(name, p, v); })) { add(MX::Constant(1, 1, v)); }
        } else if (kind == 2) {
            if (call("add_sublattice('" + name + "')", name_ok, [&] { l.add_sublattice(name, p); })) { add(MX::Zero(1, 1)); }
        } else if (kind <= 4) {
            auto n = g.p(0.1) ? 0 : g.i(1, 4);
            cpb::VectorXd v(n);
            MX e = MX::Zero(n, n);
            for (int k = 0; k < n; ++k) { v[k] = val(); e(k, k) = v[k]; }
            if (call("add_sublattice('" + name + "',vector of " + istr(n) + ")", name_ok && n > 0, [&] { l.add_sublattice(name, p, v); })) { add(e); }
        } else {
            auto n = g.i(1, 4);
            MX e = hermitian(n, g.p(0.5));
            MX arg = e;
            bool ok = true;
            std::string how = "Hermitian";
            if (kind == 5 || kind == 6) { arg = upper(e); how = "upper"; }
            if (kind == 7) { // not square or empty
                auto m = g.i(0, 4);
                if (m == n) { m = 0; }
                if (g.p(0.2)) { n = 0; }
                arg = MX::Constant(g.p(0.5) ? n : m, n, 1.5); ok = arg.rows() == arg.cols() && arg.rows() > 0; how = "not square";
                if (ok) { ok = false; arg = MX::Constant(1, 2, 0.5); }
            }
            if (kind == 8) { auto k = g.i(0, n - 1); arg(k, k) += cd(0, g.p(0.5) ? 0.5 : -1e-3); ok = false; how = "complex diagonal"; }
            if (kind == 9 && n > 1) { // a lower entry which is not the conjugate of the upper one
                auto j = g.i(0, n - 2), i = g.i(j + 1, n - 1);
                auto const k = g.i(0, 3);
                if (k == 0) { arg(i, j) += 0.125; }
                else if (k == 1) { arg(i, j) += cd(0, 0.125); }
                else if (k == 2) { arg(j, i) = {1, 0.5}; arg(i, j) = {1, 0.5}; }
                else { arg = upper(e); arg(i, j) = {0, 1}; arg(j, i) = 0; }
                ok = MX(upper(arg)) == arg || MX(arg.adjoint()) == arg; // may have become zero
                if (ok) { e = upper(arg); for (int y = 0; y < n; ++y) for (int x = 0; x < y; ++x) { e(y, x) = std::conj(e(x, y)); } }
                how = "not Hermitian";
            }
            if (kind == 10 && n > 1) { arg = MX(upper(e).transpose()); ok = (arg - MX(arg.diagonal().asDiagonal())).norm() == 0; how = "lower"; }
            if (call("add_sublattice('" + name + "'," + how + " " + istr(arg.rows()) + "x" + istr(arg.cols()) + ")", name_ok && ok,
                     [&] { l.add_sublattice(name, p, to_cpb(arg)); })) { add(kind == 10 && n > 1 ? arg : e); }
        }
    }
    void alias() {
        auto name = g.p(0.05) ? std::string() : some_name();
        auto orig = some_sub();
        auto const p = pos();
        auto o = r.sub(orig);
        bool ok = !name.empty() && !r.sub(name) && o;
        if (call("add_alias('" + name + "','" + orig + "')", ok, [&] { l.add_alias(name, orig, p); })) {
            auto id = static_cast<int>(r.subs.size());
            S s{name, p, o->e, id, o->aid};
            r.subs.push_back(s);
        }
    }
    MX hop_matrix(int rows, int cols) {
        MX m(rows, cols);
        auto cplx = g.p(0.4);
        for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) { m(i, j) = cval(cplx); }
        return m;
    }
    int norb() { return r.subs.empty() || g.p(0.2) ? g.i(1, 3) : static_cast<int>(g.pick(r.subs).e.rows()); }
    void energy() {
        auto name = g.p(0.04) ? std::string() : g.pick(hnames);
        bool ok = !name.empty() && !r.hop(name);
        if (g.p(0.4)) {
            auto v = cval(g.p(0.4));
            if (call("register_hopping_energy('" + name + "'," + str(v) + ")", ok, [&] { l.register_hopping_energy(name, v); })) {
                r.hops.push_back({name, MX::Constant(1, 1, v), static_cast<int>(r.hops.size()), {}}); }
        } else {
            auto m = hop_matrix(norb(), norb());
            if (g.p(0.08)) { m = g.p(0.5) ? MX(0, 0) : g.p(0.5) ? MX(0, 2) : MX(1, 0); ok = false; }
            if (call("register_hopping_energy('" + name + "'," + istr(m.rows()) + "x" + istr(m.cols()) + ")", ok,
                     [&] { l.register_hopping_energy(name, to_cpb(m)); })) {
                r.hops.push_back({name, m, static_cast<int>(r.hops.size()), {}}); }
        }
    }
    void hopping() {
        auto from = some_sub(), to = some_sub();
        Cell d{0, 0, 0};
        for (int k = 0; k < 3; ++k) { if (k < static_cast<int>(r.a.size()) || g.p(0.02)) { d[k] = g.p(0.5) ? 0 : g.i(-2, 2); } }
        if (g.p(0.25)) { // repeat an existing term, directly or from the other end
            std::vector<T> all;
            for (auto const& h : r.hops) { all.insert(all.end(), h.terms.begin(), h.terms.end()); }
            if (!all.empty()) {
                auto t = g.pick(all);
                d = t.d; from = r.subs[t.from].name; to = r.subs[t.to].name;
                auto const k = g.i(0, 4);
                if (k == 1 || k == 2) { std::swap(from, to); d = {-d[0], -d[1], -d[2]}; }
                if (k == 3) { std::swap(from, to); }        // another bond, unless the index is zero
                if (k == 4) { d = {-d[0], -d[1], -d[2]}; }  // another bond, unless zero or from == to
            }
        }
        auto f = r.sub(from), t = r.sub(to);
        auto rows = f ? static_cast<int>(f->e.rows()) : 1, cols = t ? static_cast<int>(t->e.rows()) : 1;
        auto const what = "add_hopping(" + str(d) + ",'" + from + "','" + to + "',";
        cpb::Index3D const di(d[0], d[1], d[2]);
        if (g.p(0.45)) { // a named family
            auto name = g.p(0.08) ? g.pick(hnames) : r.hops.empty() ? std::string("none") : g.pick(r.hops).name;
            if (!r.hops.empty() && g.p(0.6)) { // one that fits
                std::vector<std::string> fit;
                for (auto const& h : r.hops) { if (h.e.rows() == rows && h.e.cols() == cols) fit.push_back(h.name); }
                if (!fit.empty()) { name = g.pick(fit); }
            }
            auto h = r.hop(name);
            auto ok = h && r.term_ok(d, from, to, h->e);
            if (call(what + "'" + name + "')", ok, [&] { l.add_hopping(di, from, to, name); })) { h->terms.push_back({d, f->uid, t->uid}); }
            return;
        }
        // anonymous: reuses a family of the same energy
        MX m = g.p(0.9) ? hop_matrix(rows, cols) : hop_matrix(g.i(1, 3), g.i(1, 3));
        if (!r.hops.empty() && g.p(0.4)) {
            m = g.pick(r.hops).e;
            if (g.p(0.2)) { m(g.i(0, m.rows() - 1), g.i(0, m.cols() - 1)) += cd(0, 1e-9); } // almost equal
            if (g.p(0.1)) { m = MX(m.adjoint()); }
        }
        if (g.p(0.04)) { m = g.p(0.5) ? MX(0, 0) : MX(0, 1); }
        auto const ok = m.size() > 0 && r.term_ok(d, from, to, m);
        auto const before = r.hops.size();
        bool const scalar = m.size() == 1 && g.p(0.5);
        if (call(what + istr(m.rows()) + "x" + istr(m.cols()) + (m.size() ? " " + str(m(0, 0)) : "") + ")", ok, [&] {
                if (scalar) { l.add_hopping(di, from, to, m(0, 0)); } else { l.add_hopping(di, from, to, to_cpb(m)); } })) {
            std::vector<H*> equal;
            for (auto& h : r.hops) { if (h.e.rows() == m.rows() && h.e.cols() == m.cols() && h.e == m) equal.push_back(&h); }
            H* used = nullptr;
            for (auto* h : equal) {
                auto it = l.get_hoppings().find(h->name);
                if (it != l.get_hoppings().end() && it->second.terms.size() == h->terms.size() + 1) { used = h; }
            }
            if (equal.empty()) {
                c.check(l.nhop() == static_cast<int>(before) + 1, "an anonymous hopping with a new energy must make a new family");
                std::string name;
                for (auto const& p : l.get_hoppings()) { if (!r.hop(p.first)) name = p.first; }
                c.check(!name.empty(), "anonymous family without a name");
                r.hops.push_back({name, m, static_cast<int>(before), {}});
                used = &r.hops.back();
                c.count("anonymous families made");
            } else {
                c.check(used, "an anonymous hopping must share the family of equal energy");
                c.count("anonymous families shared");
            }
            used->terms.push_back({d, f->uid, t->uid});
        }
    }
    void offset() {
        // in lattice coordinates; only what is clearly within or beyond the limit
        V3 p(0, 0, 0);
        bool ok = true;
        for (auto const& a : r.a) {
            double x = g.u(-0.54, 0.54);
            if (g.p(0.1)) { x = (g.p(0.5) ? 1 : -1) * g.u(0.56, 2); ok = false; }
            p += x * v3(a);
        }
        auto const pos = cart(p);
        if (g.p(0.5)) {
            if (call("set_offset" + str(p), ok, [&] { l.set_offset(pos); })) { r.offset = pos; }
        } else {
            cpb::Lattice other = l;
            if (call("with_offset" + str(p), ok, [&] { other = l.with_offset(pos); })) {
                compare(c, l, r, "after with_offset of a copy");
                l = other;
                r.offset = pos;
            }
        }
    }
    void neighbors() {
        auto n = g.i(0, 4);
        c.note("min_neighbors " + istr(n));
        if (g.p(0.5)) { l.set_min_neighbors(n); }
        else { auto other = l.with_min_neighbors(n); compare(c, l, r, "after with_min_neighbors of a copy"); l = other; }
        r.min_neighbors = n;
    }
    void import() { // as unpickling does
        c.note("export/import");
        auto sub = l.get_sublattices();
        auto hop = l.get_hoppings();
        cpb::Lattice x(l.get_vectors(), sub, hop);
        x.set_offset(l.get_offset());
        x.set_min_neighbors(l.get_min_neighbors());
        l = x;
        c.count("export/import");
    }
    void positions() {
        for (int k = 0; k < 3; ++k) {
            Cell n{g.i(-20, 20), r.a.size() > 1 ? g.i(-20, 20) : 0, r.a.size() > 2 ? g.i(-20, 20) : 0};
            V3 want = v3(r.offset);
            for (auto i = 0u; i < r.a.size(); ++i) { want += n[i] * v3(r.a[i]); }
            std::string name;
            if (!r.subs.empty() && g.p(0.7)) { auto s = g.pick(r.subs); name = s.name; want += v3(s.pos); }
            auto got = l.calc_position({n[0], n[1], n[2]}, name);
            c.check((v3(got) - want).norm() < 1e-4, "calc_position");
            V3 x(0, 0, 0), p(0, 0, 0);
            for (auto i = 0u; i < r.a.size(); ++i) { x[i] = g.u(-5, 5); p += x[i] * v3(r.a[i]); }
            auto back = l.translate_coordinates(cart(p));
            c.require((V3(back[0], back[1], back[2]) - x).norm() < 2e-3, [&] { return "translate_coordinates of " + str(p) + ": " + str(V3(back[0], back[1], back[2])) + " instead of " + str(x); });
        }
        if (g.p(0.3)) {
            bool threw = false;
            try { l.calc_position({0, 0, 0}, "no such sublattice"); } catch (std::exception const&) { threw = true; }
            c.check(threw, "calc_position of an unknown sublattice");
        }
        // what doesn't exist is refused
        auto const sr = l.site_registry();
        auto const hr = l.hopping_registry();
        for (int k = 0; k < 4; ++k) {
            bool threw = false;
            try {
                if (k == 0) { hr.name(cpb::HopID(static_cast<int>(r.hops.size()))); }
                if (k == 1) { hr.energy(cpb::HopID(static_cast<int>(r.hops.size()) + 1)); }
                if (k == 2) { hr.id("no such family"); }
                if (k == 3) { sr.id("no such family"); }
            } catch (std::exception const&) { threw = true; }
            c.check(threw, "a registry returned a family which does not exist");
        }
    }
    void registry() { // families added by generators
        auto sr = l.site_registry();
        auto hr = l.hopping_registry();
        auto before = sr.size();
        auto beforeh = hr.size();
        std::string name = g.p(0.1) ? "" : g.p(0.5) ? some_name() : "new family";
        MX e = hermitian(g.i(1, 3), true);
        bool ok = !name.empty() && std::find(sr.get_names().begin(), sr.get_names().end(), name) == sr.get_names().end();
        auto how = g.i(0, 3);
        MX arg = how == 1 ? upper(e) : e;
        if (how == 2) { arg(0, 0) += cd(0, 1); ok = false; }
        if (how == 3) { arg = MX::Constant(1, 2, 1); ok = false; }
        if (call("SiteRegistry::register_family('" + name + "')", ok, [&] { sr.register_family(name, to_cpb(arg)); })) {
            c.check(sr.size() == before + 1 && sr.id(name).value() == before && same(sr.energy(sr.id(name)), e), "registered site family");
        } else { c.check(sr.size() == before && static_cast<cpb::idx_t>(sr.get_energies().size()) == before, "refused site family"); }
        MX m = hop_matrix(g.i(0, 2), g.i(1, 2));
        ok = !name.empty() && std::find(hr.get_names().begin(), hr.get_names().end(), name) == hr.get_names().end() && m.size() > 0;
        if (call("HoppingRegistry::register_family('" + name + "')", ok, [&] { hr.register_family(name, to_cpb(m)); })) {
            c.check(hr.size() == beforeh + 1 && same(hr.energy(hr.id(name)), m), "registered hopping family");
        } else { c.check(hr.size() == beforeh && static_cast<cpb::idx_t>(hr.get_energies().size()) == beforeh, "refused hopping family"); }
    }
};

void random_case(Context& c) {
    Case k(c);
    auto const steps = k.g.i(4, 30);
    for (int s = 0; s < steps; ++s) {
        auto const x = k.g.i(0, 99);
        if (x < 22 || k.r.subs.empty()) { k.sublattice(); }
        else if (x < 30) { k.alias(); }
        else if (x < 42) { k.energy(); }
        else if (x < 84) { k.hopping(); }
        else if (x < 90) { k.offset(); }
        else if (x < 93) { k.neighbors(); }
        else if (x < 96) { k.positions(); }
        else if (x < 98) { k.registry(); }
        else { k.import(); }
        compare(c, k.l, k.r, "after step " + istr(s));
        c.seen("definitions seen", lattice_hash(k.r));
    }
    k.positions();
    c.sig(lattice_hash(k.r));
    c.sig(k.n_refused);
    c.nontrivial = k.n_accepted > 2 && k.n_refused > 0;
}

/// all ways in which one term can be repeated
void pinned_duplicates(Context& c) {
    for (int ax = 0; ax < 3; ++ax) for (int sign : {-1, 1}) for (int self = 0; self < 2; ++self) for (int mode = 0; mode < 3; ++mode) {
        cpb::Lattice l({1, 0, 0}, {0, 1, 0}, {0, 0, 1});
        l.add_sublattice("A", {0, 0, 0}); l.add_sublattice("B", {0.5, 0, 0});
        l.register_hopping_energy("t", cd(1, 2)); l.register_hopping_energy("u", cd(1, -2));
        cpb::Index3D d(0, 0, 0); d[ax] = sign;
        std::string to = self ? "A" : "B";
        l.add_hopping(d, "A", to, "t");
        for (auto const& fam : {"t", "u"}) for (int rev = 0; rev < 2; ++rev) {
            bool threw = false;
            try {
                cpb::Index3D nd = -d;
                if (mode == 0) { if (rev) { l.add_hopping(nd, to, "A", std::string(fam)); } else { l.add_hopping(d, "A", to, std::string(fam)); } }
                else { auto e = cd(mode, 7); if (rev) { l.add_hopping(nd, to, "A", e); } else { l.add_hopping(d, "A", to, e); } }
            } catch (std::exception const&) { threw = true; }
            c.check(threw, "a repeated term was accepted");
            c.check(l.nhop() == 2 && l.get_hoppings().at("t").terms.size() == 1 && l.get_hoppings().at("u").terms.empty(), "a refused term changed the lattice");
        }
        cpb::Index3D nd = -d;
        if (!self) { l.add_hopping(nd, "A", "B", "t"); c.check(l.get_hoppings().at("t").terms.size() == 2, "another term was not recorded"); }
    }
    c.nontrivial = true;
}
} // namespace

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C01";
    s.random_case = random_case;
    s.pinned = {{"duplicates", pinned_duplicates}};
    s.rule = "at least three accepted and one refused definition call; distinct = final definition and number of refusals";
    return main_suite(s, argc, argv);
}
