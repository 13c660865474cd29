// C24: sequences of public calls, with hostile arguments among them, under sanitizers and valgrind.
// Nothing here judges values (the other monitors do): calls return or throw, what they return is read
// completely, memory is given back, and the instrumentation judges the rest.
#include "energy.hpp"
#include "kpm_case.hpp"
#include "lead_case.hpp"
#include "solver/Solver.hpp"
#include <limits>
#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
#include <sanitizer/allocator_interface.h>
#define VP_HEAP 1
#endif

using namespace mon;
namespace kpm = cpb::kpm;

namespace {

volatile std::uint64_t sink;

/// Reads memory and lets a branch depend on it, so that uninitialised values are noticed
struct Reader {
    std::uint64_t h = 0;
    void bytes(void const* p, std::size_t n) {
        auto b = static_cast<unsigned char const*>(p);
        for (std::size_t i = 0; i < n; ++i) { h = h * 31 + b[i]; }
        if (h == 12345) { sink = h; }
    }
    template<class T> void value(T const& v) { bytes(&v, sizeof v); }
    void text(std::string const& s) { bytes(s.data(), s.size()); }
    template<class A> void array(A const& a) { bytes(a.data(), sizeof(*a.data()) * static_cast<std::size_t>(a.size())); }
};

struct ReadMatrix {
    Reader& r;
    template<class S> void operator()(std::shared_ptr<cpb::SparseMatrixX<S> const> const& p) const {
        if (!p) { return; }
        for (int i = 0; i < p->outerSize(); ++i) {
            for (typename cpb::SparseMatrixX<S>::InnerIterator it(*p, i); it; ++it) { r.value(it.row()); r.value(it.col()); r.value(it.value()); }
        }
    }
};

void read(Reader& r, cpb::HoppingBlocks const& b) {
    for (auto const& block : b.get_serialized_blocks()) {
        r.array(block.first); r.array(block.second);
    }
    r.value(b.nnz());
}
void read(Reader& r, cpb::Hamiltonian const& h) {
    if (h) { h.get_variant().match(ReadMatrix{r}); r.value(h.rows()); r.value(h.cols()); r.value(h.non_zeros()); }
}
void read(Reader& r, cpb::System const& s) {
    r.array(s.positions.x); r.array(s.positions.y); r.array(s.positions.z);
    r.array(s.compressed_sublattices.alias_ids());
    r.array(s.compressed_sublattices.site_counts());
    r.array(s.compressed_sublattices.orbital_counts());
    read(r, s.hopping_blocks);
    for (auto const& b : s.boundaries) { read(r, b.hopping_blocks); r.array(b.shift); }
    auto p = s.expanded_positions();
    r.array(p.x); r.array(p.y); r.array(p.z);
    r.value(s.hamiltonian_size());
    r.value(s.hamiltonian_nnz());
}

struct Session {
    Context& c;
    Rng& r;
    std::int64_t calls = 0, refused = 0;
    Reader out;

    explicit Session(Context& c) : c(c), r(c.rng) {}

    /// One public call
    template<class F> bool call(char const* name, F f) {
        ++calls;
        if (c.verbose) { std::fprintf(stderr, "call %s\n", name); }
        try { f(); return true; }
        catch (CaseSkipped const&) { throw; }
        catch (std::exception const& e) {
            ++refused;
            out.text(e.what());
            if (c.verbose) { std::fprintf(stderr, "  refused: %s\n", e.what()); }
            c.seen("refusals", hash64(1, name) << 12);
            return false;
        }
    }

    double odd() { ///< a number nobody should pass
        switch (r.i(0, 5)) {
            case 0: return std::numeric_limits<double>::quiet_NaN();
            case 1: return std::numeric_limits<double>::infinity();
            case 2: return -std::numeric_limits<double>::infinity();
            case 3: return 1e30;
            case 4: return -1e-30;
            default: return 0;
        }
    }
    float number(double hostile = 0.08) { return static_cast<float>(r.p(hostile) ? odd() : r.q(-3, 3, 16)); }
    cpb::Cartesian position(double hostile = 0.06) { return {number(hostile), number(hostile), r.p(0.5) ? 0.f : number(hostile)}; }
    std::string name() {
        static std::vector<std::string> const pool = {"A", "B", "C", "D", "t", "u", "", "no such", "__anonymous__0", std::string(300, 'x'), std::string("A\0B", 3)};
        return r.pick(pool);
    }
    cpb::MatrixXcd matrix() {
        auto rows = r.i(0, 3), cols = r.p(0.8) ? rows : r.i(0, 3);
        cpb::MatrixXcd m = cpb::MatrixXcd::Zero(rows, cols);
        for (int i = 0; i < rows; ++i) { for (int j = 0; j < cols; ++j) { m(i, j) = cd(number(), r.p(0.3) ? number() : 0); } }
        if (rows == cols && r.p(0.8)) { m = (m + m.adjoint()).eval(); }
        return m;
    }
    int count(int hi = 5) { return r.p(0.1) ? r.pick(std::vector<int>{-1, -7, 0, std::numeric_limits<int>::min()}) : r.i(1, hi); }

    // ------------------------------------------------ parts of a model

    cpb::Shape shape() {
        auto kind = r.i(0, 5);
        if (kind == 0) { return cpb::Line(position(), position()); }
        if (kind == 1 || kind == 2) {
            std::vector<cpb::Cartesian> v;
            for (int n = r.p(0.2) ? r.i(0, 2) : r.i(3, 7); n > 0; --n) { v.push_back(position(0.02)); }
            return cpb::Polygon(v);
        }
        if (kind == 3) { return cpb::Shape(); }
        auto how = r.p(0.1) ? r.i(1, 3) : 0;
        auto radius = r.u(0.3, 3);
        auto contains = [how, radius](cpb::CartesianArrayConstRef p) -> cpb::ArrayX<bool> {
            if (how == 1) { throw std::runtime_error("user error"); }
            if (how == 2) { return cpb::ArrayX<bool>::Constant(p.size(), false); }
            cpb::ArrayX<bool> a = p.x().square() + p.y().square() < static_cast<float>(radius * radius);
            if (how == 3) { a = cpb::ArrayX<bool>::Constant(p.size(), true); }
            return a;
        };
        if (kind == 4) { return cpb::FreeformShape(contains, position(0.03), position(0.03)); }
        std::vector<cpb::Cartesian> v;
        for (int n = r.i(0, 5); n > 0; --n) { v.push_back(position(0.02)); }
        auto s = cpb::Shape(v, contains);
        if (r.p(0.3)) { s.lattice_offset = position(); }
        return s;
    }

    cpb::Lattice lattice() {
        auto make = [&] {
            auto d = r.i(1, 3);
            // (cells of next to no volume only make for huge systems)
            auto a1 = r.p(0.9) ? cpb::Cartesian{1, 0, 0} : position(), a2 = r.p(0.9) ? cpb::Cartesian{0.25f, 1, 0} : position(),
                 a3 = r.p(0.9) ? cpb::Cartesian{0, 0, 1} : position();
            auto thin = d == 1 ? std::abs(a1[0]) < 0.2f : d == 2 ? std::abs(a1[0] * a2[1] - a1[1] * a2[0]) < 0.2f : std::abs(a1.cross(a2).dot(a3)) < 0.2f;
            if (thin) { a1 = {1, 0, 0}; a2 = {0.25f, 1, 0}; a3 = {0, 0, 1}; }
            return d == 1 ? cpb::Lattice(a1) : d == 2 ? cpb::Lattice(a1, a2) : cpb::Lattice(a1, a2, a3);
        };
        std::unique_ptr<cpb::Lattice> lat;
        while (!lat) { call("Lattice", [&] { lat.reset(new cpb::Lattice(make())); }); }
        for (int n = r.i(2, 14); n > 0; --n) {
            auto op = r.i(0, 11);
            if (op <= 2) {
                auto nm = name();
                auto p = position();
                auto how = r.i(0, 3);
                call("add_sublattice", [&] {
                    if (how <= 1) { lat->add_sublattice(nm, p, static_cast<double>(number())); }
                    else if (how == 2) { lat->add_sublattice(nm, p, matrix()); }
                    else {
                        cpb::VectorXd e(r.i(0, 3));
                        for (int i = 0; i < e.size(); ++i) { e[i] = number(); }
                        lat->add_sublattice(nm, p, e);
                    }
                });
            }
            else if (op == 3) { auto a = name(), b = name(); auto p = position(); call("add_alias", [&] { lat->add_alias(a, b, p); }); }
            else if (op == 4) {
                auto nm = name();
                call("register_hopping_energy", [&] { if (r.p(0.5)) { lat->register_hopping_energy(nm, cd(number(), number())); } else { lat->register_hopping_energy(nm, matrix()); } });
            }
            else if (op <= 8) {
                cpb::Index3D d{r.i(-1, 1), r.i(-1, 1), r.p(0.7) ? 0 : r.i(-1, 1)};
                if (r.p(0.03)) { d = cpb::Index3D{r.i(-60, 60), r.i(-60, 60), r.i(-5, 5)}; }
                if (r.p(0.03)) { d[r.i(0, 2)] = r.p(0.5) ? std::numeric_limits<int>::max() : std::numeric_limits<int>::min(); }
                auto a = name(), b = name(), f = name();
                auto how = r.i(0, 2);
                call("add_hopping", [&] {
                    if (how == 0) { lat->add_hopping(d, a, b, f); }
                    else if (how == 1) { lat->add_hopping(d, a, b, cd(number(), r.p(0.3) ? number() : 0)); }
                    else { lat->add_hopping(d, a, b, matrix()); }
                });
            }
            else if (op == 9) { auto p = position(); call("set_offset", [&] { lat->set_offset(p); }); }
            else if (op == 10) { auto k = r.i(-2, 4); call("set_min_neighbors", [&] { lat->set_min_neighbors(k); }); }
            else { query(*lat); }
        }
        query(*lat);
        return *lat;
    }

    void query(cpb::Lattice const& lat) {
        auto nm = name();
        auto p = position();
        call("calc_position", [&] { auto q = lat.calc_position(cpb::Index3D{r.i(-5, 5), r.i(-5, 5), r.i(-5, 5)}, nm); out.array(q); });
        call("translate_coordinates", [&] { auto q = lat.translate_coordinates(p); out.array(q); });
        call("max_hoppings", [&] { out.value(lat.max_hoppings()); });
        call("has_diagonal_terms", [&] { out.value(lat.has_diagonal_terms()); out.value(lat.has_onsite_energy()); });
        call("optimized_unit_cell", [&] {
            auto cell = lat.optimized_unit_cell();
            for (auto const& s : cell) { out.array(s.position); out.value(s.norb); for (auto const& h : s.hoppings) { out.value(h.to_sub_idx); out.value(h.is_conjugate); } }
        });
        call("registries", [&] { auto s = lat.site_registry(); auto h = lat.hopping_registry(); out.value(s.size()); out.value(h.size()); });
        call("with_offset", [&] { auto l = lat.with_offset(position()); out.value(l.ndim()); });
        call("with_min_neighbors", [&] { auto l = lat.with_min_neighbors(r.i(-1, 3)); out.value(l.get_min_neighbors()); });
    }

    // ------------------------------------------------ a model and its queries

    void mutate(cpb::Model& m) {
        switch (r.i(0, 14)) {
            case 0: { auto a = count(), b = count(4), d = count(3); call("add(Primitive)", [&] { m.add(cpb::Primitive(a, b, d)); }); break; }
            case 1: case 2: call("add(Shape)", [&] { m.add(shape()); }); break;
            case 3: { auto len = [&] { return static_cast<float>(r.p(0.1) ? odd() : r.p(0.3) ? 0 : r.p(0.5) ? -1 : r.u(0.5, 5)); };
                auto a = len(), b = len(), d = len();
                call("add(TranslationalSymmetry)", [&] { m.add(cpb::TranslationalSymmetry(a, b, d)); }); break; }
            case 4: { auto d = r.p(0.2) ? r.pick(std::vector<int>{0, 4, -4, 100, std::numeric_limits<int>::min(), std::numeric_limits<int>::max()}) : r.pick(std::vector<int>{1, -1, 2, -2, 3, -3});
                call("attach_lead", [&] { m.attach_lead(d, shape()); }); break; }
            case 5: { auto k = position(); call("set_wave_vector", [&] { m.set_wave_vector(k); }); break; }
            case 6: { auto h = r.i(0, 5); auto s = r.next();
                call("add(SiteStateModifier)", [&] { m.add(cpb::SiteStateModifier([h, s](Eigen::Ref<cpb::ArrayX<bool>> st, cpb::CartesianArrayConstRef p, cpb::string_view) {
                    if (h == 5) { throw std::runtime_error("user error"); }
                    Rng q(s);
                    for (int i = 0; i < st.size(); ++i) { if (h == 0 || q.p(0.2)) { st[i] = h == 4; } }
                    sink = static_cast<std::uint64_t>(p.size());
                }, r.i(-1, 2))); }); break; }
            case 7: { auto h = r.i(0, 5); auto v = number(0.2);
                call("add(PositionModifier)", [&] { m.add(cpb::PositionModifier([h, v](cpb::CartesianArrayRef p, cpb::string_view) {
                    if (h == 5) { throw std::runtime_error("user error"); }
                    if (p.size()) { p.x()[p.size() / 2] += v; p.z() += v; }
                })); }); break; }
            case 8: { auto h = r.i(0, 5); auto v = number(0.1); auto cx = r.p(0.2);
                call("add(OnsiteModifier)", [&] { m.add(cpb::OnsiteModifier([h, v](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef p, cpb::string_view) {
                    if (h == 5) { throw std::runtime_error("user error"); }
                    EnergyView w(e);
                    for (cpb::idx_t k = 0; k < w.count(); ++k) { for (cpb::idx_t i = 0; i < w.rows(); ++i) { w.set(k, i, i, w.get(k, i, i) + cd(v)); } }
                    sink = static_cast<std::uint64_t>(p.size());
                }, cx, r.p(0.2))); }); break; }
            case 9: { auto h = r.i(0, 5); auto v = number(0.1); auto cx = r.p(0.2);
                call("add(HoppingModifier)", [&] { m.add(cpb::HoppingModifier([h, v](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef a, cpb::CartesianArrayConstRef b, cpb::string_view) {
                    if (h == 5) { throw std::runtime_error("user error"); }
                    EnergyView w(e);
                    for (cpb::idx_t k = 0; k < w.count(); ++k) { w.set(k, 0, 0, w.get(k, 0, 0) * cd(v)); }
                    sink = static_cast<std::uint64_t>(a.size() + b.size());
                }, cx, r.p(0.2))); }); break; }
            case 10: { auto nm = name(); auto e = matrix(); auto h = r.i(0, 6); auto n = r.i(0, 4); std::vector<cpb::Cartesian> at; for (int i = 0; i < 4; ++i) { at.push_back(position()); }
                call("add(SiteGenerator)", [&] { m.add(cpb::SiteGenerator(nm, e, [h, n, at](cpb::System const& s) {
                    if (h == 6) { throw std::runtime_error("user error"); }
                    cpb::CartesianArray p(n);
                    for (int i = 0; i < n; ++i) { p[i] = at[static_cast<std::size_t>(i)]; }
                    if (h == 5) { p.y.resize(n + 1); p.y.setZero(); }
                    sink = static_cast<std::uint64_t>(s.num_sites());
                    return p;
                })); }); break; }
            case 11: { auto nm = name(); auto e = matrix(); auto h = r.i(0, 7); auto n = r.i(0, 6); auto s0 = r.next();
                call("add(HoppingGenerator)", [&] { m.add(cpb::HoppingGenerator(nm, e, [h, n, s0](cpb::System const& s) {
                    if (h == 7) { throw std::runtime_error("user error"); }
                    Rng q(s0);
                    cpb::HoppingGenerator::Result res;
                    res.from = cpb::ArrayXi(n);
                    res.to = cpb::ArrayXi(h == 5 ? n + 1 : n);
                    auto size = static_cast<int>(s.num_sites());
                    auto any = [&] { return h == 6 ? q.pick(std::vector<int>{-1, size, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()}) : size ? q.i(0, size - 1) : 0; };
                    for (int i = 0; i < res.from.size(); ++i) { res.from[i] = any(); }
                    for (int i = 0; i < res.to.size(); ++i) { res.to[i] = any(); }
                    return res;
                })); }); break; }
            case 12: call("clear_hamiltonian_modifiers", [&] { m.clear_hamiltonian_modifiers(); }); break;
            case 13: call("clear_structure_modifiers", [&] { m.clear_structure_modifiers(); }); break;
            default: call("clear_all_modifiers", [&] { m.clear_all_modifiers(); }); break;
        }
    }

    void query(cpb::Model& m) {
        std::shared_ptr<cpb::System const> sys;
        call("system", [&] { sys = m.system(); read(out, *sys); });
        call("hamiltonian", [&] { read(out, m.hamiltonian()); });
        call("leads", [&] {
            auto const& ls = m.leads();
            for (int i = 0; i < ls.size(); ++i) {
                auto l = ls[static_cast<std::size_t>(i)];
                for (auto k : l.indices()) { out.value(k); }
                read(out, l.system()); read(out, l.h0()); read(out, l.h1());
            }
        });
        auto n = static_cast<std::size_t>(r.p(0.2) ? std::numeric_limits<int>::max() : r.i(0, 3));
        call("lead", [&] { auto l = m.lead(n); out.value(l.spec().axis); out.value(l.spec().sign); });
        call("report", [&] { auto s = m.report(); out.value(s.size()); });
        call("kinds", [&] { out.value(m.is_complex()); out.value(m.is_double()); out.value(m.is_multiorbital()); });
        if (!sys) { return; }
        for (int k = r.i(0, 4); k > 0; --k) {
            auto p = position(0.15);
            auto nm = name();
            auto idx = sys->num_sites() > 0 ? r.i(0, static_cast<int>(sys->num_sites()) - 1) : 0;
            call("find_nearest", [&] { out.value(sys->find_nearest(p, r.p(0.5) ? "" : nm)); });
            call("sublattice_range", [&] { auto x = sys->sublattice_range(nm); out.value(x.start); out.value(x.end); });
            if (r.p(0.2)) { idx = r.pick(std::vector<int>{-1, static_cast<int>(sys->num_sites()), std::numeric_limits<int>::max()}); }
            call("to_hamiltonian_indices", [&] { auto x = sys->to_hamiltonian_indices(idx); out.array(x); });
        }
        if (r.p(0.4)) { spectral(m); }
    }

    void spectral(cpb::Model& m) {
        auto cfg = rand_kconf(c, 2);
        auto n = 0;
        if (!call("hamiltonian", [&] { n = static_cast<int>(m.hamiltonian().rows()); HMat h = read_hmat(m.hamiltonian()); double lo, hi; if (h.n) { safe_bounds(c, h, lo, hi); cfg.cfg.min_energy = static_cast<float>(lo); cfg.cfg.max_energy = static_cast<float>(hi); } })) { return; }
        if (n > 400 || !(std::abs(cfg.cfg.min_energy) < 1e6f && std::abs(cfg.cfg.max_energy) < 1e6f)) { return; } // out of domain
        auto site = [&] { return static_cast<cpb::idx_t>(r.p(0.1) ? r.pick(std::vector<int>{-1, n, n + 100, std::numeric_limits<int>::min()}) : n ? r.i(0, n - 1) : 0); };
        auto lo = cfg.cfg.min_energy, hi = cfg.cfg.max_energy;
        if (r.p(0.05)) { std::swap(cfg.cfg.min_energy, cfg.cfg.max_energy); }
        std::unique_ptr<cpb::KPM> k;
        if (!call("KPM", [&] { k.reset(new cpb::KPM(m, kpm::DefaultCompute(cfg.threads), cfg.cfg)); })) { return; }
        cpb::ArrayXd e(r.i(0, 4));
        for (int i = 0; i < e.size(); ++i) { e[i] = r.u(lo, hi); }
        auto b = (hi - lo) * r.u(0.05, 0.5);
        if (n == 0) { return; } // there is nothing to ask of an empty Hamiltonian
        for (int q = r.i(1, 3); q > 0; --q) {
            switch (r.i(0, 6)) {
                case 0: call("calc_dos", [&] { auto x = k->calc_dos(e, b, r.i(1, 4)); out.array(x); }); break;
                case 1: { auto p = position(); auto nm = r.p(0.5) ? std::string() : name(); call("calc_ldos", [&] { auto x = k->calc_ldos(e, b, p, nm, r.p(0.5)); out.array(x); }); break; }
                case 2: { auto i = site(), j = site(); call("calc_greens", [&] { auto x = k->calc_greens(i, j, e, b); out.array(x); }); break; }
                case 3: { auto i = site(); std::vector<cpb::idx_t> cols; for (int z = r.i(0, 5); z > 0; --z) { cols.push_back(site()); }
                    call("calc_greens_vector", [&] { for (auto const& x : k->calc_greens_vector(i, cols, e, b)) { out.array(x); } }); break; }
                case 4: { auto dir = r.pick(std::vector<std::string>{"xx", "xy", "yz", "zz", "", "x", "xq", "qx", "xyz", "XX"});
                    call("calc_conductivity", [&] { auto x = k->calc_conductivity(e, b, r.u(1, 300), dir, r.i(1, 2), r.i(2, 20)); out.array(x); }); break; }
                case 5: { auto len = r.p(0.2) ? r.i(0, n + 2) : n; cpb::VectorXcd a = cpb::VectorXcd::Constant(len, cd(1, 0.5)); cpb::VectorXcd bb; if (r.p(0.4)) { bb = cpb::VectorXcd::Constant(r.p(0.2) ? r.i(0, n + 2) : n, cd(1, -1)); }
                    call("moments", [&] { auto x = k->moments(r.i(1, 20), a, bb); out.array(x); }); break; }
                default: call("calc_spatial_ldos", [&] { auto x = k->calc_spatial_ldos(e, b, shape(), r.p(0.7) ? "" : "A"); out.array(x); }); break;
            }
            call("KPM::report", [&] { auto s = k->report(r.p(0.5)); out.value(s.size()); });
        }
        if (r.p(0.3)) { call("set_model", [&] { mutate(m); k->set_model(m); }); }
    }
};

void session(Context& c) {
    Session s(c);
    auto& r = c.rng;
    std::unique_ptr<cpb::Model> m;
    auto tame = r.p(0.6);
    if (tame) {
        LatOpt lo;
        lo.complex = r.p(0.4);
        rand_energy_case(c, m, lo, 0.4);
    } else {
        auto lat = s.lattice();
        if (!s.call("Model", [&] { m.reset(new cpb::Model(lat)); })) { throw CaseSkipped{"no model"}; }
    }
    std::unique_ptr<cpb::Model> copy;
    for (int n = r.i(2, 10); n > 0; --n) {
        s.mutate(*m);
        if (r.p(0.35)) { s.query(*m); }
        if (r.p(0.1)) { copy.reset(new cpb::Model(*m)); }
        if (copy && r.p(0.2)) { s.query(*copy); }
    }
    s.query(*m);
    c.count("public calls", s.calls);
    c.count("refused calls", s.refused);
    c.count(tame ? "sessions on sound lattices" : "sessions on hostile lattices");
    c.sig(s.out.h); c.sig(static_cast<std::uint64_t>(s.calls));
    c.check(s.calls > 0, "no call was made");
    c.nontrivial = s.calls > s.refused;
}

void random_case(Context& c) {
    session(c);
#ifdef VP_HEAP
    // the same again, twice: if memory grows every time, it's leaked
    if (c.rng.p(0.2)) {
        std::size_t used[3];
        for (int k = 0; k < 3; ++k) {
            Context again;
            again.prop = c.prop; again.seed = c.seed; again.case_name = c.case_name;
            again.rng = Rng(hash64(hash64(c.seed, c.prop), c.case_name));
            try { session(again); } catch (CaseSkipped const&) {} 
            again = Context();
            used[k] = __sanitizer_get_current_allocated_bytes();
        }
        c.check(!(used[1] > used[0] && used[2] > used[1]), "every run of this session leaves " + istr(static_cast<std::int64_t>(used[2]) - static_cast<std::int64_t>(used[1])) + " bytes behind");
        c.count("sessions checked for leaks");
    }
#endif
}

} // namespace

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C24";
    s.rule = "a case is one session of public calls with hostile arguments among them; distinct by everything the calls returned; non-trivial when some calls were accepted";
    s.random_case = random_case;
    return main_suite(s, argc, argv);
}
