// C11: results depend only on the final definition, not on evaluation history
#include "energy.hpp"
#include "snapshot.hpp"
using namespace mon;

namespace {

struct UserError : std::runtime_error { UserError() : std::runtime_error("user error") {} };

/// Shared by all the callbacks of a case
struct Control {
    std::int64_t calls = 0;
    int fail_in = -1;
    bool failed = false;
    void tick() {
        ++calls;
        if (fail_in >= 0 && fail_in-- == 0) { failed = true; throw UserError(); }
    }
};
using Ctl = std::shared_ptr<Control>;

enum Slot { primitive, shape, symmetry, wave, structure, energy, lead };
struct Step { Slot slot; std::string text; std::function<void(cpb::Model&)> apply; };

double coin(V3 const& p, std::uint64_t salt) {
    std::uint64_t h = salt;
    for (int k = 0; k < 3; ++k) { h = hash64(h, static_cast<std::uint64_t>(static_cast<std::int64_t>(std::floor(p[k] * 512 + 0.5)))); }
    return static_cast<double>(h >> 11) * (1.0 / 9007199254740992.0);
}

cpb::Shape counted(cpb::Shape s, Ctl ctl) {
    auto f = s.contains;
    s.contains = [f, ctl](cpb::CartesianArrayConstRef p) { ctl->tick(); return f(p); };
    return s;
}

Step make_step(Context& c, RLat const& lat, Ctl ctl, int serial) {
    auto& r = c.rng;
    auto nd = lat.ndim();
    auto x = r.u();
    auto small_shift = [&] {
        V3 t(0, 0, 0);
        for (int k = 0; k < nd; ++k) { t += r.q(-0.2, 0.2, 32) * lat.a[static_cast<std::size_t>(k)]; }
        return t;
    };
    if (x < 0.08) {
        Cell n{{1, 1, 1}};
        for (int k = 0; k < nd; ++k) { n[static_cast<std::size_t>(k)] = r.i(1, nd == 1 ? 12 : nd == 2 ? 5 : 3); }
        return {primitive, "primitive" + str(n), [n](cpb::Model& m) { m.add(cpb::Primitive(n[0], n[1], n[2])); }};
    }
    if (x < 0.2) {
        auto s = rand_shape(r, lat, 40);
        if (r.p(0.4)) { s.shape.lattice_offset = cart(small_shift()); s.text += " offset"; }
        auto sh = counted(s.shape, ctl);
        return {shape, "shape " + s.text, [sh](cpb::Model& m) { m.add(sh); }};
    }
    if (x < 0.3) {
        std::array<float, 3> l{{-1, -1, -1}};
        auto off = r.p(0.2);
        for (int k = 0; k < nd; ++k) {
            auto n = r.i(1, 3);
            if (!off && r.p(0.6)) { l[static_cast<std::size_t>(k)] = r.p(0.4) ? 0.f : static_cast<float>(n * lat.a[static_cast<std::size_t>(k)].norm()); }
        }
        return {symmetry, "symmetry(" + str(l[0]) + "," + str(l[1]) + "," + str(l[2]) + ")", [l](cpb::Model& m) { m.add(cpb::TranslationalSymmetry(l[0], l[1], l[2])); }};
    }
    if (x < 0.38) {
        V3 k(r.q(-2, 2), r.q(-2, 2), r.p(0.2) ? r.q(-2, 2) : 0);
        return {wave, "k" + str(k), [k](cpb::Model& m) { m.set_wave_vector(cart(k)); }};
    }
    if (x < 0.52) {
        auto salt = r.next();
        auto prob = r.p(0.1) ? 1.0 : r.u(0, 0.4);
        auto minn = r.p(0.3) ? r.i(1, 2) : 0;
        return {structure, "state(" + str(prob) + "," + std::to_string(minn) + ")", [=](cpb::Model& m) {
            m.add(cpb::SiteStateModifier([=](Eigen::Ref<cpb::ArrayX<bool>> st, cpb::CartesianArrayConstRef p, cpb::string_view) {
                ctl->tick();
                for (cpb::idx_t q = 0; q < p.size(); ++q) { if (coin(V3(p.x()[q], p.y()[q], p.z()[q]), salt) < prob) { st[q] = false; } }
            }, minn));
        }};
    }
    if (x < 0.58) {
        auto t = small_shift();
        return {structure, "move", [=](cpb::Model& m) {
            m.add(cpb::PositionModifier([=](cpb::CartesianArrayRef p, cpb::string_view) {
                ctl->tick();
                for (cpb::idx_t q = 0; q < p.size(); ++q) { p.x()[q] += static_cast<float>(t[0]); p.y()[q] += static_cast<float>(t[1]); p.z()[q] *= 1.25f; }
            }));
        }};
    }
    if (x < 0.64) {
        auto n = r.i(1, 2), count = r.i(0, 4);
        auto e = rand_hermitian(r, n, r.p(0.2), r.i(0, 2));
        auto at = V3(r.q(-5, 5), r.q(-5, 5), r.q(-5, 5));
        auto name = "G" + std::to_string(serial);
        return {structure, name, [=](cpb::Model& m) {
            m.add(cpb::SiteGenerator(name, to_cpb(e), [=](cpb::System const&) {
                ctl->tick();
                cpb::CartesianArray a(count);
                for (int q = 0; q < count; ++q) { a[q] = cart(at + V3(q, 0.5 * q, 0)); }
                return a;
            }));
        }};
    }
    if (x < 0.7) {
        auto t = rand_c(r, r.p(0.2));
        auto salt = r.next();
        auto count = r.i(0, 5);
        auto name = "h" + std::to_string(serial);
        return {structure, name, [=](cpb::Model& m) {
            m.add(cpb::HoppingGenerator(name, t, [=](cpb::System const& s) {
                ctl->tick();
                std::vector<int> one;
                Rng q(salt);
                std::vector<std::pair<int, int>> pairs;
                for (auto const& sub : s.compressed_sublattices) {
                    if (sub.num_orbitals() != 1) { continue; }
                    for (auto n = sub.sys_start(); n < sub.sys_end(); ++n) { one.push_back(static_cast<int>(n)); }
                }
                for (int k = 0; k < count && one.size() > 1; ++k) {
                    auto a = q.pick(one), b = q.pick(one);
                    if (a != b) { pairs.push_back({a, b}); }
                }
                cpb::HoppingGenerator::Result res{cpb::ArrayXi(static_cast<cpb::idx_t>(pairs.size())), cpb::ArrayXi(static_cast<cpb::idx_t>(pairs.size()))};
                for (std::size_t k = 0; k < pairs.size(); ++k) { res.from[static_cast<cpb::idx_t>(k)] = pairs[k].first; res.to[static_cast<cpb::idx_t>(k)] = pairs[k].second; }
                return res;
            }));
        }};
    }
    if (x < 0.88) {
        auto f = rand_energy_fn(r, lat, r.p(0.15));
        f.is_double = r.p(0.15);
        if (!f.is_complex && r.p(0.25)) { f.dynamic = true; if (f.onsite) { f.w = cd(0.5, 0.25); } }
        CallHook hook = [ctl](EnergyFn const&, bool, std::string const&) { ctl->tick(); };
        return {energy, f.describe(), [=](cpb::Model& m) { add_energy(m, f, 0, nullptr, hook); }};
    }
    auto dir = r.i(1, std::max(2, nd)) * (r.p(0.5) ? 1 : -1);
    V3 ctr(0, 0, 0), w(r.u(2, 12), r.u(2, 12), 12);
    if (r.p(0.2)) { ctr = V3(r.u(-2, 2), r.u(-2, 2), 0); }
    auto s = counted(cpb::FreeformShape([=](cpb::CartesianArrayConstRef p) {
        cpb::ArrayX<bool> a(p.size());
        for (cpb::idx_t n = 0; n < p.size(); ++n) { a[n] = std::abs(p.x()[n] - ctr[0]) < w[0] && std::abs(p.y()[n] - ctr[1]) < w[1]; }
        return a;
    }, cart(w), cart(ctr)), ctl);
    return {lead, "lead(" + std::to_string(dir) + ")", [=](cpb::Model& m) { m.attach_lead(dir, s); }};
}

/// A step which must be refused and change nothing
Step bad_step(Rng& r, RLat const& lat, std::vector<Step> const& def) {
    auto nd = lat.ndim();
    for (;;) {
        switch (r.i(0, 4)) {
            case 0: if (nd < 3) { return {primitive, "bad primitive", [nd](cpb::Model& m) { cpb::Primitive p(2, 2, 2); if (nd == 2) { p = cpb::Primitive(3, 2, 4); } m.add(p); }}; } break;
            case 1: return {lead, "bad lead", [](cpb::Model& m) { m.attach_lead(0, cpb::Shape()); }};
            case 2: if (nd < 3) { return {lead, "bad lead", [nd](cpb::Model& m) { m.attach_lead(nd + 1, cpb::Shape()); }}; } break;
            case 3: {
                std::vector<std::string> names;
                for (auto const& s : def) { if (s.text[0] == 'G' && s.slot == structure) { names.push_back(s.text); } }
                names.push_back(lat.fam_name(0));
                auto n = r.pick(names);
                return {structure, "bad " + n, [n](cpb::Model& m) { m.add(cpb::SiteGenerator(n, cpb::MatrixXcd::Constant(1, 1, 7.0), [](cpb::System const&) { return cpb::CartesianArray(2); })); }};
            }
            default: {
                V3 t = 0.9 * lat.a[0] - lat.offset;
                t = lat.a[0] * 3;
                return {shape, "bad shape", [t](cpb::Model& m) {
                    auto s = cpb::FreeformShape([](cpb::CartesianArrayConstRef p) { return cpb::ArrayX<bool>(cpb::ArrayX<bool>::Constant(p.size(), true)); }, cpb::Cartesian(2, 2, 2));
                    s.lattice_offset = cart(t);
                    m.add(s);
                }};
            }
        }
    }
}

struct Outcome {
    std::string sys_err, ham_err, lead_err;
    std::uint64_t sys = 0, ham = 0;
    std::vector<std::uint64_t> leads;
    bool complex = false, dbl = false;
    cpb::idx_t sites = 0;
};

template<class F> std::string guarded(F f) {
    try { f(); } catch (UserError const&) { return "user error"; } catch (std::exception const& e) { return std::string("error: ") + e.what(); }
    return "";
}

/// Everything the model hands out, in a given order of questions
Outcome evaluate(Context& c, cpb::Model const& m) {
    Outcome o;
    o.sys_err = guarded([&] { o.sites = m.system()->num_sites(); o.sys = fingerprint(*m.system()); });
    o.ham_err = guarded([&] { m.hamiltonian(); });
    if (o.ham_err.empty()) { o.lead_err = guarded([&] { m.leads(); }); }
    if (o.ham_err.empty()) { o.ham = fingerprint(c, m.hamiltonian()); }
    if (o.ham_err.empty() && o.lead_err.empty()) {
        o.lead_err = guarded([&] { for (int k = 0; k < m.leads().size(); ++k) { o.leads.push_back(fingerprint(c, m.lead(static_cast<std::size_t>(k)))); } });
    }
    o.complex = m.is_complex(); o.dbl = m.is_double();
    return o;
}

void compare(Context& c, Outcome const& a, Outcome const& b, std::string const& what) {
    c.require(a.sys_err == b.sys_err, [&] { return what + ": structure '" + a.sys_err + "', fresh model '" + b.sys_err + "'"; });
    c.require(a.sys == b.sys, [&] { return what + ": the structure differs from a fresh model's (" + std::to_string(a.sites) + " and " + std::to_string(b.sites) + " sites)"; });
    c.require(a.ham_err == b.ham_err, [&] { return what + ": Hamiltonian '" + a.ham_err + "', fresh model '" + b.ham_err + "'"; });
    c.require(a.ham == b.ham, [&] { return what + ": the Hamiltonian differs from a fresh model's"; });
    c.require(a.lead_err == b.lead_err, [&] { return what + ": leads '" + a.lead_err + "', fresh model '" + b.lead_err + "'"; });
    c.require(a.leads == b.leads, [&] { return what + ": the leads differ from a fresh model's"; });
    c.require(!a.ham_err.empty() || (a.complex == b.complex && a.dbl == b.dbl), [&] { return what + ": the reported number type differs from a fresh model's"; });
}

struct Kept {
    std::shared_ptr<cpb::System const> sys; std::uint64_t sys_h = 0;
    cpb::Hamiltonian ham; std::uint64_t ham_h = 0;
    std::vector<cpb::Lead> leads; std::vector<std::uint64_t> lead_h;
};

} // namespace

static void random_case(Context& c) {
    auto& r = c.rng;
    LatOpt lo;
    lo.max_norb = r.p(0.6) ? 1 : 2;
    auto lat = rand_lattice(r, lo);
    c.note(lat.describe());
    auto ctl = std::make_shared<Control>();
    std::vector<Step> def;
    std::unique_ptr<cpb::Model> model(new cpb::Model(lat.make()));
    std::vector<Kept> kept;
    std::vector<std::pair<std::unique_ptr<cpb::Model>, Outcome>> copies;
    std::int64_t evals = 0, errors = 0, refused = 0, leads = 0;

    auto fresh = [&](bool all) {
        std::unique_ptr<cpb::Model> m(new cpb::Model(lat.make()));
        for (std::size_t n = 0; n < def.size(); ++n) {
            auto s = def[n].slot;
            auto replaced = false;
            if (s == primitive || s == shape || s == symmetry || s == wave) {
                for (std::size_t q = n + 1; q < def.size(); ++q) { replaced = replaced || def[q].slot == s; }
            }
            if (all || !replaced) { def[n].apply(*m); }
        }
        return m;
    };
    auto judge = [&](std::string const& what) {
        ctl->fail_in = -1;
        auto got = evaluate(c, *model);
        auto calls = ctl->calls;
        if (got.sys_err.empty() && got.ham_err.empty() && got.lead_err.empty()) {
            auto again = evaluate(c, *model);
            compare(c, again, got, what + ", evaluated again");
            c.require(ctl->calls == calls, [&] { return what + ": evaluating again called the modifiers again"; });
        }
        auto f = fresh(true);
        compare(c, got, evaluate(c, *f), what);
        f = fresh(false);
        compare(c, got, evaluate(c, *f), what + " (only what is in force)");
        ++evals;
        leads += static_cast<std::int64_t>(got.leads.size());
        if (!got.sys_err.empty() || !got.ham_err.empty() || !got.lead_err.empty()) { c.count("evaluations_refused"); }
        else { c.count("evaluations_compared"); }
        return got;
    };
    auto keep = [&] {
        Kept k;
        if (!guarded([&] { k.sys = model->system(); k.sys_h = fingerprint(*k.sys); }).empty()) { return; }
        if (guarded([&] { k.ham = model->hamiltonian(); }).empty()) {
            k.ham_h = fingerprint(c, k.ham);
            guarded([&] { for (int n = 0; n < model->leads().size(); ++n) { k.leads.push_back(model->lead(static_cast<std::size_t>(n))); k.lead_h.push_back(fingerprint(c, k.leads.back())); } });
        }
        kept.push_back(k);
    };

    auto nsteps = r.i(2, 14);
    for (int n = 0; n < nsteps; ++n) {
        auto x = r.u();
        if (x < 0.1) {
            auto b = bad_step(r, lat, def);
            auto err = guarded([&] { b.apply(*model); });
            c.require(!err.empty(), [&] { return b.text + " was accepted"; });
            c.note("[" + b.text + "]");
            ++refused;
        } else if (x < 0.14) {
            auto which = r.i(0, 2);
            if (which == 0) { model->clear_structure_modifiers(); } else if (which == 1) { model->clear_hamiltonian_modifiers(); } else { model->clear_all_modifiers(); }
            std::vector<Step> left;
            for (auto const& s : def) { if (!((s.slot == structure && which != 1) || (s.slot == energy && which != 0))) { left.push_back(s); } }
            def = left;
            c.note("[clear " + std::to_string(which) + "]");
        } else if (x < 0.17) {
            auto b = guarded([&] { std::unique_ptr<cpb::Model> o(new cpb::Model(*model)); copies.emplace_back(std::move(o), Outcome()); });
            copies.back().second = evaluate(c, *fresh(true));
            if (r.p(0.5)) { std::swap(model, copies.back().first); }
            c.note("[copy]");
        } else {
            auto s = make_step(c, lat, ctl, n);
            if (s.slot == lead && lat.ndim() == 1) { continue; }
            auto err = guarded([&] { s.apply(*model); });
            if (!err.empty()) {
                // e.g. an offset which is too large for this lattice: a fresh model has to agree
                auto f = fresh(true);
                auto err2 = guarded([&] { s.apply(*f); });
                c.require(err == err2, [&] { return s.text + " was refused (" + err + "), by a fresh model: '" + err2 + "'"; });
                c.note("[refused " + s.text + "]");
                ++refused;
            } else {
                def.push_back(s);
                c.note(s.text);
            }
        }
        // what happens between the changes
        if (r.p(0.35)) {
            ctl->fail_in = r.i(0, r.p(0.7) ? 6 : 30);
            ctl->failed = false;
            auto which = r.i(0, 3);
            auto err = guarded([&] {
                if (which == 0) { model->system(); } else if (which == 1) { model->hamiltonian(); } else if (which == 2) { model->leads(); } else { model->eval(); }
            });
            ctl->fail_in = -1;
            if (ctl->failed) {
                ++errors;
                c.require(err == "user error", [&] { return "an error in a callback did not reach the caller: '" + err + "'"; });
                c.note("!");
            }
        }
        if (r.p(0.2)) { auto w = r.i(0, 2); guarded([&] { if (w == 0) { model->system(); } else if (w == 1) { model->hamiltonian(); } else { model->eval(); } }); }
        if (r.p(0.15)) { judge("after step " + std::to_string(n)); }
        if (r.p(0.2)) { keep(); }
    }
    auto got = judge("at the end");
    if (got.ham_err.empty() && std::any_of(def.begin(), def.end(), [](Step const& s) { return s.slot == symmetry; }) && r.p(0.5)) {
        // a sweep through wave vectors which may be almost the same
        V3 k(r.q(-2, 2), r.q(-2, 2), r.p(0.2) ? r.q(-2, 2) : 0);
        for (int n = r.i(2, 4); n > 0; --n) {
            def.push_back({wave, "k" + str(k), [k](cpb::Model& m) { m.set_wave_vector(cart(k)); }});
            def.back().apply(*model);
            c.note(def.back().text);
            got = judge("wave vector sweep");
            auto eps = std::pow(10., -r.i(1, 6));
            for (int z = 0; z < 3; ++z) { if (r.p(0.7)) { k[z] = static_cast<float>(k[z] * (1 + eps) + (r.p(0.2) ? eps : 0)); } }
            c.count("wave_vectors_swept");
        }
    }
    for (auto const& k : kept) {
        c.require(fingerprint(*k.sys) == k.sys_h, [&] { return std::string("a structure handed out earlier was changed"); });
        if (k.ham) { c.require(fingerprint(c, k.ham) == k.ham_h, [&] { return std::string("a Hamiltonian handed out earlier was changed"); }); }
        for (std::size_t n = 0; n < k.leads.size(); ++n) {
            c.require(fingerprint(c, k.leads[n]) == k.lead_h[n], [&] { return std::string("a lead handed out earlier was changed"); });
        }
        c.count("earlier_results_rechecked");
    }
    for (auto const& k : copies) {
        compare(c, evaluate(c, *k.first), k.second, "copy of the model");
        c.count("copies_compared");
    }
    c.count("evaluations_total", evals);
    c.count("failed_evaluations_injected", errors);
    c.count("refused_steps", refused);
    c.count("leads_compared", leads);
    c.count("callbacks", ctl->calls);
    c.sig(mask_of(lat)); c.sig(def.size()); c.sig(static_cast<std::uint64_t>(errors)); c.sig(static_cast<std::uint64_t>(got.sites)); c.sig(got.ham);
    c.nontrivial = got.sites > 0 && def.size() > 1;
}

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C11";
    s.random_case = random_case;
    s.rule = "random history of additions, replacements, refused additions, clears, copies, evaluations and callbacks failing at a random call; "
             "bit-exact fingerprints of structure, Hamiltonian and leads compared with fresh models; non-trivial: final structure with sites";
    return main_suite(s, argc, argv);
}
