// C09: the number type follows the model's needs and never changes the result
#include "energy.hpp"
using namespace mon;

namespace {
struct UserError : std::runtime_error { UserError() : std::runtime_error("user error") {} };
}

static void random_case(Context& c) {
    auto& r = c.rng;
    std::unique_ptr<cpb::Model> model;
    LatOpt lo;
    lo.max_norb = r.p(0.5) ? 1 : 3;
    lo.complex = r.p(0.4);
    auto seed_state = r; // the same structure for every number type
    auto e = rand_energy_case(c, model, lo, 0.25);

    std::vector<EnergyFn> fns;
    auto nmod = r.i(0, 4);
    auto cplx = r.p(0.3);
    bool any_complex = e.lat.has_complex() || e.periodic, any_double = false, any_dynamic = false;
    for (int k = 0; k < nmod; ++k) {
        auto f = rand_energy_fn(r, e.lat, cplx);
        f.is_double = r.p(0.2);
        if (!f.is_complex && r.p(0.25)) {
            f.dynamic = true;
            if (f.onsite) { f.w = cd(r.q(-1, 1), r.q(-1, 1)); }
        }
        any_complex = any_complex || f.is_complex;
        any_double = any_double || f.is_double;
        any_dynamic = any_dynamic || f.dynamic;
        c.note(f.describe());
        fns.push_back(f);
    }
    // optionally an error of the user's own in some call, before or after the switch
    auto fail_at = r.p(0.15) ? r.i(0, 12) : -1;
    auto calls = std::make_shared<int>(0);
    auto failed = std::make_shared<bool>(false);
    auto log = std::make_shared<EnergyLog>();
    auto asked = std::make_shared<bool>(false);
    CallHook hook = [=](EnergyFn const& f, bool real, std::string const& name) {
        if ((*calls)++ == fail_at) { *failed = true; throw UserError(); }
        if (real && f.dynamic && f.acts(name)) { *asked = true; }
    };
    for (int k = 0; k < nmod; ++k) { add_energy(*model, fns[static_cast<std::size_t>(k)], k, log, hook); }

    auto sys = model->system();
    auto v = view(c, *sys);
    auto map = match_sites(c, *sys, v, e.exp, 4e-3);
    auto fam = match_families(c, sys->hopping_registry, e.lat);
    std::string error;
    bool user_error = false;
    try { model->hamiltonian(); } catch (UserError const&) { user_error = true; } catch (std::exception const& x) { error = x.what(); }
    if (*failed) {
        c.require(user_error, [&] { return "an error in a modifier did not reach the caller: " + error; });
        c.count("user_errors");
    } else {
        c.require(!user_error && error.empty(), [&] { return "evaluation failed: " + error; });
    }
    if (user_error) { log->clear(); }
    // the attempt in real numbers, if there was one, is given up as a whole
    cpb::Hamiltonian h0;
    try { h0 = model->hamiltonian(); } catch (std::exception const& x) { c.violation(std::string("evaluation failed: ") + x.what()); }
    auto h = observe(c, h0);
    auto want_complex = any_complex || *asked;
    auto want = any_double ? (want_complex ? Num::cdb : Num::d) : (want_complex ? Num::cf : Num::f);
    c.require(h.type == want, [&] { return std::string("the Hamiltonian is ") + num_name(h.type) + ", its ingredients require " + num_name(want); });
    c.require(model->is_complex() == want_complex && model->is_double() == any_double, [] { return std::string("reported number type is wrong"); });
    if (*asked) {
        c.count("switches_to_complex");
        EnergyLog last;
        for (auto const& x : *log) { if (x.type == Num::cf || x.type == Num::cdb) { last.push_back(x); } }
        *log = last;
    }
    auto dyn_called = false;
    auto first_state = e.state(*sys, fam);
    for (auto const& f : fns) {
        if (!f.dynamic) { continue; }
        if (f.onsite) { for (auto const& x : first_state.os) { dyn_called = dyn_called || f.acts(x.name); } }
        else { for (auto const& x : first_state.hb) { dyn_called = dyn_called || f.acts(x.name); } }
    }
    if (dyn_called && !any_complex) { c.require(want_complex, [] { return std::string("complex values were never asked for"); }); }

    auto state = e.state(*sys, fam);
    replay_energy(c, fns, *log, state, h.type, e.periodic ? 3e-4 : (any_double ? 1e-10 : 1e-4));
    auto ref = e.hamiltonian(state, map, v);
    // positions are single precision, but the arithmetic on them must not be
    compare(c, h, ref, e.periodic ? 5e-4 : any_double ? 1e-11 : 1e-4);
    check_hermitian(c, h);
    c.seen("number_types", static_cast<std::uint64_t>(h.type));
    c.count(std::string("type ") + num_name(h.type));

    // the same definition in each of the other number types
    for (int t = 0; t < 4; ++t) {
        auto dbl = (t & 1) != 0, cpl = (t & 2) != 0;
        if ((want_complex && !cpl) || (any_double && !dbl)) { continue; }
        Context scratch;
        scratch.rng = seed_state;
        std::unique_ptr<cpb::Model> other;
        auto e2 = rand_energy_case(scratch, other, lo, 0.25);
        EnergyFn none;
        none.onsite = r.p(0.5); none.is_complex = cpl; none.is_double = dbl;
        none.only.insert("no such family");
        auto where = r.i(0, nmod);
        auto log2 = std::make_shared<EnergyLog>();
        auto fns2 = fns;
        fns2.insert(fns2.begin() + where, none);
        for (int k = 0; k <= nmod; ++k) { add_energy(*other, fns2[static_cast<std::size_t>(k)], k, log2); }
        auto g = observe(c, other->hamiltonian());
        auto type = dbl ? (cpl ? Num::cdb : Num::d) : (cpl ? Num::cf : Num::f);
        c.require(g.type == type, [&] { return std::string("the Hamiltonian is ") + num_name(g.type) + ", its ingredients require " + num_name(type); });
        auto st2 = e2.state(*other->system(), fam);
        replay_energy(c, fns2, *log2, st2, g.type, e.periodic ? 3e-4 : dbl ? 1e-10 : 1e-4);
        RHam hh; hh.size = h.rows;
        for (auto const& x : h.entries) { hh.add(x.i, x.j, x.v); }
        compare(c, g, hh, (dbl && any_double) ? 1e-11 : 1e-4, "Hamiltonian in another number type");
        c.count("types_compared");
    }
    c.sig(static_cast<std::uint64_t>(want)); c.sig(e.bonds.size()); c.sig(static_cast<std::uint64_t>(nmod)); c.sig(*asked);
    c.nontrivial = h.entries.size() > 1;
}

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C09";
    s.random_case = random_case;
    s.rule = "random model with 0-4 energy functions declared real, complex, double or turning complex only when called "
             "(ComplexOverride), sometimes with a failing call; type, call log and matrix are compared with the reference, then the same "
             "definition is built in every wider number type; non-trivial: more than one matrix entry";
    return main_suite(s, argc, argv);
}
