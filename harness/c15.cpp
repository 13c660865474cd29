// C15: random operation histories on the two compressed containers, against plain lists.
#include "ref.hpp"

namespace {
using namespace mon;
using cpb::ArrayXi;
using cpb::idx_t;

ArrayXi arr(std::vector<int> const& v) {
    ArrayXi a(static_cast<idx_t>(v.size()));
    for (auto i = 0u; i < v.size(); ++i) { a[i] = v[i]; }
    return a;
}
std::vector<int> vec(ArrayXi const& a) { return {a.data(), a.data() + a.size()}; }

cpb::VectorX<bool> random_keep(Rng& g, idx_t n, std::vector<bool>& keep) {
    cpb::VectorX<bool> k(n);
    keep.assign(n, true);
    auto const mode = g.i(0, 4);
    auto const prob = mode == 0 ? 1.0 : mode == 1 ? 0.0 : mode == 2 ? 0.9 : 0.5;
    auto const lo = n ? g.i(0, n - 1) : 0, hi = n ? g.i(lo, n - 1) : 0;
    for (idx_t i = 0; i < n; ++i) {
        keep[i] = mode == 4 ? !(lo <= i && i <= hi) : g.p(prob);
        k[i] = keep[i];
    }
    return k;
}

template<class F> bool throws(F f) {
    try { f(); } catch (std::exception const&) { return true; }
    return false;
}

// ---------------------------------------------------------------- families

struct Sites {
    Context& c;
    Rng& g;
    cpb::CompressedSublattices cs;
    std::vector<std::pair<int, int>> list;  ///< (family, orbitals) of every site
    struct Run { int id, norb, n; };
    std::vector<Run> runs;                  ///< families in order, including those without sites

    explicit Sites(Context& c) : c(c), g(c.rng) {}

    void compare(cpb::CompressedSublattices const& x) {
        c.check(x.decompressed_size() == static_cast<idx_t>(list.size()), "decompressed_size");
        auto d = x.decompressed();
        c.check(d.size() == static_cast<idx_t>(list.size()), "size of the decompressed list");
        for (auto i = 0u; i < list.size(); ++i) { c.require(d[i] == list[i].first, [&] { return "family of site " + istr(i); }); }

        // what the iteration says about every site
        std::vector<int> seen_ham;
        idx_t sys = 0, ham = 0;
        for (auto const& sub : x) {
            c.check(sub.sys_start() == sys && sub.sys_end() == sys + sub.num_sites(), "site range of a family");
            c.check(sub.ham_start() == ham && sub.ham_size() == sub.num_sites() * sub.num_orbitals()
                    && sub.ham_end() == ham + sub.ham_size(), "orbital range of a family");
            for (auto i = sub.sys_start(); i < sub.sys_end(); ++i) {
                c.check(i < static_cast<idx_t>(list.size()) && list[i].first == sub.id().value() && list[i].second == sub.num_orbitals(), "site data of a family");
            }
            sys = sub.sys_end();
            ham = sub.ham_end();
        }
        idx_t norbs = 0;
        for (auto const& s : list) { norbs += s.second; }
        c.check(sys == static_cast<idx_t>(list.size()) && ham == norbs, "the families cover all sites and orbitals");

        auto ids = vec(x.alias_ids()), counts = vec(x.site_counts()), orbs = vec(x.orbital_counts());
        c.check(ids.size() == runs.size() && counts.size() == runs.size() && orbs.size() == runs.size(), "number of families");
        for (auto i = 0u; i < runs.size(); ++i) {
            c.check(ids[i] == runs[i].id && counts[i] == runs[i].n && orbs[i] == runs[i].norb, "exported family");
        }

        // first site with a number of orbitals (only defined for consistent data)
        bool sorted = true;
        for (auto i = 1u; i < runs.size(); ++i) { sorted = sorted && runs[i - 1].norb <= runs[i].norb; }
        std::set<int> all;
        for (auto const& s : list) if (sorted) { all.insert(s.second); }
        for (auto n : all) {
            idx_t first = 0;
            while (list[first].second != n) { ++first; }
            c.require(x.start_index(n) == first, [&] { return "start_index(" + istr(n) + ")"; });
        }
        int unused = 1;
        auto used = [&](int n) { for (auto const& r : runs) { if (r.norb == n) return true; } return false; };
        while (used(unused)) { ++unused; }
        c.check(throws([&] { x.start_index(unused); }), "start_index of an unused number of orbitals");

        // consistency
        bool ok = true;
        std::set<int> once;
        for (auto i = 0u; i < runs.size(); ++i) {
            ok = ok && once.insert(runs[i].id).second;
            ok = ok && (i == 0 || runs[i - 1].norb <= runs[i].norb);
        }
        auto const n = static_cast<idx_t>(list.size());
        c.check(throws([&] { x.verify(n); }) == !ok, ok ? "consistent data refused by verify" : "inconsistent data accepted by verify");
        c.check(throws([&] { x.verify(n + 1); }), "wrong number of sites accepted by verify");
        c.check(throws([&] { x.verify(n + 1000); }), "wrong number of sites accepted by verify");
        if (n > 0) { c.check(throws([&] { x.verify(n - 1); }), "wrong number of sites accepted by verify"); }
        c.count(ok ? "consistent lists" : "inconsistent lists");
    }

    void run() {
        auto const steps = g.i(1, 14);
        auto const orderly = g.p(0.7);
        int next_id = 0, norb = 1;
        for (int s = 0; s < steps; ++s) {
            auto const k = g.i(0, 9);
            if (k <= 6) {
                int id, no;
                if (!runs.empty() && g.p(0.5)) { id = runs.back().id; no = runs.back().norb; }
                else if (orderly) { id = next_id = next_id + 1; if (g.p(0.4)) { norb += g.i(1, 2); } no = norb; }
                else {
                    id = g.i(0, 4); no = g.i(1, 3);
                    if (!runs.empty() && runs.back().id == id) { no = runs.back().norb; }
                }
                auto const count = g.p(0.5) ? 1 : g.p(0.1) ? g.i(100, 3000) : g.i(1, 20);
                c.note("add(" + istr(id) + "x" + istr(no) + ", " + istr(count) + ")");
                if (count == 1) { cs.add(cpb::SiteID(id), no); } else { cs.add(cpb::SiteID(id), no, count); }
                for (int i = 0; i < count; ++i) { list.emplace_back(id, no); }
                if (runs.empty() || runs.back().id != id) { runs.push_back({id, no, count}); } else { runs.back().n += count; }
            } else if (k <= 8) {
                std::vector<bool> keep;
                auto v = random_keep(g, static_cast<idx_t>(list.size()), keep);
                c.note("filter");
                cs.filter(v);
                std::vector<std::pair<int, int>> rest;
                auto i = 0u;
                for (auto& r : runs) {
                    auto n = 0;
                    for (int j = 0; j < r.n; ++j, ++i) { if (keep[i]) { ++n; rest.push_back(list[i]); } }
                    r.n = n;
                }
                list = rest;
                c.count("family list filters");
            } else {
                c.note("export/import");
                cs = cpb::CompressedSublattices(cs.alias_ids(), cs.site_counts(), cs.orbital_counts());
                c.count("family list imports");
            }
            compare(cs);
        }
        // arrays which don't belong together
        auto ids = vec(cs.alias_ids()), counts = vec(cs.site_counts()), orbs = vec(cs.orbital_counts());
        auto const which = g.i(0, 2);
        auto& v = which == 0 ? ids : which == 1 ? counts : orbs;
        if (g.p(0.5) && !v.empty()) { v.pop_back(); } else { v.push_back(1); }
        c.check(throws([&] { cpb::CompressedSublattices bad(arr(ids), arr(counts), arr(orbs)); }), "inconsistent family arrays were accepted");
        c.sig(list.size());
        for (auto const& r : runs) { c.sig(static_cast<std::uint64_t>(r.id) * 100003 + r.n * 7 + r.norb); }
    }
};

// ---------------------------------------------------------------- bonds

struct Bonds {
    Context& c;
    Rng& g;
    int n = 0;
    std::vector<std::vector<std::pair<int, int>>> fam;
    cpb::NameMap names;
    cpb::HoppingBlocks hb;

    explicit Bonds(Context& c) : c(c), g(c.rng) {}

    static std::pair<int, int> unordered(std::pair<int, int> p) { return {std::min(p.first, p.second), std::max(p.first, p.second)}; }

    void compare(cpb::HoppingBlocks const& x) {
        c.check(x.get_num_sites() == n, "number of sites");
        c.check(x.get_name_map() == names, "family names");
        idx_t total = 0;
        std::vector<int> neighbors(n, 0);
        auto f = 0u;
        for (auto const& b : x) {
            c.check(f < fam.size() && b.family_id().value() == static_cast<int>(f), "family of a block");
            c.require(b.size() == static_cast<idx_t>(fam[f].size()), [&] { return "number of bonds of family " + istr(f) + ": " + istr(b.size()) + " instead of " + istr(fam[f].size()); });
            std::vector<std::pair<int, int>> got, want = fam[f];
            for (auto const& coo : b.coordinates()) { got.emplace_back(coo.row, coo.col); }
            std::sort(got.begin(), got.end());
            std::sort(want.begin(), want.end());
            c.check(got == want, "bonds of a family");
            total += static_cast<idx_t>(want.size());
            for (auto const& p : want) { ++neighbors[p.first]; ++neighbors[p.second]; }
            ++f;
        }
        c.check(f == fam.size(), "number of families");
        c.check(x.nnz() == total, "nnz");
        c.check(vec(x.count_neighbors()) == neighbors, "count_neighbors");

        auto const ser = x.get_serialized_blocks();
        c.check(ser.size() == fam.size(), "number of exported families");
        for (auto i = 0u; i < ser.size(); ++i) {
            c.check(ser[i].first.size() == static_cast<idx_t>(fam[i].size()) && ser[i].second.size() == ser[i].first.size(), "exported family size");
            std::multiset<std::pair<int, int>> a, b(fam[i].begin(), fam[i].end());
            for (idx_t k = 0; k < ser[i].first.size(); ++k) { a.emplace(ser[i].first[k], ser[i].second[k]); }
            c.check(a == b, "exported bonds");
        }

        std::map<std::pair<int, int>, int> dense;
        bool unique = true;
        for (auto i = 0u; i < fam.size(); ++i) for (auto const& p : fam[i]) { unique = dense.emplace(p, i).second && unique; }
        if (unique) {
            auto const csr = x.tocsr();
            c.check(csr.rows() == n && csr.cols() == n && csr.nonZeros() == total && csr.isCompressed(), "sparse matrix size");
            for (int r = 0; r < csr.outerSize(); ++r) {
                for (cpb::HoppingCSR::InnerIterator it(csr, r); it; ++it) {
                    auto d = dense.find({static_cast<int>(it.row()), static_cast<int>(it.col())});
                    c.check(d != dense.end() && d->second == it.value(), "sparse matrix entry");
                }
            }
            c.count("sparse matrices");
        }
        c.count("bonds compared", total);
    }

    void run() {
        n = g.p(0.1) ? g.i(200, 2000) : g.i(1, 30);
        auto const nfam = g.i(1, 4);
        for (int i = 0; i < nfam; ++i) { names["f" + istr(i)] = i; }
        fam.resize(nfam);
        hb = cpb::HoppingBlocks(n, names);
        c.note("bonds: " + istr(n) + " sites, " + istr(nfam) + " families");
        compare(hb);
        if (g.p(0.5)) {
            std::vector<int> r(g.i(0, nfam));
            for (auto& v : r) { v = g.i(0, 50); }
            hb.reserve(arr(r));
            compare(hb);
        }
        auto const steps = g.i(1, 12);
        for (int s = 0; s < steps; ++s) {
            auto const k = g.i(0, 9);
            if (k <= 3 && n > 0) { // one by one: the callers never repeat a pair here
                auto const m = g.i(1, n > 100 ? 300 : 15);
                auto const f = g.i(0, nfam - 1);
                std::set<std::pair<int, int>> have;
                for (auto const& p : fam[f]) { have.insert(unordered(p)); }
                for (int i = 0; i < m; ++i) {
                    std::pair<int, int> p(g.i(0, n - 1), g.i(0, n - 1));
                    if (!have.insert(unordered(p)).second) { continue; }
                    hb.add(cpb::HopID(f), p.first, p.second);
                    fam[f].push_back(p);
                }
                c.note("add " + istr(m) + " to " + istr(f));
            } else if (k <= 5 && n > 0) { // many at once, with repeats in both directions
                auto const m = g.p(0.1) ? 0 : g.i(1, n > 100 ? 500 : 40);
                auto const f = g.i(0, nfam - 1);
                std::vector<int> r, q;
                for (int i = 0; i < m; ++i) {
                    auto a = g.i(0, n - 1), b = g.i(0, n - 1);
                    if (!r.empty() && g.p(0.2)) { auto j = g.i(0, static_cast<int>(r.size()) - 1); a = q[j]; b = r[j]; }
                    else if (!fam[f].empty() && g.p(0.2)) { auto p = g.pick(fam[f]); a = p.first; b = p.second; if (g.p(0.5)) { std::swap(a, b); } }
                    r.push_back(a); q.push_back(b);
                }
                c.note("append " + istr(m) + " to " + istr(f));
                hb.append(cpb::HopID(f), arr(r), arr(q));
                std::set<std::pair<int, int>> have;
                for (auto const& p : fam[f]) { have.insert(unordered(p)); }
                for (int i = 0; i < m; ++i) {
                    std::pair<int, int> p(r[i], q[i]);
                    if (have.insert(unordered(p)).second) { fam[f].push_back(p); } else { c.count("repeated bonds collapsed"); }
                }
            } else if (k == 6) { // mismatched lists are refused and change nothing
                auto const f = g.i(0, nfam - 1);
                std::vector<int> r(g.i(0, 3), 0), q(r.size() + g.i(1, 3), 0);
                if (g.p(0.5)) { std::swap(r, q); }
                c.check(throws([&] { hb.append(cpb::HopID(f), arr(r), arr(q)); }), "mismatched index lists were accepted");
            } else if (k == 7) {
                std::vector<bool> keep;
                auto v = random_keep(g, n, keep);
                std::vector<int> id(n, -1);
                auto m = 0;
                for (int i = 0; i < n; ++i) { if (keep[i]) { id[i] = m++; } }
                c.note("filter " + istr(n) + " -> " + istr(m));
                hb.filter(v);
                n = m;
                for (auto& l : fam) {
                    std::vector<std::pair<int, int>> rest;
                    for (auto const& p : l) { if (id[p.first] >= 0 && id[p.second] >= 0) { rest.emplace_back(id[p.first], id[p.second]); } }
                    l = rest;
                }
                c.count("bond filters");
            } else if (k == 8) {
                auto const m = g.i(0, 10);
                hb.add_sites(m);
                n += m;
                c.note("add_sites " + istr(m));
            } else {
                c.note("export/import");
                hb = cpb::HoppingBlocks(hb.get_num_sites(), hb.get_serialized_blocks(), hb.get_name_map());
                c.count("bond imports");
            }
            compare(hb);
        }
        auto copy = hb;
        compare(copy);

        // files which were tampered with
        auto ser = hb.get_serialized_blocks();
        auto const f = g.i(0, nfam - 1);
        auto r = vec(ser[f].first), q = vec(ser[f].second);
        auto const k = g.i(0, 3);
        if (k == 0) { r.push_back(0); }
        else if (k == 1) { q.push_back(0); }
        else if (k == 2) { r.push_back(n + g.i(0, 5)); q.push_back(0); }
        else { r.push_back(0); q.push_back(-g.i(1, 5)); }
        ser[f] = {arr(r), arr(q)};
        c.check(throws([&] { cpb::HoppingBlocks bad(n, ser, names); }), "inconsistent bonds were accepted");
        c.count("tampered imports refused");
        c.sig(n);
        for (auto const& l : fam) { c.sig(l.size()); for (auto const& p : l) { c.sig(p.first * 4001 + p.second); } }
    }
};

void random_case(Context& c) {
    if (c.rng.p(0.4)) { Sites s(c); s.run(); c.nontrivial = s.runs.size() > 1; c.count("family list histories"); }
    else { Bonds b(c); b.run(); c.nontrivial = b.hb.nnz() > 0; c.count("bond list histories"); }
}
} // namespace

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C15";
    s.random_case = random_case;
    s.rule = "at least two families or one bond at the end of the history; distinct = final content";
    return main_suite(s, argc, argv);
}
