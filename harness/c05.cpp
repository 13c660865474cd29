// C05: shapes contain exactly their interior and always get enough lattice
#include "build_case.hpp"
using namespace mon;

static cpb::CartesianArray to_array(std::vector<V3> const& p) {
    cpb::CartesianArray a(static_cast<cpb::idx_t>(p.size()));
    for (std::size_t n = 0; n < p.size(); ++n) { a[static_cast<cpb::idx_t>(n)] = cart(p[n]); }
    return a;
}

static std::vector<V3> comb(Rng& r) { // rectilinear, many aligned vertices
    auto teeth = r.i(2, 5);
    std::vector<V3> v;
    double x = r.i(-20, 20), y0 = r.i(-20, 20), base = y0 + r.i(1, 3);
    v.push_back({x, y0, 0});
    double end = x;
    std::vector<V3> top;
    for (int t = 0; t < teeth; ++t) {
        double w = r.i(1, 3), h = base + (r.p(0.4) ? 2 : r.i(1, 5));
        top.push_back({end, h, 0}); top.push_back({end + w, h, 0});
        end += w;
        if (t + 1 < teeth) {
            double g = r.i(1, 3);
            top.push_back({end, base, 0}); top.push_back({end + g, base, 0});
            end += g;
        }
    }
    v.push_back({end, y0, 0});
    std::reverse(top.begin(), top.end());
    v.insert(v.end(), top.begin(), top.end());
    return v;
}

static std::vector<V3> spiral(Rng& r) {
    auto n = r.i(6, 14);
    double turn = r.u(0.5, 0.9), c0 = r.u(-5, 5), c1 = r.u(-5, 5);
    std::vector<V3> out, in;
    for (int k = 0; k < n; ++k) {
        double a = turn * k, rad = 1 + 0.45 * k;
        out.push_back({c0 + rad * std::cos(a), c1 + rad * std::sin(a), 0});
        in.push_back({c0 + (rad - 0.6) * std::cos(a), c1 + (rad - 0.6) * std::sin(a), 0});
    }
    std::reverse(in.begin(), in.end());
    out.insert(out.end(), in.begin(), in.end());
    return out;
}

static void polygon_case(Context& c) {
    auto& r = c.rng;
    std::vector<V3> v;
    auto kind = r.i(0, 4);
    if (kind == 0) { v = comb(r); }
    else if (kind == 1) { v = spiral(r); }
    else if (kind == 2) { // any vertex list, self-crossing: the even-odd rule
        auto n = r.i(3, 8);
        for (int k = 0; k < n; ++k) { v.push_back({r.p(0.5) ? r.i(-6, 6) : r.u(-6, 6), r.p(0.5) ? r.i(-6, 6) : r.u(-6, 6), 0}); }
    } else { v = rand_polygon(r, V3(r.u(-20, 20), r.u(-20, 20), 0), r.u(0.5, 15)); }
    if (r.p(0.3)) { // repeated and collinear vertices change nothing
        auto k = static_cast<std::size_t>(r.i(0, static_cast<int>(v.size()) - 1));
        v.insert(v.begin() + static_cast<long>(k), v[k]);
    }
    if (r.p(0.3)) {
        auto k = static_cast<std::size_t>(r.i(0, static_cast<int>(v.size()) - 2));
        v.insert(v.begin() + static_cast<long>(k) + 1, V3((v[k] + v[k + 1]) / 2));
    }
    if (r.p(0.5)) { std::reverse(v.begin(), v.end()); }
    std::rotate(v.begin(), v.begin() + r.i(0, static_cast<int>(v.size()) - 1), v.end());
    if (r.p(0.15)) { // sides which are horizontal up to the last bit
        for (auto& p : v) { if (r.p(0.5)) { p[1] = std::nextafter(static_cast<float>(p[1]), r.p(0.5) ? 1e9f : -1e9f); } }
        c.count("polygons_with_nearly_horizontal_sides");
    }
    auto spec = polygon_spec(v);
    c.note(spec.text);

    double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
    for (auto const& p : spec.vertices) { x0 = std::min(x0, p[0]); x1 = std::max(x1, p[0]); y0 = std::min(y0, p[1]); y1 = std::max(y1, p[1]); }
    double w = std::max(1.0, x1 - x0), h = std::max(1.0, y1 - y0);
    std::vector<V3> q;
    for (int k = 0; k < 120; ++k) {
        V3 p(r.u(x0 - 0.4 * w, x1 + 0.4 * w), r.u(y0 - 0.4 * h, y1 + 0.4 * h), r.p(0.3) ? r.u(-5, 5) : 0);
        if (r.p(0.35)) { p[1] = r.pick(spec.vertices)[1]; } // level with a vertex
        if (r.p(0.1)) { p[0] = r.pick(spec.vertices)[0]; }
        if (r.p(0.2)) { p[0] = std::round(p[0]) + 0.5; p[1] = std::round(p[1]); }
        q.push_back(v3(cart(p)));
    }
    auto got = spec.shape.contains(to_array(q));
    c.require(got.size() == static_cast<cpb::idx_t>(q.size()), [] { return std::string("answer has the wrong length"); });
    int in = 0, decided = 0;
    for (std::size_t n = 0; n < q.size(); ++n) {
        auto want = spec.region(q[n]);
        if (want == 0) { continue; }
        ++decided;
        in += want > 0;
        c.require(got[static_cast<cpb::idx_t>(n)] == (want > 0), [&] { return "polygon calls the point " + str(q[n]) + (want > 0 ? " outside" : " inside"); });
    }
    c.count("polygon_points_decided", decided);
    c.sig(static_cast<std::uint64_t>(kind * 1000 + in));
    c.sig(v.size());
    c.nontrivial = in > 0 && in < decided;
}

static void line_case(Context& c) {
    auto& r = c.rng;
    auto exact = r.p(0.4); // coordinates and dot products exact in single precision: ends are decided too
    auto num = [&](double m) { return exact ? static_cast<double>(r.i(-12, 12)) : r.u(-m, m); };
    V3 a(num(20), num(20), r.p(0.3) ? num(10) : 0), b(num(20), num(20), r.p(0.3) ? num(10) : 0);
    a = v3(cart(a)); b = v3(cart(b));
    auto const point = r.p(0.05);
    if (point) { b = a; }
    else if ((a - b).norm() < 0.5) { throw CaseSkipped{"line of no length"}; }
    cpb::Line line(cart(a), cart(b));
    c.note("line " + str(a) + str(b));
    std::vector<V3> q;
    for (int k = 0; k < 60; ++k) {
        V3 p(num(30), num(30), r.p(0.3) ? num(10) : 0);
        if (exact && r.p(0.1)) { p = r.p(0.5) ? a : b; }
        q.push_back(v3(cart(p)));
    }
    auto got = line.contains(to_array(q));
    int in = 0;
    for (std::size_t n = 0; n < q.size(); ++n) {
        double len = (b - a).norm(), t = (q[n] - a).dot(b - a);
        if (!exact && !point && (std::abs(t / len) < 4e-3 || std::abs(t / len - len) < 4e-3)) { continue; }
        if (!point && (q[n] == a || q[n] == b)) { continue; }
        bool want = !point && t >= 0 && t <= len * len + (exact ? 1e-9 : 0);
        in += want;
        c.require(got[static_cast<cpb::idx_t>(n)] == want, [&] { return "line calls the point " + str(q[n]) + (want ? " outside" : " inside"); });
    }
    c.count("line_points_decided", 60);
    c.sig(static_cast<std::uint64_t>(7000 + in));
    c.sig(hash64(1, str(a)));
    c.nontrivial = in > 0 || point;
}

/// The lattice generated for a shape must not end before the shape does: every site of the
/// bounding region is asked about, and the ones accepted are exactly those in the region
static void coverage_case(Context& c) {
    auto& r = c.rng;
    LatOpt lo;
    lo.max_fam = 0; lo.max_norb = 1; lo.onsite = false; lo.complex = false; lo.max_sub = 2;
    auto lat = rand_lattice(r, lo);
    lat.min_neighbors = 0;
    auto nd = lat.ndim();
    if (nd >= 2 && r.p(0.6)) { // strongly skewed primitive vectors describe the same kind of lattice
        for (int k = 0; k < r.i(1, 3); ++k) {
            auto i = r.i(0, nd - 1), j = (i + r.i(1, nd - 1)) % nd;
            lat.a[i] += r.i(-2, 2) * lat.a[j];
        }
        auto ok = true;
        for (auto const& v : lat.a) { ok = ok && v.norm() > 0.4; }
        if (!ok) { throw CaseSkipped{"degenerate lattice"}; }
        for (int k = 0; k < 3; ++k) { lat.offset[k] = 0; }
        c.count("skewed_lattices");
    }
    ShapeSpec spec;
    double far = r.p(0.3) ? 60 : 8;
    V3 center(r.u(-far, far), nd > 1 ? r.u(-far, far) : 0, nd > 2 ? r.u(-far, far) : 0);
    double s = nd == 1 ? r.u(0.3, 40) : nd == 2 ? r.u(0.3, 7) : r.u(0.3, 3);
    if (nd == 2 && r.p(0.6)) {
        auto v = rand_polygon(r, center, s);
        if (r.p(0.3)) { for (auto& p : v) { p[1] = center[1] + 0.15 * (p[1] - center[1]); } } // flat
        spec = polygon_spec(v);
    } else {
        V3 w(s * r.u(0.1, 1), s * r.u(0.1, 1), s * r.u(0.1, 1));
        spec = field_spec([=](V3 const& p) {
            double m = 1e9;
            for (int k = 0; k < nd; ++k) { m = std::min(m, 0.5 * w[k] - std::abs(p[k] - center[k])); }
            return m;
        }, w, center, "box");
    }
    c.note(lat.describe() + " " + spec.text);
    auto sites = region_sites(lat, spec.vertices, spec.region);
    auto asked = std::make_shared<std::vector<V3>>();
    auto inner = spec.shape.contains;
    auto shape = spec.shape;
    shape.contains = [inner, asked](cpb::CartesianArrayConstRef p) {
        for (cpb::idx_t n = 0; n < p.size(); ++n) { asked->push_back(V3(p.x()[n], p.y()[n], p.z()[n])); }
        return inner(p);
    };
    cpb::Model m(lat.make(), shape);
    std::shared_ptr<cpb::System const> sys;
    try { sys = m.system(); } catch (std::exception const& e) {
        c.require(sites.empty(), [&] { return std::string("failed: ") + e.what(); });
    }
    // every site of the region was offered to the shape, at its true position
    Finder offered;
    for (auto const& p : *asked) { offered.add(p); }
    for (auto const& x : sites) {
        c.require(offered.find(x.pos) >= 0, [&] { return "the generated lattice does not reach the site " + lat.subs[x.uid].name + str(x.c) + " at " + str(x.pos); });
    }
    if (sys) {
        auto v = view(c, *sys);
        match_sites(c, *sys, v, expected_sites(lat, sites));
    }
    c.count("covered_sites", static_cast<std::int64_t>(sites.size()));
    c.sig(mask_of(lat));
    c.sig(sites.size());
    c.sig(hash64(2, str(center)));
    c.nontrivial = sites.size() > 1;
}

static void freeform_case(Context& c) { // exactly what the function says, one answer per position
    auto& r = c.rng;
    V3 w(r.u(0.1, 9), r.u(0.1, 9), r.u(0.1, 9)), ctr(r.u(-9, 9), r.u(-9, 9), r.u(-9, 9));
    auto salt = r.next();
    auto fn = [salt](double x, double y, double z) { return (hash64(hash64(hash64(salt, static_cast<std::uint64_t>(static_cast<std::int64_t>(x * 64))), static_cast<std::uint64_t>(static_cast<std::int64_t>(y * 64))), static_cast<std::uint64_t>(static_cast<std::int64_t>(z * 64))) & 1) != 0; };
    cpb::FreeformShape s([fn](cpb::CartesianArrayConstRef p) {
        cpb::ArrayX<bool> a(p.size());
        for (cpb::idx_t n = 0; n < p.size(); ++n) { a[n] = fn(p.x()[n], p.y()[n], p.z()[n]); }
        return a;
    }, cart(w), cart(ctr));
    std::vector<V3> q;
    for (int k = 0; k < 40; ++k) { q.push_back(v3(cart(V3(r.u(-20, 20), r.u(-20, 20), r.u(-20, 20))))); }
    auto got = s.contains(to_array(q));
    for (std::size_t n = 0; n < q.size(); ++n) {
        c.require(got[static_cast<cpb::idx_t>(n)] == fn(q[n][0], q[n][1], q[n][2]), [] { return std::string("freeform shape changes the answer of its function"); });
    }
    V3 lo(1e9, 1e9, 1e9), hi(-1e9, -1e9, -1e9);
    for (auto const& v : s.vertices) { lo = lo.cwiseMin(v3(v)); hi = hi.cwiseMax(v3(v)); }
    c.require((lo - (ctr - w / 2)).cwiseAbs().maxCoeff() < 1e-4 && (hi - (ctr + w / 2)).cwiseAbs().maxCoeff() < 1e-4, [] { return std::string("bounding box is not the given box"); });
    c.note("freeform w" + str(w) + " c" + str(ctr));
    c.sig(salt);
    c.nontrivial = true;
}

static void random_case(Context& c) {
    auto k = c.rng.u();
    if (k < 0.4) { polygon_case(c); }
    else if (k < 0.55) { line_case(c); }
    else if (k < 0.6) { freeform_case(c); }
    else { coverage_case(c); }
}

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C05";
    s.random_case = random_case;
    s.rule = "random polygons (combs, spirals, stars, self-crossing, repeated vertices, sides horizontal up to one bit) against an "
             "even-odd test along the other axis; lines; freeform boxes; and bounding boxes over skewed lattices, where every site of "
             "the box must have been offered to the shape; non-trivial: some points inside and some outside";
    return main_suite(s, argc, argv);
}
