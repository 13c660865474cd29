// Random finite models together with their expected structure
#pragma once
#include "ref.hpp"

namespace mon {

struct FiniteCase {
    RLat lat;
    bool shaped = false;
    Cell size{{1, 1, 1}};
    ShapeSpec spec;
    std::vector<RSite> sites; ///< expected

    std::unique_ptr<cpb::Model> model() const {
        if (shaped) { return std::unique_ptr<cpb::Model>(new cpb::Model(lat_for_model(), spec.shape)); }
        return std::unique_ptr<cpb::Model>(new cpb::Model(lat_for_model(), cpb::Primitive(size[0], size[1], size[2])));
    }
    cpb::Lattice lat_for_model() const {
        auto l = lat;
        l.offset = base_offset;
        return l.make();
    }
    V3 base_offset{0, 0, 0}; ///< offset of the lattice itself; lat.offset includes the shape's
};

struct FiniteOpt {
    LatOpt lat;
    double target_sites = 120;
    double shape_prob = 0.6;
    bool shape_offset = true;
    double allow_empty = 1;
};

inline FiniteCase rand_finite(Context& c, FiniteOpt const& o = {}) {
    auto& r = c.rng;
    FiniteCase f;
    f.lat = rand_lattice(r, o.lat);
    f.shaped = r.p(o.shape_prob);
    f.base_offset = f.lat.offset;
    if (f.shaped) {
        f.spec = rand_shape(r, f.lat, o.target_sites);
        if (o.shape_offset && r.p(0.25)) {
            V3 extra(0, 0, 0);
            for (int k = 0; k < f.lat.ndim(); ++k) { extra += r.q(-0.25, 0.25, 32) * f.lat.a[k]; }
            for (int k = 0; k < 3; ++k) { extra[k] = std::round(extra[k] * 256) / 256; }
            auto fr = f.lat.frac(f.lat.offset + extra);
            if (fr.cwiseAbs().maxCoeff() < 0.5) {
                f.spec.shape.lattice_offset = cart(extra);
                f.lat.offset += extra;
                f.spec.text += " shape_offset" + str(extra);
            }
        }
        auto all = region_sites(f.lat, f.spec.vertices, f.spec.region);
        f.sites = remove_dangling(f.lat, all, f.lat.min_neighbors);
        c.count("sites_removed_as_dangling", static_cast<std::int64_t>(all.size() - f.sites.size()));
        c.note(f.lat.describe() + " " + f.spec.text);
    } else {
        for (int k = 0; k < f.lat.ndim(); ++k) {
            auto m = f.lat.ndim() == 1 ? 40 : f.lat.ndim() == 2 ? 9 : 4;
            if (o.target_sites < 60) { m = f.lat.ndim() == 1 ? 12 : f.lat.ndim() == 2 ? 4 : 2; }
            f.size[k] = r.i(1, m);
        }
        f.sites = primitive_sites(f.lat, f.size);
        c.note(f.lat.describe() + " primitive" + str(f.size));
    }
    c.sig(mask_of(f.lat));
    c.sig(f.sites.size());
    return f;
}

} // namespace mon
