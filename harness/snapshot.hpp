// Deep, bit-exact fingerprints of everything a model hands out
#pragma once
#include "ref.hpp"
#include "Model.hpp"

namespace mon {

struct Hasher {
    std::uint64_t h = 1469598103934665603ull;
    void bytes(void const* p, std::size_t n) {
        auto const* b = static_cast<unsigned char const*>(p);
        while (n >= 8) { std::uint64_t v; std::memcpy(&v, b, 8); h = (h ^ v) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; b += 8; n -= 8; }
        while (n--) { h = (h ^ *b++) * 1099511628211ull; }
    }
    template<class T> void num(T v) { if (v == T(0)) { v = T(0); } bytes(&v, sizeof v); }
    void str(std::string const& s) { num(static_cast<std::uint64_t>(s.size())); bytes(s.data(), s.size()); }
    template<class A> void array(A const& a) {
        num(static_cast<std::int64_t>(a.size()));
        for (decltype(a.size()) k = 0; k < a.size(); ++k) { num(a[k]); }
    }
};

inline void add_to(Hasher& h, cpb::HoppingBlocks const& b) {
    h.num(static_cast<std::int64_t>(b.get_num_sites()));
    for (auto const& block : b) {
        h.num(static_cast<int>(block.family_id().value()));
        h.num(static_cast<std::int64_t>(block.size()));
        for (auto const& x : block.coordinates()) { h.num(static_cast<int>(x.row)); h.num(static_cast<int>(x.col)); }
    }
}

inline std::uint64_t fingerprint(cpb::System const& s) {
    Hasher h;
    h.array(s.positions.x); h.array(s.positions.y); h.array(s.positions.z);
    for (auto const& sub : s.compressed_sublattices) {
        h.num(static_cast<int>(sub.id().value()));
        h.num(static_cast<std::int64_t>(sub.num_sites()));
        h.num(static_cast<std::int64_t>(sub.num_orbitals()));
    }
    auto regs = [&](std::unordered_map<std::string, cpb::storage_idx_t> const& m) {
        std::map<std::string, int> sorted(m.begin(), m.end());
        for (auto const& p : sorted) { h.str(p.first); h.num(p.second); }
    };
    regs(s.site_registry.name_map());
    regs(s.hopping_registry.name_map());
    add_to(h, s.hopping_blocks);
    h.num(static_cast<std::int64_t>(s.boundaries.size()));
    for (auto const& b : s.boundaries) { h.num(b.shift[0]); h.num(b.shift[1]); h.num(b.shift[2]); add_to(h, b.hopping_blocks); }
    return h.h;
}

inline std::uint64_t fingerprint(Context& c, cpb::Hamiltonian const& m) {
    Hasher h;
    auto o = observe(c, m);
    h.num(static_cast<int>(o.type)); h.num(o.rows); h.num(o.cols);
    for (auto const& x : o.entries) { h.num(x.i); h.num(x.j); h.num(x.v.real()); h.num(x.v.imag()); }
    return h.h;
}

inline std::uint64_t fingerprint(Context& c, cpb::Lead const& l) {
    Hasher h;
    h.num(l.spec().axis); h.num(l.spec().sign);
    h.array(l.indices());
    h.num(fingerprint(l.system()));
    h.num(fingerprint(c, l.h0()));
    h.num(fingerprint(c, l.h1()));
    return h.h;
}

} // namespace mon
