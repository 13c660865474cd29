// C16: sparse and array utilities against dense definitions, for every scalar type.
#include "ref.hpp"
#include "numeric/sparse.hpp"
#include "numeric/ellmatrix.hpp"
#include "numeric/random.hpp"
#include "detail/algorithm.hpp"
#include "detail/slice.hpp"
#include "compute/eigen3/lanczos.hpp"
#include <Eigen/Eigenvalues>

namespace {
using namespace mon;
using namespace cpb;
using cpb::idx_t;

template<class T> struct Make { static T f(Rng& g) { T x; do { x = static_cast<T>(g.q(-4, 4, 32)); } while (x == T(0)); return x; } };
template<class R> struct Make<std::complex<R>> { static std::complex<R> f(Rng& g) { return {Make<R>::f(g), Make<R>::f(g)}; } };

template<class T> struct Mat {
    SparseMatrixX<T> m;
    std::vector<std::vector<std::pair<int, T>>> rows; ///< by increasing column
    int nr, nc;
    idx_t nnz = 0;
};

template<class T> Mat<T> random_matrix(Context& c) {
    auto& g = c.rng;
    Mat<T> x;
    x.nr = g.p(0.1) ? g.i(50, 300) : g.i(1, 20);
    x.nc = g.p(0.5) ? x.nr : g.i(1, 30);
    x.rows.resize(x.nr);
    auto const style = g.i(0, 5);
    auto const density = style == 0 ? 0.0 : style == 1 ? 1.0 : style == 2 ? 0.05 : g.u(0.1, 0.6);
    auto const longrow = g.i(0, x.nr - 1);
    for (int r = 0; r < x.nr; ++r) {
        auto d = (g.p(0.2) || (style == 3 && (r < 2 || r > x.nr - 3))) ? 0.0 : style == 4 && r == longrow ? 1.0 : density;
        if (d * x.nc > 40) { d = 40.0 / x.nc; }
        for (int k = 0; k < x.nc; ++k) { if (g.p(d)) { x.rows[r].emplace_back(k, Make<T>::f(g)); } }
        x.nnz += static_cast<idx_t>(x.rows[r].size());
    }
    // filled row by row, the columns in any order
    x.m = SparseMatrixX<T>(x.nr, x.nc);
    auto const extra = g.p(0.5) ? 0 : g.i(1, 20);
    auto ins = compressed_inserter(x.m, x.nnz + extra);
    auto const how = g.i(0, 2);
    c.note(istr(x.nr) + "x" + istr(x.nc) + " nnz " + istr(x.nnz) + " how " + istr(how));
    for (int r = 0; r < x.nr; ++r) {
        auto l = x.rows[r];
        auto const o = g.i(0, 2);
        if (o == 1) { std::reverse(l.begin(), l.end()); }
        if (o == 2) { g.shuffle(l); }
        if (how == 0) { ins.start_row(); }
        else if (how == 1) { ins.start_row(r); }
        else if (l.empty()) { continue; } // rows may be skipped
        else { ins.start_row(r); }
        for (auto const& p : l) { ins.insert(p.first, p.second); }
    }
    ins.compress();
    c.check(x.m.rows() == x.nr && x.m.cols() == x.nc && x.m.nonZeros() == x.nnz && x.m.isCompressed(), "size of the matrix made row by row");
    for (int r = 0; r < x.nr; ++r) {
        auto k = 0u;
        for (auto it = sparse_row(x.m, r); it; ++it, ++k) {
            c.check(k < x.rows[r].size() && it.col() == x.rows[r][k].first && it.value() == x.rows[r][k].second, "entry of a matrix made row by row");
        }
        c.check(k == x.rows[r].size(), "number of entries in a row of a matrix made row by row");
    }
    c.sig(x.nr * 1000 + x.nc); c.sig(x.nnz);
    return x;
}

template<class T> void sparse_loops(Context& c) {
    auto& g = c.rng;
    auto x = random_matrix<T>(c);
    auto const loop = sparse::make_loop(x.m);
    struct E { idx_t r, c; T v; };
    std::vector<E> all;
    std::vector<idx_t> first(1, 0);
    for (int r = 0; r < x.nr; ++r) { for (auto const& p : x.rows[r]) { all.push_back({r, p.first, p.second}); } first.push_back(static_cast<idx_t>(all.size())); }
    auto is = [&](idx_t k, idx_t r, idx_t col, T v) { return k < static_cast<idx_t>(all.size()) && all[k].r == r && all[k].c == col && all[k].v == v; };

    idx_t k = 0;
    loop.for_each([&](idx_t r, idx_t col, T v) { c.check(is(k, r, col, v), "for_each"); ++k; });
    c.check(k == x.nnz, "for_each does not visit everything once");
    k = 0;
    for (int r = 0; r < x.nr; ++r) { loop.for_each_in_row(r, [&](idx_t col, T v) { c.check(is(k, r, col, v), "for_each_in_row"); ++k; }); }
    c.check(k == x.nnz, "for_each_in_row does not visit everything once");

    // any range
    for (int n = 0; n < 6; ++n) {
        auto start = g.i(0, static_cast<int>(x.nnz));
        auto size = g.p(0.2) ? g.i(0, 3) : g.i(0, static_cast<int>(x.nnz) + 3);
        idx_t row = 0;
        while (row + 1 < x.nr && first[row + 1] <= start) { ++row; }
        if (start < x.nnz && g.p(0.3)) { row = std::max<idx_t>(0, row - g.i(0, 2)); }
        k = 0;
        loop.slice_for_each(row, start, size, [&](idx_t r, idx_t col, T v, idx_t i) {
            c.check(i == k && is(start + k, r, col, v), "slice_for_each"); ++k; });
        c.require(k == std::min<idx_t>(size, x.nnz - start), [&] { return "slice_for_each from " + istr(start) + " size " + istr(size) + " visited " + istr(k) + " of " + istr(x.nnz); });
        c.count("ranges");
    }

    // buffered, then applied from where each buffer starts
    auto const buffer = g.p(0.3) && x.nnz > 0 ? (g.p(0.5) ? x.nnz : (x.nnz + 1) / 2) : g.i(1, static_cast<int>(x.nnz) + 4);
    idx_t filled = 0, applied = 0, in_buffer = 0;
    loop.buffered_for_each(buffer, [&](idx_t r, idx_t col, T v, idx_t n) {
        c.check(is(filled, r, col, v) && n == in_buffer && n < buffer, "buffered_for_each");
        ++filled; ++in_buffer;
    }, [&](idx_t r, idx_t start, idx_t size) {
        c.require(size == in_buffer && size <= buffer && start == applied, [&] { return "buffer of " + istr(size) + " at " + istr(start) + " instead of " + istr(in_buffer) + " at " + istr(applied); });
        idx_t n = 0;
        loop.slice_for_each(r, start, size, [&](idx_t row, idx_t col, T v, idx_t i) {
            c.check(i == n && is(applied + n, row, col, v), "entry of a buffer"); ++n; });
        c.check(n == size, "size of a buffer");
        applied += size;
        in_buffer = 0;
        c.count("buffers");
    });
    c.check(filled == x.nnz && applied == x.nnz, "buffered_for_each does not process everything once");

    idx_t widest = 0;
    for (auto const& r : x.rows) { widest = std::max(widest, static_cast<idx_t>(r.size())); }
    c.check(sparse::max_nnz_per_row(x.m) == widest, "max_nnz_per_row");

    // padded columns
    auto const ell = num::csr_to_ell(x.m);
    c.check(ell.rows() == x.nr && ell.cols() == x.nc && (ell.nnz_per_row == widest || (widest == 0 && ell.nnz_per_row == 1)) && ell.nonZeros() == x.nr * ell.nnz_per_row, "size of the padded matrix");
    widest = ell.nnz_per_row; // an empty matrix may be padded, too
    c.check(ell.data.rows() >= x.nr && ell.indices.rows() >= x.nr && ell.data.cols() == widest && ell.indices.cols() == widest
            && ell.data.rows() * sizeof(T) % 32 == 0 && ell.indices.rows() * sizeof(storage_idx_t) % 32 == 0, "alignment of the padded matrix");
    auto judge = [&](idx_t lo, idx_t hi, std::map<std::pair<idx_t, idx_t>, T> const& got, std::map<idx_t, int> const& visits) {
        for (auto r = lo; r < hi; ++r) {
            auto it = visits.find(r);
            c.check((it == visits.end() ? 0 : it->second) == widest, "visits of a padded row");
            for (auto const& p : x.rows[r]) { auto q = got.find({r, p.first}); c.check(q != got.end() && q->second == p.second, "entry of the padded matrix"); }
        }
        idx_t n = 0;
        for (auto r = lo; r < hi; ++r) { n += static_cast<idx_t>(x.rows[r].size()); }
        c.check(static_cast<idx_t>(got.size()) == n, "additional entries in the padded matrix");
    };
    for (int n = 0; n < 3; ++n) {
        idx_t lo = 0, hi = x.nr;
        if (n > 0) { lo = g.i(0, x.nr); hi = g.i(static_cast<int>(lo), x.nr); }
        std::map<std::pair<idx_t, idx_t>, T> got;
        std::map<idx_t, int> visits;
        auto see = [&](idx_t r, idx_t col, T v) {
            c.check(lo <= r && r < hi && 0 <= col && col < x.nc, "padded matrix index out of range");
            ++visits[r];
            if (v != T(0)) { c.check(got.emplace(std::make_pair(r, col), v).second, "repeated entry in the padded matrix"); }
        };
        if (n == 0) { ell.for_each(see); } else { ell.for_slice(lo, hi, see); }
        judge(lo, hi, got, visits);
    }

    // reference to the raw data
    auto const ref = csrref(x.m);
    c.check(ref.rows == x.nr && ref.cols == x.nc && ref.nnz == x.nnz, "csrref size");
    num::AnyCsrConstRef any(ref);
    c.check(any.data_ref().size() == x.nnz && any.indices_ref().size() == x.nnz && any.indptr_ref().size() == x.nr + 1, "csrref arrays");
    for (idx_t i = 0; i < x.nnz; ++i) { c.check(ref.data()[i] == all[i].v && ref.indices[i] == all[i].c, "csrref data"); }
    for (int r = 0; r <= x.nr; ++r) { c.check(ref.indptr[r] == first[r], "csrref row starts"); }

    c.nontrivial = x.nnz > 1 && x.nr > 1;
    c.count("sparse cases");
}

template<class T> struct MatchCheck {
    Context* c; ArrayX<T>* a; bool* seen;
    template<class X> void operator()(X const& x) const {
        using S = typename X::Scalar;
        c->check(std::is_same<S, T>::value && x.size() == a->size() && static_cast<void const*>(x.data()) == static_cast<void const*>(a->data()), "wrong match");
        *seen = true;
    }
};

template<class T> void arrays(Context& c) {
    auto& g = c.rng;
    auto const n = g.p(0.1) ? 0 : g.i(1, 60), m = g.p(0.1) ? 0 : g.i(1, 40);
    ArrayX<T> a(n), b(m);
    for (auto i = 0; i < n; ++i) { a[i] = Make<T>::f(g); }
    for (auto i = 0; i < m; ++i) { b[i] = Make<T>::f(g); }
    c.note("arrays of " + istr(n) + " and " + istr(m));

    auto const j = concat(a, b);
    c.check(j.size() == n + m, "size of a concatenation");
    for (auto i = 0; i < n + m; ++i) { c.check(j[i] == (i < n ? a[i] : b[i - n]), "concatenated element"); }

    ArrayX<bool> keep(n);
    std::vector<T> want;
    auto const prob = g.p(0.3) ? static_cast<double>(g.i(0, 1)) : g.u();
    for (auto i = 0; i < n; ++i) { keep[i] = g.p(prob); if (keep[i]) { want.push_back(a[i]); } }
    auto const s = slice(a, keep);
    c.check(s.size() == static_cast<idx_t>(want.size()), "size of a masked array");
    for (auto i = 0u; i < want.size(); ++i) { c.check(s[i] == want[i], "masked element"); }

    // chunks
    std::vector<T> v(a.data(), a.data() + n);
    auto const step = g.p(0.2) ? std::max(1, n) : g.i(1, n + 3);
    idx_t k = 0, chunks = 0;
    for (auto const part : sliced(v, step)) {
        auto const size = part.end() - part.begin();
        c.require(size == std::min<idx_t>(step, n - k) && size > 0, [&] { return "chunk of " + istr(size) + " at " + istr(k) + " of " + istr(n) + " step " + istr(step); });
        for (auto const& e : part) { c.check(k < n && &e == &v[k], "chunk element"); ++k; }
        ++chunks;
    }
    c.check(k == n && chunks == (n + step - 1) / step, "chunks don't cover the list exactly once");
    c.count("chunks", chunks);

    // references to the same data
    auto r = arrayref(a);
    c.check(r.data == a.data() && r.size() == n && r.ndim == 1, "arrayref");
    auto seen = false;
    num::match<ArrayX>(num::ComplexArrayRef(r), MatchCheck<T>{&c, &a, &seen});
    c.check(seen, "arrayref match");
    ArrayXX<T> two(g.i(1, 5), g.i(1, 5));
    auto r2 = arrayref(two);
    c.check(r2.ndim == 2 && r2.shape[0] == two.rows() && r2.shape[1] == two.cols() && r2.size() == two.size() && !r2.is_row_major == !ArrayXX<T>::IsRowMajor, "2D arrayref");
    auto r3 = num::arrayref(v.data(), 2, 3, 4);
    c.check(r3.data == v.data() && r3.size() == 24 && r3.ndim == 3 && r3.is_row_major && r3.shape[0] == 2 && r3.shape[1] == 3 && r3.shape[2] == 4, "3D arrayref");
    auto r4 = num::arrayref(v.data(), 4, 6);
    c.check(r4.data == v.data() && r4.size() == 24 && r4.ndim == 2 && r4.is_row_major && r4.shape[0] == 4 && r4.shape[1] == 6, "2D arrayref of a pointer");
    auto r5 = num::arrayref(v.data(), 5);
    c.check(r5.data == v.data() && r5.size() == 5 && r5.ndim == 1 && r5.shape[0] == 5, "1D arrayref of a pointer");

    // matrix of any type from the canonical one
    MatrixXcd big(g.i(1, 4), g.i(1, 4));
    for (auto y = 0; y < big.rows(); ++y) for (auto x = 0; x < big.cols(); ++x) { big(y, x) = {g.q(-2, 2), g.q(-2, 2)}; }
    MatrixX<T> small = num::force_cast<T>(big);
    for (auto y = 0; y < big.rows(); ++y) for (auto x = 0; x < big.cols(); ++x) {
        c.check(std::real(small(y, x)) == big(y, x).real() && std::imag(small(y, x)) == (num::is_complex<T>() ? big(y, x).imag() : 0), "force_cast of a matrix");
        c.check(num::force_cast<T>(big(y, x)) == small(y, x), "force_cast of a value");
        c.check(num::conjugate(small(y, x)) == static_cast<T>(small(y, x) - T(0)) || num::is_complex<T>(), "conjugate of a real value");
        c.check(std::real(num::conjugate(small(y, x))) == std::real(small(y, x)) && std::imag(num::conjugate(small(y, x))) == -std::imag(small(y, x)), "conjugate");
    }

    // padding
    auto const size = g.i(0, 200);
    auto const al = num::aligned_size<T, 32>(size);
    c.check(al >= size && al * static_cast<int>(sizeof(T)) % 32 == 0 && (al - size) * static_cast<int>(sizeof(T)) < 32, "aligned_size");

    // reproducible random numbers in [0, 1)
    auto const len = g.i(1, 50);
    auto x1 = num::make_random<ArrayX<num::get_real_t<T>>>(len), x2 = num::make_random<ArrayX<num::get_real_t<T>>>(len);
    for (auto i = 0; i < len; ++i) { c.check(x1[i] == x2[i] && x1[i] >= 0 && x1[i] <= 1, "make_random"); }
    std::mt19937 gen(static_cast<unsigned>(g.next())), gen2 = gen;
    auto const y1 = num::make_random<ArrayX<T>>(len, gen), y2 = num::make_random<ArrayX<T>>(len, gen), z1 = num::make_random<ArrayX<T>>(len, gen2);
    c.check((y1 == z1).all(), "the same generator must give the same numbers");
    c.check(len < 4 || !(y1 == y2).all(), "a generator must move on");

    CartesianArray p(n), q(m);
    for (auto i = 0; i < n; ++i) { p[i] = Cartesian(i, 2 * i, 3 * i); }
    for (auto i = 0; i < m; ++i) { q[i] = Cartesian(-i, -2 * i, -3 * i); }
    auto const pq = concat(p, q);
    c.check(pq.size() == n + m, "size of concatenated positions");
    for (auto i = 0; i < n + m; ++i) { Cartesian e = i < n ? Cartesian(i, 2 * i, 3 * i) : Cartesian(-(i - n), -2 * (i - n), -3 * (i - n)); c.check(pq[i] == e, "concatenated position"); }
    if (n) {
        auto const s0 = g.i(0, n - 1), l = g.i(0, n - s0);
        auto const& cp = p;
        auto seg = cp.segment(s0, l);
        auto head = cp.head(l);
        c.check(seg.size() == l && head.size() == l, "size of a part of the positions");
        for (auto i = 0; i < l; ++i) {
            c.check(seg.x()[i] == s0 + i && seg.y()[i] == 2 * (s0 + i) && seg.z()[i] == 3 * (s0 + i), "part of the positions");
            c.check(head.x()[i] == i && head.y()[i] == 2 * i && head.z()[i] == 3 * i, "head of the positions");
        }
    }
    auto const range = make_integer_range<num::get_real_t<T>>(n);
    c.check(range.size() == n, "make_integer_range");
    for (auto i = 0; i < n; ++i) { c.check(range[i] == i, "make_integer_range"); }

    SliceIndex si(g.i(-5, 5), g.i(-5, 5));
    c.check(si.size() == std::max(0, si.end - si.start), "slice size");
    auto sj = si; sj += 3; sj -= 1; ++sj; --sj;
    c.check(sj.start == si.start + 2 && sj.end == si.end + 2 && sj != si, "moved slice");
    SliceIndex3D s3{{0, g.i(1, 4)}, {2, 2 + g.i(1, 4)}, {g.i(0, 4)}};
    c.check(s3.size() == s3[0].size() * s3[1].size() * s3[2].size() && s3[2].size() == 1 && s3.ndims() == 3, "3D slice size");

    c.sig(n * 1000 + m); c.sig(step); c.sig(want.size());
    c.nontrivial = n > 1;
    c.count("array cases");
}

template<class T> void tridiagonal(Context& c) {
    auto& g = c.rng;
    auto const n = g.p(0.1) ? g.i(40, 120) : g.i(1, 20);
    ArrayX<T> a(n), b(n);
    auto const style = g.i(0, 6);
    auto const scale = std::pow(10.0, g.i(-4, 4));
    for (auto i = 0; i < n; ++i) {
        a[i] = static_cast<T>(scale * (style == 1 ? 0 : style == 2 ? 1 : g.u(-1, 1)));
        b[i] = static_cast<T>(scale * (style == 3 ? 0 : style == 2 ? 0.5 : style == 4 && g.p(0.4) ? 0 : g.u(-1, 1)));
        if (style == 5) { b[i] = std::abs(b[i]) * static_cast<T>(std::pow(10.0, -g.i(0, 12))); }
    }
    if (style == 6) { a.setZero(); b.setZero(); }
    c.note("tridiagonal " + istr(n) + " style " + istr(style) + " scale " + str(scale));
    auto got = compute::tridiagonal_eigenvalues(a, b);
    c.check(got.size() == n, "number of eigenvalues");
    Eigen::MatrixXd m = Eigen::MatrixXd::Zero(n, n);
    for (auto i = 0; i < n; ++i) { m(i, i) = a[i]; if (i + 1 < n) { m(i, i + 1) = m(i + 1, i) = b[i]; } } // the last one couples to nothing
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(m, Eigen::EigenvaluesOnly);
    std::vector<double> x(got.data(), got.data() + n);
    std::sort(x.begin(), x.end());
    auto const tol = m.norm() * n * std::numeric_limits<T>::epsilon() * 4 + 1e-300;
    for (auto i = 0; i < n; ++i) {
        c.require(std::abs(x[i] - es.eigenvalues()[i]) <= tol, [&] { return "eigenvalue " + istr(i) + ": " + str(x[i]) + " instead of " + str(es.eigenvalues()[i]); });
    }
    c.sig(n); c.sig(static_cast<std::uint64_t>(style)); c.sig(static_cast<std::uint64_t>(std::abs(es.eigenvalues()[0]) * 1e6));
    c.nontrivial = n > 2;
    c.count("eigenvalue problems");
}

template<class T> void one(Context& c) {
    if (c.rng.p(0.6)) { sparse_loops<T>(c); } else { arrays<T>(c); }
    c.count(num::scalar_name<T>());
}

void random_case(Context& c) {
    auto const k = c.rng.i(0, 9);
    if (k == 0) { if (c.rng.p(0.5)) { tridiagonal<float>(c); } else { tridiagonal<double>(c); } }
    else if (k <= 3) { one<std::complex<double>>(c); }
    else if (k <= 5) { one<float>(c); }
    else if (k <= 7) { one<double>(c); }
    else { one<std::complex<float>>(c); }
}
} // namespace

int main(int argc, char** argv) {
    Suite s;
    s.prop = "C16";
    s.random_case = random_case;
    s.rule = "matrix with at least two entries and rows, array with two elements or tridiagonal matrix of size three; distinct = sizes and ranges used";
    return main_suite(s, argc, argv);
}
