// Shared by the harnesses: builds models from symbolic specifications and keeps
// an independent description ("oracle") of what the tight-binding definition
// says about them. Nothing here uses the code under test to compute an oracle.
#pragma once
#include "sym.h"
#include "Model.hpp"
#include <complex>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cmath>

namespace hs {
using namespace cpb;
using cplx = std::complex<double>;

// ---- non-forking comparison -------------------------------------------------
inline bool same(cplx a, cplx b) { return (a.real() == b.real()) & (a.imag() == b.imag()); }

inline int absi(int x) { return x < 0 ? -x : x; }

// a symbolic integer whose value is fixed on each explored path
inline int pick(char const* name, int lo, int hi) { return sym_pin(sym_int(name, lo, hi)); }

// ---- specification of a lattice ---------------------------------------------
struct Sub {
    std::string name; Cartesian pos; int norb; MatrixXcd energy; // full Hermitian matrix
    int alias_of = -1;                                           // index of the original
};
struct Hop { std::string name; Index3D rel; int from, to; MatrixXcd energy; };

struct Spec {
    int ndim = 2;
    std::vector<Cartesian> vec;
    std::vector<Sub> subs;
    std::vector<Hop> hops;
    Cartesian offset = {0, 0, 0};

    Cartesian position(Index3D c, int s) const {
        Cartesian p = offset + subs[s].pos;
        for (int d = 0; d < ndim; ++d) { p += static_cast<float>(c[d]) * vec[d]; }
        return p;
    }
    int original(int s) const { return subs[s].alias_of < 0 ? s : subs[s].alias_of; }
    Lattice lattice() const {
        auto z = Cartesian{0, 0, 0};
        auto l = Lattice(vec[0], ndim > 1 ? vec[1] : z, ndim > 2 ? vec[2] : z);
        for (auto const& s : subs) {
            if (s.alias_of < 0) { l.add_sublattice(s.name, s.pos, s.energy); }
            else { l.add_alias(s.name, subs[s.alias_of].name, s.pos); }
        }
        for (auto const& h : hops) {
            if (l.get_hoppings().find(h.name) == l.get_hoppings().end()) {
                l.register_hopping_energy(h.name, h.energy);
            }
            l.add_hopping(h.rel, subs[h.from].name, subs[h.to].name, h.name);
        }
        return l;
    }
};

// Lattice vectors for which integer combinations and the sublattice positions
// below identify a site, exactly representable in float. Deliberately skewed.
inline std::vector<Cartesian> basis(int ndim) {
    std::vector<Cartesian> v{{16, 2, 0}};
    if (ndim > 1) { v.push_back({-4, 16, 0}); }
    if (ndim > 2) { v.push_back({2, 0, 16}); }
    return v;
}
inline Cartesian subpos(int n) {
    static const Cartesian p[] = {{0, 0, 0}, {3, 1, 0}, {1, 4, 1}, {5, 3, 2}, {2, 6, 0}};
    return p[n];
}
inline std::string subname(int n) { return std::string(1, static_cast<char>('A' + n)); }

// energies -------------------------------------------------------------------
inline MatrixXcd sym_hop(int rows, int cols, bool cx, int lim = 8) {
    MatrixXcd m(rows, cols);
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) {
        m(i, j) = cplx(sym_dy("t.re", -lim, lim), cx ? sym_dy("t.im", -lim, lim) : 0.0);
    }
    return m;
}
inline MatrixXcd sym_onsite(int n, bool cx, int lim = 8) {
    MatrixXcd m(n, n);
    for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) {
        if (i == j) { m(i, i) = sym_dy("e.diag", -lim, lim); continue; }
        m(i, j) = cplx(sym_dy("e.re", 1, lim), cx ? sym_dy("e.im", -lim, lim) : 0.0);
        m(j, i) = std::conj(m(i, j));
    }
    return m;
}
// distinct concrete, nonzero values
inline MatrixXcd fixed_hop(int rows, int cols, bool cx, int tag) {
    MatrixXcd m(rows, cols);
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) {
        m(i, j) = cplx(1 + tag * 16 + i * 4 + j, cx ? 2 + tag * 16 + i * 4 + 2 * j : 0);
    }
    return m;
}
inline MatrixXcd fixed_onsite(int n, bool cx, int tag) {
    MatrixXcd m(n, n);
    for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) {
        if (i == j) { m(i, i) = 100 + tag * 8 + i; continue; }
        m(i, j) = cplx(200 + tag * 8 + i + j, cx ? 3 + i + 2 * j : 0);
        m(j, i) = std::conj(m(i, j));
    }
    return m;
}

// any nonzero values: decides every placement and conjugation error for all energies
// without the forks that the implementation's tests for zero would add
inline MatrixXcd some_hop(int rows, int cols, bool cx, int lim = 8) {
    MatrixXcd m(rows, cols);
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) {
        m(i, j) = cplx(sym_dy("t.re", 1, lim), cx ? sym_dy("t.im", 1, lim) : 0.0);
    }
    return m;
}
inline MatrixXcd some_onsite(int n, bool cx, int lim = 8) {
    MatrixXcd m(n, n);
    for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) {
        if (i == j) { m(i, i) = sym_dy("e.diag", 1, lim); continue; }
        m(i, j) = cplx(sym_dy("e.re", 1, lim), cx ? sym_dy("e.im", 1, lim) : 0.0);
        m(j, i) = std::conj(m(i, j));
    }
    return m;
}

// ---- dense matrices ----------------------------------------------------------
struct Dense {
    int n = 0; std::vector<cplx> v; int duplicates = 0, outside = 0, unsorted = 0, nnz = 0;
    Dense() = default;
    explicit Dense(int n) : n(n), v(static_cast<size_t>(n) * n) {}
    cplx& operator()(int i, int j) { return v[static_cast<size_t>(i) * n + j]; }
    cplx const& operator()(int i, int j) const { return v[static_cast<size_t>(i) * n + j]; }
};

template<class T>
Dense dense_from(SparseMatrixX<T> const& m) {
    Dense d(static_cast<int>(m.rows()));
    if (m.rows() != m.cols() || !m.isCompressed()) { d.outside = 1; return d; }
    auto const* o = m.outerIndexPtr(); auto const* in = m.innerIndexPtr(); auto const* val = m.valuePtr();
    std::vector<char> seen(static_cast<size_t>(d.n));
    for (int r = 0; r < d.n; ++r) {
        std::fill(seen.begin(), seen.end(), 0);
        for (auto k = o[r]; k < o[r + 1]; ++k) {
            auto const c = in[k];
            if (c < 0 || c >= d.n) { d.outside++; continue; }
            if (seen[c]) { d.duplicates++; }
            if (k > o[r] && in[k - 1] >= c) { d.unsorted++; }
            seen[c] = 1; d.nnz++;
            d(r, c) += cplx(val[k]);
        }
    }
    return d;
}

enum class Scalar { f, d, cf, cd, none };
inline Scalar scalar_of(Hamiltonian const& h) {
    if (!h) return Scalar::none;
    if (ham::is<float>(h)) return Scalar::f;
    if (ham::is<double>(h)) return Scalar::d;
    if (ham::is<std::complex<float>>(h)) return Scalar::cf;
    return Scalar::cd;
}
inline Dense to_dense(Hamiltonian const& h) {
    switch (scalar_of(h)) {
        case Scalar::f: return dense_from(ham::get_reference<float>(h));
        case Scalar::d: return dense_from(ham::get_reference<double>(h));
        case Scalar::cf: return dense_from(ham::get_reference<std::complex<float>>(h));
        case Scalar::cd: return dense_from(ham::get_reference<std::complex<double>>(h));
        default: return Dense(0);
    }
}
inline bool equal(Dense const& a, Dense const& b) {
    if (a.n != b.n) { return false; }
    bool ok = true;
    for (size_t i = 0; i < a.v.size(); ++i) { ok &= same(a.v[i], b.v[i]); }
    return ok;
}
inline bool close(Dense const& a, Dense const& b, double tol) {
    if (a.n != b.n) { return false; }
    bool ok = true;
    for (size_t i = 0; i < a.v.size(); ++i) {
        auto const r = a.v[i].real() - b.v[i].real(), m = a.v[i].imag() - b.v[i].imag();
        ok &= (r <= tol) & (r >= -tol) & (m <= tol) & (m >= -tol);
    }
    return ok;
}
inline bool hermitian(Dense const& a) {
    bool ok = true;
    for (int i = 0; i < a.n; ++i) for (int j = i; j < a.n; ++j) {
        ok &= (a(i, j).real() == a(j, i).real()) & (a(i, j).imag() == -a(j, i).imag());
    }
    return ok;
}

// ---- the sites a finite piece must contain -------------------------------------
struct SiteKey { Index3D cell; int sub; };
inline bool operator<(SiteKey const& a, SiteKey const& b) {
    return std::make_tuple(a.cell[0], a.cell[1], a.cell[2], a.sub)
         < std::make_tuple(b.cell[0], b.cell[1], b.cell[2], b.sub);
}
inline bool operator==(SiteKey const& a, SiteKey const& b) { return a.cell == b.cell && a.sub == b.sub; }

// contiguous block of exactly `size` cells around the origin cell
inline std::vector<SiteKey> block(Spec const& sp, Index3D size) {
    std::vector<SiteKey> r;
    Index3D lo = {-(size[0] / 2), -(size[1] / 2), -(size[2] / 2)};
    for (int c = 0; c < size[2]; ++c) for (int b = 0; b < size[1]; ++b) for (int a = 0; a < size[0]; ++a) {
        for (int s = 0; s < static_cast<int>(sp.subs.size()); ++s) {
            r.push_back({Index3D(lo[0] + a, lo[1] + b, lo[2] + c), s});
        }
    }
    return r;
}

// Locates every oracle site in the built system by its position and sublattice.
// Positions are concrete on a path. index[i] = system index of site i or -1
struct Placed {
    std::vector<int> index; bool exact = true; // exact: a one-to-one correspondence
};
inline Placed place(Spec const& sp, std::vector<SiteKey> const& sites, System const& sys) {
    Placed p;
    auto const n = static_cast<int>(sys.num_sites());
    auto const ids = sys.compressed_sublattices.decompressed();
    p.exact = n == static_cast<int>(sites.size()) && ids.size() == n;
    std::vector<char> used(static_cast<size_t>(n));
    for (auto const& k : sites) {
        auto const pos = sp.position(k.cell, k.sub);
        auto const id = sys.site_registry.id(sp.subs[sp.original(k.sub)].name).value();
        int found = -1;
        for (int i = 0; i < n && i < ids.size(); ++i) {
            if (used[i] || ids[i] != id) { continue; }
            Cartesian q = sys.positions[i];
            if (q[0] == pos[0] && q[1] == pos[1] && q[2] == pos[2]) { found = i; break; }
        }
        if (found < 0) { p.exact = false; } else { used[found] = 1; }
        p.index.push_back(found);
    }
    return p;
}

// ---- the Hamiltonian by definition ----------------------------------------------
struct Periodic {
    bool on[3] = {false, false, false};
    int period[3] = {1, 1, 1};
    Cartesian k = {0, 0, 0};
};
inline int floordiv(int a, int b) { int q = a / b; if (a % b != 0 && ((a < 0) != (b < 0))) { --q; } return q; }

inline Dense definition(Spec const& sp, std::vector<SiteKey> const& sites, Placed const& pl,
                        System const& sys, Periodic const& per = {}) {
    Dense h(static_cast<int>(sys.hamiltonian_size()));
    std::map<SiteKey, int> where;
    for (size_t i = 0; i < sites.size(); ++i) { where[sites[i]] = pl.index[i]; }
    Index3D lo = {1 << 20, 1 << 20, 1 << 20};
    for (auto const& s : sites) { for (int d = 0; d < 3; ++d) { lo[d] = std::min(lo[d], s.cell[d]); } }
    auto first = [&](int i) { return sys.to_hamiltonian_indices(i); };
    for (auto const& s : sites) {
        auto const i = where[s];
        auto const hi = first(i);
        auto const& e = sp.subs[sp.original(s.sub)].energy;
        for (int a = 0; a < e.rows(); ++a) for (int b = 0; b < e.cols(); ++b) { h(hi[a], hi[b]) += e(a, b); }
        for (auto const& t : sp.hops) {
            if (t.from != s.sub) { continue; }
            Index3D c = s.cell + t.rel; Cartesian shift = {0, 0, 0};
            for (int d = 0; d < 3; ++d) {
                if (!per.on[d]) { continue; }
                auto const n = floordiv(c[d] - lo[d], per.period[d]);
                c[d] -= n * per.period[d];
                shift += static_cast<float>(-n * per.period[d]) * sp.vec[d];
            }
            auto const it = where.find({c, t.to});
            if (it == where.end()) { continue; }
            auto const hj = first(it->second);
            auto const phase = shift.isZero() ? cplx(1) : std::exp(cplx(0, 1) * static_cast<double>(per.k.dot(shift)));
            for (int a = 0; a < t.energy.rows(); ++a) for (int b = 0; b < t.energy.cols(); ++b) {
                auto const v = shift.isZero() ? t.energy(a, b) : t.energy(a, b) * phase;
                h(hi[a], hj[b]) += v;
                h(hj[b], hi[a]) += std::conj(v);
            }
        }
    }
    return h;
}
} // namespace hs
