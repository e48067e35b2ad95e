#include "common.hpp"
using namespace hs;

// Periodic repetition of a piece cut out of a block: every hopping which leaves
// the piece re-enters through the opposite side exactly once, with a phase.
static void folded(int ndim, int nsub, int nhop, int maxsize, int maxperiod, int reach, int maxorb,
                   bool symbolic, int norbfix = 0) {
    Spec sp; sp.ndim = ndim; sp.vec = basis(ndim);
    for (int s = 0; s < nsub; ++s) {
        int norb = norbfix ? norbfix + s : (maxorb > 1 ? pick("norb", 1, maxorb) : 1);
        sp.subs.push_back({subname(s), subpos(s), norb, symbolic ? sym_onsite(norb, true) : fixed_onsite(norb, true, s)});
    }
    Index3D size = {1, 1, 1}; Periodic per; float len[3] = {-1, -1, -1};
    for (int d = 0; d < ndim; ++d) {
        size[d] = pick("size", 1, maxsize);
        int n = pick("period", -1, maxperiod); // -1: not periodic, 0: automatic
        if (n >= 0) {
            per.on[d] = true; per.period[d] = n > 0 ? n : 1;
            len[d] = n > 0 ? static_cast<float>(n) * sp.vec[d].norm() : 0.f;
        }
    }
    sym_assume(per.on[0] || per.on[1] || per.on[2]);
    for (int h = 0; h < nhop; ++h) {
        Index3D rel = {0, 0, 0};
        for (int d = 0; d < ndim; ++d) { rel[d] = pick("rel", -reach, reach); }
        int from = nsub > 1 ? pick("from", 0, nsub - 1) : 0, to = nsub > 1 ? pick("to", 0, nsub - 1) : 0;
        if (from == to) { sym_assume(!(rel == Index3D::Zero())); }
        for (auto const& o : sp.hops) {
            sym_assume(!(o.from == from && o.to == to && o.rel == rel));
            sym_assume(!(o.from == to && o.to == from && o.rel == Index3D(-rel)));
        }
        sp.hops.push_back({"t" + std::to_string(h), rel, from, to,
                           symbolic ? sym_hop(sp.subs[from].norb, sp.subs[to].norb, true)
                                    : fixed_hop(sp.subs[from].norb, sp.subs[to].norb, true, h)});
    }
    Model model(sp.lattice(), Primitive(size[0], size[1], size[2]), TranslationalSymmetry(len[0], len[1], len[2]));
    if (!symbolic) {
        per.k = Cartesian(0.03f, 0.0575f, 0.1f);
        model.set_wave_vector(per.k);
    }
    // the piece: as many cells as one period, where there is enough material
    Index3D piece = size;
    for (int d = 0; d < ndim; ++d) { if (per.on[d]) { piece[d] = std::min(size[d], per.period[d]); } }
    auto const& sys = *model.system();
    sym_assert(sys.num_sites() == piece.prod() * nsub, "number of sites in one period");
    // which cells of the block make up the piece is not specified: locate them
    std::vector<SiteKey> sites; int found = 0;
    auto const all = block(sp, size);
    Index3D lo = {1 << 20, 1 << 20, 1 << 20};
    auto const id0 = sys.site_registry.id(sp.subs[0].name).value();
    auto const ids = sys.compressed_sublattices.decompressed();
    for (auto const& s : all) {
        if (s.sub != 0) { continue; }
        auto const p = sp.position(s.cell, 0);
        for (int i = 0; i < sys.num_sites(); ++i) {
            Cartesian q = sys.positions[i];
            if (q[0] == p[0] && q[1] == p[1] && q[2] == p[2] && ids[i] == id0) {
                for (int d = 0; d < 3; ++d) { lo[d] = std::min(lo[d], s.cell[d]); }
                ++found; break;
            }
        }
    }
    sym_assert(found == piece.prod(), "cells of the piece lie in the block");
    for (int c = 0; c < piece[2]; ++c) for (int b = 0; b < piece[1]; ++b) for (int a = 0; a < piece[0]; ++a)
        for (int s = 0; s < nsub; ++s) { sites.push_back({lo + Index3D(a, b, c), s}); }
    auto const pl = place(sp, sites, sys);
    sym_assert(pl.exact, "the piece is a contiguous block of complete cells");
    auto const d = to_dense(model.hamiltonian());
    sym_assert(d.outside == 0 && d.duplicates == 0, "entries are inside the matrix and unique");
    auto const e = definition(sp, sites, pl, sys, per);
    if (symbolic) {
        sym_assert(hermitian(d), "Hermitian");
        sym_assert(equal(d, e), "periodic Hamiltonian equals the definition at k = 0");
    } else {
        Dense t(d.n);
        for (int i = 0; i < d.n; ++i) for (int j = 0; j < d.n; ++j) { t(i, j) = std::conj(d(j, i)); }
        sym_assert(close(d, t, 1e-4), "Hermitian");
        sym_assert(close(d, e, 2e-3), "periodic Hamiltonian equals the definition at k");
    }
    sym_reach("compared");
}

SYM_HARNESS(ring) { folded(1, 2, 2, 3, 3, sym_thorough() ? 3 : 2, 1, false); }
SYM_HARNESS(torus) { folded(2, 1, sym_thorough() ? 2 : 1, 3, sym_thorough() ? 3 : 2, 2, 1, false); }
SYM_HARNESS(torus2) { folded(2, 2, 1, 2, 2, 1, 1, false); }
SYM_HARNESS(ring_values) { folded(1, 2, 1, 3, 3, 2, sym_thorough() ? 2 : 1, true); }
SYM_HARNESS(ring_orbitals) { folded(1, 2, 2, 2, 2, 1, 2, false); }
SYM_HARNESS(box) { folded(3, 1, 1, 2, 1, 1, 1, false); }

// the period is the number of cells nearest to the given length
SYM_HARNESS(ring_length) {
    int const axis = pick("axis", 0, 1);
    Spec sp; sp.ndim = 2; sp.vec = {{8, 0, 0}, {0, 16, 0}};
    sp.subs.push_back({"A", {0, 0, 0}, 1, fixed_onsite(1, true, 0)});
    Index3D rel = {0, 0, 0}; rel[axis] = 1;
    sp.hops.push_back({"t", rel, 0, 0, fixed_hop(1, 1, true, 0)});
    int const n = pick("cells", 1, sym_thorough() ? 6 : 4);
    Index3D size = {1, 1, 1}; size[axis] = n; size[1 - axis] = pick("width", 1, 2);
    float const unit = sp.vec[axis][axis];
    int const q = sym_int("quarters of the length", 0, 4 * n + 1);
    float len[2] = {-1, -1};
    len[axis] = 0.25f * unit * static_cast<float>(q);
    sym_assume((q & 3) != 2); // not halfway between two
    Model model(sp.lattice(), Primitive(size[0], size[1], 1), TranslationalSymmetry(len[0], len[1]));
    int const cells = q < 4 ? 1 : (q + 2) / 4;
    auto const sites = model.system()->num_sites();
    sym_assert(sites == cells * size[1 - axis], "the period is the nearest number of cells");
    auto const& bs = model.system()->boundaries;
    sym_assert(bs.size() == 1, "one boundary");
    for (auto const& b : bs) {
        sym_assert((std::abs(b.shift[axis]) == unit * static_cast<float>(cells)) & (b.shift[1 - axis] == 0), "which is one period away");
        sym_assert(b.hopping_blocks.nnz() == size[1 - axis], "with one hopping for each row");
    }
    sym_reach("compared");
}
