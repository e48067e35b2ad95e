#include "common.hpp"
using namespace hs;

// A finite block: every size, every relative index, symbolic energies.
static void finite(int ndim, int nsub, int nhop, int maxsize, int reach, int maxorb, bool cx) {
    Spec sp; sp.ndim = ndim; sp.vec = basis(ndim);
    for (int s = 0; s < nsub; ++s) {
        int norb = maxorb > 1 ? pick("norb", 1, maxorb) : 1;
        sp.subs.push_back({subname(s), subpos(s), norb, sym_onsite(norb, cx)});
    }
    Index3D size = {1, 1, 1};
    for (int d = 0; d < ndim; ++d) { size[d] = pick("size", 1, maxsize); }
    for (int h = 0; h < nhop; ++h) {
        Index3D rel = {0, 0, 0};
        for (int d = 0; d < ndim; ++d) { rel[d] = pick("rel", -reach, reach); }
        int from = nsub > 1 ? pick("from", 0, nsub - 1) : 0, to = nsub > 1 ? pick("to", 0, nsub - 1) : 0;
        if (from == to) { sym_assume(!(rel == Index3D::Zero())); }
        for (auto const& o : sp.hops) {
            sym_assume(!(o.from == from && o.to == to && o.rel == rel));
            sym_assume(!(o.from == to && o.to == from && o.rel == Index3D(-rel)));
        }
        sp.hops.push_back({"t" + std::to_string(h), rel, from, to,
                           sym_hop(sp.subs[from].norb, sp.subs[to].norb, cx)});
    }
    Model model(sp.lattice(), Primitive(size[0], size[1], size[2]));
    auto const sites = block(sp, size);
    auto const& sys = *model.system();
    auto const pl = place(sp, sites, sys);
    sym_assert(pl.exact, "sites are exactly those of the block");
    auto const d = to_dense(model.hamiltonian());
    sym_assert(d.outside == 0 && d.duplicates == 0, "entries are inside the matrix and unique");
    sym_assert(hermitian(d), "Hermitian");
    sym_assert(equal(d, definition(sp, sites, pl, sys)), "Hamiltonian entries equal the definition");
    sym_reach("compared");
}

SYM_HARNESS(chain) { finite(1, 2, 2, 3, 2, 1, true); }
SYM_HARNESS(plane) { finite(2, 1, 2, 3, 2, 1, false); }
SYM_HARNESS(orbitals) { finite(1, 2, 1, 2, 1, 2, true); }
