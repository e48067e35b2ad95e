#include "common.hpp"
#include "system/Foundation.hpp"
using namespace hs;

// ---- positions: every lattice vector, offset and sublattice position -------------------
static float real(char const* name, int lo, int hi) { return static_cast<float>(sym_int(name, lo, hi)); }

static void positions(int ndim, bool alias) {
    Spec sp; sp.ndim = ndim;
    for (int d = 0; d < ndim; ++d) {
        Cartesian v;
        for (int c = 0; c < 3; ++c) { v[c] = c == d ? real("diag", 8, 15) : real("skew", -3, 3); }
        sp.vec.push_back(v);
    }
    int const nsub = pick("nsub", 1, alias ? 3 : 2);
    for (int s = 0; s < nsub; ++s) {
        auto const p = Cartesian{real("x", -7, 7), real("y", -7, 7), real("z", -7, 7)};
        auto const norb = pick("norb", 1, 2);
        sp.subs.push_back({subname(s), p, norb, fixed_onsite(norb, false, s)});
        if (s > 0 && alias) {
            auto const of = pick("alias of", -1, s - 1);
            if (of >= 0) { sym_assume(sp.subs[of].alias_of < 0 && sp.subs[of].norb == norb); sp.subs[s].alias_of = of; }
        }
    }
    Index3D size = {1, 1, 1};
    for (int d = 0; d < ndim; ++d) { size[d] = pick("size", 1, ndim == 1 ? 4 : ndim == 2 ? 3 : 2); }
    Model model(sp.lattice(), Primitive(size[0], size[1], size[2]));
    auto const& sys = *model.system();
    auto const sites = block(sp, size);
    auto const n = static_cast<int>(sys.num_sites());
    sym_assert(n == static_cast<int>(sites.size()), "as many sites as cells times sublattices");
    auto const ids = sys.compressed_sublattices.decompressed();
    sym_assert(ids.size() == n, "every site has a family");
    auto at = [&](int i, SiteKey const& k) {
        auto const want = sp.position(k.cell, k.sub);
        Cartesian got = sys.positions[i];
        return static_cast<bool>((got[0] == want[0]) & (got[1] == want[1]) & (got[2] == want[2])
            & (ids[i] == sys.site_registry.id(sp.subs[sp.original(k.sub)].name).value()));
    };
    bool all = true;
    for (auto const& k : sites) {
        bool any = false;
        for (int i = 0; i < n; ++i) { any |= at(i, k); }
        all &= any;
    }
    sym_assert(all, "every lattice site of the block is there, at its position and in its family");
    all = true;
    for (int i = 0; i < n; ++i) {
        bool any = false;
        for (auto const& k : sites) { any |= at(i, k); }
        all &= any;
    }
    sym_assert(all, "there is no other site");
    sym_reach("compared");
}
SYM_HARNESS(positions1) { positions(1, true); }
SYM_HARNESS(positions2) { positions(2, false); }
SYM_HARNESS(positions3) { positions(3, false); }

// ---- which pairs are connected -----------------------------------------------------------
struct Link { int family, a, b; };
static bool operator<(Link const& x, Link const& y) { return std::tie(x.family, x.a, x.b) < std::tie(y.family, y.a, y.b); }

static void links_of(Spec const& sp, std::vector<SiteKey> const& sites, Placed const& pl, System const& sys) {
    std::map<SiteKey, int> where;
    for (size_t i = 0; i < sites.size(); ++i) { where[sites[i]] = pl.index[i]; }
    std::multiset<Link> want, got;
    auto canonical = [](int f, int a, int b) { return a <= b ? Link{f, a, b} : Link{f, b, a}; };
    std::vector<int> neighbors(sites.size());
    for (auto const& s : sites) for (auto const& t : sp.hops) {
        if (t.from != s.sub) { continue; }
        auto const it = where.find({s.cell + t.rel, t.to});
        if (it == where.end()) { continue; }
        want.insert(canonical(static_cast<int>(sys.hopping_registry.id(t.name).value()), where[s], it->second));
        neighbors[where[s]]++; neighbors[it->second]++;
    }
    for (auto const& b : sys.hopping_blocks) {
        for (auto const& c : b.coordinates()) { got.insert(canonical(b.family_id().value(), c.row, c.col)); }
    }
    bool ok = want.size() == got.size();
    for (auto i = want.begin(), j = got.begin(); ok && i != want.end(); ++i, ++j) {
        ok = i->family == j->family && i->a == j->a && i->b == j->b;
    }
    sym_assert(ok, "the hoppings connect exactly the pairs the lattice connects");
    sym_assert(sys.hopping_blocks.nnz() == static_cast<idx_t>(want.size()), "number of hoppings");
    auto const nb = sys.hopping_blocks.count_neighbors();
    ok = nb.size() == static_cast<idx_t>(sites.size());
    for (idx_t i = 0; ok && i < nb.size(); ++i) { ok = nb[i] == neighbors[i]; }
    sym_assert(ok, "number of neighbours of each site");
    // the matrix form: one entry per hopping
    auto const csr = sys.hopping_blocks.tocsr();
    ok = csr.rows() == static_cast<idx_t>(sites.size()) && csr.cols() == csr.rows();
    std::multiset<Link> m;
    for (idx_t r = 0; ok && r < csr.rows(); ++r) {
        for (auto k = csr.outerIndexPtr()[r]; k < csr.outerIndexPtr()[r + 1]; ++k) {
            m.insert(canonical(csr.valuePtr()[k], static_cast<int>(r), csr.innerIndexPtr()[k]));
        }
    }
    ok = ok && m.size() == want.size();
    for (auto i = want.begin(), j = m.begin(); ok && i != want.end(); ++i, ++j) {
        ok = i->family == j->family && i->a == j->a && i->b == j->b;
    }
    sym_assert(ok, "the matrix of hopping families holds every hopping");
    // the serialized form is enough to restore the same hoppings
    auto const copy = HoppingBlocks(sys.hopping_blocks.get_num_sites(), sys.hopping_blocks.get_serialized_blocks(),
                                    sys.hopping_blocks.get_name_map());
    ok = copy.nnz() == sys.hopping_blocks.nnz();
    auto i = copy.begin();
    for (auto const& b : sys.hopping_blocks) {
        ok = ok && i != copy.end() && i->coordinates() == b.coordinates() && i->family_id() == b.family_id();
        ++i;
    }
    sym_assert(ok, "hoppings survive serialization");
}

static void connect(int ndim, int nsub, int nhop, int maxsize, int reach, bool alias) {
    Spec sp; sp.ndim = ndim; sp.vec = basis(ndim);
    for (int s = 0; s < nsub; ++s) {
        int norb = pick("norb", 1, 2);
        sp.subs.push_back({subname(s), subpos(s), norb, fixed_onsite(norb, false, s)});
    }
    if (alias) { // the last one repeats an earlier one
        auto const of = pick("alias of", 0, nsub - 2);
        sp.subs.back().alias_of = of; sp.subs.back().norb = sp.subs[of].norb; sp.subs.back().energy = sp.subs[of].energy;
    }
    Index3D size = {1, 1, 1};
    for (int d = 0; d < ndim; ++d) { size[d] = pick("size", 1, maxsize); }
    for (int h = 0; h < nhop; ++h) {
        Index3D rel = {0, 0, 0};
        for (int d = 0; d < ndim; ++d) { rel[d] = pick("rel", -reach, reach); }
        int from = pick("from", 0, nsub - 1), to = pick("to", 0, nsub - 1);
        if (from == to) { sym_assume(!(rel == Index3D::Zero())); }
        for (auto const& o : sp.hops) {
            sym_assume(!(o.from == from && o.to == to && o.rel == rel));
            sym_assume(!(o.from == to && o.to == from && o.rel == Index3D(-rel)));
        }
        sp.hops.push_back({"t" + std::to_string(h), rel, from, to, fixed_hop(sp.subs[from].norb, sp.subs[to].norb, false, h)});
    }
    // any offset of the lattice within half a cell
    sp.offset = {static_cast<float>(4 * pick("offset", -1, 1)), 0, 0};
    Model model(sp.lattice().with_offset(sp.offset), Primitive(size[0], size[1], size[2]));
    auto const sites = block(sp, size);
    auto const& sys = *model.system();
    auto const pl = place(sp, sites, sys);
    sym_assert(pl.exact, "sites are exactly those of the block");
    links_of(sp, sites, pl, sys);
    sym_reach("compared");
}
SYM_HARNESS(links1) { connect(1, 2, 2, sym_thorough() ? 4 : 3, sym_thorough() ? 2 : 1, false); }
SYM_HARNESS(links_alias) { connect(1, 3, 1, 2, 1, true); }
SYM_HARNESS(links2) { connect(2, 2, 1, sym_thorough() ? 3 : 2, sym_thorough() ? 2 : 1, false); }
SYM_HARNESS(links3) { connect(3, 1, 1, 2, 1, false); }
