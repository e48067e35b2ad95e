#include "common.hpp"
#include "system/StructureModifiers.hpp"
using namespace hs;

// Histories of structure changes on a small chain: sites removed before and after
// generators, new site families and new hopping families in any order. The oracle
// keeps its own list of sites and hoppings, identified by position.
struct OSite { Cartesian pos; std::string family; MatrixXcd energy; bool alive; };
struct OHop { int a, b; MatrixXcd energy; };  // indices into the oracle's own list

static bool at(Cartesian const& a, Cartesian const& b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }

struct World {
    std::vector<OSite> sites; std::vector<OHop> hops;
    int find(Cartesian p) const {
        for (size_t i = 0; i < sites.size(); ++i) { if (sites[i].alive && at(sites[i].pos, p)) { return static_cast<int>(i); } }
        return -1;
    }
    std::vector<int> of(std::string const& family) const {
        std::vector<int> r;
        for (size_t i = 0; i < sites.size(); ++i) { if (sites[i].alive && sites[i].family == family) { r.push_back(static_cast<int>(i)); } }
        return r;
    }
    int alive() const { int n = 0; for (auto const& s : sites) { n += s.alive; } return n; }
};

static MatrixXcd hermitian_from_upper(MatrixXcd const& m) {
    MatrixXcd r = m;
    for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < i; ++j) { r(i, j) = std::conj(m(j, i)); }
    return r;
}

static void compare(World const& w, Model const& model) {
    auto const& sys = *model.system();
    auto const n = static_cast<int>(sys.num_sites());
    sym_assert(n == w.alive(), "number of sites");
    std::vector<int> index(w.sites.size(), -1), back(static_cast<size_t>(n), -1);
    for (int i = 0; i < n; ++i) {
        auto const k = w.find(sys.positions[i]);
        sym_assert(k >= 0 && index[k] < 0, "every site is one of the requested sites");
        index[k] = i; back[i] = k;
    }
    // site families and index maps
    auto const ids = sys.compressed_sublattices.decompressed();
    sym_assert(ids.size() == n, "family map covers all sites");
    auto const size = static_cast<int>(sys.hamiltonian_size());
    auto const ep = sys.expanded_positions();
    std::vector<char> used(static_cast<size_t>(size));
    bool maps = ep.size() == size;
    for (int i = 0; i < n && maps; ++i) {
        auto const& s = w.sites[back[i]];
        maps &= sys.site_registry.name(SiteID{ids[i]}) == s.family;
        auto const h = sys.to_hamiltonian_indices(i);
        maps &= h.size() == s.energy.rows();
        for (int a = 0; a < h.size() && maps; ++a) {
            maps &= h[a] >= 0 && h[a] < size;
            if (!maps) { break; }
            maps &= !used[h[a]] && at(ep[h[a]], s.pos);
            used[h[a]] = 1;
        }
    }
    for (auto u : used) { maps &= u != 0; }
    sym_assert(maps, "site families and orbital indices");
    std::set<std::string> families;
    for (auto const& s : w.sites) { families.insert(s.family); }
    for (auto const& f : families) {
        if (w.of(f).empty()) { continue; }
        auto const r = sys.sublattice_range(f);
        bool ok = r.end - r.start == static_cast<idx_t>(w.of(f).size());
        for (auto i = r.start; i < r.end && ok; ++i) { ok &= w.sites[back[i]].family == f; }
        sym_assert(ok, "range of a family");
    }
    Dense e(size);
    for (auto const& s : w.sites) {
        if (!s.alive) { continue; }
        auto const h = sys.to_hamiltonian_indices(index[&s - w.sites.data()]);
        for (int a = 0; a < h.size(); ++a) for (int b = 0; b < h.size(); ++b) { e(h[a], h[b]) += s.energy(a, b); }
    }
    int count = 0;
    for (auto const& t : w.hops) {
        if (!w.sites[t.a].alive || !w.sites[t.b].alive) { continue; }
        ++count;
        auto const ha = sys.to_hamiltonian_indices(index[t.a]), hb = sys.to_hamiltonian_indices(index[t.b]);
        for (int a = 0; a < ha.size(); ++a) for (int b = 0; b < hb.size(); ++b) {
            e(ha[a], hb[b]) += t.energy(a, b); e(hb[b], ha[a]) += std::conj(t.energy(a, b));
        }
    }
    sym_assert(sys.hopping_blocks.nnz() == count && sys.hopping_blocks.get_num_sites() == n, "number of hoppings");
    auto const d = to_dense(model.hamiltonian());
    sym_assert(d.outside == 0 && d.duplicates == 0, "entries are inside the matrix and unique");
    sym_assert(hermitian(d), "Hermitian");
    sym_assert(equal(d, e), "Hamiltonian contains exactly the requested sites and hoppings");
    sym_reach("compared");
}

enum Kind { Remove = 0, AddSites = 1, AddHops = 2, Move = 3 };

static void history(int nsteps, int kinds, int norbs, int newnorbs, bool cx, bool separate = false) {
    Spec sp; sp.ndim = 1; sp.vec = basis(1);
    int const na = separate ? 2 : norbs > 1 ? pick("norbA", 1, norbs) : 1;
    int const nb = !separate && norbs > 1 ? pick("norbB", 1, norbs) : 1;
    sp.subs.push_back({"A", subpos(0), na, some_onsite(na, cx)});
    sp.subs.push_back({"B", subpos(1), nb, some_onsite(nb, cx)});
    if (separate) { // scalar hoppings only, next to sites with two orbitals
        sp.hops.push_back({"t0", {1, 0, 0}, 1, 1, some_hop(1, 1, cx)});
    } else {
        sp.hops.push_back({"t0", {0, 0, 0}, 0, 1, some_hop(na, nb, cx)});
        sp.hops.push_back({"t1", {1, 0, 0}, 1, 0, some_hop(nb, na, cx)});
    }
    int const cells = 2;
    Model model(sp.lattice(), Primitive(cells, 1, 1));

    World w;
    for (auto const& k : block(sp, {cells, 1, 1})) {
        w.sites.push_back({sp.position(k.cell, k.sub), sp.subs[k.sub].name, sp.subs[k.sub].energy, true});
    }
    auto const keys = block(sp, {cells, 1, 1});
    for (auto const& t : sp.hops) for (size_t i = 0; i < keys.size(); ++i) for (size_t j = 0; j < keys.size(); ++j) {
        if (keys[i].sub == t.from && keys[j].sub == t.to && keys[j].cell == Index3D(keys[i].cell + t.rel)) {
            w.hops.push_back({static_cast<int>(i), static_cast<int>(j), t.energy});
        }
    }
    // the history; nothing may be evaluated before it is complete
    std::vector<std::string> families{"A", "B"}; std::map<std::string, int> norb{{"A", na}, {"B", nb}};
    for (int step = 0; step < nsteps; ++step) {
        auto const kind = pick("kind", 0, kinds - 1);
        if (kind == Remove) {
            // one site of a family present at this point; which one is decided now
            model.add(SiteStateModifier([&w, step](Eigen::Ref<ArrayX<bool>> state, CartesianArrayConstRef pos, string_view sub) {
                for (idx_t i = 0; i < pos.size(); ++i) {
                    Cartesian const p(pos.x()[i], pos.y()[i], pos.z()[i]);
                    auto const k = w.find(p);
                    if (k < 0) { continue; }
                    sym_assert(w.sites[k].family == sub, "a modifier sees each site under its own family");
                    if (k % 3 == step % 3 && w.alive() > 2 && sym_bool("remove")) { state[i] = false; w.sites[k].alive = false; }
                }
            }));
        } else if (kind == Move) {
            model.add(PositionModifier([&w, step](CartesianArrayRef pos, string_view sub) {
                for (idx_t i = 0; i < pos.size(); ++i) {
                    Cartesian p(pos.x()[i], pos.y()[i], pos.z()[i]);
                    auto const k = w.find(p);
                    if (k < 0) { continue; }
                    sym_assert(w.sites[k].family == sub, "a modifier sees each site under its own family");
                    p += Cartesian(0, 0, 64 * (step + 1));
                    pos.x()[i] = p[0]; pos.y()[i] = p[1]; pos.z()[i] = p[2];
                    w.sites[k].pos = p;
                }
            }));
        } else if (kind == AddSites) {
            auto const name = "N" + std::to_string(step);
            auto const n = newnorbs > 1 ? pick("new norb", 1, newnorbs) : na;
            auto const count = pick("new sites", 1, 2);
            MatrixXcd const full = some_onsite(n, cx);
            model.add(SiteGenerator(name, full, [&w, name, full, count, step](System const& s) {
                sym_assert(s.num_sites() == w.alive(), "a generator sees the current sites");
                auto r = CartesianArray(count);
                for (int i = 0; i < count; ++i) {
                    auto const p = Cartesian(7 + i, 100 + 10 * step, 3); r[i] = p;
                    w.sites.push_back({p, name, full, true});
                }
                return r;
            }));
            families.push_back(name); norb[name] = n;
        } else {
            auto const name = "h" + std::to_string(step);
            auto const from = families[pick("from", 0, static_cast<int>(families.size()) - 1)];
            auto const to = families[pick("to", 0, static_cast<int>(families.size()) - 1)];
            MatrixXcd const t = some_hop(norb[from], norb[to], cx);
            model.add(HoppingGenerator(name, t, [&w, from, to, t](System const& s) {
                sym_assert(s.num_sites() == w.alive(), "a generator sees the current sites");
                auto const a = w.of(from), b = w.of(to);
                HoppingGenerator::Result r{ArrayXi(0), ArrayXi(0)};
                if (a.empty() || b.empty()) { return r; }
                int const i = pick("i", 0, static_cast<int>(a.size()) - 1), j = pick("j", 0, static_cast<int>(b.size()) - 1);
                if (a[i] == b[j]) { return r; }
                r.from = ArrayXi::Constant(1, -1); r.to = ArrayXi::Constant(1, -1);
                for (idx_t q = 0; q < s.num_sites(); ++q) {
                    if (at(s.positions[q], w.sites[a[i]].pos)) { r.from[0] = static_cast<int>(q); }
                    if (at(s.positions[q], w.sites[b[j]].pos)) { r.to[0] = static_cast<int>(q); }
                }
                sym_assert(r.from[0] >= 0 && r.to[0] >= 0, "a generator sees the current sites");
                w.hops.push_back({a[i], b[j], t});
                return r;
            }));
        }
    }
    compare(w, model);
}

SYM_HARNESS(gen_real) { history(sym_thorough() ? 4 : 3, 4, 1, 1, false); }
SYM_HARNESS(gen_complex) { history(3, sym_thorough() ? 4 : 3, 1, 1, true); }
SYM_HARNESS(gen_orbitals) { history(sym_thorough() ? 3 : 2, 3, 2, 2, true); }
SYM_HARNESS(gen_mixed) { history(sym_thorough() ? 3 : 2, 3, 2, 2, true, true); }

// an onsite matrix of a generated family may be given as its upper triangle
SYM_HARNESS(gen_upper) {
    Spec sp; sp.ndim = 1; sp.vec = basis(1);
    sp.subs.push_back({"A", subpos(0), 2, sym_onsite(2, true, 3)});
    Model model(sp.lattice(), Primitive(2, 1, 1));
    MatrixXcd up = sym_onsite(2, true, 3); up(1, 0) = 0;
    World w;
    for (auto const& k : block(sp, {2, 1, 1})) { w.sites.push_back({sp.position(k.cell, 0), "A", sp.subs[0].energy, true}); }
    w.sites.push_back({Cartesian(5, 50, 0), "N", hermitian_from_upper(up), true});
    model.add(SiteGenerator("N", up, [](System const&) { auto r = CartesianArray(1); r[0] = Cartesian(5, 50, 0); return r; }));
    compare(w, model);
}
