#include "common.hpp"
#include "system/StructureModifiers.hpp"
using namespace hs;

// One site that should be in the system
struct Want { Cartesian pos; std::string family; int norb; };

static bool at(Cartesian const& a, Cartesian const& b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }

template<class F> static bool throws(F f) {
    try { f(); } catch (std::exception const&) { return true; }
    return false;
}

// All the maps describe the same partition of the rows of the Hamiltonian
static void consistent(System const& sys, std::vector<Want> const& want, std::set<std::string> const& families) {
    auto const n = static_cast<int>(sys.num_sites());
    sym_assert(n == static_cast<int>(want.size()), "number of sites");
    std::vector<int> who(static_cast<size_t>(n), -1);
    std::vector<char> taken(want.size());
    for (int i = 0; i < n; ++i) {
        for (size_t k = 0; k < want.size(); ++k) { if (!taken[k] && at(want[k].pos, sys.positions[i])) { who[i] = static_cast<int>(k); taken[k] = 1; break; } }
        sym_assert(who[i] >= 0, "every site is one of those asked for");
    }
    int rows = 0;
    for (auto const& w : want) { rows += w.norb; }
    sym_assert(sys.hamiltonian_size() == rows, "one row per orbital");

    // families
    auto const ids = sys.compressed_sublattices.decompressed();
    bool ok = ids.size() == n;
    for (int i = 0; i < n && ok; ++i) { ok &= sys.site_registry.name(SiteID{ids[i]}) == want[who[i]].family; }
    sym_assert(ok, "the family of every site");
    idx_t s = 0, h = 0;
    std::set<int> seen;
    for (auto const& sub : sys.compressed_sublattices) {
        ok &= sub.sys_start() == s && sub.ham_start() == h && seen.insert(sub.id().value()).second;
        ok &= sub.sys_end() == s + sub.num_sites() && sub.ham_end() == h + sub.num_sites() * sub.num_orbitals() && sub.ham_size() == sub.ham_end() - h;
        for (auto i = sub.sys_start(); i < sub.sys_end() && ok; ++i) {
            ok &= i < n && ids[i] == sub.id().value() && want[who[i]].norb == sub.num_orbitals();
        }
        s = sub.sys_end(); h = sub.ham_end();
    }
    sym_assert(ok && s == n && h == rows, "the blocks of the families follow each other");

    // rows
    auto const ep = sys.expanded_positions();
    std::vector<char> used(static_cast<size_t>(rows));
    ok = ep.size() == rows;
    for (int i = 0; i < n && ok; ++i) {
        auto const r = sys.to_hamiltonian_indices(i);
        ok &= r.size() == want[who[i]].norb;
        for (int a = 0; a < r.size() && ok; ++a) {
            ok &= r[a] >= 0 && r[a] < rows && !used[r[a]];
            if (!ok) { break; }
            used[r[a]] = 1;
            ok &= at(ep[r[a]], want[who[i]].pos);
        }
    }
    sym_assert(ok, "every row belongs to one orbital of one site");
    for (auto const& sub : sys.compressed_sublattices) {
        for (auto i = sub.sys_start(); i < sub.sys_end(); ++i) {
            auto const r = sys.to_hamiltonian_indices(i);
            for (int a = 0; a < r.size(); ++a) { ok &= r[a] >= sub.ham_start() && r[a] < sub.ham_end(); }
        }
    }
    sym_assert(ok, "the rows of a family are those of its sites");
    int const out = pick("outside", 0, 2);
    sym_assert(throws([&] { sys.to_hamiltonian_indices(out == 0 ? n : out == 1 ? -1 : rows + n); }), "there are no other sites");

    // ranges
    auto const all = sys.sublattice_range("");
    sym_assert(all.start == 0 && all.end == n, "the range of all sites");
    sym_assert(throws([&] { sys.sublattice_range("nothing"); }), "an unknown family is refused");
    for (auto const& f : families) {
        int count = 0;
        for (auto const& w : want) { count += w.family == f; }
        Range r{0, 0};
        bool const refused = throws([&] { r = sys.sublattice_range(f); });
        if (count == 0) { sym_assert(refused || r.start == r.end, "a family without sites has no range"); continue; }
        ok = !refused && r.end - r.start == count;
        for (auto i = r.start; i < r.end && ok; ++i) { ok &= i >= 0 && i < n && want[who[i]].family == f; }
        sym_assert(ok, "the range of a family holds its sites");
    }

    // the same data read from a file
    auto const& cs = sys.compressed_sublattices;
    auto const copy = CompressedSublattices(cs.alias_ids(), cs.site_counts(), cs.orbital_counts());
    ArrayXi const again = copy.decompressed();
    ok = again.size() == n;
    for (int i = 0; i < n && ok; ++i) { ok &= again[i] == ids[i]; }
    auto a = copy.begin(), b = cs.begin();
    for (; a != copy.end() && b != cs.end(); ++a, ++b) { ok &= a.ham_start() == b.ham_start() && a.ham_end() == b.ham_end() && a.num_orbitals() == b.num_orbitals(); }
    sym_assert(ok && a == copy.end() && b == cs.end(), "families built from their serialized form are the same");
    auto const& hb = sys.hopping_blocks;
    auto const hcopy = HoppingBlocks(hb.get_num_sites(), hb.get_serialized_blocks(), hb.get_name_map());
    auto x = hcopy.begin(); auto y = hb.begin();
    for (; x != hcopy.end() && y != hb.end(); ++x, ++y) { ok &= x.family_id() == y.family_id() && x.coordinates() == y.coordinates(); }
    sym_assert(ok && !(x != hcopy.end()) && !(y != hb.end()) && hcopy.get_num_sites() == n, "hoppings built from their serialized form are the same");

    // neighbours and hopping ids
    std::vector<int> neighbors(static_cast<size_t>(n));
    std::map<std::pair<int, int>, int> family;
    for (auto const& block : hb) for (auto const& c : block.coordinates()) {
        ++neighbors[c.row]; ++neighbors[c.col];
        family[{c.row, c.col}] = block.family_id().value();
    }
    auto const counts = hb.count_neighbors();
    ok = counts.size() == n;
    for (int i = 0; i < n && ok; ++i) { ok &= counts[i] == neighbors[i]; }
    sym_assert(ok, "the number of neighbours of each site");
    auto const csr = hb.tocsr();
    ok = csr.rows() == n && csr.cols() == n && csr.nonZeros() == static_cast<idx_t>(family.size());
    for (auto const& p : family) { if (ok) { ok &= csr.coeff(p.first.first, p.first.second) == p.second; } }
    sym_assert(ok, "the matrix of hopping ids");
    sym_reach("compared");
}

// sublattices with any number of orbitals, any of the sites missing, generated families before or after
static void maps(int nsub, int maxorb, bool alias, bool generated, int cells) {
    Spec sp; sp.ndim = 1; sp.vec = basis(1);
    for (int s = 0; s < nsub; ++s) {
        auto const norb = pick("norb", 1, maxorb);
        sp.subs.push_back({subname(s), subpos(s), norb, fixed_onsite(norb, false, s)});
    }
    if (alias) {
        auto const of = pick("original", 0, nsub - 1);
        sp.subs.push_back({subname(nsub), subpos(nsub), sp.subs[of].norb, sp.subs[of].energy, of});
    }
    for (int s = 0; s + 1 < nsub; ++s) {
        sp.hops.push_back({"t" + std::to_string(s), {1, 0, 0}, s, s + 1, fixed_hop(sp.subs[s].norb, sp.subs[s + 1].norb, false, s)});
    }
    Model model(sp.lattice(), Primitive(cells, 1, 1));
    auto const keys = block(sp, {cells, 1, 1});
    std::vector<Want> want;
    std::vector<int> keep;
    int const when = generated ? pick("removal", 0, 1) : 0; // before or after the generators
    for (auto const& k : keys) { want.push_back({sp.position(k.cell, k.sub), sp.subs[sp.original(k.sub)].name, sp.subs[k.sub].norb}); keep.push_back(1); }
    std::set<std::string> families;
    for (auto const& w : want) { families.insert(w.family); }
    auto remove = [&] {
        model.add(SiteStateModifier([&](Eigen::Ref<ArrayX<bool>> state, CartesianArrayConstRef p, string_view) {
            for (idx_t i = 0; i < p.size(); ++i) for (size_t k = 0; k < want.size(); ++k) {
                Cartesian const q{p.x()[i], p.y()[i], p.z()[i]};
                if (at(want[k].pos, q)) { bool const b = sym_bool("keep"); state[i] = b; keep[k] = b; }
            }
        }));
    };
    if (when == 0) { remove(); }
    if (generated) {
        for (int g = 0; g < 2; ++g) {
            auto const norb = pick("norb of new sites", 1, maxorb), count = pick("new sites", 0, nsub > 1 && !sym_thorough() ? 1 : 2);
            auto const name = std::string(g ? "Y" : "X");
            families.insert(name);
            model.add(SiteGenerator(name, fixed_onsite(norb, false, 5 + g), [&want, &keep, norb, count, name, g](System const&) {
                auto p = CartesianArray(count);
                for (int i = 0; i < count; ++i) { p[i] = Cartesian{static_cast<float>(i), 50, static_cast<float>(g)}; want.push_back({p[i], name, norb}); keep.push_back(1); }
                return p;
            }));
        }
    }
    if (when == 1) { remove(); }
    try { model.system(); }
    catch (std::runtime_error const&) {
        int alive = 0; for (auto k : keep) { alive += k; }
        sym_assert(alive == 0, "only a system without sites is refused"); sym_reach("empty"); return;
    }
    std::vector<Want> left;
    for (size_t i = 0; i < want.size(); ++i) { if (keep[i]) { left.push_back(want[i]); } }
    consistent(*model.system(), left, families);
}
SYM_HARNESS(maps1) { maps(1, 3, false, false, 3); }
SYM_HARNESS(maps2) { maps(2, 3, false, false, 2); }
SYM_HARNESS(maps3) { maps(3, sym_thorough() ? 3 : 2, false, false, sym_thorough() ? 2 : 1); }
SYM_HARNESS(maps_alias) { maps(2, 2, true, false, sym_thorough() ? 2 : 1); }
SYM_HARNESS(maps_generated) { maps(1, 2, false, true, 2); }
SYM_HARNESS(maps_generated2) { maps(2, 2, sym_thorough(), true, 1); }

// the nearest site to any point, of all sites or of one family
static void nearest(int nsub, int cells, bool plane) {
    Spec sp; sp.ndim = 1; sp.vec = {{8, 0, 0}};
    int const order = pick("orbitals", 0, 2);
    for (int s = 0; s < nsub; ++s) {
        auto const norb = order == 0 ? 1 : order == 1 ? 1 + s : nsub - s;
        sp.subs.push_back({subname(s), Cartesian{static_cast<float>(3 * s), plane ? static_cast<float>(sym_int("y", -4, 4)) : 0.f, 0}, norb, fixed_onsite(norb, false, s)});
    }
    Model model(sp.lattice(), Primitive(cells, 1, 1));
    // a generator makes the removal act on the finished system instead of the block it is cut from
    if (pick("generator", 0, 1)) {
        model.add(HoppingGenerator("g", 1.0, [](System const&) { return HoppingGenerator::Result{ArrayXi(0), ArrayXi(0)}; }));
    }
    model.add(SiteStateModifier([&](Eigen::Ref<ArrayX<bool>> state, CartesianArrayConstRef p, string_view) {
        for (idx_t i = 0; i < p.size(); ++i) { bool const b = sym_bool("keep"); state[i] = b; }
    }));
    try { model.system(); } catch (std::runtime_error const&) { sym_reach("empty"); return; }
    auto const& sys = *model.system();
    int const which = pick("family", -1, nsub - 1);
    auto const name = which < 0 ? std::string() : sp.subs[which].name;
    auto const t = Cartesian{0.5f * static_cast<float>(plane ? sym_int("x", -30, 30) : pick("x", -10, 40)), plane ? static_cast<float>(sym_int("ty", -4, 4)) : 0.f, 0};
    auto const ids = sys.compressed_sublattices.decompressed();
    auto const belongs = [&](idx_t i) { return which < 0 || sys.site_registry.name(SiteID{ids[i]}) == name; };
    idx_t count = 0;
    for (idx_t i = 0; i < sys.num_sites(); ++i) { count += belongs(i); }
    idx_t found = -1;
    bool const refused = throws([&] { found = sys.find_nearest(t, name); });
    if (count == 0) { sym_assert(refused, "a family without sites has no nearest site"); sym_reach("none"); return; }
    sym_assert(!refused, "there is a nearest site");
    sym_assert(found >= 0 && found < sys.num_sites(), "it is in the system");
    sym_assert(belongs(found), "and of the family asked for");
    auto distance = [&](idx_t i) { Cartesian const d = sys.positions[i] - t; return d[0] * d[0] + d[1] * d[1]; };
    auto const min = distance(found);
    bool ok = true;
    for (idx_t i = 0; i < sys.num_sites(); ++i) { if (belongs(i)) { ok &= min <= distance(i); } }
    sym_assert(ok, "no site of the family is nearer");
    sym_reach("compared");
}
SYM_HARNESS(nearest_line) { nearest(sym_thorough() ? 3 : 2, 2, false); }
SYM_HARNESS(nearest_plane) { nearest(2, sym_thorough() ? 2 : 1, true); }
