#include "common.hpp"
#include "system/StructureModifiers.hpp"
using namespace hs;

// ---- dangling sites ---------------------------------------------------------------------
struct Flake {
    Spec sp; Index3D lo, size;                   // the cells which may be in the shape
    std::vector<SiteKey> keys; std::vector<int> on; // 1: present
    int find(SiteKey const& k) const {
        for (size_t i = 0; i < keys.size(); ++i) { if (keys[i] == k) { return static_cast<int>(i); } }
        return -1;
    }
    template<class F> void neighbors(int i, F f) const {
        for (auto const& t : sp.hops) {
            if (t.from == keys[i].sub) { f(find({keys[i].cell + t.rel, t.to})); }
            if (t.to == keys[i].sub) { f(find({keys[i].cell - t.rel, t.from})); }
        }
    }
    // drops sites which lost neighbours and have fewer than `min`, until there are none (without branching)
    void settle(int min) {
        for (size_t round = 0; round < keys.size(); ++round) {
            auto next = on;
            for (size_t i = 0; i < keys.size(); ++i) {
                int have = 0, all = 0;
                neighbors(static_cast<int>(i), [&](int j) { ++all; if (j >= 0) { have += on[j]; } });
                next[i] = on[i] & (static_cast<int>(have >= min) | static_cast<int>(have == all));
            }
            on = next;
        }
    }
};
static void dangling(int kind, bool modifier) {
    Flake f; auto& sp = f.sp; sp.ndim = 2; sp.vec = basis(2);
    auto hop = [&](int a, int b, int from, int to) {
        sp.hops.push_back({"t" + std::to_string(sp.hops.size()), {a, b, 0}, from, to, fixed_hop(1, 1, false, 0)});
    };
    int const nsub = kind == 0 ? 1 : 2;
    for (int s = 0; s < nsub; ++s) { sp.subs.push_back({subname(s), subpos(s), 1, fixed_onsite(1, false, s)}); }
    if (kind == 0) { hop(1, 0, 0, 0); hop(0, 1, 0, 0); f.size = {4, 3, 1}; }              // square
    if (kind == 1) { hop(0, 0, 0, 1); hop(1, 0, 1, 0); hop(0, 1, 1, 0); f.size = {3, 2, 1}; } // brick wall
    if (kind == 2) { hop(1, 0, 0, 0); hop(0, 0, 0, 1); f.size = {5, 1, 1}; }              // a chain with a side site on each
    f.lo = {-1, -1, 0};
    for (int s = 0; s < nsub; ++s) for (int b = 0; b < f.size[1]; ++b) for (int a = 0; a < f.size[0]; ++a) {
        f.keys.push_back({Index3D(f.lo + Index3D(a, b, 0)), s});
    }
    auto const n = f.keys.size();
    int const free = sym_thorough() ? 10 : 8;     // sites whose presence is arbitrary
    f.on.assign(n, 1);
    for (size_t i = 0; i < n; ++i) {
        if (modifier ? i % 4 == 1 : static_cast<int>(i) < free) { f.on[i] = sym_int("in the shape", 0, 1); }
    }
    auto const shape_on = f.on;
    auto lookup = [&f](std::vector<int> const& on, float x, float y) {
        for (size_t i = 0; i < f.keys.size(); ++i) {
            auto const q = f.sp.position(f.keys[i].cell, f.keys[i].sub);
            if (q[0] == x && q[1] == y) { return on[i] != 0; }
        }
        return false;
    };
    auto contains = [&](CartesianArrayConstRef p) {
        ArrayX<bool> r(p.size());
        for (idx_t i = 0; i < p.size(); ++i) { r[i] = lookup(shape_on, p.x()[i], p.y()[i]); }
        return r;
    };
    int const min = pick("min neighbors", 0, 3);
    // the bounding box reaches over all the cells
    Cartesian lo = sp.position(f.lo, 0), hi = lo;
    for (auto const& k : f.keys) { auto const p = sp.position(k.cell, k.sub); lo = lo.cwiseMin(p); hi = hi.cwiseMax(p); }
    auto lattice = sp.lattice().with_min_neighbors(min);
    Model model(lattice, FreeformShape(contains, Cartesian(hi - lo), Cartesian(0.5f * (hi + lo))));
    f.settle(min);
    if (modifier) {
        int const min2 = pick("min after", 0, 3);
        std::vector<int> drop(n);
        for (size_t i = 0; i < n; ++i) { if (i % 2 == 0) { drop[i] = sym_int("removed", 0, 1); } }
        for (size_t i = 0; i < n; ++i) { f.on[i] &= 1 - drop[i]; }
        model.add(SiteStateModifier([&f, drop, lookup](Eigen::Ref<ArrayX<bool>> state, CartesianArrayConstRef p, string_view) {
            for (idx_t i = 0; i < p.size(); ++i) { state[i] = state[i] & !lookup(drop, p.x()[i], p.y()[i]); }
        }, min2));
        if (min2 > 0) { f.settle(min2); }
    }
    int count = 0;
    for (size_t i = 0; i < n; ++i) { count += f.on[i]; }
    try { model.system(); }
    catch (std::runtime_error const&) { sym_assert(count == 0, "only a system without sites is refused"); sym_reach("empty"); return; }
    auto const& sys = *model.system();
    sym_assert(sys.num_sites() == count, "the number of remaining sites");
    bool ok = true;
    for (size_t k = 0; k < n; ++k) {
        auto const p = sp.position(f.keys[k].cell, f.keys[k].sub);
        bool found = false;
        for (idx_t i = 0; i < sys.num_sites(); ++i) { Cartesian q = sys.positions[i]; found |= q[0] == p[0] && q[1] == p[1]; }
        ok &= found == (f.on[k] != 0);
    }
    sym_assert(ok, "exactly the sites with enough neighbours remain");
    sym_reach("compared");
}
SYM_HARNESS(dangling_square) { dangling(0, false); }
SYM_HARNESS(dangling_brick) { dangling(1, false); }
SYM_HARNESS(dangling_side) { dangling(2, false); }
SYM_HARNESS(dangling_after_square) { dangling(0, true); }
SYM_HARNESS(dangling_after_brick) { dangling(1, true); }
SYM_HARNESS(dangling_after_side) { dangling(2, true); }

// sites at the edge of a primitive block also lost neighbours (known finding: they are not checked)
SYM_HARNESS(dangling_block) {
    int const n = sym_pin(sym_int("cells", 2, 6)), min = sym_pin(sym_int("min", 1, 3));
    Spec sp; sp.ndim = 1; sp.vec = basis(1);
    sp.subs.push_back({"A", subpos(0), 1, fixed_onsite(1, false, 0)});
    sp.hops.push_back({"t", {1, 0, 0}, 0, 0, fixed_hop(1, 1, false, 0)});
    Model model(sp.lattice(), Primitive(n, 1, 1), SiteStateModifier([](Eigen::Ref<ArrayX<bool>>, CartesianArrayConstRef, string_view) {}, min));
    bool refused = false; idx_t sites = 0;
    try { sites = model.system()->num_sites(); } catch (std::exception const&) { refused = true; }
    sym_assert(min < 2 ? sites == n : refused, "the ends of a block are dangling");
    sym_reach("compared");
}

// ---- state and position modifiers ---------------------------------------------------------
// x is arbitrary; y and z are fixed and identify the site
struct MSite { Cartesian pos; std::string name, family; bool alive; SiteKey key; int norb; bool gone; };
// a symbolic state is stored as it is; `gone` sites were removed before a generator was applied

// with a generator at any point: what comes after it acts on the finished system
static void structure(int nsteps, int nsub, bool alias, bool generator = false) {
    Spec sp; sp.ndim = 1; sp.vec = {{16, 4, 0}};
    for (int s = 0; s < nsub; ++s) {
        auto const norb = s == 0 ? pick("norb", 1, 2) : 1;
        sp.subs.push_back({subname(s), Cartesian(static_cast<float>(sym_int("x", -3, 3)), 0, static_cast<float>(s)), norb, fixed_onsite(norb, false, s)});
    }
    if (alias) { auto& s = sp.subs.back(); s.alias_of = 0; s.norb = sp.subs[0].norb; s.energy = sp.subs[0].energy; }
    for (int s = 0; s + 1 < nsub; ++s) {
        sp.hops.push_back({"t" + std::to_string(s), {s, 0, 0}, s, s + 1, fixed_hop(sp.subs[s].norb, sp.subs[s + 1].norb, false, s)});
    }
    int const cells = 2;
    Model model(sp.lattice(), Primitive(cells, 1, 1));
    std::vector<MSite> w;
    for (auto const& k : block(sp, {cells, 1, 1})) {
        w.push_back({sp.position(k.cell, k.sub), sp.subs[k.sub].name, sp.subs[sp.original(k.sub)].name, true, k, sp.subs[k.sub].norb, false});
    }
    auto find = [&w](float y, float z) {
        for (size_t i = 0; i < w.size(); ++i) { if (w[i].pos[1] == y && w[i].pos[2] == z) { return static_cast<int>(i); } }
        return -1;
    };
    int const at = generator ? pick("generator", 0, nsteps) : -1;
    bool const sites = generator && pick("new sites", 0, 1) == 1;
    auto generate = [&] {
        // sites which were removed before are not part of the system any more
        auto settle = [&w] {
            for (auto& s : w) {
                if (!s.alive) { s.gone = true; }
                s.name = s.family; // an alias is no family of its own in the system
            }
        };
        if (sites) {
            model.add(SiteGenerator("N", fixed_onsite(2, false, 7), [&, settle](System const&) {
                settle();
                auto p = CartesianArray(2);
                for (int i = 0; i < 2; ++i) {
                    p[i] = Cartesian{static_cast<float>(sym_int("nx", -3, 3)), 0, static_cast<float>(20 + i)};
                    w.push_back({p[i], "N", "N", true, {{100 + i, 0, 0}, 9}, 2, false});
                }
                return p;
            }));
        } else {
            model.add(HoppingGenerator("g", 3.0, [settle](System const&) {
                settle();
                return HoppingGenerator::Result{ArrayXi(0), ArrayXi(0)};
            }));
        }
    };
    std::vector<std::vector<int>> seen(static_cast<size_t>(nsteps), std::vector<int>(w.size() + 2));
    // how many sites each step has to be shown (all those which are not gone)
    std::vector<std::vector<int>> shown = seen;
    auto note = [&](int step) { for (size_t i = 0; i < w.size(); ++i) { shown[step][i] = w[i].gone ? 0 : 1; } };
    for (int step = 0; step < nsteps; ++step) {
        if (step == at) { generate(); }
        if (pick("kind", 0, 1) == 0) {
            model.add(SiteStateModifier([&, step](Eigen::Ref<ArrayX<bool>> state, CartesianArrayConstRef p, string_view name) {
                sym_assert(state.size() == p.size(), "as many states as positions");
                note(step);
                for (idx_t i = 0; i < p.size(); ++i) {
                    auto const k = find(p.y()[i], p.z()[i]);
                    sym_assert(k >= 0 && !w[k].gone && seen[step][k] == 0, "every site is seen once");
                    seen[step][k] = 1;
                    sym_assert((p.x()[i] == w[k].pos[0]) & (w[k].name == name), "with its position and family");
                    sym_assert(state[i] == w[k].alive, "and the state the previous modifier left");
                    if ((k + step) % 2 == 0) { bool const b = sym_bool("state"); state[i] = b; w[k].alive = b; }
                }
            }));
        } else {
            model.add(PositionModifier([&, step](CartesianArrayRef p, string_view name) {
                note(step);
                for (idx_t i = 0; i < p.size(); ++i) {
                    auto const k = find(p.y()[i], p.z()[i]);
                    sym_assert(k >= 0 && !w[k].gone && seen[step][k] == 0, "every site is seen once");
                    seen[step][k] = 1;
                    sym_assert((p.x()[i] == w[k].pos[0]) & (w[k].name == name), "with its position and family");
                    auto const x = p.x()[i] + static_cast<float>(sym_int("dx", -3, 3));
                    p.x()[i] = x; w[k].pos[0] = x;
                }
            }));
        }
    }
    if (at == nsteps) { generate(); }
    auto compare = [&] {
        auto const& sys = *model.system();
        sym_assert(seen == shown, "every site is seen by every modifier");
        auto const n = static_cast<int>(sys.num_sites());
        auto const ids = sys.compressed_sublattices.decompressed();
        int alive = 0; for (auto const& s : w) { alive += s.alive; }
        sym_assert((n == alive) & (ids.size() == n), "invalid sites are absent, all others present");
        std::map<SiteKey, int> where;
        for (int i = 0; i < n; ++i) {
            Cartesian p = sys.positions[i];
            auto const k = find(p[1], p[2]);
            sym_assert(k >= 0 && !where.count(w[k].key), "no other sites");
            sym_assert(w[k].alive, "no invalid site remains");
            where[w[k].key] = i;
            sym_assert((p[0] == w[k].pos[0]) & (sys.site_registry.id(w[k].family).value() == ids[i]), "position and family");
        }
        std::set<std::tuple<int, int, int>> want, got;
        for (auto const& s : w) for (auto const& t : sp.hops) {
            if (!where.count(s.key) || t.from != s.key.sub) { continue; }
            auto const it = where.find({s.key.cell + t.rel, t.to});
            if (it == where.end()) { continue; }
            want.insert(std::make_tuple(static_cast<int>(sys.hopping_registry.id(t.name).value()), where[s.key], it->second));
        }
        idx_t total = 0;
        for (auto const& b : sys.hopping_blocks) for (auto const& c : b.coordinates()) {
            ++total;
            auto const f = static_cast<int>(b.family_id().value());
            got.insert(want.count(std::make_tuple(f, c.row, c.col)) ? std::make_tuple(f, c.row, c.col) : std::make_tuple(f, c.col, c.row));
        }
        sym_assert(want == got && total == static_cast<idx_t>(want.size()), "hoppings between the remaining sites, each once");
    };
    try { compare(); }
    catch (std::runtime_error const&) {
        int alive = 0; for (auto const& s : w) { alive += s.alive; }
        sym_assert(alive == 0, "only a system without sites is refused");
    }
    sym_reach("compared");
}
SYM_HARNESS(states2) { structure(sym_thorough() ? 4 : 3, 2, false); }
SYM_HARNESS(states_alias) { structure(sym_thorough() ? 3 : 2, 3, true); }
SYM_HARNESS(states_generator) { structure(sym_thorough() ? 5 : 4, 1, false, true); }
SYM_HARNESS(states_generator2) { structure(3, sym_thorough() ? 3 : 2, false, true); }
SYM_HARNESS(states_generator_alias) { structure(sym_thorough() ? 3 : 2, 2, true, true); }
