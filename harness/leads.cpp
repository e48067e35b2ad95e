#include "common.hpp"
#include "leads/Leads.hpp"
#include <functional>
using namespace hs;

// A piece of material with an irregular outline and one or two leads.
struct Piece { int n[2]; std::vector<char> on; };

static void attached(int maxorb, int nleads, bool irregular, int ndim = 2, bool arms = false) {
    Spec sp; sp.ndim = ndim; sp.vec = {{16, 0, 0}, {0, 16, 0}, {0, 0, 16}};
    bool const solid = ndim == 3;
    int const nsub = 2;
    for (int s = 0; s < nsub; ++s) {
        int const norb = maxorb > 1 ? pick("norb", 1, maxorb) : 1;
        sp.subs.push_back({subname(s), subpos(s), norb, some_onsite(norb, true)});
    }
    int const reach = sym_thorough() ? 2 : 1;
    int const nh = 2;
    for (int h = 0; h < nh; ++h) {
        Index3D rel = {0, 0, 0};
        int from = h == 0 ? (solid ? 0 : pick("from", 0, 1)) : 1, to = h == 0 ? (solid && (nleads > 1 || arms) ? 1 : pick("to", 0, 1)) : 0;
        bool const fixed = solid && (nleads > 1 || arms);
        rel[0] = h == 0 ? (fixed ? 0 : pick("rel", -1, 1)) : 1; rel[1] = h == 0 ? (fixed ? 1 : pick("rel", -1, 1)) : (reach > 1 ? pick("rel", -1, 1) : 0);
        if (solid && h == 0) { rel[2] = fixed ? -1 : pick("rel", -1, 1); }
        if (from == to) { sym_assume(!(rel == Index3D::Zero())); }
        for (auto const& o : sp.hops) {
            sym_assume(!(o.from == from && o.to == to && o.rel == rel));
            sym_assume(!(o.from == to && o.to == from && o.rel == Index3D(-rel)));
        }
        sp.hops.push_back({"t" + std::to_string(h), rel, from, to, some_hop(sp.subs[from].norb, sp.subs[to].norb, true)});
    }
    // the outline: N x N cells, some of them empty (complete cells so that nothing dangles)
    int const N = solid ? 2 : 3, NZ = solid ? 2 : 1;
    Index3D const lo = {-1, -1, solid ? -1 : 0};
    std::vector<char> on(N * N * NZ, 1);
    if (irregular) {
        for (int c = 0; c < N * N * NZ; ++c) { if (solid ? c == 0 || (c == 6 && sym_thorough()) : c == 0 || c == 3 || c == 6 || c == 8) { on[c] = static_cast<char>(pick("cell", 0, 1)); } }
    }
    // an arm with a bend at its end, out of the way of any lead: it reaches further than the lead's rows do
    std::vector<Index3D> extra;
    if (arms) {
        int const along = pick("arm", 0, 2), bend = pick("bend", 0, 2);
        sym_assume(along != bend);
        int const side = pick("side", 0, 1);
        for (int d = 1; d <= 2; ++d) { Index3D c = {0, 0, 0}; c[along] = d; c[bend] = side ? 0 : -1; extra.push_back(c); }
        Index3D c = {0, 0, 0}; c[along] = 2; c[bend] = side ? 1 : -2; extra.push_back(c);
    }
    auto at_cell = [&](Index3D c) { c -= lo; return (c[2] * N + c[1]) * N + c[0]; };
    auto more = [&](Index3D c) { for (auto const& e : extra) { if (e == c) { return true; } } return false; };
    auto inside = [&](Index3D c) { c -= lo; return c[0] >= 0 && c[0] < N && c[1] >= 0 && c[1] < N && c[2] >= 0 && c[2] < NZ; };
    auto contains = [&](CartesianArrayConstRef p) {
        ArrayX<bool> r(p.size());
        for (idx_t i = 0; i < p.size(); ++i) {
            r[i] = false;
            for (auto const& e : extra) for (int s = 0; s < nsub; ++s) {
                auto const q = sp.position(e, s);
                if (p.x()[i] == q[0] && p.y()[i] == q[1] && p.z()[i] == q[2]) { r[i] = true; }
            }
            for (int c = 0; c < NZ; ++c) for (int b = 0; b < N; ++b) for (int a = 0; a < N; ++a) for (int s = 0; s < nsub; ++s) {
                if (!on[at_cell(lo + Index3D(a, b, c))]) { continue; }
                auto const q = sp.position(lo + Index3D(a, b, c), s);
                if (p.x()[i] == q[0] && p.y()[i] == q[1] && p.z()[i] == q[2]) { r[i] = true; }
            }
        }
        return r;
    };
    auto lattice = sp.lattice().with_min_neighbors(0);
    Model model(lattice, FreeformShape(contains, arms ? Cartesian(88, 88, 88) : Cartesian(40, 40, solid ? 40.f : 0.f), {0, 0, 0}));
    // the transverse extents of each lead: [axis][lowest, highest], in cells
    struct Window { int first[3], last[3]; float a[3], b[3]; };
    std::vector<int> dirs; std::vector<Window> span;
    for (int l = 0; l < nleads; ++l) {
        static int const all[] = {-1, 1, -2, 2, -3, 3};
        int const dir = all[pick("direction", 0, 2 * ndim - 1)];
        int const ax = std::abs(dir) - 1;
        Window w{};
        for (int k = 0; k < ndim; ++k) {
            if (k == ax) { continue; }
            w.first[k] = pick("first", -1, solid ? 0 : 1); w.last[k] = pick("last", -1, solid ? 0 : 1);
            sym_assume(w.first[k] <= w.last[k]);
            w.a[k] = 16.f * w.first[k]; w.b[k] = 16.f * w.last[k] + 8.f;
        }
        if (solid) {
            Cartesian width, middle;
            for (int k = 0; k < 3; ++k) { width[k] = k == ax ? 8 : w.b[k] - w.a[k]; middle[k] = k == ax ? 0 : 0.5f * (w.a[k] + w.b[k]); }
            model.attach_lead(dir, FreeformShape([w, ax](CartesianArrayConstRef p) {
                ArrayX<bool> r(p.size());
                for (idx_t i = 0; i < p.size(); ++i) {
                    float const at[] = {p.x()[i], p.y()[i], p.z()[i]};
                    r[i] = true;
                    for (int k = 0; k < 3; ++k) { if (k != ax && (at[k] < w.a[k] || at[k] > w.b[k])) { r[i] = false; } }
                }
                return r;
            }, width, middle));
        } else {
            int const k = 1 - ax;
            model.attach_lead(dir, ax == 0 ? Line({0, w.a[k], 0}, {0, w.b[k], 0}) : Line({w.a[k], 0, 0}, {w.b[k], 0, 0}));
        }
        dirs.push_back(dir); span.push_back(w);
    }
    // oracle: fill in the foundation lead by lead
    std::map<SiteKey, char> filled;
    auto present = [&](Index3D c, int s) {
        auto it = filled.find({c, s}); if (it != filled.end()) { return it->second != 0; }
        return more(c) || (inside(c) && on[at_cell(c)] != 0);
    };
    bool possible = true;
    struct Row { Index3D t; int s; };    // a cell with zero along the lead
    std::vector<std::vector<Row>> rows; std::vector<int> layer;
    for (size_t l = 0; l < dirs.size() && possible; ++l) {
        int const ax = std::abs(dirs[l]) - 1, step = dirs[l] > 0 ? -1 : 1;
        std::vector<Row> r;
        auto const& w = span[l];
        // every cell of a window some cells wider than the lead (its last cell at the end of the lead, truncated to an integer)
        auto each = [&](int more, std::function<void(Index3D)> f) {
            int from[3] = {0, 0, 0}, to[3] = {0, 0, 0};
            for (int k = 0; k < ndim; ++k) { if (k != ax) { from[k] = w.first[k] - more; to[k] = static_cast<int>(w.b[k] / 16.f) + more; } }
            for (int c = from[2]; c <= to[2]; ++c) for (int b = from[1]; b <= to[1]; ++b) for (int a = from[0]; a <= to[0]; ++a) { f({a, b, c}); }
        };
        for (int s = 0; s < nsub; ++s) {
            each(3, [&](Index3D t) {
                bool in = true;
                for (int k = 0; k < ndim; ++k) { float const y = 16.f * t[k] + sp.subs[s].pos[k]; if (k != ax) { in &= y >= w.a[k] && y <= w.b[k]; } }
                if (in) { r.push_back({t, s}); }
            });
        }
        // the outermost layer which has any site in the rows of the lead
        auto cell = [&](int x, Index3D t) { t[ax] = x; return t; };
        int start = step > 0 ? -4 : 4, stop = step > 0 ? 5 : -5, at = stop;
        for (int x = start; x != stop && at == stop; x += step) {
            // the slice considered is the bounding box of the lead, one cell wider than the lead
            each(1, [&](Index3D t) { for (int s = 0; s < nsub; ++s) { if (present(cell(x, t), s)) { at = x; } } });
        }
        if (at == stop) { possible = false; break; }
        for (auto const& q : r) {
            int x = at;
            while (x != stop && !present(cell(x, q.t), q.s)) { x += step; }
            if (x == stop) { possible = false; break; }
            for (int f = at; f != x; f += step) { filled[{cell(f, q.t), q.s}] = 1; }
        }
        rows.push_back(r); layer.push_back(at);
    }
    bool built = true;
    try { model.eval(); } catch (std::runtime_error const&) { built = false; }
    sym_assert(built == possible, "a lead can be attached exactly if each of its rows meets the structure");
    if (!built) { sym_reach("rejected"); return; }

    auto const& sys = *model.system();
    std::vector<SiteKey> sites;
    int const deep = solid ? 4 : 0;
    for (int s = 0; s < nsub; ++s) for (int c = -deep; c <= deep; ++c) for (int b = -4; b <= 4; ++b) for (int a = -4; a <= 4; ++a) {
        if (present({a, b, c}, s)) { sites.push_back({{a, b, c}, s}); }
    }
    auto const pl = place(sp, sites, sys);
    sym_assert(pl.exact, "attaching leads adds exactly the sites that connect them");
    sym_assert(equal(to_dense(model.hamiltonian()), definition(sp, sites, pl, sys)), "main Hamiltonian");

    sym_assert(model.leads().size() == static_cast<int>(dirs.size()), "number of leads");
    for (size_t l = 0; l < dirs.size(); ++l) {
        auto const lead = model.lead(l);
        int const ax = std::abs(dirs[l]) - 1, sign = dirs[l] > 0 ? 1 : -1;
        sym_assert(lead.spec().axis == ax && lead.spec().sign == sign, "lead direction");
        auto const n = static_cast<int>(lead.indices().size());
        sym_assert(n == static_cast<int>(rows[l].size()) && lead.system().num_sites() == n, "number of lead sites");
        std::vector<SiteKey> key(static_cast<size_t>(n));
        bool ok = true;
        std::set<int> used;
        Cartesian shift = static_cast<float>(sign) * sp.vec[ax];
        for (int i = 0; i < n; ++i) {
            auto const idx = lead.indices()[i];
            ok &= idx >= 0 && idx < sys.num_sites() && used.insert(idx).second;
            if (!ok) { break; }
            size_t k = 0; while (k < sites.size() && pl.index[k] != idx) { ++k; }
            ok &= k < sites.size(); if (!ok) { break; }
            key[i] = sites[k];
            ok &= key[i].cell[ax] == layer[l];
            bool in = false;
            Index3D flat = key[i].cell; flat[ax] = 0;
            for (auto const& r : rows[l]) { in |= r.t == flat && r.s == key[i].sub; }
            ok &= in;
            Cartesian p = lead.system().positions[i], q = sys.positions[idx] + shift;
            ok &= p[0] == q[0] && p[1] == q[1] && p[2] == q[2];
        }
        sym_assert(ok, "lead sites are the outermost sites of its rows, moved by one lattice vector");
        // h0: within the lead cell; h1: from the lead cell to the adjacent cell towards the structure
        Dense h0(static_cast<int>(lead.system().hamiltonian_size())), h1(h0.n);
        auto const idx = [&](int i) { return lead.system().to_hamiltonian_indices(i); };
        for (int i = 0; i < n; ++i) {
            auto const& e = sp.subs[key[i].sub].energy;
            auto const hi = idx(i);
            sym_assert(hi.size() == e.rows(), "lead orbitals");
            for (int a = 0; a < e.rows(); ++a) for (int b = 0; b < e.cols(); ++b) { h0(hi[a], hi[b]) += e(a, b); }
            for (int j = 0; j < n; ++j) {
                auto const hj = idx(j);
                for (auto const& t : sp.hops) for (int dir = 0; dir < 2; ++dir) {
                    // dir 0: as defined, i is the origin; dir 1: the conjugate, i is the destination
                    if ((dir == 0 ? t.from : t.to) != key[i].sub || (dir == 0 ? t.to : t.from) != key[j].sub) { continue; }
                    Index3D const rel = dir == 0 ? t.rel : Index3D(-t.rel);
                    for (int c = 0; c < 2; ++c) {
                        Index3D from = key[i].cell; if (c) { from[ax] += sign; }
                        if (!(Index3D(from + rel) == key[j].cell)) { continue; }
                        auto& h = c ? h1 : h0;
                        for (int a = 0; a < hi.size(); ++a) for (int b = 0; b < hj.size(); ++b) {
                            h(hi[a], hj[b]) += dir == 0 ? t.energy(a, b) : std::conj(t.energy(b, a));
                        }
                    }
                }
            }
        }
        sym_assert(equal(to_dense(lead.h0()), h0), "h0 is the Hamiltonian of one lead cell");
        sym_assert(equal(to_dense(lead.h1()), h1), "h1 couples adjacent lead cells");
    }
    sym_reach("compared");
}

SYM_HARNESS(lead_one) { attached(1, 1, true); }
SYM_HARNESS(lead_two) { attached(1, 2, false); }
SYM_HARNESS(lead_orbitals) { attached(2, 1, false); }
SYM_HARNESS(lead_solid) { attached(1, 1, true, 3); }
SYM_HARNESS(lead_arm) { attached(1, 1, false, 3, true); }
SYM_HARNESS(lead_solid_two) { attached(1, 2, false, 3); }
// which directions a lead can have, and that a refused one leaves no trace
SYM_HARNESS(lead_rules) {
    int const ndim = sym_pin(sym_int("dimensions", 1, 3)), had = sym_pin(sym_int("attached before", 0, 1));
    Spec sp; sp.ndim = ndim; sp.vec = {{16, 0, 0}, {0, 16, 0}, {0, 0, 16}};
    sp.subs.push_back({"A", {0, 0, 0}, 1, fixed_onsite(1, false, 0)});
    for (int d = 0; d < ndim; ++d) { Index3D rel = {0, 0, 0}; rel[d] = 1; sp.hops.push_back({"t" + std::to_string(d), rel, 0, 0, fixed_hop(1, 1, false, d)}); }
    auto const everywhere = [](CartesianArrayConstRef p) { return ArrayX<bool>::Constant(p.size(), true).eval(); };
    Model model(sp.lattice(), FreeformShape(everywhere, {32, ndim > 1 ? 32.f : 0.f, ndim > 2 ? 32.f : 0.f}, {0, 0, 0}));
    if (had && ndim > 1) { model.attach_lead(2, FreeformShape(everywhere, {16, 16, 16}, {0, 0, 0})); }
    auto const before = model.leads().size();
    int const direction = sym_int("direction", -5, 5);
    bool rejected = false;
    try { model.attach_lead(direction, FreeformShape(everywhere, {16, 16, 16}, {0, 0, 0})); } catch (std::logic_error const&) { rejected = true; }
    bool const valid = (direction != 0) & (direction >= -ndim) & (direction <= ndim) & (ndim > 1);
    sym_assert(rejected == !valid, "a lead is refused exactly if the lattice has no such direction or only one dimension");
    model.eval();
    auto const now = model.leads().size();
    sym_assert(now == before + (rejected ? 0 : 1), "a refused lead is not attached");
    if (rejected) { sym_reach("refused"); return; }
    auto const lead = model.lead(static_cast<size_t>(before));
    sym_assert((lead.spec().axis == absi(direction) - 1) & (lead.spec().sign == (direction > 0 ? 1 : -1)), "direction");
    sym_assert(lead.system().num_sites() > 0 && lead.system().num_sites() == static_cast<int>(lead.indices().size()), "sites");
    sym_reach("attached");
}
// sites which come, go and are renumbered after the lead was attached to the outline of the structure
SYM_HARNESS(lead_generators) {
    Spec sp; sp.ndim = 2; sp.vec = {{16, 0, 0}, {0, 16, 0}, {0, 0, 16}};
    sp.subs.push_back({"A", {0, 0, 0}, 1, fixed_onsite(1, false, 0)});
    sp.subs.push_back({"B", {5, 5, 0}, 2, fixed_onsite(2, false, 1)});
    sp.hops.push_back({"x", {1, 0, 0}, 0, 0, fixed_hop(1, 1, false, 2)});
    sp.hops.push_back({"y", {0, 1, 0}, 0, 0, fixed_hop(1, 1, false, 3)});
    sp.hops.push_back({"in", {0, 0, 0}, 0, 1, fixed_hop(1, 2, false, 4)});
    sp.hops.push_back({"across", {1, 1, 0}, 1, 1, fixed_hop(2, 2, false, 5)});
    static int const all[] = {-1, 1, -2, 2};
    int const dir = all[pick("direction", 0, 3)], ax = std::abs(dir) - 1, sign = dir > 0 ? 1 : -1, last = pick("width", 0, 1);
    auto const everywhere = [](CartesianArrayConstRef p) { ArrayX<bool> r(p.size()); for (idx_t i = 0; i < p.size(); ++i) { r[i] = p.x()[i] >= 0 && p.y()[i] >= 0 && p.x()[i] < 32 && p.y()[i] < 32; } return r; };
    Model model(sp.lattice().with_min_neighbors(0), FreeformShape(everywhere, {64, 64, 0}, {16, 16, 0}));
    float const b = 16.f * last + 8;
    model.attach_lead(dir, ax == 0 ? Line({0, -1, 0}, {0, b, 0}) : Line({-1, 0, 0}, {b, 0, 0}));
    // what is known about every site, by position
    struct W { Cartesian pos; bool alive, gone, lead; };
    std::vector<W> w;
    for (int s = 0; s < 2; ++s) for (int y = 0; y < 2; ++y) for (int x = 0; x < 2; ++x) {
        Index3D const c = {x, y, 0};
        w.push_back({sp.position(c, s), true, false, c[ax] == (sign > 0 ? 1 : 0) && c[1 - ax] <= last});
    }
    auto find = [&w](Cartesian p) { for (size_t i = 0; i < w.size(); ++i) { if (w[i].pos[0] == p[0] && w[i].pos[1] == p[1]) { return static_cast<int>(i); } } return -1; };
    auto settle = [&w] { for (auto& s : w) { s.gone |= !s.alive; } };
    int const steps = sym_thorough() ? 4 : 3;
    for (int step = 0; step < steps; ++step) {
        int const kind = step == 0 ? pick("first", 0, 1) : pick("then", 0, 2);
        auto const name = "n" + std::to_string(step);
        if (kind == 0) {
            model.add(SiteGenerator(name, fixed_onsite(1, false, 7), [&, step](System const&) {
                settle();
                auto p = CartesianArray(1); p[0] = Cartesian{200.f + static_cast<float>(step), 0, 0};
                w.push_back({p[0], true, false, false});
                return p;
            }));
        } else if (kind == 1) {
            model.add(HoppingGenerator(name, 3.0, [&](System const&) { settle(); return HoppingGenerator::Result{ArrayXi(0), ArrayXi(0)}; }));
        } else {
            model.add(SiteStateModifier([&, step](Eigen::Ref<ArrayX<bool>> state, CartesianArrayConstRef p, string_view) {
                for (idx_t i = 0; i < p.size(); ++i) {
                    auto const k = find(Cartesian(p.x()[i], p.y()[i], p.z()[i]));
                    sym_assert(k >= 0 && !w[k].gone, "a site of the system");
                    if (k > 7 || k % 2 == step % 2) { bool const v = sym_pin(sym_int("state", 0, 1)) != 0; state[i] = v; w[k].alive = v; }
                }
            }));
        }
    }
    bool built = true;
    try { model.eval(); } catch (std::runtime_error const&) { built = false; }
    settle();
    bool possible = true;
    for (auto const& s : w) { possible &= !(s.lead && s.gone); }
    sym_assert(built == possible, "the model can be built exactly if every site the lead attaches to is left");
    if (!built) { sym_reach("lead site removed"); return; }
    auto const& sys = *model.system();
    int left = 0, attached = 0, n = 0;
    for (auto const& s : w) { left += !s.gone; attached += s.lead; }
    sym_assert(sys.num_sites() == left, "sites which are left");
    auto const lead = model.lead(0);
    sym_assert(static_cast<int>(lead.indices().size()) == attached && lead.system().num_sites() == attached, "number of lead sites");
    bool ok = true;
    std::set<int> used;
    for (auto const idx : lead.indices()) {
        ok &= idx >= 0 && idx < sys.num_sites() && used.insert(idx).second;
        if (!ok) { break; }
        Cartesian const q = sys.positions[idx], p = lead.system().positions[n++];
        auto const k = find(q);
        ok &= k >= 0 && w[k].lead;
        Cartesian const moved = q + static_cast<float>(sign) * sp.vec[ax];
        ok &= p[0] == moved[0] && p[1] == moved[1] && p[2] == moved[2];
        // the same kind of site
        ok &= sys.to_hamiltonian_indices(idx).size() == lead.system().to_hamiltonian_indices(n - 1).size();
    }
    sym_assert(ok, "the lead's sites are matched with the sites of the structure which it continues");
    sym_reach(left < static_cast<int>(w.size()) ? "sites removed" : "nothing removed");
}
