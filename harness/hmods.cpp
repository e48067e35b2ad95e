#include "common.hpp"
#include "leads/Leads.hpp"
using namespace hs;

// ---- access to the elements handed to a modifier -------------------------------------------
static cplx element(ComplexArrayRef const& r, idx_t i) {
    switch (r.tag) {
        case num::Tag::f32: return static_cast<float*>(r.data)[i];
        case num::Tag::f64: return static_cast<double*>(r.data)[i];
        case num::Tag::cf32: return cplx(static_cast<std::complex<float>*>(r.data)[i]);
        default: return static_cast<std::complex<double>*>(r.data)[i];
    }
}
static void assign(ComplexArrayRef const& r, idx_t i, cplx v) {
    switch (r.tag) {
        case num::Tag::f32: static_cast<float*>(r.data)[i] = static_cast<float>(v.real()); break;
        case num::Tag::f64: static_cast<double*>(r.data)[i] = v.real(); break;
        case num::Tag::cf32: static_cast<std::complex<float>*>(r.data)[i] = std::complex<float>(v); break;
        default: static_cast<std::complex<double>*>(r.data)[i] = v;
    }
}
static bool is_real(ComplexArrayRef const& r) { return r.tag == num::Tag::f32 || r.tag == num::Tag::f64; }
static bool shaped(ComplexArrayRef const& r, idx_t rows, idx_t cols, idx_t n) {
    if (rows == 1 && cols == 1) { return r.ndim == 1 && r.shape[0] == n; }
    return r.ndim == 3 && r.is_row_major && r.shape[0] == rows && r.shape[1] == cols && r.shape[2] == n;
}
static bool finds(Spec const& sp, Cartesian p, string_view name, SiteKey& k) {
    for (int s = 0; s < static_cast<int>(sp.subs.size()); ++s) for (int c = -4; c <= 4; ++c) for (int b = -4; b <= 4; ++b) {
        if (sp.ndim < 2 && b != 0) { continue; }
        if (c != 0 && sp.ndim < 3) { continue; }
        for (int a = -5; a <= 5; ++a) {
            auto const q = sp.position({a, b, c}, s);
            if (q[0] == p[0] && q[1] == p[1] && q[2] == p[2] && (name.empty() || sp.subs[sp.original(s)].name == name)) {
                k = {{a, b, c}, s}; return true;
            }
        }
    }
    return false;
}

// ---- every onsite and hopping term is seen once by each modifier, which adds or sets ---------
struct Options { int ndim, nsub, nhop, maxsize, maxorb, mods; bool periodic, generator, symbolic, zero; };
struct Terms {
    std::map<SiteKey, MatrixXcd> onsite;                  // current energies
    std::map<std::pair<int, SiteKey>, MatrixXcd> hopping; // by hopping and the site it starts from
};

static void modified(Options o) {
    Spec sp; sp.ndim = o.ndim; sp.vec = basis(o.ndim);
    bool const cx = pick("complex", 0, 1) != 0;
    for (int s = 0; s < o.nsub; ++s) {
        int const norb = o.maxorb > 1 ? pick("norb", 1, o.maxorb) : 1;
        MatrixXcd e = o.zero ? MatrixXcd::Zero(norb, norb) : o.symbolic ? some_onsite(norb, cx) : fixed_onsite(norb, cx, s);
        sp.subs.push_back({subname(s), subpos(s), norb, e});
    }
    for (int h = 0; h < o.nhop; ++h) {
        Index3D rel = {0, 0, 0};
        for (int d = 0; d < o.ndim; ++d) { rel[d] = pick("rel", -1, 1); }
        int from = o.nsub > 1 ? pick("from", 0, o.nsub - 1) : 0, to = o.nsub > 1 ? pick("to", 0, o.nsub - 1) : 0;
        if (from == to) { sym_assume(!(rel == Index3D::Zero())); }
        for (auto const& x : sp.hops) {
            sym_assume(!(x.from == from && x.to == to && x.rel == rel));
            sym_assume(!(x.from == to && x.to == from && x.rel == Index3D(-rel)));
        }
        auto const rows = sp.subs[from].norb, cols = sp.subs[to].norb;
        sp.hops.push_back({"t" + std::to_string(h), rel, from, to,
                           o.symbolic ? some_hop(rows, cols, cx) : fixed_hop(rows, cols, cx, h)});
    }
    Index3D size = {1, 1, 1}; Periodic per; float len[3] = {-1, -1, -1};
    for (int d = 0; d < o.ndim; ++d) {
        size[d] = pick("size", 1, o.maxsize);
        if (o.periodic) { per.on[d] = pick("periodic", 0, 1) != 0; per.period[d] = size[d]; }
        if (per.on[d]) { len[d] = static_cast<float>(size[d]) * sp.vec[d].norm(); }
    }
    auto const sites = block(sp, size);
    std::set<SiteKey> inside(sites.begin(), sites.end());
    Index3D const lo = {-(size[0] / 2), -(size[1] / 2), -(size[2] / 2)};
    auto image = [&](SiteKey k, Cartesian* shift = nullptr) { // of a site in the piece
        for (int d = 0; d < 3; ++d) {
            if (!per.on[d]) { continue; }
            auto const n = floordiv(k.cell[d] - lo[d], per.period[d]) * per.period[d];
            k.cell[d] -= n;
            if (shift) { *shift -= static_cast<float>(n) * sp.vec[d]; }
        }
        return k;
    };
    Terms now;
    for (auto const& s : sites) {
        now.onsite[s] = sp.subs[s.sub].energy;
        for (size_t t = 0; t < sp.hops.size(); ++t) {
            if (sp.hops[t].from != s.sub) { continue; }
            if (inside.count(image({Index3D(s.cell + sp.hops[t].rel), sp.hops[t].to}))) {
                now.hopping[{static_cast<int>(t), s}] = sp.hops[t].energy;
            }
        }
    }
    Model model(sp.lattice(), Primitive(size[0], size[1], size[2]));
    if (o.periodic) { model.add(TranslationalSymmetry(len[0], len[1], len[2])); }
    if (o.generator) { // one which adds nothing: the matrix is then built in another way
        model.add(HoppingGenerator("none", MatrixXcd::Constant(1, 1, 1.0), [](System const&) { return HoppingGenerator::Result{}; }));
    }
    // what each modifier does: kind 0 adds, kind 1 replaces
    int tag = 0;
    auto change = [&](MatrixXcd const& old, bool hermitian_, int kind) {
        MatrixXcd m = o.symbolic ? (hermitian_ ? some_onsite(static_cast<int>(old.rows()), cx) : some_hop(static_cast<int>(old.rows()), static_cast<int>(old.cols()), cx))
                                 : (hermitian_ ? fixed_onsite(static_cast<int>(old.rows()), cx, ++tag % 5) : fixed_hop(static_cast<int>(old.rows()), static_cast<int>(old.cols()), cx, ++tag % 5));
        if (kind == 0) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) { m(i, j) += old(i, j); } }
        return m;
    };
    struct Step { bool on_sites; std::map<SiteKey, int> sites; std::map<std::pair<int, SiteKey>, int> hops; };
    std::vector<Step> steps(static_cast<size_t>(o.mods));
    for (int m = 0; m < o.mods; ++m) {
        int const what = pick("modifier", 0, 3), kind = what & 1;
        auto& step = steps[m]; step.on_sites = what < 2;
        if (step.on_sites) {
            model.add(OnsiteModifier([&, kind](ComplexArrayRef e, CartesianArrayConstRef p, string_view name) {
                sym_assert(p.size() > 0, "positions");
                for (idx_t n = 0; n < p.size(); ++n) {
                    SiteKey k;
                    bool const known = finds(sp, {p.x()[n], p.y()[n], p.z()[n]}, name, k) && inside.count(k);
                    sym_assert(known, "an onsite modifier is given the position and family of a site");
                    if (!known) { return; }
                    step.sites[k]++;
                    auto& cur = now.onsite[k]; auto const norb = cur.rows();
                    bool const right = shaped(e, norb, norb, p.size());
                    sym_assert(right, "shape of the onsite energies");
                    if (!right) { return; }
                    bool ok = true;
                    for (idx_t i = 0; i < norb; ++i) for (idx_t j = 0; j < norb; ++j) {
                        ok &= same(element(e, (i * norb + j) * p.size() + n), cur(i, j));
                    }
                    sym_assert(ok, "an onsite modifier is given the current energy of the site");
                    cur = change(cur, true, kind);
                    for (idx_t i = 0; i < norb; ++i) for (idx_t j = 0; j < norb; ++j) { assign(e, (i * norb + j) * p.size() + n, cur(i, j)); }
                }
            }));
        } else {
            model.add(HoppingModifier([&, kind](ComplexArrayRef e, CartesianArrayConstRef p, CartesianArrayConstRef q, string_view name) {
                sym_assert(p.size() == q.size() && p.size() > 0, "positions");
                for (idx_t n = 0; n < p.size(); ++n) {
                    SiteKey from, to; int t = -1;
                    bool known = finds(sp, {p.x()[n], p.y()[n], p.z()[n]}, "", from)
                              && finds(sp, {q.x()[n], q.y()[n], q.z()[n]}, "", to);
                    if (known) {
                        for (size_t h = 0; h < sp.hops.size(); ++h) {
                            if (name == sp.hops[h].name && sp.hops[h].from == from.sub && to == SiteKey{Index3D(from.cell + sp.hops[h].rel), sp.hops[h].to}) { t = static_cast<int>(h); }
                        }
                    }
                    std::pair<int, SiteKey> const id{t, image(from)};
                    known = known && t >= 0 && now.hopping.count(id);
                    sym_assert(known, "a hopping modifier is given the positions and family of a hopping");
                    if (!known) { return; }
                    step.hops[id]++;
                    auto& cur = now.hopping[id];
                    auto const rows = cur.rows(), cols = cur.cols();
                    bool const right = shaped(e, rows, cols, p.size());
                    sym_assert(right, "shape of the hopping energies");
                    if (!right) { return; }
                    bool ok = true;
                    for (idx_t i = 0; i < rows; ++i) for (idx_t j = 0; j < cols; ++j) { ok &= same(element(e, (i * cols + j) * p.size() + n), cur(i, j)); }
                    sym_assert(ok, "a hopping modifier is given the current energy of the hopping");
                    cur = change(cur, false, kind);
                    for (idx_t i = 0; i < rows; ++i) for (idx_t j = 0; j < cols; ++j) { assign(e, (i * cols + j) * p.size() + n, cur(i, j)); }
                }
            }));
        }
    }
    if (o.periodic && !o.symbolic) { per.k = Cartesian(0.03f, 0.0575f, 0.1f); model.set_wave_vector(per.k); }
    auto const h = to_dense(model.hamiltonian());
    auto const& sys = *model.system();
    auto const pl = place(sp, sites, sys);
    sym_assert(pl.exact, "sites");
    bool ok = true;
    for (auto const& s : steps) {
        if (s.on_sites) { for (auto const& k : sites) { auto it = s.sites.find(k); ok &= it != s.sites.end() && it->second == 1; } }
        else { for (auto const& t : now.hopping) { auto it = s.hops.find(t.first); ok &= it != s.hops.end() && it->second == 1; } }
    }
    sym_assert(ok, "every modifier sees every site or hopping exactly once");
    Dense want(static_cast<int>(sys.hamiltonian_size()));
    std::map<SiteKey, int> where;
    for (size_t i = 0; i < sites.size(); ++i) { where[sites[i]] = pl.index[i]; }
    for (auto const& s : sites) {
        auto const r = sys.to_hamiltonian_indices(where[s]);
        auto const& e = now.onsite[s];
        for (int i = 0; i < e.rows(); ++i) for (int j = 0; j < e.cols(); ++j) { want(r[i], r[j]) += e(i, j); }
    }
    for (auto const& t : now.hopping) {
        auto const& hop = sp.hops[t.first.first]; auto const& e = t.second;
        Cartesian shift = {0, 0, 0};
        auto const to = image({Index3D(t.first.second.cell + hop.rel), hop.to}, &shift);
        auto const r = sys.to_hamiltonian_indices(where[t.first.second]), c = sys.to_hamiltonian_indices(where[to]);
        auto const plain = shift.isZero() || o.symbolic;
        auto const phase = plain ? cplx(1) : std::exp(cplx(0, 1) * static_cast<double>(per.k.dot(shift)));
        for (int i = 0; i < e.rows(); ++i) for (int j = 0; j < e.cols(); ++j) {
            auto const v = plain ? e(i, j) : e(i, j) * phase;
            want(r[i], c[j]) += v; want(c[j], r[i]) += std::conj(v);
        }
    }
    sym_assert(h.outside == 0 && h.duplicates == 0, "entries are inside the matrix and unique");
    if (o.periodic && !o.symbolic) { sym_assert(close(h, want, 4e-3), "the Hamiltonian holds what the modifiers returned"); }
    else { sym_assert(equal(h, want), "the Hamiltonian holds what the modifiers returned"); }
    sym_reach("compared");
}
// ndim, nsub, nhop, maxsize, maxorb, mods, periodic, generator, symbolic, zero
SYM_HARNESS(mod_chain) { modified({1, 2, 1, 3, 1, 2, false, false, true, false}); }
SYM_HARNESS(mod_generator) { modified({1, 2, 1, 2, 2, sym_thorough() ? 2 : 1, false, true, true, false}); }
SYM_HARNESS(mod_zero) { modified({1, 2, 1, 2, 2, sym_thorough() ? 2 : 1, false, false, true, true}); }
SYM_HARNESS(mod_orbitals) { modified({1, 2, 1, 2, sym_thorough() ? 3 : 2, 2, false, false, true, false}); }
SYM_HARNESS(mod_ring) { modified({1, 2, 1, 3, 1, 2, true, false, true, false}); }
SYM_HARNESS(mod_ring_k) { modified({1, 2, sym_thorough() ? 2 : 1, 2, 2, 2, true, false, false, false}); }
SYM_HARNESS(mod_torus) { modified({2, 1, 1, 2, 1, 2, true, false, true, false}); }

// ---- many or large hoppings are passed in several pieces ----------------------------------------
SYM_HARNESS(slices) {
    // the buffer holds 100000 elements: many, 4, 2, 1 or less than one hopping of these sizes
    static int const sizes[] = {2, 158, 184, 224, 317};
    int const norb = sizes[pick("orbitals", 0, 4)], cells = pick("cells", 2, sym_thorough() ? 9 : 6);
    Spec sp; sp.ndim = 1; sp.vec = basis(1);
    sp.subs.push_back({"A", subpos(0), norb, MatrixXcd::Zero(norb, norb)});
    MatrixXcd t = MatrixXcd::Zero(norb, norb);
    int const a = norb - 1, b = norb / 3;
    t(a, b) = sym_dy("t", 1, 8); t(b, a) = sym_dy("t", 1, 8);
    sp.hops.push_back({"t", {1, 0, 0}, 0, 0, t});
    Model model(sp.lattice(), Primitive(cells, 1, 1));
    bool const mod = pick("modifier", 0, 1) != 0;
    std::vector<int> seen(static_cast<size_t>(cells)); std::vector<double> add(static_cast<size_t>(cells));
    for (auto& d : add) { d = mod ? sym_dy("delta", 1, 8) : 0.0; }
    auto cell = [&](float x) { return static_cast<int>(x / 16.f) + cells / 2; };
    if (mod) {
        model.add(HoppingModifier([&](ComplexArrayRef e, CartesianArrayConstRef p, CartesianArrayConstRef q, string_view) {
            sym_assert(shaped(e, norb, norb, p.size()) && q.size() == p.size(), "shape of the hopping energies");
            for (idx_t n = 0; n < p.size(); ++n) {
                auto const c = cell(p.x()[n]);
                sym_assert(c >= 0 && c + 1 < cells && cell(q.x()[n]) == c + 1, "hopping positions");
                seen[c]++;
                auto const i = (static_cast<idx_t>(a) * norb + b) * p.size() + n;
                sym_assert(same(element(e, i), t(a, b)), "current value");
                assign(e, i, element(e, i) + add[c]);
            }
        }));
    }
    auto const& m = ham::get_reference<float>(model.hamiltonian());
    auto const& sys = *model.system();
    sym_assert(m.nonZeros() == (cells - 1) * 4, "number of matrix elements");
    bool ok = true;
    std::vector<int> at(static_cast<size_t>(cells));
    for (int i = 0; i < cells; ++i) { at[cell(sys.positions.x[i])] = sys.to_hamiltonian_indices(i)[0]; }
    for (int c = 0; c + 1 < cells; ++c) {
        if (mod) { sym_assert(seen[c] == 1, "every hopping is seen exactly once"); }
        ok &= m.coeff(at[c] + a, at[c + 1] + b) == static_cast<float>(t(a, b).real() + add[c]);
        ok &= m.coeff(at[c] + b, at[c + 1] + a) == static_cast<float>(t(b, a).real());
        ok &= m.coeff(at[c + 1] + b, at[c] + a) == static_cast<float>(t(a, b).real() + add[c]);
        ok &= m.coeff(at[c + 1] + a, at[c] + b) == static_cast<float>(t(b, a).real());
    }
    sym_assert(ok, "values");
    sym_reach("compared");
}

// ---- modifiers apply to leads as to the rest --------------------------------------------------
SYM_HARNESS(mod_lead) {
    Spec sp; sp.ndim = 2; sp.vec = {{16, 0, 0}, {0, 16, 0}};
    for (int s = 0; s < 2; ++s) {
        int const norb = pick("norb", 1, 2);
        sp.subs.push_back({subname(s), subpos(s), norb, some_onsite(norb, true)});
    }
    sp.hops.push_back({"t0", {0, 0, 0}, 0, 1, some_hop(sp.subs[0].norb, sp.subs[1].norb, true)});
    int const r0 = pick("rel", -1, 1), r1 = pick("rel", -1, 1), from = pick("from", 0, 1), to = pick("to", 0, 1);
    sym_assume(!(r0 == 0 && r1 == 0));
    sp.hops.push_back({"t1", {r0, r1, 0}, from, to, some_hop(sp.subs[from].norb, sp.subs[to].norb, true)});
    static int const all[] = {-1, 1, -2, 2};
    int const dir = all[pick("direction", 0, 3)], ax = std::abs(dir) - 1, sign = dir > 0 ? 1 : -1;
    Model model(sp.lattice(), Primitive(3, 3, 1));
    model.attach_lead(dir, ax == 0 ? Line({0, -17, 0}, {0, 22, 0}) : Line({-17, 0, 0}, {22, 0, 0}));
    // changes which do not vary along the lead
    std::map<std::pair<int, int>, MatrixXcd> on; std::map<std::pair<int, int>, MatrixXcd> hop;
    for (int t = -2; t <= 2; ++t) {
        for (int s = 0; s < 2; ++s) { on[{t, s}] = some_onsite(sp.subs[s].norb, true); }
        for (int h = 0; h < 2; ++h) { hop[{t, h}] = some_hop(static_cast<int>(sp.hops[h].energy.rows()), static_cast<int>(sp.hops[h].energy.cols()), true); }
    }
    model.add(OnsiteModifier([&](ComplexArrayRef e, CartesianArrayConstRef p, string_view name) {
        for (idx_t n = 0; n < p.size(); ++n) {
            SiteKey k; bool const known = finds(sp, {p.x()[n], p.y()[n], p.z()[n]}, name, k);
            sym_assert(known, "an onsite modifier is given the position and family of a site");
            if (!known) { return; }
            auto const& d = on[{k.cell[1 - ax], k.sub}]; auto const norb = d.rows();
            sym_assert(shaped(e, norb, norb, p.size()), "shape of the onsite energies");
            for (idx_t i = 0; i < norb; ++i) for (idx_t j = 0; j < norb; ++j) { assign(e, (i * norb + j) * p.size() + n, d(i, j)); }
        }
    }, true));
    model.add(HoppingModifier([&](ComplexArrayRef e, CartesianArrayConstRef p, CartesianArrayConstRef q, string_view name) {
        for (idx_t n = 0; n < p.size(); ++n) {
            SiteKey f, t; int h = -1;
            if (finds(sp, {p.x()[n], p.y()[n], p.z()[n]}, "", f) && finds(sp, {q.x()[n], q.y()[n], q.z()[n]}, "", t)) {
                for (int x = 0; x < 2; ++x) {
                    if (name == sp.hops[x].name && sp.hops[x].from == f.sub && t == SiteKey{Index3D(f.cell + sp.hops[x].rel), sp.hops[x].to}) { h = x; }
                }
            }
            sym_assert(h >= 0, "a hopping modifier is given the positions and family of a hopping");
            if (h < 0) { return; }
            auto const& d = hop[{f.cell[1 - ax], h}];
            sym_assert(shaped(e, d.rows(), d.cols(), p.size()), "shape of the hopping energies");
            for (idx_t i = 0; i < d.rows(); ++i) for (idx_t j = 0; j < d.cols(); ++j) { assign(e, (i * d.cols() + j) * p.size() + n, d(i, j)); }
        }
    }, true));
    auto const lead = model.lead(0);
    auto const& sys = lead.system();
    auto const n = static_cast<int>(sys.num_sites());
    std::vector<SiteKey> key(static_cast<size_t>(n));
    bool ok = true;
    for (int i = 0; i < n; ++i) { ok &= finds(sp, Cartesian(sys.positions[i]), "", key[i]); }
    sym_assert(ok, "lead sites are lattice sites");
    if (!ok) { return; }
    Dense h0(static_cast<int>(sys.hamiltonian_size())), h1(h0.n);
    for (int i = 0; i < n; ++i) {
        auto const hi = sys.to_hamiltonian_indices(i);
        auto const& d = on[{key[i].cell[1 - ax], key[i].sub}];
        for (int a = 0; a < d.rows(); ++a) for (int b = 0; b < d.cols(); ++b) { h0(hi[a], hi[b]) += d(a, b); }
        for (int j = 0; j < n; ++j) {
            auto const hj = sys.to_hamiltonian_indices(j);
            for (int h = 0; h < 2; ++h) for (int c = 0; c < 2; ++c) for (int rev = 0; rev < 2; ++rev) {
                // row i is in the lead cell, column j in the same cell or the one towards the structure
                SiteKey x = key[i], y = key[j]; if (c) { y.cell[ax] -= sign; }
                auto const& a = rev ? y : x; auto const& b = rev ? x : y;
                if (a.sub != sp.hops[h].from || b.sub != sp.hops[h].to || !(Index3D(a.cell + sp.hops[h].rel) == b.cell)) { continue; }
                auto const& e = hop[{a.cell[1 - ax], h}];
                auto& m = c ? h1 : h0;
                for (int p = 0; p < hi.size(); ++p) for (int q = 0; q < hj.size(); ++q) { m(hi[p], hj[q]) += rev ? std::conj(e(q, p)) : e(p, q); }
            }
        }
    }
    sym_assert(equal(to_dense(lead.h0()), h0), "h0 holds what the modifiers returned");
    sym_assert(equal(to_dense(lead.h1()), h1), "h1 holds what the modifiers returned");
    sym_reach("compared");
}
