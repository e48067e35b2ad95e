#include "common.hpp"
using namespace hs;

// ---- what the lattice should hold -------------------------------------------------------------
struct OSub { std::string name; Cartesian pos; MatrixXcd energy; int root; };
struct OTerm { Index3D rel; int from, to; };
struct OHop { std::string name; MatrixXcd energy; std::vector<OTerm> terms; };
struct Oracle {
    std::vector<OSub> subs; std::vector<OHop> hops;
    int sub(std::string const& n) const { for (size_t i = 0; i < subs.size(); ++i) { if (subs[i].name == n) { return static_cast<int>(i); } } return -1; }
    int hop(std::string const& n) const { for (size_t i = 0; i < hops.size(); ++i) { if (hops[i].name == n) { return static_cast<int>(i); } } return -1; }
    bool connects(Index3D rel, int from, int to) const { // is it free?
        for (auto const& h : hops) for (auto const& t : h.terms) {
            if ((t.rel == rel && t.from == from && t.to == to) || (t.rel == Index3D(-rel) && t.from == to && t.to == from)) { return true; }
        }
        return false;
    }
};
static bool equal(MatrixXcd const& a, MatrixXcd const& b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) { return false; }
    bool ok = true;
    for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) { ok &= same(a(i, j), b(i, j)); }
    return ok;
}
static void compare(Lattice const& l, Oracle const& o) {
    sym_assert(l.nsub() == static_cast<int>(o.subs.size()) && l.nhop() == static_cast<int>(o.hops.size()), "number of sublattices and hopping families");
    std::vector<int> id(o.subs.size()), alias(o.subs.size());
    bool ok = true;
    for (size_t i = 0; i < o.subs.size(); ++i) {
        auto it = l.get_sublattices().find(o.subs[i].name);
        if (it == l.get_sublattices().end()) { ok = false; continue; }
        auto const& s = it->second;
        ok &= s.position == o.subs[i].pos && static_cast<int>(s.energy.rows()) == static_cast<int>(o.subs[i].energy.rows());
        if (s.energy.rows() == o.subs[i].energy.rows()) { ok &= equal(s.energy, o.subs[i].energy); }
        id[i] = s.unique_id.value(); alias[i] = s.alias_id.value();
    }
    sym_assert(ok, "sublattices are stored as given");
    for (size_t i = 0; i < o.subs.size(); ++i) for (size_t j = 0; j < o.subs.size(); ++j) {
        ok &= (id[i] == id[j]) == (i == j);
        ok &= (alias[i] == alias[j]) == (o.subs[i].root == o.subs[j].root);
    }
    sym_assert(ok, "identifiers are unique, shared only by aliases of the same sublattice");
    auto const hop_registry = l.hopping_registry();
    auto const site_registry = l.site_registry();
    for (auto const& h : o.hops) {
        auto it = l.get_hoppings().find(h.name);
        if (it == l.get_hoppings().end()) { ok = false; continue; }
        ok &= equal(it->second.energy, h.energy) && it->second.terms.size() == h.terms.size();
        for (size_t k = 0; ok && k < h.terms.size(); ++k) {
            auto const& t = it->second.terms[k];
            ok &= t.relative_index == h.terms[k].rel && t.from.value() == id[h.terms[k].from] && t.to.value() == id[h.terms[k].to];
        }
        auto const hid = it->second.family_id;
        ok &= hop_registry.name(hid) == h.name && hop_registry.id(h.name) == hid && equal(hop_registry.energy(hid), h.energy);
    }
    sym_assert(ok && hop_registry.size() == static_cast<idx_t>(o.hops.size()), "hoppings are stored as given");
    for (size_t i = 0; i < o.subs.size(); ++i) {
        if (o.subs[i].root != static_cast<int>(i)) { continue; }
        ok &= site_registry.size() > alias[i];
        if (!ok) { break; }
        ok &= site_registry.name(SiteID{alias[i]}) == o.subs[i].name && site_registry.id(o.subs[i].name).value() == alias[i];
        ok &= equal(site_registry.energy(SiteID{alias[i]}), o.subs[i].energy);
    }
    sym_assert(ok, "the registry names every family of sites");
    bool diagonal = false, any = false; int most = 0;
    for (size_t i = 0; i < o.subs.size(); ++i) {
        auto const& e = o.subs[i].energy;
        int count = static_cast<int>(e.rows()) - 1;
        for (int a = 0; a < e.rows(); ++a) for (int b = 0; b < e.cols(); ++b) {
            auto const nonzero = static_cast<bool>((e(a, b).real() != 0) | (e(a, b).imag() != 0));
            any |= nonzero; if (a == b) { diagonal |= nonzero; }
        }
        for (auto const& h : o.hops) for (auto const& t : h.terms) {
            if (t.from == static_cast<int>(i)) { count += static_cast<int>(h.energy.cols()); }
            if (t.to == static_cast<int>(i)) { count += static_cast<int>(h.energy.rows()); }
        }
        most = std::max(most, count);
    }
    sym_assert(l.max_hoppings() == most, "most hoppings from any site");
    sym_assert(l.has_diagonal_terms() == diagonal && l.has_onsite_energy() == any, "presence of onsite energy");
    // the form used by the system builder: grouped by orbitals, aliases next to each other, all hoppings in both directions
    auto const cell = l.optimized_unit_cell();
    std::vector<int> order; int last = 0;
    for (auto const& s : cell) {
        int k = -1; for (size_t i = 0; i < id.size(); ++i) { if (id[i] == s.unique_id.value()) { k = static_cast<int>(i); } }
        ok &= k >= 0 && s.norb >= last; if (!ok) { break; }
        last = s.norb; order.push_back(k);
        ok &= s.norb == o.subs[k].energy.rows() && s.position == o.subs[k].pos && s.alias_id.value() == alias[k];
    }
    ok &= order.size() == o.subs.size();
    for (size_t i = 0; ok && i < order.size(); ++i) {
        auto const k = order[i];
        for (size_t j = i + 1; j < order.size(); ++j) { if (o.subs[order[j]].root == o.subs[k].root) { ok &= o.subs[order[j - 1]].root == o.subs[k].root; } }
        std::multiset<std::tuple<int, int, int, int, int, bool>> want, got;
        for (auto const& h : o.hops) for (auto const& t : h.terms) {
            auto const f = hop_registry.id(h.name).value();
            if (t.from == k) { want.insert(std::make_tuple(f, t.rel[0], t.rel[1], t.rel[2], t.to, false)); }
            if (t.to == k) { want.insert(std::make_tuple(f, -t.rel[0], -t.rel[1], -t.rel[2], t.from, true)); }
        }
        for (auto const& h : cell[i].hoppings) {
            got.insert(std::make_tuple(h.family_id.value(), h.relative_index[0], h.relative_index[1], h.relative_index[2], order[h.to_sub_idx], h.is_conjugate));
        }
        ok &= want == got;
    }
    sym_assert(ok, "the optimized unit cell holds every site and hopping");
}

template<class F> static bool throws(F f) {
    try { f(); } catch (std::exception const&) { return true; }
    return false;
}
static Cartesian const where[] = {{0, 0, 0}, {1, 2, 3}, {4, 0, 1}, {2, 5, 0}, {3, 3, 0}};

// ---- sublattices and aliases ---------------------------------------------------------------------
static void add_sub(Lattice& l, Oracle& o, int step) {
    bool const lite = !sym_thorough();
    static char const* const names[] = {"A", "", "B", "C"};
    auto const name = std::string(names[pick("name", 0, lite ? 1 + step : 3)]);
    auto const pos = where[step];
    int const kind = pick("energy", 0, lite && step == 0 ? 4 : 6);
    bool valid = !name.empty() && o.sub(name) < 0; MatrixXcd e; bool thrown = false;
    if (kind == 0) {
        double const v = pick("e", -1, 1);
        e = MatrixXcd::Constant(1, 1, v);
        thrown = throws([&] { l.add_sublattice(name, pos, v); });
    } else if (kind <= 3) {
        int const n = kind - 1; VectorXd v(n);
        for (int i = 0; i < n; ++i) { v[i] = pick("e", 0, 1); }
        e = MatrixXcd::Zero(n, n); for (int i = 0; i < n; ++i) { e(i, i) = v[i]; }
        valid &= n > 0;
        thrown = throws([&] { l.add_sublattice(name, pos, v); });
    } else if (kind == 4) { // not square
        int const rows = pick("rows", 0, 2); e = MatrixXcd::Constant(rows, 1, 1.0);
        valid &= rows == 1;
        thrown = throws([&] { l.add_sublattice(name, pos, e); });
    } else {
        e = MatrixXcd::Zero(2, 2);
        e(0, 0) = cplx(pick("e", 0, 1), kind == 6 ? pick("e.im", 0, 1) : 0); e(1, 1) = cplx(1, kind == 6 ? pick("e.im", 0, 1) : 0);
        e(0, 1) = cplx(pick("e.re", 0, 1), pick("e.im", -1, 1));
        if (kind == 5) { e(1, 0) = cplx(pick("e.re", 0, 1), pick("e.im", -1, 1)); }
        bool const triangular = (e(1, 0).real() == 0) & (e(1, 0).imag() == 0);
        bool const hermitian_ = (e(1, 0).real() == e(0, 1).real()) & (e(1, 0).imag() == -e(0, 1).imag());
        valid &= (e(0, 0).imag() == 0) & (e(1, 1).imag() == 0);
        valid &= triangular | hermitian_;
        thrown = throws([&] { l.add_sublattice(name, pos, e); });
        e(1, 0) = std::conj(e(0, 1));
    }
    sym_assert(thrown == !valid, "a sublattice is accepted exactly if it is consistent");
    if (valid) { o.subs.push_back({name, pos, e, static_cast<int>(o.subs.size())}); }
}
static void add_alias(Lattice& l, Oracle& o, int step) {
    static char const* const names[] = {"A", "B", "C", ""};
    auto const name = std::string(names[pick("name", 0, 3)]), original = std::string(names[pick("original", 0, 2)]);
    auto const of = o.sub(original);
    bool const valid = !name.empty() && o.sub(name) < 0 && of >= 0;
    bool const thrown = throws([&] { l.add_alias(name, original, where[step]); });
    sym_assert(thrown == !valid, "an alias is accepted exactly if it is consistent");
    if (valid) { o.subs.push_back({name, where[step], o.subs[of].energy, o.subs[of].root}); }
}
SYM_HARNESS(sublattices) {
    Lattice l({16, 2, 0}, {-4, 16, 0}); Oracle o;
    int const steps = sym_thorough() ? 3 : 2;
    for (int s = 0; s < steps; ++s) { if (s > 0 && pick("alias", 0, 1)) { add_alias(l, o, s); } else { add_sub(l, o, s); } compare(l, o); }
    sym_reach("compared");
}
// any order of sublattices and aliases (also aliases of aliases), and the model made of them
SYM_HARNESS(aliases) {
    Lattice l({16, 2, 0}, {-4, 16, 0}); Oracle o;
    static char const* const names[] = {"A", "B", "C", "D", "E"};
    int const n = pick("sublattices", 1, sym_thorough() ? 5 : 4);
    for (int s = 0; s < n; ++s) {
        int const of = pick("alias of", -1, s - 1);
        if (of < 0) {
            int const norb = pick("orbitals", 1, 2);
            auto const e = some_onsite(norb, true);
            l.add_sublattice(names[s], where[s], e);
            o.subs.push_back({names[s], where[s], e, s});
        } else {
            l.add_alias(names[s], names[of], where[s]);
            o.subs.push_back({names[s], where[s], o.subs[of].energy, o.subs[of].root});
        }
    }
    compare(l, o);
    Model model(l, Primitive(2, 1, 1));
    auto const& sys = *model.system();
    auto const ids = sys.compressed_sublattices.decompressed();
    auto const h = to_dense(model.hamiltonian());
    sym_assert(sys.num_sites() == 2 * n, "sites of the model");
    bool ok = true;
    for (auto const& s : o.subs) for (int c = -1; c < 1; ++c) {
        Cartesian const p = s.pos + static_cast<float>(c) * Cartesian(16, 2, 0);
        int at = -1;
        for (int i = 0; i < ids.size(); ++i) { Cartesian q = sys.positions[i]; if (q == p) { at = i; } }
        ok &= at >= 0; if (!ok) { break; }
        ok &= sys.site_registry.name(SiteID{ids[at]}) == o.subs[s.root].name;
        auto const r = sys.to_hamiltonian_indices(at);
        ok &= r.size() == s.energy.rows(); if (!ok) { break; }
        for (int i = 0; i < r.size(); ++i) for (int j = 0; j < r.size(); ++j) { ok &= same(h(r[i], r[j]), s.energy(i, j)); }
    }
    sym_assert(ok, "the sites of an alias belong to the family of the original");
    sym_reach("compared");
}

// ---- hoppings ---------------------------------------------------------------------------------------
static void hoppings(int steps, bool anonymous) {
    Lattice l({16, 2, 0}, {-4, 16, 0}); Oracle o;
    bool const lite = anonymous && !sym_thorough();
    int const norb = lite ? 2 : pick("orbitals", 1, 2);
    auto const ea = fixed_onsite(1, true, 0), eb = fixed_onsite(norb, true, 1);
    l.add_sublattice("A", where[0], ea); o.subs.push_back({"A", where[0], ea, 0});
    l.add_sublattice("B", where[1], eb); o.subs.push_back({"B", where[1], eb, 1});
    l.add_alias("C", "A", where[2]); o.subs.push_back({"C", where[2], ea, 0});
    static char const* const subs[] = {"A", "B", "C", "x"};
    static char const* const fams[] = {"t", "u", ""};
    for (int s = 0; s < steps; ++s) {
        int const op = pick("op", 0, anonymous ? 2 : 1);
        if (op == 0) { // register
            auto const name = std::string(fams[pick("hopping", 0, lite ? 1 : 2)]);
            int const rows = pick("rows", lite ? 1 : 0, 2), cols = pick("cols", lite ? 1 : 0, 2);
            MatrixXcd const e = some_hop(rows, cols, true);
            bool const valid = !name.empty() && o.hop(name) < 0 && rows > 0 && cols > 0;
            bool const thrown = throws([&] { l.register_hopping_energy(name, e); });
            sym_assert(thrown == !valid, "a hopping energy is accepted exactly if it is consistent");
            if (valid) { o.hops.push_back({name, e, {}}); }
        } else {
            Index3D const rel = {pick("rel", lite ? 0 : -1, 1), 0, 0};
            static int const some[] = {0, 1, 3};
            int const f = lite ? some[pick("from", 0, 2)] : pick("from", 0, 3), t = lite ? some[pick("to", 0, 2)] : pick("to", 0, 3);
            auto const from = std::string(subs[f]), to = std::string(subs[t]);
            bool valid = f < 3 && t < 3 && !(f == t && rel == Index3D::Zero()) && !(f < 3 && t < 3 && o.connects(rel, f, t));
            if (op == 1) {
                int const k = pick("hopping", 0, 1);
                auto const h = o.hop(fams[k]);
                valid = valid && h >= 0 && o.hops[h].energy.rows() == o.subs[f].energy.rows() && o.hops[h].energy.cols() == o.subs[t].energy.rows();
                bool const thrown = throws([&] { l.add_hopping(rel, from, to, std::string(fams[k])); });
                sym_assert(thrown == !valid, "a hopping is accepted exactly if it is consistent");
                if (valid) { o.hops[h].terms.push_back({rel, f, t}); }
            } else { // without a name: hoppings of equal energy belong to one family
                int const dims = pick("size", 0, lite ? 3 : 4), rows = dims == 0 ? 0 : 1 + (dims - 1) / 2, cols = dims == 0 ? 1 : 1 + (dims - 1) % 2;
                MatrixXcd e = MatrixXcd::Constant(rows, cols, 1.0);
                if (rows) { e(0, 0) = cplx(1, pick("t.im", 0, 1)); }
                valid = valid && rows == o.subs[f].energy.rows() && cols == o.subs[t].energy.rows();
                bool const thrown = throws([&] { l.add_hopping(rel, from, to, e); });
                sym_assert(thrown == !valid, "a hopping is accepted exactly if it is consistent");
                if (valid) {
                    int h = -1;
                    for (size_t i = 0; i < o.hops.size(); ++i) { if (equal(o.hops[i].energy, e)) { h = static_cast<int>(i); } }
                    if (h < 0) { // a new family with a name of its own
                        std::string name;
                        for (auto const& p : l.get_hoppings()) { if (o.hop(p.first) < 0) { name = p.first; } }
                        h = static_cast<int>(o.hops.size()); o.hops.push_back({name, e, {}});
                    }
                    o.hops[h].terms.push_back({rel, f, t});
                }
            }
        }
        compare(l, o);
    }
    sym_reach("compared");
}
SYM_HARNESS(named_hoppings) { hoppings(sym_thorough() ? 3 : 2, false); }
SYM_HARNESS(anonymous_hoppings) { hoppings(2, true); }
// hoppings after a matching family was registered: more of the steps are valid
SYM_HARNESS(repeated_hoppings) {
    Lattice l({16, 2, 0}, {-4, 16, 0}); Oracle o;
    auto const e = fixed_onsite(1, false, 0);
    static char const* const subs[] = {"A", "B"};
    for (int s = 0; s < 2; ++s) { l.add_sublattice(subs[s], where[s], e); o.subs.push_back({subs[s], where[s], e, s}); }
    for (int h = 0; h < 2; ++h) {
        auto const t = fixed_hop(1, 1, true, h); auto const name = std::string(h ? "u" : "t");
        l.register_hopping_energy(name, t); o.hops.push_back({name, t, {}});
    }
    int const steps = sym_thorough() ? 3 : 2;
    for (int s = 0; s < steps; ++s) {
        Index3D const rel = {pick("rel", -1, 1), pick("rel", -1, 1), 0};
        int const f = pick("from", 0, 1), t = pick("to", 0, 1), h = s == 2 ? 0 : pick("hopping", 0, 1);
        bool const valid = !(f == t && rel == Index3D::Zero()) && !o.connects(rel, f, t);
        bool const thrown = throws([&] { l.add_hopping(rel, subs[f], subs[t], o.hops[h].name); });
        sym_assert(thrown == !valid, "a hopping is accepted exactly if it is new, in either direction");
        if (valid) { o.hops[h].terms.push_back({rel, f, t}); }
        compare(l, o);
    }
    sym_reach("compared");
}

// ---- vectors and offset -----------------------------------------------------------------------------
SYM_HARNESS(vectors) {
    // axes in any directions; a position given in lattice coordinates is found again
    int const ndim = pick("dimensions", 1, 3), kind = pick("directions", 0, 5);
    static int const perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    std::vector<Cartesian> v; auto const z = Cartesian{0, 0, 0};
    for (int d = 0; d < 3; ++d) {
        Cartesian a = z; a[perm[kind][d]] = 8;
        if (pick("skew", 0, 1)) { a[perm[kind][(d + 1) % 3]] = 2; }
        v.push_back(a);
    }
    Lattice l(v[0], ndim > 1 ? v[1] : z, ndim > 2 ? v[2] : z);
    sym_assert(l.ndim() == ndim, "number of dimensions");
    Cartesian c = z, p = z;
    for (int d = 0; d < ndim; ++d) {
        static float const some[] = {-0.625f, -0.5f, 0, 0.375f, 0.75f};
        c[d] = some[pick("coordinate", 0, 4)]; p += c[d] * v[d];
        sym_assert(l.vector(static_cast<size_t>(d)) == v[d], "vectors");
    }
    auto const got = l.translate_coordinates(p);
    bool ok = true;
    for (int d = 0; d < 3; ++d) { ok &= std::abs(got[d] - c[d]) < 1e-4f; }
    sym_assert(ok, "a position in the space of the lattice is translated to its lattice coordinates");
    bool const far = std::abs(c[0]) > 0.55f || std::abs(c[1]) > 0.55f || std::abs(c[2]) > 0.55f;
    sym_assert(throws([&] { l.set_offset(p); }) == far, "an offset is accepted up to half a lattice vector");
    sym_assert(l.get_offset() == (far ? z : p), "an offset is stored as given");
    l.add_sublattice("A", where[1]);
    Cartesian want = l.get_offset() + where[1];
    for (int d = 0; d < ndim; ++d) { want += static_cast<float>(d - 2) * v[d]; }
    sym_assert(l.calc_position({-2, -1, 0}, "A") == want, "position of a site");
    sym_reach("compared");
}
