#include "common.hpp"
#include "leads/Leads.hpp"
using namespace hs;

// ---- everything a model evaluates to, in a form that can be compared -----------------------
struct Blocks { std::vector<std::vector<int>> v; };
struct SystemValue {
    std::vector<float> pos; std::vector<int> family, norb; Blocks hops; std::vector<Blocks> bhops; std::vector<float> shifts;
};
struct Value {
    bool failed = true; SystemValue sys; Scalar type = Scalar::none; Dense h;
    struct L { std::vector<int> indices; SystemValue sys; Scalar t0, t1; Dense h0, h1; int axis, sign; };
    std::vector<L> leads;
};
static Blocks of(HoppingBlocks const& hb) {
    Blocks r;
    for (auto const& b : hb) {
        std::vector<int> x{static_cast<int>(b.family_id().value())};
        for (auto const& c : b.coordinates()) { x.push_back(c.row); x.push_back(c.col); }
        if (x.size() > 1) { r.v.push_back(x); }
    }
    return r;
}
static SystemValue of(System const& s) {
    SystemValue r;
    for (idx_t i = 0; i < s.num_sites(); ++i) { r.pos.push_back(s.positions.x[i]); r.pos.push_back(s.positions.y[i]); r.pos.push_back(s.positions.z[i]); }
    auto const ids = s.compressed_sublattices.decompressed();
    for (idx_t i = 0; i < ids.size(); ++i) { r.family.push_back(static_cast<int>(ids[i])); }
    for (auto const& c : s.compressed_sublattices) { r.norb.push_back(static_cast<int>(c.num_orbitals())); }
    r.hops = of(s.hopping_blocks);
    for (auto const& b : s.boundaries) {
        r.bhops.push_back(of(b.hopping_blocks));
        for (int d = 0; d < 3; ++d) { r.shifts.push_back(b.shift[d]); }
    }
    return r;
}
static bool equal(SystemValue const& a, SystemValue const& b) {
    if (a.pos.size() != b.pos.size() || a.family != b.family || a.norb != b.norb || a.hops.v != b.hops.v || a.shifts != b.shifts || a.bhops.size() != b.bhops.size()) { return false; }
    for (size_t i = 0; i < a.bhops.size(); ++i) { if (a.bhops[i].v != b.bhops[i].v) { return false; } }
    bool ok = true;
    for (size_t i = 0; i < a.pos.size(); ++i) { ok &= a.pos[i] == b.pos[i]; }
    return ok;
}
static bool equal(Value const& a, Value const& b) {
    if (a.failed || b.failed) { return a.failed == b.failed; }
    if (a.type != b.type || a.leads.size() != b.leads.size()) { return false; }
    bool ok = equal(a.sys, b.sys) & equal(a.h, b.h);
    for (size_t l = 0; l < a.leads.size(); ++l) {
        auto const& x = a.leads[l]; auto const& y = b.leads[l];
        if (x.indices != y.indices || x.t0 != y.t0 || x.t1 != y.t1 || x.axis != y.axis || x.sign != y.sign) { return false; }
        ok &= equal(x.sys, y.sys) & equal(x.h0, y.h0) & equal(x.h1, y.h1);
    }
    return ok;
}
struct Kept { std::shared_ptr<System const> sys; Hamiltonian h; std::vector<Lead> leads; Value value; };
static Value of(System const& s, Hamiltonian const& h, std::vector<Lead> const& leads) {
    Value v; v.failed = false; v.sys = of(s); v.type = scalar_of(h); v.h = to_dense(h);
    for (auto const& l : leads) {
        v.leads.push_back({l.indices(), of(l.system()), scalar_of(l.h0()), scalar_of(l.h1()), to_dense(l.h0()), to_dense(l.h1()), l.spec().axis, l.spec().sign});
    }
    return v;
}
static Kept evaluate(Model const& m) {
    Kept k;
    try {
        m.eval();
        k.sys = m.system(); k.h = m.hamiltonian();
        for (int l = 0; l < m.leads().size(); ++l) { k.leads.push_back(m.lead(static_cast<size_t>(l))); }
        k.value = of(*k.sys, k.h, k.leads);
    } catch (std::exception const&) { k = Kept(); }
    return k;
}

// ---- the parameters ---------------------------------------------------------------------------
struct Failing { bool armed = false; };
struct Params {
    Lattice lattice; Primitive primitive; int nprim = 0; Shape shape; TranslationalSymmetry sym; bool has_sym = false;
    std::vector<std::function<void(Model&)>> structure, ham; std::vector<std::function<void(Model&)>> leads;
    std::set<std::string> names; Cartesian k = {0, 0, 0};
    explicit Params(Lattice const& l) : lattice(l) {}
    Model fresh() const {
        Model m(lattice);
        if (nprim) { m.add(primitive); }
        if (shape) { m.add(shape); }
        if (has_sym) { m.add(sym); }
        for (auto const& f : structure) { f(m); }
        for (auto const& f : ham) { f(m); }
        m.set_wave_vector(k);
        for (auto const& f : leads) { f(m); }
        return m;
    }
};

static void history(int steps, int first, int last, int evals, bool values, bool lite = false) {
    // lite: the variants of an operation are not all tried
    // any energies, or fixed ones so that they can be combined with a wave vector
    auto onsite = [&](int n, bool cx, int tag) { return values ? some_onsite(n, cx) : fixed_onsite(n, cx, tag); };
    auto hop = [&](int r, int c, bool cx, int tag) { return values ? some_hop(r, c, cx) : fixed_hop(r, c, cx, tag); };
    Spec sp; sp.ndim = 2; sp.vec = {{16, 0, 0}, {0, 16, 0}};
    sp.subs.push_back({"A", subpos(0), 1, onsite(1, false, 0)});
    sp.subs.push_back({"B", subpos(1), 2, onsite(2, false, 1)});
    sp.hops.push_back({"t0", {0, 0, 0}, 0, 1, hop(1, 2, false, 0)});
    sp.hops.push_back({"t1", {1, 0, 0}, 1, 0, hop(2, 1, false, 1)});
    sp.hops.push_back({"t2", {0, 1, 0}, 0, 0, hop(1, 1, false, 2)});
    bool const offset = pick("lattice offset", 0, 1) != 0;
    auto const lattice = offset ? sp.lattice().with_offset({2, 1, 0}) : sp.lattice();
    Params now(lattice);
    Model model(lattice);
    auto boxshape = [&](float w, float h, Cartesian off) {
        Shape s = FreeformShape([w, h](CartesianArrayConstRef p) {
            ArrayX<bool> r(p.size());
            for (idx_t i = 0; i < p.size(); ++i) { r[i] = (std::abs(p.x()[i]) <= w) & (std::abs(p.y()[i]) <= h); }
            return r;
        }, {2 * w, 2 * h, 0}, {0, 0, 0});
        s.lattice_offset = off; return s;
    };
    double const d0 = values ? sym_dy("delta", 1, 8) : 3.0, d1 = values ? sym_dy("delta", 1, 8) : 5.0;
    bool const drop = sym_bool("removed");
    MatrixXcd const ge = onsite(2, false, 2), gt = hop(1, 2, true, 3);
    Failing fail_structure, fail_ham;
    std::vector<Kept> kept; std::vector<std::pair<Model, Params>> copies;
    auto both = [&](std::vector<std::function<void(Model&)>>& list, std::function<void(Model&)> f) { f(model); list.push_back(f); };
    auto rejected = [&](std::function<void()> f) {
        bool thrown = false;
        try { f(); } catch (std::exception const&) { thrown = true; }
        sym_assert(thrown, "invalid parameters are rejected");
    };
    auto check = [&](char const* what) { sym_assert(equal(evaluate(model).value, evaluate(now.fresh()).value), what); };
    for (int step = 0; step < steps; ++step) {
        int const op = pick("op", first, last);
        auto variant = [&](char const* name, int n) { return lite ? (step + (n > 2 ? 1 : 0)) % (n + 1) : pick(name, 0, n); };
        switch (op) {
            case 0: { int n = 1 + variant("size", 1); now.primitive = Primitive(n, 2, 1); now.nprim = 1; model.add(now.primitive); break; }
            case 1: {
                int n = variant("shape", 2);
                now.shape = n == 0 ? boxshape(18, 6, {4, 0, 0}) : n == 1 ? boxshape(6, 18, {-4, 3, 0}) : boxshape(18, 18, {0, 0, 0});
                model.add(now.shape); break;
            }
            case 2: { bool x = variant("periodic axis", 1) == 0; now.sym = x ? TranslationalSymmetry(0, -1, -1) : TranslationalSymmetry(-1, 16, -1); now.has_sym = true; model.add(now.sym); break; }
            case 3: both(now.structure, [drop](Model& m) { // remove one of the B sites
                m.add(SiteStateModifier([drop](Eigen::Ref<ArrayX<bool>> s, CartesianArrayConstRef p, string_view name) {
                    if (name == "B") { for (idx_t i = 0; i < p.size(); ++i) { if (drop && p.x()[i] < 0) { s[i] = false; } } }
                }));
            }); break;
            case 4: both(now.structure, [](Model& m) {
                m.add(PositionModifier([](CartesianArrayRef p, string_view name) { if (name == "A") { for (idx_t i = 0; i < p.size(); ++i) { p.y()[i] += 1.f; } } }));
            }); break;
            case 5: { // generators
                int which = lite ? pick("generator", 0, 1) : pick("generator", 0, 2);
                auto name = std::string(which == 0 ? "G" : which == 1 ? "g" : "g2");
                auto f = [=](Model& m) {
                    if (which == 0) { m.add(SiteGenerator(name, ge, [](System const& s) { CartesianArray p(1); p[0] = Cartesian(100.f + s.num_sites(), 0, 0); return p; })); }
                    else {
                        m.add(HoppingGenerator(name, gt, [](System const& s) {
                            HoppingGenerator::Result r; r.from.resize(1); r.to.resize(1);
                            auto const ids = s.compressed_sublattices.decompressed(); int a = -1, b = -1;
                            for (int i = 0; i < ids.size(); ++i) { if (ids[i] == s.site_registry.id("A").value()) { a = i; } if (ids[i] == s.site_registry.id("B").value()) { b = i; } }
                            if (a < 0 || b < 0) { return HoppingGenerator::Result{}; }
                            r.from[0] = a; r.to[0] = b; return r;
                        }));
                    }
                };
                if (now.names.count(name)) { rejected([&] { f(model); }); }
                else { now.names.insert(name); both(now.structure, f); }
                break;
            }
            case 6: both(now.ham, [d0](Model& m) {
                m.add(OnsiteModifier([d0](ComplexArrayRef e, CartesianArrayConstRef p, string_view name) {
                    if (name != "A") { return; }
                    for (idx_t i = 0; i < p.size(); ++i) {
                        if (e.tag == num::Tag::f32) { static_cast<float*>(e.data)[i] += static_cast<float>(d0); }
                        if (e.tag == num::Tag::f64) { static_cast<double*>(e.data)[i] += d0; }
                        if (e.tag == num::Tag::cf32) { static_cast<std::complex<float>*>(e.data)[i] += static_cast<float>(d0); }
                        if (e.tag == num::Tag::cf64) { static_cast<std::complex<double>*>(e.data)[i] += d0; }
                    }
                }, false, true));
            }); break;
            case 7: both(now.ham, [d1](Model& m) { // complex, but only says so when it is applied
                m.add(HoppingModifier([d1](ComplexArrayRef e, CartesianArrayConstRef p, CartesianArrayConstRef, string_view name) {
                    if (name != "t2") { return; }
                    if (e.tag == num::Tag::f32 || e.tag == num::Tag::f64) { throw ComplexOverride(); }
                    for (idx_t i = 0; i < p.size(); ++i) {
                        if (e.tag == num::Tag::cf32) { static_cast<std::complex<float>*>(e.data)[i] += std::complex<float>(0, static_cast<float>(d1)); }
                        if (e.tag == num::Tag::cf64) { static_cast<std::complex<double>*>(e.data)[i] += cplx(0, d1); }
                    }
                }));
            }); break;
            case 8: { int n = lite ? 1 : pick("wave vector", 0, values ? 0 : 1); now.k = n ? Cartesian(0.125f, 0.0625f, 0) : Cartesian(0, 0, 0); model.set_wave_vector(now.k); break; }
            case 9: {
                int dir = variant("lead", 1) ? 2 : -1;
                both(now.leads, [dir](Model& m) { m.attach_lead(dir, dir == 2 ? Line({-20, 0, 0}, {20, 0, 0}) : Line({0, -20, 0}, {0, 20, 0})); }); break;
            }
            case 10: {
                int what = lite ? pick("cleared", 0, 1) : pick("cleared", 0, 2);
                if (what != 1) { now.structure.clear(); now.names.clear(); }
                if (what != 0) { now.ham.clear(); }
                if (what == 0) { model.clear_structure_modifiers(); } else if (what == 1) { model.clear_hamiltonian_modifiers(); } else { model.clear_all_modifiers(); }
                break;
            }
            case 11: {
                int what = variant("invalid", 5);
                rejected([&] {
                    if (what == 0) { model.add(Primitive(1, 1, 2)); }
                    if (what == 1) { model.add(boxshape(6, 6, {12, 0, 0})); }
                    if (what == 2) { model.attach_lead(0, Line({0, 0, 0}, {0, 20, 0})); }
                    if (what == 3) { model.attach_lead(-3, Line({0, 0, 0}, {0, 20, 0})); }
                    if (what == 4) { model.add(SiteGenerator("A", ge, [](System const&) { return CartesianArray(); })); }
                    if (what == 5) { model.add(HoppingGenerator("t0", gt, [](System const&) { return HoppingGenerator::Result{}; })); }
                });
                break;
            }
            case 12: { // something in the model fails once during its evaluation
                int const where = pick("fails", 0, 2);
                bool const at_lead = where == 2;
                auto* f = where == 0 ? &fail_structure : &fail_ham;
                if (f == &fail_structure) {
                    both(now.structure, [f](Model& m) { m.add(SiteStateModifier([f](Eigen::Ref<ArrayX<bool>>, CartesianArrayConstRef, string_view) { if (f->armed) { throw std::runtime_error("once"); } })); });
                } else {
                    both(now.ham, [f, at_lead](Model& m) {
                        m.add(OnsiteModifier([f, at_lead](ComplexArrayRef, CartesianArrayConstRef p, string_view) {
                            if (f->armed && (!at_lead || p.y().minCoeff() > 16.f || p.x().minCoeff() < -34.f)) { throw std::runtime_error("once"); }
                        }));
                    });
                }
                f->armed = true;
                try { model.eval(); } catch (std::runtime_error const&) {}
                f->armed = false;
                break;
            }
            case 13: copies.emplace_back(model, now); break;
        }
        if (step + 1 < steps && evals) {
            int const e = pick("evaluated", 0, evals);
            try {
                if (e == 1) { kept.push_back(evaluate(model)); }
                if (e == 2) { model.system(); }
                if (e == 3) { model.hamiltonian(); }
            } catch (std::exception const&) {}
        }
    }
    check("a model evaluates to the same as a fresh one with its parameters");
    check("evaluating again changes nothing");
    bool ok = true;
    for (auto const& k : kept) { if (k.sys) { ok &= equal(of(*k.sys, k.h, k.leads), k.value); } }
    sym_assert(ok, "earlier results are not altered");
    for (auto& c : copies) { ok &= equal(evaluate(c.first).value, evaluate(c.second.fresh()).value); }
    sym_assert(ok, "copies are independent");
    sym_reach("compared");
}
SYM_HARNESS(history2) { history(2, 0, 13, 3, false); }
SYM_HARNESS(history2_values) { history(2, 0, 13, 1, true); }
SYM_HARNESS(history3) { history(3, 0, 13, 1, false, !sym_thorough()); }
SYM_HARNESS(history_modifiers) { history(sym_thorough() ? 4 : 3, 6, 10, 1, false); }
