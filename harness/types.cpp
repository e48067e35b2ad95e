#include "common.hpp"
#include "leads/Leads.hpp"
using namespace hs;

static bool is_real(ComplexArrayRef const& r) { return r.tag == num::Tag::f32 || r.tag == num::Tag::f64; }
static cplx element(ComplexArrayRef const& r, idx_t i) {
    switch (r.tag) {
        case num::Tag::f32: return static_cast<float*>(r.data)[i];
        case num::Tag::f64: return static_cast<double*>(r.data)[i];
        case num::Tag::cf32: return cplx(static_cast<std::complex<float>*>(r.data)[i]);
        default: return static_cast<std::complex<double>*>(r.data)[i];
    }
}
static void assign(ComplexArrayRef const& r, idx_t i, cplx v) {
    switch (r.tag) {
        case num::Tag::f32: static_cast<float*>(r.data)[i] = static_cast<float>(v.real()); break;
        case num::Tag::f64: static_cast<double*>(r.data)[i] = v.real(); break;
        case num::Tag::cf32: static_cast<std::complex<float>*>(r.data)[i] = std::complex<float>(v); break;
        default: static_cast<std::complex<double>*>(r.data)[i] = v;
    }
}

// Chain of A (2 orbitals) and B (1 orbital). `kinds` says which features may be present.
struct Setup {
    double onsite_im, hop_im, gen_im; int site_gen, hop_gen, symmetric;
    int omod, hmod; // 0: none, else 1 + is_complex + 2 * is_double + 4 * "asks for complex numbers when it needs them"
    double om_im, hm_im;
};
static void types(bool lattice_terms, bool generators, bool modifiers, bool again) {
    Setup u{};
    u.onsite_im = lattice_terms ? sym_dy("onsite.im", -1, 1) : 0.0;
    u.hop_im = lattice_terms ? sym_dy("hop.im", -1, 1) : 0.0;
    u.symmetric = pick("symmetry", 0, 1);
    Spec sp; sp.ndim = 1; sp.vec = basis(1);
    MatrixXcd e(2, 2); e << 1.0, cplx(2, u.onsite_im), cplx(2, -u.onsite_im), 3.0;
    sp.subs.push_back({"A", subpos(0), 2, e});
    sp.subs.push_back({"B", subpos(1), 1, MatrixXcd::Constant(1, 1, 4.0)});
    MatrixXcd t(2, 1); t << cplx(5, 0), cplx(6, u.hop_im);
    sp.hops.push_back({"t", {0, 0, 0}, 0, 1, t});
    MatrixXcd t2(1, 1); t2 << cplx(7, 0);
    sp.hops.push_back({"t2", {1, 0, 0}, 1, 1, t2});
    Model model(sp.lattice(), Primitive(2, 1, 1));
    if (u.symmetric) { model.add(TranslationalSymmetry(0, -1, -1)); }
    MatrixXcd ge(2, 2), gh(1, 1);
    if (generators) {
        u.site_gen = pick("site generator", 0, 1); u.hop_gen = pick("hopping generator", 0, 1);
        u.gen_im = sym_dy("generated.im", -1, 1);
        ge << 8.0, cplx(9, u.gen_im), cplx(9, -u.gen_im), 10.0;
        gh << cplx(11, u.gen_im);
        if (u.site_gen) {
            model.add(SiteGenerator("G", ge, [](System const&) {
                CartesianArray p(1); p[0] = Cartesian(100, 0, 0); return p;
            }));
        }
        if (u.hop_gen) {
            model.add(HoppingGenerator("g", gh, [](System const& s) {
                HoppingGenerator::Result r; r.from.resize(1); r.to.resize(1);
                auto const b = s.compressed_sublattices; // between the two B sites
                auto const ids = b.decompressed(); int k[2] = {-1, -1};
                for (int i = 0; i < ids.size(); ++i) {
                    if (ids[i] == s.site_registry.id("B").value()) { k[k[0] < 0 ? 0 : 1] = i; }
                }
                r.from[0] = k[0]; r.to[0] = k[1] < 0 ? k[0] : k[1]; return r;
            }));
        }
        sym_assume(!(u.symmetric && u.hop_gen)); // one cell has only one B site
    }
    double const small = 1.0 / (1 << 30);
    double om[2] = {0, 0}; // change of the B onsite energy: not representable in single precision, by modifier order
    auto build_onsite = [&](int flags, double value, double) {
        model.add(OnsiteModifier([flags, value](ComplexArrayRef r, CartesianArrayConstRef, string_view name) {
            if (name == "A") { // the off-diagonal terms
                auto const n = r.shape[2];
                if ((flags & 4) && is_real(r)) { throw ComplexOverride(); }
                for (idx_t k = 0; k < n; ++k) {
                    auto const a = element(r, n + k), im = cplx(0, (flags & 5) ? 1.0 : 0.0);
                    assign(r, n + k, a + im); assign(r, 2 * n + k, std::conj(a + im));
                }
            }
            if (name == "B") {
                for (idx_t k = 0; k < r.shape[0]; ++k) { assign(r, k, element(r, k) + value); }
            }
        }, (flags & 1) != 0, (flags & 2) != 0));
    };
    auto build_hop = [&](int flags) {
        model.add(HoppingModifier([flags](ComplexArrayRef r, CartesianArrayConstRef, CartesianArrayConstRef, string_view name) {
            if (name != "t2") { return; }
            if ((flags & 4) && is_real(r)) { throw ComplexOverride(); }
            for (idx_t k = 0; k < r.shape[0]; ++k) { assign(r, k, element(r, k) + cplx(0, (flags & 5) ? 1.0 : 0.0)); }
        }, (flags & 1) != 0, (flags & 2) != 0));
    };
    int of = -1, hf = -1, of2 = -1;
    if (modifiers) {
        of = pick("onsite modifier", -1, 7); hf = pick("hopping modifier", -1, 7);
        if (of >= 0) { om[0] = (of & 2) ? small : 1.0; build_onsite(of, om[0], 0); }
        if (hf >= 0) { build_hop(hf); }
    }
    auto check = [&](char const* when) {
        auto const& h = model.hamiltonian();
        bool const mod_complex = (of >= 0 && (of & 5)) || (hf >= 0 && (hf & 5) && u.symmetric + 1) || (of2 >= 0 && (of2 & 5));
        bool const dbl = (of >= 0 && (of & 2)) || (hf >= 0 && (hf & 2)) || (of2 >= 0 && (of2 & 2));
        int const cx = static_cast<int>(u.onsite_im != 0) | static_cast<int>(u.hop_im != 0) | static_cast<int>(mod_complex) | u.symmetric
                     | ((u.site_gen | u.hop_gen) & static_cast<int>(u.gen_im != 0));
        auto const type = scalar_of(h);
        int const is_cx = type == Scalar::cf || type == Scalar::cd;
        sym_assert((is_cx != 0) == (cx != 0), "complex exactly if a term needs it");
        sym_assert((type == Scalar::d || type == Scalar::cd) == dbl, "double precision exactly if it was asked for");
        // values, including the imaginary parts and the last digits
        auto const& sys = *model.system();
        auto const d = to_dense(h);
        sym_assert(d.outside == 0 && d.duplicates == 0, "entries");
        auto const ids = sys.compressed_sublattices.decompressed();
        auto const A = sys.site_registry.id("A").value(), B = sys.site_registry.id("B").value();
        bool ok = true; int na = 0, nb = 0, bs[2] = {-1, -1};
        double shift = 4.0 + (of >= 0 ? om[0] : 0.0) + (of2 >= 0 ? om[1] : 0.0);
        double const aim = u.onsite_im + (of >= 0 && (of & 5) ? 1.0 : 0.0) + (of2 >= 0 && (of2 & 5) ? 1.0 : 0.0);
        for (int i = 0; i < ids.size(); ++i) {
            auto const r = sys.to_hamiltonian_indices(i);
            if (ids[i] == A) {
                ++na;
                ok &= same(d(r[0], r[0]), 1.0) & same(d(r[1], r[1]), 3.0) & same(d(r[0], r[1]), cplx(2, aim)) & same(d(r[1], r[0]), cplx(2, -aim));
            } else if (ids[i] == B) {
                bs[nb ? 1 : 0] = r[0]; ++nb;
                auto const tb = cplx(7, (hf >= 0 && (hf & 5)) ? 1.0 : 0.0);
                ok &= same(d(r[0], r[0]), shift + (u.symmetric ? 2 * tb.real() : 0.0));
                for (int j = 0; j < ids.size(); ++j) {
                    if (ids[j] != A || sys.positions[j][0] != sys.positions[i][0] - 3.f) { continue; }
                    auto const q = sys.to_hamiltonian_indices(j);
                    ok &= same(d(q[0], r[0]), 5.0) & same(d(q[1], r[0]), cplx(6, u.hop_im)) & same(d(r[0], q[1]), cplx(6, -u.hop_im));
                }
            } else {
                ok &= same(d(r[0], r[1]), cplx(9, u.gen_im)) & same(d(r[1], r[0]), cplx(9, -u.gen_im)) & same(d(r[1], r[1]), 10.0);
            }
        }
        if (nb == 2) {
            auto v = cplx(7, (hf >= 0 && (hf & 5)) ? 1.0 : 0.0);
            if (sys.positions.x[0] > sys.positions.x[1]) { v = std::conj(v); }
            if (u.hop_gen) { v += cplx(11, u.gen_im); }
            ok &= same(d(bs[0], bs[1]), v) & same(d(bs[1], bs[0]), std::conj(v));
        }
        sym_assert(ok && na == nb, when);
    };
    check("values keep their imaginary part and precision");
    if (again) {
        int const what = pick("change", 0, 2);
        if (what == 0) { model.clear_hamiltonian_modifiers(); of = hf = -1; }
        if (what == 1) { of2 = pick("second modifier", 0, 7); om[1] = (of2 & 2) ? 2 * small : 2.0; build_onsite(of2, om[1], 0); }
        if (what == 2) { model.add(Primitive(2, 1, 1)); }
        check("values after a change keep their imaginary part and precision");
    }
    sym_reach("compared");
}
SYM_HARNESS(types_lattice) { types(true, false, false, false); }
SYM_HARNESS(types_generators) { types(true, true, false, false); }
SYM_HARNESS(types_modifiers) { types(false, false, true, false); }
SYM_HARNESS(types_all) { types(true, true, true, false); }
SYM_HARNESS(types_again) { types(false, sym_thorough(), true, true); }

// leads have the type of the Hamiltonian, and may need complex numbers on their own
SYM_HARNESS(types_lead) {
    Spec sp; sp.ndim = 2; sp.vec = {{16, 0, 0}, {0, 16, 0}};
    double const im = sym_dy("hop.im", -1, 1);
    sp.subs.push_back({"A", subpos(0), 1, MatrixXcd::Constant(1, 1, 1.0)});
    sp.hops.push_back({"t0", {1, 0, 0}, 0, 0, MatrixXcd::Constant(1, 1, cplx(2, im))});
    sp.hops.push_back({"t1", {0, 1, 0}, 0, 0, MatrixXcd::Constant(1, 1, cplx(3, 0))});
    Model model(sp.lattice(), Primitive(2, 2, 1));
    model.attach_lead(-1, Line({0, -17, 0}, {0, 17, 0}));
    int const flags = pick("modifier", 0, 7);
    bool const outside_only = pick("only in the lead", 0, 1) != 0;
    model.add(HoppingModifier([=](ComplexArrayRef r, CartesianArrayConstRef p, CartesianArrayConstRef, string_view name) {
        if (name != "t1") { return; }
        for (idx_t k = 0; k < r.shape[0]; ++k) {
            if (outside_only && p.x()[k] > -20.f) { continue; }
            if ((flags & 4) && is_real(r)) { throw ComplexOverride(); }
            assign(r, k, element(r, k) + cplx(0, (flags & 5) ? 1.0 : 0.0));
        }
    }, (flags & 1) != 0, (flags & 2) != 0));
    auto const lead = model.lead(0);
    auto const t0 = scalar_of(lead.h0()), t1 = scalar_of(lead.h1());
    sym_assert(t0 == t1, "both parts have one type");
    int const is_cx = t0 == Scalar::cf || t0 == Scalar::cd;
    sym_assert((is_cx != 0) == ((im != 0) | static_cast<int>((flags & 5) != 0)), "complex exactly if a term needs it");
    sym_assert((t0 == Scalar::d || t0 == Scalar::cd) == ((flags & 2) != 0), "double precision exactly if it was asked for");
    auto const h0 = to_dense(lead.h0()), h1 = to_dense(lead.h1());
    bool const up = lead.system().positions.y[0] < lead.system().positions.y[1];
    cplx const v = cplx(3, (flags & 5) ? 1.0 : 0.0), w = cplx(2, im);
    sym_assert(h0.n == 2 && same(h0(0, 1), up ? v : std::conj(v)) && same(h0(1, 0), up ? std::conj(v) : v), "h0");
    sym_assert(h1.n == 2 && same(h1(0, 0), w) && same(h1(1, 1), w), "h1");
    sym_reach("compared");
}
