#include "common.hpp"
#include "system/Foundation.hpp"
using namespace hs;

static float real(char const* name, int lo, int hi) { return static_cast<float>(sym_int(name, lo, hi)); }
static float quarter(char const* name, int lo, int hi) { return 0.25f * real(name, 4 * lo, 4 * hi); }

static CartesianArray one_point(Cartesian p) {
    auto a = CartesianArray(1);
    a[0] = p;
    return a;
}
static bool test(Shape const& s, Cartesian p) { auto const a = one_point(p); return s.contains(a)[0]; }

// ---- polygons: even-odd combination of triangles, each by its half planes -----------------
// twice the signed area of (a, b, p)
static float side(Cartesian a, Cartesian b, Cartesian p) { return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]); }
static bool in_triangle(Cartesian a, Cartesian b, Cartesian c, Cartesian p, bool& edge) {
    auto const x = side(a, b, p), y = side(b, c, p), z = side(c, a, p);
    edge |= (x == 0) | (y == 0) | (z == 0);
    return ((x > 0) & (y > 0) & (z > 0)) | ((x < 0) & (y < 0) & (z < 0));
}
static void polygon(int n, bool far, float scale = 1) {
    static float const ys[] = {0, 2, 4};
    static int const few[] = {1, 4, 5};
    int const py = far || sym_thorough() ? pick("py", far ? -1 : 0, far ? 9 : 8) : few[pick("py", 0, 2)];
    Shape::Vertices v, given;
    for (int i = 0; i < n; ++i) { v.push_back({static_cast<float>(pick("x", 0, n == 3 && sym_thorough() ? 4 : 2)), ys[pick("y", 0, 2)], 0}); }
    for (auto const& x : v) { given.push_back(scale * x); }
    auto const p = Cartesian{quarter("px", far ? -1 : 0, far ? 5 : 4), 0.5f * static_cast<float>(py), real("pz", -2, 2)};
    bool edge = false, in = false;
    for (int i = 1; i + 1 < n; ++i) { in ^= in_triangle(v[0], v[i], v[i + 1], p, edge); }
    sym_assume(!edge);
    bool const got = test(Polygon(given), scale * p);
    sym_assert(got == in, "a polygon contains exactly the points inside it");
    sym_reach("compared");
}
SYM_HARNESS(triangle) { polygon(3, true); }
SYM_HARNESS(tiny) { polygon(3, false, 1.f / 1024); }
SYM_HARNESS(huge) { polygon(3, false, 1024); }
SYM_HARNESS(quad) { polygon(4, false); }

// several points at once give the same answers as one at a time
SYM_HARNESS(many_points) {
    Shape::Vertices v{{0, 0, 0}, {4, 0, 0}, {real("x", 1, 4), 4, 0}, {1, 2, 0}};
    auto const poly = Polygon(v);
    auto const line = Line({0, 0, 0}, {real("lx", 1, 4), 2, 1});
    auto pts = CartesianArray(3);
    for (int i = 0; i < 3; ++i) { pts[i] = Cartesian{quarter("px", 0, 4), 0.5f * static_cast<float>(pick("py", 1, 3)), real("pz", 0, 1)}; }
    ArrayX<bool> const a = poly.contains(pts), b = line.contains(pts);
    bool ok = a.size() == 3 && b.size() == 3;
    for (int i = 0; i < 3 && ok; ++i) {
        Cartesian p = pts[i];
        ok = (a[i] == test(poly, p)) & (b[i] == test(line, p));
    }
    sym_assert(ok, "each point is judged by itself");
    sym_reach("compared");
}

// ---- a line contains what projects on to it --------------------------------------------------
SYM_HARNESS(line) {
    int const lim = sym_thorough() ? 3 : 2;
    Cartesian a, b, p;
    for (int d = 0; d < 3; ++d) { a[d] = static_cast<float>(sym_int("a", -lim, lim)); b[d] = a[d] + static_cast<float>(pick("step", -lim, lim)); }
    for (int d = 0; d < 3; ++d) { p[d] = quarter("p", -2 * lim, 2 * lim); }
    auto const ab = Cartesian(b - a);
    sym_assume(!ab.isZero());
    auto const t = ab.dot(p - a), len = ab.squaredNorm();
    bool const in = (t >= 0) & (t <= len);
    bool const got = test(Line(a, b), p);
    sym_assert(got == in, "a line contains exactly the points which project on to it");
    sym_assert(test(Line(b, a), p) == in, "in either order of its ends");
    sym_reach("compared");
}

// ---- a site inside the shape is never cropped --------------------------------------------------
struct Box { Cartesian lo, hi; };
static Shape box_shape(Box const& box, int ndim, bool corners) {
    auto contains = [box, ndim](CartesianArrayConstRef p) {
        ArrayX<bool> r(p.size());
        for (idx_t i = 0; i < p.size(); ++i) {
            bool in = (p.x()[i] >= box.lo[0]) & (p.x()[i] <= box.hi[0]);
            if (ndim > 1) { in &= (p.y()[i] >= box.lo[1]) & (p.y()[i] <= box.hi[1]); }
            if (ndim > 2) { in &= (p.z()[i] >= box.lo[2]) & (p.z()[i] <= box.hi[2]); }
            r[i] = in;
        }
        return r;
    };
    if (corners) { return Shape({box.lo, box.hi}, contains); }
    return FreeformShape(contains, box.hi - box.lo, 0.5f * (box.hi + box.lo));
}
static bool inside(Box const& box, int ndim, Cartesian p) {
    bool in = true;
    for (int d = 0; d < ndim; ++d) { in &= (p[d] >= box.lo[d]) & (p[d] <= box.hi[d]); }
    return in;
}
// the foundation is what is cut: it must hold the cell of every site in the shape
static void cropped(Spec const& sp, Box const& box, bool chosen) {
    auto const lattice = sp.lattice().with_offset(sp.offset).with_min_neighbors(0);
    auto const f = Foundation(lattice, box_shape(box, sp.ndim, chosen));
    auto const& states = f.get_states();
    auto const& pos = f.get_positions();
    auto const nsub = static_cast<int>(sp.subs.size());
    sym_assert(states.size() == f.size() && pos.size() == f.size(), "one state and position per site");
    // everything kept is inside
    bool ok = true;
    for (idx_t i = 0; i < f.size(); ++i) {
        Cartesian p = pos[i];
        ok &= static_cast<bool>(states[i]) == inside(box, sp.ndim, p);
    }
    sym_assert(ok, "sites are kept exactly when they are inside");
    // any cell and sublattice
    auto check = [&](Index3D c, int s) {
        auto const want = sp.position(c, s);
        bool found = false;
        for (idx_t i = 0; i < f.size(); ++i) {
            Cartesian p = pos[i];
            found |= (p[0] == want[0]) & (p[1] == want[1]) & (p[2] == want[2]) & static_cast<bool>(states[i]);
        }
        sym_assert(found | !inside(box, sp.ndim, want), "a site inside the shape is not cropped");
    };
    if (chosen) {
        Index3D c = {0, 0, 0};
        for (int d = 0; d < sp.ndim; ++d) { c[d] = sym_int("cell", -8, 8); }
        for (int s = 0; s < nsub; ++s) { check(c, s); }
    } else {
        int const n = 8;
        for (int b = sp.ndim > 1 ? -n : 0; b <= (sp.ndim > 1 ? n : 0); ++b) for (int a = -n; a <= n; ++a) {
            for (int s = 0; s < nsub; ++s) { check({a, b, 0}, s); }
        }
    }
    sym_reach("compared");
}
// lattice vectors along the axes: box, sublattice positions and offset are all arbitrary
static void crop_axes(int ndim, int range, int wide, int steps) {
    Spec sp; sp.ndim = ndim;
    for (int d = 0; d < ndim; ++d) { Cartesian v = {0, 0, 0}; v[d] = d == 1 ? 4 : 8; sp.vec.push_back(v); }
    sp.subs.push_back({"A", {0, 0, 0}, 1, fixed_onsite(1, false, 0)});
    Cartesian pos = {0, 0, 0};
    for (int d = 0; d < ndim; ++d) { auto const w = static_cast<int>(sp.vec[d][d]); pos[d] = 0.25f * static_cast<float>(pick("sub", -steps, steps) * (4 * w / steps)); }
    sp.subs.push_back({"B", pos, 1, fixed_onsite(1, false, 1)});
    Box box{{0, 0, 0}, {0, 0, 0}};
    for (int d = 0; d < ndim; ++d) {
        auto const w = static_cast<int>(sp.vec[d][d]);
        sp.offset[d] = 0.25f * static_cast<float>(pick("offset", -1, 1) * w * 2);
        box.lo[d] = quarter("lo", -range * w, 0);
        box.hi[d] = box.lo[d] + quarter("width", 0, wide * w);
    }
    cropped(sp, box, true);
}
SYM_HARNESS(crop1) { crop_axes(1, sym_thorough() ? 2 : 1, sym_thorough() ? 2 : 1, sym_thorough() ? 8 : 4); }

// skewed lattice vectors
SYM_HARNESS(crop_skew) {
    Spec sp; sp.ndim = 2;
    static const Cartesian a1[] = {{8, 0, 0}, {8, 2, 0}, {6, -3, 0}}, a2[] = {{0, 8, 0}, {4, 7, 0}, {-3, 6, 0}};
    sp.vec = {a1[pick("a1", 0, 2)], a2[pick("a2", 0, 2)]};
    static const float fr[] = {-0.75f, 0, 0.5f, 0.9375f};
    int const ia = pick("fa", 0, 3), ib = sym_thorough() ? pick("fb", 0, 3) : (ia + 1) % 4;
    float const fa = fr[ia], fb = fr[ib];
    sp.subs.push_back({"A", Cartesian(fa * sp.vec[0] + fb * sp.vec[1]), 1, fixed_onsite(1, false, 0)});
    int const oa = pick("offset", -1, 1), ob = sym_thorough() ? pick("offset", -1, 1) : -oa;
    sp.offset = Cartesian(0.5f * static_cast<float>(oa) * sp.vec[0] + 0.5f * static_cast<float>(ob) * sp.vec[1]);
    static const float lo[] = {-12, -7.5f, -0.25f}, w[] = {0.5f, 7.75f, 15};
    Box box{{0, 0, 0}, {0, 0, 0}};
    for (int d = 0; d < 2; ++d) { box.lo[d] = lo[pick("lo", 0, 2)]; box.hi[d] = box.lo[d] + w[pick("width", 0, 2)]; }
    cropped(sp, box, false);
}

// a chain or a sheet does not have to lie along the x axis or in the xy plane:
// every site which the shape holds is there, with bounds given by the box in all three directions
static void oriented(int ndim) {
    static const Cartesian ex[] = {{8, 0, 0}, {0, 8, 0}, {0, 0, 8}, {4, 4, 0}, {0, 4, -4}, {4, 0, 8}};
    Spec sp; sp.ndim = ndim;
    int const nv = ndim == 1 || sym_thorough() ? 6 : 4, ns = nv == 6 ? 2 : 1;
    int const ia = pick("a1", 0, nv - 1);
    sp.vec = {ex[ia]};
    if (ndim > 1) { int const ib = pick("a2", 0, nv - 1); sym_assume(ib != ia); sp.vec.push_back(ex[ib]); }
    sp.subs.push_back({"A", {0, 0, 0}, 1, fixed_onsite(1, false, 0)});
    auto const far = 0.5f * static_cast<float>(pick("sub", -ns, ns));
    sp.subs.push_back({"B", Cartesian(far * sp.vec[0] + (ndim > 1 ? 0.5f * sp.vec[1] : Cartesian(0, 0, 1))), 1, fixed_onsite(1, false, 1)});
    Box box{{0, 0, 0}, {0, 0, 0}};
    static const float lo[] = {-9, -0.5f}, w[] = {1, 17};
    for (int d = 0; d < 3; ++d) { box.lo[d] = lo[pick("lo", 0, 1)]; box.hi[d] = box.lo[d] + w[ndim == 1 || sym_thorough() ? pick("width", 0, 1) : 1]; }
    auto const lattice = sp.lattice().with_min_neighbors(0);
    // what the shape holds is any part of its bounding box (any part along one axis in the quick check of sheets)
    auto const bounds = box;
    int const any = ndim == 1 || sym_thorough() ? -1 : pick("axis", 0, 2);
    for (int d = 0; d < 3; ++d) {
        if (any >= 0 && d != any) { continue; }
        auto const a = sym_dy("from", 0, 17), b = sym_dy("to", 0, 17);
        box.lo[d] = bounds.lo[d] + static_cast<float>(a);
        box.hi[d] = bounds.lo[d] + static_cast<float>(b);
        sym_assume((b >= a) & (box.hi[d] <= bounds.hi[d]));
    }
    auto const held = box_shape(box, 3, false);
    auto const f = Foundation(lattice, FreeformShape(held.contains, bounds.hi - bounds.lo, 0.5f * (bounds.hi + bounds.lo)));
    auto const& states = f.get_states();
    auto const& pos = f.get_positions();
    bool exact = true;
    int kept = 0;
    for (idx_t i = 0; i < f.size(); ++i) {
        Cartesian p = pos[i];
        exact &= static_cast<bool>(states[i]) == inside(box, 3, p);
        kept += static_cast<int>(static_cast<bool>(states[i]));
    }
    sym_assert(exact, "sites are kept exactly when they are inside");
    int want = 0;
    int const n = 6;
    for (int b = ndim > 1 ? -n : 0; b <= (ndim > 1 ? n : 0); ++b) for (int a = -n; a <= n; ++a) {
        for (int s = 0; s < 2; ++s) { want += static_cast<int>(inside(box, 3, sp.position({a, b, 0}, s))); }
    }
    sym_assert(kept == want, "no site inside the shape is cropped and none is there twice");
    sym_reach("compared");
}
SYM_HARNESS(crop_along) { oriented(1); }
SYM_HARNESS(crop_plane) { oriented(2); }
