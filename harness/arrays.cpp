// C20: the array views, slices and concatenations passed between user code and
// the library.
#ifdef __clang__
#pragma clang diagnostic ignored "-Wc++11-narrowing"
#endif
#include "common.hpp"
#include "detail/algorithm.hpp"
#include "detail/slice.hpp"
#include "numeric/ellmatrix.hpp"
#include "numeric/sparse.hpp"
#include <list>
using namespace hs;

struct Reach { ~Reach() { sym_reach("end"); } };

template<class F> static bool throws(F f) {
    try { f(); } catch (std::exception const&) { return true; }
    return false;
}

// ---- element types ------------------------------------------------------------
template<class T> struct Make { static T value(char const* n) { return static_cast<T>(sym_int(n, std::is_signed<T>::value ? -100 : 0, 100)); } };
template<> struct Make<bool> { static bool value(char const* n) { return sym_int(n, 0, 1) != 0; } };
template<class R> struct Make<std::complex<R>> {
    static std::complex<R> value(char const* n) { return {static_cast<R>(sym_dy(n, -100, 100)), static_cast<R>(sym_dy(n, -100, 100))}; }
};
template<class T> static bool eq(T a, T b) { return a == b; }
template<class R> static bool eq(std::complex<R> a, std::complex<R> b) { return (a.real() == b.real()) & (a.imag() == b.imag()); }

template<class T> static std::vector<T> data_of(char const* n, int size) {
    std::vector<T> v;
    for (int i = 0; i < size; ++i) { v.push_back(Make<T>::value(n)); }
    return v;
}
template<class T> struct Data { // std::vector<bool> has no data()
    T d[16];
    Data(char const* n, int size) { for (int i = 0; i < size; ++i) { d[i] = Make<T>::value(n); } }
};

struct Expect { void const* data; num::Tag tag; int ndim; bool row_major; int x, y, z; };

template<bool c>
static void check(num::detail::BasicArrayRef<c> const& r, Expect e) {
    sym_assert(r.data == e.data, "the view shows the memory it was given");
    sym_assert(r.tag == e.tag, "the element type of the view");
    sym_assert(r.ndim == e.ndim, "the number of dimensions of the view");
    bool ok = r.shape[0] == e.x;
    if (e.ndim > 1) { ok &= r.shape[1] == e.y; }
    if (e.ndim > 2) { ok &= r.shape[2] == e.z; }
    sym_assert(ok, "the shape of the view");
    if (e.ndim > 1 && (e.x > 1) + (e.y > 1) + (e.ndim > 2 && e.z > 1) > 1) { sym_assert(r.is_row_major == e.row_major, "the storage order of the view"); }
    sym_assert(r.size() == e.x * (e.ndim > 1 ? e.y : 1) * (e.ndim > 2 ? e.z : 1), "the size of the view");
}

template<class T>
static void pointers(num::Tag tag) {
    auto d = Data<T>("value", 12);
    int const x = pick("x", 0, 3), y = pick("y", 0, 2), z = pick("z", 0, 2);
    T* p = d.d;
    check(arrayref(p, idx_t{x}), {p, tag, 1, true, x, 0, 0});
    check(arrayref(p, idx_t{x}, idx_t{y}), {p, tag, 2, true, x, y, 0});
    check(arrayref(p, idx_t{x}, idx_t{y}, idx_t{z}), {p, tag, 3, true, x, y, z});
    check(ArrayConstRef(arrayref(p, idx_t{x}, idx_t{y})), {p, tag, 2, true, x, y, 0});
    check(num::detail::BasicArrayRef<true>(static_cast<T const*>(p), 2, false, x, y), {p, tag, 2, false, x, y, 0});
    static_assert(std::is_same<decltype(arrayref(p, idx_t{x})), ArrayRef>::value, "a view of mutable data");
}

SYM_HARNESS(view_pointer_float) { Reach reach_end;
    switch (pick("type", 0, 3)) {
        case 0: pointers<float>(num::Tag::f32); break;
        case 1: pointers<double>(num::Tag::f64); break;
        case 2: pointers<std::complex<float>>(num::Tag::cf32); break;
        default: pointers<std::complex<double>>(num::Tag::cf64); break;
    }
}
SYM_HARNESS(view_pointer_int) { Reach reach_end;
    switch (pick("type", 0, 8)) {
        case 0: pointers<bool>(num::Tag::b); break;
        case 1: pointers<std::int8_t>(num::Tag::i8); break;
        case 2: pointers<std::int16_t>(num::Tag::i16); break;
        case 3: pointers<std::int32_t>(num::Tag::i32); break;
        case 4: pointers<std::int64_t>(num::Tag::i64); break;
        case 5: pointers<std::uint8_t>(num::Tag::u8); break;
        case 6: pointers<std::uint16_t>(num::Tag::u16); break;
        case 7: pointers<std::uint32_t>(num::Tag::u32); break;
        default: pointers<std::uint64_t>(num::Tag::u64); break;
    }
    static_assert(num::detail::get_tag<long long>() == num::Tag::i64 && num::detail::get_tag<unsigned long long>() == num::Tag::u64, "");
}

// ---- views of containers ------------------------------------------------------
template<class T>
static void containers(num::Tag tag) {
    int const n = pick("n", 0, 4), rows = pick("rows", 1, 3), cols = pick("cols", 1, 2);
    auto const d = data_of<T>("value", 6);
    auto fill = [&](T* p, idx_t size) { for (idx_t i = 0; i < size; ++i) { p[i] = d[i % 6]; } };

    ArrayX<T> a(n); fill(a.data(), n);
    VectorX<T> v(n); fill(v.data(), n);
    Eigen::Matrix<T, 1, Eigen::Dynamic> row(n); fill(row.data(), n);
    MatrixX<T> m(rows, cols); fill(m.data(), m.size());
    Eigen::Array<T, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> rm(rows, cols); fill(rm.data(), rm.size());
    auto const& ca = a; auto const& cm = m; auto const& crm = rm;
    check(arrayref(a), {a.data(), tag, 1, true, n, 0, 0});
    check(arrayref(ca), {a.data(), tag, 1, true, n, 0, 0});
    check(arrayref(v), {v.data(), tag, 1, true, n, 0, 0});
    check(arrayref(row), {row.data(), tag, 1, true, n, 0, 0});
    check(arrayref(m), {m.data(), tag, 2, true, rows, cols, 0}); // the default order of the library
    check(arrayref(cm), {m.data(), tag, 2, true, rows, cols, 0});
    ColMajorMatrixX<T> cmm(rows, cols); fill(cmm.data(), cmm.size());
    auto const& ccmm = cmm;
    check(arrayref(cmm), {cmm.data(), tag, 2, false, rows, cols, 0});
    check(arrayref(ccmm), {cmm.data(), tag, 2, false, rows, cols, 0});
    check(arrayref(rm), {rm.data(), tag, 2, true, rows, cols, 0});
    check(arrayref(crm), {rm.data(), tag, 2, true, rows, cols, 0});
    auto const map = Eigen::Map<const ColMajorArrayXX<T>>(m.data(), rows, cols);
    check(arrayref(map), {m.data(), tag, 2, false, rows, cols, 0});
    auto const part = Eigen::Map<const ArrayX<T>>(a.data(), n / 2);
    check(arrayref(part), {a.data(), tag, 1, true, n / 2, 0, 0});

    auto stdv = std::vector<T>(d.begin(), d.begin() + n);
    check(arrayref(stdv), {stdv.data(), tag, 1, true, n, 0, 0});
    auto const cast = eigen_cast<ArrayX>(stdv);
    bool ok = cast.size() == n;
    for (int i = 0; i < n && ok; ++i) { ok &= eq(cast[i], d[i]); }
    sym_assert(ok, "the elements of a vector seen as an array");
}
SYM_HARNESS(view_container) { Reach reach_end;
    switch (pick("type", 0, 4)) {
        case 0: containers<float>(num::Tag::f32); break;
        case 1: containers<double>(num::Tag::f64); break;
        case 2: containers<std::complex<float>>(num::Tag::cf32); break;
        case 3: containers<std::complex<double>>(num::Tag::cf64); break;
        default: containers<std::int32_t>(num::Tag::i32); break;
    }
    std::vector<int> const c = {1, 2, 3};
    check(arrayref(c), {c.data(), num::Tag::i32, 1, true, 3, 0, 0});
}

// ---- restricted views ---------------------------------------------------------
SYM_HARNESS(variant_refusal) { Reach reach_end;
    double storage[2] = {1, 2};
    auto const t = sym_int("tag", 0, 12);
    auto const tag = static_cast<num::Tag>(t);
    auto const any = ArrayRef(storage, tag, 1, true, {{1, 0, 0}});
    auto const cany = ArrayConstRef(storage, tag, 1, true, {{1, 0, 0}});
    bool const real = (tag == num::Tag::f32) | (tag == num::Tag::f64);
    bool const complex = real | (tag == num::Tag::cf32) | (tag == num::Tag::cf64);
    switch (pick("variant", 0, 7)) {
        case 0: sym_assert(throws([&] { RealArrayRef r(any); check(r, {storage, tag, 1, true, 1, 0, 0}); }) == !real, "real views take real data only"); break;
        case 1: sym_assert(throws([&] { RealArrayConstRef r(any); check(r, {storage, tag, 1, true, 1, 0, 0}); }) == !real, "real views take real data only"); break;
        case 2: sym_assert(throws([&] { RealArrayConstRef r(cany); check(r, {storage, tag, 1, true, 1, 0, 0}); }) == !real, "real views take real data only"); break;
        case 3: sym_assert(throws([&] { ComplexArrayRef r(any); check(r, {storage, tag, 1, true, 1, 0, 0}); }) == !complex, "complex views take real and complex data only"); break;
        case 4: sym_assert(throws([&] { ComplexArrayConstRef r(any); check(r, {storage, tag, 1, true, 1, 0, 0}); }) == !complex, "complex views take real and complex data only"); break;
        case 5: sym_assert(throws([&] { ComplexArrayConstRef r(cany); check(r, {storage, tag, 1, true, 1, 0, 0}); }) == !complex, "complex views take real and complex data only"); break;
        case 6: sym_assert(throws([&] { num::VariantArrayRef<std::int32_t> r(any); }) == (tag != num::Tag::i32), "a view of one type takes that type only"); break;
        default: sym_assert(throws([&] { num::VariantArrayConstRef<bool, std::uint8_t, double> r(cany); })
                            == !((tag == num::Tag::b) | (tag == num::Tag::u8) | (tag == num::Tag::f64)), "a view of three types takes those only"); break;
    }
}

// ---- match ---------------------------------------------------------------------
static double re(double x) { return x; }
static double re(std::complex<double> x) { return x.real(); }
static double im(double) { return 0; }
static double im(std::complex<double> x) { return x.imag(); }
template<class T> struct Wide { using type = double; };
template<class T> struct Wide<std::complex<T>> { using type = std::complex<double>; };

struct Seen { num::Tag tag; idx_t rows, cols; std::vector<cplx> values; void const* data; };

struct Look {
    template<class V> Seen operator()(V v) const {
        using T = typename V::Scalar;
        Seen s{num::detail::get_tag<T>(), v.rows(), v.cols(), {}, v.data()};
        for (idx_t j = 0; j < v.cols(); ++j) for (idx_t i = 0; i < v.rows(); ++i) {
            auto const x = static_cast<typename Wide<T>::type>(v(i, j));
            s.values.push_back({re(x), im(x)});
        }
        return s;
    }
};
struct Scale { // writes through
    template<class V> int operator()(V v) const {
        using T = typename V::Scalar;
        for (idx_t i = 0; i < v.size(); ++i) { v[i] = v[i] + static_cast<T>(i + 1); }
        return static_cast<int>(v.size());
    }
};

template<class T>
struct Buffer {
    ArrayX<T> a;
    Buffer(char const* name, int n) : a(n) { for (int i = 0; i < n; ++i) { a[i] = Make<T>::value(name); } }
    std::vector<cplx> values() const {
        std::vector<cplx> r;
        for (int i = 0; i < a.size(); ++i) { auto const x = static_cast<typename Wide<T>::type>(a[i]); r.push_back({re(x), im(x)}); }
        return r;
    }
};
static bool equal(std::vector<cplx> const& a, std::vector<cplx> const& b) {
    if (a.size() != b.size()) { return false; }
    bool ok = true;
    for (size_t i = 0; i < a.size(); ++i) { ok &= same(a[i], b[i]); }
    return ok;
}

template<class T>
static void match_one(num::Tag tag, bool real) {
    int const n = pick("n", 0, 4);
    auto b = Buffer<T>("value", n);
    auto const before = b.values();
    auto look = [&](Seen const& s) {
        sym_assert(s.tag == tag && s.data == static_cast<void const*>(b.a.data()), "the array of the matching type over the same memory");
        sym_assert(s.rows * s.cols == n && equal(s.values, before), "the elements of the matching array, in order");
    };
    look(num::match<ArrayX>(ComplexArrayRef(arrayref(b.a)), Look{}));
    look(num::match<VectorX>(ComplexArrayConstRef(arrayref(b.a)), Look{}));
    auto const& cb = b.a;
    look(num::match<ArrayX>(ComplexArrayConstRef(arrayref(cb)), Look{}));
    if (real) { look(num::match<ArrayX>(RealArrayRef(arrayref(b.a)), Look{})); look(num::match<ArrayX>(RealArrayConstRef(arrayref(cb)), Look{})); }
    auto const order = num::match<ArrayX>(num::VariantArrayConstRef<std::complex<double>, double, std::complex<float>, float>(arrayref(cb)), Look{});
    look(order);
    int const count = num::match<ArrayX>(ComplexArrayRef(arrayref(b.a)), Scale{});
    auto want = before;
    for (int i = 0; i < n; ++i) { want[i] += cplx(i + 1, 0); }
    sym_assert(count == n && equal(b.values(), want), "what is written through the matching array");

    int const rows = pick("rows", 1, 2), cols = n / rows;
    auto const m = Eigen::Map<const ColMajorArrayXX<T>>(b.a.data(), rows, cols);
    auto const s = num::match<ColMajorArrayXX>(ComplexArrayConstRef(arrayref(m)), Look{});
    want.resize(static_cast<size_t>(rows * cols));
    sym_assert(s.tag == tag && s.rows == rows && s.cols == cols && equal(s.values, want), "a matrix keeps its shape");
    auto const rm = Eigen::Map<const MatrixX<T>>(b.a.data(), cols, rows); // the same memory row by row is the transpose
    auto const t = num::match<MatrixX>(ComplexArrayConstRef(arrayref(rm)), Look{});
    auto transposed = want;
    for (int j = 0; j < rows; ++j) for (int i = 0; i < cols; ++i) { transposed[static_cast<size_t>(j * cols + i)] = want[static_cast<size_t>(i * rows + j)]; }
    sym_assert(t.tag == tag && t.rows == cols && t.cols == rows && equal(t.values, transposed), "a matrix stored by rows keeps its shape");
}
SYM_HARNESS(match_single) { Reach reach_end;
    switch (pick("type", 0, 3)) {
        case 0: match_one<float>(num::Tag::f32, true); break;
        case 1: match_one<double>(num::Tag::f64, true); break;
        case 2: match_one<std::complex<float>>(num::Tag::cf32, false); break;
        default: match_one<std::complex<double>>(num::Tag::cf64, false); break;
    }
}

struct Look2 {
    template<class V1, class V2> std::pair<Seen, Seen> operator()(V1 a, V2 b) const { return {Look{}(a), Look{}(b)}; }
};
struct Assign2 { // the second array takes the elements of the first where it can
    template<class V1, class V2> int operator()(V1 a, V2 b) const {
        using T2 = typename V2::Scalar;
        for (idx_t i = 0; i < a.size() && i < b.size(); ++i) { b[i] = static_cast<T2>(std::real(a[i])); }
        return static_cast<int>(a.size());
    }
};

template<class T1, class T2>
static void match_two() {
    int const n1 = pick("n1", 0, 3), n2 = pick("n2", 0, 3);
    auto b1 = Buffer<T1>("value", n1);
    auto b2 = Buffer<T2>("other", n2);
    auto const v1 = b1.values(), v2 = b2.values();
    auto const t1 = num::detail::get_tag<T1>(), t2 = num::detail::get_tag<T2>();
    auto r1 = ComplexArrayConstRef(arrayref(b1.a));
    auto r2 = ComplexArrayRef(arrayref(b2.a));
    auto look = [&](std::pair<Seen, Seen> const& s) {
        sym_assert(s.first.tag == t1 && s.second.tag == t2 && s.first.data == static_cast<void const*>(b1.a.data())
                   && s.second.data == static_cast<void const*>(b2.a.data()), "the arrays of the matching types over the same memory");
        sym_assert(equal(s.first.values, v1) && equal(s.second.values, v2), "the elements of both arrays, in order");
    };
    look(num::match2<ArrayX, ArrayX>(r1, r2, Look2{}));
    bool const same_precision = std::is_same<num::get_real_t<T1>, num::get_real_t<T2>>::value;
    sym_assert(throws([&] { look(num::match2sp<ArrayX, VectorX>(r1, r2, Look2{})); }) == !same_precision, "arrays of different precision do not match");
    if (!num::is_complex<T1>()) {
        auto real = RealArrayConstRef(arrayref(b1.a));
        look(num::match2<ArrayX, ArrayX>(real, r2, Look2{}));
        sym_assert(throws([&] { look(num::match2sp<ArrayX, ArrayX>(real, r2, Look2{})); }) == !same_precision, "arrays of different precision do not match");
    }
    sym_assert(num::match2<ArrayX, ArrayX>(r1, r2, Assign2{}) == n1, "the result of the function");
    auto want = v2;
    for (int i = 0; i < std::min(n1, n2); ++i) { want[i] = cplx(v1[i].real(), 0); }
    sym_assert(equal(b2.values(), want), "what is written through the second array");
    sym_assert(equal(b1.values(), v1), "the first array is left alone");
}
template<class T1> static void match_second() {
    switch (pick("type2", 0, 3)) {
        case 0: match_two<T1, float>(); break;
        case 1: match_two<T1, double>(); break;
        case 2: match_two<T1, std::complex<float>>(); break;
        default: match_two<T1, std::complex<double>>(); break;
    }
}
SYM_HARNESS(match_double) { Reach reach_end;
    switch (pick("type1", 0, 3)) {
        case 0: match_second<float>(); break;
        case 1: match_second<double>(); break;
        case 2: match_second<std::complex<float>>(); break;
        default: match_second<std::complex<double>>(); break;
    }
}

// ---- concatenation and slices ---------------------------------------------------
SYM_HARNESS(concat_slice) { Reach reach_end;
    int const n1 = pick("n1", 0, 3), n2 = pick("n2", 0, 3);
    ArrayXf a(n1), b(n2);
    for (int i = 0; i < n1; ++i) { a[i] = static_cast<float>(sym_dy("a", -100, 100)); }
    for (int i = 0; i < n2; ++i) { b[i] = static_cast<float>(sym_dy("b", -100, 100)); }
    auto const c = concat(a, b);
    bool ok = c.size() == n1 + n2;
    for (int i = 0; i < n1 && ok; ++i) { ok &= c[i] == a[i]; }
    for (int i = 0; i < n2 && ok; ++i) { ok &= c[n1 + i] == b[i]; }
    sym_assert(ok, "the first array followed by the second");

    ArrayX<bool> keep(n1 + n2);
    std::vector<int> which;
    for (int i = 0; i < n1 + n2; ++i) { keep[i] = pick("keep", 0, 1); if (keep[i]) { which.push_back(i); } }
    auto const s = slice(c, keep);
    ok = s.size() == static_cast<idx_t>(which.size());
    for (size_t i = 0; i < which.size() && ok; ++i) { ok &= s[static_cast<idx_t>(i)] == c[which[i]]; }
    sym_assert(ok, "the elements that are kept, in order");
}

SYM_HARNESS(cartesian) { Reach reach_end;
    int const n1 = pick("n1", 0, 3), n2 = pick("n2", 0, 2);
    auto fill = [](CartesianArray& c) {
        for (int i = 0; i < c.size(); ++i) {
            c[i] = Cartesian{static_cast<float>(sym_dy("x", -9, 9)), static_cast<float>(sym_dy("y", -9, 9)), static_cast<float>(sym_dy("z", -9, 9))};
        }
    };
    CartesianArray a(n1), b(n2);
    fill(a); fill(b);
    auto const& ca = a; auto const& cb = b;
    auto at = [](Cartesian p, float x, float y, float z) { return (p[0] == x) & (p[1] == y) & (p[2] == z); };
    bool ok = ca.size() == n1;
    for (int i = 0; i < n1; ++i) {
        ok &= at(ca[i], a.x[i], a.y[i], a.z[i]) & at(a[i].operator Cartesian(), a.x[i], a.y[i], a.z[i]);
        auto const p = Cartesian(ca[i]);
        ok &= at(p, p[0], p[1], p[2]);
    }
    sym_assert(ok, "every element of the array");

    auto const whole = concat(a, b);
    ok = whole.size() == n1 + n2;
    for (int i = 0; i < n1 + n2 && ok; ++i) {
        auto const p = i < n1 ? ca[i] : cb[i - n1];
        ok &= at(p, whole.x[i], whole.y[i], whole.z[i]);
    }
    sym_assert(ok, "the first positions followed by the second");

    int const start = pick("start", 0, n1), size = pick("size", 0, n1 - start);
    auto seg = ca.segment(start, size);
    auto const head = ca.head(size);
    ok = seg.size() == size && head.size() == size;
    for (int i = 0; i < size && ok; ++i) {
        ok &= at(ca[start + i], seg.x()[i], seg.y()[i], seg.z()[i]) & at(ca[i], head.x()[i], head.y()[i], head.z()[i]);
    }
    sym_assert(ok, "the elements of a part of the positions");
    // writing
    auto const before = a;
    auto w = a.segment(start, size);
    for (int i = 0; i < size; ++i) { w.x()[i] += 1; w.y()[i] += 2; w.z()[i] += 4; }
    ok = true;
    for (int i = 0; i < n1; ++i) {
        bool const in = i >= start && i < start + size;
        ok &= at(before[i] + (in ? Cartesian{1, 2, 4} : Cartesian{0, 0, 0}), a.x[i], a.y[i], a.z[i]);
    }
    sym_assert(ok, "what is written through a part of the positions");
    auto const more = pick("more", 0, 2);
    auto grown = a;
    grown.conservativeResize(n1 + more);
    ok = grown.size() == n1 + more && grown.y.size() == n1 + more && grown.z.size() == n1 + more;
    for (int i = 0; i < n1 && ok; ++i) { ok &= at(ca[i], grown.x[i], grown.y[i], grown.z[i]); }
    sym_assert(ok, "a longer array keeps its elements");
    grown.resize(more);
    sym_assert(grown.x.size() == more && grown.y.size() == more && grown.z.size() == more, "the size of the array");
}

SYM_HARNESS(sliced_pieces) { Reach reach_end;
    int const n = pick("n", 0, sym_thorough() ? 9 : 6), step = pick("step", 1, 7);
    std::vector<int> v;
    for (int i = 0; i < n; ++i) { v.push_back(sym_int("v", -9, 9)); }
    std::vector<int> seen;
    int pieces = 0;
    for (auto const piece : sliced(v, step)) {
        int size = 0;
        for (auto const x : piece) { seen.push_back(x); ++size; }
        ++pieces;
        sym_assert(size >= 1 && size <= step, "the size of a piece");
        sym_assert(size == step || static_cast<int>(seen.size()) == n, "every piece but the last is full");
    }
    bool ok = seen.size() == v.size();
    for (size_t i = 0; i < v.size() && ok; ++i) { ok &= seen[i] == v[i]; }
    sym_assert(ok, "the pieces are the whole, in order");
    sym_assert(pieces == (n + step - 1) / step, "the number of pieces");
}

SYM_HARNESS(slice_index) { Reach reach_end;
    int const start = sym_int("start", -20, 20), end = sym_int("end", -20, 20), n = sym_int("n", -20, 20);
    auto s = SliceIndex(start, end);
    sym_assert(s.size() == (end > start ? end - start : 0), "the size of a slice");
    auto moved = s; moved += n;
    sym_assert((moved.start == start + n) & (moved.end == end + n), "a slice moved up");
    auto back = moved; back -= n;
    sym_assert(back == s && !(back != s), "a slice moved back");
    sym_assert((moved == s) == (n == 0), "slices are equal where they start and end together");
    auto inc = s; auto const old = inc++;
    sym_assert(old == s && (inc.start == start + 1) & (inc.end == end + 1) && --inc == s, "stepping a slice");
    auto dec = s; auto const old2 = dec--;
    sym_assert(old2 == s && (dec.start == start - 1) & (dec.end == end - 1) && ++dec == s, "stepping a slice");
    auto const one = SliceIndex(n);
    sym_assert((one.start == n) & (one.size() == 1), "the slice of a single index");
    int const e2 = sym_int("e2", -2, 6), e3 = sym_int("e3", -2, 6);
    auto const nd = SliceIndex3D{s, SliceIndex(0, e2), SliceIndex(1, e3)};
    sym_assert(nd.ndims() == 3 && nd[0] == s && nd[1] == SliceIndex(0, e2) && nd[2] == SliceIndex(1, e3), "the slices of each dimension");
    int const p2 = sym_pin(e2 > 0 ? e2 : 0), p3 = sym_pin(e3 > 1 ? e3 - 1 : 0);
    sym_assert(nd.size() == s.size() * p2 * p3, "the size of a slice of more dimensions");
}

// ---- conversions ------------------------------------------------------------------
SYM_HARNESS(casts) { Reach reach_end;
    auto const a = sym_f64("re"), b = sym_f64("im");
    sym_assume(a == a && b == b);
    auto const z = cplx(a, b);
    sym_assert(num::force_cast<double>(z) == a, "the real part");
    sym_assert(num::force_cast<float>(z) == static_cast<float>(a), "the real part in single precision");
    auto const zf = num::force_cast<std::complex<float>>(z);
    sym_assert((zf.real() == static_cast<float>(a)) & (zf.imag() == static_cast<float>(b)), "single precision");
    auto const zd = num::force_cast<std::complex<double>>(z);
    sym_assert((zd.real() == a) & (zd.imag() == b), "the same value");
    auto const c = num::conjugate(z);
    sym_assert((c.real() == a) & (c.imag() == -b), "the conjugate");
    sym_assert(num::conjugate(a) == a, "a real number is its conjugate");
}
SYM_HARNESS(cast_matrices) { Reach reach_end;
    int const rows = pick("rows", 1, 2), cols = pick("cols", 1, 2);
    MatrixXcd m(rows, cols);
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) { m(i, j) = cplx(sym_dy("re", -100, 100), sym_dy("im", -100, 100)); }
    auto const d = num::force_cast<double>(m);
    auto const f = num::force_cast<float>(m);
    auto const cf = num::force_cast<std::complex<float>>(m);
    auto const cd = num::force_cast<std::complex<double>>(m);
    bool ok = d.rows() == rows && d.cols() == cols && f.rows() == rows && f.cols() == cols && cf.rows() == rows && cf.cols() == cols && cd.rows() == rows;
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) {
        ok &= (d(i, j) == m(i, j).real()) & (f(i, j) == static_cast<float>(m(i, j).real())) & same(cd(i, j), m(i, j));
        ok &= (cf(i, j).real() == static_cast<float>(m(i, j).real())) & (cf(i, j).imag() == static_cast<float>(m(i, j).imag()));
    }
    sym_assert(ok, "every element of the matrix in the other type");
    VectorXcd v = m.col(0);
    auto const vd = num::force_cast<double>(v);
    auto const vf = num::force_cast<std::complex<float>>(v);
    ok = vd.size() == rows && vf.size() == rows;
    for (int i = 0; i < rows; ++i) { ok &= (vd[i] == v[i].real()) & (vf[i].imag() == static_cast<float>(v[i].imag())); }
    sym_assert(ok, "every element of the vector in the other type");

    int const n = pick("n", 0, 5);
    auto const r = make_integer_range<float>(n);
    ok = r.size() == n;
    for (int i = 0; i < n && ok; ++i) { ok &= r[i] == static_cast<float>(i); }
    sym_assert(ok, "the integers in order");
    ArrayXf x(n);
    for (int i = 0; i < n; ++i) { x[i] = static_cast<float>(sym_dy("x", -9, 9)); }
    auto const t = transform<std::vector>(std::vector<float>(x.data(), x.data() + n), [](float q) { return 2.0 * q; });
    ok = static_cast<int>(t.size()) == n;
    for (int i = 0; i < n && ok; ++i) { ok &= t[static_cast<size_t>(i)] == 2.0 * x[i]; }
    sym_assert(ok, "every element transformed, in order");
}
SYM_HARNESS(aligned) { Reach reach_end;
    int const n = sym_int("n", 0, 40);
    auto one = [&](int r, int step) { sym_assert(r >= n && r < n + step && r % step == 0, "the smallest aligned size"); };
    switch (pick("type", 0, 5)) {
        case 0: one(num::aligned_size<float, 16>(n), 4); break;
        case 1: one(num::aligned_size<float, 32>(n), 8); break;
        case 2: one(num::aligned_size<double, 16>(n), 2); break;
        case 3: one(num::aligned_size<std::complex<float>, 32>(n), 4); break;
        case 4: one(num::aligned_size<std::complex<double>, 16>(n), 1); break;
        default: one(num::aligned_size<std::complex<double>, 32>(n), 2); break;
    }
}

// ---- sparse matrices ----------------------------------------------------------------
struct Entry { int row, col; double value; };

// a matrix built with the inserter, rows in order and the columns of a row in any order
template<class T>
static SparseMatrixX<T> inserted(int rows, int cols, std::vector<Entry>& want, bool skip) {
    SparseMatrixX<T> m(rows, cols);
    auto ins = compressed_inserter(m, rows * cols);
    for (int r = 0; r < rows; ++r) {
        std::vector<int> order;
        int const count = pick("count", 0, std::min(cols, 2));
        if (!skip) { ins.start_row(); } else if (count) { ins.start_row(r); }
        std::vector<Entry> row;
        for (int k = 0; k < count; ++k) {
            int const c = pick("col", 0, cols - 1);
            for (auto const& e : row) { sym_assume(e.col != c); }
            double const v = sym_dy("v", 1, 50);
            ins.insert(c, static_cast<T>(v));
            row.push_back({r, c, v});
        }
        std::sort(row.begin(), row.end(), [](Entry const& a, Entry const& b) { return a.col < b.col; });
        want.insert(want.end(), row.begin(), row.end());
    }
    ins.compress();
    return m;
}
static double real_of(double x) { return x; }
static double real_of(float x) { return x; }
template<class R> static double real_of(std::complex<R> x) { return x.real(); }

template<class T>
static void csr(bool skip, bool ellpack) {
    int const rows = pick("rows", 1, 3), cols = pick("cols", 1, sym_thorough() ? 3 : 2);
    std::vector<Entry> want;
    auto const m = inserted<T>(rows, cols, want, skip);
    int const nnz = static_cast<int>(want.size());
    sym_assert(m.nonZeros() == nnz, "every element is in the matrix once");
    std::vector<Entry> got;
    auto const loop = sparse::make_loop(m);
    loop.for_each([&](idx_t r, idx_t c, T v) { got.push_back({static_cast<int>(r), static_cast<int>(c), real_of(v)}); });
    auto equal = [&](std::vector<Entry> const& a, size_t from, std::vector<Entry> const& b) {
        if (from + b.size() > a.size()) { return false; }
        bool ok = true;
        for (size_t i = 0; i < b.size(); ++i) { ok &= (a[from + i].row == b[i].row) & (a[from + i].col == b[i].col) & (a[from + i].value == b[i].value); }
        return ok;
    };
    sym_assert(static_cast<int>(got.size()) == nnz && equal(want, 0, got), "the elements row by row");

    auto const ref = csrref(m);
    auto const any = num::AnyCsrConstRef(ref);
    auto const var = num::ComplexCsrConstRef(ref);
    sym_assert(ref.rows == rows && ref.cols == cols && ref.nnz == nnz && ref.data() == m.valuePtr(), "the view of the matrix");
    check(any.data_ref(), {m.valuePtr(), num::detail::get_tag<T>(), 1, true, nnz, 0, 0});
    check(var.data_ref(), {m.valuePtr(), num::detail::get_tag<T>(), 1, true, nnz, 0, 0});
    check(any.indices_ref(), {m.innerIndexPtr(), num::Tag::i32, 1, true, nnz, 0, 0});
    check(any.indptr_ref(), {m.outerIndexPtr(), num::Tag::i32, 1, true, rows + 1, 0, 0});

    int most = 0;
    bool ok = true;
    if (!ellpack) {
    // in buffers
    int const size = pick("buffer", 1, 3);
    std::vector<Entry> buffer(static_cast<size_t>(size)), all;
    std::vector<Entry> again;
    loop.buffered_for_each(size, [&](idx_t r, idx_t c, T v, idx_t n) {
        ok &= n >= 0 && n < size;
        if (ok) { buffer[static_cast<size_t>(n)] = {static_cast<int>(r), static_cast<int>(c), real_of(v)}; }
    }, [&](idx_t start, idx_t first, idx_t count) {
        ok &= first == static_cast<idx_t>(all.size()) && count >= 0 && count <= size;
        ok = ok && (count == size || static_cast<int>(all.size()) + count == nnz);
        if (!ok) { return; }
        all.insert(all.end(), buffer.begin(), buffer.begin() + count);
        // the same elements, from where the buffer started
        std::vector<Entry> part;
        loop.slice_for_each(start, first, count, [&](idx_t r, idx_t c, T v, idx_t n) {
            ok &= n == static_cast<idx_t>(part.size());
            part.push_back({static_cast<int>(r), static_cast<int>(c), real_of(v)});
        });
        again.insert(again.end(), part.begin(), part.end());
    });
    sym_assert(ok && static_cast<int>(all.size()) == nnz && equal(want, 0, all), "the elements buffer by buffer");
    sym_assert(static_cast<int>(again.size()) == nnz && equal(want, 0, again), "the elements of every buffer visited again");

    }
    // by rows
    size_t from = 0;
    for (int r = 0; r < rows; ++r) {
        std::vector<Entry> row;
        loop.for_each_in_row(r, [&](idx_t c, T v) { row.push_back({r, static_cast<int>(c), real_of(v)}); });
        ok &= equal(want, from, row);
        from += row.size();
        most = std::max(most, static_cast<int>(row.size()));
    }
    sym_assert(ok && static_cast<int>(from) == nnz, "the elements of each row");
    sym_assert(sparse::max_nnz_per_row(m) == most, "the longest row");

    // ELLPACK
    if (!ellpack) { return; }
    auto const ell = num::csr_to_ell(m);
    sym_assert(ell.rows() == rows && ell.cols() == cols && ell.nnz_per_row == std::max(most, 1), "the shape of the ELLPACK matrix");
    auto dense = [&](std::vector<Entry> const& list) {
        std::vector<double> d(static_cast<size_t>(rows * cols), 0.0);
        for (auto const& e : list) { if (e.row < 0 || e.row >= rows || e.col < 0 || e.col >= cols) { sym_assert(false, "an element inside the matrix"); continue; } d[static_cast<size_t>(e.row * cols + e.col)] += e.value; }
        return d;
    };
    auto same_dense = [&](std::vector<Entry> const& list) {
        auto const a = dense(want), b = dense(list);
        bool r = true;
        for (size_t i = 0; i < a.size(); ++i) { r &= a[i] == b[i]; }
        return r;
    };
    std::vector<Entry> e;
    ell.for_each([&](idx_t r, idx_t c, T v) { e.push_back({static_cast<int>(r), static_cast<int>(c), real_of(v)}); });
    sym_assert(same_dense(e), "the ELLPACK matrix is the same matrix");
    int const cut = pick("cut", 0, rows);
    e.clear();
    auto add = [&](idx_t r, idx_t c, T v) { e.push_back({static_cast<int>(r), static_cast<int>(c), real_of(v)}); };
    ell.for_slice(0, cut, add);
    ell.for_slice(cut, rows, add);
    sym_assert(same_dense(e), "the ELLPACK matrix in two slices");
    auto const eref = num::ellref(ell);
    sym_assert(eref.rows == rows && eref.cols == cols && eref.nnz_per_row == ell.nnz_per_row && eref.pitch >= rows, "the view of the ELLPACK matrix");
    auto const eany = num::AnyEllConstRef(eref);
    check(eany.data_ref(), {ell.data.data(), num::detail::get_tag<T>(), 1, true, eref.nnz_per_row * eref.pitch, 0, 0});
    check(eany.indices_ref(), {ell.indices.data(), num::Tag::i32, 1, true, eref.nnz_per_row * eref.pitch, 0, 0});
    e.clear();
    auto const idx = static_cast<storage_idx_t const*>(eany.indices_ref().data);
    ok = true;
    for (int n = 0; n < eref.nnz_per_row; ++n) for (int r = 0; r < rows; ++r) {
        int const c = idx[n * eref.pitch + r];
        ok &= c == ell.indices(r, n);
        if (ok) { e.push_back({r, c, real_of(eref.data()[n * eref.pitch + r])}); }
    }
    sym_assert(ok && same_dense(e), "the view of the ELLPACK matrix shows the same matrix");
}
SYM_HARNESS(csr_float) { Reach reach_end; csr<float>(false, false); }
SYM_HARNESS(csr_double) { Reach reach_end; csr<double>(pick("skip", 0, 1), false); }
SYM_HARNESS(csr_complex) { Reach reach_end; csr<std::complex<float>>(true, false); }
SYM_HARNESS(csr_complex_double) { Reach reach_end; csr<std::complex<double>>(false, false); }
SYM_HARNESS(ell_float) { Reach reach_end; csr<float>(true, true); }
SYM_HARNESS(ell_double) { Reach reach_end; csr<double>(false, true); }
SYM_HARNESS(ell_complex) { Reach reach_end; csr<std::complex<float>>(false, true); }
SYM_HARNESS(ell_complex_double) { Reach reach_end; csr<std::complex<double>>(true, true); }
