#include "sym.h"
#include <vector>
#include <map>
#include <complex>
#include <algorithm>
SYM_HARNESS(branches) {
    int x = sym_int("x", -10, 10), y = sym_int("y", 0, 5);
    int r = 0;
    if (x > 3) r = x * y; else if (x == -7) r = 1; else r = y - x;
    sym_assert(r >= 0 - 0, "nonneg");
    sym_reach("end");
}
SYM_HARNESS(indexing) {
    std::vector<int> v(5);
    int i = sym_int("i", 0, 4), j = sym_int("j", 0, 4);
    v[i] = 7; v[j] += 1;
    int s = 0; for (auto a : v) s += a;
    sym_assert(s == 8, "sum");
    sym_reach("end");
}
SYM_HARNESS(oob) {
    std::vector<int> v(5);
    int i = sym_int("i", 0, 5);
    v[i] = 7;
    sym_reach("end");
}
SYM_HARNESS(maps) {
    std::map<int, double> m;
    for (int k = 0; k < 3; ++k) m[sym_int("k", 0, 3)] += sym_dy("e", -100, 100);
    double s = 0; for (auto& p : m) s += p.second;
    sym_assert(s <= 300 && s >= -300, "range");
    sym_assert(m.size() <= 3, "size");
    sym_reach("end");
}
SYM_HARNESS(cplx) {
    std::complex<float> a(sym_dy("ar", -50, 50), sym_dy("ai", -50, 50)), b(sym_dy("br", -50, 50), 3);
    auto c = a * b; auto d = b * a;
    sym_assert(c == d, "commute");
    sym_assert(std::conj(c) == std::conj(a) * std::conj(b), "conj");
    sym_reach("end");
}
SYM_HARNESS(sorting) {
    std::vector<int> v; for (int i = 0; i < 4; ++i) v.push_back(sym_int("v", 0, 100));
    int s0 = v[0] + v[1] + v[2] + v[3];
    std::sort(v.begin(), v.end());
    sym_assert(v[0] <= v[1] && v[1] <= v[2] && v[2] <= v[3], "sorted");
    sym_assert(s0 == v[0] + v[1] + v[2] + v[3], "sum");
    sym_reach("end");
}
SYM_HARNESS(floats) {
    float a = sym_f32("a");
    sym_assume(a > 0 && a < 1e10f);
    sym_assert(a * 0.5f <= a, "half");
    sym_reach("end");
}
