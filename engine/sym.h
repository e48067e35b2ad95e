// What a harness uses. Under the symbolic runtime (rt.cpp) sym_int & co. return
// symbolic inputs; under the plain runtime (plain.cpp) they return the values of
// a replay file, so that the same harness replays a counterexample natively.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
int     sym_int_(char const* name, int lo, int hi);     // every value in [lo, hi]
double  sym_f64_(char const* name);                     // every bit pattern
float   sym_f32_(char const* name);
void    sym_assume_(int cond);
void    sym_assert_(int cond, char const* msg);
void    sym_close_(double a, double b, double tol, char const* msg);     // equal up to rounding
void    sym_reach_(char const* what);
void    sym_note_(char const* what, double value);
int     sym_pin_(int v);                                // fork over the value
int     sym_tier_();                                    // 0 quick, 1 thorough
}
inline int sym_int(char const* n, int lo, int hi) { return sym_int_(n, lo, hi); }
inline bool sym_bool(char const* n) { return sym_int_(n, 0, 1) != 0; }
// an integer-valued floating point number in [lo, hi]
inline double sym_dy(char const* n, int lo, int hi) { return static_cast<double>(sym_int_(n, lo, hi)); }
inline double sym_f64(char const* n) { return sym_f64_(n); }
inline float sym_f32(char const* n) { return sym_f32_(n); }
inline void sym_assume(bool c) { sym_assume_(c); }
inline void sym_assert(bool c, char const* m) { sym_assert_(c, m); }
// |a - b| <= tol, decided over the reals: every operation that led to a and b is taken as exact
inline void sym_close(double a, double b, double tol, char const* m) { sym_close_(a, b, tol, m); }
inline void sym_reach(char const* w) { sym_reach_(w); }
inline void sym_note(char const* w, double v) { sym_note_(w, v); }
inline int sym_pin(int v) { return sym_pin_(v); }
inline bool sym_thorough() { return sym_tier_() != 0; }

struct SymHarness {
    char const* name; void (*fn)(); SymHarness* next;
    SymHarness(char const* n, void (*f)());
};
#define SYM_HARNESS(id) \
    static void harness_##id(); \
    static SymHarness reg_##id{#id, harness_##id}; \
    static void harness_##id()
