// The harness API for an ordinary build: inputs come from the command line.
// usage: prog harness tier value...        exit 0: held, 1: violation
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <exception>
#include <unistd.h>
#include "sym.h"
static long long* vals; static int nvals, next;
static SymHarness* all; static int tier;
SymHarness::SymHarness(char const* n, void (*f)()) : name(n), fn(f), next(all) { all = this; }
static long long take(long long lo, long long hi, bool raw) {
    long long v = next < nvals ? vals[next] : lo; ++next;
    if (!raw && (v < lo || v > hi)) v = lo;
    return v;
}
static void bad(char const* m) { printf("REPLAY violation: %s\n", m); fflush(stdout); _exit(1); }
extern "C" {
int sym_int_(char const* n, int lo, int hi) { int v = (int)take(lo, hi, false); printf("  %s = %d\n", n, v); return v; }
double sym_f64_(char const* n) { long long v = take(0, 0, true); double d; memcpy(&d, &v, 8); printf("  %s = %.17g\n", n, d); return d; }
float sym_f32_(char const* n) { int v = (int)take(0, 0, true); float d; memcpy(&d, &v, 4); printf("  %s = %.9g\n", n, d); return d; }
void sym_assume_(int c) { if (!c) { printf("REPLAY assumption not met\n"); fflush(stdout); _exit(0); } }
void sym_assert_(int c, char const* m) { if (!c) bad(m); }
void sym_close_(double a, double b, double tol, char const* m) { if (!(std::fabs(a - b) <= tol)) bad(m); }
void sym_reach_(char const* w) { printf("  reached %s\n", w); }
void sym_note_(char const* w, double v) { printf("  note %s %.17g\n", w, v); }
int sym_pin_(int v) { return v; }
int sym_tier_() { return tier; }
}
static void onTerminate() { bad("std::terminate called"); }
int main(int argc, char** argv) {
    if (argc < 3) { for (auto* h = all; h; h = h->next) printf("%s\n", h->name); return 0; }
    tier = !strcmp(argv[2], "thorough");
    nvals = argc - 3; vals = (long long*)calloc(nvals + 1, sizeof(long long));
    for (int i = 0; i < nvals; ++i) vals[i] = strtoll(argv[3 + i], nullptr, 10);
    for (auto* h = all; h; h = h->next) if (!strcmp(h->name, argv[1])) {
        std::set_terminate(onTerminate);
        alarm(60);
        try { h->fn(); }
        catch (std::exception& e) { static char b[512]; snprintf(b, sizeof b, "uncaught exception: %s", e.what()); bad(b); }
        catch (...) { bad("uncaught exception"); }
        printf("REPLAY held\n"); return 0;
    }
    printf("no such harness\n"); return 2;
}
