// library functions which look at memory, as code the executor can see
#include <cstddef>
extern "C" {
double sqrt(double); float sqrtf(float);
double sym_hypot(double x, double y) { return sqrt(x * x + y * y); }
float sym_hypotf(float x, float y) { return sqrtf(x * x + y * y); }
double sym_cabs(double _Complex z) { return sym_hypot(__real__ z, __imag__ z); }
float sym_cabsf(float _Complex z) { return sym_hypotf(__real__ z, __imag__ z); }
int sym_memcmp(void const* a, void const* b, size_t n) {
    auto *x = static_cast<unsigned char const*>(a), *y = static_cast<unsigned char const*>(b);
    for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
size_t sym_strlen(char const* s) { size_t n = 0; while (s[n]) ++n; return n; }
void* sym_memchr(void const* s, int c, size_t n) {
    auto* x = static_cast<unsigned char const*>(s);
    for (size_t i = 0; i < n; ++i) if (x[i] == static_cast<unsigned char>(c)) return const_cast<unsigned char*>(x + i);
    return nullptr;
}
}
