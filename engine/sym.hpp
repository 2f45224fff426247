// Harness API.  The same harness source is (a) compiled to IR, instrumented
// and executed symbolically, (b) compiled natively for replaying models.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cmath>

extern "C" {
uint64_t sym_int_(const char* name, int width, int isSigned, int64_t lo,
                  int64_t hi);
double sym_f64_(const char* name, double lo, double hi, int special);
// forks on every feasible value 0..n-1
int sym_pick(const char* name, int n);
void sym_assume(bool c);
void sym_assert(bool c, const char* label);
// |a - b| <= rel * |b| + abs, or the same value (all NaNs alike)
void sym_assert_close(double a, double b, double rel, double abs,
                      const char* label);
// vacuity witness: some path must get here with a concrete, replayable model
void sym_reach(const char* label);
void sym_obs_i(const char* name, int64_t v);
void sym_obs_d(const char* name, double v);
// if-then-else without forking
double sym_ite_d(bool c, double a, double b);
int64_t sym_ite_i(bool c, int64_t a, int64_t b);
// the number a stream has printed: symbolic if what was printed was (a symbolic
// double appears in the text as a token of 6 digits)
double sym_text_f64(const char* text);
// ends the current path (nothing after this point is claimed)
void sym_stop();
// forks until the value is concrete (bounded number of values)
int64_t sym_fix(int64_t v);
}

// special: bit0 NaN allowed, bit1 infinities allowed
inline double sym_f64(const char* n, double lo, double hi)
{
    return sym_f64_(n, lo, hi, 0);
}
inline double sym_f64_any(const char* n)
{
    return sym_f64_(n, -1.7976931348623157e308, 1.7976931348623157e308, 3);
}
inline int64_t sym_i64(const char* n, int64_t lo = INT64_MIN,
                       int64_t hi = INT64_MAX)
{
    return (int64_t)sym_int_(n, 64, 1, lo, hi);
}
inline uint64_t sym_u64(const char* n) // full range
{
    return sym_int_(n, 64, 1, INT64_MIN, INT64_MAX);
}
inline int32_t sym_i32(const char* n, int32_t lo = INT32_MIN,
                       int32_t hi = INT32_MAX)
{
    return (int32_t)sym_int_(n, 32, 1, lo, hi);
}
inline uint8_t sym_u8(const char* n, int lo = 0, int hi = 255)
{
    return (uint8_t)sym_int_(n, 8, 0, lo, hi);
}
inline uint16_t sym_u16(const char* n, int lo = 0, int hi = 65535)
{
    return (uint16_t)sym_int_(n, 16, 0, lo, hi);
}
inline bool sym_bool(const char* n) { return sym_int_(n, 1, 0, 0, 1) != 0; }
inline bool sym_and(bool a, bool b) { return (bool)((int)a & (int)b); }
inline bool sym_or(bool a, bool b) { return (bool)((int)a | (int)b); }
inline bool sym_not(bool a) { return !a; }
inline bool sym_imp(bool a, bool b) { return (bool)((int)!a | (int)b); }
inline bool sym_iff(bool a, bool b) { return a == b; }
inline bool sym_isnan(double a) { return a != a; }
inline bool sym_finite(double a)
{
    return __builtin_fabs(a) <= 1.7976931348623157e308;
}
// same value, treating all NaNs as one value and -0 == +0
inline bool sym_same(double a, double b)
{
    return sym_or(a == b, sym_and(a != a, b != b));
}

typedef void (*sym_harness_fn)();
void sym_register(const char* name, sym_harness_fn fn);
struct SymReg
{
    SymReg(const char* n, sym_harness_fn f) { sym_register(n, f); }
};
#define SYM_HARNESS(name)                                                      \
    static void symh_##name();                                                 \
    static SymReg symreg_##name(#name, symh_##name);                           \
    static void symh_##name()
