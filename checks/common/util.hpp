// Helpers shared by the harnesses.
#pragma once
#include "sym.hpp"

#include <cmath>
#include <limits>
#include <string>

namespace hv
{
// equal up to rounding: the claims are about values, not about the order in
// which a correct implementation rounds
inline void assertClose(double a, double b, const char* label)
{
    sym_assert_close(a, b, 1e-6, 1e-9, label);
}
inline double clampRef(double x, double lo, double hi)
{
    return sym_ite_d(x < lo, lo, sym_ite_d(x > hi, hi, x));
}
inline double maxRef(double a, double b) { return sym_ite_d(a < b, b, a); }
inline double minRef(double a, double b) { return sym_ite_d(b < a, b, a); }
} // namespace hv
