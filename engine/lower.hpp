// Lowering of the DAG to z3.
#pragma once
#include "expr.hpp"
#include <functional>
#include <map>
#include <z3++.h>

// generic (format-independent) lemma schemas, also used by the axiom self-test
struct FpView
{
    std::function<z3::expr(const z3::expr&)> isnan, isinf, iszero, neg, flip,
        fabs_;
    std::function<z3::expr(const z3::expr&, const z3::expr&)> le, lt, eq;
    z3::expr one;
};
// For terms of the order abstraction a "value" is carried as an index into a
// table; FpTerm is the uniform handle used by the lemma schemas.
template <class T, class P> struct LemmaKit
{
    // T: FP term, P: predicate (z3::expr)
    std::function<P(const T&)> isnan, isinf, iszero, neg;
    std::function<T(const T&)> flip, fabs_;
    std::function<P(const T&, const T&)> le, lt, eq;
    T one;
};
template <class T>
void fpLemmas(unsigned op, const LemmaKit<T, z3::expr>& F, const T& a,
              const T& b, const T& r,
              const std::function<void(const z3::expr&)>& add);
template <class T>
void fpPairLemmas(unsigned op, const LemmaKit<T, z3::expr>& F, const T& a1,
                  const T& b1, const T& r1, const T& a2, const T& b2,
                  const T& r2, const std::function<void(const z3::expr&)>& add);

struct Lemmas
{
    std::vector<z3::expr> v;
};

struct Unsupported
{};

// Bit-precise lowering: doubles are BV64.  exact: 0 = FP arithmetic abstracted
// (fresh BV64 + lemmas), 1 = exact addition, 2 = all exact.  grid: variables
// restricted to few-bit mantissas (search only).
struct Lowering
{
    z3::context& c;
    int exact;
    bool grid;
    std::vector<Z3_ast> memo;
    std::function<Iv(u32)> interval;

    Lowering(z3::context& cc, int ex, bool g) : c(cc), exact(ex), grid(g) {}
    z3::expr bv(u32 id);   // BV of width w (w==1 -> BV1)
    z3::expr bo(u32 id);   // Bool (w must be 1)
    z3::expr raw(u32 id);  // Bool if w==1 else BV
    z3::expr build(u32 id);
    z3::expr k(u64 v, unsigned w) { return c.bv_val((uint64_t)v, w); }
    z3::expr isnan(const z3::expr& x);
    z3::expr isinf(const z3::expr& x);
    z3::expr iszero(const z3::expr& x);
    z3::expr neg(const z3::expr& x);
    z3::expr key(const z3::expr& x);
    z3::expr le(const z3::expr& a, const z3::expr& b);
    z3::expr lt(const z3::expr& a, const z3::expr& b);
    z3::expr eq(const z3::expr& a, const z3::expr& b);
    z3::expr flip(const z3::expr& x);
    z3::expr fabs_(const z3::expr& x);
    z3::expr si2d(const z3::expr& x, bool isSigned);
    z3::expr d2i(const z3::expr& x, unsigned w, bool isSigned);
    LemmaKit<z3::expr, z3::expr> kit();
    // lemmas for the abstracted operations among `ops`
    void lemmas(const std::vector<u32>& ops,
                const std::function<void(const z3::expr&)>& add);
};

// Order abstraction: a double is (nan flag, Real); comparisons are linear
// arithmetic; +-inf are +-BIG; arithmetic is abstracted by order lemmas and
// linear rounding-error bounds.  Over-approximation: UNSAT is definitive.
struct RV
{
    z3::expr nan, v;
};
struct OrderLowering
{
    z3::context& c;
    std::vector<Z3_ast> memo; // Bool / BV nodes
    std::map<u32, RV> fmemo;
    std::function<Iv(u32)> interval;
    z3::expr BIG, MAXV;
    std::map<u32, std::vector<z3::expr>> defs; // per FP node: definitional
    OrderLowering(z3::context& cc);
    z3::expr real(double d);
    z3::expr bo(u32 id);
    z3::expr raw(u32 id);
    z3::expr build(u32 id);
    RV fp(u32 id);
    LemmaKit<RV, z3::expr> kit();
    // level 0: ranges only, 1: + facts about single operations, 2: + pairs
    void lemmas(const std::vector<u32>& nodes,
                const std::function<void(const z3::expr&)>& add, int level = 2);
};
