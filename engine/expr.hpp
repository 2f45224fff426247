// Hash-consed expression DAG, simplifier, native evaluator and intervals.
#pragma once
#include "ops.h"
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

struct Node
{
    uint8_t op, w;
    uint16_t pad;
    u32 aux;
    u32 a, b, c;
    u64 val;
};

inline double asD(u64 v)
{
    double d;
    memcpy(&d, &v, 8);
    return d;
}
inline u64 asU(double d)
{
    u64 v;
    memcpy(&v, &d, 8);
    return v;
}
inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sx(u64 v, unsigned w)
{
    if (w >= 64)
        return (i64)v;
    u64 m = 1ull << (w - 1);
    v &= mask(w);
    return (i64)((v ^ m) - m);
}

struct VarInfo
{
    std::string name;
    unsigned w;
    bool fp;
    bool isSigned;
    i64 lo, hi;
    double dlo, dhi;
    int special;
    u32 id;
};

struct Iv
{
    double lo, hi;
    bool nan;
};

struct Key
{
    uint8_t op, w;
    u32 aux, a, b, c;
    u64 val;
    bool operator==(const Key& o) const
    {
        return op == o.op && w == o.w && aux == o.aux && a == o.a && b == o.b &&
               c == o.c && val == o.val;
    }
};
struct KeyH
{
    size_t operator()(const Key& k) const
    {
        u64 h = k.op * 0x9E3779B97F4A7C15ull + k.w;
        auto mix = [&](u64 x) {
            h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
            h *= 0xff51afd7ed558ccdull;
            h ^= h >> 32;
        };
        mix(k.aux);
        mix(k.a);
        mix(k.b);
        mix(k.c);
        mix(k.val);
        return h;
    }
};

extern std::vector<Node> N;
extern std::vector<VarInfo> vars;

u32 mk(unsigned op, unsigned w, u32 a, u32 b = 0, u32 c = 0, u32 aux = 0,
       u64 val = 0);
u32 mkConst(u64 v, unsigned w);
u32 mkNot(u32 a);
u32 mkAnd(u32 a, u32 b);
u32 mkOr(u32 a, u32 b);
u32 mkEq(u32 a, u32 b);
u32 mkIte(u32 c, u32 a, u32 b);
u32 mkExtract(u32 a, unsigned lo, unsigned w);
u32 mkConcat(u32 hi, u32 lo);
u32 mkBin(unsigned op, unsigned w, u32 a, u32 b);
u32 mkCast(unsigned op, unsigned fw, unsigned tw, u32 a);
u32 mkUn(unsigned op, u32 a);
u32 mkCmp(unsigned pred, unsigned w, u32 a, u32 b);
inline bool isC(u32 a) { return N[a].op == OP_CONST; }
inline u64 cval(u32 a) { return N[a].val; }

// evaluates one operation on concrete operands (exact native semantics)
u64 evalOp(unsigned op, unsigned w, unsigned wa, u32 aux, u64 a, u64 b, u64 c);
inline bool isFpArith(unsigned op)
{
    return op >= OP_FADD && op <= OP_FLOG;
}

struct Model
{
    std::vector<u64> v; // per variable
};
struct Evaluator
{
    const Model* m = nullptr;
    std::vector<u64> val;
    std::vector<u32> stamp;
    u32 cur = 0;
    void begin(const Model& mm)
    {
        m = &mm;
        cur++;
    }
    u64 eval(u32 id);
};
