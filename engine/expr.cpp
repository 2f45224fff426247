#include "expr.hpp"
#include <algorithm>
#include <cfenv>
#include <cstdio>
#include <cstdlib>

std::vector<Node> N;
std::vector<VarInfo> vars;
static std::unordered_map<Key, u32, KeyH> table;

static u32 intern(unsigned op, unsigned w, u32 a, u32 b, u32 c, u32 aux, u64 val)
{
    if (N.empty())
        N.push_back(Node{});
    Key k{(uint8_t)op, (uint8_t)w, aux, a, b, c, val};
    auto it = table.find(k);
    if (it != table.end())
        return it->second;
    Node n{};
    n.op = op;
    n.w = w;
    n.aux = aux;
    n.a = a;
    n.b = b;
    n.c = c;
    n.val = val;
    N.push_back(n);
    u32 id = N.size() - 1;
    table.emplace(k, id);
    return id;
}

u32 mkConst(u64 v, unsigned w)
{
    return intern(OP_CONST, w, 0, 0, 0, 0, v & mask(w));
}

static u64 canonNaN(double d)
{
    return d != d ? 0x7ff8000000000000ull : asU(d);
}

u64 evalOp(unsigned op, unsigned w, unsigned wa, u32 aux, u64 a, u64 b, u64 c)
{
    u64 m = mask(w);
    u64 ma = mask(wa);
    switch (op)
    {
        case OP_ADD: return (a + b) & m;
        case OP_SUB: return (a - b) & m;
        case OP_MUL: return (a * b) & m;
        case OP_UDIV: return (b & m) ? (a & m) / (b & m) : m;
        case OP_UREM: return (b & m) ? (a & m) % (b & m) : a;
        case OP_SDIV:
        {
            i64 x = sx(a, w), y = sx(b, w);
            if (y == 0)
                return x < 0 ? 1 : m;
            if (y == -1)
                return (0 - (u64)x) & m;
            return (u64)(x / y) & m;
        }
        case OP_SREM:
        {
            i64 x = sx(a, w), y = sx(b, w);
            if (y == 0)
                return (u64)x & m;
            if (y == -1)
                return 0;
            return (u64)(x % y) & m;
        }
        case OP_AND: return a & b;
        case OP_OR: return a | b;
        case OP_XOR: return (a ^ b) & m;
        case OP_SHL: return b >= w ? 0 : (a << b) & m;
        case OP_LSHR: return b >= w ? 0 : (a & m) >> b;
        case OP_ASHR: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
        case OP_ZEXT: return a & ma;
        case OP_SEXT: return (u64)sx(a, wa) & m;
        case OP_EXTRACT: return (a >> aux) & m;
        case OP_CONCAT: return 0; // handled by caller (needs width of b)
        case OP_ITE: return (a & 1) ? b : c;
        case OP_EQ: return (a & ma) == (b & ma);
        case OP_ULT: return (a & ma) < (b & ma);
        case OP_ULE: return (a & ma) <= (b & ma);
        case OP_SLT: return sx(a, wa) < sx(b, wa);
        case OP_SLE: return sx(a, wa) <= sx(b, wa);
        case OP_FADD: return canonNaN(asD(a) + asD(b));
        case OP_FMUL: return canonNaN(asD(a) * asD(b));
        case OP_FDIV: return canonNaN(asD(a) / asD(b));
        case OP_FREM: return canonNaN(std::fmod(asD(a), asD(b)));
        case OP_FPOW: return canonNaN(std::pow(asD(a), asD(b)));
        case OP_FLOOR: return canonNaN(std::floor(asD(a)));
        case OP_FCEIL: return canonNaN(std::ceil(asD(a)));
        case OP_FTRUNC: return canonNaN(std::trunc(asD(a)));
        case OP_FROUND: return canonNaN(std::round(asD(a)));
        case OP_FRINT: return canonNaN(std::nearbyint(asD(a)));
        case OP_FSQRT: return canonNaN(std::sqrt(asD(a)));
        case OP_FEXP: return canonNaN(std::exp(asD(a)));
        case OP_FLOG: return canonNaN(std::log(asD(a)));
        case OP_SITOFP: return asU((double)sx(a, wa));
        case OP_UITOFP: return asU((double)(a & ma));
        case OP_FPTOSI:
        case OP_FPTOUI:
        {
            // x86 behaviour (cvttsd2si); out of range is UB in the source
            double d = asD(a);
            if (op == OP_FPTOUI && w == 64 && d >= 9223372036854775808.0)
            {
                if (d < 18446744073709551616.0)
                    return (u64)d;
                return 1ull << 63;
            }
            if (w < 32 || (w == 32 && op == OP_FPTOSI))
            {
                if (!(d > -2147483649.0 && d < 2147483648.0))
                    return 0x80000000ull & m;
                return (u64)(i64)(int32_t)d & m;
            }
            if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0))
                return (1ull << 63) & m;
            return (u64)(i64)d & m;
        }
        case OP_FEQ: return asD(a) == asD(b);
        case OP_FLT: return asD(a) < asD(b);
        case OP_FLE: return asD(a) <= asD(b);
        case OP_FNAN: return asD(a) != asD(a);
    }
    fprintf(stderr, "evalOp %u\n", op);
    abort();
}

u64 Evaluator::eval(u32 id0)
{
    if (val.size() < N.size())
    {
        val.resize(N.size() + 1024);
        stamp.resize(N.size() + 1024, 0);
    }
    // iterative post-order
    static std::vector<u32> st;
    st.clear();
    st.push_back(id0);
    while (!st.empty())
    {
        u32 id = st.back();
        if (stamp[id] == cur)
        {
            st.pop_back();
            continue;
        }
        const Node& n = N[id];
        if (n.op == OP_CONST)
        {
            val[id] = n.val;
            stamp[id] = cur;
            st.pop_back();
            continue;
        }
        if (n.op == OP_VAR)
        {
            val[id] = n.aux < m->v.size() ? m->v[n.aux] & mask(n.w) : 0;
            stamp[id] = cur;
            st.pop_back();
            continue;
        }
        bool ready = true;
        for (u32 k : {n.a, n.b, n.c})
            if (k && stamp[k] != cur)
            {
                st.push_back(k);
                ready = false;
            }
        if (!ready)
            continue;
        u64 a = n.a ? val[n.a] : 0, b = n.b ? val[n.b] : 0,
            c = n.c ? val[n.c] : 0;
        if (n.op == OP_CONCAT)
            val[id] = (a << N[n.b].w) | (b & mask(N[n.b].w));
        else
            val[id] = evalOp(n.op, n.w, n.a ? N[n.a].w : 0, n.aux, a, b, c);
        stamp[id] = cur;
        st.pop_back();
    }
    return val[id0];
}

// ---------------------------------------------------------------- simplifier
u32 mk(unsigned op, unsigned w, u32 a, u32 b, u32 c, u32 aux, u64 val)
{
    return intern(op, w, a, b, c, aux, val);
}
u32 mkNot(u32 a)
{
    if (isC(a))
        return mkConst(!(cval(a) & 1), 1);
    const Node n = N[a];
    if (n.op == OP_XOR && n.w == 1 && isC(n.b) && cval(n.b) == 1)
        return n.a;
    return intern(OP_XOR, 1, a, mkConst(1, 1), 0, 0, 0);
}
static bool isNotOf(u32 a, u32 b)
{
    const Node& n = N[a];
    return n.op == OP_XOR && n.w == 1 && n.a == b && isC(n.b) &&
           cval(n.b) == 1;
}
u32 mkAnd(u32 a, u32 b) { return mkBin(OP_AND, 1, a, b); }
u32 mkOr(u32 a, u32 b) { return mkBin(OP_OR, 1, a, b); }


// ---- linear forms ---------------------------------------------------------
// lin(id) describes the value of an integer node, read as signed, as
// c + sum k_i * atom_i over the integers. It holds without wrap-around: a
// node whose exact result might not fit its width is an atom itself.
typedef __int128 i128;
static const i128 BIG = (i128)1 << 100;
struct Lin
{
    std::vector<std::pair<u32, i128>> t; // sorted by atom
    i128 c = 0;
    i128 lo = 0, hi = 0;
};
static const size_t linMax = 24;
static std::unordered_map<u32, Lin> linMemo;
static i128 sMin(unsigned w) { return -((i128)1 << (w - 1)); }
static i128 sMax(unsigned w) { return ((i128)1 << (w - 1)) - 1; }
static Lin linGet(u32 id, int d = 0);
static void atomRange(u32 id, i128& lo, i128& hi, int d)
{
    const Node n = N[id];
    lo = sMin(n.w);
    hi = sMax(n.w);
    auto cut = [&](i128 l, i128 h) {
        if (l >= lo && h <= hi)
        {
            lo = l;
            hi = h;
        }
    };
    if (n.op == OP_VAR)
    {
        const VarInfo& v = vars[n.aux];
        if (!v.fp && (v.isSigned || v.lo >= 0))
            cut(v.lo, v.hi);
    }
    else if (n.op == OP_ZEXT && N[n.a].w < n.w)
    {
        cut(0, (i128)mask(N[n.a].w));
        if (N[n.a].op == OP_VAR)
        {
            const VarInfo& v = vars[N[n.a].aux];
            if (!v.fp && !v.isSigned && v.lo >= 0)
                cut(v.lo, v.hi);
        }
    }
    else if (n.op == OP_SEXT)
        cut(sMin(N[n.a].w), sMax(N[n.a].w));
    else if (n.op == OP_ITE && d < 20)
    {
        Lin x = linGet(n.b, d + 1), y = linGet(n.c, d + 1);
        cut(std::min(x.lo, y.lo), std::max(x.hi, y.hi));
    }
    else if (n.op == OP_AND && isC(n.b) && sx(cval(n.b), n.w) >= 0)
        cut(0, sx(cval(n.b), n.w));
    else if ((n.op == OP_UREM || n.op == OP_UDIV) && isC(n.b) &&
             sx(cval(n.b), n.w) > 1)
    {
        if (n.op == OP_UREM)
            cut(0, sx(cval(n.b), n.w) - 1);
        else
            cut(0, (i128)(mask(n.w) / cval(n.b)));
    }
}
static void linRange(Lin& l, int d)
{
    l.lo = l.hi = l.c;
    for (auto& [a, k] : l.t)
    {
        i128 lo, hi;
        atomRange(a, lo, hi, d);
        l.lo += k > 0 ? k * lo : k * hi;
        l.hi += k > 0 ? k * hi : k * lo;
    }
}
// x + m * y; false when it grows beyond what is handled
static bool linAdd(Lin& r, const Lin& x, const Lin& y, i128 m, int d)
{
    auto small = [](i128 v) { return v < BIG && v > -BIG; };
    r = Lin{};
    r.c = x.c + m * y.c;
    size_t i = 0, j = 0;
    while (i < x.t.size() || j < y.t.size())
    {
        i128 k;
        u32 a;
        if (j == y.t.size() || (i < x.t.size() && x.t[i].first < y.t[j].first))
        {
            a = x.t[i].first;
            k = x.t[i++].second;
        }
        else if (i == x.t.size() || y.t[j].first < x.t[i].first)
        {
            a = y.t[j].first;
            k = m * y.t[j++].second;
        }
        else
        {
            a = x.t[i].first;
            k = x.t[i++].second + m * y.t[j++].second;
        }
        // coefficients stay below 2^64, so that ranges fit 128 bits
        if (k >= ((i128)1 << 40) || k <= -((i128)1 << 40))
            return false;
        if (k != 0)
            r.t.emplace_back(a, k);
    }
    if (r.t.size() > linMax || !small(r.c))
        return false;
    linRange(r, d);
    return small(r.lo) && small(r.hi);
}
static Lin linAtom(u32 id, int d)
{
    Lin r;
    r.t.emplace_back(id, 1);
    linRange(r, d);
    return r;
}
static Lin linGet(u32 id, int d)
{
    const Node n = N[id];
    if (n.op == OP_CONST)
    {
        Lin r;
        r.c = r.lo = r.hi = sx(n.val, n.w);
        return r;
    }
    if (d > 20)
        return linAtom(id, d);
    auto it = linMemo.find(id);
    if (it != linMemo.end())
        return it->second;
    Lin r;
    bool ok = false;
    switch (n.op)
    {
        case OP_ADD:
            ok = linAdd(r, linGet(n.a, d + 1), linGet(n.b, d + 1), 1, d);
            break;
        case OP_SUB:
            ok = linAdd(r, linGet(n.a, d + 1), linGet(n.b, d + 1), -1, d);
            break;
        case OP_MUL:
            if (isC(n.b))
            {
                i128 k = sx(cval(n.b), n.w);
                if (k < ((i128)1 << 40) && k > -((i128)1 << 40))
                    ok = linAdd(r, Lin{}, linGet(n.a, d + 1), k, d);
            }
            break;
        case OP_SEXT:
            r = linGet(n.a, d + 1);
            ok = true;
            break;
        case OP_ZEXT:
            r = linGet(n.a, d + 1);
            ok = r.lo >= 0;
            break;
        case OP_EXTRACT:
            if (n.aux == 0)
            {
                r = linGet(n.a, d + 1);
                ok = true;
            }
            break;
        default: break;
    }
    if (!ok || r.lo < sMin(n.w) || r.hi > sMax(n.w))
        r = linAtom(id, d);
    linMemo.emplace(id, r);
    return r;
}
// the node of width w whose value is the form (which fits w)
static u32 linBuild(const Lin& l, unsigned w)
{
    u32 pos = 0;
    bool any = false;
    auto fit = [&](u32 a) {
        unsigned aw = N[a].w;
        if (aw == w)
            return a;
        if (aw > w)
            return mkExtract(a, 0, w);
        return mkCast(OP_SEXT, aw, w, a);
    };
    for (auto& [a, k] : l.t)
    {
        u32 v = fit(a);
        if (k != 1)
            v = mkBin(OP_MUL, w, v, mkConst((u64)k, w));
        pos = any ? mkBin(OP_ADD, w, pos, v) : v;
        any = true;
    }
    u32 c = mkConst((u64)l.c, w);
    if (!any)
        return c;
    return l.c ? mkBin(OP_ADD, w, pos, c) : pos;
}
static i128 floorDiv(i128 a, i128 b)
{
    i128 q = a / b;
    return (a % b != 0 && (a < 0) != (b < 0)) ? q - 1 : q;
}
// division and remainder by a positive constant: multiples split off
static bool linDiv(unsigned op, unsigned w, u32 a, u32 b, u32& out)
{
    i128 dv = op == OP_SDIV || op == OP_SREM ? (i128)sx(cval(b), w)
                                             : (i128)cval(b);
    if (dv <= 1 || dv > sMax(w))
        return false;
    Lin l = linGet(a);
    bool sg = op == OP_SDIV || op == OP_SREM;
    bool rem = op == OP_SREM || op == OP_UREM;
    if (!sg && l.lo < 0)
        return false;
    Lin q, r;
    for (auto& [x, k] : l.t)
    {
        if (k % dv == 0)
            q.t.emplace_back(x, k / dv);
        else
            r.t.emplace_back(x, k);
    }
    q.c = floorDiv(l.c, dv);
    r.c = l.c - q.c * dv;
    linRange(q, 0);
    linRange(r, 0);
    bool exact = r.t.empty() && r.c == 0;
    bool inside = r.lo >= 0 && r.hi < dv && l.lo >= 0;
    if (!exact && !inside)
        return false;
    if (q.lo < sMin(w) || q.hi > sMax(w))
        return false;
    if (rem)
        out = linBuild(r, w);
    else
        out = linBuild(q, w);
    return out != 0 && N[out].op != op;
}
static unsigned linWidth(const Lin& l)
{
    // every partial sum fits
    i128 s = l.c < 0 ? -l.c : l.c;
    for (auto& [a, k] : l.t)
    {
        i128 lo, hi;
        atomRange(a, lo, hi, 0);
        i128 m = std::max(lo < 0 ? -lo : lo, hi < 0 ? -hi : hi);
        s += (k < 0 ? -k : k) * m;
    }
    for (unsigned w : {8u, 16u, 32u, 64u})
        if (s <= sMax(w))
            return w;
    return 0;
}
// compares two nodes through their linear forms. kind: 0 ==, 1 <, 2 <=
static bool linCmp(int kind, bool sg, u32 a, u32 b, u32& out)
{
    unsigned w = N[a].w;
    if (w < 8)
        return false;
    Lin x = linGet(a), y = linGet(b);
    if (kind && !sg && (x.lo < 0 || y.lo < 0))
        return false;
    Lin d;
    if (!linAdd(d, x, y, -1, 0))
        return false;
    auto yes = [&](bool v) {
        out = mkConst(v, 1);
        return true;
    };
    switch (kind)
    {
        case 0:
            if (d.lo > 0 || d.hi < 0)
                return yes(false);
            break;
        case 1:
            if (d.hi < 0)
                return yes(true);
            if (d.lo >= 0)
                return yes(false);
            break;
        case 2:
            if (d.hi <= 0)
                return yes(true);
            if (d.lo > 0)
                return yes(false);
            break;
    }
    if (d.t.empty())
        return yes(kind == 0 ? d.c == 0 : kind == 1 ? d.c < 0 : d.c <= 0);
    i128 g = 0;
    for (auto& [at, k] : d.t)
    {
        i128 p = k < 0 ? -k : k;
        while (p)
        {
            i128 r = g % p;
            g = p;
            p = r;
        }
    }
    bool cancelled = d.t.size() < x.t.size() + y.t.size();
    if (g == 1 && !cancelled)
        return false;
    // sum k' x  (op)  rhs
    i128 rhs = -d.c;
    if (kind == 0)
    {
        if (rhs % g)
            return yes(false);
        rhs /= g;
    }
    else if (kind == 2)
        rhs = floorDiv(rhs, g);
    else
        rhs = -floorDiv(-rhs, g);
    Lin l;
    for (auto& [at, k] : d.t)
        l.t.emplace_back(at, k / g);
    bool flip = true;
    for (auto& [at, k] : l.t)
        if (k > 0)
            flip = false;
    if (flip)
    {
        for (auto& t : l.t)
            t.second = -t.second;
        rhs = -rhs;
    }
    l.c = 0;
    linRange(l, 0);
    unsigned bw;
    if (l.t.size() == 1 && l.t[0].second == 1)
        bw = N[l.t[0].first].w;
    else
    {
        Lin m = l;
        m.c = rhs;
        bw = linWidth(m);
    }
    if (!bw || l.lo < sMin(bw) || l.hi > sMax(bw) || rhs < sMin(bw) ||
        rhs > sMax(bw))
        return false;
    u32 n = linBuild(l, bw), c = mkConst((u64)rhs, bw);
    if ((n == a && c == b) || (n == b && c == a))
        return false;
    if (kind == 0)
        out = mkEq(n, c);
    else if (!flip)
        out = mkCmp(kind == 1 ? 40 : 41, bw, n, c);
    else
        out = mkCmp(kind == 1 ? 40 : 41, bw, c, n);
    return true;
}

u32 mkEq(u32 a, u32 b)
{
    if (a == b)
        return mkConst(1, 1);
    if (isC(a) && isC(b))
        return mkConst(cval(a) == cval(b), 1);
    if (isC(a))
        std::swap(a, b);
    const Node na = N[a];
    if (isC(b))
    {
        u64 v = cval(b);
        if (na.w == 1)
            return v ? a : mkNot(a);
        if (na.op == OP_ZEXT)
        {
            unsigned iw = N[na.a].w;
            if (v & ~mask(iw))
                return mkConst(0, 1);
            return mkEq(na.a, mkConst(v, iw));
        }
        if (na.op == OP_SEXT)
        {
            unsigned iw = N[na.a].w;
            if ((u64)sx(v, iw) != (u64)sx(v, na.w))
                return mkConst(0, 1);
            return mkEq(na.a, mkConst(v, iw));
        }
        if (na.op == OP_ITE && (isC(na.b) || isC(na.c)))
        {
            u32 t = mkEq(na.b, b), f = mkEq(na.c, b);
            return mkIte(na.a, t, f);
        }
        if (na.op == OP_ADD && isC(na.b))
            return mkEq(na.a, mkConst(v - cval(na.b), na.w));
        if (na.op == OP_XOR && isC(na.b))
            return mkEq(na.a, mkConst(v ^ cval(na.b), na.w));
    }
    {
        u32 out;
        if (linCmp(0, true, a, b, out))
            return out;
    }
    if (!isC(b) && a > b)
        std::swap(a, b);
    return intern(OP_EQ, 1, a, b, 0, 0, 0);
}
u32 mkIte(u32 c, u32 a, u32 b)
{
    if (isC(c))
        return (cval(c) & 1) ? a : b;
    if (a == b)
        return a;
    unsigned w = N[a].w;
    if (isNotOf(c, N[c].a))
        return mkIte(N[c].a, b, a);
    if (w == 1)
    {
        if (isC(a) && isC(b))
            return cval(a) ? c : mkNot(c);
        if (isC(a))
            return cval(a) ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (isC(b))
            return cval(b) ? mkOr(mkNot(c), a) : mkAnd(c, a);
        if (a == c)
            return mkOr(c, b);
        if (b == c)
            return mkAnd(c, a);
    }
    if (N[a].op == OP_ITE && N[a].a == c)
        a = N[a].b;
    if (N[b].op == OP_ITE && N[b].a == c)
        b = N[b].c;
    if (a == b)
        return a;
    return intern(OP_ITE, w, c, a, b, 0, 0);
}
u32 mkExtract(u32 a, unsigned lo, unsigned w)
{
    const Node n = N[a];
    if (lo == 0 && n.w == w)
        return a;
    if (n.op == OP_CONST)
        return mkConst(n.val >> lo, w);
    if (n.op == OP_EXTRACT)
        return mkExtract(n.a, n.aux + lo, w);
    if (n.op == OP_CONCAT)
    {
        unsigned lw = N[n.b].w;
        if (lo >= lw)
            return mkExtract(n.a, lo - lw, w);
        if (lo + w <= lw)
            return mkExtract(n.b, lo, w);
    }
    if (n.op == OP_ZEXT)
    {
        unsigned iw = N[n.a].w;
        if (lo >= iw)
            return mkConst(0, w);
        if (lo + w <= iw)
            return mkExtract(n.a, lo, w);
        if (lo == 0)
            return mkCast(OP_ZEXT, iw, w, n.a);
    }
    if (n.op == OP_SEXT)
    {
        unsigned iw = N[n.a].w;
        if (lo + w <= iw)
            return mkExtract(n.a, lo, w);
        if (lo == 0 && w > iw)
            return mkCast(OP_SEXT, iw, w, n.a);
    }
    if (n.op == OP_ITE && (isC(n.b) || isC(n.c)))
        return mkIte(n.a, mkExtract(n.b, lo, w), mkExtract(n.c, lo, w));
    return intern(OP_EXTRACT, w, a, 0, 0, lo, 0);
}
u32 mkConcat(u32 hi, u32 lo)
{
    const Node h = N[hi], l = N[lo];
    unsigned w = h.w + l.w;
    if (h.op == OP_CONST && l.op == OP_CONST)
        return mkConst((h.val << l.w) | l.val, w);
    if (h.op == OP_CONST && h.val == 0)
        return mkCast(OP_ZEXT, l.w, w, lo);
    if (h.op == OP_EXTRACT && l.op == OP_EXTRACT && h.a == l.a &&
        h.aux == l.aux + l.w)
        return mkExtract(h.a, l.aux, w);
    // concat(extract(x, k, ..), x[0..k)) with x exactly k wide handled above;
    // low part may be the full narrow value when extract(x,0,w)==x
    return intern(OP_CONCAT, w, hi, lo, 0, 0, 0);
}
static u32 SIGN() { return mkConst(0x8000000000000000ull, 64); }

u32 mkBin(unsigned op, unsigned w, u32 a, u32 b)
{
    if (op == OP_FSUB)
        return mkBin(OP_FADD, w, a, mkUn(OP_FNEG, b));
    if (isC(a) && isC(b))
        return mkConst(evalOp(op, w, w, 0, cval(a), cval(b), 0), w);
    switch (op)
    {
        case OP_SUB:
            if (isC(b))
                return mkBin(OP_ADD, w, a, mkConst(0 - cval(b), w));
            if (a == b)
                return mkConst(0, w);
            break;
        case OP_ADD:
        case OP_MUL:
        case OP_AND:
        case OP_OR:
        case OP_XOR:
        {
            if (isC(a))
                std::swap(a, b);
            else if (!isC(b) && a > b)
                std::swap(a, b);
            if (isC(b))
            {
                u64 v = cval(b);
                const Node na = N[a];
                if (v == 0)
                {
                    if (op == OP_ADD || op == OP_OR || op == OP_XOR)
                        return a;
                    return mkConst(0, w);
                }
                if (op == OP_MUL && v == 1)
                    return a;
                if (v == mask(w))
                {
                    if (op == OP_AND)
                        return a;
                    if (op == OP_OR)
                        return b;
                }
                if (op == OP_XOR && w == 1)
                    return mkNot(a);
                if (na.op == op && isC(na.b) && op != OP_MUL)
                    return mkBin(op, w, na.a,
                                 mkConst(evalOp(op, w, w, 0, cval(na.b), v, 0),
                                         w));
                if (op == OP_AND && na.op == OP_ZEXT && N[na.a].w == 1 &&
                    (v & 1))
                    return a;
                // fabs(fneg x) = fabs x
                if (op == OP_AND && w == 64 && v == 0x7fffffffffffffffull &&
                    na.op == OP_XOR && na.b == SIGN())
                    return mkBin(OP_AND, w, na.a, b);
                if (op == OP_AND && na.op == OP_ITE &&
                    (isC(na.b) || isC(na.c)))
                    return mkIte(na.a, mkBin(op, w, na.b, b),
                                 mkBin(op, w, na.c, b));
                // and/or/xor of zero-extended booleans
                if (op == OP_XOR && na.op == OP_ZEXT && N[na.a].w == 1 &&
                    v == 1)
                    return mkCast(OP_ZEXT, 1, w, mkNot(na.a));
            }
            else
            {
                if (a == b)
                {
                    if (op == OP_AND || op == OP_OR)
                        return a;
                    if (op == OP_XOR)
                        return mkConst(0, w);
                }
                if (w == 1 && (op == OP_AND || op == OP_OR) &&
                    (isNotOf(a, b) || isNotOf(b, a)))
                    return mkConst(op == OP_OR, 1);
                if (op == OP_AND || op == OP_OR || op == OP_XOR)
                {
                    const Node na = N[a], nb = N[b];
                    if (na.op == OP_ZEXT && nb.op == OP_ZEXT &&
                        N[na.a].w == N[nb.a].w && N[na.a].w == 1)
                        return mkCast(OP_ZEXT, 1, w,
                                      mkBin(op, 1, na.a, nb.a));
                }
            }
            break;
        }
        case OP_SHL:
        case OP_LSHR:
        case OP_ASHR:
            if (isC(b) && cval(b) == 0)
                return a;
            if (isC(b) && cval(b) < w)
            {
                unsigned k = cval(b);
                if (op == OP_LSHR)
                    return mkCast(OP_ZEXT, w - k, w, mkExtract(a, k, w - k));
                if (op == OP_SHL)
                    return mkConcat(mkExtract(a, 0, w - k), mkConst(0, k));
            }
            break;
        case OP_UDIV:
        case OP_SDIV:
        case OP_UREM:
        case OP_SREM:
            if (isC(b) && cval(b) == 1)
                return op == OP_UDIV || op == OP_SDIV ? a : mkConst(0, w);
            if (isC(b))
            {
                u32 out;
                if (linDiv(op, w, a, b, out))
                    return out;
            }
            break;
        case OP_FADD:
            if (isC(b) && cval(b) == 0x8000000000000000ull)
                return a; // x + -0.0
            if (isC(a) && cval(a) == 0x8000000000000000ull)
                return b;
            if (a > b)
                std::swap(a, b);
            break;
        case OP_FMUL:
        {
            if (isC(a))
                std::swap(a, b);
            if (isC(b) && asD(cval(b)) == 1.0)
                return a;
            if (isC(b) && asD(cval(b)) == -1.0)
                return mkUn(OP_FNEG, a);
            // pull negations out: (-x)*y = -(x*y)
            bool neg = false;
            if (N[a].op == OP_XOR && N[a].b == SIGN())
            {
                a = N[a].a;
                neg = !neg;
            }
            if (N[b].op == OP_XOR && N[b].b == SIGN())
            {
                b = N[b].a;
                neg = !neg;
            }
            if (a > b)
                std::swap(a, b);
            u32 r = intern(OP_FMUL, w, a, b, 0, 0, 0);
            return neg ? mkUn(OP_FNEG, r) : r;
        }
        case OP_FDIV:
            if (isC(b) && asD(cval(b)) == 1.0)
                return a;
            break;
        default:
            break;
    }
    return intern(op, w, a, b, 0, 0, 0);
}
u32 mkCast(unsigned op, unsigned fw, unsigned tw, u32 a)
{
    switch (op)
    {
        case OP_TRUNC:
            return mkExtract(a, 0, tw);
        case OP_ZEXT:
        case OP_SEXT:
        {
            if (fw == tw)
                return a;
            const Node n = N[a];
            if (n.op == OP_CONST)
                return mkConst(op == OP_SEXT ? (u64)sx(n.val, fw) : n.val, tw);
            if (n.op == OP_ZEXT)
                return mkCast(OP_ZEXT, N[n.a].w, tw, n.a);
            if (op == OP_SEXT && n.op == OP_SEXT)
                return mkCast(OP_SEXT, N[n.a].w, tw, n.a);
            if (n.op == OP_ITE && isC(n.b) && isC(n.c))
                return mkIte(n.a, mkCast(op, fw, tw, n.b),
                             mkCast(op, fw, tw, n.c));
            return intern(op, tw, a, 0, 0, 0, 0);
        }
        case OP_SITOFP:
        case OP_UITOFP:
        {
            const Node n = N[a];
            if (n.op == OP_CONST)
                return mkConst(evalOp(op, 64, fw, 0, n.val, 0, 0), 64);
            // normalise the source width: conversion of an extension is the
            // conversion of the narrow value
            if (n.op == OP_ZEXT)
                return mkCast(OP_UITOFP, N[n.a].w, 64, n.a);
            if (n.op == OP_SEXT && op == OP_SITOFP)
                return mkCast(OP_SITOFP, N[n.a].w, 64, n.a);
            if (n.op == OP_ITE && isC(n.b) && isC(n.c))
                return mkIte(n.a, mkCast(op, fw, tw, n.b),
                             mkCast(op, fw, tw, n.c));
            return intern(op, 64, a, 0, 0, fw, 0);
        }
        case OP_FPTOSI:
        case OP_FPTOUI:
        {
            const Node n = N[a];
            if (n.op == OP_CONST)
                return mkConst(evalOp(op, tw, 64, 0, n.val, 0, 0), tw);
            if (n.op == OP_SITOFP && N[n.a].w <= 53 && N[n.a].w <= tw &&
                op == OP_FPTOSI && tw >= 32)
                return mkCast(OP_SEXT, N[n.a].w, tw, n.a);
            if (n.op == OP_UITOFP && N[n.a].w <= 53 && N[n.a].w < tw &&
                tw >= 32)
                return mkCast(OP_ZEXT, N[n.a].w, tw, n.a);
            if (n.op == OP_ITE)
                return mkIte(n.a, mkCast(op, fw, tw, n.b),
                             mkCast(op, fw, tw, n.c));
            return intern(op, tw, a, 0, 0, 0, 0);
        }
    }
    fprintf(stderr, "mkCast %u\n", op);
    abort();
}
u32 mkUn(unsigned op, u32 a)
{
    switch (op)
    {
        case OP_FNEG:
            return mkBin(OP_XOR, 64, a, SIGN());
        case OP_FABS:
            return mkBin(OP_AND, 64, a, mkConst(0x7fffffffffffffffull, 64));
        case OP_FNAN:
            if (isC(a))
                return mkConst(asD(cval(a)) != asD(cval(a)), 1);
            if (N[a].op == OP_SITOFP || N[a].op == OP_UITOFP)
                return mkConst(0, 1);
            if ((N[a].op == OP_XOR && N[a].b == SIGN()) ||
                (N[a].op == OP_AND && isC(N[a].b) &&
                 cval(N[a].b) == 0x7fffffffffffffffull))
                return mkUn(OP_FNAN, N[a].a);
            if (N[a].op == OP_VAR && vars[N[a].aux].fp &&
                !(vars[N[a].aux].special & 1))
                return mkConst(0, 1);
            if (N[a].op == OP_ITE)
                return mkIte(N[a].a, mkUn(OP_FNAN, N[a].b),
                             mkUn(OP_FNAN, N[a].c));
            return intern(OP_FNAN, 1, a, 0, 0, 0, 0);
        default:
            if (isC(a))
                return mkConst(evalOp(op, 64, 64, 0, cval(a), 0, 0), 64);
            return intern(op, 64, a, 0, 0, 0, 0);
    }
}
static u32 fle(u32 a, u32 b)
{
    if (isC(a) && isC(b))
        return mkConst(asD(cval(a)) <= asD(cval(b)), 1);
    if (a == b)
        return mkNot(mkUn(OP_FNAN, a));
    if ((isC(a) && std::isnan(asD(cval(a)))) ||
        (isC(b) && std::isnan(asD(cval(b)))))
        return mkConst(0, 1);
    return intern(OP_FLE, 1, a, b, 0, 0, 0);
}
static u32 flt(u32 a, u32 b)
{
    if (isC(a) && isC(b))
        return mkConst(asD(cval(a)) < asD(cval(b)), 1);
    if (a == b)
        return mkConst(0, 1);
    if ((isC(a) && std::isnan(asD(cval(a)))) ||
        (isC(b) && std::isnan(asD(cval(b)))))
        return mkConst(0, 1);
    return intern(OP_FLT, 1, a, b, 0, 0, 0);
}
static u32 feq(u32 a, u32 b)
{
    if (isC(a) && isC(b))
        return mkConst(asD(cval(a)) == asD(cval(b)), 1);
    if (a == b)
        return mkNot(mkUn(OP_FNAN, a));
    if (a > b)
        std::swap(a, b);
    return intern(OP_FEQ, 1, a, b, 0, 0, 0);
}
u32 mkCmp(unsigned p, unsigned w, u32 a, u32 b)
{
    auto uno = [&]() { return mkOr(mkUn(OP_FNAN, a), mkUn(OP_FNAN, b)); };
    switch (p)
    {
        case 0: return mkConst(0, 1);
        case 1: return feq(a, b);             // oeq
        case 2: return flt(b, a);             // ogt
        case 3: return fle(b, a);             // oge
        case 4: return flt(a, b);             // olt
        case 5: return fle(a, b);             // ole
        case 6: return mkAnd(mkNot(feq(a, b)), mkNot(uno())); // one
        case 7: return mkNot(uno());          // ord
        case 8: return uno();                 // uno
        case 9: return mkOr(feq(a, b), uno()); // ueq
        case 10: return mkNot(fle(a, b));     // ugt
        case 11: return mkNot(flt(a, b));     // uge
        case 12: return mkNot(fle(b, a));     // ult
        case 13: return mkNot(flt(b, a));     // ule
        case 14: return mkNot(feq(a, b));     // une
        case 15: return mkConst(1, 1);
    }
    bool neg = false;
    unsigned op = 0;
    switch (p)
    {
        case 32: return mkEq(a, b);
        case 33: return mkNot(mkEq(a, b));
        case 34: op = OP_ULT; std::swap(a, b); break; // ugt
        case 35: op = OP_ULE; std::swap(a, b); break; // uge
        case 36: op = OP_ULT; break;
        case 37: op = OP_ULE; break;
        case 38: op = OP_SLT; std::swap(a, b); break;
        case 39: op = OP_SLE; std::swap(a, b); break;
        case 40: op = OP_SLT; break;
        case 41: op = OP_SLE; break;
        default: abort();
    }
    (void)neg;
    if (isC(a) && isC(b))
        return mkConst(evalOp(op, 1, w, 0, cval(a), cval(b), 0), 1);
    if (a == b)
        return mkConst(op == OP_ULE || op == OP_SLE, 1);
    // zero-extended operands compared with constants
    if (w > 1)
    {
        if (N[a].op == OP_ZEXT && isC(b))
        {
            unsigned iw = N[N[a].a].w;
            i64 bv = op == OP_SLT || op == OP_SLE ? sx(cval(b), w) : 0;
            if (op == OP_SLT || op == OP_SLE)
            {
                if (bv < 0)
                    return mkConst(0, 1);
            }
            u64 v = cval(b);
            if (v > mask(iw))
                return mkConst(1, 1);
            return mkCmp(op == OP_SLT || op == OP_ULT ? 36 : 37, iw, N[a].a,
                         mkConst(v, iw));
        }
        if (N[b].op == OP_ZEXT && isC(a))
        {
            unsigned iw = N[N[b].a].w;
            if ((op == OP_SLT || op == OP_SLE) && sx(cval(a), w) < 0)
                return mkConst(1, 1);
            u64 v = cval(a);
            if (v > mask(iw))
                return mkConst(0, 1);
            return mkCmp(op == OP_SLT || op == OP_ULT ? 36 : 37, iw,
                         mkConst(v, iw), N[b].a);
        }
    }
    if (op == OP_ULT && isC(b) && cval(b) == 1)
        return mkEq(a, mkConst(0, w));
    if (op == OP_ULT && isC(a) && cval(a) == 0)
        return mkNot(mkEq(b, a));
    if (op == OP_ULT && isC(b) && cval(b) == 0)
        return mkConst(0, 1);
    if (op == OP_ULE && isC(a) && cval(a) == 0)
        return mkConst(1, 1);
    {
        u32 out;
        bool sg = op == OP_SLT || op == OP_SLE;
        if (linCmp(op == OP_SLT || op == OP_ULT ? 1 : 2, sg, a, b, out))
            return out;
    }
    return intern(op, 1, a, b, 0, 0, 0);
}
