#include "lower.hpp"
using z3::expr;

static const u64 EXPM = 0x7ff0000000000000ull;
static const u64 ABSM = 0x7fffffffffffffffull;

expr Lowering::isnan(const expr& x) { return z3::ugt(x & k(ABSM, 64), k(EXPM, 64)); }
expr Lowering::isinf(const expr& x) { return (x & k(ABSM, 64)) == k(EXPM, 64); }
expr Lowering::iszero(const expr& x) { return (x & k(ABSM, 64)) == k(0, 64); }
expr Lowering::neg(const expr& x) { return x.extract(63, 63) == k(1, 1); }
expr Lowering::flip(const expr& x) { return x ^ k(0x8000000000000000ull, 64); }
expr Lowering::fabs_(const expr& x) { return x & k(ABSM, 64); }
expr Lowering::key(const expr& x)
{
    // order-preserving signed key; -0 and +0 coincide
    return z3::ite(x.extract(63, 63) == k(1, 1), -(x & k(ABSM, 64)), x);
}
expr Lowering::le(const expr& a, const expr& b)
{
    return !isnan(a) && !isnan(b) && z3::sle(key(a), key(b));
}
expr Lowering::lt(const expr& a, const expr& b)
{
    return !isnan(a) && !isnan(b) && z3::slt(key(a), key(b));
}
expr Lowering::eq(const expr& a, const expr& b)
{
    return !isnan(a) && !isnan(b) && key(a) == key(b);
}

expr Lowering::si2d(const expr& x0, bool sg)
{
    // exact int -> double, round to nearest even
    unsigned w = x0.get_sort().bv_size();
    expr x = w == 64 ? x0 : (sg ? z3::sext(x0, 64 - w) : z3::zext(x0, 64 - w));
    expr s = sg && true ? (x.extract(63, 63) == k(1, 1)) : c.bool_val(false);
    if (w < 64 && !sg)
        s = c.bool_val(false);
    expr m = z3::ite(s, -x, x);
    expr e = k(1023 + 63, 12);
    expr zero = m == k(0, 64);
    for (int sh : {32, 16, 8, 4, 2, 1})
    {
        expr top0 = m.extract(63, 64 - sh) == k(0, sh);
        m = z3::ite(top0, z3::shl(m, k(sh, 64)), m);
        e = z3::ite(top0, e - k(sh, 12), e);
    }
    expr mant = m.extract(62, 11); // 52 bits
    expr g = m.extract(10, 10) == k(1, 1);
    expr st = m.extract(9, 0) != k(0, 10);
    expr odd = m.extract(11, 11) == k(1, 1);
    expr up = g && (st || odd);
    expr base = z3::concat(e.extract(10, 0), mant); // 63 bits
    base = z3::ite(up, base + k(1, 63), base);
    expr sign = z3::ite(s, k(1, 1), k(0, 1));
    return z3::ite(zero, k(0, 64), z3::concat(sign, base));
}
expr Lowering::d2i(const expr& x, unsigned w, bool sg)
{
    // x86 cvttsd2si semantics (see evalOp)
    expr e = x.extract(62, 52);                                  // 11
    expr m = z3::concat(k(1, 1), z3::concat(x.extract(51, 0), k(0, 11))); // 64
    expr small = z3::ult(e, k(1023, 11));
    expr sh = k(1023 + 63, 64) - z3::zext(e, 53);
    expr mag = z3::lshr(m, sh);
    expr s = neg(x);
    expr v = z3::ite(small, k(0, 64), z3::ite(s, -mag, mag));
    bool narrow = w < 32 || (w == 32 && sg);
    if (narrow)
    {
        // in range iff trunc(x) fits int32
        expr ok = z3::ult(e, k(1023 + 31, 11)) ||
                  (s && e == k(1023 + 31, 11) &&
                   x.extract(51, 21) == k(0, 31)); // -2^31 - frac
        return z3::ite(ok, v.extract(w - 1, 0), k(0x80000000ull & mask(w), w));
    }
    expr ok = z3::ult(e, k(1023 + 63, 11));
    expr r = z3::ite(ok, v, k(1ull << 63, 64));
    if (w == 64 && !sg)
    {
        expr big = !s && e == k(1023 + 63, 11);
        r = z3::ite(big, m, r);
    }
    return w == 64 ? r : r.extract(w - 1, 0);
}

expr Lowering::bv(u32 id)
{
    expr e = raw(id);
    if (N[id].w == 1)
        return z3::ite(e, k(1, 1), k(0, 1));
    return e;
}
expr Lowering::bo(u32 id) { return raw(id); }

expr Lowering::raw(u32 id)
{
    if (memo.size() < N.size())
        memo.resize(N.size() + 256, nullptr);
    if (memo[id])
        return expr(c, memo[id]);
    // iterative: lower children first to bound recursion depth
    std::vector<u32> st{id};
    while (!st.empty())
    {
        u32 x = st.back();
        if (memo[x])
        {
            st.pop_back();
            continue;
        }
        bool ready = true;
        for (u32 ch : {N[x].a, N[x].b, N[x].c})
            if (ch && !memo[ch])
            {
                st.push_back(ch);
                ready = false;
            }
        if (!ready)
            continue;
        expr e = build(x);
        memo[x] = e;
        Z3_inc_ref(c, e);
        st.pop_back();
    }
    return expr(c, memo[id]);
}

expr Lowering::build(u32 id)
{
    const Node n = N[id];
    unsigned w = n.w;
    auto B2 = [&](const expr& b) { return b; };
    (void)B2;
    switch (n.op)
    {
        case OP_CONST:
            return w == 1 ? c.bool_val(n.val & 1) : k(n.val, w);
        case OP_VAR:
        {
            const VarInfo& v = vars[n.aux];
            std::string nm = "v" + std::to_string(n.aux);
            if (w == 1)
                return c.bool_const(nm.c_str());
            if (grid && v.fp)
            {
                // sign | exp | 7 mantissa bits | 0 ; NaN/inf reachable too
                expr s = c.bv_const((nm + "s").c_str(), 1);
                expr e = c.bv_const((nm + "e").c_str(), 11);
                expr m = c.bv_const((nm + "m").c_str(), 7);
                return z3::concat(s, z3::concat(e, z3::concat(m, k(0, 45))));
            }
            if (grid && w == 64)
            {
                expr m = c.bv_const((nm + "m").c_str(), 24);
                return z3::sext(m, 40);
            }
            return c.bv_const(nm.c_str(), w);
        }
        case OP_ADD: return bv(n.a) + bv(n.b);
        case OP_SUB: return bv(n.a) - bv(n.b);
        case OP_MUL: return bv(n.a) * bv(n.b);
        case OP_UDIV: return z3::udiv(bv(n.a), bv(n.b));
        case OP_SDIV: return bv(n.a) / bv(n.b);
        case OP_UREM: return z3::urem(bv(n.a), bv(n.b));
        case OP_SREM: return z3::srem(bv(n.a), bv(n.b));
        case OP_AND:
            return w == 1 ? (bo(n.a) && bo(n.b)) : (bv(n.a) & bv(n.b));
        case OP_OR:
            return w == 1 ? (bo(n.a) || bo(n.b)) : (bv(n.a) | bv(n.b));
        case OP_XOR:
            if (w == 1)
            {
                if (isC(n.b))
                    return cval(n.b) ? !bo(n.a) : bo(n.a);
                return bo(n.a) != bo(n.b);
            }
            return bv(n.a) ^ bv(n.b);
        case OP_SHL: return z3::shl(bv(n.a), bv(n.b));
        case OP_LSHR: return z3::lshr(bv(n.a), bv(n.b));
        case OP_ASHR: return z3::ashr(bv(n.a), bv(n.b));
        case OP_ZEXT: return z3::zext(bv(n.a), w - N[n.a].w);
        case OP_SEXT: return z3::sext(bv(n.a), w - N[n.a].w);
        case OP_EXTRACT:
        {
            expr e = bv(n.a).extract(n.aux + w - 1, n.aux);
            return w == 1 ? (e == k(1, 1)) : e;
        }
        case OP_CONCAT: return z3::concat(bv(n.a), bv(n.b));
        case OP_ITE: return z3::ite(bo(n.a), raw(n.b), raw(n.c));
        case OP_EQ: return raw(n.a) == raw(n.b);
        case OP_ULT: return z3::ult(bv(n.a), bv(n.b));
        case OP_ULE: return z3::ule(bv(n.a), bv(n.b));
        case OP_SLT: return z3::slt(bv(n.a), bv(n.b));
        case OP_SLE: return z3::sle(bv(n.a), bv(n.b));
        case OP_FEQ: return eq(bv(n.a), bv(n.b));
        case OP_FLT: return lt(bv(n.a), bv(n.b));
        case OP_FLE: return le(bv(n.a), bv(n.b));
        case OP_FNAN: return isnan(bv(n.a));
        case OP_SITOFP: return si2d(bv(n.a), true);
        case OP_UITOFP:
            return si2d(bv(n.a), false);
        case OP_FPTOSI: return d2i(bv(n.a), w, true);
        case OP_FPTOUI: return d2i(bv(n.a), w, false);
        default: break;
    }
    if (isFpArith(n.op))
    {
        bool ex = (exact >= 2) || (exact == 1 && n.op == OP_FADD);
        if (ex)
        {
            z3::sort fs = c.fpa_sort(11, 53);
            auto tofp = [&](const expr& x) {
                return expr(c, Z3_mk_fpa_to_fp_bv(c, x, fs));
            };
            auto rm = expr(c, Z3_mk_fpa_rne(c));
            Z3_ast r = nullptr;
            expr a = tofp(bv(n.a));
            switch (n.op)
            {
                case OP_FADD: r = Z3_mk_fpa_add(c, rm, a, tofp(bv(n.b))); break;
                case OP_FMUL: r = Z3_mk_fpa_mul(c, rm, a, tofp(bv(n.b))); break;
                case OP_FDIV: r = Z3_mk_fpa_div(c, rm, a, tofp(bv(n.b))); break;
                case OP_FSQRT: r = Z3_mk_fpa_sqrt(c, rm, a); break;
                case OP_FLOOR:
                    r = Z3_mk_fpa_round_to_integral(
                        c, expr(c, Z3_mk_fpa_rtn(c)), a);
                    break;
                case OP_FCEIL:
                    r = Z3_mk_fpa_round_to_integral(
                        c, expr(c, Z3_mk_fpa_rtp(c)), a);
                    break;
                case OP_FTRUNC:
                    r = Z3_mk_fpa_round_to_integral(
                        c, expr(c, Z3_mk_fpa_rtz(c)), a);
                    break;
                case OP_FROUND:
                    r = Z3_mk_fpa_round_to_integral(
                        c, expr(c, Z3_mk_fpa_rna(c)), a);
                    break;
                case OP_FRINT: r = Z3_mk_fpa_round_to_integral(c, rm, a); break;
                default: break;
            }
            if (r)
            {
                expr f(c, r);
                return expr(c, Z3_mk_fpa_to_ieee_bv(c, f));
            }
        }
        return c.bv_const(("u" + std::to_string(id)).c_str(), 64);
    }
    fprintf(stderr, "lower op %u\n", n.op);
    abort();
}

// ------------------------------------------------------------------ lemmas
template <class T>
void fpLemmas(unsigned op, const LemmaKit<T, expr>& F, const T& a, const T& b,
              const T& r, const std::function<void(const expr&)>& add)
{
    expr na = F.isnan(a), nb = F.isnan(b), nr = F.isnan(r);
    expr ia = F.isinf(a), ib = F.isinf(b), ir = F.isinf(r);
    expr za = F.iszero(a), zb = F.iszero(b), zr = F.iszero(r);
    expr sa = F.neg(a), sb = F.neg(b), sr = F.neg(r);
    if (op == OP_FADD)
    {
        add(nr == (na || nb || (ia && ib && (sa != sb))));
        // r >= a iff b >= 0 direction, both ways
        add(z3::implies(!nr && !ia && !ib && !sb, F.le(a, r)));
        add(z3::implies(!nr && !ia && !ib && (sb || zb), F.le(r, a)));
        add(z3::implies(!nr && !ia && !ib && !sa, F.le(b, r)));
        add(z3::implies(!nr && !ia && !ib && (sa || za), F.le(r, b)));
        add(z3::implies(!nr && ia, F.eq(r, a)));
        add(z3::implies(!nr && ib, F.eq(r, b)));
        // sign of the sum
        T mb = F.flip(b);
        add(z3::implies(!nr && !ia && !ib, F.eq(a, mb) == zr));
        add(z3::implies(!nr && !ia && !ib, F.lt(a, mb) == (sr && !zr)));
        add(z3::implies(za && !nb, F.eq(r, b)));
        add(z3::implies(zb && !na, F.eq(r, a)));
    }
    else if (op == OP_FMUL)
    {
        add(nr == (na || nb || (ia && zb) || (za && ib)));
        add(z3::implies(!nr, sr == (sa != sb)));
        add(z3::implies(!nr && (za || zb), zr));
        add(z3::implies(!nr && (ia || ib), ir));
        add(z3::implies(!nr && F.eq(a, F.one), F.eq(r, b)));
        add(z3::implies(!nr && F.eq(b, F.one), F.eq(r, a)));
        T fa = F.fabs_(a), fb = F.fabs_(b), fr = F.fabs_(r);
        add(z3::implies(!nr && F.le(fa, F.one), F.le(fr, fb)));
        add(z3::implies(!nr && F.le(fb, F.one), F.le(fr, fa)));
        add(z3::implies(!nr && F.le(F.one, fa), F.le(fb, fr)));
        add(z3::implies(!nr && F.le(F.one, fb), F.le(fa, fr)));
    }
    else if (op == OP_FDIV)
    {
        add(nr == (na || nb || (ia && ib) || (za && zb)));
        add(z3::implies(!nr, sr == (sa != sb)));
        add(z3::implies(!nr && za, zr));
        add(z3::implies(!nr && ib, zr));
        add(z3::implies(!nr && (ia || zb), ir));
        add(z3::implies(!nr && F.eq(b, F.one), F.eq(r, a)));
        T fa = F.fabs_(a), fb = F.fabs_(b), fr = F.fabs_(r);
        add(z3::implies(!nr && F.le(F.one, fb), F.le(fr, fa)));
        add(z3::implies(!nr && F.le(fb, F.one), F.le(fa, fr)));
        add(z3::implies(!nr && F.le(fa, fb), F.le(fr, F.one)));
        add(z3::implies(!nr && F.le(fb, fa), F.le(F.one, fr)));
    }
    else if (op == OP_FREM)
    {
        T fa = F.fabs_(a), fr = F.fabs_(r), fb = F.fabs_(b);
        add(nr == (na || nb || ia || zb));
        add(z3::implies(!nr, F.le(fr, fa) && !ir && sr == sa));
        add(z3::implies(!nr && !ib, F.lt(fr, fb)));
    }
    else if (op == OP_FLOOR || op == OP_FTRUNC || op == OP_FCEIL ||
             op == OP_FROUND || op == OP_FRINT)
    {
        add(nr == na);
        add(z3::implies(!nr, (ia == ir)));
        if (op == OP_FLOOR)
            add(z3::implies(!nr, F.le(r, a)));
        if (op == OP_FCEIL)
            add(z3::implies(!nr, F.le(a, r)));
        if (op == OP_FTRUNC)
            add(z3::implies(!nr, F.le(F.fabs_(r), F.fabs_(a))));
        add(z3::implies(!nr, sr == sa || zr));
        add(z3::implies(!nr && za, zr));
    }
    else if (op == OP_FSQRT)
    {
        add(nr == (na || (sa && !za)));
        add(z3::implies(!nr, !sr || zr));
        add(z3::implies(!nr, za == zr));
    }
    else if (op == OP_FEXP)
    {
        add(nr == na);
        add(z3::implies(!nr, !sr));
    }
}
template <class T>
void fpPairLemmas(unsigned op, const LemmaKit<T, expr>& F, const T& a1, const T& b1,
                  const T& r1, const T& a2, const T& b2, const T& r2,
                  const std::function<void(const expr&)>& add)
{
    expr ok = !F.isnan(r1) && !F.isnan(r2);
    if (op == OP_FADD)
    {
        add(z3::implies(ok && F.le(a1, a2) && F.le(b1, b2), F.le(r1, r2)));
        add(z3::implies(ok && F.le(a2, a1) && F.le(b2, b1), F.le(r2, r1)));
        add(z3::implies(ok && F.le(a1, b2) && F.le(b1, a2), F.le(r1, r2)));
        add(z3::implies(ok && F.le(b2, a1) && F.le(a2, b1), F.le(r2, r1)));
    }
    else if (op == OP_FMUL)
    {
        auto mono = [&](const T& x1, const T& y1, const T& x2, const T& y2) {
            T A1 = F.fabs_(x1), B1 = F.fabs_(y1), A2 = F.fabs_(x2),
                 B2 = F.fabs_(y2);
            add(z3::implies(ok && F.le(A1, A2) && F.le(B1, B2),
                            F.le(F.fabs_(r1), F.fabs_(r2))));
            add(z3::implies(ok && F.le(A2, A1) && F.le(B2, B1),
                            F.le(F.fabs_(r2), F.fabs_(r1))));
        };
        mono(a1, b1, a2, b2);
        mono(a1, b1, b2, a2);
    }
    else if (op == OP_FDIV)
    {
        T A1 = F.fabs_(a1), B1 = F.fabs_(b1), A2 = F.fabs_(a2),
             B2 = F.fabs_(b2);
        add(z3::implies(ok && F.le(A1, A2) && F.le(B2, B1),
                        F.le(F.fabs_(r1), F.fabs_(r2))));
        add(z3::implies(ok && F.le(A2, A1) && F.le(B1, B2),
                        F.le(F.fabs_(r2), F.fabs_(r1))));
    }
    else if (op == OP_FLOOR || op == OP_FCEIL || op == OP_FTRUNC ||
             op == OP_FROUND || op == OP_FRINT || op == OP_FSQRT ||
             op == OP_FEXP || op == OP_FLOG)
    {
        add(z3::implies(ok && F.le(a1, a2), F.le(r1, r2)));
        add(z3::implies(ok && F.le(a2, a1), F.le(r2, r1)));
    }
}


template void fpLemmas<expr>(unsigned, const LemmaKit<expr, expr>&, const expr&,
                             const expr&, const expr&,
                             const std::function<void(const expr&)>&);
template void fpPairLemmas<expr>(unsigned, const LemmaKit<expr, expr>&,
                                 const expr&, const expr&, const expr&,
                                 const expr&, const expr&, const expr&,
                                 const std::function<void(const expr&)>&);

LemmaKit<expr, expr> Lowering::kit()
{
    return {[&](const expr& x) { return isnan(x); },
            [&](const expr& x) { return isinf(x); },
            [&](const expr& x) { return iszero(x); },
            [&](const expr& x) { return neg(x); },
            [&](const expr& x) { return flip(x); },
            [&](const expr& x) { return fabs_(x); },
            [&](const expr& x, const expr& y) { return le(x, y); },
            [&](const expr& x, const expr& y) { return lt(x, y); },
            [&](const expr& x, const expr& y) { return eq(x, y); },
            k(asU(1.0), 64)};
}
static bool shares(const Node& m, const Node& n)
{
    return m.a == n.a || (m.b && (m.b == n.b || m.b == n.a)) || m.a == n.b;
}
void Lowering::lemmas(const std::vector<u32>& ops,
                      const std::function<void(const expr&)>& add)
{
    if (exact >= 2)
    {
        // only operations without an exact encoding stay abstract
    }
    auto F = kit();
    std::map<unsigned, std::vector<u32>> by;
    for (u32 id : ops)
    {
        const Node n = N[id];
        if (!isFpArith(n.op))
            continue;
        if (exact >= 2 && n.op != OP_FPOW && n.op != OP_FEXP &&
            n.op != OP_FLOG && n.op != OP_FREM)
            continue;
        if (exact == 1 && n.op == OP_FADD)
            continue;
        expr r = bv(id), a = bv(n.a), b = n.b ? bv(n.b) : a;
        fpLemmas(n.op, F, a, b, r, add);
        if (interval)
        {
            Iv iv = interval(id);
            expr nn = isnan(r);
            if (!iv.nan)
                add(!nn);
            if (iv.lo > -std::numeric_limits<double>::infinity())
                add(nn || z3::sle(key(k(asU(iv.lo), 64)), key(r)));
            if (iv.hi < std::numeric_limits<double>::infinity())
                add(nn || z3::sle(key(r), key(k(asU(iv.hi), 64))));
        }
        auto& l = by[n.op];
        bool all = l.size() < 6;
        for (u32 o : l)
        {
            const Node m = N[o];
            expr a2 = bv(m.a), b2 = m.b ? bv(m.b) : a2, r2 = bv(o);
            if (n.b)
            {
                add(z3::implies(a == a2 && b == b2, r == r2));
                if (n.op == OP_FADD || n.op == OP_FMUL)
                    add(z3::implies(a == b2 && b == a2, r == r2));
            }
            else
                add(z3::implies(a == a2, r == r2));
            if (all || shares(m, n))
                fpPairLemmas(n.op, F, a, b, r, a2, b2, r2, add);
        }
        l.push_back(id);
    }
}

// ---------------------------------------------------------------- order
static std::string pow2dec(int e)
{
    // decimal string of 2^e, e >= 0
    static std::map<int, std::string> m;
    auto it = m.find(e);
    if (it != m.end())
        return it->second;
    std::vector<int> d{1};
    for (int i = 0; i < e; i++)
    {
        int c = 0;
        for (auto& x : d)
        {
            int v = x * 2 + c;
            x = v % 10;
            c = v / 10;
        }
        if (c)
            d.push_back(c);
    }
    std::string s;
    for (size_t i = d.size(); i-- > 0;)
        s += char('0' + d[i]);
    return m[e] = s;
}
OrderLowering::OrderLowering(z3::context& cc) :
    c(cc), BIG(cc.real_val(pow2dec(1024).c_str())), MAXV(cc.bool_val(true))
{
    MAXV = real(std::numeric_limits<double>::max());
}
expr OrderLowering::real(double d)
{
    if (d == 0)
        return c.real_val(0);
    if (d == std::numeric_limits<double>::infinity())
        return BIG;
    if (d == -std::numeric_limits<double>::infinity())
        return -BIG;
    int e;
    double m = std::frexp(d, &e); // d = m * 2^e
    int64_t mi = (int64_t)std::ldexp(m, 53);
    e -= 53;
    while (mi % 2 == 0)
    {
        mi /= 2;
        e++;
    }
    if (e == 0)
        return c.real_val((int64_t)mi);
    if (e > 0)
    {
        expr r = c.real_val((int64_t)mi) * c.real_val(pow2dec(e).c_str());
        return r.simplify();
    }
    std::string s = std::to_string(mi) + "/" + pow2dec(-e);
    return c.real_val(s.c_str());
}
expr OrderLowering::bo(u32 id) { return raw(id); }
expr OrderLowering::raw(u32 id)
{
    if (memo.size() < N.size())
        memo.resize(N.size() + 256, nullptr);
    if (memo[id])
        return expr(c, memo[id]);
    expr e = build(id);
    if (memo.size() < N.size())
        memo.resize(N.size() + 256, nullptr);
    memo[id] = e;
    Z3_inc_ref(c, e);
    return e;
}
expr OrderLowering::build(u32 id)
{
    const Node n = N[id];
    unsigned w = n.w;
    auto k = [&](u64 v, unsigned ww) { return c.bv_val((uint64_t)v, ww); };
    auto bv = [&](u32 x) {
        expr e = raw(x);
        return N[x].w == 1 ? z3::ite(e, k(1, 1), k(0, 1)) : e;
    };
    switch (n.op)
    {
        case OP_CONST: return w == 1 ? c.bool_val(n.val & 1) : k(n.val, w);
        case OP_VAR:
        {
            if (vars[n.aux].fp)
                throw Unsupported();
            std::string nm = "v" + std::to_string(n.aux);
            return w == 1 ? c.bool_const(nm.c_str()) : c.bv_const(nm.c_str(), w);
        }
        case OP_ADD: return bv(n.a) + bv(n.b);
        case OP_SUB: return bv(n.a) - bv(n.b);
        case OP_MUL: return bv(n.a) * bv(n.b);
        case OP_UDIV: return z3::udiv(bv(n.a), bv(n.b));
        case OP_SDIV: return bv(n.a) / bv(n.b);
        case OP_UREM: return z3::urem(bv(n.a), bv(n.b));
        case OP_SREM: return z3::srem(bv(n.a), bv(n.b));
        case OP_AND:
            return w == 1 ? (raw(n.a) && raw(n.b)) : (bv(n.a) & bv(n.b));
        case OP_OR:
            return w == 1 ? (raw(n.a) || raw(n.b)) : (bv(n.a) | bv(n.b));
        case OP_XOR:
            if (w == 1)
            {
                if (isC(n.b))
                    return cval(n.b) ? !raw(n.a) : raw(n.a);
                return raw(n.a) != raw(n.b);
            }
            return bv(n.a) ^ bv(n.b);
        case OP_SHL: return z3::shl(bv(n.a), bv(n.b));
        case OP_LSHR: return z3::lshr(bv(n.a), bv(n.b));
        case OP_ASHR: return z3::ashr(bv(n.a), bv(n.b));
        case OP_ZEXT: return z3::zext(bv(n.a), w - N[n.a].w);
        case OP_SEXT: return z3::sext(bv(n.a), w - N[n.a].w);
        case OP_EXTRACT:
        {
            expr e = bv(n.a).extract(n.aux + w - 1, n.aux);
            return w == 1 ? (e == k(1, 1)) : e;
        }
        case OP_CONCAT: return z3::concat(bv(n.a), bv(n.b));
        case OP_ITE: return z3::ite(raw(n.a), raw(n.b), raw(n.c));
        case OP_EQ: return raw(n.a) == raw(n.b);
        case OP_ULT: return z3::ult(bv(n.a), bv(n.b));
        case OP_ULE: return z3::ule(bv(n.a), bv(n.b));
        case OP_SLT: return z3::slt(bv(n.a), bv(n.b));
        case OP_SLE: return z3::sle(bv(n.a), bv(n.b));
        case OP_FEQ:
        {
            RV a = fp(n.a), b = fp(n.b);
            return !a.nan && !b.nan && a.v == b.v;
        }
        case OP_FLT:
        {
            RV a = fp(n.a), b = fp(n.b);
            return !a.nan && !b.nan && a.v < b.v;
        }
        case OP_FLE:
        {
            RV a = fp(n.a), b = fp(n.b);
            return !a.nan && !b.nan && a.v <= b.v;
        }
        case OP_FNAN: return fp(n.a).nan;
        default: throw Unsupported();
    }
}
RV OrderLowering::fp(u32 id)
{
    auto it = fmemo.find(id);
    if (it != fmemo.end())
        return it->second;
    const Node n = N[id];
    auto put = [&](RV r) {
        fmemo.emplace(id, r);
        return r;
    };
    expr F = c.bool_val(false);
    switch (n.op)
    {
        case OP_CONST:
        {
            double d = asD(n.val);
            if (d != d)
                return put({c.bool_val(true), c.real_val(0)});
            return put({F, real(d)});
        }
        case OP_ITE:
        {
            expr s = raw(n.a);
            RV a = fp(n.b), b = fp(n.c);
            return put({z3::ite(s, a.nan, b.nan), z3::ite(s, a.v, b.v)});
        }
        case OP_XOR:
            if (isC(n.b) && cval(n.b) == 0x8000000000000000ull)
            {
                RV a = fp(n.a);
                return put({a.nan, -a.v});
            }
            throw Unsupported();
        case OP_AND:
            if (isC(n.b) && cval(n.b) == ABSM)
            {
                RV a = fp(n.a);
                return put({a.nan, z3::ite(a.v < 0, -a.v, a.v)});
            }
            throw Unsupported();
        case OP_VAR:
            if (!vars[n.aux].fp)
                throw Unsupported();
            break;
        default:
            if (!isFpArith(n.op))
                throw Unsupported();
            // make sure operands are expressible
            fp(n.a);
            if (n.b)
                fp(n.b);
    }
    std::string nm = (n.op == OP_VAR ? "v" + std::to_string(n.aux)
                                     : "u" + std::to_string(id));
    bool maybeNan = !(n.op == OP_VAR && !(vars[n.aux].special & 1));
    expr v = c.real_const(nm.c_str());
    expr nn = maybeNan ? c.bool_const((nm + "n").c_str()) : F;
    return put({nn, v});
}
LemmaKit<RV, expr> OrderLowering::kit()
{
    auto T = [&](bool b) { return c.bool_val(b); };
    (void)T;
    // -0 and +0 are not distinguished: neg() of a zero is unknown, so lemmas
    // that speak about the sign are only used through helper predicates below
    return {[](const RV& x) { return x.nan; },
            [this](const RV& x) { return x.v == BIG || x.v == -BIG; },
            [](const RV& x) { return x.v == 0; },
            [](const RV& x) { return x.v < 0; },
            [](const RV& x) { return RV{x.nan, -x.v}; },
            [](const RV& x) { return RV{x.nan, z3::ite(x.v < 0, -x.v, x.v)}; },
            [](const RV& x, const RV& y) {
                return !x.nan && !y.nan && x.v <= y.v;
            },
            [](const RV& x, const RV& y) {
                return !x.nan && !y.nan && x.v < y.v;
            },
            [](const RV& x, const RV& y) {
                return !x.nan && !y.nan && x.v == y.v;
            },
            RV{c.bool_val(false), c.real_val(1)}};
}
// order-abstraction lemmas: as fpLemmas, but written directly over (nan, v)
// because the sign of zero is not represented
static void orderLemmas(OrderLowering& L, unsigned op, const RV& a, const RV& b,
                        const RV& r, bool ca, bool cb,
                        const std::function<void(const expr&)>& add)
{
    z3::context& c = L.c;
    expr BIG = L.BIG;
    expr nr = r.nan, ok = !r.nan;
    auto inf = [&](const RV& x) { return x.v == BIG || x.v == -BIG; };
    auto ab = [&](const RV& x) { return z3::ite(x.v < 0, -x.v, x.v); };
    expr ia = inf(a), ib = inf(b), ir = inf(r);
    expr za = a.v == 0, zb = b.v == 0, zr = r.v == 0;
    expr one = c.real_val(1);
    static const std::string den = pow2dec(53), tiny = pow2dec(1074);
    expr up = c.real_val(("9007199254740993/" + den).c_str()); // 1 + 2^-53
    expr dn = c.real_val(("9007199254740991/" + den).c_str()); // 1 - 2^-53
    auto rel = [&](const expr& pre, const expr& s, bool denormal) {
        // r = round(s)
        expr eps = denormal ? c.real_val(("1/" + tiny).c_str()) : c.real_val(0);
        expr fin = pre && ok && !ir;
        add(z3::implies(fin && s >= 0, r.v <= s * up + eps && r.v >= s * dn - eps));
        add(z3::implies(fin && s < 0, r.v >= s * up - eps && r.v <= s * dn + eps));
    };
    switch (op)
    {
        case OP_FADD:
        {
            expr fin = ok && !ia && !ib;
            add(nr == (a.nan || b.nan || (ia && ib && a.v != b.v)));
            add(z3::implies(fin && b.v >= 0, a.v <= r.v));
            add(z3::implies(fin && b.v <= 0, r.v <= a.v));
            add(z3::implies(fin && a.v >= 0, b.v <= r.v));
            add(z3::implies(fin && a.v <= 0, r.v <= b.v));
            add(z3::implies(ok && ia, r.v == a.v));
            add(z3::implies(ok && ib, r.v == b.v));
            add(z3::implies(fin, (a.v + b.v == 0) == zr));
            add(z3::implies(fin, (a.v + b.v < 0) == (r.v < 0)));
            rel(!ia && !ib, a.v + b.v, false);
            add(z3::implies(fin && a.v + b.v <= L.MAXV && a.v + b.v >= -L.MAXV,
                            !ir));
            break;
        }
        case OP_FMUL:
        {
            add(nr == (a.nan || b.nan || (ia && zb) || (za && ib)));
            add(z3::implies(ok && (za || zb), zr));
            // sign: a nonzero product never has the wrong sign
            add(z3::implies(ok && ((a.v >= 0 && b.v >= 0) ||
                                   (a.v <= 0 && b.v <= 0)),
                            r.v >= 0));
            add(z3::implies(ok && ((a.v >= 0 && b.v <= 0) ||
                                   (a.v <= 0 && b.v >= 0)),
                            r.v <= 0));
            add(z3::implies(ok && (ia || ib), ir));
            add(z3::implies(ok && a.v == 1, r.v == b.v));
            add(z3::implies(ok && b.v == 1, r.v == a.v));
            expr fa = ab(a), fb = ab(b), fr = ab(r);
            add(z3::implies(ok && fa <= one, fr <= fb));
            add(z3::implies(ok && fb <= one, fr <= fa));
            add(z3::implies(ok && fa >= one, fb <= fr));
            add(z3::implies(ok && fb >= one, fa <= fr));
            if (ca || cb)
                rel(!ia && !ib, a.v * b.v, true);
            break;
        }
        case OP_FDIV:
        {
            add(nr == (a.nan || b.nan || (ia && ib) || (za && zb)));
            add(z3::implies(ok && za, zr));
            add(z3::implies(ok && ib, zr));
            add(z3::implies(ok && (ia || zb), ir));
            add(z3::implies(ok && !zb && ((a.v >= 0 && b.v > 0) ||
                                          (a.v <= 0 && b.v < 0)),
                            r.v >= 0));
            add(z3::implies(ok && !zb && ((a.v >= 0 && b.v < 0) ||
                                          (a.v <= 0 && b.v > 0)),
                            r.v <= 0));
            add(z3::implies(ok && b.v == 1, r.v == a.v));
            expr fa = ab(a), fb = ab(b), fr = ab(r);
            add(z3::implies(ok && fb >= one, fr <= fa));
            add(z3::implies(ok && fb <= one, fa <= fr));
            add(z3::implies(ok && fa <= fb, fr <= one));
            add(z3::implies(ok && fb <= fa, one <= fr));
            if (cb)
                rel(!ia && !ib && !zb, a.v / b.v, true);
            break;
        }
        case OP_FREM:
        {
            add(nr == (a.nan || b.nan || ia || zb));
            add(z3::implies(ok, ab(r) <= ab(a) && !ir));
            add(z3::implies(ok && a.v >= 0, r.v >= 0));
            add(z3::implies(ok && a.v <= 0, r.v <= 0));
            add(z3::implies(ok && !ib, ab(r) < ab(b)));
            break;
        }
        case OP_FLOOR:
        case OP_FTRUNC:
        case OP_FCEIL:
        case OP_FROUND:
        case OP_FRINT:
            add(nr == a.nan);
            add(z3::implies(ok, ia == ir));
            if (op == OP_FLOOR)
                add(z3::implies(ok && !ia, r.v <= a.v && r.v > a.v - one));
            if (op == OP_FCEIL)
                add(z3::implies(ok && !ia, r.v >= a.v && r.v < a.v + one));
            if (op == OP_FTRUNC)
                add(z3::implies(ok, ab(r) <= ab(a)));
            if (op == OP_FROUND || op == OP_FRINT)
                add(z3::implies(ok && !ia, 2 * (r.v - a.v) <= one &&
                                               2 * (a.v - r.v) <= one));
            add(z3::implies(ok && a.v >= 0, r.v >= 0));
            add(z3::implies(ok && a.v <= 0, r.v <= 0));
            add(z3::implies(ok && ia, r.v == a.v));
            break;
        case OP_FSQRT:
            add(nr == (a.nan || a.v < 0));
            add(z3::implies(ok, r.v >= 0));
            add(z3::implies(ok, za == zr));
            break;
        case OP_FEXP:
            add(nr == a.nan);
            add(z3::implies(ok, r.v >= 0));
            break;
        default: break;
    }
}
static void orderPair(OrderLowering& L, unsigned op, const RV& a1, const RV& b1,
                      const RV& r1, const RV& a2, const RV& b2, const RV& r2,
                      const std::function<void(const expr&)>& add)
{
    expr ok = !r1.nan && !r2.nan;
    auto ab = [&](const RV& x) { return z3::ite(x.v < 0, -x.v, x.v); };
    switch (op)
    {
        case OP_FADD:
            add(z3::implies(ok && a1.v <= a2.v && b1.v <= b2.v, r1.v <= r2.v));
            add(z3::implies(ok && a2.v <= a1.v && b2.v <= b1.v, r2.v <= r1.v));
            add(z3::implies(ok && a1.v <= b2.v && b1.v <= a2.v, r1.v <= r2.v));
            add(z3::implies(ok && b2.v <= a1.v && a2.v <= b1.v, r2.v <= r1.v));
            // stronger: the rounded sum is a monotone function of the sum
            add(z3::implies(ok && !(a1.v == L.BIG || a1.v == -L.BIG ||
                                    b1.v == L.BIG || b1.v == -L.BIG ||
                                    a2.v == L.BIG || a2.v == -L.BIG ||
                                    b2.v == L.BIG || b2.v == -L.BIG) &&
                                a1.v + b1.v <= a2.v + b2.v,
                            r1.v <= r2.v));
            add(z3::implies(ok && !(a1.v == L.BIG || a1.v == -L.BIG ||
                                    b1.v == L.BIG || b1.v == -L.BIG ||
                                    a2.v == L.BIG || a2.v == -L.BIG ||
                                    b2.v == L.BIG || b2.v == -L.BIG) &&
                                a1.v + b1.v >= a2.v + b2.v,
                            r1.v >= r2.v));
            break;
        case OP_FMUL:
        {
            auto mono = [&](const RV& x1, const RV& y1, const RV& x2,
                            const RV& y2) {
                add(z3::implies(ok && ab(x1) <= ab(x2) && ab(y1) <= ab(y2),
                                ab(r1) <= ab(r2)));
                add(z3::implies(ok && ab(x2) <= ab(x1) && ab(y2) <= ab(y1),
                                ab(r2) <= ab(r1)));
            };
            mono(a1, b1, a2, b2);
            mono(a1, b1, b2, a2);
            break;
        }
        case OP_FDIV:
            add(z3::implies(ok && ab(a1) <= ab(a2) && ab(b2) <= ab(b1),
                            ab(r1) <= ab(r2)));
            add(z3::implies(ok && ab(a2) <= ab(a1) && ab(b1) <= ab(b2),
                            ab(r2) <= ab(r1)));
            break;
        case OP_FLOOR:
        case OP_FCEIL:
        case OP_FTRUNC:
        case OP_FROUND:
        case OP_FRINT:
        case OP_FSQRT:
            add(z3::implies(ok && a1.v <= a2.v, r1.v <= r2.v));
            add(z3::implies(ok && a2.v <= a1.v, r2.v <= r1.v));
            break;
        default: break;
    }
}
void OrderLowering::lemmas(const std::vector<u32>& nodes,
                           const std::function<void(const expr&)>& add,
                           int level)
{
    std::map<unsigned, std::vector<u32>> by;
    const double INF = std::numeric_limits<double>::infinity();
    for (u32 id : nodes)
    {
        const Node n = N[id];
        bool var = n.op == OP_VAR && vars[n.aux].fp;
        if (!var && !isFpArith(n.op))
            continue;
        RV r = fp(id);
        Iv iv = interval ? interval(id) : Iv{-INF, INF, true};
        if (!iv.nan && !var)
            add(!r.nan);
        if (iv.lo > iv.hi)
            iv.lo = -INF, iv.hi = INF;
        // every double is finite and within +-MAX, or +-inf (= +-BIG)
        if (iv.lo > -INF)
            add(r.nan || r.v >= real(iv.lo));
        if (iv.hi < INF)
            add(r.nan || r.v <= real(iv.hi));
        if (iv.lo == -INF || iv.hi == INF)
            add((r.v >= -MAXV && r.v <= MAXV) || r.v == BIG || r.v == -BIG);
        if (var || level < 1)
            continue;
        RV a = fp(n.a), b = n.b ? fp(n.b) : a;
        orderLemmas(*this, n.op, a, b, r, isC(n.a), n.b && isC(n.b), add);
        if (level < 2)
            continue;
        auto& l = by[n.op];
        bool all = l.size() < 6;
        for (u32 o : l)
        {
            const Node m = N[o];
            RV a2 = fp(m.a), b2 = m.b ? fp(m.b) : a2, r2 = fp(o);
            // congruence up to the sign of zero is only valid for operations
            // whose value does not depend on it; division by zero does
            expr same = n.b ? (a.v == a2.v && b.v == b2.v) : (a.v == a2.v);
            if (n.op == OP_FDIV)
                same = same && b.v != 0;
            add(z3::implies(!r.nan && !r2.nan && same, r.v == r2.v));
            if (n.op == OP_FADD || n.op == OP_FMUL)
                add(z3::implies(!r.nan && !r2.nan && a.v == b2.v && b.v == a2.v,
                                r.v == r2.v));
            if (all || shares(m, n))
                orderPair(*this, n.op, a, b, r, a2, b2, r2, add);
        }
        l.push_back(id);
    }
}
