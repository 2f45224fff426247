#include <iostream>
// Runtime of the symbolic executor: shadow memory, path exploration by fork(),
// solver queries.  See DESIGN.md.
#include "lower.hpp"
#include "sym.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cinttypes>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C" {
u32 __sym_arg[96];
u32 __sym_ret[32];
void* __sym_callee;
void* __sym_byval[96];
extern const char __sym_fn_names[];
extern const u32 __sym_fn_count;
}

// ------------------------------------------------------------- shared state
struct Shared
{
    std::atomic<u64> paths, pathsValidated, pathsPruned, branches, forks,
        queries, qSat, qUnsat, qUnknown, cacheHits, solverUs, obligations,
        discharged, trivial, violations, inconclusive, ladder, ladderProved,
        lemmas, samplesWritten, maxDepth, crashed, vioSeq, unsupported,
        symVars, killed, searchHits;
    std::atomic<int> stop;
    sem_t tokens;
    sem_t ladderSem;
    std::atomic<u64> labelHash[128];
    char fnHit[1];
};
static Shared* SH;
static size_t shSize;
static int resFd = -1;
static double tStart;
static double timeLimit = 600, ladderLimitS = 60;
static unsigned rlimitQ = 0;
static int maxVio = 6, sampleCap = 40, maxConc = 64;
static u64 seed = 1;
static const char* dumpDir = nullptr;
static double pathCpuLimit = 60;
static double slowLog = 0;

static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static void emit(const std::string& s)
{
    std::string l = s + "\n";
    ssize_t r = write(resFd, l.data(), l.size());
    (void)r;
}
static std::string jesc(const std::string& s)
{
    std::string o;
    for (char ch : s)
    {
        if (ch == '"' || ch == '\\')
        {
            o += '\\';
            o += ch;
        }
        else if ((unsigned char)ch < 32)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        }
        else
            o += ch;
    }
    return o;
}

// ------------------------------------------------------------- path state
static std::vector<u32> PC;
static std::unordered_set<u32> PCset;
static std::vector<Model> models; // natively validated models of PC
static Evaluator ev;
static std::map<std::string, int> occ;
static bool ownToken = false;
static std::vector<pid_t> kids;
static unsigned depth = 0;
static std::vector<std::pair<std::string, u32>> observations; // name -> expr
static std::vector<std::string> reached;
static std::map<u32, u64> pinned;
static bool inRuntime = false;
static u64 rngState;
static u64 rnd()
{
    rngState ^= rngState << 13;
    rngState ^= rngState >> 7;
    rngState ^= rngState << 17;
    return rngState;
}

// ------------------------------------------------------------- intervals
static std::map<u32, Iv> refine;
static std::unordered_map<u32, Iv> ivMemo;
static const double INF = std::numeric_limits<double>::infinity();

struct IIv
{
    __int128 lo, hi;
};
static IIv intIv(u32 id, bool sg, int d = 0)
{
    const Node n = N[id];
    IIv full;
    if (sg)
        full = {-((__int128)1 << (n.w - 1)), ((__int128)1 << (n.w - 1)) - 1};
    else
        full = {0, ((__int128)1 << n.w) - 1};
    if (d > 20)
        return full;
    auto clip = [&](IIv r) {
        if (r.lo < full.lo || r.hi > full.hi)
            return full;
        return r;
    };
    switch (n.op)
    {
        case OP_CONST:
        {
            __int128 v = sg ? (__int128)sx(n.val, n.w) : (__int128)n.val;
            return {v, v};
        }
        case OP_VAR:
        {
            const VarInfo& v = vars[n.aux];
            if (v.fp)
                return full;
            if (v.isSigned == sg || (v.lo >= 0 && v.hi >= 0))
                return clip({v.lo, v.hi});
            return full;
        }
        case OP_ZEXT: return clip(intIv(n.a, false, d + 1));
        case OP_SEXT:
            if (sg)
                return clip(intIv(n.a, true, d + 1));
            return full;
        case OP_EXTRACT:
            if (n.aux == 0)
            {
                IIv i = intIv(n.a, sg, d + 1);
                return clip(i);
            }
            return full;
        case OP_ITE:
        {
            IIv x = intIv(n.b, sg, d + 1), y = intIv(n.c, sg, d + 1);
            return {std::min(x.lo, y.lo), std::max(x.hi, y.hi)};
        }
        case OP_ADD:
        {
            IIv x = intIv(n.a, sg, d + 1), y = intIv(n.b, sg, d + 1);
            return clip({x.lo + y.lo, x.hi + y.hi});
        }
        case OP_SUB:
        {
            IIv x = intIv(n.a, sg, d + 1), y = intIv(n.b, sg, d + 1);
            return clip({x.lo - y.hi, x.hi - y.lo});
        }
        default: return full;
    }
}

static Iv fpIv(u32 id)
{
    auto it = ivMemo.find(id);
    if (it != ivMemo.end())
        return it->second;
    const Node n = N[id];
    Iv r{-INF, INF, true};
    auto corner4 = [&](Iv a, Iv b, double (*f)(double, double)) {
        double v[4] = {f(a.lo, b.lo), f(a.lo, b.hi), f(a.hi, b.lo),
                       f(a.hi, b.hi)};
        Iv o{INF, -INF, false};
        for (double x : v)
        {
            if (x != x)
                return Iv{-INF, INF, true};
            o.lo = std::min(o.lo, x);
            o.hi = std::max(o.hi, x);
        }
        return o;
    };
    switch (n.op)
    {
        case OP_CONST:
        {
            double d = asD(n.val);
            if (d != d)
                r = {INF, -INF, true};
            else
                r = {d, d, false};
            break;
        }
        case OP_VAR:
        {
            const VarInfo& v = vars[n.aux];
            if (v.fp)
            {
                r = {v.dlo, v.dhi, (v.special & 1) != 0};
                if (v.special & 2)
                    r.lo = -INF, r.hi = INF;
            }
            break;
        }
        case OP_ITE:
        {
            Iv a = fpIv(n.b), b = fpIv(n.c);
            r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi), a.nan || b.nan};
            break;
        }
        case OP_XOR:
            if (isC(n.b) && cval(n.b) == 0x8000000000000000ull)
            {
                Iv a = fpIv(n.a);
                r = {-a.hi, -a.lo, a.nan};
            }
            break;
        case OP_AND:
            if (isC(n.b) && cval(n.b) == 0x7fffffffffffffffull)
            {
                Iv a = fpIv(n.a);
                if (a.lo > a.hi)
                    r = a;
                else if (a.lo >= 0)
                    r = a;
                else if (a.hi <= 0)
                    r = {-a.hi, -a.lo, a.nan};
                else
                    r = {0, std::max(-a.lo, a.hi), a.nan};
            }
            break;
        case OP_FADD:
        {
            Iv a = fpIv(n.a), b = fpIv(n.b);
            if (a.lo > a.hi || b.lo > b.hi)
                break;
            bool infa = a.lo == -INF || a.hi == INF,
                 infb = b.lo == -INF || b.hi == INF;
            r.nan = a.nan || b.nan || (infa && infb);
            r.lo = a.lo + b.lo;
            r.hi = a.hi + b.hi;
            if (r.lo != r.lo)
                r.lo = -INF;
            if (r.hi != r.hi)
                r.hi = INF;
            break;
        }
        case OP_FMUL:
        {
            Iv a = fpIv(n.a), b = fpIv(n.b);
            if (a.lo > a.hi || b.lo > b.hi)
                break;
            r = corner4(a, b, [](double x, double y) { return x * y; });
            if (n.a == n.b && !r.nan)
                r.lo = std::max(r.lo, 0.0);
            r.nan = r.nan || a.nan || b.nan;
            break;
        }
        case OP_FDIV:
        {
            Iv a = fpIv(n.a), b = fpIv(n.b);
            if (a.lo > a.hi || b.lo > b.hi)
                break;
            if (b.lo > 0 || b.hi < 0)
            {
                r = corner4(a, b, [](double x, double y) { return x / y; });
                r.nan = r.nan || a.nan || b.nan;
            }
            break;
        }
        case OP_FLOOR:
        case OP_FCEIL:
        case OP_FTRUNC:
        case OP_FROUND:
        case OP_FRINT:
        case OP_FSQRT:
        case OP_FEXP:
        {
            Iv a = fpIv(n.a);
            if (a.lo > a.hi)
                break;
            if (n.op == OP_FSQRT && a.lo < 0)
            {
                r = {-0.0, std::sqrt(std::max(0.0, a.hi)), true};
                break;
            }
            r.nan = a.nan;
            r.lo = asD(evalOp(n.op, 64, 64, 0, asU(a.lo), 0, 0));
            r.hi = asD(evalOp(n.op, 64, 64, 0, asU(a.hi), 0, 0));
            if (n.op == OP_FEXP) // libm is not guaranteed monotone
            {
                r.lo = 0;
                r.hi = INF;
            }
            break;
        }
        case OP_SITOFP:
        case OP_UITOFP:
        {
            IIv i = intIv(n.a, n.op == OP_SITOFP);
            r = {(double)(i.lo), (double)(i.hi), false};
            break;
        }
        default: break;
    }
    auto rf = refine.find(id);
    if (rf != refine.end())
    {
        r.lo = std::max(r.lo, rf->second.lo);
        r.hi = std::min(r.hi, rf->second.hi);
        if (!rf->second.nan)
            r.nan = false;
        if (r.lo > r.hi && !r.nan)
        { // contradictory path: leave to the solver
            r = {-INF, INF, true};
        }
    }
    ivMemo[id] = r;
    return r;
}

static void refineTo(u32 id, double lo, double hi, bool noNan)
{
    auto it = refine.find(id);
    Iv v = it == refine.end() ? Iv{-INF, INF, true} : it->second;
    Iv o = v;
    v.lo = std::max(v.lo, lo);
    v.hi = std::min(v.hi, hi);
    if (noNan)
        v.nan = false;
    if (v.lo != o.lo || v.hi != o.hi || v.nan != o.nan)
    {
        refine[id] = v;
        ivMemo.clear();
    }
    // through |x| and -x
    const Node n = N[id];
    if (n.op == OP_AND && isC(n.b) && cval(n.b) == 0x7fffffffffffffffull)
    {
        if (hi < INF || noNan)
            refineTo(n.a, -hi, hi, noNan);
    }
    else if (n.op == OP_XOR && isC(n.b) && cval(n.b) == 0x8000000000000000ull)
        refineTo(n.a, -hi, -lo, noNan);
}
static void refineAtom(u32 e)
{
    Node n = N[e];
    bool neg = false;
    if (n.op == OP_XOR && n.w == 1 && isC(n.b))
    {
        neg = true;
        n = N[n.a];
    }
    if (n.op == OP_AND && n.w == 1 && !neg)
    {
        refineAtom(n.a);
        refineAtom(n.b);
        return;
    }
    if (n.op == OP_OR && n.w == 1 && neg)
    {
        refineAtom(mkNot(n.a));
        refineAtom(mkNot(n.b));
        return;
    }
    if (n.op == OP_FNAN && neg)
        refineTo(n.a, -INF, INF, true);
    if (n.op == OP_FLE || n.op == OP_FLT || n.op == OP_FEQ)
    {
        Iv a = fpIv(n.a), b = fpIv(n.b);
        if (!neg)
        {
            if (n.op == OP_FEQ)
            {
                refineTo(n.a, b.lo, b.hi, true);
                refineTo(n.b, a.lo, a.hi, true);
            }
            else
            {
                double bh = b.hi, al = a.lo;
                if (n.op == OP_FLT)
                {
                    bh = std::nextafter(bh, -INF);
                    al = std::nextafter(al, INF);
                }
                refineTo(n.a, -INF, bh, true);
                refineTo(n.b, al, INF, true);
            }
        }
        else if (!a.nan && !b.nan && n.op != OP_FEQ)
        {
            double bl = b.lo, ah = a.hi;
            if (n.op == OP_FLE)
            {
                bl = std::nextafter(bl, INF);
                ah = std::nextafter(ah, -INF);
            }
            // not(a<b) => a>=b
            refineTo(n.a, bl, INF, false);
            refineTo(n.b, -INF, ah, false);
        }
    }
}

// ------------------------------------------------------------- solver
static bool evalAll(const Model& m, u32 extra)
{
    ev.begin(m);
    for (u32 e : PC)
        if (!(ev.eval(e) & 1))
            return false;
    if (extra && !(ev.eval(extra) & 1))
        return false;
    return true;
}
enum Res
{
    UNSAT_,
    SAT_VALID,
    SAT_ABS, // satisfiable in the abstraction, not natively confirmed
    UNKNOWN_
};
static void armCpu();

static u64 defaultFor(const VarInfo& v)
{
    if (v.fp)
        return asU(v.dlo <= 0 && v.dhi >= 0 ? 0.0 : v.dlo);
    return (v.lo <= 0 && v.hi >= 0 ? 0 : (u64)v.lo) & mask(v.w);
}
static void pad(Model& m)
{
    for (size_t k = m.v.size(); k < vars.size(); k++)
        m.v.push_back(defaultFor(vars[k]));
}
static const Model* cachedFor(u32 cond)
{
    for (size_t i = models.size(); i-- > 0;)
    {
        pad(models[i]);
        ev.begin(models[i]);
        if (ev.eval(cond) & 1)
            return &models[i];
    }
    return nullptr;
}
static void addModel(const Model& m)
{
    if (models.size() >= 6)
        models.erase(models.begin() + 1);
    models.push_back(m);
}

// per-root facts: variables and FP nodes of the cone, in topological order
struct Cone
{
    std::vector<u32> vs;  // variable indices, sorted
    std::vector<u32> fps; // FP variables and FP arithmetic nodes
    bool fp = false, conv = false;
    size_t size = 0;
};
static std::unordered_map<u32, std::shared_ptr<Cone>> cones;
static std::vector<u32> visitStamp;
static u32 visitCur = 0;
static const Cone& cone(u32 root)
{
    auto it = cones.find(root);
    if (it != cones.end())
        return *it->second;
    auto c = std::make_shared<Cone>();
    if (visitStamp.size() < N.size())
        visitStamp.resize(N.size() + 1024, 0);
    visitCur++;
    std::vector<std::pair<u32, bool>> st{{root, false}};
    while (!st.empty())
    {
        auto [x, done] = st.back();
        st.pop_back();
        const Node n = N[x];
        if (done)
        {
            c->size++;
            if (n.op == OP_VAR)
            {
                c->vs.push_back(n.aux);
                if (vars[n.aux].fp)
                {
                    c->fp = true;
                    c->fps.push_back(x);
                }
            }
            else if (isFpArith(n.op))
            {
                c->fp = true;
                c->fps.push_back(x);
            }
            else if (n.op == OP_FEQ || n.op == OP_FLT || n.op == OP_FLE ||
                     n.op == OP_FNAN)
                c->fp = true;
            else if (n.op == OP_SITOFP || n.op == OP_UITOFP ||
                     n.op == OP_FPTOSI || n.op == OP_FPTOUI)
                c->conv = c->fp = true;
            continue;
        }
        if (visitStamp[x] == visitCur)
            continue;
        visitStamp[x] = visitCur;
        st.push_back({x, true});
        for (u32 ch : {n.a, n.b, n.c})
            if (ch && visitStamp[ch] != visitCur)
                st.push_back({ch, false});
    }
    std::sort(c->vs.begin(), c->vs.end());
    c->vs.erase(std::unique(c->vs.begin(), c->vs.end()), c->vs.end());
    cones[root] = c;
    return *c;
}
struct Slice
{
    std::vector<u32> roots; // PC conjuncts and the condition
    std::vector<u32> vs, fps;
    bool fp = false, conv = false;
};
static Slice slice(u32 cond)
{
    Slice s;
    std::vector<char> in(vars.size(), 0), taken(PC.size(), 0);
    auto take = [&](u32 r) {
        const Cone& c = cone(r);
        s.roots.push_back(r);
        s.fp |= c.fp;
        s.conv |= c.conv;
        for (u32 v : c.vs)
            if (!in[v])
            {
                in[v] = 1;
                s.vs.push_back(v);
            }
    };
    if (cond && !isC(cond))
        take(cond);
    else
        for (size_t i = 0; i < PC.size(); i++)
        {
            taken[i] = 1;
            take(PC[i]);
        }
    for (bool more = true; more;)
    {
        more = false;
        for (size_t i = 0; i < PC.size(); i++)
            if (!taken[i])
            {
                for (u32 v : cone(PC[i]).vs)
                    if (in[v])
                    {
                        taken[i] = 1;
                        take(PC[i]);
                        more = true;
                        break;
                    }
            }
    }
    std::unordered_set<u32> seen;
    for (u32 r : s.roots)
        for (u32 f : cone(r).fps)
            if (seen.insert(f).second)
                s.fps.push_back(f);
    std::sort(s.fps.begin(), s.fps.end()); // hash-consing order is topological
    return s;
}

static z3::context* Z = nullptr;
static Lowering* L = nullptr;      // bit-precise, FP arithmetic abstracted
static OrderLowering* OL = nullptr; // order abstraction
static z3::solver *SBV = nullptr, *SOR = nullptr;
static void solverInit()
{
    if (Z)
        return;
    Z = new z3::context();
    L = new Lowering(*Z, 0, false);
    L->interval = fpIv;
    OL = new OrderLowering(*Z);
    OL->interval = fpIv;
    SBV = new z3::solver(*Z, "QF_BV");
    {
        z3::params p(*Z);
        p.set("rlimit", rlimitQ);
        SBV->set(p);
    }
    SOR = new z3::solver(*Z, z3::solver::simple());
    {
        z3::params p(*Z);
        p.set("rlimit", rlimitQ / 60 ? rlimitQ / 60 : 1);
        p.set("arith.solver", 2u);
        SOR->set(p);
    }
}
static u64 numU64(const z3::expr& e)
{
    uint64_t u = 0;
    if (!e.is_numeral_u64(u))
        u = strtoull(e.get_decimal_string(0).c_str(), nullptr, 10);
    return u;
}
static double numD(const z3::expr& e)
{
    // rational -> nearest double, by way of a 40-digit decimal expansion
    std::string s;
    if (Z3_get_ast_kind(e.ctx(), e) == Z3_NUMERAL_AST)
    {
        z3::expr nu = e.numerator(), de = e.denominator();
        std::string a = nu.get_decimal_string(0), b = de.get_decimal_string(0);
        if (b == "1")
            return strtod(a.c_str(), nullptr);
        if (b.size() < 300 && a.size() < 300)
        {
            // exact powers of two divide exactly in long double range
            return (double)(strtold(a.c_str(), nullptr) /
                            strtold(b.c_str(), nullptr));
        }
        long ea = (long)a.size(), eb = (long)b.size();
        std::string am = a.substr(0, 40), bm = b.substr(0, 40);
        long double q = strtold(am.c_str(), nullptr) /
                        strtold(bm.c_str(), nullptr);
        long sh = (ea - (long)am.size()) - (eb - (long)bm.size());
        return (double)(q * powl(10.0L, (long double)sh));
    }
    return 0;
}
static void overlay(Model& m, const Slice& s, z3::model zm, Lowering& lo)
{
    for (u32 i : s.vs)
    {
        u32 id = vars[i].id;
        if (lo.memo.size() <= id || !lo.memo[id])
            continue;
        z3::expr e = zm.eval(z3::expr(lo.c, lo.memo[id]), true);
        m.v[i] = vars[i].w == 1 ? (u64)e.is_true() : numU64(e) & mask(vars[i].w);
    }
}
static void overlay(Model& m, const Slice& s, z3::model zm, OrderLowering& lo)
{
    for (u32 i : s.vs)
    {
        u32 id = vars[i].id;
        if (vars[i].fp)
        {
            auto it = lo.fmemo.find(id);
            if (it == lo.fmemo.end())
                continue;
            if (zm.eval(it->second.nan, true).is_true())
            {
                m.v[i] = 0x7ff8000000000000ull;
                continue;
            }
            double d = numD(zm.eval(it->second.v, true));
            if (!(vars[i].special & 2))
                d = std::min(std::max(d, vars[i].dlo), vars[i].dhi);
            m.v[i] = asU(d);
            continue;
        }
        if (lo.memo.size() <= id || !lo.memo[id])
            continue;
        z3::expr e = zm.eval(z3::expr(lo.c, lo.memo[id]), true);
        m.v[i] = vars[i].w == 1 ? (u64)e.is_true() : numU64(e) & mask(vars[i].w);
    }
}

// stochastic local search for a native model of the slice, starting at m
static bool localSearch(Model& m, const Slice& s, int iters)
{
    auto violated = [&](const Model& x, std::vector<u32>* out) {
        ev.begin(x);
        int n = 0;
        for (u32 r : s.roots)
            if (!(ev.eval(r) & 1))
            {
                n++;
                if (out)
                    out->push_back(r);
            }
        return n;
    };
    // constants worth trying
    std::vector<double> consts{0.0, 1.0, -1.0, 0.5, 2.0, 100.0};
    {
        std::unordered_set<u32> seen;
        std::vector<u32> st(s.roots);
        while (!st.empty() && consts.size() < 64)
        {
            u32 x = st.back();
            st.pop_back();
            if (!x || !seen.insert(x).second)
                continue;
            const Node n = N[x];
            if (n.op == OP_CONST && n.w == 64)
            {
                double d = asD(n.val);
                if (d == d && std::fabs(d) < 1e300 && std::fabs(d) > 1e-300)
                    consts.push_back(d);
            }
            for (u32 ch : {n.a, n.b, n.c})
                if (ch)
                    st.push_back(ch);
        }
    }
    std::vector<u32> bad;
    int cur = violated(m, &bad);
    for (int it = 0; it < iters && cur; it++)
    {
        u32 r = bad[rnd() % bad.size()];
        const Cone& c = cone(r);
        if (c.vs.empty())
            return false;
        Model x = m;
        int muts = 1 + (rnd() % 4 == 0);
        for (int q = 0; q < muts; q++)
        {
            u32 vi = c.vs[rnd() % c.vs.size()];
            const VarInfo& v = vars[vi];
            if (!v.fp)
            {
                u64 k = rnd() % 6;
                u64 o = x.v[vi];
                u64 nv = k == 0   ? o + 1
                         : k == 1 ? o - 1
                         : k == 2 ? (u64)v.lo
                         : k == 3 ? (u64)v.hi
                         : k == 4 ? rnd()
                                  : (u64)v.lo + (v.hi > v.lo
                                                     ? rnd() % ((u64)v.hi - (u64)v.lo)
                                                     : 0);
                x.v[vi] = nv & mask(v.w);
                continue;
            }
            double o = asD(x.v[vi]), nv = o;
            switch (rnd() % 12)
            {
                case 0: nv = consts[rnd() % consts.size()]; break;
                case 1: nv = o * 2; break;
                case 2: nv = o / 2; break;
                case 3: nv = -o; break;
                case 4: nv = o + 1; break;
                case 5: nv = o - 1; break;
                case 6: nv = v.dlo; break;
                case 7: nv = v.dhi; break;
                case 8:
                {
                    double lo = std::max(v.dlo, -1e6), hi = std::min(v.dhi, 1e6);
                    nv = lo + (hi - lo) * (double)(rnd() % 1025) / 1024;
                    break;
                }
                case 9:
                {
                    u32 oi = s.vs[rnd() % s.vs.size()];
                    if (vars[oi].fp)
                        nv = asD(x.v[oi]) + (int)(rnd() % 3) - 1;
                    break;
                }
                case 10:
                    if (v.special & 1)
                        nv = std::numeric_limits<double>::quiet_NaN();
                    break;
                case 11: nv = o + (double)(rnd() % 201) - 100; break;
            }
            x.v[vi] = asU(nv);
        }
        std::vector<u32> nb;
        int n = violated(x, &nb);
        if (n <= cur || rnd() % 50 == 0)
        {
            m = x;
            cur = n;
            bad.swap(nb);
        }
    }
    return cur == 0;
}

// L1 query under the abstraction; on validated sat the model is cached
static Res query(u32 cond, Model* out = nullptr, int maxLevel = 2)
{
    if (isC(cond))
    {
        if (!(cval(cond) & 1))
            return UNSAT_;
    }
    if (const Model* m = cachedFor(cond))
    {
        SH->cacheHits++;
        if (out)
            *out = *m;
        return SAT_VALID;
    }
    solverInit();
    Slice s = slice(cond);
    SH->queries++;
    double t0 = now();
    Res r = UNKNOWN_;
    Model base = models.empty() ? Model{} : models[rnd() % models.size()];
    pad(base);
    if (s.roots.empty())
    { // no constraint at all
        r = SAT_VALID;
        addModel(base);
        if (out)
            *out = base;
    }
    if (r != SAT_VALID && !models.empty() && s.fp)
    {
        // most feasible branches are witnessed by a small change of a known
        // model: cheaper than asking the solver
        Model m = base;
        if (localSearch(m, s, 120) && evalAll(m, cond))
        {
            r = SAT_VALID;
            SH->searchHits++;
            addModel(m);
            if (out)
                *out = m;
            armCpu();
            return r;
        }
    }
    auto tryModel = [&](Model m, bool search) {
        if (evalAll(m, cond))
        {
            r = SAT_VALID;
        }
        else if (search && s.fp && localSearch(m, s, 400) && evalAll(m, cond))
        {
            r = SAT_VALID;
        }
        else
            r = SAT_ABS;
        if (r == SAT_VALID)
            addModel(m);
        if (out)
            *out = m;
    };
    u64 nl = 0;
    auto check = [&](z3::solver& S, auto& lo, std::vector<z3::expr>& as,
                     bool search) {
        S.push();
        for (auto& e : as)
            S.add(e);
        auto cr = S.check();
        if (cr == z3::unsat)
            r = UNSAT_;
        else if (cr == z3::sat)
        {
            Model m = base;
            overlay(m, s, S.get_model(), lo);
            tryModel(m, search);
        }
        else
            r = UNKNOWN_;
        S.pop();
    };
    auto run = [&](z3::solver& S, auto& lo) {
        // build everything first: lowering may turn out unsupported
        std::vector<z3::expr> as;
        for (u32 x : s.roots)
            as.push_back(lo.bo(x));
        auto add = [&](const z3::expr& e) {
            as.push_back(e);
            nl++;
        };
        if constexpr (requires { lo.lemmas(s.fps, add, 0); })
        {
            // refine the abstraction only as far as needed
            size_t base0 = as.size();
            bool arith = false;
            for (u32 f : s.fps)
                arith |= isFpArith(N[f].op);
            for (int lv = 0; lv <= maxLevel; lv++)
            {
                as.erase(as.begin() + base0, as.end());
                lo.lemmas(s.fps, add, lv);
                check(S, lo, as, true);
                if (r == UNSAT_ || r == SAT_VALID || !arith)
                    break;
            }
        }
        else
        {
            lo.lemmas(s.fps, add);
            check(S, lo, as, true);
        }
    };
    if (!s.roots.empty())
    {
        try
        {
            bool done = false;
            if (s.fp && !s.conv)
            {
                try
                {
                    run(*SOR, *OL);
                    done = true;
                }
                catch (Unsupported&)
                {
                    nl = 0;
                }
            }
            if (!done)
                run(*SBV, *L);
        }
        catch (z3::exception& ex)
        {
            r = UNKNOWN_;
        }
    }
    SH->lemmas += nl;
    double dt = now() - t0;
    if (slowLog && dt > slowLog)
    {
        char b[160];
        snprintf(b, sizeof b,
                 "{\"kind\":\"slow\",\"s\":%.2f,\"roots\":%zu,\"fps\":%zu,"
                 "\"conv\":%d,\"fp\":%d,\"r\":%d}",
                 dt, s.roots.size(), s.fps.size(), s.conv, s.fp, r);
        emit(b);
    }
    SH->solverUs += (u64)(dt * 1e6);
    if (r == UNSAT_)
        SH->qUnsat++;
    else if (r == UNKNOWN_)
        SH->qUnknown++;
    else
        SH->qSat++;
    armCpu();
    return r;
}

static void pathEnd(bool ok);
[[noreturn]] static void finish();

static void addPC(u32 e)
{
    if (isC(e))
        return;
    if (N[e].op == OP_AND && N[e].w == 1)
    {
        u32 a = N[e].a, b = N[e].b;
        addPC(a);
        addPC(b);
        return;
    }
    if (!PCset.insert(e).second)
        return;
    PC.push_back(e);
    refineAtom(e);
    // drop models that contradict
    std::vector<Model> keep;
    for (auto& m : models)
    {
        pad(m);
        ev.begin(m);
        if (ev.eval(e) & 1)
            keep.push_back(m);
    }
    models.swap(keep);
}

// exact stages, run in a forked child with a wall-clock limit.
// returns UNSAT_ / SAT_VALID / UNKNOWN_
static Res exactStage(u32 cond, int exact, bool grid, double limit, Model* out,
                      const Model& start)
{
    SH->ladder++;
    int pfd[2];
    if (pipe(pfd))
        return UNKNOWN_;
    Slice s = slice(cond);
    double t0 = now();
    pid_t p = fork();
    if (p == 0)
    {
        close(pfd[0]);
        // fresh context: exact FP encoding
        z3::context c;
        Lowering lo(c, exact, grid);
        lo.interval = fpIv;
        char tag = 'U';
        std::vector<u64> vals;
        try
        {
            z3::tactic t =
                exact == 0
                    ? (z3::tactic(c, "simplify") & z3::tactic(c, "bit-blast") &
                       z3::tactic(c, "sat"))
                    : (z3::tactic(c, "simplify") &
                       z3::tactic(c, "propagate-values") &
                       z3::tactic(c, "fpa2bv") & z3::tactic(c, "simplify") &
                       z3::tactic(c, "propagate-values") &
                       z3::tactic(c, "simplify") & z3::tactic(c, "bit-blast") &
                       z3::tactic(c, "simplify") & z3::tactic(c, "sat"));
            z3::solver sol = t.mk_solver();
            std::vector<u32> ops;
            for (u32 f : s.fps)
                if (isFpArith(N[f].op))
                    ops.push_back(f);
            for (u32 x : s.roots)
                sol.add(lo.bo(x));
            lo.lemmas(ops, [&](const z3::expr& e) { sol.add(e); });
            for (int round = 0; round < 20; round++)
            {
                auto r = sol.check();
                if (r == z3::unsat)
                {
                    tag = grid ? 'G' : 'F'; // G: no grid model (no info)
                    break;
                }
                if (r != z3::sat)
                    break;
                Model m = start;
                overlay(m, s, sol.get_model(), lo);
                if (evalAll(m, cond))
                {
                    tag = 'S';
                    vals = m.v;
                    break;
                }
                // still-abstract operations disagree: add point lemmas
                unsigned added = 0;
                ev.begin(m);
                for (u32 e : s.roots)
                    ev.eval(e);
                for (u32 id : ops)
                {
                    Node n = N[id];
                    u64 av = ev.eval(n.a), bv = n.b ? ev.eval(n.b) : 0,
                        rv = ev.eval(id);
                    z3::expr pre = lo.bv(n.a) == lo.k(av, 64);
                    if (n.b)
                        pre = pre && lo.bv(n.b) == lo.k(bv, 64);
                    z3::expr post = asD(rv) != asD(rv)
                                        ? lo.isnan(lo.bv(id))
                                        : (lo.bv(id) == lo.k(rv, 64));
                    sol.add(z3::implies(pre, post));
                    added++;
                }
                Model m2 = m;
                if (localSearch(m2, s, 400) && evalAll(m2, cond))
                {
                    tag = 'S';
                    vals = m2.v;
                    break;
                }
                if (!added)
                    break;
            }
        }
        catch (z3::exception& ex)
        {
        }
        catch (Unsupported&)
        {
        }
        std::string o(1, tag);
        o.append((char*)vals.data(), vals.size() * 8);
        size_t off = 0;
        while (off < o.size())
        {
            ssize_t k = write(pfd[1], o.data() + off, o.size() - off);
            if (k <= 0)
                break;
            off += k;
        }
        _exit(0);
    }
    close(pfd[1]);
    std::string in;
    double end = now() + limit;
    bool to = false;
    for (;;)
    {
        double left = end - now();
        if (left <= 0)
        {
            to = true;
            break;
        }
        pollfd pf{pfd[0], POLLIN, 0};
        int r = poll(&pf, 1, (int)(left * 1000) + 1);
        if (r < 0 && errno == EINTR)
            continue;
        if (r == 0)
            continue;
        char b[4096];
        ssize_t k = read(pfd[0], b, sizeof b);
        if (k <= 0)
            break;
        in.append(b, k);
    }
    if (to)
        kill(p, SIGKILL);
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        ;
    close(pfd[0]);
    SH->solverUs += (u64)((now() - t0) * 1e6);
    armCpu();
    if (to || in.empty())
        return UNKNOWN_;
    if (in[0] == 'F')
        return UNSAT_;
    if (in[0] == 'S')
    {
        Model m;
        m.v.resize((in.size() - 1) / 8);
        memcpy(m.v.data(), in.data() + 1, m.v.size() * 8);
        if (evalAll(m, cond))
        {
            addModel(m);
            if (out)
                *out = m;
            return SAT_VALID;
        }
    }
    return UNKNOWN_;
}
// full decision of PC && cond
static Res decide(u32 cond, Model* out, bool witnessOnly = false)
{
    Model m;
    Res r = query(cond, &m);
    if (r == UNSAT_ || r == SAT_VALID)
    {
        if (out)
            *out = m;
        return r;
    }
    // abstraction too coarse: look for a concrete model, then decide exactly
    pad(m);
    {
        Slice s = slice(cond);
        Model x = m;
        if (localSearch(x, s, witnessOnly ? 1500 : 4000) && evalAll(x, cond))
        {
            addModel(x);
            if (out)
                *out = x;
            return SAT_VALID;
        }
        // the untouched rest of the path condition must hold as well
        if (!models.empty())
        {
            x = models[0];
            pad(x);
            if (localSearch(x, s, 2000) && evalAll(x, cond))
            {
                addModel(x);
                if (out)
                    *out = x;
                return SAT_VALID;
            }
        }
        else
        {
            Slice all = slice(0);
            if (cond && !isC(cond))
                all.roots.push_back(cond);
            x = m;
            if (localSearch(x, all, 4000) && evalAll(x, cond))
            {
                addModel(x);
                if (out)
                    *out = x;
                return SAT_VALID;
            }
        }
    }
    double lim = witnessOnly ? std::min(8.0, ladderLimitS) : ladderLimitS;
    r = exactStage(cond, 0, true, std::min(10.0, lim), out, m);
    if (r == SAT_VALID)
        return r;
    if (!witnessOnly)
    {
        r = exactStage(cond, 1, false, lim, out, m);
        if (r == UNSAT_ || r == SAT_VALID)
        {
            if (r == UNSAT_)
                SH->ladderProved++;
            return r;
        }
    }
    r = exactStage(cond, 2, true, lim, out, m);
    if (r == SAT_VALID)
        return r;
    if (!witnessOnly)
    {
        r = exactStage(cond, 2, false, lim, out, m);
        if (r == UNSAT_)
            SH->ladderProved++;
        if (r == UNSAT_ || r == SAT_VALID)
            return r;
    }
    return UNKNOWN_;
}
static void dumpQuery(u32 ns)
{
    static int cnt = 0;
    Slice s = slice(ns);
    auto go = [&](auto& lo, const char* logic) {
        z3::solver S(*Z);
        for (u32 x : s.roots)
            S.add(lo.bo(x));
        lo.lemmas(s.fps, [&](const z3::expr& e) { S.add(e); });
        char fn[512];
        snprintf(fn, sizeof fn, "%s/q%d_%d.smt2", dumpDir, (int)getpid(),
                 cnt++);
        if (FILE* f = fopen(fn, "w"))
        {
            fprintf(f, "(set-logic %s)\n", logic);
            fputs(S.to_smt2().c_str(), f);
            fclose(f);
        }
    };
    solverInit();
    try
    {
        if (s.fp && !s.conv)
        {
            try
            {
                go(*OL, "ALL");
                return;
            }
            catch (Unsupported&)
            {}
        }
        go(*L, "QF_BV");
    }
    catch (z3::exception&)
    {}
    catch (Unsupported&)
    {}
}

static std::string modelJson(const Model& m)
{
    std::string o = "{";
    bool first = true;
    for (size_t i = 0; i < vars.size(); i++)
    {
        u64 v = i < m.v.size() ? m.v[i] & mask(vars[i].w) : 0;
        char b[64];
        snprintf(b, sizeof b, "%" PRIx64, v);
        o += std::string(first ? "" : ",") + "\"" + jesc(vars[i].name) +
             "\":\"" + b + "\"";
        first = false;
    }
    // picks
    return o + "}";
}
static std::map<std::string, int> picks; // name -> value on this path
static std::string picksJson()
{
    std::string o = "{";
    bool first = true;
    for (auto& [k, v] : picks)
    {
        o += std::string(first ? "" : ",") + "\"" + jesc(k) +
             "\":" + std::to_string(v);
        first = false;
    }
    return o + "}";
}

static void report(const char* kind, const std::string& label, const Model* m)
{
    u64 k = SH->vioSeq++;
    if (k > 200)
        return;
    std::string s = std::string("{\"kind\":\"") + kind + "\",\"label\":\"" +
                    jesc(label) + "\",\"picks\":" + picksJson();
    if (m)
        s += ",\"model\":" + modelJson(*m);
    s += "}";
    emit(s);
}

// ------------------------------------------------------------- processes
static void cpuHandler(int);
static void armCpu()
{
    itimerval it{};
    it.it_value.tv_sec = (long)pathCpuLimit;
    setitimer(ITIMER_PROF, &it, nullptr);
}
static void disarmCpu()
{
    itimerval it{};
    setitimer(ITIMER_PROF, &it, nullptr);
}
static void waitKids()
{
    for (pid_t k : kids)
    {
        int st;
        while (waitpid(k, &st, 0) < 0 && errno == EINTR)
            ;
        if (WIFSIGNALED(st))
        {
            // killed without a report (e.g. out of memory)
            SH->killed++;
        }
    }
    kids.clear();
}
[[noreturn]] static void finish()
{
    disarmCpu();
    if (ownToken)
    {
        ownToken = false;
        sem_post(&SH->tokens);
    }
    waitKids();
    _exit(0);
}
// forks; returns true in the child
static bool forkPath()
{
    SH->forks++;
    bool tok = sem_trywait(&SH->tokens) == 0;
    fflush(nullptr);
    disarmCpu();
    pid_t p = fork();
    if (p < 0)
    {
        SH->killed++;
        report("error", "fork failed", nullptr);
        armCpu();
        return false;
    }
    if (p == 0)
    {
        kids.clear();
        ownToken = tok;
        rngState = seed * 7919 + (u64)getpid() * 104729 + 17;
        if (SH->stop.load() || now() - tStart > timeLimit)
        {
            SH->stop = 1;
            SH->killed++;
            finish();
        }
        armCpu();
        return true;
    }
    if (tok)
        kids.push_back(p);
    else
    {
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR)
            ;
        if (WIFSIGNALED(st))
            SH->killed++;
    }
    armCpu();
    return false;
}
static void checkStop()
{
    if (SH->stop.load() || now() - tStart > timeLimit)
    {
        SH->stop = 1;
        SH->killed++;
        finish();
    }
}

static bool tryWitness(Model* out)
{
    Model m;
    u32 t = mkConst(1, 1);
    if (const Model* c = cachedFor(t))
    {
        *out = *c;
        return true;
    }
    return decide(t, out, true) == SAT_VALID;
}

static bool labelKnown(const std::string& l, bool insert)
{
    u64 h = std::hash<std::string>()(l) | 1;
    for (int i = 0; i < 128; i++)
    {
        u64 cur = SH->labelHash[i].load();
        if (cur == h)
            return true;
        if (cur == 0)
        {
            if (insert)
                SH->labelHash[i].store(h);
            return false;
        }
    }
    return true;
}
static void pathEnd(bool ended)
{
    SH->paths++;
    if (depth > SH->maxDepth)
        SH->maxDepth = depth;
    Model m;
    bool newLabel = false;
    for (auto& r : reached)
        if (!labelKnown(r, false))
            newLabel = true;
    u64 n = SH->samplesWritten;
    bool want = ended && (n < 6 || (n < (u64)sampleCap && rnd() % 4 == 0));
    if (!newLabel && !want)
        return;
    if (!tryWitness(&m))
        return;
    SH->pathsValidated++;
    for (auto& r : reached)
        if (!labelKnown(r, true))
            emit("{\"kind\":\"reach\",\"label\":\"" + jesc(r) + "\"}");
    if (!ended || SH->samplesWritten++ >= (u64)sampleCap)
        return;
    std::string s = "{\"kind\":\"path\",\"label\":\"\",\"picks\":" +
                    picksJson() + ",\"model\":" + modelJson(m) + ",\"reach\":[";
    bool f = true;
    for (auto& r : reached)
    {
        s += (f ? "\"" : ",\"") + jesc(r) + "\"";
        f = false;
    }
    s += "],\"obs\":[";
    f = true;
    if (m.v.size() < vars.size())
        pad(m);
    ev.begin(m);
    for (auto& [nm, e] : observations)
    {
        char b[64];
        u64 v = e ? ev.eval(e) : 0;
        snprintf(b, sizeof b, "%016" PRIx64, v);
        s += std::string(f ? "" : ",") + "\"" + jesc(nm) + " " + b + "\"";
        f = false;
    }
    s += "]}";
    emit(s);
}

static void crashHandler(int sig)
{
    static volatile sig_atomic_t once = 0;
    if (once)
        _exit(77);
    once = 1;
    signal(SIGPROF, SIG_IGN);
    SH->crashed++;
    char nm[64];
    snprintf(nm, sizeof nm, "crash signal %d", sig);
    if (inRuntime)
    {
        report("error", std::string("crash in the runtime: ") + nm, nullptr);
        finish();
    }
    Model m;
    bool have = tryWitness(&m);
    report(have ? "violation" : "suspect", nm, have ? &m : nullptr);
    if (have)
        SH->violations++;
    else
        SH->inconclusive++;
    finish();
}
static void cpuHandler(int)
{
    static volatile sig_atomic_t once = 0;
    if (once)
        _exit(77);
    once = 1;
    if (inRuntime)
    {
        SH->inconclusive++;
        report("inconclusive", "solver cpu limit", nullptr);
        finish();
    }
    Model m;
    bool have = tryWitness(&m);
    report(have ? "violation" : "suspect", "hang: no progress", have ? &m : nullptr);
    if (have)
        SH->violations++;
    else
        SH->inconclusive++;
    finish();
}
static void termHandler()
{
    raise(SIGABRT);
    _exit(1);
}

struct RT
{
    bool old;
    RT() : old(inRuntime) { inRuntime = true; }
    ~RT() { inRuntime = old; }
};

[[noreturn]] static void unsupported(const std::string& what)
{
    SH->unsupported++;
    report("unsupported", what, nullptr);
    finish();
}

// ------------------------------------------------------------- shadow memory
struct Page
{
    u32 id[4096];
    uint8_t idx[4096];
    u32 live;
};
static std::unordered_map<u64, Page*> pages;
static u64 lastPg = ~0ull;
static Page* lastP = nullptr;
static u64 pgLo = ~0ull, pgHi = 0;
static inline Page* page(u64 a, bool create)
{
    u64 p = a >> 12;
    if (p == lastPg)
    {
        if (lastP || !create)
            return lastP;
    }
    if (!create && (p < pgLo || p > pgHi))
        return nullptr;
    auto it = pages.find(p);
    Page* r = nullptr;
    if (it != pages.end())
        r = it->second;
    else if (create)
    {
        r = (Page*)calloc(1, sizeof(Page));
        pages[p] = r;
        pgLo = std::min(pgLo, p);
        pgHi = std::max(pgHi, p);
    }
    lastPg = p;
    lastP = r;
    return r;
}
static inline u32 byteShadow(u64 a, uint8_t* k)
{
    Page* p = page(a, false);
    if (!p || !p->live)
        return 0;
    u32 id = p->id[a & 4095];
    if (id)
        *k = p->idx[a & 4095];
    return id;
}
static inline void setByte(u64 a, u32 id, uint8_t k)
{
    Page* p = page(a, id != 0);
    if (!p)
        return;
    u32& s = p->id[a & 4095];
    if (s && !id)
        p->live--;
    if (!s && id)
        p->live++;
    s = id;
    p->idx[a & 4095] = k;
}
static void clearRange(u64 a, u64 n)
{
    if (n == 0)
        return;
    u64 end = a + n;
    while (a < end)
    {
        u64 pe = std::min<u64>(end, (a & ~4095ull) + 4096);
        Page* p = page(a, false);
        if (p && p->live)
            for (u64 x = a; x < pe; x++)
                setByte(x, 0, 0);
        a = pe;
    }
}
static bool anyShadow(u64 a, u64 n)
{
    u64 end = a + n;
    while (a < end)
    {
        u64 pe = std::min<u64>(end, (a & ~4095ull) + 4096);
        Page* p = page(a, false);
        if (p && p->live)
            for (u64 x = a; x < pe; x++)
                if (p->id[x & 4095])
                    return true;
        a = pe;
    }
    return false;
}
static void copyShadow(u64 d, u64 s, u64 n)
{
    if (!n)
        return;
    if (!anyShadow(s, n))
    {
        clearRange(d, n);
        return;
    }
    if (d == s)
        return;
    std::vector<std::pair<u32, uint8_t>> t(n);
    for (u64 i = 0; i < n; i++)
    {
        uint8_t k = 0;
        u32 id = byteShadow(s + i, &k);
        t[i] = {id, k};
    }
    for (u64 i = 0; i < n; i++)
        setByte(d + i, t[i].first, t[i].second);
}
static u32 byteExpr(u64 a)
{
    uint8_t k = 0;
    u32 id = byteShadow(a, &k);
    if (!id)
        return mkConst(*(uint8_t*)a, 8);
    if (N[id].w < 8)
        return mkCast(OP_ZEXT, N[id].w, 8, id);
    return mkExtract(id, 8 * k, std::min<unsigned>(8, N[id].w - 8 * k) == 8
                                    ? 8
                                    : N[id].w - 8 * k);
}
// note: a shadow expression that simplified to a constant must keep flowing as
// a shadow (the native value may be stale), so constants ARE kept.

// truth of a boolean under the syntactic path condition: 1, 0 or -1
static int known(u32 e, int d = 0)
{
    if (isC(e))
        return (int)(cval(e) & 1);
    if (PCset.count(e))
        return 1;
    if (PCset.count(mkNot(e)))
        return 0;
    const Node n = N[e];
    if (n.w != 1 || d > 12)
        return -1;
    if (n.op == OP_XOR && isC(n.b) && cval(n.b))
    {
        int k = known(n.a, d + 1);
        return k < 0 ? k : !k;
    }
    if (n.op == OP_AND || n.op == OP_OR)
    {
        int z = n.op == OP_OR; // absorbing value
        int a = known(n.a, d + 1);
        if (a == z)
            return z;
        int b = known(n.b, d + 1);
        if (b == z)
            return z;
        if (a >= 0 && b >= 0)
            return !z;
        return -1;
    }
    if (n.op == OP_ITE)
    {
        int c = known(n.a, d + 1);
        if (c >= 0)
            return known(c ? n.b : n.c, d + 1);
    }
    return -1;
}
// as known(), but asks the solver when the models suggest a single value
static int resolved(u32 e)
{
    int k = known(e);
    if (k >= 0)
        return k;
    bool t = cachedFor(e), f = cachedFor(mkNot(e));
    if (t && f)
        return -1;
    if (!t && !f)
        return -1;
    u32 other = t ? mkNot(e) : e;
    if (query(other, nullptr, 1) == UNSAT_)
    {
        refineAtom(mkNot(other));
        PCset.insert(mkNot(other));
        return t ? 1 : 0;
    }
    return -1;
}

// a branch the coarse abstraction cannot rule out is explored: only cost is at
// stake, so the finest lemmas are left to the obligations
static int branchLevel = 1;
static Res feasible(u32 e, Model* m = nullptr)
{
    return query(e, m, branchLevel);
}

static bool branchOn(u32 e)
{
    if (isC(e))
        return cval(e) & 1;
    int kn = known(e);
    if (kn >= 0)
        return kn;
    u32 ne = mkNot(e);
    checkStop();
    SH->branches++;
    depth++;
    Res t = feasible(e);
    Res f = t == UNSAT_ ? SAT_ABS : feasible(ne);
    if (t == UNSAT_)
    {
        // implied (or the path is infeasible, found out later)
        refineAtom(ne);
        PCset.insert(ne);
        return false;
    }
    if (f == UNSAT_)
    {
        refineAtom(e);
        PCset.insert(e);
        return true;
    }
    if (forkPath())
    {
        addPC(e);
        return true;
    }
    addPC(ne);
    return false;
}

static u64 concretize(u32 e, unsigned w, const char* what)
{
    if (isC(e))
        return cval(e);
    auto it = pinned.find(e);
    if (it != pinned.end())
        return it->second;
    // enumerate feasible values, forking one path per value
    for (int k = 0; k < maxConc; k++)
    {
        checkStop();
        Model m;
        Res r = decide(mkConst(1, 1), &m, true);
        if (r == UNSAT_)
        {
            SH->pathsPruned++;
            finish();
        }
        if (r != SAT_VALID)
        {
            Res r2 = query(mkConst(1, 1), &m);
            if (r2 == UNSAT_)
            {
                SH->pathsPruned++;
                finish();
            }
            // take the value the abstraction suggests
        }
        if (m.v.size() < vars.size())
            pad(m);
        ev.begin(m);
        u64 v = ev.eval(e) & mask(w);
        u32 eq = mkEq(e, mkConst(v, w));
        u32 ne = mkNot(eq);
        Res other = query(ne);
        depth++;
        if (other == UNSAT_)
        {
            addPC(eq);
            pinned[e] = v;
            return v;
        }
        if (forkPath())
        {
            addPC(eq);
            pinned[e] = v;
            return v;
        }
        addPC(ne);
    }
    // too many values: an unbounded symbolic address / size
    Model m;
    bool have = tryWitness(&m);
    report(have ? "suspect" : "unsupported",
           std::string("more than ") + std::to_string(maxConc) +
               " values for " + what,
           have ? &m : nullptr);
    SH->unsupported++;
    finish();
}

// ------------------------------------------------------------- pass API
extern "C" {
void __sym_fn(u32 idx, void* self)
{
    if (__sym_callee != self)
    {
        memset(__sym_arg, 0, sizeof __sym_arg);
        memset(__sym_byval, 0, sizeof __sym_byval);
    }
    __sym_callee = nullptr;
    if (SH)
        SH->fnHit[idx] = 1;
}
static inline u32 lift(u32 s, u64 v, unsigned w)
{
    return s ? s : mkConst(v, w);
}
u32 __sym_bin(u32 op, u32 w, u32 sa, u64 a, u32 sb, u64 b)
{
    if (!(sa | sb))
        return 0;
    RT rt;
    return mkBin(op, w, lift(sa, a, w), lift(sb, b, w));
}
u32 __sym_un(u32 op, u32 s)
{
    if (!s)
        return 0;
    RT rt;
    return mkUn(op, s);
}
u32 __sym_cmp(u32 p, u32 w, u32 sa, u64 a, u32 sb, u64 b)
{
    if (!(sa | sb))
        return 0;
    RT rt;
    return mkCmp(p, w, lift(sa, a, w), lift(sb, b, w));
}
u32 __sym_fpclass(u32 s, u32 m)
{
    if (!s)
        return 0;
    RT rt;
    u32 nan = mkUn(OP_FNAN, s);
    u32 ab = mkUn(OP_FABS, s);
    u32 neg = mkExtract(s, 63, 1);
    u32 inf = mkCmp(1, 64, ab, mkConst(0x7ff0000000000000ull, 64));
    u32 zero = mkCmp(1, 64, s, mkConst(0, 64));
    u32 fin = mkCmp(5, 64, ab, mkConst(asU(1.7976931348623157e308), 64));
    u32 sub = mkAnd(mkAnd(fin, mkNot(zero)),
                    mkCmp(4, 64, ab, mkConst(asU(2.2250738585072014e-308), 64)));
    // common combinations get the cheap encoding
    if ((m & 3) == 3 && !(m & ~3u))
        return nan;
    if (m == 0x1f8)
        return fin;
    if (m == 0x204)
        return mkAnd(inf, mkConst(1, 1));
    if (m == 0x207)
        return mkNot(fin);
    if (m == 0x3fc)
        return mkNot(nan);
    u32 normal = mkAnd(fin, mkAnd(mkNot(zero), mkNot(sub)));
    u32 r = mkConst(0, 1);
    auto add = [&](u32 bit, u32 c) {
        if (m & bit)
            r = mkOr(r, c);
    };
    add(1, nan);
    add(2, nan);
    add(4, mkAnd(inf, neg));
    add(8, mkAnd(normal, neg));
    add(16, mkAnd(sub, neg));
    add(32, mkAnd(zero, neg));
    add(64, mkAnd(zero, mkNot(neg)));
    add(128, mkAnd(sub, mkNot(neg)));
    add(256, mkAnd(normal, mkNot(neg)));
    add(512, mkAnd(inf, mkNot(neg)));
    return r;
}
u32 __sym_ovf(u32 k, u32 w, u32 sa, u64 a, u32 sb, u64 b)
{
    if (!(sa | sb))
        return 0;
    RT rt;
    u32 x = lift(sa, a, w), y = lift(sb, b, w);
    bool sg = k == 0 || k == 2 || k == 4;
    if (k >= 4)
    {
        if (w > 32)
            unsupported("wide multiplication with overflow check");
        unsigned w2 = 2 * w;
        u32 X = mkCast(sg ? OP_SEXT : OP_ZEXT, w, w2, x),
            Y = mkCast(sg ? OP_SEXT : OP_ZEXT, w, w2, y);
        u32 P = mkBin(OP_MUL, w2, X, Y);
        u32 R = mkCast(sg ? OP_SEXT : OP_ZEXT, w, w2, mkExtract(P, 0, w));
        return mkNot(mkEq(P, R));
    }
    if (!sg)
    {
        if (k == 1)
        {
            u32 s = mkBin(OP_ADD, w, x, y);
            return mkCmp(36, w, s, x);
        }
        return mkCmp(36, w, x, y);
    }
    u32 s = mkBin(k == 0 ? OP_ADD : OP_SUB, w, x, y);
    u32 nx = mkCmp(40, w, x, mkConst(0, w)), ny = mkCmp(40, w, y, mkConst(0, w)),
        ns = mkCmp(40, w, s, mkConst(0, w));
    if (k == 0) // same sign inputs, different result
        return mkAnd(mkEq(nx, ny), mkNot(mkEq(nx, ns)));
    return mkAnd(mkNot(mkEq(nx, ny)), mkNot(mkEq(nx, ns)));
}
u32 __sym_cast(u32 op, u32 fw, u32 tw, u32 s)
{
    if (!s)
        return 0;
    RT rt;
    return mkCast(op, fw, tw, s);
}
u32 __sym_ite(u32 sc, u32 sa, u64 a, u32 sb, u64 b, u32 w)
{
    if (!sc)
        return 0; // caller selects
    RT rt;
    return mkIte(sc, lift(sa, a, w), lift(sb, b, w));
}
u32 __sym_load(void* p, u32 n, u32 w)
{
    u64 a = (u64)p;
    {
        u64 q = a >> 12;
        if ((q < pgLo || q > pgHi) && ((a + n - 1) >> 12 < pgLo || q > pgHi))
            return 0;
        Page* pg = page(a, false);
        if ((!pg || !pg->live) && ((a + n - 1) >> 12) == q)
            return 0;
    }
    if (!anyShadow(a, n))
        return 0;
    RT rt;
    uint8_t k = 0;
    u32 id = byteShadow(a, &k);
    if (id && k == 0)
    {
        bool same = true;
        for (u32 i = 1; i < n && same; i++)
        {
            uint8_t kk = 0;
            same = byteShadow(a + i, &kk) == id && kk == i;
        }
        if (same)
        {
            unsigned W = N[id].w;
            if (W == w)
                return id;
            if (W < w && n == (W + 7) / 8)
                return mkCast(OP_ZEXT, W, w, id);
            if (W > w)
                return mkExtract(id, 0, w);
        }
    }
    u32 r = byteExpr(a);
    for (u32 i = 1; i < n; i++)
        r = mkConcat(byteExpr(a + i), r);
    if (N[r].w > w)
        r = mkExtract(r, 0, w);
    return r;
}
void __sym_store(void* p, u32 n, u32 s, u64 v)
{
    (void)v;
    u64 a = (u64)p;
    if (!s)
    {
        u64 q = a >> 12;
        if (q > pgHi || ((a + n - 1) >> 12) < pgLo)
            return;
        clearRange(a, n);
        return;
    }
    RT rt;
    for (u32 i = 0; i < n; i++)
        setByte(a + i, s, i);
}
bool __sym_branch(u32 s, bool c)
{
    if (!s)
        return c;
    RT rt;
    return branchOn(s);
}
void* __sym_ptr(u32 s, void* p)
{
    if (!s)
        return p;
    RT rt;
    return (void*)concretize(s, 64, "an address");
}
u64 __sym_conc(u32 s, u64 v, u32 w)
{
    if (!s)
        return v;
    RT rt;
    return concretize(s, w, "a size or switch value");
}
u64 __sym_divisor(u32 s, u64 v, u32 w)
{
    if (!s)
        return v;
    RT rt;
    u32 z = mkEq(s, mkConst(0, w));
    if (isC(z) ? (cval(z) & 1) : branchOn(z))
    {
        // division by zero: a genuine trap on this path
        Model m;
        bool have = tryWitness(&m);
        report(have ? "violation" : "suspect", "integer division by zero",
               have ? &m : nullptr);
        if (have)
            SH->violations++;
        else
            SH->inconclusive++;
        finish();
    }
    // any harmless nonzero value
    return 3;
}
void __sym_ext_check(const char* name, u32 s)
{
    if (!s)
        return;
    RT rt;
    unsupported(std::string("symbolic value reaches ") + name);
}
// A number printed to a stream.  Text on the standard streams is diagnostics
// nobody's claim depends on: print any value.  Elsewhere (files) an integer is
// concretised, i.e. every value it can have becomes a path of its own.  A double
// is printed as a token, a number that stands for it: sym_text_f64() finds the
// value again.
static std::vector<u32> tokens;
static const u64 TOK0 = 100001, TOKN = 999999;
u64 __sym_text(void* os, u32 s, u64 v, u32 w, u32 isD)
{
    if (!s)
        return v;
    if (os == (void*)&std::cerr || os == (void*)&std::cout ||
        os == (void*)&std::clog)
        return 0;
    RT rt;
    if (isD)
    {
        if (TOK0 + tokens.size() > TOKN)
            unsupported("too many numbers printed");
        tokens.push_back(s);
        double d = (double)(TOK0 + tokens.size() - 1);
        memcpy(&v, &d, 8);
        return v;
    }
    return concretize(s, w, "a printed number");
}
void __sym_clear(void* p, u64 n)
{
    u64 a = (u64)p;
    u64 q = a >> 12;
    if (q > pgHi || ((a + n) >> 12) < pgLo)
        return;
    clearRange(a, n);
}
void __sym_copy_shadow(void* d, void* s, u64 n)
{
    if (s)
        copyShadow((u64)d, (u64)s, n);
    else
        clearRange((u64)d, n);
}
void __sym_check_mem(void* p, u64 n, const char* what)
{
    if (anyShadow((u64)p, n))
    {
        RT rt;
        unsupported(what);
    }
}
void __sym_memmove(void* d, void* s, u64 n) { copyShadow((u64)d, (u64)s, n); }
void __sym_memset(void* d, u32 sv, u64 v, u64 n)
{
    (void)v;
    if (!sv)
    {
        clearRange((u64)d, n);
        return;
    }
    RT rt;
    u32 b = N[sv].w > 8 ? mkExtract(sv, 0, 8) : sv;
    for (u64 i = 0; i < n; i++)
        setByte((u64)d + i, b, 0);
}

// ------------------------------------------------------------- libc models
static inline u32 A(int i)
{
    u32 v = __sym_arg[i];
    return v;
}
static inline void R(u32 v) { __sym_ret[0] = v; }
static void* cp(int i, const void* p)
{
    u32 s = A(i);
    if (!s)
        return (void*)p;
    RT rt;
    u32 a1 = A(1), a2 = A(2), a0 = A(0);
    void* r = (void*)concretize(s, 64, "a pointer argument");
    __sym_arg[0] = a0;
    __sym_arg[1] = a1;
    __sym_arg[2] = a2;
    return r;
}
static size_t cn(int i, size_t n)
{
    u32 s = A(i);
    if (!s)
        return n;
    RT rt;
    return concretize(s, 64, "a length argument");
}
void* __model_memcpy(void* d, const void* s, size_t n)
{
    u32 s0 = A(0);
    d = cp(0, d);
    s = cp(1, s);
    n = cn(2, n);
    memmove(d, s, n);
    copyShadow((u64)d, (u64)s, n);
    R(s0);
    return d;
}
void* __model_memmove(void* d, const void* s, size_t n)
{
    return __model_memcpy(d, s, n);
}
void* __model_memset(void* d, int c, size_t n)
{
    u32 sv = A(1);
    u32 s0 = A(0);
    d = cp(0, d);
    n = cn(2, n);
    memset(d, c, n);
    __sym_memset(d, sv, c, n);
    R(s0);
    return d;
}
int __model_memcmp(const void* a, const void* b, size_t n)
{
    a = cp(0, a);
    b = cp(1, b);
    n = cn(2, n);
    R(0);
    if (!anyShadow((u64)a, n) && !anyShadow((u64)b, n))
        return memcmp(a, b, n);
    RT rt;
    u32 r = mkConst(0, 32);
    for (size_t i = n; i-- > 0;)
    {
        u32 x = byteExpr((u64)a + i), y = byteExpr((u64)b + i);
        u32 lt = mkCmp(36, 8, x, y);
        u32 eq = mkEq(x, y);
        r = mkIte(eq, r, mkIte(lt, mkConst(0xffffffff, 32), mkConst(1, 32)));
    }
    R(r);
    return 0;
}
int __model_bcmp(const void* a, const void* b, size_t n)
{
    return __model_memcmp(a, b, n);
}
static bool byteIs(u64 a, uint8_t v)
{
    uint8_t k;
    if (!byteShadow(a, &k))
        return *(uint8_t*)a == v;
    return branchOn(mkEq(byteExpr(a), mkConst(v, 8)));
}
size_t __model_strlen(const char* s)
{
    s = (const char*)cp(0, s);
    RT rt;
    size_t n = 0;
    while (!byteIs((u64)s + n, 0))
        n++;
    R(0);
    return n;
}
static int strcmpN(const char* a, const char* b, size_t n)
{
    RT rt;
    for (size_t i = 0; i < n; i++)
    {
        u64 x = (u64)a + i, y = (u64)b + i;
        uint8_t k;
        if (!byteShadow(x, &k) && !byteShadow(y, &k))
        {
            int d = (int)*(uint8_t*)x - (int)*(uint8_t*)y;
            if (d)
                return d;
            if (!*(uint8_t*)x)
                return 0;
            continue;
        }
        u32 ex = byteExpr(x), ey = byteExpr(y);
        if (!branchOn(mkEq(ex, ey)))
            return branchOn(mkCmp(36, 8, ex, ey)) ? -1 : 1;
        if (branchOn(mkEq(ex, mkConst(0, 8))))
            return 0;
    }
    return 0;
}
int __model_strcmp(const char* a, const char* b)
{
    a = (const char*)cp(0, a);
    b = (const char*)cp(1, b);
    int r = strcmpN(a, b, SIZE_MAX);
    R(0);
    return r;
}
int __model_strncmp(const char* a, const char* b, size_t n)
{
    a = (const char*)cp(0, a);
    b = (const char*)cp(1, b);
    n = cn(2, n);
    int r = strcmpN(a, b, n);
    R(0);
    return r;
}
void* __model_memchr(const void* s, int c, size_t n)
{
    u32 sc = A(1);
    s = cp(0, s);
    n = cn(2, n);
    RT rt;
    u32 ce = sc ? mkExtract(sc, 0, 8) : mkConst((uint8_t)c, 8);
    if (sc && n && n <= 64 && !anyShadow((u64)s, n))
    {
        // one path for "found", the position stays symbolic
        u32 found = mkConst(0, 1), at = mkConst((u64)s, 64);
        for (size_t i = n; i-- > 0;)
        {
            u32 e = mkEq(byteExpr((u64)s + i), ce);
            found = mkOr(found, e);
            at = mkIte(e, mkConst((u64)s + i, 64), at);
        }
        if (!branchOn(found))
        {
            R(0);
            return nullptr;
        }
        R(isC(at) ? 0 : at);
        return isC(at) ? (void*)cval(at) : (void*)s;
    }
    for (size_t i = 0; i < n; i++)
    {
        u32 e = mkEq(byteExpr((u64)s + i), ce);
        if (branchOn(e))
        {
            R(0);
            return (char*)s + i;
        }
    }
    R(0);
    return nullptr;
}
wchar_t* __model_wmemset(wchar_t* d, wchar_t c, size_t n)
{
    for (size_t i = 0; i < n; i++)
        d[i] = c;
    clearRange((u64)d, n * sizeof(wchar_t));
    R(0);
    return d;
}
#define FN1(name, OP)                                                          \
    double __model_##name(double x)                                            \
    {                                                                          \
        u32 s = A(0);                                                          \
        RT rt;                                                                 \
        R(s ? mkUn(OP, s) : 0);                                                \
        return name(x);                                                        \
    }
FN1(floor, OP_FLOOR)
FN1(ceil, OP_FCEIL)
FN1(trunc, OP_FTRUNC)
FN1(round, OP_FROUND)
FN1(rint, OP_FRINT)
FN1(nearbyint, OP_FRINT)
FN1(sqrt, OP_FSQRT)
FN1(exp, OP_FEXP)
FN1(log, OP_FLOG)
FN1(fabs, OP_FABS)
double __model_pow(double x, double y)
{
    u32 a = A(0), b = A(1);
    RT rt;
    R(__sym_bin(OP_FPOW, 64, a, asU(x), b, asU(y)));
    return pow(x, y);
}
double __model_fmod(double x, double y)
{
    u32 a = A(0), b = A(1);
    RT rt;
    R(__sym_bin(OP_FREM, 64, a, asU(x), b, asU(y)));
    return fmod(x, y);
}
static double minmax(double x, double y, bool mx)
{
    u32 a = A(0), b = A(1);
    if (!(a | b))
    {
        R(0);
        return mx ? fmax(x, y) : fmin(x, y);
    }
    RT rt;
    u32 ea = lift(a, asU(x), 64), eb = lift(b, asU(y), 64);
    if (branchOn(mkUn(OP_FNAN, ea)))
    {
        R(b);
        return y;
    }
    if (branchOn(mkUn(OP_FNAN, eb)))
    {
        R(a);
        return x;
    }
    bool lt = branchOn(mkCmp(4, 64, ea, eb));
    bool first = mx ? !lt : lt;
    R(first ? a : b);
    return first ? x : y;
}
double __model_fmin(double x, double y) { return minmax(x, y, false); }
double __model_fmax(double x, double y) { return minmax(x, y, true); }
long __model_lround(double x)
{
    u32 s = A(0);
    RT rt;
    R(s ? mkCast(OP_FPTOSI, 64, 64, mkUn(OP_FROUND, s)) : 0);
    return lround(x);
}
long long __model_llround(double x) { return __model_lround(x); }
int __model_abs(int x)
{
    u32 s = A(0);
    RT rt;
    if (s)
        R(mkIte(mkCmp(40, 32, s, mkConst(0, 32)),
                mkBin(OP_SUB, 32, mkConst(0, 32), s), s));
    else
        R(0);
    return abs(x);
}
long __model_labs(long x)
{
    u32 s = A(0);
    RT rt;
    if (s)
        R(mkIte(mkCmp(40, 64, s, mkConst(0, 64)),
                mkBin(OP_SUB, 64, mkConst(0, 64), s), s));
    else
        R(0);
    return labs(x);
}
long long __model_llabs(long long x) { return __model_labs(x); }
int __model_isnan(double x)
{
    u32 s = A(0);
    RT rt;
    R(s ? mkCast(OP_ZEXT, 1, 32, mkUn(OP_FNAN, s)) : 0);
    return x != x;
}
int __model_isinf(double x)
{
    u32 s = A(0);
    RT rt;
    R(s ? mkCast(OP_ZEXT, 1, 32,
                 mkCmp(1, 64, mkUn(OP_FABS, s), mkConst(0x7ff0000000000000ull, 64)))
        : 0);
    return __builtin_isinf(x);
}
static void* fresh(void* p, size_t n)
{
    if (p)
        clearRange((u64)p, n);
    R(0);
    return p;
}
void* __model_malloc(size_t n)
{
    n = cn(0, n);
    return fresh(malloc(n), n);
}
void* __model_calloc(size_t k, size_t n)
{
    k = cn(0, k);
    n = cn(1, n);
    return fresh(calloc(k, n), k * n);
}
extern size_t malloc_usable_size(void*) noexcept;
// memory given back may be used next by code that is not instrumented: nothing
// is to be left of what was there
static void* gone(void* p)
{
    if (p)
        clearRange((u64)p, malloc_usable_size(p));
    return p;
}
// likewise the stack below the caller
void __sym_below()
{
    u64 sp = (u64)__builtin_frame_address(0);
    __sym_clear((void*)(sp - 16384), 16384);
}
void* __model_realloc(void* p, size_t n)
{
    n = cn(1, n);
    if (!p)
        return fresh(malloc(n), n);
    void* q = malloc(n);
    size_t o = malloc_usable_size(p);
    size_t k = o < n ? o : n;
    clearRange((u64)q, n);
    memcpy(q, p, k);
    copyShadow((u64)q, (u64)p, k);
    free(gone(p));
    R(0);
    return q;
}
void __model_free(void* p) { free(gone(p)); }
static void* newChecked(size_t n)
{
    n = cn(0, n);
    if (n > (1ull << 40))
        throw std::bad_alloc();
    return fresh(::operator new(n), n);
}
void* __model__Znwm(size_t n) { return newChecked(n); }
void* __model__Znam(size_t n) { return newChecked(n); }
void __model__ZdlPv(void* p) { ::operator delete(gone(p)); }
void __model__ZdlPvm(void* p, size_t) { ::operator delete(gone(p)); }
void __model__ZdaPv(void* p) { ::operator delete[](gone(p)); }
void __model__ZdaPvm(void* p, size_t) { ::operator delete[](gone(p)); }
void* __model__ZnwmSt11align_val_t(size_t n, std::align_val_t al)
{
    n = cn(0, n);
    return fresh(::operator new(n, al), n);
}
void __model__ZdlPvmSt11align_val_t(void* p, size_t, std::align_val_t al)
{
    ::operator delete(gone(p), al);
}
void __model__ZdlPvSt11align_val_t(void* p, std::align_val_t al)
{
    ::operator delete(gone(p), al);
}
void* __cxa_allocate_exception(size_t) noexcept;
void* __model___cxa_allocate_exception(size_t n)
{
    return fresh(__cxa_allocate_exception(n), n);
}

// ------------------------------------------------------------- harness API
static std::string uniq(const char* n)
{
    int k = occ[n]++;
    return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
uint64_t sym_int_(const char* name, int w, int sg, int64_t lo, int64_t hi)
{
    RT rt;
    VarInfo v{};
    v.name = uniq(name);
    v.w = w;
    v.fp = false;
    v.isSigned = sg;
    v.lo = lo;
    v.hi = hi;
    u32 idx = vars.size();
    vars.push_back(v);
    u32 id = mk(OP_VAR, w, 0, 0, 0, idx);
    vars[idx].id = id;
    SH->symVars++;
    for (auto& m : models)
        pad(m);
    auto cst = [&](i64 x) { return mkConst((u64)x, w); };
    bool full = sg ? (w == 64 ? (lo == INT64_MIN && hi == INT64_MAX)
                              : (lo <= -(1ll << (w - 1)) &&
                                 hi >= (1ll << (w - 1)) - 1))
                   : (lo <= 0 && (u64)hi >= mask(w));
    if (!full && w > 1)
    {
        // as they stand: the simplifier takes the bounds of a variable for
        // granted
        addPC(mk(sg ? OP_SLE : OP_ULE, 1, cst(lo), id));
        addPC(mk(sg ? OP_SLE : OP_ULE, 1, id, cst(hi)));
    }
    u32 r = id;
    if (w < 64)
        r = mkCast(sg ? OP_SEXT : OP_ZEXT, w, 64, id);
    R(r);
    return lo <= 0 && hi >= 0 ? 0 : lo;
}
double sym_f64_(const char* name, double lo, double hi, int special)
{
    RT rt;
    VarInfo v{};
    v.name = uniq(name);
    v.w = 64;
    v.fp = true;
    v.dlo = lo;
    v.dhi = hi;
    v.special = special;
    u32 idx = vars.size();
    vars.push_back(v);
    u32 id = mk(OP_VAR, 64, 0, 0, 0, idx);
    vars[idx].id = id;
    SH->symVars++;
    double def = lo <= 0 && hi >= 0 ? 0.0 : lo;
    for (auto& m : models)
        pad(m);
    u32 L0 = mkConst(asU(lo), 64), H0 = mkConst(asU(hi), 64);
    u32 in = mkAnd(mkCmp(5, 64, L0, id), mkCmp(5, 64, id, H0));
    u32 c = in;
    if (special & 1)
        c = mkOr(c, mkUn(OP_FNAN, id));
    if (special & 2)
        c = mkOr(c, mkCmp(1, 64, mkUn(OP_FABS, id), mkConst(0x7ff0000000000000ull, 64)));
    bool all = (special & 3) == 3 && lo <= -1.79e308 && hi >= 1.79e308;
    if (!all)
        addPC(c);
    ivMemo.clear();
    R(id);
    return def;
}
int sym_pick(const char* name, int n)
{
    RT rt;
    std::string u = uniq(name);
    R(0);
    for (int i = 0; i + 1 < n; i++)
    {
        checkStop();
        if (forkPath())
        {
            picks[u] = i;
            return i;
        }
    }
    picks[u] = n - 1;
    return n - 1;
}
void sym_assume(bool c)
{
    u32 s = A(0);
    RT rt;
    if (!s)
    {
        if (!c)
        {
            SH->pathsPruned++;
            finish();
        }
        return;
    }
    if (isC(s))
    {
        if (!(cval(s) & 1))
        {
            SH->pathsPruned++;
            finish();
        }
        return;
    }
    Res r = query(s);
    if (r == UNSAT_)
    {
        SH->pathsPruned++;
        finish();
    }
    addPC(s);
}
void sym_assert(bool c, const char* label)
{
    u32 s = A(0);
    RT rt;
    SH->obligations++;
    if (s)
    {
        int k = known(s);
        if (k >= 0)
        {
            c = k;
            s = 0;
        }
    }
    if (!s)
    {
        if (c)
        {
            SH->trivial++;
            SH->discharged++;
            return;
        }
        Model m;
        Res r = decide(mkConst(1, 1), &m);
        if (r == UNSAT_)
        {
            SH->discharged++;
            SH->pathsPruned++;
            finish();
        }
        if (r == SAT_VALID)
        {
            SH->violations++;
            report("violation", label, &m);
        }
        else
        {
            SH->inconclusive++;
            report("inconclusive", label, nullptr);
        }
        pathEnd(false);
        finish();
    }
    Model m;
    u32 ns = mkNot(s);
    Res r = decide(ns, &m);
    if (r == UNSAT_)
    {
        SH->discharged++;
        if (dumpDir)
        {
            dumpQuery(ns);
        }
        // keep as a known fact for later intervals
        refineAtom(s);
        PCset.insert(s);
        return;
    }
    if (r == SAT_VALID)
    {
        if (SH->violations++ < (u64)maxVio * 4)
            report("violation", label, &m);
    }
    else
    {
        SH->inconclusive++;
        report("inconclusive", label, nullptr);
    }
    // continue on the side where it holds, if any
    if (query(s) == UNSAT_)
    {
        pathEnd(false);
        finish();
    }
    addPC(s);
}
void sym_assert_close(double a, double b, double rel, double abs_,
                      const char* label)
{
    u32 sa = A(0), sb = A(1);
    u32 r;
    {
        RT rt;
        u32 ea = lift(sa, asU(a), 64), eb = lift(sb, asU(b), 64);
        u32 same = mkOr(mkCmp(1, 64, ea, eb),
                        mkAnd(mkUn(OP_FNAN, ea), mkUn(OP_FNAN, eb)));
        if (known(same) == 1 || query(mkNot(same), nullptr, 1) == UNSAT_)
        {
            // identical values: no tolerance needed
            SH->obligations++;
            SH->discharged++;
            if (known(same) == 1)
                SH->trivial++;
            return;
        }
        u32 d = mkUn(OP_FABS, mkBin(OP_FADD, 64, ea, mkUn(OP_FNEG, eb)));
        u32 lim = mkBin(OP_FADD, 64,
                        mkBin(OP_FMUL, 64, mkUn(OP_FABS, eb),
                              mkConst(asU(rel), 64)),
                        mkConst(asU(abs_), 64));
        r = mkOr(same, mkCmp(5, 64, d, lim));
    }
    __sym_arg[0] = r;
    sym_assert(true, label);
}
void sym_reach(const char* label)
{
    RT rt;
    reached.push_back(label);
}
void sym_obs_i(const char* n, int64_t v)
{
    u32 s = A(1);
    RT rt;
    observations.push_back({n, lift(s, (u64)v, 64)});
}
void sym_obs_d(const char* n, double v)
{
    u32 s = A(1);
    RT rt;
    u32 e = lift(s, asU(v), 64);
    // canonical zero / NaN, like the native side
    u32 z = mkCmp(1, 64, e, mkConst(0, 64));
    e = mkIte(mkUn(OP_FNAN, e), mkConst(0x7ff8000000000000ull, 64),
              mkIte(z, mkConst(0, 64), e));
    observations.push_back({n, e});
}
double sym_ite_d(bool c, double a, double b)
{
    u32 sc = A(0), sa = A(1), sb = A(2);
    RT rt;
    if (sc)
    {
        int k = resolved(sc);
        if (k >= 0)
        {
            c = k;
            sc = 0;
        }
    }
    if (!sc)
    {
        R(c ? sa : sb);
        return c ? a : b;
    }
    R(mkIte(sc, lift(sa, asU(a), 64), lift(sb, asU(b), 64)));
    return a;
}
double sym_text_f64(const char* s)
{
    RT rt;
    double d = strtod(s, nullptr);
    u32 r = 0;
    if (d >= (double)TOK0 && d < (double)(TOK0 + tokens.size()))
        r = tokens[(u64)d - TOK0];
    R(r);
    return d;
}
int64_t sym_ite_i(bool c, int64_t a, int64_t b)
{
    u32 sc = A(0), sa = A(1), sb = A(2);
    RT rt;
    if (sc)
    {
        int k = resolved(sc);
        if (k >= 0)
        {
            c = k;
            sc = 0;
        }
    }
    if (!sc)
    {
        R(c ? sa : sb);
        return c ? a : b;
    }
    R(mkIte(sc, lift(sa, a, 64), lift(sb, b, 64)));
    return a;
}
int64_t sym_fix(int64_t v)
{
    u32 s = A(0);
    if (!s)
    {
        R(0);
        return v;
    }
    RT rt;
    u64 r = concretize(s, 64, "sym_fix");
    R(0);
    return (int64_t)r;
}
void sym_stop()
{
    RT rt;
    pathEnd(true);
    finish();
}
} // extern C

// ------------------------------------------------------------- main
static std::map<std::string, sym_harness_fn>& htable()
{
    static std::map<std::string, sym_harness_fn> t;
    return t;
}
void sym_register(const char* n, sym_harness_fn f) { htable()[n] = f; }

static double envd(const char* n, double d)
{
    const char* e = getenv(n);
    return e ? atof(e) : d;
}
int main(int argc, char** argv)
{
    if (argc < 3)
    {
        for (auto& [k, v] : htable())
            printf("%s\n", k.c_str());
        return 0;
    }
    tStart = now();
    timeLimit = envd("SYM_TIME_LIMIT", 600);
    ladderLimitS = envd("SYM_LADDER_LIMIT", 40);
    rlimitQ = (unsigned)envd("SYM_RLIMIT", 200000000.0);
    branchLevel = (int)envd("SYM_BRANCH_LEVEL", 1);
    sampleCap = (int)envd("SYM_SAMPLES", 24);
    pathCpuLimit = envd("SYM_PATH_CPU", 60);
    maxConc = (int)envd("SYM_MAXCONC", 64);
    slowLog = envd("SYM_SLOW", 0);
    seed = (u64)envd("VERIF_SEED", 1);
    rngState = seed * 7919 + 12345;
    dumpDir = getenv("SYM_DUMP");
    int jobs = (int)envd("SYM_JOBS", 8);
    resFd = open(argv[2], O_WRONLY | O_CREAT | O_APPEND | O_TRUNC, 0644);
    if (resFd < 0)
        return 9;
    shSize = sizeof(Shared) + __sym_fn_count + 64;
    SH = (Shared*)mmap(nullptr, shSize, PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sem_init(&SH->tokens, 1, jobs - 1);
    if (!getenv("SYM_VERBOSE"))
    {
        int dn = open("/dev/null", O_RDWR);
        dup2(dn, 1);
        dup2(dn, 2);
        dup2(dn, 0);
    }
    auto it = htable().find(argv[1]);
    if (it == htable().end())
        return 9;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0)
    {
        stack_t ss{};
        ss.ss_size = 256 << 20;
        ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        sigaltstack(&ss, nullptr);
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS})
        {
            struct sigaction sa{};
            sa.sa_handler = crashHandler;
            sa.sa_flags = SA_ONSTACK | SA_NODEFER;
            sigaction(s, &sa, nullptr);
        }
        struct sigaction sa{};
        sa.sa_handler = cpuHandler;
        sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        sigaction(SIGPROF, &sa, nullptr);
        std::set_terminate(termHandler);
        {
            RT rt;
            models.push_back(Model{});
        }
        armCpu();
        it->second();
        {
            RT rt;
            pathEnd(true);
            finish();
        }
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        ;
    // summary
    std::string fns;
    {
        const char* q = __sym_fn_names;
        bool f = true;
        for (u32 i = 0; i < __sym_fn_count; i++)
        {
            const char* e = strchr(q, '\n');
            if (SH->fnHit[i])
            {
                fns += std::string(f ? "\"" : ",\"") + std::string(q, e - q) +
                       "\"";
                f = false;
            }
            q = e + 1;
        }
    }
    char b[4096];
    auto g = [&](std::atomic<u64>& a) { return (unsigned long long)a.load(); };
    snprintf(b, sizeof b,
             "{\"kind\":\"summary\",\"paths\":%llu,\"pathsValidated\":%llu,"
             "\"pathsPruned\":%llu,\"branches\":%llu,\"forks\":%llu,"
             "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,"
             "\"cacheHits\":%llu,\"searchHits\":%llu,\"solver_s\":%.3f,\"obligations\":%llu,"
             "\"discharged\":%llu,\"trivial\":%llu,\"violations\":%llu,"
             "\"inconclusive\":%llu,\"ladder\":%llu,\"ladderProved\":%llu,"
             "\"lemmas\":%llu,\"maxDepth\":%llu,\"crashed\":%llu,"
             "\"unsupported\":%llu,\"killed\":%llu,\"stopped\":%d,"
             "\"symVars\":%llu,\"rootStatus\":%d,\"wall_s\":%.3f,\"functions\":[",
             g(SH->paths), g(SH->pathsValidated), g(SH->pathsPruned),
             g(SH->branches), g(SH->forks), g(SH->queries), g(SH->qSat),
             g(SH->qUnsat), g(SH->qUnknown), g(SH->cacheHits), g(SH->searchHits),
             SH->solverUs.load() / 1e6, g(SH->obligations), g(SH->discharged),
             g(SH->trivial), g(SH->violations), g(SH->inconclusive),
             g(SH->ladder), g(SH->ladderProved), g(SH->lemmas), g(SH->maxDepth),
             g(SH->crashed), g(SH->unsupported), g(SH->killed),
             SH->stop.load(), g(SH->symVars), st, now() - tStart);
    emit(std::string(b) + fns + "]}");
    return 0;
}
