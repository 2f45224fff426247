// The PID law (pid/ec/pid.cpp): one step from an arbitrary state, so the
// claims cover histories of any length by induction, plus short histories
// from a fresh controller.
#include "common/util.hpp"
#include "pid/ec/pid.hpp"
#include "util.hpp"
using namespace pid_control;
using namespace pid_control::ec;
static const double M = 1e12;

static pidinfo anyConfig()
{
    pidinfo p;
    p.ts = sym_f64("ts", 0.001, 100);
    p.outLim.min = sym_f64("outMin", -M, M);
    p.outLim.max = sym_f64("outMax", -M, M);
    sym_assume(p.outLim.min <= p.outLim.max);
    p.integralLimit.min = sym_f64("intMin", -M, M);
    p.integralLimit.max = sym_f64("intMax", -M, M);
    sym_assume(p.integralLimit.min <= p.integralLimit.max);
    p.proportionalCoeff = sym_f64("kp", -M, M);
    p.integralCoeff = sym_f64("ki", -M, M);
    p.derivativeCoeff = sym_f64("kd", -M, M);
    p.feedFwdOffset = sym_f64("ffo", -M, M);
    p.feedFwdGain = sym_f64("ffg", -M, M);
    p.slewNeg = sym_f64("slewNeg", -M, 0);
    p.slewPos = sym_f64("slewPos", 0, M);
    return p;
}
// a state some history can have left behind
static pid_info_t anyState(const pidinfo& c)
{
    pid_info_t p;
    initializePIDStruct(&p, c);
    p.initialized = sym_bool("initialized");
    p.integral = sym_f64("integral", -M, M);
    p.lastOutput = sym_f64("lastOutput", -M, M);
    p.lastError = sym_f64("lastError", -2 * M, 2 * M);
    return p;
}
static bool outputInv(const pid_info_t& p)
{
    return sym_or(!p.initialized, sym_and(p.lastOutput >= p.outLim.min,
                                          p.lastOutput <= p.outLim.max));
}

struct Ref
{
    bool init = false;
    double integral = 0, lastOutput = 0, lastError = 0;
    double step(const pidinfo& c, double input, double setpt)
    {
        double error = setpt - input;
        double P = c.proportionalCoeff * error;
        double I = integral + error * c.integralCoeff * c.ts;
        I = hv::clampRef(I, c.integralLimit.min, c.integralLimit.max);
        I = sym_ite_d(c.integralCoeff != 0, I, 0.0);
        double D = c.derivativeCoeff * ((error - lastError) / c.ts);
        double F = (setpt + c.feedFwdOffset) * c.feedFwdGain;
        double out = hv::clampRef(P + I + D + F, c.outLim.min, c.outLim.max);
        double lo = lastOutput + c.slewNeg * c.ts;
        double hi = lastOutput + c.slewPos * c.ts;
        out = sym_ite_d(sym_and(init, sym_and(c.slewNeg != 0, out < lo)), lo,
                        out);
        out = sym_ite_d(sym_and(init, sym_and(c.slewPos != 0, out > hi)), hi,
                        out);
        bool slewed = sym_and(init, sym_or(c.slewNeg != 0, c.slewPos != 0));
        I = sym_ite_d(slewed, out - P, I);
        integral = hv::clampRef(I, c.integralLimit.min, c.integralLimit.max);
        init = true;
        lastError = error;
        lastOutput = out;
        return out;
    }
};

SYM_HARNESS(output_limits)
{
    pidinfo c = anyConfig();
    pid_info_t p = anyState(c);
    sym_assume(outputInv(p));
    double o = pid(&p, sym_f64("input", -M, M), sym_f64("setpt", -M, M));
    sym_assert(o >= p.outLim.min, "output below its configured minimum");
    sym_assert(o <= p.outLim.max, "output above its configured maximum");
    // the invariant carries over to the next step
    sym_assert(outputInv(p), "remembered output outside the limits");
    sym_assert(p.outLim.min == c.outLim.min, "limits changed");
    sym_assert(p.outLim.max == c.outLim.max, "limits changed");
    sym_obs_d("out", o);
    sym_reach("end");
}

SYM_HARNESS(output_limits_history)
{
    // from a fresh controller, varying inputs and setpoints
    pidinfo c = anyConfig();
    if (sym_pick("noD", 2) == 0)
        c.derivativeCoeff = c.feedFwdGain = 0;
    else
        c.integralCoeff = 0;
    pid_info_t p;
    initializePIDStruct(&p, c);
#ifdef SYM_THOROUGH
    const int steps = 3;
#else
    const int steps = 2;
#endif
    for (int i = 0; i < steps; i++)
    {
        double o = pid(&p, sym_f64("input", -M, M), sym_f64("setpt", -M, M));
        sym_assert(o >= c.outLim.min, "output below its configured minimum");
        sym_assert(o <= c.outLim.max, "output above its configured maximum");
        sym_obs_d("out", o);
    }
    sym_reach("end");
}

SYM_HARNESS(integral_limits)
{
    pidinfo c = anyConfig();
    pid_info_t p = anyState(c);
    double o = pid(&p, sym_f64("input", -M, M), sym_f64("setpt", -M, M));
    sym_assert(p.integral >= c.integralLimit.min,
               "integral term below its limit");
    sym_assert(p.integral <= c.integralLimit.max,
               "integral term above its limit");
    sym_obs_d("integral", p.integral);
    sym_obs_d("out", o);
    sym_reach("end");
}
// seen from outside: with only an integral coefficient the output is the
// integral term
SYM_HARNESS(integral_visible)
{
    pidinfo c = anyConfig();
    c.proportionalCoeff = c.derivativeCoeff = c.feedFwdGain = 0;
    c.slewNeg = c.slewPos = 0;
    c.outLim.min = -1e300;
    c.outLim.max = 1e300;
    sym_assume(c.integralCoeff != 0);
    pid_info_t p;
    initializePIDStruct(&p, c);
#ifdef SYM_THOROUGH
    const int steps = 4;
#else
    const int steps = 3;
#endif
    for (int i = 0; i < steps; i++)
    {
        double o = pid(&p, sym_f64("input", -M, M), sym_f64("setpt", -M, M));
        sym_assert(o >= c.integralLimit.min, "integral windup below the limit");
        sym_assert(o <= c.integralLimit.max, "integral windup above the limit");
        sym_obs_d("out", o);
    }
    sym_reach("end");
}

SYM_HARNESS(slew)
{
    pidinfo c = anyConfig();
    pid_info_t p = anyState(c);
    sym_assume(outputInv(p));
    bool init = p.initialized;
    double last = p.lastOutput;
    double o = pid(&p, sym_f64("input", -M, M), sym_f64("setpt", -M, M));
    double lo = last + c.slewNeg * c.ts, hi = last + c.slewPos * c.ts;
    sym_assert(sym_imp(sym_and(init, c.slewNeg != 0), o >= lo),
               "output fell faster than the slew limit");
    sym_assert(sym_imp(sym_and(init, c.slewPos != 0), o <= hi),
               "output rose faster than the slew limit");
    // the next step starts from the output just produced
    hv::assertClose(p.lastOutput, o, "slew base is not the last output");
    sym_assert(p.initialized, "slew limiting not armed after the first step");
    sym_obs_d("out", o);
    sym_reach("end");
}
SYM_HARNESS(slew_history)
{
    pidinfo c = anyConfig();
    c.integralCoeff = 0;
    c.derivativeCoeff = 0;
    c.feedFwdGain = 0;
    pid_info_t p;
    initializePIDStruct(&p, c);
    double last = 0;
#ifdef SYM_THOROUGH
    const int steps = 4;
#else
    const int steps = 3;
#endif
    for (int i = 0; i < steps; i++)
    {
        double o = pid(&p, sym_f64("input", -M, M), sym_f64("setpt", -M, M));
        if (i)
        {
            double lo = last + c.slewNeg * c.ts, hi = last + c.slewPos * c.ts;
            sym_assert(sym_imp(c.slewNeg != 0, o >= lo),
                       "output fell faster than the slew limit");
            sym_assert(sym_imp(c.slewPos != 0, o <= hi),
                       "output rose faster than the slew limit");
        }
        last = o;
        sym_obs_d("out", o);
    }
    sym_reach("end");
}

SYM_HARNESS(law)
{
    pidinfo c = anyConfig();
    pid_info_t p = anyState(c);
    Ref r;
    r.init = p.initialized;
    r.integral = p.integral;
    r.lastOutput = p.lastOutput;
    r.lastError = p.lastError;
    double in = sym_f64("input", -M, M), sp = sym_f64("setpt", -M, M);
    double o = pid(&p, in, sp);
    double e = r.step(c, in, sp);
    hv::assertClose(o, e, "output differs from the PID law");
    hv::assertClose(p.integral, r.integral,
               "carried integral differs from the PID law");
    hv::assertClose(p.lastError, r.lastError,
               "carried error differs from the PID law");
    hv::assertClose(p.lastOutput, r.lastOutput,
               "carried output differs from the PID law");
    sym_assert(p.initialized, "not marked as running");
    sym_obs_d("out", o);
    sym_reach("end");
}
SYM_HARNESS(law_history)
{
    pidinfo c = anyConfig();
    pid_info_t p;
    initializePIDStruct(&p, c);
    Ref r;
    int kind = sym_pick("terms", 3);
    if (kind == 0)
        c.integralCoeff = 0;
    if (kind == 1)
        c.slewNeg = c.slewPos = 0;
    if (kind == 2)
        c.derivativeCoeff = c.feedFwdGain = 0;
    initializePIDStruct(&p, c);
#ifdef SYM_THOROUGH
    const int steps = 3;
#else
    const int steps = 2;
#endif
    for (int i = 0; i < steps; i++)
    {
        double in = sym_f64("input", -M, M), sp = sym_f64("setpt", -M, M);
        double o = pid(&p, in, sp);
        double e = r.step(c, in, sp);
        hv::assertClose(o, e, "output differs from the PID law");
        sym_obs_d("out", o);
    }
    sym_reach("end");
}
