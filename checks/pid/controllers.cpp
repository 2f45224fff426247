// The controllers between the zone and the PID law: hysteresis, stepwise
// tables, thermal input selection, fan input and fan output.
#include "config.h"

#include "common/mockzone.hpp"
#include "common/util.hpp"
#include "pid/ec/pid.hpp"
#include "pid/ec/stepwise.hpp"
#include "pid/fancontroller.hpp"
#include "pid/stepwisecontroller.hpp"
#include "pid/thermalcontroller.hpp"
#include "pid/tuning.hpp"
#include "util.hpp"
using namespace pid_control;
static const double M = 1e9;
static const double BIG = 1e300;

static ec::pidinfo plainPid(double kp)
{
    ec::pidinfo p{};
    p.checkHysterWithSetpt = false;
    p.ts = 1.0;
    p.proportionalCoeff = kp;
    p.integralCoeff = 0;
    p.derivativeCoeff = 0;
    p.feedFwdOffset = 0;
    p.feedFwdGain = 0;
    p.integralLimit = {0, 0};
    p.outLim = {-BIG, BIG};
    p.slewNeg = p.slewPos = 0;
    p.negativeHysteresis = p.positiveHysteresis = 0;
    return p;
}
static conf::SensorInput in(const std::string& n)
{
    conf::SensorInput s;
    s.name = n;
    return s;
}
static double runThermal(hv::MockZone& z, PIDController& c)
{
    z.setpoints.clear();
    c.process();
    sym_assert(z.setpoints.size() == 1, "not exactly one request per pass");
    sym_assert(z.setpoints[0].first == c.getID(),
               "request made under another name");
    return z.setpoints[0].second;
}

// ---------------------------------------------------------------- hysteresis
SYM_HARNESS(hysteresis)
{
    // a proportional controller shows the reading it works on
    hv::MockZone z;
    ec::pidinfo p = plainPid(1.0);
    p.positiveHysteresis = sym_f64("posHyst", 0, M);
    p.negativeHysteresis = sym_f64("negHyst", 0, M);
    double sp = sym_f64("setpoint", -M, M);
    auto c = ThermalController::createThermalPid(&z, "t", {in("a")}, sp, p,
                                                 ThermalType::absolute);
#ifdef SYM_THOROUGH
    const int steps = 5;
#else
    const int steps = 4;
#endif
    double eff = 0;
    for (int i = 0; i < steps; i++)
    {
        double x = sym_f64("reading", -M, M);
        z.cache["a"] = {x, x};
        double o = runThermal(z, *c);
        if (i == 0)
            eff = x;
        else
        {
            bool take = sym_or(x - eff > p.positiveHysteresis,
                               eff - x > p.negativeHysteresis);
            eff = sym_ite_d(take, x, eff);
        }
        hv::assertClose(o, sp - eff,
                        "output not computed from the last accepted reading");
        sym_obs_d("out", o);
    }
    sym_reach("end");
}
// hysteresis measured against the setpoint
SYM_HARNESS(hysteresis_setpoint)
{
    hv::MockZone z;
    int kind = sym_pick("terms", 2);
    ec::pidinfo p = plainPid(kind ? 0.0 : 1.0);
    p.checkHysterWithSetpt = true;
    if (kind)
    {
        p.integralCoeff = 1.0;
        p.integralLimit = {-BIG, BIG};
    }
    p.positiveHysteresis = sym_f64("posHyst", 0, M);
    p.negativeHysteresis = sym_f64("negHyst", 0, M);
    double sp = sym_f64("setpoint", -M, M);
    auto c = ThermalController::createThermalPid(&z, "t", {in("a")}, sp, p,
                                                 ThermalType::absolute);
    double last = 0, integral = 0;
#ifdef SYM_THOROUGH
    const int steps = 4;
#else
    const int steps = 3;
#endif
    for (int i = 0; i < steps; i++)
    {
        double x = sym_f64("reading", -M, M);
        z.cache["a"] = {x, x};
        double o = runThermal(z, *c);
        if (x > sp + p.positiveHysteresis)
        {
            if (kind)
            {
                integral += sp - x;
                last = integral;
            }
            else
                last = sp - x;
        }
        else if (x < sp - p.negativeHysteresis)
        {
            integral = 0;
            last = 0;
        }
        hv::assertClose(o, last,
                        "output differs from the hysteresis-around-setpoint rule");
        sym_obs_d("out", o);
    }
    sym_reach("end");
}

// ---------------------------------------------------------------- stepwise
static const int pointCounts[] = {1, 2, 3, 19, 20};
static void anyTable(ec::StepwiseInfo& s, int n)
{
    s.ts = 1.0;
    for (size_t i = 0; i < ec::maxStepwisePoints; i++)
    {
        if ((int)i < n)
        {
            s.reading[i] = sym_f64("tableReading", -M, M);
            s.output[i] = sym_f64("tableOutput", -M, M);
            if (i)
                sym_assume(s.reading[i - 1] < s.reading[i]);
        }
        else if ((int)i == n)
            s.reading[i] = s.output[i] = NAN;
        else
        {
            // whatever was left there
            s.reading[i] = sym_f64_any("junk");
            s.output[i] = sym_f64_any("junk");
        }
    }
}
static double tableRef(const ec::StepwiseInfo& s, int n, double x)
{
    double o = s.output[0];
    for (int i = 1; i < n; i++)
        o = sym_ite_d(x >= s.reading[i], s.output[i], o);
    return o;
}
SYM_HARNESS(stepwise_table)
{
    ec::StepwiseInfo s{};
    int n = pointCounts[sym_pick("points", 5)];
    anyTable(s, n);
    double x = sym_f64_(
        "input", std::numeric_limits<double>::lowest(),
        std::numeric_limits<double>::max(), 2);
    double o = ec::stepwise(s, x);
    sym_assert(sym_same(o, tableRef(s, n, x)),
               "not the output of the highest point at or below the input");
    sym_obs_d("out", o);
    sym_reach("end");
}
SYM_HARNESS(stepwise_controller)
{
    hv::MockZone z;
    ec::StepwiseInfo s{};
    int n = 1 + sym_pick("points", 3);
    anyTable(s, n);
    s.positiveHysteresis = sym_f64("posHyst", 0, M);
    s.negativeHysteresis = sym_f64("negHyst", 0, M);
    s.isCeiling = sym_pick("ceiling", 2);
    auto c = StepwiseController::createStepwiseController(&z, "sw", {"a"}, s);
#ifdef SYM_THOROUGH
    const int steps = 4;
#else
    const int steps = 3;
#endif
    double acc = 0;
    for (int i = 0; i < steps; i++)
    {
        double x = sym_f64("reading", -M, M);
        z.cache["a"] = {x, sym_f64("rawReading", -M, M)};
        z.setpoints.clear();
        z.ceilings.clear();
        c->process();
        double o;
        if (s.isCeiling)
        {
            sym_assert(z.setpoints.empty(), "a ceiling also asked for a speed");
            sym_assert(z.ceilings.size() == 1, "not exactly one ceiling per pass");
            o = z.ceilings[0];
        }
        else
        {
            sym_assert(z.ceilings.empty(), "a floor also set a ceiling");
            sym_assert(z.setpoints.size() == 1, "not exactly one request per pass");
            sym_assert(z.setpoints[0].first == "sw",
                       "request made under another name");
            o = z.setpoints[0].second;
        }
        if (i == 0)
            acc = x;
        else
            acc = sym_ite_d(sym_or(x - acc > s.positiveHysteresis,
                                   acc - x > s.negativeHysteresis),
                            x, acc);
        sym_assert(sym_same(o, tableRef(s, n, acc)),
                   "output not the table value of the last accepted reading");
        sym_obs_d("out", o);
    }
    sym_reach("end");
}
SYM_HARNESS(stepwise_inputs)
{
    hv::MockZone z;
    ec::StepwiseInfo s{};
    anyTable(s, 3);
    s.positiveHysteresis = s.negativeHysteresis = 0;
    s.isCeiling = false;
    std::vector<std::string> names;
    double best = std::numeric_limits<double>::lowest();
    int k = 1 + sym_pick("inputs", 3);
    for (int i = 0; i < k; i++)
    {
        std::string nm = std::string("in") + char('0' + i);
        names.push_back(nm);
        double x = sym_f64_("reading", -M, M, 1);
        z.cache[nm] = {x, sym_f64("rawReading", -M, M)};
        best = sym_ite_d(best < x, x, best);
    }
    auto c = StepwiseController::createStepwiseController(&z, "sw", names, s);
    c->process();
    sym_assert(z.setpoints.size() == 1, "not exactly one request per pass");
    sym_assert(sym_same(z.setpoints[0].second, tableRef(s, 3, best)),
               "output not the table value of the hottest input");
    sym_obs_d("out", z.setpoints[0].second);
    sym_reach("end");
}

// ---------------------------------------------------------------- thermal in
SYM_HARNESS(thermal_input)
{
    hv::MockZone z;
    int type = sym_pick("type", 3);
    ThermalType tt = type == 0   ? ThermalType::margin
                     : type == 1 ? ThermalType::absolute
                                 : ThermalType::summation;
#ifdef SYM_THOROUGH
    int k = 1 + sym_pick("inputs", 4);
#else
    int k = 1 + sym_pick("inputs", 3);
#endif
    double sp = sym_f64("setpoint", -M, M);
    std::vector<conf::SensorInput> ins;
    bool any = false;
    double best = type == 0 ? std::numeric_limits<double>::max()
                  : type == 1 ? std::numeric_limits<double>::lowest()
                              : 0.0;
    for (int i = 0; i < k; i++)
    {
        conf::SensorInput s = in(std::string("in") + char('0' + i));
        double x = sym_f64_("reading", -M, M, 3);
        double v = x;
        if (type == 0 && sym_pick("toMargin", 2))
        {
            s.convertTempToMargin = true;
            s.convertMarginZero = sym_f64("tjmax", -M, M);
            v = s.convertMarginZero - x;
        }
        z.cache[s.name] = {x, sym_f64("rawReading", -M, M)};
        bool ok = sym_finite(x);
        double w = type == 0   ? hv::minRef(best, v)
                   : type == 1 ? hv::maxRef(best, v)
                               : best + v;
        best = sym_ite_d(ok, w, best);
        any = sym_or(any, ok);
        ins.push_back(s);
    }
    double expect = sym_ite_d(any, best, sp);
    auto c = ThermalController::createThermalPid(&z, "t", ins, sp,
                                                 plainPid(1.0), tt);
    double o = runThermal(z, *c);
    hv::assertClose(o, sp - expect,
                    "control error not taken from the governing input");
    sym_obs_d("out", o);
    sym_reach("end");
}

// ---------------------------------------------------------------- fans
struct Fans
{
    hv::MockZone z;
    std::vector<std::unique_ptr<hv::RecSensor>> s;
    std::vector<std::string> names;
    explicit Fans(int k)
    {
        for (int i = 0; i < k; i++)
        {
            std::string n = std::string("fan") + char('0' + i);
            names.push_back(n);
            s.push_back(std::make_unique<hv::RecSensor>(n));
            s.back()->raw = sym_i64("raw", -1, 1000000);
            z.sensors[n] = s.back().get();
            z.cache[n] = {0, 0};
        }
    }
};
SYM_HARNESS(fan_input)
{
#ifdef SYM_THOROUGH
    int k = 1 + sym_pick("fans", 4);
#else
    int k = 1 + sym_pick("fans", 3);
#endif
    Fans f(k);
    double best = std::numeric_limits<double>::infinity();
    bool any = false;
    for (auto& n : f.names)
    {
        double x = sym_f64_("rpm", -M, M, 3);
        f.z.cache[n] = {sym_f64_("scaled", -M, M, 3), x};
        bool ok = sym_and(sym_finite(x), x > 0);
        best = sym_ite_d(sym_and(ok, x < best), x, best);
        any = sym_or(any, ok);
    }
    double expect = sym_ite_d(any, best, 0.0);
    double sp = sym_f64("setpoint", 0, M);
    f.z.maxSetpoint = sp;
    auto c = FanController::createFanPid(&f.z, "fan", f.names, plainPid(1.0));
    c->process();
    for (auto& s : f.s)
    {
        sym_assert(s->writes.size() == 1, "not exactly one write per fan");
        hv::assertClose(s->writes[0].v, (sp - expect) / 100.0,
                        "fan error not taken from the slowest turning fan");
        sym_obs_d("out", s->writes[0].v);
    }
    sym_reach("end");
}
// the fan loop follows the zone's request, pass after pass
SYM_HARNESS(fan_setpoint)
{
    Fans f(1);
    ec::pidinfo p = plainPid(0.0);
    p.feedFwdGain = 1.0;
    auto c = FanController::createFanPid(&f.z, "fan", f.names, p);
    for (int i = 0; i < 3; i++)
    {
        double sp = sym_f64("setpoint", -M, M);
        f.z.maxSetpoint = sp;
        f.z.cache["fan0"] = {0, sym_f64("rpm", 0, M)};
        f.s[0]->writes.clear();
        c->process();
        sym_assert(f.s[0]->writes.size() == 1, "not exactly one write per fan");
        hv::assertClose(f.s[0]->writes[0].v, sp / 100.0,
                        "fan loop does not follow the zone's request");
        sym_obs_d("out", f.s[0]->writes[0].v);
    }
    sym_reach("end");
}
SYM_HARNESS(fan_output)
{
    int k = 1 + sym_pick("fans", 2);
    Fans f(k);
    tuningEnabled = sym_pick("tuning", 2);
    debugEnabled = sym_pick("debug", 2);
    auto c = FanController::createFanPid(&f.z, "fan", f.names, plainPid(0.0));
    // several passes: what was written before does not matter
    for (int i = 0; i < 3; i++)
    {
        f.z.failsafe = sym_pick("failsafe", 2);
        f.z.redundant = sym_pick("redundant", 2);
        f.z.failsafePercent = sym_f64("failsafePercent", 0, M);
        double v = sym_f64("output", -M, M);
        double expect = v;
        if (f.z.failsafe && !tuningEnabled)
        {
            if (STRICT_FAILSAFE_PWM)
                expect = f.z.failsafePercent;
            else
                expect = hv::maxRef(v, f.z.failsafePercent);
        }
        expect /= 100.0;
        f.z.outputs.clear();
        for (auto& s : f.s)
            s->writes.clear();
        c->outputProc(v);
        for (auto& s : f.s)
        {
            sym_assert(s->writes.size() == 1, "not exactly one write per fan");
            sym_assert(sym_same(s->writes[0].v, expect),
                       "fan not driven at the required duty");
            sym_assert(s->writes[0].hasForce, "write without its force flag");
            sym_assert(s->writes[0].forced == f.z.redundant,
                       "force flag differs from the zone's");
            auto it = f.z.outputs.find(s->getName());
            sym_assert(it != f.z.outputs.end(), "commanded duty not recorded");
            sym_assert(sym_same(it->second.scaled, expect),
                       "recorded duty differs from the commanded one");
            sym_assert(it->second.unscaled == (double)s->raw,
                       "recorded raw value differs from the written one");
            sym_obs_d("out", s->writes[0].v);
        }
    }
    sym_reach("end");
}
SYM_HARNESS(fan_offline)
{
    Fans f(2);
    f.z.failsafePercent = sym_f64("failsafePercent", 0, M);
    f.z.failsafe = sym_pick("failsafe", 2);
    f.z.redundant = sym_pick("redundant", 2);
    {
        auto c =
            FanController::createFanPid(&f.z, "fan", f.names, plainPid(0.0));
    }
    for (auto& s : f.s)
    {
        if (OFFLINE_FAILSAFE_PWM)
        {
            sym_assert(s->writes.size() == 1,
                       "fan not driven when its loop goes away");
            sym_assert(sym_same(s->writes[0].v, f.z.failsafePercent / 100.0),
                       "fan not left at the failsafe duty");
            sym_obs_d("out", s->writes[0].v);
        }
        else
            sym_assert(s->writes.empty(), "fan driven when its loop goes away");
    }
    sym_assert(true, "done");
    sym_reach("end");
}
