// From a configuration to the zones: every controller with its own values,
// sensors, failsafe percentage and D-Bus object, in its own zone.
#include "common/rig.hpp"

// what a controller does, from its configured values
struct Ref
{
    ec::pid_info_t i;
    double last = NAN;
    explicit Ref(const ec::pidinfo& c)
    {
        i.checkHysterWithSetpt = c.checkHysterWithSetpt;
        i.ts = c.ts;
        i.proportionalCoeff = c.proportionalCoeff;
        i.integralCoeff = c.integralCoeff;
        i.derivativeCoeff = c.derivativeCoeff;
        i.feedFwdOffset = c.feedFwdOffset;
        i.feedFwdGain = c.feedFwdGain;
        i.integralLimit = c.integralLimit;
        i.outLim = c.outLim;
        i.slewNeg = c.slewNeg;
        i.slewPos = c.slewPos;
        i.positiveHysteresis = c.positiveHysteresis;
        i.negativeHysteresis = c.negativeHysteresis;
    }
    double step(double input, double set)
    {
        if (i.checkHysterWithSetpt)
        {
            if (input > set + i.positiveHysteresis)
                return i.lastOutput = ec::pid(&i, input, set);
            if (input < set - i.negativeHysteresis)
            {
                i.integral = 0;
                return i.lastOutput = 0;
            }
            return i.lastOutput;
        }
        double x = input;
        if (i.positiveHysteresis != 0 || i.negativeHysteresis != 0)
        {
            if (std::isnan(last) || input - last > i.positiveHysteresis ||
                last - input > i.negativeHysteresis)
                last = input;
            x = last;
        }
        return i.lastOutput = ec::pid(&i, x, set);
    }
};
static const int FIELDS = 15;
static double* field(ec::pidinfo& p, int f)
{
    double* all[] = {&p.ts,
                     &p.proportionalCoeff,
                     &p.integralCoeff,
                     &p.derivativeCoeff,
                     &p.feedFwdOffset,
                     &p.feedFwdGain,
                     &p.integralLimit.min,
                     &p.integralLimit.max,
                     &p.outLim.min,
                     &p.outLim.max,
                     &p.slewNeg,
                     &p.slewPos,
                     &p.positiveHysteresis,
                     &p.negativeHysteresis};
    return f < 14 ? all[f] : nullptr;
}
static void baseline(ec::pidinfo& p)
{
    p.ts = 0.5;
    p.proportionalCoeff = 2;
    p.integralCoeff = 0.25;
    p.derivativeCoeff = 0.125;
    p.feedFwdOffset = 10;
    p.feedFwdGain = 1.5;
    p.integralLimit = {-40, 60};
    p.outLim = {3, 4000};
}

// one controller of any kind, any one of its values symbolic
SYM_HARNESS(controller)
{
    Rig r;
    static const char* types[] = {"temp", "power", "margin", "powersum",
                                  "fan"};
    int ty = sym_pick("type", 5);
    std::string type = types[ty];
    static const int64_t ids[] = {0, 7, 300, 1, 12};
    int64_t id = ids[ty];
    std::vector<std::string> names = {"b", "a"};
    for (auto& n : names)
        r.add(n);
    r.add("t");
    conf::ControllerInfo c = ci(type, {in("b"), in("a")}, 40);
    bool fan = type == "fan";
    baseline(c.pidInfo);
    int f = sym_pick("field", FIELDS + 2);
    if (double* p = field(c.pidInfo, f))
        *p = sym_f64("value", f == 0 ? 0.125 : 0, fan && f > 11 ? 1000 : 100);
    else if (f == 14)
        c.pidInfo.checkHysterWithSetpt = true;
    if (f == 0)
        c.pidInfo.derivativeCoeff = 0; // (keeps it linear)
    if (f == 15)
        c.setpoint = sym_f64("value", -100, 100);
    if (f == 14)
    {
        c.pidInfo.positiveHysteresis = 3;
        c.pidInfo.negativeHysteresis = 5;
    }
    bool any = f == 15 || (f == 16 && !fan); // any reading
    bool conv = !fan && sym_pick("convert", 2);
    if (conv)
    {
        c.inputs[1].convertTempToMargin = true;
        c.inputs[1].convertMarginZero = any ? sym_f64("zero", 0, 200) : 97;
    }
    r.pids[id]["P"] = c;
    double demand = 0;
    if (fan)
    {
        demand = f == 16 ? sym_f64("demand", 1, 5000) : 900;
        r.pids[id]["S"] = constant("t", demand);
    }
    else if (conv)
        r.pids[id]["S"] = constant("t", 0);
    r.conf[id] = zc(0, 100);
    r.build();
    sym_assert(r.zones.size() == 1 && r.zones.at(id)->getZoneID() == id,
               "the zone that is configured is not built");
    Ref ref(c.pidInfo);
    // (which of two equal readings is taken makes no difference)
    bool tie = any && sym_pick("tie", 2);
    static const double vals[3][2] = {{45, 47}, {60, 30}, {38, 39}};
    for (int k = 0; k < (any ? (ty == 3 && !deep ? 1 : 2) : 3); k++)
    {
        double v[2];
        for (int j = 0; j < 2; j++)
        {
            v[j] = any ? sym_f64("reading", 0, 1000)
                       : vals[k][j] * (fan ? 20 : 1);
            if (tie)
                v[j] = v[0];
        }
        if (any && !tie)
            sym_assume(v[0] != v[1]);
        for (int j = 0; j < 2; j++)
            r.set(names[j], v[j]);
        r.set("t", 20);
        r.thermals(id);
        if (!fan)
        {
            double x;
            if (type == "margin")
            {
                if (conv)
                    v[1] = c.inputs[1].convertMarginZero - v[1];
                x = hv::minRef(v[0], v[1]);
            }
            else if (type == "powersum")
                x = 0.0 + v[0] + v[1];
            else
                x = hv::maxRef(v[0], v[1]);
            double out = ref.step(x, c.setpoint);
            hv::assertClose(r.zones.at(id)->getMaxSetPointRequest(),
                            hv::maxRef(out, 0),
                            "a controller does not work as configured");
        }
        r.fans(id);
        if (fan)
        {
            double x = 0;
            for (double y : v)
                if (y > 0 && (x == 0 || y < x))
                    x = y;
            double out = ref.step(x, demand) / 100;
            for (auto& n : names)
            {
                auto& w = r.s[n]->writes;
                sym_assert((int)w.size() == k + 1,
                           "a fan is not written once per cycle");
                hv::assertClose(w.back().v, out,
                                "a fan controller does not work as configured");
            }
        }
        sym_assert(r.s["t"]->writes.empty() &&
                       (fan || r.s["a"]->writes.empty()),
                   "an input is written");
    }
    sym_reach("end");
}

// stepwise controllers
SYM_HARNESS(stepwise)
{
    Rig r;
    r.add("a");
    r.add("t");
    conf::ControllerInfo c = ci("stepwise", {in("a")}, 0);
    int points = 1 + sym_pick("points", 3);
    bool ceil = sym_pick("ceiling", 2);
    double out[3], at[3];
    for (int i = 0; i < points; i++)
    {
        at[i] = 20.0 * (i + 1);
        out[i] = sym_f64("output", 1, 1000);
        c.stepwiseInfo.reading[i] = at[i];
        c.stepwiseInfo.output[i] = out[i];
    }
    double up = 0, down = 0;
    if (sym_pick("hysteresis", 2))
    {
        up = c.stepwiseInfo.positiveHysteresis = sym_f64("up", 0, 30);
        down = c.stepwiseInfo.negativeHysteresis = sym_f64("down", 0, 30);
    }
    c.stepwiseInfo.isCeiling = ceil;
    r.pids[2]["P"] = c;
    if (ceil)
        r.pids[2]["Q"] = constant("t", 800);
    r.conf[2] = zc(0, 100);
    r.build();
    double last = 0, now = 0;
    for (int k = 0; k < (deep ? 4 : 3); k++)
    {
        double x = sym_f64("reading", 0, 100);
        r.set("a", x);
        r.set("t", 1);
        r.thermals(2);
        if (k == 0 || x - last > up || last - x > down)
        {
            last = x;
            now = out[0];
            for (int i = 1; i < points; i++)
                now = sym_ite_d(x >= at[i], out[i], now);
        }
        double want = ceil ? hv::minRef(now, 800) : now;
        sym_assert(r.zones.at(2)->getMaxSetPointRequest() == want,
                   "a stepwise controller does not work as configured");
    }
    sym_reach("end");
}

// two zones, alike in everything but their values
SYM_HARNESS(zones)
{
    Rig r;
    static const int64_t ids[][2] = {{0, 1}, {5, 2}, {1, 1000}};
    // somebody disables a controller of one zone, or takes over the zone
    int act = sym_pick("act", 4), az = act ? sym_pick("zone", 2) : 0;
    int which = deep || act == 0 ? sym_pick("ids", 3) : act - 1;
    bool shared = which == 1, acc = sym_pick("accumulate", 2);
    const int64_t* id = ids[which];
    double min[2], req[2][2], fs[2];
    uint64_t cyc[2], therm[2];
    std::string fan[2], sensor[2];
    int sym = sym_pick("varied", 2); // any values in this zone
    for (int z = 0; z < 2; z++)
    {
        bool v = sym == z;
        fan[z] = z ? "fan1" : "fan0";
        sensor[z] = z && !shared ? "temp1" : "temp0";
        r.add(fan[z]);
        if (!r.s.count(sensor[z]))
            r.add(sensor[z]);
        min[z] = v ? sym_f64("min", 0, 100) : 20;
        fs[z] = v ? sym_f64("failsafe", 0, 100) : 70;
        cyc[z] = v ? (uint64_t)sym_i64("cycle", 1, 100000) : 150;
        therm[z] = v ? (uint64_t)sym_i64("thermals", 1, 100000) : 900;
        conf::ZoneConfig c = zc(min[z], fs[z]);
        c.cycleTime.cycleIntervalTimeMS = cyc[z];
        c.cycleTime.updateThermalsTimeMS = therm[z];
        c.accumulateSetPoint = acc != (z == 1);
        r.conf[id[z]] = c;
        conf::ControllerInfo f = ci("fan", {in(fan[z])}, 0);
        f.pidInfo.ts = 1;
        f.pidInfo.feedFwdGain = 1;
        f.pidInfo.outLim = {0, 100};
        r.pids[id[z]]["F"] = f;
        for (int k = 0; k < 2; k++)
        {
            req[z][k] = v ? sym_f64("request", 0, 60) : 33 + 8 * k;
            r.pids[id[z]][k ? "B_T" : "A_T"] =
                constant(sensor[z], req[z][k]);
        }
    }
    // a zone without controllers needs none
    r.conf[77] = zc(1, 2);
    r.build();
    sym_assert(r.zones.size() == 2, "zones are lost or made up");
    for (int z = 0; z < 2; z++)
    {
        auto& x = *r.zones.at(id[z]);
        sym_assert(x.getZoneID() == id[z] &&
                       x.getCycleIntervalTime() == cyc[z] &&
                       x.getUpdateThermalsCycle() == therm[z] &&
                       x.getAccSetPoint() == (acc != (z == 1)),
                   "a zone's settings are not its own");
        std::vector<std::string> in = x.getSensorNames();
        sym_assert(in.size() == 1 && in[0] == sensor[z],
                   "a zone's inputs are not its own");
        for (auto& p : {zonePath(id[z]), pidPath(id[z], "A_T"),
                        pidPath(id[z], "B_T")})
            sym_assert(hv::world().servedOn.count(p) &&
                           hv::world().servedOn[p] == "mode",
                       "a zone or controller is not on D-Bus");
        int n = 0;
        for (auto& o : hv::world().objects)
            n += o == zonePath(id[z]);
        sym_assert(n == 1, "a zone is not announced on D-Bus");
        sym_assert(!x.getManualMode() && !x.getFailSafeMode(),
                   "a zone starts in a mode of its own");
    }
    sym_assert(hv::served<ModeItf>().size() == 2 &&
                   hv::served<EnableItf>().size() == 4,
               "objects on D-Bus are missing or made up");
    if (act == 1 || act == 2)
        hv::served<EnableItf>()
            .at(pidPath(id[az], act == 1 ? "A_T" : "B_T"))
            ->enabled(false);
    if (act == 3)
        hv::served<ModeItf>().at(zonePath(id[az]))->manual(true);
    for (int z = 0; z < 2; z++)
        sym_assert(r.zones.at(id[z])->getManualMode() ==
                       (act == 3 && z == az),
                   "the wrong zone is in manual mode");
    bool bad[2] = {sym_pick("fail0", 2) == 1, sym_pick("fail1", 2) == 1};
    for (int z = 0; z < 2; z++)
    {
        r.set(fan[z], 1000);
        r.set(sensor[z], 10);
        r.s[fan[z]]->failed = bad[z];
    }
    bool first = bad[1];
    for (int k = 0; k < 2; k++)
    {
        int z = first ? 1 - k : k;
        r.thermals(id[z]);
        r.fans(id[z]);
    }
    for (int z = 0; z < 2; z++)
    {
        double q[2];
        for (int k = 0; k < 2; k++)
            q[k] = act == k + 1 && az == z ? 0 : req[z][k];
        bool sum = acc != (z == 1);
        double d = sum ? q[0] + q[1] : hv::maxRef(q[0], q[1]);
        d = hv::maxRef(d, min[z]);
        sym_assert(r.zones.at(id[z])->getMaxSetPointRequest() == d,
                   "a zone's demand is not made of its own controllers'");
        sym_assert(r.zones.at(id[z])->getFailSafeMode() == bad[z],
                   "a zone is in failsafe because of another");
        sym_assert(r.zones.at(id[z])->getFailSafePercent() == fs[z],
                   "a zone's failsafe percentage is not its own");
        double w = hv::clampRef(d, 0, 100);
        if (bad[z])
            w = STRICT_FAILSAFE_PWM ? fs[z] : hv::maxRef(w, fs[z]);
        auto& wr = r.s[fan[z]]->writes;
        sym_assert(wr.size() == 1 && r.s[sensor[z]]->writes.empty(),
                   "a fan is written from another zone");
        hv::assertClose(wr[0].v, w / 100, "a fan is driven by another zone");
    }
    sym_reach("end");
}

// failsafe percentages and missing sensors
SYM_HARNESS(failsafe)
{
    Rig r;
    double zone = sym_f64("zonePercent", 0, 100);
    static const char* kinds[] = {"fan", "temp", "stepwise", "margin"};
    r.conf[3] = zc(0, zone);
    // "x" belongs to both controllers, "p" and "q" to one each
    static const char* sens[] = {"p", "q", "x"};
    for (auto n : sens)
        r.add(n);
    double pct[2];
    bool ok[3] = {false, false, false}; // may be missing
    int kind[2];
    for (int k = 0; k < 2; k++)
    {
        kind[k] = sym_pick("kind", deep ? 4 : 3);
        if (k && (kind[0] == 0) != (kind[1] == 0))
            return; // a sensor is a fan or it is not
        std::vector<conf::SensorInput> i = {in(sens[k]), in("x")};
        int miss = sym_pick("acceptable", 3);
        if (miss)
        {
            i[miss - 1].missingIsAcceptable = true;
            ok[miss == 1 ? k : 2] = true;
        }
        pct[k] = sym_f64("percent", 0, 100);
        auto c = ci(kinds[kind[k]], i, 0);
        c.stepwiseInfo.reading[0] = 0;
        c.stepwiseInfo.output[0] = 0;
        c.failSafePercent = pct[k];
        r.pids[3][k ? "K" : "J"] = c;
    }
    r.build();
    auto& z = *r.zones.at(3);
    // before anything is read, everything is taken for failed
    double own[3] = {pct[0], pct[1], hv::maxRef(pct[0], pct[1])};
    for (auto& o : own)
        o = sym_ite_d(o == 0, zone, o);
    auto check = [&](const bool* bad) {
        double want = 0;
        bool any = false;
        for (int i = 0; i < 3; i++)
            if (bad[i] && !ok[i])
            {
                want = any ? hv::maxRef(want, own[i]) : own[i];
                any = true;
            }
        sym_assert(z.getFailSafeMode() == any,
                   "failsafe does not follow the zone's required sensors");
        if (any)
            sym_assert(z.getFailSafePercent() ==
                           sym_ite_d(want == 0, zone, want),
                       "the failsafe percentage is not the one configured");
        else
            sym_assert(z.getFailSafePercent() == zone,
                       "the failsafe percentage is not the zone's");
    };
    z.initializeCache();
    bool all[3] = {true, true, true};
    check(all);
    bool bad[3];
    for (int i = 0; i < 3; i++)
    {
        bad[i] = sym_pick("bad", 2);
        r.set(sens[i], 5);
        r.s[sens[i]]->failed = bad[i];
    }
    z.updateSensors();
    z.updateFanTelemetry();
    check(bad);
    sym_reach("end");
}

// what cannot work is refused, and what is not known is left alone
SYM_HARNESS(refuse)
{
    Rig r;
    for (auto n : {"f", "t", "u"})
        r.add(n);
    int what = sym_pick("what", 6);
    int64_t id = sym_pick("zone", 2);
    double v = sym_f64("request", 0, 100);
    for (int64_t i = 0; i < 2; i++)
    {
        r.conf[i] = zc(0, 100);
        auto f = ci("fan", {in("f")}, 0);
        f.pidInfo.ts = 1;
        f.pidInfo.feedFwdGain = 1;
        f.pidInfo.outLim = {0, 100};
        r.pids[i]["f"] = f;
        r.pids[i]["s"] = constant("t", v);
    }
    static const char* kinds[] = {"temp", "margin", "stepwise", "fan"};
    if (what == 1)
        r.conf.erase(id);
    else if (what >= 2 && what < 6)
        r.pids[id]["x"] = ci(kinds[what - 2], {}, 0);
    bool threw = false;
    try
    {
        r.build();
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    sym_assert(threw == (what != 0), "a zone that cannot work is built");
    if (threw)
    {
        sym_assert(hv::served<ModeItf>().empty() &&
                       hv::served<EnableItf>().empty(),
                   "a refused configuration leaves zones behind");
        sym_reach("refused");
        return;
    }
    for (auto n : {"f", "t", "u"})
        r.set(n, 7);
    r.thermals(id);
    r.fans(id);
    hv::assertClose(r.s["f"]->writes.at(0).v, v / 100, "a fan is not driven");
    sym_reach("end");
}

// what clients on D-Bus see of it
SYM_HARNESS(published)
{
    Rig r;
    for (auto n : {"a", "b", "f"})
        r.add(n);
    static const char* types[] = {"temp", "power", "margin", "powersum"};
    static const char* classes[] = {"Temperature", "Power", "Margin",
                                    "PowerSum"};
    int ty = sym_pick("type", 4);
    double set = sym_f64("setpoint", 0, 100);
    auto c = ci(types[ty], {in("a"), in("b")}, set);
    c.pidInfo.ts = 1;
    c.pidInfo.feedFwdGain = 1;
    c.pidInfo.feedFwdOffset = 1;
    c.pidInfo.outLim = {0, 1000};
    r.pids[4]["P"] = c;
    auto d = ci(types[3 - ty], {in("b")}, 5);
    d.pidInfo.ts = 1;
    d.pidInfo.feedFwdGain = 1;
    d.pidInfo.outLim = {0, 1000};
    r.pids[4]["Q"] = d;
    auto f = ci("fan", {in("f")}, 0);
    f.pidInfo.ts = 1;
    f.pidInfo.feedFwdGain = 1;
    f.pidInfo.outLim = {0, 100};
    r.pids[4]["F"] = f;
    double min = sym_f64("min", 0, 50);
    r.conf[4] = zc(min, 30);
    r.build();
    auto at = [](const char* n) {
        return hv::served<PowerItf>().at(pidPath(4, n));
    };
    sym_assert(hv::served<PowerItf>().size() == 2 &&
                   hv::served<EnableItf>().size() == 2 &&
                   hv::served<ModeItf>().size() == 1,
               "controllers on D-Bus are missing or made up");
    sym_assert(at("P")->classType() == classes[ty] &&
                   at("Q")->classType() == classes[3 - ty],
               "the class on D-Bus is not the controller's");
    sym_assert(at("P")->setpoint() == set && at("Q")->setpoint() == 5,
               "the setpoint on D-Bus is not the controller's");
    auto* eP = hv::served<EnableItf>().at(pidPath(4, "P"));
    auto* eQ = hv::served<EnableItf>().at(pidPath(4, "Q"));
    auto* mode = hv::served<ModeItf>().at(zonePath(4));
    auto* zone = hv::served<sdbusplus::xyz::openbmc_project::Debug::Pid::
                                server::Zone>()
                     .at(zonePath(4));
    sym_assert(eP->enabled() && eQ->enabled() && !mode->manual() &&
                   !mode->failSafe(),
               "the initial state on D-Bus is not the daemon's");
    for (int k = 0; k < 2; k++)
    {
        bool onP = k == 0 || sym_pick("P on", 2);
        bool onQ = k == 0 || sym_pick("Q on", 2);
        eP->enabled(onP);
        eQ->enabled(onQ);
        double v[2];
        bool nan = k == 0 && sym_pick("unread", 2);
        v[0] = nan ? NAN : sym_f64("reading", 1, 200);
        v[1] = k == 0 && !deep ? 77 : sym_f64("reading", 1, 200);
        r.set("a", v[0]);
        r.set("b", v[1]);
        r.set("f", 1000);
        bool fail = sym_pick("fail", 2);
        r.s["a"]->failed = fail;
        // (the mode does not matter to what is published)
        bool man = onP != onQ;
        mode->manual(man);
        sym_assert(mode->manual() == man && mode->manualSent == man &&
                       r.zones.at(4)->getManualMode() == man,
                   "manual mode on D-Bus is not the daemon's");
        r.thermals(4);
        double best;
        bool first = false;
        if (ty == 3)
            best = nan ? v[1] : v[0] + v[1];
        else if (nan)
            best = v[1];
        else
        {
            first = ty == 2 ? v[0] <= v[1] : v[0] >= v[1];
            best = first ? v[0] : v[1];
        }
        hv::assertClose(at("P")->input(), best,
                        "the input on D-Bus is not the controller's");
        sym_assert(at("Q")->input() == v[1] && at("Q")->leader() == "b",
                   "the input on D-Bus is not the controller's");
        if (ty != 3)
            sym_assert(at("P")->leader() == (first ? "a" : "b"),
                       "the leading input on D-Bus is another");
        hv::assertClose(at("P")->output(), set + 1,
                        "the output on D-Bus is not the controller's");
        hv::assertClose(at("Q")->output(), 5,
                        "the output on D-Bus is not the controller's");
        double p = onP ? set + 1 : 0, q = onQ ? 5 : 0;
        double m = hv::maxRef(p, q);
        sym_assert(zone->leader() ==
                       (min >= m ? "Minimum" : p >= q ? "P" : "Q"),
                   "the leading controller on D-Bus is another");
        sym_assert(mode->failSafe() == fail,
                   "failsafe on D-Bus is not the zone's");
        sym_assert(eP->enabled() == onP && eQ->enabled() == onQ &&
                       mode->manual() == man,
                   "a controller is switched by the daemon");
        for (auto n : {"P", "Q"})
        {
            auto* o = at(n);
            sym_assert(sym_and(sym_same(o->input(), o->inputSent),
                               sym_and(sym_same(o->output(), o->outputSent),
                                       o->leader() == o->leaderSent)),
                       "clients on D-Bus are not told of changes");
        }
        r.fans(4);
        double w = hv::clampRef(hv::maxRef(m, min), 0, 100);
        if (fail)
            w = STRICT_FAILSAFE_PWM ? 30 : hv::maxRef(w, 30);
        hv::assertClose(r.s["f"]->writes.back().v, w / 100,
                        "the fan does not get what is published");
    }
    sym_reach("end");
}
