// The D-Bus configuration: what the daemon makes of what is on the bus.
#include "config.h"

#include "common/clock.hpp"
#include "common/util.hpp"
#include "conf.hpp"
#include "dbus/dbusconfiguration.hpp"
#include "dbus/dbusutil.hpp"
#include "hv/dbus.hpp"
#include "util.hpp"

#include <functional>
#include <map>
#include <set>

#ifdef SYM_THOROUGH
static const bool deep = true;
#else
static const bool deep = false;
#endif
using namespace pid_control;
using namespace hv;
using Props = std::vector<std::pair<std::string, Val>>;
static const std::string PID = "xyz.openbmc_project.Configuration.Pid";
static const std::string ZONE = "xyz.openbmc_project.Configuration.Pid.Zone";
static const std::string STEP = "xyz.openbmc_project.Configuration.Stepwise";
static const std::string VALUE = "xyz.openbmc_project.Sensor.Value";
static const std::string PWM = "xyz.openbmc_project.Control.FanPwm";
static const std::string MODE = "xyz.openbmc_project.Control.ThermalMode";
static const std::string OM = "org.freedesktop.DBus.ObjectManager";
static const std::string TEMP = "/xyz/openbmc_project/sensors/temperature/";
static const std::string TACH = "/xyz/openbmc_project/sensors/fan_tach/";
static const std::string CTRL = "/xyz/openbmc_project/control/fanpwm/";

static int restarts = 0;
namespace pid_control
{
void tryRestartControlLoops(bool)
{
    restarts++;
}
} // namespace pid_control

// what is on the bus
struct OnBus
{
    std::string path, service;
    std::vector<std::string> itfs;
};
static std::vector<OnBus> objects;
struct Managed
{
    std::string service, path, itf;
    Props props;
};
static std::vector<Managed> confs;
static std::vector<std::pair<std::string, std::string>> modes; // service, mode
static std::string manager = "/xyz/openbmc_project/inventory";
static std::map<std::string, Props> thresholds; // by interface
static std::string failing;                     // this member fails

static void sensor(const std::string& path, const std::string& itf = VALUE)
{
    objects.push_back({path, "sensors.svc", {itf}});
}
static void config(const std::string& path, const std::string& itf,
                   const Props& p, const std::string& service = "em.svc")
{
    confs.push_back({service, path, itf, p});
}
static bool answer(MsgData& m, std::vector<Val>& r)
{
    if (m.member == failing)
        return false;
    if (m.member == "GetSubTree")
    {
        std::set<std::string> want;
        for (auto& x : m.body[2].c)
            want.insert(x.s);
        if (failing == "modes" && want.count(MODE))
            return false;
        std::vector<OnBus> all = objects;
        std::set<std::string> svcs;
        for (auto& c : confs)
        {
            all.push_back({c.path, c.service, {c.itf}});
            if (svcs.insert(c.service).second)
                all.push_back({manager, c.service, {OM}});
        }
        for (size_t i = 0; i < modes.size(); i++)
            all.push_back({"/xyz/openbmc_project/control/mode" +
                               std::to_string(i),
                           modes[i].first,
                           {MODE}});
        // path -> service -> interfaces
        std::map<std::string, std::map<std::string, std::set<std::string>>> t;
        for (auto& o : all)
            for (auto& i : o.itfs)
                if (want.count(i))
                    t[o.path][o.service].insert(i);
        Val out = vArr({});
        for (auto& p : t)
        {
            Val v = vArr({});
            for (auto& s : p.second)
                v.c.push_back(vRec(
                    {vStr(s.first),
                     vStrs(std::vector<std::string>(s.second.begin(),
                                                    s.second.end()))}));
            out.c.push_back(vRec({vStr(p.first), v}));
        }
        r.push_back(out);
        return true;
    }
    if (m.member == "GetManagedObjects")
    {
        if (m.path != manager || m.interface != OM)
            return false;
        std::map<std::string, std::vector<std::pair<std::string, Val>>> t;
        for (auto& c : confs)
            if (c.service == m.service)
                t[c.path].push_back({c.itf, vProps(c.props)});
        if (t.empty())
            return false;
        Props out;
        for (auto& p : t)
            out.push_back({p.first, vDict(p.second)});
        r.push_back(vDict(out, 'o'));
        return true;
    }
    if (m.member == "GetObject")
    {
        std::string itf = m.body[1].c[0].s;
        if (!thresholds.count(itf))
            return false;
        r.push_back(vDict({{"sensors.svc", vStrs({itf})}}));
        return true;
    }
    if (m.member == "Get")
    {
        std::string itf = m.body[0].s, p = m.body[1].s;
        if (itf == MODE)
        {
            for (size_t i = 0; i < modes.size(); i++)
                if (m.path == "/xyz/openbmc_project/control/mode" +
                                  std::to_string(i) &&
                    m.service == modes[i].first)
                {
                    r.push_back(vVar(vStr(modes[i].second)));
                    return true;
                }
            return false;
        }
        if (m.service != "sensors.svc" || !thresholds.count(itf))
            return false;
        for (auto& x : thresholds[itf])
            if (m.path + ":" + p == x.first)
            {
                r.push_back(vVar(x.second));
                return true;
            }
        return false;
    }
    return false;
}

struct Result
{
    bool ok = false, threw = false;
    std::map<std::string, conf::SensorConfig> sensors;
    std::map<int64_t, conf::PIDConf> pids;
    std::map<int64_t, conf::ZoneConfig> zones;
};
static boost::asio::io_context io;
static Result load()
{
    world().handler = answer;
    static sdbusplus::bus_t bus("mode");
    static boost::asio::steady_timer timer(io);
    Result r;
    // leftovers of an earlier configuration
    r.sensors["old"].type = "temp";
    r.pids[77]["old"].type = "temp";
    r.zones[77].failsafePercent = 1;
    try
    {
        r.ok = dbus_configuration::init(bus, timer, r.sensors, r.pids, r.zones);
    }
    catch (const std::exception&)
    {
        r.threw = true;
    }
    return r;
}
static bool same(double a, double b)
{
    return sym_or(a == b, sym_and(a != a, b != b));
}
static double num(const char* n) { return sym_f64(n, -1e12, 1e12); }
static Props zoneProps(const std::string& name)
{
    return {{"Name", vStr(name)},
            {"MinThermalOutput", vDbl(30)},
            {"FailSafePercent", vDbl(80)}};
}
static const char* keys[] = {
    "PCoefficient", "ICoefficient", "FFOffCoefficient", "FFGainCoefficient",
    "ILimitMin",    "ILimitMax",    "OutLimitMin",      "OutLimitMax",
    "SlewNeg",      "SlewPos"};
static const int nKeys = 10;
static Props pidProps(const std::string& name, const std::string& cls,
                      const std::vector<std::string>& inputs,
                      const std::vector<std::string>& zones = {"Z 1"})
{
    Props p = {{"Name", vStr(name)},
               {"Class", vStr(cls)},
               {"Inputs", vStrs(inputs)},
               {"Zones", vStrs(zones)},
               {"SetPoint", vDbl(50)}};
    for (auto k : keys)
        p.push_back({k, vDbl(1.5)});
    return p;
}
static void set(Props& p, const std::string& k, const Val& v)
{
    for (auto& x : p)
        if (x.first == k)
        {
            x.second = v;
            return;
        }
    p.push_back({k, v});
}
static void drop(Props& p, const std::string& k)
{
    for (size_t i = 0; i < p.size(); i++)
        if (p[i].first == k)
        {
            p.erase(p.begin() + (long)i);
            return;
        }
}

// ------------------------------------------------------------ PID controllers
SYM_HARNESS(pid_values)
{
    static const char* classes[] = {"temp", "margin", "power", "powersum"};
    std::string cls = classes[sym_pick("class", 4)];
    sensor(TEMP + "CPU_1");
    sensor(TEMP + "CPU_10");
    sensor(TEMP + "DIMM");
    config("/i/z", ZONE, zoneProps("Z 1"));
    Props p = pidProps("The PID", cls, {"CPU 1", "DIMM"});
    double v[nKeys], sp = num("SetPoint");
    // numbers arrive as doubles or as integers
    int asInt = sym_pick("integers", 3);
    for (int i = 0; i < nKeys; i++)
    {
        if (asInt)
        {
            v[i] = asInt == 1 ? i - 4 : i + 7;
            set(p, keys[i],
                asInt == 1 ? vI64(i - 4) : vInt('t', i + 7));
        }
        else
        {
            v[i] = num(keys[i]);
            set(p, keys[i], vDbl(v[i]));
        }
    }
    set(p, "SetPoint", vDbl(sp));
    int opt = sym_pick("optional", 9);
    int has = opt == 8 ? 127 : opt == 7 ? 0 : 1 << opt;
    double ph = num("PositiveHysteresis"), nh = num("NegativeHysteresis"),
           kd = num("DCoefficient"), fs = sym_f64("FailSafePercent", 0, 100);
    bool chk = sym_bool("CheckHysteresisWithSetpoint"),
         unav = sym_bool("InputUnavailableAsFailed"),
         host = sym_bool("IgnoreFailIfHostOff");
    if (has & 1)
        set(p, "PositiveHysteresis", vDbl(ph));
    if (has & 2)
        set(p, "NegativeHysteresis", vDbl(nh));
    if (has & 4)
        set(p, "DCoefficient", vDbl(kd));
    if (has & 8)
        set(p, "CheckHysteresisWithSetpoint", vBool(chk));
    if (has & 16)
        set(p, "FailSafePercent", vDbl(fs));
    if (has & 32)
        set(p, "InputUnavailableAsFailed", vBool(unav));
    if (has & 64)
        set(p, "IgnoreFailIfHostOff", vBool(host));
    config("/i/p", PID, p);
    // from another service
    config("/j/q", PID, pidProps("Other", "temp", {"CPU 10"}), "em2.svc");
    Result r = load();
    sym_assert(r.ok && !r.threw, "a valid configuration is refused");
    sym_assert(r.pids.size() == 1 && r.zones.size() == 1 &&
                   r.pids.begin()->first == r.zones.begin()->first,
               "the zones are not those of the configuration");
    auto& z = r.pids.begin()->second;
    sym_assert(z.size() == 2 && z.count("The_PID") && z.count("Other"),
               "the controllers are not those of the configuration");
    auto& c = z["The_PID"];
    auto& i = c.pidInfo;
    sym_assert(c.type == cls && c.inputs.size() == 2 &&
                   c.inputs[0].name == "CPU_1" && c.inputs[1].name == "DIMM" &&
                   !c.inputs[0].convertTempToMargin &&
                   !c.inputs[0].missingIsAcceptable &&
                   !c.inputs[1].convertTempToMargin &&
                   !c.inputs[1].missingIsAcceptable,
               "a controller's class or inputs differ from the configuration");
    sym_assert(same(c.setpoint, sp), "SetPoint differs");
    sym_assert(same(i.proportionalCoeff, v[0]), "PCoefficient differs");
    sym_assert(same(i.integralCoeff, v[1]), "ICoefficient differs");
    sym_assert(same(i.feedFwdOffset, v[2]), "FFOffCoefficient differs");
    sym_assert(same(i.feedFwdGain, v[3]), "FFGainCoefficient differs");
    sym_assert(same(i.integralLimit.min, v[4]), "ILimitMin differs");
    sym_assert(same(i.integralLimit.max, v[5]), "ILimitMax differs");
    sym_assert(same(i.outLim.min, v[6]), "OutLimitMin differs");
    sym_assert(same(i.outLim.max, v[7]), "OutLimitMax differs");
    sym_assert(same(i.slewNeg, v[8]), "SlewNeg differs");
    sym_assert(same(i.slewPos, v[9]), "SlewPos differs");
    sym_assert(i.ts == 1, "the sample period differs");
    sym_assert(same(i.positiveHysteresis, has & 1 ? ph : 0),
               "PositiveHysteresis differs");
    sym_assert(same(i.negativeHysteresis, has & 2 ? nh : 0),
               "NegativeHysteresis differs");
    sym_assert(same(i.derivativeCoeff, has & 4 ? kd : 0),
               "DCoefficient differs");
    sym_assert(i.checkHysterWithSetpt == ((has & 8) ? chk : false),
               "CheckHysteresisWithSetpoint differs");
    sym_assert(same(c.failSafePercent, has & 16 ? fs : 0),
               "FailSafePercent differs");
    sym_assert(r.sensors.size() == 3 && r.sensors.count("CPU_1") &&
                   r.sensors.count("CPU_10") && r.sensors.count("DIMM"),
               "the sensors are not those of the controllers");
    for (auto n : {"CPU_1", "DIMM"})
    {
        auto& s = r.sensors[n];
        sym_assert(s.type == cls && s.readPath == TEMP + n &&
                       s.writePath.empty() && s.timeout == 0 &&
                       s.ignoreDbusMinMax,
                   "a sensor's type, path or timeout is wrong");
        sym_assert(s.unavailableAsFailed == ((has & 32) ? unav : true),
                   "InputUnavailableAsFailed differs");
        sym_assert(s.ignoreFailIfHostOff == ((has & 64) ? host : false),
                   "IgnoreFailIfHostOff differs");
    }
    auto& o = z["Other"];
    sym_assert(o.type == "temp" && o.setpoint == 50 && o.inputs.size() == 1 &&
                   o.inputs[0].name == "CPU_10" && o.pidInfo.slewPos == 1.5 &&
                   o.failSafePercent == 0,
               "another controller's configuration is disturbed");
    sym_reach("end");
}
// each required key
SYM_HARNESS(pid_required)
{
    sensor(TEMP + "CPU_1");
    config("/i/z", ZONE, zoneProps("Z 1"));
    Props p = pidProps("The PID", "temp", {"CPU 1"});
    int k = sym_pick("key", (int)p.size());
    std::string key = p[(size_t)k].first;
    int how = sym_pick("how", 2);
    if (how == 0)
        drop(p, key);
    else
        set(p, key, key == "Name" || key == "Class" ? vDbl(3) : vStr("x"));
    config("/i/p", PID, p);
    Result r = load();
    sym_assert(r.threw, "a controller without a required value is accepted");
    sym_reach("end");
}
// margins and acceptable absence, input by input
SYM_HARNESS(pid_inputs)
{
    static const char* names[] = {"A", "B", "C"};
    int n = 1 + sym_pick("inputs", 3);
    std::vector<std::string> in;
    for (int i = 0; i < n; i++)
    {
        in.push_back(names[i]);
        sensor(TEMP + names[i]);
    }
    int nm = sym_pick("margins", 5), stepwise = sym_pick("stepwise", 2);
    std::vector<double> m;
    for (int i = 0; i < nm; i++)
        m.push_back(num("margin"));
    int acc = sym_pick("acceptable", 8);
    std::vector<std::string> a;
    for (int i = 2; i >= 0; i--)
        if (acc >> i & 1)
            a.push_back(names[i]);
    config("/i/z", ZONE, zoneProps("Z 1"));
    Props p = pidProps("P", "temp", in);
    if (stepwise)
        p = {{"Name", vStr("P")},
             {"Class", vStr("Floor")},
             {"Inputs", vStrs(in)},
             {"Zones", vStrs({"Z 1"})},
             {"Reading", vDbls({1})},
             {"Output", vDbls({1})}};
    if (nm)
        p.push_back({"TempToMargin", vDbls(m)});
    if (acc)
        p.push_back({"MissingIsAcceptable", vStrs(a)});
    config("/i/p", stepwise ? STEP : PID, p);
    Result r = load();
    sym_assert(r.ok && r.pids.size() == 1 && r.pids.begin()->second.count("P"),
               "a valid configuration is refused");
    auto& c = r.pids.begin()->second["P"];
    sym_assert(c.inputs.size() == in.size(), "inputs are lost");
    for (int i = 0; i < n; i++)
    {
        auto& x = c.inputs[(size_t)i];
        sym_assert(x.name == names[i], "inputs are reordered");
        sym_assert(x.convertTempToMargin == (i < nm) &&
                       (i >= nm || same(x.convertMarginZero, m[(size_t)i])),
                   "an input's margin is not its own");
        sym_assert(x.missingIsAcceptable == (bool)(acc >> i & 1),
                   "an input's absence is acceptable that is not, or not that "
                   "is");
    }
    sym_reach("end");
}

// ---------------------------------------------------------------- stepwise
SYM_HARNESS(stepwise)
{
    sensor(TEMP + "A");
    config("/i/z", ZONE, zoneProps("Z 1"));
    static const int sizes[] = {0, 1, 2, 19, 20, 21};
    int nr = sizes[sym_pick("readings", 6)], no = sizes[sym_pick("outputs", 6)];
    std::vector<double> rd, out;
    for (int i = 0; i < nr; i++)
        rd.push_back(num("reading"));
    for (int i = 0; i < no; i++)
        out.push_back(num("output"));
    int opt = sym_pick("optional", 6);
    int has = opt == 5 ? 15 : opt == 4 ? 0 : 1 << opt;
    double ph = num("PositiveHysteresis"), nh = num("NegativeHysteresis");
    bool unav = sym_bool("InputUnavailableAsFailed"),
         host = sym_bool("IgnoreFailIfHostOff");
    int ceil = sym_pick("ceiling", 2);
    Props p = {{"Name", vStr("My Step")},
               {"Class", vStr(ceil ? "Ceiling" : "Floor")},
               {"Inputs", vStrs({"A"})},
               {"Zones", vStrs({"Z 1"})},
               {"Reading", vDbls(rd)},
               {"Output", vDbls(out)}};
    if (has & 1)
        p.push_back({"PositiveHysteresis", vDbl(ph)});
    if (has & 2)
        p.push_back({"NegativeHysteresis", vDbl(nh)});
    if (has & 4)
        p.push_back({"InputUnavailableAsFailed", vBool(unav)});
    if (has & 8)
        p.push_back({"IgnoreFailIfHostOff", vBool(host)});
    config("/i/s", STEP, p);
    Result r = load();
    if (nr == 0 || nr > 20 || nr != no)
    {
        sym_assert(r.threw, "a table with no, too many or unpaired points is "
                            "accepted");
        sym_reach("refused");
        return;
    }
    sym_assert(r.ok && r.pids.size() == 1 &&
                   r.pids.begin()->second.count("My_Step"),
               "a valid table is refused");
    auto& c = r.pids.begin()->second["My_Step"];
    auto& i = c.stepwiseInfo;
    sym_assert(c.type == "stepwise" && c.inputs.size() == 1 &&
                   c.inputs[0].name == "A" && i.isCeiling == (bool)ceil,
               "the controller's kind or inputs differ");
    for (int k = 0; k < nr; k++)
        sym_assert(sym_and(same(i.reading[k], rd[(size_t)k]),
                           same(i.output[k], out[(size_t)k])),
                   "the table differs");
    if (nr < 20)
        sym_assert(i.reading[nr] != i.reading[nr] &&
                       i.output[nr] != i.output[nr],
                   "the table is not terminated");
    sym_assert(same(i.positiveHysteresis, has & 1 ? ph : 0) &&
                   same(i.negativeHysteresis, has & 2 ? nh : 0),
               "the hysteresis differs");
    auto& s = r.sensors["A"];
    sym_assert(r.sensors.size() == 1 && s.type == "temp" &&
                   s.readPath == TEMP + "A" && s.timeout == 0 &&
                   s.ignoreDbusMinMax &&
                   s.unavailableAsFailed == ((has & 4) ? unav : true) &&
                   s.ignoreFailIfHostOff == ((has & 8) ? host : false),
               "the sensor differs from the configuration");
    sym_reach("end");
}

// -------------------------------------------------------------------- zones
SYM_HARNESS(zones)
{
    sensor(TEMP + "A");
    sensor(TEMP + "B");
    sensor(TEMP + "C");
    const int n = 3;
    static const char* names[] = {"Z 1", "Z 2", "Z 3"};
    static const char* in[] = {"A", "B", "C"};
    double mt[3], fs[3], ci[3], ut[3], ix[3];
    bool acc[3];
    int have[3];
    // one zone varies at a time; the others are fixed
    int w = sym_pick("which", n);
    int opt = sym_pick("optional", 7);
    // objects come in another order
    const char* at = sym_pick("paths", 2) ? "/i/" : "/inventory/board3/";
    for (int i = 0; i < n; i++)
    {
        mt[i] = num("MinThermalOutput");
        fs[i] = sym_f64("FailSafePercent", 0, 100);
        ci[i] = sym_f64("CycleIntervalTimeMS", -10, 100000);
        ut[i] = sym_f64("UpdateThermalsTimeMS", -10, 100000);
        acc[i] = sym_bool("AccumulateSetPoint");
        ix[i] = 0;
        have[i] = i != w ? 31 : opt == 6 ? 31 : opt == 5 ? 0 : 1 << opt;
        Props p = {{"Name", vStr(names[i])}, {"MinThermalOutput", vDbl(mt[i])}};
        if (have[i] & 1)
            p.push_back({"FailSafePercent", vDbl(fs[i])});
        if (have[i] & 2)
            p.push_back({"CycleIntervalTimeMS", vDbl(ci[i])});
        if (have[i] & 4)
            p.push_back({"UpdateThermalsTimeMS", vDbl(ut[i])});
        if (have[i] & 8)
            p.push_back({"AccumulateSetPoint", vBool(acc[i])});
        if (have[i] & 16)
        {
            static const double at[] = {1, 2, 300};
            ix[i] = at[sym_pick("ZoneIndex", 3)];
            p.push_back({"ZoneIndex", vDbl(ix[i])});
        }
        config(std::string(at) + "z" + std::to_string(i), ZONE, p);
        config(std::string(at) + "p" + std::to_string(i), PID,
               pidProps(std::string("P") + in[i], "temp", {in[i]}, {names[i]}));
    }
    Result r = load();
    sym_assert(r.ok && !r.threw, "a valid configuration is refused");
    sym_assert(r.zones.size() == n && r.pids.size() == n,
               "zones are merged or lost");
    std::set<int64_t> seen;
    for (int i = 0; i < n; i++)
    {
        // the zone that got this controller
        int64_t id = -1;
        for (auto& z : r.pids)
            if (z.second.count(std::string("P") + in[i]))
            {
                sym_assert(id < 0 && z.second.size() == 1,
                           "a controller is in a zone it does not belong to");
                id = z.first;
            }
        sym_assert(id >= 0 && r.zones.count(id) && seen.insert(id).second,
                   "a controller and its zone's settings come apart");
        auto& z = r.zones[id];
        sym_assert(same(z.minThermalOutput, mt[i]), "MinThermalOutput differs");
        sym_assert(same(z.failsafePercent, have[i] & 1 ? fs[i] : 0),
                   "FailSafePercent differs");
        sym_assert(z.accumulateSetPoint == ((have[i] & 8) ? acc[i] : false),
                   "AccumulateSetPoint differs");
        bool other = false; // someone else wants the same number
        for (int k = 0; k < n; k++)
            if (k != i && (have[k] & 16) && ix[k] == ix[i])
                other = true;
        bool shifted = false; // a number may be taken by one moved up
        for (int k = 0; k < n; k++)
            for (int l = 0; l < k; l++)
                if (k != i && l != i && (have[k] & 16) && (have[l] & 16) &&
                    ix[k] == ix[l] && ix[k] < ix[i])
                    shifted = true;
        if ((have[i] & 16) && !other && !shifted)
            sym_assert(id == (int64_t)ix[i],
                       "a zone does not get the number it asks for");
        // times are whole milliseconds; anything below one is refused
        struct
        {
            double v;
            uint64_t got, dflt;
            bool has;
        } t[2] = {{ci[i], z.cycleTime.cycleIntervalTimeMS, 100,
                   (have[i] & 2) != 0},
                  {ut[i], z.cycleTime.updateThermalsTimeMS, 1000,
                   (have[i] & 4) != 0}};
        for (auto& x : t)
        {
            if (!x.has || x.v < 1)
                sym_assert(x.got == x.dflt, "a cycle time has no default");
            else
                sym_assert(x.got == (uint64_t)x.v, "a cycle time differs");
        }
    }
    sym_reach("end");
}

// ----------------------------------------------------------------- profiles
SYM_HARNESS(profiles)
{
    sensor(TEMP + "A");
    static const char* all[] = {"quiet", "loud", "max"};
    // any subset selected, possibly nobody to select
    int sel = sym_pick("selected", 8);
    for (int i = 0; i < 3; i++)
        if (sel >> i & 1)
            modes.push_back({i == 2 ? "m2.svc" : "m1.svc", all[i]});
    int has = sym_pick("profiles", 10); // 9: the property is absent
    bool keep = has == 9 || has == 0 || sel == 0 || (has < 8 && (has & sel));
    std::vector<std::string> p;
    if (has < 8)
        for (int i = 0; i < 3; i++)
            if (has >> i & 1)
                p.push_back(all[i]);
    if (has == 8)
        p = {"other"};
    int kind = sym_pick("kind", 3);
    config("/i/z", ZONE, zoneProps("Z 1"));
    Props x = pidProps("P", "temp", {"A"});
    if (kind == 1)
        x = {{"Name", vStr("P")},
             {"Class", vStr("Floor")},
             {"Inputs", vStrs({"A"})},
             {"Zones", vStrs({"Z 1"})},
             {"Reading", vDbls({1})},
             {"Output", vDbls({1})}};
    if (kind == 2)
        x = zoneProps("Z 2");
    if (has != 9)
        x.push_back({"Profiles", vStrs(p)});
    config("/i/p", kind == 2 ? ZONE : kind ? STEP : PID, x);
    config("/i/q", PID, pidProps("Q", "temp", {"A"}));
    Result r = load();
    sym_assert(r.ok && !r.threw, "a valid configuration is refused");
    size_t n = 0;
    bool q = false, pp = false;
    for (auto& z : r.pids)
        for (auto& c : z.second)
        {
            n++;
            q = q || c.first == "Q";
            pp = pp || c.first == "P";
        }
    sym_assert(q, "a controller of every profile is dropped");
    if (kind == 2)
        sym_assert(r.zones.size() == (keep ? 2 : 1) && n == 1,
                   "a zone of another profile is built, or one of this is not");
    else
        sym_assert(pp == keep && n == (keep ? 2 : 1),
                   "a controller of another profile is built, or one of this "
                   "is not");
    sym_reach("end");
}

// --------------------------------------------------------------------- fans
SYM_HARNESS(fans)
{
    static const char* tach[] = {"Fan_1", "Fan_2", "Fan_3"};
    static const char* pwm[] = {"Pwm_1", "Pwm_2", "Pwm_3"};
    static const char* tachIn[] = {"Fan 1", "Fan 2", "Fan 3"};
    static const char* pwmIn[] = {"Pwm 1", "Pwm 2", "Pwm 3"};
    int nt = 1 + sym_pick("fans", 3), np = 1 + sym_pick("outputs", 3);
    int rot = sym_pick("order", 3);
    // the pwm is also published as a sensor; only its control is of use
    int alsoSensor = sym_pick("pwm sensor", 2);
    int wrong = sym_pick("no control", 2); // only a sensor
    int missing = sym_pick("absent", 3);   // 1: a fan, 2: an output
    std::vector<std::string> in, out;
    for (int i = 0; i < 3; i++)
    {
        if (missing != 1 || i)
            sensor(TACH + tach[i]);
        if (missing != 2 || i)
        {
            if (!wrong || i)
                sensor(CTRL + pwm[i], PWM);
            else
                sensor("/xyz/openbmc_project/sensors/x/" + std::string(pwm[i]));
        }
        if (alsoSensor)
            sensor("/xyz/openbmc_project/sensors/pwm/" + std::string(pwm[i]));
    }
    for (int i = 0; i < nt; i++)
        in.push_back(tachIn[i]);
    for (int i = 0; i < np; i++)
        out.push_back(pwmIn[(i + rot) % 3]);
    config("/i/z", ZONE, zoneProps("Z 1"));
    Props p = pidProps("Fan PID", "fan", in);
    drop(p, "SetPoint");
    if (sym_pick("setpoint", 2))
        p.push_back({"SetPoint", vDbl(9)});
    p.push_back({"Outputs", vStrs(out)});
    config("/i/p", PID, p);
    Result r = load();
    // who is there
    std::vector<int> ft, fp;
    for (int i = 0; i < nt; i++)
        if (missing != 1 || i)
            ft.push_back(i);
    for (int i = 0; i < np; i++)
        if (missing != 2 || (i + rot) % 3)
            fp.push_back((i + rot) % 3);
    bool bad = fp.size() != 1 && fp.size() != ft.size();
    for (size_t i = 0; i < ft.size() && i < fp.size(); i++)
        if (wrong && fp[i] == 0)
            bad = true;
    if (bad)
    {
        sym_assert(r.threw, "fans that do not pair up with their outputs are "
                            "accepted");
        sym_reach("refused");
        return;
    }
    sym_assert(!r.threw, "a valid fan configuration is refused");
    sym_assert(r.sensors.size() == ft.size(), "fans are merged or lost");
    std::vector<std::string> names;
    for (size_t i = 0; i < ft.size(); i++)
    {
        int w = fp.size() == 1 ? fp[0] : fp[i];
        std::string n = std::string(tach[ft[i]]) + pwm[w];
        names.push_back(n);
        sym_assert(r.sensors.count(n), "a fan is not paired with its output");
        auto& s = r.sensors[n];
        sym_assert(s.type == "fan" && s.readPath == TACH + tach[ft[i]] &&
                       s.writePath == CTRL + pwm[w],
                   "a fan drives another fan's output");
        sym_assert(s.min == 0 && s.max == 255, "a fan's range is not 0 to 255");
    }
    if (ft.empty())
    {
        sym_assert(r.pids.empty() || r.pids.begin()->second.empty(),
                   "a controller without any fan is built");
        sym_reach("none");
        return;
    }
    sym_assert(r.ok && r.pids.size() == 1 &&
                   r.pids.begin()->second.count("Fan_PID"),
               "the fan controller is missing");
    auto& c = r.pids.begin()->second["Fan_PID"];
    sym_assert(c.type == "fan" && c.setpoint == 0 &&
                   c.inputs.size() == names.size(),
               "the fan controller does not drive its fans");
    for (size_t i = 0; i < names.size(); i++)
        sym_assert(c.inputs[i].name == names[i],
                   "the fan controller does not drive its fans");
    sym_reach("end");
}

// ------------------------------------------------------------ SetPointOffset
SYM_HARNESS(offset)
{
    static const char* types[] = {"CriticalLow", "CriticalHigh", "WarningLow",
                                  "WarningHigh", "Nonsense"};
    int t = sym_pick("type", 5);
    std::string crit = "xyz.openbmc_project.Sensor.Threshold.Critical",
                warn = "xyz.openbmc_project.Sensor.Threshold.Warning";
    std::string itf = t < 2 ? crit : warn;
    double sp = sym_f64("SetPoint", -1000, 1000),
           a = sym_f64("threshold", -1000, 1000),
           b = sym_f64("threshold", -1000, 1000);
    int without = sym_pick("without", 2); // the second has no such threshold
    sensor(TEMP + "A");
    sensor(TEMP + "B");
    thresholds[crit];
    thresholds[warn];
    for (int k = 0; k < 4; k++)
    {
        auto& w = thresholds[k < 2 ? crit : warn];
        double off = k == t ? 0 : 5000 + k;
        w.push_back({TEMP + "A:" + types[k], vDbl(a + off)});
        if (!without || k != t)
            w.push_back({TEMP + "B:" + types[k], vDbl(b + off)});
    }
    config("/i/z", ZONE, zoneProps("Z 1"));
    Props p = pidProps("P", "temp", {"A", "B"});
    set(p, "SetPoint", vDbl(sp));
    set(p, "ICoefficient", vDbl(2.5));
    p.push_back({"SetPointOffset", vStr(types[t])});
    double m = num("margin");
    p.push_back({"TempToMargin", vDbls({1.0, m})});
    config("/i/p", PID, p);
    Result r = load();
    if (t == 4)
    {
        sym_assert(r.threw, "an unknown kind of threshold is accepted");
        sym_reach("refused");
        return;
    }
    sym_assert(r.ok && !r.threw && r.pids.size() == 1, "a valid configuration "
                                                       "is refused");
    auto& z = r.pids.begin()->second;
    sym_assert(z.size() == 2 && z.count("A") && z.count("B"),
               "the inputs do not get a controller each");
    for (int k = 0; k < 2; k++)
    {
        auto& c = z[k ? "B" : "A"];
        sym_assert(c.inputs.size() == 1 && c.inputs[0].name == (k ? "B" : "A") &&
                       c.type == "temp" && c.inputs[0].convertTempToMargin &&
                       same(c.inputs[0].convertMarginZero, k ? m : 1) &&
                       c.pidInfo.integralCoeff == 2.5,
                   "a controller of a split group differs");
        double thr = k ? (without ? 0 : b) : a;
        hv::assertClose(c.setpoint, sp + thr,
                        "the setpoint is not offset by its own threshold");
        sym_obs_d("setpoint", c.setpoint);
    }
    sym_reach("end");
}

// an input may be a pattern; a controller may be in several zones
SYM_HARNESS(pid_several)
{
    static const char* all[] = {"CPU_1", "CPU_2", "CPU_X", "ACPU_1", "CPU_22"};
    int there = 1 + sym_pick("present", 31);
    int stepwise = sym_pick("stepwise", 2), nz = 1 + sym_pick("zones", 2);
    std::set<std::string> want;
    for (int i = 0; i < 5; i++)
        if (there >> i & 1)
        {
            sensor(TEMP + all[i]);
            if (i < 2)
                want.insert(all[i]);
        }
    sensor("/xyz/openbmc_project/sensors/voltage/V");
    want.insert("V");
    std::vector<std::string> in = {"CPU [12]", "V"}, zn = {"Z 1"};
    config("/i/z1", ZONE, zoneProps("Z 1"));
    config("/i/z2", ZONE, zoneProps("Z 2"));
    if (nz == 2)
        zn.push_back("Z 2");
    Props p = pidProps("P", "temp", in, zn);
    if (stepwise)
        p = {{"Name", vStr("P")},
             {"Class", vStr("Floor")},
             {"Inputs", vStrs(in)},
             {"Zones", vStrs(zn)},
             {"Reading", vDbls({1})},
             {"Output", vDbls({1})}};
    config("/i/p", stepwise ? STEP : PID, p);
    Result r = load();
    bool none = want.size() == 1 && HANDLE_MISSING_OBJECT_PATHS;
    sym_assert(r.ok && !r.threw && r.zones.size() == 2,
               "a valid configuration is refused");
    if (none)
        want.insert("CPU_[12]"); // nothing fits: built to fail
    size_t n = 0;
    for (auto& z : r.pids)
    {
        if (z.second.empty())
            continue;
        n++;
        sym_assert(r.zones.count(z.first) && z.second.size() == 1 &&
                       z.second.count("P"),
                   "a zone has controllers that are not its own");
        std::set<std::string> got;
        for (auto& i : z.second["P"].inputs)
            got.insert(i.name);
        sym_assert(got == want && got.size() == z.second["P"].inputs.size(),
                   "a pattern does not stand for the sensors it fits");
    }
    sym_assert(n == (size_t)nz,
               "a controller is not in each of its zones, or in another");
    for (auto& x : want)
        sym_assert(r.sensors.count(x), "an input has no sensor");
    sym_assert(r.sensors.size() == want.size(), "a sensor nobody asked for");
    sym_reach("end");
}

// ------------------------------------------------------------ absent sensors
SYM_HARNESS(missing)
{
    static const char* names[] = {"A 1", "B 1", "C 1"};
    static const char* dbus[] = {"A_1", "B_1", "C_1"};
    int there = sym_pick("present", 8), acc = sym_pick("acceptable", 8);
    int stepwise = sym_pick("stepwise", 2);
    bool unav = sym_bool("InputUnavailableAsFailed"),
         host = sym_bool("IgnoreFailIfHostOff");
    std::vector<std::string> a;
    for (int i = 0; i < 3; i++)
    {
        if (there >> i & 1)
            sensor(TEMP + dbus[i]);
        if (acc >> i & 1)
            a.push_back(names[i]);
    }
    // never a match: names are not prefixes or suffixes
    sensor(TEMP + "AA_1");
    sensor(TEMP + "A_11");
    std::vector<std::string> in = {"A 1", "B 1", "C 1"};
    config("/i/z", ZONE, zoneProps("Z 1"));
    Props p = pidProps("P", "temp", in);
    if (stepwise)
        p = {{"Name", vStr("P")},
             {"Class", vStr("Floor")},
             {"Inputs", vStrs(in)},
             {"Zones", vStrs({"Z 1"})},
             {"Reading", vDbls({1})},
             {"Output", vDbls({1})}};
    p.push_back({"MissingIsAcceptable", vStrs(a)});
    p.push_back({"InputUnavailableAsFailed", vBool(unav)});
    p.push_back({"IgnoreFailIfHostOff", vBool(host)});
    config("/i/p", stepwise ? STEP : PID, p);
    Result r = load();
    sym_assert(!r.threw, "an absent sensor stops the configuration");
    std::set<std::string> want;
    for (int i = 0; i < 3; i++)
    {
        bool on = there >> i & 1, ok = acc >> i & 1;
        // built to fail, where the absence is not acceptable
        if (on || (HANDLE_MISSING_OBJECT_PATHS && !ok))
            want.insert(dbus[i]);
    }
    std::set<std::string> got, inputs;
    for (auto& s : r.sensors)
        got.insert(s.first);
    sym_assert(got == want, "the sensors are not those that are there, and "
                            "those whose absence is a failure");
    for (auto& s : r.sensors)
        sym_assert(s.second.type == "temp" &&
                       s.second.readPath == TEMP + s.first &&
                       s.second.timeout == 0 && s.second.ignoreDbusMinMax &&
                       s.second.unavailableAsFailed == unav &&
                       s.second.ignoreFailIfHostOff == host,
                   "a sensor differs from the configuration");
    if (want.empty())
    {
        sym_assert(r.pids.empty() || r.pids.begin()->second.empty(),
                   "a controller without any input is built");
        sym_reach("none");
        return;
    }
    sym_assert(r.ok && r.pids.size() == 1 && r.pids.begin()->second.count("P"),
               "the controller is missing");
    for (auto& i : r.pids.begin()->second["P"].inputs)
        inputs.insert(i.name);
    sym_assert(inputs == want, "the controller's inputs are not those that are "
                               "there, and those whose absence is a failure");
    sym_reach("end");
}

// ------------------------------------------------------- nothing to work with
SYM_HARNESS(failures)
{
    sensor(TEMP + "A");
    int what = sym_pick("what", 7);
    static const char* fail[] = {"GetSubTree", "GetManagedObjects", "modes",
                                 "Get"};
    if (what != 5)
        config("/i/p", PID, pidProps("P", "temp", {"A"}));
    if (what != 4)
        config("/i/z", ZONE, zoneProps("Z 1"));
    modes.push_back({"m1.svc", "quiet"});
    if (what < 4)
        failing = fail[what];
    if (what == 6)
    {
        objects.clear();
        confs.clear();
    }
    Result r = load();
    if (what == 4 || what == 5)
    {
        sym_assert(!r.ok && !r.threw,
                   "a configuration without zones or controllers is started");
        sym_reach("paused");
        return;
    }
    sym_assert(r.threw, "a configuration that cannot be read is started");
    sym_assert(!r.pids.count(77) && !r.zones.count(77) &&
                   !r.sensors.count("old"),
               "parts of an earlier configuration stay");
    sym_reach("failed");
}

// ------------------------------------------------- the configuration changes
SYM_HARNESS(reload)
{
    sensor(TEMP + "A");
    config("/i/z", ZONE, zoneProps("Z 1"));
    config("/i/p", PID, pidProps("P", "temp", {"A"}));
    load();
    load(); // each reload loads again: nothing may pile up
    auto& pend = boost::asio::hvAsio().pending;
    sym_assert(pend.empty() && restarts == 0, "a reload nobody asked for");
    static const char* itf[] = {
        "xyz.openbmc_project.Control.ThermalMode",
        "xyz.openbmc_project.Configuration.Pid",
        "xyz.openbmc_project.Configuration.Pid.Zone",
        "xyz.openbmc_project.Configuration.Stepwise",
        "xyz.openbmc_project.Sensor.Value",
        "xyz.openbmc_project.Configuration.Fan"};
    static const char* assoc = "xyz.openbmc_project.Association.Definitions";
    static const char* assoc2 = "xyz.openbmc_project.Association";
    const std::string S = "/xyz/openbmc_project/sensors/temperature/B";
    const int n = deep ? 4 : 3;
    int64_t due = -1; // when the reload is due
    int done = 0;
    for (int k = 0; k <= n; k++)
    {
        // time passes
        hv::steadyNs += sym_i64("gap", 0, 5'000'000'000);
        if (due >= 0 && (k == n || hv::steadyNs >= due))
        {
            sym_assert(pend.size() == 1 && restarts == done,
                       "a reload is early, or not on its way");
            sym_assert(
                pend[0]->at.time_since_epoch().count() == due,
                "a reload is not due two seconds after the last change");
            hv::fireTimer(0);
            while (io.run_one())
            {}
            due = -1;
            sym_assert(restarts == ++done && pend.empty(),
                       "a burst of changes is not one reload");
        }
        sym_assert(pend.size() == (due >= 0 ? 1u : 0u) && restarts == done,
                   "a reload nobody asked for");
        if (k == n)
            break;
        int kind = sym_pick("event", 13);
        bool counts = true;
        if (kind < 6)
        {
            hv::propertiesChanged("/i/p", itf[kind], {{"X", vDbl(1)}});
            counts = kind < 4;
        }
        else
        {
            MsgData m;
            m.sender = ":1.9";
            m.path = "/";
            m.interface = OM;
            m.member = kind < 11 ? "InterfacesAdded" : "InterfacesRemoved";
            std::string path = kind == 6 || kind == 12 ? "/i/board" : S;
            m.body.push_back(vStr(path, 'o'));
            Val a = vArr({vRec({vStr("a"), vStr("b"), vStr("c")})});
            Val ap = vProps({{"Associations", a}}), none = vProps({});
            Val vp = vProps({{"Value", vDbl(3)}, {"On", vBool(true)}});
            if (kind >= 11)
                m.body.push_back(vStrs({VALUE}));
            else if (kind == 8)
                m.body.push_back(vDict({{assoc, ap}}));
            else if (kind == 9)
                m.body.push_back(vDict({{assoc, ap}, {assoc2, none}}));
            else if (kind == 10)
                m.body.push_back(vDict({{assoc, ap}, {VALUE, vp}}));
            else
                m.body.push_back(vDict({{VALUE, vp}}));
            signal(m);
            // associations are the mapper's, and other objects no sensors
            counts = kind == 7 || kind == 10 || kind == 11;
        }
        while (io.run_one())
        {}
        if (counts)
            due = hv::steadyNs + 2'000'000'000;
    }
    sym_reach("end");
}
