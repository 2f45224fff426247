// Sensors read from D-Bus: when they count as failed, which value and age they
// report, and which of them fan redundancy marks as failed.
#include "config.h"

#include "common/clock.hpp"
#include "common/util.hpp"
#include "conf.hpp"
#include "dbushelper.hpp"
#include "dbuspassive.hpp"
#include "dbuspassiveredundancy.hpp"
#include "hv/dbus.hpp"

using namespace pid_control;
using namespace hv;

#ifdef SYM_THOROUGH
static const bool deep = true;
#else
static const bool deep = false;
#endif

static const std::string VALUE = "xyz.openbmc_project.Sensor.Value";
static const std::string CRIT = "xyz.openbmc_project.Sensor.Threshold.Critical";
static const std::string WARN = "xyz.openbmc_project.Sensor.Threshold.Warning";
static const std::string AVAIL =
    "xyz.openbmc_project.State.Decorator.Availability";
static const std::string OPER =
    "xyz.openbmc_project.State.Decorator.OperationalStatus";
static const std::string RED = "xyz.openbmc_project.Control.FanRedundancy";
static const std::string SVC = "xyz.openbmc_project.HwmonTempSensor";

using Props = std::vector<std::pair<std::string, Val>>;

// one sensor object on the bus: interface -> properties
struct Obj
{
    std::string path;
    std::map<std::string, Props> itf;
};

static std::string argStr(const MsgData& m, size_t i)
{
    return i < m.body.size() ? m.body[i].s : std::string();
}

// a bus with one sensor object, as the object mapper and the sensor answer
static void serve(Obj* o)
{
    world().handler = [o](MsgData& m, std::vector<Val>& r) {
        if (m.member == "GetObject")
        {
            if (!o || argStr(m, 0) != o->path)
                return false;
            r.push_back(vDict({{SVC, vStrs({VALUE})}}));
            return true;
        }
        if (m.service != SVC || !o || m.path != o->path)
            return false;
        auto it = o->itf.find(argStr(m, 0));
        if (it == o->itf.end())
            return false;
        if (m.member == "GetAll")
        {
            r.push_back(vProps(it->second));
            return true;
        }
        if (m.member == "Get")
            for (auto& p : it->second)
                if (p.first == argStr(m, 1))
                {
                    r.push_back(vVar(p.second));
                    return true;
                }
        return false;
    };
}

static std::unique_ptr<DbusPassive> make(
    const std::string& type, const conf::SensorConfig& info,
    std::shared_ptr<DbusPassiveRedundancy> red = nullptr,
    const std::string& id = "cpu")
{
    static sdbusplus::bus_t bus("passive");
    auto p = DbusPassive::createDbusPassive(
        bus, type, id, std::make_unique<DbusHelper>(bus), &info, red);
    return std::unique_ptr<DbusPassive>(
        static_cast<DbusPassive*>(p.release()));
}
static conf::SensorConfig config(const std::string& type,
                                 const std::string& path)
{
    conf::SensorConfig c{};
    c.type = type;
    c.readPath = path;
    return c;
}

// ---------------------------------------------------------------- status
struct Expect
{
    bool fan, margin, strict; // strict: unavailable counts as failed
    bool avail = true, func = true, bad = false, hot = false;
    bool low = false, high = false, warn = false;
    // an alarm reported by a signal since the sensor was set up
    void reading(double v, bool force)
    {
        bool fin = sym_finite(v);
        bad = !fin;
        bool upd = sym_or(fin, force);
        bool h = v <= 0;
        hot = sym_and(margin, sym_or(sym_and(upd, h), sym_and(!upd, hot)));
    }
    bool alarm() const { return sym_or(sym_or(low, high), warn); }
    bool failed() const
    {
        bool excused = sym_and(sym_and(!fan, !avail), !strict);
        bool f = sym_or(sym_or(bad, hot),
                        sym_or(alarm(), sym_or(!avail, !func)));
        return sym_and(!excused, f);
    }
};

static void checkStatus(DbusPassive& s, const Expect& e)
{
    bool f = s.getFailed();
    sym_assert(f == e.failed(), "failure status of a D-Bus sensor is wrong");
    if (f)
    {
        std::string r = s.getFailReason();
        bool ok = false;
        if (r == "Sensor reading bad")
            ok = e.bad;
        else if (r == "Margin hot")
            ok = e.hot;
        else if (r == "Sensor threshold asserted")
            ok = e.alarm();
        else if (r == "Sensor unavailable")
            ok = !e.avail;
        else if (r == "Sensor not functional")
            ok = !e.func;
        sym_assert(ok, "the reported failure reason does not hold");
    }
    sym_obs_i("failed", f);
}

static double anyReading(const char* n)
{
    double v = sym_f64_any(n);
    double a = __builtin_fabs(v);
    // scaling must neither overflow nor vanish
    sym_assume(sym_or(sym_or(v == 0, v != v),
                      sym_or(!(a <= 1e300),
                             sym_and(a >= 1e-200, a <= 1e290))));
    sym_assume(sym_or(!(a > 1e290), !sym_finite(v)));
    return v;
}

static void statusRun(const std::string& type, bool initAlarms, int steps,
                      int kinds)
{
    Expect e;
    e.fan = type == "fan";
    e.margin = type == "margin";
    conf::SensorConfig c = config(type, "/xyz/openbmc_project/sensors/t/cpu");
    e.strict = sym_bool("unavailableAsFailed");
    c.unavailableAsFailed = e.strict;
    c.ignoreDbusMinMax = false;
    Obj o{c.readPath, {}};
    double v0 = anyReading("initial");
    o.itf[VALUE] = {{"Value", vDbl(v0)}};
    // limits scale the reading, but do not change what it means
    if (initAlarms && e.margin && sym_pick("limits", 2))
    {
        o.itf[VALUE].push_back({"MinValue", vDbl(-128)});
        o.itf[VALUE].push_back({"MaxValue", vDbl(127)});
    }
    if (sym_pick("hasAvailability", 2))
    {
        e.avail = sym_bool("initially_available");
        o.itf[AVAIL] = {{"Available", vBool(e.avail)}};
    }
    if (initAlarms)
    {
        bool l = sym_bool("initially_low"), h = sym_bool("initially_high");
        o.itf[CRIT] = {{"CriticalHigh", vDbl(90)},
                       {"CriticalAlarmHigh", vBool(h)},
                       {"CriticalAlarmLow", vBool(l)}};
        e.low = l;
        e.high = h;
        if (UNC_FAILSAFE)
        {
            bool w = sym_bool("initially_warning");
            o.itf[WARN] = {{"WarningAlarmHigh", vBool(w)}};
            e.warn = w;
        }
    }
    serve(&o);
    auto s = make(type, c);
    sym_assert(s != nullptr, "a sensor present on D-Bus was not created");
    e.reading(v0, true);
    int n = sym_pick("signals", steps + 1);
    for (int i = 0; i < n; i++)
    {
        int heard = 1;
        switch (sym_pick("signal", kinds))
        {
            case 0:
            {
                double v = anyReading("value");
                heard = propertiesChanged(o.path, VALUE, {{"Value", vDbl(v)}});
                e.reading(v, false);
                break;
            }
            case 1:
            {
                bool b = sym_bool("available");
                heard =
                    propertiesChanged(o.path, AVAIL, {{"Available", vBool(b)}});
                e.avail = b;
                if (!b) // the old reading must not be used any more
                    e.reading(NAN, true);
                break;
            }
            case 2:
                e.func = sym_bool("functional");
                heard = propertiesChanged(o.path, OPER,
                                          {{"Functional", vBool(e.func)}});
                break;
            case 3:
                e.high = sym_bool("critical_high");
                heard = propertiesChanged(
                    o.path, CRIT, {{"CriticalAlarmHigh", vBool(e.high)}});
                break;
            case 4:
                e.low = sym_bool("critical_low");
                heard = propertiesChanged(o.path, CRIT,
                                          {{"CriticalAlarmLow", vBool(e.low)}});
                break;
            case 5:
                e.low = sym_bool("critical_low");
                e.high = sym_bool("critical_high");
                heard = propertiesChanged(
                    o.path, CRIT,
                    {{"CriticalAlarmHigh", vBool(e.high)},
                     {"CriticalAlarmLow", vBool(e.low)}});
                break;
            case 6:
            {
                bool w = sym_bool("warning_high");
                heard = propertiesChanged(o.path, WARN,
                                          {{"WarningAlarmHigh", vBool(w)}});
                if (UNC_FAILSAFE)
                    e.warn = w;
                break;
            }
            case 7: // nothing that concerns the sensor's status
                switch (sym_pick("unrelated", 4))
                {
                    case 0:
                        propertiesChanged(o.path, CRIT,
                                          {{"CriticalHigh", vDbl(NAN)}});
                        break;
                    case 1:
                        propertiesChanged(o.path, VALUE,
                                          {{"MaxValue", vDbl(NAN)}});
                        break;
                    case 2:
                        propertiesChanged(o.path + "0", VALUE,
                                          {{"Value", vDbl(NAN)}});
                        break;
                    case 3:
                        propertiesChanged(o.path + "0", OPER,
                                          {{"Functional", vBool(false)}});
                        break;
                }
                break;
        }
        sym_assert(heard >= 1, "a signal of the sensor is not listened to");
    }
    checkStatus(*s, e);
    sym_reach("end");
}
// set-up from the properties the object has
SYM_HARNESS(status_initial)
{
    static const char* types[] = {"temp", "margin", "fan", "power"};
    statusRun(types[sym_pick("type", 4)], true, 0, 1);
}
// histories of signals
SYM_HARNESS(status_history)
{
    static const char* types[] = {"temp", "margin", "fan"};
    statusRun(types[sym_pick("type", 3)], false, deep ? 3 : 2, 8);
}
// alarms present from the start, and how they go away
SYM_HARNESS(status_alarms)
{
    Obj o{"/xyz/openbmc_project/sensors/temperature/cpu", {}};
    conf::SensorConfig c = config("temp", "");
    Expect e{false, false, true};
    c.unavailableAsFailed = true;
    o.itf[VALUE] = {{"Value", vDbl(40)}};
    o.itf[CRIT] = {{"CriticalAlarmHigh", vBool(false)},
                   {"CriticalAlarmLow", vBool(false)}};
    o.itf[WARN] = {{"WarningAlarmHigh", vBool(false)}};
    int start = sym_pick("asserted_at_start", UNC_FAILSAFE ? 4 : 3);
    e.low = start == 1;
    e.high = start == 2;
    e.warn = start == 3;
    o.itf[CRIT][0].second = vBool(e.high);
    o.itf[CRIT][1].second = vBool(e.low);
    o.itf[WARN][0].second = vBool(e.warn);
    serve(&o);
    auto s = make("temp", c);
    const int n = deep ? 5 : 4;
    // the alarm found at set-up is still on, and another one went away
    bool blurred = false, startOn = start != 0;
    for (int i = 0; i < n; i++)
    {
        // each signal reports a change
        bool b;
        int which = sym_pick("alarm", UNC_FAILSAFE ? 3 : 2);
        if (which + 1 == start)
            startOn = blurred = false;
        switch (which)
        {
            case 0:
                b = !e.low;
                propertiesChanged(o.path, CRIT,
                                  {{"CriticalAlarmLow", vBool(b)}});
                e.low = b;
                break;
            case 1:
                b = !e.high;
                propertiesChanged(o.path, CRIT,
                                  {{"CriticalAlarmHigh", vBool(b)}});
                e.high = b;
                break;
            case 2:
                b = !e.warn;
                propertiesChanged(o.path, WARN,
                                  {{"WarningAlarmHigh", vBool(b)}});
                e.warn = b;
                break;
        }
        if (!b && startOn)
            blurred = true;
        if (blurred)
            sym_assert(s->getFailed(),
                       "an alarm found at set-up is forgotten when another "
                       "alarm goes away");
        else
            checkStatus(*s, e);
    }
    sym_reach("end");
}
// an object that is not there, or does not answer
SYM_HARNESS(status_missing)
{
    static const char* types[] = {"temp", "margin", "fan", "power",
                                  "powersum"};
    std::string type = types[sym_pick("type", 5)];
    conf::SensorConfig c = config(type, "/xyz/openbmc_project/sensors/t/cpu");
    c.unavailableAsFailed = sym_pick("unavailableAsFailed", 2);
    c.ignoreDbusMinMax = sym_pick("ignoreDbusMinMax", 2);
    Obj o{c.readPath, {}};
    o.itf[CRIT] = {{"CriticalAlarmHigh", vBool(true)}};
    if (sym_pick("missing", 2))
    {
        serve(nullptr);
        auto s = make(type, c);
        if (!HANDLE_MISSING_OBJECT_PATHS)
        {
            sym_assert(s == nullptr,
                       "a sensor missing from D-Bus was created");
        }
        else
        {
            sym_assert(s != nullptr,
                       "a sensor missing from D-Bus was not created");
            sym_assert(s->getFailed(), "a missing sensor is not failed");
            sym_assert(s->getFailReason() == "Sensor D-Bus object missing",
                       "the reported failure reason does not hold");
            sym_assert(!sym_finite(s->read().value),
                       "a missing sensor has a reading");
            // whatever is heard of it, until it is set up again
            double v = sym_f64_any("value");
            propertiesChanged(c.readPath, AVAIL, {{"Available", vBool(true)}});
            propertiesChanged(c.readPath, VALUE, {{"Value", vDbl(v)}});
            propertiesChanged(c.readPath, CRIT,
                              {{"CriticalAlarmHigh", vBool(false)}});
            sym_assert(s->getFailed(), "a missing sensor is not failed");
        }
        sym_reach("missing");
    }
    else
    {
        serve(&o); // no Sensor.Value properties
        auto s = make(type, c);
        sym_assert(s == nullptr, "a sensor without readings was created");
        sym_reach("silent");
    }
}

// ---------------------------------------------------------------- value
static double scaleRef(double v, double lo, double hi)
{
    bool use = sym_not(sym_or(hi <= 0, hi <= lo));
    return sym_ite_d(use, (v - lo) / (hi - lo), v);
}
SYM_HARNESS(value)
{
    static const char* types[] = {"temp", "margin", "fan"};
    std::string type = types[sym_pick("type", 3)];
    std::string path = "/xyz/openbmc_project/sensors/" +
                       std::string(type == "fan" ? "fan_tach" : "temperature") +
                       "/cpu";
    bool viaPath = sym_pick("readPathGiven", 2);
    conf::SensorConfig c = config(type, viaPath ? path : "");
    c.ignoreDbusMinMax = sym_pick("ignoreDbusMinMax", 2);
    c.unavailableAsFailed = true;
    Obj o{path, {}};
    const double M = 1e9;
    double v0 = sym_f64("initial", -M, M), lo = 0, hi = 0;
    Props p = {{"Value", vDbl(v0)}};
    int scale = 0;
    if (sym_pick("hasScale", 2))
    {
        static const int sc[] = {-3, 0, 2};
        scale = sc[sym_pick("scale", 3)];
        p.push_back({"Scale", vI64(scale)});
    }
    int limits = sym_pick("limits", 3);
    if (limits == 1)
    {
        lo = sym_f64("min", -M, M);
        hi = sym_f64("max", -M, M);
        p.push_back({"MinValue", vDbl(lo)});
        p.push_back({"MaxValue", vDbl(hi)});
    }
    if (limits == 2)
    {
        int64_t l = sym_i64("min", -1000000, 1000000),
                h = sym_i64("max", -1000000, 1000000);
        lo = (double)l;
        hi = (double)h;
        p.push_back({"MinValue", vI64(l)});
        p.push_back({"MaxValue", vI64(h)});
    }
    o.itf[VALUE] = p;
    double f = scale == -3 ? 0.001 : scale == 2 ? 100.0 : 1.0;
    if (c.ignoreDbusMinMax)
        lo = hi = 0;
    lo *= f;
    hi *= f;
    // ranges too narrow to divide by are not of interest
    sym_assume(sym_or(hi <= lo, hi - lo > 1e-3));
    serve(&o);
    int64_t t = nowNs;
    auto s = make(type, c);
    sym_assert(s != nullptr, "a sensor present on D-Bus was not created");
    double cur = v0;
    bool good = true;
    const int n = deep ? 3 : 2;
    for (int i = 0; i <= n; i++)
    {
        if (i)
        {
            nowNs += sym_i64("elapsed", 1, 1000000000000);
            int kind = sym_pick("signal", 5);
            if (kind == 0)
            {
                cur = sym_f64("value", -M, M);
                propertiesChanged(path, VALUE, {{"Value", vDbl(cur)}});
                t = nowNs;
                good = true;
            }
            else if (kind == 1)
            {
                int64_t x = sym_i64("value", -1000000, 1000000);
                cur = (double)x;
                propertiesChanged(path, VALUE, {{"Value", vI64(x)}});
                t = nowNs;
                good = true;
            }
            else if (kind == 2) // no reading: the last one stands, and ages
            {
                static const double odd[] = {NAN, INFINITY, -INFINITY};
                propertiesChanged(path, VALUE,
                                  {{"Value", vDbl(odd[sym_pick("odd", 3)])}});
            }
            else if (kind == 3) // gone: no reading at all
            {
                propertiesChanged(path, AVAIL, {{"Available", vBool(false)}});
                t = nowNs;
                good = false;
            }
            else
            {
                propertiesChanged(path, AVAIL, {{"Available", vBool(true)}});
                propertiesChanged(path, OPER, {{"Functional", vBool(true)}});
                propertiesChanged(path, CRIT,
                                  {{"CriticalAlarmHigh", vBool(false)}});
            }
        }
        ReadReturn r = s->read();
        if (good)
        {
            hv::assertClose(r.unscaled, cur * f,
                            "unscaled reading is not the sensor's value");
            double want = scaleRef(cur * f, lo, hi);
            sym_assert_close(r.value, want, 1e-6, 1e-6,
                             "reading is not the scaled value");
        }
        else
        {
            sym_assert(sym_isnan(r.value), "an unavailable sensor has a value");
            sym_assert(sym_isnan(r.unscaled),
                       "an unavailable sensor has a value");
        }
        sym_assert(r.updated.time_since_epoch().count() == t,
                   "time of the reading is wrong");
        sym_obs_d("value", r.value);
    }
    sym_reach("end");
}

// ---------------------------------------------------------------- redundancy
struct Group
{
    std::string path, owner;
    std::vector<std::string> members;
    std::string status;
    bool answers = true;
};
static std::vector<Group> groups;
static bool mapperAnswers = true;
static void serveGroups()
{
    world().handler = [](MsgData& m, std::vector<Val>& r) {
        if (m.member == "GetSubTree")
        {
            if (!mapperAnswers)
                return false;
            std::vector<std::pair<std::string, Val>> d;
            for (size_t i = 0; i < groups.size(); i++)
            {
                std::vector<std::pair<std::string, Val>> owners;
                bool seen = false;
                for (size_t j = 0; j < groups.size(); j++)
                    if (groups[j].path == groups[i].path)
                    {
                        seen = seen || j < i;
                        owners.push_back({groups[j].owner, vStrs({RED})});
                    }
                if (!seen)
                    d.push_back({groups[i].path, vDict(owners)});
            }
            r.push_back(vDict(d));
            return true;
        }
        for (auto& g : groups)
            if (m.path == g.path && m.service == g.owner && g.answers &&
                argStr(m, 0) == RED)
            {
                if (m.member == "GetAll")
                {
                    r.push_back(vProps({{"Status", vStr(g.status)},
                                        {"Collection", vStrs(g.members)}}));
                    return true;
                }
                if (m.member == "Get" && argStr(m, 1) == "Collection")
                {
                    r.push_back(vVar(vStrs(g.members)));
                    return true;
                }
                if (m.member == "Get" && argStr(m, 1) == "Status")
                {
                    r.push_back(vVar(vStr(g.status)));
                    return true;
                }
            }
        return false;
    };
}
static const char* statuses[] = {
    "Full", "Degraded", "Failed",
    "xyz.openbmc_project.Control.FanRedundancy.State.Full",
    "xyz.openbmc_project.Control.FanRedundancy.State.Degraded",
    "xyz.openbmc_project.Control.FanRedundancy.State.Failed"};
static const std::string FAN = "/xyz/openbmc_project/sensors/fan_tach/fan";

SYM_HARNESS(redundancy)
{
    // two groups without common members
    groups = {{"/xyz/openbmc_project/control/FanRedundancy/A",
               "xyz.openbmc_project.FanSensor",
               {FAN + "0", FAN + "1"},
               ""},
              {"/xyz/openbmc_project/control/FanRedundancy/B", ":1.99",
               {FAN + "2"},
               ""}};
    // the same object path, served by two daemons
    if (sym_pick("same_path", 2))
        groups[1].path = groups[0].path;
    std::set<std::string> ref;
    auto note = [&](const Group& g) {
        for (auto& m : g.members)
            if (g.status.size() >= 6 &&
                g.status.substr(g.status.size() - 6) == "Failed")
                ref.insert(m);
            else
                ref.erase(m);
    };
    int present = sym_pick("groups_at_start", 3);
    auto all = groups;
    groups.resize(present);
    for (auto& g : groups)
    {
        g.status = statuses[sym_pick("status", 6)];
        note(g);
    }
    serveGroups();
    static sdbusplus::bus_t bus("passive");
    auto red = std::make_shared<DbusPassiveRedundancy>(bus);
    for (int i = present; i < 2; i++) // a group that appears later
        groups.push_back(all[i]);
    const int n = deep ? 3 : 2;
    for (int i = 0; i < n; i++)
    {
        int k = sym_pick("event", 4);
        Group& g = groups[k % 2];
        if (k < 2)
        {
            g.status = statuses[sym_pick("new_status", 6)];
            int heard = propertiesChanged(g.path, RED,
                                          {{"Status", vStr(g.status)}}, g.owner);
            sym_assert(heard >= 1, "redundancy signals are not listened to");
            note(g);
        }
        else if (k == 2) // the configuration of a group changed, not its status
            propertiesChanged(g.path, RED,
                              {{"Collection", vStrs({FAN + "7"})}}, g.owner);
        else
        {
            // the group cannot be asked for its members
            g.answers = false;
            propertiesChanged(g.path, RED, {{"Status", vStr("Failed")}},
                              g.owner);
            g.answers = true;
        }
    }
    sym_assert(red->getFailed() == ref,
               "fans marked as failed by redundancy are not those of the "
               "failed groups");
    // and the sensors of those fans are failed
    groups.clear();
    int f = sym_pick("fan", 4);
    std::string path = FAN + std::to_string(f);
    Obj o{path, {}};
    o.itf[VALUE] = {{"Value", vDbl(5000)}};
    serve(&o);
    conf::SensorConfig c = config("fan", "");
    auto s = make("fan", c, red, "fan" + std::to_string(f));
    sym_assert(s->getFailed() == (ref.count(path) != 0),
               "failure of a fan sensor does not follow fan redundancy");
    sym_reach("end");
}
// any status text: only "Failed" counts
SYM_HARNESS(redundancy_status)
{
    groups = {{"/xyz/openbmc_project/control/FanRedundancy/A", ":1.5",
               {FAN + "0"}, "Full"}};
    serveGroups();
    static sdbusplus::bus_t bus("passive");
    bool before = sym_pick("failed_before", 2);
    bool later = sym_pick("later", 2);
    if (later)
        groups[0].status = before ? "Failed" : "Full";
    std::string st;
    int len = sym_pick("length", deep ? 10 : 9);
    for (int i = 0; i < len; i++)
        st.push_back((char)sym_u8("char", 32, 126));
    bool isFailed = false;
    for (int i = 0; i + 6 <= len; i++)
    {
        bool here = true;
        for (int j = 0; j < 6; j++)
            here = sym_and(here, st[i + j] == "Failed"[j]);
        isFailed = sym_or(isFailed, here);
    }
    if (!later)
        groups[0].status = st;
    DbusPassiveRedundancy red(bus);
    if (later)
        propertiesChanged(groups[0].path, RED, {{"Status", vStr(st)}}, ":1.5");
    sym_assert((red.getFailed().count(FAN + "0") != 0) == isFailed,
               "a redundancy status other than failed marks fans as failed, "
               "or failed does not");
    sym_reach("end");
}
// the bus does not answer at start-up
SYM_HARNESS(redundancy_silent)
{
    groups = {{"/xyz/openbmc_project/control/FanRedundancy/A", ":1.5",
               {FAN + "0"}, "Failed"}};
    mapperAnswers = sym_pick("mapper", 2);
    groups[0].answers = false;
    serveGroups();
    static sdbusplus::bus_t bus("passive");
    DbusPassiveRedundancy red(bus);
    sym_assert(red.getFailed().empty(), "fans failed without being told");
    groups[0].answers = true;
    propertiesChanged(groups[0].path, RED, {{"Status", vStr("Failed")}}, ":1.5");
    sym_assert(red.getFailed() == std::set<std::string>{FAN + "0"},
               "fans marked as failed by redundancy are not those of the "
               "failed groups");
    sym_reach("end");
}
