// From a configuration to the sensors: where readings come from and where
// demands go.
#include "config.h"

#include "common/clock.hpp"
#include "common/memfs.hpp"
#include "common/util.hpp"
#include "conf.hpp"
#include "hv/dbus.hpp"
#include "sensors/builder.hpp"
#include "sensors/host.hpp"
#include "sensors/manager.hpp"

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace pid_control;
using namespace hv;
extern "C" bool __symhook__ZNKSt5ctypeIcE2isEtc(const std::ctype<char>*,
                                                 std::ctype_base::mask m, char c)
{
    if (m != std::ctype_base::space)
        abort();
    return sym_or(c == ' ', sym_and(c >= 9, c <= 13));
}
#ifdef SYM_THOROUGH
static const bool deep = true;
#else
static const bool deep = false;
#endif
static const std::string VALUE = "xyz.openbmc_project.Sensor.Value";
static const std::string PWM = "xyz.openbmc_project.Control.FanPwm";
static const std::string RED = "xyz.openbmc_project.Control.FanRedundancy";
static const std::string S = "/xyz/openbmc_project/sensors/";
static const std::string OUT = "/xyz/openbmc_project/control/fanpwm/";
static const std::string EXT = "/xyz/openbmc_project/extsensors/temperature/";

struct Obj
{
    std::string itf;
    double value = 0, min = 0, max = 0;
};
static std::map<std::string, Obj> objs; // what is on the bus
static std::map<std::string, int64_t> target;
static std::set<std::string> redundant; // marked as failed by redundancy
static void serve()
{
    world().handler = [](MsgData& m, std::vector<Val>& r) {
        std::string a0 = m.body.empty() ? "" : m.body[0].s;
        if (m.member == "GetSubTree")
        {
            std::vector<std::pair<std::string, Val>> d;
            if (!redundant.empty())
                d.push_back({"/red", vDict({{"red.svc", vStrs({RED})}})});
            r.push_back(vDict(d));
            return true;
        }
        if (m.path == "/red" && m.member == "GetAll" && a0 == RED)
        {
            std::vector<std::string> v(redundant.begin(), redundant.end());
            r.push_back(
                vProps({{"Status", vStr("Failed")}, {"Collection", vStrs(v)}}));
            return true;
        }
        if (m.member == "GetObject")
        {
            auto o = objs.find(a0);
            if (o == objs.end())
                return false;
            if (m.body.size() > 1 && !m.body[1].c.empty() &&
                m.body[1].c[0].s != o->second.itf)
                return false;
            r.push_back(vDict({{"a.svc", vStrs({o->second.itf})}}));
            return true;
        }
        auto o = objs.find(m.path);
        if (o == objs.end() || m.service != "a.svc")
            return false;
        if (m.member == "GetAll" && a0 == VALUE && o->second.itf == VALUE)
        {
            r.push_back(vProps({{"Value", vDbl(o->second.value)},
                                {"MinValue", vDbl(o->second.min)},
                                {"MaxValue", vDbl(o->second.max)},
                                {"Unit", vStr("x.DegreesC")}}));
            return true;
        }
        if (m.member == "Set" && a0 == PWM && o->second.itf == PWM &&
            m.body.size() == 3 && m.body[1].s == "Target")
        {
            target[m.path] = m.body[2].c.at(0).i;
            return true;
        }
        return false;
    };
}
static void facets()
{
#ifndef SYM_NATIVE
    std::locale::global(
        std::locale(std::locale::classic(), new std::num_get<char>));
#endif
}
static int64_t number(const std::string& t)
{
    int64_t v = 0;
    bool any = false;
    for (char c : t)
        if (c >= '0' && c <= '9')
        {
            v = v * 10 + (c - '0');
            any = true;
        }
    return any ? v : -1;
}

// one sensor of any kind among others
SYM_HARNESS(build)
{
    facets();
    static const char* types[] = {"fan",   "temp",     "margin",
                                  "power", "powersum", "voltage"};
    std::string type = types[sym_pick("type", 6)];
    bool fan = type == "fan";
    // the varied sensor comes first, in the middle or last
    static const char* names[] = {"aa", "mm", "zz"};
    std::string name = names[sym_pick("name", 3)];
    conf::SensorConfig c;
    c.type = type;
    enum
    {
        DBUS,
        FILE_,
        NONE,
        NONE2,
        OTHER,
        EXTERNAL,
        ABSENT
    };
    static const std::string reads[] = {
        S + "fan_tach/x",   "/sys/hv/x_input", "", "None", "/dev/x_input",
        EXT + "x",          S + "fan_tach/nowhere"};
    static const std::string writes[] = {OUT + "x", "/sys/hv/x", "", "None",
                                         "/dev/x", "", OUT + "nowhere"};
    int rk = sym_pick("read", 7), wk = sym_pick("write", 6);
    if (wk == EXTERNAL)
        wk = ABSENT;
    if (fan && rk == EXTERNAL)
        return; // external sensors are inputs
    c.readPath = reads[rk];
    c.writePath = writes[wk];
    static const int64_t lim[][2] = {{0, 0}, {0, 255}, {30, 230}};
    int l = fan ? sym_pick("limits", 3) : 0;
    c.min = lim[l][0];
    c.max = lim[l][1];
    c.timeout = sym_i64("timeout", 0, 1000);
    c.ignoreDbusMinMax = sym_pick("ignoreDbusMinMax", 2);
    c.unavailableAsFailed = sym_bool("unavailableAsFailed");
    c.ignoreFailIfHostOff = sym_bool("ignoreFailIfHostOff");
    double value = sym_f64("value", 1, 1000);
    int dig = sym_u8("digit", 0, 9);
    objs[S + "fan_tach/x"] = {VALUE, value, 0, 2000};
    objs[OUT + "x"] = {PWM};
    objs[S + "fan_tach/f"] = {VALUE, 4000};
    objs[OUT + "f"] = {PWM};
    files()["/sys/hv/x_input"].data = std::string(1, (char)('0' + dig)) + "0\n";
    files()["/sys/hv/x"].data = "9\n";
    files()["/dev/x"].data = "9\n";
    files()["/dev/x_input"].data = "9\n";
    files()["/sys/hv/t_input"].data = "31000\n";
    int red = sym_pick("redundant", 2);
    if (red)
        redundant = {S + "fan_tach/x"};
    serve();
    std::map<std::string, conf::SensorConfig> conf;
    conf[name] = c;
    conf::SensorConfig f;
    f.type = "fan";
    f.readPath = S + "fan_tach/f";
    f.writePath = OUT + "f";
    f.min = 0;
    f.max = 100;
    f.timeout = 5;
    conf["fan"] = f;
    conf::SensorConfig t;
    t.type = "temp";
    t.readPath = "/sys/hv/t_input";
    t.timeout = 7;
    conf["temp"] = t;
    sdbusplus::bus_t passive{"passive"}, host{"host"};
    bool threw = false;
    std::unique_ptr<SensorManager> mgr;
    try
    {
        mgr = std::make_unique<SensorManager>(
            buildSensors(conf, passive, host));
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    bool known = type != "voltage";
    bool refuse = false;
    if (rk == ABSENT && known && !HANDLE_MISSING_OBJECT_PATHS)
        refuse = true;
    if (fan && wk == ABSENT)
        refuse = true;
    if (!known && rk == ABSENT)
        return; // not claimed
    if (!known && rk == DBUS)
        return;
    sym_assert(threw == refuse,
               "a sensor that is not there is built, or one that is is not");
    if (threw)
    {
        sym_reach("refused");
        return;
    }
    // the others
    Sensor* of = mgr->getSensor("fan");
    Sensor* ot = mgr->getSensor("temp");
    sym_assert(of->read().value == 4000 && ot->read().value == 31000 &&
                   of->getTimeout() == 5 && ot->getTimeout() == 7 &&
                   !of->getFailed() && !ot->getFailed(),
               "another sensor is disturbed");
    of->write(0.5);
    sym_assert(target[OUT + "f"] == 50, "another fan is disturbed");
    Sensor* s = nullptr;
    try
    {
        s = mgr->getSensor(name);
    }
    catch (const std::out_of_range&)
    {}
    sym_assert((s != nullptr) == known, "a sensor is built that is of no use, or "
                                        "one that is of use is not");
    if (!s)
    {
        sym_reach("unknown");
        return;
    }
    sym_assert(s->getName() == name && s->getTimeout() == c.timeout &&
                   s->getIgnoreFailIfHostOff() == c.ignoreFailIfHostOff,
               "a sensor's name, timeout or failure setting is not its own");
    // reading
    bool can = true;
    ReadReturn r;
    try
    {
        r = s->read();
    }
    catch (const std::exception&)
    {
        can = false;
    }
    switch (rk)
    {
        case DBUS:
            sym_assert(can, "a sensor on D-Bus cannot be read");
            hv::assertClose(r.value,
                            c.ignoreDbusMinMax ? value : value / 2000,
                            "the reading is not that of the D-Bus object");
            sym_assert(r.unscaled == value, "the unscaled reading differs");
            // (the host is off: nobody answers for it)
            sym_assert(s->getFailed() ==
                           (fan && red && !c.ignoreFailIfHostOff),
                       "the sensor does not follow its own redundancy group");
            break;
        case FILE_:
            sym_assert(can && r.value == dig * 10,
                       "the reading is not that of the file");
            sym_assert(!s->getFailed(), "a readable sensor has failed");
            break;
        case EXTERNAL:
        {
            sym_assert(can && r.value == 0 && r.updated.time_since_epoch()
                                                      .count() == nowNs,
                       "an external sensor does not start with 0");
            auto o = served<ValueInterface>().find(EXT + "x");
            sym_assert(o != served<ValueInterface>().end(),
                       "an external sensor is not served");
            o->second->value(value);
            sym_assert(s->read().value == value,
                       "an external sensor does not take what it is given");
            bool there = false;
            for (auto& x : world().objects)
                there = there || x == EXT + "x";
            sym_assert(there, "an external sensor is not announced");
            break;
        }
        case ABSENT:
            sym_assert(can && !sym_finite(r.value) &&
                           s->getFailed() == !c.ignoreFailIfHostOff,
                       "a sensor that is not there has not failed");
            break;
        default:
            sym_assert(!can || !sym_finite(r.value) || !fan,
                       "a sensor without a source has a reading");
    }
    // writing
    if (rk == EXTERNAL)
    {
        sym_reach("end");
        return;
    }
    double demand = sym_pick("full", 2) ? 1 : 0.5;
    double x = c.max > 0 ? demand * (double)(c.max - c.min) + (double)c.min
                         : 100 * demand;
    int64_t want = (int64_t)x;
    int64_t raw = -5;
    int how = sym_pick("how", 2);
    target[OUT + "f"] = 9;
    if (how)
        s->write(c.max > 0 ? demand : 100 * demand, true, &raw);
    else
        s->write(c.max > 0 ? demand : 100 * demand);
    bool toBus = fan && wk == DBUS, toFile = fan && wk == FILE_;
    sym_assert(toBus ? target[OUT + "x"] == want : !target.count(OUT + "x"),
               "a demand does not go to the fan, or goes to another");
    sym_assert(number(files()["/sys/hv/x"].data) == (toFile ? want : 9),
               "a demand does not go to the fan's file, or goes to another");
    sym_assert(files()["/dev/x"].data == "9\n" && target[OUT + "f"] == 9 &&
                   number(files()["/sys/hv/x_input"].data) == dig * 10,
               "something else than the fan is written");
    if (how && toBus)
        sym_assert(raw == want, "what was written is not reported");
    sym_reach("end");
}
// the latest entry of a name wins, and everything is found by its own name
SYM_HARNESS(manager)
{
    sdbusplus::bus_t passive{"passive"}, host{"host"};
    SensorManager mgr{passive, host};
    sym_assert(&mgr.getPassiveBus() == &passive && &mgr.getHostBus() == &host,
               "buses are exchanged");
    struct Sn : Sensor
    {
        double v;
        Sn(const std::string& n, double x) : Sensor(n, 0), v(x) {}
        ReadReturn read() override { return {v, {}, v}; }
        void write(double) override {}
    };
    static const char* names[] = {"a", "ab", "b"};
    double v[3];
    bool have[3] = {false, false, false};
    const int n = deep ? 5 : 4;
    for (int k = 0; k < n; k++)
    {
        int i = sym_pick("sensor", 3);
        v[i] = sym_f64_any("value");
        have[i] = true;
        mgr.addSensor(sym_pick("type", 2) ? "fan" : "temp", names[i],
                      std::make_unique<Sn>(names[i], v[i]));
        for (int j = 0; j < 3; j++)
        {
            bool there = true;
            double got = 0;
            try
            {
                got = mgr.getSensor(names[j])->read().value;
            }
            catch (const std::out_of_range&)
            {
                there = false;
            }
            sym_assert(there == have[j], "a sensor is lost or made up");
            if (there)
                sym_assert(sym_same(got, v[j]),
                           "a sensor is found under another's name");
        }
    }
    sym_reach("end");
}
