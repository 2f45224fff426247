// The whole daemon, from the configuration file to the fans: main, the
// builders, sensors on D-Bus, in files and external, zones, controllers, the
// loop and the writers, run together.
#include "config.h"

#include "common/clock.hpp"
#include "common/memfs.hpp"
#include "common/util.hpp"
#include "conf.hpp"
#include "hv/dbus.hpp"
#include "pid/tuning.hpp"
#include "pid/zone.hpp"
#include "sensors/host.hpp"

#include <CLI/CLI.hpp>
#include <boost/asio.hpp>
#include <boost/asio/signal_set.hpp>
#include <boost/asio/steady_timer.hpp>

#include <csignal>
#include <filesystem>
#include <map>
#include <set>

using namespace pid_control;
using namespace hv;
using EnableItf = sdbusplus::xyz::openbmc_project::Object::server::Enable;
using ModeItf = sdbusplus::xyz::openbmc_project::Control::server::Mode;
#ifdef SYM_THOROUGH
static const bool deep = true;
#else
static const bool deep = false;
#endif
extern boost::asio::io_context io;
extern boost::asio::signal_set signals;
int swampd_main(int argc, char** argv);

namespace std::filesystem
{
static file_status look(const path& p)
{
    return file_status(hv::files().count(p.string()) ? file_type::regular
                                                     : file_type::not_found);
}
file_status status(const path& p) { return look(p); }
file_status status(const path& p, error_code& e) noexcept
{
    e.clear();
    return look(p);
}
file_status symlink_status(const path& p) { return look(p); }
file_status symlink_status(const path& p, error_code& e) noexcept
{
    e.clear();
    return look(p);
}
path current_path() { return "/cwd"; }
path temp_directory_path() { return "/tmp"; }
} // namespace std::filesystem

static const std::string S = "/xyz/openbmc_project/sensors/";
static const std::string EXT = "/xyz/openbmc_project/extsensors/temperature/e";
static const std::string OUT = "/xyz/openbmc_project/control/fanpwm/";
static const std::string VALUE = "xyz.openbmc_project.Sensor.Value";
static const std::string PWM = "xyz.openbmc_project.Control.FanPwm";
static const std::string FUNC =
    "xyz.openbmc_project.State.Decorator.OperationalStatus";
static const std::string TACH = S + "fan_tach/fan0", TEMP = S + "temperature/t",
                         MARGIN = S + "temperature/m", OTHER = S + "temperature/u";

static const char* config = R"({
"sensors": [
 {"name":"fan0","type":"fan","readPath":"/xyz/openbmc_project/sensors/fan_tach/fan0",
  "writePath":"/xyz/openbmc_project/control/fanpwm/p0","min":0,"max":255},
 {"name":"fan1","type":"fan","readPath":"/sys/f1",
  "writePath":"/xyz/openbmc_project/control/fanpwm/p1","min":0,"max":100},
 {"name":"fan2","type":"fan","readPath":"/sys/f2",
  "writePath":"/xyz/openbmc_project/control/fanpwm/p2","min":0,"max":255},
 {"name":"t","type":"temp","readPath":"/xyz/openbmc_project/sensors/temperature/t","timeout":0},
 {"name":"m","type":"margin","readPath":"/xyz/openbmc_project/sensors/temperature/m","timeout":0},
 {"name":"u","type":"temp","readPath":"/xyz/openbmc_project/sensors/temperature/u","timeout":0},
 {"name":"e","type":"temp","readPath":"/xyz/openbmc_project/extsensors/temperature/e","timeout":3}
],
"zones": [
 {"id":0,"minThermalOutput":30.0,"failsafePercent":70.0,
  "cycleIntervalTimeMS":100,"updateThermalsTimeMS":200,
  "pids":[
   {"name":"fans","type":"fan","inputs":["fan0","fan1"],"setpoint":0.0,
    "pid":{"samplePeriod":0.1,"proportionalCoeff":0.0,"integralCoeff":0.0,
     "feedFwdOffsetCoeff":0.0,"feedFwdGainCoeff":1.0,"integralLimit_min":0.0,
     "integralLimit_max":0.0,"outLim_min":0.0,"outLim_max":100.0,
     "slewNeg":0.0,"slewPos":0.0}},
   {"name":"tp","type":"temp","inputs":["t"],"setpoint":50.0,"FailSafePercent":85.0,
    "pid":{"samplePeriod":1.0,"proportionalCoeff":-2.0,"integralCoeff":0.0,
     "feedFwdOffsetCoeff":0.0,"feedFwdGainCoeff":0.0,"integralLimit_min":0.0,
     "integralLimit_max":0.0,"outLim_min":0.0,"outLim_max":95.0,
     "slewNeg":0.0,"slewPos":0.0}},
   {"name":"ep","type":"stepwise","inputs":["e"],"setpoint":0.0,
    "pid":{"samplePeriod":1.0,"positiveHysteresis":0.0,"negativeHysteresis":0.0,
     "isCeiling":false,"reading":{"0":10,"1":25,"2":40},
     "output":{"0":25,"1":60,"2":90}}}]},
 {"id":1,"minThermalOutput":20.0,"failsafePercent":80.0,
  "cycleIntervalTimeMS":150,"updateThermalsTimeMS":150,
  "pids":[
   {"name":"fan","type":"fan","inputs":["fan2"],"setpoint":0.0,
    "pid":{"samplePeriod":0.1,"proportionalCoeff":0.0,"integralCoeff":0.0,
     "feedFwdOffsetCoeff":0.0,"feedFwdGainCoeff":1.0,"integralLimit_min":0.0,
     "integralLimit_max":0.0,"outLim_min":0.0,"outLim_max":100.0,
     "slewNeg":0.0,"slewPos":0.0}},
   {"name":"mp","type":"margin","inputs":["m"],"setpoint":10.0,
    "pid":{"samplePeriod":1.0,"proportionalCoeff":4.0,"integralCoeff":0.0,
     "feedFwdOffsetCoeff":0.0,"feedFwdGainCoeff":0.0,"integralLimit_min":0.0,
     "integralLimit_max":0.0,"outLim_min":0.0,"outLim_max":90.0,
     "slewNeg":0.0,"slewPos":0.0}},
   {"name":"up","type":"stepwise","inputs":["u"],"setpoint":0.0,
    "pid":{"samplePeriod":1.0,"positiveHysteresis":2.0,"negativeHysteresis":3.0,
     "isCeiling":false,"reading":{"0":5,"1":20,"2":50},
     "output":{"0":10,"1":40,"2":100}}}]}
]})";

// ------------------------------------------------------------ the environment
static double temp = 30, marginV = 15, other = 10; // as on the bus
static double fan0 = 3000;
static std::map<std::string, int64_t> target; // of the fans
static std::map<std::string, int> sets;
static void serve()
{
    world().handler = [](MsgData& m, std::vector<Val>& r) {
        std::string a0 = m.body.empty() ? "" : m.body[0].s;
        bool sensor = m.path == TACH || m.path == TEMP || m.path == MARGIN ||
                      m.path == OTHER;
        if (m.member == "GetSubTree")
        {
            r.push_back(vDict({}));
            return true;
        }
        if (m.member == "GetObject")
        {
            bool s = a0 == TACH || a0 == TEMP || a0 == MARGIN ||
                     a0 == OTHER;
            bool p = a0.rfind(OUT, 0) == 0;
            if (!s && !p)
                return false;
            r.push_back(vDict({{"a.svc", vStrs({s ? VALUE : PWM})}}));
            return true;
        }
        if (m.member == "GetAll" && sensor && a0 == VALUE)
        {
            double v = m.path == TACH ? fan0 : m.path == TEMP   ? temp
                       : m.path == OTHER ? other
                                         : marginV;
            r.push_back(vProps({{"Value", vDbl(v)},
                                {"MinValue", vDbl(0)},
                                {"MaxValue", vDbl(0)},
                                {"Unit", vStr("x.DegreesC")}}));
            return true;
        }
        if (m.member == "Set" && a0 == PWM && m.body.size() == 3 &&
            m.body[1].s == "Target")
        {
            std::string n = m.path.substr(OUT.size());
            target[n] = m.body[2].c.at(0).i;
            sets[n]++;
            return true;
        }
        return false;
    };
}
static auto& pend = boost::asio::hvAsio().pending;
static void drain()
{
    int n = 0;
    while (!io.stopped() && io.run_one())
        sym_assert(++n < 200, "the event loop is kept busy for ever");
}
static void hup(int s)
{
    auto cb = std::move(signals.cb);
    signals.cb = nullptr;
    sym_assert((bool)cb, "signals are not handled");
    io.queue.push_back([cb, s] { cb(boost::system::error_code(), s); });
}

// ------------------------------------------------------------------ the model
// (branching, so that what is wanted is a number on every path)
static double dmax(double a, double b) { return a < b ? b : a; }
static double lim(double x, double lo, double hi)
{
    return x < lo ? lo : x > hi ? hi : x;
}
struct Model
{
    // what the daemon has been told
    double temp = 30, margin = 15, ext = 0, other = 10;
    bool tempBad = false, tempFunc = true, marginHot = false;
    int64_t extAt = 0; // when
    bool fan0Func = true;
    bool file[2] = {true, true}; // of fan1, fan2
    bool manual[2] = {false, false};
    bool tpOn = true;
    // zones
    double demand[2] = {0, 0};
    double used = 0, step = 0; // of the steps with hysteresis
    bool first = true;
    bool tFail = false, eFail = false, mFail = false;
    int64_t cnt[2] = {0, 0};
    bool ticked[2] = {false, false};
    void thermal(int z)
    {
        if (z == 0)
        {
            tFail = tempBad || !tempFunc;
            eFail = nowNs - extAt >= 3'000'000'000;
            double d = 0;
            if (tpOn)
            {
                bool known = temp == temp;
                d = known ? lim(2 * temp - 100, 0, 95) : 0;
            }
            double s = ext < 25 ? 25 : ext < 40 ? 60 : 90;
            demand[0] = dmax(dmax(d, s), 30);
        }
        else
        {
            mFail = marginHot;
            if (first || other - used > 2 || used - other > 3)
            {
                used = other;
                step = other < 20 ? 10 : other < 50 ? 40 : 100;
            }
            first = false;
            demand[1] = dmax(dmax(lim(4 * (10 - margin), 0, 90), step), 20);
        }
    }
    void start()
    {
        first = true;
        for (int z = 0; z < 2; z++)
        {
            cnt[z] = 0;
            ticked[z] = false;
            manual[z] = false;
            thermal(z);
        }
    }
    // the percentage the fans of a zone get now
    double tick(int z)
    {
        int64_t every = z ? 150 : 200;
        if (cnt[z] >= every)
        {
            cnt[z] -= every;
            thermal(z);
        }
        cnt[z] += z ? 150 : 100;
        double d = demand[z];
        if (z == 0)
        {
            d = eFail ? dmax(d, 70) : d;
            d = !fan0Func || !file[0] ? dmax(d, 70) : d;
            d = tFail ? dmax(d, 85) : d;
        }
        else
            d = mFail || !file[1] ? dmax(d, 80) : d;
        return d;
    }
};
static Model M;
static std::map<void*, int> zoneOf; // which zone a timer is of
static void near(const std::string& fan, double percent, double max)
{
    sym_assert(target.count(fan) == 1, "a fan has never been commanded");
    int64_t want = (int64_t)(percent / 100 * max + 1e-6);
    sym_assert(target[fan] == want,
               "a fan is not commanded what its zone's readings ask for");
}
// the next fan cycle of any zone
static void cycle()
{
    size_t next = pend.size();
    for (size_t i = 0; i < pend.size(); i++)
        if (next == pend.size() || pend[i]->at < pend[next]->at)
            next = i;
    sym_assert(next < pend.size(), "no zone is controlled any more");
    auto t = pend[next];
    int64_t at = t->at.time_since_epoch().count();
    if (at > steadyNs)
    {
        nowNs += at - steadyNs;
        steadyNs = at;
    }
    int o1 = files()["/sys/f1"].tries, o2 = files()["/sys/f2"].tries;
    auto before = target;
    auto had = sets;
    boost::asio::hvAsio().drop(t);
    auto cb = std::move(t->cb);
    t->cb = nullptr;
    io.queue.push_back([cb] { cb(boost::system::error_code()); });
    drain();
    int z = -1;
    if (zoneOf.count(t.get()))
        z = zoneOf[t.get()];
    else
    {
        o1 = files()["/sys/f1"].tries - o1;
        o2 = files()["/sys/f2"].tries - o2;
        sym_assert(o1 + o2 >= 1 && !(o1 && o2),
                   "a cycle is not of exactly one zone");
        zoneOf[t.get()] = z = o1 ? 0 : 1;
    }
    // no zone touches the fans of another, none does in manual mode
    static const char* fans[] = {"p0", "p1", "p2"};
    for (int i = 0; i < 3; i++)
        if ((i == 2) != (z == 1) || M.manual[z])
            sym_assert(sets[fans[i]] == had[fans[i]],
                       "a fan is written that is not to be");
    if (M.manual[z])
        return;
    double p = M.tick(z);
    if (z == 0)
    {
        near("p0", p, 255);
        near("p1", p, 100);
    }
    else
        near("p2", p, 255);
}
static void cycles(int zone0)
{
    // until zone 0 has had so many
    for (int i = 0; i < zone0 + zone0 * 2 / 3 + 1; i++)
        cycle();
}
static std::function<void()> script;
static void daemon()
{
    serve();
    auto& f = files();
    f["/etc/c.json"].data = config;
    f["/sys/f1"].data = "2900\n";
    f["/sys/f2"].data = "2800\n";
    CLI::hvArgs().values["-c"] = "/etc/c.json";
    boost::asio::hvAsio().runHook = [](boost::asio::io_context& c) {
        sym_assert(&c == &io, "another event loop");
        script();
    };
    char name[] = "swampd";
    char* argv[] = {name, nullptr};
    swampd_main(1, argv);
}
static void value(const std::string& path, double v)
{
    propertiesChanged(path, VALUE, {{"Value", vDbl(v)}});
}
static void functional(const std::string& path, bool b)
{
    propertiesChanged(path, FUNC, {{"Functional", vBool(b)}});
}
static const std::string Z0 = "/xyz/openbmc_project/settings/fanctrl/zone0";
static void event(int e)
{
    switch (e)
    {
        case 0: // a temperature
        {
            static const double at[] = {20, 62.5, 75, 150};
            M.temp = at[sym_pick("warm", 4)];
        }
            temp = M.temp;
            M.tempBad = false;
            value(TEMP, temp);
            break;
        case 1:
            temp = NAN;
            M.tempBad = true;
            value(TEMP, NAN);
            break;
        case 2:
            M.tempFunc = !M.tempFunc;
            functional(TEMP, M.tempFunc);
            break;
        case 3: // someone writes the external sensor
            M.ext = sym_f64("ext", -50, 200);
            M.extAt = nowNs;
            served<ValueInterface>().at(EXT)->value(M.ext);
            break;
        case 4: // nobody does
        {
            static const int64_t ms[] = {1000, 2350, 2999, 5000};
            nowNs += ms[sym_pick("pause", 4)] * 1'000'000;
        }
            break;
        case 5:
            M.fan0Func = !M.fan0Func;
            functional(TACH, M.fan0Func);
            break;
        case 6:
        case 7:
        {
            int i = e - 6;
            M.file[i] = !M.file[i];
            files()[i ? "/sys/f2" : "/sys/f1"].readable = M.file[i];
            break;
        }
        case 8:
        {
            static const double at[] = {20, 2.5, 0, -20};
            M.margin = at[sym_pick("margin", 4)];
        }
            marginV = M.margin;
            M.marginHot = marginV <= 0;
            value(MARGIN, marginV);
            break;
        case 9: // manual mode, and back
            M.manual[0] = !M.manual[0];
            served<ModeItf>().at(Z0)->manual(M.manual[0]);
            if (M.manual[0])
                target["p0"] = target["p1"] = 7; // by somebody else
            break;
        case 10:
            M.tpOn = !M.tpOn;
            served<EnableItf>().at(Z0 + "/tp")->enabled(M.tpOn);
            break;
        case 11:
            M.other = other = sym_f64("other", -20, 100);
            value(OTHER, other);
            break;
        case 12: // a reload
        {
            functional(TEMP, true);
            functional(TACH, true);
            M.tempFunc = M.fan0Func = true;
            // (a bad reading is the first thing the new sensor sees)
            if (M.tempBad)
                M.temp = NAN;
            hup(SIGHUP);
            drain();
            sym_assert(pend.size() == 3, "a reload does not wait");
            auto r = pend.back();
            nowNs += 50'000'000;
            steadyNs += 50'000'000;
            boost::asio::hvAsio().drop(r);
            auto cb = std::move(r->cb);
            r->cb = nullptr;
            zoneOf.clear();
            io.queue.push_back([cb] { cb(boost::system::error_code()); });
            // loops that have been told to stop may need the retry
            for (int i = 0; i < 3; i++)
            {
                drain();
                if (pend.size() == 2)
                    break;
                sym_assert(pend.size() == 1, "a reload does not come");
                auto t = pend[0];
                int64_t at = t->at.time_since_epoch().count();
                nowNs += at - steadyNs;
                steadyNs = at;
                boost::asio::hvAsio().drop(t);
                auto c2 = std::move(t->cb);
                t->cb = nullptr;
                io.queue.push_back([c2] { c2(boost::system::error_code()); });
            }
            M.ext = 0;
            M.extAt = nowNs;
            M.tpOn = true;
            M.start();
            break;
        }
    }
}
SYM_HARNESS(history)
{
    script = [] {
        drain();
        sym_assert(pend.size() == 2, "the zones are not controlled");
        M.extAt = nowNs;
        M.start();
        cycles(1);
        const int n = deep ? 3 : 2;
        for (int k = 0; k < n; k++)
        {
            event(sym_pick("event", 13));
            cycles(3);
        }
        sym_reach("end");
        // and it ends when told to
        hup(SIGTERM);
        for (int i = 0; i < 5 && !io.stopped(); i++)
        {
            drain();
            for (size_t j = pend.size(); j > 0; j--)
            {
                auto t = pend[0];
                boost::asio::hvAsio().drop(t);
                auto cb = std::move(t->cb);
                t->cb = nullptr;
                io.queue.push_back([cb] { cb(boost::system::error_code()); });
            }
        }
        sym_assert(io.stopped(), "the daemon does not stop when told to");
    };
    daemon();
}
