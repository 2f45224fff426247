// Fan speeds written to D-Bus.
#include "config.h"

#include "common/clock.hpp"
#include "common/util.hpp"
#include "dbushelper.hpp"
#include "dbuswrite.hpp"
#include "hv/dbus.hpp"

using namespace pid_control;
using namespace hv;
#ifdef SYM_THOROUGH
static const bool deep = true;
#else
static const bool deep = false;
#endif
static const std::string PWM = "xyz.openbmc_project.Control.FanPwm";
static const std::string PATH = "/xyz/openbmc_project/control/fanpwm/pwm1";

static bool busOk = true;
static bool mapperOk = true;
static void serve()
{
    world().handler = [](MsgData& m, std::vector<Val>& r) {
        if (m.member == "GetObject")
        {
            if (!mapperOk || m.body[0].s != PATH)
                return false;
            r.push_back(vDict({{":1.42", vStrs({PWM})}}));
            return true;
        }
        return busOk;
    };
}
template <typename W>
static std::unique_ptr<WriteInterface> make(int64_t min, int64_t max)
{
    static sdbusplus::bus_t bus("passive");
    return W::createDbusWrite(PATH, min, max, std::make_unique<DbusHelper>(bus));
}
// toInt: the raw value of a demand, without the code under test
template <typename W>
static void history(bool percent)
{
    serve();
    int64_t min = 0, max = 255;
    if (percent)
    {
        static const int64_t lim[][2] = {{0, 255}, {0, 100}, {30, 230},
                                         {0, 1000}};
        int l = sym_pick("limits", 4);
        min = lim[l][0];
        max = lim[l][1];
    }
    auto w = make<W>(min, max);
    sym_assert(w != nullptr, "a fan present on D-Bus cannot be written");
    world().calls.clear();
    const int n = deep ? 4 : 3;
    int64_t last = -1; // what the fan is known to be set to
    for (int i = 0; i < n; i++)
    {
        double v = percent ? sym_f64("fraction", 0, 1)
                           : sym_f64("value", 0, 100000);
        double x = percent ? v * (double)(max - min) + (double)min : v;
        int64_t raw = (int64_t)x; // rounded down
        int how = sym_pick("how", 3);
        bool force = how == 2;
        busOk = !sym_pick("fails", 2);
        size_t before = world().calls.size();
        int64_t written = -77;
        if (how == 0)
            w->write(v);
        else
            w->write(v, force, &written);
        size_t sent = world().calls.size() - before;
        bool need = sym_or(force, raw != last);
        sym_assert(sent <= 1, "one demand is written more than once");
        sym_assert((sent == 1) == need,
                   "a write is suppressed that is needed, or repeated that is "
                   "not");
        if (sent)
        {
            MsgData& m = world().calls.back();
            sym_assert(m.member == "Set" && m.path == PATH &&
                           m.service == ":1.42" &&
                           m.interface == "org.freedesktop.DBus.Properties" &&
                           m.body.size() == 3 && m.body[0].s == PWM &&
                           m.body[1].s == "Target" && m.body[2].t == 'v' &&
                           m.body[2].c.size() == 1 && m.body[2].c[0].t == 't',
                       "the call does not set the fan's target");
            sym_assert(m.body[2].c[0].i == raw,
                       "the value written is not the demand's raw value");
            sym_obs_i("raw", m.body[2].c[0].i);
            last = busOk ? raw : -1;
        }
        if (how && (!sent || busOk))
            sym_assert(written == raw,
                       "the value reported as written is not the raw value");
    }
    sym_reach("end");
}
SYM_HARNESS(write_percent) { history<DbusWritePercent>(true); }
SYM_HARNESS(write_raw) { history<DbusWrite>(false); }
// any limits: full scale and proportionality
SYM_HARNESS(write_scale)
{
    serve();
    static const int64_t lim[][2] = {{0, 0},    {0, 1},       {1, 100},
                                     {7, 256},  {0, 65535},   {500, 18000},
                                     {0, 1000000}};
    int l = sym_pick("limits", 7);
    int64_t min = lim[l][0], max = lim[l][1];
    auto w = make<DbusWritePercent>(min, max);
    world().calls.clear();
    double v = sym_f64("fraction", 0, 1);
    int64_t written = -77;
    w->write(v, true, &written);
    sym_assert(world().calls.size() == 1, "a forced write is suppressed");
    int64_t raw = world().calls[0].body[2].c[0].i;
    double x = (double)min + v * (double)(max - min);
    double r = (double)raw;
    sym_assert(r <= x + 1e-6, "the value written is not the demand's raw value");
    sym_assert(x < r + 1 + 1e-6,
               "the value written is not the demand's raw value");
    sym_assert(sym_and(raw >= min, raw <= max),
               "the value written is outside the fan's limits");
    sym_assert(written == raw,
               "the value reported as written is not the raw value");
    sym_reach("end");
}
SYM_HARNESS(write_absent)
{
    serve();
    mapperOk = false;
    sym_assert(make<DbusWrite>(0, 255) == nullptr &&
                   make<DbusWritePercent>(0, 255) == nullptr,
               "a fan missing from D-Bus can be written");
    sym_reach("end");
}
