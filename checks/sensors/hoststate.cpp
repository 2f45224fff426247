// Host power state, and the sensors whose failures it may excuse.
#include "config.h"

#include "common/clock.hpp"
#include "common/util.hpp"
#include "hoststatemonitor.hpp"
#include "hv/dbus.hpp"
#include "interfaces.hpp"
#include "sensors/host.hpp"
#include "sensors/pluggable.hpp"

#include <memory>
#include <string>
#include <vector>

using namespace pid_control;
using namespace hv;
#ifdef SYM_THOROUGH
static const bool deep = true;
#else
static const bool deep = false;
#endif
static const std::string HOST = "xyz.openbmc_project.State.Host";
static const std::string PATH = "/xyz/openbmc_project/state/host0";
static const std::string HS = HOST + ".HostState.";
static const char* states[] = {"Running",       "Off",
                               "Quiesced",      "TransitioningToRunning",
                               "Standby",       "DiagnosticMode"};

struct Host
{
    int state = 0; // index into states
    int changeAt = -1, changeTo = 0, asked = 0;
    bool answers = true, text = true, queued = false;
    sdbusplus::bus_t bus{"host"};
    void signalState(int s)
    {
        state = s;
        propertiesChanged(PATH, HOST,
                          {{"CurrentHostState", vStr(HS + states[s])}});
    }
    Host()
    {
        world().handler = [this](MsgData& m, std::vector<Val>& out) {
            if (m.member != "Get" || m.path != PATH || m.body.size() != 2 ||
                m.body[0].s != HOST || m.body[1].s != "CurrentHostState" ||
                !answers)
                return false;
            out = {vVar(text ? vStr(HS + states[state]) : vI64(1))};
            // the host goes on after the reply; its signal reaches whoever
            // listens by then, once the event loop runs
            if (asked++ == changeAt)
            {
                state = changeTo;
                for (auto& x : world().matches)
                    queued = queued || x->alive;
            }
            return true;
        };
    }
    bool on() const { return state == 0; }
};

// the monitor says what the host is
SYM_HARNESS(monitor)
{
    Host h;
    h.state = sym_pick("initial", 6);
    int how = sym_pick("answer", 4); // 0, 1: yes, 2: an error, 3: no text
    h.answers = how != 2;
    h.text = how != 3;
    if (how == 1)
    {
        // the state changes while the daemon starts
        h.changeAt = sym_pick("change", 2);
        h.changeTo = sym_pick("to", 6);
    }
    auto& mon = HostStateMonitor::getInstance(h.bus);
    mon.startMonitoring();
    if (h.queued)
        h.signalState(h.state);
    if (h.text && h.answers)
        sym_assert(mon.isPowerOn() == h.on(),
                   "the monitor starts with the wrong state");
    bool known = h.text && h.answers, listening = true;
    if (!known)
        sym_assert(!mon.isPowerOn(), "an unknown host counts as on");
    const int n = deep ? 3 : 2;
    for (int k = 0; k < n; k++)
    {
        int e = sym_pick("event", 6);
        bool before = mon.isPowerOn();
        if (e == 0)
        {
            h.signalState(sym_pick("state", 6));
            known = true;
        }
        else if (e == 1) // something else of the host
            propertiesChanged(PATH, HOST,
                              {{"RequestedHostTransition", vStr(HS + "Off")},
                               {"A", vStr(HS + "Running")}});
        else if (e == 2) // among other things
        {
            h.state = sym_pick("state", 6);
            known = true;
            propertiesChanged(
                PATH, HOST,
                {{"A", vStr("x")},
                 {"CurrentHostState", vStr(HS + states[h.state])},
                 {"Z", vStr(HS + "Off")}});
        }
        else if (e == 3) // another object, another interface
        {
            int o = sym_pick("other", 2);
            std::string s = HS + states[sym_pick("state", 2)];
            propertiesChanged(o ? PATH : "/xyz/openbmc_project/state/chassis0",
                              o ? "xyz.openbmc_project.State.Boot" : HOST,
                              {{"CurrentHostState", vStr(s)}});
        }
        else if (e == 4) // nonsense
        {
            propertiesChanged(PATH, HOST, {{"CurrentHostState", vI64(3)}});
            sym_assert(mon.isPowerOn() == before || !mon.isPowerOn(),
                       "nonsense turns the host on");
            if (mon.isPowerOn() != before)
                return; // treated as unknown: fine
        }
        else
            mon.startMonitoring(); // again: once is enough
        if (known)
            sym_assert(mon.isPowerOn() == h.on(),
                       "the monitor's state is not the last one announced");
        else if (e != 5)
            sym_assert(mon.isPowerOn() == before,
                       "something else changes the state");
        int alive = 0;
        for (auto& m : world().matches)
            alive += m->alive;
        sym_assert(alive == 1, "the host is listened to twice, or not at all");
    }
    mon.stopMonitoring();
    bool last = mon.isPowerOn();
    h.signalState(last ? 1 : 0);
    sym_assert(mon.isPowerOn() == last, "the monitor listens after its end");
    (void)listening;
    sym_reach("end");
}

struct Reader : ReadInterface
{
    ReadReturn next{};
    bool failed = false;
    int reads = 0;
    std::string why;
    ReadReturn read() override
    {
        reads++;
        return next;
    }
    bool getFailed() const override { return failed; }
    std::string getFailReason() const override { return why; }
};
struct Writer : WriteInterface
{
    int n = 0, forced = -1;
    double v = 0;
    int64_t* where = nullptr;
    Writer() : WriteInterface(0, 255) {}
    void write(double x) override
    {
        n++;
        v = x;
        forced = -1;
    }
    void write(double x, bool f, int64_t* w) override
    {
        n++;
        v = x;
        forced = f;
        where = w;
        if (w)
            *w = 77;
    }
};
// a sensor made of a reader and a writer
SYM_HARNESS(pluggable)
{
    Host h;
    h.state = sym_pick("initial", 3);
    h.answers = sym_pick("answers", 2);
    auto& mon = HostStateMonitor::getInstance(h.bus);
    mon.startMonitoring();
    bool on = h.answers && h.on();
    bool ign = sym_bool("ignoreFailIfHostOff");
    int64_t timeout = sym_i64("timeout", 0, 1000);
    auto r = std::make_unique<Reader>();
    auto w = std::make_unique<Writer>();
    Reader* rp = r.get();
    Writer* wp = w.get();
    std::unique_ptr<Sensor> s = std::make_unique<PluggableSensor>(
        "S", timeout, std::move(r), std::move(w), ign);
    sym_assert(s->getName() == "S" && s->getTimeout() == timeout &&
                   s->getIgnoreFailIfHostOff() == ign,
               "a sensor forgets what it was built with");
    const int n = deep ? 4 : 3;
    for (int k = 0; k < n; k++)
    {
        switch (sym_pick("event", 4))
        {
            case 0:
                h.signalState(sym_pick("state", 2));
                on = h.on();
                break;
            case 1:
            {
                rp->next.value = sym_f64_any("value");
                rp->next.unscaled = sym_f64_any("unscaled");
                int64_t t = sym_i64("time", 0, 1'000'000'000'000);
                rp->next.updated =
                    std::chrono::high_resolution_clock::time_point(
                        std::chrono::nanoseconds(t));
                auto x = s->read();
                sym_assert(sym_and(sym_same(x.value, rp->next.value),
                                   sym_same(x.unscaled, rp->next.unscaled)),
                           "a reading is altered");
                sym_assert(x.updated.time_since_epoch().count() == t,
                           "the time of a reading is altered");
                break;
            }
            case 2:
            {
                double v = sym_f64_any("demand");
                int how = sym_pick("how", 4), old = wp->n;
                int64_t raw = -1;
                if (how == 0)
                    s->write(v);
                else
                    s->write(v, how == 2, how == 3 ? nullptr : &raw);
                sym_assert(wp->n == old + 1 && sym_same(wp->v, v) &&
                               wp->forced == (how == 0 ? -1 : how == 2),
                           "a demand is lost, repeated or altered");
                if (how == 1 || how == 2)
                    sym_assert(raw == 77, "what was written is not reported");
                break;
            }
            default:
                rp->failed = sym_bool("failed");
                rp->why = sym_pick("reason", 2) ? "b" : "a";
                break;
        }
        sym_assert(s->getFailed() == (rp->failed && !(ign && !on)),
                   "a failure is excused that is not, or not one that is");
        sym_assert(s->getFailReason() == (rp->why),
                   "the reason of a failure is altered");
    }
    sym_reach("end");
}

// a sensor whose value a client on D-Bus sets
SYM_HARNESS(external)
{
    Host h;
    h.state = sym_pick("initial", 3);
    h.answers = sym_pick("answers", 2);
    auto& mon = HostStateMonitor::getInstance(h.bus);
    mon.startMonitoring();
    bool on = h.answers && h.on();
    bool ign = sym_bool("ignoreFailIfHostOff");
    sdbusplus::bus_t bus{"external"};
    static const char* path[] = {
        "/xyz/openbmc_project/extsensors/temperature/a",
        "/xyz/openbmc_project/extsensors/temperature/b"};
    std::unique_ptr<Sensor> s[2] = {
        HostSensor::createTemp("a", 3, bus, path[0], true, ign),
        HostSensor::createTemp("b", 0, bus, path[1], true, !ign)};
    for (int i = 0; i < 2; i++)
        sym_assert(served<ValueInterface>().count(path[i]) == 1 &&
                       s[i]->getName() == (i ? "b" : "a") &&
                       s[i]->getTimeout() == (i ? 0 : 3) &&
                       s[i]->getIgnoreFailIfHostOff() == (i ? !ign : ign),
                   "an external sensor is not served as it was configured");
    double last[2] = {0, 0};
    int64_t at[2] = {nowNs, nowNs};
    const int n = deep ? 4 : 3;
    for (int k = 0; k < n; k++)
    {
        nowNs += sym_i64("gap", 0, 10'000'000'000);
        switch (sym_pick("event", 3))
        {
            case 0:
                h.signalState(sym_pick("state", 2));
                on = h.on();
                break;
            case 1:
            {
                int i = sym_pick("sensor", 2);
                last[i] = sym_f64_any("value");
                at[i] = nowNs;
                served<ValueInterface>().at(path[i])->value(last[i]);
                break;
            }
            default:
            {
                bool threw = false;
                try
                {
                    s[0]->write(sym_f64_any("demand"));
                }
                catch (const std::exception&)
                {
                    threw = true;
                }
                sym_assert(threw, "the daemon writes to an input");
            }
        }
        for (int i = 0; i < 2; i++)
        {
            auto r = s[i]->read();
            sym_assert(sym_and(sym_same(r.value, last[i]),
                               r.updated.time_since_epoch().count() == at[i]),
                       "a reading is not the last value set, with its time");
            auto* o = served<ValueInterface>().at(path[i]);
            sym_assert(sym_and(sym_same(o->value(), last[i]),
                               sym_same(o->valueSent, last[i])),
                       "the value on D-Bus is not the last one set");
            bool mine = i ? !ign : ign;
            bool bad = sym_not(sym_finite(last[i]));
            sym_assert(s[i]->getFailed() == (bad && !(mine && !on)),
                       "a failure is excused that is not, or not one that is");
        }
    }
    sym_reach("end");
}
