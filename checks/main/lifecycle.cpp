// Start, reload and stop of the daemon: main.cpp and the control loops, under
// any order in which the event loop runs what is ready.
#include "config.h"

#include "common/clock.hpp"
#include "common/mockzone.hpp"
#include "common/util.hpp"
#include "conf.hpp"
#include "hv/dbus.hpp"
#include "pid/zone_interface.hpp"
#include "sensors/manager.hpp"

#include <CLI/CLI.hpp>
#include <boost/asio.hpp>
#include <boost/asio/signal_set.hpp>
#include <boost/asio/steady_timer.hpp>
#include <nlohmann/json.hpp>

#include <csignal>
#include <filesystem>
#include <set>

using namespace pid_control;
using json = nlohmann::json;
#ifdef SYM_THOROUGH
static const bool deep = true;
#else
static const bool deep = false;
#endif

extern boost::asio::io_context io;
extern boost::asio::signal_set signals;
int swampd_main(int argc, char** argv);
namespace pid_control
{
void tryRestartControlLoops(bool first);
}

// ------------------------------------------------------------ the environment
static int generation = 0; // of the sensors
static int alive = 0;
static bool stopped = false; // the process is about to end
static int failAt = -1;      // this attempt to build fails ...
static int failHow = 0;      // ... in this way
static int attempts = 0, inits = 0;
struct Zone : hv::MockZone
{
    int gen = generation, id, ticks = 0, passes = 0;
    explicit Zone(int i) : id(i) { alive++; }
    ~Zone() override { alive--; }
    void use()
    {
        sym_assert(gen == generation,
                   "a zone works with the sensors of another configuration");
        sym_assert(!stopped, "a zone works after the daemon has stopped");
    }
    int64_t getZoneID() const override { return id; }
    void updateFanTelemetry() override { use(); }
    void updateSensors() override
    {
        use();
        passes++;
    }
    void processThermals() override { use(); }
    void processFans() override
    {
        use();
        ticks++;
    }
};
static std::vector<std::weak_ptr<Zone>> built;
static int nZones = 2;
namespace pid_control
{
namespace dbus_configuration
{
bool init(sdbusplus::bus_t&, boost::asio::steady_timer&,
          std::map<std::string, conf::SensorConfig>&,
          std::map<int64_t, conf::PIDConf>&,
          std::map<int64_t, conf::ZoneConfig>&)
{
    inits++;
    if (attempts++ == failAt)
    {
        if (failHow == 0)
            throw std::runtime_error("mapper");
        if (failHow == 1)
        {
            failHow = 9;
            return false;
        }
    }
    return true;
}
} // namespace dbus_configuration
SensorManager buildSensors(const std::map<std::string, conf::SensorConfig>&,
                           sdbusplus::bus_t& passive, sdbusplus::bus_t& host)
{
    sym_assert(alive == 0, "sensors are replaced under a running zone");
    if (attempts - 1 == failAt && failHow == 2)
        throw std::runtime_error("sensor");
    generation++;
    return SensorManager{passive, host};
}
std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> buildZones(
    const std::map<int64_t, conf::PIDConf>&,
    std::map<int64_t, conf::ZoneConfig>&, SensorManager&, sdbusplus::bus_t&)
{
    std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> r;
    built.clear();
    for (int i = 1; i <= nZones; i++)
    {
        auto z = std::make_shared<Zone>(i);
        built.push_back(z);
        r[i] = z;
        if (attempts - 1 == failAt && failHow == 3)
            throw std::runtime_error("zone");
    }
    return r;
}
void buildFailsafeLoggers(
    const std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>>&, size_t)
{}
std::map<std::string, conf::SensorConfig> buildSensorsFromJson(const json&)
{
    return {};
}
std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>>
    buildPIDsFromJson(const json&)
{
    return {};
}
} // namespace pid_control
json parseValidateJson(const std::string&)
{
    attempts++;
    return {};
}

static auto& pend = boost::asio::hvAsio().pending;
static void expire(size_t i)
{
    auto t = pend[i];
    boost::asio::hvAsio().drop(t);
    auto cb = std::move(t->cb);
    t->cb = nullptr;
    io.queue.push_back([cb] { cb(boost::system::error_code()); });
}
static void drain()
{
    int n = 0;
    while (!io.stopped() && io.run_one())
        sym_assert(++n < 200, "the event loop is kept busy for ever");
}
// everything has settled: the latest configuration runs, once
static void healthy()
{
    sym_assert(alive == nZones && (int)built.size() == nZones,
               "the zones of the latest configuration are not all running");
    std::vector<int> before;
    for (auto& w : built)
    {
        sym_assert(!w.expired(), "a zone of the latest configuration is gone");
        auto z = w.lock();
        sym_assert(z->gen == generation,
                   "a zone works with the sensors of another configuration");
        before.push_back(z->ticks);
    }
    size_t n = pend.size();
    for (size_t i = 0; i < n; i++)
        expire(0);
    drain();
    for (size_t i = 0; i < built.size(); i++)
        sym_assert(built[i].lock()->ticks == before[i] + 1,
                   "a zone is not controlled once per interval");
}
// what the daemon's event loop goes through
static std::function<void()> script;
static void daemon()
{
    hv::world().handler = [](hv::MsgData&, std::vector<hv::Val>&) {
        return false;
    };
    boost::asio::hvAsio().runHook = [](boost::asio::io_context& c) {
        sym_assert(&c == &io, "another event loop");
        script();
    };
    CLI::hvArgs().values["-c"] =
        sym_pick("json", 2) ? "/dev/null" : "/nonexistent/config.json";
    char name[] = "swampd";
    char* argv[] = {name, nullptr};
    swampd_main(1, argv);
}
static void hup(int s)
{
    auto cb = std::move(signals.cb);
    signals.cb = nullptr;
    sym_assert((bool)cb, "signals are not handled");
    io.queue.push_back([cb, s] { cb(boost::system::error_code(), s); });
}

// any order of reloads, a stop and timers
SYM_HARNESS(schedule)
{
    int what = sym_pick("scenario", 3); // 2 reloads, 1 reload + stop, stop
    script = [what] {
        drain();
        healthy();
        int reloads = what == 0 ? 2 : what == 1 ? 1 : 0, stops = what ? 1 : 0;
        const int n = (deep ? 11 : 9) + (what == 2 ? 1 : 0);
        bool term = false;
        for (int k = 0; k < n && !io.stopped(); k++)
        {
            // 0: run what is ready, 1: a reload, 2: a stop, 3..: a timer
            int c = sym_pick("next", 3 + (int)pend.size());
            if (c == 0)
            {
                if (io.queue.empty())
                    return; // the same as doing something else
                io.run_one();
            }
            else if (c == 1)
            {
                if (!reloads)
                    return;
                reloads--;
                // (a timer has expired and) a reload is asked for
                io.queue.push_back([] { tryRestartControlLoops(true); });
            }
            else if (c == 2)
            {
                if (!stops || !signals.cb)
                    return;
                stops--;
                term = true;
                hup(SIGTERM);
            }
            else
                expire((size_t)c - 3);
        }
        // let time pass
        for (int i = 0; i < 12 && !io.stopped(); i++)
        {
            drain();
            size_t m = pend.size();
            for (size_t j = 0; j < m; j++)
                expire(0);
        }
        if (term)
        {
            sym_assert(io.stopped(), "the daemon does not stop when told to");
            sym_reach("stopped");
            return;
        }
        if (io.stopped())
            sym_assert(false, "the daemon stops by itself");
        drain();
        healthy();
        sym_reach("running");
    };
    daemon();
    stopped = true;
}
// SIGHUP: one reload, a second later; any number of times
SYM_HARNESS(hangup)
{
    script = [] {
        drain();
        healthy();
        auto sizes = attempts;
        const int n = deep ? 3 : 2;
        for (int k = 0; k < n; k++)
        {
            size_t old = pend.size();
            int again = 1 + sym_pick("signals", 3);
            int64_t at = 0;
            for (int i = 0; i < again; i++)
            {
                hv::steadyNs += sym_i64("gap", 0, 900'000'000);
                at = hv::steadyNs + 1'000'000'000;
                hup(SIGHUP);
                drain();
                sym_assert(attempts == sizes, "a reload comes at once");
            }
            sym_assert(pend.size() == old + 1 &&
                           pend.back()->at.time_since_epoch().count() == at,
                       "a reload is not due a second after the signal");
            expire(pend.size() - 1);
            drain();
            // the loops are given time to end
            for (int i = 0; i < 3; i++)
            {
                size_t m = pend.size();
                if (attempts == sizes + 1)
                    break;
                for (size_t j = 0; j < m; j++)
                    expire(0);
                drain();
            }
            sym_assert(attempts == sizes + 1,
                       "a burst of signals is not one reload");
            sizes = attempts;
            healthy();
        }
        sym_reach("end");
    };
    daemon();
}
// building fails: again, ten seconds later, until it works
SYM_HARNESS(retry)
{
    failAt = sym_pick("attempt", 2);
    failHow = sym_pick("how", 4);
    script = [] {
        if (CLI::hvArgs().values["-c"] == "/dev/null" && failHow < 2)
            return; // a file that cannot be read ends the daemon
        drain();
        if (failAt == 1)
        {
            healthy();
            tryRestartControlLoops(true);
            drain(); // the old loops are told to stop
            for (int i = 0; i < 2 && attempts < 2; i++)
            {
                size_t m = pend.size();
                for (size_t j = 0; j < m; j++)
                    expire(0);
                drain();
            }
        }
        sym_assert(attempts == failAt + 1, "the configuration is not tried");
        if (failHow == 9)
        {
            // nothing to control yet: wait for a change
            sym_assert(pend.empty() && alive == 0,
                       "something runs without a configuration");
            tryRestartControlLoops(true);
            drain();
            healthy();
            sym_reach("paused");
            return;
        }
        sym_assert(alive == 0, "zones of a failed attempt stay");
        sym_assert(pend.size() == 1, "a failed start is not tried again");
        sym_assert(pend[0]->delay == std::chrono::seconds(10),
                   "a failed start is not tried again ten seconds later");
        expire(0);
        drain();
        healthy();
        sym_reach("retried");
    };
    daemon();
}
