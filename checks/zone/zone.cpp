// The zone: what a fan demand is made of, when the zone is in failsafe and
// with which percentage, manual mode, and the control loop that drives it.
#include "config.h"

#include "common/clock.hpp"
#include "common/mockzone.hpp"
#include "common/util.hpp"
#include "conf.hpp"
#include "hv/dbus.hpp"
#include "pid/controller.hpp"
#include "pid/pidloop.hpp"
#include "pid/tuning.hpp"
#include "pid/zone.hpp"
#include "sensors/manager.hpp"

#include <boost/asio/io_context.hpp>
#include <boost/asio/steady_timer.hpp>
using namespace pid_control;
using hv::RecSensor;
static const double M = 1e6;
static const char* ZP = "/xyz/openbmc_project/settings/fanctrl/zone7";
using EnableItf = sdbusplus::xyz::openbmc_project::Object::server::Enable;
using ModeItf = sdbusplus::xyz::openbmc_project::Control::server::Mode;
using LeaderItf = sdbusplus::xyz::openbmc_project::Debug::Pid::server::Zone;

#ifdef SYM_THOROUGH
static const bool deep = true;
#else
static const bool deep = false;
#endif

struct World
{
    sdbusplus::bus_t passive{"passive"}, host{"host"}, mode{"mode"};
    SensorManager mgr{passive, host};
    std::map<std::string, RecSensor*> s;
    RecSensor* add(const std::string& n, int64_t timeout = 0)
    {
        auto p = std::make_unique<RecSensor>(n, timeout);
        auto* r = p.get();
        mgr.addSensor("temp", n, std::move(p));
        s[n] = r;
        return r;
    }
    std::unique_ptr<DbusPidZone> zone(double min, double fs, bool acc = false,
                                      conf::CycleTime ct = {})
    {
        return std::make_unique<DbusPidZone>(7, min, fs, ct, mgr, mode, ZP,
                                             true, acc);
    }
};
static std::string pidPath(const std::string& n)
{
    return std::string(ZP) + "/" + n;
}

// ---------------------------------------------------------------- demand
SYM_HARNESS(demand)
{
    World w;
    double min = sym_f64("min", -M, M);
    auto z = w.zone(min, 100);
    static const char* names[] = {"pa", "pb", "pc"};
    for (auto n : names)
        z->addPidControlProcess(n, "temp", 0, w.mode, pidPath(n), true);
    bool on[3];
    for (int i = 0; i < 3; i++)
    {
        on[i] = sym_pick("enabled", 2);
        hv::served<EnableItf>().at(pidPath(names[i]))->enabled(on[i]);
    }
    const int cycles = deep ? 3 : 2;
    for (int cycle = 0; cycle < cycles; cycle++)
    {
        z->clearSetPoints();
        z->clearRPMCeilings();
        double ref = 0, cand[3] = {0, 0, 0}, cap = 0;
        // all but the last cycle only leave something to be forgotten
        bool last = cycle == cycles - 1;
        for (int i = 0; i < (last ? 3 : 1); i++)
        {
            cand[i] = sym_f64("request", -M, M);
            z->addSetPoint(cand[i], names[i]);
            if (on[i])
                ref = hv::maxRef(ref, cand[i]);
        }
        // one controller may ask more than once; the higher request counts
        if (last && sym_pick("asksTwice", 2))
        {
            double again = sym_f64("second_request", -M, M);
            z->addSetPoint(again, names[1]);
            if (on[1])
                ref = hv::maxRef(ref, again);
            cand[1] = hv::maxRef(cand[1], again);
        }
        int nc = last ? sym_pick("ceilings", 3) : 1;
        for (int i = 0; i < nc; i++)
        {
            double c = sym_f64("ceiling", -M, M);
            z->addRPMCeiling(c);
            cap = i ? hv::minRef(cap, c) : c;
        }
        double capped = nc ? hv::minRef(ref, cap) : ref;
        double want = hv::maxRef(capped, min);
        z->determineMaxSetPointRequest();
        double got = z->getMaxSetPointRequest();
        sym_assert(got == want,
                   "zone demand is not the highest enabled request, capped by "
                   "the lowest ceiling and floored at the minimum");
        // the advertised leader
        std::string l = hv::served<LeaderItf>().at(ZP)->leader();
        if (got <= min)
            sym_assert(l == "Minimum", "leader is not the minimum");
        else if (got <= 0)
        {} // nobody asked for anything
        else if (nc && cap < ref)
            sym_assert(l == "Ceiling", "leader is not the ceiling");
        else
        {
            bool ok = false;
            for (int i = 0; i < 3; i++)
                if (l == names[i])
                    ok = on[i] && cand[i] == got;
            sym_assert(ok, "leader did not make the winning request");
        }
        sym_obs_d("demand", got);
    }
    sym_reach("end");
}
// accumulation: contributions of the same profile add up
SYM_HARNESS(demand_accumulate)
{
    World w;
    double min = sym_f64("min", 0, M);
    auto z = w.zone(min, 100, true);
    static const char* names[] = {"PID_inlet", "Stepwise_inlet", "PID_cpu"};
    for (auto n : names)
        z->addPidControlProcess(n, "temp", 0, w.mode, pidPath(n), true);
    bool on[3];
    for (int i = 0; i < 3; i++)
    {
        on[i] = sym_pick("enabled", 2);
        hv::served<EnableItf>().at(pidPath(names[i]))->enabled(on[i]);
    }
    int nc = sym_pick("ceilings", 2);
    int order = sym_pick("order", 3);
    for (int cycle = 0; cycle < 2; cycle++)
    {
        z->clearSetPoints();
        z->clearRPMCeilings();
        double inlet = 0, cpu = 0;
        for (int k = 0; k < (cycle ? 3 : 1); k++)
        {
            int i = (k + order) % 3;
            double v = sym_f64("request", 0, M);
            z->addSetPoint(v, names[i]);
            if (on[i])
                (i < 2 ? inlet : cpu) += v;
        }
        double ref = hv::maxRef(inlet, cpu);
        if (nc && cycle)
        {
            double c = sym_f64("ceiling", 0, M);
            z->addRPMCeiling(c);
            ref = hv::minRef(ref, c);
        }
        z->determineMaxSetPointRequest();
        sym_assert(z->getMaxSetPointRequest() == hv::maxRef(ref, min),
                   "accumulated zone demand is wrong");
        sym_obs_d("demand", z->getMaxSetPointRequest());
    }
    sym_reach("end");
}

// ---------------------------------------------------------------- failsafe
struct Tracked
{
    std::string name;
    RecSensor* s;
    bool fan, acceptable;
    int64_t timeout;
    double pct; // 0: not configured
    bool bad;
};
static void checkFailsafe(DbusPidZone& z, std::vector<Tracked>& t,
                          double zonePct)
{
    bool any = false;
    double best = 0, ref = zonePct;
    size_t n = 0;
    auto set = z.getFailSafeSensors();
    for (auto& x : t)
    {
        bool in = set.count(x.name) != 0;
        sym_assert(in == x.bad, "failsafe membership of a sensor is wrong");
        if (x.bad)
        {
            any = true;
            n++;
            double p = sym_ite_d(x.pct == 0, zonePct, x.pct);
            best = n == 1 ? p : hv::maxRef(best, p);
        }
    }
    sym_assert(set.size() == n, "stray failsafe entries");
    sym_assert(z.getFailSafeMode() == any,
               "failsafe mode differs from 'some required sensor is bad'");
    sym_assert(static_cast<ModeItf&>(z).failSafe() == any,
               "failsafe mode advertised on D-Bus is wrong");
    if (any)
        ref = sym_ite_d(best == 0, zonePct, best);
    sym_assert(z.getFailSafePercent() == ref,
               "failsafe percentage is not the highest of the bad sensors'");
}
SYM_HARNESS(failsafe_history)
{
    World w;
    double zonePct = sym_f64("zonePercent", 0, 100);
    auto z = w.zone(0, zonePct);
    std::vector<Tracked> t;
    static const char* names[] = {"fan1", "temp1", "temp2"};
    int shape = sym_pick("acceptable", 4);
    for (int i = 0; i < 3; i++)
    {
        Tracked x;
        x.name = names[i];
        x.fan = i == 0;
        x.acceptable = (shape == 1 && i == 1) || (shape == 2 && i == 0) ||
                       (shape == 3 && i > 0);
        x.timeout = i == 2 ? sym_i64("timeout", 0, 20) : (i == 0 ? 0 : 2);
        x.s = w.add(x.name, x.timeout);
        x.pct = i == 0 ? 0.0 : i == 1 ? 40.0 : 70.0 * (shape != 2);
        if (x.fan)
            z->addFanInput(x.name, x.acceptable);
        else
            z->addThermalInput(x.name, x.acceptable);
        if (i)
            z->addPidFailSafePercent({x.name}, x.pct);
        x.bad = !x.acceptable;
        t.push_back(x);
    }
    z->initializeCache();
    // nothing has been read yet: failsafe until proven otherwise
    checkFailsafe(*z, t, zonePct);
    for (auto& x : t)
        sym_assert(std::isnan(z->getCachedValue(x.name)),
                   "a value before the first reading");
    const int64_t S = 1'000'000'000;
    for (int step = 0; step < (deep ? 3 : 2); step++)
    {
        bool fans = sym_pick("which", 2);
        for (auto& x : t)
        {
            if (x.fan != fans)
                continue;
            double v = sym_f64_any("reading");
            double raw = sym_f64_any("raw");
            x.s->failed = sym_bool("failed");
            int64_t age = sym_i64("age", 0, 100 * S);
            x.s->next.value = v;
            x.s->next.unscaled = raw;
            x.s->next.updated = std::chrono::system_clock::time_point(
                std::chrono::nanoseconds(hv::nowNs - age));
            bool late = sym_and(x.timeout != 0, age >= x.timeout * S);
            x.bad = sym_and(!x.acceptable, sym_or(x.s->failed, late));
        }
        std::vector<int> before;
        for (auto& x : t)
            before.push_back(x.s->reads);
        if (fans)
            z->updateFanTelemetry();
        else
            z->updateSensors();
        size_t k = 0;
        for (auto& x : t)
        {
            sym_assert(x.s->reads - before[k++] == (x.fan == fans ? 1 : 0),
                       "sensors not read exactly once per update");
            if (x.fan != fans)
                continue;
            sym_assert(sym_same(z->getCachedValue(x.name), x.s->next.value),
                       "cached value is not the reading");
            sym_assert(
                sym_same(z->getCachedValues(x.name).unscaled,
                         x.s->next.unscaled),
                "cached raw value is not the raw reading");
        }
        checkFailsafe(*z, t, zonePct);
    }
    sym_reach("end");
}
// a sensor shared by several controllers: the highest percentage counts
SYM_HARNESS(failsafe_percent)
{
    World w;
    double zonePct = sym_f64("zonePercent", 0, 100);
    auto z = w.zone(0, zonePct);
    static const char* names[] = {"a", "b"};
    double ref[2] = {0, 0};
    int shared = sym_pick("shared", 2);
    for (int i = 0; i < 2; i++)
    {
        w.add(names[i], 0);
        z->addThermalInput(names[i], false);
    }
    const int pids = 3;
    for (int p = 0; p < pids; p++)
    {
        double pct = sym_f64("percent", 0, 100);
        std::vector<std::string> in{names[p % 2]};
        if (shared && p == 2)
            in = {names[0], names[1]};
        for (auto& n : in)
        {
            int i = n == "a" ? 0 : 1;
            ref[i] = hv::maxRef(ref[i], pct);
        }
        z->addPidFailSafePercent(in, pct);
    }
    std::string bad = sym_pick("bad", 2) ? "a" : "b";
    bool both = sym_pick("both", 2);
    for (auto n : names)
    {
        bool f = both || bad == n;
        w.s[n]->failed = f;
        w.s[n]->next.value = 1;
    }
    z->updateSensors();
    double want = 0;
    for (int i = 0; i < 2; i++)
        if (both || bad == names[i])
            want = hv::maxRef(want,
                              sym_ite_d(ref[i] == 0, zonePct, ref[i]));
    want = sym_ite_d(want == 0, zonePct, want);
    sym_assert(z->getFailSafeMode(), "not in failsafe");
    sym_assert(z->getFailSafePercent() == want,
               "failsafe percentage of a shared sensor");
    sym_reach("end");
}

// ---------------------------------------------------------------- the loop
struct FakeController : Controller
{
    DbusPidZone* z = nullptr;
    std::string id;
    std::vector<std::string>* log = nullptr;
    bool fan = false;
    double setpoint = 0;
    double inputProc() override { return 0; }
    void outputProc(double) override {}
    std::string getID() override { return id; }
    void process() override
    {
        std::string l = id;
        if (fan)
            l += z->getRedundantWrite() ? ":forced" : ":normal";
        log->push_back(l);
        if (!fan)
            z->addSetPoint(setpoint, id);
    }
};
struct Rig
{
    World w;
    std::shared_ptr<DbusPidZone> z;
    std::vector<std::string> log;
    boost::asio::io_context io;
    std::shared_ptr<boost::asio::steady_timer> timer;
    bool cancel = false;
    explicit Rig(conf::CycleTime ct)
    {
        timer = std::make_shared<boost::asio::steady_timer>(io);
        w.add("fan1");
        w.add("temp1");
        z = w.zone(10, 100, false, ct);
        z->addFanInput("fan1", false);
        z->addThermalInput("temp1", false);
        auto f = std::make_unique<FakeController>();
        f->id = "fanpid";
        f->fan = true;
        auto g = std::make_unique<FakeController>();
        g->id = "fanpid";
        g->fan = true;
        auto t = std::make_unique<FakeController>();
        t->id = "temppid";
        for (auto* c : {f.get(), g.get(), t.get()})
        {
            c->z = z.get();
            c->log = &log;
        }
        z->addFanPID(std::move(f));
        z->addFanPID(std::move(g));
        z->addThermalPID(std::move(t));
        z->addPidControlProcess("temppid", "temp", 0, w.mode,
                                pidPath("temppid"), true);
        for (auto& [n, s] : w.s)
            s->next.value = 1;
    }
    size_t pending() { return boost::asio::hvAsio().pending.size(); }
    void tick() { hv::fireTimer(0); }
};
// manual mode: hands off, and one forced write when it ends
SYM_HARNESS(manual_mode)
{
    conf::CycleTime ct;
    ct.cycleIntervalTimeMS = 100;
    ct.updateThermalsTimeMS = (uint64_t)sym_i64("thermalEvery", 1, 400);
    Rig r(ct);
    pidControlLoop(r.z, r.timer, &r.cancel);
    ModeItf& mode = *hv::served<ModeItf>().at(ZP);
    bool manual = false, owed = false;
    sym_assert(!mode.manual(), "starts in manual mode");
    for (int k = 0; k < (deep ? 7 : 5); k++)
    {
        bool act = sym_bool("switch"), to = sym_bool("manual");
        if (act)
        {
            mode.manual(to);
            manual = to;
            owed = sym_or(owed, !to);
        }
        sym_assert(mode.manual() == manual, "advertised mode is wrong");
        sym_assert(r.z->getManualMode() == manual, "mode not in effect");
        r.log.clear();
        int fr = r.w.s["fan1"]->reads, tr = r.w.s["temp1"]->reads;
        sym_assert(r.pending() == 1, "the loop is not armed exactly once");
        r.tick();
        sym_assert(r.pending() == 1, "the loop stopped");
        int forced = 0, fans = 0, therm = 0;
        for (auto& l : r.log)
        {
            forced += l == "fanpid:forced";
            fans += l.starts_with("fanpid");
            therm += l == "temppid";
        }
        if (manual)
        {
            sym_assert(r.log.empty(), "controllers ran in manual mode");
            sym_assert(r.w.s["fan1"]->reads == fr &&
                           r.w.s["temp1"]->reads == tr,
                       "sensors read in manual mode");
        }
        else
        {
            sym_assert(fans == 2, "fan controllers did not run exactly once");
            sym_assert(therm <= 1, "thermal pass ran twice");
            sym_assert(r.w.s["fan1"]->reads == fr + 1,
                       "fan not read exactly once");
            sym_assert(sym_imp(owed, forced == 2),
                       "fan outputs not all rewritten after manual mode ends");
            sym_assert(sym_imp(!owed, forced == 0),
                       "fan outputs rewritten although nothing called for it");
            owed = false;
        }
        // nobody but the loop writes
        sym_assert(r.w.s["fan1"]->writes.empty(), "unexpected write");
    }
    sym_reach("end");
}
// order of work, ratio and timing of fan and thermal passes
struct LoopZone : hv::MockZone
{
    std::string ev;
    uint64_t cyc = 100, therm = 1000;
    bool manual = false;
    void initializeCache() override { ev += 'I'; }
    void updateFanTelemetry() override { ev += 'f'; }
    void updateSensors() override { ev += 's'; }
    void clearSetPoints() override { ev += 'c'; }
    void clearRPMCeilings() override { ev += 'r'; }
    void determineMaxSetPointRequest() override { ev += 'd'; }
    void processFans() override { ev += 'F'; }
    void processThermals() override { ev += 'T'; }
    uint64_t getCycleIntervalTime() const override { return cyc; }
    uint64_t getUpdateThermalsCycle() const override { return therm; }
    bool getManualMode() const override { return manual; }
};
// a thermal pass: read, forget old requests, compute, combine
static bool thermalOrder(const std::string& e)
{
    return e == "scrTd" || e == "srcTd" || e == "csrTd" || e == "crsTd" ||
           e == "rcsTd" || e == "rscTd";
}
static void loopRun(bool jitter)
{
    auto z = std::make_shared<LoopZone>();
    boost::asio::io_context io;
    auto timer = std::make_shared<boost::asio::steady_timer>(io);
    bool cancel = false;
    int64_t c = sym_i64("fanCycleMs", 1, 100000);
    int64_t t = sym_i64("thermalCycleMs", 1, 100000);
    if (jitter)
        t = 100000;
    z->cyc = (uint64_t)c;
    z->therm = (uint64_t)t;
    int64_t t0 = hv::steadyNs;
    pidControlLoop(z, timer, &cancel);
    sym_assert(z->ev.starts_with("I") && thermalOrder(z->ev.substr(1)),
               "start-up: initialise, then one thermal pass");
    int64_t passes = 0;
    const int n = jitter ? 4 : (deep ? 9 : 6);
    for (int k = 0; k < n; k++)
    {
        sym_assert(boost::asio::hvAsio().pending.size() == 1,
                   "the loop is not armed exactly once");
        int64_t at = boost::asio::hvAsio()
                         .pending[0]
                         ->at.time_since_epoch()
                         .count();
        sym_assert(at - t0 == (k + 1) * c * 1'000'000,
                   "ticks drift from the configured interval");
        if (jitter) // the handler runs late, by any amount
            hv::steadyNs = at + sym_i64("late", 0, 1'000'000'000'000);
        z->ev.clear();
        hv::fireTimer(0);
        std::string e = z->ev;
        sym_assert(e.starts_with("f") && e.ends_with("F"),
                   "a tick is: read fans, (thermal pass), drive fans");
        std::string mid = e.substr(1, e.size() - 2);
        sym_assert(mid.empty() || thermalOrder(mid), "thermal pass order");
        passes += !mid.empty();
        // k intervals have elapsed
        int64_t el = k * c;
        sym_assert(sym_and(passes <= k, passes * t <= el),
                   "thermal pass too early");
        sym_assert(sym_or(passes == k, (passes + 1) * t > el),
                   "thermal pass overdue");
    }
    sym_reach("end");
}
SYM_HARNESS(loop_ratio) { loopRun(false); }
SYM_HARNESS(loop_timing) { loopRun(true); }
// stopping the loop at any point
SYM_HARNESS(loop_cancel)
{
    auto z = std::make_shared<LoopZone>();
    boost::asio::io_context io;
    auto timer = std::make_shared<boost::asio::steady_timer>(io);
    bool cancel = false;
    int when = sym_pick("when", 5);
    int how = sym_pick("how", 3);
    z->manual = sym_pick("manual", 2);
    if (when == 0 && how == 1)
        cancel = true;
    pidControlLoop(z, timer, &cancel);
    if (cancel)
    {
        sym_assert(z->ev.empty(), "ran although cancelled");
        sym_assert(boost::asio::hvAsio().pending.empty(), "armed");
        sym_reach("never started");
        return;
    }
    for (int k = 1; k <= 4; k++)
    {
        if (k == when)
        {
            if (how == 0)
                timer->cancel();
            if (how == 1)
                cancel = true;
            if (how == 2)
            {
                cancel = true;
                timer->cancel();
            }
            while (io.run_one())
            {}
            std::string e = z->ev;
            size_t before = z->ev.size();
            // at most the tick already due may still run
            if (!boost::asio::hvAsio().pending.empty())
                hv::fireTimer(0);
            while (io.run_one())
            {}
            sym_assert(boost::asio::hvAsio().pending.empty(),
                       "the loop goes on after being stopped");
            if (how != 1)
                sym_assert(z->ev.size() == before,
                           "work after the timer was cancelled");
            sym_reach("stopped");
            return;
        }
        sym_assert(boost::asio::hvAsio().pending.size() == 1, "not armed");
        hv::fireTimer(0);
    }
    sym_reach("end");
}
