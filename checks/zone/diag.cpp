// Tuning, debugging and logging: what they may change and what they may not,
// and what ends up in the logs.
#include "common/memfs.hpp"
#include "common/rig.hpp"
#include "pid/pidloop.hpp"
#include "pid/tuning.hpp"

// character classes by comparison instead of by table
extern "C" bool __symhook__ZNKSt5ctypeIcE2isEtc(const std::ctype<char>*,
                                                 std::ctype_base::mask m, char c)
{
    if (m != std::ctype_base::space)
        abort();
    return sym_or(c == ' ', sym_and(c >= 9, c <= 13));
}
static void facets()
{
#ifndef SYM_NATIVE
    std::locale::global(
        std::locale(std::locale::classic(), new std::num_get<char>));
#endif
}
static const std::string SP = "/etc/thermal.d/setpoint";

static conf::ControllerInfo fanPid(std::vector<conf::SensorInput> i, double max)
{
    conf::ControllerInfo f = ci("fan", i, 0);
    f.pidInfo.ts = 1;
    f.pidInfo.feedFwdGain = 1;
    f.pidInfo.outLim = {0, max};
    return f;
}

// Puts a setpoint file there; tells whether it counts and for what.
static bool anyNumber = false; // or some numbers
static bool setpointFile(const std::string& name, int kind, double& rpm)
{
    auto& fs = hv::files();
    fs.erase(name);
    switch (kind)
    {
        case 0:
            return false;
        case 1: // any number
        {
            if (!anyNumber)
            {
                fs[name].data = "4000\n";
                rpm = 4000;
                return true;
            }
            int n = 1 + sym_pick("digits", deep ? 6 : 4);
            std::string t;
            int64_t v = 0;
            for (int i = 0; i < n; i++)
            {
                int d = sym_u8("digit", 0, 9);
                t.push_back((char)('0' + d));
                v = v * 10 + d;
            }
            fs[name].data = t + "\n";
            if (!(v > 100))
                return false;
            rpm = (double)v;
            return true;
        }
        case 2: // no number
        {
            char c = 'x';
            if (anyNumber)
            {
                c = (char)sym_u8("char", 33, 126);
                sym_assume(sym_and(sym_or(c < '0', c > '9'),
                                   sym_and(c != '+', c != '-')));
            }
            fs[name].data = std::string(1, c) + "4000\n";
            return false;
        }
        case 3:
            fs[name].data = "";
            return false;
        case 4:
            fs[name].data = "4000\n";
            fs[name].readable = false;
            return false;
        case 5:
            fs[name].data = "-4000\n";
            return false;
        case 6:
            fs[name].data = "101";
            rpm = 101;
            return true;
        default:
            fs[name].data = "100\n";
            return false;
    }
}

// what others leave on the stack must not count
__attribute__((noinline)) static void dirty()
{
    volatile int a[2048];
    for (int i = 0; i < 2048; i++)
        a[i] = 5000;
}
// the setpoint files, in one zone
static double var(const char* name, double lo, double hi, double fix)
{
    return anyNumber ? fix : sym_f64(name, lo, hi);
}
static void tuningRun()
{
    facets();
    static const int64_t ids[] = {0, 3, 12};
    int64_t id = anyNumber ? 3 : ids[sym_pick("zone", deep ? 3 : 2)];
    tuningEnabled = anyNumber || sym_pick("tuning", 2);
    Rig r;
    r.add("f");
    r.add("t");
    r.pids[id]["F"] = fanPid({in("f")}, 10000);
    double req = var("request", 0, 9000, 1200), min = var("min", 0, 9000, 300);
    r.pids[id]["S"] = constant("t", req);
    double ceil = 0;
    bool hasCeil = !anyNumber && sym_pick("ceiling", 2);
    if (hasCeil)
    {
        r.pids[id]["C"] = constant("t", ceil = var("limit", 0, 9000, 900));
        r.pids[id]["C"].stepwiseInfo.isCeiling = true;
    }
    double fs = var("failsafe", 0, 100, 75);
    r.conf[id] = zc(min, fs);
    r.build();
    auto& z = *r.zones.at(id);
    const std::string own = SP + ".zone" + std::to_string(id);
    // files of others
    hv::files()[SP + ".zone1"].data = "7777\n";
    hv::files()["setpoint"].data = "7778\n";
    static const int ways[][2] = {{0, 0}, {1, 0}, {6, 1}, {0, 6}, {3, 0}};
    bool fail = false;
    for (int k = 0; k < 2; k++)
    {
        r.set("f", 1000);
        r.set("t", 20);
        fail = !anyNumber && (k && !deep ? !fail : sym_pick("fail", 2));
        r.s["t"]->failed = fail;
        double va = 0, vb = 0;
        int ka, kb;
        if (k == 0)
        {
            ka = sym_pick("file", 8);
            kb = ka == 0 || deep ? sym_pick("own file", 8)
                                : sym_pick("own file", 2) * 6;
            if (anyNumber && ka != 1 && kb != 1)
                return; // (in the other run)
        }
        else
        {
            int w = anyNumber && !deep ? sym_pick("then", 2) * 3
                                       : sym_pick("then", 5);
            ka = ways[w][0], kb = ways[w][1];
            if (anyNumber && w == 1)
                return;
            if (anyNumber && ka == 1)
                ka = 6;
            if (anyNumber && kb == 1)
                kb = 6;
        }
        bool a = setpointFile(SP, ka, va);
        bool b = setpointFile(own, kb, vb);
        double demand = hasCeil ? hv::minRef(req, ceil) : req;
        demand = hv::maxRef(demand, min);
        if (tuningEnabled && a)
            demand = va;
        if (tuningEnabled && b)
            demand = vb;
        z.updateSensors();
        z.clearSetPoints();
        z.clearRPMCeilings();
        z.processThermals();
        dirty();
        z.determineMaxSetPointRequest();
        sym_assert(z.getMaxSetPointRequest() == demand,
                   tuningEnabled
                       ? "the demand is not the one of the setpoint files"
                       : "setpoint files count without tuning");
        // the files only count when thermals are processed
        if (k == 0)
        {
            setpointFile(SP, 0, va);
            setpointFile(own, 0, vb);
        }
        if (anyNumber)
            continue;
        r.fans(id);
        sym_assert(z.getFailSafeMode() == fail, "failsafe is not tracked");
        double out = sym_ite_d(demand > 10000, 10000, demand);
        if (!tuningEnabled && fail)
            out = STRICT_FAILSAFE_PWM ? fs : hv::maxRef(out, fs);
        auto& w = r.s["f"]->writes;
        sym_assert((int)w.size() == k + 1, "a fan is not written");
        hv::assertClose(w.back().v, out / 100,
                        tuningEnabled
                            ? "a fan under tuning does not follow its controller"
                            : "a fan is not driven to its demand or failsafe");
    }
    sym_reach("end");
}
SYM_HARNESS(tuning)
{
    tuningRun();
}
SYM_HARNESS(tuning_number)
{
    anyNumber = true;
    tuningRun();
}
// two zones: each its own file
SYM_HARNESS(tuning_zones)
{
    facets();
    tuningEnabled = true;
    Rig r;
    r.add("t");
    static const int64_t ids[][2] = {{0, 1}, {1, 12}, {300, 2}};
    const int64_t* id = ids[sym_pick("ids", 3)];
    double req[2], want[2];
    for (int z = 0; z < 2; z++)
    {
        std::string f = z ? "g" : "f";
        r.add(f);
        r.pids[id[z]]["F"] = fanPid({in(f)}, 10000);
        req[z] = sym_f64("request", 0, 9000);
        r.pids[id[z]]["S"] = constant("t", req[z]);
        r.conf[id[z]] = zc(0, 100);
    }
    r.build();
    double all = 0;
    bool a = setpointFile(SP, sym_pick("file", 2) * 6, all);
    for (int z = 0; z < 2; z++)
    {
        double own = 0;
        hv::files()[SP + ".zone" + std::to_string(id[z]) + "0"].data = "808\n";
        bool b = setpointFile(SP + ".zone" + std::to_string(id[z]),
                              sym_pick("own file", 3), own);
        want[z] = b ? own : a ? all : req[z];
    }
    r.set("f", 1000);
    r.set("g", 1000);
    r.set("t", 20);
    for (int z = 0; z < 2; z++)
        r.thermals(id[z]);
    for (int z = 0; z < 2; z++)
        sym_assert(r.zones.at(id[z])->getMaxSetPointRequest() == want[z],
                   "the demand is not the one of the zone's setpoint file");
    sym_reach("end");
}

// One zone with every kind of controller, run by its control loop.
struct History
{
    double temp[8], temp2[8], fan[8];
    bool fail[8], fanFail[8], off[8], man[8];
};
struct Seen
{
    std::vector<double> numbers;
    std::vector<std::string> facts;
    void operator()(const std::string& f) { facts.push_back(f); }
    void operator()(double d) { numbers.push_back(d); }
};
static const int64_t START = 1'700'000'000'000'000'000;
// values that steer away from limits, so that all of them matter
static void configure(Rig& r, int64_t id, bool acc)
{
    for (auto n : {"fan0", "fan1", "cpu", "dimm", "psu"})
        r.add(n);
    auto f = fanPid({in("fan0"), in("fan1")}, 100);
    f.pidInfo.feedFwdGain = 0.01;
    f.pidInfo.integralCoeff = 0.001;
    f.pidInfo.integralLimit = {0, 50};
    f.pidInfo.slewPos = 20;
    r.pids[id]["fan_A"] = f;
    r.pids[id]["fan_B"] = fanPid({in("fan1")}, 100);
    auto t = ci("temp", {in("cpu"), in("dimm")}, 40);
    t.pidInfo.ts = 1;
    t.pidInfo.proportionalCoeff = -30;
    t.pidInfo.outLim = {0, 9000};
    r.pids[id]["T_x"] = t;
    auto h = ci("power", {in("psu"), in("cpu")}, 40);
    h.pidInfo = t.pidInfo;
    h.pidInfo.positiveHysteresis = 3;
    h.pidInfo.negativeHysteresis = 3;
    r.pids[id]["H_x"] = h;
    auto m = ci("margin", {in("dimm"), in("cpu")}, 20);
    m.inputs[1].convertTempToMargin = true;
    m.inputs[1].convertMarginZero = 95;
    m.pidInfo = t.pidInfo;
    m.pidInfo.checkHysterWithSetpt = true;
    r.pids[id]["M_y"] = m;
    auto p = ci("powersum", {in("psu"), in("cpu")}, 40);
    p.pidInfo = t.pidInfo;
    p.pidInfo.proportionalCoeff = -10;
    p.failSafePercent = 80;
    r.pids[id]["P_y"] = p;
    auto w = constant("dimm", 900);
    w.stepwiseInfo.reading[1] = 50;
    w.stepwiseInfo.output[1] = 1500;
    r.pids[id]["S_z"] = w;
    auto c = constant("psu", 4000);
    c.stepwiseInfo.isCeiling = true;
    r.pids[id]["C_z"] = c;
    auto z = zc(500, 60);
    z.accumulateSetPoint = acc;
    z.cycleTime.cycleIntervalTimeMS = 100;
    z.cycleTime.updateThermalsTimeMS = 100;
    r.conf[id] = z;
}
static Seen play(const History& h, int ticks, bool acc)
{
    hv::world() = {};
    hv::nowNs = START;
    hv::steadyNs = 5'000'000'000'000;
    Seen s;
    {
        Rig r;
        configure(r, 2, acc);
        r.build();
        bool cancel = false;
        boost::asio::io_context io;
        auto z = r.zones.at(2);
        auto timer = std::make_shared<boost::asio::steady_timer>(io);
        auto look = [&] {
            s(z->getMaxSetPointRequest());
            s(z->getFailSafePercent());
            s(z->getFailSafeMode() ? "failsafe" : "normal");
            s(hv::served<ModeItf>().at(zonePath(2))->failSafe() ? "F" : "N");
            s(hv::served<sdbusplus::xyz::openbmc_project::Debug::Pid::server::
                             Zone>()
                  .at(zonePath(2))
                  ->leader());
            for (auto& [n, x] : z->getFailSafeSensors())
                s(n + ":" + x.first), s(x.second);
            for (auto& [n, o] : hv::served<PowerItf>())
                s(n + " " + o->leader()), s(o->input()), s(o->output());
        };
        for (int k = 0; k <= ticks; k++)
        {
            r.set("cpu", h.temp[k]);
            r.set("dimm", h.temp2[k]);
            r.set("psu", 50);
            r.set("fan0", h.fan[k]);
            r.set("fan1", 2000);
            r.s["cpu"]->failed = h.fail[k];
            r.s["fan0"]->failed = h.fanFail[k];
            hv::served<EnableItf>().at(pidPath(2, "T_x"))->enabled(!h.off[k]);
            hv::served<ModeItf>().at(zonePath(2))->manual(h.man[k]);
            if (k == 0)
                pidControlLoop(z, timer, &cancel);
            else
                hv::fireTimer(0);
            sym_assert(boost::asio::hvAsio().pending.size() == 1,
                       "the control loop does not go on");
            s((double)(boost::asio::hvAsio().pending[0]->at.time_since_epoch()
                           .count()));
            look();
            hv::nowNs += 100'000'000;
            hv::steadyNs += 100'000'000;
        }
        for (auto& [n, x] : r.s)
        {
            s(n + " " + std::to_string(x->reads));
            for (auto& w : x->writes)
                s(w.v), s(w.forced ? "!" : ".");
        }
        cancel = true;
        timer->cancel();
    }
    boost::asio::hvAsio().pending.clear();
    return s;
}
// the same history with and without diagnostics
SYM_HARNESS(neutral)
{
    static const int quick[] = {7, 1, 2, 4};
    int what = deep ? 1 + sym_pick("diagnostics", 7)
                    : quick[sym_pick("diagnostics", 4)];
    bool openable = (what & 6) == 0 || sym_pick("openable", 2);
    bool acc = sym_pick("accumulate", 2);
    const int ticks = deep ? 5 : 3;
    History h;
    int event = sym_pick("event", 5);
    int at = event ? sym_pick("at", deep ? ticks + 1 : 2) + !deep : 0;
    tuningEnabled = (event == 1 || event == 2) && sym_pick("tuning", 2);
    int var = event && !deep ? at % 2 : sym_pick("varied", 3), when = sym_pick("when", deep ? 4 : 2);
    for (int k = 0; k <= ticks; k++)
    {
        bool now = when < 2 ? k == when : k == when - 2 || k == when;
        h.temp[k] = var == 0 && now ? sym_f64("cpu", 0, 150) : 60 + k * 5;
        h.temp2[k] = var == 1 && now ? sym_f64("dimm", 0, 150) : 45 + k * 2;
        h.fan[k] = var == 2 && now ? sym_f64("fan", 0, 9000) : 1000 + k;
        h.fail[k] = event == 1 && k == at;
        h.fanFail[k] = event == 2 && k == at;
        h.off[k] = event == 3 && k >= at;
        h.man[k] = event == 4 && k == at;
    }
    debugEnabled = loggingEnabled = coreLoggingEnabled = false;
    Seen a = play(h, ticks, acc);
    debugEnabled = what & 1;
    loggingEnabled = what & 2;
    coreLoggingEnabled = what & 4;
    loggingPath = "/log";
    if (openable)
        for (auto n : {"zone_2.log", "pidcore.fanA", "pidcoeffs.fanA",
                       "pidcore.fanB", "pidcoeffs.fanB", "pidcore.Tx",
                       "pidcoeffs.Tx", "pidcore.My", "pidcoeffs.My"})
            hv::files()[std::string("/log/") + n];
    Seen b = play(h, ticks, acc);
    sym_assert(a.facts == b.facts && a.numbers.size() == b.numbers.size(),
               "diagnostics change what the daemon does");
    for (size_t i = 0; i < a.numbers.size(); i++)
        sym_assert(sym_or(a.numbers[i] == b.numbers[i],
                          sym_and(a.numbers[i] != a.numbers[i],
                                  b.numbers[i] != b.numbers[i])),
                   "diagnostics change what the daemon does");
    sym_reach("end");
}

// --- logs
static std::vector<std::vector<std::string>> rows(const std::string& file)
{
    std::vector<std::vector<std::string>> r;
    std::vector<std::string> row(1);
    for (char c : hv::files()[file].data)
        if (c == '\n')
        {
            r.push_back(row);
            row.assign(1, "");
        }
        else if (c == ',')
            row.push_back("");
        else
            row.back().push_back(c);
    sym_assert(row.size() == 1 && row[0].empty(), "the log ends in mid-line");
    return r;
}
static std::string head(const std::string& file)
{
    const auto& d = hv::files()[file].data;
    return d.substr(0, d.find('\n'));
}
static void number(const std::string& text, double want, const char* label)
{
    // 6 significant digits are printed
    double got = sym_text_f64(text.c_str());
    sym_assert_close(got, want, 1e-5, 1e-9, label);
}
// the log of a zone
SYM_HARNESS(zonelog)
{
    static const int64_t ids[] = {0, 2, 1234};
    int64_t id = ids[sym_pick("zone", deep ? 3 : 2)];
    loggingEnabled = true;
    loggingPath = id ? "/log" : "/tmp/x";
    const std::string file =
        loggingPath + "/zone_" + std::to_string(id) + ".log";
    hv::files()[file].data = "an old log\n";
    hv::files()[loggingPath + "/zone_7.log"];
    Rig r;
    static const char* fans[] = {"fan0", "fan1"};
    static const char* therms[] = {"cpu", "dimm", "psu"};
    for (auto n : fans)
        r.add(n);
    for (auto n : therms)
        r.add(n);
    auto f = fanPid({in("fan0"), in("fan1")}, 100);
    f.pidInfo.feedFwdGain = 0.01;
    r.pids[id]["F"] = f;
    auto a = ci("temp", {in("cpu"), in("dimm")}, 40);
    a.pidInfo.ts = 1;
    a.pidInfo.proportionalCoeff = -50;
    a.pidInfo.outLim = {0, 9000};
    r.pids[id]["A"] = a;
    auto b = constant("dimm", 1000);
    b.inputs.push_back(in("psu"));
    b.inputs.push_back(in("cpu"));
    r.pids[id]["B"] = b;
    r.conf[id] = zc(500, 60);
    r.conf[id].cycleTime.cycleIntervalTimeMS = 100;
    bool slow = sym_pick("slow", 2);
    r.conf[id].cycleTime.updateThermalsTimeMS = slow ? 200 : 100;
    r.build();
    auto z = r.zones.at(id);
    bool cancel = false;
    boost::asio::io_context io;
    auto timer = std::make_shared<boost::asio::steady_timer>(io);
    int var = sym_pick("varied", 3), event = sym_pick("event", deep ? 4 : 3);
    const int ticks = deep ? 5 : 4;
    int at = event ? 1 + sym_pick("at", ticks) : 0;
    double cached[3][2], pwm[2] = {NAN, NAN}, raw[2] = {NAN, NAN};
    struct Line
    {
        std::string time, leader, failsafe;
        double demand, fan[2][4], therm[3][2];
    };
    std::vector<Line> want;
    for (int k = 0; k <= ticks; k++)
    {
        double value[5], unscaled[5];
        for (int i = 0; i < 5; i++)
        {
            bool any = (var == 0 && i == 0) || (var == 1 && i == 2) ||
                       (var == 2 && i == 4);
            value[i] = any && k < 3 ? sym_f64("value", 0, 200) : 40 + 5 * i + k;
            unscaled[i] = any && k < 2 ? sym_f64("raw", -1000, 1000)
                                       : 7000 + 10 * i + k;
            auto* s = r.s[i < 2 ? fans[i] : therms[i - 2]];
            s->next = {value[i], std::chrono::high_resolution_clock::now(),
                       unscaled[i]};
            s->raw = 100 + 10 * i + k;
            s->failed = event == 1 && k == at && i == 2;
        }
        bool manual = event == 2 && k == at;
        hv::served<ModeItf>().at(zonePath(id))->manual(manual);
        double demand = z->getMaxSetPointRequest();
        auto* zi = hv::served<sdbusplus::xyz::openbmc_project::Debug::Pid::
                                  server::Zone>()
                       .at(zonePath(id));
        std::string leader = zi->leader();
        const int64_t now = hv::nowNs;
        int reads = r.s["cpu"]->reads;
        if (k == 0)
            pidControlLoop(z, timer, &cancel);
        else
            hv::fireTimer(0);
        bool thermals = r.s["cpu"]->reads != reads;
        if (k > 0 && !manual)
        {
            Line l;
            l.time = std::to_string(now / 1'000'000);
            l.demand = demand;
            l.leader = leader;
            for (int i = 0; i < 2; i++)
            {
                l.fan[i][0] = value[i];
                l.fan[i][1] = unscaled[i];
                l.fan[i][2] = pwm[i];
                l.fan[i][3] = raw[i];
            }
            for (int i = 0; i < 3; i++)
                for (int j = 0; j < 2; j++)
                    l.therm[i][j] = cached[i][j];
            l.failsafe = z->getFailSafeMode() ? "1" : "0";
            want.push_back(l);
        }
        if (thermals)
            for (int i = 0; i < 3; i++)
                cached[i][0] = value[2 + i], cached[i][1] = unscaled[2 + i];
        if (k > 0 && !manual)
            for (int i = 0; i < 2; i++)
            {
                pwm[i] = r.s[fans[i]]->writes.back().v;
                raw[i] = (double)r.s[fans[i]]->raw;
            }
        hv::nowNs += 100'000'000 + 7'777'777 * k;
        hv::steadyNs += 100'000'000;
    }
    // all of it is there in the end
    cancel = true;
    timer->cancel();
    while (io.run_one())
        ;
    z.reset();
    r.zones.clear();
    auto log = rows(file);
    sym_assert(
        head(file) == "epoch_ms,setpt,requester,fan0,fan0_raw,fan0_pwm,"
                      "fan0_pwm_raw,fan1,fan1_raw,fan1_pwm,fan1_pwm_raw,cpu,"
                      "cpu_raw,dimm,dimm_raw,psu,psu_raw,failsafe",
        "the header does not name the columns");
    sym_assert(log.size() == want.size() + 1,
               "there is not one line per cycle that is not manual");
    for (size_t k = 0; k < want.size(); k++)
    {
        auto &l = log[k + 1];
        auto& w = want[k];
        sym_assert(l.size() == log[0].size(), "a line does not fit the header");
        sym_assert(l[0] == w.time, "the time of a line is wrong");
        number(l[1], w.demand, "the demand logged is not the one in force");
        sym_assert(l[2] == w.leader,
                   "the requester logged is not the one in force");
        static const char* what[] = {
            "a fan speed logged is not the one read",
            "a raw fan speed logged is not the one read",
            "an output logged is not the last one set",
            "a raw output logged is not the last one set"};
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < 4; j++)
                number(l[3 + 4 * i + j], w.fan[i][j], what[j]);
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 2; j++)
                number(l[11 + 2 * i + j], w.therm[i][j],
                       "a reading logged is not the one in use");
        sym_assert(l[17] == w.failsafe, "the failsafe state logged is wrong");
    }
    sym_assert(hv::files()[loggingPath + "/zone_7.log"].data.empty(),
               "a log of another zone is written");
    sym_reach("end");
}
// the log of a controller's computation
static double refClamp(double x, double lo, double hi)
{
    return hv::clampRef(x, lo, hi);
}
SYM_HARNESS(corelog)
{
    static const char* names[][2] = {{"P", "P"},       {"F_an-1 x", "Fan1x"},
                                     {"--", ""},       {"", ""},
                                     {"Z\xc3\xa4", "Z"}, {"09azAZ", "09azAZ"}};
    int ni = sym_pick("name", 6);
    std::string name = names[ni][0], clean = names[ni][1];
    coreLoggingEnabled = sym_pick("enabled", ni ? 1 : 2) == 0;
    loggingPath = "/log";
    const std::string fc = "/log/pidcore." + clean,
                      ff = "/log/pidcoeffs." + clean;
    int there = ni ? 3 : sym_pick("there", 4);
    if (there & 1)
        hv::files()[fc].data = "old\n";
    if (there & 2)
        hv::files()[ff].data = "old\n";
    bool logged = coreLoggingEnabled && there == 3 && !clean.empty();
    ec::pid_info_t i;
    i.ts = 0.5;
    i.proportionalCoeff = -2;
    i.feedFwdOffset = 10;
    i.feedFwdGain = 0.25;
    i.outLim = {3, 200};
    bool slew = !ni && sym_pick("slew", 2), integral = slew || ni || sym_pick("integral", 2);
    if (slew)
    {
        i.slewNeg = -8;
        i.slewPos = 6;
    }
    i.integralLimit = {-40, 60};
    if (integral)
        i.integralCoeff = 0.5;
    else
        i.derivativeCoeff = 0.125;
    const ec::pid_info_t first = i;
    static const char* cols[] = {
        "epoch_ms,input,setpoint,error,proportionalTerm,integralTerm1,"
        "integralTerm2,derivativeTerm,feedFwdTerm,output1,output2,minOut,"
        "maxOut,integralTerm3,output3,integralTerm,output",
        "epoch_ms,ts,integral,lastOutput,proportionalCoeff,integralCoeff,"
        "derivativeCoeff,feedFwdOffset,feedFwdGain,integralLimit.min,"
        "integralLimit.max,outLim.min,outLim.max,slewNeg,slewPos,"
        "positiveHysteresis,negativeHysteresis"};
    double in = 0, set = 50, last[16];
    int64_t lastAt = 0;
    size_t lines = 1, inits = 1;
    // (whether sums of any values are the same again is hard to decide)
    int var = ni ? 0 : sym_pick("varied", integral ? 3 : 2);
    bool may = !integral || var == 2;
    double I = 0, lastErr = 0, lastOut = 0;
    bool init = false;
    const int n = deep ? 4 : 3;
    for (int k = 0; k < n; k++)
    {
        static const int64_t gaps[] = {1, 59'999, 60'000, 3'600'000};
        bool same = k && may && sym_pick("same", 2) == 0;
        if (k)
            hv::nowNs +=
                gaps[same || deep ? sym_pick("gap", deep ? 4 : 3) : 0] *
                1'000'000;
        // a controller that is built anew
        bool anew = k > 0 && sym_pick("anew", k + 1 == n ? 2 : 1);
        if (anew)
        {
            i = first;
            i.proportionalCoeff = -3;
            I = lastErr = lastOut = 0;
            init = false;
        }
        if (!same)
            in = k == var || (deep && k < 2 && var < 2) ? sym_f64("input", 0, 100)
                                             : 33 + 9 * k;
        const double kp = i.proportionalCoeff;
        double out = ec::pid(&i, in, set, &name);
        double v[16];
        v[0] = in;
        v[1] = set;
        double err = v[2] = set - in;
        v[3] = kp * err;
        v[4] = integral ? I + err * 0.5 * 0.5 : 0;
        v[5] = integral ? refClamp(v[4], -40, 60) : 0;
        v[6] = integral ? 0 : 0.125 * ((err - lastErr) / 0.5);
        v[7] = (set + 10) * 0.25;
        v[8] = v[3] + v[5] + v[6] + v[7];
        v[9] = refClamp(v[8], 3, 200);
        bool sl = slew && init;
        v[10] = sl ? lastOut - 4 : 0;
        v[11] = sl ? lastOut + 3 : 0;
        v[13] = sl ? refClamp(v[9], v[10], v[11]) : v[9];
        v[12] = sl ? v[13] - v[3] : v[5];
        v[14] = refClamp(v[12], -40, 60);
        v[15] = v[13];
        init = true;
        I = v[14];
        lastErr = err;
        lastOut = v[15];
        hv::assertClose(out, v[15], "the output is wrong");
        if (!logged)
            continue;
        // a line if there is news, or none for a minute
        bool news = k == 0 || anew || hv::nowNs - lastAt >= 60'000'000'000;
        if (!news)
            for (int j = 0; j < 16; j++)
                if (v[j] != last[j])
                {
                    news = true;
                    break;
                }
        auto log = rows(fc), co = rows(ff);
        sym_assert(head(fc) == cols[0] && head(ff) == cols[1],
                   "the header does not name the columns");
        if (k == 0 || anew)
        {
            inits++;
            sym_assert(co.size() == inits,
                       "there is not one line of coefficients per start");
            const ec::pid_info_t& c = first;
            const double w[] = {c.ts, 0, 0, kp, c.integralCoeff,
                                c.derivativeCoeff, c.feedFwdOffset,
                                c.feedFwdGain, c.integralLimit.min,
                                c.integralLimit.max, c.outLim.min,
                                c.outLim.max, c.slewNeg, c.slewPos, 0, 0};
            sym_assert(co.back().size() == 17 &&
                           co.back()[0] == std::to_string(hv::nowNs / 1000000),
                       "a line of coefficients is malformed");
            for (int j = 0; j < 16; j++)
                number(co.back()[j + 1], w[j],
                       "the coefficients logged are not the ones in use");
        }
        else
            sym_assert(co.size() == inits,
                       "there is not one line of coefficients per start");
        if (news)
        {
            lines++;
            sym_assert(log.size() == lines,
                       "a change, or a minute without one, is not logged");
            auto& l = log.back();
            sym_assert(l.size() == 17 &&
                           l[0] == std::to_string(hv::nowNs / 1000000),
                       "a line is malformed");
            for (int j = 0; j < 16; j++)
            {
                number(l[j + 1], v[j],
                       "a value logged is not the one computed");
                last[j] = v[j];
            }
            lastAt = hv::nowNs;
        }
        else
            sym_assert(log.size() == lines, "nothing new is logged");
    }
    if (!logged)
        for (auto& [n, f] : hv::files())
            sym_assert(f.data.empty() || f.data == "old\n",
                       "something is logged that should not be");
    sym_reach("end");
}
// two controllers
SYM_HARNESS(corelog_two)
{
    static const char* names[][2] = {{"a", "b"}, {"a-1", "a1"}, {"x y", "xy"},
                                     {"a", "ab"}};
    int p = sym_pick("names", 4);
    coreLoggingEnabled = true;
    loggingPath = "/var/log";
    const std::string dir = "/var/log/pidcore.", di2 = "/var/log/pidcoeffs.";
    for (auto n : {"a", "b", "a1", "xy", "ab"})
    {
        hv::files()[dir + n];
        hv::files()[di2 + n];
    }
    ec::pid_info_t i[2];
    double in[2];
    for (int k = 0; k < 2; k++)
    {
        i[k].ts = 1;
        i[k].feedFwdGain = 1;
        i[k].outLim = {0, 1000};
        in[k] = sym_f64("input", 0, 100);
    }
    for (int t = 0; t < 2; t++)
        for (int k = 0; k < 2; k++)
        {
            std::string n = names[p][k];
            hv::assertClose(ec::pid(&i[k], in[k] + t, 5 + k, &n), 5 + k,
                            "the output is wrong");
        }
    static const char* clean[][2] = {{"a", "b"}, {"a1", ""}, {"xy", ""},
                                     {"a", "ab"}};
    for (int k = 0; k < 2; k++)
    {
        if (!*clean[p][k])
            continue;
        auto l = rows(dir + clean[p][k]);
        sym_assert(l.size() == 3, "controllers share a log");
        for (int t = 0; t < 2; t++)
            number(l[1 + t][1], in[k] + t, "a line is in another's log");
        sym_assert(rows(di2 + clean[p][k]).size() == 2,
                   "controllers share a log");
    }
    sym_reach("end");
}
