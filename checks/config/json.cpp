// The JSON configuration: what the daemon makes of it.
#include "config.h"

#include "common/memfs.hpp"
#include "common/util.hpp"
#include <functional>
#include <set>
#include "buildjson/buildjson.hpp"
#include "conf.hpp"
#include "errors/exception.hpp"
#include "pid/buildjson.hpp"
#include "sensors/buildjson.hpp"
#include "util.hpp"

#include <nlohmann/json.hpp>
#include <set>

using namespace pid_control;
using json = nlohmann::json;

static double num(const char* n) { return sym_f64(n, -1e12, 1e12); }
static bool same(double a, double b)
{
    return sym_or(a == b, sym_and(a != a, b != b));
}

// ---------------------------------------------------------------- sensors
SYM_HARNESS(sensor)
{
    static const char* types[] = {"fan", "temp", "margin", "power"};
    std::string type = types[sym_pick("type", 4)];
    bool fan = type == "fan";
    json j = {{"name", "s1"}, {"type", type}, {"readPath", "/sys/r"}};
    // one optional attribute, or all of them
    enum
    {
        WRITE = 1,
        IGN = 2,
        UNAV = 4,
        HOST = 8,
        MIN = 16,
        MAX = 32,
        TIME = 64
    };
    int opt = sym_pick("optional", 9);
    int has = opt == 8 ? 127 : opt == 7 ? 0 : 1 << opt;
    bool ign = sym_bool("ignoreDbusMinMax"),
         unav = sym_bool("unavailableAsFailed"),
         host = sym_bool("ignoreFailIfHostOff");
    int64_t lo = sym_i64("min"), hi = sym_i64("max"), t = sym_i64("timeout");
    if (has & WRITE)
        j["writePath"] = "/sys/w";
    if (has & IGN)
        j["ignoreDbusMinMax"] = ign;
    if (has & UNAV)
        j["unavailableAsFailed"] = unav;
    if (has & HOST)
        j["ignoreFailIfHostOff"] = host;
    if (has & MIN)
        j["min"] = lo;
    if (has & MAX)
        j["max"] = hi;
    if (has & TIME)
        j["timeout"] = t;
    json other = {{"name", "s2"}, {"type", "fan"},     {"readPath", "/x"},
                  {"min", 7},     {"writePath", "/y"}, {"timeout", 9}};
    json d;
    d["sensors"] = sym_pick("order", 2) ? json::array({j, other})
                                        : json::array({other, j});
    auto m = buildSensorsFromJson(d);
    sym_assert(m.size() == 2 && m.count("s1") && m.count("s2"),
               "the sensors are not those of the configuration");
    auto& s = m["s1"];
    sym_assert(s.type == type && s.readPath == "/sys/r" &&
                   s.writePath == (has & WRITE ? "/sys/w" : ""),
               "a sensor's type or paths differ from the configuration");
    sym_assert(s.ignoreDbusMinMax == ((has & IGN) ? ign : false),
               "ignoreDbusMinMax differs from the configuration");
    sym_assert(s.unavailableAsFailed == ((has & UNAV) ? unav : true),
               "unavailableAsFailed differs from the configuration");
    sym_assert(s.ignoreFailIfHostOff == ((has & HOST) ? host : false),
               "ignoreFailIfHostOff differs from the configuration");
    sym_assert(s.min == ((has & MIN) && fan ? lo : 0),
               "a sensor's minimum differs from the configuration");
    sym_assert(s.max == ((has & MAX) && fan ? hi : 0),
               "a sensor's maximum differs from the configuration");
    sym_assert(s.timeout == ((has & TIME) ? t : fan ? 0 : 2),
               "a sensor's timeout differs from the configuration");
    auto& o = m["s2"];
    sym_assert(o.type == "fan" && o.readPath == "/x" && o.writePath == "/y" &&
                   o.min == 7 && o.max == 0 && o.timeout == 9,
               "another sensor's configuration is disturbed");
    sym_reach("end");
}

// ---------------------------------------------------------------- controllers
static const char* coeffs[] = {
    "samplePeriod",       "proportionalCoeff", "integralCoeff",
    "feedFwdOffsetCoeff", "feedFwdGainCoeff",  "integralLimit_min",
    "integralLimit_max",  "outLim_min",        "outLim_max",
    "slewNeg",            "slewPos"};
static json zoneWith(std::vector<json> pids)
{
    json z;
    z["id"] = 1;
    z["minThermalOutput"] = 30.0;
    z["failsafePercent"] = 75.0;
    z["pids"] = pids;
    json d;
    d["zones"] = json::array({z});
    return d;
}
static json plain(const std::string& name)
{
    json p = {{"name", name},
              {"type", "temp"},
              {"inputs", json::array({"x"})},
              {"setpoint", 11.0}};
    for (auto c : coeffs)
        p["pid"][c] = 1.5;
    return p;
}
SYM_HARNESS(controller)
{
    static const char* types[] = {"fan", "temp", "margin", "power",
                                  "powersum"};
    std::string type = types[sym_pick("type", 5)];
    double v[11], sp = num("setpoint");
    json p = {{"name", "c1"}, {"type", type}, {"setpoint", sp}};
    p["inputs"] = json::array({"a", "b"});
    for (int i = 0; i < 11; i++)
        p["pid"][coeffs[i]] = v[i] = num(coeffs[i]);
    int opt = sym_pick("optional", 7);
    int has = opt == 6 ? 31 : opt == 5 ? 0 : 1 << opt;
    double ph = num("positiveHysteresis"), nh = num("negativeHysteresis"),
           kd = num("derivativeCoeff"), fs = sym_f64("FailSafePercent", 0, 100);
    bool chk = sym_bool("checkHysteresisWithSetpoint");
    if (has & 1)
        p["pid"]["positiveHysteresis"] = ph;
    if (has & 2)
        p["pid"]["negativeHysteresis"] = nh;
    if (has & 4)
        p["pid"]["derivativeCoeff"] = kd;
    if (has & 8)
        p["pid"]["checkHysteresisWithSetpoint"] = chk;
    if (has & 16)
        p["FailSafePercent"] = fs;
    auto [pids, zones] = buildPIDsFromJson(zoneWith({p, plain("c2")}));
    sym_assert(pids.size() == 1 && pids.count(1) && pids[1].size() == 2 &&
                   pids[1].count("c1") && pids[1].count("c2"),
               "the controllers are not those of the configuration");
    auto& c = pids[1]["c1"];
    auto& i = c.pidInfo;
    sym_assert(c.type == type && c.inputs.size() == 2 &&
                   c.inputs[0].name == "a" && c.inputs[1].name == "b",
               "a controller's type or inputs differ from the configuration");
    sym_assert(same(c.setpoint, sp), "the setpoint differs");
    sym_assert(same(i.ts, v[0]), "samplePeriod differs");
    sym_assert(same(i.proportionalCoeff, v[1]), "proportionalCoeff differs");
    sym_assert(same(i.integralCoeff, v[2]), "integralCoeff differs");
    sym_assert(same(i.feedFwdOffset, v[3]), "feedFwdOffsetCoeff differs");
    sym_assert(same(i.feedFwdGain, v[4]), "feedFwdGainCoeff differs");
    sym_assert(same(i.integralLimit.min, v[5]), "integralLimit_min differs");
    sym_assert(same(i.integralLimit.max, v[6]), "integralLimit_max differs");
    sym_assert(same(i.outLim.min, v[7]), "outLim_min differs");
    sym_assert(same(i.outLim.max, v[8]), "outLim_max differs");
    sym_assert(same(i.slewNeg, v[9]), "slewNeg differs");
    sym_assert(same(i.slewPos, v[10]), "slewPos differs");
    sym_assert(same(i.positiveHysteresis, has & 1 ? ph : 0),
               "positiveHysteresis differs");
    sym_assert(same(i.negativeHysteresis, has & 2 ? nh : 0),
               "negativeHysteresis differs");
    sym_assert(same(i.derivativeCoeff, has & 4 ? kd : 0),
               "derivativeCoeff differs");
    sym_assert(i.checkHysterWithSetpt == ((has & 8) ? chk : false),
               "checkHysteresisWithSetpoint differs");
    sym_assert(same(c.failSafePercent, has & 16 ? fs : 0),
               "FailSafePercent differs");
    auto& o = pids[1]["c2"];
    sym_assert(o.type == "temp" && o.setpoint == 11 && o.pidInfo.slewPos == 1.5 &&
                   o.pidInfo.derivativeCoeff == 0 && o.failSafePercent == 0 &&
                   o.inputs.size() == 1,
               "another controller's configuration is disturbed");
    sym_reach("end");
}
SYM_HARNESS(stepwise)
{
    json p = {{"name", "c1"}, {"type", "stepwise"}, {"setpoint", 1.0}};
    p["inputs"] = json::array({"a"});
    double ts = num("samplePeriod");
    bool ceil = sym_bool("isCeiling");
    p["pid"]["samplePeriod"] = ts;
    p["pid"]["isCeiling"] = ceil;
    static const int sizes[] = {0, 1, 2, 11, 19, 20};
    int nr = sizes[sym_pick("readings", 6)], no = sizes[sym_pick("outputs", 6)];
    // a hole in the tables
    int hole = sym_pick("hole", 3) - 1;
    hole = hole < 0 ? -1 : hole ? 10 : 1;
    double r[20], o[20];
    for (int k = 0; k < 20; k++)
    {
        r[k] = o[k] = NAN;
        if (k < nr && k != hole)
            p["pid"]["reading"][std::to_string(k)] = r[k] = num("reading");
        if (k < no && k != hole)
            p["pid"]["output"][std::to_string(k)] = o[k] = num("output");
    }
    double ph = num("positiveHysteresis"), nh = num("negativeHysteresis");
    int has = sym_pick("optional", 4);
    if (has & 1)
        p["pid"]["positiveHysteresis"] = ph;
    if (has & 2)
        p["pid"]["negativeHysteresis"] = nh;
    auto [pids, zones] = buildPIDsFromJson(zoneWith({p, plain("c2")}));
    auto& c = pids[1]["c1"];
    auto& i = c.stepwiseInfo;
    sym_assert(c.type == "stepwise", "the type differs");
    sym_assert(same(i.ts, ts), "samplePeriod differs");
    sym_assert(i.isCeiling == ceil, "isCeiling differs");
    bool okr = true, oko = true;
    for (int k = 0; k < 20; k++)
    {
        okr = sym_and(okr, same(i.reading[k], r[k]));
        oko = sym_and(oko, same(i.output[k], o[k]));
    }
    sym_assert(okr, "the table of readings differs");
    sym_assert(oko, "the table of outputs differs");
    sym_assert(same(i.positiveHysteresis, has & 1 ? ph : 0),
               "positiveHysteresis differs");
    sym_assert(same(i.negativeHysteresis, has & 2 ? nh : 0),
               "negativeHysteresis differs");
    sym_reach("end");
}
// inputs with their margins and the names of those that may be missing
SYM_HARNESS(inputs)
{
    int n = sym_pick("inputs", 4), m = sym_pick("margins", 5),
        a = sym_pick("acceptable", 4);
    static const char* names[] = {"a", "b", "c"};
    json p = plain("c1");
    p["inputs"] = json::array();
    for (int k = 0; k < n; k++)
        p["inputs"].push_back(names[k]);
    double z[4] = {};
    if (m)
        p["tempToMargin"] = json::array();
    for (int k = 0; k + 1 < m; k++)
        p["tempToMargin"].push_back(z[k] = num("margin"));
    std::set<std::string> acc;
    static const char* may[] = {"c", "nosuch", "a"};
    for (int k = 0; k < a; k++)
    {
        p["missingIsAcceptable"].push_back(may[k]);
        acc.insert(may[k]);
    }
    auto [pids, zones] = buildPIDsFromJson(zoneWith({p}));
    auto& in = pids[1]["c1"].inputs;
    sym_assert((int)in.size() == n, "the inputs differ");
    for (int k = 0; k < n; k++)
    {
        bool conv = k + 1 < m;
        sym_assert(in[k].name == names[k], "the inputs differ");
        sym_assert(in[k].convertTempToMargin == conv,
                   "conversion to margin is not as configured");
        if (conv)
            sym_assert(same(in[k].convertMarginZero, z[k]),
                       "an input's margin is not its own");
        sym_assert(in[k].missingIsAcceptable == (acc.count(names[k]) != 0),
                   "missingIsAcceptable is not as configured");
    }
    sym_reach("end");
}

// ---------------------------------------------------------------- zones
static uint64_t cycle(json& z, const char* key, uint64_t def)
{
    switch (sym_pick(key, 3))
    {
        case 0:
            return def;
        case 1:
        {
            int64_t v = sym_i64(key, -1000000, 1000000000);
            z[key] = v;
            return sym_ite_i(v >= 1, v, def);
        }
        default:
        {
            double v = sym_f64(key, -1000000, 1000000000);
            z[key] = v;
            return sym_ite_i(v >= 1, (int64_t)v, def);
        }
    }
}
SYM_HARNESS(zone)
{
    json d;
    d["zones"] = json::array();
    const int n = 2;
    double mt[n], fs[n];
    uint64_t ci[n], ut[n];
    bool ac[n];
    // zone numbers that are not in order
    static const int64_t ids[][n] = {{1, 2}, {2, 1}, {5000000000, -1}};
    const int64_t* id = ids[sym_pick("ids", 3)];
    int rich = sym_pick("rich", 2); // which of the zones has more than defaults
    for (int k = 0; k < n; k++)
    {
        json z;
        z["id"] = id[k];
        z["minThermalOutput"] = mt[k] = num("minThermalOutput");
        z["failsafePercent"] = fs[k] = num("failsafePercent");
        ci[k] = 100;
        ut[k] = 1000;
        ac[k] = false;
        if (k == rich)
        {
            ci[k] = cycle(z, "cycleIntervalTimeMS", 100);
            ut[k] = cycle(z, "updateThermalsTimeMS", 1000);
            if (sym_pick("accumulate", 2))
                z["accumulateSetPoint"] = ac[k] = sym_bool("accumulateSetPoint");
        }
        z["pids"] = json::array({plain(k ? "second" : "first")});
        d["zones"].push_back(z);
    }
    auto [pids, zones] = buildPIDsFromJson(d);
    sym_assert(zones.size() == 2 && pids.size() == 2,
               "the zones are not those of the configuration");
    for (int k = 0; k < n; k++)
    {
        sym_assert(zones.count(id[k]) && pids.count(id[k]),
                   "the zones are not those of the configuration");
        sym_assert(pids[id[k]].size() == 1 &&
                       pids[id[k]].count(k ? "second" : "first"),
                   "a zone has other controllers than configured");
        auto& z = zones[id[k]];
        sym_assert(same(z.minThermalOutput, mt[k]), "minThermalOutput differs");
        sym_assert(same(z.failsafePercent, fs[k]), "failsafePercent differs");
        sym_assert(z.cycleTime.cycleIntervalTimeMS == ci[k],
                   "cycleIntervalTimeMS is not as configured or the default");
        sym_assert(z.cycleTime.updateThermalsTimeMS == ut[k],
                   "updateThermalsTimeMS is not as configured or the default");
        sym_assert(z.accumulateSetPoint == ac[k], "accumulateSetPoint differs");
    }
    sym_reach("end");
}

// ---------------------------------------------------------------- refusals
static bool refused(const std::function<void()>& f)
{
    try
    {
        f();
    }
    catch (const std::exception&)
    {
        return true;
    }
    return false;
}
// drop, or garble, one required key of an otherwise good configuration
SYM_HARNESS(required)
{
    static const char* sk[] = {"name", "type", "readPath"};
    static const char* zk[] = {"id", "minThermalOutput", "failsafePercent",
                               "pids"};
    static const char* ck[] = {"name", "type", "inputs", "setpoint", "pid"};
    json s = {{"name", "a"}, {"type", "fan"}, {"readPath", "/sys/a"}};
    json s2 = s;
    s2["name"] = "b";
    double x = num("number");
    bool step = sym_pick("stepwise", 2);
    json c = plain("c1");
    if (step)
    {
        c["type"] = "stepwise";
        c["pid"] = {{"samplePeriod", 1.0}, {"isCeiling", false}};
    }
    bool garble = sym_pick("garble", 2);
    auto hurt = [&](json& j, const char* k) {
        if (!garble)
            j.erase(k);
        else if (j[k].is_string())
            j[k] = x;
        else
            j[k] = "text";
    };
    int where = sym_pick("where", 4);
    bool badSensor = false;
    json z;
    z["id"] = 1;
    z["minThermalOutput"] = 1.0;
    z["failsafePercent"] = 1.0;
    if (where == 0)
    {
        badSensor = true;
        hurt(s, sk[sym_pick("key", 3)]);
    }
    else if (where == 1)
        hurt(c, ck[sym_pick("key", 5)]);
    else if (where == 2 && step)
        hurt(c["pid"], sym_pick("key", 2) ? "isCeiling" : "samplePeriod");
    else if (where == 2)
        hurt(c["pid"], coeffs[sym_pick("key", 11)]);
    z["pids"] = json::array({plain("c0"), c});
    if (where == 3)
        hurt(z, zk[sym_pick("key", 4)]);
    json d;
    d["sensors"] = json::array({s2, s});
    d["zones"] = json::array({z});
    const json& cd = d;
    sym_assert(refused([&] { buildSensorsFromJson(cd); }) == badSensor,
               "a sensor without a required key is accepted, or a good one "
               "refused");
    sym_assert(refused([&] { buildPIDsFromJson(cd); }) == !badSensor,
               "a zone or controller without a required key is accepted, or a "
               "good one refused");
    sym_reach("end");
}
// which documents are a configuration at all
SYM_HARNESS(validate)
{
    json d = json::object();
    int ns = sym_pick("sensors", 4) - 1;
    bool ok = ns > 0;
    if (ns >= 0)
        d["sensors"] = json::array();
    for (int i = 0; i < ns; i++)
        d["sensors"].push_back({{"name", "s" + std::to_string(i)}});
    int nz = sym_pick("zones", 4);
    ok = ok && nz > 0;
    if (nz > 0)
        d["zones"] = json::array();
    for (int i = 0; i < nz; i++)
    {
        json z = {{"id", sym_i64("id")}};
        int np = sym_pick("pids", 4) - 1;
        ok = ok && np > 0;
        if (np >= 0)
            z["pids"] = json::array();
        for (int k = 0; k < np; k++)
            z["pids"].push_back(plain("p"));
        d["zones"].push_back(z);
    }
    if (sym_pick("more", 2))
        d["extra"] = num("extra");
    const json& c = d;
    sym_assert(refused([&] { validateJson(c); }) == !ok,
               "an incomplete configuration is accepted, or a complete one "
               "refused");
    sym_reach("end");
}
// a configuration file: absent, or with one character changed to anything
SYM_HARNESS(file)
{
    static const std::string F = "/usr/share/swampd/config.json";
    int k = sym_pick("file", 3);
    if (k == 0)
    {
        if (sym_pick("unreadable", 2))
        {
            hv::files()[F].data = "{}";
            hv::files()[F].readable = false;
        }
        sym_assert(refused([] { parseValidateJson(F); }),
                   "a configuration file that cannot be read is accepted");
        sym_reach("absent");
        return;
    }
    std::string t =
        R"({"sensors":[{"n":1}],"zones":[{"pids":[{"k":[]}],"id":-2}]})";
    if (k == 2)
    {
        int n = sym_pick("at", (int)t.size());
        // the parser of the JSON library runs on concrete text
        int lo = 48 * sym_pick("range", 2) + 32;
        t[n] = (char)sym_fix(sym_u8("char", lo, lo + 47));
    }
    hv::files()[F].data = t;
    // what a document needs to be a configuration
    json ref = json::parse(t, nullptr, false);
    bool ok = ref.is_object() && ref.count("sensors") && ref.count("zones") &&
              ref["sensors"].size() && ref["zones"].size();
    if (ok)
        for (auto& z : ref["zones"])
            ok = ok && z.is_object() && z.count("pids") && z["pids"].size();
    json got;
    bool r = refused([&] { got = parseValidateJson(F); });
    sym_assert(r == !ok, "a broken configuration file is accepted, or a good "
                         "one refused");
    if (!r)
        sym_assert(got == ref, "the configuration read differs from the file");
    sym_reach(r ? "refused" : "accepted");
}
