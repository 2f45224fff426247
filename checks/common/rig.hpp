// A rig of zones: real zones and controllers on sensors that only record.
#pragma once
#include "config.h"

#include "common/clock.hpp"
#include "common/mockzone.hpp"
#include "common/util.hpp"
#include "conf.hpp"
#include "hv/dbus.hpp"
#include "pid/builder.hpp"
#include "pid/zone.hpp"

#include "sensors/manager.hpp"

#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

using namespace pid_control;
using hv::RecSensor;
using EnableItf = sdbusplus::xyz::openbmc_project::Object::server::Enable;
using ModeItf = sdbusplus::xyz::openbmc_project::Control::server::Mode;
using PowerItf =
    sdbusplus::xyz::openbmc_project::Debug::Pid::server::ThermalPower;
#ifdef SYM_THOROUGH
static const bool deep = true;
#else
static const bool deep = false;
#endif

[[maybe_unused]] static std::string zonePath(int64_t id)
{
    return "/xyz/openbmc_project/settings/fanctrl/zone" + std::to_string(id);
}
[[maybe_unused]] static std::string pidPath(int64_t id, const std::string& n)
{
    return zonePath(id) + "/" + n;
}

struct Rig
{
    sdbusplus::bus_t passive{"passive"}, host{"host"}, mode{"mode"};
    SensorManager mgr{passive, host};
    std::map<std::string, RecSensor*> s;
    std::map<int64_t, conf::PIDConf> pids;
    std::map<int64_t, conf::ZoneConfig> conf;
    std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> zones;
    RecSensor* add(const std::string& n, int64_t timeout = 0)
    {
        auto p = std::make_unique<RecSensor>(n, timeout);
        auto* r = p.get();
        mgr.addSensor("any", n, std::move(p));
        s[n] = r;
        return r;
    }
    void set(const std::string& n, double v)
    {
        s.at(n)->next = {v, std::chrono::high_resolution_clock::now(), v};
    }
    void build() { zones = buildZones(pids, conf, mgr, mode); }
    // what the control loop does in a cycle
    void thermals(int64_t id)
    {
        auto& z = *zones.at(id);
        z.updateSensors();
        z.clearSetPoints();
        z.clearRPMCeilings();
        z.processThermals();
        z.determineMaxSetPointRequest();
    }
    void fans(int64_t id)
    {
        zones.at(id)->updateFanTelemetry();
        zones.at(id)->processFans();
    }
};
[[maybe_unused]] static conf::ZoneConfig zc(double min, double fs)
{
    conf::ZoneConfig z;
    z.minThermalOutput = min;
    z.failsafePercent = fs;
    z.accumulateSetPoint = false;
    return z;
}
[[maybe_unused]] static conf::SensorInput in(const std::string& n)
{
    conf::SensorInput i;
    i.name = n;
    return i;
}
[[maybe_unused]] static conf::ControllerInfo ci(const std::string& type,
                               std::vector<conf::SensorInput> inputs,
                               double setpoint)
{
    conf::ControllerInfo c;
    c.type = type;
    c.inputs = inputs;
    c.setpoint = setpoint;
    c.failSafePercent = 0;
    for (size_t i = 0; i < ec::maxStepwisePoints; i++)
        c.stepwiseInfo.reading[i] = c.stepwiseInfo.output[i] = NAN;
    c.stepwiseInfo.positiveHysteresis = c.stepwiseInfo.negativeHysteresis = 0;
    c.stepwiseInfo.isCeiling = false;
    return c;
}
// a controller that asks for a constant
[[maybe_unused]] static conf::ControllerInfo constant(const std::string& sensor, double v)
{
    conf::ControllerInfo c = ci("stepwise", {in(sensor)}, 0);
    c.stepwiseInfo.reading[0] = 0;
    c.stepwiseInfo.output[0] = v;
    return c;
}

