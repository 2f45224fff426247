// A zone that only records: the environment of one controller.
#pragma once
#include "pid/zone_interface.hpp"
#include "sensors/sensor.hpp"

#include <map>
#include <string>
#include <utility>
#include <vector>

namespace hv
{
struct RecSensor : pid_control::Sensor
{
    struct W
    {
        double v;
        bool forced;
        bool hasForce;
    };
    std::vector<W> writes;
    pid_control::ReadReturn next{};
    int reads = 0;
    bool failed = false;
    int64_t raw = 0;
    explicit RecSensor(const std::string& n, int64_t timeout = 0) :
        pid_control::Sensor(n, timeout)
    {}
    pid_control::ReadReturn read() override
    {
        reads++;
        return next;
    }
    void write(double v) override { writes.push_back({v, false, false}); }
    void write(double v, bool force, int64_t* written) override
    {
        writes.push_back({v, force, true});
        if (written)
            *written = raw;
    }
    bool getFailed() override { return failed; }
};

struct MockZone : pid_control::ZoneInterface
{
    std::map<std::string, pid_control::ValueCacheEntry> cache;
    std::map<std::string, RecSensor*> sensors;
    std::vector<std::pair<std::string, double>> setpoints;
    std::vector<double> ceilings;
    std::map<std::string, pid_control::ValueCacheEntry> outputs;
    double maxSetpoint = 0, failsafePercent = 0;
    bool failsafe = false, redundant = false;
    std::vector<std::string> asked;

    int64_t getZoneID() const override { return 0; }
    void initializeLog() override {}
    void writeLog(const std::string&) override {}
    pid_control::Sensor* getSensor(const std::string& n) override
    {
        return sensors.at(n);
    }
    std::vector<std::string> getSensorNames() override { return {}; }
    void updateFanTelemetry() override {}
    void updateSensors() override {}
    void initializeCache() override {}
    void setOutputCache(std::string_view n,
                        const pid_control::ValueCacheEntry& v) override
    {
        outputs[std::string(n)] = v;
    }
    double getCachedValue(const std::string& n) override
    {
        return cache.at(n).scaled;
    }
    pid_control::ValueCacheEntry getCachedValues(const std::string& n) override
    {
        return cache.at(n);
    }
    void addSetPoint(double v, const std::string& n) override
    {
        setpoints.push_back({n, v});
    }
    void clearSetPoints() override {}
    void addRPMCeiling(double c) override { ceilings.push_back(c); }
    void clearRPMCeilings() override {}
    void determineMaxSetPointRequest() override {}
    double getMaxSetPointRequest() const override { return maxSetpoint; }
    bool getFailSafeMode() const override { return failsafe; }
    double getFailSafePercent() override { return failsafePercent; }
    std::map<std::string, std::pair<std::string, double>>
        getFailSafeSensors() const override
    {
        return {};
    }
    uint64_t getCycleIntervalTime() const override { return 100; }
    uint64_t getUpdateThermalsCycle() const override { return 1000; }
    bool getManualMode() const override { return false; }
    bool getRedundantWrite() const override { return redundant; }
    bool getAccSetPoint() const override { return false; }
    void processFans() override {}
    void processThermals() override {}
    void updateThermalPowerDebugInterface(std::string, std::string, double,
                                          double) override
    {}
};
} // namespace hv
