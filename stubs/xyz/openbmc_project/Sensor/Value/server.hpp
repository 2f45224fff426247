#pragma once
#include "hv/dbus.hpp"
#include "xyz/openbmc_project/Sensor/Value/common.hpp"
namespace sdbusplus::xyz::openbmc_project::Sensor::server
{
class Value
{
  public:
    static constexpr auto interface = sdbusplus::common::xyz::openbmc_project::sensor::Value::interface;
    using Unit = sdbusplus::common::xyz::openbmc_project::sensor::Value::Unit;
    std::string hvKey;
    Value(sdbusplus::bus_t&, const char* p) : hvKey(p) { hv::served<Value>()[hvKey] = this; }
    virtual ~Value()
    {
        auto it = hv::served<Value>().find(hvKey);
        if (it != hv::served<Value>().end() && it->second == this)
            hv::served<Value>().erase(it);
    }
    virtual double value() const { return value_; }
    virtual double value(double v, bool skipSignal)
    {
        if (!skipSignal)
            valueSent = v;
        return value_ = v;
    }
    virtual double value(double v) { return value_ = valueSent = v; }
    double valueSent = 0; // as last announced by a signal
    virtual double maxValue() const { return maxValue_; }
    virtual double maxValue(double v, bool skipSignal)
    {
        if (!skipSignal)
            maxValueSent = v;
        return maxValue_ = v;
    }
    virtual double maxValue(double v) { return maxValue_ = maxValueSent = v; }
    double maxValueSent = 0; // as last announced by a signal
    virtual double minValue() const { return minValue_; }
    virtual double minValue(double v, bool skipSignal)
    {
        if (!skipSignal)
            minValueSent = v;
        return minValue_ = v;
    }
    virtual double minValue(double v) { return minValue_ = minValueSent = v; }
    double minValueSent = 0; // as last announced by a signal
    virtual Unit unit() const { return unit_; }
    virtual Unit unit(Unit v, bool skipSignal)
    {
        if (!skipSignal)
            unitSent = v;
        return unit_ = v;
    }
    virtual Unit unit(Unit v) { return unit_ = unitSent = v; }
    Unit unitSent = Unit::DegreesC; // as last announced by a signal
  private:
    double value_ = 0;
    double maxValue_ = 0;
    double minValue_ = 0;
    Unit unit_ = Unit::DegreesC;
};
} // namespace sdbusplus::xyz::openbmc_project::Sensor::server
