#pragma once
#include "hv/dbus.hpp"
#include "xyz/openbmc_project/Debug/Pid/ThermalPower/common.hpp"
namespace sdbusplus::xyz::openbmc_project::Debug::Pid::server
{
class ThermalPower
{
  public:
    static constexpr auto interface = sdbusplus::common::xyz::openbmc_project::debug::pid::ThermalPower::interface;
    std::string hvKey;
    ThermalPower(sdbusplus::bus_t&, const char* p) : hvKey(p) { hv::served<ThermalPower>()[hvKey] = this; }
    virtual ~ThermalPower()
    {
        auto it = hv::served<ThermalPower>().find(hvKey);
        if (it != hv::served<ThermalPower>().end() && it->second == this)
            hv::served<ThermalPower>().erase(it);
    }
    virtual double setpoint() const { return setpoint_; }
    virtual double setpoint(double v, bool skipSignal)
    {
        if (!skipSignal)
            setpointSent = v;
        return setpoint_ = v;
    }
    virtual double setpoint(double v) { return setpoint_ = setpointSent = v; }
    double setpointSent = 0; // as last announced by a signal
    virtual std::string classType() const { return classType_; }
    virtual std::string classType(std::string v, bool skipSignal)
    {
        if (!skipSignal)
            classTypeSent = v;
        return classType_ = v;
    }
    virtual std::string classType(std::string v) { return classType_ = classTypeSent = v; }
    std::string classTypeSent = ""; // as last announced by a signal
    virtual std::string leader() const { return leader_; }
    virtual std::string leader(std::string v, bool skipSignal)
    {
        if (!skipSignal)
            leaderSent = v;
        return leader_ = v;
    }
    virtual std::string leader(std::string v) { return leader_ = leaderSent = v; }
    std::string leaderSent = ""; // as last announced by a signal
    virtual double input() const { return input_; }
    virtual double input(double v, bool skipSignal)
    {
        if (!skipSignal)
            inputSent = v;
        return input_ = v;
    }
    virtual double input(double v) { return input_ = inputSent = v; }
    double inputSent = 0; // as last announced by a signal
    virtual double output() const { return output_; }
    virtual double output(double v, bool skipSignal)
    {
        if (!skipSignal)
            outputSent = v;
        return output_ = v;
    }
    virtual double output(double v) { return output_ = outputSent = v; }
    double outputSent = 0; // as last announced by a signal
  private:
    double setpoint_ = 0;
    std::string classType_ = "";
    std::string leader_ = "";
    double input_ = 0;
    double output_ = 0;
};
} // namespace sdbusplus::xyz::openbmc_project::Debug::Pid::server
