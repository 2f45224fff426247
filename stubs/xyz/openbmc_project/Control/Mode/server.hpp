#pragma once
#include "hv/dbus.hpp"
#include "xyz/openbmc_project/Control/Mode/common.hpp"
namespace sdbusplus::xyz::openbmc_project::Control::server
{
class Mode
{
  public:
    static constexpr auto interface = sdbusplus::common::xyz::openbmc_project::control::Mode::interface;
    std::string hvKey;
    Mode(sdbusplus::bus_t&, const char* p) : hvKey(p) { hv::served<Mode>()[hvKey] = this; }
    virtual ~Mode()
    {
        auto it = hv::served<Mode>().find(hvKey);
        if (it != hv::served<Mode>().end() && it->second == this)
            hv::served<Mode>().erase(it);
    }
    virtual bool manual() const { return manual_; }
    virtual bool manual(bool v, bool skipSignal)
    {
        if (!skipSignal)
            manualSent = v;
        return manual_ = v;
    }
    virtual bool manual(bool v) { return manual_ = manualSent = v; }
    bool manualSent = false; // as last announced by a signal
    virtual bool failSafe() const { return failSafe_; }
    virtual bool failSafe(bool v, bool skipSignal)
    {
        if (!skipSignal)
            failSafeSent = v;
        return failSafe_ = v;
    }
    virtual bool failSafe(bool v) { return failSafe_ = failSafeSent = v; }
    bool failSafeSent = false; // as last announced by a signal
  private:
    bool manual_ = false;
    bool failSafe_ = false;
};
} // namespace sdbusplus::xyz::openbmc_project::Control::server
