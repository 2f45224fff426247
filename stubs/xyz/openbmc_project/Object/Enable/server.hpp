#pragma once
#include "hv/dbus.hpp"
#include "xyz/openbmc_project/Object/Enable/common.hpp"
namespace sdbusplus::xyz::openbmc_project::Object::server
{
class Enable
{
  public:
    static constexpr auto interface = sdbusplus::common::xyz::openbmc_project::object::Enable::interface;
    std::string hvKey;
    Enable(sdbusplus::bus_t&, const char* p) : hvKey(p) { hv::served<Enable>()[hvKey] = this; }
    virtual ~Enable()
    {
        auto it = hv::served<Enable>().find(hvKey);
        if (it != hv::served<Enable>().end() && it->second == this)
            hv::served<Enable>().erase(it);
    }
    virtual bool enabled() const { return enabled_; }
    virtual bool enabled(bool v, bool skipSignal)
    {
        if (!skipSignal)
            enabledSent = v;
        return enabled_ = v;
    }
    virtual bool enabled(bool v) { return enabled_ = enabledSent = v; }
    bool enabledSent = true; // as last announced by a signal
  private:
    bool enabled_ = true;
};
} // namespace sdbusplus::xyz::openbmc_project::Object::server
