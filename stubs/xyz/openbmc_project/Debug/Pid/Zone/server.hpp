#pragma once
#include "hv/dbus.hpp"
#include "xyz/openbmc_project/Debug/Pid/Zone/common.hpp"
namespace sdbusplus::xyz::openbmc_project::Debug::Pid::server
{
class Zone
{
  public:
    static constexpr auto interface = sdbusplus::common::xyz::openbmc_project::debug::pid::Zone::interface;
    std::string hvKey;
    Zone(sdbusplus::bus_t&, const char* p) : hvKey(p) { hv::served<Zone>()[hvKey] = this; }
    virtual ~Zone()
    {
        auto it = hv::served<Zone>().find(hvKey);
        if (it != hv::served<Zone>().end() && it->second == this)
            hv::served<Zone>().erase(it);
    }
    virtual std::string leader() const { return leader_; }
    virtual std::string leader(std::string v, bool skipSignal)
    {
        if (!skipSignal)
            leaderSent = v;
        return leader_ = v;
    }
    virtual std::string leader(std::string v) { return leader_ = leaderSent = v; }
    std::string leaderSent = ""; // as last announced by a signal
  private:
    std::string leader_ = "";
};
} // namespace sdbusplus::xyz::openbmc_project::Debug::Pid::server
