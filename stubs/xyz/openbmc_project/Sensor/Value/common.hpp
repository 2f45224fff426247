#pragma once
#include "hv/dbus.hpp"
namespace sdbusplus::common::xyz::openbmc_project::sensor
{
struct Value
{
    static constexpr auto interface = "xyz.openbmc_project.Sensor.Value";
    enum class Unit { Amperes, CFM, DegreesC, Joules, Meters, Percent, RPMS, Volts, Watts };
    struct namespace_path { static constexpr auto value = "/xyz/openbmc_project/sensors"; };
    struct property_names
    {
        static constexpr auto value = "Value";
        static constexpr auto max_value = "MaxValue";
        static constexpr auto min_value = "MinValue";
        static constexpr auto unit = "Unit";
    };
    struct method_names
    {
    };
};
} // namespace sdbusplus::common::xyz::openbmc_project::sensor
