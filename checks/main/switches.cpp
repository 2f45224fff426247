// What the daemon starts with: command line, files in /etc/thermal.d, and
// where the configuration comes from.
#include "config.h"

#include "common/clock.hpp"
#include "common/memfs.hpp"
#include "common/mockzone.hpp"
#include "common/util.hpp"
#include "conf.hpp"
#include "hv/dbus.hpp"
#include "pid/tuning.hpp"
#include "pid/zone_interface.hpp"
#include "sensors/manager.hpp"

#include <CLI/CLI.hpp>
#include <boost/asio.hpp>
#include <boost/asio/signal_set.hpp>
#include <boost/asio/steady_timer.hpp>
#include <nlohmann/json.hpp>

#include <filesystem>
#include <set>

using namespace pid_control;
using json = nlohmann::json;

extern boost::asio::io_context io;
extern boost::asio::signal_set signals;
int swampd_main(int argc, char** argv);

// --- the file system
static std::set<std::string> exists;
namespace std::filesystem
{
static file_status look(const path& p)
{
    bool e = ::exists.count(p.string());
    if (auto it = hv::files().find(p.string()); it != hv::files().end())
        e = it->second.present;
    return file_status(static_cast<file_type>(
        sym_ite_i(e, static_cast<int64_t>(file_type::regular),
                  static_cast<int64_t>(file_type::not_found))));
}
file_status status(const path& p)
{
    return look(p);
}
file_status status(const path& p, error_code& e) noexcept
{
    e.clear();
    return look(p);
}
file_status symlink_status(const path& p)
{
    return look(p);
}
file_status symlink_status(const path& p, error_code& e) noexcept
{
    e.clear();
    return look(p);
}
path current_path()
{
    return "/cwd";
}
path temp_directory_path()
{
    return "/tmp/dir";
}
} // namespace std::filesystem

// --- what is started
static std::vector<std::string> parsed;
static int inits = 0, started = 0;
static bool tuning, debugging, logging, core;
static std::string where;
namespace pid_control
{
namespace dbus_configuration
{
bool init(sdbusplus::bus_t&, boost::asio::steady_timer&,
          std::map<std::string, conf::SensorConfig>&,
          std::map<int64_t, conf::PIDConf>&,
          std::map<int64_t, conf::ZoneConfig>&)
{
    inits++;
    return true;
}
} // namespace dbus_configuration
SensorManager buildSensors(const std::map<std::string, conf::SensorConfig>&,
                           sdbusplus::bus_t& passive, sdbusplus::bus_t& host)
{
    return SensorManager{passive, host};
}
std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> buildZones(
    const std::map<int64_t, conf::PIDConf>&,
    std::map<int64_t, conf::ZoneConfig>&, SensorManager&, sdbusplus::bus_t&)
{
    started++;
    tuning = tuningEnabled;
    debugging = debugEnabled;
    logging = loggingEnabled;
    core = coreLoggingEnabled;
    where = loggingPath;
    std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> r;
    r[1] = std::make_shared<hv::MockZone>();
    return r;
}
void buildFailsafeLoggers(
    const std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>>&, size_t)
{}
std::map<std::string, conf::SensorConfig> buildSensorsFromJson(const json&)
{
    return {};
}
std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>>
    buildPIDsFromJson(const json&)
{
    return {};
}
} // namespace pid_control
json parseValidateJson(const std::string& p)
{
    parsed.push_back(p);
    return {};
}
static void daemon()
{
    hv::world().handler = [](hv::MsgData&, std::vector<hv::Val>&) {
        return false;
    };
    boost::asio::hvAsio().runHook = [](boost::asio::io_context&) {
        int n = 0;
        while (!io.stopped() && io.run_one())
            sym_assert(++n < 50, "the event loop is kept busy for ever");
    };
    char name[] = "swampd";
    char* argv[] = {name, nullptr};
    swampd_main(1, argv);
    sym_assert(started == 1, "the daemon does not start");
}

// where the configuration comes from
SYM_HARNESS(source)
{
    static const char* dirs[] = {"/cwd/config.json",
                                 "/var/lib/swampd/config.json",
                                 "/usr/share/swampd/config.json"};
    bool opt = sym_pick("-c", 2);
    bool there[3];
    for (int i = 0; i < 3; i++)
        hv::files()[dirs[i]].present = there[i] = sym_bool(dirs[i]);
    if (opt)
    {
        CLI::hvArgs().values["-c"] = "/etc/my.json";
        exists.insert("/etc/my.json");
    }
    // (others that do not count)
    exists.insert("/etc/thermal.d/config.json");
    exists.insert("/var/lib/config.json");
    daemon();
    auto from = [&](const char* f) {
        return inits == 0 && parsed.size() == 1 && parsed[0] == f;
    };
    if (opt)
        sym_assert(from("/etc/my.json"),
                   "the configuration is read from elsewhere");
    else
    {
        bool none = sym_not(sym_or(there[0], sym_or(there[1], there[2])));
        sym_assert(sym_iff(none, inits == 1 && parsed.empty()),
                   "without a file, the configuration is not the one on D-Bus");
        sym_assert(
            sym_and(
                sym_iff(there[0], from(dirs[0])),
                sym_and(
                    sym_iff(sym_and(sym_not(there[0]), there[1]), from(dirs[1])),
                    sym_iff(sym_and(sym_not(sym_or(there[0], there[1])),
                                    there[2]),
                            from(dirs[2])))),
            "the configuration is read from elsewhere");
    }
    std::set<std::string> names;
    for (auto& n : hv::world().names)
        names.insert(n);
    sym_assert(names == std::set<std::string>{"xyz.openbmc_project.Hwmon.external",
                                              "xyz.openbmc_project.State.FanCtrl"},
               "the names on D-Bus are others");
    bool zones = false;
    for (auto& m : hv::world().managers)
        zones |= m == "/xyz/openbmc_project/settings/fanctrl";
    sym_assert(zones, "the zones have no object manager");
    sym_reach("end");
}
// diagnostics
SYM_HARNESS(switches)
{
    auto& a = CLI::hvArgs();
    bool opt[3], file[3];
    static const char* flags[] = {"-t", "-d", "-g"};
    static const char* names[] = {"/etc/thermal.d/tuning",
                                  "/etc/thermal.d/debugging",
                                  "/etc/thermal.d/corelogging"};
    for (int i = 0; i < 3; i++)
    {
        a.flags[flags[i]] = opt[i] = sym_bool(flags[i]);
        hv::files()[names[i]].present = file[i] = sym_bool(names[i]);
    }
    bool l = sym_pick("-l", 2);
    if (l)
        a.values["-l"] = "/given";
    std::string dir = l ? "/given" : "/tmp/dir";
    exists.insert("/given");
    exists.insert("/tmp/dir");
    bool lf = true;
    auto& fs = hv::files();
    const std::string n = "/etc/thermal.d/logging";
    switch (sym_pick("logging", 6))
    {
        case 0:
            lf = false;
            break;
        case 1: // another place
            fs[n].data = "/alt\n/given\n";
            exists.insert("/alt");
            dir = "/alt";
            break;
        case 2: // that is not there
            fs[n].data = "/alt\n";
            break;
        case 3:
            fs[n].data = "";
            break;
        case 4:
            fs[n].data = "/alt";
            exists.insert("/alt");
            dir = "/alt";
            break;
        case 5:
            fs[n].data = "/alt";
            fs[n].readable = false;
            exists.insert("/alt");
            lf = false;
            break;
    }
    exists.insert("/var/lib/swampd/config.json");
    daemon();
    sym_assert(sym_iff(tuning, sym_or(opt[0], file[0])), "tuning is not as asked for");
    sym_assert(sym_iff(debugging, sym_or(opt[1], file[1])),
               "debugging is not as asked for");
    sym_assert(sym_iff(core, sym_or(opt[2], file[2])), "core logging is not as asked for");
    sym_assert(logging == (l || lf), "logging is not as asked for");
    if (logging || core)
        sym_assert(where == dir, "logs go elsewhere");
    sym_reach("end");
}
