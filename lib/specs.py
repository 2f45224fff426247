"""What is checked: for every property the harnesses, the repository sources
they are linked against, and the bounds."""
from driver import Prop, Run, Unit

CORE = ["pid/ec/pid.cpp", "pid/ec/logging.cpp", "pid/ec/stepwise.cpp",
        "pid/tuning.cpp", "pid/util.cpp"]
CTRL = CORE + ["pid/pidcontroller.cpp", "pid/thermalcontroller.cpp",
               "pid/fancontroller.cpp", "pid/stepwisecontroller.cpp"]
ZONE = ["pid/zone.cpp", "pid/pidloop.cpp", "pid/tuning.cpp",
        "sensors/manager.cpp", "failsafeloggers/failsafe_logger.cpp",
        "failsafeloggers/failsafe_logger_utility.cpp"]
PC = "checks/pid/core.cpp"
CC = "checks/pid/controllers.cpp"
ZC = "checks/zone/zone.cpp"
ZB = "checks/zone/build.cpp"
ZONES = CTRL + ["pid/builder.cpp", "pid/zone.cpp", "sensors/manager.cpp",
                "util.cpp", "failsafeloggers/failsafe_logger.cpp",
                "failsafeloggers/failsafe_logger_utility.cpp"]
DP = "checks/dbus/passive.cpp"
DW = "checks/dbus/write.cpp"
PASSIVE = ["dbus/dbuspassive.cpp", "dbus/dbuspassiveredundancy.cpp",
           "dbus/dbushelper.cpp", "dbus/dbusutil.cpp",
           "failsafeloggers/failsafe_logger_utility.cpp"]
SF = "checks/sensors/sysfs.cpp"
STREAMS = ("istream", "ifstream", "num_get", "basic_filebuf",
           "basic_streambuf", "basic_ios", "istreambuf_iterator",
           "__basic_file", "operator>>", "char_traits")
JF = "checks/config/json.cpp"
JSON = ["sensors/buildjson.cpp", "pid/buildjson.cpp",
        "buildjson/buildjson.cpp", "util.cpp"]
DC = "checks/config/dbus.cpp"
DBUSCONF = ["dbus/dbusconfiguration.cpp", "dbus/dbusutil.cpp",
            "dbus/dbushelper.cpp", "util.cpp", "pid/tuning.cpp"]
OSTREAMS = ("ostream", "operator<<", "basic_ios", "basic_streambuf",
            "num_put", "char_traits", "__ostream")
DG = "checks/zone/diag.cpp"
DIAG = ["pid/pidloop.cpp"] + ZONES
STUBBED = ("sdbusplus, boost::asio and phosphor-logging are replaced by the "
           "stand-ins under stubs/, which follow their documented behaviour")
IEEE = ("doubles are IEEE-754 binary64, round to nearest; obligations first "
        "go through a sound real-arithmetic relaxation and, where that is not "
        "conclusive, bit-exact floating point")


def R(name, bounds, reach=("end",), **kw):
    return Run(name, reach=reach, bounds=bounds, **kw)


DAEMON = """main.cpp pid/pidloop.cpp pid/tuning.cpp pid/ec/pid.cpp
pid/ec/logging.cpp pid/ec/stepwise.cpp pid/util.cpp pid/pidcontroller.cpp
pid/thermalcontroller.cpp pid/fancontroller.cpp pid/stepwisecontroller.cpp
pid/builder.cpp pid/zone.cpp pid/buildjson.cpp sensors/buildjson.cpp
buildjson/buildjson.cpp util.cpp sensors/builder.cpp sensors/build_utils.cpp
sensors/manager.cpp sensors/pluggable.cpp sensors/host.cpp
dbus/dbuspassive.cpp dbus/dbuspassiveredundancy.cpp dbus/dbuswrite.cpp
dbus/dbushelper.cpp dbus/dbusutil.cpp dbus/dbusconfiguration.cpp
sysfs/sysfsread.cpp sysfs/sysfswrite.cpp sysfs/util.cpp notimpl/readonly.cpp
notimpl/writeonly.cpp failsafeloggers/builder.cpp
failsafeloggers/failsafe_logger_utility.cpp""".split()

PROPS = [
    Prop("C01", [Unit(PC, CORE, [
        R("output_limits", "one step from an arbitrary state"),
        R("output_limits_history", "3 steps from start (4 thorough)")])],
        "one step from any controller state; histories of 3 steps (4 "
        "thorough); all coefficients, limits and readings symbolic",
        [IEEE]),
    Prop("C02", [Unit(PC, CORE, [
        R("integral_limits", "one step from an arbitrary state"),
        R("integral_visible", "2 steps from start")])],
        "one step from any state inside the limits, and the visible integral "
        "contribution over short histories", [IEEE]),
    Prop("C03", [Unit(PC, CORE, [
        R("slew", "one step from an arbitrary state"),
        R("slew_history", "3 steps from start")])],
        "one step from any state; histories of 3 steps", [IEEE]),
    Prop("C04", [Unit(PC, CORE, [
        R("law", "one step from an arbitrary state"),
        R("law_history", "2 steps from start (3 thorough)")])],
        "one step from any state, magnitudes up to 1e6; histories of 2 "
        "steps (3 thorough)", [IEEE, "equality up to relative 1e-6"]),
    Prop("C05", [Unit(CC, CTRL, [
        R("hysteresis", "4 readings (5 thorough), any band and setpoint"),
        R("hysteresis_setpoint", "3 readings (4 thorough)")])],
        "reading histories of 4 (5 thorough), values up to 1e9", [IEEE]),
    Prop("C06", [Unit(CC, CTRL, [
        R("stepwise_table", "tables of 1, 2, 3, 19 and 20 points"),
        R("stepwise_controller", "3 readings, hysteresis, ceiling or not"),
        R("stepwise_inputs", "1 to 3 inputs")])],
        "tables of 1,2,3,19,20 points with any increasing readings; histories "
        "of 3 readings; up to 3 inputs", [IEEE]),
    Prop("C07", [Unit(CC, CTRL, [
        R("thermal_input", "1 to 3 inputs, any doubles incl. NaN")])],
        "1 to 3 inputs per controller, any reading including NaN and "
        "infinities, all controller types", [IEEE]),
    Prop("C08", [Unit(CC, CTRL, [
        R("fan_input", "1 to 3 fans"),
        R("fan_setpoint", "histories of demands")])],
        "1 to 3 fans, any tach reading; demand histories of 3", [IEEE]),
    Prop("C09", [
        Unit(CC, CTRL, [R("fan_output", "1 to 2 fans, all mode combinations"),
                        R("fan_offline", "destruction, all modes")],
             defines={"STRICT_FAILSAFE_PWM": a, "OFFLINE_FAILSAFE_PWM": b})
        for a, b in ((0, 0), (1, 0), (0, 1), (1, 1))],
        "1 to 2 fans, any demand, every combination of failsafe, strict "
        "failsafe, tuning, redundant write and build option", [IEEE]),
    Prop("C10", [Unit(ZC, ZONE, [
        R("demand", "3 controllers, up to 4 requests, 0-2 ceilings, 2 cycles "
          "(3 thorough)"),
        R("demand_accumulate", "3 controllers in 2 profiles, any order")])],
        "3 controllers each enabled or disabled, up to 4 requests and 2 "
        "ceilings per cycle, 2 cycles (3 thorough), magnitudes up to 1e6; "
        "accumulation over non-negative requests", [IEEE, STUBBED]),
    Prop("C11", [Unit(ZC, ZONE, [
        R("failsafe_history", "1 fan, 2 temperatures, 2 updates (3 thorough)")])],
        "3 sensors, any readings (NaN and infinities included), any failure "
        "flag, age up to 100 s, timeout up to 20 s, update histories of 2 "
        "(3 thorough) from start-up", [IEEE, STUBBED]),
    Prop("C12", [Unit(ZC, ZONE, [
        R("failsafe_percent", "2 sensors shared by 3 controllers")])],
        "2 sensors shared in any way by 3 controllers, percentages 0..100",
        [IEEE, STUBBED]),
    Prop("C13", [Unit(ZC, ZONE, [
        R("manual_mode", "5 ticks (7 thorough), any switching")])],
        "every sequence of switching between 5 ticks (7 thorough)",
        [STUBBED]),
    Prop("C14", [Unit(ZC, ZONE, [
        R("loop_ratio", "6 ticks (9 thorough), cycle times 1..100000 ms"),
        R("loop_timing", "4 ticks, each late by up to 1000 s"),
        R("loop_cancel", "stop at any of 5 points in any of 3 ways",
          reach=("end", "never started", "stopped"))])],
        "cycle times 1..100000 ms, 6 ticks (9 thorough), lateness up to "
        "1000 s, stop at any tick", [STUBBED]),
    Prop("C15", [
        Unit(DP, PASSIVE, [
            R("status_initial", "4 sensor types, any initial properties"),
            R("status_history", "2 signals (3 thorough) of 8 kinds"),
            R("status_alarms", "4 alarm changes (5 thorough)")],
            defines={"UNC_FAILSAFE": u}) for u in (0, 1)] + [
        Unit(DP, PASSIVE, [
            R("status_missing", "absent or silent objects",
              reach=("missing", "silent"))],
            defines={"HANDLE_MISSING_OBJECT_PATHS": h}) for h in (0, 1)],
        "signal histories of 2 (3 thorough) with any reading, flags and "
        "alarms; 4 (5 thorough) alarm changes; all sensor types and the build "
        "options for missing objects and warning alarms", [IEEE, STUBBED]),
    Prop("C16", [Unit(DP, PASSIVE, [
        R("value", "2 signals (3 thorough), any limits, 3 scales")])],
        "readings and limits up to 1e9, integer or double, scales -3, 0, 2; "
        "signal histories of 2 (3 thorough); gaps up to 1000 s",
        [IEEE, STUBBED, "equality up to relative 1e-6"]),
    Prop("C17", [Unit(DP, PASSIVE, [
        R("redundancy", "2 groups, 2 events (3 thorough)"),
        R("redundancy_status", "any status text up to 8 (9) characters"),
        R("redundancy_silent", "objects that do not answer")])],
        "2 groups present or appearing later, 2 (3 thorough) events, every "
        "printable status text of up to 8 (9 thorough) characters", [STUBBED]),
    Prop("C18", [Unit(DW, ["dbus/dbushelper.cpp", "dbus/dbusutil.cpp",
                           "dbus/dbuswrite.cpp"], [
        R("write_percent", "3 demands (4 thorough), 4 pairs of limits"),
        R("write_raw", "3 demands (4 thorough)"),
        R("write_scale", "7 pairs of limits, any fraction"),
        R("write_absent", "object missing")])],
        "any demand; histories of 3 (4 thorough), each call failing or not, "
        "forced or not; 11 pairs of limits", [IEEE, STUBBED]),
    Prop("C19", [Unit(SF, ["sysfs/sysfsread.cpp", "sysfs/sysfswrite.cpp",
                           "sysfs/util.cpp"], [
        R("sysfs_read", "any number of up to 4 digits (5 thorough)"),
        R("sysfs_read_large", "4 groups of up to 100 numbers of up to 64 bits"),
        R("sysfs_history", "3 reads (4 thorough), 5 kinds of file content"),
        R("sysfs_write_percent", "any fraction, 3 pairs of limits"),
        R("sysfs_write", "any value below 300"),
        R("sysfs_write_wide", "17 raw values beyond 32 bits"),
        R("sysfs_wildcard", "paths with and without **, any tail of up to 2 "
          "letters"),
        R("sysfs_write_absent", "absent or read-only files")],
        transparent=STREAMS)],
        "file contents of up to 4 (5 thorough) digits with sign; 3 (4 "
        "thorough) reads of a file that changes, disappears or holds no "
        "number; demands with raw values up to 299 and around 5e9; paths with "
        "one wildcard directory",
        [IEEE, "the file system is an in-memory stand-in for the libstdc++ "
         "file layer; the stream and number parsing code is libstdc++'s own"]),
    Prop("C20", [Unit("checks/ipmi/mode.cpp", [
        "ipmi/main_ipmi.cpp", "ipmi/manualcmds.cpp", "ipmi/dbus_mode.cpp"], [
        R("ipmi_request", "any request of 0 to 6 bytes",
          reach=("short", "get", "set", "bad")),
        R("ipmi_sequence", "3 commands to 2 zones")])],
        "any request of up to 6 bytes, any state of the zone, D-Bus answering "
        "or not; sequences of 3 commands",
        [STUBBED, "the IPMI router is a stand-in"]),
    Prop("C21", [Unit(JF, JSON, [
        R("sensor", "any values, each optional attribute present or not"),
        R("controller", "any values, each optional attribute present or not"),
        R("stepwise", "tables of 0, 1, 2, 11, 19 and 20 points, with holes"),
        R("inputs", "0 to 3 inputs, 0 to 4 margins, 0 to 3 names"),
        R("zone", "2 zones, any values")], transparent=STREAMS)],
        "2 sensors, 2 controllers, 2 zones; every number symbolic (doubles up "
        "to 1e12, any 64-bit integer limits); optional attributes present one "
        "at a time, all or none",
        [IEEE, "documents are built with the JSON library's own interface"]),
    Prop("C22", [Unit(JF, JSON, [
        R("required", "each required key missing or of the wrong type"),
        R("validate", "0 to 2 sensors, 0 to 3 zones of 0 to 2 controllers"),
        R("file", "absent files, and a document with any character replaced "
          "by any printable one", reach=("absent", "accepted", "refused"))],
        transparent=STREAMS)],
        "documents with one required key missing or of the wrong type; up to "
        "2 sensors, 3 zones, 2 controllers per zone; a 59-character document "
        "with one character replaced",
        ["the JSON library's parser runs on concrete text: the replaced "
         "character is split into its values by the solver"]),
    Prop("C23", [Unit(DC, DBUSCONF, [
        R("pid_values", "any values, optional properties one, none or all"),
        R("pid_required", "each required property absent or mistyped"),
        R("pid_inputs", "1 to 3 inputs, 0 to 4 margins, 0 to 3 names"),
        R("stepwise", "tables of 0, 1, 2, 19, 20 and 21 points",
          reach=("end", "refused")),
        R("profiles", "3 profiles, any selection"),
        R("fans", "1 to 3 fans and outputs", reach=("end", "none", "refused")),
        R("offset", "2 inputs, 5 kinds of threshold",
          reach=("end", "refused")),
        R("pid_several", "5 sensors, a pattern, 1 or 2 zones"),
        R("missing", "3 inputs, any absent, any acceptable",
          reach=("end", "none")),
        R("failures", "7 failures", reach=("failed", "paused"))] + (
            [R("zones", "3 zones, any values and numbers")] if h == 0 else []),
        defines={"HANDLE_MISSING_OBJECT_PATHS": h}) for h in (0, 1)],
        "up to 3 zones, 2 controllers, 5 sensors and 3 fans; every number "
        "symbolic; both settings of the build option for missing objects",
        [IEEE, STUBBED, "the object mapper and the configuration services are "
         "stand-ins that answer with the objects of the harness"]),
    Prop("C24", [Unit(DC, DBUSCONF, [
        R("reload", "3 events (4 thorough) of 13 kinds, any gaps")])],
        "3 (4 thorough) events of 13 kinds with gaps of up to 5 s",
        [STUBBED]),
    Prop("C25", [Unit("checks/main/lifecycle.cpp", [
        "main.cpp", "pid/pidloop.cpp", "pid/tuning.cpp",
        "sensors/manager.cpp"], [
        R("schedule", "9 steps (11 thorough) of the event loop",
          reach=("running", "stopped")),
        R("hangup", "2 bursts (3 thorough) of up to 3 signals"),
        R("retry", "each stage failing, at start or at a reload",
          reach=("paused", "retried"))], flags=["-Dmain=swampd_main"])],
        "2 zones; up to 2 reloads and a stop in any order with 9 (11 "
        "thorough) steps of the event loop and timers; bursts of signals; "
        "one failing start",
        [STUBBED, "building sensors and zones is a stand-in; the event loop "
         "runs one handler at a time"]),
    Prop("C26", [Unit("checks/log/failsafe.cpp", [
        "failsafeloggers/failsafe_logger.cpp",
        "failsafeloggers/failsafe_logger_utility.cpp",
        "failsafeloggers/builder.cpp"], [
        R("logger", "4 events (5 thorough), gaps up to 3 s, any limit of 1, 2"),
        R("topology", "2 zones, 3 sensors")], transparent=OSTREAMS)],
        "4 (5 thorough) events with gaps of up to 3 s, limits of 1 and 2 "
        "lines a second; 2 zones sharing 3 sensors in any way",
        ["what is printed is caught behind std::cerr"]),
    Prop("C27", [Unit("checks/sensors/hoststate.cpp", [
        "sensors/pluggable.cpp", "sensors/host.cpp",
        "failsafeloggers/failsafe_logger.cpp",
        "failsafeloggers/failsafe_logger_utility.cpp"], [
        R("monitor", "any state of 6 at start, 2 events (3 thorough)"),
        R("pluggable", "3 events (4 thorough), any reading, failure, host"),
        R("external", "2 sensors, 3 events (4 thorough)")])],
        "6 host states, answered or not, changing while the daemon starts; 2 "
        "(3 thorough) signals; 3 (4 thorough) readings, demands, failures and "
        "host changes", [STUBBED]),
    Prop("C28", [Unit("checks/sensors/builder.cpp", [
        "sensors/builder.cpp", "sensors/build_utils.cpp",
        "sensors/manager.cpp", "sensors/pluggable.cpp", "sensors/host.cpp",
        "dbus/dbuspassive.cpp", "dbus/dbuspassiveredundancy.cpp",
        "dbus/dbuswrite.cpp", "dbus/dbushelper.cpp", "dbus/dbusutil.cpp",
        "sysfs/sysfsread.cpp", "sysfs/sysfswrite.cpp", "sysfs/util.cpp",
        "notimpl/readonly.cpp", "notimpl/writeonly.cpp",
        "failsafeloggers/failsafe_logger_utility.cpp"], [
        R("build", "6 types, 7 places to read from, 5 to write to",
          reach=("end", "refused", "unknown")),
        R("manager", "4 sensors (5 thorough) of 3 names")],
        defines={"HANDLE_MISSING_OBJECT_PATHS": h}, transparent=STREAMS)
        for h in (0, 1)],
        "one sensor of 6 types, read from 7 kinds of place and written to 5, "
        "before, between and after two others; any timeout, flags and "
        "reading; both settings of the build option for missing objects",
        [IEEE, STUBBED, "files are in memory"]),
    Prop("C29", [Unit(ZB, ZONES, [
        R("controller", "5 types, any one of 16 values symbolic, 3 cycles"),
        R("stepwise", "1 to 3 points, 3 cycles (4 thorough)"),
        R("zones", "2 zones alike, any settings"),
        R("failsafe", "2 controllers of 3 kinds (4 thorough), 3 sensors"),
        R("refuse", "5 configurations that cannot work",
          reach=("end", "refused"))])],
        "2 zones of 3 controllers; controllers of all types with any one "
        "value symbolic, or any readings, for 3 cycles (2 with any readings)",
        [IEEE, STUBBED, "sensors are recorders"]),
    Prop("C30", [Unit(ZB, ZONES, [
        R("published", "2 controllers of 4 types, 2 cycles")])],
        "2 controllers of 4 types, enabled or not, 2 cycles, any setpoint, "
        "minimum and readings, a sensor failing or unreadable",
        [IEEE, STUBBED, "sensors are recorders"]),
    Prop("C31", [Unit(DG, DIAG, [
        R("tuning", "2 passes, 8 kinds of file content, any demand"),
        R("tuning_number", "2 passes, any number of up to 4 digits"),
        R("tuning_zones", "2 zones, 3 kinds of file content")],
        transparent=STREAMS)],
        "2 passes with setpoint files coming, changing and going; numbers of "
        "up to 4 digits (6 thorough), 7 other kinds of content; any demand, "
        "minimum, ceiling and failsafe percentage; tuning on or off",
        [IEEE, STUBBED, "sensors are recorders, files are in memory"]),
    Prop("C32", [Unit(DG, DIAG, [
        R("neutral", "7 combinations, 4 events, 3 ticks (5 thorough)")],
        transparent=STREAMS)],
        "a zone of 8 controllers and 5 sensors over 3 ticks (5 thorough), any "
        "value of one sensor at up to 2 ticks, one failure, switch or manual "
        "phase; every combination of diagnostics, files writable or not",
        [IEEE, STUBBED, "sensors are recorders, files are in memory"]),
    Prop("C33", [Unit(DG, DIAG, [
        R("zonelog", "4 ticks (5 thorough), 2 fans, 3 sensors"),
        R("corelog", "3 computations (4 thorough), 6 names"),
        R("corelog_two", "2 controllers of 4 pairs of names")],
        transparent=STREAMS)],
        "4 ticks (5 thorough) of a zone with 2 fans and 3 sensors, any value "
        "of one of them; 3 computations (4 thorough) with gaps around the 60 "
        "seconds, any input; names that collide, files that cannot be written",
        [IEEE, STUBBED, "sensors are recorders, files are in memory",
         "numbers are compared to the 6 digits printed"]),
    Prop("C34", [Unit("checks/main/switches.cpp", [
        "main.cpp", "pid/pidloop.cpp", "pid/tuning.cpp",
        "sensors/manager.cpp"], [
        R("source", "8 sets of configuration files, -c or not"),
        R("switches", "all flags and files, 6 states of the logging file")],
        flags=["-Dmain=swampd_main"], transparent=STREAMS)],
        "every combination of switches and of their files, and of the places "
        "a configuration may be",
        [STUBBED, "the file system is in memory; building sensors and zones "
         "is a stand-in; CLI11 is a stand-in"]),
    Prop("C35", [Unit("checks/main/daemon.cpp", DAEMON, [
        R("history", "2 zones, 2 events of 13 kinds (3 thorough)")],
        flags=["-Dmain=swampd_main"], transparent=STREAMS)],
        "one configuration of 2 zones, 3 fans, 4 sensors on D-Bus, in files "
        "and external, 4 thermal controllers; up to 2 events of 13 kinds "
        "(3 thorough) with 3 to 6 cycles after each, any value written to the "
        "external sensor or read by the stepwise one, 4 values of the others",
        [IEEE, STUBBED, "files and D-Bus are in memory; CLI11 and Boost.Asio "
         "are stand-ins with a virtual clock"]),
]
