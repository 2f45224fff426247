"""The text of the properties (properties.jsonl) and of the checks' notes
(MANIFEST.json); tools/gen.py writes both files."""


def P(title, statement, over, quant, why, files, mech, note, state=(),
      observe=()):
    return {"title": title, "statement": statement, "over": over,
            "quant": quant, "why": why, "files": files,
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "note": note,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "observe": list(observe)}


T = {}

T["C01"] = P(
    "The computed control output never leaves the configured output limits",
    "Every value a PID computation returns lies between the configured minimum "
    "and maximum output, whatever the readings, setpoints, coefficients, slew "
    "settings and preceding steps were.",
    ["inputs", "histories", "configurations"],
    "all finite coefficients, limits (min <= max), slew rates, readings and "
    "setpoints, from every controller state reachable in any number of steps",
    "The unit tests run a few hand-picked coefficient sets for one or two "
    "steps; the interaction of slew limiting, integral back-calculation and "
    "clamping is a statement about all reals and all histories.",
    ["pid/ec/pid.cpp", "pid/ec/pid.hpp", "pid/util.cpp"],
    [("clamping of the output", "pid/ec/pid.cpp: pid()"),
     ("slew limiting relative to the last output", "pid/ec/pid.cpp: pid()")],
    "Bounded only by magnitude (1e12): one step from an arbitrary state under "
    "the stated invariant, so any history length; limits must satisfy "
    "min <= max.",
    [("lastOutput", "previous output, inside the limits once initialised",
      "pid/ec/pid.hpp: pid_info_t")], ["return value of the PID computation"])
T["C02"] = P(
    "The integral term never winds up past its configured limits",
    "After every PID step the accumulated integral lies within the configured "
    "integral limits, and the part of the output that stems from it is bounded "
    "accordingly, for any history of errors and any slew limiting.",
    ["inputs", "histories", "configurations"],
    "all coefficient sets and limits, from every state whose integral is "
    "inside the limits (inductive), plus two-step histories from start-up",
    "Wind-up only shows over long histories or when slew limiting rewrites the "
    "integral; the tests never combine the two.",
    ["pid/ec/pid.cpp", "pid/ec/pid.hpp", "pid/util.cpp"],
    [("clamp of the integral, twice", "pid/ec/pid.cpp: pid()")],
    "One inductive step over all states plus the visible contribution over "
    "two steps; magnitudes up to 1e12.",
    [("integral", "accumulated integral term", "pid/ec/pid.hpp: pid_info_t")])
T["C03"] = P(
    "The output changes no faster than the configured slew rates",
    "Between two consecutive PID steps the output rises by at most the positive "
    "slew rate times the sample time and falls by at most the negative one, "
    "and a rate of zero means unlimited; the first step is not slewed.",
    ["inputs", "histories", "configurations"],
    "all slew rates, limits, readings, and every controller state; histories "
    "of three steps from start-up",
    "Slewing depends on the previous output, so it is a property of step "
    "sequences over reals; the tests check single fixed numbers.",
    ["pid/ec/pid.cpp", "pid/ec/pid.hpp"],
    [("slew limiting", "pid/ec/pid.cpp: pid()")],
    "One step from any state and three-step histories; magnitudes up to 1e12, "
    "tolerance relative 1e-6 of the terms involved.")
T["C04"] = P(
    "The output follows the configured PID law with feed-forward",
    "Within the output limits and slew rates, every output equals proportional "
    "plus accumulated integral plus derivative plus feed-forward of the "
    "configured coefficients applied to the error between setpoint and "
    "reading, and the state carried to the next step is the one that law "
    "needs.",
    ["inputs", "histories", "configurations"],
    "all coefficients, sample times, readings, setpoints and prior states up "
    "to 1e6; histories of two steps (three in the thorough tier)",
    "A test compares a handful of numbers; a swapped sign, a dropped term or a "
    "stale state variable only matters for particular combinations of "
    "coefficients and history.",
    ["pid/ec/pid.cpp", "pid/ec/pid.hpp", "pid/util.cpp"],
    [("the law", "pid/ec/pid.cpp: pid()"),
     ("configuration copied to the controller", "pid/util.cpp: initializePIDStruct()")],
    "Equality up to relative 1e-6 with an independently written law, for one "
    "step from any state and short histories; magnitudes up to 1e6.")
T["C05"] = P(
    "Hysteresis: small changes of a reading do not move the output",
    "A controller works on the last accepted reading and accepts a new one only "
    "when it rises by more than the positive or falls by more than the negative "
    "hysteresis; when hysteresis is measured against the setpoint, the output "
    "is held between the two bands, recomputed above and reset to zero below.",
    ["inputs", "histories", "configurations"],
    "every sequence of four readings (five in the thorough tier), every band, "
    "setpoint and both modes",
    "Hysteresis is a statement about reading histories around real-valued "
    "bands; the tests use one band and a couple of readings.",
    ["pid/pidcontroller.cpp", "pid/pidcontroller.hpp", "pid/thermalcontroller.cpp"],
    [("plain hysteresis", "pid/pidcontroller.cpp: calPIDOutput()/process()"),
     ("setpoint hysteresis", "pid/pidcontroller.cpp: calPIDOutput()")],
    "All readings up to 1e9 over histories of 4 (5) passes of a real thermal "
    "controller.")
T["C06"] = P(
    "Stepwise controllers return the configured step with hysteresis",
    "A stepwise controller asks for the output of the highest configured point "
    "at or below its hottest input (the first point's output below all of "
    "them), moves only when the input leaves the hysteresis band, and delivers "
    "the result either as one request or as one ceiling, never both.",
    ["inputs", "histories", "configurations"],
    "all increasing tables of 1, 2, 3, 19 and 20 points, any input, reading "
    "histories of three passes, one to three inputs",
    "The boundary of each step, an entirely filled table and the unused tail of "
    "a table are corner cases over reals that sampled tests do not cover.",
    ["pid/ec/stepwise.cpp", "pid/stepwisecontroller.cpp", "pid/stepwisecontroller.hpp"],
    [("table lookup", "pid/ec/stepwise.cpp: stepwise()"),
     ("hysteresis, routing to request or ceiling",
      "pid/stepwisecontroller.cpp: process()/outputProc()")],
    "All tables of the listed sizes with any readings and outputs; histories of "
    "3 (4) passes.")
T["C07"] = P(
    "Thermal controllers act on the governing input",
    "A temperature controller acts on its highest usable input, a margin "
    "controller on its lowest (after converting temperatures that have a "
    "margin zero), a sum controller on the sum; unusable readings are ignored "
    "and if none is usable the controller sees its own setpoint, i.e. no error.",
    ["inputs", "configurations"],
    "one to three inputs (four in the thorough tier), any double as reading "
    "including NaN and infinities, any subset with margin conversion, all "
    "controller types",
    "The tests use at most two fixed finite inputs; NaN and infinity in any "
    "position, negative sums and conversions in any combination need all "
    "values.",
    ["pid/thermalcontroller.cpp", "pid/thermalcontroller.hpp"],
    [("input selection", "pid/thermalcontroller.cpp: inputProc()")],
    "All doubles for up to 3 (4) inputs; result compared with an independent "
    "selection up to relative 1e-6.")
T["C08"] = P(
    "Fan controllers follow the zone's demand using the slowest turning fan",
    "A fan controller takes as its input the slowest fan that reports a "
    "positive finite speed (zero if none does) and as its setpoint the zone's "
    "current demand, on every pass, and writes every fan of its group exactly "
    "once.",
    ["inputs", "histories"],
    "one to three fans (four thorough) with any tach value including NaN, "
    "infinite and negative ones; demand histories of three passes",
    "Dead, missing and negative tachs in any position, and demands that change "
    "between passes, are not sampled by the tests.",
    ["pid/fancontroller.cpp", "pid/fancontroller.hpp", "pid/pidcontroller.cpp"],
    [("tach selection", "pid/fancontroller.cpp: inputProc()"),
     ("setpoint", "pid/fancontroller.cpp: setptProc()")],
    "All tach values for up to 3 (4) fans; histories of 3 demands.")
T["C09"] = P(
    "In failsafe no fan is driven below the failsafe duty",
    "Each pass drives every fan of the group at the computed duty, raised to "
    "the zone's failsafe duty while the zone is in failsafe (replaced by it in "
    "a strict build, untouched in tuning mode), forwards the zone's "
    "rewrite request, and records what was commanded; a build that asks for it "
    "leaves the fans at the failsafe duty when the loop is torn down.",
    ["inputs", "histories", "configurations"],
    "any computed output and failsafe duty, every combination of failsafe, "
    "tuning, debug and redundant write over three passes, one or two fans, "
    "all four build configurations",
    "The tests cover one output below the failsafe duty in one build; the build "
    "options and mode combinations are never compiled together.",
    ["pid/fancontroller.cpp", "pid/fancontroller.hpp", "meson.options"],
    [("failsafe override", "pid/fancontroller.cpp: outputProc()"),
     ("duty at destruction", "pid/fancontroller.cpp: ~FanController()")],
    "All outputs and duties up to 1e9 in all mode and build combinations.")
T["C10"] = P(
    "Zone demand: highest enabled request, capped by ceilings, never below minimum",
    "After each thermal pass the zone's fan demand is the highest request made "
    "in that pass by an enabled controller (requests of the same profile added "
    "up when accumulation is configured), limited by the lowest ceiling set in "
    "that pass and never below the zone's minimum; the advertised leader is "
    "who caused it.",
    ["inputs", "histories", "configurations"],
    "three controllers each enabled or disabled, up to four requests in any "
    "relation, up to two ceilings, any minimum, over two passes (three in the "
    "thorough tier)",
    "Which request wins depends on all relative orders of requests, ceilings, "
    "minimum and on leftovers of the pass before; the tests try a few.",
    ["pid/zone.cpp", "pid/zone.hpp"],
    [("collecting requests", "pid/zone.cpp: addSetPoint(), addRPMCeiling()"),
     ("combination", "pid/zone.cpp: determineMaxSetPointRequest()"),
     ("disabled controllers", "pid/zone.cpp: isPidProcessEnabled()")],
    "All real requests up to 1e6 for 3 controllers, 2 (3) passes; accumulation "
    "checked for non-negative requests (a negative contribution after a larger "
    "partial sum is outside the claim).")
T["C11"] = P(
    "A zone is in failsafe exactly while a required sensor is bad or unread",
    "From start-up a zone is in failsafe until every sensor whose absence is "
    "not declared acceptable has been read as good, and from then on exactly "
    "while at least one such sensor reports failure or its last update is at "
    "least its timeout old; the values controllers see are the latest "
    "readings, and the mode is what clients are told.",
    ["inputs", "histories", "fault_sequences", "configurations"],
    "one fan and two temperatures with any readings, failure flags, ages up to "
    "100 s and timeouts up to 20 s, over any order of updates",
    "Failing, timing out and recovering in every interleaving with fan and "
    "thermal updates is a history property; tests check single transitions.",
    ["pid/zone.hpp", "pid/zone.cpp"],
    [("start-up", "pid/zone.cpp: initializeCache()"),
     ("tracking", "pid/zone.hpp: processSensorInputs()"),
     ("marking", "pid/zone.cpp: markSensorMissing()")],
    "Histories of 2 (3) updates over 3 sensors from start-up; every value of "
    "readings, flags, ages and timeout in the stated ranges.",
    [("failsafe set", "sensors currently bad, with their duty", "pid/zone.hpp")])
T["C12"] = P(
    "The failsafe duty is the highest one configured for the bad sensors",
    "While a zone is in failsafe its duty is the highest failsafe percentage of "
    "the sensors that are bad, where a sensor used by several controllers "
    "carries the highest of theirs and a sensor without one carries the "
    "zone's; otherwise it is the zone's.",
    ["inputs", "configurations"],
    "two sensors shared in any way by three controllers, all percentages "
    "0..100, any subset bad",
    "Sharing, order of registration and zero percentages interact; the tests "
    "use one arrangement of constants.",
    ["pid/zone.cpp", "pid/zone.hpp"],
    [("registration", "pid/zone.cpp: addPidFailSafePercent()"),
     ("selection", "pid/zone.cpp: getFailSafePercent(), markSensorMissing()")],
    "All percentages 0..100 for 2 sensors and 3 controllers.")
T["C13"] = P(
    "Manual mode is hands-off, and leaving it restores the fans once",
    "While a zone is in manual mode the daemon neither reads its sensors nor "
    "runs its controllers nor writes its fans; on the first automatic pass "
    "after manual mode was switched off, and only then, the fan outputs are "
    "written even if unchanged.",
    ["histories", "schedules"],
    "every sequence of switching manual mode on, off or not at all between the "
    "ticks of the control loop (5 ticks, 7 in the thorough tier)",
    "This is about sequences of mode switches interleaved with loop ticks; the "
    "tests look at a single switch without the loop.",
    ["pid/zone.cpp", "pid/pidloop.cpp", "ipmi.md"],
    [("switching", "pid/zone.cpp: setManualMode(), manual()"),
     ("skipping the pass", "pid/pidloop.cpp: pidControlLoop()"),
     ("forced pass", "pid/zone.cpp: processFans()")],
    "All switch sequences over 5 (7) ticks through the served D-Bus property "
    "and the real loop.")
T["C14"] = P(
    "The control loop keeps its configured rhythm and stops when told",
    "After an initial failsafe start and thermal pass, fan passes are due at "
    "exact multiples of the configured interval however late each one runs, "
    "thermal passes happen at the configured ratio and always as read, forget "
    "old requests, compute, combine; once stopped the loop does no further "
    "work.",
    ["schedules", "configurations", "histories"],
    "every pair of cycle times 1..100000 ms over six ticks, lateness up to "
    "1000 s per tick, stopping at any tick in any of three ways",
    "The ratio and drift are arithmetic over all cycle-time pairs and delays; "
    "no test runs the loop.",
    ["pid/pidloop.cpp", "pid/pidloop.hpp"],
    [("rescheduling and ratio", "pid/pidloop.cpp: pidControlLoop()"),
     ("order of a pass", "pid/pidloop.cpp: processThermals()")],
    "All cycle times in range over 6 (9) ticks; the real loop on a simulated "
    "timer.")

T["C15"] = P(
    "A D-Bus sensor counts as failed exactly when something says so",
    "A sensor read from D-Bus counts as failed exactly while its last reading "
    "was not a number, a margin sensor is at or below zero, one of its critical "
    "(or, if built so, warning) alarms is asserted, it is unavailable, not "
    "functional, or missing - except that an unavailable non-fan sensor is "
    "excused when so configured - and the reason reported is one that holds.",
    ["histories", "inputs", "configurations"],
    "every order of value, availability, functional and alarm signals (2, 3 "
    "thorough; alarms 4, 5), any readings and flags, any initial properties, "
    "every sensor type and build option",
    "Alarms, availability and readings arrive as independent signals in any "
    "order; the tests call the handler with single hand-made messages.",
    ["dbus/dbuspassive.cpp", "dbus/dbuspassive.hpp"],
    [("set-up", "dbus/dbuspassive.cpp: createDbusPassive(), DbusPassive()"),
     ("signals", "dbus/dbuspassive.cpp: handleSensorValue()"),
     ("judgement", "dbus/dbuspassive.cpp: getFailed(), getFailReason()")],
    "Histories of signals on the bus stand-in through the real match callback.",
    [("sensor status", "flags last heard of the sensor",
      "dbus/dbuspassive.hpp")])
T["C16"] = P(
    "A D-Bus sensor reports its last good value, scaled, with its true age",
    "read() of a D-Bus sensor returns the last number the sensor announced, "
    "unscaled (times ten to the Scale) and as fraction of its MinValue and "
    "MaxValue where these span a range and are not ignored, stamped with the "
    "time it arrived; announcements without a number do not refresh it, and an "
    "unavailable sensor has no value.",
    ["inputs", "histories", "configurations"],
    "any readings and limits up to 1e9 in magnitude as doubles or integers, "
    "three scales, histories of 2 (3) signals at any times",
    "Scaling, typing and staleness hold for all numbers and orders of signals; "
    "the tests use a handful of constants.",
    ["dbus/dbuspassive.cpp", "dbus/dbusutil.cpp", "dbus/dbushelper.cpp",
     "util.hpp"],
    [("set-up", "dbus/dbushelper.cpp: getProperties()"),
     ("signals", "dbus/dbuspassive.cpp: handleSensorValue(), updateValue()"),
     ("scaling", "dbus/dbusutil.cpp: scaleSensorReading()")],
    "All readings and limits in range over histories of 2 (3) signals.")
T["C17"] = P(
    "Fans of a failed redundancy group, and only those, count as failed",
    "The fans marked failed are at any time the members of those redundancy "
    "groups whose last reported status is Failed, whether the group was "
    "present at start-up or announced later, and a fan sensor counts as failed "
    "while its fan is marked.",
    ["histories", "inputs"],
    "two groups, present at start-up or not, 2 (3) status reports of any kind, "
    "any printable status text up to 8 (9) characters, and groups that do not "
    "answer",
    "Marking is accumulated over reports of several groups; no test covers this "
    "class.",
    ["dbus/dbuspassiveredundancy.cpp", "dbus/dbuspassive.cpp"],
    [("reports", "dbus/dbuspassiveredundancy.cpp: DbusPassiveRedundancy()"),
     ("start-up", "dbus/dbuspassiveredundancy.cpp: populateFailures()")],
    "Histories of 2 (3) events; groups without common members.")
T["C18"] = P(
    "A fan on D-Bus is set to each new demand exactly once",
    "Writing a demand to a fan on D-Bus sets its Target to the demand's raw "
    "value - for percentages the fraction of the way from the minimum to the "
    "maximum, rounded down - unless that is what the fan was last successfully "
    "set to and the write is not forced, and reports that raw value.",
    ["inputs", "histories", "faults"],
    "any demand, histories of 3 (4) writes, forced or not, each D-Bus call "
    "failing or not, eleven pairs of limits",
    "Suppression depends on the history of successful writes and holds for "
    "every demand; the tests write one value once.",
    ["dbus/dbuswrite.cpp"],
    [("percent", "dbus/dbuswrite.cpp: DbusWritePercent::write()"),
     ("raw", "dbus/dbuswrite.cpp: DbusWrite::write()")],
    "All demands over histories of 3 (4) writes with failures.")

T["C19"] = P(
    "Sensor and fan files are read and written faithfully, or count as failed",
    "A sensor file's reading is the decimal number it holds at that time; while "
    "the file is missing, unreadable or holds no number the reading is no "
    "number and the sensor counts as failed. Setting a fan replaces its file's "
    "content with the demand's raw value (percentages: the fraction of the way "
    "from minimum to maximum) rounded down, and touches nothing else.",
    ["inputs", "histories", "faults"],
    "any number of up to 4 (5) digits, histories of 3 (4) reads with files "
    "disappearing and returning, any demand with raw value up to 299",
    "Every number and demand counts, and files vanish at any time; the tests do "
    "not cover these classes at all.",
    ["sysfs/sysfsread.cpp", "sysfs/sysfswrite.cpp"],
    [("reading", "sysfs/sysfsread.cpp: SysFsRead::read()"),
     ("writing", "sysfs/sysfswrite.cpp: SysFsWritePercent::write(), "
      "SysFsWrite::write()")],
    "All file contents and demands in range over an in-memory file system.")

T["C20"] = P(
    "The IPMI mode command reads and sets exactly the zone it names",
    "An OEM fan-mode request reads a zone's manual or failsafe state, or sets "
    "its manual mode, on exactly the zone it names (0..255), replies with that "
    "state, and succeeds only if the daemon answered; truncated or unknown "
    "requests fail without touching any zone.",
    ["inputs", "faults", "histories"],
    "every request of 0 to 6 bytes with every value, any state of the zone, "
    "D-Bus answering or failing; sequences of 3 commands",
    "All lengths, zones and values of a request count, and nothing tests the "
    "command.",
    ["ipmi/manualcmds.cpp", "ipmi/dbus_mode.cpp", "ipmi/main_ipmi.cpp",
     "ipmi.md"],
    [("dispatch", "ipmi/manualcmds.cpp: manualModeControl()"),
     ("reading", "ipmi/dbus_mode.cpp: getFanCtrlProperty()"),
     ("setting", "ipmi/dbus_mode.cpp: setFanCtrlProperty()")],
    "All requests of up to 6 bytes, decided through the registered handler.")
T["C21"] = P(
    "A JSON configuration is taken over exactly as written, or by default",
    "Every sensor, controller and zone of a JSON configuration ends up with "
    "exactly the values written for it - limits, coefficients, tables, inputs "
    "with their own margin and missing-is-acceptable mark, cycle times of at "
    "least 1 ms - and with the documented default for what is left out; "
    "minimum and maximum apply to fans only.",
    ["inputs", "configurations"],
    "any numbers, with optional attributes present or absent, stepwise tables "
    "up to 20 points with holes, 0 to 3 inputs and margins, two zones in any "
    "order",
    "A swapped coefficient or default shows only for particular combinations of "
    "values and absent keys; tests assert two or three constants.",
    ["sensors/buildjson.cpp", "pid/buildjson.cpp", "util.cpp", "conf.hpp"],
    [("sensors", "sensors/buildjson.cpp: from_json()"),
     ("controllers", "pid/buildjson.cpp: from_json()"),
     ("zones", "pid/buildjson.cpp: buildPIDsFromJson()"),
     ("inputs", "util.cpp: spliceInputs()")],
    "All values symbolic through the real JSON library.")
T["C22"] = P(
    "An incomplete or broken JSON configuration is refused",
    "A configuration file that cannot be read or parsed, or that lacks "
    "sensors, zones or the controllers of a zone, or a key that has no "
    "default, or has a value of the wrong type for it, is refused with an "
    "error; a complete one is not.",
    ["inputs", "faults"],
    "each required key missing or mistyped, all shapes up to 2 sensors, 3 zones "
    "and 2 controllers, absent files, and any one character of a document "
    "replaced by any printable one",
    "Any key may be the one that is missing; tests cover four documents.",
    ["buildjson/buildjson.cpp", "pid/buildjson.cpp", "sensors/buildjson.cpp"],
    [("shape", "buildjson/buildjson.cpp: validateJson()"),
     ("file", "buildjson/buildjson.cpp: parseValidateJson()"),
     ("keys", "pid/buildjson.cpp, sensors/buildjson.cpp")],
    "All documents of the stated shapes.")

T["C23"] = P(
    "Entity-Manager configuration is taken over exactly, or refused",
    "From the objects on D-Bus the daemon builds exactly the zones, "
    "controllers and sensors that the selected profiles configure, with "
    "exactly the values given or the documented defaults; each controller "
    "goes into each of its zones, inputs get the sensors that fit their "
    "names, each fan is paired with its own output, and incomplete or "
    "inconsistent configuration is refused.",
    ["inputs", "configurations", "faults"],
    "any numbers with optional properties present or absent, any profile "
    "selection, any subset of sensors present, up to 3 zones and 3 fans, "
    "patterns, threshold offsets, and services that do not answer",
    "Which coefficient, sensor or zone ends up where depends on what is "
    "present and in which order it is found; no test covers the D-Bus "
    "configuration.",
    ["dbus/dbusconfiguration.cpp", "dbus/dbusutil.cpp", "util.cpp",
     "configure.md"],
    [("reading the objects", "dbus/dbusconfiguration.cpp: init()"),
     ("controllers", "dbus/dbusconfiguration.cpp: populatePidInfo()"),
     ("profiles", "dbus/dbusconfiguration.cpp: getSelectedProfiles(), "
      "getProfiles callers"),
     ("zone numbers", "dbus/dbusconfiguration.cpp: setZoneIndex()"),
     ("matching of names", "dbus/dbusutil.cpp: findSensors()")],
    "All values symbolic through the real D-Bus configuration code.")
T["C24"] = P(
    "A burst of configuration changes leads to one reload, 2 s after the last",
    "When configuration, the thermal mode or a sensor appears or changes on "
    "D-Bus, the control loops are rebuilt exactly once, two seconds after the "
    "last such change, and never for anything else, however changes are "
    "spaced and however often the configuration was loaded before.",
    ["schedules", "histories"],
    "all sequences of 3 (4 thorough) relevant and irrelevant signals with any "
    "gaps up to 5 s",
    "A lost, early or duplicate reload depends on the order and spacing of "
    "signals; nothing tests it.",
    ["dbus/dbusconfiguration.cpp"],
    [("deferral", "dbus/dbusconfiguration.cpp: eventHandler(), createMatches()"),
     ("restart", "main.cpp: tryRestartControlLoops()")],
    "All signal sequences within the bounds, with symbolic gaps.")
T["C25"] = P(
    "Start, reload and stop never mix two configurations or lose control",
    "Whatever order reloads, signals and timers come in, sensors and zones are "
    "only replaced once every old zone has stopped, no old zone works with new "
    "sensors, each zone of the latest configuration is then controlled once "
    "per interval, a failed start is tried again ten seconds later, SIGHUP "
    "reloads a second later, and SIGTERM ends the daemon.",
    ["schedules", "faults", "histories"],
    "all orders of 9 (11 thorough) handlers, timers, reloads and a stop with "
    "two zones; every stage of a start failing",
    "A zone left running on freed sensors or a lost reload needs a particular "
    "interleaving of timers and handlers; main.cpp is not tested.",
    ["main.cpp", "pid/pidloop.cpp"],
    [("stopping", "main.cpp: stopControlLoops(), pid/pidloop.cpp"),
     ("restarting", "main.cpp: restartControlLoops(), "
      "tryRestartControlLoops()"),
     ("signals", "main.cpp: main()")],
    "All schedules within the bounds, through the real main().")
T["C26"] = P(
    "Failsafe changes are logged for exactly the zones concerned, not flooded",
    "Entering and leaving failsafe mode and every new reason for it is logged "
    "with zone, place and reason for exactly the zones that use the sensor, "
    "each event once until the state changes, and never more lines per second "
    "than allowed, for any sequence and spacing of events.",
    ["histories", "schedules", "configurations"],
    "all sequences of 4 (5 thorough) events with any gaps up to 3 s; two zones "
    "sharing three sensors in any way, rebuilt once",
    "The limit and the repetition filter depend on spacing and order; tests "
    "use real waits for a handful of sequences.",
    ["failsafeloggers/failsafe_logger.cpp",
     "failsafeloggers/failsafe_logger_utility.cpp",
     "failsafeloggers/builder.cpp"],
    [("filter and limit", "failsafeloggers/failsafe_logger.cpp: "
      "outputFailsafeLog()"),
     ("zones of a sensor", "failsafeloggers/failsafe_logger_utility.cpp")],
    "All event sequences within the bounds.")
T["C27"] = P(
    "Sensor failures are excused only where configured and while the host is off",
    "A failed sensor counts as healthy exactly when it is configured to ignore "
    "failures while the host is off and the host, as last announced on D-Bus, "
    "is not running (nor known to be); any other failure stands, and readings, reasons and "
    "demands pass through a sensor unchanged.",
    ["inputs", "histories", "schedules"],
    "all histories of 3 (4 thorough) readings, failures, demands and host "
    "state changes, from any initial state, including a change while the "
    "daemon starts",
    "A missed host state change leaves real failures excused, or puts fans to "
    "failsafe when they need not be; nothing tests the monitor.",
    ["hoststatemonitor.hpp", "sensors/host.cpp", "sensors/pluggable.cpp"],
    [("host state", "hoststatemonitor.hpp: handleStateChange(), "
      "getInitialState()"),
     ("excuse", "sensors/host.cpp, dbus/dbuspassive.cpp: getFailed()")],
    "All histories within the bounds.")
T["C28"] = P(
    "Each sensor reads from and writes to exactly what it is configured with",
    "Every configured fan, temperature, margin and power sensor is built under "
    "its own name, timeout and failure setting; it reads the D-Bus object, "
    "file or external value of its readPath, scaled as configured, and a "
    "fan's demand goes to its writePath within its limits and nowhere else; a "
    "configured D-Bus object that is absent stops the start or counts as "
    "failed.",
    ["configurations", "inputs"],
    "all combinations of 6 types, 7 places to read from, 5 to write to, 3 "
    "limits, flags, timeouts, readings and demands, among two other sensors",
    "A sensor wired to the wrong place, scale or timeout drives the wrong fan; "
    "the builder is not tested.",
    ["sensors/builder.cpp", "sensors/manager.cpp", "sensors/build_utils.cpp",
     "sensors/pluggable.cpp", "notimpl/readonly.cpp", "notimpl/writeonly.cpp"],
    [("builder", "sensors/builder.cpp: buildSensors()"),
     ("kinds of path", "sensors/build_utils.cpp: getWriteInterfaceType()"),
     ("lookup", "sensors/manager.cpp, sensors/manager.hpp: getSensor()")],
    "All combinations within the bounds, with symbolic values.")
T["C29"] = P(
    "Zones and controllers work with exactly the values they are configured with",
    "Every configured controller works in its own zone with its own type, "
    "inputs, conversions, setpoint and PID or stepwise values; each zone has "
    "its own minimum, cycle times, accumulation and failsafe percentages, "
    "listed on D-Bus under its own number; nothing in one zone drives, "
    "disables or puts to failsafe another; and a configuration that cannot "
    "work is refused as a whole.",
    ["configurations", "inputs", "histories"],
    "all 5 types and every configurable value of a controller, symbolic; two "
    "zones alike in everything but their symbolic settings, sharing sensors or "
    "not; 3 cycles",
    "A value copied to the wrong place, or between zones, only shows for "
    "configurations where it matters; the builder is not tested.",
    ["pid/builder.cpp", "pid/util.cpp", "pid/zone.cpp",
     "pid/thermalcontroller.cpp", "pid/fancontroller.cpp",
     "pid/stepwisecontroller.cpp"],
    [("builder", "pid/builder.cpp: buildZones()"),
     ("values", "pid/util.cpp: initializePIDStruct()"),
     ("factories", "pid/fancontroller.cpp: createFanPid(), "
      "pid/thermalcontroller.cpp: createThermalPid(), "
      "pid/stepwisecontroller.cpp: createStepwiseController()")],
    "All configurations within the bounds, through the real builder.")
T["C30"] = P(
    "What D-Bus shows about zones and controllers is what the daemon does",
    "Class, setpoint, input, leading sensor and output of every controller, "
    "and manual mode, failsafe and leading controller of every zone, are on "
    "D-Bus what the daemon works with in the cycle just done; enabling and "
    "disabling a controller there takes effect in the next cycle and is never "
    "undone by the daemon.",
    ["histories", "inputs"],
    "two controllers of all 4 types, enabled or not, two cycles with any "
    "setpoint, minimum and readings, sensors failing or unreadable",
    "Clients tune and supervise by these values; no test reads them over a "
    "history.",
    ["pid/zone.cpp", "pid/thermalcontroller.cpp", "pid/builder.cpp"],
    [("controllers", "pid/zone.cpp: updateThermalPowerDebugInterface(), "
      "addPidControlProcess()"),
     ("zone", "pid/zone.cpp: leader(), failSafe(), manual()")],
    "All histories within the bounds.")
T["C31"] = P(
    "Tuning obeys the setpoint files and nothing else; off, they are ignored",
    "With tuning on, a zone's demand is the RPM (an integer above 100) in its "
    "own setpoint file, else the one in the common file, else the demand it "
    "computes; a file that is absent, unreadable or holds anything else is "
    "ignored, files are read anew at each thermal pass, and fans follow their "
    "controllers without regard to failsafe. With tuning off no file counts "
    "and failsafe does.",
    ["inputs", "histories"],
    "all numbers of up to 4 digits (6 thorough) and 7 other contents of both "
    "files, changing between passes, any demand, ceiling, minimum and "
    "failsafe percentage, sensors failed or not, tuning on or off, two zones",
    "No test runs with tuning on; a stale, mixed-up or malformed setpoint "
    "drives real fans.",
    ["pid/zone.cpp", "pid/fancontroller.cpp"],
    [("files", "pid/zone.cpp: fileParseRpm(), determineMaxSetPointRequest()"),
     ("failsafe", "pid/fancontroller.cpp: outputProc()")],
    "All contents and histories within the bounds.")
T["C32"] = P(
    "Debugging and logging never change how the fans are controlled",
    "For any history of readings, failures, manual phases and switched "
    "controllers, every fan write, demand, failsafe state and percentage, "
    "D-Bus value, read of a sensor and time of the next tick is the same with "
    "debug output, zone logs and core logs on, in any combination and whether "
    "or not the files can be written, as with all of them off.",
    ["inputs", "histories"],
    "a zone of 8 controllers of all kinds, any value of one sensor at up to 2 "
    "ticks, one failure, manual phase or switched controller at any tick; all "
    "7 combinations of diagnostics, log files writable or not",
    "A relation between two runs, which no test compares.",
    ["pid/zone.cpp", "pid/zone.hpp", "pid/pidloop.cpp", "pid/ec/pid.cpp",
     "pid/ec/logging.cpp", "pid/fancontroller.cpp",
     "pid/thermalcontroller.cpp"],
    [("zone log", "pid/zone.hpp: processSensorInputs(), pid/zone.cpp: "
      "updateFanTelemetry(), pid/pidloop.cpp: pidControlLoop()"),
     ("core log", "pid/ec/pid.cpp: pid(), pid/ec/logging.cpp")],
    "Both runs execute in one path with the same symbolic inputs.")
T["C33"] = P(
    "The logs tell what happened: each cycle once, the values used, the times",
    "With logging on, a zone's log has a header and one line per cycle outside "
    "manual mode: time, demand and requester in force, every fan's reading, "
    "raw reading and last output, every sensor's reading and raw reading in "
    "use, and failsafe. With core logging on, every computation whose values "
    "differ from the last logged ones, or that comes 60 s or more after them, "
    "is logged with all its terms, and coefficients once per start; "
    "controllers never share files, and nothing is logged otherwise.",
    ["inputs", "histories"],
    "4 cycles (5 thorough) of a zone with 2 fans and 3 sensors and any values, "
    "a failure or manual phase anywhere; 3 computations (4 thorough) with gaps "
    "around 60 s; any file missing; 6 names and 4 pairs of them",
    "Coefficients are tuned from these files; no test opens one.",
    ["pid/zone.cpp", "pid/zone.hpp", "pid/pidloop.cpp", "pid/ec/logging.cpp",
     "pid/ec/pid.cpp"],
    [("zone log", "pid/zone.cpp: initializeLog(), updateFanTelemetry(), "
      "pid/zone.hpp: processSensorInputs(), pid/pidloop.cpp"),
     ("core log", "pid/ec/logging.cpp: LogInit(), LogContext()")],
    "Symbolic values are followed into the text by tokens.")
T["C34"] = P(
    "The daemon starts with the configuration and switches it is given",
    "The configuration is the file of -c, else config.json in the working "
    "directory, /var/lib/swampd or /usr/share/swampd, in that order, else the "
    "one on D-Bus. Tuning, debugging and core logging are on exactly if their "
    "flag is given or their file in /etc/thermal.d exists; logging if -l is "
    "given or its file can be read. Logs, core logs included, go to the "
    "existing place the file names, else the one of -l, else the temporary "
    "directory.",
    ["inputs"],
    "every combination of flags, their files, contents of the logging file "
    "and configuration files that exist",
    "main() is not compiled by the tests.",
    ["main.cpp"],
    [("switches", "main.cpp: main()"),
     ("source", "main.cpp: searchConfigurationPath(), restartControlLoops()")],
    "All combinations, through the real main().")

T["C35"] = P(
    "End to end, each zone's fans get what its own sensors ask for",
    "Running from a configuration file, at every fan cycle of a zone each of "
    "its fans, and no fan of another zone, is written the share of its range "
    "that the zone asks for: the largest output of its enabled thermal "
    "controllers for the latest values of their sensors as of the last "
    "thermal update, at least the zone's minimum, and at least the failsafe "
    "percentage while a sensor of the zone is in failsafe. That stays so "
    "through bad readings, sensors that stop and return, unreadable fans, "
    "manual mode, controllers being switched, reloads (SIGHUP) and until "
    "SIGTERM ends the daemon.",
    ["inputs", "histories", "faults"],
    "any history of events, any values of the external and stepwise sensors",
    "Each part is tested alone at most; nothing runs the daemon as a whole, "
    "and main.cpp, the builders and the D-Bus sensors are not compiled by the "
    "tests.",
    ["main.cpp", "pid/zone.cpp", "pid/pidloop.cpp", "pid/builder.cpp",
     "sensors/builder.cpp", "sensors/pluggable.cpp", "dbus/dbuspassive.cpp",
     "dbus/dbuswrite.cpp", "sensors/host.cpp"],
    [("start", "main.cpp: main(), restartControlLoops()"),
     ("cycle", "pid/pidloop.cpp: pidControlLoop()"),
     ("duty", "pid/fancontroller.cpp: outputProc(), dbus/dbuswrite.cpp: "
      "DbusWritePercent::write()"),
     ("readings", "pid/zone.cpp: updateSensors(), updateFanTelemetry()")],
    "The whole program, real code from main() to the writers, against a model "
    "of one configuration.")
