From 21fd09238da329988214bd2a6c5a0b46be3be6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 01/14] fix: dbuspassive: keep a sensor failed while any of its
 alarms is asserted

A signal names only the alarms that changed. Clearing the failed state
because one alarm was deasserted lost another alarm still asserted, e.g.
the warning alarm left when the critical alarm clears, or the high alarm
raised just before the low one is cleared.
---
 dbus/dbuspassive.cpp | 39 +++++++++++++++++++++++----------------
 dbus/dbuspassive.hpp |  3 +++
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/dbus/dbuspassive.cpp b/dbus/dbuspassive.cpp
index 016f069..cbf2d20 100644
--- a/dbus/dbuspassive.cpp
+++ b/dbus/dbuspassive.cpp
@@ -253,7 +253,7 @@ bool DbusPassive::getFailed(void) const
         return true;
     }
 
-    if (_failed)
+    if (_failed || !_assertedAlarms.empty())
     {
         outputFailsafeLogWithSensor(
             _id, true, _id, "The sensor has failed with a critical issue.");
@@ -293,7 +293,7 @@ std::string DbusPassive::getFailReason(void) const
     {
         return "Margin hot";
     }
-    if (_failed)
+    if (_failed || !_assertedAlarms.empty())
     {
         return "Sensor threshold asserted";
     }
@@ -313,6 +313,18 @@ void DbusPassive::setFailed(bool value)
     _failed = value;
 }
 
+void DbusPassive::setAlarm(const std::string& name, bool asserted)
+{
+    if (asserted)
+    {
+        _assertedAlarms.insert(name);
+        return;
+    }
+    _assertedAlarms.erase(name);
+    // The state found at initialization does not tell which alarm it was
+    _failed = false;
+}
+
 void DbusPassive::setFunctional(bool value)
 {
     _functional = value;
@@ -442,19 +454,18 @@ int handleSensorValue(sdbusplus::message_t& msg, DbusPassive* owner)
             return 0;
         }
 
-        bool asserted = false;
+        // Only the alarms named in this signal have changed: the sensor stays
+        // failed as long as any other alarm is still asserted.
         if (criticalAlarmLow != msgData.end())
         {
-            asserted = std::get<bool>(criticalAlarmLow->second);
+            owner->setAlarm(criticalAlarmLow->first,
+                            std::get<bool>(criticalAlarmLow->second));
         }
-
-        // checking both as in theory you could de-assert one threshold and
-        // assert the other at the same moment
-        if (!asserted && criticalAlarmHigh != msgData.end())
+        if (criticalAlarmHigh != msgData.end())
         {
-            asserted = std::get<bool>(criticalAlarmHigh->second);
+            owner->setAlarm(criticalAlarmHigh->first,
+                            std::get<bool>(criticalAlarmHigh->second));
         }
-        owner->setFailed(asserted);
     }
     else if (UNC_FAILSAFE && msgSensor == SensorThresholdWarning::interface)
     {
@@ -465,12 +476,8 @@ int handleSensorValue(sdbusplus::message_t& msg, DbusPassive* owner)
             return 0;
         }
 
-        bool asserted = false;
-        if (warningAlarmHigh != msgData.end())
-        {
-            asserted = std::get<bool>(warningAlarmHigh->second);
-        }
-        owner->setFailed(asserted);
+        owner->setAlarm(warningAlarmHigh->first,
+                        std::get<bool>(warningAlarmHigh->second));
     }
     else if (msgSensor == StateDecoratorAvailability::interface)
     {
diff --git a/dbus/dbuspassive.hpp b/dbus/dbuspassive.hpp
index 5a3c745..74ef28a 100644
--- a/dbus/dbuspassive.hpp
+++ b/dbus/dbuspassive.hpp
@@ -16,6 +16,7 @@
 #include <cstdint>
 #include <memory>
 #include <mutex>
+#include <set>
 #include <string>
 
 namespace pid_control
@@ -58,6 +59,7 @@ class DbusPassive : public ReadInterface
     void setValue(double value);
 
     void setFailed(bool value);
+    void setAlarm(const std::string& name, bool asserted);
     void setFunctional(bool value);
     void setAvailable(bool value);
 
@@ -80,6 +82,7 @@ class DbusPassive : public ReadInterface
     double _max = 0;
     double _min = 0;
     bool _failed = false;
+    std::set<std::string> _assertedAlarms;
     bool _functional = true;
     bool _available = true;
     bool _availableOverridden = false;
-- 
2.43.0


From 67874dc56730fc85dd0176c1b7e06645f1f342c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 02/14] fix: dbuswrite: write again after a failed D-Bus call

A write that failed was remembered as the fan's current value, so the same
value was never sent again and the fan kept its old speed.
---
 dbus/dbuswrite.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dbus/dbuswrite.cpp b/dbus/dbuswrite.cpp
index 8a87116..549825f 100644
--- a/dbus/dbuswrite.cpp
+++ b/dbus/dbuswrite.cpp
@@ -96,6 +96,14 @@ void DbusWritePercent::write(double value, bool force, int64_t* written)
     {
         log<level::ERR>("Dbus Call Failure", entry("PATH=%s", path.c_str()),
                         entry("WHAT=%s", ex.what()));
+
+        // The value did not arrive, so do not suppress the next write
+        oldValue = -1;
+        if (written)
+        {
+            *written = oldValue;
+        }
+        return;
     }
 
     oldValue = static_cast<int64_t>(ovalue);
@@ -158,6 +166,14 @@ void DbusWrite::write(double value, bool force, int64_t* written)
     {
         log<level::ERR>("Dbus Call Failure", entry("PATH=%s", path.c_str()),
                         entry("WHAT=%s", ex.what()));
+
+        // The value did not arrive, so do not suppress the next write
+        oldValue = -1;
+        if (written)
+        {
+            *written = oldValue;
+        }
+        return;
     }
 
     oldValue = static_cast<int64_t>(value);
-- 
2.43.0


From 438da1ebc31982d4fc12f306e0c85ae4bb3f4753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 03/14] fix: sysfs: report a file that cannot be read as failed

The reading of a missing, unreadable or non-numeric file was an
uninitialised integer.
---
 sysfs/sysfsread.cpp | 13 +++++++++++--
 sysfs/sysfsread.hpp |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/sysfs/sysfsread.cpp b/sysfs/sysfsread.cpp
index a0e0779..b88c04d 100644
--- a/sysfs/sysfsread.cpp
+++ b/sysfs/sysfsread.cpp
@@ -9,23 +9,32 @@
 #include <cstdint>
 #include <fstream>
 #include <iostream>
+#include <limits>
 
 namespace pid_control
 {
 
 ReadReturn SysFsRead::read(void)
 {
-    int64_t value;
+    int64_t value = 0;
     std::ifstream ifs;
 
     ifs.open(_path);
     ifs >> value;
+    /* The file may be missing, unreadable or not hold a number. */
+    _failed = ifs.fail();
     ifs.close();
 
-    ReadReturn r = {static_cast<double>(value),
+    ReadReturn r = {_failed ? std::numeric_limits<double>::quiet_NaN()
+                            : static_cast<double>(value),
                     std::chrono::high_resolution_clock::now()};
 
     return r;
 }
 
+bool SysFsRead::getFailed(void) const
+{
+    return _failed;
+}
+
 } // namespace pid_control
diff --git a/sysfs/sysfsread.hpp b/sysfs/sysfsread.hpp
index 32ce18e..3cb2be0 100644
--- a/sysfs/sysfsread.hpp
+++ b/sysfs/sysfsread.hpp
@@ -20,9 +20,11 @@ class SysFsRead : public ReadInterface
     {}
 
     ReadReturn read(void) override;
+    bool getFailed(void) const override;
 
   private:
     const std::string _path;
+    bool _failed = false;
 };
 
 } // namespace pid_control
-- 
2.43.0


From 666d743a4b3570a02add091b1c42e95fc5fce29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 04/14] fix: ipmi: address zones above 127 by their own path

---
 ipmi/dbus_mode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipmi/dbus_mode.cpp b/ipmi/dbus_mode.cpp
index 52666c0..eed6651 100644
--- a/ipmi/dbus_mode.cpp
+++ b/ipmi/dbus_mode.cpp
@@ -28,7 +28,7 @@ using Value = std::variant<bool>;
 using PropertyMap = std::map<Property, Value>;
 
 /* The following was copied directly from my manual thread handler. */
-static std::string getControlPath(int8_t zone)
+static std::string getControlPath(uint8_t zone)
 {
     return std::string(objectPath) + std::to_string(zone);
 }
-- 
2.43.0


From 8e85aa640b2d136d9abcd5e58c7a1c8d26a49a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 05/14] fix: keep the fraction of a failsafe percentage

---
 dbus/dbusconfiguration.cpp | 4 ++--
 pid/buildjson.cpp          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index e7b0ddc..b3bc09c 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -345,7 +345,7 @@ void populatePidInfo(
                                    getPIDAttribute(base, "SetPoint"));
     }
 
-    int failsafepercent = 0;
+    double failsafepercent = 0;
     auto findFailSafe = base.find("FailSafePercent");
     if (findFailSafe != base.end())
     {
@@ -672,7 +672,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
             details.minThermalOutput = std::visit(VariantToDoubleVisitor(),
                                                   zone.at("MinThermalOutput"));
 
-            int failsafepercent = 0;
+            double failsafepercent = 0;
             auto findFailSafe = zone.find("FailSafePercent");
             if (findFailSafe != zone.end())
             {
diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index 8925e2e..cab4a25 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -84,7 +84,7 @@ void from_json(const json& j, conf::ControllerInfo& c)
     }
 
     auto failSafePercent = j.find("FailSafePercent");
-    auto failSafePercentValue = 0;
+    auto failSafePercentValue = 0.0;
     if (failSafePercent != j.end())
     {
         failSafePercent->get_to(failSafePercentValue);
-- 
2.43.0


From 1ff765d295228d7ae27e6a7d7f1d5ae503e32657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 06/14] fix: buildjson: refuse negative cycle times

A negative interval wrapped around to an enormous unsigned one instead
of being replaced by the default.
---
 pid/buildjson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index cab4a25..c2aa57c 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -167,7 +167,7 @@ inline void getCycleTimeSetting(const auto& zone, const int id,
     auto findAttributeName = zone.find(attributeName);
     if (findAttributeName != zone.end())
     {
-        uint64_t tmpAttributeValue = 0;
+        int64_t tmpAttributeValue = 0;
         findAttributeName->get_to(tmpAttributeValue);
         if (tmpAttributeValue >= 1)
         {
-- 
2.43.0


From 6342611606c77c1c473cd278f1d18798cd660901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 07/14] fix: buildjson: refuse a configuration that lacks a
 required key

operator[] on a const json value is undefined for a missing key.
---
 pid/buildjson.cpp     | 13 ++++++-------
 sensors/buildjson.cpp |  4 ++--
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index c2aa57c..89e1ab9 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -195,17 +195,16 @@ std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>>
     std::map<int64_t, conf::ZoneConfig> zoneConfig;
 
     /* TODO: if zones is empty, that's invalid. */
-    auto zones = data["zones"];
+    auto zones = data.at("zones");
     for (const auto& zone : zones)
     {
         int64_t id;
         conf::PIDConf thisZone;
         conf::ZoneConfig thisZoneConfig;
 
-        /* TODO: using at() throws a specific exception we can catch */
-        id = zone["id"];
-        thisZoneConfig.minThermalOutput = zone["minThermalOutput"];
-        thisZoneConfig.failsafePercent = zone["failsafePercent"];
+        id = zone.at("id");
+        thisZoneConfig.minThermalOutput = zone.at("minThermalOutput");
+        thisZoneConfig.failsafePercent = zone.at("failsafePercent");
 
         getCycleTimeSetting(zone, id, "cycleIntervalTimeMS",
                             thisZoneConfig.cycleTime.cycleIntervalTimeMS);
@@ -220,10 +219,10 @@ std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>>
         }
         thisZoneConfig.accumulateSetPoint = accumulateSetPoint;
 
-        auto pids = zone["pids"];
+        auto pids = zone.at("pids");
         for (const auto& pid : pids)
         {
-            auto name = pid["name"];
+            auto name = pid.at("name");
             auto item = pid.get<conf::ControllerInfo>();
 
             if (thisZone.find(name) != thisZone.end())
diff --git a/sensors/buildjson.cpp b/sensors/buildjson.cpp
index 23bb201..770647e 100644
--- a/sensors/buildjson.cpp
+++ b/sensors/buildjson.cpp
@@ -104,14 +104,14 @@ void from_json(const json& j, conf::SensorConfig& s)
 std::map<std::string, conf::SensorConfig> buildSensorsFromJson(const json& data)
 {
     std::map<std::string, conf::SensorConfig> config;
-    auto sensors = data["sensors"];
+    auto sensors = data.at("sensors");
 
     /* TODO: If no sensors, this is invalid, and we should except here or during
      * parsing.
      */
     for (const auto& sensor : sensors)
     {
-        config[sensor["name"]] = sensor.get<conf::SensorConfig>();
+        config[sensor.at("name")] = sensor.get<conf::SensorConfig>();
     }
 
     return config;
-- 
2.43.0


From 9dd4009bc2b7a0f1ac587de21fb96673091bb23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 08/14] fix: dbus configuration: keep stepwise inputs listed
 after an absent one

---
 dbus/dbusconfiguration.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index b3bc09c..2cb6708 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -1095,7 +1095,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                     {
                         if constexpr (!HANDLE_MISSING_OBJECT_PATHS)
                         {
-                            break;
+                            continue;
                         }
                         if (std::find(missingAcceptableSensorNames.begin(),
                                       missingAcceptableSensorNames.end(),
@@ -1176,10 +1176,6 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                             sensorNameToDbusName(missingAcceptableSensorName),
                             sensorPathIfacePairs))
                     {
-                        if constexpr (!HANDLE_MISSING_OBJECT_PATHS)
-                        {
-                            break;
-                        }
                         // When a sensor in the MissingIsAcceptable list is NOT
                         // on DBus and it still reaches here, which contradicts
                         // to what we did in the Input sensor building step.
-- 
2.43.0


From 9b870f108e857ef2ced03f50a521951e5ac36546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 09/14] fix: wait until every zone is released before
 rebuilding the control loops

---
 main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index c924123..95f757c 100644
--- a/main.cpp
+++ b/main.cpp
@@ -30,6 +30,7 @@
 #include <sdbusplus/bus.hpp>
 #include <sdbusplus/server/manager.hpp>
 
+#include <algorithm>
 #include <chrono>
 #include <csignal>
 #include <cstdint>
@@ -115,7 +116,8 @@ void stopControlLoops()
     state::isCanceling = true;
     state::timers.clear();
 
-    if (state::zones.size() > 0 && state::zones.begin()->second.use_count() > 1)
+    if (std::any_of(state::zones.begin(), state::zones.end(),
+                    [](const auto& zone) { return zone.second.use_count() > 1; }))
     {
         throw std::runtime_error("wait for count back to 1");
     }
-- 
2.43.0


From 9f217849392a859804b2c29e4298c702b4d5e66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 10/14] fix: pass ignoreFailIfHostOff on to host sensors

---
 sensors/builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sensors/builder.cpp b/sensors/builder.cpp
index 640c0ca..7316cd3 100644
--- a/sensors/builder.cpp
+++ b/sensors/builder.cpp
@@ -167,7 +167,7 @@ SensorManager buildSensors(
                  */
                 auto sensor = HostSensor::createTemp(
                     name, info->timeout, hostSensorBus, info->readPath.c_str(),
-                    deferSignals);
+                    deferSignals, info->ignoreFailIfHostOff);
                 mgmr.addSensor(info->type, name, std::move(sensor));
             }
             else
-- 
2.43.0


From df09051e8696fc7c2d2ebdcb706c08e23e555baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 11/14] fix: host state monitor: do not miss a change while
 starting

---
 hoststatemonitor.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hoststatemonitor.hpp b/hoststatemonitor.hpp
index 244f841..5584a38 100644
--- a/hoststatemonitor.hpp
+++ b/hoststatemonitor.hpp
@@ -82,6 +82,9 @@ inline void HostStateMonitor::startMonitoring()
             [this](sdbusplus::message_t& message) {
                 handleStateChange(message);
             });
+
+        // The state may have changed before the match was in place.
+        getInitialState();
     }
 }
 
-- 
2.43.0


From 6841b8f83c611f6122aa52a0078eec28b477d2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 12/14] fix: refuse a fan controller without inputs

createFanPid() returns a null pointer when there are no inputs; adding it
to the zone made the daemon crash in its first fan cycle.
---
 pid/builder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pid/builder.cpp b/pid/builder.cpp
index 6de7bcc..52be1d3 100644
--- a/pid/builder.cpp
+++ b/pid/builder.cpp
@@ -4,6 +4,7 @@
 #include "pid/builder.hpp"
 
 #include "conf.hpp"
+#include "errors/exception.hpp"
 #include "manager.hpp"
 #include "pid/controller.hpp"
 #include "pid/fancontroller.hpp"
@@ -92,6 +93,11 @@ std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> buildZones(
 
                 auto pid = FanController::createFanPid(
                     zone.get(), name, splitNames(inputs), info.pidInfo);
+                if (!pid)
+                {
+                    throw ControllerBuildException(
+                        "Fan controller missing inputs");
+                }
                 zone->addFanPID(std::move(pid));
                 zone->addPidFailSafePercent(splitNames(inputs),
                                             info.failSafePercent);
-- 
2.43.0


From cc8ba05e2dafd2e466bb8d48e86bb71ac32a690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:59 +0000
Subject: [PATCH 13/14] fix: ignore an empty setpoint file

Extraction from an empty (or blank) file does not store anything, and
the uninitialized value was then taken for the RPM.
---
 pid/zone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pid/zone.cpp b/pid/zone.cpp
index bfcbe3b..a12f099 100644
--- a/pid/zone.cpp
+++ b/pid/zone.cpp
@@ -294,7 +294,7 @@ static bool fileParseRpm(const std::string& fileName, double& rpmValue)
         ifs.open(fileName);
         if (ifs)
         {
-            int value;
+            int value = 0;
             ifs >> value;
 
             if (value <= 0)
-- 
2.43.0


From 72b6681ad598059029312e7de6015a0b470ff8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:11 +0000
Subject: [PATCH 14/14] fix: core logging goes to the temporary directory by
 default

---
 main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.cpp b/main.cpp
index 95f757c..d848ccc 100644
--- a/main.cpp
+++ b/main.cpp
@@ -397,6 +397,11 @@ int main(int argc, char* argv[])
     }
     if (coreLoggingEnabled)
     {
+        // Core logging needs a path, even if no other logging is enabled
+        if (loggingPath.empty())
+        {
+            loggingPath = defLoggingPath;
+        }
         std::cerr << "Core logging enabled\n";
     }
 
-- 
2.43.0

