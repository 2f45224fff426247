// The OEM IPMI command for manual mode and failsafe state, from the request
// bytes to the call on D-Bus and back to the reply bytes.
#include "config.h"

#include "common/util.hpp"
#include "hv/dbus.hpp"
#include "ipmid/iana.hpp"
#include "ipmid/oemopenbmc.hpp"
#include "ipmid/oemrouter.hpp"

using namespace hv;
static const std::string MODE = "xyz.openbmc_project.Control.Mode";
static const std::string PROPS = "org.freedesktop.DBus.Properties";
static const std::string DAEMON = "xyz.openbmc_project.State.FanCtrl";
static const std::string PATH = "/xyz/openbmc_project/settings/fanctrl/zone";

static ipmi::Cc command(const uint8_t* req, uint8_t* rep, size_t* len)
{
    auto& h = oem::mutableRouter()->handlers;
    sym_assert(h.size() == 1 && h[0].oen == oem::obmcOemNumber &&
                   h[0].cmd == oem::Cmd::fanManualCmd,
               "the command is not registered");
    return h[0].h(h[0].cmd, req, rep, len);
}
static bool manual, failsafe, answers;
static bool onDaemon(const MsgData& m, int zone)
{
    return m.service == DAEMON && m.path == PATH + std::to_string(zone) &&
           m.interface == PROPS && !m.body.empty() && m.body[0].s == MODE;
}
static int reads(int zone) // calls on the bus that read the zone's mode
{
    int n = 0;
    for (auto& m : world().calls)
    {
        sym_assert(onDaemon(m, zone) &&
                       (m.member == "GetAll" || m.member == "Get"),
                   "asking for the mode does something else than reading it");
        n++;
    }
    return n;
}
static void serve()
{
    answers = sym_pick("answers", 2);
    manual = sym_bool("manual");
    failsafe = sym_bool("failsafe");
    world().calls.clear();
    world().handler = [](MsgData& m, std::vector<Val>& r) {
        if (!answers)
            return false;
        if (m.member == "GetAll")
            r.push_back(
                vProps({{"FailSafe", vBool(failsafe)}, {"Manual", vBool(manual)}}));
        if (m.member == "Get")
            r.push_back(
                vVar(vBool(m.body[1].s == "Manual" ? manual : failsafe)));
        return true;
    };
}
static const int MAX = 6;
// any request: bytes, length, mode of the daemon
SYM_HARNESS(ipmi_request)
{
    serve();
    size_t len = sym_pick("length", MAX + 1), n = len;
    uint8_t req[MAX], rep[MAX], was[MAX];
    int zone = 0;
    for (int i = 0; i < MAX; i++)
    {
        req[i] = 0x5a;
        rep[i] = 0xa5;
    }
    for (size_t i = 0; i < len; i++)
        if (i == 1)
        {
            // every zone is a path of its own: split them into ranges
            int lo = 43 * sym_pick("range", 6);
            int hi = lo + 42 < 255 ? lo + 42 : 255;
            req[1] = sym_u8("zone", lo, hi);
            zone = (int)sym_fix(req[1]);
        }
        else
            req[i] = sym_u8("byte");
    for (int i = 0; i < MAX; i++)
        was[i] = req[i];
    ipmi::Cc rc = command(req, rep, &n);
    for (int i = 0; i < MAX; i++)
        sym_assert(req[i] == was[i], "the request is overwritten");
    if (len < 2)
    {
        sym_assert(rc != 0, "a truncated request succeeds");
        sym_assert(world().calls.empty(), "a bad request has an effect");
        sym_reach("short");
        return;
    }
    if (req[0] == 0 || req[0] == 2)
    {
        sym_assert(reads(zone) == 1, "the zone's mode is not read");
        sym_assert((rc == 0) == answers,
                   "the completion code does not tell success from failure");
        if (rc == 0)
        {
            bool want = req[0] == 0 ? manual : failsafe;
            sym_assert(n == 1, "the reply is not one byte");
            sym_assert(rep[0] == (want ? 1 : 0),
                       "the reply is not the state asked for");
            sym_obs_i("reply", rep[0]);
        }
        for (int i = 1; i < MAX; i++)
            sym_assert(rep[i] == 0xa5, "the reply is longer than it says");
        sym_reach("get");
    }
    else if (req[0] == 1 && len >= 3)
    {
        sym_assert(world().calls.size() == 1, "the mode is not set once");
        MsgData& m = world().calls[0];
        sym_assert(onDaemon(m, zone) && m.member == "Set" &&
                       m.body.size() == 3 && m.body[1].s == "Manual" &&
                       m.body[2].t == 'v' && m.body[2].c.size() == 1 &&
                       m.body[2].c[0].t == 'b',
                   "the call does not set the zone's manual mode");
        sym_assert((m.body[2].c[0].i != 0) == (req[2] != 0),
                   "the mode set is not the one requested");
        sym_assert((rc == 0) == answers,
                   "the completion code does not tell success from failure");
        sym_reach("set");
    }
    else
    {
        sym_assert(rc != 0, "a bad request succeeds");
        sym_assert(world().calls.empty(), "a bad request has an effect");
        sym_reach("bad");
    }
}
// requests do not influence each other
SYM_HARNESS(ipmi_sequence)
{
    for (int i = 0; i < 3; i++)
    {
        serve();
        uint8_t req[3] = {0, 0, 0}, rep[3] = {7, 7, 7};
        req[0] = (uint8_t)sym_pick("command", 3);
        req[1] = (uint8_t)sym_pick("zone", 2);
        req[2] = sym_u8("mode");
        size_t n = req[0] == 1 ? 3 : 2;
        ipmi::Cc rc = command(req, rep, &n);
        sym_assert((rc == 0) == answers,
                   "the completion code does not tell success from failure");
        sym_assert(world().calls.size() == 1 &&
                       onDaemon(world().calls[0], req[1]),
                   "the zone's mode is not accessed once");
        if (req[0] == 1)
            sym_assert((world().calls[0].body[2].c[0].i != 0) == (req[2] != 0),
                       "the mode set is not the one requested");
        else if (rc == 0)
            sym_assert(rep[0] == (req[0] == 0 ? manual : failsafe),
                       "the reply is not the state asked for");
    }
    sym_reach("end");
}
