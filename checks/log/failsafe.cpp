// The failsafe log: what is printed, and how often.
#include "config.h"

#include "common/clock.hpp"
#include "common/mockzone.hpp"
#include "common/util.hpp"
#include "failsafeloggers/builder.hpp"
#include "failsafeloggers/failsafe_logger.hpp"
#include "failsafeloggers/failsafe_logger_utility.hpp"

#include <iostream>
#include <memory>
#include <sstream>
#include <streambuf>
#include <string>
#include <vector>

using namespace pid_control;
#ifdef SYM_THOROUGH
static const bool deep = true;
#else
static const bool deep = false;
#endif
struct Catch : std::streambuf
{
    std::string text;
    int_type overflow(int_type c) override
    {
        if (c != traits_type::eof())
            text += (char)c;
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        text.append(s, (size_t)n);
        return n;
    }
};
static Catch out;
static std::vector<std::string> lines()
{
    std::vector<std::string> r;
    std::string cur;
    for (char c : out.text)
    {
        if (c == '\n')
        {
            r.push_back(cur);
            cur.clear();
        }
        else
            cur += c;
    }
    if (!cur.empty())
        r.push_back(cur);
    out.text.clear();
    return r;
}
static bool has(const std::string& a, const std::string& b)
{
    return a.find(b) != std::string::npos;
}

SYM_HARNESS(logger)
{
    std::cerr.rdbuf(&out);
    size_t limit = 1 + (size_t)sym_pick("limit", 2);
    bool state = sym_pick("initial", 2);
    FailsafeLogger log(limit, state);
    static const char* loc[] = {"CPU", "DIMM"};
    static const char* why[] = {"hot", "hot"};
    const int n = deep ? 5 : 4;
    std::vector<int64_t> printed; // when, in ms
    std::vector<int64_t> calls;
    std::vector<bool> seen(2, false); // printed since the state changed
    for (int k = 0; k < n; k++)
    {
        hv::nowNs += 1'000'000 * sym_i64("gapMs", 0, 3000);
        int64_t now = hv::nowNs / 1'000'000;
        bool to = sym_pick("failsafe", 2);
        int m = sym_pick("message", 2);
        bool from = state;
        if (to != state)
            seen.assign(2, false);
        state = to;
        log.outputFailsafeLog(7, to, loc[m], why[m]);
        auto l = lines();
        sym_assert(l.size() <= 1, "one event is logged more than once");
        if (!l.empty())
        {
            sym_assert(to || from, "a zone that is not and was not in failsafe "
                                   "mode is logged");
            sym_assert(!seen[(size_t)m], "the same event is logged again "
                                         "although nothing changed");
            sym_assert(has(l[0], "7") && has(l[0], loc[m]) &&
                           has(l[0], why[m]) &&
                           !has(l[0], loc[1 - m]) &&
                           has(l[0], to ? "is in" : "leaves"),
                       "a log line does not say which zone, where, and why");
            // the lines of the last second
            size_t recent = 1;
            for (auto t : printed)
                if (now - t < 1000)
                    recent++;
            sym_assert(recent <= limit, "more lines in a second than allowed");
            printed.push_back(now);
            seen[(size_t)m] = true;
        }
        else
        {
            // room for a line
            bool quiet = true;
            for (auto t : calls)
                if (now - t < 1000)
                    quiet = false;
            sym_assert(!(quiet && to && !from),
                       "failsafe mode is entered and nothing is logged");
            sym_assert(!(quiet && !to && from),
                       "failsafe mode is left and nothing is logged");
            bool known = seen[(size_t)m];
            sym_assert(!(quiet && to && !known),
                       "a new reason for failsafe mode is not logged");
        }
        calls.push_back(now);
    }
    sym_reach("end");
}

// which zones hear about which sensor
struct Zone : hv::MockZone
{
    std::vector<std::string> names;
    std::vector<std::string> getSensorNames() override { return names; }
};
SYM_HARNESS(topology)
{
    std::cerr.rdbuf(&out);
    static const char* all[] = {"A", "B", "C"};
    std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> zones;
    int uses[2];
    bool in[2];
    int rounds = 1 + sym_pick("rebuilt", 2);
    for (int r = 0; r < rounds; r++)
    {
        zones.clear();
        for (int z = 0; z < 2; z++)
        {
            auto p = std::make_shared<Zone>();
            uses[z] = sym_pick("sensors", 8);
            p->failsafe = in[z] = sym_pick("failsafe", 2);
            for (int i = 0; i < 3; i++)
                if (uses[z] >> i & 1)
                {
                    p->names.push_back(all[i]);
                    if (i == 1) // an input of two controllers
                        p->names.push_back(all[i]);
                }
            zones[40 + z] = p;
        }
        buildFailsafeLoggers(zones, 20);
    }
    out.text.clear();
    for (int i = 0; i < 3; i++)
        for (int to = 0; to < 2; to++)
        {
            bool now[2] = {in[0], in[1]};
            outputFailsafeLogWithSensor(all[i], to, all[i], "why");
            auto l = lines();
            int want = 0;
            for (int z = 0; z < 2; z++)
                if (uses[z] >> i & 1)
                {
                    int c = 0;
                    for (auto& x : l)
                        c += has(x, "4" + std::to_string(z)) && has(x, all[i]);
                    bool w = to || now[z];
                    sym_assert(c == w, "a sensor's event is not logged for each "
                                       "of its zones, once");
                    want += w;
                    in[z] = to;
                }
            sym_assert((int)l.size() == want,
                       "a sensor's event is logged for another zone");
        }
    // an unknown sensor or zone is nobody's
    outputFailsafeLogWithSensor("X", true, "X", "why");
    outputFailsafeLogWithZone(99, true, "X", "why");
    sym_assert(lines().empty(), "an event of nobody's is logged");
    outputFailsafeLogWithZone(41, true, "X", "why");
    auto l = lines();
    sym_assert(l.size() == 1 && has(l[0], "41"),
               "a zone's event is not logged for it");
    sym_reach("end");
}
