// Sensors and fans that are files.
#include "config.h"

#include "common/clock.hpp"
#include "common/memfs.hpp"
#include "common/util.hpp"
#include "sysfs/sysfsread.hpp"
#include "sysfs/sysfswrite.hpp"

#include <unistd.h>

using namespace pid_control;
using namespace hv;
// character classes by comparison instead of by table
extern "C" bool __symhook__ZNKSt5ctypeIcE2isEtc(const std::ctype<char>*,
                                                 std::ctype_base::mask m, char c)
{
    if (m != std::ctype_base::space)
        abort();
    return sym_or(c == ' ', sym_and(c >= 9, c <= 13));
}
#ifdef SYM_THOROUGH
static const bool deep = true;
#else
static const bool deep = false;
#endif
static const std::string F = "/sys/class/hwmon/hwmon0/fan1_input";

static void facets()
{
    // number parsing that is compiled here, and thus executed symbolically
#ifndef SYM_NATIVE
    std::locale::global(
        std::locale(std::locale::classic(), new std::num_get<char>));
#endif
}
// any decimal number, as the kernel prints it
static std::string number(int digits, int64_t& want)
{
    bool neg = sym_pick("negative", 2);
    std::string t = neg ? "-" : "";
    want = 0;
    for (int i = 0; i < digits; i++)
    {
        int d = sym_u8("digit", 0, 9);
        t.push_back((char)('0' + d));
        want = want * 10 + d;
    }
    if (neg)
        want = -want;
    if (sym_pick("newline", 2))
        t.push_back('\n');
    return t;
}
SYM_HARNESS(sysfs_read)
{
    facets();
    int64_t want;
    hv::files()[F].data = number(sym_pick("digits", deep ? 5 : 4) + 1, want);
    hv::files()[F + "0"].data = "77777";
    SysFsRead r(F);
    nowNs = sym_i64("now", 0, 1000000000000000);
    ReadReturn x = r.read();
    sym_assert(x.value == (double)want, "the reading is not the file's number");
    sym_assert(x.updated.time_since_epoch().count() == nowNs,
               "time of the reading is wrong");
    sym_assert(!r.getFailed(), "a file that can be read counts as failed");
    sym_obs_d("value", x.value);
    sym_reach("end");
}
// numbers as large as 64 bits hold
SYM_HARNESS(sysfs_read_large)
{
    facets();
    static const char* const head[] = {"21474836", "429496729", "922337203685477580",
                                       "-922337203685477580"};
    std::string t = head[sym_pick("head", 4)];
    bool neg = t[0] == '-';
    int64_t want = 0;
    for (size_t i = neg; i < t.size(); i++)
        want = want * 10 + (t[i] - '0');
    int d = sym_u8("digit", 0, 7);
    want = want * 10 + d;
    t.push_back((char)('0' + d));
    if (t.size() == 9)
    {
        int d2 = sym_u8("digit2", 0, 9);
        want = want * 10 + d2;
        t.push_back((char)('0' + d2));
    }
    hv::files()[F].data = t + "\n";
    SysFsRead r(F);
    ReadReturn x = r.read();
    sym_assert(x.value == (double)(neg ? -want : want),
               "the reading is not the file's number");
    sym_assert(!r.getFailed(), "a file that can be read counts as failed");
    sym_reach("end");
}
// the file changes, goes away, holds something else, comes back
SYM_HARNESS(sysfs_history)
{
    facets();
    SysFsRead r(F);
    const int n = deep ? 4 : 3;
    for (int i = 0; i < n; i++)
    {
        auto& fs = hv::files();
        int64_t want = 0;
        bool good = false;
        fs.erase(F);
        switch (sym_pick("file", 5))
        {
            case 0: // number
                want = sym_u8("digit", 0, 9);
                fs[F].data = std::string(1, (char)('0' + want)) + "1\n";
                want = want * 10 + 1;
                good = true;
                break;
            case 1: // absent
                break;
            case 2:
                fs[F].data = "42\n";
                fs[F].readable = false;
                break;
            case 3: // as of a device that is gone: no data
                fs[F].data = "";
                break;
            case 4: // no number
            {
                char c = (char)sym_u8("char", 33, 126);
                sym_assume(sym_and(sym_or(c < '0', c > '9'),
                                   sym_and(c != '+', c != '-')));
                fs[F].data = std::string(1, c) + "5\n";
                break;
            }
        }
        nowNs += 1000000000;
        ReadReturn x = r.read();
        if (good)
            sym_assert(x.value == (double)want,
                       "the reading is not the file's number");
        else
            sym_assert(!sym_finite(x.value),
                       "a file without a number has a reading");
        sym_assert(r.getFailed() == !good,
                   "failure status of a sensor file is wrong");
        sym_obs_d("value", x.value);
    }
    sym_reach("end");
}
// what is written is the number the kernel is to get, and nothing else
static void wrote(const std::string& t, int64_t raw)
{
    int64_t got = 0;
    size_t i = t.size() && t[0] == '-' ? 1 : 0;
    sym_assert(t.size() > i, "nothing is written to the fan's file");
    for (; i < t.size() && t[i] != '\n'; i++)
    {
        sym_assert(t[i] >= '0' && t[i] <= '9',
                   "what is written to the fan's file is not a number");
        got = got * 10 + (t[i] - '0');
    }
    if (t[0] == '-')
        got = -got;
    sym_assert(got == raw, "the number written is not the demand's raw value");
    sym_obs_i("raw", got);
}
template <typename W>
static void writes(bool percent)
{
    static const int64_t lim[][2] = {{0, 255}, {0, 100}, {30, 230}};
    int64_t min = 0, max = 255;
    if (percent)
    {
        int l = sym_pick("limits", 3);
        min = lim[l][0];
        max = lim[l][1];
    }
    auto& f = hv::files()[F];
    f.data = "123456789\n";
    f.readable = sym_pick("readable", 2);
    hv::files()[F + "_enable"].data = "1\n";
    W impl(F, min, max);
    WriteInterface& w = impl;
    double first = percent ? 0.5 : 77;
    if (sym_pick("before", 2)) // another demand before
    {
        w.write(first);
        wrote(f.data, (int64_t)(percent
                                    ? first * (double)(max - min) + (double)min
                                    : first));
    }
    double v = percent ? sym_f64("fraction", 0, 1) : sym_f64("value", 0, 299);
    double x = percent ? v * (double)(max - min) + (double)min : v;
    // every raw value is a path of its own: split them into manageable ranges
    double lo = 60 * sym_pick("range", 5);
    sym_assume(sym_and(x >= lo, x < lo + 60));
    int64_t written = -77;
    if (sym_pick("how", 2))
        w.write(v, true, &written);
    else
        w.write(v);
    wrote(f.data, (int64_t)x); // rounded down
    sym_assert(hv::files().size() == 2 &&
                   hv::files()[F + "_enable"].data == "1\n",
               "something else than the fan's file is written");
    sym_reach("end");
}
SYM_HARNESS(sysfs_write_percent) { writes<SysFsWritePercent>(true); }
SYM_HARNESS(sysfs_write) { writes<SysFsWrite>(false); }
// raw values are not limited to 32 bits
SYM_HARNESS(sysfs_write_wide)
{
    const int64_t min = 4999999990, max = 5000000006;
    auto& f = hv::files()[F];
    bool percent = sym_pick("percent", 2);
    double v, x;
    if (percent)
    {
        v = sym_f64("fraction", 0, 1);
        x = v * 16.0 + (double)min;
        SysFsWritePercent(F, min, max).write(v);
    }
    else
    {
        x = v = sym_f64("value", (double)min, (double)max);
        SysFsWrite(F, 0, 0).write(v);
    }
    wrote(f.data, (int64_t)x);
    sym_reach("end");
}
// "**" in a path stands for the one directory that is there
SYM_HARNESS(sysfs_wildcard)
{
    facets();
    std::string base = "/proc/self/task/"; // one entry per thread
    std::string rest;
    int len = sym_pick("length", 3);
    for (int i = 0; i < len; i++)
        rest.push_back((char)sym_u8("char", 'a', 'z'));
    static const char* const shape[] = {"", "/fan", "/fan*", "*"};
    std::string tail = shape[sym_pick("tail", 4)] + rest;
    bool wild = sym_pick("wild", 2);
    if (tail[0] == '*')
        tail = "/" + tail;
    bool write = sym_pick("write", 2);
    // (each path of the exploration is a process of its own)
    std::string dir = base + std::to_string(gettid());
    std::string given = wild ? base + "**" + tail : base + "*" + tail,
                want = wild ? dir + tail : given;
    hv::files()[want].data = "42\n";
    if (write)
    {
        SysFsWrite(given, 0, 0).write(17);
        sym_assert(hv::files()[want].data == "17",
                   "a fan's file is not the one named in its path");
    }
    else
    {
        SysFsRead r(given);
        ReadReturn x = r.read();
        sym_assert(x.value == 42.0,
                   "a sensor's file is not the one named in its path");
    }
    sym_assert(hv::files().size() == 1, "another file is written");
    sym_reach("end");
}
// a fan's file that cannot be written does no harm, later writes reach it
SYM_HARNESS(sysfs_write_absent)
{
    SysFsWritePercent w(F, 0, 255);
    int how = sym_pick("absent", 2);
    if (how)
    {
        hv::files()[F].data = "9\n";
        hv::files()[F].writable = false;
    }
    w.write(0.25);
    if (how)
    {
        sym_assert(hv::files()[F].data == "9\n", "a read-only file changed");
        hv::files()[F].writable = true;
    }
    else
        sym_assert(!hv::files().count(F), "a fan's file was created");
    hv::files()[F].data = "9\n";
    double v = sym_f64("fraction", 0, 0.2);
    w.write(v);
    wrote(hv::files()[F].data, (int64_t)(v * 255.0));
    sym_reach("end");
}
