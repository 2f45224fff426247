// Native (un-instrumented) implementation of the harness API: runs one harness
// with the concrete values of a model file.
#undef main
#include "sym.hpp"
#include <cinttypes>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <unistd.h>
#include <vector>

static std::map<std::string, sym_harness_fn>& table()
{
    static std::map<std::string, sym_harness_fn> t;
    return t;
}
void sym_register(const char* n, sym_harness_fn f) { table()[n] = f; }

static std::map<std::string, uint64_t> model;
static std::map<std::string, int> occ;
static int outfd = 1;
static void say(const std::string& s)
{
    std::string l = s + "\n";
    if (write(outfd, l.data(), l.size()) < 0)
        _exit(9);
}
static std::string uname_(const char* n)
{
    int k = occ[n]++;
    return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
extern "C" {
uint64_t sym_int_(const char* name, int width, int sg, int64_t lo, int64_t hi)
{
    auto it = model.find(uname_(name));
    uint64_t v = it == model.end() ? (uint64_t)lo : it->second;
    if (width < 64)
    {
        v &= (1ull << width) - 1;
        if (sg && (v >> (width - 1)))
            v |= ~((1ull << width) - 1);
    }
    return v;
}
double sym_f64_(const char* name, double lo, double hi, int special)
{
    (void)hi;
    (void)special;
    auto it = model.find(uname_(name));
    double d = lo <= 0 && hi >= 0 ? 0 : lo;
    if (it != model.end())
        memcpy(&d, &it->second, 8);
    return d;
}
int sym_pick(const char* name, int n)
{
    (void)n;
    auto it = model.find(uname_(name));
    return it == model.end() ? 0 : (int)it->second;
}
void sym_assume(bool c)
{
    if (!c)
    {
        say("ASSUME-FALSE");
        _exit(3);
    }
}
void sym_assert(bool c, const char* label)
{
    if (!c)
    {
        say(std::string("ASSERT-FAIL ") + label);
        _exit(1);
    }
}
void sym_assert_close(double a, double b, double rel, double abs_,
                      const char* label)
{
    bool same = a == b || (a != a && b != b);
    sym_assert(same || std::fabs(a - b) <= std::fabs(b) * rel + abs_, label);
}
void sym_reach(const char* label) { say(std::string("REACH ") + label); }
void sym_obs_i(const char* n, int64_t v)
{
    char b[64];
    snprintf(b, sizeof b, "%016" PRIx64, (uint64_t)v);
    say(std::string("OBS ") + n + " " + b);
}
void sym_obs_d(const char* n, double v)
{
    uint64_t u;
    if (v != v)
        u = 0x7ff8000000000000ull;
    else if (v == 0)
        u = 0;
    else
        memcpy(&u, &v, 8);
    sym_obs_i(n, (int64_t)u);
}
double sym_ite_d(bool c, double a, double b) { return c ? a : b; }
int64_t sym_ite_i(bool c, int64_t a, int64_t b) { return c ? a : b; }
void sym_stop()
{
    say("END");
    _exit(0);
}
double sym_text_f64(const char* s) { return strtod(s, nullptr); }
int64_t sym_fix(int64_t v) { return v; }
}
static void onterm()
{
    say("TERMINATE uncaught exception");
    _exit(134);
}
int main(int argc, char** argv)
{
    if (argc < 3)
        return 9;
    // not a file stream: the harness may replace those
    FILE* f = fopen(argv[2], "r");
    if (!f)
        return 9;
    char buf[4096];
    while (fgets(buf, sizeof buf, f))
    {
        std::string line = buf;
        while (!line.empty() && line.back() == '\n')
            line.pop_back();
        auto p = line.find('=');
        if (p == std::string::npos || line[0] == '#')
            continue;
        model[line.substr(0, p)] =
            strtoull(line.substr(p + 1).c_str(), nullptr, 16);
    }
    fclose(f);
    outfd = dup(1);
    bool quiet = getenv("REPLAY_VERBOSE") == nullptr;
    if (quiet)
    {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        if (!getenv("REPLAY_STDERR"))
            if (!getenv("ASAN_OPTIONS"))
                dup2(n, 2);
    }
    auto it = table().find(argv[1]);
    if (it == table().end())
        return 9;
    std::set_terminate(onterm);
    it->second();
    say("END");
    _exit(0);
}
