// A stand-in for CLI11: the harness decides what was on the command line.
#pragma once
#include <filesystem>
#include <functional>
#include <map>
#include <string>
namespace CLI
{
struct Validator
{};
inline Validator ExistingFile, ExistingDirectory, ExistingPath;
struct Option
{
    Option* check(const Validator&) { return this; }
    Option* required() { return this; }
};
struct HvArgs
{
    std::map<std::string, std::string> values;
    std::map<std::string, bool> flags;
};
inline HvArgs& hvArgs()
{
    static HvArgs a;
    return a;
}
class App
{
  public:
    Option o;
    explicit App(const std::string&) {}
    template <typename T>
    Option* add_option(const std::string& n, T& v, const std::string& = "")
    {
        auto it = hvArgs().values.find(n.substr(0, n.find(',')));
        if (it != hvArgs().values.end())
            v = T(it->second);
        return &o;
    }
    Option* add_flag(const std::string& n, bool& v, const std::string& = "")
    {
        auto it = hvArgs().flags.find(n.substr(0, n.find(',')));
        if (it != hvArgs().flags.end())
            v = it->second;
        return &o;
    }
};
} // namespace CLI
#define CLI11_PARSE(app, argc, argv) (void)0
