// A stand-in for sdbusplus: D-Bus as an in-memory world under the harness's
// control.  Values are typed trees; method calls are recorded and answered by
// the harness; signals are delivered by the harness.
#pragma once
#include <array>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

namespace hv
{
// a D-Bus value: b n q i u x t y (integer), d, s o g, a(array or dict),
// r(struct or dict entry), v(variant)
struct Val
{
    char t = 0;
    int64_t i = 0;
    double d = 0;
    std::string s;
    std::vector<Val> c;
    std::string elem; // element signature of an array
};
inline Val vInt(char t, int64_t x)
{
    Val v;
    v.t = t;
    v.i = x;
    return v;
}
inline Val vBool(bool x) { return vInt('b', x); }
inline Val vI64(int64_t x) { return vInt('x', x); }
inline Val vDbl(double x)
{
    Val v;
    v.t = 'd';
    v.d = x;
    return v;
}
inline Val vStr(const std::string& x, char t = 's')
{
    Val v;
    v.t = t;
    v.s = x;
    return v;
}
inline Val vVar(const Val& x)
{
    Val v;
    v.t = 'v';
    v.c.push_back(x);
    return v;
}
inline Val vRec(std::vector<Val> x)
{
    Val v;
    v.t = 'r';
    v.c = std::move(x);
    return v;
}
inline Val vArr(std::vector<Val> x)
{
    Val v;
    v.t = 'a';
    v.c = std::move(x);
    return v;
}
// a{s?}
inline Val vDict(const std::vector<std::pair<std::string, Val>>& x, char k = 's')
{
    Val v;
    v.t = 'a';
    for (auto& e : x)
        v.c.push_back(vRec({vStr(e.first, k), e.second}));
    return v;
}
// a{sv}
inline Val vProps(const std::vector<std::pair<std::string, Val>>& x)
{
    Val v;
    v.t = 'a';
    for (auto& e : x)
        v.c.push_back(vRec({vStr(e.first), vVar(e.second)}));
    return v;
}
inline Val vStrs(const std::vector<std::string>& x)
{
    Val v;
    v.t = 'a';
    v.elem = "s";
    for (auto& e : x)
        v.c.push_back(vStr(e));
    return v;
}
inline Val vDbls(const std::vector<double>& x)
{
    Val v;
    v.t = 'a';
    v.elem = "d";
    for (auto& e : x)
        v.c.push_back(vDbl(e));
    return v;
}

struct MsgData
{
    std::string service, path, interface, member, sender;
    std::vector<Val> body;
    size_t pos = 0;
    bool noreply = false;
    std::string bus; // which connection it was sent on
};

struct MatchData
{
    std::string rule;
    std::function<void(MsgData&)> fire;
    bool alive = true;
};

struct World
{
    // answers a method call: false = the call fails with an error
    std::function<bool(MsgData&, std::vector<Val>&)> handler;
    std::vector<MsgData> calls;
    std::vector<std::shared_ptr<MatchData>> matches;
    std::vector<std::string> names;      // requested bus names
    std::vector<std::string> objects;    // "path" of announced objects
    std::vector<std::string> managers;   // object managers
    std::map<std::string, std::string> servedOn; // connection of an object
};
inline World& world()
{
    static World w;
    return w;
}
// does a match rule select the message?
inline bool ruleFits(const std::string& rule, const MsgData& m)
{
    size_t p = 0;
    while (p < rule.size())
    {
        size_t eq = rule.find('=', p);
        if (eq == std::string::npos)
            break;
        size_t q1 = rule.find('\'', eq), q2 = rule.find('\'', q1 + 1);
        std::string k = rule.substr(p, eq - p);
        std::string v = rule.substr(q1 + 1, q2 - q1 - 1);
        std::string a0 = m.body.empty() ? std::string() : m.body[0].s;
        bool ok = true;
        if (k == "member")
            ok = m.member == v;
        else if (k == "interface")
            ok = m.interface == v;
        else if (k == "path")
            ok = m.path == v;
        else if (k == "sender")
            ok = m.sender == v;
        else if (k == "path_namespace")
            ok = v == "/" || m.path == v || m.path.rfind(v + "/", 0) == 0;
        else if (k == "arg0")
            ok = a0 == v;
        else if (k == "arg0namespace")
            ok = a0 == v || a0.rfind(v + ".", 0) == 0;
        else if (k == "arg0path")
            ok = a0 == v || (!v.empty() && v.back() == '/' &&
                             a0.rfind(v, 0) == 0) ||
                 (!a0.empty() && a0.back() == '/' && v.rfind(a0, 0) == 0);
        if (!ok)
            return false;
        p = q2 + 1;
        while (p < rule.size() && (rule[p] == ',' || rule[p] == ' '))
            p++;
    }
    return true;
}
// delivers a signal to whoever listens; the number of listeners
inline int signal(MsgData m)
{
    int n = 0;
    auto all = world().matches;
    for (auto& x : all)
        if (x->alive && ruleFits(x->rule, m))
        {
            m.pos = 0;
            x->fire(m);
            n++;
        }
    return n;
}
inline int propertiesChanged(
    const std::string& path, const std::string& itf,
    const std::vector<std::pair<std::string, Val>>& props,
    const std::string& sender = ":1.7")
{
    MsgData m;
    m.path = path;
    m.sender = sender;
    m.interface = "org.freedesktop.DBus.Properties";
    m.member = "PropertiesChanged";
    m.body = {vStr(itf), vProps(props), vStrs({})};
    return signal(std::move(m));
}
// the objects the daemon serves, by path: what a D-Bus client can get at
template <typename T>
std::map<std::string, T*>& served()
{
    static std::map<std::string, T*> m;
    return m;
}
} // namespace hv

struct sd_bus_message
{
    std::shared_ptr<hv::MsgData> d;
};
struct sd_bus_error
{
    int dummy;
};
using sd_bus_message_handler_t = int (*)(sd_bus_message*, void*, sd_bus_error*);

namespace sdbusplus
{
namespace exception
{
struct exception : public std::exception
{
    const char* name() const noexcept { return "hv.Error"; }
    const char* description() const noexcept { return "stub error"; }
    const char* what() const noexcept override { return "stub error"; }
    int get_errno() const noexcept { return 5; }
};
struct SdBusError final : public exception
{
    SdBusError() = default;
    SdBusError(int, const char*) {}
};
using UnpackPropertyError = SdBusError;
} // namespace exception
using exception_t = exception::exception;

namespace message
{
struct object_path
{
    std::string str;
    object_path() = default;
    object_path(const object_path&) = default;
    object_path(object_path&&) = default;
    object_path& operator=(const object_path&) = default;
    object_path& operator=(object_path&&) = default;
    object_path(const std::string& s) : str(s) {}
    object_path(std::string&& s) : str(std::move(s)) {}
    object_path(const char* s) : str(s) {}
    operator const std::string&() const { return str; }
    std::string filename() const { return str.substr(str.rfind('/') + 1); }
    bool operator==(const object_path& o) const { return str == o.str; }
    bool operator<(const object_path& o) const { return str < o.str; }
};
struct unix_fd
{
    int fd;
};
} // namespace message
using object_path = message::object_path;
} // namespace sdbusplus
namespace std
{
template <>
struct hash<sdbusplus::message::object_path>
{
    size_t operator()(const sdbusplus::message::object_path& o) const
    {
        return std::hash<std::string>{}(o.str);
    }
};
} // namespace std

namespace hv
{
[[noreturn]] inline void mismatch()
{
    throw sdbusplus::exception::SdBusError(-6, "type mismatch");
}
template <typename T>
struct isVariant : std::false_type
{};
template <typename... T>
struct isVariant<std::variant<T...>> : std::true_type
{};
template <typename T>
concept MapLike = requires { typename T::mapped_type; };
template <typename T>
concept SetLike = requires {
    typename T::key_type;
    typename T::value_type;
} && !MapLike<T> && std::is_same_v<typename T::key_type, typename T::value_type>;

template <typename T>
constexpr char intCode()
{
    if constexpr (std::is_same_v<T, bool>)
        return 'b';
    else if constexpr (sizeof(T) == 1)
        return 'y';
    else if constexpr (sizeof(T) == 2)
        return std::is_signed_v<T> ? 'n' : 'q';
    else if constexpr (sizeof(T) == 4)
        return std::is_signed_v<T> ? 'i' : 'u';
    else
        return std::is_signed_v<T> ? 'x' : 't';
}

template <typename T>
struct Conv;

// does the value have exactly this type?
template <typename T>
bool matches(const Val& v)
{
    return Conv<T>::is(v);
}
template <typename T>
    requires std::is_integral_v<T>
struct Conv<T>
{
    static bool is(const Val& v) { return v.t == intCode<T>(); }
    static void get(const Val& v, T& o)
    {
        if (!is(v))
            mismatch();
        if constexpr (std::is_same_v<T, bool>)
            o = v.i != 0;
        else
            o = (T)v.i;
    }
    static Val put(const T& x) { return vInt(intCode<T>(), (int64_t)x); }
};
template <typename T>
    requires std::is_floating_point_v<T>
struct Conv<T>
{
    static bool is(const Val& v) { return v.t == 'd'; }
    static void get(const Val& v, T& o)
    {
        if (!is(v))
            mismatch();
        o = (T)v.d;
    }
    static Val put(const T& x) { return vDbl((double)x); }
};
template <>
struct Conv<std::string>
{
    static bool is(const Val& v) { return v.t == 's' || v.t == 'g'; }
    static void get(const Val& v, std::string& o)
    {
        if (v.t != 's' && v.t != 'o' && v.t != 'g')
            mismatch();
        o = v.s;
    }
    static Val put(const std::string& x) { return vStr(x); }
};
template <>
struct Conv<const char*>
{
    static Val put(const char* x) { return vStr(x); }
};
template <>
struct Conv<char*>
{
    static Val put(const char* x) { return vStr(x); }
};
template <>
struct Conv<std::string_view>
{
    static Val put(std::string_view x) { return vStr(std::string(x)); }
};
template <>
struct Conv<sdbusplus::message::object_path>
{
    static bool is(const Val& v) { return v.t == 'o'; }
    static void get(const Val& v, sdbusplus::message::object_path& o)
    {
        if (v.t != 'o')
            mismatch();
        o.str = v.s;
    }
    static Val put(const sdbusplus::message::object_path& x)
    {
        return vStr(x.str, 'o');
    }
};
template <typename T>
std::string sigOf();
template <typename T>
bool arrayIs(const Val& v)
{
    if (v.t != 'a')
        return false;
    if (v.c.empty())
        return v.elem.empty() || v.elem == sigOf<T>();
    return matches<T>(v.c[0]);
}
template <typename T, typename A>
struct Conv<std::vector<T, A>>
{
    static bool is(const Val& v) { return arrayIs<T>(v); }
    static void get(const Val& v, std::vector<T, A>& o)
    {
        if (v.t != 'a')
            mismatch();
        o.clear();
        for (auto& x : v.c)
        {
            T e{};
            Conv<T>::get(x, e);
            o.push_back(std::move(e));
        }
    }
    static Val put(const std::vector<T, A>& x)
    {
        Val v;
        v.t = 'a';
        for (const auto& e : x)
            v.c.push_back(Conv<T>::put(e));
        return v;
    }
};
template <typename T, size_t N>
struct Conv<std::array<T, N>>
{
    static Val put(const std::array<T, N>& x)
    {
        Val v;
        v.t = 'a';
        for (const auto& e : x)
            v.c.push_back(Conv<T>::put(e));
        return v;
    }
};
template <SetLike T>
struct Conv<T>
{
    static bool is(const Val& v) { return arrayIs<typename T::value_type>(v); }
    static void get(const Val& v, T& o)
    {
        if (v.t != 'a')
            mismatch();
        o.clear();
        for (auto& x : v.c)
        {
            typename T::value_type e{};
            Conv<typename T::value_type>::get(x, e);
            o.insert(std::move(e));
        }
    }
};
template <MapLike T>
struct Conv<T>
{
    using K = typename T::key_type;
    using M = typename T::mapped_type;
    static bool is(const Val& v)
    {
        return v.t == 'a' &&
               (v.c.empty() || (v.c[0].t == 'r' && v.c[0].c.size() == 2 &&
                                matches<K>(v.c[0].c[0]) &&
                                matches<M>(v.c[0].c[1])));
    }
    static void get(const Val& v, T& o)
    {
        if (v.t != 'a')
            mismatch();
        o.clear();
        for (auto& x : v.c)
        {
            if (x.t != 'r' || x.c.size() != 2)
                mismatch();
            K k{};
            M m{};
            Conv<K>::get(x.c[0], k);
            Conv<M>::get(x.c[1], m);
            o.emplace(std::move(k), std::move(m));
        }
    }
    static Val put(const T& x)
    {
        Val v;
        v.t = 'a';
        for (const auto& e : x)
            v.c.push_back(vRec({Conv<K>::put(e.first), Conv<M>::put(e.second)}));
        return v;
    }
};
template <typename... T>
struct Conv<std::tuple<T...>>
{
    template <size_t... I>
    static bool isI(const Val& v, std::index_sequence<I...>)
    {
        return (matches<T>(v.c[I]) && ...);
    }
    static bool is(const Val& v)
    {
        return v.t == 'r' && v.c.size() == sizeof...(T) &&
               isI(v, std::index_sequence_for<T...>{});
    }
    template <size_t... I>
    static void getI(const Val& v, std::tuple<T...>& o,
                     std::index_sequence<I...>)
    {
        (Conv<T>::get(v.c[I], std::get<I>(o)), ...);
    }
    static void get(const Val& v, std::tuple<T...>& o)
    {
        if (v.t != 'r' || v.c.size() != sizeof...(T))
            mismatch();
        getI(v, o, std::index_sequence_for<T...>{});
    }
};
template <typename A, typename B>
struct Conv<std::pair<A, B>>
{
    static bool is(const Val& v)
    {
        return v.t == 'r' && v.c.size() == 2 && matches<A>(v.c[0]) &&
               matches<B>(v.c[1]);
    }
    static void get(const Val& v, std::pair<A, B>& o)
    {
        if (v.t != 'r' || v.c.size() != 2)
            mismatch();
        Conv<A>::get(v.c[0], o.first);
        Conv<B>::get(v.c[1], o.second);
    }
};
template <typename... T>
struct Conv<std::variant<T...>>
{
    using V = std::variant<T...>;
    static bool is(const Val& v) { return v.t == 'v'; }
    template <typename A>
    static bool tryOne(const Val& v, V& o)
    {
        if (!matches<A>(v))
            return false;
        A a{};
        Conv<A>::get(v, a);
        o = V(std::in_place_type<A>, std::move(a));
        return true;
    }
    static void get(const Val& v, V& o)
    {
        if (v.t != 'v' || v.c.size() != 1)
            mismatch();
        // no alternative fits: sdbusplus skips the value and leaves a
        // default-constructed first alternative
        if (!(tryOne<T>(v.c[0], o) || ...))
            o = V{};
    }
    static Val put(const V& x)
    {
        return vVar(std::visit(
            [](const auto& a) { return Conv<std::decay_t<decltype(a)>>::put(a); },
            x));
    }
};
template <typename T>
std::string sigOf()
{
    if constexpr (std::is_same_v<T, std::string>)
        return "s";
    else if constexpr (std::is_floating_point_v<T>)
        return "d";
    else if constexpr (std::is_integral_v<T>)
        return std::string(1, intCode<T>());
    else
        return "?";
}
} // namespace hv

namespace sdbusplus
{
namespace message
{
class message
{
  public:
    std::shared_ptr<hv::MsgData> d = std::make_shared<hv::MsgData>();
    message() = default;
    explicit message(sd_bus_message* m) : d(m->d) {}
    explicit message(std::shared_ptr<hv::MsgData> x) : d(std::move(x)) {}
    template <typename... Args>
    void append(Args&&... args)
    {
        (d->body.push_back(hv::Conv<std::decay_t<Args>>::put(args)), ...);
    }
    template <typename T>
    void readOne(T& o)
    {
        if (d->pos >= d->body.size())
            hv::mismatch();
        hv::Conv<T>::get(d->body[d->pos], o);
        d->pos++;
    }
    template <typename... Args>
    void read(Args&... args)
    {
        (readOne(args), ...);
    }
    template <typename... Args>
    auto unpack()
    {
        if constexpr (sizeof...(Args) == 0)
            return;
        else if constexpr (sizeof...(Args) == 1)
        {
            std::tuple<Args...> r{};
            read(std::get<0>(r));
            return std::get<0>(std::move(r));
        }
        else
        {
            std::tuple<Args...> r{};
            std::apply([&](auto&... a) { read(a...); }, r);
            return r;
        }
    }
    const char* get_path() const { return d->path.c_str(); }
    const char* get_interface() const { return d->interface.c_str(); }
    const char* get_member() const { return d->member.c_str(); }
    const char* get_destination() const { return d->service.c_str(); }
    const char* get_sender() const { return d->sender.c_str(); }
    bool is_method_error() const { return false; }
    bool is_signal(const char* i, const char* m) const
    {
        return d->interface == i && d->member == m;
    }
    int get_errno() const { return 0; }
    explicit operator bool() const { return true; }
};
} // namespace message
using message_t = message::message;

namespace bus
{
class bus
{
  public:
    std::string kind;
    explicit bus(std::string k = "default") : kind(std::move(k)) {}
    message_t new_method_call(const char* s, const char* p, const char* i,
                              const char* m)
    {
        message_t x;
        x.d->service = s;
        x.d->path = p;
        x.d->interface = i;
        x.d->member = m;
        x.d->bus = kind;
        return x;
    }
    message_t new_method_call(const std::string& s, const std::string& p,
                              const std::string& i, const std::string& m)
    {
        return new_method_call(s.c_str(), p.c_str(), i.c_str(), m.c_str());
    }
    message_t call(message_t& m) { return doCall(m, false); }
    message_t call(message_t& m, uint64_t) { return doCall(m, false); }
    template <class R, class P>
    message_t call(message_t& m, std::chrono::duration<R, P>)
    {
        return doCall(m, false);
    }
    void call_noreply(message_t& m) { doCall(m, true); }
    void call_noreply(message_t& m, uint64_t) { doCall(m, true); }
    void request_name(const char* n) { hv::world().names.push_back(n); }
    void attach_event(void*, int) {}
    void process_discard() {}

  private:
    message_t doCall(message_t& m, bool nr)
    {
        m.d->noreply = nr;
        hv::world().calls.push_back(*m.d);
        message_t r;
        if (!hv::world().handler ||
            !hv::world().handler(*m.d, r.d->body))
            throw exception::SdBusError(-5, "sd_bus_call");
        return r;
    }
};
inline bus new_default() { return bus("default"); }
inline bus new_default_system() { return bus("system"); }
inline bus new_system() { return bus("system"); }
inline bus new_user() { return bus("user"); }
inline bus new_bus() { return bus("bus"); }
} // namespace bus
using bus_t = bus::bus;

namespace bus
{
namespace match
{
class match
{
  public:
    std::shared_ptr<hv::MatchData> m;
    match(bus_t&, const std::string& rule, sd_bus_message_handler_t h,
          void* ctx = nullptr)
    {
        add(rule, [h, ctx](hv::MsgData& d) {
            sd_bus_message s{std::make_shared<hv::MsgData>(d)};
            h(&s, ctx, nullptr);
        });
    }
    match(bus_t&, const std::string& rule, std::function<void(message_t&)> cb)
    {
        add(rule, [cb](hv::MsgData& d) {
            message_t x(std::make_shared<hv::MsgData>(d));
            cb(x);
        });
    }
    match(const match&) = delete;
    match& operator=(const match&) = delete;
    match(match&& o) : m(std::move(o.m)) {}
    match& operator=(match&& o)
    {
        m.swap(o.m);
        return *this;
    }
    ~match()
    {
        if (m)
            m->alive = false;
    }

  private:
    void add(const std::string& rule, std::function<void(hv::MsgData&)> f)
    {
        m = std::make_shared<hv::MatchData>();
        m->rule = rule;
        m->fire = std::move(f);
        hv::world().matches.push_back(m);
    }
};
namespace rules
{
inline std::string type_signal() { return "type='signal',"; }
inline std::string propertiesChangedNamespace(std::string_view p,
                                              std::string_view i)
{
    return "type='signal',member='PropertiesChanged',interface='org.freedesktop."
           "DBus.Properties',path_namespace='" +
           std::string(p) + "',arg0namespace='" + std::string(i) + "',";
}
inline std::string propertiesChanged(std::string_view p, std::string_view i)
{
    return "type='signal',member='PropertiesChanged',interface='org.freedesktop."
           "DBus.Properties',path='" +
           std::string(p) + "',arg0='" + std::string(i) + "',";
}
inline std::string interfacesAdded()
{
    return "type='signal',member='InterfacesAdded',";
}
inline std::string interfacesRemoved()
{
    return "type='signal',member='InterfacesRemoved',";
}
inline std::string path(std::string_view p)
{
    return "path='" + std::string(p) + "',";
}
inline std::string argNpath(size_t n, std::string_view p)
{
    return "arg" + std::to_string(n) + "path='" + std::string(p) + "',";
}
} // namespace rules
} // namespace match
using match_t = match::match;
} // namespace bus
using match = bus::match::match;
namespace match_rules = bus::match::rules;

namespace server
{
namespace manager
{
struct manager
{
    manager(bus_t&, const char* p) { hv::world().managers.push_back(p); }
};
} // namespace manager
using manager_t = manager::manager;
namespace object
{
namespace details
{
struct ActionBase
{
    enum class action
    {
        emit_object_added,
        emit_interface_added,
        defer_emit,
        emit_no_signals,
    };
};
} // namespace details
template <class... Args>
class object : public details::ActionBase, public Args...
{
  public:
    std::string hvPath;
    int hvAnnounced = 0;
    object(bus_t& b, const char* p, action a = action::emit_object_added) :
        Args(b, p)..., hvPath(p)
    {
        hv::world().servedOn[hvPath] = b.kind;
        if (a == action::emit_object_added)
            emit_object_added();
    }
    void emit_object_added()
    {
        if (!hvAnnounced++)
            hv::world().objects.push_back(hvPath);
    }
    void emit_added() { emit_object_added(); }
};
} // namespace object
template <class... Args>
using object_t = object::object<Args...>;
} // namespace server

namespace asio
{
class connection : public bus_t
{
  public:
    template <class IO>
    explicit connection(IO&) : bus_t("asio")
    {}
    template <class IO>
    connection(IO&, bus_t&& b) : bus_t(std::move(b))
    {}
};
} // namespace asio
} // namespace sdbusplus
