// A stand-in for the parts of boost::asio the daemon uses: the harness owns
// the event loop and decides what runs next.
#pragma once
#include <chrono>
#include <cstdint>
#include <functional>
#include <list>
#include <memory>
#include <string>
#include <vector>

namespace boost
{
namespace system
{
class error_code
{
  public:
    int v = 0;
    error_code() = default;
    explicit error_code(int x) : v(x) {}
    template <typename E>
        requires std::is_enum_v<E>
    error_code(E e) : v((int)e)
    {}
    explicit operator bool() const { return v != 0; }
    bool operator!() const { return v == 0; }
    int value() const { return v; }
    bool failed() const { return v != 0; }
    std::string message() const { return v ? "error" : "success"; }
    friend bool operator==(const error_code& a, const error_code& b)
    {
        return a.v == b.v;
    }
    friend bool operator!=(const error_code& a, const error_code& b)
    {
        return a.v != b.v;
    }
    template <typename E>
        requires std::is_enum_v<E>
    friend bool operator==(const error_code& a, E e)
    {
        return a.v == (int)e;
    }
    template <typename E>
        requires std::is_enum_v<E>
    friend bool operator!=(const error_code& a, E e)
    {
        return a.v != (int)e;
    }
};
} // namespace system
namespace asio
{
namespace error
{
enum basic_errors
{
    operation_aborted = 125,
    bad_descriptor = 9,
};
} // namespace error

class steady_timer;
using Handler = std::function<void(const boost::system::error_code&)>;

class io_context
{
  public:
    std::list<std::function<void()>> queue; // ready to run
    bool stopped_ = false;
    void stop() { stopped_ = true; }
    bool stopped() const { return stopped_; }
    std::size_t run();
    std::size_t run_one();
    void restart() { stopped_ = false; }
    io_context& get_executor() { return *this; }
};

struct HvTimer
{
    std::chrono::steady_clock::time_point at{};
    Handler cb;
    io_context* io = nullptr;
    std::uint64_t seq = 0;
    bool fromNow = false;
    std::chrono::nanoseconds delay{};
};
struct HvAsio
{
    std::vector<std::shared_ptr<HvTimer>> pending; // timers with a waiter
    std::uint64_t seq = 0;
    // called by io_context::run(): the harness's event loop
    std::function<void(io_context&)> runHook;
    void drop(const std::shared_ptr<HvTimer>& t)
    {
        for (std::size_t i = 0; i < pending.size(); i++)
            if (pending[i] == t)
            {
                pending.erase(pending.begin() + (long)i);
                return;
            }
    }
    bool has(const std::shared_ptr<HvTimer>& t)
    {
        for (auto& p : pending)
            if (p == t)
                return true;
        return false;
    }
};
inline HvAsio& hvAsio()
{
    static HvAsio a;
    return a;
}
inline std::size_t io_context::run()
{
    if (hvAsio().runHook)
        hvAsio().runHook(*this);
    return 0;
}
inline std::size_t io_context::run_one()
{
    if (queue.empty())
        return 0;
    auto f = std::move(queue.front());
    queue.pop_front();
    f();
    return 1;
}

template <typename F>
void post(io_context& io, F f)
{
    io.queue.push_back(std::function<void()>(std::move(f)));
}
template <typename F>
void dispatch(io_context& io, F f)
{
    post(io, std::move(f));
}

class steady_timer
{
  public:
    using clock_type = std::chrono::steady_clock;
    using duration = clock_type::duration;
    using time_point = clock_type::time_point;
    std::shared_ptr<HvTimer> t = std::make_shared<HvTimer>();
    explicit steady_timer(io_context& io) { t->io = &io; }
    template <class R, class P>
    steady_timer(io_context& io, std::chrono::duration<R, P> d)
    {
        t->io = &io;
        expires_after(d);
    }
    steady_timer(io_context& io, time_point p)
    {
        t->io = &io;
        expires_at(p);
    }
    steady_timer(const steady_timer&) = delete;
    steady_timer& operator=(const steady_timer&) = delete;
    ~steady_timer() { cancel(); }
    std::size_t cancel()
    {
        std::size_t n = 0;
        if (hvAsio().has(t))
        {
            n = 1;
            hvAsio().drop(t);
            Handler cb = std::move(t->cb);
            t->cb = nullptr;
            t->io->queue.push_back([cb] {
                cb(boost::system::error_code(error::operation_aborted));
            });
        }
        return n;
    }
    time_point expiry() const { return t->at; }
    time_point expires_at() const { return t->at; }
    std::size_t expires_at(time_point p)
    {
        std::size_t n = cancel();
        t->at = p;
        t->fromNow = false;
        return n;
    }
    template <class R, class P>
    std::size_t expires_after(std::chrono::duration<R, P> d)
    {
        std::size_t n = cancel();
        t->delay = std::chrono::duration_cast<std::chrono::nanoseconds>(d);
        t->at = clock_type::now() +
                std::chrono::duration_cast<clock_type::duration>(d);
        t->fromNow = true;
        return n;
    }
    template <class R, class P>
    std::size_t expires_from_now(std::chrono::duration<R, P> d)
    {
        return expires_after(d);
    }
    template <typename F>
    void async_wait(F f)
    {
        t->cb = Handler(std::move(f));
        t->seq = ++hvAsio().seq;
        if (!hvAsio().has(t))
            hvAsio().pending.push_back(t);
    }
};

class signal_set
{
  public:
    std::vector<int> sigs;
    std::function<void(const boost::system::error_code&, int)> cb;
    template <typename... S>
    explicit signal_set(io_context&, S... s) : sigs{s...}
    {}
    template <typename F>
    void async_wait(F f)
    {
        cb = std::move(f);
    }
    void add(int s) { sigs.push_back(s); }
    void cancel() { cb = nullptr; }
};
} // namespace asio
} // namespace boost
namespace hv
{
// expires one pending timer
inline void fireTimer(std::size_t i)
{
    auto t = boost::asio::hvAsio().pending[i];
    boost::asio::hvAsio().drop(t);
    auto cb = std::move(t->cb);
    t->cb = nullptr;
    cb(boost::system::error_code());
}
} // namespace hv
