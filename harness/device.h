// A device with its own thread, driven from outside.
#ifndef VERIF_HARNESS_DEVICE_H
#define VERIF_HARNESS_DEVICE_H
#include <common.h>
#include <fairmq/Device.h>
#include <algorithm>
#include <initializer_list>
#include <optional>
#include <string>
#include <thread>

namespace drv {
// All waiting is on announced states, with a generous limit; "hang" ends the driver.
template<typename D>
struct DeviceUnderTest
{
    D dev;
    std::thread runner;
    std::mutex m;
    std::condition_variable cv;
    std::vector<fair::mq::State> seen;
    std::string ended;          // how RunStateMachine ended: "" (not yet), "return", "exception: ..."
    bool done = false;
    int limitMs = 60000;

    template<typename... Args>
    DeviceUnderTest(Args&&... args) : dev(std::forward<Args>(args)...) {}
    D* operator->() { return &dev; }
    D& operator*() { return dev; }
    void start()
    {
        dev.SubscribeToStateChange("zzz-driver", [this](fair::mq::State s) { std::lock_guard<std::mutex> l(m); seen.push_back(s); cv.notify_all(); });
        runner = std::thread([this] {
            std::string e = "return";
            try { dev.RunStateMachine(); } catch (std::exception const& x) { e = std::string("exception: ") + x.what(); } catch (...) { e = "exception: ?"; }
            std::lock_guard<std::mutex> l(m);
            ended = e;
            done = true;
            cv.notify_all();
        });
    }
    // index of the next announcement to come
    size_t mark() { std::lock_guard<std::mutex> l(m); return seen.size(); }
    // waits until one of the states has been announced at position >= from
    std::optional<fair::mq::State> await(size_t from, std::vector<fair::mq::State> const& want, int ms = -1)
    {
        std::unique_lock<std::mutex> l(m);
        std::optional<fair::mq::State> r;
        cv.wait_for(l, std::chrono::milliseconds(ms < 0 ? limitMs : ms), [&] {
            for (size_t i = from; i < seen.size(); ++i) { if (std::find(want.begin(), want.end(), seen[i]) != want.end()) { r = seen[i]; return true; } }
            return false;
        });
        return r;
    }
    void hang(std::string const& what)
    {
        std::printf("{\"stuck\":%s}\n", js(what).c_str());
        std::fflush(stdout);
        std::_Exit(3);
    }
    fair::mq::State request(fair::mq::Transition t, std::vector<fair::mq::State> want)
    {
        size_t n = mark();
        if (!dev.ChangeState(t)) { throw std::runtime_error("transition refused: " + fair::mq::GetTransitionName(t)); }
        auto s = await(n, want);
        if (!s) { hang("no state after " + fair::mq::GetTransitionName(t)); }
        return *s;
    }
    bool awaitEnd(int ms)
    {
        std::unique_lock<std::mutex> l(m);
        return cv.wait_for(l, std::chrono::milliseconds(ms), [&] { return done; });
    }
    // brings the device home whatever its state
    void finish()
    {
        using namespace fair::mq;
        for (int i = 0; i < 200 && !awaitEnd(0); ++i) {
            bool moved = false;
            for (Transition t : {Transition::Stop, Transition::ResetTask, Transition::ResetDevice, Transition::CompleteInit, Transition::End}) {
                if (dev.GetCurrentState() == State::Error || awaitEnd(0)) { break; }
                if (dev.ChangeState(t)) { moved = true; break; }
            }
            awaitEnd(moved ? 2 : 10);
        }
        if (!awaitEnd(limitMs)) { hang("the device does not end"); }
        runner.join();
        dev.UnsubscribeFromStateChange("zzz-driver");
    }
    ~DeviceUnderTest() { if (runner.joinable()) { finish(); } }
};
}   // namespace drv
#endif
