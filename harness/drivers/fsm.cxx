// Steps the real state machine through behaviours of spec/DeviceFSM.tla.
// The worker (ProcessWork) is held at gates inside the user callbacks.
// Input lines:  walk <id> <gates,comma separated> | <op> <expected rest> [<arg with blanks>]
// Output: one JSON line per op with what was observed.
#include <common.h>
#include <future>
#include <fairmq/StateMachine.h>
#include <fairmq/States.h>
#include <random>
#include <set>

using namespace fair::mq;
using namespace std;
using drv::js;

namespace {

struct Boom : runtime_error { using runtime_error::runtime_error; };

struct Machine
{
    mutex m;
    condition_variable cv;
    string at{"none"};    // gate the worker is held at
    bool release = false;
    bool boom = false;
    bool open = false;   // gates disabled
    bool ended = false;
    string end;
    bool notifyGateDone = true;   // the announcement of the initial state has no gate
    set<string> gates;
    vector<string> told, nt;
    StateMachine fsm;
    thread worker;

    void gate(string const& name)
    {
        unique_lock<mutex> l(m);
        if (open || gates.count(name) == 0) { return; }
        at = name;
        cv.notify_all();
        cv.wait(l, [&] { return release || open; });
        release = false;
        at = "none";
        cv.notify_all();
        if (boom) {
            boom = false;
            open = true;
            throw Boom("user code failed");
        }
    }
    bool waitAt(string const& what, int ms = 20000)
    {
        unique_lock<mutex> l(m);
        return cv.wait_for(l, chrono::milliseconds(ms), [&] { return what == "stopped" ? ended : at == what || (at != "none" && !release) || ended; });
    }
    void begin()
    {
        fsm.PrepareState([&](State) {
            { lock_guard<mutex> l(m); notifyGateDone = false; }
            gate("prep");
        });
        fsm.HandleStates([&](State) { gate("handle"); });
        // told after everybody else that the worker has begun
        auto begun = make_shared<promise<void>>();
        auto once = make_shared<atomic<bool>>(false);
        fsm.SubscribeToStateChange("999999begun", [begun, once](State) { if (!once->exchange(true)) { begun->set_value(); } });
        fsm.Start();
        worker = thread([&] {
            string e = "normal";
            try {
                fsm.ProcessWork();
            } catch (StateMachine::ErrorStateException&) {
                e = "exception";
            } catch (Boom&) {
                e = "exception";
            } catch (...) {
                e = "other";
            }
            lock_guard<mutex> l(m);
            ended = true;
            end = e;
            cv.notify_all();
        });
        begun->get_future().wait_for(chrono::seconds(5));
        fsm.UnsubscribeFromStateChange("999999begun");
    }
    void callback(string const& k, State s)
    {
        bool g = false;
        {
            lock_guard<mutex> l(m);
            if (s != State::Error && !notifyGateDone) { g = true; notifyGateDone = true; }
        }
        if (g) { gate("notify"); }
        lock_guard<mutex> l(m);
        told.push_back(k + ":" + GetStateName(s));
        cv.notify_all();
    }
    bool waitTold(size_t n, int ms = 20000)
    {
        unique_lock<mutex> l(m);
        return cv.wait_for(l, chrono::milliseconds(ms), [&] { return told.size() >= n; });
    }
    void observe(string const& res)
    {
        string c = fsm.GetCurrentStateName();
        bool p = fsm.NewStatePending();
        bool p2 = fsm.WaitForPendingStateFor(0);
        lock_guard<mutex> l(m);
        cout << "{\"res\":" << js(res) << ",\"cur\":" << js(c) << ",\"pending\":" << (p ? "true" : "false") << ",\"pending2\":" << (p2 ? "true" : "false")
             << ",\"at\":" << js(ended ? string("stopped") : at) << ",\"end\":" << js(end) << ",\"told\":" << drv::jlist(told) << ",\"nt\":" << drv::jlist(nt) << "}" << endl;
        told.clear();
        nt.clear();
    }
};

void die(string const& why)
{
    cout << "{\"stuck\":" << js(why) << "}" << endl;
    _exit(0);
}

void finish(unique_ptr<Machine>& mc)
{
    if (!mc) { return; }
    if (mc->worker.joinable()) {
        { lock_guard<mutex> l(mc->m); mc->open = true; mc->cv.notify_all(); }
        for (int i = 0; i < 400; ++i) {
            mc->fsm.ChangeState(Transition::ErrorFound);
            if (mc->waitAt("stopped", 50)) { break; }
        }
        if (!mc->waitAt("stopped", 10)) { die("the worker did not end after an error request"); }
        mc->worker.join();
    }
    mc.reset();
}
}   // namespace

// Free-running mode: threads hammer the machine; every event is logged in a total order.
// Input (argv): conc <seed> <threads> <requests per thread>
int concurrent(int argc, char** argv)
{
    unsigned seed = stoul(argv[2]);
    int nthreads = stoi(argv[3]), nreq = stoi(argv[4]);
    bool subs = stoi(argv[5]);
    mutex m;
    vector<string> ev;
    auto add = [&](string const& s) { lock_guard<mutex> l(m); ev.push_back(s); };
    StateMachine fsm;
    thread_local static int self = 0;
    atomic<bool> ended{false};
    mt19937 wr(seed * 7919 + 13);
    auto pause = [](mt19937& r) {
        int k = r() % 4;
        if (k == 0) { this_thread::yield(); }
        else if (k == 1) { this_thread::sleep_for(chrono::microseconds(r() % 300)); }
    };
    fsm.SubscribeToNewTransition("t", [&](Transition t) { add("{\"e\":\"nt\",\"th\":" + to_string(self) + ",\"t\":" + js(GetTransitionName(t)) + "}"); });
    auto cb = [&](string k) { return [&, k](State s) {
        add("{\"e\":\"told\",\"k\":" + js(k) + ",\"s\":" + js(GetStateName(s)) + "}");
    }; };
    fsm.SubscribeToStateChange("a", cb("a"));
    add("{\"e\":\"sub\",\"k\":\"a\"}");
    fsm.PrepareState([&](State s) { add("{\"e\":\"prep\",\"s\":" + js(GetStateName(s)) + "}"); pause(wr); });
    fsm.HandleStates([&](State s) {
        add("{\"e\":\"handle\",\"s\":" + js(GetStateName(s)) + "}");
        pause(wr);
        add("{\"e\":\"handled\",\"s\":" + js(GetStateName(s)) + "}");
    });
    fsm.Start();
    thread worker([&] {
        self = 0;
        string e = "normal";
        try { fsm.ProcessWork(); } catch (...) { e = "exception"; }
        add("{\"e\":\"end\",\"how\":" + js(e) + "}");
        ended = true;
    });
    vector<thread> ths;
    for (int i = 1; i <= nthreads; ++i) {
        ths.emplace_back([&, i] {
            self = i;
            mt19937 r(seed * 1000 + i);
            for (int n = 0; n < nreq; ++n) {
                int k = r() % 24;
                if (subs && k == 0) {
                    // only thread 1 owns subscriber "b"
                    if (i == 1) {
                        add("{\"e\":\"subcall\",\"k\":\"b\"}");
                        fsm.SubscribeToStateChange("b", cb("b"));
                        add("{\"e\":\"sub\",\"k\":\"b\"}");
                    }
                } else if (subs && k == 1) {
                    if (i == 1) {
                        add("{\"e\":\"unsubcall\",\"k\":\"b\"}");
                        fsm.UnsubscribeFromStateChange("b");
                        add("{\"e\":\"unsub\",\"k\":\"b\"}");
                    }
                } else {
                    // mostly follow the diagram, sometimes ask for anything
                    Transition t;
                    if (r() % 5 == 0) {
                        t = static_cast<Transition>(r() % 10);   // no END, no ERROR FOUND
                    } else {
                        switch (fsm.GetCurrentState()) {
                            case State::Idle: t = Transition::InitDevice; break;
                            case State::InitializingDevice: t = Transition::CompleteInit; break;
                            case State::Initialized: t = r() % 3 ? Transition::Bind : Transition::ResetDevice; break;
                            case State::Bound: t = r() % 3 ? Transition::Connect : Transition::ResetDevice; break;
                            case State::DeviceReady: t = r() % 3 ? Transition::InitTask : Transition::ResetDevice; break;
                            case State::Ready: t = r() % 3 ? Transition::Run : Transition::ResetTask; break;
                            case State::Running: t = Transition::Stop; break;
                            default: t = Transition::Auto; break;
                        }
                    }
                    string tn = js(GetTransitionName(t));
                    add("{\"e\":\"call\",\"th\":" + to_string(i) + ",\"t\":" + tn + "}");
                    bool res = fsm.ChangeState(t);
                    add("{\"e\":\"ret\",\"th\":" + to_string(i) + ",\"t\":" + tn + ",\"res\":" + (res ? "true" : "false") + "}");
                }
                pause(r);
            }
        });
    }
    for (auto& t : ths) { t.join(); }
    self = 9;
    // an error request always gets through
    add("{\"e\":\"call\",\"th\":9,\"t\":\"ERROR FOUND\"}");
    bool res = fsm.ChangeState(Transition::ErrorFound);
    add(string("{\"e\":\"ret\",\"th\":9,\"t\":\"ERROR FOUND\",\"res\":") + (res ? "true" : "false") + "}");
    for (int i = 0; i < 2000 && !ended; ++i) { this_thread::sleep_for(chrono::milliseconds(10)); }
    if (!ended) {
        lock_guard<mutex> l(m);
        for (auto const& s : ev) { cout << s << "\n"; }
        die("the worker did not end after an error request");
    }
    worker.join();
    for (auto const& s : ev) { cout << s << "\n"; }
    cout << flush;
    return 0;
}

int main(int argc, char** argv)
{
    if (argc > 1 && string(argv[1]) == "conc") { return concurrent(argc, argv); }
    string line;
    unique_ptr<Machine> mc;
    while (getline(cin, line)) {
        auto f = drv::split(line, '|');
        string const& op = f.at(0);
        if (op == "walk") {
            finish(mc);
            mc = make_unique<Machine>();
            for (auto const& g : drv::split(f.at(2), ',')) { mc->gates.insert(g); }
            cout << "{\"walk\":" << f.at(1) << "}" << endl;
            continue;
        }
        Machine& x = *mc;
        string const& at = f.at(1);
        string arg = f.size() > 2 ? f[2] : "";
        size_t ntold = f.size() > 3 && !f[3].empty() ? stoul(f[3]) : 0;
        string res;
        if (op == "begin") {
            x.begin();
        } else if (op == "req") {
            res = x.fsm.ChangeState(GetTransition(arg)) ? "true" : "false";
        } else if (op == "adv" || op == "throw") {
            unique_lock<mutex> l(x.m);
            x.boom = op == "throw";
            x.release = true;
            x.cv.notify_all();
            if (!x.cv.wait_for(l, chrono::seconds(20), [&] { return !x.release; })) { l.unlock(); die("the worker is not at a gate"); }
        } else if (op == "sub") {
            x.fsm.SubscribeToStateChange(arg, [&x, arg](State s) { x.callback(arg, s); });
        } else if (op == "unsub") {
            x.fsm.UnsubscribeFromStateChange(arg);
        } else if (op == "tsub") {
            x.fsm.SubscribeToNewTransition(arg, [&x, arg](Transition t) {
                lock_guard<mutex> l(x.m);
                x.nt.push_back(arg + ":" + GetTransitionName(t));
            });
        } else if (op == "tunsub") {
            x.fsm.UnsubscribeFromNewTransition(arg);
        }
        if (at != "same" && at != "wait") {
            if (!x.waitAt(at)) { die("the worker did not come to " + at + " after " + op + " " + arg); }
        }
        if (ntold > 0 && at != "handle" && at != "stopped") {
            if (!x.waitTold(ntold)) { die("subscribers not told after " + op); }
        }
        x.observe(res);
    }
    finish(mc);
    cout << "{\"done\":true}" << endl;
    return 0;
}
