// A real device whose user code does as it is told, stepped through behaviours of spec/DeviceLife_Gen.tla.
#include <device.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/shmem/Common.h>
#include <cstring>
#include <deque>
#include <filesystem>
#include <random>
using namespace std;
using namespace fair::mq;
using namespace std::chrono;

static mt19937 gRng;
static string gDir;
static int pick(int n) { return static_cast<int>(gRng() % n); }
static constexpr size_t kMsg = 64000, kChunk = 300000, kSeg = 6000000;

struct Plan { string op, how, at; bool open = false; };   // open: requests arrive at any time

struct Gadget : Device
{
    mutex m;
    condition_variable cv;
    vector<string> hooks;
    string err;
    thread::id owner{};
    Plan plan;
    int confAtInit = 0;
    int cond = 0;
    atomic<bool> blocked{false}, gate{false};
    vector<unsigned> tx, rx;     // numbers of the messages sent/received so far, per sub-channel
    map<int, deque<bool>> flight; // per sub-channel: whether sent as parts (and to be received so)

    bool free = false;           // nobody tells what to do
    vector<string> log;
    void note(string const& e) { if (free) { lock_guard<mutex> l(m); log.push_back(e); } }
    void noteMsg(char const* what, int i, unsigned n) { if (free) { note(string("{\"e\":\"") + what + "\",\"i\":" + to_string(i) + ",\"n\":" + to_string(n) + "}"); } }
    void bad(string const& e) { lock_guard<mutex> l(m); if (err.empty()) { err = e; } }
    static int subs(int v) { return v == 0 ? 1 : 2; }
    static string addr(int v, int i) { return (v == 2 ? "ipc://" + gDir + "/s" : string("inproc://v") + to_string(v) + "-") + to_string(i); }
    void configure(int v)
    {
        auto& c = *fConfig;
        for (auto const& k : c.GetPropertyKeys()) { if (k.rfind("chans.", 0) == 0) { c.DeleteProperty(k); } }
        string tr = v == 1 ? "shmem" : "zeromq";
        c.SetProperty<string>("transport", v == 2 ? "shmem" : tr);    // (version 2: not the transport of its channels)
        for (int i = 0; i < subs(v); ++i) {
            for (string n : {"in", "out"}) {
                string k = "chans." + n + "." + to_string(i) + ".";
                c.SetProperty<string>(k + "type", n == "in" ? "pull" : "push");
                c.SetProperty<string>(k + "method", n == "in" ? "bind" : "connect");
                c.SetProperty<string>(k + "address", addr(v, i));
                c.SetProperty<string>(k + "transport", v == 2 ? tr : "default");
                c.SetProperty<int>(k + "sndBufSize", 4);
                c.SetProperty<int>(k + "rcvBufSize", 4);
                c.SetProperty<int>(k + "rateLogging", 0);
            }
        }
        if (v == 2) {
            c.SetProperty<string>("chans.aux.0.type", "push");
            c.SetProperty<string>("chans.aux.0.method", "bind");
            c.SetProperty<string>("chans.aux.0.address", "inproc://aux");
            c.SetProperty<string>("chans.aux.0.transport", "shmem");
            c.SetProperty<int>("chans.aux.0.rateLogging", 0);
        }
    }
    // what is wrong with the channels, if made from configuration v
    string channelsWrong(int v)
    {
        auto& ch = GetChannels();
        if (ch.size() != (v == 2 ? 3u : 2u)) { return "number of channels " + to_string(ch.size()); }
        for (string n : {"in", "out"}) {
            if (!ch.count(n)) { return "no channel " + n; }
            if (ch.at(n).size() != static_cast<size_t>(subs(v))) { return "sub-channels of " + n + ": " + to_string(ch.at(n).size()); }
            if (GetNumSubChannels(n) != static_cast<size_t>(subs(v))) { return "GetNumSubChannels"; }
            for (int i = 0; i < subs(v); ++i) {
                auto& c = ch.at(n).at(i);
                if (c.GetAddress() != addr(v, i)) { return "address " + c.GetAddress(); }
                if (c.GetTransportName() != (v == 1 ? "shmem" : "zeromq")) { return "transport " + c.GetTransportName(); }
                if (&GetChannel(n, i) != &c) { return "GetChannel"; }
            }
        }
        return "";
    }
    unique_ptr<Message> make(int i, unsigned n, size_t size)
    {
        auto p = NewMessageFor("out", i, size);
        memset(p->GetData(), static_cast<int>(n & 0xff), size);
        memcpy(p->GetData(), &n, sizeof n);
        return p;
    }
    void got(int i, Message& p)
    {
        unsigned n = 0;
        if (p.GetSize() < sizeof n) { bad("message of size " + to_string(p.GetSize())); return; }
        memcpy(&n, p.GetData(), sizeof n);
        if (n != rx[i]) { bad("message " + to_string(n) + " received instead of " + to_string(rx[i])); }
        noteMsg("got", i, n);
        rx[i] = n + 1;
        auto d = static_cast<unsigned char*>(p.GetData());
        for (size_t k = sizeof n; k < p.GetSize(); ++k) { if (d[k] != (n & 0xff)) { bad("content of message " + to_string(n)); return; } }
    }
    // sends and receives on every sub-channel; when strict everything has to work
    void exchange(string const& where, bool strict)
    {
        for (size_t i = 0; i < rx.size(); ++i) {
            while (rx[i] != tx[i]) { if (!take(where, i, strict)) { break; } }    // left over
            for (int k = 0; k < 3; ++k) {
                bool parts = pick(3) == 0;
                int64_t r;
                if (parts) {
                    Parts ps;
                    ps.AddPart(make(i, tx[i], 100));
                    ps.AddPart(make(i, tx[i] + 1, 2000));
                    r = Send(ps, "out", i, 20000);
                    if (r >= 0) { noteMsg("sent", i, tx[i]); noteMsg("sent", i, tx[i] + 1); tx[i] += 2; flight[i].push_back(true); } else if (ps.Size() != 2 || !ps.At(0) || ps.At(1)->GetSize() != 2000) { bad("parts not left with the caller"); }
                } else {
                    auto p = make(i, tx[i], 700);
                    r = Send(p, "out", i, 20000);
                    if (r >= 0) { noteMsg("sent", i, tx[i]); tx[i] += 1; flight[i].push_back(false); } else if (!p || p->GetSize() != 700) { bad("message not left with the caller"); }
                }
                if (r < 0 && (strict || r != static_cast<int64_t>(TransferCode::interrupted))) { bad(where + ": send on " + to_string(i) + " returned " + to_string(r)); return; }
                if (r < 0) { break; }
                // everything in flight
                while (rx[i] != tx[i]) { if (!take(where, i, strict)) { break; } }
            }
        }
    }
    bool take(string const& where, int i, bool strict)
    {
        Parts ps;
        bool parts = flight[i].front();
        MessagePtr one = NewMessageFor("in", i);
        auto r = parts ? Receive(ps, "in", i, 20000) : Receive(one, "in", i, 20000);
        if (r < 0) {
            if (strict || r != static_cast<int64_t>(TransferCode::interrupted)) { bad(where + ": receive on " + to_string(i) + " returned " + to_string(r) + " with " + to_string(tx[i] - rx[i]) + " messages outstanding"); }
            return false;
        }
        if (parts && ps.Size() != 2) { bad(to_string(ps.Size()) + " parts received"); }
        if (parts) { for (auto& p : ps) { got(i, *p); } } else { got(i, *one); }
        flight[i].pop_front();
        return true;
    }
    void expectInterrupted(string const& what, int64_t r)
    {
        if (r != static_cast<int64_t>(TransferCode::interrupted)) { bad(what + " returned " + to_string(r) + " although nothing can be transferred and a request is pending"); }
    }
    // blocks until somebody asks the device to leave the state
    void block(string const& kind)
    {
        auto recv = [&](bool parts) {
            MessagePtr p = NewMessageFor("in", 0);
            Parts ps;
            int64_t r = parts ? Receive(ps, "in", 0) : Receive(p, "in", 0);
            blocked = false;
            expectInterrupted("receive", r);
            r = parts ? Receive(ps, "in", 0) : Receive(p, "in", 0);
            expectInterrupted("second receive", r);
            if (!NewStatePending()) { bad("interrupted without a request"); }
        };
        auto fill = [&](bool parts, int i) {
            int64_t r = 0;
            for (int tries = 0;; ++tries) {
                if (parts) {
                    Parts ps;
                    ps.AddPart(make(i, tx[i], kMsg));
                    ps.AddPart(make(i, tx[i] + 1, 10));
                    r = Send(ps, "out", i);
                    if (r >= 0) { noteMsg("sent", i, tx[i]); noteMsg("sent", i, tx[i] + 1); tx[i] += 2; flight[i].push_back(true); continue; }
                    blocked = false;
                    if (ps.Size() != 2 || ps.At(0)->GetSize() != kMsg || memcmp(ps.At(0)->GetData(), &tx[i], 4)) { bad("interrupted parts are not as they were"); }
                    expectInterrupted("send of parts", r);
                    expectInterrupted("second send of parts", Send(ps, "out", i));
                    break;
                }
                auto p = make(i, tx[i], kMsg);
                r = Send(p, "out", i);
                if (r >= 0) { noteMsg("sent", i, tx[i]); ++tx[i]; flight[i].push_back(false); continue; }
                blocked = false;
                if (!p || p->GetSize() != kMsg || memcmp(p->GetData(), &tx[i], 4)) { bad("interrupted message is not as it was"); }
                expectInterrupted("send", r);
                expectInterrupted("second send", Send(p, "out", i));
                break;
            }
            if (!NewStatePending()) { bad("interrupted without a request"); }
        };
        auto wait = [&] {
            if (WaitFor(seconds(600))) { bad("WaitFor not interrupted"); }
            if (WaitFor(seconds(600))) { bad("second WaitFor not interrupted"); }
            blocked = false;
        };
        blocked = true;
        if (kind == "recv") { recv(false); }
        if (kind == "recvparts") { recv(true); }
        if (kind == "send") { fill(false, rx.size() - 1); }
        if (kind == "sendparts") { fill(true, 0); }
        if (kind == "wait") { wait(); }
        if (kind == "both") {
            thread t([&] { recv(true); });
            thread t2([&] { if (rx.size() > 1) { fill(pick(2), 1); } });
            wait();
            t.join();
            t2.join();
        }
        if (kind == "alloc") {
            vector<MessagePtr> hold;
            bool thrown = false;
            try { for (int i = 0; i < 1000; ++i) { hold.push_back(NewMessage(kChunk)); } } catch (MessageBadAlloc const&) { thrown = true; }
            blocked = false;
            if (!thrown) { bad("the segment never gets full"); }
            thrown = false;
            try { auto x = NewMessage(kChunk); } catch (MessageBadAlloc const&) { thrown = true; }
            if (!thrown) { bad("second allocation succeeded in a full segment"); }
            if (!NewStatePending()) { bad("allocation given up without a request"); }
        }
    }
    bool hook(string const& h)
    {
        Plan p;
        {
            lock_guard<mutex> l(m);
            hooks.push_back(h);
            if (owner == thread::id{}) { owner = this_thread::get_id(); }
            if (owner != this_thread::get_id()) { err = h + " runs on another thread"; }
            p = plan;
            if (free) { hooks.clear(); }
        }
        bool pending = NewStatePending();
        if (h == "Init") {
            if (!GetChannels().empty()) { bad("channels exist before Init"); }
        } else {
            auto w = channelsWrong(confAtInit);
            if (!w.empty()) { bad(h + ": " + w); }
        }
        if (h == "Connect") { tx.assign(subs(confAtInit), 0); rx.assign(subs(confAtInit), 0); flight.clear(); }
        if (h == "Connect" || h == "InitTask" || h == "PreRun" || h == "Run" || h == "PostRun" || h == "ResetTask") {
            bool strict = !pending && !p.open;
            if (strict && !WaitFor(milliseconds(0))) { bad(h + ": interrupted although nothing is pending"); }
            exchange(h, strict);
            if (p.how == "early" && h == "Run") { gate = true; block("recv"); }
            if (p.how == "spinreport" && h == p.at) { gate = true; block("recv"); }
            if (p.how == "late" && h == "Run") { gate = true; for (int i = pick(300); i > 0; --i) { this_thread::yield(); } }
            if (p.how == "block" && p.at.size() > h.size() && p.at.substr(p.at.find(':') + 1) == h) { block(p.at.substr(0, p.at.find(':'))); }
        }
        if (p.at == h) {
            if (p.how == "throw") { throw runtime_error("user code fails"); }
            if (p.how == "throwint") { throw 42; }
            if (p.how == "report" || p.how == "reportthrow") {
                if (!ChangeState(Transition::ErrorFound)) { bad("error request refused"); }
                if (p.how == "reportthrow") { throw runtime_error("user code fails"); }
            }
        }
        return p.how == "cond" && h == "ConditionalRun" ? ++cond % 3 != 0 : false;
    }
    bool freely(string const& h)
    {
        note("{\"e\":\"hook\",\"h\":" + drv::js(h) + "}");
        if (h == "Init") { confAtInit = pick(3); configure(confAtInit); }
        bool again = hook(h);
        if (h == "ConditionalRun") { again = pick(10) == 0; }
        if (h == "Run" && pick(3)) {
            vector<string> kinds{"recv", "recvparts", "send", "sendparts", "wait", "both"};
            // (what is in flight may be received first)
            for (size_t i = 0; i < rx.size(); ++i) { while (rx[i] != tx[i] && take(h, i, false)) {} }
            bool empty = rx == tx;
            if (empty) { block(kinds[pick(kinds.size())]); }
        } else if (pick(4) == 0) { this_thread::sleep_for(microseconds(pick(500))); }
        note("{\"e\":\"done\",\"h\":" + drv::js(h) + "}");
        return again && h == "ConditionalRun";
    }
    void Init() override { if (free) { freely("Init"); } else { hook("Init"); } }
    void Bind() override { if (free) { freely("Bind"); } else { hook("Bind"); } }
    void Connect() override { if (free) { freely("Connect"); } else { hook("Connect"); } }
    void InitTask() override { if (free) { freely("InitTask"); } else { hook("InitTask"); } }
    void PreRun() override { if (free) { freely("PreRun"); } else { hook("PreRun"); } }
    bool ConditionalRun() override { return free ? freely("ConditionalRun") : hook("ConditionalRun"); }
    void Run() override { if (free) { freely("Run"); } else { hook("Run"); } }
    void PostRun() override { if (free) { freely("PostRun"); } else { hook("PostRun"); } }
    void ResetTask() override { if (free) { freely("ResetTask"); } else { hook("ResetTask"); } }
    void Reset() override { if (free) { freely("Reset"); } else { hook("Reset"); } }
};

struct Walk
{
    unique_ptr<drv::DeviceUnderTest<Gadget>> d;
    size_t base = 0;
    int conf = 0;
    int nth = 0;
    string id;
    void fresh()
    {
        d.reset();
        d = make_unique<drv::DeviceUnderTest<Gadget>>();
        auto& c = *d->dev.fConfig;
        c.SetProperty<string>("id", "dev");
        c.SetProperty<string>("session", "vd" + to_string(getpid()) + "_" + id + "_" + to_string(nth++));
        c.SetProperty<size_t>("shm-segment-size", kSeg);
        c.SetProperty<int>("bad-alloc-max-attempts", -1);
        c.SetProperty<int>("bad-alloc-attempt-interval", 5);
        d->dev.configure(conf);
        d->start();
        if (!d->await(0, {State::Idle})) { d->hang("no IDLE"); }
        base = 1;
    }
    string step(vector<string> const& f)
    {
        static map<string, Transition> const T{{"INIT DEVICE", Transition::InitDevice}, {"COMPLETE INIT", Transition::CompleteInit}, {"BIND", Transition::Bind}, {"CONNECT", Transition::Connect},
            {"INIT TASK", Transition::InitTask}, {"RUN", Transition::Run}, {"STOP", Transition::Stop}, {"RESET TASK", Transition::ResetTask}, {"RESET DEVICE", Transition::ResetDevice}, {"END", Transition::End}, {"ERROR FOUND", Transition::ErrorFound}};
        string op = f[0], how = f[1], at = f[2];
        size_t nann = stoul(f[3]);
        bool end = f[4] != "", still = false;
        if (op == "new") { fresh(); }
        auto& g = d->dev;
        if (op == "conf") { conf = stoi(at); g.configure(conf); }
        {
            lock_guard<mutex> l(g.m);
            g.hooks.clear();
            if (op != "conf" && op != "refused" && op != "new") {
                bool over = op == "STOP" || op == "ERROR FOUND";
                if (!over) { g.plan = Plan{op, how, at, how == "early" || how == "late" || how == "spinreport" || how == "subreport" || how == "block"}; }
                if (how == "block") { g.plan.open = false; }
                if (over) { g.plan.open = true; }
                g.cond = 0;
                g.gate = false;
                if (op == "COMPLETE INIT") { g.confAtInit = conf; }
            }
        }
        if (op == "refused") {
            auto s = g.GetCurrentState();
            for (auto const& t : T) {
                bool ok = s == State::Error ? true
                        : s == State::Running ? t.first != "STOP" && t.first != "ERROR FOUND"
                        : (t.first == "STOP") || (s == State::Idle && t.first != "INIT DEVICE" && t.first != "END" && t.first != "ERROR FOUND") || (s != State::Idle && (t.first == "INIT DEVICE" || t.first == "END"));
                if (ok && g.ChangeState(t.second)) { g.bad("request " + t.first + " accepted"); }
            }
            this_thread::sleep_for(milliseconds(8));
            still = g.blocked;
        } else if (op != "conf" && op != "new") {
            if (op == "STOP" || op == "ERROR FOUND") { if (pick(2)) { this_thread::sleep_for(microseconds(pick(20000))); } }
            if (how == "subthrow" || how == "subreport") {
                g.SubscribeToStateChange("sub", [&g, how, at](State s) {
                    if (GetStateName(s) != at) { return; }
                    if (how == "subthrow") { throw runtime_error("subscriber fails"); }
                    if (!g.ChangeState(Transition::ErrorFound)) { g.bad("error request of a subscriber refused"); }
                });
            }
            bool accepted = g.ChangeState(T.at(op));
            if (!accepted) { g.bad("request refused"); }
            State via = op == "RUN" ? State::Running : op == "INIT TASK" ? State::InitializingTask : op == "RESET TASK" ? State::ResettingTask : op == "CONNECT" ? State::Connecting : State::Ok;
            auto until = steady_clock::now() + seconds(60);
            auto spin = [&](auto done) { while (!done()) { if (steady_clock::now() > until) { d->hang("request " + op + " " + how + " in state " + g.GetCurrentStateName()); } } };
            if (how == "early") { spin([&] { return g.ChangeState(Transition::Stop) || g.GetCurrentState() == State::Error; }); }
            if (how == "late") {
                spin([&] { return g.gate || g.GetCurrentState() == State::Error; });
                for (int i = pick(300); i > 0; --i) { this_thread::yield(); }
                spin([&] { return g.ChangeState(Transition::Stop) || g.GetCurrentState() != State::Running; });
            }
            if (how == "spinreport") { spin([&] { return g.GetCurrentState() == via || g.GetCurrentState() == State::Error; }); g.ChangeState(Transition::ErrorFound); }
        }
        if (accepted_wait(nann, end, how == "block")) { d->hang(op + " " + how + " " + at + ", state " + g.GetCurrentStateName() + ", announced " + announced()); }
        if (how == "block" || op == "conf") { still = g.blocked; }
        string e;
        {
            lock_guard<mutex> l(d->m);
            e = d->ended.substr(0, d->ended.find(':'));
        }
        auto cur = g.GetCurrentState();
        if (cur == State::Idle && op == "RESET DEVICE" && !g.GetChannels().empty()) { g.bad("channels exist after reset"); }
        lock_guard<mutex> l(g.m);
        auto err = g.err;
        g.err.clear();
        string ann = announced();
        { lock_guard<mutex> l2(d->m); base = d->seen.size(); }
        return "{\"ann\":" + ann + ",\"hooks\":" + drv::jlist(g.hooks) + ",\"end\":" + drv::js(e) + ",\"cur\":" + drv::js(GetStateName(cur)) + ",\"still\":" + (still ? "true" : "false") + ",\"err\":" + drv::js(err) + "}";
    }
    string announced()
    {
        lock_guard<mutex> l(d->m);
        vector<string> v;
        for (size_t i = base; i < d->seen.size(); ++i) { v.push_back(GetStateName(d->seen[i])); }
        return drv::jlist(v);
    }
    bool accepted_wait(size_t nann, bool end, bool block)
    {
        unique_lock<mutex> l(d->m);
        bool ok = d->cv.wait_for(l, seconds(60), [&] { return (d->seen.size() >= base + nann && !end) || d->done; });
        l.unlock();
        if (!ok) { return true; }
        if (block) { auto until = steady_clock::now() + seconds(60); while (!d->dev.blocked && !d->done) { if (steady_clock::now() > until) { return true; } this_thread::sleep_for(microseconds(100)); } }
        return false;
    }
};

// requests from several threads at any time
static int freeRun(unsigned seed, int n)
{
    gRng.seed(seed);
    drv::DeviceUnderTest<Gadget> d;
    auto& g = *d;
    g.free = true;
    g.plan = Plan{"", "", "", true};
    auto& c = *g.fConfig;
    c.SetProperty<string>("id", "dev");
    c.SetProperty<string>("session", "vf" + to_string(getpid()));
    c.SetProperty<size_t>("shm-segment-size", kSeg);
    g.SubscribeToStateChange("log", [&](State s) { g.note("{\"e\":\"state\",\"s\":" + drv::js(GetStateName(s)) + "}"); });
    d.start();
    if (!d.await(0, {State::Idle})) { d.hang("no IDLE"); }
    bool fail = pick(3) == 0;
    int failAt = pick(n);
    atomic<int> accepted{0};
    atomic<bool> stop{false};
    vector<thread> ts;
    auto until = steady_clock::now() + seconds(60);
    for (int t = 0; t < 3; ++t) {
        ts.emplace_back([&, t] {
            mt19937 rng(seed * 10 + t);
            Transition all[] = {Transition::InitDevice, Transition::CompleteInit, Transition::Bind, Transition::Connect, Transition::InitTask, Transition::Run, Transition::Run, Transition::Stop, Transition::Stop, Transition::ResetTask, Transition::ResetDevice};
            while (!stop) {
                auto x = all[rng() % 11];
                if ((x == Transition::ResetDevice || x == Transition::ResetTask) && rng() % 8) { continue; }
                if (x == Transition::Stop && rng() % 2) { this_thread::sleep_for(microseconds(rng() % 800)); }
                if (g.ChangeState(x)) { ++accepted; }
                if (rng() % 3 == 0) { this_thread::sleep_for(microseconds(rng() % 300)); }
            }
        });
    }
    while (accepted < (fail ? failAt : n) && !d.awaitEnd(0)) { if (steady_clock::now() > until) { d.hang("only " + to_string(accepted) + " requests accepted, state " + g.GetCurrentStateName()); } this_thread::sleep_for(microseconds(50)); }
    if (fail) { g.note("{\"e\":\"report\"}"); while (!g.ChangeState(Transition::ErrorFound) && steady_clock::now() < until) {} }
    if (fail && !d.awaitEnd(60000)) { d.hang("no end after an error"); }
    stop = true;
    for (auto& t : ts) { t.join(); }
    d.finish();
    for (auto& e : g.log) { printf("%s\n", e.c_str()); }
    printf("{\"e\":\"end\",\"how\":%s,\"bad\":%s}\n", drv::js(d.ended.substr(0, d.ended.find(':'))).c_str(), drv::js(g.err).c_str());
    return 0;
}

int main(int argc, char** argv)
{
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    char dir[] = "/tmp/vdlXXXXXX";
    gDir = mkdtemp(dir);
    if (argc > 1) { int r = freeRun(stoul(argv[1]), stoi(argv[2])); fflush(stdout); filesystem::remove_all(gDir); _Exit(r); }
    string line;
    unique_ptr<Walk> w;
    auto leave = [&] {
        if (!w) { return; }
        // a device blocked in its hook is freed by STOP or an error
        auto& g = w->d->dev;
        if (g.GetCurrentState() == State::InitializingDevice || g.GetCurrentState() == State::Idle) { g.confAtInit = w->conf; }
        { lock_guard<mutex> l(g.m); g.plan = Plan{"", "", "", true}; }
        if (g.blocked && !g.ChangeState(Transition::Stop)) { g.ChangeState(Transition::ErrorFound); }
        w->d->finish();
        string e;
        { lock_guard<mutex> l(g.m); e = g.err; }
        printf("{\"endobs\":1,\"err\":%s}\n", drv::js(e).c_str());
        w.reset();
        fflush(stdout);
    };
    while (getline(cin, line)) {
        auto f = drv::split(line, '|');
        if (f[0] == "walk") {
            leave();
            printf("{\"walk\":%s}\n", f[1].c_str());
            gRng.seed(stoul(f[2]));
            w = make_unique<Walk>();
            w->id = f[1];
            w->fresh();
            continue;
        }
        printf("%s\n", w->step(f).c_str());
        fflush(stdout);
    }
    leave();
    printf("{\"done\":true}\n");
    fflush(stdout);
    filesystem::remove_all(gDir);
    return 0;
}
