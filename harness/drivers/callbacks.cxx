// A device with data callbacks, fed and stopped as spec/DataCallbacks_Gen.tla says; what happens is recorded.
#include <device.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <cstring>
#include <filesystem>
#include <random>
using namespace std;
using namespace fair::mq;
using namespace std::chrono;

static mt19937 gRng;
static mutex gRngM;
static int pick(int n) { lock_guard<mutex> l(gRngM); return static_cast<int>(gRng() % n); }
static string gDir;
static vector<string> gLog;
static mutex gM;
static void note(string const& s) { lock_guard<mutex> l(gM); gLog.push_back(s); }

struct Chan { string name; bool parts; int subs; string transport; };
static vector<vector<Chan>> const kLayouts{
    {},
    {{"a", false, 1, "zeromq"}},
    {{"a", true, 1, "shmem"}},
    {{"a", false, 3, "shmem"}},
    {{"a", false, 1, "zeromq"}, {"b", true, 2, "zeromq"}},
    {{"a", false, 1, "zeromq"}, {"b", true, 1, "shmem"}},
    {{"a", true, 2, "shmem"}, {"b", false, 3, "zeromq"}, {"c", false, 1, "shmem"}, {"d", true, 1, "zeromq"}},
    {{"a", false, 1, "shmem"}},
    {{"a", true, 2, "zeromq"}},
};

struct Eater : Device
{
    vector<Chan> lay;
    bool member = false;
    atomic<int> calls{0}, inside{0};
    atomic<int> endAt{-1};       // the callback that ends the run ...
    atomic<bool> fails{false};   // ... by throwing
    atomic<int> slow{0};
    atomic<long> given{0};
    bool serve(string const& c, bool parts, vector<Message*> const& ms, int index)
    {
        string k = c + "#" + to_string(index);
        unsigned n = 0;
        bool good = !ms.empty() && ms[0] && ms[0]->GetSize() >= 8;
        string to;
        if (good) {
            auto d = static_cast<unsigned char*>(ms[0]->GetData());
            memcpy(&n, d, 4);
            to = string(reinterpret_cast<char*>(d + 4), 4);
            to = to.substr(0, to.find(' '));
            good = to == k && ms.size() == (parts ? 1 + n % 3 : 1);
            for (size_t p = 0; p < ms.size(); ++p) {
                size_t want = p == 0 ? 8 + n % 50 : 1 + p * 10 + n % 7;
                if (ms[p]->GetSize() != want) { good = false; }
                auto x = static_cast<unsigned char*>(ms[p]->GetData());
                for (size_t i = p == 0 ? 8 : 0; i < ms[p]->GetSize(); ++i) { if (x[i] != ((n + p) & 0xff)) { good = false; } }
            }
        }
        if (++inside != 1) { good = false; }
        note("{\"e\":\"cb\",\"c\":" + drv::js(c) + ",\"k\":" + drv::js(k) + ",\"n\":" + to_string(n) + ",\"kind\":\"" + (parts ? "parts" : "msg") + "\",\"good\":" + (good ? "true" : "false") + "}");
        int nth = ++calls;
        int s = slow;
        if (s) { this_thread::sleep_for(microseconds(pick(s))); }
        bool last = nth == endAt;
        --inside;
        note("{\"e\":\"ret\",\"k\":" + drv::js(k) + ",\"r\":\"" + (last ? (fails ? "throw" : "false") : "true") + "\"}");
        ++given;
        if (last && fails) { throw runtime_error("callback fails"); }
        return !last;
    }
    bool onMsgA(MessagePtr& m, int i) { return serve("a", false, {m.get()}, i); }
    bool onPartsA(Parts& ps, int i) { return onParts("a", ps, i); }
    bool onParts(string const& c, Parts& ps, int i) { vector<Message*> v; for (auto& p : ps) { v.push_back(p.get()); } return serve(c, true, v, i); }
    void setup()
    {
        for (auto const& c : lay) {
            if (c.name == "a" && member) {
                if (c.parts) { OnData("a", &Eater::onPartsA); } else { OnData("a", &Eater::onMsgA); }
            } else if (c.parts) {
                OnData(c.name, [this, n = c.name](Parts& ps, int i) { return onParts(n, ps, i); });
            } else {
                OnData(c.name, [this, n = c.name](MessagePtr& m, int i) { return serve(n, false, {m.get()}, i); });
            }
        }
    }
    void Init() override { if (!fDataCallbacksDone) { fDataCallbacksDone = true; setup(); } }
    bool fDataCallbacksDone = false;
    void Run() override { note("{\"e\":\"plainrun\"}"); }
};

struct Walk
{
    unique_ptr<drv::DeviceUnderTest<Eater>> d;
    ProgOptions cfg;
    map<string, shared_ptr<TransportFactory>> f;
    map<string, unique_ptr<Channel>> out;
    map<string, unsigned> sent;
    vector<string> keys;
    long total = 0;
    int nth = 0;
    string id;
    void conf(int x)
    {
        end();
        d = make_unique<drv::DeviceUnderTest<Eater>>();
        auto& g = d->dev;
        g.lay = kLayouts.at(x);
        g.member = pick(2);
        string session = "vc" + to_string(getpid()) + "_" + id + "_" + to_string(nth++);
        auto set = [&](ProgOptions& c, string const& who) { c.SetProperty<string>("id", who); c.SetProperty<string>("session", session); c.SetProperty<size_t>("shm-segment-size", 8000000); };
        set(*g.fConfig, "dev");
        set(cfg, "feeder");
        string chans, subs;
        keys.clear();
        for (auto const& c : g.lay) {
            chans += (chans.empty() ? "" : ",") + drv::js(c.name) + ":\"" + (c.parts ? "parts" : "msg") + "\"";
            for (int i = 0; i < c.subs; ++i) {
                string k = "chans." + c.name + "." + to_string(i) + ".";
                g.fConfig->SetProperty<string>(k + "type", "pull");
                g.fConfig->SetProperty<string>(k + "method", "bind");
                g.fConfig->SetProperty<string>(k + "address", "ipc://" + gDir + "/" + to_string(nth) + c.name + to_string(i));
                g.fConfig->SetProperty<string>(k + "transport", c.transport);
                g.fConfig->SetProperty<int>(k + "rateLogging", 0);
                keys.push_back(c.name + "#" + to_string(i));
                subs += (subs.empty() ? "" : ",") + drv::js(keys.back());
            }
        }
        g.fConfig->SetProperty<string>("transport", g.lay[0].transport);
        total = 0;
        g.SubscribeToStateChange("log", [](State s) { if (s == State::Running || s == State::Ready || s == State::Error || s == State::ResettingTask) { note("{\"e\":\"state\",\"s\":" + drv::js(GetStateName(s)) + "}"); } });
        d->start();
        if (!d->await(0, {State::Idle})) { d->hang("no IDLE"); }
        d->request(Transition::InitDevice, {State::InitializingDevice});
        d->request(Transition::CompleteInit, {State::Initialized});
        d->request(Transition::Bind, {State::Bound});
        d->request(Transition::Connect, {State::DeviceReady});
        { lock_guard<mutex> l(gM); gLog.push_back("{\"e\":\"conf\",\"chans\":{" + chans + "},\"subs\":[" + subs + "]}"); }
        d->request(Transition::InitTask, {State::Ready});
        for (auto const& c : g.lay) {
            if (!f.count(c.transport)) { f[c.transport] = TransportFactory::CreateTransportFactory(c.transport, "feeder", &cfg); }
            for (int i = 0; i < c.subs; ++i) {
                string k = c.name + "#" + to_string(i);
                out[k] = make_unique<Channel>("f" + c.name + to_string(i), "push", "connect", "ipc://" + gDir + "/" + to_string(nth) + c.name + to_string(i), f[c.transport]);
                out[k]->UpdateRateLogging(0);
                if (!out[k]->Connect("ipc://" + gDir + "/" + to_string(nth) + c.name + to_string(i))) { d->hang("feeder cannot connect"); }
                sent[k] = 0;
            }
        }
    }
    void feed(int n)
    {
        for (int j = 0; j < n; ++j) {
            string k = keys[pick(keys.size())];
            int burst = 1 + (pick(3) == 0 ? pick(4) : 0);
            for (int b = 0; b < burst; ++b) { feedOne(k); }
        }
    }
    void feedOne(string const& k)
    {
        unsigned n = sent[k]++;
        Chan const* c = nullptr;
        for (auto const& x : d->dev.lay) { if (x.name == k.substr(0, k.find('#'))) { c = &x; } }
        Parts ps;
        size_t np = c->parts ? 1 + n % 3 : 1;
        for (size_t p = 0; p < np; ++p) {
            auto m = out[k]->NewMessage(p == 0 ? 8 + n % 50 : 1 + p * 10 + n % 7);
            memset(m->GetData(), static_cast<int>((n + p) & 0xff), m->GetSize());
            if (p == 0) { memcpy(m->GetData(), &n, 4); memcpy(static_cast<char*>(m->GetData()) + 4, (k + "    ").data(), 4); }
            ps.AddPart(move(m));
        }
        note("{\"e\":\"send\",\"k\":" + drv::js(k) + ",\"n\":" + to_string(n) + "}");
        ++total;
        int64_t r = c->parts ? out[k]->Send(ps) : out[k]->Send(ps.At(0));
        if (r < 0) { d->hang("feeder cannot send"); }
    }
    void run(string how, int n)
    {
        auto& g = d->dev;
        bool feeding = how.size() > 4 && how.substr(how.size() - 4) == "feed";
        if (feeding) { how = how.substr(0, how.size() - 4); }
        int k = n == 2 ? 2 + pick(6) : 1;
        g.calls = 0;
        g.endAt = how == "false" || how == "throw" ? k : -1;
        g.fails = how == "throw";
        g.slow = pick(3) ? 0 : 2000;
        size_t m = d->mark();
        if (!g.ChangeState(Transition::Run)) { d->hang("RUN refused"); }
        atomic<bool> stopFeeding{false};
        thread feeder;
        if (feeding) { feeder = thread([&] { int lots = 3 + pick(12); for (int i = 0; i < lots && !stopFeeding; ++i) { feed(1); if (pick(2)) { this_thread::sleep_for(microseconds(pick(1500))); } } }); }
        auto until = steady_clock::now() + seconds(60);
        auto spin = [&](auto done, char const* what) { while (!done()) { if (steady_clock::now() > until) { dump(); d->hang(what); } this_thread::sleep_for(microseconds(100)); } };
        if (how == "false" || how == "throw") {
            // enough messages for the callback in question
            if (feeder.joinable()) { feeder.join(); }
            while (total - g.given < k && g.calls < k) { feed(1); }
            if (!d->await(m, {how == "false" ? State::Ready : State::Error})) { dump(); d->hang("the run does not end after its last callback"); }
        } else if (how == "stop") {
            if (pick(2)) { this_thread::sleep_for(microseconds(pick(3000))); } else { spin([&] { return g.calls >= k || total == g.given; }, "nothing handed out"); }
            note("{\"e\":\"stop\"}");
            spin([&] { return g.ChangeState(Transition::Stop); }, "STOP refused");
            if (!d->await(m, {State::Ready})) { dump(); d->hang("STOP does not end the run"); }
            stopFeeding = true;
        } else {
            if (feeder.joinable()) { feeder.join(); }
            spin([&] { return total == g.given; }, "not all messages are handed out");
            // nothing more comes
            if (pick(4) == 0) { this_thread::sleep_for(milliseconds(30)); }
            note("{\"e\":\"idle\"}");
            note("{\"e\":\"stop\"}");
            spin([&] { return g.ChangeState(Transition::Stop); }, "STOP refused");
            if (!d->await(m, {State::Ready})) { dump(); d->hang("STOP does not end the run"); }
        }
        if (feeder.joinable()) { feeder.join(); }
        if (how == "throw") { if (!d->awaitEnd(60000)) { d->hang("no end after a failing callback"); } }
    }
    void end()
    {
        out.clear();
        f.clear();
        if (!d) { return; }
        if (!d->done) { d->finish(); }
        string how = d->ended.substr(0, d->ended.find(':'));
        note("{\"e\":\"end\",\"how\":" + drv::js(how) + "}");
        d.reset();
    }
    void dump() { lock_guard<mutex> l(gM); for (auto& e : gLog) { printf("%s\n", e.c_str()); } gLog.clear(); fflush(stdout); }
};

int main(int argc, char** argv)
{
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    char dir[] = "/tmp/vcbXXXXXX";
    gDir = mkdtemp(dir);
    gRng.seed(stoul(argv[1]));
    string line;
    {
        Walk w;
        w.id = argv[1];
        while (getline(cin, line)) {
            auto f = drv::split(line, '|');
            if (f[0] == "conf") { w.conf(stoi(f[2])); }
            if (f[0] == "feed") { w.feed(f[2] == "2" ? 3 + pick(20) : 1); }
            if (f[0] == "run") { w.run(f[1], stoi(f[2])); }
            if (f[0] == "task") { w.d->request(Transition::ResetTask, {State::DeviceReady}); w.d->request(Transition::InitTask, {State::Ready}); }
        }
        // what is left over is still handed out
        if (w.d && !w.d->done) { w.run("idle", 0); }
        w.end();
        w.dump();
    }
    printf("{\"done\":true}\n");
    fflush(stdout);
    filesystem::remove_all(gDir);
    return 0;
}
