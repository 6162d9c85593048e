// The control role of real plugin services: stepped through behaviours of spec/DeviceControl_Gen.tla, or used by threads freely.
#include <common.h>
#include <device.h>
#include <fairmq/Plugin.h>
#include <fairmq/PluginServices.h>
#include <random>
using namespace std;
using namespace fair::mq;

struct Walk
{
    ProgOptions config;
    drv::DeviceUnderTest<Device> dut{config};
    PluginServices ps{config, *dut};
    vector<unique_ptr<Plugin>> plugins;
    atomic<int> accepted{0};
    mutex m;
    condition_variable cv;
    int returned = 0, blocked = 0;
    vector<thread> ths;
    Walk() { dut.start(); dut->SubscribeToNewTransition("driver", [this](Transition) { ++accepted; }); }
    ~Walk()
    {
        // whoever is in control, give it up until all waits are over
        auto c = ps.GetDeviceController();
        ps.StealDeviceControl("end");
        ps.ReleaseDeviceControl("end");
        {
            unique_lock<mutex> l(m);
            if (!cv.wait_for(l, chrono::seconds(20), [&] { return blocked == 0; })) {
                printf("{\"stuck\":\"%d waits for the release do not return although nobody is in control\"}\n", blocked);
                fflush(stdout);
                _exit(0);
            }
        }
        for (auto& t : ths) { t.join(); }
        dut->UnsubscribeFromNewTransition("driver");
        dut.finish();
    }
};

int replay()
{
    string line;
    unique_ptr<Walk> w;
    int names = 0;
    bool viaPlugin = false;
    vector<vector<string>> const client{{"control", "control2"}, {"a", ""}, {"x y", "x"}};
    int seen = 0;
    while (getline(cin, line)) {
        auto f = drv::split(line, '|');
        if (f[0] == "walk") {
            w.reset();
            w = make_unique<Walk>();
            names = stoi(f[1]) % client.size();
            viaPlugin = stoi(f[1]) / 3 % 2;
            for (auto& n : client[names]) { w->plugins.push_back(make_unique<Plugin>(n, Plugin::Version{1, 2, 3}, "me", "here", &w->ps)); }
            seen = 0;
            printf("{\"walk\":%s}\n", f[1].c_str());
            continue;
        }
        // op|client|transition|state expected|waits expected to return
        Plugin* pl = f[1].empty() || !viaPlugin ? nullptr : w->plugins.at(f[1][0] - 'p').get();
        string who = f[1].empty() ? "" : client[names][f[1][0] - 'p'];
        string res = "ok";
        int before = w->accepted;
        size_t mark = w->dut.mark();
        try {
            if (f[0] == "take") { if (pl) { pl->TakeDeviceControl(); } else { w->ps.TakeDeviceControl(who); } }
            else if (f[0] == "steal") { if (pl) { pl->StealDeviceControl(); } else { w->ps.StealDeviceControl(who); } }
            else if (f[0] == "release") { if (pl) { pl->ReleaseDeviceControl(); } else { w->ps.ReleaseDeviceControl(who); } }
            else if (f[0] == "change") {
                if (!(pl ? pl->ChangeDeviceState(pl->ToDeviceStateTransition(f[2])) : w->ps.ChangeDeviceState(who, PluginServices::ToDeviceStateTransition(f[2])))) { res = "refused"; }
                else { if (!w->dut.await(mark, {GetState(f[3])}, 20000)) { res = "accepted, but nothing happens"; } }
            } else if (f[0] == "wait") {
                { lock_guard<mutex> l(w->m); ++w->blocked; }
                Walk* p = w.get();
                p->ths.emplace_back([p] {
                    p->ps.WaitForReleaseDeviceControl();
                    lock_guard<mutex> l(p->m);
                    ++p->returned;
                    --p->blocked;
                    p->cv.notify_all();
                });
            }
        } catch (PluginServices::DeviceControlError const&) { res = "denied"; }
        int n = stoi(f[4]);
        {
            unique_lock<mutex> l(w->m);
            w->cv.wait_for(l, chrono::seconds(8), [&] { return w->returned - seen >= n; });
        }
        if (f[0] == "wait" || w->blocked > 0) { this_thread::sleep_for(chrono::microseconds(f[0] == "wait" && n == 0 ? 2000 : 400)); }   // a wait too many would show up
        int got, left;
        { lock_guard<mutex> l(w->m); got = w->returned - seen; seen = w->returned; left = w->blocked; }
        auto c = w->ps.GetDeviceController();
        string cn = !c ? "none" : *c == client[names][0] ? "p" : *c == client[names][1] ? "q" : "?" + *c;
        printf("{\"res\":%s,\"ctrl\":%s,\"dev\":%s,\"passed\":%d,\"freed\":%d,\"blocked\":%d}\n", drv::js(res).c_str(), drv::js(cn).c_str(), drv::js(GetStateName(w->ps.GetCurrentDeviceState())).c_str(), w->accepted - before, got, left);
        fflush(stdout);
    }
    w.reset();
    printf("{\"done\":true}\n");
    return 0;
}

int conc(unsigned seed, int runs, int clients, int waiters, int nops)
{
    for (int r = 0; r < runs; ++r) {
        auto w = make_unique<Walk>();
        mutex m;
        vector<string> ev{"{\"e\":\"reset\"}"};
        auto add = [&](string const& e) { lock_guard<mutex> l(m); ev.push_back(e); };
        thread_local int me = -1;
        w->dut->SubscribeToNewTransition("record", [&](Transition) { if (me >= 0) { add("{\"e\":\"passed\",\"th\":" + to_string(me) + "}"); } });
        vector<thread> ths;
        atomic<int> active{clients};
        for (int i = 0; i < clients + waiters; ++i) {
            ths.emplace_back([&, i] {
                mt19937 rng(seed * 977 + r * 31 + i);
                me = i;
                string who = string("c") + to_string(i % 3);
                for (int n = 0; n < (i < clients ? nops : 4); ++n) {
                    string op = "wait";
                    if (i < clients) { unsigned k = rng() % 12; op = k < 2 ? "take" : k < 3 ? "steal" : k < 7 ? "release" : k < 10 ? "change" : "get"; }
                    if (i < clients && n == nops - 1) { op = "release"; }
                    bool denied = false;
                    string v;
                    add("{\"e\":\"call\",\"op\":\"" + op + "\",\"th\":" + to_string(i) + ",\"who\":\"" + who + "\"}");
                    try {
                        if (op == "take") { w->ps.TakeDeviceControl(who); }
                        else if (op == "steal") { w->ps.StealDeviceControl(who); }
                        else if (op == "release") { w->ps.ReleaseDeviceControl(who); }
                        else if (op == "change") {
                            static Transition const tr[] = {Transition::InitDevice, Transition::CompleteInit, Transition::ResetDevice};
                            w->ps.ChangeDeviceState(who, tr[rng() % 3]);
                        } else if (op == "get") { auto c = w->ps.GetDeviceController(); v = c ? *c : "none"; }
                        else { w->ps.WaitForReleaseDeviceControl(); }
                    } catch (PluginServices::DeviceControlError const&) { denied = true; }
                    add("{\"e\":\"ret\",\"th\":" + to_string(i) + ",\"denied\":" + (denied ? "true" : "false") + ",\"v\":\"" + v + "\"}");
                    int k = rng() % 5;
                    if (k == 0) { this_thread::yield(); } else if (k == 1) { this_thread::sleep_for(chrono::microseconds(rng() % 150)); }
                }
                if (i < clients) { --active; }
            });
        }
        // when all clients are through, nobody may be left in control: the last one there gives it up
        auto t0 = chrono::steady_clock::now();
        while (active > 0) {
            this_thread::sleep_for(chrono::milliseconds(1));
            if (chrono::steady_clock::now() - t0 > chrono::seconds(30)) { printf("{\"stuck\":\"a client does not come back\"}\n"); fflush(stdout); _exit(0); }
        }
        for (auto& op : {"steal", "release"}) {
            add(string("{\"e\":\"call\",\"op\":\"") + op + "\",\"th\":7,\"who\":\"main\"}");
            if (op[0] == 's') { w->ps.StealDeviceControl("main"); } else { w->ps.ReleaseDeviceControl("main"); }
            add("{\"e\":\"ret\",\"th\":7,\"denied\":false,\"v\":\"\"}");
        }
        atomic<bool> joined{false};
        thread dog([&] {
            for (int i = 0; i < 30000 && !joined; ++i) { this_thread::sleep_for(chrono::milliseconds(1)); }
            if (!joined) { printf("{\"stuck\":\"a wait for the release does not return although nobody is in control\"}\n"); fflush(stdout); _exit(0); }
        });
        for (auto& t : ths) { t.join(); }
        joined = true;
        dog.join();
        w->dut->UnsubscribeFromNewTransition("record");
        w.reset();
        for (auto& e : ev) { puts(e.c_str()); }
    }
    return 0;
}

int main(int argc, char** argv)
{
    if (argc > 5) { return conc(stoul(argv[1]), stoi(argv[2]), stoi(argv[3]), stoi(argv[4]), stoi(argv[5])); }
    return replay();
}
