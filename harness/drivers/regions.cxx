// Regions, their events and listings: stepped through behaviours of spec/RegionEvents_Gen.tla, or churning freely.
#include <common.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/shmem/Common.h>
#include <fairmq/shmem/Monitor.h>
#include <cstring>
#include <filesystem>
#include <random>
#include <set>
using namespace std;
using namespace fair::mq;
using namespace std::chrono;
static unsigned char pat(int r, size_t i) { return static_cast<unsigned char>(r * 31 + i * 7 + (i >> 8)); }
static int64_t flagsOf(int r) { return r % 2 ? -1000003LL * r : 7000000000LL + r; }
static int regionOf(int64_t f) { return f < 0 ? static_cast<int>(-f / 1000003) : static_cast<int>(f - 7000000000LL); }
struct Reg { UnmanagedRegionPtr p; string o; int inc = 0; uint64_t id = 0; size_t size = 0; bool live = false, refused = false; };
struct Heard { RegionInfo info; int epoch; };
struct Inst
{
    unique_ptr<ProgOptions> cfg;
    shared_ptr<TransportFactory> f;
    int epoch = 0;
    int inc = 0;            // how often it joined
    int ended = 0;          // all subscriptions up to this one are over
    vector<Heard> ev;
};
struct Walk
{
    map<string, Inst> in;
    map<int, Reg> regs;
    string session, tr, dir;
    mutex m;
    condition_variable cv;
    string bad;
    int next = 1;
    void join(string const& n, int seg)
    {
        auto& x = in[n];
        ++x.inc;
        x.cfg = make_unique<ProgOptions>();
        x.cfg->SetProperty<string>("session", tr == "shmem" ? session : session + n);
        x.cfg->SetProperty<size_t>("shm-segment-size", 1000000);
        x.cfg->SetProperty<uint16_t>("shm-segment-id", seg);
        x.f = TransportFactory::CreateTransportFactory(tr, n, x.cfg.get());
    }
    RegionEventCallback callback(string const& n, int epoch)
    {
        return [this, n, epoch](RegionInfo i) {
            lock_guard<mutex> l(m);
            auto& x = in[n];
            if (epoch <= x.ended) { bad += "; a subscription that has ended was called"; }
            x.ev.push_back({i, epoch});
            cv.notify_all();
        };
    }
    string name(RegionInfo const& i)
    {
        if (i.event == RegionEvent::local_only) { return "l"; }
        if (i.managed) { return (i.event == RegionEvent::created ? "s" : "S") + to_string(i.id); }
        return (i.event == RegionEvent::created ? "c" : "d") + to_string(regionOf(i.flags));
    }
    // id, size, flags and the content at the address
    void check(string const& n, RegionInfo const& i)
    {
        if (i.event == RegionEvent::local_only) { return; }
        if (i.managed) { if (i.event == RegionEvent::created && (!i.ptr || i.size < 900000)) { bad += "; managed segment without memory"; } return; }
        auto it = regs.find(regionOf(i.flags));
        if (it == regs.end()) { bad += "; " + n + " hears of a region with flags nobody gave: " + to_string(i.flags); return; }
        auto& r = it->second;
        if (i.id != r.id) { bad += "; " + n + " hears of id " + to_string(i.id) + " instead of " + to_string(r.id); }
        if (i.event != RegionEvent::created) { return; }
        if (i.size != r.size) { bad += "; " + n + " hears of size " + to_string(i.size) + " instead of " + to_string(r.size); }
        if (!r.live || !i.ptr) { if (r.live) { bad += "; no address"; } return; }
        auto d = static_cast<unsigned char*>(i.ptr);
        for (size_t k = 0; k < r.size; k += (r.size > 300 ? 97 : 1)) { if (d[k] != pat(it->first, k)) { bad += "; the address told to " + n + " is not that of the region"; break; } }
    }
    string create(string const& n, string const& how, int var)
    {
        int r = next;
        auto& x = in.at(n);
        RegionConfig c;
        uint64_t mx = 1023;
        for (auto& [k, g] : regs) { if (g.id > mx && g.id < 60000) { mx = g.id; } }
        if (how == "fresh") { c.id = 100 + r * 3; }
        if (how == "near") { c.id = mx + 1; }
        if (how == "path") { c.path = dir; }
        if (how.compare(0, 2, "id") == 0) { c.id = regs.at(stoi(how.substr(2))).id; }
        static const size_t sizes[] = {1, 64, 4096, 5000, 100000, 262144};
        size_t size = sizes[(r + var) % 6];
        if (var % 3 == 0) { c.rcSegmentSize = 20000; }
        if (var % 4 == 3) { c.zero = true; }
        c.linger = 20;
        c.userFlags = flagsOf(r);
        Reg g;
        g.o = n;
        g.inc = x.inc;
        g.size = size;
        try {
            switch (var % 5) {
                case 0: g.p = x.f->CreateUnmanagedRegion(size, [](void*, size_t, void*) {}, c); break;
                case 1: g.p = x.f->CreateUnmanagedRegion(size, [](vector<RegionBlock> const&) {}, c); break;
                case 2: g.p = x.f->CreateUnmanagedRegion(size, flagsOf(r), [](void*, size_t, void*) {}, c.path, 0, c); break;
                case 3: g.p = x.f->CreateUnmanagedRegion(size, flagsOf(r), [](vector<RegionBlock> const&) {}, c.path, 0, c); break;
                default: g.p = x.f->CreateUnmanagedRegion(size, RegionCallback(nullptr), c); break;
            }
        } catch (exception const& e) { return "refused"; }
        ++next;
        if (c.id.has_value() && tr == "shmem" && g.p->GetId() != *c.id) { bad += "; region does not have the id it was given"; }
        g.id = g.p->GetId();
        if (g.p->GetSize() != size) { bad += "; region does not have the size it was given"; }
        if (c.zero) { for (size_t k = 0; k < size; k += 101) { if (static_cast<char*>(g.p->GetData())[k]) { bad += "; region is not zeroed"; break; } } }
        for (auto& [k, o] : regs) { if (o.id == g.id && (tr == "shmem" || (o.o == n && o.inc == x.inc))) { bad += "; regions " + to_string(k) + " and " + to_string(r) + " have the same id"; } }
        for (size_t k = 0; k < size; ++k) { static_cast<unsigned char*>(g.p->GetData())[k] = pat(r, k); }
        g.live = true;
        lock_guard<mutex> l(m);
        regs[r] = move(g);
        return "ok";
    }
    void destroy(int r)
    {
        UnmanagedRegionPtr p;
        { lock_guard<mutex> l(m); regs.at(r).live = false; p = move(regs.at(r).p); }
        p.reset();
    }
};

int replay()
{
    string line;
    unique_ptr<Walk> w;
    int step = 0, walk = 0;
    string dir = filesystem::temp_directory_path() / ("vreg" + to_string(getpid()));
    filesystem::create_directory(dir);
    auto finish = [&] {
        if (!w) { return; }
        for (auto& [k, r] : w->regs) { if (r.live) { w->destroy(k); } }
        w->in["B"].f.reset();
        w->in["A"].f.reset();
        w->in.clear();
        string err;
        for (auto& e : filesystem::directory_iterator(dir)) { err += " left behind: " + e.path().filename().string(); filesystem::remove(e.path()); }
        if (w->tr == "shmem") {
            string id = shmem::makeShmIdStr(w->session);
            for (auto& e : filesystem::directory_iterator("/dev/shm")) { if (e.path().filename().string().find("fmq_" + id) == 0) { err += " left behind: " + e.path().filename().string(); } }
            if (!err.empty()) { shmem::Monitor::Cleanup(shmem::SessionId{w->session}, false); }
        }
        w.reset();
        cout << "{\"endobs\":true,\"err\":" << drv::js(err) << "}" << endl;
    };
    while (getline(cin, line)) {
        auto f = drv::split(line, '|');
        if (f[0] == "walk") {   // walk|i|transport
            finish();
            walk = stoi(f[1]);
            step = 0;
            w = make_unique<Walk>();
            w->tr = f[2];
            w->session = "vr" + to_string(getpid()) + "_" + to_string(walk);
            w->dir = dir + "/";
            w->join("A", 0);
            w->join("B", 0);
            cout << "{\"walk\":" << walk << "}" << endl;
            continue;
        }
        // op|i|how|r|na|nb   (na, nb: number of events to come)
        ++step;
        string const &op = f[0], &n = f[1], &how = f[2];
        string res = "ok";
        vector<string> lst;
        w->bad = "";
        if (op == "create" || op == "quick") {
            res = w->create(n, how, walk + step);
            if (op == "quick" && res == "ok") { w->destroy(w->next - 1); }
        } else if (op == "destroy") { w->destroy(stoi(f[3])); }
        else if (op == "sub") {
            auto& x = w->in.at(n);
            int e = ++x.epoch;
            if (how == "replace" && !x.f->SubscribedToRegionEvents()) { w->bad += "; not subscribed according to the transport"; }
            x.f->SubscribeToRegionEvents(w->callback(n, e));
            { lock_guard<mutex> l(w->m); x.ended = e - 1; }
            if (!x.f->SubscribedToRegionEvents()) { w->bad += "; not subscribed according to the transport"; }
        } else if (op == "unsub") {
            auto& x = w->in.at(n);
            x.f->UnsubscribeFromRegionEvents();
            { lock_guard<mutex> l(w->m); x.ended = x.epoch; }
            if (x.f->SubscribedToRegionEvents()) { w->bad += "; still subscribed according to the transport"; }
        } else if (op == "list") {
            for (auto& i : w->in.at(n).f->GetRegionInfo()) { if (i.event == RegionEvent::created) { lst.push_back(w->name(i)); lock_guard<mutex> l(w->m); w->check(n, i); } }
        } else if (op == "leave") {
            auto& x = w->in.at("B");
            x.f.reset();
            lock_guard<mutex> l(w->m);
            x.ended = x.epoch;
        } else if (op == "join") { w->join("B", stoi(how)); }
        size_t na = op == "list" ? 0 : stoul(f[4]), nb = op == "list" ? 0 : stoul(f[5]);
        unique_lock<mutex> l(w->m);
        auto& a = w->in["A"];
        auto& b = w->in["B"];
        w->cv.wait_for(l, duration<double>(op == "quick" && w->tr == "shmem" ? 0.01 : 4.0), [&] { return a.ev.size() >= na && b.ev.size() >= nb; });
        l.unlock();
        this_thread::sleep_for(milliseconds(w->tr == "shmem" ? 115 : 5));    // whatever should not come
        l.lock();
        auto drain = [&](string const& nm, Inst& x) {
            vector<string> v;
            for (auto& h : x.ev) {
                v.push_back(w->name(h.info));
                if (h.epoch != x.epoch) { w->bad += "; an earlier subscription was called"; }
                w->check(nm, h.info);
            }
            x.ev.clear();
            return v;
        };
        auto va = drain("A", a), vb = drain("B", b);
        if (op == "list") { (n == "A" ? va : vb) = lst; }
        cout << "{\"res\":" << drv::js(res) << ",\"a\":" << drv::jlist(va) << ",\"b\":" << drv::jlist(vb) << ",\"err\":" << drv::js(w->bad) << "}" << endl;
    }
    finish();
    filesystem::remove_all(dir);
    cout << "{\"done\":true}" << endl;
    return 0;
}

int conc(unsigned seed, string const& tr, int rounds)
{
    Walk w;
    w.tr = tr;
    w.session = "vc" + to_string(getpid());
    w.join("A", 0);
    w.join("B", seed % 3 ? 1 : 0);
    vector<string> ev;
    mutex em;
    auto add = [&](string const& s) { lock_guard<mutex> l(em); ev.push_back("{\"e\":" + s + "}"); };
    map<int, pair<uint64_t, size_t>> given;     // what is known of regions already created
    mutex gm;
    auto sess = [&](string const& n) { return tr == "shmem" ? string("S") : n; };
    atomic<int> nextR{1}, nextK{1};
    atomic<bool> stop{false}, pause{false};
    atomic<int> paused{0};
    auto cb = [&](int k) {
        return [&, k](RegionInfo i) {
            if (i.managed || i.event == RegionEvent::local_only) { return; }
            int r = regionOf(i.flags);
            string bad;
            { lock_guard<mutex> l(gm); auto it = given.find(r); if (it == given.end()) { bad = "flags nobody gave"; } else if (i.event == RegionEvent::created && it->second.second != i.size) { bad = "wrong size"; } else if (it->second.first && it->second.first != i.id) { bad = "wrong id"; } }
            add(string(i.event == RegionEvent::created ? "\"heardc\"" : "\"heardd\"") + ",\"k\":" + to_string(k) + ",\"r\":" + to_string(r) + ",\"bad\":" + drv::js(bad));
        };
    };
    auto gate = [&] { if (pause) { ++paused; while (pause) { this_thread::sleep_for(milliseconds(1)); } --paused; } };
    vector<thread> ths;
    const int nth = 4;
    for (int t = 0; t < nth; ++t) {
        ths.emplace_back([&, t] {
            mt19937 g(seed * 10 + t);
            string n = t % 2 ? "B" : "A";
            auto& f = w.in.at(n).f;
            vector<pair<int, UnmanagedRegionPtr>> mine;
            auto drop = [&] {
                if (mine.empty()) { return; }
                size_t i = g() % mine.size();
                int r = mine[i].first;
                add("\"destroying\",\"r\":" + to_string(r));
                mine[i].second.reset();
                add("\"destroyed\",\"r\":" + to_string(r));
                mine.erase(mine.begin() + i);
            };
            while (!stop) {
                gate();
                if (g() % 2 && mine.size() < 4) {
                    int r = nextR++;
                    RegionConfig c;
                    c.userFlags = flagsOf(r);
                    c.linger = 5;
                    if (g() % 2) { c.rcSegmentSize = 20000; }
                    size_t size = 100 + g() % 10000;
                    { lock_guard<mutex> l(gm); given[r] = {0, size}; }
                    add("\"creating\",\"r\":" + to_string(r) + ",\"o\":" + drv::js(sess(n)));
                    UnmanagedRegionPtr p;
                    try {
                        p = g() % 3 ? f->CreateUnmanagedRegion(size, RegionCallback(nullptr), c) : f->CreateUnmanagedRegion(size, [](void*, size_t, void*) {}, c);
                    } catch (exception const& e) { add("\"failed\",\"r\":" + to_string(r) + ",\"why\":" + drv::js(e.what())); return; }
                    { lock_guard<mutex> l(gm); given[r].first = p->GetId(); }
                    add("\"created\",\"r\":" + to_string(r) + ",\"o\":" + drv::js(sess(n)) + ",\"id\":" + to_string(p->GetId()));
                    mine.emplace_back(r, move(p));
                } else if (g() % 2) { drop(); }
                else if (g() % 3 == 0) {
                    int k = nextK++;
                    add("\"list\",\"k\":" + to_string(k) + ",\"o\":" + drv::js(sess(n)));
                    vector<int> v;
                    for (auto& i : f->GetRegionInfo()) { if (!i.managed && i.event == RegionEvent::created) { v.push_back(regionOf(i.flags)); } }
                    add("\"listed\",\"k\":" + to_string(k) + ",\"rs\":" + drv::jnums(v));
                }
                this_thread::sleep_for(microseconds(g() % 4 ? g() % 500 : g() % 40000));
            }
            while (!mine.empty()) { drop(); }
        });
    }
    for (string n : {string("A"), string("B")}) {
        ths.emplace_back([&, n] {
            mt19937 g(seed * 20 + (n == "A"));
            auto& f = w.in.at(n).f;
            int k = 0;
            while (!stop) {
                gate();
                if (k && g() % 3 == 0) { f->UnsubscribeFromRegionEvents(); add("\"unsub\",\"k\":" + to_string(k)); k = 0; }
                else {
                    int old = k;
                    k = nextK++;
                    add("\"sub\",\"k\":" + to_string(k) + ",\"o\":" + drv::js(sess(n)));
                    f->SubscribeToRegionEvents(cb(k));
                    if (old) { add("\"unsub\",\"k\":" + to_string(old)); }
                    add("\"subbed\",\"k\":" + to_string(k));
                }
                for (int i = 0; i < 30 && !stop && !pause; ++i) { this_thread::sleep_for(milliseconds(1 + g() % 9)); }
            }
            f->UnsubscribeFromRegionEvents();
            if (k) { add("\"unsub\",\"k\":" + to_string(k)); }
        });
    }
    for (int i = 0; i < rounds; ++i) {
        this_thread::sleep_for(milliseconds(250));
        pause = true;
        for (int j = 0; paused < nth + 2 && j < 10000; ++j) { this_thread::sleep_for(milliseconds(1)); }
        if (paused < nth + 2) { for (auto& e : ev) { cout << e << "\n"; } cout << "{\"stuck\":\"creating, destroying or subscribing does not come to an end\"}" << endl; shmem::Monitor::Cleanup(shmem::SessionId{w.session}, false); _exit(0); }
        this_thread::sleep_for(milliseconds(tr == "shmem" ? 350 : 60));
        add("\"quiet\"");
        pause = false;
        while (paused) { this_thread::sleep_for(milliseconds(1)); }
    }
    stop = true;
    for (auto& t : ths) { t.join(); }
    for (auto& [n, x] : w.in) { x.f.reset(); }
    for (auto& e : ev) { cout << e << "\n"; }
    cout << "{\"e\":\"end\"}" << endl;
    return 0;
}

int main(int argc, char** argv)
{
    if (argc > 1) { return conc(stoul(argv[1]), argv[2], stoi(argv[3])); }
    return replay();
}
