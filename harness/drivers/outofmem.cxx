// Two users of one nearly full shared memory segment, stepped through behaviours of spec/OutOfMemory_Gen.tla or running freely.
#include <common.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/shmem/Common.h>
#include <fairmq/shmem/Monitor.h>
#include <cstring>
#include <deque>
#include <random>
using namespace std;
using namespace fair::mq;
using namespace std::chrono;
static constexpr size_t kSeg = 2000000, kSmall = 440000, kBig = 1700000;
static unsigned char pat(unsigned tag, size_t i) { return static_cast<unsigned char>(tag * 37 + i * 11 + (i >> 9)); }
static void fill(void* p, size_t n, unsigned tag) { auto d = static_cast<unsigned char*>(p); for (size_t i = 0; i < n; ++i) { d[i] = pat(tag, i); } }
static bool good(void* p, size_t n, unsigned tag) { auto d = static_cast<unsigned char*>(p); for (size_t i = 0; i < n; ++i) { if (d[i] != pat(tag, i)) { return false; } } return true; }

struct Held { MessagePtr m; unsigned tag; size_t size; };
struct User
{
    unique_ptr<ProgOptions> cfg;
    shared_ptr<TransportFactory> f;
    map<string, vector<Held>> held;     // by kind: s, b
    double interval = 0;                // between attempts, in ms
    MessagePtr empty;                   // what a failed rebuild left
};
struct Walk
{
    map<string, User> u;
    string session;
    size_t al = 0, free0 = 0;
    mutex m;
    unsigned tag = 1;
    int freed = 0;
    void setup(string const& algo, string const& pa, string const& pb, size_t alignment, int variant)
    {
        session = "vo" + to_string(getpid());
        al = alignment;
        for (auto& [n, p] : {make_pair(string("A"), pa), make_pair(string("B"), pb)}) {
            auto& x = u[n];
            x.cfg = make_unique<ProgOptions>();
            auto& c = *x.cfg;
            c.SetProperty<string>("session", session);
            c.SetProperty<size_t>("shm-segment-size", kSeg);
            c.SetProperty<string>("shm-allocation", algo);
            int iv = p == "one" ? 3000 : p == "three" ? 160 : 5;
            x.interval = iv;
            c.SetProperty<int>("bad-alloc-attempt-interval", iv);
            if (p == "one") {
                if (variant % 4 == 1) { c.SetProperty<int>("bad-alloc-max-attempts", 1); }
                if (variant % 4 == 2) { c.SetProperty<int>("bad-alloc-max-attempts", 0); }
                if (variant % 4 == 3) { c.SetProperty<bool>("shm-throw-bad-alloc", true); }
            }
            if (p == "three") { c.SetProperty<int>("bad-alloc-max-attempts", 3); if (variant % 2) { c.SetProperty<bool>("shm-throw-bad-alloc", true); } }
            if (p == "many") { c.SetProperty<int>("bad-alloc-max-attempts", 100000); }
            if (p == "inf") {
                if (variant % 3 == 0) { c.SetProperty<bool>("shm-throw-bad-alloc", false); }
                if (variant % 3 == 1) { c.SetProperty<int>("bad-alloc-max-attempts", -1); if (variant % 2) { c.SetProperty<bool>("shm-throw-bad-alloc", true); } }
                if (variant % 3 == 2) { c.SetProperty<bool>("shm-throw-bad-alloc", false); c.SetProperty<int>("bad-alloc-max-attempts", 2); }
            }
            x.f = TransportFactory::CreateTransportFactory("shmem", n, x.cfg.get());
        }
        free0 = freeMem();
    }
    size_t freeMem() { return shmem::Monitor::GetFreeMemory(shmem::SessionId{session}, 0); }
    static void noteFree(void* d, void* h) { ++static_cast<Walk*>(h)->freed; free(d); }
    // op: new, aligned, user, rebuild (x: kind of the message rebuilt)
    // (all of them with the same overhead: what is freed by one can be used by another)
    string alloc(string const& op, string const& n, string const& kind, string const& x)
    {
        auto& us = u.at(n);
        size_t size = kind == "s" ? kSmall : kBig;
        unsigned t;
        MessagePtr msg;
        void* ub = nullptr;
        string r = "ok";
        { lock_guard<mutex> l(m); t = tag++; if (op == "rebuild") { msg = move(us.held[x].back().m); us.held[x].pop_back(); } }
        auto t0 = steady_clock::now();
        try {
            if (op == "rebuild") { if (al) { msg->Rebuild(size, Alignment{al}); } else { msg->Rebuild(size); } }
            else if (op == "user" && !al) { ub = malloc(size); fill(ub, size, t); int before = freed; msg = us.f->CreateMessage(ub, size, noteFree, this); if (freed != before + 1) { r += " but the user's memory was given back " + to_string(freed - before) + " times"; } }
            else if (al) { msg = us.f->CreateMessage(size, Alignment{al}); }
            else { msg = us.f->CreateMessage(size); }
        } catch (MessageBadAlloc const&) {
            double ms = duration<double, milli>(steady_clock::now() - t0).count();
            free(ub);
            if (op == "rebuild" && (msg->GetSize() != 0 || msg->GetData())) { return "refused but the message is not empty"; }
            return "refused:" + to_string(ms / us.interval);
        } catch (exception const& e) { return string("exception: ") + e.what(); }
        if (msg->GetSize() != size) { r += " but of size " + to_string(msg->GetSize()); }
        if (!ub) { fill(msg->GetData(), size, t); }
        lock_guard<mutex> l(m);
        us.held[kind].push_back({move(msg), t, size});
        return r;
    }
    string release(string const& n, string const& kind, int which)
    {
        lock_guard<mutex> l(m);
        auto& v = u.at(n).held[kind];
        if (v.empty()) { return "nothing to free"; }
        size_t i = which % v.size();
        string r = good(v[i].m->GetData(), v[i].size, v[i].tag) ? "ok" : "its content was damaged";
        v.erase(v.begin() + i);
        return r;
    }
    string check()
    {
        lock_guard<mutex> l(m);
        for (auto& [n, x] : u) { for (auto& [k, v] : x.held) { for (auto& h : v) { if (!good(h.m->GetData(), h.size, h.tag)) { return "a message of " + n + " was damaged"; } } } }
        return "";
    }
};

int replay()
{
    string line;
    unique_ptr<Walk> w;
    thread wt;
    mutex m;
    condition_variable cv;
    bool waiting = false;
    string wres;
    int step = 0, walk = 0;
    auto hang = [&](string const& s) { cout << "{\"stuck\":" << drv::js(s) << "}" << endl; shmem::Monitor::Cleanup(shmem::SessionId{w->session}, false); _exit(0); };
    auto await = [&](double s) { unique_lock<mutex> l(m); return cv.wait_for(l, duration<double>(s), [&] { return !waiting; }); };
    auto finish = [&] {
        if (!w) { return; }
        string err;
        if (wt.joinable()) {
            for (auto& [n, x] : w->u) { x.f->Interrupt(); }
            if (!await(10)) { hang("an allocation that waits does not notice that the transport is interrupted"); }
            wt.join();
            if (wres.compare(0, 7, "refused") != 0 && !wres.empty()) { err = "interrupted allocation: " + wres; }
        }
        auto c = w->check();
        if (!c.empty()) { err += c; }
        for (auto& [n, x] : w->u) { x.held.clear(); x.empty.reset(); }
        size_t now = w->freeMem();
        if (now < w->free0) { err += " " + to_string(w->free0 - now) + " bytes were never freed"; }
        w.reset();
        cout << "{\"endobs\":true,\"err\":" << drv::js(err) << "}" << endl;
    };
    while (getline(cin, line)) {
        auto f = drv::split(line, '|');
        if (f[0] == "walk") {    // walk|i|algorithm|policy A|policy B|alignment
            finish();
            walk = stoi(f[1]);
            step = 0;
            w = make_unique<Walk>();
            w->setup(f[2], f[3], f[4], stoul(f[5]), walk);
            cout << "{\"walk\":" << walk << "}" << endl;
            continue;
        }
        // op|user|kind|x|at|res|w
        ++step;
        string const &op = f[0], &n = f[1], &k = f[2], &x = f[3], &want = f[5];
        string res = "ok", wr;
        auto& us = w->u.at(n);
        if (op == "new" || op == "aligned" || op == "user" || op == "rebuild" || op.compare(0, 4, "late") == 0) {
            { lock_guard<mutex> l(m); waiting = true; }
            string how = op.compare(0, 4, "late") == 0 ? (step % 2 ? "new" : "user") : op;
            auto t0 = steady_clock::now();
            wt = thread([&, how, n, k, x] {
                auto r = w->alloc(how, n, k, x);
                lock_guard<mutex> l(m);
                wres = r;
                waiting = false;
                cv.notify_all();
            });
            string lr;
            if (op.compare(0, 4, "late") == 0) {
                this_thread::sleep_until(t0 + duration<double, milli>(us.interval * (stoi(f[4]) - 0.5)));
                lr = w->release(op.substr(4), x, step);
            }
            if (want == "blocked") {
                this_thread::sleep_for(milliseconds(25));
                lock_guard<mutex> l(m);
                res = waiting ? "blocked" : wres;
            } else {
                if (!await(20)) { hang(op + " does not come to an end; it should be " + want); }
                wt.join();
                res = wres;
                wres = "";
            }
            if (!lr.empty() && lr != "ok") { res += ", freed: " + lr; }
        } else if (op == "over") {
            static const size_t sizes[] = {kSeg, kSeg + 1, kSeg * 1000, ~size_t(0), ~size_t(0) - 8, ~size_t(0) - 40, size_t(1) << 63, ~size_t(0) - 4096};
            size_t size = sizes[(step + walk) % 8];
            auto t0 = steady_clock::now();
            { lock_guard<mutex> l(m); waiting = true; }
            thread o([&] {
                string r;
                try {
                    auto msg = step % 3 == 0 && w->al ? us.f->CreateMessage(size, Alignment{w->al}) : us.f->CreateMessage(size);
                    r = "a message of size " + to_string(msg->GetSize()) + " was created";
                } catch (MessageBadAlloc const&) { r = "refused:" + to_string(duration<double, milli>(steady_clock::now() - t0).count() / us.interval / 100); }
                catch (exception const& e) { r = string("exception: ") + e.what(); }
                lock_guard<mutex> l(m);
                wres = r;
                waiting = false;
                cv.notify_all();
            });
            if (!await(20)) { hang("a message larger than the segment is neither refused nor created"); }
            o.join();
            res = wres;
            wres = "";
        } else if (op == "free") {
            res = w->release(n, k, step);
        } else if (op == "interrupt") { us.f->Interrupt(); }
        else if (op == "resume") { us.f->Resume(); }
        if (!f[6].empty()) {
            if (!await(20)) { hang("a waiting allocation does not come to an end; it should be " + f[6]); }
            wt.join();
            wr = wres;
            wres = "";
        } else if (wt.joinable() && want != "blocked") {
            this_thread::sleep_for(milliseconds(20));
            lock_guard<mutex> l(m);
            if (!waiting) { wr = wres; }
        }
        if (wr.compare(0, 8, "refused:") == 0) { wr = "refused"; }
        cout << "{\"res\":" << drv::js(res) << ",\"w\":" << drv::js(wr) << ",\"err\":" << drv::js(w->check()) << "}" << endl;
    }
    finish();
    cout << "{\"done\":true}" << endl;
    return 0;
}

int conc(unsigned seed, int threads, int ops)
{
    Walk w;
    w.setup(seed % 2 ? "rbtree_best_fit" : "simple_seq_fit", "inf", "many", 0, seed);
    vector<string> ev;
    mutex em;
    auto add = [&](string const& s) { lock_guard<mutex> l(em); ev.push_back(s); };
    atomic<int> running{threads};
    atomic<bool> bad{false};
    vector<thread> ths;
    for (int t = 0; t < threads; ++t) {
        ths.emplace_back([&, t] {
            mt19937 g(seed * 100 + t);
            auto& us = w.u.at(t % 2 ? "B" : "A");
            deque<Held> mine;
            auto put = [&] {
                if (mine.empty()) { return; }
                auto& h = mine.front();
                if (h.m->GetSize() != h.size || !good(h.m->GetData(), h.size, h.tag)) { bad = true; }
                add("{\"e\":\"free\",\"n\":" + to_string(h.size) + "}");
                mine.pop_front();
            };
            for (int i = 0; i < ops; ++i) {
                // half of the memory at most for all but this one: nobody waits while holding
                size_t n = 1000 + g() % (g() % 4 ? 100000 : 600000);
                while (!mine.empty()) { put(); }
                int cnt = 1;
                for (int c = 0; c < cnt; ++c) {
                    unsigned tag = seed + t * 1000 + i;
                    add("{\"e\":\"call\",\"th\":" + to_string(t) + "}");
                    try {
                        auto m = us.f->CreateMessage(n);
                        fill(m->GetData(), n, tag);
                        add("{\"e\":\"got\",\"th\":" + to_string(t) + ",\"n\":" + to_string(n) + "}");
                        mine.push_back({move(m), tag, n});
                    } catch (MessageBadAlloc const&) { add("{\"e\":\"refused\",\"th\":" + to_string(t) + "}"); }
                    if (g() % 3 == 0) { this_thread::sleep_for(microseconds(g() % 2000)); }
                }
            }
            while (!mine.empty()) { put(); }
            --running;
        });
    }
    thread it([&] {
        mt19937 g(seed);
        while (running > 0) {
            this_thread::sleep_for(milliseconds(g() % 40));
            string u = g() % 2 ? "A" : "B";
            add("{\"e\":\"int\",\"u\":\"" + u + "\"}");
            w.u.at(u).f->Interrupt();
            this_thread::sleep_for(milliseconds(g() % 10));
            w.u.at(u).f->Resume();
            add("{\"e\":\"res\",\"u\":\"" + u + "\"}");
        }
    });
    auto end = steady_clock::now() + seconds(60);
    while (running > 0 && steady_clock::now() < end) { this_thread::sleep_for(milliseconds(5)); }
    if (running > 0) { for (auto& e : ev) { cout << e << "\n"; } cout << "{\"stuck\":\"allocations do not come to an end although memory is free\"}" << endl; shmem::Monitor::Cleanup(shmem::SessionId{w.session}, false); _exit(0); }
    for (auto& t : ths) { t.join(); }
    it.join();
    long lost = static_cast<long>(w.free0) - static_cast<long>(w.freeMem());
    ev.push_back("{\"e\":\"end\",\"lost\":" + to_string(max(0L, lost)) + ",\"bad\":\"" + (bad ? "a message was damaged" : "") + "\"}");
    for (auto& e : ev) { cout << e << "\n"; }
    cout << flush;
    return 0;
}

int main(int argc, char** argv)
{
    if (argc > 1) { return conc(stoul(argv[1]), stoi(argv[2]), stoi(argv[3])); }
    return replay();
}
