// Steps real state queues through behaviours of spec/StateQueue_Gen.tla, or runs producers and consumers freely.
#include <common.h>
#include <fairmq/StateQueue.h>
#include <functional>
#include <random>
using namespace std;
using namespace fair::mq;
using namespace std::chrono;

// a condition that has state of its own, as std::function (not trivially copied)
struct Cond
{
    shared_ptr<bool> flag = make_shared<bool>(false);
    function<bool()> fn() const { auto f = flag; return [f] { return *f; }; }
};

struct Queue
{
    StateQueue q;
    Cond c;
    State a, b;   // what stands for A and B
    string name(State s) const
    {
        if (s == a) { return "A"; }
        if (s == b) { return "B"; }
        if (s == State::Error) { return "ERROR"; }
        return "other:" + ToStr(s);
    }
    static string ToStr(State s) { ostringstream o; o << s; return o.str(); }
    State state(string const& s) const { return s == "A" ? a : s == "B" ? b : State::Error; }

    string wait(string const& k, string const& s, bool plainlambda)
    {
        try {
            pair<bool, State> r;
            auto f = c.flag;
            if (k == "next") { return name(q.WaitForNext()); }
            if (k == "timed") { r = q.WaitForNext(seconds(60)); }
            if (k == "nextor") { if (plainlambda) { r = q.WaitForNextOrCustom([f] { return *f; }); } else { auto p = c.fn(); r = q.WaitForNextOrCustom(p); } }
            if (k == "custom") { if (plainlambda) { r = q.WaitForCustom([f] { return *f; }); } else { auto p = c.fn(); r = q.WaitForCustom(p); } }
            if (k == "state") { q.WaitForState(state(s)); return "end"; }
            if (k == "stateor") { if (plainlambda) { q.WaitForStateOrCustom(state(s), [f] { return *f; }); } else { q.WaitForStateOrCustom(state(s), c.fn()); } return "end"; }
            return r.first ? name(r.second) : "none";
        } catch (DeviceErrorState const&) {
            return "throw";
        } catch (exception const& e) {
            return string("exception:") + e.what();
        }
    }
};

struct Shared
{
    mutex m;
    condition_variable cv;
    vector<string> res;
    int waiting = 0;
    Queue q;
};

int replay()
{
    string line;
    shared_ptr<Shared> w;
    vector<thread> ths;
    bool plain = true;
    size_t seen = 0;
    auto finish = [&] {
        if (!w) { return; }
        // free the waiting consumers, then see what was left
        vector<string> left;
        int k;
        { lock_guard<mutex> l(w->m); k = w->waiting; }
        if (k == 0) {
            for (int i = 0; i < 20; ++i) {
                try {
                    auto r = w->q.q.WaitForNext(milliseconds(0));
                    if (!r.first) { break; }
                    left.push_back(w->q.name(r.second));
                } catch (DeviceErrorState const&) { left.push_back("ERROR"); break; }
            }
        } else {
            for (int i = 0; i < 200; ++i) {
                w->q.q.Push(State::Error, [&] { *w->q.c.flag = true; });
                unique_lock<mutex> l(w->m);
                if (w->cv.wait_for(l, milliseconds(100), [&] { return w->waiting == 0; })) { break; }
            }
            lock_guard<mutex> l(w->m);
            if (w->waiting) { cout << "{\"stuck\":\"a consumer does not return although the error state is queued\"}" << endl; _exit(0); }
        }
        for (auto& t : ths) { t.join(); }
        ths.clear();
        cout << "{\"endobs\":true,\"waited\":" << k << ",\"left\":" << drv::jlist(left) << "}" << endl;
        w.reset();
    };
    while (getline(cin, line)) {
        auto f = drv::split(line, '|');
        if (f[0] == "walk") {
            finish();
            w = make_shared<Shared>();
            w->q.a = GetState(f.at(2));
            w->q.b = GetState(f.at(3));
            plain = f.at(4) == "1";
            seen = 0;
            cout << "{\"walk\":" << f[1] << "}" << endl;
            continue;
        }
        bool fl = f.at(2) == "1";
        size_t want = stoul(f.at(3));
        auto& flag = *w->q.c.flag;
        long ms = -1;
        if (f[0] == "push") { w->q.q.Push(w->q.state(f[1])); }
        else if (f[0] == "pushsig") { w->q.q.Push(w->q.state(f[1]), [&] { flag = fl; }); }
        else if (f[0] == "notify") { w->q.q.Notify([&] { flag = fl; }); }
        else if (f[0] == "locked") { w->q.q.Locked([&] { flag = fl; }); }
        else if (f[0] == "clear") { w->q.q.Clear(); }
        else if (f[0] == "short") {
            auto t0 = steady_clock::now();
            string r;
            try {
                auto p = w->q.q.WaitForNext(microseconds(4000));
                r = p.first ? w->q.name(p.second) : "none";
            } catch (DeviceErrorState const&) { r = "throw"; }
            auto us = duration_cast<microseconds>(steady_clock::now() - t0).count();
            if (r == "none" && us < 4000) { r = "none, too early"; }
            lock_guard<mutex> l(w->m);
            w->res.push_back(r);
        } else if (f[0] == "wait") {
            auto ks = drv::split(f[1], ':');
            ks.resize(2);
            { lock_guard<mutex> l(w->m); ++w->waiting; }
            bool pl = plain;
            ths.emplace_back([w, ks, pl] {
                auto r = w->q.wait(ks[0], ks[1], pl);
                lock_guard<mutex> l(w->m);
                w->res.push_back(r);
                --w->waiting;
                w->cv.notify_all();
            });
        }
        {
            unique_lock<mutex> l(w->m);
            if (!w->cv.wait_for(l, seconds(10), [&] { return w->res.size() - seen >= want; })) {
                cout << "{\"stuck\":\"" << w->waiting << " consumers wait, " << want - (w->res.size() - seen) << " of them should have returned\"}" << endl;
                _exit(0);
            }
        }
        // too many completions would show up now
        if (w->waiting) { this_thread::sleep_for(microseconds(f[0] == "wait" ? 1500 : 300)); }
        lock_guard<mutex> l(w->m);
        vector<string> got(w->res.begin() + seen, w->res.end());
        sort(got.begin(), got.end());
        seen = w->res.size();
        cout << "{\"res\":" << drv::jlist(got) << ",\"waiting\":" << w->waiting << "}" << endl;
    }
    finish();
    cout << "{\"done\":true}" << endl;
    return 0;
}

// np producers, nc consumers, random operations; the quiet points are set by the main thread
int conc(unsigned seed, int np, int nc, int rounds, int settlems)
{
    auto w = make_shared<Shared>();
    w->q.a = State::Ready;
    w->q.b = State::Running;
    vector<string> ev;
    atomic<int> progress{0};
    mutex em;
    auto add = [&](string const& s) { lock_guard<mutex> l(em); ev.push_back(s); ++progress; };
    mt19937 r(seed);
    vector<string> kinds{"next", "next", "nextor", "custom", "state:A", "state:B", "stateor:A", "stateor:B", "timed"};
    vector<atomic<bool>> busy(nc);
    for (auto& b : busy) { b = false; }
    vector<thread> cons;
    auto startConsumer = [&](int i, string const& ks) {
        busy[i] = true;
        auto v = drv::split(ks, ':');
        v.resize(2);
        add("{\"e\":\"ccall\",\"th\":" + to_string(i) + ",\"k\":\"" + v[0] + "\",\"s\":\"" + v[1] + "\"}");
        cons.emplace_back([&, i, v, seed] {
            auto res = w->q.wait(v[0], v[1], (i + seed) % 2);
            add("{\"e\":\"cret\",\"th\":" + to_string(i) + ",\"res\":\"" + res + "\"}");
            busy[i] = false;
        });
    };
    auto produce = [&](int p, mt19937& g, bool err) {
        int k = g() % 10;
        bool f = g() % 2;
        string s = err && g() % 4 == 0 ? "ERROR" : (g() % 2 ? "A" : "B");
        string op = k < 5 ? "push" : k < 7 ? "pushsig" : k < 9 ? "notify" : "clear";
        add("{\"e\":\"pcall\",\"th\":" + to_string(p) + ",\"op\":\"" + op + "\",\"arg\":\"" + s + "\",\"f\":" + (f ? "true" : "false") + "}");
        auto& flag = *w->q.c.flag;
        if (op == "push") { w->q.q.Push(w->q.state(s)); }
        if (op == "pushsig") { w->q.q.Push(w->q.state(s), [&] { flag = f; }); }
        if (op == "notify") { w->q.q.Notify([&] { flag = f; }); }
        if (op == "clear") { w->q.q.Clear(); }
        add("{\"e\":\"pret\",\"th\":" + to_string(p) + "}");
    };
    auto settle = [&] {
        int last = -1, still = 0;
        while (still < settlems) {
            int p = progress;
            if (p == last) { ++still; } else { still = 0; last = p; }
            this_thread::sleep_for(milliseconds(1));
        }
    };
    for (int n = 0; n < rounds; ++n) {
        // the consumers for this round
        int starts = r() % (nc + 1);
        for (int k = 0; k < starts; ++k) {
            int i = r() % nc;
            if (!busy[i]) { startConsumer(i, kinds[r() % kinds.size()]); }
        }
        if (r() % 2) { settle(); }
        vector<thread> prods;
        for (int p = 0; p < np; ++p) {
            if (r() % 3 == 0) { continue; }
            int cnt = 1 + r() % 2;
            unsigned s = r();
            prods.emplace_back([&, p, cnt, s, n] { mt19937 g(s); for (int c = 0; c < cnt; ++c) { produce(p, g, n % 3 == 2); } });
        }
        for (auto& t : prods) { t.join(); }
        settle();
        lock_guard<mutex> l(em);
        ev.push_back("{\"e\":\"quiet\"}");
    }
    { lock_guard<mutex> l(em); for (auto const& e : ev) { cout << e << "\n"; } cout << flush; }
    _exit(0);
}

int main(int argc, char** argv)
{
    if (argc > 1) { return conc(stoul(argv[1]), stoi(argv[2]), stoi(argv[3]), stoi(argv[4]), stoi(argv[5])); }
    return replay();
}
