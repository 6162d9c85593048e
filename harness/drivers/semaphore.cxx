// Steps real semaphores through behaviours of spec/Semaphore_Gen.tla, or runs threads freely.
#include <common.h>
#include <fairmq/tools/Semaphore.h>
#include <random>
using namespace std;
using namespace fair::mq::tools;
using drv::js;

template<typename S>
struct Sem;
template<>
struct Sem<Semaphore>
{
    Semaphore s;
    Sem(size_t n) : s(n) {}
    Semaphore& get() { return s; }
};
template<>
struct Sem<SharedSemaphore>
{
    SharedSemaphore s;
    Sem(size_t n) : s(n) {}
    SharedSemaphore get() { return s; }   // another handle for every use
};

struct Walk
{
    mutex m;
    condition_variable cv;
    int done = 0, waiting = 0;
    vector<thread> ths;
};

template<typename S>
int replay(string const& first)
{
    string line = first;
    int seen = 0;
    auto w = make_shared<Walk>();
    shared_ptr<Sem<S>> s;
    auto finish = [&] {
        if (!s) { return; }
        int left;
        { lock_guard<mutex> l(w->m); left = w->waiting; }
        for (int i = 0; i < left; ++i) { s->get().Signal(); }
        {
            unique_lock<mutex> l(w->m);
            if (!w->cv.wait_for(l, chrono::seconds(20), [&] { return w->waiting == 0; })) {
                cout << "{\"stuck\":\"" << w->waiting << " waits do not complete although enough signals were given\"}" << endl;
                _exit(0);
            }
        }
        for (auto& t : w->ths) { t.join(); }
        s.reset();
    };
    do {
        auto f = drv::split(line, '|');
        if (f[0] == "walk") {
            finish();
            w = make_shared<Walk>();
            s = make_shared<Sem<S>>(stoul(f.at(2)));
            seen = 0;
            cout << "{\"walk\":" << f[1] << "}" << endl;
            continue;
        }
        int n = stoi(f.at(1)), arg = stoi(f.at(2));
        if (f[0] == "wait") {
            { lock_guard<mutex> l(w->m); ++w->waiting; }
            auto ss = s; auto ww = w;
            w->ths.emplace_back([ss, ww] {
                ss->get().Wait();
                lock_guard<mutex> l(ww->m);
                ++ww->done;
                --ww->waiting;
                ww->cv.notify_all();
            });
        } else {
            for (int i = 0; i < arg; ++i) { s->get().Signal(); }
        }
        int got;
        {
            unique_lock<mutex> l(w->m);
            w->cv.wait_for(l, chrono::seconds(20), [&] { return w->done - seen >= n; });
        }
        this_thread::sleep_for(chrono::microseconds(f[0] == "wait" && n == 0 ? 1500 : 300));   // a wait too many would show up
        size_t c = s->get().GetCount();
        {
            lock_guard<mutex> l(w->m);
            got = w->done - seen;
            seen = w->done;
            cout << "{\"n\":" << got << ",\"count\":" << c << ",\"waiting\":" << w->waiting << "}" << endl;
        }
    } while (getline(cin, line));
    finish();
    cout << "{\"done\":true}" << endl;
    return 0;
}

template<typename S>
int conc(unsigned seed, int init, int nthreads, int nops)
{
    auto s = make_shared<Sem<S>>(init);
    mutex m;
    vector<string> ev;
    auto add = [&](string const& e) { lock_guard<mutex> l(m); ev.push_back(e); };
    // every thread waits as often as it signals, in an order that cannot run dry in the end
    vector<thread> ths;
    atomic<int> finished{0};
    for (int i = 0; i < nthreads; ++i) {
        ths.emplace_back([&, i] {
            mt19937 r(seed * 131 + i);
            auto p = [&](char const* e, char const* op, string v = "") { add(string("{\"e\":\"") + e + "\",\"op\":\"" + op + "\",\"th\":" + to_string(i) + v + "}"); };
            for (int n = 0; n < nops; ++n) {
                if (i % 2) {
                    p("call", "signal"); s->get().Signal(); p("ret", "signal");
                } else {
                    p("call", "wait"); s->get().Wait(); p("ret", "wait");
                }
                if (r() % 3 == 0) { p("call", "count"); auto c = s->get().GetCount(); p("ret", "count", ",\"v\":" + to_string(c)); }
                int k = r() % 4;
                if (k == 0) { this_thread::yield(); } else if (k == 1) { this_thread::sleep_for(chrono::microseconds(r() % 200)); }
            }
            ++finished;
        });
    }
    for (int i = 0; i < 3000 && finished < nthreads; ++i) { this_thread::sleep_for(chrono::milliseconds(10)); }
    {
        lock_guard<mutex> l(m);
        for (auto const& e : ev) { cout << e << "\n"; }
        if (finished < nthreads) { cout << "{\"stuck\":\"waits do not complete although there are enough signals\"}" << endl; _exit(0); }
    }
    for (auto& t : ths) { t.join(); }
    cout << flush;
    return 0;
}

int main(int argc, char** argv)
{
    string kind = argv[1];
    if (argc > 2) {
        unsigned seed = stoul(argv[2]); int init = stoi(argv[3]), th = stoi(argv[4]), ops = stoi(argv[5]);
        return kind == "plain" ? conc<Semaphore>(seed, init, th, ops) : conc<SharedSemaphore>(seed, init, th, ops);
    }
    string line;
    getline(cin, line);
    return kind == "plain" ? replay<Semaphore>(line) : replay<SharedSemaphore>(line);
}
