// Steps a real event manager through behaviours of spec/EventBus_Gen.tla, or uses it from several threads freely.
#include <common.h>
#include <fairmq/EventManager.h>
#include <array>
#include <random>
using namespace std;
using namespace fair::mq;

struct Ev1 : Event<const string&> {};
struct Ev2 : Event<string> {};
struct Ev3 : Event<int> {};

mutex gm;
vector<array<long, 4>> calls;   // subscriber, channel slot, generation or tag, emission
thread_local long curEmission = 0;
string bad;
void note(string const& s) { lock_guard<mutex> l(gm); if (bad.empty()) { bad = s; } }

string key(long n) { return "key" + to_string(n); }
string text(long n) { return "text" + to_string(n); }

using Hook = function<void(long)>;   // called with the emission number

// the real channels: event type and argument types
void subscribe(EventManager& m, int real, string const& s, Hook h)
{
    switch (real) {
        case 0: m.Subscribe<Ev1, int>(s, function<void(const string&,int)>([h](const string& k, int v) { if (k != key(v)) { note("wrong key " + k); } h(v); })); break;
        case 1: m.Subscribe<Ev1, string>(s, function<void(const string&,string)>([h](const string& k, string v) { long n = stol(v.substr(4)); if (k != key(n)) { note("wrong key " + k); } h(n); })); break;
        case 2: m.Subscribe<Ev2, int>(s, function<void(string,int)>([h](string k, int v) { if (k != key(v)) { note("wrong key " + k); } h(v); })); break;
        case 3: m.Subscribe<PropertyChangeAsString, string>(s, function<void(string,string)>([h](string k, string v) { long n = stol(v.substr(4)); if (k != key(n)) { note("wrong key " + k); } h(n); })); break;
        case 4: m.Subscribe<Ev3>(s, function<void(int)>([h](int k) { h(k); })); break;
        case 5: m.Subscribe<Ev1, int, string>(s, function<void(const string&,int,string)>([h](const string& k, int v, string t) { if (k != key(v) || t != text(v)) { note("wrong arguments"); } h(v); })); break;
        case 6: m.Subscribe<Ev2, string>(s, function<void(string,string)>([h](string k, string v) { long n = stol(v.substr(4)); if (k != key(n)) { note("wrong key " + k); } h(n); })); break;
        case 7: m.Subscribe<Ev1, long>(s, function<void(const string&,long)>([h](const string& k, long v) { if (k != key(v)) { note("wrong key " + k); } h(v); })); break;
    }
}
void unsubscribe(EventManager& m, int real, string const& s)
{
    switch (real) {
        case 0: m.Unsubscribe<Ev1, int>(s); break;
        case 1: m.Unsubscribe<Ev1, string>(s); break;
        case 2: m.Unsubscribe<Ev2, int>(s); break;
        case 3: m.Unsubscribe<PropertyChangeAsString, string>(s); break;
        case 4: m.Unsubscribe<Ev3>(s); break;
        case 5: m.Unsubscribe<Ev1, int, string>(s); break;
        case 6: m.Unsubscribe<Ev2, string>(s); break;
        case 7: m.Unsubscribe<Ev1, long>(s); break;
    }
}
void emitOn(EventManager& m, int real, long n)
{
    switch (real) {
        case 0: m.Emit<Ev1, int>(key(n), int(n)); break;
        case 1: m.Emit<Ev1, string>(key(n), text(n)); break;
        case 2: m.Emit<Ev2, int>(key(n), int(n)); break;
        case 3: m.Emit<PropertyChangeAsString, string>(key(n), text(n)); break;
        case 4: m.Emit<Ev3>(int(n)); break;
        case 5: m.Emit<Ev1, int, string>(key(n), int(n), text(n)); break;
        case 6: m.Emit<Ev2, string>(key(n), text(n)); break;
        case 7: m.Emit<Ev1, long>(key(n), n); break;
    }
}

int replay()
{
    string line;
    unique_ptr<EventManager> m;
    int real[3] = {0, 0, 0};
    vector<string> names{"", "sub", "sub2", "Sub"};
    long em = 0;
    while (getline(cin, line)) {
        auto f = drv::split(line, '|');
        if (f[0] == "walk") {
            m = make_unique<EventManager>();
            real[1] = stoi(f.at(2));
            real[2] = stoi(f.at(3));
            em = 0;
            cout << "{\"walk\":" << f[1] << "}" << endl;
            continue;
        }
        calls.clear();
        bad.clear();
        string exc;
        int s = stoi(f.at(1)), c = stoi(f.at(2)), g = stoi(f.at(4));
        string mode = f.at(3);
        try {
            if (f[0] == "sub") {
                auto mp = m.get();
                int rc = real[c], r2 = real[2];
                string nm = names[s];
                subscribe(*m, rc, nm, [=](long n) {
                    calls.push_back({s, c, g, n});
                    if (mode == "once") { unsubscribe(*mp, rc, nm); }
                    if (mode == "relay") { emitOn(*mp, r2, n); }
                });
            } else if (f[0] == "unsub") {
                unsubscribe(*m, real[c], names[s]);
            } else {
                emitOn(*m, real[c], ++em);
            }
        } catch (exception const& e) {
            exc = e.what();
        }
        cout << "{\"calls\":[";
        bool first = true;
        for (auto& x : calls) {
            if (x[3] != em) { note("argument of another emission"); }
            cout << (first ? "" : ",") << "[" << x[0] << "," << x[1] << "," << x[2] << "]";
            first = false;
        }
        cout << "],\"exc\":" << drv::js(exc) << ",\"bad\":" << drv::js(bad) << "}" << endl;
    }
    cout << "{\"done\":true}" << endl;
    return 0;
}

int conc(unsigned seed, int nth, int nops)
{
    EventManager m;
    vector<string> ev;
    mutex em;
    auto add = [&](string const& s) { lock_guard<mutex> l(em); ev.push_back(s); };
    atomic<long> nextTag{0}, nextEm{0};
    mt19937 r0(seed);
    int real[3] = {0, int(r0() % 8), 0};
    do { real[2] = r0() % 8; } while (real[2] == real[1]);
    mutex cm;
    map<long, vector<long>> called;
    vector<thread> ths;
    atomic<bool> go{false};
    for (int i = 0; i < nth; ++i) {
        ths.emplace_back([&, i] {
            mt19937 r(seed * 77 + i);
            while (!go) {}
            for (int n = 0; n < nops; ++n) {
                int c = 1 + r() % 2, s = 1 + r() % 2, k = r() % 7;
                string nm = "sub" + to_string(s);
                string th = ",\"th\":" + to_string(i) + ",\"c\":" + to_string(c) + ",\"s\":" + to_string(s);
                if (k < 3) {
                    long t = ++nextTag;
                    string x = ",\"op\":\"sub\",\"t\":" + to_string(t) + th + "}";
                    add("{\"e\":\"call\"" + x);
                    subscribe(m, real[c], nm, [&, t](long e) { lock_guard<mutex> l(cm); called[e].push_back(t); if (e != curEmission) { note("argument of another emission"); } });
                    add("{\"e\":\"ret\"" + x);
                } else if (k == 3) {
                    string x = ",\"op\":\"unsub\",\"t\":0" + th + "}";
                    add("{\"e\":\"call\"" + x);
                    try { unsubscribe(m, real[c], nm); } catch (out_of_range const&) {}
                    add("{\"e\":\"ret\"" + x);
                } else {
                    long e = ++nextEm;
                    curEmission = e;
                    add("{\"e\":\"call\",\"op\":\"emit\"" + th + "}");
                    emitOn(m, real[c], e);
                    vector<long> v;
                    { lock_guard<mutex> l(cm); v = called[e]; }
                    add("{\"e\":\"ret\",\"op\":\"emit\",\"called\":" + drv::jnums(v) + th + "}");
                }
            }
        });
    }
    go = true;
    for (auto& t : ths) { t.join(); }
    for (auto const& e : ev) { cout << e << "\n"; }
    if (!bad.empty()) { cout << "{\"e\":\"bad\",\"what\":" << drv::js(bad) << "}" << endl; }
    cout << flush;
    return 0;
}

int main(int argc, char** argv)
{
    if (argc > 1) { return conc(stoul(argv[1]), stoi(argv[2]), stoi(argv[3])); }
    return replay();
}
