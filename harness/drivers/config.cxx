// Steps a real property store through behaviours of spec/Config_Gen.tla, or uses it from several threads freely.
#include <common.h>
#include <fairmq/Device.h>
#include <fairmq/PluginServices.h>
#include <fairmq/ProgOptions.h>
#include <algorithm>
#include <filesystem>
#include <random>
#include <set>
using namespace std;
using namespace fair::mq;

struct Custom { int x; bool operator==(Custom const& o) const { return x == o.x; } };
ostream& operator<<(ostream& o, Custom const& c) { return o << "custom<" << c.x << ">"; }

struct Access   // the same store, directly or through the plugin services
{
    ProgOptions* po = nullptr;
    PluginServices* ps = nullptr;
};

using Told = function<void(string const&, int)>;   // key, value index (-1: neither)
struct Type
{
    string name;
    string text[2];
    virtual ~Type() = default;
    virtual void set(Access a, string const& k, int v) = 0;
    virtual bool update(Access a, string const& k, int v) = 0;
    virtual Property any(int v) = 0;
    virtual int get(Access a, string const& k) = 0;           // throws
    virtual int getOr(Access a, string const& k, int v) = 0;
    virtual void sub(Access a, string const& s, Told t) = 0;
    virtual void unsub(Access a, string const& s) = 0;
    virtual int index(Property const& p) = 0;
};
template<typename T>
struct TypeOf : Type
{
    T val[2];
    TypeOf(string n, T a, string ta, T b, string tb) : val{a, b} { name = n; text[0] = ta; text[1] = tb; }
    int idx(T const& x) { return x == val[0] ? 0 : x == val[1] ? 1 : -1; }
    void set(Access a, string const& k, int v) override { if (a.ps) { a.ps->SetProperty<T>(k, val[v]); } else { a.po->SetProperty<T>(k, val[v]); } }
    bool update(Access a, string const& k, int v) override { return a.ps ? a.ps->UpdateProperty<T>(k, val[v]) : a.po->UpdateProperty<T>(k, val[v]); }
    Property any(int v) override { return Property(val[v]); }
    int get(Access a, string const& k) override { return idx(a.ps ? a.ps->GetProperty<T>(k) : a.po->GetProperty<T>(k)); }
    int getOr(Access a, string const& k, int v) override { return idx(a.ps ? a.ps->GetProperty<T>(k, val[v]) : a.po->GetProperty<T>(k, val[v])); }
    void sub(Access a, string const& s, Told t) override
    {
        if (a.ps) { a.ps->SubscribeToPropertyChange<T>(s, [this, t](string const& k, T v) { t(k, idx(v)); }); }
        else { a.po->Subscribe<T>(s, [this, t](string const& k, T v) { t(k, idx(v)); }); }
    }
    void unsub(Access a, string const& s) override { if (a.ps) { a.ps->UnsubscribeFromPropertyChange<T>(s); } else { a.po->Unsubscribe<T>(s); } }
    int index(Property const& p) override { return p.type() == typeid(T) ? idx(boost::any_cast<T>(p)) : -1; }
};

vector<unique_ptr<Type>> types;
template<typename T>
void add(string n, T a, string ta, T b, string tb) { types.push_back(make_unique<TypeOf<T>>(n, a, ta, b, tb)); }
void makeTypes()
{
    PropertyHelper::AddType<Custom>("custom");
    add<int>("int", 42, "42", -7, "-7");
    add<string>("string", "forty two", "forty two", "", "");
    add<bool>("bool", true, "true", false, "false");
    add<char>("char", 'a', "a", 'z', "z");
    add<unsigned char>("unsigned char", 200, "200", 9, "9");
    add<short>("short", -300, "-300", 12, "12");
    add<long>("long", 1234567890123L, "1234567890123", -1, "-1");
    add<unsigned long>("unsigned long", 18446744073709551615ul, "18446744073709551615", 5, "5");
    add<float>("float", 1.5f, "1.5", -0.25f, "-0.25");
    add<double>("double", 2.75, "2.75", 1e9, "1e+09");
    add<vector<int>>("vector<int>", {1, 2, 3}, "1, 2, 3", {}, "");
    add<vector<string>>("vector<string>", {"a", "b c"}, "a, b c", {"x"}, "x");
    add<vector<unsigned char>>("vector<unsigned char>", {1, 255}, "1, 255", {7}, "7");
    add<vector<bool>>("vector<bool>", {true, false}, "true, false", {true}, "true");
    add<filesystem::path>("path", "/tmp/x", "\"/tmp/x\"", "y", "\"y\"");
    add<Custom>("custom", {3}, "custom<3>", {4}, "custom<4>");
}

map<string, string> const keyName{{"k1", "fmqa"}, {"k2", "fmqab"}, {"k3", "fmqb.c"}};
string modelKey(string const& n) { for (auto& k : keyName) { if (k.second == n) { return k.first; } } return "?" + n; }
struct Query { bool regex; string q; set<string> match; };
vector<Query> const queries{
    {false, "fmqa", {"k1", "k2"}}, {false, "fmqab", {"k2"}}, {false, "fmq", {"k1", "k2", "k3"}}, {false, "mqa", {}}, {false, "fmqb.c", {"k3"}}, {false, "fmqabc", {}},
    {true, "fmqa.*", {"k1", "k2"}}, {true, "fmqa", {"k1"}}, {true, "fmq.*b.*", {"k2", "k3"}}, {true, "fmqb\\.c", {"k3"}}, {true, ".*\\.c", {"k3"}}, {true, "mqa", {}}, {true, "fmq.+", {"k1", "k2", "k3"}}};

struct Ctx
{
    ProgOptions config;
    Device device;
    PluginServices ps;
    Type* ty[2];
    set<string> base;
    Ctx(int a, int b) : device(config), ps(config, device), ty{types[a].get(), types[b].get()}
    {
        for (auto& k : config.GetPropertyKeys()) { base.insert(k); }
    }
    Access acc(bool viaPs) { return viaPs ? Access{nullptr, &ps} : Access{&config, nullptr}; }
};

struct Val { int t = -1, v = -1; bool operator==(Val const& o) const { return t == o.t && v == o.v; } };   // t: 0 a, 1 b, -1 absent
string jval(Val x) { return x.t < 0 ? "{\"t\":\"none\",\"v\":0}" : string("{\"t\":\"") + (x.t ? "b" : "a") + "\",\"v\":" + to_string(x.v) + "}"; }
Val parseVal(string const& s) { return s == "-" ? Val{} : Val{s[0] - 'a', s[1] - '0'}; }

map<string, Val> observe(Ctx& c, bool viaPs, size_t n, string& bad)
{
    map<string, Val> r;
    Access a = c.acc(viaPs);
    auto complain = [&](string const& s) { if (bad.empty()) { bad = s; } };
    for (auto& k : keyName) {
        Val x;
        for (int t = 0; t < 2; ++t) {
            try {
                int v = c.ty[t]->get(a, k.second);
                if (x.t >= 0) { complain(k.first + " can be read with two types"); }
                x = Val{t, v};
                if (v < 0) { complain(k.first + " has a value nobody wrote"); x.v = 9; }
            } catch (exception const&) {}
        }
        bool exists = viaPs ? c.ps.PropertyExists(k.second) : c.config.Count(k.second) > 0;
        if (exists != (x.t >= 0)) { complain(k.first + (exists ? " exists but cannot be read as what was written" : " can be read but does not exist")); }
        string want = x.t >= 0 && x.v < 2 ? c.ty[x.t]->text[x.v] : "";
        string got = viaPs ? c.ps.GetPropertyAsString(k.second, "no such") : c.config.GetPropertyAsString(k.second, "no such");
        if (got != (x.t >= 0 ? want : "no such")) { complain(k.first + " as string with default is '" + got + "'"); }
        bool threw = false;
        try { got = viaPs ? c.ps.GetPropertyAsString(k.second) : c.config.GetPropertyAsString(k.second); } catch (exception const&) { threw = true; }
        if (threw != (x.t < 0) || (!threw && got != want)) { complain(k.first + " as string is '" + (threw ? "an exception" : got) + "'"); }
        if (x.t < 0) {
            for (int t = 0; t < 2; ++t) { for (int v = 0; v < 2; ++v) { if (c.ty[t]->getOr(a, k.second, v) != v) { complain(k.first + ": reading a missing property does not give the default"); } } }
        } else if (c.ty[x.t]->getOr(a, k.second, 1 - x.v) != x.v) { complain(k.first + ": reading with default does not give the value"); }
        r[k.first] = x;
    }
    set<string> keys;
    for (auto& k : viaPs ? c.ps.GetPropertyKeys() : c.config.GetPropertyKeys()) { if (!keys.insert(k).second) { complain("a key is listed twice"); } }
    for (auto& b : c.base) { if (!keys.erase(b)) { complain("the property " + b + " is gone"); } }
    for (auto& k : keyName) { if (keys.erase(k.second) != (r[k.first].t >= 0 ? 1u : 0u)) { complain("key list wrong for " + k.first); } }
    if (!keys.empty()) { complain("unknown key " + *keys.begin()); }
    for (size_t i = 0; i < 3; ++i) {
        auto& q = queries[(n * 3 + i) % queries.size()];
        auto p = q.regex ? (viaPs ? c.ps.GetProperties(q.q) : c.config.GetProperties(q.q)) : (viaPs ? c.ps.GetPropertiesStartingWith(q.q) : c.config.GetPropertiesStartingWith(q.q));
        auto s = q.regex ? (viaPs ? c.ps.GetPropertiesAsString(q.q) : c.config.GetPropertiesAsString(q.q)) : (viaPs ? c.ps.GetPropertiesAsStringStartingWith(q.q) : c.config.GetPropertiesAsStringStartingWith(q.q));
        map<string, Val> want;
        for (auto& k : q.match) { if (r[k].t >= 0) { want[k] = r[k]; } }
        if (p.size() != want.size() || s.size() != want.size()) { complain("query '" + q.q + "' finds " + to_string(p.size()) + " and " + to_string(s.size()) + " properties"); continue; }
        for (auto& w : want) {
            auto n2 = keyName.at(w.first);
            if (!p.count(n2) || c.ty[w.second.t]->index(p.at(n2)) != w.second.v) { complain("query '" + q.q + "' does not give the value of " + w.first); }
            if (!s.count(n2) || (w.second.v < 2 && s.at(n2) != c.ty[w.second.t]->text[w.second.v])) { complain("query '" + q.q + "' does not give the text of " + w.first); }
        }
    }
    return r;
}
string jstore(map<string, Val> const& m)
{
    string r = "{";
    for (auto& k : keyName) { auto it = m.find(k.first); r += (r.size() > 1 ? "," : "") + drv::js(k.first) + ":" + jval(it == m.end() ? Val{} : it->second); }
    return r + "}";
}

bool const quiet = getenv("CONFIG_QUIET");
int replay(bool withKeys3)
{
    string line;
    unique_ptr<Ctx> c;
    vector<string> heard;
    size_t n = 0;
    int pathMode = 0;
    while (getline(cin, line)) {
        auto f = drv::split(line, '|');
        if (f[0] == "walk") {
            c.reset();
            c = make_unique<Ctx>(stoi(f.at(2)), stoi(f.at(3)));
            pathMode = stoi(f.at(4));
            cout << "{\"walk\":" << f[1] << "}" << endl;
            continue;
        }
        ++n;
        heard.clear();
        bool viaPs = pathMode == 2 ? n % 2 : pathMode;
        Access a = c->acc(viaPs);
        string exc;
        bool ok = true;
        // op|key|k1|k2|k3|subscriber|type
        map<string, Val> m{{"k1", parseVal(f.at(2))}, {"k2", parseVal(f.at(3))}, {"k3", parseVal(f.at(4))}};
        try {
            if (f[0] == "set" || f[0] == "update") {
                Val v = m.at(f[1]);
                if (f[0] == "set") { c->ty[v.t]->set(a, keyName.at(f[1]), v.v); } else { ok = c->ty[v.t]->update(a, keyName.at(f[1]), v.v); }
            } else if (f[0] == "setm" || f[0] == "updatem") {
                Properties p;
                for (auto& x : m) { if (x.second.t >= 0) { p[keyName.at(x.first)] = c->ty[x.second.t]->any(x.second.v); } }
                if (f[0] == "setm") { if (viaPs) { c->ps.SetProperties(p); } else { c->config.SetProperties(p); } }
                else { ok = viaPs ? c->ps.UpdateProperties(p) : c->config.UpdateProperties(p); }
            } else if (f[0] == "del") {
                if (viaPs) { c->ps.DeleteProperty(keyName.at(f[1])); } else { c->config.DeleteProperty(keyName.at(f[1])); }
            } else {
                string s = f.at(5), t = f.at(6);
                if (f[0] == "sub") {
                    if (t == "str") {
                        auto cb = [&heard, s, cp = c.get()](string k, string v) {
                            heard.push_back(s + ":str:" + modelKey(k) + ":" + v);
                        };
                        if (viaPs) { c->ps.SubscribeToPropertyChangeAsString(s, cb); } else { c->config.SubscribeAsString(s, cb); }
                    } else {
                        c->ty[t[0] - 'a']->sub(a, s, [&heard, s, t](string const& k, int v) { heard.push_back(s + ":" + t + ":" + modelKey(k) + ":" + to_string(v)); });
                    }
                } else {
                    if (t == "str") { if (viaPs) { c->ps.UnsubscribeFromPropertyChangeAsString(s); } else { c->config.UnsubscribeAsString(s); } }
                    else { c->ty[t[0] - 'a']->unsub(a, s); }
                }
            }
        } catch (exception const& e) {
            exc = e.what();
        }
        string bad;
        auto st = quiet ? map<string, Val>{} : observe(*c, (n / 2) % 2, n, bad);
        cout << "{\"ok\":" << (ok ? "true" : "false") << ",\"exc\":" << drv::js(exc) << ",\"bad\":" << drv::js(bad) << ",\"store\":" << jstore(st)
             << ",\"heard\":" << drv::jlist(heard) << ",\"texts\":" << drv::jlist({c->ty[0]->text[0], c->ty[0]->text[1], c->ty[1]->text[0], c->ty[1]->text[1]}) << "}" << endl;
    }
    cout << "{\"done\":true}" << endl;
    return 0;
}

thread_local vector<string> typed, text;

int conc(unsigned seed, int nth, int nops)
{
    mt19937 r0(seed);
    int ta = r0() % types.size(), tb;
    do { tb = r0() % types.size(); } while (set<string>{types[ta]->text[0], types[ta]->text[1], types[tb]->text[0], types[tb]->text[1]}.size() < 4);
    ProgOptions config;
    Access a{&config, nullptr};
    Type* ty[2] = {types[ta].get(), types[tb].get()};
    for (int t = 0; t < 2; ++t) {
        ty[t]->sub(a, "s", [t](string const& k, int v) { typed.push_back("[\"" + modelKey(k) + "\",\"" + (t ? "b" : "a") + "\"," + to_string(v) + "]"); });
    }
    config.SubscribeAsString("s", [&](string k, string v) {
        // the text of a value of either type; the types are chosen so that the texts differ
        string x = "\"?\",0";
        for (int t = 0; t < 2; ++t) { for (int i = 0; i < 2; ++i) { if (ty[t]->text[i] == v) { x = string("\"") + (t ? "b" : "a") + "\"," + to_string(i); } } }
        text.push_back("[\"" + modelKey(k) + "\"," + x + "]");
    });
    vector<string> ev;
    mutex em;
    auto addEv = [&](string const& s) { lock_guard<mutex> l(em); ev.push_back(s); };
    vector<thread> ths;
    atomic<bool> go{false};
    vector<string> ks{"k1", "k2", "k3"};
    for (int i = 0; i < nth; ++i) {
        ths.emplace_back([&, i] {
            mt19937 r(seed * 91 + i);
            while (!go) {}
            for (int n = 0; n < nops; ++n) {
                char const* ops[] = {"set", "set", "update", "setm", "updatem", "del", "get", "get", "all"};
                string op = ops[r() % 9], key = ks[r() % 3];
                map<string, Val> m;
                if (op == "set" || op == "update") { m[key] = Val{int(r() % 2), int(r() % 2)}; }
                if (op == "setm" || op == "updatem") { for (auto& k : ks) { if (r() % 3) { m[k] = Val{int(r() % 2), int(r() % 2)}; } } }
                Properties p;
                for (auto& x : m) { p[keyName.at(x.first)] = ty[x.second.t]->any(x.second.v); }
                typed.clear();
                text.clear();
                string exc;
                bool ok = true;
                map<string, Val> seen;
                string th = ",\"th\":" + to_string(i) + "}";
                addEv("{\"e\":\"call\",\"op\":\"" + op + "\",\"key\":\"" + key + "\",\"m\":" + jstore(m) + th);
                try {
                    if (op == "set") { ty[m[key].t]->set(a, keyName.at(key), m[key].v); }
                    if (op == "update") { ok = ty[m[key].t]->update(a, keyName.at(key), m[key].v); }
                    if (op == "setm") { config.SetProperties(p); }
                    if (op == "updatem") { ok = config.UpdateProperties(p); }
                    if (op == "del") { config.DeleteProperty(keyName.at(key)); }
                    if (op == "get") {
                        if (r() % 2) {
                            // one read with a type: what it finds, or not this type, or nothing
                            auto q = config.GetProperties(key == "k1" ? "fmqa" : key == "k2" ? "fmqab" : "fmqb\\.c");
                            for (auto& x : q) { for (int t = 0; t < 2; ++t) { int v = ty[t]->index(x.second); if (v >= 0) { seen[key] = Val{t, v}; } } }
                        } else {
                            string s = config.GetPropertyAsString(keyName.at(key), "no such");
                            for (int t = 0; t < 2; ++t) { for (int v = 0; v < 2; ++v) { if (ty[t]->text[v] == s) { seen[key] = Val{t, v}; } } }
                        }
                    }
                    if (op == "all") {
                        auto q = config.GetPropertiesStartingWith("fmq");
                        for (auto& x : q) { for (int t = 0; t < 2; ++t) { int v = ty[t]->index(x.second); if (v >= 0) { seen[modelKey(x.first)] = Val{t, v}; } } }
                    }
                } catch (exception const& e) { exc = e.what(); }
                auto join = [](vector<string> const& v) { string s = "["; for (auto& x : v) { s += (s.size() > 1 ? "," : "") + x; } return s + "]"; };
                addEv("{\"e\":\"ret\",\"op\":\"" + op + "\",\"ok\":" + (ok ? "true" : "false") + ",\"seen\":" + jstore(seen) + ",\"typed\":" + join(typed) + ",\"text\":" + join(text) + ",\"exc\":" + drv::js(exc) + th);
            }
        });
    }
    go = true;
    for (auto& t : ths) { t.join(); }
    for (auto const& e : ev) { cout << e << "\n"; }
    cout << flush;
    return 0;
}

int main(int argc, char** argv)
{
    makeTypes();
    if (argc > 1) {
        cout << "{\"types\":" << types.size() << "}\n";
        for (int i = 0; i < stoi(argv[2]); ++i) { cout << "{\"e\":\"reset\"}\n"; conc(stoul(argv[1]) + i, stoi(argv[3]), stoi(argv[4])); }
        return 0;
    }
    return replay(true);
}
