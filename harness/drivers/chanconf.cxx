// Applies channel descriptions from all sources to one real configuration, following spec/ChannelConfig_Gen.tla.
#include <common.h>
#include <device.h>
#include <fairmq/Device.h>
#include <fairmq/JSONParser.h>
#include <fairmq/PluginServices.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/SuboptParser.h>
#include <fairmq/plugins/config/Config.h>
#include <algorithm>
using namespace std;
using namespace fair::mq;

vector<string> settings(Channel const& c)
{
    return {c.GetType(), c.GetMethod(), c.GetAddress(), c.GetTransportName(), to_string(c.GetSndBufSize()), to_string(c.GetRcvBufSize()), to_string(c.GetSndKernelSize()),
            to_string(c.GetRcvKernelSize()), to_string(c.GetSndTimeout()), to_string(c.GetRcvTimeout()), to_string(c.GetLinger()), to_string(c.GetRateLogging()),
            to_string(c.GetPortRangeMin()), to_string(c.GetPortRangeMax()), c.GetAutoBind() ? "true" : "false"};
}
Channel makeObject(vector<string> const& a, int way)   // only the settings given ("\x02" otherwise)
{
    auto has = [&](int i) { return a[i] != "\x02"; };
    Channel c = way % 3 == 0 ? Channel("x") : way % 3 == 1 ? Channel() : Channel("x", has(0) ? a[0] : Channel::DefaultType, shared_ptr<TransportFactory>());
    if (way % 2 && has(0) && has(1) && has(2)) { c = Channel(a[0], a[1], a[2]); }
    if (has(0)) { c.UpdateType(a[0]); }
    if (has(1)) { c.UpdateMethod(a[1]); }
    if (has(2)) { c.UpdateAddress(a[2]); }
    if (has(3)) { c.UpdateTransport(a[3]); }
    void (Channel::*f[])(int) = {&Channel::UpdateSndBufSize, &Channel::UpdateRcvBufSize, &Channel::UpdateSndKernelSize, &Channel::UpdateRcvKernelSize, &Channel::UpdateSndTimeout,
                                 &Channel::UpdateRcvTimeout, &Channel::UpdateLinger, &Channel::UpdateRateLogging, &Channel::UpdatePortRangeMin, &Channel::UpdatePortRangeMax};
    for (int i = 0; i < 10; ++i) { if (has(4 + i)) { (c.*f[i])(stoi(a[4 + i])); } }
    if (has(14)) { c.UpdateAutoBind(a[14] == "true"); }
    return c;
}

struct Walk
{
    ProgOptions config;
    Device services;
    PluginServices ps{config, services};
    string bad;
    void complain(string const& s) { if (bad.empty()) { bad = s; } }
};

// the device's own thread initialises it from the configuration; with a description the config plugin applies that first
string initDevice(Walk& w, bool plugin, vector<string>& out, map<string, vector<vector<string>>>& chans)
{
    drv::DeviceUnderTest<Device> d(w.config);
    unique_ptr<PluginServices> ps;
    unique_ptr<plugins::Config> cp;
    if (plugin) {
        ps = make_unique<PluginServices>(w.config, *d);
        cp = make_unique<plugins::Config>("config", Plugin::Version{1, 0, 0}, "me", "here", ps.get());
    }
    d.start();
    State s = d.request(Transition::InitDevice, {State::InitializingDevice, State::Error});
    if (s == State::InitializingDevice) {
        // as the controller does: only once every subscriber has been told
        s = d.request(Transition::CompleteInit, {State::Initialized, State::Error});
    }
    if (s == State::Initialized) {
        for (auto& c : d->GetChannels()) { for (auto& sub : c.second) { chans[c.first].push_back(settings(sub)); } }
    }
    string r = GetStateName(s);
    d.finish();
    return r;
}

void observe(Walk& w, string const& op, string const& exc, string const& extra)
{
    string props = "{";
    for (auto& p : w.config.GetPropertiesStartingWith("chans.")) {
        string v;
        auto& t = p.second.type();
        if (t == typeid(string)) { v = boost::any_cast<string>(p.second); }
        else if (t == typeid(int)) { v = "i:" + to_string(boost::any_cast<int>(p.second)); }
        else if (t == typeid(bool)) { v = boost::any_cast<bool>(p.second) ? "b:true" : "b:false"; }
        else { v = string("?") + t.name(); }
        props += (props.size() > 1 ? "," : "") + drv::js(p.first) + ":" + drv::js(v);
    }
    props += "}";
    string chans = "{", info = "{";
    for (auto& n : w.config.GetChannelInfo()) {
        info += (info.size() > 1 ? "," : "") + drv::js(n.first) + ":" + to_string(n.second);
        string l = "[";
        for (int i = 0; i < n.second; ++i) {
            string prefix = "chans." + n.first + "." + to_string(i) + ".";
            try {
                Channel c(n.first, i, w.config.GetPropertiesStartingWith(prefix));
                auto s = settings(c);
                l += (i ? "," : "") + drv::jlist(s);
                if (c.GetName() != n.first + "[" + to_string(i) + "]" || c.GetPrefix() != n.first || c.GetIndex() != to_string(i)) { w.complain("channel made from " + prefix + " is called " + c.GetName()); }
                Channel all(n.first, i, w.config.GetPropertiesStartingWith("chans."));
                Channel copy(c), other("other"), third(c, "new");
                other = c;
                if (settings(all) != s) { w.complain(prefix + ": other settings with all properties given"); }
                if (settings(copy) != s || copy.GetName() != c.GetName()) { w.complain(prefix + ": the copy differs"); }
                if (settings(other) != s || other.GetName() != c.GetName()) { w.complain(prefix + ": the assigned channel differs"); }
                if (settings(third) != s || third.GetName() != "new") { w.complain(prefix + ": the renamed copy differs"); }
                Channel moved(std::move(copy));
                if (settings(moved) != s || moved.GetName() != c.GetName()) { w.complain(prefix + ": the moved channel differs"); }
                copy = std::move(moved);
                if (settings(copy) != s || copy.GetName() != c.GetName()) { w.complain(prefix + ": the move assigned channel differs"); }
            } catch (exception const& e) { w.complain(prefix + ": " + e.what()); }
        }
        chans += (chans.size() > 1 ? "," : "") + drv::js(n.first) + ":" + l + "]";
    }
    printf("{\"op\":%s,\"exc\":%s,\"props\":%s,\"info\":%s},\"chans\":%s},\"bad\":%s%s}\n", drv::js(op).c_str(), drv::js(exc).c_str(), props.c_str(), info.c_str(), chans.c_str(), drv::js(w.bad).c_str(), extra.c_str());
    fflush(stdout);
}

int main()
{
    unique_ptr<Walk> w;
    string line;
    while (getline(cin, line)) {
        auto a = drv::split(line, '\x1f');
        if (a[0] == "walk") {
            w = make_unique<Walk>();
            w->config.SetProperty("session", string("cc") + to_string(getpid()));
            w->config.SetProperty("shm-segment-size", size_t(4000000));
            printf("{\"walk\":%s}\n", a[1].c_str());
            continue;
        }
        string op = a[0], exc, extra;
        w->bad.clear();
        try {
            if (op == "json" || op == "cmd") {   // op, id, way, text or arguments
                string id = a[1], way = a[2];
                vector<string> args(a.begin() + 3, a.end());
                if (way == "plugin") {
                    if (op == "json") { w->config.SetProperty("mq-config", args[0]); } else { w->config.SetProperty("channel-config", args); }
                    w->config.SetProperty("id", id == "" ? string("") : way + id);
                    if (id == "") { w->config.SetProperty("id", string("")); } else { w->config.SetProperty("id", string("not ") + id); w->config.SetProperty("config-key", id); }
                    vector<string> o;
                    map<string, vector<vector<string>>> chans;
                    string st = initDevice(*w, true, o, chans);
                    for (auto& k : {"mq-config", "channel-config", "id", "config-key"}) { w->config.DeleteProperty(k); }
                    extra = ",\"state\":" + drv::js(st);
                } else {
                    auto p = op == "json" ? JSONParser(args[0], id) : SuboptParser(args, id);
                    if (way == "set") { w->config.SetProperties(p); }
                    else { for (auto& x : p) { w->config.SetProperties({x}); } }
                }
            } else if (op == "prop") {   // key, type, value
                string k = a[1], t = a[2], v = a[3];
                if (t == "s") { w->config.SetProperty(k, v); } else if (t == "i") { w->config.SetProperty(k, stoi(v)); } else { w->config.SetProperty(k, v == "true"); }
            } else if (op == "object") {   // name, way, 15 settings
                Channel c = makeObject(vector<string>(a.begin() + 3, a.end()), stoi(a[2]));
                if (stoi(a[2]) % 5 == 0) { Channel d(c); w->config.AddChannel(a[1], d); }
                else if (stoi(a[2]) % 5 == 1) { w->services.SetConfig(w->config); w->services.AddChannel(a[1], std::move(c)); }
                else { w->config.AddChannel(a[1], c); }
            } else if (op == "device") {
                vector<string> o;
                map<string, vector<vector<string>>> chans;
                string st = initDevice(*w, false, o, chans);
                extra = ",\"state\":" + drv::js(st) + ",\"dev\":{";
                bool first = true;
                for (auto& c : chans) {
                    extra += (first ? "" : ",") + drv::js(c.first) + ":[";
                    first = false;
                    for (size_t i = 0; i < c.second.size(); ++i) { extra += (i ? "," : "") + drv::jlist(c.second[i]); }
                    extra += "]";
                }
                extra += "}";
            }
        } catch (exception const& e) { exc = e.what(); if (exc.empty()) { exc = "exception"; } }
        observe(*w, op, exc, extra);
    }
    printf("{\"done\":true}\n");
    fflush(stdout);
    w.reset();
}
