// One connection with limited room: a sending and a receiving thread are stepped through behaviours of
// spec/Transfers_Gen.tla, or run freely while they are interrupted and receive signals.
#include <common.h>
#include <fairmq/Channel.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/shmem/Common.h>
#include <fairmq/shmem/Monitor.h>
#include <csignal>
#include <cstring>
#include <deque>
#include <pthread.h>
#include <random>
#include <zmq.h>
using namespace std;
using namespace fair::mq;
using namespace std::chrono;

static unsigned char pat(unsigned id, unsigned att, unsigned part, size_t i) { return static_cast<unsigned char>(id * 31 + att * 7 + part * 13 + i * 5 + (i >> 8)); }
struct Info { unsigned id, att; string kind; vector<size_t> sizes; };

// a thread that executes one thing after the other
struct Worker
{
    mutex m;
    condition_variable cv;
    function<string()> job;
    bool has = false, quit = false;
    int done = 0;
    vector<string> res;
    thread t;
    Worker() { t = thread([this] { loop(); }); }
    ~Worker() { { lock_guard<mutex> l(m); quit = true; cv.notify_all(); } t.join(); }
    void loop()
    {
        unique_lock<mutex> l(m);
        while (true) {
            cv.wait(l, [&] { return has || quit; });
            if (!has) { return; }
            auto j = job;
            l.unlock();
            string r;
            try { r = j(); } catch (exception const& e) { r = string("exception: ") + e.what(); }
            l.lock();
            has = false;
            res.push_back(r);
            cv.notify_all();
        }
    }
    void start(function<string()> j) { lock_guard<mutex> l(m); job = move(j); has = true; cv.notify_all(); }
    bool await(double s) { unique_lock<mutex> l(m); return cv.wait_for(l, duration<double>(s), [&] { return !has; }); }
    bool busy() { lock_guard<mutex> l(m); return has; }
    string take() { lock_guard<mutex> l(m); if (res.empty()) { return ""; } auto r = res.front(); res.erase(res.begin()); return r; }
    pthread_t handle() { return t.native_handle(); }
};

struct Conn
{
    unique_ptr<ProgOptions> cfg;
    shared_ptr<TransportFactory> f;
    unique_ptr<Channel> s, r;
    string session, addr;
    bool senderBinds = false, ipc = false;
    mt19937 g;
    mutex m;
    deque<Info> flying;          // sent, not yet received
    unsigned id = 0, att = 0;
    Info cur;                    // the message held by the sender
    MessagePtr one;
    Parts many;
    atomic<long> oks{0}, okr{0}, bs{0}, br{0};
    size_t free0 = 0;

    void setup(string const& transport, string const& type, bool sb, string const& address, int hwm, int defS, int defR)
    {
        cfg = make_unique<ProgOptions>();
        session = "vt" + to_string(getpid());
        cfg->SetProperty<string>("session", session);
        cfg->SetProperty<size_t>("shm-segment-size", 20000000);
        f = TransportFactory::CreateTransportFactory(transport, "dev", cfg.get());
        senderBinds = sb;
        addr = address;
        ipc = addr.compare(0, 3, "ipc") == 0;
        auto mk = [&](char const* n, string const& t, bool bind) {
            auto c = make_unique<Channel>(n, t, bind ? "bind" : "connect", addr, f);
            c->GetSocket().SetSndBufSize(hwm);
            c->GetSocket().SetRcvBufSize(hwm);
            c->GetSocket().SetLinger(0);
            return c;
        };
        s = mk("snd", type == "push" ? "push" : type, sb);
        r = mk("rcv", type == "push" ? "pull" : type, !sb);
        if (defS != -2) { s->UpdateSndTimeout(defS); s->Validate(); }
        if (defR != -2) { r->UpdateRcvTimeout(defR); r->Validate(); }
        if (f->GetType() == Transport::SHM) { f->CreateMessage(8); free0 = shmem::Monitor::GetFreeMemory(shmem::SessionId{session}, 0); }
        if (!(sb ? s->Bind(addr) : s->Connect(addr))) { throw runtime_error("attach " + addr); }
    }
    string attach() { return (senderBinds ? r->Connect(addr) : r->Bind(addr)) ? "ok" : "failed"; }
    bool ready(Channel& c, uint32_t what, double sec)
    {
        auto end = steady_clock::now() + duration<double>(sec);
        do {
            uint32_t e = 0;
            c.GetSocket().Events(&e);
            if (e & what) { return true; }
            this_thread::sleep_for(microseconds(200));
        } while (steady_clock::now() < end);
        return false;
    }
    void fillOne(Message& msg, unsigned part)
    {
        auto d = static_cast<unsigned char*>(msg.GetData());
        for (size_t i = 0; i < msg.GetSize(); ++i) { d[i] = pat(cur.id, cur.att, part, i); }
    }
    bool same(Message& msg, Info const& x, unsigned part)
    {
        if (msg.GetSize() != x.sizes.at(part)) { return false; }
        auto d = static_cast<unsigned char*>(msg.GetData());
        for (size_t i = 0; i < msg.GetSize(); ++i) { if (d[i] != pat(x.id, x.att, part, i)) { return false; } }
        return true;
    }
    void prepare(string const& kind, int nparts = 0)
    {
        if (cur.kind == kind) { return; }
        cur = {id, att++, kind, {}};
        int n = kind == "s" ? 1 : nparts ? nparts : 1 + g() % 4;
        many = Parts();
        for (int i = 0; i < n; ++i) { cur.sizes.push_back(g() % 5 == 0 ? 0 : nparts ? g() % 40 : g() % 1500); }
        if (kind == "s") { one = s->NewMessage(cur.sizes[0]); fillOne(*one, 0); }
        else { for (int i = 0; i < n; ++i) { many.AddPart(s->NewMessage(cur.sizes[i])); fillOne(*many.At(i), i); } }
    }
    string code(int64_t x)
    {
        return x >= 0 ? "ok" : x == static_cast<int>(TransferCode::timeout) ? "timeout" : x == static_cast<int>(TransferCode::interrupted) ? "interrupted" : "error " + to_string(x);
    }
    // limit: -3 the channel's default; lim: what that is
    string send(string const& kind, int arg, int lim, int nparts = 0)
    {
        prepare(kind, nparts);
        size_t total = 0;
        for (auto x : cur.sizes) { total += x; }
        auto t0 = steady_clock::now();
        int64_t x = kind == "s" ? (arg == -3 ? s->Send(one) : s->Send(one, arg)) : (arg == -3 ? s->Send(many) : s->Send(many, arg));
        double ms = duration<double, milli>(steady_clock::now() - t0).count();
        string c = code(x), err = timing(c, lim, ms);
        if (c == "ok") {
            if (x != static_cast<int64_t>(total)) { err += " returned " + to_string(x) + " instead of " + to_string(total); }
            lock_guard<mutex> l(m);
            flying.push_back(cur);
            ++id;
            att = 0;
            ++oks;
            bs += total;
            cur = Info();
        } else {
            // it stays with the caller as it is
            if (kind == "s") { if (!one || !same(*one, cur, 0)) { err += " the message is no longer what it was"; } }
            else {
                if (many.Size() != cur.sizes.size()) { err += " the message has lost parts"; }
                else { for (size_t i = 0; i < many.Size(); ++i) { if (!same(*many.At(i), cur, i)) { err += " part " + to_string(i) + " is no longer what it was"; } } }
            }
        }
        if (static_cast<long>(s->GetMessagesTx()) != oks || static_cast<long>(s->GetBytesTx()) != bs) { err += " statistics of the sender: " + to_string(s->GetMessagesTx()) + "/" + to_string(s->GetBytesTx()); }
        return c + (err.empty() ? "" : " but" + err);
    }
    string timing(string const& c, int lim, double ms)
    {
        if (c == "timeout" && lim == -1) { return " there is no limit"; }
        if (c == "timeout" && ms < lim) { return " too early: after " + to_string(ms) + " of " + to_string(lim) + " ms"; }
        if (lim == 0 && ms > 95) { return " it waited " + to_string(ms) + " ms"; }
        return "";
    }
    string recv(string const& kind, int arg, int lim, int variant)
    {
        string err;
        MessagePtr msg;
        Parts parts;
        Info keep{9999, 0, "", {77}};
        auto filled = [&] {
            auto k = r->NewMessage(77);
            auto d = static_cast<unsigned char*>(k->GetData());
            for (size_t i = 0; i < 77; ++i) { d[i] = pat(keep.id, keep.att, 0, i); }
            return k;
        };
        if (kind == "s") { msg = variant ? filled() : r->NewMessage(); }
        else if (variant) { parts.AddPart(filled()); }
        auto t0 = steady_clock::now();
        int64_t x = kind == "s" ? (arg == -3 ? r->Receive(msg) : r->Receive(msg, arg)) : (arg == -3 ? r->Receive(parts) : r->Receive(parts, arg));
        double ms = duration<double, milli>(steady_clock::now() - t0).count();
        string c = code(x);
        err += timing(c, lim, ms);
        size_t pre = variant ? 1 : 0;
        if (kind == "p" && pre && (parts.Size() < 1 || !same(*parts.At(0), keep, 0))) { err += " the part that was there before is not what it was"; }
        if (c == "ok") {
            Info want;
            for (int i = 0; i < 2000; ++i) {      // the sender's thread may not have noted it yet
                { lock_guard<mutex> l(m); if (!flying.empty()) { want = flying.front(); flying.pop_front(); break; } }
                this_thread::sleep_for(microseconds(500));
            }
            size_t total = 0;
            for (auto z : want.sizes) { total += z; }
            if (want.sizes.empty()) { err += " nothing was sent"; }
            else if (want.kind != kind) { err += " the oldest message is of the other kind"; }
            else if (x != static_cast<int64_t>(total)) { err += " returned " + to_string(x) + " instead of " + to_string(total); }
            else if (kind == "s") { if (!same(*msg, want, 0)) { err += " not the oldest message sent"; } }
            else if (parts.Size() != pre + want.sizes.size()) { err += " " + to_string(parts.Size() - pre) + " parts instead of " + to_string(want.sizes.size()); }
            else { for (size_t i = 0; i < want.sizes.size(); ++i) { if (!same(*parts.At(pre + i), want, i)) { err += " part " + to_string(i) + " is not that of the oldest message sent"; break; } } }
            ++okr;
            br += total;
        } else {
            // (the content the message had before may be gone, nothing may have been put into it)
            if (kind == "s" && msg->GetSize() != 0 && !(variant && same(*msg, keep, 0))) { err += " something was put into the message"; }
            if (kind == "p" && parts.Size() != pre) { err += " " + to_string(parts.Size() - pre) + " parts were added"; }
        }
        if (static_cast<long>(r->GetMessagesRx()) != okr || static_cast<long>(r->GetBytesRx()) != br) { err += " statistics of the receiver: " + to_string(r->GetMessagesRx()) + "/" + to_string(r->GetBytesRx()); }
        return c + (err.empty() ? "" : " but" + err);
    }
};

static void storm(vector<pthread_t> ts, int n, int us) { for (int i = 0; i < n; ++i) { for (auto t : ts) { pthread_kill(t, SIGUSR1); } this_thread::sleep_for(microseconds(us)); } }

int replay()
{
    string line;
    unique_ptr<Conn> c;
    unique_ptr<Worker> S, R;
    int defS = -1, defR = -1, walk = 0, step = 0;
    size_t cap = 0;
    bool attached = false;
    auto hang = [&](string const& w) { cout << "{\"stuck\":" << drv::js(w) << "}" << endl; _exit(0); };
    auto finish = [&] {
        if (!c) { return; }
        string err;
        if (S->busy() || R->busy()) {
            c->f->Interrupt();
            if (!S->await(10) || !R->await(10)) { hang("a blocked transfer does not notice that it is interrupted"); }
            c->f->Resume();
            while (true) { auto x = S->take(); if (x.empty()) { break; } if (x != "interrupted") { err += "; interrupted send: " + x; } }
            while (true) { auto x = R->take(); if (x.empty()) { break; } if (x != "interrupted") { err += "; interrupted receive: " + x; } }
        }
        c->f->Resume();
        if (!attached) { R->start([&] { return c->attach(); }); R->await(10); R->take(); }
        vector<string> left;
        size_t n;
        { lock_guard<mutex> l(c->m); n = c->flying.size(); for (auto& x : c->flying) { left.push_back(x.kind); } }
        auto l2 = left;
        R->start([&, l2] {
            string e;
            for (auto& k : l2) { auto x = c->recv(k, 10000, 10000, 0); if (x != "ok") { e += "; what is left: " + x; } }
            auto x = c->recv("s", 0, 0, 0);
            if (x != "timeout") { e += "; after the last message: " + x; }
            return e;
        });
        if (!R->await(60)) { hang("receiving what is left"); }
        err += R->take();
        S.reset();
        R.reset();
        string ses = c->session;
        bool shm = c->f->GetType() == Transport::SHM;
        c->one.reset();
        c->many = Parts();
        c->s.reset();
        c->r.reset();
        if (shm) {
            size_t now = shmem::Monitor::GetFreeMemory(shmem::SessionId{ses}, 0);
            if (now < c->free0) { err += "; " + to_string(c->free0 - now) + " bytes were never freed"; }
        }
        c->f.reset();
        c.reset();
        if (shm) { shmem::Monitor::Cleanup(shmem::SessionId{ses}, false); }
        cout << "{\"endobs\":true,\"left\":" << drv::jlist(left) << ",\"err\":" << drv::js(err) << "}" << endl;
        (void)n;
    };
    while (getline(cin, line)) {
        auto f = drv::split(line, '|');
        if (f[0] == "walk") {   // walk|i|transport|type|sender binds|address|hwm|defS|defR
            finish();
            walk = stoi(f[1]);
            step = 0;
            c = make_unique<Conn>();
            c->g.seed(walk);
            S = make_unique<Worker>();
            R = make_unique<Worker>();
            defS = stoi(f[7]);
            defR = stoi(f[8]);
            attached = false;
            c->setup(f[2], f[3], f[4] == "1", f[5], stoi(f[6]), defS, defR);
            cout << "{\"walk\":" << walk << "}" << endl;
            continue;
        }
        // op|kind|limit|signals|result|s|r
        ++step;
        string const &op = f[0], &kind = f[1], &want = f[4];
        static const int ts[] = {20, 100, 130, 250, 1, 180};
        int t = ts[(walk + step) % 6];
        auto limit = [&](string const& l, int d, int& arg, int& lim) {
            arg = l == "0" ? 0 : l == "t" ? t : l == "l" ? 60000 : l == "inf" ? -1 : -3;
            lim = arg == -3 ? (d == -2 ? -1 : d) : arg;
        };
        string res = "ok";
        Worker* w = nullptr;
        if (op == "send" || op == "recv") {
            int arg, lim, variant = (walk + step) % 2;
            limit(f[2], op == "send" ? defS : defR, arg, lim);
            w = op == "send" ? S.get() : R.get();
            bool rdy = want == "ok";
            bool snd = op == "send";
            w->start([&, arg, lim, variant, rdy, snd, kind] {
                if (rdy && !c->ready(snd ? *c->s : *c->r, snd ? ZMQ_POLLOUT : ZMQ_POLLIN, 10)) { return string(snd ? "no room for the message" : "no message to receive"); }
                return snd ? c->send(kind, arg, lim) : c->recv(kind, arg, lim, variant);
            });
            if (f[3] == "1") { for (int i = 0; i < 60 && w->busy(); ++i) { storm({w->handle()}, 1, 3000); } }
        } else if (op == "attach") {
            w = R.get();
            w->start([&] { return c->attach(); });
            attached = true;
        } else if (op == "interrupt") { c->f->Interrupt(); }
        else if (op == "resume") { c->f->Resume(); }
        else if (op == "drop") { c->cur = Info(); }
        else if (op == "signals") {
            vector<pthread_t> v;
            if (S->busy()) { v.push_back(S->handle()); }
            if (R->busy()) { v.push_back(R->handle()); }
            storm(v, 800, 50);
        }
        if (w) {
            if (want == "blocked") {
                this_thread::sleep_for(milliseconds(3));
                res = w->busy() ? "blocked" : w->take();
            } else {
                if (!w->await(20)) { hang(op + " does not return; it should be " + want); }
                res = w->take();
            }
        }
        string s, r;
        if (!f[5].empty()) { if (!S->await(20)) { hang("a blocked send does not return; it should be " + f[5]); } s = S->take(); }
        if (!f[6].empty()) { if (!R->await(20)) { hang("a blocked receive does not return; it should be " + f[6]); } r = R->take(); }
        if (s.empty()) { s = S->take(); }
        if (r.empty()) { r = R->take(); }
        cout << "{\"res\":" << drv::js(res) << ",\"s\":" << drv::js(s) << ",\"r\":" << drv::js(r) << "}" << endl;
    }
    finish();
    cout << "{\"done\":true}" << endl;
    return 0;
}

// sender and receiver run freely, with signals and interruptions; prints calls and results
int conc(unsigned seed, string const& transport, int ops, int parts)
{
    Conn c;
    c.g.seed(seed);
    int hwm = parts > 50 ? 1000 : 1 + seed % 3;
    c.setup(transport, seed % 2 ? "push" : "pair", seed % 4 < 2, "inproc://tr" + to_string(seed), hwm, seed % 3 ? -1 : 0, -1);
    if (c.attach() != "ok") { throw runtime_error("attach"); }
    vector<string> ev;
    mutex em;
    auto add = [&](string const& s) { lock_guard<mutex> l(em); ev.push_back(s); };
    atomic<bool> sdone{false}, rdone{false};
    static const int lims[] = {0, 5, 30, 120, 100000, -1};
    auto lname = [](int l) { return string(l == 0 ? "0" : l == -1 ? "inf" : "t"); };
    thread st([&] {
        mt19937 g(seed * 3 + 1);
        for (int i = 0; i < ops; ++i) {
            int l = lims[g() % 6];
            add("{\"e\":\"call\",\"w\":\"s\",\"lim\":\"" + lname(l) + "\"}");
            auto r = c.send("p", l, l, parts ? 1 + g() % parts : 0);
            add("{\"e\":\"ret\",\"w\":\"s\",\"res\":" + drv::js(r) + "}");
            if (r != "ok" && g() % 2) { c.cur = Info(); }
            if (g() % 4 == 0) { this_thread::sleep_for(microseconds(g() % 300)); }
        }
        sdone = true;
    });
    thread rt([&] {
        mt19937 g(seed * 5 + 2);
        for (int i = 0; !sdone || c.okr < c.oks; ++i) {
            int l = lims[g() % 5];
            if (l > 1000) { l = 200; }
            add("{\"e\":\"call\",\"w\":\"r\",\"lim\":\"" + lname(l) + "\"}");
            auto r = c.recv("p", l, l, g() % 2);
            add("{\"e\":\"ret\",\"w\":\"r\",\"res\":" + drv::js(r) + "}");
            if (r.find("but") != string::npos) { break; }
            if (l == 0) { this_thread::sleep_for(microseconds(g() % 500)); }
        }
        rdone = true;
    });
    // a process of its own sends signals as fast as it can
    pthread_t hs = st.native_handle(), hr = rt.native_handle();
    thread it([&] {
        mt19937 g(seed);
        while (!rdone) {
            for (int i = 0; i < 50 && !rdone; ++i) {
                if (!sdone) { pthread_kill(hs, SIGUSR1); }
                if (!rdone) { pthread_kill(hr, SIGUSR1); }
                this_thread::sleep_for(microseconds(parts < 50 ? g() % 400 : g() % 20));
            }
            if (g() % 3 == 0 && !sdone) {
                add("{\"e\":\"int\"}");
                c.f->Interrupt();
                this_thread::sleep_for(milliseconds(g() % 60));
                c.f->Resume();
                add("{\"e\":\"res\"}");
            }
        }
    });
    auto end = steady_clock::now() + seconds(100);
    while (!rdone && steady_clock::now() < end) { this_thread::sleep_for(milliseconds(5)); }
    { lock_guard<mutex> l(em); for (auto const& e : ev) { cout << e << "\n"; } }
    if (!rdone) { cout << "{\"stuck\":\"transfers do not come to an end\"}" << endl; }
    cout << flush;
    shmem::Monitor::Cleanup(shmem::SessionId{c.session}, false);
    _exit(0);
}

int main(int argc, char** argv)
{
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = [](int) {};
    sigaction(SIGUSR1, &sa, nullptr);
    if (argc > 1) { return conc(stoul(argv[1]), argv[2], stoi(argv[3]), stoi(argv[4])); }
    return replay();
}
