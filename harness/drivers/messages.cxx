// Two processes with messages of both transports, stepped through histories of spec/Messages_Gen.tla.
#include <common.h>
#include <fairmq/Channel.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/shmem/Common.h>
#include <fairmq/shmem/Monitor.h>
#include <algorithm>
#include <filesystem>
#include <set>
#include <cstring>
#include <csignal>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
using namespace std;
using namespace fair::mq;

static unsigned char pat(unsigned tag, size_t i) { return static_cast<unsigned char>((tag * 37u + 11u) ^ (i * 131u) ^ ((i >> 8) * 29u) ^ (tag >> 8)); }
static void fill(void* p, size_t n, unsigned tag) { auto c = static_cast<unsigned char*>(p); for (size_t i = 0; i < n; ++i) { c[i] = pat(tag, i); } }

struct UserBuf { unsigned id; size_t size; char* data; };
static mutex gM;
static map<unsigned, int> gCalls;                    // calls of the free function per buffer of the user
static vector<unique_ptr<UserBuf>> gUser;
static void freeFn(void* data, void* hint)
{
    auto u = static_cast<UserBuf*>(hint);
    lock_guard<mutex> l(gM);
    gCalls[u->id] += data == u->data ? 1 : 1000;
    memset(u->data, 0xDD, u->size + 16);             // the user makes something else of it
}
static constexpr size_t kBlk = 8192, kRegion = 64 * kBlk;

struct Agent
{
    int p = 0;
    unique_ptr<ProgOptions> cfg;
    map<string, shared_ptr<TransportFactory>> fac;
    map<string, unique_ptr<Channel>> tx, rx;
    map<int, MessagePtr> slot;
    map<int, void*> addr;
    map<string, UnmanagedRegionPtr> region;
    vector<array<size_t, 3>> acks;                   // id, block offset, size
    map<string, string> addrs;

    string pre;
    void setup(vector<string> const& f)
    {
        // setup|walk|session|transports|address prefix|region home|region kind|p|allocation|metadata size|segment of its own
        fac.clear();
        p = stoi(f[7]);
        pre = f[4];
        cfg = make_unique<ProgOptions>();
        cfg->SetProperty<string>("session", f[2]);
        cfg->SetProperty<size_t>("shm-segment-size", 256UL << 20);
        cfg->SetProperty<string>("shm-allocation", f[8]);
        cfg->SetProperty<size_t>("shm-metadata-msg-size", stoul(f[9]));
        cfg->SetProperty<uint16_t>("shm-segment-id", stoi(f[10]) ? p - 1 : 0);   // a segment for each process, or one for both
        for (auto& t : drv::split(f[3], ',')) {
            fac[t] = TransportFactory::CreateTransportFactory(t, "dev" + f[7], cfg.get());
            rx[t] = make_unique<Channel>("rx" + t, "pull", "bind", pre + t + f[7], fac[t]);
            if (!rx[t]->Bind(pre + t + f[7])) { throw runtime_error("bind " + pre + t + f[7]); }
            if (stoi(f[5]) == p) {
                int k = stoi(f[6]);
                RegionConfig rc;
                rc.rcSegmentSize = k & 2 ? 0 : 10000000;
                rc.linger = 200;
                auto one = [this](char* base, void* d, size_t n, void* h) {
                    acks.push_back({reinterpret_cast<size_t>(h), static_cast<size_t>(static_cast<char*>(d) - base), n});
                };
                auto reg = make_shared<char*>(nullptr);
                if (k & 1) {
                    region[t] = fac[t]->CreateUnmanagedRegion(kRegion, [this, reg, one](vector<RegionBlock> const& v) { lock_guard<mutex> l(gM); for (auto& b : v) { one(*reg, b.ptr, b.size, b.hint); } }, rc);
                } else {
                    region[t] = fac[t]->CreateUnmanagedRegion(kRegion, [this, reg, one](void* d, size_t n, void* h) { lock_guard<mutex> l(gM); one(*reg, d, n, h); }, rc);
                }
                *reg = static_cast<char*>(region[t]->GetData());
            }
        }
    }
    void connect()
    {
        for (auto& [t, f] : fac) {
            string a = pre + t + (p == 1 ? "2" : "1");
            tx[t] = make_unique<Channel>("tx" + t, "push", "connect", a, f);
            if (!tx[t]->Connect(a)) { throw runtime_error("connect " + a); }
        }
    }
    MessagePtr make(string const& t, string const& kind, size_t size, size_t al, unsigned tag, unsigned blk, unsigned id, bool plainCall)
    {
        auto& f = *fac.at(t);
        if (kind == "alloc") { return al ? f.CreateMessage(size, Alignment{al}) : size == 0 && plainCall ? f.CreateMessage() : f.CreateMessage(size); }
        if (kind == "user") { auto u = user(size, tag, id); return f.CreateMessage(u->data, size, freeFn, u); }
        char* d = static_cast<char*>(region.at(t)->GetData()) + blk * kBlk;
        fill(d, size, tag);
        return f.CreateMessage(region.at(t), d, size, reinterpret_cast<void*>(static_cast<size_t>(id)));
    }
    UserBuf* user(size_t size, unsigned tag, unsigned id)
    {
        lock_guard<mutex> l(gM);
        gUser.push_back(make_unique<UserBuf>(UserBuf{id, size, static_cast<char*>(malloc(size + 16))}));
        fill(gUser.back()->data, size, tag);
        gCalls[id] = 0;
        return gUser.back().get();
    }
    // executes an operation; returns a JSON object
    string exec(vector<string> const& f)
    {
        string const& op = f[0];
        string err;
        long ret = 0;
        try {
            if (op == "setup") { setup(f); }
            else if (op == "connect") { connect(); }
            else if (op == "new") {   // new|slot|t|kind|size|al|tag|blk|id
                int s = stoi(f[1]);
                unsigned tag = stoul(f[6]);
                slot[s] = make(f[2], f[3], stoul(f[4]), stoul(f[5]), tag, stoul(f[7]), stoul(f[8]), tag % 2);
                after(s, f[3], stoul(f[5]), tag, err, f[2] == "shmem" ? stoul(f[7]) : ~0u);
            } else if (op == "rebuild") {   // rebuild|slot|kind|size|al|tag|id
                int s = stoi(f[1]);
                auto& m = *slot.at(s);
                size_t size = stoul(f[3]), al = stoul(f[4]);
                unsigned tag = stoul(f[5]);
                if (f[2] == "user") { auto u = user(size, tag, stoul(f[6])); m.Rebuild(u->data, size, freeFn, u); }
                else if (size == 0 && tag % 2) { if (al) { m.Rebuild(Alignment{al}); } else { m.Rebuild(); } }
                else if (al) { m.Rebuild(size, Alignment{al}); }
                else { m.Rebuild(size); }
                after(s, f[2], al, tag, err, ~0u);
            } else if (op == "write") { auto& m = *slot.at(stoi(f[1])); fill(m.GetData(), m.GetSize(), stoul(f[2])); }
            else if (op == "destroy") { slot.erase(stoi(f[1])); addr.erase(stoi(f[1])); }
            else if (op == "used") {        // used|slot|size|al
                int s = stoi(f[1]);
                auto& m = *slot.at(s);
                size_t before = m.GetSize(), n = stoul(f[2]), al = stoul(f[3]);
                void* a = m.GetData();
                ret = al ? m.SetUsedSize(n, Alignment{al}) : m.SetUsedSize(n);
                if (n > 0 && m.GetData() != a && (n >= before || before - n < 1000000)) { err = "the address changed"; }
                if (n == 0 && before > 0 && m.GetData()) { err = "an emptied message has data"; }
                addr[s] = m.GetData();
            } else if (op == "copy") {      // copy|dst|src|t
                int d = stoi(f[1]);
                if (!slot.count(d)) { slot[d] = fac.at(f[3])->CreateMessage(); }
                slot[d]->Copy(*slot.at(stoi(f[2])));
                addr[d] = slot[d]->GetData();
            } else if (op == "send" || op == "msend") {   // send|t|slots
                auto ss = drv::split(f[2], ',');
                auto& c = *tx.at(f[1]);
                if (op == "send") { ret = c.Send(slot.at(stoi(ss[0])), 30000); }
                else if (ss.size() % 2) {
                    Parts parts;
                    for (auto& s : ss) { parts.AddPart(move(slot.at(stoi(s)))); }
                    ret = c.Send(parts, 30000);
                    for (size_t i = 0; i < ss.size(); ++i) { slot[stoi(ss[i])] = move(parts.At(i)); }
                } else {
                    vector<MessagePtr> parts;
                    for (auto& s : ss) { parts.push_back(move(slot.at(stoi(s)))); }
                    ret = c.Send(parts, 30000);
                    for (size_t i = 0; i < ss.size(); ++i) { slot[stoi(ss[i])] = move(parts.at(i)); }
                }
                for (auto& s : ss) { addr.erase(stoi(s)); }
            } else if (op == "recv") {
                int s = stoi(f[2]);
                auto& c = *rx.at(f[1]);
                if (!slot.count(s)) { slot[s] = c.NewMessage(); }
                ret = c.Receive(slot.at(s), 30000);
                addr[s] = slot[s]->GetData();
            } else if (op == "mrecv") {
                auto ss = drv::split(f[2], ',');
                auto& c = *rx.at(f[1]);
                Parts parts;
                ret = c.Receive(parts, 30000);
                if (parts.Size() != ss.size()) { err = "received " + to_string(parts.Size()) + " parts"; }
                for (size_t i = 0; i < min(ss.size(), parts.Size()); ++i) { int s = stoi(ss[i]); slot[s] = move(parts.At(i)); addr[s] = slot[s]->GetData(); }
            } else if (op == "clear") {     // clear|t:kinds,...   (kinds: s single, m multipart) receives what is under way and drops everything
                for (size_t i = 1; i < f.size(); ++i) {
                    auto x = drv::split(f[i], ':');
                    if (x.size() < 2) { continue; }
                    for (char k : x[1]) {
                        MessagePtr m = rx.at(x[0])->NewMessage();
                        Parts parts;
                        long r = k == 'm' ? rx.at(x[0])->Receive(parts, 30000) : rx.at(x[0])->Receive(m, 30000);
                        if (r < 0) { err = "what was under way does not arrive"; }
                    }
                }
                slot.clear();
                addr.clear();
            } else if (op == "close") { region.clear(); }
            else if (op == "close2") { tx.clear(); rx.clear(); fac.clear(); lock_guard<mutex> l(gM); acks.clear(); gCalls.clear(); for (auto& u : gUser) { free(u->data); } gUser.clear(); }
            else if (op == "check") { return check(f); }
        } catch (exception const& e) { err = string("throws ") + e.what(); }
        return "{\"ret\":" + to_string(ret) + ",\"err\":" + drv::js(err) + "}";
    }
    void after(int s, string const& kind, size_t al, unsigned tag, string& err, unsigned blk)
    {
        auto& m = *slot.at(s);
        char* d = static_cast<char*>(m.GetData());
        if (al && m.GetSize() && reinterpret_cast<uintptr_t>(d) % al) { err = "not aligned to " + to_string(al); }
        if (kind == "alloc" && m.GetSize() && !err.size()) { fill(d, m.GetSize(), tag); }
        if (kind == "region" && blk != ~0u && d != static_cast<char*>(region.at("shmem")->GetData()) + blk * kBlk) { err = "not the block of the region"; }
        addr[s] = d;
    }
    // check|slot:len:tag;slot:len:tag|unfinished   -> deviations of what the slots show, and the logs
    string check(vector<string> const& f)
    {
        vector<string> bad;
        for (auto& e : drv::split(f[1], ';')) {
            auto x = drv::split(e, ':');
            if (x.size() < 4) { continue; }
            int s = stoi(x[0]);
            size_t len = stoul(x[1]);
            unsigned tag = stoul(x[2]);
            auto& m = *slot.at(s);
            if (m.GetSize() != len) { bad.push_back("slot " + x[0] + " has size " + to_string(m.GetSize()) + " instead of " + x[1]); continue; }
            auto d = static_cast<unsigned char*>(m.GetData());
            if (len && !d) { bad.push_back("slot " + x[0] + " has no data"); continue; }
            if (addr.count(s) && addr[s] != d) { bad.push_back("slot " + x[0] + " moved"); }
            addr[s] = d;
            if (stoul(x[3]) && reinterpret_cast<uintptr_t>(d) % stoul(x[3])) { bad.push_back("slot " + x[0] + " is not aligned to " + x[3]); }
            for (size_t i = 0; i < len; ++i) {
                if (d[i] != pat(tag, i)) { bad.push_back("slot " + x[0] + ": byte " + to_string(i) + " of " + x[1] + " is not as written"); break; }
            }
        }
        lock_guard<mutex> l(gM);
        string r = "{\"bad\":" + drv::jlist(bad) + ",\"calls\":{";
        bool first = true;
        for (auto& [id, n] : gCalls) { r += (first ? "" : ",") + drv::js(to_string(id)) + ":" + to_string(n); first = false; }
        r += "},\"acks\":[";
        for (size_t i = 0; i < acks.size(); ++i) { r += (i ? "," : "") + drv::jnums(vector<size_t>(acks[i].begin(), acks[i].end())); }
        r += "],\"stats\":{";
        first = true;
        for (auto& [t, c] : tx) {
            auto& x = *rx.at(t);
            r += (first ? "" : ",") + drv::js(t) + ":[" + to_string(c->GetMessagesTx()) + "," + to_string(c->GetBytesTx()) + "," + to_string(x.GetMessagesRx()) + "," + to_string(x.GetBytesRx()) + "]";
            first = false;
        }
        return r + "}}";
    }
};

// the other process
struct Remote
{
    int fd = -1;
    pid_t pid = 0;
    FILE* in = nullptr;
    void start()
    {
        int sv[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { throw runtime_error("socketpair"); }
        pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(sv[0]);
            dup2(sv[1], 0);
            dup2(sv[1], 1);
            execl("/proc/self/exe", "agent", "agent", nullptr);
            _exit(9);
        }
        close(sv[1]);
        fd = sv[0];
        in = fdopen(fd, "r+");
    }
    string exec(string const& line)
    {
        string l = line + "\n";
        if (write(fd, l.data(), l.size()) != static_cast<ssize_t>(l.size())) { return dead(); }
        char* buf = nullptr;
        size_t n = 0;
        ssize_t k = getline(&buf, &n, in);
        if (k <= 0) { free(buf); return dead(); }
        string r(buf, k - 1);
        free(buf);
        return r;
    }
    string dead()
    {
        int st = 0;
        waitpid(pid, &st, 0);
        fprintf(stderr, "the other process died: status %d signal %d\n", WEXITSTATUS(st), WIFSIGNALED(st) ? WTERMSIG(st) : 0);
        fflush(stdout);
        _exit(4);
    }
};
static string join(vector<string> const& v, size_t from) { string r; for (size_t i = from; i < v.size(); ++i) { r += (i > from ? "|" : "") + v[i]; } return r; }

int main(int argc, char**)
{
    signal(SIGPIPE, SIG_IGN);
    Agent me;
    string line;
    if (argc > 1) {
        while (getline(cin, line)) { cout << me.exec(drv::split(line, '|')) << endl; }
        return 0;
    }
    Remote other;
    other.start();
    string session;
    long base = 0;
    bool two = false;
    auto exec = [&](int p, string const& l) { return p == 1 ? me.exec(drv::split(l, '|')) : other.exec(l); };
    auto freeMem = [&] { return static_cast<long>(shmem::Monitor::GetFreeMemory(shmem::SessionId{session}, 0)) + (two ? static_cast<long>(shmem::Monitor::GetFreeMemory(shmem::SessionId{session}, 1)) : 0); };
    bool shm = false;
    auto finish = [&](bool last) {
        if (session.empty()) { return; }
        string left;
        for (int p : {1, 2}) { exec(p, "close"); }
        for (int p : {2, 1}) { exec(p, "close2"); }
        string pre = "fmq_" + shmem::makeShmIdStr(session);
        set<string> l;
        for (auto& e : filesystem::directory_iterator("/dev/shm")) { string n = e.path().filename(); if (n.rfind(pre, 0) == 0) { l.insert(n); } }
        if (!l.empty()) { shmem::Monitor::Cleanup(shmem::SessionId{session}, false); }
        printf("{\"endobs\":%s}\n", drv::jlist(vector<string>(l.begin(), l.end())).c_str());
        session.clear();
    };
    while (getline(cin, line)) {
        auto f = drv::split(line, '|');
        if (f[0] == "walk") {   // walk|i|transports|addressing|region home|region kind|allocation|metadata size
            finish(false);
            session = "v" + to_string(getpid()) + "_" + f[1];
            string pre = f[3] + session + "_";
            shm = f[2].find("shmem") != string::npos;
            printf("{\"walk\":%s}\n", f[1].c_str());
            string e;
            for (int p : {1, 2}) { e += exec(p, "setup|" + f[1] + "|" + session + "|" + f[2] + "|" + pre + "|" + f[4] + "|" + f[5] + "|" + to_string(p) + "|" + f[6] + "|" + f[7] + "|" + f[8]); }
            two = f[8] == "1";
            for (int p : {1, 2}) { e += exec(p, "connect"); }
            if (e.find("throws") != string::npos) { printf("{\"stuck\":%s}\n", drv::js("set-up fails: " + e).c_str()); }
            base = shm ? freeMem() : 0;
            fflush(stdout);
            continue;
        }
        // step|p|expected 1|expected 2|wait for|op...    wait for: "" or used;acks;calls that must be reached
        int p = stoi(f[1]);
        string r = f[5] == "none" || f[5] == "flush" ? "{\"ret\":0,\"err\":\"\"}" : f[5] == "clear2" ? "" : exec(p, join(f, 5));
        if (f[5] == "clear2") {      // clear2|what process 1 receives|what process 2 receives|
            r = exec(1, "clear|" + f[6] + "|" + f[7]);
            string r2 = exec(2, "clear|" + f[8] + "|" + f[9]);
            if (r2.find("\"err\":\"\"") == string::npos) { r = r2; }
        }
        string c1, c2;
        long used = 0;
        auto t0 = chrono::steady_clock::now();
        for (;;) {
            c1 = exec(1, "check|" + f[2]);
            c2 = exec(2, "check|" + f[3]);
            used = shm ? base - freeMem() : 0;
            if (f[4].empty()) { break; }
            // max used;number of acks;number of calls, over both processes
            auto w = drv::split(f[4], ';');
            auto count = [](string const& s, string const& key, char end) { size_t a = s.find("\"" + key + "\":") + key.size() + 4; size_t n = 0; int d = 1; size_t i = a; for (; i < s.size() && d > 0; ++i) { if (s[i] == '[' || s[i] == '{') { ++d; ++n; } else if (s[i] == ']' || s[i] == '}') { --d; } } return key == "acks" ? n : 0; };
            long acks = count(c1, "acks", ']') + count(c2, "acks", ']');
            auto sum = [](string const& s) { long n = 0; size_t a = s.find("\"calls\":{") + 9, b = s.find('}', a); for (auto& x : drv::split(s.substr(a, b - a), ',')) { auto q = x.rfind(':'); if (q != string::npos) { n += stol(x.substr(q + 1)); } } return n; };
            long calls = sum(c1) + sum(c2);
            if (used <= stol(w[0]) && acks >= stol(w[1]) && calls >= stol(w[2])) { break; }
            if (chrono::steady_clock::now() - t0 > chrono::seconds(8)) { break; }
            this_thread::sleep_for(chrono::milliseconds(2));
        }
        printf("{\"r\":%s,\"c\":[%s,%s],\"used\":%ld}\n", r.c_str(), c1.c_str(), c2.c_str(), used);
        fflush(stdout);
    }
    finish(true);
    printf("{\"done\":true}\n");
    fflush(stdout);
    fclose(other.in);
    int st = 0;
    waitpid(other.pid, &st, 0);
    return st != 0;
}
