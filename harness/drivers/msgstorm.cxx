// Threads of two processes copying, forwarding and dropping messages freely; every event gets a
// number from a counter both processes share. Usage:
//   msgstorm <directory> <session> <seed> <threads> <transport> <rounds> <region kind> <queue size>
// Prints the events of both processes in order (spec/MessageStorm_Trace.tla).
#include <common.h>
#include <fairmq/Channel.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/shmem/Common.h>
#include <fairmq/shmem/Monitor.h>
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <random>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
using namespace std;
using namespace fair::mq;
namespace {
struct Shared
{
    atomic<uint64_t> seq, id, sent, received, barrier[16], sending, acked, used;
};
struct Rec { uint64_t n; char e; int s, t; uint64_t b, g; };
constexpr size_t kBlk = 2048, kBlocks = 4096;
unsigned char pat(uint64_t tag, size_t i) { return static_cast<unsigned char>((tag * 37u + 11u) ^ (i * 131u) ^ ((i >> 8) * 29u) ^ (tag >> 8)); }
size_t sizeOf(uint64_t tag) { return 1 + (tag * 7919) % 1900; }
Shared* gS = nullptr;
mutex gLogM;
vector<Rec> gLog;
string gBad;
void logTo(vector<Rec>& l, char e, int s, int t, uint64_t b, uint64_t g) { l.push_back({gS->seq.fetch_add(1), e, s, t, b, g}); }
void logLocked(char e, uint64_t b, uint64_t g) { lock_guard<mutex> l(gLogM); logTo(gLog, e, 0, 0, b, g); }
void bad(string const& w) { lock_guard<mutex> l(gLogM); if (gBad.empty()) { gBad = w; } }
void userFree(void* d, void* h) { logLocked('C', reinterpret_cast<size_t>(h), 0); free(d); }
struct Held { MessagePtr m; uint64_t own, tag; };
}   // namespace

int main(int argc, char** argv)
{
    string dir = argv[1], session = argv[2], transport = argv[5];
    unsigned seed = stoul(argv[3]);
    int T = stoi(argv[4]), rounds = stoi(argv[6]), kind = stoi(argv[7]), hwm = stoi(argv[8]);
    bool child = argc > 9, shm = transport == "shmem";
    int fd = open((dir + "/shared").c_str(), O_RDWR | O_CREAT, 0600);
    if (ftruncate(fd, sizeof(Shared))) { return 3; }
    gS = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    pid_t pid = 0;
    if (!child) {
        pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            execl("/proc/self/exe", "msgstorm", argv[1], argv[2], argv[3], argv[4], argv[5], argv[6], argv[7], argv[8], "child", nullptr);
            _exit(9);
        }
    }
    int p = child ? 1 : 0;
    int barriers = 0;
    auto fail = [&](string const& w) { printf("{\"e\":\"bad\",\"what\":%s}\n", drv::js(w).c_str()); fflush(stdout); _exit(child ? 5 : 0); };
    auto barrier = [&] {
        gS->barrier[barriers].fetch_add(1);
        auto t0 = chrono::steady_clock::now();
        while (gS->barrier[barriers] < 2) {
            this_thread::sleep_for(chrono::microseconds(200));
            int st = 0;
            if (pid && waitpid(pid, &st, WNOHANG) == pid && gS->barrier[barriers] < 2) { fail("the other process ended: exit status " + to_string(WEXITSTATUS(st)) + " signal " + to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 0)); }
            if (chrono::steady_clock::now() - t0 > chrono::seconds(60)) { fail("the other process does not get on"); }
        }
        ++barriers;
    };
    auto cfg = make_unique<ProgOptions>();
    cfg->SetProperty<string>("session", session);
    cfg->SetProperty<size_t>("shm-segment-size", 64UL << 20);
    cfg->SetProperty<uint16_t>("shm-segment-id", kind & 4 ? p : 0);
    auto fac = TransportFactory::CreateTransportFactory(transport, "dev" + to_string(p), cfg.get());
    int N = 2 * T;
    auto addr = [&](int s, int t) { return "ipc://@" + session + "_" + to_string(s) + "_" + to_string(t); };
    vector<vector<unique_ptr<Channel>>> rx(T), tx(T);
    for (int i = 0; i < T; ++i) {
        for (int s = 0; s < N; ++s) {
            rx[i].push_back(make_unique<Channel>("rx" + to_string(s) + "_" + to_string(i), "pull", fac));
            rx[i][s]->GetSocket().SetRcvBufSize(hwm);
            if (!rx[i][s]->Bind(addr(s, p * T + i))) { fail("bind"); }
        }
    }
    barrier();
    for (int i = 0; i < T; ++i) {
        for (int t = 0; t < N; ++t) {
            tx[i].push_back(make_unique<Channel>("tx" + to_string(i) + "_" + to_string(t), "push", fac));
            tx[i][t]->GetSocket().SetSndBufSize(hwm);
            if (!tx[i][t]->Connect(addr(p * T + i, t))) { fail("connect"); }
        }
    }
    auto freeMem = [&] { return shm ? static_cast<long>(shmem::Monitor::GetFreeMemory(shmem::SessionId{session}, 0)) + (kind & 4 ? static_cast<long>(shmem::Monitor::GetFreeMemory(shmem::SessionId{session}, 1)) : 0) : 0L; };
    barrier();
    // the region belongs to process 0
    UnmanagedRegionPtr region;
    char* base = nullptr;
    atomic<uint64_t> blocks{0};
    auto ack = [&](void* d, size_t n, void* h) {
        auto id = reinterpret_cast<size_t>(h);
        size_t blk = 0;
        if (static_cast<char*>(d) < base || n != sizeOf(id)) { bad("acknowledgement of hint " + to_string(id) + " with size " + to_string(n) + " or address is wrong"); }
        else { blk = (static_cast<char*>(d) - base) / kBlk; }
        logLocked('A', id, blk);
        ++gS->acked;
    };
    if (p == 0) {
        RegionConfig rc;
        rc.rcSegmentSize = kind & 2 ? 0 : 10000000;
        if (kind & 1) { region = fac->CreateUnmanagedRegion(kBlk * kBlocks, [&](vector<RegionBlock> const& v) { for (auto& b : v) { ack(b.ptr, b.size, b.hint); } }, rc); }
        else { region = fac->CreateUnmanagedRegion(kBlk * kBlocks, [&](void* d, size_t n, void* h) { ack(d, n, h); }, rc); }
        base = static_cast<char*>(region->GetData());
    }
    // a channel to and from the other process besides
    auto crx = make_unique<Channel>("crx", "pull", fac), ctx = make_unique<Channel>("ctx", "push", fac);
    if (!crx->Bind("ipc://@" + session + "_c" + to_string(p))) { fail("bind"); }
    barrier();
    if (!ctx->Connect("ipc://@" + session + "_c" + to_string(1 - p))) { fail("connect"); }
    {
        auto m = fac->CreateMessage(1);    // also makes each process know the segment of the other
        if (ctx->Send(m, 10000) != 1) { fail("send"); }
        auto m2 = fac->CreateMessage();
        if (crx->Receive(m2, 10000) != 1 || !m2->GetData()) { fail("receive"); }
    }
    barrier();
    long base0 = freeMem();
    barrier();
    gS->sending += T;
    barrier();
    vector<vector<Rec>> logs(T);
    vector<thread> threads;
    for (int i = 0; i < T; ++i) {
        threads.emplace_back([&, i] {
            mt19937 rng(seed * 1000 + p * 100 + i);
            auto& l = logs[i];
            int me = p * T + i;
            vector<Held> held;
            vector<int> order(N);
            auto check = [&](Held const& h, char const* when) {
                auto d = static_cast<unsigned char*>(h.m->GetData());
                if (h.m->GetSize() != sizeOf(h.tag)) { bad(string(when) + ": message " + to_string(h.tag) + " has size " + to_string(h.m->GetSize())); return; }
                for (size_t k = 0, n = h.m->GetSize(); k < n; k += 1 + k / 64) { if (d[k] != pat(h.tag, k)) { bad(string(when) + ": content of message " + to_string(h.tag) + " is damaged at byte " + to_string(k)); return; } }
            };
            auto drop = [&](Held&& h) { check(h, "before it is dropped"); logTo(l, 'd', 0, 0, h.own, 0); h.m.reset(); };
            auto make = [&]() -> Held {
                uint64_t id = ++gS->id;
                size_t n = sizeOf(id);
                int what = rng() % 4;
                uint64_t blk = blocks.load();
                if (what == 0 && p == 0 && (blk = blocks.fetch_add(1)) < kBlocks / 2) {
                    logTo(l, 'n', 1, 0, id, blk);
                    char* d = base + blk * kBlk;
                    for (size_t k = 0; k < n; ++k) { d[k] = pat(id, k); }
                    return {fac->CreateMessage(region, d, n, reinterpret_cast<void*>(id)), id, id};
                }
                if (what == 1) {
                    logTo(l, 'n', 2, 0, id, 0);
                    auto d = static_cast<char*>(malloc(n));
                    for (size_t k = 0; k < n; ++k) { d[k] = pat(id, k); }
                    return {fac->CreateMessage(d, n, userFree, reinterpret_cast<void*>(id)), id, id};
                }
                logTo(l, 'n', 0, 0, id, 0);
                auto m = fac->CreateMessage(n);
                auto d = static_cast<char*>(m->GetData());
                for (size_t k = 0; k < n; ++k) { d[k] = pat(id, k); }
                return {move(m), id, id};
            };
            auto send = [&](Held&& h) {
                int t = rng() % N;
                if (t == me) { t = (t + 1) % N; }
                logTo(l, 's', me, t, h.own, h.tag);
                int64_t r = 0;
                if ((me + t) % 2) {
                    r = tx[i][t]->Send(h.m, rng() % 3 ? 0 : 5);
                } else {
                    Parts parts;
                    parts.AddPart(move(h.m));
                    r = tx[i][t]->Send(parts, rng() % 3 ? 0 : 5);
                    h.m = move(parts.At(0));
                }
                if (r >= 0) {
                    if (r != static_cast<int64_t>(sizeOf(h.tag))) { bad("send returns " + to_string(r)); }
                    ++gS->sent;
                } else {
                    if (r != static_cast<int64_t>(TransferCode::timeout)) { bad("send returns code " + to_string(r)); }
                    logTo(l, 'f', me, t, h.own, h.tag);
                    check(h, "after a send that timed out");
                    held.push_back(move(h));
                }
            };
            auto copy = [&](Held const& h) -> Held {
                logTo(l, 'i', 0, 0, h.own, 0);
                auto m = fac->CreateMessage();
                m->Copy(*h.m);
                return {move(m), h.own, h.tag};
            };
            auto receive = [&] {
                bool any = false;
                for (int s = 0; s < N; ++s) {
                    MessagePtr m;
                    int64_t r = 0;
                    if (s == me) { continue; }
                    Parts parts;
                    if ((me + s) % 2) { m = fac->CreateMessage(); r = rx[i][s]->Receive(m, 0); }
                    else { r = rx[i][s]->Receive(parts, 0); }
                    if (r == static_cast<int64_t>(TransferCode::timeout)) { continue; }
                    if (!m && parts.Size() == 1) { m = move(parts.At(0)); }
                    if (r < 0 || !m || r != static_cast<int64_t>(m->GetSize())) { bad("receive returns " + to_string(r) + " with " + to_string(parts.Size()) + " parts"); continue; }
                    any = true;
                    ++gS->received;
                    // which message is it? the first two bytes and the size leave few candidates; the log tells
                    Held h{move(m), 0, 0};
                    h.tag = 0;
                    auto d = static_cast<unsigned char*>(h.m->GetData());
                    for (uint64_t c = gS->id; c > 0 && h.tag == 0; --c) {
                        if (sizeOf(c) != h.m->GetSize()) { continue; }
                        bool ok = true;
                        for (size_t k = 0; k < h.m->GetSize() && ok; ++k) { ok = d[k] == pat(c, k); }
                        if (ok) { h.tag = c; }
                    }
                    if (!h.tag) { bad("received something that was never sent"); continue; }
                    logTo(l, 'r', s, me, h.tag, 0);
                    h.own = h.tag;
                    if (!shm) { h.own = ++gS->id; logTo(l, 'n', 0, 0, h.own, 0); }
                    held.push_back(move(h));
                }
                return any;
            };
            for (int r = 0; r < rounds; ++r) {
                int what = rng() % 10;
                if (held.empty() || (what < 2 && held.size() < 12)) { held.push_back(make()); }
                else if (what < 6) {
                    size_t k = rng() % held.size();
                    if (rng() % 2 && held.size() < 12) { held.push_back(copy(held[k])); k = held.size() - 1; }
                    Held h = move(held[k]);
                    held.erase(held.begin() + k);
                    send(move(h));
                } else if (what < 7 || held.size() > 12) {
                    size_t k = rng() % held.size();
                    Held h = move(held[k]);
                    held.erase(held.begin() + k);
                    drop(move(h));
                } else if (what < 8) {   // many owners coming and going at once; the own one stays
                    auto& h = held[rng() % held.size()];
                    auto m = fac->CreateMessage();
                    for (int k = 0; k < 300; ++k) {
                        m->Copy(*h.m);
                        m->Rebuild();
                    }
                    check(h, "while it is copied");
                }
                receive();
            }
            --gS->sending;
            auto t0 = chrono::steady_clock::now();
            while (gS->sending > 0 || gS->received < gS->sent) {
                if (receive()) { t0 = chrono::steady_clock::now(); }
                else { this_thread::sleep_for(chrono::microseconds(300)); }
                if (chrono::steady_clock::now() - t0 > chrono::seconds(15)) { bad("what was sent does not arrive"); break; }
            }
            while (!held.empty()) { drop(move(held.back())); held.pop_back(); }
        });
    }
    int const churns = shm && !(kind & 8) ? 2 : 0, churnBlocks = 30;
    vector<Rec> clog, dlog;
    if (churns) {
        // regions that come and go
        threads.emplace_back([&] {
            for (int k = 0; k < churns; ++k) {
                map<uint64_t, size_t> at;
                mutex am;
                atomic<int> acks{0};
                char* base1 = nullptr;
                RegionConfig rc;
                rc.linger = 10;
                rc.rcSegmentSize = 1000000;
                auto reg = fac->CreateUnmanagedRegion(kBlk * churnBlocks, [&](void* d, size_t n, void* h) {
                    auto id = reinterpret_cast<size_t>(h);
                    if (n != sizeOf(id)) { bad("acknowledgement with a wrong size"); }
                    logLocked('A', id, (static_cast<char*>(d) - base1) / kBlk + 100000);
                    ++acks;
                }, rc);
                base1 = static_cast<char*>(reg->GetData());
                for (int b = 0; b < churnBlocks; ++b) {
                    uint64_t id = ++gS->id;
                    char* d = base1 + b * kBlk;
                    logTo(clog, 'n', 1, 0, id, b + 100000);
                    for (size_t i = 0, n = sizeOf(id); i < n; ++i) { d[i] = pat(id, i); }
                    auto m = fac->CreateMessage(reg, d, sizeOf(id), reinterpret_cast<void*>(id));
                    logTo(clog, 's', 90 + p, 91 - p, id, id);
                    if (ctx->Send(m, 10000) < 0) { bad("cannot send a block of a region"); }
                }
                auto t0 = chrono::steady_clock::now();
                while (acks < churnBlocks && chrono::steady_clock::now() - t0 < chrono::seconds(12)) { this_thread::sleep_for(chrono::milliseconds(1)); }
            }
        });
        threads.emplace_back([&] {
            uint64_t last = 0;
            for (int k = 0; k < churns * churnBlocks; ++k) {
                auto m = fac->CreateMessage();
                if (crx->Receive(m, 20000) < 0) { bad("a block of a region does not arrive"); return; }
                auto d = static_cast<unsigned char*>(m->GetData());
                uint64_t id = 0;
                for (uint64_t c = last + 1; d && c <= gS->id && !id; ++c) {
                    if (sizeOf(c) != m->GetSize()) { continue; }
                    bool ok = true;
                    for (size_t i = 0; i < m->GetSize() && ok; ++i) { ok = d[i] == pat(c, i); }
                    if (ok) { id = c; }
                }
                if (!id) { bad("a block of a region arrives damaged"); return; }
                last = id;
                logTo(dlog, 'r', 91 - p, 90 + p, id, 0);
                logTo(dlog, 'd', 0, 0, id, 0);
            }
        });
    }
    for (auto& t : threads) { t.join(); }
    {
        lock_guard<mutex> l(gLogM);
        logs.push_back(move(clog));
        logs.push_back(move(dlog));
        for (auto& l2 : logs) { gLog.insert(gLog.end(), l2.begin(), l2.end()); }
    }
    logs.clear();
    if (child) {      // ends at once
        rx.clear();
        tx.clear();
        crx.reset();
        ctx.reset();
        fac.reset();
    } else if (shm) {
        barrier();
        auto t0 = chrono::steady_clock::now();
        uint64_t want = min<uint64_t>(blocks, kBlocks / 2);
        while (gS->acked < want && chrono::steady_clock::now() - t0 < chrono::seconds(8)) { this_thread::sleep_for(chrono::milliseconds(1)); }
        logLocked('m', base0 - freeMem(), 0);
        // the end of the creator: what it drops last is acknowledged as well
        int n = seed % 3 == 0 ? 5 : 300 + seed % 300;
        vector<MessagePtr> ms;
        for (int k = 0; k < n; ++k) {
            uint64_t id = ++gS->id, blk = kBlocks / 2 + k;
            logTo(gLog, 'n', 1, 0, id, blk);
            ms.push_back(fac->CreateMessage(region, base + blk * kBlk, sizeOf(id), reinterpret_cast<void*>(id)));
            if (k % 3 == 0) { auto m = fac->CreateMessage(); m->Copy(*ms.back()); }
            logLocked('d', id, 0);
        }
        ms.clear();
        region.reset();
    }
    if (child) { barrier(); }
    string out = dir + "/log" + to_string(p);
    ofstream o(out);
    if (!child) {
        if (!shm) { barrier(); }
        region.reset();
        rx.clear();
        tx.clear();
        crx.reset();
        ctx.reset();
        fac.reset();
    }
    {
        lock_guard<mutex> l(gLogM);
        for (auto& r : gLog) { o << r.n << ' ' << r.e << ' ' << r.s << ' ' << r.t << ' ' << r.b << ' ' << r.g << '\n'; }
        if (!gBad.empty()) { o << gS->seq.fetch_add(1) << " ! 0 0 0 0 " << gBad << '\n'; }
    }
    o.close();
    if (!child) {
        int st = 0;
        waitpid(pid, &st, 0);
        if (st != 0) { fail("the other process ended: exit status " + to_string(WEXITSTATUS(st)) + " signal " + to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 0)); }
        string pre = "fmq_" + shmem::makeShmIdStr(session);
        vector<string> left;
        if (shm) { for (auto& e : filesystem::directory_iterator("/dev/shm")) { string n = e.path().filename(); if (n.rfind(pre, 0) == 0) { left.push_back(n); } } }
        if (!left.empty()) { shmem::Monitor::Cleanup(shmem::SessionId{session}, false); }
        printf("{\"e\":\"end\",\"left\":%s}\n", drv::jlist(left).c_str());
    }
    return 0;
}
