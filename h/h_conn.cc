// C18: pollers against the outcome of non-blocking transfers, their timing, endpoints of real devices against what
// was asked for and what is reachable, number of connected peers against the peers that exist.
#include "tx.h"

#include <fairmq/Device.h>
#include <fairmq/Poller.h>

#include <arpa/inet.h>
#include <netinet/in.h>
#include <set>
#include <signal.h>
#include <sys/resource.h>
#include <sys/socket.h>

using namespace fair::mq;
using namespace std;
using vp::fmt;

namespace
{
[[noreturn]] void giveUp() { vp::finish(); _exit(0); }

map<string, unique_ptr<tx::Node>> gNodes;
tx::Node& node(const string& t) { auto& n = gNodes[t]; if (!n) { tx::Opt o; o.segSize = 16u << 20; n = make_unique<tx::Node>(t, o); } return *n; }

// ------------------------------------------------------------------ poller
struct PCh
{
    string type, peerType;
    string name; int sub;
    Channel* c = nullptr;
    vector<unique_ptr<Channel>> peers;
};

vector<PCh> gCh;
string showP(const vector<PCh>& v) { string s; for (auto& p : v) { s += fmt("%s[%d] %s<->%zux%s ", p.name.c_str(), p.sub, p.type.c_str(), p.peers.size(), p.peerType.c_str()); } return s; }

void connectPair(Channel& a, Channel& b, const string& addr, bool aBinds)
{
    Channel& x = aBinds ? a : b;
    Channel& y = aBinds ? b : a;
    VP_CHECK(x.Bind(addr), "bind", "cannot bind to %s", addr.c_str());
    VP_CHECK(y.Connect(tx::lastEndpoint(x.GetSocket())), "connect", "cannot connect to %s", addr.c_str());
}

void pollCase(uint64_t c, vp::Rng& r)
{
    vp::phase("poll");
    string tr = r.chance(1, 2) ? "zeromq" : "shmem";
    auto& nd = node(tr);
    bool exact = r.chance(3, 4);   // inproc: nothing happens in the background
    vector<pair<string, string>> types = {{"pull", "push"}, {"push", "pull"}, {"pair", "pair"}, {"dealer", "dealer"}, {"req", "rep"}, {"rep", "req"}, {"pull", "push"}, {"push", "pull"}};
    if (tr == "zeromq") { types.insert(types.end(), {{"sub", "pub"}, {"pub", "sub"}, {"router", "dealer"}, {"xpub", "sub"}}); }
    unordered_map<string, vector<Channel>> chans;
    vector<PCh> v;
    vector<string> order;
    int names = 1 + r.below(4);
    bool onlyIn = r.chance(1, 4);
    for (int i = 0; i < names; ++i) {
        string n = fmt("%c%llu-%d", "qxaz"[r.below(4)], (unsigned long long)c, i);
        int subs = 1 + (r.chance(1, 3) ? r.below(4) : 0);
        auto t = onlyIn ? types[0] : r.pick(types);
        order.push_back(n);
        for (int s = 0; s < subs; ++s) {
            PCh p;
            p.type = t.first; p.peerType = t.second; p.name = n; p.sub = s;
            v.push_back(move(p));
            chans[n].emplace_back(tx::uniq(n), t.first, nd.f);
        }
    }
    // a different order than the one of creation, possibly not all of them
    for (size_t i = order.size(); i > 1; --i) { swap(order[i - 1], order[r.below(i)]); }
    int how = r.below(4);   // 0 by pointers, 1 by vector, 2, 3 by names
    if (how == 1) { order.resize(1); }
    if (how >= 2 && r.chance(1, 3)) { order.resize(1 + r.below(order.size())); }
    vector<PCh> w;
    for (auto& n : order) { for (auto& p : v) { if (p.name == n) { w.push_back(move(p)); } } }
    v = move(w);
    vector<Channel*> ptrs;
    for (auto& p : v) {
        p.c = &chans[p.name].at(p.sub);
        ptrs.push_back(p.c);
        p.c->GetSocket().SetLinger(0);
        p.c->GetSocket().SetSndBufSize(1 + r.below(4));
        p.c->GetSocket().SetRcvBufSize(1 + r.below(4));
        int np = r.chance(1, 8) ? 0 : p.type == "pair" ? 1 : 1 + r.below(2);
        bool binds = r.chance(1, 2);
        for (int k = 0; k < np; ++k) {
            p.peers.push_back(make_unique<Channel>(tx::uniq("p"), p.peerType, nd.f));
            auto& pc = *p.peers.back();
            pc.GetSocket().SetLinger(0);
            pc.GetSocket().SetSndBufSize(1 + r.below(4));
            pc.GetSocket().SetRcvBufSize(1 + r.below(4));
            connectPair(*p.c, pc, tx::address(exact ? "inproc" : r.chance(1, 2) ? "ipc" : "tcp"), binds);
        }
    }
    PollerPtr poller;
    // duplicate names in the list address the same channels
    vector<string> list = order;
    if (how >= 2 && r.chance(1, 5)) { list.push_back(r.pick(order)); }
    if (how == 0) { poller = nd.f->CreatePoller(ptrs); }
    else if (how == 1) { poller = nd.f->CreatePoller(chans[order[0]]); }
    else { poller = nd.f->CreatePoller(chans, list); }
    bool byName = how >= 2;
    if (byName) {
        bool threw = false;
        try { auto bad = order; bad.insert(bad.begin() + r.below(bad.size() + 1), "no-such"); nd.f->CreatePoller(chans, bad); } catch (PollerError&) { threw = true; }
        VP_CHECK(threw, "poll:unknown-channel", "a poller over an unknown channel was created");
    }
    string sh = tr + (exact ? " inproc " : " ") + showP(v) + (byName ? "by name" : how ? "by vector" : "by pointer");
    auto flag = [&](size_t i, bool in) {
        bool f = byName ? (in ? poller->CheckInput(v[i].name, v[i].sub) : poller->CheckOutput(v[i].name, v[i].sub)) : in ? poller->CheckInput(i) : poller->CheckOutput(i);
        if (byName && list.size() == order.size()) {
            bool g = in ? poller->CheckInput(static_cast<int>(i)) : poller->CheckOutput(static_cast<int>(i));
            VP_CHECK(f == g, "poll:name-position", "%s of %s[%d] is %d by name, %d by position %zu; %s", in ? "input" : "output", v[i].name.c_str(), v[i].sub, f, g, i, sh.c_str());
        }
        return f;
    };
    auto mkmsg = [&](Channel& ch) { auto m = ch.NewMessage(1 + r.below(50)); tx::fill(m->GetData(), m->GetSize(), 1); return m; };
    uint64_t nIn = 0, nOut = 0, h = vp::hash(sh.substr(0, 0) + to_string(v.size()));
    vector<int64_t> pending(v.size(), 0);    // messages on their way to polled channel i
    int steps = 20 + r.below(60);
    for (int s = 0; s < steps; ++s) {
        for (int k = r.below(4); k > 0; --k) {   // peers act
            size_t i = r.below(v.size());
            if (v[i].peers.empty()) { continue; }
            auto& pc = *r.pick(v[i].peers);
            if (r.chance(1, 2)) { auto m = mkmsg(pc); if (pc.Send(m, 0) >= 0) { ++pending[i]; } }
            else { auto m = pc.NewMessage(); pc.Receive(m, 0); }
        }
        bool pairable = v.size() > 0;
        if (!pairable) { break; }
        int t = r.chance(1, 5) ? r.below(4) : 0;
        poller->Poll(t);
        vector<array<bool, 2>> f(v.size());
        for (size_t i = 0; i < v.size(); ++i) { f[i] = {flag(i, true), flag(i, false)}; }
        for (size_t i = 0; i < v.size(); ++i) {
            auto& p = v[i];
            bool in = r.chance(1, 2);
            bool flg = f[i][!in];
            bool canIn = p.type != "push" && p.type != "pub" && p.type != "xpub", canOut = p.type != "pull" && p.type != "sub";
            if (in ? !canIn : !canOut) {
                VP_CHECK(!flg, "poll:direction", "%s of a %s channel is flagged; %s", in ? "input" : "output", p.type.c_str(), sh.c_str());
                continue;
            }
            if (!exact && !flg) {
                // an empty channel must never be flagged, the others are up to the network
                if (in) { f[i][0] = false; }
                continue;
            }
            if (!exact && flg && in && (p.type == "pull" || p.type == "pair" || p.type == "dealer")) { VP_CHECK(pending[i] > 0, "poll:phantom", "input of %s[%d] is flagged although nothing was sent to it; %s", p.name.c_str(), p.sub, sh.c_str()); }
            if (r.chance(1, 3)) { continue; }   // let queues build up
            int64_t res;
            if (in) { auto m = p.c->NewMessage(); res = p.c->Receive(m, 0); if (res >= 0) { --pending[i]; } } else { auto m = mkmsg(*p.c); res = p.c->Send(m, 0); }
            VP_CHECK(flg == (res >= 0), in ? "poll:input" : "poll:output", "%s flag of %s channel %s[%d] (position %zu) is %d after the poll, but a non-blocking %s %s (%lld); %s", in ? "input" : "output", p.type.c_str(),
                     p.name.c_str(), p.sub, i, flg, in ? "receive" : "send", res >= 0 ? "succeeds" : "fails", (long long)res, sh.c_str());
            (in ? nIn : nOut) += flg;
            h = vp::mix(h, (i << 2) | (flg << 1) | in);
            vp::count(flg ? "ready checks" : "not ready checks");
        }
    }
    // what was sent gets flagged in the end
    if (!exact) {
        for (size_t i = 0; i < v.size(); ++i) {
            if (v[i].type != "pull" && v[i].type != "pair" && v[i].type != "dealer") { continue; }
            double t0 = vp::now();
            while (pending[i] > 0) {
                poller->Poll(20);
                if (flag(i, true)) {
                    auto m = v[i].c->NewMessage();
                    auto res = v[i].c->Receive(m, 0);
                    VP_CHECK(res >= 0, "poll:input", "input of %s[%d] is flagged, but nothing can be received; %s", v[i].name.c_str(), v[i].sub, sh.c_str());
                    if (res >= 0) { --pending[i]; }
                } else if (vp::now() - t0 > 20) {
                    vp::violation("poll:never", fmt("%lld messages for %s[%d] are never flagged; %s", (long long)pending[i], v[i].name.c_str(), v[i].sub, sh.c_str()));
                    break;
                }
            }
        }
    }
    if (byName) {
        for (bool in : {true, false}) {
            bool threw = false;
            try { in ? poller->CheckInput("no-such", 0) : poller->CheckOutput("no-such", 0); } catch (PollerError&) { threw = true; }
            VP_CHECK(threw, "poll:unknown-name", "%s of an unknown channel did not throw PollerError", in ? "CheckInput" : "CheckOutput");
        }
        if (chans.size() > order.size()) {
            for (auto& k : chans) {
                if (count(order.begin(), order.end(), k.first)) { continue; }
                bool threw = false;
                try { poller->CheckInput(k.first, 0); } catch (PollerError&) { threw = true; }
                VP_CHECK(threw, "poll:unknown-name", "CheckInput of a channel which is not polled did not throw PollerError");
            }
        }
    }
    poller.reset();
    vp::count("flags true (input)", nIn);
    vp::count("flags true (output)", nOut);
    vp::evaluated(h, nIn + nOut > 0);
    vp::sample(sh);
}

void onSig(int) {}
void timeCase(uint64_t, vp::Rng& r)
{
    vp::phase("poll timing");
    string tr = r.chance(1, 2) ? "zeromq" : "shmem";
    auto& nd = node(tr);
    int n = 1 + r.below(4);
    vector<unique_ptr<Channel>> cs, ps;
    vector<Channel*> ptrs;
    for (int i = 0; i < n; ++i) {
        cs.push_back(make_unique<Channel>(tx::uniq("t"), "pull", nd.f));
        ps.push_back(make_unique<Channel>(tx::uniq("t"), "push", nd.f));
        connectPair(*cs.back(), *ps.back(), tx::address(r.chance(1, 3) ? "inproc" : r.chance(1, 2) ? "ipc" : "tcp"), true);
        ptrs.push_back(cs.back().get());
    }
    auto poller = nd.f->CreatePoller(ptrs);
    int what = r.below(4);
    if (what <= 1) {
        // nothing is ready
        int T = r.chance(1, 4) ? 0 : 1 + r.below(150);
        bool sig = what == 1;
        if (sig) { T = 60 + r.below(150); }
        atomic<bool> stop{false};
        pthread_t me = pthread_self();
        thread t;
        if (sig) { t = thread([&] { while (!stop) { vp::sleepMs(15); pthread_kill(me, SIGUSR1); } }); }
        // the signals keep coming until the poll has returned (or is known to be late)
        thread limit;
        if (sig) { limit = thread([&] { double t0 = vp::now(); while (!stop && vp::now() - t0 < 6) { vp::sleepMs(10); } stop = true; }); }
        double t0 = vp::now();
        poller->Poll(T);
        double e = (vp::now() - t0) * 1000;
        stop = true;
        if (sig) { t.join(); limit.join(); }
        VP_CHECK(e >= T - 5, "time:early", "a poll of %d ms with nothing ready returned after %.1f ms%s", T, e, sig ? " (with signals)" : "");
        VP_CHECK(e <= T + 3000, "time:late", "a poll of %d ms with nothing ready returned after %.1f ms%s", T, e, sig ? " (with signals)" : "");
        for (int i = 0; i < n; ++i) { VP_CHECK(!poller->CheckInput(i), "time:flag", "channel %d is flagged, but nothing was sent", i); }
        vp::count(sig ? "idle polls with signals" : "idle polls");
        vp::evaluated(vp::mix(static_cast<uint64_t>(T), static_cast<uint64_t>(sig)));
    } else {
        int k = r.below(n), d = r.below(60);
        bool inf = r.chance(1, 2);
        thread t([&] { vp::sleepMs(d); auto m = ps[k]->NewMessage(5); ps[k]->Send(m); });
        double t0 = vp::now();
        poller->Poll(inf ? -1 : 20000);
        double e = (vp::now() - t0) * 1000;
        t.join();
        VP_CHECK(e <= d + 8000, "time:promptly", "a poll returned %.1f ms after its channel became ready", e - d);
        for (int i = 0; i < n; ++i) { VP_CHECK(poller->CheckInput(i) == (i == k), "time:flag", "channel %d is %sflagged after a message was sent to channel %d", i, i == k ? "not " : "", k); }
        vp::count("awaited messages");
        vp::evaluated(vp::mix(static_cast<uint64_t>(d), 7));
    }
}

// ------------------------------------------------------------------ endpoints
struct Sock   // a listening socket which occupies a port
{
    int fd = -1;
    bool take(int port)
    {
        fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        int one = 1;
        setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons(static_cast<uint16_t>(port));
        a.sin_addr.s_addr = htonl(INADDR_ANY);
        if (bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0 || listen(fd, 4) != 0) { close(fd); fd = -1; return false; }
        return true;
    }
    ~Sock() { if (fd >= 0) { close(fd); } }
};
// a block of ports which are all free right now
int freeBlock(vp::Rng& r, int n)
{
    for (int k = 0; k < 200; ++k) {
        int b = 24000 + static_cast<int>((static_cast<uint64_t>(getpid()) * 131 + r.below(8000)) % 8000);
        bool ok = b + n < 32500;
        for (int i = 0; ok && i < n; ++i) { Sock s; ok = s.take(b + i); }
        if (ok) { return b; }
    }
    return 0;
}

struct Quiet : Device
{
    atomic<State> notified{State::Ok};
    Quiet() { SubscribeToStateChange("vp", [this](State s) { notified = s; vp::tick(); }); }
    ~Quiet() override { UnsubscribeFromStateChange("vp"); }
};

struct Run
{
    ProgOptions cfg;
    string session = tx::newSession();
    unique_ptr<Quiet> d = make_unique<Quiet>();
    thread t;
    exception_ptr ep;
    atomic<bool> done{false};
    void start()
    {
        d->SetConfig(cfg);
        t = thread([this] { try { d->RunStateMachine(); } catch (...) { ep = current_exception(); } done = true; });
    }
    // true when reached, false if the device failed
    bool go(Transition tr, State target)
    {
        double t0 = vp::now();
        while (!d->ChangeState(tr)) { if (done) { return false; } vp::sleepUs(50); if (vp::now() - t0 > 40) { stuck(tr); } }
        return wait(target);
    }
    bool wait(State target)
    {
        double t0 = vp::now();
        while (!(d->notified == target && d->GetCurrentState() == target && !d->NewStatePending())) { if (done) { return false; } vp::sleepUs(50); if (vp::now() - t0 > 40) { stuck(Transition::Auto); } }
        return true;
    }
    [[noreturn]] void stuck(Transition tr) { vp::violation("endpoint:stuck", fmt("the device stays in %s (%s)", d->GetCurrentStateName().c_str(), GetTransitionName(tr).c_str())); giveUp(); }
    void end()
    {
        if (!done) {
            if (d->GetCurrentState() == State::Ready) { go(Transition::ResetTask, State::DeviceReady); }
            if (d->GetCurrentState() != State::Idle) { go(Transition::ResetDevice, State::Idle); }
            go(Transition::End, State::Exiting);
        }
        t.join();
    }
};

struct End { string asked, proto; bool bind = false, isAuto = false; int port = 0; unique_ptr<Channel> peer; };
struct ACh { string name; int sub; string type, method, transport, addr; int lo = 0, hi = 0; bool autoBind = true; vector<End> ends; };

vector<string> split(const string& s) { vector<string> r; size_t p = 0; while (true) { size_t q = s.find(',', p); r.push_back(s.substr(p, q - p)); if (q == string::npos) { return r; } p = q + 1; } }

bool waitPeers(const function<unsigned long()>& f, unsigned long want, double secs = 15)
{
    double t0 = vp::now();
    while (f() != want) { if (vp::now() - t0 > secs) { return false; } vp::sleepMs(1); }
    return true;
}

void attachCase(uint64_t, vp::Rng& r)
{
    vp::phase("endpoints");
    Run R;
    string tr = r.chance(1, 2) ? "zeromq" : "shmem";
    R.cfg.SetProperty<string>("id", "dev");
    R.cfg.SetProperty<string>("session", R.session);
    R.cfg.SetProperty<string>("transport", tr);
    R.cfg.SetProperty<size_t>("shm-segment-size", 8u << 20);
    R.cfg.SetProperty<int>("init-timeout", 30);
    R.cfg.SetProperty<string>("network-interface", "lo");
    int nPorts = 14, base = freeBlock(r, nPorts);
    if (!base) { vp::count("no free ports"); return; }
    Sock occ;
    // ports: 0 is occupied, 1..3 are the range of automatic binding, the rest is given out one by one
    if (!occ.take(base)) { vp::count("no free ports"); return; }
    int nextPort = base + 4, autos = 0;
    vector<ACh> chs;
    int names = 1 + r.below(3);
    string desc;
    for (int i = 0; i < names; ++i) {
        int subs = 1 + (r.chance(1, 3) ? r.below(3) : 0);
        string type = r.chance(1, 2) ? "pull" : "push", method = r.chance(1, 2) ? "bind" : "connect";
        string ctr = r.chance(3, 4) ? "default" : r.chance(1, 2) ? "zeromq" : "shmem";
        for (int s = 0; s < subs; ++s) {
            ACh a;
            a.name = fmt("%c%d", "kbz"[r.below(3)], i);
            if (s) { a.name = chs.back().name; }
            a.sub = s; a.type = type; a.method = method; a.transport = ctr == "default" ? tr : ctr;
            a.lo = base + 1; a.hi = base + 3;
            int ne = 1 + (r.chance(1, 2) ? r.below(3) : 0);
            bool omit = method == "bind" && autos < 3 && r.chance(1, 6);
            if (omit) { ne = 1; }
            for (int e = 0; e < ne; ++e) {
                End x;
                x.bind = method == "bind";
                string mod;
                if (r.chance(1, 3)) { mod = r.chance(1, 2) ? "@" : r.chance(1, 2) ? "+" : ">"; x.bind = mod == "@"; }
                x.proto = r.pick(vector<string>{"tcp", "ipc", "inproc", "tcp"});
                if (x.proto == "tcp" && nextPort >= base + nPorts) { x.proto = "ipc"; }
                if (omit) { x.proto = "tcp"; x.isAuto = true; x.bind = true; x.asked = ""; ++autos; x.port = 1; }
                else if (x.proto == "tcp" && x.bind && autos < 3 && r.chance(1, 2)) {
                    x.isAuto = true;
                    ++autos;
                    x.port = base;
                    x.asked = mod + "tcp://" + r.pick(vector<string>{"127.0.0.1", "localhost", "*"}) + ":" + to_string(base);
                } else if (x.proto == "tcp") {
                    x.port = nextPort++;
                    x.asked = mod + "tcp://" + (x.bind ? r.pick(vector<string>{"127.0.0.1", "localhost", "*"}) : r.pick(vector<string>{"127.0.0.1", "localhost"})) + ":" + to_string(x.port);
                } else { x.asked = mod + tx::address(x.proto); }
                a.ends.push_back(move(x));
            }
            for (auto& x : a.ends) { a.addr += (a.addr.empty() ? "" : ",") + x.asked; }
            string k = fmt("chans.%s.%d.", a.name.c_str(), a.sub);
            R.cfg.SetProperty<string>(k + "type", a.type);
            R.cfg.SetProperty<string>(k + "method", a.method);
            if (!omit) { R.cfg.SetProperty<string>(k + "address", a.addr); }
            R.cfg.SetProperty<string>(k + "transport", ctr);
            R.cfg.SetProperty<int>(k + "linger", 0);
            R.cfg.SetProperty<int>(k + "rateLogging", 0);
            R.cfg.SetProperty<int>(k + "portRangeMin", a.lo);
            R.cfg.SetProperty<int>(k + "portRangeMax", a.hi);
            R.cfg.SetProperty<bool>(k + "autoBind", true);
            desc += fmt("%s[%d] %s %s %s '%s'; ", a.name.c_str(), a.sub, a.type.c_str(), a.method.c_str(), a.transport.c_str(), a.addr.c_str());
            chs.push_back(move(a));
        }
    }
    R.start();
    bool ok = R.go(Transition::InitDevice, State::InitializingDevice) && R.go(Transition::CompleteInit, State::Initialized);
    auto mkPeer = [&](ACh& a) { auto c = make_unique<Channel>(tx::uniq("peer"), a.type == "pull" ? "push" : "pull", R.d->AddTransport(TransportType(a.transport))); c->GetSocket().SetLinger(0); return c; };
    auto plain = [](string s) { if (!s.empty() && (s[0] == '@' || s[0] == '+' || s[0] == '>')) { s = s.substr(1); } size_t p = s.find("localhost"); if (p != string::npos) { s.replace(p, 9, "127.0.0.1"); } return s; };
    auto bindPeer = [&](ACh& a, End& e) {
        e.peer = mkPeer(a);
        double t0 = vp::now();
        while (!e.peer->Bind(plain(e.asked))) { vp::sleepMs(5); if (vp::now() - t0 > 10) { vp::violation("endpoint:peer", "cannot bind the peer to " + e.asked); break; } }
    };
    vector<pair<size_t, size_t>> late;
    if (ok) {
        // some of the peers to connect to exist before, some only after
        for (size_t i = 0; i < chs.size(); ++i) { for (size_t j = 0; j < chs[i].ends.size(); ++j) { auto& e = chs[i].ends[j]; if (!e.bind) { if (r.chance(1, 2)) { bindPeer(chs[i], e); } else { late.emplace_back(i, j); } } } }
        ok = R.go(Transition::Bind, State::Bound) && R.go(Transition::Connect, State::DeviceReady) && R.go(Transition::InitTask, State::Ready);
    }
    if (!ok) {
        string err = "?";
        try { R.t.join(); if (R.ep) { rethrow_exception(R.ep); } } catch (exception& e) { err = e.what(); }
        // somebody else may have taken one of the ports
        for (int p = base + 1; p < base + nPorts; ++p) { Sock s; if (!s.take(p)) { vp::count("ports taken by others"); return; } }
        vp::violation("endpoint:failed", "the device failed: " + err + "; " + desc);
        return;
    }
    set<int> ports;
    for (auto& a : chs) {
        auto& ch = R.d->GetChannel(a.name, a.sub);
        string addr = ch.GetAddress(), cfgAddr = R.cfg.GetProperty<string>(fmt("chans.%s.%d.address", a.name.c_str(), a.sub), "");
        if (!(a.addr.empty() && cfgAddr.empty())) { VP_CHECK(addr == cfgAddr, "endpoint:config", "%s[%d] has the address '%s', its configuration '%s'; %s", a.name.c_str(), a.sub, addr.c_str(), cfgAddr.c_str(), desc.c_str()); }
        auto got = split(addr);
        VP_CHECK(got.size() == a.ends.size(), "endpoint:number", "%s[%d] has %zu endpoints (%s), %zu were requested; %s", a.name.c_str(), a.sub, got.size(), addr.c_str(), a.ends.size(), desc.c_str());
        if (got.size() != a.ends.size()) { continue; }
        for (size_t j = 0; j < got.size(); ++j) {
            auto& e = a.ends[j];
            string g = plain(got[j]), want = plain(e.asked);
            if (e.proto == "tcp") {
                int port = atoi(g.c_str() + g.rfind(':') + 1);
                string host = g.substr(0, g.rfind(':')), wantHost = want.substr(0, want.rfind(':'));
                if (e.asked.empty()) { wantHost = "tcp://127.0.0.1"; }
                VP_CHECK(host == wantHost, "endpoint:host", "endpoint %s instead of %s; %s", g.c_str(), want.c_str(), desc.c_str());
                if (e.isAuto) { VP_CHECK((port >= a.lo && port <= a.hi) || (e.asked.empty() && port == 1), "endpoint:range", "automatic port %d is not in %d-%d; %s", port, a.lo, a.hi, desc.c_str()); vp::count("automatic ports"); }
                else { VP_CHECK(port == e.port, "endpoint:port", "endpoint %s instead of %s; %s", g.c_str(), want.c_str(), desc.c_str()); }
                VP_CHECK(!e.bind || ports.insert(port).second, "endpoint:distinct", "port %d is reported twice; %s", port, desc.c_str());
                e.port = port;
            } else { VP_CHECK(g == want, "endpoint:address", "endpoint %s instead of %s; %s", g.c_str(), want.c_str(), desc.c_str()); }
            if (!e.asked.empty()) {
                char m = e.asked[0] == '@' || e.asked[0] == '+' || e.asked[0] == '>' ? e.asked[0] : 0, gm = got[j][0] == '@' || got[j][0] == '+' || got[j][0] == '>' ? got[j][0] : 0;
                VP_CHECK((m == '>' ? '+' : m) == (gm == '>' ? '+' : gm), "endpoint:modifier", "endpoint %s instead of %s; %s", got[j].c_str(), e.asked.c_str(), desc.c_str());
            }
        }
    }
    auto connectPeer = [&](ACh& a, size_t j) {
        auto& e = a.ends[j];
        e.peer = mkPeer(a);
        string g = plain(split(R.d->GetChannel(a.name, a.sub).GetAddress())[j]);
        size_t star = g.find("//*");
        if (star != string::npos) { g.replace(star, 3, "//127.0.0.1"); }
        VP_CHECK(e.peer->Connect(g), "endpoint:peer", "cannot connect a peer to %s; %s", g.c_str(), desc.c_str());
    };
    for (auto& l : late) { bindPeer(chs[l.first], chs[l.first].ends[l.second]); }
    for (auto& a : chs) { for (size_t j = 0; j < a.ends.size(); ++j) { if (a.ends[j].bind) { connectPeer(a, j); } } }
    uint64_t h = vp::hash(to_string(chs.size()));
    auto checkPeers = [&](ACh& a, const char* when) {
        unsigned long want = 0;
        for (auto& e : a.ends) { want += e.peer && e.proto != "inproc"; }
        auto f = [&] { return R.d->GetNumberOfConnectedPeers(a.name, a.sub); };
        VP_CHECK(waitPeers(f, want), "peers:count", "%s: %s[%d] reports %lu connected peers, %lu are connected; %s", when, a.name.c_str(), a.sub, f(), want, desc.c_str());
        vp::count("peer counts");
    };
    auto flow = [&](ACh& a, const char* when) {
        auto& ch = R.d->GetChannel(a.name, a.sub);
        size_t have = 0;
        for (auto& e : a.ends) { have += bool(e.peer); }
        if (!have) { return; }
        if (a.type == "pull") {
            uint64_t tag = r.next();
            set<size_t> want, got;
            for (size_t j = 0; j < a.ends.size(); ++j) {
                if (!a.ends[j].peer) { continue; }
                want.insert(j);
                auto m = a.ends[j].peer->NewMessage(16);
                uint64_t x[2] = {tag, j};
                memcpy(m->GetData(), x, 16);
                auto s = a.ends[j].peer->Send(m, 15000);
                VP_CHECK(s >= 0, "endpoint:unreachable", "%s: nothing can be sent to endpoint %zu of %s[%d] (%lld); %s", when, j, a.name.c_str(), a.sub, (long long)s, desc.c_str());
            }
            double t0 = vp::now();
            while (got != want && vp::now() - t0 < 15) {
                auto m = ch.NewMessage();
                if (ch.Receive(m, 200) == 16) { uint64_t x[2]; memcpy(x, m->GetData(), 16); if (x[0] == tag) { got.insert(x[1]); } }
            }
            VP_CHECK(got == want, "endpoint:unreachable", "%s: messages arrive through %zu of %zu endpoints of %s[%d]; %s", when, got.size(), want.size(), a.name.c_str(), a.sub, desc.c_str());
        } else {
            // round robin over the peers: everyone gets something, sooner or later
            set<size_t> want, got;
            for (size_t j = 0; j < a.ends.size(); ++j) { if (a.ends[j].peer) { want.insert(j); } }
            double t0 = vp::now();
            while (got != want && vp::now() - t0 < 15) {
                auto m = ch.NewMessage(3);
                if (ch.Send(m, 100) < 0) { }
                for (auto j : want) { auto x = a.ends[j].peer->NewMessage(); if (a.ends[j].peer->Receive(x, got.count(j) ? 0 : 20) >= 0) { got.insert(j); } }
            }
            VP_CHECK(got == want, "endpoint:unreachable", "%s: messages leave through %zu of %zu endpoints of %s[%d]; %s", when, got.size(), want.size(), a.name.c_str(), a.sub, desc.c_str());
        }
    };
    for (auto& a : chs) { checkPeers(a, "all peers present"); flow(a, "all peers present"); }
    // peers leave and come back
    int rounds = r.below(3);
    for (int k = 0; k < rounds; ++k) {
        for (auto& a : chs) { for (auto& e : a.ends) { if (e.proto != "inproc" && r.chance(1, 2)) { e.peer.reset(); } } }
        for (auto& a : chs) { checkPeers(a, "some peers left"); }
        for (auto& a : chs) { for (size_t j = 0; j < a.ends.size(); ++j) { auto& e = a.ends[j]; if (!e.peer) { if (e.bind) { connectPeer(a, j); } else { bindPeer(a, e); } } } }
        for (auto& a : chs) { checkPeers(a, "peers returned"); if (r.chance(1, 2)) { flow(a, "peers returned"); } }
    }
    // more than one peer on a bound endpoint
    for (auto& a : chs) {
        vector<unique_ptr<Channel>> extra;
        int have = 0, n = r.below(4);
        for (auto& e : a.ends) { have += e.proto != "inproc"; }
        for (size_t j = 0; j < a.ends.size(); ++j) {
            if (!a.ends[j].bind || a.ends[j].proto == "inproc") { continue; }
            for (int k = 0; k < n; ++k) { auto keep = move(a.ends[j].peer); connectPeer(a, j); extra.push_back(move(a.ends[j].peer)); a.ends[j].peer = move(keep); }
        }
        auto f = [&] { return R.d->GetNumberOfConnectedPeers(a.name, a.sub); };
        VP_CHECK(waitPeers(f, have + extra.size()), "peers:count", "%s[%d] reports %lu connected peers, %zu are connected; %s", a.name.c_str(), a.sub, f(), have + extra.size(), desc.c_str());
        while (!extra.empty() && r.chance(2, 3)) { extra.pop_back(); }
        VP_CHECK(waitPeers(f, have + extra.size()), "peers:count", "%s[%d] reports %lu connected peers, %zu are left; %s", a.name.c_str(), a.sub, f(), have + extra.size(), desc.c_str());
    }
    for (auto& a : chs) { for (auto& e : a.ends) { e.peer.reset(); } }
    R.end();
    VP_CHECK(!R.ep, "endpoint:error", "the device failed; %s", desc.c_str());
    vp::count("endpoints", [&] { size_t n = 0; for (auto& a : chs) { n += a.ends.size(); } return n; }());
    vp::evaluated(vp::hash(desc), true);
    vp::sample(desc);
}

// what cannot be bound or connected
void failCase(uint64_t, vp::Rng& r)
{
    vp::phase("failures");
    Run R;
    string tr = r.chance(1, 2) ? "zeromq" : "shmem";
    int n = 5, base = freeBlock(r, n);
    if (!base) { vp::count("no free ports"); return; }
    vector<unique_ptr<Sock>> occ;
    auto take = [&](int p) { occ.push_back(make_unique<Sock>()); return occ.back()->take(p); };
    string what = r.pick(vector<string>{"fixed", "range", "last", "path", "protocol", "second", "later", "later", "later", "unspecified", "timeout"});
    bool connects = what == "later" || what == "unspecified" || what == "timeout";
    string addr = "tcp://127.0.0.1:" + to_string(base);
    bool autoBind = true;
    if (!connects && !take(base)) { vp::count("no free ports"); return; }
    if (what == "fixed") { autoBind = false; }
    if (what == "range") { for (int i = 1; i < n; ++i) { if (!take(base + i)) { return; } } }
    int freePort = base + 1 + r.below(n - 1);
    if (what == "last") { for (int i = 1; i < n; ++i) { if (base + i != freePort && !take(base + i)) { return; } } }
    if (what == "path") { addr = "ipc:///nonexistent/dir/socket"; }
    if (what == "protocol") { addr = r.chance(1, 2) ? "tcp://127.0.0.1:port" : "tcp://300.1.2.3:5"; autoBind = false; }
    if (what == "second") { addr = tx::address("ipc") + "," + addr; autoBind = false; }
    string bad = r.pick(vector<string>{"tcp://127.0.0.1:port", "tcp://127.0.0.1:"});
    if (r.chance(1, 3)) { bad = tx::address("ipc") + "," + bad; }
    if (what == "later" || what == "timeout") { addr = bad; }
    if (what == "unspecified") { addr = "unspecified"; }
    R.cfg.SetProperty<string>("id", "dev");
    R.cfg.SetProperty<string>("session", R.session);
    R.cfg.SetProperty<string>("transport", tr);
    R.cfg.SetProperty<size_t>("shm-segment-size", 8u << 20);
    R.cfg.SetProperty<int>("init-timeout", what == "timeout" ? 1 : 30);
    auto chan = [&](const string& name, const string& type, const string& method, const string& a, bool ab) {
        string k = "chans." + name + ".0.";
        R.cfg.SetProperty<string>(k + "type", type);
        R.cfg.SetProperty<string>(k + "method", method);
        R.cfg.SetProperty<string>(k + "address", a);
        R.cfg.SetProperty<int>(k + "linger", 0);
        R.cfg.SetProperty<int>(k + "rateLogging", 0);
        R.cfg.SetProperty<int>(k + "portRangeMin", base + 1);
        R.cfg.SetProperty<int>(k + "portRangeMax", base + n - 1);
        R.cfg.SetProperty<bool>(k + "autoBind", ab);
    };
    chan("x", "pull", connects ? "connect" : "bind", addr, autoBind);
    string good = tx::address("ipc");
    if (r.chance(1, 2)) { chan("ok", "pull", r.chance(1, 2) ? "bind" : "connect", good, true); }
    string desc = what + " " + tr + " '" + addr + "'";
    R.start();
    bool ok = R.go(Transition::InitDevice, State::InitializingDevice) && R.go(Transition::CompleteInit, State::Initialized) && R.go(Transition::Bind, State::Bound);
    double t0 = vp::now();
    string newAddr = tx::address("ipc");
    if (ok && connects) {
        if (what != "timeout") {
            while (!R.d->ChangeState(Transition::Connect)) { vp::sleepUs(50); }
            // a few attempts fail, then the configuration is corrected
            vp::sleepMs(r.below(300));
            VP_CHECK(R.d->GetCurrentState() == State::Connecting && !R.done, "failure:not-waiting", "%s: the device does not wait for a valid address but is %s", desc.c_str(), R.d->GetCurrentStateName().c_str());
            if (r.chance(1, 3)) { R.cfg.SetProperty<string>("chans.x.0.address", r.pick(vector<string>{"tcp://127.0.0.1:port", "nonsense", ""})); vp::sleepMs(r.below(150)); }
            R.cfg.SetProperty<string>("chans.x.0.address", newAddr);
            ok = R.wait(State::DeviceReady);
        } else { ok = R.go(Transition::Connect, State::DeviceReady); }
    } else if (ok) { ok = R.go(Transition::Connect, State::DeviceReady); }
    bool want = what == "last" || what == "later" || what == "unspecified";
    string err;
    if (!ok) { R.t.join(); try { if (R.ep) { rethrow_exception(R.ep); } } catch (exception& e) { err = e.what(); } }
    VP_CHECK(ok == want, want ? "failure:unexpected" : "failure:missed", "%s: the device %s %s", desc.c_str(), ok ? "initialized" : "failed:", err.c_str());
    if (!ok) {
        VP_CHECK(R.ep && R.d->GetCurrentState() == State::Error, "failure:state", "%s: the device is in %s after the failure, exception '%s'", desc.c_str(), R.d->GetCurrentStateName().c_str(), err.c_str());
        if (what == "timeout") { double e = vp::now() - t0; VP_CHECK(e > 0.8 && e < 20, "failure:timeout", "%s: gave up after %.1f s with an initialization timeout of 1 s", desc.c_str(), e); }
    } else {
        if (what == "last") {
            string g = R.d->GetChannel("x").GetAddress();
            VP_CHECK(g == "tcp://127.0.0.1:" + to_string(freePort), "failure:last-port", "%s: bound to %s, the only free port is %d", desc.c_str(), g.c_str(), freePort);
        }
        if (connects) {
            auto p = make_unique<Channel>(tx::uniq("peer"), "push", R.d->AddTransport(TransportType(tr)));
            p->GetSocket().SetLinger(0);
            VP_CHECK(p->Bind(newAddr), "failure:peer", "cannot bind %s", newAddr.c_str());
            auto m = p->NewMessage(4);
            VP_CHECK(p->Send(m, 15000) == 4, "failure:unconnected", "%s: nothing can be sent to the device after its address was corrected", desc.c_str());
            auto& c = R.d->GetChannel("x");
            auto x = c.NewMessage();
            VP_CHECK(c.Receive(x, 15000) == 4, "failure:unconnected", "%s: nothing arrives after the address was corrected", desc.c_str());
            VP_CHECK(waitPeers([&] { return c.GetNumberOfConnectedPeers(); }, 1), "failure:peers", "%s: %lu connected peers reported, 1 is connected", desc.c_str(), c.GetNumberOfConnectedPeers());
        }
        R.end();
        VP_CHECK(!R.ep, "failure:error", "%s: the device failed in the end", desc.c_str());
    }
    vp::count("cases: " + what);
    vp::evaluated(vp::hash(what + tr + bad.substr(0, 6)), true);
}
}   // namespace

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    auto& s = vp::S();
    fair::Logger::SetConsoleSeverity(getenv("VP_LOG") ? getenv("VP_LOG") : "nolog");
    s.stallLimit = 100;
    vp::watchdog();
    rlimit rl{65536, 65536};
    if (setrlimit(RLIMIT_NOFILE, &rl) != 0) { getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl); }
    struct sigaction sa{};
    sa.sa_handler = onSig;
    sigaction(SIGUSR1, &sa, nullptr);
    if (s.mode == "poll") { vp::forCases(200, pollCase); }
    else if (s.mode == "time") { vp::forCases(60, timeCase); }
    else if (s.mode == "attach") { vp::forCases(40, attachCase); }
    else { vp::forCases(40, failCase); }
    gNodes.clear();
    return vp::finish();
}
