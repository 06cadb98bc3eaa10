// C01 / C02: transfers. Many small topologies with randomly chosen transport, address kind, pattern, sizes,
// timeouts, EINTR and interrupts; every send and receive is logged and judged offline.
#include "tx.h"

#include <sys/mman.h>

#include <poll.h>
#include <sys/wait.h>

using namespace tx;

namespace
{
const int64_t kTimeout = static_cast<int64_t>(TransferCode::timeout);
const int64_t kInterrupted = static_cast<int64_t>(TransferCode::interrupted);
const int64_t kError = static_cast<int64_t>(TransferCode::error);

// Ground truth of a message: a function of (stream, seq)
struct Spec { std::vector<size_t> sizes; };
uint64_t tagOf(uint64_t stream, uint64_t seq, size_t part) { return stream * 1000003 + seq * 257 + part + 17; }

struct Plan
{
    std::string transport, addr, pattern;
    unsigned nS = 1, nR = 1;
    bool multi = false;
    bool channelApi = false;
    bool senderBinds = true;
    bool hdr = true;         // every message carries an id (needed unless one sender, one receiver)
    int hwm = 1000;
    size_t count = 50;
    int big = 0;
    int blocking = 0;        // use -1 timeouts
    unsigned eintr = 0, perturb = 0;
    bool interrupts = false;
    size_t meta = 0;
    std::string alloc = "rbtree_best_fit";
    bool twoNodes = false;
    uint16_t segS = 0, segR = 0;
    uint64_t contentSeed = 0;
    std::string str() const
    {
        return vp::fmt("%s %s %s %u->%u %s %s%s hwm=%d n=%zu big=%d blk=%d eintr=%u%s%s", transport.c_str(), addr.c_str(), pattern.c_str(), nS, nR, multi ? "multi" : "single",
                       channelApi ? "chan" : "sock", senderBinds ? " snd-binds" : " rcv-binds", hwm, count, big, blocking, eintr, interrupts ? " interrupts" : "", twoNodes ? " two-nodes" : "");
    }
};
constexpr size_t kHdr = 24;
const uint64_t kMagic = 0x56504d5347303031ull;

Spec specOf(const Plan& p, uint64_t stream, uint64_t seq)
{
    vp::Rng r(p.contentSeed + stream * 7919, seq + 1);
    auto sz = [&]() -> size_t {
        switch (r.below(12)) {
            case 0: return 0;
            case 1: return 1;
            case 2: return 29 + r.below(8);      // around the zeromq inline message limit
            case 3: return p.big ? 60000 + r.below(300000) : 3000;
            case 4: return 4096 + r.below(9);
            case 5: return 8190 + r.below(5);
            default: return r.below(400);
        }
    };
    Spec s;
    size_t n = p.multi ? (r.chance(1, 12) ? 30 : 1 + r.below(5)) : 1;
    if (p.multi && p.transport == "shmem" && !p.hdr && r.chance(1, 30)) { n = 0; }
    for (size_t i = 0; i < n; ++i) {
        size_t x = sz();
        if (i == 0 && p.hdr) { x += kHdr; }
        s.sizes.push_back(x);
    }
    return s;
}
void fillPart(const Plan& p, uint64_t stream, uint64_t seq, size_t part, void* d, size_t n)
{
    auto b = static_cast<char*>(d);
    if (part == 0 && p.hdr) {
        uint64_t h[3] = {kMagic, stream, seq};
        memcpy(b, h, kHdr);
        b += kHdr;
        n -= kHdr;
    }
    fill(b, n, tagOf(stream, seq, part));
}
bool checkPart(const Plan& p, uint64_t stream, uint64_t seq, size_t part, const void* d, size_t n)
{
    auto b = static_cast<const char*>(d);
    if (part == 0 && p.hdr) {
        uint64_t h[3] = {kMagic, stream, seq};
        if (n < kHdr || memcmp(b, h, kHdr) != 0) { return false; }
        b += kHdr;
        n -= kHdr;
    }
    return same(b, n, tagOf(stream, seq, part));
}

struct End
{
    std::unique_ptr<Channel> ch;
    SocketPtr sock;
    TransportFactory* f = nullptr;
    Socket& s() { return ch ? ch->GetSocket() : *sock; }
    template<typename M> int64_t send(M& m, int t) { return ch ? ch->Send(m, t) : s().Send(sv(m), t); }
    template<typename M> int64_t recv(M& m, int t) { return ch ? ch->Receive(m, t) : s().Receive(sv(m), t); }
    static MessagePtr& sv(MessagePtr& m) { return m; }
    static Parts::container& sv(Parts& p) { return p.fParts; }
    // tallies of this end
    uint64_t txB = 0, txM = 0, rxB = 0, rxM = 0;
    std::vector<MessagePtr> spare;   // sent messages, to be used again
};

void freeMalloc(void* d, void*) { free(d); }

// one message of the plan, made in one of the ways a user has
MessagePtr makePart(const Plan& p, TransportFactory& f, TransportFactory* other, uint64_t stream, uint64_t seq, size_t part, size_t n, vp::Rng& r)
{
    MessagePtr m;
    switch (r.below(other ? 7 : 6)) {
        case 0: {
            void* d = malloc(n ? n : 1);
            fillPart(p, stream, seq, part, d, n);
            return f.CreateMessage(d, n, freeMalloc, nullptr);
        }
        case 1:
            m = f.CreateMessage(n, Alignment{static_cast<size_t>(8) << r.below(5)});
            break;
        case 2:
            m = f.CreateMessage();
            m->Rebuild(n);
            break;
        case 3: {
            m = f.CreateMessage(n + r.below(50));
            fillPart(p, stream, seq, part, m->GetData(), n);
            m->SetUsedSize(n);
            return m;
        }
        case 4: {
            auto orig = f.CreateMessage(n);
            fillPart(p, stream, seq, part, orig->GetData(), n);
            m = f.CreateMessage();
            m->Copy(*orig);
            return m;
        }
        case 6: m = other->CreateMessage(n); break;   // a message of another transport: the channel converts it
        default: m = f.CreateMessage(n); break;
    }
    fillPart(p, stream, seq, part, m->GetData(), n);
    return m;
}

struct Rx { uint64_t stream = ~0ull, seq = ~0ull; };

// check a received message; id unknown -> expected position given
bool judge(const Plan& p, std::vector<std::pair<const void*, size_t>>& parts, int64_t ret, uint64_t expStream, uint64_t expSeq, Rx& out, const char* who)
{
    int64_t total = 0;
    for (auto& x : parts) { total += static_cast<int64_t>(x.second); }
    VP_CHECK(ret == total, "transfer:return-size", "%s: receive returned %lld, parts sum up to %lld (%s)", who, static_cast<long long>(ret), static_cast<long long>(total), p.str().c_str());
    uint64_t st = expStream, sq = expSeq;
    if (p.hdr) {
        uint64_t h[3] = {0, 0, 0};
        if (parts.empty() || parts[0].second < kHdr) {
            vp::violation("transfer:content", vp::fmt("%s: received a message without header: %zu parts, first %zu bytes (%s)", who, parts.size(), parts.empty() ? 0 : parts[0].second, p.str().c_str()));
            return false;
        }
        memcpy(h, parts[0].first, kHdr);
        if (h[0] != kMagic) { vp::violation("transfer:content", vp::fmt("%s: header destroyed (%s)", who, p.str().c_str())); return false; }
        st = h[1];
        sq = h[2];
    }
    Spec s = specOf(p, st, sq);
    out.stream = st;
    out.seq = sq;
    if (s.sizes.size() != parts.size()) {
        vp::violation("transfer:part-count", vp::fmt("%s: message %llu of %llu has %zu parts, sent with %zu (%s)", who, (unsigned long long)sq, (unsigned long long)st, parts.size(), s.sizes.size(), p.str().c_str()));
        return true;
    }
    for (size_t i = 0; i < parts.size(); ++i) {
        if (parts[i].second != s.sizes[i]) {
            vp::violation("transfer:part-size", vp::fmt("%s: message %llu of %llu part %zu has %zu bytes, sent %zu (%s)", who, (unsigned long long)sq, (unsigned long long)st, i, parts[i].second, s.sizes[i], p.str().c_str()));
        } else if (!checkPart(p, st, sq, i, parts[i].first, parts[i].second)) {
            vp::violation("transfer:content", vp::fmt("%s: message %llu of %llu part %zu (%zu bytes) differs (%s)", who, (unsigned long long)sq, (unsigned long long)st, i, parts[i].second, p.str().c_str()));
        }
    }
    return true;
}

int pickTimeout(const Plan& p, vp::Rng& r, bool mayBlock)
{
    if (mayBlock && p.blocking && r.chance(1, 2)) { return -1; }
    switch (r.below(6)) {
        case 0: return 0;
        case 1: return 1;
        case 2: return 250;
        default: return static_cast<int>(1 + r.below(30));
    }
}

struct Shared
{
    std::atomic<uint64_t> sent{0}, received{0};
    std::atomic<bool> giveUp{false};
    std::atomic<uint64_t> beat{0};
};

// returns false if given up
bool sendOne(const Plan& p, End& e, TransportFactory* other, uint64_t stream, uint64_t seq, vp::Rng& r, Shared& sh, const char* who, const std::function<void()>& onFail = {})
{
    Spec s = specOf(p, stream, seq);
    int64_t total = 0;
    for (auto x : s.sizes) { total += static_cast<int64_t>(x); }
    MessagePtr m;
    Parts parts;
    for (size_t i = 0; i < s.sizes.size(); ++i) {
        MessagePtr x;
        if (!e.spare.empty() && r.chance(1, 2)) {
            // the object of an earlier message, which may not have been received yet
            x = std::move(e.spare.back());
            e.spare.pop_back();
            size_t n = s.sizes[i];
            if (r.chance(1, 4)) {
                void* d = malloc(n ? n : 1);
                fillPart(p, stream, seq, i, d, n);
                x->Rebuild(d, n, freeMalloc, nullptr);
            } else {
                if (r.chance(1, 3)) { x->Rebuild(n, Alignment{static_cast<size_t>(8) << r.below(5)}); } else { x->Rebuild(n); }
                fillPart(p, stream, seq, i, x->GetData(), n);
            }
            vp::count("objects_reused");
        } else { x = makePart(p, *e.f, e.ch ? other : nullptr, stream, seq, i, s.sizes[i], r); }
        if (p.multi) { parts.AddPart(std::move(x)); } else { m = std::move(x); }
    }
    while (true) {
        int t = pickTimeout(p, r, true);
        int64_t ret = p.multi ? e.send(parts, t) : e.send(m, t);
        sh.beat.fetch_add(1);
        vp::tick();
        if (ret >= 0) {
            VP_CHECK(ret == total, "transfer:send-return", "%s: send returned %lld, payload is %lld (%s)", who, static_cast<long long>(ret), static_cast<long long>(total), p.str().c_str());
            e.txB += static_cast<uint64_t>(total);
            ++e.txM;
            sh.sent.fetch_add(1);
            if (e.spare.size() < 8) {
                if (p.multi) { for (auto& x : parts) { if (x && r.chance(1, 2)) { e.spare.push_back(std::move(x)); } } }
                else if (m && r.chance(2, 3)) { e.spare.push_back(std::move(m)); }
            }
            return true;
        }
        if (ret == kTimeout) {
            vp::count("send_timeouts");
            VP_CHECK(t >= 0, "transfer:timeout-of-blocking", "%s: a send without timeout returned the timeout code (%s)", who, p.str().c_str());
        } else if (ret == kInterrupted) {
            vp::count("send_interrupted");
            VP_CHECK(p.interrupts, "transfer:interrupted-unasked", "%s: send returned interrupted, nobody interrupted (%s)", who, p.str().c_str());
            vp::sleepUs(200);
        } else { vp::violation("transfer:send-error", vp::fmt("%s: send returned %lld (%s)", who, static_cast<long long>(ret), p.str().c_str())); return false; }
        // not sent: the message is intact
        bool ok = p.multi ? parts.Size() == s.sizes.size() : static_cast<bool>(m);
        for (size_t i = 0; ok && i < s.sizes.size(); ++i) {
            Message* q = p.multi ? &parts[i] : m.get();
            ok = q && q->GetSize() == s.sizes[i] && (s.sizes[i] == 0 || checkPart(p, stream, seq, i, q->GetData(), q->GetSize()));
        }
        VP_CHECK(ok, "transfer:failed-send-damages", "%s: message differs after a send that returned %lld (%s)", who, static_cast<long long>(ret), p.str().c_str());
        VP_CHECK(e.s().GetMessagesTx() == e.txM && e.s().GetBytesTx() == e.txB, "transfer:failed-send-counters", "%s: counters moved by a send that returned %lld (%s)", who, static_cast<long long>(ret), p.str().c_str());
        if (onFail) { onFail(); }   // a pair: the peer may wait for us to receive
        if (sh.giveUp) { return false; }
    }
}

// >=0: received, else code
int64_t recvOne(const Plan& p, End& e, TransportFactory* other, int t, MessagePtr& reuse, Parts& parts, vp::Rng& r, Shared& sh, std::vector<std::pair<const void*, size_t>>& view, const char* who)
{
    view.clear();
    int64_t ret;
    if (p.multi) {
        parts.Clear();
        ret = e.recv(parts, t);
        if (ret >= 0) { for (auto& x : parts) { view.push_back({x->GetData(), x->GetSize()}); } }
        else { VP_CHECK(parts.Size() == 0, "transfer:failed-receive-parts", "%s: a receive that returned %lld left %zu parts (%s)", who, static_cast<long long>(ret), parts.Size(), p.str().c_str()); }
    } else {
        switch (r.below(4)) {   // fresh, sized, used
            case 0: reuse = e.f->CreateMessage(); break;
            case 1: reuse = e.f->CreateMessage(1 + r.below(200)); break;
            case 2: if (e.ch && other && r.chance(1, 3)) { reuse = other->CreateMessage(5); } break;
            default: break;
        }
        if (!reuse) { reuse = e.f->CreateMessage(); }
        ret = e.recv(reuse, t);
        if (ret >= 0) { view.push_back({reuse->GetData(), reuse->GetSize()}); }
    }
    sh.beat.fetch_add(1);
    vp::tick();
    if (ret >= 0) {
        e.rxB += static_cast<uint64_t>(ret);
        ++e.rxM;
    } else if (ret == kTimeout) {
        VP_CHECK(t >= 0, "transfer:timeout-of-blocking", "%s: a receive without timeout returned the timeout code (%s)", who, p.str().c_str());
    } else if (ret == kInterrupted) {
        vp::count("receive_interrupted");
        VP_CHECK(p.interrupts, "transfer:interrupted-unasked", "%s: receive returned interrupted, nobody interrupted (%s)", who, p.str().c_str());
        vp::sleepUs(200);
    } else { vp::violation("transfer:receive-error", vp::fmt("%s: receive returned %lld (%s)", who, static_cast<long long>(ret), p.str().c_str())); }
    if (ret < 0) {
        VP_CHECK(e.s().GetMessagesRx() == e.rxM && e.s().GetBytesRx() == e.rxB, "transfer:failed-receive-counters", "%s: counters moved by a receive that returned %lld (%s)", who, static_cast<long long>(ret), p.str().c_str());
    }
    return ret;
}

void counters(const Plan& p, End& e, const char* who)
{
    VP_CHECK(e.s().GetBytesTx() == e.txB && e.s().GetMessagesTx() == e.txM && e.s().GetBytesRx() == e.rxB && e.s().GetMessagesRx() == e.rxM, "transfer:counters",
             "%s: counters tx %lu/%lu rx %lu/%lu, actual tx %llu/%llu rx %llu/%llu (%s)", who, e.s().GetBytesTx(), e.s().GetMessagesTx(), e.s().GetBytesRx(), e.s().GetMessagesRx(),
             (unsigned long long)e.txB, (unsigned long long)e.txM, (unsigned long long)e.rxB, (unsigned long long)e.rxM, p.str().c_str());
}

End makeEnd(const Plan& p, TransportFactory& f, std::shared_ptr<TransportFactory> sf, const std::string& type)
{
    End e;
    e.f = &f;
    std::string name = uniq("c");
    if (p.channelApi) {
        e.ch = std::make_unique<Channel>(name, type, sf);
        e.ch->GetSocket().SetSndBufSize(p.hwm);
        e.ch->GetSocket().SetRcvBufSize(p.hwm);
        e.ch->GetSocket().SetLinger(500);
    } else {
        e.sock = f.CreateSocket(type, name);
        e.sock->SetSndBufSize(p.hwm);
        e.sock->SetRcvBufSize(p.hwm);
        e.sock->SetLinger(500);
    }
    return e;
}

// connect every sender with every receiver; binding side decided by the plan
bool wire(const Plan& p, std::vector<End>& a, std::vector<End>& b, bool aBinds)
{
    auto& bs = aBinds ? a : b;
    auto& cs = aBinds ? b : a;
    for (auto& x : bs) {
        std::string ad = address(p.addr);
        bool ok = x.ch ? x.ch->BindEndpoint(ad) : x.s().Bind(ad);
        if (!ok) { vp::violation("transfer:bind", "bind to " + ad + " failed"); return false; }
        std::string ep = lastEndpoint(x.s());
        for (auto& y : cs) {
            bool ok2 = y.ch ? y.ch->ConnectEndpoint(ep) : y.s().Connect(ep);
            if (!ok2) { vp::violation("transfer:connect", "connect to " + ep + " failed"); return false; }
        }
    }
    return true;
}

Plan makePlan(vp::Rng& r, bool eintrMode)
{
    Plan p;
    p.transport = r.chance(1, 2) ? "zeromq" : "shmem";
    static const std::vector<std::string> A{"tcp", "ipc", "inproc"};
    p.addr = r.pick(A);
    switch (r.below(p.transport == "zeromq" ? 8 : 6)) {
        case 0: case 1: case 2: p.pattern = "push-pull"; break;
        case 3: case 4: p.pattern = "pair"; break;
        case 5: p.pattern = "req-rep"; break;
        default: p.pattern = "pub-sub"; break;
    }
    if (p.pattern == "push-pull") { p.nS = 1 + static_cast<unsigned>(r.below(3)); p.nR = 1 + static_cast<unsigned>(r.below(3)); if (r.chance(1, 3)) { p.nS = p.nR = 1; } }
    if (p.pattern == "req-rep") { p.nS = 1 + static_cast<unsigned>(r.below(3)); }
    if (p.pattern == "pub-sub") { p.nR = 1 + static_cast<unsigned>(r.below(3)); p.nS = 1 + static_cast<unsigned>(r.below(2)); }
    p.multi = r.chance(1, 2);
    p.channelApi = r.chance(1, 2);
    p.senderBinds = r.chance(1, 2);
    p.hdr = !(p.nS == 1 && p.nR == 1 && p.pattern == "push-pull" && r.chance(2, 3));
    if (p.pattern == "pair") { p.hdr = r.chance(1, 2); }
    p.hwm = p.pattern == "pub-sub" || p.pattern == "req-rep" ? 1000 // zeromq drops replies to a full peer
            : static_cast<int>(r.chance(1, 3) ? 1 + r.below(3) : 1000);
    p.count = p.pattern == "req-rep" ? 10 + r.below(25) : 20 + r.below(90);
    p.big = r.chance(1, 5);
    if (p.big) { p.count /= 2; }
    p.blocking = r.chance(1, 3);
    p.eintr = eintrMode ? std::vector<unsigned>{2, 3, 5, 9}[r.below(4)] : (r.chance(1, 4) ? 20 : 0);
    p.perturb = r.chance(1, 2) ? 1 + static_cast<unsigned>(r.below(2)) : 0;
    p.interrupts = r.chance(1, eintrMode ? 3 : 6);
    p.meta = r.chance(1, 4) ? (r.chance(1, 2) ? 1000 : 2048) : 0;
    p.alloc = r.chance(1, 3) ? "simple_seq_fit" : "rbtree_best_fit";
    p.twoNodes = p.addr != "inproc" && r.chance(2, 3);
    if (p.twoNodes && p.transport == "shmem") { p.segS = static_cast<uint16_t>(r.below(2)); p.segR = static_cast<uint16_t>(r.below(2)); }
    p.contentSeed = r.next();
    return p;
}

void flowCase(uint64_t ci, vp::Rng& r, bool eintrMode)
{
    Plan p = makePlan(r, eintrMode);
    vp::phase("transfer flow " + p.transport + " " + p.pattern);
    vp::perturb(0, 1);
    Opt o;
    o.segSize = 64ull << 20;
    o.meta = p.meta;
    o.alloc = p.alloc;
    o.attempts = 4000;
    o.interval = 1;
    o.segId = p.segS;
    auto nodeS = std::make_unique<Node>(p.transport, o);
    std::unique_ptr<Node> nodeR;
    if (p.twoNodes) { o.session = nodeS->o.session; o.segId = p.segR; nodeR = std::make_unique<Node>(p.transport, o); }
    Node& nr = nodeR ? *nodeR : *nodeS;
    Opt oo;
    oo.segSize = 8ull << 20;
    oo.attempts = 4000;
    oo.interval = 1;
    std::unique_ptr<Node> other;
    if (p.channelApi && r.chance(1, 3)) { oo.session = nodeS->o.session + "o"; vp::noteShm(shmem::makeShmIdStr(oo.session)); oo.segSize = 48ull << 20; other = std::make_unique<Node>(p.transport == "zeromq" ? "shmem" : "zeromq", oo); }
    TransportFactory* of = other ? other->f.get() : nullptr;

    std::string tS, tR;
    if (p.pattern == "push-pull") { tS = "push"; tR = "pull"; }
    else if (p.pattern == "pair") { tS = tR = "pair"; }
    else if (p.pattern == "req-rep") { tS = "req"; tR = "rep"; }
    else { tS = "pub"; tR = "sub"; }
    std::vector<End> S, R;
    for (unsigned i = 0; i < p.nS; ++i) { S.push_back(makeEnd(p, *nodeS->f, nodeS->f, tS)); }
    for (unsigned i = 0; i < p.nR; ++i) { R.push_back(makeEnd(p, *nr.f, nr.f, tR)); }
    if (!wire(p, S, R, p.senderBinds)) { return; }

    Shared sh;
    std::vector<std::vector<Rx>> got(p.nR);      // per receiver, in order
    std::vector<std::vector<Rx>> gotS(p.nS);     // replies / the other direction of pair
    const uint64_t total = p.count * p.nS;
    uint64_t expected = total;
    if (p.pattern == "pub-sub") { expected = total * p.nR; }
    std::atomic<unsigned> warm{0}, sendersDone{0};
    std::atomic<bool> stop{false};
    std::vector<char> warmSeen(p.nR * p.nS, 0);

    vp::perturb(p.perturb, r.next());
    vp::resetScheduleHash();
    vp::eintr(p.eintr);
    uint64_t e0 = vp::eintrCount();
    std::vector<std::thread> ts;
    std::vector<uint64_t> seeds;
    for (unsigned i = 0; i < p.nS + p.nR; ++i) { seeds.push_back(r.next()); }
    uint64_t interSeed = r.next();

    for (unsigned i = 0; i < p.nS; ++i) {
        ts.emplace_back([&, i] {
            vp::Rng q(seeds[i]);
            std::string who = vp::fmt("sender %u", i);
            std::vector<std::pair<const void*, size_t>> view;
            MessagePtr reuse;
            Parts parts;
            End& e = S[i];
            if (p.pattern == "pub-sub") {   // wait until everyone is subscribed
                double t0 = vp::now();
                while (warm.load() < p.nR * p.nS && vp::now() - t0 < 20) {
                    auto m = e.f->CreateMessage(16);
                    uint64_t h[2] = {0x5741524dull, i};
                    memcpy(m->GetData(), h, 16);
                    if (p.multi) { Parts w; w.AddPart(std::move(m)); if (e.send(w, 100) >= 0) { e.txB += 16; ++e.txM; } }
                    else { if (e.send(m, 100) >= 0) { e.txB += 16; ++e.txM; } }
                    vp::sleepMs(2);
                    vp::tick();
                }
            }
            if (p.pattern == "pair") {
                // both directions from one thread: send stream 0, receive stream 1
                uint64_t next = 0, in = 0;
                Plan pp = p;
                pp.blocking = 0;
                auto take = [&] {
                    if (in == p.count) { return; }
                    int64_t n = recvOne(p, e, of, static_cast<int>(q.below(10)), reuse, parts, q, sh, view, who.c_str());
                    if (n >= 0) { Rx x; if (judge(p, view, n, 1, in, x, who.c_str())) { gotS[i].push_back(x); } ++in; sh.received.fetch_add(1); }
                    else if (n == kError) { sh.giveUp = true; }
                };
                while ((next < p.count || in < p.count) && !sh.giveUp) {
                    if (next < p.count && (in == p.count || q.chance(1, 2))) {
                        if (!sendOne(pp, e, of, 0, next, q, sh, who.c_str(), take)) { break; }
                        ++next;
                    } else { take(); }
                }
            } else {
                for (uint64_t k = 0; k < p.count; ++k) {
                    if (!sendOne(p, e, of, i, k, q, sh, who.c_str())) { break; }
                    if (p.pattern == "req-rep") {
                        while (!sh.giveUp) {
                            int64_t n = recvOne(p, e, of, pickTimeout(p, q, true), reuse, parts, q, sh, view, who.c_str());
                            if (n >= 0) { Rx x; if (judge(p, view, n, i, k, x, who.c_str())) { gotS[i].push_back(x); } break; }
                            if (n == kError) { break; }
                        }
                    }
                    if (q.chance(1, 20)) { vp::sleepUs(static_cast<long>(q.below(2000))); }
                }
            }
            sendersDone.fetch_add(1);
        });
    }
    for (unsigned i = 0; i < p.nR; ++i) {
        ts.emplace_back([&, i] {
            vp::Rng q(seeds[p.nS + i]);
            std::string who = vp::fmt("receiver %u", i);
            std::vector<std::pair<const void*, size_t>> view;
            MessagePtr reuse;
            Parts parts;
            End& e = R[i];
            uint64_t mine = 0;
            uint64_t next = 0;
            bool sole = p.nR == 1 || p.pattern == "pub-sub";
            Plan pp = p;
            pp.blocking = 0;
            auto take = [&] {
                if (mine == p.count) { return; }
                int64_t n = recvOne(p, e, of, static_cast<int>(q.below(10)), reuse, parts, q, sh, view, who.c_str());
                if (n >= 0) { Rx x; if (judge(p, view, n, 0, mine, x, who.c_str())) { got[i].push_back(x); } ++mine; sh.received.fetch_add(1); }
                else if (n == kError) { sh.giveUp = true; }
            };
            while (!sh.giveUp) {
                if (p.pattern == "pair") {
                    if (mine == p.count && next == p.count) { break; }
                    if (next < p.count && (mine == p.count || q.chance(1, 2))) {
                        if (!sendOne(pp, e, of, 1, next, q, sh, who.c_str(), take)) { break; }
                        ++next;
                        continue;
                    }
                    take();
                    continue;
                }
                if (p.pattern == "pub-sub" ? mine == total : sh.received.load() >= expected) { break; }
                int t = pickTimeout(p, q, sole);
                int64_t n = recvOne(p, e, of, t, reuse, parts, q, sh, view, who.c_str());
                if (n == kError) { break; }
                if (n < 0) { if (!q.chance(1, 4)) { vp::sleepUs(static_cast<long>(q.below(300))); } continue; }
                if (p.pattern == "pub-sub" && view.size() == 1 && view[0].second == 16) {
                    uint64_t h[2];
                    memcpy(h, view[0].first, 16);
                    if (h[0] == 0x5741524dull && h[1] < p.nS) { if (!warmSeen[i * p.nS + h[1]]) { warmSeen[i * p.nS + h[1]] = 1; warm.fetch_add(1); } continue; }
                }
                Rx x;
                if (judge(p, view, n, 0, mine, x, who.c_str())) { got[i].push_back(x); }
                ++mine;
                if (p.pattern == "req-rep") {
                    // answer with the content of the request
                    bool ok = true;
                    if (x.stream != ~0ull) { ok = sendOne(p, e, of, x.stream, x.seq, q, sh, who.c_str()); }
                    if (!ok) { break; }
                }
                sh.received.fetch_add(1);
                if (q.chance(1, 25)) { vp::sleepUs(static_cast<long>(q.below(3000))); }
            }
        });
    }
    std::thread inter;
    if (p.interrupts) {
        inter = std::thread([&] {
            vp::Rng q(interSeed);
            while (!stop) {
                vp::sleepUs(static_cast<long>(q.below(8000)));
                auto& f = (nodeR && q.chance(1, 2)) ? *nodeR->f : *nodeS->f;
                f.Interrupt();
                vp::sleepUs(static_cast<long>(q.below(3000)));
                f.Resume();
            }
            nodeS->f->Resume();
            nr.f->Resume();
        });
    }
    // progress supervision: nothing moved for long -> lost messages
    std::thread sup([&] {
        uint64_t last = ~0ull;
        double idle = 0;
        while (!stop) {
            vp::sleepMs(20);
            uint64_t n = sh.sent.load() * 1000003 + sh.received.load() + sendersDone.load();
            if (n != last) { last = n; idle = 0; continue; }
            idle += 0.02;
            if (idle > 12) { sh.giveUp = true; break; }
        }
    });
    // threads in a transfer without timeout end when interrupted
    std::thread rescue([&] {
        while (!stop) { vp::sleepMs(20); if (sh.giveUp) { vp::sleepMs(300); p.interrupts = true; nodeS->f->Interrupt(); nr.f->Interrupt(); break; } }
    });
    for (auto& t : ts) { t.join(); }
    stop = true;
    sup.join();
    rescue.join();
    if (inter.joinable()) { inter.join(); }
    nodeS->f->Resume();
    nr.f->Resume();
    vp::interleaving(vp::scheduleHash());
    vp::perturb(0, 1);
    vp::eintr(0);
    vp::count("eintr_injected", vp::eintrCount() - e0);
    vp::count("messages_sent", sh.sent.load());
    vp::count("messages_received", sh.received.load());

    if (sh.giveUp) {
        vp::violation("transfer:lost", vp::fmt("%s: no progress for 12 s: sent %llu, received %llu of %llu", p.str().c_str(), (unsigned long long)sh.sent.load(), (unsigned long long)sh.received.load(), (unsigned long long)expected));
    } else {
        // nothing more arrives
        for (unsigned i = 0; i < p.nR; ++i) {
            if (p.pattern == "req-rep") { continue; }
            Parts parts;
            auto m = nr.f->CreateMessage();
            int64_t n = p.multi ? R[i].recv(parts, r.chance(1, 4) ? 5 : 0) : R[i].recv(m, r.chance(1, 4) ? 5 : 0);
            if (n >= 0 && p.pattern == "pub-sub" && n == 16) { R[i].rxB += 16; ++R[i].rxM; --i; continue; }   // a late warm-up
            VP_CHECK(n < 0, "transfer:extra", "receiver %u got one more message of %lld bytes (%s)", i, static_cast<long long>(n), p.str().c_str());
        }
        // exactly once, in order per sender and receiver
        std::map<uint64_t, std::map<uint64_t, unsigned>> seen;
        for (unsigned i = 0; i < p.nR; ++i) {
            std::map<uint64_t, uint64_t> last;
            for (auto& x : got[i]) {
                auto it = last.find(x.stream);
                VP_CHECK(it == last.end() || it->second < x.seq, "transfer:order", "receiver %u got message %llu of sender %llu after %llu (%s)", i, (unsigned long long)x.seq, (unsigned long long)x.stream, (unsigned long long)(it == last.end() ? 0 : it->second), p.str().c_str());
                last[x.stream] = x.seq;
                ++seen[x.stream][x.seq];
            }
        }
        unsigned want = p.pattern == "pub-sub" ? p.nR : 1;
        for (unsigned i = 0; i < p.nS; ++i) {
            for (uint64_t k = 0; k < p.count; ++k) {
                unsigned n = seen[i].count(k) ? seen[i][k] : 0;
                VP_CHECK(n == want, "transfer:exactly-once", "message %llu of sender %u was received %u times, should be %u (%s)", (unsigned long long)k, i, n, want, p.str().c_str());
            }
        }
        if (p.pattern == "pair" || p.pattern == "req-rep") {
            for (unsigned i = 0; i < p.nS; ++i) {
                VP_CHECK(gotS[i].size() == p.count, "transfer:exactly-once-back", "%zu messages came back to %u, should be %zu (%s)", gotS[i].size(), i, p.count, p.str().c_str());
                for (size_t k = 0; k < gotS[i].size(); ++k) {
                    uint64_t st = p.pattern == "pair" ? 1 : i;
                    VP_CHECK(gotS[i][k].stream == st && gotS[i][k].seq == k, "transfer:order-back", "sender %u: message %zu coming back is %llu of %llu (%s)", i, k, (unsigned long long)gotS[i][k].seq, (unsigned long long)gotS[i][k].stream, p.str().c_str());
                }
            }
        }
    }
    for (unsigned i = 0; i < p.nS; ++i) { counters(p, S[i], "sender"); }
    for (unsigned i = 0; i < p.nR; ++i) { counters(p, R[i], "receiver"); }
    // close without waiting for linger
    for (auto& e : S) { e.s().SetLinger(0); }
    for (auto& e : R) { e.s().SetLinger(0); }
    vp::evaluated(vp::mix(vp::hash(p.str()), p.contentSeed), sh.received.load() > 0);
    vp::sample(p.str(), 4);
    (void)ci;
}

// ---------------------------------------------------------------- two processes
std::string rd(int fd)
{
    std::string s;
    char c;
    while (read(fd, &c, 1) == 1 && c != '\n') { s += c; }
    return s;
}

void procCase(uint64_t, vp::Rng& r, const char* self)
{
    Plan p;
    p.transport = r.chance(1, 3) ? "zeromq" : "shmem";
    p.addr = r.chance(1, 2) ? "tcp" : "ipc";
    p.pattern = "push-pull";
    p.multi = r.chance(1, 2);
    p.hdr = r.chance(1, 2);
    p.count = 30 + r.below(60);
    p.big = r.chance(1, 3);
    p.contentSeed = r.next() >> 1;
    p.channelApi = false;
    vp::phase("transfer processes " + p.transport);
    Opt o;
    o.attempts = 4000;
    o.interval = 1;
    o.segId = static_cast<uint16_t>(r.below(2));
    Node n(p.transport, o);
    End e = makeEnd(p, *n.f, n.f, "pull");
    std::string ad = address(p.addr);
    if (!e.s().Bind(ad)) { vp::violation("transfer:bind", "bind to " + ad + " failed"); return; }
    std::string ep = lastEndpoint(e.s());
    int pin[2];
    if (pipe(pin)) { return; }
    std::string cs = std::to_string(p.contentSeed), cnt = std::to_string(p.count), seg = std::to_string(r.below(2)), sd = std::to_string(r.next() >> 1);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(pin[0], 0);
        close(pin[1]);
        std::vector<std::string> a{self, "--mode=procchild", "--out=" + vp::S().out + ".child", "--ep=" + ep, "--session=" + n.o.session, "--transport=" + p.transport, "--multi=" + std::to_string(p.multi),
                                   "--hdr=" + std::to_string(p.hdr), "--big=" + std::to_string(p.big), "--cs=" + cs, "--count=" + cnt, "--seg=" + seg, "--seed=" + sd, "--stall=60"};
        std::vector<char*> v;
        for (auto& x : a) { v.push_back(const_cast<char*>(x.c_str())); }
        v.push_back(nullptr);
        execv(self, v.data());
        _exit(99);
    }
    close(pin[0]);
    Shared sh;
    vp::Rng q(r.next());
    MessagePtr reuse;
    Parts parts;
    std::vector<std::pair<const void*, size_t>> view;
    uint64_t mine = 0;
    double t0 = vp::now();
    while (mine < p.count && vp::now() - t0 < 60) {
        int64_t k = recvOne(p, e, nullptr, 100, reuse, parts, q, sh, view, "process");
        if (k == kError) { break; }
        if (k < 0) { continue; }
        t0 = vp::now();
        Rx x;
        judge(p, view, k, 0, mine, x, "process");
        VP_CHECK(x.seq == mine, "transfer:order", "message %llu arrived as number %llu (%s)", (unsigned long long)x.seq, (unsigned long long)mine, p.str().c_str());
        ++mine;
    }
    VP_CHECK(mine == p.count, "transfer:lost", "%llu of %zu messages arrived from the other process (%s)", (unsigned long long)mine, p.count, p.str().c_str());
    auto m = n.f->CreateMessage();
    parts.Clear();
    int64_t k = p.multi ? e.recv(parts, 5) : e.recv(m, 5);
    VP_CHECK(k < 0, "transfer:extra", "one more message of %lld bytes (%s)", static_cast<long long>(k), p.str().c_str());
    counters(p, e, "receiver");
    close(pin[1]);   // tells the child to leave
    int st = 0;
    waitpid(pid, &st, 0);
    VP_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "transfer:sender-process", "the sending process ended with status %x (%s)", st, p.str().c_str());
    vp::count("messages_received", mine);
    vp::evaluated(vp::mix(vp::hash(p.str()), p.contentSeed), mine > 0);
    vp::sample("processes " + p.str(), 2);
}

int procChild()
{
    Plan p;
    p.transport = vp::optS("transport", "");
    p.multi = vp::optU("multi", 0);
    p.hdr = vp::optU("hdr", 0);
    p.big = static_cast<int>(vp::optU("big", 0));
    p.contentSeed = vp::optU("cs", 0);
    p.count = vp::optU("count", 0);
    p.pattern = "push-pull";
    Opt o;
    o.session = vp::optS("session", "");
    o.attempts = 4000;
    o.interval = 1;
    o.segId = static_cast<uint16_t>(vp::optU("seg", 0));
    {
        Node n(p.transport, o);
        End e = makeEnd(p, *n.f, n.f, "push");
        if (!e.s().Connect(vp::optS("ep", ""))) { return 3; }
        Shared sh;
        vp::Rng q(vp::S().seed);
        for (uint64_t k = 0; k < p.count; ++k) { if (!sendOne(p, e, nullptr, 0, k, q, sh, "process")) { return 4; } }
        counters(p, e, "sending process");
        rd(0);
    }
    return vp::S().violations.empty() ? 0 : 5;
}

// ---------------------------------------------------------------- C02: timeouts
std::atomic<uint64_t> gSignals{0};
void onSig(int) { gSignals.fetch_add(1, std::memory_order_relaxed); }

// one socket pair in a given condition; measures what one blocked transfer returns and when
void timeoutCase(uint64_t, vp::Rng& r0)
{
    vp::phase("transfer timeouts");
    struct sigaction sa{};
    sa.sa_handler = onSig;
    sigaction(SIGUSR1, &sa, nullptr);
    unsigned N = 12;
    std::vector<uint64_t> seeds;
    for (unsigned i = 0; i < N; ++i) { seeds.push_back(r0.next()); }
    bool signals = r0.chance(1, 2);
    vp::eintr(0);
    std::atomic<unsigned> done{0};
    std::vector<std::thread> ts;
    for (unsigned i = 0; i < N; ++i) {
        ts.emplace_back([&, i] {
            vp::Rng r(seeds[i]);
            std::string tr = r.chance(1, 2) ? "zeromq" : "shmem";
            Opt o;
            o.segSize = 4ull << 20;
            Node n(tr, o);
            bool multi = r.chance(1, 2), chan = r.chance(1, 2);
            unsigned what = static_cast<unsigned>(r.below(4));   // 0 receive, nobody there; 1 receive from idle peer; 2 send, nobody there; 3 send, queue full
            Plan p;
            p.transport = tr;
            p.channelApi = chan;
            p.hwm = 1;
            bool send = what >= 2;
            End e = makeEnd(p, *n.f, n.f, send ? "push" : "pull");
            End peer;
            if (what == 1 || what == 3) {
                peer = makeEnd(p, *n.f, n.f, send ? "pull" : "push");
                std::string ad = address("inproc");
                e.s().Bind(ad);
                peer.s().Connect(ad);
            }
            auto mk = [&](Parts& ps, MessagePtr& m, uint64_t k) {
                ps.Clear();
                if (multi) { for (int j = 0; j < 3; ++j) { auto x = n.f->CreateMessage(100 + static_cast<size_t>(j)); fill(x->GetData(), x->GetSize(), k * 3 + static_cast<uint64_t>(j)); ps.AddPart(std::move(x)); } }
                else { m = n.f->CreateMessage(100); fill(m->GetData(), 100, k * 3); }
            };
            Parts ps;
            MessagePtr m;
            uint64_t queued = 0;
            if (what == 3) {
                for (; queued < 1000; ++queued) { mk(ps, m, queued); int64_t x = multi ? e.send(ps, 0) : e.send(m, 0); if (x < 0) { break; } }
                VP_CHECK(queued < 1000, "transfer:hwm", "the send queue of size 1 took 1000 messages");
            }
            static const std::vector<int> T{0, 0, 1, 20, 50, 99, 100, 101, 130, 200, 230, 320};
            for (unsigned k = 0; k < 5; ++k) {
                int t = r.pick(T);
                if (send) { mk(ps, m, queued); } else { ps.Clear(); m = n.f->CreateMessage(); }
                auto mt = e.s().GetMessagesTx(), mr = e.s().GetMessagesRx(), bt = e.s().GetBytesTx(), br = e.s().GetBytesRx();
                double a = vp::now();
                int64_t x = send ? (multi ? e.send(ps, t) : e.send(m, t)) : (multi ? e.recv(ps, t) : e.recv(m, t));
                double el = (vp::now() - a) * 1000;
                vp::tick();
                std::string d = vp::fmt("%s %s %s timeout %d: returned %lld after %.1f ms%s", tr.c_str(), multi ? "multi-part" : "single", what == 0 ? "receive, no peer" : what == 1 ? "receive, idle peer" : what == 2 ? "send, no peer" : "send, full queue",
                                        t, static_cast<long long>(x), el, signals ? " (under signals)" : "");
                VP_CHECK(x == kTimeout, "transfer:timeout-code", "%s", d.c_str());
                // zeromq measures in whole milliseconds
                VP_CHECK(t == 0 || el >= t - 4, "transfer:timeout-early", "%s", d.c_str());
                VP_CHECK(el <= t + 2000, "transfer:timeout-late", "%s", d.c_str());
                if (el > t + 300) { vp::count("slow_timeouts"); }
                VP_CHECK(e.s().GetMessagesTx() == mt && e.s().GetMessagesRx() == mr && e.s().GetBytesTx() == bt && e.s().GetBytesRx() == br, "transfer:timeout-counters", "counters moved: %s", d.c_str());
                if (send) {
                    bool ok = multi ? ps.Size() == 3 : (m && m->GetSize() == 100 && same(m->GetData(), 100, queued * 3));
                    for (size_t j = 0; ok && multi && j < 3; ++j) { ok = ps[j].GetSize() == 100 + j && same(ps[j].GetData(), 100 + j, queued * 3 + j); }
                    VP_CHECK(ok, "transfer:failed-send-damages", "message differs after: %s", d.c_str());
                }
                vp::count("timeouts_measured");
            }
            if (what == 3) {   // everything queued plus the message that could not be sent arrive once, in order
                uint64_t got = 0;
                bool pend = true;
                while (true) {
                    Parts q;
                    auto c = n.f->CreateMessage();
                    int64_t x = multi ? peer.recv(q, 100) : peer.recv(c, 100);
                    vp::tick();
                    if (x < 0) { break; }
                    bool ok = multi ? q.Size() == 3 && same(q[0].GetData(), 100, got * 3) && same(q[2].GetData(), 102, got * 3 + 2) : c->GetSize() == 100 && same(c->GetData(), 100, got * 3);
                    VP_CHECK(ok, "transfer:content", "message %llu after timeouts differs (%s)", (unsigned long long)got, tr.c_str());
                    ++got;
                    if (pend) { int64_t y = multi ? e.send(ps, 500) : e.send(m, 500); VP_CHECK(y >= 0, "transfer:resend", "sending a message again after timeouts returned %lld (%s)", static_cast<long long>(y), tr.c_str()); pend = false; }
                }
                VP_CHECK(got == queued + 1, "transfer:exactly-once", "%llu of %llu messages arrived after timeouts (%s %s)", (unsigned long long)got, (unsigned long long)queued + 1, tr.c_str(), multi ? "multi" : "single");
            }
            e.s().SetLinger(0);
            if (peer.f) { peer.s().SetLinger(0); }
            vp::evaluated(vp::mix(vp::hash(tr), what * 8 + multi * 2 + chan + seeds[i]));
            done.fetch_add(1);
        });
    }
    if (signals) {   // real signals interrupting system calls
        vp::Rng q(r0.next());
        std::vector<pthread_t> h;
        for (auto& t : ts) { h.push_back(t.native_handle()); }
        while (done.load() < N) { if (done.load() < N) { unsigned k = static_cast<unsigned>(q.below(N)); pthread_kill(h[k], SIGUSR1); } vp::sleepUs(static_cast<long>(q.below(1500))); }
    }
    for (auto& t : ts) { t.join(); }
    vp::count("signals_handled", gSignals.exchange(0));
}

// a blocking transfer proceeds when it can, and not before; interruption ends it; resume makes it work again
void blockCase(uint64_t, vp::Rng& r)
{
    vp::phase("transfer interrupt");
    std::string tr = r.chance(1, 2) ? "zeromq" : "shmem";
    bool signals = r.chance(1, 3);
    Opt o;
    o.segSize = 4ull << 20;
    Node n(tr, o);
    o.session = n.o.session;
    Node bystander(tr, o);   // another device of the session, not interrupted
    struct L { End e, peer; bool send = false, multi = false; std::atomic<int> st{0}; int64_t ret = 0; int t = -1; MessagePtr m; Parts ps; uint64_t queued = 0; };
    size_t N = 3 + r.below(3);
    std::vector<std::unique_ptr<L>> ls;
    auto mk = [&](TransportFactory& f, L& l, uint64_t k) {
        l.ps.Clear();
        for (int j = 0; j < 2; ++j) {
            auto x = f.CreateMessage(64);
            fill(x->GetData(), 64, k * 2 + static_cast<uint64_t>(j));
            if (l.multi) { l.ps.AddPart(std::move(x)); } else { l.m = std::move(x); break; }
        }
    };
    Plan p;
    p.transport = tr;
    p.hwm = 1;
    for (size_t i = 0; i <= N; ++i) {   // the last one belongs to the bystander
        auto l = std::make_unique<L>();
        Node& nd = i == N ? bystander : n;
        l->send = r.chance(1, 2);
        l->multi = r.chance(1, 2);
        l->t = r.chance(2, 3) || i == N ? -1 : 20000;
        p.channelApi = r.chance(1, 2);
        l->e = makeEnd(p, *nd.f, nd.f, l->send ? "push" : "pull");
        l->peer = makeEnd(p, *nd.f, nd.f, l->send ? "pull" : "push");
        std::string ad = address("inproc");
        l->e.s().Bind(ad);
        l->peer.s().Connect(ad);
        if (l->send) { for (; l->queued < 1000; ++l->queued) { mk(*nd.f, *l, l->queued); if ((l->multi ? l->e.send(l->ps, 0) : l->e.send(l->m, 0)) < 0) { break; } } }
        ls.push_back(std::move(l));
    }
    auto start = [&](L& l, TransportFactory& f) {
        l.st = 1;
        if (l.send) { mk(f, l, l.queued); } else { l.ps.Clear(); l.m = f.CreateMessage(); }
        return std::thread([&l] {
            int64_t x = l.send ? (l.multi ? l.e.send(l.ps, l.t) : l.e.send(l.m, l.t)) : (l.multi ? l.e.recv(l.ps, l.t) : l.e.recv(l.m, l.t));
            l.ret = x;
            l.st = 2;
        });
    };
    std::vector<std::thread> ts;
    for (size_t i = 0; i <= N; ++i) { ts.push_back(start(*ls[i], i == N ? *bystander.f : *n.f)); }
    std::vector<pthread_t> h;
    for (auto& t : ts) { h.push_back(t.native_handle()); }
    double t0 = vp::now(), wait = 0.01 * static_cast<double>(r.below(26));
    struct sigaction sa{};
    sa.sa_handler = onSig;
    sigaction(SIGUSR1, &sa, nullptr);
    while (vp::now() - t0 < wait) { if (signals) { pthread_kill(h[r.below(h.size())], SIGUSR1); } vp::sleepMs(1); }
    for (size_t i = 0; i <= N; ++i) { VP_CHECK(ls[i]->st == 1, "transfer:not-blocking", "%s %s %s with timeout %d returned %lld although it cannot proceed", tr.c_str(), ls[i]->multi ? "multi-part" : "single", ls[i]->send ? "send" : "receive", ls[i]->t, static_cast<long long>(ls[i]->ret)); }
    n.f->Interrupt();
    double ti = vp::now();
    auto waitAll = [&](size_t cnt) { double a = vp::now(); while (vp::now() - a < 5) { size_t d = 0; for (size_t i = 0; i < cnt; ++i) { d += ls[i]->st == 2; } if (d == cnt) { return; } vp::sleepMs(1); } };
    waitAll(N);
    for (size_t i = 0; i < N; ++i) {
        auto& l = *ls[i];
        VP_CHECK(l.st == 2, "transfer:interrupt-ignored", "%s %s %s (timeout %d) still blocked %.1f s after Interrupt", tr.c_str(), l.multi ? "multi-part" : "single", l.send ? "send" : "receive", l.t, vp::now() - ti);
        if (l.st == 2) { VP_CHECK(l.ret == kInterrupted, "transfer:interrupt-code", "%s %s %s (timeout %d) returned %lld after Interrupt", tr.c_str(), l.multi ? "multi-part" : "single", l.send ? "send" : "receive", l.t, static_cast<long long>(l.ret)); }
    }
    VP_CHECK(ls[N]->st == 1, "transfer:interrupt-other", "%s: a transfer of another device returned %lld when this one was interrupted", tr.c_str(), static_cast<long long>(ls[N]->ret));
    bool stuck = false;
    for (size_t i = 0; i < N; ++i) { if (ls[i]->st == 2) { ts[i].join(); } else { stuck = true; } }
    if (stuck) { vp::flush(true); _exit(0); }
    // every later transfer that would block is interrupted as well
    for (size_t i = 0; i < N; ++i) {
        auto& l = *ls[i];
        int t = std::vector<int>{-1, 300, 0}[r.below(3)];
        double a = vp::now();
        int64_t x = l.send ? (l.multi ? l.e.send(l.ps, t) : l.e.send(l.m, t)) : (l.multi ? l.e.recv(l.ps, t) : l.e.recv(l.m, t));
        vp::tick();
        VP_CHECK(x == kInterrupted, "transfer:interrupt-later", "%s %s while interrupted (timeout %d) returned %lld after %.0f ms", tr.c_str(), l.send ? "send" : "receive", t, static_cast<long long>(x), (vp::now() - a) * 1000);
        VP_CHECK(vp::now() - a < 3, "transfer:interrupt-later-slow", "%s %s while interrupted took %.1f s", tr.c_str(), l.send ? "send" : "receive", vp::now() - a);
    }
    n.f->Resume();
    for (size_t i = 0; i < N; ++i) {
        ls[i]->st = 1;
        auto* l = ls[i].get();
        bool keep = l->send;   // the message that was interrupted is sent now
        if (!keep) { l->ps.Clear(); l->m = n.f->CreateMessage(); }
        ts[i] = std::thread([l] {
            int64_t x = l->send ? (l->multi ? l->e.send(l->ps, l->t) : l->e.send(l->m, l->t)) : (l->multi ? l->e.recv(l->ps, l->t) : l->e.recv(l->m, l->t));
            l->ret = x;
            l->st = 2;
        });
    }
    vp::sleepMs(static_cast<long>(r.below(130)));
    for (size_t i = 0; i <= N; ++i) { VP_CHECK(ls[i]->st == 1, "transfer:resume", "%s %s after Resume returned %lld although it cannot proceed", tr.c_str(), ls[i]->send ? "send" : "receive", static_cast<long long>(ls[i]->ret)); }
    // now let them proceed
    for (size_t i = 0; i <= N; ++i) {
        auto& l = *ls[i];
        auto& f = i == N ? *bystander.f : *n.f;
        if (l.send) {
            uint64_t got = 0;
            for (; got < l.queued + 1; ++got) {
                Parts q;
                auto c = f.CreateMessage();
                int64_t x = l.multi ? l.peer.recv(q, 5000) : l.peer.recv(c, 5000);
                vp::tick();
                if (x < 0) { break; }
                bool ok = l.multi ? q.Size() == 2 && same(q[0].GetData(), 64, got * 2) && same(q[1].GetData(), 64, got * 2 + 1) : c->GetSize() == 64 && same(c->GetData(), 64, got * 2);
                VP_CHECK(ok, "transfer:content", "message %llu differs after interrupt (%s)", (unsigned long long)got, tr.c_str());
            }
            VP_CHECK(got == l.queued + 1, "transfer:exactly-once", "%llu of %llu messages arrived after interrupt and resume (%s)", (unsigned long long)got, (unsigned long long)l.queued + 1, tr.c_str());
        } else {
            L tmp;
            tmp.multi = l.multi;
            mk(f, tmp, 7);
            int64_t x = l.multi ? l.peer.send(tmp.ps, 5000) : l.peer.send(tmp.m, 5000);
            VP_CHECK(x >= 0, "transfer:send-after-resume", "send returned %lld", static_cast<long long>(x));
        }
    }
    waitAll(N + 1);
    for (size_t i = 0; i <= N; ++i) {
        auto& l = *ls[i];
        VP_CHECK(l.st == 2 && l.ret >= 0, "transfer:after-resume", "%s %s %s after Resume: %s, returned %lld", tr.c_str(), l.multi ? "multi-part" : "single", l.send ? "send" : "receive", l.st == 2 ? "done" : "still blocked", static_cast<long long>(l.ret));
        if (l.st != 2) { vp::flush(true); _exit(0); }
        ts[i].join();
        if (!l.send) {
            bool ok = l.multi ? l.ps.Size() == 2 && same(l.ps[0].GetData(), 64, 14) && same(l.ps[1].GetData(), 64, 15) : l.m->GetSize() == 64 && same(l.m->GetData(), 64, 14);
            VP_CHECK(ok, "transfer:content", "message received after interrupt differs (%s)", tr.c_str());
        }
        l.e.s().SetLinger(0);
        l.peer.s().SetLinger(0);
    }
    vp::count("interrupted_transfers", N);
    vp::evaluated(r.next());
}
}   // namespace

// ================================================================ messages beyond 2 and 4 GiB (address space only, hardly any memory)
void hugeCase(uint64_t, vp::Rng& r)
{
    vp::phase("huge messages");
    bool shm = r.chance(1, 4);   // the memory of a segment is really taken
    Opt o;
    o.session = newSession();
    o.segSize = 2300ull << 20;
    Node n(shm ? "shmem" : "zeromq", o);
    std::string ep = shm ? "ipc://" + scratch() + "/" + uniq("h") : "inproc://" + uniq("h");
    auto out = n.f->CreateSocket("push", uniq("ho")), in = n.f->CreateSocket("pull", uniq("hi"));
    out->Bind(ep);
    in->Connect(ep);
    static const uint64_t sizes[] = {(1ull << 31) - 1, 1ull << 31, (1ull << 31) + 4097, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 17, 5000000000ull};
    uint64_t total = 0, bytes = 0, msgs = 0;
    auto make = [&](uint64_t size) {
        MessagePtr m;
        if (shm) { m = n.f->CreateMessage(size); }
        else {
            void* p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) { return m; }
            m = n.f->CreateMessage(p, size, [](void* d, void* h) { munmap(d, reinterpret_cast<uintptr_t>(h)); }, reinterpret_cast<void*>(size));
        }
        auto c = static_cast<unsigned char*>(m->GetData());
        VP_CHECK(m->GetSize() == size, "huge:size", "message of %llu bytes has %zu", (unsigned long long)size, m->GetSize());
        c[0] = 11; c[size / 2] = 22; c[size - 1] = 33;
        return m;
    };
    auto good = [&](Message& m, uint64_t size, const char* how) {
        auto c = static_cast<unsigned char*>(m.GetData());
        VP_CHECK(m.GetSize() == size, "huge:size", "message of %llu bytes received with %zu (%s)", (unsigned long long)size, m.GetSize(), how);
        if (m.GetSize() == size) { VP_CHECK(c[0] == 11 && c[size / 2] == 22 && c[size - 1] == 33, "huge:content", "content of a message of %llu bytes changed (%s)", (unsigned long long)size, how); }
    };
    for (unsigned i = 0, k = 2 + r.below(4); i < k; ++i) {
        if (r.chance(1, 3)) {
            uint64_t s = sizes[r.below(shm ? 3 : 7)];
            auto m = make(s);
            if (!m) { vp::count("huge_no_memory"); continue; }
            if (r.chance(1, 3)) { uint64_t t = s - 1 - r.below(1000); if (m->SetUsedSize(t)) { s = t; static_cast<unsigned char*>(m->GetData())[s / 2] = 22; static_cast<unsigned char*>(m->GetData())[s - 1] = 33; } }
            int64_t a = out->Send(m, 5000);
            VP_CHECK(a == int64_t(s), "huge:return", "sending %llu bytes returned %lld", (unsigned long long)s, (long long)a);
            auto g = n.f->CreateMessage();
            int64_t b = in->Receive(g, 20000);
            VP_CHECK(b == int64_t(s), "huge:return", "receiving %llu bytes returned %lld", (unsigned long long)s, (long long)b);
            good(*g, s, "single");
            total += s;
        } else {
            Parts p, q;
            std::vector<uint64_t> ss;
            uint64_t sum = 0;
            for (unsigned j = 0, np = 2 + r.below(3); j < np; ++j) { ss.push_back(j == 1 ? sizes[r.below(3)] : !shm && r.chance(1, 4) ? sizes[r.below(4)] : 3 + r.below(5000)); }
            bool ok = true;
            for (auto s : ss) { auto m = make(s); ok &= m != nullptr; if (m) { p.AddPart(std::move(m)); sum += s; } }
            if (!ok) { vp::count("huge_no_memory"); continue; }
            int64_t a = out->Send(p.fParts, 5000);
            VP_CHECK(a == int64_t(sum), "huge:return", "sending parts of %llu bytes returned %lld", (unsigned long long)sum, (long long)a);
            int64_t b = in->Receive(q.fParts, 20000);
            VP_CHECK(b == int64_t(sum) && q.Size() == ss.size(), "huge:return", "receiving %zu parts of %llu bytes returned %lld with %zu parts", ss.size(), (unsigned long long)sum, (long long)b, (size_t)q.Size());
            for (size_t j = 0; j < ss.size() && j < q.Size(); ++j) { good(*q.fParts[j], ss[j], "part"); }
            total += sum;
        }
        ++msgs;
        vp::tick();
    }
    bytes = total;
    VP_CHECK(out->GetBytesTx() == bytes && in->GetBytesRx() == bytes && out->GetMessagesTx() == msgs && in->GetMessagesRx() == msgs, "huge:counters",
             "%llu messages of %llu bytes counted as %lu/%lu sent, %lu/%lu received", (unsigned long long)msgs, (unsigned long long)bytes, out->GetMessagesTx(), out->GetBytesTx(), in->GetMessagesRx(), in->GetBytesRx());
    vp::count("huge_gigabytes", total >> 30);
    vp::evaluated(vp::mix(total, shm));
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::watchdog();
    fair::Logger::SetConsoleSeverity(getenv("VP_LOG") ? getenv("VP_LOG") : "nolog");
    auto& m = vp::S().mode;
    char self[512] = {0};
    if (readlink("/proc/self/exe", self, sizeof self - 1) < 0) { return 1; }
    if (m == "procchild") { return procChild(); }
    if (m == "flow") { vp::forCases(100, [](uint64_t i, vp::Rng& r) { flowCase(i, r, false); }); }
    else if (m == "eintr") { vp::forCases(100, [](uint64_t i, vp::Rng& r) { flowCase(i, r, true); }); }
    else if (m == "huge") { vp::forCases(6, hugeCase); }
    else if (m == "proc") { vp::forCases(10, [&](uint64_t i, vp::Rng& r) { procCase(i, r, self); }); }
    else if (m == "timeout") { vp::forCases(10, timeoutCase); }
    else if (m == "block") { vp::forCases(10, blockCase); }
    else { return 2; }
    return vp::finish();
}
