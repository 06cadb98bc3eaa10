// C12: EventManager against a map model; emissions are judged by the callbacks they cause.
#include "vp.h"

#include <fairmq/EventManager.h>

using fair::mq::EventManager;

namespace
{

struct EvA : fair::mq::Event<std::string> {};
struct EvB : fair::mq::Event<std::string> {};
struct EvC : fair::mq::Event<int> {};

struct Hit { int combo; std::string key, val; long sub; };

// the six type combinations; each converts its arguments to text so that one model covers all
const char* kComboName[] = {"A/string", "A/int", "A/string,int", "B/string", "C/double", "PropertyChangeAsString/string"};
constexpr int kCombos = 6;

using Cb = std::function<void(int combo, const std::string& key, const std::string& val)>;

void subscribe(EventManager& em, int c, const std::string& name, Cb cb)
{
    switch (c) {
        case 0: em.Subscribe<EvA, std::string>(name, std::function<void(std::string, std::string)>([cb](std::string k, std::string v) { cb(0, k, v); })); break;
        case 1: em.Subscribe<EvA, int>(name, std::function<void(std::string, int)>([cb](std::string k, int v) { cb(1, k, std::to_string(v)); })); break;
        case 2: em.Subscribe<EvA, std::string, int>(name, std::function<void(std::string, std::string, int)>([cb](std::string k, std::string v, int i) { cb(2, k, v + "#" + std::to_string(i)); })); break;
        case 3: em.Subscribe<EvB, std::string>(name, std::function<void(std::string, std::string)>([cb](std::string k, std::string v) { cb(3, k, v); })); break;
        case 4: em.Subscribe<EvC, double>(name, std::function<void(int, double)>([cb](int k, double v) { cb(4, std::to_string(k), std::to_string(static_cast<long>(v))); })); break;
        case 5: em.Subscribe<fair::mq::PropertyChangeAsString, std::string>(name, std::function<void(std::string, std::string)>([cb](std::string k, std::string v) { cb(5, k, v); })); break;
    }
}
bool unsubscribe(EventManager& em, int c, const std::string& name)
{
    try {
        switch (c) {
            case 0: em.Unsubscribe<EvA, std::string>(name); break;
            case 1: em.Unsubscribe<EvA, int>(name); break;
            case 2: em.Unsubscribe<EvA, std::string, int>(name); break;
            case 3: em.Unsubscribe<EvB, std::string>(name); break;
            case 4: em.Unsubscribe<EvC, double>(name); break;
            case 5: em.Unsubscribe<fair::mq::PropertyChangeAsString, std::string>(name); break;
        }
    } catch (const std::out_of_range&) { return false; }   // how unknown names are reported
    return true;
}
// emits and returns (key, value) as the callbacks should see them
std::pair<std::string, std::string> emit(const EventManager& em, int c, unsigned n)
{
    std::string k = "key" + std::to_string(n % 7) + std::string(n % 3 ? 0 : 40, 'k');
    std::string v = "value-" + std::to_string(n) + std::string(n % 5 ? 0 : 60, 'v');
    int i = static_cast<int>(n);
    switch (c) {
        case 0: em.Emit<EvA, std::string>(k, v); return {k, v};
        case 1: em.Emit<EvA, int>(k, i); return {k, std::to_string(i)};
        case 2: em.Emit<EvA, std::string, int>(k, v, i); return {k, v + "#" + std::to_string(i)};
        case 3: em.Emit<EvB, std::string>(k, v); return {k, v};
        case 4: em.Emit<EvC, double>(i, i + 0.25); return {std::to_string(i), std::to_string(static_cast<long>(i))};
        case 5: em.Emit<fair::mq::PropertyChangeAsString, std::string>(k, v); return {k, v};
    }
    return {};
}

std::vector<std::string> names() { return {"a", "b", "dev.plugin", "", "a-very-long-subscriber-name-beyond-small-string-size"}; }

void seqCase(uint64_t, vp::Rng& r)
{
    EventManager em;
    std::map<std::pair<int, std::string>, long> model;
    std::vector<Hit> hits;
    long nextSub = 0;
    uint64_t h = 1, delivered = 0;
    std::string trace;
    auto nm = names();
    int ops = static_cast<int>(r.range(5, 60));
    int combos = r.chance(1, 3) ? 2 : kCombos;
    for (int i = 0; i < ops; ++i) {
        int c = static_cast<int>(r.below(combos));
        unsigned what = r.below(10);
        if (what < 4) {
            std::string n = r.pick(nm);
            long id = nextSub++;
            subscribe(em, c, n, [&hits, id](int cc, const std::string& k, const std::string& v) { hits.push_back({cc, k, v, id}); });
            model[{c, n}] = id;
            h = vp::mix(h, 100 + c * 10 + (vp::hash(n) % 7));
            if (i < 20) { trace += vp::fmt("sub(%s,'%s')=%ld ", kComboName[c], n.c_str(), id); }
        } else if (what < 6) {
            std::string n = r.pick(nm);
            bool known = model.erase({c, n}) > 0;
            bool ok = unsubscribe(em, c, n);
            VP_CHECK(ok || !known, "events:unsubscribe-known-refused", "unsubscribe of subscribed name '%s' (%s) threw", n.c_str(), kComboName[c]);
            h = vp::mix(h, 200 + c * 10 + (vp::hash(n) % 7));
            if (i < 20) { trace += vp::fmt("unsub(%s,'%s') ", kComboName[c], n.c_str()); }
        } else {
            hits.clear();
            auto kv = emit(em, c, static_cast<unsigned>(r.below(1000)));
            std::map<long, int> got;
            for (auto& x : hits) {
                ++got[x.sub];
                VP_CHECK(x.combo == c, "events:wrong-combination", "emit on %s reached a callback of %s", kComboName[c], kComboName[x.combo]);
                VP_CHECK(x.key == kv.first && x.val == kv.second, "events:wrong-arguments", "emitted (%s,%s) but callback saw (%s,%s)", kv.first.c_str(), kv.second.c_str(), x.key.c_str(), x.val.c_str());
            }
            size_t expect = 0;
            for (auto& m : model) {
                if (m.first.first != c) { continue; }
                ++expect;
                int n = got.count(m.second) ? got[m.second] : 0;
                VP_CHECK(n == 1, n == 0 ? "events:subscriber-missed" : "events:subscriber-called-twice", "emit on %s called current subscription %ld of '%s' %d times; history: %s", kComboName[c], m.second, m.first.second.c_str(), n, trace.c_str());
            }
            VP_CHECK(got.size() <= expect, "events:stale-subscriber-called", "emit on %s called %zu different subscriptions, %zu are current; history: %s", kComboName[c], got.size(), expect, trace.c_str());
            delivered += hits.size();
            h = vp::mix(h, 300 + c);
            if (i < 20) { trace += vp::fmt("emit(%s)->%zu ", kComboName[c], hits.size()); }
        }
    }
    vp::count("emissions_delivered", delivered);
    vp::evaluated(h, delivered > 0);
    vp::sample(trace);
}

// operations from within callbacks: no deadlock, effects visible to the next emission
void nestedCase(uint64_t, vp::Rng& r)
{
    EventManager em;
    int c = static_cast<int>(r.below(kCombos)), c2 = static_cast<int>(r.below(kCombos));
    unsigned kind = r.below(5);
    int self = 0, other = 0, late = 0, bystander = 0;
    subscribe(em, c, "bystander", [&](int, const std::string&, const std::string&) { ++bystander; });
    bool done = false;
    subscribe(em, c, "self", [&](int, const std::string&, const std::string&) {
        ++self;
        if (done) { return; }
        done = true;
        switch (kind) {
            case 0: unsubscribe(em, c, "self"); break;
            case 1: subscribe(em, c, "late", [&](int, const std::string&, const std::string&) { ++late; }); break;
            case 2: subscribe(em, c, "self", [&](int, const std::string&, const std::string&) { ++other; }); break;
            case 3: emit(em, c2, 3); break;
            case 4: unsubscribe(em, c, "bystander"); break;
        }
    });
    vp::phase("nested-" + std::to_string(kind));
    emit(em, c, 1);
    int s1 = self, b1 = bystander;
    emit(em, c, 2);
    int ds = self - s1, db = bystander - b1;
    switch (kind) {
        case 0: VP_CHECK(s1 == 1 && ds == 0 && db == 1 && b1 == 1, "events:nested-unsubscribe-self", "self %d+%d bystander %d+%d", s1, ds, b1, db); break;
        case 1: VP_CHECK(s1 == 1 && ds == 1 && db == 1 && b1 == 1 && late >= 1 && late <= 2, "events:nested-subscribe", "self %d+%d bystander %d+%d late %d", s1, ds, b1, db, late); break;
        case 2: VP_CHECK(s1 == 1 && ds == 0 && db == 1 && b1 == 1 && other >= 1 && other <= 2, "events:nested-resubscribe", "self %d+%d other %d", s1, ds, other); break;
        case 3: if (c == c2) { VP_CHECK(s1 == 2 && b1 == 2 && ds == 1 && db == 1, "events:nested-emit", "self %d+%d bystander %d+%d", s1, ds, b1, db); }
                else { VP_CHECK(s1 == 1 && b1 == 1 && ds == 1 && db == 1, "events:nested-emit", "self %d+%d bystander %d+%d", s1, ds, b1, db); } break;
        case 4: VP_CHECK(s1 == 1 && ds == 1 && db == 0 && b1 <= 1, "events:nested-unsubscribe-other", "self %d+%d bystander %d+%d", s1, ds, b1, db); break;
    }
    vp::evaluated(vp::mix(vp::mix(kind, c), c2));
    vp::sample(vp::fmt("nested kind %u on %s: self %d late %d other %d bystander %d", kind, kComboName[c], self, late, other, bystander));
}

// Threads subscribe/unsubscribe/emit concurrently. Oracle per emission, from intervals taken with a
// global logical clock: a subscription whose subscribe returned before the emit began and whose removal
// (or replacement) began after the emit ended must be called exactly once by that emit; one removed before the
// emit began or subscribed after it ended must not be called.
void concCase(uint64_t ci, vp::Rng& r)
{
    EventManager em;
    struct Sub { int combo; std::string name; std::atomic<uint64_t> subBegin{0}, subEnd{0}, remBegin{~0ull}, remEnd{~0ull}; };
    static std::atomic<uint64_t> clk{1};
    struct Call { long sub; uint64_t emission; int combo; };
    const unsigned T = static_cast<unsigned>(r.range(2, 5));
    const unsigned ops = static_cast<unsigned>(r.range(20, 60));
    const bool fresh = r.chance(1, 2);   // no prior use of the combinations: their first use races
    const int combos = fresh ? kCombos : static_cast<int>(r.range(1, 3));
    std::atomic<int> sharedHits[kCombos];   // subscriptions under a name that all threads fight over
    for (auto& x : sharedHits) { x = 0; }
    std::vector<std::unique_ptr<Sub>> subs(T * ops + 8);
    std::atomic<long> nSubs{0};
    struct Emission { int combo; uint64_t begin, end; std::vector<long> called; std::string bad; };
    std::vector<std::vector<Emission>> em_(T);
    static thread_local Emission* cur = nullptr;
    vp::resetScheduleHash();
    vp::perturb(static_cast<unsigned>(r.range(0, 3)), r.next());
    uint64_t cs = r.next();
    // shared names owned by one thread each (so that replace order is known), plus stable subscribers
    auto addSub = [&](int c, const std::string& n) {
        long id = nSubs.fetch_add(1);
        subs[id] = std::make_unique<Sub>();
        auto* s = subs[id].get();
        s->combo = c;
        s->name = n;
        s->subBegin = clk++;
        subscribe(em, c, n, [id, c](int cc, const std::string& k, const std::string& v) {
            if (!cur) { vp::violation("events:not-synchronous", vp::fmt("callback %ld ran outside the emitting thread's emit", id)); return; }
            cur->called.push_back(id);
            if (cc != cur->combo || c != cc) { cur->bad = "wrong combination"; }
            (void)k; (void)v;
        });
        s->subEnd = clk++;
        return id;
    };
    if (!fresh) { for (int c = 0; c < combos; ++c) { addSub(c, "stable"); } }
    vp::phase("conc");
    vp::runThreads(T, [&](unsigned t) {
        vp::Rng q(cs, t + 1);
        std::map<std::pair<int, std::string>, long> mine;
        for (unsigned i = 0; i < ops; ++i) {
            int c = static_cast<int>(q.below(combos));
            std::string n = "t" + std::to_string(t) + "." + std::to_string(q.below(2));
            unsigned w = q.below(12);
            if (fresh && i == 0) { w = 0; c = static_cast<int>(cs % kCombos); }   // all threads open with the same combination
            if (w == 10) {
                subscribe(em, c, "shared", [&sharedHits, c](int, const std::string&, const std::string&) { ++sharedHits[c]; });
            } else if (w == 11) {
                unsubscribe(em, c, "shared");
            } else if (w < 3) {
                auto it = mine.find({c, n});
                long old = it == mine.end() ? -1 : it->second;
                if (old >= 0) { subs[old]->remBegin = clk++; }
                long id = addSub(c, n);
                if (old >= 0) { subs[old]->remEnd = clk++; }
                mine[{c, n}] = id;
            } else if (w < 5) {
                auto it = mine.find({c, n});
                if (it != mine.end()) {
                    subs[it->second]->remBegin = clk++;
                    bool ok = unsubscribe(em, c, n);
                    subs[it->second]->remEnd = clk++;
                    VP_CHECK(ok, "events:unsubscribe-known-refused", "unsubscribe of subscribed name threw under concurrency");
                    mine.erase(it);
                }
            } else {
                em_[t].push_back({c, 0, 0, {}, ""});
                auto& e = em_[t].back();
                cur = &e;
                e.begin = clk++;
                emit(em, c, i);
                e.end = clk++;
                cur = nullptr;
            }
            vp::tick();
        }
    });
    vp::perturb(0, 0);
    // at quiescence a name fought over by all threads holds at most one subscription, and releasing it leaves none
    {
        Emission e{0, 0, 0, {}, ""};
        for (int c = 0; c < combos; ++c) {
            e.combo = c;
            cur = &e;
            sharedHits[c] = 0;
            emit(em, c, 5);
            VP_CHECK(sharedHits[c] <= 1, "events:replaced-subscription-still-called", "%d subscriptions of one name on %s are called after concurrent resubscription", sharedHits[c].load(), kComboName[c]);
            bool had = unsubscribe(em, c, "shared");
            VP_CHECK(had == (sharedHits[c] == 1), "events:registry-disagrees", "name registered: %d, calls: %d", had, sharedHits[c].load());
            sharedHits[c] = 0;
            emit(em, c, 6);
            VP_CHECK(sharedHits[c] == 0, "events:unsubscribed-still-called", "called %d times after unsubscribe on %s", sharedHits[c].load(), kComboName[c]);
            cur = nullptr;
        }
    }
    uint64_t emissions = 0, calls = 0, must = 0, overlaps = 0;
    long n = nSubs.load();
    for (auto& v : em_) {
        for (auto& e : v) {
            ++emissions;
            calls += e.called.size();
            VP_CHECK(e.bad.empty(), "events:wrong-combination", "%s", e.bad.c_str());
            std::map<long, int> got;
            for (long id : e.called) { ++got[id]; }
            for (long id = 0; id < n; ++id) {
                auto& s = *subs[id];
                int g = got.count(id) ? got[id] : 0;
                bool mustCall = s.combo == e.combo && s.subEnd < e.begin && s.remBegin > e.end;
                bool mustNot = s.combo != e.combo || s.remEnd < e.begin || s.subBegin > e.end;
                if (mustCall) { ++must; }
                if (!mustCall && !mustNot) { ++overlaps; }
                VP_CHECK(!(mustCall && g == 0), "events:subscriber-missed-concurrently", "emission [%lu,%lu] missed subscription %ld (subscribed by %lu)", (unsigned long)e.begin, (unsigned long)e.end, id, (unsigned long)s.subEnd.load());
                VP_CHECK(g <= 1, "events:subscriber-called-twice", "emission called subscription %ld %d times", id, g);
                VP_CHECK(!(mustNot && g), "events:stale-subscriber-called", "emission [%lu,%lu] called subscription %ld removed by %lu", (unsigned long)e.begin, (unsigned long)e.end, id, (unsigned long)s.remEnd.load());
            }
        }
    }
    vp::count("emissions", emissions);
    vp::count("callbacks", calls);
    vp::count("must_call_pairs", must);
    vp::count("overlapping_pairs", overlaps);
    vp::interleaving(vp::scheduleHash());
    vp::evaluated(vp::mix(vp::scheduleHash(), ci), calls > 0);
    vp::sample(vp::fmt("%u threads x %u ops over %d combinations: %lu emissions, %lu callbacks, %lu overlapping (emission, subscription) pairs", T, ops, combos, (unsigned long)emissions, (unsigned long)calls, (unsigned long)overlaps));
}

}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::watchdog();
    auto& m = vp::S().mode;
    if (m == "seq") { vp::forCases(1000, seqCase); }
    else if (m == "nested") { vp::forCases(200, nestedCase); }
    else { vp::forCases(50, concCase); }
    return vp::finish();
}
