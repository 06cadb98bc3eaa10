// C13: the configuration store. Sequential histories of all supported types against a map model with
// notification accounting; concurrent histories checked for linearizability.
#include "vp.h"

#include <fairmq/ProgOptions.h>
#include <fairmq/PropertyOutput.h>
#include <filesystem>
#include <iomanip>

using namespace fair::mq;
namespace fs = std::filesystem;

struct Custom { int a = 0; std::string b; bool operator==(const Custom& o) const { return a == o.a && b == o.b; } };
std::ostream& operator<<(std::ostream& o, const Custom& c) { return o << "<" << c.a << "|" << c.b << ">"; }

namespace
{
// ---------------------------------------------------------------- values of every supported type
template<typename T> struct Gen;
template<typename T>
T genInt(vp::Rng& r)
{
    switch (r.below(5)) {
        case 0: return std::numeric_limits<T>::max();
        case 1: return std::numeric_limits<T>::min();
        case 2: return static_cast<T>(r.below(10));
        default: return static_cast<T>(r.next());
    }
}
#define GENI(T) template<> struct Gen<T> { static T g(vp::Rng& r) { return genInt<T>(r); } };
GENI(signed char) GENI(unsigned char) GENI(int) GENI(short) GENI(long) GENI(long long) GENI(unsigned) GENI(unsigned short) GENI(unsigned long) GENI(unsigned long long)
template<> struct Gen<char> { static char g(vp::Rng& r) { return static_cast<char>(32 + r.below(95)); } };
template<> struct Gen<bool> { static bool g(vp::Rng& r) { return r.chance(1, 2); } };
template<typename T>
T genF(vp::Rng& r)
{
    static const std::vector<double> e{0, 1, -1, 0.1, 1e20, -1e-20, 123456.789, 3.14159265358979, 1e6, 1234567, 0.000012345};
    return static_cast<T>(r.chance(1, 2) ? r.pick(e) : static_cast<double>(r.range(-1000000, 1000000)) / static_cast<double>(1 + r.below(1000)));
}
template<> struct Gen<float> { static float g(vp::Rng& r) { return genF<float>(r); } };
template<> struct Gen<double> { static double g(vp::Rng& r) { return genF<double>(r); } };
template<> struct Gen<long double> { static long double g(vp::Rng& r) { return genF<long double>(r); } };
template<> struct Gen<std::string>
{
    static std::string g(vp::Rng& r)
    {
        std::string s;
        size_t n = r.below(r.chance(1, 10) ? 3000 : 12);
        for (size_t i = 0; i < n; ++i) { s += static_cast<char>(r.chance(1, 20) ? r.below(256) : 32 + r.below(95)); }
        return s;
    }
};
template<> struct Gen<fs::path> { static fs::path g(vp::Rng& r) { std::string s; size_t n = r.below(4); for (size_t i = 0; i <= n; ++i) { s += "/d" + std::to_string(r.below(100)); if (r.chance(1, 6)) { s += " x"; } } return fs::path(s); } };
template<> struct Gen<Custom> { static Custom g(vp::Rng& r) { return {static_cast<int>(r.below(1000)), Gen<std::string>::g(r)}; } };
template<typename T> struct Gen<std::vector<T>> { static std::vector<T> g(vp::Rng& r) { std::vector<T> v; size_t n = r.below(5); for (size_t i = 0; i < n; ++i) { v.push_back(Gen<T>::g(r)); } return v; } };

// the documented string form
template<typename T> std::string strOf(const T& v) { return std::to_string(v); }
std::string strOf(char v) { return std::string(1, v); }
std::string strOf(bool v) { return v ? "true" : "false"; }
template<typename T> std::string strOfF(T v) { std::ostringstream s; s << v; return s.str(); }
std::string strOf(float v) { return strOfF(v); }
std::string strOf(double v) { return strOfF(v); }
std::string strOf(long double v) { return strOfF(v); }
std::string strOf(const std::string& v) { return v; }
std::string strOf(const fs::path& v) { return "\"" + v.string() + "\""; }
std::string strOf(const Custom& v) { return "<" + std::to_string(v.a) + "|" + v.b + ">"; }
template<typename T>
std::string strOf(const std::vector<T>& v)
{
    std::string s;
    for (size_t i = 0; i < v.size(); ++i) { s += strOf(static_cast<T>(v[i])); if (i + 1 != v.size()) { s += ", "; } }
    return s;
}

struct Note { int type; std::string key; Property val; };
struct Sink
{
    std::vector<std::pair<std::string, Note>> typed;                                          // subscriber, note
    std::vector<std::tuple<std::string, std::string, std::string>> str;                       // subscriber, key, string
};
Sink* gSink = nullptr;
ProgOptions* gNested = nullptr;
bool gNestOn = false;

struct Ops
{
    std::string name;
    std::function<Property(vp::Rng&)> gen;
    std::function<std::string(const Property&)> str;
    std::function<bool(const Property&, const Property&)> eq;
    std::function<void(ProgOptions&, const std::string&, const Property&)> set;
    std::function<bool(ProgOptions&, const std::string&, const Property&)> update;
    std::function<Property(const ProgOptions&, const std::string&)> get;
    std::function<Property(const ProgOptions&, const std::string&, const Property&)> getDef;
    std::function<Property(const ProgOptions&, const std::string&)> getValue;
    std::function<void(ProgOptions&, const std::string&)> sub, unsub;
};
std::vector<Ops> gOps;

template<typename T>
void add(const std::string& name)
{
    Ops o;
    const int idx = static_cast<int>(gOps.size());
    o.name = name;
    o.gen = [](vp::Rng& r) { return Property(Gen<T>::g(r)); };
    o.str = [](const Property& p) { return strOf(boost::any_cast<T>(p)); };
    o.eq = [](const Property& a, const Property& b) { return a.type() == typeid(T) && b.type() == typeid(T) && boost::any_cast<T>(a) == boost::any_cast<T>(b); };
    o.set = [](ProgOptions& c, const std::string& k, const Property& v) { c.SetProperty<T>(k, boost::any_cast<T>(v)); };
    o.update = [](ProgOptions& c, const std::string& k, const Property& v) { return c.UpdateProperty<T>(k, boost::any_cast<T>(v)); };
    o.get = [](const ProgOptions& c, const std::string& k) { return Property(c.GetProperty<T>(k)); };
    o.getDef = [](const ProgOptions& c, const std::string& k, const Property& d) { return Property(c.GetProperty<T>(k, boost::any_cast<T>(d))); };
    o.getValue = [](const ProgOptions& c, const std::string& k) { return Property(c.GetValue<T>(k)); };
    o.sub = [idx](ProgOptions& c, const std::string& n) { c.Subscribe<T>(n, std::function<void(std::string, T)>([idx, n](std::string k, T v) { if (gSink) { gSink->typed.push_back({n, {idx, k, Property(v)}}); } if (gNestOn && gNested) { gNestOn = false; gNested->Count(k); gNested->GetPropertyAsString(k, ""); } })); };
    o.unsub = [](ProgOptions& c, const std::string& n) { c.Unsubscribe<T>(n); };
    gOps.push_back(std::move(o));
}

void addAll()
{
    add<char>("char"); add<signed char>("signed char"); add<unsigned char>("unsigned char"); add<std::string>("string"); add<int>("int"); add<short>("short"); add<long>("long");
    add<long long>("long long"); add<unsigned>("unsigned"); add<unsigned short>("unsigned short"); add<unsigned long>("unsigned long"); add<unsigned long long>("unsigned long long");
    add<float>("float"); add<double>("double"); add<long double>("long double"); add<bool>("bool"); add<fs::path>("std::filesystem::path");
    add<std::vector<bool>>("vector<bool>"); add<std::vector<char>>("vector<char>"); add<std::vector<signed char>>("vector<signed char>"); add<std::vector<unsigned char>>("vector<unsigned char>");
    add<std::vector<std::string>>("vector<string>"); add<std::vector<int>>("vector<int>"); add<std::vector<short>>("vector<short>"); add<std::vector<long>>("vector<long>");
    add<std::vector<long long>>("vector<long long>"); add<std::vector<unsigned>>("vector<unsigned>"); add<std::vector<unsigned short>>("vector<unsigned short>");
    add<std::vector<unsigned long>>("vector<unsigned long>"); add<std::vector<unsigned long long>>("vector<unsigned long long>"); add<std::vector<float>>("vector<float>");
    add<std::vector<double>>("vector<double>"); add<std::vector<long double>>("vector<long double>"); add<std::vector<fs::path>>("vector<std::filesystem::path>");
    PropertyHelper::AddType<Custom>("custom label");
    add<Custom>("custom label");
}

struct Val { int t; Property v; };
std::string gLog;
void note(const std::string& s) { if (gLog.size() < 20000) { gLog += s + "; "; } }
std::string tail() { return gLog.substr(gLog.size() > 700 ? gLog.size() - 700 : 0); }

const std::vector<std::string> kKeys{"k", "k1", "k1.a", "k1.b", "k2", "grp.x", "grp.xy", "grp.y", "a key", "K", "chans.data.0.type", "chans.data.0.address", "chans.data.1.type", "chans.other.0.type"};

void seqCase(uint64_t ci, vp::Rng& r)
{
    vp::phase("config seq");
    gLog.clear();
    ProgOptions cfg;
    Sink sink;
    gSink = &sink;
    gNested = &cfg;
    std::set<std::string> base;
    for (auto& k : cfg.GetPropertyKeys()) { base.insert(k); }
    const auto baseStr = cfg.GetPropertiesAsStringStartingWith("");
    std::map<std::string, Val> model;
    std::map<int, std::set<std::string>> subs;
    std::set<std::string> strSubs;
    const std::vector<std::string> names{"one", "two", "three"};
    uint64_t h = 0;
    const int one = static_cast<int>(ci % gOps.size());   // every type gets its share
    auto pickT = [&] { return r.chance(1, 2) ? one : static_cast<int>(r.below(gOps.size())); };

    // expected notifications of the operation just made
    auto expect = [&](const std::map<std::string, Val>& changed, const char* what) {
        std::vector<std::pair<std::string, Note>> typed;
        size_t nStr = 0;
        for (auto& c : changed) {
            for (auto& s : subs[c.second.t]) {
                size_t n = 0;
                for (auto& x : sink.typed) { if (x.first == s && x.second.key == c.first && x.second.type == c.second.t && gOps[c.second.t].eq(x.second.val, c.second.v)) { ++n; } }
                VP_CHECK(n == 1, "cfg:notify", "%s of %s (%s): subscriber %s notified %zu times with the new value; %s", what, c.first.c_str(), gOps[c.second.t].name.c_str(), s.c_str(), n, tail().c_str());
                typed.push_back({});
            }
            for (auto& s : strSubs) {
                size_t n = 0;
                for (auto& x : sink.str) { if (std::get<0>(x) == s && std::get<1>(x) == c.first && std::get<2>(x) == gOps[c.second.t].str(c.second.v)) { ++n; } }
                VP_CHECK(n == 1, "cfg:notify-string", "%s of %s (%s): string subscriber %s notified %zu times with the new value; %s", what, c.first.c_str(), gOps[c.second.t].name.c_str(), s.c_str(), n, tail().c_str());
                ++nStr;
            }
        }
        VP_CHECK(sink.typed.size() == typed.size(), "cfg:notify-extra", "%s: %zu typed notifications, %zu due; %s", what, sink.typed.size(), typed.size(), tail().c_str());
        VP_CHECK(sink.str.size() == nStr, "cfg:notify-string-extra", "%s: %zu string notifications, %zu due; %s", what, sink.str.size(), nStr, tail().c_str());
        vp::count("notifications", sink.typed.size() + sink.str.size());
        sink.typed.clear();
        sink.str.clear();
    };
    auto readBack = [&](const std::string& k) {
        auto it = model.find(k);
        VP_CHECK(cfg.Count(k) == (it != model.end() ? 1 : 0), "cfg:count", "Count(%s) = %d, %s; %s", k.c_str(), cfg.Count(k), it != model.end() ? "set" : "not set", tail().c_str());
        if (it == model.end()) {
            bool threw = false;
            auto& o = gOps[pickT()];
            try { o.get(cfg, k); } catch (const PropertyNotFoundError&) { threw = true; } catch (...) {}
            VP_CHECK(threw, "cfg:missing-read", "reading missing key %s did not raise PropertyNotFoundError; %s", k.c_str(), tail().c_str());
            threw = false;
            try { cfg.GetPropertyAsString(k); } catch (const PropertyNotFoundError&) { threw = true; } catch (...) {}
            VP_CHECK(threw, "cfg:missing-read-string", "reading missing key %s as string did not raise PropertyNotFoundError", k.c_str());
            auto d = o.gen(r);
            VP_CHECK(o.eq(o.getDef(cfg, k, d), d), "cfg:default", "default of missing key %s (%s) not returned; %s", k.c_str(), o.name.c_str(), tail().c_str());
            VP_CHECK(cfg.GetPropertyAsString(k, "dflt") == "dflt", "cfg:default-string", "string default of missing key %s not returned", k.c_str());
            VP_CHECK(cfg.GetStringValue(k).empty(), "cfg:getvalue", "GetStringValue of missing key not empty");
            return;
        }
        auto& o = gOps[it->second.t];
        try {
            VP_CHECK(o.eq(o.get(cfg, k), it->second.v), "cfg:read", "%s (%s) reads back differently; %s", k.c_str(), o.name.c_str(), tail().c_str());
            VP_CHECK(o.eq(o.getDef(cfg, k, o.gen(r)), it->second.v), "cfg:read-default", "%s (%s) with default reads back differently; %s", k.c_str(), o.name.c_str(), tail().c_str());
            VP_CHECK(o.eq(o.getValue(cfg, k), it->second.v), "cfg:getvalue", "GetValue %s (%s) differs", k.c_str(), o.name.c_str());
            auto s = cfg.GetPropertyAsString(k), want = o.str(it->second.v);
            VP_CHECK(s == want && cfg.GetPropertyAsString(k, "x") == want && cfg.GetStringValue(k) == want, "cfg:as-string", "%s (%s) as string is \"%s\", should be \"%s\"", k.c_str(), o.name.c_str(), s.substr(0, 200).c_str(), want.substr(0, 200).c_str());
        } catch (const std::exception& e) { vp::violation("cfg:read-throws", vp::fmt("reading %s (%s): %s; %s", k.c_str(), o.name.c_str(), e.what(), tail().c_str())); }
        int wt = static_cast<int>(r.below(gOps.size()));
        if (wt != it->second.t) {   // wrong type
            bool threw = false;
            try { gOps[wt].get(cfg, k); } catch (const PropertyNotFoundError&) {} catch (const boost::bad_any_cast&) { threw = true; }
            VP_CHECK(threw, "cfg:wrong-type", "reading %s (%s) as %s did not fail", k.c_str(), o.name.c_str(), gOps[wt].name.c_str());
            threw = false;
            try { gOps[wt].getDef(cfg, k, gOps[wt].gen(r)); } catch (const boost::bad_any_cast&) { threw = true; }
            VP_CHECK(threw, "cfg:wrong-type", "reading %s (%s) as %s with default did not fail", k.c_str(), o.name.c_str(), gOps[wt].name.c_str());
        }
    };
    auto sameProps = [&](const Properties& p, const std::function<bool(const std::string&)>& match, const char* what) {
        size_t n = 0;
        for (auto& m : model) {
            if (!match(m.first)) { continue; }
            ++n;
            auto it = p.find(m.first);
            VP_CHECK(it != p.end() && gOps[m.second.t].eq(it->second, m.second.v), "cfg:bulk-read", "%s: %s missing or different; %s", what, m.first.c_str(), tail().c_str());
        }
        size_t b = 0;
        for (auto& k : base) { if (match(k)) { ++b; } }
        VP_CHECK(p.size() == n + b, "cfg:bulk-read-extra", "%s: %zu properties, %zu match; %s", what, p.size(), n + b, tail().c_str());
    };
    auto sameStrings = [&](const std::map<std::string, std::string>& p, const std::function<bool(const std::string&)>& match, const char* what) {
        size_t n = 0;
        for (auto& m : model) {
            if (!match(m.first)) { continue; }
            ++n;
            auto it = p.find(m.first);
            VP_CHECK(it != p.end() && it->second == gOps[m.second.t].str(m.second.v), "cfg:bulk-string", "%s: %s missing or different; %s", what, m.first.c_str(), tail().c_str());
        }
        for (auto& m : baseStr) { if (match(m.first)) { ++n; auto it = p.find(m.first); VP_CHECK(it != p.end() && it->second == m.second, "cfg:other-key-changed", "%s changed", m.first.c_str()); } }
        VP_CHECK(p.size() == n, "cfg:bulk-string-extra", "%s: %zu properties, %zu match; %s", what, p.size(), n, tail().c_str());
    };

    size_t nOps = static_cast<size_t>(r.range(10, 60));
    for (size_t op = 0; op < nOps; ++op) {
        unsigned k = static_cast<unsigned>(r.below(24));
        std::string key = r.pick(kKeys);
        h = vp::mix(vp::mix(h, k), vp::hash(key));
        gNestOn = r.chance(1, 3);
        try {
            if (k < 6) {
                int t = pickT();
                auto v = gOps[t].gen(r);
                note("set " + key + " " + gOps[t].name);
                gOps[t].set(cfg, key, v);
                model[key] = {t, v};
                expect({{key, {t, v}}}, "SetProperty");
                readBack(key);
            } else if (k < 9) {
                int t = pickT();
                auto v = gOps[t].gen(r);
                bool has = model.count(key);
                note(std::string("update ") + (has ? "" : "missing ") + key + " " + gOps[t].name);
                bool ok = gOps[t].update(cfg, key, v);
                VP_CHECK(ok == has, "cfg:update", "UpdateProperty of %s key returned %d; %s", has ? "an existing" : "a missing", ok, tail().c_str());
                if (has) { model[key] = {t, v}; expect({{key, {t, v}}}, "UpdateProperty"); }
                else { expect({}, "failed UpdateProperty"); }
                readBack(key);
            } else if (k < 13) {
                std::map<std::string, Val> in;
                size_t n = 1 + r.below(5);
                bool upd = r.chance(1, 2);
                for (size_t i = 0; i < n; ++i) {
                    int t = pickT();
                    std::string kk = upd && r.chance(3, 4) && !model.empty() ? std::next(model.begin(), static_cast<ptrdiff_t>(r.below(model.size())))->first : r.pick(kKeys);
                    in[kk] = {t, gOps[t].gen(r)};
                }
                Properties p;
                bool all = true;
                for (auto& x : in) { p[x.first] = x.second.v; all = all && model.count(x.first); }
                note(std::string(upd ? "UpdateProperties" : "SetProperties") + (upd && !all ? "(missing)" : ""));
                bool ok = true;
                if (upd) { ok = cfg.UpdateProperties(p); } else { cfg.SetProperties(p); }
                if (upd) { VP_CHECK(ok == all, "cfg:update-multi", "UpdateProperties with %s keys returned %d; %s", all ? "existing" : "missing", ok, tail().c_str()); }
                if (!upd || all) { for (auto& x : in) { model[x.first] = x.second; } expect(in, upd ? "UpdateProperties" : "SetProperties"); }
                else { expect({}, "failed UpdateProperties"); }
                for (auto& x : in) { readBack(x.first); }
            } else if (k < 15) {
                note("delete " + key);
                cfg.DeleteProperty(key);
                model.erase(key);
                expect({}, "DeleteProperty");
                readBack(key);
            } else if (k < 18) {
                int t = pickT();
                auto& n = r.pick(names);
                if (r.chance(3, 5)) { note("subscribe " + n + " " + gOps[t].name); gOps[t].sub(cfg, n); subs[t].insert(n); }
                else { note("unsubscribe " + n + " " + gOps[t].name); bool was = subs[t].erase(n); try { gOps[t].unsub(cfg, n); } catch (const std::out_of_range&) { VP_CHECK(!was, "cfg:unsubscribe", "unsubscribing a subscriber threw; %s", tail().c_str()); } }
                expect({}, "subscription");
            } else if (k < 19) {
                auto& n = r.pick(names);
                if (r.chance(2, 3)) {
                    note("subscribe string " + n);
                    cfg.SubscribeAsString(n, [n](std::string kk, std::string v) { if (gSink) { gSink->str.push_back({n, kk, v}); } });
                    strSubs.insert(n);
                } else { note("unsubscribe string " + n); bool was = strSubs.erase(n); try { cfg.UnsubscribeAsString(n); } catch (const std::out_of_range&) { VP_CHECK(!was, "cfg:unsubscribe", "unsubscribing a string subscriber threw"); } }
            } else if (k < 20) {
                static const std::vector<std::string> pre{"", "k", "k1", "k1.", "grp.", "grp.x", "K", "none", "chans.data"};
                auto& q = r.pick(pre);
                auto m = [&](const std::string& s) { return s.rfind(q, 0) == 0; };
                sameProps(cfg.GetPropertiesStartingWith(q), m, "starting with");
                sameStrings(cfg.GetPropertiesAsStringStartingWith(q), m, "strings starting with");
            } else if (k < 22) {
                static const std::vector<std::pair<std::string, std::function<bool(const std::string&)>>> re{
                    {".*", [](const std::string&) { return true; }},
                    {"k1\\..*", [](const std::string& s) { return s.rfind("k1.", 0) == 0; }},
                    {"grp\\.x", [](const std::string& s) { return s == "grp.x"; }},
                    {"(k|K)", [](const std::string& s) { return s == "k" || s == "K"; }},
                    {"k", [](const std::string& s) { return s == "k"; }},
                    {"grp\\.x.?", [](const std::string& s) { return s == "grp.x" || s == "grp.xy"; }},
                    {"nothing", [](const std::string&) { return false; }},
                    {"chans\\..*\\.type", [](const std::string& s) { return s.rfind("chans.", 0) == 0 && s.find(".type") != std::string::npos; }}};
                auto& q = r.pick(re);
                sameProps(cfg.GetProperties(q.first), q.second, q.first.c_str());
                sameStrings(cfg.GetPropertiesAsString(q.first), q.second, q.first.c_str());
            } else {
                auto ks = cfg.GetPropertyKeys();
                std::set<std::string> got(ks.begin(), ks.end()), want = base;
                for (auto& m : model) { want.insert(m.first); }
                VP_CHECK(got == want && ks.size() == want.size(), "cfg:keys", "key listing has %zu keys, store %zu; %s", ks.size(), want.size(), tail().c_str());
                auto ch = cfg.GetChannelInfo();
                std::map<std::string, int> wc;
                for (auto& m : model) { if (m.first.rfind("chans.", 0) == 0 && m.first.find(".type") != std::string::npos) { ++wc[m.first.substr(6, m.first.find('.', 6) - 6)]; } }
                VP_CHECK((std::map<std::string, int>(ch.begin(), ch.end()) == wc), "cfg:channel-info", "channel listing differs; %s", tail().c_str());
                readBack(key);
            }
        } catch (const std::exception& e) { vp::violation("cfg:throws", vp::fmt("operation %u threw %s; %s", k, e.what(), tail().c_str())); }
    }
    for (auto& k : kKeys) { readBack(k); }
    sameStrings(cfg.GetPropertiesAsStringStartingWith(""), [](const std::string&) { return true; }, "all");
    gSink = nullptr;
    vp::count("operations", nOps);
    vp::evaluated(vp::mix(h, ci));
    vp::sample(gLog.substr(0, 300));
}

// conversions of each type on their own, through every route
void convCase(uint64_t ci, vp::Rng& r)
{
    vp::phase("config conv");
    auto& o = gOps[ci % gOps.size()];
    for (int i = 0; i < 25; ++i) {
        auto v = o.gen(r);
        auto want = o.str(v);
        try {
            auto info = PropertyHelper::GetPropertyInfo(v);
            VP_CHECK(info.first == want && PropertyHelper::ConvertPropertyToString(v) == want, "cfg:convert", "%s converts to \"%s\", should be \"%s\"", o.name.c_str(), info.first.substr(0, 200).c_str(), want.substr(0, 200).c_str());
            VP_CHECK(info.second == o.name, "cfg:type-name", "type %s is called %s", o.name.c_str(), info.second.c_str());
            std::ostringstream s;
            boost::operator<<(s, v);
            VP_CHECK(s.str() == want, "cfg:stream", "%s streams as \"%s\", should be \"%s\"", o.name.c_str(), s.str().substr(0, 200).c_str(), want.substr(0, 200).c_str());
        } catch (const std::exception& e) { vp::violation("cfg:convert-throws", vp::fmt("%s: %s", o.name.c_str(), e.what())); }
        vp::evaluated(vp::mix(vp::hash(want), ci % gOps.size()));
    }
    ProgOptions c;
    c.SetProperty<const char*>("p", "text");
    VP_CHECK(c.GetPropertyAsString("p") == "text" && std::string(c.GetProperty<const char*>("p")) == "text", "cfg:convert", "const char* property");
    struct Unknown { int x; };
    auto info = PropertyHelper::GetPropertyInfo(Property(Unknown{1}));
    VP_CHECK(info.first == "[unidentified_type]", "cfg:convert", "unknown type");
}

// ---------------------------------------------------------------- concurrent histories
// keys a,b,c with small unique integer values; 0 = absent
struct Op
{
    enum K { set, update, setM, updateM, del, get, getDef, count, snap, keys } k;
    int thread = 0;
    uint64_t inv = 0, res = 0;
    std::array<int, 3> val{};    // values written (0: not part of it), or the snapshot read
    int key = 0, out = 0;        // single key ops: result value / success
};
const char* kC[3] = {"cc.a", "cc.b", "cc.c"};

bool applyOp(const Op& o, std::array<int, 3>& s)
{
    switch (o.k) {
        case Op::set: s[o.key] = o.val[o.key]; return true;
        case Op::update: if (s[o.key]) { s[o.key] = o.val[o.key]; return o.out == 1; } return o.out == 0;
        case Op::setM: for (int i = 0; i < 3; ++i) { if (o.val[i]) { s[i] = o.val[i]; } } return true;
        case Op::updateM: { bool all = true; for (int i = 0; i < 3; ++i) { if (o.val[i] && !s[i]) { all = false; } } if (all) { for (int i = 0; i < 3; ++i) { if (o.val[i]) { s[i] = o.val[i]; } } } return o.out == (all ? 1 : 0); }
        case Op::del: s[o.key] = 0; return true;
        case Op::get: case Op::getDef: return o.out == s[o.key];
        case Op::count: return o.out == (s[o.key] ? 1 : 0);
        case Op::snap: return o.val == s;
        case Op::keys: for (int i = 0; i < 3; ++i) { if ((o.val[i] != 0) != (s[i] != 0)) { return false; } } return true;
    }
    return false;
}
bool linearizable(const std::vector<std::vector<Op>>& th)
{
    std::set<std::string> seen;
    std::vector<size_t> pos(th.size(), 0);
    std::function<bool(std::array<int, 3>)> rec = [&](std::array<int, 3> s) -> bool {
        bool done = true;
        uint64_t minRes = ~0ull;
        for (size_t t = 0; t < th.size(); ++t) { if (pos[t] < th[t].size()) { done = false; minRes = std::min(minRes, th[t][pos[t]].res); } }
        if (done) { return true; }
        std::string key;
        for (auto p : pos) { key += static_cast<char>(p); }
        for (auto v : s) { key += std::string(reinterpret_cast<const char*>(&v), 4); }
        if (!seen.insert(key).second) { return false; }
        for (size_t t = 0; t < th.size(); ++t) {
            if (pos[t] >= th[t].size() || th[t][pos[t]].inv > minRes) { continue; }
            auto s2 = s;
            if (!applyOp(th[t][pos[t]], s2)) { continue; }
            ++pos[t];
            if (rec(s2)) { return true; }
            --pos[t];
        }
        return false;
    };
    return rec({0, 0, 0});
}

void concCase(uint64_t, vp::Rng& r)
{
    vp::phase("config conc");
    ProgOptions cfg;
    const unsigned nT = static_cast<unsigned>(r.range(2, 4));
    std::atomic<uint64_t> clk{1};
    std::atomic<int> nextVal{1};
    std::vector<std::vector<Op>> th(nT);
    std::vector<uint64_t> seeds;
    for (unsigned t = 0; t < nT; ++t) { seeds.push_back(r.next()); }
    std::mutex nm;
    std::map<std::pair<std::string, int>, std::array<int, 3>> notes;   // (key, value) -> per subscriber
    cfg.Subscribe<int>("s0", std::function<void(std::string, int)>([&](std::string k, int v) { std::lock_guard<std::mutex> l(nm); ++notes[{k, v}][0]; }));
    cfg.SubscribeAsString("s1", [&](std::string k, std::string v) { std::lock_guard<std::mutex> l(nm); ++notes[{k, atoi(v.c_str())}][1]; });
    vp::resetScheduleHash();
    vp::perturb(static_cast<unsigned>(r.below(4)), r.next());
    const bool churn = r.chance(1, 2);
    std::atomic<bool> stop{false};
    std::thread churner;
    if (churn) {
        churner = std::thread([&] {
            std::atomic<uint64_t> n{0};
            while (!stop) {
                cfg.Subscribe<int>("tmp", std::function<void(std::string, int)>([&](std::string, int) {}));
                cfg.SubscribeAsString("tmp", [&](std::string, std::string) {});
                cfg.Unsubscribe<int>("tmp");
                cfg.UnsubscribeAsString("tmp");
                vp::sleepUs(20);
            }
        });
    }
    const size_t opsPer = 4 + r.below(4);
    vp::runThreads(nT, [&](unsigned t) {
        vp::Rng q(seeds[t], t + 1);
        for (size_t i = 0; i < opsPer; ++i) {
            Op o;
            o.thread = static_cast<int>(t);
            o.k = static_cast<Op::K>(q.below(10));
            o.key = static_cast<int>(q.below(3));
            if (o.k == Op::setM || o.k == Op::updateM) { do { for (int j = 0; j < 3; ++j) { o.val[j] = q.chance(2, 3) ? nextVal++ : 0; } } while (!o.val[0] && !o.val[1] && !o.val[2]); }
            if (o.k == Op::set || o.k == Op::update) { o.val[o.key] = nextVal++; }
            std::string k = kC[o.key];
            o.inv = clk++;
            try {
                switch (o.k) {
                    case Op::set: cfg.SetProperty<int>(k, o.val[o.key]); break;
                    case Op::update: o.out = cfg.UpdateProperty<int>(k, o.val[o.key]); break;
                    case Op::setM: case Op::updateM: {
                        Properties p;
                        for (int j = 0; j < 3; ++j) { if (o.val[j]) { p[kC[j]] = o.val[j]; } }
                        if (o.k == Op::setM) { cfg.SetProperties(p); } else { o.out = cfg.UpdateProperties(p); }
                        break;
                    }
                    case Op::del: cfg.DeleteProperty(k); break;
                    case Op::get: try { if (q.chance(1, 2)) { o.out = cfg.GetProperty<int>(k); } else { o.out = atoi(cfg.GetPropertyAsString(k).c_str()); } } catch (const PropertyNotFoundError&) { o.out = 0; } break;
                    case Op::getDef: if (q.chance(1, 2)) { o.out = cfg.GetProperty<int>(k, 0); } else { o.out = atoi(cfg.GetPropertyAsString(k, "0").c_str()); } break;
                    case Op::count: o.out = cfg.Count(k); break;
                    case Op::snap: {
                        unsigned how = static_cast<unsigned>(q.below(4));
                        if (how < 2) { auto p = how ? cfg.GetPropertiesStartingWith("cc.") : cfg.GetProperties("cc\\..*"); for (int j = 0; j < 3; ++j) { o.val[j] = p.count(kC[j]) ? boost::any_cast<int>(p[kC[j]]) : 0; } }
                        else { auto p = how == 2 ? cfg.GetPropertiesAsStringStartingWith("cc.") : cfg.GetPropertiesAsString("cc\\..*"); for (int j = 0; j < 3; ++j) { o.val[j] = p.count(kC[j]) ? atoi(p[kC[j]].c_str()) : 0; } }
                        break;
                    }
                    case Op::keys: { auto ks = cfg.GetPropertyKeys(); for (int j = 0; j < 3; ++j) { o.val[j] = std::count(ks.begin(), ks.end(), kC[j]) ? 1 : 0; } break; }
                }
            } catch (const std::exception& e) { vp::violation("cfg:throws-concurrently", vp::fmt("operation %d on %s threw %s", o.k, k.c_str(), e.what())); }
            o.res = clk++;
            th[t].push_back(o);
            vp::tick();
        }
    });
    stop = true;
    if (churner.joinable()) { churner.join(); }
    vp::perturb(0, 0);
    std::string hist;
    static const char* nm2[] = {"set", "update", "setM", "updateM", "del", "get", "getDef", "count", "snap", "keys"};
    for (auto& v : th) { for (auto& o : v) { hist += vp::fmt("T%d[%llu,%llu]%s(%s %d,%d,%d)=%d ", o.thread, static_cast<unsigned long long>(o.inv), static_cast<unsigned long long>(o.res), nm2[o.k], kC[o.key], o.val[0], o.val[1], o.val[2], o.out); } }
    VP_CHECK(linearizable(th), "cfg:not-linearizable", "no order of the operations explains the results: %s", hist.c_str());
    // every successful write notified once to both subscribers
    size_t due = 0;
    for (auto& v : th) {
        for (auto& o : v) {
            bool wrote = o.k == Op::set || o.k == Op::setM || ((o.k == Op::update || o.k == Op::updateM) && o.out);
            if (!wrote) { continue; }
            for (int j = 0; j < 3; ++j) {
                if (!o.val[j]) { continue; }
                ++due;
                auto n = notes[{kC[j], o.val[j]}];
                VP_CHECK(n[0] == 1, "cfg:notify-concurrent", "write %s=%d notified %d times: %s", kC[j], o.val[j], n[0], hist.c_str());
                VP_CHECK(n[1] == 1, "cfg:notify-string-concurrent", "write %s=%d notified %d times to the string subscriber: %s", kC[j], o.val[j], n[1], hist.c_str());
            }
        }
    }
    size_t got = 0;
    for (auto& n : notes) { if (n.second[0] || n.second[1]) { ++got; } }
    VP_CHECK(got == due, "cfg:notify-extra-concurrent", "%zu values notified, %zu written: %s", got, due, hist.c_str());
    vp::count("notifications", 2 * due);
    vp::interleaving(vp::scheduleHash());
    vp::evaluated(vp::hash(hist), due > 0);
    vp::sample(hist.substr(0, 400));
}
}   // namespace

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::watchdog();
    addAll();
    const std::string m = vp::S().mode;
    if (m == "seq") { vp::forCases(400, seqCase); }
    else if (m == "conv") { vp::forCases(70, convCase); }
    else if (m == "conc") { vp::forCases(300, concCase); }
    return vp::finish();
}
