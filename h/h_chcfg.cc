// C14: channel configuration. Generated JSON / key=value / API configurations against an independent model,
// through the parsers, the store, the channel objects, the config plugin and a real device; validation against a
// restated rule set; mutated texts for memory safety.
#include "tx.h"

#include <fairmq/Device.h>
#include <fairmq/JSONParser.h>
#include <fairmq/PluginManager.h>
#include <fairmq/SuboptParser.h>

using namespace fair::mq;
using namespace std;
using vp::fmt;

namespace
{

const vector<string> kStr{"type", "method", "address", "transport"};
const vector<string> kInt{"sndBufSize", "rcvBufSize", "sndKernelSize", "rcvKernelSize", "sndTimeoutMs", "rcvTimeoutMs", "linger", "rateLogging", "portRangeMin", "portRangeMax"};
const vector<string> kTypes{"sub", "pub", "pull", "push", "req", "rep", "xsub", "xpub", "dealer", "router", "pair"};

// settings that were given explicitly
struct Given { map<string, string> s; map<string, int> i; map<string, bool> b; };
// all settings of a sub-channel; the documented defaults
struct Cfg
{
    map<string, string> s{{"type", "unspecified"}, {"method", "unspecified"}, {"address", "unspecified"}, {"transport", "default"}};
    map<string, int> i{{"sndBufSize", 1000}, {"rcvBufSize", 1000}, {"sndKernelSize", 0}, {"rcvKernelSize", 0}, {"sndTimeoutMs", -1}, {"rcvTimeoutMs", -1},
                       {"linger", 500}, {"rateLogging", 1}, {"portRangeMin", 22000}, {"portRangeMax", 23000}};
    bool autoBind = true;
    void apply(const Given& g)
    {
        for (auto& x : g.s) { s[x.first] = x.second; }
        for (auto& x : g.i) { i[x.first] = x.second; }
        for (auto& x : g.b) { autoBind = x.second; }
    }
};
using Model = map<string, vector<Cfg>>;

struct Gen
{
    vp::Rng& r;
    bool legal;      // only configurations a device can be built with
    bool subopt;     // no characters special to the key=value list
    string text()
    {
        static const string plain = "abcXYZ019./:-_*@+>#[]{}?!&()";
        static const vector<string> odd{"\"", "\\", "\n", "\t", "\r", "\b", "\f", "\x01", "\xc3\xa9", "\xe2\x82\xac", " ", "=", ";", "'", "%", "\x7f"};
        string t;
        size_t n = r.below(r.chance(1, 12) ? 200 : 14);
        for (size_t k = 0; k < n; ++k) { t += (!subopt && r.chance(1, 6)) ? r.pick(odd) : string(1, r.pick(plain)); }
        return t;
    }
    string str(const string& k)
    {
        if (k == "type" && (legal || r.chance(3, 4))) { return r.pick(kTypes); }
        if (k == "method" && (legal || r.chance(3, 4))) { return r.chance(1, 2) ? "bind" : "connect"; }
        if (k == "transport") { return r.pick(vector<string>{"default", "zeromq", "shmem"}); }
        if (k == "address") {
            switch (r.below(legal ? 3 : 5)) {
                case 0: return "tcp://127.0.0.1:" + to_string(1 + r.below(65535)) + (r.chance(1, 4) ? ":x=1;y" : "");
                case 1: return "ipc://@" + tx::uniq("c");
                case 2: return "inproc://" + tx::uniq("c");
                case 3: return "unspecified";
                default: break;
            }
        }
        string t = text();
        return subopt && t.empty() ? "x" : t;
    }
    int num(const string& k)
    {
        if (legal) {
            if (k == "portRangeMin") { return 20000 + static_cast<int>(r.below(1000)); }
            if (k == "portRangeMax") { return 22000 + static_cast<int>(r.below(1000)); }
            if (k == "rateLogging") { return static_cast<int>(r.below(3)); }
            if (k == "linger" || k == "sndTimeoutMs" || k == "rcvTimeoutMs") { return static_cast<int>(r.range(-1, 3000)); }
            return static_cast<int>(r.below(100000));
        }
        switch (r.below(5)) {
            case 0: return 0;
            case 1: return -1;
            case 2: return r.chance(1, 2) ? numeric_limits<int>::max() : numeric_limits<int>::min();
            default: return static_cast<int>(r.range(-100000, 100000));
        }
    }
    Given given(unsigned num_, unsigned den)
    {
        Given g;
        for (auto& k : kStr) { if (r.chance(num_, den)) { g.s[k] = str(k); } }
        for (auto& k : kInt) { if (r.chance(num_, den)) { g.i[k] = num(k); } }
        if (r.chance(num_, den)) { g.b["autoBind"] = r.chance(1, 2); }
        return g;
    }
    string chanName()
    {
        static const vector<string> fixed{"data", "data1", "dat", "type", "address", "a", "a-b", "a_b", "x#1", "chans", "0", "q[1]", "name"};
        if (r.chance(1, 2)) { return r.pick(fixed); }
        static const string c = "abcdefgXYZ0123456789-_#";
        string t;
        size_t n = 1 + r.below(r.chance(1, 10) ? 40 : 6);
        for (size_t k = 0; k < n; ++k) { t += r.pick(c); }
        return t;
    }
};

// ---------------------------------------------------------------- JSON text
struct Json
{
    vp::Rng& r;
    string ws() { return r.chance(1, 3) ? r.pick(vector<string>{" ", "\n", "\t", "  ", "\r\n"}) : ""; }
    string q(const string& s)
    {
        string o = "\"";
        for (size_t k = 0; k < s.size(); ++k) {
            unsigned char c = static_cast<unsigned char>(s[k]);
            switch (c) {
                case '"': o += "\\\""; break;
                case '\\': o += "\\\\"; break;
                case '\n': o += "\\n"; break;
                case '\t': o += "\\t"; break;
                case '\r': o += "\\r"; break;
                case '\b': o += "\\b"; break;
                case '\f': o += "\\f"; break;
                case '/': o += r.chance(1, 8) ? "\\/" : "/"; break;
                default:
                    if (c < 0x20) { o += fmt("\\u%04x", c); }
                    else if (c < 0x7f && r.chance(1, 30)) { o += fmt("\\u%04X", c); }
                    else if (c == 0xe2 && s.compare(k, 3, "\xe2\x82\xac") == 0 && r.chance(1, 2)) { o += "\\u20ac"; k += 2; }
                    else { o += static_cast<char>(c); }
            }
        }
        return o + "\"";
    }
    string kv(const string& k, const string& v) { return ws() + q(k) + ws() + ":" + ws() + v + ws(); }
    string num(int v) { return r.chance(1, 2) ? to_string(v) : q(to_string(v)); }
    string boolean(bool v) { switch (r.below(3)) { case 0: return v ? "true" : "false"; case 1: return q(v ? "true" : "false"); default: return v ? "1" : "0"; } }
    string join(vector<string> v, bool shuffle)
    {
        if (shuffle) { r.shuffle(v); }
        string o;
        for (size_t k = 0; k < v.size(); ++k) { o += (k ? "," : "") + v[k]; }
        return o;
    }
    vector<string> settings(const Given& g)
    {
        vector<string> v;
        for (auto& x : g.s) { v.push_back(kv(x.first, q(x.second))); }
        for (auto& x : g.i) { v.push_back(kv(x.first, num(x.second))); }
        for (auto& x : g.b) { v.push_back(kv(x.first, boolean(x.second))); }
        if (r.chance(1, 6)) { v.push_back(kv("comment", "[1,{\"type\":\"push\"},[]]")); }
        if (r.chance(1, 6)) { v.push_back(kv("Type", q("nope"))); }
        return v;
    }
    string obj(const vector<string>& v) { return ws() + "{" + join(v, true) + ws() + "}" + ws(); }
    string arr(const vector<string>& v) { return ws() + "[" + join(v, false) + ws() + "]" + ws(); }
};

string genDeviceChannels(Gen& g, Json& j, Model& m, unsigned maxChannels)
{
    vector<string> chans;
    unsigned n = static_cast<unsigned>(g.r.below(maxChannels + 1));
    for (unsigned c = 0; c < n; ++c) {
        string name = g.chanName();
        if (m.count(name)) { continue; }
        Given common = g.given(g.legal ? 3 : 2, 4);
        if (g.legal) { for (auto k : {"type", "method", "address"}) { common.s[k] = g.str(k); } }
        auto v = j.settings(common);
        v.push_back(j.kv("name", j.q(name)));
        Cfg base;
        base.apply(common);
        auto& subs = m[name];
        switch (g.r.below(4)) {
            case 0: {   // number of sockets
                int k = 1 + static_cast<int>(g.r.below(g.r.chance(1, 4) ? 14 : 4));
                v.push_back(j.kv("numSockets", j.num(k)));
                for (int s = 0; s < k; ++s) { subs.push_back(base); }
                break;
            }
            case 1: {   // nothing: one socket
                if (g.r.chance(1, 2)) { v.push_back(j.kv("sockets", "[]")); }
                if (g.r.chance(1, 3)) { v.push_back(j.kv("numSockets", j.num(0))); }
                subs.push_back(base);
                break;
            }
            default: {
                unsigned k = 1 + static_cast<unsigned>(g.r.below(g.r.chance(1, 4) ? 14 : 4));
                vector<string> socks;
                for (unsigned s = 0; s < k; ++s) {
                    Given own = g.given(1, 3);
                    if (g.legal && common.s["address"].rfind("tcp", 0) != 0) { own.s["address"] = g.str("address"); }
                    Cfg cf = base;
                    cf.apply(own);
                    subs.push_back(cf);
                    socks.push_back(j.obj(j.settings(own)));
                }
                v.push_back(j.kv("sockets", j.arr(socks)));
            }
        }
        chans.push_back(j.obj(v));
    }
    return j.kv("channels", j.arr(chans));
}

// whole file; the section of device `id` follows m
string genJson(Gen& g, Json& j, const string& id, Model& m, unsigned maxChannels)
{
    vector<string> devs;
    unsigned others = static_cast<unsigned>(g.r.below(3));
    static const vector<string> other{"other", "x", "", "dev", "devi", "device1x", "DEVICE1"};
    unsigned pos = static_cast<unsigned>(g.r.below(others + 1));
    for (unsigned d = 0; d <= others; ++d) {
        Model dummy;
        vector<string> v;
        if (d == pos) {
            // by id, by key, or by key with another id
            switch (g.r.below(3)) {
                case 0: v.push_back(j.kv("id", j.q(id))); break;
                case 1: v.push_back(j.kv("key", j.q(id))); break;
                default: v.push_back(j.kv("key", j.q(id))); v.push_back(j.kv("id", j.q("someone"))); break;
            }
            v.push_back(genDeviceChannels(g, j, m, maxChannels));
        } else {
            string o = g.r.pick(other);
            if (g.r.chance(1, 3)) { v.push_back(j.kv("key", j.q(o + "k"))); v.push_back(j.kv("id", j.q(id))); }   // the key decides
            else { v.push_back(j.kv(g.r.chance(1, 2) ? "id" : "key", j.q(o + "y"))); }
            v.push_back(genDeviceChannels(g, j, dummy, 2));
        }
        if (g.r.chance(1, 5)) { v.push_back(j.kv("info", j.q("none"))); }
        devs.push_back(j.obj(v));
    }
    vector<string> opts{j.kv("devices", j.arr(devs))};
    if (g.r.chance(1, 4)) { opts.push_back(j.kv("other", j.arr({j.obj({j.kv("id", j.q(id)), j.kv("channels", "[{\"name\":\"wrong\",\"type\":\"push\"}]")})}))); }
    vector<string> top{j.kv("fairMQOptions", j.obj(opts))};
    if (g.r.chance(1, 4)) { top.push_back(j.kv("unrelated", "42")); }
    return j.obj(top);
}

// key=value options of one device
vector<string> genSubopt(Gen& g, Model& m, unsigned maxChannels)
{
    vector<string> opts;
    unsigned n = 1 + static_cast<unsigned>(g.r.below(maxChannels));
    for (unsigned c = 0; c < n; ++c) {
        string name = g.chanName();
        if (m.count(name)) { continue; }
        Given common = g.given(g.legal ? 3 : 2, 4);
        if (g.legal) { for (auto k : {"type", "method"}) { common.s[k] = g.str(k); } }
        common.s.erase("address");
        vector<string> v;
        for (auto& x : common.s) { v.push_back(x.first + "=" + x.second); }
        for (auto& x : common.i) { v.push_back(x.first + "=" + to_string(x.second)); }
        for (auto& x : common.b) { v.push_back(x.first + "=" + (g.r.chance(1, 2) ? (x.second ? "true" : "false") : (x.second ? "1" : "0"))); }
        Cfg base;
        base.apply(common);
        auto& subs = m[name];
        unsigned addrs = static_cast<unsigned>(g.r.below(g.r.chance(1, 4) ? 13 : 4));
        if (g.legal && addrs == 0) { addrs = 1; }
        if (addrs == 0 && g.r.chance(1, 2)) {
            int k = 1 + static_cast<int>(g.r.below(12));
            v.push_back("numSockets=" + to_string(k));
            for (int s = 0; s < k; ++s) { subs.push_back(base); }
        } else if (addrs == 0) { subs.push_back(base); }
        if (g.r.chance(1, 5)) { v.push_back("bogus=1"); }
        if (g.r.chance(1, 5)) { v.push_back("unknown"); }
        bool prefix = g.r.chance(1, 2);
        if (!prefix) { v.push_back("name=" + name); }
        // addresses keep their order, the rest is shuffled around them
        g.r.shuffle(v);
        for (unsigned s = 0; s < addrs; ++s) {
            string a = g.str("address");
            Cfg cf = base;
            cf.s["address"] = a;
            subs.push_back(cf);
        }
        size_t at = 0;
        for (unsigned s = 0; s < addrs; ++s) {
            at = at + g.r.below(v.size() - at + 1);
            v.insert(v.begin() + static_cast<long>(at), "address=" + subs[s].s["address"]);
            ++at;
        }
        // without a "name:" prefix a ':' must not come before the first '=': every entry has its '=' first, except flags
        if (!prefix) { for (size_t k = 0; k < v.size(); ++k) { if (v[k].find('=') != string::npos) { swap(v[0], v[k]); break; } } }
        if (!prefix && addrs > 1) {   // the swap may have moved an address: rebuild their order from the text
            size_t s = 0;
            for (auto& e : v) { if (e.rfind("address=", 0) == 0) { subs[s++].s["address"] = e.substr(8); } }
        }
        string t = prefix ? name + ":" : "";
        for (size_t k = 0; k < v.size(); ++k) { t += (k ? "," : "") + v[k]; }
        if (prefix && v.empty()) { t = name + ":type=" + (subs[0].s["type"] = "push"); }
        opts.push_back(t);
    }
    return opts;
}

// ---------------------------------------------------------------- comparison
Properties expected(const Model& m)
{
    Properties p;
    for (auto& c : m) {
        for (size_t i = 0; i < c.second.size(); ++i) {
            string pre = fmt("chans.%s.%zu.", c.first.c_str(), i);
            for (auto& x : c.second[i].s) { p[pre + x.first] = x.second; }
            for (auto& x : c.second[i].i) { p[pre + x.first] = x.second; }
            p[pre + "autoBind"] = c.second[i].autoBind;
        }
    }
    return p;
}
string show(const boost::any& a)
{
    if (a.type() == typeid(string)) { return "\"" + boost::any_cast<string>(a) + "\""; }
    if (a.type() == typeid(int)) { return to_string(boost::any_cast<int>(a)); }
    if (a.type() == typeid(bool)) { return boost::any_cast<bool>(a) ? "true" : "false"; }
    return string("<") + a.type().name() + ">";
}
void compare(const Properties& got, const Model& m, const char* what, const string& text)
{
    auto exp = expected(m);
    for (auto& e : exp) {
        auto it = got.find(e.first);
        if (it == got.end()) { vp::violation(string(what) + "-missing", e.first + " missing; from " + text.substr(0, 1500)); return; }
        if (it->second.type() != e.second.type() || show(it->second) != show(e.second)) {
            vp::violation(string(what) + "-value", e.first + " is " + show(it->second) + ", configured " + show(e.second) + "; from " + text.substr(0, 1500));
            return;
        }
    }
    for (auto& g : got) { if (!exp.count(g.first)) { vp::violation(string(what) + "-extra", g.first + " = " + show(g.second) + " was not configured; from " + text.substr(0, 1500)); return; } }
    vp::count("settings_compared", exp.size());
}
string chanDiff(const Channel& c, const Cfg& m, bool addr = true)
{
    auto d = [](const string& k, auto a, auto b) { ostringstream s; s << k << " is " << a << ", expected " << b; return s.str(); };
    if (c.GetType() != m.s.at("type")) { return d("type", c.GetType(), m.s.at("type")); }
    if (c.GetMethod() != m.s.at("method")) { return d("method", c.GetMethod(), m.s.at("method")); }
    if (addr && c.GetAddress() != m.s.at("address")) { return d("address", c.GetAddress(), m.s.at("address")); }
    if (c.GetTransportName() != m.s.at("transport")) { return d("transport", c.GetTransportName(), m.s.at("transport")); }
    const map<string, int> v{{"sndBufSize", c.GetSndBufSize()}, {"rcvBufSize", c.GetRcvBufSize()}, {"sndKernelSize", c.GetSndKernelSize()}, {"rcvKernelSize", c.GetRcvKernelSize()},
                             {"sndTimeoutMs", c.GetSndTimeout()}, {"rcvTimeoutMs", c.GetRcvTimeout()}, {"linger", c.GetLinger()}, {"rateLogging", c.GetRateLogging()},
                             {"portRangeMin", c.GetPortRangeMin()}, {"portRangeMax", c.GetPortRangeMax()}};
    for (auto& x : v) { if (x.second != m.i.at(x.first)) { return d(x.first, x.second, m.i.at(x.first)); } }
    if (c.GetAutoBind() != m.autoBind) { return d("autoBind", c.GetAutoBind(), m.autoBind); }
    return "";
}
// channel objects made from the store, and written to and read back from another store
void channels(const Properties& props, const Model& m, vp::Rng& r, const string& text)
{
    ProgOptions cfg;
    cfg.SetProperties(props);
    auto info = cfg.GetChannelInfo();
    bool ok = info.size() == m.size();
    for (auto& c : m) { ok = ok && info.count(c.first) && info.at(c.first) == static_cast<int>(c.second.size()); }
    VP_CHECK(ok, "channel-info", "channel info of the store differs from the configuration; from %s", text.substr(0, 1500).c_str());
    ProgOptions back;
    vector<pair<string, int>> order;
    for (auto& c : m) {
        for (size_t i = 0; i < c.second.size(); ++i) {
            Channel ch(c.first, static_cast<int>(i), cfg.GetPropertiesStartingWith(fmt("chans.%s.%zu.", c.first.c_str(), i)));
            auto d = chanDiff(ch, c.second[i]);
            VP_CHECK(d.empty(), "channel-from-store", "%s[%zu]: %s", c.first.c_str(), i, d.c_str());
            VP_CHECK(ch.GetName() == fmt("%s[%zu]", c.first.c_str(), i) && ch.GetPrefix() == c.first && ch.GetIndex() == to_string(i), "channel-name", "channel %zu of %s is called %s", i, c.first.c_str(), ch.GetName().c_str());
            back.AddChannel(c.first, ch);
            Channel rb(c.first, static_cast<int>(i), back.GetPropertiesStartingWith(fmt("chans.%s.%zu.", c.first.c_str(), i)));
            d = chanDiff(rb, c.second[i]);
            VP_CHECK(d.empty(), "channel-read-back", "%s[%zu] written to a store and read back: %s", c.first.c_str(), i, d.c_str());
            // copies
            Channel cp(ch), nm(ch, "copy[7]"), as;
            as = ch;
            Channel mv(std::move(cp)), ma;
            ma = Channel(ch);
            for (auto x : {&nm, &as, &mv, &ma}) {
                d = chanDiff(*x, c.second[i]);
                VP_CHECK(d.empty(), "channel-copy", "copy of %s[%zu]: %s", c.first.c_str(), i, d.c_str());
            }
            VP_CHECK(nm.GetName() == "copy[7]" && as.GetName() == ch.GetName() && mv.GetName() == ch.GetName(), "channel-copy-name", "copy is called %s", nm.GetName().c_str());
            vp::count("channels_compared");
        }
    }
    auto bi = back.GetChannelInfo();
    ok = bi.size() == m.size();
    for (auto& c : m) { ok = ok && bi.count(c.first) && bi.at(c.first) == static_cast<int>(c.second.size()); }
    VP_CHECK(ok, "channel-info-read-back", "channel info of the written store differs");
}
string writeFile(const string& text)
{
    string f = tx::scratch() + "/" + tx::uniq("c") + ".json";
    FILE* o = fopen(f.c_str(), "wb");
    if (fwrite(text.data(), 1, text.size(), o) != text.size()) {}
    fclose(o);
    return f;
}

void jsonMode(uint64_t, vp::Rng& r)
{
    Gen g{r, false, false};
    Json j{r};
    Model m;
    const string id = r.pick(vector<string>{"device1", "s", "a-b_c", "id with blank", "0"});
    string text = genJson(g, j, id, m, 4);
    string f = writeFile(text);
    try {
        auto p = JSONParser(f, id);
        compare(p, m, "json", text);
        channels(p, m, r, text);
    } catch (exception& e) { vp::violation("json-rejected", string(e.what()) + " for " + text.substr(0, 1500)); }
    try {
        auto p = JSONParser(f, "nobody");
        VP_CHECK(p.empty(), "json-section", "%zu settings for a device that is not in the file", p.size());
    } catch (exception& e) { vp::violation("json-rejected", string(e.what()) + " for an unknown device"); }
    try { auto p = JSONParser(f, ""); VP_CHECK(false, "json-no-id", "parsed without a device id"); } catch (ParserError&) {} catch (exception& e) { vp::violation("json-no-id-error", e.what()); }
    unlink(f.c_str());
    vp::evaluated(vp::hash(text), !m.empty());
    vp::sample(text.substr(0, 400), 2);
}

void suboptMode(uint64_t, vp::Rng& r)
{
    Gen g{r, false, true};
    Model m;
    auto opts = genSubopt(g, m, 4);
    string all;
    for (auto& o : opts) { all += o + " | "; }
    try {
        auto p = SuboptParser(opts, "dev");
        compare(p, m, "subopt", all);
        channels(p, m, r, all);
    } catch (exception& e) { vp::violation("subopt-rejected", string(e.what()) + " for " + all.substr(0, 1500)); }
    vp::evaluated(vp::hash(all), !m.empty());
    vp::sample(all.substr(0, 400), 2);
}

// through the API only
void apiMode(uint64_t, vp::Rng& r)
{
    Gen g{r, false, false};
    ProgOptions cfg;
    Model m;
    uint64_t h = 1;
    unsigned n = 1 + static_cast<unsigned>(r.below(14));
    vector<string> names{g.chanName(), g.chanName(), g.chanName()};
    for (unsigned k = 0; k < n; ++k) {
        string name = r.pick(names);
        Cfg c;
        Channel ch;
        switch (r.below(3)) {
            case 0: ch = Channel(name); break;
            case 1: c.s["type"] = g.str("type"); c.s["method"] = g.str("method"); c.s["address"] = g.str("address"); ch = Channel(c.s["type"], c.s["method"], c.s["address"]); break;
            default: c.s["type"] = g.str("type"); c.s["method"] = g.str("method"); c.s["address"] = g.str("address"); ch = Channel(name, c.s["type"], c.s["method"], c.s["address"], nullptr); break;
        }
        auto d0 = chanDiff(ch, c);
        VP_CHECK(d0.empty(), "api-defaults", "new channel: %s", d0.c_str());
        Given gv = g.given(1, 2);
        c.apply(gv);
        if (gv.s.count("type")) { ch.UpdateType(c.s["type"]); }
        if (gv.s.count("method")) { ch.UpdateMethod(c.s["method"]); }
        if (gv.s.count("address")) { ch.UpdateAddress(c.s["address"]); }
        if (gv.s.count("transport")) { ch.UpdateTransport(c.s["transport"]); }
        if (gv.i.count("sndBufSize")) { ch.UpdateSndBufSize(c.i["sndBufSize"]); }
        if (gv.i.count("rcvBufSize")) { ch.UpdateRcvBufSize(c.i["rcvBufSize"]); }
        if (gv.i.count("sndKernelSize")) { ch.UpdateSndKernelSize(c.i["sndKernelSize"]); }
        if (gv.i.count("rcvKernelSize")) { ch.UpdateRcvKernelSize(c.i["rcvKernelSize"]); }
        if (gv.i.count("sndTimeoutMs")) { ch.UpdateSndTimeout(c.i["sndTimeoutMs"]); }
        if (gv.i.count("rcvTimeoutMs")) { ch.UpdateRcvTimeout(c.i["rcvTimeoutMs"]); }
        if (gv.i.count("linger")) { ch.UpdateLinger(c.i["linger"]); }
        if (gv.i.count("rateLogging")) { ch.UpdateRateLogging(c.i["rateLogging"]); }
        if (gv.i.count("portRangeMin")) { ch.UpdatePortRangeMin(c.i["portRangeMin"]); }
        if (gv.i.count("portRangeMax")) { ch.UpdatePortRangeMax(c.i["portRangeMax"]); }
        if (gv.b.count("autoBind")) { ch.UpdateAutoBind(c.autoBind); }
        try { ch.UpdateTransport("bogus"); vp::violation("api-transport", "unknown transport accepted"); } catch (exception&) {}
        auto d = chanDiff(ch, c);
        VP_CHECK(d.empty(), "api-update", "updated channel: %s", d.c_str());
        cfg.AddChannel(name, ch);
        m[name].push_back(c);
        h = vp::mix(h, vp::hash(name + c.s["address"] + to_string(c.i["linger"])));
    }
    auto all = cfg.GetPropertiesStartingWith("chans.");
    compare(all, m, "api", "channels added through the API");
    auto info = cfg.GetChannelInfo();
    for (auto& c : m) {
        VP_CHECK(info[c.first] == static_cast<int>(c.second.size()), "api-info", "%d sub-channels of %s, added %zu", info[c.first], c.first.c_str(), c.second.size());
        for (size_t i = 0; i < c.second.size(); ++i) {
            Channel rb(c.first, static_cast<int>(i), cfg.GetPropertiesStartingWith(fmt("chans.%s.%zu.", c.first.c_str(), i)));
            auto d = chanDiff(rb, c.second[i]);
            VP_CHECK(d.empty(), "api-read-back", "%s[%zu]: %s", c.first.c_str(), i, d.c_str());
        }
    }
    // a part of the settings only: the documented defaults for the rest
    Given part = g.given(1, 3);
    Properties p;
    for (auto& x : part.s) { p["chans.n.3." + x.first] = x.second; }
    for (auto& x : part.i) { p["chans.n.3." + x.first] = x.second; }
    for (auto& x : part.b) { p["chans.n.3." + x.first] = x.second; }
    Cfg c;
    c.apply(part);
    auto d = chanDiff(Channel("n", 3, p), c);
    VP_CHECK(d.empty(), "api-partial", "channel from partial settings: %s", d.c_str());
    vp::evaluated(h);
}

// ---------------------------------------------------------------- validation
void validateMode(uint64_t, vp::Rng& r)
{
    Gen g{r, false, false};
    for (int rep = 0; rep < 20; ++rep) {
        vector<string> ways;   // defects built in: "false" or "throw"
        string name = g.chanName() + "[0]", type = r.pick(kTypes), method = r.chance(1, 2) ? "bind" : "connect";
        auto goodEp = [&] {
            switch (r.below(4)) {
                case 0: return string(r.pick(vector<string>{"tcp://127.0.0.1:5555", "tcp://*:1", "tcp://localhost:*", "tcp://eth0:12", "tcp://[::1]:5", "tcp://host.name-x:65535", "tcp://:1"}));
                case 1: return string(r.pick(vector<string>{"ipc://x", "ipc://@abc", "ipc:///tmp/a b", "ipc://tcp://"}));
                case 2: return string(r.pick(vector<string>{"inproc://x", "inproc:// ", "inproc://a:b"}));
                default: return string(r.pick(vector<string>{"verbs://x", "verbs://10.0.0.1:1"}));
            }
        };
        static const vector<string> badEp{"tcp://localhost", "tcp://", "ipc://", "inproc://", "verbs://", "bla", "udp://a:1", "tcp:/a:1", "TCP://a:1", "://a:1", "x", " tcp://a:1", "unspecifie", "ipc:/x", "inproc:x", "tcp//a:1", "http://a:1"};
        unsigned neps = 1 + static_cast<unsigned>(r.below(r.chance(1, 3) ? 4 : 1));
        vector<string> eps;
        bool needMethod = false;
        for (unsigned k = 0; k < neps; ++k) {
            bool mod = r.chance(1, 4);
            needMethod = needMethod || !mod;
            eps.push_back((mod ? string(1, r.pick(string("@+>"))) : "") + goodEp());
        }
        int bufs[5]{};
        for (auto& b : bufs) { b = static_cast<int>(r.below(5000)); }
        unsigned defects = static_cast<unsigned>(r.below(r.chance(1, 4) ? 3 : 2));
        bool badAddress = false;
        for (unsigned k = 0; k < defects; ++k) {
            switch (r.below(6)) {
                case 0: name = name.substr(0, r.below(name.size())) + r.pick(vector<string>{".", " ", "/", "\xc3\xa9", "$", ":", ",", ";", "\\", "\"", "\n", "=", "@", "(", "{", "|"}) + "n"; ways.push_back("false"); break;
                case 1: type = r.pick(vector<string>{"", "Push", "pus", "pushh", "unspecified", "spub", "stream", "push ", "server"}); ways.push_back("throw"); break;
                case 2:
                    method = r.pick(vector<string>{"", "unspecified", "Bind", "bindd", "conn", "bind "});
                    if (needMethod) { ways.push_back("throw"); }
                    break;
                case 3: {
                    size_t at = r.below(eps.size());
                    bool mod = r.chance(1, 4);
                    needMethod = needMethod || !mod;
                    eps[at] = (mod ? string(1, r.pick(string("@+>"))) : "") + r.pick(badEp);
                    ways.push_back("false");
                    badAddress = true;
                    break;
                }
                case 4: eps = {r.chance(1, 2) ? "unspecified" : ""}; ways.push_back("false"); badAddress = true; break;
                default: bufs[r.below(5)] = r.chance(1, 2) ? -1 : -1 - static_cast<int>(r.below(1000)); ways.push_back("throw"); break;
            }
        }
        if (badAddress) { needMethod = true; }   // an endpoint replaced afterwards may have changed this
        string address;
        for (size_t k = 0; k < eps.size(); ++k) { address += (k ? "," : "") + eps[k]; }
        if (method != "bind" && method != "connect") {
            // legal only if every endpoint brings its own
            bool all = true;
            for (auto& e : eps) { all = all && !e.empty() && string("@+>").find(e[0]) != string::npos; }
            if (!all) { ways.push_back("throw"); }
            else if (ways.size() == 1 && ways[0] == "throw") { ways = {"maybe"}; }
        }
        Channel c(name, type, method, address, nullptr);
        c.UpdateSndBufSize(bufs[0]);
        c.UpdateRcvBufSize(bufs[1]);
        c.UpdateSndKernelSize(bufs[2]);
        c.UpdateRcvKernelSize(bufs[3]);
        c.UpdateRateLogging(bufs[4]);
        string res;
        for (int again = 0; again < 2; ++again) {
            string got;
            try { got = c.Validate() ? "true" : "false"; }
            catch (Channel::ChannelConfigurationError&) { got = "throw"; }
            catch (exception& e) { got = string("other exception ") + e.what(); }
            if (again) { VP_CHECK(got == res, "validate-repeat", "first %s, then %s", res.c_str(), got.c_str()); }
            res = got;
        }
        string desc = fmt("name '%s' type '%s' method '%s' address '%s' sizes %d %d %d %d %d", name.c_str(), type.c_str(), method.c_str(), address.c_str(), bufs[0], bufs[1], bufs[2], bufs[3], bufs[4]);
        VP_CHECK(c.IsValid() == (res == "true"), "valid-flag", "Validate %s but IsValid %d", res.c_str(), c.IsValid());
        if (ways.empty()) { VP_CHECK(res == "true", "validate-legal", "legal channel gives %s: %s", res.c_str(), desc.c_str()); vp::count("legal"); }
        else if (ways[0] != "maybe") {
            bool allowed = false;
            for (auto& w : ways) { allowed = allowed || w == res; }
            VP_CHECK(allowed, res == "true" ? "validate-illegal-accepted" : "validate-illegal-result", "%s for %s", res.c_str(), desc.c_str());
            vp::count("illegal");
        }
        if (res == "true") {
            // any change needs validation again
            switch (r.below(8)) {
                case 0: c.UpdateName("n2[0]"); break;
                case 1: c.UpdateType("bogus"); break;
                case 2: c.UpdateMethod("bind"); break;
                case 3: c.UpdateAddress("x"); break;
                case 4: c.UpdateSndBufSize(-3); break;
                case 5: c.UpdateRateLogging(-1); break;
                case 6: c.UpdateTransport("shmem"); break;
                default: c.UpdateRcvKernelSize(-7); break;
            }
            VP_CHECK(!c.IsValid(), "valid-after-update", "changed channel still counts as validated");
        }
        vp::evaluated(vp::hash(desc));
        if (rep == 0) { vp::sample(desc + " -> " + res); }
    }
}

// ---------------------------------------------------------------- through the config plugin into a device
struct Dev : Device {};

void deviceMode(uint64_t n, vp::Rng& r)
{
    const bool json = r.chance(1, 2);
    Gen g{r, true, !json};
    Json j{r};
    Model m;
    const string id = "device1", key = "thekey";
    ProgOptions cfg;
    string session = tx::newSession();
    cfg.SetProperty<string>("session", session);
    cfg.SetProperty<size_t>("shm-segment-size", 1 << 20);
    cfg.SetProperty<string>("id", id);
    cfg.SetProperty<int>("init-timeout", 5);
    const bool useKey = r.chance(1, 3);
    if (useKey) { cfg.SetProperty<string>("config-key", key); }
    const string defTransport = r.chance(1, 3) ? "shmem" : "zeromq";
    cfg.SetProperty<string>("transport", defTransport);
    string text, file;
    if (json) {
        text = genJson(g, j, useKey ? key : id, m, 3);
        file = writeFile(text);
        cfg.SetProperty<string>("mq-config", file);
    } else {
        auto o = genSubopt(g, m, 3);
        for (auto& x : o) { text += x + " | "; }
        cfg.SetProperty<vector<string>>("channel-config", o);
    }
    // every endpoint bound only once
    set<string> seen;
    bool canAttach = true;
    for (auto& c : m) { for (auto& s : c.second) { canAttach = canAttach && seen.insert(s.s["address"]).second && s.s["address"].rfind("tcp", 0) != 0; } }
    for (auto& c : m) {   // not everything legal for the parser is legal for a pair of zeromq options
        for (auto& s : c.second) { const bool pubsub = s.s["type"].find("pub") != string::npos || s.s["type"].find("sub") != string::npos;
            const string tn = s.s["transport"] == "default" ? defTransport : s.s["transport"];
            canAttach = canAttach && !(tn == "shmem" && pubsub);   // not supported
            canAttach = canAttach && s.i["sndKernelSize"] < 100000 && s.i["rcvKernelSize"] < 100000; }
        canAttach = canAttach && c.first.find_first_of("[]") == string::npos;
    }
    {
        Dev dev;
        dev.SetConfig(cfg);
        PluginManager mgr;
        mgr.LoadPlugin("s:config");
        mgr.EmplacePluginServices(cfg, dev);
        mgr.InstantiatePlugins();
        atomic<bool> failed{false};
        string err;
        thread t([&] { try { dev.RunStateMachine(); } catch (exception& e) { err = e.what(); failed = true; } });
        auto go = [&](Transition tr, State s) {
            dev.ChangeState(tr);
            try { dev.WaitForState(s); return true; } catch (exception& e) { return false; }
        };
        bool ok = go(Transition::InitDevice, State::InitializingDevice) && go(Transition::CompleteInit, State::Initialized);
        if (ok) {
            auto& chs = dev.GetChannels();
            VP_CHECK(chs.size() == m.size(), "device-channels", "device has %zu channels, configured %zu; from %s", chs.size(), m.size(), text.substr(0, 1500).c_str());
            for (auto& c : m) {
                VP_CHECK(chs.count(c.first) && chs.at(c.first).size() == c.second.size(), "device-subchannels", "channel %s", c.first.c_str());
                if (!chs.count(c.first) || chs.at(c.first).size() != c.second.size()) { continue; }
                for (size_t i = 0; i < c.second.size(); ++i) {
                    Cfg x = c.second[i];
                    auto& ch = chs.at(c.first).at(i);
                    string tn = x.s["transport"] == "default" ? defTransport : x.s["transport"];
                    const string given = x.s["transport"];
                    x.s["transport"] = tn;   // the default is resolved with the device's
                    auto d = chanDiff(ch, x);
                    VP_CHECK(d.empty(), "device-channel", "%s[%zu]: %s; from %s", c.first.c_str(), i, d.c_str(), text.substr(0, 1500).c_str());
                    VP_CHECK(ch.Transport() && TransportName(ch.Transport()->GetType()) == tn, "device-transport", "%s[%zu] uses %s, configured %s (default %s)", c.first.c_str(), i,
                             TransportName(ch.Transport()->GetType()).c_str(), given.c_str(), defTransport.c_str());
                    vp::count("device_channels");
                }
            }
            // the device default survives for the other settings, and the sockets get what was configured
            if (canAttach && !m.empty()) {
                ok = go(Transition::Bind, State::Bound) && go(Transition::Connect, State::DeviceReady);
                VP_CHECK(ok, "device-attach", "device with legal channels fails to attach: from %s", text.substr(0, 1500).c_str());
                if (ok) {
                    for (auto& c : m) {
                        for (size_t i = 0; i < c.second.size(); ++i) {
                            auto& s = dev.GetChannel(c.first, static_cast<int>(i)).GetSocket();
                            auto& x = c.second[i];
                            VP_CHECK(s.GetLinger() == x.i["linger"], "socket-linger", "%d, configured %d", s.GetLinger(), x.i["linger"]);
                            VP_CHECK(s.GetSndBufSize() == x.i["sndBufSize"] && s.GetRcvBufSize() == x.i["rcvBufSize"], "socket-hwm", "%d/%d, configured %d/%d", s.GetSndBufSize(), s.GetRcvBufSize(), x.i["sndBufSize"], x.i["rcvBufSize"]);
                            VP_CHECK(x.i["sndKernelSize"] == 0 || s.GetSndKernelSize() == x.i["sndKernelSize"], "socket-kernel", "%d, configured %d", s.GetSndKernelSize(), x.i["sndKernelSize"]);
                            VP_CHECK(x.i["rcvKernelSize"] == 0 || s.GetRcvKernelSize() == x.i["rcvKernelSize"], "socket-kernel", "%d, configured %d", s.GetRcvKernelSize(), x.i["rcvKernelSize"]);
                            vp::count("sockets_compared");
                        }
                    }
                }
            }
            if (ok) { go(Transition::ResetDevice, State::Idle); go(Transition::End, State::Exiting); }
        } else { vp::violation("device-init", "device with legal channels fails to initialize from " + text.substr(0, 1500)); }
        if (!ok) { dev.ChangeState(Transition::ErrorFound); }
        t.join();
        VP_CHECK(!ok || !failed, "device-failed", "%s", err.c_str());
    }
    if (!file.empty()) { unlink(file.c_str()); }
    shmem::Monitor::Cleanup(shmem::SessionId{session}, false);
    vp::evaluated(vp::mix(vp::hash(text), n), !m.empty());
}

// ---------------------------------------------------------------- arbitrary texts
void fuzzMode(uint64_t, vp::Rng& r)
{
    const bool json = r.chance(1, 2);
    Gen g{r, false, !json};
    Json j{r};
    static const vector<string> jd{"{", "}", "[", "]", ",", ":", "\"", "null", "true", "-1", "1e99", "99999999999999999999", "\"name\"", "\"sockets\"", "\"numSockets\":2", "\"channels\"", "\"devices\"", "\"fairMQOptions\"",
                                   "\"type\"", "\"autoBind\"", "\\", "\\u", "\\uD800", "\xff", "\"key\"", "\"id\"", "\"address\"", "{}", "[]", "\"\"", "\"device1\""};
    static const vector<string> sd{"name", "name=", "address", "address=", ":", "=", ",", ",,", "type", "type=", "numSockets", "numSockets=-1", "numSockets=x", " ", "autoBind", "autoBind=2", "linger=", "linger=x", "linger=99999999999", "=,", ":=", "transport=bogus", "name=a,name=b", ";"};
    auto mutate = [&](string t, const vector<string>& dict) {
        unsigned k = 1 + static_cast<unsigned>(r.below(6));
        for (unsigned i = 0; i < k; ++i) {
            size_t p = t.empty() ? 0 : r.below(t.size() + 1);
            switch (r.below(6)) {
                case 0: t.insert(p, r.pick(dict)); break;
                case 1: if (p < t.size()) { t.erase(p, 1 + r.below(20)); } break;
                case 2: if (p < t.size()) { t[p] = static_cast<char>(r.below(256)); } break;
                case 3: t = t.substr(0, p); break;
                case 4: { size_t q = r.below(t.size() + 1), l = r.below(60); if (q < t.size()) { t.insert(p, t.substr(q, l)); } break; }
                default: if (p < t.size()) { size_t l = 1 + r.below(10); t.replace(p, min(l, t.size() - p), r.pick(dict)); } break;
            }
        }
        return t;
    };
    // huge socket counts only cost memory
    auto tooBig = [](const string& t) {
        for (size_t p = t.find("umSockets"); p != string::npos; p = t.find("umSockets", p + 1)) {
            unsigned run = 0, best = 0;
            for (size_t q = p; q < min(t.size(), p + 60); ++q) { run = isdigit(static_cast<unsigned char>(t[q])) ? run + 1 : 0; best = max(best, run); }
            if (best > 3) { return true; }
        }
        return false;
    };
    for (int rep = 0; rep < 10; ++rep) {
        Properties p;
        string text, outcome = "parsed";
        try {
            Model m;
            if (json) {
                text = mutate(genJson(g, j, "device1", m, 2), jd);
                if (tooBig(text)) { continue; }
                string f = writeFile(text);
                struct Rm { string f; ~Rm() { unlink(f.c_str()); } } rm{f};
                p = JSONParser(f, "device1");
            } else {
                auto o = genSubopt(g, m, 2);
                for (auto& x : o) {
                    if (r.chance(1, 2)) { x = mutate(x, sd); }
                    if (r.chance(1, 4)) {   // an entry loses its value
                        size_t e = x.find('=', x.empty() ? 0 : r.below(x.size()));
                        if (e != string::npos) { size_t c = x.find(',', e); x.erase(e, c == string::npos ? string::npos : c - e); }
                    }
                    text += x;
                    text += '\n';
                }
                if (r.chance(1, 10)) { o.clear(); }
                if (tooBig(text)) { continue; }
                p = SuboptParser(o, "device1");
            }
        } catch (exception& e) { outcome = "rejected"; }
        vp::count(outcome);
        // whatever came out can be stored and made into channels, or is rejected
        try {
            ProgOptions cfg;
            cfg.SetProperties(p);
            for (auto& i : cfg.GetChannelInfo()) {
                for (int k = 0; k < min(i.second, 20); ++k) {
                    Channel c(i.first, k, cfg.GetPropertiesStartingWith(fmt("chans.%s.%d.", i.first.c_str(), k)));
                    try { if (c.Validate()) { vp::count("valid_channels"); } } catch (Channel::ChannelConfigurationError&) {}
                    ostringstream s; s << c;
                }
            }
        } catch (exception&) { vp::count("channel_rejected"); }
        vp::evaluated(vp::hash(text));
    }
}

}   // namespace

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    fair::Logger::SetConsoleSeverity(getenv("VP_LOG") ? getenv("VP_LOG") : "nolog");
    vp::watchdog();
    string mode = vp::S().mode;
    if (mode == "json") { vp::forCases(400, jsonMode); }
    else if (mode == "subopt") { vp::forCases(400, suboptMode); }
    else if (mode == "api") { vp::forCases(300, apiMode); }
    else if (mode == "validate") { vp::forCases(300, validateMode); }
    else if (mode == "device") { vp::forCases(60, deviceMode); }
    else if (mode == "fuzz") { vp::forCases(400, fuzzMode); }
    else { return 2; }
    return vp::finish();
}
