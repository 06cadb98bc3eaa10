// C16: plugin lookup, loading, instantiation and removal against a model of the files and requests; complete
// runs of the device runner and of the stock main() judged by their hooks, output and exit code.
#include "tx.h"

#include <fairmq/Device.h>
#include <fairmq/DeviceRunner.h>
#include <fairmq/Plugin.h>
#include <fairmq/PluginManager.h>

#include <fcntl.h>
#include <sys/wait.h>

#define main vp_rundevice_main
#include <fairmq/runDevice.h>
#undef main

using namespace fair::mq;
using namespace std;
using vp::fmt;
namespace po = boost::program_options;

struct PEv { string what, name, file; const void* self; };
mutex gM;
vector<PEv> gEv;
int gLog = -1;
void rec(const string& s)
{
    string l = s + "\n";
    if (gLog >= 0 && ::write(gLog, l.data(), l.size()) < 0) {}
}
extern "C" __attribute__((visibility("default"))) void vp_plugin_event(const char* what, const char* name, const char* file, const void* self)
{
    lock_guard<mutex> l(gM);
    gEv.push_back({what, name, file, self});
    rec(string("P ") + what + " " + name + " " + file);
}

namespace
{
struct Prelinked : Plugin
{
    Prelinked(const string& n, const Plugin::Version v, const string& m, const string& h, PluginServices* s) : Plugin(n, v, m, h, s) { vp_plugin_event("new", n.c_str(), "", this); }
    ~Prelinked() override { vp_plugin_event("del", GetName().c_str(), "", this); }
};
void throwKind()
{
    const char* k = getenv("VP_THROW_KIND");
    switch (k ? atoi(k) : 0) {
        case 1: throw logic_error("planned");
        case 2: throw bad_alloc();
        case 3: throw ios_base::failure("planned");
        case 4: throw exception();
        default: throw runtime_error("planned");
    }
}
struct PrelinkedThrower : Plugin
{
    PrelinkedThrower(const string& n, const Plugin::Version v, const string& m, const string& h, PluginServices* s) : Plugin(n, v, m, h, s) { vp_plugin_event("throw", n.c_str(), "", this); throwKind(); }
};
Plugin::ProgOptions xaOptions()
{
    po::options_description o("options of xa");
    o.add_options()("xa-opt", po::value<int>()->default_value(77), "an option");
    return o;
}
REGISTER_FAIRMQ_PLUGIN(Prelinked, xa, (Plugin::Version{1, 0, 0}), "m", "h", xaOptions)
REGISTER_FAIRMQ_PLUGIN(Prelinked, xb, (Plugin::Version{1, 0, 0}), "m", "h", fair::mq::Plugin::NoProgramOptions)
REGISTER_FAIRMQ_PLUGIN(PrelinkedThrower, xt, (Plugin::Version{1, 0, 0}), "m", "h", fair::mq::Plugin::NoProgramOptions)
auto Make_xg_Plugin(PluginServices* s) -> unique_ptr<Plugin> { return make_unique<Prelinked>("xg", Plugin::Version{1, 0, 0}, "m", "h", s); }
BOOST_DLL_ALIAS(Make_xg_Plugin, make_xg_plugin)

string gSo;       // the library all plugin files are copies of
string gSys;      // directory the dynamic linker searches
int gDir = 0;

void copyTo(const string& to)
{
    int a = open(gSo.c_str(), O_RDONLY | O_CLOEXEC), b = open(to.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0755);
    char buf[1 << 16];
    ssize_t n;
    while ((n = read(a, buf, sizeof buf)) > 0) { if (write(b, buf, n) != n) { break; } }
    close(a);
    close(b);
}
void putText(const string& f, const string& t) { FILE* p = fopen(f.c_str(), "w"); if (p) { fputs(t.c_str(), p); fclose(p); } }
bool exists(const string& f) { return access(f.c_str(), F_OK) == 0; }
string real(const string& p) { char b[PATH_MAX]; return realpath(p.c_str(), b) ? b : p; }

const vector<string> kPrefix = {"fairmq-plugin-", "FairMQPlugin_"};
// normal, without options, throwing, without factory, without options symbol
const vector<string> kDyn = {"pa", "pb", "pc", "pd", "qa", "qb", "th", "nm", "ng"};
const map<string, string> kOpts = {{"pa", "pa-opt"}, {"pb", "pb-opt"}, {"pc", "pc-opt"}, {"pd", "pd-opt"}, {"sa", "sa-opt"}, {"xa", "xa-opt"}};

struct Model
{
    vector<string> path;
    vector<string> order;                 // loaded plugins
    map<string, string> file;             // file each was loaded from ("" in the executable)
    string search(const string& n) const
    {
        for (auto& d : path) { for (auto& pr : kPrefix) { string f = d + "/lib" + pr + n + ".so"; if (exists(f)) { return f; } } }
        return "";
    }
};
bool isText(const string& f)
{
    FILE* p = fopen(f.c_str(), "r");
    char b[4] = {};
    if (p) { if (fread(b, 1, 4, p) < 4) {} fclose(p); }
    return memcmp(b, "\177ELF", 4) != 0;
}
string join(const vector<string>& v)
{
    string s;
    for (auto& x : v) { s += (s.empty() ? "" : ",") + x; }
    return s;
}
size_t loaded(const Model& m, const string& n) { return count(m.order.begin(), m.order.end(), n); }

// returns whether loading has to succeed, updates the model
bool modelLoad(Model& m, const string& spec)
{
    string mech = spec.size() > 1 && spec[1] == ':' ? spec.substr(0, 2) : "d:", n = spec.size() > 1 && spec[1] == ':' ? spec.substr(2) : spec;
    if (loaded(m, n)) { return true; }
    if (mech == "p:" || mech == "s:") {
        bool ok = n == "xa" || n == "xb" || n == "xt" || (mech == "s:" && (n == "config" || n == "control"));
        if (ok) { m.order.push_back(n); m.file[n] = ""; }
        return ok;
    }
    bool sym = (n[0] == 'p' || n[0] == 'q' || n[0] == 's' || n == "th") && n != "spare";
    string f = m.search(n);
    if (!f.empty() && !isText(f) && sym) { m.order.push_back(n); m.file[n] = real(f); return true; }
    for (auto& pr : kPrefix) {
        string g = gSys + "/lib" + pr + n + ".so";
        if (exists(g) && sym) { m.order.push_back(n); m.file[n] = real(g); return true; }
    }
    return false;
}

struct Quiet : Device { Quiet() { SetTransport("zeromq"); } };

void mgrCase(uint64_t, vp::Rng& r)
{
    vp::phase("manager");
    string root = tx::scratch() + fmt("/m%d", gDir++);
    mkdir(root.c_str(), 0755);
    vector<string> dirs, files;
    int nd = 2 + r.below(5);
    string desc;
    for (int i = 0; i < nd; ++i) {
        string d = root + fmt("/d%d", i);
        if (r.chance(1, 7)) { dirs.push_back(d); continue; }   // does not exist
        mkdir(d.c_str(), 0755);
        dirs.push_back(d);
        for (auto& n : kDyn) {
            for (size_t k = 0; k < 2; ++k) {
                if (r.chance(k ? 1 : 2, 7)) {
                    string f = d + "/lib" + kPrefix[k] + n + ".so";
                    if (r.chance(1, 12)) { putText(f, "this is no library\n"); } else { copyTo(f); }
                    files.push_back(f);
                }
            }
        }
    }
    string regular = root + "/regular.so";
    putText(regular, "x");
    auto pickSpec = [&] {
        int x = r.below(20);
        if (x < 12) { string n = r.pick(kDyn); if ((n == "th" || n == "nm" || n == "ng") && r.chance(1, 2)) { n = "pa"; } return (r.chance(1, 3) ? "d:" : "") + n; }
        if (x < 13) { return string(r.chance(1, 2) ? "sa" : "d:sb"); }
        if (x < 14) { return string("spare"); }
        if (x < 16) { return string(r.chance(1, 2) ? "s:config" : "s:control"); }
        if (x < 17) { return string(r.chance(1, 2) ? "p:xg" : "p:nothere"); }
        string n = r.pick(vector<string>{"xa", "xb", "xa", "xb", "xt"});
        return (r.chance(1, 2) ? "p:" : "s:") + n;
    };
    Model m;
    unique_ptr<PluginManager> mgr;
    bool viaArgs = r.chance(1, 3);
    if (viaArgs) {
        vector<string> a, given, pre, app;
        if (r.chance(1, 2)) { a.push_back("--some-other-option"); a.push_back("17"); }
        bool bad = false;
        int n = r.below(5);
        if (n) {
            a.push_back(r.chance(1, 2) ? "-S" : "--plugin-search-path");
            for (int i = 0; i < n; ++i) {
                string d = r.chance(1, 25) ? regular : r.pick(dirs);
                bad = bad || d == regular;
                int k = r.below(3);
                if (k == 0) { given.push_back(d); a.push_back(d); } else if (k == 1) { pre.push_back(d); a.push_back("<" + d); } else { app.push_back(d); a.push_back(">" + d); }
                if (r.chance(1, 4) && i + 1 < n) { a.push_back("-S"); }
            }
            if (r.chance(1, 20)) { a.push_back("<"); bad = true; }
        }
        m.path = given;
        for (auto& d : pre) { m.path.insert(m.path.begin(), d); }
        m.path.insert(m.path.end(), app.begin(), app.end());
        vector<string> specs;
        for (int k = r.below(4); k > 0; --k) { specs.push_back(pickSpec()); a.push_back("-P"); a.push_back(specs.back()); }
        bool parse = r.chance(1, 15);
        if (parse) { a.push_back(r.chance(1, 2) ? "-P" : "-S"); }
        if (!parse && r.chance(1, 3)) { a.push_back("--help"); }
        desc = "args " + join(a) + "; ";
        bool loadOk = true;
        Model m2 = m;
        if (!bad && !parse) { for (auto& s : specs) { if (!modelLoad(m2, s)) { loadOk = false; break; } } }
        string got = "none", want = parse ? "parse" : bad ? "path" : loadOk ? "none" : "load";
        try { mgr = make_unique<PluginManager>(a); }
        catch (PluginManager::ProgramOptionsParseError&) { got = "parse"; }
        catch (PluginManager::BadSearchPath&) { got = "path"; }
        catch (PluginManager::PluginLoadError&) { got = "load"; }
        catch (exception& e) { got = string("other: ") + e.what(); }
        // "--help" after a value-less option is taken for its value by nobody: both orders of failure are fine
        VP_CHECK(got == want, "mgr:args", "constructing the manager: error '%s', expected '%s'; %s", got.c_str(), want.c_str(), desc.c_str());
        vp::count(want == "none" ? "managers from arguments" : "rejected arguments");
        if (got != "none" || want != "none") { vp::evaluated(vp::hash(want + to_string(a.size()))); return; }
        m = m2;
    } else {
        mgr = make_unique<PluginManager>();
        for (int k = 1 + r.below(5); k > 0; --k) {
            string d = r.chance(1, 15) ? regular : r.chance(1, 25) ? string() : r.pick(dirs);
            bool bad = d == regular || d.empty(), threw = false;
            int what = r.below(3);
            try {
                if (what == 0) { mgr->AppendSearchPath(d); if (!bad) { m.path.push_back(d); } }
                else if (what == 1) { mgr->PrependSearchPath(d); if (!bad) { m.path.insert(m.path.begin(), d); } }
                else {
                    string e = r.pick(dirs);
                    mgr->SetSearchPaths({e, d});
                    if (!bad) { m.path = {e, d}; }
                }
            } catch (PluginManager::BadSearchPath&) { threw = true; }
            catch (exception& e) { vp::violation("mgr:path-error", fmt("search path '%s': %s", d.c_str(), e.what())); }
            VP_CHECK(threw == bad, "mgr:bad-path", "search path '%s' was %s", d.c_str(), threw ? "rejected" : "accepted");
        }
    }
    auto checkPath = [&] {
        vector<string> got;
        for (auto& p : mgr->SearchPaths()) { got.push_back(p.string()); }
        VP_CHECK(got == m.path, "mgr:search-paths", "search paths %s, expected %s; %s", join(got).c_str(), join(m.path).c_str(), desc.c_str());
    };
    checkPath();
    for (auto& n : kDyn) {
        string want = m.search(n), got;
        try { got = mgr->SearchPluginFile(n).string(); } catch (PluginManager::PluginNotFound&) { got = ""; }
        VP_CHECK(got == want, "mgr:search", "file of plugin %s: '%s', expected '%s'; paths %s", n.c_str(), got.c_str(), want.c_str(), join(m.path).c_str());
    }
    ProgOptions cfg;
    cfg.SetProperty<string>("control", "none");
    cfg.SetProperty<int>("catch-signals", 0);
    cfg.SetProperty<int>("xa-opt", 5);
    cfg.SetProperty<int>("pa-opt", 6);
    Quiet dev;
    mgr->EmplacePluginServices(cfg, dev);
    { lock_guard<mutex> l(gM); gEv.clear(); }

    vector<string> done;       // instantiated, in order
    vector<string> expectEv;
    auto load = [&](const string& spec) {
        bool want = modelLoad(m, spec);
        string got = "ok";
        try { if (r.chance(1, 4)) { mgr->LoadPlugins({spec, spec}); } else { mgr->LoadPlugin(spec); } }
        catch (PluginManager::PluginLoadError& e) { got = "load"; }
        catch (exception& e) { got = string("other: ") + e.what(); }
        desc += spec + (want ? " " : "! ");
        VP_CHECK(got == (want ? "ok" : "load"), want ? "mgr:load" : "mgr:load-error", "loading %s: %s; search paths %s; %s", spec.c_str(), got.c_str(), join(m.path).c_str(), desc.c_str());
        if (!want && got == "load" && r.chance(1, 2)) {
            got = "ok";
            try { mgr->LoadPlugin(spec); } catch (PluginManager::PluginLoadError& e) { got = "load"; } catch (exception& e) { got = string("other: ") + e.what(); }
            VP_CHECK(got == "load", "mgr:load-retry", "loading %s again after it failed: %s although it is still not loaded; %s", spec.c_str(), got.c_str(), desc.c_str());
        }
        // what failed for lack of a file succeeds once there is one
        if (!want && spec == "spare") {
            string d = root + "/late";
            mkdir(d.c_str(), 0755);
            string f = d + "/lib" + kPrefix[r.below(2)] + "pd.so";
            if (!exists(f)) { copyTo(f); }   // never write into a library which may be mapped
            mgr->PrependSearchPath(d);
            m.path.insert(m.path.begin(), d);
        }
    };
    auto visit = [&](const char* when) {
        vector<string> got;
        mgr->ForEachPlugin([&](Plugin& p) { got.push_back(p.GetName()); });
        VP_CHECK(got == done, "mgr:visit", "%s: visited %s, instantiated are %s; %s", when, join(got).c_str(), join(done).c_str(), desc.c_str());
    };
    int phases = 1 + r.below(3);
    for (int ph = 0; ph < phases; ++ph) {
        for (int k = r.below(6); k > 0; --k) { load(pickSpec()); }
        checkPath();
        vector<string> optNames, wantOpt;
        mgr->ForEachPluginProgOptions([&](po::options_description o) { for (auto& x : o.options()) { string l = x->long_name(); if (l.size() == 6 && l.substr(2) == "-opt") { optNames.push_back(l); } } });
        for (auto& n : m.order) { auto it = kOpts.find(n); if (it != kOpts.end()) { wantOpt.push_back(it->second); } }
        sort(optNames.begin(), optNames.end());
        sort(wantOpt.begin(), wantOpt.end());
        VP_CHECK(optNames == wantOpt, "mgr:options", "options of the plugins: %s, expected %s; %s", join(optNames).c_str(), join(wantOpt).c_str(), desc.c_str());
        if (r.chance(1, 4)) { visit("before instantiation"); }
        // instantiate
        vector<string> wantEv, newly;
        bool fails = false;
        for (auto& n : m.order) {
            if (count(done.begin(), done.end(), n)) { continue; }
            if (n == "th" || n == "xt") { wantEv.push_back("throw " + n + " " + m.file[n]); fails = true; break; }
            newly.push_back(n);
            if (n == "config" || n == "control") { continue; }
            wantEv.push_back("new " + n + " " + m.file[n]);
            auto o = kOpts.find(n);
            if (o != kOpts.end() && n[0] != 'x' && cfg.Count(o->second)) { wantEv.push_back("opt " + n + " 6"); }
        }
        string got = "ok";
        setenv("VP_THROW_KIND", to_string(r.below(5)).c_str(), 1);
        try { mgr->InstantiatePlugins(); } catch (PluginManager::PluginInstantiationError&) { got = "inst"; } catch (exception& e) { got = string("other: ") + e.what(); }
        VP_CHECK(got == (fails ? "inst" : "ok"), "mgr:instantiate", "instantiating %s: %s; %s", join(m.order).c_str(), got.c_str(), desc.c_str());
        done.insert(done.end(), newly.begin(), newly.end());
        vector<string> ev;
        { lock_guard<mutex> l(gM); for (auto& e : gEv) { ev.push_back(e.what + " " + e.name + " " + (e.what == "opt" ? e.file : e.file.empty() ? "" : real(e.file))); } gEv.clear(); }
        VP_CHECK(ev == wantEv, "mgr:instances", "instantiation events [%s], expected [%s]; %s", join(ev).c_str(), join(wantEv).c_str(), desc.c_str());
        for (auto& n : newly) { if (n[0] == 'p' || n[0] == 'q') { VP_CHECK(cfg.Count("seen-by-" + n), "mgr:services", "plugin %s did not reach the configuration of its device", n.c_str()); } }
        visit(fails ? "after a plugin failed" : "after instantiation");
        // nothing is instantiated a second time
        if (r.chance(1, 2)) {
            try { mgr->InstantiatePlugins(); } catch (PluginManager::PluginInstantiationError&) {}
            lock_guard<mutex> l(gM);
            size_t n = 0;
            for (auto& e : gEv) { n += e.what == "new"; }
            VP_CHECK(n == 0, "mgr:twice", "%zu plugins were instantiated a second time; %s", n, desc.c_str());
            gEv.clear();
        }
    }
    mgr.reset();
    multiset<string> gone, want;
    { lock_guard<mutex> l(gM); for (auto& e : gEv) { VP_CHECK(e.what == "del", "mgr:destroy", "%s %s while the manager is destroyed", e.what.c_str(), e.name.c_str()); gone.insert(e.name); } gEv.clear(); }
    for (auto& n : done) { if (n != "config" && n != "control") { want.insert(n); } }
    VP_CHECK(gone == want, "mgr:destroy", "%zu plugins were destroyed with their manager, %zu were instantiated; %s", gone.size(), want.size(), desc.c_str());
    vp::count("plugins instantiated", done.size());
    vp::count("plugin files", files.size());
    vp::evaluated(vp::hash(desc + join(m.path).substr(0, 0) + to_string(files.size())), !done.empty());
    vp::sample(desc + " -> " + join(done));
    for (auto& f : files) { unlink(f.c_str()); }
}

// ------------------------------------------------------------------ the runner
struct RDev : Device
{
    explicit RDev(bool boom) : boom_(boom) { rec("DEVICE"); }
    ~RDev() override { rec("~DEVICE"); }
    bool boom_;
    void RegisterChannelEndpoints() override { RegisterChannelEndpoint("in", 1, 3); RegisterChannelEndpoint("out", 2); }
    void Init() override
    {
        string a;
        for (auto& x : GetRawCmdLineArgs()) { a += " " + x; }
        rec("ARGS" + a);
        rec("ID " + fId);
    }
    void InitTask() override { if (GetConfig()->Count("my-custom")) { rec("CUSTOM " + GetConfig()->GetPropertyAsString("my-custom")); } }
    void Run() override { rec("RUN"); if (boom_) { throw runtime_error("planned failure"); } }
};

int child()
{
    gLog = open(vp::optS("log", "/dev/null").c_str(), O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
    string hookArg = vp::optS("hookarg", "");
    string throwIn = vp::optS("throwin", "");
    setenv("VP_THROW_KIND", to_string(vp::optU("throwkind", 0)).c_str(), 1);
    vector<string> a = {"vpdevice"};
    for (auto& x : vp::S().args) { a.push_back(x.rfind("A:", 0) == 0 ? x.substr(2) : x); }
    vector<char*> v;
    for (auto& x : a) { v.push_back(const_cast<char*>(x.c_str())); }
    v.push_back(nullptr);
    int argc = static_cast<int>(v.size()) - 1;
    if (vp::optU("stock", 0)) { int rc = vp_rundevice_main(argc, v.data()); rec(fmt("RET %d", rc)); return rc; }
    int rc;
    try {
        DeviceRunner runner(argc, v.data(), vp::optU("logo", 1));
        auto at = [throwIn](const char* n) { rec(string("HOOK ") + n); if (throwIn == n) { throw runtime_error("planned failure in hook"); } };
        runner.AddHook<hooks::InstantiateDevice>([at](DeviceRunner& d) { at("device"); if (!vp::optU("nodevice", 0)) { d.fDevice = make_unique<RDev>(vp::optU("boom", 0)); } });
        runner.AddHook<hooks::ModifyRawCmdLineArgs>([at, hookArg](DeviceRunner& d) { at("args"); if (!hookArg.empty()) { d.fRawCmdLineArgs.push_back("--id"); d.fRawCmdLineArgs.push_back(hookArg); } });
        runner.AddHook<hooks::SetCustomCmdLineOptions>([at](DeviceRunner& d) {
            at("options");
            po::options_description o("mine");
            o.add_options()("my-custom", po::value<int>()->default_value(1), "custom");
            d.fConfig.AddToCmdLineOptions(o);
        });
        runner.AddHook<hooks::LoadPlugins>([at](DeviceRunner& d) { at("plugins"); if (vp::optU("hookplugin", 0)) { d.fPluginManager.LoadPlugin("p:xb"); } });
        rc = vp::optU("guarded", 1) ? runner.RunWithExceptionHandlers() : runner.Run();
        rec(fmt("RET %d", rc));
    } catch (exception& e) { rec(string("EXC ") + typeid(e).name()); rc = 1; }
    rec("GONE");
    return rc;
}

vector<string> lines(const string& f)
{
    vector<string> r;
    FILE* p = fopen(f.c_str(), "r");
    char b[4000];
    while (p && fgets(b, sizeof b, p)) { b[strcspn(b, "\n")] = 0; r.push_back(b); }
    if (p) { fclose(p); }
    return r;
}

void runnerCase(uint64_t c, vp::Rng& r, const char* self)
{
    string d = tx::scratch(), log = d + fmt("/rl%llu", (unsigned long long)c), out = d + fmt("/ro%llu", (unsigned long long)c);
    unlink(log.c_str());
    static string plug;
    {
        static mutex pm;
        lock_guard<mutex> l(pm);
        if (plug.empty()) { plug = d + "/plug"; mkdir(plug.c_str(), 0755); for (auto n : {"pa", "pb", "qa", "th"}) { copyTo(plug + "/libfairmq-plugin-" + n + ".so"); } }
    }
    bool stock = r.chance(1, 3);
    vector<string> a;             // device arguments
    vector<string> ctl = {"--mode=child", "--out=" + vp::S().out + ".child", "--log=" + log};
    string what = r.pick(vector<string>{"run", "run", "run", "help", "print-options", "version", "print-channels", "unknown", "badvalue", "boom", "nodevice", "throwin", "badpath", "badplugin", "thrower", "badparse"});
    if (stock && (what == "nodevice" || what == "throwin")) { what = "run"; }
    if (stock) { ctl.push_back("--stock=1"); }
    bool guarded = r.chance(1, 2), logo = r.chance(1, 2), hookPlugin = !stock && r.chance(1, 2);
    ctl.push_back(fmt("--guarded=%d", guarded));
    ctl.push_back(fmt("--logo=%d", logo));
    if (hookPlugin) { ctl.push_back("--hookplugin=1"); }
    string id = fmt("id%llu", (unsigned long long)r.below(1000)), hookId;
    vector<string> plugins;
    if (r.chance(1, 2)) { plugins = r.chance(1, 2) ? vector<string>{"pb", "pa"} : vector<string>{"qa", "pa", "pb"}; }
    if (r.chance(1, 5)) { plugins.push_back("p:xa"); }
    if (what == "thrower") { ctl.push_back("--throwkind=" + to_string(r.below(5))); plugins.insert(plugins.begin() + r.below(plugins.size() + 1), "th"); }
    if (what == "badplugin") { plugins.push_back("notthere"); }
    if (!plugins.empty() || what == "badpath") {
        a.push_back("-S");
        a.push_back((r.chance(1, 2) ? "<" : "") + (what == "badpath" ? plug + "/libfairmq-plugin-pa.so" : plug));
        for (auto& p : plugins) { a.push_back("-P"); a.push_back(p); }
    }
    if (what == "badparse") { a.push_back("-P"); }   // value missing: the next word is an option
    bool useHookId = !stock && r.chance(1, 3);
    if (useHookId) { hookId = id + "h"; ctl.push_back("--hookarg=" + hookId); } else { a.push_back("--id"); a.push_back(id); }
    for (auto x : {"--transport", "zeromq", "--control", "static", "--color", "false", "--session", "vprun"}) { a.push_back(x); }
    int custom = 1;
    if (r.chance(1, 2)) { custom = r.below(1000); a.push_back("--my-custom"); a.push_back(to_string(custom)); }
    int paOpt = -1;
    bool hasPa = count(plugins.begin(), plugins.end(), "pa");
    if (hasPa) { paOpt = 0; if (r.chance(1, 2)) { paOpt = r.below(1000); a.push_back("--pa-opt"); a.push_back(to_string(paOpt)); } }
    if (what == "help") { a.push_back(r.chance(1, 2) ? "--help" : "-h"); }
    if (what == "print-options") { a.push_back("--print-options"); }
    if (what == "version") { a.push_back("--version"); }
    if (what == "print-channels") { a.push_back("--print-channels"); }
    if (what == "badvalue") { a.push_back("--io-threads"); a.push_back("many"); }
    if (what == "boom") { ctl.push_back("--boom=1"); }
    if (what == "nodevice") { ctl.push_back("--nodevice=1"); }
    string throwIn;
    if (what == "throwin") { throwIn = r.pick(vector<string>{"plugins", "options", "args", "device"}); ctl.push_back("--throwin=" + throwIn); }
    if (what == "unknown") { a.push_back("--no-such-option"); a.push_back("3"); }

    vector<string> args = {self};
    args.insert(args.end(), ctl.begin(), ctl.end());
    for (auto& x : a) { args.push_back("A:" + x); }
    vector<char*> v;
    for (auto& x : args) { v.push_back(const_cast<char*>(x.c_str())); }
    v.push_back(nullptr);
    string desc = what + (stock ? " (stock main)" : "") + ":";
    for (auto& x : a) { desc += " " + x; }
    pid_t pid = fork();
    if (pid == 0) {
        int o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), i = open("/dev/null", O_RDONLY);
        dup2(o, 1);
        dup2(o, 2);
        dup2(i, 0);
        execv(self, v.data());
        _exit(99);
    }
    int st = 0;
    double t0 = vp::now();
    while (waitpid(pid, &st, WNOHANG) == 0) {
        if (vp::now() - t0 > 40) { kill(pid, SIGKILL); waitpid(pid, &st, 0); vp::violation("runner:hang", desc); return; }
        vp::sleepMs(2);
        vp::tick();
    }
    auto l = lines(log), o = lines(out);
    string all, text;
    for (auto& x : l) { all += x + "; "; }
    for (auto& x : o) { text += x + "\n"; }
    for (auto& x : o) { if (x.find("ERROR: Addr") != string::npos || x.find("WARNING: Thread") != string::npos || x.find("runtime error") != string::npos) { vp::violation("runner:sanitizer", x + " " + desc); return; } }
    if (!WIFEXITED(st)) { vp::violation("runner:died", fmt("signal %d; %s; %s; %s", WTERMSIG(st), desc.c_str(), all.c_str(), text.substr(text.size() > 500 ? text.size() - 500 : 0).c_str())); return; }
    int rc = WEXITSTATUS(st);
    auto has = [&](const string& s) { return find(l.begin(), l.end(), s) != l.end(); };
    auto starts = [&](const string& s) { for (auto& x : l) { if (x.rfind(s, 0) == 0) { return true; } } return false; };
    set<string> ok = {"run", "unknown", "help", "print-options", "version", "print-channels"};
    bool wantOk = ok.count(what);
    VP_CHECK((rc == 0) == wantOk && (wantOk || rc == 1), "runner:exit", "exit code %d of %s; %s; output: %s", rc, desc.c_str(), all.c_str(), text.substr(0, 300).c_str());
    bool ran = has("RUN");
    const bool runs = what == "run" || what == "unknown";   // options nobody knows are left to the device
    VP_CHECK(ran == (runs || what == "boom"), "runner:run", "the device was %s; %s; %s", ran ? "run" : "not run", desc.c_str(), all.c_str());
    // hooks in order, each once
    if (!stock) {
        vector<string> got, want = {"HOOK plugins", "HOOK options", "HOOK args", "HOOK device"};
        for (auto& x : l) { if (x.rfind("HOOK", 0) == 0) { got.push_back(x); } }
        size_t n = 4;
        if (what == "badpath" || what == "badplugin" || what == "badparse") { n = 0; }
        else if (what == "help" || what == "print-options" || what == "badvalue") { n = 3; }
        else if (what == "throwin") { n = throwIn == "plugins" ? 1 : throwIn == "options" ? 2 : throwIn == "args" ? 3 : 4; }
        want.resize(n);
        VP_CHECK(got == want, "runner:hooks", "hooks %s, expected %s; %s", join(got).c_str(), join(want).c_str(), desc.c_str());
    }
    bool device = runs || what == "boom" || what == "version" || what == "print-channels" || what == "thrower";
    VP_CHECK(has("DEVICE") == device && has("~DEVICE") == device, "runner:device", "device %s, expected %s; %s", has("DEVICE") ? "created" : "not created", device ? "yes" : "no", desc.c_str());
    // plugins: in the order requested, before the device runs, all destroyed
    vector<string> got, want;
    for (auto& x : l) { if (x.rfind("P new ", 0) == 0 || x.rfind("P throw ", 0) == 0) { got.push_back(x.substr(x.find(' ', 2) + 1, 2)); VP_CHECK(!ran || find(l.begin(), l.end(), x) < find(l.begin(), l.end(), string("RUN")), "runner:plugin-late", "a plugin was instantiated after the device ran; %s", desc.c_str()); } }
    if (runs || what == "boom" || what == "thrower") {
        for (auto& p : plugins) { want.push_back(p.substr(p.size() - 2)); if (p == "th") { break; } }
        if (hookPlugin && what != "thrower") { want.push_back("xb"); }
    }
    VP_CHECK(got == want, "runner:plugins", "plugins %s, expected %s; %s", join(got).c_str(), join(want).c_str(), desc.c_str());
    size_t nNew = 0, nDel = 0;
    for (auto& x : l) { nNew += x.rfind("P new ", 0) == 0; nDel += x.rfind("P del ", 0) == 0; }
    VP_CHECK(nNew == nDel, "runner:plugins-destroyed", "%zu plugins were created, %zu destroyed; %s", nNew, nDel, desc.c_str());
    if (hasPa && (runs || what == "boom")) { VP_CHECK(has(fmt("P opt pa %d", paOpt)), "runner:plugin-option", "plugin pa did not see its option %d: %s; %s", paOpt, all.c_str(), desc.c_str()); }
    if (runs || what == "boom") {
        string wa = "ARGS vpdevice";
        vector<string> full = a;
        if (useHookId) { full.push_back("--id"); full.push_back(hookId); }
        for (auto& x : full) { wa += " " + x; }
        VP_CHECK(has(wa), "runner:raw-args", "raw arguments were not passed to the device: %s, expected %s", all.c_str(), wa.c_str());
        VP_CHECK(has("ID " + (useHookId ? hookId : id)), "runner:id", "the id of the command line did not arrive: %s; %s", all.c_str(), desc.c_str());
        VP_CHECK(has(fmt("CUSTOM %d", custom)), "runner:custom", "custom option: %s, expected %d; %s", all.c_str(), custom, desc.c_str());
    }
    if (what == "help") {
        for (string s : {"--my-custom", "--transport", "--control", "--plugin-search-path"}) { VP_CHECK(text.find(s) != string::npos, "runner:help", "help does not mention %s; %s", s.c_str(), desc.c_str()); }
        if (hasPa) { VP_CHECK(text.find("--pa-opt") != string::npos, "runner:help", "help does not mention the options of a plugin; %s", desc.c_str()); }
    }
    if (what == "print-options") {
        VP_CHECK(text.find("\nmy-custom:" + to_string(custom) + ":") != string::npos || text.rfind("my-custom:" + to_string(custom) + ":", 0) == 0, "runner:print-options", "options printed: no line my-custom:%d:...; %s", custom, desc.c_str());
        if (hasPa) { VP_CHECK(text.find("\npa-opt:" + to_string(paOpt) + ":") != string::npos || text.rfind("pa-opt:" + to_string(paOpt) + ":", 0) == 0, "runner:print-options", "no line pa-opt:%d:...; %s", paOpt, desc.c_str()); }
    }
    vp::count("runs: " + what);
    vp::evaluated(vp::hash(desc + all), true);
    vp::sample(desc + " => " + to_string(rc) + " " + all);
    unlink(log.c_str());
    unlink(out.c_str());
}
}   // namespace

// for the stock main
std::unique_ptr<fair::mq::Device> getDevice(fair::mq::ProgOptions&) { return std::make_unique<RDev>(vp::optU("boom", 0)); }
void addCustomOptions(boost::program_options::options_description& o) { o.add_options()("my-custom", po::value<int>()->default_value(1), "custom"); }

int main(int argc, char** argv)
{
    char self[600];
    ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1);
    self[k > 0 ? k : 0] = 0;
    vp::init(argc, argv);
    auto& s = vp::S();
    if (s.mode == "child") { return child(); }
    fair::Logger::SetConsoleSeverity(getenv("VP_LOG") ? getenv("VP_LOG") : "nolog");
    string dir = self;
    dir = dir.substr(0, dir.rfind('/'));
    gSo = dir + "/vpplugin.so";
    gSys = tx::scratch() + "/sys";
    if (!getenv("VP_SYS")) {
        mkdir(gSys.c_str(), 0755);
        for (auto n : {"fairmq-plugin-sa", "FairMQPlugin_sb"}) { copyTo(gSys + "/lib" + n + ".so"); }
        setenv("VP_SYS", "1", 1);
        string lp = gSys + (getenv("LD_LIBRARY_PATH") ? string(":") + getenv("LD_LIBRARY_PATH") : "");
        setenv("LD_LIBRARY_PATH", lp.c_str(), 1);
        execv(self, argv);
        return 3;
    }
    s.stallLimit = 100;
    vp::watchdog();
    if (s.mode == "mgr") { vp::forCases(100, mgrCase); }
    else {
        uint64_t n = s.cases ? s.cases : 60;
        atomic<uint64_t> next{0};
        vp::phase("runner");
        vector<thread> ts;
        for (unsigned t = 0; t < vp::optU("jobs", 6); ++t) {
            ts.emplace_back([&] {
                while (true) {
                    uint64_t i = next++;
                    if (i >= n || vp::timeUp()) { break; }
                    if (s.only >= 0 && static_cast<uint64_t>(s.only) != i) { continue; }
                    vp::noteCase(static_cast<int64_t>(i));
                    vp::Rng r(s.seed + vp::optU("part", 0) * 0x100000001ull, i + 1);
                    runnerCase(i, r, self);
                }
            });
        }
        for (auto& t : ts) { t.join(); }
    }
    return vp::finish();
}
