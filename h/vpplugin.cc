// Plugin library for h_plugin: one file with several plugins, copied by the harness under the names and
// into the directories a case needs. Every instance reports itself and the file it came from.
#include <fairmq/Plugin.h>
#include <fairmq/PluginServices.h>
#include <boost/program_options.hpp>
#include <dlfcn.h>
#include <cstdlib>
#include <new>
#include <stdexcept>
#include <system_error>

extern "C" void vp_plugin_event(const char* what, const char* name, const char* file, const void* self);

namespace
{
int here = 0;
std::string file() { Dl_info i{}; return dladdr(&here, &i) && i.dli_fname ? i.dli_fname : ""; }

struct P : fair::mq::Plugin
{
    P(const std::string& n, const fair::mq::Plugin::Version v, const std::string& m, const std::string& h, fair::mq::PluginServices* s)
        : Plugin(n, v, m, h, s)
    {
        vp_plugin_event("new", n.c_str(), file().c_str(), this);
        std::string o = n + "-opt";
        if (PropertyExists(o)) { vp_plugin_event("opt", n.c_str(), GetPropertyAsString(o).c_str(), this); }
        SetProperty<std::string>("seen-by-" + n, file());
    }
    ~P() override { vp_plugin_event("del", GetName().c_str(), file().c_str(), this); }
};
struct Thrower : fair::mq::Plugin
{
    Thrower(const std::string& n, const fair::mq::Plugin::Version v, const std::string& m, const std::string& h, fair::mq::PluginServices* s)
        : Plugin(n, v, m, h, s)
    {
        vp_plugin_event("throw", n.c_str(), file().c_str(), this);
        const char* k = getenv("VP_THROW_KIND");   // any exception of the plugin's own counts
        switch (k ? atoi(k) : 0) {
            case 1: throw std::out_of_range("planned failure of plugin " + n);
            case 2: throw std::bad_alloc();
            case 3: throw std::system_error(std::make_error_code(std::errc::io_error));
            case 4: throw std::exception();
            default: throw std::runtime_error("planned failure of plugin " + n);
        }
    }
};
template<int N>
auto opts() -> fair::mq::Plugin::ProgOptions
{
    static const char* names[] = {"pa", "pb", "pc", "pd", "sa"};
    boost::program_options::options_description o(std::string("options of ") + names[N]);
    o.add_options()((std::string(names[N]) + "-opt").c_str(), boost::program_options::value<int>()->default_value(N), "an option");
    return o;
}
}
#define V (fair::mq::Plugin::Version{1, 2, 3})
REGISTER_FAIRMQ_PLUGIN(P, pa, V, "m", "h", opts<0>)
REGISTER_FAIRMQ_PLUGIN(P, pb, V, "m", "h", opts<1>)
REGISTER_FAIRMQ_PLUGIN(P, pc, V, "m", "h", opts<2>)
REGISTER_FAIRMQ_PLUGIN(P, pd, V, "m", "h", opts<3>)
REGISTER_FAIRMQ_PLUGIN(P, qa, V, "m", "h", fair::mq::Plugin::NoProgramOptions)
REGISTER_FAIRMQ_PLUGIN(P, qb, V, "m", "h", fair::mq::Plugin::NoProgramOptions)
REGISTER_FAIRMQ_PLUGIN(P, sa, V, "m", "h", opts<4>)
REGISTER_FAIRMQ_PLUGIN(P, sb, V, "m", "h", fair::mq::Plugin::NoProgramOptions)
REGISTER_FAIRMQ_PLUGIN(Thrower, th, V, "m", "h", fair::mq::Plugin::NoProgramOptions)
// a file that has the plugin but not its options
namespace { auto Make_ng_Plugin(fair::mq::PluginServices* s) -> std::unique_ptr<fair::mq::Plugin> { return std::make_unique<P>("ng", V, "m", "h", s); } }
BOOST_DLL_ALIAS(Make_ng_Plugin, make_ng_plugin)
