// C24: the modernizer (fairmq-tidy) reports every use of a non-namespaced FairMQ type, and nothing else.
// The real checks and the real tool run over generated translation units; what they print is compared with what was
// generated (position, names, replacement).
#include "vp.h"
#include <fairmq/tidy/Tool.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <regex>
#include <sys/stat.h>

using namespace std;
using vp::fmt;

namespace {

namespace fs = std::filesystem;

string gDir;

struct Alias { string name, underlying, kind; };   // kind: class, ptr (smart pointer class), raw (pointer)
struct Expect
{
    string file;
    unsigned line, col, len;      // of the type as written
    string name, underlying;
    bool fix;                     // a replacement is possible (not from a macro)
    bool qual;                    // the scope of something and written with a leading ::, which is not part of the type then
};

// one line of source containing one use of type T; $ marks the type, # is a number unique to the line
struct Ctx { const char* text; const char* needs; };   // needs: c complete class, b base class, s static member, * anything
const vector<Ctx> kCtx{
    {"$* v#p = nullptr;", "*"},
    {"extern const $& v#r;", "cp"},
    {"extern $ v#;", "*"},
    {"$ v#o{};", "*"},
    {"const $* volatile v#c = nullptr;", "*"},
    {"Box<$> v#b;", "*"},
    {"Box<Box<const $*>> v#bb;", "*"},
    {"void f#($ a);", "*"},
    {"void f#(int, $ const& a, int);", "*"},
    {"$ g#();", "*"},
    {"auto h#() -> $;", "*"},
    {"inline void l#() { $ local{}; (void)local; }", "*"},
    {"inline unsigned long s#() { return sizeof($); }", "*"},
    {"inline auto* k#() { return static_cast<$*>(nullptr); }", "*"},
    {"inline auto* n#() { return new $(); }", "*"},
    {"inline auto c#() { return $(); }", "*"},
    {"struct S#m { int a; $ member; };", "*"},
    {"struct S#b : public $ { int b; };", "b"},
    {"inline int t#() { return $::kStatic; }", "s"},
    {"using A# = $;", "*"},
    {"typedef $ T#;", "*"},
    {"template<class T = $> struct D# { T* t; };", "*"},
    {"template<class T> struct P# { T t; $ u; };", "*"},
    {"template<> struct Spec<$, #> {};", "g"},
    {"inline bool x#() { try { return true; } catch ($& e) { (void)e; } return false; }", "cp"},
    {"auto lam# = []($&& a) { (void)a; };", "cp"},
    {"inline void w#() { [[maybe_unused]] auto l = [](int) -> $* { return nullptr; }; }", "*"},
    {"extern $ arr#[3];", "*"},
    {"using F# = int(*)($*, int);", "*"},
    {"struct G# { operator $*() const; };", "*"},
    {"struct H# { friend void q#($* a); };", "*"},
    {"template<class T> void z#(T, $* a) { (void)a; }", "*"},
    {"template<$* V> struct N# {};", "cp"},
    {"inline void i#() { for ($* p = nullptr; p; ) { break; } if (sizeof(int) == alignof($)) { } }", "2"},
};

struct Unit
{
    string path, text;
    unsigned line = 1;
    void add(const string& l) { text += l + "\n"; ++line; }
};

string prelude(const vector<string>& classes)
{
    string s = "namespace fair::mq {\n";
    for (auto& c : classes) { s += "struct " + c + " { static constexpr int kStatic = 1; int x = 0; };\n"; }
    s += "template<class T> struct Holder { static constexpr int kStatic = 1; T* t = nullptr; };\n";
    s += "template<class T> struct Templ { T* t = nullptr; };\n}\n";
    return s;
}

void addUse(vp::Rng& r, Unit& u, vector<Expect>& ex, const Alias& a, unsigned id, bool global)   // global: not inside a namespace
{
    const Ctx* c = nullptr;
    while (true) {
        c = &kCtx[r.below(kCtx.size())];
        string n = c->needs;
        if ((n == "b" || n == "s") && a.kind != "class") { continue; }
        if (n == "g" && !global) { continue; }
        if (n == "cp" && a.kind == "raw") { continue; }
        break;
    }
    string indent(r.below(5), ' '), line = indent;
    bool qual = r.chance(1, 5);
    string ty = (qual ? "::" : "") + a.name;
    for (const char* p = c->text; *p; ++p) {
        if (*p == '$') {
            // two characters that must not become a digraph
            if (qual && !line.empty() && line.back() == '<') { line += ' '; }
            ex.push_back({u.path, u.line, unsigned(line.size() + 1), unsigned(ty.size()), a.name, a.underlying, true, qual && string(c->needs) == "s"});
            line += ty;
        }
        else if (*p == '#') { line += to_string(id); }
        else { line += *p; }
    }
    if (r.chance(1, 6)) { line += "   // " + a.name; }
    u.add(line);
    vp::count("uses");
}

// something that looks similar and must not be reported
void addDecoy(vp::Rng& r, Unit& u, unsigned id)
{
    static const vector<string> decoys{
        "FairMQClass v#;", "FairMQTypedef v#;", "FairMQStd v#;", "FairMQTemplate<int> v#;", "MyFairMQMessage v#;", "fairMQMessage v#;",
        "fair::mq::Message v#;", "const char* v# = \"FairMQMessage\";", "// FairMQMessage v#;", "struct FairMQLocal# { int a; }; FairMQLocal# v#;",
        "enum class FairMQEnum# { A }; FairMQEnum# v#;", "int FairMQVariable# = 0; int v# = FairMQVariable#;",
        "inline int FairMQFunction#() { return 1; } int v# = FairMQFunction#();", "namespace FairMQNamespace# { struct X {}; } FairMQNamespace#::X v#;",
        "FairMQPlain v#;", "FairMQDeep v#;", "FairMQBoxed v#;", "Box<FairMQBoxed*> v#;", "template<class FairMQParam> struct V# { FairMQParam p; };", "fair::mq::Holder<fair::mq::Parts> v#;", "FairOther v#;"};
    string d = r.pick(decoys), line;
    for (char c : d) { if (c == '#') { line += to_string(id); } else { line += c; } }
    u.add(line);
    vp::count("decoys");
}

string readAll(const string& f) { ifstream i(f); stringstream s; s << i.rdbuf(); return s.str(); }

void genCase(uint64_t i, vp::Rng& r)
{
    vp::phase("tidy");
    string dir = gDir + "/" + to_string(i);
    fs::create_directories(dir);

    const vector<string> classes{"Message", "Parts", "Device", "Channel", "Socket", "Poller", "ProgOptions", "RegionInfo"};
    vector<Alias> aliases;
    for (auto& c : classes) {
        if (r.chance(3, 4)) { aliases.push_back({"FairMQ" + c, "fair::mq::" + c, "class"}); }
    }
    if (aliases.empty()) { aliases.push_back({"FairMQMessage", "fair::mq::Message", "class"}); }
    if (r.chance(1, 2)) { aliases.push_back({"FairMQHolder", "fair::mq::Holder<fair::mq::Message>", "class"}); }
    if (r.chance(1, 2)) { aliases.push_back({"FairMQMessagePtr", "fair::mq::MessagePtr", "ptr"}); }
    if (r.chance(1, 2)) { aliases.push_back({"FairMQDevicePtr", "fair::mq::Device *", "raw"}); }
    if (r.chance(1, 2)) { aliases.push_back({"FairMQ" + string(1, char('A' + r.below(26))) + to_string(r.below(100)), "fair::mq::Parts", "class"}); }
    if (r.chance(1, 3)) { aliases.push_back({"FairMQ", "fair::mq::Socket", "class"}); }
    if (r.chance(1, 3)) { aliases.push_back({"FairMQ_lower", "fair::mq::Channel", "class"}); }
    r.shuffle(aliases);

    string pre = prelude(classes);
    pre += "namespace fair::mq { using MessagePtr = Holder<Message>; struct Local {}; }\n";
    for (auto& a : aliases) {
        pre += "using " + a.name + (r.chance(1, 2) ? " [[deprecated(\"Use " + a.underlying + "\")]]" : "") + " = " + a.underlying + ";\n";
        if (r.chance(1, 5)) { pre += "using " + a.name + " = " + a.underlying + ";\n"; }
    }
    pre += "class FairMQClass {};\ntypedef fair::mq::Message FairMQTypedef;\nnamespace other { struct Message {}; struct fair_mq {}; }\n"
           "namespace other { namespace fair { namespace mq { struct Deep {}; } } }\nusing FairMQDeep = other::fair::mq::Deep;\n"
           "using FairMQStd = other::Message;\ntemplate<class T> using FairMQTemplate = fair::mq::Templ<T>;\nusing MyFairMQMessage = fair::mq::Message;\n"
           "using fairMQMessage = fair::mq::Message;\nusing FairMQPlain = int;\nusing FairOther = fair::mq::Parts;\n"
           "template<class T> struct Box { T* t = nullptr; };\ntemplate<class T, int N> struct Spec {};\nusing FairMQBoxed = Box<fair::mq::Message>;\n";
    bool hasHeader = r.chance(1, 3);
    vector<Expect> ex;
    unsigned id = 0;
    Unit header;
    header.path = dir + "/types.h";
    header.add("#ifndef TYPES_H"); header.add("#define TYPES_H");
    { stringstream s(pre); string l; while (getline(s, l)) { header.add(l); } }
    if (hasHeader) {
        for (unsigned k = 0, n = 1 + r.below(4); k < n; ++k) { if (r.chance(2, 3)) { addUse(r, header, ex, r.pick(aliases), ++id, true); } else { addDecoy(r, header, ++id); } }
    }
    header.add("#endif");
    ofstream(header.path) << header.text;

    vector<string> sources;
    unsigned nsrc = 1 + (r.chance(1, 4) ? 1 : 0);
    int stdv = r.below(4);   // 0, 1: none given (17 is added), 2: 14 is not enough for nested namespaces, so 20, 3: 17
    string stdArg = stdv < 2 ? "" : stdv == 2 ? "-std=c++20" : "-std=gnu++17";
    string desc = fmt("%zu aliases, %u sources, %s", aliases.size(), nsrc, stdArg.empty() ? "no standard given" : stdArg.c_str());
    for (unsigned s = 0; s < nsrc; ++s) {
        Unit u;
        u.path = dir + "/s" + to_string(s) + ".cpp";
        u.add("#include \"types.h\"");
        u.add(stdv == 2 ? "static_assert(__cplusplus > 201703L);" : "static_assert(__cplusplus == 201703L);");
        u.add(stdv == 3 ? "#ifdef __STRICT_ANSI__" : "#ifndef __STRICT_ANSI__"); u.add("#error dialect"); u.add("#endif");
        unsigned n = 4 + r.below(26);
        int depth = 0;
        for (unsigned k = 0; k < n; ++k) {
            auto roll = r.below(12);
            if (roll < 7) { addUse(r, u, ex, r.pick(aliases), ++id, depth == 0); }
            else if (roll < 9) { addDecoy(r, u, ++id); }
            else if (roll == 9 && depth == 0) { u.add(fmt("namespace user%u {", ++id)); ++depth; }
            else if (roll == 10 && depth > 0) { u.add("}"); --depth; }
            else if (roll == 11) {
                // the use is written in a macro, its position is that of the expansion
                auto& a = r.pick(aliases);
                u.add(fmt("#define MACRO%u(x) ", ++id) + a.name + " x");
                ex.push_back({u.path, u.line, 1, 0, a.name, a.underlying, false, false});
                u.add(fmt("MACRO%u(mv%u);", id, id));
                vp::count("uses_macro");
            }
        }
        while (depth-- > 0) { u.add("}"); }
        ofstream(u.path) << u.text;
        sources.push_back(u.path);
    }

    vector<string> args{"-fdiagnostics-parseable-fixits", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"};
    if (!stdArg.empty()) { args.insert(r.chance(1, 2) ? args.begin() : args.end(), stdArg); }
    if (r.chance(1, 2)) { args.push_back("-Wall"); args.push_back("-Wextra"); }
    for (unsigned k = 0, n = r.below(4) * r.below(4); k < n; ++k) { args.insert(args.begin() + r.below(2) * args.size(), fmt("-DDEF%u=%u", k, k)); }
    clang::tooling::FixedCompilationDatabase db(dir, args);
    string outf = dir + "/out";
    fflush(stderr);
    int saved = dup(2), fd = open(outf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    close(fd);
    int rc = fair::mq::tidy::Tool::run(db, sources);
    dup2(saved, 2);
    close(saved);
    string out = readAll(outf);
    vp::tick();

    // what was printed
    struct Got { string file; unsigned line, col; string name, repl; };
    vector<Got> got;
    struct Fix { string file; unsigned l1, c1, l2, c2; string text; };
    vector<Fix> fixes;
    unsigned other = 0;
    string otherLine;
    {
        static const regex w("^(.*):([0-9]+):([0-9]+): warning: Modernize non-namespaced type '(.*?)' with '(.*?)'( \\(aka '.*'\\))?\\. \\[fairmq-modernize-nonnamespaced-types\\]$");
        static const regex f("^fix-it:\"(.*)\":\\{([0-9]+):([0-9]+)-([0-9]+):([0-9]+)\\}:\"(.*)\"$");
        static const regex o("^[^ ].*:[0-9]+:[0-9]+: (warning|error|fatal error): .*$");
        stringstream s(out);
        string l;
        while (getline(s, l)) {
            smatch m;
            if (regex_match(l, m, w)) { got.push_back({m[1], unsigned(stoul(m[2])), unsigned(stoul(m[3])), m[4], m[5]}); }
            else if (regex_match(l, m, f)) { fixes.push_back({m[1], unsigned(stoul(m[2])), unsigned(stoul(m[3])), unsigned(stoul(m[4])), unsigned(stoul(m[5])), m[6]}); }
            else if (regex_match(l, m, o)) { if (!other++) { otherLine = l; } }
        }
    }
    VP_CHECK(rc == 0, "tidy:rc", "the tool returned %d for correct sources (%s): %s", rc, desc.c_str(), out.substr(0, 300).c_str());
    VP_CHECK(other == 0, "tidy:other", "%u unrelated diagnostics (%s), first: %s", other, desc.c_str(), otherLine.c_str());
    auto where = [](const string& f, unsigned l) { stringstream s(readAll(f)); string t; while (l--) { getline(s, t); } return t; };
    for (auto& e : ex) {
        // (a type written with its scope is seen more than once)
        bool found = false, fixed = !e.fix;
        for (auto& g : got) { found |= g.file == e.file && g.line == e.line && (g.col == e.col || (e.qual && g.col == e.col + 2)) && g.name == e.name && g.repl == e.underlying; }
        for (auto& f : fixes) { fixed |= f.file == e.file && f.l1 == e.line && f.l2 == e.line && (f.c1 == e.col || (e.qual && f.c1 == e.col + 2)) && f.c2 >= e.col + e.len && f.c2 <= e.col + e.len + 2 && f.text == e.underlying; }
        VP_CHECK(found, "tidy:missed", "no warning for %s (%s) at %u:%u: %s [%s]", e.name.c_str(), e.underlying.c_str(), e.line, e.col, where(e.file, e.line).c_str(), desc.c_str());
        if (found) { VP_CHECK(fixed, "tidy:fix", "no replacement with %s at %u:%u: %s [%s]", e.underlying.c_str(), e.line, e.col, where(e.file, e.line).c_str(), desc.c_str()); }
    }
    set<tuple<string, unsigned, string>> want;
    for (auto& e : ex) { want.insert({e.file, e.line, e.name}); }
    for (auto& g : got) {
        VP_CHECK(want.count({g.file, g.line, g.name}), "tidy:spurious", "warning at %u:%u for %s -> %s: %s [%s]", g.line, g.col, g.name.c_str(), g.repl.c_str(), where(g.file, g.line).c_str(), desc.c_str());
        bool same = false;
        for (auto& e : ex) { same |= e.file == g.file && e.line == g.line && e.name == g.name && e.underlying == g.repl; }
        VP_CHECK(same || !want.count({g.file, g.line, g.name}), "tidy:name", "%s is to be replaced with %s: %s [%s]", g.name.c_str(), g.repl.c_str(), where(g.file, g.line).c_str(), desc.c_str());
    }
    // reported in the order of the files and, within a source, of the declarations
    vp::count("warnings", got.size());
    vp::count("replacements", fixes.size());
    uint64_t h = vp::hash(desc);
    for (auto& e : ex) { h = vp::mix(vp::mix(h, e.line * 1000 + e.col), vp::hash(e.name)); }
    vp::evaluated(h, !ex.empty());
    vp::sample(fmt("%s: %zu uses, %zu warnings, e.g. %s", desc.c_str(), ex.size(), got.size(), ex.empty() ? "" : where(ex[0].file, ex[0].line).c_str()), 4);
    fs::remove_all(dir);
}

} // namespace

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::watchdog();
    char t[] = "/tmp/vp_tidy_XXXXXX";
    if (!mkdtemp(t)) { return 2; }
    gDir = t;
    if (vp::S().mode == "gen") { vp::forCases(10, genCase); }
    else { return 2; }
    std::error_code ec;
    fs::remove_all(gDir, ec);
    return vp::finish();
}
