"""Build description: compiles /repo's current working tree together with the harnesses (ninja, /verif/build)."""
import os, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))

CXX = "clang++"
COMMON = ("-std=c++17 -g1 -fno-omit-frame-pointer -pthread -w "
          f"-I{VERIF}/shim -I{REPO} -I{REPO}/fairmq -I{VERIF}/h "
          "-DBOOST_ERROR_CODE_HEADER_ONLY -DBOOST_ASIO_HAS_HAS_STD_CHRONO "
          "-DFAIRMQ_HAS_STD_FILESYSTEM=1 -DFAIRMQ_HAS_STD_PMR=1 -DBOOST_ALLOW_DEPRECATED_HEADERS "
          # how long an opener waits for the creator of a segment to initialise it (Boost default: 300 s)
          "-DBOOST_INTERPROCESS_MANAGED_OPEN_OR_CREATE_INITIALIZE_TIMEOUT_SEC=8")
FLAVOURS = {
    "plain": "-O1",
    "asan": "-O0 -fsanitize=address,undefined -fno-sanitize=vptr,alignment,function -fno-sanitize-recover=undefined",
    "tsan": "-O0 -fsanitize=thread",
    # FAIRMQ_DEBUG_MODE switches on the tracking code of the shmem transport
    "asandbg": "-O0 -fsanitize=address,undefined -fno-sanitize=vptr,alignment,function -fno-sanitize-recover=undefined -DFAIRMQ_DEBUG_MODE=ON",
}
# template-heavy file that takes long when instrumented; only the harnesses for C13 instrument it
HEAVY = {"Properties"}
SRC = {
    "EventManager": "EventManager.cxx", "States": "States.cxx", "StateMachine": "StateMachine.cxx",
    "Semaphore": "tools/Semaphore.cxx", "Unique": "tools/Unique.cxx", "Process": "tools/Process.cxx", "Network": "tools/Network.cxx",
    "Properties": "Properties.cxx", "ProgOptions": "ProgOptions.cxx", "JSONParser": "JSONParser.cxx", "SuboptParser": "SuboptParser.cxx",
    "MemoryResources": "MemoryResources.cxx", "TransportFactory": "TransportFactory.cxx", "Channel": "Channel.cxx", "Device": "Device.cxx",
    "DeviceRunner": "DeviceRunner.cxx", "Plugin": "Plugin.cxx", "PluginManager": "PluginManager.cxx", "PluginServices": "PluginServices.cxx",
    "Config": "plugins/config/Config.cxx", "Control": "plugins/control/Control.cxx",
    "ShmCommon": "shmem/Common.cxx", "ShmManager": "shmem/Manager.cxx", "ShmMonitor": "shmem/Monitor.cxx",
}
OPTS = ["EventManager", "Properties", "ProgOptions", "JSONParser", "SuboptParser", "Network", "Channel"]
TRANSPORT = OPTS + ["TransportFactory", "MemoryResources", "ShmCommon", "ShmManager", "ShmMonitor", "Unique"]
DEVICE = TRANSPORT + ["Device", "StateMachine", "States"]
PLUGINS = DEVICE + ["DeviceRunner", "Plugin", "PluginManager", "PluginServices", "Config", "Control", "Semaphore"]
BASELIBS = "-lpthread -ldl -lrt"
BOOST = "-lboost_program_options -lboost_filesystem -lboost_regex -lboost_container -lboost_date_time"
WRAP = "-Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock"
ZWRAP = WRAP + " -Wl,--wrap=zmq_msg_send -Wl,--wrap=zmq_msg_recv -Wl,--wrap=zmq_recv -Wl,--wrap=zmq_msg_close -Wl,--wrap=zmq_msg_init_data"

# harness -> (repo sources, needs zmq)
HARNESS = {}

def harness(name, srcs, zmq=False, extra=(), flags="", ldflags="", instrument_heavy=False, src=None, so=()):
    HARNESS[name] = dict(srcs=list(srcs), zmq=zmq, extra=list(extra), flags=flags, ldflags=ldflags, heavy=instrument_heavy, src=src or name, so=list(so))

def ninja_text():
    o = ["ninja_required_version = 1.5", f"builddir = {BUILD}", f"cxx = {CXX}", f"common = {COMMON}", ""]
    o += ["rule cc", "  command = $cxx $common $flags -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc", "  description = CXX $out", ""]
    o += ["rule ld", "  command = $cxx $flags -fuse-ld=lld $in -o $out $libs", "  description = LD $out", ""]
    o += ["rule so", "  command = $cxx $common $flags -fPIC -shared -fuse-ld=lld $in -o $out $libs -MD -MF $out.d", "  depfile = $out.d", "  deps = gcc", "  description = SO $out", ""]
    for fl, ff in FLAVOURS.items():
        objs = set()
        for s, p in SRC.items():
            o += [f"build {BUILD}/{fl}/lib/{s}.o: cc {REPO}/fairmq/{p}", f"  flags = {ff}"]
        for z in (0, 1):
            o += [f"build {BUILD}/{fl}/perturb{z}.o: cc {VERIF}/h/vp_perturb.cc", f"  flags = {ff} {'-DVP_WITH_ZMQ' if z else ''}"]
        for h, d in HARNESS.items():
            ho = f"{BUILD}/{fl}/{h}.o"
            o += [f"build {ho}: cc {VERIF}/h/{d['src']}.cc", f"  flags = {ff} {d['flags']}"]
            ins = [ho]
            for s in d["srcs"]:
                f2 = "plain" if (s in HEAVY and not d["heavy"]) else fl
                ins.append(f"{BUILD}/{f2}/lib/{s}.o")
            ins.append(f"{BUILD}/{fl}/perturb{1 if d['zmq'] else 0}.o")
            for e in d["extra"]:
                eo = f"{BUILD}/{fl}/{h}-{e}.o"
                o += [f"build {eo}: cc {VERIF}/h/{e}.cc", f"  flags = {ff}"]
                ins.append(eo)
            libs = (ZWRAP if d["zmq"] else WRAP) + " " + BOOST + (" -lzmq" if d["zmq"] else "") + " " + BASELIBS + " " + d["ldflags"]
            sos = [f"{BUILD}/{fl}/{x}.so" for x in d["so"]]
            for x, f in zip(d["so"], sos):
                o += [f"build {f}: so {VERIF}/h/{x}.cc", "  flags = -O1", f"  libs = {BOOST}"]
            o += [f"build {BUILD}/{fl}/{h}: ld {' '.join(ins)}{' | ' + ' '.join(sos) if sos else ''}", f"  flags = {ff} -pthread", f"  libs = {libs}"]
    return "\n".join(o) + "\n"

def build(targets, log):
    """targets: list of (flavour, harness). Returns (ok, output)."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    nf = os.path.join(BUILD, "build.ninja")
    t = ninja_text()
    if not os.path.exists(nf) or open(nf).read() != t:
        open(nf, "w").write(t)
    names = [f"{BUILD}/{fl}/{h}" for fl, h in targets]
    # start the slowest compilation first
    pre = []
    for fl, h in targets:
        if "Properties" in HARNESS[h]["srcs"]:
            pre.append(f"{BUILD}/{fl if HARNESS[h]['heavy'] else 'plain'}/lib/Properties.o")
    cmd = ["ninja", "-f", nf, "-j", str(max(8, os.cpu_count() or 8))] + sorted(set(pre)) + names
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    open(log, "w").write(p.stdout)
    lock.close()
    return p.returncode == 0, p.stdout
