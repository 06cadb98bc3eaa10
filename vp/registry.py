"""What is run for which property."""
from dataclasses import dataclass, field
import build as B

@dataclass
class Run:
    name: str
    harness: str
    flavour: str
    mode: str
    quick: dict = field(default_factory=dict)
    thorough: dict = field(default_factory=dict)
    timeout: tuple = (300, 3000)     # seconds (quick, thorough): inconclusive beyond
    alone: bool = False              # timing-sensitive: not concurrently with the other runs
    thorough_only: bool = False
    env: dict = field(default_factory=dict)
    also: list = field(default_factory=list)   # further binaries to build

CHECKS = {}

def check(pid, level, rule, technique, note, runs, assumptions=()):
    CHECKS[pid] = dict(level=level, rule=rule, technique=technique, note=note, runs=runs, assumptions=list(assumptions))

# ------------------------------------------------------------------ C12
B.harness("h_events", ["EventManager"])
check("C12", "exploration",
      "cases are seeded histories of subscribe/resubscribe/unsubscribe/emit over 6 event/argument type combinations and 5 names, single-threaded against a map model, "
      "nested from callbacks, and multi-threaded with stable/changing subscribers; non-trivial: at least one emission reached a subscriber; distinct by history hash",
      "runtime monitoring: model oracle over callback traces under ASan/UBSan and TSan with schedule perturbation",
      "histories sampled, not enumerated; callbacks do not throw",
      [Run("seq", "h_events", "asan", "seq", dict(cases=1500), dict(cases=60000)),
       Run("nested", "h_events", "asan", "nested", dict(cases=400), dict(cases=10000)),
       Run("conc", "h_events", "asan", "conc", dict(cases=250), dict(cases=6000)),
       Run("conc-tsan", "h_events", "tsan", "conc", dict(cases=150), dict(cases=4000))])

# ------------------------------------------------------------------ C19
B.harness("h_tools", ["Semaphore", "Unique", "Process", "Network"],
          ldflags="-Wl,--wrap=_ZNSt6chrono3_V212steady_clock3nowEv -Wl,--wrap=nanosleep -Wl,--wrap=clock_nanosleep")
check("C19", "exploration",
      "seeded cases per tool: semaphore wait/signal programs on 2-7 threads, limiter and uuid histories, rates x body durations x shapes on a virtual clock, child programs with generated "
      "stdout/stderr/exit code/input/signal, version/string/network queries; non-trivial: at least one wait, a judged rate, a non-empty argument; distinct by inputs (and schedule for threads)",
      "runtime monitoring: counting monitors, model oracles and virtual-time rate monitor under ASan/UBSan/TSan",
      "virtual time replaces steady_clock and nanosleep at link time; a short real-clock run guards against bypassing it",
      [Run("sem", "h_tools", "asan", "sem", dict(cases=400), dict(cases=20000)),
       Run("sem-tsan", "h_tools", "tsan", "sem", dict(cases=150), dict(cases=5000)),
       Run("limit", "h_tools", "asan", "limit", dict(cases=300), dict(cases=10000)),
       Run("uuid", "h_tools", "asan", "uuid", dict(cases=12), dict(cases=300)),
       Run("rate", "h_tools", "asan", "rate", dict(cases=160), dict(cases=4000)),
       Run("rate-real", "h_tools", "asan", "ratereal", dict(cases=4), dict(cases=12)),
       Run("exec", "h_tools", "asan", "exec", dict(cases=60), dict(cases=2000)),
       Run("exec-slow", "h_tools", "asan", "execslow", dict(cases=4), dict(cases=60)),
       Run("misc", "h_tools", "asan", "misc", dict(cases=100), dict(cases=3000))],
      ["the sandbox's interfaces and /etc/hosts are read independently as the reference for network lookups"])

# ------------------------------------------------------------------ C08 / C09
B.harness("h_fsm", ["StateMachine", "States"])
check("C08", "exploration",
      "all 14 states x 12 transitions, each on a fresh machine brought there, plus what follows a refusal (enumerated); seeded concurrent runs of 2-5 requesting threads with requests from handlers and "
      "callbacks, errors and throwing handlers, judged against the documented graph through the order of granted transitions; mutated names; non-trivial: something was granted; distinct by state path and schedule",
      "runtime monitoring: trace oracle (documented state graph) over grant/state event logs, ASan/UBSan/TSan, perturbed schedules",
      "the pair table is enumerated; interleavings are sampled",
      [Run("table", "h_fsm", "asan", "table", dict(cases=168), dict(cases=168 * 20)),
       Run("names", "h_fsm", "asan", "names", dict(cases=5), dict(cases=100)),
       Run("conc", "h_fsm", "asan", "conc", dict(cases=600), dict(cases=20000)),
       Run("conc-tsan", "h_fsm", "tsan", "conc", dict(cases=300), dict(cases=8000))])
check("C09", "exploration",
      "seeded runs: subscribers come and go on 1-3 threads while the machine walks the graph, judged by logical-clock windows of each change; waiters on pending states; state queue histories against a deque "
      "and with 1-3 producers/consumers, every wait kind; non-trivial: a notification or delivery happened; distinct by schedule or history",
      "runtime monitoring: exactly-once/ordering monitors over notification logs, queue model oracle, stall watchdog, ASan/UBSan/TSan",
      "windows overlapping a (un)subscription are not judged; lost wake-ups show as stalls",
      [Run("notify", "h_fsm", "asan", "notify", dict(cases=240), dict(cases=4000)),
       Run("notify-tsan", "h_fsm", "tsan", "notify", dict(cases=120), dict(cases=1500)),
       Run("pending", "h_fsm", "asan", "pending", dict(cases=120), dict(cases=4000)),
       Run("qmodel", "h_fsm", "asan", "qmodel", dict(cases=1200), dict(cases=60000)),
       Run("qconc", "h_fsm", "asan", "qconc", dict(cases=250), dict(cases=10000)),
       Run("qconc-tsan", "h_fsm", "tsan", "qconc", dict(cases=120), dict(cases=4000)),
       Run("qwait", "h_fsm", "asan", "qwait", dict(cases=300), dict(cases=8000))])

# ------------------------------------------------------------------ C03
B.harness("h_message", B.TRANSPORT, zmq=True)
check("C03", "exploration",
      "seeded histories of 20-160 operations (every constructor and Rebuild, write, SetUsedSize, Copy, destroy, containers, single/multi-part transfer, also into used objects) on 8 messages, "
      "1-2 devices, region and user buffers; non-trivial: every history; distinct by operation sequence",
      "runtime monitoring: byte-buffer model and release-function accounting under ASan/UBSan",
      "histories sampled; alignments up to 32768; buffers shared by copies are not written",
      [Run("zmq", "h_message", "asan", "zmq", dict(cases=400), dict(cases=20000)),
       Run("align", "h_message", "asan", "align", dict(cases=40), dict(cases=3000)),
       Run("shm", "h_message", "asan", "shm", dict(cases=220), dict(cases=15000))])

# ------------------------------------------------------------------ C17
B.harness("h_pmr", B.TRANSPORT, zmq=True)
check("C17", "exploration",
      "seeded histories of 10-60 operations: raw allocations of all sizes/alignments, put back and taken as messages, nine element types in vectors/strings grown, shrunk, adopted into messages "
      "(own, foreign or no target), node containers, on 1-4 resources of zeromq and shmem; non-trivial: every history; distinct by operation sequence",
      "runtime monitoring: interval and byte model over spied allocations, message counts and memory conservation under ASan/UBSan",
      "histories sampled, single-threaded; buffers shrunk by 900 kB or more may be reallocated by the library",
      [Run("model", "h_pmr", "asan", "model", dict(cases=250), dict(cases=10000))])

# ------------------------------------------------------------------ C13
B.harness("h_config", B.OPTS, instrument_heavy=True)
B.HARNESS["h_config"]["zmq"] = True
check("C13", "exploration",
      "seeded sequential histories over 14 keys and all 34 supported types plus a registered one, against a map model with notification accounting; conversions of every type by every route; "
      "concurrent histories (2-4 threads, 4-7 operations each on 3 keys incl. multi-key updates and snapshots) searched for a linearization; non-trivial: something was written; distinct by history",
      "runtime monitoring: map model and notification monitor, offline linearizability checker over recorded histories, ASan/UBSan/TSan with schedule perturbation",
      "histories sampled; the order of notifications of concurrent writes is not judged",
      [Run("seq", "h_config", "asan", "seq", dict(cases=2000), dict(cases=20000)),
       Run("conv", "h_config", "asan", "conv", dict(cases=140), dict(cases=2000)),
       Run("conc", "h_config", "asan", "conc", dict(cases=2500), dict(cases=30000)),
       Run("conc-tsan", "h_config", "tsan", "conc", dict(cases=1200), dict(cases=10000))])

# ------------------------------------------------------------------ C01 / C02
B.harness("h_transfer", B.TRANSPORT, zmq=True)
check("C01", "exploration",
      "seeded topologies: transport x tcp/ipc/inproc x push-pull (1-3 to 1-3), pair, req/rep, pub/sub x single/multi-part x Channel or Socket API x binding side x queue size x message construction "
      "(also of the other transport), with random timeouts, EINTR, interrupts and perturbed schedules, and sender/receiver processes; non-trivial: at least one message received; distinct by topology and content",
      "runtime monitoring: offline exactly-once/order/content checker over send and receive logs, counter conservation, ASan/UBSan and TSan",
      "topologies and schedules sampled; pub/sub stays below the queue limits",
      [Run("flow", "h_transfer", "asan", "flow", dict(cases=90), dict(cases=6000)),
       Run("flow2", "h_transfer", "asan", "flow", dict(cases=90, part=2), dict(cases=6000, part=2)),
       Run("proc", "h_transfer", "asan", "proc", dict(cases=12), dict(cases=400)),
       Run("huge", "h_transfer", "asan", "huge", dict(cases=8), dict(cases=200)),
       Run("flow-tsan", "h_transfer", "tsan", "flow", dict(cases=50), dict(cases=2500))])
check("C02", "exploration",
      "seeded: timeouts 0-320 ms of single/multi-part send/receive (no peer, idle peer, full queue) on 12 threads with and without real signals; blocked transfers interrupted, resumed and completed; "
      "message flows under injected EINTR at every second to ninth zeromq call and interrupt/resume storms; non-trivial: every case; distinct by condition and seed",
      "runtime monitoring: timing and return-code monitors, exactly-once checker under EINTR fault injection, ASan/UBSan",
      "elapsed times may be 4 ms short (zeromq counts whole milliseconds) and 2 s long",
      [Run("timeout", "h_transfer", "asan", "timeout", dict(cases=8), dict(cases=250)),
       Run("block", "h_transfer", "asan", "block", dict(cases=14), dict(cases=600)),
       Run("block2", "h_transfer", "asan", "block", dict(cases=14, part=2), dict(cases=600, part=2)),
       Run("eintr", "h_transfer", "asan", "eintr", dict(cases=90), dict(cases=5000))])

# ------------------------------------------------------------------ C05 / C06
B.harness("h_region", B.TRANSPORT, zmq=True)
check("C05", "exploration",
      "seeded histories of region messages on 1-2 devices, 1-2 regions (single/bulk, four ref-count stores, file-backed, four lingers, slow callbacks) and 1-3 threads: create, copy, send, receive, shrink, "
      "rebuild, destroy, bursts around the batch size; regions destroyed at once, after the acks, or before their messages; other processes; more acks than the queue holds; callbacks using the transport; "
      "non-trivial: at least one region message; distinct by setup, schedule and message count",
      "runtime monitoring: holder-count and exactly-once monitor in the region callbacks under ASan/UBSan/TSan with perturbed schedules",
      "histories and schedules sampled; the size acknowledged for a shrunk message is not judged",
      [Run("ack", "h_region", "asan", "ack", dict(cases=30), dict(cases=3000)),
       Run("ack2", "h_region", "asan", "ack", dict(cases=30, part=2), dict(cases=3000, part=2)),
       Run("flood", "h_region", "plain", "flood", dict(cases=2), dict(cases=20)),
       Run("reentrant", "h_region", "asan", "reentrant", dict(cases=8), dict(cases=200)),
       Run("cross", "h_region", "asan", "cross", dict(cases=30), dict(cases=2000)),
       Run("proc", "h_region", "asan", "proc", dict(cases=4), dict(cases=150)),
       Run("ack-tsan", "h_region", "tsan", "ack", dict(cases=20), dict(cases=1000))])
check("C06", "exploration",
      "seeded runs of 1-3 devices with 1-3 creating threads (waiting for the reports, or not), subscribers that stay or come and go, own segments, files, explicit and automatic ids; regions created by 2-5 threads at once; "
      "non-trivial: at least one event; distinct by setup and schedule",
      "runtime monitoring: exactly-once/order monitor over region event logs, region list compared with live regions, ASan/UBSan/TSan",
      "a region that comes and goes between two polls of a subscriber may go unreported; subscriptions of one transport count together",
      [Run("events", "h_region", "asan", "events", dict(cases=25), dict(cases=1500)),
       Run("events2", "h_region", "asan", "events", dict(cases=25, part=2), dict(cases=1500, part=2)),
       Run("ids", "h_region", "asan", "ids", dict(cases=40), dict(cases=2000)),
       Run("events-tsan", "h_region", "tsan", "events", dict(cases=12), dict(cases=500)),
       Run("ids-tsan", "h_region", "tsan", "ids", dict(cases=15), dict(cases=500))])

# ------------------------------------------------------------------ C04
B.harness("h_shm", B.TRANSPORT, zmq=True)
check("C04", "exploration",
      "seeded histories of buffer operations (create, align, fill, copy, copy onto, rebuild, shrink, send, fail to send, receive, discard, destroy) by 1-5 threads on 1-3 devices with one or several, tight or roomy segments "
      "and both allocation algorithms; more holders of one buffer than its count can hold; full segments under every retry policy, waits satisfied or interrupted; 1-3 further processes forwarding, copying, shrinking and creating; non-trivial: at least one buffer; "
      "distinct by setup, schedule and buffer count",
      "runtime monitoring: address-interval monitor of live buffers, content patterns, conservation of free memory per segment, under ASan/UBSan/TSan with perturbed schedules",
      "histories and schedules sampled; messages still queued in a socket when it is closed are not counted",
      [Run("threads", "h_shm", "asan", "threads", dict(cases=30), dict(cases=4000)),
       Run("threads2", "h_shm", "asan", "threads", dict(cases=30, part=2), dict(cases=4000, part=2)),
       Run("full", "h_shm", "asan", "full", dict(cases=60), dict(cases=4000)),
       Run("many", "h_shm", "plain", "many", dict(cases=6), dict(cases=60)),
       Run("storm", "h_shm", "plain", "storm", dict(cases=12), dict(cases=600)),
       Run("proc", "h_shm", "asan", "proc", dict(cases=6), dict(cases=400)),
       Run("threads-tsan", "h_shm", "tsan", "threads", dict(cases=15), dict(cases=1500))])

# ------------------------------------------------------------------ C10
B.harness("h_device", B.DEVICE, zmq=True)
check("C10", "exploration",
      "seeded walks of 6-46 granted transitions through the whole lifecycle (early resets, many cycles, a second thread requesting noise transitions, hooks that throw on their n-th call, errors reported at any point) "
      "with 1-3 self-connected channels per cycle over zeromq/shmem x inproc/ipc/tcp; runs of 12 kinds (blocked in send, receive, WaitFor, conditional loop...) stopped at random points by 1-3 threads, also right after Run; "
      "id, transport, session, rate and buffer sizes changed between cycles; late, missing, wrong-then-corrected and interrupted channel addresses; non-trivial: at least one cycle; distinct by path and plan",
      "runtime monitoring: lifecycle trace oracle over hook and state logs, data probe of every cycle's channels, deadlines on stop and errors, ASan/UBSan/TSan, perturbed schedules",
      "paths and schedules sampled; a stop must take effect within 15 s",
      [Run("walk", "h_device", "asan", "walk", dict(cases=45), dict(cases=4000)),
       Run("walk2", "h_device", "asan", "walk", dict(cases=45, part=2), dict(cases=4000, part=2)),
       Run("fail", "h_device", "asan", "walk", dict(cases=45, part=3, fail=1), dict(cases=4000, part=3, fail=1)),
       Run("stop", "h_device", "asan", "stop", dict(cases=8), dict(cases=600)),
       Run("connecting", "h_device", "asan", "connecting", dict(cases=12), dict(cases=400)),
       Run("walk-tsan", "h_device", "tsan", "walk", dict(cases=20, part=4), dict(cases=1500, part=4)),
       Run("stop-tsan", "h_device", "tsan", "stop", dict(cases=4, part=5), dict(cases=300, part=5))])

# ------------------------------------------------------------------ C11
B.harness("h_ondata", B.DEVICE, zmq=True)
check("C11", "exploration",
      "seeded layouts of 1-4 channels x 1-4 sub-channels, single/multi-part handlers registered as functions or members, pull/pair, zeromq/shmem/mixed, tcp/ipc, some channels unhandled; 1-3 runs each ended by a handler, "
      "a stop in the middle or at the end, senders on 1-3 threads before/during the run; throwing handlers; one-at-a-time messages with the other channels silent; non-trivial: a message was handled; distinct by layout and counts",
      "runtime monitoring: per sub-channel sequence/content/index monitor in the handlers, end-of-loop and serialization monitors, deadlines, ASan/UBSan/TSan",
      "layouts and schedules sampled; a handler for parts gets what was sent as parts",
      [Run("flow", "h_ondata", "asan", "flow", dict(cases=40), dict(cases=4000)),
       Run("flow2", "h_ondata", "asan", "flow", dict(cases=40, part=2), dict(cases=4000, part=2)),
       Run("throw", "h_ondata", "asan", "throw", dict(cases=80), dict(cases=4000)),
       Run("latency", "h_ondata", "asan", "latency", dict(cases=16), dict(cases=400), alone=True),
       Run("flow-tsan", "h_ondata", "tsan", "flow", dict(cases=12, part=3), dict(cases=1000, part=3)),
       Run("throw-tsan", "h_ondata", "tsan", "throw", dict(cases=20, part=4), dict(cases=1000, part=4))])

# ------------------------------------------------------------------ C07
B.harness("h_session", B.TRANSPORT, zmq=True,
          ldflags=" ".join(f"-Wl,--wrap={x}" for x in ("shm_open", "shm_unlink", "unlink", "ftruncate", "ftruncate64", "posix_fallocate", "mmap", "fopen")))
check("C07", "exploration",
      "seeded histories of joins, leaves, regions, files, failures, cleanups and resets over 1-3 sessions (names and explicit ids) judged after every operation against a model of /dev/shm; scripts run in "
      "processes killed at chosen link-time-wrapped points (every shm_open/ftruncate/fallocate/mmap/unlink/fopen and session lock operation; all points in thorough) with and without other processes, then cleaned up and "
      "reused; threads and processes joining and leaving one session at once under perturbed schedules; non-trivial: shared memory was created; distinct by history, crash point or schedule",
      "runtime monitoring: model oracle over the names and inodes in /dev/shm and over the library's reports, crash injection at link-time wrapped system calls, ASan/UBSan",
      "Boost's wait for an interrupted creator is shortened from 300 s to 8 s at compile time",
      [Run("life", "h_session", "asan", "life", dict(cases=40), dict(cases=1500)),
       Run("life2", "h_session", "asan", "life", dict(cases=40, part=1), dict(cases=1500, part=1)),
       Run("crash", "h_session", "asan", "crash", dict(cases=5, points=14), dict(cases=40)),
       Run("crash2", "h_session", "asan", "crash", dict(cases=5, points=14, part=1), dict(cases=40, part=1)),
       Run("race", "h_session", "asan", "race", dict(cases=25), dict(cases=1200)),
       Run("manual", "h_session", "asan", "manual", dict(cases=30), dict(cases=1000))])

# ------------------------------------------------------------------ C14
B.harness("h_chcfg", B.PLUGINS, zmq=True)
check("C14", "exploration",
      "generated JSON files (several devices, id/key addressing, inherited and own settings, socket counts, escapes, unknown keys) and key=value options (prefix or name=, any order, unknown keys), also through the config plugin "
      "into real devices down to the socket options; channels built, copied, stored and read back through the API; validation of channels with 0-2 built-in defects; mutated texts; non-trivial: at least one channel; distinct by text",
      "runtime monitoring: independent configuration model compared with store, channel objects, device and sockets; restated validation rules; mutation workload under ASan/UBSan",
      "texts sampled; settings of the wrong type and repeated channel names are not judged beyond memory safety",
      [Run("json", "h_chcfg", "asan", "json", dict(cases=250), dict(cases=20000)),
       Run("subopt", "h_chcfg", "asan", "subopt", dict(cases=250), dict(cases=20000)),
       Run("api", "h_chcfg", "asan", "api", dict(cases=200), dict(cases=10000)),
       Run("validate", "h_chcfg", "asan", "validate", dict(cases=200), dict(cases=10000)),
       Run("device", "h_chcfg", "asan", "device", dict(cases=60), dict(cases=3000)),
       Run("fuzz", "h_chcfg", "asan", "fuzz", dict(cases=200), dict(cases=20000))])

# ------------------------------------------------------------------ C15
B.harness("h_control", B.PLUGINS, zmq=True, ldflags="-rdynamic")
check("C15", "exploration",
      "svc: rounds of 2-4 threads x 5-8 take/steal/release/change/query operations of 2-4 controllers with 0-3 waiters on one device, released once at the end; run: complete device processes (static, gui, "
      "interactive over pipe or terminal, none, unknown mode) with random hook durations, signalled from outside or by themselves at every hook and state, with throwing hooks, unconnectable channels, a second plugin "
      "driving or stealing control, operator walks, typed-ahead commands and end of input; non-trivial: states were passed; distinct by results or by plan and event log",
      "runtime monitoring: linearizability check of recorded control histories, wake-up deadline for waiters, conservation of granted requests; state path, exit code and termination oracle over the event log of each "
      "process; injected delays at chosen synchronisation points, ASan/UBSan/TSan",
      "histories and schedules sampled; a device that does not end within 30 s counts as hanging",
      [Run("svc", "h_control", "asan", "svc", dict(cases=150), dict(cases=10000)),
       Run("svc-tsan", "h_control", "tsan", "svc", dict(cases=60, part=1), dict(cases=3000, part=1)),
       Run("run", "h_control", "asan", "run", dict(cases=220), dict(cases=12000)),
       Run("run-tsan", "h_control", "tsan", "run", dict(cases=120, part=1), dict(cases=6000, part=1)),
       Run("race", "h_control", "asan", "run", dict(cases=150, fast=1, part=2), dict(cases=6000, fast=1, part=2))])

# ------------------------------------------------------------------ C16
B.harness("h_plugin", B.PLUGINS, zmq=True, ldflags="-rdynamic", so=["vpplugin"])
check("C16", "exploration",
      "mgr: seeded directory trees with copies of a plugin library under both name schemes (also broken files, missing symbols, non-existing and invalid search paths), managers configured by arguments or calls, 0-15 load "
      "requests by all mechanisms with repetitions, instantiated in 1-3 phases, with throwing plugins; runner: complete runs of DeviceRunner and of the stock main with plugins, options, hooks, informational options and "
      "every kind of failure; non-trivial: something was instantiated or run; distinct by request list or by arguments and event log",
      "runtime monitoring: model of search paths, load order, options and life cycle compared with the events of real plugins (which report the file they come from); hook/exit-code/output oracle over child processes, ASan/UBSan",
      "trees and command lines sampled; plugins are instantiated without sanitizer instrumentation of their own code",
      [Run("mgr", "h_plugin", "asan", "mgr", dict(cases=900), dict(cases=6000)),
       Run("runner", "h_plugin", "asan", "runner", dict(cases=150), dict(cases=6000))])

# ------------------------------------------------------------------ C18
B.harness("h_conn", B.DEVICE, zmq=True)
check("C18", "exploration",
      "poll: seeded sets of 1-16 polled channels of all socket types (both transports, by pointer, vector or name, also repeated names) with 0-2 peers and tiny queues, 20-80 rounds of peer activity, poll, and a "
      "non-blocking transfer per channel compared with its flag; time: idle polls (also under a stream of signals) and awaited messages; attach: real devices with 1-9 channels of 1-3 endpoints (tcp, automatic tcp port, ipc, "
      "inproc, modifiers, omitted addresses), a peer per endpoint, peers that come, leave and return; fail: occupied, exhausted and last ports, invalid endpoints, addresses that are corrected later; non-trivial: something "
      "was ready or attached; distinct by observed flags or by configuration",
      "runtime monitoring: differential oracle (flags against outcome of the transfer in a quiescent system, model of messages under way otherwise), deadlines, reachability of every reported endpoint, peer count against "
      "the peers that exist; ASan/UBSan",
      "configurations sampled; late means more than 3 s; ports are taken from 24000-32500",
      [Run("poll", "h_conn", "asan", "poll", dict(cases=2500), dict(cases=100000)),
       Run("time", "h_conn", "asan", "time", dict(cases=80), dict(cases=4000)),
       Run("attach", "h_conn", "asan", "attach", dict(cases=60), dict(cases=5000)),
       Run("fail", "h_conn", "asan", "fail", dict(cases=30), dict(cases=2000))])

# ------------------------------------------------------------------ C20
B.harness("h_devices", B.PLUGINS, zmq=True, ldflags="-rdynamic")
check("C20", "exploration",
      "flow: in-process proxies, mergers, splitters and multipliers with 1-5 inputs, 1-9 outputs, both transports (also mixed), bind/connect, ipc/tcp, queue sizes 1-1000, single/multi-part, 0-8 stops on the way (also while blocked) "
      "and task resets; sampler: sizes, parts, alignment, counts, rates, repeated runs; sink: counts, files, size limits, repeated runs; program/chain: the complete executables' main functions in processes of their own; "
      "non-trivial: at least one message passed; distinct by configuration and arrival order",
      "runtime monitoring: exactly-once/order/content oracle over numbered messages whose content follows from their number, round-robin and all-outputs oracle, byte comparison of written files, count and rate monitor; "
      "injected EINTR and delays, ASan/UBSan",
      "configurations sampled; a stop of a running device may cost the single message in flight (per output)",
      [Run("flow", "h_devices", "asan", "flow", dict(cases=60), dict(cases=3000)),
       Run("flow2", "h_devices", "asan", "flow", dict(cases=60, part=1), dict(cases=3000, part=1)),
       Run("sampler", "h_devices", "asan", "sampler", dict(cases=24), dict(cases=2000)),
       Run("sink", "h_devices", "asan", "sink", dict(cases=50), dict(cases=3000)),
       Run("program", "h_devices", "asan", "program", dict(cases=16), dict(cases=800)),
       Run("chain", "h_devices", "asan", "chain", dict(cases=12), dict(cases=600))])

# ------------------------------------------------------------------ C21
B.harness("h_race", B.PLUGINS, zmq=True, ldflags="-rdynamic")
check("C21", "exploration",
      "transport: 2-6 threads on 1-2 transports of one session (both kinds) with seeded mixes of creating (6 ways), copying, handing over, destroying, sending, receiving (single/multi-part), polling, new channels, own and common "
      "regions, region event subscription and queries; device: a device moving messages with 1-3 threads while 2-5 plugins read, write, subscribe, query states, take, steal and release control and request transitions; the event manager, store, state machine, state queue, plugin services, regions and buffers also each alone; "
      "non-trivial: messages moved; distinct by operation counts or state path",
      "runtime monitoring: race and lock-order detector (TSan, boost interprocess locks and libzmq hand-over made visible), ASan/UBSan, content/acknowledgement/free-callback conservation and progress watchdog, perturbed schedules",
      "schedules sampled; a hand-over through libzmq is taken as synchronising all threads, which may hide races next to it",
      [Run("transport", "h_race", "asan", "transport", dict(cases=25), dict(cases=3000)),
       Run("transport2", "h_race", "asan", "transport", dict(cases=25, part=1), dict(cases=3000, part=1)),
       Run("transport-tsan", "h_race", "tsan", "transport", dict(cases=22), dict(cases=1500)),
       Run("transport2-tsan", "h_race", "tsan", "transport", dict(cases=22, part=2), dict(cases=1500, part=2)),
       Run("device", "h_race", "asan", "device", dict(cases=14), dict(cases=2000)),
       Run("device2", "h_race", "asan", "device", dict(cases=14, part=2), dict(cases=2000, part=2)),
       Run("device-tsan", "h_race", "tsan", "device", dict(cases=18, part=1), dict(cases=1200, part=1)),
       # the parts on their own, where nothing else orders the threads
       Run("events-tsan", "h_events", "tsan", "conc", dict(cases=120, part=21), dict(cases=3000, part=21)),
       Run("config-tsan", "h_config", "tsan", "conc", dict(cases=600, part=21), dict(cases=6000, part=21)),
       Run("states-tsan", "h_fsm", "tsan", "conc", dict(cases=200, part=21), dict(cases=4000, part=21)),
       Run("notify-tsan", "h_fsm", "tsan", "notify", dict(cases=80, part=21), dict(cases=1000, part=21)),
       Run("waits-tsan", "h_fsm", "tsan", "qwait", dict(cases=120, part=21), dict(cases=2000, part=21)),
       Run("control-tsan", "h_control", "tsan", "svc", dict(cases=40, part=21), dict(cases=1500, part=21)),
       Run("regions-tsan", "h_region", "tsan", "events", dict(cases=8, part=21), dict(cases=300, part=21)),
       Run("acks-tsan", "h_region", "tsan", "ack", dict(cases=12, part=21), dict(cases=500, part=21)),
       Run("buffers-tsan", "h_shm", "tsan", "threads", dict(cases=10, part=21), dict(cases=800, part=21))])

# ------------------------------------------------------------------ C22
B.harness("h_monitor", B.TRANSPORT, zmq=True, ldflags="-Wl,--wrap=_ZNSt6chrono3_V212system_clock3nowEv -lutil")
B.harness("shmmonitor", B.TRANSPORT, zmq=True)
check("C22", "exploration",
      "watch: 14 monitors in parallel (timeouts 1.4-2 s, with and without self-destruct and clean-on-exit), each through 1-3 seeded histories of absence, devices and processes joining, leaving, being killed, and somebody coming back in "
      "time, with delays injected right after the monitor reads the clock; tool: the complete program in 15 scenarios (every option, daemon, terminal, started by devices, killed devices); info: 10-50 seeded buffer operations on "
      "1-3 devices and segments with every query compared, also built in debug mode; non-trivial: something lived or ended; distinct by history",
      "runtime monitoring: identity of the session's objects while processes live, cleanup deadline and earliest-time monitor, absence/presence oracle over the names in /dev/shm, model of reported values; injected delays and "
      "process kills, ASan/UBSan",
      "histories sampled; not judged while the machine itself stood still for more than 0.25 s",
      [Run("watch", "h_monitor", "asan", "watch", dict(cases=2), dict(cases=60)),
       Run("tool", "h_monitor", "asan", "tool", dict(cases=3), dict(cases=80), also=["shmmonitor"]),
       Run("info", "h_monitor", "asan", "info", dict(cases=60), dict(cases=3000)),
       Run("info-debug", "h_monitor", "asandbg", "info", dict(cases=25), dict(cases=1000))])

# ------------------------------------------------------------------ C23
B.harness("h_rates", B.DEVICE, zmq=True)
check("C23", "exploration",
      "log: 10 devices at a time (zeromq/shmem, 1-3 sub-channels each way with intervals 0-3 s, single/multi-part), traffic before the run and in seeded bursts between the logger's ticks, two runs each ended at a seeded time; "
      "loop: 8 devices at a time whose conditional loop runs at rates 0-500/s with seeded body durations; non-trivial: messages moved or loop executed; distinct by setup and traffic",
      "runtime monitoring: captured log lines against the test's own traffic counts (rate x time since the channel's previous line), loop counts against the configured rate, ASan/UBSan/TSan",
      "lines written during traffic are only counted; rates are compared within 12-14 %, the rates of one line with each other within 0.02 %",
      [Run("log", "h_rates", "asan", "log", dict(cases=2), dict(cases=40)),
       Run("loop", "h_rates", "asan", "loop", dict(cases=2), dict(cases=30)),
       Run("log-tsan", "h_rates", "tsan", "log", dict(cases=1), dict(cases=10))])

# ------------------------------------------------------------------ C24
B.harness("h_tidy", [], flags="-fno-rtti -isystem /usr/lib/llvm-18/include", ldflags="-L/usr/lib/llvm-18/lib -lclang-cpp -lLLVM")
check("C24", "exploration",
      "generated translation units (1-2 sources and a header): up to 13 aliases with seeded names, uses of them in 34 syntactic positions (qualified or not, in namespaces, headers, macros), 21 kinds of look-alikes, "
      "3 ways to give the standard; non-trivial: at least one use; distinct by the uses",
      "runtime monitoring: the warnings and fix-its the real tool prints against the uses that were generated, ASan/UBSan",
      "a use may be reported more than once (a type with its scope is two syntactic entities)",
      [Run("gen", "h_tidy", "asan", "gen", dict(cases=150), dict(cases=12000))])
