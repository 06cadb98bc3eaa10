#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

prop("C01", "Messages cross a channel exactly once, intact, in order",
 "Over every transport (zeromq, shmem), address type (tcp, ipc, inproc) and connected socket pattern (push/pull, pair, req/rep, pub/sub once subscribed), each message or multi-part message whose send reported success is received exactly once, with the same part count, part order, sizes and bytes, and messages of one sender arrive at one receiver in the order sent; nothing is received that was not sent. Send and Receive return the total payload size of what they moved, and a socket's sent/received byte and message counters equal the sums over its successful operations (one multi-part message counts as one message). Zero-size messages and parts, and receiving into an already used message object, are no exception.",
 ["inputs", "schedules", "configurations"],
 "all message sizes/part layouts, payloads, patterns, transports, alignments and sender/receiver interleavings",
 "tests/protocols and tests/message send a handful of fixed short strings per pattern; none varies part layouts, sizes, reuse of message objects, back-pressure or several concurrent peers, and none compares counters with a model",
 ["fairmq/zeromq/Socket.h", "fairmq/zeromq/Message.h", "fairmq/shmem/Socket.h", "fairmq/shmem/Message.h", "fairmq/Channel.h", "fairmq/Parts.h", "fairmq/zeromq/ZMsg.h"],
 [("single and multi-part Send/Receive loops", "fairmq/zeromq/Socket.h, fairmq/shmem/Socket.h"), ("message meta data carried over zeromq", "fairmq/shmem/Socket.h, fairmq/shmem/Message.h"), ("transfer counters", "fBytesTx/fBytesRx/fMessagesTx/fMessagesRx")],
 ["Channel::Send/Receive return values and message contents at both ends", "Socket::GetBytesTx/Rx, GetMessagesTx/Rx"])

prop("C02", "Transfer timeouts, interruption and failed transfers behave as specified",
 "A Send or Receive that cannot proceed returns the timeout code: at once for timeout 0, and for a positive timeout never before that timeout has passed and within a bounded overrun; with a negative timeout it blocks until it can proceed. Interrupting the transport makes every blocked and every later otherwise-blocking transfer return the interrupted code until Resume, after which transfers work again. A send that did not succeed leaves the caller's message(s) intact and sendable, no failed transfer moves a counter, and signals arriving during a transfer (EINTR) do not lose, duplicate or corrupt messages.",
 ["schedules", "inputs", "fault_sequences"],
 "all timeouts, interrupt/resume timings, signal timings and queue-full/no-peer situations on both transports",
 "test/transport/_transfer_timeout.cxx tries one timeout per transport with one thread; interrupt timings, EINTR, resending after failure and multi-part failures are not sampled",
 ["fairmq/zeromq/Socket.h", "fairmq/shmem/Socket.h", "fairmq/zeromq/Common.h", "fairmq/zeromq/Context.h", "fairmq/shmem/Manager.h", "fairmq/Channel.h", "fairmq/Error.h"],
 [("retry rule", "zmq::ShouldRetry in fairmq/zeromq/Common.h"), ("interrupt flag", "Context::Interrupt/Resume, Manager::Interrupt/Resume")],
 ["return codes and elapsed time of Channel::Send/Receive", "message state after a failed transfer"])

prop("C03", "Message objects behave like owned byte buffers",
 "For any sequence of create, write, rebuild, shrink (SetUsedSize), copy, move, receive and destroy on messages of either transport, each message shows exactly the size and bytes a plain byte-buffer model gives it: requested alignment (up to 32768) is honoured, for zeromq also when receiving, growing through SetUsedSize is refused without effect, copies share the content and stay valid after the original is changed or destroyed. A buffer handed over with a release function is released exactly once, with its own pointer and hint, no earlier than the last use of that buffer and no later than the destruction of the last message using it. Multi-part containers keep their parts in the order added and transfer ownership without losing or duplicating a part.",
 ["inputs", "histories"],
 "all operation sequences over message objects, sizes (including 0), alignments and both transports",
 "test/message/_message.cxx checks single fixed sequences; sequences mixing rebuild, copy, shrink and reuse are unbounded",
 ["fairmq/zeromq/Message.h", "fairmq/shmem/Message.h", "fairmq/Message.h", "fairmq/Parts.h", "fairmq/TransportFactory.h"],
 [("buffer hand-over and emulated shrink", "fairmq/zeromq/Message.h"), ("reference count next to the buffer", "fairmq/shmem/Message.h, ShmHeader in fairmq/shmem/Common.h"), ("part container", "fairmq/Parts.h")],
 ["Message::GetData/GetSize", "calls of the free function"])

prop("C04", "Shared memory is neither leaked, double-freed nor handed out twice",
 "While a shared-memory message (or any of its copies, local or received by another device) is alive its buffer is never given to another message, released or altered by the library; when the last holder is destroyed the buffer is released exactly once. After every message of a session is gone the free memory of each managed segment is what it was before, whatever mixture of create, copy, send, receive, rebuild, shrink, discard and failed allocation was performed from however many threads, devices and processes. An allocation that cannot be satisfied is reported as an allocation failure (after the configured number of attempts) and leaves everything else usable.",
 ["histories", "schedules", "configurations"],
 "all multi-threaded and multi-process histories of buffer operations, both allocation algorithms, several segments per session",
 "test/message and test/transport/_shmem check a few lifetimes in one process; no test does conservation accounting under concurrent copy/destroy or across processes",
 ["fairmq/shmem/Manager.h", "fairmq/shmem/Message.h", "fairmq/shmem/Socket.h", "fairmq/shmem/Segment.h", "fairmq/shmem/Common.h", "fairmq/shmem/Monitor.cxx"],
 [("reference counting in the buffer header", "ShmHeader in fairmq/shmem/Common.h"), ("allocation and its retry policy", "Manager::Allocate in fairmq/shmem/Manager.h"), ("ownership hand-over through sockets (queued flag)", "fairmq/shmem/Socket.h, fairmq/shmem/Message.h")],
 ["Monitor::GetFreeMemory", "patterns written into every live buffer", "MessageBadAlloc"])

prop("C05", "Every region buffer is acknowledged exactly once, after its last use",
 "For every message created from an unmanaged region with a callback, the creator's callback (single or bulk) is invoked exactly once for it, carrying that message's data pointer, size and hint; for shared memory this happens only after every copy, local or remote, is destroyed, and for zeromq once the data has been taken over. All acknowledgements due before a region is destroyed are delivered before its destruction completes (subject to its linger), none is delivered after, and bulk delivery neither loses, duplicates nor alters blocks; data another transport has started to read stays readable when the owner destroys the region.",
 ["histories", "schedules", "configurations"],
 "all histories of region messages, copies, receivers (other threads/processes), ack batching states and region destruction timings",
 "test/region counts acks for one or two messages; batching boundaries, concurrent releases, copies and destruction with acks in flight are not sampled",
 ["fairmq/shmem/UnmanagedRegion.h", "fairmq/shmem/UnmanagedRegionImpl.h", "fairmq/shmem/Message.h", "fairmq/shmem/Manager.h", "fairmq/zeromq/Message.h", "fairmq/zeromq/UnmanagedRegion.h", "fairmq/UnmanagedRegion.h"],
 [("ack sender and receiver threads over a message queue", "fairmq/shmem/UnmanagedRegion.h"), ("reference counts of region buffers", "fairmq/shmem/Message.h, fairmq/shmem/UnmanagedRegion.h")],
 ["the region callbacks"])

prop("C06", "Region subscribers see each region come and go exactly once",
 "A subscriber to region events of a transport is told about every existing and every later created managed segment and unmanaged region exactly once as created (or local-only) and exactly once as destroyed when it goes away (a region that is gone before the subscriber's device looks may stay unreported), with matching id, pointer, size and flags, never destroyed before created, and no callback runs after unsubscribing returned. Region ids are unique among live regions of a session, the region list reports exactly the live ones, and a region can be reached by its id from other devices of the session with the same content.",
 ["histories", "schedules"],
 "all interleavings of subscribe/unsubscribe/resubscribe with region creation and destruction from several devices",
 "test/region/_region.cxx (EventSubscriptions) runs one fixed order in one thread",
 ["fairmq/shmem/Manager.h", "fairmq/zeromq/Context.h", "fairmq/zeromq/UnmanagedRegion.h", "fairmq/zeromq/TransportFactory.h", "fairmq/shmem/UnmanagedRegionImpl.h", "fairmq/UnmanagedRegion.h"],
 [("event subscription thread", "Manager::RegionEventsSubscription, zmq::Context::RegionEventsSubscription"), ("region registry in the management segment", "fairmq/shmem/Manager.h")],
 ["the region event callback", "TransportFactory::GetRegionInfo"])

prop("C07", "Shared memory lives exactly as long as its session has users",
 "Shared-memory objects of a session exist as long as at least one transport of that session (same user and session name, or same explicit shm id) is alive, are all removed when the last one leaves in an orderly way (unless no-cleanup was requested), and after crashes of any of its processes at any point a cleanup call removes every remaining object of that session and reports what it removed. Nothing done for one session touches another session's objects, cleanup of an absent session is harmless, and the presence queries agree with what exists.",
 ["histories", "crash_points", "configurations"],
 "all join/leave/crash orders of devices of one and several sessions, with segments, regions and files",
 "test/transport/_shmem.cxx opens and closes one session; no crash points, no overlapping sessions, no concurrent join/leave",
 ["fairmq/shmem/Manager.h", "fairmq/shmem/Monitor.cxx", "fairmq/shmem/Monitor.h", "fairmq/shmem/Common.cxx", "fairmq/shmem/Segment.h", "fairmq/shmem/UnmanagedRegion.h", "fairmq/shmem/TransportFactory.h"],
 [("device counter and last-leaver cleanup", "Manager::CleanupIfLast in fairmq/shmem/Manager.h"), ("Monitor cleanup and queries", "fairmq/shmem/Monitor.cxx"), ("session to id derivation", "fairmq/shmem/Common.cxx")],
 ["names under /dev/shm", "return values of Monitor::Cleanup/SegmentIsPresent/RegionIsPresent"])

prop("C08", "Devices move only along the documented state graph",
 "Whatever transitions are requested, by whichever threads and with whatever timing, the sequence of states a device goes through is a path of the documented state graph starting at IDLE; a request is granted (reported true) exactly when it is legal in the state it is applied to and no other granted request is still pending, and each granted request is carried out unless an error overtakes it. Reporting an error is accepted in every state and ends in ERROR, from which only termination follows (once EXITING, nothing more happens). Conversions between states, transitions and their names are mutually inverse and unknown names are rejected.",
 ["schedules", "histories", "inputs"],
 "all request sequences and interleavings of requesting threads, including requests from state handlers and callbacks",
 "test/state_machine drives one fixed legal path; illegal, concurrent and nested requests are not enumerated",
 ["fairmq/StateMachine.cxx", "fairmq/StateMachine.h", "fairmq/States.cxx", "fairmq/States.h"],
 [("transition table", "fairmq/StateMachine.cxx"), ("pending flag and state mutex", "fairmq/StateMachine.cxx")],
 ["StateMachine::ChangeState return value", "state change callbacks", "GetCurrentState"])

prop("C09", "State changes are notified once, in order, and can be waited for",
 "Every subscriber active during a state change is notified of it exactly once, and all subscribers see states in the order the device entered them; unsubscribed ones are not called. A state queue hands out the pushed states in order, each exactly once, wakes a waiter whenever its awaited state (or custom condition) is available, honours timeouts, and once the error state was pushed every wait for a state reports the error instead of blocking. New-transition subscribers are told of each granted transition, and waiting for a pending state gives up no later than the requested time and reports pending requests truthfully.",
 ["schedules", "histories"],
 "all interleavings of pushes, waits, clears, subscriptions and state changes",
 "test/device/_waitfor.cxx waits for a few fixed states; concurrent pushes/waits/unsubscribe are not exercised",
 ["fairmq/StateQueue.h", "fairmq/StateMachine.cxx", "fairmq/StateMachine.h", "fairmq/Device.h"],
 [("locked queue and condition variable", "fairmq/StateQueue.h"), ("state change signals", "fairmq/StateMachine.cxx")],
 ["StateQueue::WaitFor*", "subscription callbacks"])

prop("C10", "A device runs its hooks in lifecycle order, and any number of cycles",
 "Each pass through the device lifecycle calls the user hooks of that pass (Init, Bind, Connect, InitTask, PreRun, Run or the conditional/data loop, PostRun, ResetTask, Reset) exactly once in the documented order and only inside the matching state, and a device can be reset from any resettable state and brought up again any number of times with fresh working channels, as configured by then, and no use of released resources. A stop request makes a running device leave RUNNING, also when it is blocked in a transfer or in WaitFor; an exception thrown by any hook puts the device into ERROR and is reported to the runner rather than lost or terminating the process. PostRun always follows a started PreRun/Run unless that hook threw.",
 ["histories", "schedules", "fault_sequences"],
 "all legal sequences of device transitions (including early resets), all hook-failure points, and all stop timings",
 "test/device covers one full cycle, one exception site per test and a few signals; repeated partial cycles such as INITIALIZED-reset-init-bind are not covered",
 ["fairmq/Device.cxx", "fairmq/Device.h", "fairmq/StateMachine.cxx", "fairmq/Channel.cxx"],
 [("state handler wrappers", "Device::InitWrapper ... ResetWrapper in fairmq/Device.cxx"), ("transport interrupt on new transition", "fairmq/Device.cxx")],
 ["hook invocations of a subclass", "device state", "sanitizer reports"])

prop("C11", "Registered data handlers get every message once, from the right channel",
 "With data handlers registered (single or multi-part, on one or more channels with any number of sub-channels, any mix of transports), every message that arrives on a handled sub-channel is passed to that channel's handler exactly once with its content, in order and with the index of the sub-channel it arrived on, and to no other handler. A handler returning false, and only that (or a pending transition), ends the running loop; an exception of a handler ends it in ERROR. Handlers never run concurrently, and silence on one channel or transport does not hold up the messages of another.",
 ["inputs", "schedules", "configurations"],
 "all channel/sub-channel/transport layouts, arrival interleavings and handler return values",
 "no unit test covers OnData dispatch beyond trivially small example devices",
 ["fairmq/Device.cxx", "fairmq/Device.h", "fairmq/Channel.h", "fairmq/Poller.h", "fairmq/zeromq/Poller.h", "fairmq/shmem/Poller.h"],
 [("single- and multi-transport input handling", "Device::HandleSingleChannelInput / HandleMultipleChannelInput / HandleMultipleTransportInput in fairmq/Device.cxx")],
 ["the OnData callbacks"])

prop("C12", "Event subscribers receive exactly the events emitted while subscribed",
 "An event emitted with a given event type and argument type calls the callback of every subscriber currently subscribed for exactly that combination, once, synchronously and with the emitted key and value, and calls nobody else. Subscribing again under the same name replaces the earlier subscription, different names coexist, and unsubscribing (also of unknown names) removes only the named subscription. This holds under concurrent use from several threads and from within callbacks, where an emission overlapping a (re)subscription or removal may see it before or after.",
 ["histories", "schedules"],
 "all sequences and interleavings of subscribe, resubscribe, unsubscribe and emit over event types, argument types and names",
 "EventManager.Basics (the one stable test) performs one fixed single-threaded sequence",
 ["fairmq/EventManager.h", "fairmq/EventManager.cxx"],
 [("signal registry and connection registry guarded by a mutex", "fairmq/EventManager.h")],
 ["callback invocations"])

prop("C13", "The configuration store is a consistent, observable key-value map",
 "Reads return the last value written to a key with its type (typed read, default, as string, by prefix, by regular expression, key listing, existence), reads of a missing key give the default or the not-found error, a wrong-type read fails without side effect, deleting removes the key, and a multi-property update applies all its values if all keys exist and none otherwise. Every set/update notifies each matching subscriber exactly once per changed key with the new value, and string subscribers with its string form; all supported types convert to their documented string form. All of this holds for concurrent access from several threads, where operations appear atomic.",
 ["histories", "schedules", "inputs"],
 "all operation histories over keys, supported value types and concurrent threads",
 "test/properties and test/plugin_services/_config.cxx check single values in one thread",
 ["fairmq/ProgOptions.cxx", "fairmq/ProgOptions.h", "fairmq/Properties.cxx", "fairmq/Properties.h", "fairmq/PropertyOutput.h", "fairmq/PluginServices.h"],
 [("mutex-protected variables map", "fairmq/ProgOptions.cxx"), ("per-type string conversion and event emitters", "fairmq/Properties.cxx")],
 ["ProgOptions API results", "property change callbacks"])

prop("C14", "Channel configuration is parsed faithfully and rejected safely",
 "Channel settings given as JSON, as key=value channel option or through the API arrive unchanged in the configuration store and in the channel objects created from it, with documented defaults for everything unspecified, sub-channels numbered consecutively and only the addressed device's section used; a channel written to the store and read back equals the original. Validation accepts exactly the legal type/method/address/transport/buffer/rate combinations and reports others as errors, and no input text makes parsing crash or corrupt memory.",
 ["inputs", "configurations"],
 "all JSON documents, option strings and channel settings, well-formed or not",
 "test/properties/_suboptparser.cxx and test/channel check a few fixed configurations",
 ["fairmq/JSONParser.cxx", "fairmq/SuboptParser.cxx", "fairmq/Channel.cxx", "fairmq/Channel.h", "fairmq/ProgOptions.cxx", "fairmq/plugins/config/Config.cxx"],
 [("JSON/subopt to property conversion", "fairmq/JSONParser.cxx, fairmq/SuboptParser.cxx"), ("channel construction from properties and validation", "fairmq/Channel.cxx")],
 ["returned Properties", "Channel getters", "Channel::Validate"])

prop("C15", "At most one plugin controls a device, and control is never lost",
 "At any time at most one controller holds device control; requests by others to take control or change state are refused with the control error and change nothing, stealing always succeeds, only the holder can release, and everyone waiting for release wakes once control is released. The built-in controller brings a device through start-up into RUNNING, and on a shutdown signal, an operator command or the end of work, at whatever point of the lifecycle it happens, brings it back through the reset states to EXITING and releases control, or ends in ERROR if the device fails, without hanging.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of take/steal/release/change by several controllers; all signal timings and device failures under the built-in controller",
 "test/plugin_services/_control.cxx checks two controllers in one thread; test/device/_signals sends one signal at one moment",
 ["fairmq/PluginServices.cxx", "fairmq/PluginServices.h", "fairmq/plugins/control/Control.cxx", "fairmq/plugins/control/Control.h", "fairmq/Plugin.h", "fairmq/StateQueue.h"],
 [("controller slot under a mutex with a release condition", "fairmq/PluginServices.cxx"), ("startup and shutdown sequences over a state queue", "fairmq/plugins/control/Control.cxx")],
 ["PluginServices API", "exit status and state trace of a controlled device process"])

prop("C16", "Plugins and runner hooks are processed once, in order, and fail cleanly",
 "Plugins are looked up in the search paths in their documented order (prepended, given, appended), loaded and instantiated exactly once in the order requested by whichever mechanism, see the options and services of their device, are visited in that order and destroyed with their manager; bad paths, missing files, missing symbols, bad options and throwing constructors surface as the documented errors and leave the manager usable. The device runner executes its hooks in the documented order, honours help/version/print options without running a device, passes the command line through to configuration, and reports failure of a device through its exit code.",
 ["inputs", "configurations", "histories"],
 "all search path sets, plugin name sequences, option sets and runner hook combinations",
 "test/plugins loads two fixed plugins from one directory",
 ["fairmq/PluginManager.cxx", "fairmq/PluginManager.h", "fairmq/Plugin.cxx", "fairmq/Plugin.h", "fairmq/DeviceRunner.cxx", "fairmq/DeviceRunner.h", "fairmq/ProgOptions.cxx"],
 [("plugin search, symbol loading and ordering", "fairmq/PluginManager.cxx"), ("hook sequence", "DeviceRunner::Run in fairmq/DeviceRunner.cxx")],
 ["plugin instances and their construction/destruction order", "thrown error types", "runner return code and hook trace"])

prop("C17", "Container memory resources place data in message buffers without copies",
 "Memory handed out by a transport's memory resource (and by allocators built on it, for any element type, alignment and allocation pattern) is correctly aligned, does not overlap other live memory, is owned by exactly one message of that transport until it is released, and is released exactly once. Turning a container built on the resource into a message transfers that very buffer with exactly the container's bytes, leaves the container empty and safe to destroy, and containers using other resources are copied; the count of messages held by a resource returns to zero when everything is released.",
 ["inputs", "histories"],
 "all sequences of allocate/deallocate/container growth/adoption over element types, sizes and alignments",
 "test/memory_resources checks a handful of vectors with a counting element type",
 ["fairmq/MemoryResources.h", "fairmq/MemoryResources.cxx", "fairmq/MemoryResourceTools.h", "fairmq/TransportFactory.h"],
 [("message map of the channel resource", "fairmq/MemoryResources.h/.cxx"), ("getMessage adoption", "fairmq/MemoryResourceTools.h")],
 ["addresses and alignment returned", "getNumberOfMessages", "message contents"])

prop("C18", "Polling, peers and endpoints reflect the actual connection state",
 "After a poll, the input (output) flag of each polled channel, addressed by position or by name and sub-channel, is set exactly when a non-blocking receive (send) on it would succeed, a poll returns no later than its timeout when nothing is ready and promptly when something is, and unknown names are rejected. Binding and connecting establish exactly the endpoints requested: binding within a port range or to an automatically chosen port yields a free, distinct, reported port, several endpoints per channel all work, failures are reported, and the number of connected peers follows connects and disconnects.",
 ["histories", "configurations", "schedules"],
 "all sets of polled channels, readiness patterns, endpoint strings and bind/connect orders",
 "test/poller checks one or two channels; test/channel one bind; port exhaustion, multi-endpoint and readiness patterns are not sampled",
 ["fairmq/zeromq/Poller.h", "fairmq/shmem/Poller.h", "fairmq/Poller.h", "fairmq/Channel.cxx", "fairmq/Device.cxx", "fairmq/zeromq/Common.h"],
 [("poll item set and offset map", "fairmq/zeromq/Poller.h, fairmq/shmem/Poller.h"), ("endpoint handling", "Channel::BindEndpoint/ConnectEndpoint in fairmq/Channel.cxx"), ("peer counting from socket monitor events", "fairmq/zeromq/Common.h")],
 ["Poller::CheckInput/CheckOutput", "Channel::GetAddress after bind", "Channel::GetNumberOfConnectedPeers"])

prop("C19", "Utility primitives keep their counts, limits and results",
 "A semaphore never lets more waits pass than its initial count plus signals, lets exactly that many pass, and its shared form shares one count; an instance limiter admits at most its maximum number of simultaneously existing instances and frees a slot when one ends; generated ids are well-formed and never repeat. A rate limiter keeps a loop's long-term rate at or below the requested rate (and close to it when the loop body is fast enough), for any rate and body duration. Executing a command returns its exit code and its complete output line by line, prefixed, delivering input and signal when asked; version comparison, string helpers and interface lookup agree with their definitions.",
 ["inputs", "schedules", "histories"],
 "all signal/wait interleavings, limiter rates and loop bodies, command outputs, versions and strings",
 "test/tools only prints network information; semaphore, limiter and execute have no unit tests of their own",
 ["fairmq/tools/Semaphore.cxx", "fairmq/tools/Semaphore.h", "fairmq/tools/RateLimit.h", "fairmq/tools/InstanceLimit.h", "fairmq/tools/Process.cxx", "fairmq/tools/Unique.cxx", "fairmq/tools/Version.h", "fairmq/tools/Strings.h", "fairmq/tools/Network.cxx"],
 [("counter, mutex and condition variable", "fairmq/tools/Semaphore.cxx"), ("adaptive sleeping", "fairmq/tools/RateLimit.h"), ("asynchronous pipe reading", "fairmq/tools/Process.cxx")],
 ["API results"])

prop("C20", "The ready-made devices forward every message exactly once",
 "The stock devices do what they are named for with single- and multi-part messages: proxy and merger pass every input message once to their output, splitter passes each input message to exactly one output in round-robin order, multiplier passes each input message once to every output, sampler emits messages (or parts) of the configured size and number, optionally bounded by rate and count, and sink consumes until its configured count; content, part structure and per-input order are preserved. They stop cleanly on request with no message altered.",
 ["inputs", "configurations", "schedules"],
 "all message streams, sub-channel counts, single/multi-part mode and stop timings",
 "the stock devices have no unit tests, only example scripts that run them for a while",
 ["fairmq/devices/Proxy.h", "fairmq/devices/Merger.h", "fairmq/devices/Splitter.h", "fairmq/devices/Multiplier.h", "fairmq/devices/BenchmarkSampler.h", "fairmq/devices/Sink.h", "fairmq/Device.h"],
 [("device run loops", "fairmq/devices/*.h")],
 ["messages on the peer channels of the device"])

prop("C21", "Concurrent use of the library is free of data races and deadlocks",
 "Operations documented as usable from several threads - creating, copying and destroying messages, transferring on distinct channels, creating and destroying regions (also while another thread subscribes to or receives region events), configuration access and subscription, device state requests and queries, plugin control, event subscription - can be performed concurrently on one device, transport or store without data race, lock-order inversion, deadlock or memory error.",
 ["schedules"],
 "all thread interleavings of these operations",
 "the tests are (nearly) single-threaded and are not run under a race detector in the stable suite",
 ["fairmq/shmem/Manager.h", "fairmq/shmem/UnmanagedRegion.h", "fairmq/zeromq/Context.h", "fairmq/StateMachine.cxx", "fairmq/Device.cxx", "fairmq/ProgOptions.h", "fairmq/EventManager.h", "fairmq/PluginServices.cxx", "fairmq/StateQueue.h"],
 [("mutexes and atomics of each component", "see files")],
 ["race detector and lock-order reports", "progress of every thread"])

prop("C22", "The shared memory monitor cleans up dead sessions and only those",
 "A monitor watching a session leaves it untouched as long as any of its processes is alive, and removes all objects of it within bounded time, but not before the configured timeout, after its processes died; it never touches another session, ends by itself or cleans up on exit exactly when asked to, and a session has at most one full monitor, while viewers remove nothing. What monitor, queries and program report - presence, sizes, free memory, devices, regions, ids, debug information - agrees with what exists, and each option of the program (also daemon, interactive, and started automatically by a device) does what it says.",
 ["histories", "crash_points", "schedules", "configurations"],
 "all histories of processes of a session joining, leaving and crashing at any time relative to the monitor's polls and heartbeats",
 "the tests never run a monitor",
 ["fairmq/shmem/Monitor.cxx", "fairmq/shmem/Monitor.h", "fairmq/shmem/runMonitor.cxx", "fairmq/shmem/Manager.h", "fairmq/shmem/Common.cxx"],
 [("heartbeat and watch threads", "Monitor::CheckHeartbeats, Monitor::Watch in fairmq/shmem/Monitor.cxx"), ("heartbeats of the devices and automatic start", "fairmq/shmem/Manager.h"), ("reports", "Monitor::PrintShm, GetFreeMemory, GetDebugInfo"), ("command line", "fairmq/shmem/runMonitor.cxx")],
 ["names under /dev/shm", "output and exit code of fairmq-shmmonitor", "results of the Monitor queries"])

prop("C23", "Rate logs and rate limits of a running device agree with what it does",
 "While a device runs, each channel with a rate logging interval N > 0 is logged about every N seconds with message and data rates, in and out, that multiplied by the time since that channel's previous line (or the start of the run) give its actual traffic of that period, so that every transferred message and byte is accounted for in exactly one line; channels with interval 0 are not logged, traffic before the run does not count, and nothing is logged outside of RUNNING. With a rate limit set the conditional run loop is executed at most that often (and close to it when its body permits), without one as fast as it can, and neither delays stopping by more than its waiting time.",
 ["histories", "schedules", "configurations"],
 "all intervals of all channels, all traffic patterns over time, all moments of starting and stopping",
 "no test reads a rate log or measures a rate",
 ["fairmq/Device.cxx", "fairmq/Device.h", "fairmq/Channel.h", "fairmq/tools/RateLimit.h", "fairmq/zeromq/Socket.h", "fairmq/shmem/Socket.h"],
 [("rate logging", "Device::LogSocketRates in fairmq/Device.cxx"), ("conditional loop", "Device::RunWrapper in fairmq/Device.cxx, tools::RateLimiter"), ("counters", "Socket::GetBytesTx/GetMessagesTx/... of both transports")],
 ["logged rate lines and their times", "message and byte counts of the channels", "number of loop executions per time"])

prop("C24", "The modernizer reports every old-style FairMQ type use and nothing else",
 "Run over any correct source, fairmq-tidy warns at every place where a type alias is used whose name starts with FairMQ and which stands for a fair::mq:: type (in sources, headers and macro expansions, in every syntactic position of a type), naming the alias and the type it stands for, and offers a replacement of exactly the written type with that type's name. It reports nothing else (classes, typedefs, alias templates, variables, namespaces, comments and strings that look alike, aliases of other types, any other compiler warning), accepts the language standard given in the compile command or C++17 when there is none, and succeeds.",
 ["inputs", "configurations"],
 "all sources, all positions of a type in them, all compile commands",
 "the tool has no test; syntax positions and look-alike declarations combine without end",
 ["fairmq/tidy/ModernizeNonNamespacedTypes.h", "fairmq/tidy/Tool.h", "fairmq/tidy/runTool.cpp"],
 [("matcher and report", "ModernizeNonNamespacedTypes in fairmq/tidy/ModernizeNonNamespacedTypes.h"), ("tool", "Tool::run in fairmq/tidy/Tool.h")],
 ["warnings and fix-its printed by the tool, its return value"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
