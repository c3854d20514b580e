#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

UDP=["the datagrams the agent hands to the kernel, decoded by an independent implementation of the wire format"]
p("C01","Every ended service is reported exactly once",
 "Every service the application starts and ends (HTTP, plain, inheriting, or a traced child goroutine) gives rise to exactly one transaction record sent to the collector, even when it is ended twice or from several goroutines at once, and whether or not the application code panicked. A service that has not ended is never reported as ended, and no record is sent for a transaction the application never started. This holds while the send queue is overloaded or the network fails, which may cost nothing but the datagrams concerned.",
 ["schedules","inputs","histories","fault_sequences"],"every program using the tracing API from any number of goroutines, every interleaving, every datagram fate, any clock jump",
 "Tests end one service per goroutine in sequence and never look at what was sent; a lost or doubled record needs two enders between a check and a set, a full queue, or a particular mix of nesting.",
 ["scouterx/strace/tracemain.go","scouterx/strace/tctxmanager/tctxmanager.go","scouterx/netio/tracecontext.go","scouterx/netio/dataproxy.go","scouterx/netio/udpsender/udpsender.go"],
 [("end of service","scouterx/strace/tracemain.go endAnyService*"),("record delivery","scouterx/netio/dataproxy.go SendXlog")],UDP,
 [("closed flag","the transaction has ended","scouterx/netio/tracecontext.go")])
p("C02","Transaction records say what happened, and link to their callers",
 "A transaction record carries its own service's final name, kind, object, client address, user agent, referer, login, description and texts, HTTP status, first error (or the one marked forcibly), API call count and total, and an elapsed time consistent with the start and end of the service. A child goroutine or inheriting service points to its parent as caller and shares the root's global id; a service started inside a running one joins it instead of starting another; outgoing requests started with propagation carry exactly the ids of this transaction and of the call, also requests built without headers or sent before. Counts, the error and the name stay exact when several goroutines of a service record them at once. Nothing of one transaction ever shows up in another's record, however many run concurrently.",
 ["schedules","inputs","histories"],"every mix of concurrent, nested, child and inheriting services with any request contents",
 "Tests never decode a record, and run one service shape at a time; cross-talk needs concurrent services and linkage needs nesting.",
 ["scouterx/strace/tracemain.go","scouterx/netio/tracecontext.go","scouterx/strace/tctxmanager/tctxmanager.go","scouterx/common/netdata/xlogpack.go"],
 [("trace context","scouterx/netio/tracecontext.go ToXlog"),("request tracing","scouterx/strace/tracemain.go StartHttpService/EndHttpService")],UDP)
p("C03","Profiles are complete, ordered, correctly nested and correctly chunked",
 "Every profile step recorded before its service ends is sent exactly once, under its own transaction, with its recorded content and timing, numbered in start order and with the enclosing open step as parent; nothing that was not recorded is sent. Profile messages never carry more steps than configured nor arrive empty, and the step count and byte size announced in the transaction record equal what was sent. All this holds when several goroutines add steps to one transaction at the same time (order and nesting aside) and for every legal setting of the profile limits.",
 ["schedules","inputs","configurations"],"every sequence and nesting of profiling calls, every interleaving of goroutines sharing a transaction, every profile limit",
 "Tests record a handful of steps from one goroutine with the default limits (nothing is ever chunked) and never decode the profile.",
 ["scouterx/netio/profilecollector.go","scouterx/netio/dataproxy.go","scouterx/strace/tracemain.go","scouterx/common/netdata/step.go"],
 [("step buffer","scouterx/netio/profilecollector.go"),("chunking","scouterx/netio/dataproxy.go SendProfile")],UDP)
p("C04","Every text hash the collector sees is resolvable",
 "For every text the agent refers to by hash in records, profile steps and announcements (service and object names, errors, methods, API calls, messages, user agents, referers, logins, descriptions), the text itself is sent to the dictionary with the matching hash and type, and sent again when it is next used after the collector asked for a cache reset. A text dropped because the send queue was full is sent when it is used again after the queue has drained; it is never considered delivered. Texts are not sent over and over while the cache stands.",
 ["schedules","histories","fault_sequences","inputs"],"every order of use, overload, slow network and cache reset commands",
 "No test fills the queue, resets the cache, or resolves a hash.",
 ["scouterx/netio/dataproxy.go","scouterx/netio/udpsender/udpsender.go","scouterx/common/structure/cacheset/cacheset.go"],
 [("sent-text caches","scouterx/netio/dataproxy.go"),("bounded send queue","scouterx/netio/udpsender/udpsender.go AddPack")],UDP,
 [("text caches","hashes believed delivered","scouterx/netio/dataproxy.go")])
p("C05","UDP framing is lossless, bounded and in order",
 "Every packet the agent queues or sends directly reaches the kernel exactly once and unaltered, queued ones in the order they were queued, in datagrams the collector can decode: single, batched, or split into numbered fragments that reassemble to the original under any datagram reordering or duplication. No datagram payload exceeds the configured maximum by more than the fixed framing header, for any packet size and any legal maximum, including one changed while running. A failed or slow send costs only the packets in that datagram: nothing after it is lost, reordered or corrupted.",
 ["inputs","configurations","fault_sequences","schedules"],"every sequence of packet sizes, every legal maximum, every pattern of send errors and stalls",
 "Tests send two or three small packets to a closed port with the default limit and do not read them back; fragmentation is tried once.",
 ["scouterx/netio/udpclient/udpclient.go","scouterx/netio/udpsender/udpsender.go"],
 [("framing and fragmentation","scouterx/netio/udpclient/udpclient.go WriteBuffer/WriteBufferList"),("batching","scouterx/netio/udpsender/udpsender.go run")],UDP)
p("C06","The agent never harms its host application",
 "No configuration, environment, collector behaviour, disk or network failure makes the agent crash, exit or deadlock the host process, nor panic out of, return a nil context from, or block (beyond 100 ms of its own doing) any tracing call, including calls with a context that carries no transaction. Initialisation always completes, even with no host name, unreadable or unwritable directories, unresolvable or unreachable collector, and malformed configuration. Once the trouble is over the agent works again without help. The agent's goroutines and open sockets and files stay bounded over time whatever fails.",
 ["configurations","fault_sequences","inputs","schedules"],"every configuration value, environment, file-system, name-service, UDP and TCP fault at any moment, every call order of the API",
 "Tests run on a healthy machine with a valid configuration; none injects a fault.",
 ["scouterx/agent.go","scouterx/conf/configure.go","scouterx/strace/tracemain.go","scouterx/common/logger/logger.go","scouterx/netio/udpclient/udpclient.go","scouterx/netio/tcpclient/tcpclient.go","scouterx/common/panic.go"],
 [("panic isolation","scouterx/common/panic.go"),("non-blocking queue","scouterx/netio/udpsender/udpsender.go")],
 ["process exit, crashes and panics crossing the API","simulated time spent inside tracing calls","goroutine, socket and file counts"])
p("C07","Tracing is transparent to application code",
 "A function handed to the agent to run as a traced goroutine runs exactly once, in a goroutine of its own, whether or not a transaction is active, a context is given, or the agent is able to work; a panic in it, or in application code between start and end calls, propagates exactly as it would without the agent. Context values, deadlines and cancellation set by the application remain visible in every context the agent returns. Requests and responses passed to the agent are left as they were, save for the propagation headers it adds to outgoing calls.",
 ["inputs","schedules","fault_sequences","configurations"],"every application behaviour (normal, panicking, cancelled), nested and concurrent, with the agent healthy or not",
 "Tests use well-behaved functions and never check what the application sees.",
 ["scouterx/strace/tracemain.go","scouterx/strace/tctxmanager/tctxmanager.go","scouterx/common/panic.go"],
 [("GoWithTrace","scouterx/strace/tracemain.go"),("panic isolation","scouterx/common/panic.go")],
 ["what application functions and contexts observe"])
p("C08","Collector commands are answered one for one, in order, in frame",
 "On every TCP connection the agent first sends its hello and object id, and then answers each command the collector sends with exactly one complete, well-formed response, in order, whatever the segmentation, size or content of the command frames (several in one segment, one byte at a time, unknown commands, missing parameters). Bytes that are not a well-formed command never crash the agent, never make it answer a different command, and at worst cost the connection, which is re-established. The response of a known command reflects the agent's actual state: configuration, caches, active services, dumps and profiles.",
 ["inputs","schedules","fault_sequences"],"every command sequence, frame segmentation, malformed frame, slow or stalled reader and connection loss",
 "There is no test of the TCP client at all.",
 ["scouterx/netio/tcpclient/tcpclient.go","scouterx/netio/tcpclient/handlers.go","scouterx/common/netdata/datainputx.go","scouterx/conf/exthandler.go"],
 [("command loop","scouterx/netio/tcpclient/tcpclient.go"),("handlers","scouterx/netio/tcpclient/handlers.go")],["bytes on simulated TCP connections"])
p("C09","The agent reconnects and follows the configured collector",
 "Once a reachable collector exists at the configured address (an IPv4 or IPv6 address, or wherever its host name then resolves to), the agent delivers UDP data to it within 30 s and holds a TCP connection that answers commands within 30 s plus the TCP read timeout in force (which ends connections gone silent), however long and in whatever way collector, network or name resolution failed before (refused, silently dropped, half-open, reset, closed, unresolvable, even from process start). When the configured address or ports or the object name change, both channels move to the new value within the same times and stop using the old one. It never holds more than one TCP connection, nor busy-loops reconnecting while the collector is away.",
 ["fault_sequences","histories","schedules"],"every sequence of outages, address changes and recoveries, at any moment including before start",
 "Tests have no collector; liveness after faults cannot be sampled with unit tests.",
 ["scouterx/netio/tcpclient/tcpclient.go","scouterx/strace/tracemain.go","scouterx/netio/udpclient/udpclient.go","scouterx/netio/udpsender/udpsender.go"],
 [("reconnect loop","scouterx/strace/tracemain.go"),("address following","scouterx/netio/udpsender/udpsender.go reloadUdpSender, tcpclient.go")],["connections and datagrams at the simulated collector"])
p("C10","Configuration converges to file, then environment, then defaults",
 "Within 15 s of the configuration file being created, edited, replaced, truncated or removed, every setting the agent uses equals the file's value if set and valid there, else the environment's, else the documented default, and the collector's configuration query shows the same; before that it is the old or the new value, never a mixture from a half-parsed file or a third value. Transient read errors, clock jumps and coarse or backward modification times delay this but never lose an edit for good. An entry whose value is no number, or a size or timeout of zero or less, means the default; empty, unknown and malformed entries affect only themselves; environment entries can contain anything; a file that is not in properties syntax (or cannot be read) leaves what was in force, environment and defaults at start.",
 ["histories","configurations","fault_sequences","schedules"],"every history of edits, with any content, at any moment relative to the reload, with read faults, clock jumps and coarse timestamps",
 "The one test loads a fixed file once; reload, precedence and failure are never exercised.",
 ["scouterx/conf/configure.go","scouterx/conf/exthandler.go"],
 [("reload loop","scouterx/conf/configure.go Refresh/load"),("observers","scouterx/conf/configure.go")],["settings visible through behaviour and through the configuration commands"])
p("C11","A saved configuration is atomic and durable",
 "When the collector saves a configuration text, the file afterwards holds exactly that text and the agent uses it. If the process or machine dies at any point during the save, or the disk fails or is full, the file afterwards is either the complete old or the complete new text, and a save reported as successful survives a crash of the machine. A save that could not be completed is reported as failed (and still leaves one of the two texts, whole), one that met no fault is not.",
 ["crash_points","fault_sequences","inputs"],"every crash point and disk fault during a save, every text",
 "No test saves a configuration, let alone crashes during one.",
 ["scouterx/conf/opserver.go","scouterx/conf/exthandler.go","scouterx/conf/configure.go"],
 [("save","scouterx/conf/exthandler.go SaveConfigText")],["the simulated disk after a crash, the command's answer"])
p("C12","Stuck services are force-finished and alerted once; others never",
 "A service still running well after the configured stuck limit is, within the next few seconds, announced by a readable alert naming it, its goroutine, the time it has taken and this object (of level error, or lower where stuck-service alerts are switched off). With removal of stuck services enabled it is alerted only once, reported once with a record marked as an error (the error it had recorded itself where it had one, as stuck otherwise) and the time it took so far, and taken off the active list; its eventual real end adds no second record and disturbs nothing. With removal disabled it stays active and its record comes when it really ends. A service that ends before the limit is never treated as stuck. This holds for up to 2,000 concurrent services and for limits changed while running.",
 ["schedules","histories","configurations"],"every mix of service durations around the limit, late ends racing the detection, limit changes and clock jumps",
 "Waiting five minutes for the default limit is out of reach of a unit test, and so is the race between a late end and the detection.",
 ["scouterx/strace/tctxmanager/tctxmanager.go","scouterx/task/countertask/countertask.go","scouterx/strace/tracemain.go"],
 [("stuck detection","scouterx/strace/tctxmanager/tctxmanager.go"),("forced end","scouterx/strace/tracemain.go")],UDP)
p("C13","The active-service view is exact",
 "At any moment the services the agent reports as active, their count by elapsed band, and the detail of each one are those the application has started and not ended (at least while there are no more than 2000), each with its own id, goroutine, name, elapsed time and present step. A query concurrent with starts and ends shows each service either before or after its own start or end, never a torn, foreign or repeated entry, and never misses one that is active throughout. A service leaves the view when it ends, however it ends, so the view never leaks.",
 ["schedules","histories"],"every interleaving of queries and counter snapshots with starts, ends, panics, double ends and forced ends",
 "No test queries the active services.",
 ["scouterx/strace/tctxmanager/tctxmanager.go","scouterx/netio/tcpclient/handlers.go","scouterx/task/countertask/countertask.go"],
 [("transaction registry","scouterx/strace/tctxmanager/tctxmanager.go")],["answers to active-service and thread-detail commands","performance counter packets"])
p("C14","Service counters equal what happened in their window",
 "The service counters sent to the collector (services per second, mean elapsed time and error rate over the last 30 s, and over the last 300 s in the five-minute counters, and the average number of active services) equal those computed from the services that ended (for the average: the samples taken) in the stated window, within the resolution of the one-second buckets: each ended service is counted exactly once, discarded or not, in the window of its own end, and nothing remains counted after it has left the window. Concurrent ends lose no count, and no report shows half of an update. Idle periods, long pauses and clock jumps never resurrect old counts or corrupt later ones.",
 ["schedules","histories"],"every history of service ends, idle gaps longer and shorter than the windows, concurrent recording, process pauses",
 "No test records a service and reads a counter back; windows of 30 s to 5 min and concurrent recorders are out of reach.",
 ["scouterx/counter/metering.go","scouterx/counter/serviceMetering.go","scouterx/counter/valueMetering.go","scouterx/task/countertask/countertask.go"],
 [("sliding window","scouterx/counter/metering.go")],["performance counter packets"])
p("C15","Sampling and discarding follow the configuration",
 "Whether an ended service's record and profile are sent, profile-less, or discarded is exactly what the configured sampling ranges and rates, discard patterns, patterned sampling groups and exclusions prescribe for its name, elapsed time and error state at that moment: errors are never sampled away unless their pattern is discarded with errors included, and rates of 0 and 100 percent mean never and always; rates between are met within statistical bounds. A service that is part of another's distributed transaction keeps its record, without profile, when sampled away. Patterns (exact, prefix, suffix, contained and multi-part, in comma-separated lists; a * stands for any text) match exactly the names they denote. Changed settings take effect for services ended after the reload; profile parts flushed because the in-memory limit was reached before the end are exempt.",
 ["configurations","inputs","histories","schedules"],"every combination of sampling and discard settings and service shapes, settings changed while services run",
 "Tests try a few patterns one at a time and never combine settings with services and look at the decision.",
 ["scouterx/strace/xlogsampler.go","scouterx/common/util/strmatch.go","scouterx/strace/tracemain.go","scouterx/netio/profilecollector.go"],
 [("sampler","scouterx/strace/xlogsampler.go"),("patterns","scouterx/common/util/strmatch.go")],UDP)
p("C16","Transaction and call ids are unique",
 "No two transactions or outgoing calls are ever given the same id, within one process at any concurrency, across processes started at the same or nearly the same time on one or several hosts, and across restarts, even when the clock is stepped back. Ids are never zero. The textual form used to propagate an id denotes it exactly.",
 ["schedules","crash_points","histories"],"every interleaving of id requests, every start time of several agents, restarts and clock steps",
 "The test draws ids from one goroutine in one process.",
 ["scouterx/common/util/keygen/keygen.go","scouterx/common/util/hexautil.go"],
 [("id generator","scouterx/common/util/keygen/keygen.go")],["ids in trace contexts, records, profile steps and propagation headers"])
p("C17","Bounded caches are linearizable",
 "Every concurrent history of operations on the agent's bounded maps, sets and recency cache is linearizable with respect to a sequential map of the same capacity that evicts the oldest insertion when full, and tells the eviction callback exactly the evicted entries. Sizes never exceed the capacity, removed or cleared keys stay gone until put again, and evicted or removed keys leave no trace that later evicts a live one. No operation blocks forever or panics.",
 ["schedules","histories"],"every interleaving of a few clients performing any operations, at small capacities",
 "Tests call each operation once from one goroutine.",
 ["scouterx/common/structure/lra/lra.go","scouterx/common/structure/cachemap/cachemap.go","scouterx/common/structure/cachemap2/cachemap2.go","scouterx/common/structure/cacheset/cacheset.go"],
 [("caches","scouterx/common/structure")],["results of cache operations"])
p("C18","Dump files are complete, listed, contained and removable",
 "Every stack, block, mutex or CPU dump the collector triggers ends up as a file of its own holding the complete content the runtime produced (also when several are taken in the same second or overlap), listed with its exact name and size, and returned byte for byte by the download command; deleting removes exactly the named file. A profile covers the half minute its command announced; the runtime records for as long as one is being taken, and its profiling settings are as before once none is. List, download and delete never reach a file outside the agent's dump directories, whatever name they are given. Disk faults and crashes during a dump cost at most that dump: they are reported or leave a partial file, never harm other files, later dumps or the agent.",
 ["fault_sequences","crash_points","inputs","schedules"],"every dump command sequence and name, with disk faults, crashes and concurrent commands",
 "No test creates or reads back a dump.",
 ["scouterx/dump/dump.go","scouterx/netio/tcpclient/handlers.go"],
 [("dump writers and readers","scouterx/dump/dump.go")],["the simulated disk, command answers"])
p("C19","The wire codec round-trips over any stream and fails cleanly",
 "Every value and pack the agent both writes and reads (numbers, decimals, strings, blobs, every value kind, nested lists and maps, and the map, text, alert, performance counter and object packs), given and read through whichever of their constructors and typed accessors, is read back equal, consuming exactly the bytes written, however the underlying stream fragments its reads; and every pack and step it sends is decoded equal by an independent decoder of the wire format, as is everything the collector's encoder writes (three- and five-byte decimals included) by the agent. A stream that ends or fails anywhere before the end yields an error to the caller: never a partial or default value reported as good, a panic, an endless loop or memory out of proportion to the input. Corrupted bytes yield an error or some value, never harm.",
 ["inputs","fault_sequences"],"every value of every type, every fragmentation, every truncation and error point, corrupted bytes",
 "Tests round-trip one value of a few types over an in-memory buffer that never fragments or fails.",
 ["scouterx/common/netdata/datainputx.go","scouterx/common/netdata/dataoutputx.go","scouterx/common/netdata"],
 [("codec","scouterx/common/netdata")],["values read through fragmenting and failing readers"])
p("C20","Heartbeats and performance counters are sent on time and are current",
 "While the process runs, the agent announces itself with its current object name, type and version at start and then at least every few seconds, and sends the performance counters of each period (real-time and five-minute) every period, with current values of heap, goroutines, cgo calls and collection statistics (also across wall clock changes). No failure of the disk, name service, collector, network, application or of one counter stops this for good or harms the host, a panic inside the counter task is reported once to the collector as a fatal alert, and a renamed object is announced and used in all later data within 15 s. Periods are neither skipped nor doubled beyond scheduling delay.",
 ["fault_sequences","schedules","configurations","histories"],"every fault pattern, pause, clock jump and configuration change over minutes of simulated time",
 "A unit test cannot observe minutes of periodic traffic, nor its survival of faults.",
 ["scouterx/task/agenttask/agenttask.go","scouterx/task/countertask/countertask.go","scouterx/counter/gocounter"],
 [("heartbeat","scouterx/task/agenttask"),("counter task","scouterx/task/countertask")],UDP)
for x in P:
    assert len(x["title"])<=80,x["title"]
    print(json.dumps(x,ensure_ascii=False))
