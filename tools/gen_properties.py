import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=hook
    P.append(d)
SR="src/recorder/stream_recorder/"
p("C01","A finished span reaches the satellites at most once, and intact",
 "Over the whole life of a tracer, each finished span is delivered to at most one satellite and at most once, with exactly the name, identifiers, tags and logs it was finished with. A span that was cut off when its connection broke is never completed, repeated or continued on another connection, and no bytes of one span ever appear inside another. Without faults and with room in the buffer, every finished span is delivered.",
 ["schedules","fault_sequences","histories"],"every interleaving of finishing threads with the sending thread, every sequence of short writes, stalls, resets and reconnects, every span size",
 "The streaming tests use one healthy or one failing satellite and a handful of spans; whether a span survives depends on where in it a short write or reset lands and on what the other connections do at that moment.",
 [SR+"stream_recorder_impl.cpp",SR+"satellite_connection.cpp",SR+"connection_stream.cpp",SR+"span_stream.cpp","src/common/circular_buffer.h","src/network/vector_write.cpp"],
 [("one consumer of the span queue, partially written span moved to its connection","src/recorder/stream_recorder/span_stream.cpp"),("unfinished span dropped when its connection is reset",SR+"connection_stream.cpp")],
 [("span_remnant_","the span a connection has written only partly",SR+"connection_stream.h")],["bytes received by simulated satellites","metrics observer callbacks"])
p("C02","Each satellite connection carries one well-formed chunked report",
 "On every connection the bytes a satellite receives are a prefix of one well-formed HTTP/1.1 chunked POST of a report: request line and headers with the right host, reporter header and metrics, then whole spans, then the terminal chunk. A connection that the client shuts down in an orderly way ends with the terminal chunk and nothing follows it. A request is never mixed with bytes meant for another connection.",
 ["schedules","fault_sequences"],"every division of the stream into writes the kernel accepts, every order of readiness events over all connections, reset and reconnection points",
 "Unit tests write to a socket that always accepts everything or to an in-memory stream cut at a few fixed points.",
 [SR+"connection_stream.cpp",SR+"satellite_connection.cpp",SR+"host_header.cpp",SR+"span_stream.cpp","src/common/report_request_framing.cpp","src/common/chunked_http_framing.cpp","src/recorder/serialization/report_request_header.cpp"],
 [("header, remnant, spans and terminal chunk written in order through one resumable fragment list",SR+"connection_stream.cpp")],obs=["bytes received per simulated connection"])
p("C03","Every finished span is accounted for as sent, dropped or still pending",
 "At any quiet moment the number of finished spans equals the spans reported as sent plus the spans reported as dropped plus the spans still buffered or partly written; the metrics observer is told of each span once, as sent or as dropped. Every span whose bytes were completely handed to the network counts as sent. The dropped-span counts in reports whose header was handed to the network, added up, plus the count still pending equal the spans dropped so far.",
 ["schedules","fault_sequences","histories"],"every interleaving, buffer overflow and connection failure, including failures between the header and the spans and in the middle of a span",
 "Counting errors only show when a connection dies at a particular byte or a drop happens between reading and resetting a counter; tests check single drops on healthy connections.",
 [SR+"stream_recorder.cpp",SR+"span_stream.cpp",SR+"connection_stream.cpp","src/recorder/metrics_tracker.h","src/recorder/metrics_tracker.cpp"],
 [("spans counted where they leave the queue, drop counter exchanged into the header and added back when it wasn't sent",SR+"connection_stream.cpp")],
 [("num_dropped_spans_","drops not yet reported","src/recorder/metrics_tracker.h")],["metrics observer","reports received by satellites"])
p("C04","Streaming recovers and drains within bounded time once faults stop",
 "After any sequence of connection refusals, resets, stalls, bad responses, name resolution failures and resource exhaustion, once the satellites and name servers behave again every span still buffered, and every span finished from then on that fits the buffer, is delivered within a bounded time. A connection on which nothing could be written for the configured write timeout is replaced, and no connection outlives its reconnect period and the grace that follows, so none stays stuck on a peer that stopped reading or answering. While faults last, finishing a span never blocks.",
 ["fault_sequences","schedules"],"every sequence and timing of faults followed by a healthy period",
 "Recovery depends on timers of seconds to minutes and on combinations of failures; tests wait for at most one failure and one retry.",
 [SR+"satellite_connection.cpp",SR+"satellite_streamer.cpp",SR+"satellite_endpoint_manager.cpp",SR+"satellite_dns_resolution_manager.cpp",SR+"stream_recorder_impl.cpp"],
 [("write, reconnect, graceful shutdown and retry timers",SR+"satellite_connection.cpp"),("DNS retry and refresh timers",SR+"satellite_dns_resolution_manager.cpp")],obs=["delivery times at simulated satellites"])
p("C05","The span queue is a linearizable bounded FIFO",
 "With any number of threads adding and one thread consuming, every accepted element comes out exactly once, unchanged and in the order of additions that don't overlap, and a refused element stays with its caller. An addition is refused only if the queue was full at some moment during the call, and the queue never holds more than its capacity. Consumption, clearing and wrap-around never lose capacity, and no element is leaked or freed twice.",
 ["schedules","histories"],"every interleaving of producers with the consumer, including threads suspended at any point and memory reused at once",
 "The existing simulation test runs a few threads on the real scheduler and checks sums; it cannot steer a producer to stop between two instructions, and never checks why an addition was refused.",
 ["src/common/circular_buffer.h","src/common/circular_buffer_range.h","src/common/atomic_unique_ptr.h"],
 [("slot claimed by swapping into a null pointer, then published by compare-and-swap on the head","src/common/circular_buffer.h")],
 [("head_, tail_","positions of producers and consumer","src/common/circular_buffer.h")],["return values of additions, consumed elements"])
p("C06","Flushing is truthful, on time and never lost",
 "A flush reports success only if no span finished before the call began is still waiting in the buffer: each was handed over, begun on a connection, or dropped and counted; a flush that cannot complete reports failure no earlier and not much later than its timeout. A waiting flush returns promptly once its spans are gone, whatever the order of wake-ups, spurious wake-ups and concurrent flushes; while a connection stands ready a flush doesn't wait for more than the polling that its flush period sets. Flushing never deadlocks with finishing spans, with shutdown or with another flush.",
 ["schedules","fault_sequences"],"every interleaving of flushing, finishing, sending and shutting down, spurious wake-ups and slow peers",
 "A lost wake-up needs the notification to fall between the check and the wait; tests flush from one thread with generous real timeouts.",
 [SR+"stream_recorder.cpp","src/recorder/auto_recorder.cpp","src/recorder/manual_recorder.cpp","src/recorder/fork_aware_recorder.cpp"],
 [("flush condition variable and consumed-span counter",SR+"stream_recorder.cpp"),("write condition and flush markers","src/recorder/auto_recorder.cpp")],obs=["result and duration of flush calls against the history of deliveries"])
p("C07","Shutdown and destruction are bounded and leave nothing behind",
 "Shutting down returns within its timeout, and so does closing the tracer, which flushes and then shuts down; either ends every connection in an orderly way if the peers cooperate, and afterwards no new connection is opened. Destroying a streaming tracer hands what its buffer holds to a connection that stands ready, and ends the reports on those that can be written. Destroying a tracer at any moment, whatever the peers do and whatever is in flight, ends in bounded time, stops its threads, closes its descriptors, releases its memory and touches no freed memory, however shutdown, flush and destruction are combined.",
 ["schedules","fault_sequences","crash_points"],"shutdown or destruction at any point of any history, with connections in any state",
 "Tests shut down an idle or freshly connected recorder; timers and callbacks still pending at other moments are not exercised, and leaks of connections after shutdown are invisible to them.",
 [SR+"stream_recorder.cpp",SR+"stream_recorder_impl.cpp",SR+"satellite_streamer.cpp",SR+"satellite_connection.cpp","src/network/event_base.cpp","src/recorder/auto_recorder.cpp"],
 [("per-connection shutdown state and counter, exit by breaking the event loop",SR+"satellite_streamer.cpp")],obs=["connections opened after shutdown, open descriptors and live threads after destruction"])
p("C08","Partial writes consume exactly the bytes the network accepted",
 "However a gathered write is cut short by the network (short counts, would-block, errors between batches, more pieces than one system call takes), exactly the accepted bytes are removed from the sources and the next write continues with the next byte. The result tells truthfully whether everything was written, and an error is reported whenever the connection failed. The receiver therefore sees the bytes of all sources once, in order, whatever their kinds, lengths (including empty ones) and nesting.",
 ["fault_sequences","inputs"],"every sequence of short counts and failures over every composition of sources",
 "Tests cut a stream at a few chosen positions and only ever see complete writes on a socket.",
 ["src/network/vector_write.cpp","src/common/fragment_input_stream.cpp","src/common/fragment_array_input_stream.cpp","src/common/chained_stream.cpp","src/common/composable_fragment_input_stream.cpp",SR+"span_stream.cpp"],
 [("consumption of the written byte count across the sources","src/common/fragment_input_stream.cpp"),("seek and clear of each kind of source","src/common/chained_stream.cpp")],obs=["bytes received by the peer and bytes left in the sources after every call"])
p("C09","Forking the host process is safe at any moment",
 "When the host forks at any moment, in any state of the tracer's own threads and connections (no other thread of the host being inside a tracer call, as the code documents), the parent continues exactly as if it had not forked, and the child can create, finish and flush spans without deadlock or crash. The child neither sends spans that were finished before the fork nor writes on or closes down the parent's connections, and it delivers the spans it finishes itself. After the child exits or continues, spans still obey at-most-once delivery across both processes.",
 ["schedules","crash_points","histories"],"a fork at every point of the sending thread's and connections' life, continued as parent and as child, repeatedly",
 "The fork test forks an idle recorder once; a fork in the middle of another thread's operation cannot be placed by a test.",
 ["src/recorder/fork_aware_recorder.cpp","src/recorder/fork_aware_recorder.h",SR+"stream_recorder.cpp","src/recorder/manual_recorder.cpp","src/common/platform/fork_unix.cpp"],
 [("fork handlers that stop the sending thread before and restart it after the fork","src/recorder/fork_aware_recorder.cpp")],obs=["bytes on the connections of both processes"])
p("C10","Generated identifiers never repeat across threads and forked processes",
 "Identifiers of spans and traces, and all others, generated by any set of threads and forked processes of one program run are distinct (up to the probability of truly random 64-bit numbers), whichever thread forks, however often and however deep, and whether or not identifiers had been generated before the fork. Each thread's sequence is independent of every other thread's.",
 ["schedules","histories"],"every tree of threads and forks",
 "The existing test forks once from one thread and compares a single identifier.",
 ["src/common/random.cpp","src/common/random.h","src/common/fast_random_number_generator.h","src/common/platform/fork_unix.cpp","src/tracer/span.cpp","src/tracer/legacy/legacy_span.cpp"],
 [("per-thread generator seeded from the system's entropy and reseeded in a forked child","src/common/random.cpp")],obs=["identifiers drawn in all threads and processes"])
p("C11","Concurrent use of a span records each effect once and it finishes once",
 "Any number of threads may set tags, log, set baggage and finish the same span, or use its context, at the same time: operations that complete before the first finish starts are all recorded, each intact, those that start after it is recorded are ignored, the latest name and baggage win, and the span is recorded exactly once and not changed afterwards. Locks used for this exclude each other under every interleaving. No access to a span's data races with another.",
 ["schedules"],"every interleaving of operations on one span and its context",
 "The tests use a span from a single thread.",
 ["src/tracer/span.cpp","src/tracer/legacy/legacy_span.cpp","src/common/spin_lock_mutex.h"],
 [("spin lock around the span's state and an is-finished flag","src/tracer/span.cpp")],obs=["spans handed to the recorder"])
p("C12","The background recorder delivers reports in order and loses none silently",
 "With a synchronous transport on a background thread, every span recorded is in exactly one report handed to the transport, whole and in order, or dropped because the buffer was full, and the spans of failed reports and the dropped ones are counted in a later report, each once. A report is sent when the buffer fills or, at the latest, a reporting period after the previous one; a failing transport never stops later reports; a flush succeeds only when every earlier span has been handed over, and ends within its timeout; a transport that throws, or a collector that disables the tracer, ends reporting, and from then on nothing is sent and spans are dropped. Recording never waits for the transport, and destroying the recorder ends its thread and transport and releases its memory.",
 ["schedules","fault_sequences"],"every interleaving of recording threads, the writer and flushes; every pattern of slow, failing and throwing sends",
 "The tests drive a fake condition variable through a few fixed steps.",
 ["src/recorder/auto_recorder.cpp","src/recorder/report_builder.cpp"],
 [("writer thread with timed waits and a flush marker","src/recorder/auto_recorder.cpp")],obs=["reports handed to the transport, dropped-span counts inside them"])
p("C13","Asynchronous reports conserve spans and drop counts across failures",
 "With a caller-provided asynchronous transport, each span is in exactly one report or counted as dropped; the spans and the drop count of a report that fails are reported as dropped in a later report; and a report's announced sizes and number of fragments equal what iterating over it or copying it out yields, whether success and failure callbacks come at once, late, from any thread or after any number of further flushes. The transport is told when the buffer is full and a span is dropped only if it still is. A forked child reports none of its parent's spans, and once reports and recorder are gone no span or report is left in memory.",
 ["schedules","fault_sequences"],"every order and thread of completion callbacks, failures, throwing sends and buffer overflow",
 "Tests use a transport that completes one report at a time from the test's own thread.",
 ["src/recorder/manual_recorder.cpp","src/recorder/serialization/report_request.cpp","src/recorder/serialization/embedded_metrics_message.cpp","src/common/buffer_chain.cpp"],
 [("report owned by the transport until its callback; drop counts consumed and given back","src/recorder/manual_recorder.cpp")],obs=["reports given to the transport and metrics observer callbacks"])
p("C14","The older asynchronous recorder keeps one report in flight and loses none",
 "With the older asynchronous transport, at most one report is in flight; every span is in exactly one report or, if the buffer is full, dropped, and no more spans wait than the buffer has room for; spans of a report that fails, or whose send throws, are counted as dropped exactly once, and the next report carries the exact count. Completion may come synchronously, late or with an error; spans recorded and flushes started meanwhile are neither lost nor mixed between reports, a failed or throwing send never blocks later ones, and nothing is sent once the collector disabled the tracer.",
 ["schedules","fault_sequences"],"every order of recording, flushing and completion, including completion inside the send call and failing sends",
 "Tests complete each report before the next step.",
 ["src/recorder/legacy_manual_recorder.cpp","src/recorder/report_builder.cpp"],
 [("encoding and flushed sequence numbers with a saved report","src/recorder/legacy_manual_recorder.cpp")],obs=["reports given to the transport"])
p("C15","Drop counters are exact under concurrency and survive failed reports",
 "However threads dropping spans interleave with reports that take the pending count, succeed, or fail and give it back, the counts in successful reports plus the pending count always add up to the spans dropped. The count written into a report is the one taken for it. The metrics observer hears every sent, dropped and flush event exactly once, with its amount.",
 ["schedules","fault_sequences"],"every interleaving of droppers and reporters with any pattern of failed reports",
 "Tests change the counter from one thread.",
 ["src/recorder/metrics_tracker.h","src/recorder/metrics_tracker.cpp","src/recorder/serialization/embedded_metrics_message.cpp"],
 [("atomic exchange and add-back","src/recorder/metrics_tracker.cpp")],[("num_dropped_spans_","pending drops","src/recorder/metrics_tracker.h")],["metrics observer, report contents"])
p("C16","Timestamps stay right when the system clock jumps",
 "Whatever jumps the system clock makes, a span's duration equals the elapsed steady time between start and finish, never negative, and a start time taken from the clock lies within a bounded refresh delay of the system clock at some moment around it. Explicitly given start, finish and log times are kept, and a start given on one clock only is converted to the other with a difference that held at some moment within the refresh delay. Converting between the clocks and back is exact and preserves intervals.",
 ["fault_sequences","schedules"],"every sequence of clock jumps relative to starting, finishing and refreshing",
 "Tests cannot move the system clock.",
 ["src/common/timestamp.cpp","src/tracer/span.cpp","src/tracer/legacy/legacy_span.cpp","src/tracer/utility.h",SR+"stream_recorder.cpp",SR+"stream_recorder_impl.cpp"],
 [("cached difference between the clocks, refreshed periodically",SR+"stream_recorder_impl.cpp")],obs=["start time and duration of delivered spans"])
p("C17","Satellite responses are understood however they arrive",
 "A response split into any pieces, delayed, followed by more data, with an error status, malformed, oversized or missing never makes the client crash, hang, resend a report or lose a span that was not in flight. A well-formed status line is parsed to the same code and reason under any split; malformed ones are rejected, and a response that reports an error is named with its code in an error log message. After the response or its absence the connection is replaced within bounded time, at once if the satellite ended it.",
 ["fault_sequences","inputs"],"every division and timing of response bytes, including close and reset in the middle",
 "The parser test feeds a few fixed strings and the connection tests one healthy response.",
 [SR+"status_line_parser.cpp",SR+"satellite_connection.cpp"],
 [("incremental parser; read loop until end of stream",SR+"satellite_connection.cpp")],obs=["connections and reports seen by satellites"])
p("C18","Nothing peers or the kernel do can bring down the host process",
 "No behaviour of a satellite or name server and no failing system call (connection reset or closed at any time, broken pipe, exhausted descriptors, refused or failing writes, interrupted waits) terminates the host, throws into its calls, raises a signal in it, or makes the tracer hold ever more memory. After the failure passes the tracer works again.",
 ["fault_sequences","crash_points"],"every placement of failing system calls and peer closes",
 "Tests run with a cooperative kernel and peer, and ignore signals by accident of timing.",
 ["src/network/vector_write.cpp","src/common/platform/network_unix.cpp","src/network/socket.cpp",SR+"satellite_connection.cpp","src/network/event_base.cpp"],
 [("errors turned into exceptions that are caught in event callbacks",SR+"satellite_connection.cpp")],obs=["process survival; signals"])
p("C19","Name resolution answers once, retries losses and refreshes addresses",
 "Every name lookup ends with exactly one answer or failure within its configured timeouts, whatever replies are lost, late, duplicated, forged or erroneous, and destroying the resolver or the tracer with lookups in flight is safe and leaves nothing behind. Every name is looked up as soon as the tracer starts, failed lookups are retried, addresses are refreshed periodically, and new connections use addresses from the latest successful lookup. A failed refresh keeps the previous addresses in use, and an answer that arrives in time is used whatever was ignored before it.",
 ["fault_sequences","schedules"],"every pattern of lost, delayed and failing replies and of address changes",
 "Tests query a healthy local server.",
 ["src/network/ares_dns_resolver/ares_dns_resolver.cpp","src/network/ares_dns_resolver/ares_library_handle.cpp",SR+"satellite_dns_resolution_manager.cpp",SR+"satellite_endpoint_manager.cpp"],
 [("resolver timers driven by the event loop; retry and refresh timers",SR+"satellite_dns_resolution_manager.cpp")],obs=["queries and connections seen by simulated servers"])
p("C20","Endpoints are chosen fairly and each request names its own host",
 "Connections are spread over all configured endpoints and addresses, and each request names the host of the endpoint it was sent to. A random traversal visits every index exactly once per round, whatever happened in earlier rounds, and stops when told to. Randomised periods always lie within their configured range.",
 ["schedules","histories","configurations"],"every endpoint configuration and history of reconnections, any number of threads",
 "Tests use one or two endpoints and a single traversal.",
 ["src/common/random_traverser.cpp","src/common/random.cpp",SR+"satellite_endpoint_manager.cpp",SR+"host_header.cpp",SR+"utility.cpp"],
 [("round robin over hosts and addresses",SR+"satellite_endpoint_manager.cpp"),("partial Fisher-Yates shuffle per round","src/common/random_traverser.cpp")],obs=["connect calls and host headers at simulated satellites"])
p("C21","Timers never fire early, late by a missed wake-up, or after cancellation",
 "A timer fires no earlier than its period after it was armed and promptly once due, periodic ones keep firing, and one that was cancelled, re-armed or destroyed never fires for its old deadline; descriptor events are delivered while registered and never afterwards. Stopping the loop from any callback ends it promptly. Events, timers and loops can be moved, assigned over and destroyed in any order and leave no memory behind.",
 ["schedules","fault_sequences"],"every order of arming, cancelling, re-arming and firing, interrupted and reordered waits",
 "Tests arm one or two timers with real delays.",
 ["src/network/event_base.cpp","src/network/event.cpp","src/network/timer_event.cpp"],
 [("wrapped event loop library","src/network/event_base.cpp")],obs=["simulated time of callbacks"])
p("C22","Every descriptor has one owner and is closed exactly once",
 "Each socket descriptor is closed exactly once, by its last owner, in every history of creating, moving, assigning, failing to configure or connect, and destroying sockets. Nothing is ever written to, or closed on, a descriptor number that has since been reused by the host. A connection that cannot be established leaves no descriptor open.",
 ["histories","fault_sequences"],"every history of socket operations and every placement of failing system calls",
 "Tests never count descriptors or make system calls fail.",
 ["src/network/socket.cpp","src/network/socket.h",SR+"satellite_connection.cpp","src/network/event.cpp"],
 [("move-only socket wrapper","src/network/socket.cpp")],obs=["open simulated descriptors; closes of descriptors that are not open"])
p("C26","What a tracer holds does not grow with its life",
 "However many spans, flushes, reports, connections, lookups, failures, host threads, forks and tracers come and go, the memory, descriptors, threads and fork handlers that the library holds stay within a bound that its configuration sets. A tracer that is destroyed leaves nothing that adds up with what the next one leaves. This holds while reports fail and nobody answers as well as when everything succeeds.",
 ["histories","fault_sequences","schedules"],"every long history of threads, reports, connections and forks, with any mixture of failures",
 "Tests live for seconds, use a few threads and never measure what is held; growth of some bytes per event shows only after hundreds of events.",
 ["src/common/random.cpp","src/recorder/fork_aware_recorder.cpp","src/recorder/manual_recorder.cpp","src/recorder/auto_recorder.cpp","src/recorder/report_builder.cpp",SR+"satellite_connection.cpp",SR+"connection_stream.cpp",SR+"status_line_parser.cpp","src/network/ares_dns_resolver/ares_dns_resolver.cpp","src/common/circular_buffer.h"],
 [("one fork handler for all threads","src/common/random.cpp"),("bounded span queue and report builder","src/common/circular_buffer.h"),("bounded status line","src/recorder/stream_recorder/status_line_parser.cpp")],obs=["bytes, descriptors, threads and fork handlers held early and late in a life"])
def na(id,title,st,files):
    p(id,title,st,["inputs"],"every input","Sampled by a few fixed inputs.",files,[("pure conversion",files[0])])
na("C23","Trace context survives injection and extraction in every format",
 "A span context injected into a carrier in any configured combination of formats is extracted as the same trace and span identifiers, sampling flag and baggage; corrupted carriers are rejected without a crash.",
 ["src/tracer/propagation/propagation.cpp","src/tracer/propagation/lightstep_propagator.cpp"])
na("C24","A JSON configuration produces exactly the tracer options it states",
 "Parsing a configuration yields options with every stated value and defaults elsewhere, and a malformed configuration is rejected with an error.",
 ["src/tracer/lightstep_tracer_factory.cpp","src/tracer/json_options.cpp"])
na("C25","The hand-written serialisation equals the standard protobuf encoding",
 "For every message, the fast serialiser's bytes parse to the same message the standard library would have encoded, with correct computed lengths.",
 ["src/common/serialization.h","src/common/direct_coded_output_stream.h","src/common/protobuf.cpp"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import os
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    for f in x['anchors']['files']:
        if not os.path.exists('/repo/'+f): print(x['id'],f,'missing')
