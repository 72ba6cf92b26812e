package main

type evInfo struct {
	rule       string
	real, stub []string
	assume     []string
}

var commonReal = []string{
	"srpc (all non-js files), rpcstream, echo, mock from /repo's working tree, compiled with scheduling points inserted at build time",
	"protobuf-go-lite and github.com/aperturerobotics/util/broadcast", "Go channels, select, mutexes, wait groups, contexts and timers",
}

var commonStub = []string{
	"the goroutine scheduler and the clock (deterministic replacement inside the Go runtime)",
	"network connections and listeners (in-memory links with seeded delay, fragmentation, short buffers and faults)",
	"math/rand and runtime randomness (seeded)",
}

var commonAssume = []string{
	"one operating system thread: weak memory effects are not simulated (data races are the subject of C23)",
	"preemption happens at statements of the repository and at channel, mutex and network operations of every component; statements of dependencies are not preempted",
	"seeded search, not enumeration: a violation that needs a schedule or fault sequence no seed produced is not seen",
}

const (
	yamuxReal = "github.com/libp2p/go-yamux/v4 and the libp2p yamux wrapper"
	pipeReal  = "net.Pipe of the Go library (topology pipe)"
	rpcRule   = "A plan is a set of calls (unary and streaming; scripts of sends, receives, half-close, sleeps, concurrent senders and receivers on both sides; handler results including special errors) over one topology (in-memory pipe, direct packet stream, yamux, yamux over RwcConn, listener with several clients, optionally one or two nested rpcstream layers or a proxy, optionally wrapped in verbose, prefix, client-set and fallback layers), with network behaviour (chunk sizes, delays, buffer sizes), connection faults at byte or time positions and client aborts after a chosen number of operations. The oracle keeps every message handed to a send and every outcome and judges each event and the whole history."
)

type famInfo struct {
	rule       string
	real, stub []string
}

var props = map[string]famInfo{
	"C01": {rpcRule, []string{yamuxReal, pipeReal}, nil},
	"C02": {rpcRule + " Biased to handler errors, early returns and faults around the end of a call.", []string{yamuxReal, pipeReal}, nil},
	"C03": {rpcRule + " Almost all calls are unary.", []string{yamuxReal, pipeReal}, nil},
	"C04": {rpcRule + " Only streams; most half-close.", []string{yamuxReal, pipeReal}, nil},
	"C05": {rpcRule + " Every call is cancelled, closed or started with a cancelled context.", []string{yamuxReal, pipeReal}, nil},
	"C06": {rpcRule + " Every run has a connection fault: reset, clean close, truncation, stall, partition, close by either side or the end of the server's context.", []string{yamuxReal, pipeReal}, nil},
	"C07": {rpcRule + " Up to eight concurrent calls on one yamux connection, some held open until all others are over.", []string{yamuxReal}, nil},
	"C08": {"A plan is a sequence of packets (sizes around every boundary of the reader) cut into arbitrary reads and writes, in one or both directions, possibly ended by a cut inside a packet, a bogus length, an undecodable packet or a transport error.", nil, nil},
	"C09": {"A plan is a set of concurrent writers of one packet stream over a transport that accepts writes partially, blocks or fails after a number of bytes.", nil, nil},
	"C10": {"A plan is a sequence of valid, invalid and undecodable packets sent by a simulated client to a real server stream (directly, over yamux next to healthy calls, or as a call nested in an rpcstream), with a handler script. The oracle is an executable model of the protocol that says which messages the handler may see and how the call may end.", []string{yamuxReal}, []string{"the client (a generator of packets)"}},
	"C11": {"A plan is a sequence of valid, invalid and undecodable packets sent by a simulated server to a real client call (unary or stream, before and after the start is written). The oracle is an executable model of the protocol.", []string{yamuxReal}, []string{"the server (a generator of packets)"}},
	"C12": {rpcRule + " Biased to aborts, missing components and failing opens; the number of goroutines, context registrations, component references and open transports is compared before the calls, after them and after the end.", []string{yamuxReal, pipeReal}, nil},
	"C13": {"A plan is a set of registrations, lookups and calls by several goroutines on one mux with fallback, slice, prefix and verbose invokers. The recorded history is checked for linearizability against a sequential map of handlers.", []string{"a real client and server over the in-memory pipe for the calls"}, nil},
	"C14": {rpcRule + " Every call passes one or two nested rpcstream layers; some components are missing or their lookup fails.", []string{yamuxReal, pipeReal}, nil},
	"C15": {"A plan is a raw rpcstream with byte scripts on both ends (writes, reads with small buffers, half-close, close, failures), the stream given by the lookup being a simulated link or a component that fails.", []string{yamuxReal}, []string{"the component behind the raw stream"}},
	"C16": {rpcRule + " Every call passes a proxy, alone or with a nested layer before or behind it.", []string{yamuxReal, pipeReal}, nil},
	"C17": {"A plan is a set of readers and writers with arbitrary buffer sizes on a RwcConn, with deadlines that are set, moved and cleared from other goroutines, closes and context ends; part of the runs are RPC workloads over yamux over RwcConn.", []string{yamuxReal}, []string{"the io.ReadWriteCloser under the connection (simulated link)"}},
	"C18": {"A plan is a pair of byte scripts over StreamRwc on a srpc stream or RpcStreamReadWriter on an rpcstream, with faults of the connection below.", []string{yamuxReal}, nil},
	"C19": {"A plan is a list of scripted clients (implementing, unimplemented, failing, cancelled, nested sets, nil, a real client with a real server) and calls on the set, with cancellation of the caller.", nil, []string{"the member clients other than the real one"}},
	"C20": {"A plan is a listening server with well behaved clients and clients that send garbage, stay silent, vanish or stop half-way, until the server is stopped by its context, error channel or listener; part of the runs are RPC workloads through the listener.", []string{yamuxReal, "srpc.Listen and srpc.Dial through the simulated network"}, nil},
	"C21": {"A plan is an HTTPServer with websocket clients that call, send text, close, drop or misbehave, and plain HTTP requests; part of the runs are RPC workloads over websockets.", []string{yamuxReal, "github.com/coder/websocket and net/http (server and client)"}, nil},
	"C22": {"A plan is a pair of scripts (concurrent sends, receives, ends, closes, cancellation) on the two ends of NewPipeStream.", nil, nil},
	"C23": {"Each run is a plan of one of the other properties, executed by a worker built with the race detector: every pair of unsynchronised conflicting accesses in the happens-before order of the simulated run is reported; a report counts only if both sides are code of the library.", []string{yamuxReal, "the happens-before analysis of the Go race detector"}, nil},
	"C24": {rpcRule + " The buffers given to sends are overwritten as soon as the send returns, delivered buffers are kept and compared later; raw messages with and without copying; part of the runs use NewPipeStream.", []string{yamuxReal, pipeReal}, nil},
	"C25": {rpcRule + " Biased to slow handlers, aborts and faults; the handler's context is looked at before, between and after all its operations.", []string{yamuxReal, pipeReal}, nil},
	"C27": {tsRpcRule + " Half of the workers run code freshly generated by the TypeScript generator of the tree, also for service definitions of ours (several services, equal and odd method names, no package, message types of other files, services without methods); each call is judged by the service and method that arrive, the handler that runs and what it answers.", []string{"TypeScript generator"}, []string{"the library of the TypeScript generator (files, imports, comments)"}},
	"C28": {tsRpcRule + " Biased to aborts, closes by either side and connection faults.", nil, nil},
	"C29": {"A plan is a sequence of valid, invalid and undecodable packets given to a real ServerRPC or ClientRPC, with a script for the handler or the caller, pauses and closes. The oracle is an executable model of the protocol.", nil, []string{"the other side (a generator of packets)"}},
	"C30": {"A plan is a sequence of packets or messages cut into arbitrary chunks (also lists of buffers), possibly truncated or damaged, passed through the framing and stream transforms, compared with an independent reference encoding.", nil, []string{"source and sink of the transforms"}},
	"C31": {"A plan is a pair of scripts (writes, reads, pauses, closes with and without error, acknowledgements, silence) for two channel streams over a MessagePort, BroadcastChannel or duplex, with keep-alives and idle time-outs, lost messages, a stopped peer and clock changes; or a script for one watchdog.", nil, nil},
	"C32": {"A plan is a workload of calls nested in rpcstreams (as for C27 and C28), or a scripted other side for openRpcStream and handleRpcStream: acknowledgements and init packets that are late, missing, wrong, repeated or carry an error, lookups that fail or find nothing, ends at any point.", nil, nil},
	"C33": {"A plan is a set of registrations and lookups on a mux (nested muxes, fallback functions, odd names), invocations of generated handlers with the four kinds of methods, and operations on value containers with concurrent waiters; each step is compared with a reference model.", nil, nil},
	"C26": {"Each run: 1-4 concurrent calls of random kinds (unary, server-, client- and bidirectional streaming, nested rpcstream) through the generated echo and mock clients to generated servers in front of scripted implementations or the bundled services, over an in-memory pipe, a framed connection or a multiplexed connection, directly or through a nested rpcstream; random sizes, pauses, early ends, cancellations and network faults.", []string{"generated code of echo and mock", "bundled EchoServer and MockServer", yamuxReal}, nil},
}

var tsReal = []string{
	"srpc/*.ts, rpcstream/*.ts, echo/*.ts (with the generated *.pb.ts) and index.ts from /repo's working tree, bundled by esbuild without changes",
	"the JavaScript engine: promises, async iterators, microtasks, web streams",
}

var tsStub = []string{
	"setTimeout, setInterval, setImmediate, queue of macrotasks, Date, performance, Math.random (deterministic kernel)",
	"MessagePort, MessageChannel, BroadcastChannel, WebSocket (in-memory models with seeded delivery and faults)",
	"npm packages, which are not installed here: it-pushable, it-pipe, it-first, uint8arraylist, event-iterator, @aptre/protobuf-es-lite, @chainsafe/libp2p-yamux, @libp2p/interface, @libp2p/logger, @aptre/it-ws (re-implemented after their documentation and the versions in package.json)",
}

var tsAssume = []string{
	"the npm packages behave as the re-implementations in /verif/simts/stubs do; yamux is replaced by a simple multiplexer",
	"macrotasks are interleaved arbitrarily within the order each channel guarantees; microtasks run in the order the language defines",
	"seeded search, not enumeration: a violation that needs a schedule or fault sequence no seed produced is not seen",
}

const tsRpcRule = "A plan is a set of calls of all kinds (unary, server-, client- and bidirectional streaming) made through the generated or plain clients over one topology (in-memory pair, framed link, multiplexed connection, MessagePort, BroadcastChannel, WebSocket, ChannelStream), optionally through one or two nested rpcstreams, with scripts for client and handler, seeded delays and fragmentation, aborts, closes and connection faults. The oracle keeps every message sent and every outcome and judges each event and the whole history."

func evidenceInfo(prop string) evInfo {
	f := props[prop]
	if isTS(prop) {
		return evInfo{rule: f.rule, real: append(append([]string{}, tsReal...), f.real...), stub: append(append([]string{}, tsStub...), f.stub...), assume: tsAssume}
	}
	return evInfo{rule: f.rule, real: append(append([]string{}, commonReal...), f.real...), stub: append(append([]string{}, commonStub...), f.stub...), assume: commonAssume}
}
