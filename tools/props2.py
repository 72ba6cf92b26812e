prop("C08", "Packets survive any fragmentation, and damaged framing is reported",
 "However the byte stream is split into reads and writes, the reader of a packet stream obtains exactly the packets that were written, complete, unmodified and in order, and then a clean end if the writer closed between packets. A stream cut inside a packet, a packet length above the limit, or an undecodable packet is reported to the reader as an error - after every packet that arrived before it, never as a clean end and never as a made-up packet - and reading never panics or allocates on the word of a bogus length.",
 ["inputs", "fault_sequences", "schedules"], "all packet sequences and sizes around the limit, all fragmentations of the byte stream, truncation and corruption at every position, error returns with and without data",
 T + "the tests send a few small packets over a pipe that delivers whole writes.",
 ["srpc/packet-rw.go"],
 [("length-prefixed read loop over a partial buffer", "srpc/packet-rw.go: ReadToHandler, ReadPump"), ("maximum message size", "srpc/packet-rw.go")], [("buf", "bytes received but not yet decoded", "srpc/packet-rw.go")], ["PacketReadWriter.ReadPump callback", "HandleStreamClose error"])
prop("C09", "Concurrent packet writers and short writes never corrupt the stream",
 "Packets written concurrently to one packet stream arrive each whole and exactly once, with the packets of one writer in its order; a transport that accepts only part of a write gets the rest and nothing twice, and a failed write is reported to its caller. A write that failed part-way never lets a later packet be read out of step.",
 ["schedules", "inputs", "fault_sequences"], "all numbers of concurrent writers, packet sizes, partial writes and write errors at any byte; schedules",
 T + "no test writes concurrently or makes a write short.",
 ["srpc/packet-rw.go"],
 [("write mutex around a complete packet", "srpc/packet-rw.go: WritePacket")], [], ["PacketReadWriter.WritePacket", "ReadPump of the peer"])
prop("C10", "The server survives any sequence of packets from a client",
 "Whatever packets a client sends on a stream, in whatever order - missing or repeated call start, data before the start or after completion, empty and undecodable packets, packets without a body, cancel at any point, garbage bytes - the server does not panic, hang or leak; it starts at most one handler per stream and only from a valid call start; the handler sees exactly the messages a valid prefix of the packets carries; the first protocol violation ends the call with an error; and other streams and connections are unaffected. The same holds for the packets of an rpcstream and of the calls nested in it.",
 ["inputs", "schedules", "fault_sequences"], "all packet sequences, valid, invalid and garbage, their fragmentation and timing, and concurrent well-behaved calls",
 T + "no test sends a malformed or out-of-order packet.",
 ["srpc/server-rpc.go", "srpc/common-rpc.go", "srpc/server.go", "srpc/packet.go", "rpcstream/rpcstream.go"],
 [("packet dispatch and call state", "srpc/server-rpc.go: HandlePacket, HandleCallStart; srpc/common-rpc.go: HandleCallData, HandleCallCancel"), ("packet validation", "srpc/packet.go: Validate")],
 [("service, method", "set once by the call start", "srpc/common-rpc.go")], ["handler invocations", "Stream.MsgRecv in the handler", "packets sent to the client"])
prop("C11", "The client survives any sequence of packets from a server",
 "Whatever packets a server sends in answer to a call, before or after its start is written - data after completion, repeated completion, a call start, empty or undecodable packets, cancel, garbage, silence - the client does not panic, hang beyond the peer's silence, or leak; the call delivers exactly the messages of the valid prefix in order and then the status the prefix carries, or an error; it never reports a clean end the server did not send; waiting for the end of the call returns once it is over and not before, with the status the server failed it with; and other calls are unaffected.",
 ["inputs", "schedules", "fault_sequences"], "all packet sequences a server can send, their fragmentation and timing, unary and streaming calls",
 T + "no test answers a client with anything but the library's own server.",
 ["srpc/client-rpc.go", "srpc/common-rpc.go", "srpc/packet.go", "rpcstream/rpcstream.go"],
 [("packet dispatch", "srpc/client-rpc.go: HandlePacket, HandleStreamClose; srpc/common-rpc.go: HandleCallData")], [], ["Stream.MsgRecv", "Client.ExecCall"])
prop("C15", "A raw rpcstream is a faithful, independently closing byte stream",
 "A raw rpcstream carries the bytes written on one end to the other end exactly once, in order and unmodified, in both directions at once; when one side half-closes or ends, the bytes written before still arrive, followed by the end of that direction; the failure of a lookup reaches the caller as an error with its reason; and when the call is over the stream given by the lookup is closed and released exactly once. A caller that does not name a component first is refused, and a lookup in progress learns when its caller goes away.",
 SCHED, "all byte sequences, chunk sizes, orders of closing, component lookup outcomes, schedules and faults",
 "No test covers the raw rpcstream under concurrent traffic or early close.",
 ["rpcstream/raw-stream.go", "rpcstream/read-writer.go", "rpcstream/writer.go"],
 [("two copy loops", "rpcstream/raw-stream.go: HandleRawRpcStream, ReadPump, WritePump")], [], ["the component's io.ReadWriteCloser", "the caller's rpcstream"])
prop("C17", "RwcConn is a correct net.Conn",
 "A connection wrapped with NewRwcConn delivers exactly the bytes that arrived, in order, whatever the sizes of the read buffers (empty ones included) and packets; a read blocked or started after Close, after the read deadline or after the context ended returns the matching error in bounded time and deadlines can be moved and cleared; a clean end or failure of the transport is reported after all data before it; and Close is idempotent, closes the transport and leaves no goroutine.",
 SCHED, "all packet and buffer sizes, deadlines set, moved and cleared at any time, concurrent Close and cancellation, transport end or failure at any byte; schedules",
 "No test covers deadlines, small read buffers or Close of RwcConn.",
 ["srpc/rwc-conn.go"],
 [("receive pump with a queue of packets", "srpc/rwc-conn.go: rxPump, Read"), ("deadline handling", "srpc/rwc-conn.go: SetReadDeadline")],
 [("packetCh", "packets received and not yet read", "srpc/rwc-conn.go")], ["net.Conn methods"],
 note="One finding is recorded: write deadlines have no effect (known-findings.txt).")
prop("C18", "Byte-stream adapters over message streams are lossless",
 "An io.ReadWriteCloser made from a message stream (StreamRwc over srpc streams, RpcStreamReadWriter over rpcstreams) delivers exactly the bytes written at the other end, in order, for all write sizes and read buffer sizes; an end of the stream is reported as io.EOF and a failure as an error, only after all bytes before it; closing either end ends the other in bounded time.",
 ["schedules", "inputs", "fault_sequences"], "all write sizes and read buffer sizes including zero and one byte, positions of close and failure; schedules",
 "The tests copy one message through with a large buffer.",
 ["srpc/stream-rwc.go", "rpcstream/read-writer.go"],
 [("partial-message buffer", "srpc/stream-rwc.go: Read; rpcstream/read-writer.go: Read")], [("buf", "rest of a message larger than the read buffer", "srpc/stream-rwc.go")], ["Read, Write, Close"])
prop("C13", "The mux routes every call to exactly the handler registered for it",
 "Registration and lookup may happen concurrently and appear atomic: once Register has returned, the handler's methods are found, a lookup never sees a part of a handler's registration order contradicted later, and the last of several registrations for the same service and method wins. A call is dispatched to exactly one handler - the one registered for its service and method, or found by the fallback invokers or prefix invokers in their order with the prefix stripped - and is reported as unimplemented exactly when none has it. Wrappers that only log or add or strip prefixes change nothing else.",
 ["schedules", "inputs", "configurations"], "all interleavings of concurrent registrations, lookups and calls, all trees of muxes, fallbacks, prefix invokers and client wrappers",
 T + "no test registers while calls run or nests muxes, fallbacks and prefixes.",
 ["srpc/mux.go", "srpc/invoker.go", "srpc/invoker-prefix.go", "srpc/client-prefix.go", "srpc/strip-prefix.go", "srpc/handler.go", "srpc/mux-verbose.go", "srpc/client-verbose.go"],
 [("two-level method map under a read-write lock", "srpc/mux.go: Register, InvokeMethod, HasServiceMethod"), ("ordered fall-through on not found", "srpc/invoker.go: InvokerSlice; srpc/mux.go: fallback"), ("prefix matching", "srpc/invoker-prefix.go, srpc/client-prefix.go, srpc/strip-prefix.go")],
 [("services", "handlers by service and method", "srpc/mux.go")], ["Mux.Register", "Mux.HasService, HasServiceMethod", "Mux.InvokeMethod", "Client calls through the wrappers"])
prop("C19", "ClientSet fails over exactly when a client does not implement the call",
 "A call on a ClientSet tries its clients in order and stops at the first that implements the method: the outcome of that client - response, stream or error - is the outcome of the call and no later client is contacted. Only when a client reports the method as unimplemented (or its own attempt was cancelled while the caller's context is live) is the next one tried; when none implements it the caller is told so, and an empty set reports that no client is available. A request is never delivered to two implementing clients.",
 ["schedules", "inputs", "fault_sequences", "configurations"], "all sets of clients, local and remote, nested sets, missing clients, outcomes of each client, cancellation and connection faults during the failover",
 "No test uses a ClientSet.",
 ["srpc/client-set.go", "srpc/errors.go"],
 [("ordered attempt with fall-through", "srpc/client-set.go: execCall")], [], ["ClientSet.ExecCall, NewStream", "handler invocations"])
prop("C22", "The in-memory stream pair is a lossless ordered pipe with proper ends",
 "Messages sent on one end of NewPipeStream are received at the other exactly once, in order and unmodified, also when several goroutines send; after the sender ends its direction the receiver obtains everything sent before and then io.EOF; after an end is closed or the context is cancelled, blocked and later operations return an error in bounded time instead of hanging, panicking or claiming success; closing and ending are idempotent, and both ends closed leave nothing registered on the context.",
 ["schedules", "inputs", "fault_sequences"], "all interleavings of sends, receives, half-close, close and cancellation on both ends",
 "No test covers NewPipeStream under concurrency or close.",
 ["srpc/stream-pipe.go"],
 [("buffered channel and end-of-stream channel per direction", "srpc/stream-pipe.go")], [], ["Stream.MsgSend, MsgRecv, CloseSend, Close, Context"])
prop("C20", "A listening server serves every connection independently and stops when told",
 "While a server listens, every connection it accepts is served concurrently with the others: a client that sends garbage, stays silent, disconnects at once or stops half-way neither delays nor fails the calls of other clients, and calls on an undisturbed connection succeed with the right responses. Listen returns exactly when its context is cancelled, its error channel delivers or its listener fails - with the matching error, in bounded time and with the listener closed, so that the address can be listened on again - and reports an address in use; Dial yields a client whose calls work, or an error, and either end works with another implementation of the multiplexing protocol in the other role; the server closes every connection whose session has ended.",
 SCHED, "all numbers and behaviours of clients, points and ways of stopping the server, accept failures, network timing, fragmentation and faults; schedules",
 "No test uses Listen, Dial or AcceptMuxedListener.",
 ["srpc/net.go", "srpc/accept.go", "srpc/muxed-conn.go", "srpc/server.go"],
 [("accept loop with one goroutine per connection", "srpc/accept.go: AcceptMuxedListener"), ("select over context, error channel and listener", "srpc/net.go: Listen"), ("stream accept loop", "srpc/server.go: AcceptMuxedConn")], [], ["Listen, Dial, AcceptMuxedListener", "Client.ExecCall of each client"])
prop("C21", "RPC over WebSocket behaves like RPC over any connection",
 "Calls made through an HTTPServer and NewWebSocketConn keep the guarantees of calls over a direct connection (delivery, final status, cancellation, connection loss). A request for another path, a request without an upgrade, a text message or garbage never reaches a handler and never disturbs other clients; the accept options given to the server (origins, subprotocols, compression) decide who may connect and how; when a client disconnects, drops or the server's context ends, its handlers are cancelled, the request and the connection end in bounded time and nothing remains.",
 SCHED, "all call workloads over websockets, numbers and behaviours of clients, server cancellation, network timing, fragmentation and faults; schedules",
 "One test makes two calls over a loopback HTTP server.",
 ["srpc/server-http.go", "srpc/websocket.go", "srpc/muxed-conn.go"],
 [("stream accept loop of a request", "srpc/server-http.go: ServeHTTP"), ("message framing under the multiplexer", "srpc/websocket.go: NewWebSocketConn")], [], ["Client calls over the websocket", "HTTP responses", "handler contexts"])
prop("C23", "Concurrent use of the library is free of data races",
 "No two goroutines access the same memory of the library without synchronisation when at least one writes, in any use its interfaces allow: concurrent calls on one client, sends, receives, half-close and close of one stream from different goroutines, registration and lookup on one mux, serving many connections and streams from one server, concurrent methods of one net.Conn made by the library, and every interleaving of these with cancellation, packet arrival and connection loss.",
 SCHED, "all interleavings of the library's goroutines with each other and with concurrent callers, over all workloads, transports and faults of the other properties",
 "The tests make one call at a time, without the race detector, and a race shows only if both accesses are executed without an accidental ordering between them.",
 ["srpc/common-rpc.go", "srpc/client-rpc.go", "srpc/server-rpc.go", "srpc/mux.go", "srpc/rwc-conn.go", "srpc/client-verbose.go", "srpc/packet-rw.go"],
 [("fields of a call under the broadcast lock", "srpc/common-rpc.go, srpc/client-rpc.go, srpc/server-rpc.go"), ("method map under a read-write lock", "srpc/mux.go"), ("deadlines and read buffer under a mutex", "srpc/rwc-conn.go")], [], ["happens-before relation of every simulated execution"],
 note="Decided by the race detector's happens-before analysis of each simulated execution: races between accesses that both lie in the library's packages; races in dependencies alone are not judged.")

prop("C26", "Generated typed clients and servers carry each kind of call faithfully",
 "A call made through a generated client reaches the method of the generated server of the same service id and name, and no other: a unary call carries one request and returns its response or the handler's error; a server-streaming call delivers the request and then every response in order until the handler returns; a client-streaming call delivers every request and its end, and returns the response; a bidirectional call carries both at once until each side has ended. A message that is absent is not sent, SendAndClose ends the handler's direction after its message, a result never comes together with an error, and a service id that nobody registered is reported as unimplemented. A call without a proper request is refused without invoking the method. The generator gives this for any service definition: several services in a file, names of any form, which stay the ids used on the wire, any or no package, messages of other packages. The bundled echo and mock services behave as documented.",
 SCHED, "all kinds of methods, message sequences and sizes, points at which handler and client end, send and receive variants, transports and nested rpcstreams, service ids, schedules and faults",
 T + "they make one call of each kind in lock-step, and never end a stream early, from both sides at once or under faults.",
 ["echo/echo_srpc.pb.go", "mock/mock_srpc.pb.go", "cmd/protoc-gen-go-starpc/main.go", "echo/server.go", "mock/mock.go", "srpc/strip-prefix.go", "rpcstream/rpcstream.go"],
 [("generated client and handler", "echo/echo_srpc.pb.go, mock/mock_srpc.pb.go"), ("bundled services", "echo/server.go, mock/mock.go")], [], ["generated client methods", "generated server interface"],
 note="One finding is recorded: a call that ends before the generated client half-closed reports a write error instead of the status (known-findings.txt).")
TSC = ["schedules", "inputs", "fault_sequences", "configurations"]
TT = "The TypeScript tests need packages that are not installed here and make one call of each kind over an in-memory pair; "
prop("C27", "TypeScript: calls deliver every message and the true outcome",
 "In the TypeScript library a call of any kind (unary, server-, client- and bidirectional streaming) over any of its transports delivers to the handler a prefix of the requests the client sent and to the caller a prefix of the responses the handler sent: in order, exactly once, unmodified, empty messages included. The handler is invoked at most once, and sees a clean end of the requests only when the client ended them and every one was delivered. The caller sees success only if the handler returned successfully and all its responses were delivered; undisturbed, every message sent reaches the side that waits for it without another having to follow, an error of the handler reaches the caller as an Error with its text, a call to a service or method that nobody registered fails as not found, and nothing else fails. All of this holds for calls made through the generated clients and definitions, both those in the tree and the code the TypeScript generator of the tree produces for any service definition: the service and method called, the message types, the kind of call and the abort signal are the ones of the definition and of the caller.",
 TSC, "all kinds of calls and message sequences, orders of timers, messages and network deliveries, fragmentation, transports, nested rpcstreams, aborts and connection faults",
 TT + "delivery and outcome depend on how asynchronous steps of both sides interleave and on where the transport splits or ends.",
 ["srpc/common-rpc.ts", "srpc/client.ts", "srpc/client-rpc.ts", "srpc/server-rpc.ts", "srpc/server.ts", "srpc/invoker.ts", "srpc/packet.ts", "srpc/conn.ts", "echo/server.ts", "cmd/protoc-gen-es-starpc/typescript.ts"],
 [("call state machine and packet source and sink", "srpc/common-rpc.ts"), ("invocation of generated methods", "srpc/invoker.ts"), ("framing", "srpc/packet.ts")],
 [("_rpcDataSource", "received messages not yet read", "srpc/common-rpc.ts")], ["calls through generated clients", "requests seen by handlers"])
prop("C28", "TypeScript: aborted, failed and lost calls end on both sides",
 "In the TypeScript library every call ends: a call whose abort signal fires fails at once with the abort error, also while its stream is still being opened and whatever the peer or network does; when the connection is lost or closed by either side, the caller of every unfinished call gets an error - never a hang and never a clean end that the handler did not give - and a handler waiting for requests stops waiting. Undisturbed calls always finish, and once a call is over nothing of it remains: its stream is closed on both sides however it ended. Closing twice or with writes pending is harmless.",
 TSC, "all points at which a call is aborted or its connection lost or closed, kinds of calls, transports, nested rpcstreams, orders of asynchronous steps",
 TT + "none aborts a call or breaks a connection.",
 ["srpc/client.ts", "srpc/common-rpc.ts", "srpc/client-rpc.ts", "srpc/conn.ts", "srpc/broadcast-channel.ts", "srpc/message-port.ts", "srpc/pushable.ts", "srpc/open-stream-ctr.ts"],
 [("abort signal and closing of a call", "srpc/client.ts, srpc/common-rpc.ts: close"), ("end of the packet source", "srpc/common-rpc.ts: _createDecodeSink, sink of the call")],
 [("closed", "the call is over", "srpc/common-rpc.ts")], ["outcome of calls", "handlers waiting for requests", "streams left open"])
prop("C29", "TypeScript: server and client calls survive any sequence of packets",
 "Whatever packets arrive at a ServerRPC or ClientRPC of the TypeScript library, in whatever order - no or repeated call start, data before the start or after completion, empty messages, empty or undecodable packets, cancel at any point, packets after the end, names of services and methods chosen by an attacker - nothing throws outside the call or hangs; a handler is looked up and invoked at most once and only after a valid call start; handler and caller receive exactly the messages of the valid prefix; and a packet that violates the protocol ends the call with an error.",
 ["inputs", "schedules", "fault_sequences"], "all sequences of valid, invalid and undecodable packets, their timing, closes, behaviour of the handler or caller meanwhile",
 TT + "none sends an invalid packet.",
 ["srpc/common-rpc.ts", "srpc/server-rpc.ts", "srpc/client-rpc.ts", "srpc/packet.ts", "srpc/mux.ts"],
 [("packet dispatch", "srpc/common-rpc.ts: handlePacket; srpc/server-rpc.ts: handleCallStart; srpc/client-rpc.ts: handleCallStart")],
 [("service, method", "set by the call start", "srpc/common-rpc.ts")], ["messages seen by handler and caller", "packets written"])
prop("C30", "TypeScript: framing and message transforms survive any fragmentation",
 "The stream transforms of the TypeScript library are lossless: packets encoded with the length prefix and cut into arbitrary chunks (lists of buffers, empty chunks, several packets in one chunk) are decoded to exactly the same packets in order; the encoding is the one the Go library uses (32-bit little-endian length); message encode, decode, merge and transform functions map each element once and in order; a message that does not decode, and an error of the source, is reported as an error after everything before it; and a stream that ends within a packet yields every packet before and never a part of one.",
 ["inputs", "fault_sequences", "schedules"], "all packet sequences, chunkings, truncations and damages",
 TT + "chunks are whole packets there.",
 ["srpc/packet.ts", "srpc/length-prefix.ts", "srpc/message.ts", "srpc/array-list.ts"],
 [("length-prefix decoder over partial buffers", "srpc/packet.ts, srpc/length-prefix.ts")], [], ["output of the transforms"])
prop("C31", "TypeScript: channel streams deliver, acknowledge, keep alive and time out",
 "A ChannelStream over a MessagePort, BroadcastChannel or duplex delivers every value written by one end to the other in order, exactly once - falsy values included - followed by the clean end or the error with which the writer closed; waiting for the remote to acknowledge or open ends when it has, and not before; a stream with a keep-alive keeps its peer from timing out; a peer that stays silent for longer than the idle time-out closes the stream with the time-out error, within bounded time and not early, also when the wall clock jumps; closing is idempotent and safe with writes pending, and stops all timers. The watchdog expires once its time-out has passed without a feed, not before, and never after it was cleared.",
 TSC, "all scripts of writes, pauses and closes on both ends, timer settings, lost messages, silent peers, clock jumps",
 "No test covers ChannelStream or Watchdog.",
 ["srpc/channel.ts", "srpc/watchdog.ts", "srpc/broadcast-channel.ts", "srpc/message-port.ts"],
 [("open, ack, alive and closed messages", "srpc/channel.ts"), ("idle watchdog", "srpc/watchdog.ts")],
 [("remoteOpen, localOpen", "handshake state", "srpc/channel.ts")], ["values read", "waitRemoteOpen, waitRemoteAck", "close and timer callbacks"])
prop("C32", "TypeScript: calls nested in an rpcstream behave like direct calls",
 "In the TypeScript library calls over openRpcStream, buildRpcStreamOpenStream and handleRpcStream, at any nesting depth, deliver messages and outcomes and end as direct calls do. The component that is looked up is the one named by the init packet, exactly once; a lookup that fails or finds nothing fails the call with the reason and no handler runs; a caller that waits for the acknowledgement goes on only after it and fails if it carries an error, is missing or something else comes instead; packets that do not follow the protocol end the stream with an error; and the end of either side is passed to the other, so nothing hangs.",
 TSC, "all calls and nestings, lookup outcomes and delays, sequences of rpcstream packets from the other side, ends at any point",
 TT + "one nested call is made.",
 ["rpcstream/rpcstream.ts", "rpcstream/pushable-sink.ts"],
 [("init and ack packets", "rpcstream/rpcstream.ts: openRpcStream, handleRpcStream"), ("data source and sink", "rpcstream/rpcstream.ts: RpcStream; rpcstream/pushable-sink.ts")], [], ["calls through nested clients", "packets written to the other side", "component lookups"])
prop("C33", "TypeScript: lookup, invocation and containers follow their reference model",
 "In the TypeScript library a mux finds exactly the methods registered, the latest registration of a name winning and the methods of several handlers for a service adding up, then asks its fallback lookups in order, and reports any other service or method - whatever its name - as not found; a handler invokes the generated method of its kind with the request (stream) and hands over every response, its end or its error exactly once; and the value containers (ValueCtr, OpenStreamCtr, HandleStreamCtr) return the current value at once or the next one to everyone who waits, falsy values included.",
 ["inputs", "schedules", "histories"], "all registrations, names, fallbacks, kinds of methods, responses and failures, histories of sets and waits",
 TT + "none looks up missing or odd names or waits for a value.",
 ["srpc/mux.ts", "srpc/handler.ts", "srpc/invoker.ts", "srpc/value-ctr.ts", "srpc/open-stream-ctr.ts", "srpc/handle-stream-ctr.ts"],
 [("nested maps of services and methods", "srpc/mux.ts"), ("createInvokeFn", "srpc/invoker.ts"), ("waiters", "srpc/value-ctr.ts")], [("services", "registered handlers", "srpc/mux.ts"), ("_value, _waiters", "current value and who waits for it", "srpc/value-ctr.ts")], ["lookupMethod", "invoker output", "wait, waitWithCb"])
NOT_APPLICABLE = {
}
