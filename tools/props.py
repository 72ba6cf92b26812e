#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py writes both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CLAIMED = set()

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), claimed=True, note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None), _note=note))
    if claimed:
        CLAIMED.add(id)

SCHED = ["schedules", "inputs", "fault_sequences", "configurations"]
T = "The existing tests run a handful of fixed calls over net.Pipe and one loopback HTTP server under whatever schedule the machine happens to produce; "

prop("C01", "Streams deliver messages exactly once, in order and unmodified",
 "In each direction of a streaming call the receiver obtains exactly the messages the sender sent: each at most once, byte for byte unmodified, in the order of the sends, with no message invented, and an empty message is delivered as an empty message. If the receiver is told that the direction ended cleanly, every message whose send had succeeded before the end was delivered first. This holds for every message size, over every transport and nesting of transports, and whatever the network's timing and fragmentation. A message that cannot be encoded fails for that reason and nothing is sent for it; one that does not decode is never reported as received.",
 SCHED, "all message sequences and sizes, goroutine schedules, packet fragmentations and delays, transports (in-process pipe, framed connection, multiplexed connection, rpcstream nesting, proxying), and connection faults at any byte",
 T + "ordering, loss and duplication depend on interleavings of sender, read pump and receiver and on where the transport splits or cuts the byte stream.",
 ["srpc/common-rpc.go", "srpc/msg-stream.go", "srpc/packet-rw.go", "srpc/client-rpc.go", "srpc/server-rpc.go", "rpcstream/rpcstream.go"],
 [("queue of received data guarded by the broadcast lock", "srpc/common-rpc.go: ReadOne, HandleCallData"), ("length-prefixed framing under a write lock", "srpc/packet-rw.go")],
 [("dataQueue", "received messages not yet read", "srpc/common-rpc.go"), ("dataClosed", "the remote will send no more data", "srpc/common-rpc.go")],
 ["Stream.MsgSend", "Stream.MsgRecv"])
prop("C02", "The caller learns the call's real final status, once and for good",
 "When the handler of a call returns success the client sees a clean end of the response stream after all responses; when it returns an error the client sees an error with exactly that text; a call to an unregistered service or method is reported as unimplemented and no handler runs. A client never sees a clean end unless the handler returned success, and a status once reported does not change on later receives, even if the connection is closed or fails afterwards.",
 SCHED, "all handler outcomes and error texts, schedules, transports, and connection faults before, during and after the end of the call",
 T + "the final status races with the closing of the transport, and the tests never cut a connection around the end of a call.",
 ["srpc/common-rpc.go", "srpc/server-rpc.go", "srpc/client-rpc.go", "srpc/mux.go"],
 [("completion packet carrying the handler's error", "srpc/server-rpc.go: invokeRPC"), ("remoteErr and dataClosed", "srpc/common-rpc.go"), ("stream close mapped to an error unless completed", "srpc/client-rpc.go: HandleStreamClose")],
 [("remoteErr", "status reported by the remote", "srpc/common-rpc.go")], ["Stream.MsgRecv", "Client.ExecCall"])
prop("C03", "A unary call returns the response to its own request, or an error",
 "ExecCall returns success only with the response the handler sent for exactly this request, unmodified; if the handler fails, is missing, or the connection is lost before the response arrived, it returns an error that carries the handler's error text if there was one. The handler is invoked at most once per call, ExecCall always returns once the handler responded, the connection failed or the context was cancelled, and a response that was sent successfully over an undisturbed connection is never lost; a request that cannot be encoded or a response that does not decode is an error, and in the former case no handler runs.",
 SCHED, "all request and response sizes, handler outcomes, schedules, transports, cancellations and connection faults at any point",
 T + "one echo request and response over a pipe does not reach the races between response, completion, cancellation and connection loss.",
 ["srpc/client.go", "srpc/client-rpc.go", "srpc/common-rpc.go"],
 [("call start with first message, then one receive", "srpc/client.go: ExecCall")], [], ["Client.ExecCall"])
prop("C04", "Half-close ends one direction only, and cleanly",
 "After a client half-closes its side, the handler receives every message sent before and then a clean end of stream - no extra message - while the handler can still send responses and the client can still receive them and the final status; half-closing again changes nothing. The handler never sees a clean end of the request stream while the call is live unless the client half-closed, and a client that aborts without half-closing is not mistaken for one that finished.",
 SCHED, "all positions of the half-close among sends and receives, schedules, transports, aborts",
 T + "the tests half-close once, at the end, with the peer waiting.",
 ["srpc/msg-stream.go", "srpc/common-rpc.go"],
 [("completion flag without data", "srpc/common-rpc.go: WriteCallData, HandleCallData")], [], ["Stream.CloseSend", "Stream.MsgRecv"])
prop("C05", "Cancelling or closing a call stops it on both sides",
 "When the caller cancels the context of a call or closes the stream, pending and later client receives of that call return in bounded time (never a fabricated clean end), a later send is not reported as sent, and once the client has observed or performed the close, the handler's context is cancelled and its pending receives return. A call whose context is already cancelled is not started, and cancelling one call leaves every other call alone.",
 SCHED, "all points of a call at which it is cancelled or closed, schedules, transports and network delays",
 T + "no test cancels a call while data is in flight in either direction.",
 ["srpc/client-rpc.go", "srpc/common-rpc.go", "srpc/msg-stream.go", "srpc/client.go"],
 [("cancel packet and closing of the stream's transport", "srpc/msg-stream.go: Close; srpc/client-rpc.go: Close"), ("per-call context", "srpc/common-rpc.go: ctxCancel")],
 [], ["context of the handler", "Stream.MsgRecv", "Client.ExecCall"])
prop("C06", "Loss of the connection unblocks everything with an error",
 "When the connection under a call fails or is closed by either side at any point, every pending client operation of the call returns in bounded time and reports an error unless the call had already completed, and the handler's context is cancelled and its pending operations return. Messages that had arrived before the loss are unaltered and can still be received, and calls on other connections are unaffected.",
 SCHED, "connection reset, orderly close, truncation at any byte, stall and partition at any point of any number of calls, in either direction; schedules",
 T + "no test breaks a connection.",
 ["srpc/packet-rw.go", "srpc/common-rpc.go", "srpc/client-rpc.go", "srpc/muxed-conn.go"],
 [("read pump reports the end of the stream", "srpc/packet-rw.go: ReadPump"), ("HandleStreamClose", "srpc/common-rpc.go, srpc/client-rpc.go")], [], ["Stream.MsgRecv", "Stream.MsgSend", "handler context"])
prop("C07", "Concurrent calls on one connection do not affect each other",
 "Any number of calls may run concurrently over one connection: each receives only its own messages and its own status, and completion, failure, cancellation or an unread backlog of one call does not change the outcome of another.",
 SCHED, "all numbers and mixes of concurrent calls with differing outcomes and sizes, schedules, cancellations",
 T + "the tests run one call at a time per connection.",
 ["srpc/muxed-conn.go", "srpc/server.go", "srpc/client.go", "srpc/common-rpc.go"],
 [("one multiplexed stream per call", "srpc/muxed-conn.go: NewClientWithMuxedConn; srpc/server.go: HandleStream")], [], ["Stream.MsgRecv", "Client.ExecCall"])
prop("C12", "Calls and connections release everything they hold",
 "After a call is over - however it ended, including when it could not be opened - no goroutine, context registration, transport stream or component reference of it remains on either side while the connection lives on, and the release function of a looked-up component is called exactly once. After all connections and contexts are closed, every goroutine the library started ends and every accepted connection has been closed. Close functions attached to streams and packet writers run when they are closed and their errors are reported, and a connection set up with a context is closed when that context ends.",
 SCHED, "all ways a call can end, histories of many calls on one connection, schedules and faults",
 T + "no test looks for leaked goroutines, contexts or streams.",
 ["srpc/client-rpc.go", "srpc/common-rpc.go", "srpc/server-rpc.go", "srpc/client.go", "rpcstream/rpcstream.go", "rpcstream/proxy.go"],
 [("context cancel functions and writer.Close on every path", "srpc/client.go, srpc/common-rpc.go"), ("deferred release functions", "rpcstream/")], [], ["goroutine count", "context registrations", "release callbacks"])
prop("C14", "Calls nested in an rpcstream behave like direct calls",
 "A client opened over an rpcstream reaches exactly the component it names: its calls deliver messages, status, half-close and cancellation as calls made directly to that component's services do, at any nesting depth. If the component does not exist or its lookup fails, every call to it fails with an error that carries the reason and no handler runs. A caller that does not name a component first is refused with an error and nothing is looked up, and a lookup that is still in progress learns when its caller goes away.",
 SCHED, "all call shapes, nesting depths, with and without waiting for the acknowledgement, component lookup outcomes, schedules and faults",
 T + "one unary call through one rpcstream is tested.",
 ["rpcstream/rpcstream.go", "rpcstream/read-writer.go", "rpcstream/writer.go"],
 [("init and ack packets, nested packets as data", "rpcstream/rpcstream.go: OpenRpcStream, HandleRpcStream")], [], ["Client over NewRpcStreamClient"])
prop("C16", "Calls through an rpcstream proxy behave like direct calls",
 "A call that passes through an rpcstream proxy delivers the same messages in the same order, the same half-close and the same final status as a call to the remote component directly, and the remote is asked for the component id the proxy's lookup returned. If the lookup fails or finds nothing, or the remote cannot be opened, the caller gets an error with the reason; cancelling on one side ends the call on the other, and the lookup's release function runs exactly once. A caller that does not name a component first is refused, and a lookup or remote call in progress learns when its caller goes away.",
 SCHED, "all call shapes through one or more proxies over different transports, lookup outcomes, schedules, and faults on either hop",
 "No test covers the proxy at all.",
 ["rpcstream/proxy.go"],
 [("two copy loops between the streams", "rpcstream/proxy.go: HandleProxyRpcStream, copyRpcStreamTo")], [], ["Client over a proxied rpcstream"])
prop("C24", "Message buffers are owned by exactly one side at a time",
 "Once a send has returned, the caller may reuse or overwrite the buffer it passed without changing what the receiver gets, and a message handed to a receiver never changes afterwards, whatever traffic follows on the same or other calls.",
 ["schedules", "inputs", "histories"], "all message sizes and sequences with buffers overwritten as soon as the send returns, over transports that cross a connection; schedules and fragmentation",
 T + "no test reuses a buffer.",
 ["srpc/packet-rw.go", "srpc/common-rpc.go", "srpc/message.go", "rpcstream/read-writer.go"],
 [("packets are marshalled before the write; reads allocate or copy per packet", "srpc/packet-rw.go")], [], ["Stream.MsgSend", "Stream.MsgRecv"])
prop("C25", "The handler's context lives exactly as long as the call",
 "The context of a handler is live while the call is in progress and nothing interrupted it, and is cancelled, in bounded time, once the handler returned, the client cancelled or closed the call, the connection was lost or the server's context was cancelled. It carries the values of the context the server runs with, also for nested calls.",
 SCHED, "all points and kinds of interruption, handler durations, schedules and transports",
 T + "no test observes the handler's context.",
 ["srpc/server-rpc.go", "srpc/common-rpc.go", "srpc/server.go"],
 [("per-call context derived from the server context", "srpc/common-rpc.go: initCommonRPC, HandleStreamClose; srpc/server-rpc.go: invokeRPC")], [], ["Stream.Context in the handler"])

exec(open(os.path.join(V, "tools", "props2.py")).read()) if os.path.exists(os.path.join(V, "tools", "props2.py")) else None

P.sort(key=lambda p: p["id"])
NOTE = "Seeded search over simulated runs of the real code: schedules, timing, fragmentation and faults come from one seed; exploration, not enumeration. Trusts the patched Go runtime scheduler, the in-memory network model and the oracles in /verif/sim/worker."
NOTE_TS = "Seeded search over simulated runs of the real TypeScript code: the order of macrotasks, timing, fragmentation and faults come from one seed; exploration, not enumeration. Trusts the simulated timers, ports, channels and web sockets, the re-implemented npm packages in /verif/simts/stubs, and the oracles in /verif/simts."
TS = {"C27", "C28", "C29", "C30", "C31", "C32", "C33"}
NA = dict(globals().get("NOT_APPLICABLE", {}))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if k != "_note"}
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash check.sh -build",
    hooks=dict(guard="none: no hook was added to /repo (a build overlay in /verif inserts the scheduling points)", enable="go build -overlay, generated from /repo's working tree by every check", source_commits=[]),
    checks=[dict(property=p["id"], quick_cmd="bash check.sh -prop " + p["id"] + " -tier quick", thorough_cmd="bash check.sh -prop " + p["id"] + " -tier thorough",
        evidence_file="evidence/" + p["id"] + ".json",
        technique="deterministic simulation with fault injection (seeded schedules, network and faults in one process)", level="exploration",
        level_note=(p["_note"] + " " if p["_note"] else "") + (NOTE_TS if p["id"] in TS else NOTE)) for p in P if p["id"] in CLAIMED],
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes="See DESIGN.md. Every check builds the simulation worker from /repo's working tree (about 20 s cold); C27 to C33 bundle the TypeScript library with esbuild instead.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(CLAIMED), "claimed")
