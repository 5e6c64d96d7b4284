#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are kept here, readably)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Received bytes reach OnMessage exactly once, in order, unaltered",
  "For every connection, the concatenation of the data handed to OnMessage (with the default protocol; with a custom protocol, the messages it frames) is exactly what the peer sent, in order: nothing lost, repeated, reordered or altered, however the stream is cut into segments and reads. Bytes a custom protocol leaves unconsumed are presented again, followed by the new ones, when more arrives. When the loop has nothing left to do, everything the peer sent has been presented to the protocol, unless output to that peer is blocked.",
  ["inputs", "schedules", "histories"], "all byte streams, segmentations, read sizes, protocols that leave a remainder, and interleavings with output",
  "The tests send a few short messages, one read each; remainder handling, buffer wrap-around, growth and reads interleaved with blocked writes are never reached.",
  ["connection.go", "protocol.go", "eventloop/eventloop.go", "poller/epoll.go"],
  [("handleRead / handlerProtocol", "connection.go"), ("DefaultProtocol.UnPacket", "protocol.go")],
  [("inBuffer", "unconsumed input", "connection.go"), ("buffer", "view of the loop's packet buffer", "connection.go")],
  ["OnMessage arguments", "read(2) results", "Protocol.UnPacket buffer"])
p("C02", "Sent messages reach the peer whole, in order, at most once",
  "What a peer receives is a sequence of whole messages: each message accepted by Send or returned from OnMessage appears at most once, contiguous and byte for byte, and nothing else appears. Messages sent by one goroutine keep their order, and so do replies; one Send that returned before another began precedes it. Short writes and full socket buffers never lose, repeat or interleave bytes; only the end of the connection may cut the stream, and then it is cut at one point.",
  ["schedules", "inputs", "fault_sequences"], "all interleavings of senders, replies and the loop, all message sizes, all patterns of short, refused and failing writes",
  "Tests send small messages that the kernel takes at once; the write buffer, its wrap-around and concurrent senders under back-pressure are not exercised.",
  ["connection.go", "eventloop/eventloop.go"],
  [("sendInLoop / handleWrite", "connection.go"), ("QueueInLoop", "eventloop/eventloop.go")],
  [("outBuffer", "accepted output the kernel has not taken", "connection.go")],
  ["write(2) contents and results", "Send results"])
p("C03", "Pending output is never stuck and reading always resumes",
  "Whenever a connection has accepted output that the peer's side can take, the server writes it without needing any further input, task or timer. While output is blocked no message of that connection is handled and no input is lost; once the output has drained, input that arrived meanwhile is handled without anything else having to happen. Blocked output on one connection never delays the others.",
  ["schedules", "fault_sequences", "histories"], "all points at which a write can come up short or be refused, all later patterns of the peer draining, all interleavings with input and sends",
  "A stall needs a full socket buffer at one particular point and shows up as nothing happening; tests never fill a buffer.",
  ["connection.go", "poller/epoll.go", "eventloop/eventloop.go"],
  [("EnableReadWrite / EnableRead", "eventloop/eventloop.go"), ("HandleEvent", "connection.go"), ("handleWrite", "connection.go")],
  [("registered interest", "what epoll is asked to report", "poller/epoll.go")],
  ["state when all goroutines are blocked"])
p("C04", "Callbacks: OnConnect first, OnClose last, one at a time, on one goroutine",
  "For every accepted connection OnConnect is called exactly once and before any other callback of it, OnClose exactly once and after every other callback, and OnMessage only in between. All callbacks of a connection run on one goroutine, the one that runs its event loop, and never overlap with one another or with those of other connections of that loop.",
  ["schedules", "histories"], "all interleavings of accepting, input, sends, closes from several goroutines, errors, timers and Stop",
  "Ordering and once-only guarantees are about every interleaving; tests close in one or two simple ways.",
  ["connection.go", "server.go", "eventloop/eventloop.go"],
  [("handleNewConnection", "server.go"), ("handleClose guarded by connected", "connection.go")],
  [("connected", "open flag", "connection.go")], ["callback entry and exit with goroutine identity"])
p("C05", "However a connection ends, it ends once and completely",
  "Whatever ends a connection (peer close, reset, read or write error, Close from any number of goroutines, idle time, a failed registration, Stop), OnClose is called exactly once, the socket is released exactly once and the peer sees the end, and nothing is read from or written to it afterwards. From OnClose on, Connected reports false and Send, Close and ShutdownWrite return ErrConnectionClosed; a Close that returned nil always leads to OnClose.",
  ["schedules", "fault_sequences", "histories"], "all orders and overlaps of the possible causes, at every point of the connection's life",
  "Double closes, leaks and use after close need two causes to overlap at a particular point.",
  ["connection.go", "eventloop/eventloop.go", "poller/epoll.go"],
  [("handleClose", "connection.go"), ("DeleteFdInLoop", "eventloop/eventloop.go")],
  [("connected", "open flag", "connection.go")], ["close(2)", "OnClose", "results of Send/Close/Connected"])
p("C06", "Every task queued in an event loop runs exactly once, in order, on the loop",
  "Every function queued in a running event loop runs exactly once, on the loop's goroutine, after all functions whose queueing completed before its own began, and without anything else having to wake the loop. This includes functions queued from inside the loop and while it goes to sleep, and those queued before the loop is told to stop: they have run when Stop returns.",
  ["schedules"], "all interleavings of any number of queueing goroutines with the loop's sleep/wake cycle and with Stop",
  "A lost wake-up or a task dropped while queues are swapped needs one particular interleaving of a few instructions.",
  ["eventloop/eventloop.go", "poller/epoll.go"],
  [("QueueInLoop / doPendingFunc", "eventloop/eventloop.go"), ("Wake / Poll", "poller/epoll.go")],
  [("needWake", "a wake-up write is needed", "eventloop/eventloop.go"), ("taskQueueW/R", "double-buffered queue", "eventloop/eventloop.go")],
  ["task execution", "state when all goroutines are blocked"])
p("C07", "Connections never affect one another, even when descriptors are reused",
  "Data, closes, timers and errors of one connection never show up on another: a message or reply goes to the connection it belongs to, and Close, Send or ShutdownWrite on a closed connection, a stale readiness event or a late idle timer never touches a newer connection that got the same descriptor number or the same recycled buffer. A new connection starts with no leftover input, output, context or key-value data.",
  ["schedules", "histories", "fault_sequences"], "all histories of opens, closes and descriptor/buffer reuse, with stale handles used at any point",
  "Reuse of a descriptor or buffer while a stale reference is in use is timing dependent and absent from the tests.",
  ["connection.go", "eventloop/eventloop.go", "poller/epoll.go", "server.go"],
  [("handleClose order: deregister, OnClose, close", "connection.go"), ("ringbuffer pool", "connection.go")],
  [("sockets", "fd to connection", "eventloop/eventloop.go")], ["payload identity per connection", "system calls per descriptor"])
p("C08", "Connections are assigned by the strategy and counted exactly",
  "RoundRobin assigns successive connections to the loops in rotation, and LeastConnection assigns each to a loop whose connection count is minimal at that moment; a custom strategy's choice is honoured. A loop's connection count equals the number of connections it is serving whenever it is idle, is never negative, and returns to zero when they are gone or the server has stopped, whatever ended them.",
  ["histories", "schedules", "configurations"], "all sequences of connects and disconnects (by any cause), loop counts and strategies",
  "Tests check one fixed number of connects for each strategy and never count after failures, closes or Stop.",
  ["load_balance.go", "eventloop/eventloop.go", "server.go", "options.go"],
  [("RoundRobin / LeastConnection", "load_balance.go"), ("AddSocketAndEnableRead / DeleteFdInLoop", "eventloop/eventloop.go")],
  [("ConnCunt", "connections of a loop", "eventloop/eventloop.go")], ["strategy arguments and results", "ConnectionCount", "callback goroutine"])
p("C09", "Stop ends everything once and Start returns",
  "After Stop on a running server, every connection has been closed with its OnClose called, the listening port is released, Start has returned, and no callback or timer of the server runs any more. Stop may be called any number of times, from any number of goroutines, at any moment, including while Start is still starting up or connections are arriving: it never panics or hangs, and it either has this whole effect or, before the server is running, none.",
  ["schedules", "histories"], "all moments and overlaps of Stop with Start, other Stops, accepts, input, sends and timers",
  "The tests stop an idle server after a sleep and look at neither connections nor port.",
  ["server.go", "listener.go", "eventloop/eventloop.go", "poller/epoll.go"],
  [("Server.Start/Stop", "server.go"), ("EventLoop.Stop", "eventloop/eventloop.go"), ("Poller.Close", "poller/epoll.go")],
  [("running", "server state", "server.go"), ("waitDone", "loop has exited", "poller/epoll.go")], ["return of Start/Stop", "OnClose", "connect attempts"])
p("C10", "Idle connections are closed after IdleTime, active ones never",
  "With IdleTime set, a connection is never closed for idleness before IdleTime has passed since the server last received bytes on it (or accepted it), so one that keeps sending is never closed while its output is not blocked; and once IdleTime has passed since anything was last received on or sent to it, it is closed within about a timer tick, also while its output is blocked. With IdleTime unset no connection is closed for idleness.",
  ["histories", "configurations", "schedules"], "all patterns of activity and all idle times, including fractions of a second",
  "Tests use one idle time and one pattern on the wall clock.",
  ["connection.go", "options.go"],
  [("closeTimeoutConn", "connection.go"), ("HandleEvent", "connection.go")],
  [("activeTime", "last activity", "connection.go")], ["virtual time of closes"])
p("C11", "RunAfter runs once at its time, RunEvery at every interval, until stopped",
  "A function given to RunAfter runs exactly once, when its delay has passed, to within a tick of the timer or so either way; one given to RunEvery runs once for every interval that elapses. Stopping the returned timer before it fires means the function is not run again, and no function runs after the server has stopped.",
  ["histories", "configurations"], "all delays, intervals, numbers of timers and moments of stopping",
  "The examples check one delay and one interval.",
  ["server.go", "everyscheduler.go"],
  [("RunAfter / RunEvery", "server.go"), ("everyScheduler.Next", "everyscheduler.go")], [], ["virtual time of runs"])
p("C12", "WebSocket frames are decoded the same however the bytes are segmented",
  "After the handshake, the sequence of data frames given to the WebSocket handler (opcode class and unmasked payload) depends only on the bytes the client sent, not on how they were cut into segments or where buffers wrap: each complete frame is handled exactly once, in order, as soon as its last byte is there, and never before. Payloads of every length encoding (7, 16, 64 bit, including empty) are decoded exactly, and a payload stays as it was delivered for as long as the handler keeps it; a frame whose length is invalid is never handled, nor is anything behind it, and its connection is closed.",
  ["inputs"], "all frame sequences, lengths, masks and segmentations, including splits inside headers and frames glued to the handshake",
  "The tests send each frame in one piece; header splits and wrapped buffers are not reached.",
  ["plugins/websocket/protocol.go", "plugins/websocket/ws/read.go", "plugins/websocket/ws/cipher.go", "plugins/websocket/wrap.go"],
  [("VirtualReadHeader", "plugins/websocket/ws/read.go"), ("Protocol.UnPacket", "plugins/websocket/protocol.go"), ("Cipher", "plugins/websocket/ws/cipher.go")],
  [], ["WSHandler.OnMessage", "replies"])
p("C13", "The WebSocket handshake accepts exactly the valid requests and answers the rest",
  "A complete request is upgraded (101 with the Sec-WebSocket-Accept for its key and the negotiated subprotocol/extensions/headers) exactly if it is a GET with HTTP/1.1+ whose Host, Upgrade, Connection, Sec-WebSocket-Version and Sec-WebSocket-Key headers are valid and every user hook agrees; otherwise the response carries the status belonging to one of the request's violations (or the hook's) and the connection is not upgraded. The outcome does not depend on segmentation, header order or letter case of header names, and the WebSocket handler sees no message before the upgrade.",
  ["inputs", "configurations"], "all combinations of request line, headers (present, missing, invalid, repeated, reordered), hook configuration and segmentation",
  "Tests perform only successful handshakes from one client library.",
  ["plugins/websocket/ws/ws.go", "plugins/websocket/ws/http.go", "plugins/websocket/ws/errors.go", "plugins/websocket/ws/nonce.go", "plugins/websocket/protocol.go"],
  [("Upgrader.Upgrade", "plugins/websocket/ws/ws.go")], [], ["response bytes", "hook calls"])
p("C14", "WebSocket replies: pong for ping, close for close, valid frames, in order",
  "A ping is answered with one pong carrying the same payload, and a close frame with one close frame (echoing a valid status, 1002 for an invalid one) after which the write side is shut down behind everything sent before; neither reaches the message handler. Every message a handler returns or sends is one valid unmasked final frame of the requested type with exactly that payload, and replies follow the order of the frames they answer.",
  ["inputs", "histories", "fault_sequences"], "all sequences of data and control frames, status codes, payload sizes and write conditions",
  "Tests echo text and close once, over an unblocked socket.",
  ["plugins/websocket/wrap.go", "plugins/websocket/ws/util/util.go", "plugins/websocket/ws/write.go", "plugins/websocket/ws/frame.go", "connection.go"],
  [("HandlerWrap.OnMessage", "plugins/websocket/wrap.go"), ("HandleClose/HandlePing", "plugins/websocket/ws/util/util.go"), ("FrameToBytes", "plugins/websocket/ws/frame.go")],
  [], ["bytes the client receives"])
p("C15", "Protobuf framing round-trips every message and survives malformed input",
  "Every message packed with PackMessage is delivered exactly once, in order, with its type name and payload intact, as soon as its last byte has arrived, whatever the segmentation, payload size (including empty type and payload) or batching, and its payload stays as delivered for as long as the handler keeps it. A malformed length never crashes the server, never yields a message (nor does anything behind it), and never affects other connections.",
  ["inputs"], "all message sequences, sizes, type names, segmentations and malformed headers",
  "No test covers the protobuf plugin.",
  ["plugins/protobuf/protocol.go", "plugins/protobuf/protobuf.go"],
  [("Protocol.UnPacket", "plugins/protobuf/protocol.go"), ("PackMessage", "plugins/protobuf/protobuf.go")], [], ["OnMessage arguments"])
p("C16", "ReadBufferLength and WriteBufferLength report the real backlog",
  "Whenever a connection's loop is idle, WriteBufferLength is exactly the number of accepted bytes the socket has not taken yet and ReadBufferLength exactly the number of bytes read but not yet consumed by the protocol. Both are zero on a connection with no backlog and are never negative.",
  ["histories", "schedules"], "all histories of reads, partial frames, sends, replies, short writes and drains",
  "No test looks at the gauges.",
  ["connection.go"], [("HandleEvent / sendInLoop", "connection.go")],
  [("inBufferLen/outBufferLen", "gauges", "connection.go")], ["gauges when all goroutines are blocked"])
p("C17", "The per-connection key-value context behaves like one atomic map",
  "Set, Get and Delete on a connection, from any number of goroutines, behave like operations on one map applied one at a time: Get returns the last value set and not deleted, and says whether there is one. No concurrent use crashes or loses an update, and connections share nothing.",
  ["schedules", "histories"], "all concurrent histories of Set/Get/Delete on few keys",
  "The test is sequential.",
  ["context.go"], [("KeyValueContext", "context.go")], [("kv", "the map", "context.go")], ["call and return of each operation"])
p("C18", "A failing system call costs at most the connection it belongs to",
  "Failures of accept, of making a socket non-blocking, of registering it, of reading, writing or waiting (interrupted or transient) never stop or crash the server and never affect other connections: later connections are accepted and served. A connection that cannot be set up is closed; one that was announced by OnConnect gets its OnClose; would-block results and interrupted waits never end a connection.",
  ["fault_sequences"], "all sequences of failing system calls at every point where one is made",
  "Tests run on a healthy system.",
  ["listener.go", "server.go", "connection.go", "poller/epoll.go", "eventloop/eventloop.go"],
  [("listener.HandleEvent", "listener.go"), ("handleNewConnection", "server.go"), ("Poll", "poller/epoll.go")], [], ["system call results", "callbacks"])
p("C19", "SendInLoop callbacks run once, in order, after their message was handed over",
  "The completion function given with a Send runs at most once, on the loop's goroutine, with the value that was sent, after that message and all earlier ones of the connection have been written or queued and before any later one. It runs exactly once if the connection is still open when the send is carried out, and not at all if it was already closed.",
  ["schedules", "fault_sequences"], "all interleavings of sends with and without completion functions, closes and write conditions",
  "No test uses it.",
  ["connection.go", "connection_options.go"], [("Send", "connection.go"), ("SendInLoop", "connection_options.go")], [], ["callback calls"])
p("C20", "ShutdownWrite delivers what was sent before, then half-closes",
  "After ShutdownWrite on an open connection the peer receives everything sent before the call, then end of stream, however long the output takes to drain; input keeps being read and delivered until the peer closes, and only then is OnClose called. It acts at most on this connection: on a closed one it returns ErrConnectionClosed and does nothing.",
  ["schedules", "fault_sequences", "histories"], "all amounts of pending output, drain patterns, peers that keep sending, and calls from any goroutine at any time",
  "Tests never call it.",
  ["connection.go", "plugins/websocket/wrap.go"], [("ShutdownWrite", "connection.go")], [], ["shutdown(2)", "bytes received"])
p("C21", "A loop with nothing to do waits",
  "Event loops never busy-wait. When a loop has no task to run, none of its connections has input that may be read, room for pending output or an end to be dealt with, and no connection waits to be accepted, the loop is blocked in the kernel's wait and uses no processor time until one of these comes about. Input that waits behind blocked output, however much of it and however the peer behaves, is no work.",
  ["histories", "schedules", "fault_sequences"], "all combinations of blocked, partly and fully drained output, waiting input, half-closed and broken connections, and tasks",
  "A loop that spins gives the right answers: tests that look at results cannot tell.",
  ["connection.go", "poller/epoll.go", "eventloop/eventloop.go"],
  [("sendInLoop / handleWrite", "connection.go"), ("Poll", "poller/epoll.go"), ("EnableWrite / EnableRead", "eventloop/eventloop.go")],
  [("registered interest", "what epoll is asked to report", "poller/epoll.go")], ["epoll_wait calls and results"])
p("C22", "A stopped server and a failed NewServer leave nothing behind",
  "When Stop has returned and Start with it, nothing of the server is left: every descriptor it opened (the listening socket and its duplicate, the pollers, their wake-up descriptors, the connections) is closed, its goroutines have ended, and another server can be created and started at the same address at once. When NewServer cannot create what it needs (a handler, a free descriptor, a system call that succeeds, an unused address), it returns an error and leaves nothing behind either: no descriptor and no goroutine, and the address is not taken. It returns an error only then.",
  ["fault_sequences", "histories"], "all points at which a system call of NewServer can fail, all numbers of loops, and all histories of a server up to Stop",
  "No test makes a system call fail, and none counts what is left after Stop; a leak of a few descriptors per server shows only after many restarts.",
  ["server.go", "listener.go", "eventloop/eventloop.go", "poller/epoll.go"],
  [("NewServer / Stop", "server.go"), ("newListener / close", "listener.go"), ("Create / Close", "poller/epoll.go")],
  [("fd, eventFd", "the poller's descriptors", "poller/epoll.go"), ("listener, file", "the listening socket and its duplicate", "listener.go")], ["NewServer result", "open descriptors and goroutines after Stop", "dial and NewServer at the address"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
