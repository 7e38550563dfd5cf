# The properties: one entry each; "na" marks those which are not claimed.
PROPS = []
NA = []

PATHS = "path-sensitive dataflow and typestate over the SSA form, interprocedural"
LOCKS = "lockset analysis and path-sensitive dataflow over the SSA form"
NOTE = ("Every path of the listed entry points is covered: calls inside the module are followed, loops are covered by one generic "
        "iteration with invariants. Decides the structural rules named in the evidence, which are necessary for the property and were "
        "read as sufficient; assumes the documented behaviour of the standard library and of the libraries behind interfaces.")


def P(id, title, statement, over, quant, tests, files, mech, technique=PATHS, note=NOTE, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files,
                      mech=mech, technique=technique, note=note, **kw))


E2E = "The tests run one echo client against one server over a pipe; they reach "

P("S03", "A server runs the handler of a call at most once",
  "A server-side call invokes the service handler at most once, with the service and method ids of the first accepted start packet. "
  "A further start packet, or one which arrives after the call ended, is answered with an error and changes nothing. "
  "If the start packet carries a message, including an explicitly empty one, that message is the first one the handler receives.",
  ["inputs", "histories", "schedules"], "every sequence of incoming packets and every interleaving with the local side",
  E2E + "only the well-formed sequence with a single start packet.",
  ["srpc/server-rpc.go", "srpc/common-rpc.go"],
  [("the start packet takes the ids of the call under its lock before it starts the handler", "srpc/server-rpc.go HandleCallStart")])

P("S04", "Every handled call is answered by exactly one completing packet",
  "After the handler of a call returned, the server writes exactly one packet which completes the call. "
  "It carries the text of the handler's error, that of the unimplemented error if no handler took the call, and no error text otherwise. "
  "After it the writer of the call is closed and the context of the call is canceled, and not before the handler returned. Closing the stream which the handler got cancels the context of the call as well.",
  ["inputs", "histories", "fault_sequences"], "every result of the handler and every failure of the writer",
  E2E + "handlers which succeed and one canceled call.",
  ["srpc/server-rpc.go", "srpc/common-rpc.go"],
  [("the handler goroutine", "srpc/server-rpc.go invokeRPC")])

P("S05", "The shared state of a call is only touched under its lock",
  "The queued messages, the end flag and the outcome of a call are only read or changed while the lock of that call is held, and its writer, service and method are only changed while it is held. "
  "The lock is released on every path, and never taken again by the path which holds it.",
  ["schedules"], "every interleaving of the goroutines which use a call",
  "The race detector only sees the schedules of the tests, which use each call from few goroutines.",
  ["srpc/common-rpc.go", "srpc/client-rpc.go", "srpc/server-rpc.go"],
  [("critical sections of the broadcast", "srpc/common-rpc.go")], technique=LOCKS)

P("S06", "No wake-up of a call is lost and every wait can be canceled",
  "Whoever waits for a message or for the end of a call is woken by every change which it waits for: a wait is only entered on a state seen together with its wait channel, and every change of the state notifies. "
  "A wait also ends when the context of the call, and that of the waiting caller if it has one, is canceled, and is then not entered again. "
  "Waiting for the end of a call does not end it, and only returns with the outcome of the call, or with an error once the call or the caller's context ended.",
  ["schedules"], "every interleaving of readers, waiters and incoming packets",
  "A lost wake-up needs a particular interleaving between looking at the state and waiting; the tests do not control it.",
  ["srpc/common-rpc.go", "srpc/client-rpc.go", "srpc/server-rpc.go"],
  [("wait channel taken in the same critical section; broadcast with each change", "srpc/common-rpc.go ReadOne, Wait")], technique=LOCKS)

P("S07", "Messages of a call are delivered in order, exactly once, before its outcome",
  "Reading from a call returns the queued messages in the order they arrived, each exactly once and unchanged. "
  "Messages which arrived are delivered before the end or the error of the call is reported, an error is reported as that error, and a completed call without one ends with the end-of-stream error. "
  "A reader which finds the context of its call canceled reports that and ends the call: what arrives later is refused.",
  ["histories", "schedules", "inputs"], "every sequence of packets and reads",
  E2E + "a handful of messages on one schedule.",
  ["srpc/common-rpc.go"],
  [("queue of the call, looked at before the outcome", "srpc/common-rpc.go ReadOne")])

P("S08", "An incoming data packet is queued, ends the call or fails it as it says",
  "A data packet which arrives at a call that has not ended queues its message if it carries one, including an explicitly empty one, records its error text as the outcome, and ends the call if it is marked complete or carries an error. "
  "A message which carries no data and is not marked empty is not delivered. A packet which arrives after the end is refused and changes nothing.",
  ["inputs", "histories"], "every data packet in every state of the call",
  E2E + "packets with a message or with the completion mark, not the other combinations.",
  ["srpc/common-rpc.go"],
  [("handling of data packets", "srpc/common-rpc.go HandleCallData")])

P("S10", "The end of a stream ends its calls and cancel reaches the other side",
  "When the underlying stream of a call ends, the call ends: its waiters are woken and its context is canceled, whether or not it was started, and a server call also closes its writer. "
  "Closing a started client call sends a cancel packet to the server, ends the call, and releases its context and writer; closing one which was not started releases its context. "
  "An incoming cancel packet ends the call with the canceled error.",
  ["histories", "fault_sequences", "schedules"], "every state of a call in which its stream ends or it is closed",
  E2E + "one cancel by the client on a running call.",
  ["srpc/common-rpc.go", "srpc/client-rpc.go", "srpc/server-rpc.go"],
  [("stream close handlers and Close", "srpc/common-rpc.go HandleStreamClose, HandleCallCancel, srpc/client-rpc.go Close")])

P("S11", "The first outcome of a call is final",
  "Once a call ended it stays ended, and the outcome recorded first is never replaced: a later error of the stream does not turn a completed call into a failed one, nor the other way round, and a call which its own side ends before the other side completed it never looks completed. "
  "A message is never queued after the end.",
  ["histories", "schedules"], "every sequence of packets, stream errors and local closes",
  E2E + "calls which end once.",
  ["srpc/common-rpc.go"],
  [("the end flag and outcome are only set while the call has not ended", "srpc/common-rpc.go")])

P("S14", "Invalid packets are refused without effect, valid ones have their own effect",
  "Data which can not be decoded, a packet of unknown kind, a start packet without service or method id, and a data packet which carries neither message, error nor completion are answered with an error and change nothing. "
  "Every other packet has the effect of its kind only: a start packet starts a server call and is refused by a client call, a data packet is queued, and a cancel packet ends the call if its flag is set.",
  ["inputs"], "every packet and every byte string received",
  E2E + "valid packets only.",
  ["srpc/packet.go", "srpc/common-rpc.go", "srpc/client-rpc.go", "srpc/server-rpc.go"],
  [("validation before dispatch", "srpc/packet.go Validate, HandlePacket of both sides")])

P("S01", "A written packet is its length prefix and its bytes, complete or an error",
  "Writing a packet puts exactly the four byte little-endian length of its encoding and the encoding itself onto the stream, in one piece per packet which no other writer of the same connection interleaves. "
  "A short write of the transport is continued where it stopped until every byte is written, and an error of the encoding or of the transport, or a write which makes no progress, is returned. "
  "Success is only reported once every byte was written. Closing the writer closes the stream.",
  ["inputs", "fault_sequences", "schedules"], "every packet, every pattern of short writes, and concurrent writers",
  "The tests write small packets to a pipe which takes each write whole.",
  ["srpc/packet-rw.go"],
  [("packet writer", "srpc/packet-rw.go WritePacket")])

P("S02", "The packet reader reproduces the packets of a stream however it is split",
  "However the bytes of the stream are split into reads, the reader hands on the packets in order, each exactly once, complete and unchanged, as soon as it is buffered. "
  "A length prefix of zero or above the maximum, an error of the handler and an error of the stream end it with an error; a stream which ends in the middle of a packet is not a success. "
  "The close handler is called exactly once, with the result, after the last packet was handled.",
  ["inputs", "histories", "fault_sequences"], "every byte stream and every way to split it into reads",
  "The tests read well-formed packets as the peer wrote them, not split or merged, and no broken ones.",
  ["srpc/packet-rw.go"],
  [("packet reader and read pump", "srpc/packet-rw.go ReadToHandler, ReadPump")])

P("S09", "Outgoing packets say exactly what was asked for",
  "A data packet of a call carries the message, marks an empty message as one unless the packet completes the call or carries an error, is complete if asked for or if it carries an error, and carries the text of that error. "
  "Starting a client call sends one start packet with the ids of the call and, only if one was given, the first message, marked if it is empty. "
  "The result of the writer is returned. A start which fails, or happens after the context of the call was canceled, releases the writer and the context; a start without a writer is refused.",
  ["inputs", "fault_sequences"], "every message, flag and error, and every failure of the writer",
  E2E + "non-empty messages, no failing writers and no canceled starts.",
  ["srpc/common-rpc.go", "srpc/client-rpc.go", "srpc/packet.go"],
  [("construction of packets", "srpc/packet.go NewCallDataPacket, NewCallStartPacket, NewCallCancelPacket"), ("start of a client call", "srpc/client-rpc.go Start")])

P("S12", "A unary call returns the decoded reply or an error, and releases its stream",
  "ExecCall opens one stream, starts the call with the encoded request as its first message (also if it is empty), reads one message and decodes it into the output. "
  "It succeeds only if a reply was received and decoded; every failure of encoding, opening, starting, reading and decoding is returned. "
  "Whatever the result, the call is closed once it returns, and both packets and the end of the stream are delivered to the call while it runs.",
  ["inputs", "fault_sequences"], "every request, reply and failure of the steps in between",
  E2E + "successful replies and an aborted call.",
  ["srpc/client.go"],
  [("unary calls", "srpc/client.go ExecCall")])

P("S13", "A new stream is started with its first message and owns its call",
  "NewStream opens one stream and starts the call with the first message if there is one, and none otherwise. "
  "If any step fails the error is returned and the context of the call is released. "
  "The returned stream carries the context of the call, delivers its messages, and closing it releases the context and the writer.",
  ["inputs", "fault_sequences", "histories"], "every first message and every failing step",
  E2E + "streams which start successfully.",
  ["srpc/client.go", "srpc/msg-stream.go"],
  [("streaming calls", "srpc/client.go NewStream")])

P("S15", "Fallback invokers are tried in order until one takes the call",
  "A list of invokers, and the fallbacks of a mux, are tried from the first to the last. The ones which are nil are skipped, each other one gets the ids and the stream unchanged at most once, and the first which takes the call or fails decides the result. "
  "A mux has exactly the fallbacks it was made with. The call is reported as not found, without an error, only after all of them were tried. A nil invoker function takes no call.",
  ["inputs", "histories"], "every list of invokers and every combination of results",
  "The tests register one service on one mux without fallbacks.",
  ["srpc/invoker.go", "srpc/mux.go"],
  [("invoker lists", "srpc/invoker.go InvokeMethod, srpc/mux.go InvokeMethod")])

P("S16", "A client set tries its clients in order until one implements the call",
  "The clients of a set are tried from the first to the last, nil ones are skipped, and each gets the call unchanged. The first success is returned. "
  "The next client is only tried after one failed with the unimplemented error, or was canceled although the context of the caller is live; any other error is returned at once. "
  "With no client the result is the error that no client is available, and after all were tried in vain the unimplemented error.",
  ["inputs", "histories"], "every list of clients and every combination of their results",
  "No test uses a client set.",
  ["srpc/client-set.go"],
  [("client sets", "srpc/client-set.go execCall")])

P("S17", "The mux dispatches a call to the handler registered for it and no other",
  "A call with a service id is handed exactly once, unchanged, to the handler registered for that service and method, and its result is returned; with an empty service id any service with the method is used. Fallbacks are only tried if no handler is registered. "
  "Register enters the handler under each non-empty method id it lists and drops no other registration, also not one made at the same time, and refuses an empty service id without effect. "
  "HasService and HasServiceMethod tell whether such a registration exists.",
  ["inputs", "histories"], "every sequence of registrations and every pair of ids",
  "The tests register one service and call the methods it has.",
  ["srpc/mux.go"],
  [("dispatch and registration", "srpc/mux.go InvokeMethod, Register, HasService, HasServiceMethod")])

P("S18", "The registrations of a mux are guarded by its lock, handlers run without it",
  "The registered services of a mux are only read while its lock is held and only changed while it is held for writing. The lock is released on every path and never taken twice. "
  "No call is invoked while it is held, so a handler may use the mux and calls do not wait for each other.",
  ["schedules"], "every interleaving of registrations, queries and calls",
  "The tests register before they call, so that no schedule has both at once.",
  ["srpc/mux.go"],
  [("critical sections of the mux", "srpc/mux.go")], technique=LOCKS)

P("S19", "Prefix wrappers forward exactly the matching calls with the prefix stripped",
  "The first prefix of the list which the service id starts with is stripped from it, and everything else of the call is passed on unchanged, exactly once, with the result returned. "
  "A call without a matching prefix is not passed on: the client fails with the unimplemented error, the invoker reports it as not found. Without prefixes the service id is not changed.",
  ["inputs"], "every service id and list of prefixes",
  "No test uses prefixes.",
  ["srpc/strip-prefix.go", "srpc/client-prefix.go", "srpc/invoker-prefix.go"],
  [("prefix matching", "srpc/strip-prefix.go CheckStripPrefix"), ("wrappers", "srpc/client-prefix.go, srpc/invoker-prefix.go")])

P("S20", "Logging and closing wrappers are transparent",
  "The logging client and the logging mux pass every call on to what they wrap exactly once, with the same arguments, and return its results unchanged, whether or not they log. "
  "A stream or packet writer with a close function behaves like what it wraps, except that closing it closes the wrapped object and runs the function, each exactly once whatever the other returns, and the first error is returned.",
  ["inputs", "fault_sequences"], "every call and every result of the wrapped object",
  "No test uses the wrappers.",
  ["srpc/client-verbose.go", "srpc/mux-verbose.go", "srpc/stream.go", "srpc/writer.go"],
  [("wrappers", "srpc/client-verbose.go, srpc/mux-verbose.go, srpc/stream.go NewStreamWithClose, srpc/writer.go NewPacketWriterWithClose")])

P("S21", "A message stream sends and receives each message whole, once, or fails",
  "Sending on a stream writes exactly one data packet with the encoding of the message, also if that is empty, and fails without writing if the context of the stream is canceled or the message can not be encoded. "
  "Receiving reads one message and decodes it, and returns the error of reading or decoding. "
  "Closing the sending side writes one completing packet without a message; closing the stream writes a cancel and runs its close function, whatever the write returns.",
  ["inputs", "fault_sequences"], "every message and every failure of the writer and reader",
  E2E + "non-empty messages on a live stream.",
  ["srpc/msg-stream.go"],
  [("message stream", "srpc/msg-stream.go MsgSend, MsgRecv, CloseSend, Close")])

P("S22", "A raw message carries exactly the bytes it was given",
  "After SetData or UnmarshalVT the message holds the given bytes, of any length and whatever it held before: in a buffer of its own if it copies, the given buffer otherwise. GetData and SizeVT tell them, "
  "MarshalVT returns them (in new memory if the message copies), MarshalToSizedBufferVT writes all of them into a buffer of exactly that size and fails for any other.",
  ["inputs", "histories"], "every sequence of byte strings which are set",
  "The test sets one message once.",
  ["srpc/message.go"],
  [("raw message", "srpc/message.go RawMessage")])

P("S23", "Byte streams over message streams deliver every byte once and in order",
  "Reading from a StreamRwc or RpcStreamReadWriter delivers the bytes of the received messages completely and in order, however they are cut into messages and however small the buffers given to Read are: what does not fit is kept for the next Read, "
  "the number returned is the number delivered, nothing is waited for once bytes were delivered, and errors of the stream are returned. Writing sends the given bytes exactly once in one message and reports all of them written exactly if sending succeeded.",
  ["inputs", "histories", "fault_sequences"], "every sequence of messages, buffer sizes and errors",
  "No test uses these adapters.",
  ["srpc/stream-rwc.go", "rpcstream/read-writer.go"],
  [("byte streams", "srpc/stream-rwc.go, rpcstream/read-writer.go")])

P("S24", "Opening a component stream names the component and honours the ack",
  "Opening a stream to a remote component starts the call once, with the context of the caller, and sends a packet which names the component as the first one and nothing else; if an acknowledgment is asked for, exactly one packet is received before the stream is returned. "
  "The stream is returned exactly if every step succeeded and that packet is an acknowledgment without an error; any other outcome is returned as an error with the text the remote sent, and the stream is closed. "
  "If it is opened for a client, everything received later goes to the packet handler of the call, and the end of the stream to its close handler, once, with the error.",
  ["inputs", "fault_sequences"], "every component id, every first packet of the remote and every failure",
  "The test opens one component which exists, over streams which do not fail.",
  ["rpcstream/rpcstream.go", "rpcstream/read-writer.go"],
  [("init and ack", "rpcstream/rpcstream.go OpenRpcStream"), ("client streams", "rpcstream/rpcstream.go NewRpcStreamOpenStream")])

P("S25", "A component stream is looked up, acknowledged and served once",
  "A component stream is served only after its first packet named the component, and by what the lookup for that name with the context of the stream returned; exactly one acknowledgment is sent, with the text of the error if the lookup failed or found nothing, and that error is returned. "
  "After a successful acknowledgment everything received goes to one server call with that component, the end of the stream ends it, and the handler returns its outcome. "
  "What the lookup returned to release is released exactly once on every path, and after everything else.",
  ["inputs", "fault_sequences"], "every first packet, every result of the lookup and every failure of the stream",
  "The test opens one component which exists.",
  ["rpcstream/rpcstream.go"],
  [("handler", "rpcstream/rpcstream.go HandleRpcStream")])

P("S26", "A raw component stream copies both ways, closes both and reports errors",
  "A raw stream is connected to what the lookup for the component it names returned, after one acknowledgment which tells the error if there is one. "
  "Then the bytes of each side are copied to the other; when one direction ends both sides are closed, and the handler returns after both ended, with the first error other than the end of the data. "
  "The connection is closed and what the lookup returned to release is released once on every path.",
  ["inputs", "fault_sequences"], "every first packet, every result of the lookup and every failure of either side",
  "No test uses raw streams.",
  ["rpcstream/raw-stream.go"],
  [("handler", "rpcstream/raw-stream.go HandleRawRpcStream"), ("copying", "rpcstream/raw-stream.go copyRwcTo")])

P("S27", "A proxied component stream forwards every packet and both ends",
  "A proxied stream starts the remote call which the lookup for its component returned, with the context of the stream, and sends the component id the lookup returned as the first packet; if this fails one acknowledgment with the error is sent, and otherwise none, as that of the remote is passed on. "
  "Then every non-empty packet received from either side is sent to the other one unchanged, once and in order, until an error or the end; the handler returns after both directions ended, with the first error other than the end of the stream. "
  "The remote stream is closed and what the lookup returned to release is released once on every path.",
  ["inputs", "fault_sequences"], "every sequence of packets, every result of the lookup and every failure of either side",
  "No test uses the proxy.",
  ["rpcstream/proxy.go"],
  [("handler", "rpcstream/proxy.go HandleProxyRpcStream"), ("copying", "rpcstream/proxy.go copyRpcStreamTo")])

P("S28", "Packets pass through a component stream whole, in order and once",
  "The data of every packet which arrives on a component stream is given to the packet handler unchanged, once and in order, packets without data are skipped, and reading ends only with an error of the stream or the handler, which the close handler gets once. "
  "Writing sends the encoding of the packet in exactly one data packet and returns the error of encoding or sending. "
  "Closing the writer ends the sending side only.",
  ["inputs", "histories", "fault_sequences"], "every sequence of packets and every failure",
  "The test passes one call through a component stream.",
  ["rpcstream/read-writer.go", "rpcstream/writer.go"],
  [("reading", "rpcstream/read-writer.go ReadToHandler, ReadPump"), ("writing", "rpcstream/writer.go RpcStreamWriter")])

P("S29", "Muxed connections take opposite roles and streams open on them",
  "A connection is muxed by one session on it, which is the initiating side exactly if the connection is outbound: a dialed connection is, an accepted one and the server side of a websocket are not; the given configuration is used unchanged, or a fresh default, and an error of dialing or of the session is returned. "
  "A client made of a connection opens each stream on that connection with the context of the caller, and fails with the error of opening it, or with context.Canceled if the context ended. "
  "An opened stream is read in the background into the packet handler of the call until it ends, which the close handler is told once, and the writer writes to that stream.",
  ["inputs", "configurations", "fault_sequences"], "every connection, role, configuration and every failure",
  "The tests mux one in-memory pipe; they never dial, accept, or fail.",
  ["srpc/muxed-conn.go", "srpc/net.go", "srpc/websocket.go"],
  [("session roles", "srpc/muxed-conn.go NewMuxedConn"), ("opening streams", "srpc/muxed-conn.go NewOpenStreamWithMuxedConn"), ("dialing", "srpc/net.go Dial")])

P("S30", "Accept loops serve every connection and stream and end only for a reason",
  "Every accepted connection is served as the accepting side, and every accepted stream handled once with the server and the context, each in a goroutine of its own, so that the loop goes on; connections are closed after they were served or if they can not be. "
  "The loops end exactly with the error of accepting, the end of the context or the end of the connection, and listening returns the first reason to stop and closes the listener on every return. "
  "A handled stream is one call of the server's handler whose context ends with the stream, which gets everything received and the end of the stream, and which writes to that stream; a server pipe does the same over a new in-memory pipe for each call.",
  ["inputs", "schedules", "fault_sequences"], "every sequence of connections, streams and failures",
  "The tests accept one connection over an in-memory pipe.",
  ["srpc/accept.go", "srpc/server.go", "srpc/net.go", "srpc/server-pipe.go"],
  [("connections", "srpc/accept.go AcceptMuxedListener"), ("streams", "srpc/server.go AcceptMuxedConn, HandleStream"), ("listening", "srpc/net.go Listen"), ("in-memory", "srpc/server-pipe.go NewServerPipe")])

P("S31", "The HTTP server serves exactly the requests for its path",
  "A websocket is accepted exactly if the server has no path or the request is for it, and nothing is served if it is refused. "
  "It is the accepting side of a session in which every stream is handled once by the given handlers with the context of the request, in a goroutine of its own, until accepting fails. "
  "The websocket is closed on every return.",
  ["inputs", "configurations", "fault_sequences"], "every request, path and failure",
  "No test of the Go side uses the HTTP server.",
  ["srpc/server-http.go", "srpc/websocket.go"],
  [("handler", "srpc/server-http.go ServeHTTP"), ("constructor", "srpc/server-http.go NewHTTPServer")])

P("S32", "A connection over a byte stream loses, repeats and reorders nothing",
  "Every byte read from the underlying stream by a RwcConn is delivered by Read once and in order, before the error which ended the stream is reported, whatever the size of the output is, and no buffer is used by two owners. "
  "A read which ends without data fails with the error which ended the stream (io.EOF if none), with context.Canceled only if the connection was closed, and with os.ErrDeadlineExceeded only if a deadline passed while it was not; it waits at most until the deadline last set for reads when it began to wait, and deadlines may be set while it is used. "
  "A write passes every byte on once and in order or reports how many were written with the error, and closing ends the context and closes the stream. "
  "The addresses it reports are those it was given.",
  ["inputs", "schedules", "fault_sequences"], "every stream, chunking, output size, deadline and failure",
  "No test uses RwcConn.",
  ["srpc/rwc-conn.go"],
  [("receiving", "srpc/rwc-conn.go rxPump, getArenaBuf"), ("reading", "srpc/rwc-conn.go Read"), ("writing", "srpc/rwc-conn.go Write, Close")])

P("S33", "The in-memory stream passes every message on once, until it ends",
  "The two ends of NewPipeStream are connected with each other: a message whose send succeeds is encoded and queued once for the other end, and a receive takes one message, decodes it once and returns the result of decoding. "
  "After an end was closed it sends nothing, and the other end gets all that was queued before it gets io.EOF; a send or receive which waits ends if the stream ends. "
  "Closing the sending side leaves the other direction alone, closing ends the context, and both may be called any number of times.",
  ["inputs", "schedules"], "every sequence of sends, receives and closes on both ends",
  "The tests run one exchange over it and never send after a close or receive what is left.",
  ["srpc/stream-pipe.go"],
  [("ends", "srpc/stream-pipe.go NewPipeStream"), ("messages", "srpc/stream-pipe.go MsgSend, MsgRecv"), ("closing", "srpc/stream-pipe.go Close, CloseSend")])

P("S34", "A generated handler runs exactly the method of the service that was called",
  "The handler generated for a service takes a call exactly if it is for its service id (the one of the schema unless another is given) or for none, and the service has the method; it then calls exactly the method of the implementation with that name, once, and lists exactly the methods of the service. "
  "A single request is received into a new message before the method runs, a unary method runs with the context of the stream, a streaming one with the stream, a single reply is sent exactly once if the method succeeded, and every error is returned. "
  "The typed streams given to the implementation have every method of their kind, and send, receive and close exactly what they say.",
  ["inputs", "fault_sequences"], "every method, service id, method id and failing step, of every service in the repository",
  "The tests call some of the methods and no step of theirs fails.",
  ["echo/echo_srpc.pb.go", "mock/mock_srpc.pb.go", "echo/echo.proto", "mock/mock.proto"],
  [("generated handlers", "echo/echo_srpc.pb.go SRPCEchoerHandler, mock/mock_srpc.pb.go SRPCMockHandler"), ("schema", "echo/echo.proto, mock/mock.proto")])

P("S35", "A generated client makes exactly the call it is named after",
  "Each method of a client generated for a service makes exactly one call, of the method with its name in the service of the schema (or with the service id the client was made with), with the context and the request of the caller. "
  "A unary method returns the reply decoded into a new message; a streaming one returns the typed stream of the call, on which sending was closed if there is only a single request. Every error is returned. "
  "What the caller gets has every method: the client those of the schema, the typed streams those of their kind; they send, receive and close exactly what they say.",
  ["inputs", "fault_sequences"], "every method, request and failing step, of every service in the repository",
  "The tests call some of the methods and no step of theirs fails.",
  ["echo/echo_srpc.pb.go", "mock/mock_srpc.pb.go", "echo/echo.proto", "mock/mock.proto"],
  [("generated clients", "echo/echo_srpc.pb.go srpcEchoerClient, mock/mock_srpc.pb.go srpcMockClient"), ("schema", "echo/echo.proto, mock/mock.proto")])

P("S36", "Messages are encoded exactly as their schema says",
  "The Go type of every message of the wire protocol has exactly the fields of its .proto schema. "
  "Encoding writes every field which is set (which has not the zero value, or is the set case of a oneof), and none else, exactly once, with the tag of its number and wire type and its length, bit for bit, followed by the unknown fields which were decoded; nested messages are encoded whole. "
  "The size reported for a message is exactly the number of bytes written, every write is inside of the buffer, MarshalVT returns exactly the encoding and every failure of encoding is returned.",
  ["inputs"], "every message of every type with every combination of fields, lengths and numbers",
  "The tests encode a handful of messages and read them with the same code, so that a mistake on both sides, or with long content or an unset field, passes.",
  ["srpc/rpcproto.pb.go", "rpcstream/rpcstream.pb.go", "echo/echo.pb.go", "mock/mock.pb.go", "srpc/rpcproto.proto", "rpcstream/rpcstream.proto"],
  [("encoders", "srpc/rpcproto.pb.go, rpcstream/rpcstream.pb.go: SizeVT, MarshalVT, MarshalToSizedBufferVT"), ("schema", "srpc/rpcproto.proto, rpcstream/rpcstream.proto")])

P("S37", "Decoding accepts exactly the encodings, loses nothing, stays inside the input",
  "Decoding reads one tag after the other, each as a number of up to ten bytes, and stores the content of a field which the schema has, and only it, in exactly this field or oneof, in memory of its own; a message in the same oneof is continued, and fields which the schema does not have are kept as they came. "
  "No access is outside of the input whatever lengths, tags and numbers it has (including sums which overflow), and every round makes progress. "
  "Decoding succeeds only when all of the input was used, and fails only for input which ends early, has an illegal number, tag or wire type, or a nested message which fails.",
  ["inputs"], "every sequence of bytes, for every message type",
  "The tests decode what the encoder wrote; hostile, truncated, unknown and repeated input is never decoded.",
  ["srpc/rpcproto.pb.go", "rpcstream/rpcstream.pb.go", "echo/echo.pb.go", "mock/mock.pb.go", "srpc/rpcproto.proto", "rpcstream/rpcstream.proto"],
  [("decoders", "srpc/rpcproto.pb.go, rpcstream/rpcstream.pb.go: UnmarshalVT"), ("schema", "srpc/rpcproto.proto, rpcstream/rpcstream.proto")])

P("S38", "Copies, comparisons and accessors of messages agree with their fields",
  "CloneVT (also through the interfaces of the library) returns a new message with equal content in every field, oneof and the unknown fields, which shares no memory with the original; nil clones to nil. "
  "EqualVT is true exactly if all fields, the oneofs and the unknown fields are equal. "
  "Every getter returns the field it is named after, or the zero value if the message is nil or another case of the oneof is set; Reset clears the message.",
  ["inputs"], "every pair of messages of every type",
  "The tests compare a few messages and never change a copy.",
  ["srpc/rpcproto.pb.go", "rpcstream/rpcstream.pb.go", "echo/echo.pb.go", "mock/mock.pb.go"],
  [("copies", "CloneVT, CloneMessageVT, CloneOneofVT of each message"), ("comparisons", "EqualVT, EqualMessageVT"), ("getters", "Get*, Reset")])
P("S39", "The generator of Go code makes correct code for every service",
  "For every file it is asked to generate which has services, the Go generator makes one file with the suffix _srpc.pb.go in the package of the file, and none for other files. "
  "For every service, whatever number of methods of each kind it has and wherever their messages are declared, the text compiles (as long as no name of the schema is one the generated code uses itself), "
  "and the handler and client in it run and call exactly the methods of the service, under the names and with the message types of the schema: what S34 and S35 say of generated code holds of it. "
  "It declares support for optional fields.",
  ["inputs"], "every schema: any services, methods of the four kinds, message types of any package, comments",
  "No test runs the generator; the code in the repository was made by an earlier version and covers two schemas.",
  ["cmd/protoc-gen-go-starpc/main.go"],
  [("files", "main, generatePluginFile"), ("server side", "generateService, generateServerMethod, generateServerSignature"), ("client side", "generateClientMethod, generateClientSignature")],
  "abstract interpretation of the generator's SSA over symbolic schemas to extract the text it emits, which is type-checked and decided by path-sensitive dataflow")

TSTECH = "abstract interpretation of the TypeScript syntax trees, path-sensitive, with the job order of the language"
TSNOTE = ("Every control-flow path of the listed functions is followed over abstract values (any non-empty string, any bytes, any error, any message), "
          "for scenarios which cover the classes of inputs, environment results and their order; numbers which repeated steps change are widened. "
          "Assumes the documented behaviour of the language, the browser interfaces and the npm packages, which are modelled in ts/.")


def T(*a, **kw):
    P(*a, technique=TSTECH, note=TSNOTE, **kw)


T("S40", "TypeScript: incoming packets drive a call exactly as the protocol says",
  "A call of the TypeScript side (CommonRPC, ServerRPC, ClientRPC) looks up the method once when its start with both ids arrives and invokes it once, if it was found, with the messages of the call and a sink for the responses. "
  "The message of every start and data packet is delivered once, in order and unchanged, an empty one exactly if the packet says so; the messages end with the error of the other side, or cleanly when it completes or the packet stream ends, and not before. "
  "A cancel, a failure of the packet stream or of the lookup, and whatever violates the protocol (data before the start, a second start, a start from a server, empty ids, bytes which are no packet) close the call: the other side is told the error, and both directions end. "
  "Packets are handled one after the other, and handling one never fails.",
  ["inputs", "histories", "fault_sequences"], "every packet in every state of a call, each result of the lookup and each end of the packet stream",
  "No TypeScript test runs here; the test in the repository makes four well-formed calls.",
  ["srpc/common-rpc.ts", "srpc/server-rpc.ts", "srpc/client-rpc.ts"],
  [("packets", "srpc/common-rpc.ts handlePacket, handleMessage, handleCallData, pushRpcData, sink"), ("start", "srpc/server-rpc.ts handleCallStart, srpc/client-rpc.ts handleCallStart")])

T("S41", "TypeScript: a call sends exactly what was written, in order, and ends once",
  "The start of a TypeScript call is one packet with its service, method and first message; a message is one packet with exactly this message (the flag of an empty message exactly if it is empty, and no message if there is none), and the completion and error which were asked for. "
  "Packets go out once, in the order of the writes; the messages of a source are sent as they come, followed by a completion, or by closing the call with the error of the source. "
  "Closing sends one packet, the error with the completion or else a cancel, ends both directions, and does so once, however often and from wherever it is called; isClosed says with which error. A call without a service or a method is not started.",
  ["inputs", "histories", "fault_sequences"], "every message, flag and error, every order of writes and closes",
  "No TypeScript test runs here; the test in the repository sends non-empty messages and never closes a call twice.",
  ["srpc/common-rpc.ts", "srpc/client-rpc.ts"],
  [("writes", "srpc/common-rpc.ts writeCallData, writeCallCancel, writeCallDataFromSource"), ("start", "srpc/client-rpc.ts writeCallStart"), ("closing", "srpc/common-rpc.ts close")])

T("S42", "TypeScript: a method runs once on its requests and is answered exactly",
  "The function made for a method of a service (createInvokeFn), run by a server call, calls the implementation exactly once: a method with a single request with the first message, decoded, one with a stream of requests with the stream of all of them, which ends or fails as the requests do. "
  "Each response is sent once, encoded and in order, as it comes; then exactly one packet completes the call. "
  "When the implementation fails at any time, a response is missing or can not be encoded, or there is no request or none which can be decoded, exactly one packet completes the call with the error. After a cancel nothing more is sent.",
  ["inputs", "fault_sequences", "schedules"], "every method kind, result of the implementation and order of events",
  "No TypeScript test runs here; the test in the repository has implementations which succeed.",
  ["srpc/invoker.ts", "srpc/server-rpc.ts", "srpc/message.ts", "srpc/pushable.ts"],
  [("invocation", "srpc/invoker.ts createInvokeFn"), ("responses", "srpc/server-rpc.ts invokeRPC, _createDataSink; srpc/pushable.ts writeToPushable")])

T("S43", "TypeScript: a mux finds exactly the methods which were registered",
  "A method is found in a static mux exactly if a handler was registered which has its ids, whatever the ids are, and the one registered last is asked; otherwise, and if the handler has nothing, the lookup functions are asked in order until one has it. Failures are passed on, a handler without a service id is refused. "
  "A static handler has exactly the methods it was made with, under its service id or none; the handler of a definition has exactly those methods of it which the implementation has, and runs them with the implementation as receiver.",
  ["inputs", "histories"], "every set of handlers and lookup functions and every pair of ids, including names of built-in properties",
  "No TypeScript test runs here; the test in the repository looks up the four methods of one service.",
  ["srpc/mux.ts", "srpc/handler.ts"],
  [("mux", "srpc/mux.ts StaticMux"), ("handlers", "srpc/handler.ts StaticHandler, createHandler")])

T("S44", "TypeScript: a client request is one call and delivers exactly its outcome",
  "Each request of the TypeScript client opens one stream, sends one start with its service, method and single request, and sends a stream of requests in order with one completion, or closes the call with the error of the stream. "
  "The response, or each response in order, is delivered unchanged, also an empty one; a single response which is missing, the error of the server, of the stream or of opening it is the error of the request. "
  "An aborted request fails with the abort error, and starts nothing if it was aborted before its stream was there. "
  "However a request ended, what it sends has ended too. Requests wait for the function to open streams and use the one which was set last.",
  ["inputs", "histories", "fault_sequences"], "the four kinds of requests, each class of message, each way to fail and each time of an abort",
  "No TypeScript test runs here; the test in the repository makes requests which succeed and aborts one.",
  ["srpc/client.ts", "srpc/client-rpc.ts", "srpc/common-rpc.ts", "srpc/open-stream-ctr.ts", "srpc/value-ctr.ts"],
  [("requests", "srpc/client.ts request, clientStreamingRequest, serverStreamingRequest, bidirectionalStreamingRequest"), ("starting", "srpc/client.ts startRpc")])

T("S45", "TypeScript: packets survive the framing of a byte stream, however it is cut",
  "Each packet is written to a byte stream as its length, a number of four bytes with the lowest first, followed by its bytes, also an empty packet; in order and once. "
  "For every way to cut the stream into pieces, also within a length, each packet is read exactly once, unchanged and in order, as soon as its last byte has arrived; a stream which ends within a packet, or fails, is an error and not an end. "
  "The numbers are written and read so for every value up to 2^32-1. A stream used as a packet stream has this framing in both directions and is closed when what is written into it ends or fails. "
  "Message transforms convert each message once and in order, also in arrays; a queue gets what its source has and ends or fails as it does.",
  ["inputs", "histories", "fault_sequences"], "two packets of any lengths and bytes, every pair of places to cut the stream, every place where it may end",
  "No TypeScript test runs here; the test in the repository sends small packets, which arrive in one piece.",
  ["srpc/packet.ts", "srpc/stream.ts", "srpc/array-list.ts", "srpc/message.ts", "srpc/pushable.ts"],
  [("framing", "srpc/packet.ts lengthPrefixEncode, lengthPrefixDecode, uint32LEEncode, uint32LEDecode, encodeUint32Le, decodeUint32Le, prependPacketLen"), ("streams", "srpc/stream.ts streamToPacketStream"), ("messages", "srpc/message.ts, srpc/pushable.ts, srpc/array-list.ts")])

T("S46", "TypeScript: a packet stream over a call is opened, answered and carried exactly",
  "Opening a TypeScript packet stream over a call makes one call and sends its component id first. With an ack to wait for, the stream is there exactly when the first packet is an ack without an error; the error of the remote, another packet, an end or a failure is the error of opening, and ends the call. "
  "Handling one looks up the handler once, with the id in the first packet, and answers with exactly one ack before anything else, without an error exactly if there is a handler; the handler gets the stream once, and the call ends as it does. A call which does not start with an id is an error. "
  "On the stream, in both directions, each array is carried once, in order and unchanged, also an empty one, and ends and failures are passed on.",
  ["inputs", "histories", "fault_sequences"], "every first packet, every result of the lookup and the handler, every order of packets and ends",
  "No TypeScript test runs here; the test in the repository opens streams which are accepted.",
  ["rpcstream/rpcstream.ts"],
  [("opening", "rpcstream/rpcstream.ts openRpcStream, buildRpcStreamOpenStream"), ("handling", "rpcstream/rpcstream.ts handleRpcStream"), ("stream", "rpcstream/rpcstream.ts RpcStream")])

T("S47", "TypeScript: who waits for a value gets it once, and errors are recognised",
  "A container of a value has the value it was made with or which was set last, also one which is falsy. Who waits gets the value at once if there is one, and otherwise the first which is set, exactly once, also after the value was taken away and when a callback waits again. "
  "The functions of the containers of functions to open and to handle streams wait for the function, call the one which is there then with what they were given and return its result or failure. "
  "Exactly an object with the text of the abort or the idle error is recognised as that error, no value makes the question fail, and anything thrown is cast to an error with a text, an error to itself.",
  ["inputs", "histories"], "every history of up to three operations with any values, every thrown value",
  "No TypeScript test runs here; the test in the repository sets each function once, before it is used.",
  ["srpc/value-ctr.ts", "srpc/open-stream-ctr.ts", "srpc/handle-stream-ctr.ts", "srpc/errors.ts"],
  [("containers", "srpc/value-ctr.ts, srpc/open-stream-ctr.ts, srpc/handle-stream-ctr.ts"), ("errors", "srpc/errors.ts isAbortError, isStreamIdleError, castToError")])

T("S48", "TypeScript: a channel stream negotiates, delivers, keeps alive and closes",
  "A stream over a message port or a pair of broadcast channels first posts one ack, and sends nothing before the remote has acked, which it answers with one opened message, and has opened. "
  "Then each message is posted once, in order, then the end or the error; what the remote sends is delivered once, in order, unchanged, whatever it is, until its end or error. Its own messages and those of nobody are ignored. "
  "Closing posts the end with the error, closes the channels, ends everything which reads or waits with the error, leaves no timer, and can be repeated; if the remote closes before it has opened, nobody waits for it any more. "
  "A message is posted at least every keepAliveMs until the stream is closed, and it is closed with the idle error exactly if the remote, once heard, is silent for idleTimeoutMs.",
  ["inputs", "histories", "schedules"], "both kinds of channels, every order of up to three messages and events, all durations",
  "No TypeScript test runs here; the test in the repository uses message ports without time limits.",
  ["srpc/channel.ts", "srpc/watchdog.ts"],
  [("negotiation and data", "srpc/channel.ts ChannelStream constructor, onMessage, _createSink"), ("closing", "srpc/channel.ts close"), ("time", "srpc/channel.ts idleElapsed, keepAliveElapsed")])

T("S49", "TypeScript: a watchdog expires exactly when it was not fed for its whole time",
  "The callback of a watchdog is called once when the time has passed since it was fed last, and never before, however it was fed, cleared and fed again, also from the callback; while it is fed a timer runs which is due in time, after clearing none.",
  ["histories", "schedules"], "every history of four operations, any durations, timers which fire in time or late",
  "No TypeScript test runs here, and there is none for the watchdog.",
  ["srpc/watchdog.ts"],
  [("watchdog", "srpc/watchdog.ts Watchdog")])

T("S50", "TypeScript: message ports and broadcast channels carry one stream each way",
  "A duplex over a message port, or over a pair of broadcast channels (one to read, one to write), posts each message which is written once, in order, unchanged, as it comes, and delivers each message which arrives once, in order, unchanged, whatever it is but null, from when its reader starts. "
  "When what is written ends or fails, or a message can not be posted, one null is posted, the ports are closed, and the failure is the failure of the sink; null from the remote ends what is received, is answered with null, and closes the ports. "
  "A reader which stops or has ended listens no longer. Closing posts one null and closes the ports; closing again, or after either direction has ended, does nothing.",
  ["inputs", "histories"], "both kinds of channels, any messages (objects, bytes, falsy values), every order of up to three messages and events",
  "No TypeScript test runs here; the test in the repository only sends messages which arrive.",
  ["srpc/message-port.ts", "srpc/broadcast-channel.ts"],
  [("message ports", "srpc/message-port.ts MessagePortDuplex"), ("broadcast channels", "srpc/broadcast-channel.ts BroadcastChannelDuplex")])

T("S51", "TypeScript: a connection opens, accepts and carries the streams of its muxer",
  "A connection (over any stream, a message port, broadcast channels or a web socket) has one muxer, from the factory it was given, otherwise from yamux with the parameters it was given, keep-alive off (over ports on) unless they say otherwise, in the direction it was given, outbound without one. "
  "Each stream which is opened, also by a client of the connection or by its open function, is one new stream of the muxer, with packets in frames, and the failure to open it is passed on; a stream which comes in is handed to the server once, and without a server aborted with an error. "
  "What arrives goes into the muxer once, in order, unchanged, and what comes out of it is sent once, in order, as one array each. "
  "Closing closes the muxer, or aborts it with the error, closes the ports and tells the remote; when the transport or the muxer ends the muxer is closed, when one fails it is aborted with the error.",
  ["configurations", "inputs", "fault_sequences"], "all four kinds of connections, all parameters, any chunks, every order of three of them, every end and failure of either side",
  "No TypeScript test runs here, and muxed connections are tested over one transport which does not fail.",
  ["srpc/conn.ts", "srpc/message-port.ts", "srpc/broadcast-channel.ts", "srpc/websocket.ts", "srpc/array-list.ts"],
  [("connections", "srpc/conn.ts StreamConn"), ("transports", "srpc/message-port.ts MessagePortConn, srpc/broadcast-channel.ts BroadcastChannelConn, srpc/websocket.ts WebSocketConn")])

T("S52", "TypeScript: a server answers each stream with one call of its own",
  "Each stream which a server handles, directly or as the handler of streams over calls, is one call of its own: the method of its start is looked up once with the function of the server and gets its requests, also if other streams are handled at the same time. "
  "What the call sends is sent on its stream as it comes, in order, each packet as one array, and the stream ends with the call. When the stream ends so do the requests, and the answer goes on; when it fails, sends what is no packet, or can not be written, the call is closed with the error, which the other side is told if it can be. "
  "Handling a stream gives its call; the handler of streams resolves when the stream has been handled, and not before.",
  ["schedules", "inputs", "fault_sequences"], "one and two streams at once, any requests and responses, every end and failure of the stream and the method",
  "No TypeScript test runs here, and the test in the repository makes one call at a time over streams which do not fail.",
  ["srpc/server.ts", "srpc/server-rpc.ts", "srpc/packet.ts"],
  [("streams", "srpc/server.ts Server.handlePacketStream, rpcStreamHandler, startRpc")])

T("S53", "TypeScript: the messages have exactly the fields of their schemas",
  "Each message of a .proto file is a message type of the generated TypeScript file with its full name and exactly the fields of the schema, each with its number, name, type, label and oneof, so that both languages and all versions read what the others write.",
  ["programs"], "all messages and fields of the repository",
  "No TypeScript test runs here; a field which both ends of a test misname the same way is not noticed by the test in the repository.",
  ["srpc/rpcproto.pb.ts", "rpcstream/rpcstream.pb.ts", "echo/echo.pb.ts", "mock/mock.pb.ts"],
  [("messages", "*.pb.ts, against *.proto")])

T("S54", "TypeScript: a generated client makes exactly the call it is named after",
  "Each service of a .proto file has a definition with its full name and exactly its methods, each with its name, types and kind, and an interface with the types of the schema. "
  "Calling a method of its client, also one which was taken from the client, makes exactly one call: of its kind, on the service id of the client (the name of the service by default), with the name of the method, the request or requests encoded as their type, once and in order, and the abort signal. "
  "The result or results are delivered decoded, once and in order; what fails (encoding, the call, its stream, decoding) is the failure of the method.",
  ["programs", "inputs"], "all services and methods of the repository, any requests and results, every failure",
  "No TypeScript test runs here; the test in the repository calls some methods without failures.",
  ["echo/echo_srpc.pb.ts", "mock/mock_srpc.pb.ts", "srpc/message.ts", "srpc/proto-rpc.ts"],
  [("definitions and clients", "*_srpc.pb.ts, against *.proto")])

T("S55", "TypeScript: the generator makes correct definitions and clients",
  "The generator of TypeScript code writes one file for each schema file, with its preamble, which parses, names no type which is not imported or declared, and imports nothing from this package which it does not export. For every service (any kinds of methods and idempotency, none, one or many methods, services and files) "
  "the code has the definition, the interface and, if the service has methods, the client which the schema asks for, and that client makes exactly the calls it is named after (as the generated code of the repository does).",
  ["programs"], "schemas with every kind of method and of idempotency, without methods, with several services and files; the generated text is analysed as the code of the repository is",
  "There is no test of the generator.",
  ["cmd/protoc-gen-es-starpc/typescript.ts", "cmd/protoc-gen-es-starpc/plugin.ts", "cmd/protoc-gen-es-starpc/protoc-gen-es-starpc.ts", "srpc/index.ts", "index.ts"],
  [("generator", "cmd/protoc-gen-es-starpc/typescript.ts generateTs, generateService")])

T("S56", "TypeScript: the echo service answers each call as it says",
  "Echo answers with the message of the request, EchoServerStream with five such messages, one after each interval, and ends. EchoClientStream answers with the first message as soon as it is there, and fails without one. "
  "EchoBidiStream sends its greeting at once, and then each message back, once and in order; it ends and fails with the requests. RpcStream passes each stream to the server it was made with, and is answered with an error without one. DoNothing answers with an empty message.",
  ["inputs", "schedules", "fault_sequences"], "any messages, readers which stop, requests which end or fail at any point",
  "No TypeScript test runs here.",
  ["echo/server.ts", "rpcstream/rpcstream.ts", "srpc/pushable.ts"],
  [("echo", "echo/server.ts EchoerServer")])

P("S57", "The Go echo server answers each call as it says",
  "Echo returns the message it is given. EchoServerStream answers with the request five times, with a wait between two of them which ends with the context of the call: then an error is returned and nothing more is sent. "
  "EchoClientStream answers with the first message and returns the error of receiving it. EchoBidiStream sends its greeting once and first, then every message it receives which is not empty back, once and in order; the end of the stream ends the call without an error, "
  "a message without a body, a failure to receive and a failure to send end it with an error. RpcStream serves every component with the mux the server was made with, and refuses each with an error without one. DoNothing returns a message and no error. "
  "Registering the server registers it as the implementation of the service and returns the error of that. "
  "The mock server answers with its callback, called once, and is unimplemented without one.",
  ["inputs", "schedules", "fault_sequences"], "any messages, each failure of sending and receiving at any point, the end of the context at any wait",
  "The tests call each method once, over connections which do not fail, with contexts which do not end, and a server with a mux.",
  ["echo/server.go", "mock/mock.go"],
  [("echo", "echo/server.go EchoServer"), ("streams over calls", "echo/server.go EchoServer.RpcStream")])

P("S58", "In browsers, packets are pushed whole and in order until the writer is closed",
  "In the JavaScript build, writing a packet pushes exactly one new Uint8Array to the pushable the writer was made with, which holds exactly the encoding of the packet and is not written to afterwards, and returns nil; an error of encoding is returned and pushes nothing. "
  "After Close, writing returns an error and pushes nothing. Close ends the pushable exactly once, however often and from however many goroutines it is called, and no packet is pushed after the end.",
  ["inputs", "schedules", "configurations"], "every packet and every order of writes and closes, in the JavaScript build",
  "The tests do not build or run this configuration.",
  ["srpc/pushable_js.go"],
  [("writer", "srpc/pushable_js.go PushablePacketWriter")])

P("S59", "The JSON and text forms of messages have every field, and JSON reads back",
  "The JSON form of a message is an object with each field at most once, under its JSON name and with its value; a field left out has the default value, the case of a oneof which is set is always written, and no message is written as null. "
  "Reading JSON sets, for each name in the spelling of the schema or of JSON, exactly this field (or case of the oneof) to the value read; an unknown name is skipped and changes nothing; null leaves the message as it is. MarshalJSON and UnmarshalJSON return what the encoder and decoder return. "
  "The text form is the name of the message and in braces each field which is not the default, once, with its name and value, separated by one space: texts quoted, bytes as quoted base64, messages in their own text form; String returns it.",
  ["inputs"], "every message of every type with every combination of fields; every sequence of names in the JSON read",
  "No test uses the JSON or text forms.",
  ["srpc/rpcproto.pb.go", "rpcstream/rpcstream.pb.go", "echo/echo.pb.go", "mock/mock.pb.go"],
  [("JSON", "MarshalProtoJSON, UnmarshalProtoJSON, MarshalJSON, UnmarshalJSON of each message"), ("text", "MarshalProtoText, String")])


P("S60", "A new call is fresh and made of what it was given",
  "A new call of either side has a context of its own which ends with the given one and with the call, and reports this context; a server call has the given invoker and writer and no service or method yet, a client call the given service and method and no writer yet. "
  "It has no message queued, has not ended and has no outcome, and making it calls, writes, closes and cancels nothing. A server serves with the invoker it was made with, and reports it.",
  ["inputs"], "every context, invoker, writer, service and method",
  E2E + "calls whose context is never canceled while they run, on one server.",
  ["srpc/server-rpc.go", "srpc/client-rpc.go", "srpc/common-rpc.go", "srpc/server.go"],
  [("constructors", "srpc/server-rpc.go NewServerRPC, srpc/client-rpc.go NewClientRPC, srpc/server.go NewServer")])
