# executed by gen.py
PROPS += [
P("C01", "The byte stream's segmentation never changes which messages are received",
  "For any sequence of hub messages sent to a server or client over JSON or MessagePack, the receiving side acts on exactly the same messages, in the same order and with the same contents, however the bytes are split into or merged over reads, including bytes that arrive in the same read as the handshake. "
  "An optional field that one message omits is absent for that message, whatever the messages before it contained.",
  ["inputs", "schedules"], "all splits of message sequences into up to three segments (every byte position), all merges, byte-wise delivery; all pairs and triples of message kinds; JSON and MessagePack; server side and client side",
  "Tests feed whole messages one per read; there are exponentially many segmentations, and state carried between frames only shows for particular neighbours.",
  ["jsonhubprotocol.go", "messagepackhubprotocol.go", "hubconnection.go", "server.go", "client.go"],
  [("frame buffering between reads", "jsonhubprotocol.go: readJSONFrames; messagepackhubprotocol.go: readFrames"), ("pipe between reader and parser", "hubconnection.go: Receive")],
  ["messages a scripted peer receives in answer to what it sent", "hub method calls", "receiver method calls"]),
P("C02", "Values survive the trip between client and server unchanged",
  "Every argument of an invocation, every result, and every item of a stream in either direction arrives with the value that was sent, for JSON and MessagePack, for booleans, integers up to the limits of their type, floats, strings (any Unicode text including control characters and the JSON record separator), byte slices, nil pointers, slices, string-keyed maps and structs with json tags, nested. "
  "Messages the library writes are well formed according to the hub protocol specification (field names, frame lengths, array layouts).",
  ["inputs"], "all values of a grammar of depth 2 over boundary values of each supported type, through every message direction (argument, result, stream item, upload item, client callback argument) and both protocols",
  "Tests use a few small ints, strings and structs; boundary values, length-prefix boundaries and special characters are not covered.",
  ["jsonhubprotocol.go", "messagepackhubprotocol.go", "hubprotocol.go", "loop.go"],
  [("serialization", "WriteMessage of both protocols"), ("deserialization", "UnmarshalArgument of both protocols")],
  ["values seen in hub and receiver methods and in results", "bytes on the wire decoded by an independent codec"]),
P("C03", "Malformed input never crashes the process or harms other connections",
  "Whatever bytes a peer sends, before or after the handshake, in JSON or MessagePack, to a server or to a client, the process does not crash or spin and no other connection is affected. "
  "A connection that has received a frame that is no valid hub message ends (with a close message when it was connected) and the messages received before that frame are processed.",
  ["inputs", "fault_sequences"], "every single-byte substitution (from an alphabet of structurally significant bytes), deletion, truncation and duplication of valid messages of every kind, hand-written hostile messages, deeply nested values in large messages, messages with ids the connection doesn't know, during and after the handshake",
  "Tests contain a handful of invalid messages; a crash needs one specific malformed shape.",
  ["jsonhubprotocol.go", "messagepackhubprotocol.go", "loop.go", "server.go", "client.go", "streamclient.go", "invokeclient.go"],
  [("parser errors end the loop", "hubconnection.go: Receive; loop.go: Run"), ("argument checks", "loop.go: buildMethodArguments")],
  ["the process is alive", "a second connection still answers invocations", "Serve returns"]),
P("C04", "The maximum receive message size applies exactly to each message",
  "A party with a maximum receive message size accepts every message up to that size and ends the connection for any larger one, in JSON (size counted with the record separator) and MessagePack (size counted without the length prefix). "
  "Neither how messages are split into or merged over reads nor how much data other messages contain changes that, and a message that is too large is rejected without waiting for the rest of it.",
  ["inputs"], "messages of sizes around the limit (limit-2 .. limit+2 and multiples), all segmentations into up to two segments plus merges of several messages into one read, limits below and above the internal buffer size, both protocols, both sides",
  "Tests check one oversized message in one read.",
  ["jsonhubprotocol.go", "messagepackhubprotocol.go", "hubconnection.go", "options.go"],
  [("frame size check", "jsonhubprotocol.go: parseJSONFrames; messagepackhubprotocol.go: parseFrames")],
  ["completions for accepted messages", "end of the connection for rejected ones"]),
P("C05", "Every invocation is answered exactly once",
  "An invocation with an id gets exactly one completion, with the method's result, or with an error if the method or its arguments don't match, the result can't be serialized or the method panics; an invocation without id gets no answer at all. "
  "Stream items belong to stream invocations only, come before the completion, and no invocation's answer depends on other invocations that are running or have run on the connection; the connection stays usable.",
  ["inputs", "schedules", "histories"], "27 kinds of methods and errors x simple or stream invocation x with or without id, alone, in all ordered pairs (in one or two reads) and reusing ids, under all schedules with bounded deviations",
  "Tests look at one invocation at a time and stop reading after the first completion.",
  ["loop.go", "hubconnection.go", "streamer.go", "server.go"],
  [("completion of invocations", "loop.go: handleInvocationMessage, returnInvocationResult, recoverInvocationPanic")],
  ["all messages a scripted client receives until quiescence"],
  note="A panicking method's repeated completion is a known finding."),
P("C06", "Invocations call the named method once with the given arguments, or nothing",
  "An invocation runs exactly the public hub (or receiver) method whose name equals the target ignoring case, or to which the target is mapped as an alternate name, once, with the arguments converted to the parameter types and each stream id connected to the channel parameter in the same position among the channel parameters. "
  "If no method matches, or the number of arguments or stream ids doesn't fit, or an argument can't be converted, no method runs and an invocation with id is completed with an error.",
  ["inputs"], "all targets from a set of names in all cases and alternates, all argument lists up to length 3 over values of each JSON/MessagePack type and 0..3 stream ids against methods of all signatures up to 3 parameters (value and channel parameters in any order), server hubs and client receivers",
  "Tests call matching methods and a few mismatches.",
  ["loop.go", "party.go", "streamclient.go", "options.go"],
  [("method lookup", "loop.go: getMethod"), ("argument building", "loop.go: buildMethodArguments; streamclient.go: buildChannelArgument")],
  ["calls recorded by the hub", "completions"]),
P("C07", "Server streams arrive complete, in order, and end once",
  "A stream invocation of a hub method that returns a channel delivers every value the method sends on the channel exactly once and in order, followed by exactly one completion when the channel is closed, independently of other streams and invocations on the connection. "
  "After a cancel message for a running stream, at most the items already taken from the channel are sent, the stream is completed once and nothing follows; cancelling unknown, finished or other streams, any number of times, affects no other stream and never disables later cancels.",
  ["schedules", "inputs", "histories"], "one to three concurrent streams of length 0..3 with buffered and unbuffered channels, cancel messages at every position, repeated and stale cancels beyond the maximum of concurrent streams, all schedules with bounded deviations",
  "Tests run one stream at a time; interleavings of cancel with items and completion are not explored.",
  ["streamer.go", "loop.go"],
  [("stream pump", "streamer.go: Start"), ("cancel", "streamer.go: Stop")],
  ["all messages a scripted client receives"], ),
P("C08", "Upload streams reach the hub method complete, in order, and are closed",
  "Every item a client uploads for a stream id arrives in the channel of the method that was invoked with this id, once, in order and converted to the element type, and the channel is closed when the client completes the stream; streams with different ids never mix. "
  "At most the configured number of streams is accepted concurrently (an invocation beyond it is completed with an error and does not run, and streams that have ended don't count), and when a method doesn't take items for longer than the receive timeout, the client gets a completion with an error while the connection stays usable.",
  ["schedules", "inputs", "histories"], "one to two methods with one to two channels, 0..4 items each in all interleavings of the item and completion messages, buffer capacities 1..2, fast, slow and absent consumers, limits 1..2, bounded schedule deviations, virtual time",
  "Tests use fixed interleavings and consumers which are always ready.",
  ["streamclient.go", "loop.go", "options.go"],
  [("channel registry", "streamclient.go"), ("bounded hand-over", "streamclient.go: sendChanValSave")],
  ["values and channel closes seen by hub methods", "completions"]),
P("C09", "A panic in user code stays inside its invocation",
  "A panic in a hub method (or in a client's receiver method) with any value, in any kind of invocation, never crashes the process, is reported to the caller with the panic's text, and leaves the connection and all others working. "
  "Stack traces are sent to the caller only if detailed errors are enabled; a panic in OnConnected or OnDisconnected, or in the marshalers of argument, result and item types, does not crash the process either: the call it happens for is completed with an error, or (for an item of a stream) the connection ends.",
  ["inputs", "configurations", "schedules"], "panic values of several types x invocation kinds x detailed errors on/off x both protocols x server and client side, lifecycle methods, marshalers in twelve directions, with another connection running",
  "Tests panic with one string in one place.",
  ["loop.go", "server.go"],
  [("recover", "loop.go: recoverInvocationPanic; server.go: recoverHubLifeCyclePanic")],
  ["completions", "answers on a second connection"]),
P("C10", "Messages to clients go to exactly the addressed connections",
  "A message sent through All, Caller, Client(id) or Group(name), from a hub or from outside, is delivered exactly once to every connection that is addressed for the whole duration of the call (connected; the caller; that id; added to the group and not removed) and to no connection that isn't addressed at any time during it. "
  "Group membership follows the sequence of AddToGroup and RemoveFromGroup calls, groups are independent, disconnected connections leave all groups and never receive anything, and slow or dead members do not keep the others from receiving.",
  ["histories", "schedules"], "all sequences of group and send operations up to a bound over two groups and three connections compared with a reference model, plus concurrent operations and disconnects under bounded schedule deviations",
  "Tests use one group and fixed order.",
  ["hublifetimemanager.go", "hubclients.go", "clientproxy.go", "groupmanager.go", "server.go"],
  [("registry of connections and groups", "hublifetimemanager.go")],
  ["messages received by scripted clients"]),
P("C11", "Hub lifecycle: connected once, disconnected once, one hub per connection",
  "For every connection whose handshake succeeds OnConnected is called exactly once and, after the connection has ended for any reason, OnDisconnected exactly once, with the connection's id, and neither for failed handshakes. "
  "With a per-connection hub factory all calls of one connection, the lifecycle calls included, use one hub instance, which is not shared with other connections and discarded when the connection ends; with a hub factory each call is served by a fresh instance; Items set on a connection are seen by all later calls of the same connection only.",
  ["schedules", "histories", "configurations"], "connect, invoke, disconnect sequences for one and two connections with every way a connection can end, concurrent first calls, reconnect with the same id, bounded schedule deviations",
  "Tests check instances sequentially; the races between the lifecycle calls and invocations are not explored.",
  ["server.go", "hubcontext.go", "hub.go", "loop.go"],
  [("hub instances", "server.go: invocationTarget, onConnected, onDisconnected")],
  ["factory and lifecycle calls recorded by the hub"]),
P("C12", "Concurrent writers never corrupt the wire",
  "However many invocations, streams, pings, broadcasts and close messages are sent concurrently on a connection, the peer receives a sequence of complete well-formed messages, each handed to the transport by exactly one write, and the messages of one stream in order. "
  "A value that can't be serialized leaves no partial message on the wire.",
  ["schedules"], "combinations of two to four concurrent senders (results, streams, broadcasts, keep-alive, close, client invocations and uploads) in both protocols, bounded schedule deviations with transports that let time pass inside writes",
  "Tests don't explore interleavings of writers.",
  ["hubconnection.go", "jsonhubprotocol.go", "messagepackhubprotocol.go"],
  [("one write per message", "WriteMessage of both protocols; hubconnection.go: writeMessage")],
  ["bytes and write calls seen by the transport"]),
P("C13", "Keep-alive and timeout follow their intervals",
  "While a connection is idle the party sends a ping so that no gap between its messages is longer than the keep-alive interval (scheduling aside), and it sends no ping while other messages are frequent enough. "
  "If nothing has been received for the timeout interval, the connection is ended with a timeout error then and not earlier, every received message, including a ping, restarts the interval, and that holds for server and client, also when a write is stuck.",
  ["configurations", "schedules"], "keep-alive and timeout settings x traffic patterns (silence, pings, messages at chosen distances, writes) in virtual time, both sides, stuck writes, bounded schedule deviations",
  "Real-time tests can only check a few long intervals with tolerance.",
  ["loop.go", "hubconnection.go", "options.go"],
  [("tickers", "loop.go: Run"), ("time of the last write", "hubconnection.go: LastWriteStamp")],
  ["times of pings, close messages and ends of connections in virtual time"]),
P("C14", "Every fault ends the connection completely and only that connection",
  "When the transport fails or ends at any point (read error, end of stream, write error, partial or stuck write), the server's context is cancelled or the hub aborts, the loop of the connection ends, Serve returns or the client becomes closed or reconnects, all pending client calls get an error, and messages received before the fault are still processed. "
  "No goroutine of the library stays busy or blocked on the connection once the transport is closed and user code has returned, and other connections are not affected.",
  ["fault_sequences", "schedules"], "read faults after every message and write faults at every write of representative sessions (idle, invocation, stream, upload, pending client calls), cancellation at chosen points, bounded schedule deviations; goroutine census at the end",
  "Tests inject single faults at fixed points and don't look at leaks.",
  ["hubconnection.go", "loop.go", "server.go", "client.go", "invokeclient.go"],
  [("abort", "hubconnection.go: Abort, writeMessage"), ("ending", "loop.go: Run; invokeclient.go: cancelAllInvokes")],
  ["return of Serve", "client state and results", "goroutines left"]),
P("C15", "The handshake is decided by exactly one message",
  "A server accepts a connection exactly if the first record it receives is a JSON object with a supported protocol, answers it with the empty response, and serves that protocol; it answers an unsupported protocol with an error response and ends the connection, and ends it without calling the hub if the record is malformed, missing or later than the handshake timeout. "
  "A client sends the handshake request of its transfer format first, is connected exactly if the response has no error, and sends nothing else before; splitting the handshake over reads, or appending messages to it, changes nothing.",
  ["inputs", "schedules", "fault_sequences"], "a set of valid, invalid and partial handshake records, every split, timeouts, faults at each step, both sides; bounded schedule deviations",
  "Tests send whole valid handshakes and few invalid ones.",
  ["server.go", "client.go", "jsonhubprotocol.go"],
  [("handshake", "server.go: processHandshake; client.go: processHandshake; jsonhubprotocol.go: readHandshakeFrame")],
  ["bytes exchanged", "Serve's result, client state, hub calls"]),
P("C16", "Client calls return their own outcome exactly once",
  "Invoke delivers exactly one result, the value or error of the completion for its own invocation id, and its channel is closed; Send delivers an error only if the server completes with one or the call can't be sent, and its channel is closed. "
  "This holds for any number of concurrent calls whose completions arrive in any order, for calls made before the client is connected or after it has ended, and if the connection ends first every pending call gets an error; ids are never reused on a connection.",
  ["schedules", "inputs", "histories"], "one to three concurrent calls, all orders and kinds of completions (value, nil, empty, error), calls in every client state, connection end at every position, bounded schedule deviations",
  "Tests call one method at a time.",
  ["client.go", "invokeclient.go", "Invokeresult.go", "loop.go"],
  [("correlation by id", "invokeclient.go"), ("merging of result and error", "Invokeresult.go")],
  ["contents of the result channels", "ids on the wire"]),
P("C17", "Client state reflects the connection and waiting for a state never hangs",
  "The client's state goes from Created over Connecting to Connected, and to Closed when the connection ends for good, where it stays until it is started again; State never blocks, and once the client is Closed by a fault or by being stopped, Err tells why; when Stop has returned, the client logs nothing any more. "
  "WaitForState yields nil exactly when the state was reached, an error when the client is closed, not started or cancelled or the context ends; observers are notified of every change in order and can be cancelled at any time without blocking the client.",
  ["schedules", "histories"], "start, stop, cancel, server close, transport end, handshake failure in all orders up to a bound with waiters and observers at every point, bounded schedule deviations",
  "Tests wait for the common transitions only.",
  ["client.go"],
  [("state and observers", "client.go: setState, ObserveStateChanged, WaitForState")],
  ["State, Err, notifications, WaitForState results"]),
P("C18", "The client reconnects exactly when it may",
  "A client with a connector that loses its connection for any reason but a server's close message that forbids reconnection, or its own end, asks the connector again after the delays of its backoff until it is connected, and each attempt uses a new connection; after a successful connection the backoff starts anew, and when the backoff is exhausted the client is closed with an error. "
  "Without connector, after Stop or cancellation, or after a close message that does not allow reconnection, it makes no attempt and becomes Closed.",
  ["histories", "fault_sequences", "schedules"], "all sequences up to length 4 of connection outcomes (connector error, handshake error, end of stream, error, close with and without permission, timeout) x stop at any point, virtual time, bounded schedule deviations",
  "Tests cover one reconnect.",
  ["client.go", "clientoptions.go"],
  [("reconnect loop", "client.go: Start, shouldClientEnd")],
  ["connector calls with their times, states"]),
P("C19", "Pulled streams deliver the server's items, then the end",
  "PullStream delivers every item of its stream in order, each once, then at most one error if the server completes the stream with an error or the connection ends first, and then closes its channel; concurrent streams and calls never mix. "
  "This holds however slow the reader is as long as it is within the receive timeout.",
  ["schedules", "inputs"], "one or two streams with 0..4 items in all interleavings, ended by completion, error completion or connection loss, readers of different speed, buffer capacities, bounded schedule deviations",
  "Tests read a single stream that ends normally.",
  ["client.go", "loop.go", "streamclient.go", "Invokeresult.go", "invokeclient.go"],
  [("stream registry", "streamclient.go"), ("merging of result and error", "Invokeresult.go")],
  ["contents of the result channel"]),
P("C20", "Pushed streams are sent completely, in order and completed",
  "PushStreams sends one invocation with a distinct stream id per channel argument and the other arguments in order, then every value received from each channel in order as an item of its stream and one completion when the channel is closed; nothing of a stream precedes the invocation. "
  "The result channel delivers the server's outcome exactly once and is closed, independent of whether the channels are closed before or after.",
  ["schedules", "inputs"], "argument lists with 0..2 channels and 0..2 values (including nil), 0..3 items per channel, completions at every position, up to 113 calls while streams are open, both protocols, bounded schedule deviations",
  "Tests push to a cooperating server and check sums.",
  ["client.go", "loop.go", "streamer.go", "hubconnection.go"],
  [("upload", "loop.go: PushStreams; streamer.go: Start")],
  ["messages received by a scripted server", "result channel"]),
P("C21", "A negotiated HTTP connection is opened exactly once, by whoever negotiated it",
  "Each successful negotiate request yields a fresh connection id, for version 1 (the highest version, also answered to requests for higher ones) a different secret token as well, and lists the configured transports. The key (the token, or the id for version 0) opens exactly one connection, also when it is presented by several requests at once, and the connection has the negotiated id whatever the transport. "
  "Unknown, expired or foreign keys are rejected (404, or a websocket closed with 1002), keys in use too (409 or 1002), and a POST that comes before the event stream is opened waits for it. "
  "No more than the configured number of negotiations is pending at any time (others get 429), a negotiation lives at least as long as the handshake timeout and is forgotten after twice that time, a refused request does not use it up, and a connection that has ended leaves no entry.",
  ["histories", "schedules", "configurations"], "all sequences of four (thorough: five, six) of 13 operations (negotiate, open, POST, hang up, close, time passing, foreign keys) with limits 0, 1 and 2, against a reference; concurrent opens, POSTs, negotiations, expiry and ends with bounded schedule deviations",
  "Tests negotiate once per connection.",
  ["httpmux.go", "negotiateresponse.go", "serveroptions.go"],
  [("map of pending and open connections", "httpmux.go: connectionMap, initiate, serveConnection"), ("expiry", "httpmux.go: reaperLoop"), ("negotiation", "httpmux.go: negotiate")],
  ["HTTP statuses and bodies, websocket close codes, connection ids seen by the hub, hub lifecycle calls"]),
P("C22", "Server sent events carry all hub messages, and end with the connection",
  "A client over server sent events receives the data of every complete event of the event stream, as the HTML standard defines it, in order, however the stream is cut into reads, and the end or failure of the stream ends its connection. It POSTs to the URL of its event stream, with the configured headers, and a POST that is not answered with 200 fails. "
  "The server acts on the body of each POST it answered with 200, completely and in the order of the requests; a failing, oversized or concurrent POST is answered with an error status, changes nothing and does not disturb later ones. Concurrent writes of the server become one event each. "
  "However the connection ends (by the client, the server, the hub, a close message, an invalid message, a refused or missing handshake, a failing response), the response ends, POSTs are answered, the hub is told once, and nothing keeps running; the client closes its event stream when its connection has ended.",
  ["inputs", "schedules", "fault_sequences"], "all event streams of three (thorough: four) out of twelve lines with four kinds of line ends and all cuts into two reads; all sequences of four (thorough: five, six) of ten POST operations against a reference; concurrent writes, failing and blocked responses, seven ways to end in five situations and end to end calls with bounded schedule deviations",
  "Tests use a real HTTP server, where segmentation is whatever the network does, and call one method.",
  ["serversseconnection.go", "clientsseconnection.go", "httpmux.go", "httpconnection.go", "client.go"],
  [("event framing", "serversseconnection.go: Write; clientsseconnection.go: readServerSentEvents"), ("POST hand-over", "serversseconnection.go: consumeRequest"), ("life of the response", "httpmux.go: handleServerSentEvent")],
  ["bytes read by the client side connection, HTTP requests, statuses and responses, hub calls, goroutines"]),
P("C24", "WebSockets and network connections carry all messages and are closed at the end",
  "Over a websocket, server and client act on the same messages however the byte stream is distributed over websocket messages and frames (also with empty messages and control frames between), hub messages up to the maximum receive message size are received whatever their size is, and larger ones end the connection. "
  "Every websocket message the library sends contains only complete hub messages and is of type text for JSON and binary for MessagePack. "
  "However the connection ends (by the network, a close frame, the server, the hub, a close message, an invalid message or frame, a refused or missing handshake, a timeout), with or without a peer that still reads, the websocket is closed on both sides, the hub is told once and nothing keeps running. "
  "A connection made of a net.Conn carries messages the same way, and cancelling its context closes it and ends the party that uses it, also while a write is blocked.",
  ["inputs", "schedules", "fault_sequences"], "a stream of four messages cut at every pair of positions, in four framings and (thorough) three kinds of network reads, both protocols; sizes around five limits up to 100000 in both directions; concurrent writes, nine ways to end in five situations and end to end calls with bounded schedule deviations",
  "Tests send small messages, one per websocket message, and leave the end to the process.",
  ["websocketconnection.go", "httpmux.go", "httpconnection.go", "client.go", "netconnection.go", "connectionbase.go"],
  [("reading", "websocketconnection.go: Read"), ("writing", "websocketconnection.go: Write"), ("end", "httpmux.go: handleWebsocket; client.go: run"), ("cancellation", "connectionbase.go: ReadWriteWithContext")],
  ["websocket frames, network connections, hub calls, goroutines"]),
P("C25", "HTTP clients connect with the configured transports and headers, every time",
  "NewHTTPConnection and HttpConnectionFactory (thus clients with WithHttpConnection, for the first connection and each reconnect) use exactly the options they were given, however often they are called with the same options and whatever happened to earlier connections: "
  "only allowed transports are used (websockets first; server sent events when the server doesn't offer websockets, with HttpConnectionFactory also when the attempt with websockets fails), every request has the headers and every negotiation the version that is configured, the negotiation goes to the hub's path with /negotiate appended and the query kept, "
  "the connection is opened with the id or token of its own negotiation and has the negotiated id, and websockets get the cookies of the negotiation. "
  "A failed attempt returns an error, never a connection, and leaves no response open; the options and header values of the caller are not changed. Cancelling the context ends an attempt that is under way, but never an established connection.",
  ["inputs", "fault_sequences", "histories", "configurations"], "up to three (thorough: four) calls with the same options (allowed transports in every order, position and multiplicity, versions, nil options, spare capacity, kinds of http client) against seven kinds of servers in all sequences; ten kinds of failing answers; eight URLs; five sets of cookies; cancellation at each request; a client that loses its connection three times; against a reference",
  "Tests connect once, to a server that accepts, with one or two options.",
  ["clientoptions.go", "httpconnection.go", "client.go", "clientsseconnection.go"],
  [("choice of the transport", "clientoptions.go: HttpConnectionFactory; httpconnection.go: NewHTTPConnection"), ("headers", "httpconnection.go: requestHeader")],
  ["HTTP requests and their headers, returned connections and errors, response bodies, options after the call"]),
P("C23", "Servers that share a Redis deliver messages like a single server",
  "With the Redis lifetime manager of the module ext, a message sent on any of the servers that share a Redis instance, from a hub or from outside, reaches exactly the addressed connections (all, one by its id, the members of a group) on all servers, the sending one included, each once and without asking for an answer; unknown and empty ids and groups address nobody. "
  "A connection is added to and removed from groups from any server, and leaves its groups when it or its server ends: a later connection with its id is in none. Arguments arrive with their JSON value, and integers exactly. Connections which come, go, join or leave meanwhile, a server which ends, lost connections to Redis, and unreadable messages on its channels disturb no others; once the connections to Redis are back, messages are delivered again.",
  ["histories", "schedules", "inputs", "fault_sequences"], "two servers with up to four connections over a simulated Redis at the level of its protocol: all sequences of two or three of 31 operations, all pairs of 13 group names and of 23 arguments, concurrent operations in all schedules with bounded deviations, loss of the connections to Redis at any point, a server that ends, foreign messages",
  "There are no tests for the module.",
  ["ext/redishublifetimemnager.go", "ext/options.go"],
  [("publish and subscribe", "ext/redishublifetimemnager.go: handleRedisMessage, InvokeAll, InvokeClient, InvokeGroup"), ("membership", "ext/redishublifetimemnager.go: AddToGroup, RemoveFromGroup, OnDisconnected")],
  ["invocations written to connections", "results of probe calls"]),
P("C26", "No data races",
  "Whatever the schedule, no two goroutines access the same memory of the library without synchronisation, one of them writing, as the memory model of Go defines it: in servers, clients, their transports and the Redis lifetime manager, while connections come, work and end, hub methods run and use their hub's context, "
  "and the public operations of a client or a server (calls, streams, state, observers, waiting, Stop, broadcasts, group changes, cancellation) are used by several goroutines at once. A client is started by one goroutine at a time.",
  ["schedules", "histories", "configurations"], "all pairs of 17 operations of a client and of 20 of a server (with four ways to provide hubs) at the same time, three operations of a ConnectionBase, and the concurrent scenarios of the other properties, with bounded schedule deviations; the happens-before order of every explored execution is checked by the race detector, so that the two accesses need not be adjacent in it",
  "The tests are not run with the race detector, which would only see the one schedule of each run anyway.",
  ["client.go", "server.go", "loop.go", "hubconnection.go", "streamclient.go", "streamer.go", "invokeclient.go", "hublifetimemanager.go", "hub.go", "httpmux.go", "serversseconnection.go", "clientsseconnection.go", "connectionbase.go", "party.go", "ext/redishublifetimemnager.go"],
  [("mutexes of the parts", "client.go: mx; streamclient.go: mx; invokeclient.go: mx; streamer.go: mx; hubconnection.go: mx; httpmux.go: mx; hub.go: cm; connectionbase.go: mx; server.go: connectionHubsMutex; hublifetimemanager.go: mu")],
  ["pairs of conflicting accesses with their stacks"],
  technique="stateless model checking of the implementation (deviation-bounded schedules and exhaustive enumeration of pairs of operations in virtual time) with a happens-before monitor (ThreadSanitizer) on every explored execution"),
P("C27", "Options have their effect on their party, in any combination and order",
  "Each option given to NewServer or NewClient has its documented effect on every connection of that party, whatever other options are given before or after it (the last one counts when an option is given twice; alternate method names and transports add up), and none on other parties of the process: keep-alive, timeout and handshake timeout intervals, buffer capacity and receive timeout of upload streams, limits of streams, of message sizes and of negotiations, detailed errors, alternate method names, loggers (also ones that panic or fail, which disturb nothing), offered transports, allowed websocket origins (others are refused with 403), lifetime manager, hub or receiver, and transfer format. "
  "Options of the other kind of party, intervals, capacities and sizes that are not positive, unknown transports and formats, a connection together with a connector, and a missing hub or connection make NewServer or NewClient return an error. MapHTTP serves a hub at exactly its path with http.ServeMux and with each router of the package router, also several hubs, which know their own negotiations only.",
  ["configurations", "inputs"], "all ordered pairs (thorough: triples) of 39 server and 27 client options, each with all of eight measurements on concurrent connections of three parties (the others with default options, made before and after); 36 refused options at each position; four routers with every pair of three paths and both transports",
  "Tests set one option at a time and look at one effect of it; most options and the routers' event streams are not tested at all.",
  ["options.go", "serveroptions.go", "clientoptions.go", "party.go", "server.go", "client.go", "httpmux.go", "router/chirouter.go", "router/gorillarouter.go", "router/httprouter.go"],
  [("options", "options.go; serveroptions.go; clientoptions.go"), ("use of the options", "party.go: partyBase; loop.go: Run, newLoop; httpmux.go: handleWebsocket, negotiate"), ("mapping", "server.go: MapHTTP; router")],
  ["times and contents of messages, ends of connections, HTTP statuses, errors of NewServer and NewClient, logged events"]),
P("C28", "What a hub does with its context concerns its own connection",
  "Whatever a hub does with its context concerns the connection it was called for, with hub factories and per-connection hubs, in a method, a stream, a goroutine that outlives the method, OnConnected and OnDisconnected, whatever other connections do meanwhile: "
  "ConnectionID is the id of this connection, Clients().Caller() reaches only it, Items are its own, AddToGroup with its id adds only it, Context is not done before it ends nor because others end and is done afterwards, Abort ends it and calls OnDisconnected once, Close sends it one close message with the given error and permission to reconnect, and Logger logs to the server's logger. "
  "Used after the connection has ended, nothing of this blocks, panics, or affects another connection, nor (except messages and groups, which are addressed by id) a new one with the same id.",
  ["schedules", "histories"], "ten operations in five places with three kinds of hub factories, while another connection does any of them; the same after the end of the connection, with and without a successor; six ways of ending; one (thorough: two) deviations from the default schedule",
  "Tests use the context in one call at a time and on one or two connections; contexts that are mixed up between concurrent calls, or used late, are not tested.",
  ["hub.go", "hubcontext.go", "hubclients.go", "server.go", "hubconnection.go", "loop.go"],
  [("context of a call", "server.go: invocationTarget, newConnectionHubContext"), ("operations", "hubcontext.go; hub.go"), ("end of the connection", "hubconnection.go: Abort, Context; loop.go: Run")],
  ["answers of hub methods, messages received by three connections, ends of Serve, lifecycle calls, logged events"]),
]
BUILT = {"C12","C17","C18","C06","C02","C04","C20","C03","C15","C13","C14","C01","C05","C07","C08","C10","C11","C09","C16","C19","C21","C22","C23","C24","C25","C26","C27","C28"}
for p in PROPS:
    if p["id"] not in BUILT:
        p["claimed"] = False
        p["na"] = p["na"] or "check not built yet"
