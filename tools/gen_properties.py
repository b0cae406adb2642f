#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is edited here, the file is what counts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
# ---------------------------------------------------------------- frames
p("F01", "A frame written is read back as exactly the same frame",
  "Any frame with a STOMP command, any list of header entries (names non-empty; names and values arbitrary strings, including backslash, colon, CR and LF, and repeated names), and any body that is free of NUL or announced by a correct content-length entry is returned by the frame reader exactly as it was given to the frame writer: same command, same entries in the same order, same body bytes. A sequence of such frames and heart-beats comes back in the same order with nothing added, lost or merged.",
  ["inputs"], "all frames over a small alphabet of the special bytes, names, values, bodies, buffer sizes, and all short sequences of them",
  "the tests encode and decode about a dozen hand-written frames; escapes in names, duplicates, bodies around buffer boundaries and sequences are not sampled",
  ["frame/reader.go", "frame/writer.go", "frame/encode.go", "frame/header.go", "frame/frame.go"],
  [("header value escaping and unescaping", "frame/encode.go replacerForEncodeValue/replacerForUnencodeValue"), ("content-length framing", "frame/reader.go Reader.Read")],
  ["frame.Writer.Write", "frame.Reader.Read"])
p("F02", "Decoding does not depend on how the bytes arrive",
  "For every byte stream, the sequence of frames, heart-beats and the final error returned by the frame reader is the same however the transport splits the stream into reads and whatever the reader's buffer size is. A stream cut at any byte yields exactly the complete frames before the cut and then an error, never a partial frame.",
  ["inputs", "fault_sequences"], "all splits of a family of streams into reads (including one byte at a time and data returned together with EOF), all cut points, several buffer sizes",
  "tests feed whole frames from an in-memory reader; only one splitting is ever seen",
  ["frame/reader.go"], [("buffered incremental reading", "frame/reader.go Reader.Read, readLine")], ["frame.Reader.Read"])
p("F03", "The frame reader accepts exactly well-formed frames and never panics",
  "For every byte string the frame reader returns what the STOMP grammar prescribes: a heart-beat for an empty line, a frame for a known command followed by name:value lines (LF or CRLF ended), an empty line, the body and a NUL. Unknown commands, header lines without a colon or with an empty name, content-length values that are not non-negative integers, and a missing NUL after content-length bytes are always reported as an error; no input makes it panic or loop, and after a good frame the next read starts right behind its NUL.",
  ["inputs"], "all byte strings over a small alphabet of tokens up to a length bound, compared with an independent decoder",
  "tests try three malformed inputs out of an unbounded set",
  ["frame/reader.go", "frame/header.go", "frame/encode.go"], [("grammar checks", "frame/reader.go Reader.Read"), ("content-length parsing", "frame/header.go Header.ContentLength")], ["frame.Reader.Read"])
p("F04", "A frame write succeeds only if exactly its bytes reached the transport",
  "Writing a frame or heart-beat returns nil only when the transport has accepted all of its bytes and nothing else; whatever the transport does (errors or short writes at any byte), the bytes it accepted are a prefix of the encoding of the frames written so far, and a transport write that failed, or that lost bytes by being short, is always reported as an error before any further success is reported. Output does not depend on the writer's buffer size.",
  ["inputs", "fault_sequences"], "all positions of a transport write error or short write, over all short sequences of frames around the buffer size, for several buffer sizes",
  "tests write to a bytes.Buffer, which never fails and never writes short",
  ["frame/writer.go"], [("write error propagation and flush", "frame/writer.go Writer.Write")], ["frame.Writer.Write"])
p("F05", "Header behaves as an ordered multimap and clones share nothing",
  "Every sequence of header operations (create, add, add-all, set, delete, get, get-all, contains, index, length, clone, content-length) gives the results of an ordered list of name/value pairs in which the first entry of a name is its value. A clone of a header or frame equals the original and neither sees later changes made to the other, including changes to body bytes.",
  ["histories", "inputs"], "all operation sequences up to a depth bound over a small set of names and values, with interleaved clones",
  "tests check one short sequence of calls",
  ["frame/header.go", "frame/frame.go"], [("flat key/value slice", "frame/header.go Header.slice"), ("deep copies", "frame/header.go Header.Clone, frame/frame.go Frame.Clone")], ["frame.Header methods", "frame.Frame.Clone"])
p("F06", "Heart-beat values are parsed exactly or rejected",
  "A heart-beat entry is accepted exactly when it is two runs of decimal digits separated by one comma whose values, in milliseconds, fit the duration type, and the two durations returned are then exactly those values in that order. Everything else is reported as an error, without a panic and without overflow.",
  ["inputs"], "all strings over digits, comma, sign, space, letter and newline up to a length bound, plus all values around the representable limit and word sizes",
  "tests list about ten strings",
  ["frame/heartbeat.go"], [("regular expression and range check", "frame/heartbeat.go ParseHeartBeat")], ["frame.ParseHeartBeat"])
# ---------------------------------------------------------------- client
p("C01", "The connect frame says exactly what the options say",
  "Connecting writes exactly one frame, CONNECT or (when requested) STOMP, whose host, login, passcode, accept-version and heart-beat entries are the ones given by the options (or their documented defaults) and to which custom entries are appended without overriding them, for every combination and order of options. If an option reports an error, connecting fails with that error and nothing is written.",
  ["inputs", "configurations"], "all subsets and orders of the connect options up to a bound, with colliding custom entries, buffer and channel sizes",
  "tests look at a few option combinations",
  ["conn.go", "conn_options.go"], [("option application and frame construction", "conn_options.go newConnOptions, NewFrame")], ["bytes written by stomp.Connect"])
p("C02", "The server's reply alone decides whether connecting succeeds",
  "Connecting returns a usable connection exactly when the first frame received is CONNECTED with an absent or supported version and an absent or well-formed heart-beat entry, and the connection then reports that version (1.0 if absent), session and server. Any other reply, a transport error, or (on a network connection) an expired context deadline makes connecting fail with an error that carries the server's message, leaving no goroutine behind; it never panics or hangs on a reply, and a deadline does not outlive the handshake.",
  ["inputs", "fault_sequences"], "all replies over an alphabet of commands, version, heart-beat and other entries, all truncation points of the reply, read/write errors, deadline before/after the reply",
  "tests try a handful of replies and no truncation, no deadline",
  ["conn.go", "version.go", "errors.go"], [("reply checks", "conn.go ConnectWithContext"), ("deadline set and restored", "conn.go ConnectWithContext")], ["stomp.Connect result", "Conn.Version/Session/Server", "transport reads after connecting"])
p("C03", "Concurrent calls put their frames on the wire whole, once and in order",
  "Under every interleaving of goroutines using one connection, the bytes written to the server are a sequence of whole frames and heart-beats; each call that returned success contributed exactly one frame with exactly the destination, content type, headers and body it was given, frames of one goroutine keep its call order, and a call that failed before its frame was accepted contributed none. While the connection stays up, every accepted frame is written.",
  ["schedules", "inputs"], "all interleavings (up to the reported preemption bound) of 2-3 goroutines issuing sends, subscribes, acks and transactions, with small channel capacities and write timeouts racing",
  "tests use one goroutine per connection and the scheduler the run happens to get",
  ["conn.go", "transaction.go", "frame/writer.go"], [("single writer goroutine fed by a channel", "conn.go processLoop"), ("enqueue under the connection mutex", "conn.go Send, sendFrame, Subscribe")], ["bytes written to the transport", "results of Conn and Transaction methods"],
  [{"name": "writeCh", "meaning": "requests accepted but not yet written", "where": "conn.go Conn.writeCh"}])
p("C04", "A receipt-requesting call succeeds only on its own receipt",
  "A send, commit, abort, unsubscribe or disconnect that asked for a receipt returns success only after the server's RECEIPT naming that very request has arrived; receipts for other requests, other frames, or no answer never make it succeed, and it then fails with an error once its timeout has passed. Late, duplicate and unknown receipts change nothing for later calls, which keep working.",
  ["schedules", "inputs", "histories"], "all orders, omissions, duplications and timings (before, at and after the timeout) of the server's answers to 1-3 concurrent requests, under all interleavings up to the reported bound",
  "tests answer each request promptly, once and in order",
  ["conn.go", "subscription.go", "transaction.go"], [("receipt-id to channel map", "conn.go processLoop channels"), ("timeouts", "conn.go readReceiptWithTimeout, sendFrame")], ["results of Send, Commit/AbortWithReceipt, Unsubscribe, Disconnect"])
p("C05", "A subscription delivers exactly its own messages, in order and intact",
  "As long as the application keeps reading, each MESSAGE frame naming an active subscription appears on that subscription's channel exactly once, in arrival order, with the frame's destination, content type, headers and body, and on no other subscription. Messages for unknown subscriptions, and other subscriptions coming and going, disturb none of this.",
  ["schedules", "inputs"], "all sequences of messages to 2-3 subscriptions up to a bound, all interleavings up to the reported bound of arrival, subscribing, unsubscribing and consumption",
  "tests deliver a few messages to one subscription with a friendly schedule",
  ["conn.go", "subscription.go", "message.go"], [("dispatch by subscription id", "conn.go processLoop"), ("per-subscription goroutine", "subscription.go readLoop")], ["Subscription.C", "Subscription.Read"])
p("C06", "Unsubscribe completes and closes the channel exactly once",
  "Unsubscribing sends one UNSUBSCRIBE frame for the subscription and, once the server confirms it, returns success with the subscription inactive and its channel closed exactly once after all messages that arrived before the confirmation; further attempts fail with the completed-subscription error. Without confirmation it returns the timeout error, and under every interleaving with arriving messages, server errors, connection loss, disconnecting and the timeout itself it returns and nothing panics.",
  ["schedules", "fault_sequences"], "all interleavings up to the reported bound of Unsubscribe with message arrival, its receipt (before, at, after the timeout), ERROR frames, connection loss and Disconnect",
  "the root package's tests of this are flaky: whether they hang depends on the schedule of the run",
  ["subscription.go", "conn.go"], [("state machine and condition variable", "subscription.go Unsubscribe, closeChannel, waitWithTimeout")], ["Unsubscribe result", "Subscription.C", "Subscription.Active"],
  [{"name": "state", "meaning": "active, closing, closed", "where": "subscription.go Subscription.state"}])
p("C07", "When the connection fails every waiter is told",
  "When the server sends ERROR, the transport fails on read or write, or the read heart-beat times out, every call waiting on the connection returns an error, every later call returns an error or a no-op result instead of hanging, and every active subscription whose channel is read delivers exactly one final message carrying the error before its channel is closed. A server ERROR's text and frame reach the waiters, and the transport is closed.",
  ["schedules", "fault_sequences"], "every position of an ERROR frame, read error, write error or truncation in a session with pending sends, receipts, subscriptions, transactions and unsubscribes, under all interleavings up to the reported bound",
  "tests break the connection at one or two fixed points",
  ["conn.go", "subscription.go"], [("error broadcast", "conn.go sendError"), ("shutdown", "conn.go processLoop, MustDisconnect"), ("subscription error", "subscription.go readLoop")], ["results of pending and later calls", "Subscription.C", "transport Close"])
p("C08", "Disconnect is graceful, idempotent and final",
  "Disconnect sends one DISCONNECT frame after every frame accepted before it, returns success only after the server's receipt for it, and then the transport is closed; forced disconnect closes it without any exchange with the server. Afterwards, repeated and concurrent disconnects of either kind return without error or hanging, no other call reports success or writes anything, and no frame follows DISCONNECT on the wire.",
  ["schedules", "histories"], "all sequences of Disconnect/MustDisconnect and other calls up to a bound from one and two goroutines, receipts arriving, late or never, under all interleavings up to the reported bound",
  "tests call Disconnect once or twice in sequence",
  ["conn.go"], [("closed flag under the connection mutex", "conn.go Disconnect, MustDisconnect"), ("receipt wait", "conn.go readReceiptWithTimeout")], ["bytes on the wire", "transport Close", "results of calls"])
p("C09", "Concurrent use of one connection never panics, deadlocks or races",
  "Whatever goroutines do concurrently with the exported methods of one connection, its subscriptions and distinct transactions, and whatever the server sends or the transport does meanwhile, the library never panics, never leaves a caller blocked that the server's frames, the timeouts or the connection's end should release, and never makes two unsynchronised conflicting memory accesses. (A subscription channel that the application does not read may hold up the connection, as documented.)",
  ["schedules", "fault_sequences"], "all interleavings up to the reported bound of pairs and triples of API calls against a server that answers, errors or vanishes; every execution is also checked for data races",
  "the race detector sees only the schedules a run happens to take and panics need specific windows",
  ["conn.go", "subscription.go", "transaction.go", "id.go"], [("connection mutex, channels, atomics, condition variable", "conn.go, subscription.go")], ["goroutine panics", "blocked callers", "memory accesses"])
p("C10", "ACK and NACK identify the message as the negotiated version requires",
  "For a message received on a client or client-individual subscription, Ack and Nack write exactly one frame that names the message: by subscription and message-id for protocol 1.0 and 1.1, by the message's ack value for 1.2. Ack on an auto subscription writes nothing and succeeds; Nack on an auto subscription or on 1.0, acknowledging something that was not received, and missing identifying headers are errors and write nothing; the same holds inside a transaction, whose frames also carry the transaction.",
  ["inputs", "configurations"], "all combinations of version, ack mode, ack/nack, with/without transaction, presence and value of the identifying headers, origin of the message",
  "tests cover a few combinations",
  ["conn.go", "message.go", "ack.go", "transaction.go"], [("frame construction", "conn.go createAckNackFrame")], ["bytes on the wire", "results of Ack, Nack, ShouldAck"])
p("C11", "A transaction tags all its frames and is finished exactly once",
  "BEGIN, every send, ack and nack made through a transaction, and its single COMMIT or ABORT carry the same transaction identifier, distinct from every other transaction's, and appear on the wire in call order. After a successful commit or abort every further operation on it fails with the completed-transaction error and writes nothing, while a failed commit or abort leaves the transaction open.",
  ["histories", "schedules"], "all operation sequences up to a depth bound on one and two transactions, receipts and errors included",
  "tests run one commit and one abort script",
  ["transaction.go", "conn.go"], [("completed flag and id", "transaction.go Transaction")], ["bytes on the wire", "results of Transaction methods"])
p("C12", "The client keeps its heart-beat contract",
  "With heart-beats negotiated, the time between consecutive writes by the client never exceeds the larger of what it offered and what the server asked for, and a heart-beat is never inserted inside a frame. The client drops a connection on which nothing was received for the negotiated interval plus the configured tolerance (times the grace multiplier), and never drops one on which something is received at least every negotiated interval, nor one whose server declared it sends no heart-beats or for which the client asked for none.",
  ["inputs", "configurations", "histories"], "all combinations of small heart-beat values on both sides and tolerance options, all arrival patterns over a discretised virtual timeline, under virtual time",
  "tests use one setting and real time",
  ["conn.go", "frame/heartbeat.go"], [("timers in the processing loop", "conn.go processLoop"), ("negotiation", "conn.go ConnectWithContext")], ["timestamps of writes", "connection closed / read timeout error"])
p("C13", "Generated identifiers are never reused",
  "Subscription ids, transaction ids and receipt ids generated by the library are pairwise distinct within the process, whatever connections and goroutines they are generated for.",
  ["schedules"], "all interleavings up to the reported bound of 2-3 goroutines creating subscriptions, transactions and receipts on one or two connections",
  "a lost update needs a specific interleaving inside the generator",
  ["id.go", "conn.go", "send_options.go", "transaction.go"], [("atomic counter", "id.go allocateId")], ["ids on the wire", "Subscription.Id", "Transaction.Id"])
p("C14", "A message body can be consumed as a byte stream exactly once",
  "Any mix of Read and ReadByte calls with any buffer sizes on a message yields exactly the body's bytes in order, then io.EOF for ever; counts returned match the bytes stored, and bytes of the buffer beyond the count are untouched.",
  ["histories", "inputs"], "all call sequences up to a depth bound over bodies and buffer sizes up to a bound",
  "there is no test of the reader methods beyond simple use",
  ["message.go"], [("body slicing", "message.go Message.Read, ReadByte")], ["Message.Read", "Message.ReadByte"])
p("C15", "A finished connection leaves no goroutine and no open transport behind",
  "Once a client connection has ended (disconnect, forced disconnect, server error, transport failure, read timeout, failed handshake through dialing) and its subscription channels have been drained, every goroutine the library started for it ends and the transport has been closed, under every interleaving of the ending with frames still arriving and calls still pending.",
  ["schedules", "fault_sequences"], "each way of ending x frames still arriving x pending calls, all interleavings up to the reported bound, smallest channel capacities",
  "leaks are invisible to tests that end with the process",
  ["conn.go", "subscription.go"], [("loops ending on closed channels", "conn.go readLoop, processLoop; subscription.go readLoop")], ["goroutines still blocked at quiescence", "transport Close"])
# ---------------------------------------------------------------- server
p("S01", "Nothing is served before a valid, authenticated handshake",
  "The server answers CONNECTED exactly to a first frame that is CONNECT or STOMP without a receipt header, with an accept-version naming 1.1 or 1.2, a well-formed or absent heart-beat, and credentials the authenticator accepts, and it then names the highest version offered that it supports. Anything else gets one ERROR frame and the connection is closed without any effect on queues or topics; a second CONNECT or STOMP is an error.",
  ["inputs", "histories"], "all first frames over an alphabet of commands, versions, credentials, heart-beats and extra headers, followed by further frames",
  "tests connect with a few well-behaved clients",
  ["server/client/conn.go", "server/client/frame.go", "server/processor.go", "server/server.go"], [("state function", "server/client/conn.go connecting, handleConnect"), ("version choice", "server/client/frame.go determineVersion")], ["frames sent by the server", "later deliveries to other clients"])
p("S02", "A queue message is neither lost nor duplicated",
  "Every message sent to a queue is, at any time, either waiting in the queue, outstanding at exactly one consumer, or acknowledged, and it is delivered to exactly one consumer at a time: it reaches a second consumer only if it was returned (rejected, or unacknowledged when its consumer unsubscribed-and-left or its connection ended). No schedule of sends, subscribes, acknowledgements, unsubscribes and disconnects loses it, delivers it twice, or leaves it waiting while an idle consumer is subscribed.",
  ["schedules", "histories", "fault_sequences"], "all command sequences up to a depth bound by 2-3 clients with all ack modes, and all interleavings up to the reported bound of small concurrent sets, including connection loss at every point",
  "tests move messages through queues in one order with nothing failing",
  ["server/processor.go", "server/queue/queue.go", "server/client/conn.go", "server/client/subscription_list.go", "server/client/subscription.go", "server/queue/memory_queue.go"], [("single request processor", "server/processor.go Serve"), ("requeue on cleanup", "server/client/conn.go cleanupConn"), ("one message per subscription", "server/queue/queue.go")], ["MESSAGE frames received by clients", "what a later consumer receives"])
p("S03", "A queue delivers in the order messages were sent",
  "With one consumer, the messages of a queue are delivered in the order the server accepted them, whatever mix of queued and direct deliveries, acknowledgements, rejections and resubscriptions happens; a returned message comes back before those that were behind it. Messages of different queues do not affect each other's order or content.",
  ["histories", "schedules"], "all sequences of send/subscribe/ack/nack/unsubscribe up to a depth bound on two queues, one consumer at a time, plus small concurrent sets",
  "tests check order on one script",
  ["server/queue/queue.go", "server/queue/memory_queue.go", "server/processor.go"], [("FIFO list per destination", "server/queue/memory_queue.go"), ("requeue at the head", "server/queue/queue.go Requeue")], ["order of MESSAGE frames"])
p("S04", "Acknowledgement modes decide what is redelivered",
  "On auto subscriptions a message is done when sent; on client and client-individual subscriptions it stays outstanding until acknowledged, an ACK settles the message it names (and in client mode possibly earlier client-mode messages of that connection, but never later ones, never client-individual ones, never another connection's), a NACK returns exactly the named message to its queue, and an ACK or NACK naming no outstanding message settles nothing. Every outstanding, unsettled message is delivered again to the next consumer after its connection ends, and a settled message never is; protocol 1.1 (message-id) and 1.2 (id) identifiers are both honoured.",
  ["histories", "inputs", "schedules"], "all sequences up to a depth bound of deliveries, ACK/NACK of any outstanding, settled or unknown id, unsubscribe and disconnect for all modes and both versions",
  "no existing test acknowledges a message on the server",
  ["server/client/conn.go", "server/client/subscription_list.go", "server/client/subscription.go"], [("ack list", "server/client/subscription_list.go Ack, Nack"), ("ack handling", "server/client/conn.go handleAck, handleNack")], ["redelivered MESSAGE frames"])
p("S05", "A topic message reaches every current subscriber exactly once",
  "A message sent to a topic is delivered exactly once to each subscription that was in place before it was accepted and is still in place, to none that unsubscribed before it or subscribed after it, in the order sent, each copy carrying its own subscription id and unaffected by the other copies. Topics are independent of each other and of queues.",
  ["histories", "schedules"], "all sequences of subscribe/unsubscribe/send/disconnect by 2-3 clients with several subscriptions up to a depth bound, plus interleavings of small concurrent sets",
  "tests have one publisher, fixed subscribers",
  ["server/topic/topic.go", "server/topic/manager.go", "server/processor.go", "server/client/conn.go"], [("fan-out with clones", "server/topic/topic.go Enqueue")], ["MESSAGE frames received by clients"])
p("S06", "Server transactions take effect all at once or not at all",
  "Sends and acknowledgements made inside a transaction have no effect before its COMMIT, all of them take effect at the COMMIT in the order given, and none ever does after ABORT, a protocol error or the end of the connection. Transactions of the same or other connections are independent, their names can be reused once finished, and beginning one twice or using an unknown one is an error.",
  ["histories", "fault_sequences"], "all sequences up to a depth bound of BEGIN/SEND/ACK/COMMIT/ABORT over two transaction names and two connections, with disconnects at every point",
  "tests of the transaction store run one script without the server around it",
  ["server/client/tx_store.go", "server/client/conn.go"], [("per-connection store replayed on commit", "server/client/tx_store.go Commit")], ["MESSAGE frames received by consumers", "redeliveries"])
p("S07", "Every accepted frame with a receipt header gets exactly one receipt",
  "For each frame after the handshake that carries a receipt header and is accepted, the server sends exactly one RECEIPT with that id once the frame has taken effect, in the order the frames arrived, including SUBSCRIBE, UNSUBSCRIBE, DISCONNECT and frames inside transactions; it sends no other RECEIPT. A frame that is refused gets no RECEIPT but an ERROR that carries its receipt id.",
  ["inputs", "histories"], "all frame types with and without receipt headers, in and out of transactions, valid and refused, in all sequences up to a depth bound",
  "tests ask for receipts on two frame types",
  ["server/client/conn.go"], [("receipt sending", "server/client/conn.go sendReceiptImmediately, sendErrorImmediately")], ["RECEIPT and ERROR frames"])
p("S08", "No client can crash or stall the server",
  "Whatever bytes or frame sequences a client sends, however it fails, stops reading or disconnects, the server process does not panic and keeps serving other clients: their sends, subscriptions and receipts are still handled. The misbehaving connection affects only itself and messages it holds, and what waits for a client that does not read is bounded: in the end the client is disconnected.",
  ["inputs", "fault_sequences", "schedules"], "all frame sequences up to a depth bound over an alphabet that includes missing, repeated and ill-formed headers, malformed bytes, disconnects and write failures at every point, and clients that stop reading; a probe client must still be served afterwards",
  "tests only ever behave well",
  ["server/processor.go", "server/client/conn.go", "server/client/subscription.go", "server/client/subscription_list.go", "server/queue/queue.go"], [("validation in frame handlers", "server/client/conn.go handle*"), ("bounded channels to each connection", "server/client/conn.go maxPendingWrites")], ["panics", "service to a probe client"])
p("S09", "Messages arrive with the sender's content and the server's headers",
  "A MESSAGE delivered for a SEND has the same body and all the sender's header entries, except that receipt and transaction are removed and message-id, subscription and (for acknowledging subscriptions) ack are set by the server: the subscription id is the receiving subscription's, message ids are never repeated on a connection, and the ack value is the one that acknowledges this message. A sender cannot forge these entries, and deliveries that need no acknowledgement carry no ack entry.",
  ["inputs", "histories"], "all combinations of sender headers (including forged server headers, duplicates, special characters), bodies with and without content-length, queue/topic, ack mode, redelivery",
  "tests check destination and body of plain messages",
  ["server/client/conn.go", "server/client/subscription.go", "server/topic/topic.go"], [("header assignment", "server/client/conn.go allocateMessageId; server/client/subscription.go setSubscriptionHeader")], ["MESSAGE frames"])
p("S10", "The server keeps its heart-beat contract",
  "The CONNECTED frame announces the heart-beat intervals the server will apply: the client's, raised to the configured minimum, or 0 where the client gave 0. The server then never stays silent longer than the interval announced for it, drops a client silent for more than twice the interval announced for the client, and never drops one that sends a frame or heart-beat at least that often or one that announced no heart-beats.",
  ["configurations", "histories"], "all combinations of small client values, server minimum and traffic patterns on a discretised virtual timeline",
  "one real-time test with a single setting",
  ["server/client/conn.go", "server/client/frame.go", "server/processor.go"], [("read deadline", "server/client/conn.go readLoop"), ("heart-beat timer", "server/client/conn.go processLoop"), ("clamping", "server/client/conn.go handleConnect, asMilliseconds")], ["timestamps of server writes", "time of connection close"])
p("S11", "A protocol error ends the connection with one ERROR and has no other effect",
  "A frame the server refuses (a command only servers send, missing required header, unknown or repeated subscription, unknown or repeated transaction, malformed identifier) is answered by exactly one ERROR frame that is the last thing sent before the connection is closed. The refused frame and everything sent after it have no effect, while messages the connection held are returned to their queues and its subscriptions end.",
  ["inputs", "histories"], "every refused frame kind in every session state reachable by short command sequences, observed from other clients",
  "tests never send a refused frame after the handshake",
  ["server/client/conn.go", "server/client/tx_store.go", "server/client/errors.go"], [("error path of the processing loop", "server/client/conn.go processLoop, sendErrorImmediately, cleanupConn")], ["frames and close seen by the offending client", "deliveries to others"])
p("S12", "Temporary accept errors do not stop the server",
  "After any sequence of temporary errors from the listener, interleaved with successful accepts, the server goes on accepting: every connection the listener hands out is served, and the pause after consecutive temporary errors grows but never exceeds five seconds. A temporary error neither busy-loops nor delays connections once accepting works again.",
  ["fault_sequences"], "all sequences of accept results up to a length bound, under virtual time",
  "no test makes Accept fail",
  ["server/processor.go"], [("back-off", "server/processor.go Listen")], ["virtual times of Accept calls", "service to accepted connections"])
p("S13", "A pluggable queue storage is driven by its contract",
  "With any queue storage supplied, the server starts it before anything else, calls it from one goroutine at a time and only for queue destinations, puts each message that cannot be delivered at once at the tail and each returned one at the head of its own queue, and takes one out only to deliver it; what clients observe is the same as with the built-in storage. The built-in storage itself behaves as one double-ended list per queue for every sequence of operations.",
  ["histories", "schedules"], "all command sequences up to a depth bound with a recording storage compared with a reference list, concurrent clients, and all storage operation sequences up to a depth bound",
  "tests use the built-in storage and one script",
  ["server/processor.go", "server/queue_storage.go", "server/queue/queue.go", "server/queue/memory_queue.go", "server/queue/manager.go"], [("storage calls", "server/queue/queue.go"), ("in-memory lists", "server/queue/memory_queue.go")], ["calls on the storage", "MESSAGE frames"])
p("S14", "A finished server connection is closed and leaves nothing behind",
  "Once a client has disconnected, failed, been refused or been dropped, the server closes its connection and every goroutine that served it ends, whatever was being delivered, requested or written at that moment. Messages it held are on their queues again and nothing is delivered to it any more; any number of such connections leaves the server with only its listener and request processing running.",
  ["schedules", "fault_sequences"], "all schedules up to a deviation bound of disconnects, read and write failures, heart-beat expiry and protocol errors at every point of sessions with deliveries in flight",
  "tests never check that a server connection ends",
  ["server/client/conn.go", "server/processor.go", "server/queue/queue.go", "server/topic/topic.go"], [("connection goroutines", "server/client/conn.go readLoop, processLoop, cleanupConn"), ("hand-over to the connection", "server/processor.go")], ["live goroutines", "closed connections", "deliveries to others"])
p("S15", "The server's goroutines share no memory without synchronisation",
  "Whatever clients do concurrently, no two goroutines of the server access the same variable, map or slice element at the same time with at least one writing, so that no frame, header, subscription or queue can be observed half changed. A frame passed on to another goroutine is no longer touched by the one that passed it.",
  ["schedules", "histories"], "all schedules up to a preemption or delay bound of small sets of concurrent clients, with happens-before race detection on every explored execution",
  "the race detector only sees the schedules that happen",
  ["server/processor.go", "server/client/conn.go", "server/client/subscription.go", "server/client/subscription_list.go", "server/queue/queue.go", "server/topic/topic.go"], [("hand-over between connection and request processor", "server/client/conn.go, server/processor.go")], ["memory accesses of the server"])
p("E01", "The client library and the server interoperate",
  "A program using the client library against this server gets what the API promises: sends with receipts succeed, subscribed messages arrive with content intact, acknowledged messages are not redelivered and unacknowledged or rejected ones are, transactions commit or vanish, unsubscribe and disconnect succeed. This holds for protocol 1.1 and 1.2, all ack modes, queues and topics, and every order of operations.",
  ["histories", "configurations", "schedules"], "all sequences of client API operations up to a depth bound by two library clients against the real server over an in-memory network, plus small concurrent sets",
  "one integration test sends messages with auto acknowledgement",
  ["conn.go", "subscription.go", "transaction.go", "server/client/conn.go", "server/processor.go"], [("both protocol implementations", "conn.go, server/client/conn.go")], ["results of API calls", "messages received"])
p("C16", "Client connections in one process are independent",
  "Two connections of one program, even made from the same option values and used concurrently, do not influence each other: each sends exactly the frames its own calls ask for, delivers exactly the messages its own server sends, and ends only for its own reasons. Disconnecting, failing or closing one leaves the other fully usable, and option values may be reused for any number of connections and requests.",
  ["histories", "schedules"], "all pairs of short programs (send, receipt, message, ack, transaction, unsubscribe, disconnect, error, end of stream) on two connections that share their option values, one after the other and concurrently, under all schedules up to a deviation bound",
  "tests use one connection at a time",
  ["conn.go", "conn_options.go", "subscription.go", "transaction.go", "send_options.go", "subscribe_options.go"], [("per-connection state", "conn.go Conn, connOptions"), ("identifier generation", "id.go")], ["frames on each transport", "messages on each subscription", "errors of calls"])
p("C17", "Connection statistics count exactly the frames sent and received",
  "With statistics enabled, a connection reports as sent the number of frames its calls have put on the transport and as received the number of frames the server has sent it after the handshake (every heart-beat the server sends may count as one too), once the connection is idle; calls that fail without sending do not count, and neither counter ever goes back, also not when the connection ends. Without the option both stay zero. The reported queue sizes are those of the frames waiting to be written and to be handled.",
  ["histories", "schedules"], "all operation sequences up to a depth bound, including refused calls and calls after the end of the connection, with the counters compared with the frames on the transport after each step",
  "one test samples the counters after a single exchange",
  ["conn.go", "conn_options.go"], [("counters", "conn.go Stats, processLoop"), ("option", "conn_options.go WithStats")], ["Conn.Stats", "frames on the transport"])
p("S16", "Servers in one process are independent",
  "Two servers of one process share nothing: what clients of one send, subscribe to, acknowledge, commit or leave behind is never visible to clients of the other, and each behaves as it would alone, also when both use the same destination names, subscription ids and transaction names.",
  ["histories", "schedules"], "all operation sequences up to a depth bound spread over two servers with two clients each, each server compared with its own reference broker",
  "tests run one server at a time",
  ["server/server.go", "server/processor.go", "server/queue/manager.go", "server/topic/manager.go", "server/client/conn.go"], [("state kept per request processor", "server/processor.go newRequestProcessor")], ["frames received by clients of each server"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
