#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The text lives here so that it can be edited readably."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

SS = "server/server_service_set.go"
SC = "server/server_secure_channel.go"
CC = "client/client_secure_channel.go"

p("P01", "Session services act only for an activated session on its own channel",
  "The server performs a session-bound service (everything except discovery and session creation/activation) only when the request's authentication token names a live, unexpired session, that session has been activated, and the request arrived on the secure channel the session is bound to. In every other case the request has no effect on the address space, subscriptions or queues, and the caller gets a Bad service result or the channel is aborted.",
  ["inputs", "histories"], "for every session-bound service, every request and every history of create/activate/close/expire on any number of channels",
  "Tests drive each service with one well-behaved client; no test sends a stolen, stale or unactivated token to every service.",
  [SS, "server/session_manager.go", "server/session.go", "server/server.go"],
  [("token lookup, activation and channel-binding test at the head of each handler", SS), ("expiry test in session lookup", "server/session_manager.go SessionManager.Get")],
  [("session.channelId", "channel the session was activated on, 0 = not activated", "server/session.go")],
  ["service result of the response", "effects on nodes/subscriptions"])

p("P02", "Every request gets exactly one response, addressed to that request",
  "For every decoded request the server either sends exactly one response, or hands the request to the publish queue, or aborts the channel, or reports an error that ends the connection; never two responses and never silence. Each response carries the request id and the request handle of the request it answers.",
  ["inputs", "histories"], "for every request type and every path through its handling, including early rejections",
  "Tests look at a response to a handful of good requests; a dropped or duplicated response on a rejection path is never reached.",
  [SS, "server/server.go", "server/subscription.go"],
  [("one channel write per path in each handler", SS), ("dispatch", "server/server.go handleRequest")], None,
  ["messages written to the secure channel"])

p("P03", "Batch services return one result per operation, in request order",
  "A service that takes a list of operations answers with a result list of exactly the same length, in which entry i is the outcome of operation i and every entry is filled in before the response is sent, also when the operations run concurrently. An empty list or a list longer than the advertised per-request limit is refused as a whole, without performing any operation.",
  ["inputs", "schedules"], "for every batch service, every list of operations and every interleaving of their workers",
  "Tests send one or two operations that succeed; misplaced or missing results need particular failing operations in the middle of a batch.",
  [SS, "server/subscription.go"],
  [("result slice of the operation count, one indexed store per iteration, wait before write", SS)], None,
  ["results array in the response"])

p("P04", "Every service message is dispatched, decoded and answered as its own type",
  "Every service request the server supports is recognised on the wire by its standard encoding id, handed to the handler of that service, answered with the response type of that service (or a fault), and the client recognises that response by its standard encoding id and hands it back as that type. A request outside the supported set is refused with a fault, not ignored.",
  ["inputs", "programs"], "for every service of the stack, on both sides of the connection",
  "Only some services are driven by tests; several request and response types never cross the wire in any test.",
  ["server/server.go", SS, SC, CC, "client/client_service_set.go", "client/client.go"],
  [("type switches in send/receive and dispatch", "server/server.go handleRequest, server/server_secure_channel.go, client/client_secure_channel.go")], None,
  ["encoding id on the wire", "dynamic type returned by client calls"])

p("P05", "Encoder and decoder agree on the wire form of every built-in type",
  "For every OPC UA built-in type, array and variant the encoder writes and the decoder reads the same sequence of fields under the same presence flags and type codes, and that form is the one fixed by the OPC UA binary encoding. Every value kind the encoder can write in a variant is one the decoder accepts under the same type code, and vice versa.",
  ["inputs"], "for every value of every built-in type, including null, empty and multi-dimensional forms",
  "Round-trip tests sample one value for a few types; flag combinations and most variant kinds are never encoded.",
  ["ua/binary_encoder.go", "ua/binary_decoder.go", "ua/variant.go"],
  [("paired Write*/Read* methods", "ua/binary_encoder.go, ua/binary_decoder.go")], None, ["bytes on the wire"])

p("P06", "Structured types have one unambiguous encoding id, both ways",
  "Every structured type registered with the codec is bound to exactly one binary encoding id and that id to exactly that type, the id being the standard one for the type's name. A structure is encoded and decoded field by field in declaration order, and the declared fields are the standard ones in the standard order.",
  ["inputs", "programs"], "for every registered structured type and every field",
  "Tests exercise two or three structures; the others are generated tables nobody round-trips.",
  ["ua/structs.generated.go", "ua/binary_registry.go", "ua/nodeids.generated.go", "ua/binary_encoder.go", "ua/binary_decoder.go"],
  [("registration table", "ua/structs.generated.go init"), ("reflective struct codec", "ua/binary_encoder.go, ua/binary_decoder.go")], None, ["bytes on the wire"])

p("P07", "Decoding failures surface, and malformed input cannot crash a peer",
  "When any part of an incoming message cannot be read or decoded, decoding stops with an error and the partial value is never used as if it were complete. Lengths, dimensions, paddings and offsets taken from the wire never make the decoder or the channel index out of range, and nesting and allocation driven by the wire stay bounded.",
  ["inputs", "fault_sequences"], "for every byte sequence received, truncated or hostile, before or after authentication",
  "Tests only ever decode well-formed messages produced by the same library.",
  ["ua/binary_decoder.go", SC, CC],
  [("error return of every primitive read", "ua/binary_decoder.go"), ("length validation before slicing", SC + ", " + CC)], None, ["error returned / process survival"])

p("P08", "No secured message is acted on before its signature is verified",
  "On a channel whose mode is Sign or SignAndEncrypt, neither peer decodes, delivers or reacts to any chunk of a received message (including channel open and renew) before its signature has been checked, over all bytes that precede it, with the remote party's key, and found valid. Under encryption the chunk is decrypted with the local key before that, and a message that fails the check ends the read with an error.",
  ["inputs", "fault_sequences"], "for every received chunk, policy and mode, on server and client, open and service messages alike",
  "Tests never deliver a tampered or wrongly signed message.",
  [SC, CC],
  [("decrypt, verify, then append body", SC + " readRequest, " + CC + " readResponse")], None, ["error from the channel, no handler call"])

p("P09", "Everything sent on a secured channel is signed, then encrypted, with own keys",
  "On a channel whose mode requires it, every chunk either peer sends is signed over all preceding bytes of the chunk with the sender's own key and then, for encryption, enciphered with the sender's own encryption key before it reaches the connection. Both peers derive the same pair of key sets from the two nonces, each using for sending what the other uses for receiving.",
  ["inputs", "configurations"], "for every chunk of every message, both directions, all policies and modes, across token renewals",
  "Tests check that a session works under one or two policies; an unprotected chunk is accepted by nobody's test and seen by nobody.",
  [SC, CC, "ua/security_policy.go"],
  [("sign and encrypt steps in the send functions", SC + ", " + CC), ("key derivation on token change", SC + ", " + CC)], None, ["bytes written to the connection"])

p("P10", "Security policies use exactly the algorithms and sizes of their profile",
  "For each security policy, hashing, signing, verification, asymmetric and symmetric encryption, key lengths, nonce length, padding and signature sizes are the ones its OPC UA profile prescribes, and the signing and verifying, encrypting and decrypting halves of a policy match each other.",
  ["configurations"], "for each of the six policies and each operation",
  "Tests connect with few policies, both ends using the same library, so a common deviation goes unnoticed.",
  ["ua/security_policy.go"], [("policy method tables", "ua/security_policy.go")], None, ["interoperability of protected messages"])

p("P11", "A peer's certificate is accepted only after full validation",
  "A secured channel is opened with a remote application only after the remote certificate passed validation against the configured trust list; an invalid certificate makes the open fail on server and client alike. Validation accepts a certificate only if its signature chain, trust, validity period, host name or usage and revocation status were each checked, except for the checks the application explicitly suppressed.",
  ["inputs", "configurations"], "for every certificate presented and every combination of suppression options",
  "Tests use one self-signed certificate and switch the checks off.",
  ["ua/certificate_helpers.go", SC, CC, SS],
  [("certificate validation", "ua/certificate_helpers.go ValidateCertificate"), ("calls before key exchange", SC + " Open/readRequest, " + CC + " Open")], None, ["result of opening a channel"])

p("P12", "A session is bound to an identity only after it is authenticated",
  "Activating a session changes its user identity, roles, nonce and channel binding only after the client's signature over the server certificate and current session nonce was verified (on secured policies), the identity token matched a policy the endpoint offers, any token secret or proof was validated, and the application's authenticator accepted the identity. A rejected activation leaves the session exactly as it was, and a successful one replaces the session nonce with a fresh one.",
  ["inputs", "histories"], "for every activation request, policy, token kind and prior session state",
  "Tests activate with correct credentials only.",
  [SS, "server/session.go", "server/auth_provider.go"],
  [("activation handler", SS + " handleActivateSession")], None, ["service result; identity seen by later calls"])

p("P13", "The client never uses a session with a server it has not authenticated",
  "Before a client sends its identity, it has checked that the certificate the server presents for the session is the one of the selected endpoint and, on secured policies, that the server's signature over the client's certificate and nonce verifies. The endpoint it selects has exactly the security policy and mode the application asked for, and the user's secret is encrypted as the token policy demands.",
  ["inputs", "configurations"], "for every server response during connection establishment and every requested security setting",
  "Tests connect to an honest server only.",
  ["client/client.go", "client/option.go"],
  [("endpoint selection and session establishment", "client/client.go Dial, open")], None, ["result of Dial"])

p("P14", "Values, methods, nodes and events are reachable only with permission",
  "Reading or monitoring a value, writing a value, browsing a node, calling a method and receiving an event is carried out only if the access level of the node and the role permissions of the calling session allow it; otherwise that operation's result is Bad and the value, handler or node is neither disclosed nor touched. The permissions consulted are those of the session that made the request.",
  ["inputs", "configurations"], "for every operation, node, access level and role assignment",
  "Tests run almost entirely as one permitted user.",
  [SS, "server/session.go", "server/variable_node.go", "server/event_monitored_item.go", "server/datachange_monitored_item.go"],
  [("permission tests before the effect", SS)], None, ["per-operation status"])

p("P15", "A written value always matches the variable's declared type and rank",
  "The Write service passes a written value to the application's handler or stores it in the variable only after checking that its built-in type and its number of dimensions are ones the variable's data type and value rank allow (a null value aside); anything else is refused and the stored value stays as it was, as it does when the handler or the range write does not report Good. An index range is accepted only if it lies inside the value it is applied to, counted in that value's own units, a range write succeeds only with a value of the stored value's type and of exactly the range's length, and no range reaches memory beyond the value.",
  ["inputs"], "for every written value, variable type, rank and index range",
  "Tests write a few correctly typed values.",
  [SS], [("type and rank test in the write path", SS + " writeValue, writeRange")], None, ["write result and later reads"])

p("P16", "A subscription can be used only by the session that owns it",
  "Requests that modify, delete, republish, acknowledge, or add, change or remove monitored items of a subscription succeed only when made by the session that owns the subscription; for any other session the subscription does not exist. Notifications of a subscription are delivered only in answer to publish requests of its owning session.",
  ["histories", "inputs"], "for every service naming a subscription id and every pair of sessions",
  "Tests have a single session; another session's ids are never used.",
  [SS, "server/subscription_manager.go", "server/subscription.go"],
  [("owner comparison after lookup by id", SS)], None, ["service or operation result"])

p("P17", "Notification messages are numbered without gaps and kept until acknowledged",
  "Within a subscription each notification message that carries data gets the next sequence number after the previous one (one again after the largest, never zero), no two messages share a number, and the message is kept for republishing until acknowledged or until the bounded retransmission queue drops the oldest. Keep-alive messages announce the next number without consuming it, each publish response lists the numbers still held for republishing, and each acknowledgement in a publish request gets its own result in the response to that request. A queued publish request is given up as timed out only if its client set a timeout and it has passed.",
  ["histories", "schedules"], "for every sequence of publish cycles, late requests, acknowledgements and republish calls",
  "Tests receive a couple of notifications and stop.",
  ["server/subscription.go", SS],
  [("publish and late-publish paths", "server/subscription.go")], None, ["sequence numbers and available sequence numbers in publish responses"])

p("P18", "Monitored item queues stay bounded, ordered and honest about overflow",
  "A monitored item never queues more notifications than its revised queue size; on overflow it drops the oldest or the newest according to the requested discard policy and marks the neighbouring value with the overflow bit when the queue holds more than one. Queued notifications leave in the order they entered, each is delivered at most once and under its own item's client handle, none that was taken from the queue is lost, and only reporting or triggered items deliver. A queue is emptied otherwise only when its item is disabled or deleted.",
  ["histories", "schedules"], "for every sequence of samples, publishes, and queue resizings",
  "Overflow needs more samples than the queue between two publishes; no test does that.",
  ["server/datachange_monitored_item.go", "server/event_monitored_item.go"],
  [("enqueue and resize", "server/datachange_monitored_item.go, server/event_monitored_item.go")], None, ["notifications received"])

p("P19", "Shared server state is touched only under its lock",
  "Every mutable field of the structures that connections, workers, timers and API calls of the server share (the server, its session, subscription and namespace managers, sessions, subscriptions, monitored items, nodes, scheduler and poll groups) is read and written only while its owner's lock is held, writes only under the exclusive lock, including the contents of maps, lists and queues. Hence no interleaving can corrupt a registry, a queue, a node's references or a node's value. Plain diagnostic counters (fields only ever stepped by one) and the secure channels, whose state is partly owned by one goroutine, are outside.",
  ["schedules"], "for every interleaving of goroutines",
  "Tests run with one processor and few concurrent requests; a race needs a specific interleaving.",
  ["server/*.go"], [("mutex embedded in each shared structure", "server")], None, ["race-free execution"])

p("P20", "Locks are always released, never re-acquired, and taken in one order",
  "Every lock taken is released on every path out of the function that took it, a goroutine never acquires a lock it already holds, any two locks are always taken in the same order, and no lock is held while waiting on a channel for another goroutine. So no request can leave the server or client blocked for the others.",
  ["schedules", "inputs"], "for every path, including error paths, and every interleaving",
  "A leaked or inverted lock shows only on an error path or an interleaving tests do not take.",
  ["server/*.go", "client/*.go"], [("Lock/Unlock pairs", "server, client")], None, ["progress of other requests"])

p("P21", "Chunks leave whole and in sequence; ids and handles are never zero or reused",
  "All chunks of all messages a peer sends on a channel are written one message at a time, each with the sequence number following the previous chunk's, in the order of the bytes on the connection. Request ids, request handles, channel ids and token ids are handed out without repetition and are never zero, whatever the concurrency.",
  ["schedules", "histories"], "for every interleaving of senders and every message length",
  "Tests send short single-chunk messages from one goroutine.",
  [SC, CC, "server/server.go", "client/client.go"],
  [("sending semaphore and atomic allocators", SC + ", " + CC)], None, ["sequence headers on the wire"])

p("P22", "Negotiated message, chunk and buffer limits hold in both directions",
  "Neither peer sends a chunk larger than the negotiated buffer size or a message exceeding the other side's negotiated size and chunk count, and neither keeps accumulating a received message beyond its own limits: exceeding them ends with an error. Only continuation chunks of one message are joined; an abort chunk discards what was joined.",
  ["inputs", "fault_sequences"], "for every message length and every sequence of chunks received",
  "Tests use messages far below the limits.",
  [SC, CC], [("size and count tests in send and read loops", SC + ", " + CC)], None, ["error from send/receive"])

p("P23", "Every client request ends: response, deadline or closed channel",
  "A call on the client, once its request is sent, returns with the response that carries its own request handle, or with an error when its context or the timeout hint ends or the channel closes; it never receives another request's response. Whatever the outcome, no bookkeeping for the request remains, and a fault, a response of another type or a service result other than Good is reported as an error. When the connection is lost every waiting call is woken.",
  ["schedules", "fault_sequences"], "for every interleaving of concurrent calls, timeouts, late responses and connection loss",
  "Tests see prompt, correct responses to sequential calls.",
  [CC, "client/client.go", "client/client_service_set.go"], [("pending response table and select", CC + " Request, handleResponse")], None, ["result of client calls"])

p("P24", "References between nodes are always mutual and deletions leave none dangling",
  "Every node is registered under its own id. Adding nodes gives the target of each of their references the same reference in the other direction, unless it has it already (type definitions and modelling rules, which are kept in one direction, and targets that are not in the address space aside), whatever the order in which the nodes of one call are given. Deleting a node removes it from the registry and takes the inverse of each of its references, and nothing else, out of the targets; a deletion that reports success has deleted the node, and one with children passes over none of them. Nodes of the OPC UA namespace (index 0) cannot be deleted by id or as the children of another node.",
  ["histories", "inputs"], "for every sequence of additions and deletions and every reference graph",
  "Tests delete a few nodes of simple trees.",
  ["server/namespace_manager.go"], [("inverse reference maintenance, protection test", "server/namespace_manager.go")], None, ["browse results", "error of delete calls"])

p("P25", "Traversals of the address space and of filters terminate on any graph",
  "Walking references, subtypes or notifiers in the address space, or the operands of an event filter, terminates whatever cycles they contain: each walk is bounded by a counter or visits each node once, and each recursion has an argument that moves towards a tested bound. Evaluating an event filter never panics, whatever the number, kind and value of its operands.",
  ["inputs", "configurations"], "for every reference graph and event filter",
  "Tests use acyclic graphs only.",
  ["server/namespace_manager.go", "server/event_monitored_item.go"],
  [("visited marks and depth bounds", "server/namespace_manager.go, server/event_monitored_item.go")], None, ["request completes"])

p("P26", "Server resources per client stay within their advertised limits",
  "The numbers of sessions, subscriptions and browse continuation points never exceed the configured maxima, and requested timeouts, publishing intervals, keep-alive and lifetime counts, sampling intervals and queue sizes are revised into the configured range before they take effect. A request that would exceed a maximum is refused with the corresponding Bad result.",
  ["inputs", "histories"], "for every requested value (including zero, negative, huge and NaN) and every history of creations",
  "Tests request ordinary values and never reach a maximum.",
  ["server/session_manager.go", "server/subscription_manager.go", "server/session.go", "server/subscription.go", SS],
  [("count tests before insertion, clamps", "server/*.go")], None, ["revised values and service results"])

p("P27", "Expired or closed sessions and subscriptions release everything they hold",
  "When a session closes or expires, or a subscription is deleted or outlives its lifetime count, it is removed from its registry, its timers stop, its monitored items are detached from the sampling groups and nodes they observe, its queued publish requests are answered or dropped, and later requests naming it are refused.",
  ["histories", "schedules"], "for every way a session or subscription can end",
  "Tests close once at the end of the process.",
  ["server/session_manager.go", "server/subscription_manager.go", "server/session.go", "server/subscription.go", "server/datachange_monitored_item.go", "server/event_monitored_item.go", "server/scheduler.go"],
  [("delete paths", "server/*.go")], None, ["later service results", "live goroutines and listeners"])

p("P28", "Background goroutines stop when their server, channel or subscription closes",
  "Every goroutine the server or client starts for a listener, connection, timer or worker ends once the thing it serves is closed, and shutting down closes every internal channel at most once whatever order and however often close is called.",
  ["schedules", "histories"], "for every order of close calls, connection failures and expiries",
  "Tests exit the process instead of checking for leftovers.",
  ["server/server.go", SC, "server/scheduler.go", "server/session_manager.go", "server/subscription_manager.go", "server/subscription.go", CC, "client/client.go"],
  [("closing channels in select loops, once guards", "server/*.go, client/*.go")], None, ["goroutine termination, no panic"])

p("P29", "Data changes reach subscribers within the promised publishing interval",
  "A change of a monitored value that passes the filter is delivered to the subscriber no later than the revised sampling plus publishing interval after it happened, provided publish requests are available.",
  ["schedules"], "for every load and timing", "Depends on real time and load.",
  ["server/subscription.go", "server/scheduler.go"], [("tickers", "server/subscription.go, server/scheduler.go")])

p("P30", "Replayed, dropped or reordered chunks are rejected",
  "A chunk is accepted only if the sequence number in its (verified) sequence header is the successor of the last one received on the channel, except for the first chunk of a channel and the wrap-around the standard permits near the maximum (from above 2^32-1-1024 to below 1024). Any other chunk is not joined to a message and ends the channel with an error; the number of an accepted chunk is remembered for the next.",
  ["inputs", "histories"], "for every sequence of received chunks, both peers, all modes", "Tests never replay or drop a chunk.",
  [SC, CC], [("sequence check in the read loops", SC + " readRequest, checkSequenceNumber; " + CC + " readResponse, checkSequenceNumber")], None, ["error that ends the channel"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
