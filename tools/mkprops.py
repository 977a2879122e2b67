#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

SRV, CLI = "runtime/server.c", "runtime/client.c"
LS, LC = "runtime/link/socket/server.c", "runtime/link/socket/client.c"
GEN = "generator/languages/langc.py"

prop("C01", "Values survive the trip through generated client and server code",
 "For every protocol definition the generator accepts, each argument a client passes to a generated call arrives at the server's handler with the same value, each value passed to the generated response function is returned by the client's result function, and each value passed to an event-sending function arrives at the client's event handler. This covers every scalar type, enums, strings, nested and extended structures, variants and variable-length arrays, in any combination and order of parameters, for messages that fit the configured maximum size, on stream and on packet links, and also when a response is given later for a deferred request. The generated subscribe and unsubscribe calls turn exactly the events of their own service on and off.",
 ["programs", "inputs"], "all accepted protocol definitions x all argument values that fit in a message",
 "The tests use one fixed protocol file with a few hand-written values; type combinations, parameter orders, empty and long arrays and extreme values are not reached.",
 [GEN, "generator/common/shared.py", "generator/parser.py", "generator/passes/consolidate.py"],
 [("generated serialize_/deserialize_ functions and message header", GEN), ("client result functions", GEN)],
 observe=["server handler arguments", "client _result out-parameters", "client event handler arguments"])

prop("C02", "Every call yields exactly the response that was sent to it",
 "A client that has made any number of calls, and receives their responses in any order, mixed with events, error notifications and responses to messages nobody is waiting for, obtains for each call exactly the payload the server sent for that call, exactly once. Asking for the result of a call that is still in progress does not disturb it, and events are delivered to their handler exactly once each in arrival order.",
 ["histories", "inputs"], "all interleavings of calls, responses, events, errors, stray and repeated responses, and client wait/await/result operations, within the configured receive memory",
 "The tests await one to a few calls answered in order by a well behaved server; reordering, strays, early result queries and long histories are not exercised.",
 [CLI, "runtime/arena.c", "runtime/hashtable.c"],
 [("message id allocation and descriptor table", CLI), ("response matching", CLI), ("gracht_client_get_status_buffer / _status_finalize", CLI)],
 [("messages", "calls in air by id", CLI)], ["_result status and payload", "event handlers"])

prop("C03", "Every request runs its handler exactly once with its own bytes",
 "Every complete, well-formed request that a connected client sends to a registered function is executed exactly once, by the handler of that function, with exactly the bytes that were sent, whatever the number of worker threads, clients, outstanding requests and message sizes up to the configured maximum. A single-threaded server executes the requests of one client in the order they were sent, and each response a handler gives is sent to the caller exactly once, intact and carrying the identity of its request.",
 ["schedules", "histories", "inputs", "configurations"], "all request histories of all clients, worker counts, and interleavings of dispatcher and workers",
 "Tests send a handful of requests from one client at a time with default scheduling; queue overflow, memory-pool reuse and worker interleavings over long runs are not reached.",
 [SRV, "runtime/dispatch_generic.c", "runtime/queue.c", "runtime/arena.c", "runtime/stack.c", LS],
 [("dispatch_st / dispatch_mt", SRV), ("worker queues", "runtime/dispatch_generic.c"), ("response buffer stack", "runtime/stack.c")],
 [("job_queue", "requests waiting for a worker", "runtime/dispatch_generic.c")], ["handler invocations", "bytes received by clients"])

prop("C04", "Responses and targeted events reach only the client they are meant for",
 "With any number of clients connecting, disconnecting and being served at once, a response is delivered only on the connection whose request it answers, and a targeted event only to the client that holds the handle it names, each as one intact message. When the connection of a request is already gone its response is discarded: it never reaches another client, even one that connected later.",
 ["histories", "schedules"], "all histories of connects, disconnects, requests, deferred and immediate responses and targeted events, with any number of workers",
 "Tests use one client at a time and never answer after the requester has left or while others come and go.",
 [SRV, LS, "runtime/hashtable.c"],
 [("client table lookup by connection", SRV), ("gracht_server_respond / gracht_server_send_event", SRV)],
 [("clients", "connected clients by handle", SRV)], ["bytes received on every client connection"])

prop("C05", "Broadcast events reach exactly the subscribed clients",
 "A broadcast event is delivered exactly once, intact and in order, to every connected client subscribed to its service at that moment and to no other client. A connected (stream) client starts out subscribed to everything, and any sequence of subscribe and unsubscribe requests - for one service or for all of them - leaves it subscribed to exactly the services that sequence implies.",
 ["histories"], "all histories of connects, disconnects, subscriptions, unsubscriptions and broadcasts over all service ids",
 "Tests never unsubscribe, and only one client receives events.",
 [SRV, "runtime/control.c", "runtime/hashtable.c"],
 [("client_subscribe / client_unsubscribe / client_is_subscribed", SRV), ("gracht_server_broadcast_event", SRV)],
 [("subscriptions", "bitmap of subscribed services per client", "include/gracht/link/link.h")], ["events received per client"])

prop("C06", "Message framing does not depend on how the stream is cut up",
 "On stream links the sequence of messages handled by either side depends only on the bytes sent: cutting the byte stream into arbitrary segments, delivered with arbitrary delays between them, never loses, duplicates, splits, merges or alters a message on the server or in the client. This includes segments ending inside a header and a client that polls without blocking while a message is partly received.",
 ["inputs", "schedules"], "all segmentations and delivery timings of all well-formed message streams, in both directions",
 "Local sockets in the tests deliver each small message in one piece, so partial headers and payloads never occur.",
 [LS, LC, SRV, CLI], [("socket_link_recv_client", LS), ("socket_link_recv_stream", LC)],
 observe=["handler invocations", "client results and event handlers"])

prop("C07", "Malformed input cannot corrupt a peer or disturb other clients",
 "Whatever bytes a peer sends - frames that announce a length smaller than a header or larger than the receiver can hold, truncated or inconsistent datagrams, unknown services, functions or message types, random garbage - the receiving server or client neither crashes nor reads or writes outside its message buffers, and does not invoke a handler for a frame whose announced length is invalid. Requests of all other clients continue to be executed and answered correctly.",
 ["inputs", "fault_sequences"], "all byte sequences sent by one peer, at any point in the history of the others",
 "Every test peer is well behaved.",
 [LS, LC, SRV, CLI, "runtime/control.c"], [("length checks in the receive paths", LS), ("length checks in the receive paths", LC), ("unknown action handling", SRV)],
 observe=["memory safety under sanitizer", "other clients' results"])

prop("C08", "A client vanishing at any moment leaves the server serving the others",
 "A client may disconnect or die at any point - between messages, inside a header or payload, with requests queued or executing, with responses or events unread or being sent - and the server keeps running, executes each of that client's requests at most once, and continues to accept new clients and to serve the others correctly. The departed client's connection and bookkeeping are released.",
 ["fault_sequences", "crash_points", "schedules"], "all disconnect points in all histories, clean close, half close and reset, with any number of workers",
 "Test clients always finish their conversation before closing.",
 [SRV, LS, "runtime/dispatch_generic.c"], [("disconnect event handling and client_destroy", SRV), ("socket_link_send_client", LS)],
 observe=["server process", "other clients' results", "open descriptors"])

prop("C09", "A call that cannot be served ends in an error for its caller",
 "A request naming a service or function that is not registered at the time it is executed produces exactly one error notification carrying that request's identity, delivered to that caller only, and runs no handler; the caller's call then completes with an error status instead of waiting forever. Registering and unregistering services in any order (duplicates are refused and leave the first in force) makes exactly the currently registered ones callable.",
 ["histories", "inputs"], "all histories of register, unregister and calls over all service and function ids",
 "Tests call only functions that exist and never unregister.",
 [SRV, "runtime/control.c", "runtime/shared.c", CLI, "runtime/hashtable.c"],
 [("server_invoke_action", SRV), ("gracht_control_error_invocation", CLI)],
 [("protocols", "registered services by id", SRV)], ["error events and call status", "handler invocations"])

prop("C10", "Awaiting returns when, and only when, its condition is met",
 "Waiting for several calls with the 'all' mode returns success only once every one of them has a response or error, and with the 'any' mode as soon as at least one has; both hold when the waiter pumps messages itself and when another thread does (asynchronous mode), for every arrival order and thread interleaving, with no wake-up lost. If the connection is lost first, a waiter does not hang: it returns with an error.",
 ["schedules", "histories", "fault_sequences"], "all subsets and modes, arrival orders, thread interleavings, and connection-loss points",
 "The tests use single-threaded 'all' waits answered in order on a connection that never fails.",
 [CLI, LC], [("gracht_client_await_multiple", CLI), ("mark_awaiters", CLI), ("gracht_client_wait_message", CLI)],
 [("awaiters", "threads waiting for calls", CLI)], ["return of await calls vs. model of received responses"])

prop("C11", "Receive memory is never shared, overrun or lost",
 "Buffers handed out for messages in flight never overlap one another or leave their pool, keep their contents until released, and may be released whole or shrunk at the end in any order. Once everything has been released, the whole pool is available again, so a server or client can run for an unlimited number of messages as long as the amount outstanding stays within its configured limit.",
 ["histories", "schedules"], "all sequences of allocation, shrinking and release over all sizes, from any number of threads",
 "The tests exchange too few messages to fragment or exhaust the pool.",
 ["runtime/arena.c", SRV, CLI], [("gracht_arena_allocate / gracht_arena_free", "runtime/arena.c")],
 [("base", "pool of variable-length blocks", "runtime/arena.c")], ["returned pointers and their contents", "long message histories"])

prop("C12", "Internal registries behave like maps and queues",
 "The tables that map identifiers to calls, clients, services and waiters behave as exact maps under any sequence of insertions, replacements, lookups, removals and enumerations, including colliding keys, growth and shrinking; the work queues are first-in first-out and lose nothing they accepted; the buffer pool never hands out the same buffer twice. Consequently any number of services and simultaneous calls can be registered, found and removed.",
 ["histories", "schedules"], "all operation sequences, key sets and (for the buffer pool) thread interleavings",
 "The tests never have more than a few entries, so growth, shrinking, collisions and wrap-around are not reached.",
 ["runtime/hashtable.c", "runtime/queue.c", "runtime/stack.c"],
 [("open addressing with backward shift", "runtime/hashtable.c"), ("ring buffer", "runtime/queue.c"), ("buffer stack", "runtime/stack.c")],
 observe=["operation results against a model"])

prop("C13", "Connectionless links carry requests, replies and subscriptions",
 "On a packet link every well-formed datagram is executed exactly once as one request and its response is sent to the address it came from and nowhere else, for any number of senders and any workers. A sender becomes a known client when it subscribes, then receives exactly the broadcasts of the services it is subscribed to and the errors for its unserveable calls, and is forgotten when it unsubscribes from everything. Senders are told apart by their whole address, and never taken for one another or for a connected client.",
 ["histories", "schedules", "configurations"], "all histories of datagrams, subscriptions and broadcasts from any number of senders, over internet and local sockets",
 "The tests only ever use the stream link for calls; no test receives anything over the packet link.",
 [LS, LC, SRV, "runtime/crc.c"], [("socket_link_recv_packet / socket_link_send_packet / socket_link_create_client", LS), ("handle_packet", SRV)],
 observe=["datagrams received by each sender", "handler invocations", "connect/disconnect callbacks"])

prop("C14", "Shutdown always completes and releases everything",
 "Once shutdown has been requested - from a handler, from a connection callback or from another thread, with clients connected, requests queued and workers busy or just starting - the server stops at the next event (handlers in progress return first): its main loop or event function returns, no handler runs afterwards, and all of its threads, sockets and memory are released. A client can likewise be shut down in any state, whether or not it ever managed to connect.",
 ["schedules", "histories"], "all moments of the request relative to the activity of dispatcher, workers and clients",
 "One test requests shutdown on an otherwise idle server.",
 [SRV, "runtime/dispatch_generic.c", LS, LC, CLI], [("gracht_server_shutdown", SRV), ("gracht_worker_pool_destroy", "runtime/dispatch_generic.c"), ("gracht_client_shutdown", CLI)],
 observe=["return of the main loop", "threads, descriptors and allocations left"])

prop("C15", "Resource use does not grow with the length of the history",
 "After any history of connects, requests, responses, deferred replies, events, errors, subscriptions and disconnects, the memory and descriptors held by a server or client depend only on what is currently connected and in progress and on how much was in progress at once, not on how much has happened before. Repeating the same activity any number of times - including attempts to connect or to add a link that fail - does not make them grow, and nothing remains once the server or client has shut down.",
 ["histories", "fault_sequences"], "all histories, including failed sends to departed clients and refused operations",
 "Tests do not measure resource use and exit after a few messages.",
 [SRV, CLI, LS, "runtime/stack.c", "runtime/hashtable.c"], [("buffer stack", "runtime/stack.c"), ("client_destroy", SRV), ("status buffers", CLI)],
 observe=["bytes allocated and descriptors open by the library at quiescence"])

prop("C16", "The generator accepts valid definitions and rejects invalid ones",
 "Every protocol definition that follows the documented format - with service, function and event identifiers in range and unique, and only known types - is accepted, and the generated client and server sources compile without errors. A definition with a syntax error, an unknown type, a service identifier outside 1..254, or a function or event identifier that is out of range or used twice in a service is rejected with a non-zero exit status.",
 ["programs"], "all protocol definitions, valid ones and single mutations of them",
 "One valid protocol file is generated in the build; nothing invalid is ever tried.",
 ["generator/parser.py", "generator/passes/validate.py", "generator/common/shared.py", GEN],
 [("syntax tables and parse_scope", "generator/parser.py"), ("pass_validate", "generator/passes/validate.py")],
 observe=["exit status of the generator", "compiler result on the generated sources"])

prop("C17", "Generated structure helpers own their data and copy it deeply",
 "For every structure in an accepted definition the generated helpers keep value semantics: a copy equals its source and shares no memory with it, elements added to or obtained from variable arrays are the ones stored, a variant reports exactly the alternative that was last set, and destroying each value once releases everything it owns. Values read from a message are owned by the reader in the same way.",
 ["programs", "inputs"], "all structure definitions x all values and sequences of helper calls",
 "The tests use the helpers of three structures in one fixed sequence without checking ownership.",
 [GEN, "generator/common/shared.py"], [("generated _init/_copy/_destroy/_add/_get/_set_/_alloc helpers", GEN)],
 observe=["structure contents after helper calls", "memory sanitizer"])

prop("C18", "Generated code depends only on the meaning of the definition",
 "Generating twice gives identical files, and layout of the definition - whitespace, line breaks, comments, number base, splitting shared types into an imported file - does not change the wire format or interfaces of the services. Selecting services with the include option generates exactly the selected ones, unchanged, and client and server generated in separate runs agree with each other.",
 ["programs", "configurations"], "all accepted definitions x all meaning-preserving rewrites and generator options",
 "The build runs the generator once per file with one layout.",
 ["generator/parser.py", GEN, "generator/common/shared.py"], [("tokenizer", "generator/parser.py"), ("header generation and ordering", GEN)],
 observe=["generated files"])

prop("C19", "A deferred request can be answered later, in any order",
 "A handler may set its request aside with the deferral function and answer it any time later - after any number of other requests from the same or other clients, in any order, from another handler or thread - and the response reaches the original caller with the right identity. Deferring does not affect the requests processed in between.",
 ["histories", "schedules"], "all interleavings of deferrals, other requests and late answers, on stream and packet links, with any number of workers",
 "The deferral test defers one request and answers it right after.",
 [SRV, "include/gracht/types.h", LS], [("gracht_server_defer_message", SRV), ("GRACHT_MESSAGE_DEFERRABLE_SIZE", "include/gracht/types.h")],
 observe=["responses received by callers"])

prop("C20", "Threads sharing one client each get their own responses",
 "Several threads may call, wait and fetch results through the same client at the same time, and each obtains exactly the responses to its own calls and none blocks once its response has arrived; the messages they send are never interleaved with one another.",
 ["schedules", "histories"], "all thread interleavings of concurrent invoke, wait, await and result operations on one client",
 "All client tests are single-threaded.",
 [CLI, "runtime/arena.c"], [("send buffer lock", CLI), ("wait lock and message table lock", CLI)],
 observe=["results per thread", "bytes seen by the server"])

prop("C21", "Connect and disconnect callbacks are balanced, once per client",
 "The server reports each client's arrival exactly once, before any of its requests is handled, and its departure exactly once when it leaves while the server runs; nothing is reported for clients that were never announced. A connectionless client counts as arriving when it first subscribes and as departing when it unsubscribes from everything.",
 ["histories", "fault_sequences"], "all histories of connects, disconnects, protocol violations and subscription changes on stream and packet links",
 "No test registers the callbacks and checks them.",
 [SRV, LS], [("handle_connection / client_destroy", SRV), ("subscribe and unsubscribe invocations", SRV)],
 observe=["callback invocations"])

prop("C22", "Signals and interrupted system calls disturb no communication",
 "Handled signals may interrupt the library at any time: whenever a system call it waits in ends early - with EINTR, after a part of the data was transferred, or because accepting a connection fails for the moment - the server keeps running and no message is lost, cut short, repeated or altered, no connection is given up and no waiter is told that its call failed. (A wait may return with EINTR, and can then be repeated.)",
 ["fault_sequences", "schedules", "histories"], "all points at which a blocking system call of server or client is interrupted, in all request, response and event histories",
 "No test delivers a signal or interrupts a transfer.",
 [LC, LS, SRV, CLI], [("send and receive of stream and packet links", LC), ("send of stream and packet clients", LS), ("gracht_server_main_loop", SRV)],
 observe=["bytes received by either side", "status of waits and calls", "main loop still running"])

prop("C23", "Running out of resources fails only the operation that needed them",
 "Whenever a request of the library for memory, a thread or a descriptor fails, the operation that needed it is refused with an error and leaves nothing behind - creating, connecting or registering can simply be tried again - and nothing else suffers: the server keeps running, established clients keep their connections, every complete request they have sent is still executed exactly once and answered, calls in progress complete with their own responses, departing clients and unregistered services disappear. A new connection is either served or closed. Once resources are available again everything works, and shutdown releases everything. (A client that is in the middle of a message may be disconnected, and the notification about an unserveable call may be lost.)",
 ["fault_sequences", "histories", "schedules"], "all points at which an allocation, a thread creation or a descriptor creation of server or client fails, in all histories of connects, disconnects, registrations, calls and events",
 "No test lets an allocation, thread or descriptor creation fail.",
 [SRV, CLI, LS, LC, "runtime/hashtable.c", "runtime/dispatch_generic.c", "runtime/stack.c"], [("gracht_server_create, configure_server, handle_connection", SRV), ("gracht_worker_pool_create, gracht_worker_pool_dispatch", "runtime/dispatch_generic.c"), ("gr_hashtable_set, gr_hashtable_remove", "runtime/hashtable.c"), ("gracht_client_create, gracht_client_invoke", CLI), ("socket_link_accept, socket_link_setup", LS)],
 observe=["return values of the API", "requests executed and responses received", "connections closed", "blocks, descriptors and threads held"])

prop("C24", "Services come and go at any time without disturbing one another",
 "Any thread may register and unregister services with a server or with a client at any time: while requests are being executed, while another thread receives events, or from within a handler. Each such operation affects exactly the service it names. Requests to and events of services that stay registered are each handled exactly once, by their own handler, no matter how many others are registered or unregistered meanwhile; those of services that are not registered from before the message was sent until after it was dealt with run no handler; and registering a service that is not registered succeeds.",
 ["schedules", "histories"], "all interleavings of registering and unregistering threads and handlers with the receiving thread and the workers, all sets of identifiers (colliding ones included)",
 "The tests register their services once, before anything is received.",
 [SRV, CLI, "runtime/shared.c", "runtime/hashtable.c"], [("gracht_server_register_protocol, gracht_server_unregister_protocol, server_invoke_action", SRV), ("gracht_client_register_protocol, gracht_client_unregister_protocol, __invoke_action", CLI)],
 observe=["handlers that run", "responses and error notifications", "results of registering"])
prop("C25", "Any implementation of the link interface works",
 "Servers and clients use a link only through the operations of the link interface, so links implemented by the application work as the socket links do. An operation is invoked only on links and clients it is meant for (a stream link needs no packet operations, a packet link no stream operations), only between the link's successful setup or connect and its destruction, never on a client that was destroyed, and with the server's own set of handles. Every client a link created is destroyed exactly once, not while a message is being sent to it and before its link; every link that was added is destroyed exactly once when the server stops, and a link that could not be added is not used. The metadata, link handle and client handle a link stored with a message reach the handler and the link's send and create operations unchanged, however large the metadata is up to what the interface allows; a link is asked about the sender only of its own messages. Each message is handed to its link once, complete and unchanged, and the sender of a response or targeted event gets the link's result. An operation that fails affects only the message, client or link it was invoked for. A client never has two threads sending or two threads receiving on its link at once, and a call the link refuses to send is no longer in progress.",
 ["inputs", "histories", "schedules", "fault_sequences"], "all combinations of links (stream, packet, with or without metadata and sender test) and handles, all histories of clients and messages on them, all operations that fail, all interleavings",
 "Only the socket links are used in the tests, and their operations are never observed.",
 ["include/gracht/link/link.h", SRV, CLI], [("struct server_link_ops, struct client_link_ops", "include/gracht/link/link.h"), ("gracht_server_add_link, handle_connection, handle_packet, handle_client_event, resolve_sender, gracht_server_respond, gracht_server_shutdown", SRV), ("gracht_client_connect, gracht_client_invoke, gracht_client_wait_message, gracht_client_shutdown", CLI)],
 observe=["invocations of the link's operations and their arguments", "what handlers are given", "results of sending"])
prop("C26", "Operations that cannot be carried out are refused and change nothing",
 "An operation of the server or client interface that cannot be carried out returns an error, promptly, and changes nothing else. This holds when an argument is missing, for registering a service whose identifier is registered already, adding a link that fails or for which there is no room, sending an event to a client that is not connected, passing on an event of a descriptor the server does not own, and for the operations of a server whose shutdown was requested; and for connecting a client that is connected or to nobody, calls and waits before the connection or after it broke, a synchronous call without a context, and waiting for or asking for the result of a call that is not in progress. Services, links, connections, calls in progress, received messages and buffers remain as they were, no memory, descriptor or lock is kept, other threads go on undisturbed, and the operation succeeds once its cause is gone; a message for which there is no space is received once there is.",
 ["inputs", "histories", "schedules"], "all histories of possible and impossible operations in every state of a server or client, from one or several threads",
 "The tests use the interface as intended; hardly any operation is refused in them, and nothing is attempted afterwards.",
 [SRV, CLI, "include/gracht/server.h", "include/gracht/client.h"], [("gracht_server_add_link, gracht_server_register_protocol, gracht_server_send_event, gracht_server_handle_event, handle_client_event, gracht_server_request_shutdown, gracht_server_get_aio_handle", SRV), ("gracht_client_connect, gracht_client_invoke, gracht_client_wait_message, gracht_client_await_multiple, gracht_client_get_status_buffer", CLI)],
 observe=["return values and errno", "requests, responses and events before and after", "blocks and descriptors held"])

prop("C27", "The wire format is fixed",
 "The bytes of every message generated code sends follow from the definition alone, so that peers built at different times, with other options or by other means understand each other. A message is a header of 11 bytes (message id and total length of 4 bytes each, service id, action id, and a byte that is 0 for a call with a result, 1 for a call without one, 2 for an event and 3 for a response) and its parameters in the order of their declaration, without padding and little-endian: integers and floating point numbers in their declared width, a bool as one byte, an enumeration value as four bytes, a string as its length without terminator in four bytes, its characters and a zero byte (no string is an empty string), an array as the number of elements in four bytes and the elements, a structure as its members in order (those of the extended structure first), a variant as one byte with the number of the alternative, counted from 1 in the order of declaration (0: none), and its value. Subscribe and unsubscribe are calls 0 and 1 without result of service 0 with the service id in one byte.",
 ["programs", "inputs"], "all accepted protocol definitions x all argument values that fit in a message",
 "In the tests both peers come from the same run of the generator, so any change of the format that both sides agree on passes; no byte of a message is looked at.",
 [GEN, "include/gracht/types.h", SRV, CLI], [("generated serialize_ functions, write_message_header, subscribe and unsubscribe", GEN), ("gracht_client_invoke, gracht_server_respond, gracht_server_send_event (length field)", SRV)],
 observe=["bytes handed to the link by calls, responses, events and subscriptions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
