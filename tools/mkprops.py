#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
L = "lib/go/src/thrift/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Binary protocol round-trips every value in the standard wire format",
 "Whatever sequence of message header, structs, fields, maps, lists, sets and scalar values an application writes through the binary protocol, the bytes produced are exactly those the Thrift binary protocol prescribes, and reading them back yields the same names, types, ids, sequence numbers, sizes and values. The header carries the version word when strict writing is configured and is unversioned otherwise; a reader accepts both forms unless strict reading is configured, in which case an unversioned header is rejected, and a header with a wrong version is always rejected.",
 ["inputs", "configurations"], "every well-formed message (value tree) and every strict/non-strict reader and writer combination",
 "Tests write a handful of scalars and never nest structures, vary headers, or compare the bytes with an independent encoder.",
 [L+"tbinary_protocol.go"], [("big-endian scalar and header codec", L+"tbinary_protocol.go")],
 observe=["bytes on the transport after writing", "values returned by the read calls"])
prop("C02", "Compact protocol round-trips every value in the standard wire format",
 "Whatever sequence of message header, structs, fields, maps, lists, sets and scalar values an application writes through the compact protocol, the bytes produced are exactly those the Thrift compact protocol prescribes, including field-id deltas, booleans folded into field headers and zigzag varints. Reading them back yields the same names, types, ids, sequence numbers, sizes and values at any nesting depth, and every other legal compact encoding of the same values (long-form field ids, long-form sizes) decodes to the same values.",
 ["inputs"], "every well-formed message, at any nesting, any order of field ids, and any legal encoding of it",
 "The round-trip test is known-failing at this commit and covers isolated scalars only; field-id deltas depend on the whole history of enclosing structs.",
 [L+"tcompact_protocol.go"], [("field-id stack, pending boolean field, zigzag/varint codec", L+"tcompact_protocol.go")],
 state=[("lastField/lastFieldId", "stack of last field ids of the open structs", L+"tcompact_protocol.go"), ("booleanField/boolValue", "boolean value merged with a field header", L+"tcompact_protocol.go")],
 observe=["bytes on the transport after writing", "values returned by the read calls"])
prop("C03", "JSON protocol emits valid JSON and round-trips every value",
 "Whatever message is written through the JSON protocol, the output is one syntactically valid JSON document and reading it back through the JSON protocol yields the same message header, field ids and types, container types and sizes, and values, for every type including nested structs and containers, map keys, special floating-point values and arbitrary Unicode strings and binary data. Several messages can follow one another on the same connection and protocol objects. A byte is accepted in signed and in unsigned notation.",
 ["inputs", "histories"], "every well-formed message or sequence of messages",
 "Tests exercise single scalars at top level; field types, nesting contexts and back-to-back messages are not covered.",
 [L+"tjson_protocol.go", L+"tsimple_json_protocol.go"], [("type-name tables, context stack, quoting", L+"tjson_protocol.go")],
 state=[("parseContextStack/dumpContext", "where in the JSON grammar reader and writer are", L+"tsimple_json_protocol.go")],
 observe=["document written", "values read back"])
prop("C04", "Simple JSON protocol emits valid JSON and its values read back",
 "Whatever message is written through the simple JSON protocol, the output is one syntactically valid JSON document in which each struct is an object keyed by field name holding the field values. Reading it back with the expected types through the simple JSON protocol yields the same header, field names, container types and sizes, and values, for every type including special floating-point values and arbitrary Unicode strings and binary data.",
 ["inputs", "histories"], "every well-formed message or sequence of messages",
 "Tests exercise single scalars and flat containers at top level only.",
 [L+"tsimple_json_protocol.go"], [("context stack, quoting, numeric parsing", L+"tsimple_json_protocol.go")],
 observe=["document written", "values read back"])
prop("C05", "Decoding does not depend on how the bytes are fragmented",
 "For every message and each of the four protocols, the decoded result is the same however the transport cuts the byte stream into reads: one byte at a time, at any split points, with empty reads in between, or with end-of-stream reported together with the last bytes.",
 ["inputs", "fault_sequences"], "every message, every way of cutting its bytes into reads",
 "Tests read from memory buffers that always deliver everything at once.",
 [L+"ttransport.go", L+"tbinary_protocol.go", L+"tcompact_protocol.go", L+"tjson_protocol.go", L+"tsimple_json_protocol.go", L+"tframed_transport.go"],
 [("full-read loop", L+"ttransport.go"), ("buffered JSON reader", L+"tsimple_json_protocol.go")], observe=["values read"])
prop("C06", "Decoding a complete message never waits for bytes beyond it",
 "Once all bytes of a message have arrived, reading that message to its end succeeds without needing any further byte from the transport, for each of the four protocols, whatever the fragmentation. (Otherwise both peers of a request/response exchange would wait for each other forever.)",
 ["inputs", "schedules"], "every message, followed by silence on the connection",
 "Memory buffers answer end-of-file instead of blocking, so a read past the end goes unnoticed in tests.",
 [L+"tsimple_json_protocol.go", L+"tjson_protocol.go", L+"tbinary_protocol.go", L+"tcompact_protocol.go", L+"tframed_transport.go"],
 [("look-ahead of the JSON reader", L+"tsimple_json_protocol.go")], observe=["reads issued to the transport"])
prop("C07", "Truncated input and read failures are always reported",
 "If the byte stream of a message ends or fails before the message is complete, reading the message reports an error, at whatever byte this happens: no read call sequence completes with success on an incomplete message, panics or loops. This holds for all four protocols, also through the framed transport, and when the data is being skipped instead of read; for values and containers read on their own; and for the binary and compact protocols also when a single read fails and later ones would succeed.",
 ["inputs", "fault_sequences", "crash_points"], "every message, every position of the truncation or read error",
 "Requires a fault at every byte position of every shape of message; tests inject no faults.",
 [L+"tbinary_protocol.go", L+"tcompact_protocol.go", L+"tjson_protocol.go", L+"tsimple_json_protocol.go", L+"tprotocol.go", L+"ttransport.go", L+"tframed_transport.go"],
 [("error propagation in read paths", L+"tprotocol.go")], observe=["error results of the read calls"])
prop("C08", "Failed writes and flushes are always reported",
 "If the transport fails to accept any of the bytes of a message, or fails to flush it, some call of the write sequence up to and including the final flush reports an error, for each of the four protocols, directly or through the framed transport; a write sequence whose calls all report success has delivered every byte of the message in order.",
 ["inputs", "fault_sequences"], "every message, every position of the failing write or flush",
 "Requires a failure at every write of every shape of message; tests inject no faults.",
 [L+"tbinary_protocol.go", L+"tcompact_protocol.go", L+"tjson_protocol.go", L+"tsimple_json_protocol.go", L+"tframed_transport.go", L+"tiostream_transport.go"],
 [("error propagation in write paths", L+"tsimple_json_protocol.go")], observe=["error results of the write calls", "bytes delivered"])
prop("C09", "Arbitrary input bytes never crash, hang or exhaust the reader",
 "Given any byte string instead of a valid message, every read or skip sequence over any of the four protocols terminates with values or an error: it never panics, never reports a negative container size as success, never loops without consuming input, and never allocates memory out of proportion to the bytes actually received.",
 ["inputs"], "every byte string",
 "Tests only feed valid input.",
 [L+"tbinary_protocol.go", L+"tcompact_protocol.go", L+"tjson_protocol.go", L+"tsimple_json_protocol.go", L+"tprotocol.go"],
 [("size and type checks in the readers", L+"tbinary_protocol.go")], observe=["outcome of read calls"])
prop("C10", "Skipping a value consumes exactly that value",
 "Skipping a value of any type leaves the protocol at exactly the position, and in exactly the state, that reading the value would have, so that everything following it is decoded unchanged; errors met while skipping are reported. The configured maximum nesting depth bounds how deep skipping descends: values nested deeper are rejected with an error and shallower ones are skipped. This holds for the protocols that carry field types (binary, compact, JSON) and for every value without struct fields in the simple JSON protocol.",
 ["inputs", "configurations"], "every value of every type and nesting, every maximum depth, binary, compact and JSON protocols",
 "Skip has no tests; it must be right for every value shape in every context.",
 [L+"tprotocol.go"], [("recursive skip", L+"tprotocol.go")], observe=["values read after the skipped one", "error results"])
prop("C11", "Framed transport carries the byte stream in exact length-prefixed frames",
 "Each flush of a framed transport sends exactly one frame, a four-byte big-endian length followed by the bytes written since the previous flush, and nothing reaches the underlying transport before the flush. The receiving side reproduces the concatenation of all frames (including empty ones) as one byte stream, for any sizes of the read requests and any fragmentation underneath; a stream that ends or fails inside a frame is reported as an error and never as data. It is open exactly when the transport underneath is; opening and closing it open and close that transport, with its errors.",
 ["inputs", "histories", "fault_sequences"], "every sequence of writes, flushes and reads, every fragmentation and fault underneath",
 "The test pushes one message through in one piece.",
 [L+"tframed_transport.go"], [("write buffer and frame reader", L+"tframed_transport.go")],
 state=[("writeBuffer", "bytes not yet flushed", L+"tframed_transport.go"), ("readBuffer", "rest of the current frame", L+"tframed_transport.go")],
 observe=["bytes on the underlying transport", "bytes read"])
prop("C12", "Memory and stream transports are faithful FIFO byte queues",
 "For every interleaving of writes, flushes, reads, closes and resets, a memory buffer and a stream transport deliver the written bytes in order, each exactly once, never more than were written and flushed; writes of any size including zero succeed; reads on an empty memory buffer report end of stream; after close, reading, writing and flushing a stream transport report not-open and leave the stream alone.",
 ["histories", "inputs"], "every operation sequence",
 "Tests write one block and read it back.",
 [L+"tmemory_buffer.go", L+"tiostream_transport.go"], [("buffer delegation", L+"tmemory_buffer.go")], observe=["bytes and errors returned"])
prop("C13", "Socket transports keep their lifecycle and byte stream consistent",
 "A socket transport is open exactly between a successful open and a close: reading, writing and flushing a socket that is not open report not-open, and opening one that is open reports already-open, without any effect. While it is open everything written reaches the peer in order and exactly once, for the buffered socket at flush and for the non-blocking socket at write; after a close and re-open nothing written on the earlier connection is sent on the new one, and failures of the connection are reported. A configured timeout limits the opening and each read, write and flush on its own, and none limits nothing. A socket made from a connection opens again to the same peer.",
 ["histories", "fault_sequences"], "every operation sequence with every connection fault",
 "The socket tests open one connection, write and read once.",
 [L+"tsocket.go", L+"tnonblocking_socket.go"], [("connection and write-buffer handling", L+"tsocket.go")],
 state=[("writeBuffer", "bytes awaiting flush", L+"tsocket.go"), ("conn", "nil iff closed", L+"tsocket.go")], observe=["peer's byte stream", "results of calls"])
prop("C14", "HTTP client transport posts each request once and reads its own response",
 "Each flush of the HTTP client sends the bytes written since the previous flush as the body of exactly one POST, and subsequent reads return exactly the body of that request's response. A failed request or a non-200 response is reported as an error by the flush, and never lets bytes of an earlier response be read as the answer; operations on a closed client report an error instead of panicking.",
 ["histories", "fault_sequences"], "every sequence of writes, flushes, reads and closes with every response outcome",
 "The HTTP test needs an external server and is known-failing.",
 [L+"thttp_client.go"], [("request buffer and current response", L+"thttp_client.go")], observe=["requests received by the server", "bytes read"])
prop("C15", "A full read returns exactly the requested bytes or an error",
 "On every transport, asking for n bytes in full returns the next n bytes of the stream with no error, however many underlying reads it takes and even when the last of them also reports end of stream; if fewer than n bytes can be had it returns an error and the number of bytes obtained, and it never reports success with fewer bytes.",
 ["inputs", "fault_sequences"], "every request size, every sequence of answers of the underlying stream",
 "Tests only see streams that deliver everything in one read.",
 [L+"ttransport.go", L+"tframed_transport.go", L+"tsocket.go", L+"thttp_client.go", L+"tiostream_transport.go", L+"tmemory_buffer.go", L+"tnonblocking_socket.go"],
 [("full-read loop", L+"ttransport.go")], observe=["bytes, count and error returned"])
prop("C16", "Application exceptions cross the wire unchanged",
 "Every application exception written through the binary, compact or JSON protocol is encoded as the standard two-field struct and read back with the same type code and message. The reader tolerates fields in any order, missing, repeated (the last counts) and unknown fields and fields of unexpected type by skipping them, leaving the connection in step, and reports an error for truncated input or when any read call fails; the writer reports every write failure.",
 ["inputs", "fault_sequences"], "every type code and message, every arrangement of extra fields, every fault position",
 "One test compares two exceptions' bytes.",
 [L+"tapplication_exception.go"], [("field loop with skip", L+"tapplication_exception.go")], observe=["exception read", "errors"])
prop("C17", "Error conversions preserve the category of the underlying error",
 "Converting an error to a transport, protocol or generic exception keeps its message, returns nothing for nothing, and leaves an error that already has the target category (for generic exceptions any error, for transport and protocol exceptions any error with an exception type code) unchanged. End-of-file becomes the end-of-file transport error, corrupt base64 data an invalid-data protocol error, and any other error one of unknown type. Wrapping a protocol error for reading or writing a field or struct keeps its type code, with unknown becoming invalid-data, includes its message, and names the struct and, for fields, the field's id and name.",
 ["inputs"], "every error value of every category, every chain of conversions",
 "One test converts two errors.",
 [L+"texception.go", L+"tprotocol_exception.go", L+"ttransport_exception.go"], [("exception constructors", L+"tprotocol_exception.go")], observe=["type code and message"])
prop("C18", "Generated structs keep every field across every protocol",
 "A generated struct written through any of the four protocols and read back into a fresh object has the same value in every field (the sample service's structs, 32-bit enum values), a field appears on the wire exactly when it is set to something other than its unset marker, and fields absent from the wire keep their defaults. Over the protocols that carry field ids, reading takes known fields in any order and number (the last one counts) and passes over unknown fields of every type without disturbing what follows; over simple JSON known fields may come in any order. A failing protocol call or transport write while writing, a failing protocol call while reading, and a stream that ends early are always reported.",
 ["inputs", "fault_sequences"], "every assignment of the fields, every arrangement of the wire fields, every fault position",
 "The generated-code tests only check enum defaults and getters.",
 [L+"tprotocol.go", L+"tbinary_protocol.go", L+"tcompact_protocol.go", L+"tjson_protocol.go", L+"tsimple_json_protocol.go", "tests/generation/golden/gen-go/simple/ttypes.go"],
 [("generated Read/Write", "tests/generation/golden/gen-go/simple/ttypes.go")], observe=["fields after reading", "fields on the wire"])
prop("C19", "A call reaches its handler once and its own reply reaches the caller",
 "For every method call made through a generated client over any protocol, the processor invokes the handler exactly once with the arguments sent, and the caller receives the handler's result, or an error when the handler failed (over binary, compact and JSON an internal-error application exception carrying its text). Over these three protocols a message for an unknown method does not invoke the handler and is answered by an unknown-method exception carrying the same name and sequence number, after which the same connection can be used for the next call. Sequences of calls on one connection never mix up replies: a reply with another sequence number is reported as bad sequence id, and connections sharing one processor do not affect each other. If the connection breaks in the middle of a request or reply, the handler never sees arguments that were not sent, and the caller gets an error or the handler's own result.",
 ["inputs", "histories", "fault_sequences"], "every sequence of known, unknown and failing calls, every protocol, every fault position",
 "No test makes a call.",
 ["tests/generation/golden/gen-go/simple/ContainerOfEnumsTestService.go", L+"tapplication_exception.go", L+"tprotocol.go"],
 [("generated client and processor", "tests/generation/golden/gen-go/simple/ContainerOfEnumsTestService.go")], observe=["handler invocations", "call results"])
prop("C20", "Servers process every connection in order, independently, and close it",
 "For each accepted connection a server invokes the connection's processor repeatedly, one request at a time, until the processor reports the end (false) or an error, and then closes the connection's input and output transports and processes nothing more on it; this holds for every number and arrival order of connections and requests and every interleaving, on every kind of server socket, including one made from a listener that is already open. A connection whose processing ends with an error never stops the server or affects other connections; the simple server serves connections one after another and the non-blocking server serves them concurrently; a failure to listen or to accept ends serving with that error.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of connections, requests and failures within the bound",
 "No test runs a server.",
 [L+"tsimple_server.go", L+"tnonblocking_server.go"], [("accept loop and per-connection loop", L+"tsimple_server.go")], observe=["processor invocations", "closes", "result of serving"])
prop("C21", "Stopping a server ends serving under every interleaving",
 "If a server is stopped, from another thread and at any moment after listening on its server socket has begun, serving returns after at most the connections already being handled by the serving thread are finished, connections accepted before are served to their end, no connection is accepted after the stop has completed, the listening address is released, nothing panics or blocks and there are no data races; stopping repeatedly or from several threads at once is harmless, and a stopped server can be started again. Closing or interrupting a server socket in the same way ends a blocked or imminent accept with an error.",
 ["schedules"], "every interleaving of the stopping thread with the accept loop and connection handlers within a preemption bound",
 "No test stops a server; the failure windows are single instructions wide.",
 [L+"tsimple_server.go", L+"tnonblocking_server.go", L+"tserver_socket.go", L+"tnonblocking_server_socket.go"],
 [("stopped flag and interrupt of accept", L+"tserver_socket.go")],
 state=[("stopped", "set by Stop", L+"tsimple_server.go"), ("listener", "open listening socket", L+"tserver_socket.go")], observe=["return of serving", "listener state"])
prop("C22", "Independent connections can be used concurrently without interference",
 "Protocol and transport objects of different connections, including those made by one shared factory, and container and exception values of different threads share no mutable state: using them from different threads under any interleaving gives each the results it would have had alone, without data races.",
 ["schedules"], "every interleaving of concurrent encoders and decoders within a preemption bound",
 "Tests are single-threaded.",
 [L+"tbinary_protocol.go", L+"tcompact_protocol.go", L+"tjson_protocol.go", L+"tsimple_json_protocol.go", L+"tframed_transport.go"],
 [("no shared mutable state", L+"tcompact_protocol.go")], observe=["bytes and values per connection"])
prop("C23", "List container behaves as a typed sequence",
 "Under every sequence of operations a list container behaves like an ordered sequence of values of its element type: length, indexing, membership, iteration, push, pop, insert, set, delete, swap, element comparison and equality all agree with that model. Setting a position past the end appends. Other out-of-range positions, and values that cannot be converted to the element type, are refused: the operation either leaves the list unchanged or panics; convertible values are stored converted. Iterating to the end leaves no goroutine behind.",
 ["histories", "inputs"], "every operation sequence over every element type",
 "There are no list tests.",
 [L+"tlist.go"], [("list operations", L+"tlist.go")], observe=["results of operations"])
prop("C24", "Set container holds each value at most once",
 "Under every sequence of operations a set container behaves like a mathematical set over its element type (any type, including structs and containers, NaN excepted): adding a value makes it a member, adding an equal value again changes nothing, removing a value removes exactly that value, values that cannot be converted to the element type change nothing, and length, membership, values, traversal in both directions and equality always agree with the values added and not removed.",
 ["histories", "inputs"], "every operation sequence over every element type",
 "There are no set tests.",
 [L+"tset.go"], [("ordered insertion", L+"tset.go")], observe=["results of operations"])
prop("C25", "Map container holds one value per key",
 "Under every sequence of operations a map container behaves like a map from its key type to its value type, for every key type including structs and containers (NaN excepted): a key that was set is present with the last value set, an absent key is reported absent, keys or values that cannot be converted change nothing, and length, keys, values, all iterations and equality always agree with this model. Keys and values are stored converted to the map's types. Iterating to the end leaves no goroutine behind.",
 ["histories", "inputs"], "every operation sequence over every key type",
 "The map test sets and gets a few keys of a few types.",
 [L+"tmap.go"], [("one map implementation per key type", L+"tmap.go")], observe=["results of operations"])
prop("C26", "Comparison of values and containers is a consistent total order",
 "For values of one Thrift type (NaN excepted), comparison is reflexive, antisymmetric and transitive and agrees with the natural order of the values; it yields zero exactly for equal values and less-than holds exactly when it is negative. Containers compare accordingly, lists by length and then by their elements; containers with equal contents are equal whatever the order in which sets and maps were filled, and different ones are not; structs as the generator emits them (giving their values by field id) are equal exactly when all their fields are. Fields compare by id, then type, then name, and count as equal when id and type agree. Nothing panics and no goroutine is left running.",
 ["inputs"], "every pair and triple of values of every type, every construction history",
 "Comparison is hardly tested.",
 [L+"ttype.go", L+"tcompare.go", L+"tlist.go", L+"tset.go", L+"tmap.go", L+"tfield.go"], [("typed comparison", L+"ttype.go")], observe=["comparison results"])
prop("C27", "Coercion to a Thrift type yields the right value or is refused",
 "Converting a value to a Thrift value type either yields a value of that type representing the same quantity or reports that it cannot: a value already of the type is returned unchanged; numbers, booleans (as 0 and 1), enum values and decimal text convert to every numeric type that can represent the quantity; numbers convert to text that reads back as the same number, enum values to their names; text that is no number, and values of unrelated kinds, are refused as numbers, and everything else is refused as a container or struct. Numeric objects hold exactly the number they were made from. No conversion panics. (Quantities the target cannot represent, and bytes as numbers, are not constrained.)",
 ["inputs"], "every source value of every kind and every target type",
 "Coercion has no tests.",
 [L+"ttype.go", L+"tnumeric.go"], [("coercion and numeric conversion", L+"ttype.go")], observe=["coerced value and flag"])
prop("C28", "Field collections resolve every field by id and by name",
 "A collection built from any list of fields with different ids and names, in any order, reports each of its fields by id and by name, iterates over them in id order, answers membership truthfully, and reports absence for ids and names it does not hold; two collections of the same fields are equal whatever order they were given in, and collections of different fields are not. Iterating leaves no goroutine behind.",
 ["inputs"], "every list of fields in every order",
 "There are no field collection tests.",
 [L+"tfield.go", L+"tstruct.go"], [("name and id indexes", L+"tfield.go")], observe=["lookup results"])
prop("C29", "Code generated for the sample service behaves like the published golden code",
 "The Go code that the compiler's generator makes from the sample interface definition has exactly the exported names, types and values of the published golden code, and behaves like it in every execution: the same calls of protocol, transport and handler with the same arguments, the same results, errors and panics and the same contents of every object, for every content of its objects, every message read, every request and reply, and whichever protocol or transport call fails. The command line tools are left out.",
 ["inputs", "programs"], "the sample program; all object contents, messages, requests, replies and failing calls",
 "The repository's own comparison needs an installed Thrift compiler and is not run.",
 ["compiler/cpp/src/generate/t_go_generator.cc", "tests/generation/simple.thrift"], [("generator", "compiler/cpp/src/generate/t_go_generator.cc")], observe=["generated files"])
prop("C30", "Generated code compiles and round-trips for every interface definition",
 "For every valid interface definition whose names do not clash with those the generated code uses itself, the Go generator emits code that compiles, and the enums, constants, structs, exceptions and services it defines are those of the definition, with its names, values, field ids, types and defaults. Objects write exactly their fields that are set, in the wire format of their declared types, and read them back unchanged over every protocol, ignoring fields the definition does not have. A call reaches the handler once with its arguments, and its result or declared exception reaches the caller; a failing handler, an unknown function and a request that cannot be read are answered with application exceptions or errors, replies that are no result are reported as errors, and oneway functions are never answered.",
 ["inputs", "programs"], "every interface definition in a bounded grammar of types, requiredness, defaults, enums, constants and services; contents, messages and calls of each",
 "One sample definition exists; it contains only enum fields.",
 ["compiler/cpp/src/generate/t_go_generator.cc"], [("generator", "compiler/cpp/src/generate/t_go_generator.cc")], observe=["compilation and execution of the generated code"])
prop("C31", "Calls through a running server over sockets each get their own answer",
 "Clients that connect client sockets to a running server and call it, one or several at a time, each over its own connection, plainly or framed, over any protocol, with either server and either server socket, each get exactly the results, or the handler's errors, of their own calls, in order, and the handler sees each call once with its arguments, also when a client closes its connection and opens it again; no schedule of the threads makes a call hang. When the server is stopped at any moment, every call still either completes with its own result or fails with an error, serving returns, and nothing hangs.",
 ["schedules", "histories"], "every interleaving of server, handlers, clients and stop up to a delay bound; every mix of server, server socket, protocol, framing and client socket",
 "The tests run one client against one server in one uncontrolled schedule.",
 [L+"tsimple_server.go", L+"tnonblocking_server.go", L+"tsocket.go", L+"tnonblocking_socket.go", L+"tserver_socket.go", L+"tnonblocking_server_socket.go", L+"tframed_transport.go"], [("server loops", L+"tsimple_server.go"), ("client sockets", L+"tsocket.go")], observe=["outcome of every call", "calls seen by the handler"])
prop("C32", "Factories and servers hand out and use exactly what they were configured with",
 "A transport factory gives, for any base transport, what it stands for: the plain one the base itself, the framed one a framed transport over what its own factory gives for the base (which it asks once), the memory one a new empty buffer of its own, the stream one a transport over the streams of the base if that is a stream transport (none if it was closed) and over the configured streams otherwise, the socket ones an unopened socket for the address and timeout of the base if it is one of the kind and for the configured ones otherwise; transports made from one another and used in any order carry exactly the bytes that this implies. A protocol factory makes independent protocols of its kind and strictness on the given transport, and processor factories give their processor. Every constructor of a server keeps the processor, server transport and factories it was given (one for both directions where it takes only one, plain transports and the binary protocol where it takes none), reports them, and processes each connection with the protocols and transports they make for it.",
 ["inputs", "histories"], "every factory, composition of factories and base transport, every order of operations on what they made; every constructor",
 "Factories are hardly tested, and only one at a time.",
 [L+"ttransport_factory.go", L+"tframed_transport.go", L+"tmemory_buffer.go", L+"tiostream_transport.go", L+"tprocessor_factory.go", L+"tprotocol_factory.go", L+"tsimple_server.go", L+"tnonblocking_server.go", L+"tserver_socket.go", L+"tnonblocking_socket.go", L+"tnonblocking_server_socket.go"], [("factories", L+"tiostream_transport.go"), ("server constructors", L+"tsimple_server.go")], observe=["bytes at every end", "factories asked", "accessors"])
prop("C33", "Server sockets listen exactly while open and hand out every connection",
 "A server socket listens at its address, on the network of that address, exactly between a successful listen or open and a close or interrupt, any number of times over: clients can connect then and only then, opening an open one reports already-open, listening again changes nothing, closing a closed one succeeds. Accept hands out the waiting clients in the order they connected, each as an open transport of its own, with the timeout of the server socket, that carries that client's bytes both ways and outlives the server socket; accepting on a server socket that was closed reports an error, clients still waiting when it closes see their connection end, and reading, writing and flushing a server socket are refused.",
 ["histories"], "every sequence of operations up to a depth; both server sockets, every constructor, local and TCP addresses; every order of clients connecting and talking",
 "The tests never look at a server socket by itself.",
 [L+"tserver_socket.go", L+"tnonblocking_server_socket.go", L+"tsocket.go"], [("listening and accepting", L+"tserver_socket.go")], observe=["whether clients can connect", "accepted transports"])
prop("C34", "Types are classified and descriptors keep what they were made with",
 "Each of the 256 type codes has the name and the classes (base, empty, enum, numeric, string, container, struct, map, list, set, integer) and the wire id of the Thrift type it stands for, unknown codes belong to no class, and codes are ordered by number whatever integer type they come in. Messages, fields and structs report exactly the name, type, number and fields they were made with; messages are equal exactly when name, type and sequence number are, fields when id and type are, structs as descriptors when name and fields are, and none equals nothing.",
 ["inputs"], "all type codes and pairs of them; every descriptor and pair of descriptors over a set of names, types, ids and field lists",
 "The type table and the descriptors have no tests.",
 [L+"ttype.go", L+"tmessage.go", L+"tfield.go", L+"tstruct.go"], [("type table", L+"ttype.go")], observe=["predicates and accessors"])
prop("C35", "A failed call does not harm the calls after it",
 "When a call fails because its connection broke after any number of bytes of the request or the reply (refused, ended, or failed, with or without the last bytes), or because the reply was numbered for another call, closing the transport and opening it again is enough: the next calls of the same client reach their handler once with their arguments and bring its results, over all four protocols, plainly or framed, over client sockets and other transports, and whatever number of connections broke in turn; for binary and compact also when the reply was corrupted, sent twice or followed by further bytes. Protocol objects after a message that broke off in writing or reading write and read the following messages on a new connection as new objects do. Over HTTP, where each call is a request of its own, a call made after others gets its own result without reopening, whatever became of those before: refused, dropped, cut short or answered, in one piece or in chunks.",
 ["histories", "fault_sequences"], "every byte at which a request or reply breaks, every corruption of a reply byte in seven ways, pairs of broken connections, every sequence of HTTP answers up to a depth",
 "No test makes a call after a failed one.",
 [L+"tframed_transport.go", L+"tjson_protocol.go", L+"tsimple_json_protocol.go", L+"tcompact_protocol.go", L+"tsocket.go", L+"tnonblocking_socket.go", L+"thttp_client.go", "tests/generation/golden/gen-go/simple"], [("state kept between messages", L+"tsimple_json_protocol.go"), ("frame buffers", L+"tframed_transport.go")], observe=["results of the calls after the failure", "calls seen by the handler"])

prop("C36", "JSON messages read the same however they are formatted",
 "The JSON and simple JSON protocols read a message as the same header, field ids or names, types, sizes and values in every way JSON allows to write its document: with whitespace between any of its tokens and after it, with any character of its texts, names and base64 data written plainly or as an escape (a slash as \\/, any character as \\uXXXX in either case, characters beyond the basic plane as surrogate pairs), and with its numbers in any fractional or exponential notation of the same value (numbers in quotation marks excepted, which are as the protocol writes them). Reading and skipping such a message leaves the one behind it readable, in whatever pieces the bytes arrive.",
 ["inputs"], "every message of the corpus written again in every way that differs at one token boundary, character or number, and alike at all places; pieces of 1, 7 and all bytes",
 "Tests read only documents as the protocols write them.",
 [L+"tsimple_json_protocol.go", L+"tjson_protocol.go", L+"tnumeric.go"], [("whitespace", L+"tsimple_json_protocol.go"), ("strings and base64", L+"tsimple_json_protocol.go"), ("numbers", L+"tsimple_json_protocol.go")], observe=["values and errors of the reader"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
