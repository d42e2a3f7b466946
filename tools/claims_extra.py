claim("C05", "exhaustive enumeration of transport fragmentations (all chunk sizes, all one- and two-cut plans, all compositions of short streams) driven into the real readers",
      "Every fragmentation within the bounds of every message of the corpus is executed on four carriers and four protocols and the decoded values compared; trusts the scripted transport.")
claim("C06", "exhaustive enumeration of transport fragmentations with a transport that blocks at the end of the message",
      "Any read beyond the message's last byte is observed directly; bounds: message corpus, cut plans.")
claim("C07", "enumeration of every truncation point and read-failure point under every end mode",
      "Each stream of the corpus is cut at each byte, for reading and skipping, on five carriers; long values are cut around buffer and chunk sizes.", "fault_enumeration")
claim("C08", "enumeration of every failing write or flush call, transient and sticky, partial and complete",
      "Each write and flush of each message of the corpus fails in turn, on five carriers; a success report is checked against the delivered bytes.", "fault_enumeration")
claim("C09", "exhaustive enumeration of short inputs over full and protocol-specific alphabets, all single and bounded double mutations, hostile sizes and deep nesting",
      "Each input is consumed by every kind of reader on the real code; allocation is measured for hostile sizes; inputs longer than the bounds are not covered.")
claim("C10", "exhaustive enumeration of values, positions and depth limits, skipped on the real code and everything after compared",
      "Simple JSON carries no field types, so skipping its non-empty structs is outside the property.")
SEQ = "exhaustive enumeration of operation sequences up to a depth on the real objects, compared after every operation with an abstract model"
claim("C11", SEQ + ", under every failing call of the underlying transport, plus every fragmentation, cut point and request sequence within the bounds on the reading side",
      "Frame lists up to 3 (4) frames of up to 3 bytes, selected large sizes; trusts the scripted underlying transport.")
claim("C12", SEQ, "15 operations to depth 4 (5) on memory buffers, 12 operations to depth 4 (6) on stream transports over a scripted stream.")
claim("C13", SEQ + ", over real sockets and over a scripted connection under every failing write",
      "11 operations to depth 5 (6) on local sockets, 8 operations on a scripted connection with every fault plan; connection faults are scripted, not taken from a real network.", "fault_enumeration")
claim("C14", SEQ + ", against a real HTTP server answering every flush in eight ways",
      "16 operations to depth 4 (5); redirects, proxies and TLS are not explored.", "fault_enumeration")
claim("C15", "exhaustive enumeration of stream lengths, compositions into reads, endings and request sizes on twelve transports",
      "Streams up to 7 (10) bytes with every composition, selected long streams; the HTTP client's full reads are covered by C14.")
claim("C23", SEQ, "About 28 operations to depth 4 (5) for 13 element types, typed and untyped lists, observed completely after every operation.")
claim("C24", SEQ, "12 to 16 operations to depth 4 (5) for 13 element types, observed completely after every operation.")
claim("C25", SEQ, "10 to 13 operations to depth 4 (5) for 13 key types with two value types, and to depth 2 (3) for every pair of key and value type.")
claim("C26", "exhaustive enumeration of all pairs and triples of values from boundary and small-container families, every construction order, against a reference order", "Scalars at type and encoding boundaries, all containers up to 3 (5) elements over small alphabets, filled in every order, nested containers and generated-style structs.")
claim("C27", "exhaustive enumeration of source values of every Go kind by target type, with conversions there and back, against an arithmetic oracle", "Boundary quantities of every width in every Go representation; numerics over every binary exponent.")
claim("C28", "exhaustive enumeration of field collections up to a size and all orders of giving them, against a reference lookup", "Up to 3 (4) fields over 7 ids and 5 names in every order, as collection and as struct.")
claim("C16", "exhaustive enumeration of exceptions, of wire-field arrangements up to a length, of every truncation point and of every failing write, flush or protocol call", "Three protocols; arrangements of up to 3 (4) of 19 wire fields; the exception bytes are compared with an independent encoder for binary and compact.", "fault_enumeration")
claim("C17", "exhaustive enumeration of chains of conversions from every category of error, compared with a model of the categories", "About 130 starting errors, 20 conversions, chains of up to 3 (4).")
claim("C18", "exhaustive enumeration of field assignments, of arrangements of wire fields up to a length, and of every failing call, failing write and truncation point, on the generated code over the real protocols", "All 3^9 assignments, all pairs of fields over boundary values, arrangements of up to 3 (4) of 23 wire fields; exact bytes for binary and compact. The generated code is the checked-in sample.")
claim("C19", "exhaustive enumeration of call sequences, of send/process/receive step sequences on two connections, and of every byte at which a connection breaks, on the generated client and processor", "Sequences of up to 4 (5) calls and 5 (6) steps, three carriers, four protocols, every break position; trusts the in-memory connection.", "fault_enumeration")
SCH = "exhaustive exploration of thread schedules of the real code, instrumented at every statement, under a controlled scheduler up to a preemption bound"
claim("C20", SCH + ", with scripted and virtual connections and every script of requests and failures within the bounds", "Up to 3 (4) connections; 0 to 2 (4) preemptions; two-connection programs also under the race detector; the network is a model of listeners and connections whose operations are atomic.")
claim("C21", SCH + ", with stopping threads, clients and restarts over a virtual network, also under the race detector", "Up to two stopping threads and two clients; 0 to 4 (6) preemptions; the network is a model of listeners and connections whose operations are atomic.")
claim("C22", SCH + ", comparing each thread with its run alone, also under the race detector", "Two threads; 1 to 2 preemptions at statement granularity, conflicting accesses inside one statement by the race detector; messages of one field, all types, four protocols, four transports.")
claim("C29", "lockstep exploration of the published package and the one generated now over enumerated object contents, messages, requests, replies and every failing protocol or transport call, comparing every observable step", "Contents differing from a new object in up to 2 (3) fields, pairs of odd fields, every truncation and failing call on selected contents; the generator runs behind stand-ins for the parts of the Thrift compiler that the repository does not have.")
claim("C30", "exhaustive enumeration of interface definitions in a bounded grammar; for each the real generator runs, its output is type-checked, linked, and driven through enumerated contents, messages and calls against a reference model of the definition", "About 3000 (6000) definitions: every type expression to depth 2, requiredness, defaults, enums to 3 (4) values, constants, signatures; the generator runs behind stand-ins for the parts of the Thrift compiler that the repository does not have, and an own parser; names that clash with generated ones are left out; five known findings.")

claim("C31", "exhaustive exploration of thread schedules of the real generated client and processor, servers, sockets, transports and protocols, instrumented at every statement, under a controlled scheduler up to a delay bound, over a virtual network", "Up to three clients of up to three steps; 1 to 2 (3) delays, that is departures from running the threads in turn; two-client programs also under the race detector; the network is a model of listeners and connections whose operations are atomic.")

claim("C32", "exhaustive enumeration of factories, their compositions and bases, and of operation sequences on the transports made, in lockstep with a reference model; of all orders of two exchanges on protocols made; of all server constructors", "Compositions of two factories, sequences of 4 (5) operations on three transports; where two buffered readers compete for one stream nothing is prescribed; socket factories over real local sockets.")
claim("C33", "exhaustive enumeration of operation sequences on real server sockets against a lifecycle model, with clients that record what becomes of their connection", "Sequences of 5 (6) operations, three clients in all orders; a blocked accept is left to C21.")
claim("C34", "exhaustive enumeration of all type codes, pairs of codes and bounded descriptors against an independent table", "All 256 codes; structs of up to 4 (5) fields from a pool of 5.")
claim("C35", "exhaustive enumeration of break points, corruptions and HTTP answers; after each the same client or protocol objects are used again and compared with the handler's answers or with new objects", "Every byte of requests and replies of six to eight calls, pairs of breaks at every fifth (every) byte, real local sockets for replies ended by the server, HTTP sequences of 3 (4) calls with eight kinds of answers.", "fault_enumeration")
claim("C36", "exhaustive enumeration of the formattings of a document that differ at one place, or alike at all, driven through the real readers and compared with the message written", "The message corpus and all pairs of types; thorough: all pairs of places for whitespace and long runs of it; trusts the tokeniser and encoding/json for the alternatives.")
