#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

XDR = ["xdr/lib.go", "xdr/helper.go", "xdr/types.go"]
PROTO = ["rfc1057/xdr.go", "rfc1057/types.go", "rfc1813/xdr.go", "rfc1813/types.go"]
GEN = ["main.go", "scan.go", "xdr.y", "out.go"]

p("C01", "Encoding is exactly the RFC 4506 wire format",
  "For every value of every message type of the shipped SUNRPC/portmapper and NFSv3/MOUNT packages, and of every primitive and helper type of the runtime library, encoding succeeds when all declared length limits are met and produces exactly the byte string RFC 4506 prescribes for that type's specification: big-endian 4/8-byte integers, 0/1 booleans, length prefixes, zero padding to a multiple of four, presence flags, and only the selected union arm, in declaration order. Encoding appends to a writer after whatever it already holds, so concatenated values encode to the concatenation of their encodings.",
  ["inputs"], "all values of all ~130 shipped message types and all primitives, all lengths up to the declared limits (and tens of MB where unbounded)",
  "The unit tests encode one string and one byte array and only compare against the library's own decoder; a mistake made symmetrically in both directions, or in one arm of one union, is invisible to them.",
  XDR + PROTO, [("primitive codecs", "xdr/lib.go XdrBool..XdrString"), ("generated Xdr methods", "rfc1813/xdr.go, rfc1057/xdr.go")],
  ["xdr.EncodeBuf", "XdrState.WriteBuf"])
p("C02", "Decoding inverts encoding and consumes exactly the value",
  "For every value of every shipped type, decoding the RFC 4506 byte string of that value succeeds, yields an equal value (selected union arms, list lengths, every field), and consumes exactly the bytes of that value, so that whatever follows it in the same buffer is decoded correctly next.",
  ["inputs"], "all values of all shipped types, any concatenation of values in one buffer",
  "The fuzz seeds round-trip three Rpc_msg and three READDIRPLUS3res values; no other type is decoded at all and the position after a value is never observed.",
  XDR + PROTO, [("reader position", "xdr/lib.go xdrRW, xdrR"), ("padding", "xdr/lib.go XdrVarArray, XdrArray, XdrString")],
  ["xdr.DecodeBuf", "a following read on the same XdrState"], state=[("buf", "bytes not yet read", "xdr/lib.go XdrState")])
p("C03", "Decoding arbitrary bytes is total and rejects what cannot be a value",
  "Decoding any byte string as any shipped type or primitive terminates without crashing the process; it reports an error whenever the bytes end before the value does or a length exceeds its declared limit, and otherwise succeeds with the value those bytes denote. A successfully decoded value can be encoded again, and that encoding decodes to an equal value; out-of-range boolean or enum words, unlisted union discriminants and non-zero padding may be tolerated or rejected, but never crash.",
  ["inputs"], "all byte strings (truncations at every offset, mutations, random and hostile length/discriminant words) for all shipped types",
  "Only six seed inputs of two types are ever run by the test suite (fuzzing itself is not part of it), with no oracle for which inputs must be rejected.",
  XDR + PROTO, [("sticky error state", "xdr/lib.go XdrState.err"), ("length checks", "xdr/lib.go xdrR")],
  ["xdr.DecodeBuf return value", "process survival"])
p("C04", "Hostile length fields cannot force disproportionate allocation",
  "The memory allocated while decoding a message, or while a server or client receives a record, stays within a constant plus a constant factor of the number of bytes actually supplied by the peer, whatever lengths or counts those bytes announce.",
  ["inputs", "fault_sequences"], "all inputs announcing large string, opaque, array or record lengths without supplying the data, in the library, the shipped packages, generated code, client and server",
  "Two unit tests check that a long announced string or byte array fails, but not what it costs, and no test announces a long typed array or a long record.",
  ["xdr/lib.go", "out.go", "rfc1057/client.go", "rfc1057/server.go", "rfc1813/xdr.go"],
  [("announced length checked against remaining bytes", "xdr/lib.go xdrR"), ("array decoding", "out.go declTypeVarArray.goXdr"), ("record buffers", "rfc1057/server.go getReqBuf, rfc1057/client.go Call")],
  ["bytes allocated by the decoding process"])
p("C05", "Declared length limits are enforced exactly, both ways",
  "A string, opaque or array field with a declared maximum accepts every length up to and including the maximum and reports an error for every longer length, both when encoding and when decoding, at every nesting position in every shipped type; a field without a maximum has no limit of its own. When encoding fails this way the error is reported to the caller.",
  ["inputs"], "every bounded field of every shipped type at lengths 0..max+several and far beyond, encoding and decoding; all limits for the primitives",
  "No test uses a length at or beyond a limit.",
  XDR + PROTO, [("maxlen checks", "xdr/lib.go XdrVarArray, XdrString"), ("array bound", "out.go declTypeVarArray.goXdr"), ("limits in the generated code", "rfc1813/xdr.go, rfc1057/xdr.go")],
  ["error result of encode/decode"])
p("C06", "The first error sticks: nothing is read or written after it",
  "Once an encoder or decoder state is in error, from whatever cause and at whatever point, it stays in error; every later operation on it, primitive or message type, leaves the bytes already produced and the caller's target values unchanged, and it reports being neither encoding nor decoding.",
  ["inputs", "histories"], "all sequences of primitive and message operations on one state, with errors from truncation, exceeded limits or explicit setting at any position",
  "Tests perform one operation per state and stop at the error.",
  ["xdr/lib.go"] + PROTO, [("err guard at the top of every primitive", "xdr/lib.go"), ("Encoding/Decoding gates", "xdr/lib.go, out.go")],
  ["XdrState.Error, WriteBuf, Encoding, Decoding; target variables"], state=[("err", "sticky error", "xdr/lib.go XdrState")])
p("C07", "Decoded and encoded data never alias or damage each other",
  "Decoding never modifies its input or an input decoded earlier (also when decoding into a used variable), encoding never modifies the value, and encoded output shares no memory with the value. Within a decoded value no byte field overlaps or can be grown by append into another field, a string, or bytes not yet decoded, so changing or appending to one field never changes another; and results returned by a client call are not altered by later calls on that client.",
  ["inputs", "histories"], "all shipped types with byte fields, all values, any order of writes/appends to decoded fields, any later calls",
  "Tests never touch a decoded value after comparing it, so sharing is invisible.",
  ["xdr/lib.go", "rfc1057/client.go"], [("capacity-limited sub-slices", "xdr/lib.go xdrR"), ("append copy", "xdr/lib.go xdrRW"), ("fresh reply buffer per call", "rfc1057/client.go Call")],
  ["contents of buffers and fields before/after writes"])
p("C08", "Decoding into a used value equals decoding into a fresh one",
  "Decoding a message into a variable that already holds any earlier value of that type gives the same message as decoding it into a zero variable: no element, byte, list entry or optional part of the earlier contents shows through in any part of the value that the new message determines.",
  ["inputs", "histories"], "all pairs (old value, new message) of all shipped types, chains of decodes into the same variable",
  "Every test decodes into a fresh variable.",
  ["out.go", "xdr/lib.go"] + PROTO, [("optional data decoding", "out.go declTypePtr.goXdr"), ("array decoding", "out.go declTypeVarArray.goXdr, xdr/lib.go XdrVarArray")],
  ["decoded value"])
p("C09", "Every call gets exactly one reply, runs its handler exactly once",
  "For every sequence of well-formed call records on a connection, however split across reads, pipelined or interleaved with other records and connections, the server sends exactly one reply per call, carrying that call's transaction id, and invokes the registered procedure exactly once for an accepted call and never for a call it rejects. A record that is not a well-formed call message (in particular a reply) invokes no procedure and gets no reply.",
  ["histories", "schedules", "inputs"], "all request histories, read segmentations, handler completion orders, and duplicate transaction ids",
  "There is no test of the server at all.",
  ["rfc1057/server.go"], [("request loop and per-request goroutine", "rfc1057/server.go Run, handleReq"), ("reply construction", "rfc1057/server.go handleReqErr")],
  ["transport byte streams", "handler invocations"])
p("C10", "Replies report the outcome RFC 1057 prescribes",
  "For every call and every set of registered procedures the reply is the one RFC 1057 prescribes: denied with the supported RPC version range (2..2) for another RPC version; otherwise accepted with program-unavailable, version-mismatch carrying the lowest and highest registered version of that program, procedure-unavailable, undecodable-arguments, or success followed by exactly the encoded results. The most recent registration of a procedure is the one used, a non-success reply carries no procedure results, and results that cannot be encoded are reported as a failure of the call, never as success.",
  ["inputs", "configurations"], "all registration sets (any numbers, sparse, overlapping, re-registered) and all (rpc version, program, version, procedure, arguments) combinations",
  "There is no test of the server at all.",
  ["rfc1057/server.go", "rfc1057/xdr.go", "rfc1057/types.go"], [("three-level handler lookup", "rfc1057/server.go handleReqErr"), ("registration", "rfc1057/server.go Register, RegisterMany")],
  ["reply records"], state=[("handlers", "program -> version -> procedure -> handler", "rfc1057/server.go Server")])
p("C11", "Replies are whole, correctly marked records under any concurrency",
  "On a transport whose individual writes are atomic, the bytes a server sends on a connection are always a sequence of complete single-fragment records, each with the last-fragment bit and the exact length of the reply that follows, for any number of concurrently completing calls and any reply sizes. Bytes of different replies are never interleaved, and no bytes are sent outside a record.",
  ["schedules", "inputs"], "all interleavings of concurrently completing handlers, reply sizes from 0 to many MB, several connections",
  "There is no test of the server at all, and interleavings are outside what a single-call test can show.",
  ["rfc1057/server.go"], [("single write of a buffer with reserved mark", "rfc1057/server.go handleReqErr")],
  ["server-to-client byte stream"])
p("C12", "Concurrent calls never see each other's data",
  "From the moment a handler is invoked until its reply has been sent, the arguments it was given (decoded already or not, including byte fields and results that share memory with them) stay exactly what the caller sent, and the reply's results are exactly those its own handler produced, no matter how many other requests of any size arrive, run or finish meanwhile on the same or other connections and servers.",
  ["schedules", "histories", "inputs"], "all interleavings of concurrent requests with recycled request buffers, request sizes in any order",
  "There is no test of the server; buffer reuse only shows up when requests overlap in particular orders.",
  ["rfc1057/server.go", "xdr/lib.go"], [("request buffer recycling after the reply", "rfc1057/server.go reqBufPool, getReqBuf, putReqBuf, handleReq"), ("zero-copy byte fields", "xdr/lib.go xdrR")],
  ["arguments as seen by handlers over time", "reply contents"], state=[("reqBufPool", "buffers of finished requests", "rfc1057/server.go")])
p("C13", "A slow or stuck procedure never delays other calls",
  "While any number of procedure invocations are blocked, every other call that has been received completely, on the same or another connection, is still executed and answered, and replies are sent in completion order rather than request order; blocked calls are answered as soon as they finish. A peer that does not take its replies does not delay calls on other connections.",
  ["schedules", "histories"], "all sets of blocked handlers and all orders of release, up to hundreds of calls in flight",
  "There is no test of the server at all.",
  ["rfc1057/server.go"], [("one goroutine per request", "rfc1057/server.go Run")],
  ["replies present at quiescence with some handlers held"])
p("C14", "Serving is free of data races",
  "A server serving any number of connections concurrently, after its procedures are registered, with independent clients each used from one goroutine at a time, performs no data race on memory of this library: not between requests, connections, servers, clients or recycled buffers, nor between a handler's use of its arguments and any other request. This includes the stubs of shipped and newly generated programs. Encoding a value, and decoding from a buffer, only read it, so that both may be shared by concurrent calls.",
  ["schedules"], "all schedules of concurrent connections, requests and handlers",
  "No test starts a goroutine, and the suite is not run under the race detector.",
  ["rfc1057/server.go", "rfc1057/client.go", "xdr/lib.go"], [("per-request state", "rfc1057/server.go handleReqErr"), ("sync.Pool hand-off", "rfc1057/server.go")],
  ["Go race detector reports"])
p("C15", "A bad record or broken transport is contained",
  "A record whose contents are malformed in any way has no effect on any other call on that connection or others: all well-formed calls before and after it are executed and answered as usual. When the input ends or fails at any byte, or a record is announced as a non-final fragment, serving of that connection returns an error after the calls already received, which are still answered; a partial record is never executed, and a failed reply write affects only that connection.",
  ["inputs", "fault_sequences", "histories"], "all record contents, every byte offset as end-of-input or read error, every reply write as failure point, all read segmentations",
  "There is no test of the server at all.",
  ["rfc1057/server.go"], [("error-returning request loop", "rfc1057/server.go Run"), ("per-request error handling", "rfc1057/server.go handleReq")],
  ["return of Run", "replies", "handler invocations"])
p("C16", "Each client call sends exactly one correct call record",
  "Every client call whose arguments and authenticators can be encoded sends exactly one single-fragment record with the correct mark, containing a version-2 call message for the client's program and version, the given procedure, credential and verifier, followed by exactly the encoded arguments, and a transaction id not used by any earlier call on that client. If they cannot be encoded the call returns an error and sends nothing.",
  ["inputs", "histories"], "all sequences of calls with all procedures, credentials, argument types and sizes, including failing ones in between",
  "There is no test of the client at all.",
  ["rfc1057/client.go"], [("call construction and record mark", "rfc1057/client.go Call"), ("xid counter", "rfc1057/client.go Client.xid")],
  ["client-to-server byte stream"], state=[("xid", "last transaction id used", "rfc1057/client.go Client")])
p("C17", "A client call succeeds only on its own successful reply",
  "A client call returns success exactly when the next record received is a well-formed final-fragment reply message with this call's transaction id, accepted, with status success and decodable results, and then the results are exactly those sent. For any other record (any differing transaction id, a call message, a denial of any kind, any other acceptance status, a truncated or over-limit body, a non-final fragment) it returns an error.",
  ["inputs"], "all reply records for all result types: every single-bit change of header words, every status value, every truncation",
  "There is no test of the client at all.",
  ["rfc1057/client.go", "rfc1057/xdr.go"], [("reply validation chain", "rfc1057/client.go Call")],
  ["Call's error and result value"])
p("C18", "Clients survive transport faults and stay aligned",
  "Whatever bytes arrive, in whatever segmentation, and wherever the transport ends or fails in either direction, a client call returns (never hangs or crashes) and returns an error unless its complete reply was received. After a call that failed only because of what a complete reply record said, or because its arguments could not be encoded, the next call on the same connection works normally.",
  ["fault_sequences", "inputs", "histories"], "every byte offset of request and reply as failure point, all segmentations, all sequences mixing succeeding and failing calls",
  "There is no test of the client at all.",
  ["rfc1057/client.go"], [("ReadFull of header and body", "rfc1057/client.go Call")],
  ["return of Call", "position in the reply stream"])
p("C19", "Generated codecs implement the specification they came from",
  "For every valid specification built from the supported XDR constructs (integers, booleans, enums, fixed and variable opaques, strings and arrays, structs, unions with case lists and defaults, optional data, typedefs, inline nested types, recursion, constants in any position), under every option combination, the generator succeeds, its output compiles, and every generated type encodes, decodes, bounds-checks and rejects exactly as the specification says.",
  ["programs", "inputs", "configurations"], "all specifications in the supported language, all values of their types, all option combinations",
  "The generator has no tests; only its output for two fixed specifications is exercised, and those never use several constructs.",
  GEN + ["xdr/lib.go"], [("grammar", "xdr.y"), ("lexer", "scan.go"), ("code templates", "out.go")],
  ["go build of the output", "bytes produced and accepted by the output"])
p("C20", "Generated program stubs dispatch exactly as specified",
  "For every program definition, shipped or newly generated, registering an implementation makes each procedure reachable under exactly its declared program, version and procedure number; a call invokes exactly that method once with exactly the decoded arguments, and its return value is sent as the result (nothing for void), while undecodable arguments are reported as such without invoking any method; also when many calls of the same or other procedures run together.",
  ["programs", "inputs"], "all program/version/procedure definitions with void and non-void arguments and results, all argument values",
  "No test registers a generated handler; 34 shipped procedures and all generated ones are never dispatched.",
  ["out.go", "rfc1057/xdr.go", "rfc1813/xdr.go", "xdr/types.go", "rfc1057/server.go"], [("handler wrappers and registration tables", "out.go emitProg")],
  ["method invocations on a recording implementation", "replies"])
p("C21", "The generator rejects bad input without touching its outputs",
  "For every input that is not a specification it supports (lexically or syntactically malformed, truncated, using unsupported constructs, or leading to output that is not syntactically valid code) and for output locations that cannot be written (or not completely), the generator terminates with a non-zero exit status, leaves existing output files byte for byte as they were, creates no new ones, leaves no temporary files behind, and changes or removes no other file. It never reports success for a specification of which it ignored a part.",
  ["inputs", "fault_sequences"], "all byte strings as specification (truncations at every token, mutations, unsupported constructs), all option combinations and pre-existing output states",
  "The generator has no tests.",
  ["main.go", "scan.go", "xdr.y", "out.go"], [("temporary files removed on failure", "main.go main"), ("fatal parse errors", "scan.go Error"), ("fatal lexical errors", "scan.go Lex"), ("format before install", "main.go refmt")],
  ["exit status", "directory contents before/after"])
p("C22", "Layout, comments and options do not change meaning",
  "Generator output is a deterministic function of the specification's tokens: changing whitespace, line breaks or comments between tokens, running it again, or with the debugging option, changes no byte of the output, and the order of type and constant definitions does not change the wire format. Writing types to a separate file yields the same declarations as a single file, the package name option changes only the package clause, and the enum signedness and constant type options change only the declared Go types, never the wire format.",
  ["inputs", "configurations", "programs"], "all layouts of all valid specifications and all option combinations",
  "The generator has no tests; the shipped specifications exercise a single layout and option set.",
  ["scan.go", "main.go", "out.go", "xdr.y"], [("lexer", "scan.go Lex"), ("output file selection", "main.go, out.go")],
  ["generator output files"])
p("C23", "Shipped protocol packages are what their specifications say",
  "The shipped SUNRPC and NFS packages declare the constants, enum values, program/version/procedure numbers and message types of their protocol specifications (RFC 1057 with portmapper, RFC 1813 with MOUNT) with the values given there, and behave identically, on every value and every byte string, to what the current generator produces from the specification files beside them.",
  ["inputs", "programs"], "all constants and types of both packages, all values and inputs compared between committed and regenerated code",
  "The test suite never runs the generator and never looks at a constant's value; the committed files can drift from generator and specification unnoticed.",
  ["rfc1057/prot.x", "rfc1813/prot.x", "Makefile"] + PROTO + GEN, [("make regenerates and CI diffs", "Makefile, .github/workflows/build.yml")],
  ["constants and types of the packages", "differential runs against regenerated packages"])
p("C24", "Nothing is left behind by calls and connections",
  "Once a connection has ended, in whatever way and whatever was received on it, and the calls received on it have been answered, no goroutine of the library remains for it and nothing allocated for it stays reachable. On a connection that stays open, a server's goroutines and memory do not grow with the number of calls already answered; nor does a client's memory grow with the number of calls made, whatever their outcome, or the codec's with the number of values encoded and decoded.",
  ["histories", "fault_sequences"], "all long histories of calls, connections, faults and client calls",
  "No test runs a server or client, let alone long enough to see growth.",
  ["rfc1057/server.go", "rfc1057/client.go", "xdr/lib.go"], [("request loop that returns when the input ends", "rfc1057/server.go Run"), ("one goroutine per request that ends with its reply", "rfc1057/server.go handleReq"), ("pooled request buffers, released by the garbage collector", "rfc1057/server.go reqBufPool")],
  ["goroutines and reachable heap at rest"])
p("C25", "Cost grows in proportion to the data",
  "The memory allocated and the processor time taken by encoding a value, decoding a message, serving calls and making client calls grow at most in proportion to the bytes and the number of values, calls or connections involved: not with the square of the length of a string, array or list, of what a writer already holds or a reader has yet to decode, of the size of a record or the number of pieces it arrives in, nor with the number of calls made before on the same server or client.",
  ["inputs", "histories"], "all values and sequences of values of any size, all histories of calls",
  "Tests use tiny inputs, for which cost does not show.",
  ["xdr/lib.go", "out.go", "rfc1057/server.go", "rfc1057/client.go"], [("writer that grows by appending", "xdr/lib.go xdrRW"), ("arrays grown along with their elements", "out.go declTypeVarArray"), ("record buffer grown by doubling", "rfc1057/server.go readRecord")],
  ["bytes allocated and processor time at growing sizes"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
