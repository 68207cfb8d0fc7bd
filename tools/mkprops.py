#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python because it is easier to edit). Run: python3 tools/mkprops.py"""
import json, os
P = []
RB = "cli/src/protocol/render/rust/static/"
TB = "cli/src/protocol/render/typescript/static/"
PR = "cli/src/workflow/render/producer/rust/"
PT = "cli/src/workflow/render/producer/typescript/"
CR = "cli/src/workflow/render/consumer/rust/"
CT = "cli/src/workflow/render/consumer/typescript/"
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- codec
p("C01", "Rust: encode then decode returns the value",
  "For every declared structure or enumeration and every value of it, decoding the bytes that the generated Rust code encodes for the value yields an equal value, whether the bytes are a bare body or a full package. Absent and present-but-empty optional fields, empty lists, empty structures and enumeration options with empty payloads are all kept apart.",
  ["inputs", "programs"], "every type built from the protocol language (12 primitives and struct/enum references, plain, repeated, optional, optional-repeated, nested in groups) and every assignment of boundary values to its fields",
  "The repository's tests round-trip one hand-written value per type; the loss happens only for particular shapes and values (empty payload under an optional, empty enum payload, nested repetition).",
  [RB+"protocol.encode.rs", RB+"protocol.decode.rs", RB+"protocol.storage.rs", RB+"protocol.packing.rs", "cli/src/protocol/render/rust/mod.rs"],
  [("field encoders", RB+"protocol.encode.rs: get_buf / get_value_buffer"), ("field decoders", RB+"protocol.decode.rs: get_from_storage"), ("generated extract/abduct", "cli/src/protocol/render/rust/mod.rs")],
  [("field table", "map from field id to body bytes, read from a message body")])
p("C02", "TypeScript: encode then decode returns the value",
  "For every declared structure or enumeration and every value of it, decoding the bytes that the generated TypeScript code encodes for the value yields an equal value, whether the bytes are a bare body or a full package. Absent and present-but-empty optional fields, empty lists, empty structures and enumeration options with empty payloads are all kept apart.",
  ["inputs", "programs"], "every type built from the protocol language and every assignment of boundary values to its fields, including protocols with more than 255 identifiers",
  "The TypeScript output is generated by the tests but never compiled or run.",
  [TB+"protocol.convertor.ts", TB+"protocol.convertor.storage.ts", TB+"protocol.primitives.enum.ts", "cli/src/protocol/render/typescript/mod.rs"],
  [("convertor", TB+"protocol.convertor.ts"), ("storage", TB+"protocol.convertor.storage.ts"), ("generated classes", "cli/src/protocol/render/typescript/mod.rs")])
p("C03", "Rust and TypeScript agree on the wire format",
  "For every protocol and every value, the Rust code and the TypeScript code generated from the same protocol encode the value to the same bytes, and each decodes what the other encoded to the same value. The same holds for full packages: message identifier, protocol signature, sequence number and length mean the same on both sides.",
  ["inputs", "programs"], "every type of the protocol language and every boundary value, encoded by either language and decoded by the other",
  "The tests compare the two only through files written by hand-picked values, and only the Rust half of that runs.",
  [RB+"protocol.encode.rs", TB+"protocol.convertor.ts", RB+"protocol.packing.rs", TB+"packing.ts", TB+"packing.header.ts", "cli/src/protocol/render/rust/mod.rs", "cli/src/protocol/render/typescript/mod.rs"],
  [("Rust field layout", RB+"protocol.encode.rs"), ("TypeScript field layout", TB+"protocol.convertor.ts"), ("package header", RB+"protocol.packing.rs; "+TB+"packing.ts")])
p("C04", "Rust stream reader: result does not depend on chunking",
  "A sequence of packages fed to the generated Rust stream reader yields exactly those messages, in order, with the sequence numbers and identifiers they were packed with, however the byte stream is cut into chunks. Nothing is delivered before its last byte has arrived, nothing is delivered twice, and bytes of an incomplete package are kept.",
  ["inputs", "histories"], "every cut of a stream of up to three or four packages into chunks (all single and double cuts, byte-by-byte, all message-boundary coalescings), interleaved with reads",
  "The test feeds one whole package at a time or one fixed chunk size.",
  [RB+"protocol.buffer.rs", RB+"protocol.packing.rs"],
  [("accumulate and extract", RB+"protocol.buffer.rs: chunk/next"), ("header and body checks", RB+"protocol.packing.rs: has_buffer_header/has_buffer_body")],
  [("accumulated bytes", "bytes received and not yet turned into messages"), ("queue", "messages decoded and not yet taken")])
p("C05", "TypeScript stream reader: result does not depend on chunking",
  "A sequence of packages fed to the generated TypeScript stream reader yields exactly those messages, in order, with the sequence numbers and identifiers they were packed with, however the byte stream is cut into chunks. Nothing is delivered before its last byte has arrived, nothing is delivered twice, and bytes of an incomplete package are kept.",
  ["inputs", "histories"], "every cut of a stream of up to three or four packages into chunks (all single and double cuts, byte-by-byte, all message-boundary coalescings), interleaved with reads",
  "No TypeScript code is run by the tests.",
  ["cli/src/protocol/render/typescript/mod.rs", TB+"packing.ts", TB+"packing.header.ts"],
  [("BufferReaderMessages", "cli/src/protocol/render/typescript/mod.rs"), ("header parsing", TB+"packing.header.ts")])
p("C06", "Rust: hostile bytes are reported, never crash, never delivered",
  "Whatever bytes are given to the generated Rust decoders or stream reader, they return an error or a value without panicking, overflowing, hanging or allocating more than the input justifies. A package whose header carries a foreign protocol signature, an unknown message identifier or a malformed body is reported as an error and never delivered, and well-formed packages that follow it are still delivered.",
  ["inputs", "fault_sequences"], "every truncation of every encoded value, every single-byte substitution from a boundary set at every offset, every boundary length in every length field, and every placement of one or two bad packages in a stream of good ones",
  "The tests decode only well-formed bytes.",
  [RB+"protocol.storage.rs", RB+"protocol.decode.rs", RB+"protocol.buffer.rs", RB+"protocol.packing.rs"],
  [("field table reader", RB+"protocol.storage.rs: new/body"), ("length arithmetic", RB+"protocol.decode.rs"), ("error paths", RB+"protocol.buffer.rs: chunk")])
p("C07", "TypeScript: hostile bytes are reported, never thrown, never delivered",
  "Whatever bytes are given to the generated TypeScript decoders or stream reader, they return an error or a value without throwing or looping forever. A package whose header carries a foreign protocol signature, an unknown message identifier or a malformed body is reported as an error and never delivered, and well-formed packages that follow it are still delivered.",
  ["inputs", "fault_sequences"], "every truncation of every encoded value, every single-byte substitution from a boundary set at every offset, every boundary length in every length field, and every placement of one or two bad packages in a stream of good ones",
  "No TypeScript code is run by the tests, and none decodes malformed bytes.",
  [TB+"protocol.convertor.storage.ts", TB+"protocol.convertor.ts", TB+"protocol.primitives.enum.ts", "cli/src/protocol/render/typescript/mod.rs"],
  [("field table reader", TB+"protocol.convertor.storage.ts"), ("reader loop", "cli/src/protocol/render/typescript/mod.rs: BufferReaderMessages")])
p("C08", "Fields are matched by identity, not by position",
  "In both languages decoding a structure depends only on the set of identified fields in the body: any order of the fields gives the same value and fields with unknown identifiers are ignored. A body in which a declared field is missing is reported as an error rather than filled with an invented value, and a field's bytes never end up in another field.",
  ["inputs", "programs"], "every permutation of up to four encoded fields, every insertion of one unknown field at every position, every removal of one field, for structures of every field shape",
  "The encoder always writes declaration order, so tests never see another order, an extra or a missing field.",
  [RB+"protocol.storage.rs", RB+"protocol.decode.rs", TB+"protocol.convertor.storage.ts", "cli/src/protocol/render/typescript/mod.rs"],
  [("field table", RB+"protocol.storage.rs; "+TB+"protocol.convertor.storage.ts"), ("field lookup", "generated extract_from_storage / decode")])
p("C09", "TypeScript packing middleware sees every package exactly once",
  "When an application installs a packing middleware, every outgoing body passes through its encoding step and every complete incoming body through its decoding step, exactly once, with that package's message identifier, sequence number and connection identity, and the header length describes the transformed body. An error from the middleware is reported to the caller and does not deliver the message nor lose later ones.",
  ["inputs", "histories", "fault_sequences"], "every sequence of up to three packages, every middleware from a set of length-preserving, growing, shrinking and failing ones (failing at each position), every chunking by message boundary and mid-package cut",
  "No TypeScript code is run by the tests.",
  [TB+"packing.middleware.ts", TB+"packing.ts", "cli/src/protocol/render/typescript/mod.rs"],
  [("middleware hook", TB+"packing.middleware.ts"), ("pack", TB+"protocol.convertor.ts: pack"), ("reader", "cli/src/protocol/render/typescript/mod.rs: BufferReaderMessages")])
p("C10", "TypeScript object validation accepts exactly conforming objects",
  "Creating a message from a plain object succeeds exactly when every declared field has a value of its declared type and range (optional ones may be undefined), and the result then carries those values unchanged. A value out of the numeric range, of the wrong kind, or a missing mandatory field yields an error, never a message that cannot be encoded.",
  ["inputs", "programs"], "every field shape of the protocol language crossed with every probe value from a boundary and wrong-kind set",
  "No TypeScript code is run by the tests.",
  [TB+"protocol.validator.ts", TB+"protocol.primitives.ts", TB+"protocol.primitives.enum.ts", "cli/src/protocol/render/typescript/mod.rs"],
  [("validator", TB+"protocol.validator.ts"), ("primitive validators", TB+"protocol.primitives.*.ts"), ("generated scheme", "cli/src/protocol/render/typescript/mod.rs")])
# ---------------------------------------------------------------- generator
p("G01", "Message identifiers are unique and shared by both outputs",
  "Within one protocol no two structures or enumerations have the same message identifier and no two fields of a structure the same field identifier. Every generation of the same source, in either language and with or without other outputs, assigns the same identifiers, and a reader maps each identifier to the type that was packed with it.",
  ["programs"], "all protocols of up to five entities over groups to depth three, in every nesting shape, for both outputs and repeated generation",
  "The tests use one protocol and never compare identifiers.",
  ["cli/src/protocol/store.rs", "cli/src/protocol/render/rust/mod.rs", "cli/src/protocol/render/typescript/mod.rs", "cli/src/workflow/render/render.rs"],
  [("sequence counter", "cli/src/protocol/store.rs: sequence"), ("dispatch by id", "cli/src/protocol/render/rust/mod.rs; cli/src/protocol/render/typescript/mod.rs")])
p("G02", "Embedded protocol and workflow hashes identify the sources",
  "Code generated from the same protocol and workflow text carries the same protocol and workflow hash on the producer and consumer side and in both languages, wherever the files lie. Any two different texts carry different hashes, and a text which is not changed keeps its hash.",
  ["programs", "configurations"], "all pairs from a family of protocol and workflow texts differing in one character, name, type, order or modifier, in all output combinations",
  "The tests generate both sides from one text, so a constant hash would pass.",
  ["cli/src/helpers/hash.rs", "cli/src/protocol/render/rust/mod.rs", "cli/src/protocol/render/typescript/mod.rs", "cli/src/workflow/parser.rs"],
  [("hash of sources", "cli/src/helpers/hash.rs"), ("signature", "cli/src/protocol/store.rs: get_signature")])
p("G03", "Protocol grammar: accepted exactly when well-formed, nothing dropped",
  "A protocol text is accepted exactly when it is well-formed under the documented grammar, and then every declared structure, enumeration, field and option appears in the output with its declared name, type and modifiers. A text which is ill-formed, or declares a name twice in one place, is rejected with an error and writes no output; layout never changes the result.",
  ["programs"], "all token sequences up to a length bound over the language's token alphabet, and every one-token deletion, insertion, substitution and layout change of a set of well-formed texts",
  "The tests parse two correct protocols; no ill-formed protocol text is tested.",
  ["cli/src/protocol/parser.rs", "cli/src/protocol/store.rs", "cli/src/protocol/enums.rs", "cli/src/protocol/fields.rs"],
  [("tokenizer and expectation machine", "cli/src/protocol/parser.rs"), ("entity store", "cli/src/protocol/store.rs")])
p("G04", "Type names resolve to the same declaration everywhere",
  "A type name in a field resolves to one declaration, the one nearest to its place of use following the nesting of groups, in both output languages, even when several groups declare the same name; a name that resolves to nothing, or which a later declaration would give another meaning, is rejected. A dotted path starts from the enclosing group, or else from the nearest enclosing level which has that first group, or else the top level.",
  ["programs"], "all placements of a declaration and of a reference (bare or dotted, to a structure or an enumeration, plain, repeated, optional, in struct or enum) in group trees to depth three with colliding names",
  "The tests contain a handful of group references without collisions that matter.",
  ["cli/src/protocol/store.rs", "cli/src/protocol/fields.rs", "cli/src/protocol/types.rs", "cli/src/protocol/render/rust/mod.rs", "cli/src/protocol/render/typescript/mod.rs"],
  [("lookup", "cli/src/protocol/store.rs: find_by_path"), ("path rendering", "cli/src/protocol/render/*/mod.rs")])
p("G05", "Workflow references and duplicates are validated",
  "A workflow is accepted only if every request, error, response, broadcast, event, beacon and identification reference is the full path of a structure of the protocol, and no request, event, beacon, conclusion of a request or broadcast of one response or event is declared twice; otherwise generation fails with an error and writes no code. There has to be exactly one configuration, with known targets for the producer and the consumer; keys of identification are optional and given at most once.",
  ["programs", "configurations"], "every reference position of every workflow construct replaced by an undefined name, an enumeration, a group, a wrong-group name; every pair of duplicated declarations; every subset of configuration keys with every value",
  "Eleven fixed error files are tested; positions, kinds and combinations are not enumerated.",
  ["cli/src/workflow/request.rs", "cli/src/workflow/event.rs", "cli/src/workflow/beacon.rs", "cli/src/workflow/config.rs", "cli/src/workflow/store.rs", "cli/src/workflow/parser.rs"],
  [("reference checks", "cli/src/workflow/{request,event,beacon,config}.rs"), ("store", "cli/src/workflow/store.rs")])
p("G06", "Workflow grammar: accepted exactly when well-formed, nothing dropped",
  "A workflow text is accepted exactly when it is well-formed under the documented grammar, and then every declared request, action, broadcast, event, beacon and option takes effect in the output. An ill-formed text is rejected with an error rather than partly ignored; layout and comments (from # to the end of the line) never change the result.",
  ["programs"], "every one-token deletion, insertion, substitution and transposition, every truncation and every layout change of a set of well-formed workflows covering each construct",
  "The tests parse a few correct workflows and eleven with bad references; none is syntactically ill-formed.",
  ["cli/src/workflow/parser.rs", "cli/src/workflow/request.rs", "cli/src/workflow/event.rs", "cli/src/workflow/beacon.rs", "cli/src/workflow/config.rs"],
  [("tokenizer", "cli/src/workflow/parser.rs"), ("entity parsers", "cli/src/workflow/{request,event,beacon,config}.rs")])
p("G07", "Command line: no overwriting without consent, no output on failure",
  "The command line never overwrites an existing protocol output unless overwriting was requested, and never changes any file other than the requested outputs. Invalid arguments, missing inputs or invalid sources give an error, a failing exit status and leave every file as it was; a requested output is either written completely or reported.",
  ["configurations", "histories"], "all combinations of the command-line options with present/absent inputs and present/absent outputs, in every argument order of the accepted sets",
  "The tests call the tool with a few fixed argument lists.",
  ["cli/src/ctrlargs.rs", "cli/src/arguments/args_option_files.rs", "cli/src/arguments/args_option_overwrite.rs", "cli/src/main.rs"],
  [("argument handling", "cli/src/ctrlargs.rs"), ("file options", "cli/src/arguments/args_option_files.rs")])
p("G08", "Regeneration is deterministic and keeps the user's handlers",
  "Generating a workflow again over its own output never changes a handler file the user owns, restores every implementation file the tool owns, and produces exactly what a generation into an empty directory would, whichever generated files were edited or removed in between. Generating twice from the same inputs gives byte-identical output.",
  ["histories", "configurations"], "every single generated file edited or removed, every subset of a small set of files edited or removed, followed by one or two regenerations, for all four output kinds",
  "The tests generate over committed copies but never compare what is preserved or restored.",
  ["cli/src/workflow/render/render.rs", "cli/src/helpers/fs.rs", PR+"render.rs", CR+"render.rs", PT+"render.rs", CT+"render.rs"],
  [("skip existing handler", PR+"render_*.rs"), ("write", "cli/src/helpers/fs.rs")])
p("G09", "The sequence diagram shows every interaction of the workflow",
  "The generated diagram shows every request with each of its responses and error, every broadcast of each action and event, and every beacon, between the right parties and nothing else. It needs no other output to be requested.",
  ["programs"], "all workflows of up to two requests with up to two actions with up to two broadcasts (optional or not), up to two events and two beacons",
  "No test generates a diagram.",
  ["cli/src/workflow/render/puml/mod.rs", "cli/src/workflow/render/puml/render_request.rs", "cli/src/workflow/render/puml/render_event.rs"],
  [("diagram renderers", "cli/src/workflow/render/puml/")])
p("G10", "Accepted sources generate code that compiles",
  "Whenever the generator accepts a protocol or a workflow whose names are not reserved by the target language or the generated code, the Rust output compiles with rustc and the TypeScript output passes the TypeScript compiler. Whatever a field or option may be declared as in the language can be generated for both languages, and the code of a workflow compiles as a package with the dependencies which the generator writes to its manifest.",
  ["programs"], "every field shape and enum option shape, every placement of referenced types in group trees to depth five, every feature combination of small protocols",
  "The tests compile the Rust output of three protocols and no TypeScript output.",
  ["cli/src/protocol/render/rust/mod.rs", "cli/src/protocol/render/typescript/mod.rs", "cli/src/protocol/types.rs"],
  [("Rust renderer", "cli/src/protocol/render/rust/mod.rs"), ("TypeScript renderer", "cli/src/protocol/render/typescript/mod.rs")])
# ---------------------------------------------------------------- rust producer
p("R01", "Rust producer: only recognised consumers are served",
  "The generated producer runs application handlers for a consumer's requests and beacons only after that consumer completed the handshake with the producer's protocol and workflow hashes and gave its own key, and, where the configured strategy asks for it, after the application assigned one. A consumer with a wrong hash, or which sends anything else before the handshake is complete, is told so or reported and disconnected, and nothing it sends afterwards is served; one without an assigned key is reported and disconnected exactly as the configured strategy says.",
  ["schedules", "inputs", "histories"], "all sequences of up to five or six inputs from two consumers (connect, good and bad handshake messages, requests, beacons, garbage, disconnect), in every chunking by message boundary, under every configured strategy",
  "The workflow test has every consumer do the correct handshake in the same order.",
  [PR+"render_mod.rs", PR+"render_consumer.rs", PR+"render_identification.rs", PR+"static/implementation/scope/mod.rs"],
  [("message dispatch", PR+"render_mod.rs: server_events_task"), ("identification", PR+"render_identification.rs")],
  [("consumers", "connected consumers with their handshake state")])
p("R02", "Rust producer: each request gets exactly one matching response",
  "Each accepted request is answered to its sender exactly once, with the request's sequence number and the response, or the declared error, that the handler chose; nobody else receives it. The broadcasts the handler chose are then delivered exactly once to each chosen recipient that is connected, after the response, and requests of one consumer are answered in the order they arrived.",
  ["inputs", "histories", "schedules"], "all sequences of requests from two consumers choosing every declared response, error and broadcast recipient set, coalesced into chunks in every way, with disconnects at every point",
  "The workflow test checks one response per request in a fixed script.",
  [PR+"render_request_handler.rs", PR+"render_request_response.rs", PR+"render_mod.rs"],
  [("handlers", PR+"render_request_handler.rs"), ("broadcasting", PR+"render_mod.rs: broadcast")])
p("R03", "Rust producer: one consumer's failure does not affect others",
  "Garbage bytes, a handler error, a vanished or failing connection, or a failing send or disconnection of one consumer never stop the producer nor change what other consumers receive; they are reported to the error handler or end in a disconnection as the configured strategy says. Handling of a consumer ends with its disconnection: none of its remaining messages reach a handler.",
  ["fault_sequences", "schedules", "histories"], "every single and pair of faults (garbage, wrong signature, handler error, send error, disconnect error, disconnect) injected at every point of a script with two consumers",
  "The workflow test injects no faults.",
  [PR+"render_mod.rs", PR+"render_consumer.rs", PR+"render_request_handler.rs"],
  [("error paths", PR+"render_mod.rs"), ("per-consumer buffer", PR+"render_consumer.rs")])
p("R04", "Rust producer: lifecycle events match what happened",
  "The ready event comes once when the transport is ready, each connection gets one connected event and, when it ends, one disconnected event, and shutdown comes last and once, after which no handler runs; the producer's run ends when it is shut down by the application or its transport ends. The set of consumers that handlers see and can address is exactly the set of connected consumers.",
  ["schedules", "histories"], "all orders of server events, application events and shutdown requests up to the depth bound, with every choice of which ready input is served first",
  "The workflow test observes one run with one ordering.",
  [PR+"render_mod.rs", PR+"render_consumer.rs", PR+"static/implementation/scope/mod.rs"],
  [("main loop", PR+"render_mod.rs: listener"), ("filter", PR+"render_consumer.rs / identification Filter")])
p("R05", "Rust producer: identity keys follow the configured strategy",
  "A consumer's own key is stored as it was sent and is what handlers see. Changes of either key made by handlers and events, for any consumer, are applied in the order they were made, each replacing the key or only the fields which have a value, as asked, and are visible from then on; nothing else changes the keys, no message of one consumer changes those of another, and lookups by key return exactly the consumers whose keys match.",
  ["histories", "inputs", "configurations"], "all sequences of up to four identity operations over two consumers and all option combinations",
  "The workflow test uses one strategy and one assignment.",
  [PR+"render_identification.rs", PR+"render_mod.rs"],
  [("identification", PR+"render_identification.rs")])
p("R06", "Rust producer: beacons and events reach what they should",
  "Each beacon from a recognised consumer is handed to its handler once and confirmed to its sender with the beacon's sequence number, with the error text when the handler failed. Each event raised by the application or by a handler runs its handler once, and the chosen broadcasts are delivered exactly once to each chosen connected recipient.",
  ["histories", "inputs", "fault_sequences"], "all sequences of beacons and events with succeeding and failing handlers and every recipient set over two consumers",
  "The workflow test sends each beacon and event in one order with succeeding handlers.",
  [PR+"render_beacon_emitter.rs", PR+"render_event_emitter.rs", PR+"render_mod.rs"],
  [("beacon emitter", PR+"render_beacon_emitter.rs"), ("event emitter", PR+"render_event_emitter.rs")])
# ---------------------------------------------------------------- rust consumer
p("N01", "Rust consumer: every call gets its own response",
  "A request made through the generated consumer completes with the response or error that carries its sequence number, whatever the order in which responses arrive and however they are chunked; a response is given to one call only. Broadcasts, unexpected responses and foreign messages never complete a call, and each broadcast reaches its handler exactly once, in arrival order.",
  ["schedules", "histories", "inputs"], "all arrival orders and chunkings of the responses to up to three concurrent calls mixed with broadcasts and stray responses, under every choice of which ready input is served first",
  "The workflow test makes its calls one after another.",
  [CR+"render_consumer.rs", CR+"render_controller.rs", CR+"static/implementation/consumer/api.rs"],
  [("pending table", CR+"static/implementation/consumer/api.rs"), ("dispatch", CR+"render_consumer.rs")],
  [("pending calls", "sequence number to waiting call")])
p("N02", "Rust consumer: timeouts and cancelled calls stay local",
  "A request whose response does not arrive within the configured time ends with a timeout error, and its late response is given to no call; a call abandoned by the application is likewise forgotten. Neither disturbs the connection or any other call, before, during or after the handshake, and a beacon call ends with the producer's confirmation or error.",
  ["schedules", "histories", "fault_sequences"], "all orders of response, timeout and abandonment for up to two concurrent calls, followed by a further call",
  "The workflow test never times out or abandons a call.",
  [CR+"render_consumer.rs", CR+"render_controller.rs"],
  [("timeouts", CR+"render_controller.rs / render_consumer.rs"), ("reply delivery", CR+"static/implementation/consumer/api.rs")])
p("N03", "Rust consumer: connection is reported only after a full handshake",
  "The generated consumer introduces itself with its key and hashes when the producer confirms the connection, and reports itself connected exactly once, after the producer accepted them. A rejection, a broken connection or an unexpected answer during the handshake ends in an error and never in a connected report, and broadcasts that arrive meanwhile are not mistaken for an answer.",
  ["schedules", "histories", "fault_sequences"], "all sequences of up to four producer-side inputs (confirmation, acceptances, rejections, broadcasts, garbage, disconnect) in every chunking during the handshake",
  "The workflow test runs only the successful handshake.",
  [CR+"render_consumer.rs"],
  [("handshake", CR+"render_consumer.rs: auth")])
p("N04", "Rust consumer: shutdown, disconnect and reconnect are orderly",
  "Closing the consumer (by the application or from within a handler), losing the connection or a failure of the transport raises the disconnected and shutdown events once each, ends every pending call with an error and lets every later call fail at once rather than hang. With reconnection configured, a connection which ended without an error and was not closed by the application is re-established after the configured time with a new handshake, if the reconnect handler agrees.",
  ["schedules", "histories", "fault_sequences"], "every point of a session at which the connection is lost or closed, with up to two pending calls and each option setting",
  "The workflow test closes once, at the end, with nothing pending.",
  [CR+"render_consumer.rs", CR+"render_controller.rs", CR+"render_options.rs"],
  [("main loop", CR+"render_consumer.rs: connect"), ("reconnection", CR+"render_consumer.rs")])
# ---------------------------------------------------------------- typescript runtime
p("T01", "TypeScript producer: recognised consumers, one response each",
  "The generated TypeScript producer runs handlers only for consumers which completed the handshake with matching hashes; others are disconnected or refused and none of their messages is served. Each request of a recognised consumer is answered once, to its sender, with the request's sequence number and the handler's response or error, and broadcasts go to exactly the chosen consumers after the response.",
  ["schedules", "inputs", "histories", "fault_sequences"], "all sequences of up to five inputs from two consumers, in every joining (one chunk, one turn, later turns, settled) and every order of handler completion",
  "No TypeScript code is run by the tests.",
  [PT+"render_mod.rs", PT+"render_identification.rs", PT+"render_request_handler.rs"],
  [("dispatch", PT+"render_mod.rs"), ("identification", PT+"render_identification.rs")])
p("T03", "TypeScript producer: identities and filters of consumers",
  "In the generated TypeScript producer each consumer keeps its own key, identifier and assigned data: handlers see exactly what the consumer sent merged with what was assigned to that consumer, the filter lists exactly the connected consumers and exactly the assigned ones, and assigning, merging or overwriting the key of one consumer never changes another's.",
  ["histories", "schedules"], "all sequences of handshakes, assignments, key changes from own and foreign handlers, and disconnections of two consumers up to the bound",
  "No TypeScript code is run by the tests.",
  [PT+"render_identification.rs", PT+"render_mod.rs"],
  [("identification", PT+"render_identification.rs"), ("filter", PT+"render_mod.rs")])
p("T04", "TypeScript producer: faults, beacons, events and lifecycle",
  "In the generated TypeScript producer garbage, unknown messages, failing handlers, failing sends or the loss of one consumer never affect the others; a beacon is handled once and confirmed, with the error if its handler failed; an application event emits the handler's broadcasts to the chosen consumers; connected, disconnected, ready and shutdown are raised once each in order, and after destroy nothing is served.",
  ["schedules", "inputs", "histories", "fault_sequences"], "all sequences of connections, messages, garbage, failures of the transport and of handlers, application events and destruction up to the bound, in every joining",
  "No TypeScript code is run by the tests.",
  [PT+"render_mod.rs", PT+"render_beacon_emitter.rs", PT+"render_event_emitter.rs", PT+"render_beacon_emitters_mod.rs", PT+"render_event_emitters_mod.rs"],
  [("dispatch", PT+"render_mod.rs"), ("beacons", PT+"render_beacon_emitter.rs"), ("events", PT+"render_event_emitter.rs")])
p("T02", "TypeScript consumer: correlation, handshake and errors",
  "The generated TypeScript consumer becomes ready only after the producer accepted its key and hashes, and each request then settles exactly once with the response or error carrying its sequence number, whatever the arrival order or chunking. Broadcasts reach subscribers once each and never settle a request; a lost connection settles every pending request with an error.",
  ["schedules", "inputs", "histories", "fault_sequences"], "all arrival orders and joinings of the answers to up to three concurrent requests mixed with broadcasts, strays, garbage, transport failures and disconnects",
  "No TypeScript code is run by the tests.",
  [CT+"render_consumer.rs", CT+"render_request.rs", CT+"render_beacon.rs", CT+"render_interfaces_request.rs"],
  [("dispatch", CT+"render_consumer.rs"), ("requests", CT+"render_request.rs")])
p("T05", "TypeScript consumer: the consumer of the application",
  "In a TypeScript application at most one consumer at a time is the global one: it is the one that Consumer.get() returns and that requests and beacons made without a named consumer use, from its creation until it is destroyed; everyone who waits for it with Consumer.wait() and has not withdrawn is called once when it is created. Creating a second global consumer, or waiting while there is one, is refused and has no effect; consumers created with global: false never take its place, and destroying one consumer leaves the others and their calls alone.",
  ["histories", "configurations"], "all sequences of up to five (quick) or six creations of up to three consumers, waits, withdrawals, destructions, connections and calls with and without a named consumer",
  "No TypeScript code is run by the tests.",
  [CT+"render_consumer.rs", CT+"render_options.rs", CT+"render_request.rs", CT+"render_beacon.rs"],
  [("registration", CT+"render_consumer.rs: get, wait, constructor, destroy"), ("use", CT+"render_request.rs / render_beacon.rs: send")])
p("E01", "Producers and consumers of both languages work together",
  "Any generated consumer, in either language, completes the handshake with any generated producer from the same sources, in either language, and has its requests and beacons answered and broadcasts delivered, whatever the relative timing of the two sides, and so does the next connection of a consumer after a lost one. A consumer from different sources is refused by both.",
  ["schedules", "configurations", "histories"], "all interleavings of message deliveries between one producer and one or two consumers up to the bound, for the four language pairings",
  "The tests run one pairing over a real socket with whatever timing occurs.",
  [PR+"render_mod.rs", CR+"render_consumer.rs", PT+"render_mod.rs", CT+"render_consumer.rs"],
  [("handshake", PR+"render_mod.rs; "+CR+"render_consumer.rs; "+PT+"render_mod.rs; "+CT+"render_consumer.rs")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
    with open(out, "w") as f:
        for q in P: f.write(json.dumps(q) + "\n")
    print(len(P), "properties")
