MODEL = "stateful property-based testing: random configurations and random schedules of host events, real filter in lock-step with a reference model of the pipeline"
NOTE = "Exploration: holds on every generated history. Trusts the simulated host (harness/stub) to behave like Envoy and the reference model (harness/src/pipe.rs)."
ENGINE = [KF + "kuadrant/pipeline/executor.rs", KF + "kuadrant/pipeline/blueprint.rs", WS + "filter/kuadrant_filter.rs"]
SCHED = "every action set, every order and timing of body chunks, response events and service answers, every answer or fault"

prop("C01", "Nothing passes while a guard decision is outstanding",
     "While at least one guard call made for a request (an auth or rate-limit check, or any gRPC action not marked isGuard: false, whether configured directly or in an onReply list) has not been answered, every header or body event of that request or of its response is answered with Pause and the stream is not resumed. This holds for any number of simultaneous guard calls, answered in any order, and regardless of other calls that are answered meanwhile.",
     ["schedules", "configurations", "fault_sequences"], SCHED,
     "The unit tests answer one or two calls in one fixed order; the gate must hold for every interleaving of answers, body chunks and response events and for calls started from reply actions.",
     ENGINE + [KF + "kuadrant/context.rs"],
     [("guard barrier", KF + "kuadrant/context.rs"), ("pause/resume decisions", WS + "filter/kuadrant_filter.rs")], MODEL, NOTE)

prop("C02", "A stream is never held without a reason and always released",
     "Once no guard call is outstanding, the request is resumed (unless it was denied) or let through by the next event, and the response likewise; calls that are not guards never hold the stream, except that the end of a response body is held until they are answered. When no call at all is outstanding the stream is never held.",
     ["schedules", "configurations", "fault_sequences"], SCHED,
     "A stuck stream only shows after a particular combination of outstanding calls, failures and stream events, of which the tests visit a handful.",
     ENGINE, [("barrier release on every way a call can end", P + "tasks/dynamic.rs"), ("resume decision", WS + "filter/kuadrant_filter.rs")], MODEL, NOTE)

prop("C03", "A denial is final: one reply, and no effect after it",
     "A request is answered by the filter at most once. From the moment an action denies it or it fails closed, the request is not resumed towards the upstream, no further service call is made for it, no header is changed and no metadata exported, and answers to calls still outstanding change nothing.",
     ["schedules", "histories", "fault_sequences"], SCHED,
     "Late answers, concurrent denials and denials inside onReply lists interact; tests cover a denial with nothing else in flight.",
     ENGINE + [P + "tasks/send_reply.rs"], [("termination clears the queue and neutralises outstanding calls", P + "executor.rs")], MODEL, NOTE)

prop("C04", "Every failure of a gRPC action obeys the service's failure mode",
     "When a gRPC action fails in any way (its predicate or message cannot be evaluated, the call cannot be dispatched, the answer carries a non-OK status or cannot be decoded, or an action ordered by its answer fails, also because the host refuses its change), a service with failureMode deny makes the filter reply 500 with the body 'Internal Server Error.' and count one error and one denial. With failureMode allow the request goes on with the remaining actions as if the failed one had completed, and one error is counted.",
     ["fault_sequences", "schedules", "configurations"], "every place a fault can strike, in every order with other events",
     "Tests inject single faults at fixed points; the guarantee is over every fault at every stage, including work that was postponed.",
     ENGINE + [P + "tasks/failure_mode.rs", P + "tasks/dynamic.rs"], [("failure mode wrapper", P + "tasks/failure_mode.rs")], MODEL, NOTE)

prop("C05", "Actions run in the configured order",
     "A sequential action starts only after every action listed before it has completed; a parallel action starts only after the last sequential action before it has completed, and does not wait for other parallel actions; an action in the legacy form starts only after the action listed directly before it has completed. An action completes when its predicate is false, when it has been carried out, when it failed without ending the request, or, for a gRPC action, when its answer arrived, and its onReply actions are then processed in order before other waiting actions; an action whose prerequisites have completed is never left behind.",
     ["configurations", "schedules"], SCHED,
     "Ordering must hold for every mix of execution modes and every order of answers.",
     ENGINE, [("dependency computation", P + "blueprint.rs"), ("executor pass", P + "executor.rs")], MODEL, NOTE)

prop("C06", "Actions have exactly their configured effects, once",
     "An action whose predicate is true performs its effect exactly once with the values its expressions have at that moment (service call with the built message, reply with status (500 if left out or beyond 32 bits), headers and body, header changes, stored or exported value, the message of a failure logged as an error), and an action whose predicate is false has no effect. Expressions that need something not yet known (the response, a value another action will store, a field of the response body) are evaluated once it is known; onReply actions see the reply of their own call and of its ancestors and no other.",
     ["configurations", "schedules", "inputs"], SCHED,
     "Effects depend on the interplay of predicates, stored values, reply bindings and the moment of evaluation, in combinations no sample covers.",
     ENGINE + [P + "tasks/store.rs", P + "tasks/headers.rs", P + "tasks/dynamic.rs", KF + "kuadrant/context.rs"],
     [("predicate and expression evaluation with pending values", KF + "data/cel.rs"), ("scoped reply bindings", KF + "kuadrant/context.rs")], MODEL, NOTE)

prop("C24", "Metrics count what happened, once per request",
     "Each request that matches an action set increments kuadrant.hits once and each one that matches none increments kuadrant.misses once; kuadrant.denied grows by one for each reply an action or a failing service makes the filter send, kuadrant.errors by one for each failed gRPC action or failing terminal action and for a request whose action set cannot be determined, which is answered 500, and kuadrant.allowed by one when the response starts to a matched request that was not denied, and never after such a 500.",
     ["schedules", "fault_sequences", "configurations"], SCHED,
     "Counters drift when an event path counts twice or not at all; the tests never read them across whole histories.",
     ENGINE + [KF + "metrics/mod.rs", P + "tasks/failure_mode.rs", P + "tasks/send_reply.rs", P + "tasks/fail.rs"],
     [("counter increments", WS + "filter/kuadrant_filter.rs")], MODEL, NOTE)


SIM = "The simulated host (harness/stub) stands in for Envoy."

prop("C07", "The most specific host and the first matching action set govern a request",
     "The host of a request is its host attribute up to the first ':' compared without regard to case. Among the configured hostnames the most specific matching one counts: the exact name, else the longest '*.suffix' under which the host lies (one or more labels below the suffix), else '*'. Of the action sets listing that hostname, the first in configuration order whose route predicates are all true governs the request; predicates are evaluated in order up to the first false one. A request for which no set is selected passes untouched (a miss). A missing host, or a predicate that cannot be evaluated or is not a boolean, answers 500 'Internal Server Error.\\n' and counts an error.",
     ["inputs", "configurations"], "every set of hostnames, sets, predicates and request hosts",
     "Precedence among overlapping wildcards, shared hostnames and predicate order is a relation over whole configurations; the tests use a few fixed hostnames.",
     [KF + "kuadrant/pipeline/factory.rs", KF + "kuadrant/pipeline/blueprint.rs", WS + "filter/kuadrant_filter.rs"],
     [("hostname radix lookup", KF + "kuadrant/pipeline/factory.rs"), ("route predicates", KF + "kuadrant/pipeline/blueprint.rs")],
     "property-based testing: random configurations and requests against an independent routing model (linear scan for the most specific hostname)", SIM)

prop("C18", "A configuration is applied exactly or refused entirely",
     "A well-formed configuration is accepted and every omitted optional setting has its documented default (service failureMode deny, timeout 20ms; action isGuard true, execution parallel, no onReply, no predicates; store exportToHost false; deny status 500, etc.); stated timeouts are honoured exactly. A configuration with malformed JSON, a missing required field, a value of the wrong type, an unknown enum value, an unparsable timeout, an invalid CEL expression in a predicate or action, an unknown or unsuitable service, or a sequential action within onReply is refused: the load fails, no call is made and nothing of it comes into force.",
     ["inputs", "configurations"], "every configuration and every single corruption of one",
     "There are hundreds of places to corrupt a configuration; the tests check a few by hand and never that a refusal has no effect.",
     [KF + "configuration.rs", WS + "filter/root_context.rs", KF + "kuadrant/pipeline/factory.rs", KF + "kuadrant/pipeline/blueprint.rs"],
     [("deserialisation and defaults", KF + "configuration.rs"), ("compilation", KF + "kuadrant/pipeline/blueprint.rs")],
     "property-based testing: random valid configurations, mutated at a random place by a catalogue of corruptions; metamorphic comparison of omitted settings with their documented defaults", SIM)

prop("C19", "Loading a configuration is atomic",
     "A refused configuration changes nothing about how requests are handled, whether they are already open or opened later. An accepted one governs, as a whole, every request opened after it, while each request already open is carried through under the configuration with which it was opened. kuadrant.configs counts every load.",
     ["histories", "schedules", "configurations"], "every history of loads interleaved with open requests",
     "It is a property of histories of loads and requests in flight; the tests load one configuration.",
     [WS + "filter/root_context.rs", KF + "kuadrant/pipeline/factory.rs"],
     [("factory replacement", WS + "filter/root_context.rs")],
     "stateful property-based testing: histories of good and bad loads interleaved with requests in flight, compared with a model holding one configuration per request", SIM)

PBT = "property-based testing: random configurations, requests and values; the message actually dispatched (or the effects on the host) compared with an independent model"

prop("C08", "Rate limit calls carry exactly the configured data",
     "A legacy rate limit action calls its service's method (ShouldRateLimit, CheckRateLimit or Report) exactly when all its predicates hold and its conditionalData is empty or has a block whose predicates all hold. The message has as domain the ratelimit.domain item or else the scope; as hits_addend the ratelimit.hits_addend item or else 1; and as descriptors first the entries of all blocks whose predicates hold, in order (static values literally, expressions as strings), then those of requestData, ordered by domain and field (key 'domain.field', or just the field without domain or under metrics.labels), where entries over responseBodyJSON only reach reports. A report over the response body is sent once, with the body's values, when the body is complete. An action whose predicates or values cannot be evaluated, or whose values do not fit the message, fails according to failureMode and sends nothing.",
     ["inputs", "configurations"], "every configuration of legacy rate limit actions, every request",
     "Configuration is turned into program text that is evaluated per request: quoting, precedence, conditions and orders combine without bound; the tests compare a few generated texts literally.",
     [KF + "configuration/legacy_translation.rs", KF + "kuadrant/pipeline/factory.rs", KF + "services/dynamic.rs"],
     [("translation to CEL", KF + "configuration/legacy_translation.rs"), ("message conversion", KF + "services/dynamic/converters.rs")], PBT, SIM + " Empty descriptors are ignored on both sides.")

prop("C09", "Rate limit answers have exactly their documented effect",
     "For a legacy rate limit or check action: OVER_LIMIT is answered to the client with 429, the answer's response_headers_to_add and the body 'Too Many Requests\\n', and no later action runs; OK lets the request go on and sets response_headers_to_add on the response (replacing headers of the same name); any other code answers 500 'Internal Server Error.\\n' regardless of failureMode, counting one error; an unsuccessful or undecodable answer follows failureMode. No report answer, whatever its code, denies the request or changes a header; an unsuccessful report follows failureMode.",
     ["inputs", "histories", "fault_sequences"], "every sequence of actions, answers, headers and faults",
     "Answers of several actions, failure modes and headers combine; tests try one answer at a time.",
     [KF + "configuration/legacy_translation.rs", P + "tasks/dynamic.rs", P + "tasks/send_reply.rs", P + "tasks/headers.rs"],
     [("reply actions", KF + "configuration/legacy_translation.rs")], PBT, SIM)

prop("C10", "Auth calls carry the request as it is",
     "A legacy auth action calls Authorization/Check exactly when all its predicates hold. The CheckRequest carries the request's time (to the nanosecond), host, method, scheme, path, protocol and all headers (several values of one name joined with ','), the source and destination address and port, the scope as context extension 'host', and per requestData domain ('io.kuadrant' or 'io.kuadrant.<domain>') the fields with their values as strings, where an expression over auth is passed as {'cel_expr': <expression text>} and one over responseBodyJSON is left out; nothing else. If an attribute is missing or a value cannot be evaluated the action fails according to failureMode and nothing is sent.",
     ["inputs", "configurations"], "every request, scope and requestData",
     "Any header, scope or expression text passes through generated program text and a hand-written conversion; tests use one request.",
     [KF + "configuration/legacy_translation.rs", KF + "data/attribute.rs", KF + "data/headers.rs", KF + "services/dynamic/converters.rs"],
     [("translation to CEL", KF + "configuration/legacy_translation.rs"), ("message conversion", KF + "services/dynamic/converters.rs")], PBT, SIM)

prop("C11", "Auth answers have exactly their documented effect",
     "For a legacy auth action: denied_response is answered to the client with its status (403 if that is 0 or missing), headers and body, and nothing else happens; ok_response sets its headers on the request (replacing headers of the same name) and, if the answer has dynamic_metadata, exports it unchanged as kuadrant.auth and makes it readable as auth.* with the same values to later actions; an ok_response with response_headers_to_add, headers_to_remove or query_parameters_to_set/_to_remove, or an answer with neither response, answers 500 without any effect, regardless of failureMode. An unsuccessful or undecodable answer follows failureMode.",
     ["inputs", "histories", "fault_sequences"], "every answer of the auth service, every request",
     "Answers carry arbitrary headers and metadata trees; the tests know a few flat ones.",
     [KF + "configuration/legacy_translation.rs", P + "tasks/store.rs", P + "tasks/headers.rs", P + "tasks/send_reply.rs", KF + "services/dynamic/converters.rs"],
     [("reply actions", KF + "configuration/legacy_translation.rs"), ("metadata conversion", KF + "services/dynamic/converters.rs")], PBT, SIM + " One known finding: a denial without status.")

prop("C12", "A dynamic call carries exactly the message its expression builds",
     "The messageBuilder of an action yields a protobuf message of the called method's input type whose every field holds the value the expression gives it: all scalar types, bytes, enums by number, nested and repeated messages, maps of every key type, oneofs, optional fields, wrappers, timestamps, durations, and Struct/Value/ListValue from JSON-like values; fields not given stay unset. A value that does not fit its field (wrong type, integer or map key out of range or of another type, unknown field) or a result that is no message is never truncated, coerced or dropped: nothing is sent and the action fails according to failureMode, without a crash.",
     ["inputs"], "every message and every misfit, over a schema with all field kinds",
     "Types, cardinalities, presence and ranges combine without bound; tests convert a few values each.",
     [KF + "services/dynamic/converters.rs", KF + "services/dynamic.rs", P + "tasks/dynamic.rs"],
     [("CEL to protobuf", KF + "services/dynamic/converters.rs")],
     "property-based testing: random messages over a schema with every field kind, written as CEL, sent by the real filter and decoded by an independent decoder; random misfits", SIM)

prop("C13", "Expressions read a service's answer as it was sent",
     "In onReply every field of the answer has, under the action's var, exactly the value sent: integers, unsigned integers, doubles, booleans, strings, bytes, enums (as numbers), timestamps, nested messages, lists and maps with all their elements, and Struct/Value as JSON-like values. has() is true exactly for message, oneof and optional fields that were sent; scalar fields not sent are their defaults, lists and maps not sent are empty, and reading a message, oneof or optional field that was not sent, or a field that does not exist, fails. An answer that does not decode under the method's output type runs no onReply action and follows failureMode.",
     ["inputs", "fault_sequences"], "every answer over a schema with all field kinds, in every wire order, and undecodable ones",
     "Every combination of present and absent fields is a different case; tests read a few.",
     [KF + "services/dynamic/converters.rs", P + "tasks/dynamic.rs"],
     [("protobuf to CEL", KF + "services/dynamic/converters.rs")],
     "property-based testing: random answers encoded by an independent encoder, read back through generated CEL statements and exports", SIM)

prop("C14", "Expressions see the request's attributes as the host holds them",
     "An expression reads request.*, source.*, destination.* and connection.* attributes with their documented type and exact value: strings, integers, booleans, bytes, request.time to the nanosecond, request.headers as a map whose repeated names are joined with ','. source.remote_address is the IP address of source.address without port, for IPv4 and IPv6. request.grpc.service and .method are the parts of a path /service/method when the content type begins with application/grpc, else request.grpc is absent. metadata.* values that are JSON are read as such (non-negative integers unsigned, negative ones signed, others doubles), any other text as that text. A missing attribute is null. An attribute whose bytes are not of its type, or that the host fails to deliver, fails the evaluation. What else an expression contains does not change what its attributes are.",
     ["inputs"], "every attribute, value and expression over them",
     "Values, types, absence and the shape of the expression combine; tests look at a handful of attributes with one value each.",
     [KF + "data/cel.rs", KF + "data/attribute.rs", KF + "data/grpc.rs", KF + "data/headers.rs", KF + "kuadrant/context.rs", KF + "kuadrant/cache.rs"],
     [("attribute analysis and resolution", KF + "data/cel.rs"), ("host attributes", KF + "kuadrant/context.rs")],
     "property-based testing: random host attributes; statements generated with the values evaluated by the real filter", SIM)

prop("C15", "String functions in expressions work on characters and agree on positions",
     "charAt, indexOf, lastIndexOf, substring, replace, split, join, trim, lowerAscii and upperAscii give for any text what their definition over Unicode characters says. Positions are integers counted in characters from 0 in all functions: indexOf is the first occurrence (at or after the given position), lastIndexOf the last (starting at or before the given position), -1 when there is none or the position is beyond the text; substring(a, b) is the characters from a up to but not including b, clipped to the text; replace and split take an optional limit where a negative one means no limit. Case functions change ASCII letters only. charAt outside the text, a substring ending before it starts, and arguments of other types fail the evaluation; nothing crashes.",
     ["inputs"], "every text, piece, position and limit",
     "Tests use ASCII texts and few positions; multi-byte characters and boundary positions are where such functions break.",
     [KF + "data/cel/strings.rs"],
     [("string functions", KF + "data/cel/strings.rs")],
     "property-based testing: random texts, pieces and positions against naive definitions over character lists; metamorphic agreement among the functions", SIM)

prop("C16", "Fields of JSON bodies are read exactly, however the body arrives",
     "requestBodyJSON(pointer) and responseBodyJSON(pointer) give the scalar that the RFC 6901 pointer addresses in the JSON body (strings unescaped, numbers and booleans exactly; null in store actions), wherever they are used: in the predicate or value of a store action, in the predicate or message of a gRPC action, in a stand-alone deny or fail action, in actions of a reply, for either body or both. Neither how the body is cut into chunks, formatted, escaped or ended (by its last chunk, an empty chunk or trailers), nor pauses of the stream, nor when an action starts to wait changes the value; the body passes unchanged. When the body is over and the field is not there, or the body is not JSON where the whole of it is needed, or the host does not hand the body out, store actions store nothing and gRPC actions fail by their failure mode; no field is ever found in the absence of a body.",
     ["inputs", "schedules", "configurations"], "every JSON document, pointer, chunking, pause and consumer",
     "Values must survive every cut and every formatting; the tests parse a few bodies given in one or two pieces.",
     [P + "tasks/store.rs", P + "tasks/store/json_body_parser.rs", P + "tasks/store/body_parser.rs", P + "tasks/token_usage.rs", P + "blueprint.rs", KF + "kuadrant/context.rs", WS + "filter/kuadrant_filter.rs"],
     [("streaming extraction", P + "tasks/store/json_body_parser.rs"), ("extraction for calls", P + "tasks/token_usage.rs"), ("body accounting", KF + "kuadrant/context.rs")],
     "property-based testing: random documents rendered in random ways, cut and delivered at random, read by random consumers of the real filter; the generated values are the oracle", SIM)

prop("C17", "Fields of event streams come from the last event but one",
     "When the response's content-type contains text/event-stream, responseBodyJSON(pointer) gives the scalar that the pointer addresses in the JSON data of the second-to-last complete event of the stream (the last one being the end marker). An event is complete at its blank line; its data are the values of its data lines joined by line feeds; comments, other fields, and blocks without data count for nothing, and neither does an unfinished event at the end. Lines end with LF or CRLF. The cut into chunks (also within a line end or a character), pauses and the kind of action that reads make no difference. With fewer than two events, or when that event is not JSON or lacks the field, store actions store nothing and gRPC actions fail by their failure mode.",
     ["inputs", "schedules", "configurations"], "every event stream, pointer, chunking and consumer",
     "Event framing breaks at particular cuts and line forms; tests use a few streams in whole events.",
     [P + "tasks/store/sse_body_parser.rs", P + "tasks/store/sse_body_parser/sse_line_parser.rs", P + "tasks/store.rs", P + "tasks/token_usage.rs"],
     [("event parser", P + "tasks/store/sse_body_parser.rs"), ("strategy by content type", P + "tasks/token_usage.rs")],
     "property-based testing: random event streams with noise, cut and delivered at random; the document placed in the last event but one is the oracle", SIM)

prop("C20", "Descriptors of dynamic services are fetched until known, and used as fetched",
     "For the gRPC services of an accepted configuration other than the three built-in ones, the filter asks the descriptor service (descriptorService, by default kuadrant-operator-grpc) at load and then every two seconds, in one call, for the (cluster, service) pairs that are neither known nor being asked for: all those of the configuration in force, none that only a refused configuration named; after a failed, undecodable or partial answer the missing ones are asked for again at the next tick. A descriptor is taken from an answer only if it decodes and contains its service; broken ones do not affect the others, and answers to other calls are ignored. Known descriptors survive reloads; built-in ones cannot be replaced. A call to a service whose descriptor is known is encoded and its answer read by the schema fetched for its own cluster, whatever other services use; a call to one whose descriptor or method is missing fails by its failureMode and nothing is sent.",
     ["histories", "fault_sequences", "configurations"], "every history of loads, ticks, answers, faults and requests",
     "What is known, pending and missing evolves over loads, ticks and answers; the tests look at single transitions.",
     [KF + "services/dynamic.rs", KF + "filter/descriptor_manager.rs", WS + "filter/root_context.rs", P + "tasks/dynamic.rs", KF + "kuadrant/context.rs"],
     [("descriptor fetch and retry", WS + "filter/root_context.rs"), ("types per task", KF + "kuadrant/context.rs")],
     "stateful property-based testing: random histories of loads, ticks, fetch answers and requests in lock-step with a model of what is known per cluster and service", SIM)

prop("C21", "Header actions replace exactly the headers they name",
     "A headers action with a true predicate evaluates its list and sets each pair in order on the request or response: [name, value] lists of two strings, HeaderValue and HeaderValueOption messages, or the header list of an answer; entries of any other form are skipped. Setting a header leaves exactly that one value under its name, compared without regard to case, and all other headers stay as they are, including repeated ones. Actions apply in order, those on the response once it has begun; later expressions over request.headers see the result.",
     ["inputs", "configurations"], "every list of pairs, every set of existing headers, several actions on either side",
     "Names in other case, repeated names and several actions on the same header combine; tests set one fresh header.",
     [P + "tasks/headers.rs", KF + "data/headers.rs", KF + "services/dynamic/converters.rs", KF + "kuadrant/context.rs"],
     [("header operations", P + "tasks/headers.rs"), ("header list", KF + "data/headers.rs")], PBT, SIM)

prop("C22", "Concurrent requests do not affect each other",
     "What the filter does for a request (calls and their contents, replies, header changes, exports, pauses and resumptions) is the same whether the request runs alone or interleaved in any way with other requests of the same configuration, and a value of one request never appears in anything done for another.",
     ["schedules", "histories"], "every interleaving of the events of several requests",
     "Requests share the filter instance, its compiled expressions, services and caches; the tests run one request at a time.",
     [WS + "filter/kuadrant_filter.rs", WS + "filter/root_context.rs", KF + "kuadrant/pipeline/factory.rs", KF + "kuadrant/context.rs", KF + "kuadrant/cache.rs"],
     [("per-request context", KF + "kuadrant/context.rs")],
     "metamorphic property-based testing: random requests with fixed plans run alone and interleaved at random; event logs must be equal", SIM)

prop("C28", "Configurations in one VM do not affect each other",
     "Envoy gives every plugin configuration, and every new version of one, a root context of its own in the VM it shares with others. Whatever configurations are loaded (accepted or refused), polled, given descriptors, used by requests or dropped in one root context, the loads, fetches, timers, calls, replies, header changes and exports of another are what they would be without it: requests are governed by the configuration of their own root, service descriptors fetched for one configuration are not used by another, and no value of one appears in anything done for another.",
     ["histories", "schedules", "configurations"], "every interleaving of loads, ticks, fetch answers and requests of several root contexts",
     "Anything kept in the module instead of the root context (a cache, a registry, a timer flag) is shared by listeners that have nothing to do with each other; the tests only ever have one root.",
     [WS + "filter/root_context.rs", KF + "filter/descriptor_manager.rs", KF + "kuadrant/pipeline/factory.rs", KF + "services/dynamic.rs", WS + "lib.rs"],
     [("state of a root context", WS + "filter/root_context.rs"), ("descriptors", KF + "filter/descriptor_manager.rs")],
     "metamorphic stateful property-based testing: the scripted lives of 2 or 3 root contexts run alone and interleaved at random in one VM; what each does must be equal", SIM + " Tracing is off: its level belongs to the whole VM.")

prop("C23", "Calls go to their service on behalf of their request",
     "Every service call goes to the service's configured endpoint, gRPC service and method with the configured timeout (default 20ms), and carries exactly one x-request-id: the request's own or else one generated id that is the same for all calls of that request and of no other. A valid traceparent, tracestate and baggage of the request are passed on: verbatim when tracing is not configured, and otherwise with the same trace id and flags, never those of another request. When observability.httpHeaderIdentifier is set, responses and denials of requests to a configured hostname carry that header with exactly the request id, whatever characters either contains.",
     ["inputs", "schedules", "configurations"], "every request id, trace context, log level and interleaving of requests",
     "Ids and span contexts leak between requests only in particular interleavings, and quoting breaks only on particular ids; the tests know neither.",
     [KF + "kuadrant/context.rs", P + "blueprint.rs", P + "executor.rs", P + "tasks/export_traces.rs", KF + "tracing/mod.rs", KF + "services/dynamic.rs"],
     [("call dispatch and tracing headers", KF + "kuadrant/context.rs"), ("request span", P + "tasks/export_traces.rs")],
     "property-based testing: random configurations, identities and interleavings of several requests; the headers of every call compared with the request it was made for", SIM)

prop("C25", "Each request's spans are exported once, in its own trace",
     "When observability has both a tracing service and httpHeaderIdentifier and defaultLevel is INFO, DEBUG or TRACE, every finished span is exported exactly once to the tracing service, at most 100 per export (when more than 100 wait, the oldest are given up), and otherwise nothing is exported. A request that matches an action set, and whose own trace context does not say unsampled, gives exactly one root span with its request id, action set and hostname, in the request's trace below its parent span; all other spans descend from the root of a request and share its trace. The traceparent of a call names an exported span of the request it was made for, below a span with the label and sources of its action, and a top-level action has one such span however often it is taken up again. No span ends before it starts; spans carry an error status exactly when an error was counted. A refused configuration changes nothing of this.",
     ["histories", "schedules", "configurations"], "every interleaving of requests, answers, faults and configuration loads",
     "Spans leak, double or change trace in particular interleavings and after particular loads; the tests look at one span processor in isolation.",
     [KF + "tracing/mod.rs", KF + "tracing/processor.rs", KF + "tracing/propagation.rs", P + "tasks/export_traces.rs", P + "executor.rs", KF + "kuadrant/context.rs", WS + "filter/root_context.rs"],
     [("span buffer and export", P + "tasks/export_traces.rs"), ("observability set-up", WS + "filter/root_context.rs")],
     "stateful property-based testing: random histories of loads, requests, answers and faults; the exported spans decoded independently and checked against invariants over the history", SIM + "")

prop("C27", "Levels of logs and traces change nothing but what is logged",
     "Replies, header changes, exported values and service calls are the same whatever log level the host has, whether reading it fails, and whatever observability.defaultLevel and tracing service are configured. The host's level at the start of the latest request decides which lines are logged: all lines at least as severe as it (warning when it cannot be read), and none below.",
     ["configurations", "schedules", "fault_sequences"], "every level, every change of level between the events of requests in flight",
     "A side effect placed inside a log statement, or a level kept from the first request, shows only when levels differ between requests; unit tests run at one level.",
     [KF + "tracing/log_layer.rs", KF + "tracing/mod.rs", WS + "wasm_host.rs", P + "tasks/tracing_decorator.rs"],
     [("level of the host", WS + "wasm_host.rs"), ("log output", KF + "tracing/log_layer.rs"), ("request start", WS + "filter/root_context.rs")],
     "metamorphic testing: the same histories with everything logged and under changing host levels and tracing levels must have the same effects; lines are the loud run's lines filtered by level", SIM)

prop("C26", "No input crashes the filter",
     "Whatever the configuration (valid, damaged, or with expressions that make no sense), the request, its attributes, bodies and their cuts, the response, the answers of services (also undecodable, unexpected or late ones), and whatever host operation other than sending a reply fails, handling it ends without a panic, abort or endless loop, and afterwards a sound configuration loads and its requests are handled as ever.",
     ["inputs", "fault_sequences", "configurations"], "every configuration, expression, body, answer and fault",
     "A panic in the filter takes all requests of its Envoy worker with it; it hides behind one particular value, cut or fault.",
     [WS + "filter/kuadrant_filter.rs", WS + "filter/root_context.rs", KF + "data/cel.rs", KF + "data/cel/strings.rs", KF + "services/dynamic/converters.rs", P + "tasks/store.rs", P + "tasks/store/json_body_parser.rs", P + "tasks/store/sse_body_parser.rs", P + "tasks/token_usage.rs", P + "blueprint.rs"],
     [("event handlers", WS + "filter/kuadrant_filter.rs"), ("evaluation", KF + "data/cel.rs"), ("conversion", KF + "services/dynamic/converters.rs")],
     "structured fuzzing of the whole filter: random configurations and programs, damaged bytes, host faults; the oracle is that every handler returns and that a plain configuration works afterwards", SIM)
