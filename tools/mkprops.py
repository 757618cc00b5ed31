#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: anchors["observe_at"] = observe
    anchors["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})

CORE = "pkg/extensions/broker.go"
V2C = "pkg/codegen/generators/v2/templates/controller.tmpl"
V3C = "pkg/codegen/generators/v3/templates/controller.tmpl"
V2M = "pkg/codegen/generators/v2/templates/message.tmpl"
V3M = "pkg/codegen/generators/v3/templates/message.tmpl"
VER = ["pkg/extensions/versioning/wrapper.go", "pkg/extensions/versioning/broker_subscription.go", "pkg/extensions/versioning/version_subscription.go"]
NATS = "pkg/extensions/brokers/nats/nats.go"
JS = "pkg/extensions/brokers/natsjetstream/natsjetstream.go"
KAFKA = "pkg/extensions/brokers/kafka/kafka.go"

prop("C01", "Cancelling a broker subscription is complete, idempotent and safe",
 "Cancelling a broker subscription makes the broker-side cleanup run exactly once, after which the message stream is closed; Cancel returns only once cleanup and close have completed, or as soon as its own context is done (the cancellation request still taking effect). Any number of Cancel calls, sequential or concurrent with each other and with broker deliveries, never panic, never hang past their context and never lose the request. Every message whose transmission completed before cancellation was requested stays readable from the stream, in transmission order and once, and nothing is delivered after the stream has been closed; a delivery caught by the cancellation ends rather than blocks.",
 ["schedules", "histories"],
 "every interleaving of transmitting goroutines, a reader that may be slow or absent, several cancellers with or without expiring contexts, and a cleanup function of any duration",
 "the only unit test cancels once, sequentially, with an idle broker; the losing interleavings (canceller receiving its own request, delivery racing the close, two cancellers) need specific preemptions",
 [CORE], [("BrokerChannelSubscription.Cancel / WaitForCancellationAsync / TransmitReceivedMessage", CORE)],
 [("messages", "stream handed to the user", CORE), ("cancel", "cancellation request and completion signal", CORE)],
 ["MessagesChannel()", "cleanup callback", "return of Cancel"])

prop("C02", "Handlers get every received message exactly once, in order, and survive bad ones",
 "For every message the broker delivers on a subscribed channel, the generated controller (AsyncAPI v2 and v3) invokes that channel's handler exactly once, in delivery order, one at a time, with the content that was sent (as modified by middlewares). A message that cannot be decoded, or whose handler or middleware returns an error, is reported to the error handler exactly once with its own channel, message and error and never prevents, delays indefinitely, duplicates or reorders the others; it never crashes the process. No handler is invoked for a message delivered after unsubscription completed.",
 ["schedules", "inputs", "histories"],
 "every sequence of valid and malformed messages on several channels, any handler duration and failure pattern, any interleaving of deliveries with subscribe and unsubscribe",
 "integration tests send a handful of well-formed messages sequentially through a real broker; undecodable payloads, bursts larger than the queue, failures in mid-stream and unsubscribe under traffic are never combined",
 [V2C, V3C, V2M, V3M, CORE], [("Subscribe... receive loop", V3C), ("listenTo...NextMessage", V2C), ("brokerMessageTo... decoders", V3M)],
 None, ["handler invocations", "error handler invocations"])

prop("C03", "Each received message is settled exactly once, at the right time",
 "Each message handed to a subscription handler is settled towards the broker exactly once: acknowledged after (never before) its handler returned success, negatively acknowledged after a decoding, middleware or handler error once the error handler has run (only a message that a middleware kept from its handler without any error may be left unsettled). If user code settles the message itself (for instance in the error handler), that settlement is the only one and is final; a reply consumed while waiting for a response is acknowledged once, including replies that belong to other requests.",
 ["schedules", "inputs", "histories"],
 "every mix of succeeding, failing, undecodable and manually settled messages, every middleware chain, every interleaving of several subscriptions",
 "unit tests call Ack/Nak on a lone message; the relation between handler outcome, error handler, middleware chain and the acknowledgement sent to the broker over whole histories is not sampled",
 [CORE, V2C, V3C], [("AcknowledgeableBrokerMessage.Ack/Nak", CORE), ("listenTo...NextMessage", V3C), ("waitFor...NextResponse", V3C)],
 [("acked", "settlement already sent", CORE)], ["BrokerAcknowledgment.AckMessage/NakMessage calls"])

prop("C04", "A publication succeeds if and only if exactly one right message was published",
 "Each send/publish call on a generated controller hands the broker at most one message, on the operation's channel (with parameters substituted), carrying the caller's payload, headers and correlation ID as left by the middlewares; it returns nil exactly when the broker accepted that message and otherwise returns the encoding, middleware or broker error (unless a middleware itself absorbs or replaces that outcome). A message sent without a correlation ID where one is defined gets a fresh one, unique among all messages; one that already has an ID keeps it. Concurrent publications on one controller never mix, lose or duplicate messages.",
 ["schedules", "inputs", "fault_sequences"],
 "every payload and header combination, every pattern of broker failures, every interleaving of concurrent publishers on one controller",
 "tests publish sequentially on a healthy broker and never inject a failing Publish or concurrent callers",
 [V2C, V3C, V2M, V3M], [("Send.../Publish...", V3C), ("toBrokerMessage", V3M)],
 None, ["BrokerController.Publish calls", "return values"])

prop("C05", "Middlewares run once each, in order, around the operation, for every message",
 "For every published and every received message (including replies being waited for), each configured middleware runs at most once, in the configured order, each wrapping what follows it when it calls next and being followed by it when it does not; the operation itself runs at most once, and exactly once when no middleware fails. A middleware or operation error stops everything after it and is what the earlier middlewares' next calls, and finally the operation's caller or error handler, receive unless a middleware deliberately absorbs it. Changes a middleware makes to the message or context are seen by everything that follows and by the broker or handler; calling next again never re-executes anything, and concurrent operations never influence each other's chains.",
 ["schedules", "inputs", "programs"],
 "every chain of middlewares built from {pass, call next, call next twice, modify, fail before, fail after, absorb, sleep, panic under recovery}, both directions, any concurrency",
 "tests use one or two fixed middlewares on one message; the space of chain shapes, directions and concurrent messages is not enumerable by examples",
 [V2C, V3C, "pkg/extensions/middlewares/recovery.go", "pkg/extensions/middlewares/logging.go", "pkg/extensions/middlewares/intercepter.go"],
 [("wrapMiddlewares/executeMiddlewares", V3C), ("Recovery/Logging/Intercepter", "pkg/extensions/middlewares")])

prop("C06", "A request returns its own reply, ends with its context and leaks nothing",
 "A request (AsyncAPI v3 Request..., v2 WaitFor...) subscribes to the reply channel before publishing and returns the first reply carrying its own correlation ID (the first reply at all where none is defined), ignoring every reply to another request, however replies are delayed, duplicated, reordered or malformed. It returns an error when publishing or subscribing fails, when a middleware refuses the request or its reply, when its context is done and when its subscription ends; it never waits beyond its context. In every outcome its temporary subscription is cancelled exactly once, leaving no broker resource behind, and a responder's reply goes to the requested reply address with the request's correlation ID.",
 ["schedules", "fault_sequences", "histories"],
 "every number of concurrent requests on one reply channel, every delay, loss, duplication and reordering of replies, contexts expiring at any moment, subscriptions ended by the broker at any moment, publish and subscribe failures",
 "tests run one request at a time against a prompt responder; lost replies, foreign replies arriving first, expiry and broker-side termination are timing dependent",
 [V2C, V3C, CORE], [("Request... / waitFor...NextResponse", V3C), ("WaitFor... / waitFor...NextMessage", V2C), ("ReplyTo...", V3C), ("SetAsResponseFrom", V3M)],
 None, ["return of Request/WaitFor", "broker subscription count", "published replies"])

prop("C07", "Controller subscriptions follow subscribe/unsubscribe calls and are all released",
 "A generated controller holds at most one broker subscription per channel address: a second subscribe to an address fails with the already-subscribed error and changes nothing, a failed broker subscription leaves nothing behind, and after unsubscribing the same address can be subscribed again and works. Subscribe-to-all subscribes exactly the channels without parameters; each parameter combination of a parametrised channel is an independent subscription. Close and unsubscribe-all end every remaining subscription of the controller, parametrised ones included, each cancelled exactly once (and ended on the broker when the call returns, unless its context is done), and unsubscribing an address that is not subscribed does nothing.",
 ["histories", "schedules", "fault_sequences"],
 "every history of subscribe, unsubscribe, subscribe-all, unsubscribe-all and close calls over plain and parametrised channels with broker subscription failures and message traffic in between",
 "tests subscribe and close once; histories with resubscription, failures in between and parametrised channels at close are not covered",
 [V2C, V3C], [("Subscribe.../Unsubscribe...", V3C), ("UnsubscribeFromAllChannels/UnsubscribeAll/Close", V2C)],
 [("subscriptions", "live broker subscriptions by address", V3C)], ["broker subscriptions open", "errors returned"])

prop("C08", "Versioned traffic reaches exactly the controllers of its version",
 "Through the version wrapper, a message published by a controller of one version carries that version, and a received message is delivered, unchanged, once and in order, to the subscription of exactly the version it is marked with on that channel, or of the default version when it is unmarked and a default is configured. A message with an unknown version, or unmarked without default, is dropped and logged, without asking the broker for it again, and never affects any other message, version, channel or the wrapper itself. Publishing leaves the caller's message untouched apart from adding the version and never panics.",
 ["schedules", "inputs", "histories"],
 "every mix of versions (known, unknown, empty, missing), channels and deliveries, several versions subscribed and unsubscribed over time, custom version header keys",
 "tests use two versions with one well-formed message each and never an unknown version followed by more traffic",
 VER, [("brokerSubscription.launchListener", VER[1]), ("Wrapper.Publish", VER[0])],
 [("versionsChannels", "live versions of a channel", VER[1])])

prop("C09", "Version subscriptions come and go concurrently without deadlock or leak",
 "Under any concurrent subscribe and cancel calls through the version wrapper, the broker holds one subscription per channel while at least one version of it is subscribed and none after the last version's cancellation has completed; a version subscribed while another is being cancelled receives the traffic of its version. The same version cannot be subscribed twice at once on a channel, a failed subscribe leaves no trace, and a version can be subscribed again after cancellation. No such history deadlocks or panics, whatever the state of the contexts used to subscribe, and every Cancel ends, without waiting for the readers of the other versions.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of subscribe and cancel calls for several versions and channels with traffic, broker subscribe failures and expiring subscribe contexts",
 "tests subscribe and cancel sequentially; lock-order inversions and lost last-cancellations need two operations in flight at once",
 VER + [CORE], [("Wrapper.Subscribe", VER[0]), ("createVersionListener/removeVersionListener", VER[1]), ("versionSubcription.launchListener", VER[2])],
 [("channels", "live channels", VER[0])], ["broker Subscribe and cleanup calls"])

prop("C10", "NATS controller: messages flow intact, in order, until cancelled",
 "Through the NATS controller every message whose publication returned success is delivered, with identical payload and headers (NATS carries header values as single lines without surrounding blanks), in order and once, to each matching subscription (to exactly one member of each queue group) live on the server at that time, as long as connections stay up; a publication error is returned, never swallowed. Cancelling a subscription removes it on the server, and deliveries in flight during cancellation, Close or a connection loss never crash or block the process. After a server outage shorter than the client's reconnect budget, subscriptions deliver again.",
 ["schedules", "fault_sequences", "inputs"],
 "every network delay, fragmentation, connection loss and reconnection, slow consumers, cancellation and close under traffic, any header and payload bytes the protocol can carry",
 "tests need a live broker, exercise the sunny path and cannot place a disconnect, a burst or a cancellation at a chosen protocol step",
 [NATS, CORE], [("Controller.Publish (PublishMsg + Flush)", NATS), ("Controller.Subscribe / messagesHandler / Drain", NATS)])

prop("C11", "JetStream controller: at-least-once, settled only by the handler's outcome",
 "Through the NATS JetStream controller a publication returns success only if the stream stored the message, and a stored message on a subscribed channel is delivered, with identical payload and headers (as far as NATS carries them), until it has been acknowledged: connection loss, crash of the consuming process or server restart never loses an unacknowledged message, and it is delivered again. The server sees an acknowledgement for a message on a subscribed channel only after the user acknowledged it, a negative acknowledgement carries the configured delay and leads to redelivery after it and not before, and an acknowledged message is not delivered again unless its acknowledgement was lost.",
 ["schedules", "crash_points", "fault_sequences"],
 "every placement of handler success, failure, crash, connection loss, server restart and acknowledgement loss in a stream of messages",
 "tests against a live server settle a few messages once; crash and loss points between delivery, handling and acknowledgement cannot be placed",
 [JS, CORE], [("HandleMessage / AcknowledgementHandler", JS), ("ConsumeMessage", JS), ("Publish", JS)],
 None, ["stub server's view of acks, naks and storage"])

prop("C12", "JetStream controller: subscriptions are independent and race-free",
 "Each channel subscribed through one JetStream controller receives exactly the stream's messages whose subject matches it under NATS wildcard rules (one of the matching channels if several match), while other channels are subscribed, cancelled and resubscribed at any time: no operation panics, blocks another subscription's traffic, or races on shared memory. A failed Subscribe leaves no subscription behind (later traffic is not swallowed by it); a subscription gets its messages in the order the server sent them while none is cancelled; a slow or unread subscription delays the others only as far as its own queue is full; cancelling the last subscription stops consumption and a later subscription resumes it.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of subscribe, cancel, resubscribe and message dispatch over several plain and wildcard channels, with subscribe failures",
 "the race detector and the unit tests only see schedules that happen; dispatch racing a cancellation panics in a window of a few instructions",
 [JS, CORE], [("Subscribe / ConsumeIfNeeded / StopConsumeIfNeeded / ConsumeMessage", JS), ("MatchSubjectSubscription", JS)],
 [("channels", "dispatch table", JS), ("consumeContext", "running consumption", JS)])

prop("C13", "Kafka controller: consumption loses nothing that was not committed",
 "Through the Kafka controller a subscription in a consumer group delivers every record of its topic, in offset order and with identical payload and headers, and keeps doing so after transient broker failures and after the context used to subscribe is done. In manual-commit mode an offset is committed only after the user settled that message (Kafka commits are cumulative: settling a record settles the earlier ones of its partition), so after a crash and restart at any point every record that was neither settled nor followed in its partition by a settled one is delivered again, and the group continues from what was committed. In automatic mode a record is committed only when it is handed over, and a failing commit does not lose it. Cancelling a subscription closes its channel, leaves the group and its connections, and neither cancellation nor settling a message ever crashes or hangs.",
 ["schedules", "crash_points", "fault_sequences"],
 "every placement of crashes, restarts, connection losses, broker errors and slow handlers in a stream of records",
 "tests against a live broker consume a few records once; crash points between delivery, handling and commit, and broker errors in between, cannot be placed",
 [KAFKA, CORE], [("autoCommitMessagesHandler / manualCommitMessagesHandler", KAFKA), ("Subscribe", KAFKA)],
 None, ["stub broker's committed offsets", "messages delivered"])

prop("C14", "Kafka controller: a successful publication is stored by the broker",
 "A publication through the Kafka controller that returns nil has been stored by the partition leader, with the caller's payload, headers and topic; if the broker refused or never confirmed it, an error is returned. Publishing or subscribing to a topic that does not exist creates it and then proceeds, retrying while the broker is still creating it; both end with an error when their context is done or the broker refuses, rather than looping for ever, and leave no connections behind. Publishing to an existing topic needs only one of the configured hosts to be reachable.",
 ["fault_sequences", "schedules", "inputs"],
 "every sequence of broker error codes, connection losses, slow topic creation and expiring contexts around a publication",
 "tests use a healthy broker where every produce request succeeds, so unacknowledged writes and endless retries look like success",
 [KAFKA], [("Publish", KAFKA), ("checkTopicExistOrCreateIt", KAFKA)], None, ["stub broker log", "return of Publish/Subscribe"])

prop("C15", "Broker controllers are isolated: options of one never affect another",
 "Options given to one broker controller (queue group, consumer group, partition, commit mode, TLS, SASL, logger, connection options, stream, consumer, nak delay) apply to that controller and to no other, whichever order and however concurrently controllers are created in the process; process-wide library defaults are left as they were. Closing a controller closes the connections it opened and never a connection the caller supplied; a controller that could not be created leaves no connection behind, and an option that replaces the connection closes the one the controller had opened; an option the server refuses is reported by the constructor, and a stream or consumer that exists with another configuration is updated.",
 ["configurations", "histories", "schedules"],
 "every set of controllers created in one process, in every order, with every combination of options",
 "each test creates controllers with one configuration; leakage needs two differently configured controllers in one process",
 [KAFKA, NATS, JS], [("NewController / With... options", KAFKA), ("setNatsConnection / Close", JS), ("NewController", NATS)])

prop("C16", "What one side sends is what the other side's handler receives",
 "For every message type the generator supports (string, integer, number, object and array payloads, required and optional headers, date-times to the nanosecond, nested objects, arrays, unions, additional properties whose keys are not those of declared properties in another case, correlation IDs in headers or payload), a message sent by one generated side and carried unmodified by a broker is received by the other side's handler with equal payload, headers and correlation ID, including absent optional fields staying absent (an absent list and an empty one count as equal). On the wire, JSON payloads and headers are the document of the contract: its property names (converted if so configured), every property that was set, also one set to a zero value, and none that was not. Decoding any byte sequence either yields a message or an error, never a crash.",
 ["inputs", "fault_sequences"],
 "every value of every payload and header type; every corruption or truncation of the bytes in transit",
 "tests round-trip a few literal values of string and object payloads",
 [V2M, V3M], [("toBrokerMessage", V3M), ("brokerMessageTo...", V3M)])

prop("C17", "Context metadata describes the message at hand, for every message",
 "Whatever runs concurrently, the context given to middlewares and handlers (and to log calls made for a message) names the version, provider, channel, direction, broker message and correlation ID of exactly the message being processed, with no value leaking from another message, channel, request or controller; each call of a shipped logger gives one whole record with its own message, fields and context values. The context of a received message is valid during its handler and is independent of the context used to subscribe.",
 ["schedules", "histories"],
 "every interleaving of publications, receptions and requests on several channels and controllers sharing a broker",
 "tests look at one message's context; a leak needs a second message in flight",
 [V2C, V3C] + ["pkg/extensions/context.go"], [("add...ContextValues", V3C), ("context keys", "pkg/extensions/context.go")])

prop("C18", "Code generation is a function of its inputs alone",
 "Generating from the same specification, dependencies and options always writes byte-identical output, whatever the process's hash seeds, scheduling, earlier generations in the same process (of other specifications or with other options) or the number of times it is repeated.",
 ["schedules", "histories", "configurations"],
 "every runtime hash seed and map iteration order, every history of earlier generations in the process",
 "tests compare one run with checked-in output and options are set once per process; iteration order and sticky global options need other seeds and histories",
 ["pkg/codegen/codegen.go", "pkg/codegen/generators/v3/controller.go", "pkg/codegen/generators/v2/controller.go", "pkg/asyncapi/v3/specification.go", "pkg/utils/template/helpers.go"],
 [("CodeGen.Generate", "pkg/codegen/codegen.go"), ("sorted iteration", "pkg/codegen/generators")],
 [("template option globals", "naming, key conversion, date-time and pointer switches", "pkg/utils/template/helpers.go")])

prop("C19", "Code generation reports every I/O failure; success means a complete file",
 "When generation reports success (nil error, exit status 0) the output file holds the complete generated code; if reading a specification or dependency or writing the output fails or is cut short at any point, an error is reported and the exit status is not 0. A failing generation never modifies its input files, and an earlier output file is not touched by a generation that fails before it starts writing.",
 ["fault_sequences", "crash_points"],
 "every system-call failure (I/O error, full disk, short write, interruption, missing file) at every point of a generation",
 "tests run on a healthy file system",
 ["pkg/codegen/codegen.go", "pkg/asyncapi/parser/parse.go", "cmd/asyncapi-codegen/main.go"],
 [("os.WriteFile of the output", "pkg/codegen/codegen.go"), ("parser.FromFile", "pkg/asyncapi/parser/parse.go"), ("main", "cmd/asyncapi-codegen/main.go")],
 None, ["exit status / error", "output file"], None)

# --- stated for completeness, pure functions: not claimed
prop("C20", "Generated code compiles for every valid specification",
 "For every valid AsyncAPI document within the supported feature set, and every option combination, the generated file compiles and offers one operation per declared operation or channel.",
 ["programs", "configurations"], "every valid AsyncAPI v2/v3 document",
 "tests cover a list of hand-written documents", ["pkg/codegen/generators/v2/templates", "pkg/codegen/generators/v3/templates", "pkg/asyncapi/v2", "pkg/asyncapi/v3"],
 [("templates", "pkg/codegen/generators")])
prop("C21", "Schema types, names, references and validation tags are translated faithfully",
 "Every JSON schema construct in a document (types, formats, required, enum, constraints, allOf/anyOf/oneOf, references, additional properties) maps to a Go declaration and validation tags accepting the same data.",
 ["programs", "inputs"], "every schema, every value",
 "tests cover a list of hand-written schemas", ["pkg/asyncapi/v2/schema.go", "pkg/asyncapi/v3/schema.go", "pkg/asyncapi/schema.go", "pkg/codegen/generators/v3/templates/schema_definition.tmpl"],
 [("schema processing", "pkg/asyncapi/v3/schema.go")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
