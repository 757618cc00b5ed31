package main

// Prop says how a property is checked.
type Prop struct {
	ID        string
	World     string // worlds/<World>
	Gen       bool   // needs generated packages
	Race      bool   // also explored with the race detector as an oracle
	QuickS    int    // seconds of search in the quick tier
	ThoroughS int
	Rule      string // what makes a run count as non-trivial
	Real      []string
	Stub      []string
	Prepare   func(b *Built) error // before the search: reference data for the worlds
}

var (
	realCore = []string{"pkg/extensions (instrumented)", "Go runtime channels, select, timers, sync, context (scheduler and clock replaced)"}
	realGen  = append([]string{"code generated at check time by /repo's generator from sim/specs (instrumented)"}, realCore...)
	realVer  = append([]string{"pkg/extensions/versioning (instrumented)"}, realGen...)
	realCG   = []string{"pkg/codegen, pkg/asyncapi, pkg/utils (instrumented), golang.org/x/tools/imports, the templates", "Go runtime (scheduler, clock, hash seeds replaced)"}
	realBrk  = []string{"pkg/extensions/brokers, pkg/extensions (instrumented)", "client libraries nats.go and kafka-go, unmodified", "Go runtime channels, select, timers, sync, context (scheduler and clock replaced)"}
	stubBrk  = []string{"in-memory broker implementing extensions.BrokerController (delays, failures, duplicates, reordering, termination)", "application handlers, middlewares, loggers"}
)

const schedRule = "; distinct by hash of the full schedule (goroutine chosen at every decision and virtual clock) together with the hash of the history"

var props = []Prop{
	{ID: "C01", World: "core", Gen: true, Race: true, QuickS: 40, ThoroughS: 600,
		Rule: "a run is one simulated execution of a generated plan (transmitters, readers, cancellers, cleanup durations) under a seeded schedule; non-trivial when at least one Cancel overlapped other activity" + schedRule,
		Real: realCore, Stub: []string{"broker side of the subscription (transmitters and cleanup function)"}},
	{ID: "C02", World: "core", Gen: true, Race: true, QuickS: 60, ThoroughS: 900,
		Rule: "a run is one simulated execution of generated controllers under generated traffic (valid, undecodable and random messages, failing handlers, delays, duplicates, unsubscriptions); non-trivial when at least two messages were planned" + schedRule,
		Real: realVer, Stub: stubBrk},
	{ID: "C03", World: "core", Gen: true, Race: true, QuickS: 60, ThoroughS: 900,
		Rule: "as for C02, and request/reply runs, with the settlements recorded by the broker" + schedRule,
		Real: realVer, Stub: stubBrk},
	{ID: "C04", World: "core", Gen: true, Race: true, QuickS: 60, ThoroughS: 900,
		Rule: "a run is one simulated execution of concurrent publications on generated controllers with broker refusals, delays, encoding failures and middlewares; non-trivial when at least two messages were planned" + schedRule,
		Real: realVer, Stub: stubBrk},
	{ID: "C05", World: "core", Gen: true, Race: true, QuickS: 60, ThoroughS: 900,
		Rule: "a run is one simulated execution of generated chains of middlewares (1 to 5 of pass, wrap, wrap twice, absorb, fail before, fail after, modify, context, sleep, panic, Recovery, Logging, Intercepter) around publications, receptions and awaited replies; non-trivial when at least two messages were planned" + schedRule,
		Real: append([]string{"pkg/extensions/middlewares (instrumented)"}, realVer...), Stub: stubBrk},
	{ID: "C06", World: "core", Gen: true, Race: true, QuickS: 60, ThoroughS: 900,
		Rule: "a run is one simulated execution of 1 to 10 requests (concurrent on one controller) against a responding controller, with lost, duplicated, delayed, reordered, foreign and malformed replies, expiring contexts, refused publications and subscriptions and subscriptions ended by the broker; non-trivial when it has a request" + schedRule,
		Real: realVer, Stub: stubBrk},
	{ID: "C07", World: "core", Gen: true, Race: true, QuickS: 50, ThoroughS: 600,
		Rule: "a run is one simulated history of 2 to 30 subscribe, unsubscribe, subscribe-all, unsubscribe-all, close and traffic steps on one generated controller (some calls made by handlers) with broker refusals, done contexts and slow cleanups; non-trivial from two steps" + schedRule,
		Real: realVer, Stub: stubBrk},
	{ID: "C08", World: "core", Gen: true, Race: true, QuickS: 50, ThoroughS: 600,
		Rule: "a run is one simulated execution of a version wrapper under subscriptions of up to three versions on up to two channels (raw and by generated controllers of two versions), messages of known, unknown, empty and missing versions, and publications with and without headers; non-trivial when it has a subscription or planned messages" + schedRule,
		Real: realVer, Stub: stubBrk},
	{ID: "C09", World: "core", Gen: true, Race: true, QuickS: 50, ThoroughS: 900,
		Rule: "as for C08, with concurrent subscribe and cancel calls, refused broker subscriptions, and contexts done before, during and after the calls; non-trivial when it has a subscription" + schedRule,
		Real: realVer, Stub: stubBrk},
	{ID: "C10", World: "brokers", QuickS: 60, ThoroughS: 900,
		Rule: "a run is one simulated execution of 1 to 3 NATS controllers with the real client library on a simulated network against a stub server: subscriptions (plain, wildcard, queue groups), publications from the controllers and from elsewhere, slow, pausing and late readers, cancellations and closes, with delays, fragmentation and, in part of the runs, cut connections, refused and unanswered reconnections and stalls; non-trivial when it subscribes and sends" + schedRule,
		Real: realBrk, Stub: []string{"NATS server (protocol, queue groups, wildcards)", "network (net.Dialer)"}},
	{ID: "C11", World: "brokers", QuickS: 60, ThoroughS: 900,
		Rule: "a run is one simulated execution of 1 or 2 JetStream controllers with the real client library on a simulated network against a stub server with durable streams: publications, subscriptions whose users acknowledge, refuse, delay or leave messages, crashes and restarts of the consuming process, lost connections, requests and acknowledgements; non-trivial when it subscribes and sends" + schedRule,
		Real: realBrk, Stub: []string{"NATS JetStream server (streams, pull consumers, acknowledgements, redelivery)", "network (net.Dialer)"}},
	{ID: "C12", World: "brokers", Race: true, QuickS: 60, ThoroughS: 900,
		Rule: "as for C11, with more subscriptions, cancellations and resubscriptions on overlapping channels, part of the runs under the race detector" + schedRule,
		Real: realBrk, Stub: []string{"NATS JetStream server (streams, pull consumers, acknowledgements, redelivery)", "network (net.Dialer)"}},
	{ID: "C13", World: "brokers", Race: true, QuickS: 60, ThoroughS: 900,
		Rule: "a run is one simulated execution of 1 or 2 Kafka controllers with the real client library on a simulated network against a stub cluster of 1 to 3 nodes: subscriptions in consumer groups whose users settle, delay or leave messages, cancellations, crashes and restarts, lost connections, refused, lost and slow requests, leaders moving; non-trivial when it subscribes" + schedRule,
		Real: realBrk, Stub: []string{"Kafka cluster (logs, fetching, consumer groups, creation of topics)", "network (net.Dialer)"}},
	{ID: "C14", World: "brokers", QuickS: 60, ThoroughS: 900,
		Rule: "as for C13, with more publications and creations of topics, under refused, lost and slow requests and expiring contexts" + schedRule,
		Real: realBrk, Stub: []string{"Kafka cluster (logs, fetching, consumer groups, creation of topics)", "network (net.Dialer)"}},
	{ID: "C15", World: "brokers", Race: true, QuickS: 60, ThoroughS: 900,
		Rule: "a run is one simulated execution of 2 to 6 controllers of the three brokers in one process, each with random options of its own, made one after the other or concurrently, used, cut off and closed, against stub servers which record what each does; non-trivial when two controllers were made" + schedRule,
		Real: realBrk, Stub: []string{"NATS and JetStream server, Kafka cluster (with TLS and SASL)", "network (net.Dialer)"}},
	{ID: "C16", World: "core", Gen: true, QuickS: 60, ThoroughS: 900,
		Rule: "as for C02, over every message type, with random values and random bytes in transit" + schedRule,
		Real: realVer, Stub: stubBrk},
	{ID: "C17", World: "core", Gen: true, Race: true, QuickS: 60, ThoroughS: 900,
		Rule: "as for C02 and C06, with every context and log call checked" + schedRule,
		Real: realVer, Stub: stubBrk},
	{ID: "C18", World: "codegen", QuickS: 60, ThoroughS: 900, Prepare: prepareCodegen,
		Rule: "a run is one simulated process making 3 to 9 generations (specifications of the repository and random ones, random options, some failing, some repeated, some with the same generator object) with its own hash seeds and schedule, compared with each other and with processes that made one generation only; non-trivial from two generations" + schedRule,
		Real: realCG, Stub: []string{"none (files are real, in a scratch directory)"}},
	{ID: "C19", World: "codegen", QuickS: 60, ThoroughS: 900, Prepare: prepareC19,
		Rule: "a run is one simulated generation, by the command or the library, with faults of the file system (failing and short reads and writes, full disk, failing open, close, sync and rename) at drawn points; non-trivial when a fault took effect" + schedRule,
		Real: append([]string{"cmd/asyncapi-codegen (as an importable package)"}, realCG...), Stub: []string{"outcomes of system calls on files"}},
}

// raceEvery says how many runs there are for one under the race detector,
// which takes a third of the time or so.
func (p *Prop) raceEvery() int {
	if p.World == "core" {
		return 24
	}
	return 3
}

func propByID(id string) *Prop {
	for i := range props {
		if props[i].ID == id {
			return &props[i]
		}
	}
	return nil
}
