package main

import (
	"context"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/kafka"
	"github.com/segmentio/kafka-go/protocol"

	"verifsim/simnet"
	"verifsim/w"
)

// Scenario "kafka" (C13, C14): Kafka controllers publishing to, consuming from
// and creating topics, with requests refused, lost or slow, connections lost,
// leaders moving, and crashes and restarts of consuming processes.
//
// Operations: [actor, ...]
//
//	sub    actor ctrl topic mode seed
//	cancel actor handle
//	pub    actor ctrl topic seed ctx-ms (0 none)
//	ext    actor topic partition seed n
//	sleep  actor ms
//	fail   actor kind how n topic
//	cut    actor ctrl; down actor ctrl ms node (0 all); stall actor ctrl ms
//	move   actor (the leaders and coordinators move)
//	crash  actor ctrl
//	forget actor topic
func init() {
	w.Register(&w.Scenario{Name: "kafka", Props: []string{"C13", "C14"}, Gen: genKafka, Run: runKafka})
}

var (
	kTopics = []string{"t0", "tt1", "x2", "xx3", "xxx4"} // the last ones do not exist at first
	kKinds  = []string{"produce", "metadata", "create", "fetch", "listoffsets", "join", "sync", "heartbeat", "commit", "offsetfetch", "findcoordinator"}
	kHows   = [][]string{
		{"code 19", "code 7", "code 29", "code 10", "code -1", "code 6", "code 3", "drop", "late-drop", "slow", "silent"},
		{"code 3", "code 5", "code 29", "drop", "slow", "silent"},
		{"code 29", "code 17", "code 44", "code 7", "drop", "late-drop", "slow", "silent"},
		{"code 6", "code 3", "code 5", "code -1", "code 7", "code 29", "drop", "slow", "very slow"},
		{"code 6", "code 3", "code 5", "code -1", "drop"},
		{"code 15", "code 16", "code 14", "code 25", "drop", "late-drop", "slow"},
		{"code 16", "code 27", "code 25", "code 22", "drop", "late-drop"},
		{"code 16", "code 27", "code 25", "code 22", "drop", "slow", "very slow"},
		{"code 16", "code 14", "code 22", "code 25", "code -1", "drop", "late-drop", "slow", "very slow"},
		{"code 16", "code 14", "drop"},
		{"code 15", "drop", "slow"},
	}
)

func genKafka(r *w.Rand, p *w.Plan) {
	genNet(r, p)
	if p.Cfg["frag"] > 0 && p.Cfg["frag"] < 200 {
		p.Cfg["frag"] = 200
	}
	if p.Cfg["base"] > 5000 {
		p.Cfg["base"] = 5000
	}
	nc := w.Pick(r, 1, 1, 1, 2)
	p.Cfg["ctrls"] = int64(nc)
	p.Cfg["nodes"] = int64(w.Pick(r, 1, 1, 2, 3))
	p.Cfg["actors"] = int64(r.Range(1, 4))
	p.Cfg["manual"] = int64(w.Pick(r, 1, 1, 0))
	p.Cfg["groups"] = int64(w.Pick(r, 1, 1, 2)) // groups of the controllers
	p.Cfg["parts"] = int64(w.Pick(r, 1, 1, 2, 3))
	p.Cfg["hidden"] = int64(w.Pick(r, 0, 0, 1, 100, 3000, 15000)) // ms for which a new topic stays hidden
	p.Cfg["leaderless"] = int64(w.Pick(r, 0, 0, 50, 4000))
	p.Cfg["log"] = int64(r.N(2))
	faulty := r.P(60)
	if faulty {
		p.Cfg["faulty"] = 1
	}
	topics := w.Pick(r, 1, 2, len(kTopics))
	c14 := p.Prop == "C14"
	if c14 {
		topics = len(kTopics)
	}
	p.Cfg["topics"] = int64(topics)
	kinds := []int{3, 4, 5, 6, 7, 8, 8, 8, 9, 10, 1}
	sub, cancel, pub, ext := 14, 20, 24, 55
	if c14 {
		sub, cancel, pub, ext = 14, 18, 60, 64
		kinds = []int{0, 0, 0, 1, 2, 2, 1, 0}
		if !faulty && r.P(70) {
			p.Cfg["hidden"], p.Cfg["leaderless"] = 0, 0
		}
	}
	if c14 && r.P(15) { // the first of the hosts it was given is dead
		p.Cfg["deadhost"] = int64(r.Range(1, 2))
		topics, sub, cancel, pub = 2, 0, 0, 60
		p.Cfg["topics"] = 2
	}
	forget := c14 && r.P(20) // topics are deleted, nobody reads
	if forget {
		sub, cancel, pub = 0, 0, 60
	}
	n := r.Range(3, 24)
	for i := 0; i < n; i++ {
		a, c := r.N(int(p.Cfg["actors"])), r.N(nc)
		if forget && r.P(20) {
			p.Ops = append(p.Ops, w.MkOp("forget", a, r.N(3)))
			continue
		}
		switch k := r.N(100); {
		case k < sub || i < 1 && !c14:
			p.Ops = append(p.Ops, w.MkOp("sub", a, c, r.N(topics), w.Pick(r, 0, 0, 0, 1, 2, 3), r.N(1<<30)))
		case k < cancel:
			p.Ops = append(p.Ops, w.MkOp("cancel", a, r.N(6)))
		case k < pub:
			p.Ops = append(p.Ops, w.MkOp("pub", a, c, r.N(topics), r.N(1<<30), w.Pick(r, 0, 0, 0, 1, 1500, 3000, 20000)))
		case k < ext:
			p.Ops = append(p.Ops, w.MkOp("ext", a, r.N(2), r.N(3), r.N(1<<30), w.Pick(r, 1, 1, 2, 5, 30, 150, rarely(r, 500))))
		case k < 75 || !faulty:
			p.Ops = append(p.Ops, w.MkOp("sleep", a, w.Pick(r, 1, 100, 1000, 4000, 10000)))
		case k < 88:
			f := kinds[r.N(len(kinds))]
			times := w.Pick(r, 1, 1, 2, 3, 5, 12)
			if c14 && f == 0 && r.P(30) {
				times = 12 // more than the client library tries
			}
			p.Ops = append(p.Ops, w.MkOp("fail", a, f, r.N(len(kHows[f])), times))
		case k < 91:
			p.Ops = append(p.Ops, w.MkOp("crash", a, c))
		case k < 94:
			p.Ops = append(p.Ops, w.MkOp("cut", a, c))
		case k < 96:
			p.Ops = append(p.Ops, w.MkOp("down", a, c, w.Pick(r, 100, 3000, 20000, 60000), w.Pick(r, 0, 0, 1, 2, 3)))
		case k < 98:
			p.Ops = append(p.Ops, w.MkOp("stall", a, c, w.Pick(r, 10, 500, 8000)))
		default:
			p.Ops = append(p.Ops, w.MkOp("move", a))
		}
	}
}

type kCtrl struct {
	ns    string
	group string
	hosts []string
	c     *kafka.Controller
	made  atomic.Uint32
	dead  bool
	epoch int
}

func (k *kCtrl) ctl() *kafka.Controller {
	k.made.Load()
	return k.c
}

type kHandle struct {
	name      string
	ctrl      *kCtrl
	topic     string
	mode      int
	rnd       *w.Rand
	sub       extensions.BrokerChannelSubscription
	made      atomic.Uint32
	next      map[int]int64 // by partition
	cancelled bool
	returned  bool // Cancel has returned
	closed    bool
	got       int
}

func (h *kHandle) subscription() extensions.BrokerChannelSubscription {
	h.made.Load()
	return h.sub
}

type kPos struct {
	topic  string
	part   int
	offset int64
}

type kStored struct {
	kPos
	rec *kRecord
}

type kafkaRun struct {
	wd      *w.World
	net     *simnet.Net
	k       *kCluster
	ctrls   []*kCtrl
	all     []*kCtrl
	handles []*kHandle
	fails   []kFail
	failed  map[string]int // faults that took effect, by ns
	ids     int
	sent    map[string]extensions.BrokerMessage
	where   map[string][]kStored
	seen    map[string]int // records whose position is known, by topic/partition
	settled map[string]map[kPos]time.Duration
	handed  map[string]map[kPos]bool // by group
	upset   map[string]bool          // groups with a crash or a cancellation
	used    map[[2]string]bool       // group, topic
	final   bool
	manual  bool
	calm    bool // no fault so far
	forgets int  // topics deleted so far
}

type kFail struct {
	kind, how string
	n         int
}

func (x *kafkaRun) message(seed int) (string, extensions.BrokerMessage) {
	x.ids++
	id := fmt.Sprintf("m%d", x.ids)
	var m extensions.BrokerMessage
	if seed%4 == 0 {
		m = message(seed, "", false)
		if m.Headers == nil {
			m.Headers = map[string][]byte{}
		}
		m.Headers["Vid"] = []byte(id)
	} else {
		m = message(seed, id, true)
		delete(m.Headers, "Vid") // a random name may be this one
	}
	// Kafka carries any bytes as name (a string) and value of a header.
	if r := w.NewRand(uint64(seed) + 77); r.P(25) {
		if m.Headers == nil {
			m.Headers = map[string][]byte{}
		}
		v := w.Pick(r, " both sides ", "\ttab", "line\r\nline", "\x00\xff", "end\n", "\u00e9t\u00e9", " ")
		m.Headers[w.Pick(r, " name ", "na me", "NAME", "name", "n:m", "\u00e9", "", "a\nb")] = []byte(v)
		x.wd.Probe("header that only Kafka carries")
	}
	x.sent[id] = m
	return id, extensions.BrokerMessage{Headers: cloneHeaders(m.Headers), Payload: append([]byte(nil), m.Payload...)}
}

func runKafka(wd *w.World) {
	x := &kafkaRun{wd: wd, net: setupNet(wd), sent: map[string]extensions.BrokerMessage{}, where: map[string][]kStored{}, seen: map[string]int{},
		settled: map[string]map[kPos]time.Duration{}, handed: map[string]map[kPos]bool{}, upset: map[string]bool{}, used: map[[2]string]bool{}, failed: map[string]int{}, calm: true}
	x.k = newKCluster(wd, x.net, wd.Plan.NetSeed+1, max(wd.C("nodes"), 1))
	x.manual = wd.C("manual") > 0
	x.k.create("t0", max(wd.C("parts"), 1), "")
	x.k.create("tt1", 1, "")
	x.k.createFor = func(ns, topic string) (time.Duration, time.Duration) {
		return time.Duration(wd.C("hidden")) * time.Millisecond, time.Duration(wd.C("leaderless")) * time.Millisecond
	}
	for i := 0; i < wd.C("ctrls"); i++ {
		c := x.start(i)
		if c == nil {
			return
		}
		x.ctrls = append(x.ctrls, c)
	}
	x.k.failure = x.failure
	per := make([][]w.Op, wd.C("actors"))
	for _, o := range wd.Plan.Ops {
		if a := int(o.A[0]); a < len(per) {
			per[a] = append(per[a], o)
		}
	}
	for i, l := range per {
		l := l
		wd.Go(fmt.Sprintf("actor%d", i), func() {
			for _, o := range l {
				x.do(o)
			}
		})
	}
	if !wd.Join(9 * time.Hour) {
		wd.Violate("hang", "calls did not return within 9 hours: %s", wd.Pending())
		return
	}
	x.finish()
}

func (x *kafkaRun) start(i int) *kCtrl {
	wd := x.wd
	k := &kCtrl{ns: fmt.Sprintf("n%d", len(x.all)), group: fmt.Sprintf("g%d", i%max(wd.C("groups"), 1))}
	x.all = append(x.all, k)
	k.hosts = x.k.listen(k.ns)
	o := []kafka.ControllerOption{kafka.WithGroupID(k.group)}
	if x.manual {
		o = append(o, kafka.WithAutoCommit(false))
	}
	if wd.C("log") > 0 {
		o = append(o, kafka.WithLogger(quietLogger{}))
	}
	hosts := k.hosts
	if d := wd.C("deadhost"); d > 0 {
		hosts = append([]string{"127.99.0.1:9092"}, hosts...)
		if d == 2 {
			x.net.SetSilent(hosts[0], true)
		}
		o = append(o, kafka.WithConnectionTest(false))
		wd.Probe("first host dead")
	}
	var err error
	for try := 0; ; try++ {
		k.c, err = kafka.NewController(hosts, o...)
		if err == nil {
			break
		}
		if x.calm && wd.Plan.Sched.Stall == 0 || try > 30 {
			if wd.Plan.Sched.Stall == 0 {
				wd.Violate("connect", "a controller could not be made with a healthy cluster: %v", err)
			}
			wd.Trivial = true
			return nil
		}
		time.Sleep(100 * time.Millisecond)
	}
	k.made.Store(1)
	return k
}

type quietLogger struct{}

func (quietLogger) Info(_ context.Context, msg string, _ ...extensions.LogInfo)    {}
func (quietLogger) Warning(_ context.Context, msg string, _ ...extensions.LogInfo) {}
func (quietLogger) Error(_ context.Context, msg string, _ ...extensions.LogInfo)   {}

// failure decides the fate of a request; the cluster's mutex is held.
func (x *kafkaRun) failure(ns, kind, topic string) string {
	if x.final {
		return ""
	}
	for i := range x.fails {
		if f := &x.fails[i]; f.n > 0 && f.kind == kind {
			f.n--
			x.failed[ns]++
			x.wd.Fault(f.kind + " " + f.how)
			return f.how
		}
	}
	return ""
}

func (x *kafkaRun) do(o w.Op) {
	wd := x.wd
	arg := func(i int) int {
		if i < len(o.A) {
			return int(o.A[i])
		}
		return 0
	}
	ctrl := func() *kCtrl { return x.ctrls[arg(1)%len(x.ctrls)] }
	each := func(c *kCtrl, f func(addr string)) {
		for _, a := range c.hosts {
			f(a)
		}
	}
	switch o.K {
	case "sub":
		x.subscribe(ctrl(), kTopics[arg(2)%len(kTopics)], arg(3), arg(4))
	case "cancel":
		if k := arg(1); k < len(x.handles) {
			x.cancel(x.handles[k])
		}
	case "pub":
		x.publish(ctrl(), kTopics[arg(2)%len(kTopics)], arg(3), arg(4))
	case "ext":
		x.ext(kTopics[arg(1)%2], arg(2), arg(3), max(arg(4), 1))
	case "sleep":
		time.Sleep(time.Duration(arg(1)) * time.Millisecond)
	case "fail":
		x.calm = false
		f := arg(1) % len(kKinds)
		x.fails = append(x.fails, kFail{kKinds[f], kHows[f][arg(2)%len(kHows[f])], max(arg(3), 1)})
	case "cut":
		x.calm = false
		c := ctrl()
		c.epoch++
		each(c, func(a string) {
			if x.net.Cut(a) > 0 {
				wd.Fault("connection cut")
			}
		})
	case "down":
		x.calm = false
		c := ctrl()
		c.epoch++
		if k := arg(3); k > 0 && k <= len(c.hosts) && len(c.hosts) > 1 {
			each = func(c *kCtrl, f func(addr string)) { f(c.hosts[k-1]) }
			wd.Fault("broker unreachable")
		} else {
			wd.Fault("cluster unreachable")
		}
		each(c, func(a string) { x.net.SetDown(a, true); x.net.Cut(a) })
		time.Sleep(time.Duration(arg(2)) * time.Millisecond)
		if !c.dead {
			each(c, func(a string) { x.net.SetDown(a, false) })
		}
	case "stall":
		x.calm = false
		c := ctrl()
		c.epoch++
		wd.Fault("network stall")
		each(c, func(a string) { x.net.Stall(a, time.Duration(arg(2))*time.Millisecond) })
	case "forget":
		wd.Fault("topic deleted")
		x.locate("")
		x.forgets++
		topic := kTopics[2+arg(1)%3]
		x.k.mu.Lock()
		if t := x.k.topics[topic]; t != nil {
			for i := range t.parts {
				delete(x.seen, tp(topic, i))
			}
			delete(x.k.topics, topic)
		}
		x.k.touch()
		x.k.mu.Unlock()
		wd.Rec("%s is deleted", topic)
	case "move":
		x.calm = false
		wd.Fault("leaders moved")
		x.k.mu.Lock()
		x.k.rotate++
		x.k.touch()
		x.k.mu.Unlock()
	case "crash":
		i := arg(1) % len(x.ctrls)
		c := x.ctrls[i]
		if c.dead {
			return
		}
		x.calm = false
		c.dead = true
		x.upset[c.group] = true
		wd.Fault("crash")
		wd.Rec("crash %s", c.ns)
		each(c, func(a string) { x.net.SetDown(a, true); x.net.Cut(a) })
		k := x.start(i)
		if k == nil {
			return
		}
		x.ctrls[i] = k
	}
}

func (x *kafkaRun) ext(topic string, part, seed, n int) {
	var recs []*kRecord
	r := w.NewRand(uint64(seed))
	for i := 0; i < n; i++ {
		_, m := x.message(seed + i)
		rec := &kRecord{value: m.Payload}
		for _, h := range headerList(m.Headers) {
			rec.headers = append(rec.headers, protocol.Header{Key: h[0], Value: []byte(h[1])})
		}
		recs = append(recs, rec)
		if r.P(40) || i == n-1 {
			x.k.produceDirect(topic, part, recs...)
			recs = nil
		}
	}
	x.wd.Rec("ext %s/%d x%d up to m%d", topic, part, n, x.ids)
}

func headersOf(r *kRecord) map[string][]byte {
	h := map[string][]byte{}
	for _, x := range r.headers {
		h[x.Key] = x.Value
	}
	return h
}

// locate finds the positions of a message in the logs.
func (x *kafkaRun) locate(id string) []kStored {
	x.k.mu.Lock()
	defer x.k.mu.Unlock()
	for name, t := range x.k.topics {
		for p, part := range t.parts {
			k := tp(name, p)
			for ; x.seen[k] < len(part.records); x.seen[k]++ {
				r := part.records[x.seen[k]]
				i := idOf(headersOf(r), r.value)
				x.where[i] = append(x.where[i], kStored{kPos{name, p, r.offset}, r})
			}
		}
	}
	return x.where[id]
}

func (x *kafkaRun) subscribe(c *kCtrl, topic string, mode, seed int) *kHandle {
	wd := x.wd
	if c.dead {
		return nil
	}
	calm := x.calm
	at := wd.Now()
	ctx, end := endingContext(wd, w.Pick(w.NewRand(uint64(seed)^0xc0), 0, 0, 1, 1, 1000, 300000, 5000000))
	sub, err := c.ctl().Subscribe(ctx, topic)
	end()
	if d := wd.Now() - at; d > 15*time.Minute {
		wd.Violate("subscribe-slow", "Subscribe took %v", d)
	}
	if err != nil {
		wd.Probe("subscription refused")
		wd.Rec("subscribe %s %s: %v", c.ns, topic, err)
		if calm && x.calm && !c.dead && wd.Plan.Sched.Stall == 0 {
			wd.For("C13 C14", "subscribe", "Subscribe(%q) failed against a healthy cluster: %v", topic, err)
		}
		return nil
	}
	x.k.mu.Lock()
	exists := x.k.topics[topic] != nil
	x.k.mu.Unlock()
	if !exists {
		wd.For("C14", "not-created", "Subscribe(%q) succeeded, but the topic does not exist", topic)
	}
	h := &kHandle{name: fmt.Sprintf("h%d", len(x.handles)), ctrl: c, topic: topic, mode: mode, rnd: w.NewRand(uint64(seed)), sub: sub, next: map[int]int64{}}
	h.made.Store(1)
	x.handles = append(x.handles, h)
	x.used[[2]string{c.group, topic}] = true
	wd.Rec("subscribed %s %s %s mode %d", h.name, c.ns, topic, mode)
	wd.Probe("subscribed")
	go x.read(h)
	return h
}

func (x *kafkaRun) read(h *kHandle) {
	wd := x.wd
	if h.mode == readLate {
		wd.Until(3*time.Hour, func() bool { return x.final || h.ctrl.dead || h.cancelled })
	}
	for m := range h.subscription().MessagesChannel() {
		if h.ctrl.dead {
			return
		}
		m := m
		h.got++
		id := idOf(m.Headers, m.Payload)
		want, ok := x.sent[id]
		at := x.locate(id)
		if !ok || len(at) == 0 {
			wd.Violate("content", "%s (%s) received a message nobody sent: %s %q", h.name, h.topic, short(m.Payload), headerList(m.Headers))
			continue
		}
		if !sameContent(m.BrokerMessage, want.Headers, want.Payload) {
			wd.Violate("content", "%s received %s %q instead of %s %q", h.name, short(m.Payload), headerList(m.Headers), short(want.Payload), headerList(want.Headers))
		}
		pos := at[0].kPos
		for _, p := range at {
			if p.topic == h.topic && h.next[p.part] == p.offset {
				pos = p.kPos
				break
			}
		}
		wd.Rec("%s got %s at %s/%d %d", h.name, id, pos.topic, pos.part, pos.offset)
		if pos.topic != h.topic {
			wd.For("C13", "topic", "%s, subscribed to %s, received a message of %s", h.name, h.topic, pos.topic)
			continue
		}
		if next, known := h.next[pos.part]; !known || next != pos.offset {
			if !x.isStart(h, pos) {
				if known {
					wd.For("C13", "order", "%s received offset %d of %s/%d where %d was next", h.name, pos.offset, pos.topic, pos.part, next)
				} else {
					wd.For("C13", "order", "%s first received offset %d of %s/%d, where its group was not told to begin", h.name, pos.offset, pos.topic, pos.part)
				}
			} else if known && pos.offset < next {
				wd.Probe("delivered again")
			}
		}
		h.next[pos.part] = pos.offset + 1
		g := x.handed[h.ctrl.group]
		if g == nil {
			g = map[kPos]bool{}
			x.handed[h.ctrl.group] = g
		}
		g[pos] = true
		settle := func(nak bool) {
			if h.ctrl.dead {
				return
			}
			s := x.settled[h.ctrl.ns]
			if s == nil {
				s = map[kPos]time.Duration{}
				x.settled[h.ctrl.ns] = s
			}
			if _, ok := s[pos]; !ok {
				s[pos] = wd.Now()
			}
			at := wd.Now()
			wd.Rec("%s settles %s", h.name, id)
			done := false
			go func() { // a crashed process never returns from it
				if nak {
					m.Nak()
				} else {
					m.Ack()
				}
				done = true
			}()
			wd.Until(2*time.Hour, func() bool { return done || h.ctrl.dead })
			if d := wd.Now() - at; d > 10*time.Minute && !h.ctrl.dead {
				wd.For("C13", "ack-slow", "settling a message took %v", d)
			}
		}
		how := h.rnd.N(100)
		switch {
		case h.mode == readSlow && !x.final:
			time.Sleep(time.Duration(h.rnd.Range(0, 400)) * time.Millisecond)
			x.settleIn(h, func() { settle(how < 20) })
		case h.mode == readPause && !x.final: // settled later, in another goroutine, or never
			if how < 70 {
				d := time.Duration(h.rnd.Range(0, 8000)) * time.Millisecond
				wd.Go("settle", func() { time.Sleep(d); settle(how < 20) })
			}
		default:
			x.settleIn(h, func() { settle(how < 20) })
		}
	}
	h.closed = true
}

// settleIn counts the call as pending while it runs.
func (x *kafkaRun) settleIn(h *kHandle, f func()) {
	done := false
	x.wd.Go("settle", func() {
		f()
		done = true
	})
	x.wd.Until(2*time.Hour, func() bool { return done || h.ctrl.dead })
}

// isStart tells whether the cluster told a member of this controller to begin there.
func (x *kafkaRun) isStart(h *kHandle, pos kPos) bool {
	x.k.mu.Lock()
	defer x.k.mu.Unlock()
	for _, o := range x.k.offsets {
		if o.ns == h.ctrl.ns && o.topic == pos.topic && o.part == pos.part && o.offset == pos.offset {
			return true
		}
	}
	return false
}

func (x *kafkaRun) cancel(h *kHandle) {
	wd := x.wd
	h.cancelled = true
	if !x.final {
		x.upset[h.ctrl.group] = true
	}
	at := wd.Now()
	wd.Rec("cancel %s", h.name)
	h.subscription().Cancel(context.Background())
	h.returned = true
	if d := wd.Now() - at; d > 6*time.Minute {
		wd.For("C13", "cancel-slow", "Cancel of a subscription to %q took %v", h.topic, d)
	}
}

func (x *kafkaRun) publish(c *kCtrl, topic string, seed, ms int) {
	wd := x.wd
	if c.dead {
		return
	}
	id, m := x.message(seed)
	want := x.sent[id]
	calm, forgets := x.calm, x.forgets
	ctx := context.Background()
	if ms > 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, time.Duration(ms)*time.Millisecond)
		defer cancel()
	}
	at := wd.Now()
	err := c.ctl().Publish(ctx, topic, m)
	wd.Rec("publish %s %s %s: %v", c.ns, topic, id, err)
	d := wd.Now() - at
	limit := 20 * time.Minute
	if ms > 0 {
		limit = time.Duration(ms)*time.Millisecond + 4*time.Minute
	}
	if d > limit && !c.dead {
		wd.For("C14", "publish-slow", "Publish took %v with a context of %d ms", d, ms)
	}
	at2 := x.locate(id)
	if err != nil {
		wd.Probe("publication refused")
		if calm && x.calm && !c.dead && wd.Plan.Sched.Stall == 0 && ms == 0 && forgets == x.forgets {
			wd.For("C14", "spurious", "Publish(%q) failed against a healthy cluster: %v", topic, err)
		}
		return
	}
	wd.Probe("published")
	if len(at2) == 0 {
		wd.For("C14", "not-stored", "Publish(%q) of %s returned nil, but no broker has stored the message", topic, id)
		return
	}
	for _, p := range at2 {
		if p.topic != topic {
			wd.For("C14", "topic", "%s was published to %s, but stored in %s", id, topic, p.topic)
		}
		r := p.rec
		if !sameContent(extensions.BrokerMessage{Headers: headersOf(r), Payload: r.value}, want.Headers, want.Payload) {
			wd.For("C14", "content", "the cluster stored %s %q instead of %s %q", short(r.value), headerList(headersOf(r)), short(want.Payload), headerList(want.Headers))
		}
	}
	if len(at2) > 1 && calm && x.calm {
		wd.For("C14", "twice", "%s was stored %d times by a healthy cluster", id, len(at2))
	}
}

func (x *kafkaRun) finish() {
	wd := x.wd
	if x.k.err != "" {
		wd.Violate("protocol", "the client sent what the stub does not know: %s", x.k.err)
		return
	}
	x.final = true
	x.fails = nil
	runtime.SimQuiesce()
	for _, c := range x.all {
		if !c.dead {
			for _, a := range c.hosts {
				x.net.SetDown(a, false)
			}
		}
	}
	wd.Settle(2 * time.Minute)
	// a subscription for every group and topic in use
	var pairs [][2]string
	for p := range x.used {
		pairs = append(pairs, p)
	}
	sort.Slice(pairs, func(i, j int) bool { return pairs[i][0]+pairs[i][1] < pairs[j][0]+pairs[j][1] })
	done := wd.C("ctrls")
	for _, p := range pairs {
		p := p
		live := false
		for _, h := range x.handles {
			live = live || h.topic == p[1] && h.ctrl.group == p[0] && !h.cancelled && !h.ctrl.dead
		}
		if live {
			continue
		}
		for _, c := range x.ctrls {
			if c.group == p[0] && !c.dead {
				c := c
				wd.Go("subscribe", func() {
					if h := x.subscribe(c, p[1], readNormal, done); h == nil && wd.Plan.Sched.Stall == 0 {
						wd.For("C13 C14", "subscribe", "Subscribe(%q) failed after the faults had stopped", p[1])
					}
				})
				break
			}
		}
	}
	if !wd.Join(10 * time.Minute) {
		wd.Violate("hang", "calls did not return after the faults had stopped: %s", wd.Pending())
		return
	}
	for _, p := range pairs {
		x.k.mu.Lock()
		n := len(x.k.topics[p[1]].parts)
		x.k.mu.Unlock()
		for i := 0; i < n; i++ {
			x.ext(p[1], i, 4*i+1, 1)
		}
	}
	caught := func() string {
		x.locate("")
		x.k.mu.Lock()
		defer x.k.mu.Unlock()
		for _, p := range pairs {
			g := x.k.groups[p[0]]
			for i, part := range x.k.topics[p[1]].parts {
				for _, r := range part.records {
					pos := kPos{p[1], i, r.offset}
					if x.handed[p[0]][pos] || !x.manual && x.upset[p[0]] && g != nil && r.offset < g.commits[tp(p[1], i)] {
						continue
					}
					return fmt.Sprintf("not delivered to group %s: offset %d of %s/%d", p[0], r.offset, p[1], i)
				}
				if g == nil || g.commits[tp(p[1], i)] != int64(len(part.records)) {
					c := int64(-1)
					if g != nil {
						c = g.commits[tp(p[1], i)]
					}
					return fmt.Sprintf("not committed by group %s: %s/%d is at %d of %d", p[0], p[1], i, c, len(part.records))
				}
			}
		}
		return ""
	}
	// fifteen minutes without any progress, and no more than eight hours
	progress := func() int64 {
		n := int64(0)
		x.k.mu.Lock()
		for _, p := range pairs {
			n += int64(len(x.handed[p[0]]))
			if g := x.k.groups[p[0]]; g != nil {
				for i := range x.k.topics[p[1]].parts {
					n += g.commits[tp(p[1], i)]
				}
			}
		}
		x.k.mu.Unlock()
		return n
	}
	var last string
	good := false
	for end := wd.Now() + 8*time.Hour; !good && wd.Now() < end; {
		was := progress()
		good = wd.Until(15*time.Minute, func() bool { last = caught(); return last == "" })
		if !good && progress() == was {
			break
		}
	}
	if !good {
		rule := "not-delivered"
		if strings.HasPrefix(last, "not committed") {
			rule = "not-committed"
		}
		wd.For("C13", rule, "15 minutes after the faults had stopped: %s", last)
	}
	if len(pairs) > 0 {
		wd.Probe("caught up")
	}
	// commits follow settlements
	if x.manual {
		for _, c := range x.k.commits {
			pos := kPos{c.topic, c.part, c.offset - 1}
			at, ok := x.settled[c.ns][pos]
			if c.offset > 0 && (!ok || at > c.at) {
				wd.For("C13", "unsettled", "offset %d of %s/%d was committed by %s, but its message was not settled before", c.offset-1, c.topic, c.part, c.ns)
				break
			}
		}
	}
	for _, h := range x.handles {
		h := h
		if !h.ctrl.dead {
			wd.Go("cancel", func() { x.cancel(h) })
		}
	}
	if !wd.Join(8 * time.Minute) {
		wd.Violate("hang", "calls did not return at the end: %s", wd.Pending())
		return
	}
	wd.Settle(time.Minute)
	for _, h := range x.handles {
		if !h.closed && !h.ctrl.dead {
			wd.For("C13", "open", "the channel of %s (%s) is not closed after its cancellation", h.name, h.topic)
			break
		}
	}
	wd.Settle(2 * time.Minute)
	for _, c := range x.all {
		for _, a := range c.hosts {
			if n := x.net.Conns(a); n > 0 && !c.dead {
				wd.For("C13 C14", "conns", "%d connections of %s are open after everything has ended", n, c.ns)
				return
			}
		}
	}
}
