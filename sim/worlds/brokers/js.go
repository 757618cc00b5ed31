package main

import (
	"bytes"
	"context"
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/natsjetstream"
	"github.com/nats-io/nats.go/jetstream"

	"verifsim/simnet"
	"verifsim/w"
)

// Scenario "jetstream" (C11, C12): JetStream controllers consuming a durable
// stream, with crashes and restarts, lost connections and acknowledgements,
// refused requests, and subscriptions coming and going.
//
// Operations: [actor, ...]
//
//	sub    actor ctrl pattern mode seed
//	cancel actor handle
//	pub    actor ctrl subject seed
//	ext    actor subject seed n
//	sleep  actor ms
//	fail   actor kind how n
//	cut    actor ctrl; down actor ctrl ms; stall actor ctrl ms
//	crash  actor ctrl; restart actor ctrl (Close, then a new one)
func init() {
	w.Register(&w.Scenario{Name: "jetstream", Props: []string{"C11", "C12"}, Gen: genJS, Run: runJS})
}

var (
	jsPatterns = []string{"a.b", "a.c", "a.*", "a.>", "x", "b.*.z", "b.>", "a.b.c", "A.b", "a.B"}
	jsSubjects = []string{"a.b", "a.c", "x", "a.b.c", "b.y.z", "b.y", "A.b"}
	jsStream   = []string{"a.>", "x", "b.>", "A.>"}
	jsFails    = []string{"api CONSUMER.INFO", "store", "ack"}
	jsHows     = [][]string{{"none", "service unavailable"}, {"none", "lost", "no space left"}, {"lost"}}
)

func genJS(r *w.Rand, p *w.Plan) {
	genNet(r, p)
	nc := w.Pick(r, 1, 1, 1, 2)
	p.Cfg["ctrls"] = int64(nc)
	p.Cfg["actors"] = int64(r.Range(1, 4))
	p.Cfg["ackwait"] = int64(w.Pick(r, 2, 5, 30))
	p.Cfg["nak"] = int64(w.Pick(r, -1, 0, 100, 1500, 7000))
	p.Cfg["maxpending"] = int64(w.Pick(r, 0, 0, 0, 3, 20))
	p.Cfg["precreated"] = int64(r.N(2))
	faulty := r.P(50)
	c12 := p.Prop == "C12"
	if faulty {
		p.Cfg["faulty"] = 1
	}
	patterns := jsPatterns
	if r.P(50) {
		patterns = jsPatterns[:w.Pick(r, 1, 2, 3)]
	}
	p.Cfg["patterns"] = int64(len(patterns))
	sub, cancel := 18, 26
	if c12 {
		sub, cancel = 26, 46
	}
	n := r.Range(4, 40)
	for i := 0; i < n; i++ {
		a, c := r.N(int(p.Cfg["actors"])), r.N(nc)
		switch k := r.N(100); {
		case k < sub || i < 2:
			p.Ops = append(p.Ops, w.MkOp("sub", a, c, r.N(len(patterns)), w.Pick(r, 0, 0, 0, 1, 2, 3), r.N(1<<30), w.Pick(r, 0, 0, 0, 1, 2000, 3000000)))
		case k < cancel:
			p.Ops = append(p.Ops, w.MkOp("cancel", a, r.N(10)))
		case k < 58:
			p.Ops = append(p.Ops, w.MkOp("pub", a, c, w.Pick(r, r.N(len(jsSubjects)), r.N(len(jsSubjects)), r.N(len(jsSubjects)+1)), r.N(1<<30)))
		case k < 76:
			p.Ops = append(p.Ops, w.MkOp("ext", a, r.N(len(jsSubjects)), r.N(1<<30), w.Pick(r, 1, 1, 2, 4, 20, 90, rarely(r, 400))))
		case k < 86 || !faulty:
			p.Ops = append(p.Ops, w.MkOp("sleep", a, w.Pick(r, 1, 10, 100, 1000, 6000)))
		case k < 90:
			f := r.N(len(jsFails))
			p.Ops = append(p.Ops, w.MkOp("fail", a, f, r.N(len(jsHows[f])), r.Range(1, 2)))
		case k < 93:
			p.Ops = append(p.Ops, w.MkOp("crash", a, c))
		case k < 95:
			p.Ops = append(p.Ops, w.MkOp("restart", a, c))
		case k < 97:
			p.Ops = append(p.Ops, w.MkOp("cut", a, c))
		case k < 99:
			p.Ops = append(p.Ops, w.MkOp("down", a, c, w.Pick(r, 100, 3000, 15000)))
		default:
			p.Ops = append(p.Ops, w.MkOp("stall", a, c, w.Pick(r, 10, 500, 8000)))
		}
	}
}

type jsCtrl struct {
	idx      int
	addr     string
	consumer string
	c        *natsjetstream.Controller
	made     atomic.Uint32
	dead     bool // crashed or closed
	epoch    int
	acked    map[string]time.Duration // by id: first Ack by the user
	naked    map[string]int           // by id: Nak calls by the user
	gotCount map[string]int
	left     bool // a subscription has been cancelled
}

type jsHandle struct {
	name      string
	ctrl      *jsCtrl
	pattern   string
	mode      int
	rnd       *w.Rand
	sub       extensions.BrokerChannelSubscription
	made      atomic.Uint32
	subbed    time.Duration
	cancelled bool
	cancelAt  time.Duration
	got       int
	closed    bool
	sendIdx   int // of what was received last, among those sent to the controller
}

// ctl gives the controller. Its user received it from the goroutine which
// made it in an orderly way, which the race detector has to see.
func (k *jsCtrl) ctl() *natsjetstream.Controller {
	k.made.Load()
	return k.c
}

func (h *jsHandle) subscription() extensions.BrokerChannelSubscription {
	h.made.Load()
	return h.sub
}

type jsRun struct {
	wd      *w.World
	net     *simnet.Net
	srv     *server
	ctrls   []*jsCtrl // those in use
	all     []*jsCtrl
	handles []*jsHandle
	fails   []jsFail
	ids     int
	final   bool
	nak     time.Duration
	ackWait time.Duration
	sent    map[string]extensions.BrokerMessage // by id
	seqOf   map[string]int
	stream  *stream
	rules   int
	pass    int // 0 run, 1 final
	lostAck map[string]bool
}

type jsFail struct {
	kind, how string
	n         int
}

func idOf(h map[string][]byte, data []byte) string {
	if v, ok := h["Vid"]; ok {
		return string(v)
	}
	id, _, ok := bytes.Cut(data, []byte("|"))
	if !ok {
		return ""
	}
	return string(id)
}

func (x *jsRun) message(seed int) (string, extensions.BrokerMessage) {
	x.ids++
	id := fmt.Sprintf("m%d", x.ids)
	var m extensions.BrokerMessage
	if seed%4 == 0 {
		m = message(seed, "", false)
		if m.Headers == nil {
			m.Headers = map[string][]byte{}
		}
		m.Headers["Vid"] = []byte(id)
	} else {
		m = message(seed, id, true)
		delete(m.Headers, "Vid") // a random name may be this one
	}
	x.sent[id] = m
	return id, extensions.BrokerMessage{Headers: cloneHeaders(m.Headers), Payload: append([]byte(nil), m.Payload...)}
}

func runJS(wd *w.World) {
	x := &jsRun{wd: wd, net: setupNet(wd), sent: map[string]extensions.BrokerMessage{}, seqOf: map[string]int{}, lostAck: map[string]bool{}}
	x.srv = newServer(wd, x.net, wd.Plan.NetSeed+1)
	x.nak = 5 * time.Second
	if n := wd.C("nak"); n >= 0 {
		x.nak = time.Duration(n) * time.Millisecond
	}
	x.ackWait = time.Duration(wd.C("ackwait")) * time.Second
	j := x.srv.js
	subjects := jsStream
	if wd.C("precreated") > 0 {
		x.stream = &stream{name: "S", raw: []byte(`{"name":"S"}`), subjects: subjects, consumers: map[string]*consumer{}}
		j.streams["S"] = x.stream
	}
	nc := wd.C("ctrls")
	for i := 0; i < nc; i++ {
		c := x.start(i, i == 0 && wd.C("precreated") == 0, false)
		if c == nil {
			return
		}
		x.ctrls = append(x.ctrls, c)
	}
	x.stream = j.streams["S"]
	if x.stream == nil {
		wd.Violate("stream", "the configured stream was not created")
		return
	}
	j.failure = x.failure
	per := make([][]w.Op, wd.C("actors"))
	for _, o := range wd.Plan.Ops {
		if a := int(o.A[0]); a < len(per) {
			per[a] = append(per[a], o)
		}
	}
	for i, l := range per {
		l := l
		wd.Go(fmt.Sprintf("actor%d", i), func() {
			for _, o := range l {
				x.do(o)
			}
		})
	}
	if !wd.Join(20 * time.Minute) {
		wd.Violate("hang", "calls did not return within 20 minutes: %s", wd.Pending())
		return
	}
	x.finish()
}

// start makes a controller with a connection of its own.
func (x *jsRun) start(i int, makeStream, again bool) *jsCtrl {
	wd := x.wd
	k := &jsCtrl{idx: i, addr: addrOf(len(x.all)), consumer: fmt.Sprintf("c%d", i), acked: map[string]time.Duration{}, naked: map[string]int{}, gotCount: map[string]int{}}
	x.all = append(x.all, k)
	x.net.Listen(k.addr, x.srv.serve)
	var o []natsjetstream.ControllerOption
	if makeStream {
		o = append(o, natsjetstream.WithStreamConfig(jetstream.StreamConfig{Name: "S", Subjects: jsStream}))
	} else {
		o = append(o, natsjetstream.WithStream("S"))
	}
	if again && wd.Plan.Seed%2 == 0 {
		o = append(o, natsjetstream.WithConsumer(k.consumer))
	} else {
		o = append(o, natsjetstream.WithConsumerConfig(jetstream.ConsumerConfig{Name: k.consumer, AckPolicy: jetstream.AckExplicitPolicy, AckWait: x.ackWait, MaxAckPending: wd.C("maxpending")}))
	}
	if wd.C("nak") >= 0 {
		o = append(o, natsjetstream.WithNakDelay(x.nak))
	}
	var err error
	for try := 0; ; try++ {
		k.c, err = natsjetstream.NewController("nats://"+k.addr, o...)
		if err == nil {
			k.made.Store(1)
			break
		}
		if wd.Plan.Sched.Stall == 0 && len(x.fails) == 0 && !again || try > 30 {
			if wd.Plan.Sched.Stall == 0 {
				wd.Violate("connect", "a controller could not connect to a healthy server: %v", err)
			}
			wd.Trivial = true
			return nil
		}
		time.Sleep(100 * time.Millisecond)
	}
	c := x.srv.js.streams["S"].consumers[k.consumer]
	if c == nil {
		wd.Violate("consumer", "the configured consumer %s was not created", k.consumer)
		return nil
	}
	if time.Duration(c.cfg.AckWait) != x.ackWait {
		wd.Violate("consumer", "the consumer has an acknowledgement wait of %v, not %v", time.Duration(c.cfg.AckWait), x.ackWait)
	}
	return k
}

// failure decides the fate of a request; the server's mutex is held.
func (x *jsRun) failure(kind, subject string) string {
	if x.final {
		return ""
	}
	for i := range x.fails {
		if f := &x.fails[i]; f.n > 0 && f.kind == kind {
			f.n--
			x.wd.Fault("request " + f.how + ": " + kind)
			return f.how
		}
	}
	return ""
}

func (x *jsRun) do(o w.Op) {
	wd := x.wd
	arg := func(i int) int {
		if i < len(o.A) {
			return int(o.A[i])
		}
		return 0
	}
	ctrl := func() *jsCtrl { return x.ctrls[arg(1)%len(x.ctrls)] }
	switch o.K {
	case "sub":
		x.subscribe(ctrl(), jsPatterns[arg(2)%len(jsPatterns)], arg(3), arg(4), arg(5))
	case "cancel":
		if k := arg(1); k < len(x.handles) {
			x.cancel(x.handles[k])
		}
	case "pub":
		s := "nostream"
		if k := arg(2); k < len(jsSubjects) {
			s = jsSubjects[k]
		}
		x.publish(ctrl(), s, arg(3))
	case "ext":
		n := max(arg(3), 1)
		for i := 0; i < n; i++ {
			_, m := x.message(arg(2) + i)
			x.srv.publish(&pubRec{Subject: jsSubjects[arg(1)%len(jsSubjects)], Header: wireHeader(headerList(m.Headers)), Data: m.Payload})
		}
		wd.Rec("ext %s x%d up to m%d", jsSubjects[arg(1)%len(jsSubjects)], n, x.ids)
	case "sleep":
		time.Sleep(time.Duration(arg(1)) * time.Millisecond)
	case "fail":
		f := arg(1) % len(jsFails)
		x.fails = append(x.fails, jsFail{jsFails[f], jsHows[f][arg(2)%len(jsHows[f])], max(arg(3), 1)})
	case "cut":
		c := ctrl()
		c.epoch++
		if x.net.Cut(c.addr) > 0 {
			wd.Fault("connection cut")
		}
	case "down":
		c := ctrl()
		c.epoch++
		wd.Fault("server down")
		x.net.SetDown(c.addr, true)
		x.net.Cut(c.addr)
		time.Sleep(time.Duration(arg(2)) * time.Millisecond)
		if !c.dead {
			x.net.SetDown(c.addr, false)
		}
	case "stall":
		c := ctrl()
		c.epoch++
		wd.Fault("network stall")
		x.net.Stall(c.addr, time.Duration(arg(2))*time.Millisecond)
	case "crash", "restart":
		i := arg(1) % len(x.ctrls)
		c := x.ctrls[i]
		if c.dead {
			return
		}
		c.dead = true
		wd.Rec("%s %d", o.K, i)
		if o.K == "crash" {
			wd.Fault("crash")
			x.net.SetDown(c.addr, true)
			x.net.Cut(c.addr)
		} else {
			wd.Fault("restart")
			c.ctl().Close()
		}
		k := x.start(i, false, true)
		if k == nil {
			return
		}
		x.ctrls[i] = k
	}
}

func (x *jsRun) subscribe(c *jsCtrl, pattern string, mode, seed, ends int) {
	wd := x.wd
	if c.dead {
		return
	}
	quiet := c.epoch == 0 && len(x.fails) == 0
	ctx, end := endingContext(wd, ends)
	sub, err := c.ctl().Subscribe(ctx, pattern)
	end()
	if err != nil {
		wd.Probe("subscription refused")
		if quiet && len(x.fails) == 0 && c.epoch == 0 && !c.dead && wd.Plan.Sched.Stall == 0 {
			wd.Violate("subscribe", "Subscribe(%q) failed against a healthy server: %v", pattern, err)
		}
		return
	}
	h := &jsHandle{name: fmt.Sprintf("h%d", len(x.handles)), ctrl: c, pattern: pattern, mode: mode, rnd: w.NewRand(uint64(seed)), sub: sub, subbed: wd.Now()}
	h.made.Store(1)
	x.handles = append(x.handles, h)
	wd.Rec("subscribed %s ctrl %d %s mode %d", h.name, c.idx, pattern, mode)
	go x.read(h)
}

func (x *jsRun) read(h *jsHandle) {
	wd := x.wd
	if h.mode == readLate {
		wd.Until(2*time.Hour, func() bool { return x.final || h.ctrl.dead || h.cancelled })
	}
	for m := range h.subscription().MessagesChannel() {
		if h.ctrl.dead {
			return
		}
		m := m
		h.got++
		id := idOf(m.Headers, m.Payload)
		wd.Rec("%s got %s", h.name, id)
		want, ok := x.sent[id]
		seq := x.seq(id)
		if !ok || seq == 0 {
			wd.Violate("content", "%s (%q) received a message nobody sent: %s %q", h.name, h.pattern, short(m.Payload), headerList(m.Headers))
			continue
		}
		st := x.stream.msgs[seq-1]
		if !sameContent(m.BrokerMessage, want.Headers, want.Payload) {
			wd.Violate("content", "%s received %s %q instead of %s %q", h.name, short(m.Payload), headerList(m.Headers), short(want.Payload), headerList(want.Headers))
		}
		if !matches(h.pattern, st.subject) {
			wd.Violate("pattern", "%s, subscribed to %q, received a message to %q", h.name, h.pattern, st.subject)
		}
		h.ctrl.gotCount[id]++
		if n := x.sends(h.ctrl, seq); h.ctrl.gotCount[id] > n {
			wd.Violate("duplicate", "message %s was handed over %d times, but the server sent it %d times", id, h.ctrl.gotCount[id], n)
		}
		// As long as none was cancelled, each gets what it gets in the order of
		// the server.
		if !h.ctrl.left {
			if i := x.sendAfter(h.ctrl, seq, h.sendIdx); i == 0 {
				wd.For("C12", "order", "%s (%q) received %s after a message the server sent later, and this one not again since", h.name, h.pattern, id)
			} else {
				h.sendIdx = i
			}
		}
		settle := func() {
			if h.ctrl.dead {
				return
			}
			how := h.rnd.N(100)
			if x.final {
				how = 0
			}
			switch {
			case how < 60:
				if _, ok := h.ctrl.acked[id]; !ok {
					h.ctrl.acked[id] = wd.Now()
				}
				wd.Rec("ack %s", id)
				m.Ack()
			case how < 85:
				h.ctrl.naked[id]++
				wd.Rec("nak %s", id)
				m.Nak()
			default:
				wd.Rec("leave %s", id)
			}
		}
		switch {
		case h.mode == readSlow && !x.final:
			time.Sleep(time.Duration(h.rnd.Range(0, 40)) * time.Millisecond)
			settle()
		case h.mode == readPause && !x.final:
			d := time.Duration(h.rnd.Range(0, 4000)) * time.Millisecond
			wd.Go("settle", func() { time.Sleep(d); settle() })
		default:
			settle()
		}
	}
	h.closed = true
}

func (x *jsRun) seq(id string) int {
	if s := x.seqOf[id]; s > 0 {
		return s
	}
	for i := len(x.seqOf); i < len(x.stream.msgs); i++ {
		m := x.stream.msgs[i]
		k := idOf(parseHeader(m.header), m.data)
		if x.seqOf[k] == 0 {
			x.seqOf[k] = m.seq
		}
	}
	if s := x.seqOf[id]; s > 0 {
		return s
	}
	for _, m := range x.stream.msgs {
		if idOf(parseHeader(m.header), m.data) == id {
			x.seqOf[id] = m.seq
			return m.seq
		}
	}
	return 0
}

func (x *jsRun) sends(c *jsCtrl, seq int) int {
	n := 0
	for _, s := range x.stream.consumers[c.consumer].sends {
		if s.Seq == seq && s.Conn.addr == c.addr {
			n++
		}
	}
	return n
}

// sendAfter is the position, from 1, of the first delivery of a message after
// another one to a controller, 0 if there is none.
func (x *jsRun) sendAfter(c *jsCtrl, seq, after int) int {
	l := x.stream.consumers[c.consumer].sends
	for i := after; i < len(l); i++ {
		if l[i].Seq == seq && l[i].Conn.addr == c.addr {
			return i + 1
		}
	}
	return 0
}

func (x *jsRun) cancel(h *jsHandle) {
	wd := x.wd
	h.ctrl.left = true
	if !h.cancelled {
		h.cancelled = true
		h.cancelAt = wd.Now()
	}
	at := wd.Now()
	wd.Rec("cancel %s", h.name)
	h.subscription().Cancel(context.Background())
	if d := wd.Now() - at; d > time.Minute {
		wd.Violate("cancel-slow", "Cancel of a subscription to %q took %v", h.pattern, d)
	}
}

func (x *jsRun) publish(c *jsCtrl, subject string, seed int) {
	wd := x.wd
	if c.dead {
		return
	}
	id, m := x.message(seed)
	want := x.sent[id]
	epoch := c.epoch
	at := wd.Now()
	quiet := len(x.fails) == 0
	err := c.ctl().Publish(context.Background(), subject, m)
	wd.Rec("publish %s %s: %v", subject, id, err == nil)
	if d := wd.Now() - at; d > 2*time.Minute {
		wd.Violate("publish-slow", "Publish took %v", d)
	}
	seq := 0
	for _, s := range x.stream.msgs {
		if idOf(parseHeader(s.header), s.data) == id {
			seq = s.seq
		}
	}
	if err != nil {
		wd.Probe("publication refused")
		if subject != "nostream" && quiet && len(x.fails) == 0 && epoch == 0 && c.epoch == 0 && !c.dead && wd.Plan.Sched.Stall == 0 {
			wd.For("C11", "spurious", "Publish(%q) failed against a healthy server: %v", subject, err)
		}
		return
	}
	if seq == 0 {
		wd.For("C11", "not-stored", "Publish(%q) of %s returned nil, but the stream does not have the message", subject, id)
		return
	}
	st := x.stream.msgs[seq-1]
	if st.subject != subject || !sameContent(want, parseHeader(st.header), st.data) {
		wd.For("C11", "stored-content", "Publish(%q) of %s %q stored %s %q under %q", subject, short(want.Payload), headerList(want.Headers), short(st.data), headerList(parseHeader(st.header)), st.subject)
	}
}

func (x *jsRun) live(c *jsCtrl, subject string) *jsHandle {
	for _, h := range x.handles {
		if h.ctrl == c && !h.cancelled && matches(h.pattern, subject) {
			return h
		}
	}
	return nil
}

func (x *jsRun) finish() {
	wd := x.wd
	x.fails = nil
	x.net.Base, x.net.Jitter, x.net.Frag = 200*time.Microsecond, 0, 0
	wd.Settle(20 * time.Second)
	up := wd.Until(3*time.Minute, func() bool {
		for _, c := range x.ctrls {
			if !c.dead && !x.srv.connected(c.addr) {
				return false
			}
		}
		return true
	})
	if !up {
		if wd.Plan.Sched.Stall == 0 {
			wd.Violate("down", "a controller was not connected again 3 minutes after the network was")
		}
		wd.Probe("not reconnected")
		return
	}
	x.isolation()
	// Everything on a subscribed channel is acknowledged in the end, and only
	// by the user.
	x.final = true
	for i, s := range jsSubjects {
		_, m := x.message(4*i + 1)
		x.srv.publish(&pubRec{Subject: s, Header: wireHeader(headerList(m.Headers)), Data: m.Payload})
	}
	var who *jsCtrl
	missing := func() string {
		for _, c := range x.ctrls {
			if c.dead {
				continue
			}
			k := x.stream.consumers[c.consumer]
			for _, s := range x.stream.msgs {
				if h := x.live(c, s.subject); h != nil && !k.acked[s.seq] {
					who = c
					return fmt.Sprintf("message %s to %q (sequence %d) is not acknowledged although controller %d is subscribed to %q: sent %d times, handed over %d times", idOf(parseHeader(s.header), s.data), s.subject, s.seq, c.idx, h.pattern, x.sends(c, s.seq), c.gotCount[idOf(parseHeader(s.header), s.data)])
				}
			}
		}
		return ""
	}
	wait := 10 * time.Minute
	if wd.Plan.Sched.Stall > 0 {
		wait = time.Hour
	}
	ok := wd.Until(wait, func() bool { return missing() == "" })
	x.checkAcks()
	if !ok {
		x.lost(who, fmt.Sprintf("%v after the last fault, %s", wait, missing()))
		return
	}
	if wd.Failed() {
		return
	}
	// Cancelling all stops consumption.
	for _, h := range x.handles {
		h := h
		if !h.ctrl.dead {
			wd.Go("cancel", func() { x.cancel(h) })
		}
	}
	if !wd.Join(5 * time.Minute) {
		wd.Violate("hang", "Cancel did not return: %s", wd.Pending())
		return
	}
	wd.Settle(40 * time.Second)
	for _, h := range x.handles {
		if !h.ctrl.dead && !h.closed {
			wd.Violate("open", "the messages of %q were not closed by Cancel", h.pattern)
		}
	}
	sends := map[string]int{}
	for _, c := range x.ctrls {
		sends[c.consumer] = len(x.stream.consumers[c.consumer].sends)
	}
	_, m := x.message(4*77 + 1)
	x.srv.publish(&pubRec{Subject: "a.b", Header: wireHeader(headerList(m.Headers)), Data: m.Payload})
	wd.Settle(10 * time.Second)
	for _, c := range x.ctrls {
		if !c.dead && len(x.stream.consumers[c.consumer].sends) > sends[c.consumer] {
			wd.For("C12", "consuming", "controller %d still consumes after its last subscription was cancelled", c.idx)
		}
	}
	// A later subscription resumes it.
	for _, c := range x.ctrls {
		if c.dead {
			continue
		}
		c := c
		wd.Go("resubscribe", func() { x.subscribe(c, "a.b", readNormal, 1, 0) })
	}
	if !wd.Join(5 * time.Minute) {
		wd.Violate("hang", "Subscribe did not return: %s", wd.Pending())
		return
	}
	if !wd.Until(wait, func() bool { return missing() == "" }) {
		x.lost(who, "after all were cancelled and a new subscription made, "+missing())
		return
	}
	x.checkAcks()
	for _, c := range x.ctrls {
		if !c.dead {
			c.dead = true
			c.ctl().Close()
		}
	}
	wd.Settle(5 * time.Second)
	for _, h := range x.handles {
		h := h
		wd.Go("cancel", func() { x.cancel(h) })
	}
	if !wd.Join(5 * time.Minute) {
		wd.Violate("hang", "Cancel after Close did not return: %s", wd.Pending())
		return
	}
	if x.srv.err != "" {
		wd.Violate("protocol", "the server was sent %s", x.srv.err)
	}
}

// isolation sends a message to each subscription that is read, while others are
// not read, or slowly, and have room in their queues: it arrives.
func (x *jsRun) isolation() {
	wd := x.wd
	if wd.Plan.Sched.Stall > 0 || wd.C("maxpending") > 0 || wd.Failed() {
		return
	}
	type probe struct {
		h  *jsHandle
		id string
	}
	var probes []probe
	for _, c := range x.ctrls {
		conns := 0
		for _, k := range x.srv.all {
			if k.addr == c.addr {
				conns++
			}
		}
		// Once reconnected or with a subscription cancelled, what has been
		// queued is not that clear.
		if c.dead || c.left || conns > 1 {
			continue
		}
		unread, room := false, true
		for _, h := range x.handles {
			if h.ctrl == c && (h.mode == readLate || h.mode == readSlow) {
				n := 0
				for _, s := range x.stream.consumers[c.consumer].sends {
					if s.Conn.addr == c.addr && matches(h.pattern, x.stream.msgs[s.Seq-1].subject) {
						n++
					}
				}
				unread = unread || n > 0
				room = room && n < 40
			}
		}
		if !unread || !room {
			continue
		}
		for i, s := range jsSubjects {
			var reader *jsHandle
			for _, h := range x.handles {
				if h.ctrl == c && matches(h.pattern, s) {
					if reader != nil || h.mode == readLate || h.mode == readSlow {
						reader = nil
						break
					}
					reader = h
				}
			}
			if reader == nil {
				continue
			}
			_, m := x.message(4*(1000+100*c.idx+i) + 1)
			x.srv.publish(&pubRec{Subject: s, Header: wireHeader(headerList(m.Headers)), Data: m.Payload})
			probes = append(probes, probe{reader, idOf(m.Headers, m.Payload)})
			break
		}
	}
	if len(probes) == 0 {
		return
	}
	wd.Probe("isolation")
	var late probe
	arrived := func() bool {
		for _, p := range probes {
			if p.h.ctrl.gotCount[p.id] == 0 {
				late = p
				return false
			}
		}
		return true
	}
	if !wd.Until(time.Minute, arrived) {
		wd.For("C12", "isolation", "%s (%q) has not received %s for a minute, while other subscriptions of its controller are not being read and have room in their queues", late.h.name, late.h.pattern, late.id)
	}
}

// lost tells two causes apart: nats.go 1.31 does not resume consumption when
// its connection is lost again before it has resumed (it takes an unread
// status event for a closed listener), which is recorded as a finding.
func (x *jsRun) lost(c *jsCtrl, detail string) {
	first := true
	for _, k := range x.srv.all {
		if c == nil || k.addr != c.addr {
			continue
		}
		if !first && (!k.until.IsZero() && k.until.Sub(k.since) < 20*time.Second || x.wd.Plan.Sched.Stall > 0) {
			x.wd.Violate("not-resumed", "connection lost again before consumption had resumed: %s", detail)
			return
		}
		first = false
	}
	x.wd.Violate("lost", "%s", detail)
}

// checkAcks compares what the server saw with what the users did.
func (x *jsRun) checkAcks() {
	wd := x.wd
	start := wd.Start()
	for _, c := range x.all {
		k := x.stream.consumers[c.consumer]
		if k == nil {
			continue
		}
		naks := map[string]int{}
		for _, a := range k.acks {
			if a.Conn.addr != c.addr {
				continue
			}
			s := x.stream.msgs[a.Seq-1]
			id := idOf(parseHeader(s.header), s.data)
			at := a.At.Sub(start)
			switch a.Kind {
			case "+ACK":
				if t, ok := c.acked[id]; ok && t <= at {
					continue
				}
				// Allowed for what nobody is subscribed to. When was this
				// delivery sent?
				var sent time.Duration = -1
				for _, d := range k.sends {
					if d.Seq == a.Seq && d.Count == a.Count && d.Conn.addr == c.addr {
						sent = d.At.Sub(start)
					}
				}
				for _, h := range x.handles {
					if h.ctrl == c && matches(h.pattern, s.subject) && h.subbed < sent && (!h.cancelled || h.cancelAt > at) {
						wd.For("C11", "acked", "the server was sent an acknowledgement of %s to %q at %v, delivered at %v, which the user (subscribed to %q since %v) has not acknowledged", id, s.subject, at, sent, h.pattern, h.subbed)
					}
				}
			case "-NAK":
				naks[id]++
				if c.naked[id] < naks[id] {
					wd.For("C11", "naked", "the server was sent %d negative acknowledgements of %s, the user gave %d", naks[id], id, c.naked[id])
				}
				if want := fmt.Sprintf(`{"delay": %d}`, x.nak.Nanoseconds()); strings.ReplaceAll(a.Data, " ", "") != strings.ReplaceAll(want, " ", "") && !(x.nak == 0 && a.Data == "") {
					wd.For("C11", "nak-delay", "a negative acknowledgement carries %q, the delay configured is %v", a.Data, x.nak)
				}
			default:
				wd.For("C11", "ack-kind", "the server was sent %q for %s", a.Kind, id)
			}
		}
	}
}
