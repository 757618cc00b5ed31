package main

import (
	"bytes"
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/nats"
	gonats "github.com/nats-io/nats.go"

	"verifsim/simnet"
	"verifsim/w"
)

// Scenario "nats" (C10): NATS controllers publishing and subscribing under
// network delays, cuts, outages and stalls, cancellations and closes.
//
// Operations: [actor, ...]
//
//	sub   actor ctrl pattern mode
//	cancel actor handle-index
//	pub   actor ctrl subject seed
//	ext   actor subject seed
//	sleep actor ms
//	cut   actor ctrl; down actor ctrl ms; silent actor ctrl ms; stall actor ctrl ms
//	close actor ctrl
func init() {
	w.Register(&w.Scenario{Name: "nats", Props: []string{"C10"}, Gen: genNATS, Run: runNATS})
}

var (
	natsPatterns = []string{"a.b", "a.c", "a.*", "a.>", "x", "*.b", "a", "a.b.c"}
	natsSubjects = []string{"a.b", "a.c", "x", "a", "a.b.c", "y.b"}
	natsGroups   = []string{"", "g1", "g2"}
)

const (
	readNormal = iota
	readSlow
	readPause
	readLate // not before the end of the run
	readModes
)

func genNet(r *w.Rand, p *w.Plan) {
	p.Cfg["base"] = int64(w.Pick(r, 0, 50, 500, 5000, 40000)) // µs
	p.Cfg["jitter"] = int64(w.Pick(r, 0, 100, 2000, 20000))
	p.Cfg["frag"] = int64(w.Pick(r, 0, 0, 0, 3, 30, 200))
	if p.Sched.Stall > 0 && p.Cfg["frag"] > 0 {
		p.Cfg["frag"] = 600
	}
	if p.Cfg["frag"] == 3 && p.Cfg["jitter"] > 2000 {
		p.Cfg["jitter"] = 100
	}
}

func genNATS(r *w.Rand, p *w.Plan) {
	genNet(r, p)
	nc := r.Range(1, 3)
	p.Cfg["ctrls"] = int64(nc)
	p.Cfg["actors"] = int64(r.Range(1, 4))
	for i := 0; i < nc; i++ {
		p.Cfg[fmt.Sprintf("group%d", i)] = int64(w.Pick(r, 0, 0, 1, 1, 2))
	}
	faulty := r.P(45)
	if faulty {
		p.Cfg["faulty"] = 1
	}
	if r.P(15) {
		p.Cfg["maxpayload"] = 700
	}
	n := r.Range(4, 40)
	for i := 0; i < n; i++ {
		a := r.N(int(p.Cfg["actors"]))
		c := r.N(nc)
		switch k := r.N(100); {
		case k < 22 || i < 2:
			p.Ops = append(p.Ops, w.MkOp("sub", a, c, r.N(len(natsPatterns)), w.Pick(r, 0, 0, 0, 1, 2, 3), w.Pick(r, 0, 0, 0, 1, 2000, 3000000)))
		case k < 32:
			p.Ops = append(p.Ops, w.MkOp("cancel", a, r.N(12)))
		case k < 60:
			p.Ops = append(p.Ops, w.MkOp("pub", a, c, r.N(len(natsSubjects)), r.N(1<<30)))
		case k < 78:
			p.Ops = append(p.Ops, w.MkOp("ext", a, r.N(len(natsSubjects)), r.N(1<<30), w.Pick(r, 1, 1, 1, 3, 20, 150, rarely(r, 600))))
		case k < 88 || !faulty && k < 97:
			p.Ops = append(p.Ops, w.MkOp("sleep", a, w.Pick(r, 1, 10, 100, 1000)))
		case k < 89:
			p.Ops = append(p.Ops, w.MkOp("close", a, c))
		case !faulty:
		case k < 93:
			p.Ops = append(p.Ops, w.MkOp("cut", a, c))
		case k < 95:
			p.Ops = append(p.Ops, w.MkOp("down", a, c, w.Pick(r, 100, 3000, 15000)))
		case k < 97:
			p.Ops = append(p.Ops, w.MkOp("silent", a, c, w.Pick(r, 1000, 9000)))
		default:
			p.Ops = append(p.Ops, w.MkOp("stall", a, c, w.Pick(r, 10, 500, 15000)))
		}
	}
}

// rarely is n once in a while, otherwise 1.
func rarely(r *w.Rand, n int) int {
	if r.P(10) {
		return n
	}
	return 1
}

func addrOf(i int) string { return fmt.Sprintf("127.0.0.%d:4222", i+1) }

// message draws the content of a message.
func message(seed int, id string, withID bool) extensions.BrokerMessage {
	r := w.NewRand(uint64(seed))
	n := w.Pick(r, 0, 1, 5, 40, 40, 300, 3000)
	if r.N(150) == 0 {
		n = w.Pick(r, 9000, 40000, 140000)
	}
	m := extensions.BrokerMessage{Payload: randBytes(r, n)}
	if withID {
		m.Payload = append([]byte(id+"|"), m.Payload...)
	}
	k := w.Pick(r, 0, 0, 1, 2, 5)
	if k > 0 {
		m.Headers = map[string][]byte{}
	}
	const keyChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_."
	for i := 0; i < k; i++ {
		key := make([]byte, r.Range(1, 12))
		for j := range key {
			key[j] = keyChars[r.N(len(keyChars))]
		}
		val := make([]byte, w.Pick(r, 0, 1, 3, 10, 60))
		for j := range val {
			val[j] = byte(r.Range(33, 126))
			if j > 0 && j < len(val)-1 && r.P(15) {
				val[j] = w.Pick(r, byte(' '), ':', ',', '"', 0xc3, 0xff)
			}
		}
		m.Headers[string(key)] = val
	}
	return m
}

func headerList(h map[string][]byte) [][2]string {
	var l [][2]string
	for k, v := range h {
		l = append(l, [2]string{k, string(v)})
	}
	sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] })
	return l
}

func sameContent(m extensions.BrokerMessage, header map[string][]byte, data []byte) bool {
	if !bytes.Equal(m.Payload, data) || len(m.Headers) != len(header) {
		return false
	}
	for k, v := range header {
		x, ok := m.Headers[k]
		if !ok || !bytes.Equal(x, v) {
			return false
		}
	}
	return true
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%q..(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%q", b)
}

type natsHandle struct {
	name      string
	ctrl      int
	pattern   string
	nth       int // of this controller and pattern
	mode      int
	sub       extensions.BrokerChannelSubscription
	subbed    time.Duration
	cancelled bool // Cancel was called
	calledAt  time.Duration
	done      bool // Cancel returned
	got       []extensions.BrokerMessage
	gotAt     []time.Duration
	closed    bool
	cutBefore int // number of received messages when Cancel was called
}

type natsRun struct {
	wd      *w.World
	net     *simnet.Net
	srv     *server
	ctrls   []*nats.Controller
	closed  []bool // Close was called
	over    []bool // Close has returned
	epoch   []int  // connection faults so far
	downTil []time.Time
	locks   map[string]*sync.Mutex
	nth     map[string]int
	handles []*natsHandle
	final   bool
	faulty  bool
	ids     int
	maxPay  int
}

func setupNet(wd *w.World) *simnet.Net {
	n := simnet.New(wd.Plan.NetSeed)
	n.Base = time.Duration(wd.C("base")) * time.Microsecond
	n.Jitter = time.Duration(wd.C("jitter")) * time.Microsecond
	n.Frag = wd.C("frag")
	n.Fault = wd.Fault
	return n
}

func runNATS(wd *w.World) {
	x := &natsRun{wd: wd, net: setupNet(wd), locks: map[string]*sync.Mutex{}, nth: map[string]int{}, faulty: wd.C("faulty") > 0}
	x.srv = newServer(wd, x.net, wd.Plan.NetSeed+1)
	x.maxPay = 1 << 20
	if k := wd.C("maxpayload"); k > 0 {
		x.maxPay = k
		x.srv.maxPayload = k
	}
	nc := wd.C("ctrls")
	x.epoch = make([]int, nc)
	x.closed, x.over = make([]bool, nc), make([]bool, nc)
	x.downTil = make([]time.Time, nc)
	if wd.Plan.Seed%7 == 0 {
		// Nobody there: an error, not a controller.
		if _, err := nats.NewController("nats://127.0.0.99:4222"); err == nil {
			wd.Violate("connect", "a controller was made although no server could be reached")
		}
	}
	for i := 0; i < nc; i++ {
		x.net.Listen(addrOf(i), x.srv.serve)
		var o []nats.ControllerOption
		if g := natsGroups[wd.C(fmt.Sprintf("group%d", i))]; g != "" {
			o = append(o, nats.WithQueueGroup(g))
		}
		if i == 1 {
			o = append(o, nats.WithConnectionOpts(gonats.Name("x")))
		}
		c, err := nats.NewController("nats://"+addrOf(i), o...)
		for k := 0; err != nil && wd.Plan.Sched.Stall > 0 && k < 20; k++ {
			c, err = nats.NewController("nats://"+addrOf(i), o...)
		}
		if err != nil && wd.Plan.Sched.Stall > 0 {
			wd.Trivial = true
			return
		}
		if err != nil {
			wd.Violate("connect", "controller %d could not connect to a healthy server: %v", i, err)
			return
		}
		x.ctrls = append(x.ctrls, c)
	}
	per := make([][]w.Op, wd.C("actors"))
	for _, o := range wd.Plan.Ops {
		if a := int(o.A[0]); a < len(per) {
			per[a] = append(per[a], o)
		}
	}
	for i, l := range per {
		l := l
		wd.Go(fmt.Sprintf("actor%d", i), func() {
			for _, o := range l {
				x.do(o)
			}
		})
	}
	if !wd.Join(10 * time.Minute) {
		wd.Violate("hang", "calls did not return within 10 minutes: %s", wd.Pending())
		return
	}
	x.finish()
}

func (x *natsRun) do(o w.Op) {
	wd := x.wd
	arg := func(i int) int {
		if i < len(o.A) {
			return int(o.A[i])
		}
		return 0
	}
	nc := len(x.ctrls)
	switch o.K {
	case "sub":
		x.subscribe(arg(1)%nc, natsPatterns[arg(2)%len(natsPatterns)], arg(3), arg(4))
	case "cancel":
		if k := arg(1); k < len(x.handles) {
			x.cancel(x.handles[k])
		}
	case "pub":
		x.publish(arg(1)%nc, natsSubjects[arg(2)%len(natsSubjects)], arg(3))
	case "ext":
		n := max(arg(3), 1)
		for i := 0; i < n; i++ {
			x.ids++
			m := message(arg(2)+i, fmt.Sprintf("e%d", x.ids), x.faulty)
			x.srv.publish(&pubRec{Subject: natsSubjects[arg(1)%len(natsSubjects)], Header: wireHeader(headerList(m.Headers)), Data: m.Payload})
		}
		wd.Rec("ext %s x%d", natsSubjects[arg(1)%len(natsSubjects)], n)
	case "sleep":
		time.Sleep(time.Duration(arg(1)) * time.Millisecond)
	case "cut":
		c := arg(1) % nc
		x.epoch[c]++
		if x.net.Cut(addrOf(c)) > 0 {
			wd.Fault("connection cut")
		}
	case "down", "silent":
		c := arg(1) % nc
		x.epoch[c]++
		wd.Fault("server " + o.K)
		set := x.net.SetDown
		if o.K == "silent" {
			set = x.net.SetSilent
		}
		set(addrOf(c), true)
		x.net.Cut(addrOf(c))
		time.Sleep(time.Duration(arg(2)) * time.Millisecond)
		set(addrOf(c), false)
		x.epoch[c]++
	case "stall":
		c := arg(1) % nc
		x.epoch[c]++
		wd.Fault("network stall")
		x.net.Stall(addrOf(c), time.Duration(arg(2))*time.Millisecond)
	case "close":
		c := arg(1) % nc
		x.close(c)
	}
}

func (x *natsRun) close(c int) {
	x.closed[c] = true
	wd := x.wd
	at := wd.Now()
	wd.Rec("close %d", c)
	x.ctrls[c].Close()
	x.over[c] = true
	if d := wd.Now() - at; d > time.Minute {
		wd.Violate("close-slow", "Close took %v", d)
	}
}

func (x *natsRun) subscribe(c int, pattern string, mode, ends int) {
	wd := x.wd
	key := fmt.Sprintf("%d %s", c, pattern)
	if x.locks[key] == nil {
		x.locks[key] = &sync.Mutex{}
	}
	x.locks[key].Lock()
	defer x.locks[key].Unlock()
	if x.faulty && x.nth[key] > 0 {
		return // one of a kind, to tell them apart across reconnections
	}
	was := x.over[c]
	ctx, end := endingContext(wd, ends)
	sub, err := x.ctrls[c].Subscribe(ctx, pattern)
	end()
	if err != nil {
		if !x.closed[c] {
			wd.Violate("subscribe", "Subscribe(%q) failed on an open controller: %v", pattern, err)
		}
		return
	}
	if was {
		wd.Violate("closed-subscribe", "Subscribe(%q) succeeded on a closed controller", pattern)
		return
	}
	h := &natsHandle{name: fmt.Sprintf("h%d", len(x.handles)), ctrl: c, pattern: pattern, nth: x.nth[key], mode: mode, sub: sub, subbed: wd.Now()}
	x.nth[key]++
	x.handles = append(x.handles, h)
	wd.Rec("subscribed %s ctrl %d %s mode %d", h.name, c, pattern, mode)
	go x.read(h)
}

// endingContext returns the context of a subscription, which ends some time
// (us, 0: never) after end is called: the subscription goes on.
func endingContext(wd *w.World, us int) (ctx context.Context, end func()) {
	if us == 0 {
		return context.Background(), func() {}
	}
	ctx, cancel := context.WithCancel(context.Background())
	return ctx, func() {
		wd.Fault("context of a subscription ends")
		time.AfterFunc(time.Duration(us)*time.Microsecond, cancel)
	}
}

func (x *natsRun) read(h *natsHandle) {
	if h.mode == readLate {
		x.wd.Until(time.Hour, func() bool { return x.final })
	}
	for m := range h.sub.MessagesChannel() {
		h.got = append(h.got, m.BrokerMessage)
		h.gotAt = append(h.gotAt, x.wd.Now())
		x.wd.Rec("%s got %s", h.name, short(m.Payload))
		m.Ack()
		if x.final {
			continue
		}
		switch h.mode {
		case readSlow:
			time.Sleep(7 * time.Millisecond)
		case readPause:
			if len(h.got)%5 == 0 {
				time.Sleep(800 * time.Millisecond)
			}
		}
	}
	h.closed = true
}

func (x *natsRun) cancel(h *natsHandle) {
	wd := x.wd
	if !h.cancelled {
		h.cancelled = true
		h.calledAt = wd.Now()
	}
	at := wd.Now()
	wd.Rec("cancel %s", h.name)
	h.sub.Cancel(context.Background())
	h.done = true
	if d := wd.Now() - at; d > time.Minute {
		wd.Violate("cancel-slow", "Cancel of a subscription to %q took %v", h.pattern, d)
	}
}

func (x *natsRun) publish(c int, subject string, seed int) {
	wd := x.wd
	x.ids++
	m := message(seed, fmt.Sprintf("p%d", x.ids), x.faulty)
	var must []*natsHandle
	for _, h := range x.handles {
		if h.ctrl == c && !h.cancelled && matches(h.pattern, subject) {
			must = append(must, h)
		}
	}
	epoch, was, at := x.epoch[c], x.over[c], wd.Now()
	conn := x.srv.connOf(addrOf(c))
	n0 := len(x.srv.pubs)
	stalled := x.net.Stalled(addrOf(c))
	err := x.ctrls[c].Publish(context.Background(), subject, extensions.BrokerMessage{Headers: cloneHeaders(m.Headers), Payload: append([]byte(nil), m.Payload...)})
	took := wd.Now() - at
	wd.Rec("publish %s %s: %v", subject, short(m.Payload), err != nil)
	steady := epoch == x.epoch[c] && !was && !x.closed[c] && conn != nil && conn == x.srv.connOf(addrOf(c)) && !conn.c.Closed() && (epoch == 0 || time.Since(conn.since) > 5*time.Second+took) && !stalled && !x.net.Stalled(addrOf(c))
	size := len(m.Payload)
	if h := wireHeader(headerList(m.Headers)); h != nil {
		size += len(h)
	}
	if took > time.Minute {
		wd.Violate("publish-slow", "Publish took %v", took)
	}
	if err != nil {
		wd.Probe("publication refused")
		if steady && size <= x.maxPay && wd.Plan.Sched.Stall == 0 {
			wd.Violate("spurious", "Publish of %d bytes on a healthy connection failed: %v", size, err)
		}
		return
	}
	if was {
		wd.Violate("swallowed", "Publish on a closed controller returned nil")
		return
	}
	if size > x.maxPay {
		wd.Violate("swallowed", "Publish of %d bytes returned nil although the server takes %d at most", size, x.maxPay)
		return
	}
	if !steady {
		return
	}
	var mine []*pubRec
	for _, p := range x.srv.pubs[n0:] {
		if p.Conn != nil && p.Conn.addr == addrOf(c) && p.Subject == subject && sameContent(m, parseHeader(p.Header), p.Data) {
			mine = append(mine, p)
		}
	}
	if len(mine) == 0 {
		wd.Violate("lost", "Publish(%q) of %s returned nil on a healthy connection but the server does not have the message as given", subject, short(m.Payload))
		return
	}
	if x.faulty && len(mine) > 1 {
		wd.Violate("twice", "Publish(%q) stored the message %d times", subject, len(mine))
	}
	for _, h := range must {
		if h.cancelled {
			continue
		}
		ok := false
		group := natsGroups[wd.C(fmt.Sprintf("group%d", c))]
		for _, p := range mine {
			for _, s := range p.Routed {
				if s.c.addr == addrOf(c) && s.subject == h.pattern || group != "" && s.queue == group {
					ok = true
				}
			}
		}
		if !ok {
			wd.Violate("not-live", "a message to %q published after Subscribe(%q) had returned did not reach that subscription's queue on the server", subject, h.pattern)
		}
	}
}

func cloneHeaders(h map[string][]byte) map[string][]byte {
	if h == nil {
		return nil
	}
	c := map[string][]byte{}
	for k, v := range h {
		c[k] = append([]byte(nil), v...)
	}
	return c
}

// connOf gives the connection at an address.
func (s *server) connOf(addr string) *srvConn {
	for i := len(s.conns) - 1; i >= 0; i-- {
		if s.conns[i].addr == addr {
			return s.conns[i]
		}
	}
	return nil
}

// connected tells whether the newest connection at an address works.
func (s *server) connected(addr string) bool {
	for i := len(s.all) - 1; i >= 0; i-- {
		if k := s.all[i]; k.addr == addr {
			return !k.c.Closed() && k.pinged && time.Since(k.since) > 3*time.Second
		}
	}
	return false
}

// newest tells whether the newest connection at an address is open.
func (s *server) newest(addr string) bool {
	for i := len(s.all) - 1; i >= 0; i-- {
		if s.all[i].addr == addr {
			return !s.all[i].c.Closed()
		}
	}
	return false
}

// subsOf gives the incarnations of the k-th subscription to a pattern.
func (s *server) subsOf(addr, pattern string, k int) []*srvSub {
	var sids []string
	by := map[string][]*srvSub{}
	for _, u := range s.subs {
		if u.c.addr == addr && u.subject == pattern {
			if by[u.sid] == nil {
				sids = append(sids, u.sid)
			}
			by[u.sid] = append(by[u.sid], u)
		}
	}
	if k >= len(sids) {
		return nil
	}
	return by[sids[k]]
}

func (x *natsRun) finish() {
	wd := x.wd
	// Reconnections. Where goroutines stall for seconds, handshakes time out
	// again and again; without stalls they may not take long.
	x.net.Base, x.net.Jitter, x.net.Frag = 200*time.Microsecond, 0, 0
	wd.Settle(20 * time.Second)
	up := wd.Until(3*time.Minute, func() bool {
		for c := range x.ctrls {
			if !x.closed[c] && !x.srv.connected(addrOf(c)) {
				return false
			}
		}
		return true
	})
	wd.Settle(5 * time.Second)
	if !up {
		if wd.Plan.Sched.Stall == 0 {
			wd.Violate("down", "a controller was not connected again 3 minutes after the network was")
		}
		wd.Probe("not reconnected")
	}
	// Subscriptions are on the server again, and deliver.
	for _, h := range x.handles {
		if h.cancelled || x.closed[h.ctrl] || !up {
			continue
		}
		l := x.srv.subsOf(addrOf(h.ctrl), h.pattern, h.nth)
		live := 0
		for _, s := range l {
			if !s.gone {
				live++
				if g := natsGroups[wd.C(fmt.Sprintf("group%d", h.ctrl))]; s.queue != g {
					wd.Violate("group", "subscription to %q has the queue group %q on the server, not %q", h.pattern, s.queue, g)
				}
			}
		}
		if live != 1 {
			wd.Violate("gone", "subscription %s to %q, not cancelled, has %d live subscriptions on the server", h.name, h.pattern, live)
		}
	}
	for _, c := range x.srv.conns {
		for _, s := range c.subs {
			if strings.HasPrefix(s.subject, "_INBOX.") {
				continue
			}
			found := false
			for _, h := range x.handles {
				if addrOf(h.ctrl) == c.addr && h.pattern == s.subject && !h.cancelled {
					found = true
				}
			}
			if !found {
				wd.Violate("dangling", "the server still has a subscription to %q though it was cancelled", s.subject)
			}
		}
	}
	x.final = true
	for i, s := range natsSubjects {
		x.srv.publish(&pubRec{Subject: s, Data: []byte(fmt.Sprintf("probe%d", i))})
	}
	wd.Settle(5 * time.Second)
	wd.Until(10*time.Minute, func() bool {
		for _, h := range x.handles {
			if !h.cancelled && !x.closed[h.ctrl] && !x.complete(h) {
				return false
			}
		}
		return true
	})
	for _, h := range x.handles {
		x.check(h, x.closed[h.ctrl] || h.cancelled || !up)
	}
	for _, h := range x.handles {
		h := h
		wd.Go("cancel", func() { x.cancel(h) })
	}
	if !wd.Join(5 * time.Minute) {
		wd.Violate("hang", "Cancel did not return: %s", wd.Pending())
		return
	}
	wd.Settle(10 * time.Second)
	for _, h := range x.handles {
		if !h.closed {
			wd.Violate("open", "the messages of %q were not closed by Cancel", h.pattern)
		}
	}
	for _, c := range x.srv.conns {
		for _, s := range c.subs {
			if !strings.HasPrefix(s.subject, "_INBOX.") {
				wd.Violate("dangling", "the server still has a subscription to %q though all were cancelled", s.subject)
			}
		}
	}
	for i := range x.ctrls {
		i := i
		wd.Go("close", func() { x.close(i) })
	}
	if !wd.Join(5 * time.Minute) {
		wd.Violate("hang", "Close did not return")
		return
	}
	wd.Settle(10 * time.Second)
	for i := range x.ctrls {
		// nats.go leaves connections open whose handshake timed out; the one
		// in use is the newest.
		if n := x.net.Conns(addrOf(i)); n > 0 && (!x.faulty || x.srv.newest(addrOf(i))) {
			wd.Violate("conns", "%d connections are still open after Close", n)
		}
	}
	if x.srv.err != "" {
		wd.Violate("protocol", "the server was sent %s", x.srv.err)
	}
}

// complete tells whether a subscription received all that was sent over the
// connection that stayed up.
func (x *natsRun) complete(h *natsHandle) bool {
	l := x.srv.subsOf(addrOf(h.ctrl), h.pattern, h.nth)
	if len(l) == 0 {
		return true
	}
	last := l[len(l)-1].sent
	if !x.faulty {
		return len(h.got) >= len(last)
	}
	got := map[string]bool{}
	for _, m := range h.got {
		got[string(m.Payload)] = true
	}
	for _, p := range last {
		if !got[string(p.Data)] {
			return false
		}
	}
	return true
}

// check compares what a subscription received with what the server sent it.
func (x *natsRun) check(h *natsHandle, partial bool) {
	wd := x.wd
	var sent []*pubRec
	for _, s := range x.srv.subsOf(addrOf(h.ctrl), h.pattern, h.nth) {
		sent = append(sent, s.sent...)
	}
	same := func(i, j int) bool {
		return sameContent(h.got[i], parseHeader(sent[j].Header), sent[j].Data)
	}
	if !x.faulty {
		if len(h.got) > len(sent) {
			wd.Violate("extra", "%s (%q) received %d messages, the server sent it %d", h.name, h.pattern, len(h.got), len(sent))
			return
		}
		for i := range h.got {
			if !same(i, i) {
				wd.Violate("content", "message %d of %s (%q) is %s %q, the server sent %s %q", i, h.name, h.pattern, short(h.got[i].Payload), headerList(h.got[i].Headers), short(sent[i].Data), headerList(parseHeader(sent[i].Header)))
				return
			}
		}
		if !partial && len(h.got) < len(sent) {
			wd.Violate("missing", "%s (%q) received %d messages, the server sent it %d", h.name, h.pattern, len(h.got), len(sent))
		}
		return
	}
	j := 0
	for i := range h.got {
		for j < len(sent) && !same(i, j) {
			j++
		}
		if j == len(sent) {
			wd.Violate("content", "message %d of %s (%q), %s, was not sent by the server, or is out of order or delivered twice", i, h.name, h.pattern, short(h.got[i].Payload))
			return
		}
		j++
	}
	if partial {
		return
	}
	if !x.complete(h) {
		wd.Violate("missing", "%s (%q) did not receive all that the server sent over the connection that stayed up", h.name, h.pattern)
	}
}

func randBytes(r *w.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}
