package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"
	"verifsim/w"
)

// The versions scenario: several versions subscribe to and cancel channels of
// one version wrapper, concurrently, while messages of known and unknown
// versions come in and others are published.
//
// Cfg: cap, clean (us), key (custom header), def (1 + default version, 0 none).
// Ops (all: A lane gap):
//   sub    slot ch ver fail ctx ctl read     ctx: 0 background, 1 done, >1 done after that many us; read: reader's delay (us), -1: reads nothing before the cancellation or the end
//   cancel slot timeout                      timeout: -1 background, 0 done, us
//   msg    n ch ver delay wait
//   burst  n ch ver count
//   pub    n ch ver fail delay headers shared

var versionNames = []string{"1.2.3", "9.0.0", "2.0.0-rc.1", "unknown", "", "-", // "-": no header at all
	"v1.2.3", "1.2", "1", "9.0.0 ", " 2.0.0-rc.1", "1.2.3-rc1", "1.2.30", "V9.0.0", "2.0.0-rc.1\x00", "9.0.1", "02.0.0-rc.1", "2.0.0-RC.1", "2.0.0", "2.0.0-rc.2", "1.2.3+b1", "1,2,3"} // nearly known

const nVersions = 3

func init() {
	w.Register(&w.Scenario{Name: "versions", Props: []string{"C08", "C09"}, Gen: genVersions, Run: runVersions, Weight: 4})
	w.Register(&w.Scenario{Name: "versions", Props: []string{"C17"}, Gen: genVersions, Run: runVersions, Weight: 1})
}

func genVersions(r *w.Rand, p *w.Plan) {
	p.Cfg["cap"] = int64(w.Pick(r, 0, 1, 8, 64))
	p.Cfg["clean"] = int64(w.Pick(r, 0, 0, 100, 20000, 500000, 12_000_000))
	p.Cfg["key"] = int64(w.Pick(r, 0, 0, 1))
	p.Cfg["def"] = int64(w.Pick(r, 0, 1, 2, 3))
	lanes := r.Range(1, 5)
	span := w.Pick(r, 1, 20, 500, 20000)
	chans := w.Pick(r, 1, 1, 2, 2, r.Range(3, 6))
	p.Cfg["chans"] = int64(max(chans, 2))
	vers := r.Range(1, nVersions)
	us := func() int { return w.Pick(r, 0, 0, 1, 10, 300, 4000, 40000) }
	b2i := func(p int) int {
		if r.P(p) {
			return 1
		}
		return 0
	}
	type live struct{ slot, lane int }
	var open []live
	slot := 0
	for i, n := 1, r.Range(3, 26); i <= n; i++ {
		lane, gap := r.N(lanes), r.N(span)
		k := r.N(12)
		if p.Prop == "C08" {
			k = w.Pick(r, 0, 1, 4, 7, 7, 8, 8, 9, 10, 11)
		}
		switch {
		case k < 4:
			slot++
			ctx := 0
			if r.P(25) {
				ctx = w.Pick(r, 1, 1, 50, 3000)
			}
			read := 0
			if r.P(20) {
				read = w.Pick(r, 10, 2000, -1, -1)
			}
			p.Ops = append(p.Ops, w.MkOp("sub", lane, gap, slot, r.N(chans), r.N(vers), b2i(8), ctx, b2i(25), read))
			open = append(open, live{slot, lane})
		case k < 7:
			if len(open) == 0 {
				continue
			}
			i := r.N(len(open))
			l := open[i]
			if r.P(80) {
				open = append(open[:i], open[i+1:]...)
			}
			if r.P(60) {
				lane = l.lane
			}
			p.Ops = append(p.Ops, w.MkOp("cancel", lane, gap, l.slot, w.Pick(r, -1, -1, -1, 0, 50, 100000)))
		case k < 10 || p.Prop == "C09":
			v := r.N(vers)
			if r.P(35) {
				v = nVersions + w.Pick(r, 0, 1, 2, r.N(len(versionNames)-nVersions))
			}
			if r.P(8) {
				p.Ops = append(p.Ops, w.MkOp("burst", lane, gap, 10000+200*i, r.N(chans), v, r.Range(60, 150)))
				continue
			}
			p.Ops = append(p.Ops, w.MkOp("msg", lane, gap, i, r.N(chans), v, us()))
		default:
			v := r.N(vers)
			if r.P(10) {
				v = 5
			}
			p.Ops = append(p.Ops, w.MkOp("pub", lane, gap, i, r.N(chans), v, b2i(15), us(), r.N(4), b2i(25)))
		}
	}
}

type slotState struct {
	mu              sync.Mutex // what a user must bring: one call after the other on one subscription
	id, ch, ver     int
	ctl             Ctl
	raw             extensions.BrokerChannelSubscription
	subCall, subRet int // stamps, 0: not yet
	err             error
	opened          bool
	cancelCall      int
	cancelRet       int // of a cancel that waited until the end
	closed          int // the stream was seen closed
	got             []int
}

// handOver orders this call on the subscription with the previous ones, for
// the race detector: the users of a subscription share it in an orderly way.
func (s *slotState) handOver() {
	s.mu.Lock()
	s.mu.Unlock() //nolint:staticcheck // empty on purpose
}

type versions struct {
	wd    *w.World
	b     *simBroker
	slots map[int]*slotState
	chans []string
	drops map[int]bool // deliveries logged as dropped
	errs  int
	key   string
}

// Info implements extensions.Logger.
func (v *versions) Info(context.Context, string, ...extensions.LogInfo) {}

// Warning implements extensions.Logger.
func (v *versions) Warning(context.Context, string, ...extensions.LogInfo) {}

// Error implements extensions.Logger.
func (v *versions) Error(ctx context.Context, msg string, _ ...extensions.LogInfo) {
	v.errs++
	if d := v.b.byCtx(ctx); d != nil {
		v.drops[d.id] = true
		own := v.versionOf(d)
		if got := ctxStr(ctx, extensions.ContextKeyIsVersion); own != "" && got != own || got == "unknown" && own != "unknown" {
			v.wd.For("C08 C17", "log-version", "the log about dropping message %d, of version %q, names version %q, which is another message's", d.n, own, got)
		}
	}
}

func (v *versions) versionOf(d *delivery) string { return string(d.msg.Headers[v.key]) }

// target gives the version a delivery belongs to, "" if none.
func (v *versions) target(d *delivery) string {
	if s := v.versionOf(d); s != "" {
		return s
	}
	if def := v.wd.C("def"); def > 0 {
		return versionNames[def-1]
	}
	return ""
}

func runVersions(wd *w.World) {
	v := &versions{wd: wd, b: newSimBroker(wd), slots: map[int]*slotState{}, drops: map[int]bool{}, key: versioning.DefaultVersionHeaderKey}
	b := v.b
	b.capacity = wd.C("cap")
	b.cleanDelay = func(int) time.Duration { return time.Duration(wd.C("clean")) * time.Microsecond }
	pks := []*Package{packages["simv3"], packages["simv3b"]}
	text, ping := pks[0].Addr("text", nil), pks[0].Addr("ping", nil)
	v.chans = []string{text, ping, strings.ToUpper(text), text + ".1", "other", ping + " "}[:max(wd.C("chans"), 2)]
	chOps := []string{"text", "ping"}
	opts := []versioning.WrapperOption{versioning.WithLogger(v)}
	if wd.C("key") == 1 {
		v.key = "x-my-version"
		opts = append(opts, versioning.WithVersionHeaderKey(v.key))
	}
	if d := wd.C("def"); d > 0 {
		opts = append(opts, versioning.WithDefaultVersion(versionNames[d-1]))
	}
	// Faults are told by the number in the caller's context.
	const slotBase, pubBase = 1000, 50000
	failSlot, failPub := map[int]bool{}, map[int]bool{}
	pubDelay := map[int]time.Duration{}
	published := map[int][]extensions.BrokerMessage{}
	nSubs := map[string]int{}
	b.onPublish = func(ctx context.Context, addr string, n int, msg extensions.BrokerMessage, err error) {
		published[n] = append(published[n], cloneMsg(msg))
	}
	b.failPub = func(k int, addr string, n int) error {
		if failPub[n] {
			return errBrokerPublish
		}
		return nil
	}
	bc := hooked{b, func(ctx context.Context) { nap(pubDelay[numCtx(ctx)]) },
		func(ctx context.Context, addr string) error {
			nSubs[addr]++
			if failSlot[numCtx(ctx)-slotBase] {
				wd.Fault("subscribe refused")
				return errBrokerSubscribe
			}
			return nil
		}, func(ctx context.Context, s *bsub) {}}
	vw := versioning.NewWrapper(bc, opts...)
	lanes := map[int][]w.Op{}
	subs := 0
	for _, o := range wd.Plan.Ops {
		lanes[o.I(0)] = append(lanes[o.I(0)], o)
		switch o.K {
		case "sub":
			subs++
			v.slots[o.I(2)] = &slotState{id: o.I(2), ch: o.I(3), ver: o.I(4)}
			failSlot[o.I(2)] = o.I(5) == 1
		case "pub":
			failPub[pubBase+o.I(2)] = o.I(5) == 1
			pubDelay[pubBase+o.I(2)] = o.D(6)
		}
	}
	wd.Trivial = subs == 0
	stalls := wd.Plan.Sched.Stall > 0

	over := false
	read := func(s *slotState, delay time.Duration) {
		if delay < 0 {
			wd.Fault("stalled reader")
			wd.Until(20000*time.Second, func() bool { return over || s.cancelCall != 0 })
		}
		for m := range s.raw.MessagesChannel() {
			d := b.byHeader(m.BrokerMessage)
			if d == nil || msgStr(d.msg) != msgStr(m.BrokerMessage) {
				wd.For("C08", "changed", "slot %d received %s, which was not delivered", s.id, msgStr(m.BrokerMessage))
				continue
			}
			wd.Rec("slot %d (version %s) gets delivery %d", s.id, versionNames[s.ver], d.id)
			s.got = append(s.got, d.id)
			m.Ack()
			if d.acks != 1 {
				wd.For("C08", "acknowledgement", "acknowledging delivery %d did not reach the broker", d.id)
			}
			nap(delay)
		}
		s.closed = b.tick()
		wd.Rec("slot %d's stream is closed", s.id)
	}
	// subscribe opens a slot.
	subscribe := func(s *slotState, ctxKind int, ctl bool, delay time.Duration) {
		ctx := context.WithValue(context.Background(), keyNum, slotBase+s.id)
		if ctxKind == 1 {
			c, cancel := context.WithCancel(ctx)
			cancel()
			ctx = c
			wd.Fault("subscribe with a done context")
		} else if ctxKind > 1 {
			c, cancel := context.WithCancel(ctx)
			time.AfterFunc(time.Duration(ctxKind)*time.Microsecond, cancel)
			ctx = c
			wd.Fault("subscribe context done later")
		}
		s.subCall = b.tick()
		wd.Rec("slot %d subscribes to %s, version %s", s.id, v.chans[s.ch], versionNames[s.ver])
		if ctl && s.ver < len(pks) && s.ch < len(chOps) {
			c, err := pks[s.ver].NewApp(vw, CtlOpts{})
			if err != nil {
				panic(err)
			}
			s.err = c.Subscribe(ctx, chOps[s.ch], nil, func(ctx context.Context, op string, m any) error {
				d := b.byCtx(ctx)
				if d == nil || d.n < pubBase && NumOf(op, m) != d.n {
					wd.For("C08", "changed", "the controller of slot %d received %s, which was not delivered", s.id, Canon(m))
					return nil
				}
				wd.Rec("controller of slot %d (version %s) gets delivery %d", s.id, versionNames[s.ver], d.id)
				s.got = append(s.got, d.id)
				nap(delay)
				return nil
			})
			s.ctl = c
		} else {
			ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, versionNames[s.ver])
			s.raw, s.err = vw.Subscribe(ctx, v.chans[s.ch])
			if s.err == nil {
				wd.Go(fmt.Sprintf("reader %d", s.id), func() { read(s, delay) })
			}
		}
		s.handOver()
		s.subRet = b.tick()
		s.opened = s.err == nil
		wd.Rec("slot %d: %v", s.id, s.err)
		v.checkSubscribe(s, failSlot[s.id])
	}
	cancel := func(s *slotState, timeout int) {
		ctx := context.Background()
		if timeout >= 0 {
			c, cf := context.WithTimeout(ctx, time.Duration(timeout)*time.Microsecond)
			defer cf()
			ctx = c
		}
		if s.cancelCall == 0 {
			s.cancelCall = b.tick()
		}
		wd.Rec("slot %d is cancelled (%d)", s.id, timeout)
		t0 := wd.Now()
		s.handOver()
		if s.ctl != nil {
			s.ctl.Unsubscribe(ctx, chOps[s.ch], nil)
		} else {
			s.raw.Cancel(ctx)
		}
		s.handOver()
		wd.Rec("slot %d: cancel returned", s.id)
		if timeout < 0 && s.cancelRet == 0 {
			s.cancelRet = b.tick()
			v.checkReleased(s)
		}
		if took := wd.Now() - t0; timeout < 0 && !stalls && took > 1000*time.Second {
			wd.For("C09", "cancel-held", "the Cancel of slot %d returned only %v after its call (unread messages of other versions must not hold it)", s.id, took)
		}
		if took := wd.Now() - t0; timeout >= 0 && !stalls && took > time.Duration(timeout)*time.Microsecond+10*time.Millisecond {
			wd.For("C09", "cancel-late", "the Cancel of slot %d returned %v after its call with a context of %d us", s.id, took, timeout)
		}
	}
	inject := func(n, ch, ver int, delay time.Duration) []*delivery {
		r := w.NewRand(uint64(n))
		m := extensions.BrokerMessage{Headers: map[string][]byte{"tag": []byte("t")}, Payload: []byte(fmt.Sprintf("#%d#%d", n, r.N(1000)))}
		if ver != 5 {
			m.Headers[v.key] = []byte(versionNames[ver])
		}
		if r.P(10) {
			m.Headers["x-extra"] = []byte{0, 255}
		}
		if ver >= nVersions {
			wd.Fault("message of unknown or missing version")
		}
		b.fan = func(int, *bsub) []time.Duration { return []time.Duration{delay} }
		n0 := len(b.deliveries)
		b.inject(v.chans[ch], n, "", m)
		return b.deliveries[n0:]
	}
	sharedMsg := extensions.BrokerMessage{Headers: map[string][]byte{"h": []byte("x")}, Payload: []byte("shared")}
	for lane := 0; lane < 8; lane++ {
		ops := lanes[lane]
		if len(ops) == 0 {
			continue
		}
		wd.Go("lane", func() {
			for _, o := range ops {
				time.Sleep(o.D(1))
				switch o.K {
				case "sub":
					if s := v.slots[o.I(2)]; s.subCall == 0 {
						subscribe(s, o.I(6), o.I(7) == 1, o.D(8))
					}
				case "cancel":
					s := v.slots[o.I(2)]
					if s == nil || !s.opened || s.cancelCall != 0 && s.ctl != nil {
						continue
					}
					if s.cancelCall != 0 {
						wd.Probe("cancelled again")
					}
					cancel(s, o.I(3))
				case "msg":
					inject(o.I(2), o.I(3), o.I(4), o.D(5))
				case "burst":
					for k := 0; k < o.I(5); k++ {
						inject(o.I(2)+k, o.I(3), o.I(4), 0)
					}
				case "pub":
					n := pubBase + o.I(2)
					ctx := context.WithValue(context.Background(), keyNum, n)
					want := ""
					if ver := o.I(4); ver < nVersions {
						want = versionNames[ver]
						ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, want)
					}
					m := extensions.BrokerMessage{Payload: []byte(fmt.Sprintf("pub %d", n))}
					if n%7 == 0 {
						m.Payload = [][]byte{nil, {}}[n%2]
						wd.Probe("message without a payload published")
					}
					switch o.I(7) {
					case 1:
						m.Headers = map[string][]byte{}
					case 2:
						m.Headers = map[string][]byte{"a": []byte("b"), "empty": {}}
					case 3:
						m.Headers = map[string][]byte{v.key: []byte("stale")}
					}
					if o.I(8) == 1 {
						m = sharedMsg
						wd.Probe("one message published by several callers")
					}
					before := cloneMsg(m)
					err := vw.Publish(ctx, v.chans[o.I(3)], m)
					if (err != nil) != failPub[n] || err != nil && !errors.Is(err, errBrokerPublish) {
						wd.For("C08", "publish-outcome", "publication %d returned %v (refused by the broker: %v)", n, err, failPub[n])
					}
					exp := cloneMsg(before)
					if exp.Headers == nil {
						exp.Headers = map[string][]byte{}
					}
					if want != "" {
						exp.Headers[v.key] = []byte(want)
					} else if o.I(8) == 1 {
						delete(exp.Headers, v.key)
					}
					if l := published[n]; len(l) != 1 {
						wd.For("C08", "publish-count", "publication %d reached the broker %d times", n, len(l))
					} else if o.I(8) == 1 && want == "" {
						// whoever published it first may have left its version on it
					} else if msgStr(l[0]) != msgStr(exp) {
						wd.For("C08", "publish-content", "publication %d reached the broker as %s instead of %s", n, msgStr(l[0]), msgStr(exp))
					}
					// Nothing but the version may have been added to the caller's message.
					strip := func(m extensions.BrokerMessage) string { c := cloneMsg(m); delete(c.Headers, v.key); return msgStr(c) }
					if strip(m) != strip(before) {
						wd.For("C08", "publish-mutates", "publication %d changed the caller's message from %s to %s", n, msgStr(before), msgStr(m))
					}
				}
			}
		})
	}
	idle := func() bool {
		return strings.Join(nonReaders(wd.Pending()), "") == ""
	}
	if !wd.Until(1000*time.Second, idle) {
		runtime.SimQuiesce()
		if !wd.Until(1000*time.Second, idle) {
			wd.For("C09", "stuck", "calls did not end: %s", wd.Pending())
		}
	}
	over = true
	runtime.SimQuiesce()
	time.Sleep(100 * time.Second)
	v.checkHeld("after all the calls")
	v.checkDeliveries()
	if wd.Failed() {
		return
	}

	// Every version still subscribed works, whatever happened before.
	n := 9000
	for round := 0; round < 2; round++ {
		for ch := range v.chans {
			for _, ver := range []int{3, 5, 0, 4, 1, 3, 2, 0} {
				n++
				inject(n, ch, ver, 0)
			}
		}
	}
	time.Sleep(100 * time.Second)
	v.checkDeliveries()
	for _, s := range v.sorted() {
		if s.opened && s.cancelCall == 0 {
			s := s
			wd.Go(fmt.Sprintf("canceller %d", s.id), func() { cancel(s, -1) })
		}
	}
	if !wd.Join(1000 * time.Second) {
		wd.For("C09", "stuck", "the last cancellations did not end: %s", wd.Pending())
	}
	time.Sleep(100 * time.Second)
	v.checkHeld("after everything has been cancelled")
	for _, s := range b.subs {
		if s.cleanups > 1 {
			wd.For("C09", "cancelled-twice", "the broker subscription %d to %s was cancelled %d times", s.id, s.addr, s.cleanups)
		}
	}
	v.checkDeliveries()
	if wd.Failed() {
		return
	}
	// And everything can start again.
	for ch := range v.chans {
		s := &slotState{id: 500 + ch, ch: ch, ver: ch % nVersions}
		v.slots[s.id] = s
		subscribe(s, 0, ch == 1, 0)
		if s.err != nil {
			wd.For("C09", "resubscribe", "subscribing to %s once everything has been cancelled failed: %v", v.chans[ch], s.err)
			continue
		}
		for _, ver := range []int{3, s.ver, 5, s.ver} {
			n++
			inject(n, ch, ver, 0)
		}
		time.Sleep(10 * time.Second)
		v.checkDeliveries()
		v.checkHeld("with one last version subscribed")
		ok := false
		wd.Go("last", func() { cancel(s, -1); ok = true })
		if !wd.Until(1000*time.Second, func() bool { return ok }) {
			wd.For("C09", "stuck", "the last Cancel on %s did not return", v.chans[ch])
			return
		}
		time.Sleep(100 * time.Second)
		v.checkHeld("at the end")
	}
}

func nonReaders(p string) []string {
	var l []string
	for _, s := range strings.Fields(p) {
		if strings.HasPrefix(s, "lane") || strings.HasPrefix(s, "canceller") || strings.HasPrefix(s, "last") {
			l = append(l, s)
		}
	}
	return l
}

func (v *versions) sorted() []*slotState {
	var l []*slotState
	for _, s := range v.slots {
		l = append(l, s)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// checkSubscribe judges the outcome of a subscribe call.
func (v *versions) checkSubscribe(s *slotState, refused bool) {
	sure, maybe := 0, 0
	for _, o := range v.sorted() {
		if o == s || o.ch != s.ch || o.ver != s.ver || o.subCall == 0 {
			continue
		}
		if o.subRet != 0 && !o.opened {
			continue
		}
		// subscribed during the whole call
		if o.subRet != 0 && o.subRet < s.subCall && o.cancelCall == 0 {
			sure = o.id
		}
		// not surely gone before the call
		gone := o.cancelRet
		if o.closed != 0 && (gone == 0 || o.closed < gone) {
			gone = o.closed
		}
		if gone == 0 || gone > s.subCall {
			maybe = o.id
		}
	}
	// A failing call in progress may be seen by another one for a moment.
	for _, o := range v.sorted() {
		if o != s && o.ch == s.ch && o.ver == s.ver && o.subCall != 0 && (o.subRet == 0 || o.subRet > s.subCall) {
			maybe = o.id
		}
	}
	switch {
	case s.err == nil && sure != 0:
		v.wd.For("C09", "double-version", "slot %d subscribed version %s of %s although slot %d holds it", s.id, versionNames[s.ver], v.chans[s.ch], sure)
	case s.err == nil:
		v.wd.Probe("version subscribed")
	case errors.Is(s.err, extensions.ErrAlreadySubscribedChannel) && maybe != 0:
		v.wd.Probe("version already subscribed")
	case errors.Is(s.err, errBrokerSubscribe) && refused:
		v.wd.Probe("version refused by the broker")
	default:
		v.wd.For("C09", "subscribe", "subscribing slot %d (version %s of %s) failed: %v", s.id, versionNames[s.ver], v.chans[s.ch], s.err)
	}
}

// checkReleased verifies, when a cancellation has completed and nothing else
// uses the channel, that the broker has been released.
func (v *versions) checkReleased(s *slotState) {
	for _, o := range v.sorted() {
		if o == s || o.ch != s.ch || o.subCall == 0 || o.subRet != 0 && !o.opened {
			continue
		}
		if o.cancelRet == 0 {
			return
		}
	}
	if v.wd.C("clean") > 10_000_000 {
		return // the broker needs longer than the wrapper waits for it
	}
	for _, x := range v.b.subs {
		if x.addr == v.chans[s.ch] && !x.cleaned {
			v.wd.For("C09", "not-released", "the cancellation of slot %d, the last version of %s, has completed but the broker still holds its subscription %d", s.id, x.addr, x.id)
		}
	}
	v.wd.Probe("last version released")
}

// checkHeld compares the broker's subscriptions with the open versions, at rest.
func (v *versions) checkHeld(when string) {
	want := map[string]int{}
	for _, s := range v.slots {
		if s.opened && s.cancelCall == 0 {
			want[v.chans[s.ch]] = 1
		}
	}
	got := map[string]int{}
	for _, a := range v.b.live() {
		got[a]++
	}
	for _, c := range v.chans {
		if want[c] != got[c] {
			v.wd.For("C09", "held", "%s, the broker holds %d subscriptions to %s instead of %d", when, got[c], c, want[c])
		}
	}
	for _, s := range v.sorted() {
		if s.opened && s.cancelCall != 0 && s.ctl == nil && s.closed == 0 {
			v.wd.For("C09", "not-closed", "%s, the stream of slot %d is not closed although it has been cancelled", when, s.id)
		}
		if s.opened && s.cancelCall == 0 && s.closed != 0 {
			v.wd.For("C09", "closed", "%s, the stream of slot %d is closed although nobody cancelled it", when, s.id)
		}
	}
}

// abandoned tells whether a delivery is to a subscription that the broker was
// still ending, longer than the wrapper waits for it, after another was opened.
func (v *versions) abandoned(d *delivery) bool {
	if v.wd.C("clean") <= 10_000_000 {
		return false
	}
	for _, x := range v.b.subs {
		if x.addr == d.addr && x.id > d.sub.id {
			return true
		}
	}
	return false
}

// checkDeliveries compares what each version got with what the broker delivered.
func (v *versions) checkDeliveries() {
	wd := v.wd
	gotBy := map[int]int{}
	for _, s := range v.sorted() {
		last := -1
		for _, id := range s.got {
			d := v.b.deliveries[id]
			if by, dup := gotBy[id]; dup {
				wd.For("C08", "twice", "delivery %d was given to slot %d and to slot %d", id, by, s.id)
			}
			gotBy[id] = s.id
			if d.addr != v.chans[s.ch] || v.target(d) != versionNames[s.ver] {
				wd.For("C08", "wrong-version", "slot %d (version %s of %s) was given message %d, of version %q of %s", s.id, versionNames[s.ver], v.chans[s.ch], d.n, v.versionOf(d), d.addr)
			}
			if id < last {
				wd.For("C08", "order", "slot %d was given delivery %d after delivery %d", s.id, id, last)
			}
			last = id
		}
	}
	dropped := 0
	for _, d := range v.b.deliveries {
		if d.start == 0 || d.late {
			continue
		}
		_, got := gotBy[d.id]
		for _, s := range v.sorted() {
			if !got && s.opened && s.cancelCall == 0 && s.subRet < d.start && v.chans[s.ch] == d.addr && v.target(d) == versionNames[s.ver] && !v.abandoned(d) {
				wd.For("C08,C09", "lost", "delivery %d (message %d, version %q) on %s was not given to slot %d although it is subscribed", d.id, d.n, v.versionOf(d), d.addr, s.id)
			}
		}
		known := false
		for _, s := range v.slots {
			known = known || s.subCall != 0 && v.chans[s.ch] == d.addr && v.target(d) == versionNames[s.ver]
		}
		if d.sub.cleanups == 0 && d.end != 0 && !known {
			dropped++
		}
		if d.sub.cleanups == 0 && d.end != 0 && !known && !v.drops[d.id] && v.errs < dropped {
			wd.For("C08", "not-logged", "delivery %d (message %d, version %q) was dropped without a log", d.id, d.n, v.versionOf(d))
		}
		if v.drops[d.id] {
			wd.Probe("message dropped")
			if !got && d.naks > 0 {
				wd.For("C08", "dropped-refused", "delivery %d (message %d, version %q) was dropped, and refused to the broker, which would deliver it again for ever", d.id, d.n, v.versionOf(d))
			}
			if got {
				wd.For("C08", "dropped-and-given", "delivery %d was logged as dropped, and given to slot %d", d.id, gotBy[d.id])
			}
		}
	}
}
