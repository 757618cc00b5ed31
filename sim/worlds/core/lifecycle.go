package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifsim/w"
)

// The lifecycle scenario: a history of subscribe, unsubscribe, subscribe-all,
// unsubscribe-all and close calls on one controller, one at a time (some of
// them made by a handler), with broker refusals, expired contexts and traffic.
//
// Cfg: pkg, side (0 app, 1 user), cap, clean (us).
// Ops:
//   sub      A fail expired    S op par...
//   unsub    A inside expired  S op par...
//   suball   A failAt(-1) expired
//   unsuball A inside expired
//   close    A inside expired
//   burst    A n delay hdelay  S op par...     messages, not waited for
//   msg      A n               S op par...     one message, waited for

func init() {
	w.Register(&w.Scenario{Name: "lifecycle", Props: []string{"C07"}, Gen: genLifecycle, Run: runLifecycle})
}

func recvOps(v, side int) []string {
	if side == 0 {
		l := []string{"text", "small", "big", "ratio", "ratio32", "order", "list", "stamp", "room", "seat", "ping", "pingb",
			"extra", "counts", "meta", "when", "level", "label", "rows", "union", "pingd", "traced", "chat", "mixed", "knots", "branded", "twisty"}
		if v == 3 {
			l = append(l, "ask", "call", "callp")
		}
		return l
	}
	if v == 2 {
		return []string{"news", "pong", "pongb", "pongd", "chatter"}
	}
	return []string{"news", "chatter"}
}

func genLifecycle(r *w.Rand, p *w.Plan) {
	p.Cfg["pkg"] = int64(w.Pick(r, 0, 0, 0, 1, 1, 3))
	v := []int{3, 2, 3, 3}[p.Cfg["pkg"]]
	if r.P(10) {
		p.Cfg["side"] = 1
	}
	p.Cfg["cap"] = int64(w.Pick(r, 0, 1, 8, 64))
	p.Cfg["clean"] = int64(w.Pick(r, 0, 0, 100, 50000))
	ops := recvOps(v, int(p.Cfg["side"]))
	if p.Cfg["side"] == 0 && r.P(70) {
		// fewer channels, met more often
		ops = []string{w.Pick(r, ops...), w.Pick(r, ops...), "room", w.Pick(r, "seat", "room")}
	}
	b2i := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	vals := []string{"a", "b", "a.b"}
	if r.P(30) {
		vals = []string{"a-rather-long-value-0123456789-1", "a-rather-long-value-0123456789-2", "1-a-rather-long-value-0123456789"}
	}
	target := func(o *w.Op) {
		op := w.Pick(r, ops...)
		o.S = []string{op}
		for i := 0; i < nParams(op); i++ {
			o.S = append(o.S, w.Pick(r, vals...))
		}
	}
	for i, n := 1, r.Range(2, 30); i <= n; i++ {
		var o w.Op
		expired := b2i(r.P(10))
		inside := b2i(r.P(15))
		switch r.N(20) {
		case 0, 1, 2, 3, 4, 5, 6:
			o = w.MkOp("sub", b2i(r.P(12)), expired)
			target(&o)
		case 7, 8, 9, 10:
			o = w.MkOp("unsub", inside, expired)
			target(&o)
		case 11, 12:
			k := -1
			if r.P(30) {
				k = r.N(10)
			}
			o = w.MkOp("suball", k, expired)
		case 13:
			o = w.MkOp("unsuball", inside, expired)
		case 14:
			o = w.MkOp("close", inside, expired)
		case 15, 16:
			o = w.MkOp("burst", i*10, w.Pick(r, 0, 0, 100, 3000), w.Pick(r, 0, 0, 50, 5000, 200000))
			target(&o)
		default:
			o = w.MkOp("msg", i*10)
			target(&o)
		}
		p.Ops = append(p.Ops, o)
	}
}

type lifecycle struct {
	wd     *w.World
	pk     *Package
	b      *simBroker
	c      Ctl
	open   map[string]int // address -> generation of its handler
	gens   int
	calls  map[int][]int // message -> generations that handled it
	inside func(ctx context.Context)
	hdelay map[int]time.Duration
	mu     sync.Mutex // orders the calls on the controller, for the race detector
}

func (l *lifecycle) handOver() {
	l.mu.Lock()
	l.mu.Unlock() //nolint:staticcheck // empty on purpose
}

func (l *lifecycle) handler(gen int) Handler {
	return func(ctx context.Context, op string, m any) error {
		n := NumOf(op, m)
		l.calls[n] = append(l.calls[n], gen)
		l.wd.Rec("handler %d got message %d", gen, n)
		if f := l.inside; f != nil {
			l.inside = nil
			l.handOver()
			f(ctx)
			l.handOver()
		}
		nap(l.hdelay[n])
		return nil
	}
}

func (l *lifecycle) want() string {
	var x []string
	for a := range l.open {
		x = append(x, a)
	}
	sort.Strings(x)
	return strings.Join(x, " ")
}

func (l *lifecycle) inject(n int, op string, addr string, delay time.Duration) {
	// what the other side would send
	r := w.NewRand(uint64(n))
	raw := extensions.BrokerMessage{Headers: map[string][]byte{}}
	got := false
	peer := &capture{onPublish: func(m extensions.BrokerMessage) { raw, got = m, true }}
	var c Ctl
	var err error
	if l.wd.C("side") == 0 {
		c, err = l.pk.NewUser(peer, CtlOpts{})
	} else {
		c, err = l.pk.NewApp(peer, CtlOpts{})
	}
	if err == nil {
		var par []string
		for i := 0; i < nParams(op); i++ {
			par = append(par, "x")
		}
		err = c.Send(context.Background(), op, par, l.pk.Make(op, genMsg(r, op, n, "")))
	}
	if err != nil || !got {
		l.wd.Violate("encoding", "message %d of %s could not be encoded: %v", n, op, err)
		return
	}
	l.b.fan = func(int, *bsub) []time.Duration { return []time.Duration{delay} }
	l.b.inject(addr, n, "", raw)
}

type capture struct {
	onPublish func(m extensions.BrokerMessage)
}

func (c *capture) Publish(ctx context.Context, addr string, m extensions.BrokerMessage) error {
	c.onPublish(cloneMsg(m))
	return nil
}

func (c *capture) Subscribe(ctx context.Context, addr string) (extensions.BrokerChannelSubscription, error) {
	return extensions.BrokerChannelSubscription{}, errors.New("not here")
}

func runLifecycle(wd *w.World) {
	l := &lifecycle{wd: wd, pk: pkgOf(wd), b: newSimBroker(wd), open: map[string]int{}, calls: map[int][]int{}, hdelay: map[int]time.Duration{}}
	b, pk := l.b, l.pk
	b.capacity = wd.C("cap")
	b.cleanDelay = func(int) time.Duration { return time.Duration(wd.C("clean")) * time.Microsecond }
	fail := -1
	b.failSub = func(k int, addr string) error {
		if fail == 0 {
			fail = -1
			return errBrokerSubscribe
		}
		if fail > 0 {
			fail--
		}
		return nil
	}
	var err error
	if wd.C("side") == 0 {
		l.c, err = pk.NewApp(b, CtlOpts{})
	} else {
		l.c, err = pk.NewUser(b, CtlOpts{})
	}
	if err != nil {
		panic(err)
	}
	all := recvOps(pk.V, wd.C("side"))
	plain := map[string]bool{}
	for _, op := range all {
		if nParams(op) == 0 {
			plain[pk.Addr(op, nil)] = true
		}
	}
	wd.Trivial = len(wd.Plan.Ops) < 2
	bg := context.Background()
	expired, cancel := context.WithCancel(bg)
	cancel()
	mkctx := func(e int) context.Context {
		if e == 1 {
			return expired
		}
		return bg
	}
	// ends makes a call that ends the subscription to an address (or all), and
	// has done so when it returns, unless its context is done.
	ends := func(what, addr string, ctx context.Context, fn func()) {
		var ending []*bsub
		for _, s := range b.subs {
			if s.cleanups == 0 && (addr == "" || s.addr == addr) {
				ending = append(ending, s)
			}
		}
		fn()
		for _, s := range ending {
			if ctx.Err() == nil && !s.cleaned {
				wd.Violate("released-late", "%s has returned and subscription %d to %s has not ended on the broker", what, s.id, s.addr)
			}
		}
	}
	// in makes a call, from inside a handler when asked and possible.
	in := func(inside, i int, fn func()) {
		l.handOver()
		defer l.handOver()
		if inside == 0 || len(l.open) == 0 {
			fn()
			return
		}
		var addrs []string
		for a := range l.open {
			addrs = append(addrs, a)
		}
		sort.Strings(addrs)
		addr := addrs[i%len(addrs)]
		op := ""
		for _, o := range all {
			if nParams(o) == 0 && pk.Addr(o, nil) == addr || o == "room" && strings.Contains(addr, ".room.") || o == "seat" && strings.Contains(addr, ".Seat100%.") {
				op = o
			}
		}
		done := false
		l.inside = func(context.Context) { fn(); done = true }
		wd.Probe("call made by a handler")
		l.inject(4000+i, op, addr, 0)
		if !wd.Until(100*time.Second, func() bool { return done }) {
			if l.inside != nil {
				l.inside = nil
				wd.Violate("delivery", "a message for %s was not handled although it is subscribed", addr)
				return
			}
			wd.Violate("blocked-inside", "a call made by a handler on %s did not return", addr)
		}
	}
	finished := false
	wd.Go("user", func() {
		for i, o := range wd.Plan.Ops {
			if wd.Failed() {
				return
			}
			op := o.Str(0)
			var par []string
			addr := ""
			if op != "" {
				par = o.S[1:]
				addr = pk.Addr(op, par)
			}
			before := b.nSub
			what := fmt.Sprintf("step %d, %s %v %v", i, o.K, o.S, o.A)
			wd.Rec("%s", what)
			l.handOver()
			switch o.K {
			case "sub":
				fail = -1
				if o.I(0) == 1 {
					fail = 0
				}
				l.gens++
				err := l.c.Subscribe(mkctx(o.I(1)), op, par, l.handler(l.gens))
				_, was := l.open[addr]
				switch {
				case was && (err == nil || !errors.Is(err, extensions.ErrAlreadySubscribedChannel)):
					wd.Violate("double-subscribe", "%s: subscribing to %s again returned %v", what, addr, err)
				case was && b.nSub != before:
					wd.Violate("double-subscribe", "%s: subscribing to %s again reached the broker", what, addr)
				case was:
					wd.Probe("subscribed again refused")
				case o.I(0) == 1 && !errors.Is(err, errBrokerSubscribe):
					wd.Violate("refused-subscribe", "%s: the broker refused the subscription, the call returned %v", what, err)
				case o.I(0) == 0 && err != nil && o.I(1) == 0:
					wd.Violate("subscribe", "%s: subscribing failed: %v", what, err)
				case err == nil:
					l.open[addr] = l.gens
				}
			case "unsub":
				in(o.I(0), i, func() {
					ctx := mkctx(o.I(1))
					ends(what, addr, ctx, func() { l.c.Unsubscribe(ctx, op, par) })
				})
				if _, was := l.open[addr]; was {
					wd.Probe("unsubscribed")
				}
				delete(l.open, addr)
			case "suball":
				fail = o.I(0)
				l.gens++
				h := l.gens
				err := l.c.SubscribeAll(mkctx(o.I(1)), l.handler(h))
				fail = -1
				dup := false
				for a := range plain {
					_, was := l.open[a]
					dup = dup || was
				}
				if err == nil {
					if dup {
						wd.Violate("suball", "%s succeeded although one of the channels was already subscribed", what)
					}
					for a := range plain {
						l.open[a] = h
					}
					wd.Probe("subscribed to all")
				} else {
					if !errors.Is(err, errBrokerSubscribe) && !(dup && errors.Is(err, extensions.ErrAlreadySubscribedChannel)) && o.I(1) == 0 {
						wd.Violate("suball", "%s failed: %v", what, err)
					}
					// It stops at the first error: some of the plain channels may have been subscribed.
					for _, s := range b.subs {
						if _, was := l.open[s.addr]; !was && s.cleanups == 0 && plain[s.addr] {
							l.open[s.addr] = h
						}
					}
					wd.Probe("subscribe to all failed")
				}
			case "unsuball", "close":
				in(o.I(0), i, func() {
					ctx := mkctx(o.I(1))
					ends(what, "", ctx, func() {
						if o.K == "close" {
							l.c.Close(ctx)
						} else {
							l.c.UnsubscribeAll(ctx)
						}
					})
				})
				for a := range l.open {
					if !plain[a] {
						wd.Probe("all unsubscribed with a parametrised subscription")
					}
				}
				l.open = map[string]int{}
			case "burst":
				if o.I(2) > 0 {
					l.hdelay[o.I(0)] = o.D(2)
				}
				for k := 0; k < 5; k++ {
					l.hdelay[o.I(0)+k] = o.D(2)
					l.inject(o.I(0)+k, op, addr, o.D(1))
				}
				continue
			case "msg":
				l.inject(o.I(0), op, addr, 0)
				gen, isOpen := l.open[addr]
				if isOpen {
					if !wd.Until(100*time.Second, func() bool { return len(l.calls[o.I(0)]) > 0 }) {
						wd.Violate("delivery", "%s: message %d for %s was not handled although it is subscribed", what, o.I(0), addr)
					} else if l.calls[o.I(0)][0] != gen {
						wd.Violate("delivery", "%s: message %d for %s was handled by handler %d instead of %d", what, o.I(0), addr, l.calls[o.I(0)][0], gen)
					}
					wd.Probe("message handled")
				} else if time.Sleep(time.Second); len(l.calls[o.I(0)]) > 0 {
					wd.Violate("delivery", "%s: message %d for %s was handled although it is not subscribed", what, o.I(0), addr)
				}
			}
			l.handOver()
			// Once calls with a done context have taken effect, the broker's subscriptions are the model's.
			want := l.want()
			wd.Until(10*time.Second, func() bool {
				for _, s := range b.subs {
					if s.cleanups > 0 && !s.cleaned {
						return false
					}
				}
				return strings.Join(b.live(), " ") == want
			})
			if got := strings.Join(b.live(), " "); got != want {
				wd.Violate("subscriptions", "after %s the broker holds subscriptions to [%s] instead of [%s]", what, got, want)
			}
		}
		finished = true
	})
	wd.Join(3000 * time.Second)
	runtime.SimQuiesce()
	wd.Join(3000 * time.Second)
	if !finished && !wd.Failed() {
		wd.Violate("stuck", "a call did not return")
	}
	for _, s := range b.subs {
		if s.cleanups > 1 {
			wd.Violate("cancelled-twice", "subscription %d to %s was cancelled %d times", s.id, s.addr, s.cleanups)
		}
	}
	for n, c := range l.calls {
		if n > 0 && n < 4000 && len(c) > 1 {
			wd.Violate("handled-twice", "message %d was handled by %v", n, c)
		}
	}
}
