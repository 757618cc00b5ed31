package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifsim/w"
)

// deliveryHeader is a header the broker adds, which tells deliveries apart.
const deliveryHeader = "x-delivery"

type simKey string

// keyNum marks the caller's context with the number of the message it is about.
const keyNum simKey = "num"

func numCtx(ctx context.Context) int {
	if n, ok := ctx.Value(keyNum).(int); ok {
		return n
	}
	return -1
}

var (
	errBrokerPublish   = errors.New("simulated broker refuses the publication")
	errBrokerSubscribe = errors.New("simulated broker refuses the subscription")
)

// delivery is one handing of a message to a subscription.
type delivery struct {
	id      int
	n       int // message number
	addr    string
	msg     extensions.BrokerMessage
	sub     *bsub
	start   int // stamps
	end     int
	at      time.Duration // when it was taken
	acks    int
	naks    int
	kind    string // "", "bad", "fuzz", "foreign"
	delay   time.Duration
	onAck   func(kind string)
	settled bool
	late    bool // handed over to a subscription that was already being cleaned up
}

type simAck struct{ d *delivery }

func (a simAck) AckMessage() { a.d.acks++; a.d.set("ack") }
func (a simAck) NakMessage() { a.d.naks++; a.d.set("nak") }
func (d *delivery) set(kind string) {
	d.sub.b.wd.Rec("%s of delivery %d (message %d)", kind, d.id, d.n)
	d.settled = true
	if d.onAck != nil {
		d.onAck(kind)
	}
}

// bsub is the broker's view of a subscription.
type bsub struct {
	b         *simBroker
	id        int
	addr      string
	n         int // request number, when opened for one
	sub       extensions.BrokerChannelSubscription
	queue     []*delivery
	wake      chan struct{}
	log       []*delivery // handed over, in order
	cleanups  int
	cleaned   bool
	ended     int // stamp of the end of the cleanup
	cancelled int // stamp of the first cancellation request known to the harness
	gen       any
}

// simBroker is an in-memory broker with faults.
type simBroker struct {
	wd         *w.World
	stamp      int
	subs       []*bsub
	deliveries []*delivery
	nPub, nSub int
	capacity   int

	failPub    func(k int, addr string, n int) error
	failSub    func(k int, addr string) error
	pubDelay   func(k int) time.Duration
	subDelay   func(k int) time.Duration
	cleanDelay func(k int) time.Duration
	onPublish  func(ctx context.Context, addr string, n int, msg extensions.BrokerMessage, err error)
	onDeliver  func(d *delivery)
	// fan decides the deliveries of a message to a subscription: delays, one per copy
	fan func(n int, s *bsub) []time.Duration
	gen map[string]any // attached to the next subscription of an address
	mu  bool
}

func newSimBroker(wd *w.World) *simBroker {
	return &simBroker{wd: wd, capacity: 64, gen: map[string]any{}}
}

func (b *simBroker) tick() int { b.stamp++; return b.stamp }

func cloneMsg(m extensions.BrokerMessage) extensions.BrokerMessage {
	c := extensions.BrokerMessage{}
	if m.Headers != nil {
		c.Headers = map[string][]byte{}
		for k, v := range m.Headers {
			c.Headers[k] = append([]byte{}, v...)
		}
	}
	if m.Payload != nil {
		c.Payload = append([]byte{}, m.Payload...)
	}
	return c
}

func msgStr(m extensions.BrokerMessage) string {
	var l []string
	for k, v := range m.Headers {
		l = append(l, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(l)
	return fmt.Sprintf("%v|%q", l, m.Payload)
}

func nap(d time.Duration) {
	if d > 0 {
		time.Sleep(d)
	}
}

// Publish implements extensions.BrokerController.
func (b *simBroker) Publish(ctx context.Context, addr string, m extensions.BrokerMessage) error {
	k := b.nPub
	b.nPub++
	n := numCtx(ctx)
	msg := cloneMsg(m)
	b.wd.Rec("broker: publish of message %d on %s", n, addr)
	if b.pubDelay != nil {
		nap(b.pubDelay(k))
	}
	var err error
	if b.failPub != nil {
		err = b.failPub(k, addr, n)
	}
	if err != nil {
		b.wd.Fault("publish refused")
	}
	if b.onPublish != nil {
		b.onPublish(ctx, addr, n, msg, err)
	}
	if err != nil {
		return err
	}
	b.inject(addr, n, "", msg)
	return nil
}

// inject gives a message to every live subscription of an address.
func (b *simBroker) inject(addr string, n int, kind string, msg extensions.BrokerMessage) {
	for _, s := range b.subs {
		if s.addr != addr || s.cleanups > 0 {
			continue
		}
		delays := []time.Duration{0}
		if b.fan != nil {
			delays = b.fan(n, s)
		}
		for _, d := range delays {
			s.enqueue(n, kind, msg, d)
		}
	}
}

func (s *bsub) enqueue(n int, kind string, msg extensions.BrokerMessage, delay time.Duration) *delivery {
	d := &delivery{id: len(s.b.deliveries), n: n, addr: s.addr, msg: cloneMsg(msg), sub: s, kind: kind, delay: delay}
	s.b.deliveries = append(s.b.deliveries, d)
	if d.msg.Headers == nil {
		d.msg.Headers = map[string][]byte{}
	}
	d.msg.Headers[deliveryHeader] = []byte(fmt.Sprint(d.id))
	s.queue = append(s.queue, d)
	select {
	case s.wake <- struct{}{}:
	default:
	}
	return d
}

// byHeader finds the delivery a received message comes from.
func (b *simBroker) byHeader(m extensions.BrokerMessage) *delivery {
	var id int
	if _, err := fmt.Sscan(string(m.Headers[deliveryHeader]), &id); err != nil || id < 0 || id >= len(b.deliveries) {
		return nil
	}
	return b.deliveries[id]
}

// byCtx finds the delivery a context is about.
func (b *simBroker) byCtx(ctx context.Context) *delivery {
	id := numInStr(ctxStr(ctx, extensions.ContextKeyIsBrokerMessage))
	if id < 0 || id >= len(b.deliveries) {
		return nil
	}
	return b.deliveries[id]
}

// Subscribe implements extensions.BrokerController.
func (b *simBroker) Subscribe(ctx context.Context, addr string) (extensions.BrokerChannelSubscription, error) {
	k := b.nSub
	b.nSub++
	if b.subDelay != nil {
		nap(b.subDelay(k))
	}
	if b.failSub != nil {
		if err := b.failSub(k, addr); err != nil {
			b.wd.Fault("subscribe refused")
			b.wd.Rec("broker: subscribe to %s refused", addr)
			return extensions.BrokerChannelSubscription{}, err
		}
	}
	s := &bsub{b: b, id: len(b.subs), addr: addr, n: numCtx(ctx), wake: make(chan struct{}, 1), gen: b.gen[addr]}
	s.sub = extensions.NewBrokerChannelSubscription(make(chan extensions.AcknowledgeableBrokerMessage, b.capacity), make(chan any, 1))
	b.subs = append(b.subs, s)
	b.wd.Rec("broker: subscription %d to %s opened", s.id, addr)
	stop := make(chan struct{})
	s.sub.WaitForCancellationAsync(func() {
		s.cleanups++
		b.wd.Rec("broker: cleanup of subscription %d to %s", s.id, addr)
		close(stop)
		if b.cleanDelay != nil {
			nap(b.cleanDelay(s.id))
		}
		s.cleaned = true
		s.ended = b.tick()
	})
	go s.pump(stop)
	return s.sub, nil
}

// pump hands the messages over, one at a time.
func (s *bsub) pump(stop chan struct{}) {
	for {
		for len(s.queue) == 0 {
			select {
			case <-s.wake:
			case <-stop:
				return
			}
		}
		d := s.queue[0]
		s.queue = s.queue[1:]
		nap(d.delay)
		d.start, d.late = s.b.tick(), s.cleanups > 0
		s.log = append(s.log, d)
		if s.b.onDeliver != nil {
			s.b.onDeliver(d)
		}
		s.b.wd.Rec("broker: delivery %d (message %d) to subscription %d", d.id, d.n, s.id)
		s.sub.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(cloneMsg(d.msg), simAck{d}))
		d.end, d.at = s.b.tick(), s.b.wd.Now()
		select {
		case <-stop:
			return
		default:
		}
	}
}

// live lists the addresses of the subscriptions that have not been cleaned up.
func (b *simBroker) live() []string {
	var l []string
	for _, s := range b.subs {
		if s.cleanups == 0 {
			l = append(l, s.addr)
		}
	}
	sort.Strings(l)
	return l
}
