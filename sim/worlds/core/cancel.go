package main

import (
	"context"
	"fmt"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifsim/w"
)

// nopAck counts settlements that nothing should make here.
type nopAck struct{}

func (nopAck) AckMessage() {}
func (nopAck) NakMessage() {}

func init() {
	w.Register(&w.Scenario{Name: "subscription-cancel", Props: []string{"C01"}, Gen: genCancel, Run: runCancel})
}

// Cfg: cap, cleanup (us), reader 0 eager 1 slow 2 stops after n 3 absent until closed, readn, readgap (us).
// Ops: tx who gap | cancel at timeout(-1 none, 0 already done).
func genCancel(r *w.Rand, p *w.Plan) {
	p.Cfg["cap"] = int64(w.Pick(r, 0, 1, 2, 5, 64))
	p.Cfg["cleanup"] = int64(w.Pick(r, 0, 0, 10, 1000, 200000))
	p.Cfg["reader"] = int64(r.N(4))
	p.Cfg["readn"] = int64(r.N(6))
	p.Cfg["readgap"] = int64(w.Pick(r, 0, 5, 500))
	ntx := r.Range(0, 3)
	span := w.Pick(r, 1, 50, 2000)
	for t := 0; t < ntx; t++ {
		for i, n := 0, r.N(8); i < n; i++ {
			p.Ops = append(p.Ops, w.MkOp("tx", t, r.N(span)))
		}
	}
	for i, n := 0, w.Pick(r, 1, 1, 1, 2, 2, 3, 4); i < n; i++ {
		p.Ops = append(p.Ops, w.MkOp("cancel", r.N(span*3+1), w.Pick(r, -1, -1, 0, r.N(1000), r.N(300000))))
	}
}

func runCancel(wd *w.World) {
	messages := make(chan extensions.AcknowledgeableBrokerMessage, wd.C("cap"))
	sub := extensions.NewBrokerChannelSubscription(messages, make(chan any, 1))

	cleanups, cleanupDone := 0, false
	sub.WaitForCancellationAsync(func() {
		cleanups++
		wd.Rec("cleanup starts")
		if d := wd.C("cleanup"); d > 0 {
			time.Sleep(time.Duration(d) * time.Microsecond)
		}
		cleanupDone = true
		wd.Rec("cleanup done")
	})

	type tx struct{ start, end int } // stamps in one global order
	stamp := 0
	tick := func() int { stamp++; return stamp }
	sent := map[string]*tx{}
	requested := 0 // stamp of the first cancel call
	reads := map[string]int{}
	var order []string
	closedSeen := false

	lanes := map[int][]w.Op{}
	var cancels []w.Op
	for _, op := range wd.Plan.Ops {
		switch op.K {
		case "tx":
			lanes[op.I(0)] = append(lanes[op.I(0)], op)
		case "cancel":
			cancels = append(cancels, op)
		}
	}
	wd.Trivial = len(cancels) == 0
	for lane := 0; lane < 3; lane++ {
		lane := lane
		ops := lanes[lane]
		if len(ops) == 0 {
			continue
		}
		wd.Go("transmitter", func() {
			for i, op := range ops {
				time.Sleep(op.D(1))
				id := fmt.Sprintf("t%d-%d", lane, i)
				t := &tx{start: tick()}
				sent[id] = t
				wd.Rec("transmit %s", id)
				sub.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(
					extensions.BrokerMessage{Headers: map[string][]byte{"id": []byte(id)}, Payload: []byte(id)}, nopAck{}))
				t.end = tick()
				wd.Rec("transmitted %s", id)
			}
		})
	}
	read := func() bool {
		m, open := <-sub.MessagesChannel()
		if !open {
			if !m.IsUninitialized() {
				wd.Violate("ghost-message", "a closed stream yielded a message")
			}
			if !cleanupDone {
				wd.Violate("closed-early", "the stream was closed before the cleanup was done")
			}
			closedSeen = true
			wd.Rec("stream closed")
			return false
		}
		id := string(m.Payload)
		reads[id]++
		order = append(order, id)
		wd.Rec("read %s", id)
		if string(m.Headers["id"]) != id {
			wd.Violate("content", "message %q carries headers of %q", id, m.Headers["id"])
		}
		if reads[id] > 1 {
			wd.Violate("duplicate", "message %s read twice", id)
		}
		return true
	}
	release := false
	wd.Go("reader", func() {
		n := 0
		for {
			switch wd.C("reader") {
			case 1:
				time.Sleep(time.Duration(wd.C("readgap")) * time.Microsecond)
			case 2:
				if n >= wd.C("readn") {
					wd.Until(time.Hour, func() bool { return release })
				}
			case 3:
				wd.Until(time.Hour, func() bool { return release })
			}
			if !read() {
				return
			}
			n++
		}
	})
	live := 0
	for i, op := range cancels {
		i, op := i, op
		live++
		wd.Go("canceller", func() {
			time.Sleep(op.D(0))
			ctx := context.Background()
			var cancel context.CancelFunc = func() {}
			if t := op.I(1); t == 0 {
				ctx, cancel = context.WithCancel(ctx)
				cancel()
			} else if t > 0 {
				ctx, cancel = context.WithTimeout(ctx, time.Duration(t)*time.Microsecond)
			}
			if requested == 0 {
				requested = tick()
			} else if !cleanupDone || live > 1 {
				wd.Probe("cancel while another cancel is in progress or done")
			}
			wd.Rec("cancel %d called", i)
			sub.Cancel(ctx)
			live--
			wd.Rec("cancel %d returned (context done: %v)", i, ctx.Err() != nil)
			if ctx.Err() == nil {
				if !cleanupDone {
					wd.Violate("early-return", "Cancel returned although neither the cleanup was done nor its context")
				} else if len(sub.MessagesChannel()) == 0 {
					select {
					case m, open := <-sub.MessagesChannel():
						if open {
							reads[string(m.Payload)]++
						}
					default:
						wd.Violate("not-closed", "Cancel returned but the message stream is still open")
					}
				}
			} else {
				wd.Probe("cancel ended by its context")
			}
			cancel()
		})
	}
	if len(cancels) == 0 {
		wd.Settle(time.Second)
		return
	}
	// Everything but the reader must come to an end by itself once the reader is allowed to drain.
	slack := 30*time.Second + time.Duration(wd.C("cleanup"))*time.Microsecond
	wd.Until(slack, func() bool { return cleanupDone && live == 0 })
	if live > 0 {
		wd.Violate("cancel-hangs", "a Cancel call has not returned %v after everything settled: %s", slack, wd.Pending())
	}
	release = true
	if !wd.Join(slack) {
		wd.Violate("stuck", "activities did not end after cancellation: %s", wd.Pending())
	}
	if cleanups != 1 {
		wd.Violate("cleanup-count", "cleanup ran %d times", cleanups)
	}
	if !closedSeen {
		wd.Violate("never-closed", "the stream was never closed")
	}
	for id, t := range sent {
		if t.end != 0 && t.end < requested && reads[id] != 1 {
			wd.Violate("lost", "message %s was transmitted before cancellation and read %d times", id, reads[id])
		}
	}
	for i := range order {
		for j := i + 1; j < len(order); j++ {
			a, b := sent[order[i]], sent[order[j]]
			if b.end != 0 && b.end < a.start {
				wd.Violate("order", "message %s read before %s, which was transmitted before it", order[i], order[j])
			}
		}
	}
}
