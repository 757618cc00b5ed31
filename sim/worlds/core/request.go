package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"
	"verifsim/w"
)

// The request scenario: concurrent requests on one user controller, an app
// controller answering them, and a broker that loses, repeats, delays and
// reorders replies, adds replies nobody waits for, refuses publications and
// subscriptions and ends subscriptions by itself.
//
// Cfg: pkg, cap, mw (number of middlewares of the user controller), ver, clean (us).
// Ops:
//   req   A lane gap n timeout(-1 none) pubfail subfail hdelay replies rdelay kill(-1) pubdelay subdelay dups   S op json behPub behReply
//   noise A lane gap n times                                                                                    S channelop payload corr

func init() {
	w.Register(&w.Scenario{Name: "request", Props: []string{"C06"}, Gen: genRequest, Run: runRequest, Weight: 4})
	w.Register(&w.Scenario{Name: "request", Props: []string{"C03", "C05", "C17"}, Gen: genRequest, Run: runRequest, Weight: 1})
}

const replyBase = 100000

func genRequest(r *w.Rand, p *w.Plan) {
	p.Cfg["pkg"] = int64(w.Pick(r, 0, 0, 0, 1, 1, 3))
	v3 := p.Cfg["pkg"] != 1
	p.Cfg["cap"] = int64(w.Pick(r, 0, 1, 8, 64))
	p.Cfg["mw"] = int64(w.Pick(r, 0, 0, 1, 2, 3))
	p.Cfg["clean"] = int64(w.Pick(r, 0, 0, 100, 50000))
	ops := []string{"ping", "pingb", "pingd"}
	if v3 {
		ops = append(ops, "ask", "call", "callp")
	}
	if r.P(50) {
		ops = []string{w.Pick(r, ops...)}
	}
	beh := func(reply bool) string {
		s := ""
		for i := int64(0); i < p.Cfg["mw"]; i++ {
			c := w.Pick(r, "p", "w", "m", "c", "s")
			if r.P(4) {
				c = "b"
			}
			s += c
		}
		return s
	}
	lanes := r.Range(1, 5)
	span := w.Pick(r, 1, 50, 5000)
	us := func() int {
		if r.P(50) {
			return 0
		}
		return w.Pick(r, 1, 10, 300, 4000, 40000)
	}
	for i, n := 1, r.Range(1, 10); i <= n; i++ {
		op := w.Pick(r, ops...)
		corr := ""
		if corrOps[op] && (!v3 || r.P(40)) {
			corr = genCorr(r, i)
		}
		timeout := w.Pick(r, 1, 50, 1000, 20000, 20000, 200000, 200000)
		if r.P(5) {
			timeout = 0
		}
		pubfail, subfail, kill, replies := 0, 0, -1, 1
		switch r.N(14) {
		case 0:
			pubfail = 1
		case 1:
			subfail = 1
		case 2:
			kill = us()
		case 3, 4:
			replies = 0
		case 5, 6:
			replies = 2
		}
		if replies > 0 || kill >= 0 || pubfail+subfail > 0 {
			if r.P(20) {
				timeout = -1
			}
		}
		dups := 0
		if r.P(15) {
			dups = 1
		}
		bp, br := beh(false), beh(true)
		if timeout < 0 {
			// a refusing middleware on the way would leave nothing to wait for
			bp, br = noFail(bp), noFail(br)
		}
		o := w.MkOp("req", r.N(lanes), r.N(span), i, timeout, pubfail, subfail, us(), replies, us(), kill, us(), us(), dups)
		o.S = []string{op, genMsg(r, op, i, corr), bp, br}
		p.Ops = append(p.Ops, o)
		if r.P(40) {
			ch := map[string]string{"ping": "pong", "pingb": "pongb", "pingd": "pongd", "ask": "answer", "call": "call", "callp": "call"}[op]
			o := w.MkOp("noise", r.N(lanes), r.N(span), i, w.Pick(r, 1, 1, 1, 1, 1, 3, r.Range(10, 200)))
			payload, c := "noise", w.Pick(r, "", "foreign", "foreign", "corr")
			if ch == "pongd" {
				payload = w.Pick(r, `{"body":"noise","meta":{"ids":{"cid":"foreign"}}}`, `{"body":"noise"}`, `{"body":"noise","meta":{}}`, `{"body":"noise","meta":{"ids":{}}}`, `{"meta":null,"body":"noise"}`, `{"body`, `{"meta":[]}`)
			}
			if ch == "pongb" {
				payload = w.Pick(r, `{"body":"noise","cid":"foreign"}`, `{"body":"noise"}`, `{"body`, ``, `[]`, `{"body":1}`)
			}
			o.S = []string{ch, payload, c}
			p.Ops = append(p.Ops, o)
		}
		if (op == "pingd" || op == "callp") && r.P(30) {
			o := w.MkOp("noise", r.N(lanes), r.N(span), i)
			o.S = []string{"=" + op, w.Pick(r, `{"body":"stray"}`, `{"body":"stray","meta":{}}`, `{"body":"stray","meta":null}`), ""}
			p.Ops = append(p.Ops, o)
		}
	}
}

func noFail(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] == 'b' {
			b[i] = 'w'
		}
	}
	return string(b)
}

// reqs is a request in the plan and what became of it.
type request struct {
	n                                    int
	op, js, behPub, behReply             string
	timeout                              int
	pubfail, subfail                     bool
	hdelay, rdelay, pubdelay, subdelay   time.Duration
	replies, dups, kill                  int
	sent                                 any
	given, corr                          string
	first                                string
	subs                                 []*bsub
	killed                               bool
	started, deadline, pubEnd, returned_ time.Duration
	hasDeadline, returned, ctxDone       bool
	published, handled                   int
	reply                                any
	err                                  error
	ev                                   []event
}

func replyOp(op string) string {
	return map[string]string{"ping": "pong", "pingb": "pongb", "pingd": "pongd", "ask": "answer", "call": "pong", "callp": "pong"}[op]
}

// jsonReply tells whether the replies of an operation are JSON documents.
func jsonReply(op string) bool { return op == "pingb" || op == "pingd" }

func replyBody(v any) string {
	x := reflect.ValueOf(v).FieldByName("Payload")
	if x.Kind() == reflect.Struct {
		x = x.FieldByName("Body")
		if x.Kind() == reflect.Pointer {
			if x.IsNil() {
				return ""
			}
			x = x.Elem()
		}
	}
	return x.String()
}

func wireBody(op string, m extensions.BrokerMessage) (string, bool) {
	if jsonReply(op) {
		var x struct {
			Cid  *string
			Body *string
		}
		if json.Unmarshal(m.Payload, &x) != nil {
			return "", false
		}
		if x.Body == nil {
			return "", true
		}
		return *x.Body, true
	}
	return string(m.Payload), true
}

func runRequest(wd *w.World) {
	pk := pkgOf(wd)
	b := newSimBroker(wd)
	b.capacity = wd.C("cap")
	reqs := map[int]*request{}
	lanes := map[int][]w.Op{}
	for _, op := range wd.Plan.Ops {
		lanes[op.I(0)] = append(lanes[op.I(0)], op)
		if op.K == "req" {
			reqs[op.I(2)] = &request{n: op.I(2), timeout: op.I(3), pubfail: op.I(4) > 0, subfail: op.I(5) > 0, hdelay: op.D(6), replies: op.I(7), rdelay: op.D(8), kill: op.I(9), pubdelay: op.D(10), subdelay: op.D(11), dups: op.I(12),
				op: op.Str(0), js: op.Str(1), behPub: op.Str(2), behReply: op.Str(3)}
		}
	}
	wd.Trivial = len(reqs) == 0
	replyAddr := func(rq *request) string {
		if rq.op == "call" || rq.op == "callp" {
			return fmt.Sprintf("sim.reply.%d", rq.n)
		}
		return pk.Addr(replyOp(rq.op), nil)
	}
	t := &traffic{wd: wd, pk: pk, b: b}

	// The broker.
	b.failPub = func(k int, addr string, n int) error {
		if rq := reqs[n]; rq != nil && rq.pubfail {
			return errBrokerPublish
		}
		return nil
	}
	b.fan = func(n int, s *bsub) []time.Duration {
		rq := reqs[(n-replyBase)/10]
		if n < replyBase || rq == nil {
			return []time.Duration{0}
		}
		l := []time.Duration{rq.rdelay}
		for i := 0; i < rq.dups; i++ {
			wd.Fault("duplicate reply")
			l = append(l, 0)
		}
		if rq.rdelay > 0 {
			wd.Fault("delayed reply")
		}
		return l
	}
	b.cleanDelay = func(int) time.Duration { return time.Duration(wd.C("clean")) * time.Microsecond }
	b.onPublish = func(ctx context.Context, addr string, n int, msg extensions.BrokerMessage, err error) {
		if n >= replyBase {
			rq := reqs[(n-replyBase)/10]
			if rq == nil {
				return
			}
			if addr != replyAddr(rq) {
				wd.For("C06", "reply-address", "the reply to request %d (%s) was published on %s instead of %s", rq.n, rq.op, addr, replyAddr(rq))
			}
			got := wireCorr(replyOp(rq.op), msg)
			if corrOps[rq.op] && got != rq.corr {
				wd.For("C06", "reply-correlation", "the reply to request %d carries correlation ID %q instead of %q", rq.n, got, rq.corr)
			}
			return
		}
		rq := reqs[n]
		if rq == nil {
			wd.For("C06", "phantom-publish", "an unknown message was published on %s: %s", addr, msgStr(msg))
			return
		}
		rq.published++
		rq.pubEnd = wd.Now()
		rq.corr = wireCorr(rq.op, msg)
		if rq.first == "" {
			m2 := cloneMsg(msg)
			delete(m2.Headers, versioning.DefaultVersionHeaderKey)
			rq.first = m2.String()
		}
		if addr != pk.Addr(rq.op, nil) {
			wd.For("C06", "request-address", "request %d was published on %s", n, addr)
		}
		if corrOps[rq.op] && (rq.corr == "" || rq.given != "" && rq.corr != rq.given) {
			wd.For("C06", "request-correlation", "request %d was published with correlation ID %q (given %q)", n, rq.corr, rq.given)
		}
		live := false
		for _, s := range rq.subs {
			live = live || s.addr == replyAddr(rq) && (s.cleanups == 0 || rq.killed)
		}
		if !live {
			wd.For("C06", "subscribe-first", "request %d was published before its reply channel was subscribed", n)
		}
		t.checkCtx("broker", ctx, "user", "publication", addr, n, rq.first, rq.corr, true)
	}
	var bc extensions.BrokerController = hooked{b,
		func(ctx context.Context) {
			if rq := reqs[numCtx(ctx)]; rq != nil {
				nap(rq.pubdelay)
			}
		},
		func(ctx context.Context, addr string) error {
			rq := reqs[numCtx(ctx)]
			if rq == nil {
				return nil
			}
			nap(rq.subdelay)
			if rq.subfail {
				wd.Fault("subscribe refused")
				return errBrokerSubscribe
			}
			return nil
		},
		func(ctx context.Context, s *bsub) {
			rq := reqs[numCtx(ctx)]
			if rq == nil {
				return
			}
			rq.subs = append(rq.subs, s)
			if rq.kill >= 0 {
				wd.Go("killer", func() {
					time.Sleep(time.Duration(rq.kill) * time.Microsecond)
					if rq.returned || s.cleanups > 0 {
						return
					}
					wd.Fault("subscription ended by the broker")
					rq.killed = true
					wd.Rec("broker ends subscription %d of request %d", s.id, rq.n)
					s.sub.Cancel(context.Background())
				})
			}
		}}
	if wd.C("ver") == 1 {
		bc = versioning.NewWrapper(bc, versioning.WithDefaultVersion(pk.Version()))
	}

	// The app answers.
	app, err := pk.NewApp(bc, CtlOpts{})
	if err != nil {
		panic(err)
	}
	answer := func(ctx context.Context, op string, m any) error {
		rq := reqs[NumOf(op, m)]
		if rq == nil && replyBody(m) == "stray" {
			// From a peer that leaves the optional fields out.
			err := app.Reply(context.WithValue(ctx, keyNum, replyBase+9), op, m, "re#stray")
			if err == nil && op == "callp" {
				wd.For("C06", "stray-reply", "replying to %s on %s returned %v", Canon(m), op, err)
			}
			wd.Probe("request without its optional fields")
			return nil
		}
		if rq == nil {
			wd.For("C06", "unknown-request", "the app received a request nobody sent: %s", Canon(m))
			return nil
		}
		rq.handled++
		nap(rq.hdelay)
		for k := 0; k < rq.replies; k++ {
			c := context.WithValue(ctx, keyNum, replyBase+rq.n*10+k)
			if err := app.Reply(c, op, m, fmt.Sprintf("re#%d#%d", rq.n, k)); err != nil {
				wd.For("C06", "reply-error", "replying to request %d failed: %v", rq.n, err)
			}
		}
		if rq.replies == 0 {
			wd.Fault("lost reply")
		}
		return nil
	}
	for _, op := range []string{"ping", "pingb", "pingd", "ask", "call", "callp"} {
		if pk.V == 2 && (op == "ask" || op == "call" || op == "callp") {
			continue
		}
		if err := app.Subscribe(context.Background(), op, nil, answer); err != nil {
			wd.Violate("subscribe", "subscribing to %s failed: %v", op, err)
			return
		}
	}

	// The user's middlewares.
	mw := func(i int) extensions.Middleware {
		return func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) error {
			d := b.byHeader(*msg)
			n := numCtx(ctx)
			dir, beh := "publication", ""
			var rq *request
			if d == nil {
				rq = reqs[n]
				if rq == nil {
					wd.For("C05,C17", "unidentified", "middleware %d got an unknown message %s", i, msgStr(*msg))
					return nil
				}
				beh = rq.behPub
				if rq.first == "" {
					rq.first = msg.String()
					rq.corr = wireCorr(rq.op, *msg)
				}
				t.checkCtx("middleware", ctx, "user", "publication", pk.Addr(rq.op, nil), n, rq.first, rq.corr, true)
			} else {
				// The subscription the reply came from tells which request it is.
				rq = reqs[d.sub.n]
				if rq == nil {
					wd.For("C05,C17", "unidentified", "middleware %d got an unknown reply %s", i, msgStr(*msg))
					return nil
				}
				dir, beh = "wait-for", rq.behReply
				t.checkCtx("reply middleware", ctx, "user", "wait-for", replyAddr(rq), rq.n, d.msg.String(), rq.corr, true)
			}
			rq.ev = append(rq.ev, event{"m", fmt.Sprintf("%d,%s", i, dir)})
			wd.Rec("middleware %d, %s of request %d", i, dir, rq.n)
			switch beh[i] {
			case 'p':
				return nil
			case 'b':
				return scriptErr(fmt.Sprintf("mw%d/%s/%d", i, dir, rq.n))
			case 'm':
				if dir == "wait-for" && !jsonReply(rq.op) {
					msg.Payload = append(append([]byte{}, msg.Payload...), fmt.Sprintf("~%d", i)...)
				}
			case 'c':
				ctx = context.WithValue(ctx, cvKey(i), n)
			case 's':
				time.Sleep(time.Duration(20*(i+1)) * time.Microsecond)
			}
			return next(ctx)
		}
	}
	var mws []extensions.Middleware
	for i := 0; i < wd.C("mw"); i++ {
		mws = append(mws, mw(i))
	}
	user, err := pk.NewUser(bc, CtlOpts{Middlewares: mws})
	if err != nil {
		panic(err)
	}
	stalls := wd.Plan.Sched.Stall > 0

	for lane := 0; lane < 8; lane++ {
		ops := lanes[lane]
		if len(ops) == 0 {
			continue
		}
		for _, op := range ops {
			op := op
			if op.K == "noise" {
				wd.Go("noise", func() {
					time.Sleep(op.D(1))
					m := extensions.BrokerMessage{Headers: map[string][]byte{}, Payload: []byte(op.Str(1))}
					switch op.Str(2) {
					case "foreign":
						m.Headers["correlationId"] = []byte(fmt.Sprintf("foreign-%d", op.I(2)))
					case "corr":
						m.Headers["other"] = []byte("x")
					}
					addr := pk.Addr(op.Str(0), nil)
					if strings.HasPrefix(op.Str(0), "=") {
						addr = pk.Addr(op.Str(0)[1:], nil)
					}
					if op.Str(0) == "call" {
						addr = fmt.Sprintf("sim.reply.%d", op.I(2))
					}
					wd.Fault("reply nobody waits for")
					for k := max(op.I(3), 1); k > 0; k-- {
						b.inject(addr, -5, "noise", m)
					}
				})
			}
		}
		wd.Go("requester", func() {
			for _, op := range ops {
				if op.K != "req" {
					continue
				}
				rq := reqs[op.I(2)]
				time.Sleep(op.D(1))
				rq.sent = pk.Make(rq.op, rq.js)
				rq.given = CorrOf(rq.sent)
				ctx := context.WithValue(context.Background(), keyNum, rq.n)
				if rq.n%2 == 1 {
					ctx = foreignCtx(ctx)
				}
				var cancel context.CancelFunc = func() {}
				rq.started = wd.Now()
				if rq.timeout == 0 {
					ctx, cancel = context.WithCancel(ctx)
					cancel()
					rq.hasDeadline, rq.deadline = true, wd.Now()
				} else if rq.timeout > 0 {
					ctx, cancel = context.WithTimeout(ctx, time.Duration(rq.timeout)*time.Microsecond)
					rq.hasDeadline, rq.deadline = true, wd.Now()+time.Duration(rq.timeout)*time.Microsecond
				}
				wd.Rec("request %d (%s) starts", rq.n, rq.op)
				rq.reply, rq.err = user.Request(ctx, rq.op, rq.sent)
				rq.returned, rq.returned_, rq.ctxDone = true, wd.Now(), ctx.Err() != nil
				for _, s := range b.subs {
					if s.n == rq.n && !rq.ctxDone && !s.cleaned && wd.C("ver") == 0 {
						wd.For("C06", "released-late", "request %d has returned and its subscription has not ended on the broker", rq.n)
					}
				}
				wd.Rec("request %d ends: %s %v", rq.n, Canon(rq.reply), rq.err)
				cancel()
			}
		})
	}
	ended := wd.Join(3000 * time.Second)
	runtime.SimQuiesce()
	if !ended && !wd.Join(3000*time.Second) {
		wd.For("C06", "stuck", "requests did not end: %s", wd.Pending())
	}
	time.Sleep(3000 * time.Second)

	for n := 1; n < replyBase; n++ {
		rq := reqs[n]
		if rq == nil {
			if n > 100 {
				break
			}
			continue
		}
		rq.verdict(wd, pk, stalls)
	}
	for _, s := range b.subs {
		for _, d := range s.log {
			if d.acks+d.naks > 1 {
				wd.For("C03", "settled-twice", "delivery %d on %s was settled %d times", d.id, s.addr, d.acks+d.naks)
			}
		}
	}
}

func (rq *request) verdict(wd *w.World, pk *Package, stalls bool) {
	n := rq.n
	if !rq.returned {
		if rq.started > 0 || rq.sent != nil {
			wd.For("C06", "no-return", "request %d (%s, timeout %d us) never returned", n, rq.op, rq.timeout)
		}
		return
	}
	if rq.op == "callp" && !strings.Contains(rq.js, "replyTo") {
		if rq.err == nil || len(rq.subs) > 0 || rq.published > 0 {
			wd.For("C06", "no-address", "request %d has no address to reply to and returned %v, after %d subscriptions and %d publications", n, rq.err, len(rq.subs), rq.published)
		}
		return
	}
	if len(rq.subs) > 1 {
		wd.For("C06", "subscriptions", "request %d opened %d subscriptions", n, len(rq.subs))
	}
	for _, s := range rq.subs {
		if wd.C("ver") == 0 && (s.cleanups != 1 || !s.cleaned) {
			wd.For("C06", "leak", "the subscription of request %d (%s) to %s was cancelled %d times", n, rq.op, s.addr, s.cleanups)
		}
	}
	if rq.published > 1 {
		wd.For("C06", "published-twice", "request %d was published %d times", n, rq.published)
	}
	if wd.C("ver") == 1 {
		// Requests share the wrapper's subscription: only one version can wait at a time.
		if rq.err == nil && corrOps[rq.op] && CorrOf(rq.reply) != rq.corr {
			wd.For("C06", "foreign-reply", "request %d (correlation ID %q) returned a reply to %q", n, rq.corr, CorrOf(rq.reply))
		}
		return
	}
	// The replies that reached the request's subscription, in order.
	var own *delivery
	var consumed []*delivery
	if len(rq.subs) == 1 {
		for _, d := range rq.subs[0].log {
			if d.end == 0 {
				break
			}
			if own == nil {
				consumed = append(consumed, d)
			}
			mine := d.n >= replyBase && (d.n-replyBase)/10 == n
			if !corrOps[rq.op] {
				mine = true
			}
			if mine && own == nil {
				own = d
			}
		}
	}
	pubRefused := ""
	for i, c := range rq.behPub {
		if c == 'b' {
			pubRefused = fmt.Sprintf("mw%d/publication/%d", i, n)
			break
		}
	}
	replyRefused := ""
	suffix := ""
	for i, c := range rq.behReply {
		if c == 'b' {
			replyRefused = fmt.Sprintf("mw%d/wait-for/%d", i, n)
			break
		}
		if c == 'm' && !jsonReply(rq.op) {
			suffix += fmt.Sprintf("~%d", i)
		}
	}
	switch {
	case rq.err == nil:
		if own == nil {
			// The reply was still on its way to the queue when it was read.
			for _, s := range rq.subs {
				for _, d := range s.log {
					if own == nil && (!corrOps[rq.op] || d.n >= replyBase && (d.n-replyBase)/10 == n) {
						own = d
					}
				}
			}
		}
		if rq.subfail || rq.pubfail || pubRefused != "" {
			wd.For("C06", "false-success", "request %d returned %s although it was never sent", n, Canon(rq.reply))
		} else if own == nil {
			wd.For("C06", "invented-reply", "request %d returned %s but was never given a reply", n, Canon(rq.reply))
		} else {
			want, _ := wireBody(rq.op, own.msg)
			if got := replyBody(rq.reply); got != want+suffix {
				wd.For("C06", "wrong-reply", "request %d (%s) returned %q instead of its first reply %q", n, rq.op, got, want+suffix)
			}
			if corrOps[rq.op] && CorrOf(rq.reply) != rq.corr {
				wd.For("C06", "foreign-reply", "request %d (correlation ID %q) returned a reply to %q", n, rq.corr, CorrOf(rq.reply))
			}
			for _, d := range consumed {
				if d.acks != 1 || d.naks != 0 {
					wd.For("C03", "reply-settlement", "delivery %d (message %d), consumed by request %d (%s), was acknowledged %d times and refused %d times", d.id, d.n, n, rq.op, d.acks, d.naks)
				}
			}
			if replyRefused != "" {
				wd.For("C05", "reply-middleware", "request %d succeeded although middleware error %s", n, replyRefused)
			}
		}
	case rq.ctxDone, rq.subfail, rq.pubfail, rq.killed, pubRefused != "":
		inTime := own != nil && rq.hasDeadline && !rq.subfail && !rq.pubfail && !rq.killed && pubRefused == "" && replyRefused == "" && !stalls &&
			own.at < rq.deadline && rq.pubEnd < rq.deadline
		if inTime {
			wd.For("C06", "missed-reply", "request %d failed (%v) although its reply had arrived %v before its deadline", n, rq.err, rq.deadline-own.at)
		}
	case replyRefused != "" && own != nil:
		if errName(rq.err) != replyRefused {
			wd.For("C05", "reply-middleware-error", "request %d returned %v instead of the middleware error %s", n, rq.err, replyRefused)
		}
	case own != nil && !corrOps[rq.op]:
		// undecodable first message on an uncorrelated reply channel
	default:
		wd.For("C06", "false-failure", "request %d (%s) failed with no reason: %v", n, rq.op, rq.err)
	}
	if rq.hasDeadline && !stalls {
		limit := rq.deadline
		if rq.pubEnd > limit {
			limit = rq.pubEnd
		}
		if s := rq.started + rq.subdelay + rq.pubdelay; s > limit {
			limit = s
		}
		if limit += 5 * time.Millisecond; rq.returned_ > limit {
			wd.For("C06", "beyond-context", "request %d (%s) returned %v after its context was done", n, rq.op, rq.returned_-rq.deadline)
		}
	}
	// Middlewares ran once each, in order, for the publication and for the reply.
	var want []event
	chain := func(beh, dir string) bool {
		for i, c := range beh {
			want = append(want, event{"m", fmt.Sprintf("%d,%s", i, dir)})
			if c == 'b' {
				return false
			}
		}
		return true
	}
	if !rq.subfail && len(rq.subs) > 0 {
		if chain(rq.behPub, "publication") && !rq.pubfail {
			if rq.err == nil || replyRefused != "" && errName(rq.err) == replyRefused {
				chain(rq.behReply, "wait-for")
			}
		}
		got := rq.ev
		if len(got) != len(want) || !reflect.DeepEqual(append([]event{}, got...), append([]event{}, want...)) && len(want) > 0 {
			wd.For("C05", "request-chain", "request %d: middlewares ran %v instead of %v", n, got, want)
		}
	}
	if rq.handled > 1 && rq.dups == 0 {
		wd.For("C06", "handled-twice", "request %d was handled %d times", n, rq.handled)
	}
}

// hooked adds the plan's faults around the broker.
type hooked struct {
	*simBroker
	pub  func(ctx context.Context)
	sub  func(ctx context.Context, addr string) error
	subd func(ctx context.Context, s *bsub)
}

func (x hooked) Publish(ctx context.Context, addr string, m extensions.BrokerMessage) error {
	x.pub(ctx)
	return x.simBroker.Publish(ctx, addr, m)
}

func (x hooked) Subscribe(ctx context.Context, addr string) (extensions.BrokerChannelSubscription, error) {
	if err := x.sub(ctx, addr); err != nil {
		return extensions.BrokerChannelSubscription{}, err
	}
	s, err := x.simBroker.Subscribe(ctx, addr)
	if err == nil {
		// opened without interruption, so it is the latest one
		for i := len(x.subs) - 1; i >= 0; i-- {
			if x.subs[i].sub.MessagesChannel() == s.MessagesChannel() {
				x.subd(ctx, x.subs[i])
				break
			}
		}
	}
	return s, err
}
