package main

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/errorhandlers"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/middlewares"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"
	"verifsim/w"
)

// The traffic scenario: publishers, a faulty broker, subscribers, chains of
// middlewares. What each chain must do is computed by a small reference model
// and compared, event by event, with what happened.
//
// Cfg: pkg, cap, ver, ku/ka (middleware kinds of the user's and the app's
// controllers, one decimal digit each after a leading 1), suball, subctx.
// Ops:
//   send   A lane gap n enc pubfail pubdelay deldelay dups dur ctxdone  S op json behPub behRecv hbeh ehbeh par…
//   inject A lane gap n kind(1 bad 2 fuzz) deldelay dur         S op payloadhex headersjson behRecv hbeh ehbeh par…
//   unsub  A lane gap resubgap(-1 none)                         S op par…

func init() {
	w.Register(&w.Scenario{Name: "traffic", Props: []string{"C02", "C03", "C04", "C05", "C16", "C17"}, Gen: genTraffic, Run: runTraffic, Weight: 4})
	w.Register(&w.Scenario{Name: "versioned-traffic", Props: []string{"C08"}, Gen: genVersionedTraffic, Run: runTraffic})
}

// scriptErr is an error made by the harness.
type scriptErr string

func (e scriptErr) Error() string { return string(e) }

func errName(err error) string {
	if err == nil {
		return ""
	}
	var s scriptErr
	if errors.As(err, &s) {
		return string(s)
	}
	return "other"
}

// scriptedPanic panics, with one kind of value or another.
func scriptedPanic(n int, msg string) {
	switch n % 4 {
	case 1:
		panic(errors.New(msg))
	case 2:
		var none []int
		_ = none[n] // a runtime error
	case 3:
		panic(struct{ n int }{n})
	}
	panic(msg)
}

type event struct {
	k string
	s string
}

func (e event) String() string { return e.k + "(" + e.s + ")" }

const (
	kScript = 0
	kRecov  = 1
	kLog    = 2
	kInter  = 3
)

func kindsOf(v int64) []int {
	s := strconv.FormatInt(v, 10)
	var l []int
	for _, c := range s[1:] {
		l = append(l, int(c-'0'))
	}
	return l
}

// appSends tells the operations whose messages the application sends.
func appSends(op string) bool { return op == "news" || op == "chatter" }

func textLike(op string) bool {
	switch op {
	case "text", "room", "seat", "chat", "news", "ping", "pong", "ask", "answer", "call", "meta", "label", "traced", "branded":
		return true
	}
	return false
}

// badPayloads are bytes the decoder of an operation has to refuse.
func badPayload(r *w.Rand, op string, n int, lenient bool) (payload []byte, headers map[string]string) {
	tag := fmt.Sprintf("#%d#", n)
	switch op {
	case "text":
		return []byte(tag), map[string]string{"tag": "x", "at": w.Pick(r, "", "yesterday", "2020-13-45T00:00:00Z", "2020-01-01")}
	case "meta":
		return []byte(tag), w.Pick(r, map[string]string{"info": ""}, map[string]string{"info": "{"}, map[string]string{"more": "[]"}, map[string]string{"more": `{"l":["a"]}`},
			map[string]string{"info": "1"}, map[string]string{"more": ""})
	case "extra":
		return []byte(w.Pick(r, `{"id":"`+tag+`"`, `{"id":12}`, `[]`, `{"x":12}`, `{"x":{}}`, `{"level":"x"}`, `{"level":99999999999}`, ``)), nil
	case "counts", "chatter":
		return []byte(w.Pick(r, `{"id":"`+tag+`"`, `{"id":12}`, `[]`, `{"x":"y"}`, `{"x":1.5}`, `{"x":{}}`, ``)), nil
	case "rows":
		return []byte(w.Pick(r, `[{]`, `{}`, `[1]`, ``, `[{"a":"b"}]`, `[{"b":["a"]}]`)), nil
	case "branded":
		return []byte(tag), map[string]string{"made": w.Pick(r, "", "yesterday", "2020-13-45T00:00:00Z")}
	case "twisty":
		return []byte(w.Pick(r, `{"body":3}`, `{`, ``, `{"about":[]}`, `{"about":{"cid":1}}`)), nil
	case "knots":
		return []byte(w.Pick(r, `{"id":"`+tag+`"`, `[]`, `{"id":1}`, `{"name":1}`, `{"rank":"x"}`, `{"box":[]}`, `{"words":{}}`, `{"words":[1]}`, `{"more":[[]]}`, `{"poly":{"k":1}}`, `{"snap":{"list":["x"]}}`, `{"snap":{"cell":{"w":"x"}}}`)), nil
	case "mixed":
		return []byte(w.Pick(r, `{"id":"`+tag+`"`, `[]`, `{"id":1}`, `{"flags":{"x":1}}`, `{"named":{"x":"y"}}`, `{"nums":{"1":"x"}}`, `{"lists":{"l":[1.5]}}`, `{"tree":{"kids":[{"kids":{}}]}}`, `{"any":{"size":"x"}}`, `{"either":[]}`)), nil
	case "union":
		return []byte(w.Pick(r, `{`, `[]`, `{"free":{}}`, ``, `{"one":1}`, `{"extra":{"k":1}}`, `{"free":[{"x":"y"}]}`)), nil
	case "small", "ratio32", "level":
		return make([]byte, r.N(4)), nil
	case "big", "ratio":
		return make([]byte, r.N(8)), nil
	case "order":
		never := `{"createdAt":"never"}`
		if lenient {
			never = `{"created_at":12}`
		}
		return []byte(w.Pick(r, `{"id":"`+tag+`"`, `{"id":12}`, `[]`, `{"id":"a","count":"x"}`, never, ``)), nil
	case "list":
		return []byte(w.Pick(r, `[1,`, `{}`, `["a"]`, ``, `x`)), nil
	case "stamp", "when":
		return []byte(w.Pick(r, "", "now", "2020-01-01 10:00:00")), nil
	case "pingd", "pongd":
		return []byte(w.Pick(r, `{"body":3}`, `{`, ``, `{"meta":[]}`, `{"meta":{"ids":"x"}}`, `{"meta":{"ids":{"cid":1}}}`)), nil
	case "callp":
		return []byte(w.Pick(r, `{"body":3}`, `{`, ``, `{"meta":[]}`, `{"meta":{"cid":{}}}`)), nil
	case "traced":
		return []byte(tag), map[string]string{"traceCtx": w.Pick(r, "", "{", "[]", "1", `{"id":1}`)}
	case "pingb", "pongb":
		return []byte(w.Pick(r, `{"body":3}`, `{`, ``, `null1`, `{"cid":[]}`)), nil
	}
	return nil, nil
}

func canBeBad(op string, lenient bool) bool {
	switch op {
	case "text", "stamp", "when", "branded":
		return !lenient
	case "meta", "extra", "counts", "chatter", "rows", "union", "mixed", "knots", "twisty", "level", "small", "ratio32", "big", "ratio", "order", "list", "pingb", "pongb", "pingd", "pongd", "callp", "traced":
		return true
	}
	return false
}

// genCorr is a correlation ID of the user's own.
func genCorr(r *w.Rand, n int) string {
	return fmt.Sprintf("%scorr-%d%s", w.Pick(r, "", "", " ", "é"), n, w.Pick(r, "", "", "", "/%d {}", " ", "-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789"))
}

func genTraffic(r *w.Rand, p *w.Plan) {
	p.Cfg["pkg"] = int64(w.Pick(r, 0, 0, 1))
	if p.Prop == "C16" || r.P(10) {
		p.Cfg["pkg"] = int64(w.Pick(r, 0, 1, 3))
	}
	pk := packages[[]string{"simv3", "simv2", "", "simv3p"}[p.Cfg["pkg"]]]
	lenient := p.Cfg["pkg"] == 3
	p.Cfg["cap"] = int64(w.Pick(r, 0, 1, 8, 64))
	p.Cfg["suball"] = int64(r.N(2))
	if p.Prop == "C17" {
		p.Cfg["logger"] = int64(w.Pick(r, 0, 1, 2))
	}
	p.Cfg["subctx"] = int64(r.N(3))
	p.Cfg["icap"] = int64(w.Pick(r, 0, 0, 1, 2))
	ver := r.P(15)
	if ver {
		p.Cfg["ver"] = 1
	}
	chain := func() int64 {
		v := int64(1)
		n := w.Pick(r, 0, 0, 1, 1, 2, 2, 3, 4)
		if p.Prop == "C05" {
			n = r.Range(1, 5)
		}
		for i := 0; i < n; i++ {
			v = v*10 + int64(w.Pick(r, kScript, kScript, kScript, kScript, kScript, kRecov, kLog, kInter))
		}
		return v
	}
	p.Cfg["ku"], p.Cfg["ka"] = chain(), chain()
	ku, ka := kindsOf(p.Cfg["ku"]), kindsOf(p.Cfg["ka"])
	hasRecov := func(k []int, before int) bool {
		for i := 0; i < before && i < len(k); i++ {
			if k[i] == kRecov {
				return true
			}
		}
		return false
	}
	wild := w.Pick(r, 0, 10, 40, 80)
	if p.Prop == "C05" {
		wild = w.Pick(r, 20, 60, 95)
	}
	beh := func(k []int) string {
		s := ""
		for i := range k {
			c := w.Pick(r, "p", "w", "w", "m", "c", "s")
			if r.P(wild) {
				c = w.Pick(r, "p", "w", "W", "a", "b", "f", "m", "c", "s", "d")
				if hasRecov(k, i) && r.P(20) {
					c = "P"
				}
			}
			s += c
		}
		return s
	}
	handler := func(k []int) string {
		if !r.P(wild/2 + 10) {
			return "o"
		}
		if hasRecov(k, len(k)) && r.P(30) {
			return "P"
		}
		return w.Pick(r, "e", "o")
	}
	ops := []string{"text", "small", "big", "ratio", "ratio32", "order", "list", "stamp", "room", "seat", "ping", "pingb", "news",
		"extra", "counts", "meta", "when", "level", "label", "rows", "union", "pingd", "traced", "mixed", "knots", "branded", "twisty",
		// one channel used in both directions, by one of them
		w.Pick(r, "chat", "chatter")}
	if pk.V == 3 {
		ops = append(ops, "ask", "call", "callp")
	}
	// A few operations, so that bursts meet on one channel.
	use := []string{}
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		use = append(use, w.Pick(r, ops...))
	}
	if p.Prop == "C16" {
		use = ops
	}
	for _, op := range use {
		if op == "chatter" {
			p.Cfg["suball"] = 0 // the application would subscribe to the channel too
		}
	}
	rooms := []string{"a", "b.c", "", "%d{a}", "Room-01234567890123456789"}
	par := func(op string) []string {
		switch nParams(op) {
		case 1:
			return []string{w.Pick(r, rooms...)}
		case 2:
			return []string{w.Pick(r, rooms...), w.Pick(r, "1", "2")}
		}
		return nil
	}
	lanes := r.Range(1, 4)
	span := w.Pick(r, 1, 20, 3000)
	total := r.Range(1, 24)
	badness := w.Pick(r, 0, 10, 40)
	if p.Prop == "C02" || p.Prop == "C16" {
		badness = w.Pick(r, 0, 30, 60)
	}
	for n := 1; n <= total; n++ {
		op := w.Pick(r, use...)
		pp := par(op)
		k, k2 := ku, ka
		if appSends(op) {
			k, k2 = ka, ku
		}
		dur := 0
		if r.P(30) {
			dur = w.Pick(r, 10, 1000, 100000)
		}
		delay := 0
		if r.P(30) {
			delay = w.Pick(r, 5, 500, 20000)
		}
		eh := w.Pick(r, "n", "n", "a", "k", "l")
		if r.P(badness) {
			kind := 1
			var payload []byte
			hdr := map[string]string{}
			if canBeBad(op, lenient) && r.P(60) {
				payload, hdr = badPayload(r, op, n, lenient)
			} else {
				kind = 2
				payload = make([]byte, r.N(20))
				for i := range payload {
					payload[i] = byte(r.U64())
				}
				if r.P(40) {
					payload = []byte(w.Pick(r, "{}", "null", "[]", `{"id":null}`, `{"nested":{"key":1}}`, `"x"`, "\xff\xfe", `{"body":"x","cid":"y"}`, `{"body":"x","meta":{}}`, `{"body":"x","meta":null}`, `{"body":"x","meta":{"ids":null}}`))
				}
				hdr = map[string]string{}
				if r.P(50) {
					hdr[w.Pick(r, "tag", "note", "at", "correlationId", "who", "source", "traceCtx", "myID", "made", "zzz", "")] = w.Pick(r, "", "x", "2020-01-01T00:00:00Z", "\xff", "{}", "null")
				}
			}
			hj, _ := json.Marshal(hdr)
			o := w.MkOp("inject", r.N(lanes), r.N(span), n, kind, delay, dur)
			o.S = append([]string{op, hex.EncodeToString(payload), string(hj), beh(k2), handler(k2), eh}, pp...)
			p.Ops = append(p.Ops, o)
			continue
		}
		corr := ""
		if corrOps[op] && r.P(50) {
			corr = genCorr(r, n)
		}
		enc, fail, dups, pubdelay := 0, 0, 0, 0
		if op == "order" && r.P(15) {
			enc = 1
		}
		if r.P(wild/3 + 5) {
			fail = 1
		}
		if r.P(15) {
			dups = r.Range(1, 2)
		}
		if r.P(30) {
			pubdelay = w.Pick(r, 5, 300, 30000)
		}
		done := 0 // the caller's context: 1 already done, 2 ends while the call runs
		if r.P(12) {
			done = r.Range(1, 2)
		}
		foreign := 0
		if r.P(25) {
			foreign = 1
		}
		o := w.MkOp("send", r.N(lanes), r.N(span), n, enc, fail, pubdelay, delay, dups, dur, done, foreign)
		js := genMsg(r, op, n, corr)
		if pk.Name != "simv3p" {
			js = leaveOut(r, op, js)
		}
		o.S = append([]string{op, js, beh(k), beh(k2), handler(k2), eh}, pp...)
		p.Ops = append(p.Ops, o)
		if !ver && r.P(4) {
			u := w.MkOp("unsub", 0, r.N(span*4), w.Pick(r, -1, 0, 500))
			u.S = append([]string{op}, pp...)
			p.Ops = append(p.Ops, u)
		}
	}
}

func genVersionedTraffic(r *w.Rand, p *w.Plan) {
	genTraffic(r, p)
	p.Cfg["ver"] = 1
	var l []w.Op
	for _, o := range p.Ops {
		if o.K != "unsub" {
			l = append(l, o)
		}
	}
	p.Ops = l
}

// item is what the plan says about a message.
type item struct {
	n                            int
	op                           string
	par                          []string
	behPub, behRecv, hbeh, ehbeh string
	dur                          time.Duration
	js                           string
	kind                         int // 0 sent, 1 bad, 2 fuzz
	fail                         bool
	enc                          bool
	pubdelay, delay              time.Duration
	dups                         int
	done                         int    // the caller's context is (1) or gets (2) done
	foreign                      bool   // the caller's context comes from the handling of another message
	corr                         string // as seen by the broker
	given                        string
	sent                         any
	published                    int
	accepted                     bool
	returned                     bool
	tx                           []event
	first                        string // the broker message before any middleware
}

// gen is one subscription made by a controller.
type gen struct {
	op, addr string
	side     string
	busy     bool
	sub      *bsub
	log      []event
}

type traffic struct {
	wd        *w.World
	pk        *Package
	b         *simBroker
	items     map[int]*item
	kinds     map[string][]int
	inter     map[string]chan extensions.BrokerMessage
	interWant map[string][]string // payloads
	interGot  map[string][]string
	passed    map[string]int // operations that a side's middlewares let through
	gens      []*gen
	corrs     map[string]int
	unsubs    bool
	curNum    map[uint64]int
	out       *logCheck // the shipped logger in use, if any
}

func numInStr(s string) int {
	if m := delivRe.FindStringSubmatch(s); m != nil {
		n, _ := strconv.Atoi(m[1])
		return n
	}
	return -1
}

var delivRe = regexp.MustCompile(`"x-delivery":"(\d+)"`)

func sortedStr(s string) string {
	b := []byte(s)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return string(b)
}

func ctxStr(ctx context.Context, k extensions.ContextKey) string {
	switch v := ctx.Value(k).(type) {
	case nil:
		return "<none>"
	case string:
		return v
	default:
		return fmt.Sprintf("%v", v)
	}
}

// checkCtx verifies the metadata of a context.
func (t *traffic) checkCtx(where string, ctx context.Context, side, dir, addr string, n int, msg string, corr string, corrRequired bool) {
	is := func(k extensions.ContextKey, want string) {
		if got := ctxStr(ctx, k); got != want {
			t.wd.For("C17", "context", "%s, message %d: %s is %q instead of %q", where, n, k, got, want)
		}
	}
	is(extensions.ContextKeyIsVersion, t.pk.Version())
	is(extensions.ContextKeyIsProvider, side)
	is(extensions.ContextKeyIsChannel, addr)
	is(extensions.ContextKeyIsDirection, dir)
	if got := ctxStr(ctx, extensions.ContextKeyIsBrokerMessage); msg != "*" && sortedStr(got) != sortedStr(msg) {
		t.wd.For("C17", "context-message", "%s, message %d: the broker message of the context is %q, the message is %q", where, n, got, msg)
	}
	got := ctxStr(ctx, extensions.ContextKeyIsCorrelationID)
	if got == "<none>" {
		got = ""
	}
	if corr != "*" && got != corr && (got != "" || corrRequired) {
		t.wd.For("C17", "context-correlation", "%s, message %d: correlation ID of the context is %q instead of %q", where, n, got, corr)
	}
	if ctx.Value(doneKey) != nil {
		if ctx.Err() == nil {
			t.wd.For("C05", "context-lost", "%s, message %d: a middleware passed a context that is done, this one is not", where, n)
		}
	} else if err := ctx.Err(); err != nil && dir == "reception" {
		t.wd.For("C17", "context-dead", "%s, message %d: the context is already done (%v)", where, n, err)
	}
}

// foreignCtx is what a handler would pass on when it publishes another message.
func foreignCtx(ctx context.Context) context.Context {
	for _, k := range []extensions.ContextKey{extensions.ContextKeyIsVersion, extensions.ContextKeyIsProvider, extensions.ContextKeyIsChannel,
		extensions.ContextKeyIsDirection, extensions.ContextKeyIsBrokerMessage, extensions.ContextKeyIsCorrelationID} {
		ctx = context.WithValue(ctx, k, "foreign "+string(k))
	}
	return ctx
}

// doneKey marks contexts that a middleware ended before it passed them on.
const doneKey simKey = "done"

type cvKey int

func cvs(ctx context.Context) string {
	s := ""
	for i := 0; i < 8; i++ {
		if v := ctx.Value(cvKey(i)); v != nil {
			s += fmt.Sprintf("%d:%v;", i, v)
		}
	}
	return s
}

func xhdrs(h map[string][]byte) string {
	var l []string
	for k, v := range h {
		if strings.HasPrefix(k, "x-m") {
			l = append(l, k+"="+string(v))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func state(op string, payload string, hdrs, cv string) string {
	if !textLike(op) {
		payload = ""
	}
	return payload + "|" + hdrs + "|" + cv
}

func (t *traffic) put(l *[]event, k, format string, a ...any) {
	e := event{k, fmt.Sprintf(format, a...)}
	*l = append(*l, e)
	t.wd.Rec("%s", e)
}

func (g *gen) String() string { return g.side + ":" + g.addr }

// where finds the log a context and a message belong to.
func (t *traffic) where(ctx context.Context, msg extensions.BrokerMessage) (*item, *[]event, *delivery) {
	if n := numCtx(ctx); n >= 0 {
		it := t.items[n]
		return it, &it.tx, nil
	}
	d := t.b.byHeader(msg)
	if d == nil {
		return nil, nil, nil
	}
	return t.items[d.n], &d.sub.gen.(*gen).log, d
}

func (t *traffic) middleware(side string, i int) extensions.Middleware {
	return func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) error {
		it, log, d := t.where(ctx, *msg)
		if it == nil {
			t.wd.For("C02,C05,C17", "unidentified", "middleware %d of %s got a message that was never delivered: %s", i, side, msgStr(*msg))
			return nil
		}
		dir, beh, addr, corr := "publication", it.behPub, t.pk.Addr(it.op, it.par), it.corr
		str := "*"
		if d != nil {
			dir, beh, addr = "reception", it.behRecv, d.sub.addr
			str = d.msg.String()
			if it.kind != 0 {
				corr = "*"
			}
		} else {
			if it.first == "" {
				it.first = msg.String()
				it.corr = wireCorr(it.op, *msg)
				corr = it.corr
			}
			str = it.first
		}
		t.put(log, "m", "%d,%d,%s,%s", it.n, i, dir, state(it.op, string(msg.Payload), xhdrs(msg.Headers), cvs(ctx)))
		t.checkCtx(fmt.Sprintf("middleware %d (%s)", i, dir), ctx, side, dir, addr, it.n, str, corr, d == nil)
		own := scriptErr(fmt.Sprintf("mw%d/%s/%d", i, dir, it.n))
		call := func(c context.Context) error {
			err := next(c)
			t.put(log, "r", "%d,%d,%s,%s", it.n, i, dir, errName(err))
			return err
		}
		switch beh[i] {
		case 'p':
			return nil
		case 'w':
			return call(ctx)
		case 'W':
			err := call(ctx)
			if err2 := call(ctx); err2 != nil && err == nil {
				t.wd.For("C05", "second-next", "calling next again returned %v", err2)
			}
			return err
		case 'a':
			_ = call(ctx)
			return nil
		case 'b':
			return own
		case 'f':
			_ = call(ctx)
			return own
		case 'm':
			if textLike(it.op) {
				msg.Payload = append(append([]byte{}, msg.Payload...), fmt.Sprintf("~%c%d", dir[0], i)...)
			}
			h := map[string][]byte{}
			for k, v := range msg.Headers {
				h[k] = v
			}
			h[fmt.Sprintf("x-m%c%d", dir[0], i)] = []byte(fmt.Sprint(it.n))
			msg.Headers = h
			return call(ctx)
		case 'c':
			return call(context.WithValue(ctx, cvKey(i), it.n))
		case 'd':
			c, cancel := context.WithCancel(context.WithValue(context.WithValue(ctx, cvKey(i), it.n), doneKey, true))
			cancel()
			t.wd.Probe("middleware passes a context that is done")
			return call(c)
		case 's':
			time.Sleep(time.Duration(50*(i+1)) * time.Microsecond)
			return call(ctx)
		case 'P':
			t.wd.Fault("middleware panic")
			scriptedPanic(it.n, fmt.Sprintf("scripted panic of middleware %d for message %d", i, it.n))
		}
		return nil
	}
}

// simLogger records what is logged about messages.
type simLogger struct {
	t    *traffic
	side string
}

func (l simLogger) Info(ctx context.Context, msg string, info ...extensions.LogInfo) {
	t := l.t
	t.out.log("info", ctx, msg, info)
	if msg != "Received a message" && msg != "Published a message" {
		return
	}
	if n := numCtx(ctx); n >= 0 {
		it := t.items[n]
		t.put(&it.tx, "l", "%d,%s", n, msg)
		return
	}
	id := numInStr(ctxStr(ctx, extensions.ContextKeyIsBrokerMessage))
	if id < 0 || id >= len(t.b.deliveries) {
		t.wd.For("C17", "log-context", "a log call was made about no known message: %q", ctxStr(ctx, extensions.ContextKeyIsBrokerMessage))
		return
	}
	d := t.b.deliveries[id]
	if ctxStr(ctx, extensions.ContextKeyIsChannel) != d.addr {
		t.wd.For("C17", "log-context", "log call about message %d of %s names channel %s", d.n, d.addr, ctxStr(ctx, extensions.ContextKeyIsChannel))
	}
	t.put(&d.sub.gen.(*gen).log, "l", "%d,%s", d.n, msg)
}
func (l simLogger) Warning(ctx context.Context, msg string, info ...extensions.LogInfo) {
	l.t.out.log("warning", ctx, msg, info)
}
func (l simLogger) Error(ctx context.Context, msg string, info ...extensions.LogInfo) {
	l.t.out.log("error", ctx, msg, info)
	l.t.wd.Rec("logged error: %s", msg)
}

// corrLoc is where the contract puts the correlation ID of an operation.
var corrLoc = map[string][]string{
	"order": {"Headers", "correlationId"}, "ping": {"Headers", "correlationId"}, "pong": {"Headers", "correlationId"}, "call": {"Headers", "correlationId"},
	"pingb": {"Payload", "cid"}, "pongb": {"Payload", "cid"}, "callp": {"Payload", "meta", "cid"},
	"pingd": {"Payload", "meta", "ids", "cid"}, "pongd": {"Payload", "meta", "ids", "cid"}, "traced": {"Headers", "traceCtx", "id"}, "branded": {"Headers", "myID"}, "twisty": {"Payload", "about", "cid"},
}

// wireCorr reads the correlation ID off a broker message.
func wireCorr(op string, m extensions.BrokerMessage) string {
	l := corrLoc[op]
	if l == nil {
		return ""
	}
	b := m.Payload
	if l[0] == "Headers" {
		if b = m.Headers[l[1]]; len(l) == 2 {
			return string(b)
		}
		l = l[1:]
	}
	x, _ := decodeJSON(string(b))
	for _, k := range l[1:] {
		o, _ := x.(map[string]any)
		x = o[k]
	}
	s, _ := x.(string)
	return s
}

// full is the JSON form of a message once it has its correlation ID, and zero
// values for the required properties its sender did not set.
func (it *item) full(p *Package) string {
	l := corrLoc[it.op]
	corr := l != nil && it.given == "" && it.corr != ""
	if !corr && it.op != "union" && it.op != "knots" && (zeros[it.op] == nil || p.Name == "simv3p") {
		return it.js
	}
	x, _ := decodeJSON(it.js)
	if corr {
		o := x.(map[string]any)
		for _, k := range l[:len(l)-1] {
			if _, there := o[k].(map[string]any); !there {
				o[k] = map[string]any{}
			}
			o = o[k].(map[string]any)
		}
		o[l[len(l)-1]] = it.corr
	}
	if it.op == "union" {
		// the x-omitempty extension
		o := x.(map[string]any)["Payload"].(map[string]any)
		if _, there := o["nul"]; !there {
			o["nul"] = nil
		}
		if o["brief"] == "" && p.Name != "simv3p" {
			delete(o, "brief")
		}
	}
	if it.op == "knots" {
		o := x.(map[string]any)["Payload"].(map[string]any)
		if _, there := o["hint"]; !there {
			o["hint"] = nil
		}
	}
	if p.Name != "simv3p" {
		eachZero(it.op, x, func(o map[string]any, key, zero string) {
			if _, there := o[key]; !there {
				o[key], _ = decodeJSON(zero)
			}
		})
	}
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (t *traffic) handler(g *gen) Handler {
	return func(ctx context.Context, op string, m any) error {
		n := NumOf(op, m)
		id := numInStr(ctxStr(ctx, extensions.ContextKeyIsBrokerMessage))
		var d *delivery
		if id >= 0 && id < len(t.b.deliveries) {
			d = t.b.deliveries[id]
		}
		var it *item
		if d != nil {
			it = t.items[d.n]
		}
		t.intercepted(g.side)
		if g.busy {
			t.wd.For("C02", "concurrent-handler", "the handler of %s was entered while it was running", g)
		}
		if op != g.op {
			t.wd.For("C02", "wrong-handler", "the handler of %s got a message for %s", g.op, op)
		}
		switch {
		case d == nil:
			t.wd.For("C17", "handler-context", "the handler's context names no known message: %q", ctxStr(ctx, extensions.ContextKeyIsBrokerMessage))
		case it.kind == 0:
			corr := CorrOf(m)
			if corrOps[op] {
				corr = it.corr // what the wire says
			}
			t.checkCtx("handler", ctx, g.side, "reception", g.addr, n, d.msg.String(), corr, true)
			if d.n != n && n >= 0 {
				t.wd.For("C17", "context-message", "the handler got message %d with a context about message %d", n, d.n)
			}
		default:
			t.checkCtx("handler", ctx, g.side, "reception", g.addr, d.n, d.msg.String(), CorrOf(m), true)
		}
		if it == nil || it.kind == 0 { // identified by content
			it = t.items[n]
		}
		if it == nil {
			t.put(&g.log, "h", "%d,%s", n, Canon(m))
			t.put(&g.log, "H", "%d,", n)
			return nil
		}
		canon := Canon(m)
		if it.kind != 0 {
			canon = "*"
		}
		t.put(&g.log, "h", "%d,%s,%s", it.n, canon, cvs(ctx))
		g.busy = true
		if it.dur > 0 {
			time.Sleep(it.dur)
		} else {
			runtime.Gosched()
		}
		g.busy = false
		if err := ctx.Err(); err != nil && ctx.Value(doneKey) == nil {
			t.wd.For("C17", "context-dead", "the context of message %d ended during its handler: %v", it.n, err)
		}
		switch it.hbeh {
		case "e":
			err := scriptErr(fmt.Sprintf("handler/%d", it.n))
			t.put(&g.log, "H", "%d,%s", it.n, errName(err))
			return err
		case "P":
			t.wd.Fault("handler panic")
			t.put(&g.log, "H", "%d,panic", it.n)
			scriptedPanic(it.n, fmt.Sprintf("scripted panic of the handler for message %d", it.n))
		}
		t.put(&g.log, "H", "%d,", it.n)
		return nil
	}
}

func (t *traffic) errorHandler(side string) extensions.ErrorHandler {
	return func(ctx context.Context, topic string, msg *extensions.AcknowledgeableBrokerMessage, err error) {
		d := t.b.byHeader(msg.BrokerMessage)
		if d == nil {
			t.wd.For("C02,C17", "unidentified", "the error handler of %s got a message that was never delivered: %s", side, msgStr(msg.BrokerMessage))
			return
		}
		it, g := t.items[d.n], d.sub.gen.(*gen)
		t.put(&g.log, "e", "%d,%s,%s", d.n, topic, errName(err))
		corr := it.corr
		if it.kind != 0 {
			corr = "*"
		}
		t.checkCtx("error handler", ctx, side, "reception", g.addr, d.n, d.msg.String(), corr, false)
		switch it.ehbeh {
		case "a":
			msg.Ack()
		case "k":
			msg.Nak()
		case "l":
			rec := &recLogger{next: simLogger{t, side}}
			errorhandlers.Logging(rec)(ctx, topic, msg, err)
			if len(rec.errs) != 1 || !strings.Contains(rec.errs[0], topic) || !strings.Contains(rec.errs[0], err.Error()) || numInStr(ctxStr(rec.ctx, extensions.ContextKeyIsBrokerMessage)) != d.id {
				t.wd.For("C17", "log-context", "the logging error handler logged %q about the error %q on %s of delivery %d", rec.errs, err, topic, d.id)
			}
		}
		runtime.Gosched()
		t.put(&g.log, "E", "%d", d.n)
	}
}

func (t *traffic) controller(side string, bc extensions.BrokerController) Ctl {
	var mws []extensions.Middleware
	for i, k := range t.kinds[side] {
		switch k {
		case kScript:
			mws = append(mws, t.middleware(side, i))
		case kRecov:
			mws = append(mws, middlewares.Recovery(simLogger{t, side}))
		case kLog:
			mws = append(mws, middlewares.Logging(simLogger{t, side}))
		case kInter:
			key := fmt.Sprint(side, i)
			ch := make(chan extensions.BrokerMessage, []int{10000, 0, 1}[t.wd.C("icap")])
			t.inter[key] = ch
			if t.wd.C("icap") > 0 {
				go func() {
					for m := range ch {
						t.interGot[key] = append(t.interGot[key], string(m.Payload))
						time.Sleep(time.Duration(len(t.interGot[key])%3) * 50 * time.Microsecond)
					}
				}()
			}
			mws = append(mws, middlewares.Intercepter(ch))
		}
	}
	o := CtlOpts{Logger: simLogger{t, side}, Middlewares: mws, ErrorHandler: t.errorHandler(side)}
	mk := t.pk.NewApp
	if side == "user" {
		mk = t.pk.NewUser
	}
	c, err := mk(bc, o)
	if err != nil {
		panic(err)
	}
	return c
}

// modelChain is the reference: what a chain of middlewares around an operation does.
type modelChain struct {
	t           *traffic
	it          *item
	kinds       []int
	beh         string
	dir, side   string
	payload     string
	hdrs        map[string][]byte
	cv          map[int]int
	ev          []event
	settled     bool
	decodeFails bool
	inter       map[string][]string
	addr        string
	ran         int
}

func (m *modelChain) put(k, f string, a ...any) { m.ev = append(m.ev, event{k, fmt.Sprintf(f, a...)}) }

func (m *modelChain) cvs() string {
	s := ""
	for i := 0; i < 8; i++ {
		if v, ok := m.cv[i]; ok {
			s += fmt.Sprintf("%d:%v;", i, v)
		}
	}
	return s
}

func (m *modelChain) exec(i int) (err string, panicked bool) {
	if i == len(m.kinds) {
		m.ran++
		return m.operation()
	}
	switch m.kinds[i] {
	case kRecov:
		err, p := m.exec(i + 1)
		if p {
			return "other", false
		}
		return err, false
	case kLog:
		m.put("l", "%d,%s", m.it.n, map[string]string{"reception": "Received a message", "publication": "Published a message"}[m.dir])
		return m.exec(i + 1)
	case kInter:
		key := fmt.Sprint(m.side, i)
		m.inter[key] = append(m.inter[key], m.payload)
		return m.exec(i + 1)
	}
	m.put("m", "%d,%d,%s,%s", m.it.n, i, m.dir, state(m.it.op, m.payload, xhdrs(m.hdrs), m.cvs()))
	own := fmt.Sprintf("mw%d/%s/%d", i, m.dir, m.it.n)
	call := func() (string, bool) {
		e, p := m.exec(i + 1)
		if !p {
			m.put("r", "%d,%d,%s,%s", m.it.n, i, m.dir, e)
		}
		return e, p
	}
	switch m.beh[i] {
	case 'p':
		return m.exec(i + 1)
	case 'w', 's':
		return call()
	case 'W':
		e, p := call()
		if !p {
			m.put("r", "%d,%d,%s,", m.it.n, i, m.dir)
		}
		return e, p
	case 'a':
		_, p := call()
		return "", p
	case 'b':
		return own, false
	case 'f':
		_, p := call()
		return own, p
	case 'm':
		if textLike(m.it.op) {
			m.payload += fmt.Sprintf("~%c%d", m.dir[0], i)
		}
		m.hdrs[fmt.Sprintf("x-m%c%d", m.dir[0], i)] = []byte(fmt.Sprint(m.it.n))
		return call()
	case 'c', 'd':
		old := m.cv
		m.cv = map[int]int{i: m.it.n}
		for k, v := range old {
			m.cv[k] = v
		}
		e, p := call()
		m.cv = old
		return e, p
	case 'P':
		return "", true
	}
	panic("unknown behaviour")
}

func (m *modelChain) operation() (string, bool) {
	it := m.it
	if m.dir == "publication" {
		res := ""
		if it.fail {
			res = "refused/" + fmt.Sprint(it.n)
		}
		m.put("B", "%d,%s,%s", it.n, m.addr, state(it.op, m.payload, xhdrs(m.hdrs), m.cvs()))
		m.put("R", "%d,%s", it.n, res)
		return res, false
	}
	if m.decodeFails {
		return "other", false
	}
	canon := "*"
	if it.kind == 0 {
		canon = m.t.expectCanon(it, m.payload)
	}
	m.put("h", "%d,%s,%s", it.n, canon, m.cvs())
	switch it.hbeh {
	case "e":
		e := fmt.Sprintf("handler/%d", it.n)
		m.put("H", "%d,%s", it.n, e)
		return e, false
	case "P":
		m.put("H", "%d,panic", it.n)
		return "", true
	}
	m.put("H", "%d,", it.n)
	m.put("a", "%d", it.n)
	m.settled = true
	return "", false
}

// expectCanon is the message the handler has to get.
func (t *traffic) expectCanon(it *item, payload string) string {
	p := reflect.New(reflect.TypeOf(it.sent))
	if it.enc {
		p.Elem().Set(reflect.ValueOf(it.sent))
	} else {
		p.Elem().Set(reflect.ValueOf(t.pk.Make(it.op, it.full(t.pk))))
	}
	if textLike(it.op) {
		p.Elem().FieldByName("Payload").SetString(payload)
	}
	return Canon(p.Elem().Interface())
}

func (t *traffic) textPayload(it *item) string {
	if !textLike(it.op) {
		return ""
	}
	return reflect.ValueOf(it.sent).FieldByName("Payload").String()
}

// modelTx is the reference history of a publication.
func (t *traffic) modelTx(it *item) []event {
	side := "user"
	if appSends(it.op) {
		side = "app"
	}
	m := &modelChain{t: t, it: it, kinds: t.kinds[side], beh: it.behPub, dir: "publication", side: side, payload: t.textPayload(it), hdrs: map[string][]byte{}, cv: map[int]int{}, inter: map[string][]string{}, addr: t.pk.Addr(it.op, it.par)}
	if it.enc {
		m.put("x", "%d,other", it.n)
		return m.ev
	}
	err, _ := m.exec(0)
	m.put("x", "%d,%s", it.n, err)
	t.keepInter(m)
	return m.ev
}

func (t *traffic) keepInter(m *modelChain) {
	for k, l := range m.inter {
		t.interWant[k] = append(t.interWant[k], l...)
	}
}

// modelRx are the possible histories of a reception.
func (t *traffic) modelRx(d *delivery) [][]event {
	it, g := t.items[d.n], d.sub.gen.(*gen)
	run := func(fails bool) []event {
		m := &modelChain{t: t, it: it, kinds: t.kinds[g.side], beh: it.behRecv, dir: "reception", side: g.side, payload: string(d.msg.Payload), hdrs: map[string][]byte{}, cv: map[int]int{}, inter: map[string][]string{}, decodeFails: fails}
		for k, v := range d.msg.Headers {
			m.hdrs[k] = v
		}
		err, _ := m.exec(0)
		if err != "" {
			m.put("e", "%d,%s,%s", d.n, d.addr, err)
			if !m.settled {
				switch it.ehbeh {
				case "a":
					m.put("a", "%d", d.n)
				case "k":
					m.put("n", "%d", d.n)
				}
				m.put("E", "%d", d.n)
				if it.ehbeh == "n" || it.ehbeh == "l" {
					m.put("n", "%d", d.n)
				}
			} else {
				m.put("E", "%d", d.n)
			}
		} else if !m.settled {
			m.put("?", "%d", d.n)
		}
		t.keepInter(m)
		return m.ev
	}
	switch it.kind {
	case 1:
		return [][]event{run(true)}
	case 2:
		return [][]event{run(false), run(true)}
	}
	return [][]event{run(false)}
}

// views are the events each property is about.
var views = map[string]string{
	"C02": "hHe",
	"C03": "HeEan?",
	"C04": "BRx",
	"C05": "mrhHBRexl",
	"C16": "hex",
	"C17": "",
	"C08": "hHBRxean?",
}

func view(l []event, kinds string) []event {
	var o []event
	for _, e := range l {
		if strings.Contains(kinds, e.k) {
			o = append(o, e)
		}
	}
	return o
}

// matchPrefix consumes the expected events from the actual ones; it returns
// what is left, or the event that did not match.
func matchPrefix(actual, want []event) (rest []event, bad string, ok bool) {
	for _, e := range want {
		if e.k == "?" {
			if len(actual) > 0 && (actual[0].k == "a" || actual[0].k == "n") && actual[0].s == e.s {
				actual = actual[1:]
			}
			continue
		}
		if len(actual) == 0 {
			return actual, fmt.Sprintf("expected %v, but nothing more happened", e), false
		}
		if actual[0] != e {
			return actual, fmt.Sprintf("expected %v, got %v", e, actual[0]), false
		}
		actual = actual[1:]
	}
	return actual, "", true
}

func runTraffic(wd *w.World) {
	t := &traffic{wd: wd, pk: pkgOf(wd), b: newSimBroker(wd), items: map[int]*item{}, kinds: map[string][]int{}, inter: map[string]chan extensions.BrokerMessage{}, interWant: map[string][]string{}, interGot: map[string][]string{}, passed: map[string]int{}, corrs: map[string]int{}}
	b := t.b
	b.capacity = wd.C("cap")
	t.out = newLogCheck(wd, wd.C("logger"))
	t.kinds["user"], t.kinds["app"] = kindsOf(wd.Plan.Cfg["ku"]), kindsOf(wd.Plan.Cfg["ka"])
	lanes := map[int][]w.Op{}
	var control []w.Op
	for _, op := range wd.Plan.Ops {
		switch op.K {
		case "send":
			it := &item{n: op.I(2), enc: op.I(3) > 0, fail: op.I(4) > 0, pubdelay: op.D(5), delay: op.D(6), dups: op.I(7), dur: op.D(8), done: op.I(9), foreign: op.I(10) > 0,
				op: op.Str(0), js: op.Str(1), behPub: op.Str(2), behRecv: op.Str(3), hbeh: op.Str(4), ehbeh: op.Str(5), par: op.S[6:]}
			t.items[it.n] = it
			lanes[op.I(0)] = append(lanes[op.I(0)], op)
		case "inject":
			it := &item{n: op.I(2), kind: op.I(3), delay: op.D(4), dur: op.D(5), op: op.Str(0), js: op.Str(1), behRecv: op.Str(3), hbeh: op.Str(4), ehbeh: op.Str(5), par: op.S[6:]}
			t.items[it.n] = it
			lanes[op.I(0)] = append(lanes[op.I(0)], op)
		case "unsub":
			control = append(control, op)
			t.unsubs = true
		}
	}
	wd.Trivial = len(t.items) < 2
	b.failPub = func(k int, addr string, n int) error {
		if it := t.items[n]; it != nil && it.fail {
			return scriptErr(fmt.Sprintf("refused/%d", n))
		}
		return nil
	}
	b.fan = func(n int, s *bsub) []time.Duration {
		it := t.items[n]
		if it == nil {
			return []time.Duration{0}
		}
		l := []time.Duration{it.delay}
		for i := 0; i < it.dups; i++ {
			wd.Fault("duplicate delivery")
			l = append(l, it.delay)
		}
		if it.delay > 0 {
			wd.Fault("delayed delivery")
		}
		return l
	}
	b.onPublish = func(ctx context.Context, addr string, n int, msg extensions.BrokerMessage, err error) {
		it := t.items[n]
		if it == nil {
			wd.For("C04", "phantom-publish", "the broker got a publication nobody asked for: %s", msgStr(msg))
			return
		}
		it.published++
		it.accepted = err == nil
		t.put(&it.tx, "B", "%d,%s,%s", n, addr, state(it.op, string(msg.Payload), xhdrs(msg.Headers), cvs(ctx)))
		if it.first == "" {
			m2 := cloneMsg(msg)
			delete(m2.Headers, versioning.DefaultVersionHeaderKey)
			it.first = m2.String()
			it.corr = wireCorr(it.op, msg)
		}
		t.checkWire(it, msg)
		t.checkDocument(it, msg)
		side := "user"
		if appSends(it.op) {
			side = "app"
		}
		t.intercepted(side)
		t.checkCtx("broker", ctx, side, "publication", addr, n, it.first, it.corr, true)
		if wd.C("ver") == 1 {
			if v := string(msg.Headers[versioning.DefaultVersionHeaderKey]); v != t.pk.Version() {
				wd.For("C08", "version-header", "message %d was published with version %q by a controller of version %q", n, v, t.pk.Version())
			}
		}
		t.put(&it.tx, "R", "%d,%s", n, errName(err))
	}
	b.onDeliver = func(d *delivery) {
		d.onAck = func(kind string) { t.put(&d.sub.gen.(*gen).log, kind[:1], "%d", d.n) }
	}
	var pubDelayOf = func(ctx context.Context) time.Duration {
		if it := t.items[numCtx(ctx)]; it != nil {
			return it.pubdelay
		}
		return 0
	}
	var bc extensions.BrokerController = delayed{b, pubDelayOf}
	if wd.C("ver") == 1 {
		bc = versioning.NewWrapper(bc, versioning.WithDefaultVersion(t.pk.Version()))
	}
	app, user := t.controller("app", bc), t.controller("user", bc)

	subscribe := func(c Ctl, op string, par []string) {
		g := &gen{op: op, addr: t.pk.Addr(op, par), side: c.Provider()}
		b.gen[g.addr] = g
		ctx, cancel := context.WithCancel(context.Background())
		if wd.C("subctx") == 2 {
			defer cancel()
		}
		if err := c.Subscribe(ctx, op, par, t.handler(g)); err != nil {
			wd.Violate("subscribe", "subscribing to %s failed: %v", g.addr, err)
			return
		}
		g.sub = b.subs[len(b.subs)-1]
		if g.sub.gen == nil {
			wd.For("C02,C04,C07", "address", "the subscription to %s was made on %q", g.addr, g.sub.addr)
			g.sub.gen = g
		}
		t.gens = append(t.gens, g)
	}
	current := func(addr string) *gen {
		for i := len(t.gens) - 1; i >= 0; i-- {
			if t.gens[i].addr == addr {
				return t.gens[i]
			}
		}
		return nil
	}
	// Subscriptions to everything the plan uses.
	if wd.C("suball") == 1 {
		all := map[string]*gen{}
		for _, op := range app.RecvOps() {
			if nParams(op) == 0 {
				g := &gen{op: op, addr: t.pk.Addr(op, nil), side: "app"}
				b.gen[g.addr] = g
				all[op] = g
			}
		}
		h := func(ctx context.Context, op string, m any) error { return t.handler(all[op])(ctx, op, m) }
		if err := app.SubscribeAll(context.Background(), h); err != nil {
			wd.Violate("subscribe", "subscribing to all channels failed: %v", err)
			return
		}
		for _, s := range b.subs {
			g := s.gen.(*gen)
			g.sub = s
			t.gens = append(t.gens, g)
		}
	}
	for n := 0; n <= 4096; n++ {
		it := t.items[n]
		if it == nil {
			continue
		}
		if current(t.pk.Addr(it.op, it.par)) == nil {
			c := app
			if appSends(it.op) {
				c = user
			}
			subscribe(c, it.op, it.par)
		}
	}
	// Traffic.
	for lane := 0; lane < 8; lane++ {
		ops := lanes[lane]
		if len(ops) == 0 {
			continue
		}
		wd.Go("lane", func() {
			for _, op := range ops {
				time.Sleep(op.D(1))
				it := t.items[op.I(2)]
				if op.K == "inject" {
					payload, _ := hex.DecodeString(op.Str(1))
					hdr := map[string]string{}
					_ = json.Unmarshal([]byte(op.Str(2)), &hdr)
					m := extensions.BrokerMessage{Headers: map[string][]byte{}, Payload: payload}
					for k, v := range hdr {
						m.Headers[k] = []byte(v)
					}
					wd.Fault([]string{"", "malformed message", "random message"}[it.kind])
					b.inject(t.pk.Addr(it.op, it.par), it.n, "bad", m)
					continue
				}
				t.send(app, user, it)
			}
		})
	}
	if len(control) > 0 {
		wd.Go("control", func() {
			for _, op := range control {
				time.Sleep(op.D(1))
				name, par := op.Str(0), op.S[1:]
				g := current(t.pk.Addr(name, par))
				if g == nil || g.sub.cancelled != 0 {
					continue
				}
				c := app
				if appSends(name) {
					c = user
				}
				g.sub.cancelled = b.tick()
				wd.Rec("unsubscribe from %s", g.addr)
				c.Unsubscribe(context.Background(), name, par)
				wd.Probe("unsubscribed under traffic")
				if op.I(2) >= 0 {
					time.Sleep(op.D(2))
					subscribe(c, name, par)
					wd.Probe("resubscribed under traffic")
				}
			}
		})
	}
	ended := wd.Join(2000 * time.Second)
	runtime.SimQuiesce()
	ended = wd.Join(2000*time.Second) && ended
	if !ended {
		wd.Violate("stuck", "activities did not end: %s", wd.Pending())
	}
	time.Sleep(2000 * time.Second)

	t.out.check()
	t.verdict()
}

// delayed adds the plan's publication delays.
type delayed struct {
	*simBroker
	d func(ctx context.Context) time.Duration
}

func (x delayed) Publish(ctx context.Context, addr string, m extensions.BrokerMessage) error {
	nap(x.d(ctx))
	return x.simBroker.Publish(ctx, addr, m)
}

func (t *traffic) send(app, user Ctl, it *item) {
	c := user
	if appSends(it.op) {
		c = app
	}
	it.sent = t.pk.Make(it.op, it.js)
	it.given = CorrOf(it.sent)
	if it.enc {
		v := reflect.New(reflect.TypeOf(it.sent)).Elem()
		v.Set(reflect.ValueOf(it.sent))
		nan := math.NaN()
		v.FieldByName("Payload").FieldByName("Ratio").Set(reflect.ValueOf(&nan))
		it.sent = v.Interface()
		t.wd.Fault("unencodable message")
	}
	before := Canon(it.sent)
	ctx := context.WithValue(context.Background(), keyNum, it.n)
	if it.foreign {
		ctx = foreignCtx(ctx)
		t.wd.Probe("publication with the context of another message")
	}
	switch it.done {
	case 1:
		c, cancel := context.WithCancel(ctx)
		cancel()
		ctx = c
		t.wd.Fault("caller's context done")
	case 2:
		c, cancel := context.WithTimeout(ctx, max(it.pubdelay/2, time.Microsecond))
		defer cancel()
		ctx = c
		t.wd.Fault("caller's context done")
	}
	t.wd.Rec("send message %d (%s) by %s", it.n, it.op, c.Provider())
	err := c.Send(ctx, it.op, it.par, it.sent)
	it.returned = true
	t.put(&it.tx, "x", "%d,%s", it.n, errName(err))
	if after := Canon(it.sent); after != before {
		t.wd.For("C04", "caller-message", "sending changed the caller's message from %s to %s", before, after)
	}
	if corrOps[it.op] && it.published > 0 {
		switch {
		case it.given != "" && it.corr != it.given:
			t.wd.For("C04,C16", "correlation-changed", "message %d was given correlation ID %q and published with %q", it.n, it.given, it.corr)
		case it.given == "" && it.corr == "":
			t.wd.For("C04", "correlation-missing", "message %d was published without correlation ID", it.n)
		}
		if o, dup := t.corrs[it.corr]; dup && it.given == "" {
			t.wd.For("C04", "correlation-reused", "messages %d and %d got the same correlation ID %q", o, it.n, it.corr)
		}
		t.corrs[it.corr] = it.n
	}
}

// checkWire compares what the broker gets with the caller's message, for the
// encodings that can be read without the code under test.
func (t *traffic) checkWire(it *item, msg extensions.BrokerMessage) {
	if it.sent == nil {
		return
	}
	v := reflect.ValueOf(it.sent)
	if it.op == "order" || it.op == "pingb" {
		var got, want any
		if json.Unmarshal(msg.Payload, &got) != nil {
			t.wd.For("C04", "wire", "message %d is not JSON on the wire: %q", it.n, msg.Payload)
			return
		}
		pv := reflect.New(v.Type()).Elem()
		pv.Set(v)
		if it.op == "pingb" && it.given == "" {
			pv.Addr().Interface().(interface{ SetCorrelationID(string) }).SetCorrelationID(it.corr)
		}
		j, _ := json.Marshal(pv.FieldByName("Payload").Interface())
		_ = json.Unmarshal(j, &want)
		if !reflect.DeepEqual(got, want) {
			t.wd.For("C04", "wire", "message %d went out as %s instead of %s", it.n, msg.Payload, j)
		}
	}
	h := v.FieldByName("Headers")
	if !h.IsValid() {
		return
	}
	for _, f := range []struct{ field, name string }{{"Tag", "tag"}, {"Note", "note"}, {"Source", "source"}, {"Who", "who"}} {
		x := h.FieldByName(f.field)
		if !x.IsValid() {
			continue
		}
		got, present := msg.Headers[f.name]
		if x.Kind() == reflect.Pointer {
			if x.IsNil() {
				if present {
					t.wd.For("C04", "wire-header", "message %d went out with header %s=%q, which was not set", it.n, f.name, got)
				}
				continue
			}
			x = x.Elem()
		}
		if !present || string(got) != x.String() {
			t.wd.For("C04", "wire-header", "message %d went out with header %s=%q instead of %q", it.n, f.name, got, x.String())
		}
	}
}

func (t *traffic) verdict() {
	wd := t.wd
	// Publications.
	for n := 0; n <= 4096; n++ {
		it := t.items[n]
		if it == nil || it.kind != 0 || !it.returned {
			continue
		}
		want := t.modelTx(it)
		for _, prop := range []string{"C04", "C05", "C16", "C08"} {
			if !wd.Is(prop) {
				continue
			}
			kinds := views[prop]
			rest, bad, ok := matchPrefix(view(it.tx, kinds), view(want, kinds))
			if ok && len(rest) > 0 {
				ok, bad = false, fmt.Sprintf("unexpected %v", rest[0])
			}
			if last := it.tx[len(it.tx)-1]; it.done != 0 && it.published == 0 && last.s != fmt.Sprintf("%d,", n) {
				continue // giving up with an error on behalf of a context that is done would be fine, too
			}
			if !ok {
				wd.For(prop, "publication", "publication of message %d (middlewares %q): %s", n, it.behPub, bad)
			}
		}
		if it.published > 1 {
			wd.For("C04", "published-twice", "message %d was published %d times", n, it.published)
		}
	}
	// Receptions.
	for _, g := range t.gens {
		must := 0
		for i, d := range g.sub.log {
			if d.end != 0 && (g.sub.cancelled == 0 || d.end < g.sub.cancelled) {
				must = i + 1
			}
		}
		if g.sub.cancelled == 0 && len(g.sub.queue) > 0 {
			wd.For("C02", "stalled", "subscription to %s no longer takes messages: %d are waiting", g.addr, len(g.sub.queue))
		}
		for _, prop := range []string{"C02", "C03", "C05", "C16", "C08"} {
			if !wd.Is(prop) {
				continue
			}
			kinds := views[prop]
			rest := view(g.log, kinds)
			for i, d := range g.sub.log {
				if i >= must && len(rest) == 0 {
					break
				}
				var bad string
				ok := false
				alts := t.modelRx(d)
				for _, alt := range alts {
					var r []event
					r, b, k := matchPrefix(rest, view(alt, kinds))
					if bad == "" {
						bad = b
					}
					if k {
						ok, rest = true, r
						break
					}
				}
				if !ok {
					it := t.items[d.n]
					wd.For(prop, "reception", "delivery %d (message %d) on %s (middlewares %q, handler %q, error handler %q): %s", d.id, d.n, g.addr, it.behRecv, it.hbeh, it.ehbeh, bad)
					return
				}
			}
			if len(rest) > 0 {
				wd.For(prop, "unexpected-reception", "on %s, after everything that was delivered: %v", g.addr, rest[0])
			}
		}
		for _, d := range g.sub.log {
			if d.acks+d.naks > 1 {
				wd.For("C03", "settled-twice", "message %d was settled %d times", d.n, d.acks+d.naks)
			}
		}
	}
	if wd.Is("C05") && !t.unsubs {
		t.verdictInter()
	}
}

// intercepted counts an operation that a side's middlewares let through: its
// intercepters must have sent the message before.
func (t *traffic) intercepted(side string) {
	t.passed[side]++
	if t.wd.C("icap") > 0 {
		return
	}
	for i, k := range t.kinds[side] {
		if ch := t.inter[fmt.Sprint(side, i)]; k == kInter && len(ch) < t.passed[side] {
			t.wd.For("C05", "intercepted", "the intercepter %d of the %s has sent %d messages when operation %d runs", i, side, len(ch), t.passed[side])
		}
	}
}

// verdictInter compares what the Intercepter middlewares sent with the model.
func (t *traffic) verdictInter() {
	if t.wd.Failed() {
		return
	}
	for _, it := range t.items {
		if it.kind == 2 {
			return
		}
	}
	for k, ch := range t.inter {
		for len(ch) > 0 {
			t.interGot[k] = append(t.interGot[k], string((<-ch).Payload))
		}
		// the payloads that are not texts are not modelled: any will do
		left := map[string]int{}
		for _, p := range t.interGot[k] {
			left[p]++
		}
		if got, want := len(t.interGot[k]), len(t.interWant[k]); got != want {
			t.wd.For("C05", "intercepted", "the intercepter %s saw %d messages instead of %d", k, got, want)
			continue
		}
		for _, p := range t.interWant[k] {
			if left[p]--; p != "" && left[p] < 0 {
				t.wd.For("C05", "intercepted", "the intercepter %s did not see the payload %q, but %q", k, p, t.interGot[k])
				break
			}
		}
	}
}
