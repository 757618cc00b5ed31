package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"
)

// The stub JetStream: durable streams and pull consumers, acknowledgements
// with waits and delays, redelivery, request expiry and heartbeats.

type stored struct {
	seq     int
	subject string
	header  []byte
	data    []byte
	at      time.Time
}

type pending struct {
	deadline  time.Time // when it is delivered again
	delivered int
	due       bool // waits for a request
}

type ackRec struct {
	At      time.Time
	Seq     int    // of the message in the stream
	Kind    string // +ACK, -NAK, ...
	Data    string
	Count   int // delivery it answers
	Conn    *srvConn
	Settled bool // the message was pending
}

type sendRec struct {
	At    time.Time
	Seq   int
	Count int
	Conn  *srvConn
}

type pullReq struct {
	inbox   string
	left    int
	expires time.Time
	hb      time.Duration
	lastHB  time.Time
}

type consumer struct {
	name     string
	raw      json.RawMessage
	cfg      consumerConfig
	next     int // sequence to look at next
	pend     map[int]*pending
	acked    map[int]bool
	reqs     []*pullReq
	acks     []ackRec
	sends    []sendRec
	dseq     int
	counts   map[int]int
	deleted  bool
	maxCount int
}

type consumerConfig struct {
	Name           string   `json:"name"`
	Durable        string   `json:"durable_name"`
	AckPolicy      string   `json:"ack_policy"`
	AckWait        int64    `json:"ack_wait"`
	MaxDeliver     int      `json:"max_deliver"`
	FilterSubject  string   `json:"filter_subject"`
	FilterSubjects []string `json:"filter_subjects"`
	MaxAckPending  int      `json:"max_ack_pending"`
}

type stream struct {
	recent    map[string]time.Time // message IDs
	name      string
	raw       json.RawMessage
	subjects  []string
	msgs      []stored
	consumers map[string]*consumer
}

type jetStream struct {
	s       *server
	streams map[string]*stream
	kick    chan struct{}
	// failure decides the fate of an API request or of a message to store:
	// "" is normal, "none" no answer, "lost" done without answer, otherwise an
	// error description.
	failure func(kind, subject string) string
}

func newJetStream(s *server) *jetStream {
	j := &jetStream{s: s, streams: map[string]*stream{}, kick: make(chan struct{}, 1), failure: func(string, string) string { return "" }}
	go j.loop()
	return j
}

func (j *jetStream) wake() {
	select {
	case j.kick <- struct{}{}:
	default:
	}
}

func (j *jetStream) interestLost() { j.wake() }

// loop delivers, and looks after everything that is timed.
func (j *jetStream) loop() {
	for {
		j.s.mu.Lock()
		next := j.work()
		j.s.mu.Unlock()
		if next.IsZero() {
			<-j.kick
			continue
		}
		t := time.NewTimer(time.Until(next))
		select {
		case <-j.kick:
		case <-t.C:
		}
		t.Stop()
	}
}

func (j *jetStream) sorted() []*stream {
	var l []*stream
	for _, st := range j.streams {
		l = append(l, st)
	}
	sort.Slice(l, func(a, b int) bool { return l[a].name < l[b].name })
	return l
}

func (st *stream) sorted() []*consumer {
	var l []*consumer
	for _, c := range st.consumers {
		l = append(l, c)
	}
	sort.Slice(l, func(a, b int) bool { return l[a].name < l[b].name })
	return l
}

// work delivers what can be and gives the time of the next event; with mu.
func (j *jetStream) work() time.Time {
	var next time.Time
	soon := func(t time.Time) {
		if next.IsZero() || t.Before(next) {
			next = t
		}
	}
	now := time.Now()
	for _, st := range j.sorted() {
		for _, c := range st.sorted() {
			for _, seq := range c.pendSeqs() {
				p := c.pend[seq]
				if !p.due && !p.deadline.After(now) {
					p.due = true
				}
			}
			var keep []*pullReq
			for _, r := range c.reqs {
				x := j.inbox(r.inbox)
				if x == nil {
					continue // no interest any more
				}
				if !r.expires.After(now) {
					j.status(x, r.inbox, fmt.Sprintf("NATS/1.0 408 Request Timeout\r\nNats-Pending-Messages: %d\r\nNats-Pending-Bytes: 0\r\n\r\n", r.left))
					continue
				}
				for r.left > 0 {
					seq := c.pick(st)
					if seq == 0 {
						break
					}
					j.send(st, c, x, seq)
					r.left--
					r.lastHB = now
				}
				if r.left == 0 {
					continue
				}
				if r.hb > 0 {
					if !r.lastHB.Add(r.hb).After(now) {
						j.status(x, r.inbox, "NATS/1.0 100 Idle Heartbeat\r\n\r\n")
						r.lastHB = now
					}
					soon(r.lastHB.Add(r.hb))
				}
				soon(r.expires)
				keep = append(keep, r)
			}
			c.reqs = keep
			if len(c.reqs) > 0 {
				for _, p := range c.pend {
					if !p.due {
						soon(p.deadline)
					}
				}
			}
		}
	}
	return next
}

func (c *consumer) pendSeqs() []int {
	var l []int
	for s := range c.pend {
		l = append(l, s)
	}
	sort.Ints(l)
	return l
}

func (c *consumer) filtered(subject string) bool {
	if c.cfg.FilterSubject == "" && len(c.cfg.FilterSubjects) == 0 {
		return true
	}
	if c.cfg.FilterSubject != "" && matches(c.cfg.FilterSubject, subject) {
		return true
	}
	for _, f := range c.cfg.FilterSubjects {
		if matches(f, subject) {
			return true
		}
	}
	return false
}

// pick is the message to deliver next, or 0.
func (c *consumer) pick(st *stream) int {
	for _, s := range c.pendSeqs() {
		if c.pend[s].due {
			if m := c.cfg.MaxDeliver; m > 0 && c.counts[s] >= m {
				delete(c.pend, s)
				continue
			}
			return s
		}
	}
	if m := c.cfg.MaxAckPending; m > 0 && len(c.pend) >= m {
		return 0
	}
	for c.next <= len(st.msgs) {
		if c.filtered(st.msgs[c.next-1].subject) {
			return c.next
		}
		c.next++
	}
	return 0
}

func (j *jetStream) inbox(subject string) *srvSub {
	for _, x := range j.s.subs {
		if !x.gone && matches(x.subject, subject) {
			return x
		}
	}
	return nil
}

func (j *jetStream) status(x *srvSub, inbox, head string) {
	j.s.deliver(x, &pubRec{Subject: inbox, Header: []byte(head)}, inbox)
}

func (j *jetStream) send(st *stream, c *consumer, x *srvSub, seq int) {
	m := st.msgs[seq-1]
	c.counts[seq]++
	c.dseq++
	c.pend[seq] = &pending{deadline: time.Now().Add(c.ackWait()), delivered: c.counts[seq]}
	if seq >= c.next {
		c.next = seq + 1
	}
	if c.counts[seq] > c.maxCount {
		c.maxCount = c.counts[seq]
	}
	c.sends = append(c.sends, sendRec{time.Now(), seq, c.counts[seq], x.c})
	reply := fmt.Sprintf("$JS.ACK.%s.%s.%d.%d.%d.%d.%d", st.name, c.name, c.counts[seq], seq, c.dseq, m.at.UnixNano(), len(st.msgs)-seq)
	j.s.deliver(x, &pubRec{Subject: m.subject, Reply: reply, Header: m.header, Data: m.data}, m.subject)
}

func (c *consumer) ackWait() time.Duration {
	if c.cfg.AckWait > 0 {
		return time.Duration(c.cfg.AckWait)
	}
	return 30 * time.Second
}

func (j *jetStream) answer(p *pubRec, v any) {
	if p.Reply == "" {
		return
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	j.s.route(&pubRec{Subject: p.Reply, Data: b})
}

func (j *jetStream) fail(p *pubRec, code, err int, text string) {
	j.answer(p, map[string]any{"error": map[string]any{"code": code, "err_code": err, "description": text}})
}

// take handles a message for JetStream; with mu.
func (j *jetStream) take(p *pubRec) bool {
	switch {
	case strings.HasPrefix(p.Subject, "$JS.API."):
		j.api(p, strings.TrimPrefix(p.Subject, "$JS.API."))
		return true
	case strings.HasPrefix(p.Subject, "$JS.ACK."):
		j.ack(p)
		return true
	case strings.HasPrefix(p.Subject, "$"), strings.HasPrefix(p.Subject, "_INBOX."):
		return false
	}
	for _, st := range j.sorted() {
		for _, f := range st.subjects {
			if !matches(f, p.Subject) {
				continue
			}
			switch how := j.failure("store", p.Subject); how {
			case "none":
				return true
			case "", "lost":
				// A message with the ID of a recent one is answered and not stored.
				if id := string(parseHeader(p.Header)["Nats-Msg-Id"]); id != "" {
					if at, there := st.recent[id]; there && time.Since(at) < 2*time.Minute {
						j.answer(p, map[string]any{"stream": st.name, "seq": len(st.msgs), "duplicate": true})
						return true
					}
					if st.recent == nil {
						st.recent = map[string]time.Time{}
					}
					st.recent[id] = time.Now()
				}
				st.msgs = append(st.msgs, stored{len(st.msgs) + 1, p.Subject, p.Header, p.Data, time.Now()})
				if how == "" {
					j.answer(p, map[string]any{"stream": st.name, "seq": len(st.msgs)})
				}
				j.wake()
			default:
				j.fail(p, 503, 10077, how)
			}
			return true
		}
	}
	return false
}

func (j *jetStream) api(p *pubRec, call string) {
	f := strings.Split(call, ".")
	if !strings.HasPrefix(call, "CONSUMER.MSG.NEXT.") {
		switch how := j.failure("api "+f[0]+"."+f[1], p.Subject); how {
		case "":
		case "none":
			return
		default:
			j.fail(p, 503, 10023, how)
			return
		}
	}
	switch {
	case len(f) == 3 && f[0] == "STREAM" && (f[1] == "CREATE" || f[1] == "UPDATE"):
		st := j.streams[f[2]]
		if f[1] == "CREATE" && st != nil && string(st.raw) != string(p.Data) {
			j.fail(p, 400, 10058, "stream name already in use with a different configuration")
			return
		}
		if f[1] == "UPDATE" && st == nil {
			j.fail(p, 404, 10059, "stream not found")
			return
		}
		var cfg struct {
			Name     string   `json:"name"`
			Subjects []string `json:"subjects"`
		}
		if err := json.Unmarshal(p.Data, &cfg); err != nil {
			j.fail(p, 400, 10025, "invalid JSON")
			return
		}
		if st == nil {
			st = &stream{name: cfg.Name, consumers: map[string]*consumer{}}
			j.streams[cfg.Name] = st
		}
		st.raw, st.subjects = p.Data, cfg.Subjects
		j.answer(p, map[string]any{"type": "io.nats.jetstream.api.v1.stream_create_response", "config": st.raw, "created": "2024-01-01T00:00:00Z", "state": map[string]any{}})
	case len(f) == 3 && f[0] == "STREAM" && f[1] == "INFO":
		st := j.streams[f[2]]
		if st == nil {
			j.fail(p, 404, 10059, "stream not found")
			return
		}
		j.answer(p, map[string]any{"config": st.raw, "created": "2024-01-01T00:00:00Z", "state": map[string]any{"messages": len(st.msgs)}})
	case len(f) >= 4 && f[0] == "CONSUMER" && f[1] == "CREATE", len(f) >= 5 && f[0] == "CONSUMER" && f[1] == "DURABLE":
		n := f[2:]
		if f[1] == "DURABLE" {
			n = f[3:]
		}
		st := j.streams[n[0]]
		if st == nil {
			j.fail(p, 404, 10059, "stream not found")
			return
		}
		var req struct {
			Config json.RawMessage `json:"config"`
		}
		c := &consumer{name: n[1], next: 1, pend: map[int]*pending{}, acked: map[int]bool{}, counts: map[int]int{}}
		if err := json.Unmarshal(p.Data, &req); err != nil {
			j.fail(p, 400, 10025, "invalid JSON")
			return
		}
		if old := st.consumers[n[1]]; old != nil {
			c = old
		}
		c.cfg = consumerConfig{}
		if err := json.Unmarshal(req.Config, &c.cfg); err != nil {
			j.fail(p, 400, 10025, "invalid JSON")
			return
		}
		c.raw = req.Config
		st.consumers[n[1]] = c
		j.answer(p, c.info(st))
	case len(f) == 4 && f[0] == "CONSUMER" && f[1] == "INFO":
		st, c := j.find(f[2], f[3])
		if st == nil {
			j.fail(p, 404, 10059, "stream not found")
			return
		}
		if c == nil {
			j.fail(p, 404, 10014, "consumer not found")
			return
		}
		j.answer(p, c.info(st))
	case len(f) == 5 && f[0] == "CONSUMER" && f[1] == "MSG" && f[2] == "NEXT":
		_, c := j.find(f[3], f[4])
		if c == nil {
			return
		}
		var req struct {
			Expires int64 `json:"expires"`
			Batch   int   `json:"batch"`
			HB      int64 `json:"idle_heartbeat"`
		}
		if err := json.Unmarshal(p.Data, &req); err != nil {
			return
		}
		if req.Batch < 1 {
			req.Batch = 1
		}
		c.reqs = append(c.reqs, &pullReq{inbox: p.Reply, left: req.Batch, expires: time.Now().Add(time.Duration(req.Expires)), hb: time.Duration(req.HB), lastHB: time.Now()})
		j.wake()
	default:
		j.fail(p, 404, 10000, "unknown request "+call)
	}
}

func (j *jetStream) find(s, c string) (*stream, *consumer) {
	st := j.streams[s]
	if st == nil {
		return nil, nil
	}
	return st, st.consumers[c]
}

func (c *consumer) info(st *stream) any {
	return map[string]any{"type": "io.nats.jetstream.api.v1.consumer_info_response", "stream_name": st.name, "name": c.name, "created": "2024-01-01T00:00:00Z", "config": c.raw,
		"delivered": map[string]any{"consumer_seq": c.dseq, "stream_seq": c.next - 1}, "ack_floor": map[string]any{"consumer_seq": 0, "stream_seq": 0},
		"num_ack_pending": len(c.pend), "num_redelivered": 0, "num_waiting": len(c.reqs), "num_pending": len(st.msgs) - c.next + 1}
}

func (j *jetStream) ack(p *pubRec) {
	f := strings.Split(p.Subject, ".")
	if len(f) < 9 {
		return
	}
	_, c := j.find(f[2], f[3])
	if c == nil {
		return
	}
	if j.failure("ack", p.Subject) != "" {
		return
	}
	seq, _ := strconv.Atoi(f[5])
	count, _ := strconv.Atoi(f[4])
	kind, rest, _ := strings.Cut(string(p.Data), " ")
	a := ackRec{At: time.Now(), Seq: seq, Kind: kind, Data: rest, Count: count, Conn: p.Conn}
	pd := c.pend[seq]
	a.Settled = pd != nil
	c.acks = append(c.acks, a)
	switch kind {
	case "+ACK", "":
		delete(c.pend, seq)
		c.acked[seq] = true
	case "+TERM":
		delete(c.pend, seq)
	case "-NAK":
		if pd == nil || count != pd.delivered {
			break
		}
		var d struct {
			Delay int64 `json:"delay"`
		}
		if rest != "" {
			_ = json.Unmarshal([]byte(rest), &d)
		}
		pd.due = d.Delay == 0
		pd.deadline = time.Now().Add(time.Duration(d.Delay))
	case "+WPI":
		if pd != nil {
			pd.deadline = time.Now().Add(c.ackWait())
		}
	}
	if p.Reply != "" {
		j.s.route(&pubRec{Subject: p.Reply})
	}
	j.wake()
}
