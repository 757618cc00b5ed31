package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/simnet"
	"verifsim/w"
)

// The stub NATS server: the client protocol with headers, queue groups and
// wildcards; JetStream on top of it in jetstream.go.

type pubRec struct {
	Conn    *srvConn
	Seq     int // order in which the server took it
	Subject string
	Reply   string
	Header  []byte // as sent, or nil
	Data    []byte
	Routed  []*srvSub // who it was sent to
}

type srvSub struct {
	c       *srvConn
	sid     string
	subject string
	queue   string
	gone    bool
	max     int
	sent    []*pubRec // deliveries, in order
}

type srvConn struct {
	s      *server
	c      *simnet.Conn
	addr   string
	opts   connectOpts
	subs   map[string]*srvSub
	mu     sync.Mutex
	out    [][]byte
	kick   chan struct{}
	closed bool
	tls    bool
	since  time.Time
	until  time.Time
	pinged bool // the handshake is complete
}

type connectOpts struct {
	Name         string `json:"name"`
	User         string `json:"user"`
	Pass         string `json:"pass"`
	Token        string `json:"auth_token"`
	Headers      bool   `json:"headers"`
	NoResponders bool   `json:"no_responders"`
	Echo         bool   `json:"echo"`
}

type server struct {
	wd         *w.World
	net        *simnet.Net
	rnd        *w.Rand
	mu         sync.Mutex
	conns      []*srvConn
	all        []*srvConn // also those that are gone
	subs       []*srvSub  // every subscription ever made
	pubs       []*pubRec
	js         *jetStream
	onPub      func(*pubRec) // called with mu held
	onSub      func(*srvSub)
	err        string // protocol error by the client
	maxPayload int
}

func newServer(wd *w.World, n *simnet.Net, seed uint64) *server {
	s := &server{wd: wd, net: n, rnd: w.NewRand(seed), maxPayload: 1 << 20}
	s.js = newJetStream(s)
	return s
}

// matches is the rule of NATS subjects, after its documentation.
func matches(pattern, subject string) bool {
	p, q := strings.Split(pattern, "."), strings.Split(subject, ".")
	for i, t := range p {
		if t == ">" {
			return i == len(p)-1 && len(q) > i
		}
		if i >= len(q) || t != "*" && t != q[i] {
			return false
		}
	}
	return len(p) == len(q)
}

func (s *server) serve(c *simnet.Conn) {
	k := &srvConn{s: s, c: c, addr: c.Addr, subs: map[string]*srvSub{}, kick: make(chan struct{}, 1), since: time.Now()}
	s.mu.Lock()
	s.conns = append(s.conns, k)
	s.all = append(s.all, k)
	s.mu.Unlock()
	s.wd.Rec("server: connection %d at %s", c.Port, c.Addr)
	go k.writer()
	k.send([]byte(fmt.Sprintf(`INFO {"server_id":"S","server_name":"s","version":"2.10.4","proto":1,"go":"go1.21","host":"127.0.0.1","port":4222,"headers":true,"max_payload":%d,"jetstream":true,"client_id":%d,"client_ip":"10.0.0.1"}`+"\r\n", s.maxPayload, c.Port)))
	err := k.reader()
	s.wd.Rec("server: connection %d at %s ended: %v", c.Port, c.Addr, err)
	k.shut()
	if err != nil && err != io.EOF {
		if _, ok := err.(protoError); ok {
			s.mu.Lock()
			s.err = err.Error()
			s.mu.Unlock()
		}
	}
}

type protoError string

func (e protoError) Error() string { return string(e) }

func (k *srvConn) shut() {
	k.mu.Lock()
	k.closed = true
	k.until = time.Now()
	k.mu.Unlock()
	k.wake()
	_ = k.c.Close()
	s := k.s
	s.mu.Lock()
	defer s.mu.Unlock()
	for i, x := range s.conns {
		if x == k {
			s.conns = append(s.conns[:i:i], s.conns[i+1:]...)
			break
		}
	}
	for _, x := range k.subs {
		x.gone = true
	}
	s.js.interestLost()
}

func (k *srvConn) wake() {
	select {
	case k.kick <- struct{}{}:
	default:
	}
}

func (k *srvConn) send(b []byte) {
	k.mu.Lock()
	k.out = append(k.out, b)
	k.mu.Unlock()
	k.wake()
}

func (k *srvConn) writer() {
	for {
		k.mu.Lock()
		l, closed := k.out, k.closed
		k.out = nil
		k.mu.Unlock()
		if closed {
			return
		}
		if len(l) == 0 {
			<-k.kick
			continue
		}
		if _, err := k.c.Write(bytes.Join(l, nil)); err != nil {
			return
		}
	}
}

func (k *srvConn) reader() error {
	r := bufio.NewReaderSize(k.c, 1<<16)
	if b, err := r.Peek(1); err == nil && b[0] == 0x16 {
		k.tls = true
		return nil
	}
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			return err
		}
		line = strings.TrimRight(line, "\r\n")
		op, rest, _ := strings.Cut(line, " ")
		f := strings.Fields(rest)
		switch strings.ToUpper(op) {
		case "CONNECT":
			if err := json.Unmarshal([]byte(rest), &k.opts); err != nil {
				return protoError("CONNECT " + rest)
			}
		case "PING":
			k.pinged = true
			k.send([]byte("PONG\r\n"))
		case "PONG":
		case "SUB":
			x := &srvSub{c: k}
			switch len(f) {
			case 2:
				x.subject, x.sid = f[0], f[1]
			case 3:
				x.subject, x.queue, x.sid = f[0], f[1], f[2]
			default:
				return protoError(line)
			}
			k.s.mu.Lock()
			k.subs[x.sid] = x
			k.s.subs = append(k.s.subs, x)
			k.s.wd.Rec("server: %s at %s", line, k.addr)
			if k.s.onSub != nil {
				k.s.onSub(x)
			}
			k.s.mu.Unlock()
		case "UNSUB":
			if len(f) == 0 {
				return protoError(line)
			}
			k.s.mu.Lock()
			k.s.wd.Rec("server: %s at %s", line, k.addr)
			if x := k.subs[f[0]]; x != nil {
				n := 0
				if len(f) > 1 {
					n, _ = strconv.Atoi(f[1])
				}
				if n > len(x.sent) {
					x.max = n
				} else {
					k.s.drop(x)
				}
			}
			k.s.js.interestLost()
			k.s.mu.Unlock()
		case "PUB", "HPUB":
			p := &pubRec{Conn: k}
			hl, tl := 0, 0
			n := 1
			if op == "HPUB" {
				n = 2
			}
			switch len(f) - n {
			case 1:
				p.Subject = f[0]
			case 2:
				p.Subject, p.Reply = f[0], f[1]
			default:
				return protoError(line)
			}
			tl, err = strconv.Atoi(f[len(f)-1])
			if err != nil {
				return protoError(line)
			}
			if n == 2 {
				if hl, err = strconv.Atoi(f[len(f)-2]); err != nil || hl > tl {
					return protoError(line)
				}
			}
			b := make([]byte, tl+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return err
			}
			if string(b[tl:]) != "\r\n" {
				return protoError("payload of " + line)
			}
			if hl > 0 {
				p.Header = b[:hl:hl]
			}
			p.Data = b[hl:tl:tl]
			k.s.publish(p)
		default:
			return protoError(line)
		}
	}
}

// drop needs mu.
func (s *server) drop(x *srvSub) {
	x.gone = true
	delete(x.c.subs, x.sid)
}

func (s *server) publish(p *pubRec) {
	s.mu.Lock()
	defer s.mu.Unlock()
	p.Seq = len(s.pubs)
	s.pubs = append(s.pubs, p)
	if s.onPub != nil {
		s.onPub(p)
	}
	handled := s.js.take(p)
	n := s.route(p)
	if n == 0 && !handled && p.Reply != "" && p.Conn != nil && p.Conn.opts.NoResponders {
		s.route(&pubRec{Subject: p.Reply, Header: []byte("NATS/1.0 503\r\n\r\n")})
	}
}

// route sends a message to those subscribed; it needs mu.
func (s *server) route(p *pubRec) int {
	groups := map[string][]*srvSub{}
	var names []string
	for _, k := range s.conns {
		for _, x := range s.subs {
			if x.c != k || x.gone || !matches(x.subject, p.Subject) {
				continue
			}
			if x.queue == "" {
				s.deliver(x, p, p.Subject)
				continue
			}
			g := x.queue
			if groups[g] == nil {
				names = append(names, g)
			}
			groups[g] = append(groups[g], x)
		}
	}
	for _, g := range names {
		l := groups[g]
		s.deliver(l[s.rnd.N(len(l))], p, p.Subject)
	}
	return len(p.Routed)
}

// deliver needs mu.
func (s *server) deliver(x *srvSub, p *pubRec, subject string) {
	x.sent = append(x.sent, p)
	p.Routed = append(p.Routed, x)
	reply := ""
	if p.Reply != "" {
		reply = p.Reply + " "
	}
	var b []byte
	if len(p.Header) > 0 {
		b = []byte(fmt.Sprintf("HMSG %s %s %s%d %d\r\n", subject, x.sid, reply, len(p.Header), len(p.Header)+len(p.Data)))
	} else {
		b = []byte(fmt.Sprintf("MSG %s %s %s%d\r\n", subject, x.sid, reply, len(p.Data)))
	}
	b = append(b, p.Header...)
	b = append(b, p.Data...)
	x.c.send(append(b, "\r\n"...))
	if x.max > 0 && len(x.sent) >= x.max {
		s.drop(x)
	}
}

// live gives the subscriptions on a subject, leaving out inboxes; it needs mu.
func (s *server) live() []*srvSub {
	var l []*srvSub
	for _, x := range s.subs {
		if !x.gone && !strings.HasPrefix(x.subject, "_INBOX.") {
			l = append(l, x)
		}
	}
	return l
}

// wireHeader is the encoding of headers; the keys in order.
func wireHeader(h [][2]string) []byte {
	if len(h) == 0 {
		return nil
	}
	var b bytes.Buffer
	b.WriteString("NATS/1.0\r\n")
	for _, kv := range h {
		b.WriteString(kv[0] + ": " + kv[1] + "\r\n")
	}
	b.WriteString("\r\n")
	return b.Bytes()
}

// parseHeader gives what a client sent.
func parseHeader(b []byte) map[string][]byte {
	m := map[string][]byte{}
	if len(b) == 0 {
		return m
	}
	for i, l := range strings.Split(string(b), "\r\n") {
		if i == 0 || l == "" {
			continue
		}
		k, v, _ := strings.Cut(l, ":")
		m[k] = []byte(strings.TrimSpace(v))
	}
	return m
}

var _ net.Conn = (*simnet.Conn)(nil)
