package main

import (
	"context"
	"crypto/ed25519"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"math/big"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/kafka"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/nats"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/natsjetstream"
	gonats "github.com/nats-io/nats.go"
	"github.com/nats-io/nats.go/jetstream"
	kafkago "github.com/segmentio/kafka-go"
	"github.com/segmentio/kafka-go/protocol"
	"github.com/segmentio/kafka-go/protocol/fetch"
	"github.com/segmentio/kafka-go/protocol/joingroup"
	"github.com/segmentio/kafka-go/protocol/offsetcommit"
	"github.com/segmentio/kafka-go/sasl/plain"

	"verifsim/simnet"
	"verifsim/w"
)

// Scenario "options" (C15): several controllers of the three kinds in one
// process, each with options of its own, made one after the other or at the
// same time; what each does on the wire, to its logger and to its connections
// is compared with its own options.
//
// Operations: [actor, controller, ...]
//
//	make  actor i seed
//	use   actor i seed (subscribe, have messages delivered, settle, cancel)
//	close actor i
//	cut   actor i; stall actor i ms
//	sleep actor i ms
func init() {
	w.Register(&w.Scenario{Name: "options", Props: []string{"C15"}, Gen: genOptions, Run: runOptions})
}

const (
	oKafka = iota
	oNATS
	oJS
)

func genOptions(r *w.Rand, p *w.Plan) {
	p.Cfg["base"] = int64(w.Pick(r, 0, 50, 500, 5000))
	p.Cfg["jitter"] = int64(w.Pick(r, 0, 100, 2000))
	p.Cfg["frag"] = int64(w.Pick(r, 0, 0, 0, 600))
	n := r.Range(2, 6)
	p.Cfg["ctrls"] = int64(n)
	p.Cfg["faulty"] = int64(r.N(3) / 2)
	actors := w.Pick(r, 1, 2, 3, n)
	p.Cfg["actors"] = int64(actors)
	p.Cfg["shared"] = int64(r.Range(1, 2))
	only := r.N(6) // often controllers of one kind only
	lists := make([][]w.Op, n)
	for i := range lists {
		kind := r.N(3)
		if only < 3 {
			kind = only
		}
		p.Cfg[fmt.Sprintf("kind%d", i)] = int64(kind)
		a := i % actors
		l := []w.Op{w.MkOp("make", a, i, int(r.N(1<<30)))}
		for k := r.Range(0, 3); k > 0; k-- {
			if r.N(100) < 25 {
				l = append(l, w.MkOp("sleep", a, i, w.Pick(r, 1, 100, 3000, 10000)))
			}
			if p.Cfg["faulty"] > 0 && r.N(100) < 30 {
				if r.N(100) < 50 {
					l = append(l, w.MkOp("cut", a, i))
				} else {
					l = append(l, w.MkOp("stall", a, i, w.Pick(r, 10, 500, 4000)))
				}
			}
			l = append(l, w.MkOp("use", a, i, int(r.N(1<<30))))
		}
		if r.N(100) < 40 {
			l = append(l, w.MkOp("close", a, i))
		}
		lists[i] = l
	}
	for left := true; left; {
		left = false
		i := r.N(n)
		if len(lists[i]) > 0 {
			k := r.Range(1, len(lists[i]))
			p.Ops = append(p.Ops, lists[i][:k]...)
			lists[i] = lists[i][k:]
		}
		for _, l := range lists {
			left = left || len(l) > 0
		}
	}
}

type optLogger struct {
	x     *optRun
	i     int
	lines int
}

func (l *optLogger) note(msg string, info []extensions.LogInfo) {
	l.lines++
	for _, f := range info {
		if m, ok := f.Value.(jetstream.Msg); ok {
			msg += " " + m.Subject()
		}
	}
	for j := range l.x.ctrls {
		if j != l.i && strings.Contains(msg, l.x.ctrls[j].channel) {
			l.x.wd.Violate("logger", "the logger of controller %d was given a line of controller %d: %s", l.i, j, msg)
		}
	}
}
func (l *optLogger) Info(_ context.Context, msg string, i ...extensions.LogInfo)    { l.note(msg, i) }
func (l *optLogger) Warning(_ context.Context, msg string, i ...extensions.LogInfo) { l.note(msg, i) }
func (l *optLogger) Error(_ context.Context, msg string, i ...extensions.LogInfo)   { l.note(msg, i) }

type optCtrl struct {
	i        int
	kind     int
	channel  string
	addr     string // NATS
	hosts    []string
	c        extensions.BrokerController
	stop     func()
	log      *optLogger
	calm     bool
	made     bool
	failed   bool
	closed   bool
	closedAt time.Duration
	uses     int
	ready    atomic.Uint32 // hands the controller over, for the race detector
	settled  bool

	// what its options ask for
	tls, manual, test bool
	user              string
	group             string
	partition         int
	maxBytes          int
	connName          string
	shared            int // which of the caller's connections, or -1
	stream, consumer  string
	nak, ackWait      time.Duration
	hidden            bool
	opts              []string
}

type optRun struct {
	wd     *w.World
	net    *simnet.Net
	k      *kCluster
	srv    *server
	ctrls  []*optCtrl
	cert   *tls.Config
	given  []*gonats.Conn // connections supplied by the caller
	calm   bool
	groups map[string]int // kafka group -> controller
	base   kafkago.Dialer
	failJS map[string]int
}

func optShared(j int) string { return fmt.Sprintf("127.0.1.%d:4222", j+1) }

func runOptions(wd *w.World) {
	x := &optRun{wd: wd, net: setupNet(wd), calm: true, groups: map[string]int{}, failJS: map[string]int{}}
	x.k = newKCluster(wd, x.net, wd.Plan.NetSeed+1, 2)
	x.srv = newServer(wd, x.net, wd.Plan.NetSeed+2)
	x.base = *kafkago.DefaultDialer
	x.k.createFor = func(ns, topic string) (time.Duration, time.Duration) {
		for _, c := range x.ctrls {
			if c.channel == topic && c.hidden {
				return 700 * time.Millisecond, 0
			}
		}
		return 0, 0
	}
	x.srv.js.failure = func(kind, subject string) string {
		for s := range x.failJS {
			if x.failJS[s] > 0 && strings.Contains(subject, s) {
				x.failJS[s]--
				wd.Fault(kind + " refused")
				return "refused"
			}
		}
		return ""
	}
	for i := 0; i < wd.C("ctrls"); i++ {
		c := &optCtrl{i: i, kind: wd.C(fmt.Sprintf("kind%d", i)), channel: fmt.Sprintf("chan-%d-x", i), shared: -1}
		x.ctrls = append(x.ctrls, c)
		if c.kind == oKafka {
			ns := fmt.Sprintf("n%d", i)
			x.k.lens[ns] = &kSecurity{}
			c.hosts = x.k.listen(ns)
			continue
		}
		c.addr = addrOf(i)
		x.net.Listen(c.addr, x.srv.serve)
	}
	for j := 0; j < wd.C("shared"); j++ {
		x.net.Listen(optShared(j), x.srv.serve)
		nc, err := gonats.Connect("nats://"+optShared(j), gonats.Name(fmt.Sprintf("given%d", j)), gonats.MaxReconnects(-1))
		for k := 0; err != nil && wd.Plan.Sched.Stall > 0 && k < 20; k++ {
			nc, err = gonats.Connect("nats://"+optShared(j), gonats.Name(fmt.Sprintf("given%d", j)), gonats.MaxReconnects(-1))
		}
		if err != nil {
			wd.Trivial = true
			return
		}
		x.given = append(x.given, nc)
	}
	per := make([][]w.Op, max(wd.C("actors"), 1))
	for _, o := range wd.Plan.Ops {
		if a := int(o.A[0]); a < len(per) {
			per[a] = append(per[a], o)
		}
	}
	for i, l := range per {
		l := l
		wd.Go(fmt.Sprintf("actor%d", i), func() {
			for _, o := range l {
				x.do(o)
			}
		})
	}
	if !wd.Join(3 * time.Hour) {
		wd.Violate("hang", "calls did not return within 3 hours: %s", wd.Pending())
		return
	}
	x.finish()
}

// tlsConfig makes the certificate once; it is the same for all.
func (x *optRun) tlsConfig() *tls.Config {
	if x.cert != nil {
		return x.cert
	}
	key := ed25519.NewKeyFromSeed([]byte("0123456789abcdef0123456789abcdef"))
	t := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<34, 0), DNSNames: []string{"x"}}
	der, err := x509.CreateCertificate(nil, t, t, key.Public(), key)
	if err != nil {
		panic(err)
	}
	x.cert = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
	return x.cert
}

func (x *optRun) do(o w.Op) {
	wd := x.wd
	arg := func(i int) int {
		if i < len(o.A) {
			return int(o.A[i])
		}
		return 0
	}
	c := x.ctrls[arg(1)%len(x.ctrls)]
	switch o.K {
	case "make":
		if !c.made && !c.failed {
			switch c.kind {
			case oKafka:
				x.makeKafka(c, w.NewRand(uint64(arg(2))))
			case oNATS:
				x.makeNATS(c, w.NewRand(uint64(arg(2))))
			case oJS:
				x.makeJS(c, w.NewRand(uint64(arg(2))))
			}
			wd.Rec("controller %d kind %d made %v with %v", c.i, c.kind, c.made, c.opts)
		}
	case "use":
		if c.made && !c.closed {
			x.use(c, w.NewRand(uint64(arg(2))))
		}
	case "close":
		if c.made && !c.closed {
			x.close(c)
		}
	case "cut":
		x.calm = false
		for _, a := range x.addrs(c) {
			if x.net.Cut(a) > 0 {
				wd.Fault("connection cut")
			}
		}
	case "stall":
		x.calm = false
		wd.Fault("network stall")
		for _, a := range x.addrs(c) {
			x.net.Stall(a, time.Duration(arg(2))*time.Millisecond)
		}
	case "sleep":
		time.Sleep(time.Duration(arg(2)) * time.Millisecond)
	}
}

func (x *optRun) addrs(c *optCtrl) []string {
	if c.kind == oKafka {
		return c.hosts
	}
	if c.shared >= 0 {
		return []string{c.addr, optShared(c.shared)}
	}
	return []string{c.addr}
}

// quiet tells whether nothing that happened may make a call fail.
func (x *optRun) quiet() bool { return x.calm && x.wd.Plan.Sched.Stall == 0 }

func (x *optRun) close(c *optCtrl) {
	if c.stop == nil {
		return
	}
	c.ready.Load()
	x.wd.Rec("close %d", c.i)
	c.stop()
	c.closed = true
	c.closedAt = x.wd.Now()
}

func (x *optRun) logger(c *optCtrl, r *w.Rand) bool {
	if r.N(2) == 0 {
		return false
	}
	c.log = &optLogger{x: x, i: c.i}
	c.opts = append(c.opts, "logger")
	return true
}

func (x *optRun) makeKafka(c *optCtrl, r *w.Rand) {
	wd := x.wd
	ns := fmt.Sprintf("n%d", c.i)
	sec := x.k.lens[ns]
	var o []kafka.ControllerOption
	c.group, c.maxBytes, c.test = brokers.DefaultQueueGroupID, 10e6, true
	if r.N(2) == 0 {
		c.group = fmt.Sprintf("group%d", c.i)
		o = append(o, kafka.WithGroupID(c.group))
	} else if r.N(4) == 0 {
		c.group = ""
		c.partition = r.N(3)
		if c.partition == 0 || r.N(2) == 0 {
			o = append(o, kafka.WithGroupID(""))
		}
		o = append(o, kafka.WithPartition(c.partition))
	}
	if r.N(3) == 0 {
		c.maxBytes = 1e6 + 100000*c.i
		o = append(o, kafka.WithMaxBytes(c.maxBytes))
	}
	if r.N(2) == 0 {
		c.manual = r.N(3) > 0
		o = append(o, kafka.WithAutoCommit(!c.manual))
	}
	if r.N(5) < 2 {
		c.tls = true
		sec.tls = x.tlsConfig()
		o = append(o, kafka.WithTLS(&tls.Config{InsecureSkipVerify: true}))
	}
	if r.N(5) < 2 {
		c.user = fmt.Sprintf("user%d", c.i)
		sec.user, sec.pass, sec.mech = c.user, "secret", "PLAIN"
		o = append(o, kafka.WithSasl(plain.Mechanism{Username: c.user, Password: "secret"}))
	}
	if r.N(3) == 0 {
		c.test = r.N(2) == 0
		o = append(o, kafka.WithConnectionTest(c.test))
	}
	if x.logger(c, r) {
		o = append(o, kafka.WithLogger(c.log))
	}
	for i := range o {
		j := r.N(i + 1)
		o[i], o[j] = o[j], o[i]
	}
	if r.N(2) == 0 || c.group == "" {
		x.k.create(c.channel, 3, "")
	} else {
		c.hidden = true
	}
	c.opts = append(c.opts, fmt.Sprintf("group %q partition %d maxbytes %d manual %v tls %v sasl %q test %v hidden %v", c.group, c.partition, c.maxBytes, c.manual, c.tls, c.user, c.test, c.hidden))
	sec.onRequest = func(s *kConn, msg protocol.Message, _ string) {
		switch m := msg.(type) {
		case *joingroup.Request:
			if m.GroupID != c.group || c.group == "" {
				wd.Violate("group", "controller %d, of group %q, joined group %q", c.i, c.group, m.GroupID)
			}
		case *fetch.Request:
			if d := int(m.MaxBytes) - c.maxBytes; d < 0 || d > 1000 { // the client adds the size of a header
				wd.Violate("maxbytes", "controller %d, with at most %d bytes, asked for %d", c.i, c.maxBytes, m.MaxBytes)
			}
			for _, t := range m.Topics {
				for _, p := range t.Partitions {
					if c.group == "" && int(p.Partition) != c.partition {
						wd.Violate("partition", "controller %d, of partition %d, reads partition %d", c.i, c.partition, p.Partition)
					}
				}
			}
		case *offsetcommit.Request:
			if m.GroupID != c.group || c.group == "" {
				wd.Violate("group", "controller %d, of group %q, commits for group %q", c.i, c.group, m.GroupID)
			}
			if c.manual && !c.settled {
				wd.Violate("commit-mode", "controller %d, which does not commit by itself, committed before anything was settled", c.i)
			}
		}
	}
	before := x.kConns(ns)
	for try := 0; ; try++ {
		k, err := kafka.NewController(c.hosts, o...)
		if err == nil {
			c.c = k
			break
		}
		wd.Rec("make %d: %v", c.i, err)
		if x.quiet() {
			wd.Violate("make", "controller %d (%v) could not be made: %v", c.i, c.opts, err)
		}
		if try > 10 {
			c.failed = true
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	if n := x.kConns(ns) - before; (n > 0) != c.test {
		wd.Violate("connection-test", "controller %d made %d connections at its creation, with the test set to %v", c.i, n, c.test)
	}
	c.made = true
	c.ready.Store(1)
}

func (x *optRun) kConns(ns string) int {
	x.k.mu.Lock()
	defer x.k.mu.Unlock()
	n := 0
	for _, s := range x.k.conns {
		if s.ns == ns {
			n++
		}
	}
	return n
}

func (x *optRun) makeNATS(c *optCtrl, r *w.Rand) {
	wd := x.wd
	var o []nats.ControllerOption
	c.group = brokers.DefaultQueueGroupID
	if r.N(2) == 0 {
		c.group = fmt.Sprintf("group%d", c.i)
		o = append(o, nats.WithQueueGroup(c.group))
	}
	if r.N(2) == 0 {
		c.connName, c.user = fmt.Sprintf("name%d", c.i), fmt.Sprintf("user%d", c.i)
		o = append(o, nats.WithConnectionOpts(gonats.Name(c.connName), gonats.UserInfo(c.user, "secret"), gonats.MaxReconnects(-1)))
	}
	if c.user != "" && r.N(4) == 0 { // twice: the last one counts
		o = append(o, nats.WithConnectionOpts(gonats.Name(c.connName), gonats.UserInfo(c.user, "secret"), gonats.MaxReconnects(-1)))
		c.opts = append(c.opts, "twice")
	}
	if x.logger(c, r) {
		o = append(o, nats.WithLogger(c.log))
	}
	for i := range o {
		j := r.N(i + 1)
		o[i], o[j] = o[j], o[i]
	}
	c.opts = append(c.opts, fmt.Sprintf("group %q name %q user %q", c.group, c.connName, c.user))
	for try := 0; ; try++ {
		n, err := nats.NewController("nats://"+c.addr, o...)
		if err == nil {
			c.c, c.stop = n, n.Close
			break
		}
		wd.Rec("make %d: %v", c.i, err)
		if x.quiet() {
			wd.Violate("make", "controller %d (%v) could not be made: %v", c.i, c.opts, err)
		}
		if try > 10 {
			c.failed = true
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	c.made = true
	c.ready.Store(1)
}

func (x *optRun) makeJS(c *optCtrl, r *w.Rand) {
	wd := x.wd
	var o []natsjetstream.ControllerOption
	c.stream, c.consumer = fmt.Sprintf("S%d", c.i), fmt.Sprintf("C%d", c.i)
	c.nak = 5 * time.Second
	if r.N(2) == 0 {
		c.nak = time.Duration(w.Pick(r, 0, 40, 1000, 1000, 9000)+100*c.i) * time.Millisecond
		o = append(o, natsjetstream.WithNakDelay(c.nak))
	}
	j := x.srv.js
	if r.N(2) == 0 {
		o = append(o, natsjetstream.WithStreamConfig(jetstream.StreamConfig{Name: c.stream, Subjects: []string{c.channel}, Description: "of " + c.stream}))
		c.opts = append(c.opts, "streamconfig")
		x.srv.mu.Lock()
		if r.N(3) == 0 { // there is one, configured otherwise
			j.streams[c.stream] = &stream{name: c.stream, raw: []byte(fmt.Sprintf(`{"name":%q,"description":"old"}`, c.stream)), subjects: []string{"old." + c.channel}, consumers: map[string]*consumer{}}
			c.opts = append(c.opts, "old stream")
		}
		if r.N(6) == 0 { // the first attempt fails
			x.failJS["STREAM.CREATE."+c.stream] = 1
		}
		if r.N(4) == 0 {
			x.failJS["STREAM.UPDATE."+c.stream] = 1
		}
		x.srv.mu.Unlock()
	} else {
		x.srv.mu.Lock()
		j.streams[c.stream] = &stream{name: c.stream, raw: []byte(fmt.Sprintf(`{"name":%q}`, c.stream)), subjects: []string{c.channel}, consumers: map[string]*consumer{}}
		x.srv.mu.Unlock()
		o = append(o, natsjetstream.WithStream(c.stream))
	}
	c.ackWait = time.Duration(20+c.i) * time.Second
	if _, ok := j.streams[c.stream]; ok && r.N(2) == 0 {
		x.srv.mu.Lock()
		cons := &consumer{name: c.consumer, raw: []byte(fmt.Sprintf(`{"name":%q,"durable_name":%q}`, c.consumer, c.consumer)), next: 1, pend: map[int]*pending{}, acked: map[int]bool{}, counts: map[int]int{}}
		cons.cfg.Name, cons.cfg.AckWait = c.consumer, int64(c.ackWait)
		j.streams[c.stream].consumers[c.consumer] = cons
		x.srv.mu.Unlock()
		o = append(o, natsjetstream.WithConsumer(c.consumer))
	} else {
		if st, ok := j.streams[c.stream]; ok && r.N(4) == 0 { // there is one, configured otherwise
			x.srv.mu.Lock()
			cons := &consumer{name: c.consumer, raw: []byte(fmt.Sprintf(`{"name":%q,"durable_name":%q}`, c.consumer, c.consumer)), next: 1, pend: map[int]*pending{}, acked: map[int]bool{}, counts: map[int]int{}}
			cons.cfg.Name, cons.cfg.AckWait = c.consumer, int64(7*time.Second)
			st.consumers[c.consumer] = cons
			x.srv.mu.Unlock()
			c.opts = append(c.opts, "old consumer")
		}
		o = append(o, natsjetstream.WithConsumerConfig(jetstream.ConsumerConfig{Name: c.consumer, AckPolicy: jetstream.AckExplicitPolicy, AckWait: c.ackWait}))
		c.opts = append(c.opts, "consumerconfig")
		if r.N(6) == 0 {
			x.srv.mu.Lock()
			x.failJS["CONSUMER.CREATE."+c.stream] = 1
			x.srv.mu.Unlock()
		}
	}
	if x.logger(c, r) {
		o = append(o, natsjetstream.WithLogger(c.log))
	}
	for i := range o {
		k := r.N(i + 1)
		o[i], o[k] = o[k], o[i]
	}
	// connections: the last option about them counts
	for n := w.Pick(r, 0, 1, 1, 2, 3); n > 0; n-- {
		if r.N(2) == 0 {
			c.shared = r.N(len(x.given))
			c.connName, c.user = "", ""
			o = append(o, natsjetstream.WithConnection(x.given[c.shared]))
			c.opts = append(c.opts, fmt.Sprintf("given %d", c.shared))
		} else {
			c.shared = -1
			c.connName, c.user = fmt.Sprintf("name%d-%d", c.i, n), fmt.Sprintf("user%d", c.i)
			o = append(o, natsjetstream.WithConnectionOpts(gonats.Name(c.connName), gonats.UserInfo(c.user, "secret"), gonats.MaxReconnects(-1)))
			c.opts = append(c.opts, "connection "+c.connName)
		}
	}
	c.opts = append(c.opts, fmt.Sprintf("nak %v ackwait %v", c.nak, c.ackWait))
	for try := 0; ; try++ {
		n, err := natsjetstream.NewController("nats://"+c.addr, o...)
		if err == nil {
			c.c, c.stop = n, n.Close
			break
		}
		wd.Rec("make %d: %v", c.i, err)
		if x.quiet() && !strings.Contains(err.Error(), "refused") {
			wd.Violate("make", "controller %d (%v) could not be made: %v", c.i, c.opts, err)
		}
		if !wd.Until(time.Minute, func() bool { return x.natsConns(c.addr) == 0 }) {
			wd.Violate("left-open", "controller %d (%v) could not be made (%v), but %d of its connections stay open", c.i, c.opts, err, x.natsConns(c.addr))
		}
		if try > 10 {
			c.failed = true
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	c.made = true
	c.ready.Store(1)
	x.srv.mu.Lock()
	defer x.srv.mu.Unlock()
	st, cons := j.find(c.stream, c.consumer)
	if st == nil || cons == nil {
		wd.Violate("stream", "controller %d (%v) was made without its stream and consumer", c.i, c.opts)
		return
	}
	if len(st.subjects) != 1 || st.subjects[0] != c.channel {
		wd.Violate("stream-config", "controller %d (%v) was made, but its stream has the subjects %v", c.i, c.opts, st.subjects)
	}
	if time.Duration(cons.cfg.AckWait) != c.ackWait {
		wd.Violate("consumer", "the consumer of controller %d waits %v for acknowledgements instead of %v", c.i, time.Duration(cons.cfg.AckWait), c.ackWait)
	}
}

// natsConns counts the live connections at an address; nats.go itself leaves
// those behind whose handshake took too long.
func (x *optRun) natsConns(addr string) int {
	if !x.quiet() { // the one in use is the newest
		if x.srv.newest(addr) {
			return 1
		}
		return 0
	}
	x.srv.mu.Lock()
	defer x.srv.mu.Unlock()
	n := 0
	for _, k := range x.srv.conns {
		if k.addr == addr {
			n++
		}
	}
	return n
}

// use has messages delivered and settled once.
func (x *optRun) use(c *optCtrl, r *w.Rand) {
	wd := x.wd
	c.ready.Load()
	c.uses++
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
	defer cancel()
	fail := func(format string, a ...any) {
		msg := fmt.Sprintf(format, a...)
		wd.Rec("use %d: %s", c.i, msg)
		if x.quiet() {
			wd.Violate("use", "controller %d (kind %d, %v): %s", c.i, c.kind, c.opts, msg)
		}
	}
	var lines int
	if c.log != nil {
		lines = c.log.lines
	}
	fresh := c.kind == oKafka && c.hidden && c.uses == 1
	sub, err := c.c.Subscribe(ctx, c.channel)
	if err != nil {
		fail("Subscribe: %v", err)
		return
	}
	gotten := make(chan extensions.AcknowledgeableBrokerMessage, 100)
	go func() {
		for m := range sub.MessagesChannel() {
			gotten <- m
		}
		close(gotten)
	}()
	receive := func() (extensions.AcknowledgeableBrokerMessage, bool) {
		t := time.NewTimer(5 * time.Minute)
		defer t.Stop()
		select {
		case m, ok := <-gotten:
			return m, ok
		case <-t.C:
			return extensions.AcknowledgeableBrokerMessage{}, false
		}
	}
	defer func() {
		sub.Cancel(context.Background())
		for i := 0; i < 120; i++ { // cancelled, it is closed soon
			select {
			case _, ok := <-gotten:
				if !ok {
					return
				}
			case <-time.After(time.Second):
			}
		}
		fail("its subscription is not closed after the cancellation")
	}()
	id := fmt.Sprintf("u%d-%d", c.i, c.uses)
	if c.kind == oKafka && c.group == "" {
		time.Sleep(time.Second)
		for p := 0; p < 3; p++ {
			x.k.produceDirect(c.channel, p, &kRecord{value: []byte(fmt.Sprintf("%s-%d", id, p))})
		}
		// each subscription begins at the first record
		for k := 1; k <= c.uses; k++ {
			m, ok := receive()
			want := fmt.Sprintf("u%d-%d-%d", c.i, k, c.partition)
			if !ok {
				fail("nothing was received of partition %d", c.partition)
				return
			}
			if string(m.Payload) != want && !strings.HasSuffix(string(m.Payload), fmt.Sprintf("-%d", c.partition)) {
				wd.Violate("partition", "controller %d, of partition %d, received %q", c.i, c.partition, m.Payload)
			}
		}
		return
	}
	if c.kind != oNATS || x.quiet() {
		time.Sleep(time.Duration(r.N(1000)) * time.Millisecond)
	}
	if err := c.c.Publish(ctx, c.channel, extensions.BrokerMessage{Payload: []byte(id)}); err != nil {
		fail("Publish: %v", err)
		return
	}
	m, ok := receive()
	for ok && string(m.Payload) != id {
		if c.settled = true; c.manual || c.kind != oKafka {
			m.Ack()
		}
		m, ok = receive()
	}
	if !ok {
		fail("%s was published but not received", id)
		return
	}
	if c.log != nil && c.log.lines == lines && (c.kind == oJS || fresh) && x.quiet() {
		wd.Violate("logger", "controller %d (kind %d, %v) logged nothing", c.i, c.kind, c.opts)
	}
	switch c.kind {
	case oKafka:
		committed := func() bool {
			x.k.mu.Lock()
			defer x.k.mu.Unlock()
			for _, a := range x.k.commits {
				if a.ns == fmt.Sprintf("n%d", c.i) && a.topic == c.channel && a.group == c.group {
					p := x.k.topics[c.channel].parts[a.part]
					if a.offset > 0 && int(a.offset) <= len(p.records) && string(p.records[a.offset-1].value) == id {
						return true
					}
				}
			}
			return false
		}
		if !c.manual {
			if !wd.Until(2*time.Minute, committed) {
				fail("%s was not committed automatically", id)
			}
			return
		}
		if r.N(2) == 0 {
			time.Sleep(10 * time.Second)
			if committed() {
				wd.Violate("commit-mode", "controller %d does not commit by itself, but %s was committed before it was settled", c.i, id)
			}
		}
		c.settled = true
		m.Ack()
		if !wd.Until(2*time.Minute, committed) {
			fail("%s was settled but not committed", id)
		}
	case oNATS:
		m.Ack()
	case oJS:
		if r.N(2) == 0 {
			at := wd.Now()
			m.Nak()
			m, ok = receive()
			if !ok {
				fail("%s was not delivered again", id)
				return
			}
			if d := wd.Now() - at; d < c.nak && x.quiet() {
				wd.Violate("nak-delay", "controller %d, with a delay of %v, had a message again after %v", c.i, c.nak, d)
			}
		}
		m.Ack()
	}
}

func (x *optRun) finish() {
	wd := x.wd
	if x.k.err != "" || x.srv.err != "" {
		wd.Violate("protocol", "the client sent what the stub does not know: %s%s", x.k.err, x.srv.err)
		return
	}
	runtime.SimQuiesce()
	wd.Settle(2 * time.Minute)
	// process-wide defaults
	d := kafkago.DefaultDialer
	if d.TLS != x.base.TLS || d.SASLMechanism != x.base.SASLMechanism || d.ClientID != x.base.ClientID || d.Timeout != x.base.Timeout || d.DualStack != x.base.DualStack || !d.Deadline.Equal(x.base.Deadline) || d.LocalAddr != x.base.LocalAddr || d.KeepAlive != x.base.KeepAlive || d.TransactionalID != x.base.TransactionalID || d.Resolver != x.base.Resolver || d.DialFunc != nil {
		wd.Violate("default", "the default dialer of the Kafka library was changed: TLS %v, SASL %v", d.TLS != nil, d.SASLMechanism != nil)
	}
	// controllers that are still there go on working
	was := x.calm
	x.calm = true
	for _, c := range x.ctrls {
		if c.made && !c.closed {
			c := c
			wd.Go("use", func() {
				for try := 0; !was && try < 3; try++ { // reconnected by now
					time.Sleep(10 * time.Second)
				}
				x.use(c, w.NewRand(uint64(c.i)))
			})
		}
	}
	if !wd.Join(2 * time.Hour) {
		wd.Violate("hang", "calls did not return after the faults had stopped: %s", wd.Pending())
		return
	}
	x.calm = was
	x.wire()
	for j, nc := range x.given {
		if nc.IsClosed() {
			wd.Violate("given-closed", "connection %d, supplied by the caller, was closed", j)
		} else if err := nc.Publish("z", nil); err != nil {
			wd.Violate("given-closed", "connection %d, supplied by the caller, does not work any more: %v", j, err)
		}
	}
	for _, c := range x.ctrls {
		if c.made && !c.closed {
			x.close(c)
		}
	}
	wd.Settle(5 * time.Minute)
	for _, c := range x.ctrls {
		if c.kind == oKafka {
			if n := x.k.alive(fmt.Sprintf("n%d", c.i)); n > 0 && c.made {
				wd.Violate("left-open", "%d connections of controller %d (%v) stay open", n, c.i, c.opts)
			}
		} else if n := x.natsConns(c.addr); n > 0 && !c.failed {
			wd.Violate("left-open", "%d connections of controller %d (%v) are open after its Close", n, c.i, c.opts)
		}
	}
	for j, nc := range x.given {
		if nc.IsClosed() {
			wd.Violate("given-closed", "connection %d, supplied by the caller, was closed", j)
		}
		nc.Close()
	}
}

// wire compares what the servers saw with the options.
func (x *optRun) wire() {
	wd := x.wd
	x.k.mu.Lock()
	defer x.k.mu.Unlock()
	for _, s := range x.k.conns {
		for _, c := range x.ctrls {
			if c.kind != oKafka || s.ns != fmt.Sprintf("n%d", c.i) || s.last == 0 && !s.tls {
				continue
			}
			if s.tls != c.tls {
				wd.Violate("tls", "a connection of controller %d (%v) has TLS %v", c.i, c.opts, s.tls)
			}
			if s.user != c.user && (s.authed || c.user == "") {
				wd.Violate("sasl", "a connection of controller %d (%v) is authenticated as %q", c.i, c.opts, s.user)
			}
			if c.user == "" && s.mech != "" {
				wd.Violate("sasl", "a connection of controller %d (%v) asks for %s", c.i, c.opts, s.mech)
			}
			if c.user != "" && !s.authed && len(s.apis) > 2 {
				wd.Violate("sasl", "a connection of controller %d (%v) goes on without authentication: %s", c.i, c.opts, apiList(s.apis))
			}
		}
	}
	x.srv.mu.Lock()
	defer x.srv.mu.Unlock()
	for _, k := range x.srv.all {
		if !k.pinged {
			continue
		}
		for _, c := range x.ctrls {
			if c.kind == oKafka || k.addr != c.addr {
				continue
			}
			if name := c.connName; k.opts.Name != name && !(c.kind == oJS && strings.HasPrefix(k.opts.Name, fmt.Sprintf("name%d-", c.i))) {
				wd.Violate("connection-options", "a connection of controller %d (%v) is named %q", c.i, c.opts, k.opts.Name)
			}
			if k.opts.User != c.user && c.kind == oNATS {
				wd.Violate("connection-options", "a connection of controller %d (%v) is of user %q", c.i, c.opts, k.opts.User)
			}
			if c.kind == oNATS {
				for _, s := range x.srv.subs {
					if s.c == k && s.queue != c.group {
						wd.Violate("group", "controller %d, of group %q, subscribed in group %q", c.i, c.group, s.queue)
					}
				}
			}
		}
	}
	for _, c := range x.ctrls {
		if c.kind != oJS || !c.made {
			continue
		}
		_, cons := x.srv.js.find(c.stream, c.consumer)
		if cons == nil {
			continue
		}
		at := c.addr
		if c.shared >= 0 {
			at = optShared(c.shared)
		}
		for _, s := range cons.sends {
			if s.Conn != nil && (s.Conn.addr != at || c.shared < 0 && s.Conn.opts.Name != c.connName) {
				wd.Violate("connection", "controller %d (%v) consumes over the connection %q to %s", c.i, c.opts, s.Conn.opts.Name, s.Conn.addr)
			}
		}
		for _, a := range cons.acks {
			if a.Kind == "-NAK" {
				var d struct {
					Delay int64 `json:"delay"`
				}
				_ = json.Unmarshal([]byte(a.Data), &d)
				if time.Duration(d.Delay) != c.nak {
					wd.Violate("nak-delay", "controller %d, with a delay of %v, refused a message for %v", c.i, c.nak, time.Duration(d.Delay))
				}
			}
		}
	}
	for name, st := range x.srv.js.streams {
		for n := range st.consumers {
			if "C"+strings.TrimPrefix(name, "S") != n {
				wd.Violate("stream", "consumer %s was made in stream %s", n, name)
			}
		}
	}
}

func apiList(m map[string]int) string {
	var l []string
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}
