package main

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/segmentio/kafka-go/protocol"
	"github.com/segmentio/kafka-go/protocol/apiversions"
	"github.com/segmentio/kafka-go/protocol/createtopics"
	"github.com/segmentio/kafka-go/protocol/fetch"
	"github.com/segmentio/kafka-go/protocol/findcoordinator"
	"github.com/segmentio/kafka-go/protocol/heartbeat"
	"github.com/segmentio/kafka-go/protocol/joingroup"
	"github.com/segmentio/kafka-go/protocol/leavegroup"
	"github.com/segmentio/kafka-go/protocol/listoffsets"
	"github.com/segmentio/kafka-go/protocol/metadata"
	"github.com/segmentio/kafka-go/protocol/offsetcommit"
	"github.com/segmentio/kafka-go/protocol/offsetfetch"
	"github.com/segmentio/kafka-go/protocol/produce"
	"github.com/segmentio/kafka-go/protocol/saslauthenticate"
	"github.com/segmentio/kafka-go/protocol/saslhandshake"
	"github.com/segmentio/kafka-go/protocol/syncgroup"

	"verifsim/simnet"
	"verifsim/w"
)

// The stub Kafka cluster: topics of partitioned logs, producing, fetching,
// consumer groups with their coordinator, and the creation of topics. Every
// controller has addresses of its own for the nodes of the cluster, so that
// its connections can be told and broken apart from the others'.

// Error codes of the protocol.
const (
	kOffsetOutOfRange = 1
	kUnknownTopic     = 3
	kLeaderNotAvail   = 5
	kNotLeader        = 6
	kCoordLoading     = 14
	kNotCoordinator   = 16
	kInvalidTopic     = 17
	kIllegalGen       = 22
	kInconsistent     = 23
	kUnknownMember    = 25
	kRebalance        = 27
	kTopicAuth        = 29
	kTopicExists      = 36
	kPolicy           = 44
)

type kRecord struct {
	offset  int64
	headers []protocol.Header
	value   []byte
	at      time.Duration
	ns      string // whose connection brought it, "" for the scenario's own
}

type kBatch struct {
	base int64
	n    int
	raw  []byte
}

type kPart struct {
	records []*kRecord
	batches []kBatch
}

type kTopic struct {
	name    string
	parts   []*kPart
	visible time.Duration // when metadata begins to show it
	leader  time.Duration // when it has leaders
	by      string        // ns which created it
}

type kMember struct {
	id        string
	ns        string
	joined    bool
	waiting   bool
	protocols []joingroup.RequestProtocol
	session   time.Duration
	rebalance time.Duration
	beat      time.Duration
	assigned  []byte
}

type kGroup struct {
	name     string
	state    int // gEmpty...
	gen      int32
	members  map[string]*kMember
	order    []string
	leader   string
	proto    string
	deadline time.Duration
	commits  map[string]int64 // topic/partition
	reaper   bool
}

const (
	gEmpty = iota
	gPreparing
	gCompleting
	gStable
)

type kCommit struct {
	group, topic string
	part         int
	offset       int64
	ns           string
	at           time.Duration
}

type kFetched struct {
	group, topic string
	part         int
	offset       int64
	ns           string
	at           time.Duration
}

type kConn struct {
	ns     string
	port   int
	since  time.Duration
	until  time.Duration // 0 as long as it lives
	last   time.Duration // last request
	tls    bool
	mech   string
	user   string
	authed bool
	apis   map[string]int
}

type kCluster struct {
	wd      *w.World
	net     *simnet.Net
	rnd     *w.Rand
	nodes   int
	mu      sync.Mutex
	changed chan struct{}
	topics  map[string]*kTopic
	groups  map[string]*kGroup
	commits []kCommit
	offsets []kFetched // offsets given to those who asked where to begin
	conns   []*kConn
	members int
	// createFor tells how long a new topic stays hidden, and then without a leader.
	createFor func(ns, topic string) (hidden, leaderless time.Duration)
	failure   func(ns, kind, topic string) string // "", "code N", "drop", "late-drop", "silent", "slow"
	lens      map[string]*kSecurity               // by ns
	err       string
	rotate    int // moves the leaders
	acks      map[int16]int
}

// kSecurity is what the listeners of a controller's addresses ask for.
type kSecurity struct {
	tls        *tls.Config
	user, pass string
	mech       string
	onRequest  func(k *kConn, msg protocol.Message, clientID string)
}

func newKCluster(wd *w.World, n *simnet.Net, seed uint64, nodes int) *kCluster {
	return &kCluster{wd: wd, net: n, rnd: w.NewRand(seed), nodes: nodes, changed: make(chan struct{}), topics: map[string]*kTopic{}, groups: map[string]*kGroup{}, lens: map[string]*kSecurity{}, acks: map[int16]int{}}
}

// listen opens the addresses of a controller.
func (k *kCluster) listen(ns string) []string {
	var hosts []string
	for i := 0; i < k.nodes; i++ {
		i := i
		a := k.addr(ns, i)
		hosts = append(hosts, a)
		k.net.Listen(a, func(c *simnet.Conn) { k.serve(ns, i, c) })
	}
	return hosts
}

func (k *kCluster) addr(ns string, node int) string {
	return fmt.Sprintf("10.%s.0.%d:9092", strings.TrimPrefix(ns, "n"), node+1)
}

// touch needs mu.
func (k *kCluster) touch() {
	close(k.changed)
	k.changed = make(chan struct{})
}

func (k *kCluster) create(name string, parts int, by string) *kTopic {
	t := &kTopic{name: name, by: by}
	for i := 0; i < parts; i++ {
		t.parts = append(t.parts, &kPart{})
	}
	k.topics[name] = t
	return t
}

// append stores records as one batch; mu must be held.
func (k *kCluster) append(p *kPart, ns string, recs []*kRecord) int64 {
	base := int64(len(p.records))
	var l []protocol.Record
	for i, r := range recs {
		r.offset = base + int64(i)
		r.at = k.wd.Now()
		r.ns = ns
		l = append(l, protocol.Record{Time: time.Now(), Value: protocol.NewBytes(r.value), Headers: r.headers})
	}
	p.records = append(p.records, recs...)
	var buf bytes.Buffer
	rs := protocol.RecordSet{Version: 2, Records: protocol.NewRecordReader(l...)}
	if _, err := rs.WriteTo(&buf); err != nil {
		panic("stub kafka: " + err.Error())
	}
	raw := append([]byte(nil), buf.Bytes()[4:]...)
	binary.BigEndian.PutUint64(raw, uint64(base))
	p.batches = append(p.batches, kBatch{base, len(recs), raw})
	k.touch()
	return base
}

func (k *kCluster) leaderOf(topic string, part int) int {
	return (part + len(topic) + k.rotate) % k.nodes
}

// produceDirect stores records the way another producer would.
func (k *kCluster) produceDirect(topic string, part int, recs ...*kRecord) {
	k.mu.Lock()
	defer k.mu.Unlock()
	t := k.topics[topic]
	k.append(t.parts[part%len(t.parts)], "", recs)
}

func (k *kCluster) log(topic string) []*kRecord {
	t := k.topics[topic]
	if t == nil {
		return nil
	}
	var l []*kRecord
	for _, p := range t.parts {
		l = append(l, p.records...)
	}
	return l
}

type bufConn struct {
	net.Conn
	r *bufio.Reader
}

func (b bufConn) Read(p []byte) (int, error) { return b.r.Read(p) }

func (k *kCluster) serve(ns string, node int, c *simnet.Conn) {
	s := &kConn{ns: ns, port: c.Port, since: k.wd.Now(), apis: map[string]int{}}
	k.mu.Lock()
	k.conns = append(k.conns, s)
	sec := k.lens[ns]
	k.mu.Unlock()
	k.wd.Rec("kafka: connection %d of %s to node %d", c.Port, ns, node)
	defer func() {
		_ = c.Close()
		k.mu.Lock()
		s.until = max(k.wd.Now(), 1)
		k.mu.Unlock()
		k.wd.Rec("kafka: connection %d of %s ended", c.Port, ns)
	}()
	var conn net.Conn = c
	br := bufio.NewReader(c)
	first, err := br.Peek(1)
	if err != nil {
		return
	}
	s.tls = first[0] == 0x16
	if sec != nil && sec.tls != nil {
		if !s.tls {
			return
		}
		t := tls.Server(bufConn{c, br}, sec.tls)
		if err := t.Handshake(); err != nil {
			k.wd.Rec("kafka: handshake of %s: %v", ns, err)
			return
		}
		conn, br = t, bufio.NewReader(t)
	} else if s.tls {
		return
	}
	for {
		version, id, client, msg, err := protocol.ReadRequest(br)
		if err != nil {
			if err != io.EOF && err != io.ErrUnexpectedEOF && !strings.Contains(err.Error(), "reset") && !strings.Contains(err.Error(), "closed") && !strings.Contains(err.Error(), "pipe") {
				k.wd.Rec("kafka: request of %s: %v", ns, err)
				if strings.Contains(err.Error(), "unsupported") {
					k.mu.Lock()
					k.err = err.Error()
					k.mu.Unlock()
				}
			}
			return
		}
		k.mu.Lock()
		s.last = k.wd.Now()
		s.apis[fmt.Sprintf("%T", msg)]++
		k.mu.Unlock()
		if sec != nil && sec.onRequest != nil {
			sec.onRequest(s, msg, client)
		}
		if sec != nil && sec.mech != "" && !s.authed {
			switch msg.(type) {
			case *apiversions.Request, *saslhandshake.Request, *saslauthenticate.Request:
			default:
				return
			}
		}
		res, drop := k.handle(s, node, c, msg)
		if drop {
			return
		}
		if res == nil {
			continue
		}
		if raw, ok := res.([]byte); ok {
			binary.BigEndian.PutUint32(raw[4:], uint32(id))
			if _, err := conn.Write(raw); err != nil {
				return
			}
			continue
		}
		var buf bytes.Buffer
		if err := protocol.WriteResponse(&buf, version, id, res.(protocol.Message)); err != nil {
			panic("stub kafka: " + err.Error())
		}
		if _, err := conn.Write(buf.Bytes()); err != nil {
			return
		}
	}
}

// fate asks for a fault; it gives an error code, whether to leave the request
// unprocessed, and whether to break the connection after it.
func (k *kCluster) fate(s *kConn, c *simnet.Conn, kind, topic string) (code int16, skip, drop bool) {
	if k.failure == nil {
		return
	}
	k.mu.Lock()
	how := k.failure(s.ns, kind, topic)
	k.mu.Unlock()
	switch {
	case how == "":
	case how == "drop":
		return 0, true, true
	case how == "late-drop":
		return 0, false, true
	case how == "silent": // the node says nothing any more on this connection
		for i := 0; i < 600 && !c.Closed(); i++ {
			time.Sleep(time.Second)
		}
		return 0, true, true
	case how == "slow":
		time.Sleep(2 * time.Second)
	case how == "very slow":
		time.Sleep(12 * time.Second)
	default:
		_, _ = fmt.Sscanf(how, "code %d", &code)
	}
	return
}

func (k *kCluster) handle(s *kConn, node int, c *simnet.Conn, msg protocol.Message) (res any, drop bool) {
	switch m := msg.(type) {
	case *apiversions.Request:
		return k.apiVersions(), false
	case *saslhandshake.Request:
		s.mech = m.Mechanism
		sec := k.lens[s.ns]
		r := &saslhandshake.Response{Mechanisms: []string{"PLAIN"}}
		if sec == nil || sec.mech != m.Mechanism {
			r.ErrorCode = 33
		}
		return r, false
	case *saslauthenticate.Request:
		sec := k.lens[s.ns]
		parts := strings.Split(string(m.AuthBytes), "\x00")
		r := &saslauthenticate.Response{AuthBytes: []byte{}}
		if len(parts) == 3 {
			s.user = parts[1]
		}
		if sec == nil || len(parts) != 3 || parts[1] != sec.user || parts[2] != sec.pass {
			r.ErrorCode = 58
		} else {
			s.authed = true
		}
		return r, false
	case *metadata.Request:
		code, skip, drop := k.fate(s, c, "metadata", strings.Join(m.TopicNames, ","))
		k.mu.Lock()
		if code == 3 && s.apis["*joingroup.Request"] > 0 {
			// kafka-go's group leader takes an unknown topic for one without
			// partitions and assigns nothing until somebody joins again
			code = 5
		}
		k.mu.Unlock()
		if skip {
			return nil, drop
		}
		r := k.metadata(s, m, code)
		return ifNot(drop, r), drop
	case *createtopics.Request:
		name := ""
		if len(m.Topics) > 0 {
			name = m.Topics[0].Name
		}
		code, skip, drop := k.fate(s, c, "create", name)
		if skip {
			return nil, drop
		}
		r := k.createTopics(s, m, code)
		return ifNot(drop, r), drop
	case *produce.Request:
		name := ""
		if len(m.Topics) > 0 {
			name = m.Topics[0].Topic
		}
		code, skip, drop := k.fate(s, c, "produce", name)
		if skip {
			return nil, drop
		}
		r := k.produce(s, node, m, code)
		if m.Acks == 0 || drop {
			return nil, drop
		}
		return r, false
	case *fetch.Request:
		name := ""
		if len(m.Topics) > 0 {
			name = m.Topics[0].Topic
		}
		code, skip, drop := k.fate(s, c, "fetch", name)
		if skip {
			return nil, drop
		}
		r := k.fetch(s, node, c, m, code)
		if drop || r == nil {
			return nil, true
		}
		return r, false
	case *listoffsets.Request:
		code, skip, drop := k.fate(s, c, "listoffsets", "")
		if skip {
			return nil, drop
		}
		return ifNot(drop, k.listOffsets(node, m, code)), drop
	case *findcoordinator.Request:
		code, skip, drop := k.fate(s, c, "findcoordinator", "")
		if skip {
			return nil, drop
		}
		n := k.coordinator(m.Key)
		host, port, _ := net.SplitHostPort(k.addr(s.ns, n))
		var p int32
		_, _ = fmt.Sscan(port, &p)
		return ifNot(drop, &findcoordinator.Response{ErrorCode: code, NodeID: int32(n), Host: host, Port: p}), drop
	case *joingroup.Request:
		code, skip, drop := k.fate(s, c, "join", "")
		if skip {
			return nil, drop
		}
		r := k.join(s, c, m, code)
		return ifNot(drop, r), drop
	case *syncgroup.Request:
		code, skip, drop := k.fate(s, c, "sync", "")
		if skip {
			return nil, drop
		}
		r := k.sync(c, m, code)
		return ifNot(drop, r), drop
	case *heartbeat.Request:
		code, skip, drop := k.fate(s, c, "heartbeat", "")
		if skip {
			return nil, drop
		}
		return ifNot(drop, k.heartbeat(m, code)), drop
	case *leavegroup.Request:
		code, skip, drop := k.fate(s, c, "leave", "")
		if skip {
			return nil, drop
		}
		return ifNot(drop, k.leave(m, code)), drop
	case *offsetcommit.Request:
		code, skip, drop := k.fate(s, c, "commit", "")
		if skip {
			return nil, drop
		}
		return ifNot(drop, k.commit(s, m, code)), drop
	case *offsetfetch.Request:
		code, skip, drop := k.fate(s, c, "offsetfetch", "")
		if skip {
			return nil, drop
		}
		return ifNot(drop, k.offsetFetch(s, m, code)), drop
	}
	k.mu.Lock()
	k.err = fmt.Sprintf("request %T", msg)
	k.mu.Unlock()
	return nil, true
}

func ifNot(drop bool, m protocol.Message) any {
	if drop {
		return nil
	}
	return m
}

func (k *kCluster) apiVersions() protocol.Message {
	r := &apiversions.Response{}
	for _, v := range []struct{ key, min, max int16 }{{0, 3, 7}, {1, 10, 10}, {2, 1, 1}, {3, 1, 6}, {8, 2, 2}, {9, 1, 1}, {10, 0, 0}, {11, 1, 1}, {12, 0, 0}, {13, 0, 0}, {14, 0, 0}, {17, 1, 1}, {18, 0, 0}, {19, 0, 0}, {36, 0, 0}} {
		r.ApiKeys = append(r.ApiKeys, apiversions.ApiKeyResponse{ApiKey: v.key, MinVersion: v.min, MaxVersion: v.max})
	}
	return r
}

func (k *kCluster) metadata(s *kConn, m *metadata.Request, code int16) protocol.Message {
	k.mu.Lock()
	defer k.mu.Unlock()
	now := k.wd.Now()
	r := &metadata.Response{ClusterID: "c"}
	for i := 0; i < k.nodes; i++ {
		host, _, _ := net.SplitHostPort(k.addr(s.ns, i))
		r.Brokers = append(r.Brokers, metadata.ResponseBroker{NodeID: int32(i), Host: host, Port: 9092})
	}
	names := m.TopicNames
	all := names == nil
	if all {
		for n := range k.topics {
			names = append(names, n)
		}
		sort.Strings(names)
	}
	for _, n := range names {
		t := k.topics[n]
		rt := metadata.ResponseTopic{Name: n}
		switch {
		case t == nil || t.visible > now:
			if all {
				continue
			}
			rt.ErrorCode = kUnknownTopic
		case t.leader > now:
			rt.ErrorCode = kLeaderNotAvail
		case code != 0:
			rt.ErrorCode = code
		default:
			for i := range t.parts {
				l := int32(k.leaderOf(n, i))
				rt.Partitions = append(rt.Partitions, metadata.ResponsePartition{PartitionIndex: int32(i), LeaderID: l, ReplicaNodes: []int32{l}, IsrNodes: []int32{l}})
			}
		}
		r.Topics = append(r.Topics, rt)
	}
	return r
}

func (k *kCluster) createTopics(s *kConn, m *createtopics.Request, code int16) protocol.Message {
	k.mu.Lock()
	defer k.mu.Unlock()
	r := &createtopics.Response{}
	for _, t := range m.Topics {
		e := code
		if e == 0 {
			if k.topics[t.Name] != nil {
				e = kTopicExists
			} else {
				n := max(int(t.NumPartitions), 1)
				nt := k.create(t.Name, n, s.ns)
				if k.createFor != nil {
					h, l := k.createFor(s.ns, t.Name)
					nt.visible = k.wd.Now() + h
					nt.leader = nt.visible + l
				}
				k.wd.Rec("kafka: %s created %s", s.ns, t.Name)
				k.touch()
			}
		}
		r.Topics = append(r.Topics, createtopics.ResponseTopic{Name: t.Name, ErrorCode: e})
	}
	return r
}

func (k *kCluster) produce(s *kConn, node int, m *produce.Request, code int16) protocol.Message {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.acks[m.Acks]++
	r := &produce.Response{}
	now := k.wd.Now()
	for _, t := range m.Topics {
		rt := produce.ResponseTopic{Topic: t.Topic}
		for _, p := range t.Partitions {
			var recs []*kRecord
			for {
				rec, err := p.RecordSet.Records.ReadRecord()
				if err != nil {
					if err != io.EOF {
						panic("stub kafka: " + err.Error())
					}
					break
				}
				v, err := protocol.ReadAll(rec.Value)
				if err != nil {
					panic("stub kafka: " + err.Error())
				}
				kr := &kRecord{value: v}
				for _, h := range rec.Headers {
					kr.headers = append(kr.headers, protocol.Header{Key: h.Key, Value: append([]byte(nil), h.Value...)})
				}
				recs = append(recs, kr)
			}
			rp := produce.ResponsePartition{Partition: p.Partition, ErrorCode: code}
			kt := k.topics[t.Topic]
			switch {
			case code != 0:
			case kt == nil || int(p.Partition) >= len(kt.parts) || kt.leader > now:
				rp.ErrorCode = kUnknownTopic
			case k.leaderOf(t.Topic, int(p.Partition)) != node:
				rp.ErrorCode = kNotLeader
			default:
				rp.BaseOffset = k.append(kt.parts[p.Partition], s.ns, recs)
				k.wd.Rec("kafka: %s/%d offset %d stored for %s", t.Topic, p.Partition, rp.BaseOffset, s.ns)
			}
			rt.Partitions = append(rt.Partitions, rp)
		}
		r.Topics = append(r.Topics, rt)
	}
	return r
}

func (k *kCluster) fetch(s *kConn, node int, c *simnet.Conn, m *fetch.Request, code int16) any {
	t := m.Topics[0]
	p := t.Partitions[0]
	until := k.wd.Now() + time.Duration(m.MaxWaitTime)*time.Millisecond
	var set []byte
	var hw int64
	for {
		k.mu.Lock()
		set = nil
		kt := k.topics[t.Topic]
		ready := true
		switch {
		case code != 0:
		case kt == nil || int(p.Partition) >= len(kt.parts):
			code = kUnknownTopic
		case k.leaderOf(t.Topic, int(p.Partition)) != node:
			code = kNotLeader
		default:
			part := kt.parts[p.Partition]
			hw = int64(len(part.records))
			if p.FetchOffset > hw || p.FetchOffset < 0 {
				code = kOffsetOutOfRange
				break
			}
			limit := min(int(p.PartitionMaxBytes), int(m.MaxBytes))
			for _, b := range part.batches {
				if b.base+int64(b.n) <= p.FetchOffset {
					continue
				}
				if len(set) > 0 && len(set)+len(b.raw) > limit {
					break
				}
				set = append(set, b.raw...)
			}
			ready = len(set) >= max(int(m.MinBytes), 1)
		}
		ch := k.changed
		k.mu.Unlock()
		now := k.wd.Now()
		if ready || now >= until || c.Closed() {
			break
		}
		tm := time.NewTimer(min(until-now, 5*time.Second))
		select {
		case <-ch:
		case <-tm.C:
		}
		tm.Stop()
	}
	if c.Closed() {
		return nil
	}
	b := make([]byte, 8)
	u16 := func(v int) { b = binary.BigEndian.AppendUint16(b, uint16(v)) }
	u32 := func(v int) { b = binary.BigEndian.AppendUint32(b, uint32(v)) }
	u64 := func(v int64) { b = binary.BigEndian.AppendUint64(b, uint64(v)) }
	u32(0) // throttle
	u16(0) // error
	u32(0) // session
	u32(1) // topics
	u16(len(t.Topic))
	b = append(b, t.Topic...)
	u32(1) // partitions
	u32(int(p.Partition))
	u16(int(code))
	if code != 0 {
		hw, set = -1, nil
	}
	u64(hw)
	u64(hw)
	u64(0)
	u32(0) // aborted transactions
	u32(len(set))
	b = append(b, set...)
	binary.BigEndian.PutUint32(b, uint32(len(b)-4))
	return b
}

func (k *kCluster) listOffsets(node int, m *listoffsets.Request, code int16) protocol.Message {
	k.mu.Lock()
	defer k.mu.Unlock()
	r := &listoffsets.Response{}
	for _, t := range m.Topics {
		rt := listoffsets.ResponseTopic{Topic: t.Topic}
		for _, p := range t.Partitions {
			rp := listoffsets.ResponsePartition{Partition: p.Partition, ErrorCode: code, Timestamp: -1}
			kt := k.topics[t.Topic]
			switch {
			case code != 0:
			case kt == nil || int(p.Partition) >= len(kt.parts):
				rp.ErrorCode = kUnknownTopic
			case k.leaderOf(t.Topic, int(p.Partition)) != node:
				rp.ErrorCode = kNotLeader
			case p.Timestamp == -1:
				rp.Offset = int64(len(kt.parts[p.Partition].records))
			}
			rt.Partitions = append(rt.Partitions, rp)
		}
		r.Topics = append(r.Topics, rt)
	}
	return r
}

func (k *kCluster) coordinator(group string) int { return (len(group) + k.rotate) % k.nodes }

// group needs mu.
func (k *kCluster) group(name string) *kGroup {
	g := k.groups[name]
	if g == nil {
		g = &kGroup{name: name, members: map[string]*kMember{}, commits: map[string]int64{}}
		k.groups[name] = g
	}
	return g
}

func (k *kCluster) prepare(g *kGroup) {
	if g.state == gPreparing {
		return
	}
	g.state = gPreparing
	var d time.Duration
	for _, id := range g.order {
		m := g.members[id]
		m.joined = m.waiting
		d = max(d, m.rebalance)
	}
	g.deadline = k.wd.Now() + d
	k.touch()
}

func (k *kCluster) drop(g *kGroup, id string) {
	delete(g.members, id)
	for i, x := range g.order {
		if x == id {
			g.order = append(g.order[:i:i], g.order[i+1:]...)
			break
		}
	}
	if len(g.members) == 0 {
		g.state = gEmpty
	} else if g.state != gPreparing {
		k.prepare(g)
	}
	k.touch()
}

// advance completes the rebalance if it can be; mu must be held.
func (k *kCluster) advance(g *kGroup) {
	if g.state != gPreparing {
		return
	}
	all := true
	for _, id := range g.order {
		all = all && g.members[id].joined
	}
	if !all && k.wd.Now() < g.deadline {
		return
	}
	if !all {
		for _, id := range append([]string(nil), g.order...) {
			if !g.members[id].joined {
				k.drop(g, id)
			}
		}
	}
	if len(g.members) == 0 {
		return
	}
	g.gen++
	g.leader = g.order[0]
	g.state = gCompleting
	g.proto = ""
	for _, p := range g.members[g.leader].protocols {
		ok := true
		for _, id := range g.order {
			has := false
			for _, q := range g.members[id].protocols {
				has = has || q.Name == p.Name
			}
			ok = ok && has
		}
		if ok {
			g.proto = p.Name
			break
		}
	}
	for _, id := range g.order {
		m := g.members[id]
		m.assigned = nil
		m.beat = k.wd.Now()
	}
	k.wd.Rec("kafka: group %s generation %d: %s", g.name, g.gen, strings.Join(g.order, ","))
	k.touch()
}

// watch expires the members that say nothing.
func (k *kCluster) watch(g *kGroup) {
	if g.reaper {
		return
	}
	g.reaper = true
	go func() {
		for {
			time.Sleep(time.Second)
			k.mu.Lock()
			for _, id := range append([]string(nil), g.order...) {
				m := g.members[id]
				if m != nil && !m.waiting && k.wd.Now()-m.beat > m.session {
					k.wd.Rec("kafka: member %s expired", id)
					k.drop(g, id)
				}
			}
			k.advance(g)
			if len(g.members) == 0 {
				g.reaper = false
				k.mu.Unlock()
				return
			}
			k.mu.Unlock()
		}
	}()
}

func (k *kCluster) wait(ch chan struct{}) {
	t := time.NewTimer(time.Second)
	select {
	case <-ch:
	case <-t.C:
	}
	t.Stop()
}

func (k *kCluster) join(s *kConn, c *simnet.Conn, m *joingroup.Request, code int16) protocol.Message {
	if code != 0 {
		return &joingroup.Response{ErrorCode: code}
	}
	k.mu.Lock()
	defer k.mu.Unlock()
	g := k.group(m.GroupID)
	id := m.MemberID
	me := g.members[id]
	switch {
	case id == "":
		k.members++
		id = fmt.Sprintf("member-%d", k.members)
		me = &kMember{id: id, ns: s.ns}
		g.members[id] = me
		g.order = append(g.order, id)
	case me == nil:
		return &joingroup.Response{ErrorCode: kUnknownMember}
	}
	me.protocols = m.Protocols
	me.session = time.Duration(m.SessionTimeoutMS) * time.Millisecond
	me.rebalance = time.Duration(m.RebalanceTimeoutMS) * time.Millisecond
	me.beat = k.wd.Now()
	k.wd.Rec("kafka: join %s by %s of %s", g.name, id, s.ns)
	if g.state != gPreparing {
		k.prepare(g)
	}
	me.joined, me.waiting = true, true
	k.watch(g)
	k.advance(g)
	for g.state == gPreparing && g.members[id] == me && !c.Closed() {
		ch := k.changed
		k.mu.Unlock()
		k.wait(ch)
		k.mu.Lock()
		k.advance(g)
	}
	me.waiting = false
	me.beat = k.wd.Now()
	if g.members[id] != me {
		return &joingroup.Response{ErrorCode: kUnknownMember}
	}
	if g.state == gPreparing { // its connection is gone
		return &joingroup.Response{ErrorCode: kRebalance}
	}
	r := &joingroup.Response{GenerationID: g.gen, ProtocolName: g.proto, LeaderID: g.leader, MemberID: id}
	if g.leader == id {
		for _, x := range g.order {
			for _, p := range g.members[x].protocols {
				if p.Name == g.proto {
					r.Members = append(r.Members, joingroup.ResponseMember{MemberID: x, Metadata: p.Metadata})
				}
			}
		}
	}
	return r
}

func (k *kCluster) member(g *kGroup, id string, gen int32) int16 {
	m := g.members[id]
	switch {
	case m == nil:
		return kUnknownMember
	case gen != g.gen:
		return kIllegalGen
	}
	m.beat = k.wd.Now()
	return 0
}

func (k *kCluster) sync(c *simnet.Conn, m *syncgroup.Request, code int16) protocol.Message {
	if code != 0 {
		return &syncgroup.Response{ErrorCode: code, Assignments: []byte{}}
	}
	k.mu.Lock()
	defer k.mu.Unlock()
	fail := func(e int16) protocol.Message { return &syncgroup.Response{ErrorCode: e, Assignments: []byte{}} }
	g := k.group(m.GroupID)
	if e := k.member(g, m.MemberID, m.GenerationID); e != 0 {
		return fail(e)
	}
	if g.state == gPreparing {
		return fail(kRebalance)
	}
	me := g.members[m.MemberID]
	if g.leader == m.MemberID && g.state == gCompleting {
		for _, a := range m.Assignments {
			if x := g.members[a.MemberID]; x != nil {
				x.assigned = append([]byte(nil), a.Assignment...)
			}
		}
		g.state = gStable
		k.touch()
	}
	for g.state == gCompleting && g.gen == m.GenerationID && g.members[m.MemberID] == me && !c.Closed() {
		ch := k.changed
		k.mu.Unlock()
		k.wait(ch)
		k.mu.Lock()
	}
	if e := k.member(g, m.MemberID, m.GenerationID); e != 0 {
		return fail(e)
	}
	if g.state != gStable {
		return fail(kRebalance)
	}
	a := me.assigned
	if a == nil {
		a = []byte{}
	}
	return &syncgroup.Response{Assignments: a}
}

func (k *kCluster) heartbeat(m *heartbeat.Request, code int16) protocol.Message {
	k.mu.Lock()
	defer k.mu.Unlock()
	if code == 0 {
		g := k.group(m.GroupID)
		code = k.member(g, m.MemberID, m.GenerationID)
		if code == 0 && g.state == gPreparing {
			code = kRebalance
		}
	}
	return &heartbeat.Response{ErrorCode: code}
}

func (k *kCluster) leave(m *leavegroup.Request, code int16) protocol.Message {
	k.mu.Lock()
	defer k.mu.Unlock()
	if code == 0 {
		g := k.group(m.GroupID)
		if g.members[m.MemberID] == nil {
			code = kUnknownMember
		} else {
			k.wd.Rec("kafka: %s leaves %s", m.MemberID, g.name)
			k.drop(g, m.MemberID)
			k.advance(g)
		}
	}
	return &leavegroup.Response{ErrorCode: code}
}

func tp(topic string, part int) string { return fmt.Sprintf("%s/%d", topic, part) }

func (k *kCluster) commit(s *kConn, m *offsetcommit.Request, code int16) protocol.Message {
	k.mu.Lock()
	defer k.mu.Unlock()
	g := k.group(m.GroupID)
	if code == 0 && (m.GenerationID >= 0 || len(g.members) > 0) {
		code = k.member(g, m.MemberID, m.GenerationID)
		if code == 0 && g.state == gCompleting {
			code = kRebalance
		}
	}
	r := &offsetcommit.Response{}
	for _, t := range m.Topics {
		rt := offsetcommit.ResponseTopic{Name: t.Name}
		for _, p := range t.Partitions {
			if code == 0 {
				g.commits[tp(t.Name, int(p.PartitionIndex))] = p.CommittedOffset
				k.commits = append(k.commits, kCommit{g.name, t.Name, int(p.PartitionIndex), p.CommittedOffset, s.ns, k.wd.Now()})
				k.wd.Rec("kafka: %s commits %s/%d %d", m.MemberID, t.Name, p.PartitionIndex, p.CommittedOffset)
			}
			rt.Partitions = append(rt.Partitions, offsetcommit.ResponsePartition{PartitionIndex: p.PartitionIndex, ErrorCode: code})
		}
		r.Topics = append(r.Topics, rt)
	}
	return r
}

func (k *kCluster) offsetFetch(s *kConn, m *offsetfetch.Request, code int16) protocol.Message {
	k.mu.Lock()
	defer k.mu.Unlock()
	g := k.group(m.GroupID)
	r := &offsetfetch.Response{}
	for _, t := range m.Topics {
		rt := offsetfetch.ResponseTopic{Name: t.Name}
		for _, p := range t.PartitionIndexes {
			o, ok := g.commits[tp(t.Name, int(p))]
			if !ok {
				o = -1
			}
			if code == 0 {
				k.offsets = append(k.offsets, kFetched{g.name, t.Name, int(p), max(o, 0), s.ns, k.wd.Now()})
				k.wd.Rec("kafka: %s starts %s/%d at %d", s.ns, t.Name, p, o)
			}
			rt.Partitions = append(rt.Partitions, offsetfetch.ResponsePartition{PartitionIndex: p, CommittedOffset: o, ErrorCode: code})
		}
		r.Topics = append(r.Topics, rt)
	}
	return r
}

// alive counts the connections of ns the cluster has.
func (k *kCluster) alive(ns string) int {
	k.mu.Lock()
	defer k.mu.Unlock()
	n := 0
	for _, c := range k.conns {
		if c.ns == ns && c.until == 0 {
			n++
		}
	}
	return n
}
