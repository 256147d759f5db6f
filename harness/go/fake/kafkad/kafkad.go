// Package kafkad is a small Kafka cluster that records what it is asked.
package kafkad

import (
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"net"
	"regexp"
	"sync"
	"syscall"
	"time"

	"github.com/segmentio/kafka-go/protocol"
	"github.com/segmentio/kafka-go/protocol/apiversions"
	"github.com/segmentio/kafka-go/protocol/createtopics"
	"github.com/segmentio/kafka-go/protocol/fetch"
	"github.com/segmentio/kafka-go/protocol/findcoordinator"
	"github.com/segmentio/kafka-go/protocol/heartbeat"
	"github.com/segmentio/kafka-go/protocol/joingroup"
	"github.com/segmentio/kafka-go/protocol/leavegroup"
	"github.com/segmentio/kafka-go/protocol/listoffsets"
	"github.com/segmentio/kafka-go/protocol/metadata"
	"github.com/segmentio/kafka-go/protocol/offsetcommit"
	"github.com/segmentio/kafka-go/protocol/offsetfetch"
	"github.com/segmentio/kafka-go/protocol/produce"
	"github.com/segmentio/kafka-go/protocol/saslauthenticate"
	"github.com/segmentio/kafka-go/protocol/saslhandshake"
	"github.com/segmentio/kafka-go/protocol/syncgroup"

	"verif/mon"

	"verif/fake/loop"
)

// What a fault can do besides giving an error code.
const (
	KillBefore int16 = -1001 // The connection breaks, nothing is done
	KillAfter  int16 = -1002 // The connection breaks once it is done
	Silence    int16 = -1003 // No answer
	Garbage    int16 = -1004 // An answer that cannot be read
)

// Record is a record of a log.
type Record struct {
	Offset  int64
	Key     []byte
	Value   []byte // Can be nil
	Headers []protocol.Header
	At      int64 // Tick
	Conn    int
}

type batch struct {
	base, last int64
	raw        []byte
}

type part struct {
	leader  int
	start   int64
	next    int64
	records []Record
	batches []batch
	changed chan struct{}
}

type topic struct {
	parts  []*part
	hidden int   // Requests of metadata that do not see it yet
	err    int16 // In metadata
	user   bool  // Created by a client
	config createtopics.RequestTopic
}

// Event is something asked to the cluster.
type Event struct {
	At        int64
	Kind      string
	Conn      int
	Node      int
	Topic     string
	Partition int32
	Offset    int64
	Max       int32
	Group     string
	Member    string
	Code      int16
	Name      string
}

// Config is how the cluster is.
type Config struct {
	Nodes      int
	TLS        *tls.Config
	User, Pass string // SASL PLAIN
	FetchV5    bool
	OldMeta    bool          // Metadata v1 only for the connections
	Controller bool          // Only the controller creates topics
	AutoCreate bool          // Topics are created when they are used
	FetchWait  time.Duration // How long a fetch waits at most
	JoinWait   time.Duration
	Rebalance  time.Duration
	BatchMax   int // Records per answer
	Truncate   bool
}

type fault struct {
	key   protocol.ApiKey
	on    string // Topic or group; empty: any
	code  int16
	times int
	pass  int // First requests that are spared
}

type node struct {
	id   int
	ln   net.Listener
	addr *net.TCPAddr
	down bool
}

// Server is a cluster.
type Server struct {
	Config
	mu     sync.Mutex
	rng    *rand.Rand
	nodes  []*node
	ctrl   int
	topics map[string]*topic
	groups map[string]*group
	events []Event
	conns  map[int]*conn
	nconn  int
	faults []*fault
	down   bool
	wg     sync.WaitGroup
}

type conn struct {
	s      *Server
	id     int
	node   *node
	c      net.Conn
	authed bool
	mech   string
	done   chan struct{}
	once   sync.Once
}

func (c *conn) close() {
	c.once.Do(func() {
		close(c.done)
		c.c.Close()
	})
}

// New starts a cluster.
func New(rng *rand.Rand, cfg Config) (*Server, error) {
	s := &Server{Config: cfg, rng: rng, topics: map[string]*topic{}, groups: map[string]*group{}, conns: map[int]*conn{}}
	if s.Nodes == 0 {
		s.Nodes = 1
	}
	s.ctrl = rng.Intn(s.Nodes)
	for i := 0; i < s.Nodes; i++ {
		n := &node{id: i}
		if err := s.listen(n, loop.Any()); err != nil {
			return nil, err
		}
		s.nodes = append(s.nodes, n)
	}
	return s, nil
}

func (s *Server) listen(n *node, addr string) error {
	ln, err := net.Listen("tcp", addr)
	if err != nil {
		return err
	}
	n.ln, n.addr, n.down = ln, ln.Addr().(*net.TCPAddr), false
	s.wg.Add(1)
	go s.accept(n, ln)
	return nil
}

// Addrs gives the addresses of the nodes.
func (s *Server) Addrs() []string {
	var l []string
	for _, n := range s.nodes {
		l = append(l, n.addr.String())
	}
	return l
}

// ControllerAddr is the address of the controller.
func (s *Server) ControllerAddr() string { return s.nodes[s.ctrl].addr.String() }

// Stop stops everything.
func (s *Server) Stop() {
	s.mu.Lock()
	s.down = true
	for _, n := range s.nodes {
		n.ln.Close()
	}
	for _, c := range s.conns {
		c.close()
	}
	s.mu.Unlock()
	s.wg.Wait()
}

// KillConns breaks all the connections there are.
func (s *Server) KillConns() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		c.close()
	}
	s.event(Event{Kind: "kill-all", Max: int32(len(s.conns))})
	return len(s.conns)
}

// Down stops a node from listening, and breaks its connections.
func (s *Server) Down(i int) {
	s.mu.Lock()
	n := s.nodes[i]
	n.down = true
	n.ln.Close()
	for _, c := range s.conns {
		if c.node == n {
			c.close()
		}
	}
	s.event(Event{Kind: "down", Node: i})
	s.mu.Unlock()
}

// Up makes a node listen again.
func (s *Server) Up(i int) error {
	n := s.nodes[i]
	s.mu.Lock()
	s.event(Event{Kind: "up", Node: i})
	s.mu.Unlock()
	return s.listen(n, n.addr.String())
}

// Events is what happened.
func (s *Server) Events() []Event {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Event(nil), s.events...)
}

// Conns is the number of open connections.
func (s *Server) Conns() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.conns)
}

// Opened is the number of connections opened since the beginning.
func (s *Server) Opened() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.nconn
}

// event records an event; the server is locked.
func (s *Server) event(e Event) {
	e.At = mon.Tick()
	s.events = append(s.events, e)
}

// Fail makes the next requests fail.
func (s *Server) Fail(key protocol.ApiKey, on string, code int16, times, pass int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.faults = append(s.faults, &fault{key, on, code, times, pass})
}

// Faults is the number of failures that are still to come.
func (s *Server) Faults() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for _, f := range s.faults {
		n += f.times
	}
	return n
}

// Heal forgets the failures to come.
func (s *Server) Heal() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.faults = nil
}

// fault gives the failure of a request, the server is locked.
func (s *Server) fault(c *conn, key protocol.ApiKey, on string) int16 {
	for _, f := range s.faults {
		if f.key != key || f.times == 0 || f.on != "" && f.on != on {
			continue
		}
		if f.pass > 0 {
			f.pass--
			continue
		}
		f.times--
		s.event(Event{Kind: "fault", Conn: c.id, Node: c.node.id, Topic: on, Code: f.code, Name: key.String()})
		return f.code
	}
	return 0
}

// CreateTopic creates a topic.
func (s *Server) CreateTopic(name string, parts int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.create(name, parts)
}

func (s *Server) create(name string, parts int) *topic {
	t := &topic{}
	for i := 0; i < parts; i++ {
		t.parts = append(t.parts, &part{leader: s.rng.Intn(s.Nodes), changed: make(chan struct{})})
	}
	s.topics[name] = t
	return t
}

// HideTopics makes the topics created from now on appear late.
func (s *Server) topicHidden() int { return s.rng.Intn(4) }

// Break gives an error code to a topic in metadata.
func (s *Server) Break(name string, code int16) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.topics[name].err = code
}

// Topic gives the number of partitions of a topic, and whether a client created it.
func (s *Server) Topic(name string) (int, bool, createtopics.RequestTopic) {
	s.mu.Lock()
	defer s.mu.Unlock()
	t := s.topics[name]
	if t == nil {
		return 0, false, createtopics.RequestTopic{}
	}
	return len(t.parts), t.user, t.config
}

// Topics is the number of topics.
func (s *Server) Topics() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.topics)
}

// Log gives the records of a partition.
func (s *Server) Log(name string, p int) []Record {
	s.mu.Lock()
	defer s.mu.Unlock()
	t := s.topics[name]
	if t == nil || p >= len(t.parts) {
		return nil
	}
	return append([]Record(nil), t.parts[p].records...)
}

// Gap makes the next offset of a partition higher.
func (s *Server) Gap(name string, p int, n int64) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.topics[name].parts[p].next += n
}

// Trim forgets the records before an offset.
func (s *Server) Start(name string, p int) int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.topics[name].parts[p].start
}

// Trim drops the first batches of a partition.
func (s *Server) Trim(name string, p int, n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	q := s.topics[name].parts[p]
	if n >= len(q.batches) {
		return
	}
	q.batches = q.batches[n:]
	q.start = q.batches[0].base
	for len(q.records) > 0 && q.records[0].Offset < q.start {
		q.records = q.records[1:]
	}
}

// Append adds a batch to a partition.
func (s *Server) Append(name string, p int, attr protocol.Attributes, recs ...Record) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.append(s.topics[name].parts[p], attr, 0, recs)
}

func (s *Server) append(q *part, attr protocol.Attributes, conn int, recs []Record) error {
	var l []protocol.Record
	at := mon.Tick()
	base := q.next
	for i := range recs {
		r := &recs[i]
		r.Offset, r.At, r.Conn = q.next, at, conn
		q.next++
		x := protocol.Record{Headers: r.Headers, Time: time.Now()}
		if r.Key != nil {
			x.Key = protocol.NewBytes(r.Key)
		}
		if r.Value != nil {
			x.Value = protocol.NewBytes(r.Value)
		}
		l = append(l, x)
	}
	var b bytes.Buffer
	set := protocol.RecordSet{Version: 2, Attributes: attr, Records: protocol.NewRecordReader(l...)}
	if _, err := set.WriteTo(&b); err != nil {
		return err
	}
	raw := b.Bytes()[4:]
	binary.BigEndian.PutUint64(raw, uint64(base))
	q.records = append(q.records, recs...)
	q.batches = append(q.batches, batch{base, q.next - 1, raw})
	close(q.changed)
	q.changed = make(chan struct{})
	return nil
}

// Committed is the offset a group committed, -1 if none.
func (s *Server) Committed(grp, topic string, p int32) int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	if g := s.groups[grp]; g != nil {
		if o, ok := g.offsets[tp{topic, p}]; ok {
			return o
		}
	}
	return -1
}

// SetCommitted sets the offset of a group.
func (s *Server) SetCommitted(grp, topic string, p int32, o int64) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.group(grp).offsets[tp{topic, p}] = o
}

// Members is the number of members of a group.
func (s *Server) Members(grp string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	if g := s.groups[grp]; g != nil {
		return len(g.members)
	}
	return 0
}

// Stable tells if a group has this number of members, and they all are assigned.
func (s *Server) Stable(grp string, n int) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	g := s.groups[grp]
	return g != nil && g.state == stable && len(g.members) == n
}

func (s *Server) accept(n *node, ln net.Listener) {
	defer s.wg.Done()
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		if s.down || n.down {
			s.mu.Unlock()
			c.Close()
			continue
		}
		s.nconn++
		x := &conn{s: s, id: s.nconn, node: n, c: c, done: make(chan struct{})}
		s.conns[x.id] = x
		s.event(Event{Kind: "open", Conn: x.id, Node: n.id})
		s.wg.Add(1)
		go x.serve()
		s.mu.Unlock()
	}
}

type request struct {
	version int16
	id      int32
	client  string
	msg     protocol.Message
	records []Record // Of a publication
	attr    protocol.Attributes
	err     error
}

func (c *conn) serve() {
	s := c.s
	defer s.wg.Done()
	defer func() {
		c.close()
		s.mu.Lock()
		delete(s.conns, c.id)
		s.event(Event{Kind: "close", Conn: c.id, Node: c.node.id})
		s.mu.Unlock()
	}()
	rw := c.c
	if s.TLS != nil {
		t := tls.Server(c.c, s.TLS)
		if err := t.Handshake(); err != nil {
			s.mu.Lock()
			s.event(Event{Kind: "bad-tls", Conn: c.id, Name: err.Error()})
			s.mu.Unlock()
			return
		}
		rw = t
	}
	reqs := make(chan request)
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		defer c.close()
		for {
			var r request
			var err error
			r.version, r.id, r.client, r.msg, err = protocol.ReadRequest(rw)
			if err == nil {
				if p, ok := r.msg.(*produce.Request); ok {
					r.attr, r.records, r.err = decode(p)
				}
			} else {
				if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) && !errors.Is(err, net.ErrClosed) && !errors.Is(err, syscall.ECONNRESET) {
					s.mu.Lock()
					s.event(Event{Kind: "bad-request", Conn: c.id, Name: err.Error()})
					s.mu.Unlock()
				}
				return
			}
			select {
			case reqs <- r:
			case <-c.done:
				return
			}
		}
	}()
	for {
		select {
		case <-c.done:
			return
		case r := <-reqs:
			out, keep := c.handle(r)
			if out != nil {
				if _, err := rw.Write(out); err != nil {
					return
				}
			}
			if !keep {
				return
			}
		}
	}
}

// decode reads the records of a publication.
func decode(p *produce.Request) (protocol.Attributes, []Record, error) {
	var l []Record
	var attr protocol.Attributes
	for i := range p.Topics {
		for j := range p.Topics[i].Partitions {
			set := &p.Topics[i].Partitions[j].RecordSet
			attr = set.Attributes
			if set.Records == nil {
				continue
			}
			for {
				rec, err := set.Records.ReadRecord()
				if err != nil {
					if errors.Is(err, io.EOF) {
						break
					}
					return attr, l, err
				}
				var x Record
				if rec.Key != nil {
					if x.Key, err = protocol.ReadAll(rec.Key); err != nil {
						return attr, l, err
					}
					rec.Key.Close()
				}
				if rec.Value != nil {
					if x.Value, err = protocol.ReadAll(rec.Value); err != nil {
						return attr, l, err
					}
					if x.Value == nil {
						x.Value = []byte{}
					}
					rec.Value.Close()
				}
				for _, h := range rec.Headers {
					x.Headers = append(x.Headers, protocol.Header{Key: h.Key, Value: append([]byte(nil), h.Value...)})
				}
				l = append(l, x)
			}
		}
	}
	return attr, l, nil
}

func encode(r request, m protocol.Message) []byte {
	var b bytes.Buffer
	if err := protocol.WriteResponse(&b, r.version, r.id, m); err != nil {
		panic(fmt.Sprintf("kafkad: %T v%d: %v", m, r.version, err))
	}
	return b.Bytes()
}

var topicName = regexp.MustCompile(`^[a-zA-Z0-9._-]{1,249}$`)

// ValidTopic tells if it can be the name of a topic.
func ValidTopic(name string) bool { return topicName.MatchString(name) && name != "." && name != ".." }

// handle processes a request.
func (c *conn) handle(r request) (out []byte, keep bool) {
	s := c.s
	s.mu.Lock()
	defer s.mu.Unlock()
	key := r.msg.ApiKey()
	on := ""
	switch m := r.msg.(type) {
	case *produce.Request:
		if len(m.Topics) > 0 {
			on = m.Topics[0].Topic
		}
	case *fetch.Request:
		if len(m.Topics) > 0 {
			on = m.Topics[0].Topic
		}
	case *createtopics.Request:
		if len(m.Topics) > 0 {
			on = m.Topics[0].Name
		}
	case *listoffsets.Request:
		if len(m.Topics) > 0 {
			on = m.Topics[0].Topic
		}
	case *metadata.Request:
		if len(m.TopicNames) == 1 {
			on = m.TopicNames[0]
		}
	case *joingroup.Request:
		on = m.GroupID
	case *syncgroup.Request:
		on = m.GroupID
	case *heartbeat.Request:
		on = m.GroupID
	case *leavegroup.Request:
		on = m.GroupID
	case *offsetcommit.Request:
		on = m.GroupID
	case *offsetfetch.Request:
		on = m.GroupID
	case *findcoordinator.Request:
		on = m.Key
	}
	if s.User != "" && !c.authed {
		switch key {
		case protocol.ApiVersions, protocol.SaslHandshake, protocol.SaslAuthenticate:
		default:
			s.event(Event{Kind: "unauthenticated", Conn: c.id, Name: key.String()})
			return nil, false
		}
	}
	code := s.fault(c, key, on)
	switch code {
	case KillBefore:
		return nil, false
	case Garbage:
		w := &writer{}
		w.i32(8)
		w.i32(r.id)
		w.i32(1)
		return w.b, true
	case Silence:
		s.mu.Unlock()
		<-c.done
		s.mu.Lock()
		return nil, false
	}
	kill := code == KillAfter
	if kill {
		code = 0
	}
	var res protocol.Message
	switch m := r.msg.(type) {
	case *apiversions.Request:
		res = s.versions()
	case *saslhandshake.Request:
		c.mech = m.Mechanism
		x := &saslhandshake.Response{Mechanisms: []string{"PLAIN"}}
		if m.Mechanism != "PLAIN" || s.User == "" {
			x.ErrorCode = 33
		}
		res = x
	case *saslauthenticate.Request:
		x := &saslauthenticate.Response{AuthBytes: []byte{}}
		if c.mech == "PLAIN" && string(m.AuthBytes) == "\x00"+s.User+"\x00"+s.Pass {
			c.authed = true
		} else {
			x.ErrorCode, x.ErrorMessage = 58, "bad credentials"
			s.event(Event{Kind: "bad-auth", Conn: c.id})
		}
		res = x
	case *metadata.Request:
		res = s.metadata(m, code)
	case *createtopics.Request:
		res = s.createTopics(c, m, code)
	case *produce.Request:
		x := s.produce(c, m, r, code)
		if m.Acks == 0 { // No answer
			return nil, !kill
		}
		res = x
	case *listoffsets.Request:
		x := &listoffsets.Response{}
		for _, t := range m.Topics {
			y := listoffsets.ResponseTopic{Topic: t.Topic}
			for _, p := range t.Partitions {
				z := listoffsets.ResponsePartition{Partition: p.Partition, Timestamp: -1, ErrorCode: code}
				if q := s.part(t.Topic, p.Partition); q == nil {
					z.ErrorCode = 3
				} else if q.leader != c.node.id {
					z.ErrorCode = 6
				} else if p.Timestamp == -2 {
					z.Offset = q.start
				} else {
					z.Offset = q.next
				}
				y.Partitions = append(y.Partitions, z)
			}
			x.Topics = append(x.Topics, y)
		}
		res = x
	case *fetch.Request:
		out := s.fetch(c, m, r, code)
		return out, out != nil && !kill
	case *findcoordinator.Request:
		h := fnv.New32()
		h.Write([]byte(m.Key))
		n := s.nodes[int(h.Sum32()>>2)%len(s.nodes)]
		res = &findcoordinator.Response{ErrorCode: code, NodeID: int32(n.id), Host: n.addr.IP.String(), Port: int32(n.addr.Port)}
	case *joingroup.Request:
		res = s.join(c, m, code)
	case *syncgroup.Request:
		res = s.sync(c, m, code)
	case *heartbeat.Request:
		x := &heartbeat.Response{ErrorCode: code}
		if code == 0 {
			x.ErrorCode = s.group(m.GroupID).check(m.MemberID, m.GenerationID, false)
		}
		res = x
	case *leavegroup.Request:
		x := &leavegroup.Response{ErrorCode: code}
		if code == 0 {
			g := s.group(m.GroupID)
			if g.members[m.MemberID] == nil {
				x.ErrorCode = 25
			} else {
				s.leave(g, m.MemberID)
			}
		}
		s.event(Event{Kind: "leave", Conn: c.id, Group: m.GroupID, Member: m.MemberID, Code: x.ErrorCode})
		res = x
	case *offsetcommit.Request:
		res = s.commit(c, m, code)
	case *offsetfetch.Request:
		x := &offsetfetch.Response{}
		g := s.group(m.GroupID)
		for _, t := range m.Topics {
			y := offsetfetch.ResponseTopic{Name: t.Name}
			for _, p := range t.PartitionIndexes {
				o, ok := g.offsets[tp{t.Name, p}]
				if !ok {
					o = -1
				}
				y.Partitions = append(y.Partitions, offsetfetch.ResponsePartition{PartitionIndex: p, CommittedOffset: o, ErrorCode: code})
			}
			x.Topics = append(x.Topics, y)
		}
		res = x
	default:
		s.event(Event{Kind: "bad-request", Conn: c.id, Name: key.String()})
		return nil, false
	}
	select {
	case <-c.done:
		return nil, false
	default:
	}
	if kill {
		return nil, false
	}
	return encode(r, res), true
}

func (s *Server) versions() protocol.Message {
	x := &apiversions.Response{}
	add := func(k protocol.ApiKey, max int16) {
		x.ApiKeys = append(x.ApiKeys, apiversions.ApiKeyResponse{ApiKey: int16(k), MaxVersion: max})
	}
	f, m := int16(11), int16(8)
	if s.FetchV5 {
		f = 9
	}
	if s.OldMeta {
		m = 5
	}
	add(protocol.Produce, 8)
	add(protocol.Fetch, f)
	add(protocol.ListOffsets, 5)
	add(protocol.Metadata, m)
	add(protocol.OffsetCommit, 7)
	add(protocol.OffsetFetch, 5)
	add(protocol.FindCoordinator, 2)
	add(protocol.JoinGroup, 5)
	add(protocol.Heartbeat, 3)
	add(protocol.LeaveGroup, 2)
	add(protocol.SyncGroup, 3)
	add(protocol.SaslHandshake, 1)
	add(protocol.ApiVersions, 2)
	add(protocol.CreateTopics, 5)
	add(protocol.SaslAuthenticate, 1)
	return x
}

func (s *Server) part(name string, p int32) *part {
	t := s.topics[name]
	if t == nil || t.hidden > 0 || p < 0 || int(p) >= len(t.parts) {
		return nil
	}
	return t.parts[p]
}

func (s *Server) metadata(m *metadata.Request, code int16) protocol.Message {
	x := &metadata.Response{ControllerID: int32(s.ctrl), ClusterID: "fake"}
	for _, n := range s.nodes {
		if !n.down {
			x.Brokers = append(x.Brokers, metadata.ResponseBroker{NodeID: int32(n.id), Host: n.addr.IP.String(), Port: int32(n.addr.Port)})
		}
	}
	one := func(name string, all bool) {
		t := s.topics[name]
		y := metadata.ResponseTopic{Name: name}
		if t != nil && t.hidden > 0 {
			t.hidden--
			t = nil
		}
		switch {
		case t == nil && all:
			return
		case t == nil:
			y.ErrorCode = 3
			if _, exists := s.topics[name]; !exists && m.AllowAutoTopicCreation && s.AutoCreate && ValidTopic(name) {
				s.create(name, 1)
				y.ErrorCode = 5
			}
		case t.err != 0:
			y.ErrorCode = t.err
		default:
			for i, q := range t.parts {
				l := []int32{int32(q.leader)}
				z := metadata.ResponsePartition{PartitionIndex: int32(i), LeaderID: l[0], ReplicaNodes: l, IsrNodes: l}
				if s.nodes[q.leader].down {
					z.ErrorCode, z.LeaderID = 5, -1
				}
				y.Partitions = append(y.Partitions, z)
			}
		}
		if code != 0 {
			y.ErrorCode, y.Partitions = code, nil
		}
		x.Topics = append(x.Topics, y)
	}
	if m.TopicNames == nil {
		for name := range s.topics {
			one(name, true)
		}
	} else {
		for _, name := range m.TopicNames {
			one(name, false)
		}
	}
	return x
}

func (s *Server) createTopics(c *conn, m *createtopics.Request, code int16) protocol.Message {
	x := &createtopics.Response{}
	for _, t := range m.Topics {
		y := createtopics.ResponseTopic{Name: t.Name, ErrorCode: code}
		if code == 0 {
			switch {
			case s.Controller && c.node.id != s.ctrl:
				y.ErrorCode = 41
			case s.topics[t.Name] != nil:
				y.ErrorCode = 36
			case !ValidTopic(t.Name):
				y.ErrorCode = 17
			case t.NumPartitions < 1:
				y.ErrorCode = 37
			case t.ReplicationFactor < 1 || int(t.ReplicationFactor) > s.Nodes:
				y.ErrorCode = 38
			default:
				n := s.create(t.Name, int(t.NumPartitions))
				n.user, n.config, n.hidden = true, t, s.topicHidden()
			}
		}
		s.event(Event{Kind: "create", Conn: c.id, Node: c.node.id, Topic: t.Name, Partition: t.NumPartitions, Code: y.ErrorCode})
		x.Topics = append(x.Topics, y)
	}
	return x
}

func (s *Server) produce(c *conn, m *produce.Request, r request, code int16) *produce.Response {
	x := &produce.Response{}
	for _, t := range m.Topics {
		y := produce.ResponseTopic{Topic: t.Topic}
		for _, p := range t.Partitions {
			z := produce.ResponsePartition{Partition: p.Partition, ErrorCode: code, BaseOffset: -1, LogAppendTime: -1}
			if code == 0 {
				switch q := s.part(t.Topic, p.Partition); {
				case r.err != nil || len(m.Topics) != 1 || len(t.Partitions) != 1:
					z.ErrorCode = 2
					s.event(Event{Kind: "bad-request", Conn: c.id, Name: fmt.Sprint("produce ", r.err)})
				case q == nil:
					z.ErrorCode = 3
				case q.leader != c.node.id:
					z.ErrorCode = 6
				default:
					z.BaseOffset = q.next
					if err := s.append(q, r.attr&7, c.id, r.records); err != nil {
						z.ErrorCode = -1
						s.event(Event{Kind: "bad-request", Conn: c.id, Name: fmt.Sprint("produce ", err)})
					}
				}
			}
			s.event(Event{Kind: "produce", Conn: c.id, Node: c.node.id, Topic: t.Topic, Partition: p.Partition, Offset: z.BaseOffset, Max: int32(m.Acks), Code: z.ErrorCode})
			y.Partitions = append(y.Partitions, z)
		}
		x.Topics = append(x.Topics, y)
	}
	return x
}

type writer struct{ b []byte }

func (w *writer) i16(v int16)  { w.b = binary.BigEndian.AppendUint16(w.b, uint16(v)) }
func (w *writer) i32(v int32)  { w.b = binary.BigEndian.AppendUint32(w.b, uint32(v)) }
func (w *writer) i64(v int64)  { w.b = binary.BigEndian.AppendUint64(w.b, uint64(v)) }
func (w *writer) str(s string) { w.i16(int16(len(s))); w.b = append(w.b, s...) }

// fetch answers a fetch request, when there is something or after some time.
func (s *Server) fetch(c *conn, m *fetch.Request, r request, code int16) []byte {
	if len(m.Topics) != 1 || len(m.Topics[0].Partitions) != 1 {
		s.event(Event{Kind: "bad-request", Conn: c.id, Name: "fetch"})
		return nil
	}
	t := m.Topics[0]
	p := t.Partitions[0]
	s.event(Event{Kind: "fetch", Conn: c.id, Node: c.node.id, Topic: t.Topic, Partition: p.Partition, Offset: p.FetchOffset, Max: p.PartitionMaxBytes, Code: code})
	wait := time.Duration(m.MaxWaitTime) * time.Millisecond
	if s.FetchWait > 0 && wait > s.FetchWait {
		wait = s.FetchWait
	}
	timer := time.NewTimer(wait)
	defer timer.Stop()
	var q *part
	var set []byte
	for late := false; code == 0; {
		q = s.part(t.Topic, p.Partition)
		switch {
		case q == nil:
			code = 3
		case q.leader != c.node.id:
			code = 6
		case p.FetchOffset < q.start || p.FetchOffset > q.next:
			code = 1
		}
		if code != 0 {
			break
		}
		set = s.read(q, p.FetchOffset, int(p.PartitionMaxBytes))
		if set != nil || late {
			break
		}
		ch := q.changed
		s.mu.Unlock()
		select {
		case <-ch:
		case <-timer.C:
			late = true
		case <-c.done:
		}
		s.mu.Lock()
		select {
		case <-c.done:
			return nil
		default:
		}
	}
	hw, start := int64(-1), int64(-1)
	if q != nil {
		hw, start = q.next, q.start
	}
	if set == nil && code == 0 {
		hw = p.FetchOffset // What comes at once will be in the next answer
	}
	w := &writer{}
	w.i32(0) // Size
	w.i32(r.id)
	w.i32(0) // Throttle
	if r.version >= 7 {
		w.i16(0)
		w.i32(0)
	}
	w.i32(1)
	w.str(t.Topic)
	w.i32(1)
	w.i32(p.Partition)
	w.i16(code)
	w.i64(hw)
	w.i64(hw)
	if r.version >= 5 {
		w.i64(start)
	}
	w.i32(0) // Aborted transactions
	w.i32(int32(len(set)))
	w.b = append(w.b, set...)
	binary.BigEndian.PutUint32(w.b, uint32(len(w.b)-4))
	return w.b
}

// read gives the batches from an offset.
func (s *Server) read(q *part, offset int64, max int) []byte {
	var set []byte
	n := 0
	for _, b := range q.batches {
		if b.last < offset {
			continue
		}
		if len(set) > 0 && (len(set)+len(b.raw) > max || s.BatchMax > 0 && n >= s.BatchMax) {
			if s.Truncate && n > 0 && max-len(set) > 0 && s.rng.Intn(2) == 0 {
				// The end of an answer can be cut anywhere
				k := s.rng.Intn(len(b.raw))
				if k > max-len(set) {
					k = max - len(set)
				}
				set = append(set, b.raw[:k]...)
			}
			break
		}
		set = append(set, b.raw...)
		n++
	}
	return set
}
