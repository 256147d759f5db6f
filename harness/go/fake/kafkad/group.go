package kafkad

import (
	"fmt"
	"time"

	"github.com/segmentio/kafka-go/protocol"
	"github.com/segmentio/kafka-go/protocol/joingroup"
	"github.com/segmentio/kafka-go/protocol/offsetcommit"
	"github.com/segmentio/kafka-go/protocol/syncgroup"
)

type tp struct {
	topic string
	p     int32
}

type state int

const (
	empty state = iota
	preparing
	completing
	stable
)

type member struct {
	id     string
	protos []joingroup.RequestProtocol
	join   chan struct{} // Waits for the end of the preparation
	joined bool
}

type group struct {
	state   state
	gen     int32
	n       int
	members map[string]*member
	order   []string
	leader  string
	proto   string
	assign  map[string][]byte
	changed chan struct{} // Closed at each change of state
	offsets map[tp]int64
}

func (s *Server) group(name string) *group {
	g := s.groups[name]
	if g == nil {
		g = &group{members: map[string]*member{}, offsets: map[tp]int64{}, changed: make(chan struct{})}
		s.groups[name] = g
	}
	return g
}

func (g *group) set(st state) {
	g.state = st
	close(g.changed)
	g.changed = make(chan struct{})
}

// check checks the member and the generation of a request.
func (g *group) check(id string, gen int32, commit bool) int16 {
	switch {
	case g.members[id] == nil:
		return 25
	case gen != g.gen:
		return 22
	case g.state == preparing && !commit, g.state == completing:
		return 27
	}
	return 0
}

func (s *Server) prepare(name string, g *group) {
	if g.state == preparing {
		return
	}
	g.set(preparing)
	for _, m := range g.members {
		m.joined = false
	}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		start := time.Now()
		for {
			time.Sleep(10 * time.Millisecond)
			s.mu.Lock()
			if s.down {
				g.set(empty)
				s.mu.Unlock()
				return
			}
			all := true
			for _, m := range g.members {
				all = all && m.joined
			}
			d := time.Since(start)
			if all && d > s.JoinWait || d > s.Rebalance {
				s.complete(name, g)
				s.mu.Unlock()
				return
			}
			s.mu.Unlock()
		}
	}()
}

func (s *Server) complete(name string, g *group) {
	var order []string
	for _, id := range g.order {
		if m := g.members[id]; m != nil {
			if !m.joined {
				s.event(Event{Kind: "expired", Group: name, Member: id})
				delete(g.members, id)
				continue
			}
			order = append(order, id)
		}
	}
	g.order = order
	g.gen++
	if len(order) == 0 {
		g.set(empty)
		return
	}
	g.leader = order[0]
	g.proto = g.members[g.leader].protos[0].Name
	g.assign = nil
	s.event(Event{Kind: "generation", Group: name, Offset: int64(g.gen), Max: int32(len(order))})
	g.set(completing)
}

func (s *Server) leave(g *group, id string) {
	delete(g.members, id)
	if len(g.members) == 0 && g.state != preparing {
		g.gen++
		g.set(empty)
		return
	}
	for name, x := range s.groups {
		if x == g {
			s.prepare(name, g)
		}
	}
}

func (s *Server) join(c *conn, m *joingroup.Request, code int16) protocol.Message {
	x := &joingroup.Response{MemberID: m.MemberID, ErrorCode: code}
	if code != 0 {
		return x
	}
	g := s.group(m.GroupID)
	if m.MemberID == "" {
		g.n++
		m.MemberID = fmt.Sprintf("%s-%d", m.GroupID, g.n)
		g.members[m.MemberID] = &member{id: m.MemberID}
		g.order = append(g.order, m.MemberID)
	}
	me := g.members[m.MemberID]
	if me == nil {
		x.ErrorCode = 25
		return x
	}
	s.event(Event{Kind: "join", Conn: c.id, Group: m.GroupID, Member: me.id})
	me.protos = m.Protocols
	s.prepare(m.GroupID, g)
	me.joined = true
	for g.state == preparing {
		ch := g.changed
		s.mu.Unlock()
		dead := false
		select {
		case <-ch:
		case <-c.done:
			dead = true
		}
		s.mu.Lock()
		if dead {
			if g.members[me.id] == me {
				delete(g.members, me.id)
			}
			return x
		}
	}
	if g.members[me.id] != me || g.state == empty {
		x.ErrorCode = 25
		return x
	}
	x.MemberID, x.LeaderID, x.GenerationID, x.ProtocolName = me.id, g.leader, g.gen, g.proto
	if me.id == g.leader {
		for _, id := range g.order {
			for _, p := range g.members[id].protos {
				if p.Name == g.proto {
					x.Members = append(x.Members, joingroup.ResponseMember{MemberID: id, Metadata: p.Metadata})
				}
			}
		}
	}
	return x
}

func (s *Server) sync(c *conn, m *syncgroup.Request, code int16) protocol.Message {
	x := &syncgroup.Response{ErrorCode: code, Assignments: []byte{}}
	if code != 0 {
		return x
	}
	g := s.group(m.GroupID)
	if g.state != stable || g.gen != m.GenerationID {
		switch {
		case g.members[m.MemberID] == nil:
			x.ErrorCode = 25
		case g.gen != m.GenerationID:
			x.ErrorCode = 22
		case g.state == preparing:
			x.ErrorCode = 27
		}
		if x.ErrorCode != 0 {
			return x
		}
	}
	if m.MemberID == g.leader && g.state == completing {
		g.assign = map[string][]byte{}
		for _, a := range m.Assignments {
			g.assign[a.MemberID] = a.Assignment
		}
		g.set(stable)
	}
	for g.state == completing && g.gen == m.GenerationID {
		ch := g.changed
		s.mu.Unlock()
		select {
		case <-ch:
		case <-c.done:
		}
		s.mu.Lock()
		select {
		case <-c.done:
			return x
		default:
		}
	}
	if g.state != stable || g.gen != m.GenerationID || g.members[m.MemberID] == nil {
		x.ErrorCode = 27
		return x
	}
	if a, ok := g.assign[m.MemberID]; ok {
		x.Assignments = a
	}
	s.event(Event{Kind: "sync", Conn: c.id, Group: m.GroupID, Member: m.MemberID, Offset: int64(g.gen)})
	return x
}

func (s *Server) commit(c *conn, m *offsetcommit.Request, code int16) protocol.Message {
	x := &offsetcommit.Response{}
	g := s.group(m.GroupID)
	if code == 0 {
		code = g.check(m.MemberID, m.GenerationID, true)
	}
	for _, t := range m.Topics {
		y := offsetcommit.ResponseTopic{Name: t.Name}
		for _, p := range t.Partitions {
			if code == 0 {
				g.offsets[tp{t.Name, p.PartitionIndex}] = p.CommittedOffset
			}
			s.event(Event{Kind: "commit", Conn: c.id, Group: m.GroupID, Member: m.MemberID, Topic: t.Name, Partition: p.PartitionIndex, Offset: p.CommittedOffset, Code: code})
			y.Partitions = append(y.Partitions, offsetcommit.ResponsePartition{PartitionIndex: p.PartitionIndex, ErrorCode: code})
		}
		x.Topics = append(x.Topics, y)
	}
	return x
}
