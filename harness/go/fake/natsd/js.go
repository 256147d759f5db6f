package natsd

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/mon"
)

// JSEvent is something that happened on JetStream.
type JSEvent struct {
	At       int64
	Kind     string // create, update, consumer, info, pull, store, send, ack, late
	Conn     int
	Stream   string
	Consumer string
	Seq      int // In the stream
	Count    int // Of deliveries
	Subject  string
	Header   map[string][]string
	Payload  []byte // Of the message, of the request, or of the acknowledgement
	Err      string
}

type js struct {
	s       *Server
	streams map[string]*stream
	events  []JSEvent
	fail    map[string]string // Prefix of the API subjects that fail -> error
	inboxes map[string]bool
}

type stored struct {
	seq int
	m   Msg
}

type stream struct {
	name      string
	subjects  []string
	config    json.RawMessage
	msgs      []stored
	consumers map[string]*consumer
}

type consumer struct {
	st      *stream
	name    string
	config  json.RawMessage
	filters []string
	ackWait time.Duration
	next    int
	again   []int // To deliver again
	cseq    int
	counts  map[int]int // Deliveries of each message
	pending map[int]bool
	waiting []*pull
}

type pull struct {
	reply string
	batch int
	conn  *conn
	over  bool
}

// EnableJetStream makes the server store messages.
func (s *Server) EnableJetStream() {
	s.js = &js{s: s, streams: map[string]*stream{}, fail: map[string]string{}, inboxes: map[string]bool{}}
}

// JSEvents gives what happened up to now.
func (s *Server) JSEvents() []JSEvent {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]JSEvent(nil), s.js.events...)
}

// Fail makes the requests on an API fail; all the publications with "PUB".
func (s *Server) Fail(api, why string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if why == "" {
		delete(s.js.fail, api)
		return
	}
	s.js.fail[api] = why
}

// AddStream creates a stream on the server.
func (s *Server) AddStream(name string, subjects ...string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	cfg, _ := json.Marshal(map[string]any{"name": name, "subjects": subjects})
	s.js.streams[name] = &stream{name: name, subjects: subjects, config: cfg, consumers: map[string]*consumer{}}
}

// AddConsumer creates a consumer on the server.
func (s *Server) AddConsumer(st, name string, filters ...string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	cfg, _ := json.Marshal(map[string]any{"name": name, "filter_subjects": filters})
	s.js.streams[st].add(name, cfg)
}

// Config gives the configuration of a stream, and of its consumer.
func (s *Server) Config(st, cons string) (string, string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	x := s.js.streams[st]
	if x == nil {
		return "", ""
	}
	if c := x.consumers[cons]; c != nil {
		return string(x.config), string(c.config)
	}
	return string(x.config), ""
}

// Pending gives the messages of a consumer that are sent and not settled, and
// the ones that remain to send.
func (s *Server) Pending(st, cons string) (sent []int, left int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	c := s.js.streams[st].consumers[cons]
	for q := range c.pending {
		sent = append(sent, q)
	}
	sort.Ints(sent)
	for i := c.next; i < len(c.st.msgs); i++ {
		if c.wants(c.st.msgs[i].m.Subject) {
			left++
		}
	}
	return sent, left + len(c.again)
}

// Expire makes a message of a consumer be delivered again, as when it has not
// been settled for too long.
func (s *Server) Expire(st, cons string, seq int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	c := s.js.streams[st].consumers[cons]
	if c.pending[seq] {
		s.js.again(c, seq)
	}
}

// Inboxes counts the pull inboxes of a connection that are subscribed.
func (s *Server) Inboxes(conn int) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for _, x := range s.subs {
		if x.conn.id == conn && s.js.inboxes[x.subject] {
			n++
		}
	}
	return n
}

func (st *stream) add(name string, cfg json.RawMessage) *consumer {
	var o struct {
		Filter  string        `json:"filter_subject"`
		Filters []string      `json:"filter_subjects"`
		AckWait time.Duration `json:"ack_wait"`
		Deliver string        `json:"deliver_policy"`
	}
	_ = json.Unmarshal(cfg, &o)
	c := st.consumers[name]
	if c == nil {
		c = &consumer{st: st, name: name, counts: map[int]int{}, pending: map[int]bool{}}
		if o.Deliver == "new" {
			c.next = len(st.msgs)
		}
	}
	c.config, c.filters, c.ackWait = cfg, o.Filters, o.AckWait
	if o.Filter != "" {
		c.filters = []string{o.Filter}
	}
	if c.ackWait == 0 {
		c.ackWait = 30 * time.Second
	}
	st.consumers[name] = c
	return c
}

func (c *consumer) wants(subject string) bool {
	if len(c.filters) == 0 {
		return true
	}
	for _, f := range c.filters {
		if Match(f, subject) {
			return true
		}
	}
	return false
}

func (j *js) record(e JSEvent) {
	e.At = mon.Tick()
	j.events = append(j.events, e)
}

func apiError(code, errCode int, text string) map[string]any {
	return map[string]any{"error": map[string]any{"code": code, "err_code": errCode, "description": text}}
}

// handle handles what clients publish for JetStream; s.mu is held.
func (j *js) handle(c *conn, m Msg) bool {
	if c == nil {
		return false
	}
	if api, ok := strings.CutPrefix(m.Subject, "$JS.API."); ok {
		j.api(c, api, m)
		return true
	}
	if strings.HasPrefix(m.Subject, "$JS.ACK.") {
		j.ack(c, m)
		return true
	}
	for _, st := range j.streams {
		for _, p := range st.subjects {
			if Match(p, m.Subject) {
				j.store(c, st, m)
				return true
			}
		}
	}
	return false
}

func (j *js) reply(to string, v map[string]any) {
	if to == "" {
		return
	}
	b, _ := json.Marshal(v)
	j.s.publish(nil, Msg{Subject: to, Payload: b})
}

func (j *js) store(c *conn, st *stream, m Msg) {
	if why := j.fail["PUB"]; why != "" {
		j.record(JSEvent{Kind: "store", Conn: c.id, Stream: st.name, Subject: m.Subject, Header: m.Header, Payload: m.Payload, Err: why})
		if why == "silence" {
			return
		}
		j.reply(m.Reply, apiError(503, 10077, why))
		return
	}
	seq := len(st.msgs) + 1
	st.msgs = append(st.msgs, stored{seq, m})
	j.record(JSEvent{Kind: "store", Conn: c.id, Stream: st.name, Seq: seq, Subject: m.Subject, Header: m.Header, Payload: m.Payload})
	j.reply(m.Reply, map[string]any{"stream": st.name, "seq": seq})
	for _, x := range st.consumers {
		j.dispatch(x)
	}
}

func (j *js) streamInfo(st *stream) map[string]any {
	return map[string]any{"config": st.config, "created": "2024-01-01T00:00:00Z", "state": map[string]any{"messages": len(st.msgs), "bytes": 0, "first_seq": 1,
		"first_ts": "2024-01-01T00:00:00Z", "last_seq": len(st.msgs), "last_ts": "2024-01-01T00:00:00Z", "consumer_count": len(st.consumers)}}
}

func (j *js) consumerInfo(c *consumer) map[string]any {
	return map[string]any{"stream_name": c.st.name, "name": c.name, "created": "2024-01-01T00:00:00Z", "config": c.config,
		"delivered": map[string]any{"consumer_seq": c.cseq, "stream_seq": c.next}, "ack_floor": map[string]any{"consumer_seq": 0, "stream_seq": 0},
		"num_ack_pending": len(c.pending), "num_redelivered": 0, "num_waiting": len(c.waiting), "num_pending": 0}
}

func (j *js) api(c *conn, api string, m Msg) {
	f := strings.Split(api, ".")
	for p, why := range j.fail {
		if strings.HasPrefix(api, p) {
			if why == "silence" {
				return
			}
			j.reply(m.Reply, apiError(500, 10001, why))
			return
		}
	}
	at := func(i int) string {
		if i < len(f) {
			return f[i]
		}
		return ""
	}
	st := j.streams[at(2)]
	switch at(0) + "." + at(1) {
	case "STREAM.CREATE", "STREAM.UPDATE":
		update := at(1) == "UPDATE"
		kind := map[bool]string{false: "create", true: "update"}[update]
		ev := JSEvent{Kind: kind, Conn: c.id, Stream: at(2), Payload: m.Payload}
		var o struct {
			Name     string
			Subjects []string
		}
		err := json.Unmarshal(m.Payload, &o)
		switch {
		case err != nil || o.Name != at(2):
			ev.Err = "bad request"
			j.reply(m.Reply, apiError(400, 10025, "invalid JSON"))
		case update && st == nil:
			ev.Err = "not found"
			j.reply(m.Reply, apiError(404, 10059, "stream not found"))
		case !update && st != nil && string(st.config) != string(m.Payload):
			ev.Err = "in use"
			j.reply(m.Reply, apiError(400, 10058, "stream name already in use with a different configuration"))
		default:
			if st == nil {
				st = &stream{name: o.Name, consumers: map[string]*consumer{}}
				j.streams[o.Name] = st
			}
			st.config, st.subjects = append(json.RawMessage(nil), m.Payload...), o.Subjects
			if len(o.Subjects) == 0 {
				st.subjects = []string{o.Name}
			}
			j.reply(m.Reply, j.streamInfo(st))
		}
		j.record(ev)
		return
	case "STREAM.INFO":
		if st == nil {
			j.reply(m.Reply, apiError(404, 10059, "stream not found"))
			return
		}
		j.reply(m.Reply, j.streamInfo(st))
		return
	}
	if at(0) != "CONSUMER" {
		j.reply(m.Reply, apiError(400, 10001, "unsupported"))
		return
	}
	i, verb := 2, at(1)
	if verb == "MSG" {
		i, verb = 3, "NEXT"
	}
	st = j.streams[at(i)]
	var cons *consumer
	if st != nil {
		cons = st.consumers[at(i+1)]
	}
	switch {
	case st == nil:
		if verb == "CREATE" {
			j.record(JSEvent{Kind: "consumer", Conn: c.id, Stream: at(i), Consumer: at(i + 1), Payload: m.Payload, Err: "no stream"})
		}
		j.reply(m.Reply, apiError(404, 10059, "stream not found"))
	case verb == "CREATE":
		var o struct {
			Stream string          `json:"stream_name"`
			Config json.RawMessage `json:"config"`
			Action string          `json:"action"`
		}
		ev := JSEvent{Kind: "consumer", Conn: c.id, Stream: at(2), Consumer: at(3)}
		if err := json.Unmarshal(m.Payload, &o); err != nil || o.Stream != at(2) {
			ev.Err = "bad request"
			j.reply(m.Reply, apiError(400, 10025, "invalid JSON"))
		} else if o.Action == "create" && cons != nil && string(cons.config) != string(o.Config) {
			ev.Err = "exists"
			j.reply(m.Reply, apiError(400, 10148, "consumer already exists"))
		} else if o.Action == "update" && cons == nil {
			ev.Err = "not found"
			j.reply(m.Reply, apiError(400, 10149, "consumer does not exist"))
		} else {
			ev.Payload = o.Config
			j.reply(m.Reply, j.consumerInfo(st.add(at(3), append(json.RawMessage(nil), o.Config...))))
		}
		j.record(ev)
	case cons == nil:
		j.reply(m.Reply, apiError(404, 10014, "consumer not found"))
	case verb == "INFO":
		j.record(JSEvent{Kind: "info", Conn: c.id, Stream: at(2), Consumer: at(3)})
		j.reply(m.Reply, j.consumerInfo(cons))
	case verb == "NEXT":
		j.pull(c, cons, m)
	default:
		j.reply(m.Reply, apiError(400, 10001, "unsupported"))
	}
}

func (j *js) pull(c *conn, cons *consumer, m Msg) {
	var o struct {
		Expires   time.Duration `json:"expires"`
		Batch     int           `json:"batch"`
		NoWait    bool          `json:"no_wait"`
		Heartbeat time.Duration `json:"idle_heartbeat"`
	}
	if n, err := strconv.Atoi(strings.TrimSpace(string(m.Payload))); err == nil {
		o.Batch = n
	} else {
		_ = json.Unmarshal(m.Payload, &o)
	}
	if o.Batch == 0 {
		o.Batch = 1
	}
	j.record(JSEvent{Kind: "pull", Conn: c.id, Stream: cons.st.name, Consumer: cons.name, Count: o.Batch})
	j.inboxes[m.Reply] = true
	p := &pull{reply: m.Reply, batch: o.Batch, conn: c}
	cons.waiting = append(cons.waiting, p)
	if o.Expires > 0 {
		time.AfterFunc(o.Expires, func() {
			j.s.mu.Lock()
			defer j.s.mu.Unlock()
			if !p.over {
				p.over = true
				j.s.publish(nil, Msg{Subject: p.reply, Raw: []byte(fmt.Sprintf(
					"NATS/1.0 408 Request Timeout\r\nNats-Pending-Messages: %d\r\nNats-Pending-Bytes: 0\r\n\r\n", p.batch))})
			}
		})
	}
	if o.Heartbeat > 0 {
		var beat func()
		beat = func() {
			j.s.mu.Lock()
			defer j.s.mu.Unlock()
			if !p.over {
				j.s.publish(nil, Msg{Subject: p.reply, Raw: []byte("NATS/1.0 100 Idle Heartbeat\r\n\r\n")})
				time.AfterFunc(o.Heartbeat, beat)
			}
		}
		time.AfterFunc(o.Heartbeat, beat)
	}
	j.dispatch(cons)
}

// dispatch sends what can be sent to a consumer.
func (j *js) dispatch(c *consumer) {
	for {
		// Who wants something
		var p *pull
		var to *sub
		for len(c.waiting) > 0 && p == nil {
			x := c.waiting[0]
			for _, y := range j.s.subs {
				if !x.over && y.conn == x.conn && Match(y.subject, x.reply) {
					p, to = x, y
					break
				}
			}
			if p == nil { // Nobody is interested any more
				x.over = true
				c.waiting = c.waiting[1:]
			}
		}
		if p == nil {
			return
		}
		// What
		seq := 0
		if len(c.again) > 0 {
			seq = c.again[0]
			c.again = c.again[1:]
		} else {
			for ; c.next < len(c.st.msgs) && seq == 0; c.next++ {
				if c.wants(c.st.msgs[c.next].m.Subject) {
					seq = c.st.msgs[c.next].seq
				}
			}
		}
		if seq == 0 {
			return
		}
		m := c.st.msgs[seq-1].m
		c.cseq++
		c.counts[seq]++
		count := c.counts[seq]
		c.pending[seq] = true
		j.record(JSEvent{Kind: "send", Conn: p.conn.id, Stream: c.st.name, Consumer: c.name, Seq: seq, Count: count, Subject: m.Subject, Header: m.Header, Payload: m.Payload})
		p.batch--
		if p.batch == 0 {
			p.over = true
			c.waiting = c.waiting[1:]
		}
		m.Reply = fmt.Sprintf("$JS.ACK.%s.%s.%d.%d.%d.%d.0", c.st.name, c.name, count, seq, c.cseq, time.Now().UnixNano())
		j.s.deliver(to, m)
		time.AfterFunc(c.ackWait, func() {
			j.s.mu.Lock()
			defer j.s.mu.Unlock()
			if c.pending[seq] && c.counts[seq] == count {
				j.again(c, seq)
			}
		})
	}
}

func (j *js) again(c *consumer, seq int) {
	delete(c.pending, seq)
	c.again = append(c.again, seq)
	j.dispatch(c)
}

func (j *js) ack(cn *conn, m Msg) {
	f := strings.Split(m.Subject, ".")
	ev := JSEvent{Kind: "ack", Conn: cn.id, Payload: m.Payload, Subject: m.Subject}
	defer func() { j.record(ev) }()
	if len(f) != 9 || j.streams[f[2]] == nil || j.streams[f[2]].consumers[f[3]] == nil {
		ev.Err = "bad acknowledgement"
		return
	}
	c := j.streams[f[2]].consumers[f[3]]
	count, _ := strconv.Atoi(f[4])
	seq, _ := strconv.Atoi(f[5])
	ev.Stream, ev.Consumer, ev.Seq, ev.Count = f[2], f[3], seq, count
	if !c.pending[seq] || c.counts[seq] != count {
		ev.Err = "not pending"
		return
	}
	verb, arg, _ := strings.Cut(string(m.Payload), " ")
	switch verb {
	case "+ACK", "", "+TERM":
		delete(c.pending, seq)
	case "-NAK":
		var o struct{ Delay time.Duration }
		_ = json.Unmarshal([]byte(arg), &o)
		if o.Delay == 0 {
			j.again(c, seq)
			return
		}
		time.AfterFunc(o.Delay, func() {
			j.s.mu.Lock()
			defer j.s.mu.Unlock()
			if c.pending[seq] && c.counts[seq] == count {
				j.again(c, seq)
			}
		})
	case "+WPI":
	default:
		ev.Err = "unknown acknowledgement"
	}
}

// gone forgets a connection; s.mu is held.
func (j *js) gone(c *conn) {
	for _, st := range j.streams {
		for _, x := range st.consumers {
			var left []*pull
			for _, p := range x.waiting {
				if p.conn == c {
					p.over = true
				} else {
					left = append(left, p)
				}
			}
			x.waiting = left
		}
	}
}
