// Package natsd is a NATS server that records all what its clients do: the
// protocol level oracle of the monitors of the NATS and JetStream controllers.
package natsd

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/mon"

	"verif/fake/loop"
)

// MaxPayload is the maximum size of the messages.
const MaxPayload = 1 << 16

// Event is something that happened on the server.
type Event struct {
	At      int64
	Kind    string // connect, sub, unsub, pub, bad, close
	Conn    int
	Sid     string
	Subject string
	Queue   string
	Reply   string
	Header  map[string][]string
	Payload []byte
	To      []Target // Of the publications
	Text    string
}

// Target is a subscription that a publication has been sent to.
type Target struct {
	Conn int
	Sid  string
}

type sub struct {
	conn           *conn
	sid            string
	subject, queue string
	max, sent      int
}

type conn struct {
	id     int
	net    net.Conn
	mu     sync.Mutex
	cond   *sync.Cond
	out    []byte
	closed bool
	subs   map[string]*sub
	noEcho bool
}

// Server is the server.
type Server struct {
	ln   net.Listener
	addr string

	mu     sync.Mutex
	rng    *rand.Rand
	conns  map[int]*conn
	nconns int
	subs   []*sub
	events []Event
	// Refuse makes the server refuse the connections with this error.
	refuse string
	// Mute makes the server never answer to pings.
	mute bool
	js   *js
	chop bool
	done bool
	wg   sync.WaitGroup
}

// New starts a server.
func New(rng *rand.Rand) (*Server, error) {
	s := &Server{rng: rng, conns: map[int]*conn{}, chop: rng.Intn(3) == 0}
	return s, s.Listen(loop.Any())
}

// Listen makes the server accept connections.
func (s *Server) Listen(addr string) error {
	var ln net.Listener
	var err error
	for i := 0; i < 100; i++ {
		if ln, err = net.Listen("tcp", addr); err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		return err
	}
	s.mu.Lock()
	s.ln, s.addr = ln, ln.Addr().String()
	s.mu.Unlock()
	s.wg.Add(1)
	go s.accept(ln)
	return nil
}

// URL gives the address of the server for the clients.
func (s *Server) URL() string { return "nats://" + s.addr }

// Addr gives the address of the server.
func (s *Server) Addr() string { return s.addr }

// Refuse makes the server refuse the next connections.
func (s *Server) Refuse(why string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.refuse = why
}

// Stop stops listening and breaks all the connections.
func (s *Server) Stop() {
	s.mu.Lock()
	ln := s.ln
	s.ln = nil
	var cs []*conn
	for _, c := range s.conns {
		cs = append(cs, c)
	}
	s.mu.Unlock()
	if ln != nil {
		ln.Close()
	}
	for _, c := range cs {
		c.close()
	}
	s.wg.Wait()
}

// Kill breaks a connection.
func (s *Server) Kill(id int) {
	s.mu.Lock()
	c := s.conns[id]
	s.mu.Unlock()
	if c != nil {
		c.close()
	}
}

// Events gives what happened up to now.
func (s *Server) Events() []Event {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Event(nil), s.events...)
}

// Connections counts the open connections.
func (s *Server) Connections() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.conns)
}

// LastConn gives the identifier of the last connection.
func (s *Server) LastConn() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.nconns
}

func (s *Server) record(e Event) {
	e.At = mon.Tick()
	s.events = append(s.events, e)
}

func (s *Server) accept(ln net.Listener) {
	defer s.wg.Done()
	for {
		nc, err := ln.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		s.nconns++
		c := &conn{id: s.nconns, net: nc, subs: map[string]*sub{}}
		c.cond = sync.NewCond(&c.mu)
		refuse := s.refuse
		s.conns[c.id] = c
		s.wg.Add(2)
		seed := s.rng.Int63()
		chop := s.chop
		s.mu.Unlock()
		go s.writer(c, rand.New(rand.NewSource(seed)), chop)
		go s.reader(c, refuse)
	}
}

func (c *conn) close() {
	c.mu.Lock()
	c.closed = true
	c.cond.Broadcast()
	c.mu.Unlock()
	c.net.Close()
}

func (c *conn) write(b []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.out = append(c.out, b...)
	c.cond.Signal()
}

func (s *Server) writer(c *conn, rng *rand.Rand, chop bool) {
	defer s.wg.Done()
	for {
		c.mu.Lock()
		for len(c.out) == 0 && !c.closed {
			c.cond.Wait()
		}
		out, closed := c.out, c.closed
		c.out = nil
		c.mu.Unlock()
		if closed && len(out) == 0 {
			return
		}
		for len(out) > 0 {
			n := len(out)
			if chop { // In pieces, as a network does
				n = 1 + rng.Intn(n)
			}
			if _, err := c.net.Write(out[:n]); err != nil {
				return
			}
			out = out[n:]
		}
	}
}

func (s *Server) reader(c *conn, refuse string) {
	defer s.wg.Done()
	defer func() {
		s.mu.Lock()
		delete(s.conns, c.id)
		var left []*sub
		for _, x := range s.subs {
			if x.conn != c {
				left = append(left, x)
			}
		}
		s.subs = left
		s.record(Event{Kind: "close", Conn: c.id})
		if s.js != nil {
			s.js.gone(c)
		}
		s.mu.Unlock()
		c.close()
	}()
	if refuse == "drop" {
		return
	}
	host, port, _ := net.SplitHostPort(s.addr)
	p, _ := strconv.Atoi(port)
	info, _ := json.Marshal(map[string]any{
		"server_id": "NFAKE", "server_name": "fake", "version": "2.10.4", "go": "go1.21", "host": host, "port": p, "headers": true,
		"max_payload": MaxPayload, "proto": 1, "client_id": c.id, "client_ip": "127.0.0.1", "jetstream": s.js != nil,
	})
	c.write([]byte("INFO " + string(info) + "\r\n"))
	r := bufio.NewReaderSize(c.net, 1<<16)
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			return
		}
		line = strings.TrimRight(line, "\r\n")
		op, args, _ := strings.Cut(line, " ")
		f := strings.Fields(args)
		switch strings.ToUpper(op) {
		case "CONNECT":
			var o struct {
				Echo *bool
			}
			_ = json.Unmarshal([]byte(args), &o)
			c.noEcho = o.Echo != nil && !*o.Echo
			if refuse != "" {
				c.write([]byte("-ERR '" + refuse + "'\r\n"))
				time.Sleep(5 * time.Millisecond)
				return
			}
			s.mu.Lock()
			s.record(Event{Kind: "connect", Conn: c.id, Text: args})
			s.mu.Unlock()
		case "PING":
			s.mu.Lock()
			mute := s.mute
			s.mu.Unlock()
			if !mute {
				c.write([]byte("PONG\r\n"))
			}
		case "PONG":
		case "SUB":
			if len(f) < 2 || len(f) > 3 {
				s.bad(c, line)
				return
			}
			x := &sub{conn: c, subject: f[0], sid: f[len(f)-1]}
			if len(f) == 3 {
				x.queue = f[1]
			}
			s.mu.Lock()
			c.subs[x.sid] = x
			s.subs = append(s.subs, x)
			s.record(Event{Kind: "sub", Conn: c.id, Sid: x.sid, Subject: x.subject, Queue: x.queue})
			s.mu.Unlock()
		case "UNSUB":
			if len(f) < 1 {
				s.bad(c, line)
				return
			}
			s.mu.Lock()
			s.record(Event{Kind: "unsub", Conn: c.id, Sid: f[0], Text: args})
			if x := c.subs[f[0]]; x != nil {
				if len(f) > 1 {
					x.max, _ = strconv.Atoi(f[1])
				}
				if x.max == 0 || x.sent >= x.max {
					s.remove(x)
				}
			}
			s.mu.Unlock()
		case "PUB", "HPUB":
			if err := s.pub(c, r, strings.ToUpper(op) == "HPUB", f); err != nil {
				s.bad(c, line+": "+err.Error())
				return
			}
		default:
			s.bad(c, line)
			return
		}
	}
}

// bad is a protocol error of the client.
func (s *Server) bad(c *conn, line string) {
	s.mu.Lock()
	s.record(Event{Kind: "bad", Conn: c.id, Text: line})
	s.mu.Unlock()
	c.write([]byte("-ERR 'Unknown Protocol Operation'\r\n"))
}

func (s *Server) remove(x *sub) {
	delete(x.conn.subs, x.sid)
	for i, y := range s.subs {
		if y == x {
			s.subs = append(s.subs[:i:i], s.subs[i+1:]...)
			return
		}
	}
}

func (s *Server) pub(c *conn, r *bufio.Reader, headers bool, f []string) error {
	n := 1
	if headers {
		n = 2
	}
	if len(f) < n+1 || len(f) > n+2 {
		return errors.New("bad arguments")
	}
	total, err := strconv.Atoi(f[len(f)-1])
	if err != nil || total < 0 || total > MaxPayload {
		return errors.New("bad size")
	}
	h := 0
	if headers {
		if h, err = strconv.Atoi(f[len(f)-2]); err != nil || h < 0 || h > total {
			return errors.New("bad size")
		}
	}
	b := make([]byte, total+2)
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	if string(b[total:]) != "\r\n" {
		return errors.New("bad end")
	}
	m := Msg{Subject: f[0], Payload: b[h:total:total]}
	if len(f) == n+2 {
		m.Reply = f[1]
	}
	if headers {
		m.Raw = b[:h:h]
		if m.Header, err = ParseHeader(m.Raw); err != nil {
			return err
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.publish(c, m)
	return nil
}

// Msg is a message.
type Msg struct {
	Subject, Reply string
	Raw            []byte // Headers as in the protocol
	Header         map[string][]string
	Payload        []byte
}

// ParseHeader parses the headers of a message.
func ParseHeader(b []byte) (map[string][]string, error) {
	text := string(b)
	if !strings.HasPrefix(text, "NATS/1.0") || !strings.HasSuffix(text, "\r\n\r\n") {
		return nil, fmt.Errorf("bad header %q", text)
	}
	h := map[string][]string{}
	for i, l := range strings.Split(strings.TrimSuffix(text, "\r\n\r\n"), "\r\n") {
		if i == 0 {
			continue
		}
		k, v, ok := strings.Cut(l, ":")
		if !ok || k == "" {
			return nil, fmt.Errorf("bad header %q", l)
		}
		h[k] = append(h[k], strings.TrimLeft(v, " "))
	}
	return h, nil
}

// publish routes a message; s.mu is held.
func (s *Server) publish(c *conn, m Msg) {
	ev := Event{Kind: "pub", Subject: m.Subject, Reply: m.Reply, Header: m.Header, Payload: m.Payload}
	if c != nil {
		ev.Conn = c.id
	}
	var targets []*sub
	queues := map[string][]*sub{}
	var names []string
	for _, x := range s.subs {
		if !Match(x.subject, m.Subject) || (c != nil && x.conn == c && c.noEcho) {
			continue
		}
		if x.queue == "" {
			targets = append(targets, x)
			continue
		}
		k := x.queue + " " + x.subject
		if queues[k] == nil {
			names = append(names, k)
		}
		queues[k] = append(queues[k], x)
	}
	for _, k := range names {
		targets = append(targets, queues[k][s.rng.Intn(len(queues[k]))])
	}
	handled := s.js != nil && s.js.handle(c, m)
	for _, x := range targets {
		ev.To = append(ev.To, Target{x.conn.id, x.sid})
	}
	s.record(ev)
	for _, x := range targets {
		s.deliver(x, m)
	}
	if len(targets) == 0 && !handled && m.Reply != "" && c != nil { // No responders
		s.publish(nil, Msg{Subject: m.Reply, Raw: []byte("NATS/1.0 503\r\n\r\n")})
	}
}

// deliver sends a message to a subscription; s.mu is held.
func (s *Server) deliver(x *sub, m Msg) {
	var b bytes.Buffer
	reply := ""
	if m.Reply != "" {
		reply = m.Reply + " "
	}
	if m.Raw != nil {
		fmt.Fprintf(&b, "HMSG %s %s %s%d %d\r\n", m.Subject, x.sid, reply, len(m.Raw), len(m.Raw)+len(m.Payload))
	} else {
		fmt.Fprintf(&b, "MSG %s %s %s%d\r\n", m.Subject, x.sid, reply, len(m.Payload))
	}
	b.Write(m.Raw)
	b.Write(m.Payload)
	b.WriteString("\r\n")
	x.conn.write(b.Bytes())
	x.sent++
	if x.max > 0 && x.sent >= x.max {
		s.remove(x)
	}
}

// Inject publishes a message from the server.
func (s *Server) Inject(m Msg) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.publish(nil, m)
}

// Match tells if a subject is in a subscription.
func Match(pattern, subject string) bool {
	p, t := strings.Split(pattern, "."), strings.Split(subject, ".")
	for i, x := range p {
		if x == ">" {
			return i < len(t)
		}
		if i >= len(t) || (x != "*" && x != t[i]) {
			return false
		}
	}
	return len(p) == len(t)
}
