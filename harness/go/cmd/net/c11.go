package main

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/nats"
	natsgo "github.com/nats-io/nats.go"

	"verif/fake/natsd"
	"verif/mon"
)

func init() { checks["C11"] = c11 }

func c11(r *mon.Report) {
	for i := 0; i < r.N(700, 14000); i++ {
		name := fmt.Sprintf("deliver/%d", i)
		if r.Mine(name, i) {
			c11deliver(r, r.Rng("C11", name))
		}
	}
	for i := 0; i < r.N(300, 6000); i++ {
		name := fmt.Sprintf("faults/%d", i)
		if r.Mine(name, i) {
			c11faults(r, r.Rng("C11", name))
		}
	}
}

// natsClient is a controller on the server.
type natsClient struct {
	ctl   *nats.Controller
	conn  int
	queue string
	log   *logs
	mu    sync.Mutex // One subscription at a time, to know what it does on the server
}

// natsSub is a subscription.
type natsSub struct {
	received
	c          *natsClient
	subject    string
	sid        string
	sub        extensions.BrokerChannelSubscription
	at         int64 // Return of the subscription
	cancelCall int64
	cancelEnd  int64
	stalled    bool
}

// natsPub is a publication.
type natsPub struct {
	c          *natsClient
	subject    string
	msg        extensions.BrokerMessage
	start, end int64
	err        error
}

func newNats(r *mon.Report, s *natsd.Server, rng *rand.Rand, queue string) *natsClient {
	c := &natsClient{queue: queue, log: &logs{}}
	var opts []nats.ControllerOption
	opts = append(opts, nats.WithLogger(c.log))
	if queue != "" {
		opts = append(opts, nats.WithQueueGroup(queue))
	}
	if rng.Intn(2) == 0 {
		opts = append(opts, nats.WithConnectionOpts(natsgo.Name("x")))
	}
	rng.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	before := s.LastConn()
	ctl, err := nats.NewController(s.URL(), opts...)
	if err != nil {
		r.Violate("connect", "the controller cannot be created: "+err.Error(), nil)
		return nil
	}
	if n := s.LastConn() - before; n != 1 {
		r.Violate("connect", fmt.Sprintf("%d connections are made by a controller", n), nil)
		return nil
	}
	c.ctl, c.conn = ctl, s.LastConn()
	return c
}

func eventsOf(s *natsd.Server, kind string, conn int) []natsd.Event {
	var res []natsd.Event
	for _, e := range s.Events() {
		if e.Kind == kind && e.Conn == conn {
			res = append(res, e)
		}
	}
	return res
}

// subscribe subscribes; the server has to know it at the return.
func (c *natsClient) subscribe(ctx context.Context, r *mon.Report, s *natsd.Server, subject string, j *mon.Jitter, gate chan struct{}, settle func(int, *extensions.AcknowledgeableBrokerMessage)) *natsSub {
	c.mu.Lock()
	defer c.mu.Unlock()
	before := len(eventsOf(s, "sub", c.conn))
	x := &natsSub{c: c, subject: subject, stalled: gate != nil}
	x.gate = gate
	var err error
	x.sub, err = c.ctl.Subscribe(ctx, subject)
	x.at = mon.Tick()
	if err != nil {
		r.Violate("subscribe", fmt.Sprintf("subscription to %q: %v", subject, err), nil)
		return nil
	}
	subs := eventsOf(s, "sub", c.conn)[before:]
	switch {
	case len(subs) == 0:
		r.Violate("subscribe-late", fmt.Sprintf("the subscription to %q is over, but the server has not been told: messages published from now on are lost", subject), nil)
		return nil
	case len(subs) > 1:
		r.Violate("subscribe", fmt.Sprintf("%d subscriptions on the server for one to %q", len(subs), subject), nil)
		return nil
	case subs[0].Subject != subject || subs[0].Queue != c.queue:
		r.Violate("subscribe", fmt.Sprintf("subscription to %q in the queue group %q: on the server, to %q in %q", subject, c.queue, subs[0].Subject, subs[0].Queue), nil)
		return nil
	}
	x.sid = subs[0].Sid
	go x.read(x.sub, j, settle)
	return x
}

func flat(h map[string][]string) map[string][]byte {
	res := map[string][]byte{}
	for k, v := range h {
		res[k] = []byte(v[0])
	}
	return res
}

var natsSubjects = []string{"a", "a.b", "a.b.c", "a.c", "b", "A", "a.B", "x.é", "{p}.q", "a-b", "a/b"}
var natsPatterns = []string{"a", "a", "a.b", "a.b", "a.*", "a.>", ">", "*", "*.b", "b", "x.é", "{p}.q", "a/b", "A"}

func c11deliver(r *mon.Report, rng *rand.Rand) {
	ctx := context.Background()
	base := mon.CountStacks("nats-io/nats.go")
	s, err := natsd.New(rand.New(rand.NewSource(rng.Int63())))
	if err != nil {
		r.Undecided(err.Error())
		return
	}
	defer s.Stop()
	j := mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), pick(rng, 0, 20, 200))

	// The controllers
	var clients []*natsClient
	for i := 1 + rng.Intn(4); i > 0; i-- {
		c := newNats(r, s, rng, pick(rng, "", "", "g1", "g1", "g2"))
		if c == nil {
			return
		}
		clients = append(clients, c)
	}
	var mu sync.Mutex // Of what follows
	var subs []*natsSub
	var pubs []*natsPub
	gate := make(chan struct{})
	settle := func(i int, m *extensions.AcknowledgeableBrokerMessage) {
		switch i % 3 {
		case 0:
			m.Ack()
		case 1:
			m.Nak()
		}
	}
	doSub := func(rng *rand.Rand, sctx context.Context) {
		var g chan struct{}
		if rng.Intn(6) == 0 {
			g = gate
		}
		x := pick(rng, clients...).subscribe(sctx, r, s, pick(rng, natsPatterns...), j, g, settle)
		if x != nil {
			mu.Lock()
			subs = append(subs, x)
			mu.Unlock()
		}
	}
	for i := rng.Intn(8); i > 0; i-- {
		doSub(rng, ctx)
	}
	if r.Failed() > 0 {
		return
	}

	// Publications, with subscriptions and cancellations at the same time
	var wg sync.WaitGroup
	for p := 0; p < 1+rng.Intn(4); p++ {
		p, rng := p, rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		n := pick(rng, 3, 20, 60)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				c := pick(rng, clients...)
				x := &natsPub{c: c, subject: pick(rng, natsSubjects...), msg: message(rng, fmt.Sprintf("%d-%d", p, i))}
				keep := extensions.BrokerMessage{Headers: map[string][]byte{}, Payload: append([]byte(nil), x.msg.Payload...)}
				for k, v := range x.msg.Headers {
					keep.Headers[k] = append([]byte(nil), v...)
				}
				x.start = mon.Tick()
				x.err = c.ctl.Publish(ctx, x.subject, x.msg)
				x.end = mon.Tick()
				if !same(keep, x.msg) {
					r.Violate("modified", "the message given to the publication is modified: "+show(keep)+" is now "+show(x.msg), nil)
				}
				x.msg = keep
				mu.Lock()
				pubs = append(pubs, x)
				mu.Unlock()
				j.Pause()
			}
		}()
	}
	crng := rand.New(rand.NewSource(rng.Int63()))
	churn := rng.Intn(10)
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < churn; i++ {
			j.Pause()
			if crng.Intn(2) == 0 {
				sctx, cancel := context.WithCancel(ctx)
				doSub(crng, sctx)
				cancel() // The context is only the one of the call
				continue
			}
			mu.Lock()
			var x *natsSub
			if len(subs) > 0 {
				x = pick(crng, subs...)
			}
			mu.Unlock()
			if x == nil || x.cancelCall != 0 {
				continue
			}
			x.cancelCall = mon.Tick()
			x.sub.Cancel(ctx)
			x.cancelEnd = mon.Tick()
		}
	}()
	what := fmt.Sprintf("%d controllers, %d changes of subscriptions", len(clients), churn)
	if !run(r, "blocked", what+": end of the publications and cancellations", wg.Wait) {
		return
	}

	// All what has been sent has to be received
	deliveries := func(x *natsSub) []natsd.Event {
		var res []natsd.Event
		for _, e := range s.Events() {
			if e.Kind != "pub" {
				continue
			}
			for _, t := range e.To {
				if t.Conn == x.c.conn && t.Sid == x.sid {
					res = append(res, e)
				}
			}
		}
		return res
	}
	check := func(x *natsSub, when string) bool {
		want, got := deliveries(x), x.list()
		for i, m := range got {
			if i >= len(want) {
				r.Violate("invented", fmt.Sprintf("%s: %q gets a message that was not sent to it: %s", when, x.subject, show(m.BrokerMessage)), nil)
				return false
			}
			w := extensions.BrokerMessage{Headers: flat(want[i].Header), Payload: want[i].Payload}
			if !same(w, m.BrokerMessage) {
				r.Violate("delivery", fmt.Sprintf("%s: message %d of the subscription to %q: sent %s, received %s", when, i, x.subject, show(w), show(m.BrokerMessage)), nil)
				return false
			}
		}
		return true
	}
	for _, x := range subs {
		if x.cancelCall != 0 || x.stalled {
			continue
		}
		n := len(deliveries(x))
		if !wait(r, "lost", fmt.Sprintf("reception of the %d messages sent to the subscription to %q", n, x.subject), func() bool { return x.len() >= n }) {
			check(x, "lost message")
			return
		}
	}
	close(gate)
	for _, x := range subs {
		n := len(deliveries(x))
		if x.cancelCall == 0 && !wait(r, "lost", fmt.Sprintf("reception of the %d messages sent to the slow subscription to %q", n, x.subject), func() bool { return x.len() >= n }) {
			return
		}
		if x.cancelCall != 0 && !wait(r, "unclosed", fmt.Sprintf("end of the messages of the cancelled subscription to %q", x.subject), x.isClosed) {
			return
		}
		if !check(x, "at the end") {
			return
		}
		r.Observe("received", x.len())
	}

	// Publications on the server
	byID := map[string]*natsPub{}
	left := map[string]int{}
	key := func(conn int, subject string, m extensions.BrokerMessage) string {
		return fmt.Sprintf("%d %s %s %x", conn, subject, show(extensions.BrokerMessage{Headers: m.Headers}), m.Payload)
	}
	for _, p := range pubs {
		if p.err != nil {
			r.Violate("publish", fmt.Sprintf("publication on %q: %v", p.subject, p.err), nil)
			return
		}
		k := key(p.c.conn, p.subject, p.msg)
		byID[k] = p
		left[k]++
	}
	for _, e := range s.Events() {
		switch e.Kind {
		case "bad":
			r.Violate("protocol", "the server does not understand: "+e.Text, nil)
			return
		case "pub":
			k := key(e.Conn, e.Subject, extensions.BrokerMessage{Headers: flat(e.Header), Payload: e.Payload})
			for h, v := range e.Header {
				if len(v) != 1 {
					r.Violate("publish", fmt.Sprintf("the header %q is sent with %d values", h, len(v)), nil)
				}
			}
			p := byID[k]
			if p == nil || left[k] == 0 || e.Reply != "" {
				r.Violate("publish", fmt.Sprintf("the server gets a message that nobody published: %q (reply %q) %s", e.Subject, e.Reply,
					show(extensions.BrokerMessage{Headers: flat(e.Header), Payload: e.Payload})), nil)
				return
			}
			left[k]--
			if left[k] == 0 && e.At > p.end {
				r.Violate("publish-late", fmt.Sprintf("the publication on %q returned before the server got the message", p.subject), nil)
				return
			}
			// Who gets it: the subscriptions done before, not cancelled
			for _, x := range subs {
				if x.at < p.start && (x.cancelCall == 0 || x.cancelCall > p.end) && natsd.Match(x.subject, e.Subject) && x.c.queue == "" {
					found := false
					for _, t := range e.To {
						found = found || t.Conn == x.c.conn && t.Sid == x.sid
					}
					if !found {
						r.Violate("unsubscribed", fmt.Sprintf("the subscription to %q is not on the server any more, and has not been cancelled", x.subject), nil)
						return
					}
				}
			}
			r.Observe("deliveries", len(e.To))
		}
	}
	for k, n := range left {
		if n != 0 {
			r.Violate("publish", "a publication that ended well is not on the server: "+k, nil)
			return
		}
	}
	r.Observe("publications", len(pubs))
	r.Observe("subscriptions", len(subs))

	// The end: cancellations, before and after closing
	unsubs := func(x *natsSub) int {
		n := 0
		for _, e := range eventsOf(s, "unsub", x.c.conn) {
			if e.Sid == x.sid {
				n++
			}
		}
		return n
	}
	kinds := map[string]int{}
	for _, x := range subs {
		if x.cancelCall != 0 {
			kinds["cancelled"]++
		} else if rng.Intn(2) == 0 {
			x := x
			x.cancelCall = mon.Tick()
			if !run(r, "blocked", "cancellation of the subscription to "+x.subject, func() { x.sub.Cancel(ctx) }) {
				return
			}
			x.cancelEnd = mon.Tick()
			if !wait(r, "unclosed", "end of the messages of a cancelled subscription", x.isClosed) {
				return
			}
			kinds["late"]++
		}
	}
	for _, x := range subs {
		if x.cancelCall != 0 {
			if !wait(r, "unsubscribe", fmt.Sprintf("the server is told of the cancellation of %q", x.subject), func() bool { return unsubs(x) > 0 }) {
				return
			}
		}
		want := 0
		if x.cancelCall != 0 {
			want = 1
		}
		if n := unsubs(x); n != want {
			r.Violate("unsubscribe", fmt.Sprintf("the server is told %d times of the cancellation of the subscription to %q (cancelled: %v)", n, x.subject, want == 1), nil)
			return
		}
	}
	for _, c := range clients {
		c := c
		if !run(r, "blocked", "closing of a controller", c.ctl.Close) {
			return
		}
		if !wait(r, "close", "the connection of a closed controller is closed", func() bool { return len(eventsOf(s, "close", c.conn)) == 1 }) {
			return
		}
		if err := c.ctl.Publish(ctx, "a", extensions.BrokerMessage{}); err == nil {
			r.Violate("closed", "a closed controller publishes without error", nil)
		}
		if _, err := c.ctl.Subscribe(ctx, "a"); err == nil {
			r.Violate("closed", "a closed controller subscribes without error", nil)
		}
	}
	for _, x := range subs {
		if x.cancelCall == 0 {
			x := x
			if !run(r, "blocked", "cancellation of a subscription of a closed controller", func() { x.sub.Cancel(ctx) }) ||
				!wait(r, "unclosed", "end of the messages of a subscription of a closed controller", x.isClosed) {
				return
			}
			kinds["closed"]++
		}
	}
	wait(r, "leak", "end of the goroutines of closed controllers", func() bool {
		return mon.CountStacks("nats-io/nats.go", "brokers/nats", "WaitForCancellationAsync") <= base
	})
	var order []string
	for _, e := range s.Events() {
		order = append(order, fmt.Sprint(e.Kind[0:1], e.Conn))
	}
	r.Eval(fmt.Sprint(len(clients), len(subs), len(pubs), kinds, strings.Join(order, "")))
	r.Sample(map[string]any{"controllers": len(clients), "subscriptions": len(subs), "publications": len(pubs), "ends": kinds})
}

// c11faults: what fails has to be reported, and to leave the rest in order.
func c11faults(r *mon.Report, rng *rand.Rand) {
	ctx := context.Background()
	s, err := natsd.New(rand.New(rand.NewSource(rng.Int63())))
	if err != nil {
		r.Undecided(err.Error())
		return
	}
	defer s.Stop()
	j := mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), 0)
	fault := pick(rng, "refused", "refused", "size", "subject", "reconnect", "reconnect", "gone", "option")
	bad := func(what string, err error) {
		if err == nil {
			r.Violate("unreported", what+": no error", nil)
		}
	}
	switch fault {
	case "refused":
		why := pick(rng, "Authorization Violation", "maximum connections exceeded", "drop", "nobody")
		fault += " " + why
		if why == "nobody" {
			s.Stop()
		} else {
			s.Refuse(why)
		}
		var opts []nats.ControllerOption
		if rng.Intn(2) == 0 {
			opts = append(opts, nats.WithConnectionOpts(natsgo.Timeout(time.Second)))
		}
		var c *nats.Controller
		var err error
		if !run(r, "blocked", "connection to a server that refuses it: "+why, func() { c, err = nats.NewController(s.URL(), opts...) }) {
			return
		}
		bad("connection to a server that refuses it ("+why+")", err)
		if err != nil && c != nil {
			r.Violate("unreported", "a controller is given with an error", nil)
		}
	case "option":
		// Connections may be made by the options that come before
		opts := []nats.ControllerOption{func(*nats.Controller) error { return fmt.Errorf("bad option") }}
		for i := rng.Intn(3); i > 0; i-- {
			opts = append(opts, nats.WithConnectionOpts(natsgo.Name("x")))
		}
		rng.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		_, err := nats.NewController(s.URL(), opts...)
		bad("an option that fails", err)
		if err != nil && !strings.Contains(err.Error(), "bad option") {
			r.Violate("unreported", "the error of the option is not given: "+err.Error(), nil)
		}
		wait(r, "unclosed", "end of the connections of a controller that could not be made", func() bool { return s.Connections() == 0 })
		// The last connection options win
		ctl, err := nats.NewController(s.URL(), nats.WithConnectionOpts(natsgo.Name("x")), nats.WithConnectionOpts(natsgo.Name("y")))
		if err != nil {
			r.Violate("connect", "the controller cannot be created: "+err.Error(), nil)
			break
		}
		if err := ctl.Publish(ctx, "a", message(rng, "x")); err != nil {
			r.Violate("connect", "publication after the connection options were given twice: "+err.Error(), nil)
		}
		ctl.Close()
		wait(r, "unclosed", "end of the connections of a closed controller", func() bool { return s.Connections() == 0 })
	case "size", "subject":
		c := newNats(r, s, rng, "")
		if c == nil {
			return
		}
		defer c.ctl.Close()
		x := c.subscribe(ctx, r, s, ">", j, nil, nil)
		if x == nil {
			return
		}
		sent := 0
		for i := 0; i < 6; i++ {
			m := message(rng, fmt.Sprint(i))
			subject := "a"
			wrong := ""
			if rng.Intn(2) == 0 {
				if fault == "size" {
					m.Payload = make([]byte, natsd.MaxPayload+rng.Intn(3)-1)
					if len(m.Payload) == natsd.MaxPayload {
						m.Headers = nil
					}
					if len(m.Payload) > natsd.MaxPayload || len(m.Headers) > 0 && len(m.Payload) == natsd.MaxPayload-1 {
						wrong = fmt.Sprintf("publication of %d bytes and %d headers", len(m.Payload), len(m.Headers))
					}
				} else {
					subject = pick(rng, "", "a b", " a", "a ", "a\tb", "a\r\nPUB b 0\r\n", "a\nb", "a\rb")
					wrong = fmt.Sprintf("publication on %q", subject)
				}
			}
			before := len(eventsOf(s, "pub", c.conn))
			err := c.ctl.Publish(ctx, subject, m)
			pubs := eventsOf(s, "pub", c.conn)[before:]
			switch {
			case wrong != "":
				bad(wrong, err)
				if len(pubs) > 0 {
					r.Violate("misdirected", fmt.Sprintf("%s: a message is published on %q", wrong, pubs[0].Subject), nil)
					return
				}
			case err != nil:
				r.Violate("publish", fmt.Sprintf("publication on %q: %v", subject, err), nil)
				return
			default:
				sent++
			}
		}
		for _, subject := range []string{"", "a b", " ", "a\r\nSUB b 7"} {
			before := len(eventsOf(s, "sub", c.conn))
			_, err := c.ctl.Subscribe(ctx, subject)
			bad(fmt.Sprintf("subscription to %q", subject), err)
			if n := len(eventsOf(s, "sub", c.conn)) - before; n > 0 {
				r.Violate("misdirected", fmt.Sprintf("subscription to %q: %d on the server", subject, n), nil)
			}
		}
		if r.Failed() == 0 {
			wait(r, "lost", "reception of the good messages", func() bool { return x.len() >= sent })
		}
	case "reconnect":
		log := &logs{}
		ctl, err := nats.NewController(s.URL(), nats.WithLogger(log), nats.WithConnectionOpts(
			natsgo.ReconnectWait(2*time.Millisecond), natsgo.ReconnectJitter(0, 0), natsgo.MaxReconnects(-1)))
		if err != nil {
			r.Violate("connect", err.Error(), nil)
			return
		}
		defer ctl.Close()
		c := &natsClient{ctl: ctl, conn: s.LastConn(), log: log}
		var subs []*natsSub
		for i := 0; i < 3; i++ {
			if x := c.subscribe(ctx, r, s, "a", j, nil, nil); x != nil {
				subs = append(subs, x)
			}
		}
		if len(subs) != 3 {
			return
		}
		subs[0].sub.Cancel(ctx)
		// A subscription that is still being drained would come back
		if !wait(r, "unsubscribe", "end of the cancelled subscription", func() bool {
			return len(eventsOf(s, "unsub", c.conn)) == 1 && mon.CountStacks("checkDrained") == 0
		}) {
			return
		}
		if rng.Intn(2) == 0 {
			s.Kill(c.conn)
		} else {
			addr := s.Addr()
			s.Stop()
			if err := s.Listen(addr); err != nil {
				r.Undecided(err.Error())
				return
			}
		}
		// After the reconnection, the subscriptions are there again: not the cancelled one
		if !wait(r, "reconnect", "subscriptions after a reconnection", func() bool { return s.LastConn() > c.conn && len(eventsOf(s, "sub", s.LastConn())) >= 2 }) {
			return
		}
		m := message(rng, "after")
		var perr error
		if !run(r, "blocked", "publication after a reconnection", func() { perr = ctl.Publish(ctx, "a", m) }) {
			return
		}
		if perr != nil {
			r.Violate("reconnect", "publication after a reconnection: "+perr.Error(), nil)
			return
		}
		for _, x := range subs[1:] {
			x := x
			if !wait(r, "reconnect", "reception after a reconnection", func() bool { return x.len() > 0 }) {
				return
			}
			if got := x.list(); len(got) != 1 || !same(m, got[0].BrokerMessage) {
				r.Violate("reconnect", fmt.Sprintf("after a reconnection: sent %s, received %d messages: %s", show(m), len(got), show(got[0].BrokerMessage)), nil)
			}
		}
		if n := len(eventsOf(s, "sub", s.LastConn())); n != 2 {
			r.Violate("reconnect", fmt.Sprintf("%d subscriptions after a reconnection, instead of 2", n), nil)
		}
	case "gone": // For good
		ctl, err := nats.NewController(s.URL(), nats.WithConnectionOpts(natsgo.NoReconnect()))
		if err != nil {
			r.Violate("connect", err.Error(), nil)
			return
		}
		c := &natsClient{ctl: ctl, conn: s.LastConn(), log: &logs{}}
		x := c.subscribe(ctx, r, s, "a", j, nil, nil)
		if x == nil {
			return
		}
		s.Stop()
		var e1, e2 error
		n := 0
		if !run(r, "blocked", "calls without server", func() {
			// The break is only known once the client has seen it
			for e1 = nil; e1 == nil && n < 50; n++ {
				e1 = ctl.Publish(ctx, "a", extensions.BrokerMessage{Payload: []byte("x")})
				if e1 == nil {
					r.Violate("unreported", "publication without server: no error", nil)
				}
			}
			_, e2 = ctl.Subscribe(ctx, "a")
			x.sub.Cancel(ctx)
			ctl.Close()
		}) {
			return
		}
		bad("publication without server", e1)
		bad("subscription without server", e2)
		wait(r, "unclosed", "end of the messages", x.isClosed)
	}
	r.Observe("fault_"+strings.Fields(fault)[0], 1)
	r.Eval(fmt.Sprint(fault, rng.Int63()))
}
