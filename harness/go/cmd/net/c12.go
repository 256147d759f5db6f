package main

import (
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/natsjetstream"
	natsgo "github.com/nats-io/nats.go"
	"github.com/nats-io/nats.go/jetstream"

	"verif/fake/natsd"
	"verif/mon"
)

func init() { checks["C12"] = c12 }

func c12(r *mon.Report) {
	for i := 0; i < r.N(600, 12000); i++ {
		name := fmt.Sprintf("deliver/%d", i)
		if r.Mine(name, i) {
			c12deliver(r, r.Rng("C12", name))
		}
	}
	for i := 0; i < r.N(300, 5000); i++ {
		name := fmt.Sprintf("faults/%d", i)
		if r.Mine(name, i) {
			c12faults(r, r.Rng("C12", name))
		}
	}
	for i := 0; i < r.N(40, 1000); i++ {
		name := fmt.Sprintf("match/%d", i)
		if r.Mine(name, i) {
			c12match(r, r.Rng("C12", name))
		}
	}
}

// jsClient is a controller on the server.
type jsClient struct {
	ctl      *natsjetstream.Controller
	nc       *natsgo.Conn // When it is not the one of the controller
	conn     int
	stream   string
	consumer string
	delay    time.Duration
	log      *logs
	mu       sync.Mutex
}

// jsSub is a subscription.
type jsSub struct {
	received
	c       *jsClient
	pattern string
	sub     extensions.BrokerChannelSubscription
	call    int64
	at      int64
	cancelCall,
	cancelEnd int64
}

// jsGot is a reception.
type jsGot struct {
	x  *jsSub
	id string
}

// What is done of a message at each reception.
const (
	planAck = iota
	planNakAck
	planNakNakAck
	planBoth
	planBothNak
	planTwice
	planNever
	plans
)

func idOf(m extensions.BrokerMessage) string {
	if id, ok := m.Headers["id"]; ok {
		return string(id)
	}
	id, _, _ := strings.Cut(string(m.Payload), " ")
	return id
}

func planOf(id string) int {
	h := fnv.New32()
	h.Write([]byte(id))
	return int(h.Sum32()>>3) % plans
}

type jsState struct {
	mu    sync.Mutex
	calls map[string]int64 // Settled by the client: consumer, id -> number
	naks  map[string]int64
	got   map[string]int // Receptions
	acks  map[string]bool
}

// settle settles a message as planned.
func (st *jsState) settle(c *jsClient, m *extensions.AcknowledgeableBrokerMessage) {
	id := idOf(m.BrokerMessage)
	k := c.stream + " " + c.consumer + " " + id
	st.mu.Lock()
	st.got[k]++
	n := st.got[k]
	plan := planOf(id)
	ack, nak := false, false
	switch plan {
	case planAck, planBoth, planTwice:
		ack = true
	case planBothNak:
		if n == 1 {
			nak = true
		} else {
			ack = true
		}
	case planNakAck:
		nak, ack = n == 1, n > 1
	case planNakNakAck:
		nak, ack = n <= 2, n > 2
	}
	if ack {
		st.calls[k]++
	}
	if nak {
		st.naks[k]++
	}
	st.mu.Unlock()
	switch {
	case plan == planBoth:
		m.Ack()
		m.Nak()
	case plan == planBothNak && nak:
		m.Nak()
		m.Ack()
	case plan == planTwice:
		var wg sync.WaitGroup
		wg.Add(1)
		o := *m // Copies of a message are the same message
		go func() { o.Ack(); wg.Done() }()
		m.Ack()
		wg.Wait()
	case ack:
		m.Ack()
	case nak:
		m.Nak()
	}
}

func (c *jsClient) subscribe(ctx context.Context, r *mon.Report, pattern string, j *mon.Jitter, gate chan struct{}, settle func(int, *extensions.AcknowledgeableBrokerMessage)) *jsSub {
	x := &jsSub{c: c, pattern: pattern, call: mon.Tick()}
	x.gate = gate
	var err error
	x.sub, err = c.ctl.Subscribe(ctx, pattern)
	x.at = mon.Tick()
	if err != nil {
		r.Violate("subscribe", fmt.Sprintf("subscription to %q: %v", pattern, err), nil)
		return nil
	}
	go x.read(x.sub, j, settle)
	return x
}

var jsSubjects = []string{"s.a", "s.a", "s.b", "s.a.b", "s.a.c", "s.A", "s.c.d.e", "t.x", "t.a", "s.é"}
var jsPatterns = []string{"s.a", "s.a", "s.*", "s.>", "s.a.b", ">", "t.x", "*.a", "s.b", "s.*.b", "s.a.>", "s.A", "s.é", "*.*.*"}

func c12deliver(r *mon.Report, rng *rand.Rand) {
	ctx := context.Background()
	base := mon.CountStacks("nats-io/nats.go")
	s, err := natsd.New(rand.New(rand.NewSource(rng.Int63())))
	if err != nil {
		r.Undecided(err.Error())
		return
	}
	defer s.Stop()
	s.EnableJetStream()
	j := mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), pick(rng, 0, 20, 200))
	s.AddStream("S", "s.>")
	s.AddStream("T", "t.*")
	filters := map[string][]string{}
	addConsumer := func(st, name string) {
		k := st + " " + name
		if _, ok := filters[k]; ok {
			return
		}
		f := [][]string{nil, nil, nil, {"s.a"}, {"s.a", "s.*.b"}}[rng.Intn(5)]
		if st == "T" {
			f = nil
		}
		filters[k] = f
		s.AddConsumer(st, name, f...)
	}

	// The controllers
	slow := rng.Intn(8) == 0
	churn := pick(rng, 0, 0, 4, 12)
	nclients := 1 + rng.Intn(3)
	if slow {
		churn, nclients = 0, 1
	}
	var clients []*jsClient
	for i := 0; i < nclients; i++ {
		c := &jsClient{stream: pick(rng, "S", "S", "S", "T"), delay: 5 * time.Second, log: &logs{}}
		c.consumer = pick(rng, "shared", fmt.Sprint("own", i))
		addConsumer(c.stream, c.consumer)
		opts := []natsjetstream.ControllerOption{natsjetstream.WithLogger(c.log), natsjetstream.WithStream(c.stream), natsjetstream.WithConsumer(c.consumer)}
		if rng.Intn(4) > 0 {
			c.delay = time.Duration(pick(rng, 0, 1, 3, 20)) * time.Millisecond
			opts = append(opts, natsjetstream.WithNakDelay(c.delay))
		}
		switch rng.Intn(3) {
		case 0:
			if c.nc, err = natsgo.Connect(s.URL()); err != nil {
				r.Undecided(err.Error())
				return
			}
			opts = append(opts, natsjetstream.WithConnection(c.nc))
		case 1:
			opts = append(opts, natsjetstream.WithConnectionOpts(natsgo.Name("x")))
		}
		rng.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		if c.ctl, err = natsjetstream.NewController(s.URL(), opts...); err != nil {
			r.Violate("connect", "the controller cannot be created: "+err.Error(), nil)
			return
		}
		c.conn = s.LastConn()
		clients = append(clients, c)
	}
	if n := s.LastConn(); n != len(clients) {
		r.Violate("connect", fmt.Sprintf("%d connections for %d controllers", n, len(clients)), nil)
		return
	}
	if n := len(s.JSEvents()); n > 0 {
		r.Violate("configure", "existing streams and consumers to use are changed: "+s.JSEvents()[0].Kind, nil)
		return
	}

	st := &jsState{calls: map[string]int64{}, naks: map[string]int64{}, got: map[string]int{}}
	var mu sync.Mutex
	var subs []*jsSub
	gate := make(chan struct{})
	doSub := func(rng *rand.Rand, sctx context.Context) {
		c := pick(rng, clients...)
		var g chan struct{}
		if slow {
			g = gate
		}
		x := c.subscribe(sctx, r, pick(rng, jsPatterns...), j, g, func(_ int, m *extensions.AcknowledgeableBrokerMessage) { st.settle(c, m) })
		if x != nil {
			mu.Lock()
			subs = append(subs, x)
			mu.Unlock()
		}
	}
	nsubs := rng.Intn(6)
	if slow {
		nsubs = 1
	}
	for i := nsubs; i > 0; i-- {
		doSub(rng, ctx)
	}
	if r.Failed() > 0 {
		return
	}

	// Publications, with subscriptions and cancellations at the same time
	type pub struct {
		c          *jsClient
		subject    string
		msg        extensions.BrokerMessage
		start, end int64
		err        error
	}
	var pubs []*pub
	var wg sync.WaitGroup
	for p := 0; p < 1+rng.Intn(3); p++ {
		p, rng := p, rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		n := pick(rng, 3, 15, 40)
		if slow {
			n = 150
		}
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				x := &pub{c: pick(rng, clients...), subject: pick(rng, jsSubjects...), msg: message(rng, fmt.Sprintf("%d-%d", p, i))}
				keep := extensions.BrokerMessage{Headers: map[string][]byte{}, Payload: append([]byte(nil), x.msg.Payload...)}
				for k, v := range x.msg.Headers {
					keep.Headers[k] = append([]byte(nil), v...)
				}
				x.start = mon.Tick()
				x.err = x.c.ctl.Publish(ctx, x.subject, x.msg)
				x.end = mon.Tick()
				if !same(keep, x.msg) {
					r.Violate("modified", "the message given to the publication is modified: "+show(keep)+" is now "+show(x.msg), nil)
				}
				x.msg = keep
				mu.Lock()
				pubs = append(pubs, x)
				mu.Unlock()
				j.Pause()
			}
		}()
	}
	crng := rand.New(rand.NewSource(rng.Int63()))
	for k := 0; k < 2 && churn > 0; k++ {
		crng := rand.New(rand.NewSource(crng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < churn; i++ {
				j.Pause()
				if crng.Intn(2) == 0 {
					sctx, cancel := context.WithCancel(ctx)
					doSub(crng, sctx)
					cancel() // The context is only the one of the call
					continue
				}
				mu.Lock()
				var x *jsSub
				if len(subs) > 0 {
					if x = pick(crng, subs...); x.cancelCall != 0 {
						x = nil
					} else {
						x.cancelCall = mon.Tick()
					}
				}
				mu.Unlock()
				if x != nil {
					x.sub.Cancel(ctx)
					x.cancelEnd = mon.Tick()
				}
			}
		}()
	}
	if !run(r, "blocked", "end of the publications and cancellations", wg.Wait) {
		return
	}
	if slow { // Messages pile up
		sent := func() int {
			n := 0
			for _, e := range s.JSEvents() {
				if e.Kind == "send" {
					n++
				}
			}
			return n
		}
		n := sent()
		for i := 0; i < 5; i++ {
			time.Sleep(2 * time.Millisecond)
			if m := sent(); m != n {
				n, i = m, 0
			}
		}
		r.Observe("piled_up", n)
	}
	close(gate)

	// Publications on the server
	stored := map[string]natsd.JSEvent{}
	for _, e := range s.JSEvents() {
		if e.Kind == "store" {
			id := idOf(extensions.BrokerMessage{Headers: flat(e.Header), Payload: e.Payload})
			if _, ok := stored[id]; ok {
				r.Violate("publish", "a message is published twice: "+id, nil)
				return
			}
			stored[id] = e
		}
	}
	msgs := map[string]extensions.BrokerMessage{}
	subject := map[string]string{}
	for _, p := range pubs {
		id := idOf(p.msg)
		msgs[id], subject[id] = p.msg, p.subject
		e, ok := stored[id]
		got := extensions.BrokerMessage{Headers: flat(e.Header), Payload: e.Payload}
		switch {
		case p.err != nil:
			r.Violate("publish", fmt.Sprintf("publication on %q: %v", p.subject, p.err), nil)
			return
		case !ok:
			r.Violate("publish", "a publication that ended well is not on the server: "+id, nil)
			return
		case e.At > p.end || e.Conn != p.c.conn || e.Subject != p.subject || !same(got, p.msg):
			r.Violate("publish", fmt.Sprintf("published on %q: %s, stored on %q (in time: %v): %s", p.subject, show(p.msg), e.Subject, e.At < p.end, show(got)), nil)
			return
		}
		for _, v := range e.Header {
			if len(v) != 1 {
				r.Violate("publish", "a header is sent with several values", nil)
			}
		}
	}
	if len(stored) != len(pubs) {
		r.Violate("publish", fmt.Sprintf("%d messages stored for %d publications", len(stored), len(pubs)), nil)
		return
	}

	// The subscriptions that remain: each of their consumers has to be read to its end
	live := func(c *jsClient) int {
		n := 0
		for _, x := range subs {
			if x.c == c && x.cancelCall == 0 {
				n++
			}
		}
		return n
	}
	for _, c := range clients {
		c := c
		want := 0
		if live(c) > 0 {
			want = 1
		}
		if !wait(r, "consume", fmt.Sprintf("%d consumption with %d subscriptions", want, live(c)), func() bool { return s.Inboxes(c.conn) == want }) {
			return
		}
	}
	lost := map[string]int{} // Deliveries that were lost because of a cancellation
	type delivery struct{ sent, acks, naks, counts int }
	type info struct {
		d       map[string]*delivery
		sends   map[int][]natsd.JSEvent // By connection
		pending map[string][]int
		ackEvs  map[string][]natsd.JSEvent
		byCount map[string]natsd.JSEvent
	}
	idBySeq := func(e natsd.JSEvent) string { return "" }
	seqs := map[string]map[int]string{"S": {}, "T": {}}
	for id, e := range stored {
		seqs[e.Stream][e.Seq] = id
	}
	idBySeq = func(e natsd.JSEvent) string { return seqs[e.Stream][e.Seq] }
	look := func() info {
		v := info{d: map[string]*delivery{}, sends: map[int][]natsd.JSEvent{}, ackEvs: map[string][]natsd.JSEvent{}, byCount: map[string]natsd.JSEvent{}}
		get := func(e natsd.JSEvent) *delivery {
			k := e.Stream + " " + e.Consumer + " " + idBySeq(e)
			if v.d[k] == nil {
				v.d[k] = &delivery{}
			}
			return v.d[k]
		}
		for _, e := range s.JSEvents() {
			switch e.Kind {
			case "send":
				get(e).sent++
				v.sends[e.Conn] = append(v.sends[e.Conn], e)
				v.byCount[fmt.Sprint(e.Stream, e.Consumer, e.Seq, e.Count)] = e
			case "ack":
				if strings.HasPrefix(string(e.Payload), "-NAK") {
					get(e).naks++
				} else {
					get(e).acks++
				}
				k := e.Stream + " " + e.Consumer + " " + idBySeq(e)
				v.ackEvs[k] = append(v.ackEvs[k], e)
			}
		}
		return v
	}
	consumers := map[string][]*jsClient{}
	for _, c := range clients {
		k := c.stream + " " + c.consumer
		consumers[k] = append(consumers[k], c)
	}
	cancelled := false
	for _, x := range subs {
		cancelled = cancelled || x.cancelCall != 0
	}
	// done tells if all what has been sent to a consumer has been handled.
	done := func(k string) (bool, []int) {
		f := strings.Fields(k)
		sent, left := s.Pending(f[0], f[1])
		if left > 0 {
			return false, nil
		}
		v := look()
		var drop []int
		ok := true
		for _, q := range sent {
			id := seqs[f[0]][q]
			d := v.d[k+" "+id]
			if d == nil {
				return false, nil
			}
			st.mu.Lock()
			got, naks := st.got[k+" "+id], int(st.naks[k+" "+id])
			st.mu.Unlock()
			switch {
			case got+lost[k+" "+id] < d.sent:
				ok = false
				drop = append(drop, q)
			case d.naks < naks, planOf(id) != planNever && d.naks+lost[k+" "+id] < d.sent:
				ok = false // Not yet settled, or delivered again soon
			case planOf(id) != planNever:
				evs := v.ackEvs[k+" "+id]
				if len(evs) == 0 || !strings.Contains(string(evs[len(evs)-1].Payload), fmt.Sprint((5*time.Second).Nanoseconds())) {
					ok = false
				}
			}
		}
		return ok, drop
	}
	for k, cs := range consumers {
		n := 0
		for _, c := range cs {
			n += live(c)
		}
		if n == 0 {
			continue
		}
		k := k
		// What a cancellation lost is delivered again later
		if cancelled {
			f := strings.Fields(k)
			same, last := 0, ""
			for i := 0; i < 400 && same < 6; i++ {
				ok, drop := done(k)
				if ok {
					break
				}
				if now := fmt.Sprint(drop, len(s.JSEvents())); now == last && len(drop) > 0 {
					same++
				} else {
					same, last = 0, now
				}
				time.Sleep(3 * time.Millisecond)
			}
			_, drop := done(k)
			v := look()
			for _, q := range drop {
				id := k + " " + seqs[f[0]][q]
				// It has to be because of a cancellation
				st.mu.Lock()
				n := v.d[id].sent - st.got[id]
				st.mu.Unlock()
				if n > lost[id] {
					lost[id] = n
					r.Observe("redelivered_after_cancellation", 1)
					s.Expire(f[0], f[1], q)
				}
			}
		}
		if !wait(r, "lost", "reception and settlement of what has been sent to a consumer", func() bool { ok, _ := done(k); return ok }) {
			_, drop := done(k)
			r.Violate("lost", fmt.Sprintf("not received: %v", drop), nil)
			return
		}
	}

	// The receptions
	v := look()
	perConn := map[string]int{}
	for c, es := range v.sends {
		for _, e := range es {
			perConn[fmt.Sprint(c, " ", idBySeq(e))]++
		}
	}
	gotConn := map[string]int{}
	for _, x := range subs {
		pos := 0
		ordered := true
		for _, y := range subs {
			ordered = ordered && (y.c != x.c || y.cancelCall == 0)
		}
		for i, m := range x.list() {
			id := idOf(m.BrokerMessage)
			k := fmt.Sprint(x.c.conn, " ", id)
			gotConn[k]++
			switch {
			case !same(m.BrokerMessage, msgs[id]):
				r.Violate("delivery", fmt.Sprintf("published %s, received %s", show(msgs[id]), show(m.BrokerMessage)), nil)
				return
			case !natsd.Match(x.pattern, subject[id]):
				r.Violate("misdirected", fmt.Sprintf("the subscription to %q gets a message of %q", x.pattern, subject[id]), nil)
				return
			case gotConn[k] > perConn[k]:
				r.Violate("invented", fmt.Sprintf("a message is received %d times, sent %d times", gotConn[k], perConn[k]), nil)
				return
			}
			if ordered {
				es := v.sends[x.c.conn]
				for pos < len(es) && idBySeq(es[pos]) != id {
					pos++
				}
				if pos == len(es) {
					r.Violate("order", fmt.Sprintf("message %d of the subscription to %q is not in the order of the server", i, x.pattern), nil)
					return
				}
				pos++
			}
		}
		r.Observe("received", x.len())
	}

	// The settlements
	library := 0
	for _, x := range subs {
		x := x
		k := x.c.stream + " " + x.c.consumer + " "
		if !wait(r, "settle", "acknowledgements on the server", func() bool {
			v := look()
			for _, m := range x.list() {
				id := k + idOf(m.BrokerMessage)
				st.mu.Lock()
				a, n := int(st.calls[id]), int(st.naks[id])
				st.mu.Unlock()
				d := v.d[id]
				if d == nil || d.acks < a || d.naks < n {
					return false
				}
			}
			return true
		}) {
			return
		}
	}
	v = look()
	for k, evs := range v.ackEvs {
		f := strings.Fields(k)
		if len(f) < 3 {
			r.Violate("settle", "an acknowledgement of something else: "+evs[0].Subject, nil)
			return
		}
		st.mu.Lock()
		acks, naks := int(st.calls[k]), int(st.naks[k])
		st.mu.Unlock()
		d := v.d[k]
		if d.naks != naks {
			r.Violate("settle", fmt.Sprintf("message %s is rejected %d times by its subscriptions, the server is told %d times", f[2], naks, d.naks), nil)
			return
		}
		seen := map[int]bool{}
		free := 0
		for _, e := range evs {
			sent, ok := v.byCount[fmt.Sprint(e.Stream, e.Consumer, e.Seq, e.Count)]
			if !ok || sent.Conn != e.Conn {
				r.Violate("settle", "an acknowledgement of what was not sent: "+e.Subject, nil)
				return
			}
			if seen[e.Count] {
				r.Violate("settle", fmt.Sprintf("delivery %d of message %s is settled twice", e.Count, f[2]), nil)
				return
			}
			seen[e.Count] = true
			var c *jsClient
			for _, y := range clients {
				if y.conn == e.Conn {
					c = y
				}
			}
			want := "+ACK"
			if strings.HasPrefix(string(e.Payload), "-NAK") {
				want = "-NAK"
				if c.delay > 0 {
					want = fmt.Sprintf(`-NAK {"delay": %d}`, c.delay.Nanoseconds())
				}
			}
			if string(e.Payload) != want {
				r.Violate("settle", fmt.Sprintf("settled with %q instead of %q", e.Payload, want), nil)
				return
			}
			// Who can have done it: the library only for what nobody is subscribed to
			covered, other := false, false
			for _, y := range subs {
				if y.c != c {
					continue
				}
				if natsd.Match(y.pattern, subject[f[2]]) {
					covered = covered || y.at < sent.At && (y.cancelCall == 0 || y.cancelCall > e.At)
				} else {
					other = other || y.call < e.At && (y.cancelCall == 0 || y.cancelEnd == 0 || y.cancelEnd > sent.At)
				}
			}
			if want == "+ACK" && !covered && other {
				free++
			}
		}
		if d.acks < acks || d.acks > acks+free {
			r.Violate("settle", fmt.Sprintf("message %s of %q is acknowledged %d times by its subscriptions, the server is told %d times (%d deliveries, %d could be of a message that nobody was subscribed to)",
				f[2], subject[f[2]], acks, d.acks, d.sent, free), nil)
			return
		}
		library += d.acks - acks
	}
	warns := 0
	for _, c := range clients {
		_, n := c.log.count()
		warns += n
		if n, _ := c.log.count(); n > 0 {
			r.Violate("errors", "errors are logged though nothing failed: "+c.log.errors[0], nil)
		}
	}
	if warns < library {
		r.Violate("unreported", fmt.Sprintf("%d messages that nobody is subscribed to are acknowledged, with %d warnings", library, warns), nil)
		return
	}
	r.Observe("acknowledged_by_library", library)
	r.Observe("publications", len(pubs))
	r.Observe("subscriptions", len(subs))
	r.Observe("settlements", len(v.ackEvs))

	// The end
	kinds := map[string]int{}
	for _, x := range subs {
		x := x
		if x.cancelCall != 0 {
			kinds["cancelled"]++
			if !wait(r, "unclosed", "end of the messages of a cancelled subscription", x.isClosed) {
				return
			}
			continue
		}
		if rng.Intn(3) == 0 {
			continue
		}
		x.cancelCall = mon.Tick()
		if !run(r, "blocked", "cancellation of the subscription to "+x.pattern, func() { x.sub.Cancel(ctx) }) ||
			!wait(r, "unclosed", "end of the messages of a cancelled subscription", x.isClosed) {
			return
		}
		kinds["late"]++
	}
	for _, c := range clients {
		c := c
		want := 0
		if live(c) > 0 {
			want = 1
		}
		if !wait(r, "consume", fmt.Sprintf("%d consumption with %d subscriptions", want, live(c)), func() bool { return s.Inboxes(c.conn) == want }) {
			return
		}
	}
	// What comes when there is no subscription waits for the next one
	if c := clients[0]; live(c) == 0 && len(consumers[c.stream+" "+c.consumer]) == 1 && filters[c.stream+" "+c.consumer] == nil {
		subj := map[string]string{"S": "s.z", "T": "t.z"}[c.stream]
		m := message(rng, "z-1")
		if err := c.ctl.Publish(ctx, subj, m); err != nil {
			r.Violate("publish", err.Error(), nil)
			return
		}
		x := c.subscribe(ctx, r, subj, j, nil, func(_ int, m *extensions.AcknowledgeableBrokerMessage) {
			if idOf(m.BrokerMessage) == "z-1" {
				m.Ack()
			}
		})
		if x == nil {
			return
		}
		if !wait(r, "lost", "reception of a message published before the subscription", func() bool { return x.len() > 0 }) {
			return
		}
		if got := x.list(); len(got) != 1 || !same(got[0].BrokerMessage, m) {
			r.Violate("delivery", "after a new subscription: "+show(m)+" gives "+show(got[0].BrokerMessage), nil)
			return
		}
		x.sub.Cancel(ctx)
		x.cancelCall = mon.Tick()
		kinds["again"]++
		if !wait(r, "consume", "end of the consumption", func() bool { return s.Inboxes(c.conn) == 0 }) {
			return
		}
	}
	for _, c := range clients {
		c := c
		if !run(r, "blocked", "closing of a controller", c.ctl.Close) {
			return
		}
		if c.nc != nil {
			if c.nc.IsClosed() || c.nc.FlushTimeout(20*time.Second) != nil {
				r.Violate("close", "closing a controller closes a connection that is not its own", nil)
				return
			}
			kinds["shared"]++
			continue
		}
		if !wait(r, "close", "the connection of a closed controller is closed", func() bool { return len(eventsOf(s, "close", c.conn)) == 1 }) {
			return
		}
		if err := c.ctl.Publish(ctx, "s.a", extensions.BrokerMessage{}); err == nil {
			r.Violate("closed", "a closed controller publishes without error", nil)
		}
		if live(c) == 0 {
			if _, err := c.ctl.Subscribe(ctx, "s.a"); err == nil {
				r.Violate("closed", "a closed controller subscribes without error", nil)
			}
		}
	}
	for _, x := range subs {
		if x.cancelCall == 0 {
			x := x
			if !run(r, "blocked", "cancellation of a subscription of a closed controller", func() { x.sub.Cancel(ctx) }) ||
				!wait(r, "unclosed", "end of the messages of a subscription of a closed controller", x.isClosed) {
				return
			}
			kinds["closed"]++
		}
	}
	for _, c := range clients {
		if c.nc != nil {
			c.nc.Close()
		}
	}
	wait(r, "leak", "end of the goroutines of closed controllers", func() bool {
		return mon.CountStacks("nats-io/nats.go", "brokers/natsjetstream", "WaitForCancellationAsync") <= base
	})
	var order []string
	for _, e := range s.JSEvents() {
		order = append(order, fmt.Sprint(e.Kind[0:2], e.Conn))
	}
	r.Eval(fmt.Sprint(len(clients), len(subs), len(pubs), kinds, strings.Join(order, "")))
	r.Sample(map[string]any{"controllers": len(clients), "subscriptions": len(subs), "publications": len(pubs), "ends": kinds})
}

func sameJSON(a, b string) bool {
	var x, y any
	if json.Unmarshal([]byte(a), &x) != nil || json.Unmarshal([]byte(b), &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

func toJSON(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func streamConfig(rng *rand.Rand, name string) jetstream.StreamConfig {
	return jetstream.StreamConfig{
		Name:        name,
		Subjects:    [][]string{{"s.>"}, {"s.a", "s.b.*"}, nil}[rng.Intn(3)],
		Description: pick(rng, "", "d", "é \"x\""),
		Retention:   pick(rng, jetstream.LimitsPolicy, jetstream.WorkQueuePolicy),
		MaxMsgs:     int64(pick(rng, 0, -1, 100)),
		MaxAge:      time.Duration(pick(rng, 0, 3600)) * time.Second,
		Storage:     pick(rng, jetstream.FileStorage, jetstream.MemoryStorage),
		Duplicates:  time.Duration(rng.Intn(3)) * time.Minute,
		DenyDelete:  rng.Intn(2) == 0,
		Metadata:    pick(rng, nil, map[string]string{"k": "v"}),
	}
}

func consumerConfig(rng *rand.Rand, name string) jetstream.ConsumerConfig {
	return jetstream.ConsumerConfig{
		Name:           name,
		Durable:        pick(rng, "", name),
		Description:    pick(rng, "", "d"),
		DeliverPolicy:  pick(rng, jetstream.DeliverAllPolicy, jetstream.DeliverNewPolicy),
		AckPolicy:      jetstream.AckExplicitPolicy,
		AckWait:        time.Duration(pick(rng, 0, 40)) * time.Second,
		MaxDeliver:     pick(rng, 0, 7),
		FilterSubjects: [][]string{nil, {"s.a"}, {"s.a", "s.b.>"}}[rng.Intn(3)],
		MaxAckPending:  pick(rng, 0, 1000),
	}
}

// c12faults: streams and consumers as configured, errors reported.
func c12faults(r *mon.Report, rng *rand.Rand) {
	ctx := context.Background()
	s, err := natsd.New(rand.New(rand.NewSource(rng.Int63())))
	if err != nil {
		r.Undecided(err.Error())
		return
	}
	defer s.Stop()
	s.EnableJetStream()
	j := mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), 0)
	fault := pick(rng, "stream", "stream", "stream", "consumer", "consumer", "consumer", "subscribe", "subscribe", "publish", "publish", "create", "closed")
	if rng.Intn(60) == 0 {
		fault = "reconnect"
	}
	what := fault
	bad := func(what string, err error) {
		if err == nil {
			r.Violate("unreported", what+": no error", nil)
		}
	}
	base := mon.CountStacks("nats-io/nats.go")
	// create creates a controller; when it fails, nothing has to be left of it
	create := func(opts ...natsjetstream.ControllerOption) (c *natsjetstream.Controller, err error) {
		rng.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		if !run(r, "blocked", "creation of a controller", func() { c, err = natsjetstream.NewController(s.URL(), opts...) }) {
			return nil, fmt.Errorf("blocked")
		}
		if err != nil {
			if c != nil {
				r.Violate("unreported", "a controller is given with an error", nil)
			}
			wait(r, "leak", "end of the connections of a controller that cannot be created ("+what+": "+err.Error()+")", func() bool {
				return s.Connections() == 0 && mon.CountStacks("nats-io/nats.go") <= base
			})
		}
		return c, err
	}
	switch fault {
	case "stream":
		name := pick(rng, "S", "orders", "a_b-c")
		cfg := streamConfig(rng, name)
		kind := pick(rng, "new", "same", "other", "other", "name", "badname", "createfails", "updatefails", "silence")
		if kind == "silence" && rng.Intn(10) > 0 {
			kind = "other"
		}
		what += " " + kind
		wantErr := false
		switch kind {
		case "same", "other", "updatefails":
			old := cfg
			if kind != "same" {
				old.Description = "before"
				old.Subjects = []string{"before"}
			}
			nc, _ := natsgo.Connect(s.URL())
			js, _ := jetstream.New(nc)
			if _, err := js.CreateStream(ctx, old); err != nil {
				r.Undecided(err.Error())
				return
			}
			nc.Close()
			if kind == "updatefails" {
				s.Fail("STREAM.UPDATE", "no update")
				wantErr = true
			}
			mon.Until(func() bool { return s.Connections() == 0 && mon.CountStacks("nats-io/nats.go") <= base }, patience)
		case "name":
			cfg.Name, wantErr = "", true
		case "badname":
			cfg.Name, wantErr = "a.b", true
		case "createfails":
			s.Fail("STREAM.CREATE", "no creation")
			wantErr = true
		case "silence":
			s.Fail("STREAM", "silence")
			wantErr = true
		}
		before := len(s.JSEvents())
		given := toJSON(cfg)
		c, err := create(natsjetstream.WithStreamConfig(cfg))
		if wantErr {
			bad("stream configuration ("+kind+")", err)
			return
		}
		if err != nil {
			r.Violate("configure", "stream configuration ("+kind+"): "+err.Error(), nil)
			return
		}
		if got, _ := s.Config(name, ""); !sameJSON(got, given) {
			r.Violate("configure", fmt.Sprintf("stream configured as %s: on the server (%s), %s", given, kind, got), nil)
		}
		for _, e := range s.JSEvents()[before:] {
			if e.Stream != name || (e.Kind != "create" && e.Kind != "update") {
				r.Violate("configure", "more than a stream is configured: "+e.Kind+" "+e.Stream, nil)
			}
		}
		if toJSON(cfg) != given {
			r.Violate("modified", "the given configuration is modified", nil)
		}
		c.Close()
	case "consumer":
		name := pick(rng, "C", "workers", "a_b-c")
		cfg := consumerConfig(rng, name)
		kind := pick(rng, "new", "new", "other", "name", "nostream", "unknown", "fails", "both", "both")
		what += " " + kind
		opts := []natsjetstream.ControllerOption{natsjetstream.WithStream("S")}
		wantErr := false
		if kind != "unknown" && kind != "both" {
			s.AddStream("S", "s.>")
		}
		stream := "S"
		scfg := streamConfig(rng, "B")
		switch kind {
		case "other":
			s.AddConsumer("S", name, "s.q")
		case "name":
			cfg.Name, cfg.Durable, wantErr = "", pick(rng, "", name), true
		case "nostream":
			opts, wantErr = nil, true
		case "unknown":
			wantErr = true
		case "fails":
			s.Fail("CONSUMER", "no consumer")
			wantErr = true
		case "both":
			stream = "B"
			opts = []natsjetstream.ControllerOption{natsjetstream.WithStreamConfig(scfg)}
		}
		given := toJSON(cfg)
		c, err := create(append(opts, natsjetstream.WithConsumerConfig(cfg))...)
		if wantErr {
			bad("consumer configuration ("+kind+")", err)
			return
		}
		if err != nil {
			r.Violate("configure", "consumer configuration ("+kind+"): "+err.Error(), nil)
			return
		}
		gotS, got := s.Config(stream, name)
		if !sameJSON(got, given) {
			r.Violate("configure", fmt.Sprintf("consumer configured as %s: on the server (%s), %s", given, kind, got), nil)
		}
		if kind == "both" && !sameJSON(gotS, toJSON(scfg)) {
			r.Violate("configure", fmt.Sprintf("stream configured as %s: on the server (%s), %s", toJSON(scfg), kind, gotS), nil)
		}
		if toJSON(cfg) != given {
			r.Violate("modified", "the given configuration is modified", nil)
		}
		// It is the one that is used
		s.AddStream("Z", "z.>")
		s.AddConsumer("Z", name)
		cl := &jsClient{ctl: c, conn: s.LastConn(), stream: stream, consumer: name, log: &logs{}}
		x := cl.subscribe(ctx, r, "s.>", j, nil, nil)
		if x == nil {
			return
		}
		if wait(r, "consume", "consumption of the configured consumer", func() bool { return s.Inboxes(cl.conn) == 1 }) {
			for _, e := range s.JSEvents() {
				if (e.Kind == "pull" || e.Kind == "info") && (e.Stream != stream || e.Consumer != name) {
					r.Violate("configure", fmt.Sprintf("consumption of %s/%s instead of %s/%s", e.Stream, e.Consumer, stream, name), nil)
				}
			}
		}
		run(r, "blocked", "cancellation", func() { x.sub.Cancel(ctx) })
		c.Close()
	case "subscribe":
		s.AddStream("S", "s.>")
		kind := pick(rng, "noconsumer", "unknown", "fails", "fails", "context")
		what += " " + kind
		cons := "C"
		if kind == "noconsumer" {
			cons = ""
		}
		if kind == "fails" || kind == "context" {
			s.AddConsumer("S", "C")
			s.Fail("CONSUMER.INFO", map[string]string{"fails": "not now", "context": "silence"}[kind])
		}
		c, err := create(natsjetstream.WithStream("S"), natsjetstream.WithConsumer(cons))
		if err != nil {
			r.Violate("connect", err.Error(), nil)
			return
		}
		defer c.Close()
		for i := 1 + rng.Intn(2); i > 0; i-- {
			sctx, cancel := ctx, func() {}
			if kind == "context" {
				sctx, cancel = context.WithTimeout(ctx, 30*time.Millisecond)
			}
			var err error
			if !run(r, "blocked", "subscription that fails", func() { _, err = c.Subscribe(sctx, "s.a") }) {
				return
			}
			cancel()
			bad("subscription ("+kind+")", err)
		}
		if kind == "noconsumer" || r.Failed() > 0 {
			return
		}
		// Later, it works
		if kind == "unknown" {
			s.AddConsumer("S", "C")
		}
		s.Fail("CONSUMER.INFO", "")
		cl := &jsClient{ctl: c, conn: s.LastConn(), log: &logs{}}
		x := cl.subscribe(ctx, r, "s.a", j, nil, func(_ int, m *extensions.AcknowledgeableBrokerMessage) { m.Ack() })
		if x == nil {
			return
		}
		n := 1 + rng.Intn(5)
		for i := 0; i < n; i++ {
			if err := c.Publish(ctx, "s.a", message(rng, fmt.Sprint(i))); err != nil {
				r.Violate("publish", err.Error(), nil)
				return
			}
		}
		if !wait(r, "lost", "messages after subscriptions that failed", func() bool { return x.len() == n }) {
			return
		}
		if !run(r, "blocked", "cancellation", func() { x.sub.Cancel(ctx) }) {
			return
		}
		wait(r, "consume", "end of the consumption after subscriptions that failed", func() bool { return s.Inboxes(cl.conn) == 0 })
	case "publish":
		s.AddStream("S", "s.>")
		c, err := create(natsjetstream.WithStream("S"))
		if err != nil {
			r.Violate("connect", err.Error(), nil)
			return
		}
		defer c.Close()
		good := 0
		for i := 0; i < 6; i++ {
			m := message(rng, fmt.Sprint(i))
			subject, wrong := "s.a", ""
			pctx, cancel := ctx, func() {}
			kind := pick(rng, "good", "good", "fails", "silence", "size", "subject", "nostream", "cancelled")
			if kind == "nostream" && rng.Intn(8) > 0 {
				kind = "fails"
			}
			if kind != "good" {
				wrong = "publication (" + kind + ")"
			}
			switch kind {
			case "fails":
				s.Fail("PUB", "insufficient resources")
			case "silence":
				s.Fail("PUB", "silence")
				pctx, cancel = context.WithTimeout(ctx, 20*time.Millisecond)
			case "size":
				m.Payload = make([]byte, natsd.MaxPayload+1+rng.Intn(3))
			case "subject":
				subject = pick(rng, "", "s.a b", " s.a", "s.a ", "s.a\tb", "s.a\r\nPUB s.b 0\r\n", "s.a\rb")
			case "nostream":
				subject = "u"
			case "cancelled":
				pctx, cancel = context.WithCancel(ctx)
				cancel()
			}
			count := func() int {
				n := 0
				for _, e := range s.JSEvents() {
					if e.Kind == "store" && e.Err == "" {
						n++
					}
				}
				return n
			}
			before := count()
			var err error
			if !run(r, "blocked", wrong, func() { err = c.Publish(pctx, subject, m) }) {
				return
			}
			cancel()
			s.Fail("PUB", "")
			switch {
			case wrong != "":
				bad(wrong, err)
				if count() != before && kind != "cancelled" {
					r.Violate("misdirected", wrong+": a message is stored", nil)
				}
				if kind == "fails" && err != nil && !strings.Contains(err.Error(), "insufficient resources") {
					r.Violate("unreported", "the error of the server is not given: "+err.Error(), nil)
				}
			case err != nil:
				r.Violate("publish", err.Error(), nil)
			default:
				good++
				if count() != before+1 {
					r.Violate("publish", "a publication that ended well is not stored", nil)
				}
			}
		}
	case "create":
		kind := pick(rng, "option", "refused", "nobody", "twice", "mixed")
		what += " " + kind
		switch kind {
		case "option":
			_, err := create(func(*natsjetstream.Controller) error { return fmt.Errorf("bad option") }, natsjetstream.WithConnectionOpts(natsgo.Name("x")))
			bad("an option that fails", err)
		case "refused", "nobody":
			if kind == "nobody" {
				s.Stop()
			} else {
				s.Refuse(pick(rng, "Authorization Violation", "drop"))
			}
			var opts []natsjetstream.ControllerOption
			if rng.Intn(2) == 0 {
				opts = append(opts, natsjetstream.WithConnectionOpts(natsgo.Timeout(time.Second)))
			}
			_, err := create(opts...)
			bad("connection to a server that refuses it", err)
		case "twice": // The last one is used
			c, err := create(natsjetstream.WithConnectionOpts(natsgo.Name("x")), natsjetstream.WithConnectionOpts(natsgo.Name("x")))
			if err != nil {
				r.Violate("connect", err.Error(), nil)
				return
			}
			wait(r, "leak", "end of the connection that is not used", func() bool { return s.Connections() == 1 })
			c.Close()
			wait(r, "close", "end of the connection of a closed controller", func() bool { return s.Connections() == 0 })
		case "mixed":
			nc, err := natsgo.Connect(s.URL())
			if err != nil {
				r.Undecided(err.Error())
				return
			}
			// One of them is used
			c, err := create(natsjetstream.WithConnection(nc), natsjetstream.WithConnectionOpts(natsgo.Name("x")))
			if err != nil {
				r.Violate("connect", err.Error(), nil)
				return
			}
			c.Close()
			if nc.IsClosed() || nc.FlushTimeout(20*time.Second) != nil {
				r.Violate("close", "the controller closes a connection that is not its own", nil)
			}
			wait(r, "leak", "end of the connections of the controller", func() bool { return s.Connections() == 1 })
			nc.Close()
		}
	case "closed": // What is done of messages after the end is only reported
		s.AddStream("S", "s.>")
		s.AddConsumer("S", "C")
		log := &logs{}
		c, err := create(natsjetstream.WithStream("S"), natsjetstream.WithConsumer("C"), natsjetstream.WithLogger(log))
		if err != nil {
			r.Violate("connect", err.Error(), nil)
			return
		}
		cl := &jsClient{ctl: c, conn: s.LastConn(), log: log}
		x := cl.subscribe(ctx, r, "s.a", j, nil, nil)
		if x == nil {
			return
		}
		for i := 0; i < 4; i++ {
			if err := c.Publish(ctx, "s.a", message(rng, fmt.Sprint(i))); err != nil {
				r.Violate("publish", err.Error(), nil)
				return
			}
		}
		if !wait(r, "lost", "messages", func() bool { return x.len() == 4 }) {
			return
		}
		got := x.list()
		cancelled := rng.Intn(2) == 0
		if cancelled { // Messages can still be settled
			if !run(r, "blocked", "cancellation", func() { x.sub.Cancel(ctx) }) {
				return
			}
			got[0].Ack()
			got[1].Nak()
			wait(r, "settle", "settlements after a cancellation", func() bool {
				n := 0
				for _, e := range s.JSEvents() {
					if e.Kind == "ack" {
						n++
					}
				}
				return n == 2
			})
		}
		c.Close()
		got[2].Ack()
		got[3].Nak()
		if n, _ := log.count(); n != 2 {
			r.Violate("unreported", fmt.Sprintf("2 messages settled on a closed connection: %d errors logged", n), nil)
		}
		if !cancelled {
			run(r, "blocked", "cancellation after closing", func() { x.sub.Cancel(ctx) })
		}
	case "reconnect":
		s.AddStream("S", "s.>")
		s.AddConsumer("S", "C")
		c, err := create(natsjetstream.WithStream("S"), natsjetstream.WithConsumer("C"), natsjetstream.WithConnectionOpts(
			natsgo.ReconnectWait(2*time.Millisecond), natsgo.ReconnectJitter(0, 0), natsgo.MaxReconnects(-1)))
		if err != nil {
			r.Violate("connect", err.Error(), nil)
			return
		}
		defer c.Close()
		cl := &jsClient{ctl: c, conn: s.LastConn(), log: &logs{}}
		x := cl.subscribe(ctx, r, "s.a", j, nil, func(_ int, m *extensions.AcknowledgeableBrokerMessage) { m.Ack() })
		if x == nil {
			return
		}
		for i := 0; i < 3; i++ {
			m := message(rng, fmt.Sprint(i))
			pctx, cancel := context.WithTimeout(ctx, 60*time.Second)
			err := c.Publish(pctx, "s.a", m)
			cancel()
			if err != nil {
				r.Violate("reconnect", "publication after a reconnection: "+err.Error(), nil)
				return
			}
			if !wait(r, "reconnect", "reception after a reconnection", func() bool { return x.len() == i+1 }) {
				return
			}
			if got := x.list(); !same(got[i].BrokerMessage, m) {
				r.Violate("reconnect", "after a reconnection: sent "+show(m)+", received "+show(got[i].BrokerMessage), nil)
				return
			}
			wait(r, "settle", "acknowledgement", func() bool { sent, left := s.Pending("S", "C"); return len(sent)+left == 0 })
			if i < 2 {
				last := s.LastConn()
				s.Kill(last)
				if !wait(r, "reconnect", "reconnection", func() bool { return s.LastConn() > last && s.Inboxes(s.LastConn()) == 1 }) {
					return
				}
			}
		}
	}
	r.Observe("fault_"+strings.Fields(what)[0], 1)
	r.Eval(fmt.Sprint(what, rng.Int63()))
}

// c12match: the subjects of a subscription are the ones of the server.
func c12match(r *mon.Report, rng *rand.Rand) {
	tokens := []string{"a", "b", "ab", "A", "*", "a", "b", "é", "*a", "a*", ">a", "a>"}
	for i := 0; i < 500; i++ {
		var p, t []string
		for k := 1 + rng.Intn(4); k > 0; k-- {
			p = append(p, pick(rng, tokens...))
		}
		if rng.Intn(3) == 0 {
			p = append(p, ">")
		}
		for k, n := 0, len(p)+rng.Intn(3)-1; k < n; k++ {
			tok := pick(rng, tokens...)
			if k < len(p) && rng.Intn(3) > 0 {
				tok = p[k]
			}
			if tok == "*" || tok == ">" {
				tok = "c"
			}
			t = append(t, tok)
		}
		if len(t) == 0 {
			continue
		}
		pattern, subject := strings.Join(p, "."), strings.Join(t, ".")
		if got, want := natsjetstream.MatchSubjectSubscription(pattern, subject), natsd.Match(pattern, subject); got != want {
			r.Violate("match", fmt.Sprintf("the subject %q is in %q: %v", subject, pattern, got), nil)
			return
		}
		r.Observe("matches", 1)
	}
	r.Eval(fmt.Sprint("match", rng.Int63()))
}
