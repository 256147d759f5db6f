package main

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/kafka"
	kafkago "github.com/segmentio/kafka-go"
	"github.com/segmentio/kafka-go/protocol"
	"github.com/segmentio/kafka-go/sasl/plain"

	"verif/fake/kafkad"
	"verif/mon"
)

func init() { checks["C13"] = c13 }

// kpatience is how long nothing has to happen for an execution to be stuck: the
// library waits up to 10 s between two attempts.
const kpatience = 35 * time.Second

func c13(r *mon.Report) {
	dialer := *kafkago.DefaultDialer
	for i := 0; i < r.N(24, 240); i++ {
		name := fmt.Sprintf("deliver/%d", i)
		if r.Mine(name, i) {
			c13batch(r, r.Rng("C13", name), 8, func(w *kworld) { w.deliver() })
		}
	}
	for i := 0; i < r.N(24, 240); i++ {
		name := fmt.Sprintf("faults/%d", i)
		if r.Mine(name, i) {
			c13batch(r, r.Rng("C13", name), len(kfaults), func(w *kworld) { w.fault(kfaults[w.index]) })
		}
	}
	if d := *kafkago.DefaultDialer; d.TLS != dialer.TLS || d.SASLMechanism != dialer.SASLMechanism || d.Timeout != dialer.Timeout || d.ClientID != dialer.ClientID {
		r.Violate("default-dialer", "the default dialer of the library was modified", nil)
	}
}

// c13batch runs several worlds at once, as most of the time is spent waiting.
func c13batch(r *mon.Report, rng *rand.Rand, n int, f func(w *kworld)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		w := &kworld{r: r, rng: rand.New(rand.NewSource(rng.Int63())), index: i, log: map[string]*kpub{}}
		w.j = mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), 2000)
		wg.Add(1)
		go func() {
			defer wg.Done()
			f(w)
		}()
	}
	wg.Wait()
	leak := func() bool {
		return mon.CountStacks("segmentio/kafka-go", "lerenn/asyncapi-codegen/pkg") == 0
	}
	if mon.Until(leak, kpatience) == mon.Stuck {
		r.Violate("leak", "goroutines remain once everything is cancelled:\n"+mon.BlockedStacks("segmentio/kafka-go", "lerenn/asyncapi-codegen/pkg"), nil)
	}
}

// kpub is a publication.
type kpub struct {
	topic      string
	msg        extensions.BrokerMessage
	call, ret  int64
	err        error
	dupAllowed bool
}

// kworld is a cluster and the controllers that use it.
type kworld struct {
	r      *mon.Report
	rng    *rand.Rand
	j      *mon.Jitter
	index  int
	s      *kafkad.Server
	mu     sync.Mutex
	log    map[string]*kpub // By identifier of message
	n      atomic.Int64
	trace  []string
	opts   []kafka.ControllerOption
	bad    atomic.Bool
	faulty bool // Connections break
}

func (w *kworld) note(format string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.trace = append(w.trace, fmt.Sprintf("%d ", mon.Tick())+fmt.Sprintf(format, a...))
}

func (w *kworld) violate(kind, format string, a ...any) {
	if w.bad.Swap(true) {
		return // What comes after a first violation, or after something undecided, tells nothing
	}
	w.mu.Lock()
	t := append([]string(nil), w.trace...)
	w.mu.Unlock()
	var ev []string
	if w.s != nil {
		for _, e := range w.s.Events() {
			if e.Kind != "fetch" && e.Kind != "open" && e.Kind != "close" {
				ev = append(ev, fmt.Sprintf("%+v", e))
			}
		}
		if len(ev) > 200 {
			ev = ev[len(ev)-200:]
		}
	}
	w.r.Violate(kind, fmt.Sprintf("world %d: ", w.index)+fmt.Sprintf(format, a...), map[string]any{"trace": t, "events": ev})
}

// wait waits for a condition.
func (w *kworld) wait(kind, what string, cond func() bool) bool {
	switch mon.Until(cond, kpatience) {
	case mon.Finished:
		return true
	case mon.Stuck:
		w.violate(kind, "%s: never happens:\n%s", what, mon.BlockedStacks("lerenn/asyncapi-codegen/pkg"))
	default:
		w.r.Undecided(what + ": not decided in time")
		w.bad.Store(true)
	}
	return false
}

func (w *kworld) run(kind, what string, f func()) bool {
	return w.wait(kind, what, mon.Done(mon.Go(f)))
}

func (w *kworld) pick(n int) bool { return w.rng.Intn(n) == 0 }

// start starts a cluster.
func (w *kworld) start(cfg kafkad.Config) {
	cfg.FetchWait = time.Duration(100+w.rng.Intn(700)) * time.Millisecond
	cfg.JoinWait = time.Duration(w.rng.Intn(200)) * time.Millisecond
	cfg.Rebalance = 8 * time.Second
	s, err := kafkad.New(rand.New(rand.NewSource(w.rng.Int63())), cfg)
	if err != nil {
		panic(err)
	}
	w.s = s
	w.opts = nil
	if cfg.TLS != nil {
		w.opts = append(w.opts, kafka.WithTLS(clientTLS()))
	}
	if cfg.User != "" {
		w.opts = append(w.opts, kafka.WithSasl(plain.Mechanism{Username: cfg.User, Password: cfg.Pass}))
	}
	w.note("cluster %+v", cfg)
}

func (w *kworld) config() kafkad.Config {
	rng := w.rng
	cfg := kafkad.Config{Nodes: pick(rng, 1, 1, 2, 3), FetchV5: w.pick(4), OldMeta: w.pick(4), Controller: w.pick(3),
		AutoCreate: w.pick(3), BatchMax: pick(rng, 0, 1, 2, 5), Truncate: w.pick(2)}
	if w.pick(4) {
		cfg.TLS = serverTLS()
	}
	if w.pick(4) {
		cfg.User, cfg.Pass = "user"+fmt.Sprint(rng.Intn(10)), "p@ss "+fmt.Sprint(rng.Intn(100))
	}
	return cfg
}

// kctl is a controller.
type kctl struct {
	w         *kworld
	ctl       *kafka.Controller
	log       *logs
	group     string
	auto      bool
	partition int
	max       int
}

func (c *kctl) String() string {
	return fmt.Sprintf("controller(group %q auto %v partition %d max %d)", c.group, c.auto, c.partition, c.max)
}

// controller makes a controller.
func (w *kworld) controller(c *kctl) *kctl {
	c.w, c.log = w, &logs{}
	opts := append([]kafka.ControllerOption(nil), w.opts...)
	opts = append(opts, kafka.WithLogger(c.log), kafka.WithGroupID(c.group), kafka.WithAutoCommit(c.auto))
	if c.partition != 0 {
		opts = append(opts, kafka.WithPartition(c.partition))
	}
	if c.max != 0 {
		opts = append(opts, kafka.WithMaxBytes(c.max))
	}
	if w.pick(4) {
		opts = append(opts, kafka.WithConnectionTest(false))
	}
	w.rng.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	var err error
	if !w.run("stuck", "creating a controller", func() { c.ctl, err = kafka.NewController(w.s.Addrs(), opts...) }) {
		return nil
	}
	if err != nil {
		w.violate("connect", "the controller cannot be created: %v", err)
		return nil
	}
	w.note("%s", c)
	return c
}

// ksub is a subscription.
type ksub struct {
	received
	c           *kctl
	topic       string
	sub         extensions.BrokerChannelSubscription
	call, at    int64
	from        map[int]int64 // Where it has to begin: partition, offset
	cancelCall  int64
	cancelEnd   int64
	settled     []ksettle // By order of settlement
	smu         sync.Mutex
	alone       bool // Nothing else disturbs its group
	ctx         context.Context
	cancelReads context.CancelFunc
}

// ksettle is a settlement.
type ksettle struct {
	id        string
	call, ret int64
	errs      int
}

// settle settles a message according to what is planned for it.
func (x *ksub) settle(i int, m *extensions.AcknowledgeableBrokerMessage) {
	id := idOf(m.BrokerMessage)
	ack, nak := false, false
	switch planOf(id) {
	case planAck, planTwice, planBoth, planNakNakAck:
		ack = true
	case planNakAck, planBothNak:
		nak = true
	case planNever:
	}
	if !ack && !nak {
		return
	}
	x.do(id, m, ack)
}

func (x *ksub) do(id string, m *extensions.AcknowledgeableBrokerMessage, ack bool) {
	e0, _ := x.c.log.count()
	st := ksettle{id: id, call: mon.Tick()}
	x.smu.Lock()
	x.settled = append(x.settled, st)
	k := len(x.settled) - 1
	x.smu.Unlock()
	if ack {
		m.Ack()
	} else {
		m.Nak()
	}
	if planOf(id) == planTwice || planOf(id) == planBoth {
		m.Nak()
		m.Ack()
	}
	e1, _ := x.c.log.count()
	x.smu.Lock()
	x.settled[k].ret, x.settled[k].errs = mon.Tick(), e1-e0
	x.smu.Unlock()
}

// subscribe subscribes, and reads.
func (c *kctl) subscribe(topic string, gate chan struct{}, settle bool) *ksub {
	w := c.w
	x := &ksub{c: c, topic: topic, call: mon.Tick(), from: w.starts(c, topic)}
	x.gate = gate
	x.ctx, x.cancelReads = context.WithCancel(context.Background())
	var err error
	if !w.run("stuck", "subscribing to "+topic, func() { x.sub, err = c.ctl.Subscribe(x.ctx, topic) }) {
		return nil
	}
	if err != nil {
		w.violate("subscribe", "%s cannot subscribe to %s: %v", c, topic, err)
		return nil
	}
	x.at = mon.Tick()
	f := x.settle
	if !settle {
		f = nil
	}
	go x.read(x.sub, w.j, f)
	w.note("%s subscribed to %s", c, topic)
	return x
}

// cancel cancels the subscription.
func (x *ksub) cancel() bool {
	w := x.c.w
	x.cancelCall = mon.Tick()
	w.note("cancel %s on %s", x.c, x.topic)
	if !w.run("stuck", "cancelling a subscription", func() { x.sub.Cancel(context.Background()) }) {
		return false
	}
	x.cancelEnd = mon.Tick()
	w.note("cancelled %s on %s", x.c, x.topic)
	if x.gate == nil {
		return w.wait("cancel", "the end of the channel of a cancelled subscription", x.isClosed)
	}
	x.cancelReads()
	return true
}

// publish publishes a message.
func (c *kctl) publish(ctx context.Context, topic string) *kpub {
	w := c.w
	w.mu.Lock()
	id := fmt.Sprintf("m%d", w.n.Add(1))
	p := &kpub{topic: topic, msg: message(w.rng, id)}
	w.log[id] = p
	w.mu.Unlock()
	msg := mon.CloneMsg(p.msg)
	p.call = mon.Tick()
	p.err = c.ctl.Publish(ctx, topic, msg)
	p.ret = mon.Tick()
	if !same(msg, p.msg) {
		w.violate("modified", "the message was modified by its publication: %s -> %s", show(p.msg), show(msg))
	}
	return p
}

// put adds messages on the cluster.
func (w *kworld) put(topic string, p int, n int) {
	var l []kafkad.Record
	for i := 0; i < n; i++ {
		w.mu.Lock()
		id := fmt.Sprintf("d%d", w.n.Add(1))
		m := message(w.rng, id)
		rec := kafkad.Record{Value: m.Payload}
		for k, v := range m.Headers {
			if w.rng.Intn(8) == 0 { // The last one of a same name is kept
				rec.Headers = append(rec.Headers, protocol.Header{Key: k, Value: []byte("old")})
			}
			rec.Headers = append(rec.Headers, protocol.Header{Key: k, Value: v})
		}
		if w.rng.Intn(4) == 0 {
			rec.Key = []byte("key")
		}
		w.log[id] = &kpub{topic: topic, msg: m, dupAllowed: false}
		w.mu.Unlock()
		l = append(l, rec)
	}
	w.mu.Lock()
	attr := protocol.Attributes(pick(w.rng, 0, 0, 0, 1, 2, 3, 4))
	gap := w.rng.Intn(5) == 0
	w.mu.Unlock()
	if gap {
		w.s.Gap(topic, p, int64(1+w.j.Intn(5)))
	}
	if err := w.s.Append(topic, p, attr, l...); err != nil {
		panic(err)
	}
}

func (w *kworld) msg(id string) *kpub {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.log[id]
}

// recMsg is the message of a record.
func recMsg(rec kafkad.Record) extensions.BrokerMessage {
	m := extensions.BrokerMessage{Payload: rec.Value, Headers: map[string][]byte{}}
	for _, h := range rec.Headers {
		m.Headers[h.Key] = h.Value
	}
	return m
}

// place is where a message is.
type place struct {
	p   int
	i   int // Index in the partition
	off int64
	nxt int64 // Offset of the next one, if there is one
}

// places gives where the messages of a topic are.
func (w *kworld) places(topic string) map[string][]place {
	out := map[string][]place{}
	n, _, _ := w.s.Topic(topic)
	for p := 0; p < n; p++ {
		l := w.s.Log(topic, p)
		for i, rec := range l {
			id := idOf(recMsg(rec))
			out[id] = append(out[id], place{p: p, i: i, off: rec.Offset})
		}
	}
	return out
}

// checkPublications checks what was stored of the publications.
func (w *kworld) checkPublications() {
	topics := map[string]map[string][]place{}
	w.mu.Lock()
	log := map[string]*kpub{}
	for id, p := range w.log {
		log[id] = p
	}
	w.mu.Unlock()
	n := 0
	for id, p := range log {
		if topics[p.topic] == nil {
			topics[p.topic] = w.places(p.topic)
		}
		if id[0] != 'm' {
			continue
		}
		n++
		l := topics[p.topic][id]
		switch {
		case p.err == nil && len(l) == 0:
			w.violate("lost", "the publication of %s on %s succeeded but it is not stored", show(p.msg), p.topic)
		case p.err != nil && len(l) > 0 && !p.dupAllowed:
			w.violate("stored", "the publication of %s on %s failed (%v) but it is stored", id, p.topic, p.err)
		case len(l) > 1 && !p.dupAllowed:
			w.violate("duplicate", "%s was stored %d times", id, len(l))
		}
		for _, pl := range l {
			rec := w.s.Log(p.topic, pl.p)[pl.i]
			if !same(recMsg(rec), p.msg) || len(rec.Headers) != len(p.msg.Headers) {
				w.violate("altered", "published %s, stored %s", show(p.msg), show(recMsg(rec)))
			}
			if p.err == nil && rec.At > p.ret && !p.dupAllowed {
				w.violate("early", "the publication of %s returned before it was stored", id)
			}
		}
	}
	w.r.Observe("publications", n)
}

// checkReceived checks what a subscription received, in the order of each
// partition, and gives the last index by partition.
func (w *kworld) checkReceived(x *ksub, dup bool) map[int]int {
	pl := w.places(x.topic)
	next := map[int]int{} // partition -> index expected
	seen := map[string]int{}
	n, _, _ := w.s.Topic(x.topic)
	for p := 0; p < n; p++ {
		for i, rec := range w.s.Log(x.topic, p) {
			if rec.Offset < x.from[p] {
				next[p] = i + 1
			}
		}
	}
	last := map[int]int{}
	for k, m := range x.list() {
		id := idOf(m.BrokerMessage)
		p := w.msg(id)
		if p == nil {
			w.violate("invented", "%s received %s, which was not sent", x.c, show(m.BrokerMessage))
			continue
		}
		if !same(p.msg, m.BrokerMessage) {
			w.violate("altered", "sent %s, received %s", show(p.msg), show(m.BrokerMessage))
		}
		if p.topic != x.topic {
			w.violate("topic", "a subscription to %s received a message of %s", x.topic, p.topic)
			continue
		}
		seen[id]++
		q, ok := place{}, false
		for _, y := range pl[id] {
			if x.c.group == "" && y.p != x.c.partition {
				continue
			}
			if !ok || y.i == next[y.p] {
				q, ok = y, true
			}
		}
		if !ok {
			w.violate("partition", "%s received %s, which is not in its partition (%v)", x.c, id, pl[id])
			continue
		}
		if q.i != next[q.p] {
			if !dup || !w.resumes(x, q) {
				w.violate("order", "%s on %s received %s (reception %d), the message %d of partition %d, when %d was expected", x.c, x.topic, id, k, q.i, q.p, next[q.p])
			}
		}
		next[q.p] = q.i + 1
		last[q.p] = q.i + 1
	}
	w.r.Observe("receptions", len(x.list()))
	return next
}

// resumes tells if the reading of a group can begin at a message: it is the
// first one after something that was committed, or where the group began.
func (w *kworld) resumes(x *ksub, y place) bool {
	if y.i == 0 {
		return true
	}
	prev := w.s.Log(x.topic, y.p)[y.i-1].Offset
	if from := x.from[y.p]; prev < from && from <= y.off {
		return true
	}
	for _, e := range w.s.Events() {
		if e.Kind == "commit" && e.Group == x.c.group && e.Topic == x.topic && int(e.Partition) == y.p && prev < e.Offset && e.Offset <= y.off {
			return true
		}
	}
	return false
}

// checkCommits checks the commits of a group.
func (w *kworld) checkCommits(group string, subs []*ksub) {
	n := 0
	for _, e := range w.s.Events() {
		if e.Kind != "commit" || e.Group != group {
			continue
		}
		n++
		var id string
		for _, rec := range w.s.Log(e.Topic, int(e.Partition)) {
			if rec.Offset+1 == e.Offset {
				id = idOf(recMsg(rec))
			}
		}
		if id == "" {
			w.violate("commit", "the group %s committed the offset %d of %s/%d, which is not after a message", group, e.Offset, e.Topic, e.Partition)
			continue
		}
		ok, auto := false, false
		for _, x := range subs {
			if x.c.group != group || x.topic != e.Topic {
				continue
			}
			if x.c.auto {
				auto = true
			}
			x.smu.Lock()
			for _, st := range x.settled {
				if st.id == id && st.call < e.At {
					ok = true
				}
			}
			x.smu.Unlock()
		}
		if !ok && !auto {
			w.violate("commit", "the group %s committed %s (offset %d of %s/%d) before it was settled", group, id, e.Offset-1, e.Topic, e.Partition)
		}
	}
	w.r.Observe("commits", n)
	// What was settled without error is committed
	for _, x := range subs {
		if x.c.group != group || x.c.auto {
			continue
		}
		pl := w.places(x.topic)
		x.smu.Lock()
		for _, st := range x.settled {
			if st.errs > 0 || st.ret == 0 || x.cancelCall != 0 && st.ret > x.cancelCall {
				continue
			}
			done := false
			for _, e := range w.s.Events() {
				for _, y := range pl[st.id] {
					if e.Kind == "commit" && e.Code == 0 && e.Group == group && e.Topic == x.topic && int(e.Partition) == y.p && e.Offset > y.off && e.At > st.call && e.At < st.ret {
						done = true
					}
				}
			}
			if !done {
				w.violate("uncommitted", "%s: %s was settled, without error, but not committed", x.c, st.id)
			}
		}
		x.smu.Unlock()
	}
}

// end checks that nothing remains on the cluster.
func (w *kworld) end(groups ...string) {
	w.wait("connections", "the end of the connections", func() bool { return w.s.Conns() == 0 })
	for _, g := range groups {
		if n := w.s.Members(g); n > 0 {
			w.violate("members", "%d members remain in the group %s, whose subscriptions are cancelled", n, g)
		}
	}
	for _, e := range w.s.Events() {
		switch e.Kind {
		case "bad-request", "bad-auth":
			w.violate("protocol", "%+v", e)
		case "unauthenticated": // The library does it on connections that break
			if !w.faulty {
				w.violate("protocol", "%+v", e)
			}
		case "produce":
			w.r.Observe("requests_produce", 1)
		case "fetch":
			w.r.Observe("requests_fetch", 1)
		case "generation":
			w.r.Observe("group_generations", 1)
		case "fault":
			w.r.Observe("faults", 1)
		}
	}
}

// full tells if a subscription has received everything of its partitions.
func (w *kworld) full(x *ksub) bool {
	want := 0
	n, _, _ := w.s.Topic(x.topic)
	for p := 0; p < n; p++ {
		if x.c.group == "" && p != x.c.partition {
			continue
		}
		for _, rec := range w.s.Log(x.topic, p) {
			if rec.Offset >= x.from[p] {
				want++
			}
		}
	}
	return x.len() >= want
}

// starts gives where a new subscription has to begin.
func (w *kworld) starts(c *kctl, topic string) map[int]int64 {
	out := map[int]int64{}
	n, _, _ := w.s.Topic(topic)
	for p := 0; p < n; p++ {
		out[p] = w.s.Start(topic, p)
		if c.group != "" {
			if o := w.s.Committed(c.group, topic, int32(p)); o > out[p] {
				out[p] = o
			}
		}
	}
	return out
}

// deliver is a world without failure.
func (w *kworld) deliver() {
	w.start(w.config())
	rng := rand.New(rand.NewSource(w.rng.Int63()))
	defer w.s.Stop()
	// Topics
	names := []string{"orders", "a.b-c_d", "X"}[:1+rng.Intn(3)]
	if rng.Intn(3) == 0 {
		w.s.CreateTopic("broken", 1)
		w.s.Break("broken", pick(rng, int16(5), 29, 3))
	}
	for _, t := range names {
		if rng.Intn(3) == 0 {
			continue // To be created
		}
		n := 1 + rng.Intn(3)
		w.s.CreateTopic(t, n)
		for p := 0; p < n; p++ {
			for k := rng.Intn(4); k > 0; k-- {
				w.put(t, p, 1+rng.Intn(6))
			}
			if rng.Intn(4) == 0 {
				w.s.Trim(t, p, rng.Intn(3))
			}
		}
	}
	// Controllers
	var ctls []*kctl
	shared := rng.Intn(3) == 0
	for i := 0; i < 1+rng.Intn(3); i++ {
		c := &kctl{auto: rng.Intn(2) == 0, max: pick(rng, 0, 100+i, 5000+i, 1000000+i)}
		switch rng.Intn(3) {
		case 0:
		case 1:
			c.group = fmt.Sprintf("g%d", i)
		default:
			c.group = fmt.Sprintf("G.%d", i)
			if shared {
				c.group = "shared"
			}
		}
		if c = w.controller(c); c == nil {
			return
		}
		ctls = append(ctls, c)
	}
	byGroup := map[string]int{}
	for _, c := range ctls {
		byGroup[c.group]++
	}
	// Publications
	var wg sync.WaitGroup
	for i := 0; i < rng.Intn(4); i++ {
		c := pick(rng, ctls...)
		t := pick(rng, names...)
		n := 1 + rng.Intn(4)
		gap := time.Duration(rng.Intn(3000)) * time.Millisecond
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-time.After(gap)
			for k := 0; k < n && !w.bad.Load(); k++ {
				ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
				p := c.publish(ctx, t)
				cancel()
				if p.err != nil {
					w.violate("publish", "%s cannot publish on %s: %v", c, t, p.err)
				}
			}
		}()
	}
	// Subscriptions: rounds of each controller
	var subs []*ksub
	var mu sync.Mutex
	settle := rng.Intn(4) > 0
	for _, c := range ctls {
		c := c
		rounds := 1 + rng.Intn(3)
		t := pick(rng, names...)
		if byGroup[c.group] > 1 && c.group != "" {
			t = names[0]
		}
		crng := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < rounds && !w.bad.Load(); k++ {
				alone := c.group == "" || byGroup[c.group] == 1
				var gate chan struct{}
				if crng.Intn(6) == 0 {
					gate = make(chan struct{})
				}
				x := c.subscribe(t, gate, settle)
				if x == nil {
					return
				}
				x.alone = alone
				mu.Lock()
				subs = append(subs, x)
				mu.Unlock()
				n, _, _ := w.s.Topic(t)
				for i := crng.Intn(3); i > 0; i-- {
					w.put(t, crng.Intn(n), pick(crng, 1, 3, 10, 100))
					if crng.Intn(2) == 0 {
						<-time.After(time.Duration(crng.Intn(400)) * time.Millisecond)
					}
				}
				if k < rounds-1 { // Cancelled at any time
					if crng.Intn(2) == 0 {
						<-time.After(time.Duration(crng.Intn(2000)) * time.Millisecond)
					} else if alone && gate == nil {
						w.wait("undelivered", c.String()+" does not receive all the messages of "+t, func() bool { return w.full(x) || w.bad.Load() })
					}
					if gate != nil && crng.Intn(2) == 0 {
						close(gate)
						x.gate = nil
						gate = nil
					}
					if !x.cancel() {
						return
					}
					if gate != nil {
						close(gate)
						w.wait("cancel", "the end of the channel of a cancelled subscription", x.isClosed)
					}
				} else if gate != nil {
					close(gate)
					x.gate = nil
				}
			}
		}()
	}
	if !w.run("stuck", "the end of the publications and subscriptions", wg.Wait) || w.bad.Load() {
		return
	}
	// Everything comes
	for _, x := range subs {
		if x.cancelCall == 0 && x.alone {
			if !w.wait("undelivered", x.c.String()+" does not receive all the messages of "+x.topic, func() bool { return w.full(x) }) {
				w.note("has %d", x.len())
				return
			}
		}
	}
	// What was handed over is committed, when it is automatic
	for _, x := range subs {
		x := x
		if _, warns := x.c.log.count(); warns > 0 || x.cancelCall != 0 || !x.alone || x.c.group == "" || !x.c.auto {
			continue
		}
		last, pl := map[int]int64{}, w.places(x.topic)
		for _, m := range x.list() {
			if ys := pl[idOf(m.BrokerMessage)]; len(ys) == 1 && ys[0].off >= last[ys[0].p] {
				last[ys[0].p] = ys[0].off + 1
			}
		}
		if !w.wait("uncommitted", x.c.String()+" does not commit the messages of "+x.topic+" that it handed over", func() bool {
			for p, off := range last {
				if w.s.Committed(x.c.group, x.topic, int32(p)) < off {
					return false
				}
			}
			return true
		}) {
			return
		}
		w.r.Observe("automatic_commits", len(last))
	}
	groups := map[string]bool{}
	for _, c := range ctls {
		if c.group != "" {
			groups[c.group] = true
		}
	}
	for g := range groups {
		if byGroup[g] < 2 {
			continue
		}
		// Each message is received by a member at least
		if !w.wait("undelivered", "the group "+g+" does not receive all the messages", func() bool {
			got := map[string]bool{}
			topic := ""
			for _, x := range subs {
				if x.c.group == g {
					topic = x.topic
					for _, m := range x.list() {
						got[idOf(m.BrokerMessage)] = true
					}
				}
			}
			for id := range w.places(topic) {
				if !got[id] && !w.limbo(g, topic, id, subs) {
					return false
				}
			}
			return true
		}) {
			return
		}
	}
	w.r.Sample(map[string]any{"config": fmt.Sprintf("%+v", w.s.Config), "subscriptions": len(subs), "trace": w.trace})
	var cw sync.WaitGroup
	ok := true
	for _, x := range subs {
		if x.cancelCall == 0 {
			cw.Add(1)
			x := x
			go func() {
				defer cw.Done()
				x.cancelCall = mon.Tick()
				if !x.cancel() {
					ok = false
				}
			}()
		}
	}
	cw.Wait()
	if !ok {
		return
	}
	// Settlements once it is cancelled do nothing
	for _, x := range subs {
		l := x.list()
		if len(l) > 0 && x.c.group != "" && !x.c.auto {
			m := l[len(l)-1]
			if !w.run("stuck", "acknowledging a message of a cancelled subscription", func() { m.Ack() }) {
				return
			}
		}
	}
	w.checkPublications()
	shape := ""
	for _, x := range subs {
		next := w.checkReceived(x, !x.alone)
		w.r.Observe("subscriptions", 1)
		shape += fmt.Sprintf("%s>%d;", x.c, x.len())
		if x.c.group != "" && x.c.auto && x.alone {
			// What is committed was delivered, but at most one
			for p, i := range next {
				l := w.s.Log(x.topic, p)
				lost := 0
				for k := i; k < len(l); k++ {
					for _, e := range w.s.Events() {
						if e.Kind == "commit" && e.Code == 0 && e.Group == x.c.group && e.Topic == x.topic && int(e.Partition) == p &&
							e.At > x.call && e.At < x.cancelEnd && e.Offset > l[k].Offset {
							lost++
							break
						}
					}
				}
				if lost > 1 {
					w.violate("lost", "%s: %d messages were committed but not delivered", x.c, lost)
				}
			}
		}
	}
	for g := range groups {
		w.checkCommits(g, subs)
	}
	// Limits of the requests
	w.checkLimits(ctls)
	for _, t := range names {
		if n, user, cfg := w.s.Topic(t); user && (n != 1 || cfg.ReplicationFactor != 1) {
			w.violate("create", "the topic %s was created with %+v", t, cfg)
		}
	}
	var gs []string
	for g := range groups {
		gs = append(gs, g)
	}
	w.end(gs...)
	w.r.Eval(fmt.Sprintf("%+v %s", w.s.Config, shape))
}

// limbo tells if a message that was not delivered can have been lost with the
// cancellation of a subscription that commits automatically.
func (w *kworld) limbo(g, topic, id string, subs []*ksub) bool {
	cancelled := 0
	for _, x := range subs {
		if x.c.group == g && x.c.auto && x.cancelCall != 0 {
			cancelled++
		}
	}
	if cancelled == 0 {
		// A message settled after one that was not is committed with it: it is for those that come next
		for _, x := range subs {
			if x.c.group == g && !x.c.auto {
				return w.before(g, topic, id)
			}
		}
		return false
	}
	return w.before(g, topic, id)
}

// before tells if a message is before what the group committed.
func (w *kworld) before(g, topic, id string) bool {
	for _, y := range w.places(topic)[id] {
		if w.s.Committed(g, topic, int32(y.p)) > y.off {
			return true
		}
	}
	return false
}

// checkLimits checks that the sizes asked are those configured.
func (w *kworld) checkLimits(ctls []*kctl) {
	for _, e := range w.s.Events() {
		if e.Kind != "fetch" {
			continue
		}
		ok := false
		for _, c := range ctls {
			max := c.max
			if max == 0 {
				max = 10e6
			}
			if d := int(e.Max) - max; d >= 0 && d < 1000 {
				ok = true
			}
		}
		if !ok {
			w.violate("max-bytes", "a request asks for %d bytes", e.Max)
			return
		}
	}
}
