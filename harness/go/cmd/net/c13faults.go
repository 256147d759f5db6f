package main

import (
	"context"
	"crypto/tls"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/kafka"
	kafkago "github.com/segmentio/kafka-go"
	"github.com/segmentio/kafka-go/protocol"
	"github.com/segmentio/kafka-go/sasl/plain"

	"verif/fake/kafkad"
	"verif/fake/loop"
)

// kfault is a way for things to go wrong.
type kfault struct {
	name string
	f    func(w *kworld, rng *rand.Rand)
}

func (w *kworld) fault(k kfault) {
	w.note("fault %s", k.name)
	rng := rand.New(rand.NewSource(w.rng.Int63()))
	k.f(w, rng)
	if w.s != nil {
		w.s.Stop()
	}
	w.r.Observe("case_"+k.name, 1)
	w.r.Eval(k.name + fmt.Sprint(w.trace))
}

var kfaults = []kfault{
	{"fetch", func(w *kworld, rng *rand.Rand) {
		w.survive(rng, func(x *ksub) {
			w.s.Fail(protocol.Fetch, x.topic, pick(rng, int16(-1), 1, 2, 3, 5, 6, 7, 9, 13, 29, 56, 74, 76, 78), 1+rng.Intn(5), rng.Intn(2))
		})
	}},
	{"fetch-broken", func(w *kworld, rng *rand.Rand) {
		w.survive(rng, func(x *ksub) {
			w.s.Fail(protocol.Fetch, x.topic, pick(rng, kafkad.KillBefore, kafkad.KillAfter), 1+rng.Intn(4), rng.Intn(2))
		})
	}},
	{"broken", func(w *kworld, rng *rand.Rand) {
		w.survive(rng, func(x *ksub) {
			w.s.KillConns()
		})
	}},
	{"restart", func(w *kworld, rng *rand.Rand) {
		w.survive(rng, func(x *ksub) {
			for i := 0; i < w.s.Nodes; i++ {
				w.s.Down(i)
			}
			<-time.After(time.Duration(rng.Intn(6000)) * time.Millisecond)
			for i := 0; i < w.s.Nodes; i++ {
				if err := w.s.Up(i); err != nil {
					w.r.Undecided(err.Error())
					w.bad.Store(true)
				}
			}
		})
	}},
	{"initialization", func(w *kworld, rng *rand.Rand) {
		w.survive(rng, func(x *ksub) {
			k := pick(rng, protocol.ListOffsets, protocol.Metadata)
			w.s.Fail(k, x.topic, pick(rng, int16(-1), 5, 6, 7, 29, kafkad.KillBefore, kafkad.KillAfter), 1+rng.Intn(6), 0)
			w.s.KillConns()
		})
	}},
	{"group", func(w *kworld, rng *rand.Rand) {
		w.survive(rng, func(x *ksub) {
			for i := 0; i < 1+rng.Intn(2); i++ {
				k := pick(rng, protocol.JoinGroup, protocol.SyncGroup, protocol.Heartbeat, protocol.OffsetFetch, protocol.FindCoordinator)
				w.s.Fail(k, x.c.group, pick(rng, int16(-1), 14, 15, 16, 22, 25, 27, kafkad.KillBefore, kafkad.KillAfter), 1+rng.Intn(3), 0)
			}
			if rng.Intn(2) == 0 {
				w.s.KillConns()
			}
		})
	}},
	{"commit", func(w *kworld, rng *rand.Rand) {
		w.survive(rng, func(x *ksub) {
			w.s.Fail(protocol.OffsetCommit, x.c.group, pick(rng, int16(-1), 14, 16, 22, 25, 27, 28, kafkad.KillBefore, kafkad.KillAfter), 1+rng.Intn(8), rng.Intn(3))
		})
	}},
	{"publish", faultPublish},
	{"publish-broken", faultPublishBroken},
	{"publish-big", func(w *kworld, rng *rand.Rand) {
		w.start(w.config())
		w.s.CreateTopic("t", 1)
		c := w.controller(&kctl{})
		if c == nil {
			return
		}
		for _, n := range []int{100, 900_000, 1_100_000} {
			p := &kpub{topic: "t", msg: extensions.BrokerMessage{Payload: []byte(fmt.Sprintf("m%d %s", n, strings.Repeat("x", n)))}}
			w.mu.Lock()
			w.log[fmt.Sprintf("m%d", n)] = p
			w.mu.Unlock()
			if !w.run("stuck", "publishing a big message", func() { p.err = c.ctl.Publish(context.Background(), "t", p.msg); p.ret = 1 << 62 }) {
				return
			}
			if p.err != nil && n < 1_000_000 {
				w.violate("publish", "a message of %d bytes cannot be published: %v", n, p.err)
			}
		}
		w.checkPublications()
		w.end()
	}},
	{"publish-silence", func(w *kworld, rng *rand.Rand) {
		w.start(w.config())
		w.s.CreateTopic("t", 1)
		c := w.controller(&kctl{})
		if c == nil {
			return
		}
		k := pick(rng, protocol.Produce, protocol.Metadata, protocol.CreateTopics)
		topic := "t"
		if k == protocol.CreateTopics {
			topic = "other"
		}
		w.s.Fail(k, "", kafkad.Silence, 1000, 0)
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(200+rng.Intn(2000))*time.Millisecond)
		defer cancel()
		var p *kpub
		if !w.run("stuck", "the end of a publication whose context is done, on a cluster that is silent on "+k.String(), func() { p = c.publish(ctx, topic) }) {
			return
		}
		p.dupAllowed = true
		if p.err == nil {
			w.violate("publish", "a publication without answer is a success")
		}
		w.s.Heal()
		w.end()
	}},
	{"create", faultCreate},
	{"never-created", func(w *kworld, rng *rand.Rand) {
		// The topic never appears
		w.start(w.config())
		c := w.controller(&kctl{})
		if c == nil {
			return
		}
		w.s.CreateTopic("t", 1)
		w.s.Break("t", 5)
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(rng.Intn(1500))*time.Millisecond)
		defer cancel()
		var err error
		what := "subscription"
		if !w.run("stuck", "the end of a subscription, or publication, whose context is done, on a topic that is not available", func() {
			if rng.Intn(2) == 0 {
				_, err = c.ctl.Subscribe(ctx, "t")
			} else {
				what = "publication"
				err = c.publish(ctx, "t").err
			}
		}) {
			return
		}
		if err == nil {
			w.violate("never-created", "a %s on a topic that is not available is a success", what)
		}
		w.checkPublications()
		w.end()
	}},
	{"silence", func(w *kworld, rng *rand.Rand) {
		w.start(w.config())
		c := w.controller(&kctl{})
		if c == nil {
			return
		}
		k := pick(rng, protocol.CreateTopics, protocol.Metadata)
		w.s.Fail(k, "", kafkad.Silence, 1000, 0)
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(rng.Intn(1500))*time.Millisecond)
		defer cancel()
		var err error
		if !w.run("stuck", "the end of a subscription whose context is done, on a cluster that is silent on "+k.String(), func() { _, err = c.ctl.Subscribe(ctx, "t") }) {
			return
		}
		if err == nil {
			w.violate("silence", "a subscription without answer is a success")
		}
		w.s.Heal()
		w.end()
	}},
	{"new", faultNew},
	{"options", faultOptions},
	{"secure", faultSecure},
	{"other-topic", func(w *kworld, rng *rand.Rand) {
		// What happens to other topics does not matter
		w.start(w.config())
		w.s.CreateTopic("broken", 1)
		w.s.Break("broken", pick(rng, int16(3), 5, 9, 17, 29))
		w.s.CreateTopic("t", 1)
		c := w.controller(&kctl{})
		if c == nil {
			return
		}
		topic := pick(rng, "t", "new")
		x := c.subscribe(topic, nil, true)
		if x == nil {
			return
		}
		w.put(topic, 0, 3)
		if w.wait("undelivered", "the delivery", func() bool { return w.full(x) }) && x.cancel() {
			w.checkReceived(x, false)
			w.end()
		}
	}},
	{"cancel", func(w *kworld, rng *rand.Rand) {
		// Cancelled several times, at any moment, even when nothing answers
		w.start(w.config())
		w.s.CreateTopic("t", 1)
		c := w.controller(&kctl{group: pick(rng, "", "g"), auto: rng.Intn(2) == 0})
		if c == nil {
			return
		}
		w.put("t", 0, pick(rng, 1, 50, 300))
		gate := make(chan struct{})
		x := c.subscribe("t", gate, true)
		if x == nil {
			return
		}
		x.from = map[int]int64{}
		<-time.After(time.Duration(rng.Intn(2500)) * time.Millisecond)
		if rng.Intn(2) == 0 {
			w.s.KillConns()
		}
		if rng.Intn(3) == 0 {
			w.s.Down(0)
			defer func() { _ = w.s.Up(0) }()
		}
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				x.sub.Cancel(context.Background())
			}()
		}
		if !w.run("stuck", "cancelling several times", wg.Wait) {
			return
		}
		close(gate)
		if w.wait("cancel", "the end of the channel", x.isClosed) {
			w.wait("connections", "the end of the connections", func() bool { return w.s.Conns() == 0 })
		}
	}},
	{"independent", func(w *kworld, rng *rand.Rand) {
		// Two subscriptions of a controller, one of which fails, is stalled and cancelled
		w.start(w.config())
		w.s.CreateTopic("a", 1)
		w.s.CreateTopic("b", 1)
		c := w.controller(&kctl{auto: true})
		if c == nil {
			return
		}
		gate := make(chan struct{})
		a := c.subscribe("a", gate, true)
		b := c.subscribe("b", nil, true)
		if a == nil || b == nil {
			return
		}
		w.put("a", 0, 400)
		w.put("b", 0, 20)
		w.s.Fail(protocol.Fetch, "a", 29, 3, 1)
		if !w.wait("undelivered", "the delivery when another subscription is stalled", func() bool { return w.full(b) }) {
			return
		}
		if !a.cancel() {
			return
		}
		close(gate)
		w.put("b", 0, 5)
		if w.wait("undelivered", "the delivery once another subscription is cancelled", func() bool { return w.full(b) }) && b.cancel() {
			w.checkReceived(b, false)
			w.end()
		}
	}},
}

// survive checks that a subscription overcomes something.
func (w *kworld) survive(rng *rand.Rand, f func(x *ksub)) {
	w.start(w.config())
	w.faulty = true
	parts := 1 + rng.Intn(2)
	w.s.CreateTopic("t", parts)
	c := &kctl{group: pick(rng, "", "g", "g"), auto: rng.Intn(2) == 0}
	if c = w.controller(c); c == nil {
		return
	}
	for p := 0; p < parts; p++ {
		w.put("t", p, rng.Intn(5)+1)
	}
	x := c.subscribe("t", nil, true)
	if x == nil {
		return
	}
	if rng.Intn(3) > 0 {
		if !w.wait("undelivered", "the first messages", func() bool { return w.full(x) }) {
			return
		}
	}
	f(x)
	w.note("fault done, %d received", x.len())
	all := func() bool {
		got := map[string]bool{}
		for _, m := range x.list() {
			got[idOf(m.BrokerMessage)] = true
		}
		for id, l := range w.places("t") {
			for _, y := range l {
				if (c.group != "" || y.p == c.partition) && !got[id] && !w.skipped(x, y) {
					return false
				}
			}
		}
		return true
	}
	for i := 0; i < 2; i++ {
		for p := 0; p < parts; p++ {
			w.put("t", p, 1+rng.Intn(4))
		}
		if !w.wait("undelivered", fmt.Sprintf("%s does not receive the messages once the failures are over", c), all) {
			w.note("received %d", x.len())
			return
		}
	}
	w.s.Heal()
	if !x.cancel() {
		return
	}
	w.checkReceived(x, c.group != "")
	if c.group != "" {
		w.checkCommits(c.group, []*ksub{x})
		// What comes next begins where it is committed
		y := c.subscribe("t", nil, true)
		if y == nil {
			return
		}
		w.put("t", 0, 2)
		if w.wait("undelivered", "the messages after what is committed", func() bool { return w.full(y) }) && y.cancel() {
			w.checkReceived(y, false)
		}
	}
	w.end(c.group)
}

// skipped tells if a message was before what the group committed when its
// generation began: it cannot be received again.
func (w *kworld) skipped(x *ksub, y place) bool {
	return x.c.group != "" && !x.c.auto && w.s.Committed(x.c.group, x.topic, int32(y.p)) > y.off
}

func faultPublish(w *kworld, rng *rand.Rand) {
	w.start(w.config())
	w.s.CreateTopic("t", 1+rng.Intn(2))
	c := w.controller(&kctl{})
	if c == nil {
		return
	}
	for i := 0; i < 3; i++ {
		retried := rng.Intn(2) == 0
		var code int16
		if retried {
			code = pick(rng, int16(5), 6, 7, 19, 20, 3)
		} else {
			code = pick(rng, int16(-1), 10, 29, 87, 17, 18)
		}
		n := 1 + rng.Intn(3)
		w.s.Fail(protocol.Produce, "t", code, n, 0)
		var p *kpub
		if !w.run("stuck", "a publication that is refused", func() { p = c.publish(context.Background(), "t") }) {
			return
		}
		if retried && p.err != nil {
			w.violate("publish", "the publication is not retried (error %d, %d times): %v", code, n, p.err)
		}
		if !retried && p.err == nil {
			w.violate("publish", "the publication was refused (error %d), but it is a success", code)
		}
		w.s.Heal()
	}
	p := c.publish(context.Background(), "t")
	if p.err != nil {
		w.violate("publish", "no publication after a failure: %v", p.err)
	}
	w.checkPublications()
	w.end()
}

func faultPublishBroken(w *kworld, rng *rand.Rand) {
	w.start(w.config())
	w.s.CreateTopic("t", 1)
	c := w.controller(&kctl{})
	if c == nil {
		return
	}
	code := pick(rng, kafkad.KillBefore, kafkad.KillAfter)
	w.s.Fail(protocol.Produce, "t", code, 1+rng.Intn(2), 0)
	var p *kpub
	if !w.run("stuck", "a publication whose connection breaks", func() { p = c.publish(context.Background(), "t") }) {
		return
	}
	p.dupAllowed = true
	w.checkPublications()
	w.end()
}

func faultCreate(w *kworld, rng *rand.Rand) {
	w.start(w.config())
	c := w.controller(&kctl{group: pick(rng, "", "g")})
	if c == nil {
		return
	}
	topic := "t"
	code := pick(rng, int16(29), 38, 44, -1, 17)
	if code == 17 {
		topic = pick(rng, "a b", "é", "a/b", strings.Repeat("x", 250), ".")
	} else {
		w.s.Fail(protocol.CreateTopics, "", code, 1, 0)
	}
	var err error
	if rng.Intn(2) == 0 {
		if !w.run("stuck", "a subscription whose topic cannot be created", func() { _, err = c.ctl.Subscribe(context.Background(), topic) }) {
			return
		}
	} else {
		if !w.run("stuck", "a publication whose topic cannot be created", func() { err = c.publish(context.Background(), topic).err }) {
			return
		}
	}
	if err == nil {
		w.violate("create", "the topic %q could not be created (%d), but there is no error", topic, code)
	}
	w.checkPublications()
	w.end("g")
}

// faultNew is about what prevents a controller from being created.
func faultNew(w *kworld, rng *rand.Rand) {
	w.start(w.config())
	test := rng.Intn(3) > 0
	opts := append([]kafka.ControllerOption{kafka.WithConnectionTest(test)}, w.opts...)
	ln, err := net.Listen("tcp", loop.Any())
	if err != nil {
		panic(err)
	}
	closed := ln.Addr().String()
	ln.Close()
	how := rng.Intn(4)
	var addrs []string
	switch how {
	case 0:
		addrs = []string{closed}
	case 1:
		addrs = w.s.Addrs()
		w.s.Fail(protocol.Metadata, "", kafkad.KillBefore, 10, 0)
	case 2:
		addrs = w.s.Addrs()
		w.s.Fail(protocol.Metadata, "", kafkad.Garbage, 10, 0)
	case 3:
		addrs = w.s.Addrs()
		w.s.Fail(protocol.Metadata, "", kafkad.Silence, 10, 0)
	}
	var ctl *kafka.Controller
	if !w.run("stuck", "the creation of a controller", func() { ctl, err = kafka.NewController(addrs, opts...) }) {
		return
	}
	if test && err == nil {
		w.violate("new", "a controller was created without error (case %d)", how)
	}
	if !test && (err != nil || ctl == nil) {
		w.violate("new", "a controller without connection test cannot be created: %v", err)
	}
	if !test && w.s.Opened() > 0 {
		w.violate("new", "a connection was made without connection test")
	}
	w.wait("connections", "the end of the connections of a controller that cannot be created", func() bool { return w.s.Conns() == 0 })
}

// faultOptions is about options that do not make sense.
func faultOptions(w *kworld, rng *rand.Rand) {
	w.start(w.config())
	w.s.CreateTopic("t", 3)
	opts := append([]kafka.ControllerOption(nil), w.opts...)
	hosts := w.s.Addrs()
	how := rng.Intn(5)
	switch how {
	case 0:
		hosts = pick(rng, nil, []string{})
		opts = append(opts, kafka.WithConnectionTest(rng.Intn(2) == 0))
	case 1:
		opts = append(opts, kafka.WithGroupID("g"), kafka.WithPartition(1))
	case 2:
		opts = append(opts, kafka.WithMaxBytes(-1-rng.Intn(100)))
	case 3:
		opts = append(opts, kafka.WithPartition(-1-rng.Intn(100)))
	case 4:
		opts = append(opts, kafka.WithPartition(1<<33))
	}
	var err error
	var panicked any
	if !w.run("stuck", "the use of bad options", func() {
		defer func() { panicked = recover() }()
		var ctl *kafka.Controller
		if ctl, err = kafka.NewController(hosts, opts...); err == nil {
			_, err = ctl.Subscribe(context.Background(), "t")
		}
	}) {
		return
	}
	if panicked != nil {
		w.violate("options", "bad options (case %d) make it panic: %v", how, panicked)
	} else if err == nil {
		w.violate("options", "bad options (case %d) are accepted", how)
	}
	w.end()
}

// faultSecure is about TLS and authentication.
func faultSecure(w *kworld, rng *rand.Rand) {
	cfg := w.config()
	cfg.TLS = nil
	cfg.User, cfg.Pass = "", ""
	if rng.Intn(3) > 0 {
		cfg.TLS = serverTLS()
	}
	if cfg.TLS == nil || rng.Intn(2) == 0 {
		cfg.User, cfg.Pass = "user", "password"
	}
	w.start(cfg)
	w.s.CreateTopic("t", 1)
	good := w.opts
	// A controller that is right first, then one that is not: nothing is shared
	w.opts = good
	c := w.controller(&kctl{group: "g", auto: true})
	if c == nil {
		return
	}
	var opts []kafka.ControllerOption
	what := ""
	if cfg.TLS != nil && rng.Intn(2) == 0 || cfg.User == "" {
		if rng.Intn(2) == 0 {
			what = "without TLS"
		} else {
			what = "with another authority"
			opts = append(opts, kafka.WithTLS(&tls.Config{}))
		}
		if cfg.User != "" {
			opts = append(opts, kafka.WithSasl(plain.Mechanism{Username: cfg.User, Password: cfg.Pass}))
		}
	} else {
		if cfg.TLS != nil {
			opts = append(opts, kafka.WithTLS(clientTLS()))
		}
		if rng.Intn(2) == 0 {
			what = "without authentication"
		} else {
			what = "with a bad password"
			opts = append(opts, kafka.WithSasl(plain.Mechanism{Username: cfg.User, Password: "bad"}))
		}
	}
	var err error
	if !w.run("stuck", "the creation of a controller "+what, func() { _, err = kafka.NewController(w.s.Addrs(), opts...) }) {
		return
	}
	if err == nil {
		w.violate("secure", "a controller was created %s", what)
	}
	var ctl *kafka.Controller
	ctl, err = kafka.NewController(w.s.Addrs(), append(opts, kafka.WithConnectionTest(false))...)
	if err != nil {
		w.violate("secure", "a controller without connection test cannot be created: %v", err)
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()
	if !w.run("stuck", "the use of a controller "+what, func() {
		if err = ctl.Publish(ctx, "t", extensions.BrokerMessage{Payload: []byte("x")}); err == nil {
			w.violate("secure", "a publication was done %s", what)
		}
		if _, err = ctl.Subscribe(ctx, "t"); err == nil {
			w.violate("secure", "a subscription was done %s", what)
		}
	}) {
		return
	}
	// The first one still works
	x := c.subscribe("t", nil, true)
	if x == nil {
		return
	}
	p := c.publish(context.Background(), "t")
	if p.err != nil {
		w.violate("publish", "the publication fails: %v", p.err)
		return
	}
	if w.wait("undelivered", "the delivery", func() bool { return w.full(x) }) && x.cancel() {
		w.checkReceived(x, false)
		w.checkPublications()
		w.wait("connections", "the end of the connections", func() bool { return w.s.Conns() == 0 })
	}
	_ = kafkago.DefaultDialer
}
