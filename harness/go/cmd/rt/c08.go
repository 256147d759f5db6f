package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/middlewares"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"

	"verif/mon"
	"verif/side"
)

func init() { checks["C08"] = c08 }

// c08 runs under the race detector: the reports of the detector are collected
// by the driver.
func c08(r *mon.Report) {
	for i := 0; i < r.N(640, 10000); i++ {
		name := fmt.Sprintf("mix/%d", i)
		if r.Mine(name, i) {
			c08mix(r, r.Rng("C08", name))
		}
	}
	for i := 0; i < r.N(640, 10000); i++ {
		name := fmt.Sprintf("wrapper/%d", i)
		if r.Mine(name, i) {
			c08wrapper(r, r.Rng("C08", name))
		}
	}
	for i := 0; i < r.N(640, 10000); i++ {
		name := fmt.Sprintf("cancel/%d", i)
		if r.Mine(name, i) {
			c08cancel(r, r.Rng("C08", name))
		}
	}
}

// timedCtx gives a context that is done soon, or already.
func timedCtx(rng *rand.Rand) (context.Context, context.CancelFunc) {
	switch rng.Intn(4) {
	case 0:
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		return ctx, cancel
	default:
		return context.WithTimeout(context.Background(), time.Duration(rng.Intn(3000))*time.Microsecond)
	}
}

// lockedRng is a random source for several goroutines.
type lockedRng struct {
	mu  sync.Mutex
	rng *rand.Rand
}

func (l *lockedRng) fork() *rand.Rand {
	l.mu.Lock()
	defer l.mu.Unlock()
	return rand.New(rand.NewSource(l.rng.Int63()))
}

// discardLogger uses what it is given.
type discardLogger struct{ n *atomic.Int64 }

func (l discardLogger) log(ctx context.Context, msg string, info []extensions.LogInfo) {
	l.n.Add(int64(len(msg) + len(val(ctx, extensions.ContextKeyIsChannel))))
	for _, i := range info {
		l.n.Add(int64(len(fmt.Sprint(i.Value))))
	}
}

func (l discardLogger) Info(ctx context.Context, msg string, i ...extensions.LogInfo) {
	l.log(ctx, msg, i)
}
func (l discardLogger) Warning(ctx context.Context, msg string, i ...extensions.LogInfo) {
	l.log(ctx, msg, i)
}
func (l discardLogger) Error(ctx context.Context, msg string, i ...extensions.LogInfo) {
	l.log(ctx, msg, i)
}

// c08mix: many goroutines use the same controllers in all the ways, handlers
// included, on brokers that are wrapped or not.
func c08mix(r *mon.Report, rng *rand.Rand) {
	before := mon.CountStacks("verif/gen/", "pkg/extensions")
	lr := &lockedRng{rng: rng}
	j := mon.NewJitter(lr.fork(), pick(rng, 0, 20, 200))
	b := mon.NewBroker(j, pick(rng, 0, 1, 16))
	b.OnPublish = func(ctx context.Context, _ string, _ extensions.BrokerMessage) error {
		if ctx.Err() != nil && j.Intn(2) == 0 {
			return ctx.Err()
		}
		return nil
	}
	b.OnSubscribe = func(ctx context.Context, _ string) error {
		if ctx.Err() != nil && j.Intn(2) == 0 {
			return ctx.Err()
		}
		return nil
	}
	var logged atomic.Int64
	logger := discardLogger{&logged}
	type ctl struct {
		role string
		c    *side.Ctl
	}
	ver := 2 + rng.Intn(2)
	var ctls []ctl
	for i := 0; i < 1+rng.Intn(3); i++ {
		role := pick(rng, "App", "User")
		var bc extensions.BrokerController = b.View(fmt.Sprint(i))
		if rng.Intn(3) == 0 {
			bc = versioning.NewWrapper(bc, versioning.WithDefaultVersion(side.DocVersion(ver)))
		}
		o := side.Options{}
		if rng.Intn(2) == 0 {
			o.Logger = logger
		}
		if rng.Intn(2) == 0 {
			o.Middlewares = []extensions.Middleware{middlewares.Recovery(logger), middlewares.Logging(logger)}
		}
		ctls = append(ctls, ctl{role, side.New(ver, role, bc, o)})
	}
	var events, depth atomic.Int64
	var anyOp func(rng *rand.Rand, nested bool)
	inHandler := func(ctx context.Context, _ side.Msg, _ any) error {
		events.Add(1)
		rng := lr.fork()
		if rng.Intn(4) == 0 && depth.Load() < 40 {
			depth.Add(1)
			anyOp(rng, true)
			depth.Add(-1)
		}
		if rng.Intn(8) == 0 {
			return errInjected
		}
		return nil
	}
	anyOp = func(rng *rand.Rand, nested bool) {
		c := ctls[rng.Intn(len(ctls))]
		in := side.Select(ver, func(o *side.Op) bool { return o.Receiver() == c.role })
		in = in[:1+rng.Intn(min(3, len(in)))]
		out := side.Select(ver, func(o *side.Op) bool { return o.Sender == c.role && !o.Dyn })
		o := in[rng.Intn(len(in))]
		ctx := context.Background()
		cancel := func() {}
		if rng.Intn(3) == 0 {
			ctx, cancel = timedCtx(rng)
		}
		defer cancel()
		m := randMsg(rng, int64(rng.Intn(1000)))
		m.Corr = pick(rng, "", "c1", "c2")
		m.ReplyTo = "dyn.x"
		events.Add(1)
		switch pick(rng, "sub", "sub", "sub", "unsub", "unsub", "suball", "unsuball", "close", "send", "send", "send", "request", "reply") {
		case "sub":
			p := randParams(rng, o)
			var h side.Handler = inHandler
			if o.Asks && ver == 3 && rng.Intn(2) == 0 {
				h = func(ctx context.Context, m side.Msg, raw any) error {
					return c.c.Reply(ctx, o, raw, func(p side.Msg) side.Msg { return side.Msg{ID: m.ID, Corr: p.Corr} })
				}
			}
			if err := c.c.Sub(ctx, o, p, h); err != nil && !errors.Is(err, extensions.ErrAlreadySubscribedChannel) &&
				!errors.Is(err, context.Canceled) && !errors.Is(err, context.DeadlineExceeded) {
				r.Violate("subscribe-error", err.Error(), nil)
			}
		case "unsub":
			c.c.Unsub(ctx, o, randParams(rng, o))
		case "suball":
			_ = c.c.SubAll(ctx, func(_ string, ctx context.Context, m side.Msg, raw any) error { return inHandler(ctx, m, raw) })
		case "unsuball":
			c.c.UnsubAll(ctx)
		case "close":
			c.c.Close(ctx)
		case "send":
			o := out[rng.Intn(len(out))]
			_ = c.c.Send(ctx, o, randParams(rng, o), "", m)
		case "request":
			ctx, cancel := timedCtx(rng)
			defer cancel()
			if ver == 3 {
				asks := side.Select(3, func(o *side.Op) bool { return o.Asks && o.Sender == c.role })
				o := asks[rng.Intn(len(asks))]
				_, _ = c.c.Request(ctx, o, randParams(rng, o), m)
			} else if c.role == "User" {
				o, reply, params, rparams := requestOp(rng, 2)
				_, _ = doRequest(ctx, c.c, o, reply, params, rparams, m)
			}
		case "reply":
			if ver == 3 {
				asks := side.Select(3, func(o *side.Op) bool { return o.Asks && o.Receiver() == c.role })
				o := asks[rng.Intn(len(asks))]
				for _, x := range ctls {
					if x.role == o.Sender {
						_ = c.c.Reply(ctx, o, x.c.Build(o, m).Interface(), func(p side.Msg) side.Msg { return side.Msg{ID: m.ID, Corr: p.Corr} })
					}
				}
			}
		}
	}
	var wg sync.WaitGroup
	goroutines := 2 + rng.Intn(7)
	each := 5 + rng.Intn(20)
	for g := 0; g < goroutines; g++ {
		rng := lr.fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < each; i++ {
				anyOp(rng, false)
			}
		}()
	}
	what := fmt.Sprintf("%d goroutines on %d controllers v%d", goroutines, len(ctls), ver)
	if !ended(r, "deadlock", what, mon.Wait(mon.Go(wg.Wait))) {
		return
	}
	// Handlers may still be doing operations
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	if depth.Load() != 0 {
		r.Violate("deadlock", what+": handlers do not end:\n"+mon.BlockedStacks("verif/gen/"), nil)
		return
	}
	if !ended(r, "deadlock", what+": close", mon.Wait(mon.Go(func() {
		for _, c := range ctls {
			c.c.Close(context.Background())
		}
	}))) {
		return
	}
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	b.Lock()
	for _, s := range b.Subs {
		if s.Cleanups != 1 {
			r.Violate("leaked-subscription", fmt.Sprintf("%s: cleaned up %d times once all is closed: %.300s", what, s.Cleanups, s.HistoryLocked()), nil)
			break
		}
	}
	b.Unlock()
	if after := mon.CountStacks("verif/gen/", "pkg/extensions"); after > before {
		r.Violate("leaked-goroutine", fmt.Sprintf("%s: %d goroutines are left:\n%s", what, after-before,
			mon.BlockedStacks("verif/gen/", "pkg/extensions")), nil)
	}
	r.Observe("events", int(events.Load()))
	r.Observe("broker_subscriptions", len(b.AllSubs()))
	r.Observe("publications", len(b.AllPubs()))
	r.Eval(fmt.Sprintf("mix/%d/%d/%d/%d", ver, goroutines, len(b.AllSubs()), len(b.AllPubs())))
	r.Sample(map[string]any{"scenario": r.Scenario(), "goroutines": goroutines, "events": events.Load(), "subscriptions": len(b.AllSubs())})
}

// c08wrapper: many goroutines use the versioning wrapper.
func c08wrapper(r *mon.Report, rng *rand.Rand) {
	before := mon.CountStacks("verif/gen/", "pkg/extensions")
	lr := &lockedRng{rng: rng}
	j := mon.NewJitter(lr.fork(), pick(rng, 0, 20, 200))
	b := mon.NewBroker(j, pick(rng, 0, 1, 16))
	var options []versioning.WrapperOption
	if rng.Intn(2) == 0 {
		options = append(options, versioning.WithDefaultVersion("1"))
	}
	w := versioning.NewWrapper(b, options...)
	ctxOf := func(ctx context.Context, version string) context.Context {
		return context.WithValue(ctx, extensions.ContextKeyIsVersion, version)
	}
	var received atomic.Int64
	var wg sync.WaitGroup
	goroutines := 2 + rng.Intn(7)
	for g := 0; g < goroutines; g++ {
		g := g
		rng := lr.fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			type held struct {
				ch  string
				sub extensions.BrokerChannelSubscription
			}
			var mine []held
			for i := 0; i < 25; i++ {
				v := pick(rng, "1", "2", "3", fmt.Sprint(g))
				ch := pick(rng, "a", "b")
				switch k := rng.Intn(6); {
				case k < 2:
					sub, err := w.Subscribe(ctxOf(context.Background(), v), ch)
					if err != nil {
						if !errors.Is(err, extensions.ErrAlreadySubscribedChannel) {
							r.Violate("subscribe-error", err.Error(), nil)
						}
						continue
					}
					mine = append(mine, held{ch, sub})
					wg.Add(1)
					go func() {
						defer wg.Done()
						for m := range sub.MessagesChannel() {
							received.Add(1)
							m.Ack()
						}
					}()
				case k < 4 && len(mine) > 0:
					n := rng.Intn(len(mine))
					ctx, cancel := context.Background(), func() {}
					if rng.Intn(4) == 0 {
						ctx, cancel = timedCtx(rng)
					}
					mine[n].sub.Cancel(ctx)
					cancel()
					mine = append(mine[:n], mine[n+1:]...)
				default:
					if err := w.Publish(ctxOf(context.Background(), v), ch, extensions.BrokerMessage{Payload: []byte("x")}); err != nil {
						r.Violate("publish-error", err.Error(), nil)
					}
				}
			}
			for _, h := range mine {
				h.sub.Cancel(context.Background())
			}
		}()
	}
	if !ended(r, "deadlock", fmt.Sprintf("%d goroutines on the versioning wrapper", goroutines), mon.Wait(mon.Go(wg.Wait))) {
		return
	}
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	if l := b.Live(); len(l) != 0 {
		r.Violate("leaked-subscription", fmt.Sprintf("%d broker subscriptions left after the last version is cancelled", len(l)), nil)
	}
	if after := mon.CountStacks("verif/gen/", "pkg/extensions"); after > before {
		r.Violate("leaked-goroutine", fmt.Sprintf("%d goroutines are left:\n%s", after-before, mon.BlockedStacks("pkg/extensions")), nil)
	}
	r.Observe("wrapper_broker_subscriptions", len(b.AllSubs()))
	r.Observe("wrapper_received", int(received.Load()))
	r.Eval(fmt.Sprintf("wrapper/%d/%d/%d", goroutines, len(b.AllSubs()), received.Load()))
}

// c08cancel: cancellations of subscriptions from everywhere while messages are
// transmitted by several goroutines of the broker.
func c08cancel(r *mon.Report, rng *rand.Rand) {
	before := mon.CountStacks("verif/gen/", "pkg/extensions")
	lr := &lockedRng{rng: rng}
	cleanups := make([]atomic.Int64, 4)
	var received, transmitted atomic.Int64
	var wg sync.WaitGroup
	for k := range cleanups {
		k := k
		sub := extensions.NewBrokerChannelSubscription(
			make(chan extensions.AcknowledgeableBrokerMessage, pick(rng, 0, 1, 8)), make(chan any, 1))
		j := mon.NewJitter(lr.fork(), pick(rng, 0, 20, 100))
		sub.WaitForCancellationAsync(func() { j.Pause(); cleanups[k].Add(1) })
		for t := 1 + rng.Intn(3); t > 0; t-- {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 40; i++ {
					m := extensions.NewAcknowledgeableBrokerMessage(extensions.BrokerMessage{Payload: []byte(fmt.Sprint(i))}, noAck{})
					sub.TransmitReceivedMessage(m)
					transmitted.Add(1)
					j.Pause()
				}
			}()
		}
		for n := 1 + rng.Intn(2); n > 0; n-- {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for m := range sub.MessagesChannel() {
					m := m
					received.Add(1)
					go m.Ack()
					m.Nak()
				}
			}()
		}
		for c := 1 + rng.Intn(3); c > 0; c-- {
			rng := lr.fork()
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := rng.Intn(40); i > 0; i-- {
					j.Pause()
					runtime.Gosched()
				}
				ctx, cancel := context.Background(), func() {}
				if rng.Intn(3) == 0 {
					ctx, cancel = timedCtx(rng)
				}
				sub.Cancel(ctx)
				cancel()
			}()
		}
	}
	if !ended(r, "deadlock", "cancellations during transmissions", mon.Wait(mon.Go(wg.Wait))) {
		return
	}
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	var counts []string
	for k := range cleanups {
		counts = append(counts, fmt.Sprint(cleanups[k].Load()))
		if cleanups[k].Load() != 1 {
			r.Violate("cleanup", fmt.Sprintf("clean up called %d times", cleanups[k].Load()), nil)
		}
	}
	if after := mon.CountStacks("verif/gen/", "pkg/extensions"); after > before {
		r.Violate("leaked-goroutine", fmt.Sprintf("%d goroutines are left:\n%s", after-before, mon.BlockedStacks("pkg/extensions")), nil)
	}
	r.Observe("cancel_transmitted", int(transmitted.Load()))
	r.Observe("cancel_received", int(received.Load()))
	r.Eval(fmt.Sprintf("cancel/%d/%d/%s", transmitted.Load(), received.Load(), strings.Join(counts, "")))
}

type noAck struct{}

func (noAck) AckMessage() {}
func (noAck) NakMessage() {}
