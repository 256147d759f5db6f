package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/middlewares"

	"verif/mon"
	"verif/side"
)

func init() { checks["C02"] = c02 }

// outcomes of a message: what happens in its processing.
var c02outcomes = []string{
	"ok", "ok", "handler-error", "mw-error-before", "mw-error-after", "mw-swallow", "malformed",
	"handler-panic", "mw-panic", "errh-acks", "errh-naks", "errh-acks-naks", "mw-replaces-error", "handler-error-errh-slow",
}

type c02rec struct {
	id         int64
	outcome    string
	d          *mon.Delivery
	handlerEnd int64
	handlers   int
	errCalls   []error
	errTopics  []string
	errMsgs    []string
	errAt      []int64
	errExit    []int64
	beforeEnd  []string // Settlements made before the end of the handler
}

func c02(r *mon.Report) {
	n := r.N(640, 12000)
	for i := 0; i < n; i++ {
		ver := 2 + i%2
		name := fmt.Sprintf("v%d/%d", ver, i)
		if r.Mine(name, i/2) {
			c02scenario(r, ver, r.Rng("C02", name))
		}
	}
	for i := 0; i < r.N(320, 3200); i++ {
		ver := 2 + i%2
		name := fmt.Sprintf("v%d/reply/%d", ver, i)
		if r.Mine(name, i/2) {
			c02reply(r, ver, r.Rng("C02", name))
		}
	}
}

// idOf finds the ID of a raw message, in the trace header or in its payload.
func traceID(m *extensions.BrokerMessage) int64 {
	var id int64
	if _, err := fmt.Sscanf(string(m.Headers["trace"]), "#%d", &id); err != nil {
		return -1
	}
	return id
}

func c02scenario(r *mon.Report, ver int, rng *rand.Rand) {
	ctx := context.Background()
	j := mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), pick(rng, 0, 50))
	b := mon.NewBroker(j, pick(rng, 0, 1, 8))
	errHandlerFail, errMw, errAfter, errReplaced := errors.New("handler failed"), errors.New("middleware failed"),
		errors.New("middleware failed after"), errors.New("replaced")

	var mu sync.Mutex
	recs := map[int64]*c02rec{}
	get := func(id int64) *c02rec {
		mu.Lock()
		defer mu.Unlock()
		return recs[id]
	}
	withRecovery := rng.Intn(3) > 0
	withErrHandler := rng.Intn(5) > 0
	inner := func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) error {
		rec := get(traceID(msg))
		if rec == nil {
			return next(ctx)
		}
		switch rec.outcome {
		case "mw-error-before":
			return errMw
		case "mw-error-after":
			if err := next(ctx); err != nil {
				return err
			}
			return errAfter
		case "mw-swallow":
			_ = next(ctx)
			return nil
		case "mw-panic":
			panic("middleware panic")
		case "mw-replaces-error":
			if err := next(ctx); err != nil {
				return errReplaced
			}
			return nil
		}
		if rec.id%2 == 0 {
			return next(ctx)
		}
		return nil
	}
	opts := side.Options{}
	if withRecovery {
		opts.Middlewares = append(opts.Middlewares, middlewares.Recovery(extensions.DummyLogger{}))
	}
	opts.Middlewares = append(opts.Middlewares, passMiddlewares(rng, j)...)
	opts.Middlewares = append(opts.Middlewares, inner)
	opts.Middlewares = append(opts.Middlewares, passMiddlewares(rng, j)...)
	if withErrHandler {
		opts.ErrorHandler = func(_ context.Context, topic string, msg *extensions.AcknowledgeableBrokerMessage, err error) {
			at := mon.Tick()
			if msg == nil {
				r.Violate("error-handler-message", "error handler called without message", topic)
				return
			}
			rec := get(traceID(&msg.BrokerMessage))
			if rec == nil {
				r.Violate("error-handler-message", "error handler called with an unknown message: "+msg.String(), topic)
				return
			}
			switch rec.outcome {
			case "errh-acks":
				msg.Ack()
			case "errh-naks":
				msg.Nak()
			case "errh-acks-naks":
				msg.Ack()
				msg.Nak()
				msg.Ack()
			case "handler-error-errh-slow":
				for i := 0; i < 5; i++ {
					j.Pause()
				}
			}
			mu.Lock()
			defer mu.Unlock()
			rec.errAt = append(rec.errAt, at)
			rec.errCalls = append(rec.errCalls, err)
			rec.errTopics = append(rec.errTopics, topic)
			rec.errMsgs = append(rec.errMsgs, string(msg.Payload))
			rec.errExit = append(rec.errExit, mon.Tick())
		}
	}

	ops := side.Select(ver, func(o *side.Op) bool { return o.Trace && !o.Dyn })
	type target struct {
		op     *side.Op
		params []string
	}
	var targets []target
	ctls := map[string]*side.Ctl{}
	for _, role := range []string{"App", "User"} {
		ctls[role] = side.New(ver, role, b.View(role), opts)
	}
	seen := map[string]bool{}
	for k := 0; k < 1+rng.Intn(3); k++ {
		o := ops[rng.Intn(len(ops))]
		p := randParams(rng, o)
		if seen[o.Addr(p)] {
			continue
		}
		seen[o.Addr(p)] = true
		targets = append(targets, target{o, p})
		h := func(_ context.Context, m side.Msg, _ any) error {
			var id int64
			if m.Trace != nil {
				_, _ = fmt.Sscanf(*m.Trace, "#%d", &id)
			}
			rec := get(id)
			if rec == nil {
				r.Violate("unknown-message", "handler called with an unknown message "+m.String(), nil)
				return nil
			}
			j.Pause()
			b.Lock()
			for _, s := range rec.d.Settled {
				rec.beforeEnd = append(rec.beforeEnd, s.Kind)
			}
			b.Unlock()
			mu.Lock()
			rec.handlers++
			rec.handlerEnd = mon.Tick()
			mu.Unlock()
			switch rec.outcome {
			case "handler-panic":
				panic(fmt.Errorf("handler panic"))
			case "handler-error", "mw-swallow", "mw-replaces-error", "errh-acks", "errh-naks", "errh-acks-naks", "handler-error-errh-slow":
				return errHandlerFail
			}
			return nil
		}
		if err := ctls[o.Receiver()].Sub(ctx, o, p, h); err != nil {
			r.Violate("subscribe-error", err.Error(), nil)
			return
		}
	}

	// Messages
	n := 4 + rng.Intn(20)
	var list []*c02rec
	seq := ""
	for i := 1; i <= n; i++ {
		t := targets[rng.Intn(len(targets))]
		o := c02outcomes[rng.Intn(len(c02outcomes))]
		if strings.Contains(o, "panic") && !withRecovery {
			o = "handler-error"
		}
		seq += o[:2] + o[len(o)-2:]
		var bm extensions.BrokerMessage
		if o == "malformed" {
			bm = malformed(rng)
		} else {
			m := randMsg(rng, int64(i))
			m.Trace = nil
			bm = t.op.Raw(m)
		}
		bm.Headers["trace"] = []byte(fmt.Sprintf("#%d", i))
		rec := &c02rec{id: int64(i), outcome: o}
		mu.Lock()
		recs[int64(i)] = rec
		b.Lock()
		for _, s := range b.Subs {
			if s.Channel == t.op.Addr(t.params) {
				b.Unlock()
				rec.d = s.Inject(bm)
				b.Lock()
				break
			}
		}
		b.Unlock()
		mu.Unlock()
		list = append(list, rec)
	}
	done := mon.Go(func() {
		for b.Pending() {
			j.Pause()
			mon.Settle()
			if !b.Pending() {
				return
			}
			if mon.Settle() && b.Pending() {
				return
			}
		}
	})
	if !ended(r, "stuck", "delivery", mon.Wait(done)) {
		return
	}
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	mu.Lock()
	defer mu.Unlock()
	b.Lock()
	defer b.Unlock()
	for _, rec := range list {
		desc := fmt.Sprintf("message #%d with outcome %q (recovery middleware: %v, error handler: %v, payload %q)", rec.id, rec.outcome, withRecovery, withErrHandler, rec.d.Msg.Payload)
		if rec.d.Returned == 0 {
			r.Violate("not-received", desc+" has not been received: the subscription does not go on", nil)
			continue
		}
		r.Observe("messages", 1)
		r.Observe("outcome "+rec.outcome, 1)
		want, wantErr := "nak", true
		var is error
		switch rec.outcome {
		case "ok":
			want, wantErr = "ack", false
		case "mw-error-after":
			want, is = "ack", errAfter
		case "mw-swallow":
			want, wantErr = "ack", false
		case "handler-error", "handler-error-errh-slow", "errh-naks":
			is = errHandlerFail
		case "errh-acks", "errh-acks-naks":
			is = errHandlerFail
			if withErrHandler {
				want = "ack"
			}
		case "mw-error-before":
			is = errMw
		case "mw-replaces-error":
			is = errReplaced
		}
		if len(rec.d.Settled) != 1 {
			r.Violate("settled-"+rec.outcome, fmt.Sprintf("%s settled %d times: %v", desc, len(rec.d.Settled), rec.d.Settled), nil)
		} else {
			s := rec.d.Settled[0]
			if s.Kind != want {
				r.Violate("settled-"+rec.outcome, fmt.Sprintf("%s: %s instead of %s", desc, s.Kind, want), nil)
			}
			if len(rec.beforeEnd) > 0 || (rec.handlers > 0 && s.At < rec.handlerEnd) {
				r.Violate("settled-early", desc+" settled before the end of its handler", nil)
			}
			if s.Kind == "nak" && len(rec.errAt) == 1 && s.At < rec.errAt[0] {
				r.Violate("nak-before-error-handler", desc+" rejected before the error handler", nil)
			}
			if s.Kind == "nak" && rec.outcome != "errh-naks" && len(rec.errExit) == 1 && s.At < rec.errExit[0] {
				r.Violate("nak-before-error-handler", desc+" rejected before the end of the error handler", nil)
			}
			r.Observe(s.Kind, 1)
		}
		wantCalls := 1
		if rec.outcome == "malformed" || rec.outcome == "mw-error-before" || rec.outcome == "mw-panic" {
			wantCalls = 0
		}
		if rec.handlers != wantCalls {
			r.Violate("handler-calls", fmt.Sprintf("%s: %d handler calls instead of %d", desc, rec.handlers, wantCalls), nil)
		}
		if !withErrHandler {
			continue
		}
		if !wantErr && len(rec.errCalls) > 0 {
			r.Violate("error-handler-called", fmt.Sprintf("%s: error handler called with %v", desc, rec.errCalls), nil)
		}
		if !wantErr {
			continue
		}
		if len(rec.errCalls) != 1 {
			r.Violate("error-handler-calls", fmt.Sprintf("%s: error handler called %d times (%v)", desc, len(rec.errCalls), rec.errCalls), nil)
			continue
		}
		if rec.errCalls[0] == nil || (is != nil && !errors.Is(rec.errCalls[0], is)) {
			r.Violate("error-handler-error", fmt.Sprintf("%s: error handler called with error %v instead of %v", desc, rec.errCalls[0], is), nil)
		}
		if rec.errTopics[0] != rec.d.Sub.Channel {
			r.Violate("error-handler-topic", fmt.Sprintf("%s: error handler called with topic %q instead of %q", desc, rec.errTopics[0], rec.d.Sub.Channel), nil)
		}
		if rec.errMsgs[0] != string(rec.d.Msg.Payload) {
			r.Violate("error-handler-message", fmt.Sprintf("%s: error handler called with payload %q", desc, rec.errMsgs[0]), nil)
		}
	}
	r.Eval(fmt.Sprintf("%d%v%v%d%s", ver, withRecovery, withErrHandler, len(targets), seq))
	r.Sample(map[string]any{"scenario": r.Scenario(), "messages": n, "outcomes": seq})
	b.Unlock()
	mu.Unlock()
	for _, c := range ctls {
		c.Close(ctx)
	}
	mu.Lock()
	b.Lock()
}

// c02reply checks the acknowledgement of the messages consumed by a request.
func c02reply(r *mon.Report, ver int, rng *rand.Rand) {
	j := mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), pick(rng, 0, 50))
	b := mon.NewBroker(j, pick(rng, 0, 1, 8))
	b.NoFanOut = true
	o, reply, params, rparams := requestOp(rng, ver)
	ctl := side.New(ver, o.Sender, b.View("requester"), side.Options{})
	corr := fmt.Sprintf("id-%d", rng.Intn(1000))
	req := side.Msg{ID: 1, Corr: corr, ReplyTo: "dyn.reply"}
	addr := reply.Addr(rparams)
	if reply.Dyn {
		addr = req.ReplyTo
	}
	// Noise, the reply, then more noise
	var msgs []extensions.BrokerMessage
	match := -1
	before := rng.Intn(5)
	for k := 0; k <= before+rng.Intn(3); k++ {
		m := randMsg(rng, int64(100+k))
		m.Corr = fmt.Sprintf("foreign-%d", k)
		switch {
		case k == before:
			m.Corr = corr
			match = k
			msgs = append(msgs, reply.Raw(m))
		case reply.Corr != "" && rng.Intn(4) == 0:
			msgs = append(msgs, malformed(rng))
		default:
			msgs = append(msgs, reply.Raw(m))
		}
	}
	if reply.Corr == "" {
		match = 0
	}
	var items []*mon.Delivery
	b.OnPublish = func(context.Context, string, extensions.BrokerMessage) error {
		for _, m := range msgs {
			items = append(items, b.InjectAll(addr, m)...)
		}
		return nil
	}
	var got side.Msg
	var err error
	done := mon.Go(func() { got, err = doRequest(context.Background(), ctl, o, reply, params, rparams, req) })
	if !ended(r, "stuck-request", fmt.Sprintf("request on %s with %d replies, the %dth being the expected one", o.Key(), len(msgs), match), mon.Wait(done)) {
		return
	}
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	if err != nil {
		r.Violate("request-error", fmt.Sprintf("request on %s: %v", o.Key(), err), nil)
		return
	}
	b.Lock()
	defer b.Unlock()
	if len(items) != len(msgs) {
		r.Violate("reply-subscription", fmt.Sprintf("request on %s: no subscription on %q when the request is published", o.Key(), addr), nil)
		return
	}
	for k := 0; k <= match; k++ {
		if len(items[k].Settled) != 1 || items[k].Settled[0].Kind != "ack" {
			r.Violate("reply-settled", fmt.Sprintf("request on %s: reply #%d (%s), where #%d is returned, has settlements %v instead of one ack", o.Key(), k, msgs[k].String(), match, items[k].Settled), got.String())
		}
		r.Observe("replies_acked", 1)
	}
	for k := match + 1; k < len(items); k++ {
		if len(items[k].Settled) != 0 {
			r.Violate("reply-settled", fmt.Sprintf("request on %s: message #%d, after the returned one (#%d), has settlements %v", o.Key(), k, match, items[k].Settled), nil)
		}
	}
	r.Eval(fmt.Sprintf("reply/%s/%d/%d", o.Key(), match, len(msgs)))
}

// requestOp chooses an operation for requests, with the one of the replies.
func requestOp(rng *rand.Rand, ver int) (o, reply *side.Op, params, rparams []string) {
	if ver == 3 {
		l := side.Select(3, func(o *side.Op) bool { return o.Asks })
		o = l[rng.Intn(len(l))]
		return o, o.Reply, randParams(rng, o), nil
	}
	o = side.Ops["v2.AskOp"]
	l := side.Select(2, func(o *side.Op) bool { return o.Sender == "App" && o.Corr != "" })
	reply = l[rng.Intn(len(l))]
	return o, reply, nil, randParams(rng, reply)
}

// doRequest makes a request.
func doRequest(ctx context.Context, c *side.Ctl, o, reply *side.Op, params, rparams []string, m side.Msg) (side.Msg, error) {
	if c.Ver == 3 {
		return c.Request(ctx, o, params, m)
	}
	return c.WaitFor(ctx, reply, rparams, m.Corr, func(ctx context.Context) error {
		return c.Send(ctx, o, params, "", m)
	})
}
