package main

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verif/mon"
	"verif/side"
)

func init() { checks["C04"] = c04 }

type userKey struct{}

// ctxLogger gives the context of each log.
type ctxLogger struct {
	f func(level string, ctx context.Context, msg string)
}

func (l ctxLogger) Info(ctx context.Context, msg string, _ ...extensions.LogInfo) {
	l.f("info", ctx, msg)
}
func (l ctxLogger) Warning(ctx context.Context, msg string, _ ...extensions.LogInfo) {
	l.f("warning", ctx, msg)
}
func (l ctxLogger) Error(ctx context.Context, msg string, _ ...extensions.LogInfo) {
	l.f("error", ctx, msg)
}

func val(ctx context.Context, k extensions.ContextKey) string {
	v := ctx.Value(k)
	if v == nil {
		return "<none>"
	}
	s, ok := v.(string)
	if !ok {
		return fmt.Sprintf("<%T>", v)
	}
	return s
}

// sameText tells if the text is one of the textual forms of the message (whose
// headers have no order).
func sameText(text string, m extensions.BrokerMessage) bool {
	if len(text) != len(m.String()) {
		return false
	}
	if !strings.HasSuffix(text, fmt.Sprintf("\"payload\":%s}", m.Payload)) {
		return false
	}
	for k, v := range m.Headers {
		if !strings.Contains(text, fmt.Sprintf("%q:%q", k, string(v))) {
			return false
		}
	}
	return true
}

// expectation about a context.
type expectation struct {
	ver       int
	role      string
	channel   string
	direction string
	raw       *extensions.BrokerMessage
	corr      string // "-": not looked at
	user      string // Value of the caller
}

func c04(r *mon.Report) {
	n := r.N(1000, 16000)
	for i := 0; i < n; i++ {
		ver := 2 + i%2
		name := fmt.Sprintf("v%d/%d", ver, i)
		if r.Mine(name, i/2) {
			c04scenario(r, ver, r.Rng("C04", name))
		}
	}
	for i := 0; i < r.N(200, 2000); i++ {
		if name := fmt.Sprintf("wrapper/%d", i); r.Mine(name, i) {
			c04wrapper(r, r.Rng("C04", name))
		}
		if name := fmt.Sprintf("helpers/%d", i); r.Mine(name, i) {
			c04helpers(r, r.Rng("C04", name))
		}
	}
}

func c04scenario(r *mon.Report, ver int, rng *rand.Rand) {
	j := mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), pick(rng, 0, 30, 100))
	b := mon.NewBroker(j, pick(rng, 0, 1, 8))
	b.NoFanOut = true
	var observed int
	var omu sync.Mutex
	check := func(where string, ctx context.Context, e expectation) {
		omu.Lock()
		observed++
		omu.Unlock()
		bad := func(k extensions.ContextKey, want string) {
			r.Violate(where+"-"+string(k), fmt.Sprintf("%s on %q: context has %q = %q instead of %q", where, e.channel, k, val(ctx, k), want), fmt.Sprintf("%+v", e))
		}
		if val(ctx, extensions.ContextKeyIsVersion) != side.DocVersion(e.ver) {
			bad(extensions.ContextKeyIsVersion, side.DocVersion(e.ver))
		}
		if val(ctx, extensions.ContextKeyIsProvider) != strings.ToLower(e.role) {
			bad(extensions.ContextKeyIsProvider, strings.ToLower(e.role))
		}
		if val(ctx, extensions.ContextKeyIsChannel) != e.channel {
			bad(extensions.ContextKeyIsChannel, e.channel)
		}
		if e.direction != "-" && val(ctx, extensions.ContextKeyIsDirection) != e.direction {
			bad(extensions.ContextKeyIsDirection, e.direction)
		}
		if e.raw != nil && !sameText(val(ctx, extensions.ContextKeyIsBrokerMessage), *e.raw) {
			bad(extensions.ContextKeyIsBrokerMessage, e.raw.String())
		}
		if e.corr != "-" && e.corr != "" && val(ctx, extensions.ContextKeyIsCorrelationID) != e.corr {
			bad(extensions.ContextKeyIsCorrelationID, e.corr)
		}
		if e.corr == "" && val(ctx, extensions.ContextKeyIsCorrelationID) != "<none>" {
			bad(extensions.ContextKeyIsCorrelationID, "<none>")
		}
		if e.user != "" && ctx.Value(userKey{}) != e.user {
			r.Violate(where+"-caller", fmt.Sprintf("%s on %q: the value given by the caller in its context is %v instead of %q", where, e.channel, ctx.Value(userKey{}), e.user), nil)
		}
		if err := ctx.Err(); err != nil {
			r.Violate(where+"-done", fmt.Sprintf("%s on %q: the context is already done: %v", where, e.channel, err), nil)
		}
	}

	// What is expected for each message
	var mu sync.Mutex
	mwWant := map[string]expectation{} // By ID and role
	get := func(id int64, role string) (expectation, bool) {
		mu.Lock()
		defer mu.Unlock()
		e, ok := mwWant[fmt.Sprintf("%d/%s", id, role)]
		return e, ok
	}
	put := func(id int64, role string, e expectation) {
		mu.Lock()
		defer mu.Unlock()
		mwWant[fmt.Sprintf("%d/%s", id, role)] = e
	}
	logWant := func(role string) func(level string, ctx context.Context, msg string) {
		return func(level string, ctx context.Context, msg string) {
			if strings.HasPrefix(msg, "Closed") {
				return
			}
			// Every log is about a channel
			check("log", ctx, expectation{ver: ver, role: role, channel: fmt.Sprint(ctx.Value(extensions.ContextKeyIsChannel)), direction: "-", corr: "-"})
			if !strings.HasPrefix(val(ctx, extensions.ContextKeyIsChannel), fmt.Sprintf("rt%d.", ver)) && val(ctx, extensions.ContextKeyIsChannel) != "dyn.reply" {
				r.Violate("log-channel", fmt.Sprintf("log %q with channel %q", msg, val(ctx, extensions.ContextKeyIsChannel)), nil)
			}
		}
	}
	options := func(role string) side.Options {
		var mws []extensions.Middleware
		for k := 0; k < 1+rng.Intn(2); k++ {
			mws = append(mws, func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) error {
				j.Pause()
				e, ok := get(idOfPayload(msg.Payload), role)
				if !ok {
					if len(msg.Payload) > 0 && msg.Payload[0] == '!' { // Malformed
						check("middleware", ctx, expectation{ver: ver, role: role, channel: string(msg.Payload[1:]), direction: "reception", raw: msg, corr: "-"})
						return nil
					}
					r.Violate("unknown-message", "middleware of "+role+" called with "+msg.String(), nil)
					return nil
				}
				if e.direction == "publication" {
					e.raw = msg
				}
				check("middleware", ctx, e)
				return next(ctx)
			})
		}
		return side.Options{Middlewares: mws, Logger: ctxLogger{logWant(role)},
			ErrorHandler: func(ctx context.Context, topic string, msg *extensions.AcknowledgeableBrokerMessage, _ error) {
				check("error-handler", ctx, expectation{ver: ver, role: role, channel: topic, direction: "reception", raw: &msg.BrokerMessage, corr: "-"})
			}}
	}
	ctls := map[string]*side.Ctl{}
	for _, role := range []string{"App", "User"} {
		ctls[role] = side.New(ver, role, b.View(role), options(role))
	}

	// The broker
	b.OnPublish = func(ctx context.Context, channel string, msg extensions.BrokerMessage) error {
		for _, role := range []string{"App", "User"} {
			if e, ok := get(idOfPayload(msg.Payload), role); ok && e.direction == "publication" {
				e.raw = &msg
				check("broker-publish", ctx, e)
				if channel != e.channel {
					r.Violate("channel", fmt.Sprintf("published on %q instead of %q", channel, e.channel), nil)
				}
			}
		}
		return nil
	}
	b.OnSubscribe = func(ctx context.Context, channel string) error {
		check("broker-subscribe", ctx, expectation{ver: ver, role: val(ctx, extensions.ContextKeyIsProvider), channel: channel, direction: "-", corr: "-"})
		if p := val(ctx, extensions.ContextKeyIsProvider); p != "app" && p != "user" {
			r.Violate("provider", "provider "+p, nil)
		}
		return nil
	}

	ops := side.Select(ver, func(o *side.Op) bool { return !o.Dyn })
	var wg sync.WaitGroup
	sig := ""
	// Messages published by the handlers, by ID of the message they handle
	type forwarded struct {
		o      *side.Op
		params []string
		m      side.Msg
	}
	forward := map[int64]*forwarded{}
	receptions := 1 + rng.Intn(8)
	receivers := make([]*side.Op, receptions)
	for i := range receivers {
		receivers[i] = ops[rng.Intn(len(ops))]
		if rng.Intn(2) == 0 {
			continue
		}
		o := ops[rng.Intn(len(ops))]
		if o.Sender != receivers[i].Receiver() {
			continue
		}
		f := &forwarded{o, randParams(rng, o), randMsg(rng, int64(5000+i))}
		e := expectation{ver: ver, role: o.Sender, channel: o.Addr(f.params), direction: "publication", corr: "-"}
		if o.Corr != "" {
			f.m.Corr = fmt.Sprintf("forwarded%d", i)
			e.corr = f.m.Corr
		}
		put(f.m.ID, o.Sender, e)
		forward[int64(2000+i)] = f
		sig += "f" + e.channel
	}
	// Receptions
	subscribed := map[string]bool{}
	for i, o := range receivers {
		o := o
		params := randParams(rng, o)
		addr := o.Addr(params)
		sig += "r" + addr
		m := randMsg(rng, int64(2000+i))
		if o.Corr != "" && rng.Intn(3) > 0 {
			m.Corr = fmt.Sprintf("recv%d", i)
		}
		raw := o.Raw(m)
		put(m.ID, o.Receiver(), expectation{ver: ver, role: o.Receiver(), channel: addr, direction: "reception", raw: &raw, corr: "-"})
		if !subscribed[addr] {
			subscribed[addr] = true
			uctx := context.WithValue(context.Background(), userKey{}, addr)
			if err := ctls[o.Receiver()].Sub(uctx, o, params, func(ctx context.Context, m side.Msg, _ any) error {
				if m.ID < 2000 || m.ID >= 3000 {
					return nil
				}
				raw := o.Raw(m)
				corr := m.Corr
				check("handler", ctx, expectation{ver: ver, role: o.Receiver(), channel: addr, direction: "reception", raw: &raw, corr: corr})
				if forward[m.ID] != nil { // Publish with the context of the received message
					f := forward[m.ID]
					if err := ctls[o.Receiver()].Send(ctx, f.o, f.params, "", f.m); err != nil {
						r.Violate("send-error", err.Error(), nil)
					}
				}
				if m.ID%3 == 0 {
					return fmt.Errorf("handler error")
				}
				return nil
			}); err != nil {
				r.Violate("subscribe-error", err.Error(), nil)
				return
			}
		}
		b.InjectAll(addr, raw)
		if rng.Intn(4) == 0 {
			b.InjectAll(addr, extensions.BrokerMessage{Headers: map[string][]byte{"h": []byte("x")}, Payload: []byte("!" + addr)})
		}
	}
	// Publications
	type live struct {
		cancel context.CancelFunc
		kept   context.Context
	}
	for i := 0; i < rng.Intn(8); i++ {
		o := ops[rng.Intn(len(ops))]
		params := randParams(rng, o)
		sig += "p" + o.Addr(params)
		m := randMsg(rng, int64(1000+i))
		if o.Corr != "" {
			m.Corr = fmt.Sprintf("sent%d", i)
		}
		raw := o.Raw(m)
		user := fmt.Sprintf("user%d", i)
		put(m.ID, o.Sender, expectation{ver: ver, role: o.Sender, channel: o.Addr(params), direction: "publication", raw: &raw, corr: m.Corr, user: user})
		wg.Add(1)
		go func() {
			defer wg.Done()
			cctx, cancel := context.WithCancel(context.WithValue(context.Background(), userKey{}, user))
			if err := ctls[o.Sender].Send(cctx, o, params, "", m); err != nil {
				r.Violate("send-error", err.Error(), nil)
			}
			cancel()
			for _, p := range b.AllPubs() {
				if idOfPayload(p.Msg.Payload) == m.ID && p.Ctx.Err() == nil {
					r.Violate("publish-cancellation", "the context given to the broker does not end with the one of the caller", nil)
				}
			}
		}()
	}
	// Requests
	for i := 0; i < rng.Intn(4); i++ {
		o, reply, params, rparams := requestOp(rng, ver)
		sig += "q" + o.Key() + reply.Key()
		q := side.Msg{ID: int64(3000 + i), Corr: fmt.Sprintf("req%d", i), ReplyTo: "dyn.reply"}
		a := randMsg(rng, int64(4000+i))
		a.Corr = q.Corr
		raddr := reply.Addr(rparams)
		if reply.Dyn {
			raddr = q.ReplyTo
		}
		qraw, araw := o.Raw(q), reply.Raw(a)
		user := fmt.Sprintf("requester%d", i)
		qcorr := ""
		if o.Corr != "" {
			qcorr = q.Corr
		}
		if reply.Corr == "" {
			a.Corr = ""
		}
		put(q.ID, o.Sender, expectation{ver: ver, role: o.Sender, channel: o.Addr(params), direction: "publication", raw: &qraw, corr: qcorr, user: user})
		acorr := a.Corr
		if acorr == "" {
			acorr = "-"
		}
		put(a.ID, o.Sender, expectation{ver: ver, role: o.Sender, channel: raddr, direction: "wait-for", raw: &araw, corr: acorr})
		owner := fmt.Sprintf("req%d", i)
		opts := options(o.Sender)
		opts.Logger = ctxLogger{func(level string, ctx context.Context, msg string) {
			check("log", ctx, expectation{ver: ver, role: o.Sender, channel: raddr, direction: "wait-for", corr: "-"})
		}}
		ctl := side.New(ver, o.Sender, b.View(owner), opts)
		wg.Add(2)
		cctx, cancel := context.WithCancel(context.WithValue(context.Background(), userKey{}, user))
		go func() {
			defer wg.Done()
			defer cancel()
			if got, err := doRequest(cctx, ctl, o, reply, params, rparams, q); err != nil {
				r.Violate("request-error", err.Error(), nil)
			} else if got.ID != a.ID {
				r.Violate("request-reply", fmt.Sprintf("got %s instead of %s", got, a), nil)
			}
		}()
		go func() {
			defer wg.Done()
			mon.Poll(cctx, func() bool {
				for _, s := range b.Live() {
					if s.Owner == owner {
						s.Inject(araw)
						return true
					}
				}
				j.Pause()
				return false
			})
		}()
	}
	if !ended(r, "stuck", "operations", mon.Wait(mon.Go(wg.Wait))) {
		return
	}
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	for _, c := range ctls {
		c.Close(context.Background())
	}
	omu.Lock()
	defer omu.Unlock()
	r.Observe("contexts_checked", observed)
	r.Eval(fmt.Sprint(ver, sig))
	r.Sample(map[string]any{"scenario": r.Scenario(), "operations": sig, "contexts_checked": observed})
}
