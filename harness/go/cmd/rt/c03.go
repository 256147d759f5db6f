package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verif/mon"
	"verif/side"
)

func init() { checks["C03"] = c03 }

// act is what a middleware does with a message.
type act struct {
	Pre     string // "", "header", "payload", "replace", "strip", "fail"
	Ctx     bool   // Gives a new context to next
	Ended   bool   // With Ctx, it is ended
	Next    int    // Number of calls of next
	OnErr   string // "return", "swallow", "replace"
	Post    string // "", "fail", "modify"
	Respawn bool   // Calls next from another goroutine (and waits for it)
}

func (a act) String() string {
	return fmt.Sprintf("{pre:%s ctx:%v next:%d onErr:%s post:%s}", a.Pre, a.Ctx, a.Next, a.OnErr, a.Post)
}

type mwErr struct {
	level int
	when  string
	id    int64
}

func (e *mwErr) Error() string {
	return fmt.Sprintf("error %s of middleware %d on %d", e.when, e.level, e.id)
}

type ctxLevel int

// script is what happens to a message, with what is observed and expected.
type script struct {
	id    int64
	kind  string // publication, reception, reply
	acts  []act
	cbErr error
	// Observed
	trace []string
	// Expected
	want    []string
	wantErr error
	final   rawState
	called  bool // The callback has to be called
}

type rawState struct {
	headers map[string]string
	payload map[string]any
}

func stateOf(m *extensions.BrokerMessage) rawState {
	s := rawState{headers: map[string]string{}}
	for k, v := range m.Headers {
		s.headers[k] = string(v)
	}
	_ = json.Unmarshal(m.Payload, &s.payload)
	return s
}

func (s rawState) String() string {
	b, _ := json.Marshal(s.payload)
	var hs []string
	for k, v := range s.headers {
		hs = append(hs, k+"="+v)
	}
	sort.Strings(hs)
	return strings.Join(hs, ",") + " " + string(b)
}

func (s *rawState) apply(kind string, level int) {
	tag := fmt.Sprintf("|%s%d", kind[:1], level)
	switch kind {
	case "header", "modify":
		s.headers["trace"] += tag
	case "payload":
		t, _ := s.payload["text"].(string)
		s.payload["text"] = t + tag
	case "replace":
		t, _ := s.payload["text"].(string)
		s.payload["text"] = t + tag
		s.headers["trace"] += tag
	case "strip":
		t, _ := s.payload["text"].(string)
		s.payload["text"] = t + tag
		s.headers = map[string]string{}
	}
}

func (s rawState) store(kind string, m *extensions.BrokerMessage) {
	b, _ := json.Marshal(s.payload)
	switch kind {
	case "replace":
		h := map[string][]byte{}
		for k, v := range s.headers {
			h[k] = []byte(v)
		}
		*m = extensions.BrokerMessage{Headers: h, Payload: b}
	case "payload":
		m.Payload = b
	case "strip":
		m.Payload, m.Headers = b, map[string][]byte{}
	default:
		m.Headers["trace"] = []byte(s.headers["trace"])
	}
}

func ctxState(ctx context.Context) string {
	var s string
	for i := 0; i < 8; i++ {
		if v := ctx.Value(ctxLevel(i)); v != nil {
			s += fmt.Sprint(v)
		}
	}
	if ctx.Err() != nil {
		s += "!"
	}
	return s
}

// expect computes what has to happen with the message.
func (s *script) expect(msg extensions.BrokerMessage) {
	n := len(s.acts)
	called := make([]bool, n+1)
	st := stateOf(&msg)
	var run func(level int, ctx string) error
	run = func(level int, ctx string) error {
		if called[level] {
			return nil
		}
		called[level] = true
		if level == n {
			if s.kind == "reply" {
				return nil
			}
			s.called = true
			s.want = append(s.want, fmt.Sprintf("callback %s [%s]", st, ctx))
			return s.cbErr
		}
		s.want = append(s.want, fmt.Sprintf("enter %d %s [%s]", level, st, ctx))
		err := s.actions(level, func(kind string) {
			st.apply(kind, level)
		}, func(withCtx bool) error {
			c := ctx
			if withCtx {
				c = strings.TrimSuffix(c, "!") + fmt.Sprint(level)
				if s.acts[level].Ended || strings.HasSuffix(ctx, "!") {
					c += "!"
				}
			}
			return run(level+1, c)
		})
		s.want = append(s.want, fmt.Sprintf("exit %d %v", level, err))
		if err != nil {
			return err
		}
		return run(level+1, ctx)
	}
	s.wantErr = run(0, "")
	s.final = st
}

// actions does what the script says for a level.
func (s *script) actions(level int, modify func(kind string), next func(withCtx bool) error) error {
	a := s.acts[level]
	switch a.Pre {
	case "":
	case "fail":
		return s.errOf(level, "before")
	default:
		modify(a.Pre)
	}
	for k := 0; k < a.Next; k++ {
		err := next(a.Ctx)
		if err != nil {
			switch a.OnErr {
			case "return":
				return err
			case "replace":
				return s.errOf(level, "replacing")
			}
		}
	}
	switch a.Post {
	case "fail":
		return s.errOf(level, "after")
	case "modify":
		modify("modify")
	}
	return nil
}

var errCache sync.Map

func (s *script) errOf(level int, when string) error {
	k := fmt.Sprintf("%p/%d/%s", s, level, when)
	v, _ := errCache.LoadOrStore(k, &mwErr{level, when, s.id})
	return v.(error)
}

func randActs(rng *rand.Rand, n int, failures bool) []act {
	var res []act
	for i := 0; i < n; i++ {
		a := act{
			Pre:   pick(rng, "", "", "header", "payload", "replace", "strip"),
			Ctx:   rng.Intn(2) == 0,
			Ended: rng.Intn(5) == 0,
			Next:  pick(rng, 0, 1, 1, 1, 2),
			OnErr: pick(rng, "return", "return", "swallow", "replace"),
			Post:  pick(rng, "", "", "", "modify"),
		}
		if failures {
			if rng.Intn(9) == 0 {
				a.Pre = "fail"
			}
			if rng.Intn(9) == 0 {
				a.Post = "fail"
			}
		}
		res = append(res, a)
	}
	return res
}

func c03(r *mon.Report) {
	n := r.N(1600, 32000)
	for i := 0; i < n; i++ {
		ver := 2 + i%2
		name := fmt.Sprintf("v%d/%d", ver, i)
		if r.Mine(name, i/2) {
			c03scenario(r, ver, r.Rng("C03", name))
		}
	}
}

func idOfPayload(p []byte) int64 {
	var v struct {
		ID int64 `json:"id"`
	}
	_ = json.Unmarshal(p, &v)
	return v.ID
}

func c03scenario(r *mon.Report, ver int, rng *rand.Rand) {
	j := mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), pick(rng, 0, 30))
	b := mon.NewBroker(j, pick(rng, 0, 1, 8))
	n := rng.Intn(6)
	var mu sync.Mutex
	scripts := map[int64]*script{}
	get := func(id int64) *script {
		mu.Lock()
		defer mu.Unlock()
		return scripts[id]
	}
	record := func(s *script, format string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		s.trace = append(s.trace, fmt.Sprintf(format, a...))
	}
	var mws []extensions.Middleware
	for level := 0; level < n; level++ {
		level := level
		mws = append(mws, func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) error {
			s := get(idOfPayload(msg.Payload))
			if s == nil {
				r.Violate("unknown-message", fmt.Sprintf("middleware %d called with unknown message %s", level, msg), nil)
				return nil
			}
			record(s, "enter %d %s [%s]", level, stateOf(msg), ctxState(ctx))
			err := s.actions(level, func(kind string) {
				st := stateOf(msg)
				st.apply(kind, level)
				st.store(kind, msg)
			}, func(withCtx bool) error {
				c := ctx
				if withCtx {
					c = context.WithValue(ctx, ctxLevel(level), fmt.Sprint(level))
					if s.acts[level].Ended {
						ended, cancel := context.WithCancel(c)
						cancel()
						c = ended
					}
				}
				j.Pause()
				return next(c)
			})
			record(s, "exit %d %v", level, err)
			return err
		})
	}
	pubErrs := map[int64]error{}
	b.OnPublish = func(ctx context.Context, _ string, msg extensions.BrokerMessage) error {
		s := get(idOfPayload(msg.Payload))
		if s == nil {
			return nil
		}
		record(s, "callback %s [%s]", stateOf(&msg), ctxState(ctx))
		return s.cbErr
	}
	errHandled := map[int64][]error{}
	opts := side.Options{Middlewares: mws, ErrorHandler: func(_ context.Context, _ string, msg *extensions.AcknowledgeableBrokerMessage, err error) {
		mu.Lock()
		defer mu.Unlock()
		id := idOfPayload(msg.Payload)
		errHandled[id] = append(errHandled[id], err)
	}}

	usable := func(o *side.Op) bool { return o.Trace && o.Text && !o.Dyn }
	var wg sync.WaitGroup
	ctx := context.Background()
	ctls := map[string]*side.Ctl{}
	for _, role := range []string{"App", "User"} {
		ctls[role] = side.New(ver, role, b.View(role), opts)
	}
	newScript := func(id int64, kind string) *script {
		s := &script{id: id, kind: kind, acts: randActs(rng, n, rng.Intn(2) == 0)}
		if kind != "reply" && rng.Intn(4) == 0 {
			s.cbErr = fmt.Errorf("callback error on %d", id)
		}
		mu.Lock()
		scripts[id] = s
		mu.Unlock()
		return s
	}
	sig := ""
	count := 0

	// Publications
	ops := side.Select(ver, usable)
	type pub struct {
		s      *script
		o      *side.Op
		params []string
		m      side.Msg
		err    error
	}
	var pubs []*pub
	for i := 0; i < rng.Intn(6); i++ {
		o := ops[rng.Intn(len(ops))]
		m := randMsg(rng, int64(1000+i))
		m.Trace = side.Str("t")
		if o.Corr != "" {
			m.Corr = fmt.Sprintf("c%d", i)
		}
		p := &pub{s: newScript(m.ID, "publication"), o: o, params: randParams(rng, o), m: m}
		p.s.expect(o.Raw(m))
		pubs = append(pubs, p)
	}
	b.NoFanOut = true
	for _, p := range pubs {
		p := p
		wg.Add(1)
		go func() {
			defer wg.Done()
			p.err = ctls[p.o.Sender].Send(ctx, p.o, p.params, "", p.m)
		}()
	}

	// Receptions
	type rcv struct {
		s   *script
		o   *side.Op
		d   []*mon.Delivery
		got []side.Msg
	}
	var rcvs []*rcv
	byID := map[int64]*rcv{}
	subscribed := map[string]bool{}
	for i := 0; i < rng.Intn(6); i++ {
		o := ops[rng.Intn(len(ops))]
		params := randParams(rng, o)
		m := randMsg(rng, int64(2000+i))
		m.Trace = side.Str("t")
		x := &rcv{s: newScript(m.ID, "reception"), o: o}
		mu.Lock()
		byID[m.ID] = x
		mu.Unlock()
		x.s.expect(o.Raw(m))
		addr := o.Addr(params)
		if !subscribed[addr] {
			subscribed[addr] = true
			if err := ctls[o.Receiver()].Sub(ctx, o, params, func(ctx context.Context, m side.Msg, _ any) error {
				x := func() *rcv { mu.Lock(); defer mu.Unlock(); return byID[m.ID] }()
				if x == nil {
					r.Violate("unknown-message", "handler called with "+m.String(), nil)
					return nil
				}
				bm := x.o.Raw(m)
				record(x.s, "callback %s [%s]", stateOf(&bm), ctxState(ctx))
				return x.s.cbErr
			}); err != nil {
				r.Violate("subscribe-error", err.Error(), nil)
				return
			}
		}
		x.d = b.InjectAll(addr, o.Raw(m))
		rcvs = append(rcvs, x)
	}

	// Requests and replies
	type req struct {
		q, a    *script
		o       *side.Op
		err     error
		got     side.Msg
		expects side.Msg
	}
	var reqs []*req
	for i := 0; i < rng.Intn(4); i++ {
		var o, reply *side.Op
		var params, rparams []string
		for {
			o, reply, params, rparams = requestOp(rng, ver)
			if usable(o) && usable(reply) && reply.Corr != "" {
				break
			}
		}
		q := side.Msg{ID: int64(3000 + i), Trace: side.Str("t"), Corr: fmt.Sprintf("corr%d", i)}
		a := side.Msg{ID: int64(4000 + i), Trace: side.Str("t"), Text: side.Str("x"), Corr: q.Corr}
		x := &req{q: newScript(q.ID, "publication"), a: newScript(a.ID, "reply"), o: o}
		x.q.expect(o.Raw(q))
		x.a.expect(reply.Raw(a))
		owner := fmt.Sprintf("req%d", i)
		ctl := side.New(ver, o.Sender, b.View(owner), opts)
		reqs = append(reqs, x)
		cctx, cancel := context.WithCancel(ctx)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer cancel()
			x.got, x.err = doRequest(cctx, ctl, o, reply, params, rparams, q)
		}()
		wg.Add(1)
		go func() { // The reply, once the subscription exists
			defer wg.Done()
			mon.Poll(cctx, func() bool {
				for _, s := range b.Live() {
					if s.Owner == owner {
						s.Inject(reply.Raw(a))
						return true
					}
				}
				j.Pause()
				return false
			})
		}()
	}

	if !ended(r, "stuck", fmt.Sprintf("%d publications, %d receptions and %d requests with %d middlewares", len(pubs), len(rcvs), len(reqs), n), mon.Wait(mon.Go(wg.Wait))) {
		return
	}
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	mu.Lock()
	check := func(s *script, what string) bool {
		count++
		sig += fmt.Sprint(s.kind, s.acts, s.cbErr != nil)
		r.Observe(s.kind, 1)
		r.Observe("middleware_executions", strings.Count(strings.Join(s.trace, "\n"), "enter"))
		if strings.Join(s.trace, "\n") != strings.Join(s.want, "\n") {
			r.Violate("trace-"+s.kind, fmt.Sprintf("%s of %d through middlewares %v: observed\n  %s\ninstead of\n  %s", what, s.id, s.acts,
				strings.Join(s.trace, "\n  "), strings.Join(s.want, "\n  ")), nil)
			return false
		}
		return true
	}
	same := func(got, want error) bool {
		if want == nil {
			return got == nil
		}
		return errors.Is(got, want)
	}
	for _, p := range pubs {
		if check(p.s, "publication") && !same(p.err, p.s.wantErr) {
			r.Violate("error-publication", fmt.Sprintf("publication of %d through %v: error %v instead of %v", p.s.id, p.s.acts, p.err, p.s.wantErr), nil)
		}
	}
	_ = pubErrs
	for _, x := range rcvs {
		if !check(x.s, "reception") {
			continue
		}
		errs := errHandled[x.s.id]
		if x.s.wantErr == nil && len(errs) > 0 {
			r.Violate("error-reception", fmt.Sprintf("reception of %d through %v: unexpected error %v", x.s.id, x.s.acts, errs), nil)
		}
		if x.s.wantErr != nil && (len(errs) != 1 || !same(errs[0], x.s.wantErr)) {
			r.Violate("error-reception", fmt.Sprintf("reception of %d through %v: errors %v instead of %v", x.s.id, x.s.acts, errs, x.s.wantErr), nil)
		}
	}
	for _, x := range reqs {
		if !check(x.q, "request") {
			continue
		}
		if x.q.wantErr != nil {
			if !same(x.err, x.q.wantErr) {
				r.Violate("error-request", fmt.Sprintf("request %d through %v: error %v instead of %v", x.q.id, x.q.acts, x.err, x.q.wantErr), nil)
			}
			continue
		}
		if !check(x.a, "reply") {
			continue
		}
		if !same(x.err, x.a.wantErr) {
			r.Violate("error-reply", fmt.Sprintf("reply %d through %v: error %v instead of %v", x.a.id, x.a.acts, x.err, x.a.wantErr), nil)
			continue
		}
		if x.err != nil {
			continue
		}
		bm := x.o.Raw(x.got)
		if s := stateOf(&bm); s.String() != x.a.final.String() {
			r.Violate("content-reply", fmt.Sprintf("reply %d through %v: got %s instead of %s", x.a.id, x.a.acts, s, x.a.final), nil)
		}
	}
	mu.Unlock()
	if n > 0 && count > 0 {
		r.Eval(fmt.Sprint(ver, sig))
		if len(pubs) > 0 {
			r.Sample(map[string]any{"scenario": r.Scenario(), "middlewares": fmt.Sprint(pubs[0].s.acts), "trace": pubs[0].s.trace})
		}
	} else {
		r.Eval("")
	}
	for _, c := range ctls {
		c.Close(ctx)
	}
}
