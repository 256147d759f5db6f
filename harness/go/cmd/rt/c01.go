package main

import (
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"sync"
	"sync/atomic"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verif/mon"
	"verif/side"
)

func init() { checks["C01"] = c01 }

type call struct {
	Msg        side.Msg
	Start, End int64
}

// subRec is a subscription made by a controller, as seen by its user.
type subRec struct {
	owner              string
	ctl                *side.Ctl
	op                 *side.Op
	params             []string
	addr               string
	index              int // Among the subscriptions of this owner on this address
	mu                 sync.Mutex
	calls              []call
	active             int32
	overlap            bool
	unsubCall, unsubOK int64
}

func (s *subRec) handler(j *mon.Jitter, fail func(m side.Msg) error) side.Handler {
	return func(_ context.Context, m side.Msg, _ any) error {
		if atomic.AddInt32(&s.active, 1) > 1 {
			s.overlap = true
		}
		c := call{Msg: m, Start: mon.Tick()}
		j.Pause()
		s.mu.Lock()
		c.End = mon.Tick()
		s.calls = append(s.calls, c)
		s.mu.Unlock()
		atomic.AddInt32(&s.active, -1)
		if fail != nil {
			return fail(m)
		}
		return nil
	}
}

// passMiddlewares are middlewares that only perturb the schedule.
func passMiddlewares(rng *rand.Rand, j *mon.Jitter) []extensions.Middleware {
	var res []extensions.Middleware
	for i := rng.Intn(3); i > 0; i-- {
		callNext := rng.Intn(2) == 0
		res = append(res, func(ctx context.Context, _ *extensions.BrokerMessage, next extensions.NextMiddleware) error {
			j.Pause()
			if callNext {
				err := next(ctx)
				j.Pause()
				return err
			}
			return nil
		})
	}
	return res
}

func c01(r *mon.Report) {
	n := r.N(1000, 30000)
	for i := 0; i < n; i++ {
		ver := 2 + i%2
		name := fmt.Sprintf("v%d/%d", ver, i)
		if !r.Mine(name, i/2) {
			continue
		}
		c01scenario(r, ver, r.Rng("C01", name))
	}
}

func c01scenario(r *mon.Report, ver int, rng *rand.Rand) {
	ctx := context.Background()
	j := mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), pick(rng, 0, 20, 200))
	b := mon.NewBroker(j, pick(rng, 0, 1, 2, 8, 64))

	// Controllers
	ctls := map[string]*side.Ctl{}
	errHandled := int64(0)
	for _, role := range []string{"App", "User"} {
		for k := 0; k < 1+rng.Intn(2); k++ {
			owner := fmt.Sprintf("%s%d", role, k)
			ctls[owner] = side.New(ver, role, b.View(owner), side.Options{
				Middlewares: passMiddlewares(rng, j),
				ErrorHandler: func(context.Context, string, *extensions.AcknowledgeableBrokerMessage, error) {
					atomic.AddInt64(&errHandled, 1)
				},
			})
		}
	}

	// Subscriptions
	ops := side.Select(ver, func(o *side.Op) bool { return !o.Dyn })
	var recs []*subRec
	taken := map[string]int{}
	live := map[string]bool{}
	errFail := errors.New("handler failure")
	failOn := func(m side.Msg) error {
		if m.ID%7 == 3 {
			return errFail
		}
		return nil
	}
	subscribe := func(owner string, o *side.Op, params []string) *subRec {
		rec := &subRec{owner: owner, ctl: ctls[owner], op: o, params: params, addr: o.Addr(params)}
		k := owner + " " + rec.addr
		if live[k] {
			return nil
		}
		rec.index = taken[k]
		taken[k]++
		live[k] = true
		if err := rec.ctl.Sub(ctx, o, params, rec.handler(j, failOn)); err != nil {
			r.Violate("subscribe-error", fmt.Sprintf("subscribing %s on %q: %v", owner, rec.addr, err), nil)
			return nil
		}
		recs = append(recs, rec)
		return rec
	}
	nsubs := 2 + rng.Intn(6)
	focus := ops[rng.Intn(len(ops))] // So that several subscriptions share operations
	for len(recs) < nsubs {
		o := focus
		if rng.Intn(3) > 0 {
			o = ops[rng.Intn(len(ops))]
		}
		var owners []string
		for _, k := range keys(ctls) {
			if ctls[k].Role == o.Receiver() {
				owners = append(owners, k)
			}
		}
		if subscribe(owners[rng.Intn(len(owners))], o, randParams(rng, o)) == nil {
			nsubs--
		}
	}
	initial := append([]*subRec{}, recs...)

	// Publishers
	var id atomic.Int64
	var wg sync.WaitGroup
	npub := 1 + rng.Intn(4)
	for p := 0; p < npub; p++ {
		prng := rand.New(rand.NewSource(rng.Int63()))
		count := 3 + prng.Intn(12)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < count; k++ {
				rec := initial[prng.Intn(len(initial))]
				m := randMsg(prng, id.Add(1))
				switch prng.Intn(6) {
				case 0:
					b.InjectAll(rec.addr, malformed(prng))
				case 1:
					m.Corr = fmt.Sprintf("c%d", m.ID)
					b.InjectAll(rec.addr, rec.op.Raw(m))
				default:
					var owners []string
					for _, k := range keys(ctls) {
						if ctls[k].Role == rec.op.Sender {
							owners = append(owners, k)
						}
					}
					if err := ctls[owners[prng.Intn(len(owners))]].Send(ctx, rec.op, rec.params, "", m); err != nil {
						r.Violate("send-error", fmt.Sprintf("sending on %q: %v", rec.addr, err), m.String())
					}
				}
				j.Pause()
			}
		}()
	}

	// Unsubscriptions, then maybe new subscriptions
	type resub struct {
		rec   *subRec
		again bool
	}
	var todo []resub
	for _, rec := range initial {
		if rng.Intn(3) == 0 {
			todo = append(todo, resub{rec, rng.Intn(2) == 0})
		}
	}
	var late []*subRec
	wg.Add(1)
	go func() {
		defer wg.Done()
		for _, t := range todo {
			for k := 0; k < 5; k++ {
				j.Pause()
			}
			t.rec.mu.Lock()
			t.rec.unsubCall = mon.Tick()
			t.rec.mu.Unlock()
			t.rec.ctl.Unsub(ctx, t.rec.op, t.rec.params)
			t.rec.mu.Lock()
			t.rec.unsubOK = mon.Tick()
			t.rec.mu.Unlock()
			late = append(late, t.rec)
			delete(live, t.rec.owner+" "+t.rec.addr)
			if t.again {
				subscribe(t.rec.owner, t.rec.op, t.rec.params)
			}
		}
	}()

	if !ended(r, "stuck", "publications and unsubscriptions", mon.Wait(mon.Go(wg.Wait))) {
		return
	}
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	// Late messages on the ended subscriptions
	subsOf := func(rec *subRec) *mon.Sub {
		k := 0
		for _, s := range b.AllSubs() {
			if s.Owner == rec.owner && s.Channel == rec.addr {
				if k == rec.index {
					return s
				}
				k++
			}
		}
		return nil
	}
	const lateID = int64(1) << 40
	lateDone := mon.Go(func() {
		for _, rec := range late {
			if s := subsOf(rec); s != nil {
				s.BCS.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(
					rec.op.Raw(side.Msg{ID: lateID}), &mon.Delivery{Sub: s}))
			}
		}
	})
	if !ended(r, "late-transmission", "transmitting after an unsubscription", mon.Wait(lateDone)) {
		return
	}
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}

	// Verdict
	h := fnv.New64a()
	events, handled := 0, 0
	for _, rec := range recs {
		s := subsOf(rec)
		if s == nil {
			r.Violate("no-subscription", fmt.Sprintf("%s subscribed on %q but nothing reached the broker", rec.owner, rec.addr), nil)
			continue
		}
		rec.mu.Lock()
		b.Lock()
		var want []*mon.Delivery
		var wantMsg []side.Msg
		for _, d := range s.Items {
			if d.Started == 0 {
				continue
			}
			if m, err := rec.op.FromRaw(d.Msg); err == nil {
				want = append(want, d)
				wantMsg = append(wantMsg, m)
			}
		}
		must := 0 // Messages that have to be handled
		for k, d := range want {
			if d.Returned != 0 && (rec.unsubCall == 0 || d.Returned < rec.unsubCall) {
				must = k + 1
			}
		}
		b.Unlock()
		describe := func() string {
			str := fmt.Sprintf("%s on %q (unsubscribed @%d-%d); handler calls:", rec.owner, rec.addr, rec.unsubCall, rec.unsubOK)
			for _, c := range rec.calls {
				str += fmt.Sprintf(" %d@%d-%d", c.Msg.ID, c.Start, c.End)
			}
			return str + "; " + s.History()
		}
		if rec.overlap {
			r.Violate("overlap", "handler called concurrently: "+describe(), nil)
		}
		for k, c := range rec.calls {
			fmt.Fprintf(h, "%d/%d ", rec.index, c.Msg.ID)
			if c.Msg.ID == lateID {
				r.Violate("late", "message transmitted after the unsubscription handled: "+describe(), nil)
				continue
			}
			if k >= len(want) {
				r.Violate("extra", "handler called with something not transmitted: "+describe(), c.Msg.String())
				break
			}
			if c.Msg.ID != wantMsg[k].ID {
				r.Violate("order", fmt.Sprintf("call #%d has message %d instead of %d: %s", k, c.Msg.ID, wantMsg[k].ID, describe()), nil)
				break
			}
			if !c.Msg.Same(wantMsg[k]) {
				r.Violate("content", fmt.Sprintf("handler got %s for %s", c.Msg, wantMsg[k]), string(want[k].Msg.Payload))
			}
			if c.Start < want[k].Started {
				r.Violate("extra", "handled before being transmitted: "+describe(), nil)
			}
		}
		if len(rec.calls) < must {
			r.Violate("lost", fmt.Sprintf("%d messages handled out of %d transmitted: %s", len(rec.calls), must, describe()), nil)
		}
		if rec.unsubCall == 0 && len(rec.calls) != len(want) {
			r.Violate("lost", fmt.Sprintf("%d messages handled out of %d: %s", len(rec.calls), len(want), describe()), nil)
		}
		handled += len(rec.calls)
		events += len(s.Items)
		rec.mu.Unlock()
	}
	r.Observe("messages_transmitted", events)
	r.Observe("handler_calls", handled)
	r.Observe("subscriptions", len(recs))
	r.Observe("unsubscriptions_under_load", len(late))
	r.Observe("error_handler_calls", int(atomic.LoadInt64(&errHandled)))
	if handled > 0 {
		r.Eval(fmt.Sprintf("%d-%x", ver, h.Sum64()))
	} else {
		r.Eval("")
	}
	if handled > 3 {
		r.Sample(map[string]any{"scenario": r.Scenario(), "subscriptions": len(recs), "unsubscribed": len(late), "transmitted": events, "handled": handled})
	}
	for _, c := range ctls {
		c.Close(ctx)
	}
}
