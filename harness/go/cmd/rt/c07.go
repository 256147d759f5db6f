package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verif/mon"
	"verif/side"
)

func init() { checks["C07"] = c07 }

func c07(r *mon.Report) {
	n := r.N(900, 18000)
	for i := 0; i < n; i++ {
		ver := 2 + i%2
		name := fmt.Sprintf("v%d/%d", ver, i)
		if r.Mine(name, i/2) {
			c07history(r, ver, r.Rng("C07", name))
		}
	}
	for i, ver := range []int{2, 3} {
		if name := fmt.Sprintf("v%d/nil", ver); r.Mine(name, i) {
			c07nil(r, ver)
		}
	}
}

// handled is a call of a handler.
type handled struct {
	tag string
	id  int64
}

// c07model is what a controller should hold: the tag of the handler by address.
type c07ctl struct {
	name string
	role string
	c    *side.Ctl
	held map[string]string // Address to handler tag
	dead map[string]bool   // Addresses for which the broker ended the subscription
}

// c07history runs a random history against a model of the subscriptions.
func c07history(r *mon.Report, ver int, rng *rand.Rand) {
	j := mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), pick(rng, 0, 0, 30))
	b := mon.NewBroker(j, pick(rng, 0, 1, 4))
	b.NoFanOut = true
	var failSub string // Address for which the subscription fails
	b.OnSubscribe = func(_ context.Context, channel string) error {
		if channel == failSub {
			return errInjected
		}
		return nil
	}
	if rng.Intn(3) == 0 { // Slow cancellations
		cj := mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), 1000)
		b.OnCleanup = func(*mon.Sub) { time.Sleep(time.Duration(cj.Intn(300)) * time.Microsecond) }
	}
	var mu sync.Mutex
	var calls []handled
	ctls := []*c07ctl{}
	role := pick(rng, "App", "App", "User")
	for i := 0; i <= rng.Intn(2); i++ {
		name := fmt.Sprintf("c%d", i)
		ctls = append(ctls, &c07ctl{
			name: name, role: role, c: side.New(ver, role, b.View(name), side.Options{}),
			held: map[string]string{}, dead: map[string]bool{},
		})
	}
	ops := side.Select(ver, func(o *side.Op) bool { return o.Receiver() == role })
	if rng.Intn(2) == 0 { // Few operations: more collisions
		rng.Shuffle(len(ops), func(a, c int) { ops[a], ops[c] = ops[c], ops[a] })
		ops = ops[:1+rng.Intn(2)]
	}
	allOps := side.Select(ver, func(o *side.Op) bool { return o.Receiver() == role })
	params := func(o *side.Op) []string {
		p := make([]string, len(o.Params))
		for i := range p {
			p[i] = pick(rng, "a", "b", "A", "a.user.b", "b.user.a")
		}
		return p
	}
	handler := func(tag string) side.Handler {
		return func(_ context.Context, m side.Msg, _ any) error {
			mu.Lock()
			defer mu.Unlock()
			calls = append(calls, handled{tag, m.ID})
			return nil
		}
	}
	ctx := context.Background()
	distant, cancelDistant := context.WithTimeout(ctx, time.Hour)
	defer cancelDistant()
	canceled, cancel := context.WithCancel(ctx)
	cancel()
	var trace []string
	var ends []func()
	tags, ids := 0, int64(0)
	shape := ""

	// check compares the subscriptions on the broker with the model.
	check := func(c *c07ctl) bool {
		count := map[string]int{}
		for _, s := range b.Live() {
			if s.Owner == c.name {
				count[s.Channel]++
			}
		}
		bad := ""
		for a := range c.held {
			want := 1
			if c.dead[a] {
				want = 0
			}
			if count[a] != want {
				bad += fmt.Sprintf(" %d broker subscriptions on %q instead of %d;", count[a], a, want)
			}
		}
		for a, n := range count {
			if _, ok := c.held[a]; !ok {
				bad += fmt.Sprintf(" %d broker subscriptions on %q instead of 0;", n, a)
			}
		}
		if bad != "" {
			r.Violate("subscriptions", fmt.Sprintf("controller %s:%s after %s", c.name, bad, strings.Join(trace, ", ")), nil)
		}
		return bad == ""
	}
	step := func(what string, f func()) bool {
		trace = append(trace, what)
		return ended(r, "blocked", "after "+strings.Join(trace, ", "), mon.Wait(mon.Go(f)))
	}

	steps := 4 + rng.Intn(25)
	for k := 0; k < steps; k++ {
		c := ctls[rng.Intn(len(ctls))]
		o := ops[rng.Intn(len(ops))]
		p := params(o)
		addr := o.Addr(p)
		var err error
		action := pick(rng, "sub", "sub", "sub", "sub", "unsub", "unsub", "unsub", "unsub-ctx", "suball", "unsuball",
			"close", "fail", "send", "kill", "deliver", "deliver", "suball-fail")
		shape += action[:2]
		settle := false
		switch action {
		case "sub", "fail":
			if c.dead[addr] { // Not specified
				continue
			}
			failSub = ""
			if action == "fail" {
				failSub = addr
			}
			tags++
			tag := fmt.Sprintf("%s/%d", addr, tags)
			// A subscription does not depend on what becomes of the context it is made with
			x, how := ctx, ""
			switch rng.Intn(4) {
			case 0:
				x, how = canceled, ", ended context"
			case 1:
				var end func()
				x, end = context.WithCancel(ctx)
				how = ", context ended afterwards"
				defer end()
				ends = append(ends, end)
			}
			if !step(fmt.Sprintf("%s.%s(%s%s)", c.name, action, addr, how), func() { err = c.c.Sub(x, o, p, handler(tag)) }) {
				return
			}
			for _, end := range ends {
				end()
				settle = true
			}
			ends = nil
			if errors.Is(err, context.Canceled) && x == canceled { // Refused: nothing is subscribed
				continue
			}
			failSub = ""
			_, exists := c.held[addr]
			switch {
			case exists:
				if !errors.Is(err, extensions.ErrAlreadySubscribedChannel) {
					r.Violate("already-subscribed", fmt.Sprintf("second subscription on %q returned %v after %s", addr, err, strings.Join(trace, ", ")), nil)
				}
				r.Observe("already_subscribed", 1)
			case action == "fail":
				if !errors.Is(err, errInjected) {
					r.Violate("failed-subscription", fmt.Sprintf("failed subscription on %q returned %v after %s", addr, err, strings.Join(trace, ", ")), nil)
				}
				r.Observe("failed_subscriptions", 1)
			default:
				if err != nil {
					r.Violate("subscribe-error", fmt.Sprintf("subscription on %q returned %v after %s", addr, err, strings.Join(trace, ", ")), nil)
					return
				}
				c.held[addr] = tag
				r.Observe("subscriptions", 1)
			}
		case "unsub", "unsub-ctx":
			x := ctx
			if action == "unsub-ctx" { // Does not wait for the end of the cancellation
				x, settle = canceled, true
			} else if rng.Intn(3) == 0 { // That will not end by then
				x = distant
			}
			if !step(fmt.Sprintf("%s.%s(%s)", c.name, action, addr), func() { c.c.Unsub(x, o, p) }) {
				return
			}
			delete(c.held, addr)
			delete(c.dead, addr)
			r.Observe("unsubscriptions", 1)
		case "suball", "suball-fail":
			var all []*side.Op
			exists := false
			for _, o := range allOps {
				if len(o.Params) == 0 {
					all = append(all, o)
					if _, ok := c.held[o.Addr(nil)]; ok {
						exists = true
					}
				}
			}
			failSub = ""
			if action == "suball-fail" && len(all) > 0 {
				failSub = all[rng.Intn(len(all))].Addr(nil)
			}
			tags++
			suffix := fmt.Sprintf("/%d", tags)
			var dmu sync.Mutex
			dispatch := func(op string, ctx context.Context, m side.Msg, raw any) error {
				dmu.Lock()
				defer dmu.Unlock()
				o := side.OpOfMethod(ver, op)
				return handler(o.Addr(nil)+suffix)(ctx, m, raw)
			}
			if !step(fmt.Sprintf("%s.%s(%s)", c.name, action, failSub), func() { err = c.c.SubAll(ctx, dispatch) }) {
				return
			}
			if !exists && failSub == "" {
				if err != nil {
					r.Violate("subscribe-all-error", fmt.Sprintf("subscription to all channels returned %v after %s", err, strings.Join(trace, ", ")), nil)
					return
				}
				for _, o := range all {
					c.held[o.Addr(nil)] = o.Addr(nil) + suffix
				}
				r.Observe("subscriptions_to_all", 1)
			} else {
				if !errors.Is(err, extensions.ErrAlreadySubscribedChannel) && !(failSub != "" && errors.Is(err, errInjected)) {
					r.Violate("subscribe-all-error", fmt.Sprintf("subscription to all channels returned %v after %s", err, strings.Join(trace, ", ")), nil)
				}
				// The ones that have been made before the failure are not specified
				for _, s := range b.Live() {
					if _, ok := c.held[s.Channel]; s.Owner == c.name && !ok {
						isAll := false
						for _, o := range all {
							isAll = isAll || o.Addr(nil) == s.Channel
						}
						if isAll && s.Channel != failSub {
							c.held[s.Channel] = s.Channel + suffix
						}
					}
				}
			}
			failSub = ""
		case "unsuball", "close":
			x, how := ctx, ""
			if rng.Intn(4) == 0 { // Does not wait for the end of the cancellations
				x, how, settle = canceled, "(ended context)", true
			} else if rng.Intn(3) == 0 {
				x = distant
			}
			if !step(c.name+"."+action+how, func() {
				if action == "close" {
					c.c.Close(x)
				} else {
					c.c.UnsubAll(x)
				}
			}) {
				return
			}
			c.held, c.dead = map[string]string{}, map[string]bool{}
			r.Observe("unsubscriptions_from_all", 1)
		case "send":
			l := side.Select(ver, func(o *side.Op) bool { return o.Sender == role && !o.Dyn })
			so := l[rng.Intn(len(l))]
			m := randMsg(rng, 5)
			m.Corr = "c"
			if !step(c.name+".send", func() { err = c.c.Send(ctx, so, randParams(rng, so), "", m) }) {
				return
			}
			if err != nil {
				r.Violate("send-error", fmt.Sprintf("%v after %s", err, strings.Join(trace, ", ")), nil)
			}
		case "kill": // The broker ends a subscription
			var mine []*mon.Sub
			for _, s := range b.Live() {
				if s.Owner == c.name {
					mine = append(mine, s)
				}
			}
			if len(mine) == 0 {
				continue
			}
			s := mine[rng.Intn(len(mine))]
			trace = append(trace, fmt.Sprintf("broker ends %s's %s", c.name, s.Channel))
			s.Kill()
			c.dead[s.Channel] = true
			// From now on, this address has to be unsubscribed first
			for _, o := range allOps {
				for _, p := range [][]string{{"a", "a"}, {"a", "b"}, {"b", "a"}, {"b", "b"}} {
					if len(o.Params) > 0 {
						p = p[:len(o.Params)]
					} else {
						p = nil
					}
					if o.Addr(p) == s.Channel {
						o, p := o, p
						if !step(c.name+".unsub("+s.Channel+")", func() { c.c.Unsub(ctx, o, p) }) {
							return
						}
						delete(c.held, s.Channel)
						delete(c.dead, s.Channel)
					}
				}
			}
			r.Observe("ended_by_broker", 1)
		case "deliver": // To everyone, on some addresses
			mu.Lock()
			calls = nil
			mu.Unlock()
			want := map[string]int{}
			sent := 0
			for i := 0; i < 3; i++ {
				o := allOps[rng.Intn(len(allOps))]
				a := o.Addr(params(o))
				ids++
				m := randMsg(rng, ids)
				m.Corr = "c"
				if len(b.InjectAll(a, o.Raw(m))) > 0 {
					sent++
				}
				for _, x := range ctls {
					if tag, ok := x.held[a]; ok && !x.dead[a] {
						want[fmt.Sprint(handled{tag, ids})]++
					}
				}
			}
			trace = append(trace, "deliver")
			if sent == 0 && len(want) == 0 {
				continue
			}
			if !mon.Settle() {
				r.Undecided("not quiescent")
				return
			}
			mu.Lock()
			got := map[string]int{}
			for _, h := range calls {
				got[fmt.Sprint(h)]++
			}
			mu.Unlock()
			if fmt.Sprint(got) != fmt.Sprint(want) {
				r.Violate("delivery", fmt.Sprintf("handlers called %v instead of %v after %s", got, want, strings.Join(trace, ", ")), nil)
			}
			r.Observe("deliveries", sent)
		}
		if settle && !mon.Settle() {
			r.Undecided("not quiescent")
			return
		}
		for _, c := range ctls {
			if !check(c) {
				return
			}
		}
	}
	for _, c := range ctls {
		for i := 0; i < 2; i++ { // Closing twice is harmless
			if !step(c.name+".close", func() { c.c.Close(ctx) }) {
				return
			}
			c.held, c.dead = map[string]string{}, map[string]bool{}
			if !check(c) {
				return
			}
		}
	}
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	b.Lock()
	defer b.Unlock()
	for _, s := range b.Subs {
		if s.Cleanups != 1 {
			r.Violate("cleanup", fmt.Sprintf("cleaned up %d times after %s: %s", s.Cleanups, strings.Join(trace, ", "), s.HistoryLocked()), nil)
		}
	}
	r.Observe("steps", len(trace))
	sort.Strings(trace)
	r.Eval(fmt.Sprintf("v%d %s %s", ver, role, shape))
	r.Sample(map[string]any{"scenario": r.Scenario(), "steps": len(trace), "subscriptions": len(b.Subs)})
}

// c07nil: the arguments that cannot be used are refused.
func c07nil(r *mon.Report, ver int) {
	for _, role := range []string{"App", "User"} {
		if err := side.NewWithNilBroker(ver, role); !errors.Is(err, extensions.ErrNilBrokerController) {
			r.Violate("nil-broker", fmt.Sprintf("controller %s v%d with a nil broker: %v", role, ver, err), nil)
		}
		b := mon.NewBroker(nil, 0)
		want := extensions.ErrNilAppSubscriber
		if role == "User" {
			want = extensions.ErrNilUserSubscriber
		}
		if err := side.New(ver, role, b, side.Options{}).SubAllNil(context.Background()); !errors.Is(err, want) || len(b.Live()) != 0 {
			r.Violate("nil-subscriber", fmt.Sprintf("subscription to all with a nil %s subscriber v%d: %v, %d subscriptions", role, ver, err, len(b.Live())), nil)
		}
		r.Eval(fmt.Sprintf("nil/%d/%s", ver, role))
	}
}
