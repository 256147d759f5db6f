package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"

	"verif/mon"
)

func init() { checks["C09"] = c09 }

func c09(r *mon.Report) {
	for i := 0; i < r.N(500, 10000); i++ {
		name := fmt.Sprintf("history/%d", i)
		if r.Mine(name, i) {
			c09history(r, r.Rng("C09", name))
		}
	}
	for i := 0; i < r.N(160, 3000); i++ {
		name := fmt.Sprintf("concurrent/%d", i)
		if r.Mine(name, i) {
			c09concurrent(r, r.Rng("C09", name))
		}
	}
	for i := 0; i < r.N(160, 3000); i++ {
		name := fmt.Sprintf("first/%d", i)
		if r.Mine(name, i) {
			c09first(r, r.Rng("C09", name))
		}
	}
	for i := 0; i < r.N(32, 400); i++ {
		name := fmt.Sprintf("stalled/%d", i)
		if r.Mine(name, i) {
			c09stalled(r, r.Rng("C09", name))
		}
	}
}

func withVersion(v string) context.Context {
	return context.WithValue(context.Background(), extensions.ContextKeyIsVersion, v)
}

// c09sub is a subscription made through the wrapper.
type c09sub struct {
	channel, version string
	sub              extensions.BrokerChannelSubscription
	want             []string
	mu               sync.Mutex
	got              []string
	closed           bool
}

// listen reads the messages of the subscription.
func (s *c09sub) listen(settle func(m *extensions.AcknowledgeableBrokerMessage)) {
	go func() {
		for m := range s.sub.MessagesChannel() {
			m := m
			s.mu.Lock()
			s.got = append(s.got, textOf(m.BrokerMessage))
			s.mu.Unlock()
			settle(&m)
			mon.Touch()
		}
		s.mu.Lock()
		s.closed = true
		s.mu.Unlock()
	}()
}

// textOf gives a text of a broker message that does not depend on the order.
func textOf(m extensions.BrokerMessage) string {
	var b strings.Builder
	for _, k := range keys(m.Headers) {
		fmt.Fprintf(&b, "%s=%q ", k, m.Headers[k])
	}
	return fmt.Sprintf("%s%q", b.String(), m.Payload)
}

func c09history(r *mon.Report, rng *rand.Rand) {
	b := mon.NewBroker(mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), pick(rng, 0, 0, 30)), pick(rng, 0, 1, 8))
	b.NoFanOut = true
	fail := false
	b.OnSubscribe = func(context.Context, string) error {
		if fail {
			return errInjected
		}
		return nil
	}
	key := versioning.DefaultVersionHeaderKey
	def := ""
	var opts []versioning.WrapperOption
	if rng.Intn(3) == 0 {
		key = "x-version"
		opts = append(opts, versioning.WithVersionHeaderKey(key))
	}
	if rng.Intn(2) == 0 {
		def = pick(rng, "1.0.0", "2.0.0")
		opts = append(opts, versioning.WithDefaultVersion(def))
	}
	w := versioning.NewWrapper(b, opts...)
	versions := []string{"1.0.0", "2.0.0", "é", "1.0"}
	channels := []string{"ch", "ch.2"}
	held := map[string]*c09sub{} // channel/version
	var old []*c09sub
	var trace []string
	shape := ""
	payload := 0
	step := func(what string, f func()) bool {
		trace = append(trace, what)
		return ended(r, "blocked", "after "+strings.Join(trace, ", "), mon.Wait(mon.Go(f)))
	}
	check := func() bool {
		if !mon.Settle() {
			r.Undecided("not quiescent")
			return false
		}
		for _, ch := range channels {
			n, want := 0, 0
			for _, s := range b.Live() {
				if s.Channel == ch {
					n++
				}
			}
			for _, s := range held {
				if s.channel == ch {
					want = 1
				}
			}
			if n != want {
				r.Violate("broker-subscriptions", fmt.Sprintf("%d broker subscriptions on %q instead of %d after %s", n, ch, want, strings.Join(trace, ", ")), nil)
				return false
			}
		}
		all := append([]*c09sub{}, old...)
		for _, k := range keys(held) {
			all = append(all, held[k])
		}
		for _, s := range all {
			s.mu.Lock()
			got, closed := strings.Join(s.got, " | "), s.closed
			s.mu.Unlock()
			if want := strings.Join(s.want, " | "); got != want {
				r.Violate("routing", fmt.Sprintf("version %q on %q received [%s] instead of [%s] after %s", s.version, s.channel, got, want, strings.Join(trace, ", ")), nil)
				return false
			}
			if live := held[s.channel+"/"+s.version] == s; live == closed {
				r.Violate("closing", fmt.Sprintf("version %q on %q: held %v, closed %v after %s", s.version, s.channel, live, closed, strings.Join(trace, ", ")), nil)
				return false
			}
		}
		return true
	}
	acks := 0
	settle := func(m *extensions.AcknowledgeableBrokerMessage) { m.Ack() }
	injected := []*mon.Delivery{}
	pending := false
	for k := 0; k < 10+rng.Intn(40); k++ {
		ch, v := pick(rng, channels...), pick(rng, versions...)
		if len(held) > 0 && rng.Intn(3) > 0 { // Mostly where something is subscribed
			h := held[pick(rng, keys(held)...)]
			ch, v = h.channel, h.version
		}
		id := ch + "/" + v
		action := pick(rng, "sub", "sub", "sub", "sub", "fail", "noversion", "cancel", "cancel-done", "publish", "publish-none", "inject", "inject", "inject", "inject", "inject", "inject", "inject", "inject", "inject")
		shape += action[:1]
		if action != "inject" && pending { // The versions are the ones when the message is received
			if !check() {
				return
			}
		}
		pending = action == "inject"
		var err error
		switch action {
		case "sub", "fail":
			fail = action == "fail"
			first := true
			for _, s := range held {
				first = first && s.channel != ch
			}
			var sub extensions.BrokerChannelSubscription
			if !step(fmt.Sprintf("%s(%s)", action, id), func() { sub, err = w.Subscribe(withVersion(v), ch) }) {
				return
			}
			failed := fail && first
			fail = false
			switch {
			case held[id] != nil:
				if !errors.Is(err, extensions.ErrAlreadySubscribedChannel) {
					r.Violate("already-subscribed", fmt.Sprintf("second subscription of %s: %v", id, err), nil)
				}
				r.Observe("already_subscribed", 1)
			case failed:
				if !errors.Is(err, errInjected) {
					r.Violate("failed-subscription", fmt.Sprintf("failed subscription of %s: %v after %s", id, err, strings.Join(trace, ", ")), nil)
				}
				r.Observe("failed_subscriptions", 1)
			case err != nil:
				r.Violate("subscribe-error", fmt.Sprintf("subscription of %s: %v after %s", id, err, strings.Join(trace, ", ")), nil)
				return
			default:
				s := &c09sub{channel: ch, version: v, sub: sub}
				held[id] = s
				s.listen(settle)
				r.Observe("subscriptions", 1)
			}
		case "noversion":
			if !step(action, func() { _, err = w.Subscribe(context.Background(), ch) }) {
				return
			}
			if !errors.Is(err, versioning.ErrNoVersion) {
				r.Violate("no-version", fmt.Sprintf("subscription without version: %v", err), nil)
			}
		case "cancel", "cancel-done":
			s := held[id]
			if s == nil {
				if len(held) == 0 {
					continue
				}
				id = pick(rng, keys(held)...)
				s = held[id]
			}
			ctx := context.Background()
			if action == "cancel-done" {
				c, cancel := context.WithCancel(ctx)
				cancel()
				ctx = c
			}
			if !step(fmt.Sprintf("%s(%s)", action, id), func() { s.sub.Cancel(ctx) }) {
				return
			}
			delete(held, id)
			old = append(old, s)
			r.Observe("cancellations", 1)
		case "publish", "publish-none":
			ctx, want := withVersion(v), v
			payload++
			m := extensions.BrokerMessage{Payload: []byte(fmt.Sprint(payload))}
			if rng.Intn(2) == 0 {
				m.Headers = map[string][]byte{"h": []byte("x"), "i": {}}
				if rng.Intn(3) == 0 {
					m.Headers[key] = []byte("other")
				}
			}
			if action == "publish-none" {
				ctx, want = context.Background(), ""
			}
			orig := mon.CloneMsg(m)
			if !step(action+"("+id+")", func() { err = w.Publish(ctx, ch, m) }) {
				return
			}
			exp := mon.CloneMsg(orig)
			if want != "" {
				if exp.Headers == nil {
					exp.Headers = map[string][]byte{}
				}
				exp.Headers[key] = []byte(want)
			}
			pubs := b.AllPubs()
			if err != nil || len(pubs) == 0 {
				r.Violate("publish-error", fmt.Sprintf("%v, %d publications", err, len(pubs)), nil)
				return
			}
			last := pubs[len(pubs)-1]
			if last.Channel != ch || textOf(last.Msg) != textOf(exp) {
				r.Violate("publish-content", fmt.Sprintf("published %s on %q instead of %s on %q", textOf(last.Msg), last.Channel, textOf(exp), ch), nil)
			}
			r.Observe("publications", 1)
			if textOf(m) != textOf(orig) {
				r.Observe("publish_modified_argument", 1)
			}
		case "inject":
			payload++
			m := extensions.BrokerMessage{Headers: map[string][]byte{}, Payload: []byte(fmt.Sprint(payload))}
			route := ""
			switch rng.Intn(9) {
			case 0:
				m.Headers, route = nil, def
			case 1:
				m.Headers["h"], route = []byte("1"), def
			case 2:
				m.Headers[key], route = []byte{}, def
			case 3:
				m.Headers[key] = []byte(pick(rng, "unknown", "1", "1.0.0 ", "2.0.0\n"))
				route = "none"
			default:
				m.Headers[key], route = []byte(v), v
			}
			if key != versioning.DefaultVersionHeaderKey && rng.Intn(3) == 0 && m.Headers != nil { // Not the key that is used
				m.Headers[versioning.DefaultVersionHeaderKey] = []byte(pick(rng, versions...))
			}
			trace = append(trace, fmt.Sprintf("inject(%s %s)", ch, textOf(m)))
			ds := b.InjectAll(ch, m)
			if s := held[ch+"/"+route]; s != nil {
				s.want = append(s.want, textOf(m))
				injected = append(injected, ds...)
				acks++
				r.Observe("routed", 1)
			} else {
				r.Observe("not_routed", len(ds))
			}
		}
		if rng.Intn(2) == 0 || action != "inject" {
			if !check() {
				return
			}
		}
	}
	if !check() {
		return
	}
	// The settlements of the receivers get to the broker
	b.Lock()
	for _, d := range injected {
		if len(d.Settled) != 1 || d.Settled[0].Kind != "ack" {
			r.Violate("settlement", fmt.Sprintf("message %s acknowledged by the subscriber of its version is settled %v on the broker", textOf(d.Msg), d.Settled), nil)
		}
	}
	b.Unlock()
	if !ended(r, "blocked", "final cancellations after "+strings.Join(trace, ", "), mon.Wait(mon.Go(func() {
		for _, k := range keys(held) {
			held[k].sub.Cancel(context.Background())
		}
	}))) {
		return
	}
	for _, k := range keys(held) {
		old = append(old, held[k])
	}
	held = map[string]*c09sub{}
	if !check() {
		return
	}
	r.Observe("acknowledged", acks)
	r.Eval(shape + key + def)
	r.Sample(map[string]any{"scenario": r.Scenario(), "steps": len(trace), "routed": acks})
}

// c09concurrent: versions come and go while messages of stable versions flow.
func c09concurrent(r *mon.Report, rng *rand.Rand) {
	j := mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), pick(rng, 20, 100, 300))
	b := mon.NewBroker(j, pick(rng, 0, 1, 16))
	w := versioning.NewWrapper(b)
	stable := []*c09sub{}
	for _, v := range []string{"A", "B"} {
		sub, err := w.Subscribe(withVersion(v), "ch")
		if err != nil {
			r.Violate("subscribe-error", err.Error(), nil)
			return
		}
		s := &c09sub{channel: "ch", version: v, sub: sub}
		s.listen(func(m *extensions.AcknowledgeableBrokerMessage) { j.Pause(); m.Ack() })
		stable = append(stable, s)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var churn []*c09sub
	for g := 0; g < 1+rng.Intn(3); g++ {
		v := fmt.Sprintf("C%d", g)
		n := 3 + rng.Intn(8)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				sub, err := w.Subscribe(withVersion(v), "ch")
				if err != nil {
					r.Violate("subscribe-error", fmt.Sprintf("version %q cannot be subscribed again once cancelled: %v", v, err), nil)
					return
				}
				s := &c09sub{channel: "ch", version: v, sub: sub}
				s.listen(func(m *extensions.AcknowledgeableBrokerMessage) { m.Ack() })
				mu.Lock()
				churn = append(churn, s)
				mu.Unlock()
				j.Pause()
				sub.Cancel(context.Background())
			}
		}()
	}
	publishers := 1 + rng.Intn(3)
	n := 10 + rng.Intn(30)
	for p := 0; p < publishers; p++ {
		p := p
		prng := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				v := pick(prng, "A", "B", "C0", "C1", "C2")
				if err := w.Publish(withVersion(v), "ch", extensions.BrokerMessage{Payload: []byte(fmt.Sprintf("%s/%d/%03d", v, p, i))}); err != nil {
					r.Violate("publish-error", err.Error(), nil)
				}
			}
		}()
	}
	if !ended(r, "blocked", "versions that come and go", mon.Wait(mon.Go(wg.Wait))) {
		return
	}
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	if l := b.AllSubs(); len(l) != 1 || len(b.Live()) != 1 {
		r.Violate("broker-subscriptions", fmt.Sprintf("%d broker subscriptions have been made, %d left, while two versions have always been there", len(l), len(b.Live())), nil)
		return
	}
	want := map[string][]string{}
	for _, p := range b.AllPubs() { // In the order of the broker
		v := string(p.Msg.Headers[versioning.DefaultVersionHeaderKey])
		want[v] = append(want[v], textOf(p.Msg))
	}
	for _, s := range stable {
		s.mu.Lock()
		if got, exp := strings.Join(s.got, "|"), strings.Join(want[s.version], "|"); got != exp {
			r.Violate("routing", fmt.Sprintf("version %q received [%s] instead of [%s] while other versions come and go", s.version, got, exp), nil)
		}
		r.Observe("concurrent_received", len(s.got))
		s.mu.Unlock()
	}
	total := 0
	for _, s := range churn {
		s.mu.Lock()
		at := 0
		for _, g := range s.got { // In the order, without repetition
			for at < len(want[s.version]) && want[s.version][at] != g {
				at++
			}
			if at == len(want[s.version]) {
				r.Violate("routing", fmt.Sprintf("version %q received %v from %v", s.version, s.got, want[s.version]), nil)
				break
			}
			at++
		}
		if !s.closed {
			r.Violate("closing", fmt.Sprintf("subscription of version %q not closed once cancelled", s.version), nil)
		}
		total += len(s.got)
		s.mu.Unlock()
	}
	for _, s := range stable {
		s := s
		if !ended(r, "blocked", "cancellation", mon.Wait(mon.Go(func() { s.sub.Cancel(context.Background()) }))) {
			return
		}
	}
	if l := b.Live(); len(l) != 0 {
		r.Violate("broker-subscriptions", fmt.Sprintf("%d broker subscriptions are left after the last version is cancelled", len(l)), nil)
	}
	r.Observe("concurrent_churn_received", total)
	r.Observe("concurrent_churn_subscriptions", len(churn))
	r.Eval(fmt.Sprintf("concurrent/%d/%d/%d/%d", publishers, n, len(churn), total))
}

// c09stalled: a version whose messages are not read is cancelled, the others go on.
func c09stalled(r *mon.Report, rng *rand.Rand) {
	b := mon.NewBroker(nil, pick(rng, 0, 1, 16))
	w := versioning.NewWrapper(b)
	slow, err1 := w.Subscribe(withVersion("slow"), "ch")
	sub, err2 := w.Subscribe(withVersion("ok"), "ch")
	if err1 != nil || err2 != nil {
		r.Violate("subscribe-error", fmt.Sprint(err1, err2), nil)
		return
	}
	s := &c09sub{channel: "ch", version: "ok", sub: sub}
	s.listen(func(m *extensions.AcknowledgeableBrokerMessage) { m.Ack() })
	n := 100 + rng.Intn(100)
	for i := 0; i < n; i++ {
		b.InjectAll("ch", extensions.BrokerMessage{Payload: []byte(fmt.Sprint(i)), Headers: map[string][]byte{versioning.DefaultVersionHeaderKey: []byte("slow")}})
	}
	b.InjectAll("ch", extensions.BrokerMessage{Payload: []byte("x"), Headers: map[string][]byte{versioning.DefaultVersionHeaderKey: []byte("ok")}})
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	if !ended(r, "blocked", "cancellation of a version that does not read its messages", mon.Wait(mon.Go(func() { slow.Cancel(context.Background()) }))) {
		return
	}
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	s.mu.Lock()
	if len(s.got) != 1 {
		r.Violate("routing", fmt.Sprintf("version received %v instead of one message once the version that did not read its messages is cancelled", s.got), nil)
	}
	s.mu.Unlock()
	if !ended(r, "blocked", "cancellation of the last version", mon.Wait(mon.Go(func() { sub.Cancel(context.Background()) }))) {
		return
	}
	if l := b.Live(); len(l) != 0 {
		r.Violate("broker-subscriptions", fmt.Sprintf("%d broker subscriptions are left", len(l)), nil)
	}
	r.Observe("stalled", 1)
	r.Eval(fmt.Sprintf("stalled/%d/%d", b.Cap, n))
}
