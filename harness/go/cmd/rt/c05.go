package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verif/mon"
	"verif/side"
)

func init() { checks["C05"] = c05 }

func c05(r *mon.Report) {
	n := r.N(1200, 20000)
	for i := 0; i < n; i++ {
		ver := 2 + i%2
		name := fmt.Sprintf("v%d/%d", ver, i)
		if r.Mine(name, i/2) {
			c05requests(r, ver, r.Rng("C05", name))
		}
	}
	for i := 0; i < r.N(480, 6000); i++ {
		ver := 2 + i%2
		name := fmt.Sprintf("v%d/ids/%d", ver, i)
		if r.Mine(name, i/2) {
			c05ids(r, ver, r.Rng("C05", name))
		}
	}
	for i := 0; i < r.N(480, 6000); i++ {
		name := fmt.Sprintf("v3/replies/%d", i)
		if r.Mine(name, i) {
			c05replies(r, r.Rng("C05", name))
		}
	}
}

// c05requests: concurrent requests on shared reply channels with noise.
func c05requests(r *mon.Report, ver int, rng *rand.Rand) {
	j := mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), pick(rng, 0, 20, 200))
	b := mon.NewBroker(j, pick(rng, 0, 1, 8, 64))
	b.NoFanOut = true

	type request struct {
		owner           string
		o, reply        *side.Op
		params, rparams []string
		m               side.Msg
		addr            string
		got             side.Msg
		err             error
		pubAt           int64
	}
	var reqs []*request
	n := 1 + rng.Intn(7)
	fo, fr, fp, frp := requestOp(rng, ver) // Most of the requests share the operation
	shared := map[string]*side.Ctl{}
	byID := map[int64]*request{}
	sig := ""
	for i := 0; i < n; i++ {
		x := &request{o: fo, reply: fr, params: fp, rparams: frp}
		if rng.Intn(4) == 0 {
			x.o, x.reply, x.params, x.rparams = requestOp(rng, ver)
		}
		x.m = side.Msg{ID: int64(1 + i), Corr: fmt.Sprintf("corr-%d", i), ReplyTo: fmt.Sprintf("dyn.%d", rng.Intn(2))}
		if ver == 3 && rng.Intn(3) == 0 {
			x.m.Corr = "" // Generated
		}
		x.addr = x.reply.Addr(x.rparams)
		if x.reply.Dyn {
			x.addr = x.m.ReplyTo
		}
		x.owner = fmt.Sprintf("req%d", i)
		byID[x.m.ID] = x
		reqs = append(reqs, x)
		sig += x.o.Key() + x.reply.Key()
	}
	// Several requests share a controller in some cases; the owner is then found
	// with the subscription made last before the publication by the goroutine.
	sharing := rng.Intn(2) == 0
	ctl := func(x *request) *side.Ctl {
		if !sharing {
			return side.New(ver, x.o.Sender, b.View(x.owner), side.Options{})
		}
		if shared[x.o.Sender] == nil {
			shared[x.o.Sender] = side.New(ver, x.o.Sender, b.View("shared"+x.o.Sender), side.Options{})
		}
		return shared[x.o.Sender]
	}

	// The replier gets the published requests, and answers in any order with noise.
	type seen struct {
		x  *request
		id string
	}
	requests := make(chan seen, n)
	var smu sync.Mutex
	b.OnPublish = func(_ context.Context, channel string, msg extensions.BrokerMessage) error {
		id := idOfPayload(msg.Payload)
		x := byID[id]
		if x == nil {
			r.Violate("request-content", fmt.Sprintf("published %s on %q", msg.String(), channel), nil)
			return nil
		}
		m, err := x.o.FromRaw(msg)
		if err != nil || channel != x.o.Addr(x.params) {
			r.Violate("request-content", fmt.Sprintf("published %s on %q for request %s", msg.String(), channel, x.m), nil)
			return nil
		}
		// The subscription has to be there already
		found := false
		for _, s := range b.Live() {
			if s.Channel == x.addr {
				found = true
			}
		}
		if !found {
			r.Violate("subscribe-first", fmt.Sprintf("request on %q published without any subscription on %q", channel, x.addr), nil)
		}
		if x.m.Corr != "" && x.o.Corr != "" && m.Corr != x.m.Corr {
			r.Violate("corr-changed", fmt.Sprintf("correlation ID %q published as %q", x.m.Corr, m.Corr), nil)
		}
		if x.o.Corr != "" && m.Corr == "" {
			r.Violate("corr-missing", "request published without correlation ID: "+msg.String(), nil)
		}
		smu.Lock()
		x.pubAt = mon.Tick()
		smu.Unlock()
		requests <- seen{x, m.Corr}
		return nil
	}
	rrng := rand.New(rand.NewSource(rng.Int63()))
	batch := 1 + rrng.Intn(n)
	replies := map[int64]int64{} // Reply to request
	noise, sentReplies := 0, 0
	nextID := int64(1000)
	inject := func(x *request, corr string, forReq bool) {
		nextID++
		m := randMsg(rrng, nextID)
		m.Corr = corr
		if forReq {
			smu.Lock()
			replies[nextID] = x.m.ID
			smu.Unlock()
			sentReplies++
		} else {
			noise++
		}
		b.InjectAll(x.addr, x.reply.Raw(m))
	}
	replier := mon.Go(func() {
		left := n
		for left > 0 {
			var todo []seen
			for len(todo) < batch && left > 0 {
				todo = append(todo, <-requests)
				left--
			}
			rrng.Shuffle(len(todo), func(a, c int) { todo[a], todo[c] = todo[c], todo[a] })
			for _, s := range todo {
				hasCorr := s.x.reply.Corr != ""
				for k := rrng.Intn(3); k > 0 && hasCorr; k-- {
					switch rrng.Intn(5) {
					case 0:
						noise++
						b.InjectAll(s.x.addr, malformed(rrng))
					case 4: // Nothing at all
						noise++
						b.InjectAll(s.x.addr, extensions.BrokerMessage{})
					case 1:
						inject(s.x, "", false)
					case 2:
						inject(s.x, pick(rrng, s.id+"x", strings.ToUpper(s.id), "foreign", " "+s.id), false)
					default:
						if len(todo) > 1 { // The one of someone else, that can use it
							o := todo[rrng.Intn(len(todo))]
							if o.x != s.x {
								inject(s.x, "not-"+o.id, false)
							}
						}
					}
				}
				for k := 1 + rrng.Intn(2); k > 0; k-- { // Maybe duplicated
					inject(s.x, s.id, true)
				}
				j.Pause()
			}
		}
	})
	var wg sync.WaitGroup
	for _, x := range reqs {
		x := x
		c := ctl(x)
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.got, x.err = doRequest(context.Background(), c, x.o, x.reply, x.params, x.rparams, x.m)
		}()
	}
	if !ended(r, "unanswered", fmt.Sprintf("requests %s: a request for which the reply has been transmitted does not return", sig), mon.Wait(mon.Go(wg.Wait))) {
		return
	}
	if !ended(r, "unanswered", "replier", mon.Wait(replier)) {
		return
	}
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	b.Lock()
	defer b.Unlock()
	order := ""
	for _, x := range reqs {
		what := fmt.Sprintf("request %d on %s (correlation ID %q)", x.m.ID, x.o.Key(), x.m.Corr)
		if x.err != nil {
			if x.reply.Corr == "" {
				continue // Cannot be decided: first message whatever it is
			}
			r.Violate("request-error", what+" failed: "+x.err.Error(), nil)
			continue
		}
		order += fmt.Sprintf("%d>%d ", x.m.ID, x.got.ID)
		if x.reply.Corr != "" {
			if replies[x.got.ID] != x.m.ID {
				r.Violate("wrong-reply", fmt.Sprintf("%s got message %s, which is for request %d", what, x.got, replies[x.got.ID]), nil)
				continue
			}
		}
		// The one it gets is the first with its ID on its subscription, with its content
		ok := false
		var why string
		for _, s := range b.Subs {
			if s.Channel != x.addr || (!sharing && s.Owner != x.owner) || s.At > x.pubAt {
				continue
			}
			for _, d := range s.Items {
				m, err := x.reply.FromRaw(d.Msg)
				if err != nil || (x.reply.Corr != "" && replies[m.ID] != x.m.ID) {
					continue
				}
				if m.ID == x.got.ID && m.Same(x.reply.Shape(x.got)) {
					ok = true
				} else {
					why += s.HistoryLocked() + m.String()
				}
				break
			}
		}
		if !ok {
			r.Violate("not-first", fmt.Sprintf("%s got %s, which is not the first reply: %s", what, x.got, why), nil)
		}
	}
	r.Observe("requests", n)
	r.Observe("replies", sentReplies)
	r.Observe("noise_messages", noise)
	r.Eval(sig + order)
	r.Sample(map[string]any{"scenario": r.Scenario(), "requests": n, "noise": noise, "request>reply": order})
}

// c05ids: the correlation IDs of the messages.
func c05ids(r *mon.Report, ver int, rng *rand.Rand) {
	j := mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), pick(rng, 0, 20))
	b := mon.NewBroker(j, 8)
	b.NoFanOut = true
	ops := side.Select(ver, func(o *side.Op) bool { return o.Corr != "" })
	type sent struct {
		o *side.Op
		m side.Msg
	}
	all := map[int64]sent{}
	var wg sync.WaitGroup
	ctls := map[string]*side.Ctl{"App": side.New(ver, "App", b, side.Options{}), "User": side.New(ver, "User", b, side.Options{})}
	n := 2 + rng.Intn(12)
	for i := 0; i < n; i++ {
		o := ops[rng.Intn(len(ops))]
		m := randMsg(rng, int64(i+1))
		if rng.Intn(2) == 0 {
			m.Corr = pick(rng, "given", "0", " ", "é", fmt.Sprintf("given-%d", i))
		}
		p := randParams(rng, o)
		all[m.ID] = sent{o, m}
		for k := pick(rng, 1, 1, 2, 3); k > 0; k-- { // The same message is maybe sent again
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := ctls[o.Sender].Send(context.Background(), o, p, "", m); err != nil {
					r.Violate("send-error", err.Error(), m.String())
				}
			}()
		}
	}
	if !ended(r, "stuck", "sending", mon.Wait(mon.Go(wg.Wait))) {
		return
	}
	generated := map[string]int64{}
	count := 0
	for _, p := range b.AllPubs() {
		id := idOfPayload(p.Msg.Payload)
		s := all[id]
		got, err := s.o.FromRaw(p.Msg)
		if err != nil {
			r.Violate("send-content", err.Error(), p.Msg.String())
			continue
		}
		if s.m.Corr != "" {
			if got.Corr != s.m.Corr {
				r.Violate("corr-changed", fmt.Sprintf("correlation ID %q published as %q by %s", s.m.Corr, got.Corr, s.o.Key()), nil)
			}
			continue
		}
		count++
		if got.Corr == "" {
			r.Violate("corr-missing", fmt.Sprintf("no correlation ID generated by %s: %s", s.o.Key(), p.Msg.String()), nil)
		} else if o, exists := generated[got.Corr]; exists {
			r.Violate("corr-duplicate", fmt.Sprintf("messages %d and %d have the same generated correlation ID %q", o, id, got.Corr), nil)
		}
		generated[got.Corr] = id
	}
	r.Observe("generated_ids", count)
	r.Eval(fmt.Sprintf("ids/%d/%d/%d", ver, n, count))
}

// c05replies: replies made with the helper of v3.
func c05replies(r *mon.Report, rng *rand.Rand) {
	b := mon.NewBroker(nil, 8)
	ops := side.Select(3, func(o *side.Op) bool { return o.Asks })
	o := ops[rng.Intn(len(ops))]
	replier := side.New(3, o.Receiver(), b.View("replier"), side.Options{})
	var mu sync.Mutex
	type result struct {
		prepared side.Msg
		err      error
		called   bool
	}
	res := map[int64]*result{}
	params := randParams(rng, o)
	ctx := context.Background()
	strip := rng.Intn(4) == 0
	err := replier.Sub(ctx, o, params, func(ctx context.Context, m side.Msg, raw any) error {
		x := &result{}
		defer func() {
			mu.Lock()
			res[m.ID] = x
			mu.Unlock()
		}()
		x.err = replier.Reply(ctx, o, raw, func(prepared side.Msg) side.Msg {
			x.prepared, x.called = prepared, true
			out := side.Msg{ID: m.ID + 1000, Text: m.Text, Corr: prepared.Corr}
			if strip {
				out.Corr = ""
			}
			return out
		})
		return nil
	})
	if err != nil {
		r.Violate("subscribe-error", err.Error(), nil)
		return
	}
	n := 1 + rng.Intn(6)
	reqs := map[int64]side.Msg{}
	for i := 0; i < n; i++ {
		m := randMsg(rng, int64(i+1))
		if rng.Intn(4) > 0 {
			m.Corr = fmt.Sprintf("corr-%d", i)
		}
		if rng.Intn(4) > 0 {
			m.ReplyTo = pick(rng, "dyn.a", "dyn.b.c", "x")
		}
		reqs[m.ID] = m
		b.InjectAll(o.Addr(params), o.Raw(m))
	}
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	mu.Lock()
	defer mu.Unlock()
	for id, m := range reqs {
		m = o.Shape(m)
		x := res[id]
		what := fmt.Sprintf("reply to %s on %s", m, o.Key())
		if x == nil {
			r.Violate("request-lost", what+": request not received", nil)
			continue
		}
		var pub *mon.Pub
		count := 0
		for _, p := range b.AllPubs() {
			if idOfPayload(p.Msg.Payload) == id+1000 {
				pub, count = p, count+1
			}
		}
		if !x.called && x.err == nil {
			r.Violate("reply-callback", what+": callback not called", nil)
		}
		if x.called && o.Corr != "" && x.prepared.Corr != m.Corr {
			r.Violate("reply-corr", fmt.Sprintf("%s prepared with the correlation ID %q", what, x.prepared.Corr), nil)
		}
		want := "" // No error
		addr := o.Reply.Format
		if o.DynTo != "" {
			addr = m.ReplyTo
			if o.DynTo == "opt" && m.ReplyTo == "" {
				want = "address"
			}
		}
		if o.Corr != "" && (m.Corr == "" || strip) && want == "" {
			want = "corr"
		}
		switch {
		case want == "":
			if x.err != nil || count != 1 {
				r.Violate("reply-sent", fmt.Sprintf("%s: error %v and %d publications", what, x.err, count), nil)
				continue
			}
			got, err := o.Reply.FromRaw(pub.Msg)
			if err != nil || pub.Channel != addr {
				r.Violate("reply-address", fmt.Sprintf("%s: published on %q instead of %q (%v)", what, pub.Channel, addr, err), nil)
			}
			if o.Reply.Corr != "" && got.Corr != m.Corr {
				r.Violate("reply-corr", fmt.Sprintf("%s published with the correlation ID %q", what, got.Corr), nil)
			}
			r.Observe("replies_by_helper", 1)
		case want == "address":
			if !errors.Is(x.err, extensions.ErrChannelAddressEmpty) || count != 0 {
				r.Violate("reply-no-address", fmt.Sprintf("%s without reply address: error %v and %d publications", what, x.err, count), nil)
			}
			r.Observe("replies_refused", 1)
		case want == "corr":
			if !errors.Is(x.err, extensions.ErrNoCorrelationIDSet) || count != 0 {
				r.Violate("reply-no-corr", fmt.Sprintf("%s without correlation ID: error %v and %d publications", what, x.err, count), nil)
			}
			r.Observe("replies_refused", 1)
		}
		r.Eval(fmt.Sprintf("reply/%s/%v/%s/%v", o.Key(), strip, want, m.ReplyTo))
	}
	replier.Close(ctx)
}
