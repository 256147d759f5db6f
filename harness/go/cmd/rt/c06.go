package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verif/mon"
	"verif/side"
)

func init() { checks["C06"] = c06 }

// c06faults are the ways a request can end.
var c06faults = []string{
	"reply", "subscribe-error", "publish-error", "publish-middleware", "context-before", "context-subscribe",
	"context-publish", "context-noise", "context-middleware", "kill-publish", "kill-noise", "kill-middleware",
	"reply-middleware", "reply-broken", "reply-malformed", "context-slow-cleanup", "context-flood", "kill-flood",
	"publish-error-after-context", "context-publish-honored", "context-subscribe-honored",
}

func c06(r *mon.Report) {
	rounds := r.N(36, 600)
	index := 0
	for k := 0; k < rounds; k++ {
		for _, fault := range c06faults {
			for ver := 2; ver <= 3; ver++ {
				name := fmt.Sprintf("v%d/%s/%d", ver, fault, k)
				if r.Mine(name, index) {
					c06scenario(r, ver, fault, r.Rng("C06", name))
				}
				index++
			}
		}
	}
}

var errInjected = errors.New("verif: injected failure")

func c06scenario(r *mon.Report, ver int, fault string, rng *rand.Rand) {
	j := mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), pick(rng, 0, 0, 50))
	b := mon.NewBroker(j, pick(rng, 0, 1, 8))
	b.NoFanOut = true
	before := mon.CountStacks("verif/gen/", "pkg/extensions.")

	o, reply, params, rparams := requestOp(rng, ver)
	noCorr := reply.Corr == ""
	if fault == "reply-malformed" && !noCorr {
		// Only the requests without correlation ID can tell that a malformed
		// message is their reply
		if ver == 2 {
			return
		}
		l := side.Select(3, func(o *side.Op) bool { return o.Asks && o.Corr == "" })
		o = l[rng.Intn(len(l))]
		reply, params, noCorr = o.Reply, randParams(rng, o), true
	}
	noise := rng.Intn(5)
	if noCorr {
		noise = 0
	}
	m := randMsg(rng, 1)
	m.Corr = "my-corr"
	m.ReplyTo = "dyn.reply"
	addr := reply.Addr(rparams)
	if reply.Dyn {
		addr = m.ReplyTo
	}
	parent := context.Background()
	ctx, cancel := context.WithCancel(parent)
	defer cancel()
	if rng.Intn(3) == 0 { // Canceled by a parent
		var c2 context.CancelFunc
		ctx, c2 = context.WithCancel(context.WithValue(ctx, extensions.ContextKey("verif"), 1))
		defer c2()
	}
	end := func() { // The context is done
		cancel()
	}

	var mws []extensions.Middleware
	mws = append(mws, func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) error {
		dir := val(ctx, extensions.ContextKeyIsDirection)
		switch {
		case fault == "publish-middleware" && dir == "publication":
			return errInjected
		case fault == "reply-middleware" && dir == "wait-for":
			return errInjected
		case fault == "reply-broken" && dir == "wait-for":
			msg.Payload = []byte("{")
		case fault == "context-middleware" && dir == "wait-for":
			end()
		case fault == "kill-middleware" && dir == "wait-for":
			for _, s := range b.Live() {
				s.Kill()
			}
		}
		return next(ctx)
	})
	c := side.New(ver, o.Sender, b.View("req"), side.Options{Middlewares: mws})

	// What is done while publishing
	corr := make(chan string, 1)
	b.OnSubscribe = func(sctx context.Context, channel string) error {
		switch fault {
		case "subscribe-error":
			return errInjected
		case "context-subscribe-honored":
			end()
			<-sctx.Done() // The context of the request is the one of the subscription
			return sctx.Err()
		case "context-subscribe":
			end()
		}
		return nil
	}
	b.OnPublish = func(pctx context.Context, channel string, msg extensions.BrokerMessage) error {
		got, err := o.FromRaw(msg)
		if err == nil {
			select {
			case corr <- got.Corr:
			default:
			}
		}
		switch fault {
		case "publish-error":
			return errInjected
		case "publish-error-after-context":
			end()
			return errInjected
		case "context-publish":
			end()
		case "context-publish-honored":
			end()
			<-pctx.Done() // The context of the request is the one of the publication
			return pctx.Err()
		case "kill-publish":
			for _, s := range b.Live() {
				s.Kill()
			}
		}
		return nil
	}
	release := make(chan struct{})
	if fault == "context-slow-cleanup" {
		b.OnCleanup = func(*mon.Sub) { <-release }
	}
	if fault == "context-before" {
		end()
	}

	var got side.Msg
	var err error
	done := mon.Go(func() { got, err = doRequest(ctx, c, o, reply, params, rparams, m) })

	late := map[string]bool{"reply": true, "context-noise": true, "context-middleware": true, "kill-noise": true,
		"kill-middleware": true, "reply-middleware": true, "reply-broken": true, "reply-malformed": true,
		"context-slow-cleanup": true, "context-flood": true, "kill-flood": true}[fault]
	what := fmt.Sprintf("request on %s ended by %s after %d other messages", o.Key(), fault, noise)
	var id string
	if late {
		if out := mon.Idle(); out == mon.Spinning {
			r.Violate("spin", what+": the processor is used while waiting:\n"+mon.BlockedStacks("verif/gen/"), nil)
			return
		} else if out != mon.Stuck {
			r.Undecided(what + ": not quiescent while waiting")
			return
		}
		select {
		case <-done:
			r.Violate("early-end", fmt.Sprintf("%s: ended before anything happened with (%s, %v)", what, got, err), nil)
			return
		default:
		}
		select {
		case id = <-corr:
		default:
			r.Violate("not-published", what+": request not published while it waits", nil)
			return
		}
		for i := 0; i < noise; i++ {
			if rng.Intn(3) == 0 {
				b.InjectAll(addr, malformed(rng))
				continue
			}
			x := randMsg(rng, int64(100+i))
			x.Corr = pick(rng, "", "foreign", id+"2")
			b.InjectAll(addr, reply.Raw(x))
		}
		if noise > 0 && rng.Intn(2) == 0 {
			if out := mon.Idle(); out == mon.Spinning {
				r.Violate("spin", what+": the processor is used while waiting:\n"+mon.BlockedStacks("verif/gen/"), nil)
				return
			} else if out != mon.Stuck {
				r.Undecided(what + ": not quiescent while waiting")
				return
			}
			select {
			case <-done:
				r.Violate("early-end", fmt.Sprintf("%s: ended by other messages with (%s, %v)", what, got, err), nil)
				return
			default:
			}
		}
		good := randMsg(rng, 77)
		good.Corr = id
		switch fault {
		case "reply", "context-middleware", "kill-middleware", "reply-middleware", "reply-broken":
			b.InjectAll(addr, reply.Raw(good))
		case "reply-malformed":
			b.InjectAll(addr, malformed(rng))
		case "context-noise", "context-slow-cleanup":
			end()
		case "kill-noise":
			for _, s := range b.Live() {
				s.Kill()
			}
		case "context-flood", "kill-flood":
			if noCorr {
				end()
				break
			}
			var stop atomic.Bool
			var wg sync.WaitGroup
			wg.Add(1)
			go func() { // Messages keep coming
				defer wg.Done()
				for i := 0; i < 3000 && !stop.Load(); i++ {
					x := randMsg(rand.New(rand.NewSource(int64(i))), int64(1000+i))
					x.Corr = "foreign"
					b.InjectAll(addr, reply.Raw(x))
				}
			}()
			if fault == "context-flood" {
				end()
			} else {
				for _, s := range b.Live() {
					s.Kill()
				}
			}
			defer wg.Wait()
			defer stop.Store(true)
		}
	}
	if !ended(r, "endless", what+" does not end", mon.Wait(done)) {
		close(release)
		return
	}
	close(release)
	if out := mon.Idle(); out == mon.Spinning {
		r.Violate("spin", what+": the processor is used after the end:\n"+mon.BlockedStacks("verif/gen/", "pkg/extensions"), nil)
		return
	} else if out != mon.Stuck {
		r.Undecided(what + ": not quiescent after the end")
		return
	}

	// The result
	is := func(targets ...error) bool {
		for _, t := range targets {
			if errors.Is(err, t) {
				return true
			}
		}
		return false
	}
	ok := false
	switch fault {
	case "reply", "context-middleware", "kill-middleware":
		ok = err == nil && got.ID == 77
		if fault != "reply" && err != nil { // Both are correct
			ok = is(extensions.ErrContextCanceled, extensions.ErrSubscriptionCanceled, context.Canceled)
		}
	case "subscribe-error", "publish-error", "publish-middleware", "reply-middleware":
		ok = is(errInjected)
	case "publish-error-after-context":
		ok = is(errInjected, extensions.ErrContextCanceled, context.Canceled)
	case "reply-broken", "reply-malformed":
		ok = err != nil && !is(extensions.ErrContextCanceled, extensions.ErrSubscriptionCanceled)
	case "kill-publish", "kill-noise":
		ok = is(extensions.ErrSubscriptionCanceled)
	case "kill-flood":
		ok = is(extensions.ErrSubscriptionCanceled) || noCorr && is(extensions.ErrContextCanceled, context.Canceled)
	default:
		ok = is(extensions.ErrContextCanceled, context.Canceled)
	}
	if !ok {
		r.Violate("wrong-result", fmt.Sprintf("%s: returned (%s, %v)", what, got, err), nil)
	}

	// What is left
	subs := b.AllSubs()
	wantSubs := 1
	if fault == "subscribe-error" || fault == "context-subscribe-honored" {
		wantSubs = 0
	}
	maybeNone := strings.HasPrefix(fault, "context-before") || fault == "context-subscribe"
	if len(subs) != wantSubs && !(maybeNone && len(subs) == 0) {
		r.Violate("subscriptions", fmt.Sprintf("%s: %d subscriptions instead of %d", what, len(subs), wantSubs), nil)
	}
	b.Lock()
	for _, s := range subs {
		if s.Cleanups != 1 {
			r.Violate("leaked-subscription", fmt.Sprintf("%s: subscription cancelled %d times: %s", what, s.Cleanups, s.HistoryLocked()), nil)
		}
		if s.Channel != addr {
			r.Violate("subscriptions", fmt.Sprintf("%s: subscription on %q instead of %q", what, s.Channel, addr), nil)
		}
		r.Observe("noise_messages", len(s.Items))
	}
	b.Unlock()
	if after := mon.CountStacks("verif/gen/", "pkg/extensions."); after > before {
		r.Violate("leaked-goroutine", fmt.Sprintf("%s: %d goroutines are left:\n%s", what, after-before,
			mon.BlockedStacks("verif/gen/", "pkg/extensions.")), nil)
	}
	r.Observe("requests_ended_by_"+fault, 1)
	cause := "nil"
	if err != nil {
		cause = err.Error()
	}
	r.Eval(fmt.Sprintf("%s/%s/%d/%s", o.Key(), fault, noise, cause))
	r.Sample(map[string]any{"scenario": r.Scenario(), "operation": o.Key(), "noise": noise, "error": cause, "cleanups": len(subs)})
}
