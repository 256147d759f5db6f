package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"verif/mon"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"
)

// c09first: several versions subscribe to and leave the same channel at the same time.
func c09first(r *mon.Report, rng *rand.Rand) {
	j := mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), pick(rng, 50, 200, 500))
	b := mon.NewBroker(j, pick(rng, 0, 1, 16))
	refused := errors.New("refused")
	fails := rng.Intn(4) == 0
	slow := rng.Intn(2) == 0
	b.OnSubscribe = func(context.Context, string) error {
		if slow {
			time.Sleep(time.Duration(100+j.Intn(300)) * time.Microsecond)
		} else {
			j.Pause()
		}
		if fails && j.Intn(3) == 0 {
			return refused
		}
		return nil
	}
	w := versioning.NewWrapper(b)
	k := 2 + rng.Intn(3)
	twice := rng.Intn(2) == 0
	key := ""
	for round := 0; round < 4; round++ {
		var mu sync.Mutex
		var subs []*c09sub
		dup, ok := map[string]int{}, map[string]int{}
		var failed int
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < k*2; i++ {
			if i >= k && !twice {
				break
			}
			v := fmt.Sprintf("V%d", i%k)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				sub, err := w.Subscribe(withVersion(v), "ch")
				mu.Lock()
				defer mu.Unlock()
				switch {
				case err == nil:
					ok[v]++
					s := &c09sub{channel: "ch", version: v, sub: sub}
					s.listen(func(m *extensions.AcknowledgeableBrokerMessage) { m.Ack() })
					subs = append(subs, s)
				case errors.Is(err, extensions.ErrAlreadySubscribedChannel):
					dup[v]++
				case errors.Is(err, refused):
					failed++
				default:
					r.Violate("subscribe-error", err.Error(), nil)
				}
			}()
		}
		close(start)
		if !ended(r, "blocked", "concurrent first subscriptions of versions", mon.Wait(mon.Go(wg.Wait))) {
			return
		}
		for v, n := range ok {
			if n > 1 {
				r.Violate("twice", fmt.Sprintf("version %q is subscribed %d times on one channel", v, n), nil)
				return
			}
		}
		for v, n := range dup {
			if n > 0 && ok[v] == 0 {
				r.Violate("subscribe-error", fmt.Sprintf("version %q refused as already subscribed while it is not", v), nil)
				return
			}
		}
		want := 0
		if len(subs) > 0 {
			want = 1
		}
		if l := b.Live(); len(l) != want {
			r.Violate("broker-subscriptions", fmt.Sprintf("%d broker subscriptions for one channel once %d versions subscribed to it at the same time", len(l), len(subs)), nil)
			return
		}
		n := 1 + rng.Intn(4)
		for i := 0; i < n; i++ {
			for v := 0; v < k; v++ {
				b.InjectAll("ch", extensions.BrokerMessage{Payload: []byte(fmt.Sprint(i)),
					Headers: map[string][]byte{versioning.DefaultVersionHeaderKey: []byte(fmt.Sprintf("V%d", v))}})
			}
		}
		if !mon.Settle() {
			r.Undecided("not quiescent")
			return
		}
		for _, s := range subs {
			s.mu.Lock()
			if len(s.got) != n {
				r.Violate("routing", fmt.Sprintf("version %q received %v instead of %d messages", s.version, s.got, n), nil)
			}
			s.mu.Unlock()
		}
		for _, s := range subs {
			s := s
			wg.Add(1)
			go func() { defer wg.Done(); j.Pause(); s.sub.Cancel(context.Background()) }()
		}
		if !ended(r, "blocked", "concurrent cancellations of all the versions", mon.Wait(mon.Go(wg.Wait))) {
			return
		}
		if l := b.Live(); len(l) != 0 {
			r.Violate("broker-subscriptions", fmt.Sprintf("%d broker subscriptions left once all the versions are cancelled", len(l)), nil)
			return
		}
		r.Observe("simultaneous_subscriptions", len(subs))
		r.Observe("simultaneous_refusals", failed+len(dup))
		key += fmt.Sprintf("/%d-%d-%d", len(subs), failed, n)
	}
	r.Eval(fmt.Sprintf("first/%d/%v/%v%s", k, twice, fails, key))
}
