package main

import (
	"context"
	"fmt"
	"math/rand"
	"sync"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"

	"verif/mon"
)

// c04wrapper: the contexts that the broker and the logger get from the
// versioning wrapper, when it is used directly.
func c04wrapper(r *mon.Report, rng *rand.Rand) {
	b := mon.NewBroker(mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), pick(rng, 0, 30)), pick(rng, 0, 4))
	var mu sync.Mutex
	var subscribed, dropped int
	user := fmt.Sprint("user", rng.Intn(100))
	look := func(where string, ctx context.Context, k extensions.ContextKey, want string) {
		if val(ctx, k) != want {
			r.Violate(where+"-"+string(k), fmt.Sprintf("%s: the context has %q = %q instead of %q", where, k, val(ctx, k), want), nil)
		}
	}
	b.OnSubscribe = func(ctx context.Context, channel string) error {
		mu.Lock()
		defer mu.Unlock()
		subscribed++
		look("wrapper-subscribe", ctx, extensions.ContextKeyIsChannel, channel)
		look("wrapper-subscribe", ctx, extensions.ContextKeyIsDirection, "reception")
		if ctx.Value(userKey{}) != user {
			r.Violate("wrapper-subscribe-caller", "the values of the context given by the caller are lost", nil)
		}
		return nil
	}
	b.OnPublish = func(ctx context.Context, channel string, msg extensions.BrokerMessage) error {
		look("wrapper-publish", ctx, extensions.ContextKeyIsVersion, "1")
		if ctx.Value(userKey{}) != user {
			r.Violate("wrapper-publish-caller", "the values of the context given by the caller are lost", nil)
		}
		return nil
	}
	channel := fmt.Sprint("chan", rng.Intn(100))
	foreign := extensions.BrokerMessage{Headers: map[string][]byte{"application-version": []byte("nobody")}, Payload: []byte(*randTextNotNil(rng))}
	lost := extensions.BrokerMessage{Headers: map[string][]byte{}, Payload: []byte(*randTextNotNil(rng))}
	w := versioning.NewWrapper(b, versioning.WithLogger(ctxLogger{func(level string, ctx context.Context, msg string) {
		mu.Lock()
		defer mu.Unlock()
		dropped++
		look("wrapper-log", ctx, extensions.ContextKeyIsChannel, channel)
		look("wrapper-log", ctx, extensions.ContextKeyIsDirection, "reception")
		switch text := fmt.Sprint(ctx.Value(extensions.ContextKeyIsBrokerMessage)); text {
		case foreign.String():
			look("wrapper-log", ctx, extensions.ContextKeyIsVersion, "nobody")
		case lost.String():
		default:
			r.Violate("wrapper-log-message", fmt.Sprintf("%q is logged about %s, which is none of the messages", msg, text), nil)
		}
	}}))
	ctx := context.WithValue(context.WithValue(context.Background(), userKey{}, user), extensions.ContextKeyIsVersion, "1")
	sub, err := w.Subscribe(ctx, channel)
	if err != nil {
		r.Violate("subscribe-error", err.Error(), nil)
		return
	}
	n := 0
	for i := 0; i < 1+rng.Intn(3); i++ {
		b.InjectAll(channel, mon.CloneMsg(foreign))
		b.InjectAll(channel, mon.CloneMsg(lost))
		n += 2
	}
	if err := w.Publish(ctx, channel, extensions.BrokerMessage{Payload: []byte("x")}); err != nil {
		r.Violate("send-error", err.Error(), nil)
	}
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	go func() {
		for range sub.MessagesChannel() {
		}
	}()
	sub.Cancel(context.Background())
	mu.Lock()
	defer mu.Unlock()
	if dropped != n {
		r.Violate("wrapper-logs", fmt.Sprintf("%d entries logged for %d messages without subscriber", dropped, n), nil)
	}
	r.Observe("contexts_checked", subscribed+dropped+1)
	r.Eval("wrapper " + foreign.String() + lost.String())
}

func randTextNotNil(rng *rand.Rand) *string {
	for {
		if s := randText(rng); s != nil {
			return s
		}
	}
}

// c04helpers: the functions that look at a context.
func c04helpers(r *mon.Report, rng *rand.Rand) {
	key := pick(rng, extensions.ContextKeyIsVersion, extensions.ContextKeyIsChannel, extensions.ContextKeyIsCorrelationID, extensions.ContextKey("other"))
	v, w := pick(rng, "", "a", "b"), pick(rng, "", "a", "b")
	set, typed := rng.Intn(2) == 0, rng.Intn(3) > 0
	ctx := context.Background()
	if set {
		if typed {
			ctx = context.WithValue(ctx, key, v)
		} else {
			ctx = context.WithValue(ctx, key, 12)
		}
	}
	for k := rng.Intn(3); k > 0; k-- {
		ctx = context.WithValue(ctx, extensions.ContextKey("k"), k)
	}
	var got []string
	var nots, equals, anys int
	extensions.IfContextSetWith(ctx, key, func(s string) { got = append(got, s) })
	extensions.IfContextSetWith(ctx, key, func(any) { anys++ })
	extensions.IfContextNotSetWith[string](ctx, key, func() { nots++ })
	extensions.IfContextValueEquals(ctx, key, w, func() { equals++ })
	b := map[bool]int{true: 1}
	if len(got) != b[set && typed] || (len(got) == 1 && got[0] != v) || anys != b[set] || nots != b[!set] || equals != b[set && typed && v == w] {
		r.Violate("helpers", fmt.Sprintf("set=%v typed=%v value=%q compared=%q: given %q and %d, absent %d, equal %d", set, typed, v, w, got, anys, nots, equals), nil)
	}

	// The zero message is the only one that is so
	m := extensions.BrokerMessage{}
	if rng.Intn(2) == 0 {
		m.Headers = map[string][]byte{}
	}
	if rng.Intn(2) == 0 {
		m.Payload = []byte{}
	}
	if m.IsUninitialized() != (m.Headers == nil && m.Payload == nil) {
		r.Violate("helpers-uninitialized", fmt.Sprintf("%#v is said uninitialized: %v", m, m.IsUninitialized()), nil)
	}
	r.Eval(fmt.Sprintf("helpers %v%v%v%v%v%v", key, set, typed, v == w, m.Headers == nil, m.Payload == nil))
}
