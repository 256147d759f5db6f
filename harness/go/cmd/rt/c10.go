package main

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verif/mon"
)

func init() { checks["C10"] = c10 }

func c10(r *mon.Report) {
	for i := 0; i < r.N(1600, 32000); i++ {
		name := fmt.Sprintf("protocol/%d", i)
		if r.Mine(name, i) {
			c10protocol(r, r.Rng("C10", name))
		}
	}
	for i := 0; i < r.N(600, 12000); i++ {
		name := fmt.Sprintf("slow/%d", i)
		if r.Mine(name, i) {
			c10slow(r, r.Rng("C10", name))
		}
	}
	for i := 0; i < r.N(1200, 20000); i++ {
		name := fmt.Sprintf("settle/%d", i)
		if r.Mine(name, i) {
			c10settle(r, r.Rng("C10", name))
		}
	}
}

func c10sub(rng *rand.Rand) extensions.BrokerChannelSubscription {
	return extensions.NewBrokerChannelSubscription(
		make(chan extensions.AcknowledgeableBrokerMessage, pick(rng, 0, 0, 1, 2, 8, 64)), make(chan any, pick(rng, 1, 1, 0)))
}

// c10protocol: a transmitter, a receiver (that may stop reading) and cancellers.
func c10protocol(r *mon.Report, rng *rand.Rand) {
	before := mon.CountStacks("pkg/extensions.")
	j := mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), pick(rng, 0, 20, 150))
	sub := c10sub(rng)
	capacity := cap(sub.MessagesChannel())
	var cleanups atomic.Int64
	var cleanupEnd atomic.Int64
	sub.WaitForCancellationAsync(func() {
		j.Pause()
		cleanups.Add(1)
		cleanupEnd.Store(mon.Tick())
	})
	// Transmitter: all before the cancellation, racing with it, then some after
	type sent struct{ start, end int64 }
	n := rng.Intn(20)
	racing := rng.Intn(20)
	cancelAt := 0 // Cancellation once this number of messages has been transmitted
	if n > 0 {
		cancelAt = 1 + rng.Intn(n)
	}
	total := n + racing
	sents := make([]sent, total)
	readLimit := -1 // The receiver stops reading after some messages, then drains at the end
	if rng.Intn(3) == 0 {
		readLimit = rng.Intn(n + 2)
	}
	go4cancel := make(chan struct{})
	transmitter := mon.Go(func() {
		if cancelAt == 0 {
			close(go4cancel)
		}
		for i := 0; i < total; i++ {
			sents[i].start = mon.Tick()
			sub.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(
				extensions.BrokerMessage{Payload: []byte(fmt.Sprint(i))}, noAck{}))
			sents[i].end = mon.Tick()
			if i+1 == cancelAt {
				close(go4cancel)
			}
			j.Pause()
		}
	})
	var mu sync.Mutex
	var got []int
	var closedAt int64
	resume := make(chan struct{})
	receiver := mon.Go(func() {
		k := 0
		for {
			if k == readLimit {
				<-resume
			}
			m, open := <-sub.MessagesChannel()
			if !open {
				closedAt = mon.Tick()
				return
			}
			var v int
			if _, err := fmt.Sscan(string(m.Payload), &v); err != nil {
				v = -1
			}
			mu.Lock()
			got = append(got, v)
			mu.Unlock()
			k++
			j.Pause()
		}
	})
	// Cancellers
	cancellers := 1 + rng.Intn(4)
	ret := make([]int64, cancellers)
	var firstCall atomic.Int64
	var wg sync.WaitGroup
	starved := readLimit >= 0 && readLimit+capacity < cancelAt // The cancellation is never reached
	for c := 0; c < cancellers; c++ {
		c := c
		wg.Add(1)
		times := 1 + rng.Intn(2)
		wait := !starved
		go func() {
			defer wg.Done()
			if wait {
				<-go4cancel
			}
			j.Pause()
			firstCall.CompareAndSwap(0, mon.Tick())
			for ; times > 0; times-- {
				sub.Cancel(context.Background())
			}
			ret[c] = mon.Tick()
		}()
	}
	what := fmt.Sprintf("%d+%d messages, capacity %d, read limit %d, cancellation by %d after %d", n, racing, capacity, readLimit, cancellers, cancelAt)
	if !ended(r, "cancel-blocked", what+": cancellation does not return", mon.Wait(mon.Go(wg.Wait))) {
		return
	}
	if !ended(r, "transmit-blocked", what+": transmission does not return", mon.Wait(transmitter)) {
		return
	}
	if cleanups.Load() != 1 {
		r.Violate("cleanup", fmt.Sprintf("%s: clean up called %d times", what, cleanups.Load()), nil)
	}
	for _, t := range ret {
		if t < cleanupEnd.Load() || cleanupEnd.Load() == 0 {
			r.Violate("cancel-early", fmt.Sprintf("%s: a cancellation returned at %d before the end of the clean up at %d", what, t, cleanupEnd.Load()), nil)
		}
	}
	// After the cancellation
	after := mon.Go(func() {
		for i := 0; i < 3; i++ {
			sub.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(extensions.BrokerMessage{Payload: []byte("9999")}, noAck{}))
		}
		sub.Cancel(context.Background())
	})
	if !ended(r, "transmit-blocked", what+": transmission after the cancellation does not return", mon.Wait(after)) {
		return
	}
	close(resume)
	if !ended(r, "not-closed", what+": messages channel not closed after the cancellation", mon.Wait(receiver)) {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	inOrder := true
	set := map[int]bool{}
	for i, v := range got {
		if i > 0 && got[i-1] >= v {
			inOrder = false
		}
		set[v] = true
	}
	if !inOrder || set[9999] || set[-1] {
		r.Violate("received", fmt.Sprintf("%s: received %v", what, got), nil)
	}
	missing := 0
	for i, s := range sents {
		if s.end < firstCall.Load() && !set[i] {
			r.Violate("lost", fmt.Sprintf("%s: message %d, transmitted before the cancellation was requested (%d < %d), has not been received: %v", what, i, s.end, firstCall.Load(), got), nil)
			break
		}
		if !set[i] {
			missing++
		}
	}
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	if left := mon.CountStacks("pkg/extensions."); left > before {
		r.Violate("leaked-goroutine", what+": goroutines are left:\n"+mon.BlockedStacks("pkg/extensions."), nil)
	}
	_ = closedAt
	r.Observe("messages_transmitted", total)
	r.Observe("messages_received", len(got))
	r.Observe("messages_dropped", missing)
	r.Observe("cancellations", cancellers)
	r.Eval(fmt.Sprintf("%s/%v", what, got))
	r.Sample(map[string]any{"scenario": r.Scenario(), "what": what, "received": fmt.Sprint(got)})
}

// c10slow: cancellations with contexts that end while the clean up is not done.
func c10slow(r *mon.Report, rng *rand.Rand) {
	sub := c10sub(rng)
	release := make(chan struct{})
	var cleanups atomic.Int64
	var ended2 atomic.Int64
	sub.WaitForCancellationAsync(func() {
		cleanups.Add(1)
		<-release
		ended2.Store(mon.Tick())
	})
	buffered := 0
	if c := cap(sub.MessagesChannel()); c > 0 {
		buffered = rng.Intn(c)
	}
	for i := 0; i < buffered; i++ {
		sub.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(extensions.BrokerMessage{Payload: []byte(fmt.Sprint(i))}, noAck{}))
	}
	impatient := 1 + rng.Intn(3)
	var wg, patient sync.WaitGroup
	for i := 0; i < impatient; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		if rng.Intn(2) == 0 {
			cancel()
		} else {
			k := rng.Intn(30)
			go func() {
				for ; k > 0; k-- {
					mon.Touch()
				}
				cancel()
			}()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer cancel()
			sub.Cancel(ctx)
		}()
	}
	var returned atomic.Int64
	patients := rng.Intn(3)
	early := false
	for i := 0; i < patients; i++ {
		patient.Add(1)
		go func() {
			defer patient.Done()
			sub.Cancel(context.Background())
			returned.Add(1)
			if ended2.Load() == 0 {
				early = true
			}
		}()
	}
	what := fmt.Sprintf("clean up that lasts, %d buffered messages, %d cancellations with a context that ends and %d without", buffered, impatient, patients)
	if !ended(r, "cancel-blocked", what+": cancellation does not return at the end of its context", mon.Wait(mon.Go(wg.Wait))) {
		return
	}
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	if returned.Load() != 0 {
		r.Violate("cancel-early", what+": cancellation returned before the end of the clean up", nil)
	}
	close(release)
	if !ended(r, "cancel-blocked", what+": cancellation does not return", mon.Wait(mon.Go(patient.Wait))) {
		return
	}
	if early {
		r.Violate("cancel-early", what+": cancellation returned before the end of the clean up", nil)
	}
	done := mon.Go(func() { sub.Cancel(context.Background()) })
	if !ended(r, "cancel-blocked", what+": cancellation does not return once all is done", mon.Wait(done)) {
		return
	}
	var got []string
	if !ended(r, "not-closed", what+": messages channel not closed", mon.Wait(mon.Go(func() {
		for m := range sub.MessagesChannel() {
			got = append(got, string(m.Payload))
		}
	}))) {
		return
	}
	if len(got) != buffered || cleanups.Load() != 1 {
		r.Violate("received", fmt.Sprintf("%s: received %v, %d clean ups", what, got, cleanups.Load()), nil)
	}
	r.Observe("slow_cleanups", 1)
	r.Eval(what)
}

// countAck counts the settlements.
type countAck struct {
	mu sync.Mutex
	l  []string
}

func (c *countAck) AckMessage() { c.mu.Lock(); defer c.mu.Unlock(); c.l = append(c.l, "ack") }
func (c *countAck) NakMessage() { c.mu.Lock(); defer c.mu.Unlock(); c.l = append(c.l, "nak") }

// c10settle: a message is settled once.
func c10settle(r *mon.Report, rng *rand.Rand) {
	c := &countAck{}
	m := extensions.NewAcknowledgeableBrokerMessage(extensions.BrokerMessage{Payload: []byte("x")}, c)
	n := 1 + rng.Intn(6)
	var seq []string
	if rng.Intn(2) == 0 {
		for i := 0; i < n; i++ {
			k := pick(rng, "ack", "nak")
			seq = append(seq, k)
			if k == "ack" {
				m.Ack()
			} else {
				m.Nak()
			}
		}
		if len(c.l) != 1 || c.l[0] != seq[0] {
			r.Violate("settlement", fmt.Sprintf("settled %v by %v", c.l, seq), nil)
		}
		r.Eval("sequence " + strings.Join(seq, ","))
	} else {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < n; i++ {
			k := pick(rng, "ack", "nak")
			seq = append(seq, k)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if k == "ack" {
					m.Ack()
				} else {
					m.Nak()
				}
			}()
		}
		close(start)
		wg.Wait()
		if len(c.l) != 1 || !strings.Contains(strings.Join(seq, ","), c.l[0]) {
			r.Violate("settlement", fmt.Sprintf("settled %v by concurrent %v", c.l, seq), nil)
		}
		r.Eval("concurrent " + strings.Join(seq, ",") + strings.Join(c.l, "/"))
	}
	r.Observe("settlements", n)
}
