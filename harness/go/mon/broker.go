package mon

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
)

var clock atomic.Int64

// Tick gives the next instant of the logical clock.
func Tick() int64 { Touch(); return clock.Add(1) }

// Jitter perturbs the schedule.
type Jitter struct {
	mu  sync.Mutex
	rng *rand.Rand
	max int
}

// NewJitter creates a source of delays up to max microseconds.
func NewJitter(rng *rand.Rand, max int) *Jitter { return &Jitter{rng: rng, max: max} }

// Pause maybe lets others run.
func (j *Jitter) Pause() {
	if j == nil || j.max == 0 {
		return
	}
	j.mu.Lock()
	k, d := j.rng.Intn(10), j.rng.Intn(j.max)
	j.mu.Unlock()
	switch {
	case k < 4:
	case k < 8:
		runtime.Gosched()
	default:
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
}

// Intn gives a random number.
func (j *Jitter) Intn(n int) int {
	j.mu.Lock()
	defer j.mu.Unlock()
	return j.rng.Intn(n)
}

// Delivery is a message transmitted by the broker on a subscription.
type Delivery struct {
	Sub      *Sub
	Seq      int
	Msg      extensions.BrokerMessage
	Started  int64 // Instant of the call to TransmitReceivedMessage
	Returned int64 // Instant of its return
	Settled  []Settlement
	OnSettle func(kind string)
}

// Settlement is an acknowledgement.
type Settlement struct {
	Kind string
	At   int64
}

// AckMessage implements extensions.BrokerAcknowledgment.
func (d *Delivery) AckMessage() { d.settle("ack") }

// NakMessage implements extensions.BrokerAcknowledgment.
func (d *Delivery) NakMessage() { d.settle("nak") }

func (d *Delivery) settle(kind string) {
	if d.OnSettle != nil {
		d.OnSettle(kind)
	}
	d.Sub.B.mu.Lock()
	defer d.Sub.B.mu.Unlock()
	d.Settled = append(d.Settled, Settlement{kind, Tick()})
}

// Sub is a subscription made on the broker.
type Sub struct {
	B        *Broker
	ID       int
	Owner    string
	Channel  string
	BCS      extensions.BrokerChannelSubscription
	Ctx      context.Context
	At       int64
	Cleanups int   // Number of calls of the clean up function
	Canceled int64 // Instant of the clean up
	Items    []*Delivery
	cond     *sync.Cond
	next     int
	closed   bool
}

// Pub is a publication made on the broker.
type Pub struct {
	Owner   string
	Channel string
	Msg     extensions.BrokerMessage
	Ctx     context.Context
	At      int64
}

// Broker is an in-memory broker that records all that happens on it.
type Broker struct {
	mu   sync.Mutex
	Subs []*Sub
	Pubs []*Pub

	// OnSubscribe and OnPublish are called first (out of any lock) and can fail.
	OnSubscribe func(ctx context.Context, channel string) error
	OnPublish   func(ctx context.Context, channel string, msg extensions.BrokerMessage) error
	// OnCleanup is called when a subscription is cleaned up.
	OnCleanup func(s *Sub)
	// OnDeliver is called before each transmission, after its registration.
	OnDeliver func(d *Delivery)
	// NoFanOut disables the transmission of the publications.
	NoFanOut bool
	// Cap is the capacity of the subscriptions channels.
	Cap int
	J   *Jitter
}

// NewBroker creates a broker.
func NewBroker(j *Jitter, capacity int) *Broker { return &Broker{J: j, Cap: capacity} }

var _ extensions.BrokerController = (*Broker)(nil)

// CloneMsg copies a message.
func CloneMsg(m extensions.BrokerMessage) extensions.BrokerMessage {
	c := extensions.BrokerMessage{}
	if m.Headers != nil {
		c.Headers = make(map[string][]byte, len(m.Headers))
		for k, v := range m.Headers {
			c.Headers[k] = append([]byte{}, v...)
		}
	}
	if m.Payload != nil {
		c.Payload = append([]byte{}, m.Payload...)
	}
	return c
}

// View is an access to the broker for someone.
type View struct {
	B     *Broker
	Owner string
}

// View gives an access to the broker for someone.
func (b *Broker) View(owner string) *View { return &View{b, owner} }

// Publish implements extensions.BrokerController.
func (v *View) Publish(ctx context.Context, channel string, msg extensions.BrokerMessage) error {
	return v.B.publish(ctx, v.Owner, channel, msg)
}

// Subscribe implements extensions.BrokerController.
func (v *View) Subscribe(ctx context.Context, channel string) (extensions.BrokerChannelSubscription, error) {
	return v.B.subscribe(ctx, v.Owner, channel)
}

// Publish implements extensions.BrokerController.
func (b *Broker) Publish(ctx context.Context, channel string, msg extensions.BrokerMessage) error {
	return b.publish(ctx, "", channel, msg)
}

// Subscribe implements extensions.BrokerController.
func (b *Broker) Subscribe(ctx context.Context, channel string) (extensions.BrokerChannelSubscription, error) {
	return b.subscribe(ctx, "", channel)
}

func (b *Broker) publish(ctx context.Context, owner, channel string, msg extensions.BrokerMessage) error {
	if b.OnPublish != nil {
		if err := b.OnPublish(ctx, channel, msg); err != nil {
			return err
		}
	}
	b.J.Pause()
	b.mu.Lock()
	b.Pubs = append(b.Pubs, &Pub{Owner: owner, Channel: channel, Msg: CloneMsg(msg), Ctx: ctx, At: Tick()})
	if !b.NoFanOut {
		for _, s := range b.Subs {
			if s.Channel == channel && !s.closed {
				s.push(CloneMsg(msg))
			}
		}
	}
	b.mu.Unlock()
	b.J.Pause()
	return nil
}

func (s *Sub) push(msg extensions.BrokerMessage) *Delivery {
	d := &Delivery{Sub: s, Seq: len(s.Items), Msg: msg}
	s.Items = append(s.Items, d)
	s.cond.Signal()
	return d
}

// Inject delivers a message to a subscription.
func (s *Sub) Inject(msg extensions.BrokerMessage) *Delivery {
	s.B.mu.Lock()
	defer s.B.mu.Unlock()
	return s.push(CloneMsg(msg))
}

// InjectAll delivers a message to every live subscription of a channel.
func (b *Broker) InjectAll(channel string, msg extensions.BrokerMessage) []*Delivery {
	b.mu.Lock()
	defer b.mu.Unlock()
	var res []*Delivery
	for _, s := range b.Subs {
		if s.Channel == channel && !s.closed {
			res = append(res, s.push(CloneMsg(msg)))
		}
	}
	return res
}

func (b *Broker) subscribe(ctx context.Context, owner, channel string) (extensions.BrokerChannelSubscription, error) {
	if b.OnSubscribe != nil {
		if err := b.OnSubscribe(ctx, channel); err != nil {
			return extensions.BrokerChannelSubscription{}, err
		}
	}
	b.J.Pause()
	s := &Sub{
		B: b, Owner: owner, Channel: channel, Ctx: ctx,
		BCS: extensions.NewBrokerChannelSubscription(
			make(chan extensions.AcknowledgeableBrokerMessage, b.Cap), make(chan any, 1)),
	}
	s.cond = sync.NewCond(&b.mu)
	b.mu.Lock()
	s.ID = len(b.Subs)
	s.At = Tick()
	b.Subs = append(b.Subs, s)
	b.mu.Unlock()

	go s.pump()
	s.BCS.WaitForCancellationAsync(func() {
		if b.OnCleanup != nil {
			b.OnCleanup(s)
		}
		b.J.Pause()
		b.mu.Lock()
		defer b.mu.Unlock()
		s.Cleanups++
		s.closed = true
		s.Canceled = Tick()
		s.cond.Broadcast()
	})
	b.J.Pause()
	return s.BCS, nil
}

func (s *Sub) pump() {
	for {
		s.B.mu.Lock()
		for s.next == len(s.Items) && !s.closed {
			s.cond.Wait()
		}
		if s.closed {
			s.B.mu.Unlock()
			return
		}
		d := s.Items[s.next]
		s.next++
		d.Started = Tick()
		msg := CloneMsg(d.Msg)
		s.B.mu.Unlock()

		if s.B.OnDeliver != nil {
			s.B.OnDeliver(d)
		}
		s.B.J.Pause()
		s.BCS.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(msg, d))
		s.B.mu.Lock()
		d.Returned = Tick()
		s.B.mu.Unlock()
	}
}

// Kill makes the broker end the subscription on its own side.
func (s *Sub) Kill() { s.BCS.Cancel(context.Background()) }

// Lock gives access to the state of the broker.
func (b *Broker) Lock() { b.mu.Lock() }

// Unlock ends the access to the state of the broker.
func (b *Broker) Unlock() { b.mu.Unlock() }

// Live returns the channels of the live subscriptions.
func (b *Broker) Live() []*Sub {
	b.mu.Lock()
	defer b.mu.Unlock()
	var res []*Sub
	for _, s := range b.Subs {
		if !s.closed {
			res = append(res, s)
		}
	}
	return res
}

// AllSubs returns a copy of the list of the subscriptions ever made.
func (b *Broker) AllSubs() []*Sub {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]*Sub{}, b.Subs...)
}

// AllPubs returns a copy of the list of the publications.
func (b *Broker) AllPubs() []*Pub {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]*Pub{}, b.Pubs...)
}

// Pending tells if some messages are not transmitted yet on live subscriptions.
func (b *Broker) Pending() bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, s := range b.Subs {
		if !s.closed && len(s.Items) > 0 && s.Items[len(s.Items)-1].Returned == 0 {
			return true
		}
	}
	return false
}

// History describes what a subscription went through.
func (s *Sub) History() string {
	s.B.mu.Lock()
	defer s.B.mu.Unlock()
	return s.HistoryLocked()
}

// HistoryLocked is the same when the broker is locked already.
func (s *Sub) HistoryLocked() string {
	str := fmt.Sprintf("subscription #%d of %q on %q: created@%d cleanups=%d@%d;", s.ID, s.Owner, s.Channel, s.At, s.Cleanups, s.Canceled)
	for _, d := range s.Items {
		str += fmt.Sprintf(" [%d: %s sent@%d-%d settled=%v]", d.Seq, d.Msg.Payload, d.Started, d.Returned, d.Settled)
	}
	return str
}
