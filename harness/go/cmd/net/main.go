// Command net runs the monitors of the controllers of the brokers, against
// servers that record all what they are asked.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verif/mon"
)

var checks = map[string]func(r *mon.Report){}

// patience is how long nothing has to happen for an execution to be stuck.
const patience = 12 * time.Second

func main() {
	r := mon.NewReport()
	f, ok := checks[r.Prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", r.Prop)
		os.Exit(3)
	}
	f(r)
	r.Flush()
}

func pick[T any](rng *rand.Rand, vals ...T) T { return vals[rng.Intn(len(vals))] }

// wait waits for a condition, and reports when it never comes.
func wait(r *mon.Report, kind, what string, cond func() bool) bool {
	switch mon.Until(cond, patience) {
	case mon.Finished:
		return true
	case mon.Stuck:
		r.Violate(kind, what+": never happens:\n"+mon.BlockedStacks("lerenn/asyncapi-codegen/pkg"), nil)
	default:
		r.Undecided(what + ": not decided in time")
	}
	return false
}

// run waits for the end of a function.
func run(r *mon.Report, kind, what string, f func()) bool {
	return wait(r, kind, what, mon.Done(mon.Go(f)))
}

var headerKeys = []string{"trace", "X-a", "x-A", "correlationId", "UPPER", "a_b", "x.y", "k1", "Content-Type"}
var headerValues = []string{"", "v", "a b", "é日本", "a:b", "{\"a\":1}", "100%d", "x, y", "\"q\"", "0", "null", "=?x?="}

// message makes a random message; its content identifies it if asked.
func message(rng *rand.Rand, id string) extensions.BrokerMessage {
	m := extensions.BrokerMessage{}
	if rng.Intn(4) > 0 {
		m.Headers = map[string][]byte{}
		for i := rng.Intn(4); i > 0; i-- {
			m.Headers[pick(rng, headerKeys...)] = []byte(pick(rng, headerValues...))
		}
		if rng.Intn(3) == 0 {
			m.Headers["id"] = []byte(id)
			if rng.Intn(3) == 0 {
				return m // Without payload
			}
		}
	}
	m.Payload = []byte(id + " ")
	switch rng.Intn(4) {
	case 0:
		m.Payload = append(m.Payload, "\r\nMSG a 1 3\r\nabc\r\n"...)
	case 1:
		b := make([]byte, rng.Intn(3000))
		rng.Read(b)
		m.Payload = append(m.Payload, b...)
	}
	return m
}

// same compares messages: no difference is made between nothing and empty.
func same(a, b extensions.BrokerMessage) bool {
	if len(a.Headers) != len(b.Headers) || !bytes.Equal(a.Payload, b.Payload) {
		return false
	}
	for k, v := range a.Headers {
		w, ok := b.Headers[k]
		if !ok || !bytes.Equal(v, w) {
			return false
		}
	}
	return true
}

func show(m extensions.BrokerMessage) string {
	h := map[string]string{}
	for k, v := range m.Headers {
		h[k] = string(v)
	}
	b, _ := json.Marshal(h)
	p := fmt.Sprintf("%q", m.Payload)
	if len(p) > 160 {
		p = p[:160] + "…"
	}
	return fmt.Sprintf("{headers %s payload %s}", b, p)
}

// logs is a logger that counts.
type logs struct {
	mu     sync.Mutex
	errors []string
	warns  []string
}

func (l *logs) Info(context.Context, string, ...extensions.LogInfo) {}
func (l *logs) Warning(_ context.Context, m string, _ ...extensions.LogInfo) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.warns = append(l.warns, m)
}
func (l *logs) Error(_ context.Context, m string, _ ...extensions.LogInfo) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.errors = append(l.errors, m)
}
func (l *logs) count() (int, int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.errors), len(l.warns)
}

// received is what a subscription got.
type received struct {
	mu     sync.Mutex
	msgs   []extensions.AcknowledgeableBrokerMessage
	closed bool
	gate   chan struct{} // Nothing is read until it is closed
}

func (x *received) list() []extensions.AcknowledgeableBrokerMessage {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]extensions.AcknowledgeableBrokerMessage(nil), x.msgs...)
}

func (x *received) len() int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return len(x.msgs)
}

func (x *received) isClosed() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.closed
}

// read reads a subscription until its end.
func (x *received) read(sub extensions.BrokerChannelSubscription, j *mon.Jitter, settle func(i int, m *extensions.AcknowledgeableBrokerMessage)) {
	if x.gate != nil {
		<-x.gate
	}
	for m := range sub.MessagesChannel() {
		mon.Touch()
		j.Pause()
		x.mu.Lock()
		i := len(x.msgs)
		x.msgs = append(x.msgs, m)
		x.mu.Unlock()
		if settle != nil {
			settle(i, &m)
		}
	}
	x.mu.Lock()
	x.closed = true
	x.mu.Unlock()
}
