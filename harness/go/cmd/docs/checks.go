package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"sort"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verif/mon"
)

func init() {
	checks["C14"] = perOp(20, 400, c14)
	checks["C15"] = perOp(30, 600, c15)
	checks["C16"] = perOp(20, 400, c16)
}

// ctx of a check on one operation.
type ctx struct {
	r   *mon.Report
	rng *rand.Rand
	c   *Case
	o   *Op
	e   *End
	n   int
}

// perOp runs a check on each operation of each package.
func perOp(quick, thorough int, f func(x *ctx)) func(r *mon.Report, cases []*Case) {
	return func(r *mon.Report, cases []*Case) {
		i := 0
		for _, c := range cases {
			for _, o := range c.Ops {
				i++
				name := c.Name + "/" + o.Name
				if !r.Mine(name, i) {
					continue
				}
				e, err := Open(c)
				if err != nil {
					r.Violate("construction", fmt.Sprintf("%s: %v", name, err), nil)
					continue
				}
				x := &ctx{r: r, rng: r.Rng(r.Prop, name), c: c, o: o, e: e, n: r.N(quick, thorough)}
				if why := guard(func() { f(x) }); why != "" {
					r.Violate("shape", fmt.Sprintf("%s: %s", name, why), nil)
				}
			}
		}
	}
}

func (x *ctx) rand(n *Node) any { return x.c.Rand(x.rng, n, 0) }

func (x *ctx) violate(kind, format string, args ...any) {
	x.r.Violate(kind, fmt.Sprintf("%s/%s: ", x.c.Name, x.o.Name)+fmt.Sprintf(format, args...), nil)
}

// settled waits for n events, that is all; false if the case is over.
func (x *ctx) settled(n int, what string) ([]Got, bool) {
	switch x.e.wait(n) {
	case mon.Finished:
		return x.e.take(), true
	case mon.Stuck:
		x.violate("lost", "%s: nothing is received:\n%s", what, mon.BlockedStacks("verif/gen/", "pkg/extensions"))
	case mon.Spinning:
		x.violate("spinning", "%s: nothing is received:\n%s", what, mon.BlockedStacks("verif/gen/", "pkg/extensions"))
	default:
		x.r.Undecided(what + ": not ended in time")
	}
	return nil, false
}

func (x *ctx) lastPub() *mon.Pub {
	pubs := x.e.b.AllPubs()
	if len(pubs) == 0 {
		return nil
	}
	return pubs[len(pubs)-1]
}

// key identifies a value, up to its leaves.
func (x *ctx) key(m Message) string {
	return fmt.Sprintf("%s/%s/%s/%s", x.c.Name, x.o.Name, skeleton(m.Payload), skeleton(m.Headers))
}

func skeleton(v any) string {
	switch v := v.(type) {
	case map[string]any:
		var ks []string
		for k, e := range v {
			ks = append(ks, k+skeleton(e))
		}
		sort.Strings(ks)
		return fmt.Sprint("{", ks, "}")
	case []any:
		s := "["
		for _, e := range v {
			s += skeleton(e)
		}
		return s + "]"
	case string:
		return fmt.Sprintf("s%d", min(len(v), 9))
	case int64:
		return fmt.Sprintf("i%d", min(max(v, -9), 9))
	case bool:
		return fmt.Sprint(v)
	}
	return fmt.Sprintf("%T", v)
}

// c14: what is sent is received.
func c14(x *ctx) {
	o, c, e := x.o, x.c, x.e
	params := o.randParams(x.rng)
	addr := o.Addr(params)
	if err := e.Subscribe(o, params); err != nil {
		x.violate("subscription", "subscription to %q: %v", addr, err)
		return
	}
	subs := e.b.Live()
	if len(subs) != 1 || subs[0].Channel != addr {
		x.violate("address", "wants a subscription on %q, got %s", addr, describe(subs))
		return
	}
	x.r.Observe("addresses", 1)
	t := e.MsgType(o)
	for i := 0; i < x.n; i++ {
		m := c.RandMsg(x.rng, o, x.rand)
		msg := c.NewMsg(t, o, m)
		before := fmt.Sprintf("%#v", msg.Interface())
		if d := c.DiffMsg(o, m, c.ReadMsg(msg, o)); d != "" {
			x.violate("harness", "the value does not fit in the generated type: %s", d)
			return
		}
		if err := e.Send(o, params, msg); err != nil {
			x.violate("sending", "%#v: %v", m, err)
			return
		}
		pub := x.lastPub()
		if pub == nil || pub.Channel != addr {
			x.violate("address", "wants a publication on %q, got %+v", addr, pub)
			return
		}
		got, ok := x.settled(1, "round trip")
		if !ok {
			return
		}
		x.r.Observe("round_trips", 1)
		x.r.Observe("payload_"+c.Follow(o.Payload).K, 1)
		x.r.Eval(x.key(m))
		x.r.Sample(map[string]any{"operation": c.Name + "/" + o.Name, "payload": string(pub.Msg.Payload), "value": fmt.Sprint(m.Payload)})
		if len(got) != 1 || got[0].Err != nil {
			x.violate("decoding", "sent %#v as %q, got %v", m, pub.Msg, errOf(got))
			return
		}
		if got[0].Msg.Type() != t {
			x.violate("type", "sent a %s, received a %s", t, got[0].Msg.Type())
			return
		}
		if d := c.DiffMsg(o, m, c.ReadMsg(got[0].Msg, o)); d != "" {
			x.violate("round trip", "%s (sent as payload %q headers %q)", d, pub.Msg.Payload, pub.Msg.Headers)
			return
		}
		if !x.checkCorr(m, got[0].Msg) {
			return
		}
		if d := c.DiffMsg(o, m, c.ReadMsg(msg, o)); d != "" {
			x.violate("alteration", "the message given by the caller is changed: %s", d)
			return
		}
		if o.Corr != nil && i%6 == 0 && !x.withoutCorr(t, params) {
			return
		}
		if o.Headers == nil && before != fmt.Sprintf("%#v", msg.Interface()) && !hasPointers(t, map[reflect.Type]bool{}) {
			x.violate("alteration", "the message given by the caller is changed: %s -> %#v", before, msg.Interface())
			return
		}
	}
	if p2 := o.randParams(x.rng); o.Addr(p2) != addr && len(o.Params) > 0 {
		// Another address is another channel
		if err := e.Send(o, p2, c.NewMsg(t, o, c.RandMsg(x.rng, o, x.rand))); err != nil {
			x.violate("sending", "%v", err)
			return
		}
		if pub := x.lastPub(); pub.Channel != o.Addr(p2) {
			x.violate("address", "wants a publication on %q, got %q", o.Addr(p2), pub.Channel)
		}
		x.r.Observe("addresses", 1)
	}
	e.Unsubscribe(o, params)
	if l := e.b.Live(); len(l) != 0 {
		x.violate("address", "the unsubscription from %q leaves %s", addr, describe(l))
	}
}

// withoutCorr sends a message without correlation ID: the one that is sent gets one, but not
// the one of the caller, even if they share what they point to.
func (x *ctx) withoutCorr(t reflect.Type, params []string) bool {
	m := x.c.RandMsg(x.rng, x.o, x.rand)
	x.c.dropCorr(x.rng, x.o, m)
	msg := x.c.NewMsg(t, x.o, m)
	if err := x.e.Send(x.o, params, msg); err == nil {
		if _, ok := x.settled(1, "reception of a message without correlation ID"); !ok {
			return false
		}
	}
	if d := x.c.DiffMsg(x.o, m, x.c.ReadMsg(msg, x.o)); d != "" {
		x.violate("alteration", "the message given by the caller, without correlation ID, is changed: %s", d)
		return false
	}
	x.r.Observe("sent_without_correlation_id", 1)
	return true
}

func hasPointers(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Slice:
		return true
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasPointers(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

func describe(subs []*mon.Sub) string {
	s := fmt.Sprintf("%d subscriptions", len(subs))
	for _, e := range subs {
		s += fmt.Sprintf(" %q", e.Channel)
	}
	return s
}

func errOf(got []Got) string {
	s := ""
	for _, g := range got {
		if g.Err != nil {
			s += fmt.Sprintf("error %v; ", g.Err)
		} else {
			s += fmt.Sprintf("message %+v; ", g.Msg.Interface())
		}
	}
	return s
}

// c16: the bytes sent are instances of the schemas, and the instances can be
// received and sent again.
func c16(x *ctx) {
	o, c, e := x.o, x.c, x.e
	e.b.NoFanOut = true
	params := o.randParams(x.rng)
	if err := e.Subscribe(o, params); err != nil {
		x.violate("subscription", "%v", err)
		return
	}
	t := e.MsgType(o)
	for i := 0; i < x.n; i++ {
		m := c.RandMsg(x.rng, o, x.rand)
		// Sent
		if err := e.Send(o, params, c.NewMsg(t, o, m)); err != nil {
			x.violate("sending", "%#v: %v", m, err)
			return
		}
		pub := x.lastPub()
		x.r.Eval(x.key(m))
		x.r.Observe("encoded", 1)
		x.r.Sample(map[string]any{"operation": c.Name + "/" + o.Name, "payload": string(pub.Msg.Payload), "headers": fmt.Sprintf("%q", pub.Msg.Headers)})
		if !x.conforms(m, pub.Msg, "sent") {
			return
		}
		// Received, then sent again
		m2 := c.RandMsg(x.rng, o, x.rand)
		bm := c.EncodeMsg(x.rng, o, m2)
		e.b.Live()[0].Inject(bm)
		got, ok := x.settled(1, "reception")
		if !ok {
			return
		}
		x.r.Observe("injected", 1)
		if len(got) != 1 || got[0].Err != nil {
			x.violate("decoding", "an instance of the schema is refused: %q: %s", bm, errOf(got))
			return
		}
		if d := c.DiffMsg(o, m2, c.ReadMsg(got[0].Msg, o)); d != "" {
			x.violate("decoding", "%s (from payload %q headers %q)", d, bm.Payload, bm.Headers)
			return
		}
		if err := e.Send(o, params, got[0].Msg); err != nil {
			x.violate("sending", "a received message cannot be sent again: %q: %v", bm, err)
			return
		}
		if !x.conforms(m2, x.lastPub().Msg, "sent again") {
			return
		}
	}
}

// conforms checks bytes against the schema and the value.
func (x *ctx) conforms(m Message, bm extensions.BrokerMessage, what string) bool {
	w, verdict, why := x.c.DecodeMsg(x.o, bm, true)
	if verdict == Bad {
		x.violate("conformity", "%s bytes are not an instance of the schema: %s (payload %q headers %q)", what, why, bm.Payload, bm.Headers)
		return false
	}
	if verdict == Any {
		return true
	}
	if d := x.c.DiffMsg(x.o, m, w); d != "" {
		x.violate("conformity", "%s bytes encode something else: %s (payload %q headers %q)", what, d, bm.Payload, bm.Headers)
		return false
	}
	// Absent means omitted, and present means there
	if why := exact(x.c, x.o.Payload, m.Payload, w.Payload); why != "" {
		x.violate("conformity", "%s: %s (payload %q)", what, why, bm.Payload)
		return false
	}
	if x.o.Headers != nil {
		if why := exact(x.c, x.o.Headers, m.Headers, w.Headers); why != "" {
			x.violate("conformity", "%s: headers %s (%q)", what, why, bm.Headers)
			return false
		}
	}
	return true
}

// exact checks the presence of the properties; an empty optional array can be there or not.
func exact(c *Case, n *Node, want, got any) string {
	n = c.Follow(n)
	switch n.K {
	case "obj":
		w, g := want.(map[string]any), got.(map[string]any)
		for _, p := range n.Props {
			wv, wok := w[p.Wire()]
			gv, gok := g[p.Wire()]
			if l, ok := wv.([]any); ok && len(l) == 0 && !p.Req {
				continue
			}
			if wok && !gok && p.omitted(c, wv) {
				continue
			}
			if wok != gok {
				return fmt.Sprintf("property %q: given %v, encoded %v", p.Wire(), wok, gok)
			}
			if wok {
				if s := exact(c, p.T, wv, gv); s != "" {
					return s
				}
			}
		}
	case "arr":
		w, g := want.([]any), got.([]any)
		for i := range w {
			if s := exact(c, n.Items, w[i], g[i]); s != "" {
				return s
			}
		}
	}
	return ""
}

// c15: anything can be received.
func c15(x *ctx) {
	o, c, e := x.o, x.c, x.e
	e.b.NoFanOut = true
	params := o.randParams(x.rng)
	if err := e.Subscribe(o, params); err != nil {
		x.violate("subscription", "%v", err)
		return
	}
	sub := e.b.Live()[0]
	for i := 0; i < x.n; i++ {
		m := c.RandMsg(x.rng, o, x.rand)
		bm := c.EncodeMsg(x.rng, o, m)
		what := x.mutate(&bm)
		want, verdict, why := c.DecodeMsg(o, bm, false)
		d := sub.Inject(bm)
		// A good one follows
		m2 := c.RandMsg(x.rng, o, x.rand)
		bm2 := c.EncodeMsg(x.rng, o, m2)
		sub.Inject(bm2)
		got, ok := x.settled(2, fmt.Sprintf("reception of payload %q headers %q", bm.Payload, bm.Headers))
		if !ok {
			return
		}
		x.r.Observe("messages", 1)
		x.r.Observe("mutation_"+what, 1)
		x.r.Eval(fmt.Sprintf("%s/%s/%s/%v", x.key(m), what, why, verdict))
		if len(got) != 2 {
			x.violate("count", "payload %q headers %q then a good message: %s", bm.Payload, bm.Headers, errOf(got))
			return
		}
		switch {
		case verdict == Bad && got[0].Err == nil:
			x.violate("accepted", "payload %q headers %q is accepted (as %+v): %s", bm.Payload, bm.Headers, got[0].Msg.Interface(), why)
			return
		case verdict == Value && got[0].Err != nil:
			x.violate("refused", "payload %q headers %q is refused: %v", bm.Payload, bm.Headers, got[0].Err)
			return
		case verdict == Value:
			x.r.Observe("decoded", 1)
			if diff := c.DiffMsg(o, want, c.ReadMsg(got[0].Msg, o)); diff != "" {
				x.violate("wrong value", "payload %q headers %q: %s", bm.Payload, bm.Headers, diff)
				return
			}
		case verdict == Bad:
			x.r.Observe("errors", 1)
			x.r.Sample(map[string]any{"operation": c.Name + "/" + o.Name, "payload": string(bm.Payload), "headers": fmt.Sprintf("%q", bm.Headers), "error": got[0].Err.Error()})
			if !bytes.Equal(got[0].Raw.Payload, bm.Payload) || got[0].Addr != sub.Channel {
				x.violate("error handler", "got %q on %q for %q on %q", got[0].Raw, got[0].Addr, bm, sub.Channel)
				return
			}
		}
		if got[1].Err != nil {
			x.violate("following", "the message that follows payload %q headers %q is refused: %v", bm.Payload, bm.Headers, got[1].Err)
			return
		}
		if diff := c.DiffMsg(o, m2, c.ReadMsg(got[1].Msg, o)); diff != "" {
			x.violate("following", "the message that follows payload %q is wrong: %s", bm.Payload, diff)
			return
		}
		_ = d
	}
}
