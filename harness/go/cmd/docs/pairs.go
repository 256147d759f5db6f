package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/go-playground/validator/v10"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
)

func init() {
	checks["C20"] = perOp(25, 400, c20)
}

// same compares two messages as they are on the wire: the payloads of objects
// and arrays are compared as JSON.
func (x *ctx) same(a, b extensions.BrokerMessage) string {
	if k := x.c.Follow(x.o.Payload).K; k == "obj" || k == "arr" {
		if d := sameJSON(a.Payload, b.Payload, x.c.Follow(x.o.Payload).K == "arr"); d != "" {
			return "payload " + d
		}
	} else if !bytes.Equal(a.Payload, b.Payload) {
		return fmt.Sprintf("payload %q and %q", a.Payload, b.Payload)
	}
	if len(a.Headers) != len(b.Headers) {
		return fmt.Sprintf("headers %q and %q", a.Headers, b.Headers)
	}
	for k, v := range a.Headers {
		w, ok := b.Headers[k]
		if !ok {
			return fmt.Sprintf("headers %q and %q", a.Headers, b.Headers)
		}
		if bytes.Equal(v, w) {
			continue
		}
		if d := sameJSON(v, w, false); d != "" {
			return fmt.Sprintf("header %q: %s", k, d)
		}
	}
	return ""
}

func sameJSON(a, b []byte, _ bool) string {
	va, erra := jsonValue(a)
	vb, errb := jsonValue(b)
	if erra != nil || errb != nil {
		return fmt.Sprintf("%q (%v) and %q (%v)", a, erra, b, errb)
	}
	if !reflect.DeepEqual(prune(va), prune(vb)) {
		return fmt.Sprintf("%q and %q", a, b)
	}
	return ""
}

// prune removes the empty arrays of the objects: an empty optional array can be omitted.
func prune(v any) any {
	switch v := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, e := range v {
			if l, ok := e.([]any); ok && len(l) == 0 {
				continue
			}
			m[k] = prune(e)
		}
		return m
	case []any:
		l := make([]any, len(v))
		for i := range v {
			l[i] = prune(v[i])
		}
		return l
	}
	return v
}

func jsonValue(b []byte) (any, error) {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var v any
	err := dec.Decode(&v)
	return v, err
}

// corrID is the correlation ID of a generated message, as its users get it.
func (x *ctx) corrID(msg reflect.Value) (string, bool) {
	m, ok := msg.Interface().(interface{ CorrelationID() string })
	if !ok {
		return "", false
	}
	return m.CorrelationID(), true
}

// checkCorr checks that a generated message has the correlation ID of the message of the model.
func (x *ctx) checkCorr(m Message, msg reflect.Value) bool {
	id, ok := x.corrID(msg)
	if x.o.Corr == nil {
		return true
	}
	if !ok {
		x.violate("correlation", "%s has no correlation ID", msg.Type())
		return false
	}
	if want := x.c.getCorr(x.o, m); id != want {
		x.violate("correlation", "%s: the correlation ID is %q instead of %q (%#v)", msg.Type(), id, want, m)
		return false
	}
	x.r.Observe("correlation_ids", 1)
	return true
}

// noCorr sends a message without correlation ID: both packages do the same, that
// is fail or give one.
func (x *ctx) noCorr(ends []*End, types []reflect.Type, params []string) bool {
	m := x.c.RandMsg(x.rng, x.o, func(n *Node) any { return x.c.RandC(x.rng, n, 0, 0) })
	x.c.dropCorr(x.rng, x.o, m)
	var ids [2]string
	var errs [2]error
	for j, e := range ends {
		msg := x.c.NewMsg(types[j], x.o, m)
		if errs[j] = e.Send(x.o, params, msg); errs[j] != nil {
			continue
		}
		pubs := e.b.AllPubs()
		w, verdict, why := x.c.DecodeMsg(x.o, pubs[len(pubs)-1].Msg, true)
		if verdict != Value {
			x.violate("correlation", "a message sent without correlation ID is not valid: %s (payload %q headers %q)", why,
				pubs[len(pubs)-1].Msg.Payload, pubs[len(pubs)-1].Msg.Headers)
			return false
		}
		ids[j] = x.c.getCorr(x.o, w)
	}
	if (errs[0] == nil) != (errs[1] == nil) || (ids[0] == "") != (ids[1] == "") {
		x.violate("correlation", "without correlation ID: %s gives %q (%v), %s gives %q (%v)", x.c.Pkg, ids[0], errs[0], x.c.Pair, ids[1], errs[1])
		return false
	}
	if errs[0] == nil && ids[0] == "" && (x.c.Version == 2 || x.o.Sender == "User") {
		x.violate("correlation", "a message sent without correlation ID gets none")
		return false
	}
	x.r.Observe("without_correlation_id", 1)
	return true
}

// c20: two documents that mean the same give the same code.
func c20(x *ctx) {
	o, c := x.o, x.c
	c2 := *c
	c2.Pkg = c.Pair
	e2, err := Open(&c2)
	if err != nil {
		x.violate("construction", "%v", err)
		return
	}
	ends := []*End{x.e, e2}
	params := o.randParams(x.rng)
	types := make([]reflect.Type, 2)
	for i, e := range ends {
		e.b.NoFanOut = true
		if err := e.Subscribe(o, params); err != nil {
			x.violate("subscription", "%v", err)
			return
		}
		types[i] = e.MsgType(o)
	}
	if a, b := x.e.b.Live()[0].Channel, e2.b.Live()[0].Channel; a != b {
		x.violate("address", "subscribed to %q and %q", a, b)
		return
	}
	if o.Corr != nil && !c.Force && !x.noCorr(ends, types, params) {
		return
	}
	v := validator.New()
	v.RegisterTagNameFunc(wireName)
	var last [2]extensions.BrokerMessage
	for i := 0; i < x.n; i++ {
		bad := []float64{0, 0.1, 0.5}[x.rng.Intn(3)] // Missing dates and so on cannot be received
		m := c.RandMsg(x.rng, o, func(n *Node) any { return c.RandC(x.rng, n, 0, bad) })
		// Validation and sending
		var failing [2]map[string]string
		var sent [2]error
		for j, e := range ends {
			msg := c.NewMsg(types[j], o, m)
			if !x.checkCorr(m, msg) {
				return
			}
			var crash any
			if failing[j], crash = validate(v, msg); crash != nil {
				x.violate("panic", "the validation of %#v panics: %v", m, crash)
				return
			}
			if sent[j] = e.Send(o, params, msg); sent[j] == nil {
				pubs := e.b.AllPubs()
				last[j] = pubs[len(pubs)-1].Msg
				if pubs[len(pubs)-1].Channel != o.Addr(params) {
					x.violate("address", "published on %q instead of %q", pubs[len(pubs)-1].Channel, o.Addr(params))
					return
				}
			}
		}
		x.r.Observe("values", 1)
		x.r.Eval(x.key(m))
		if !sameKeys(failing[0], failing[1]) {
			x.violate("validation", "%#v: %s rejects %v, %s rejects %v", m, c.Pkg, failing[0], c.Pair, failing[1])
			return
		}
		if len(failing[0]) > 0 {
			x.r.Observe("rejected_by_both", 1)
		}
		if len(failing[0]) > 0 && (sent[0] != nil || sent[1] != nil) {
			continue // What is invalid can be refused
		}
		if (sent[0] == nil) != (sent[1] == nil) {
			x.violate("sending", "%#v: %s gives %v, %s gives %v", m, c.Pkg, sent[0], c.Pair, sent[1])
			return
		}
		if sent[0] != nil {
			continue
		}
		if d := x.same(last[0], last[1]); d != "" {
			x.violate("sent", "%s and %s send something else: %s (for %#v)", c.Pkg, c.Pair, d, m)
			return
		}
		x.r.Sample(map[string]any{"operation": c.Name + "/" + o.Name, "payload": string(last[0].Payload), "packages": c.Pkg + " " + c.Pair})
		// Reception of what each one sends, and of something wrong
		wrong := c.EncodeMsg(x.rng, o, m)
		what := x.mutate(&wrong)
		for k, bm := range []extensions.BrokerMessage{last[0], last[1], wrong} {
			var got [2][]Got
			for j, e := range ends {
				x.e = e
				e.b.Live()[0].Inject(bm)
				var ok bool
				if got[j], ok = x.settled(1, "reception"); !ok {
					return
				}
			}
			x.e = ends[0]
			x.r.Observe("received", 1)
			if len(got[0]) != 1 || len(got[1]) != 1 {
				x.violate("count", "payload %q headers %q: %s; %s", bm.Payload, bm.Headers, errOf(got[0]), errOf(got[1]))
				return
			}
			a, b := got[0][0], got[1][0]
			if (a.Err == nil) != (b.Err == nil) || k < 2 && bad == 0 && a.Err != nil {
				x.violate("received", "payload %q headers %q (%s): %s gives %s and %s gives %s", bm.Payload, bm.Headers, what,
					c.Pkg, errOf(got[0]), c.Pair, errOf(got[1]))
				return
			}
			if a.Err != nil {
				x.r.Observe("refused_by_both", 1)
				continue
			}
			ma, mb := c.ReadMsg(a.Msg, o), c.ReadMsg(b.Msg, o)
			if d := c.DiffMsg(o, ma, mb); d != "" {
				x.violate("received", "payload %q headers %q (%s): %s and %s give something else: %s", bm.Payload, bm.Headers, what, c.Pkg, c.Pair, d)
				return
			}
			if k < 2 {
				if d := c.DiffMsg(o, m, ma); d != "" {
					x.violate("received", "payload %q headers %q: %s", bm.Payload, bm.Headers, d)
					return
				}
			}
		}
	}
}

func sameKeys(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			return false
		}
	}
	return true
}
