package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"

	"cloud.google.com/go/civil"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verif/gen/reg"
	"verif/mon"
)

var (
	civilType = reflect.TypeOf(civil.Date{})
	timeType  = reflect.TypeOf(time.Time{})
)

// shape is a mismatch between a generated type and the document.
type shape struct{ what string }

func (s shape) Error() string { return s.what }

func mismatch(format string, args ...any) { panic(shape{fmt.Sprintf(format, args...)}) }

// guard runs f and returns the mismatch found, if any.
func guard(f func()) (s string) {
	defer func() {
		if e := recover(); e != nil {
			if m, ok := e.(shape); ok {
				s = m.what
				return
			}
			panic(e)
		}
	}()
	f()
	return ""
}

// fieldOf finds the field of a property, from the name it has on the wire.
func fieldOf(t reflect.Type, wire string) (reflect.StructField, bool) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag, ok := f.Tag.Lookup("json")
		if !ok {
			continue
		}
		if strings.Split(tag, ",")[0] == wire && wire != "" {
			return f, true
		}
	}
	return reflect.StructField{}, false
}

// Fill puts a value in a generated variable.
func (c *Case) Fill(rv reflect.Value, n *Node, v any) {
	n = c.Follow(n)
	if rv.Kind() == reflect.Pointer {
		rv.Set(reflect.New(rv.Type().Elem()))
		c.Fill(rv.Elem(), n, v)
		return
	}
	switch n.K {
	case "obj":
		c.fillObj(rv, n, v.(map[string]any))
	case "arr":
		l := v.([]any)
		if rv.Kind() != reflect.Slice {
			mismatch("an array is a %s", rv.Type())
		}
		rv.Set(reflect.MakeSlice(rv.Type(), len(l), len(l)))
		for i := range l {
			c.Fill(rv.Index(i), n.Items, l[i])
		}
	default:
		fillScalar(rv, v)
	}
}

func fillScalar(rv reflect.Value, v any) {
	switch v := v.(type) {
	case Date:
		if !civilType.ConvertibleTo(rv.Type()) {
			mismatch("a date is a %s", rv.Type())
		}
		d, err := civil.ParseDate(string(v))
		if err != nil {
			panic(err)
		}
		rv.Set(reflect.ValueOf(d).Convert(rv.Type()))
	case time.Time:
		if !timeType.ConvertibleTo(rv.Type()) {
			mismatch("a date-time is a %s", rv.Type())
		}
		rv.Set(reflect.ValueOf(v).Convert(rv.Type()))
	case string:
		if rv.Kind() != reflect.String {
			mismatch("a string is a %s", rv.Type())
		}
		rv.SetString(v)
	case int64:
		if !rv.CanInt() || rv.OverflowInt(v) {
			mismatch("an integer (%d) is a %s", v, rv.Type())
		}
		rv.SetInt(v)
	case float64:
		if !rv.CanFloat() {
			mismatch("a number is a %s", rv.Type())
		}
		rv.SetFloat(v)
	case bool:
		if rv.Kind() != reflect.Bool {
			mismatch("a boolean is a %s", rv.Type())
		}
		rv.SetBool(v)
	default:
		panic(fmt.Sprintf("unknown value %#v", v))
	}
}

func (c *Case) fillObj(rv reflect.Value, n *Node, m map[string]any) {
	if rv.Kind() != reflect.Struct {
		mismatch("an object is a %s", rv.Type())
	}
	known := map[string]bool{}
	for _, p := range n.Props {
		known[p.Wire()] = true
		f, ok := fieldOf(rv.Type(), p.Wire())
		if !ok {
			mismatch("no field of %s has the JSON name %q", rv.Type(), p.Wire())
		}
		if v, ok := m[p.Wire()]; ok {
			c.Fill(rv.FieldByIndex(f.Index), p.T, v)
		}
	}
	if n.Addl == nil {
		return
	}
	f := rv.FieldByName("AdditionalProperties")
	if !f.IsValid() || f.Kind() != reflect.Map {
		mismatch("%s has no additional properties", rv.Type())
	}
	for k, v := range m {
		if known[k] {
			continue
		}
		if f.IsNil() {
			f.Set(reflect.MakeMap(f.Type()))
		}
		e := reflect.New(f.Type().Elem()).Elem()
		c.Fill(e, n.Addl, v)
		f.SetMapIndex(reflect.ValueOf(k), e)
	}
}

// Read gets the value of a generated variable; false when it is absent.
func (c *Case) Read(rv reflect.Value, n *Node) (any, bool) {
	n = c.Follow(n)
	if rv.Kind() == reflect.Pointer {
		if rv.IsNil() {
			return nil, false
		}
		return c.Read(rv.Elem(), n)
	}
	switch n.K {
	case "obj":
		if rv.Kind() != reflect.Struct {
			mismatch("an object is a %s", rv.Type())
		}
		m := map[string]any{}
		for _, p := range n.Props {
			f, ok := fieldOf(rv.Type(), p.Wire())
			if !ok {
				mismatch("no field of %s has the JSON name %q", rv.Type(), p.Wire())
			}
			if v, ok := c.Read(rv.FieldByIndex(f.Index), p.T); ok {
				m[p.Wire()] = v
			}
		}
		if n.Addl != nil {
			f := rv.FieldByName("AdditionalProperties")
			if !f.IsValid() || f.Kind() != reflect.Map {
				mismatch("%s has no additional properties", rv.Type())
			}
			for _, k := range f.MapKeys() {
				if v, ok := c.Read(f.MapIndex(k), n.Addl); ok {
					m[k.String()] = v
				}
			}
		}
		return m, true
	case "arr":
		if rv.Kind() != reflect.Slice {
			mismatch("an array is a %s", rv.Type())
		}
		if rv.IsNil() {
			return nil, false
		}
		l := make([]any, rv.Len())
		for i := range l {
			var ok bool
			if l[i], ok = c.Read(rv.Index(i), n.Items); !ok {
				l[i] = []any{}
			}
		}
		return l, true
	case "str":
		switch {
		case n.Fmt == "date" && !c.NoDates:
			if !rv.CanConvert(civilType) {
				mismatch("a date is a %s", rv.Type())
			}
			d := rv.Convert(civilType).Interface().(civil.Date)
			return Date(d.String()), true
		case n.Fmt == "date-time" && !c.NoDates:
			if !rv.CanConvert(timeType) {
				mismatch("a date-time is a %s", rv.Type())
			}
			return rv.Convert(timeType).Interface().(time.Time), true
		}
		if rv.Kind() != reflect.String {
			mismatch("a string is a %s", rv.Type())
		}
		return rv.String(), true
	case "int":
		if !rv.CanInt() {
			mismatch("an integer is a %s", rv.Type())
		}
		return rv.Int(), true
	case "num":
		if !rv.CanFloat() {
			mismatch("a number is a %s", rv.Type())
		}
		return rv.Float(), true
	}
	if rv.Kind() != reflect.Bool {
		mismatch("a boolean is a %s", rv.Type())
	}
	return rv.Bool(), true
}

// Message is a message of the model.
type Message struct {
	Payload any
	Headers map[string]any // nil if the document has none
}

// RandMsg makes a random message of an operation.
func (c *Case) RandMsg(rng interface{ Intn(int) int }, o *Op, f func(n *Node) any) Message {
	m := Message{Payload: f(o.Payload)}
	if raw := c.Follow(o.Payload); raw.K == "num" && rng.Intn(8) == 0 {
		m.Payload = []float64{math.Inf(1), math.Inf(-1), math.NaN()}[rng.Intn(3)]
	}
	if o.Headers != nil {
		m.Headers = f(o.Headers).(map[string]any)
	}
	if o.Corr != nil {
		c.setCorr(o, m, f, fmt.Sprintf("corr-%d", rng.Intn(1000000)))
	}
	return m
}

// path gives the properties that lead to a location of the messages.
func (c *Case) path(o *Op, loc *Loc) []*Prop {
	n := o.Headers
	if loc.Where == "payload" {
		n = c.Follow(o.Payload)
	}
	var res []*Prop
	for _, name := range loc.Path {
		for _, p := range c.Follow(n).Props {
			if p.N == name {
				res = append(res, p)
				n = p.T
				break
			}
		}
	}
	if len(res) != len(loc.Path) {
		panic(fmt.Sprint("no location ", loc))
	}
	return res
}

func (loc *Loc) root(m Message) map[string]any {
	if loc.Where == "payload" {
		root, _ := m.Payload.(map[string]any)
		return root
	}
	return m.Headers
}

// set sets the text at a location of a message, in objects that are made with f if they are missing.
func (c *Case) set(o *Op, loc *Loc, m Message, f func(n *Node) any, text string) {
	target, path := loc.root(m), c.path(o, loc)
	for _, p := range path[:len(path)-1] {
		next, ok := target[p.Wire()].(map[string]any)
		if !ok {
			next = f(p.T).(map[string]any)
			target[p.Wire()] = next
		}
		target = next
	}
	target[path[len(path)-1].Wire()] = text
}

// get gives the text at a location of a message, if any, and whether it is missing where it can be.
func (c *Case) get(o *Op, loc *Loc, m Message) (text string, missing bool) {
	target := loc.root(m)
	for _, p := range c.path(o, loc) {
		v, ok := target[p.Wire()]
		missing = missing || (!ok && (!p.Req || c.Force))
		text, _ = v.(string)
		target, _ = v.(map[string]any)
	}
	return text, missing
}

// drop removes the text at a location of a message, or an optional object that has it.
func (c *Case) drop(rng interface{ Intn(int) int }, o *Op, loc *Loc, m Message) {
	target, path := loc.root(m), c.path(o, loc)
	for i, p := range path {
		next, ok := target[p.Wire()].(map[string]any)
		if i == len(path)-1 || (!p.Req && c.allEmptiable(path[i:]) && rng.Intn(3) == 0) {
			delete(target, p.Wire())
			return
		}
		if !ok {
			return
		}
		target = next
	}
}

// setCorr sets the correlation ID of a message.
func (c *Case) setCorr(o *Op, m Message, f func(n *Node) any, id string) { c.set(o, o.Corr, m, f, id) }

// getCorr gives the correlation ID of a message, if any.
func (c *Case) getCorr(o *Op, m Message) string {
	id, _ := c.get(o, o.Corr, m)
	return id
}

// dropCorr removes the correlation ID of a message.
func (c *Case) dropCorr(rng interface{ Intn(int) int }, o *Op, m Message) { c.drop(rng, o, o.Corr, m) }

// emptiable tells if the object of which nothing is set is valid: a required array that
// nobody sets is not an array on the wire, and the zero date is not a date.
func (c *Case) emptiable(n *Node) bool {
	n = c.Follow(n)
	if n.K == "arr" || n.Fmt == "date" {
		return false
	}
	for _, p := range n.Props {
		if p.Req && !c.emptiable(p.T) {
			return false
		}
	}
	return true
}

func (c *Case) allEmptiable(path []*Prop) bool {
	for _, p := range path {
		if !c.emptiable(p.T) {
			return false
		}
	}
	return true
}

// NewMsg makes the generated message for a message of the model.
func (c *Case) NewMsg(t reflect.Type, o *Op, m Message) reflect.Value {
	rv := reflect.New(t).Elem()
	p := rv.FieldByName("Payload")
	if !p.IsValid() {
		mismatch("%s has no payload", t)
	}
	c.Fill(p, o.Payload, m.Payload)
	if o.Headers != nil {
		h := rv.FieldByName("Headers")
		if !h.IsValid() {
			mismatch("%s has no headers", t)
		}
		c.Fill(h, o.Headers, m.Headers)
	}
	return rv
}

// ReadMsg reads a generated message.
func (c *Case) ReadMsg(rv reflect.Value, o *Op) Message {
	var m Message
	p := rv.FieldByName("Payload")
	if !p.IsValid() {
		mismatch("%s has no payload", rv.Type())
	}
	v, ok := c.Read(p, o.Payload)
	if !ok && c.Follow(o.Payload).K == "arr" {
		v = []any{}
	}
	m.Payload = v
	if o.Headers != nil {
		h := rv.FieldByName("Headers")
		if !h.IsValid() {
			mismatch("%s has no headers", rv.Type())
		}
		hv, _ := c.Read(h, o.Headers)
		m.Headers, _ = hv.(map[string]any)
	}
	return m
}

// DiffMsg compares two messages.
func (c *Case) DiffMsg(o *Op, want, got Message) string {
	if d := c.Diff("payload", o.Payload, want.Payload, got.Payload); d != "" {
		return d
	}
	if o.Headers != nil {
		return c.Diff("headers", o.Headers, want.Headers, got.Headers)
	}
	return ""
}

// End is one of the two sides of a generated package on a broker.
type End struct {
	c     *Case
	ctrls map[string]reflect.Value
	b     *mon.Broker

	mu   sync.Mutex
	got  []Got
	want int
	done chan struct{}
}

// Got is a message given to a handler or to an error handler.
type Got struct {
	Msg  reflect.Value
	Err  error
	Addr string
	Raw  extensions.BrokerMessage
}

// Open creates the two controllers of a package.
func Open(c *Case) (*End, error) {
	e := &End{c: c, b: mon.NewBroker(nil, 4), ctrls: map[string]reflect.Value{}}
	entry, ok := reg.All[c.Pkg]
	if !ok {
		return nil, fmt.Errorf("no package %s", c.Pkg)
	}
	eh := func(_ context.Context, addr string, msg *extensions.AcknowledgeableBrokerMessage, err error) {
		e.put(Got{Err: err, Addr: addr, Raw: mon.CloneMsg(msg.BrokerMessage)})
	}
	for side, f := range map[string]reg.New{"App": entry.App, "User": entry.User} {
		if f == nil {
			continue
		}
		ctrl, err := f(e.b, eh)
		if err != nil {
			return nil, err
		}
		e.ctrls[side] = reflect.ValueOf(ctrl)
	}
	return e, nil
}

func (e *End) put(g Got) {
	e.mu.Lock()
	defer e.mu.Unlock()
	mon.Touch()
	e.got = append(e.got, g)
	if e.done != nil && len(e.got) >= e.want {
		close(e.done)
		e.done = nil
	}
}

// wait waits for n events.
func (e *End) wait(n int) mon.Outcome {
	done := make(chan struct{})
	e.mu.Lock()
	if len(e.got) >= n {
		close(done)
	} else {
		e.want, e.done = n, done
	}
	e.mu.Unlock()
	return mon.Wait(done)
}

// take removes the events.
func (e *End) take() []Got {
	e.mu.Lock()
	defer e.mu.Unlock()
	g := e.got
	e.got = nil
	return g
}

// methods of an operation.
func (e *End) method(side string, names ...string) reflect.Value {
	ctrl, ok := e.ctrls[side]
	if !ok {
		mismatch("there is no %sController", side)
	}
	for _, n := range names {
		if m := ctrl.MethodByName(n); m.IsValid() {
			return m
		}
	}
	var all []string
	for i := 0; i < ctrl.NumMethod(); i++ {
		all = append(all, ctrl.Type().Method(i).Name)
	}
	sort.Strings(all)
	mismatch("the %sController has none of the methods %v, but %v", side, names, all)
	return reflect.Value{}
}

func other(side string) string {
	if side == "App" {
		return "User"
	}
	return "App"
}

func title(s string) string {
	r := []rune(s)
	r[0] = unicode.ToUpper(r[0])
	return string(r)
}

func (e *End) sendMethod(o *Op) reflect.Value {
	if e.c.Version == 2 {
		return e.method(o.Sender, "Publish"+title(o.Name))
	}
	word := "As"
	if o.Sender == "User" {
		word = "To"
	}
	return e.method(o.Sender, "Send"+word+title(o.Name)+"Operation")
}

func (e *End) subMethod(o *Op) reflect.Value {
	if e.c.Version == 2 {
		return e.method(other(o.Sender), "Subscribe"+title(o.Name))
	}
	return e.method(other(o.Sender), "SubscribeTo"+title(o.Name)+"Operation")
}

func (e *End) unsubMethod(o *Op) reflect.Value {
	if e.c.Version == 2 {
		return e.method(other(o.Sender), "Unsubscribe"+title(o.Name))
	}
	return e.method(other(o.Sender), "UnsubscribeFrom"+title(o.Name)+"Operation")
}

func normal(s string) string {
	return strings.ToLower(strings.Map(func(r rune) rune {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			return r
		}
		return -1
	}, s))
}

// params makes the parameters struct.
func (o *Op) params(t reflect.Type, vals []string) reflect.Value {
	rv := reflect.New(t).Elem()
	if t.Kind() != reflect.Struct || t.NumField() != len(o.Params) {
		mismatch("the parameters %v are in a %s", o.Params, t)
	}
	for i, p := range o.Params {
		done := false
		for j := 0; j < t.NumField(); j++ {
			if normal(t.Field(j).Name) == normal(p) {
				var err error
				switch f := rv.Field(j); f.Kind() {
				case reflect.String:
					f.SetString(vals[i])
				case reflect.Int32, reflect.Int64:
					var n int64
					n, err = strconv.ParseInt(vals[i], 10, f.Type().Bits())
					f.SetInt(n)
				case reflect.Bool:
					var b bool
					b, err = strconv.ParseBool(vals[i])
					f.SetBool(b)
				case reflect.Float32, reflect.Float64:
					var n float64
					n, err = strconv.ParseFloat(vals[i], f.Type().Bits())
					f.SetFloat(n)
				default:
					err = errors.New("unexpected type")
				}
				if err != nil {
					mismatch("the parameter %s is a %s, for %s: %v", p, rv.Field(j).Type(), vals[i], err)
				}
				done = true
			}
		}
		if !done {
			mismatch("the parameter %q has no field in %s", p, t)
		}
	}
	return rv
}

func (o *Op) args(m reflect.Value, vals []string, last ...reflect.Value) []reflect.Value {
	args := []reflect.Value{reflect.ValueOf(context.Background())}
	if len(o.Params) > 0 {
		if m.Type().NumIn() < 2 {
			mismatch("no parameters in %s", m.Type())
		}
		args = append(args, o.params(m.Type().In(1), vals))
	}
	if m.Type().NumIn() != len(args)+len(last) {
		mismatch("a method of %s has unexpected arguments: %s", o.Name, m.Type())
	}
	return append(args, last...)
}

// MsgType is the type of the messages that are sent.
func (e *End) MsgType(o *Op) reflect.Type {
	m := e.sendMethod(o)
	return m.Type().In(m.Type().NumIn() - 1)
}

// Send sends a generated message.
func (e *End) Send(o *Op, vals []string, msg reflect.Value) error {
	m := e.sendMethod(o)
	res := m.Call(o.args(m, vals, msg))
	err, _ := res[0].Interface().(error)
	return err
}

// Subscribe subscribes the other side.
func (e *End) Subscribe(o *Op, vals []string) error {
	m := e.subMethod(o)
	ft := m.Type().In(m.Type().NumIn() - 1)
	fn := reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
		e.put(Got{Msg: args[1]})
		return []reflect.Value{reflect.Zero(ft.Out(0))}
	})
	res := m.Call(o.args(m, vals, fn))
	err, _ := res[0].Interface().(error)
	return err
}

// Unsubscribe unsubscribes the other side.
func (e *End) Unsubscribe(o *Op, vals []string) {
	m := e.unsubMethod(o)
	m.Call(o.args(m, vals))
}
