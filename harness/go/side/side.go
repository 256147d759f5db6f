// Package side gives a uniform access to the controllers generated for the
// documents of the runtime checks, on AsyncAPI v2 and v3. It only uses the
// public API of the generated code.
package side

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verif/gen/rt2"
	"verif/gen/rt3"
)

// Msg is the content of any of the messages of the documents.
type Msg struct {
	ID      int64
	Text    *string
	Tags    []string
	Trace   *string
	Corr    string
	ReplyTo string
}

// Str gives a pointer on a string.
func Str(s string) *string { return &s }

// Same tells if two messages have the same content.
func (m Msg) Same(o Msg) bool { return m.String() == o.String() }

// String describes the message.
func (m Msg) String() string {
	b, _ := json.Marshal(m)
	return string(b)
}

// Op is an operation of a document: messages sent from a side to the other.
type Op struct {
	Ver    int
	Name   string // In the name of the methods
	Sender string // App or User
	Format string // Address
	Params []string
	Corr   string // "", "header" or "payload": where the correlation ID is
	Strict bool   // Correlation ID required
	Trace  bool   // Has a trace header
	Text   bool   // Has a text and tags
	Dyn    bool   // The address is given when sending
	Reply  *Op    // Reply to this operation
	Asks   bool   // A request can be made with this operation
	DynTo  string // "opt" or "req": the reply address is in the message
}

// Receiver gives the side that receives.
func (o *Op) Receiver() string {
	if o.Sender == "App" {
		return "User"
	}
	return "App"
}

// Key identifies the operation.
func (o *Op) Key() string { return fmt.Sprintf("v%d.%s", o.Ver, o.Name) }

// Addr gives the channel address.
func (o *Op) Addr(params []string) string {
	a := make([]any, len(params))
	for i, p := range params {
		a[i] = p
	}
	return fmt.Sprintf(o.Format, a...)
}

// Shape projects a message on what the operation can carry.
func (o *Op) Shape(m Msg) Msg {
	if !o.Text {
		m.Tags = nil
	}
	if len(m.Tags) == 0 {
		m.Tags = nil
	}
	if !o.Trace {
		m.Trace = nil
	}
	if o.Corr == "" {
		m.Corr = ""
	}
	if o.DynTo == "" {
		m.ReplyTo = ""
	}
	return m
}

// Raw is the broker message expected for a message (when there is a single encoding).
func (o *Op) Raw(m Msg) extensions.BrokerMessage {
	m = o.Shape(m)
	p := map[string]any{"id": m.ID}
	if m.Text != nil {
		p["text"] = *m.Text
	}
	if len(m.Tags) > 0 {
		p["tags"] = m.Tags
	}
	h := map[string][]byte{}
	if m.Trace != nil {
		h["trace"] = []byte(*m.Trace)
	}
	if m.ReplyTo != "" || o.DynTo == "req" {
		h["replyTo"] = []byte(m.ReplyTo)
	}
	switch {
	case o.Corr == "header" && (m.Corr != "" || o.Strict):
		h["correlationId"] = []byte(m.Corr)
	case o.Corr == "payload" && (m.Corr != "" || o.Strict):
		p["corr"] = m.Corr
	}
	b, _ := json.Marshal(p)
	return extensions.BrokerMessage{Headers: h, Payload: b}
}

// FromRaw decodes a broker message independently from the generated code.
func (o *Op) FromRaw(bm extensions.BrokerMessage) (Msg, error) {
	var p struct {
		ID   int64    `json:"id"`
		Text *string  `json:"text"`
		Tags []string `json:"tags"`
		Corr string   `json:"corr"`
	}
	if err := json.Unmarshal(bm.Payload, &p); err != nil {
		return Msg{}, err
	}
	m := Msg{ID: p.ID, Text: p.Text, Tags: p.Tags, Corr: p.Corr}
	if v, ok := bm.Headers["trace"]; ok {
		m.Trace = Str(string(v))
	}
	if v, ok := bm.Headers["correlationId"]; ok && o.Corr == "header" {
		m.Corr = string(v)
	}
	m.ReplyTo = string(bm.Headers["replyTo"])
	return o.Shape(m), nil
}

// Ops are all the operations.
var Ops = map[string]*Op{}

// Names are the sorted keys of Ops.
var Names []string

func add(o Op) *Op {
	o.Text = o.Corr != "payload"
	op := &o
	Ops[op.Key()] = op
	Names = append(Names, op.Key())
	return op
}

func init() {
	room := []string{"RoomId", "UserId"}
	// v3
	add(Op{Ver: 3, Name: "Note", Sender: "User", Format: "rt3.note", Trace: true})
	add(Op{Ver: 3, Name: "Memo", Sender: "User", Format: "rt3.memo", Trace: true})
	add(Op{Ver: 3, Name: "Corr", Sender: "User", Format: "rt3.corr", Trace: true, Corr: "header"})
	add(Op{Ver: 3, Name: "Emit", Sender: "App", Format: "rt3.emit", Trace: true, Corr: "header"})
	add(Op{Ver: 3, Name: "Room", Sender: "User", Format: "rt3.room.%s.user.%s", Params: room, Trace: true})
	add(Op{Ver: 3, Name: "Wing", Sender: "App", Format: "rt3.wing.%s", Params: []string{"Wing"}, Trace: true, Corr: "header"})
	ask := func(o Op, reply Op) {
		r := reply
		r.Ver, r.Text = 3, reply.Corr != "payload"
		r.Name = "ReplyTo" + o.Name
		r.Sender = o.Receiver()
		o.Reply, o.Asks = &r, true
		add(o)
	}
	ask(Op{Ver: 3, Name: "Ask", Sender: "User", Format: "rt3.ask", Trace: true, Corr: "header"},
		Op{Format: "rt3.answer", Trace: true, Corr: "header"})
	ask(Op{Ver: 3, Name: "AskReq", Sender: "User", Format: "rt3.askreq", Corr: "header", Strict: true},
		Op{Format: "rt3.answerreq", Corr: "header", Strict: true})
	ask(Op{Ver: 3, Name: "AskPay", Sender: "User", Format: "rt3.askpay", Corr: "payload", Strict: true},
		Op{Format: "rt3.answerpay", Corr: "payload"})
	ask(Op{Ver: 3, Name: "AskPlain", Sender: "User", Format: "rt3.askplain", Trace: true},
		Op{Format: "rt3.answerplain"})
	ask(Op{Ver: 3, Name: "AskDyn", Sender: "User", Format: "rt3.askdyn", Corr: "header", DynTo: "opt"},
		Op{Dyn: true, Trace: true, Corr: "header"})
	ask(Op{Ver: 3, Name: "AskDynReq", Sender: "User", Format: "rt3.askdynreq", DynTo: "req"},
		Op{Dyn: true})
	ask(Op{Ver: 3, Name: "AskRoom", Sender: "User", Format: "rt3.askroom.%s", Params: []string{"RoomId"}, Trace: true, Corr: "header"},
		Op{Format: "rt3.answerroom", Trace: true, Corr: "header"})
	// Several messages on the channels, the operation tells which ones are used
	ask(Op{Ver: 3, Name: "AskMulti", Sender: "User", Format: "rt3.askmulti", Trace: true, Corr: "header"},
		Op{Format: "rt3.answermulti", Trace: true, Corr: "header"})
	ask(Op{Ver: 3, Name: "Poll", Sender: "App", Format: "rt3.poll", Trace: true, Corr: "header"},
		Op{Format: "rt3.pollanswer", Trace: true, Corr: "header"})
	// v2
	add(Op{Ver: 2, Name: "NoteOp", Sender: "User", Format: "rt2.note", Trace: true})
	add(Op{Ver: 2, Name: "Rt2Memo", Sender: "User", Format: "rt2.memo", Trace: true})
	add(Op{Ver: 2, Name: "CorrOp", Sender: "User", Format: "rt2.corr", Trace: true, Corr: "header"})
	add(Op{Ver: 2, Name: "EmitOp", Sender: "App", Format: "rt2.emit", Trace: true})
	add(Op{Ver: 2, Name: "RoomOp", Sender: "User", Format: "rt2.room.%s.user.%s", Params: room, Trace: true})
	wait := func(name, format string, o Op) *Op {
		o.Ver, o.Name, o.Sender, o.Format = 2, name, "App", format
		return add(o)
	}
	wait("WingOp", "rt2.wing.%s", Op{Params: []string{"Wing"}, Trace: true, Corr: "header"})
	a1 := wait("AnswerOp", "rt2.answer", Op{Trace: true, Corr: "header"})
	wait("AnswerReqOp", "rt2.answerreq", Op{Corr: "header", Strict: true})
	wait("AnswerPayOp", "rt2.answerpay", Op{Corr: "payload"})
	wait("AnswerRoomOp", "rt2.answerroom.%s", Op{Params: []string{"RoomId"}, Trace: true, Corr: "header"})
	// In v2, a request is a WaitFor with a publication
	o := add(Op{Ver: 2, Name: "AskOp", Sender: "User", Format: "rt2.ask", Trace: true, Corr: "header", Asks: true})
	o.Reply = a1
	sort.Strings(Names)
}

// Select gives the operations of a version that pass the filter.
func Select(ver int, filter func(o *Op) bool) []*Op {
	var res []*Op
	for _, n := range Names {
		o := Ops[n]
		if (ver == 0 || o.Ver == ver) && (filter == nil || filter(o)) {
			res = append(res, o)
		}
	}
	return res
}

// DocVersion is the version given in the documents.
func DocVersion(ver int) string {
	if ver == 2 {
		return "2.7.1"
	}
	return "3.1.4"
}

// Options of a controller.
type Options struct {
	Logger       extensions.Logger
	Middlewares  []extensions.Middleware
	ErrorHandler extensions.ErrorHandler
}

// Ctl is a controller.
type Ctl struct {
	Ver  int
	Role string
	C    any
	v    reflect.Value
}

// New creates a controller.
func New(ver int, role string, bc extensions.BrokerController, o Options) *Ctl {
	var c any
	var err error
	switch {
	case ver == 2:
		var opts []rt2.ControllerOption
		if o.Logger != nil {
			opts = append(opts, rt2.WithLogger(o.Logger))
		}
		if o.Middlewares != nil {
			opts = append(opts, rt2.WithMiddlewares(o.Middlewares...))
		}
		if o.ErrorHandler != nil {
			opts = append(opts, rt2.WithErrorHandler(o.ErrorHandler))
		}
		if role == "App" {
			c, err = rt2.NewAppController(bc, opts...)
		} else {
			c, err = rt2.NewUserController(bc, opts...)
		}
	default:
		var opts []rt3.ControllerOption
		if o.Logger != nil {
			opts = append(opts, rt3.WithLogger(o.Logger))
		}
		if o.Middlewares != nil {
			opts = append(opts, rt3.WithMiddlewares(o.Middlewares...))
		}
		if o.ErrorHandler != nil {
			opts = append(opts, rt3.WithErrorHandler(o.ErrorHandler))
		}
		if role == "App" {
			c, err = rt3.NewAppController(bc, opts...)
		} else {
			c, err = rt3.NewUserController(bc, opts...)
		}
	}
	if err != nil {
		panic(err)
	}
	return &Ctl{Ver: ver, Role: role, C: c, v: reflect.ValueOf(c)}
}

func (c *Ctl) method(name string) reflect.Value {
	m := c.v.MethodByName(name)
	if !m.IsValid() {
		panic(fmt.Sprintf("verif: no method %s on the %s controller v%d", name, c.Role, c.Ver))
	}
	return m
}

func (c *Ctl) methodName(kind string, o *Op) string {
	if c.Ver == 2 {
		return map[string]string{"sub": "Subscribe", "unsub": "Unsubscribe", "send": "Publish"}[kind] + o.Name
	}
	dir := "As"
	if c.Role == "User" {
		dir = "To"
	}
	p := map[string]string{"sub": "SubscribeTo", "unsub": "UnsubscribeFrom", "send": "Send" + dir, "req": "Request" + dir, "reply": ""}[kind]
	return p + o.Name + "Operation"
}

func asErr(v reflect.Value) error {
	if v.IsNil() {
		return nil
	}
	return v.Interface().(error)
}

func setParams(t reflect.Type, o *Op, params []string) reflect.Value {
	v := reflect.New(t).Elem()
	for i, p := range o.Params {
		v.FieldByName(p).SetString(params[i])
	}
	return v
}

// Fill writes the message in a generated message structure.
func Fill(v reflect.Value, m Msg) {
	set := func(part, name string, val any, zero bool) {
		f := v
		if part != "" {
			f = v.FieldByName(part)
			if !f.IsValid() {
				return
			}
		}
		f = f.FieldByName(name)
		if !f.IsValid() {
			return
		}
		x := reflect.ValueOf(val)
		if f.Kind() == reflect.Pointer {
			if zero {
				f.Set(reflect.Zero(f.Type()))
				return
			}
			p := reflect.New(f.Type().Elem())
			p.Elem().Set(x.Convert(f.Type().Elem()))
			f.Set(p)
			return
		}
		f.Set(x.Convert(f.Type()))
	}
	deref := func(s *string) string {
		if s == nil {
			return ""
		}
		return *s
	}
	set("Payload", "Id", m.ID, false)
	set("Payload", "Text", deref(m.Text), m.Text == nil)
	set("Payload", "Tags", m.Tags, m.Tags == nil)
	set("Payload", "Corr", m.Corr, m.Corr == "")
	set("Headers", "Trace", deref(m.Trace), m.Trace == nil)
	set("Headers", "CorrelationId", m.Corr, m.Corr == "")
	set("Headers", "ReplyTo", m.ReplyTo, m.ReplyTo == "")
}

// Read reads a generated message structure.
func Read(v reflect.Value) Msg {
	get := func(part, name string) (string, bool) {
		f := v.FieldByName(part)
		if !f.IsValid() {
			return "", false
		}
		f = f.FieldByName(name)
		if !f.IsValid() {
			return "", false
		}
		if f.Kind() == reflect.Pointer {
			if f.IsNil() {
				return "", false
			}
			f = f.Elem()
		}
		return f.String(), true
	}
	var m Msg
	id := v.FieldByName("Payload").FieldByName("Id")
	if id.Kind() == reflect.Pointer {
		id = id.Elem()
	}
	m.ID = id.Int()
	if s, ok := get("Payload", "Text"); ok {
		m.Text = &s
	}
	if t := v.FieldByName("Payload").FieldByName("Tags"); t.IsValid() && t.Len() > 0 {
		for i := 0; i < t.Len(); i++ {
			m.Tags = append(m.Tags, t.Index(i).String())
		}
	}
	if s, ok := get("Headers", "Trace"); ok {
		m.Trace = &s
	}
	if s, ok := get("Payload", "Corr"); ok {
		m.Corr = s
	}
	if s, ok := get("Headers", "CorrelationId"); ok {
		m.Corr = s
	}
	if s, ok := get("Headers", "ReplyTo"); ok {
		m.ReplyTo = s
	}
	return m
}

// Handler handles a received message. The second message is the generated structure.
type Handler func(ctx context.Context, m Msg, raw any) error

func makeHandler(t reflect.Type, h Handler) reflect.Value {
	return reflect.MakeFunc(t, func(args []reflect.Value) []reflect.Value {
		err := h(args[0].Interface().(context.Context), Read(args[1]), args[1].Interface())
		res := reflect.New(t.Out(0)).Elem()
		if err != nil {
			res.Set(reflect.ValueOf(err))
		}
		return []reflect.Value{res}
	})
}

// Sub subscribes to an operation.
func (c *Ctl) Sub(ctx context.Context, o *Op, params []string, h Handler) error {
	m := c.method(c.methodName("sub", o))
	t := m.Type()
	args := []reflect.Value{reflect.ValueOf(ctx)}
	if len(o.Params) > 0 {
		args = append(args, setParams(t.In(1), o, params))
	}
	args = append(args, makeHandler(t.In(t.NumIn()-1), h))
	return asErr(m.Call(args)[0])
}

// Unsub unsubscribes from an operation.
func (c *Ctl) Unsub(ctx context.Context, o *Op, params []string) {
	m := c.method(c.methodName("unsub", o))
	args := []reflect.Value{reflect.ValueOf(ctx)}
	if len(o.Params) > 0 {
		args = append(args, setParams(m.Type().In(1), o, params))
	}
	m.Call(args)
}

// Build makes the generated message of an operation.
func (c *Ctl) Build(o *Op, m Msg) reflect.Value {
	t := c.method(c.methodName("send", o)).Type()
	v := reflect.New(t.In(t.NumIn() - 1)).Elem()
	Fill(v, m)
	return v
}

// Send sends a message. The address is only used by operations with a dynamic one.
func (c *Ctl) Send(ctx context.Context, o *Op, params []string, addr string, m Msg) error {
	f := c.method(c.methodName("send", o))
	t := f.Type()
	args := []reflect.Value{reflect.ValueOf(ctx)}
	if len(o.Params) > 0 {
		args = append(args, setParams(t.In(1), o, params))
	}
	if o.Dyn {
		args = append(args, reflect.ValueOf(addr))
	}
	args = append(args, c.Build(o, m))
	return asErr(f.Call(args)[0])
}

// Request sends a message and waits for its reply. On v2, where the reply
// operation is given, pub publishes the request.
func (c *Ctl) Request(ctx context.Context, o *Op, params []string, m Msg) (Msg, error) {
	f := c.method(c.methodName("req", o))
	t := f.Type()
	args := []reflect.Value{reflect.ValueOf(ctx)}
	if len(o.Params) > 0 {
		args = append(args, setParams(t.In(1), o, params))
	}
	args = append(args, c.Build(o, m))
	res := f.Call(args)
	if err := asErr(res[1]); err != nil {
		return Msg{}, err
	}
	return Read(res[0]), nil
}

type withID interface {
	CorrelationID() string
	SetCorrelationID(id string)
}

type fixedID string

func (f fixedID) CorrelationID() string     { return string(f) }
func (f fixedID) SetCorrelationID(_ string) {}

// WaitFor waits for a message (v2).
func (c *Ctl) WaitFor(ctx context.Context, o *Op, params []string, corr string, pub func(ctx context.Context) error) (Msg, error) {
	f := c.method("WaitFor" + o.Name)
	t := f.Type()
	args := []reflect.Value{reflect.ValueOf(ctx)}
	if len(o.Params) > 0 {
		args = append(args, setParams(t.In(1), o, params))
	}
	args = append(args, reflect.ValueOf(fixedID(corr)), reflect.ValueOf(pub))
	res := f.Call(args)
	if err := asErr(res[1]); err != nil {
		return Msg{}, err
	}
	return Read(res[0]), nil
}

var _ withID = fixedID("")

// Reply replies to a received message (v3): fill modifies the reply that has
// been prepared, and gives what it was.
func (c *Ctl) Reply(ctx context.Context, o *Op, recv any, fill func(prepared Msg) Msg) error {
	f := c.method("ReplyTo" + o.Name + "Operation")
	t := f.Type()
	fn := reflect.MakeFunc(t.In(2), func(args []reflect.Value) []reflect.Value {
		v := args[0].Elem()
		Fill(v, fill(Read(v)))
		return nil
	})
	return asErr(f.Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(recv), fn})[0])
}

// Close closes the controller.
func (c *Ctl) Close(ctx context.Context) {
	c.method("Close").Call([]reflect.Value{reflect.ValueOf(ctx)})
}

// UnsubAll unsubscribes from all the channels.
func (c *Ctl) UnsubAll(ctx context.Context) {
	n := "UnsubscribeFromAllChannels"
	if c.Ver == 2 {
		n = "UnsubscribeAll"
	}
	c.method(n).Call([]reflect.Value{reflect.ValueOf(ctx)})
}

// Dispatch is called by the subscribers given to SubAll with the operation name.
type Dispatch func(op string, ctx context.Context, m Msg, raw any) error

// SubAll subscribes to all the channels without parameters.
func (c *Ctl) SubAll(ctx context.Context, d Dispatch) error {
	n := "SubscribeToAllChannels"
	if c.Ver == 2 {
		n = "SubscribeAll"
	}
	f := c.method(n)
	return asErr(f.Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(subscriber(c.Ver, c.Role, d))})[0])
}

// SubAllNil subscribes to all the channels without subscriber.
func (c *Ctl) SubAllNil(ctx context.Context) error {
	n := "SubscribeToAllChannels"
	if c.Ver == 2 {
		n = "SubscribeAll"
	}
	f := c.method(n)
	return asErr(f.Call([]reflect.Value{reflect.ValueOf(ctx), reflect.Zero(f.Type().In(1))})[0])
}

// NewWithNilBroker tries to create a controller without broker.
func NewWithNilBroker(ver int, role string) error {
	var err error
	switch {
	case ver == 2 && role == "App":
		_, err = rt2.NewAppController(nil)
	case ver == 2:
		_, err = rt2.NewUserController(nil)
	case role == "App":
		_, err = rt3.NewAppController(nil)
	default:
		_, err = rt3.NewUserController(nil)
	}
	return err
}

// OpOfMethod finds the operation of a method of a subscriber.
func OpOfMethod(ver int, method string) *Op {
	if ver == 3 {
		method = strings.TrimSuffix(method, "OperationReceived")
	}
	return Ops[fmt.Sprintf("v%d.%s", ver, method)]
}

func call(d Dispatch, method string, ctx context.Context, msg any) error {
	return d(method, ctx, Read(reflect.ValueOf(msg)), msg)
}
