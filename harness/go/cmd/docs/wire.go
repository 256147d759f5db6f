package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
)

// Verdict of the wire oracle.
type Verdict int

// Verdicts.
const (
	Value Verdict = iota // The bytes encode a value
	Bad                  // The bytes do not have the declared type
	Any                  // Not specified: an error or some value
)

// worst combines two verdicts.
func worst(a, b Verdict) Verdict {
	if a == Bad || b == Bad {
		return Bad
	}
	if a == Any || b == Any {
		return Any
	}
	return Value
}

var (
	dateRe = regexp.MustCompile(`^\d{4}-\d{2}-\d{2}$`)
	timeRe = regexp.MustCompile(`^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d+)?(Z|[+-]\d{2}:\d{2})$`)
	intRe  = regexp.MustCompile(`^-?(0|[1-9]\d*)$`)
	numRe  = regexp.MustCompile(`^-?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?$`)
)

// oint is a JSON object in its order.
type member struct {
	key string
	val any
}
type object []member

// parseJSON parses a JSON text: object, []any, string, json.Number, bool, nil.
func parseJSON(b []byte) (any, bool) {
	if !json.Valid(b) {
		return nil, false
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	v := parseValue(dec)
	if _, err := dec.Token(); err != io.EOF {
		return nil, false
	}
	return v, true
}

func parseValue(dec *json.Decoder) any {
	t, err := dec.Token()
	if err != nil {
		panic(err)
	}
	switch t {
	case json.Delim('{'):
		o := object{}
		for dec.More() {
			k, _ := dec.Token()
			o = append(o, member{k.(string), parseValue(dec)})
		}
		_, _ = dec.Token()
		return o
	case json.Delim('['):
		l := []any{}
		for dec.More() {
			l = append(l, parseValue(dec))
		}
		_, _ = dec.Token()
		return l
	}
	return t
}

// Judge tells what a JSON value is for a node. In strict mode, it has to be an
// instance of the schema, that has nothing more than what it declares.
func (c *Case) Judge(n *Node, v any, strict bool) (any, Verdict, string) {
	n = c.Follow(n)
	bad := func(format string, args ...any) (any, Verdict, string) {
		return nil, Bad, fmt.Sprintf(format, args...)
	}
	switch n.K {
	case "obj":
		o, ok := v.(object)
		if !ok {
			return bad("not an object: %v", v)
		}
		m := map[string]any{}
		verdict := Value
		for _, e := range o {
			if _, dup := m[e.key]; dup {
				return bad("duplicated key %q", e.key)
			}
			sub := n.Addl
			p := n.prop(e.key)
			if p != nil {
				sub = p.T
			} else if sub == nil {
				if strict {
					return bad("undeclared key %q", e.key)
				}
				continue
			}
			if e.val == nil && p != nil && strict && p.Omit != nil && !*p.Omit && !p.Req {
				continue
			}
			if e.val == nil && !strict {
				if p == nil {
					m[e.key] = nil
					verdict = worst(verdict, Any)
				}
				continue
			}
			x, vd, why := c.Judge(sub, e.val, strict)
			if vd == Bad {
				return bad("%q: %s", e.key, why)
			}
			verdict = worst(verdict, vd)
			m[e.key] = x
		}
		if strict {
			for _, p := range n.Props {
				if _, ok := m[p.Wire()]; p.Req && !ok && (p.Omit == nil || !*p.Omit) {
					return bad("missing key %q", p.Wire())
				}
			}
		}
		return m, verdict, ""
	case "arr":
		l, ok := v.([]any)
		if !ok {
			return bad("not an array: %v", v)
		}
		res := []any{}
		verdict := Value
		for i, e := range l {
			if e == nil && !strict {
				verdict = worst(verdict, Any)
				res = append(res, nil)
				continue
			}
			x, vd, why := c.Judge(n.Items, e, strict)
			if vd == Bad {
				return bad("%d: %s", i, why)
			}
			verdict = worst(verdict, vd)
			res = append(res, x)
		}
		return res, verdict, ""
	case "str":
		s, ok := v.(string)
		if !ok {
			return bad("not a string: %v", v)
		}
		return c.judgeText(n, s)
	case "int":
		num, ok := v.(json.Number)
		if !ok {
			return bad("not an integer: %v", v)
		}
		return judgeInt(n, string(num))
	case "num":
		num, ok := v.(json.Number)
		if !ok {
			return bad("not a number: %v", v)
		}
		bits := n.Bits
		f, err := strconv.ParseFloat(string(num), bits)
		if err != nil {
			return bad("out of range: %v", v)
		}
		return f, Value, ""
	}
	b, ok := v.(bool)
	if !ok {
		return bad("not a boolean: %v", v)
	}
	return b, Value, ""
}

func judgeInt(n *Node, s string) (any, Verdict, string) {
	if !intRe.MatchString(s) {
		f, err := strconv.ParseFloat(s, 64)
		if err != nil || f != math.Trunc(f) {
			return nil, Bad, "not an integer: " + s
		}
		return nil, Any, ""
	}
	i, err := strconv.ParseInt(s, 10, n.Bits)
	if err != nil {
		return nil, Bad, "out of range: " + s
	}
	return i, Value, ""
}

// judgeText judges a string, that can be a date.
func (c *Case) judgeText(n *Node, s string) (any, Verdict, string) {
	switch {
	case c.NoDates || n.Fmt == "":
		return s, Value, ""
	case n.Fmt == "date":
		_, err := time.Parse("2006-01-02", s)
		if dateRe.MatchString(s) && err == nil {
			return Date(s), Value, ""
		}
		return nil, Bad, "not a date: " + s
	}
	t, err := time.Parse(time.RFC3339, s)
	if timeRe.MatchString(s) && err == nil {
		return t, Value, ""
	}
	if timeRe.MatchString(s) != (err == nil) { // Forms that are neither clearly good nor clearly bad
		if err != nil && !strings.Contains(s, "60") {
			return nil, Bad, "not a date-time: " + s
		}
		return nil, Any, ""
	}
	return nil, Bad, "not a date-time: " + s
}

// Decode judges the bytes of a payload.
func (c *Case) Decode(n *Node, b []byte, strict bool) (any, Verdict, string) {
	n = c.Follow(n)
	switch n.K {
	case "str":
		return c.judgeText(n, string(b))
	case "int":
		if len(b) != n.Bits/8 {
			return nil, Bad, fmt.Sprintf("%d bytes", len(b))
		}
		if n.Bits == 32 {
			return int64(int32(binary.BigEndian.Uint32(b))), Value, ""
		}
		return int64(binary.BigEndian.Uint64(b)), Value, ""
	case "num":
		if len(b) != n.Bits/8 {
			return nil, Bad, fmt.Sprintf("%d bytes", len(b))
		}
		if n.Bits == 32 {
			return float64(math.Float32frombits(binary.BigEndian.Uint32(b))), Value, ""
		}
		return math.Float64frombits(binary.BigEndian.Uint64(b)), Value, ""
	}
	return c.decodeJSON(n, b, strict)
}

func (c *Case) decodeJSON(n *Node, b []byte, strict bool) (any, Verdict, string) {
	v, ok := parseJSON(b)
	if !ok {
		return nil, Bad, fmt.Sprintf("not JSON: %q", b)
	}
	if v == nil && !strict {
		return nil, Any, ""
	}
	if !utf8.Valid(b) {
		return nil, Any, ""
	}
	return c.Judge(n, v, strict)
}

// DecodeMsg judges a broker message.
func (c *Case) DecodeMsg(o *Op, bm extensions.BrokerMessage, strict bool) (Message, Verdict, string) {
	p, verdict, why := c.Decode(o.Payload, bm.Payload, strict)
	if verdict == Bad {
		return Message{}, Bad, "payload: " + why
	}
	m := Message{Payload: p}
	if o.Headers == nil {
		if strict && len(bm.Headers) > 0 {
			return Message{}, Bad, fmt.Sprintf("undeclared headers: %q", bm.Headers)
		}
		return m, verdict, ""
	}
	m.Headers = map[string]any{}
	for k, b := range bm.Headers {
		var hp *Prop
		for _, p := range c.Follow(o.Headers).Props {
			if p.N == k {
				hp = p
			}
		}
		if hp == nil {
			if strict {
				return Message{}, Bad, fmt.Sprintf("undeclared header %q", k)
			}
			continue
		}
		n := c.Follow(hp.T)
		var v any
		vd := Value
		if n.K == "str" {
			v, vd, why = c.judgeText(n, string(b))
		} else {
			v, vd, why = c.decodeJSON(n, b, strict)
		}
		if vd == Bad {
			return Message{}, Bad, fmt.Sprintf("header %q: %s", k, why)
		}
		verdict = worst(verdict, vd)
		m.Headers[hp.Wire()] = v
	}
	if strict {
		for _, p := range c.Follow(o.Headers).Props {
			if _, ok := m.Headers[p.Wire()]; p.Req && !ok {
				return Message{}, Bad, fmt.Sprintf("missing header %q", p.N)
			}
		}
	}
	return m, verdict, ""
}

// Encode writes a JSON value in a random form.
func (c *Case) Encode(rng *rand.Rand, n *Node, v any) []byte {
	var b bytes.Buffer
	c.encode(rng, &b, n, v)
	return b.Bytes()
}

func ws(rng *rand.Rand, b *bytes.Buffer) {
	for rng.Intn(5) == 0 {
		b.WriteByte(" \n\t\r"[rng.Intn(4)])
	}
}

func (c *Case) encode(rng *rand.Rand, b *bytes.Buffer, n *Node, v any) {
	n = c.Follow(n)
	ws(rng, b)
	defer ws(rng, b)
	switch v := v.(type) {
	case map[string]any:
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(',')
			}
			sub := n.Addl
			if p := n.prop(k); p != nil {
				sub = p.T
			}
			ws(rng, b)
			encodeString(rng, b, k)
			ws(rng, b)
			b.WriteByte(':')
			c.encode(rng, b, sub, v[k])
		}
		b.WriteByte('}')
	case []any:
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				b.WriteByte(',')
			}
			c.encode(rng, b, n.Items, e)
		}
		b.WriteByte(']')
	case string:
		encodeString(rng, b, v)
	case Date:
		encodeString(rng, b, string(v))
	case time.Time:
		// NOTE: time.Time does not support escape sequences in JSON
		b.WriteString(`"` + v.Format(time.RFC3339Nano) + `"`)
	case int64:
		b.WriteString(strconv.FormatInt(v, 10))
	case float64:
		b.WriteString(encodeFloat(rng, v, n.Bits))
	case bool:
		b.WriteString(strconv.FormatBool(v))
	default:
		panic(fmt.Sprintf("unknown value %#v", v))
	}
}

func encodeFloat(rng *rand.Rand, v float64, bits int) string {
	switch rng.Intn(4) {
	case 0:
		return strconv.FormatFloat(v, 'e', -1, bits)
	case 1:
		return strconv.FormatFloat(v, 'E', -1, bits)
	case 2:
		if math.Abs(v) < 1e25 && math.Abs(v) > 1e-10 || v == 0 {
			s := strconv.FormatFloat(v, 'f', -1, bits)
			if !strings.Contains(s, ".") {
				s += ".0"
			}
			return s + "0"
		}
	}
	b, _ := json.Marshal(v)
	if bits == 32 {
		b, _ = json.Marshal(float32(v))
	}
	return string(b)
}

func encodeString(rng *rand.Rand, b *bytes.Buffer, s string) {
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case rng.Intn(8) == 0 && r < 0x10000 || r < 0x20:
			fmt.Fprintf(b, "\\u%04x", r)
		case rng.Intn(8) == 0 && r == '/':
			b.WriteString("\\/")
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
}

// EncodeMsg encodes a message of the model, in some form.
func (c *Case) EncodeMsg(rng *rand.Rand, o *Op, m Message) extensions.BrokerMessage {
	bm := extensions.BrokerMessage{Headers: map[string][]byte{}}
	n := c.Follow(o.Payload)
	switch n.K {
	case "str", "int", "num":
		bm.Payload = c.raw(n, m.Payload)
	default:
		bm.Payload = c.Encode(rng, n, m.Payload)
	}
	if o.Headers != nil {
		for _, p := range c.Follow(o.Headers).Props {
			v, ok := m.Headers[p.Wire()]
			if !ok {
				continue
			}
			hn := c.Follow(p.T)
			if hn.K == "str" {
				bm.Headers[p.N] = c.raw(hn, v)
			} else {
				bm.Headers[p.N] = c.Encode(rng, hn, v)
			}
		}
		c.strangers(rng, o, bm)
	}
	return bm
}

// strangers adds headers that the document does not have, but that look like its own.
func (c *Case) strangers(rng *rand.Rand, o *Op, bm extensions.BrokerMessage) {
	props := c.Follow(o.Headers).Props
	if len(props) == 0 || rng.Intn(3) > 0 {
		return
	}
	n := props[rng.Intn(len(props))].N
	n = []func() string{
		func() string { return strings.ToUpper(n) },
		func() string { return strings.ToLower(n) },
		func() string { return n + " " },
		func() string { return n + "s" },
		func() string { return n[:len(n)-1] },
		func() string { return "x-" + n },
		func() string { return strings.ReplaceAll(n, "-", "_") },
	}[rng.Intn(7)]()
	for _, p := range props {
		if p.N == n {
			return
		}
	}
	bm.Headers[n] = []byte("stranger")
}

func (c *Case) raw(n *Node, v any) []byte {
	switch v := v.(type) {
	case string:
		return []byte(v)
	case Date:
		return []byte(v)
	case time.Time:
		return []byte(v.Format(time.RFC3339Nano))
	case int64:
		if n.Bits == 32 {
			return binary.BigEndian.AppendUint32(nil, uint32(v))
		}
		return binary.BigEndian.AppendUint64(nil, uint64(v))
	case float64:
		if n.Bits == 32 {
			return binary.BigEndian.AppendUint32(nil, math.Float32bits(float32(v)))
		}
		return binary.BigEndian.AppendUint64(nil, math.Float64bits(v))
	}
	panic(fmt.Sprintf("unknown raw value %#v", v))
}
