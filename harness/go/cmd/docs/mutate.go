package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
)

// mutate alters a broker message; it returns the kind of alteration.
func (x *ctx) mutate(bm *extensions.BrokerMessage) string {
	rng := x.rng
	kind := x.c.Follow(x.o.Payload).K
	if len(bm.Headers) > 0 && rng.Intn(3) == 0 {
		return x.mutateHeader(bm)
	}
	switch kind {
	case "str", "int", "num":
		b := x.rawMutation(bm.Payload, kind, x.c.Follow(x.o.Payload).Fmt)
		bm.Payload = b
		return "raw_" + kind
	}
	var what string
	bm.Payload, what = mutateJSON(rng, x.c, x.o.Payload, bm.Payload)
	return what
}

func (x *ctx) mutateHeader(bm *extensions.BrokerMessage) string {
	rng := x.rng
	var names []string
	for _, p := range x.c.Follow(x.o.Headers).Props {
		if _, ok := bm.Headers[p.N]; ok {
			names = append(names, p.N)
		}
	}
	if rng.Intn(6) == 0 || len(names) == 0 {
		bm.Headers["zz-unknown"] = []byte("whatever")
		return "unknown_header"
	}
	name := names[rng.Intn(len(names))]
	if rng.Intn(6) == 0 {
		delete(bm.Headers, name)
		return "missing_header"
	}
	for _, p := range x.c.Follow(x.o.Headers).Props {
		if p.N != name {
			continue
		}
		n := x.c.Follow(p.T)
		if n.K == "str" {
			bm.Headers[name] = x.rawMutation(bm.Headers[name], "str", n.Fmt)
			return "header_str"
		}
		var what string
		bm.Headers[name], what = mutateJSON(rng, x.c, n, bm.Headers[name])
		return "header_" + what
	}
	return ""
}

var badDates = []string{"", "2020-13-01", "2020-02-30", "2020-1-1", "20200101", "2020-01-01 ", "01/02/2020", "2020-01-01T00:00:00Z", "x", "-2020-01-01",
	"2019-02-29", "2020-00-10", "2020-01-32", "２０２０-01-01", "null"}
var badTimes = []string{"", "2020-01-01", "2020-01-01T25:00:00Z", "2020-01-01T00:00:00", "2020-01-01 00:00:00Z", "2020-13-01T00:00:00Z", "x",
	"2020-01-01T00:60:00Z", "Mon, 02 Jan 2006 15:04:05 MST", "1577836800", "2020-01-01T00:00:00+0100", "2020-02-30T00:00:00Z", "2020-01-01T00:00Z"}

func (x *ctx) rawMutation(b []byte, kind, format string) []byte {
	rng := x.rng
	if kind == "str" {
		switch {
		case format == "date" && rng.Intn(4) > 0:
			return []byte(badDates[rng.Intn(len(badDates))])
		case format == "date-time" && rng.Intn(4) > 0:
			return []byte(badTimes[rng.Intn(len(badTimes))])
		case format != "":
			return flip(rng, b)
		}
		return [][]byte{nil, {}, {0xff, 0xfe}, []byte("null"), []byte("\"quoted\""), flip(rng, b), bytes.Repeat([]byte("long "), 5000), {0}}[rng.Intn(8)]
	}
	n := rng.Intn(20)
	if rng.Intn(3) == 0 {
		n = []int{0, 1, 3, 4, 5, 7, 8, 9, 16}[rng.Intn(9)]
	}
	if rng.Intn(6) == 0 {
		return []byte(fmt.Sprint(rng.Intn(100000)))
	}
	res := make([]byte, n)
	rng.Read(res)
	return res
}

func flip(rng *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	if len(b) == 0 {
		return []byte{'x'}
	}
	i := rng.Intn(len(b))
	switch rng.Intn(3) {
	case 0:
		b[i] ^= byte(1 << rng.Intn(8))
	case 1:
		b = append(b[:i], b[i+1:]...)
	default:
		b = append(b[:i], append([]byte{byte(rng.Intn(256))}, b[i:]...)...)
	}
	return b
}

var garbage = []string{"", " ", "{", "}", "[", "[]", "{}", "null", "nul", "true", "0", "\"\"", "\"x\"", "{\"\"", "{\"a\":}", "[1,", "\xff\xfe", "{}{}", "{} x",
	"NaN", "Infinity", "0x10", "'a'", "{a:1}", "[,]", "\xef\xbb\xbf{}", "12abc", "-", "{\"a\":1,}"}

func mutateJSON(rng *rand.Rand, c *Case, n *Node, b []byte) ([]byte, string) {
	switch rng.Intn(8) {
	case 0:
		return []byte(garbage[rng.Intn(len(garbage))]), "garbage"
	case 1:
		if len(b) > 0 {
			return b[:rng.Intn(len(b))], "truncated"
		}
		return nil, "truncated"
	case 2:
		m := flip(rng, b)
		if v, ok := parseJSON(m); ok && ambiguous(c, n, v) {
			return b, "none"
		}
		return m, "flipped"
	case 3:
		return b, "none"
	}
	v, ok := parseJSON(b)
	if !ok {
		return b, "none"
	}
	var what string
	v = mutateValue(rng, c, n, v, &what)
	return writeJSON(v), what
}

// ambiguous tells if a key is there twice, or with another case.
func ambiguous(c *Case, n *Node, v any) bool {
	switch v := v.(type) {
	case object:
		seen := map[string]bool{}
		for _, e := range v {
			k := strings.ToLower(e.key)
			if seen[k] {
				return true
			}
			seen[k] = true
			if ambiguous(c, n, e.val) {
				return true
			}
		}
		// A flipped key that only differs by its case from a declared one
		if n = c.Follow(n); n.K == "obj" {
			for _, e := range v {
				p := n.prop(e.key)
				if p == nil {
					for _, q := range n.Props {
						if strings.EqualFold(q.Wire(), e.key) {
							return true
						}
					}
					if n.Addl != nil && ambiguous(c, n.Addl, e.val) {
						return true
					}
				} else if ambiguous(c, p.T, e.val) {
					return true
				}
			}
		}
	case []any:
		n = c.Follow(n)
		for _, e := range v {
			if n.K == "arr" && ambiguous(c, n.Items, e) {
				return true
			}
		}
	}
	return false
}

// mutateValue changes a JSON value somewhere.
func mutateValue(rng *rand.Rand, c *Case, n *Node, v any, what *string) any {
	n = c.Follow(n)
	if rng.Intn(3) > 0 {
		switch v := v.(type) {
		case object:
			if len(v) > 0 && n.K == "obj" {
				i := rng.Intn(len(v))
				sub := n.Addl
				if p := n.prop(v[i].key); p != nil {
					sub = p.T
				}
				if sub != nil {
					v[i].val = mutateValue(rng, c, sub, v[i].val, what)
					return v
				}
			}
		case []any:
			if len(v) > 0 && n.K == "arr" {
				i := rng.Intn(len(v))
				v[i] = mutateValue(rng, c, n.Items, v[i], what)
				return v
			}
		}
	}
	if o, ok := v.(object); ok && rng.Intn(2) == 0 {
		switch rng.Intn(2) {
		case 0:
			if len(o) > 0 {
				i := rng.Intn(len(o))
				*what = "missing_key"
				return append(append(object{}, o[:i]...), o[i+1:]...)
			}
		}
		*what = "unknown_key"
		return append(o, member{"zz unknown", other1(rng)})
	}
	switch {
	case n.K == "str" && n.Fmt == "date" && rng.Intn(2) == 0:
		*what = "bad_date"
		return badDates[rng.Intn(len(badDates))]
	case n.K == "str" && n.Fmt == "date-time" && rng.Intn(2) == 0:
		*what = "bad_time"
		return badTimes[rng.Intn(len(badTimes))]
	case n.K == "int" && rng.Intn(2) == 0:
		*what = "bad_integer"
		s := []string{"1.5", "1e2", "1.0", "2147483648", "-2147483649", "9223372036854775808", "-9223372036854775809", "1e400", "4294967296", "1e-1",
			"99999999999999999999999", "-0"}
		return json.Number(s[rng.Intn(len(s))])
	case n.K == "num" && rng.Intn(2) == 0:
		*what = "bad_number"
		s := []string{"1e400", "-1e400", "3.5e38", "1e-400", "1e39", "-0.0"}
		return json.Number(s[rng.Intn(len(s))])
	case rng.Intn(5) == 0:
		*what = "null"
		return nil
	}
	*what = "other_type"
	return other1(rng)
}

func other1(rng *rand.Rand) any {
	switch rng.Intn(7) {
	case 0:
		return "text"
	case 1:
		return json.Number(strconv.Itoa(rng.Intn(100)))
	case 2:
		return json.Number("1.25")
	case 3:
		return rng.Intn(2) == 0
	case 4:
		return []any{}
	case 5:
		return object{}
	}
	return []any{json.Number("1"), "x"}
}

func writeJSON(v any) []byte {
	var b bytes.Buffer
	var w func(v any)
	w = func(v any) {
		switch v := v.(type) {
		case object:
			b.WriteByte('{')
			for i, e := range v {
				if i > 0 {
					b.WriteByte(',')
				}
				k, _ := json.Marshal(e.key)
				b.Write(k)
				b.WriteByte(':')
				w(e.val)
			}
			b.WriteByte('}')
		case []any:
			b.WriteByte('[')
			for i, e := range v {
				if i > 0 {
					b.WriteByte(',')
				}
				w(e)
			}
			b.WriteByte(']')
		case json.Number:
			b.WriteString(string(v))
		default:
			x, _ := json.Marshal(v)
			b.Write(x)
		}
	}
	w(v)
	return b.Bytes()
}
