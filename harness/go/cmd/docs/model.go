// Command gen runs the monitors of the code generated for random documents.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"slices"
	"strings"
	"time"

	"verif/mon"
)

// Node is a schema of the model of a document.
type Node struct {
	K     string         `json:"k"`
	Fmt   string         `json:"fmt"`
	Bits  int            `json:"bits"`
	To    string         `json:"to"`
	Props []*Prop        `json:"props"`
	Addl  *Node          `json:"addl"`
	Items *Node          `json:"items"`
	C     map[string]any `json:"c"`
	Go    string         `json:"go"` // Custom Go type
}

// Prop is a property of an object.
type Prop struct {
	N   string `json:"n"`
	W   string `json:"w"` // Name on the wire, when it is another one
	Req bool   `json:"req"`
	T   *Node  `json:"t"`

	Omit *bool `json:"omit"` // Forces omitempty or its absence
}

// omitted tells if a value is omitted because it is empty.
func (p *Prop) omitted(c *Case, v any) bool {
	return p.Omit != nil && *p.Omit && p.Req && c.Diff("", p.T, c.Zero(p.T), v) == ""
}

// Wire is the name of the property on the wire.
func (p *Prop) Wire() string {
	if p.W != "" {
		return p.W
	}
	return p.N
}

// Op is an operation of a document.
type Op struct {
	Name    string              `json:"name"`
	Sender  string              `json:"sender"`
	Params  []string            `json:"params"`
	PTypes  []string            `json:"ptypes"`
	Address []map[string]string `json:"address"`
	Sep     string              `json:"sep"`
	Payload *Node               `json:"payload"`
	Headers *Node               `json:"headers"`
	Corr    *Loc                `json:"corr"`

	// Of the requests: the reply, and where its address is in the request when it is not the one of its channel
	Reply *Op  `json:"reply"`
	Dyn   *Loc `json:"dyn"`
}

// Loc is where a text is in a message.
type Loc struct {
	Where string   `json:"where"`
	Path  []string `json:"path"`
}

// Case is a generated package.
type Case struct {
	Name    string           `json:"name"`
	Pkg     string           `json:"pkg"`
	Version int              `json:"version"`
	Types   map[string]*Node `json:"types"`
	Ops     []*Op            `json:"ops"`
	Force   bool             `json:"force"`   // Forced pointers
	NoDates bool             `json:"nodates"` // Dates are plain strings
	Pair    string           `json:"pair"`    // Another package, with the same model
	Custom  bool             `json:"custom"`  // With custom Go types
}

func loadCases(path string) []*Case {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var cases []*Case
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	return cases
}

// Follow resolves the named types.
func (c *Case) Follow(n *Node) *Node {
	for n.K == "ref" {
		n = c.Types[n.To]
	}
	return n
}

// The values are: map[string]any (objects, with the additional properties at
// the same level), []any, string, int64, float64, bool, Date and time.Time.

// Date is a day, in the form of the document.
type Date string

var strs = []string{"", "a", "é", "\"q\"", "100%d", "日本語", "\\n", "{}", "null", "0", "line\nbreak", " sp ", "<&>", "\u2028", "x\u0000y", "true", "12.5",
	"2020-01-01", "\t", "🎉", "a,b", "'q'", "`"}

func (c *Case) randStr(rng *rand.Rand) string {
	var b strings.Builder
	for i := rng.Intn(4); i >= 0; i-- {
		b.WriteString(strs[rng.Intn(len(strs))])
	}
	return b.String()
}

var ints64 = []int64{0, 1, -1, 127, 255, 256, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MaxInt64, math.MinInt64, 1<<53 + 1, -(1<<53 + 1)}
var ints32 = []int64{0, 1, -1, 127, 255, 256, math.MaxInt32, math.MinInt32, 65536}
var floats = []float64{0, 1, -1, 0.5, -2.25, 1e-7, 1e21, 123456789.125, math.MaxFloat32, -math.MaxFloat32, 3.14159274, 1e-40}
var floats64 = []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, 3.141592653589793, 1e300, -1e-300, 0.1}

var extraKeys = []string{"zz extra", "zz-1", "zz\"q", "zzé", "zz<&>", "zz\\b", "zz,c", "zz", "zz日本", "zz\nl", "zz{}",
	"", "zz%s", "%d", "100%", "zz\u0001", "zz\a", "zz\u007f", "zz\u2028", "zz🎉", "zz'`", "ZZ", "0", "null", "-", "_", "$ref", "additionalProperties", "AdditionalProperties", "zz.a", "zz:", " "}

// declares tells if a key can be taken for the one of a property: the JSON
// library doesn't look at the case.
func (n *Node) declares(key string) bool {
	for _, p := range n.Props {
		if strings.EqualFold(p.Wire(), key) {
			return true
		}
	}
	return false
}

// Rand makes a random value of the node. The probability of the optional
// parts decreases with the depth.
func (c *Case) Rand(rng *rand.Rand, n *Node, depth int) any {
	n = c.Follow(n)
	switch n.K {
	case "obj":
		m := map[string]any{}
		for _, p := range n.Props {
			if p.Req || rng.Intn(10) < 7-2*depth {
				m[p.Wire()] = c.Rand(rng, p.T, depth+1)
			}
		}
		if n.Addl != nil && depth < 4 {
			for i := rng.Intn(4 - depth); i > 0; i-- {
				k, v := extraKeys[rng.Intn(len(extraKeys))], c.Rand(rng, n.Addl, depth+1)
				if !n.declares(k) {
					m[k] = v
				}
			}
		}
		return m
	case "arr":
		l := []any{}
		max := 4 - depth
		if max > 0 {
			for i := rng.Intn(max); i > 0; i-- {
				l = append(l, c.Rand(rng, n.Items, depth+1))
			}
		}
		return l
	case "str":
		switch {
		case n.Fmt == "date" && !c.NoDates:
			return Date(randDate(rng))
		case n.Fmt == "date-time" && !c.NoDates:
			return randTime(rng)
		}
		return c.randStr(rng)
	case "int":
		if n.Bits == 32 {
			if rng.Intn(2) == 0 {
				return ints32[rng.Intn(len(ints32))]
			}
			return int64(int32(rng.Uint32()))
		}
		if rng.Intn(2) == 0 {
			return ints64[rng.Intn(len(ints64))]
		}
		return int64(rng.Uint64()) >> uint(rng.Intn(64))
	case "num":
		var f float64
		switch rng.Intn(3) {
		case 0:
			f = floats[rng.Intn(len(floats))]
		case 1:
			f = (rng.Float64() - 0.5) * math.Pow(10, float64(rng.Intn(20)-8))
		default:
			f = floats64[rng.Intn(len(floats64))]
			if n.Bits == 32 {
				f = float64(rng.Intn(1000000)) / 64
			}
		}
		if n.Bits == 32 {
			return float64(float32(f))
		}
		return f
	case "bool":
		return rng.Intn(2) == 0
	}
	panic("unknown kind " + n.K)
}

func randDate(rng *rand.Rand) string {
	switch rng.Intn(6) {
	case 0:
		return []string{"0001-01-01", "9999-12-31", "2024-02-29", "1970-01-01"}[rng.Intn(4)]
	}
	return time.Unix(rng.Int63n(4e9)-1e9, 0).UTC().Format("2006-01-02")
}

func randTime(rng *rand.Rand) time.Time {
	t := time.Unix(rng.Int63n(8e9)-3e9, 0)
	switch rng.Intn(4) {
	case 0:
	case 1:
		t = t.Add(time.Duration(rng.Intn(1000)) * time.Millisecond)
	default:
		t = t.Add(time.Duration(rng.Intn(1e9)))
	}
	switch rng.Intn(3) {
	case 0:
		return t.UTC()
	case 1:
		return t.In(time.FixedZone("", (rng.Intn(27)-13)*3600))
	}
	return t.In(time.FixedZone("", (rng.Intn(27*4)-13*4)*900))
}

// Zero is what a required value that is missing becomes.
func (c *Case) Zero(n *Node) any {
	n = c.Follow(n)
	switch n.K {
	case "obj":
		m := map[string]any{}
		for _, p := range n.Props {
			if p.Req {
				m[p.Wire()] = c.Zero(p.T)
			}
		}
		return m
	case "arr":
		return []any{}
	case "str":
		switch {
		case n.Fmt == "date" && !c.NoDates:
			return Date("0000-00-00")
		case n.Fmt == "date-time" && !c.NoDates:
			return time.Time{}
		}
		return ""
	case "int":
		return int64(0)
	case "num":
		return float64(0)
	}
	return false
}

// Diff describes the first difference between what was expected and what was
// got. A required property that is missing in the expected value can be zero in
// the other, and an empty optional array is the same as none.
func (c *Case) Diff(path string, n *Node, want, got any) string {
	n = c.Follow(n)
	switch n.K {
	case "obj":
		w, ok1 := want.(map[string]any)
		g, ok2 := got.(map[string]any)
		if !ok1 || !ok2 {
			return fmt.Sprintf("%s: wants %#v, got %#v", path, want, got)
		}
		for _, p := range n.Props {
			wv, wok := w[p.Wire()]
			gv, gok := g[p.Wire()]
			pn := c.Follow(p.T)
			empty := func(v any) bool { l, ok := v.([]any); return ok && len(l) == 0 }
			switch {
			case !wok && !gok:
			case wok && gok:
				if d := c.Diff(path+"."+p.N, p.T, wv, gv); d != "" {
					return d
				}
			case !wok && p.Req:
				if d := c.Diff(path+"."+p.N, p.T, c.Zero(p.T), gv); d != "" {
					return "missing " + d
				}
			case wok && !gok && (pn.K == "arr" && empty(wv) || p.omitted(c, wv)):
			case !wok && gok && pn.K == "arr" && empty(gv):
			case wok:
				return fmt.Sprintf("%s.%s: wants %#v, got nothing", path, p.N, wv)
			default:
				return fmt.Sprintf("%s.%s: wants nothing, got %#v", path, p.N, gv)
			}
		}
		if n.Addl == nil {
			return ""
		}
		for k, wv := range w {
			if n.prop(k) != nil {
				continue
			}
			gv, ok := g[k]
			if !ok {
				return fmt.Sprintf("%s[%q]: wants %#v, got nothing", path, k, wv)
			}
			if d := c.Diff(fmt.Sprintf("%s[%q]", path, k), n.Addl, wv, gv); d != "" {
				return d
			}
		}
		for k, gv := range g {
			if _, ok := w[k]; !ok && n.prop(k) == nil {
				return fmt.Sprintf("%s[%q]: wants nothing, got %#v", path, k, gv)
			}
		}
		return ""
	case "arr":
		w, ok1 := want.([]any)
		g, ok2 := got.([]any)
		if !ok1 || !ok2 || len(w) != len(g) {
			return fmt.Sprintf("%s: wants %#v, got %#v", path, want, got)
		}
		for i := range w {
			if d := c.Diff(fmt.Sprintf("%s[%d]", path, i), n.Items, w[i], g[i]); d != "" {
				return d
			}
		}
		return ""
	}
	if wt, ok := want.(time.Time); ok {
		if gt, ok := got.(time.Time); ok && wt.Equal(gt) {
			return ""
		}
	} else if wf, ok := want.(float64); ok {
		if gf, ok := got.(float64); ok && (wf == gf || math.IsNaN(wf) && math.IsNaN(gf)) {
			return ""
		}
	} else if reflect.DeepEqual(want, got) {
		return ""
	}
	return fmt.Sprintf("%s: wants %#v, got %#v", path, want, got)
}

func (n *Node) prop(wire string) *Prop {
	for _, p := range n.Props {
		if p.Wire() == wire {
			return p
		}
	}
	return nil
}

// Addr is the address of an operation for some parameters.
func (o *Op) Addr(params []string) string {
	var parts []string
	for _, a := range o.Address {
		if l, ok := a["l"]; ok {
			parts = append(parts, l)
			continue
		}
		parts = append(parts, params[slices.Index(o.Params, a["p"])])
	}
	return strings.Join(parts, o.Sep)
}

func (o *Op) randParams(rng *rand.Rand) []string {
	p := make([]string, len(o.Params))
	for i := range p {
		vals := []string{"a", "A", "1", "x-y", "é", "%d", "p.q", "{z}", "A B", "%"}
		if i < len(o.PTypes) {
			switch o.PTypes[i] {
			case "integer":
				vals = []string{"0", "-7", "12", "120", "9007199254740993", "-9223372036854775808"}
			case "int32":
				vals = []string{"0", "-7", "12", "2147483647"}
			case "boolean":
				vals = []string{"true", "false"}
			case "number":
				vals = []string{"0", "-1.5", "2", "0.1", "1e+21", "1e-07"}
			}
		}
		p[i] = vals[rng.Intn(len(vals))]
	}
	return p
}

var checks = map[string]func(r *mon.Report, cases []*Case){}

func main() {
	r := mon.NewReport()
	f, ok := checks[r.Prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", r.Prop)
		os.Exit(3)
	}
	f(r, loadCases(r.Args))
	r.Flush()
}
