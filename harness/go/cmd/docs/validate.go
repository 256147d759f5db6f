package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/go-playground/validator/v10"
)

func init() {
	checks["C17"] = perOp(60, 1200, c17)
}

func numC(n *Node, k string) (float64, bool) {
	v, ok := n.C[k].(float64)
	return v, ok
}

// satisfies tells if a value is accepted by the constraints of its own schema.
func satisfies(n *Node, v any) (bool, string) {
	if l, ok := n.C["enum"].([]any); ok {
		found := false
		for _, e := range l {
			found = found || reflect.DeepEqual(e, v)
		}
		if !found {
			return false, "enum"
		}
	}
	if e, ok := n.C["const"]; ok && !reflect.DeepEqual(e, v) {
		return false, "const"
	}
	if s, ok := v.(string); ok {
		l := float64(utf8.RuneCountInString(s))
		if m, ok := numC(n, "minLength"); ok && l < m {
			return false, "minLength"
		}
		if m, ok := numC(n, "maxLength"); ok && l > m {
			return false, "maxLength"
		}
	}
	cmp := func(m float64) int { // of v with m
		switch v := v.(type) {
		case int64: // The bounds are exact integers below 2^53
			switch {
			case v < int64(m):
				return -1
			case v > int64(m):
				return 1
			}
			return 0
		case float64:
			switch {
			case v < m:
				return -1
			case v > m:
				return 1
			}
		}
		return 0
	}
	if m, ok := numC(n, "minimum"); ok && cmp(m) < 0 {
		return false, "minimum"
	}
	if m, ok := numC(n, "maximum"); ok && cmp(m) > 0 {
		return false, "maximum"
	}
	if m, ok := numC(n, "exclusiveMinimum"); ok && cmp(m) <= 0 {
		return false, "exclusiveMinimum"
	}
	if m, ok := numC(n, "exclusiveMaximum"); ok && cmp(m) >= 0 {
		return false, "exclusiveMaximum"
	}
	if u, _ := n.C["uniqueItems"].(bool); u {
		seen := map[any]bool{}
		for _, e := range v.([]any) {
			if seen[e] {
				return false, "uniqueItems"
			}
			seen[e] = true
		}
	}
	return true, ""
}

// Failing lists the paths of the properties whose value is not accepted, with
// what they violate. The items of arrays and the additional properties are not
// validated by the library.
func (c *Case) Failing(path string, n *Node, v any, out map[string]string) {
	n = c.Follow(n)
	m, ok := v.(map[string]any)
	if n.K != "obj" || !ok {
		return
	}
	for _, p := range n.Props {
		pn := c.Follow(p.T)
		pv, ok := m[p.Wire()]
		here := path + "." + p.Wire()
		if !ok {
			if !p.Req {
				continue
			}
			if c.Force || pn.K == "arr" {
				out[here] = "required"
				continue
			}
			if pv = c.Zero(p.T); pn.K == "obj" {
				pv = map[string]any{} // Of which everything is missing
			}
		}
		if good, why := satisfies(pn, pv); !good {
			out[here] = why
			continue
		}
		c.Failing(here, p.T, pv, out)
	}
}

// RandC is a random value, that respects the constraints, except some.
func (c *Case) RandC(rng *rand.Rand, n *Node, depth int, bad float64) any {
	n = c.Follow(n)
	switch n.K {
	case "obj":
		m := map[string]any{}
		for _, p := range n.Props {
			if p.Req && rng.Float64() < bad/3 {
				continue
			}
			if p.Req || rng.Intn(10) < 8-2*depth {
				m[p.Wire()] = c.RandC(rng, p.T, depth+1, bad)
			}
		}
		if n.Addl != nil && rng.Intn(2) == 0 {
			m["zz"] = c.Rand(rng, n.Addl, depth+2)
		}
		return m
	case "arr":
		l, _ := c.Rand(rng, n, min(depth, 2)).([]any)
		if u, _ := n.C["uniqueItems"].(bool); !u {
			return l
		}
		if rng.Float64() < bad && len(l) > 0 {
			return append(l, l[rng.Intn(len(l))])
		}
		var out = []any{}
		for _, e := range l {
			dup := false
			for _, x := range out {
				dup = dup || x == e
			}
			if !dup {
				out = append(out, e)
			}
		}
		return out
	}
	if len(n.C) == 0 {
		return c.Rand(rng, n, depth)
	}
	wrong := rng.Float64() < bad
	for i := 0; i < 40; i++ {
		v := c.near(rng, n)
		if ok, _ := satisfies(n, v); ok != wrong {
			return v
		}
	}
	return c.near(rng, n)
}

// near makes a value around what the constraints limit.
func (c *Case) near(rng *rand.Rand, n *Node) any {
	var bounds []float64
	for _, k := range []string{"minLength", "maxLength", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"} {
		if b, ok := numC(n, k); ok {
			bounds = append(bounds, b)
		}
	}
	pick := func() float64 {
		if len(bounds) == 0 {
			return float64(rng.Intn(5))
		}
		return bounds[rng.Intn(len(bounds))]
	}
	switch n.K {
	case "str":
		words := []string{}
		if l, ok := n.C["enum"].([]any); ok {
			for _, e := range l {
				words = append(words, e.(string))
			}
		}
		if e, ok := n.C["const"].(string); ok {
			words = append(words, e)
		}
		if len(words) > 0 {
			w := words[rng.Intn(len(words))]
			switch rng.Intn(10) {
			case 0:
				return w + " "
			case 1:
				return strings.ToUpper(w)
			case 2:
				return ""
			case 3:
				return w + "," + w
			case 4:
				return strings.TrimRight(w, w[len(w)-1:])
			case 5:
				return c.randStr(rng)
			}
			return w
		}
		k := max(int(pick())+rng.Intn(3)-1, 0)
		letters := []string{"a", "é", "日", "🎉", " ", "0"}
		s := ""
		for i := 0; i < k; i++ {
			s += letters[rng.Intn(len(letters))]
		}
		return s
	case "int":
		if rng.Intn(6) == 0 {
			return c.Rand(rng, n, 0)
		}
		return int64(pick()) + int64(rng.Intn(3)) - 1
	case "num":
		b := pick()
		switch rng.Intn(8) {
		case 0:
			return c.Rand(rng, n, 0)
		case 1, 2:
			return b
		case 3, 4:
			if n.Bits == 32 {
				return float64(math.Nextafter32(float32(b), float32(b)+float32(rng.Intn(2)*2-1)))
			}
			return math.Nextafter(b, b+float64(rng.Intn(2)*2-1))
		}
		return b + []float64{-1, -0.125, 0.125, 1}[rng.Intn(4)]
	}
	return c.Rand(rng, n, 0)
}

// wireName is the name of a field in the errors of the validator.
func wireName(f reflect.StructField) string {
	name := strings.TrimSuffix(f.Tag.Get("json"), ",omitempty")
	if name == "-" || name == "" {
		return f.Name
	}
	return name
}

// c17: the validation tags and the constraints agree.
func c17(x *ctx) {
	v := validator.New()
	v.RegisterTagNameFunc(wireName)
	t := x.e.MsgType(x.o)
	for i := 0; i < x.n; i++ {
		bad := []float64{0, 0, 0.1, 0.3, 0.6}[x.rng.Intn(5)]
		m := x.c.RandMsg(x.rng, x.o, func(n *Node) any { return x.c.RandC(x.rng, n, 0, bad) })
		want := map[string]string{}
		x.c.Failing("Payload", x.o.Payload, m.Payload, want)
		if x.o.Headers != nil {
			x.c.Failing("Headers", x.o.Headers, m.Headers, want)
		}
		msg := x.c.NewMsg(t, x.o, m)
		got, crash := validate(v, msg)
		x.r.Observe("validations", 1)
		var kinds []string
		for _, k := range want {
			x.r.Observe("violated_"+k, 1)
			kinds = append(kinds, k)
		}
		sort.Strings(kinds)
		if len(want) == 0 {
			x.r.Observe("valid_messages", 1)
		}
		x.r.Eval(fmt.Sprint(x.key(m), kinds))
		if crash != nil {
			x.violate("panic", "the validation of %#v panics: %v", m, crash)
			return
		}
		for p, why := range want {
			if _, ok := got[p]; !ok {
				x.violate("accepted", "%s is accepted but violates %s: %#v (type %s)", p, why, m, t)
				return
			}
		}
		for p, tag := range got {
			if _, ok := want[p]; !ok {
				x.violate("rejected", "%s is rejected by %q but is valid: %#v (type %s)", p, tag, m, t)
				return
			}
		}
		if len(want) > 0 {
			x.r.Sample(map[string]any{"operation": x.c.Name + "/" + x.o.Name, "value": fmt.Sprint(m.Payload, m.Headers), "rejected": fmt.Sprint(want)})
		}
	}
}

func validate(v *validator.Validate, msg reflect.Value) (failing map[string]string, crash any) {
	defer func() { crash = recover() }()
	failing = map[string]string{}
	err := v.Struct(msg.Interface())
	if errs, ok := err.(validator.ValidationErrors); ok {
		for _, e := range errs {
			_, path, _ := strings.Cut(e.Namespace(), ".")
			failing[path] = e.Tag() + "=" + e.Param()
		}
	} else if err != nil {
		panic(err)
	}
	return failing, nil
}
