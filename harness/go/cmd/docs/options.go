package main

import (
	"fmt"
	"reflect"
	"strings"
)

func init() {
	checks["C21"] = perOp(12, 200, c21)
}

// c21: the types are the ones that the options and extensions ask for, and the
// messages on the wire too.
func c21(x *ctx) {
	t := x.e.MsgType(x.o)
	if f, ok := t.FieldByName("Payload"); !ok || !x.types("Payload", f.Type, x.o.Payload, map[*Node]bool{}) {
		return
	}
	if x.o.Headers != nil {
		if f, ok := t.FieldByName("Headers"); !ok || !x.types("Headers", f.Type, x.o.Headers, map[*Node]bool{}) {
			return
		}
	}
	before := x.r.Failed()
	c14(x)
	if x.r.Failed() == before {
		c16(x)
	}
}

// typeName is the full name of a type.
func typeName(t reflect.Type) string {
	if t.PkgPath() == "" {
		return t.String()
	}
	return t.PkgPath() + "." + t.Name()
}

// types checks the types of the fields of a node.
func (x *ctx) types(path string, t reflect.Type, n *Node, seen map[*Node]bool) bool {
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	n = x.c.Follow(n)
	bad := func(format string, args ...any) bool {
		x.violate("type", "%s is a %s: %s", path, typeName(t), fmt.Sprintf(format, args...))
		return false
	}
	if n.Go != "" {
		x.r.Observe("custom_types", 1)
		// A named type of the package can stand for the custom one
		if typeName(t) != n.Go && !strings.HasPrefix(t.PkgPath(), "verif/gen/") {
			return bad("it should be a %s", n.Go)
		}
		return true
	}
	if strings.HasPrefix(t.PkgPath(), "verif/ext") {
		return bad("it should not be a custom type")
	}
	switch n.K {
	case "obj":
		if seen[n] {
			return true
		}
		seen[n] = true
		if t.Kind() != reflect.Struct {
			return bad("it should be a struct")
		}
		for _, p := range n.Props {
			f, ok := fieldOf(t, p.Wire())
			if !ok {
				return bad("no field has the JSON name %q", p.Wire())
			}
			if !x.field(path, f, p) || !x.types(path+"."+f.Name, f.Type, p.T, seen) {
				return false
			}
		}
		if n.Addl != nil {
			if f, ok := t.FieldByName("AdditionalProperties"); ok && f.Type.Kind() == reflect.Map {
				return x.types(path+".AdditionalProperties", f.Type.Elem(), n.Addl, seen)
			}
			return bad("it should have additional properties")
		}
		return true
	case "arr":
		if t.Kind() != reflect.Slice {
			return bad("it should be a slice")
		}
		return x.types(path+"[]", t.Elem(), n.Items, seen)
	case "str":
		switch {
		case n.Fmt == "date" && !x.c.NoDates:
			if !t.ConvertibleTo(civilType) {
				return bad("it should be a date")
			}
		case n.Fmt == "date-time" && !x.c.NoDates:
			if !t.ConvertibleTo(timeType) {
				return bad("it should be a time")
			}
		case t.Kind() != reflect.String:
			return bad("it should be a string")
		}
	}
	return true
}

// field checks the pointer and the JSON tag of a field.
func (x *ctx) field(path string, f reflect.StructField, p *Prop) bool {
	x.r.Observe("fields", 1)
	pointer := f.Type.Kind() == reflect.Pointer
	if want := x.c.Force || !p.Req; x.c.Follow(p.T).K != "arr" && pointer != want {
		x.violate("pointer", "%s.%s (required: %v) is a %s", path, f.Name, p.Req, f.Type)
		return false
	}
	omit := !p.Req
	if p.Omit != nil {
		omit = *p.Omit
		x.r.Observe("forced_omitempty", 1)
	}
	want := p.Wire()
	if omit {
		want += ",omitempty"
	}
	if tag := f.Tag.Get("json"); tag != want {
		x.violate("tag", "%s.%s has the JSON tag %q instead of %q", path, f.Name, tag, want)
		return false
	}
	return true
}
