// Command traits parses and processes documents, as a program using the parser
// can do, and prints what their operations and messages are once processed.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"

	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi/parser"
	asyncapiv3 "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v3"
)

type object struct {
	Title       string            `json:"title"`
	Summary     string            `json:"summary"`
	Description string            `json:"description"`
	ContentType string            `json:"contentType"`
	Docs        string            `json:"docs"`
	Kafka       any               `json:"kafka"`
	Tags        []string          `json:"tags"`
	Security    []string          `json:"security"`
	Examples    []string          `json:"examples"`
	Headers     map[string]string `json:"headers"`
	Correlation string            `json:"correlation"`
}

type result struct {
	Error      string            `json:"error"`
	Operations map[string]object `json:"operations"`
	Messages   map[string]object `json:"messages"`
}

func docs(d *asyncapiv3.ExternalDocumentation) string {
	if d != nil && d.ReferenceTo != nil {
		d = d.ReferenceTo
	}
	if d == nil {
		return ""
	}
	return d.URL + " " + d.Description
}

func tags(list []*asyncapiv3.Tag) []string {
	res := []string{}
	for _, t := range list {
		if t.ReferenceTo != nil {
			t = t.ReferenceTo
		}
		res = append(res, t.Description)
	}
	sort.Strings(res)
	return res
}

func process(path string) (res result) {
	defer func() {
		if r := recover(); r != nil {
			res.Error = fmt.Sprintf("panic: %v", r)
		}
	}()

	s, err := parser.FromFile(parser.FromFileParams{Path: path})
	if err == nil {
		err = s.Process()
	}
	if err != nil {
		return result{Error: err.Error()}
	}
	spec := s.(*asyncapiv3.Specification)

	res = result{Operations: map[string]object{}, Messages: map[string]object{}}
	for name, op := range spec.Operations {
		op = op.Follow()
		o := object{Title: op.Title, Summary: op.Summary, Description: op.Description, Docs: docs(op.ExternalDocs), Tags: tags(op.Tags)}
		if op.Bindings != nil {
			o.Kafka = op.Bindings.Kafka
		}
		for _, sec := range op.Security {
			if sec.ReferenceTo != nil {
				sec = sec.ReferenceTo
			}
			o.Security = append(o.Security, sec.Description)
		}
		sort.Strings(o.Security)
		res.Operations[name] = o
	}
	for name, ch := range spec.Channels {
		for _, msg := range ch.Follow().Messages {
			msg = msg.Follow()
			o := object{Title: msg.Title, Summary: msg.Summary, Description: msg.Description, ContentType: msg.ContentType,
				Docs: docs(msg.ExternalDocs), Tags: tags(msg.Tags), Headers: map[string]string{}}
			if msg.Bindings != nil {
				o.Kafka = msg.Bindings.Kafka
			}
			for _, e := range msg.Examples {
				o.Examples = append(o.Examples, e.Summary)
			}
			sort.Strings(o.Examples)
			if msg.Headers != nil {
				h := msg.Headers.Follow()
				for n, p := range h.Properties {
					o.Headers[n] = fmt.Sprintf("%s %t", p.Follow().Type, h.IsFieldRequired(n))
				}
			}
			if msg.CorrelationID != nil {
				o.Correlation = msg.CorrelationID.Location
			}
			res.Messages[name] = o
		}
	}
	return res
}

func main() {
	var files []string
	if err := json.NewDecoder(os.Stdin).Decode(&files); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	res := make([]result, len(files))
	for i, f := range files {
		res[i] = process(f)
	}
	if err := json.NewEncoder(os.Stdout).Encode(res); err != nil {
		panic(err)
	}
}
