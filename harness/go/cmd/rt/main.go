// Command rt runs the monitors of the generated controllers and extensions.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verif/mon"
	"verif/side"
)

var checks = map[string]func(r *mon.Report){}

func main() {
	r := mon.NewReport()
	f, ok := checks[r.Prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", r.Prop)
		os.Exit(3)
	}
	f(r)
	r.Flush()
}

// pick chooses among values.
func pick[T any](rng *rand.Rand, vals ...T) T { return vals[rng.Intn(len(vals))] }

// randParams chooses parameters for an operation, among few values.
func randParams(rng *rand.Rand, o *side.Op) []string {
	p := make([]string, len(o.Params))
	for i := range p {
		p[i] = pick(rng, "a", "b", "A", "x1", "Z-9")
	}
	return p
}

// words of the random texts.
var words = []string{"", "a", "é", "\"q\"", "100%d", "日本", "\\n", "{}", "null", "0", "line\nbreak", " sp ", "<&>"}

func randText(rng *rand.Rand) *string {
	switch rng.Intn(4) {
	case 0:
		return nil
	default:
		n := rng.Intn(3)
		var b strings.Builder
		for i := 0; i <= n; i++ {
			b.WriteString(words[rng.Intn(len(words))])
		}
		s := b.String()
		return &s
	}
}

// randMsg makes a random message with the given ID.
func randMsg(rng *rand.Rand, id int64) side.Msg {
	m := side.Msg{ID: id, Text: randText(rng), Trace: randText(rng)}
	for i := rng.Intn(3); i > 0; i-- {
		m.Tags = append(m.Tags, words[rng.Intn(len(words))])
	}
	return m
}

// malformed gives a broker message that no operation can decode.
func malformed(rng *rand.Rand) extensions.BrokerMessage {
	p := pick(rng, "", "{", "[]", "\"x\"", "12", "{\"id\":\"no\"}", "{\"id\":1.5}", "{\"id\":1}}", "\x00\xff", "{\"id\":[]}", "nul")
	h := map[string][]byte{}
	if rng.Intn(2) == 0 {
		h["trace"] = []byte("t")
	}
	return extensions.BrokerMessage{Headers: h, Payload: []byte(p)}
}

func keys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func other(role string) string {
	if role == "App" {
		return "User"
	}
	return "App"
}

// stuckReport describes why an execution does not end. It returns true if the
// execution is over, and reports what happened otherwise.
func ended(r *mon.Report, kind, what string, out mon.Outcome) bool {
	switch out {
	case mon.Finished:
		return true
	case mon.Stuck:
		r.Violate(kind, what+": no goroutine can progress any more:\n"+mon.BlockedStacks("verif/gen/", "pkg/extensions"), nil)
	case mon.Spinning:
		r.Violate(kind, what+": the processor is used without any progress:\n"+mon.BlockedStacks("verif/gen/", "pkg/extensions"), nil)
	default:
		r.Undecided(what + ": not ended in time")
	}
	return false
}
