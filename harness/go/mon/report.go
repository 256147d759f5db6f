// Package mon holds what all the monitors share: reporting, seeded randomness,
// an instrumented in-memory broker and the detection of stuck executions.
package mon

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"strings"
	"sync"
	"time"
)

// Violation is a refutation of a property, with what is needed to replay it.
type Violation struct {
	Kind     string `json:"kind"`
	Scenario string `json:"scenario"`
	Detail   string `json:"detail"`
	Witness  any    `json:"witness,omitempty"`
}

// Report accumulates what a run observed.
type Report struct {
	mu           sync.Mutex
	Prop         string           `json:"property"`
	Seed         int64            `json:"seed"`
	Tier         string           `json:"tier"`
	Evaluations  int              `json:"evaluations"`
	DistinctKeys []string         `json:"distinct_keys"`
	Observed     map[string]int64 `json:"observed"`
	Samples      []any            `json:"samples"`
	Violations   []Violation      `json:"violations"`
	Inconclusive []string         `json:"inconclusive"`
	Done         bool             `json:"done"`

	distinct      map[string]struct{}
	scen          string
	out           string
	Shard, Shards int    `json:"-"`
	Only          string `json:"-"`
	Args          string `json:"-"`
	curTotal      int
}

// NewReport parses the standard flags of the monitors.
func NewReport() *Report {
	r := &Report{Observed: map[string]int64{}, distinct: map[string]struct{}{}}
	flag.StringVar(&r.Prop, "prop", "", "property")
	flag.Int64Var(&r.Seed, "seed", 1, "seed")
	flag.StringVar(&r.Tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&r.out, "out", "", "result file")
	flag.StringVar(&r.Only, "only", "", "only run this scenario (replay)")
	flag.StringVar(&r.Args, "args", "", "arguments of the monitor")
	flag.IntVar(&r.Shard, "shard", 0, "shard")
	flag.IntVar(&r.Shards, "shards", 1, "shards")
	flag.Parse()
	current = r
	go r.watch()
	return r
}

// watch ends the run when it is stuck out of any monitored wait.
func (r *Report) watch() {
	var last string
	same := 0
	for {
		time.Sleep(250 * time.Millisecond)
		sig, ok := quiet()
		sig += "/" + time.Duration(activity.Load()).String()
		if ok && sig == last {
			same++
		} else {
			same = 0
		}
		last = sig
		if same < 40 {
			continue
		}
		if stacks := BlockedStacks("verif/gen/", "lerenn/asyncapi-codegen/pkg"); stacks != "" {
			r.Violate("blocked", "no goroutine can progress any more:\n"+stacks, nil)
		} else {
			r.Undecided("the monitor is stuck:\n" + BlockedStacks("verif/"))
		}
		r.Flush()
		os.Exit(0)
	}
}

// Thorough tells whether the run is a thorough one.
func (r *Report) Thorough() bool { return r.Tier == "thorough" }

// N gives the number of repetitions according to the tier.
func (r *Report) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Mine tells if the scenario has to be run by this shard, and makes it current.
func (r *Report) Mine(scenario string, index int) bool {
	if r.Only != "" {
		if r.Only != scenario {
			return false
		}
	} else if index%r.Shards != r.Shard {
		return false
	}
	r.mu.Lock()
	r.scen = scenario
	tot := len(r.Violations)
	r.mu.Unlock()
	if r.out != "" {
		_ = os.WriteFile(r.out+".cur", []byte(scenario), 0o644)
	}
	return tot < 20
}

// Scenario returns the current scenario.
func (r *Report) Scenario() string {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.scen
}

// Eval counts an evaluation; key identifies it if it is not trivial.
func (r *Report) Eval(key string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Evaluations++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		r.distinct[fmt.Sprintf("%016x", h.Sum64())] = struct{}{}
	}
}

// Observe counts observed events.
func (r *Report) Observe(name string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Observed[name] += int64(n)
}

// Sample keeps some cases.
func (r *Report) Sample(s any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Samples) < 4 {
		r.Samples = append(r.Samples, s)
	}
}

// Violate reports a violation.
func (r *Report) Violate(kind, detail string, witness any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(detail) > 3000 {
		detail = detail[:3000] + "…"
	}
	n := 0
	for _, v := range r.Violations {
		if v.Kind == kind {
			n++
		}
	}
	if n >= 5 {
		return
	}
	v := Violation{Kind: kind, Scenario: r.scen, Detail: detail, Witness: witness}
	r.Violations = append(r.Violations, v)

	// Kept at once, as the run can end badly
	if r.out == "" {
		return
	}
	if b, err := json.Marshal(v); err == nil {
		if f, err := os.OpenFile(r.out+".viol", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
			_, _ = f.Write(append(b, '\n'))
			_ = f.Close()
		}
	}
}

// Failed is the number of violations up to now.
func (r *Report) Failed() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.Violations)
}

// Undecided reports that a scenario could not be decided.
func (r *Report) Undecided(why string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Inconclusive = append(r.Inconclusive, r.scen+": "+why)
}

// Flush writes the results.
func (r *Report) Flush() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Done = true
	for k := range r.distinct {
		r.DistinctKeys = append(r.DistinctKeys, k)
	}
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		panic(err)
	}
	if r.out == "" {
		if len(r.DistinctKeys) > 5 {
			s := string(b)
			if i := strings.Index(s, "\"distinct_keys\""); i > 0 {
				j := strings.Index(s[i:], "]")
				s = s[:i] + fmt.Sprintf("\"distinct\": %d", len(r.DistinctKeys)) + s[i+j+1:]
			}
			b = []byte(s)
		}
		fmt.Println(string(b))
		return
	}
	if err := os.WriteFile(r.out, b, 0o644); err != nil {
		panic(err)
	}
}

// Rng gives a generator determined by the seed of the run and the labels.
func (r *Report) Rng(labels ...any) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, r.Seed)
	for _, l := range labels {
		fmt.Fprintf(h, "/%v", l)
	}
	return rand.New(rand.NewSource(int64(h.Sum64() & 0x7fffffffffffffff)))
}
