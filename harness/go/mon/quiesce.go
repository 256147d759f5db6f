package mon

import (
	"context"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Watchdog bounds every wait. It is generous: its expiration is inconclusive.
const Watchdog = 90 * time.Second

// Outcome is the result of a wait.
type Outcome int

// Possible outcomes of a wait.
const (
	Finished Outcome = iota
	Stuck            // no goroutine of the process can make progress any more
	Spinning         // processor time is used but nothing happens
	TimedOut         // inconclusive
)

var goHeader = regexp.MustCompile(`(?m)^goroutine (\d+)(?: gp=\S+ m=\S+(?: mp=\S+)?)? \[([^\],]*)`)

// Goroutine is a goroutine of a dump.
type Goroutine struct {
	ID, State, Stack string
}

// Goroutines returns the goroutines of the process, except the caller.
func Goroutines() []Goroutine {
	buf := make([]byte, 1<<18)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var res []Goroutine
	for i, s := range strings.Split(string(buf), "\n\n") {
		if i == 0 { // The caller
			continue
		}
		m := goHeader.FindStringSubmatch(s)
		if m == nil {
			continue
		}
		res = append(res, Goroutine{ID: m[1], State: m[2], Stack: s})
	}
	return res
}

// busy tells whether a goroutine can progress on its own.
func (g Goroutine) busy() bool {
	switch {
	case strings.HasPrefix(g.State, "chan"), strings.HasPrefix(g.State, "select"),
		strings.HasPrefix(g.State, "sync."), g.State == "semacquire", g.State == "finalizer wait",
		strings.HasPrefix(g.State, "GC"), strings.HasPrefix(g.State, "force gc"):
		return false
	case g.State == "IO wait", g.State == "syscall":
		// Network servers and signal handlers idle there: see activity
		return strings.Contains(g.Stack, "verif/") && !strings.Contains(g.Stack, "verif/fake/")
	}
	return true
}

// cpuTime is the processor time used by the process.
func cpuTime() time.Duration {
	var u syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &u); err != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

var activity atomic.Int64

// Touch tells that something happened in the workload.
func Touch() { activity.Add(1) }

// quiet tells if no goroutine can progress, with a signature of the situation.
func quiet() (string, bool) {
	var ids []string
	for _, g := range Goroutines() {
		if strings.Contains(g.Stack, "(*Report).watch") {
			continue
		}
		if g.busy() {
			return "", false
		}
		ids = append(ids, g.ID+g.State)
	}
	sort.Strings(ids)
	return strings.Join(ids, ","), true
}

// Wait waits for the end of something, unless it is stuck.
func Wait(done <-chan struct{}) Outcome {
	deadline := time.Now().Add(Watchdog)
	var last string
	same := 0
	pause := 2 * time.Millisecond
	lastAct, cpu := activity.Load(), cpuTime()
	for {
		select {
		case <-done:
			return Finished
		case <-time.After(pause):
		}
		if pause < 20*time.Millisecond {
			pause += 2 * time.Millisecond
			continue
		}
		act := activity.Load()
		if act != lastAct {
			lastAct, cpu = act, cpuTime()
		} else if cpuTime()-cpu > 10*time.Second {
			return Spinning
		}
		sig, ok := quiet()
		sig += "/" + time.Duration(act).String()
		if ok && sig == last {
			same++
		} else {
			same = 0
		}
		last = sig
		if same >= 12 {
			select {
			case <-done:
				return Finished
			default:
				return Stuck
			}
		}
		if time.Now().After(deadline) {
			return TimedOut
		}
	}
}

// Settle waits until no goroutine can progress any more. It returns false if
// this did not happen in time (which is inconclusive).
func Settle() bool {
	out := Idle()
	if out == Spinning && current != nil {
		if stack := spinner(); stack != "" {
			// Nothing can be observed any more
			current.Violate("spinning", "the processor is used without any progress by:\n"+stack, nil)
			current.Flush()
			os.Exit(0)
		}
	}
	return out == Stuck
}

// current is the report of the process.
var current *Report

// spinner gives the stack of a goroutine of the code under test that never stops
// running, although nothing happens.
func spinner() string {
	act := activity.Load()
	var seen map[string]string
	for i := 0; i < 20; i++ {
		now := map[string]string{}
		for _, g := range Goroutines() {
			lib := strings.Contains(g.Stack, "verif/gen/") || strings.Contains(g.Stack, "lerenn/asyncapi-codegen/pkg")
			if _, ok := seen[g.ID]; lib && (g.State == "running" || g.State == "runnable") && (ok || i == 0) {
				now[g.ID] = g.Stack
			}
		}
		seen = now
		if len(seen) == 0 || activity.Load() != act {
			return ""
		}
		time.Sleep(20 * time.Millisecond)
	}
	for _, s := range seen {
		return s
	}
	return ""
}

// Idle waits until no goroutine can progress any more (Stuck). Otherwise it
// tells whether the process spins or the situation cannot be decided.
func Idle() Outcome {
	deadline := time.Now().Add(Watchdog)
	act, cpu := activity.Load(), cpuTime()
	var last string
	same := 0
	for {
		time.Sleep(time.Millisecond)
		sig, ok := quiet()
		if ok && sig == last {
			same++
		} else {
			same = 0
		}
		last = sig
		if same >= 3 {
			return Stuck
		}
		if a := activity.Load(); a != act {
			act, cpu = a, cpuTime()
		} else if cpuTime()-cpu > 10*time.Second {
			return Spinning
		}
		if time.Now().After(deadline) {
			return TimedOut
		}
	}
}

// BlockedStacks describes the blocked goroutines that have the text in their stack.
func BlockedStacks(filters ...string) string {
	var b strings.Builder
	for _, g := range Goroutines() {
		for _, f := range filters {
			if strings.Contains(g.Stack, f) {
				b.WriteString(g.Stack + "\n\n")
				break
			}
		}
	}
	return b.String()
}

// CountStacks counts the goroutines that have the text in their stack.
func CountStacks(filters ...string) int {
	n := 0
	for _, g := range Goroutines() {
		for _, f := range filters {
			if strings.Contains(g.Stack, f) {
				n++
				break
			}
		}
	}
	return n
}

// Go runs the function and gives a channel closed at its end.
func Go(f func()) <-chan struct{} {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	return done
}

// Until waits for a condition that depends on the network. It is stuck when the
// process has had nothing to do for long.
func Until(cond func() bool, patience time.Duration) Outcome {
	deadline := time.Now().Add(Watchdog)
	pause := time.Millisecond
	start, samples, idle := time.Now(), 0, 0
	for {
		if cond() {
			return Finished
		}
		time.Sleep(pause)
		if pause < 30*time.Millisecond {
			pause += time.Millisecond
			continue
		}
		Touch()
		samples++
		if _, ok := quiet(); ok {
			idle++
		}
		if time.Since(start) > patience && samples > 30 {
			if idle*10 >= samples*9 && !cond() {
				return Stuck
			}
			start, samples, idle = time.Now(), 0, 0
		}
		if time.Now().After(deadline) {
			return TimedOut
		}
	}
}

// Poll tries until it succeeds or the context is done. The workload is considered
// active meanwhile, for long enough that a slow machine does not matter.
func Poll(ctx context.Context, try func() bool) {
	start := time.Now()
	for k := 0; !try(); k++ {
		if ctx.Err() != nil || (k > 1000 && time.Since(start) > Watchdog/3) {
			return
		}
		Touch()
		if k < 200 {
			runtime.Gosched()
		} else {
			time.Sleep(100 * time.Microsecond)
		}
	}
}

// Done gives the condition that a channel is closed.
func Done(done <-chan struct{}) func() bool {
	return func() bool {
		select {
		case <-done:
			return true
		default:
			return false
		}
	}
}
