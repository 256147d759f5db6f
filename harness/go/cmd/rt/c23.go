package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/fatih/color"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/errorhandlers"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/loggers"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/middlewares"

	"verif/mon"
	"verif/side"
)

func init() { checks["C23"] = c23 }

func c23(r *mon.Report) {
	dir, err := os.MkdirTemp("", "c23")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for i := 0; i < r.N(400, 8000); i++ {
		name := fmt.Sprintf("log/%d", i)
		if r.Mine(name, i) {
			c23log(r, r.Rng("C23", name), dir)
		}
	}
	for i := 0; i < r.N(64, 800); i++ {
		name := fmt.Sprintf("concurrent/%d", i)
		if r.Mine(name, i) {
			c23concurrent(r, r.Rng("C23", name), dir)
		}
	}
	for i := 0; i < r.N(160, 2400); i++ {
		name := fmt.Sprintf("direct/%d", i)
		if r.Mine(name, i) {
			c23direct(r, r.Rng("C23", name))
		}
	}
	for i := 0; i < r.N(320, 4800); i++ {
		ver := 2 + i%2
		name := fmt.Sprintf("v%d/pipeline/%d", ver, i)
		if r.Mine(name, i/2) {
			c23pipeline(r, ver, r.Rng("C23", name))
		}
	}
}

// capture gives what is written on the standard output.
func capture(dir string, f func()) string {
	p := filepath.Join(dir, "out")
	file, err := os.OpenFile(p, os.O_CREATE|os.O_TRUNC|os.O_WRONLY|os.O_APPEND, 0o600)
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = file
	func() {
		defer func() { os.Stdout = old }()
		f()
	}()
	file.Close()
	b, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	return string(b)
}

type pair struct {
	A int
	B string
}

func c23value(rng *rand.Rand) any {
	switch rng.Intn(12) {
	case 0:
		return rng.Intn(1000)
	case 1:
		return rng.Float64()
	case 2:
		return errors.New("boom " + words[rng.Intn(len(words))])
	case 3:
		return pair{rng.Intn(5), "x"}
	case 4:
		return nil
	case 5:
		return []byte("abc")
	case 6:
		return map[string]int{"k": 1}
	case 7:
		return rng.Intn(2) == 0
	case 8:
		return time.Duration(rng.Intn(10000)) * time.Millisecond
	case 9:
		return []any{1, "two", nil}
	default:
		return words[rng.Intn(len(words))] + words[rng.Intn(len(words))]
	}
}

// Keys that are not the prefix of each other.
var c23keys = []string{"one", "two.a", "two.b", "three.x.y", "three.x.z", "three.w", "four%d", "fi-ve", "six.seven.eight.nine", "dix", "été", "n\"q", "user.id"}

// c23ctx makes a random context, and what loggers have to show of it.
func c23ctx(rng *rand.Rand) (context.Context, map[extensions.ContextKey]string) {
	ctx := context.Background()
	m := map[extensions.ContextKey]string{}
	set := func(k extensions.ContextKey, vals ...string) {
		if rng.Intn(3) > 0 {
			m[k] = pick(rng, vals...)
			ctx = context.WithValue(ctx, k, m[k])
		}
	}
	set(extensions.ContextKeyIsProvider, "app", "user")
	set(extensions.ContextKeyIsChannel, "chan.a", "ch/{b}", "100%")
	set(extensions.ContextKeyIsDirection, "publication", "reception", "wait-for")
	set(extensions.ContextKeyIsBrokerMessage, `{"payload":{"a":1}}`, "plain", "%s%d")
	set(extensions.ContextKeyIsCorrelationID, "id-1", "é")
	set(extensions.ContextKeyIsVersion, "1.0.0")
	return ctx, m
}

func leaves(prefix string, v any, out map[string]string) {
	if m, ok := v.(map[string]any); ok {
		for k, w := range m {
			leaves(prefix+"\x00"+k, w, out)
		}
		return
	}
	out[prefix] = fmt.Sprint(v)
}

func dotted(key string) string { return "\x00" + strings.ReplaceAll(key, ".", "\x00") }

type levelFn func(ctx context.Context, msg string, info ...extensions.LogInfo)

func levelOf(l extensions.Logger, level string) levelFn {
	return map[string]levelFn{"info": l.Info, "warning": l.Warning, "error": l.Error}[level]
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func c23log(r *mon.Report, rng *rand.Rand, dir string) {
	ecs := rng.Intn(2) == 0
	color.NoColor = ecs || rng.Intn(2) == 0
	level := pick(rng, "info", "warning", "error")
	ctx, vals := c23ctx(rng)
	msg := fmt.Sprintf("message %d %s", rng.Intn(1000), words[rng.Intn(len(words))])
	var info []extensions.LogInfo
	user := map[string]string{}
	for _, k := range rng.Perm(len(c23keys))[:rng.Intn(5)] {
		v := c23value(rng)
		info = append(info, extensions.LogInfo{Key: c23keys[k], Value: v})
		user[c23keys[k]] = fmt.Sprintf("%+v", v)
	}
	given := append([]extensions.LogInfo{}, info...)
	// The caller can give a slice with more capacity: it is its own
	info = append(make([]extensions.LogInfo, 0, len(info)+8), info...)
	hostile := ""
	if rng.Intn(4) == 0 { // Collides with the keys of the logger, that win
		hostile = pick(rng, "message", "log.level", "Message", "log", "message.x", "@timestamp", "@Timestamp", "log.level.x", "Channel", "trace", "event.action.x")
		info = append(info, extensions.LogInfo{Key: hostile, Value: "hostile"})
	}
	start := time.Now()
	var l extensions.Logger = loggers.NewText()
	if ecs {
		l = loggers.NewECS()
	}
	out := capture(dir, func() { levelOf(l, level)(ctx, msg, info...) })
	end := time.Now()
	what := fmt.Sprintf("%s of %q with %v in a context with %v gives %q", level, msg, info, vals, out)
	for i := range given {
		if given[i].Key != info[i].Key || fmt.Sprintf("%+v", given[i].Value) != fmt.Sprintf("%+v", info[i].Value) {
			r.Violate("arguments", "the key-values given by the caller have been changed: "+what, nil)
		}
	}
	var stamp string
	if ecs {
		var doc map[string]any
		if strings.Count(out, "\n") != 1 || !strings.HasSuffix(out, "\n") {
			r.Violate("lines", "not exactly one line: "+what, nil)
			return
		}
		if err := json.Unmarshal([]byte(out), &doc); err != nil {
			r.Violate("format", "not JSON: "+what, nil)
			return
		}
		got := map[string]string{}
		leaves("", doc, got)
		want := map[string]string{dotted("message"): msg, dotted("log.level"): level}
		for k, v := range user {
			want[dotted(k)] = v
		}
		names := map[extensions.ContextKey]string{
			extensions.ContextKeyIsProvider: "asyncapi.provider", extensions.ContextKeyIsChannel: "asyncapi.channel",
			extensions.ContextKeyIsBrokerMessage: "event.original", extensions.ContextKeyIsCorrelationID: "trace.id",
		}
		for k, v := range vals {
			if n := names[k]; n != "" {
				want[dotted(n)] = v
			}
		}
		switch vals[extensions.ContextKeyIsDirection] {
		case "publication":
			want[dotted("event.action")] = "published-message"
		case "reception":
			want[dotted("event.action")] = "received-message"
		}
		for k, v := range want {
			if got[k] != v {
				r.Violate("content", fmt.Sprintf("%q is %q instead of %q: %s", strings.ReplaceAll(k, "\x00", "."), got[k], v, what), nil)
				return
			}
		}
		stamp = got[dotted("@timestamp")]
		delete(got, dotted("@timestamp"))
		delete(got, dotted("log.logger"))
		if hostile != "" {
			delete(got, dotted(hostile))
		}
		for k, v := range got {
			if _, ok := want[k]; !ok {
				r.Violate("content", fmt.Sprintf("unexpected %q = %q: %s", strings.ReplaceAll(k, "\x00", "."), v, what), nil)
				return
			}
		}
	} else {
		text := ansi.ReplaceAllString(out, "")
		first := out
		if i := strings.Index(out, msg); i >= 0 {
			first = out[:i]
		}
		if !strings.HasPrefix(text, "> ") || !strings.Contains(text, ": "+msg+"\n") || !strings.HasSuffix(text, "\n") {
			r.Violate("content", "the message is not at the beginning: "+what, nil)
			return
		}
		if strings.Count(text, ": "+msg+"\n") != 1 {
			r.Violate("content", "the message is not there once: "+what, nil)
			return
		}
		stamp, _, _ = strings.Cut(strings.TrimPrefix(text, "> "), ": ")
		want := map[string]string{}
		for k, v := range user {
			want[k] = v
		}
		for k, n := range map[extensions.ContextKey]string{
			extensions.ContextKeyIsChannel: "Channel", extensions.ContextKeyIsBrokerMessage: "Content", extensions.ContextKeyIsCorrelationID: "CorrelationID"} {
			if v, ok := vals[k]; ok {
				want[n] = v
			}
		}
		for k, v := range want {
			path := strings.Split(k, ".")
			line := "\n" + strings.Repeat("  ", len(path)) + path[len(path)-1] + ": " + v + "\n"
			if !strings.Contains(text, line) {
				r.Violate("content", fmt.Sprintf("%q: %q is not shown: %s", k, v, what), nil)
				return
			}
			for i, p := range path[:len(path)-1] {
				if !strings.Contains(text, "\n"+strings.Repeat("  ", i+1)+p+":\n") {
					r.Violate("content", fmt.Sprintf("the parent of %q is not shown: %s", k, what), nil)
					return
				}
			}
		}
		if !color.NoColor {
			red, yellow := regexp.MustCompile(`\x1b\[[0-9;]*[39]1[;m]`).MatchString(first), regexp.MustCompile(`\x1b\[[0-9;]*[39]3[;m]`).MatchString(first)
			if red != (level == "error") || yellow != (level == "warning") {
				r.Violate("level", fmt.Sprintf("level %s is not shown as such: %s", level, what), nil)
			}
			r.Observe("text_levels", 1)
		}
	}
	if ts, err := time.Parse(time.RFC3339Nano, stamp); err != nil || ts.Before(start.Add(-time.Second)) || ts.After(end.Add(time.Second)) {
		if hostile == "" {
			r.Violate("timestamp", fmt.Sprintf("timestamp %q (%v): %s", stamp, err, what), nil)
		}
	}
	r.Observe("log_calls", 1)
	r.Eval(fmt.Sprintf("log/%v/%s/%d/%d/%s", ecs, level, len(info), len(vals), hostile))
	r.Sample(map[string]any{"scenario": r.Scenario(), "output": out})
}

// c23concurrent: loggers used by many goroutines at once.
func c23concurrent(r *mon.Report, rng *rand.Rand, dir string) {
	color.NoColor = true
	ecs := rng.Intn(2) == 0
	var l extensions.Logger = loggers.NewText()
	if ecs {
		l = loggers.NewECS()
	}
	shared := make([]extensions.LogInfo, 0, 8)
	shared = append(shared, extensions.LogInfo{Key: "shared.key", Value: "s"})
	g, n := 2+rng.Intn(6), 5+rng.Intn(20)
	out := capture(dir, func() {
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < n; k++ {
					id := fmt.Sprintf("id-%d-%d", i, k)
					ctx := context.WithValue(context.Background(), extensions.ContextKeyIsCorrelationID, id)
					ctx = context.WithValue(ctx, extensions.ContextKeyIsChannel, "ch-"+id)
					level := []string{"info", "warning", "error"}[k%3]
					if k%4 == 0 {
						levelOf(l, level)(ctx, "m-"+id, shared...)
					} else {
						levelOf(l, level)(ctx, "m-"+id, extensions.LogInfo{Key: "k.v", Value: "v-" + id})
					}
				}
			}()
		}
		wg.Wait()
	})
	seen := map[string]int{}
	if ecs {
		lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		for _, line := range lines {
			var doc map[string]any
			if err := json.Unmarshal([]byte(line), &doc); err != nil {
				r.Violate("lines", fmt.Sprintf("line %q is not one log: %v", line, err), nil)
				return
			}
			got := map[string]string{}
			leaves("", doc, got)
			id := strings.TrimPrefix(got[dotted("message")], "m-")
			seen[id]++
			if got[dotted("trace.id")] != id || got[dotted("asyncapi.channel")] != "ch-"+id || (got[dotted("k.v")] != "v-"+id && got[dotted("shared.key")] != "s") {
				r.Violate("mixed", fmt.Sprintf("line %q mixes several logs", line), nil)
				return
			}
		}
	} else {
		blocks := strings.Split("\n"+out, "\n> ")
		for _, b := range blocks[1:] {
			m := regexp.MustCompile(`: m-(id-\d+-\d+)\n`).FindStringSubmatch(b + "\n")
			if m == nil {
				r.Violate("lines", fmt.Sprintf("%q is not one log", b), nil)
				return
			}
			id := m[1]
			seen[id]++
			for _, o := range regexp.MustCompile(`id-\d+-\d+`).FindAllString(b, -1) {
				if o != id {
					r.Violate("mixed", fmt.Sprintf("%q mixes several logs", b), nil)
					return
				}
			}
			if !strings.Contains(b, "CorrelationID: "+id+"\n") || !strings.Contains(b, "Channel: ch-"+id+"\n") ||
				(!strings.Contains(b, "v: v-"+id+"\n") && !strings.Contains(b, "key: s\n")) {
				r.Violate("content", fmt.Sprintf("%q misses some values", b), nil)
				return
			}
		}
	}
	for i := 0; i < g; i++ {
		for k := 0; k < n; k++ {
			if c := seen[fmt.Sprintf("id-%d-%d", i, k)]; c != 1 {
				r.Violate("count", fmt.Sprintf("a call has been logged %d times instead of once", c), nil)
				return
			}
		}
	}
	if len(seen) != g*n {
		r.Violate("count", fmt.Sprintf("%d logs for %d calls", len(seen), g*n), nil)
	}
	r.Observe("concurrent_log_calls", g*n)
	r.Eval(fmt.Sprintf("concurrent/%v/%d/%d", ecs, g, n))
}

type c23entry struct {
	level, msg string
	id         string
	info       string
}

// recLogger records what is logged.
type recLogger struct {
	mu sync.Mutex
	l  []c23entry
}

func (l *recLogger) add(ctx context.Context, level, msg string, info []extensions.LogInfo) {
	l.mu.Lock()
	defer l.mu.Unlock()
	dir, _ := ctx.Value(extensions.ContextKeyIsDirection).(string)
	raw, _ := ctx.Value(extensions.ContextKeyIsBrokerMessage).(string)
	l.l = append(l.l, c23entry{level, msg, dir + "|" + raw, fmt.Sprint(info)})
}
func (l *recLogger) Info(ctx context.Context, msg string, info ...extensions.LogInfo) {
	l.add(ctx, "info", msg, info)
}
func (l *recLogger) Warning(ctx context.Context, msg string, info ...extensions.LogInfo) {
	l.add(ctx, "warning", msg, info)
}
func (l *recLogger) Error(ctx context.Context, msg string, info ...extensions.LogInfo) {
	l.add(ctx, "error", msg, info)
}
func (l *recLogger) all() []c23entry {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]c23entry{}, l.l...)
}

// panics are the values of panics, with the text that has to be found.
func c23panic(rng *rand.Rand) (func(), string) {
	switch rng.Intn(7) {
	case 0:
		return func() { panic("text 100%d") }, "text 100%d"
	case 1:
		return func() { panic(errors.New("an error")) }, "an error"
	case 2:
		return func() { var m map[string]int; m["a"] = 1 }, "assignment to entry in nil map"
	case 3:
		return func() { var p *pair; p.A = 1 }, "nil pointer dereference"
	case 4:
		return func() { panic(pair{4, "z"}) }, "{4 z}"
	case 5:
		return func() { panic(42) }, "42"
	default:
		i := rng.Intn(3) + 5
		return func() { _ = []int{1}[i%8] }, "index out of range"
	}
}

// c23direct calls the middlewares and error handlers directly.
func c23direct(r *mon.Report, rng *rand.Rand) {
	l := &recLogger{}
	ctx, vals := c23ctx(rng)
	inner := errors.New("inner")
	msg := &extensions.BrokerMessage{Headers: map[string][]byte{"h": []byte("v")}, Payload: []byte("p")}
	calls := 0
	ret := pick(rng, nil, inner)
	type key struct{}
	next := func(c context.Context) error {
		calls++
		return ret
	}
	kind := pick(rng, "recovery", "recovery-panic", "logging", "intercepter", "errorhandler")
	switch kind {
	case "recovery":
		err := middlewares.Recovery(l)(context.WithValue(ctx, key{}, 1), msg, next)
		if !errors.Is(err, ret) || (ret == nil && err != nil) || calls != 1 || len(l.all()) != 0 {
			r.Violate("recovery", fmt.Sprintf("recovery middleware without panic: error %v instead of %v, next called %d times, logs %v", err, ret, calls, l.all()), nil)
		}
	case "recovery-panic":
		f, text := c23panic(rng)
		err := middlewares.Recovery(l)(ctx, msg, func(context.Context) error { calls++; f(); return nil })
		logs := l.all()
		if err == nil || !errors.Is(err, extensions.ErrPanicRecovered) || !errors.Is(err, extensions.ErrAsyncAPI) || !strings.Contains(err.Error(), text) {
			r.Violate("recovery", fmt.Sprintf("panic with %q gives error %v", text, err), nil)
		}
		if calls != 1 || len(logs) != 1 || logs[0].level != "error" || !strings.Contains(logs[0].msg, text) {
			r.Violate("recovery", fmt.Sprintf("panic with %q is logged as %v", text, logs), nil)
		}
	case "logging":
		err := middlewares.Logging(l)(ctx, msg, next)
		want := 0
		if d := vals[extensions.ContextKeyIsDirection]; d == "reception" || d == "publication" {
			want = 1
		}
		logs := l.all()
		if vals[extensions.ContextKeyIsDirection] == "wait-for" { // Left open by the property
			logs = nil
		}
		if (calls == 0 && err != nil) || (calls == 1 && !errors.Is(err, ret)) || calls > 1 || len(logs) != want {
			r.Violate("logging", fmt.Sprintf("logging middleware in context %v: error %v, next called %d times, logs %v", vals, err, calls, logs), nil)
		} else if want == 1 {
			verb := map[string]string{"reception": "Received", "publication": "Published"}[vals[extensions.ContextKeyIsDirection]]
			if logs[0].level != "info" || !strings.Contains(strings.ToLower(logs[0].msg), strings.ToLower(verb)) {
				r.Violate("logging", fmt.Sprintf("logging middleware in context %v logs %v", vals, logs), nil)
			}
		}
	case "intercepter":
		ch := make(chan extensions.BrokerMessage, 2)
		err := middlewares.Intercepter(ch)(ctx, msg, next)
		if (calls == 0 && err != nil) || (calls == 1 && !errors.Is(err, ret)) || calls > 1 || len(ch) != 1 {
			r.Violate("intercepter", fmt.Sprintf("error %v, next called %d times, %d messages intercepted", err, calls, len(ch)), nil)
		} else if m := <-ch; string(m.Payload) != "p" || string(m.Headers["h"]) != "v" {
			r.Violate("intercepter", fmt.Sprintf("intercepted %v", m), nil)
		}
	default:
		am := extensions.NewAcknowledgeableBrokerMessage(*msg, nopAck{func(k string) { r.Violate("errorhandler", "the logging error handler settles the message: "+k, nil) }})
		text := "failure " + words[rng.Intn(len(words))]
		errorhandlers.Logging(l)(ctx, "topic-%s", &am, errors.New(text))
		logs := l.all()
		if len(logs) != 1 || logs[0].level != "error" || !strings.Contains(logs[0].msg+logs[0].info, "topic-%s") || !strings.Contains(logs[0].msg+logs[0].info, text) {
			r.Violate("errorhandler", fmt.Sprintf("error %q of topic-%%s is logged as %v", text, logs), nil)
		}
		extensions.DefaultErrorHandler()(ctx, "topic", &am, errors.New(text))
	}
	if string(msg.Payload) != "p" || string(msg.Headers["h"]) != "v" || len(msg.Headers) != 1 {
		r.Violate("message", kind+" modified the message", nil)
	}
	r.Observe("direct_"+strings.ReplaceAll(kind, "-", "_"), 1)
	r.Eval(fmt.Sprintf("direct/%s/%v/%v/%d", kind, ret, vals[extensions.ContextKeyIsDirection], rng.Intn(1)))
}

type nopAck struct{ f func(string) }

func (a nopAck) AckMessage() { a.f("ack") }
func (a nopAck) NakMessage() { a.f("nak") }

// c23pipeline: the bundled middlewares and error handlers in a controller.
func c23pipeline(r *mon.Report, ver int, rng *rand.Rand) {
	ctx := context.Background()
	j := mon.NewJitter(rand.New(rand.NewSource(rng.Int63())), pick(rng, 0, 50))
	b := mon.NewBroker(j, pick(rng, 0, 1, 8))
	ops := side.Select(ver, func(o *side.Op) bool { return !o.Dyn && o.Trace && !o.Strict && o.Reply == nil })
	o := ops[rng.Intn(len(ops))]
	params := randParams(rng, o)
	lg, le, lr := &recLogger{}, &recLogger{}, &recLogger{}
	ch := make(chan extensions.BrokerMessage, pick(rng, 0, 1, 32))
	var seen []extensions.BrokerMessage
	stop := make(chan struct{})
	drained := mon.Go(func() {
		for {
			select {
			case m := <-ch:
				seen = append(seen, mon.CloneMsg(m))
				j.Pause()
			case <-stop:
				return
			}
		}
	})
	recovery := rng.Intn(4) > 0
	var mws []extensions.Middleware
	if recovery {
		mws = append(mws, middlewares.Recovery(lr))
	}
	tail := []extensions.Middleware{middlewares.Logging(lg), middlewares.Intercepter(ch)}
	rng.Shuffle(2, func(a, b int) { tail[a], tail[b] = tail[b], tail[a] })
	mws = append(mws, tail...)
	failed := errors.New("handler failed")
	n := 3 + rng.Intn(10)
	outcome := map[int64]string{}
	texts := map[int64]string{}
	fs := map[int64]func(){}
	for i := 0; i < n; i++ {
		k := int64(i)
		outcome[k] = pick(rng, "ok", "ok", "error", "panic")
		if outcome[k] == "panic" && !recovery {
			outcome[k] = "error"
		}
		fs[k], texts[k] = c23panic(rng)
	}
	var mu sync.Mutex
	var handled []int64
	recv := side.New(ver, o.Receiver(), b.View("recv"), side.Options{Middlewares: mws, ErrorHandler: errorhandlers.Logging(le)})
	err := recv.Sub(ctx, o, params, func(_ context.Context, m side.Msg, _ any) error {
		mu.Lock()
		handled = append(handled, m.ID)
		mu.Unlock()
		switch outcome[m.ID] {
		case "error":
			return failed
		case "panic":
			fs[m.ID]()
		}
		return nil
	})
	if err != nil {
		r.Violate("subscribe-error", err.Error(), nil)
		return
	}
	lp := &recLogger{}
	sendMws := []extensions.Middleware{middlewares.Recovery(lp), middlewares.Logging(lp)}
	send := side.New(ver, o.Sender, b.View("send"), side.Options{Middlewares: sendMws})
	down := errors.New("down")
	pubOutcome := ""
	b.OnPublish = func(context.Context, string, extensions.BrokerMessage) error {
		switch pubOutcome {
		case "error":
			return down
		case "panic":
			panic("publish panic")
		}
		return nil
	}
	wantPub, wantPubPanics := 0, 0
	for i := 0; i < n; i++ {
		m := randMsg(rng, int64(i))
		m.Trace = side.Str(fmt.Sprintf("#%d", i))
		pubOutcome = pick(rng, "", "", "", "error", "panic")
		failing := pubOutcome
		wantPub++
		err := send.Send(ctx, o, params, "", m)
		switch failing {
		case "error":
			if !errors.Is(err, down) {
				r.Violate("publish", fmt.Sprintf("failed publication gives %v", err), nil)
			}
		case "panic":
			wantPubPanics++
			if !errors.Is(err, extensions.ErrPanicRecovered) {
				r.Violate("recovery", fmt.Sprintf("panic of the publication gives %v", err), nil)
			}
		default:
			if err != nil {
				r.Violate("publish", fmt.Sprintf("publication gives %v", err), nil)
			}
		}
		if failing != "" {
			pubOutcome = ""
			wantPub++
			if err := send.Send(ctx, o, params, "", m); err != nil {
				r.Violate("publish", fmt.Sprintf("publication after a failed one gives %v", err), nil)
			}
		}
	}
	if !mon.Settle() {
		r.Undecided("not quiescent")
		return
	}
	close(stop)
	<-drained
	subs := b.AllSubs()
	if len(subs) != 1 || len(subs[0].Items) != n {
		r.Undecided("unexpected deliveries")
		return
	}
	wantErr, wantPanic := 0, 0
	var errTexts []string
	for i, d := range subs[0].Items {
		want := "ack"
		switch outcome[int64(i)] {
		case "error":
			want = "nak"
			wantErr++
			errTexts = append(errTexts, failed.Error())
		case "panic":
			want = "nak"
			wantErr++
			wantPanic++
			errTexts = append(errTexts, texts[int64(i)])
		}
		if len(d.Settled) != 1 || d.Settled[0].Kind != want {
			r.Violate("outcome", fmt.Sprintf("message %d (%s) is settled with %v instead of %s under the bundled middlewares", i, outcome[int64(i)], d.Settled, want), nil)
		}
		if i < len(seen) && (string(seen[i].Payload) != string(d.Msg.Payload) || fmt.Sprint(seen[i].Headers) != fmt.Sprint(d.Msg.Headers)) {
			r.Violate("intercepter", fmt.Sprintf("message %d intercepted as %v instead of %v", i, seen[i], d.Msg), nil)
		}
	}
	if len(seen) != n {
		r.Violate("intercepter", fmt.Sprintf("%d messages intercepted instead of %d", len(seen), n), nil)
	}
	if len(handled) != n || !sort.SliceIsSorted(handled, func(a, b int) bool { return handled[a] < handled[b] }) {
		r.Violate("handler", fmt.Sprintf("handler called for %v instead of the %d messages", handled, n), nil)
	}
	if got := lg.all(); len(got) != n {
		r.Violate("logging", fmt.Sprintf("%d logs for %d messages: %v", len(got), n, got), nil)
	} else {
		for i, g := range got {
			if g.level != "info" || g.id != "reception|"+subs[0].Items[i].Msg.String() && len(subs[0].Items[i].Msg.Headers) < 2 {
				r.Violate("logging", fmt.Sprintf("message %d %s logged as %v", i, subs[0].Items[i].Msg.String(), g), nil)
			}
		}
	}
	if got := le.all(); len(got) != wantErr {
		r.Violate("errorhandler", fmt.Sprintf("%d logs for %d errors: %v", len(got), wantErr, got), nil)
	} else {
		for i, g := range got {
			if g.level != "error" || !strings.Contains(g.msg+g.info, errTexts[i]) || !strings.Contains(g.msg+g.info, o.Addr(params)) {
				r.Violate("errorhandler", fmt.Sprintf("error %q on %q logged as %v", errTexts[i], o.Addr(params), g), nil)
			}
		}
	}
	if got := lr.all(); len(got) != wantPanic {
		r.Violate("recovery", fmt.Sprintf("%d logs for %d panics: %v", len(got), wantPanic, got), nil)
	}
	pubs, panics := 0, 0
	for _, e := range lp.all() {
		if e.level == "info" {
			pubs++
		} else {
			panics++
		}
	}
	if pubs != wantPub || panics != wantPubPanics {
		r.Violate("logging", fmt.Sprintf("publications: %d logs instead of %d, %d panics logged instead of %d", pubs, wantPub, panics, wantPubPanics), nil)
	}
	if !ended(r, "blocked", "close", mon.Wait(mon.Go(func() { recv.Close(ctx) }))) {
		return
	}
	r.Observe("pipeline_messages", n)
	r.Observe("pipeline_panics", wantPanic)
	r.Observe("pipeline_errors", wantErr)
	var key strings.Builder
	for i := 0; i < n; i++ {
		key.WriteByte(outcome[int64(i)][0])
	}
	r.Eval(fmt.Sprintf("pipeline/%s/%v/%s", o.Key(), recovery, key.String()))
}
