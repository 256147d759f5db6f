package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"reflect"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verif/mon"
)

func init() {
	checks["C05"] = perOp(10, 150, c05)
}

// answer is what a request returns.
type answer struct {
	msg reflect.Value
	err error
}

// request is one that is in progress.
type request struct {
	addr   string // Where the reply is expected
	m      Message
	result answer
	done   <-chan struct{}
}

// c05: requests and replies of random documents.
func c05(x *ctx) {
	o, e := x.o, x.e
	if x.c.Version == 2 {
		if o.Corr != nil && o.Sender == "App" {
			x.waitFor()
		}
		return
	}
	if o.Reply == nil {
		return
	}
	t := e.MsgType(o)
	for i := 0; i < x.n; i++ {
		q := &request{addr: o.Reply.Addr(nil), m: x.c.RandMsg(x.rng, o, x.rand)}
		if o.Dyn != nil {
			q.addr = fmt.Sprintf("dyn.%d.%s", i, []string{"a", "é b", "%d", "{x}"}[x.rng.Intn(4)])
			x.c.set(o, o.Dyn, q.m, x.rand, q.addr)
			if i%4 == 3 {
				if !x.noAddress(t, q) {
					return
				}
				continue
			}
		}
		var ok bool
		if i%2 == 0 {
			ok = x.answered(t, q)
		} else {
			ok = x.replied(t, q)
		}
		if !ok {
			return
		}
	}
}

// correlated tells if the replies are found from their correlation ID.
func (o *Op) correlated() bool { return o.Corr != nil && o.Reply.Corr != nil }

// ask makes a request.
func (x *ctx) ask(t reflect.Type, q *request, params []string) {
	word := "As"
	if x.o.Sender == "User" {
		word = "To"
	}
	m := x.e.method(x.o.Sender, "Request"+word+title(x.o.Name)+"Operation")
	args := x.o.args(m, params, x.c.NewMsg(t, x.o, q.m))
	q.done = mon.Go(func() {
		res := m.Call(args)
		q.result.msg = res[0]
		q.result.err, _ = res[1].Interface().(error)
	})
}

func (x *ctx) ended(what string, done <-chan struct{}) bool {
	switch mon.Wait(done) {
	case mon.Finished:
		return true
	case mon.Stuck, mon.Spinning:
		x.violate("unanswered", "%s: it does not end:\n%s", what, mon.BlockedStacks("verif/gen/", "pkg/extensions"))
	default:
		x.r.Undecided(what + ": not ended in time")
	}
	return false
}

// listened tells if there is a subscription on a channel.
func (x *ctx) listened(addr string) bool {
	for _, s := range x.e.b.Live() {
		if s.Channel == addr {
			return true
		}
	}
	return false
}

// noAddress makes a request without the address of the reply.
func (x *ctx) noAddress(t reflect.Type, q *request) bool {
	o := x.o
	x.c.drop(x.rng, o, o.Dyn, q.m)
	if _, missing := x.c.get(o, o.Dyn, q.m); !missing {
		return true // Nothing is said on the empty address
	}
	subs, pubs := len(x.e.b.AllSubs()), len(x.e.b.AllPubs())
	x.ask(t, q, o.randParams(x.rng))
	if !x.ended("request without reply address", q.done) {
		return false
	}
	if !errors.Is(q.result.err, extensions.ErrChannelAddressEmpty) || len(x.e.b.AllSubs()) != subs || len(x.e.b.AllPubs()) != pubs {
		x.violate("reply-no-address", "%#v, that has no reply address: error %v, %d subscriptions and %d publications", q.m, q.result.err,
			len(x.e.b.AllSubs())-subs, len(x.e.b.AllPubs())-pubs)
		return false
	}
	x.r.Observe("requests_without_reply_address", 1)
	return true
}

// answered makes a request whose replies, and what is not one, are put on the channel.
func (x *ctx) answered(t reflect.Type, q *request) bool {
	o, c, e, params := x.o, x.c, x.e, x.o.randParams(x.rng)
	published := make(chan struct{})
	var listened bool
	var channel string
	e.b.OnPublish = func(_ context.Context, ch string, _ extensions.BrokerMessage) error {
		listened, channel = x.listened(q.addr), ch
		close(published)
		return nil
	}
	defer func() { e.b.OnPublish = nil }()
	x.ask(t, q, params)
	first := make(chan struct{})
	go func() {
		defer close(first)
		select {
		case <-published:
		case <-q.done:
		}
	}()
	if !x.ended("request", first) {
		return false
	}
	select {
	case <-published:
	default:
		x.violate("request-error", "%#v: %v", q.m, q.result.err)
		return false
	}
	if !listened || channel != o.Addr(params) {
		x.violate("subscribe-first", "the request is published on %q, wants %q; there is a subscription on %q: %v", channel, o.Addr(params), q.addr, listened)
		return false
	}
	reply := c.RandMsg(x.rng, o.Reply, x.rand)
	if o.correlated() {
		id := c.getCorr(o, q.m)
		for k := x.rng.Intn(4); k > 0; k-- {
			x.noise(o.Reply, q.addr, id)
		}
		c.setCorr(o.Reply, reply, x.rand, id)
	}
	bm := c.EncodeMsg(x.rng, o.Reply, reply)
	e.b.InjectAll(q.addr, bm)
	again := c.RandMsg(x.rng, o.Reply, x.rand)
	if o.correlated() {
		c.setCorr(o.Reply, again, x.rand, c.getCorr(o, q.m))
	}
	e.b.InjectAll(q.addr, c.EncodeMsg(x.rng, o.Reply, again))
	if !x.ended("request for which the reply has been transmitted", q.done) {
		return false
	}
	return x.got(o.Reply, q, reply, fmt.Sprintf("payload %q headers %q", bm.Payload, bm.Headers))
}

// noise puts on a channel something that is not the reply to a request.
func (x *ctx) noise(reply *Op, addr, id string) {
	var bm extensions.BrokerMessage
	switch x.rng.Intn(4) {
	case 0:
		m := x.c.RandMsg(x.rng, reply, x.rand)
		x.c.setCorr(reply, m, x.rand, []string{id + "x", " " + id, "other", id[1:]}[x.rng.Intn(4)])
		bm = x.c.EncodeMsg(x.rng, reply, m)
	case 1:
		m := x.c.RandMsg(x.rng, reply, x.rand)
		x.c.dropCorr(x.rng, reply, m)
		bm = x.c.EncodeMsg(x.rng, reply, m)
	case 2:
		bm = extensions.BrokerMessage{Headers: map[string][]byte{"x": nil}, Payload: []byte(`{"`)}
	}
	x.e.b.InjectAll(addr, bm)
	x.r.Observe("noise_messages", 1)
}

// got checks the result of a request.
func (x *ctx) got(reply *Op, q *request, want Message, text string) bool {
	if q.result.err != nil {
		x.violate("request-error", "%#v, answered with %s: %v", q.m, text, q.result.err)
		return false
	}
	if d := x.c.DiffMsg(reply, want, x.c.ReadMsg(q.result.msg, reply)); d != "" {
		x.violate("wrong-reply", "%#v, answered with %s: %s", q.m, text, d)
		return false
	}
	x.r.Observe("requests_of_documents", 1)
	x.r.Eval(x.key(want))
	return true
}

// replied makes a request which is answered by the other side, with the helper.
func (x *ctx) replied(t reflect.Type, q *request) bool {
	o, c, e, params := x.o, x.c, x.e, x.o.randParams(x.rng)
	reply := c.RandMsg(x.rng, o.Reply, x.rand)
	side := other(o.Sender)
	m := e.subMethod(o)
	ft := m.Type().In(m.Type().NumIn() - 1)
	helper := e.method(side, "ReplyTo"+title(o.Name)+"Operation")
	rng := rand.New(rand.NewSource(x.rng.Int63()))
	fill := func(n *Node) any { return c.Rand(rng, n, 0) }
	var why string
	var replyErr error
	fn := reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
		fnType := helper.Type().In(helper.Type().NumIn() - 1)
		with := reflect.MakeFunc(fnType, func(a []reflect.Value) []reflect.Value {
			if o.correlated() {
				id, _ := (&ctx{c: c, o: o.Reply}).corrID(a[0])
				if id != c.getCorr(o, q.m) {
					why = fmt.Sprintf("the correlation ID of the reply is %q", id)
				}
				c.setCorr(o.Reply, reply, fill, id)
			}
			a[0].Elem().Set(c.NewMsg(a[0].Type().Elem(), o.Reply, reply))
			return nil
		})
		res := helper.Call([]reflect.Value{args[0], args[1], with})
		replyErr, _ = res[0].Interface().(error)
		return []reflect.Value{reflect.Zero(ft.Out(0))}
	})
	if err, _ := m.Call(o.args(m, params, fn))[0].Interface().(error); err != nil {
		x.violate("subscription", "subscription to %q: %v", o.Addr(params), err)
		return false
	}
	defer e.Unsubscribe(o, params)
	x.ask(t, q, params)
	if !x.ended("request that the other side answers", q.done) {
		return false
	}
	if why != "" || replyErr != nil {
		x.violate("reply-corr", "answer to %#v with %#v: %s, error %v", q.m, reply, why, replyErr)
		return false
	}
	x.r.Observe("replies_by_helper_of_documents", 1)
	return x.got(o.Reply, q, reply, fmt.Sprintf("%#v", reply))
}

// waitFor waits for messages by their correlation ID (v2).
func (x *ctx) waitFor() {
	o, c, e := x.o, x.c, x.e
	t := e.MsgType(o)
	m := e.method("User", "WaitFor"+title(o.Name))
	for i := 0; i < x.n; i++ {
		params := o.randParams(x.rng)
		q := &request{addr: o.Addr(params), m: c.RandMsg(x.rng, o, x.rand)}
		id := c.getCorr(o, q.m)
		reply := c.RandMsg(x.rng, o, x.rand)
		c.setCorr(o, reply, x.rand, id)
		bm := c.EncodeMsg(x.rng, o, reply)
		asked := reflect.New(t)
		asked.Elem().Set(c.NewMsg(t, o, q.m))
		listened := false
		publish := func(context.Context) error {
			listened = x.listened(q.addr)
			for k := x.rng.Intn(4); k > 0; k-- {
				x.noise(o, q.addr, id)
			}
			e.b.InjectAll(q.addr, bm)
			return nil
		}
		args := o.args(m, params, asked, reflect.ValueOf(publish))
		q.done = mon.Go(func() {
			res := m.Call(args)
			q.result.msg = res[0]
			q.result.err, _ = res[1].Interface().(error)
		})
		if !x.ended("wait for a message that has been transmitted", q.done) {
			return
		}
		if !listened {
			x.violate("subscribe-first", "the publication is made without any subscription on %q", q.addr)
			return
		}
		if !x.got(o, q, reply, fmt.Sprintf("payload %q headers %q", bm.Payload, bm.Headers)) {
			return
		}
	}
}
