package main

import (
	"fmt"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp/frame"
	"stompmc/stomp/server"
)

// ---------------------------------------------------------------- S07

// afterFn: the moment a client sees a receipt (or a message), another one
// does something that shows whether the frame has taken effect.
func afterFn(deep int) {
	kinds := []struct {
		name    string
		prepare func(v *srv, a, b *scli)
		frames  func(v *srv, a *scli) []*F // the last one has the receipt r
		probes  string
	}{
		{"SUBSCRIBE topic", nil, func(v *srv, a *scli) []*F {
			return []*F{fr("SUBSCRIBE", "id", "s", "destination", ta, "receipt", "r")}
		}, "tT"},
		{"SUBSCRIBE queue", nil, func(v *srv, a *scli) []*F {
			return []*F{fr("SUBSCRIBE", "id", "s", "destination", qa, "receipt", "r")}
		}, "qsg"},
		{"SUBSCRIBE queue client", func(v *srv, a, b *scli) { b.send(v.msg(qa)) }, func(v *srv, a *scli) []*F {
			return []*F{fr("SUBSCRIBE", "id", "s", "destination", qa, "ack", "client", "receipt", "r")}
		}, "qsg"},
		{"UNSUBSCRIBE topic", func(v *srv, a, b *scli) { a.send(fr("SUBSCRIBE", "id", "s", "destination", ta)) }, func(v *srv, a *scli) []*F {
			return []*F{fr("UNSUBSCRIBE", "id", "s", "receipt", "r")}
		}, "tT"},
		{"UNSUBSCRIBE queue", func(v *srv, a, b *scli) { a.send(fr("SUBSCRIBE", "id", "s", "destination", qa)) }, func(v *srv, a *scli) []*F {
			return []*F{fr("UNSUBSCRIBE", "id", "s", "receipt", "r")}
		}, "qsg"},
		{"UNSUBSCRIBE queue holding", func(v *srv, a, b *scli) {
			a.send(fr("SUBSCRIBE", "id", "s", "destination", qa, "ack", "client"))
			b.send(v.msg(qa))
		}, func(v *srv, a *scli) []*F {
			return []*F{fr("UNSUBSCRIBE", "id", "s", "receipt", "r")}
		}, "qsg"},
		{"SEND topic", nil, func(v *srv, a *scli) []*F { return []*F{v.msg(ta, "receipt", "r")} }, "Sg"},
		{"SEND queue", nil, func(v *srv, a *scli) []*F { return []*F{v.msg(qa, "receipt", "r")} }, "qsg"},
		{"COMMIT", nil, func(v *srv, a *scli) []*F {
			return []*F{fr("BEGIN", "transaction", "t"), v.msg(qa, "transaction", "t"), v.msg(ta, "transaction", "t"), v.msg(qa, "transaction", "t"), fr("COMMIT", "transaction", "t", "receipt", "r")}
		}, "qsgS"},
		{"ABORT", nil, func(v *srv, a *scli) []*F {
			return []*F{fr("BEGIN", "transaction", "t"), v.msg(qa, "transaction", "t"), fr("ABORT", "transaction", "t", "receipt", "r")}
		}, "qsS"},
		{"SEND in transaction", nil, func(v *srv, a *scli) []*F {
			return []*F{fr("BEGIN", "transaction", "t"), v.msg(qa, "transaction", "t", "receipt", "r")}
		}, "qsg"},
		{"ACK", hold, func(v *srv, a *scli) []*F { return []*F{a.ackFrame("ACK", a.got[0], "receipt", "r")} }, "qsg"},
		{"NACK", hold, func(v *srv, a *scli) []*F { return []*F{a.ackFrame("NACK", a.got[0], "receipt", "r")} }, "qsg"},
		{"ACK in transaction", hold, func(v *srv, a *scli) []*F {
			return []*F{fr("BEGIN", "transaction", "t"), a.ackFrame("ACK", a.got[0], "transaction", "t"), fr("COMMIT", "transaction", "t", "receipt", "r")}
		}, "qsg"},
		{"NACK in transaction", hold, func(v *srv, a *scli) []*F {
			return []*F{fr("BEGIN", "transaction", "t"), a.ackFrame("NACK", a.got[0], "transaction", "t"), fr("COMMIT", "transaction", "t", "receipt", "r")}
		}, "qsg"},
		{"DISCONNECT", hold, func(v *srv, a *scli) []*F { return []*F{fr("DISCONNECT", "receipt", "r")} }, "qs"},
	}
	k := kinds[mc.Choose(len(kinds))]
	probe := k.probes[mc.Choose(len(k.probes))]
	ver := []string{"1.2", "1.1"}[mc.Choose(2)]
	v := newSrv()
	v.b.extra = "S07"
	cl := v.clients(ver, "1.2")
	a, b := cl[0], cl[1]
	if k.prepare != nil {
		k.prepare(v, a, b)
		v.idle("prepared")
	}
	fired := false
	a.on = func(_ *scli, f *F) {
		if f.Cmd != "RECEIPT" || f.Get("receipt-id") != "r" {
			return
		}
		fired = true
		mc.Trace("-- the receipt is seen")
		switch probe {
		case 't':
			b.inject(v.msg(ta))
		case 'T':
			b.inject(fr("BEGIN", "transaction", "x"), v.msg(ta, "transaction", "x"), fr("COMMIT", "transaction", "x"))
		case 'q':
			b.inject(v.msg(qa, "receipt", "b"))
		case 's':
			b.inject(fr("SUBSCRIBE", "id", "p", "destination", qa, "ack", "client", "receipt", "b"))
		case 'S':
			b.inject(fr("SUBSCRIBE", "id", "p", "destination", ta, "receipt", "b"))
		case 'g':
			a.cutNow()
		}
	}
	mc.Trace("-- %s, then %c", k.name, probe)
	a.send(k.frames(v, a)...)
	v.idle("done")
	if !fired {
		v.b.fail("S07", "%s: no receipt", k.name)
	}
	a.on = nil
	b.send(v.msg(ta), v.msg(qa))
	v.idle("another message each")
	v.finish(qa)
	mc.Outcome(fmt.Sprintf("%s %c", k.name, probe))
}

func hold(v *srv, a, b *scli) {
	a.send(fr("SUBSCRIBE", "id", "s", "destination", qa, "ack", "client-individual"))
	b.send(v.msg(qa), v.msg(qa))
}

// ---------------------------------------------------------------- S04

// resubFn: a message is still held of a subscription that has ended when its
// id is in use again.
func resubFn(deep int) {
	names := []string{"unsubscribe", "unsubscribe, subscribe", "gone", "ack", "nack", "ack unsubscribe", "unsubscribe ack", "nack gone", "disconnect", "unsubscribe nack"}
	k := mc.Choose(len(names))
	modes := []string{"client", "client-individual", "auto"}
	mode1, mode2 := modes[mc.Choose(2)], modes[mc.Choose(3)]
	p := mc.Choose(3)
	third := mc.Choose(2)
	v := newSrv()
	w := &sworld{v: v, rcpt: k%2 == 0}
	cl := v.clients("1.1", "1.2", "1.2")
	a, c, o := cl[0], cl[1], cl[2]
	c.send(qsub(w, "s", mode1))
	v.idle("subscribed")
	a.send(v.msg(qa))
	v.idle("held")
	c.send(fr("UNSUBSCRIBE", w.r("id", "s")...))
	if third == 1 {
		// another subscription holds one as well
		c.send(qsub(w, "s", "client"))
		v.idle("again")
		a.send(v.msg(qa))
		v.idle("held again")
		c.send(fr("UNSUBSCRIBE", w.r("id", "s")...))
	}
	c.send(qsub(w, "s", mode2))
	v.idle("subscribed again")
	held := c.got[0]
	mc.Trace("-- %s", names[k])
	var g group
	g.Go("producer", func() {
		switch p {
		case 0:
			a.send(v.msg(qa, w.r()...))
		case 1:
			a.send(v.msg(qa, w.r()...), v.msg(qa, w.r()...))
		case 2:
			o.send(qsub(w, "o", "client"))
		}
	})
	g.Go("consumer", func() {
		ack := func(cmd string) *F { return c.ackFrame(cmd, held, w.r()...) }
		unsub := func() *F { return fr("UNSUBSCRIBE", w.r("id", "s")...) }
		switch names[k] {
		case "unsubscribe":
			c.send(unsub())
		case "unsubscribe, subscribe":
			c.send(unsub(), qsub(w, "s", mode1))
		case "gone":
			c.cut()
		case "ack":
			c.send(ack("ACK"))
		case "nack":
			c.send(ack("NACK"))
		case "ack unsubscribe":
			c.send(ack("ACK"), unsub())
		case "unsubscribe ack":
			c.send(unsub(), ack("ACK"))
		case "nack gone":
			c.send(ack("NACK"))
			c.cut()
		case "disconnect":
			c.send(fr("DISCONNECT", w.r()...))
			c.eof()
		case "unsubscribe nack":
			c.send(unsub(), ack("NACK"))
		}
	})
	g.Wait()
	v.idle("in the end")
	v.finish(qa)
	mc.Outcome(names[k] + " " + mode1 + " " + mode2)
}

// ackHdrFn: acknowledgements with entries that mean something in the other
// version, or elsewhere.
func ackHdrFn(deep int) {
	ver := []string{"1.1", "1.2"}[mc.Choose(2)]
	cmd := []string{"ACK", "NACK"}[mc.Choose(2)]
	modes := mc.Choose(8)
	target := mc.Choose(3)
	tx := mc.Choose(2) == 1
	key := []string{"id", "message-id", "subscription", "destination", "receipt-id", "content-length"}[mc.Choose(6)]
	which := mc.Choose(3) // of which message
	place := mc.Choose(2)
	v := newSrv()
	cl := v.clients("1.1", ver)
	a, c := cl[0], cl[1]
	for i := 0; i < 3; i++ {
		c.send(fr("SUBSCRIBE", "id", fmt.Sprint(i), "destination", fmt.Sprint("/queue/", i), "ack", []string{"client", "client-individual"}[modes>>i&1]))
	}
	v.idle("subscribed")
	for i := 0; i < 3; i++ {
		a.send(v.msg(fmt.Sprint("/queue/", i)))
		v.idle("held")
	}
	f := c.ackFrame(cmd, c.got[target])
	m := c.got[which]
	val := map[string]string{"id": m.Get("ack"), "message-id": m.Get("message-id"), "subscription": m.Get("subscription"), "destination": m.Get("destination"), "receipt-id": "x", "content-length": "0"}[key]
	if ver == "1.1" && key == "id" {
		val = m.Get("message-id")
	}
	if _, ok := f.Has(key); ok && place == 0 && key != "subscription" {
		return // it would come first and so count
	}
	e := [2]string{key, val}
	if place == 0 {
		f.H = append([][2]string{e}, f.H...)
	} else {
		f.H = append(f.H, e)
	}
	if tx {
		f.H = append(f.H, [2]string{"transaction", "t"})
		c.send(fr("BEGIN", "transaction", "t"), f, fr("COMMIT", "transaction", "t"))
	} else {
		c.send(f)
	}
	v.idle("acknowledged")
	for i := 0; i < 3; i++ {
		a.send(v.msg(fmt.Sprint("/queue/", i)))
	}
	v.idle("more messages")
	v.finish("/queue/0", "/queue/1", "/queue/2")
	mc.Outcome(ver + " " + cmd + " " + key)
}

// ---------------------------------------------------------------- S05

// slowFn: a client stops reading while very many messages are sent to it.
func slowFn(deep int) {
	const batch = 500
	n := []int{15, 17, 1000, 30000, 65000, 70000}[mc.Choose(6)]
	v := newSrv()
	a, c, w := v.taker("1.2"), v.taker("1.2"), v.taker("1.1")
	c.put(fr("SUBSCRIBE", "id", "s", "destination", ta))
	w.put(fr("SUBSCRIBE", "id", "w", "destination", ta, "ack", "client"))
	c.far.SetLimit(len(c.e.Writes()))
	seen := 0
	for i := 0; i < n; {
		w.now = nil
		var fs []*F
		for j := 0; j < batch && i < n; j++ {
			fs = append(fs, fr("SEND", "destination", ta, "n", fmt.Sprint(i)))
			i++
		}
		a.put(fs...)
		for _, f := range w.now {
			if f.Cmd != "MESSAGE" || f.Get("n") != fmt.Sprint(seen) {
				viol("S05,S08", "another subscriber gets %v instead of message %d", f, seen)
			}
			seen++
		}
		if seen != i {
			viol("S05,S08", "another subscriber has got %d of %d messages", seen, i)
		}
	}
	closed := c.e.Closed()
	if n <= 65000 && closed {
		viol("S05", "a client that has not read %d messages yet is disconnected", n)
	}
	if n >= 70000 && !closed {
		viol("S08", "%d messages wait for a client that does not read", n)
	}
	c.now = nil
	c.e.Do(func() { c.far.SetLimit(0) })
	mc.Quiet()
	for i, f := range c.now {
		if f.Cmd != "MESSAGE" || f.Get("n") != fmt.Sprint(i) {
			viol("S05", "a client that reads again gets %v instead of message %d of %d", f, i, n)
		}
	}
	if !closed && len(c.now) != n {
		viol("S05", "a client that reads again gets %d of %d messages", len(c.now), n)
	}
	v.alive("S08")
	mc.Outcome(fmt.Sprint(n, closed))
}

// ---------------------------------------------------------------- S13

// startFn: a storage that takes its time to start.
func startFn(deep int) {
	slow := []time.Duration{0, time.Millisecond, time.Minute}[mc.Choose(3)]
	what := mc.Choose(4)
	sp := &spy{q: map[string][]*frame.Frame{}}
	sp.slow = slow
	v := newSrv(func(s *server.Server) { s.QueueStorage = sp })
	v.b.extra = "S13"
	cl := []*scli{v.client().connect("1.2"), v.client().connect("1.1")}
	var g group
	g.Go("a", func() {
		switch what {
		case 0:
			cl[0].send(v.msg(qa, "receipt", "1"), v.msg(qb, "receipt", "2"))
		case 1:
			cl[0].send(fr("SUBSCRIBE", "id", "s", "destination", qa))
		case 2:
			cl[0].send(fr("SUBSCRIBE", "id", "s", "destination", qa, "ack", "client"), v.msg(qa))
		case 3:
			cl[0].send(v.msg(qa), v.msg(qb))
			cl[0].eof()
		}
	})
	g.Go("b", func() {
		cl[1].send(v.msg(qa))
	})
	g.Wait()
	mc.Quiet()
	mc.Sleep(slow + time.Second)
	v.idle("started")
	if sp.started != 1 {
		viol("S13", "Start has been called %d times", sp.started)
	}
	v.finish(qa, qb)
	mc.Outcome(fmt.Sprint(what, slow))
}

func init() {
	scen(&Scenario{Name: "s-after", Props: []string{"S02", "S04", "S05", "S06", "S07"},
		What:  "another client acts at the very moment a receipt is seen",
		Quick: []Bound{{Delay: true, PB: 1, Shards: 16}}, Thorough: []Bound{{Delay: true, PB: 2, Shards: 88}, {PB: 1, Shards: 88}},
		Fn: afterFn})
	scen(&Scenario{Name: "s-resub", Props: []string{"S02", "S04"},
		What:  "a message of an earlier subscription of the same id is held",
		Quick: []Bound{{Delay: true, PB: 1, Shards: 32}}, Thorough: []Bound{{Delay: true, PB: 2, Shards: 360}, {PB: 1, Shards: 360}},
		Fn: resubFn})
	scen(&Scenario{Name: "s-ackhdr", Props: []string{"S04", "S11"},
		What:  "acknowledgements with entries of another meaning",
		Quick: []Bound{{Delay: true, Shards: 16}}, Thorough: []Bound{{Delay: true, PB: 1, Shards: 64}},
		Fn: ackHdrFn})
	scen(&Scenario{Name: "s-slow", Props: []string{"S05", "S08"},
		What:  "very many messages for a client that does not read",
		Quick: []Bound{{Delay: true, Shards: 6, Steps: 30000000}}, Thorough: []Bound{{Delay: true, Shards: 6, Steps: 30000000}},
		Fn: slowFn})
	scen(&Scenario{Name: "s-start", Props: []string{"S13"},
		What:  "a queue storage that takes its time to start",
		Quick: []Bound{{Delay: true, PB: 1, Shards: 12}}, Thorough: []Bound{{Delay: true, PB: 3, Shards: 12}, {PB: 2, Shards: 12}},
		Fn: startFn})
}
