package main

import (
	"fmt"

	"stompmc/mc"
)

// ---------------------------------------------------------------- quantity

// bulkFn: much of one thing, for limits and counters that small histories do
// not reach.
func bulkFn(deep int) {
	n := 300 + 800*deep
	k := mc.Choose(len(bulks))
	v := newSrv()
	bulks[k].do(v, n)
	if bulks[k].name != "a long queue stays" {
		v.idle("done")
	}
	v.finish("/queue/a", "/queue/b")
	mc.Outcome(bulks[k].name)
}

var bulks = []struct {
	name string
	do   func(v *srv, n int)
}{
	{"a long queue", func(v *srv, n int) {
		n *= 4
		c := v.clients("1.2", "1.1")
		for i := 0; i < n; i++ {
			c[0].send(v.msg(qa))
		}
		v.idle("sent")
		c[1].send(fr("SUBSCRIBE", "id", "s", "destination", qa))
		v.idle("read")
	}},
	{"a long queue stays", func(v *srv, n int) {
		n *= 4
		c := v.clients("1.2")
		for i := 0; i < n; i++ {
			c[0].send(v.msg(qa))
		}
	}},
	{"many messages one by one", func(v *srv, n int) {
		c := v.clients("1.2", "1.1")
		c[1].send(fr("SUBSCRIBE", "id", "s", "destination", qa))
		for i := 0; i < n; i++ {
			c[0].send(v.msg(qa))
			v.idle("sent")
		}
	}},
	{"many acknowledgements", func(v *srv, n int) {
		c := v.clients("1.2", "1.1")
		c[1].send(fr("SUBSCRIBE", "id", "s", "destination", qa, "ack", "client"), fr("SUBSCRIBE", "id", "i", "destination", "/queue/b", "ack", "client-individual"))
		for i := 0; i < n; i++ {
			c[0].send(v.msg([]string{qa, "/queue/b"}[i%2]))
		}
		v.idle("sent")
		for i := 0; i < n+20; i++ {
			if j := len(c[1].got) - 1 - i%2; j >= 0 {
				c[1].send(c[1].ackFrame([]string{"ACK", "ACK", "NACK"}[i%3], c[1].got[j]))
				v.idle("acknowledged")
			}
		}
	}},
	{"rejected again and again", func(v *srv, n int) {
		c := v.clients("1.2", "1.1")
		c[1].send(fr("SUBSCRIBE", "id", "s", "destination", qa, "ack", "client"))
		c[0].send(v.msg(qa), v.msg(qa))
		v.idle("sent")
		for i := 0; i < n; i++ {
			c[1].send(c[1].ackFrame("NACK", c[1].got[len(c[1].got)-1]))
			v.idle("rejected")
		}
	}},
	{"a busy topic", func(v *srv, n int) {
		c := v.clients("1.2", "1.1", "1.2")
		c[1].send(fr("SUBSCRIBE", "id", "s", "destination", ta), fr("SUBSCRIBE", "id", "u", "destination", ta, "ack", "client"))
		c[2].send(fr("SUBSCRIBE", "id", "s", "destination", ta))
		v.idle("subscribed")
		for i := 0; i < n; i++ {
			c[0].send(v.msg(ta))
			if i%3 == 0 {
				v.idle("sent")
			}
		}
	}},
	{"a topic with many subscriptions", func(v *srv, n int) {
		c := v.clients("1.2", "1.1", "1.2")
		n = min(n, 40)
		for i := 0; i < n; i++ {
			c[1+i%2].send(fr("SUBSCRIBE", "id", fmt.Sprint(i), "destination", ta))
		}
		v.idle("subscribed")
		c[0].send(v.msg(ta))
		v.idle("sent")
		for i := 0; i < n; i += 3 {
			c[1+i%2].send(fr("UNSUBSCRIBE", "id", fmt.Sprint(i)))
			v.idle("unsubscribed")
		}
		v.idle("unsubscribed")
		c[0].send(v.msg(ta))
	}},
	{"a long transaction", func(v *srv, n int) {
		c := v.clients("1.2", "1.1")
		c[0].send(fr("BEGIN", "transaction", "t"))
		for i := 0; i < n; i++ {
			c[0].send(v.msg(qa, "transaction", "t"))
		}
		v.idle("sent")
		c[0].send(fr("COMMIT", "transaction", "t", "receipt", "r"))
		v.idle("committed")
		c[1].send(fr("SUBSCRIBE", "id", "s", "destination", qa))
	}},
	{"many transactions", func(v *srv, n int) {
		c := v.clients("1.2", "1.1")
		c[1].send(fr("SUBSCRIBE", "id", "s", "destination", qa))
		for i := 0; i < n; i++ {
			t := fmt.Sprint("t", i)
			c[0].send(fr("BEGIN", "transaction", t), v.msg(qa, "transaction", t))
		}
		v.idle("sent")
		for i := n - 1; i >= 0; i-- {
			c[0].send(fr([]string{"COMMIT", "COMMIT", "ABORT"}[i%3], "transaction", fmt.Sprint("t", i), "receipt", fmt.Sprint("r", i)))
		}
	}},
	{"many outstanding", func(v *srv, n int) {
		c := v.clients("1.2", "1.1")
		n = 12 + 4*(n/1000)
		for i := 0; i < n; i++ {
			c[1].send(fr("SUBSCRIBE", "id", fmt.Sprint(i), "destination", qa, "ack", []string{"client", "client", "client-individual"}[i%3]))
			v.idle("subscribed")
		}
		for i := 0; i < n; i++ {
			c[0].send(v.msg(qa))
			v.idle("sent")
		}
		// a message before the tenth and one behind it, and all but two of
		// the others
		done := map[int]bool{0: true, 1: true}
		for _, i := range []int{2, 8, 9, 3, 10} {
			done[i] = true
			c[1].send(c[1].ackFrame("ACK", c[1].got[i]))
			v.idle("acknowledged")
		}
		done[11] = true
		c[1].send(c[1].ackFrame("NACK", c[1].got[11]))
		v.idle("rejected")
		for i := 0; i < len(c[1].got); i++ {
			if !done[i] {
				c[1].send(c[1].ackFrame("ACK", c[1].got[i]))
				v.idle("acknowledged")
			}
		}
		for i := 2; i < n; i++ {
			c[1].send(fr("UNSUBSCRIBE", "id", fmt.Sprint(i)))
			v.idle("unsubscribed")
		}
	}},
	{"many outstanding at the end", func(v *srv, n int) {
		c := v.taker("1.2")
		d := v.taker("1.1")
		var fs []*F
		for i := 0; i < n; i++ {
			fs = append(fs, fr("SUBSCRIBE", "id", fmt.Sprint("s", i), "destination", fmt.Sprint("/queue/o", i), "ack", []string{"client", "client-individual"}[i%2]))
		}
		c.put(fs...)
		fs = nil
		for i := 0; i < 2*n; i++ {
			fs = append(fs, fr("SEND", "destination", fmt.Sprint("/queue/o", i%n), "n", fmt.Sprint(i)))
		}
		d.put(fs...)
		if len(c.now) != n {
			viol("S02,S04", "%d subscriptions got %d messages", n, len(c.now))
		}
		c.e.Do(func() { c.e.InjectEOF(nil) })
		mc.Quiet()
		if !c.e.Closed() {
			viol("S14", "the connection has not been closed at its end")
		}
		for i := 0; i < n; i++ {
			q := fmt.Sprint("/queue/o", i)
			d.put(fr("SUBSCRIBE", "id", q, "destination", q))
			for j, want := range []int{i, i + n} {
				if len(d.now) != 2 || d.now[j].Get("n") != fmt.Sprint(want) {
					viol("S02,S03,S04,S14", "after a client with %d unacknowledged messages has left, %s has %v", n, q, d.now)
				}
			}
		}
	}},
	{"many connections", func(v *srv, n int) {
		o := v.clients("1.2")[0]
		n = min(n, 400)
		for i := 0; i < n; i++ {
			c := v.clients("1.2")[0]
			c.send(fr("SUBSCRIBE", "id", "1", "destination", qa, "ack", "client"))
			o.send(v.msg("/queue/b"))
			switch i % 4 {
			case 0:
				c.cut()
			case 1:
				c.send(fr("DISCONNECT", "receipt", "r"))
				c.eof()
			case 2:
				c.send(fr("COMMIT", "transaction", "none"))
			case 3:
				c.eof()
			}
			v.idle("ended")
		}
		o.send(v.msg(qa))
	}},
	{"many connections at once", func(v *srv, n int) {
		for i := 0; i < n; i++ {
			v.clients("1.2")[0].send(fr("SUBSCRIBE", "id", "1", "destination", ta))
		}
		v.idle("subscribed")
		v.cl[0].send(v.msg(ta), v.msg(qa))
	}},
	{"many receipts", func(v *srv, n int) {
		c := v.clients("1.2")
		for i := 0; i < n; i++ {
			c[0].send(v.msg("/topic/none", "receipt", fmt.Sprint("r", i)))
		}
	}},
	{"the same subscription again and again", func(v *srv, n int) {
		c := v.clients("1.2", "1.1")
		for i := 0; i < n; i++ {
			c[1].send(fr("SUBSCRIBE", "id", "s", "destination", []string{qa, ta}[i%2], "ack", []string{"client", "auto", "client-individual"}[i%3], "receipt", fmt.Sprint("r", i)))
			c[0].send(v.msg(qa), v.msg(ta))
			v.idle("sent")
			c[1].send(fr("UNSUBSCRIBE", "id", "s"))
			v.idle("unsubscribed")
		}
	}},
	{"many destinations", func(v *srv, n int) {
		c := v.clients("1.2", "1.1")
		for i := 0; i < n; i++ {
			c[0].send(v.msg(fmt.Sprint("/queue/", i)))
		}
		for i := 0; i < n; i++ {
			c[1].send(fr("SUBSCRIBE", "id", fmt.Sprint(i), "destination", fmt.Sprint("/queue/", i)))
			v.idle("subscribed")
		}
	}},
	{"many header entries", func(v *srv, n int) {
		c := v.clients("1.2", "1.1")
		c[1].send(fr("SUBSCRIBE", "id", "s", "destination", qa))
		f := v.msg(qa)
		for i := 0; i < n; i++ {
			f.H = append(f.H, [2]string{fmt.Sprint("k", i%(n-7)), fmt.Sprint("v", i)})
		}
		c[0].send(f)
	}},
	{"long entries and bodies", func(v *srv, n int) {
		c := v.clients("1.2", "1.1")
		c[1].send(fr("SUBSCRIBE", "id", "s", "destination", qa), fr("SUBSCRIBE", "id", "t", "destination", ta))
		for _, l := range []int{1000, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 200000} {
			long := make([]byte, l)
			for i := range long {
				long[i] = 'a' + byte(i*7%26)
			}
			f := v.msg([]string{qa, ta}[l%2], string(long), "x", "y", string(long))
			f.Body = append(f.Body, long...)
			c[0].send(f)
			v.idle("sent")
		}
	}},
}

func init() {
	scen(&Scenario{Name: "s-bulk", Props: []string{"S02", "S03", "S04", "S05", "S06", "S07", "S08", "S09", "S14"},
		What:  "many messages, acknowledgements, subscriptions, transactions, connections, receipts or entries",
		Quick: []Bound{{Delay: true, Shards: 16, Steps: 3000000}}, Thorough: []Bound{{Delay: true, Deep: 1, Shards: 16, Steps: 20000000}},
		Fn: bulkFn})
}

// taker is a client of the server outside the specification that keeps what
// it received last.
type taker struct {
	*scli
	ver string
	now []*F
	ids map[string]bool
}

func (v *srv) taker(ver string) *taker {
	t := &taker{scli: v.stranger(), ver: ver, ids: map[string]bool{}}
	t.scli.ver = ver
	t.e.React = func(p []byte) {
		for _, f := range t.dec.Feed(p) {
			if f == nil {
				continue
			}
			if f.Cmd == "MESSAGE" {
				for _, k := range []string{"message-id", "ack"} {
					id, ok := f.Has(k)
					if ok && t.ids[k+id] {
						viol("S09,S04", "%s %q is used twice on a connection, the second time after %d", k, id, len(t.ids))
					}
					t.ids[k+id] = true
				}
			}
			t.now = append(t.now, f)
		}
		if t.dec.err != nil {
			viol("S08,S09,F04", "the server wrote something that is not a frame: %v", t.dec.err)
		}
	}
	t.put(fr("CONNECT", "accept-version", ver))
	if len(t.now) != 1 || t.now[0].Cmd != "CONNECTED" {
		viol("S01,S08", "cannot connect: %v", t.now)
	}
	return t
}

// put sends frames and waits; now is what came of it.
func (t *taker) put(fs ...*F) {
	t.now = nil
	t.e.Do(func() { t.e.Inject(encAll(fs...)) })
	mc.Quiet()
}

// manyFn: so much of one thing that a counter of 16 bits starts again.
func manyFn(deep int) {
	const batch = 50
	kind := mc.Choose(8)
	n := []int{70000, 70000, 70000, 20000, 20000, 2000, 20000, 20000}[kind] << uint(deep)
	v := newSrv()
	a, b := v.taker("1.2"), v.taker([]string{"1.2", "1.1"}[kind%2])
	expect := func(what string, tags string, i int, f *F, cmd string, kv ...string) {
		ok := f != nil && f.Cmd == cmd
		for j := 0; ok && j < len(kv); j += 2 {
			ok = f.Get(kv[j]) == kv[j+1]
		}
		if !ok {
			viol(tags, "%s %d: got %v instead of %s %q", what, i, f, cmd, kv)
		}
	}
	at := func(l []*F, i int) *F {
		if i < len(l) {
			return l[i]
		}
		return nil
	}
	switch kind {
	case 0, 1, 2:
		ack := []string{"auto", "client-individual", "client"}[kind]
		dest := []string{qa, qa, qa}[kind]
		b.put(fr("SUBSCRIBE", "id", "s", "destination", dest, "ack", ack))
		for i := 0; i < n; i += batch {
			b.now = nil
			var fs []*F
			for j := 0; j < batch; j++ {
				fs = append(fs, fr("SEND", "destination", dest, "n", fmt.Sprint(i+j)))
			}
			a.put(fs...)
			for j := 0; j < batch; j++ {
				k := j
				if kind > 0 {
					k = 0 // one at a time
				}
				f := at(b.now, k)
				expect("message", "S02,S03,S04", i+j, f, "MESSAGE", "n", fmt.Sprint(i+j))
				if kind > 0 {
					if len(b.now) > 1 {
						viol("S04", "%v before the acknowledgement of %v", b.now[1:], f)
					}
					b.put(b.ackFrame("ACK", f))
				}
			}
			if kind == 0 && len(b.now) != batch || kind > 0 && len(b.now) != 0 {
				viol("S02,S04", "after message %d: %v", i+batch-1, b.now)
			}
		}
		if kind > 0 {
			// the last acknowledgements have been counted, too
			b.put(fr("UNSUBSCRIBE", "id", "s", "receipt", "r"))
			c := v.taker("1.2")
			c.put(fr("SUBSCRIBE", "id", "s", "destination", dest, "receipt", "r"))
			if len(c.now) != 1 {
				viol("S04,S02", "an acknowledged message was delivered again: %v", c.now)
			}
		}
	case 3:
		// receipts
		for i := 0; i < n; i += batch {
			var fs []*F
			for j := 0; j < batch; j++ {
				fs = append(fs, fr("SEND", "destination", "/topic/none", "receipt", fmt.Sprint(i+j)))
			}
			a.put(fs...)
			for j := 0; j < batch; j++ {
				expect("receipt", "S07", i+j, at(a.now, j), "RECEIPT", "receipt-id", fmt.Sprint(i+j))
			}
		}
	case 4:
		// transactions
		b.put(fr("SUBSCRIBE", "id", "s", "destination", qa))
		for i := 0; i < n; i++ {
			t := fmt.Sprint(i)
			b.now = nil
			a.put(fr("BEGIN", "transaction", t), fr("SEND", "destination", qa, "transaction", t, "n", t), fr([]string{"COMMIT", "ABORT"}[i%2], "transaction", t))
			if len(b.now) != 1-i%2 {
				viol("S06", "transaction %d brought %v", i, b.now)
			}
			if i%2 == 0 {
				expect("message of transaction", "S06", i, b.now[0], "MESSAGE", "n", t)
			}
		}
	case 6, 7:
		// two subscriptions that hold one message after the other, at every
		// two neighbouring numbers
		mode := []string{"client", "client-individual"}[kind-6]
		qs := map[string]string{"s": qa, "u": "/queue/b"}
		b.put(fr("SUBSCRIBE", "id", "s", "destination", qa, "ack", mode), fr("SUBSCRIBE", "id", "u", "destination", "/queue/b", "ack", mode))
		a.put(fr("SEND", "destination", qa, "n", "0"))
		a.put(fr("SEND", "destination", "/queue/b", "n", "1"))
		if len(b.now) != 2 {
			viol("S04,S02", "two subscriptions that hold nothing got %v", b.now)
		}
		held := [2]*F{b.now[0], b.now[1]}
		for i := 0; i < n; i++ {
			// one of the two is done with, and is followed by the next
			k := 0 // the older
			if kind == 7 {
				k = i / 3 % 2
			}
			f, other := held[k], held[1-k]
			cmd, next := "ACK", fmt.Sprint(i+2)
			b.now = nil
			if i%7 == 6 {
				cmd, next = "NACK", f.Get("n")
			} else {
				a.put(fr("SEND", "destination", qs[f.Get("subscription")], "n", next))
			}
			if len(b.now) != 0 {
				viol("S04", "%v while %v and %v are outstanding", b.now, f, other)
			}
			b.put(b.ackFrame(cmd, f))
			if len(b.now) != 1 {
				viol("S04", "%s of %v while %v is outstanding: got %v", cmd, f, other, b.now)
			}
			expect("after "+cmd, "S04,S02", i, b.now[0], "MESSAGE", "subscription", f.Get("subscription"), "n", next)
			held = [2]*F{other, b.now[0]}
		}
	case 5:
		// connections; each takes one message that the next one gets again
		a.put(fr("SEND", "destination", qa, "n", "1"))
		for i := 0; i < n; i++ {
			c := v.taker("1.2")
			c.put(fr("SUBSCRIBE", "id", "s", "destination", qa, "ack", "client"))
			if len(c.now) != 1 {
				viol("S04,S08", "connection %d got %v instead of one message", i, c.now)
			}
			expect("connection", "S04,S08", i, c.now[0], "MESSAGE", "n", "1")
			c.e.Do(func() { c.e.InjectEOF(nil) })
			mc.Quiet()
			if !c.e.Closed() {
				viol("S14", "connection %d is not closed at its end", i)
			}
		}
		if l := mc.Blocked(); len(l) > 8 {
			viol("S14", "%d goroutines after %d connections: %v", len(l), n, l[:8])
		}
	}
	v.alive("S08")
	mc.Outcome(fmt.Sprint(kind, " ", n))
}

func init() {
	scen(&Scenario{Name: "s-many", Props: []string{"S02", "S03", "S04", "S06", "S07", "S09", "S14"},
		What:  "more messages, acknowledgements, receipts, transactions or connections than a small counter can tell apart",
		Quick: []Bound{{Delay: true, Shards: 8, Steps: 30000000}}, Thorough: []Bound{{Delay: true, Deep: 2, Shards: 8, Steps: 300000000}},
		Fn: manyFn})
}
