package main

import (
	"fmt"

	"stompmc/mc"
	"stompmc/stomp"
)

// ---------------------------------------------------------------- the same again

// sameFn: frames that are equal are as many as there are.
func sameFn(deep int) {
	n := 3 + deep
	dest := []string{qa, ta}[mc.Choose(2)]
	ack := []string{"auto", "client", "client-individual"}[mc.Choose(3)]
	late := mc.Choose(2) // subscribes when the messages have been sent
	text := []string{"same", ""}[mc.Choose(2)]
	tx := mc.Choose(3) // none, one transaction for all, one for each
	rcpt := []string{"-", "r", ""}[mc.Choose(3)]
	two := mc.Choose(2) // senders, subscriptions
	spied = mc.Choose(2) == 1
	v := newSrv()
	rs := []*taker{v.taker("1.2")}
	ss := []*taker{v.taker("1.1")}
	if two == 1 {
		rs, ss = append(rs, v.taker("1.1")), append(ss, v.taker("1.2"))
	}
	sub := func() {
		for _, r := range rs {
			r.put(fr("SUBSCRIBE", "id", "s", "destination", dest, "ack", ack))
		}
	}
	if late == 0 {
		sub()
	}
	got := map[*taker][]*F{}
	receipts := 0
	ask := func(f *F) *F {
		if rcpt != "-" {
			f.H = append(f.H, [2]string{"receipt", rcpt})
			receipts++
		}
		return f
	}
	for i := 0; i < n; i++ {
		s := ss[i%len(ss)]
		for _, r := range rs {
			r.now = nil
		}
		receipts = 0
		var fs []*F
		f := fr("SEND", "destination", dest, "x", "y")
		f.Body = []byte(text)
		if tx > 0 {
			if tx == 2 || i < len(ss) {
				fs = append(fs, ask(fr("BEGIN", "transaction", "t")))
			}
			f.H = append(f.H, [2]string{"transaction", "t"})
		}
		fs = append(fs, ask(f))
		if tx == 2 || tx == 1 && i >= n-len(ss) {
			fs = append(fs, ask(fr("COMMIT", "transaction", "t")))
		}
		s.put(fs...)
		for _, r := range s.now {
			if r.Cmd != "RECEIPT" || r.Get("receipt-id") != rcpt {
				viol("S06,S07,S02", "%v in answer to %v", r, fs)
			}
		}
		if len(s.now) != receipts {
			viol("S07", "%d receipts instead of %d: %v", len(s.now), receipts, fs)
		}
		for _, r := range rs {
			got[r] = append(got[r], r.now...)
		}
	}
	if late == 1 {
		for _, r := range rs {
			r.put(fr("SUBSCRIBE", "id", "s", "destination", dest, "ack", ack))
			got[r] = append(got[r], r.now...)
		}
	}
	// everything is acknowledged
	for again := true; again && dest == qa && ack != "auto"; {
		again = false
		for _, r := range rs {
			if k := len(got[r]); k > 0 && !r.ids["done"+got[r][k-1].Get("message-id")] {
				again = true
				r.ids["done"+got[r][k-1].Get("message-id")] = true
				for _, q := range rs {
					q.now = nil
				}
				r.put(r.ackFrame("ACK", got[r][k-1]))
				for _, q := range rs {
					got[q] = append(got[q], q.now...)
				}
			}
		}
	}
	total := 0
	for i, r := range rs {
		for _, f := range got[r] {
			if f.Cmd != "MESSAGE" || string(f.Body) != text || f.Get("x") != "y" || f.Get("subscription") != "s" || f.Get("destination") != dest {
				viol("S09,S02,S05", "client %d got %v", i, f)
			}
		}
		total += len(got[r])
		if want := n; dest == ta {
			if late == 1 {
				want = 0
			}
			if len(got[r]) != want {
				viol("S05,S06", "client %d got %d of %d equal messages", i, len(got[r]), want)
			}
		}
	}
	if dest == qa && total != n {
		viol("S02,S06,S13", "%d of %d equal messages were delivered", total, n)
	}
	mc.Outcome(fmt.Sprint(dest, total))
}

var oddNames = []string{"", " ", "t", "T", " t", "t ", "tt", "t\n", "t\r", "t:", "t\\", "t\\n", "t\t", "default", "nil", "null", "none", "*", "0", "00", "1", "01", "+1", "-1", "1.0", "t,u", "\u00e4", "a\u0308", "\u1234", "%s", "..", "t/u"}

// pair picks two of oddNames.
func pair() (string, string) {
	n := len(oddNames)
	k := mc.Choose(n * n)
	return oddNames[k/n], oddNames[k%n]
}

// txNamesFn: two transactions are the same only if their names are.
func txNamesFn(deep int) {
	a, b := pair()
	if a == b {
		return
	}
	first := mc.Choose(2)
	v := newSrv()
	c := v.clients("1.2", "1.2")
	c[1].send(fr("SUBSCRIBE", "id", "s", "destination", qa), fr("SUBSCRIBE", "id", "t", "destination", ta))
	v.idle("subscribed")
	c[0].send(fr("BEGIN", "transaction", a), fr("BEGIN", "transaction", b, "receipt", "1"))
	v.idle("begun")
	c[0].send(v.msg(qa, "transaction", a), v.msg(qa, "transaction", b), v.msg(ta, "transaction", a), v.msg(qa))
	v.idle("sent")
	c[0].send(fr([]string{"COMMIT", "ABORT"}[first], "transaction", a, "receipt", "2"))
	v.idle("the first is finished")
	c[0].send(v.msg(qa, "transaction", b))
	c[0].send(fr("COMMIT", "transaction", b, "receipt", "3"))
	v.idle("the second is finished")
	c[0].send(fr("BEGIN", "transaction", a, "receipt", "4"))
	v.idle("begun again")
	c[0].send(fr("ABORT", "transaction", b))
	v.idle("refused")
	mc.Outcome("done")
}

// srvSubNamesFn: two subscriptions are the same only if their ids are.
func srvSubNamesFn(deep int) {
	a, b := pair()
	if a == b {
		return
	}
	ack := []string{"auto", "client-individual"}[mc.Choose(2)]
	v := newSrv()
	c := v.clients("1.2", "1.1")
	c[1].send(fr("SUBSCRIBE", "id", a, "destination", qa, "ack", ack), fr("SUBSCRIBE", "id", b, "destination", "/queue/b", "ack", ack, "receipt", a))
	v.idle("subscribed")
	c[0].send(v.msg(qa), v.msg("/queue/b"), v.msg(qa))
	v.idle("sent")
	c[1].send(fr("UNSUBSCRIBE", "id", a, "receipt", b))
	v.idle("unsubscribed")
	c[0].send(v.msg(qa), v.msg("/queue/b"))
	for i := 0; i < len(c[1].got) && i < 2; i++ {
		c[1].send(c[1].ackFrame("ACK", c[1].got[i]))
	}
	v.idle("acknowledged")
	c[1].send(fr("SUBSCRIBE", "id", a, "destination", ta))
	v.idle("subscribed again")
	c[0].send(v.msg(ta))
	v.idle("sent")
	c[1].send(fr("UNSUBSCRIBE", "id", a), fr("UNSUBSCRIBE", "id", b, "receipt", ""))
	v.idle("none is left")
	c[1].send(fr("UNSUBSCRIBE", "id", a))
	v.finish(qa, "/queue/b")
	mc.Outcome("done")
}

// srvRcptNamesFn: whatever a receipt is called, it is sent, or named by the
// ERROR.
func srvRcptNamesFn(deep int) {
	name := oddNames[mc.Choose(len(oddNames))]
	r := []string{"receipt", name}
	v := newSrv()
	c := v.clients([]string{"1.2", "1.1"}[mc.Choose(2)], "1.2")
	last := refused(c[0].ver)
	bad := last[mc.Choose(len(last))]
	with := func(f *F) *F {
		f.H = append(append([][2]string{}, f.H...), [2]string{r[0], r[1]})
		return f
	}
	for _, f := range []*F{
		fr("SUBSCRIBE", "id", "s", "destination", qa, "ack", "client"), v.msg(qa), v.msg(ta), v.msg(qa), fr("BEGIN", "transaction", "t"), v.msg(qa, "transaction", "t"), fr("COMMIT", "transaction", "t"),
		fr("BEGIN", "transaction", "t"), fr("ABORT", "transaction", "t"), nil, fr("UNSUBSCRIBE", "id", "s"), fr("SUBSCRIBE", "id", "s", "destination", qa, "ack", "client"), fr("BEGIN", "transaction", "t"),
	} {
		if f == nil {
			if len(c[0].got) == 0 {
				continue
			}
			f = c[0].ackFrame("ACK", c[0].got[0])
		}
		c[0].send(with(f))
		v.idle(f.Cmd)
	}
	c[0].send(with(bad))
	v.idle("refused")
	c[1].send(with(fr("DISCONNECT")))
	v.idle("left")
	mc.Outcome("done")
}

// csameFn: the same on a client connection: calls with the same arguments
// send as many frames, and equal messages are delivered as many times.
func csameFn(deep int) {
	n := 3 + deep
	kind := mc.Choose(8)
	text := []string{"same", ""}[mc.Choose(2)]
	ver := []string{"1.2", "1.1", "1.0"}[mc.Choose(3)]
	p := newPeer()
	p.Conn = fr("CONNECTED", "version", ver)
	c := p.dial()
	mode := []stomp.AckMode{stomp.AckAuto, stomp.AckClient}[kind%2]
	s := mustSub(c, "/s", mode)
	mc.Quiet()
	k := consume(s, nil)
	base := len(p.Frames())
	ok := func(err error) {
		if err != nil {
			viol("C03,C04,C10,C11", "kind %d: %v", kind, err)
		}
	}
	cmd, extra := "SEND", 0
	switch kind {
	case 0, 1:
		for i := 0; i < n; i++ {
			ok(c.Send("/d", "text/plain", []byte(text)))
		}
	case 2:
		for i := 0; i < n; i++ {
			ok(c.Send("/d", "", []byte(text), stomp.SendOpt.Receipt))
		}
	case 3:
		t := c.Begin()
		for i := 0; i < n; i++ {
			ok(t.Send("/d", "", []byte(text)))
		}
		ok(t.Commit())
		extra = 2
	case 4, 5, 6, 7:
		m := msgFor(s.Id(), "/s", 1)
		m.H, m.Body = [][2]string{{"destination", "/s"}, {"subscription", s.Id()}, {"message-id", "7"}, {"ack", "7"}}, []byte(text)
		var fs []*F
		for i := 0; i < n; i++ {
			fs = append(fs, m)
		}
		if kind < 6 {
			p.Send(fs...)
		} else {
			for _, f := range fs {
				p.Send(f)
				mc.Quiet()
			}
		}
		mc.Quiet()
		checkDelivered("C05", "the same", k, fs, c)
		cmd, n = "", 0
	}
	mc.Quiet()
	have := 0
	for _, f := range p.Frames()[base:] {
		if f.Cmd == cmd && string(f.Body) == text {
			have++
		}
	}
	if have != n || len(p.Frames()) != base+n+extra {
		viol("C03,C11", "%d equal calls put %v on the wire", n, p.Frames()[base:])
	}
	bye(p, c)
	mc.Outcome(fmt.Sprint(kind))
}

func init() {
	scen(&Scenario{Name: "s-same", Props: []string{"S02", "S05", "S06", "S07", "S09", "S13"},
		What:     "frames that are equal: messages, transactions, receipts",
		Quick:    []Bound{{Delay: true, Shards: 32}},
		Thorough: []Bound{{Delay: true, Deep: 2, Shards: 64}, {Delay: true, PB: 1, Shards: 64}},
		Fn:       sameFn})
	scen(&Scenario{Name: "s-txnames", Props: []string{"S06", "S11"},
		What:     "two transactions with every pair of odd names",
		Quick:    []Bound{{Delay: true, Shards: 32}},
		Thorough: []Bound{{Delay: true, PB: 1, Shards: 64}},
		Fn:       txNamesFn})
	scen(&Scenario{Name: "s-subnames", Props: []string{"S02", "S04", "S05", "S09", "S11"},
		What:     "two subscriptions with every pair of odd ids",
		Quick:    []Bound{{Delay: true, Shards: 32}},
		Thorough: []Bound{{Delay: true, PB: 1, Shards: 64}},
		Fn:       srvSubNamesFn})
	scen(&Scenario{Name: "s-rcptnames", Props: []string{"S07", "S11"},
		What:     "receipts with every odd name, for frames that are accepted and refused",
		Quick:    []Bound{{Delay: true, Shards: 32}},
		Thorough: []Bound{{Delay: true, PB: 1, Shards: 64}},
		Fn:       srvRcptNamesFn})
	scen(&Scenario{Name: "c-same", Props: []string{"C03", "C05", "C11"},
		What:     "calls with the same arguments, messages that are equal",
		Quick:    []Bound{{Delay: true, PB: 1, Shards: 32}},
		Thorough: []Bound{{Delay: true, PB: 2, Shards: 64}, {Delay: true, Deep: 10, Shards: 64}},
		Fn:       csameFn})
}
