package main

import (
	"stompmc/mc"
)

// ---------------------------------------------------------------- topics

var tops = []sop{
	soSend(0, "/topic/a", "x", "y"),
	soSend(0, "/topic/b"),
	soSend(1, "/topic/a"),
	soSub(1, "s", "/topic/a", "auto"),
	soSub(1, "t", "/topic/a", "client"),
	soSub(1, "u", "/topic/b", ""),
	soUnsub(1, "s"),
	soUnsub(1, "t"),
	soSub(2, "s", "/topic/a", "client-individual"),
	soUnsub(2, "s"),
	soSub(0, "q", "/topic/a", "auto"),
	soCut(1),
	soEOF(2),
}

// what is done at the same time on a topic
var tpub = []sscript{
	{"send", "", func(w *sworld, c *scli) { c.send(w.v.msg(ta, w.r()...)) }},
	{"send send", "", func(w *sworld, c *scli) {
		c.send(w.v.msg(ta, w.r("x", "1")...))
		c.send(w.v.msg(ta, w.r("x", "2")...))
	}},
	{"send, other, gone", "", func(w *sworld, c *scli) {
		c.send(w.v.msg(ta, w.r()...), w.v.msg("/topic/b", w.r()...))
		c.cut()
	}},
	{"tx", "", func(w *sworld, c *scli) {
		c.send(fr("BEGIN", w.r("transaction", "t")...), w.v.msg(ta, w.r("transaction", "t")...), w.v.msg(ta, w.r("transaction", "t")...), fr("COMMIT", w.r("transaction", "t")...))
	}},
	{"refused", "", func(w *sworld, c *scli) {
		c.send(w.v.msg(ta, w.r()...), fr("BEGIN", w.r()...), w.v.msg(ta, w.r()...))
	}},
}

func tsub(w *sworld, id string) *F { return fr("SUBSCRIBE", w.r("id", id, "destination", ta)...) }

var tcons = []sscript{
	{"subscribe", "", func(w *sworld, c *scli) { c.send(tsub(w, "s")) }},
	{"subscribe twice", "", func(w *sworld, c *scli) { c.send(tsub(w, "s")); c.send(tsub(w, "t")) }},
	{"subscribe unsubscribe", "", func(w *sworld, c *scli) { c.send(tsub(w, "s"), fr("UNSUBSCRIBE", w.r("id", "s")...)) }},
	{"unsubscribe", "a", func(w *sworld, c *scli) { c.send(fr("UNSUBSCRIBE", w.r("id", "s")...)) }},
	{"unsubscribe subscribe", "a", func(w *sworld, c *scli) {
		c.send(fr("UNSUBSCRIBE", w.r("id", "s")...), tsub(w, "s"))
	}},
	{"subscribe more", "a", func(w *sworld, c *scli) { c.send(tsub(w, "t")) }},
	{"gone", "a", func(w *sworld, c *scli) { c.cut() }},
	{"disconnect", "a", func(w *sworld, c *scli) { c.send(fr("DISCONNECT", w.r()...)); c.eof() }},
	{"refused", "a", func(w *sworld, c *scli) { c.send(tsub(w, "s")) }},
	{"send as well", "a", func(w *sworld, c *scli) { c.send(w.v.msg(ta, w.r()...)) }},
	{"gone at a message", "a", func(w *sworld, c *scli) {
		c.on = func(c *scli, f *F) {
			if f.Cmd == "MESSAGE" {
				c.cutNow()
			}
		}
	}},
	{"answer", "a", func(w *sworld, c *scli) {
		n := 0
		c.on = func(c *scli, f *F) {
			if f.Cmd == "MESSAGE" && n == 0 {
				n++
				c.inject(fr("ACK", w.r("id", f.Get("message-id"), "message-id", f.Get("message-id"), "subscription", "s")...), w.v.msg(ta, w.r()...))
			}
		}
	}},
}

// topicConc: a publisher, a subscriber and another one at the same time.
func topicConc(deep int) {
	k := mc.Choose(len(tpub) * len(tcons) * len(others))
	p, k := tpub[k%len(tpub)], k/len(tpub)
	c, o := tcons[k%len(tcons)], others[k/len(tcons)]
	v := newSrv()
	w := &sworld{v: v, rcpt: k%2 == 0}
	vers := []string{"1.1", "1.2"}
	if o != "" {
		vers = append(vers, "1.2")
	}
	cl := v.clients(vers...)
	if c.pre != "" {
		cl[1].send(fr("SUBSCRIBE", "id", "s", "destination", ta))
	}
	switch o {
	case "a", "gone":
		cl[2].send(fr("SUBSCRIBE", "id", "o", "destination", ta))
	case "c":
		cl[2].send(fr("SUBSCRIBE", "id", "o", "destination", ta, "ack", "client"))
	}
	v.idle("subscribed")
	mc.Trace("-- %q, %q, %q", p.name, c.name, o)
	var g group
	g.Go("publisher", func() { p.do(w, cl[0]) })
	g.Go("subscriber", func() { c.do(w, cl[1]) })
	switch o {
	case "sub":
		g.Go("other", func() { cl[2].send(fr("SUBSCRIBE", "id", "o", "destination", ta)) })
	case "gone":
		g.Go("other", func() { cl[2].cut() })
	}
	g.Wait()
	v.idle("in the end")
	for _, c := range cl {
		c.on = nil
	}
	// who is subscribed now
	d := v.clients("1.1")[0]
	d.send(v.msg(ta), v.msg(ta))
	v.idle("two more")
	mc.Outcome(p.name + " | " + c.pre + " " + c.name + " | " + o)
}

// ---------------------------------------------------------------- two queues

var q2ops = []sop{
	soSend(0, "/queue/a"),
	soSend(0, "/queue/ab"),
	soSend(0, "/topic/a"),
	soSub(1, "a", "/queue/a", "client-individual"),
	soSub(1, "b", "/queue/ab", "client"),
	soSub(1, "t", "/topic/a", "client"),
	soUnsub(1, "a"),
	soUnsub(1, "b"),
	soAck(1, "ACK", 0),
	soAck(1, "ACK", -1),
	soAck(1, "NACK", 0),
	soAck(1, "NACK", -1),
	soEOF(1),
	soCut(1),
}

var q2pre = [][]sop{
	nil,
	{soSend(0, "/queue/a"), soSend(0, "/queue/ab"), soSend(0, "/queue/a"), soSend(0, "/queue/ab")},
	{soSub(1, "a", "/queue/a", "client"), soSub(1, "b", "/queue/ab", "client"), soSub(1, "c", "/queue/a", "client"), soSend(0, "/queue/a"), soSend(0, "/queue/ab"), soSend(0, "/queue/a"), soSend(0, "/queue/a")},
}

func init() {
	scen(&Scenario{Name: "s-topic", Props: []string{"S05", "S07", "S09"},
		What:  "every sequence of operations of three clients on two topics",
		Quick: []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Deep: 3, Only: "S15"}, {Delay: true, Deep: 4, Shards: 16}}, Thorough: []Bound{{Delay: true, PB: 0, Race: true, Shards: 128, Deep: 4, Only: "S15"}, {Delay: true, Deep: 5, Shards: 64}},
		Fn: func(deep int) { history(tops, deep, []string{"1.2", "1.1", "1.2"}, nil, "/topic/a") }})
	scen(&Scenario{Name: "s-tconc", Props: []string{"S05", "S06", "S07", "S08", "S11"},
		What:     "a publisher, a subscriber and another one on a topic, at the same time",
		Quick:    []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Only: "S15"}, {Delay: true, PB: 1, Shards: 32}},
		Thorough: []Bound{{Delay: true, PB: 2, Race: true, Shards: 128, Only: "S15"}, {Delay: true, PB: 2, Shards: 64}, {Delay: true, PB: 3, Shards: 300}, {Delay: true, PB: 4, Shards: 300, Only: "S05"}},
		Fn:       topicConc})
	scen(&Scenario{Name: "s-two", Props: []string{"S02", "S03", "S04", "S05"},
		What:  "every sequence of operations on two queues and a topic with one consumer",
		Quick: []Bound{{Delay: true, Deep: 3, Shards: 16}, {Delay: true, Deep: 4, Shards: 16, Only: "S03"}}, Thorough: []Bound{{Delay: true, Deep: 5, Shards: 64}},
		Fn: func(deep int) {
			pre := q2pre[mc.Choose(len(q2pre))]
			history(q2ops, deep, []string{"1.2", "1.1"}, pre, "/queue/a", "/queue/ab")
		}})
	scen(&Scenario{Name: "s-tx", Props: []string{"S06", "S07"},
		What:  "every sequence of operations in two transactions of two clients, with the consumers watching",
		Quick: []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Deep: 3, Only: "S15"}, {Delay: true, Deep: 3, Shards: 16}, {Delay: true, Deep: 4, Shards: 16, Only: "S06"}}, Thorough: []Bound{{Delay: true, PB: 0, Race: true, Shards: 128, Deep: 2, Only: "S15"}, {Delay: true, Deep: 5, Shards: 64}},
		Fn: func(deep int) {
			pre := txPre[mc.Choose(len(txPre))]
			history(txOps, deep, []string{"1.2", "1.1", "1.2"}, pre, "/queue/a", "/queue/b")
		}})
}

// ---------------------------------------------------------------- transactions

var txOps = []sop{
	soTx(0, "BEGIN", "t"),
	soTx(0, "BEGIN", "u"),
	soTx(0, "COMMIT", "t"),
	soTx(0, "COMMIT", "u"),
	soTx(0, "ABORT", "t"),
	soSend(0, "/queue/a", "transaction", "t"),
	soSend(0, "/topic/a", "transaction", "u"),
	soAck(0, "ACK", -1, "transaction", "t"),
	soAck(0, "NACK", 0, "transaction", "u"),
	soTx(1, "BEGIN", "t"),
	soSend(1, "/queue/a", "transaction", "t"),
	soTx(1, "COMMIT", "t"),
	soCut(0),
	soEOF(0),
}

var txPre = [][]sop{
	{soSub(2, "c", "/queue/a", "auto"), soSub(2, "t", "/topic/a", "auto")},
	{soSub(2, "c", "/queue/a", "auto"), soSub(2, "t", "/topic/a", "auto"), soTx(0, "BEGIN", "t"), soTx(0, "BEGIN", "u"), soSend(0, "/queue/a", "transaction", "t")},
	{soSub(0, "c", "/queue/b", "client"), soSub(0, "d", "/queue/b", "client-individual"), soSub(0, "e", "/queue/b", "client"), soSend(1, "/queue/b"), soSend(1, "/queue/b"), soSend(1, "/queue/b"), soTx(0, "BEGIN", "t"), soTx(0, "BEGIN", "u"),
		soAck(0, "ACK", -2, "transaction", "u")},
}
