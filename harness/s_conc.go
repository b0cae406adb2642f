package main

import (
	"fmt"

	"stompmc/mc"
)

// ---------------------------------------------------------------- concurrency

// A sscript is what a client does without waiting for anything.
type sscript struct {
	name string
	pre  string // state it needs: "" none, "a", "c", "i" an idle subscription s of that mode, upper case: with a message outstanding
	do   func(w *sworld, c *scli)
}

func (w *sworld) r(kv ...string) []string {
	if w.rcpt {
		w.nr++
		kv = append(kv, "receipt", fmt.Sprint("r", w.nr))
	}
	return kv
}

const qa, qb, ta = "/queue/a", "/queue/b", "/topic/a"

var producers = []sscript{
	{"send send", "", func(w *sworld, c *scli) { c.send(w.v.msg(qa, w.r()...)); c.send(w.v.msg(qa, w.r()...)) }},
	{"send gone", "", func(w *sworld, c *scli) { c.send(w.v.msg(qa, w.r()...)); c.cut() }},
	{"tx", "", func(w *sworld, c *scli) {
		c.send(fr("BEGIN", w.r("transaction", "t")...), w.v.msg(qa, w.r("transaction", "t")...), w.v.msg(qa, w.r("transaction", "t")...), fr("COMMIT", w.r("transaction", "t")...))
	}},
	{"send disconnect", "", func(w *sworld, c *scli) {
		c.send(w.v.msg(qa, w.r()...), fr("DISCONNECT", w.r()...))
		c.eof()
	}},
	{"tx gone", "", func(w *sworld, c *scli) {
		c.send(fr("BEGIN", w.r("transaction", "t")...), w.v.msg(qa, w.r("transaction", "t")...), fr("COMMIT", w.r("transaction", "t")...))
		c.cut()
	}},
	{"refused", "", func(w *sworld, c *scli) {
		c.send(w.v.msg(qa, w.r()...), fr("COMMIT", w.r("transaction", "u")...), w.v.msg(qa, w.r()...))
	}},
}

func qsub(w *sworld, id, ack string) *F {
	return fr("SUBSCRIBE", w.r("id", id, "destination", qa, "ack", ack)...)
}

var consumers = []sscript{
	{"subscribe auto", "", func(w *sworld, c *scli) { c.send(qsub(w, "s", "auto")) }},
	{"subscribe client", "", func(w *sworld, c *scli) { c.send(qsub(w, "s", "client")) }},
	{"subscribe unsubscribe", "", func(w *sworld, c *scli) {
		c.send(qsub(w, "s", "client"), fr("UNSUBSCRIBE", w.r("id", "s")...))
	}},
	{"subscribe, acknowledge", "", func(w *sworld, c *scli) {
		c.on = func(c *scli, f *F) {
			if f.Cmd == "MESSAGE" {
				c.inject(c.ackFrame("ACK", f, w.r()...))
			}
		}
		c.send(qsub(w, "s", "client"))
	}},
	{"subscribe, reject once", "", func(w *sworld, c *scli) {
		n := 0
		c.on = func(c *scli, f *F) {
			if n++; f.Cmd == "MESSAGE" && n == 1 {
				c.inject(c.ackFrame("NACK", f, w.r()...))
			}
		}
		c.send(qsub(w, "s", "client-individual"))
	}},
	{"subscribe, gone at a message", "", func(w *sworld, c *scli) {
		c.on = func(c *scli, f *F) {
			if f.Cmd == "MESSAGE" {
				c.cutNow()
			}
		}
		c.send(qsub(w, "s", "auto"))
	}},
	{"unsubscribe", "a", func(w *sworld, c *scli) { c.send(fr("UNSUBSCRIBE", w.r("id", "s")...)) }},
	{"unsubscribe", "c", func(w *sworld, c *scli) { c.send(fr("UNSUBSCRIBE", w.r("id", "s")...)) }},
	{"unsubscribe subscribe", "c", func(w *sworld, c *scli) {
		c.send(fr("UNSUBSCRIBE", w.r("id", "s")...), qsub(w, "s", "client"))
	}},
	{"unsubscribe subscribe auto", "a", func(w *sworld, c *scli) {
		c.send(fr("UNSUBSCRIBE", w.r("id", "s")...), qsub(w, "s", "auto"))
	}},
	{"gone", "a", func(w *sworld, c *scli) { c.cut() }},
	{"gone", "c", func(w *sworld, c *scli) { c.cut() }},
	{"disconnect", "i", func(w *sworld, c *scli) { c.send(fr("DISCONNECT", w.r()...)); c.eof() }},
	{"refused", "c", func(w *sworld, c *scli) { c.send(fr("ABORT", w.r("transaction", "u")...)) }},
	{"gone", "C", func(w *sworld, c *scli) { c.cut() }},
	{"ack", "C", func(w *sworld, c *scli) { c.send(c.ackFrame("ACK", c.got[0], w.r()...)) }},
	{"ack gone", "I", func(w *sworld, c *scli) { c.send(c.ackFrame("ACK", c.got[0], w.r()...)); c.cut() }},
	{"nack", "I", func(w *sworld, c *scli) { c.send(c.ackFrame("NACK", c.got[0], w.r()...)) }},
	{"nack gone", "C", func(w *sworld, c *scli) { c.send(c.ackFrame("NACK", c.got[0], w.r()...)); c.cut() }},
	{"unsubscribe ack", "C", func(w *sworld, c *scli) {
		c.send(fr("UNSUBSCRIBE", w.r("id", "s")...), c.ackFrame("ACK", c.got[0], w.r()...))
	}},
	{"unsubscribe nack subscribe", "C", func(w *sworld, c *scli) {
		c.send(fr("UNSUBSCRIBE", w.r("id", "s")...), c.ackFrame("NACK", c.got[0], w.r()...), qsub(w, "s", "client"))
	}},
	{"ack unsubscribe", "I", func(w *sworld, c *scli) {
		c.send(c.ackFrame("ACK", c.got[0], w.r()...), fr("UNSUBSCRIBE", w.r("id", "s")...))
	}},
	{"tx ack", "C", func(w *sworld, c *scli) {
		c.send(fr("BEGIN", w.r("transaction", "t")...), c.ackFrame("ACK", c.got[0], w.r("transaction", "t")...), fr("COMMIT", w.r("transaction", "t")...))
	}},
	{"tx nack gone", "C", func(w *sworld, c *scli) {
		c.send(fr("BEGIN", w.r("transaction", "t")...), c.ackFrame("NACK", c.got[0], w.r("transaction", "t")...), fr("COMMIT", w.r("transaction", "t")...))
		c.cut()
	}},
}

var others = []string{"", "a", "c", "sub", "gone"}

// concFn: one client of each kind at the same time.
func concFn(prods, cons []sscript) func(int) {
	return func(deep int) {
		k := mc.Choose(len(prods) * len(cons) * len(others))
		p, k := prods[k%len(prods)], k/len(prods)
		c, o := cons[k%len(cons)], others[k/len(cons)]
		v := newSrv()
		w := &sworld{v: v, rcpt: k%2 == 0}
		vers := []string{"1.1", "1.2"}
		if o != "" {
			vers = append(vers, "1.2")
		}
		cl := v.clients(vers...)
		if c.pre != "" {
			mode := map[string]string{"a": "auto", "c": "client", "i": "client-individual", "C": "client", "I": "client-individual"}[c.pre]
			cl[1].send(fr("SUBSCRIBE", "id", "s", "destination", qa, "ack", mode))
			v.idle("subscribe")
			if c.pre == "C" || c.pre == "I" {
				cl[0].send(v.msg(qa))
				v.idle("first message")
			}
		} else {
			cl[0].send(v.msg(qa))
			v.idle("first message")
		}
		switch o {
		case "a", "gone":
			cl[2].send(fr("SUBSCRIBE", "id", "o", "destination", qa))
		case "c":
			cl[2].send(fr("SUBSCRIBE", "id", "o", "destination", qa, "ack", "client"))
		}
		v.idle("other consumer")
		mc.Trace("-- %q, %q, %q", p.name, c.name, o)
		var g group
		g.Go("producer", func() { p.do(w, cl[0]) })
		g.Go("consumer", func() { c.do(w, cl[1]) })
		switch o {
		case "sub":
			g.Go("other", func() { cl[2].send(fr("SUBSCRIBE", "id", "o", "destination", qa)) })
		case "gone":
			g.Go("other", func() { cl[2].cut() })
		}
		g.Wait()
		v.idle("in the end")
		for _, c := range cl {
			c.on = nil
		}
		v.finish(qa)
		mc.Outcome(p.name + " | " + c.pre + " " + c.name + " | " + o)
	}
}

func init() {
	scen(&Scenario{Name: "s-conc", Props: []string{"S02", "S03", "S04", "S06", "S07", "S08", "S11"},
		What:     "a producer, a consumer and another one on a queue, at the same time",
		Quick:    []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Only: "S15"}, {Delay: true, PB: 1, Shards: 64}},
		Thorough: []Bound{{Delay: true, PB: 2, Race: true, Shards: 128, Only: "S15"}, {Delay: true, PB: 1, Shards: 64}, {Delay: true, PB: 2, Shards: 256}, {Delay: true, PB: 3, Shards: 720}},
		Fn:       concFn(producers, consumers)})
}
