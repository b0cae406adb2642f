package main

import (
	"fmt"

	"stompmc/mc"
	"stompmc/mc/time"
)

// ---------------------------------------------------------------- sequences

// An sop is one operation of a history.
type sop struct {
	name string
	do   func(w *sworld)
}

type sworld struct {
	v    *srv
	cl   []*scli
	rcpt bool
	nr   int
	tx   int
}

// f gives a frame a receipt header if the history has them.
func (w *sworld) f(f *F) *F {
	if w.rcpt {
		w.nr++
		f.H = append(f.H, [2]string{"receipt", fmt.Sprint("r", w.nr)})
	}
	return f
}

func (w *sworld) live(i int) *scli {
	c := w.cl[i]
	if c.e.Closed() {
		return nil
	}
	return c
}

func soSend(i int, dest string, kv ...string) sop {
	return sop{fmt.Sprintf("%d sends to %s %v", i, dest, kv), func(w *sworld) {
		if c := w.live(i); c != nil {
			c.send(w.f(w.v.msg(dest, kv...)))
		}
	}}
}

func soSub(i int, id, dest, ack string) sop {
	return sop{fmt.Sprintf("%d subscribes %s to %s %s", i, id, dest, ack), func(w *sworld) {
		if c := w.live(i); c != nil {
			f := fr("SUBSCRIBE", "id", id, "destination", dest)
			if ack != "" {
				f.H = append(f.H, [2]string{"ack", ack})
			}
			c.send(w.f(f))
		}
	}}
}

func soUnsub(i int, id string) sop {
	return sop{fmt.Sprintf("%d unsubscribes %s", i, id), func(w *sworld) {
		if c := w.live(i); c != nil {
			c.send(w.f(fr("UNSUBSCRIBE", "id", id)))
		}
	}}
}

// opAck acknowledges the k-th last message received (k from 0), or the k-th
// first (k negative, from -1).
func soAck(i int, cmd string, k int, kv ...string) sop {
	return sop{fmt.Sprintf("%d %s %d %v", i, cmd, k, kv), func(w *sworld) {
		c := w.live(i)
		if c == nil {
			return
		}
		j := len(c.got) - 1 - k
		if k < 0 {
			j = -1 - k
		}
		if j < 0 || j >= len(c.got) {
			return
		}
		c.send(w.f(c.ackFrame(cmd, c.got[j], kv...)))
	}}
}

func soFrame(i int, name string, mk func() *F) sop {
	return sop{fmt.Sprintf("%d %s", i, name), func(w *sworld) {
		if c := w.live(i); c != nil {
			c.send(w.f(mk()))
		}
	}}
}

func soTx(i int, cmd, tx string) sop {
	return soFrame(i, cmd+" "+tx, func() *F { return fr(cmd, "transaction", tx) })
}

// opCut: client i is gone; a new one takes its place.
func soCut(i int) sop {
	return sop{fmt.Sprintf("%d is gone", i), func(w *sworld) {
		if c := w.live(i); c != nil {
			c.cut()
		}
		ver := w.cl[i].ver
		w.v.idle("after a cut")
		w.cl[i] = w.v.client().connect(ver)
	}}
}

func soEOF(i int) sop {
	return sop{fmt.Sprintf("%d disconnects", i), func(w *sworld) {
		if c := w.live(i); c != nil {
			c.send(w.f(fr("DISCONNECT")))
			c.eof()
		}
		ver := w.cl[i].ver
		w.v.idle("after a disconnect")
		w.cl[i] = w.v.client().connect(ver)
	}}
}

// late: the pause in the next history.
var late time.Duration

// history runs every sequence of ops of the given length, waiting for the
// server after each, with and without receipts.
//
// With late set, so much time passes after each: nothing that a client may see depends on
// how long something has been there.
func history(ops []sop, depth int, vers []string, prefix []sop, dests ...string) {
	k := mc.Choose(2 * len(ops))
	pause := late
	late = 0
	v := newSrv()
	w := &sworld{v: v, rcpt: k%2 == 1}
	w.cl = v.clients(vers...)
	run := func(o sop) {
		mc.Trace("-- %s", o.name)
		o.do(w)
		v.idle(o.name)
		if pause > 0 {
			mc.Sleep(pause)
			v.idle("long after " + o.name)
		}
	}
	for _, o := range prefix {
		run(o)
	}
	for i := 0; i < depth; i++ {
		if i == 0 {
			run(ops[k/2])
		} else {
			run(ops[mc.Choose(len(ops))])
		}
	}
	v.finish(dests...)
	mc.Outcome("done")
}

var qops = []sop{
	soSend(0, "/queue/a", "x", "y"),
	soSub(1, "s", "/queue/a", "auto"),
	soSub(1, "c", "/queue/a", "client"),
	soSub(1, "i", "/queue/a", "client-individual"),
	soUnsub(1, "c"),
	soUnsub(1, "s"),
	soAck(1, "ACK", 0),
	soAck(1, "ACK", -1),
	soAck(1, "NACK", 0),
	soAck(1, "NACK", -1),
	soCut(1),
	soSub(0, "i", "/queue/a", "client-individual"),
	soAck(0, "ACK", 0),
	soCut(0),
}

func init() {
	scen(&Scenario{Name: "s-queue", Props: []string{"S02", "S03", "S04", "S07", "S09", "S08"},
		What:  "every sequence of operations of two clients on a queue",
		Quick: []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Deep: 3, Only: "S15"}, {Delay: true, Deep: 4, Shards: 16}}, Thorough: []Bound{{Delay: true, PB: 0, Race: true, Shards: 128, Deep: 4, Only: "S15"}, {Delay: true, Deep: 5, Shards: 64}},
		Fn: func(deep int) { history(qops, deep, []string{"1.2", "1.1"}, nil, "/queue/a") }})
}
