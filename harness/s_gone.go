package main

import (
	"fmt"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp/server"
)

// ---------------------------------------------------------------- S14

type ending struct {
	name string
	do   func(v *srv, c *scli)
}

func flood(v *srv, n int) (l []*F) {
	for i := 0; i < n; i++ {
		l = append(l, v.msg("/topic/b"))
	}
	return
}

var endings = []ending{
	{"end of input", func(v *srv, c *scli) { c.eof() }},
	{"broken", func(v *srv, c *scli) { c.cut() }},
	{"disconnect", func(v *srv, c *scli) { c.send(fr("DISCONNECT", "receipt", "1")); c.eof() }},
	{"refused", func(v *srv, c *scli) { c.send(fr("COMMIT", "transaction", "u")) }},
	{"refused with much behind it", func(v *srv, c *scli) {
		c.send(append([]*F{fr("COMMIT", "transaction", "u")}, flood(v, 40)...)...)
	}},
	{"refused and end of input", func(v *srv, c *scli) {
		c.send(append([]*F{fr("BEGIN")}, flood(v, 20)...)...)
		c.eof()
	}},
	{"garbage", func(v *srv, c *scli) {
		c.e.Do(func() {
			v.b.eof(c.i, false)
			c.e.Inject([]byte("GARBAGE\n\n\x00"))
		})
	}},
	{"silence", func(v *srv, c *scli) {
		mc.Sleep(3 * time.Second)
		v.b.eof(c.i, true)
	}},
	{"half a frame and silence", func(v *srv, c *scli) {
		c.e.Do(func() { c.e.Inject([]byte("SEND\ndestination:/queue/a\n")) })
		mc.Sleep(3 * time.Second)
		v.b.eof(c.i, true)
	}},
	{"half a frame and the end", func(v *srv, c *scli) {
		c.e.Do(func() {
			v.b.eof(c.i, false)
			c.e.Inject([]byte("SEND\ndestination:/queue/a\n"))
			c.e.InjectEOF(nil)
		})
	}},
	{"nothing can be written", func(v *srv, c *scli) {
		// noticed when the next heart-beat is due
		c.e.Do(func() {
			v.b.eof(c.i, true)
			c.e.BreakWrites()
		})
		mc.Sleep(3 * time.Second)
		mc.Quiet()
		if !c.e.Closed() {
			viol("S14", "a connection is kept although heart-beats cannot be written")
		}
	}},
	{"commit and broken", func(v *srv, c *scli) {
		c.send(fr("BEGIN", "transaction", "t"))
		for i := 0; i < 20; i++ {
			c.send(v.msg("/queue/b", "transaction", "t"))
		}
		c.send(fr("COMMIT", "transaction", "t"))
		c.cut()
	}},
}

var goneStates = []string{"new", "connected", "auto", "client", "holding", "topic", "many"}

// goneFn: every ending in several states while messages arrive.
func goneFn(deep int) {
	k := mc.Choose(len(endings) * len(goneStates) * 2)
	e, k := endings[k%len(endings)], k/len(endings)
	st, busy := goneStates[k%len(goneStates)], k >= len(goneStates)
	v := newSrv(func(s *server.Server) { s.HeartBeat = time.Second })
	mc.Quiet()
	base := len(mc.Blocked())
	o := v.clients("1.2")[0]
	c := v.client()
	if st == "new" {
		if e.name == "silence" || e.name == "half a frame and silence" || e.name == "nothing can be written" {
			return // a client that has not connected may take its time
		}
	} else {
		hb := "1000,0"
		if e.name == "nothing can be written" {
			hb = "0,1000"
		}
		c.send(fr("CONNECT", "accept-version", "1.2", "heart-beat", hb))
	}
	switch st {
	case "auto":
		c.send(fr("SUBSCRIBE", "id", "s", "destination", qa))
	case "client", "holding":
		c.send(fr("SUBSCRIBE", "id", "s", "destination", qa, "ack", "client"))
	case "topic":
		c.send(fr("SUBSCRIBE", "id", "s", "destination", ta))
	case "many":
		for i := 0; i < 20; i++ {
			c.send(fr("SUBSCRIBE", "id", fmt.Sprint("s", i), "destination", fmt.Sprint("/queue/", i), "ack", "client-individual"))
		}
	}
	v.idle("subscribed")
	switch st {
	case "holding":
		o.send(v.msg(qa))
	case "many":
		for i := 0; i < 10; i++ {
			o.send(v.msg(fmt.Sprint("/queue/", i)))
		}
	}
	v.idle("messages")
	var g group
	g.Go("end", func() { e.do(v, c) })
	if busy {
		g.Go("other", func() { o.send(v.msg(qa), v.msg(ta)) })
	}
	g.Wait()
	mc.Trace("-- %s, %s", e.name, st)
	v.idle("in the end")
	v.gone(base)
	mc.Outcome(e.name)
}

// goneStuckFn: the client does not read, then is gone.
func goneStuckFn(deep int) {
	limit := mc.Choose(3)
	kind := mc.Choose(3)
	e := mc.Choose(3)
	if kind == 2 && e == 2 {
		return // what it has sent is not read while it does not read either
	}
	v := newSrv(func(s *server.Server) { s.HeartBeat = time.Second })
	mc.Quiet()
	base := len(mc.Blocked())
	o := v.clients("1.2")[0]
	c := v.client()
	c.send(fr("CONNECT", "accept-version", "1.2", "heart-beat", "1000,0"))
	c.send(fr("SUBSCRIBE", "id", "s", "destination", qa), fr("SUBSCRIBE", "id", "t", "destination", ta))
	v.idle("subscribed")
	c.far.SetLimit(len(c.e.Writes()) + limit)
	v.b.stuck(c.i, true)
	for i := 0; i < 30; i++ {
		switch kind {
		case 0:
			o.send(v.msg(qa))
		case 1:
			o.send(v.msg(ta))
		case 2:
			c.send(v.msg("/topic/b", "receipt", "r"))
		}
	}
	mc.Quiet()
	var g group
	g.Go("end", func() {
		switch e {
		case 0:
			c.cut()
		case 1:
			c.eof()
			mc.Sleep(time.Minute)
			c.cut()
		case 2: // silence
			mc.Sleep(3 * time.Second)
			v.b.eof(c.i, true)
		}
		v.b.stuck(c.i, false)
	})
	g.Wait()
	v.idle("in the end")
	v.gone(base)
	mc.Outcome("done")
}

func init() {
	scen(&Scenario{Name: "s-gone", Props: []string{"S14", "S02", "S08"},
		What:  "every way for a connection to end, in several states, while messages arrive",
		Quick: []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Only: "S15"}, {Delay: true, PB: 1, Shards: 16}}, Thorough: []Bound{{Delay: true, PB: 2, Race: true, Shards: 128, Only: "S15"}, {Delay: true, PB: 2, Shards: 64}, {Delay: true, PB: 3, Shards: 154}},
		Fn: goneFn})
	scen(&Scenario{Name: "s-gonestuck", Props: []string{"S14"},
		What:  "a client that does not read is gone",
		Quick: []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Deep: 0, Only: "S15"}, {Delay: true, PB: 1, Shards: 8}}, Thorough: []Bound{{Delay: true, PB: 1, Race: true, Shards: 128, Deep: 0, Only: "S15"}, {Delay: true, PB: 2, Shards: 27}},
		Fn: goneStuckFn})
}
