package main

import (
	"fmt"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp/server"
)

// ---------------------------------------------------------------- S10

type shb struct {
	min    time.Duration // the server's configuration
	cx, cy int           // the client's header, -1: none
}

func (h shb) eff(x int) time.Duration {
	min := h.min
	if min == 0 {
		min = time.Minute
	}
	if x <= 0 {
		return 0
	}
	return max(time.Duration(x)*time.Millisecond, min/time.Millisecond*time.Millisecond)
}

func shbConfs() []shb {
	var out []shb
	for _, min := range []time.Duration{0, time.Second, 2500 * time.Millisecond} {
		for _, cx := range []int{0, 1, 1000, 4000, 61000} {
			for _, cy := range []int{0, 1, 1000, 4000, 61000} {
				out = append(out, shb{min, cx, cy})
			}
		}
	}
	us := 1500 * time.Microsecond
	return append(out, shb{us, 1, 1}, shb{us, 1, 0}, shb{us, 0, 1}, shb{us, 2, 1}, shb{us, 3, 7}, shb{0, -1, -1}, shb{time.Second, -1, -1}, shb{time.Hour, 999999999, 999999999}, shb{300 * 24 * time.Hour, 10, 10})
}

// shbFn: every pattern of client and server traffic. In each slot, of about
// the interval announced for the client, the client sends at its end: '.'
// nothing, 'h' heart-beat, 'f' a frame, 'F' a frame with a receipt; and in
// the middle the server sends a message or does not.
func shbFn(deep int) {
	confs := shbConfs()
	h := confs[mc.Choose(len(confs))]
	v := newSrv(func(s *server.Server) { s.HeartBeat = h.min })
	o := v.clients("1.2")[0]
	c := v.client()
	f := fr("CONNECT", "accept-version", "1.2")
	if h.cx >= 0 {
		f.H = append(f.H, [2]string{"heart-beat", fmt.Sprintf("%d,%d", h.cx, h.cy)})
	}
	closedAt := int64(-1)
	c.e.OnClose = func() { closedAt = mc.NowNS() }
	early := mc.Choose(2) // time passes before the client connects
	if early == 1 {
		mc.Sleep(10 * time.Minute)
	}
	c.send(f)
	mc.Quiet()
	in, out := h.eff(h.cx), h.eff(h.cy)
	cap := time.Duration(999999999) * time.Millisecond
	in, out = min(in, cap), min(out, cap)
	if len(c.in) != 1 || c.in[0].Cmd != "CONNECTED" {
		viol("S10,S01", "no CONNECTED")
	}
	want := fmt.Sprintf("%d,%d", out/time.Millisecond, in/time.Millisecond)
	if got := c.in[0].Get("heart-beat"); got != want {
		viol("S10", "CONNECTED announces heart-beat %q, not %q, for %d,%d and minimum %v", got, want, h.cx, h.cy, h.min)
	}
	start := mc.NowNS()
	last := start
	c.send(fr("SUBSCRIBE", "id", "s", "destination", "/topic/a"))
	step := in
	if in == 0 {
		step = max(out*3/4, time.Millisecond)
	}
	word := ""
	for i := 0; i < deep; i++ {
		k := mc.Choose(4)
		m := mc.Choose(3)
		word += string(".hfF"[k]) + string(" mr"[m])
		mc.Sleep(step / 2)
		mc.Quiet()
		switch m {
		case 1:
			o.send(v.msg("/topic/a"))
		}
		mc.Quiet()
		mc.Sleep(step - step/2 - time.Microsecond) // just before the deadline
		if closedAt >= 0 {
			break
		}
		switch k {
		case 1:
			c.e.Do(func() { c.e.Inject([]byte("\n")) })
		case 2:
			c.send(v.msg("/topic/b"))
		case 3:
			c.send(v.msg("/topic/b", "receipt", "r"))
		}
		if k > 0 {
			last = mc.NowNS()
		}
		if gap := time.Duration(mc.NowNS() - last); in > 0 && gap > 2*in {
			break
		}
	}
	// now the client is silent
	rest := 2*max(in, out) + in/8
	if in == 0 {
		rest = 24 * time.Hour
		if out > 0 {
			rest = min(30*out, rest)
		}
	}
	mc.Sleep(rest)
	mc.Quiet()
	what := fmt.Sprintf("client %d,%d minimum %v, %q", h.cx, h.cy, h.min, word)
	now := mc.NowNS()
	if closedAt >= 0 {
		now = closedAt
	}
	switch {
	case in == 0 && closedAt >= 0:
		viol("S10", "%s: dropped after %v though it announced no heart-beats", what, time.Duration(closedAt-start))
	case in > 0 && closedAt < 0:
		viol("S10", "%s: silent for %v but not dropped", what, time.Duration(now-last))
	case in > 0 && time.Duration(closedAt-last) > 2*in:
		viol("S10", "%s: silent for %v before it was dropped", what, time.Duration(closedAt-last))
	case in > 0 && time.Duration(closedAt-last) <= in:
		viol("S10", "%s: dropped after %v of silence", what, time.Duration(closedAt-last))
	}
	if out > 0 {
		prev := int64(-1)
		for _, w := range append(c.e.Writes(), mc.WriteRec{At: now}) {
			if prev >= 0 && time.Duration(w.At-prev) > out {
				viol("S10", "%s: the server was silent for %v", what, time.Duration(w.At-prev))
			}
			prev = w.At
		}
	}
	mc.Outcome(fmt.Sprintf("in %v out %v closed %v", in > 0, out > 0, closedAt >= 0))
}

// shbStuckFn: a client that neither sends nor reads.
func shbStuckFn(deep int) {
	limit := mc.Choose(3)
	out := []int{0, 1000}[mc.Choose(2)]
	busy := mc.Choose(3)
	// frames that wait to be answered when the client goes silent
	asks := []int{0, 1, 16, 17, 18, 40}[mc.Choose(6)]
	v := newSrv(func(s *server.Server) { s.HeartBeat = time.Second })
	o := v.clients("1.2")[0]
	c := v.client()
	c.send(fr("CONNECT", "accept-version", "1.2", "heart-beat", fmt.Sprintf("1000,%d", out)))
	mc.Quiet()
	c.send(fr("SUBSCRIBE", "id", "s", "destination", "/topic/a"), fr("SUBSCRIBE", "id", "q", "destination", "/queue/a"))
	v.idle("subscribed")
	c.far.SetLimit(len(c.e.Writes()) + limit)
	v.b.stuck(c.i, true)
	for i := 0; i < 5; i++ {
		switch busy {
		case 1:
			o.send(v.msg("/topic/a"))
		case 2:
			o.send(v.msg("/queue/a"))
		}
	}
	var fs []*F
	for i := 0; i < asks; i++ {
		fs = append(fs, v.msg("/topic/none", "receipt", fmt.Sprint(i)))
	}
	c.send(fs...)
	mc.Quiet()
	mc.Sleep(3 * time.Second)
	mc.Quiet()
	if !c.e.Closed() {
		viol("S10", "a silent client that does not read is not dropped (%d frames to answer)", asks)
	}
	mc.Outcome("done")
}

// shbCrossFn: what is on its way to a client crosses what the client sends;
// whether or not it is sent in the end, the server is not silent too long.
func shbCrossFn(deep int) {
	ack := []string{"auto", "client", "client-individual"}[mc.Choose(3)]
	dest := []string{qa, ta}[mc.Choose(2)]
	does := mc.Choose(5)
	at := []time.Duration{0, 300 * time.Millisecond, 600 * time.Millisecond, 999 * time.Millisecond}[mc.Choose(4)]
	v := newSrv(func(s *server.Server) { s.HeartBeat = time.Second })
	o := v.clients("1.2")[0]
	c := v.client()
	c.send(fr("CONNECT", "accept-version", "1.2", "heart-beat", "0,1000"))
	mc.Quiet()
	c.send(fr("SUBSCRIBE", "id", "s", "destination", dest, "ack", ack), fr("SUBSCRIBE", "id", "t", "destination", "/queue/b", "ack", "client"))
	mc.Quiet()
	o.send(v.msg("/queue/b"))
	mc.Quiet()
	for round := 0; round < 2+deep; round++ {
		mc.Sleep(at)
		mc.Quiet()
		var g group
		g.Go("o", func() { o.send(v.msg(dest)) })
		g.Go("c", func() {
			switch does {
			case 0:
				c.send(fr("UNSUBSCRIBE", "id", "s"))
			case 1:
				c.send(fr("BEGIN", "transaction", fmt.Sprint("t", round)))
			case 2:
				if len(c.got) > 0 && round == 0 {
					c.send(c.ackFrame("NACK", c.got[0]))
				}
			case 3:
				c.send(v.msg(dest))
			case 4:
				c.send(v.msg("/topic/none", "receipt", "r"))
			}
		})
		g.Wait()
		if does == 0 && round == 0 {
			mc.Quiet()
			mc.Sleep(10 * time.Microsecond)
			c.send(fr("SUBSCRIBE", "id", "s", "destination", dest, "ack", ack))
		}
	}
	mc.Sleep(5 * time.Second)
	mc.Quiet()
	what := fmt.Sprintf("%s %s, %d after %v", dest, ack, does, at)
	if c.e.Closed() {
		viol("S10,S08", "%s: the connection was closed", what)
	}
	prev := int64(-1)
	for _, w := range append(c.e.Writes(), mc.WriteRec{At: mc.NowNS()}) {
		if prev >= 0 && w.At-prev > int64(time.Second) {
			viol("S10", "%s: the server was silent for %v", what, time.Duration(w.At-prev))
		}
		prev = w.At
	}
	mc.Outcome(fmt.Sprint(does, " ", len(c.in)))
}

// shbExactFn: frames that are answered by nothing arrive at the very moments
// when a heart-beat is due, or some other time.
func shbExactFn(deep int) {
	at := []time.Duration{time.Second, 500 * time.Millisecond, 250 * time.Millisecond, 200 * time.Millisecond, 999 * time.Millisecond}[mc.Choose(5)]
	n := 1 + mc.Choose(3+deep)
	kind := mc.Choose(4)
	cx := []int{0, 1000}[mc.Choose(2)]
	v := newSrv(func(s *server.Server) { s.HeartBeat = time.Second })
	d := v.stranger()
	d.e.Do(func() {
		d.e.Inject(enc(fr("CONNECT", "accept-version", "1.2", "heart-beat", fmt.Sprint(cx, ",1000"))))
	})
	mc.Quiet()
	for round := 0; round < 6; round++ {
		mc.Sleep(at)
		d.e.Do(func() {
			for i := 0; i < n; i++ {
				switch kind {
				case 0:
					d.e.Inject(enc(fr("BEGIN", "transaction", fmt.Sprint(round, i))))
				case 1:
					d.e.Inject([]byte{10})
				case 2:
					d.e.Inject(enc(fr("SEND", "destination", ta)))
				case 3:
					d.e.Inject(enc(fr([]string{"SUBSCRIBE", "UNSUBSCRIBE"}[(i+round*n)%2], "id", "x", "destination", ta)))
				}
			}
		})
	}
	end := mc.NowNS() + int64(3*time.Second)
	if cx > 0 {
		end = mc.NowNS() + int64(1900*time.Millisecond)
	}
	mc.Sleep(time.Duration(end - mc.NowNS()))
	mc.Quiet()
	what := fmt.Sprintf("%d frames of kind %d every %v", n, kind, at)
	if d.e.Closed() {
		viol("S10,S08", "%s: the connection was closed", what)
	}
	prev := int64(-1)
	for _, w := range append(d.e.Writes(), mc.WriteRec{At: mc.NowNS()}) {
		if prev >= 0 && w.At-prev > int64(time.Second) {
			viol("S10", "%s: the server was silent for %v", what, time.Duration(w.At-prev))
		}
		prev = w.At
	}
	mc.Outcome(fmt.Sprint(kind, n))
}

func init() {
	scen(&Scenario{Name: "s-hbexact", Props: []string{"S10"},
		What:     "frames that are answered by nothing arrive at the moments when a heart-beat is due",
		Quick:    []Bound{{Delay: true, PB: 1, Shards: 32}},
		Thorough: []Bound{{Delay: true, PB: 2, Shards: 128}, {Delay: true, PB: 2, Deep: 2, Shards: 128}},
		Fn:       shbExactFn})
	scen(&Scenario{Name: "s-hbcross", Props: []string{"S10"},
		What:     "what is on its way to a client crosses what the client sends, with heart-beats",
		Quick:    []Bound{{Delay: true, PB: 1, Shards: 16}},
		Thorough: []Bound{{Delay: true, PB: 2, Shards: 64}, {Delay: true, PB: 1, Deep: 1, Shards: 64}},
		Fn:       shbCrossFn})
	scen(&Scenario{Name: "s-hb", Props: []string{"S10"},
		What:  "every heart-beat configuration and pattern of traffic, in virtual time",
		Quick: []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Deep: 2, Only: "S15"}, {Delay: true, Deep: 3, Shards: 16}, {Delay: true, PB: 1, Deep: 1, Shards: 16}}, Thorough: []Bound{{Delay: true, PB: 0, Race: true, Shards: 128, Deep: 3, Only: "S15"}, {Delay: true, Deep: 4, Shards: 64}, {Delay: true, PB: 1, Deep: 2, Shards: 64}},
		Fn: shbFn})
	scen(&Scenario{Name: "s-hbstuck", Props: []string{"S10"},
		What:  "a client that announced heart-beats neither sends nor reads",
		Quick: []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Deep: 0, Only: "S15"}, {Delay: true, PB: 1, Shards: 4}}, Thorough: []Bound{{Delay: true, PB: 2, Race: true, Shards: 128, Deep: 0, Only: "S15"}, {Delay: true, PB: 2, Shards: 32}},
		Fn: shbStuckFn})
}
