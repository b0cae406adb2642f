package main

import (
	"fmt"
	"strings"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp"
)

// ---------------------------------------------------------------- C12

type hbConf struct {
	send, recv time.Duration // the client's option
	a, b       time.Duration // the server's heart-beat header
	tol        time.Duration // -1: default
	mult       float64       // 0: default
	none       bool          // no heart-beat header at all
}

func (h hbConf) String() string {
	return fmt.Sprintf("client %v,%v server %v,%v tolerance %v multiplier %v header %v", h.send, h.recv, h.a, h.b, h.tol, h.mult, !h.none)
}

func hbDial(p *Peer, h hbConf) *stomp.Conn {
	p.Conn = fr("CONNECTED", "version", "1.2", "heart-beat", fmt.Sprintf("%d,%d", h.a/time.Millisecond, h.b/time.Millisecond))
	if h.none {
		p.Conn = fr("CONNECTED", "version", "1.2")
	}
	opts := []Opt{stomp.ConnOpt.HeartBeat(h.send, h.recv)}
	if h.tol >= 0 {
		opts = append(opts, stomp.ConnOpt.HeartBeatError(h.tol))
	}
	if h.mult > 0 {
		opts = append(opts, stomp.ConnOpt.HeartBeatGracePeriodMultiplier(h.mult))
	}
	return p.dial(opts...)
}

// deadline after which the client must drop a silent connection, 0: never
func (h hbConf) drop() time.Duration {
	if h.recv == 0 || h.a == 0 || h.none {
		return 0
	}
	tol, mult := h.tol, h.mult
	if tol < 0 {
		tol = 5 * time.Second
	}
	if mult == 0 {
		mult = 1
	}
	return time.Duration(float64(max(h.recv, h.a)+tol) * mult)
}

// silence the client may keep, 0: any
func (h hbConf) gap() time.Duration {
	if h.send == 0 || h.b == 0 || h.none {
		return 0
	}
	return max(h.send, h.b)
}

// checkGaps looks at the times the client wrote at until end.
func checkGaps(what string, p *Peer, gap time.Duration, end int64) {
	if gap == 0 {
		return
	}
	last := int64(-1)
	for _, w := range p.e.Writes() {
		if last >= 0 && w.At-last > int64(gap) {
			viol("C12", "%s: silent for %v", what, time.Duration(w.At-last))
		}
		last = w.At
	}
	if end-last > int64(gap) {
		viol("C12", "%s: silent for %v", what, time.Duration(end-last))
	}
}

func hbConfs() []hbConf {
	s := time.Second
	var out []hbConf
	vals := []time.Duration{0, s, 4 * s, 12 * s}
	for _, recv := range vals {
		for _, a := range vals {
			for _, tol := range []time.Duration{-1, 0, s} {
				for _, mult := range []float64{0, 2.5} {
					out = append(out, hbConf{send: 0, recv: recv, a: a, tol: tol, mult: mult})
				}
			}
		}
	}
	out = append(out, hbConf{recv: 4 * s, a: s, tol: -1, mult: 0.75}, hbConf{recv: s, a: 4 * s, tol: 12 * s, mult: 0.5},
		hbConf{recv: s, none: true, tol: -1}, hbConf{recv: time.Minute, a: 1500 * time.Millisecond, tol: -1}, hbConf{recv: 60001 * time.Millisecond, a: time.Hour, tol: 3 * s, mult: 1.5})
	return out
}

// hbReadFn: every arrival pattern. In each slot something arrives at its end
// or not: '.' nothing, 'h' heart-beat, 'f' a frame, 'p' part of a frame.
func hbReadFn(deep int) {
	confs := hbConfs()
	const alpha = ".hf"
	slots := 4 + deep
	n := 1
	for i := 0; i < slots; i++ {
		n *= len(alpha)
	}
	k := mc.Choose(len(confs) * n)
	h := confs[k%len(confs)]
	k /= len(confs)
	k0 := k
	p := newPeer()
	c := hbDial(p, h)
	sub, err := c.Subscribe("/s", stomp.AckAuto)
	if err != nil {
		viol("*", "subscribe: %v", err)
	}
	cons := consume(sub, nil)
	mc.Quiet()
	iv := max(h.recv, h.a)
	if h.recv == 0 || h.a == 0 {
		iv = time.Second
	}
	drop := h.drop()
	// arrivals at multiples of slightly less than the interval, then of half
	// of what is allowed
	step := iv - iv/1000
	closedAt := int64(-1)
	p.e.OnClose = func() { closedAt = mc.NowNS() }
	last := mc.NowNS()
	t := last
	var word []byte
	nf, other := 0, 0
	for i := 0; i < slots; i++ {
		ch := alpha[k%len(alpha)]
		k /= len(alpha)
		word = append(word, ch)
		mc.Sleep(step)
		t += int64(step)
		if drop > 0 && t > last+int64(drop) {
			continue // over by now
		}
		if drop > 0 && t == last+int64(drop) {
			return // both at once
		}
		switch ch {
		case 'h':
			p.Send(nil)
			last = t
		case 'f':
			// any frame will do, whether or not anybody waits for it
			switch (k0 + i + other) % 4 {
			case 0, 1:
				nf++
				p.Send(msgFor(sub.Id(), "/s", nf))
			case 2:
				other++
				p.Send(msgFor("nobody", "/s", 0))
			case 3:
				other++
				p.Send(fr("RECEIPT", "receipt-id", "nobody"))
			}
			last = t
		}
		mc.Quiet()
	}
	what := fmt.Sprintf("%v: arrivals %q every %v", h, word, step)
	if drop == 0 {
		mc.Sleep(24 * time.Hour)
		mc.Quiet()
		if closedAt >= 0 {
			viol("C12", "%s: dropped at %v although no heart-beats were agreed on", what, time.Duration(closedAt))
		}
		c.MustDisconnect()
		mc.Quiet()
		return
	}
	mc.Sleep(time.Duration(last + int64(drop) + int64(time.Second) - mc.NowNS()))
	mc.Quiet()
	if closedAt < 0 {
		viol("C12", "%s: not dropped although silent for more than %v", what, drop)
	}
	if d := closedAt - last; d != int64(drop) {
		viol("C12", "%s: dropped after %v of silence instead of %v", what, time.Duration(d), drop)
	}
	if len(cons.msgs) != nf || len(cons.errs) != 1 || !cons.closed {
		viol("C12,C07", "%s: %d of %d messages, %d errors, closed %v", what, len(cons.msgs), nf, len(cons.errs), cons.closed)
	}
	mc.Outcome(fmt.Sprint(drop, " ", string(word)))
	if l := leftovers(); len(l) > 0 {
		viol("C15", "%s: goroutines left: %v", what, l)
	}
}

// hbWriteFn: every pattern of calls; the client is never silent too long.
// '.' nothing, 's' a send, 'r' a send with receipt, 't' a temporary queue
// comes and goes (nothing is written), 'm' a message arrives, 'a' an ack on an
// auto subscription (nothing is written), 'T' a transaction
func hbWriteFn(deep int) {
	s := time.Second
	var confs []hbConf
	for _, send := range []time.Duration{0, s, 7 * s, 20 * s} {
		for _, b := range []time.Duration{0, 2 * s, 5 * s, 12 * s} {
			for _, tol := range []time.Duration{-1, s} {
				confs = append(confs, hbConf{send: send, b: b, tol: tol, recv: 100 * s, a: 0})
			}
		}
	}
	confs = append(confs, hbConf{send: 7 * s, b: 12 * s, tol: -1, recv: 9 * s, a: 10 * s})
	const alpha = ".srtmT"
	other := 0
	slots := 3 + deep
	n := 1
	for i := 0; i < slots; i++ {
		n *= len(alpha)
	}
	k := mc.Choose(len(confs) * n)
	h := confs[k%len(confs)]
	k0 := k % len(confs)
	k /= len(confs)
	var word []byte
	for i := 0; i < slots; i++ {
		word = append(word, alpha[k%len(alpha)])
		k /= len(alpha)
	}
	p := newPeer()
	c := hbDial(p, h)
	sub, err := c.Subscribe("/s", stomp.AckAuto)
	if err != nil {
		viol("*", "subscribe: %v", err)
	}
	cons := consume(sub, nil)
	over := false
	if h.a > 0 {
		mc.Go("ticker", func() {
			for !over {
				mc.Sleep(h.a)
				p.Send(nil)
			}
		})
	}
	base := max(h.send, h.b)
	if base == 0 {
		base = s
	}
	step := base * 7 / 10
	what := fmt.Sprintf("%v: calls %q every %v", h, word, step)
	for i, ch := range word {
		var err error
		switch ch {
		case 's':
			err = c.Send("/d", "", []byte("x"))
		case 'r':
			err = c.Send("/d", "", []byte("x"), stomp.SendOpt.Receipt)
		case 't':
			var t *stomp.Subscription
			name := fmt.Sprint("/temp-queue/", i)
			t, err = c.Subscribe(name, stomp.AckAuto, stomp.SubscribeOpt.Header("reply-to", name))
			if err == nil {
				consume(t, nil)
				mc.Sleep(step / 2)
				err = t.Unsubscribe()
			}
		case 'm':
			// something arrives
			switch (k0 + other) % 4 {
			case 0:
				p.Send(msgFor(sub.Id(), "/s", i))
			case 1:
				p.Send(fr("RECEIPT", "receipt-id", "nobody"))
			case 2:
				p.Send(nil)
			case 3:
				p.Send(msgFor("nobody", "/s", i))
			}
			other++
		case 'T':
			var tx *stomp.Transaction
			tx, err = c.BeginWithError()
			if err == nil {
				err = tx.Send("/d", "", nil)
			}
			if err == nil {
				err = tx.Commit()
			}
		}
		if err != nil {
			viol("C12,C09", "%s: %v", what, err)
		}
		mc.Sleep(step)
	}
	mc.Sleep(5*base + 1)
	mc.Quiet()
	over = true
	if p.e.Closed() {
		viol("C12", "%s: the connection was dropped", what)
	}
	p.WholeFrames()
	checkGaps(what, p, h.gap(), mc.NowNS())
	if h.b == 0 {
		for _, f := range p.In {
			if f == nil {
				viol("C12", "%s: a heart-beat although the server wants none", what)
			}
		}
	}
	mc.Outcome(fmt.Sprint(strings.Count(p.Cmds(), "<hb>"), len(cons.msgs)))
	c.MustDisconnect()
	mc.Quiet()
}

// a heart-beat falls due while frames are on their way through a slow
// transport: frames stay whole, and heart-beats go on afterwards
func hbSlowFn(deep int) {
	k := mc.Choose(3 * 3)
	s := time.Second
	h := hbConf{send: 2 * s, b: []time.Duration{2 * s, 3 * s, s}[k%3], tol: s, recv: 0}
	p := newPeer()
	c := hbDial(p, h)
	mc.Quiet()
	p.e.Do(func() { p.far.SetLimit(3000) })
	stop := false
	mc.Go("slow peer", func() {
		mc.Daemon()
		b := make([]byte, 2500)
		for !stop {
			if _, err := p.far.Read(b); err != nil {
				return
			}
			mc.Sleep([]time.Duration{700 * time.Millisecond, 1900 * time.Millisecond, 4 * s}[k/3])
		}
		b = make([]byte, 65536)
		for {
			if _, err := p.far.Read(b); err != nil {
				return
			}
		}
	})
	big := strings.Repeat("0123456789", 700)
	var g group
	for i := 0; i < 2; i++ {
		i := i
		g.Go("ab"[i:i+1], func() {
			for j := 0; j < 2; j++ {
				if err := c.Send(fmt.Sprint("/d", i, j), "", []byte(big)); err != nil {
					viol("C12,C03", "send: %v", err)
				}
			}
		})
	}
	g.Wait()
	mc.Sleep(2 * time.Minute)
	p.e.Do(func() { stop = true; p.far.SetLimit(0) })
	mc.Sleep(time.Minute)
	mc.Quiet()
	p.WholeFrames()
	n := 0
	for _, f := range p.Frames() {
		if f.Cmd == "SEND" {
			n++
			if string(f.Body) != big {
				viol("C12,C03", "a frame arrived damaged")
			}
		}
	}
	if n != 4 {
		viol("C12,C03", "%d of 4 frames arrived", n)
	}
	// heart-beats at the agreed rate at the end
	ws := p.e.Writes()
	if mc.NowNS()-ws[len(ws)-1].At > int64(h.gap()) {
		viol("C12", "no heart-beats any more")
	}
	c.MustDisconnect()
	mc.Quiet()
}

func init() {
	scen(&Scenario{
		Name:     "c-hb-read",
		Props:    []string{"C12"},
		What:     "every arrival pattern on a discrete timeline for every combination of intervals, tolerance and multiplier: the time of the drop",
		Fn:       hbReadFn,
		Quick:    []Bound{{Delay: true, PB: 0, Shards: 64}, {Delay: true, PB: 1, Shards: 64}, {Delay: true, PB: 0, Shards: 64, Deep: 1}},
		Thorough: []Bound{{Delay: true, PB: 1, Shards: 128}, {Delay: true, PB: 0, Shards: 128, Deep: 2}, {Delay: true, PB: 2, Shards: 128}},
	})
	scen(&Scenario{
		Name:     "c-hb-write",
		Props:    []string{"C12"},
		What:     "every pattern of calls on a discrete timeline: the client is never silent longer than agreed",
		Fn:       hbWriteFn,
		Quick:    []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 0, Shards: 64}, {Delay: true, PB: 1, Shards: 64}, {Delay: true, PB: 0, Shards: 64, Deep: 1}},
		Thorough: []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 1, Shards: 128}, {Delay: true, PB: 0, Shards: 128, Deep: 2}},
	})
	scen(&Scenario{
		Name:     "c-hb-slow",
		Props:    []string{"C12", "C03"},
		What:     "heart-beats fall due while large frames go through a slow transport",
		Fn:       hbSlowFn,
		Quick:    []Bound{{Delay: true, PB: 1, Shards: 9}},
		Thorough: []Bound{{Delay: true, PB: 2, Shards: 9}},
	})
}
