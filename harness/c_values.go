package main

import (
	"errors"
	"fmt"
	"strings"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp"
	"stompmc/stomp/frame"
)

// ---------------------------------------------------------------- C04: how long calls wait

// timeoutsFn: every timeout option with values of every magnitude; the answer
// comes just before or after the timeout, or never.
func timeoutsFn(deep int) {
	calls := []string{"Send's receipt", "Disconnect", "Unsubscribe", "Send"}
	call := mc.Choose(len(calls))
	vals := []time.Duration{-1, 0, 1, time.Microsecond, time.Millisecond, 999 * time.Millisecond, time.Second, 1001 * time.Millisecond, 1500 * time.Millisecond, 30 * time.Second, 45 * time.Second, time.Hour}
	val := vals[mc.Choose(len(vals))]
	when := mc.Choose(3) // the answer: before, after, never
	others := mc.Choose(2)
	// the other timeouts are much longer, or much shorter
	other := []time.Duration{2 * time.Hour, 1}[others]
	opts := []Opt{stomp.ConnOpt.HeartBeat(0, 0), stomp.ConnOpt.WriteChannelCapacity(1)}
	dflt := []time.Duration{30 * time.Second, 30 * time.Second, 30 * time.Second, 10 * time.Second}[call]
	for i, o := range []func(time.Duration) func(*stomp.Conn) error{stomp.ConnOpt.RcvReceiptTimeout, stomp.ConnOpt.DisconnectReceiptTimeout, stomp.ConnOpt.UnsubscribeReceiptTimeout, stomp.ConnOpt.MsgSendTimeout} {
		switch {
		case i != call && !(i == 3 && others == 1 && call < 3): // a Send has to be sent
			opts = append(opts, o(other))
		case i == call && val >= 0:
			opts = append(opts, o(val))
		}
	}
	limit := val // 0: none
	if val < 0 {
		limit = dflt
	}
	at := limit - 1
	switch {
	case limit == 0 && when == 0:
		at = 24 * time.Hour
	case when == 1:
		at = limit + 1
	case when == 2:
		at = -1
	}
	if limit == 0 && when > 0 || at == 0 && call == 3 {
		return // waits for ever
	}
	p := newPeer()
	c := p.dial(opts...)
	sub := mustSub(c, "/s", stomp.AckAuto)
	mc.Quiet()
	k := consume(sub, nil)
	cmd := []string{"SEND", "DISCONNECT", "UNSUBSCRIBE", ""}[call]
	var seen *F
	answer := func() {
		p.e.Do(func() {
			if seen != nil {
				p.Receipt(seen)
			}
		})
	}
	p.On = func(p *Peer, f *F) bool {
		if f.Cmd != cmd || seen != nil {
			return false
		}
		seen = f
		if at == 0 {
			p.Receipt(f)
		}
		return true
	}
	if call == 3 {
		// the transport is stuck and the queue of frames to write is full
		p.e.Do(func() { p.far.SetLimit(1) })
		for i := 0; i < 2; i++ {
			if err := c.Send("/fill", "", []byte("x")); err != nil {
				viol("C04,C09", "cannot fill the connection: %v", err)
			}
			mc.Quiet()
		}
		answer = func() { p.e.Do(func() { p.far.SetLimit(0) }) }
	}
	t0 := mc.NowNS()
	if at > 0 {
		mc.Go("answer", func() {
			mc.Sleep(at)
			answer()
		})
	}
	var err error
	var want error
	switch call {
	case 0:
		want = stomp.ErrMsgReceiptTimeout
		err = c.Send("/d", "", []byte("x"), stomp.SendOpt.Receipt)
	case 1:
		want = stomp.ErrDisconnectReceiptTimeout
		err = c.Disconnect()
	case 2:
		want = &stomp.ErrUnsubscribeReceiptTimeout
		err = sub.Unsubscribe()
	case 3:
		want = stomp.ErrMsgSendTimeout
		err = c.Send("/late", "", []byte("x"))
	}
	took := time.Duration(mc.NowNS() - t0)
	what := fmt.Sprintf("%s with a timeout of %v (others %v), answer after %v", calls[call], limit, other, at)
	switch {
	case when == 0 && (err != nil || took != at):
		viol("C04", "%s: %v after %v", what, errStr(err), took)
	case when != 0 && (err == nil || err.Error() != want.Error()):
		viol("C04", "%s: %v instead of the timeout error", what, errStr(err))
	case when != 0 && took != limit:
		viol("C04", "%s: timed out after %v", what, took)
	}
	if call == 3 {
		if when == 2 {
			answer()
		}
		mc.Sleep(time.Minute)
		mc.Quiet()
		n := 0
		for _, f := range p.Frames() {
			if f.Get("destination") == "/late" {
				n++
			}
		}
		if n != 1 && err == nil || n != 0 && err != nil {
			viol("C03", "%s: returned %v, %d frames were sent", what, errStr(err), n)
		}
	}
	if call != 1 {
		mc.Sleep(2 * time.Second)
		mc.Quiet()
		p.On = nil
		if others == 0 {
			bye(p, c)
		} else {
			c.MustDisconnect()
		}
	}
	mc.Quiet()
	if l := leftovers(); len(l) > 0 {
		viol("C15", "%s: goroutines left: %v", what, l)
	}
	if !k.closed {
		viol("C07,C08", "%s: the subscription is still open at the end", what)
	}
	mc.Outcome(fmt.Sprintf("%s: %v", calls[call], errStr(err)))
}

// ---------------------------------------------------------------- C01, C12: every number of milliseconds

// hbValuesFn: heart-beat intervals of every number of milliseconds from 0 to
// a few thousand, and larger ones: what is announced, what is agreed on.
func hbValuesFn(deep int) {
	const per = 50
	chunks := 24 + 100*deep
	k := mc.Choose(chunks + 1)
	var vals []int
	if k < chunks {
		for i := 0; i < per; i++ {
			vals = append(vals, k*per+i)
		}
	} else {
		vals = []int{4035, 8700, 16100, 32767, 32768, 60000, 60001, 65535, 65536, 86400000, 999999999, 2147483647, 2147483648, 4294967295, 4294967296, 4294968297, 9007199254740993}
	}
	for i, v := range vals {
		ms := time.Duration(v) * time.Millisecond
		if v > 1<<43 {
			ms = 1<<63 - 1 // as long as can be
			v = int(ms / time.Millisecond)
		}
		frac := []time.Duration{0, 1, 500 * time.Microsecond, time.Millisecond - 1}[i%4]
		if ms+frac < ms {
			frac = 0
		}
		// what is announced, in both places
		p := newPeer()
		p.Conn = fr("CONNECTED", "version", "1.2", "heart-beat", "0,0")
		c := p.dial(stomp.ConnOpt.HeartBeat(ms+frac, time.Duration(i)*time.Millisecond))
		if got, want := p.In[0].Get("heart-beat"), fmt.Sprintf("%d,%d", v, i); got != want {
			viol("C01", "HeartBeat(%v, %dms) is announced as %q", ms+frac, i, got)
		}
		c.MustDisconnect()
		p = newPeer()
		p.Conn = fr("CONNECTED", "version", "1.2", "heart-beat", "0,0")
		c = p.dial(stomp.ConnOpt.HeartBeat(time.Duration(i)*time.Millisecond, ms+frac))
		if got, want := p.In[0].Get("heart-beat"), fmt.Sprintf("%d,%d", i, v); got != want {
			viol("C01", "HeartBeat(%dms, %v) is announced as %q", i, ms+frac, got)
		}
		c.MustDisconnect()
		mc.Quiet()
		if v == 0 || ms > 20*365*24*time.Hour {
			continue
		}
		// what the server announces counts if it is longer
		for _, h := range []hbConf{{send: ms, b: ms/2 + time.Millisecond, tol: 0}, {send: time.Millisecond, b: ms, tol: 0}} {
			p := newPeer()
			c := hbDial(p, h)
			mc.Sleep(3*ms + ms/2)
			mc.Quiet()
			checkGaps(fmt.Sprint(h), p, h.gap(), mc.NowNS())
			if n := len(p.In); n > 10 {
				viol("C12", "%v: %d heart-beats in %v", h, n-1, 3*ms+ms/2)
			}
			c.MustDisconnect()
			mc.Quiet()
		}
		for _, h := range []hbConf{{recv: ms, a: time.Millisecond, tol: 0}, {recv: time.Millisecond, a: ms, tol: 0}} {
			p := newPeer()
			closedAt := int64(-1)
			p.e.OnClose = func() { closedAt = mc.NowNS() }
			hbDial(p, h)
			mc.Quiet()
			last := mc.NowNS()
			mc.Sleep(2 * ms)
			mc.Quiet()
			if closedAt < 0 {
				viol("C12", "%v: not dropped", h)
			}
			if d := closedAt - last; d != int64(h.drop()) {
				viol("C12", "%v: dropped after %v instead of %v", h, time.Duration(d), h.drop())
			}
		}
	}
	mc.Outcome(fmt.Sprint(len(vals), " values"))
}

// ---------------------------------------------------------------- C06: options of Unsubscribe

var errUnsub = errors.New("refused")

// unsubOptsFn: every list of options and every way the server answers.
//
// r R options that set a receipt header, x X extra entries, f an option that
// fails, n none (nil), s an option meant for something else
func unsubOptsFn(deep int) {
	const alpha = "rRxXfnsSI"
	n := wordCount(alpha, 0, 2+deep)
	k := mc.Choose(n)
	w := nthWord(alpha, 0, k)
	temp := mc.Choose(2) == 1
	answer := mc.Choose(5) // 0 receipt, 1 receipt after a second, 2 ERROR, 3 end, 4 none
	if temp && answer > 0 {
		return
	}
	var opts []func(*frame.Frame) error
	var fail error
	var extra [][2]string
	for i, ch := range w {
		switch ch {
		case 'r':
			opts = append(opts, func(f *frame.Frame) error { f.Header.Add("receipt", "mine"); return nil })
		case 'R':
			opts = append(opts, func(f *frame.Frame) error { f.Header.Set("receipt", ""); f.Header.Add("receipt", "1"); return nil })
		case 'x', 'X':
			e := [2]string{string(ch), fmt.Sprint("v:", i)}
			opts = append(opts, func(f *frame.Frame) error { f.Header.Add(e[0], e[1]); return nil })
			extra = append(extra, e)
		case 'f':
			opts = append(opts, func(f *frame.Frame) error { return errUnsub })
			if fail == nil {
				fail = errUnsub
			}
		case 'n':
			opts = append(opts, nil)
			if fail == nil {
				fail = stomp.ErrNilOption
			}
		case 'S':
			opts = append(opts, stomp.SubscribeOpt.Header("S", "w:"))
			extra = append(extra, [2]string{"S", "w:"})
		case 'I':
			opts = append(opts, stomp.SubscribeOpt.Id("8"))
			if fail == nil {
				fail = stomp.ErrInvalidCommand
			}
		case 's':
			opts = append(opts, stomp.SendOpt.NoContentLength)
			if fail == nil {
				fail = stomp.ErrInvalidCommand
			}
		}
	}
	if fail != nil && answer > 0 {
		return
	}
	p := newPeer()
	c := p.dial(stomp.ConnOpt.HeartBeat(0, 0))
	var sub *stomp.Subscription
	if temp {
		sub = mustSub(c, "/temp-queue/x", stomp.AckAuto, stomp.SubscribeOpt.Header("reply-to", "/temp-queue/x"))
	} else {
		sub = mustSub(c, "/s", stomp.AckAuto)
	}
	other := mustSub(c, "/o", stomp.AckAuto)
	mc.Quiet()
	cons, ocons := consume(sub, nil), consume(other, nil)
	var sent, osent []*F
	deliver := func() {
		m := msgFor(sub.Id(), "/s", len(sent))
		sent = append(sent, m)
		o := msgFor(other.Id(), "/o", len(osent))
		osent = append(osent, o)
		p.Send(m, o)
		mc.Quiet()
		checkDelivered("C06,C05", "the subscription", cons, sent, c)
		checkDelivered("C06,C05", "the other subscription", ocons, osent, c)
	}
	deliver()
	what := fmt.Sprintf("Unsubscribe with options %q, temporary %v", w, temp)
	if fail != nil {
		before := len(p.In)
		err := sub.Unsubscribe(opts...)
		mc.Quiet()
		if !errors.Is(err, fail) {
			viol("C06,C03", "%s: %v instead of %v", what, errStr(err), fail)
		}
		if len(p.In) != before {
			viol("C06,C03", "%s: %v written by a call that failed", what, p.In[before:])
		}
		if !sub.Active() {
			viol("C06", "%s: inactive after a refused Unsubscribe", what)
		}
		deliver()
		opts, extra = nil, nil
	}
	p.In = nil
	var got *F
	p.On = func(p *Peer, f *F) bool {
		if f.Cmd != "UNSUBSCRIBE" || got != nil {
			return false
		}
		got = f
		switch answer {
		case 0:
			p.Receipt(f)
		case 2:
			p.Reply(fr("ERROR", "message", "boom"))
			p.EOF()
		case 3:
			p.EOF()
		}
		return true
	}
	if answer == 1 {
		mc.Go("server", func() {
			mc.Sleep(time.Second)
			p.e.Do(func() {
				if got != nil {
					p.Receipt(got)
				}
			})
		})
	}
	t0 := mc.NowNS()
	err := sub.Unsubscribe(opts...)
	took := time.Duration(mc.NowNS() - t0)
	mc.Quiet()
	wantTook := []time.Duration{0, time.Second, 0, 0, 30 * time.Second}[answer]
	if took != wantTook {
		viol("C06,C04", "%s: answer %d: returned %v after %v", what, answer, errStr(err), took)
	}
	if (err == nil) != (answer < 2) {
		viol("C06", "%s: answer %d: returned %v", what, answer, errStr(err))
	}
	if answer == 4 && !errors.Is(err, &stomp.ErrUnsubscribeReceiptTimeout) {
		viol("C06,C04", "%s: %v instead of the timeout", what, err)
	}
	if temp {
		if got != nil {
			viol("C06", "%s: %v was written", what, got)
		}
	} else {
		exp := fr("UNSUBSCRIBE", "id", sub.Id())
		exp.H = append(exp.H, extra...)
		exp.H = append(exp.H, [2]string{"receipt", "$r"})
		checkWire("C06", []*F{got}, [][]want{{{who: what, f: exp, must: true}}}, true, map[string]string{})
	}
	if answer < 2 {
		if len(cons.errs) > 0 || !cons.closed {
			viol("C06", "%s: confirmed, but the channel: errors %v, closed %v", what, cons.errs, cons.closed)
		}
		checkDelivered("C06,C05", "the subscription", cons, sent, c)
		if err := sub.Unsubscribe(opts...); !errors.Is(err, stomp.ErrCompletedSubscription) {
			viol("C06", "%s: a second Unsubscribe: %v", what, errStr(err))
		}
		o := msgFor(other.Id(), "/o", 77)
		osent = append(osent, o)
		p.Send(o)
		mc.Quiet()
		checkDelivered("C06,C05", "the other subscription", ocons, osent, c)
		if err := other.Unsubscribe(); err != nil {
			viol("C06", "Unsubscribe of the other: %v", err)
		}
	}
	mc.Outcome(strings.Trim(fmt.Sprintf("%v %v", answer, errStr(err)), " "))
	c.MustDisconnect()
	if l := leftovers(); len(l) > 0 {
		viol("C15", "%s: goroutines left: %v", what, l)
	}
}

func init() {
	scen(&Scenario{Name: "c-timeouts", Props: []string{"C04", "C15"},
		What:     "every timeout option with values of every magnitude, the answer just before or just after it, or never",
		Fn:       timeoutsFn,
		Quick:    []Bound{{Delay: true, PB: 1, Shards: 16}},
		Thorough: []Bound{{Delay: true, PB: 2, Shards: 32}, {Delay: true, PB: 1, TimeDev: true, Shards: 32}}})
	scen(&Scenario{Name: "c-hbvalues", Props: []string{"C01", "C12"},
		What:     "heart-beat intervals of every number of milliseconds",
		Fn:       hbValuesFn,
		Quick:    []Bound{{Delay: true, PB: 0, Deep: 1, Shards: 25}},
		Thorough: []Bound{{Delay: true, PB: 0, Deep: 10, Shards: 125}}})
	scen(&Scenario{Name: "c-unsub-opts", Props: []string{"C06", "C15"},
		What:     "Unsubscribe with every list of options and every answer",
		Fn:       unsubOptsFn,
		Quick:    []Bound{{Delay: true, PB: 1, Shards: 16}},
		Thorough: []Bound{{Delay: true, PB: 2, Shards: 64}, {Delay: true, PB: 1, Deep: 1, Shards: 64}}})
}

// ---------------------------------------------------------------- C13: very many identifiers

// manyIdsFn: so many identifiers that a counter of 16 bits would start again.
func manyIdsFn(deep int) {
	kind := mc.Choose(4)
	n := []int{70000, 20000, 3000, 1200000}[kind] << uint(deep)
	p := newPeer()
	c := p.dial(stomp.ConnOpt.HeartBeat(0, 0))
	p.In = nil
	seen := make(map[string]bool, n)
	note := func(id string) {
		if id == "" || seen[id] {
			viol("C13,C11", "identifier %q given twice, the second time after %d", id, len(seen))
		}
		seen[id] = true
	}
	for i := 0; i < n; i++ {
		var err error
		switch kind {
		case 0:
			var t *stomp.Transaction
			if t, err = c.BeginWithError(); err == nil {
				note(t.Id())
			}
			if i%64 == 63 {
				mc.Quiet()
				for _, f := range p.In {
					if f.Cmd != "BEGIN" || !seen[f.Get("transaction")] {
						viol("C11,C13", "%v for a transaction that was begun", f)
					}
				}
				p.In = nil
			}
		case 1:
			err = c.Send("/d", "", nil, stomp.SendOpt.Receipt)
			for _, f := range p.In {
				note(f.Get("receipt"))
			}
			p.In = nil
		case 3:
			// what the option puts into the frame
			f := frame.New(frame.SEND)
			err = stomp.SendOpt.Receipt(f)
			note(f.Header.Get(frame.Receipt))
		case 2:
			s := mustSub(c, "/s", stomp.AckAuto)
			note(s.Id())
			err = s.Unsubscribe()
			p.In = nil
		}
		if err != nil {
			viol("C13,C09", "%d: %v", i, err)
		}
	}
	bye(p, c)
	mc.Outcome(fmt.Sprint(kind, " ", n))
}

func init() {
	scen(&Scenario{Name: "c-manyids", Props: []string{"C13", "C11"},
		What:     "more identifiers than a small counter can tell apart",
		Fn:       manyIdsFn,
		Quick:    []Bound{{Delay: true, PB: 0, Shards: 4, Steps: 10000000}},
		Thorough: []Bound{{Delay: true, PB: 0, Deep: 2, Shards: 4, Steps: 100000000}}})
}
