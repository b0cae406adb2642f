package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp"
	"stompmc/stomp/frame"
)

// msgFor is the i-th message of a history; contents go round.
func msgFor(subid, dest string, i int) *F {
	f := fr("MESSAGE", "destination", dest, "subscription", subid, "message-id", fmt.Sprint("id", i), "ack", fmt.Sprint("a", i))
	switch i % 5 {
	case 0:
		f.body(fmt.Sprint("body ", i))
	case 1:
		b := fmt.Sprintf("nul\x00%d\x00\n\x00", i)
		f.H = append(f.H, [2]string{"content-length", fmt.Sprint(len(b))}, [2]string{"content-type", "application/x"})
		f.body(b)
	case 2:
		f.H = append(f.H, [2]string{"x", "1"}, [2]string{"x", "2"}, [2]string{"destination", "/other"}, [2]string{"subscription", "zz"})
	case 3:
		f.H = append(f.H, [2]string{"a:b\n\\c", "v:\n\\\r"}, [2]string{"content-type", "text/plain;charset=utf-8"}, [2]string{"content-length", "0"})
	case 4:
		f.H = append(f.H, [2]string{"empty", ""})
		f.body(strings.Repeat("long ", 30) + fmt.Sprint(i))
	}
	return f
}

// hdr lists the entries of a library header.
func hdr(h *frame.Header) [][2]string {
	var out [][2]string
	if h == nil {
		return nil
	}
	for i := 0; i < h.Len(); i++ {
		k, v := h.GetAt(i)
		out = append(out, [2]string{k, v})
	}
	return out
}

// sameMsg compares a delivered message with its frame.
func sameMsg(m *stomp.Message, f *F, c *stomp.Conn, sub *stomp.Subscription) string {
	switch {
	case m.Err != nil:
		return "error " + m.Err.Error()
	case m.Destination != f.Get("destination"):
		return fmt.Sprintf("destination %q", m.Destination)
	case m.ContentType != f.Get("content-type"):
		return fmt.Sprintf("content type %q", m.ContentType)
	case !bytes.Equal(m.Body, f.Body):
		return fmt.Sprintf("body %q", m.Body)
	case fmt.Sprint(hdr(m.Header)) != fmt.Sprint(f.H):
		return fmt.Sprintf("headers %v", hdr(m.Header))
	case m.Conn != c:
		return "another connection"
	case m.Subscription != sub:
		return "another subscription"
	}
	return ""
}

func checkDelivered(tags, what string, k *consumer, want []*F, c *stomp.Conn) {
	for i, m := range k.msgs {
		if i >= len(want) {
			viol(tags, "%s: %d messages delivered on subscription %s instead of %d", what, len(k.msgs), k.sub.Id(), len(want))
		}
		if r := sameMsg(m, want[i], c, k.sub); r != "" {
			viol(tags, "%s: message %d of subscription %s is not %v: %s", what, i, k.sub.Id(), want[i], r)
		}
	}
	if len(k.msgs) != len(want) {
		viol(tags, "%s: %d messages delivered on subscription %s instead of %d", what, len(k.msgs), k.sub.Id(), len(want))
	}
}

// readAll is consume with Read instead of the channel.
func readAll(sub *stomp.Subscription) *consumer {
	k := &consumer{sub: sub}
	mc.Go("reader", func() {
		for {
			m, err := sub.Read()
			if errors.Is(err, stomp.ErrCompletedSubscription) {
				k.closed = true
				return
			}
			if err != nil {
				k.errs = append(k.errs, &stomp.Message{Err: err})
				continue
			}
			k.msgs = append(k.msgs, m)
		}
	})
	return k
}

// deliverFn: every word of arrivals, in every chunking of a few, to two
// subscriptions, with something else happening on the connection.
func deliverFn(deep int) {
	const alpha = "ABUVNHRM"
	n := wordCount(alpha, 1, 2+deep)
	const chunkings, sides, versions = 3, 6, 2
	k := mc.Choose(n * chunkings * sides * versions)
	w := nthWord(alpha, 1, k%n)
	k /= n
	chunk, side, ver := k%chunkings, k/chunkings%sides, []string{"1.2", "1.1"}[k/chunkings/sides]
	p := newPeer()
	p.Conn = fr("CONNECTED", "version", ver)
	c := p.dial(stomp.ConnOpt.ReadChannelCapacity(1), stomp.ConnOpt.HeartBeat(0, 0))
	a, err := c.Subscribe("/a", stomp.AckAuto)
	if err != nil {
		viol("*", "subscribe: %v", err)
	}
	var b *stomp.Subscription
	if side == 5 {
		b, err = c.Subscribe("/temp-queue/b", stomp.AckClient, stomp.SubscribeOpt.Header("reply-to", "/temp-queue/b"))
	} else {
		b, err = c.Subscribe("/b", stomp.AckClient, stomp.SubscribeOpt.Id("own id"), stomp.SubscribeOpt.Header("receipt", "rb"))
	}
	if err != nil {
		viol("*", "subscribe: %v", err)
	}
	if want := []string{"own id", "/temp-queue/b"}[side/5]; b.Id() != want {
		viol("C05,C13", "subscription id %q instead of %q", b.Id(), want)
	}
	mc.Quiet()
	ka, kb := consume(a, nil), readAll(b)
	var wa, wb []*F
	var fs [][]byte
	for i, ch := range w {
		var f *F
		switch ch {
		case 'A':
			f = msgFor(a.Id(), "/a", i)
			wa = append(wa, f)
		case 'B':
			f = msgFor(b.Id(), "/b", i)
			wb = append(wb, f)
		case 'U':
			f = msgFor("unknown", "/a", i)
		case 'V':
			// its destination reads like a subscription's name
			f = msgFor("unknown", b.Id(), i)
		case 'M':
			// the least a message can have
			f = fr("MESSAGE", "subscription", a.Id(), "message-id", fmt.Sprint("id", i), "destination", "/a")
			if i%2 == 1 {
				f = fr("MESSAGE", "subscription", a.Id())
			}
			wa = append(wa, f)
		case 'N':
			f = msgFor("x", "/a", i)
			f.H = append(f.H[:1:1], f.H[2:]...)
			if i%5 == 2 {
				f.H = f.H[:5]
			}
		case 'R':
			f = fr("RECEIPT", "receipt-id", fmt.Sprint("none", i))
		}
		fs = append(fs, enc(f))
	}
	p.On = func(p *Peer, f *F) bool {
		// a new subscription has messages at once
		if f.Cmd == "SUBSCRIBE" {
			p.Reply(msgFor(f.Get("id"), "/c", 1), msgFor(f.Get("id"), "/c", 2))
		}
		return false
	}
	var kc *consumer
	var g group
	switch side {
	case 1:
		g.Go("side", func() {
			s, err := c.Subscribe("/c", stomp.AckAuto)
			if err != nil {
				viol("C05,C09", "subscribe: %v", err)
			}
			kc = consume(s, nil)
		})
	case 2:
		g.Go("side", func() {
			if err := b.Unsubscribe(); err != nil {
				viol("C06", "unsubscribe: %v", err)
			}
		})
	case 3:
		g.Go("side", func() {
			if err := c.Send("/d", "", nil, stomp.SendOpt.Receipt); err != nil {
				viol("C04", "send: %v", err)
			}
		})
	case 4:
		g.Go("side", func() {
			s, err := c.Subscribe("/c", stomp.AckAuto, stomp.SubscribeOpt.Header("receipt", "rc"))
			if err != nil {
				viol("C05,C09", "subscribe: %v", err)
			}
			kc = consume(s, nil)
			mc.Quiet()
			if err := s.Unsubscribe(); err != nil {
				viol("C06", "unsubscribe: %v", err)
			}
		})
	case 5:
		g.Go("side", func() {
			if err := b.Unsubscribe(); err != nil {
				viol("C06", "unsubscribe: %v", err)
			}
		})
	}
	switch chunk {
	case 0:
		p.e.Do(func() { p.e.Inject(bytes.Join(fs, nil)) })
	case 1:
		for _, b := range fs {
			b := b
			p.e.Do(func() { p.e.Inject(b) })
		}
	case 2:
		// chunks that end within frames
		all := bytes.Join(fs, nil)
		for len(all) > 0 {
			n := min(len(all), 37)
			b := all[:n]
			all = all[n:]
			p.e.Do(func() { p.e.Inject(b) })
		}
	}
	g.Wait()
	mc.Quiet()
	what := fmt.Sprintf("arrivals %q, chunking %d, side %d", w, chunk, side)
	checkDelivered("C05", what, ka, wa, c)
	if side == 2 || side == 5 {
		// those that arrived before the end, a prefix
		if len(kb.msgs) < len(wb) {
			wb = wb[:len(kb.msgs)]
		}
	} else if !b.Active() {
		viol("C05", "%s: a subscription became inactive", what)
	}
	checkDelivered("C05", what, kb, wb, c)
	if kc != nil {
		checkDelivered("C05", what, kc, []*F{msgFor(kc.sub.Id(), "/c", 1), msgFor(kc.sub.Id(), "/c", 2)}, c)
	}
	if len(ka.errs)+len(kb.errs) > 0 || ka.closed {
		viol("C05,C07", "%s: subscription ended", what)
	}
	mc.Outcome(fmt.Sprintf("%s %d %d", w, chunk, len(kb.msgs)))
	if err := c.Disconnect(); err != nil {
		viol("C08", "disconnect: %v", err)
	}
	if l := leftovers(); len(l) > 0 {
		viol("C15", "%s: goroutines left: %v", what, l)
	}
}

// a consumer that starts late or is slow gets everything
func deliverSlowFn(deep int) {
	k := mc.Choose(3 * 3 * 2)
	n, mode, cap := []int{5, 17, 45}[k%3], k/3%3, 1+k/9*19
	p := newPeer()
	c := p.dial(stomp.ConnOpt.ReadChannelCapacity(cap), stomp.ConnOpt.HeartBeat(0, 0))
	a, err := c.Subscribe("/a", stomp.AckAuto)
	b, err2 := c.Subscribe("/b", stomp.AckAuto)
	if err != nil || err2 != nil {
		viol("*", "subscribe: %v %v", err, err2)
	}
	mc.Quiet()
	var wa, wb []*F
	for i := 0; i < n; i++ {
		wa = append(wa, msgFor(a.Id(), "/a", i))
		if i%7 == 3 {
			wb = append(wb, msgFor(b.Id(), "/b", i))
		}
	}
	var ka, kb *consumer
	if mode == 0 {
		ka = consume(a, func(*stomp.Message) { mc.Sleep(time.Second) })
		kb = consume(b, nil)
	}
	p.e.Do(func() {
		for i, f := range wa {
			p.Reply(f)
			if i%7 == 3 {
				p.Reply(wb[i/7])
			}
		}
	})
	mc.Sleep(10 * time.Second)
	if mode != 0 {
		ka = consume(a, nil)
		if mode == 2 {
			mc.Quiet()
		}
		kb = consume(b, func(*stomp.Message) { mc.Sleep(time.Second) })
	}
	mc.Sleep(10 * time.Minute)
	mc.Quiet()
	what := fmt.Sprintf("%d messages, mode %d", n, mode)
	checkDelivered("C05", what, ka, wa, c)
	checkDelivered("C05", what, kb, wb, c)
	if err := c.Disconnect(); err != nil {
		viol("C08", "disconnect: %v", err)
	}
	if l := leftovers(); len(l) > 0 {
		viol("C15", "%s: goroutines left: %v", what, l)
	}
}

// ---------------------------------------------------------------- C06

// unsubFn: Unsubscribe against every server script, something else concurrent.
func unsubFn(alpha string, max func(int) int) func(int) {
	return func(deep int) {
		n := wordCount(alpha, 0, max(deep))
		const sides, pres = 6, 2
		k := mc.Choose(n * sides * pres * 2)
		script := nthWord(alpha, 0, k%n)
		k /= n
		side, pre, slow := k%sides, k/sides%pres*2, k/sides/pres == 1
		timeout := 30 * time.Second
		w := wireSetup(stomp.ConnOpt.HeartBeat(0, 0), stomp.ConnOpt.ReadChannelCapacity(1), stomp.ConnOpt.UnsubscribeReceiptTimeout(timeout))
		other, err := w.c.Subscribe("/other", stomp.AckAuto)
		if err != nil {
			viol("*", "subscribe: %v", err)
		}
		ko := consume(other, nil)
		mc.Quiet()
		w.p.In = nil
		s := &scripted{w: w, script: script, cmd: "UNSUBSCRIBE"}
		s.start()
		var cons *consumer
		if !slow {
			cons = consume(w.sub, nil)
		}
		if pre > 0 {
			w.p.e.Do(func() {
				for i := 0; i < pre; i++ {
					s.play("m")
				}
			})
		}
		what := fmt.Sprintf("server script %q after %d messages, side %d", script, pre, side)
		t0 := mc.NowNS()
		var g group
		var sideErr error
		sideDone, disc := false, false
		switch side {
		case 1:
			g.Go("side", func() { sideErr = w.sub.Unsubscribe(); sideDone = true })
		case 2:
			disc = true
			g.Go("side", func() { sideErr = w.c.Disconnect(); sideDone = true })
		case 3:
			disc = true
			g.Go("side", func() { sideErr = w.c.MustDisconnect(); sideDone = true })
		case 4:
			g.Go("side", func() { w.p.Send(msgFor(other.Id(), "/other", 0)) })
		case 5:
			g.Go("side", func() { sideErr = w.c.Send("/x", "", nil, stomp.SendOpt.Receipt); sideDone = true })
		}
		err = w.sub.Unsubscribe()
		took := time.Duration(mc.NowNS() - t0)
		_ = sideDone
		closedNow := false
		if slow {
			// what was there before it was closed is still to be read
			cons = consume(w.sub, nil)
		}
		if w.sub.Active() {
			viol("C06", "%s: still active", what)
		}
		if side == 1 {
			g.Wait()
		}
		own := s.ownAt >= 0 && s.ownAt < t0+int64(timeout)
		mine := err
		if side == 1 {
			// one of the two gets it
			if errors.Is(err, stomp.ErrCompletedSubscription) {
				mine = sideErr
				if errors.Is(sideErr, stomp.ErrCompletedSubscription) {
					viol("C06", "%s: both Unsubscribe calls say that it is completed", what)
				}
			} else if !errors.Is(sideErr, stomp.ErrCompletedSubscription) {
				viol("C06", "%s: two Unsubscribe calls returned %v and %v", what, errStr(err), errStr(sideErr))
			}
		}
		switch {
		case side == 1 && errors.Is(err, stomp.ErrCompletedSubscription):
			// the other call's result is as it is
			if mine == nil && !own {
				viol("C06", "%s: success without confirmation", what)
			}
			if mine != nil && own {
				viol("C06", "%s: confirmed, but failed: %v", what, mine)
			}
		case err == nil && !own:
			viol("C06", "%s: success without confirmation", what)
		case err == nil:
			if mc.NowNS() != s.ownAt {
				viol("C06", "%s: confirmed at %v, returned at %v", what, s.ownAt-t0, took)
			}
			closedNow = true
		case disc:
			// the connection may have gone first
			if took > timeout {
				viol("C06", "%s: returned %v after %v", what, err, took)
			}
		case own && s.failed && side == 5:
			// the other call may have noticed the end first
		case own:
			viol("C06", "%s: confirmed in time, but failed: %v", what, err)
		case !s.failed || took >= timeout:
			if !errors.Is(err, &stomp.ErrUnsubscribeReceiptTimeout) || took != timeout {
				viol("C06", "%s: not confirmed, and %q after %v", what, err, took)
			}
		}
		mc.Outcome(fmt.Sprintf("%s: %s", what, errStr(err)))
		if e := w.sub.Unsubscribe(); !errors.Is(e, stomp.ErrCompletedSubscription) {
			viol("C06", "%s: a second Unsubscribe returned %v", what, errStr(e))
		}
		if _, e := w.sub.Read(); !errors.Is(e, stomp.ErrCompletedSubscription) {
			viol("C06", "%s: Read afterwards returned %v", what, errStr(e))
		}
		g.Wait()
		mc.Sleep(time.Duration(len(script)+1) * longTime)
		mc.Quiet()
		nu := 0
		for _, f := range w.p.Frames() {
			if f.Cmd == "UNSUBSCRIBE" {
				nu++
				if f.Get("id") != w.sub.Id() || f.Get("receipt") == "" || len(f.Body) > 0 {
					viol("C06", "%s: %v on the wire", what, f)
				}
			}
		}
		if nu > 1 || nu == 0 && !disc {
			viol("C06", "%s: %d UNSUBSCRIBE frames", what, nu)
		}
		if closedNow {
			// everything before the confirmation, nothing after it
			var want []*F
			for i := 1; i <= pre+strings.Count(script[:strings.IndexByte(script, 'o')], "m"); i++ {
				want = append(want, fr("MESSAGE", "destination", "/s", "subscription", w.sub.Id(), "message-id", fmt.Sprint("x", i), "ack", "a"))
			}
			checkDelivered("C06,C05", what, cons, want, w.c)
			if len(cons.errs) > 0 {
				viol("C06", "%s: an error after a confirmed Unsubscribe: %v", what, cons.errs[0].Err)
			}
			if !cons.closed {
				viol("C06", "%s: confirmed, but the channel is open", what)
			}
		}
		if s.ownAt >= 0 && !cons.closed {
			viol("C06", "%s: confirmed late, and the channel is still open", what)
		}
		if !s.failed && !disc {
			// nobody else noticed
			if ko.closed || len(ko.errs) > 0 || side == 4 && len(ko.msgs) != 1 {
				viol("C06,C05", "%s: another subscription was disturbed", what)
			}
			if side == 5 && sideErr != nil {
				viol("C04,C06", "%s: a Send was disturbed: %v", what, sideErr)
			}
			w.p.On = nil
			if err := w.c.Send("/d", "", nil, stomp.SendOpt.Receipt); err != nil {
				viol("C04,C06", "%s: a later Send failed: %v", what, err)
			}
		}
		w.c.MustDisconnect()
		if l := leftovers(); len(l) > 0 {
			viol("C15,C06", "%s: goroutines left: %v", what, l)
		}
		if !cons.closed || !ko.closed {
			viol("C06,C07,C15", "%s: a channel is open after the end", what)
		}
	}
}

// temporary queues: no exchange with the server
func unsubTempFn(deep int) {
	k := mc.Choose(3 * 2 * 3)
	msgs, opt, side := k%3, k/3%2, k/6
	w := wireSetup(stomp.ConnOpt.HeartBeat(0, 0), stomp.ConnOpt.ReadChannelCapacity(1))
	opts := []func(*frame.Frame) error{stomp.SubscribeOpt.Header("reply-to", "/temp-queue/t")}
	sub, err := w.c.Subscribe("/temp-queue/t", stomp.AckAuto, opts...)
	if err != nil {
		viol("*", "subscribe: %v", err)
	}
	mc.Quiet()
	if len(w.p.In) > 0 {
		viol("C06,C03", "%v was sent for a temporary queue", w.p.In)
	}
	cons := consume(sub, nil)
	var want []*F
	for i := 0; i < msgs; i++ {
		want = append(want, msgFor("/temp-queue/t", "/temp-queue/t", i))
	}
	w.p.e.Do(func() { w.p.Reply(want...) })
	if opt == 1 {
		mc.Quiet()
	}
	var g group
	var e2 error
	switch side {
	case 1:
		g.Go("side", func() { e2 = sub.Unsubscribe() })
	case 2:
		g.Go("side", func() { e2 = w.c.Send("/d", "", []byte("x"), stomp.SendOpt.Receipt) })
	}
	err = sub.Unsubscribe()
	g.Wait()
	mc.Quiet()
	if side == 1 {
		if errors.Is(err, stomp.ErrCompletedSubscription) {
			err, e2 = e2, err
		}
		if !errors.Is(e2, stomp.ErrCompletedSubscription) {
			viol("C06", "two Unsubscribe calls: %v, %v", errStr(err), errStr(e2))
		}
		e2 = nil
	}
	if err != nil || e2 != nil {
		viol("C06", "Unsubscribe %v, Send %v", errStr(err), errStr(e2))
	}
	if !cons.closed || len(cons.errs) > 0 || sub.Active() {
		viol("C06", "after Unsubscribe: closed %v, %d errors, active %v", cons.closed, len(cons.errs), sub.Active())
	}
	if opt == 0 && len(cons.msgs) < len(want) {
		want = want[:len(cons.msgs)]
	}
	checkDelivered("C06,C05", "temporary queue", cons, want, w.c)
	for _, f := range w.p.Frames() {
		if f.Cmd != "SEND" {
			viol("C06", "%v was sent for a temporary queue", f)
		}
	}
	// messages that still arrive are ignored
	w.p.Send(msgFor("/temp-queue/t", "/temp-queue/t", 0))
	if err := w.c.Send("/d", "", []byte("x"), stomp.SendOpt.Receipt); err != nil {
		viol("C06", "a later Send: %v", err)
	}
	if err := w.c.Disconnect(); err != nil {
		viol("C08", "disconnect: %v", err)
	}
	if l := leftovers(); len(l) > 0 {
		viol("C15,C06", "goroutines left: %v", l)
	}
}

func init() {
	scen(&Scenario{
		Name:     "c-deliver",
		Props:    []string{"C05"},
		What:     "every sequence of arrivals for two subscriptions, foreign ones, heart-beats and receipts in three chunkings while other calls go on",
		Fn:       deliverFn,
		Quick:    []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 1, Shards: 64}, {Delay: true, PB: 0, Shards: 64, Deep: 1}},
		Thorough: []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 2, Shards: 128}, {Delay: true, PB: 1, Shards: 128, Deep: 1}, {Delay: true, PB: 0, Shards: 128, Deep: 2}, {Delay: true, PB: 2, Shards: 128, Deep: 1}},
	})
	scen(&Scenario{
		Name:     "c-deliver-slow",
		Props:    []string{"C05", "C15"},
		What:     "more messages than all buffers hold, consumers that start late or are slow",
		Fn:       deliverSlowFn,
		Quick:    []Bound{{Delay: true, PB: 1, Shards: 18}},
		Thorough: []Bound{{Delay: true, PB: 2, Shards: 18}},
	})
	scen(&Scenario{
		Name:     "c-unsub",
		Props:    []string{"C06", "C05"},
		What:     "Unsubscribe against every server script over {receipt, foreign receipt, MESSAGE, delay}, alone and next to other calls",
		Fn:       unsubFn("oxmS", func(d int) int { return 2 + d }),
		Quick:    []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 2, Shards: 64, Only: "C06"}, {Delay: true, PB: 1, Shards: 64, Only: "C05"}},
		Thorough: []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 3, Shards: 128}, {Delay: true, PB: 2, Shards: 128, Deep: 1}},
	})
	scen(&Scenario{
		Name:     "c-unsub-fail",
		Props:    []string{"C06", "C15"},
		What:     "the same with ERROR and the end of the stream",
		Fn:       unsubFn("omezS", func(d int) int { return 2 + d }),
		Quick:    []Bound{{Delay: true, PB: 0, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 1, Shards: 64}},
		Thorough: []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 2, Shards: 128}, {Delay: true, PB: 2, Shards: 128, Deep: 1}},
	})
	scen(&Scenario{
		Name:     "c-unsub-temp",
		Props:    []string{"C06", "C05"},
		What:     "subscriptions to temporary queues",
		Fn:       unsubTempFn,
		Quick:    []Bound{{Delay: true, PB: 1, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 2, Shards: 18}},
		Thorough: []Bound{{Delay: true, PB: 2, Race: true, Shards: 32, Only: "C09"}, {Delay: true, PB: 3, Shards: 18}},
	})
}
